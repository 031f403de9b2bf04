from prop import P
P("E01","A tiles game is always its tiles, and a move slides one into the space",
 "In the tiles game of the examples, every move on every board either swaps the tile it names with the empty space directly left, right, above or below it, or, if there is no such space or no such place, changes nothing: no tile ever leaves the board or is lost, whatever the shape of the board and the history. Moves sent through the context have that effect once, and listeners are told of the game exactly when it changed.",
 ["inputs","histories"],"all reachable boards with every move, all shapes of boards up to 64 places, all short sequences of moves through a context",
 "Tests make six moves on boards of three by three; the corners and the ends of rows are not tried.",
 ["example/tiles/game.hpp","include/nbdl/apply_foreign_message.hpp","include/nbdl/context.hpp"],
 [("where a tile may go","get_tile_swap_index"),("moves out of range","apply_game_move")],
 observe=["the board after every move","the result and the notifications"])
P("E02","Raw messages arrive whole and in order, however the stream is cut",
 "In the pipes example, a text that write_raw_message sends is received by read_raw_message exactly, whatever its length and bytes and however the stream is cut into pieces; if the stream ends before, the reading is rejected, once. receive_messages_until gives every message to the action once and in order, resolves once with the message that ends the conversation, and otherwise rejects once, at the first text that is no message, that the action refuses, or when the connection is lost.",
 ["inputs","histories","fault_sequences"],"texts of all lengths that matter, all cuts of the stream around their ends, all short conversations with every place of a loss",
 "The example has no tests, and a local connection delivers whole messages.",
 ["example/pipes/read_raw_message.hpp","example/pipes/write_raw_message.hpp","example/pipes/receive_messages_until.hpp","include/nbdl/run_async.hpp","include/nbdl/promise.hpp","include/nbdl/pipe.hpp"],
 [("length, then body","read_raw_message"),("until the last message","receive_messages_until_fn")],
 observe=["the bytes on the wire","calls of the action and of the pipe's end"])
