from prop import P
W="include/nbdl/websocket/"
P("W01","A sent message arrives as exactly one well-formed WebSocket message",
 "Whatever the bytes and length of a message handed to a websocket sender (text, binary, close, ping or pong), the bytes written to the connection are a sequence of valid RFC 6455 frames, each within the sender's frame size limit, with the opcode on the first frame, continuation on the others, FIN on exactly the last, minimal length encoding and no reserved bits, whose payloads concatenate to exactly the message; consecutive messages appear whole and in order. The send completes exactly once, after the last byte was written, or is rejected exactly once with the error when a write fails, however the writes are fragmented.",
 ["inputs","fault_sequences"],"all message lengths and contents, frame size limits, kinds, partial write sizes and write errors",
 "Tests send three short strings; fragment boundaries (multiples of the frame size), 16/64 bit lengths and failing or partial writes are never reached.",
 [W+"detail/message_sender.hpp"],[("splits a payload into frames and re-arms itself in the write handler","message_sender::send_message_impl"),("length encoding","message_data::encoded_length_buffer")],
 observe=["bytes on the socket","resolve/reject of the send promise"])
P("W02","The frame reader delivers what was sent, whatever the framing and chunking",
 "For every stream of frames a peer can send, split into read chunks in any way, the reader reports exactly the messages an RFC 6455 decoder finds, in order, each once and unmasked, with ping, pong and close events at their place and interleaved control frames leaving a fragmented message intact. A frame whose length cannot be held, an oversized or fragmented control frame, or an invalid opcode is reported once as bad input, the end of the stream is reported once as an error, nothing is delivered afterwards, and no input makes the reader read or write out of bounds or terminate the process.",
 ["inputs","schedules","fault_sequences"],"all frame sequences (opcode, FIN, mask, length form, payload), all chunkings of them, truncation at every byte",
 "Tests feed a handful of short frames in one write; 64 bit lengths, masked continuation fragments, control frames with payloads and hostile lengths are not covered.",
 [W+"detail/message_reader.hpp"],[("read state machine: header, length, mask, payload","message_reader"),("event dispatch","read_event")],
 observe=["reader handler events"])
P("W03","The opening handshake accepts exactly valid peers and reports one outcome",
 "A server endpoint that receives `GET / HTTP/1.1` with headers in any order, letter case, blanks and chunking answers 101 with the RFC 6455 accept token of the Sec-WebSocket-Key and reports ready once with the value of the nbdl_auth cookie (empty if there is none); any other request line is reported once as bad_request, a truncated or overlong one once as an error, without an answer. A client endpoint sends a complete request carrying its origin and token and reports ready once exactly when the answer is the expected 101 response. Neither invents an outcome, crashes on arbitrary header or cookie text, or touches freed memory when the owner lets go of the endpoint during the handshake; messages queued before the handshake ended are sent after it.",
 ["inputs","schedules","fault_sequences"],"all keys, header layouts, cookie strings, chunkings, truncation points, abandonment points",
 "Tests run one handshake between the library's own client and server; foreign peers, split reads, and aborted handshakes never occur.",
 [W+"detail/parse_handshake_request.hpp",W+"detail/send_handshake_response.hpp",W+"detail/get_auth_token.hpp",W+"detail/expect_equal.hpp",W+"detail/send_handshake_request.hpp",W+"detail/parse_handshake_response.hpp",W+"server_endpoint.hpp",W+"client_endpoint.hpp","include/nbdl/detail/beast_sha1.hpp","include/nbdl/util/base64_encode.hpp"],
 [("header parsing","parse_header/read_headers"),("accept token","generate_accept_token"),("cookie scan","get_auth_token"),("shared ownership during the handshake","endpoint_impl::init")],
 observe=["on_ready/on_bad_request/on<error_code> events","bytes on the socket"])
P("W04","Endpoints deliver every message once, close once, and never outlive stop()",
 "Under every interleaving of sends, closes, stop, dropped references, peer frames, socket errors and event loop steps, messages sent through an endpoint reach the wire in order, whole and exactly once until the close, messages received are delivered in order exactly once, and a ping is answered with a pong carrying its payload. At most one close frame is sent, nothing follows it, one is sent when either side asks for the close, and the close event is reported exactly once when both close frames have passed, not otherwise; malformed frames are reported as bad_request once and connection loss is reported. After stop() no handler is called, and when the connection has ended and the references are gone the endpoint is released, without use of freed memory.",
 ["schedules","fault_sequences","histories"],"all sequences of user/peer/loop actions up to the depth, errors at each read and write",
 "Tests exchange a fixed conversation over a healthy connection; write/close races, errors in flight and teardown orders are schedules no unit test enumerates.",
 [W+"detail/endpoint_impl.hpp",W+"detail/message_sender.hpp",W+"detail/message_reader.hpp","include/nbdl/run_async_loop.hpp","include/nbdl/async_enqueue.hpp","include/nbdl/endpoint_send_message.hpp","include/nbdl/endpoint_send_close.hpp"],
 [("send loop draining the queue","endpoint_impl::start_send_queue"),("closing handshake flags","pending_control_frame, is_close_received, is_close_sent"),("is_stopped gate","endpoint_impl::call_handler")],
 state=[("send_queue","messages not yet written","endpoint_impl"),("pending_control_frame","close or pong waiting to be written","endpoint_impl")],
 observe=["handler events","bytes on the socket","lifetime of the handler"])
A="include/nbdl/websocket_api/"
P("W05","The browser's endpoint hands over every message exactly, once and in order",
 "Whatever a server sends to an endpoint in the browser, text or binary, with any bytes, the handler is given each message once, in order, with exactly its content: the bytes, the UTF-8 of a text, or the JSON value of it; what is not JSON is not given to a handler of JSON. Each message sent is on the wire exactly as it was, whole, once and in order. The handler is told once that the connection is ready and once that it closed. When the last reference to the endpoint is gone, also when a handler lets go of it, no handler is called any more, nothing touches freed memory and nothing of it stays registered.",
 ["inputs","schedules","histories"],"all contents of messages, and all sequences of opening, receiving, sending, closing, failing and letting go",
 "Tests exchange a few fixed strings in a real browser, which the build here does not even run; bytes beyond ASCII, binary frames and events after the end do not occur.",
 [A+"client_endpoint.hpp",A+"json_payload.hpp",A+"detail/endpoint_impl.hpp",A+"detail/convert_payload.hpp",A+"detail/event_receiver.hpp","include/nbdl/fwd/websocket_api/client_endpoint.hpp","include/nbdl/endpoint_open.hpp","include/nbdl/endpoint_handler.hpp"],
 [("listeners of the WebSocket and sending","endpoint_impl"),("payloads from and to JavaScript","convert_payload"),("entry points from JavaScript","_nbdl_endpoint_ready/_nbdl_endpoint_message/_nbdl_endpoint_close")],
 observe=["handler events","frames given to WebSocket.send","listeners and handles left"])
