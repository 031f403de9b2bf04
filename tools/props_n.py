from prop import P
P("N01","A server and its clients agree once every message has arrived",
 "A server's context with map stores and an echo_producer and the contexts of its clients, joined by the app's serializers, deserializers and apply_read over connections that keep the order: whatever the clients create, update, delete and look at, and in whatever order messages of different connections arrive, every message is applied once; each create makes one path that was not there; and when nothing is under way, each client holds at every path that it has looked at exactly what the server holds, namely the last value the server was told (not found if it was deleted or never there), the notifications it was given were enough to show that, no read stays unanswered, and looking again sends nothing.",
 ["inputs","schedules"],"all sequences of up to five (thorough: six) actions and arrivals with one to three clients, some of which join later, the rest arriving in three orders",
 "Tests drive one context at a time; what several of them make of each other's messages, in other orders than the first sent, is never tried.",
 ["include/nbdl/context.hpp","include/nbdl/map_store.hpp","include/nbdl/echo_producer.hpp","include/nbdl/message_api.hpp","include/nbdl/app/serializer.hpp","include/nbdl/app/context_endpoint.hpp"],
 [("messages through a context","push_message"),("what a store makes of a message","handle_map_store_action"),("answers","send_upstream_message_impl<echo_producer>"),("messages of a connection","apply_read")],
 state=[("stores","what each context holds","map_store.hpp")],
 observe=["what match gives at each path in each context","notifications of state consumers","messages sent"])
