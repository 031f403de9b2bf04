from prop import P
P("A01","The session of a request is the value of its first session cookie",
 "For every cookie header, get_session_cookie gives the text from behind 'NBDL_SESS=' up to the next semicolon (or the end) of the first cookie of exactly that name, wherever it stands among cookies with or without values, and nothing if there is none: a name or value that merely contains the name is not taken for it, and nothing outside of the header is read.",
 ["inputs"],"all headers of up to seven pieces that matter and all pairs of bytes around the session cookie",
 "Tests read fifteen headers; other orders of cookies, cookies without values, and other bytes are not tried.",
 ["include/nbdl/app/detail/cookie_parser.hpp"],
 [("cookies separated by semicolons","get_session_cookie"),("whitespace before a name","remove_leading_whitespace")],
 observe=["the session text, and that it lies within the header"])
P("A02","What the app's serializer writes is read as the same message, exactly once",
 "For every message of a context and every system message, the app's serializer (of jsoncpp on a server, of JavaScript values in a browser) writes it with the number of its kind, leaving the message and the buffer's later use unharmed, and the deserializer of the other side resolves exactly once: with the very message, or, for a system message, with it as an error. Whatever text arrives instead at a server, the deserializer resolves exactly once: with the one message the text is, or with an error.",
 ["inputs"],"all messages of three access points, up to two after another through the same serializer, all single edits and truncations of each kind of message, all short texts of JSON's punctuation",
 "The serializers are only used by an example that needs a browser and a network; no test reads a message that is cut short.",
 ["include/nbdl/app/serializer.hpp","include/nbdl/app/serializer_js.hpp","include/nbdl/fwd/app/serializer.hpp","include/nbdl/message_api.hpp"],
 [("message as variant, as text","serializer::serialize"),("text, variant, message or error","deserializer_fn")],
 observe=["calls of the resolver and what they are given","the buffer or JavaScript value"])
