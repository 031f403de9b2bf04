from prop import P
P("D01","Writing to JSON and reading back gives the same value",
 "For every value of a bindable type (bool, int, unsigned, finite double, enumeration, nbdl::string of valid Unicode including null and escaped characters, byte buffers and uids as base64, containers including empty and nested ones, sequences of none, one or more values, nbdl::variant and optional including empty alternatives, entities, messages and the message variants of a context), to_string writes the documented JSON form (object by member name, array, [type_id, value] or type_id alone for an empty alternative) and from_string of that text into a new object gives back an equal value. Equal documents differing only in spacing or escapes read the same.",
 ["inputs"],"every value of bounded size of some 50 types, compared with a reference encoder and an independent parser",
 "Tests round-trip six hand-written documents; bool, double, empty containers and strings with a null were never read at all.",
 ["include/nbdl/binder/jsoncpp.hpp","include/nbdl/bind_map.hpp","include/nbdl/bind_sequence.hpp","include/nbdl/bind_variant.hpp","include/nbdl/detail/filter_empties.hpp","include/nbdl/variant.hpp","include/nbdl/message_api.hpp","include/nbdl/message.hpp"],
 [("reading","jsoncpp::detail::reader"),("writing","jsoncpp::detail::writer"),("dispatch","bind_jsoncpp_fn"),("empties left out","filter_empties_fn")],
 observe=["text written by to_string","value read by from_string"])
P("D02","A malformed JSON document is refused with an exception",
 "For every text, from_string either gives the value the document stands for or throws an exception derived from std::exception: it never crashes, never hangs, never does anything undefined and never silently accepts a document that is not of the target's form (value of another type, missing member, array of the wrong length, integer out of range, unknown variant type_id, value for an empty alternative or none for another, invalid base64 or a buffer of another length, text cut short, nesting without end). What it accepts can be written and read again.",
 ["inputs"],"every replacement, removal or doubling of a node, every prefix and every changed byte of good documents of 30 types and of messages",
 "The documents come from the network; tests only read well-formed ones.",
 ["include/nbdl/binder/jsoncpp.hpp","include/nbdl/util/base64_decode.hpp","include/nbdl/variant.hpp","include/nbdl/message_api.hpp"],
 [("type checks","reader::bind_*"),("variant ids","get_variant_type_id, match_by_type"),("array length","reader::bind_sequence")],
 observe=["exception or value of from_string"])
P("D04","base64 encoding and decoding are exact inverses and refuse everything else",
 "base64_encode of any bytes (held in any container of byte-sized elements, signed or not) is their RFC 4648 text with padding; base64_decode of that text is the bytes again. For every other text (length not a multiple of four, character outside the alphabet, padding elsewhere than at the end), decoding into a buffer returns false and decoding to a vector returns an empty one. Decoding into an array succeeds only if the decoded length is its length, and never writes beyond it.",
 ["inputs"],"every byte at every position, every pair, all short texts over an alphabet of edge characters, every single wrong character, arrays of each length",
 "Tests use RFC examples in one container type; high bytes, malformed texts and wrong lengths are not tried.",
 ["include/nbdl/util/base64_encode.hpp","include/nbdl/util/base64_decode.hpp"],
 [("encoder","base64_encode_fn"),("decoder","base64_decode_fn")],
 observe=["returned text, bytes and success"])
P("D03","A variant holds one alternative and gives it to exactly one function",
 "At each moment an nbdl::variant, optional or variant_holder holds one value of one alternative (initially the default: unresolved, or nothing): the last one assigned, copied, moved or read into it. get_type_id, is<T>, match in every value category, match_when, nbdl::match (through nested variants and keys), bind_variant and match_by_type all agree on it; match calls exactly one function once with that very value; reading by type_id makes a fresh value of that alternative and an unknown type_id changes nothing. Two variants are equal exactly when alternative and value are. Each value is destroyed exactly once.",
 ["histories"],"every history of 23 operations on two variants of six alternatives to depth 3 or 4",
 "Tests make single assignments and match them; they never combine copies, moves, reads by id and nested variants.",
 ["include/nbdl/variant.hpp","include/nbdl/variant_holder.hpp","include/nbdl/bind_variant.hpp","include/nbdl/match.hpp"],
 [("storage and visiting","detail::variant"),("binding","bind_variant_impl<variant_tag>"),("equality","equal_impl<variant_tag>")],
 observe=["functions called and their arguments","live objects"])
P("D05","Values are equal exactly when their parts are, and equal values hash equal",
 "hana::equal of entities, nested entities, variants, optionals, sequences of these, uids and keys is true exactly when all members (alternative and value) are equal, whatever their padding; it is reflexive, symmetric and agrees with not_equal. binder::hash depends on nothing but the value: equal values, copies and moved values have the same hash, so that the paths, entities and uids used as keys are found again in unordered containers. Generated uids are different: each takes all 16 of its bytes from its source of randomness, in the browser too.",
 ["inputs","histories"],"all pairs of values of bounded size of twelve types, histories of sets keyed by them",
 "Only the routing of a few fixed paths is tested; hash and equality of variants, nested entities and containers are not.",
 ["include/nbdl/entity.hpp","include/nbdl/binder/hash.hpp","include/nbdl/detail/hash_combine.hpp","include/nbdl/uid.hpp","include/nbdl/key.hpp","include/nbdl/variant.hpp"],
 [("entity equality","equal_impl<Entity>"),("hash","binder::hash_fn"),("uid","nbdl::uid")],
 observe=["results of equal and hash","membership in unordered_set"])
P("D07","API signatures tell apart exactly what is written differently",
 "The signature of an API is the same in every build for types that are written the same way (whatever an entity or container is called, and however a definition is written), and different as soon as the format, the kind, name, order or nesting of any part differs, for every type that can be bound: fundamental types and enums, containers, strings and buffers, sequences, entities, maps, variants, optionals and all message variants of a context. The SHA-1 that it and the websocket handshake use is the standard's for every length of input, however the input is cut into pieces.",
 ["inputs"],"all pairs of types of a grammar and of message variants of definitions; all lengths and cuts of the input of SHA-1",
 "The test knows four golden digests of integral constants; no entity, variant or message has a signature in any test, and SHA-1 sees few lengths.",
 ["include/nbdl/api_signature.hpp","include/nbdl/detail/bind_tag_of.hpp","include/nbdl/detail/beast_sha1.hpp","include/nbdl/variant.hpp","include/nbdl/bind_map.hpp","include/nbdl/bind_sequence.hpp","include/nbdl/message.hpp"],
 [("structure of a type","_b::bto"),("types of a variant","bind_variant_types"),("digest","beast_sha1::update, finish")],
 observe=["result of api_signature","digests"])
P("D08","A value is the same in the browser, on the wire and on the server",
 "What bind_to of the JavaScript binder writes is, as JSON text, the documented JSON of the value and so what the server's jsoncpp binder writes: booleans are booleans, unsigned numbers are not negative, texts have all of their characters, containers, sequences, entities, optionals and variants their form. bind_from of it gives a value equal to the one written, whatever was in its place; the server's binder reads the text as an equal value, and bind_from of what the server wrote gives an equal value as well. Reading changes nothing in the JavaScript value and leaves nothing registered.",
 ["inputs"],"all values of the D01 types that the binder supports, numbers around every power of two, texts of every one-byte character and pairs of code points",
 "Tests write and read one account in ASCII; the two binders are never compared, and numbers beyond 2^31, booleans and other characters are not tried.",
 ["include/nbdl/binder/js.hpp","include/nbdl/detail/js_val.hpp","include/nbdl/js.hpp","include/nbdl/binder/jsoncpp.hpp","include/nbdl/bind_sequence.hpp","include/nbdl/bind_variant.hpp","include/nbdl/bind_map.hpp"],
 [("values written","bind_to_impl"),("values read","bind_from_impl"),("alternative of a variant","get_variant_type_id")],
 observe=["JSON.stringify of the value","values read by both binders","entries of the table of registered values"])
