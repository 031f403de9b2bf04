from prop import P
P("C01","A context delivers every message to exactly the actors it concerns",
 "For every message at every access point, from any sender and in any sequence, a context applies it to the one store of its path before anyone else sees it, passes an upstream message to exactly the producer that owns the access point and a downstream message to every consumer, each once; it tells every state consumer the path when, and only when, the store reports a change, and offers the message to exactly the stores that listen to the path, telling state consumers the paths those report. An upstream read goes to the producer only when the store knows nothing of the path (leaving a placeholder, so it is asked for once), is swallowed while a read is in progress, and is answered downstream from the store otherwise; matching an unknown path triggers that read and yields unresolved. context_store acts on downstream updates only; echo_producer returns each message downstream once and gives a create a key it never gave before.",
 ["histories","inputs"],"all message kinds x access points x senders x store behaviours, and all message sequences up to the depth, also answers sent from inside a call",
 "Tests send a few messages through one context each; reads of unknown paths, listeners with other stores' paths and answers in the middle of a call are never combined.",
 ["include/nbdl/context.hpp","include/nbdl/echo_producer.hpp","include/nbdl/context_store.hpp","include/nbdl/map_store.hpp","include/nbdl/apply_foreign_message.hpp","include/nbdl/def/builder/producer_map.hpp","include/nbdl/def/builder/store_map.hpp","include/nbdl/def/builder/listener_lookup.hpp"],
 [("dispatch","context::push_message"),("matching through a context","match_impl<context_tag>"),("owners and listeners of paths","ProducerLookup, ListenerLookup")],
 state=[("stores","one per access point with a store","context::stores")],
 observe=["what producers, consumers, state consumers and stores receive, in which order","nbdl::match(context, path, fn)"])
P("C02","map_store holds exactly what its message history says",
 "After any history of create, read, update and delete messages in either direction over any set of paths, matching a map_store at a path yields exactly one value: the last payload a downstream create or update (or the first downstream read of a path that was not resolved) stored there, unresolved after an upstream read of a path it does not hold, trigger_read for a path it knows nothing about, and nothing of any other path. Upstream messages never change or replace stored values. apply_message reports a change whenever what a path yields changed because of a downstream message, and reports none for upstream messages and for a downstream read of a path that is already resolved. The same holds for basic_map_store, which has no placeholders and yields not_in_set for an absent key.",
 ["histories"],"all message sequences up to the depth over several paths (shared prefixes, colliding hashes), payloads, uid and confirmation flags, initial states",
 "Tests apply one or two messages to one path; what older messages or other paths leave behind is never combined.",
 ["include/nbdl/map_store.hpp","include/nbdl/ext/std/unordered_map.hpp","include/nbdl/binder/hash.hpp","include/nbdl/apply_message.hpp","include/nbdl/fwd/map_store.hpp"],
 [("one handler per message kind","detail::handle_map_store_action"),("lookup and not_in_set","match_impl<std::unordered_map>")],
 state=[("map","path to value, unresolved or not_found","basic_map_store")],observe=["nbdl::match(store, path, fn)","result of apply_message"])
P("C03","local_version shows local changes at once and converges with the producer",
 "For every interleaving of local changes, their confirmations in any order, confirmed changes of others and full payloads, a local_version shows each local change immediately, a confirmation never brings back an older state while other local changes are pending, and once nothing is pending it shows exactly the last full payload with all confirmed deltas since applied in the order of confirmation. apply_message reports a change exactly when the visible value changed (always for a full payload).",
 ["histories","schedules"],"all histories of local, confirmed and foreign deltas over overlapping members, and full payloads",
 "The single test confirms in the order of the requests, with one member and no foreign changes.",
 ["include/nbdl/local_version.hpp","include/nbdl/delta.hpp","include/nbdl/uid.hpp"],
 [("pending accumulation and replay","local_version_detail::apply_confirmed_delta"),("optimistic application","local_version_detail::apply_local_delta")],
 state=[("pending_delta","changes to replay when all local ones are confirmed","local_version"),("local_uids","requests not yet confirmed","local_version")],
 observe=["nbdl::get/match of the store","result of apply_message"])
P("C04","Deltas are exact, minimal, idempotent and compose",
 "For any two values x and y of an entity, the delta from y to x holds exactly the members that differ, applying it to y gives x and reports a change exactly if x and y differ, and applying it again changes nothing; a complete delta turns anything into its value; an empty delta changes nothing. Applying deltas to a delta composes: a chain folded into one delta has the same effect on every value as the chain applied one by one.",
 ["inputs","histories"],"all values over the member alphabets and all delta chains up to the length",
 "Tests check one pair of values; the algebraic laws range over all pairs and triples.",
 ["include/nbdl/delta.hpp","include/nbdl/make_delta.hpp","include/nbdl/apply_delta.hpp","include/nbdl/bind_sequence.hpp","include/nbdl/variant.hpp"],
 [("member-wise difference","make_delta_impl<delta_tag>"),("member-wise application, to values and to deltas","apply_delta_impl<delta_tag>")],
 observe=["values after apply_delta","its result"])
P("C05","Messages keep their parts, and conversions lose or leak none",
 "For every kind of message and every combination of optional parts, the accessors return exactly what the message was made from, the traits tell exactly which parts it has, and serialization binds exactly the parts present, in order. Turning an upstream message into a downstream one keeps path, uid and payload, sets the requested confirmation, completes a create's path with its key, uid or empty key, works from lvalues without changing them, and never carries a private payload.",
 ["inputs"],"all message kinds x optional parts x value choices x value categories",
 "Tests check selected combinations with one value each; the private payload is never read back.",
 ["include/nbdl/message.hpp","include/nbdl/fwd/message.hpp","include/nbdl/bind_sequence.hpp","include/nbdl/detail/filter_empties.hpp"],
 [("slot accessors","NBDL_DETAIL_MESSAGE_*ACCESSOR_IMPL"),("conversions","to_downstream_impl, to_downstream_with_key_impl, to_downstream_read_impl"),("path completion","get_normalized_create_path")],
 observe=["accessors, traits and bind_sequence of messages"])
P("C06","Composed stores and paths reach exactly the value they name, the object itself",
 "Matching a composed store with a key calls the function exactly once with the value of the outermost entry of that key (its alternative if it is a variant, the referenced object if it was given by std::ref) and otherwise asks the store below; actions and messages for a key reach that entry and leave all others unchanged, through any number of nested stores. match_path, get_path and path_promise reach what walking the keys one by one reaches, through states, containers, references and variants, in const and non-const stores, and give the object itself, so that a change made through them is seen by everyone. A store_range offers each element of its container once and in order, with everything else from the store below; context_store changes on downstream updates only.",
 ["histories","inputs"],"all action histories over composed and nested stores, and all paths through all shapes of nested state within the bounds",
 "Tests compose one or two stores and match each key once; what an action does to the other entries, shadowing, references and nesting are never combined.",
 ["include/nbdl/store_compose.hpp","include/nbdl/store_range.hpp","include/nbdl/context_store.hpp","include/nbdl/match_path.hpp","include/nbdl/path_promise.hpp","include/nbdl/get.hpp","include/nbdl/match.hpp","include/nbdl/apply_action.hpp","include/nbdl/strong_alias.hpp","include/nbdl/ext/std/unordered_map.hpp"],
 [("composition","match_impl<store_composite_tag>, apply_action_impl<store_composite_tag>"),("paths","match_path_fn, get_path"),("elements as stores","match_impl<store_iterator_tag>")],
 state=[("left and right","the store below and the value of the key","store_composite_t")],
 observe=["what match calls its function with, and where that object lives","result of apply_action"])
P("C07","A context is made exactly as its definition says",
 "For every definition (any tree of access points with any actions in any order, one or several producers and consumers, named or not, however it is written), the message variants of its message_api hold exactly the messages of the declared actions, depth first in the order written, so that type_ids are stable; each upstream message reaches the producer under which its path is declared, each path has its own store of the declared kind and entity, and listening stores hear exactly the declared paths, of whatever producer. Making a context makes each actor exactly once, in its place, with the argument given for it by position or by name in any order (nothing if none), and then initialises every producer before any consumer; what an actor sends while it is initialised is delivered.",
 ["inputs"],"all definitions of the listed shapes x all ways to make the context x all their messages",
 "Tests look at two or three definitions; a prefix without actions, a store without actions, nested lists, listeners across producers and arguments by name are not combined.",
 ["include/nbdl/make_context.hpp","include/nbdl/context.hpp","include/nbdl/message_api.hpp","include/nbdl/actor_type.hpp","include/nbdl/def/builder/context.hpp","include/nbdl/def/builder/context_actors.hpp","include/nbdl/def/builder/enumerate_access_points.hpp","include/nbdl/def/builder/enumerate_producers.hpp","include/nbdl/def/builder/enumerate_consumers.hpp","include/nbdl/def/builder/entity_messages.hpp","include/nbdl/def/builder/message_api.hpp","include/nbdl/def/builder/producer_map.hpp","include/nbdl/def/builder/store_map.hpp","include/nbdl/def/builder/listener_lookup.hpp","include/mpdef/map.hpp","include/mpdef/list.hpp","include/mpdef/group_by.hpp"],
 [("access points depth first","enum_access_points_detail::helper_fn"),("messages of an action","make_upstream_messages, make_downstream_messages"),("producer of a path","builder::producer_map, context_actors"),("listeners of a path","builder::listener_lookup"),("arguments by name","make_context_detail::make_helper")],
 observe=["types of message_api's variants","what actors and stores receive","what actors are made of and when"])
