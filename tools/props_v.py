from prop import P
P("V01","The document is what the specification stands for in the current state",
 "After a renderer is made and after every update, the element it was given holds exactly the document that its specification stands for in the state of the store at that time: elements nested and ordered as specified, attributes, properties and classes with the values their paths, concatenations and predicates give, text nodes with the text they name, for match and match_if the part of the branch that fits and of no other, for for_each one part per element in order, each at its place among its siblings. This does not depend on the states shown before. When the renderer is gone nothing of it stays registered.",
 ["inputs","histories"],"all pairs of kinds of parts and nestings up to three deep, all sequences of states of two to four updates",
 "Tests show a dozen documents in one or two states each in a browser; parts that change beside and within each other, and the way back to an earlier state, are not tried.",
 ["include/nbdl/webui/detail/dom_manips.hpp","include/nbdl/webui/detail/node_renderer.hpp","include/nbdl/webui/detail/flatten_spec.hpp","include/nbdl/webui/renderer.hpp","include/nbdl/webui/html.hpp","include/nbdl/ui_spec.hpp","include/nbdl/detail/js_val.hpp"],
 [("branches","mut_action_fn::update_branch"),("rows","for_each_fn"),("parts that do not change","dom_slot"),("attributes","set_attribute, add_attribute_if, attr_class")],
 state=[("DOM","the nodes of the element","dom_manips.hpp"),("branch","which branch is shown","dom_manips.hpp")],
 observe=["the document below the element","entries of the table of registered values"])
P("V02","An event calls its handlers once, with the values their parameters name then",
 "An event on an element calls every handler that the specification gives for that type of event on that element, once and in order, and then those of the elements around it; each with a function that sends and the values its parameters name in the store at that moment (also in rows and branches), the event itself where event_data is named, and not at all when a parameter names nothing. Every message a handler sends reaches the store exactly once and in order, also when it makes the renderer replace or end the very element of the handler. Only submit events have their default prevented. A click around a hidden file input opens it once, and a choice of files calls its handler. When the renderer or an element is gone no handler of it is called and nothing of it stays registered.",
 ["histories","inputs"],"all sequences of four or five changes, updates and events",
 "Tests click one button and one row; events between changes and updates, handlers that replace their own element, several messages and other types of events are not tried.",
 ["include/nbdl/webui/detail/event_receiver.hpp","include/nbdl/webui/detail/dom_event_listener.hpp","include/nbdl/webui/detail/dom_manips.hpp","include/nbdl/ui_helper/match_params_spec.hpp","include/nbdl/store_compose.hpp","include/nbdl/store_range.hpp","include/nbdl/apply_action.hpp"],
 [("an event is received","event_receiver_impl::receive_event"),("listeners come and go with their elements","dom_event_listener"),("file inputs","hidden_file_input")],
 state=[("listeners","handlers registered with elements","dom_event_listener.hpp"),("store","the values handlers get","match_params_spec.hpp")],
 observe=["calls of the handlers and their arguments","messages at the store","listeners and registered values left"])
P("V03","The location of the browser and the route in the store follow each other",
 "At any time after an update the route in the store, its text and the location of the browser behind the prefix say the same: an update of the route or of its text, also through set_route, moves the browser there with one new entry of the history and reaches the store, whatever the characters of its members; going back, forth or elsewhere reaches the store with the members read as they were written; what is no route is not_found; an update to no route leaves the location alone. Consumers that are told see the new route. A location that is badly encoded or outside the prefix breaks nothing, and when the context is gone events of the browser reach nobody.",
 ["inputs","histories"],"all sequences of updates and moves through the history, all texts in members, all locations",
 "The test runs with a pushState that fires popstate, as no browser does, and only with numbers in paths; encoded characters, going back and the end of the context do not occur.",
 ["include/nbdl/webui/nav_route.hpp","include/nbdl/fwd/webui/nav_route.hpp","include/nbdl/webui/set_route.hpp","include/nbdl/webui/route_map.hpp"],
 [("writes the location","web_route_update"),("reads the location","popstate_event_receiver::receive_event"),("store that follows the text","apply_foreign_message_impl<nav_route_store>")],
 state=[("value","the route","nav_route_store_impl")],
 observe=["the store","window.location and the history","notifications of consumers"])
