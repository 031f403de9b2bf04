from prop import P
P("U01","A path or parameter spec finds exactly the values it names, in order",
 "match_path_spec calls its function once with the very object at the path in the store, or not at all if a match_when on the way names another type than is there; where a path meets nothing, nothing is found. Keys given by key_at or apply are the values at their own paths. match_params_spec calls once with all parameters in order: constants, objects at paths, results of functions, and the parameters of the branch that is taken; nested concat counts as its elements. match takes the first branch whose type is there (or the default), match_if the first whose predicate holds; get_branch_index and match_branch agree.",
 ["inputs"],"all path specs of three levels over stores with optional parts, lists of up to three parameter specs of ten kinds, all states of the stores",
 "Tests follow five fixed paths and four parameter lists in one or two states of a store; combinations of failing matches, branches and nesting are not enumerated.",
 ["include/nbdl/ui_helper/match_path_spec.hpp","include/nbdl/ui_helper/match_params_spec.hpp","include/nbdl/ui_helper/match_branch.hpp","include/nbdl/ui_helper.hpp","include/nbdl/ui_spec.hpp","include/nbdl/detail/match_if.hpp","include/nbdl/match_path.hpp"],
 [("nodes of a path resolved in turn","path_impl, path_node_match"),("parameters resolved in order","match_params_spec_fn"),("branch choice","get_branch_index_impl, match_if")],
 state=[("store","the values the specs refer to","match_path.hpp")],
 observe=["calls of the function, addresses and types of its arguments","branch indexes"])
P("U02","Joined texts and parameters are exactly their parts, in order",
 "A string_concat_view made of texts and of other views, however nested, copied or assigned, and also after its parts are gone, has the text that its parts have together in order: length, to_string, copy (which touches nothing before or behind its range) and equal agree with that text, with empty parts and null characters too; it sees its originals, it has no copy of them. A params_view holds, in order, references to the very objects appended to it and the stateless values, also after it is joined with others. params_concat gives the texts of the parameters a spec names in the store, in order, with the branch that fits, and string_concat and string_join those of a list, with the delimiter between.",
 ["inputs","histories"],"all sequences of up to five operations on views, all params_views of three values of five kinds, all pairs of ten kinds of parameters in all states of a store",
 "Tests join one fixed tuple of eight texts, one params_view and one list of parameters without branches.",
 ["include/nbdl/detail/string_concat_view.hpp","include/nbdl/detail/string_concat.hpp","include/mpdef/string.hpp","include/nbdl/detail/params_view.hpp","include/nbdl/ui_helper/params_concat.hpp","include/nbdl/ui_helper.hpp"],
 [("parts in order","string_concat_view_impl"),("references kept by place","params_view_append_fn, offset_ref_placholder"),("branches in a text","param_to_string_view, flatten_param_node_fn")],
 observe=["to_string, length, copy, equal","addresses and values given by unpack"])
P("U03","An address is the route it spells or none, and a route spells its address",
 "For every text, from_string of a route map gives route_not_found or the one route whose name is the first part of the address and whose members are exactly the parts that follow, each a nonempty text or a positive number that its type can hold; a single trailing slash does not matter, and no other text is taken for a route. For every route with positive numbers and nonempty texts without slashes and up to ten members, to_string gives the name and the members in order separated by slashes, and from_string of it gives the route again. set_route sends one upstream update of the route to the route's path.",
 ["inputs"],"all addresses up to seven letters and of up to twelve parts, all pairs of bytes, numbers around every limit",
 "Tests read twenty fixed addresses; numbers beyond the limits, ten parameters, odd bytes and the round trip are not tried.",
 ["include/nbdl/webui/route_map.hpp","include/nbdl/fwd/webui/route_map.hpp","include/nbdl/webui/set_route.hpp"],
 [("parts of an address","parse_route_param"),("numbers","to_integral_param"),("route by name","make_from_params")],
 observe=["alternative and members of the resulting variant","texts of routes","messages sent"])
