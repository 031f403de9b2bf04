from prop import P
P("R01","A pipe runs each stage once, in order, and is gone when it has ended",
 "In a pipe of promises, functions, taps, try_ and catch_ stages, nested or not, run with run_async, run_sync or run_async_loop, each stage runs exactly when its predecessor resolved and gets exactly what that passed on (moved, referenced, several values or none), now or later; a rejection skips every stage up to the first catch_ that can take it, which runs once and ends the pipe; terminate ends it silently. try_ turns an exception into a rejection. run_async_loop starts over with the last result until terminated. hold and hold_lazy keep one value for the life of the pipe. The pipe and all it owns stay until its last stage or handler has returned; when a pipe has ended, every stage and value it owned has been destroyed exactly once, and none runs or is touched afterwards.",
 ["histories","schedules"],"all pipes of three stages of seven kinds and nested ones, all outcomes of each stage, synchronous or deferred, each loop iteration deciding anew",
 "Tests run four fixed pipes synchronously; deferred resolution, rejection at each place, termination and the release of a pipe are not enumerated.",
 ["include/nbdl/promise.hpp","include/nbdl/fwd/detail/promise_join.hpp","include/nbdl/detail/promise_join.hpp","include/nbdl/detail/wrap_promise.hpp","include/nbdl/run_async.hpp","include/nbdl/run_async_loop.hpp","include/nbdl/run_sync.hpp","include/nbdl/catch.hpp","include/nbdl/tap.hpp","include/nbdl/try.hpp","include/nbdl/hold.hpp","include/nbdl/hold_lazy.hpp"],
 [("joined stages","promise_join_t"),("ends of a pipe","promise_end, promise_end_loop, promise_end_sync"),("rejection handling","catch_t::reject")],
 state=[("shared_end_pipe","the joined promise, owned by its end","run_async.hpp")],
 observe=["calls of the stages and their arguments","live objects after the end"])
P("R02","JavaScript values, callbacks and promises are what they were and leave nothing",
 "A js::val is, from JavaScript, exactly what was put into it: a copy stays when the original changes, a moved one has nothing, two compare equal exactly when they are identical in JavaScript, and get_element_by_id gives the element of exactly that id or null. A callback handed to JavaScript runs its function once for each call, with the argument. A promise written in JavaScript or as a C function receives its captured values in their order and, when it is resolved or rejected, at once or later, in whatever order among others, resumes its pipe once with that value, or rejects it. When values, callbacks and pipes are gone, nothing of them stays registered or allocated, however often a pipe loops, and no freed memory is used.",
 ["histories","schedules"],"all sequences of operations on values and callbacks, all outcomes and orders of settling of concurrent pipes, all rounds of loops",
 "The tests settle one promise at once and end with the process, so neither later settling nor what remains afterwards is seen; they are not built here.",
 ["include/nbdl/js.hpp","include/nbdl/fwd/js.hpp","include/nbdl/detail/js_val.hpp","include/nbdl/macros/NBDL_JS_PROMISE.hpp","include/nbdl/webui/detail/event_receiver.hpp"],
 [("ownership of the two callbacks of a promise","make_promise"),("copy and move of handles","val::copy/val::unregister"),("callbacks from JavaScript","callback_event_receiver")],
 state=[("nbdl_detail_json_val","the table of values by handle","Module")],
 observe=["values as JavaScript sees them","calls and their arguments","entries of the table, lifetime of pipes"])
