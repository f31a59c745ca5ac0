#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so the JSON stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, **kw):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mechanism, where=files[0])], **kw)))

T = ["qcoro/qcorotask.h", "qcoro/impl/taskpromise.h", "qcoro/impl/taskpromisebase.h", "qcoro/impl/taskbase.h",
     "qcoro/impl/taskawaiterbase.h", "qcoro/impl/taskfinalsuspend.h"]
prop("C01", "A task delivers exactly what its coroutine returned or threw",
     "Awaiting a task yields exactly the value its coroutine co_returned, moved or copied without alteration, or rethrows exactly the exception that escaped the coroutine, whatever the exception's type. "
     "This holds whether the coroutine finished before it was awaited or finishes later, and for every way a return value can be supplied (moved, copied, converted, void); an object that outlives the coroutine is copied, not emptied, by returning it, and an exception thrown while making the result counts as escaping.",
     ["inputs", "schedules", "programs"], "all returned values and thrown exceptions, finishing before or after the await, every return form",
     "Tests return a handful of constants and throw std::runtime_error at fixed points; the claim is for every value, every exception type and both orders of finish/await.",
     T, "promise return_value/unhandled_exception store a variant, result() rethrows or hands the value to the awaiter's await_resume")
prop("C02", "Every coroutine awaiting a task is resumed exactly once, in await order",
     "When a task's coroutine finishes, normally or by exception, every coroutine suspended on that task is resumed exactly once, in the order in which they started awaiting, and never before the task has finished. "
     "Awaiting a task that has already finished never suspends, and awaiting an unfinished task always suspends until it finishes.",
     ["schedules", "histories", "programs"], "any number of awaiters, including awaiters that destroy the task, await something else or finish while they are being resumed",
     "Tests use one to three awaiters; the loop over the awaiter list and its interaction with awaiters that drop the task need an argument for every number of awaiters.",
     T, "promise keeps a vector of awaiting handles; the final-suspend awaiter resumes a copy of it in order and then drops the coroutine's own reference")
prop("C03", "A task's coroutine state is destroyed exactly once and never while in use",
     "The state of a started coroutine stays alive while the coroutine has not finished or a task object still refers to it, and is destroyed exactly once when both conditions end, in whichever order they end; a lazy coroutine that was never awaited is destroyed with its task. "
     "Moving a task transfers the reference: the source becomes empty and ready, the target releases whatever it referred to before, and self-move-assignment changes nothing.",
     ["histories", "schedules", "programs"], "all interleavings of finish, destruction, move-construction and move-assignment, including from inside a resumed awaiter",
     "Tests do not observe frame destruction at all (no leak or use-after-free detection in the suite) and exercise few orders of finish against handle destruction.",
     T, "reference count in the promise, one reference for the running coroutine and one for the task object")
prop("C04", "Eager tasks start at the call; lazy tasks start when awaited",
     "Calling a coroutine returning a regular task runs it synchronously up to its first suspension before the call returns. "
     "A coroutine returning a lazy task runs none of its body until it is awaited; awaiting it starts it once, however many coroutines await it, and each awaiting coroutine is resumed once after it finishes, with its value or exception.",
     ["inputs", "schedules", "programs"], "bodies that finish synchronously or suspend, all values and exceptions, awaited directly, through then() or a blocking wait",
     "Tests check a few fixed bodies; synchronous completion inside symmetric transfer and every value/exception need to hold too.",
     ["qcoro/qcorolazytask.h", "qcoro/impl/lazytask.h"] + T, "initial_suspend never/always, lazy awaiter transfers control to the lazy coroutine")
prop("C05", "then() runs exactly one of the continuations, exactly once",
     "A continuation attached to a task is invoked exactly once, after the task finished with a value, with that value if it accepts one, and the task returned by then() carries the continuation's result (awaited if it is itself a task). "
     "If the task finished with an exception derived from std::exception, only the error continuation is invoked, exactly once with that exception, and the result is default-constructed; without an error continuation, or for any other exception type, the exception itself propagates to the returned task. "
     "An exception thrown by either continuation propagates to the returned task and is not passed to the error continuation.",
     ["inputs", "schedules", "programs"], "all values, exceptions and finish times; void and non-void tasks; plain and task-returning callbacks; lvalue and temporary tasks",
     "Tests cover selected combinations with fixed values; the exactly-one/exactly-once claim is over all outcomes and orders.",
     ["qcoro/impl/taskbase.h", "qcoro/qcorotask.h"], "thenImpl/thenImplRef coroutines with a try/catch around the await only")
prop("C06", "A blocking wait returns the result once, exactly when the task has finished",
     "Blocking on a task or other awaitable returns its value, or rethrows its exception, and does so only after it finished. "
     "It runs a nested event loop only if the awaitable has not already finished, and leaves the loop as soon as it finishes.",
     ["inputs", "schedules"], "all values and exceptions, finishing before the wait or at any point while the nested loop runs",
     "Tests use a few timers; the already-finished and exception paths for every value, and that the loop is neither entered needlessly nor left early, are not sampled.",
     ["qcoro/impl/waitfor.h"], "helper coroutine records the outcome in a local context and quits a local event loop")
prop("C07", "Connecting a task to an object calls back once, only while the object lives",
     "A callback connected to a task or other awaitable with a context object is invoked exactly once with the result when the awaitable finishes, if the context object is still alive at that moment, and is never invoked if the context object has been destroyed before. "
     "It makes no difference whether the callback is a member function or a callable, whether it takes the result, and whether the awaitable is a temporary or an object of the caller's.",
     ["inputs", "schedules"], "all results, both orders of completion and context destruction",
     "Tests check one destruction order; a stale-context call is memory-unsafe and only shows for particular orders.",
     ["qcoro/impl/connect.h"], "QPointer to the context captured in a then() continuation")
G = ["qcoro/qcorogenerator.h"]
AG = ["qcoro/qcoroasyncgenerator.h"]
prop("C08", "A generator yields its coroutine's values in order, lazily, then ends",
     "Iterating a generator produces exactly the sequence of values its coroutine yields, in order, none skipped or repeated, running the coroutine only as far as the value requested; when the coroutine finishes, the iterator equals end(). "
     "An exception escaping the coroutine is rethrown from the call that advanced to it (begin() or increment), exactly once and after all earlier values were delivered, and ends the iteration. Iterating an empty generator, or one that has ended, yields nothing.",
     ["inputs", "histories", "programs"], "all yielded values, every number of elements including none, exceptions at any position",
     "Tests iterate short fixed sequences; the claim is for every length, value and throw position.",
     G, "promise stores a pointer to the yielded object; iterator resumes, then checks for exception and completion")
prop("C09", "An async generator delivers its values in order to its awaiting consumer",
     "Awaiting begin() or the increment of an async generator's iterator produces exactly the values its coroutine yields, in order, none skipped or repeated, even if the generator suspends on other awaitables in between; after it finishes, the iterator equals end(). "
     "The consumer is resumed exactly once per requested element, and only when that element, the end, or an exception is available; an exception escaping the generator is rethrown to the consumer from that await. An empty generator, or one that has ended, yields nothing.",
     ["inputs", "schedules", "histories"], "all values, generator bodies that suspend or not between elements, exceptions at any position",
     "Tests use a few timers between constants; every interleaving of producer suspension and consumer request must work.",
     AG, "yield/final awaiters transfer control to the consumer handle; advance awaiter transfers to the generator")
prop("C10", "Generators own their coroutine: destroyed once, with the generator",
     "Destroying a generator destroys its coroutine, wherever it is suspended, exactly once, including every local object in it. "
     "Move construction and move assignment transfer ownership: the source becomes empty, a previously held coroutine is destroyed, and self-move-assignment changes nothing.",
     ["histories", "programs"], "all sequences of creation, iteration, moves and destruction",
     "The suite has no leak detection and barely moves generators.",
     G + AG, "destructor and move operations on the coroutine handle member")
S = ["qcoro/core/qcorosignal.h"]
prop("C11", "Awaiting a signal resumes once, with the arguments of its next emission",
     "Awaiting an object's signal resumes the awaiting coroutine exactly once, at the first emission after the await began, with exactly the emitted arguments (none, a single value, or a tuple; private signal tags removed). "
     "Later emissions have no effect on the coroutine, emissions of other signals or by other objects do not resume it, and if the object is already gone the await does not suspend and yields default-constructed arguments.",
     ["inputs", "schedules", "histories"], "all argument values, any number of earlier and later emissions",
     "Tests emit one fixed set of arguments; repeated and foreign emissions around the await are not explored.",
     S, "single-shot connection to a slot that stores a tuple and resumes the handle")
prop("C12", "Awaiting a signal with a timeout yields the arguments or nothing, once",
     "Awaiting a signal with a finite timeout resumes the coroutine exactly once: with the emitted arguments if the signal comes first, with an empty optional if the timeout comes first (also when the object is destroyed meanwhile). The signal comes first when its emission is delivered to the awaiting thread before the timer expires. "
     "A negative timeout means waiting without a limit. Whichever loses the race has no further effect.",
     ["inputs", "schedules"], "all timeouts, all orders of signal, timeout and sender destruction",
     "Tests try one early and one late signal; a signal after the timeout (or the reverse) and other timeout values are not tried.",
     S, "timer started in the constructor; both slots resume through one path guarded by a null check")
prop("C13", "A signal listener delivers every emission once, in order, until its timeout",
     "The async generator for a signal yields one element per emission since it was started, in emission order, with the emitted arguments, none lost or duplicated, including emissions that arrive while the consumer is busy. "
     "It resumes the consumer only while the consumer is waiting for an element, and ends only when a wait for the next element exceeds the given timeout or when the emitting object is gone.",
     ["inputs", "schedules", "histories"], "any number of emissions at any time relative to the consumer's requests, any timeout",
     "Tests use a short burst; arbitrary interleavings of emissions with a consumer that awaits other things are not explored.",
     S, "queue filled by the signal slot, drained by the generator coroutine")
prop("C14", "Timers and sleeps resume the coroutine at the timer's next timeout",
     "Awaiting a timer resumes the coroutine exactly once, at the timer's next timeout, and does not suspend at all if the timer is not running or is gone; the timer itself is left as it is. "
     "Sleeping for a duration or until a time point resumes once after exactly the requested duration in whole milliseconds (negative durations and time points in the past count as no delay), for every clock and integral duration type within QTimer's range.",
     ["inputs", "schedules", "histories"], "all durations and time points, repeated timeouts, timer stopped or destroyed",
     "Tests sleep a few hundred milliseconds; the conversion of durations and repeated timeouts are not covered.",
     ["qcoro/core/qcorotimer.h", "qcoro/core/qcorotimer.cpp"], "single-shot connection to the timeout signal; sleeps start a local timer")
prop("C15", "Awaiting a future resumes once, when it finished, with its result or exception",
     "Awaiting a future suspends only while it has not finished, resumes the coroutine exactly once when it finishes and yields its result; exceptions stored in the future are rethrown, and taking the result moves it out of the future. "
     "A canceled future resumes the coroutine too, yielding a default-constructed value instead of accessing a missing result.",
     ["inputs", "schedules"], "all results and exceptions; futures finishing before, during or after the await, or canceled",
     "Tests use a few constants from a thread pool; finish/cancel orders and move-only results are sampled only.",
     ["qcoro/core/qcorofuture.h"], "QFutureWatcher finished signal resumes the handle; await_resume reads the result")
IO = ["qcoro/core/qcoroiodevice.h", "qcoro/core/qcoroiodevice.cpp"]
prop("C16", "Awaitable device reads return the device's own result, only when readable",
     "Awaiting a read, line read or read-all on an I/O device suspends only while the device is open, readable and has no data, and resumes the coroutine exactly once, when data became available or the device is closing. "
     "It then performs exactly one read of the requested kind and size and yields exactly its result. The variants with a timeout wait for data in the same way, and yield an empty result without reading when the timeout passes, the device closes or is gone.",
     ["inputs", "schedules"], "all sizes, all device states, all orders of data arrival and closing",
     "Tests read a few buffers; closing while waiting and every size are not explored.",
     IO, "awaiter connects readyRead and aboutToClose, finishes on the first, disconnects both")
prop("C17", "Awaitable device writes finish exactly when all accepted bytes are written",
     "Awaiting a write passes exactly the given bytes to the device once. If the device buffers, it completes only after the device has reported as written at least as many bytes as it accepted, has nothing left to write, or reported failure or closing, and then it does complete, exactly once; it yields the number of accepted bytes that were written, which is all of them unless the device failed or closed (none if it was gone already).",
     ["inputs", "schedules", "histories"], "all accepted byte counts and all splits of confirmations",
     "Tests write small buffers confirmed in one step; partial confirmations in any number are not explored.",
     IO, "loop over waiting for bytesWritten until the accepted count is reached")
prop("C18", "Device readiness waits resolve once: data, close or timeout",
     "Waiting for a device to become readable yields true when data arrives, false when the device closes, is not readable or the timeout passes; waiting for written bytes yields the number written, or nothing on failure, close or timeout. "
     "A wait never suspends when its outcome is already known, resumes the coroutine exactly once, and a negative timeout never expires.",
     ["inputs", "schedules"], "all timeouts and all orders of data, close and timeout",
     "Tests pick one order per case.",
     IO + ["qcoro/core/qcoroiodevice_p.h"], "helper objects re-emit the relevant signals into one ready signal that is awaited with a timeout")
prop("C19", "Awaiting a process's start or finish reflects the process state",
     "Waiting for a process to start yields true once it is running, immediately if it already is, and false if the process fails to start or the timeout passes; waiting for it to finish yields true when it finishes, and false if it is not running, fails to start or the timeout passes; for a process that is gone both yield false at once. "
     "Starting and waiting passes program, arguments and mode unchanged and starts the process exactly once.",
     ["inputs", "schedules"], "all process states, timeouts and orders of state changes and timeout",
     "Tests start one real command; other state orders are not explored.",
     ["qcoro/core/qcoroprocess.h", "qcoro/core/qcoroprocess.cpp"], "state check followed by an await of started/finished with timeout")
prop("C20", "Thread waits and thread hops complete exactly when the thread gets there",
     "Waiting for a thread to start or finish yields true when it does (immediately if it already has) and false on timeout, or at once if the thread is gone. "
     "Moving a coroutine to a thread resumes it exactly once, on that thread; while the target is not running the coroutine stays suspended until it is.",
     ["inputs", "schedules"], "all thread states, timeouts and orders of start/finish/timeout",
     "Tests use a live thread and one order.",
     ["qcoro/core/qcorothread.h", "qcoro/core/qcorothread.cpp"], "state check plus await of started/finished; an event handled in the target thread resumes the handle")
prop("C21", "Awaiting a TCP socket's connection state reflects the socket",
     "Waiting for a socket to connect yields true exactly when the socket gets connected (immediately if it is), and false when the attempt ends unconnected (error or closing) or the timeout passes. Waiting for it to disconnect yields true when it gets unconnected, and false at once if it is not connected, or when the timeout passes; for a socket that is gone they yield false at once. Each wait resumes the coroutine exactly once. "
     "Connect-and-wait passes host, port, open mode and protocol unchanged and connects exactly once.",
     ["inputs", "schedules"], "all socket states, timeouts, arguments and orders of state changes, errors and timeout",
     "Tests talk to one local server; error/timeout orders are not explored.",
     ["qcoro/network/qcoroabstractsocket.h", "qcoro/network/qcoroabstractsocket.cpp"], "state check, then await with timeout of a helper that watches stateChanged")
prop("C22", "Awaiting a local socket's connection state reflects the socket",
     "Waiting for a local socket to connect yields true exactly when the socket gets connected (immediately if it is), and false when the attempt ends unconnected or the timeout passes. Waiting for it to disconnect yields true when it gets unconnected, and false at once if it is not connected, or when the timeout passes; for a socket that is gone they yield false at once. Each wait resumes the coroutine exactly once. "
     "Connect-and-wait passes server name and open mode unchanged and connects exactly once.",
     ["inputs", "schedules"], "all socket states, timeouts, arguments and orders of state changes and timeout",
     "Tests talk to one local server.",
     ["qcoro/network/qcorolocalsocket.h", "qcoro/network/qcorolocalsocket.cpp"], "state check, then await with timeout of a helper watching stateChanged")
prop("C23", "Awaiting a network reply resumes once, when the reply has finished",
     "Awaiting a network reply suspends only while it is unfinished, resumes the coroutine exactly once when it finishes (with or without error), and yields that same reply; waiting with a timeout yields whether it finished before the timeout passed (false at once if the reply is gone). "
     "Waiting for the reply's data yields as soon as data or the end of the reply arrives.",
     ["inputs", "schedules"], "all reply states, timeouts and orders of finish, error, data and timeout",
     "Tests use a local HTTP server with fixed timing.",
     ["qcoro/network/qcoronetworkreply.h", "qcoro/network/qcoronetworkreply.cpp"], "state check, await of finished, helper signal for data/finish")
prop("C24", "Awaiting a TCP server yields its next pending connection, or null",
     "Waiting for a new connection on a server yields a pending connection immediately if there is one; otherwise it suspends until a connection arrives and yields it, or yields null when the server is not listening, is gone or the timeout passes. "
     "It takes exactly one connection off the server and resumes the coroutine exactly once.",
     ["inputs", "schedules"], "all server states, timeouts and orders of connection and timeout",
     "Tests connect once before and once after.",
     ["qcoro/network/qcorotcpserver.h", "qcoro/network/qcorotcpserver.cpp"], "state check, await of newConnection with timeout")
prop("C25", "Awaiting a D-Bus call resumes once, when the reply is there, and yields it",
     "Awaiting a D-Bus pending call or typed reply suspends only while the call has not finished, resumes the coroutine exactly once when it finishes, and yields the reply or error message of exactly that call; typed replies keep their types.",
     ["inputs", "schedules"], "replies and errors that arrive before or after the await",
     "Tests need a live bus and use fixed methods.",
     ["qcoro/dbus/qcorodbuspendingcall.h", "qcoro/dbus/qcorodbuspendingcall.cpp", "qcoro/dbus/qcorodbuspendingreply.h"], "QDBusPendingCallWatcher finished signal resumes the handle")
prop("C26", "Opening and pinging a WebSocket resolve once, with the right outcome",
     "Opening a WebSocket passes the URL or request unchanged, opens it exactly once, and yields true when it gets connected (immediately, without reopening, if it is connected already) and false on failure, disconnection or timeout. "
     "A ping sends exactly the given payload once and yields the elapsed time that the socket reports with the next pong, or nothing if the socket is not connected, gets disconnected or the timeout passes.",
     ["inputs", "schedules"], "all socket states, payloads, timeouts and orders of state changes, pongs and timeout",
     "Tests use one local server.",
     ["qcoro/websockets/qcorowebsocket.h", "qcoro/websockets/qcorowebsocket.cpp"], "watcher object turns state changes into a ready signal awaited with timeout")
prop("C27", "WebSocket message generators deliver every message once, in order",
     "The async generators for text and binary messages and frames yield every message received since the generator was created exactly once, in order and unaltered, and end when the connection ends or the timeout passes without a message. "
     "A generator created on an unconnected socket yields nothing and ends.",
     ["inputs", "schedules", "histories"], "any number of messages at any time relative to the consumer, any timeout",
     "Tests send one or few messages.",
     ["qcoro/websockets/qcorowebsocket.h", "qcoro/websockets/qcorowebsocket.cpp"], "watcher object queues messages into a ready signal iterated by a signal listener")
prop("C28", "Awaiting a WebSocket server yields its next connection, or null",
     "Waiting for the next connection on a WebSocket server yields a pending connection immediately if there is one, otherwise suspends until one arrives, and yields null when the server is not listening, is closed or the timeout passes; it never takes more than the one connection it yields, and resumes exactly once. "
     "A finished wait leaves nothing behind that reacts to later connections.",
     ["inputs", "schedules", "histories"], "all server states, timeouts and orders of connection, close and timeout, also after the wait has ended",
     "Tests connect once.",
     ["qcoro/websockets/qcorowebsocketserver.h", "qcoro/websockets/qcorowebsocketserver.cpp"], "helper object turning newConnection/closed into a ready signal awaited with timeout")
prop("C29", "A task exposed to QML delivers its result to QML exactly once",
     "A task handed to QML invokes the JavaScript callback exactly once, with the task's result converted to a JavaScript value, after the task finished, and not at all when the task fails or the JavaScript engine is gone by then. "
     "Awaiting it into a property object keeps the intermediate value until then, and afterwards provides the result, notifying the change exactly once. "
     "Copies of the handle share the task; of several callbacks or property objects each is served once and the first one attached gets the result. A handle without a task never delivers anything.",
     ["inputs", "schedules"], "all results, tasks finishing before or after being attached, object destroyed first",
     "Tests run few fixed QML snippets.",
     ["qcoro/qml/qcoroqmltask.h", "qcoro/qml/qcoroqmltask.cpp"], "then()-continuations on an explicitly shared, type-erased task; QPointer guard for the property object")
prop("C30", "An asynchronous image provider always answers each request once",
     "For every image request the provider starts one asynchronous load with the requested id and size, and reports the response finished exactly once, when the load has finished, with exactly the loaded image, or with an error when the load failed with a std::exception. "
     "A response destroyed before its load finished is not touched any more.",
     ["inputs", "schedules"], "all ids, sizes and images; loads finishing immediately, later, or after the response is gone",
     "Tests load one image in one order.",
     ["qcoro/quick/qcoroimageprovider.h", "qcoro/quick/qcoroimageprovider.cpp"], "then()-continuation guarded by a QPointer to the response")
prop("C31", "Coroutine test macros record failures and stop the test like Qt Test's",
     "Each coroutine variant of the Qt Test macros evaluates its arguments once, records success or failure exactly as the Qt Test counterpart would, and on failure ends the calling coroutine, continuing it otherwise. "
     "The retrying variants re-evaluate the condition until it holds or the timeout passes and fail only in the latter case.",
     ["inputs", "schedules"], "all operand values, conditions becoming true at any moment or never",
     "The macros are used by the tests themselves, mostly on their success path.",
     ["qcoro/test/qcorotest.h"], "co_return from the coroutine when the qCompare/qVerify call reports failure")
prop("C32", "An awaited operation does not depend on its temporary wrapper",
     "An operation started through a temporary wrapper object (the object returned by qCoro()) keeps working when it is awaited after that wrapper is gone: it never accesses the wrapper, and completes with the same result. "
     "The same holds for by-reference arguments documented as copied.",
     ["schedules", "programs"], "every wrapper operation that returns a task or awaiter, awaited immediately or later",
     "All tests await within the full expression, where the wrapper is still alive; a use-after-free elsewhere goes unnoticed.",
     ["qcoro/core", "qcoro/network", "qcoro/websockets"], "member coroutines must copy what they need before their first suspension")
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
