"""Writes /verif/properties.jsonl (the statements live here, one block per property)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook}})


prop("C01", "Line framing does not depend on how the network segments the bytes",
     """A line-based protocol sees the same lines and the same raw data however the incoming bytes are cut into
     segments: each delimited line is delivered exactly once, in order, without its delimiter, and nothing is delivered
     as a line before its delimiter has arrived. From the moment it switches to raw mode every further byte is handed
     to the raw handler, in order, until it switches back to line mode with whatever bytes it did not consume. Once the
     protocol has asked for its connection to be closed, no further line or raw data is delivered to it.""",
     ["inputs", "schedules"],
     """All byte streams, all segmentations, all points at which the protocol changes mode or closes the connection, any
     delimiter.""",
     """The suite feeds whole messages in one segment (iosim pumps everything at once); no test delivers a stream in
     arbitrary segments, changes mode inside a segment, or closes mid-segment.""",
     ["epsilon/liner.py"],
     [("LineReceiver.dataReceived buffering loop and mode re-check", "epsilon/liner.py:dataReceived"),
      ("setRawMode / setLineMode(extra)", "epsilon/liner.py")],
     [("buffer", "bytes received but not yet delivered", "epsilon/liner.py"),
      ("lineMode", "which handler gets the next bytes", "epsilon/liner.py")],
     ["LineReceiver.lineReceived", "LineReceiver.rawDataReceived"])

prop("C02", "Boxes cross a Juice connection intact, once and in order",
     """Every box one end of a Juice connection sends is received by the other end as an equal box, exactly once and in
     the order sent, however the byte stream is segmented. Header values and the body may be any text - line breaks,
     colons, leading or trailing white space, non-ASCII characters, empty - and arrive unchanged. If the connection is
     cut at any byte, the boxes received are exactly the leading boxes that arrived completely, never a partial or
     altered one.""",
     ["inputs", "schedules", "fault_sequences"],
     "All sequences of boxes with text values and header names in their normal form, all segmentations, all points at which the connection is cut.",
     """testParsingRoundTrip sends eight fixed boxes, each flushed whole in one segment, all ASCII, none with an empty
     body, never cut short.""",
     ["epsilon/juice.py", "epsilon/liner.py"],
     [("JuiceBox.serialize escaping and length", "epsilon/juice.py:JuiceBox.serialize"),
      ("parseJuiceHeaders continuation lines", "epsilon/juice.py:parseJuiceHeaders"),
      ("lineReceived/rawDataReceived body accounting", "epsilon/juice.py:Juice")],
     [("_requestBuffer", "header lines of the box being received", "epsilon/juice.py:Juice"),
      ("_bodyRemaining", "body bytes still expected", "epsilon/juice.py:Juice")],
     ["Juice.juiceBoxReceived", "juice.parse"])

prop("C03", "Each Juice command runs once and its answer reaches its own request",
     """While a Juice connection stays up, every command issued from either end is executed exactly once by the peer
     with the argument values it was given (and those the command declares to be taken from the connection), in the namespace it was issued in,
     and commands are started in the order they were issued. Every request that
     asked for an answer gets exactly one result: the one its own handler produced, with the response values that
     handler returned, whatever the order in which handlers finish, however many requests are in flight in both
     directions and however the bytes are segmented. A command issued without asking for an answer is executed and
     never answered, and one that lacks a required argument is refused by the sender. If an end has a wrapper, each
     handler it starts and each reply it delivers runs inside one call of that wrapper.""",
     ["schedules", "histories", "inputs"],
     """All interleavings of requests and handler completions on both ends, all declared argument types and the values
     they can represent, any number of requests in flight.""",
     """The tests issue one request at a time to a handler that answers synchronously; nothing has two requests in
     flight, out-of-order completion, or requests crossing in both directions.""",
     ["epsilon/juice.py"],
     [("request tags and the table of outstanding requests", "epsilon/juice.py:JuiceParserBase.sendBoxCommand"),
      ("answer/error dispatch by tag", "epsilon/juice.py:JuiceParserBase.juiceBoxReceived"),
      ("argument conversion", "epsilon/juice.py:stringsToObjects, objectsToStrings")],
     [("_outstandingRequests", "tag -> Deferred of the waiting request", "epsilon/juice.py:JuiceParserBase"),
      ("_counter", "last tag issued", "epsilon/juice.py:JuiceParserBase")],
     ["Command.do / sendCommand Deferreds", "command_* / juice_* handlers"])

prop("C04", "Connection loss settles every outstanding Juice request exactly once",
     """When a Juice connection is lost, every request still waiting for an answer fails exactly once, at that moment,
     with the reason the connection was lost; a request that already has its outcome keeps it. A request issued after
     the loss, including one issued while the losses are being reported, fails at once and writes nothing. A
     result that a handler delivers after the loss is discarded without raising or logging an error.""",
     ["crash_points", "schedules", "histories"],
     "All points in any request/answer history at which either end, or the network, drops the connection.",
     """No test loses a connection while a Juice request is outstanding, issues a request after a loss, or completes a
     handler late.""",
     ["epsilon/juice.py"],
     [("failAllOutgoing", "epsilon/juice.py:JuiceParserBase.failAllOutgoing"),
      ("connectionLost", "epsilon/juice.py:Juice.connectionLost"),
      ("refusal of requests after loss", "epsilon/juice.py:JuiceParserBase.sendBoxCommand")],
     [("_outstandingRequests", "None once no request can be answered any more", "epsilon/juice.py")],
     ["Deferreds of the requests", "bytes written to the transport", "the log"])

prop("C05", "Juice errors arrive as declared and only fatal ones end the connection",
     """When a command handler fails with an error its command declares, synchronously or later, the caller gets that
     same error type with the same message and the connection stays usable, unless the error is declared fatal, in
     which case the caller gets it and the connection is then closed. Any other failure (except a RemoteJuiceError,
     by which a handler chooses the error code itself), and any command that is not recognised, reaches the caller as an
     unhandled remote error carrying none of the handler's details, is logged where it happened, and the connection is
     closed after the error has been sent. An error that the caller leaves unhandled
     is logged and closes the connection; one that it handles does neither.""",
     ["histories", "schedules", "programs"],
     """All mixes of succeeding and failing handlers (declared, fatal, undeclared, unknown command; sync or async) and
     of callers that do or do not handle the error.""",
     """One test raises one declared error synchronously; fatal errors, undeclared errors, asynchronous failures,
     unknown commands, what the connection does afterwards and unhandled caller-side errors are not tested.""",
     ["epsilon/juice.py"],
     [("checkKnownErrors", "epsilon/juice.py:DispatchMixin._auto"),
      ("sendError", "epsilon/juice.py:JuiceParserBase.juiceBoxReceived"),
      ("_massageError", "epsilon/juice.py:Command.do"),
      ("_puke", "epsilon/juice.py:JuiceParserBase._puke")],
     [("allErrors / reverseErrors", "error type <-> code tables", "epsilon/juice.py:_CommandMeta")],
     ["Deferreds of the requests", "connection state on both ends", "the log"])

prop("C06", "A hostile peer can only run commands exposed in the default namespace",
     """Whatever bytes a remote peer sends on a Juice connection, the only code it can cause to run are the handlers of
     commands exposed for the default namespace, each once per well-formed command box naming it, and handlers of
     commands exposed only in other namespaces never run: a dispatcher asked to run a command in some namespace runs it
     only if the command is exposed there. A pending request is only ever completed by a reply that
     carries its own tag or by the loss of the connection, and never twice. Bad input on one connection at worst closes
     that connection: other connections of the same process carry on undisturbed.""",
     ["inputs", "histories"],
     """All byte streams a peer may send, interleaved with honest traffic on other connections and with requests
     pending on the attacked one.""",
     "The tests only ever send well-formed commands that exist, with the right arguments, from an honest peer.",
     ["epsilon/juice.py"],
     [("lookupFunction / _auto namespace check", "epsilon/juice.py:DispatchMixin"),
      ("dispatchCommand UnhandledCommand", "epsilon/juice.py:DispatchMixin.dispatchCommand"),
      ("answer matching by tag", "epsilon/juice.py:JuiceParserBase.juiceBoxReceived")],
     [],
     ["handlers run on the attacked protocol", "Deferreds of pending requests", "other connections"])

prop("C07", "Switching protocols hands the byte stream over cleanly",
     """When a Juice connection is switched to another protocol, the new protocol on each end is connected exactly once
     and receives exactly the bytes the peer's new protocol wrote, all of them, in order, under any segmentation and
     whatever other Juice requests were still being handled; no Juice message is mixed into that stream in either
     direction. The request for the switch reaches the peer in the namespace it was made in, and an end that
     waits for the switch still executes commands that want no answer, but none that want one, which it could not give. Loss of the connection is reported exactly once to each new protocol and to the client's factory, and
     fails every Juice request still waiting. If the switch is refused or the connection is lost first, the client's
     factory is told once that the connection failed, its protocol is never connected, and a refused connection is
     closed.""",
     ["schedules", "histories", "fault_sequences"],
     """All segmentations around the switch, all delays of the handler deciding the switch, other requests in flight in
     both directions, data written by either new protocol at any time, loss at any point.""",
     """testProtocolSwitch covers one idle connection on which each side writes one short string and the pump delivers
     whole writes.""",
     ["epsilon/juice.py", "epsilon/liner.py"],
     [("_lock", "epsilon/juice.py:Juice._lock"), ("_switchTo", "epsilon/juice.py:Juice._switchTo"),
      ("_SwitchBox.sendTo", "epsilon/juice.py:_SwitchBox"),
      ("rawDataReceived hand-over", "epsilon/juice.py:Juice.rawDataReceived"),
      ("ProtocolSwitchCommand.do", "epsilon/juice.py:ProtocolSwitchCommand.do")],
     [("innerProtocol", "the protocol the connection was switched to", "epsilon/juice.py:Juice")],
     ["connectionMade/dataReceived/connectionLost of the inner protocols", "clientConnectionFailed/Lost"])

prop("C08", "Upgrading a Juice connection to TLS leaks and loses nothing",
     """Once an end of a Juice connection has announced that it is about to start TLS, nothing it sends leaves in the
     clear: boxes sent meanwhile are held back and go out, each once and in the order sent, after TLS has been started
     with the given certificate options. An answer that carries the start of TLS is the last thing its sender writes in
     the clear. A second attempt to start TLS on the same connection is refused and does not start TLS again, and
     if the connection is lost while boxes are held back their requests fail like any other. A switch to another protocol
     asked for in the meantime goes out with the rest, in its turn, and the new protocols' data is under TLS; an end which
     is asked for a switch while it is itself starting TLS closes the connection instead.""",
     ["schedules", "histories", "crash_points"],
     """All interleavings of requests in both directions with the TLS negotiation, all segmentations, loss at any
     point.""",
     "No test exercises startTLS, prepareTLS or TLSBox at all.",
     ["epsilon/juice.py"],
     [("prepareTLS / _startingTLSBuffer", "epsilon/juice.py:Juice"), ("startTLS", "epsilon/juice.py:Juice.startTLS"),
      ("TLSBox.sendTo", "epsilon/juice.py:TLSBox")],
     [("_startingTLSBuffer", "boxes held back until TLS has started", "epsilon/juice.py:Juice")],
     ["bytes written to the transport before and after its startTLS"])

prop("C09", "Version negotiation leaves both ends agreeing",
     """A renegotiation of the protocol version ends with both ends using the version the initiator asked for and its
     Deferred giving that version, or, if the peer does not support it, with the request failing, the connection closed
     and neither end's version changed. Both ends never settle on different versions while no negotiation is in
     progress, even when both negotiate at once or other commands are in flight, and a loss of the connection makes the
     pending negotiation fail. Other connections are not affected.""",
     ["schedules", "fault_sequences", "configurations"],
     """All sets of versions supported by the process at each time, concurrent negotiations from both ends, delays and
     connection loss.""",
     "One test negotiates version 1 once from one end.",
     ["epsilon/juice.py"],
     [("renegotiateVersion", "epsilon/juice.py:Juice.renegotiateVersion"),
      ("command_NEGOTIATE", "epsilon/juice.py:Juice.command_NEGOTIATE"),
      ("NegotiateBox.sendTo", "epsilon/juice.py:NegotiateBox")],
     [("protocolVersion", "version in use at this end", "epsilon/juice.py:Juice")],
     ["Juice.protocolVersion on both ends", "Deferred of renegotiateVersion"])

prop("C10", "Password login admits exactly those who prove the right password",
     """A connection becomes authenticated by the password exchange only if the response was computed from the most
     recent challenge issued on that same connection and the password of the user that challenge was issued for, and it
     is then given that user's avatar and no other. Every challenge and every client nonce is fresh and unpredictable,
     so an exchange recorded earlier or elsewhere, replayed in whole or in part, is refused. A wrong
     response is refused with UnauthorizedLogin and leaves the connection unauthenticated but able to try again, while
     an honest client with the right password always gets in.""",
     ["histories", "schedules", "inputs"],
     """All interleavings of login attempts by honest and dishonest clients over many connections, with checkers and
     realms that answer at once or later, and all recordings of earlier traffic.""",
     """The tests make one attempt per connection, in order, with an immediate checker; no test replays, interleaves
     attempts, or changes user between challenge and response.""",
     ["epsilon/ampauth.py"],
     [("passwordLogin challenge", "epsilon/ampauth.py:CredReceiver.passwordLogin"),
      ("passwordChallengeResponse", "epsilon/ampauth.py:CredReceiver.passwordChallengeResponse"),
      ("checkPassword / _calcResponse", "epsilon/ampauth.py"), ("login", "epsilon/ampauth.py:login")],
     [("challenge, username", "the exchange in progress", "epsilon/ampauth.py:CredReceiver")],
     ["avatars requested from the realm", "answers the clients get", "challenges and nonces on the wire"])

prop("C11", "A one-time pad admits at most one login, ever",
     """Each one-time pad admits at most one login as the avatar it was issued for, whatever the number and interleaving
     of connections presenting it and however long the realm takes to provide the avatar. A pad that was never
     issued or was already presented is refused with UnauthorizedLogin, admits nobody and disturbs no other pad; a
     pad that is valid and presented for the first time, on a connection that is not logged in already, is accepted.""",
     ["schedules", "histories"],
     "All interleavings of pad presentations over any number of connections sharing a checker.",
     """The tests call the checker twice in a row directly; no concurrency, no delayed realm, no connection loss between
     use and completion.""",
     ["epsilon/ampauth.py", "epsilon/iepsilon.py"],
     [("OneTimePadChecker.requestAvatarId", "epsilon/ampauth.py"), ("otpLogin", "epsilon/ampauth.py:CredReceiver")],
     [("pads", "pads not yet used", "epsilon/ampauth.py:OneTimePadChecker")],
     ["avatars requested from the realm", "answers the clients get"])

prop("C12", "A login session has one avatar, started once and logged out once",
     """Every avatar the realm hands out for an AMP connection has its logout called exactly once: when that connection
     is lost, or immediately if it cannot be used because the connection was already lost or already has an avatar. At
     most one avatar ever serves a connection; it is started once, with a sender through which its boxes reach the
     client, before it gets any box; it receives, in order, every box that arrives after the login succeeded and none
     that arrived before, and is told once that the connection stopped. No box is handed to an avatar after its
     logout.""",
     ["schedules", "crash_points", "histories"],
     """All interleavings of (possibly concurrent) logins decided at once or later, application boxes, segmentation and
     connection loss at any point.""",
     """One test loses the connection after one synchronous login; none loses it while a login is being decided, none
     has two logins pending, none looks at boxes around the login.""",
     ["epsilon/ampauth.py"],
     [("CredReceiver._login", "epsilon/ampauth.py"), ("CredReceiver.connectionLost", "epsilon/ampauth.py")],
     [("logout", "logout callable of the current avatar", "epsilon/ampauth.py:CredReceiver"),
      ("boxReceiver", "who gets the boxes that arrive", "epsilon/ampauth.py:CredReceiver")],
     ["avatar callbacks", "logout calls"])

prop("C13", "Routed boxes reach exactly the receiver they are addressed to, in order",
     """With any number of routes multiplexed over one AMP connection, each box sent through a route is delivered,
     without the routing information, to the receiver bound to that route on the other side, exactly once and in the
     order sent on that route, and to no other receiver; boxes without a route go to the default receiver. Requests
     and answers of unrelated protocols sharing the connection never mix, however boxes of different routes interleave
     and however the bytes are segmented. An error left unhandled on a route is reported to the connection, as without
     routes.""",
     ["schedules", "histories", "inputs"],
     """All sets of routes (including the default one and routes being added and removed), all interleavings of boxes in
     both directions over a real AMP connection, all segmentations.""",
     """The tests hand single dictionaries to one router by hand; no two routers are ever connected, no real AMP box or
     byte stream is routed.""",
     ["epsilon/amprouter.py"],
     [("Route.sendBox", "epsilon/amprouter.py"), ("Router.ampBoxReceived", "epsilon/amprouter.py")],
     [("_routes", "local route name -> route", "epsilon/amprouter.py:Router")],
     ["IBoxReceiver.ampBoxReceived of every receiver", "the wire"])

prop("C14", "Route life cycle: started once, stopped once, names never clash",
     """The receiver of a route is started exactly once, as soon as its route has been connected and its router has been
     started, in whichever order these happen, and never before; boxes cannot be sent through a route that has not been
     connected. When the router stops, the receiver of every route still bound is told exactly once, even if receivers
     bind or unbind routes while being started or stopped, and an unbound route (which can be unbound at any time)
     receives nothing more and is not told. A route name chosen by the router is never the name of another route
     already bound there.""",
     ["schedules", "histories", "crash_points"],
     """All orders of bind, connect, unbind, router start and stop, including from inside the callbacks of receivers,
     and loss of the connection at any point of route set-up.""",
     """The tests cover a few fixed orders with passive receivers; nothing is done from inside a callback, nothing is
     unbound before start or after stop, and names are never mixed.""",
     ["epsilon/amprouter.py", "doc/listings/amp/route_setup.py"],
     [("Router.startReceivingBoxes / stopReceivingBoxes", "epsilon/amprouter.py"),
      ("Route.connectTo / unbind", "epsilon/amprouter.py"),
      ("Router.createRouteIdentifier / bindRoute", "epsilon/amprouter.py")],
     [("_unstarted / _routes", "routes bound before / after the router was started", "epsilon/amprouter.py:Router")],
     ["IBoxReceiver.startReceivingBoxes / stopReceivingBoxes of every receiver", "names of routes"])

prop("C15", "react runs the reactor until main is done and stops it exactly once",
     """react calls the main function once with the reactor and the given arguments and returns only when the reactor
     has shut down: at the moment main's Deferred fires if nothing else stopped it first, and never before. A failure
     of that Deferred is logged exactly once. Whatever the order in which the Deferred fires and the reactor is stopped
     by others - before start-up, in the same event, during shutdown or never - the reactor is not stopped twice and no
     other error is logged.""",
     ["schedules", "histories"],
     """All timings of the Deferred (before, at, after start-up, during shutdown, never) against all timings of other
     stops, with real reactor start-up and shutdown events.""",
     """Seven fixed timings against a hand-written fake reactor that, unlike a real one, allows being stopped twice and
     never stops and fires the Deferred in the same event.""",
     ["epsilon/react.py"],
     [("shutdown trigger recording that stop was requested", "epsilon/react.py:react"),
      ("callWhenRunning(reactor.stop)", "epsilon/react.py:react")],
     [("stopping", "whether the reactor is already shutting down", "epsilon/react.py")],
     ["return of react", "simulated time", "the log"])

prop("C16", "Scheduled work progresses only while its service runs, and reports once",
     """Iterators given to a scheduling service make no progress before it is started or after it is stopped, and while
     it runs each is advanced one step at a time, in its own order, until it is exhausted, with no iterator starved by
     the others and an iterator that yielded a Deferred resumed only after that Deferred fired. The Deferred returned for
     an iterator fires exactly once: with the iterator when exhausted, with the exception it raised, or with
     SchedulerStopped at the moment its service is stopped while it is due to run (one that waits for a Deferred just
     then: when that fires and the service is still stopped). A service can be stopped and started again, its running
     flag tells which, and iterating in the reactor behaves like a service that always runs.""",
     ["schedules", "histories"],
     """All interleavings of adding work, starting, stopping and restarting the service, work that raises, waits or adds
     work, and clock advance within a time slice.""",
     "epsilon.cooperator has no tests at all.",
     ["epsilon/cooperator.py"],
     [("SchedulingService", "epsilon/cooperator.py"), ("iterateInReactor", "epsilon/cooperator.py")],
     [("coop", "the cooperator doing the work", "epsilon/cooperator.py:SchedulingService")],
     ["steps of the iterators", "Deferreds of addIterator / iterateInReactor"])

prop("C17", "A pending event reaches every waiter registered before it, once",
     """When a pending event fires, with a result or a failure, every Deferred handed out before that moment and not yet
     fired is fired exactly once with it, in the order handed out; Deferreds handed out later, including from inside
     the callbacks being run, wait for the next firing. This holds for any number of firings and when callbacks hand
     out, cancel or fire again, or fail themselves; the current exception is used when a failure is reported without
     one.""",
     ["histories", "schedules"],
     "All histories of registering, firing, failing, cancelling, including re-entrant ones.",
     "epsilon.pending has no tests at all.",
     ["epsilon/pending.py"],
     [("PendingEvent.callback / errback swap the list of listeners first", "epsilon/pending.py")],
     [("listeners", "Deferreds waiting for the next firing", "epsilon/pending.py")],
     ["Deferreds returned by PendingEvent.deferred"])

prop("C18", "A supervised child process is reported once, completely and on time",
     """The Deferred for a spawned process fires exactly once, when the process ends and even if gathering statistics then
     fails: with the protocol, exit status and output if it exited normally (or, if its statistics could not be
     gathered then, with that error), with TimeoutError if it had been killed for being idle, and otherwise with ProcessDied carrying its exit code, signal, status and output. The output is
     every piece of data (except the requests on the benchmark back-channel) and every closing of a descriptor, in the
     order they happened. The process is killed when, and only when, 900 seconds pass without
     any output or closing of a descriptor, and no timer is left behind once it has ended.""",
     ["schedules", "fault_sequences", "histories"],
     """All timings and orders of output, descriptor closings, exits, signals and timer expiries, including ties, and
     failures while statistics are gathered at exit.""",
     """The tests fire single events by hand; the timer is called by hand rather than by a clock, and nothing races.""",
     ["epsilon/scripts/benchmark.py"],
     [("BasicProcess timeouts", "epsilon/scripts/benchmark.py:BasicProcess"),
      ("processEnded classification", "epsilon/scripts/benchmark.py:BasicProcess.processEnded")],
     [("output", "what the child wrote so far", "epsilon/scripts/benchmark.py:BasicProcess"),
      ("timedOut", "whether the child was killed for being idle", "epsilon/scripts/benchmark.py:BasicProcess")],
     ["Deferred returned by spawn", "signals sent", "pending timers"])

prop("C19", "Benchmark start/stop signalling is acknowledged after measuring, in step",
     """Each start or stop request of a benchmarked child is answered with the matching acknowledgement exactly once, in
     order, however its bytes are grouped, and only after the corresponding snapshot of time, disk statistics and
     directory size has been taken, so that the recorded interval contains what the child did between them and nothing
     of the measuring. Any other byte gets the child a QUIT signal and no acknowledgement. In the child, start and stop
     return only once the matching acknowledgement has arrived, even if the wait is interrupted, and raise if anything
     else, or the end of the channel, arrives instead.""",
     ["schedules", "fault_sequences", "inputs"],
     """All groupings and timings of back-channel bytes and ordinary output, interrupted reads and writes, wrong
     acknowledgements and end of file, clock advancing during measuring.""",
     """The tests pass the parent's own constants straight back to it; bytes as a real child process sends them, and the
     child side, are not exercised.""",
     ["epsilon/scripts/benchmark.py"],
     [("BenchmarkProcess.childDataReceived / startTiming / stopTiming", "epsilon/scripts/benchmark.py"),
      ("start / stop", "epsilon/scripts/benchmark.py"), ("Change.start / stop", "epsilon/scripts/benchmark.py:Change")],
     [("benchmarkChange / overallChange", "snapshots around the measured interval",
       "epsilon/scripts/benchmark.py:BenchmarkProcess")],
     ["bytes written to the child", "signals", "snapshots", "start() / stop() in the child"])

prop("C20", "Benchmark results are appended whole and never disturb earlier ones",
     """A benchmark whose child was measured and exited normally adds exactly two records to the results file, overall then
     measured, one whose child failed, was killed or timed out adds none and shows why, and either way the benchmark run then ends;
     records read back as the values measured (differences of the two
     snapshots, absent when a statistic was unavailable, flagged as an error if anything was written to standard error). Bytes
     already in the file are never changed. If writing fails part way -
     full disk, short or failed write - the failure is logged and later records are not written in its place.""",
     ["fault_sequences", "histories", "crash_points"],
     """All sequences of benchmark runs and outcomes, missing disk statistics, and disk faults at any write, with other
     processes appending to the same file.""",
     "formatResults is tested on three fixed snapshots; reportResults, _bench and any disk fault are untested.",
     ["epsilon/scripts/benchmark.py"],
     [("_bench", "epsilon/scripts/benchmark.py:_bench"), ("formatResults", "epsilon/scripts/benchmark.py"),
      ("reportResults append", "epsilon/scripts/benchmark.py:reportResults")],
     [],
     ["the results file", "the log"])

prop("C21", "Clock-relative dates are computed from one instant of the clock",
     """A date phrase read against the current time (today, tomorrow, yesterday, a weekday, a time of day, noon,
     midnight, now) denotes what that phrase means at one single instant between the start and the end of the call, for
     any time zone, wherever in the call the clock ticks, crosses midnight, month or year end, or is stepped. The same
     holds for showing a time relative to the current time, and a new Time is an instant within the call that made it.
     An explicitly given current time is used instead of the clock, which then has no influence.""",
     ["schedules", "inputs", "fault_sequences"],
     "All clock behaviours during the call (ticks, jumps in both directions, midnights), phrases and fixed zones.",
     "The tests pass a fixed 'now' or use the real clock; the clock never moves during a call.",
     ["epsilon/extime.py"],
     [("Time.fromHumanly", "epsilon/extime.py"), ("Time.asHumanly", "epsilon/extime.py"),
      ("Time.__init__", "epsilon/extime.py")],
     [], ["returned Time and text"])

prop("C22", "Printing a record in one thread is not affected by other threads",
     """The representation of a record lists its class name and all its fields in declaration order, abbreviating a
     record only where it is nested inside itself in that very representation. This holds for every shape of shared,
     nested or cyclic records when any number of threads print the same records at the same time, and after a field's
     own representation raised an exception.""",
     ["schedules", "fault_sequences", "inputs"],
     "All interleavings of printing threads at field granularity, all object graphs, failures of field printing.",
     """test_threadLocality checks one pair of threads at one point; nothing fails in the middle, and shapes are
     fixed.""",
     ["epsilon/structlike.py"],
     [("_RecursiveReprer kept in the calling context", "epsilon/structlike.py:_contextualize"),
      ("recursiveRepr cleanup", "epsilon/structlike.py:_RecursiveReprer")],
     [("active", "records being printed in this context", "epsilon/structlike.py:_RecursiveReprer")],
     ["repr(record)"])

prop("C23", "certcreate reports success only for a completely stored certificate",
     """When creating a certificate returns normally, the named file holds exactly the complete PEM of the certificate
     and key it returned, with the subject and serial number asked for, and the success message, if not silenced, was
     printed only after that. If the file cannot be opened, written or closed in full - full disk, short write, I/O error -
     the call raises, and success is not announced.""",
     ["fault_sequences", "inputs"],
     "All option sets and all placements of disk faults (open, each write, close; errors, short writes).",
     "certcreate has no tests in the suite.",
     ["epsilon/scripts/certcreate.py"],
     [("createSSLCertificate", "epsilon/scripts/certcreate.py")],
     [], ["the file", "standard output", "the returned certificate"])

prop("C24", "A benchmark script runs in a directory of its own, which is gone afterwards",
     """The benchmark command runs the script it is given - the file of that name seen from the caller's working directory -
     once, with the remaining arguments and the caller's environment, in a newly made empty directory. When the command is
     over, however that came about - script done, failed, killed or timed out, child or statistics failing, results not
     storable, command interrupted - that directory and everything in it is gone, or the error that prevented its removal
     has been raised. Nothing else is removed or changed apart from the results appended in the caller's working directory:
     not other directories, not what links left behind by the script point to, and nothing at all if the directory could
     not be made.""",
     ["fault_sequences", "crash_points", "histories"],
     """All sequences of benchmark runs in one working directory, everything a script can leave in its directory, failures
     to create, measure, start, store or remove at any point, and other programs using the working directory.""",
     "main() is untested: the suite never runs a whole benchmark, let alone one that fails or is interrupted.",
     ["epsilon/scripts/benchmark.py"],
     [("main", "epsilon/scripts/benchmark.py:main"), ("bench", "epsilon/scripts/benchmark.py:bench"),
      ("makeBenchmarkRunner", "epsilon/scripts/benchmark.py:makeBenchmarkRunner")],
     [("path", "the directory made for the script", "epsilon/scripts/benchmark.py:main")],
     ["the working directory", "how the child is started", "the results file", "what main() raises"])

prop("C25", "Benchmark statistics are those of the device under the working directory",
     """The disk statistics recorded for a benchmark are those of the device that backed the working directory when the child was
     started: the one mounted at the innermost mount point containing that directory, and of several mounted there the one
     mounted last, whatever other mount points are called, and whatever is mounted or unmounted while the child runs. If that
     device has no statistics, or no mount point contains the directory, none are recorded.""",
     ["histories", "schedules", "inputs"],
     """All histories of mounts, unmounts and benchmark runs in any working directory, mount points with any names.""",
     "One test reads an empty mount table; nothing has two mount points, or a mount table that changes.",
     ["epsilon/scripts/benchmark.py"],
     [("discoverCurrentWorkingDevice", "epsilon/scripts/benchmark.py:discoverCurrentWorkingDevice"),
      ("captureStats, parseDiskStatLine", "epsilon/scripts/benchmark.py"),
      ("BenchmarkProcess.__init__", "epsilon/scripts/benchmark.py:BenchmarkProcess")],
     [("partition, disk", "devices whose statistics are read", "epsilon/scripts/benchmark.py:BenchmarkProcess")],
     ["the records in the results file"])

prop("C26", "Tracing can be switched at any moment and does not disturb the program",
     """A Tracer can be installed, uninstalled and toggled any number of times, from any point of the running program, and
     says correctly whether it is installed. While it is, every call, line, return and exception in the thread that installed it
     and in threads started since is handed to the matching hook once, in order; a function whose call hook answers with
     skip is left alone (but not what it calls), and one whose call hook answers with another trace function is handed over
     to that. After uninstalling, nothing more is reported in that thread and in threads started from then on. The
     traced program returns and raises exactly what it would untraced. The Spewer prints each call with its thread, class,
     function and all arguments, whatever their printing does, each value returned and each exception, and shows calls
     indented under the call that makes them.""",
     ["schedules", "histories", "inputs"],
     """All programs, threads and points at which tracing is switched on or off.""",
     "spewer is not tested at all.",
     ["epsilon/spewer.py"],
     [("Tracer", "epsilon/spewer.py:Tracer"), ("Spewer", "epsilon/spewer.py:Spewer"), ("extractArgs, formatArgs", "epsilon/spewer.py")],
     [("installed", "whether the tracer is on", "epsilon/spewer.py:Tracer"), ("callDepth", "indentation", "epsilon/spewer.py:Spewer")],
     ["hook calls", "standard output", "results and exceptions of the traced program"])

prop("C27", "A signal service handles its signals exactly while it runs, and gives them back",
     """From the moment a SignalService has been started until it is stopped, each signal in its map is handled by the handler
     given for it; once it has been stopped, every signal is handled again by whatever handled it before the start, and no
     other signal is ever affected. That holds for any number of services started one after another on the same signals and
     stopped in reverse order, on their own or as children of other services, for services that are restarted, when the map was
     changed while the service ran, and when the start failed part of the way. A signal that arrives in the
     middle of starting or stopping is handled by the old or the new handler.""",
     ["histories", "schedules", "fault_sequences"],
     """All histories of starts, stops and changes of several services, with signals arriving at any moment and signals
     that cannot be handled.""",
     "SignalService is not tested at all.",
     ["epsilon/spewer.py"],
     [("SignalService", "epsilon/spewer.py:SignalService")],
     [("oldsigmap", "what the service replaced", "epsilon/spewer.py:SignalService")],
     ["signal dispositions", "which handler runs"])

prop("C28", "Exploding a template writes every file it names, whole, or fails",
     """When exploding a project template returns normally, every file the template names exists and holds exactly the text
     that follows its (last) naming, with the project names put in and the current date for the date placeholder, directories having
     been made as needed, and each file was reported as it was created. If a directory or file cannot be made, opened, written or closed in
     full, or text belongs to no file, or the user interrupts, that is raised. Files the template does not name are not touched.""",
     ["fault_sequences", "crash_points", "inputs"],
     """All templates, earlier contents of the directory, and placements of disk faults and interrupts.""",
     "asplode is not tested at all.",
     ["epsilon/asplode.py"],
     [("splode", "epsilon/asplode.py:splode"), ("main", "epsilon/asplode.py:main")],
     [("current", "the file being written", "epsilon/asplode.py:splode")],
     ["the files", "standard error", "exceptions"])

prop("C29", "A remembered attribute has one value per object, for every thread, for good",
     """Every access to a remembered attribute of an object gives the same object, whatever its value (None and false values
     included), from any thread and at any time. The creation function is given the object, and is not called by an access that
     begins after some access to that attribute of that object has returned. A failing creation is passed on to the access that
     caused it and leaves nothing behind: the next access tries again. Attributes (made from different named
     functions, overriding ones included) and objects (equal ones too) do not affect each other; creation functions may use other remembered attributes. No access ever blocks for good.""",
     ["schedules", "fault_sequences", "histories"],
     """All numbers of threads and interleavings of their accesses, values, and failures of creation functions.""",
     "The tests create one attribute once, in one thread.",
     ["epsilon/remember.py"],
     [("remembered.__get__", "epsilon/remember.py:remembered")],
     [("__dict__", "what the object remembers", "epsilon/remember.py:remembered")],
     ["values of the attribute", "calls of the creation function", "exceptions"])

prop("C30", "A modal object acts by its current mode, through every change of mode",
     """Looking up a method on a modal object gives the implementation of a mode the object was in during the look-up, bound to
     the object, or raises AttributeError if that mode has none; what was looked up stays what it was when the mode changes.
     transitionTo runs __exit__ of the current mode while the object is still in it, then changes the mode, then runs __enter__
     of the new mode while the object is in that, each once. If leaving fails, that is raised and the object stays in its
     mode without anything being entered; if entering fails, that is raised and the object is in the new mode. All this holds
     for changes made inside methods and while entering, from the initial mode the class names, with any modeAttribute, in subclasses, in
     all threads while one changes the mode, and no object affects another.""",
     ["schedules", "fault_sequences", "histories"],
     """All modal classes whose modes define __enter__ and __exit__, histories of calls and changes, failures, and
     interleavings of one thread changing modes with others calling methods.""",
     "The tests change modes a few times in one thread, nothing failing, with the default mode attribute.",
     ["epsilon/modal.py"],
     [("ModalMethod.__get__", "epsilon/modal.py:ModalMethod"), ("ModalType", "epsilon/modal.py:ModalType"), ("transitionTo", "epsilon/modal.py:Modal")],
     [("mode attribute", "the current mode", "epsilon/modal.py:Modal")],
     ["which implementation runs", "the mode attribute", "order of __exit__ and __enter__", "exceptions"])

prop("C31", "Packaging covers the tree, and a broken plugin package stops no other",
     """autosetup() calls setup() once with the given arguments and a description of the tree it is run in, whatever the order in
     which directories are listed: as packages, every directory (outside of hidden ones) that has an __init__.py or a directory
     plugins; as data of each top-level package, every file below it (outside of hidden directories) except dropin.cache and
     Python sources, compiled or not, next to an __init__.py. After setup() has run an install command, and only then, the plugins of each directory
     that has plugins but no __init__.py are listed, all of them, each once, with the place things were installed in first on sys.path; a
     plugin package that is missing or whose import fails with any exception keeps none of the others from it, and a failure other than an
     ImportError is shown. If setup() fails, that is raised and nothing is registered. What setup() returned is returned.""",
     ["fault_sequences", "inputs"],
     """All source trees below a root that is no package itself, orders of listing, commands, and failures of setup() and of importing plugin packages.""",
     "The only test of setuphelper is switched off.",
     ["epsilon/setuphelper.py"],
     [("autosetup", "epsilon/setuphelper.py:autosetup"), ("pluginModules", "epsilon/setuphelper.py:pluginModules"), ("_regeneratePluginCache", "epsilon/setuphelper.py:_regeneratePluginCache")],
     [("packages, pluginPackages", "what was found in the tree", "epsilon/setuphelper.py:autosetup")],
     ["arguments of setup()", "which packages' plugins are listed", "exceptions"])

prop("C32", "A spawned process finds the packages it was promised, and nothing else changes",
     """spawnProcess() and spawnPythonProcess() start exactly one process, with the arguments given (the latter with the running interpreter
     as the executable), and return what the reactor returned. Its environment is the one given (that of the calling process for None), except
     that its PYTHONPATH begins with the directories in which the calling process finds the named packages at that moment (all of them for
     a namespace package in several parts), each once, in the order in which the packages were named, leaving out the interpreter's own library
     (directories of sys.prefix/lib whose name begins with python); what the caller's PYTHONPATH had follows unchanged, and nothing else, in
     particular no empty element, which would stand for the current directory, is added. So the process can import every one of the packages. The caller's environment, the environments
     of other processes and later calls are not affected. If a package cannot be found, or the list of packages fails, that is raised and
     nothing is started; if the process cannot be started, the reactor's error is raised, and another attempt works like the first.
     A StandardIOService connects its protocol to standard I/O whenever it is started, once, and not before.""",
     ["fault_sequences", "histories", "inputs"],
     """All directories and archives on sys.path and changes to them between calls, environments, lists of top-level packages, spawns from within a
     spawn, missing packages and refused spawns.""",
     "The module could not even be imported on Python 3; its tests know nothing of spawning.",
     ["epsilon/process.py"],
     [("spawnProcess", "epsilon/process.py:spawnProcess"), ("spawnPythonProcess", "epsilon/process.py:spawnPythonProcess"), ("StandardIOService.startService", "epsilon/process.py:StandardIOService")],
     [("env, pythonpath", "the environment of the new process", "epsilon/process.py:spawnProcess")],
     ["arguments of reactor.spawnProcess", "exceptions", "the caller's environment"])

prop("C33", "A hotfix is installed exactly where it is needed, and at most once",
     """hotfix.require('twisted', name), in any order and any number of times, installs that hotfix exactly if the library has the defect at
     that moment (for the re-entrancy of loopback: a Twisted older than 8.2; never for what Twisted took away altogether), and no other.
     Once it was installed or found not to be needed, requiring it again does nothing. If installing it fails, that error is raised, and requiring it again
     tries again. What is not a known hotfix of twisted raises NoSuchHotfix every time and installs nothing. An installer may require other hotfixes.""",
     ["histories", "fault_sequences", "configurations"],
     """All sets of defects of the library, which may come and go between requirements, orders of requirements, and failures of installers.""",
     "The tests require three hotfixes of one version of Twisted, which has none of the defects.",
     ["epsilon/hotfix.py", "epsilon/hotfixes/internet_task_clock.py"],
     [("require", "epsilon/hotfix.py:require"), ("clockIsBroken", "epsilon/hotfixes/internet_task_clock.py:clockIsBroken")],
     [("_alreadyInstalled", "hotfixes installed or found not to be needed", "epsilon/hotfix.py")],
     ["installers called", "exceptions"])

prop("C34", "What is exposed can be looked up, and nothing else, whatever changes meanwhile",
     """Exposer.get() gives exactly what was exposed by this exposer under this key and is still what the object's class has under its name: of several
     exposed under a key by classes of the hierarchy, that of the most derived class, bound to the object. What was never exposed, was exposed by another exposer or under
     another key, was replaced by something not exposed (even if it equals an exposed one), overridden without being exposed again, or deleted, is refused with MethodNotExposed. Keys
     may be anything hashable, also false ones; without one it is the function's name, and what has no name is refused. Threads may
     expose, define, replace and delete methods, grow classes and copy objects during a look-up and during each other's exposing: no exposure is lost,
     a look-up raises nothing but MethodNotExposed (or what the object's own descriptor raises), gives nothing that was not exposed there at any moment of the look-up, and does not
     refuse what was exposed all the while.""",
     ["schedules", "histories", "programs"],
     """All class hierarchies, histories of exposing, defining, replacing and deleting, and interleavings of threads at every step of expose.py.""",
     "The tests look up methods of finished classes in one thread.",
     ["epsilon/expose.py"],
     [("Exposer.expose", "epsilon/expose.py:Exposer.expose"), ("Exposer.get", "epsilon/expose.py:Exposer.get")],
     [("_exposed", "functions exposed by key", "epsilon/expose.py:Exposer")],
     ["result of Exposer.get", "exceptions"])

NA = [
 ("N01", "Time round-trips through its textual formats",
  "For every format with both a constructor and a formatter, reading back a formatted time gives the same instant.",
  ["epsilon/extime.py"], "Time.from*/as*"),
 ("N02", "SlicedView agrees with slicing a list",
  "Indexing, slicing and measuring a view gives what slicing a list of the same elements would give.",
  ["epsilon/view.py"], "SlicedView._getIndices"),
 ("N03", "Caseless strings compare, hash and search without regard to case",
  "Equality, order, hashing and searching of wrapped strings ignore case and are consistent with each other.",
  ["epsilon/caseless.py"], "Caseless"),
 ("N06", "Records bind arguments like Python functions",
  "Constructing a record binds positional, keyword and default arguments as a Python function signature would.",
  ["epsilon/structlike.py"], "StructBehavior.__init__"),
]
for id, title, st, files, mech in NA:
    prop(id, title, st, ["inputs"], "All inputs.",
         "A pure function of its inputs: tests sample inputs.", files, [(mech, files[0])])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, sort_keys=False) + "\n")
print(len(P))
