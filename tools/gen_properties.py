#!/usr/bin/env python3
# Generates properties.jsonl (kept in step by hand; run after editing).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Background solve control never loses, invents or alters an answer",
 "For a solve started in the background, every non-zero result handed out by Stop, Try, Test, Wait or Pause is the true satisfiability of the clauses and assumptions in force when it was started, whatever the order, timing and interleaving of the control calls with the solver. A result the solve has already produced is never lost: the next control call returns it, and 0 is returned only when the solve was really stopped or timed out before it had an answer. After a stopped or timed-out solve the same solver still gives the right answer to later solves.",
 ["schedules","inputs","histories"],"every interleaving of control calls with the solving goroutine, every formula/assumptions, every sequence Pause/Unpause/Test*/(Stop|Try|Wait)",
 "ctl_test.go runs a handful of fixed instances under whatever interleaving the Go scheduler happens to give; the windows (result ready while Stop/alarm fires, stop at an arbitrary propagation tick, pause racing with completion) are never steered to.",
 ["internal/xo/ctl.go","internal/xo/s.go","gini.go","inter/solve.go"],
 [("result channel + stop/pause rendezvous","internal/xo/ctl.go Ctl.Tick/stop/Test/Try/Wait/Pause/Unpause"),("cancellation point in search loop","internal/xo/s.go Solve propagation ticker"),("background launch","internal/xo/s.go GoSolve")],
 [("cResult","hand-over of the one result","internal/xo/ctl.go"),("cStopOrPause","stop (true) / pause (false) request","internal/xo/ctl.go")],
 ["inter.Solve method results"])
p("C02","Background solve control is responsive: stop, time limits, pause and resume",
 "A Stop, a Pause, or a Try whose time has elapsed returns within a bounded amount of further solving work however hard the problem is, Test never blocks, and Try(d) does not give up before d has elapsed. Between a successful Pause and Unpause the solve makes no progress; after Unpause it carries on and still reaches its answer. No control call or solving goroutine is left blocked once its solve has been stopped, has timed out or has delivered its answer.",
 ["schedules","inputs","histories"],"every interleaving and every simulated duration/solver speed; hard and easy instances",
 "Real-time tests cannot bound work after a stop nor explore timer/solver races; they sleep for fixed times on one machine speed.",
 ["internal/xo/ctl.go","internal/xo/s.go"],
 [("periodic tick in the search loop","internal/xo/s.go Solve"),("pause keeps the solver blocked in Tick","internal/xo/ctl.go Tick/Pause/Unpause"),("time-out turns into a stop","internal/xo/ctl.go Try")])
p("C03","Incremental solving answers are right over any history, interrupted or not",
 "Over any history of adding clauses, assuming, solving, and interrupting solves by stop, time limit or pause, a solver answers 1 only if the clauses added so far and the current assumptions are satisfiable and -1 only if they are unsatisfiable, and never terminates the process or reports an internal error. After answer 1 the values it reports satisfy every added clause and every assumption. Untested assumptions are forgotten after the solve they were made for, even if that solve was interrupted. Operations other than solving always return promptly, and a solve of a small formula always comes to its answer within a bounded amount of work, whatever came before.",
 ["histories","inputs","schedules"],"all histories of Add/Assume/Solve/Try/GoSolve+control with interruptions at every tick, under every setting of restart, clause-collection and tick intervals",
 "Unit tests solve random instances once from scratch with default intervals (restart, compaction and cancellation rarely fire) and do not interrupt and continue incrementally.",
 ["internal/xo/s.go","internal/xo/cdb.go","internal/xo/cgc.go","internal/xo/derive.go","internal/xo/trail.go","internal/xo/guess.go","internal/xo/active.go","gini.go"],
 [("search loop, restart, cancel unwinding","internal/xo/s.go Solve"),("clean-up of an unfinished solve","internal/xo/s.go cleanupSolve/makeAssumptions"),("learnt clause collection and relocation","internal/xo/cgc.go"),("trail undo","internal/xo/trail.go Back/backWithLates")])
p("C04","Failed-assumption explanations are always sufficient",
 "After an unsatisfiable answer (from a plain, timed, resumed or background solve), Why returns only literals that were assumed (tested scopes included) for that solve, and those literals together with the added clauses are unsatisfiable. An empty explanation is given only if the clauses alone are unsatisfiable. This holds after any history of earlier interrupted, satisfiable and unsatisfiable solves.",
 ["histories","inputs","schedules"],"all incremental histories with interruptions, all assumption lists including duplicate, contradictory and level-0-implied ones",
 "Existing tests check Why on a few random instances without interruption, clause collection or reuse.",
 ["internal/xo/s.go"],[("final conflict analysis","internal/xo/s.go Why/final/finalRec"),("conflict kept by Solve/Test","internal/xo/s.go makeAssumptions, cleanupSolve")])
p("C05","Test scopes propagate soundly and nest around interrupted solves",
 "Every literal Test reports is implied by the clauses and the assumptions in scope, Test answers 1 only with a full model in place and -1 only if the scope is unsatisfiable, and Reasons of a propagated literal are literals true in the scope that imply it with the clauses. Solves inside a scope answer under all scoped assumptions and never drop them; Untest drops exactly the innermost scope's assumptions, and returns -1 only if what remains is unsatisfiable. All of this also holds when solves inside scopes are stopped, time out or are paused.",
 ["histories","inputs","schedules"],"all well-formed nestings of Assume/Test/Solve/Untest with interruptions at every tick",
 "Tests use two or three fixed nestings and never interrupt a solve inside a scope.",
 ["internal/xo/s.go","internal/xo/trail.go"],[("scope levels","internal/xo/s.go Test/Untest testLevels/endTestLevel"),("late propagation on backtrack","internal/xo/trail.go backWithLates"),("reasons","internal/xo/s.go Reasons")])
p("C06","Activation literals switch exactly their clauses",
 "A clause added under an activation literal is enforced in a solve exactly when that literal is assumed, a deactivated clause is never enforced again, and every other clause is unaffected. A literal recycled by Deactivate behaves as fresh. This holds across any number of activations and deactivations, learning, clause collection, copies and interrupted solves in between.",
 ["histories","inputs","schedules"],"all histories of ActivateWith/Activate/ActivationLit/Deactivate mixed with solves interrupted at any tick and clause collection at any point",
 "active_test.go runs a few fixed additions with compaction rarely in play.",
 ["internal/xo/active.go","internal/xo/cdb.go","internal/xo/cgc.go"],[("occurrence lists remapped by compaction","internal/xo/active.go CRemap"),("removal of clauses and of learnts depending on them","internal/xo/active.go Deactivate, internal/xo/cdb.go Remove, internal/xo/derive.go")])
p("C07","Copies of idle or paused solvers are faithful and fully independent",
 "A copy taken when the solver is idle, or while its background solve is paused, represents the same clauses, activation literals and scope, and from then on gives right answers to any sequence of operations. Original and copy do not influence one another: adding, assuming, solving (also concurrently), stopping, pausing or timing out one never changes the answers or the progress of the other. A copy requested while a solve is running is either taken once that solve is paused or over, never from a half-updated state.",
 ["schedules","histories","inputs"],"every instant of pausing and copying, every number of copies run concurrently, every later history",
 "No test copies during a pause, runs original and copy concurrently, or steers where in the search the copy is taken.",
 ["internal/xo/s.go","internal/xo/cdb.go","internal/xo/cdat.go","internal/xo/guess.go","internal/xo/trail.go","internal/xo/derive.go","internal/xo/active.go","internal/xo/vars.go","gini.go"],
 [("deep copies of every component","internal/xo/s.go Copy and each component's Copy/CopyWith"),("read lock handed over on pause","internal/xo/ctl.go Pause/Unpause, s.rmu")])
p("C08","A time-limited solve keeps its limit and leaves nothing behind",
 "Try(d) on a solver returns within d plus a bounded amount of solving work, with the right answer or 0, and 0 only if d has elapsed (or d is not positive). The limit applies to that call alone: later solves, tries, background solves and copies are not cut short by it. A limit much longer than the solve never changes the answer.",
 ["inputs","histories","schedules"],"every duration, solver speed, clock jump at scheduling granularity and later history",
 "Tests use one or two wall-clock limits and never reuse the solver after a time-out.",
 ["internal/xo/s.go","gini.go"],[("deadline check","internal/xo/s.go Try/Solve deadline")])
p("C09","The assumption exchanger answers every accepted request once and rightly",
 "Every request the exchanger accepts is answered by exactly one response while it is not stopped, that response refers to the request it answers, and no response is made up. A response of 1 means the prototype's clauses with the request's assumptions are satisfiable, -1 that they are not, and 0 is given only if the request's time limit passed before its solve had an answer. Requested models satisfy clauses and assumptions, requested explanations are sufficient subsets of the assumptions, and neither is affected by requests running at the same time or before.",
 ["schedules","inputs","histories"],"every interleaving of clients, dispatcher, units, tickers and alarms; any number of clients; blocking and non-blocking exchanges; any capacity",
 "ax_test.go drives one client with easy random cubes under the Go scheduler; ExampleNewT is known to be timing-dependent.",
 ["ax/ax.go","ax/req.go"],[("dispatcher loop","ax/ax.go serve/handleReq/handleResp/getunit"),("per-request monitor","ax/ax.go unit.handleReq/handleResult"),("copies of the prototype","ax/ax.go getunit newUnit(SCopy)")])
p("C10","The exchanger makes progress in parallel, in bounded time and within limits",
 "As long as clients keep receiving responses, every accepted request whose solve ends or which has a limit is answered within a bounded time, and up to the configured number of requests are solved at the same time so that a hard request never blocks others while a unit is free. Never more than the configured number of solver copies work. A request with a time limit is answered soon after the limit at the latest and not with 0 before it, and the non-blocking exchange always returns at once.",
 ["schedules","inputs","configurations"],"every capacity, mix of hard, easy and limited requests, and interleaving",
 "Progress and parallelism bounds need a controlled clock and scheduler.",
 ["ax/ax.go"],[("copy on demand up to cap","ax/ax.go getunit"),("alarm and ticker select","ax/ax.go unit.handleReq")])
p("C11","Stopping the exchanger ends all of its activity",
 "After Stop, whether units are idle, solving or just delivering a result, every running solve is stopped and every goroutine of the exchanger ends within bounded time, nothing panics, and the prototype solver can be used again with right answers.",
 ["schedules","histories"],"Stop at every instant relative to requests, results, tickers and alarms",
 "No test checks that anything ends after Stop; leaks are invisible to result-checking tests.",
 ["ax/ax.go"],[("shutdown cancels units","ax/ax.go shutdown, unit.cancel")])
p("C12","Request generation is safe and unique under concurrent use",
 "Requests generated concurrently from one generator have distinct identifiers, carry exactly the assumptions passed (unaffected by later changes to the caller's slice), and carry the flag and limit in force when they were generated.",
 ["schedules","inputs"],"every interleaving of any number of goroutines generating requests and changing settings",
 "Tests generate requests from one goroutine.",
 ["ax/req.go"],[("mutex around counter and settings","ax/req.go RequestGen")])
p("C13","A remote CRISP session gives the same results as a local solver",
 "For any sequence of client operations (load, add, assume, solve, model, values, partial model, failed assumptions, selected failed assumptions, reset, extensions), the client obtains right results - answer, models satisfying the clauses and assumptions, sufficient failed-assumption subsets, selections in the order asked - for exactly the clauses and assumptions it sent. This holds however the byte stream is delayed, fragmented or coalesced in either direction, and however slowly the server solves.",
 ["schedules","inputs","histories"],"every operation history, every fragmentation/delay pattern, every relative speed of client and server",
 "server_test.go runs one short session over a real unix socket with whole-message delivery.",
 ["crisp/client.go","crisp/handler.go","crisp/vu32io.go","crisp/netsolve.go"],[("buffered varuint codec","crisp/vu32io.go"),("client state machine","crisp/client.go checkState"),("server state machine","crisp/handler.go Crisp")])
p("C14","CRISP client reports connection failures, never wrong data or a hang",
 "If the connection is cut, reset or closed, or the server dies, at any byte of a session, every client call returns in bounded time once the failure has reached it, either with data that is right or with an error; an incomplete or failed exchange is never reported as success, and the client never panics.",
 ["fault_sequences","crash_points","schedules","histories"],"every failure point (byte offset, direction, kind) of every session",
 "Tests never break a connection.",
 ["crisp/client.go","crisp/vu32io.go","crisp/netsolve.go"],[("error returns of every client call","crisp/client.go"),("short read/write handling","crisp/vu32io.go fill/flush")])
p("C15","One CRISP client can neither disturb others nor take the server down",
 "Sessions served at the same time or one after another on the same server are independent: each gives right results for its own clauses and assumptions only. Whatever a client sends and whenever it disconnects - idle, in mid-message or during a solve - the server keeps running, abandons that client's work within bounded time, and serves later clients (as long as there is memory for the variables the clients use); at most the configured number of sessions run at once and waiting clients get their turn.",
 ["schedules","fault_sequences","inputs"],"every mix of well-behaved, misbehaving and vanishing clients",
 "Tests use one polite client at a time.",
 ["crisp/server.go","crisp/handler.go"],[("one handler goroutine per slot","crisp/server.go Serve, crisp/handler.go serve"),("per-connection state reset","crisp/handler.go serveConn/cleanup")])
p("C16","CRISP server answers protocol violations with an error and a disconnect",
 "A number outside the 32-bit range, an operation or another number which is no literal where a literal is due, an unknown or misplaced operation, a model request when the last solve was not satisfiable, a failed-assumption request when it was not unsatisfiable, and such requests after an intervening add or assume are each answered with an error operation and a code, after which the server closes that connection; operations in the documented order are never answered with an error.",
 ["histories","inputs","schedules"],"every sequence of protocol operations in any order, under every fragmentation",
 "Tests only follow the happy path of the protocol.",
 ["crisp/handler.go","crisp/doc.go","crisp/err.go"],[("order checks","crisp/handler.go handle*"),("error operation","crisp/handler.go Error")])
p("C17","CRISP background solve control is right and never hangs",
 "Stop, Try and Test on a solve the client runs in the background always return in bounded time, whether the result is pending, being stopped, already there or the connection has failed; a non-zero result is the true one, a result already received is not lost, and after it the client can carry on with the next operation and get right results.",
 ["schedules","fault_sequences","histories"],"every interleaving of control calls with server replies and connection failures",
 "No test stops or times out a remote solve.",
 ["crisp/netsolve.go","crisp/client.go"],[("cancel/result rendezvous","crisp/netsolve.go Stop/Try/Test"),("end request in the solve loop","crisp/client.go Solve")])
p("C18","Readers give the same result however the input stream is delivered",
 "Reading DIMACS CNF, iCNF, solver output, and ASCII or binary AIGER yields the same calls, data and error outcome for the same bytes, however the underlying reader splits them into short reads, interleaves empty reads, or delivers the end of the stream together with the last bytes or separately.",
 ["inputs","schedules"],"every byte sequence and every segmentation allowed by io.Reader",
 "Tests read from bytes.Buffer only: one segmentation.",
 ["dimacs/cfilt.go","dimacs/cnf.go","dimacs/icnf.go","dimacs/solve.go","dimacs/int.go","logic/aiger/aiger.go"],[("comment filter state machine","dimacs/cfilt.go"),("buffered integer reader","dimacs/int.go")])
p("C19","Input and output failures are reported, never taken for success",
 "When a read fails before the end of the data, every reader (DIMACS CNF, iCNF, solver output, AIGER) reports an error rather than passing the truncated data off as complete; when a write fails or is short, every writer (solver clauses, AIGER ASCII and binary) reports an error. Without failures they succeed. Data which is torn or corrupted is at worst answered with an error: no reader panics or hangs.",
 ["fault_sequences","crash_points","inputs"],"a failure at every byte offset, of every kind, transient or permanent",
 "Tests never inject I/O errors.",
 ["dimacs/cfilt.go","dimacs/cnf.go","dimacs/icnf.go","dimacs/solve.go","logic/aiger/aiger.go","internal/xo/cdb.go","internal/xo/cdat.go"],[("error propagation","each reader/writer"),("final flush","logic/aiger/aiger.go Write*")])
p("C20","Saved circuits and clause sets read back equivalent over any stream",
 "A sequential circuit with inputs, latches, initial values, outputs, bad states, constraints and names written as ASCII or binary AIGER and read back over arbitrarily segmented streams is equivalent to the original: same interface in the same order, same names, same initial values and the same output values for every input sequence. A solver's written clauses, at any moment between solves (also interrupted ones), have exactly the models of the added clauses, and reading them yields an equivalent solver.",
 ["inputs","histories","schedules"],"every circuit, every history before writing, every segmentation of the written and read streams",
 "Tests round-trip small circuits through one buffer and compare text.",
 ["logic/aiger/aiger.go","logic/aiger/dfs.go","internal/xo/cdb.go","internal/xo/cdat.go"],[("topological renumbering","logic/aiger/dfs.go"),("writers and readers","logic/aiger/aiger.go")])
p("C21","The random stub solver obeys the solver control contract",
 "The stub solver used to test concurrent code delivers exactly one result per solve, the one it was made with (also through copies), within its period; Stop, Try, Test, Wait, Pause and Unpause on it return in bounded time without deadlock, within the time limits given, leaving it usable for the next solve and no goroutine behind.",
 ["schedules","histories"],"every interleaving of control calls and timer expiry",
 "Only indirectly exercised by the exchanger tests.",
 ["gen/rands.go"],[("timer/cancel/pause select loop","gen/rands.go solve"),("lock hand-over","gen/rands.go ctl")])
p("C22","The gini command reports right results within its time limit",
 "For every readable CNF or iCNF input, assumptions and options, the command prints one status line per problem, SATISFIABLE or UNSATISFIABLE only if true and UNKNOWN only when time ran out, with models, failed assumptions and exit codes that agree with it, using a local solver, the exchanger or a CRISP server alike; it finishes within the time limit plus a bounded delay, an input that cannot be read or is malformed never produces a definite answer, except for those problems of an iCNF input which are complete before the fault; a termination signal ends the command, and after each input its solver is at rest.",
 ["inputs","configurations","schedules","fault_sequences"],"every input, option combination, time limit and interleaving",
 "The command has no tests.",
 ["cmd/gini/main.go","cmd/gini/icnf.go"],[("timed background solve","cmd/gini/main.go runXoReader/runXoMonitored/runCrispReader"),("cube dispatch","cmd/gini/icnf.go")])
p("C23","Circuit building, evaluation and CNF conversion preserve logic",
 "Every gate built has the value its name says on every input, evaluation agrees with the CNF translation, and structural sharing never identifies inequivalent nodes.",
 ["inputs","programs"],"every circuit and valuation","Finite samples only; the property is a pure function of the circuit.",
 ["logic/c.go","logic/s.go","logic/roll.go"],[("structural hashing","logic/c.go")])
p("C24","Cardinality constraints count correctly",
 "For every list of literals and bound, the less-or-equal and greater-or-equal literals are equivalent to the count of true literals meeting the bound.",
 ["inputs"],"every size, bound and valuation","Finite samples only; the property is a pure function of its inputs.",
 ["logic/card.go"],[("sorting network","logic/card.go")])
p("C25","Generated benchmark formulas are what they claim to be",
 "Every formula generator adds complete clauses which have as models exactly the solutions of the problem it names, for every size: pigeons in holes (satisfiable exactly if they fit), partitions named by PartVar, partitions without Pythagorean triples, implication cycles, k-colourings of a simple graph with n nodes and m edges, random 3-CNF of exactly the asked number of clauses with three different variables each, cubes of different variables within the asked size. Random graphs, formulas and cubes can take every value, the same seed gives the same formula, and all this also holds for several goroutines which generate at once into adders which are slow or fail: a failed adder leaves the generators usable.",
 ["schedules","inputs","fault_sequences"],"every size and seed, every interleaving of goroutines which generate, every adder which is slow or fails",
 "Tests count the edges of one graph and look at one list of triples; nothing runs at once or fails.",
 ["gen/gen.go","gen/pt.go","gen/color.go","gen/cubes.go"],[("locked package random numbers","gen/gen.go Rand3Cnf, Seed"),("pigeon hole and partition clauses","gen/gen.go Php, gen/pt.go Partition"),("Pythagorean triples","gen/pt.go"),("sampling without replacement","gen/color.go RandGraph")])
p("C26","Benchmark runs keep their limits and record what really happened",
 "When a benchmark run executes its command on an instance, the command gets that instance's data, is killed when the instance's limit or what remains of the run's limit is over and not before, and the record says what happened: sat exactly if the command ended with exit code 10, unsat exactly if with 20, unknown otherwise; its output and error output are stored byte for byte, durations and start are the true ones. A command that cannot be started, a full disk or another I/O error is returned or recorded as an error and never makes a false record. Afterwards nothing is left running or open and the working directory is as before.",
 ["schedules","fault_sequences","histories"],"every behaviour of the command, every interleaving of its end, its output and its limit, every I/O fault",
 "The bench package has no tests.",
 ["bench/instrun.go","bench/run.go","cmd/bench/bench.go"],[("kill at the limit against end of the command","bench/instrun.go capture"),("copying of output","bench/instrun.go do"),("saving of the record","bench/instrun.go save")])
p("C27","Benchmark suites and runs read back as they were made, through crashes and disk errors",
 "A benchmark suite which was created holds exactly the data, origins and hashes of the instances it was created from and opens so again; runs and records read back are those which were made, each under its own instance. Whatever fails - a crash of the process, a disk error or a full disk during creating, running or removing - a suite that opens is complete, and a missing or torn record reads as unknown with an error, never as another result. Creating over something that exists is an error and changes nothing; removing a run removes nothing else; selecting runs leaves the original alone; summaries, listings and plots agree with the records.",
 ["crash_points","fault_sequences","histories","inputs"],"every history of operations with a crash or fault at any file operation",
 "The bench package has no tests.",
 ["bench/suite.go","bench/run.go","bench/instrun.go","bench/cmp.go","bench/sel.go","cmd/bench/bench.go"],[("order of writes in creating a suite","bench/suite.go createSuite"),("reading records","bench/run.go readInstRuns, bench/instrun.go OpenInstRun"),("run selection and removal","bench/suite.go")])
p("C28","A CRISP server starts, shuts down and is replaced without harm",
 "A CRISP server (by the package or the crispd command) starts at a free address, also where a server which crashed left its socket, and refuses with an error, changing nothing, where there is a file, a directory or (tcp) another server. Temporary failures to accept connections do not end it. Once Shutdown has returned, a fatal error has ended it or a signal has ended crispd, nothing listens at the address and its socket is gone; sessions in progress are served rightly to their end, connections not yet accepted get an error, Serve returns an error, and then none of its goroutines is left. A successor can be started at the same address at once, and nothing the old server still does harms it.",
 ["schedules","fault_sequences","histories"],"every interleaving of shutdown, accept errors, signals, sessions in progress and the start of a successor",
 "The only server test starts one server and never shuts it down.",
 ["crisp/server.go","crisp/addr.go","crisp/handler.go","cmd/crispd/crispd.go","cmd/crispd/sigs.go"],[("listening and stale sockets","crisp/server.go NewServer"),("accepting and shutdown","crisp/server.go Serve, Shutdown"),("signals","cmd/crispd/sigs.go")])
p("C29","Growing circuits and solvers used together mean what was built",
 "When a sequential circuit is unrolled step by step, also while it grows itself, gates and cardinality constraints are built over the unrolling, and the new parts are given to a solver as they come (all at once, from roots, or since earlier marks), then every answer, model, failed-assumption explanation and simulation is that of what was built: a literal has the value its construction says at every time and for every input and initial state, whatever was built, copied, encoded and solved before. This holds however earlier solves ended or were interrupted, while a solve runs in the background and the circuit grows, within test scopes, and for copies of circuits and solvers, which do not influence each other.",
 ["histories","schedules","inputs"],"every history of building, copying, encoding and solving, every interleaving of building with background solves",
 "Tests build a few small circuits and use each once.",
 ["logic/c.go","logic/s.go","logic/roll.go","logic/card.go","gini.go"],[("marks of encoded nodes","logic/c.go CnfSince"),("structural hashing and growth","logic/c.go And, grow, Copy"),("unrolling","logic/roll.go At"),("sorting network","logic/card.go")])
p("C30","Copies, interruptions and past use do not wear a solver out",
 "Whatever was done with a solver before - copies taken idle or in the middle of a search, solves stopped, timed out or paused, solves and tests under assumptions, scopes opened and closed, activation literals used up, use by an exchanger, long use with other clauses - the effort its next solve needs stays within a small factor of that of a new solver given the same clauses, on problems of the same kind. This holds for copies as for the solver itself, however the solve is run, and also when several copies solve at once. Interrupted solves make progress: time-limited solves repeated until one has the answer, and a solve paused many times, need together no more than a small factor of one uninterrupted solve. Activation literals which were given back are used again, by copies too, unless the solver has fixed them.",
 ["histories","schedules","fault_sequences","inputs"],"every history before, every instant of copying, stopping, pausing and timing out, every instance",
 "Tests check answers only; effort is never compared.",
 ["internal/xo/s.go","internal/xo/guess.go","internal/xo/cdb.go","internal/xo/cdat.go","internal/xo/cgc.go","internal/xo/luby.go","internal/xo/active.go","ax/ax.go"],[("state of the heuristics copied","internal/xo/guess.go Copy, internal/xo/cdat.go CopyTo, internal/xo/cgc.go Copy"),("what an interrupted search keeps","internal/xo/s.go Solve, cleanupSolve"),("removal of used-up clauses","internal/xo/active.go, internal/xo/cgc.go")])
p("C31","Goroutines which may run together share no memory without synchronisation",
 "No two goroutines access the same memory without an ordering by channels, locks, wait groups or atomics where one of them writes, in any use the documentation allows: background solves with their control calls, copies of solvers and circuits used by different goroutines, exchangers and their units, request generation, the formula generators with their common seed, random solvers, CRISP servers with sessions, tracing and shutdown from other goroutines, crispd and gini with their signal handling, benchmark runs with their timers and output copying. Solvers, circuits, readers, connections and generators which have nothing to do with each other, each in a goroutine of its own, share nothing mutable at all.",
 ["schedules","histories","inputs"],"every interleaving and every combination of unrelated objects used at the same time",
 "Tests use one object at a time and are not run with a race detector; a race detector sees only the schedules that happen.",
 ["internal/xo/ctl.go","internal/xo/s.go","internal/xo/derive.go","ax/ax.go","ax/req.go","gen/gen.go","gen/rands.go","crisp/server.go","crisp/handler.go","cmd/crispd/sigs.go","cmd/gini/sigs.go","bench/instrun.go"],[("control and copies","internal/xo/ctl.go, internal/xo/s.go Copy"),("package state","gen/gen.go rng, ax/req.go reqGen, crisp/handler.go trace"),("hand-over between goroutines","ax/ax.go unit.handleReq, bench/instrun.go do")])
p("C32","Long use does not pile up memory",
 "An object which is used for long without gaining content does not grow: the memory reachable from a solver after many rounds of solves, test scopes, interrupted and timed solves, explanations, writes, clauses activated and deactivated, redundant clauses and copies of copies, from an exchanger after many requests, a stub solver after many solves, a CRISP server after many sessions or one long one, and a circuit which is asked for the same gates again, stays within a small margin of what it was after an eighth of the rounds, and no goroutines are left behind.",
 ["histories","schedules","inputs"],"every mix of operations and every length of use",
 "No test looks at memory or uses an object for long.",
 ["internal/xo/active.go","internal/xo/cgc.go","internal/xo/cdat.go","internal/xo/cdb.go","internal/xo/s.go","internal/xo/derive.go","ax/ax.go","gen/rands.go","crisp/server.go","crisp/handler.go","logic/c.go"],[("compaction of clause data","internal/xo/cgc.go Remove, CompactCDat"),("recycling of activation literals","internal/xo/active.go"),("buffers cut back after use","internal/xo/*.go, crisp/vu32io.go"),("structural hashing","logic/c.go")])
with open("properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
