NBT = "internal/jobserver/nbt/nbt.go"
P("P01", "Each package build is assigned once and everyone sees its one outcome",
  "Among all processes that ask the job server to start the build of the same import path and build ID, exactly one is told to build it; every other one is answered only after that build was reported, and all of them, whenever they ask, observe that same first-reported outcome (the same artifacts, or the same error). "
  "Artifacts handed out are byte-identical to the files at the time they were reported, are owned by the job server, and stay that way when the reporter's files change or vanish. "
  "Reports with a wrong token, or for a build that was never started, are rejected without effect; different import paths or build IDs never influence one another.",
  ["schedules", "histories", "inputs"], "all interleavings of any number of start and finish requests by concurrent processes, including repeated and bogus reports",
  "The tests call the handlers for a handful of fixed orders; the guarantee is about every interleaving of concurrent processes, which no test controls.",
  [NBT, "internal/jobserver/client/client.go", "internal/jobserver/common/handler.go"],
  [("build state keyed by import path and build ID, with one finish token", NBT + " service.start/finish"), ("first report wins", NBT + " buildState.isDone")],
  observe=["StartResponse and FinishResponse of each simulated process", "files below the returned paths"],
  level_note="Seeded random schedules of up to 6 client processes on up to 6 keys against the real server and client; no exhaustiveness.")
P("P02", "A failed or malformed build report reaches every waiter as an error",
  "Once the process that was told to build a package has reported anything at all (success, failure with any message including an empty one, a report without files, or with files that cannot be read), every process waiting for that package, and every process asking later, is answered. "
  "Unless the artifacts of the report were completely persisted, that answer is an error: never a success, and never an empty result.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of waiters with any kind of report, and failures while persisting",
  "Tests only exercise a few report kinds, sequentially; a waiter that is never woken up, or woken up with nothing, shows as a hung or corrupted build only in some interleavings.",
  [NBT, "internal/jobserver/common/handler.go", "internal/toolexec/proxy/compile.go"],
  [("completion is signalled on all paths of finish", NBT + " service.finish"), ("errors are told apart from results", "internal/jobserver/common/handler.go UnmarshalResponse")],
  level_note="Seeded random schedules and report kinds; liveness is absence of a stuck state within 2 simulated hours.")
P("P03", "Reused artifacts are never truncated or corrupt, whatever I/O fails",
  "Whatever file operation fails while the job server persists reported artifacts, or while a process copies them into place (open, create, read, write, full disk, close), a process that is told it can re-use a build never ends up with an archive or header that differs from what was reported: it receives either the exact content, or an error. "
  "The reporter is told about a failure to persist.",
  ["fault_sequences", "schedules"], "every placement of one or several I/O failures in the sequence of file operations, combined with all interleavings",
  "No test injects I/O failures.",
  [NBT, "internal/files/files.go", "internal/toolexec/proxy/compile.go"],
  [("copy to server-owned storage", "internal/files/files.go Copy"), ("errors recorded before waiters are released", NBT + " service.finish")],
  level_note="Up to 3 injected faults per run at random file operations of the server (and re-using processes).")
P("P07", "Each request is answered once, with its own answer, and in isolation",
  "However many clients send however many requests at once, and in whatever order they are handled, every request whose client, connection and server survive is handled exactly once and its caller obtains precisely the answer made for it (the result, or an error carrying the handler's message, including when the payload is malformed). "
  "No request is handled with the trace context or payload of another one.",
  ["schedules", "inputs", "histories"], "all interleavings of any number of requests over any number of connections, with delays and cut connections",
  "The tests send single requests; mixing up of answers or contexts needs requests that are handled at the same time.",
  ["internal/jobserver/common/handler.go", "internal/jobserver/client/client.go", "internal/jobserver/server.go"],
  [("one goroutine handles each request", "internal/jobserver/common/handler.go HandleRequest"), ("errors travel in an envelope", "internal/jobserver/common/handler.go UnmarshalResponse")],
  level_note="The real NATS client and server run over in-memory connections with drawn latencies and cuts; a request in flight on a connection that gets cut may remain unanswered, which is not judged.")
P("P08", "The job server stops when unused for its time-out, and never before",
  "A job server with an inactivity time-out never shuts down while a client is connected, nor before the time-out has fully elapsed since the last one disconnected (or since it started). "
  "Whatever the order, overlap and speed of connections, it does shut down once no client has been connected for the time-out.",
  ["schedules", "histories"], "all interleavings of connects, disconnects (orderly and abrupt) and timer expiry",
  "The test waits for one time-out after one connection; the races between timer, connect and disconnect events decide.",
  ["internal/jobserver/server.go", "internal/cmd/server.go"],
  [("connected clients are tracked from system events", "internal/jobserver/server.go handleClientConnect/handleClientDisconnect"), ("inactivity timer", "internal/jobserver/server.go")],
  level_note="Simulated clocks; the real NATS server reports connects and disconnects.")
P("P09", "Processes of one build agree on one job server, started on demand",
  "Processes that share a build's working directory, however many start at once or one after another, each end up connected to a working job server within seconds, and it is the same one for all of them: exactly one server persists, the others terminate. "
  "The server removes its URL file and its temporary storage when it terminates, and terminates when its URL file is removed or it is idle.",
  ["schedules", "histories"], "all interleavings of client and server processes racing for the URL file, including joins around the time the server expires",
  "Tests start one server in-process; the election between daemons through a locked file spans processes and cannot be scheduled from a test.",
  ["internal/jobserver/client/env.go", "internal/cmd/server.go", "internal/filelock/filelock.go"],
  [("lock, check, upgrade, check again", "internal/cmd/server.go startWithURLFile"), ("wait for the URL file", "internal/jobserver/client/env.go waitForURLFile")],
  level_note="Real command, election, lock and client code in simulated processes; real flock(2) and file system; exec, signals, the loopback network and fsnotify are simulated.")
P("P10", "Losing the job server or its files delays builds, but never hangs them",
  "If the job server is killed or interrupted, its working directory is removed, its URL file is stale, or file operations fail or processes crash at any point of the start-up, every process looking for a job server obtains one or an error within bounded time, without busy-waiting. "
  "An interrupted job server terminates and removes its URL file; abandoned servers terminate by themselves; and once faults stop, processes find or start a server again unless a killed one left its address behind.",
  ["fault_sequences", "crash_points", "schedules"], "crashes, kills, interrupts and I/O failures at every point of the election and of the server's life",
  "No test kills a server or fails I/O during start-up.",
  ["internal/jobserver/client/env.go", "internal/jobserver/client/client.go", "internal/cmd/server.go"],
  [("connection attempts with back-off", "internal/jobserver/client/client.go Connect"), ("removal on interrupt", "internal/cmd/server.go deleteOnInterrupt")],
  level_note="Bound: 4 simulated minutes per process (connection retries alone may take 73 s). A stale address left by a killed server makes later processes of that build fail; that is by design and not judged.")

P("P05", "Circular woven dependencies are reported, never waited for, and never imagined",
  "A build in which packages have to be built before one another in a circle, be it through their own imports, woven imports, or both, fails with an error that reports the dependency cycle, whichever processes discover the parts of the circle in whichever order. It never hangs. "
  "A build without such a circle is never refused as if it had one.",
  ["schedules", "inputs"], "all interleavings of the processes of a build (and of the nested builds they cause), over modules with arbitrary woven dependencies",
  "A circle is only visible when concurrent processes, each of which only knows its own request, are combined; a test that asks sequentially cannot produce the waits that a build does.",
  ["internal/jobserver/pkgs/resolve.go", "internal/jobserver/pkgs/graph.go", "internal/jobserver/nbt/nbt.go", "internal/toolexec/aspect/resolve.go"],
  [("graph of waits shared by the services of the job server", "internal/jobserver/pkgs/graph.go"), ("edges are added before waiting", "internal/jobserver/pkgs/resolve.go")],
  level_note="Random modules of up to 7 packages with up to 6 woven dependencies; the go command is a model, the compiler and all of orchestrion are real.")
P("P13", "A build's outcome depends on sources and configuration only",
  "orchestrion go build applies every configured aspect to every package it matches, links everything that was woven, and succeeds whenever the woven sources are valid, whatever the parallelism, the order in which packages are built, and the speed of each process. "
  "Two builds of the same sources and configuration produce identical archives and programs, and each package is compiled at most once per build. A build with a package that does not compile fails, stating why.",
  ["schedules", "inputs", "histories"], "all interleavings of the processes of a build and of what they do concurrently (weaving files in parallel, map iteration, object re-use), over modules with arbitrary woven code",
  "Tests weave single files or run single builds of a few modules; differences show only under some schedules and combinations of aspects.",
  ["internal/toolexec/aspect/oncompile.go", "internal/toolexec/aspect/oncompile-main.go", "internal/toolexec/aspect/onlink.go", "internal/injector/injector.go", "internal/toolexec/proxy/compile.go", "internal/cmd/toolexec.go"],
  [("importcfg and link.deps are completed with woven dependencies", "internal/toolexec/aspect/oncompile.go Weaver.OnCompile"), ("woven dependencies are imported by the main package", "internal/toolexec/aspect/oncompile-main.go"), ("archives are re-used between parent and nested builds", "internal/toolexec/proxy/compile.go")],
  level_note="Random modules of up to 7 packages; reference is a sequential, undisturbed build of the same module with an empty cache. The go command and linker are models, the compiler is the real one.")
P("P14", "An I/O failure or a kill fails the build, or changes nothing, now and later",
  "Whatever file operation fails (or returns less than asked for) in any process of a build, the build either fails and says so, or produces precisely what it would have produced without the failure; it never succeeds with code that is not woven, incomplete link-time dependencies, or truncated files, and never hangs. "
  "A build that failed that way, or whose processes were all killed at any point, leaves nothing behind that changes a later build: that one produces what a build from scratch does.",
  ["fault_sequences", "crash_points", "schedules"], "every placement of one or several I/O failures, or of a kill of everything, among the operations of all processes of a build, with all interleavings",
  "No test injects I/O failures or kills a build.",
  ["internal/injector/check.go", "internal/toolexec/aspect/linkdeps/linkdeps.go", "internal/toolexec/importcfg/importcfg.go", "internal/toolexec/aspect/oncompile.go", "internal/toolexec/proxy/compile.go", "internal/files/files.go"],
  [("errors reading dependencies are told apart from errors in sources", "internal/injector/check.go typeCheck"), ("link.deps is written and added to the archive", "internal/toolexec/proxy/compile.go"), ("importcfg files are parsed and re-written", "internal/toolexec/importcfg/importcfg.go")],
  level_note="Up to 6 injected faults per run (errors, short reads and writes, delays), or a kill of all processes after a random operation; followed by undisturbed builds that use the same build cache. The go command and linker are models, the compiler is the real one. A single killed process whose build others wait for is not judged.")
P("P15", "Builds and job servers leave no process, listener or temporary file behind",
  "When a build is over, whether it succeeded or failed, through orchestrion go or through -toolexec, no process, network listener, or temporary file or directory of orchestrion remains once the job server's time-out has passed; after orchestrion go, none remains at all. "
  "The job server's storage is removed once, after its last use.",
  ["schedules", "histories"], "all interleavings of the processes of builds that succeed, fail to compile, contain cycles, or whose tools fail",
  "Tests do not look at what is left when a process exits; whether clean-up that runs in the background completes depends on the schedule.",
  ["internal/goproxy/proxy.go", "internal/jobserver/server.go", "internal/jobserver/nbt/nbt.go", "internal/cmd/server.go", "internal/toolexec/version.go"],
  [("commands wait for their job server's clean-up", "internal/goproxy/proxy.go Run"), ("shutdown hooks", "internal/jobserver/server.go WaitForShutdown")],
  level_note="Builds without injected I/O failures (a failing removal leaves files behind). Simulated file system events and process table.")

P("P16", "Tests are woven as configured, and link one consistent set of packages",
  "orchestrion go test weaves packages under test (and what the go command builds once more for their tests), external tests and test mains as configured, precisely like the same code of ordinary builds. "
  "Each test links one consistent set of packages, each of which is built once and includes everything that woven code needs; a test is only refused, saying so, if woven code imports packages that import the package under test without go knowing of it, or if a package it needs does not compile. "
  "Neither which tests build nor what they consist of depends on the schedule, nor on what was built before.",
  ["schedules", "inputs", "histories"], "all modules, tests and configurations, all interleavings of the processes of the build",
  "Which variant of a package a test needs depends on the graph of natural and woven dependencies around the package under test; tests sample a few small graphs, and one schedule of each.",
  ["internal/jobserver/pkgs/testvariants.go", "internal/toolexec/aspect/oncompile-main.go", "internal/toolexec/aspect/onlink.go", "internal/toolexec/aspect/resolve.go", "internal/toolexec/proxy/testmain.go", "internal/cmd/toolexec.go"],
  [("test variants resolved by way of an overlay", "internal/jobserver/pkgs/testvariants.go mergeTestVariant"), ("test mains carry which package they test to the link step", "internal/toolexec/proxy/testmain.go"), ("conflicts are rejected", "internal/toolexec/aspect/resolve.go rejectSyntheticVariantDependency")],
  observe=["compile and link commands the real toolexec processes end up running", "archives, linked tests, exit codes and messages"],
  level_note="Random modules of up to 7 packages with in-package and external tests, built for the second time with another schedule. The go command (including how it plans test variants), packages.Load and linker are models, the compiler is the real one.")

P("P04", "Results of earlier builds never mask a change, and are used if nothing changed",
  "A change of sources, configuration, woven packages, main module or of orchestrion itself is never masked by results of earlier builds: a build that uses caches left by earlier ones, successful or not, produces precisely what a build from scratch does; if nothing changed, nothing is compiled again. "
  "The identity that orchestrion adds to the version of the tools is the same for all processes and job servers given the same inputs, however they are scheduled, and different whenever any of the inputs differs. "
  "An identity is never computed from part of its inputs because reading them failed, nor is such a failure remembered.",
  ["histories", "inputs", "schedules", "fault_sequences"], "all histories of builds with changes in between, all configurations and modules that are woven, all schedules of requests for the identity, with failing I/O",
  "Tests compare a few fingerprints; whether some part of the configuration, of the sources, or of the environment is left out shows only when just that part is changed between builds that share a cache.",
  ["internal/jobserver/buildid/version.go", "internal/fingerprint/fingerprint.go", "internal/injector/aspect/aspect.go", "internal/injector/aspect/join/package.go", "internal/injector/aspect/advice/inject.go", "internal/toolexec/version.go"],
  [("identity computed once by the job server", "internal/jobserver/buildid/version.go versionSuffix"), ("fingerprints of join points and advice", "internal/injector/aspect/*/ Hash methods"), ("contents of local modules are part of the identity", "internal/jobserver/buildid/version.go moduleInfo.MarshalJSON")],
  observe=["VersionSuffixResponse of each simulated process", "archives in the build cache, linked programs"],
  level_note="Random configurations that use all kinds of join points and advice, with up to 9 single changes per run; random modules of up to 7 packages built up to 3 times with changes in between. The go command, packages.Load and linker are models, the compiler is the real one. A failure to read the orchestrion binary itself is tolerated by design.")

P("P06", "Concurrent resolutions share one load, and never each other's results",
  "Concurrent and repeated requests to resolve or load the same packages (same directory, pattern and effective environment, whatever its order, repetitions, and variables that differ between the processes of a build) cause one load, whose result all of them obtain; failures are reported to the request that ran into them, and never remembered. "
  "Requests that differ in any of these never obtain each other's results, nor wait for each other. "
  "A test variant replaces precisely the archives that depend on the package under test without touching results shared with others, and temporary overlays exist until the go command is done with them, and no longer.",
  ["schedules", "inputs", "histories", "fault_sequences"], "all interleavings of any number of resolutions and loads by any number of processes, including cancelled ones, and failing loads",
  "Tests resolve sequentially, with one environment; sharing, or failing to share, a result needs requests that overlap, or repeat in other environments.",
  ["internal/jobserver/pkgs/resolve.go", "internal/jobserver/pkgs/load.go", "internal/jobserver/pkgs/overlay.go", "internal/jobserver/pkgs/testvariants.go"],
  [("one load per canonical request", "internal/jobserver/pkgs/resolve.go"), ("environment is reduced and sorted", "internal/jobserver/pkgs/resolve.go canonicalizeEnviron"), ("test variants resolved by way of an overlay", "internal/jobserver/pkgs/overlay.go")],
  observe=["ResolveResponse and LoadResponse of each simulated process", "configuration each packages.Load is called with"],
  level_note="The real job server and clients; packages.Load is a model that tags its results with the directory, pattern, environment and temporary directory it was called with.")

P("P11", "File locks exclude each other across processes, and are always let go",
  "Among all processes that lock the same file, at any time either at most one holds it for writing, and none for reading, or any number hold it for reading; this includes locks that are taken twice, upgraded, downgraded, and attempts that failed. "
  "A lock is released when its holder unlocks it, exits, or is killed at any point, and every process that waits for a lock obtains it once those that hold it have let go; different files are independent.",
  ["schedules", "histories", "crash_points", "fault_sequences"], "all interleavings of processes that lock, re-lock, unlock, fail, exit and get killed",
  "Tests start a couple of processes and cannot control when they are pre-empted or die; a lock that is lost by an upgrade, by a failed attempt or by closing another descriptor shows only when another process comes in just then.",
  ["internal/filelock/filelock.go", "internal/filelock/filelock_posix.go"],
  [("advisory locks on one descriptor per mutex", "internal/filelock/filelock.go Mutex"), ("idempotence and change of lock state", "internal/filelock/filelock.go beforeLockChange")],
  observe=["Lock, RLock and Unlock of each simulated process", "contents of the locked file"],
  level_note="Up to 6 processes and 2 files per run; flock is the real one, polled by the simulator, so that fairness among waiters is not judged. Windows is out of reach.")

P("P12", "Pinning is complete, repeatable, and safe to do concurrently or interrupt",
  "After orchestrion pin, or automatic pinning, orchestrion.tool.go imports orchestrion, dd-trace-go's integrations and all packages with integrations that it imported before, none without any (unless pruning is off), retaining the rest of the file, and go.mod requires a sufficient version of orchestrion, the language and of everything imported, with the toolchain untouched. "
  "Pinning again, or several processes pinning at once, results in what one does; go.mod is never edited by two of them at a time. "
  "At any time the tool file is complete; pinning that fails or is killed removes nothing that is needed, leaves no lock (nor temporary files unless killed), and pinning again completes it.",
  ["schedules", "crash_points", "fault_sequences", "inputs", "histories"], "all projects and options, all interleavings of concurrent processes, failures of I/O and go commands, and kills at any point",
  "Tests pin a few projects once, undisturbed and one at a time; a toolexec build pins from hundreds of processes at once, any of which may fail or get killed in between.",
  ["internal/pin/pin.go", "internal/pin/auto.go", "internal/ensure/requiredintegrations.go", "internal/gomod/gomod.go", "internal/cmd/pin.go", "internal/filelock/filelock.go", "internal/injector/config/config.go"],
  [("one pin at a time per go.mod", "internal/pin/pin.go flock"), ("tool file replaced atomically", "internal/pin/pin.go writeUpdated"), ("toolchain restored", "internal/pin/pin.go RunEdit curMod.Toolchain")],
  observe=["orchestrion.tool.go, go.mod and vendor/modules.txt", "go commands the processes run", "exit codes"],
  level_note="Random projects with up to 4 imported packages; the go command is a model. Which version of dd-trace-go is selected is not judged after failures, nor is the toolchain that an interrupted go command added.")
