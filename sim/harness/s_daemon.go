package harness

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"time"

	"github.com/DataDog/orchestrion/internal/binpath"
	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/jobserver/nbt"
	"github.com/DataDog/orchestrion/internal/verifsim/orchmain"
	"github.com/DataDog/orchestrion/internal/verifsim/sim"
	"github.com/DataDog/orchestrion/internal/verifsim/simos"
)

func init() {
	register(&sim.Scenario{Name: "daemon", Property: "P09", Run: func(w *sim.World) { runDaemon(w, false) }, Real: realCore, Stub: stubCore})
	register(&sim.Scenario{Name: "daemon-faults", Property: "P10", Run: func(w *sim.World) { runDaemon(w, true) }, Real: realCore, Stub: stubCore})
}

const orchestrionBin = "/sim/bin/orchestrion"

// installPrograms makes the orchestrion binary (and a go command) available to simulated processes.
func installPrograms(w *sim.World) {
	binpath.Orchestrion = orchestrionBin
	w.Programs[orchestrionBin] = func(*sim.Proc) int {
		orchmain.Main()
		return 0
	}
	w.Programs["/sim/bin/go"] = func(*sim.Proc) int { return 1 }
}

type daemonClient struct {
	p                *sim.Proc
	begin, end       time.Duration
	up, down         time.Duration
	url              string
	err              error
	done, used, gone bool
}

// runDaemon simulates the processes of one build, which find (or start) their job server by means of the URL file in
// the build's working directory.
func runDaemon(w *sim.World, faults bool) {
	prop := "P09"
	if faults {
		prop = "P10"
	}
	swarm(w)
	w.Cfg.StepCost = 0
	if w.Cfg.StallProb != 0 && !faults {
		w.Cfg.StallProb = 0
	}
	w.Cfg.Horizon = 20 * time.Hour
	if w.Net.Latency != nil {
		w.Net.Latency = func() time.Duration { return sim.Pick(w, 0, time.Millisecond, 20*time.Millisecond) }
	}
	if w.Chance(2) {
		// Ephemeral ports do not all have the same number of digits.
		w.Net.Port = func(def int) int {
			if w.Chance(2) {
				return def - 38000
			}
			return def
		}
	}
	installPrograms(w)

	work := filepath.Join(w.Root, "work", "b001")
	if err := os.MkdirAll(work, 0o755); err != nil {
		panic(err)
	}
	urlFile := filepath.Join(work, ".orchestrion-jobserver")
	tmp := filepath.Join(w.Root, "tmp")
	rawWrite(filepath.Join(tmp, ".keep"), "")

	var servers []*sim.Proc
	w.OnSpawn = func(p *sim.Proc) {
		if len(p.Args) > 1 && p.Args[1] == "server" {
			servers = append(servers, p)
			p.Crashable = faults
		}
	}
	listening := func() (up []*sim.Proc) {
		for _, p := range servers {
			if !p.Dead() && w.Net.ListenerOf(p) != nil {
				up = append(up, p)
			}
		}
		return up
	}
	// Which server an URL leads to, at the moment.
	serverAt := func(url string) *sim.Proc {
		if l := w.Net.Listening(strings.TrimPrefix(url, "nats://")); l != nil && !l.Proc.Dead() {
			return l.Proc
		}
		return nil
	}

	crash, stale := "", ""
	if faults {
		crash = sim.Pick(w, "", "kill", "io", "interrupt", "remove", "client")
		if crash == "interrupt" {
			w.Cfg.StallProb = 0
		}
		if w.Chance(4) {
			// Left behind by a server that is gone.
			stale = sim.Pick(w, "nats://127.0.0.1:39123", "")
			rawWrite(urlFile, stale)
		}
		if crash == "io" {
			w.FS.Cfg.Mean = sim.Pick(w, 10, 30, 80)
			w.FS.Cfg.Max = 1 + w.Choose(3)
			w.FS.Cfg.Kinds = map[string]bool{"err": true, "short": true, "bad": true, "delay": true, "crash": true}
			w.FS.Cfg.Filter = func(p *sim.Proc, op, path string) bool { return strings.HasPrefix(path, w.Root) || op == "exec" }
		}
	}

	var clients []*daemonClient
	n := 1 + w.Choose(5)
	spread := sim.Pick(w, 0, 50*time.Millisecond, time.Second, 20*time.Second)
	held := sim.Pick(w, 0, 100*time.Millisecond, 5*time.Second, time.Minute)
	late := !faults && w.Chance(4) // some join around the moment the server shuts down for want of clients
	goProc := w.Spawn(sim.Spec{
		Name: "go", Dir: w.Root, Env: sim.CurProc().Env, NoFaults: true,
		Args: []string{"/sim/bin/go", "build", "-toolexec", orchestrionBin + " toolexec", "./..."},
	}, func(gp *sim.Proc) int {
		g := &group{w: w}
		for i := range n {
			var wait time.Duration
			if spread > 0 {
				wait = time.Duration(w.Choose(1000)) * spread / 1000
			}
			hold := held
			if held > 0 {
				hold = time.Duration(w.Choose(1000)) * held / 1000
			}
			if late && i > 0 {
				wait = 15*time.Minute - 2*time.Second + time.Duration(w.Choose(4000))*time.Millisecond
				if w.Chance(2) {
					wait = 16*time.Minute + time.Duration(w.Choose(10000))*time.Millisecond
				}
			}
			dc := &daemonClient{}
			clients = append(clients, dc)
			spec := sim.Spec{Name: fmt.Sprintf("compile%d", i), Dir: w.Root, Env: gp.Env, Args: []string{orchestrionBin, "toolexec", "/sim/bin/compile"}, Crashable: false, NoFaults: crash != "io"}
			dc.p = w.Spawn(spec, func(p *sim.Proc) int {
				if wait > 0 {
					sim.Sleep(wait)
				}
				dc.begin = w.Now()
				var c *client.Client
				c, dc.err = client.FromEnvironment(context.Background(), work)
				dc.end, dc.done = w.Now(), true
				dc.url, _ = p.Getenv(client.EnvVarJobserverURL)
				w.Logf("%s: job server %q, error: %v (after %v)", p.Name, dc.url, dc.err, dc.end-dc.begin)
				if dc.err != nil {
					return 1
				}
				dc.up = w.Now()
				if c == nil {
					w.Violate(prop, "no-client", "%s obtained neither a client nor an error", p.Name)
					return 1
				}
				if w.Chance(3) {
					if c2, err := client.FromEnvironment(context.Background(), work); err != nil || c2 != c {
						w.Violate(prop, "second-client", "%s asked again for its job server, and obtained another client, or an error: %v", p.Name, err)
					}
				}
				res, err := client.Request(context.Background(), c, nbt.StartRequest{ImportPath: "example.com/" + p.Name, BuildID: "x/y"})
				if err == nil && (res == nil || res.FinishToken == "") {
					w.Violate(prop, "not-served", "%s was not served: %v", p.Name, res)
				}
				dc.used = err == nil
				if err != nil {
					dc.err = err
				}
				if hold > 0 {
					sim.Sleep(hold)
				}
				dc.down, dc.gone = w.Now(), true
				return 0
			})
			g.ps = append(g.ps, dc.p)
		}
		g.wait()
		return 0
	})

	// At any moment, at most one server serves the working directory.
	w.Net.OnListen = func(*sim.Listener) {
		if up := listening(); len(up) > 1 && !late && !faults {
			w.Violate(prop, "two-servers", "%d job servers run at once for the same working directory", len(up))
		}
	}

	var disturbedAt time.Duration
	disturbed := crash == "io" || stale != ""
	switch crash {
	case "kill", "interrupt", "remove", "client":
		at := sim.Pick(w, time.Second, 10*time.Millisecond, 200*time.Millisecond, 6*time.Second)
		at = at * time.Duration(1+w.Choose(1000)) / 1000
		sim.GoNamed("fault", func() {
			sim.Sleep(at)
			if len(servers) == 0 {
				return
			}
			victim := servers[w.Choose(len(servers))]
			if crash == "interrupt" {
				// While it starts, a server does not watch its URL file yet, and may miss the interruption.
				sim.Sleep(time.Second)
			}
			wasUp := w.Net.ListenerOf(victim) != nil
			switch crash {
			case "kill":
				disturbed, disturbedAt = true, w.Now()
				w.Count("fault:kill-server")
				victim.Kill("SIGKILL")
			case "client":
				c := clients[w.Choose(len(clients))]
				w.Count("fault:kill-client")
				c.p.Kill("SIGKILL")
			case "remove":
				disturbed, disturbedAt = true, w.Now()
				w.Count("fault:remove-workdir")
				w.Logf("the working directory is removed")
				_ = simos.RemoveAll(work)
			case "interrupt":
				if victim.Dead() || !wasUp {
					return
				}
				disturbed, disturbedAt = true, w.Now()
				w.Count("fault:interrupt")
				victim.Signal("interrupt")
				sim.Sleep(10 * time.Second)
				if !victim.Dead() {
					w.Violate(prop, "interrupt-ignored", "a job server still runs 10s after it was interrupted")
				} else if l := serverAt(readFile(urlFile)); rawExists(urlFile) && l == nil && len(listening()) == 0 && stale == "" {
					w.Violate(prop, "url-file-left", "an interrupted job server left its URL file behind")
				}
			}
		})
	}

	limit := 10 * time.Minute
	if late {
		limit = 60 * time.Minute
	}
	if !bounded(limit, goProc.Wait) {
		for _, c := range clients {
			if !c.done && !c.p.Dead() {
				w.Violate(prop, "hang", "%s still waits for a job server after %v", c.p.Name, w.Now()-c.begin)
			}
		}
	}
	ended := w.Now()
	_ = disturbedAt
	if faults && w.Counters["stall"] > 0 {
		// The time-outs for starting a server are too short for processes that are stalled.
		disturbed = true
	}
	if w.Counters["spin"] > 0 {
		w.Violate(prop, "busy-wait", "a process burns CPU while it waits for a job server")
	}

	for _, c := range clients {
		if !c.done {
			continue
		}
		if c.err != nil {
			risky := disturbed
			if late && c.begin > 10*time.Minute {
				// Whoever arrives while the server goes away may have bad luck.
				risky = true
			}
			if !risky {
				w.Violate(prop, "no-server", "%s could not use a job server: %v", c.p.Name, c.err)
			}
			if d := c.end - c.begin; d > 4*time.Minute {
				w.Violate(prop, "slow-failure", "%s took %v to find out that there is no job server", c.p.Name, d)
			}
			continue
		}
		if len(c.url) == 0 {
			w.Violate(prop, "url-not-inherited", "%s connected to a job server, but does not tell its children which", c.p.Name)
		}
		if d := c.end - c.begin; !disturbed && !late && d > 10*time.Second {
			w.Violate(prop, "slow-start", "%s had to wait %v for a job server", c.p.Name, d)
		}
	}
	// Those that use a server at the same time use the same one.
	if !disturbed && !late {
		var first *daemonClient
		for _, c := range clients {
			if !c.used {
				continue
			}
			if first != nil && c.url != first.url {
				w.Violate(prop, "different-servers", "%s uses job server %s, but %s uses %s", c.p.Name, c.url, first.p.Name, first.url)
			}
			if first == nil {
				first = c
			}
		}
		if len(clients) > 0 && crash == "" {
			sim.Sleep(5 * time.Second) // redundant servers take a moment to find out
			up := listening()
			switch {
			case len(up) != 1:
				w.Violate(prop, "server-count", "there are %d job servers at the end of the build, instead of one", len(up))
			case readFile(urlFile) != "nats://"+w.Net.ListenerOf(up[0]).Addr:
				w.Violate(prop, "wrong-url-file", "the URL file contains %s, but the job server listens on %s", short(readFile(urlFile)), w.Net.ListenerOf(up[0]).Addr)
			}
			for _, p := range servers {
				if !p.Dead() && !slices.Contains(up, p) {
					w.Violate(prop, "idle-process", "a job server process that does not serve anyone is still there")
				}
			}
		}
	}
	w.FS.Cfg.Mean, w.Cfg.StallProb = 0, 0

	if faults {
		sim.Sleep(30 * time.Second) // let pending faults happen
	}
	if url := readFile(urlFile); faults && crash != "remove" && (url == "" || serverAt(url) != nil) && w.Chance(2) {
		// Now that nothing disturbs them, processes find a job server again. (Not if the file has the URL of a server that
		// got killed: clients do not wait for another server to take over, by design.)
		var errs []string
		again := w.Spawn(sim.Spec{
			Name: "go", Dir: w.Root, Env: sim.CurProc().Env, NoFaults: true,
			Args: []string{"/sim/bin/go", "build", "-toolexec", orchestrionBin + " toolexec", "./..."},
		}, func(gp *sim.Proc) int {
			for i := range 3 {
				ok := false
				w.Spawn(sim.Spec{Name: fmt.Sprintf("late%d", i), Dir: w.Root, Env: gp.Env, Args: []string{orchestrionBin, "toolexec", "/sim/bin/compile"}, NoFaults: true}, func(p *sim.Proc) int {
					c, err := client.FromEnvironment(context.Background(), work)
					if err == nil {
						_, err = client.Request(context.Background(), c, nbt.StartRequest{ImportPath: "example.com/" + p.Name, BuildID: "x/y"})
					}
					w.Logf("%s: error: %v", p.Name, err)
					if ok = err == nil; !ok {
						errs = append(errs, err.Error())
					}
					return 0
				}).Wait()
				if ok {
					w.Count("recovered")
					return 0
				}
				sim.Sleep(2 * time.Minute)
			}
			w.Violate(prop, "no-recovery", "there is no job server long after the faults stopped: %q", errs)
			return 0
		})
		if !bounded(20*time.Minute, again.Wait) {
			w.Violate(prop, "hang", "a process still waits for a job server 20 minutes after the faults stopped")
		}
		ended = w.Now()
	}

	// The build is over: either go removes the working directory, or the server runs into its time-out.
	if remove := w.Chance(2); remove {
		settled := w.Chance(2)
		if settled {
			// A server only watches its URL file once it is completely up.
			sim.Sleep(30 * time.Second)
		}
		up := listening()
		w.Logf("the build is over, and its working directory is removed")
		_ = simos.RemoveAll(work)
		if !disturbed && settled {
			sim.Sleep(20 * time.Second)
			for _, p := range up {
				if !p.Dead() {
					w.Violate(prop, "server-left", "a job server still runs 20s after its working directory was removed")
				}
			}
		}
	}
	// Servers that are not (or no longer) reachable by their URL file run into their time-out.
	limit = 18 * time.Minute
	if faults || disturbed {
		// Servers that try to connect to one that is gone take more than a minute until they give up and serve themselves, and do
		// that one after the other.
		limit += time.Duration(len(servers)) * 150 * time.Second
	}
	sim.Sleep(limit - (w.Now() - ended))
	for _, p := range servers {
		if !p.Dead() {
			w.Violate(prop, "server-left", "a job server still runs %v after the end of the build", w.Now()-ended)
			break
		}
	}
	killed := false
	for _, p := range servers {
		if p.ExitCode < 0 || p.Panic != "" {
			killed = true
		}
	}
	if !killed && !disturbed {
		if rawExists(urlFile) {
			w.Violate(prop, "url-file-left", "the job server is gone, but its URL file is still there: %s", short(readFile(urlFile)))
		}
		for _, f := range listing(tmp) {
			if f != ".keep" {
				w.Violate(prop, "storage-left", "the job servers are gone, but left %s behind", f)
				break
			}
		}
	}
	for _, p := range w.Procs() {
		if p.Idx != 0 && !p.Dead() {
			p.Kill("end of scenario")
		}
	}
}

func readFile(path string) string {
	s, _ := rawRead(path)
	return s
}
