package harness

import (
	"context"
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/DataDog/orchestrion/internal/jobserver"
	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/jobserver/nbt"
	"github.com/DataDog/orchestrion/internal/verifsim/sim"
	"github.com/DataDog/orchestrion/internal/verifsim/simos"
)

func init() {
	register(&sim.Scenario{Name: "inactivity", Property: "P08", Run: runInactivity, Real: realCore, Stub: stubCore})
}

type session struct {
	from, to time.Duration // planned
	// What happened: the client was connected at least during [upTo, downFrom], and at most during [upFrom, downTo].
	upFrom, upTo, downFrom, downTo time.Duration
	connected, ended               bool
	crash                          bool
	registered                     bool // the server has handled the event that it connected
	closing                        bool
	lost                           bool // the server went down before it had noticed that this one connected
	requests                       int
}

func runInactivity(w *sim.World) {
	const prop = "P08"
	swarm(w)
	// Deadlines are checked, so that time does not pass by mere computing.
	w.Cfg.StepCost, w.Cfg.StallProb = 0, 0
	w.Cfg.Horizon = 100 * time.Hour
	w.Net.Latency = nil
	if w.Chance(4) {
		lat := sim.Pick(w, 200*time.Microsecond, 5*time.Millisecond)
		w.Net.Latency = func() time.Duration { return lat }
	}
	const slack = 2 * time.Second
	timeout := sim.Pick(w, time.Minute, 20*time.Second, 15*time.Minute, 5*time.Second, 20*time.Second, time.Minute, 0)

	tmp := filepath.Join(w.Root, "server-tmp")
	rawWrite(filepath.Join(tmp, ".keep"), "")
	env := append([]string{}, sim.CurProc().Env...)
	for i, kv := range env {
		if strings.HasPrefix(kv, "TMPDIR=") {
			env[i] = "TMPDIR=" + tmp
		}
	}
	srv := &Server{}
	ready := make(chan struct{})
	var returned bool
	var downAt time.Duration
	srv.Proc = w.Spawn(sim.Spec{Name: "server", Dir: w.Root, Env: env}, func(p *sim.Proc) int {
		s, err := jobserver.New(context.Background(), &jobserver.Options{InactivityTimeout: timeout})
		srv.Err = err
		if err == nil {
			srv.S, srv.URL = s, s.ClientURL()
		}
		close(ready)
		if err != nil {
			return 1
		}
		s.WaitForShutdown()
		returned, downAt = true, w.Now()
		w.Logf("the server has shut down")
		return 0
	})
	sim.Recv(ready)
	if srv.Err != nil {
		w.Violate(prop, "server-start", "job server did not start: %v", srv.Err)
		return
	}
	start := w.Now()

	// Plan: sessions separated by gaps around the time-out, and overlapping.
	unit := timeout
	if unit == 0 {
		unit = time.Minute
	}
	var sessions []*session
	at := time.Duration(0)
	for range w.Choose(6) {
		switch w.Choose(6) {
		case 5: // right at the time-out
			at += unit
		case 0, 1: // some gap below the time-out
			at += unit * time.Duration(w.Choose(95)) / 100
		case 2: // near the time-out
			at += unit - 3*time.Second - time.Duration(w.Choose(3))*time.Second
		case 3: // no gap
		case 4: // beyond
			if w.Chance(3) {
				at += unit + time.Duration(3+w.Choose(60))*time.Second
			}
		}
		if at < 0 {
			at = 0
		}
		s := &session{from: at, crash: w.Chance(4)}
		var d time.Duration
		switch w.Choose(4) {
		case 0: // connects and leaves at once
		case 1:
			d = unit * time.Duration(w.Choose(100)) / 100
		case 2: // much longer than the time-out
			d = unit*time.Duration(1+w.Choose(3)) + time.Duration(w.Choose(5000))*time.Millisecond
		case 3:
			d = time.Duration(w.Choose(3000)) * time.Millisecond
		}
		s.to = s.from + d
		sessions = append(sessions, s)
		if !w.Chance(3) {
			at = s.to
		} // else: the next one overlaps
	}

	// Whatever the server knows of must not be disregarded.
	pids := map[string]*session{}
	w.Values["nats.handled"] = func(_ *sim.Proc, subject string, data []byte) {
		var event struct {
			Client struct {
				Name string `json:"name"`
			} `json:"client"`
		}
		if !strings.HasSuffix(subject, ".CONNECT") || json.Unmarshal(data, &event) != nil {
			return
		}
		if s := pids[event.Client.Name]; s != nil {
			s.registered = true
		}
	}
	w.Values["nats.shutdown"] = func(p *sim.Proc) {
		for i, s := range sessions {
			if s.registered && s.connected && !s.closing {
				w.Violate(prop, "shutdown-in-use", "the server shuts down at %v, although client%d is connected since %v, of which the server has taken note (time-out %v)", w.Now(), i, s.upTo, timeout)
			}
			if s.upFrom > 0 && !s.registered && w.Now()-s.upFrom < 100*time.Millisecond {
				s.lost = true
				w.Count("lost-connect")
			}
		}
	}
	g := &group{w: w}
	var procs []*sim.Proc
	for i, s := range sessions {
		p := g.spawn(fmt.Sprintf("client%d", i), false, func(p *sim.Proc) int {
			sim.Sleep(start + s.from - w.Now())
			if returned {
				return 0
			}
			pids[fmt.Sprintf("orchestrion[%d]", simos.Getpid())] = s
			s.upFrom = w.Now()
			c, err := client.Connect(srv.URL)
			if err != nil {
				w.Logf("%s: cannot connect: %v", p.Name, err)
				return 1
			}
			s.upTo, s.connected = w.Now(), true
			w.Logf("%s: connected", p.Name)
			end := start + s.to
			req := func() {
				// Being served requires no more than being connected.
				s.requests++
				_, err := client.Request(context.Background(), c, nbt.StartRequest{ImportPath: fmt.Sprintf("example.com/p%d", i), BuildID: fmt.Sprintf("%d/x", s.requests)})
				if err != nil && !s.lost {
					w.Violate(prop, "not-served", "%s has been connected since %v, but its request at %v failed: %v (server down: %v)", p.Name, s.upTo, w.Now(), err, returned)
				}
			}
			if w.Chance(2) {
				req()
			}
			if d := end - w.Now(); d > 0 {
				sim.Sleep(d)
				if w.Chance(2) {
					req()
				}
			}
			s.downFrom, s.closing = w.Now(), true
			if !s.crash {
				c.Close()
				w.Logf("%s: disconnected", p.Name)
			} else {
				w.Count("fault:client-crash")
			}
			s.downTo, s.ended = w.Now(), true
			return 0
		})
		procs = append(procs, p)
	}
	horizon := at + 6*unit + time.Minute
	if !bounded(horizon, g.wait) {
		for i, s := range sessions {
			if s.lost {
				// A request in flight on a connection that gets cut remains unanswered.
				procs[i].Kill("lost its server")
			}
		}
	}
	if !bounded(time.Second, g.wait) {
		w.Violate(prop, "client-hangs", "a client was still waiting for the server after %v", horizon)
		return
	}

	// Which moments the server was unused.
	sort.SliceStable(sessions, func(i, j int) bool { return sessions[i].upFrom < sessions[j].upFrom })
	lastDown := start
	for _, s := range sessions {
		if s.connected && !s.lost && s.downTo > lastDown {
			lastDown = s.downTo
		}
	}
	if timeout == 0 {
		sim.Sleep(time.Hour)
		if returned {
			w.Violate(prop, "shutdown-without-timeout", "the server shut down at %v although no inactivity time-out is configured", downAt)
		}
		srv.Proc.Kill("end of scenario")
		return
	}
	// It must be down by now, or soon.
	if !returned {
		sim.Sleep(lastDown + timeout + slack - w.Now())
	}
	if !returned {
		w.Violate(prop, "no-shutdown", "the last client left at %v, and %v later the server (time-out %v) still runs", lastDown, w.Now()-lastDown, timeout)
		srv.Proc.Kill("end of scenario")
		return
	}
	// A server that went down was unused during the whole time-out before.
	unusedSince := start
	for _, s := range sessions {
		if !s.connected || s.lost || s.upTo > downAt {
			continue
		}
		if !s.ended || s.downFrom > downAt {
			w.Violate(prop, "shutdown-in-use", "the server shut down at %v, while a client was connected since %v (time-out %v)", downAt, s.upTo, timeout)
			continue
		}
		unusedSince = max(unusedSince, s.downFrom)
	}
	if downAt-unusedSince < timeout {
		w.Violate(prop, "early-shutdown", "the server shut down at %v, but it was in use until %v (time-out %v)", downAt, unusedSince, timeout)
	}
	// It goes down as soon as it has been unused for that long.
	var busy time.Duration = start
	for _, s := range sessions {
		if s.connected && !s.lost {
			if s.upFrom > busy+timeout+slack {
				w.Violate(prop, "late-shutdown", "no client was connected between %v and %v, but the server (time-out %v) was still up at %v", busy, s.upFrom, timeout, s.upFrom)
			}
			busy = max(busy, s.downTo)
		}
	}
	if downAt > busy+timeout+slack {
		w.Violate(prop, "late-shutdown", "no client was connected since %v, but the server (time-out %v) shut down at %v", busy, timeout, downAt)
	}
	// Nothing is left behind.
	srv.Proc.Wait()
	if n := w.Net.Listeners(); n != 0 {
		w.Violate(prop, "still-listening", "the server shut down, but still listens")
	}
	for _, f := range listing(tmp) {
		if f != ".keep" {
			w.Violate(prop, "storage-left", "the server shut down, but left %s behind in its temporary directory", f)
			break
		}
	}
	_ = procs
}
