package harness

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/DataDog/dd-trace-go/v2/ddtrace/mocktracer"
	"github.com/DataDog/dd-trace-go/v2/ddtrace/tracer"
	"github.com/DataDog/orchestrion/internal/jobserver"
	"github.com/DataDog/orchestrion/internal/jobserver/buildid"
	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/jobserver/common"
	"github.com/DataDog/orchestrion/internal/jobserver/nbt"
	"github.com/DataDog/orchestrion/internal/jobserver/pkgs"
	"github.com/DataDog/orchestrion/internal/verifsim/sim"
	"github.com/DataDog/orchestrion/internal/verifsim/simnats"
)

func init() {
	register(&sim.Scenario{Name: "rpc", Property: "P07", Run: runRPC, Real: realCore, Stub: stubCore})
}

var versionSubject = buildid.VersionSuffixRequest{}.Subject()

type (
	// echoRequest exercises the request handler of the job server with a trivial service.
	echoRequest struct {
		ID    int           `json:"id"`
		Delay time.Duration `json:"delay"`
		Fail  *string       `json:"fail,omitempty"`
		Body  string        `json:"body"`
		Reply int           `json:"reply"`
		Trace string        `json:"trace"`
	}
	echoResponse struct {
		ID    int               `json:"id"`
		Body  string            `json:"body"`
		Extra string            `json:"extra,omitempty"`
		Map   map[string]string `json:"map,omitempty"`
	}
)

func (echoRequest) Subject() string                  { return "verif.echo" }
func (echoRequest) ResponseIs(*echoResponse)         {}
func (echoRequest) ForeachSpanTag(func(string, any)) {}

type rpcCall struct {
	who        string
	id         int
	req        echoRequest
	begin, end time.Duration
	res        *echoResponse
	err        error
	replied    bool
	cancel     time.Duration // the caller gives up after that long
}

func runRPC(w *sim.World) {
	const prop = "P07"
	swarm(w)
	w.Cfg.StepCost, w.Cfg.StallProb = 0, 0 // response times are checked
	latency := 0 * time.Millisecond
	if w.Net.Latency != nil {
		latency = sim.Pick(w, 0, time.Millisecond, 40*time.Millisecond)
		w.Net.Latency = func() time.Duration { return latency }
	}
	// Tracing: every request is handled as part of the trace of its caller.
	tracing := w.Chance(4)
	if tracing {
		w.LabelsGetLost()
		mt := mocktracer.Start()
		defer mt.Stop()
	}
	handled := map[int]int{}
	srv := &Server{}
	ready := make(chan struct{})
	srv.Proc = w.Spawn(sim.Spec{Name: "server", Dir: w.Root, Env: sim.CurProc().Env}, func(p *sim.Proc) int {
		defer func() {
			if srv.URL == "" {
				close(ready)
			}
		}()
		s, err := jobserver.New(context.Background(), nil)
		if err != nil {
			srv.Err = err
			return 1
		}
		srv.S = s
		conn, err := simnats.Connect(s.ClientURL(), simnats.UserInfo("server", ""))
		if err != nil {
			srv.Err = err
			return 1
		}
		_, err = conn.Subscribe("verif.echo", common.HandleRequest(context.Background(), func(ctx context.Context, req echoRequest) (*echoResponse, error) {
			handled[req.ID]++
			id, body := req.ID, req.Body
			if tracing {
				var got string
				if span, ok := tracer.SpanFromContext(ctx); ok {
					got = span.Context().TraceID()
				}
				if req.ID >= 0 && got != req.Trace {
					w.Violate(prop, "foreign-trace", "request %d (part of a trace: %v) is handled as part of the trace of another request", req.ID, req.Trace != "")
				}
			}
			if req.Delay > 0 {
				sim.Sleep(req.Delay)
			} else {
				sim.Point()
			}
			if req.ID != id || req.Body != body {
				w.Violate(prop, "request-changed", "request %d turned into %d while it was handled", id, req.ID)
			}
			if req.Fail != nil {
				return &echoResponse{ID: req.ID}, errors.New(*req.Fail)
			}
			res := &echoResponse{ID: req.ID, Body: req.Body}
			if req.Reply > 0 {
				res.Extra = strings.Repeat("x", req.Reply)
			}
			return res, nil
		}))
		if err != nil {
			srv.Err = err
			return 1
		}
		_ = conn.Flush()
		srv.URL = s.ClientURL()
		close(ready)
		s.WaitForShutdown()
		return 0
	})
	sim.Recv(ready)
	if srv.URL == "" {
		w.Violate(prop, "server-start", "job server did not start: %v", srv.Err)
		return
	}

	// Whether, and when, the server dies.
	dies := w.Chance(4)
	graceful := dies && w.Chance(2)
	died, diedAt := false, time.Duration(0)
	cuts := 0
	if !dies && w.Chance(5) {
		cuts = 1 + w.Choose(2)
	}

	var calls []*rpcCall
	serial := 0
	g := &group{w: w}
	nc := 1 + w.Choose(4)
	shared := w.Chance(3) // requests of a process run concurrently over its one connection
	slow := 0
	cutAt := map[string]bool{}
	for ci := range nc {
		n := 1 + w.Choose(4)
		g.spawn(fmt.Sprintf("client%d", ci), false, func(p *sim.Proc) int {
			c, err := client.Connect(srv.URL)
			if err != nil {
				if !dies && cuts == 0 {
					w.Violate(prop, "connect", "cannot connect to a running job server: %v", err)
				}
				return 1
			}
			defer c.Close()
			one := func() {
				serial++
				call := &rpcCall{who: p.Name, id: serial}
				call.req = echoRequest{ID: serial, Body: fmt.Sprintf("body of %d by %s", serial, p.Name)}
				switch w.Choose(8) {
				case 0:
					msg := fmt.Sprintf("failure %d: \"quoted\" <é> \x00 %s", serial, p.Name)
					call.req.Fail = &msg
				case 1:
					msg := ""
					call.req.Fail = &msg
				case 2:
					call.req.Delay = time.Duration(1+w.Choose(20)) * time.Second
					slow++
				case 3:
					call.req.Delay = time.Duration(1+w.Choose(50)) * time.Millisecond
				case 4:
					if w.Chance(30) {
						call.req.Reply = 70 << 20 // larger than what the server accepts to transport
					} else {
						call.req.Reply = 1 << (10 + w.Choose(11))
					}
				case 5:
					if w.Chance(3) {
						call.cancel = time.Duration(1+w.Choose(30)) * 100 * time.Millisecond
						call.req.Delay = time.Duration(w.Choose(20)) * 200 * time.Millisecond
					}
				}
				calls = append(calls, call)
				ctx := context.Background()
				if call.cancel > 0 {
					var stop func()
					ctx, stop = context.WithTimeout(ctx, call.cancel)
					defer stop()
				}
				if tracing {
					span, sctx := tracer.StartSpanFromContext(ctx, "caller")
					defer span.Finish()
					ctx, call.req.Trace = sctx, span.Context().TraceID()
				}
				call.begin = w.Now()
				call.res, call.err = client.Request(ctx, c, call.req)
				call.end, call.replied = w.Now(), true
				w.Logf("%s: request %d (delay %v, fail %v, reply %d) -> %v, error %v after %v", p.Name, call.id, call.req.Delay, call.req.Fail != nil, call.req.Reply, call.res != nil, call.err, call.end-call.begin)
			}
			// Garbage must be answered, and must not harm anyone.
			if w.Chance(4) {
				serial++
				n := serial
				raw, err := simnats.Connect(srv.URL, simnats.UserInfo(client.Username, client.NoPassword))
				if err == nil {
					defer raw.Close()
					subj := sim.Pick(w, "verif.echo", nbt.StartRequest{}.Subject(), nbt.FinishRequest{}.Subject(), pkgs.ResolveRequest{}.Subject(), pkgs.LoadRequest{}.Subject(), versionSubject)
					payload := sim.Pick(w, "", "{", "[]", `{"id":"x","dir":1,"importPath":[],"patterns":"p"}`, "\xff\xfe", `"str"`)
					if subj == versionSubject {
						payload = "{"
					}
					if tracing && w.Chance(2) {
						// Not part of a trace.
						subj, payload = "verif.echo", fmt.Sprintf(`{"id":%d,"body":"raw"}`, n)
					}
					msg, err := raw.Request(subj, []byte(payload), 60*time.Second)
					if err != nil {
						if !dies && cuts == 0 {
							w.Violate(prop, "garbage-unanswered", "malformed request %q on %s (%d) was not answered: %v", payload, subj, n, err)
						}
					} else if _, err := common.UnmarshalResponse[any](context.Background(), msg.Data); err == nil && !strings.Contains(payload, `"raw"`) {
						w.Violate(prop, "garbage-accepted", "malformed request %q on %s was answered with success: %s", payload, subj, short(string(msg.Data)))
					}
				}
			}
			if shared {
				var done []chan struct{}
				for range n {
					d := make(chan struct{})
					done = append(done, d)
					sim.GoNamed("request", func() { defer close(d); one() })
				}
				for _, d := range done {
					sim.Recv(d)
				}
			} else {
				for range n {
					one()
				}
			}
			// The real services answer independently of all that goes on.
			if !dies && cuts == 0 && w.Chance(3) {
				t0 := w.Now()
				r, err := client.Request(context.Background(), c, nbt.StartRequest{ImportPath: "example.com/" + p.Name, BuildID: "x/y"})
				if err != nil || r == nil || r.FinishToken == "" {
					w.Violate(prop, "unrelated-service", "%s: start request failed: %v %v", p.Name, r, err)
				} else if d := w.Now() - t0; d > time.Second {
					w.Violate(prop, "head-of-line", "%s: unrelated start request took %v", p.Name, d)
				}
			}
			return 0
		})
	}
	if dies {
		at := time.Duration(w.Choose(100)) * 100 * time.Millisecond
		sim.GoNamed("killer", func() {
			sim.Sleep(at)
			died, diedAt = true, w.Now()
			w.Logf("the server goes away (graceful: %v)", graceful)
			if graceful {
				w.StartIn(srv.Proc, "shutdown", func() { srv.S.Shutdown() })
			} else {
				srv.Proc.Kill("crash")
			}
			w.Count("fault:server-death")
		})
	}
	over := false
	for range cuts {
		at := time.Duration(w.Choose(60)) * 50 * time.Millisecond
		sim.GoNamed("cutter", func() {
			sim.Sleep(at)
			links := slices.DeleteFunc(w.Net.OpenLinks(), func(l *sim.Link) bool { return l.Client == srv.Proc })
			if len(links) == 0 || over {
				return
			}
			w.Logf("a connection is cut")
			w.Count("fault:connection-cut")
			cutAt[fmt.Sprint(len(cutAt))] = true
			links[w.Choose(len(links))].Cut()
		})
	}
	limit := 5 * time.Minute
	if !bounded(limit, g.wait) {
		for _, c := range calls {
			if !c.replied && (cuts == 0 || len(cutAt) == 0) {
				w.Violate(prop, "unanswered", "request %d of %s was still not answered %v later (server death: %v)", c.id, c.who, w.Now()-c.begin, dies)
			}
		}
		if len(cutAt) > 0 && !dies {
			// A request whose connection broke may never be answered (there is no retry), but the server must live on.
			w.Count("hung-after-cut")
		}
	}

	over = true
	for _, c := range calls {
		if !c.replied {
			continue
		}
		if n := handled[c.id]; n > 1 {
			w.Violate(prop, "handled-twice", "request %d of %s was handled %d times", c.id, c.who, n)
		}
		if c.err == nil {
			switch {
			case c.req.Fail != nil:
				w.Violate(prop, "error-lost", "the handler of request %d failed (%q), but %s received a success", c.id, *c.req.Fail, c.who)
			case c.res == nil:
				w.Violate(prop, "result-lost", "request %d of %s succeeded, without a result", c.id, c.who)
			case c.res.ID != c.id || c.res.Body != c.req.Body || len(c.res.Extra) != c.req.Reply:
				w.Violate(prop, "wrong-response", "request %d of %s received the response to request %d (%q)", c.id, c.who, c.res.ID, short(c.res.Body))
			case handled[c.id] == 0:
				w.Violate(prop, "invented-response", "request %d of %s was answered without having been handled", c.id, c.who)
			}
		} else {
			disturbed := died && c.end >= diedAt || len(cutAt) > 0
			switch {
			case disturbed:
			case c.cancel > 0 && errors.Is(c.err, context.DeadlineExceeded):
				if d := c.end - c.begin; d < c.cancel || d > c.cancel+time.Second {
					w.Violate(prop, "late-cancel", "request %d of %s was to be given up after %v, but that happened after %v", c.id, c.who, c.cancel, d)
				}
			case c.req.Fail != nil && c.err.Error() == *c.req.Fail:
			case c.req.Reply > 60<<20:
			default:
				w.Violate(prop, "spurious-error", "request %d of %s (handler error: %v) was answered with: %v", c.id, c.who, c.req.Fail, c.err)
			}
		}
		// No request waits for another.
		if !dies && len(cutAt) == 0 && c.cancel == 0 {
			if extra := c.end - c.begin - c.req.Delay; extra > time.Second {
				w.Violate(prop, "head-of-line", "request %d of %s takes %v to handle, but its answer took %v (slow requests: %d)", c.id, c.who, c.req.Delay, c.end-c.begin, slow)
			}
		}
	}
	if !dies {
		// The server is unharmed.
		p := w.Spawn(sim.Spec{Name: "after", Dir: w.Root, Env: sim.CurProc().Env}, func(p *sim.Proc) int {
			c, err := client.Connect(srv.URL)
			if err != nil {
				w.Violate(prop, "server-harmed", "cannot connect to the job server any more: %v", err)
				return 1
			}
			defer c.Close()
			r, err := client.Request(context.Background(), c, echoRequest{ID: -1, Body: "after"})
			if err != nil || r == nil || r.Body != "after" {
				w.Violate(prop, "server-harmed", "the job server does not answer properly any more: %v", err)
			}
			return 0
		})
		if !bounded(2*time.Minute, p.Wait) {
			w.Violate(prop, "server-harmed", "the job server does not answer any more")
		}
	}
	srv.Proc.Kill("end of scenario")
	for _, p := range g.ps {
		p.Kill("end of scenario")
	}
}
