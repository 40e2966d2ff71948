package harness

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/jobserver/nbt"
	"github.com/DataDog/orchestrion/internal/verifsim/sim"
)

func init() {
	register(&sim.Scenario{Name: "nbt", Property: "P01", Run: func(w *sim.World) { runNBT(w, "P01") }, Real: realCore, Stub: stubCore})
	register(&sim.Scenario{Name: "nbt-failures", Property: "P02", Run: func(w *sim.World) { runNBT(w, "P02") }, Real: realCore, Stub: stubCore})
	register(&sim.Scenario{Name: "nbt-artifacts", Property: "P03", Run: func(w *sim.World) { runNBT(w, "P03") }, Real: realCore, Stub: stubCore})
}

// nbtOutcome is what a task reports, or what a caller that did not get the task observes.
type nbtOutcome struct {
	err   string
	isErr bool
	files map[nbt.Label]string // contents
}

func (o nbtOutcome) String() string {
	if o.isErr {
		return fmt.Sprintf("error %q", o.err)
	}
	var parts []string
	for l, c := range o.files {
		parts = append(parts, fmt.Sprintf("%s=%s", l, short(c)))
	}
	sort.Strings(parts)
	return "files " + strings.Join(parts, ",")
}

type nbtFinish struct {
	begin, end int
	out        nbtOutcome
	bad        string // reason why this request must be rejected
	broken     bool   // reports files that cannot be persisted
	reply      error
	replied    bool
	empty      bool // neither files nor error
}

type nbtStart struct {
	begin, end int
	proc       string
	token      string
	out        nbtOutcome
	replied    bool
	noResult   bool
	paths      map[nbt.Label]string
}

type nbtKey struct {
	path, id string
	starts   []*nbtStart
	finishes []*nbtFinish
	lost     bool // the owner of the task was killed before it could report
}

// runNBT simulates toolexec processes racing to compile the same packages.
func runNBT(w *sim.World, prop string) {
	swarm(w)
	w.FS.Chunk = sim.Pick(w, 32*1024, 512)
	failures, iofaults := prop == "P02", prop == "P03"

	srvSpec := sim.Spec{Dir: w.Root}
	srv := startServer(w, nil, srvSpec)
	if srv.Err != nil {
		w.Violate(prop, "server-start", "job server did not start: %v", srv.Err)
		return
	}

	var keys []*nbtKey
	for _, path := range []string{"example.com/a", "example.com/b"} {
		for _, id := range []string{"id1/x", "id2/x"} {
			keys = append(keys, &nbtKey{path: path, id: id})
		}
	}
	// Keys whose naive concatenations collide.
	keys = append(keys, &nbtKey{path: "ab", id: "c"}, &nbtKey{path: "a", id: "bc"})
	nk := 1 + w.Choose(4)
	if w.Chance(4) {
		nk = len(keys)
	}
	perm := w.Perm(len(keys))
	var used []*nbtKey
	for _, i := range perm[:nk] {
		used = append(used, keys[i])
	}

	if failures && w.Chance(3) {
		iofaults = true
	}
	if iofaults {
		w.FS.Cfg.Mean = sim.Pick(w, 6, 15, 40)
		w.FS.Cfg.Max = 1 + w.Choose(3)
		w.FS.Cfg.Kinds = map[string]bool{"err": true, "short": true, "bad": true, "delay": true}
		w.FS.Cfg.Filter = func(p *sim.Proc, op, path string) bool { return p == srv.Proc && strings.Contains(path, "/") }
	}

	g := &group{w: w}
	np := 2 + w.Choose(5)
	serial := 0
	for pi := range np {
		// What this process does, decided up front.
		n := 1 + w.Choose(3)
		g.spawn(fmt.Sprintf("compile%d", pi), false, func(p *sim.Proc) int {
			c, err := client.Connect(srv.URL)
			if err != nil {
				w.Violate(prop, "connect", "cannot connect to a running job server: %v", err)
				return 1
			}
			defer c.Close()
			for range n {
				k := used[w.Choose(len(used))]
				serial++
				doTask(w, p, c, k, serial, prop, failures, srv)
			}
			return 0
		})
	}
	// Faults have ceased once all have reported; everyone must complete.
	g.wait()
	w.FS.Cfg.Mean = 0

	// Late comers observe the same outcome.
	g2 := &group{w: w}
	g2.spawn("late", false, func(p *sim.Proc) int {
		c, err := client.Connect(srv.URL)
		if err != nil {
			w.Violate(prop, "connect", "cannot connect to a running job server: %v", err)
			return 1
		}
		defer c.Close()
		for _, k := range used {
			if len(k.starts) > 0 && !k.lost {
				serial++
				doTask(w, p, c, k, serial, prop, false, srv)
			}
		}
		return 0
	})
	g2.wait()

	for _, k := range used {
		checkNBTKey(w, k, prop, iofaults)
	}
	srv.Proc.Kill("end of scenario")
}

func nbtStartTask(w *sim.World, p *sim.Proc, c *client.Client, k *nbtKey) *nbtStart {
	st := &nbtStart{begin: w.Step(), proc: p.Name}
	k.starts = append(k.starts, st)
	res, err := client.Request(context.Background(), c, nbt.StartRequest{ImportPath: k.path, BuildID: k.id})
	st.end, st.replied = w.Step(), true
	switch {
	case err != nil:
		st.out = nbtOutcome{isErr: true, err: err.Error()}
	case res == nil:
		st.noResult = true
	default:
		st.token = res.FinishToken
		st.paths = res.Files
		st.out.files = map[nbt.Label]string{}
		for l, path := range res.Files {
			data, ok := rawRead(path)
			if !ok {
				data = "<missing " + path + ">"
			}
			st.out.files[l] = data
		}
	}
	what := "token"
	if st.token == "" {
		what = st.out.String()
	}
	w.Logf("%s: start %s %s -> %s", p.Name, k.path, k.id, what)
	return st
}

func doTask(w *sim.World, p *sim.Proc, c *client.Client, k *nbtKey, serial int, prop string, failures bool, srv *Server) {
	ctx := context.Background()
	st := nbtStartTask(w, p, c, k)
	if st.token == "" {
		return
	}
	// This process performs the build.
	dir := filepath.Join(w.Root, "work", fmt.Sprintf("b%03d", serial))
	if w.Chance(3) {
		sim.Sleep(time.Duration(w.Choose(2000)) * time.Millisecond)
	}
	mk := func(tag string) (map[nbt.Label]string, map[nbt.Label]string) {
		files, contents := map[nbt.Label]string{}, map[nbt.Label]string{}
		add := func(l nbt.Label) {
			path := filepath.Join(dir, tag+string(l))
			data := content(fmt.Sprintf("%s|%s|%s|%d%s", k.path, k.id, l, serial, tag), sim.Pick(w, 64, 0, 5000, 40000, 70000))
			rawWrite(path, data)
			files[l], contents[l] = path, data
		}
		add(nbt.LabelArchive)
		if w.Chance(2) {
			add(nbt.LabelAsmhdr)
		}
		return files, contents
	}
	finish := func(req nbt.FinishRequest, f *nbtFinish) {
		f.begin = w.Step()
		k.finishes = append(k.finishes, f)
		_, f.reply = client.Request(ctx, c, req)
		f.end, f.replied = w.Step(), true
		w.Logf("%s: finish %s %s (%v) -> %v", p.Name, k.path, k.id, f.out, f.reply)
		if f.bad != "" && f.reply == nil {
			w.Violate(prop, "bogus-finish-accepted", "finish request with %s for %s was accepted", f.bad, k.path)
		}
	}
	req := nbt.FinishRequest{ImportPath: k.path, BuildID: k.id, FinishToken: st.token}

	if w.Chance(4) {
		bad := req
		msg := "bogus failure"
		bad.Error = &msg
		f := &nbtFinish{out: nbtOutcome{isErr: true, err: msg}}
		switch w.Choose(4) {
		case 0:
			bad.FinishToken, f.bad = "5ed2a0c7-0000-0000-0000-000000000000", "a wrong token"
		case 1:
			bad.FinishToken, f.bad = "", "no token"
		case 2:
			bad.ImportPath, f.bad = "example.com/never-started", "an import path that was never started"
		case 3:
			bad.BuildID, f.bad = k.id+"x", "a build ID that was never started"
		}
		finish(bad, f)
	}

	kind := 0
	if failures {
		kind = w.Choose(7)
	} else if w.Chance(5) {
		kind = 1
	}
	f := &nbtFinish{}
	switch kind {
	case 0, 6: // success
		files, contents := mk("")
		req.Files = files
		f.out = nbtOutcome{files: contents}
	case 1:
		msg := fmt.Sprintf("compilation of %s failed (%d)", k.path, serial)
		req.Error = &msg
		f.out = nbtOutcome{isErr: true, err: msg}
	case 2: // failure without a message
		msg := ""
		req.Error = &msg
		f.out = nbtOutcome{isErr: true}
	case 3: // neither files nor error
		f.out = nbtOutcome{isErr: true}
		f.empty = true
	case 4: // reported files do not exist
		files, contents := mk("")
		labels := make([]string, 0, len(files))
		for l := range files {
			labels = append(labels, string(l))
		}
		sort.Strings(labels)
		_ = os.Remove(files[nbt.Label(labels[w.Choose(len(labels))])])
		req.Files = files
		f.out = nbtOutcome{isErr: true}
		f.broken = true
		_ = contents
	case 5: // both files and an error
		files, _ := mk("")
		msg := "failed despite of files"
		req.Files, req.Error = files, &msg
		f.out = nbtOutcome{isErr: true, err: msg}
	}
	// The report is retried concurrently, with something else.
	if w.Chance(4) {
		req2 := req
		f2 := &nbtFinish{}
		if w.Chance(2) {
			files, contents := mk("retry")
			req2.Files, req2.Error = files, nil
			f2.out = nbtOutcome{files: contents}
		} else {
			msg := "second report"
			req2.Files, req2.Error = nil, &msg
			f2.out = nbtOutcome{isErr: true, err: msg}
		}
		if w.Chance(2) {
			done := make(chan struct{})
			sim.GoNamed("retry", func() { defer close(done); finish(req2, f2) })
			finish(req, f)
			sim.Recv(done)
		} else {
			finish(req, f)
			finish(req2, f2)
		}
	} else {
		finish(req, f)
	}
	// The task's own files are the task's: they change and vanish afterwards.
	for _, path := range req.Files {
		if rawExists(path) {
			rawWrite(path, "overwritten later")
		}
	}
	if w.Chance(2) {
		_ = os.RemoveAll(dir)
	}
}

func sameFiles(a, b map[nbt.Label]string) bool {
	if len(a) != len(b) {
		return false
	}
	for l, c := range a {
		if o, ok := b[l]; !ok || o != c {
			return false
		}
	}
	return true
}

func checkNBTKey(w *sim.World, k *nbtKey, prop string, iofaults bool) {
	name := fmt.Sprintf("%s (build ID %s)", k.path, k.id)
	owners := 0
	for _, st := range k.starts {
		if st.replied && st.token != "" {
			owners++
			if len(st.paths) > 0 {
				w.Violate(prop, "token-and-files", "%s was told both to build %s and to re-use it", st.proc, name)
			}
		}
	}
	if owners > 1 {
		w.Violate(prop, "built-twice", "%d processes were told to build %s", owners, name)
	}
	if owners == 0 && len(k.starts) > 0 && !k.lost {
		w.Violate(prop, "never-built", "%d processes asked for %s, and none was told to build it", len(k.starts), name)
	}
	var valid []*nbtFinish
	for _, f := range k.finishes {
		if f.bad == "" {
			valid = append(valid, f)
		}
	}
	// The reports that may have come first: no other valid report ended before they began.
	var first []*nbtFinish
	for _, f := range valid {
		ok := true
		for _, o := range valid {
			if o != f && o.replied && o.end < f.begin {
				ok = false
			}
		}
		if ok {
			first = append(first, f)
		}
	}
	// matches returns whether what a caller observed may be the outcome of a report.
	matches := func(st *nbtStart, f *nbtFinish) bool {
		if f.begin > st.end {
			return false
		}
		o := st.out
		if f.out.isErr {
			return o.isErr && strings.Contains(o.err, f.out.err)
		}
		if o.isErr {
			// Persisting the artifacts failed: legitimate only if the report was told, too.
			return f.reply != nil
		}
		return sameFiles(f.out.files, o.files) && (f.reply == nil || !f.replied)
	}
	var seen *nbtStart
	for _, st := range k.starts {
		if !st.replied || st.token != "" {
			continue
		}
		if st.noResult {
			w.Violate(prop, "empty-success", "%s asked for %s, and received a success response without any result", st.proc, name)
			continue
		}
		if !st.out.isErr && len(st.out.files) == 0 {
			w.Violate(prop, "empty-success", "%s asked for %s, and received neither a token, files, nor an error", st.proc, name)
			continue
		}
		var early = true
		for _, f := range valid {
			if f.begin <= st.end {
				early = false
			}
		}
		if early {
			w.Violate(prop, "early-answer", "%s was answered (%v) about %s before its build was reported", st.proc, st.out, name)
			continue
		}
		ok := false
		for _, f := range first {
			ok = ok || matches(st, f)
		}
		if !ok {
			class := "wrong-outcome"
			for _, f := range valid {
				if !f.out.isErr && !st.out.isErr {
					class = "corrupt-artifact"
				}
			}
			var reps []string
			for _, f := range valid {
				reps = append(reps, fmt.Sprintf("%v (answered: %v)", f.out, f.reply))
			}
			w.Violate(prop, class, "%s observed %v for %s, but what was reported is: %s", st.proc, st.out, name, strings.Join(reps, "; "))
		}
		if seen != nil && (seen.out.isErr != st.out.isErr || !sameFiles(seen.out.files, st.out.files) || (st.out.isErr && seen.out.err != st.out.err)) {
			w.Violate(prop, "disagreement", "for %s, %s observed %v but %s observed %v", name, seen.proc, seen.out, st.proc, st.out)
		}
		seen = st
		// Artifacts remain intact for as long as the server lives.
		for l, path := range st.paths {
			if data, _ := rawRead(path); data != st.out.files[l] {
				w.Violate(prop, "artifact-changed", "the stored %s of %s changed after it was handed out: %s", l, name, short(data))
			}
			if strings.HasPrefix(path, filepath.Join(w.Root, "work")) {
				w.Violate(prop, "artifact-not-owned", "the stored %s of %s is a file of the process that built it: %s", l, name, path)
			}
		}
	}
}
