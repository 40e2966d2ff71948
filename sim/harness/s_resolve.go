package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"

	"github.com/DataDog/orchestrion/internal/goflags"
	"github.com/DataDog/orchestrion/internal/jobserver"
	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/jobserver/pkgs"
	"github.com/DataDog/orchestrion/internal/verifsim/sim"
	"github.com/DataDog/orchestrion/internal/verifsim/simpackages"
)

func init() {
	stub := append(slices.Clone(stubCore), "packages.Load (a model that reports which directory, patterns and environment it was run with)")
	register(&sim.Scenario{Name: "resolve", Property: "P06", Run: runResolve, Real: realCore, Stub: stub})
}

// resNames are the environment variables that make a difference to the model of packages.Load.
var resNames = []string{"GOARCH", "GOFLAGS", "HOME", "X"}

// resLoad is an execution of packages.Load.
type resLoad struct {
	n          int
	key        string
	begin, end time.Duration
	err        error
	over       bool
	reported   int
}

type resCall struct {
	n          int
	who        *sim.Proc
	begin, end time.Duration
	replied    bool
	cancel     bool
	err        error

	resolve *pkgs.ResolveRequest
	env     map[string]string
	tmp     string
	res     pkgs.ResolveResponse

	load    *pkgs.LoadRequest
	loadRes pkgs.LoadResponse
}

type resModel struct {
	w       *sim.World
	root    string
	tmpdir  string // of the server
	url     string
	imports map[string][]string
	tests   map[string]string // packages under test: "internal" or "external"
	loads   []*resLoad
	byPath  map[string]*resCall
	extra   map[string]bool // variables nested builds receive from the job server
	failing int             // one out of that many loads fails
	overlay string          // provided by the user
	flags   []string
}

func (m *resModel) closure(path string) map[string]bool {
	res := map[string]bool{}
	var visit func(string)
	visit = func(p string) {
		if !res[p] {
			res[p] = true
			for _, i := range m.imports[p] {
				visit(i)
			}
		}
	}
	visit(path)
	return res
}

// key identifies everything a load depends on.
func (m *resModel) key(kind, dir, pattern, forTest, tmp string, env map[string]string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%s|%s|%s|%s", kind, dir, pattern, forTest, tmp)
	if kind == "load" {
		return b.String()
	}
	for _, n := range resNames {
		if v, ok := env[n]; ok {
			fmt.Fprintf(&b, "|%s=%s", n, v)
		}
	}
	return b.String()
}

func archive(key, path string) string { return "/export/" + sum(key, path)[:24] + "/" + path }

func (m *resModel) dirOf(path string) string {
	return filepath.Join(m.root, "src", path)
}

func effective(env []string) map[string]string {
	res := map[string]string{}
	for _, kv := range env {
		n, v, _ := strings.Cut(kv, "=")
		res[n] = v
	}
	return res
}

// packagesLoad is the model of packages.Load.
func (m *resModel) packagesLoad(p *sim.Proc, cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	const prop = "P06"
	w := m.w
	if len(patterns) != 1 {
		return nil, fmt.Errorf("model: unexpected patterns %q", patterns)
	}
	pattern := patterns[0]
	kind, forTest := "ordinary", ""
	overlay, flags := "", []string{}
	for _, f := range cfg.BuildFlags {
		if v, ok := strings.CutPrefix(f, "-overlay="); ok {
			overlay = v
		} else {
			flags = append(flags, f)
		}
	}
	env := effective(cfg.Env)
	switch {
	case cfg.Tests && cfg.Mode&packages.NeedExportFile != 0:
		kind, forTest = "variant", pattern
	case cfg.Tests:
		kind, forTest = "provenance", pattern
	case cfg.Mode&packages.NeedExportFile == 0:
		kind = "load"
	}
	if kind != "load" {
		for n := range env {
			if !slices.Contains(resNames, n) && n != "GOTMPDIR" && n != "PATH" {
				m.extra[n] = true
			}
		}
		if got := env[client.EnvVarJobserverURL]; got != m.url {
			w.Violate(prop, "job-server-url", "the nested build of %s is told to use the job server %q instead of %q", pattern, got, m.url)
		}
		for _, f := range m.flags {
			if f != "-a" && !slices.Contains(flags, f) {
				w.Violate(prop, "build-flags", "the nested build of %s runs without %s of the main build: %q", pattern, f, flags)
			}
		}
		if slices.Contains(flags, "-a") {
			w.Violate(prop, "build-flags", "the nested build of %s is to re-build everything: %q", pattern, flags)
		}
	}
	// What is being resolved for the tests is only visible in the overlay.
	root := ""
	var check func(when string)
	if kind == "variant" {
		seen := map[string]bool{}
		check = func(when string) {
			var man overlayFile
			data, found := rawRead(overlay)
			if err := json.Unmarshal([]byte(data), &man); !found || err != nil {
				w.Violate(prop, "overlay", "at the %s of the nested build for the tests of %s, its overlay %s is unusable: %s", when, pattern, filepath.Base(overlay), describe(data, found))
				return
			}
			for name, by := range man.Replace {
				src, found := rawRead(by)
				if by != "" && !found {
					w.Violate(prop, "overlay", "at the %s of the nested build for the tests of %s, the replacement of %s is missing", when, pattern, name)
				}
				for imp := range m.imports {
					if filepath.Dir(name) == m.dirOf(pattern) && strings.Contains(src, `"`+imp+`"`) {
						root = imp
					}
				}
				if _, imp, found := strings.Cut(src, "import _ \""); found && filepath.Dir(name) != m.dirOf(pattern) {
					seen[strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(imp), `"`))] = true
				}
			}
			if m.overlay != "" {
				if _, found := man.Replace[filepath.Join(m.root, "src", "user.go")]; !found {
					w.Violate(prop, "overlay", "the nested build for the tests of %s is run without the user's overlay", pattern)
				}
			}
			if root == "" && len(seen) > 0 { // by way of a bridge
				for imp := range seen {
					root = imp
				}
			}
		}
		check("beginning")
	}
	l := &resLoad{n: len(m.loads) + 1, begin: w.Now()}
	l.key = m.key(kind, cfg.Dir, pattern, forTest, env["GOTMPDIR"], env)
	if kind == "variant" {
		l.key = m.key(kind, cfg.Dir, root, forTest, env["GOTMPDIR"], env)
	}
	for _, o := range m.loads {
		if o.key != l.key {
			continue
		}
		if !o.over {
			w.Violate(prop, "loaded-at-once", "%s is loaded twice at the same time", l.key)
		} else if o.err == nil {
			w.Violate(prop, "loaded-again", "%s is loaded again, after that had succeeded", l.key)
		}
	}
	// Nested builds are told on whose behalf they run, so that circular dependencies are noticed.
	for n, v := range env {
		if c := m.byPath[v]; c != nil && kind != "load" && !slices.Contains(m.keys(c), l.key) {
			w.Violate(prop, "foreign-parent", "the nested build for %s believes to run on behalf of request %d (%s=%s), for something else", l.key, c.n, n, v)
		} else if c != nil && c.replied && !c.cancel {
			w.Violate(prop, "foreign-parent", "the nested build for %s believes to run on behalf of request %d (%s=%s), which has been answered", l.key, c.n, n, v)
		}
	}
	m.loads = append(m.loads, l)
	w.Logf("load %d begins: %s", l.n, l.key)
	if !w.Chance(3) {
		sim.Sleep(time.Duration(w.Choose(40)) * sim.Pick(w, time.Millisecond, 100*time.Millisecond, 3*time.Second))
	}
	if check != nil {
		check("end")
	}
	l.end, l.over = w.Now(), true
	mode := 0
	if m.failing > 0 && w.Chance(m.failing) {
		mode = 1 + w.Choose(3)
		l.err = fmt.Errorf("load-error-%d.", l.n)
		w.Count("fault:packages.Load:err")
	}
	w.Logf("load %d ends: failure %d", l.n, mode)
	if mode == 1 {
		return nil, l.err
	}
	if mode == 2 && kind == "load" {
		l.err = errNoPackages
		return nil, nil
	}
	made := map[string]*packages.Package{}
	var mk func(path string, forTest string) *packages.Package
	mk = func(path, forTest string) *packages.Package {
		if forTest != "" && !m.closure(path)[forTest] {
			forTest = ""
		}
		id := path
		if forTest != "" {
			id += " [" + forTest + ".test]"
		}
		if r := made[id]; r != nil {
			return r
		}
		r := &packages.Package{ID: id, PkgPath: path, Name: filepath.Base(path), ForTest: forTest, Imports: map[string]*packages.Package{}}
		made[id] = r
		r.GoFiles = []string{filepath.Join(m.dirOf(path), "a.go")}
		if kind == "load" {
			r.GoFiles = []string{"/tag/" + sum(l.key)[:24]}
		}
		if cfg.Mode&packages.NeedExportFile != 0 {
			r.ExportFile = archive(l.key, path)
		}
		for _, i := range m.imports[path] {
			r.Imports[i] = mk(i, forTest)
		}
		return r
	}
	var res []*packages.Package
	switch kind {
	case "variant", "provenance":
		res = append(res, mk(pattern, ""))
		inner := ""
		if m.tests[pattern] == "internal" {
			inner = pattern
			res = append(res, mk(pattern, pattern))
		}
		if root != "" {
			res = append(res, &packages.Package{ID: pattern + "_test [" + pattern + ".test]", PkgPath: pattern + "_test", ForTest: pattern, Imports: map[string]*packages.Package{root: mk(root, inner)}})
		}
		res = append(res, &packages.Package{ID: pattern + ".test", PkgPath: pattern + ".test"})
	default:
		res = append(res, mk(pattern, ""))
	}
	if mode >= 2 && kind == "load" {
		// Not a failure of the load itself.
		l.err = nil
		res[0].Errors = []packages.Error{{Msg: "cannot be found"}}
	} else if mode >= 2 {
		last := res[0]
		if deps := sim.SortedKeys(last.Imports); mode == 3 && len(deps) > 0 {
			last = last.Imports[deps[0]]
		}
		last.Errors = []packages.Error{{Msg: l.err.Error()}}
	}
	return res, nil
}

var errNoPackages = errors.New("no packages")

type overlayFile struct{ Replace map[string]string }

// expected computes the response to a request from what was asked for only.
func (m *resModel) expected(c *resCall) pkgs.ResolveResponse {
	r := c.resolve
	res := pkgs.ResolveResponse{}
	ordinary := m.key("ordinary", r.Dir, r.Pattern, "", c.tmp, c.env)
	all := m.closure(r.Pattern)
	for path := range all {
		res[path] = pkgs.ResolvedArchive{ExportFile: archive(ordinary, path)}
	}
	if r.TestVariantFor == "" {
		return res
	}
	inner := m.tests[r.TestVariantFor] == "internal"
	if r.TestVariantFor == r.Pattern {
		if inner {
			res[r.Pattern] = pkgs.ResolvedArchive{ExportFile: archive(ordinary, r.Pattern), ForTest: r.Pattern}
		}
		return res
	}
	if !all[r.TestVariantFor] {
		return res
	}
	delete(res, r.TestVariantFor)
	if inner {
		key := m.key("variant", r.Dir, r.Pattern, r.TestVariantFor, c.tmp, c.env)
		for path := range res {
			if m.closure(path)[r.TestVariantFor] {
				res[path] = pkgs.ResolvedArchive{ExportFile: archive(key, path), ForTest: r.TestVariantFor}
			}
		}
	}
	return res
}

// keys lists the loads a request may have to wait for.
func (m *resModel) keys(c *resCall) []string {
	if l := c.load; l != nil {
		var res []string
		for _, p := range l.Patterns {
			res = append(res, m.key("load", l.Dir, p, "", "", nil))
		}
		return res
	}
	r := c.resolve
	res := []string{m.key("ordinary", r.Dir, r.Pattern, "", c.tmp, c.env)}
	if r.TestVariantFor != "" {
		res = append(res, m.key("variant", r.Dir, r.Pattern, r.TestVariantFor, c.tmp, c.env), m.key("provenance", r.Dir, r.TestVariantFor, r.TestVariantFor, c.tmp, c.env))
	}
	return res
}

func runResolve(w *sim.World) {
	const prop = "P06"
	swarm(w)
	w.Cfg.StepCost, w.Cfg.StallProb = 0, 0 // response times are checked
	if w.Net.Latency != nil {
		w.Net.Latency = func() time.Duration { return sim.Pick(w, 0, time.Millisecond, 20*time.Millisecond) }
	}
	m := &resModel{w: w, root: w.Root, imports: map[string][]string{}, tests: map[string]string{}, byPath: map[string]*resCall{}, extra: map[string]bool{}}
	installPrograms(w)
	w.Programs["/sim/bin/go"] = func(p *sim.Proc) int {
		_ = json.NewEncoder(p.Stdout).Encode(map[string]string{
			"GOMODCACHE": filepath.Join(w.Root, "modcache"), "GOROOT": "/sim/goroot", "GOMOD": filepath.Join(w.Root, "src", "go.mod"), "GOWORK": "",
		})
		return 0
	}
	simpackages.SetLoader(w, m.packagesLoad)
	m.failing = sim.Pick(w, 0, 0, 6, 2)

	// Packages: roots (to be resolved), subjects (with tests), and others; imports only refer to later ones.
	all := []string{"ex.com/r0", "ex.com/a/internal/r1", "ex.com/r2", "ex.com/m0", "ex.com/m1", "ex.com/s0", "ex.com/s1", "ex.com/d0"}
	for i, path := range all {
		m.imports[path] = nil
		for _, to := range all[i+1:] {
			if w.Chance(3) {
				m.imports[path] = append(m.imports[path], to)
			}
		}
		rawWrite(filepath.Join(m.dirOf(path), "a.go"), "package x\n")
	}
	m.tests["ex.com/s0"] = "internal"
	m.tests["ex.com/s1"] = sim.Pick(w, "internal", "external")
	rawWrite(filepath.Join(m.root, "w", "n", "go.mod"), "")
	m.tmpdir = filepath.Join(w.Root, "server-tmp")
	rawWrite(filepath.Join(m.tmpdir, "x"), "")
	if w.Chance(4) {
		m.overlay = filepath.Join(w.Root, "user-overlay.json")
		rawWrite(m.overlay, fmt.Sprintf(`{"Replace":{%q:%q}}`, filepath.Join(w.Root, "src", "user.go"), filepath.Join(w.Root, "server-tmp", "x")))
	}
	args := []string{"build"}
	for _, f := range []string{"-a", "-trimpath", "-tags=foo", "-race"} {
		if w.Chance(3) {
			m.flags = append(m.flags, f)
		}
	}
	args = append(args, m.flags...)
	if m.overlay != "" {
		args = append(args, "-overlay="+m.overlay)
	}

	srv := &Server{}
	ready := make(chan struct{})
	srv.Proc = w.Spawn(sim.Spec{Name: "server", Dir: w.Root, Env: append(slices.Clone(sim.CurProc().Env), "PATH=/sim/bin", "TMPDIR="+m.tmpdir)}, func(p *sim.Proc) int {
		defer func() {
			if srv.URL == "" {
				close(ready)
			}
		}()
		goflags.SetFlags(context.Background(), w.Root, args)
		s, err := jobserver.New(context.Background(), nil)
		if err != nil {
			srv.Err = err
			return 1
		}
		srv.S, srv.URL = s, s.ClientURL()
		close(ready)
		s.WaitForShutdown()
		return 0
	})
	sim.Recv(ready)
	if srv.URL == "" {
		w.Violate(prop, "server-start", "job server did not start: %v", srv.Err)
		return
	}
	m.url = srv.URL
	if w.Chance(3) {
		w.FS.Cfg = sim.FaultCfg{Mean: sim.Pick(w, 5, 20, 60), Max: 1 + w.Choose(3), Kinds: map[string]bool{"err": true, "short": true, "bad": true},
			Filter: func(p *sim.Proc, op, path string) bool { return p == srv.Proc && op != "remove" && op != "exec" }}
	}

	var calls []*resCall
	universe := 1 + w.Choose(3) // the fewer, the more identical requests
	mkEnv := func(c *resCall) []string {
		c.env = map[string]string{}
		var list []string
		for _, n := range resNames {
			if w.Choose(3) > 0 {
				c.env[n] = fmt.Sprint("v", w.Choose(universe))
				list = append(list, n+"="+c.env[n])
			}
		}
		// These are not supposed to make a difference.
		for _, n := range []string{"PWD", "TOOLEXEC_IMPORTPATH"} {
			if w.Chance(2) {
				list = append(list, fmt.Sprintf("%s=t/%d", n, c.n))
				if n != "PWD" {
					m.byPath[fmt.Sprintf("t/%d", c.n)] = c
				}
			}
		}
		for _, n := range sim.SortedKeys(m.extra) {
			if w.Chance(2) {
				list = append(list, fmt.Sprintf("%s=u/%d", n, w.Choose(20)))
			}
		}
		out := make([]string, 0, len(list)+2)
		for _, i := range w.Perm(len(list)) {
			out = append(out, list[i])
		}
		// The last one of several values counts.
		if n := sim.Pick(w, resNames...); w.Chance(4) && c.env[n] != "" {
			out = slices.Insert(out, 0, n+"=overridden")
		}
		return out
	}
	newCall := func(p *sim.Proc) *resCall {
		c := &resCall{n: len(calls) + 1, who: p}
		calls = append(calls, c)
		dir := filepath.Join(w.Root, sim.Pick(w, "w", "w", "w/n"))
		if w.Chance(4) {
			c.load = &pkgs.LoadRequest{Dir: dir}
			for range 1 + w.Choose(3) {
				c.load.Patterns = append(c.load.Patterns, sim.Pick(w, "/n/q", "/q", "ex.com/r0", "ex.com/r2"))
			}
			return c
		}
		r := &pkgs.ResolveRequest{Dir: dir, Pattern: all[w.Choose(min(len(all), 1+universe))]}
		r.Env = mkEnv(c)
		switch w.Choose(4) {
		case 0:
			c.tmp = filepath.Join(w.Root, fmt.Sprintf("tmp%d", w.Choose(universe)), "__tmp__")
			r.TempDir = c.tmp
			if w.Chance(2) {
				r.Env = slices.Insert(r.Env, w.Choose(len(r.Env)+1), "GOTMPDIR=/elsewhere")
			}
		case 1:
			c.tmp = filepath.Join(w.Root, fmt.Sprintf("tmp%d", w.Choose(universe)), "__tmp__")
			r.Env = slices.Insert(r.Env, w.Choose(len(r.Env)+1), "GOTMPDIR="+c.tmp)
		}
		if w.Chance(3) {
			r.TestVariantFor = sim.Pick(w, "ex.com/s0", "ex.com/s1")
			if w.Chance(6) {
				r.Pattern = r.TestVariantFor
			}
		}
		c.resolve = r
		return c
	}
	do := func(p *sim.Proc, conn *client.Client) {
		c := newCall(p)
		ctx := context.Background()
		if w.Chance(10) {
			c.cancel = true
			var stop func()
			ctx, stop = context.WithTimeout(ctx, time.Duration(w.Choose(50))*100*time.Millisecond)
			defer stop()
		}
		c.begin = w.Now()
		if c.load != nil {
			w.Logf("%s: request %d loads %q in %s", p.Name, c.n, c.load.Patterns, c.load.Dir)
			c.loadRes, c.err = client.Request(ctx, conn, *c.load)
		} else {
			w.Logf("%s: request %d resolves %s (test %q, tmp %q) in %s, %q", p.Name, c.n, c.resolve.Pattern, c.resolve.TestVariantFor, c.tmp, c.resolve.Dir, c.resolve.Env)
			req := *c.resolve
			req.Env = slices.Clone(req.Env)
			c.res, c.err = client.Request(ctx, conn, req)
		}
		c.end, c.replied = w.Now(), true
		w.Logf("%s: request %d -> %d archives, %d packages, error %v", p.Name, c.n, len(c.res), len(c.loadRes), c.err)
	}
	g := &group{w: w}
	for i := range 1 + w.Choose(5) {
		n, together := 1+w.Choose(4), w.Chance(2)
		var delay time.Duration
		if w.Chance(2) {
			delay = time.Duration(w.Choose(40)) * time.Second
		}
		g.spawn(fmt.Sprintf("client%d", i), false, func(p *sim.Proc) int {
			sim.Sleep(delay)
			conn, err := client.Connect(srv.URL)
			if err != nil {
				w.Violate(prop, "connect", "cannot connect to a running job server: %v", err)
				return 1
			}
			defer conn.Close()
			var done []chan struct{}
			for range n {
				if !together {
					do(p, conn)
					continue
				}
				d := make(chan struct{})
				done = append(done, d)
				sim.GoNamed("request", func() { defer close(d); do(p, conn) })
			}
			for _, d := range done {
				sim.Recv(d)
			}
			return 0
		})
	}
	killed := false
	if w.Chance(6) {
		at := time.Duration(w.Choose(300)) * 100 * time.Millisecond
		sim.GoNamed("killer", func() {
			sim.Sleep(at)
			if p := g.ps[w.Choose(len(g.ps))]; !p.Dead() {
				killed = true
				w.Count("fault:client-killed")
				p.Kill("client killed")
			}
		})
	}
	limit := 2 * time.Hour
	if !bounded(limit, g.wait) {
		for _, c := range calls {
			if !c.replied && !c.who.Dead() {
				w.Violate(prop, "unanswered", "request %d of %s was not answered within %v", c.n, c.who.Name, limit)
			}
		}
	}
	// Let loads of clients that left end.
	for i, quiet := 0, 0; i < 200 && quiet < 3; i++ {
		// A load may be followed by another one.
		quiet++
		if slices.ContainsFunc(m.loads, func(l *resLoad) bool { return !l.over }) {
			quiet = 0
		}
		sim.Sleep(10 * time.Second)
	}
	if srv.Proc.Dead() {
		w.Violate(prop, "server-died", "the job server terminated: %s", srv.Proc.Panic)
		return
	}
	for _, name := range listing(m.tmpdir) {
		if strings.Contains(name, "overlay") {
			w.Violate(prop, "overlay-left", "%s is left in the temporary directory", name)
			break
		}
	}
	m.check(calls, killed)
	srv.Proc.Kill("end of scenario")
}

func (m *resModel) check(calls []*resCall, killed bool) {
	const prop = "P06"
	w := m.w
	lost := killed
	for _, c := range calls {
		if !c.replied || c.cancel {
			lost = lost || c.cancel
			continue
		}
		keys := m.keys(c)
		// Which of the loads in the meantime are related to this request?
		var own []*resLoad
		for _, l := range m.loads {
			if slices.Contains(keys, l.key) && l.end >= c.begin && l.begin <= c.end {
				own = append(own, l)
			}
		}
		sort.Slice(own, func(i, j int) bool { return own[i].begin < own[j].begin })
		idle, at := time.Duration(0), c.begin
		for _, l := range own {
			idle += max(0, l.begin-at)
			at = max(at, l.end)
		}
		idle += max(0, c.end-at)
		if idle > time.Second {
			w.Violate(prop, "waits-for-others", "request %d was answered after %v, %v of which nothing it depends on was being loaded", c.n, c.end-c.begin, idle)
		}
		if c.err != nil {
			explained := w.FS.Fired() > 0 && !strings.Contains(c.err.Error(), "load-error-")
			for _, l := range own {
				if l.err == errNoPackages {
					explained = true
				} else if l.err != nil && strings.Contains(c.err.Error(), l.err.Error()) {
					explained = true
					if l.reported++; l.reported > 1 {
						w.Violate(prop, "error-shared", "the failure of load %d was reported to several requests, the last of which is %d", l.n, c.n)
					}
				}
			}
			if !explained {
				w.Violate(prop, "spurious-error", "request %d failed, although nothing it depends on failed while it was handled: %v", c.n, c.err)
			}
			continue
		}
		if c.load != nil {
			if len(c.loadRes) != len(c.load.Patterns) {
				w.Violate(prop, "wrong-packages", "request %d for %q returned %d packages", c.n, c.load.Patterns, len(c.loadRes))
				continue
			}
			for i, pat := range c.load.Patterns {
				p := c.loadRes[i]
				if tag := "/tag/" + sum(keys[i])[:24]; p == nil || p.PkgPath != pat || len(p.GoFiles) != 1 || p.GoFiles[0] != tag {
					w.Violate(prop, "wrong-packages", "request %d for %q in %s returned something else: %v", c.n, pat, c.load.Dir, p)
				}
			}
			continue
		}
		want := m.expected(c)
		for _, path := range sim.SortedKeys(want) {
			got, ok := c.res[path]
			if !ok {
				w.Violate(prop, "archive-missing", "the resolution of %s (tests of %q) lacks %s (request %d)", c.resolve.Pattern, c.resolve.TestVariantFor, path, c.n)
			} else if got != want[path] {
				w.Violate(prop, "wrong-archive", "the resolution of %s (tests of %q, request %d) has %s from another one: %+v instead of %+v", c.resolve.Pattern, c.resolve.TestVariantFor, c.n, path, got, want[path])
			}
		}
		for _, path := range sim.SortedKeys(c.res) {
			if _, ok := want[path]; !ok {
				w.Violate(prop, "archive-added", "the resolution of %s (tests of %q, request %d) must not have %s", c.resolve.Pattern, c.resolve.TestVariantFor, c.n, path)
			}
		}
	}
	if !lost {
		for _, l := range m.loads {
			if l.err != nil && l.err != errNoPackages && l.reported == 0 {
				w.Violate(prop, "error-swallowed", "load %d failed (%s), but no request did", l.n, l.key)
			}
		}
	}
}
