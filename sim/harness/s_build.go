package harness

import (
	"bytes"
	"errors"
	"fmt"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
)

var (
	buildReal = append(slices.Clone(realCore), "orchestrion go, orchestrion toolexec: configuration, weaver, injector, link.deps, proxied commands", "the Go compiler (memoized by its inputs)")
	buildStub = append(slices.Clone(stubCore), "the go command (model: action graph, build cache, packages.Load with nested builds)", "the linker (checks packages, fingerprints, and relocations)")
)

func init() {
	register(&sim.Scenario{Name: "build", Property: "P13", Run: func(w *sim.World) { runBuild(w, "P13") }, Real: buildReal, Stub: buildStub})
	register(&sim.Scenario{Name: "build-cycles", Property: "P05", Run: func(w *sim.World) { runBuild(w, "P05") }, Real: buildReal, Stub: buildStub})
	register(&sim.Scenario{Name: "build-faults", Property: "P14", Run: func(w *sim.World) { runBuildFaults(w, false) }, Real: buildReal, Stub: buildStub})
	register(&sim.Scenario{Name: "build-tests-faults", Property: "P14", Run: func(w *sim.World) { runBuildFaults(w, true) }, Real: buildReal, Stub: buildStub})
	register(&sim.Scenario{Name: "build-leftovers", Property: "P15", Run: runBuildLeftovers, Real: buildReal, Stub: buildStub})
	register(&sim.Scenario{Name: "build-tests", Property: "P16", Run: runBuildTests, Real: buildReal, Stub: buildStub})
	register(&sim.Scenario{Name: "build-changes", Property: "P04", Run: runBuildChanges, Real: buildReal, Stub: buildStub})
}

// weave is something that is injected into a package.
type weave struct {
	target, dep, fn string
	kind            string // import, blank, decl, assign, link, wrap, field, args
	callee          string // of what is wrapped, or given arguments
	off             bool   // not part of the configuration for now
	other           bool   // part of other.yml
	version         int    // of the template
	plain           bool   // no symbol of what is linked is referred to
	scope           int    // how the target is described
	lang            string // what the template needs
}

// marker is a number that only appears in code woven by the weave of the given index.
func (wv *weave) marker(i int) string { return fmt.Sprint(100000*(i+1) + wv.version) }

type genModule struct {
	m      *goModel
	weaves []weave
	broken string
	serial int
	raw    bool // builds are run without "orchestrion go"
	limit  time.Duration
	tests  bool
	tested []string // packages whose tests are built
	all    map[string]*goPkg
}

const modPath = "example.com/m"

// generate makes up a module, and what gets woven into it.
func generate(w *sim.World, cyclic bool) *genModule { return generateWith(w, cyclic, false) }

func generateWith(w *sim.World, cyclic, tests bool) *genModule {
	g := &genModule{m: newGoModel(w, filepath.Join(w.Root, "m"), modPath), tests: tests}
	m := g.m
	nP, nQ := 2+w.Choose(3), 1+w.Choose(3)
	natural := map[string][]string{}
	var libs []string
	for i := range nP {
		p := fmt.Sprintf("%s/p%d", modPath, i)
		for _, o := range libs {
			if w.Chance(3) {
				natural[p] = append(natural[p], o)
			}
		}
		libs = append(libs, p)
	}
	// Some packages are not depended upon by any source.
	var synth []string
	for i := range nQ {
		q := fmt.Sprintf("%s/q%d", modPath, i)
		if tests && i == nQ-1 && w.Chance(3) {
			q = fmt.Sprintf("%s/x/internal/q%d", modPath, i)
		}
		for _, o := range append(slices.Clone(libs), synth...) {
			if w.Chance(4) {
				natural[q] = append(natural[q], o)
			}
		}
		synth = append(synth, q)
	}
	for i, p := range libs {
		if i == len(libs)-1 || w.Chance(2) {
			natural[modPath] = append(natural[modPath], p)
		}
	}
	all := append(append(slices.Clone(libs), synth...), modPath)

	graph := map[string][]string{}
	for p, ds := range natural {
		graph[p] = slices.Clone(ds)
	}
	nW := 1 + w.Choose(4)
	if cyclic {
		nW += 1 + w.Choose(2)
	}
	files := map[string]int{}
	for _, p := range all {
		files[p] = 1 + w.Choose(3)
	}
	focus := ""
	if w.Chance(3) {
		// Much is woven into the same package.
		focus = all[w.Choose(len(all))]
		files[focus], nW = 1+w.Choose(3), nW+2
	}
	for range nW {
		target, dep := all[w.Choose(len(all))], append(libs, synth...)[w.Choose(nP+nQ)]
		if focus != "" && !w.Chance(4) {
			target = focus
		}
		if n := len(g.weaves); n > 0 && w.Chance(4) {
			target = g.weaves[n-1].dep // a chain of woven dependencies
		}
		if focus != "" && len(natural[focus]) > 0 && w.Chance(2) {
			dep = natural[focus][0] // what is woven may be subject to other weaves
		}
		kind := sim.Pick(w, "import", "import", "link", "wrap", "blank", "decl", "assign", "field", "args", "decl")
		if target == dep && (!cyclic || kind == "link") {
			continue
		}
		if kind == "link" {
			if cyclic {
				continue
			}
			// Only a package that is not built into the target can have it as a dependency.
			if reaches(graph, target, dep) && w.Chance(2) {
				continue
			}
		} else {
			if !cyclic && reaches(graph, dep, target) {
				continue
			}
			graph[target] = append(graph[target], dep)
		}
		wv := weave{target: target, dep: dep, kind: kind, fn: fmt.Sprintf("F%d", w.Choose(files[target]))}
		if target == modPath {
			wv.fn = "main"
		}
		if (kind == "wrap" || kind == "args") && len(natural[target]) == 0 || kind == "assign" && target == modPath {
			wv.kind = "import"
		}
		if wv.kind == "wrap" || wv.kind == "args" {
			wv.callee = natural[target][0]
		}
		if wv.kind == "assign" && slices.ContainsFunc(g.weaves, func(o weave) bool { return o.kind == "assign" && o.target == wv.target && o.fn == wv.fn }) {
			wv.kind = "decl" // the last value that is assigned is the only one
		}
		if wv.kind == "decl" {
			wv.lang = sim.Pick(w, "", "go1.22", "go1.26")
		}
		if !slices.Contains(g.weaves, wv) {
			g.weaves = append(g.weaves, wv)
		}
	}

	testSources := map[string]map[string]string{}
	if tests {
		testSources = g.generateTests(all[:len(all)-1], natural)
	}
	if !cyclic && w.Chance(8) {
		g.broken = all[w.Choose(len(all))]
	}
	for _, p := range all {
		name := filepath.Base(p)
		if p == modPath {
			name = "main"
		}
		sources := map[string]string{}
		ds := natural[p]
		for f := range files[p] {
			var b strings.Builder
			fmt.Fprintf(&b, "package %s\n\n", name)
			var calls []string
			for i, d := range ds {
				if i%files[p] == f || (f == 0 && slices.ContainsFunc(g.weaves, func(wv weave) bool { return wv.callee != "" && wv.target == p })) {
					fmt.Fprintf(&b, "import %q\n", d)
					calls = append(calls, filepath.Base(d)+".F0()", filepath.Base(d)+sim.Pick(w, ".Sum0(1)", ".Sum0([]int{1}...)"))
				}
			}
			expr := strings.Join(append([]string{fmt.Sprint(f + 1)}, calls...), " + ")
			fmt.Fprintf(&b, "\nfunc F%d() int {\n\treturn %s\n}\n\n// Wrap is used by woven code.\nfunc Wrap%d(n int) int { return n }\n\nfunc Sum%d(ns ...int) int { return len(ns) }\n\ntype T%d struct{ A int }\n\nvar V%d int = 1\n", f, expr, f, f, f, f)
			if p == g.broken && f == 0 {
				b.WriteString("\nfunc broken() int { return undefined }\n")
			}
			if p == modPath && f == 0 {
				b.WriteString("\nfunc main() {\n\tprintln(F0())\n}\n")
			}
			sources[fmt.Sprintf("f%d.go", f)] = b.String()
		}
		for f, src := range testSources[p] {
			sources[f] = src
		}
		if p == modPath {
			sources["orchestrion.tool.go"] = "//go:build tools\n\npackage tools\n\nimport _ \"github.com/DataDog/orchestrion\"\n"
			if w.Chance(2) {
				sources["orchestrion.tool.go"] = fmt.Sprintf("//go:build tools\n\npackage tools\n\nimport (\n\t_ \"github.com/DataDog/orchestrion\"\n\t_ %q\n)\n", libs[0])
			}
		}
		pkg := m.add(p, name, sources)
		pkg.Broken = p == g.broken
		pkg.Asmhdr = w.Chance(6) && p != modPath
	}

	// Part of the configuration may come with a package that the main one refers to.
	for i := range g.weaves {
		g.weaves[i].other = w.Chance(3)
		g.weaves[i].plain = g.weaves[i].kind == "link" && w.Chance(3)
		g.weaves[i].scope = w.Choose(5)
	}
	g.configure()
	for _, wv := range g.weaves {
		w.Logf("weave: %s %s into %s (%s)", wv.kind, wv.dep, wv.target, wv.fn)
	}
	for _, p := range all {
		w.Logf("package %s imports %v", p, m.Pkgs[p].Imports)
	}
	if tests {
		g.all, _ = m.plan(g.tested, true, nil)
		for _, p := range g.tested {
			for _, id := range []string{p + " [" + p + ".test]", p + "_test [" + p + ".test]"} {
				if v := g.all[id]; v != nil {
					w.Logf("package %s imports %v", id, v.Imports)
				}
			}
		}
	}
	return g
}

// testMain is what is woven into test mains.
const testMain = "test main"

// generateTests makes up tests of some packages, and what gets woven into these. It returns the sources by package and file.
func (g *genModule) generateTests(all []string, natural map[string][]string) map[string]map[string]string {
	w := g.m.w
	res := map[string]map[string]string{}
	source := func(clause, fn string, imports, calls []string) string {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n", clause)
		for _, d := range imports {
			fmt.Fprintf(&b, "import %q\n", d)
			calls = append(calls, filepath.Base(d)+".F0()")
		}
		fmt.Fprintf(&b, "\nfunc %s() {\n\tprintln(%s)\n}\n", fn, strings.Join(append(calls, "1"), ", "))
		return b.String()
	}
	for range 1 + w.Choose(2) {
		p := all[w.Choose(len(all))]
		if res[p] != nil {
			continue
		}
		name := filepath.Base(p)
		res[p] = map[string]string{}
		internal := w.Choose(4)
		if internal > 0 {
			var imports []string
			for _, o := range all {
				if !reaches(natural, o, p) && !strings.Contains(o, "/internal/") && w.Chance(4) {
					imports = append(imports, o)
				}
			}
			res[p]["a_test.go"] = source(name, "TestIn", imports, []string{"F0()"})
			if w.Chance(3) {
				res[p]["b_test.go"] = source(name, "TestMore", nil, []string{"F0()"})
			}
		}
		if internal == 0 || w.Chance(2) {
			var imports []string
			for _, o := range all {
				if o == p && !w.Chance(4) || o != p && !strings.Contains(o, "/internal/") && w.Chance(4) {
					imports = append(imports, o)
				}
			}
			res[p]["x_test.go"] = source(name+"_test", "TestOut", imports, nil)
			if w.Chance(3) {
				g.weaves = append(g.weaves, weave{target: p + "_test", dep: all[w.Choose(len(all))], kind: sim.Pick(w, "import", "link", "blank", "decl"), fn: "TestOut"})
			}
		}
		g.tested = append(g.tested, p)
	}
	if w.Chance(3) {
		g.weaves = append(g.weaves, weave{target: testMain, dep: all[w.Choose(len(all))], kind: sim.Pick(w, "import", "link", "blank", "decl"), fn: "main"})
	}
	sort.Strings(g.tested)
	return res
}

// configure writes the configuration.
func (g *genModule) configure() {
	m := g.m
	var own, other bytes.Buffer
	for i, wv := range g.weaves {
		if wv.off {
			continue
		}
		out := &own
		if wv.other {
			out = &other
		}
		id := fmt.Sprintf("w%d", i)
		base := filepath.Base(wv.dep)
		var scope string
		rel := strings.TrimPrefix(wv.target, modPath+"/")
		switch wv.scope {
		case 0, 1:
			scope = "        - import-path: " + wv.target + "\n"
		case 2:
			scope = "        - package-filter: '" + []string{wv.target, "**/" + rel, "example.com/*/" + rel}[i%3] + "'\n"
		case 3:
			scope = "        - package-filter:\n            root: true\n            pattern: " + rel + "\n"
		case 4:
			scope = "        - one-of:\n            - package-name: " + filepath.Base(rel) + "\n            - import-path: none\n"
		}
		jp := fmt.Sprintf("      all-of:\n%s        - function-body:\n            function:\n              - name: %s\n", scope, wv.fn)
		switch {
		case wv.target == testMain:
			scope = "        - test-main: true\n"
			jp = fmt.Sprintf("      all-of:\n%s        - function-body:\n            function:\n              - name: %s\n", scope, wv.fn)
		case wv.target == modPath && g.tests:
			jp = fmt.Sprintf("      all-of:\n        - import-path: %s\n        - function-body:\n            function:\n              - name: %s\n", modPath, wv.fn)
		case wv.target == modPath:
			jp = fmt.Sprintf("      all-of:\n        - package-name: main\n        - function-body:\n            function:\n              - name: %s\n", wv.fn)
		}
		var adv string
		mark := wv.marker(i)
		switch wv.kind {
		case "import":
			adv = fmt.Sprintf("      - prepend-statements:\n          imports:\n            dep: %s\n          template: _ = dep.F0() + %s\n", wv.dep, mark)
		case "blank":
			adv = fmt.Sprintf("      - add-blank-import: %s\n", wv.dep)
		case "decl":
			lang, more := "", ""
			switch wv.lang {
			case "go1.22":
				lang, more = "          lang: go1.22\n", "for range 3 { n++ }; "
			case "go1.26":
				lang, more = "          lang: go1.26\n", "n += *new(n); "
			}
			adv = fmt.Sprintf("      - inject-declarations:\n%s          imports:\n            dep: %s\n          template: 'func verif%d() int { n := dep.F0() + %s; %sreturn n }'\n", lang, wv.dep, i, mark, more)
		case "assign":
			jp = fmt.Sprintf("      all-of:\n%s        - declaration-of: %s.V%s\n", scope, wv.target, strings.TrimPrefix(wv.fn, "F"))
			adv = fmt.Sprintf("      - assign-value:\n          imports:\n            dep: %s\n          template: dep.F0() + %s\n", wv.dep, mark)
		case "field":
			jp = fmt.Sprintf("      all-of:\n%s        - struct-definition: %s.T%s\n", scope, wv.target, strings.TrimPrefix(wv.fn, "F"))
			if wv.target == modPath {
				jp = fmt.Sprintf("      struct-definition: %s.T0\n", modPath)
			}
			adv = fmt.Sprintf("      - add-struct-field:\n          name: X%s\n          type: %s.T0\n", mark, wv.dep)
		case "args":
			if wv.target == modPath {
				scope = "        - import-path: " + modPath + "\n"
			}
			jp = fmt.Sprintf("      all-of:\n%s        - function-call: %s.Sum0\n", scope, wv.callee)
			adv = fmt.Sprintf("      - append-args:\n          type: int\n          values:\n            - imports:\n                dep: %s\n              template: dep.F0() + %s\n", wv.dep, mark)
		case "link":
			if wv.plain {
				adv = fmt.Sprintf("      - inject-declarations:\n          links:\n            - %s\n          template: var _ = %s\n", wv.dep, mark)
				break
			}
			adv = fmt.Sprintf("      - inject-declarations:\n          links:\n            - %s\n          template: |-\n            //go:linkname __verif_%s_%d %s.F0\n            func __verif_%s_%d() int\n            var _ = %s\n", wv.dep, base, i, wv.dep, base, i, mark)
		case "wrap":
			if wv.target == modPath {
				scope = "        - import-path: " + modPath + "\n"
			}
			jp = fmt.Sprintf("      all-of:\n%s        - function-call: %s.F0\n", scope, wv.callee)
			adv = fmt.Sprintf("      - wrap-expression:\n          imports:\n            wrapper: %s\n          template: wrapper.Wrap0({{ . }} + %s)\n", wv.dep, mark)
		}
		fmt.Fprintf(out, "  - id: %s\n    join-point:\n%s    advice:\n%s", id, jp, adv)
	}
	header := "meta:\n  name: generated\n  description: generated\n"
	aspects := func(b *bytes.Buffer) string {
		if b.Len() == 0 {
			return "aspects: []\n"
		}
		return "aspects:\n" + b.String()
	}
	yml := header
	if other.Len() > 0 {
		yml += "extends:\n  - other.yml\n"
		rawWrite(filepath.Join(m.Dir, "other.yml"), header+aspects(&other))
	}
	rawWrite(filepath.Join(m.Dir, "orchestrion.yml"), yml+aspects(&own))
}

func reaches(graph map[string][]string, from, to string) bool {
	seen := map[string]bool{}
	var visit func(n string) bool
	visit = func(n string) bool {
		if n == to {
			return true
		}
		if seen[n] {
			return false
		}
		seen[n] = true
		return slices.ContainsFunc(graph[n], visit)
	}
	return visit(from)
}

// waits returns which packages have to be built before others can be.
func (g *genModule) waits() map[string][]string {
	graph := map[string][]string{}
	for _, p := range g.m.Pkgs {
		graph[p.Path] = slices.Clone(p.Imports)
	}
	for _, wv := range g.weaves {
		if wv.off || wv.kind == "link" && wv.target != modPath {
			continue
		}
		if !slices.Contains(graph[wv.target], wv.dep) {
			graph[wv.target] = append(graph[wv.target], wv.dep)
		}
	}
	return graph
}

// reachable returns everything that has to be built for the given package to be linked.
func (g *genModule) reachable(root string) map[string]bool {
	graph := g.waits()
	for _, wv := range g.weaves {
		if wv.kind == "link" && !wv.off {
			graph[wv.target] = append(graph[wv.target], wv.dep)
		}
	}
	seen := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		for _, d := range graph[n] {
			visit(d)
		}
	}
	visit(root)
	return seen
}

// hasCycle returns whether packages wait for each other in circles.
func (g *genModule) hasCycle() bool {
	graph := g.waits()
	for p := range g.reachable(modPath) {
		for _, d := range graph[p] {
			if reaches(graph, d, p) {
				return true
			}
		}
	}
	return false
}

// buildRun is one execution of orchestrion go build.
type buildRun struct {
	code     int
	stderr   string
	b        *goBuild
	compiles []*compileRun
	links    []*linkRun
	proc     *sim.Proc
	hung     bool
	took     time.Duration
}

// buildOnce runs a build with its own build cache.
func (g *genModule) buildOnce(cache string, crashable, noFaults bool, disturb func(p *sim.Proc)) *buildRun {
	w, m := g.m.w, g.m
	r := &buildRun{}
	nc, nl, nb := len(m.Compiles), len(m.Links), len(m.Builds)
	var stderr bytes.Buffer
	env := append(slices.Clone(sim.CurProc().Env), "GOCACHE="+cache, "DD_ORCHESTRION_IS_GOMOD_VERSION=true")
	start := w.Now()
	args := []string{orchestrionBin, "go", "build", "-o", filepath.Join(w.Root, "out"), "."}
	if g.raw {
		args = []string{"/sim/bin/go", "build", "-o", filepath.Join(w.Root, "out"), "-toolexec", orchestrionBin + " toolexec", "."}
	}
	if g.tests {
		args = []string{orchestrionBin, "go", "test"}
		if g.raw {
			args = []string{"/sim/bin/go", "test", "-toolexec", orchestrionBin + " toolexec"}
		}
		args = append(args, g.tested...)
	}
	r.proc = w.Spawn(sim.Spec{
		Name: filepath.Base(args[0]), Args: args,
		Dir: m.Dir, Env: env, Stdout: &stderr, Stderr: &stderr, NoFaults: noFaults, Crashable: crashable,
	}, w.Programs[args[0]])
	if disturb != nil {
		disturb(r.proc)
	}
	limit := g.limit
	if limit == 0 {
		limit = 30 * time.Minute
	}
	r.hung = !bounded(limit, r.proc.Wait)
	r.took = w.Now() - start
	r.code, r.stderr = r.proc.ExitCode, stderr.String()
	r.compiles, r.links = m.Compiles[nc:], m.Links[nl:]
	if len(m.Builds) > nb {
		r.b = m.Builds[len(m.Builds)-1]
	}
	w.Logf("build: exit code %d after %v, %d compilations, %s", r.code, r.took, len(r.compiles), short(strings.ReplaceAll(r.stderr, "\n", " | ")))
	return r
}

func (g *genModule) quiet() {
	w := g.m.w
	w.Cfg.PreemptMean, w.Cfg.StallProb, w.Cfg.StepCost = 0, 0, 0
	w.Net.Latency = nil
	g.m.P, g.m.Latency = 1, nil
}

func runBuild(w *sim.World, prop string) {
	w.LabelsGetLost()
	w.Cfg.Horizon = 10 * time.Hour
	g := generate(w, prop == "P05")
	m := g.m

	var ref *buildRun
	if prop != "P05" {
		g.quiet()
		ref = g.buildOnce(filepath.Join(w.Root, "cache0"), false, true, nil)
		if !g.checkBuild(ref, prop, false) {
			return
		}
	}
	swarm(w)
	w.Cfg.StallProb = 0
	m.P = sim.Pick(w, 4, 1, 2, 8)
	m.Latency = nil
	if w.Chance(2) {
		unit := sim.Pick(w, time.Millisecond, 50*time.Millisecond, time.Second)
		m.Latency = func() time.Duration { return time.Duration(w.Choose(5)) * unit }
	}
	cache := filepath.Join(w.Root, "cache1")
	g.raw = w.Chance(3)
	r := g.buildOnce(cache, false, true, nil)
	if !g.checkBuild(r, prop, true) {
		return
	}
	if ref != nil {
		g.compare(ref, r, prop)
	}
}

// checkBuild verifies the outcome of an undisturbed build; it returns false if there is no point in going on.
func (g *genModule) checkBuild(r *buildRun, prop string, chaotic bool) bool {
	w := g.m.w
	if r.hung {
		w.Violate(prop, "hang", "the build has not completed after %v", r.took)
		return false
	}
	// Each package is compiled once.
	count := map[string]int{}
	for _, c := range r.compiles {
		key := c.Path + " " + c.BuildID
		if count[key]++; count[key] == 2 {
			w.Violate(prop, "built-twice", "%s was compiled more than once in the same build", c.Path)
		}
	}
	cycle := g.hasCycle()
	broken := g.broken != "" && g.reachable(modPath)[g.broken]
	saysCycle := strings.Contains(r.stderr, "cycle detected")
	switch {
	case r.code != 0 && !cycle && !broken:
		class := "build-failed"
		if saysCycle {
			class = "false-cycle"
		}
		w.Violate(prop, class, "a correct build failed: %s", r.stderr)
		return false
	case r.code != 0 && !cycle && saysCycle:
		w.Violate(prop, "false-cycle", "a build without any cycle failed: %s", r.stderr)
		return false
	case r.code == 0 && cycle:
		w.Violate(prop, "cycle-missed", "a build with circular dependencies succeeded")
		return false
	case cycle && !saysCycle && !broken:
		w.Violate(prop, "cycle-not-reported", "a build with circular dependencies failed for another reason: %s", r.stderr)
		return false
	case r.code == 0 && broken:
		w.Violate(prop, "broken-built", "the build succeeded, although %s does not compile", g.broken)
		return false
	case r.code != 0 && broken:
		if !strings.Contains(r.stderr, "undefined: undefined") && !cycle {
			w.Violate(prop, "reason-lost", "the build failed, but does not say that %s does not compile: %s", g.broken, r.stderr)
		}
		w.Count("build-broken")
		return true
	case cycle:
		w.Count("build-cycle")
		return true
	}
	w.Count("build-ok")
	if r.b == nil || r.b.Image == "" {
		w.Violate(prop, "no-output", "the build succeeded without any output")
		return false
	}
	g.checkCompiles(r.compiles, prop)
	for p := range g.reachable(modPath) {
		name := p
		if p == modPath {
			name = "main"
		}
		if !strings.Contains("\n"+r.b.Image, "\n"+name+" ") {
			w.Violate(prop, "not-linked", "%s is not part of the program", p)
		}
	}
	return true
}

// checkCompiles verifies that everything that has to be woven is.
func (g *genModule) checkCompiles(compiles []*compileRun, prop string) {
	w := g.m.w
	for _, c := range compiles {
		pkg := g.m.Pkgs[c.Path]
		if g.tests {
			pkg = g.all[c.Path]
		}
		if pkg == nil || !c.OK || c.Variant && pkg.Main != "" {
			continue // what only exists to have other packages built
		}
		into := func(wv *weave) bool {
			return !wv.off && (wv.target == pkg.Path || wv.target == testMain && pkg.Main != "")
		}
		exp := slices.Clone(pkg.Imports)
		for i := range g.weaves {
			if wv := &g.weaves[i]; wv.kind != "link" && into(wv) && !slices.Contains(exp, wv.dep) {
				exp = append(exp, wv.dep)
			}
		}
		sort.Strings(exp)
		var missing, extra []string
		for _, i := range exp {
			if !slices.Contains(c.Imports, i) {
				missing = append(missing, i)
			}
		}
		for _, i := range c.Imports {
			if !slices.Contains(exp, i) {
				extra = append(extra, i)
			}
		}
		if len(missing) > 0 {
			w.Violate(prop, "not-woven", "%s was compiled without importing %v", c.Path, missing)
		}
		if len(extra) > 0 && c.Path != modPath && pkg.Main == "" && !(c.Variant && strings.HasSuffix(pkg.Path, "_test")) {
			w.Violate(prop, "over-woven", "%s was compiled importing %v, too", c.Path, extra)
		}
		for i := range g.weaves {
			wv := &g.weaves[i]
			if wv.kind == "blank" {
				continue
			}
			got, exp := 0, 0
			for _, src := range c.Files {
				got += strings.Count(src, wv.marker(i))
			}
			if into(wv) {
				exp = 1
				if wv.callee != "" {
					exp = 0
					for _, file := range pkg.Files {
						exp += strings.Count(readFile(file), filepath.Base(wv.callee)+map[string]string{"wrap": ".F0(", "args": ".Sum0("}[wv.kind])
					}
				}
			}
			// What is woven may match a join point, too.
			if got < exp || got > exp && (exp == 0 || wv.callee == "") {
				w.Violate(prop, "not-woven", "what weave %d adds to %s was compiled as part of %s %d times rather than %d", i, wv.target, c.Path, got, exp)
			}
		}
	}
}

// linkedWith returns the packages that are linked with a test of the given package, by import path.
func (g *genModule) linkedWith(p string) map[string]bool {
	res := map[string]bool{}
	var visit func(path string)
	visit = func(path string) {
		if res[path] {
			return
		}
		res[path] = true
		for _, id := range []string{path, path + " [" + p + ".test]"} {
			if pkg := g.all[id]; pkg != nil && (id != path+"_test" || path == p) {
				for _, d := range pkg.Imports {
					visit(d)
				}
			}
		}
		for _, wv := range g.weaves {
			if wv.target == path || wv.target == testMain && path == p+".test" {
				visit(wv.dep)
			}
		}
	}
	visit(p + ".test")
	return res
}

// conflict returns whether something that was woven into what is linked with a test of the given package imports packages that
// would have to be built once more for the package under test. The go command does not know of these imports.
func (g *genModule) conflict(p string) bool {
	if len(g.m.Pkgs[p].TestFiles) == 0 {
		return false
	}
	natural := map[string][]string{}
	for _, pkg := range g.m.Pkgs {
		natural[pkg.Path] = pkg.Imports
	}
	linked := g.linkedWith(p)
	for _, wv := range g.weaves {
		if wv.kind == "link" || wv.target != testMain && !linked[wv.target] || !reaches(natural, wv.dep, p) {
			continue
		}
		imports := g.m.Pkgs[p].Imports
		for _, id := range []string{wv.target, wv.target + " [" + p + ".test]"} {
			if pkg := g.all[id]; pkg != nil {
				imports = pkg.Imports
			}
		}
		if wv.target == testMain {
			imports = g.all[p+".test"].Imports
		}
		if !slices.Contains(imports, wv.dep) {
			return true
		}
	}
	return false
}

// checkTests verifies the outcome of building tests; it returns false if there is no point in going on.
func (g *genModule) checkTests(r *buildRun, prop string) bool {
	w := g.m.w
	if r.hung {
		w.Violate(prop, "hang", "the build has not completed after %v", r.took)
		return false
	}
	count := map[string]int{}
	for _, c := range r.compiles {
		key := c.Path + " " + c.BuildID
		if count[key]++; count[key] == 2 {
			w.Violate(prop, "built-twice", "%s was compiled more than once in the same build", c.Path)
		}
	}
	g.checkCompiles(r.compiles, prop)
	if r.b == nil {
		w.Violate(prop, "build-failed", "the tests were not built: %s", r.stderr)
		return false
	}
	if len(g.tested) > 0 && len(r.b.Failed)+len(r.b.Images) == 0 {
		w.Violate(prop, "build-failed", "the tests were not built: %s", r.stderr)
		return false
	}
	failed := false
	for _, p := range g.tested {
		linked, msg := g.linkedWith(p), r.b.Failed[p]
		broken, conflict := g.broken != "" && linked[g.broken], g.conflict(p)
		failed = failed || msg != ""
		switch {
		case msg != "" && (strings.Contains(msg, "fingerprint mismatch") || strings.Contains(msg, "relocation target") || strings.Contains(msg, "cannot find package")):
			w.Violate(prop, "inconsistent", "the test of %s does not link: %s", p, msg)
		case msg == "" && broken:
			w.Violate(prop, "broken-built", "the test of %s was built, although %s does not compile", p, g.broken)
		case msg != "" && broken:
			w.Count("build-broken")
			if !conflict && !strings.Contains(r.stderr, "undefined: undefined") {
				w.Violate(prop, "reason-lost", "the test of %s was not built, but it does not say that %s does not compile: %s", p, g.broken, msg)
			}
		case msg != "" && conflict:
			w.Count("build-conflict")
			if !strings.Contains(msg, "requires a test variant") {
				w.Violate(prop, "conflict-not-reported", "the test of %s was not built for another reason than woven dependencies on it: %s", p, msg)
			}
		case msg != "":
			w.Violate(prop, "build-failed", "building a correct test of %s failed: %s", p, msg)
		default:
			w.Count("build-ok")
			for _, l := range sim.SortedKeys(linked) {
				if l == p+".test" {
					l = "main"
				}
				if !strings.Contains("\n"+r.b.Images[p], "\n"+l+" ") {
					w.Violate(prop, "not-linked", "%s is not part of the test of %s", l, p)
				}
			}
		}
	}
	if failed != (r.code != 0) {
		w.Violate(prop, "exit-code", "the exit code is %d: %s", r.code, r.stderr)
	}
	return true
}

// runBuildTests simulates building the tests of packages.
func runBuildTests(w *sim.World) {
	const prop = "P16"
	w.LabelsGetLost()
	w.Cfg.Horizon = 10 * time.Hour
	g := generateWith(w, false, true)
	m := g.m
	g.quiet()
	ref := g.buildOnce(filepath.Join(w.Root, "cache0"), false, true, nil)
	if !g.checkTests(ref, prop) {
		return
	}
	swarm(w)
	w.Cfg.StallProb = 0
	m.P = sim.Pick(w, 4, 1, 2, 8)
	m.Latency = nil
	if w.Chance(2) {
		unit := sim.Pick(w, time.Millisecond, 50*time.Millisecond, time.Second)
		m.Latency = func() time.Duration { return time.Duration(w.Choose(5)) * unit }
	}
	g.raw = w.Chance(3)
	cache := filepath.Join(w.Root, "cache1")
	if w.Chance(4) {
		// Packages may have been built without tests before.
		g.tests = false
		g.buildOnce(cache, false, true, nil)
		g.tests = true
	}
	r := g.buildOnce(cache, false, true, nil)
	if g.checkTests(r, prop) {
		g.compare(ref, r, prop)
	}
}

// compare checks that two builds of the same module produced the same.
func (g *genModule) compare(a, b *buildRun, prop string) {
	w := g.m.w
	if a.code != b.code {
		w.Violate(prop, "different-outcome", "one build exited with %d, another with %d: %s / %s", a.code, b.code, a.stderr, b.stderr)
		return
	}
	if a.code != 0 && !g.tests {
		return
	}
	for _, p := range g.tested {
		if (a.b.Failed[p] == "") != (b.b.Failed[p] == "") {
			w.Violate(prop, "different-outcome", "building the test of %s depends on the schedule: %s / %s", p, a.b.Failed[p], b.b.Failed[p])
		}
		if a.b.Images[p] != b.b.Images[p] {
			w.Violate(prop, "different-program", "two builds of the same sources produced different tests:\n%s\n%s", a.b.Images[p], b.b.Images[p])
		}
	}
	var paths []string
	for p := range a.b.Archives {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		x, y := a.b.Archives[p], b.b.Archives[p]
		if filepath.Base(x) != filepath.Base(y) {
			w.Violate(prop, "different-archive", "the archives of %s differ between builds of the same sources: %s", p, g.diff(a, b, p))
			return
		}
	}
	if a.b.Image != b.b.Image {
		w.Violate(prop, "different-program", "two builds of the same sources produced different programs:\n%s\n%s", a.b.Image, b.b.Image)
	}
}

// diff explains the difference of what was compiled.
func (g *genModule) diff(a, b *buildRun, path string) string {
	find := func(r *buildRun) *compileRun {
		for _, c := range r.compiles {
			if c.Path == path {
				return c
			}
		}
		return &compileRun{}
	}
	x, y := find(a), find(b)
	var names []string
	for n := range x.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if x.Files[n] != y.Files[n] {
			return fmt.Sprintf("%s is\n%s\nrather than\n%s", n, y.Files[n], x.Files[n])
		}
	}
	if !slices.Equal(x.Imports, y.Imports) {
		return fmt.Sprintf("imports %v rather than %v", y.Imports, x.Imports)
	}
	return "the compiled sources are the same"
}

func isArchive(path string) bool {
	base := filepath.Base(path)
	return strings.HasSuffix(base, ".a") || strings.HasSuffix(base, "-d") || strings.HasPrefix(base, "link.deps")
}

func isConfig(path string) bool {
	base := filepath.Base(path)
	return strings.Contains(base, "importcfg") || strings.HasSuffix(base, ".yml") || base == "orchestrion.tool.go" || base == "go.mod"
}

func isSource(path string) bool { return strings.HasSuffix(path, ".go") }

// runBuildFaults simulates builds during which I/O operations fail, or everything is killed, and builds that come after.
func runBuildFaults(w *sim.World, tests bool) {
	const prop = "P14"
	w.LabelsGetLost()
	w.Cfg.Horizon = 20 * time.Hour
	g := generateWith(w, false, tests)
	m := g.m
	g.quiet()
	ops := w.FS.Ops
	ref := g.buildOnce(filepath.Join(w.Root, "cache0"), false, true, nil)
	if tests && !g.checkTests(ref, prop) || !tests && !g.checkBuild(ref, prop, false) {
		return
	}
	ops = w.FS.Ops - ops
	swarm(w)
	w.Cfg.StallProb = 0
	m.P = sim.Pick(w, 4, 1, 2, 8)
	m.Latency = nil
	if w.Chance(2) {
		unit := sim.Pick(w, time.Millisecond, 50*time.Millisecond, time.Second)
		m.Latency = func() time.Duration { return time.Duration(w.Choose(5)) * unit }
	}
	cache := filepath.Join(w.Root, "cache1")
	g.raw = w.Chance(3)
	harness := sim.CurProc()
	for range 1 + w.Choose(2) {
		before := w.FS.Fired()
		killed := false
		var disturb func(p *sim.Proc)
		if w.Chance(4) {
			after := w.FS.Ops + 1 + w.Choose(ops)
			now := make(chan struct{}, 1)
			w.FS.Record = func(p *sim.Proc, op, path, kind string) {
				if w.FS.Ops == after {
					now <- struct{}{}
				}
			}
			disturb = func(p *sim.Proc) {
				over := make(chan struct{})
				p.OnExit(func() { close(over) })
				sim.GoNamed("killer", func() {
					if i, _, _ := sim.Select(false, sim.R(now), sim.R(over)); i == 1 || p.Dead() {
						return
					}
					killed = true
					w.Count("fault:kill-everything")
					for _, o := range w.Procs() {
						if o != harness && !o.Dead() {
							o.Kill("everything is killed")
						}
					}
				})
			}
		} else {
			w.FS.Cfg.Mean = sim.Pick(w, 100, 400, 1500)
			w.FS.Cfg.Max = before + 1 + w.Choose(3)
			w.FS.Cfg.Kinds = map[string]bool{"err": true, "short": true, "bad": true, "delay": true}
			w.FS.Cfg.Filter = nil
			switch w.Choose(8) {
			case 0, 1:
				w.FS.Cfg.Mean = 0
			case 2, 3, 4, 5:
				// What happens to one kind of file is looked at more closely.
				about := sim.Pick(w, isArchive, isConfig, isSource)
				w.FS.Cfg.Mean = sim.Pick(w, 2, 8, 30, 100)
				w.FS.Cfg.Filter = func(p *sim.Proc, op, path string) bool { return about(path) }
				if w.Chance(2) {
					// So is what happens when one package is built, or linked.
					which := modPath
					if !w.Chance(2) || tests {
						which = sim.Pick(w, sim.SortedKeys(g.m.Pkgs)...)
					}
					w.FS.Cfg.Mean = sim.Pick(w, 2, 4, 8, 30)
					w.FS.Cfg.Filter = func(p *sim.Proc, op, path string) bool {
						ip, _ := p.Getenv("TOOLEXEC_IMPORTPATH")
						ip, _, _ = strings.Cut(ip, " ")
						return about(path) && (ip == which || tests && (ip == which+".test" || ip == which+"_test"))
					}
				}
			}
		}
		loadFailed := false
		if w.Chance(3) {
			mean := sim.Pick(w, 3, 10, 40)
			m.BreakLoad = func(cfg *packages.Config, patterns []string) error {
				if loadFailed || !w.Chance(mean) {
					return nil
				}
				loadFailed = true
				w.Count("fault:packages.Load:err")
				w.Logf("packages.Load of %q fails", patterns)
				return errors.New("err: fork/exec /sim/bin/go: cannot allocate memory: stderr: ")
			}
		}
		r := g.buildOnce(cache, false, false, disturb)
		w.FS.Cfg.Mean, w.FS.Cfg.Filter, w.FS.Record, m.BreakLoad = 0, nil, nil, nil
		fired := w.FS.Fired() > before || loadFailed
		switch {
		case r.hung:
			w.Violate(prop, "hang", "the build has not completed after %v", r.took)
			return
		case killed:
		case r.code == 0 || !fired:
			w.Count("build-done")
			g.compare(ref, r, prop)
		default:
			w.Count("build-failed")
			if strings.TrimSpace(r.stderr) == "" {
				w.Violate(prop, "silent", "the build failed without saying why")
			}
			for _, p := range g.tested {
				if r.b != nil && r.b.Images[p] != "" && r.b.Images[p] != ref.b.Images[p] {
					w.Violate(prop, "different-program", "a failure made the test of %s another program:\n%s\n%s", p, ref.b.Images[p], r.b.Images[p])
				}
			}
		}
		for _, o := range w.Procs() {
			if o.Panic != "" {
				w.Violate(prop, "panic", "%s panicked: %s", o.Name, o.Panic)
				return
			}
		}
	}
	// What failed does not matter to later builds.
	if w.Chance(2) {
		g.raw = !g.raw
	}
	r := g.buildOnce(cache, false, true, nil)
	if r.hung {
		w.Violate(prop, "hang", "a later build has not completed after %v", r.took)
		return
	}
	g.compare(ref, r, prop)
	w.Count("build-again")
	if ref.code != 0 {
		return
	}
	// Nothing has to be built once more.
	again := g.buildOnce(cache, false, true, nil)
	if again.hung {
		w.Violate(prop, "hang", "a later build has not completed after %v", again.took)
		return
	}
	g.compare(ref, again, prop)
	for _, c := range again.compiles {
		w.Violate(prop, "not-cached", "%s was compiled again although nothing changed", c.Path)
	}
}

// runBuildLeftovers simulates builds, and looks at what is left of them when they are over.
func runBuildLeftovers(w *sim.World) {
	const prop = "P15"
	w.LabelsGetLost()
	w.Cfg.Horizon = 60 * time.Hour
	g := generate(w, w.Chance(4))
	g.limit = 12 * time.Hour
	m := g.m
	swarm(w)
	w.Cfg.StallProb, w.Cfg.StepCost = 0, 0
	m.P = sim.Pick(w, 4, 1, 2, 8)
	if w.Chance(2) {
		unit := sim.Pick(w, time.Millisecond, 50*time.Millisecond, time.Second, time.Minute)
		m.Latency = func() time.Duration { return time.Duration(w.Choose(5)) * unit }
	}
	tmp := filepath.Join(w.Root, "tmp")
	rawWrite(filepath.Join(tmp, "keep"), "")
	harness := sim.CurProc()
	cache := filepath.Join(w.Root, "cache1")
	for range 1 + w.Choose(2) {
		g.raw = w.Chance(3)
		m.ToolFails, m.BreakLoad = nil, nil
		if w.Chance(4) {
			mean := sim.Pick(w, 1, 3, 10)
			m.BreakLoad = func(cfg *packages.Config, patterns []string) error {
				if !w.Chance(mean) {
					return nil
				}
				w.Count("fault:packages.Load:err")
				return errors.New("err: fork/exec /sim/bin/go: cannot allocate memory: stderr: ")
			}
		}
		if w.Chance(3) {
			mean := sim.Pick(w, 2, 6)
			m.ToolFails = func(tool, path string) string {
				if w.Chance(mean) {
					return tool + " was made to fail"
				}
				return ""
			}
		}
		r := g.buildOnce(cache, false, true, nil)
		if r.hung {
			w.Violate(prop, "hang", "the build has not completed after %v", r.took)
			return
		}
		if r.code == 0 {
			w.Count("build-ok")
		} else {
			w.Count("build-failed")
		}
		what := "orchestrion go build"
		if g.raw {
			what = "a job server started by orchestrion toolexec"
			sim.Sleep(2 * time.Hour)
		}
		for _, p := range w.Procs() {
			if p != harness && !p.Dead() {
				w.Violate(prop, "process-left", "%s still runs after the build is over: %q", p.Name, p.Args)
			}
		}
		if n := w.Net.Listeners(); n > 0 {
			w.Violate(prop, "listener-left", "%d servers still listen after the build is over", n)
		}
		for _, f := range listing(tmp) {
			if strings.HasPrefix(f, "orchestrion") || strings.HasPrefix(f, "go-build") {
				w.Violate(prop, "file-left", "%s left %s behind in the directory for temporary files", what, f)
				return
			}
		}
	}
}

// runBuildChanges simulates builds of changing sources and configurations, which re-use the results of earlier ones.
func runBuildChanges(w *sim.World) {
	const prop = "P04"
	w.LabelsGetLost()
	w.Cfg.Horizon = 20 * time.Hour
	g := generate(w, false)
	m := g.m
	for i := range g.weaves {
		g.weaves[i].off = w.Chance(3)
	}
	g.configure()
	cache := filepath.Join(w.Root, "cache1")
	rounds := 2 + w.Choose(2)
	for i := range rounds {
		if i > 0 {
			for range 1 + w.Choose(2) {
				g.change()
			}
		}
		swarm(w)
		w.Cfg.StallProb = 0
		m.P = sim.Pick(w, 4, 1, 2, 8)
		m.Latency = nil
		if w.Chance(2) {
			unit := sim.Pick(w, time.Millisecond, 50*time.Millisecond, time.Second)
			m.Latency = func() time.Duration { return time.Duration(w.Choose(5)) * unit }
		}
		g.raw = w.Chance(3)
		r := g.buildOnce(cache, false, true, nil)
		g.quiet()
		raw := g.raw
		g.raw = false
		ref := g.buildOnce(filepath.Join(w.Root, fmt.Sprint("cache-ref", i)), false, true, nil)
		g.raw = raw
		if !g.checkBuild(ref, prop, false) || r.hung {
			w.Violate(prop, "reference", "the build from scratch failed: %s", ref.stderr)
			return
		}
		g.compare(ref, r, prop)
		if r.code == 0 && w.Chance(3) {
			again := g.buildOnce(cache, false, true, nil)
			g.compare(ref, again, prop)
			for _, c := range again.compiles {
				w.Violate(prop, "not-cached", "%s was compiled again although nothing changed", c.Path)
			}
		}
	}
}

// change modifies sources or configuration.
func (g *genModule) change() {
	w, m := g.m.w, g.m
	edit := func(path string, fn func(string) string) {
		file := m.Pkgs[path].Files[0]
		src, _ := rawRead(file)
		rawWrite(file, fn(src))
		w.Logf("change: %s of %s", filepath.Base(file), path)
	}
	some := sim.SortedKeys(m.Pkgs)
	path := some[w.Choose(len(some))]
	kind := w.Choose(10)
	if kind >= 4 && len(g.weaves) == 0 {
		kind %= 4
	}
	var wv *weave
	if kind >= 4 {
		wv = &g.weaves[w.Choose(len(g.weaves))]
		if w.Chance(3) {
			path = wv.dep
		}
	}
	switch kind {
	case 0: // what a function returns, which is inlined
		edit(path, func(s string) string {
			return strings.Replace(s, "\treturn ", fmt.Sprintf("\treturn %d + ", 1+w.Choose(9)), 1)
		})
	case 1: // what can be imported
		g.serial++
		edit(path, func(s string) string { return s + fmt.Sprintf("\nfunc New%d() int { return 1 }\n", g.serial) })
	case 2: // what a woven function returns
		if len(g.weaves) > 0 {
			path = g.weaves[w.Choose(len(g.weaves))].dep
		}
		edit(path, func(s string) string {
			return strings.Replace(s, "\treturn ", fmt.Sprintf("\treturn %d + ", 1+w.Choose(9)), 1)
		})
	case 3: // whether it compiles
		if g.broken != "" {
			m.Pkgs[g.broken].Broken = false
			edit(g.broken, func(s string) string { return strings.Replace(s, "\nfunc broken() int { return undefined }\n", "", 1) })
			g.broken = ""
		} else if w.Chance(3) {
			g.broken = path
			m.Pkgs[path].Broken = true
			edit(path, func(s string) string { return s + "\nfunc broken() int { return undefined }\n" })
		}
	case 4, 5: // what is woven
		wv.off = !wv.off
		w.Logf("change: weaving %s into %s: %v", wv.dep, wv.target, !wv.off)
	case 6: // how it is woven
		wv.version++
		wv.off = false
		w.Logf("change: how %s is woven into %s", wv.dep, wv.target)
	case 7: // where that is configured, and how
		if w.Chance(2) {
			wv.scope = w.Choose(5)
			w.Logf("change: how %s is described, into which %s is woven", wv.target, wv.dep)
			break
		}
		wv.other = !wv.other
		w.Logf("change: the file that says that %s is woven into %s", wv.dep, wv.target)
	case 8: // where it is woven
		if wv.callee == "" && wv.kind != "assign" && wv.target != modPath {
			wv.fn = fmt.Sprintf("F%d", w.Choose(len(m.Pkgs[wv.target].Files)))
			w.Logf("change: %s is woven into %s of %s", wv.dep, wv.fn, wv.target)
		}
	case 9: // which package is woven
		dep := some[w.Choose(len(some))]
		graph := map[string][]string{}
		for _, p := range m.Pkgs {
			graph[p.Path] = slices.Clone(p.Imports)
		}
		for _, o := range g.weaves {
			if o.kind != "link" {
				graph[o.target] = append(graph[o.target], o.dep)
			}
		}
		if dep == wv.target || dep == modPath || wv.kind != "link" && reaches(graph, dep, wv.target) {
			break
		}
		w.Logf("change: %s is woven into %s instead of %s", dep, wv.target, wv.dep)
		wv.dep = dep
	}
	g.configure()
}
