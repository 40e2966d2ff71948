package harness

import (
	"context"
	"encoding/json"
	"fmt"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"

	"github.com/DataDog/orchestrion/internal/goflags"
	"github.com/DataDog/orchestrion/internal/jobserver"
	"github.com/DataDog/orchestrion/internal/jobserver/buildid"
	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/verifsim/sim"
	"github.com/DataDog/orchestrion/internal/verifsim/simpackages"
)

func init() {
	register(&sim.Scenario{Name: "version", Property: "P04", Run: runVersion, Real: append(slices.Clone(realCore), "configuration loading, fingerprints"), Stub: append(slices.Clone(stubCore), "packages.Load (a model of modules and packages)")})
}

// verModule is a module whose packages are woven.
type verModule struct {
	Path, Version string
	Replace       string // "", "local", or a version
	Dir           string
}

// verPkg is a package.
type verPkg struct {
	path              string
	mod               *verModule
	goF, embed, other []string // names
	imports           []string
}

// verSlot is a part of the configuration that may change.
type verSlot struct {
	pool []string
	at   int
}

type verAspect struct {
	id    string
	text  string // YAML with placeholders
	slots []*verSlot
	off   bool
	file  int
}

type verModel struct {
	w       *sim.World
	dir     string
	modPath string // of the main module
	main    *verModule
	mods    []*verModule
	pkgs    map[string]*verPkg
	aspects []*verAspect
	order   []int // of the aspects
	files   []string
	exe     string
	failing int
	failed  bool
}

// ---------------------------------------------------------------------------
// Configurations

type verGen struct {
	w   *sim.World
	m   *verModel
	cur *verAspect
}

// slot adds something that may have any of the given values.
func (g *verGen) slot(pool ...string) string {
	s := &verSlot{pool: pool, at: g.w.Choose(len(pool))}
	g.cur.slots = append(g.cur.slots, s)
	return fmt.Sprintf("\x00%d\x00", len(g.cur.slots)-1)
}

func (g *verGen) str(pool ...string) string {
	quoted := make([]string, len(pool))
	for i, p := range pool {
		b, _ := json.Marshal(p)
		quoted[i] = string(b)
	}
	return g.slot(quoted...)
}

func (g *verGen) inj() []string {
	return []string{"inj.com/local/a", "inj.com/local/b", "inj.com/dep/a", "inj.com/dep/b", "main.com/m/x", "fmt"}
}

func (g *verGen) template() string {
	s := "template: " + g.str("_ = 1", "_ = 2", "_ = {{ .Function.Name }}", "_ = \"1\"\n_ = 3")
	if g.w.Chance(2) {
		s += ", imports: {" + g.slot("imp", "other") + ": " + g.str(g.inj()...)
		if g.w.Chance(3) {
			s += ", third: " + g.str(g.inj()...)
		}
		s += "}"
	}
	if g.w.Chance(3) {
		s += ", lang: " + g.slot("go1.18", "go1.22", "go1.21")
	}
	return s
}

func (g *verGen) typ(pointer bool) string {
	if pointer {
		return g.str("jp.com/a.T", "jp.com/a.U", "jp.com/b.T", "*jp.com/a.T", "string")
	}
	return g.str("jp.com/a.T", "jp.com/a.U", "jp.com/b.T")
}

func (g *verGen) types() string {
	n := g.w.Choose(3)
	parts := make([]string, n)
	for i := range parts {
		parts[i] = g.typ(true)
	}
	return "[" + strings.Join(parts, ", ") + "]"
}

func (g *verGen) joinPoint(depth int) string {
	n := 16
	if depth == 0 {
		n = 10
	}
	switch g.w.Choose(n) {
	case 0:
		return "{" + g.slot("import-path", "package-name", "directive") + ": " + g.str("aa", "bb", "main") + "}"
	case 1:
		return "{configuration: {" + g.slot("k1", "k2") + ": " + g.str("v", "w") + ", kk: " + g.str("x", "y") + "}}"
	case 2:
		return "{" + g.slot("declaration-of", "function-call") + ": " + g.str("jp.com/a.F", "jp.com/a.G", "jp.com/b.F") + "}"
	case 3:
		return "{" + g.slot("value-declaration", "struct-definition") + ": " + g.typ(false) + "}"
	case 4:
		return "{value-declaration: " + g.typ(true) + "}"
	case 5:
		return g.function()
	case 6:
		return "{method-call: {receiver: " + g.typ(false) + ", name: " + g.str("M", "N") + ", match: " + g.slot("any", "pointer-only", "value-only") + "}}"
	case 7:
		return "{package-filter: {root: " + g.slot("true", "false") + ", pattern: " + g.str("a/**", "*", "b") + "}}"
	case 8:
		if g.w.Chance(2) {
			return "{struct-literal: {type: " + g.typ(false) + ", field: " + g.str("A", "B") + ", match: any}}"
		}
		return "{struct-literal: {type: " + g.typ(false) + ", match: " + g.slot("any", "pointer-only", "value-only") + "}}"
	case 9:
		return "{test-main: " + g.slot("true", "false") + "}"
	case 10:
		return "{" + g.slot("not", "function-body") + ": " + g.function() + "}"
	case 11:
		return "{not: " + g.joinPoint(depth-1) + "}"
	case 12:
		return g.slot("{directive: xx}", "{not: {directive: xx}}", "{function: [{name: xx}]}", "{function-body: {function: [{name: xx}]}}", "{all-of: [{directive: xx}, {directive: yy}]}", "{one-of: [{directive: xx}, {all-of: [{directive: yy}, {directive: zz}]}]}", "{one-of: [{all-of: [{directive: xx}, {directive: yy}]}, {directive: zz}]}")
	default:
		parts := []string{g.joinPoint(depth - 1), g.joinPoint(depth - 1)}
		if g.w.Chance(3) {
			parts = append(parts, g.joinPoint(depth-1))
		}
		return "{" + g.slot("all-of", "one-of") + ": [" + strings.Join(parts, ", ") + "]}"
	}
}

func (g *verGen) function() string {
	var opts []string
	for range 1 + g.w.Choose(3) {
		switch g.w.Choose(4) {
		case 0:
			opts = append(opts, "{name: "+g.str("F", "G", "H")+"}")
		case 1:
			opts = append(opts, "{receiver: "+g.slot("true", "false", `"jp.com/a.T"`, `"*jp.com/a.T"`, `"jp.com/b.T"`)+"}")
		case 2:
			opts = append(opts, "{"+g.slot("signature", "signature-contains")+": {args: "+g.types()+", returns: "+g.types()+"}}")
			if g.w.Chance(2) {
				opts = append(opts, "{signature: {"+g.slot("args", "returns")+": [string]}}")
			}
		case 3:
			opts = append(opts, "{"+g.slot("result-implements", "final-result-implements", "argument-implements")+": "+g.str("io.Reader", "error", "io.Writer")+"}")
		}
	}
	return "{function: [" + strings.Join(opts, ", ") + "]}"
}

func (g *verGen) advice() string {
	switch g.w.Choose(8) {
	case 0:
		return "{" + g.slot("assign-value", "wrap-expression") + ": {" + g.template() + "}}"
	case 1:
		s := "{prepend-statements: {" + g.template()
		if g.w.Chance(2) {
			s += ", order: " + g.slot("1", "2", "-1")
		}
		if g.w.Chance(2) {
			s += ", namespace: " + g.str("x", "y")
		}
		return s + "}}"
	case 2:
		return "{append-args: {type: " + g.str("inj.com/local/a.T", "inj.com/dep/a.T", "string") + ", values: [{" + g.template() + "}, {" + g.template() + "}]}}"
	case 3:
		return "{replace-function: " + g.str("inj.com/local/a.F", "inj.com/local/a.G", "inj.com/dep/b.F", "panic") + "}"
	case 4:
		return "{add-blank-import: " + g.str(g.inj()...) + "}"
	case 5, 6:
		s := "{inject-declarations: {" + g.template()
		if g.w.Chance(2) {
			s += ", links: [" + g.str(g.inj()...)
			if g.w.Chance(2) {
				s += ", " + g.str(g.inj()...)
			}
			s += "]"
		}
		return s + "}}"
	default:
		return "{add-struct-field: {name: " + g.str("f", "g") + ", type: " + g.str("inj.com/local/b.T", "*inj.com/local/b.T", "string") + "}}"
	}
}

func (g *verGen) aspect(i int) *verAspect {
	a := &verAspect{file: g.w.Choose(len(g.m.files))}
	g.cur = a
	a.text = "id: " + g.str(fmt.Sprint("id", i), fmt.Sprint("new", i)) + ", "
	if g.w.Chance(3) {
		a.text += "tracer-internal: " + g.slot("true", "false") + ", "
	}
	a.text += "join-point: " + g.joinPoint(2) + ", advice: "
	if g.w.Chance(2) {
		a.text += g.advice()
	} else {
		var list []string
		for range 1 + g.w.Choose(3) {
			list = append(list, g.advice())
		}
		a.text += "[" + strings.Join(list, ", ") + "]"
	}
	return a
}

func (a *verAspect) render() string {
	s := a.text
	for i, sl := range a.slots {
		s = strings.ReplaceAll(s, fmt.Sprintf("\x00%d\x00", i), sl.pool[sl.at])
	}
	return "{" + s + "}"
}

// write stores the configuration; it returns the aspects in their order.
func (m *verModel) write() []string {
	by := make([][]string, len(m.files))
	for _, i := range m.order {
		if a := m.aspects[i]; !a.off {
			by[a.file] = append(by[a.file], a.render())
		}
	}
	var all []string
	for i, f := range m.files {
		yml := "meta: {name: n, description: d}\n"
		if f == "orchestrion.yml" {
			var ext []string
			for _, o := range m.files {
				switch o {
				case "ext.yml":
					ext = append(ext, o)
				case "dir/orchestrion.yml":
					ext = append(ext, "dir")
				}
			}
			if len(ext) > 0 {
				yml += "extends: [" + strings.Join(ext, ", ") + "]\n"
			}
		}
		yml += "aspects: [" + strings.Join(by[i], ",\n  ") + "]\n"
		rawWrite(filepath.Join(m.dir, f), yml)
		all = append(all, by[i]...)
	}
	return all
}

// key identifies everything the identity depends on.
func (m *verModel) key() string {
	aspects := m.write()
	text := strings.Join(aspects, "\n")
	parts := []string{text, m.exe}
	if strings.Contains(text, "root: true") {
		parts = append(parts, m.modPath)
	}
	seen := map[string]bool{}
	var visit func(path string)
	visit = func(path string) {
		p := m.pkgs[path]
		if p == nil || seen[path] {
			return
		}
		seen[path] = true
		for _, i := range p.imports {
			visit(i)
		}
	}
	for path := range m.pkgs {
		if strings.Contains(text, path+`"`) || strings.Contains(text, path+`.`) {
			visit(path)
		}
	}
	for _, path := range sim.SortedKeys(seen) {
		p := m.pkgs[path]
		parts = append(parts, p.mod.Path, p.mod.Version, p.mod.Replace)
		if p.mod.local() {
			for _, f := range p.all() {
				data, _ := rawRead(f)
				parts = append(parts, f, data)
			}
		}
	}
	return sum(parts...)
}

func (v *verModule) local() bool { return v.Version == "" || v.Replace == "local" }

func (p *verPkg) all() []string {
	var res []string
	for _, l := range [][]string{p.goF, p.embed, p.other} {
		res = append(res, p.abs(l)...)
	}
	return res
}

func (p *verPkg) abs(list []string) []string {
	res := make([]string, len(list))
	for i, f := range list {
		res[i] = filepath.Join(p.mod.Dir, strings.TrimPrefix(p.path, p.mod.Path), f)
	}
	return res
}

// load is the model of packages.Load.
func (m *verModel) load(_ *sim.Proc, cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	w := m.w
	if w.Chance(3) {
		sim.Sleep(time.Duration(w.Choose(20)) * 50 * time.Millisecond)
	}
	if m.failing > 0 && w.Chance(m.failing) {
		m.failed = true
		w.Count("fault:packages.Load:err")
		return nil, fmt.Errorf("err: exit status 1: stderr: go: cannot allocate memory")
	}
	made := map[string]*packages.Package{}
	var mk func(path string) *packages.Package
	mk = func(path string) *packages.Package {
		if r := made[path]; r != nil {
			return r
		}
		r := &packages.Package{ID: path, PkgPath: path, Name: filepath.Base(path), Imports: map[string]*packages.Package{}}
		made[path] = r
		p := m.pkgs[path]
		switch {
		case p != nil:
			mod := &packages.Module{Path: p.mod.Path, Version: p.mod.Version, Dir: p.mod.Dir}
			if p.mod.Replace == "local" {
				mod.Replace = &packages.Module{Path: "./local", Dir: p.mod.Dir}
			} else if p.mod.Replace != "" {
				mod.Replace = &packages.Module{Path: p.mod.Path + ".fork", Version: p.mod.Replace}
			}
			r.Module = mod
			r.GoFiles, r.EmbedFiles, r.OtherFiles = p.abs(p.goF), p.abs(p.embed), p.abs(p.other)
			if w.Chance(2) {
				slices.Reverse(r.GoFiles)
			}
			for _, i := range p.imports {
				r.Imports[i] = mk(i)
			}
		case path == "github.com/DataDog/orchestrion":
			r.Module = &packages.Module{Path: path, Version: "v1.99.0"}
			r.GoFiles = []string{filepath.Join(m.w.Root, "orchestrion", "main.go")}
		case path == m.modPath:
			r.GoFiles = []string{filepath.Join(m.dir, "main.go")}
			r.Module = &packages.Module{Path: m.modPath, Dir: m.dir, Main: true}
		case path == "cfg.com/c":
			r.GoFiles = []string{filepath.Join(m.dir, "cfg", "c.go")}
		case path == m.modPath+"/dir":
			r.GoFiles = []string{filepath.Join(m.dir, "dir", "d.go")}
		case !strings.Contains(path, "."): // standard library
			r.GoFiles = []string{"/sim/goroot/src/" + path + "/x.go"}
		default:
			r.Errors = []packages.Error{{Msg: "no required module provides package " + path}}
		}
		return r
	}
	var res []*packages.Package
	for _, pat := range patterns {
		switch pat {
		case ".":
			pat = m.modPath
		case filepath.Join(m.dir, "dir"), "dir":
			pat = m.modPath + "/dir"
		}
		res = append(res, mk(pat))
	}
	if len(res) > 1 && cfg.Mode&packages.NeedDeps != 0 && w.Chance(2) {
		slices.Reverse(res)
	}
	return res, nil
}

// change modifies one of the inputs.
func (m *verModel) change() {
	w := m.w
	switch kind := w.Choose(14); kind {
	case 0: // whether something is configured
		a := m.aspects[w.Choose(len(m.aspects))]
		a.off = !a.off
		w.Logf("change: an aspect is switched")
	case 1: // the order of aspects
		i := w.Choose(len(m.order))
		j := w.Choose(len(m.order))
		m.order[i], m.order[j] = m.order[j], m.order[i]
		w.Logf("change: the order of aspects")
	case 2, 3: // the sources of what is woven
		var local []*verPkg
		for _, path := range sim.SortedKeys(m.pkgs) {
			if p := m.pkgs[path]; p.mod.local() {
				local = append(local, p)
			}
		}
		p := local[w.Choose(len(local))]
		files := p.all()
		f := files[w.Choose(len(files))]
		switch w.Choose(6) {
		case 0:
			name := fmt.Sprintf("new%d.go", w.Choose(100))
			p.goF = append(p.goF, name)
			p.goF = slices.Compact(p.goF)
			rawWrite(p.abs([]string{name})[0], "package x\n")
			w.Logf("change: %s is added to %s", name, p.path)
		case 1: // exchange the contents of files
			o := files[w.Choose(len(files))]
			x, _ := rawRead(f)
			y, _ := rawRead(o)
			rawWrite(f, y)
			rawWrite(o, x)
			w.Logf("change: contents of %s and %s are exchanged", f, o)
		case 2:
			data, _ := rawRead(f)
			rawWrite(f, data[:len(data)-1]+string(rune('a'+w.Choose(26))))
			w.Logf("change: end of %s", f)
		default:
			data, _ := rawRead(f)
			rawWrite(f, fmt.Sprint(w.Choose(10))+data[1:])
			w.Logf("change: beginning of %s", f)
		}
	case 4: // the versions of what is woven
		v := m.mods[w.Choose(len(m.mods))]
		if w.Chance(2) {
			v.Version = fmt.Sprintf("v1.%d.0", w.Choose(4))
		} else {
			v.Replace = sim.Pick(w, "", "local", "v1.0.1", "v1.0.2")
		}
		w.Logf("change: %s is %s, replaced by %q", v.Path, v.Version, v.Replace)
	case 5: // orchestrion
		if w.Chance(2) {
			m.exe = fmt.Sprint("orchestrion binary ", w.Choose(5), strings.Repeat(".", w.Choose(2)*40000))
			rawWrite(filepath.Join(w.Root, "orchestrion.exe"), m.exe)
			w.Logf("change: orchestrion")
			break
		}
		m.modPath = sim.Pick(w, "main.com/m", "main.com/n")
		w.Logf("change: the main module is %s", m.modPath)
	default: // the configuration
		a := m.aspects[w.Choose(len(m.aspects))]
		s := a.slots[w.Choose(len(a.slots))]
		old := s.pool[s.at]
		s.at = w.Choose(len(s.pool))
		w.Logf("change: %s becomes %s in %s", old, s.pool[s.at], a.render())
	}
}

func runVersion(w *sim.World) {
	const prop = "P04"
	w.Cfg.Horizon = 20 * time.Hour
	swarm(w)
	m := &verModel{w: w, dir: filepath.Join(w.Root, "m"), modPath: "main.com/m", pkgs: map[string]*verPkg{}, exe: "orchestrion binary 0"}
	rawWrite(filepath.Join(w.Root, "orchestrion.exe"), m.exe)
	local := &verModule{Path: "inj.com/local", Version: "v0.1.0", Replace: "local", Dir: filepath.Join(w.Root, "local")}
	dep := &verModule{Path: "inj.com/dep", Version: "v1.0.0", Dir: filepath.Join(w.Root, "dep")}
	deep := &verModule{Path: "inj.com/deep", Version: "v1.0.0", Dir: filepath.Join(w.Root, "deep")}
	own := &verModule{Path: "main.com/m", Dir: m.dir}
	m.mods = []*verModule{local, dep, deep}
	for _, path := range []string{"inj.com/local/a", "inj.com/local/b", "inj.com/local/c", "inj.com/dep/a", "inj.com/dep/b", "inj.com/deep/a", "main.com/m/x", "main.com/m/y"} {
		p := &verPkg{path: path, goF: []string{"f.go"}}
		for _, mod := range append(slices.Clone(m.mods), own) {
			if strings.HasPrefix(path, mod.Path+"/") {
				p.mod = mod
			}
		}
		if w.Chance(3) {
			p.goF = append(p.goF, "g.go")
		}
		if w.Chance(3) {
			p.embed = append(p.embed, "e.txt")
		}
		if w.Chance(3) {
			p.other = append(p.other, "o.s")
		}
		for _, f := range p.all() {
			rawWrite(f, content(filepath.Base(f), sim.Pick(w, 20, 100, 40000)))
		}
		for _, q := range sim.SortedKeys(m.pkgs) {
			if w.Chance(4) {
				p.imports = append(p.imports, q)
			}
		}
		if w.Chance(4) {
			p.imports = append(p.imports, "fmt")
		}
		m.pkgs[path] = p
	}
	simpackages.SetLoader(w, m.load)
	m.files = []string{"orchestrion.yml"}
	tool := "import _ \"github.com/DataDog/orchestrion\"\n"
	for _, f := range []string{"ext.yml", "dir/orchestrion.yml", "cfg/orchestrion.yml"} {
		if w.Chance(3) {
			m.files = append([]string{f}, m.files...)
			rawWrite(filepath.Join(m.dir, "dir", "d.go"), "package dir\n")
			if f == "cfg/orchestrion.yml" {
				tool += "import _ \"cfg.com/c\"\n"
				rawWrite(filepath.Join(m.dir, "cfg", "c.go"), "package c\n")
			}
		}
	}
	sort.Slice(m.files, func(i, j int) bool { return verRank(m.files[i]) < verRank(m.files[j]) })
	rawWrite(filepath.Join(m.dir, "main.go"), "package main\n")
	rawWrite(filepath.Join(m.dir, "orchestrion.tool.go"), "//go:build tools\n\npackage tools\n\n"+tool)
	gen := &verGen{w: w, m: m}
	for i := range 1 + w.Choose(5) {
		m.aspects = append(m.aspects, gen.aspect(i))
		m.order = append(m.order, i)
	}

	type known struct{ key, value string }
	var all []known
	judge := func(key, value string) bool {
		for _, k := range all {
			switch {
			case k.key == key && k.value != value:
				w.Violate(prop, "unstable", "the same inputs result in two identities: %s and %s", k.value, value)
				return false
			case k.key != key && k.value == value:
				w.Violate(prop, "masked", "different inputs result in the same identity: %s", value)
				return false
			case k.key == key:
				return true
			}
		}
		all = append(all, known{key, value})
		return true
	}
	for range 4 + w.Choose(6) {
		key := m.key()
		faulty := w.Chance(3)
		results, ok := m.server(prop, faulty)
		if !ok {
			return
		}
		if faulty && w.Chance(2) {
			clean, ok := m.server(prop, false)
			if !ok {
				return
			}
			results = append(clean, results...)
		}
		for _, r := range results {
			if !judge(key, r) {
				return
			}
		}
		for range 1 + w.Choose(2) {
			m.change()
		}
	}
}

// verRank returns which configuration files come first.
func verRank(f string) int {
	return slices.Index([]string{"cfg/orchestrion.yml", "ext.yml", "dir/orchestrion.yml", "orchestrion.yml"}, f)
}

// server runs a job server, and returns the identities it hands out.
func (m *verModel) server(prop string, faulty bool) (results []string, ok bool) {
	w := m.w
	srv := &Server{}
	ready := make(chan struct{})
	srv.Proc = w.Spawn(sim.Spec{Name: "server", Dir: m.dir, Env: sim.CurProc().Env}, func(*sim.Proc) int {
		defer func() {
			if srv.URL == "" {
				close(ready)
			}
		}()
		goflags.SetFlags(context.Background(), m.dir, []string{"build"})
		s, err := jobserver.New(context.Background(), nil)
		if err != nil {
			srv.Err = err
			return 1
		}
		srv.S, srv.URL = s, s.ClientURL()
		close(ready)
		s.WaitForShutdown()
		return 0
	})
	sim.Recv(ready)
	if srv.URL == "" {
		w.Violate(prop, "server-start", "job server did not start: %v", srv.Err)
		return nil, false
	}
	before := w.FS.Fired()
	m.failed = false
	if faulty {
		if w.Chance(3) {
			m.failing = sim.Pick(w, 2, 5)
		} else {
			w.FS.Cfg = sim.FaultCfg{Mean: sim.Pick(w, 2, 8, 30), Max: before + 1 + w.Choose(3), Kinds: map[string]bool{"err": true, "short": true, "bad": true},
				// If the orchestrion binary cannot be read, the identity does not depend on it; that is logged, and intended.
				Filter: func(p *sim.Proc, op, path string) bool {
					return p == srv.Proc && filepath.Base(path) != "orchestrion.exe"
				}}
		}
	}
	ask := func(conn *client.Client, who string, mustWork bool) {
		res, err := client.Request(context.Background(), conn, buildid.VersionSuffixRequest{})
		w.Logf("%s: identity of %d bytes, %v", who, len(res), err) // Not the identity itself: it depends on the scratch directory.
		fault := w.FS.Fired() > before || m.failed
		switch {
		case err == nil && res == "":
			w.Violate(prop, "empty", "%s received an empty identity", who)
		case err == nil:
			results = append(results, string(res))
			w.Count("identities")
		case !fault:
			w.Violate(prop, "failed", "%s received an error although nothing failed: %v", who, err)
		case mustWork:
			w.Violate(prop, "failure-remembered", "%s received an error after failures had ceased: %v", who, err)
		default:
			w.Count("identity-errors")
		}
	}
	g := &group{w: w}
	for i := range 1 + w.Choose(4) {
		name := fmt.Sprintf("client%d", i)
		delay := time.Duration(w.Choose(3)*w.Choose(2000)) * time.Millisecond
		n := 1 + w.Choose(2)
		g.spawn(name, false, func(*sim.Proc) int {
			sim.Sleep(delay)
			conn, err := client.Connect(srv.URL)
			if err != nil {
				w.Violate(prop, "connect", "cannot connect to a running job server: %v", err)
				return 1
			}
			defer conn.Close()
			for range n {
				ask(conn, name, false)
			}
			return 0
		})
	}
	if !bounded(time.Hour, g.wait) {
		w.Violate(prop, "unanswered", "requests were not answered within an hour")
		return nil, false
	}
	w.FS.Cfg, m.failing = sim.FaultCfg{}, 0
	g = &group{w: w}
	g.spawn("late", false, func(*sim.Proc) int {
		conn, err := client.Connect(srv.URL)
		if err != nil {
			return 1
		}
		defer conn.Close()
		ask(conn, "late", true)
		return 0
	})
	if !bounded(time.Hour, g.wait) {
		w.Violate(prop, "unanswered", "requests were not answered within an hour")
		return nil, false
	}
	if srv.Proc.Dead() {
		w.Violate(prop, "server-died", "the job server terminated: %s", srv.Proc.Panic)
		return nil, false
	}
	srv.Proc.Kill("end of the round")
	return results, true
}
