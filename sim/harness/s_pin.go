package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/mod/modfile"
	"golang.org/x/mod/semver"
	"golang.org/x/tools/go/packages"

	"github.com/DataDog/orchestrion/internal/filelock"
	"github.com/DataDog/orchestrion/internal/verifsim/sim"
	"github.com/DataDog/orchestrion/internal/verifsim/simos"
	"github.com/DataDog/orchestrion/internal/verifsim/simpackages"
	"github.com/DataDog/orchestrion/internal/version"
)

func init() {
	register(&sim.Scenario{Name: "pin", Property: "P12", Run: runPin,
		Real: []string{"orchestrion pin, automatic pinning by orchestrion go: internal/cmd, pin, ensure, gomod, filelock, injector/config"},
		Stub: []string{"the go command (model: go mod edit/tidy/vendor, go get, go list -m, packages.Load)", "process table", "file system events", "clock"}})
	register(&sim.Scenario{Name: "filelock", Property: "P11", Run: runFilelock,
		Real: []string{"internal/filelock", "flock"},
		Stub: []string{"process table", "clock"}})
}

const (
	pinTracer = "github.com/DataDog/dd-trace-go/v2"
	pinAll    = "github.com/DataDog/dd-trace-go/orchestrion/all/v2"
	pinV1     = "gopkg.in/DataDog/dd-trace-go.v1"
	pinSelf   = "github.com/DataDog/orchestrion"
	pinTool   = "orchestrion.tool.go"
	shipped   = "v2.4.0"
)

// pinModule is a module other modules may require.
type pinModule struct {
	latest string
	files  map[string]string
	goVer  string // what it requires
}

// pinModel is a model of the go command for what pinning does with it.
type pinModel struct {
	w       *sim.World
	dir     string
	modules map[string]*pinModule
	latency func() time.Duration
	failing int // one in how many commands that need the network fails
	active  map[*sim.Proc]bool
	overlap bool
	failed  int
	cmds    int
}

func (m *pinModel) pause() {
	if m.latency != nil {
		sim.Sleep(m.latency())
	}
	sim.Point()
}

func (m *pinModel) modFile() string { return filepath.Join(m.dir, "go.mod") }

// moduleOf returns the module a package is part of.
func (m *pinModel) moduleOf(path string) string {
	for mod := range m.modules {
		if path == mod || strings.HasPrefix(path, mod+"/") {
			return mod
		}
	}
	return ""
}

// imports returns what the sources of the project import.
func (m *pinModel) imports() []string {
	var res []string
	for _, name := range []string{"main.go", pinTool} {
		for _, i := range toolImports(filepath.Join(m.dir, name)) {
			res = append(res, i.path)
		}
	}
	return res
}

type toolImport struct{ name, path, comment string }

func toolImports(filename string) []toolImport {
	f, err := parser.ParseFile(token.NewFileSet(), filename, nil, parser.ParseComments)
	if err != nil {
		return nil
	}
	var res []toolImport
	for _, i := range f.Imports {
		path, _ := strconv.Unquote(i.Path.Value)
		t := toolImport{path: path}
		if i.Name != nil {
			t.name = i.Name.Name
		}
		if i.Comment != nil {
			t.comment = strings.TrimSpace(i.Comment.Text())
		}
		res = append(res, t)
	}
	return res
}

// edit changes the go.mod file like the go command, which replaces it unless it changed in the meantime.
func (m *pinModel) edit(p *sim.Proc, file string, fn func(f *modfile.File) error) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	m.pause()
	if p.Dead() {
		return errors.New("killed")
	}
	f, err := modfile.Parse(file, data, nil)
	if err != nil {
		return err
	}
	if err := fn(f); err != nil {
		return err
	}
	f.Cleanup()
	res, err := f.Format()
	if err != nil {
		return err
	}
	if now, err := os.ReadFile(file); err != nil || !bytes.Equal(now, data) {
		return errors.New("existing contents have changed since last read")
	}
	return os.WriteFile(file, res, 0o644)
}

func required(f *modfile.File) map[string]string {
	res := map[string]string{}
	for _, r := range f.Require {
		res[r.Mod.Path] = r.Mod.Version
	}
	return res
}

func (m *pinModel) goMain(p *sim.Proc) (code int) {
	fail := func(format string, args ...any) int {
		fmt.Fprintf(p.Stderr, "go: "+format+"\n", args...)
		return 1
	}
	args := p.Args[1:]
	cwd := p.Cwd
	if args[0] == "env" {
		m.pause()
		fmt.Fprintln(p.Stdout, filepath.Join(cwd, "go.mod"))
		return 0
	}
	if args[0] == "list" {
		m.pause()
		path, _, _ := strings.Cut(args[len(args)-1], "@")
		mod := m.modules[path]
		if mod == nil || m.fails() {
			return fail("module %s: reading https://proxy.golang.org/%s: no such host", path, path)
		}
		fmt.Fprintf(p.Stdout, "{\"Path\": %q, \"Version\": %q}\n", path, mod.latest)
		return 0
	}
	i := slices.Index(args, "-modfile")
	if i < 0 || i+1 >= len(args) {
		return fail("unknown command %v", args)
	}
	file := args[i+1]
	rest := append(slices.Clone(args[1:i]), args[i+2:]...)
	if file != m.modFile() {
		// The module of orchestrion itself.
		m.pause()
		fmt.Fprintf(p.Stdout, `{"Go":"1.24.0","Require":[{"Path":%q,"Version":%q},{"Path":%q,"Version":%q}]}`+"\n", pinTracer, shipped, pinAll, shipped)
		return 0
	}
	m.cmds++
	if len(m.active) > 0 {
		m.overlap = true
	}
	m.active[p] = true
	p.OnExit(func() { delete(m.active, p) })
	defer delete(m.active, p)
	m.pause()
	switch {
	case args[0] == "mod" && slices.Contains(rest, "-json"):
		data, err := os.ReadFile(file)
		if err != nil {
			return fail("%v", err)
		}
		f, err := modfile.Parse(file, data, nil)
		if err != nil {
			return fail("%v", err)
		}
		type require struct{ Path, Version string }
		var out struct {
			Go, Toolchain string
			Require       []require
		}
		if f.Go != nil {
			out.Go = f.Go.Version
		}
		if f.Toolchain != nil {
			out.Toolchain = f.Toolchain.Name
		}
		for _, r := range f.Require {
			out.Require = append(out.Require, require{r.Mod.Path, r.Mod.Version})
		}
		_ = json.NewEncoder(p.Stdout).Encode(out)
	case args[0] == "mod" && rest[0] == "edit":
		err := m.edit(p, file, func(f *modfile.File) error {
			for _, a := range rest[1:] {
				flag, val, _ := strings.Cut(a, "=")
				switch flag {
				case "-go":
					if err := f.AddGoStmt(val); err != nil {
						return err
					}
				case "-toolchain":
					if val == "none" {
						f.DropToolchainStmt()
					} else if err := f.AddToolchainStmt(val); err != nil {
						return err
					}
				case "-require":
					path, v, _ := strings.Cut(val, "@")
					if err := f.AddRequire(path, v); err != nil {
						return err
					}
				case "-replace":
					old, to, _ := strings.Cut(val, "=")
					oldPath, oldV, _ := strings.Cut(old, "@")
					toPath, toV, _ := strings.Cut(to, "@")
					if err := f.AddReplace(oldPath, oldV, toPath, toV); err != nil {
						return err
					}
				default:
					return fmt.Errorf("flag provided but not defined: %s", flag)
				}
			}
			return nil
		})
		if err != nil {
			return fail("%v", err)
		}
	case args[0] == "mod" && rest[0] == "tidy":
		if m.fails() {
			return fail("finding module for package: no such host")
		}
		err := m.edit(p, file, func(f *modfile.File) error {
			have, need := required(f), map[string]bool{}
			for _, i := range m.imports() {
				if mod := m.moduleOf(i); mod != "" {
					need[mod] = true
				} else if strings.Contains(i, ".") && !strings.HasPrefix(i, "example.com/project") {
					return fmt.Errorf("finding module for package %s: not found", i)
				}
			}
			if need[pinAll] {
				need[pinTracer] = true
			}
			for _, mod := range sim.SortedKeys(have) {
				if !need[mod] {
					if err := f.DropRequire(mod); err != nil {
						return err
					}
				}
			}
			goVer := f.Go.Version
			for _, mod := range sim.SortedKeys(need) {
				v := have[mod]
				if v == "" {
					v = m.modules[mod].latest
				}
				if mod == pinTracer && need[pinAll] {
					if all := required(f)[pinAll]; semver.Compare(all, v) > 0 {
						v = all
					}
				}
				if err := f.AddRequire(mod, v); err != nil {
					return err
				}
				if g := m.modules[mod].goVer; g != "" && semver.Compare(v, m.modules[mod].latest) >= 0 && semver.Compare("v"+g, "v"+goVer) > 0 {
					goVer = g
				}
			}
			if goVer != f.Go.Version {
				if err := f.AddGoStmt(goVer); err != nil {
					return err
				}
				if f.Toolchain == nil {
					return f.AddToolchainStmt("go1.26.1")
				}
			}
			f.SortBlocks()
			return nil
		})
		if err != nil {
			return fail("%v", err)
		}
		_ = os.WriteFile(filepath.Join(m.dir, "go.sum"), []byte("sum"), 0o644)
	case args[0] == "mod" && rest[0] == "vendor":
		data, _ := os.ReadFile(file)
		f, err := modfile.Parse(file, data, nil)
		if err != nil {
			return fail("%v", err)
		}
		var b strings.Builder
		for _, mod := range sim.SortedKeys(required(f)) {
			fmt.Fprintf(&b, "# %s %s\n", mod, required(f)[mod])
		}
		_ = os.WriteFile(filepath.Join(m.dir, "vendor", "modules.txt"), []byte(b.String()), 0o644)
	case args[0] == "get":
		if m.fails() {
			return fail("no such host")
		}
		err := m.edit(p, file, func(f *modfile.File) error {
			path, v, _ := strings.Cut(rest[len(rest)-1], "@")
			mod := m.moduleOf(path)
			if mod == "" {
				return fmt.Errorf("module %s: not found", path)
			}
			if v == "latest" {
				v = m.modules[mod].latest
			}
			if mod == pinAll {
				if semver.Compare(required(f)[pinTracer], v) < 0 {
					if err := f.AddRequire(pinTracer, v); err != nil {
						return err
					}
				}
			}
			return f.AddRequire(mod, v)
		})
		if err != nil {
			return fail("%v", err)
		}
	default:
		return fail("unknown command %v", args)
	}
	return 0
}

func (m *pinModel) fails() bool {
	if m.failing == 0 || !m.w.Chance(m.failing) {
		return false
	}
	m.failed++
	m.w.Count("fault:go:err")
	return true
}

func (m *pinModel) load(p *sim.Proc, cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	m.pause()
	if m.fails() {
		return nil, errors.New("err: exit status 1: stderr: no such host")
	}
	sorted := slices.Clone(patterns)
	sort.Strings(sorted)
	var res []*packages.Package
	for _, path := range slices.Compact(sorted) {
		pkg := &packages.Package{ID: path, PkgPath: path, Name: filepath.Base(path)}
		dir := filepath.Join(m.dir, "..", "modcache", path)
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil || len(files) == 0 {
			pkg.Errors = []packages.Error{{Msg: "no required module provides package " + path}}
		}
		for _, f := range files {
			if filepath.Base(f) == pinTool {
				pkg.IgnoredFiles = append(pkg.IgnoredFiles, f)
			} else {
				pkg.GoFiles = append(pkg.GoFiles, f)
			}
		}
		res = append(res, pkg)
	}
	return res, nil
}

// pinState is what pinning changes.
type pinState struct{ tool, mod, vendor, effective, tracer string }

func (s pinState) same(o pinState) bool {
	return s.sameButTracer(o) && s.tracer == o.tracer && s.vendor == o.vendor
}

// sameButTracer does not care for the version of the tracer, nor for the toolchain: the version
// required to begin with determines whether it is replaced by the version that is required in the
// end, and a toolchain that the go command adds is only removed by the process that made it do so.
func (s pinState) sameButTracer(o pinState) bool {
	strip := func(v string) string {
		return strings.Join(slices.DeleteFunc(strings.Split(v, "\n"), func(l string) bool { return strings.HasPrefix(l, "# "+pinTracer+" ") }), "\n")
	}
	return s.tool == o.tool && s.effective == o.effective && strip(s.vendor) == strip(o.vendor)
}

func (m *pinModel) state() (s pinState) {
	s.tool, _ = rawRead(filepath.Join(m.dir, pinTool))
	s.mod, _ = rawRead(m.modFile())
	s.effective = s.mod
	if f, err := modfile.Parse("go.mod", []byte(s.mod), nil); err == nil {
		// Which versions are used is what matters, not whether that is because of require or replace directives.
		req := required(f)
		for _, r := range f.Replace {
			if _, ok := req[r.Old.Path]; ok && r.Old.Path == r.New.Path {
				req[r.Old.Path] = r.New.Version
			}
		}
		s.tracer = req[pinTracer]
		delete(req, pinTracer)
		s.effective = fmt.Sprint(req)
		if f.Go != nil {
			s.effective += f.Go.Version
		}
		if f.Toolchain != nil {
			s.tracer += " " + f.Toolchain.Name
		}
	}
	s.vendor, _ = rawRead(filepath.Join(m.dir, "vendor", "modules.txt"))
	return s
}

func (m *pinModel) restore(s pinState) {
	for name, data := range map[string]string{pinTool: s.tool, "go.mod": s.mod, "vendor/modules.txt": s.vendor} {
		if data == "" {
			_ = os.Remove(filepath.Join(m.dir, name))
			continue
		}
		rawWrite(filepath.Join(m.dir, name), data)
	}
	_ = os.Remove(filepath.Join(m.dir, "go.sum"))
}

// pinProject is what is to be pinned.
type pinProject struct {
	valid, invalid, loadable []string // imports of the tool file
	flags                    []string
	noPrune, noGenerate      bool
	validate                 bool
	toolchain, goVer         string
	self                     string
	extra                    string // a comment of the user's
	defaults                 bool
}

func (m *pinModel) generate() *pinProject {
	w := m.w
	pr := &pinProject{}
	tag, _ := version.TagInfo()
	m.modules = map[string]*pinModule{
		pinSelf:   {latest: tag, goVer: sim.Pick(w, "", "1.24.0")},
		pinAll:    {latest: sim.Pick(w, shipped, "v2.5.1")},
		pinTracer: {latest: sim.Pick(w, shipped, "v2.5.1")},
		pinV1:     {latest: "v1.74.3"},
	}
	m.modules[pinTracer].latest = m.modules[pinAll].latest
	yml := "meta:\n  name: x\n  description: x\naspects:\n  - id: x\n    join-point:\n      package-name: main\n    advice:\n      - add-blank-import: unsafe\n"
	files := func(path string, fs map[string]string) {
		for name, data := range fs {
			rawWrite(filepath.Join(m.dir, "..", "modcache", path, name), data)
		}
	}
	files(pinAll, map[string]string{"a.go": "package all\n", "orchestrion.yml": yml})
	files(pinSelf, map[string]string{"main.go": "package main\n"})
	files(pinTracer, map[string]string{"a.go": "package v2\n"})
	files(pinV1, map[string]string{"a.go": "package v1\n", "orchestrion.yml": yml})
	files(pinSelf+"/instrument", map[string]string{"a.go": "package instrument\n"})
	var extras []string
	var main []string
	for i := range w.Choose(4) {
		path := fmt.Sprintf("ex.com/m%d", i)
		m.modules[path] = &pinModule{latest: "v1.2.0"}
		fs := map[string]string{"a.go": "package x\n"}
		kind := sim.Pick(w, "yml", "tool", "none", "bad")
		switch kind {
		case "yml":
			fs["orchestrion.yml"] = yml
		case "tool":
			fs[pinTool] = "//go:build tools\n\npackage tools\n\nimport _ \"" + pinAll + "\"\n"
		case "bad":
			fs["orchestrion.yml"] = "aspects: [\n"
		}
		files(path, fs)
		if w.Chance(4) {
			main = append(main, path)
		}
		if w.Chance(4) {
			continue
		}
		extras = append(extras, path)
		if kind == "yml" || kind == "tool" {
			pr.valid = append(pr.valid, path)
		} else {
			pr.invalid = append(pr.invalid, path)
		}
	}
	if w.Chance(3) {
		main = append(main, pinTracer)
	}
	var b strings.Builder
	b.WriteString("package main\n\n")
	for _, i := range main {
		fmt.Fprintf(&b, "import _ %q\n", i)
	}
	b.WriteString("\nfunc main() {}\n")
	rawWrite(filepath.Join(m.dir, "main.go"), b.String())

	pr.goVer = sim.Pick(w, "1.23.0", "1.21", "1.24.0", "1.25.0")
	pr.toolchain = sim.Pick(w, "", "go1.25.2")
	pr.self = sim.Pick(w, "", "v1.0.0", tag, "v1.99.0")
	if g := m.modules[pinSelf].goVer; semver.Compare(pr.self, tag) >= 0 && g != "" && semver.Compare("v"+g, "v"+pr.goVer) > 0 {
		pr.goVer = g
	}
	var s strings.Builder
	fmt.Fprintf(&s, "module example.com/project\n\ngo %s\n", pr.goVer)
	if pr.toolchain != "" {
		fmt.Fprintf(&s, "\ntoolchain %s\n", pr.toolchain)
	}
	s.WriteString("\nrequire (\n")
	if pr.self != "" {
		fmt.Fprintf(&s, "\t%s %s\n", pinSelf, pr.self)
	}
	tracer := sim.Pick(w, "", "v2.2.0", shipped, "v2.5.1")
	if tracer == "v2.5.1" && m.modules[pinTracer].latest == shipped {
		tracer = ""
	}
	if tracer != "" {
		fmt.Fprintf(&s, "\t%s %s\n", pinTracer, tracer)
	}
	for _, i := range append(slices.Clone(extras), main...) {
		if strings.HasPrefix(i, "ex.com/") && !strings.Contains(s.String(), i+" ") {
			fmt.Fprintf(&s, "\t%s v1.1.0\n", i)
		}
	}
	s.WriteString(")\n")
	rawWrite(m.modFile(), s.String())
	if w.Chance(4) {
		rawWrite(filepath.Join(m.dir, "vendor", "modules.txt"), "# nothing\n")
	}
	if w.Chance(2) {
		var t strings.Builder
		t.WriteString("//go:build tools\n\n")
		if w.Chance(3) {
			pr.extra = "// This comment is mine."
			t.WriteString(pr.extra + "\n\n")
		}
		if w.Chance(3) {
			t.WriteString("//go:generate go run github.com/DataDog/orchestrion pin -generate\n\n")
		}
		t.WriteString("package tools\n\nimport (\n")
		if w.Chance(2) {
			fmt.Fprintf(&t, "\t_ %q\n", pinSelf)
		}
		if w.Chance(4) {
			fmt.Fprintf(&t, "\t_ %q\n", pinSelf+"/instrument")
		}
		if w.Chance(4) {
			fmt.Fprintf(&t, "\t_ %q\n", pinV1)
		}
		for _, i := range extras {
			fmt.Fprintf(&t, "\t_ %q%s\n", i, sim.Pick(w, "", " // integration"))
		}
		t.WriteString(")\n")
		rawWrite(filepath.Join(m.dir, pinTool), t.String())
	} else {
		pr.valid, pr.invalid = nil, nil
	}
	pr.defaults = w.Chance(2)
	if !pr.defaults {
		if w.Chance(2) {
			pr.noGenerate = true
			pr.flags = append(pr.flags, "-generate=false")
		}
		if w.Chance(2) {
			pr.noPrune = true
			pr.flags = append(pr.flags, "-prune=false")
		}
		if w.Chance(2) {
			pr.validate = true
			pr.flags = append(pr.flags, "-validate")
		}
	}
	return pr
}

type pinRun struct {
	p    *sim.Proc
	auto bool
	out  bytes.Buffer
}

func (m *pinModel) start(pr *pinProject, auto, crashable, noFaults bool) *pinRun {
	r := &pinRun{auto: auto}
	args := append([]string{orchestrionBin, "pin"}, pr.flags...)
	if auto {
		args = []string{orchestrionBin, "go", "env", "GOMOD"}
	}
	name := "pin"
	if auto {
		name = "auto-pin"
	}
	r.p = m.w.Spawn(sim.Spec{Name: name, Args: args, Dir: m.dir, Env: sim.CurProc().Env, Stdout: &r.out, Stderr: &r.out, Crashable: crashable, NoFaults: noFaults}, m.w.Programs[orchestrionBin])
	return r
}

// check verifies the outcome of pinning.
func (m *pinModel) check(pr *pinProject, prop, when string) {
	w := m.w
	s := m.state()
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, pinTool, s.tool, parser.ParseComments)
	if err != nil {
		w.Violate(prop, "broken-file", "%s: the tool file is not valid: %v\n%s", when, err, s.tool)
		return
	}
	want := map[string]string{pinSelf: "integration", pinAll: "integration"}
	for _, i := range pr.valid {
		want[i] = "integration"
	}
	if pr.noPrune {
		for _, i := range pr.invalid {
			want[i] = ""
		}
	}
	got := map[string]string{}
	for _, i := range toolImports(filepath.Join(m.dir, pinTool)) {
		if _, dup := got[i.path]; dup {
			w.Violate(prop, "imports", "%s: the tool file imports %s twice:\n%s", when, i.path, s.tool)
		}
		got[i.path] = i.comment
		if i.name != "_" {
			w.Violate(prop, "imports", "%s: %s is imported as %q", when, i.path, i.name)
		}
	}
	for _, i := range sim.SortedKeys(want) {
		if c, ok := got[i]; !ok {
			w.Violate(prop, "imports", "%s: the tool file does not import %s:\n%s", when, i, s.tool)
		} else if c != want[i] {
			w.Violate(prop, "imports", "%s: the import of %s is commented on as %q rather than %q", when, i, c, want[i])
		}
	}
	for _, i := range sim.SortedKeys(got) {
		if _, ok := want[i]; !ok {
			w.Violate(prop, "imports", "%s: the tool file imports %s:\n%s", when, i, s.tool)
		}
	}
	directives, tagged := 0, false
	for _, g := range f.Comments {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:generate go run github.com/DataDog/orchestrion pin") {
				directives++
				for flag, on := range map[string]bool{"-prune=false": pr.noPrune, "-validate": pr.validate} {
					if strings.Contains(c.Text, flag) != on {
						w.Violate(prop, "directive", "%s: the directive is %q", when, c.Text)
					}
				}
			}
			tagged = tagged || c.Text == "//go:build tools" && c.Pos() < f.Package
		}
	}
	if exp := map[bool]int{true: 0, false: 1}[pr.noGenerate]; directives != exp {
		w.Violate(prop, "directive", "%s: the tool file has %d generate directives rather than %d:\n%s", when, directives, exp, s.tool)
	}
	if !tagged || pr.extra != "" && !strings.Contains(s.tool, pr.extra) {
		w.Violate(prop, "directive", "%s: build constraint or comments are gone:\n%s", when, s.tool)
	}
	mod, err := modfile.Parse("go.mod", []byte(s.mod), nil)
	if err != nil {
		w.Violate(prop, "broken-file", "%s: go.mod is not valid: %v", when, err)
		return
	}
	tag, _ := version.TagInfo()
	self := tag
	if semver.Compare(pr.self, tag) > 0 {
		self = pr.self
	}
	req := required(mod)
	if req[pinSelf] != self {
		w.Violate(prop, "go.mod", "%s: go.mod requires orchestrion %q rather than %q", when, req[pinSelf], self)
	}
	if req[pinAll] == "" {
		w.Violate(prop, "go.mod", "%s: go.mod does not require %s:\n%s", when, pinAll, s.mod)
	}
	for _, i := range m.imports() {
		if mod := m.moduleOf(i); mod != "" && req[mod] == "" {
			w.Violate(prop, "go.mod", "%s: go.mod does not require %s any more:\n%s", when, mod, s.mod)
		}
	}
	for _, mod := range sim.SortedKeys(req) {
		if strings.HasPrefix(mod, "ex.com/") && (req[mod] != "v1.1.0" || !slices.Contains(m.imports(), mod)) {
			w.Violate(prop, "go.mod", "%s: go.mod requires %s %s:\n%s", when, mod, req[mod], s.mod)
		}
	}
	if semver.Compare("v"+mod.Go.Version, "v1.23") < 0 || semver.Compare("v"+mod.Go.Version, "v"+pr.goVer) < 0 {
		w.Violate(prop, "go.mod", "%s: the language version is %s", when, mod.Go.Version)
	}
	tc := ""
	if mod.Toolchain != nil {
		tc = mod.Toolchain.Name
	}
	if tc != pr.toolchain {
		w.Violate(prop, "go.mod", "%s: the toolchain is %q rather than %q", when, tc, pr.toolchain)
	}
	if s.vendor != "" {
		for mod, v := range req {
			if !strings.Contains(s.vendor, "# "+mod+" "+v+"\n") {
				w.Violate(prop, "vendor", "%s: the vendor directory does not have %s %s:\n%s", when, mod, v, s.vendor)
				break
			}
		}
	}
}

// left reports what pinning leaves behind in the project.
func (m *pinModel) left() string {
	var res []string
	for _, name := range listing(m.dir) {
		if strings.HasPrefix(name, pinTool+".") {
			res = append(res, name)
		}
	}
	return strings.Join(res, " ")
}

func runPin(w *sim.World) {
	const prop = "P12"
	w.LabelsGetLost()
	w.Cfg.Horizon = 10 * time.Hour
	installPrograms(w)
	m := &pinModel{w: w, dir: filepath.Join(w.Root, "project"), active: map[*sim.Proc]bool{}}
	w.Programs["/sim/bin/go"] = m.goMain
	simpackages.SetLoader(w, m.load)
	pr := m.generate()
	initial := m.state()

	// What an undisturbed process does.
	w.Cfg.PreemptMean, w.Cfg.StallProb, w.Cfg.StepCost = 0, 0, 0
	w.Net.Latency = nil
	r := m.start(pr, false, false, true)
	r.p.Wait()
	if r.p.ExitCode != 0 || r.p.Panic != "" {
		w.Violate(prop, "fails", "pinning failed: %s %s", r.out.String(), r.p.Panic)
		return
	}
	m.check(pr, prop, "after pinning")
	ref := m.state()
	if l := m.left(); l != "" {
		w.Violate(prop, "leftovers", "%s remains", l)
	}
	r = m.start(pr, false, false, true)
	r.p.Wait()
	if again := m.state(); r.p.ExitCode != 0 {
		w.Violate(prop, "fails", "pinning again failed: %s", r.out.String())
	} else if !again.same(ref) {
		w.Violate(prop, "not-idempotent", "pinning again made a difference: %s", pinDiff(ref, again))
	}

	// Several at once, some of which fail or are killed.
	m.restore(initial)
	swarm(w)
	w.Cfg.StallProb = 0
	if w.Chance(2) {
		unit := sim.Pick(w, time.Millisecond, 100*time.Millisecond, 2*time.Second)
		m.latency = func() time.Duration { return time.Duration(w.Choose(5)) * unit }
	}
	n := 1 + w.Choose(4)
	mode := sim.Pick(w, "none", "none", "faults", "faults", "kill", "network")
	switch mode {
	case "faults":
		w.FS.Cfg.Mean = sim.Pick(w, 5, 15, 40)
		w.FS.Cfg.Max = w.FS.Fired() + 1 + w.Choose(2)
		w.FS.Cfg.Kinds = map[string]bool{"err": true, "short": true, "delay": true}
		if w.Chance(2) {
			w.FS.Cfg.Kinds["crash"], w.FS.Cfg.Kinds["torn"], w.FS.Cfg.Kinds["crash-after"] = true, true, true
		}
		if w.Chance(2) {
			w.FS.Cfg.Filter = func(p *sim.Proc, op, path string) bool { return strings.Contains(path, pinTool) }
			w.FS.Cfg.Mean = sim.Pick(w, 2, 4)
		}
	case "network":
		m.failing = sim.Pick(w, 3, 8)
	}
	// The tool file is a complete one at any time.
	files := map[string]bool{initial.tool: true, ref.tool: true}
	watch := func() {
		if t, _ := rawRead(filepath.Join(m.dir, pinTool)); !files[t] {
			files[t] = true
			if _, err := parser.ParseFile(token.NewFileSet(), pinTool, t, 0); err != nil || t == "" {
				w.Violate(prop, "torn-file", "there is an incomplete tool file: %v\n%s", err, t)
			}
		}
	}
	w.FS.Record = func(_ *sim.Proc, _, path, _ string) {
		if strings.Contains(path, pinTool) {
			watch()
		}
	}
	before := w.FS.Fired()
	var runs []*pinRun
	killed := 0
	for range n {
		r := m.start(pr, pr.defaults && w.Chance(2), true, mode != "faults")
		runs = append(runs, r)
		if mode == "kill" && w.Chance(2) {
			delay := time.Duration(w.Choose(40)) * 50 * time.Millisecond
			steps := w.Choose(400)
			sim.GoNamed("killer", func() {
				if delay > 0 && m.latency != nil {
					sim.Sleep(delay)
				} else {
					for range steps {
						sim.Point()
					}
				}
				if !r.p.Dead() {
					killed++
					w.Count("fault:pin-killed")
					r.p.Kill("killed by the user")
				}
			})
		}
		if w.Chance(2) {
			sim.Sleep(time.Duration(w.Choose(4)) * 100 * time.Millisecond)
		}
	}
	hung := !bounded(time.Hour, func() {
		for _, r := range runs {
			r.p.Wait()
		}
	})
	watch()
	w.FS.Record = nil
	if hung {
		w.Violate(prop, "hang", "pinning has not completed after an hour")
		return
	}
	w.FS.Cfg.Mean, w.FS.Cfg.Filter = 0, nil
	m.failing = 0
	fired := w.FS.Fired() > before || m.failed > 0
	crashes := killed
	for k, c := range w.Counters {
		if strings.Contains(k, "crash") || strings.Contains(k, "torn") {
			crashes += int(c)
		}
	}
	for i, r := range runs {
		if r.p.Panic != "" && fired && !strings.Contains(r.p.Panic, "runtime error") {
			r.p.PanicExpected = true // some failures panic deliberately
		} else if r.p.Panic != "" {
			w.Violate(prop, "panic", "a process panicked: %s", r.p.Panic)
			return
		}
		if r.p.ExitCode != 0 && !fired && crashes == 0 {
			w.Violate(prop, "fails", "process %d failed: %s", i, r.out.String())
			return
		}
		if r.p.ExitCode != 0 {
			w.Count("pin-failed")
		} else {
			w.Count("pin-done")
		}
	}
	if crashes == 0 {
		if m.overlap {
			w.Violate(prop, "overlap", "several processes changed the go.mod file at the same time")
		}
		if l := m.left(); l != "" && w.Counters["fault:remove:err"] == 0 {
			w.Violate(prop, "leftovers", "%s remains", l)
		}
	}
	// The presence of the file is what automatic pinning goes by.
	pinned := initial.tool == "" || slices.ContainsFunc(runs, func(r *pinRun) bool { return !r.auto })
	if !fired && crashes == 0 && !pinned {
		if s := m.state(); s != initial {
			w.Violate(prop, "different", "automatic pinning changed what is pinned already: %s", pinDiff(initial, s))
		}
	} else if !fired && crashes == 0 {
		if s := m.state(); !s.same(ref) {
			w.Violate(prop, "different", "%d processes did not do what one does: %s", n, pinDiff(ref, s))
		}
	}
	// Whatever failed, pinning once more completes it.
	if !bounded(time.Hour, func() {
		for len(m.active) > 0 {
			sim.Sleep(time.Second)
		}
	}) {
		w.Violate(prop, "hang", "the go command does not complete")
		return
	}
	r = m.start(pr, false, false, true)
	if !bounded(time.Hour, r.p.Wait) {
		w.Violate(prop, "hang", "pinning hangs after failures")
		return
	}
	if r.p.ExitCode != 0 {
		w.Violate(prop, "fails", "pinning does not succeed after failures: %s", r.out.String())
		return
	}
	if s := m.state(); !s.sameButTracer(ref) {
		w.Violate(prop, "different-later", "pinning after failures does not do what it does without: %s", pinDiff(ref, s))
	}
	w.Count("pin-again")
}

func pinDiff(a, b pinState) string {
	if a.tool != b.tool {
		return fmt.Sprintf("the tool file is\n%s\nrather than\n%s", b.tool, a.tool)
	}
	if a.effective != b.effective {
		return fmt.Sprintf("go.mod is\n%s\nrather than\n%s", b.mod, a.mod)
	}
	return fmt.Sprintf("vendor/modules.txt is\n%s\nrather than\n%s", b.vendor, a.vendor)
}

// runFilelock simulates processes that lock the same files.
func runFilelock(w *sim.World) {
	const prop = "P11"
	swarm(w)
	w.Cfg.StallProb = 0
	nF := 1 + w.Choose(2)
	type state struct{ writer, readers int }
	files := make([]state, nF)
	check := func(f int) {
		if s := files[f]; s.writer > 1 || s.writer == 1 && s.readers > 0 {
			w.Violate(prop, "not-exclusive", "file %d is locked by %d writers and %d readers", f, s.writer, s.readers)
		}
	}
	faults := w.Chance(3)
	if faults {
		w.FS.Cfg.Mean = sim.Pick(w, 5, 15)
		w.FS.Cfg.Max = 1 + w.Choose(3)
		w.FS.Cfg.Kinds = map[string]bool{"err": true, "crash": true}
	}
	before := w.FS.Fired()
	g := &group{w: w}
	path := func(f int) string { return filepath.Join(w.Root, fmt.Sprintf("lock%d", f)) }
	for i := range 2 + w.Choose(5) {
		crashes := w.Chance(4)
		p := g.spawn(fmt.Sprintf("locker%d", i), true, func(p *sim.Proc) int {
			ctx := context.Background()
			held := make([]string, nF)
			release := func(f int) {
				switch held[f] {
				case "r":
					files[f].readers--
				case "w":
					files[f].writer--
				}
				held[f] = ""
			}
			p.OnExit(func() {
				for f := range held {
					release(f)
				}
			})
			mus := make([]*filelock.Mutex, nF)
			for f := range mus {
				mus[f] = filelock.MutexAt(path(f))
			}
			for range 1 + w.Choose(5) {
				// Files are always locked in the same order.
				f := w.Choose(nF)
				for o := f + 1; o < nF; o++ {
					if held[o] != "" {
						f = o
					}
				}
				mu := mus[f]
				kind := sim.Pick(w, "r", "w")
				if was := held[f]; was != "" && w.Chance(3) {
					kind = was
				} else if was != "" {
					// Other processes may come in between while the kind of a lock is changed.
					release(f)
					held[f] = ""
					w.Count("lock-changed")
				}
				release(f)
				var err error
				if kind == "r" {
					err = mu.RLock(ctx)
				} else {
					err = mu.Lock(ctx)
				}
				if err != nil {
					w.Count("lock-failed")
					if w.FS.Fired() == before {
						w.Violate(prop, "fails", "locking failed: %v", err)
					}
					_ = mu.Unlock(ctx)
					continue
				}
				w.Count("locked:" + kind)
				held[f] = kind
				if kind == "r" {
					files[f].readers++
				} else {
					files[f].writer++
				}
				check(f)
				for range w.Choose(6) {
					sim.Point()
				}
				if w.Chance(3) {
					sim.Sleep(time.Duration(w.Choose(5)) * 100 * time.Millisecond)
				}
				check(f)
				if kind == "w" && w.Chance(2) {
					// What is written by the holder of the lock is what is read by those who hold it later.
					val := fmt.Sprintf("%d", w.Choose(1000))
					if err := simos.WriteFile(path(f), []byte(val), 0o644); err == nil {
						sim.Point()
						if got, ok := rawRead(path(f)); ok && got != val && w.FS.Fired() == before {
							w.Violate(prop, "not-exclusive", "the locked file is %q rather than %q", got, val)
						}
					}
				}
				if w.Chance(2) {
					release(f)
					if err := mu.Unlock(ctx); err != nil && w.FS.Fired() == before {
						w.Violate(prop, "fails", "unlocking failed: %v", err)
					}
				}
			}
			for f, mu := range mus {
				if crashes {
					break // locks are released when processes exit
				}
				release(f)
				if err := mu.Unlock(ctx); err != nil && w.FS.Fired() == before {
					w.Violate(prop, "fails", "unlocking failed: %v", err)
				}
			}
			return 0
		})
		if w.Chance(8) {
			sim.GoNamed("killer", func() {
				sim.Sleep(time.Duration(w.Choose(10)) * 100 * time.Millisecond)
				if !p.Dead() {
					w.Count("fault:killed")
					p.Kill("killed")
				}
			})
		}
	}
	if !bounded(time.Hour, g.wait) {
		w.Violate(prop, "stuck", "processes wait for locks that nobody holds")
	}
}
