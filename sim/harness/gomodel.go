package harness

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
	"github.com/DataDog/orchestrion/internal/verifsim/simos"
	"github.com/DataDog/orchestrion/internal/verifsim/simpackages"
)

// This file models the go command: it plans the build of a module, runs the tools (through -toolexec) with the arguments,
// the environment and the concurrency the real one uses, and keeps a build cache. The compiler is the real one (its
// results are memoized by content), the linker only checks what the real one checks before it produces code.

// goPkg is a package of the simulated module.
type goPkg struct {
	Path, Name, Dir string
	Files           []string // absolute names
	Imports         []string // direct, sorted
	Broken          bool     // does not compile
	Asmhdr          bool
	TestFiles       []string // of the package itself
	XTestFiles      []string // of its external tests

	// Of test variants, and what belongs to them.
	ID      string            // unlike Path, unique
	ForTest string            // package under test
	Deps    map[string]string // IDs by import path, where these differ
	Main    string            // generated source of the test main
	Names   map[string]string // names of sources that are found elsewhere
	Err     string            // why it cannot be built
}

func (p *goPkg) id() string {
	if p.ID != "" {
		return p.ID
	}
	return p.Path
}

// dep returns the ID of what is imported as the given path.
func (p *goPkg) dep(path string) string {
	if id := p.Deps[path]; id != "" {
		return id
	}
	return path
}

func (p *goPkg) isMain() bool { return p.Name == "main" }

// compileRun is an execution of the actual compiler.
type compileRun struct {
	Path, BuildID string
	OK            bool
	Nested        bool
	Variant       bool // for test variants of dependencies
	Files         map[string]string
	Imports       []string
}

// linkRun is an execution of the actual linker.
type linkRun struct {
	OK    bool
	Image string
}

// goBuild is what a build of the go command produced.
type goBuild struct {
	Err      string
	Archives map[string]string // paths of archives in the build cache
	Errors   map[string]string // by package
	Image    string
	Images   map[string]string // of tests, by package
	Failed   map[string]string // why tests are not there, by package
	Cached   int
	Dir      string // $WORK
}

// goModel is the simulated go installation, and the module it works on.
type goModel struct {
	w       *sim.World
	Dir     string
	Module  string
	Pkgs    map[string]*goPkg
	Lang    string
	P       int // parallel actions
	Latency func() time.Duration
	// BreakLoad may fail the loading of packages.
	BreakLoad func(cfg *packages.Config, patterns []string) error
	// ToolFails may fail a tool.
	ToolFails func(tool, path string) string
	// OnCompile is called when the actual compiler starts and when it ends.
	OnCompile func(c *compileRun, start bool)

	Compiles []*compileRun
	Links    []*linkRun
	Builds   []*goBuild // those of "go build"
	Nested   int
	Loads    int
	maxLive  int

	actions map[string]string // build cache: of action to content
	dirs    map[string]int
}

func newGoModel(w *sim.World, dir, module string) *goModel {
	m := &goModel{w: w, Dir: dir, Module: module, Pkgs: map[string]*goPkg{}, Lang: sim.Pick(w, "go1.25", "go1.21"), P: 4, dirs: map[string]int{}}
	installPrograms(w)
	w.Programs["/sim/bin/go"] = m.goMain
	w.Programs["/sim/tool/compile"] = m.compileMain
	w.Programs["/sim/tool/link"] = m.linkMain
	w.Programs["/sim/tool/asm"] = func(p *sim.Proc) int {
		fmt.Fprintln(p.Stdout, "asm version go1.26.0")
		return 0
	}
	simpackages.SetLoader(w, m.load)
	rawWrite(filepath.Join(dir, "go.mod"), "module "+module+"\n\ngo 1.25\n")
	return m
}

// add registers a package; sources are by file name.
func (m *goModel) add(path, name string, sources map[string]string) *goPkg {
	p := &goPkg{Path: path, Name: name, Dir: filepath.Join(m.Dir, strings.TrimPrefix(strings.TrimPrefix(path, m.Module), "/"))}
	imports := map[string]bool{}
	for f, src := range sources {
		file := filepath.Join(p.Dir, f)
		rawWrite(file, src)
		if strings.HasSuffix(f, ".tool.go") {
			continue
		}
		if strings.HasSuffix(f, "_test.go") {
			if strings.Contains(src, "package "+name+"_test\n") {
				p.XTestFiles = append(p.XTestFiles, file)
			} else {
				p.TestFiles = append(p.TestFiles, file)
			}
			continue
		}
		p.Files = append(p.Files, file)
		for _, imp := range fileImports(file, src) {
			if imp != "unsafe" {
				imports[imp] = true
			}
		}
	}
	sort.Strings(p.Files)
	sort.Strings(p.TestFiles)
	sort.Strings(p.XTestFiles)
	for imp := range imports {
		p.Imports = append(p.Imports, imp)
	}
	sort.Strings(p.Imports)
	m.Pkgs[path] = p
	return p
}

func fileImports(file, src string) []string {
	ast, err := parser.ParseFile(token.NewFileSet(), file, src, parser.ImportsOnly)
	if err != nil {
		return nil
	}
	var res []string
	for _, s := range ast.Imports {
		if path, err := strconv.Unquote(s.Path.Value); err == nil {
			res = append(res, path)
		}
	}
	return res
}

// closure returns the packages the given ones depend on, and themselves, dependencies first.
func closure(uni map[string]*goPkg, ids ...string) []*goPkg {
	var res []*goPkg
	seen := map[string]bool{}
	var visit func(id string)
	visit = func(id string) {
		p := uni[id]
		if p == nil || seen[id] {
			return
		}
		seen[id] = true
		for _, d := range p.Imports {
			visit(p.dep(d))
		}
		res = append(res, p)
	}
	for _, id := range ids {
		visit(id)
	}
	return res
}

// importsOf returns what files import, sorted.
func importsOf(files []string, also ...string) []string {
	imports := map[string]bool{}
	for _, i := range also {
		imports[i] = true
	}
	for _, f := range files {
		for _, i := range fileImports(f, readFile(f)) {
			if i != "unsafe" {
				imports[i] = true
			}
		}
	}
	return sim.SortedKeys(imports)
}

var testFunc = regexp.MustCompile(`(?m)^func (Test\w+)\(`)

// plan returns all packages that there are for a build by their IDs, including test variants (see TestPackagesAndErrors and
// recompileForTest of the go command), and the IDs of those asked for. Overlays are by name of the file that is added.
func (m *goModel) plan(targets []string, tests bool, overlay map[string]string) (uni map[string]*goPkg, roots []string) {
	if !tests {
		return m.Pkgs, targets
	}
	uni = map[string]*goPkg{}
	for id, p := range m.Pkgs {
		uni[id] = p
	}
	names := map[string]string{}
	for _, virtual := range sim.SortedKeys(overlay) {
		actual, dir := overlay[virtual], filepath.Dir(virtual)
		names[actual] = virtual
		clause := regexp.MustCompile(`(?m)^package (\w+)`).FindStringSubmatch(readFile(actual))
		if clause == nil {
			continue
		}
		found := false
		for _, id := range sim.SortedKeys(m.Pkgs) {
			if p := uni[id]; p.Dir == dir && clause[1] == p.Name+"_test" {
				c := *p
				c.XTestFiles, c.Names = append(slices.Clone(p.XTestFiles), actual), names
				uni[id], found = &c, true
			}
		}
		if rel, err := filepath.Rel(m.Dir, dir); err == nil && !found {
			p := &goPkg{Path: m.Module + "/" + filepath.ToSlash(rel), Name: clause[1], Dir: dir, Files: []string{actual}, Imports: importsOf([]string{actual}), Names: names}
			uni[p.Path] = p
		}
	}
	for _, path := range targets {
		p := uni[path]
		roots = append(roots, path)
		if p == nil || len(p.TestFiles)+len(p.XTestFiles) == 0 {
			continue
		}
		suffix := " [" + path + ".test]"
		main := &goPkg{Path: path + ".test", Name: "main", Dir: p.Dir, Deps: map[string]string{}, Imports: []string{path}}
		var calls []string
		alias := "_"
		test := p
		if len(p.TestFiles) > 0 {
			c := *p
			c.ID, c.ForTest, c.TestFiles, c.XTestFiles = path+suffix, path, nil, nil
			c.Files = append(slices.Clone(p.Files), p.TestFiles...)
			c.Imports = importsOf(p.TestFiles, p.Imports...)
			test = &c
			uni[c.ID] = test
			roots = append(roots, c.ID)
			main.Deps[path] = c.ID
			for _, f := range p.TestFiles {
				for _, match := range testFunc.FindAllStringSubmatch(readFile(f), -1) {
					alias = "_test"
					calls = append(calls, "_test."+match[1])
				}
			}
		}
		imports := fmt.Sprintf("import %s %q\n", alias, path)
		if len(p.XTestFiles) > 0 {
			x := &goPkg{Path: path + "_test", ID: path + "_test" + suffix, ForTest: path, Name: p.Name + "_test", Dir: p.Dir, Files: p.XTestFiles, Imports: importsOf(p.XTestFiles), Deps: map[string]string{}, Names: p.Names}
			uni[x.ID] = x
			roots = append(roots, x.ID)
			main.Imports = append(main.Imports, x.Path)
			main.Deps[x.Path] = x.ID
			alias = "_"
			for _, f := range p.XTestFiles {
				for _, match := range testFunc.FindAllStringSubmatch(readFile(f), -1) {
					alias = "_xtest"
					calls = append(calls, "_xtest."+match[1])
				}
			}
			imports += fmt.Sprintf("import %s %q\n", alias, x.Path)
		}
		main.Main = "// Code generated by 'go test'. DO NOT EDIT.\n\npackage main\n\n" + imports + "\nfunc main() {\n"
		for _, c := range calls {
			main.Main += "\t" + c + "()\n"
		}
		main.Main += "}\n"
		uni[main.Path] = main
		roots = append(roots, main.Path)
		if test == p {
			continue
		}
		// Everything that depends on the package under test is built once more for it.
		depends := map[string]bool{test.ID: true}
		for _, q := range closure(uni, main.Path, main.dep(path+"_test")) {
			if q.id() == path {
				depends[path] = true
			}
			for _, d := range q.Imports {
				if depends[q.dep(d)] || d == path {
					depends[q.id()] = true
				}
			}
		}
		for _, id := range sim.SortedKeys(depends) {
			q := uni[id]
			if id == path || id == test.ID {
				continue
			}
			c := *q
			c.Deps = map[string]string{}
			for _, d := range q.Imports {
				c.Deps[d] = q.dep(d)
				if d == path {
					c.Deps[d] = test.ID
				} else if depends[q.dep(d)] && uni[q.dep(d)].ForTest == "" {
					c.Deps[d] = d + suffix
				}
			}
			if q.ForTest == "" && q != main {
				c.ID, c.ForTest = id+suffix, path
			}
			uni[c.id()] = &c
		}
	}
	for _, id := range sim.SortedKeys(uni) {
		p := uni[id]
		for _, d := range p.Imports {
			from := p.Path
			if p.ForTest != "" && p.Path == p.ForTest+"_test" {
				from = p.ForTest
			}
			if i := strings.LastIndex("/"+d+"/", "/internal/"); i > 0 && p.Main == "" && from != d[:i-1] && !strings.HasPrefix(from, d[:i-1]+"/") {
				c := *p
				c.Err = "use of internal package " + d + " not allowed"
				uni[id] = &c
			}
		}
	}
	return uni, roots
}

func (m *goModel) pause() {
	if m.Latency != nil {
		if d := m.Latency(); d > 0 {
			sim.Sleep(d)
		}
	}
}

func sum(parts ...string) string {
	h := sha256.New()
	for _, p := range parts {
		fmt.Fprintf(h, "%d:", len(p))
		io.WriteString(h, p)
	}
	return hex.EncodeToString(h.Sum(nil))
}

// ---------------------------------------------------------------------------
// The go command

func (m *goModel) goMain(p *sim.Proc) int {
	args := p.Args[1:]
	if len(args) == 0 {
		return 2
	}
	switch args[0] {
	case "env":
		m.pause()
		if len(args) > 1 && args[1] == "-json" {
			vars := map[string]string{"GOMODCACHE": filepath.Join(m.Dir, "..", "modcache"), "GOROOT": filepath.Join(m.Dir, "..", "goroot"), "GOMOD": filepath.Join(m.Dir, "go.mod"), "GOWORK": ""}
			_ = json.NewEncoder(p.Stdout).Encode(vars)
			return 0
		}
		for _, a := range args[1:] {
			if a == "GOMOD" {
				fmt.Fprintln(p.Stdout, filepath.Join(m.Dir, "go.mod"))
			}
		}
		return 0
	case "build", "install", "list", "test":
	default:
		fmt.Fprintf(p.Stderr, "go: unknown command %q\n", args[0])
		return 2
	}
	var toolexec, out string
	var targets []string
	for i := 1; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "-toolexec" && i+1 < len(args):
			i++
			toolexec = args[i]
		case a == "-o" && i+1 < len(args):
			i++
			out = args[i]
		case strings.HasPrefix(a, "-"):
		default:
			targets = append(targets, a)
		}
	}
	targets = m.targets(p.Cwd, targets)
	uni, roots := m.plan(targets, args[0] == "test", nil)
	if args[0] == "test" {
		roots = slices.DeleteFunc(roots, func(id string) bool { return uni[id] == nil || uni[id].Main == "" })
	}
	b := m.build(p, splitQuoted(toolexec), uni, roots, out)
	m.Builds = append(m.Builds, b)
	if b.Err != "" {
		fmt.Fprintln(p.Stderr, b.Err)
		return 1
	}
	return 0
}

// splitQuoted splits a -toolexec value like the go command does.
func splitQuoted(s string) []string {
	var res []string
	for s = strings.TrimSpace(s); s != ""; s = strings.TrimSpace(s) {
		if s[0] == '"' || s[0] == '\'' {
			if i := strings.IndexByte(s[1:], s[0]); i >= 0 {
				res = append(res, s[1:i+1])
				s = s[i+2:]
				continue
			}
		}
		i := strings.IndexAny(s, " \t")
		if i < 0 {
			i = len(s)
		}
		res = append(res, s[:i])
		s = s[i:]
	}
	return res
}

// cache returns the build cache of a process.
func cacheDir(p *sim.Proc) string {
	dir, _ := p.Getenv("GOCACHE")
	return dir
}

func (m *goModel) workDir(p *sim.Proc) (string, error) {
	base, _ := p.Getenv("GOTMPDIR")
	if base == "" {
		base, _ = p.Getenv("TMPDIR")
	}
	m.dirs[base]++
	dir := filepath.Join(base, fmt.Sprintf("go-build%d", m.dirs[base]))
	if err := simos.Mkdir(dir, 0o777); err != nil {
		return "", fmt.Errorf("go: creating work dir: %w", err)
	}
	return dir, nil
}

// runTool runs a tool as the go command does.
func (m *goModel) runTool(p *sim.Proc, toolexec []string, importPath, dir, tool string, args ...string) (stdout, output string, ok bool) {
	argv := append(append(slices.Clone(toolexec), "/sim/tool/"+tool), args...)
	prog := m.w.Programs[argv[0]]
	if prog == nil {
		return "", "fork/exec " + argv[0] + ": no such file or directory", false
	}
	env := p.Env
	if importPath != "" {
		env = append(slices.Clone(env), "TOOLEXEC_IMPORTPATH="+importPath)
	}
	var out, both bytes.Buffer
	child := m.w.Spawn(sim.Spec{
		Name: tool, Args: argv, Env: env, Dir: dir, Stdout: io.MultiWriter(&out, &both), Stderr: &both, NoFaults: p.NoFaults && !p.Crashable,
	}, prog)
	if m.w.OnSpawn != nil {
		m.w.OnSpawn(child)
	}
	child.Wait()
	if child.ExitCode != 0 {
		fmt.Fprintf(&both, "exit status %d", child.ExitCode)
	}
	return out.String(), both.String(), child.ExitCode == 0
}

type goAction struct {
	pkg     *goPkg
	dir     string
	archive string // where dependents find the result: the object directory, or the cache
	content string
	cached  string
	err     string
	skipped bool
	done    chan struct{}
	linked  chan struct{}
}

// targets returns the packages arguments stand for.
func (m *goModel) targets(dir string, args []string) []string {
	if len(args) == 0 {
		args = []string{"."}
	}
	if slices.Equal(args, []string{"./..."}) {
		return sim.SortedKeys(m.Pkgs)
	}
	return m.match(dir, args)
}

// build performs a build like "go build", "go test -c", or "go list -export".
func (m *goModel) build(p *sim.Proc, toolexec []string, uni map[string]*goPkg, targets []string, out string) *goBuild {
	b := &goBuild{Archives: map[string]string{}, Errors: map[string]string{}, Images: map[string]string{}, Failed: map[string]string{}}
	work, err := m.workDir(p)
	if err != nil {
		b.Err = err.Error()
		return b
	}
	b.Dir = work
	defer func() { _ = simos.RemoveAll(work) }()

	m.pause()
	version, output, ok := m.runTool(p, toolexec, "", "", "compile", "-V=full")
	if !ok {
		b.Err = "go: error obtaining buildID for go tool compile: " + output
		return b
	}
	version = strings.TrimSpace(version)
	if f := strings.Fields(version); len(f) < 3 || f[0] != "compile" || f[1] != "version" {
		b.Err = "go: parsing buildID from compile -V=full: unexpected output: " + version
		return b
	}

	pkgs := closure(uni, targets...)
	actions := map[string]*goAction{}
	var list []*goAction
	for i, pkg := range pkgs {
		a := &goAction{pkg: pkg, dir: filepath.Join(work, fmt.Sprintf("b%03d", i+2)), done: make(chan struct{}), linked: make(chan struct{})}
		actions[pkg.id()] = a
		list = append(list, a)
	}
	sem := make(chan struct{}, max(1, m.P))
	for _, a := range list {
		sim.GoNamed("action", func() {
			defer close(a.done)
			for _, d := range a.pkg.Imports {
				if da := actions[a.pkg.dep(d)]; da != nil {
					sim.Recv(da.done)
				}
			}
			sim.Send(sem)(struct{}{})
			defer sim.Recv(sem)
			m.compileAction(p, toolexec, version, a, actions, b)
		})
	}
	test := p.Args[1] == "test"
	for i, id := range targets {
		if main := actions[id]; test && main != nil {
			dir := filepath.Join(work, fmt.Sprintf("b%03d", len(list)+i+2))
			sim.GoNamed("link", func() {
				defer close(main.linked)
				var mine []*goAction
				for _, q := range closure(uni, id) {
					sim.Recv(actions[q.id()].done)
					mine = append(mine, actions[q.id()])
				}
				var msgs []string
				for _, a := range mine {
					if a.err != "" {
						msgs = append(msgs, "# "+a.pkg.id()+"\n"+a.err)
					}
				}
				tested := strings.TrimSuffix(id, ".test")
				if len(msgs) > 0 {
					b.Failed[tested] = strings.Join(msgs, "\n")
					return
				}
				sim.Send(sem)(struct{}{})
				defer sim.Recv(sem)
				image, msg := m.linkAction(p, toolexec, dir, main, mine)
				if msg != "" {
					b.Failed[tested] = msg
					b.Errors[id+" (link)"] = msg
				} else {
					b.Images[tested] = image
				}
			})
		}
	}
	for _, a := range list {
		sim.Recv(a.done)
	}
	if test {
		for _, id := range targets {
			if main := actions[id]; main != nil {
				sim.Recv(main.linked)
			}
		}
	}
	for _, a := range list {
		if a.err != "" {
			b.Errors[a.pkg.id()] = "# " + a.pkg.id() + "\n" + a.err
		}
	}
	var msgs []string
	for _, id := range sim.SortedKeys(b.Errors) {
		msgs = append(msgs, b.Errors[id])
	}
	if len(msgs) > 0 {
		for _, path := range sim.SortedKeys(b.Failed) {
			msgs = append(msgs, "FAIL\t"+path+" [build failed]")
		}
		b.Err = strings.Join(msgs, "\n")
		return b
	}
	if p.Args[1] == "list" || test {
		return b
	}
	if len(targets) == 1 && m.Pkgs[targets[0]] != nil && m.Pkgs[targets[0]].isMain() {
		image, msg := m.linkAction(p, toolexec, filepath.Join(work, "b001"), actions[targets[0]], list)
		if msg != "" {
			b.Err = msg
			return b
		}
		b.Image = image
		if out != "" {
			rawWrite(p.Abs(out), image)
		}
	}
	return b
}

func (m *goModel) compileAction(p *sim.Proc, toolexec []string, version string, a *goAction, actions map[string]*goAction, b *goBuild) {
	pkg := a.pkg
	if pkg.Err != "" {
		a.err = pkg.Err
		return
	}
	id := []string{version, pkg.Path, pkg.Main}
	if pkg.Main != "" {
		id = append(id, fmt.Sprint(p.Args[1] == "list")) // the name of the file differs
	}
	var icfg strings.Builder
	icfg.WriteString("# import config\n")
	for _, d := range pkg.Imports {
		da := actions[pkg.dep(d)]
		if da == nil {
			a.err = "could not import " + d
			return
		}
		if da.err != "" || da.skipped {
			a.skipped = true
			return
		}
		id = append(id, d, da.content)
		fmt.Fprintf(&icfg, "packagefile %s=%s\n", d, da.archive)
	}
	for _, f := range pkg.Files {
		name := f
		if n := pkg.Names[f]; n != "" {
			name = n
		}
		id = append(id, filepath.Base(name), readFile(f))
	}
	action := sum(id...)[:20]
	cache := cacheDir(p)
	entry := filepath.Join(cache, action+"-a")
	if content, ok := rawRead(entry); ok {
		a.content = content
		a.cached = filepath.Join(cache, content+"-d")
		a.archive = a.cached
		b.Archives[pkg.id()] = a.cached
		b.Cached++
		return
	}
	if err := os.MkdirAll(a.dir, 0o777); err != nil {
		a.err = err.Error()
		return
	}
	rawWrite(filepath.Join(a.dir, "importcfg"), icfg.String())
	archive := filepath.Join(a.dir, "_pkg_.a")
	name := pkg.Path
	if pkg.isMain() {
		name = "main"
	}
	args := []string{"-o", archive, "-trimpath", a.dir + "=>", "-p", name, "-lang=" + m.Lang}
	if !pkg.Asmhdr {
		args = append(args, "-complete")
	}
	args = append(args, "-buildid", action+"/"+action, "-goversion", "go1.26.0", "-c=4", "-nolocalimports", "-importcfg", filepath.Join(a.dir, "importcfg"), "-pack")
	if pkg.Asmhdr {
		args = append(args, "-asmhdr", filepath.Join(a.dir, "go_asm.h"))
	}
	args = append(args, pkg.Files...)
	if pkg.Main != "" {
		file := filepath.Join(a.dir, "_testmain.go")
		if p.Args[1] == "list" {
			file = filepath.Join(cache, sum(pkg.Main)[:20]+"-d")
		}
		rawWrite(file, pkg.Main)
		args = append(args, file)
	}
	_, output, ok := m.runTool(p, toolexec, pkg.id(), "", "compile", args...)
	if !ok {
		a.err = output
		if a.err == "" {
			a.err = "failed"
		}
		return
	}
	data, found := rawRead(archive)
	if !found {
		a.err = "compile succeeded without producing " + archive
		return
	}
	if pkg.Asmhdr {
		if hdr, found := rawRead(filepath.Join(a.dir, "go_asm.h")); !found || !strings.Contains(hdr, "generated by compile") {
			a.err = "compile succeeded without producing go_asm.h"
			return
		}
	}
	a.content = sum(data)[:20]
	a.archive = archive
	a.cached = filepath.Join(cache, a.content+"-d")
	rawWrite(a.cached, data)
	rawWrite(entry, a.content)
	b.Archives[pkg.id()] = a.cached
}

func (m *goModel) linkAction(p *sim.Proc, toolexec []string, dir string, main *goAction, list []*goAction) (image, msg string) {
	_ = os.MkdirAll(filepath.Join(dir, "exe"), 0o777)
	var icfg strings.Builder
	for _, a := range list {
		fmt.Fprintf(&icfg, "packagefile %s=%s\n", a.pkg.Path, a.archive)
	}
	rawWrite(filepath.Join(dir, "importcfg.link"), icfg.String())
	exe := filepath.Join(dir, "exe", "a.out")
	_, output, ok := m.runTool(p, toolexec, main.pkg.id(), "", "link",
		"-o", exe, "-importcfg", filepath.Join(dir, "importcfg.link"), "-buildmode=exe", "-buildid="+main.content, "-extld=gcc", main.archive)
	if !ok {
		return "", "# " + main.pkg.id() + "\n" + output
	}
	image, found := rawRead(exe)
	if !found {
		return "", "link succeeded without producing " + exe
	}
	return image, ""
}

// ---------------------------------------------------------------------------
// packages.Load

var pathPattern = regexp.MustCompile(`^[a-z]`)

// match returns the import paths of packages given by import path or directory.
func (m *goModel) match(dir string, patterns []string) (paths []string) {
	for _, pat := range patterns {
		if pathPattern.MatchString(pat) && m.Pkgs[pat] != nil {
			paths = append(paths, pat)
			continue
		}
		full := pat
		if !filepath.IsAbs(full) {
			full = filepath.Join(dir, pat)
		}
		path := pat
		for _, pkg := range m.Pkgs {
			if pkg.Dir == full {
				path = pkg.Path
			}
		}
		paths = append(paths, path)
	}
	return paths
}

func (m *goModel) load(p *sim.Proc, cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	m.Loads++
	if cfg.Context != nil {
		if err := cfg.Context.Err(); err != nil {
			return nil, err
		}
	}
	if m.BreakLoad != nil {
		if err := m.BreakLoad(cfg, patterns); err != nil {
			return nil, err
		}
	}
	dir := cfg.Dir
	if dir == "" {
		dir = p.Cwd
	}
	paths := m.match(p.Abs(dir), patterns)
	var b *goBuild
	overlay := map[string]string{}
	for _, f := range cfg.BuildFlags {
		if v, ok := strings.CutPrefix(f, "-overlay="); ok {
			var manifest struct{ Replace map[string]string }
			if err := json.Unmarshal([]byte(readFile(v)), &manifest); err != nil {
				return nil, fmt.Errorf("err: exit status 1: stderr: go: reading overlay file %s: %v", v, err)
			}
			overlay = manifest.Replace
		}
	}
	uni, roots := m.plan(paths, cfg.Tests, overlay)
	if cfg.Mode&packages.NeedExportFile != 0 {
		var toolexec string
		args := []string{"/sim/bin/go", "list", "-e", "-export", "-deps"}
		for _, f := range cfg.BuildFlags {
			if v, ok := strings.CutPrefix(f, "-toolexec="); ok {
				toolexec = v
			}
			args = append(args, f)
		}
		args = append(append(args, "--"), patterns...)
		env := cfg.Env
		if env == nil {
			env = simos.Environ()
		}
		m.Nested++
		child := m.w.Spawn(sim.Spec{Name: "go list", Args: args, Env: append(slices.Clone(env), "PWD="+dir), Dir: p.Abs(dir), NoFaults: p.NoFaults}, func(p *sim.Proc) int {
			b = m.build(p, splitQuoted(toolexec), uni, roots, "")
			if strings.HasPrefix(b.Err, "go: ") {
				fmt.Fprintln(p.Stderr, b.Err)
				return 1
			}
			return 0
		})
		m.w.Logf("process %d spawned process %d: go list -export %s", p.Idx, child.Idx, strings.Join(patterns, " "))
		if m.w.OnSpawn != nil {
			m.w.OnSpawn(child)
		}
		if cfg.Context != nil && cfg.Context.Done() != nil {
			exited := make(chan struct{})
			child.OnExit(func() { close(exited) })
			if i, _, _ := sim.Select(false, sim.R(exited), sim.R(cfg.Context.Done())); i == 1 {
				child.Kill("context cancelled")
				return nil, cfg.Context.Err()
			}
		} else {
			child.Wait()
		}
		if child.ExitCode != 0 {
			msg := "killed"
			if b != nil {
				msg = b.Err
			}
			return nil, fmt.Errorf("err: exit status %d: stderr: %s", child.ExitCode, msg)
		}
	} else {
		m.pause()
	}
	return m.describe(cfg, uni, roots, b), nil
}

// describe returns the metadata of packages.
func (m *goModel) describe(cfg *packages.Config, uni map[string]*goPkg, paths []string, b *goBuild) []*packages.Package {
	made := map[string]*packages.Package{}
	var mk func(path string) *packages.Package
	mk = func(path string) *packages.Package {
		if p := made[path]; p != nil {
			return p
		}
		res := &packages.Package{ID: path}
		made[path] = res
		pkg := uni[path]
		if pkg == nil {
			res.PkgPath = path
			if path == "github.com/DataDog/orchestrion" {
				res.Name = "main"
				res.Module = &packages.Module{Path: path, Version: "v1.99.0"}
				return res
			}
			res.Errors = []packages.Error{{Kind: packages.ListError, Msg: fmt.Sprintf("package %s is not in std", path)}}
			return res
		}
		res.Name, res.PkgPath, res.Dir = pkg.Name, pkg.Path, pkg.Dir
		res.GoFiles = slices.Clone(pkg.Files)
		res.CompiledGoFiles = slices.Clone(pkg.Files)
		if cfg.Mode&packages.NeedModule != 0 {
			res.Module = &packages.Module{Path: m.Module, Dir: m.Dir, GoMod: filepath.Join(m.Dir, "go.mod"), Main: true, GoVersion: "1.25"}
		}
		if cfg.Mode&packages.NeedImports != 0 {
			res.Imports = map[string]*packages.Package{}
			for _, d := range pkg.Imports {
				res.Imports[d] = mk(pkg.dep(d))
			}
		}
		if cfg.Mode&packages.NeedForTest != 0 {
			res.ForTest = pkg.ForTest
		}
		if pkg.Err != "" {
			res.Errors = []packages.Error{{Pos: "-", Msg: pkg.Err, Kind: packages.ListError}}
		}
		if b != nil {
			res.ExportFile = b.Archives[path]
			if msg := b.Errors[path]; msg != "" {
				res.Errors = []packages.Error{{Pos: "-", Msg: msg, Kind: packages.UnknownError}}
			}
		}
		return res
	}
	var res []*packages.Package
	for _, path := range paths {
		res = append(res, mk(path))
	}
	return res
}

// ---------------------------------------------------------------------------
// The compiler

var (
	realTool     = filepath.Join(runtime.GOROOT(), "pkg", "tool", runtime.GOOS+"_"+runtime.GOARCH)
	compileMemo  = map[string]compiled{}
	compileCache = os.Getenv("VERIF_COMPILE_CACHE")
)

type compiled struct {
	output  string
	archive string // blank if compilation failed
}

type toolArgs struct {
	out, importcfg, trimpath, pkg, buildid, asmhdr string
	flags, files                                   []string
}

func parseToolArgs(args []string) (t toolArgs) {
	for i := 0; i < len(args); i++ {
		a := args[i]
		val := func() string {
			if i+1 < len(args) {
				i++
				return args[i]
			}
			return ""
		}
		switch a {
		case "-o":
			t.out = val()
		case "-importcfg":
			t.importcfg = val()
		case "-trimpath":
			t.trimpath = val()
		case "-p":
			t.pkg = val()
		case "-buildid":
			t.buildid = val()
		case "-asmhdr":
			t.asmhdr = val()
		case "-lang", "-goversion":
			t.flags = append(t.flags, a, val())
		default:
			if strings.HasPrefix(a, "-") {
				t.flags = append(t.flags, a)
			} else {
				t.files = append(t.files, a)
			}
		}
	}
	return t
}

func readImportcfg(name string) (map[string]string, error) {
	data, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	res := map[string]string{}
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}
		verb, rest, _ := strings.Cut(line, " ")
		k, v, ok := strings.Cut(rest, "=")
		if verb != "packagefile" || !ok || k == "" || v == "" {
			return nil, fmt.Errorf("%s: unknown directive or syntax error: %q", name, line)
		}
		res[k] = v
	}
	return res, nil
}

// arMembers returns the members of an archive.
func arMembers(data string) (map[string]string, error) {
	const magic = "!<arch>\n"
	if !strings.HasPrefix(data, magic) {
		return nil, errors.New("not an archive")
	}
	data = data[len(magic):]
	res := map[string]string{}
	for len(data) > 0 {
		if len(data) < 60 {
			return nil, errors.New("truncated archive")
		}
		name := strings.TrimSpace(data[:16])
		size, err := strconv.Atoi(strings.TrimSpace(data[48:58]))
		if err != nil || data[58:60] != "`\n" {
			return nil, errors.New("corrupt archive header")
		}
		data = data[60:]
		if len(data) < size {
			return nil, errors.New("truncated archive member")
		}
		if _, dup := res[name]; dup {
			return nil, fmt.Errorf("archive has two members named %s", name)
		}
		res[name] = data[:size]
		data = data[min(len(data), size+size&1):]
	}
	return res, nil
}

// pkgdef returns the export data of an archive.
func pkgdef(path string) (string, error) {
	data, err := os.ReadFile(path)
	if err != nil {
		return "", err
	}
	mem, err := arMembers(string(data))
	if err != nil {
		return "", fmt.Errorf("%s: %w", path, err)
	}
	def, ok := mem["__.PKGDEF"]
	if !ok {
		return "", fmt.Errorf("%s: no export data", path)
	}
	return def, nil
}

const simDeps = "__.SIMDEPS"

var linknameDirective = regexp.MustCompile(`(?m)^//go:linkname \S+ (\S+)\.[^./\s]+$`)

func (m *goModel) compileMain(p *sim.Proc) int {
	args := p.Args[1:]
	if len(args) == 1 && args[0] == "-V=full" {
		fmt.Fprintln(p.Stdout, "compile version go1.26.0")
		return 0
	}
	t := parseToolArgs(args)
	path, _ := p.Getenv("TOOLEXEC_IMPORTPATH")
	_, nested := p.Getenv("ORCHESTRION_PKG.RESOLVE_PARENT_ID")
	_, variant := p.Getenv("ORCHESTRION_RESOLVING_TEST_VARIANTS")
	run := &compileRun{Path: path, BuildID: t.buildid, Nested: nested, Variant: variant, Files: map[string]string{}}
	m.Compiles = append(m.Compiles, run)
	if m.OnCompile != nil {
		m.OnCompile(run, true)
		defer m.OnCompile(run, false)
	}
	m.pause()
	fail := func(format string, a ...any) int {
		fmt.Fprintf(p.Stderr, format+"\n", a...)
		return 1
	}
	if m.ToolFails != nil {
		if msg := m.ToolFails("compile", path); msg != "" {
			return fail("%s", msg)
		}
	}
	icfg, err := readImportcfg(t.importcfg)
	if err != nil {
		return fail("%v", err)
	}
	var names []string
	defs := map[string]string{}
	key := append([]string{t.pkg}, t.flags...)
	for name := range icfg {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		def, err := pkgdef(icfg[name])
		if err != nil {
			return fail("could not import %s: %v", name, err)
		}
		defs[name] = sum(def)[:16]
		key = append(key, name, defs[name])
	}
	imports, links := map[string]bool{}, map[string]bool{}
	trim := t.trimpath + ";" + m.w.Root + "=>/root"
	for _, f := range t.files {
		src, ok := rawRead(f)
		if !ok {
			return fail("open %s: no such file or directory", f)
		}
		for _, imp := range fileImports(f, src) {
			if imp != "unsafe" {
				imports[imp] = true
			}
		}
		for _, match := range linknameDirective.FindAllStringSubmatch(src, -1) {
			if match[1] != t.pkg {
				links[match[1]] = true
			}
		}
		run.Files[filepath.Base(f)] = strings.ReplaceAll(src, m.w.Root, "$ROOT")
		key = append(key, strings.ReplaceAll(strings.ReplaceAll(f, filepath.Dir(t.out), ""), m.w.Root, "$ROOT"), strings.ReplaceAll(src, m.w.Root, "$ROOT"))
	}
	for imp := range imports {
		run.Imports = append(run.Imports, imp)
	}
	sort.Strings(run.Imports)
	res, known := compileMemo[sum(key...)]
	if !known {
		if res, err = m.reallyCompile(sum(key...), t, trim); err != nil {
			m.w.Violate("infra", "compiler", "cannot run the compiler: %v", err)
			return 2
		}
		compileMemo[sum(key...)] = res
	}
	if res.archive == "" {
		return fail("%s", res.output)
	}
	var deps strings.Builder
	for _, imp := range run.Imports {
		fmt.Fprintf(&deps, "import %s %s\n", imp, defs[imp])
	}
	var ls []string
	for l := range links {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		fmt.Fprintf(&deps, "link %s\n", l)
	}
	body := deps.String()
	member := fmt.Sprintf("%-16s%-12d%-6d%-6d%-8o%-10d`\n%s", simDeps, 0, 0, 0, 0o644, len(body), body)
	if len(body)%2 == 1 {
		member += "\n"
	}
	rawWrite(t.out, res.archive+member)
	if t.asmhdr != "" {
		rawWrite(t.asmhdr, "// generated by compile -asmhdr from package "+t.pkg+"\n")
	}
	run.OK = true
	return 0
}

func (m *goModel) reallyCompile(key string, t toolArgs, trim string) (res compiled, err error) {
	if compileCache != "" {
		if data, err := os.ReadFile(filepath.Join(compileCache, key)); err == nil {
			if bytes.HasPrefix(data, []byte("!<arch>")) {
				return compiled{archive: string(data)}, nil
			}
			return compiled{output: string(data)}, nil
		}
	}
	dir, err := os.MkdirTemp("", "simcompile")
	if err != nil {
		return res, err
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out.a")
	log, err := os.Create(filepath.Join(dir, "log"))
	if err != nil {
		return res, err
	}
	defer log.Close()
	args := []string{"-o", out, "-trimpath", trim, "-p", t.pkg, "-importcfg", t.importcfg}
	args = append(append(args, slices.DeleteFunc(slices.Clone(t.flags), func(f string) bool {
		return strings.HasPrefix(f, "-c=") || strings.HasPrefix(f, "-goversion") || f == "go1.26.0"
	})...), t.files...)
	cmd := exec.Command(filepath.Join(realTool, "compile"), args...)
	cmd.Stdout, cmd.Stderr = log, log
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir, "GOMAXPROCS=2"}
	if err := cmd.Run(); err != nil {
		if _, exit := err.(*exec.ExitError); !exit {
			return res, err
		}
		data, _ := os.ReadFile(log.Name())
		res.output = strings.ReplaceAll(string(data), m.w.Root, "/root")
		if res.output == "" {
			return res, err
		}
	} else {
		data, err := os.ReadFile(out)
		if err != nil {
			return res, err
		}
		res.archive = string(data)
	}
	if compileCache != "" {
		tmp := filepath.Join(dir, "entry")
		if os.WriteFile(tmp, []byte(res.output+res.archive), 0o644) == nil {
			if os.Rename(tmp, filepath.Join(compileCache, key)) != nil {
				data := []byte(res.output + res.archive)
				tmp := filepath.Join(compileCache, fmt.Sprintf("tmp-%d-%s", os.Getpid(), key))
				if os.WriteFile(tmp, data, 0o644) == nil {
					_ = os.Rename(tmp, filepath.Join(compileCache, key))
				}
			}
		}
	}
	return res, nil
}

// ---------------------------------------------------------------------------
// The linker

func (m *goModel) linkMain(p *sim.Proc) int {
	args := p.Args[1:]
	if len(args) == 1 && args[0] == "-V=full" {
		fmt.Fprintln(p.Stdout, "link version go1.26.0")
		return 0
	}
	t := parseToolArgs(args)
	run := &linkRun{}
	m.Links = append(m.Links, run)
	m.pause()
	fail := func(format string, a ...any) int {
		fmt.Fprintf(p.Stderr, "link: "+format+"\n", a...)
		return 1
	}
	if m.ToolFails != nil {
		if msg := m.ToolFails("link", ""); msg != "" {
			return fail("%s", msg)
		}
	}
	icfg, err := readImportcfg(t.importcfg)
	if err != nil {
		return fail("%v", err)
	}
	if len(t.files) != 1 {
		return fail("expected one input, got %q", t.files)
	}
	var lines []string
	seen := map[string]string{} // hash of export data by package
	links := map[string]string{}
	var visit func(name, file, want, from string) error
	visit = func(name, file, want, from string) error {
		if def, ok := seen[name]; ok {
			if want != "" && want != def {
				return fmt.Errorf("fingerprint mismatch: %s has %s, import from %s expecting %s", name, def, from, want)
			}
			return nil
		}
		data, err := os.ReadFile(file)
		if err != nil {
			return fmt.Errorf("cannot open file %s: %v", file, err)
		}
		mem, err := arMembers(string(data))
		if err != nil {
			return fmt.Errorf("%s: %v", file, err)
		}
		def := sum(mem["__.PKGDEF"])[:16]
		seen[name] = def
		if want != "" && want != def {
			return fmt.Errorf("fingerprint mismatch: %s has %s, import from %s expecting %s", name, def, from, want)
		}
		lines = append(lines, fmt.Sprintf("%s %s %s", name, sum(mem["_go_.o"])[:16], sum(mem[simDeps])[:16]))
		for _, line := range strings.Split(strings.TrimSpace(mem[simDeps]), "\n") {
			f := strings.Fields(line)
			switch {
			case len(f) == 3 && f[0] == "import":
				file := icfg[f[1]]
				if file == "" {
					return fmt.Errorf("cannot find package %s (imported by %s)", f[1], name)
				}
				if err := visit(f[1], file, f[2], name); err != nil {
					return err
				}
			case len(f) == 2 && f[0] == "link":
				links[f[1]] = name
			}
		}
		return nil
	}
	if err := visit("main", t.files[0], "", ""); err != nil {
		return fail("%v", err)
	}
	for target, from := range links {
		if _, ok := seen[target]; !ok {
			return fail("%s: relocation target %s.* not defined", from, target)
		}
	}
	sort.Strings(lines)
	run.Image = strings.Join(lines, "\n") + "\n"
	run.OK = true
	rawWrite(t.out, run.Image)
	return 0
}
