package harness

import (
	"context"
	"errors"
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/DataDog/orchestrion/internal/toolexec/aspect/linkdeps"
	"github.com/DataDog/orchestrion/internal/toolexec/proxy"
	"github.com/DataDog/orchestrion/internal/verifsim/sim"
)

func init() {
	register(&sim.Scenario{Name: "compile-io", Property: "P14", Run: func(w *sim.World) { runCompile(w, "P14") }, Real: append(realCore[:len(realCore):len(realCore)], "proxied compile command: start, re-use, link.deps, finish"), Stub: append(stubCore[:len(stubCore):len(stubCore)], "compiler (writes recognizable archives)")})
	register(&sim.Scenario{Name: "compile", Property: "P03", Run: func(w *sim.World) { runCompile(w, "P03") }, Real: append(realCore[:len(realCore):len(realCore)], "proxied compile command: start, re-use, link.deps, finish"), Stub: append(stubCore[:len(stubCore):len(stubCore)], "compiler (writes recognizable archives)")})
	register(&sim.Scenario{Name: "compile-outcome", Property: "P02", Run: func(w *sim.World) { runCompile(w, "P02") }, Real: append(realCore[:len(realCore):len(realCore)], "proxied compile command: start, re-use, link.deps, finish"), Stub: append(stubCore[:len(stubCore):len(stubCore)], "compiler (writes recognizable archives)")})
}

// arMember formats a member of an archive.
func arMember(name, body string) string {
	s := fmt.Sprintf("%-16s%-12d%-6d%-6d%-8o%-10d`\n%s", name, 0, 0, 0, 0o644, len(body), body)
	if len(body)%2 == 1 {
		s += "\n"
	}
	return s
}

// ccJob is a package that is compiled by several processes.
type ccJob struct {
	path, id string
	asmhdr   bool
	deps     []string // import paths with link.deps
	expect   []string // lines of link.deps
	badCfg   bool     // the importcfg file refers to a corrupt archive
	runs     []*ccRun
}

// ccRun is one of the processes.
type ccRun struct {
	job           *ccJob
	proc          *sim.Proc
	out, hdr      string // names
	owner         bool
	toolErr       string // what the compiler said
	base          string // what the compiler wrote
	hdrBase       string
	err           error
	returned      bool
	archive       string // what is there when the process is done
	header        string
	hasArchive    bool
	hasHeader     bool
	begin, notify int
	end           int
}

// runCompile simulates processes that compile the same packages through the proxied compile command.
func runCompile(w *sim.World, prop string) {
	swarm(w)
	w.FS.Chunk = sim.Pick(w, 32*1024, 512)
	srv := startServer(w, nil, sim.Spec{Dir: w.Root})
	if srv.Err != nil {
		w.Violate(prop, "server-start", "job server did not start: %v", srv.Err)
		return
	}
	faulty := !w.Chance(4)

	// Dependencies, some of which have something to link.
	var depPaths []string
	depCfg := map[string]string{}
	depLines := map[string][]string{}
	for i := range 1 + w.Choose(3) {
		path := fmt.Sprintf("example.com/dep%d", i)
		data := "!<arch>\n" + arMember("__.PKGDEF", content(path, 100+w.Choose(3)*3000))
		if w.Chance(2) {
			lines := []string{fmt.Sprintf("import\texample.com/woven%d", w.Choose(3))}
			if w.Chance(2) {
				lines = append(lines, fmt.Sprintf("relocation\texample.com/linked%d", w.Choose(3)))
			}
			depLines[path] = lines
			data += arMember("link.deps", "#"+linkdeps.Filename+"@v2\n"+strings.Join(lines, "\n")+"\n")
		}
		file := filepath.Join(w.Root, "deps", fmt.Sprintf("dep%d.a", i))
		rawWrite(file, data)
		depCfg[path] = file
		depPaths = append(depPaths, path)
	}
	corrupt := filepath.Join(w.Root, "deps", "corrupt.a")
	rawWrite(corrupt, "!<arch>\nthis is not an archive at all, but quite long nevertheless, so that it has a header")

	var jobs []*ccJob
	for i := range 1 + w.Choose(2) {
		j := &ccJob{path: fmt.Sprintf("example.com/p%d", i), id: fmt.Sprintf("id%d/id%d", i, i), asmhdr: w.Chance(2)}
		seen := map[string]bool{}
		for _, d := range depPaths {
			if w.Chance(3) {
				continue
			}
			j.deps = append(j.deps, d)
			for _, l := range depLines[d] {
				seen[l] = true
			}
		}
		for l := range seen {
			j.expect = append(j.expect, l)
		}
		sort.Strings(j.expect)
		j.badCfg = w.Chance(12)
		jobs = append(jobs, j)
	}

	if faulty {
		w.FS.Cfg.Mean = sim.Pick(w, 8, 25, 60)
		w.FS.Cfg.Max = 1 + w.Choose(3)
		w.FS.Cfg.Kinds = map[string]bool{"err": true, "short": true, "bad": true, "delay": true}
		onServer := w.Choose(3)
		w.FS.Cfg.Filter = func(p *sim.Proc, op, path string) bool {
			return onServer == 0 || (p == srv.Proc) == (onServer == 1)
		}
	}

	g := &group{w: w}
	env := append(append([]string{}, sim.CurProc().Env...), "ORCHESTRION_JOBSERVER_URL="+srv.URL)
	serial := 0
	start := func(g *group, j *ccJob) {
		serial++
		work := filepath.Join(w.Root, "tmp", fmt.Sprintf("go-build%d", serial))
		dir := filepath.Join(work, "b002")
		cfg := "# import config\n"
		for _, d := range j.deps {
			cfg += fmt.Sprintf("packagefile %s=%s\n", d, depCfg[d])
		}
		if j.badCfg {
			cfg += "packagefile example.com/corrupt=" + corrupt + "\n"
		}
		rawWrite(filepath.Join(dir, "importcfg"), cfg)
		run := &ccRun{job: j, out: filepath.Join(dir, "_pkg_.a")}
		args := []string{"/sim/tool/compile", "-o", run.out, "-trimpath", dir + "=>", "-p", j.path, "-buildid", j.id, "-importcfg", filepath.Join(dir, "importcfg"), "-pack"}
		if j.asmhdr {
			run.hdr = filepath.Join(dir, "go_asm.h")
			args = append(args, "-asmhdr", run.hdr)
		}
		args = append(args, filepath.Join(w.Root, "src", "a.go"))
		j.runs = append(j.runs, run)
		tag := fmt.Sprintf("%s#%d", j.path, serial)
		size, hsize := sim.Pick(w, 200, 0, 5000, 40000, 70001), sim.Pick(w, 80, 0, 3000)
		switch w.Choose(6) {
		case 0:
			run.toolErr = fmt.Sprintf("compiler: %s is wrong (%d)", j.path, serial)
		}
		slow := time.Duration(0)
		if w.Chance(3) {
			slow = time.Duration(w.Choose(3000)) * time.Millisecond
		}
		run.proc = w.Spawn(sim.Spec{Name: fmt.Sprintf("compile%d", serial), Dir: w.Root, Env: env}, func(p *sim.Proc) int {
			ctx := context.Background()
			run.begin = w.Step()
			defer func() {
				run.end = w.Step()
				run.archive, run.hasArchive = rawRead(run.out)
				if run.hdr != "" {
					run.header, run.hasHeader = rawRead(run.hdr)
				}
			}()
			cmd, err := proxy.ParseCommand(ctx, j.path, args)
			if err != nil || cmd == nil {
				run.err, run.returned = err, true
				w.Logf("%s: %s: re-used: %v", p.Name, j.path, err)
				run.owner = false
				if err != nil {
					return 1
				}
				return 0
			}
			run.owner = true
			w.Logf("%s: %s: to be built", p.Name, j.path)
			if slow > 0 {
				sim.Sleep(slow)
			}
			var cmdErr error
			if run.toolErr != "" {
				cmdErr = errors.New(run.toolErr)
			} else {
				run.base = "!<arch>\n" + arMember("__.PKGDEF", content(tag, size))
				rawWrite(run.out, run.base)
				if run.hdr != "" {
					run.hdrBase = content("hdr "+tag, hsize)
					rawWrite(run.hdr, run.hdrBase)
				}
			}
			run.err, run.returned = errors.Join(cmdErr, cmd.Close(ctx, cmdErr)), true
			w.Logf("%s: %s: built: %v", p.Name, j.path, run.err)
			if run.err != nil {
				return 1
			}
			return 0
		})
		g.ps = append(g.ps, run.proc)
	}
	for _, j := range jobs {
		for range 1 + w.Choose(4) {
			start(g, j)
		}
	}
	g.wait()
	// Once faults stop, those who ask later are told the same.
	w.FS.Cfg.Mean = 0
	fired := w.FS.Fired() > 0
	g2 := &group{w: w}
	late := serial
	for _, j := range jobs {
		start(g2, j)
	}
	_ = late
	g2.wait()

	for _, j := range jobs {
		checkCompile(w, prop, j, fired)
	}
	srv.Proc.Kill("end of scenario")
}

func checkCompile(w *sim.World, prop string, j *ccJob, fired bool) {
	var owner *ccRun
	for _, r := range j.runs {
		if r.owner {
			if owner != nil {
				w.Violate(prop, "built-twice", "%s and %s were both told to build %s", owner.proc.Name, r.proc.Name, j.path)
			}
			owner = r
		}
	}
	for i, r := range j.runs {
		last := i == len(j.runs)-1
		switch {
		case r.proc.Panic != "":
			w.Violate(prop, "panic", "%s panicked: %v", r.proc.Name, r.proc.Panic)
		case !r.returned:
			w.Violate(prop, "no-answer", "%s never returned", r.proc.Name)
		case r.err == nil && r.owner:
			want := r.base
			if len(j.expect) > 0 {
				want += arMember("link.deps", linkDepsBody(j.expect))
			}
			if prop == "P14" && !sameArchive(r.archive, r.base, j.expect) {
				w.Violate(prop, "incomplete-archive", "%s succeeded in building %s, but the archive is %s instead of %s", r.proc.Name, j.path, tail(r.archive), tail(want))
			}
			if r.header != r.hdrBase && prop != "P02" {
				w.Violate(prop, "header-changed", "%s succeeded in building %s, but the header is %s instead of %s", r.proc.Name, j.path, short(r.header), short(r.hdrBase))
			}
		case r.err == nil:
			// Told it can re-use a build.
			switch {
			case owner == nil:
				w.Violate(prop, "reused-nothing", "%s succeeded without building %s, which no process built", r.proc.Name, j.path)
			case owner.toolErr != "":
				w.Violate(prop, "reused-failure", "%s succeeded re-using %s, whose compilation failed", r.proc.Name, j.path)
			case r.archive != owner.archive || !r.hasArchive:
				w.Violate(prop, "corrupt-archive", "%s re-used %s successfully, but has %s instead of %s", r.proc.Name, j.path, describe(r.archive, r.hasArchive), describe(owner.archive, owner.hasArchive))
			case r.hdr != "" && (r.header != owner.header || !r.hasHeader):
				w.Violate(prop, "corrupt-header", "%s re-used %s successfully, but has header %s instead of %s", r.proc.Name, j.path, describe(r.header, r.hasHeader), describe(owner.header, owner.hasHeader))
			case prop == "P14" && !sameArchive(r.archive, owner.base, j.expect):
				w.Violate(prop, "incomplete-archive", "%s re-used %s, but the archive is %s", r.proc.Name, j.path, tail(r.archive))
			}
		case r.owner:
			if r.toolErr != "" && !strings.Contains(r.err.Error(), r.toolErr) {
				w.Violate(prop, "lost-error", "%s does not report that the compilation of %s failed: %v", r.proc.Name, j.path, r.err)
			}
			if r.toolErr == "" && !fired {
				w.Violate(prop, "failed", "%s failed to build %s although nothing failed: %v", r.proc.Name, j.path, r.err)
			}
		default:
			switch {
			case owner != nil && owner.toolErr != "":
				if !fired && !strings.Contains(r.err.Error(), owner.toolErr) {
					w.Violate(prop, "lost-error", "%s was not told why the compilation of %s failed, but: %v", r.proc.Name, j.path, r.err)
				}
			case j.badCfg:
			case last && owner != nil && owner.err == nil:
				w.Violate(prop, "failed", "%s was built successfully by %s, yet %s could not re-use it afterwards: %v", j.path, owner.proc.Name, r.proc.Name, r.err)
			case !fired:
				w.Violate(prop, "failed", "%s failed to re-use %s although nothing failed: %v", r.proc.Name, j.path, r.err)
			}
		}
	}
}

func linkDepsBody(lines []string) string {
	return "#" + linkdeps.Filename + "@v2\n" + strings.Join(lines, "\n") + "\n"
}

// sameArchive tells whether an archive is what the compiler wrote, plus the given link-time dependencies.
func sameArchive(data, base string, expect []string) bool {
	rest, ok := strings.CutPrefix(data, base)
	if !ok {
		return false
	}
	if len(expect) == 0 {
		return rest == ""
	}
	mem, err := arMembers("!<arch>\n" + rest)
	if err != nil || len(mem) != 1 {
		return false
	}
	var lines []string
	for _, l := range strings.Split(mem["link.deps"], "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "#") {
			lines = append(lines, l)
		}
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n") == strings.Join(expect, "\n")
}

func tail(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("...%q (%d bytes)", s[len(s)-200:], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func describe(s string, ok bool) string {
	if !ok {
		return "nothing"
	}
	return short(s)
}
