package main

// Loading the code under test together with the harnesses, and the native
// replay of counterexamples.

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "vimagination.zapto.org/limage"

var (
	verifDir = "/verif"
	repoDir  = "/repo"
	workDir  = ""
)

// Harness is one check function.
type Harness struct {
	Pkg  string // directory below harness/
	Name string
	Prop string
	Opts map[string]string
}

func (h *Harness) opt(name, tier, def string) string {
	if v, ok := h.Opts[name+"."+tier]; ok {
		return v
	}
	if v, ok := h.Opts[name]; ok {
		return v
	}
	return def
}

func (h *Harness) optInt(name, tier string, def int) int {
	n, err := strconv.Atoi(h.opt(name, tier, ""))
	if err != nil {
		return def
	}
	return n
}

// scanHarnesses finds the //vsym:check directives.
func scanHarnesses() []*Harness {
	var r []*Harness
	files, _ := filepath.Glob(filepath.Join(verifDir, "harness", "*", "*.go"))
	sort.Strings(files)
	for _, f := range files {
		fh, err := os.Open(f)
		if err != nil {
			continue
		}
		sc := bufio.NewScanner(fh)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		var pend []*Harness
		for sc.Scan() {
			l := strings.TrimSpace(sc.Text())
			if strings.HasPrefix(l, "//vsym:check ") {
				fs := strings.Fields(l)
				h := &Harness{Pkg: filepath.Base(filepath.Dir(f)), Prop: fs[1], Opts: map[string]string{}}
				for _, o := range fs[2:] {
					if k, v, ok := strings.Cut(o, "="); ok {
						h.Opts[k] = v
					}
				}
				pend = append(pend, h)
			} else if strings.HasPrefix(l, "func ") && len(pend) > 0 {
				n := strings.TrimPrefix(l, "func ")
				n = n[:strings.IndexAny(n, "([")]
				for _, h := range pend {
					h.Name = n
					r = append(r, h)
				}
				pend = nil
			}
		}
		fh.Close()
	}
	return r
}

// overlay maps /repo/zzverif/... to /verif/harness/... (contents).
func overlayFiles() map[string]string {
	r := map[string]string{}
	files, _ := filepath.Glob(filepath.Join(verifDir, "harness", "*", "*.go"))
	for _, f := range files {
		r[filepath.Join(repoDir, "zzverif", filepath.Base(filepath.Dir(f)), filepath.Base(f))] = f
	}
	return r
}

func writeModfile() string {
	b, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		fatalf("%v", err)
	}
	s := string(b) + "\n"
	for _, n := range []string{"byteio", "memio", "parser"} {
		s += fmt.Sprintf("replace vimagination.zapto.org/%s => %s\n", n, filepath.Join(verifDir, "stubs", n))
	}
	os.MkdirAll(workDir, 0o755)
	p := filepath.Join(workDir, "go.mod")
	os.WriteFile(p, []byte(s), 0o644)
	if g, err := os.ReadFile(filepath.Join(repoDir, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(workDir, "go.sum"), g, 0o644)
	}
	return p
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GONOSUMDB=*", "GOFLAGS=-mod=mod", "GONOSUMCHECK=1", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0")
}

func load(pkgs []string) (*Prog, []*packages.Package) {
	mod := writeModfile()
	ov := map[string][]byte{}
	for k, f := range overlayFiles() {
		b, err := os.ReadFile(f)
		if err != nil {
			fatalf("%v", err)
		}
		ov[k] = b
	}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, modPath+"/zzverif/"+p)
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repoDir,
		Overlay:    ov,
		BuildFlags: []string{"-modfile=" + mod},
		Env:        goEnv(),
	}
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		fatalf("load: %v", err)
	}
	bad := false
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad = true
			fmt.Fprintln(os.Stderr, e)
		}
	})
	if bad {
		fatalf("the code under test does not compile with the harnesses")
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{prog: prog, pkgs: map[string]*ssa.Package{}, overrides: map[string]*ssa.Function{}, pure: map[*ssa.Function]int{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	packages.Visit(pk, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath+"/zzverif/") {
			return
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if t, ok := strings.CutPrefix(c.Text, "//vsym:replace "); ok {
						fn := P.pkgs[p.PkgPath].Func(fd.Name.Name)
						for _, n := range strings.Fields(t) {
							P.overrides[n] = fn
						}
					}
				}
			}
		}
	})
	return P, pk
}

// ---------- native replay ----------

var (
	replayMu  sync.Mutex
	replayBin = map[string]string{}
)

func goTool() string {
	if p, err := exec.LookPath("go"); err == nil {
		return p
	}
	return "/usr/local/go/bin/go"
}

func buildReplay(pkg string) (string, error) {
	if p := replayBin[pkg]; p != "" {
		return p, nil
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"%s/zzverif/vsym\"\n\th \"%s/zzverif/%s\"\n)\n\nfunc main() {\n\tvsym.Main(map[string]func(){\n", modPath, modPath, pkg)
	seen := map[string]bool{}
	for _, h := range scanHarnesses() {
		if h.Pkg == pkg && !seen[h.Name] {
			seen[h.Name] = true
			fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", h.Name, h.Name)
		}
	}
	sb.WriteString("\t})\n}\n")
	dir := filepath.Join(workDir, "replay-"+pkg)
	os.MkdirAll(dir, 0o755)
	mainFile := filepath.Join(dir, "main.go")
	os.WriteFile(mainFile, []byte(sb.String()), 0o644)
	ov := map[string]string{}
	for k, v := range overlayFiles() {
		ov[k] = v
	}
	ov[filepath.Join(repoDir, "zzverif", "replaymain", "main.go")] = mainFile
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, b, 0o644)
	bin := filepath.Join(dir, "replay")
	cmd := exec.Command(goTool(), "build", "-modfile="+writeModfile(), "-overlay="+ovf, "-o", bin, modPath+"/zzverif/replaymain")
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the replay: %v\n%s", err, out)
	}
	replayBin[pkg] = bin
	return bin, nil
}

// nativeReplay runs the harness against the real compiled code on the inputs
// of the file; ok reports that the violation was reproduced.
func nativeReplay(h *Harness, file string) (string, bool) {
	replayMu.Lock()
	bin, err := buildReplay(h.Pkg)
	replayMu.Unlock()
	if err != nil {
		return err.Error(), false
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 12000000; exec \"$0\" \"$@\"", bin, h.Name, file)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	cmd.Dir = workDir
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=8GiB", "GOTRACEBACK=single")
	out, err := cmd.CombinedOutput()
	s := string(out)
	if ctx.Err() != nil {
		return "did not finish in 60 s", true
	}
	for _, l := range strings.Split(s, "\n") {
		switch {
		case strings.HasPrefix(l, "VSYM-FAIL"), strings.HasPrefix(l, "VSYM-PANIC"):
			return clip(s, 2000), true
		case strings.HasPrefix(l, "fatal error:"), strings.HasPrefix(l, "panic:"), strings.HasPrefix(l, "runtime:"):
			if strings.Contains(s, "VSYM-INTERNAL") {
				return clip(s, 2000), false
			}
			return clip(s, 2000), true
		}
	}
	return clip(s, 2000), false
}
