package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/hashicorp/hcl2"
const zz = modPath + "/zzverif"

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "verif: "+f+"\n", a...)
	os.Exit(3)
}

// overlayFiles maps /repo/zzverif/<x> to /verif/harness/<x>. A directory
// inside an area that has a COPY file ("<dir of the repository> <file left
// out>...") also gets the current sources of that directory, which is a
// command and thus cannot be imported; only the package clause is changed and
// os.Exit is replaced by exit, which the harness declares if it is needed. The
// copies are written below tmp.
func overlayFiles(repo, harnessDir string, dirs []string, tmp string) map[string]string {
	res := map[string]string{}
	for _, d := range dirs {
		src := filepath.Join(harnessDir, d)
		es, err := os.ReadDir(src)
		if err != nil {
			fatal("harness dir: %v", err)
		}
		for _, e := range es {
			if e.IsDir() {
				sub := filepath.Join(d, e.Name())
				for dst, src := range overlayFiles(repo, harnessDir, []string{sub}, tmp) {
					res[dst] = src
				}
			}
			if strings.HasSuffix(e.Name(), ".go") {
				res[filepath.Join(repo, "zzverif", d, e.Name())] = filepath.Join(src, e.Name())
			}
			if e.Name() == "COPY" {
				copyCommand(repo, filepath.Join(src, "COPY"), d, tmp, res)
			}
		}
	}
	return res
}

var mainClause = regexp.MustCompile(`(?m)^package main\b`)

var exitCall = regexp.MustCompile(`\bos\.Exit\(`)

func copyCommand(repo, list, d, tmp string, res map[string]string) {
	b, err := os.ReadFile(list)
	if err != nil {
		fatal("%v", err)
	}
	words := strings.Fields(string(b))
	from := filepath.Join(repo, words[0])
	es, err := os.ReadDir(from)
	if err != nil {
		fatal("%v", err)
	}
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") || slices.Contains(words[1:], e.Name()) {
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, e.Name()))
		if err != nil {
			fatal("%v", err)
		}
		b = mainClause.ReplaceAll(b, []byte("package "+filepath.Base(d)))
		b = exitCall.ReplaceAll(b, []byte("exit("))
		to := filepath.Join(tmp, d, e.Name())
		if err := os.MkdirAll(filepath.Dir(to), 0o755); err != nil {
			fatal("%v", err)
		}
		if err := os.WriteFile(to, b, 0o644); err != nil {
			fatal("%v", err)
		}
		res[filepath.Join(repo, "zzverif", d, e.Name())] = to
	}
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off")
}

func loadProgram(repo, harnessDir, area string) *Program {
	tmp, err := os.MkdirTemp("", "verif-src-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	ov := overlayFiles(repo, harnessDir, []string{"sym", "model", "lib", area}, tmp)
	overlay := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			fatal("%v", err)
		}
		overlay[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay,
		BuildFlags: []string{"-tags=math_big_pure_go,purego"},
		Env:        goEnv(),
	}
	pkgs, err := packages.Load(cfg, "./zzverif/"+area, "./zzverif/model", "./zzverif/sym")
	if err != nil {
		fatal("load: %v", err)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintf(os.Stderr, "load error: %s: %v\n", p.PkgPath, e)
			bad = true
		}
	})
	if bad {
		fatal("source does not load")
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, tt: &typeTable{}, funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]int{}, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, models: map[string]*ssa.Function{}, repo: repo}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	_ = spkgs
	intTI = p.tt.get(types.Typ[types.Int])
	p.strT = p.tt.get(types.Typ[types.String])
	p.rtErrT = p.tt.get(p.pkgs[zz+"/sym"].Pkg.Scope().Lookup("RuntimeError").Type())
	if rp := p.pkgs["reflect"]; rp != nil {
		p.rvalT = p.tt.get(rp.Pkg.Scope().Lookup("Value").Type())
	}
	p.loadModels()
	return p
}

// loadModels reads //model:<name> directives: function doc comments are not in
// SSA, so the model package exports a naming table instead: each model function
// named M_xxx is registered through the Models map literal in model.go parsed
// from its //model: comment lines.
func (p *Program) loadModels() {
	mp := p.pkgs[zz+"/model"]
	if mp == nil {
		return
	}
	b, err := os.ReadFile(filepath.Join(harnessRoot, "model", "model.go"))
	if err != nil {
		fatal("%v", err)
	}
	lines := strings.Split(string(b), "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "//model:") {
			target := strings.TrimSpace(strings.TrimPrefix(l, "//model:"))
			for j := i + 1; j < len(lines); j++ {
				if strings.HasPrefix(lines[j], "func ") {
					nm := strings.TrimPrefix(lines[j], "func ")
					nm = nm[:strings.IndexAny(nm, "([")]
					f := mp.Func(nm)
					if f == nil {
						fatal("model func %s not found", nm)
					}
					p.models[target] = f
					break
				}
			}
		}
	}
}

// package initialisation: packages whose init is not interpreted
func skipInit(path string) bool {
	switch path {
	case "runtime", "os", "syscall", "reflect", "internal/reflectlite", "time", "sync", "sync/atomic", "internal/poll",
		"internal/cpu", "internal/godebug", "os/exec", "os/signal", "os/user", "io/fs", "internal/testlog", "log", "testing",
		"context", "net", "crypto/rand", "math/rand", "unique", "internal/sync", "iter", "hash/maphash", "io/ioutil", "path/filepath",
		"internal/bisect", "internal/oserror", "hash/crc32", "encoding/gob", "log/slog", "runtime/debug", "testing/internal/testdeps":
		return true
	}
	if strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/syscall") || strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "net/") || strings.HasPrefix(path, "internal/poll") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "internal/abi") || strings.HasPrefix(path, "internal/goarch") || strings.HasPrefix(path, "internal/bytealg") {
		return true
	}
	return false
}

// initOrder returns packages reachable from root in dependency order.
func initOrder(root *types.Package) []*types.Package {
	var out []*types.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		imps := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, q := range imps {
			visit(q)
		}
		out = append(out, p)
	}
	visit(root)
	return out
}

func (m *Machine) runInits(entry *Func) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if ab, ok := r.(engineAbort); ok {
				msg = ab.msg
				return
			}
			msg = fmt.Sprintf("%v at %s", r, m.where())
			fmt.Fprintln(os.Stderr, msg)
			panic(r)
		}
	}()
	pkgs := initOrder(entry.fn.Pkg.Pkg)
	if mp := m.p.pkgs[zz+"/model"]; mp != nil {
		pkgs = append(initOrder(mp.Pkg), pkgs...)
	}
	done := map[*types.Package]bool{}
	save := m.maxSteps
	m.maxSteps = 1 << 40
	m.initMode = true
	for _, tp := range pkgs {
		if done[tp] {
			continue
		}
		done[tp] = true
		if skipInit(tp.Path()) {
			continue
		}
		sp := m.p.pkgs[tp.Path()]
		if sp == nil {
			continue
		}
		fn := sp.Func("init")
		if fn == nil {
			continue
		}
		f := m.p.fnOf(fn)
		m.top = nil
		m.done = false
		m.depth = 0
		m.pushCall(f, nil, nil, noReg)
		m.run()
		if m.panicked {
			return "panic in init of " + tp.Path()
		}
	}
	m.initMode = false
	m.maxSteps = save
	m.undo = m.undo[:0]
	m.epoch++
	return ""
}
