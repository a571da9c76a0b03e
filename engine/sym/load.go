package sym

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/engine/smt"
	"verif/engine/term"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ZZMarquis/gm"

// Engine is a loaded program: /repo's current packages plus the contract files.
type Engine struct {
	FailedAt  atomic.Int64  // when the first obligation failed
	FailGrace time.Duration // how long proofs go on after that (0: for ever)
	Fset      *token.FileSet
	Prog      *ssa.Program
	Pkgs      map[string]*ssa.Package // by path relative to the module ("sm3", "sm2/cert")
	Dir       string                  // scratch copy
	Repo      string
	contracts map[*ssa.Function]*ssa.Function
	ghostPos  map[string]bool
	mu        sync.Mutex
	built     map[*ssa.Package]bool
	Broken    []Broken // ghost functions that no longer type-check
	LoadTime  time.Duration
	inline    map[string]bool
	all       map[string]*packages.Package
	models    map[string]*ssa.Function // contracts of external functions (ghost code)
	tags      map[*ssa.Function][]string
}

// std packages whose source is executed symbolically (roots, so that bodies are available).
var stdRoots = []string{"encoding/binary", "math/bits", "crypto/elliptic"}

// Load copies the repository's non-test sources and the contract files into a scratch module and builds SSA.
func Load(repo, verif string, pkgs []string) (*Engine, error) {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "gvload")
	if err != nil {
		return nil, err
	}
	e := &Engine{Dir: dir, Repo: repo, Pkgs: map[string]*ssa.Package{}, contracts: map[*ssa.Function]*ssa.Function{}, ghostPos: map[string]bool{}, built: map[*ssa.Package]bool{}, inline: map[string]bool{}, models: map[string]*ssa.Function{}, tags: map[*ssa.Function][]string{}}
	cp := func(src, dst string) error {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		os.MkdirAll(filepath.Dir(dst), 0o755)
		return os.WriteFile(dst, b, 0o644)
	}
	err = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if rel != "." && strings.HasPrefix(fi.Name(), ".") {
				return filepath.SkipDir
			}
			return nil
		}
		if rel == "go.mod" || rel == "go.sum" || strings.HasSuffix(rel, ".go") && !strings.HasSuffix(rel, "_test.go") {
			return cp(p, filepath.Join(dir, rel))
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	// the contract files use generics; below Go 1.22 the language level changes no semantics
	if b, err := os.ReadFile(filepath.Join(dir, "go.mod")); err == nil {
		ls := strings.Split(string(b), "\n")
		for i, l := range ls {
			var a, c int
			if n, _ := fmt.Sscanf(strings.TrimSpace(l), "go %d.%d", &a, &c); n == 2 && a == 1 && c < 18 {
				ls[i] = "go 1.18"
			}
		}
		os.WriteFile(filepath.Join(dir, "go.mod"), []byte(strings.Join(ls, "\n")), 0o644)
	}
	cdir := filepath.Join(verif, "contracts")
	var ghostFiles []string
	filepath.Walk(cdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(cdir, p)
		if rel == "zzgv/gv.go" || true {
			if err := cp(p, filepath.Join(dir, rel)); err == nil {
				ghostFiles = append(ghostFiles, rel)
			}
		}
		return nil
	})
	for _, g := range ghostFiles {
		e.ghostPos[filepath.Join(dir, g)] = true
	}
	var patterns []string
	for _, p := range pkgs {
		patterns = append(patterns, "./"+p)
	}
	patterns = append(patterns, "./zzgv")
	patterns = append(patterns, stdRoots...)
	for attempt := 0; attempt < 6; attempt++ {
		e.Fset = token.NewFileSet()
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile,
			Dir:  dir, Fset: e.Fset,
			Env: append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "CGO_ENABLED=0"),
		}
		ps, err := packages.Load(cfg, patterns...)
		if err != nil {
			return nil, err
		}
		var bad []packages.Error
		for _, p := range ps {
			bad = append(bad, p.Errors...)
		}
		if len(bad) == 0 {
			e.all = map[string]*packages.Package{}
			for _, p := range ps {
				e.all[p.PkgPath] = p
			}
			prog, sps := ssautil.Packages(ps, ssa.GlobalDebug|ssa.InstantiateGenerics)
			prog.Build()
			e.Prog = prog
			for i, sp := range sps {
				if sp == nil {
					return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
				}
				rel := strings.TrimPrefix(strings.TrimPrefix(sp.Pkg.Path(), modPath), "/")
				if sp.Pkg.Path() == modPath || strings.HasPrefix(sp.Pkg.Path(), modPath+"/") {
					e.Pkgs[rel] = sp
				} else {
					e.Pkgs["std:"+sp.Pkg.Path()] = sp
				}
			}
			e.indexContracts()
			e.LoadTime = time.Since(t0)
			return e, nil
		}
		// drop ghost declarations that do not type-check against the current code
		dropped := false
		for _, b := range bad {
			f, line := splitPos(b.Pos)
			if !e.ghostPos[f] {
				continue
			}
			if n, tags := dropDecl(f, line); n != "" {
				e.Broken = append(e.Broken, Broken{Name: n, Msg: b.Msg, Tags: tags})
				dropped = true
			}
		}
		if !dropped {
			return nil, fmt.Errorf("cannot load: %v", bad)
		}
	}
	return nil, fmt.Errorf("cannot load contracts: %v", e.Broken)
}

func (e *Engine) Close() { os.RemoveAll(e.Dir) }

func splitPos(p string) (string, int) {
	parts := strings.Split(p, ":")
	if len(parts) < 2 {
		return p, 0
	}
	n := 0
	fmt.Sscan(parts[1], &n)
	return parts[0], n
}

// Broken is a ghost declaration that does not type-check against the current code.
type Broken struct {
	Name, Msg string
	Tags      []string
}

// Matters: a proof registered for the property is lost, and it is not the contract of an unexported
// function (whose callers then execute its body).
func (b Broken) Matters(prop string) bool {
	if strings.HasPrefix(b.Name, "GV_") && !exportedName(strings.TrimPrefix(b.Name, "GV_")) {
		return false
	}
	for _, t := range b.Tags {
		if t == prop {
			return true
		}
	}
	return false
}

// dropDecl removes the top-level declaration containing the line; returns its name and property tags.
func dropDecl(file string, line int) (string, []string) {
	fs := token.NewFileSet()
	b, err := os.ReadFile(file)
	if err != nil {
		return "", nil
	}
	f, err := parser.ParseFile(fs, file, b, parser.ParseComments)
	if err != nil {
		return "", nil
	}
	for _, d := range f.Decls {
		l0, l1 := fs.Position(d.Pos()).Line, fs.Position(d.End()).Line
		if line < l0 || line > l1 {
			continue
		}
		s, t := fs.Position(d.Pos()).Offset, fs.Position(d.End()).Offset
		name := "decl"
		var tags []string
		switch x := d.(type) {
		case *ast.FuncDecl:
			name = x.Name.Name
			if x.Doc != nil {
				for _, c := range x.Doc.List {
					if r := strings.TrimPrefix(c.Text, "//gv:prop "); r != c.Text {
						tags = append(tags, strings.Fields(r)...)
					}
				}
			}
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				// blank the unused import
				for _, sp := range x.Specs {
					is := sp.(*ast.ImportSpec)
					if fs.Position(is.Pos()).Line == line {
						o := fs.Position(is.Path.Pos()).Offset
						nb := string(b[:o]) + "_ " + string(b[o:])
						if is.Name != nil {
							no := fs.Position(is.Name.Pos()).Offset
							nb = string(b[:no]) + "_ " + string(b[o:])
						}
						os.WriteFile(file, []byte(nb), 0o644)
						return "import " + is.Path.Value, nil
					}
				}
				return "", nil
			}
		}
		nb := make([]byte, len(b))
		copy(nb, b)
		for i := s; i < t; i++ {
			if nb[i] != '\n' {
				nb[i] = ' '
			}
		}
		os.WriteFile(file, nb, 0o644)
		return name, tags
	}
	return "", nil
}

func (e *Engine) relPos(f string) string {
	if r, err := filepath.Rel(e.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return f
}

func (e *Engine) fileOf(fn *ssa.Function) string {
	for p := fn; p != nil; p = p.Parent() {
		if p.Pos().IsValid() {
			return e.Fset.Position(p.Pos()).Filename
		}
		if p.Parent() == nil && p.Origin() != nil {
			return e.Fset.Position(p.Origin().Pos()).Filename
		}
	}
	return ""
}

func (e *Engine) isGhost(fn *ssa.Function) bool { return e.ghostPos[e.fileOf(fn)] }

func (e *Engine) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	p := fn.Pkg
	var path string
	if p != nil {
		path = p.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path() // wrappers, bound methods
	}
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

// inlineOK: external functions whose source is executed.
func (e *Engine) inlineOK(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	var path string
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	} else {
		return true // synthesized wrapper
	}
	for _, p := range stdRoots {
		if p == path {
			return true
		}
	}
	return fn.Synthetic != ""
}

// bigIntT is the type math/big.Int.
func (e *Engine) bigIntT() types.Type {
	if p := e.Prog.ImportedPackage("math/big"); p != nil {
		return p.Pkg.Scope().Lookup("Int").Type()
	}
	return nil
}

func (e *Engine) build(fn *ssa.Function) {}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.Prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (e *Engine) indexContracts() {
	for _, sp := range e.Pkgs {
		for n, m := range sp.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || !strings.HasPrefix(n, "GV_") {
				continue
			}
			if t := e.target(sp, strings.TrimPrefix(n, "GV_")); t != nil {
				e.contracts[t] = fn
			}
		}
	}
	for _, p := range e.all {
		for _, f := range p.Syntax {
			if !e.ghostPos[e.Fset.Position(f.Pos()).Filename] {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				o, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if o == nil {
					continue
				}
				fn := e.Prog.FuncValue(o)
				for _, c := range fd.Doc.List {
					if r := strings.TrimPrefix(c.Text, "//gv:model "); r != c.Text {
						e.models[strings.TrimSpace(r)] = fn
					}
					if r := strings.TrimPrefix(c.Text, "//gv:prop "); r != c.Text {
						e.tags[fn] = append(e.tags[fn], strings.Fields(r)...)
					}
				}
			}
		}
	}
}

// Tags are the properties a proof function is registered for.
func (e *Engine) Tags(fn *ssa.Function) []string { return e.tags[fn] }

// ContractOf returns the proof function of the contract on the named function.
func (e *Engine) ContractOf(name string) *ssa.Function {
	for t, c := range e.contracts {
		if fnName(t) == name {
			return c
		}
	}
	return nil
}

// target finds the function a contract named <func> or <recv>_<method> is about.
func (e *Engine) target(sp *ssa.Package, n string) *ssa.Function {
	if fn := sp.Func(n); fn != nil && !e.isGhost(fn) {
		return fn
	}
	if i := strings.Index(n, "_"); i > 0 {
		if t, ok := sp.Members[n[:i]].(*ssa.Type); ok {
			for _, rt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := e.Prog.MethodSets.MethodSet(rt)
				for k := 0; k < ms.Len(); k++ {
					if ms.At(k).Obj().Name() == n[i+1:] {
						if f := e.Prog.FuncValue(ms.At(k).Obj().(*types.Func)); f != nil {
							return f
						}
					}
				}
			}
		}
	}
	return nil
}

func (e *Engine) Contract(fn *ssa.Function) *ssa.Function { return e.contracts[fn] }

// Proofs lists the contract and harness functions of a package.
func (e *Engine) Proofs(pkg string) []*ssa.Function {
	sp := e.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	var fs []*ssa.Function
	for n, m := range sp.Members {
		if fn, ok := m.(*ssa.Function); ok && (strings.HasPrefix(n, "GV_") || strings.HasPrefix(n, "Prove_")) {
			fs = append(fs, fn)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	return fs
}

func (e *Engine) NewRun(name string, budget time.Duration) *Run {
	c := term.NewCtx()
	r := &Run{E: e, C: c, Name: name, lazyObj: map[string]*Obj{}, lazyVal: map[string]Value{}, globals: map[*ssa.Global]*Obj{},
		Used: map[string]bool{}, Inlined: map[string]bool{}, Assumed: map[string]bool{}, Natives: map[string]bool{},
		noCut: map[string]bool{}, mustCut: map[string]int{}, unroll: 6, axm: map[*term.T][]*term.T{}, cnt: map[string]int{}, tables: map[string]*Content{},
		opaque: map[*ssa.Function]bool{}, noMemo: map[*ssa.Function]bool{}, specMemo: map[string]specRes{}, noUse: map[*ssa.Function]bool{}, seqEqs: map[*term.T][6]interface{}{}, opqTypes: map[string][]types.Type{},
		initHeap: map[*Obj]Value{}, Deadline: time.Now().Add(budget)}
	r.S = smt.New(c, func(t *term.T) []*term.T { return r.axioms(t) })
	r.S.Q = quantHook{r}
	return r
}

func (r *Run) axioms(t *term.T) []*term.T {
	a, ok := r.axm[t]
	if !ok && t.Op == term.OApp && len(t.A) > 0 && t.A[0].S.K == term.Int {
		// a term made by rewriting
		switch t.Name {
		case "PX", "PY":
			C := r.C
			r.pointAx(C.App("PX", term.IntS, t.A[0]), C.App("PY", term.IntS, t.A[0]), t.A[0])
		case "oncurve":
			(&State{r: r, heap: map[*Obj]Value{}, eqs: map[*term.T]*term.T{}}).onc(t.A[0], t.A[1])
		case "DL":
			(&State{r: r, heap: map[*Obj]Value{}, eqs: map[*term.T]*term.T{}}).dlog(t.A[0], t.A[1])
		}
		a = r.axm[t]
	}
	return a
}

func (r *Run) globalObj(g *ssa.Global) *Obj {
	if o, ok := r.globals[g]; ok {
		return o
	}
	o := r.newObj(g.String(), g.Type().Underlying().(*types.Pointer).Elem())
	o.Glob = g
	r.globals[g] = o
	return o
}

// globalInit gives the value of a global that package initialisation did not define: globals of
// external packages are arbitrary but fixed.
func (r *Run) globalInit(o *Obj) Value {
	if v, ok := r.initHeap[o]; ok {
		return v
	}
	var v Value
	t := o.Typ
	if r.E.Pkgs["std:"+o.Glob.Pkg.Pkg.Path()] == nil && !strings.HasPrefix(o.Glob.Pkg.Pkg.Path(), modPath) {
		switch {
		case types.Identical(t, types.Universe.Lookup("error").Type()):
			v = &Iface{Nil: r.C.False, Opq: "err:" + o.Glob.String()}
		case isIface(t):
			v = &Iface{Nil: r.C.False, Opq: "iface:" + o.Glob.String()}
		default:
			v = r.symVal(t, "glob:"+o.Glob.String(), nil)
		}
	} else {
		v = r.zeroVal(t)
	}
	r.initHeap[o] = v
	return v
}

func isIface(t types.Type) bool { _, ok := under(t).(*types.Interface); return ok }

// initPackages executes the package initialisers of the repository packages needed by pkg.
func (r *Run) initPackages(pkg *ssa.Package) {
	done := map[string]bool{}
	st := &State{r: r, heap: map[*Obj]Value{}, eqs: map[*term.T]*term.T{}}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p.Path()] {
			return
		}
		done[p.Path()] = true
		rel := ""
		switch {
		case strings.HasPrefix(p.Path(), modPath+"/"):
			rel = strings.TrimPrefix(p.Path(), modPath+"/")
		default:
			rel = "std:" + p.Path()
		}
		sp := r.E.Pkgs[rel]
		if sp == nil {
			return
		}
		for _, i := range p.Imports() {
			visit(i)
		}
		fn := sp.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			return
		}
		if g, ok := sp.Members["init$guard"].(*ssa.Global); ok {
			st.heap[r.globalObj(g)] = r.C.False
		}
		r.quiet++
		outs := r.execFunc(nil, st, fn, nil, nil, 0, false)
		r.quiet--
		if len(outs) != 1 || outs[0].pan != nil {
			unsup("initialisation of %s", p.Path())
		}
		st = outs[0].st
	}
	visit(pkg.Pkg)
	for o, v := range st.heap {
		r.initHeap[o] = v
	}
	r.Inlined = map[string]bool{}
	r.Natives = map[string]bool{}
}

// Result of one proof task.
type Result struct {
	Name, Pkg, Kind string
	Target          string
	Obls            []*Obl
	Failed          []*Obl
	Ms              int64
	Queries         int
	SolverMs        int64
	FallbackMs      int64
	Backends        map[string]int
	Used, Inlined   []string
	Assumed         []string
	Natives         []string
	Loops           int
	Covers          int
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Verify runs one contract or harness.
func (e *Engine) Verify(fn *ssa.Function, budget time.Duration, trace bool) (res *Result) {
	t0 := time.Now()
	r := e.NewRun(fn.Name(), budget)
	r.trace = trace
	defer func() { r.S.Close() }()
	res = &Result{Name: fn.Name(), Pkg: strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath+"/"), Kind: "harness"}
	if strings.HasPrefix(fn.Name(), "GV_") {
		res.Kind = "contract"
		r.Contract = fn
		r.Target = e.target(fn.Pkg, strings.TrimPrefix(fn.Name(), "GV_"))
		if r.Target == nil {
			r.fail("function under contract exists", "-", "no function for contract "+fn.Name())
		} else {
			res.Target = fnName(r.Target)
		}
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if u, ok := x.(Unsupported); ok {
					r.quiet = 0
					r.fail("within the verifier's reach", "-", u.Msg)
					return
				}
				if os.Getenv("GV_PANIC") != "" {
					panic(x)
				}
				r.quiet = 0
				r.fail("within the verifier's reach", "-", fmt.Sprint("internal: ", x))
			}
		}()
		if r.Contract != nil && r.Target == nil {
			return
		}
		r.Pkg = res.Pkg
		r.initPackages(fn.Pkg)
		st := &State{r: r, heap: map[*Obj]Value{}, eqs: map[*term.T]*term.T{}}
		r.initDraws(st)
		st.gh = &ghostCtx{mode: modeCheck, name: fn.Name()}
		var args []Value
		for _, p := range fn.Params {
			args = append(args, r.symVal(p.Type(), p.Name(), nil))
		}
		outs := r.execFunc(nil, st, fn, args, nil, 0, false)
		n := 0
		for _, o := range outs {
			if o.pan != nil {
				if !o.st.confirmInfeasible() {
					r.fail("no panic", "-", "panic in proof code: "+o.pan.what)
				}
			} else {
				n++
				if r.Contract != nil {
					o.st.checkRefs(r.pos(fn.Pos()))
				}
			}
		}
		if n == 0 {
			r.fail("not vacuous", "-", "no path reaches the end of the contract (precondition unsatisfiable or call never returns)")
		}
	}()
	res.Obls = r.Obls
	for _, o := range r.Obls {
		if !o.OK {
			res.Failed = append(res.Failed, o)
		}
	}
	if len(r.Obls) == 0 {
		res.Failed = append(res.Failed, &Obl{Name: "not vacuous", Status: "failed", Detail: "no obligations generated"})
	}
	res.Ms = time.Since(t0).Milliseconds()
	res.Queries = r.S.Queries
	res.SolverMs = r.S.Time.Milliseconds()
	res.FallbackMs = r.S.FallbackTime.Milliseconds()
	res.Backends = r.S.Backends
	res.Used, res.Inlined, res.Assumed, res.Natives = keys(r.Used), keys(r.Inlined), keys(r.Assumed), keys(r.Natives)
	res.Loops, res.Covers = r.Loops, r.Covers
	return res
}

// ExportedContract reports whether the contract is about an exported function or method.
func (e *Engine) ExportedContract(fn *ssa.Function) bool {
	return exportedName(strings.TrimPrefix(fn.Name(), "GV_"))
}

func exportedName(n string) bool {
	if i := strings.Index(n, "_"); i > 0 && i+1 < len(n) {
		n = n[i+1:]
	}
	return len(n) > 0 && n[0] >= 'A' && n[0] <= 'Z'
}
