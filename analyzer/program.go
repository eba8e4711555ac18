package main

import (
	_ "embed"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the analysed code base.
type Program struct {
	globalWrites map[*ssa.Global]bool // assigned or taken the address of outside of init
	thresholds   []int64
	enums        map[types.Type]bool
	harnessErr   error
	repo         string
	fset         *token.FileSet
	ssa          *ssa.Program
	pkgs         []*packages.Package
	spkgs        map[string]*ssa.Package // by path suffix: memcache, netconn, stats
	repoPkgs     map[*types.Package]bool
	funcs        []*ssa.Function // every in-repo function, closures included

	effCache   map[*ssa.Function]*Effects
	fields     []*types.Var
	addrTaken  []*ssa.Function
	parTargets map[*ssa.Parameter][]*ssa.Function
	passedOnly map[*ssa.Function]bool
	initSt     *State
	condPath   map[*types.Var]func(base *Term) *Term
	files      int
}

//go:embed harness/memcache.go.txt
var harnessSrc []byte

const harnessName = "zz_verif_harness.go"

const modPath = "github.com/QuangTung97/go-memcache"

// loadProgram loads the repository together with the drivers; when the drivers do not fit the
// current code it is loaded without them, and the checks that need them report that.
func loadProgram(repo string, overlay map[string][]byte, env []string) (*Program, error) {
	ov := map[string][]byte{filepath.Join(repo, "memcache", harnessName): harnessSrc}
	for k, v := range overlay {
		ov[k] = v
	}
	p, err := loadOnly(repo, ov, env)
	if err != nil {
		p2, err2 := loadOnly(repo, overlay, env)
		if err2 != nil {
			return nil, err2
		}
		p2.harnessErr = err
		return p2, nil
	}
	return p, nil
}

func loadOnly(repo string, overlay map[string][]byte, env []string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Fset:    fset,
		Overlay: overlay,
		Env:     append(append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"), env...),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				errs = append(errs, er.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	p := &Program{repo: repo, fset: fset, spkgs: map[string]*ssa.Package{}, repoPkgs: map[*types.Package]bool{}, effCache: map[*ssa.Function]*Effects{}}
	sort.Slice(pkgs, func(i, k int) bool { return pkgs[i].PkgPath < pkgs[k].PkgPath })
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p.ssa = prog
	p.pkgs = pkgs
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		sp.Build()
		p.repoPkgs[pkgs[i].Types] = true
		p.files += len(pkgs[i].GoFiles)
		switch strings.TrimPrefix(pkgs[i].PkgPath, modPath+"/") {
		case "memcache":
			p.spkgs["memcache"] = sp
		case "memcache/netconn":
			p.spkgs["netconn"] = sp
		case "memcache/stats":
			p.spkgs["stats"] = sp
		}
	}
	for _, n := range []string{"memcache", "netconn", "stats"} {
		if p.spkgs[n] == nil {
			return nil, fmt.Errorf("package %s not found", n)
		}
	}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if p.inRepo(fn) && len(fn.Blocks) > 0 && fn.Synthetic == "" && !p.inHarness(fn) {
			p.funcs = append(p.funcs, fn)
		}
	}
	sort.Slice(p.funcs, func(i, k int) bool {
		if p.funcs[i].Pos() != p.funcs[k].Pos() {
			return p.before(p.funcs[i].Pos(), p.funcs[k].Pos())
		}
		return p.funcs[i].String() < p.funcs[k].String()
	})
	p.collectFields()
	p.collectAddrTaken()
	p.collectPassed()
	p.collectConds()
	return p, nil
}

// before orders positions by file name, line and column: files are read in any order.
func (p *Program) before(a, b token.Pos) bool {
	x, y := p.fset.Position(a), p.fset.Position(b)
	if x.Filename != y.Filename {
		return x.Filename < y.Filename
	}
	return x.Offset < y.Offset
}

func (p *Program) inHarness(fn *ssa.Function) bool {
	return filepath.Base(p.fset.Position(fn.Pos()).Filename) == harnessName
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return p.repoPkgs[f.Pkg.Pkg]
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return p.repoPkgs[o.Pkg()]
	}
	// synthetic wrappers: decided by their receiver
	if f.Synthetic != "" && len(f.Blocks) > 0 {
		return true
	}
	return false
}

func (p *Program) rel(file string) string {
	if r, err := filepath.Rel(p.repo, file); err == nil {
		return r
	}
	return file
}

func (p *Program) posOf(in ssa.Instruction) string { return p.pos(in) }

func (p *Program) pos(in ssa.Instruction) string {
	pos := in.Pos()
	if !pos.IsValid() {
		if b := in.Block(); b != nil {
			for _, i2 := range b.Instrs {
				if i2.Pos().IsValid() {
					pos = i2.Pos()
					if i2 == in {
						break
					}
				}
			}
		}
	}
	if v, ok := in.(*ssa.If); ok && !v.Pos().IsValid() {
		if ci, ok := v.Cond.(ssa.Instruction); ok && v.Cond.Pos().IsValid() {
			pos = ci.Pos()
		}
	}
	if !pos.IsValid() {
		pos = in.Parent().Pos()
	}
	q := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", p.rel(q.Filename), q.Line)
}

func (p *Program) fnPos(fn *ssa.Function) string {
	q := p.fset.Position(fn.Pos())
	return fmt.Sprintf("%s:%d", p.rel(q.Filename), q.Line)
}

// fn finds a function or method: "pkg.name" or "pkg.(T).name".
func (p *Program) fn(name string) *ssa.Function {
	i := strings.Index(name, ".")
	sp := p.spkgs[name[:i]]
	rest := name[i+1:]
	if strings.HasPrefix(rest, "(") {
		j := strings.Index(rest, ")")
		tn, mn := rest[1:j], rest[j+2:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		for _, ty := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
			if sel := p.ssa.MethodSets.MethodSet(ty).Lookup(sp.Pkg, mn); sel != nil {
				m := p.ssa.MethodValue(sel)
				if m != nil && m.Synthetic != "" && len(m.Blocks) > 0 {
					// wrapper: use the declared method
					if f, ok := sel.Obj().(*types.Func); ok {
						if d := p.ssa.FuncValue(f); d != nil {
							return d
						}
					}
				}
				return m
			}
		}
		return nil
	}
	return sp.Func(rest)
}

// typ finds a named type.
func (p *Program) typ(pkg, name string) *types.Named {
	t := p.spkgs[pkg].Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

// field finds a field of a named struct type.
func (p *Program) field(pkg, typ, name string) *types.Var {
	n := p.typ(pkg, typ)
	if n == nil {
		return nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i)
		}
	}
	return nil
}

func (p *Program) global(pkg, name string) *ssa.Global {
	return p.spkgs[pkg].Var(name)
}

func (p *Program) allFields() []*types.Var { return p.fields }

func (p *Program) collectFields() {
	seen := map[*types.Var]bool{}
	for _, sp := range p.spkgs {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			s, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if f := s.Field(i); !seen[f] {
					seen[f] = true
					p.fields = append(p.fields, f)
				}
			}
		}
	}
	sort.Slice(p.fields, func(i, k int) bool { return p.before(p.fields[i].Pos(), p.fields[k].Pos()) })
}

func (p *Program) collectAddrTaken() {
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && len(f.Blocks) > 0 {
			seen[f] = true
			p.addrTaken = append(p.addrTaken, f)
		}
	}
	for _, fn := range p.allWithInit() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
				var callVal ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callVal = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && *op != callVal {
						add(f)
					}
				}
			}
		}
	}
}

func (p *Program) allWithInit() []*ssa.Function {
	fns := append([]*ssa.Function(nil), p.funcs...)
	for _, n := range []string{"netconn", "memcache", "stats"} {
		if f := p.spkgs[n].Func("init"); f != nil {
			fns = append(fns, f)
		}
	}
	return fns
}

// possibleCallees over-approximates a dynamic call by signature.
func (p *Program) possibleCallees(site ssa.CallInstruction) []*ssa.Function {
	c := site.Common()
	var res []*ssa.Function
	if c.IsInvoke() {
		for _, sp := range p.spkgs {
			sc := sp.Pkg.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || types.IsInterface(tn.Type()) {
					continue
				}
				for _, t := range []types.Type{types.NewPointer(tn.Type())} {
					if it, ok := c.Value.Type().Underlying().(*types.Interface); ok && types.Implements(t, it) {
						if sel := p.ssa.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
							if m := p.ssa.MethodValue(sel); m != nil && len(m.Blocks) > 0 {
								res = append(res, m)
							}
						}
					}
				}
			}
		}
		return res
	}
	sig := c.Signature()
	if par, ok := c.Value.(*ssa.Parameter); ok {
		if fs, known := p.paramTargets(par); known {
			return fs
		}
	}
	for _, f := range p.addrTaken {
		if p.passedOnly[f] {
			continue
		}
		if types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()),
			types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
			res = append(res, f)
		}
	}
	return res
}

// paramTargets: the functions that a parameter of function type may be, when every caller is known.
func (p *Program) paramTargets(par *ssa.Parameter) ([]*ssa.Function, bool) {
	r := p.parTargets[par]
	return r, r != nil
}

// collectPassed finds parameters that are given known functions only, and the functions that are
// given to such parameters only.
func (p *Program) collectPassed() {
	p.parTargets = map[*ssa.Parameter][]*ssa.Function{}
	p.passedOnly = map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{}
	for _, f := range p.addrTaken {
		taken[f] = true
	}
	invoked := map[string]bool{}
	sites := map[*ssa.Function][]*ssa.CallCommon{}
	fns := p.allWithInit()
	known := map[*ssa.Function]bool{}
	for _, f := range fns {
		known[f] = true
	}
	for _, f := range p.addrTaken { // the wrappers of method values
		if !known[f] {
			fns = append(fns, f)
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cc := ci.Common(); cc.IsInvoke() {
						invoked[cc.Method.Name()] = true
					} else if g := cc.StaticCallee(); g != nil {
						sites[g] = append(sites[g], cc)
					}
				}
			}
		}
	}
	var resolve func(par *ssa.Parameter, busy map[*ssa.Parameter]bool) (map[*ssa.Function]bool, bool)
	resolve = func(par *ssa.Parameter, busy map[*ssa.Parameter]bool) (map[*ssa.Function]bool, bool) {
		fn := par.Parent()
		if _, isF := par.Type().Underlying().(*types.Signature); !isF || busy[par] || taken[fn] || fn.Object() == nil || fn.Object().Exported() || invoked[fn.Name()] || len(sites[fn]) == 0 {
			return nil, false
		}
		busy[par] = true
		i := 0
		for fn.Params[i] != par {
			i++
		}
		res := map[*ssa.Function]bool{}
		for _, cc := range sites[fn] {
			switch a := cc.Args[i].(type) {
			case *ssa.MakeClosure:
				res[a.Fn.(*ssa.Function)] = true
			case *ssa.Function:
				if len(a.Blocks) == 0 {
					return nil, false
				}
				res[a] = true
			case *ssa.Parameter:
				r, ok := resolve(a, busy)
				if !ok {
					return nil, false
				}
				for f := range r {
					res[f] = true
				}
			default:
				return nil, false
			}
		}
		return res, true
	}
	for _, fn := range fns {
		for _, par := range fn.Params {
			if r, ok := resolve(par, map[*ssa.Parameter]bool{}); ok {
				l := []*ssa.Function{}
				for f := range r {
					l = append(l, f)
				}
				sort.Slice(l, func(i, k int) bool { return l[i].String() < l[k].String() })
				p.parTargets[par] = l
			}
		}
	}
	// parameters whose functions are only called or passed on to such parameters
	var calledOnly func(v ssa.Value) bool
	seen := map[ssa.Value]bool{}
	calledOnly = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case ssa.CallInstruction:
				cc := x.Common()
				g := cc.StaticCallee()
				for i, a := range cc.Args {
					if a != v {
						continue
					}
					if g == nil || i >= len(g.Params) || p.parTargets[g.Params[i]] == nil || !calledOnly(g.Params[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	for _, f := range p.addrTaken {
		ok, uses := true, 0
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if mc, isMC := in.(*ssa.MakeClosure); isMC && mc.Fn == ssa.Value(f) {
						uses++
						seen = map[ssa.Value]bool{}
						ok = ok && calledOnly(mc)
						continue
					}
					for _, op := range in.Operands(nil) {
						if *op != ssa.Value(f) {
							continue
						}
						uses++
						ci, isCall := in.(ssa.CallInstruction)
						if !isCall {
							ok = false
							continue
						}
						cc := ci.Common()
						if cc.Value == ssa.Value(f) {
							continue
						}
						g := cc.StaticCallee()
						for i, a := range cc.Args {
							if a == ssa.Value(f) && (g == nil || i >= len(g.Params) || p.parTargets[g.Params[i]] == nil || !calledOnly(g.Params[i])) {
								ok = false
							}
						}
					}
				}
			}
		}
		if ok && uses > 0 {
			p.passedOnly[f] = true
		}
	}
}

// Effects is what a function may write, transitively.
type Effects struct {
	writes map[any]bool
	calls  map[string]bool
	funcs  map[*ssa.Function]bool
	klist  []any
	spawns bool
}

func (e *Effects) keys() []any { return e.klist }

func (p *Program) effects(fn *ssa.Function) *Effects {
	if eff, ok := p.effCache[fn]; ok {
		return eff
	}
	eff := &Effects{writes: map[any]bool{}, calls: map[string]bool{}, funcs: map[*ssa.Function]bool{}}
	p.effCache[fn] = eff
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if eff.funcs[f] || len(f.Blocks) == 0 {
			return
		}
		eff.funcs[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					p.writeKeys(eff, x.Addr, derefType(x.Addr.Type()))
				case *ssa.MapUpdate:
					eff.writes[elemKey{types.TypeString(x.Value.Type(), nil)}] = true
				case *ssa.MakeClosure:
					visit(x.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					c := x.Common()
					if b, ok := c.Value.(*ssa.Builtin); ok && (b.Name() == "copy" || b.Name() == "append") {
						if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
							eff.writes[elemKey{types.TypeString(s.Elem(), nil)}] = true
						}
					}
					if _, ok := x.(*ssa.Go); ok {
						eff.spawns = true
					}
					callee := c.StaticCallee()
					if callee != nil {
						eff.calls[callee.RelString(nil)] = true
						if p.inRepo(callee) {
							visit(callee)
						}
					} else if _, isB := c.Value.(*ssa.Builtin); isB {
						eff.calls["builtin:"+c.Value.Name()] = true
					} else {
						if c.IsInvoke() {
							eff.calls["invoke:"+c.Method.FullName()] = true
						} else {
							eff.calls["dynamic"] = true
						}
						for _, g := range p.possibleCallees(x) {
							visit(g)
						}
					}
				case *ssa.Send:
					eff.calls["send"] = true
				case *ssa.Select:
					eff.calls["select"] = true
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						eff.calls["recv"] = true
					}
				}
			}
		}
	}
	visit(fn)
	for k := range eff.writes {
		eff.klist = append(eff.klist, k)
	}
	return eff
}

func (p *Program) writeKeys(eff *Effects, addr ssa.Value, t types.Type) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if _, nested := f.Type().Underlying().(*types.Struct); nested {
				p.writeKeys(eff, nil, f.Type())
			}
			eff.writes[f] = true
		}
		return
	}
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		eff.writes[derefType(x.X.Type()).Underlying().(*types.Struct).Field(x.Field)] = true
		return
	case *ssa.IndexAddr:
		eff.writes[elemKey{types.TypeString(t, nil)}] = true
		return
	case *ssa.Global:
		eff.writes[x] = true
		return
	case *ssa.Alloc:
		if !x.Heap {
			return
		}
	}
	// through a pointer: any field of that type
	ts := types.TypeString(t, nil)
	eff.writes[cellKey{ts}] = true
	for _, f := range p.fields {
		if types.TypeString(f.Type(), nil) == ts {
			eff.writes[f] = true
		}
	}
}

// collectConds finds which mutex each condition variable field belongs to.
func (p *Program) collectConds() {
	p.condPath = map[*types.Var]func(*Term) *Term{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				call, ok := st.Val.(*ssa.Call)
				if !ok || call.Common().StaticCallee() == nil || call.Common().StaticCallee().RelString(nil) != "sync.NewCond" {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				cf := fieldVar(fa)
				arg := call.Common().Args[0]
				if mi, ok := arg.(*ssa.MakeInterface); ok {
					arg = mi.X
				}
				if mfa, ok := arg.(*ssa.FieldAddr); ok && mfa.X == fa.X {
					mf := fieldVar(mfa)
					p.condPath[cf] = func(base *Term) *Term { return faT(base, mf) }
				}
			}
		}
	}
}

func fieldVar(fa *ssa.FieldAddr) *types.Var {
	return derefType(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field)
}

func (p *Program) condMutexPath(f *types.Var) func(*Term) *Term { return p.condPath[f] }

// initState is the state after package initialisation, restricted to what never changes later.
func (p *Program) initState(e *Engine) *State {
	if p.initSt != nil {
		s := p.initSt.clone()
		return s
	}
	st := newState()
	p.initSt = st // avoid recursion
	ie := newEngine(p, Hooks{})
	ie.MergeAt = 1
	cur := st
	for _, n := range []string{"netconn", "memcache", "stats"} {
		f := p.spkgs[n].Func("init")
		if f == nil {
			continue
		}
		guard := p.spkgs[n].Var("init$guard")
		if guard != nil {
			cur.heap[mk(OGlobal, guard.Type(), guard)] = boolT(false)
		}
		outs := ie.Run(cur, f, nil, nil)
		switch len(outs) {
		case 1:
			cur = outs[0].St
		default: // package variables of this package stay unknown
			cur = st.clone()
		}
		cur.frame = nil
	}
	mutated := p.mutatedGlobals()
	for a := range cur.heap {
		r := a
		for r.op == OFA || r.op == OIA {
			r = r.args[0]
		}
		if r.op == OGlobal && mutated[r.aux.(*ssa.Global)] {
			delete(cur.heap, a)
		}
	}
	cur.trace = nil
	cur.frame = nil
	for a := range cur.heap {
		if r := cur.rootAlloc(a); r != nil {
			cur.escaped[r] = true
		}
	}
	p.initSt = cur
	return cur.clone()
}

// mutatedGlobals: package variables written outside initialisation.
func (p *Program) mutatedGlobals() map[*ssa.Global]bool {
	res := map[*ssa.Global]bool{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a := st.Addr
				for {
					switch x := a.(type) {
					case *ssa.FieldAddr:
						a = x.X
						continue
					case *ssa.IndexAddr:
						a = x.X
						continue
					case *ssa.UnOp:
						a = x.X
						continue
					}
					break
				}
				if g, ok := a.(*ssa.Global); ok {
					res[g] = true
				}
			}
		}
	}
	return res
}

func sortTerms(ts []*Term) { sort.Slice(ts, func(i, k int) bool { return ts[i].id < ts[k].id }) }

func sortValues(vs []ssa.Value) {
	sort.Slice(vs, func(i, k int) bool {
		if vs[i].Pos() != vs[k].Pos() {
			return vs[i].Pos() < vs[k].Pos() // within one function, so within one file
		}
		return vs[i].Name() < vs[k].Name()
	})
}

// thresholdList gives the large constants this program compares integers with.
func (p *Program) thresholdList() []int64 {
	if p.thresholds == nil {
		set := map[int64]bool{1 << 60: true}
		for _, fn := range p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					op, ok := in.(*ssa.BinOp)
					if !ok {
						continue
					}
					switch op.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					default:
						continue
					}
					for _, v := range []ssa.Value{op.X, op.Y} {
						if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
							if n, ok := constant.Int64Val(c.Value); ok && n >= 1<<16 && n < 1<<60 {
								set[n] = true
							}
						}
					}
				}
			}
		}
		for n := range set {
			p.thresholds = append(p.thresholds, n)
		}
		sort.Slice(p.thresholds, func(i, k int) bool { return p.thresholds[i] < p.thresholds[k] })
	}
	return p.thresholds
}
