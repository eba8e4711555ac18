package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id: "C15", min: 20,
		rule: "Package initialisation is interpreted with its loops followed turn by turn, which gives every pool with its New function; running that gives the size of the pool's class. Every function with a Get, a Put or an unsafe.Slice is then interpreted for every argument (every requested size, every slice given back): what is made of a pooled pointer stays within the class of the pool it came from, what is put has exactly the size of the class of the pool it goes to (for pools of slices: is empty) and the type of what the pool makes; every index, slice and allocation in there is in range; the slice returned for a size has that length, or is empty with at least that capacity. " +
			"Pools in objects are taken from their constructors, whose fields are not written later. No New function is set anywhere else, and every such call of the source is reached.",
		not: "Sizes above 2^48; that nobody uses the slice after it was given back is C16",
		run: runC15,
	})
}

// extentAt is where the number of elements behind a base pointer is kept.
func extentAt(base *Term) *Term {
	return appT(types.NewPointer(types.Typ[types.Int]), "extent", base)
}

func isSyncPool(t types.Type) bool {
	n, ok := derefOnce(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == "Pool"
}

func derefOnce(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// poolOp: the instruction uses a pool or makes a slice of a pointer.
func poolOp(in ssa.Instruction) string {
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	switch f := call.Common().Value.(type) {
	case *ssa.Builtin:
		if f.Name() == "Slice" {
			return "unsafe.Slice"
		}
	case *ssa.Function:
		switch f.RelString(nil) {
		case "(*sync.Pool).Get":
			return "Get"
		case "(*sync.Pool).Put":
			return "Put"
		}
	}
	return ""
}

type poolEnv struct {
	c       *Ctx
	e       *Engine
	newF    *types.Var
	reached map[ssa.Instruction]bool
	unknown map[*Term]bool // pools whose New function is not known
	inNew   bool
}

func runC15(c *Ctx) {
	newF := syncPoolNew(c.p)
	if newF == nil {
		c.ob("anchor", nil, false, "sync.Pool is not used (undecided)")
		return
	}
	s := &poolEnv{c: c, newF: newF, reached: map[ssa.Instruction]bool{}, unknown: map[*Term]bool{}}
	s.e = s.engine()
	st := s.initial()
	if st == nil {
		return
	}
	s.newStores()

	// functions that use a pool themselves; those that get the pool from their caller are replaced by the callers
	todo := map[*ssa.Function]bool{}
	var order []*ssa.Function
	add := func(fn *ssa.Function) {
		if fn != nil && !todo[fn] && !c.p.inHarness(fn) && fn.Synthetic == "" {
			todo[fn] = true
			order = append(order, fn)
		}
	}
	var sites []ssa.Instruction
	for _, fn := range c.p.funcs {
		if !c.p.inRepo(fn) || c.p.inHarness(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if poolOp(in) != "" {
					sites = append(sites, in)
					add(fn)
				}
			}
		}
	}
	for i := 0; i < len(order); i++ {
		fn := order[i]
		if fn.Parent() != nil { // a closure: its maker runs it
			add(fn.Parent())
			continue
		}
		if s.needsCaller(fn) {
			for _, caller := range c.p.funcs {
				if c.p.inRepo(caller) && callsDirectly(caller, fn) {
					add(caller)
				}
			}
			continue
		}
		s.run(st, fn)
	}
	for _, in := range sites {
		c.ob("reached", in, s.reached[in], "%s is analysed", poolOp(in))
	}
	c.summary["pool functions"] = len(order)
	c.summary["pool operations"] = len(sites)
	c.finish(s.e, order[0])
}

func syncPoolNew(p *Program) *types.Var {
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if f := call.Common().StaticCallee(); f != nil && strings.HasPrefix(f.RelString(nil), "(*sync.Pool).") {
						st := derefOnce(f.Signature.Recv().Type()).Underlying().(*types.Struct)
						for i := 0; i < st.NumFields(); i++ {
							if st.Field(i).Name() == "New" {
								return st.Field(i)
							}
						}
					}
				}
			}
		}
	}
	return nil
}

// initial: package initialisation, its loops followed one turn after the other.
func (s *poolEnv) initial() *State {
	c := s.c
	st := newState()
	e := c.engine(Hooks{BackEdge: turn(50)})
	e.Extents = true
	for _, n := range []string{"netconn", "memcache", "stats"} {
		f := c.p.spkgs[n].Func("init")
		if f == nil {
			continue
		}
		if g := c.p.spkgs[n].Var("init$guard"); g != nil {
			st.heap[mk(OGlobal, g.Type(), g)] = boolT(false)
		}
		outs := e.Run(st, f, nil, nil)
		var live []*State
		for _, o := range outs {
			if !o.Panic && !o.St.zone.bottom {
				live = append(live, o.St)
			}
		}
		if len(live) != 1 {
			c.obFn("init", f, false, "package initialisation has %d outcomes (undecided)", len(live))
			return nil
		}
		st = live[0]
		st.frame = nil
		delete(st.mon, "turn")
	}
	c.finish(e, c.p.spkgs["memcache"].Func("init"))
	// what is changed later is unknown
	mutated := c.p.mutatedGlobals()
	for a := range st.heap {
		r := a
		for r.op == OFA || r.op == OIA {
			r = r.args[0]
		}
		if r.op == OGlobal && mutated[r.aux.(*ssa.Global)] {
			delete(st.heap, a)
		}
	}
	st.trace = nil
	return st
}

// turn keeps the first turns of loops apart.
func turn(max int) func(e *Engine, st *State, header, pred *ssa.BasicBlock, head *State) {
	return func(e *Engine, st *State, header, pred *ssa.BasicBlock, head *State) {
		if n := st.mon["turn"]; len(n) < max {
			st.mon["turn"] = n + "i"
		}
	}
}

// newStores: pools are only given a New function while they are made.
func (s *poolEnv) newStores() {
	for _, fn := range s.c.p.funcs {
		if !s.c.p.inRepo(fn) || s.c.p.inHarness(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, isF := x.Addr.(*ssa.FieldAddr)
				var owner ssa.Value
				switch {
				case isF && fieldVar(fa) == s.newF:
					owner = fa.X
				case isSyncPool(x.Val.Type()) && !isPointer(x.Val.Type()):
					owner = x.Addr
				case isF && s.holdsPool(derefOnce(fa.X.Type())):
					owner = fa.X
				default:
					continue
				}
				s.c.ob("made-once", in, s.beingMade(owner), "a pool, its New function and what goes with it are set only while they are made")
			}
		}
	}
}

func isPointer(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// holdsPool: a type with a pool as a field.
func (s *poolEnv) holdsPool(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || isSyncPool(t) {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if ft := st.Field(i).Type(); isSyncPool(ft) {
			return true
		}
	}
	return false
}

// beingMade: the address lies in an object made by this function, or by initialisation.
func (s *poolEnv) beingMade(v ssa.Value) bool {
	if initOnlyFn(s.c.p, v.Parent()) {
		return true
	}
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.IndexAddr:
			v = x.X
			continue
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.Alloc, *ssa.MakeSlice:
			return true
		case *ssa.UnOp: // a variable that holds the new object
			cell, ok := x.X.(*ssa.Alloc)
			if !ok || x.Op != token.MUL {
				return false
			}
			for _, r := range *cell.Referrers() {
				if st, ok := r.(*ssa.Store); ok && (st.Addr != ssa.Value(cell) || !s.beingMade(st.Val)) {
					return false
				}
			}
			return true
		case *ssa.Global:
			return x.Parent() == nil && initOnlyFn(s.c.p, nil)
		}
		return false
	}
}

// initOnlyFn: the function runs only while the package is initialised.
func initOnlyFn(p *Program, fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(fn *ssa.Function) bool
	rec = func(fn *ssa.Function) bool {
		if fn == nil {
			return false
		}
		if fn.Name() == "init" && fn.Synthetic != "" {
			return true
		}
		if seen[fn] {
			return true
		}
		seen[fn] = true
		if fn.Object() != nil && fn.Object().Exported() {
			return false
		}
		if fn.Parent() != nil {
			return false
		}
		for _, a := range p.addrTaken {
			if a == fn {
				return false
			}
		}
		n := 0
		for _, g := range p.funcs {
			if callsDirectly(g, fn) {
				n++
				if !rec(g) {
					return false
				}
			}
		}
		return n > 0 || strings.HasPrefix(fn.Name(), "init#")
	}
	return rec(fn)
}

// needsCaller: the pool, or the pointer a slice is made of, comes in as a parameter.
func (s *poolEnv) needsCaller(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if _, isPtr := p.Type().(*types.Pointer); isPtr && isSyncPool(p.Type()) {
			return true
		}
		if sl, ok := p.Type().Underlying().(*types.Slice); ok && (isSyncPool(sl.Elem()) || s.holdsPool(derefOnce(sl.Elem()))) {
			return true
		}
		if isUnsafeOperand(fn, p) {
			return true
		}
	}
	return false
}

func isUnsafeOperand(fn *ssa.Function, p *ssa.Parameter) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if poolOp(in) == "unsafe.Slice" && in.(ssa.CallInstruction).Common().Args[0] == ssa.Value(p) {
				return true
			}
		}
	}
	return false
}

func (s *poolEnv) ob(st *State, rule string, in ssa.Instruction, ok bool, format string, a ...any) {
	s.e.Oblige(st, rule, in, ok, format, a...)
}

func (s *poolEnv) engine() *Engine {
	c := s.c
	e := c.engine(Hooks{
		Call:     s.call,
		BackEdge: turn(24),
		Bounds: func(e *Engine, st *State, in ssa.Instruction, what string, ok bool) {
			if c.p.inRepo(in.Parent()) {
				s.ob(st, "in-range", in, ok, "%s is in range", what)
			}
		},
		Panic: func(e *Engine, st *State, in ssa.Instruction) {
			s.ob(st, "in-range", in, false, "no panic is reached")
		},
	})
	e.Extents = true
	return e
}

// made runs the New function of a pool.
func (s *poolEnv) made(e *Engine, st *State, pool *Term) []Outcome {
	f := e.load(st, faT(pool, s.newF), s.newF.Type())
	if f == nil || f.op != OFunc {
		return nil
	}
	var outs []Outcome
	for _, o := range e.callValue(st, f) {
		if !o.Panic && len(o.Res) == 1 && o.Res[0].op == OIface {
			outs = append(outs, o)
		}
	}
	return outs
}

// extent: the elements from p on.
func (s *poolEnv) extent(e *Engine, st *State, p *Term) *Term {
	base, off := p, intT(0)
	if p.op == OIA {
		base, off = p.args[0], p.args[1]
	}
	if n := st.heap[extentAt(base)]; n != nil {
		return e.sub(st, n, off, types.Typ[types.Int])
	}
	if base.typ != nil {
		if a, ok := derefOnce(base.typ).Underlying().(*types.Array); ok {
			return e.sub(st, intT(a.Len()), off, types.Typ[types.Int])
		}
	}
	return nil
}

func (s *poolEnv) call(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
	op := poolOp(ci.Site)
	if op != "" && ci.Site.Parent() != nil {
		s.reached[ci.Site] = true
	}
	if ci.Kind == "go" {
		return one(st, tupleT()), true
	}
	switch op {
	case "unsafe.Slice":
		n := s.extent(e, st, ci.Args[0])
		s.ob(st, "in-class", ci.Site, n != nil && st.zone.le(ci.Args[1], n), "the slice made of a pointer does not go beyond what is behind it")
		return nil, false
	case "Get":
		var outs []CallOut
		made := s.made(e, st.clone(), ci.Args[0])
		s.ob(st, "known-pool", ci.Site, len(made) > 0, "the pool has a New function")
		for _, o := range made {
			r := o.Res[0]
			if v := r.args[0]; v.op == OSlice {
				// any slice that was put: see Put
				b := freshSym(v.args[0].typ, "pooled")
				o.St.facts[eqT(b, nilT())] = false
				cp := e.newValue(o.St, types.Typ[types.Int], "cap")
				o.St.zone.assumeLe(intT(0), cp, 0)
				o.St.zone.assumeLe(v.args[2], cp, 0)
				o.St.heap[extentAt(b)] = cp
				r = ifaceT(r.aux.(types.Type), sliceT(v.typ, b, intT(0), v.args[2], cp))
			}
			outs = append(outs, CallOut{o.St, r})
		}
		if len(outs) == 0 {
			return one(st, e.resultOf(st, ci)), true
		}
		return outs, true
	case "Put":
		made := s.made(e, st.clone(), ci.Args[0])
		s.ob(st, "known-pool", ci.Site, len(made) > 0, "the pool has a New function")
		x := ci.Args[1]
		for _, o := range made {
			r := o.Res[0]
			if !(x.op == OIface && types.Identical(x.aux.(types.Type), r.aux.(types.Type))) {
				s.ob(st, "same-type", ci.Site, false, "what is put has the type of what the pool makes")
				continue
			}
			s.ob(st, "same-type", ci.Site, true, "what is put has the type of what the pool makes")
			v, w := x.args[0], r.args[0]
			if w.op == OSlice {
				s.ob(st, "class-size", ci.Site, v.op == OSlice && st.zone.eq(v.args[2], w.args[2]), "a slice that is put has the length of those the pool makes")
				continue
			}
			want := s.extent(e, o.St, w)
			if want == nil { // a pool of single objects
				continue
			}
			got := s.extent(e, st, v)
			// o.St comes from st, so its terms mean the same
			s.ob(st, "class-size", ci.Site, got != nil && o.St.zone.eq(got, want), "what is put has exactly the size of what the pool makes")
		}
		return one(st, tupleT()), true
	}
	return nil, false
}

// run interprets one function for every argument, with every object of a type that holds a pool.
func (s *poolEnv) run(init *State, fn *ssa.Function) {
	type start struct {
		st   *State
		args []*Term
	}
	e, c := s.e, s.c
	starts := []start{{init.clone(), nil}}
	for _, p := range fn.Params {
		var next []start
		_, isPtr := p.Type().(*types.Pointer)
		if isPtr && s.holdsPool(derefOnce(p.Type())) {
			n := 0
			for _, b := range starts {
				for _, o := range s.objects(b.st, derefOnce(p.Type())) {
					n++
					next = append(next, start{o.St, append(append([]*Term(nil), b.args...), o.Res[0])})
				}
			}
			c.obFn("objects", fn, n > 0, "the objects with a pool that %s may get are known", fn.Name())
		} else {
			for _, b := range starts {
				v := e.newValue(b.st, p.Type(), p.Name())
				if isIntegerType(p.Type()) {
					b.st.zone.assumeLe(v, intT(maxLen), 0)
				}
				if v.op == OSlice {
					b.st.heap[extentAt(v.args[0])] = e.add(b.st, v.args[1], v.args[3], types.Typ[types.Int])
				}
				next = append(next, start{b.st, append(append([]*Term(nil), b.args...), v)})
			}
		}
		starts = next
	}
	for _, b := range starts {
		outs := e.Run(b.st, fn, b.args, nil)
		for _, o := range outs {
			if !o.Panic {
				s.result(fn, b.args, o)
			}
		}
	}
	c.finish(e, fn)
}

func isIntegerType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// objects: every object of a type that holds a pool, from package variables and constructors.
func (s *poolEnv) objects(st *State, t types.Type) []Outcome {
	var res []Outcome
	var names []string
	for _, n := range []string{"netconn", "memcache", "stats"} {
		for m := range s.c.p.spkgs[n].Members {
			names = append(names, n+"."+m)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		i := strings.Index(n, ".")
		m := s.c.p.spkgs[n[:i]].Members[n[i+1:]]
		switch x := m.(type) {
		case *ssa.Global:
			if types.Identical(derefOnce(x.Type()), t) {
				s2 := st.clone()
				res = append(res, Outcome{St: s2, Res: []*Term{mk(OGlobal, x.Type(), x)}})
			}
		}
	}
	for _, fn := range s.c.p.funcs {
		if !s.c.p.inRepo(fn) || s.c.p.inHarness(fn) || !makes(fn, t) || initOnlyFn(s.c.p, fn) {
			continue
		}
		rs := fn.Signature.Results()
		ok := rs.Len() == 1 && types.Identical(rs.At(0).Type(), types.NewPointer(t))
		s.c.obFn("constructor", fn, ok, "an object with a pool is made by a function that returns it")
		if !ok {
			continue
		}
		s2 := st.clone()
		var args []*Term
		for _, p := range fn.Params {
			args = append(args, s.e.newValue(s2, p.Type(), p.Name()))
		}
		for _, o := range s.e.Run(s2, fn, args, nil) {
			if !o.Panic {
				o.St.frame = nil
				s.positive(o.St, o.Res[0], t)
				res = append(res, o)
			}
		}
	}
	return res
}

// positive: the options that give sizes are above zero (an assumption about the caller).
func (s *poolEnv) positive(st *State, obj *Term, t types.Type) {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if f := u.Field(i); isIntegerType(f.Type()) {
			v := s.e.load(st, faT(obj, f), f.Type())
			st.zone.assumeLe(intT(1), v, 0)
			st.zone.assumeLe(v, intT(maxLen), 0)
		}
	}
}

// makes: the function makes an object of the type.
func makes(fn *ssa.Function, t types.Type) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && types.Identical(derefOnce(a.Type()), t) {
				return true
			}
		}
	}
	return false
}

// result: a slice asked for by size.
func (s *poolEnv) result(fn *ssa.Function, args []*Term, o Outcome) {
	if len(o.Res) != 1 || o.Res[0] == nil {
		return
	}
	r := o.Res[0]
	sl, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok {
		return
	}
	var ln, cp *Term = intT(0), intT(0)
	if r.op == OSlice {
		ln, cp = r.args[2], r.args[3]
	} else if !r.isNilTerm() {
		s.ob(o.St, "size", o.Instr, false, "the size of what is returned is known")
		return
	}
	var size *Term
	n := 0
	for i, p := range fn.Params {
		if isIntegerType(p.Type()) {
			size = args[i]
			n++
		}
	}
	if n > 1 {
		return
	}
	if n == 0 {
		s.ob(o.St, "size", o.Instr, o.St.zone.eq(ln, intT(0)), "what is returned is empty")
		return
	}
	exact := o.St.zone.eq(ln, size)
	if isByte(sl.Elem()) {
		s.ob(o.St, "size", o.Instr, exact && o.St.zone.le(size, cp), "what is returned has the length that was asked for")
		return
	}
	s.ob(o.St, "size", o.Instr, (exact || o.St.zone.eq(ln, intT(0))) && o.St.zone.le(size, cp), "what is returned is empty and has room for what was asked for")
}
