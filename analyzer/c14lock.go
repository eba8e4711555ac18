package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// role is a goroutine, by the go statement that starts it; the user's goroutines are one role.
type role struct {
	name string
	site ssa.Instruction // the go statement, nil for the user
	fns  []*ssa.Function
	many bool // several at a time for the same object, whatever the object
	in   map[*ssa.Function]bool
}

// lset is the set of locks that are certainly held: 1 for reading, 2 for writing.
type lset map[any]int

func (l lset) clone() lset {
	r := lset{}
	for k, v := range l {
		r[k] = v
	}
	return r
}

func meet(a, b lset) lset {
	r := lset{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			if w < v {
				v = w
			}
			r[k] = v
		}
	}
	return r
}

func sameSet(a, b lset) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

type edge struct {
	site     ssa.Instruction
	callee   *ssa.Function
	args     []ssa.Value // nil when they are not known
	deferred bool
	isGo     bool
}

// threads is the analysis of who runs what, with which locks.
type threads struct {
	c       *Ctx
	fns     []*ssa.Function
	edges   map[*ssa.Function][]edge
	parents map[*ssa.Function][]edge
	user    *role
	roles   []*role
	con     map[*ssa.Function]bool // runs only while a client is being made
	makers  []*ssa.Function
	entry   map[*ssa.Function]lset
	held    map[ssa.Instruction]lset // with the locks held at entry
	sums    map[*ssa.Function]*lockSum
	flow    *typeFlow
	onlyM   map[*ssa.Function]bool
	local   map[*ssa.Function]map[ssa.Instruction]lset
	spawnM  map[*ssa.Function]map[*role]bool
}

type lockSum struct {
	gen, kill lset
}

type paramKey int

func (t *threads) inScope(fn *ssa.Function) bool {
	return fn != nil && len(fn.Blocks) > 0 && t.c.p.inRepo(fn) && !t.c.p.inHarness(fn) && !strings.Contains(pkgPath(fn), "/stats")
}

func pkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func eachInstr(fn *ssa.Function, f func(ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f(in)
		}
	}
}

// funcValue: the function a value certainly is.
func funcValue(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcValue(x.X)
	}
	return nil
}

func newThreads(c *Ctx, maker func(*ssa.Function) bool) *threads {
	t := &threads{c: c, edges: map[*ssa.Function][]edge{}, parents: map[*ssa.Function][]edge{}, con: map[*ssa.Function]bool{},
		entry: map[*ssa.Function]lset{}, held: map[ssa.Instruction]lset{}, sums: map[*ssa.Function]*lockSum{}, onlyM: map[*ssa.Function]bool{},
		local: map[*ssa.Function]map[ssa.Instruction]lset{}, spawnM: map[*ssa.Function]map[*role]bool{}}
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if t.inScope(fn) && !seen[fn] {
			seen[fn] = true
			t.fns = append(t.fns, fn)
		}
	}
	for _, fn := range c.p.allWithInit() {
		add(fn)
	}
	for _, fn := range c.p.addrTaken { // the wrappers of method values
		add(fn)
	}
	t.flow = newTypeFlow(t)
	dynCalled := map[*ssa.Function]bool{}
	goFns := map[*ssa.Function]bool{}
	libArg := map[*ssa.Function]bool{} // handed to a library function that calls it
	for i := 0; i < len(t.fns); i++ {
		fn := t.fns[i]
		eachInstr(fn, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			cc := ci.Common()
			_, isGo := in.(*ssa.Go)
			_, isDefer := in.(*ssa.Defer)
			link := func(g *ssa.Function, args []ssa.Value, isGo bool) {
				if !t.inScope(g) {
					return
				}
				add(g)
				e := edge{site: in, callee: g, args: args, deferred: isDefer, isGo: isGo}
				t.edges[fn] = append(t.edges[fn], e)
				t.parents[g] = append(t.parents[g], e)
				if isGo {
					goFns[g] = true
				}
			}
			if g := cc.StaticCallee(); g != nil {
				if t.inScope(g) {
					link(g, cc.Args, isGo)
					return
				}
				for _, a := range cc.Args {
					if f := funcValue(a); f != nil {
						later := isGo || g.RelString(nil) == "time.AfterFunc"
						libArg[f] = true
						link(f, nil, later)
					}
				}
				return
			}
			if _, isB := cc.Value.(*ssa.Builtin); isB {
				return
			}
			callees := []*ssa.Function{}
			if cc.IsInvoke() {
				callees = t.flow.callees(cc)
			} else {
				for _, g := range c.p.possibleCallees(ci) {
					if !t.onlyCalled(g) {
						callees = append(callees, g)
					}
				}
			}
			for _, g := range callees {
				args := cc.Args
				if cc.IsInvoke() {
					args = append([]ssa.Value{cc.Value}, args...)
					if cc.Method.Name() != g.Name() {
						args = nil // called by a library object
					}
				}
				dynCalled[g] = true
				link(g, args, isGo)
			}
		})
	}
	// who starts: the user
	t.user = &role{name: "the user's goroutines", many: true}
	for _, fn := range t.fns {
		if fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		o, ok := fn.Object().(*types.Func)
		if !ok || !o.Exported() || o.Pkg() != c.p.spkgs["memcache"].Pkg {
			continue
		}
		if r := fn.Signature.Recv(); r != nil {
			if n := namedOf(r.Type()); n != nil && n.Obj().Exported() {
				t.user.fns = append(t.user.fns, fn)
			}
			continue
		}
		if maker(fn) {
			t.makers = append(t.makers, fn)
		} else {
			t.user.fns = append(t.user.fns, fn)
		}
	}
	for _, fn := range c.p.addrTaken {
		if t.inScope(fn) && !dynCalled[fn] && !goFns[fn] && !libArg[fn] && !t.onlyCalled(fn) {
			t.user.fns = append(t.user.fns, fn)
		}
	}
	t.roles = append(t.roles, t.user)
	for _, fn := range t.fns {
		for _, e := range t.edges[fn] {
			if !e.isGo {
				continue
			}
			var r *role
			for _, x := range t.roles {
				if x.site == e.site {
					r = x
				}
			}
			if r == nil {
				r = &role{name: "the goroutine started at " + c.p.pos(e.site), site: e.site}
				t.roles = append(t.roles, r)
			}
			r.fns = append(r.fns, e.callee)
		}
	}
	for _, r := range t.roles {
		r.in = t.reach(r.fns, false, nil)
	}
	// construction: reached from the makers only
	for f := range t.reach(t.makers, false, nil) {
		t.con[f] = true
		for _, r := range t.roles {
			if r.in[f] {
				delete(t.con, f)
			}
		}
	}
	t.lockEntries()
	return t
}

// onlyCalled: every use of the function value is its own call (go, defer or immediate).
func (t *threads) onlyCalled(fn *ssa.Function) bool {
	v, ok := t.onlyM[fn]
	if !ok {
		v = onlyCalled(t.c, fn)
		t.onlyM[fn] = v
	}
	return v
}

func onlyCalled(c *Ctx, fn *ssa.Function) bool {
	uses := 0
	for _, g := range c.p.allWithInit() {
		bad := false
		eachInstr(g, func(in ssa.Instruction) {
			mc, ok := in.(*ssa.MakeClosure)
			if ok && mc.Fn == ssa.Value(fn) {
				for _, r := range *mc.Referrers() {
					ci, isCall := r.(ssa.CallInstruction)
					if isCall && ci.Common().Value == ssa.Value(mc) {
						uses++
						continue
					}
					if _, dbg := r.(*ssa.DebugRef); !dbg {
						bad = true
					}
				}
				return
			}
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(fn) {
					if ci, isCall := in.(ssa.CallInstruction); isCall && ci.Common().Value == ssa.Value(fn) {
						uses++
						continue
					}
					bad = true
				}
			}
		})
		if bad {
			return false
		}
	}
	return uses > 0
}

// reach: the functions reached over calls (and go statements), not through skip.
func (t *threads) reach(from []*ssa.Function, overGo bool, skip *ssa.Function) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	work := append([]*ssa.Function(nil), from...)
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if res[f] || f == skip {
			continue
		}
		res[f] = true
		for _, e := range t.edges[f] {
			if !e.isGo || overGo {
				work = append(work, e.callee)
			}
		}
	}
	return res
}

func (t *threads) rolesOf(fn *ssa.Function) []*role {
	var res []*role
	for _, r := range t.roles {
		if r.in[fn] {
			res = append(res, r)
		}
	}
	return res
}

// spawns: the goroutines a call of fn may start.
func (t *threads) spawns(fn *ssa.Function) map[*role]bool {
	if m, ok := t.spawnM[fn]; ok {
		return m
	}
	m := map[*role]bool{}
	t.spawnM[fn] = m
	for f := range t.reach([]*ssa.Function{fn}, false, nil) {
		for _, r := range t.roles {
			if r.site != nil && r.site.Parent() == f {
				m[r] = true
			}
		}
	}
	return m
}

// ---- locks ----

func (t *threads) lockKey(v ssa.Value) any {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fieldVar(x)
	case *ssa.Global:
		return x
	case *ssa.Alloc:
		return x
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return t.lockKey(b)
		}
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return paramKey(i)
			}
		}
	case *ssa.MakeInterface:
		return t.lockKey(x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if fieldVar(fa).Name() == "L" && strings.HasSuffix(derefType(fa.X.Type()).String(), "sync.Cond") {
				if u, ok := fa.X.(*ssa.UnOp); ok {
					if f := fieldOf(u.X); f != nil {
						if p := t.c.p.condMutexPath(f); p != nil {
							return p(nilT()).aux
						}
					}
				}
				return nil
			}
			return fieldVar(fa)
		}
		if g, ok := x.X.(*ssa.Global); ok {
			return g
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			if b := bindingOf(fv); b != nil {
				return t.lockKey(b)
			}
		}
	}
	return nil
}

// bindingOf: what the closure's variable is bound to, when it is made at one place.
func bindingOf(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	if fn.Parent() == nil || idx < 0 {
		return nil
	}
	var res ssa.Value
	n := 0
	eachInstr(fn.Parent(), func(in ssa.Instruction) {
		if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
			res = mc.Bindings[idx]
			n++
		}
	})
	if n != 1 {
		return nil
	}
	return res
}

// lockOp: what a call does to a lock: +2 Lock, +1 RLock, -1 Unlock, 0 nothing.
func lockOp(cc *ssa.CallCommon) (op int, on ssa.Value) {
	n := commonName(cc)
	if !isLockOp(n) {
		return 0, nil
	}
	if cc.IsInvoke() {
		on = cc.Value
	} else if len(cc.Args) > 0 {
		on = cc.Args[0]
	}
	switch n[strings.LastIndex(n, ".")+1:] {
	case "Lock":
		return 2, on
	case "RLock":
		return 1, on
	case "Unlock", "RUnlock":
		return -1, on
	}
	return 0, nil
}

// subst translates the locks of a callee to the caller.
func (t *threads) subst(s lset, args []ssa.Value) lset {
	r := lset{}
	for k, v := range s {
		if p, ok := k.(paramKey); ok {
			if int(p) >= len(args) {
				continue
			}
			k = t.lockKey(args[p])
			if k == nil {
				continue
			}
		}
		r[k] = v
	}
	return r
}

func (t *threads) summary(fn *ssa.Function) *lockSum {
	if s, ok := t.sums[fn]; ok {
		return s
	}
	s := &lockSum{gen: lset{}, kill: lset{}}
	t.sums[fn] = s
	deferred := lset{}
	eachInstr(fn, func(in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return
		}
		op, on := lockOp(ci.Common())
		_, isDefer := in.(*ssa.Defer)
		if op == -1 {
			if k := t.lockKey(on); k != nil {
				s.kill[k] = 2
				if isDefer {
					deferred[k] = 2
				}
			}
			return
		}
		for _, e := range t.edges[fn] {
			if e.site == in && !e.isGo {
				for k, v := range t.subst(t.summary(e.callee).kill, e.args) {
					s.kill[k] = v
					if isDefer {
						deferred[k] = v
					}
				}
			}
		}
	})
	var gen lset
	at := t.locksets(fn, lset{})
	eachInstr(fn, func(in ssa.Instruction) {
		if _, ok := in.(*ssa.Return); ok {
			if at[in] == nil {
				return
			}
			if gen == nil {
				gen = at[in].clone()
			} else {
				gen = meet(gen, at[in])
			}
		}
	})
	for k := range deferred {
		delete(gen, k)
	}
	if gen != nil {
		s.gen = gen
	}
	return s
}

// locksets: the locks held before every instruction.
func (t *threads) locksets(fn *ssa.Function, entry lset) map[ssa.Instruction]lset {
	ins := map[*ssa.BasicBlock]lset{fn.Blocks[0]: entry}
	res := map[ssa.Instruction]lset{}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	if fn.Recover != nil {
		ins[fn.Recover] = lset{}
		work = append(work, fn.Recover)
	}
	bySite := map[ssa.Instruction][]edge{}
	for _, e := range t.edges[fn] {
		if !e.isGo {
			bySite[e.site] = append(bySite[e.site], e)
		}
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := ins[b].clone()
		for _, in := range b.Instrs {
			res[in] = cur.clone()
			ci, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if op, on := lockOp(ci.Common()); op != 0 {
				k := t.lockKey(on)
				if op > 0 && k != nil {
					if cur[k] < op {
						cur[k] = op
					}
				} else if op < 0 {
					if k == nil {
						cur = lset{} // some lock
					} else {
						delete(cur, k)
					}
				}
				continue
			}
			es := bySite[in]
			var gen lset
			for _, e := range es {
				s := t.summary(e.callee)
				for k := range t.subst(s.kill, e.args) {
					delete(cur, k)
				}
				g := t.subst(s.gen, e.args)
				if gen == nil {
					gen = g
				} else {
					gen = meet(gen, g)
				}
			}
			if ci.Common().StaticCallee() != nil {
				for k, v := range gen {
					if cur[k] < v {
						cur[k] = v
					}
				}
			}
		}
		for _, s := range b.Succs {
			old, ok := ins[s]
			if !ok {
				ins[s] = cur.clone()
				work = append(work, s)
				continue
			}
			if m := meet(old, cur); !sameSet(m, old) {
				ins[s] = m
				work = append(work, s)
			}
		}
	}
	return res
}

// heldAt: the locks held when the callee of the edge runs.
func (t *threads) heldAt(fn *ssa.Function, at map[ssa.Instruction]lset, e edge) lset {
	if !e.deferred {
		return at[e.site]
	}
	var res lset
	eachInstr(fn, func(in ssa.Instruction) {
		if _, ok := in.(*ssa.RunDefers); ok && at[in] != nil {
			if res == nil {
				res = at[in].clone()
			} else {
				res = meet(res, at[in])
			}
		}
	})
	if res == nil {
		return lset{}
	}
	eachInstr(fn, func(in ssa.Instruction) {
		d, ok := in.(*ssa.Defer)
		if !ok || in == e.site {
			return
		}
		if in.Block() == e.site.Block() {
			for _, x := range in.Block().Instrs {
				if x == in {
					return // registered before, so it runs after
				}
				if x == e.site {
					break
				}
			}
		} else if in.Block().Dominates(e.site.Block()) {
			return
		}
		if op, on := lockOp(d.Common()); op == -1 {
			if k := t.lockKey(on); k != nil {
				delete(res, k)
			} else {
				res = lset{}
			}
		}
	})
	return res
}

func (t *threads) lockEntries() {
	var work []*ssa.Function
	give := func(f *ssa.Function, s lset) {
		old, ok := t.entry[f]
		if !ok {
			t.entry[f] = s.clone()
			work = append(work, f)
			return
		}
		if m := meet(old, s); !sameSet(m, old) {
			t.entry[f] = m
			work = append(work, f)
		}
	}
	for _, r := range t.roles {
		for _, f := range r.fns {
			give(f, lset{})
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		at := t.locksets(f, t.entry[f])
		for in, s := range at {
			t.held[in] = s
		}
		for _, e := range t.edges[f] {
			if e.isGo {
				continue
			}
			h := t.heldAt(f, at, e)
			if h == nil {
				continue // never executed
			}
			// what the callee knows under the name of its own parameters
			in := lset{}
			for k, v := range h {
				if _, isP := k.(paramKey); isP {
					continue
				}
				in[k] = v
				for i, a := range e.args {
					if t.lockKey(a) == k {
						in[paramKey(i)] = v
					}
				}
			}
			give(e.callee, in)
		}
	}
}

// localAt: the locks held before an instruction when the function is entered with none.
func (t *threads) localAt(in ssa.Instruction) lset {
	fn := in.Parent()
	m, ok := t.local[fn]
	if !ok {
		m = t.locksets(fn, lset{})
		t.local[fn] = m
	}
	return m[in]
}

// ---- ownership ----

// within: the outermost function that starts the goroutine exactly once per call.
func (t *threads) within(r *role) *ssa.Function {
	if r.site == nil || inCycle(r.site.Block()) {
		return nil
	}
	x := r.site.Parent()
	for {
		ps := t.parents[x]
		if len(ps) != 1 || ps[0].isGo || inCycle(ps[0].site.Block()) || ps[0].site.Parent() == x {
			return x
		}
		if cc := ps[0].site.(ssa.CallInstruction).Common(); cc.StaticCallee() != x {
			return x
		}
		for _, r := range t.roles {
			for _, f := range r.fns {
				if f == x {
					return x
				}
			}
		}
		x = ps[0].site.Parent()
	}
}

// contains: a value of type a has a b inside.
func containsType(a types.Type, b *types.Named) bool {
	if types.Identical(a, b) {
		return true
	}
	switch x := a.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if containsType(x.Field(i).Type(), b) {
				return true
			}
		}
	case *types.Array:
		return containsType(x.Elem(), b)
	}
	return false
}

// unique: at most one goroutine of the role uses an object of that type.
func (t *threads) unique(r *role, n *types.Named) bool {
	if r.many || n == nil {
		return false
	}
	x := t.within(r)
	if x == nil {
		return false
	}
	var roots []*ssa.Function
	roots = append(roots, t.makers...)
	for _, r2 := range t.roles {
		if r2.site == nil {
			roots = append(roots, r2.fns...)
		}
	}
	makes := func(fs map[*ssa.Function]bool) bool {
		made := false
		for f := range fs {
			eachInstr(f, func(in ssa.Instruction) {
				switch a := in.(type) {
				case *ssa.Alloc:
					made = made || containsType(derefType(a.Type()), n)
				case *ssa.MakeSlice:
					made = made || containsType(a.Type().Underlying().(*types.Slice).Elem(), n)
				}
			})
		}
		return made
	}
	if makes(t.reach(roots, true, x)) || !makes(t.reach([]*ssa.Function{x}, true, nil)) {
		return false
	}
	for _, g := range t.c.p.spkgs {
		for _, m := range g.Members {
			if gl, ok := m.(*ssa.Global); ok && containsType(derefType(gl.Type()), n) {
				return false
			}
		}
	}
	return true
}

// spawnedBetween: the goroutines that may have been started before in, after from was executed last.
func (t *threads) spawnedBetween(fn *ssa.Function, from, in ssa.Instruction) map[*role]bool {
	res := map[*role]bool{}
	starts := map[ssa.Instruction]map[*role]bool{}
	for _, r := range t.roles {
		if r.site != nil && r.site.Parent() == fn {
			starts[r.site] = map[*role]bool{r: true}
		}
	}
	for _, e := range t.edges[fn] {
		if e.isGo || e.site == in {
			continue
		}
		for r := range t.spawns(e.callee) {
			if starts[e.site] == nil {
				starts[e.site] = map[*role]bool{}
			}
			starts[e.site][r] = true
		}
	}
	for s, rs := range starts {
		if s == from {
			if pathTo(s, in, from) {
				for r := range rs {
					res[r] = true
				}
			}
			continue
		}
		after := from == nil || pathTo(from, s, from)
		if after && pathTo(s, in, from) {
			for r := range rs {
				res[r] = true
			}
		}
	}
	return res
}

// pathTo: a path from a (exclusive) to b that does not execute avoid in between.
func pathTo(a, b, avoid ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(blk *ssa.BasicBlock, i int) bool
	scan = func(blk *ssa.BasicBlock, i int) bool {
		for ; i < len(blk.Instrs); i++ {
			if blk.Instrs[i] == b {
				return true
			}
			if blk.Instrs[i] == avoid {
				return false
			}
		}
		for _, s := range blk.Succs {
			if !seen[s] {
				seen[s] = true
				if scan(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, x := range a.Block().Instrs {
		if x == a {
			return scan(a.Block(), i+1)
		}
	}
	return false
}

func roleNames(rs map[*role]bool) string {
	var ns []string
	for r := range rs {
		ns = append(ns, r.name)
	}
	sort.Strings(ns)
	return strings.Join(ns, ", ")
}
