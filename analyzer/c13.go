package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:  "C13",
		min: 15,
		rule: "Every wait on a condition variable is found, with the fields its condition reads. The wait is repeated until the condition, read again under the lock after each wait, allows to go on; the condition was read under the lock since it was taken, and every closing flag of the object is known to be unset when the wait starts. " +
			"From every entry point, on every path, each store (or atomic update) of a field a condition reads happens with the lock of that condition held, unless the object is still being made, and is followed, or preceded in the same critical section, by a Signal or Broadcast of that condition variable before the path ends or blocks, unless the path shows that the condition already allowed to go on (so nobody waits), the store cannot allow it, or the storing goroutine is itself the only one that waits. Signal is used only where a single goroutine can wait.",
		not: "waiting on channels (closing of the channels is C11, completion of batches C06)",
		run: runC13,
	})
}

// waitPoint is one wait on a condition variable.
type waitPoint struct {
	in     ssa.Instruction // the wait, or the call of the function that waits
	wait   ssa.Instruction
	cond   *types.Var
	lock   *types.Var
	owner  *types.Named
	fields map[*types.Var]bool
	flags  map[*types.Var]bool
	looped bool
}

func ownerType(c *Ctx, f *types.Var) *types.Named {
	for _, p := range []string{"memcache", "netconn", "stats"} {
		sc := c.p.spkgs[p].Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if nt, ok := tn.Type().(*types.Named); ok {
					for _, g := range structFields(nt) {
						if g == f {
							return nt
						}
					}
				}
			}
		}
	}
	return nil
}

func callName(in ssa.Instruction) string {
	if ci, ok := in.(ssa.CallInstruction); ok {
		return commonName(ci.Common())
	}
	return ""
}

func isUnlock(in ssa.Instruction) bool {
	n := callName(in)
	return strings.HasSuffix(n, ".Unlock") || strings.HasSuffix(n, ".RUnlock")
}

// waitRegion: the blocks in which the wait can be followed by the same wait without leaving the critical section.
func waitRegion(w ssa.Instruction) map[*ssa.BasicBlock]bool {
	blk := w.Block()
	cut := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if _, isDefer := in.(*ssa.Defer); !isDefer && isUnlock(in) {
				return true
			}
		}
		return false
	}
	after := false
	for _, in := range blk.Instrs {
		if in == w {
			after = true
			continue
		}
		if after && isUnlock(in) {
			return nil
		}
	}
	fwd := map[*ssa.BasicBlock]bool{}
	var f func(b *ssa.BasicBlock)
	f = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if !fwd[s] && (!cut(s) || s == blk) {
				fwd[s] = true
				f(s)
			}
		}
	}
	f(blk)
	if !fwd[blk] {
		return nil
	}
	back := map[*ssa.BasicBlock]bool{}
	var g func(b *ssa.BasicBlock)
	g = func(b *ssa.BasicBlock) {
		for _, s := range b.Preds {
			if !back[s] && fwd[s] && (!cut(s) || s == blk) {
				back[s] = true
				g(s)
			}
		}
	}
	g(blk)
	res := map[*ssa.BasicBlock]bool{}
	for b := range fwd {
		if back[b] || b == blk {
			res[b] = true
		}
	}
	return res
}

// loadsFields: the fields a function reads, directly or through functions it calls.
func loadsFields(c *Ctx, ins []ssa.Instruction, seen map[*ssa.Function]bool, res map[*types.Var]bool) {
	for _, in := range ins {
		switch x := in.(type) {
		case *ssa.UnOp:
			if f := fieldOf(x.X); f != nil {
				res[f] = true
			}
		case *ssa.Field:
			if s, ok := x.X.Type().Underlying().(*types.Struct); ok {
				res[s.Field(x.Field)] = true
			}
		case ssa.CallInstruction:
			cc := x.Common()
			if f := cc.StaticCallee(); f != nil {
				if f.Signature.Recv() != nil && isAtomicMethod(f) && len(cc.Args) > 0 {
					if fv := fieldOf(cc.Args[0]); fv != nil {
						res[fv] = true
					}
				}
				if c.p.inRepo(f) && !seen[f] {
					seen[f] = true
					for _, b := range f.Blocks {
						loadsFields(c, b.Instrs, seen, res)
					}
				}
			}
		}
	}
}

func isAtomicMethod(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && strings.Contains(f.RelString(nil), "sync/atomic.")
}

func findWaits(c *Ctx) []*waitPoint {
	var res []*waitPoint
	callers := map[*ssa.Function][]ssa.Instruction{}
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						callers[f] = append(callers[f], in)
					}
				}
			}
		}
	}
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if callName(in) != "(*sync.Cond).Wait" {
					continue
				}
				w := &waitPoint{wait: in, fields: map[*types.Var]bool{}, flags: map[*types.Var]bool{}}
				if ld, ok := in.(ssa.CallInstruction).Common().Args[0].(*ssa.UnOp); ok {
					w.cond = fieldOf(ld.X)
				}
				if w.cond != nil {
					w.owner = ownerType(c, w.cond)
					if mp := c.p.condMutexPath(w.cond); mp != nil {
						w.lock = mp(nilT()).aux.(*types.Var)
					}
				}
				// a function that only waits is looked at where it is called
				at := []ssa.Instruction{in}
				for depth := 0; depth < 4; depth++ {
					var next []ssa.Instruction
					for _, a := range at {
						f := a.Parent()
						locks := false
						for _, b := range f.Blocks {
							for _, i2 := range b.Instrs {
								if n := callName(i2); strings.HasSuffix(n, "Lock") || isUnlock(i2) {
									locks = true
								}
							}
						}
						if waitRegion(a) == nil && !locks && len(callers[f]) > 0 {
							next = append(next, callers[f]...)
						} else {
							next = append(next, a)
						}
					}
					at = next
				}
				for _, a := range at {
					w2 := *w
					w2.in = a
					w2.fields, w2.flags = map[*types.Var]bool{}, map[*types.Var]bool{}
					reg := waitRegion(a)
					w2.looped = reg != nil
					seen := map[*ssa.Function]bool{}
					for rb := range reg {
						loadsFields(c, rb.Instrs, seen, w2.fields)
					}
					for f := range w2.fields {
						if strings.HasPrefix(f.Type().String(), "*sync.") || strings.HasPrefix(f.Type().String(), "sync.") && !strings.HasPrefix(f.Type().String(), "sync/atomic") {
							delete(w2.fields, f)
						}
					}
					res = append(res, &w2)
				}
			}
		}
	}
	// closing flags: fields of the same object that some other function sets
	for _, w := range res {
		for _, f := range structFields(w.owner) {
			if !isBoolType(f.Type()) {
				continue
			}
			for _, fn := range c.p.funcs {
				if fn == w.in.Parent() || fn == w.wait.Parent() {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && fieldOf(s.Addr) == f {
							if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "true" {
								w.flags[f] = true
							}
						}
					}
				}
			}
		}
	}
	return res
}

// pointerTargets: the fields whose addresses are stored in a pointer field; all is set when that is not known.
func pointerTargets(c *Ctx, g *types.Var) (targets map[*types.Var]bool, all bool) {
	targets = map[*types.Var]bool{}
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || fieldOf(s.Addr) != g {
					continue
				}
				vals := []ssa.Value{s.Val}
				seen := map[ssa.Value]bool{}
				for len(vals) > 0 {
					v := vals[0]
					vals = vals[1:]
					if seen[v] {
						continue
					}
					seen[v] = true
					switch x := v.(type) {
					case *ssa.FieldAddr:
						targets[fieldOf(x)] = true
					case *ssa.Const:
					case *ssa.Phi:
						vals = append(vals, x.Edges...)
					case *ssa.UnOp:
						if fieldOf(x.X) != g {
							all = true
						}
					default:
						all = true
					}
				}
			}
		}
	}
	return
}

func runC13(c *Ctx) {
	waits := findWaits(c)
	if len(waits) == 0 {
		c.obFn("anchor", nil, false, "no wait on a condition variable was found (undecided)")
		return
	}
	conds := map[*types.Var]bool{}
	watched := map[*types.Var][]*waitPoint{}
	for _, w := range waits {
		c.ob("wait-known", w.wait, w.cond != nil && w.lock != nil && w.owner != nil, "the condition variable is a field made with a lock of the same object (undecided)")
		if w.cond == nil || w.lock == nil {
			return
		}
		conds[w.cond] = true
		c.ob("re-checked", w.in, w.looped, "the wait on %s is repeated until its condition, read again under the lock, allows to go on", classString(c, w.cond))
		c.ob("re-checked", w.in, len(w.fields) > 0, "the condition of the wait on %s is read again after the wait", classString(c, w.cond))
		for f := range w.flags {
			w.fields[f] = true
		}
		for f := range w.fields {
			watched[f] = append(watched[f], w)
		}
	}
	relIn := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Store:
			if f := fieldOf(x.Addr); f != nil && watched[f] != nil {
				return true
			}
			if p, ok := x.Addr.Type().Underlying().(*types.Pointer); ok && fieldOf(x.Addr) == nil {
				for f := range watched {
					if types.Identical(p.Elem(), f.Type()) {
						if _, isAlloc := x.Addr.(*ssa.Alloc); !isAlloc {
							return true
						}
					}
				}
			}
		case *ssa.UnOp:
			if f := fieldOf(x.X); f != nil && watched[f] != nil {
				return true
			}
		case ssa.CallInstruction:
			if f := x.Common().StaticCallee(); f != nil && isAtomicMethod(f) {
				if fv := fieldOf(x.Common().Args[0]); fv != nil && watched[fv] != nil {
					return true
				}
			}
		}
		return lockRelevant(in)
	}
	memo := map[*ssa.Function]bool{}
	rel := func(fn *ssa.Function) bool { return mentions(c, memo, fn, relIn) }
	rootMemo := map[*ssa.Function]bool{}
	roots := entryPoints(c, func(fn *ssa.Function) bool {
		return mentions(c, rootMemo, fn, func(in ssa.Instruction) bool {
			_, isStore := in.(*ssa.Store)
			return isLockOp(callName(in)) || isStore && relIn(in) || strings.Contains(callName(in), "sync/atomic.") && relIn(in)
		})
	})
	waitMemo := map[*ssa.Function]bool{}
	hasWait := func(fn *ssa.Function) bool {
		return mentions(c, waitMemo, fn, func(in ssa.Instruction) bool { return callName(in) == "(*sync.Cond).Wait" })
	}
	sort.SliceStable(roots, func(i, k int) bool { return hasWait(roots[i]) && !hasWait(roots[k]) })
	isRoot := map[*ssa.Function]bool{}
	goRoot := map[*ssa.Function]bool{} // started once for each object
	for _, r := range roots {
		isRoot[r] = true
	}
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok && g.Common().StaticCallee() != nil {
					goRoot[g.Common().StaticCallee()] = !inCycle(b)
				}
			}
		}
	}
	type wk = *types.Var
	waiters := map[wk]map[*ssa.Function]bool{}
	signals := map[wk][]ssa.Instruction{} // Signal, not Broadcast
	nilPol := map[wk]map[wk]bool{}
	eqPair := map[wk]map[[2]wk]bool{}
	reached := map[ssa.Instruction]bool{}
	stored := map[ssa.Instruction]bool{}
	for _, w := range waits {
		waiters[w.cond] = map[*ssa.Function]bool{}
		nilPol[w.cond] = map[wk]bool{}
		eqPair[w.cond] = map[[2]wk]bool{}
	}
	lockOf := map[wk]wk{}
	for _, w := range waits {
		lockOf[w.cond] = w.lock
	}
	condOf := func(st *State, t *Term) (wk, *Term) {
		for a, v := range st.heap {
			if v == t && a.op == OFA && conds[a.aux.(*types.Var)] {
				return a.aux.(*types.Var), a.args[0]
			}
		}
		return nil, nil
	}
	holds := func(st *State, lock wk) *Term {
		for _, l := range heldLocks(st) {
			if lockClass(l) == any(lock) {
				return l
			}
		}
		return nil
	}
	shared := map[wk]map[*ssa.Function]bool{} // fields of shared objects: who changes them
	change := func(f wk, root *ssa.Function) {
		if shared[f] == nil {
			shared[f] = map[*ssa.Function]bool{}
		}
		shared[f][root] = true
	}
	// the goroutines that wait are interpreted twice: what is learned about their waits is used for all of them
	learning := 0
	for learning < len(roots) && hasWait(roots[learning]) {
		learning++
	}
	roots = append(append([]*ssa.Function(nil), roots[:learning]...), roots...)
	for i := 0; i < len(roots); i++ {
		root := roots[i]
		learn := i < learning
		own := func(cond wk) bool { return goRoot[root] && waiters[cond][root] && len(waiters[cond]) == 1 }
		key := func(k string, v wk) string { return k + ":" + classString(c, v) }
		capKey := func(cond, f wk) string { return "cap:" + classString(c, cond) + ":" + classString(c, f) }
		// canGo: the path shows that the condition allowed to go on before the store
		canGo := func(e *Engine, st *State, cond wk) bool {
			for _, w := range waits {
				if w.cond != cond {
					continue
				}
				for f := range w.fields {
					v := st.ghost[capKey(cond, f)]
					if v.isNilTerm() {
						continue
					}
					if isBoolType(v.typ) {
						if b, k := e.evalBool(st, v); k && b && w.flags[f] {
							return true
						}
					}
					if nilPol[cond][f] {
						if b, k := e.evalBool(st, eqT(v, nilT())); k && !b {
							return true
						}
					}
				}
			}
			for p := range eqPair[cond] {
				a, b := st.ghost[capKey(cond, p[0])], st.ghost[capKey(cond, p[1])]
				if a.isNilTerm() || b.isNilTerm() {
					continue
				}
				if x, k := e.evalBool(st, eqT(a, b)); k && !x {
					return true
				}
			}
			return false
		}
		settle := func(e *Engine, st *State) {
			for cond := range conds {
				if st.mon[key("owe", cond)] != "" && canGo(e, st, cond) {
					delete(st.mon, key("owe", cond))
				}
			}
		}
		owing := func(st *State) bool {
			for cond := range conds {
				if st.mon[key("owe", cond)] != "" {
					return true
				}
			}
			return false
		}
		due := func(e *Engine, st *State, in ssa.Instruction, what string) {
			settle(e, st)
			for _, cond := range sortedVars(c, conds) {
				if w := st.mon[key("owe", cond)]; w != "" {
					e.Oblige(st, "woken", in, false, "the waiter on %s is not woken after the change at %s before %s", classString(c, cond), w, what)
					delete(st.mon, key("owe", cond))
				}
			}
		}
		forget := func(st *State, lock wk, all bool) {
			for cond := range conds {
				if lockOf[cond] != lock {
					continue
				}
				for k := range st.ghost {
					if !all && st.mon[key("owe", cond)] != "" {
						continue // what was read before the store is still needed
					}
					if strings.HasPrefix(k, "cap:"+classString(c, cond)+":") {
						st.ghost[k] = nilT()
					}
				}
				for k := range st.mon {
					if strings.HasPrefix(k, key("t", cond)+":") {
						delete(st.mon, k)
					}
				}
			}
		}
		// read: a watched field was read
		read := func(st *State, f wk, v *Term) {
			for _, w := range watched[f] {
				if holds(st, w.lock) == nil {
					continue
				}
				st.mon[key("t", w.cond)+":"+f.Name()] = "1"
				if st.mon[key("owe", w.cond)] == "" || !strings.HasSuffix(st.mon[key("owe", w.cond)], "/"+f.Name()) {
					st.ghost[capKey(w.cond, f)] = v
				}
			}
		}
		write := func(e *Engine, st *State, in ssa.Instruction, f wk, base *Term, val *Term) {
			stored[in] = true
			for _, w := range watched[f] {
				if val != nil {
					if b, k := e.evalBool(st, val); isBoolType(f.Type()) && k && !b {
						continue // cannot let a waiter go on
					}
					if val.op == ONil {
						continue
					}
				}
				l := holds(st, w.lock)
				ok := l != nil
				if ok && base != nil && ownerType(c, f) == w.owner && l.op == OFA {
					ok = l.args[0] == base
				}
				e.Oblige(st, "changed-under-lock", in, ok, "%s, which the wait on %s depends on, is changed with %s held", classString(c, f), classString(c, w.cond), classString(c, w.lock))
				if own(w.cond) || !ok {
					continue
				}
				if st.mon[key("sig", w.cond)] != "" {
					continue
				}
				st.mon[key("owe", w.cond)] = c.p.pos(in) + "/" + f.Name()
			}
		}
		e := c.engine(Hooks{
			Lock: func(e *Engine, st *State, in ssa.Instruction, op string, l *Term) {
				switch op {
				case "lock", "rlock":
					settle(e, st)
					if k, ok := lockClass(l).(*types.Var); ok {
						forget(st, k, true)
					}
				case "unlock", "runlock":
					settle(e, st)
					if k, ok := lockClass(l).(*types.Var); ok {
						forget(st, k, false)
					}
					for cond := range conds {
						if any(lockOf[cond]) == lockClass(l) {
							delete(st.mon, key("sig", cond))
						}
					}
				case "signal", "broadcast":
					cond, _ := condOf(st, l)
					if cond == nil {
						e.Oblige(st, "signal-known", in, false, "the condition variable that is signalled is not known (undecided)")
						return
					}
					reached[in] = true
					delete(st.mon, key("owe", cond))
					if holds(st, lockOf[cond]) != nil {
						st.mon[key("sig", cond)] = "1"
					}
					if op == "signal" {
						signals[cond] = append(signals[cond], in)
					}
				case "wait":
					cond, owner := condOf(st, l)
					if cond == nil {
						e.Oblige(st, "wait-known", in, false, "the condition variable waited on is not known (undecided)")
						return
					}
					reached[in] = true
					waiters[cond][root] = true
					due(e, st, in, "waiting")
					var w *waitPoint
					for _, x := range waits {
						if x.wait == in {
							w = x
						}
					}
					if w == nil {
						return
					}
					tested := false
					for f := range w.fields {
						if st.mon[key("t", cond)+":"+f.Name()] != "" {
							tested = true
						}
					}
					e.Oblige(st, "tested-under-lock", in, tested, "the condition of the wait on %s was read under its lock since the lock was taken or the last wait", classString(c, cond))
					for _, f := range sortedVars(c, w.flags) {
						v := e.load(st, faT(owner, f), f.Type())
						b, k := e.evalBool(st, v)
						e.Oblige(st, "not-waiting-when-closed", in, k && !b && st.mon[key("t", cond)+":"+f.Name()] != "", "the wait on %s starts only when %s is not set", classString(c, cond), classString(c, f))
					}
					caps := map[wk]*Term{}
					for f := range w.fields {
						if v := st.ghost[capKey(cond, f)]; !v.isNilTerm() {
							caps[f] = v
							if b, k := e.evalBool(st, eqT(v, nilT())); k && b {
								nilPol[cond][f] = true
							}
						}
					}
					for f, v := range caps {
						for g, u := range caps {
							if f != g && isIntType(v.typ) && isIntType(u.typ) && st.zone.eq(v, u) {
								eqPair[cond][[2]wk{f, g}] = true
							}
						}
					}
					forget(st, w.lock, true)
				}
			},
			BackEdge: func(e *Engine, st *State, header, pred *ssa.BasicBlock, head *State) { settle(e, st) },
			Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
				if addr.op == OFA {
					if f := addr.aux.(*types.Var); watched[f] != nil && !isAtomicType(f.Type()) {
						read(st, f, e.load(st, addr, f.Type()))
					}
				}
			},
			Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
				if addr.op == OFA {
					f := addr.aux.(*types.Var)
					if r := st.rootAlloc(addr); r != nil && !st.escaped[r] {
						stored[in] = true
						return // not shared yet
					}
					change(f, root)
					if watched[f] == nil {
						return
					}
					write(e, st, in, f, addr.args[0], val)
					return
				}
				if addr.op == OIA || st.rootAlloc(addr) != nil {
					return
				}
				// through a pointer: the fields it can point to
				var via *types.Var
				for a, v := range st.heap {
					if v == addr && a.op == OFA {
						via = a.aux.(*types.Var)
					}
				}
				var tg map[*types.Var]bool
				all := true
				if via != nil {
					tg, all = pointerTargets(c, via)
				}
				for _, f := range sortedVars2(c, watched) {
					if isAtomicType(f.Type()) || !types.Identical(derefType(addr.typ), f.Type()) {
						continue
					}
					if tg[f] || all && takenAddr(c, f) {
						write(e, st, in, f, nil, val)
					}
				}
			},
			Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
				if ci.Kind == "go" {
					e.escape(st, ci.Fn)
					for _, a := range ci.Args {
						e.escape(st, a)
					}
					return nil, true
				}
				if ci.Callee != nil && isAtomicMethod(ci.Callee) && len(ci.Args) > 0 && ci.Args[0].op == OFA {
					f := ci.Args[0].aux.(*types.Var)
					if r := st.rootAlloc(ci.Args[0]); (r == nil || st.escaped[r]) && ci.Callee.Name() != "Load" {
						change(f, root)
					}
					if watched[f] != nil {
						switch ci.Callee.Name() {
						case "Load":
							r := e.resultOf(st, ci)
							read(st, f, r)
							return one(st, r), true
						default:
							if r := st.rootAlloc(ci.Args[0]); r != nil && !st.escaped[r] {
								stored[ci.Site] = true
								return nil, false
							}
							var val *Term
							if ci.Callee.Name() == "Store" {
								val = ci.Args[1]
							}
							write(e, st, ci.Site, f, nil, val)
						}
					}
					return nil, false
				}
				if ci.Name == "(*sync.WaitGroup).Wait" || ci.Name == "time.Sleep" {
					due(e, st, ci.Site, "blocking")
				}
				if ci.Callee != root && len(heldLocks(st)) == 0 && alone(c, e, st, ci) && !hasWait(ci.Callee) && !hasWait(root) {
					if !isRoot[ci.Callee] && rel(ci.Callee) && !owing(st) {
						isRoot[ci.Callee] = true
						roots = append(roots, ci.Callee)
					}
					if isRoot[ci.Callee] {
						due(e, st, ci.Site, "calling "+ci.Callee.Name())
						return e.opaqueCall(st, ci), true
					}
				}
				if ci.Callee != nil && c.p.inRepo(ci.Callee) && len(ci.Callee.Blocks) > 0 && !rel(ci.Callee) {
					if eff := c.p.effects(ci.Callee); !eff.spawns && !eff.calls["send"] {
						e.havocEffects(st, eff) // does not share its arguments with another goroutine
						return one(st, e.resultOf(st, ci)), true
					}
				}
				return nil, false
			},
			Recv: func(e *Engine, st *State, in ssa.Instruction, ch *Term) { due(e, st, in, "blocking") },
			Select: func(e *Engine, st *State, in *ssa.Select, chans []*Term) {
				if in.Blocking {
					due(e, st, in, "blocking")
				}
			},
			Send: func(e *Engine, st *State, in ssa.Instruction, ch, val *Term) {
				if s, ok := in.(*ssa.Send); ok && bufferedChan(c, s.Chan.Type()) {
					return
				}
				due(e, st, in, "blocking")
			},
		})
		e.Volatile = func(f *types.Var) bool { return watched[f] != nil }
		e.Merge = func(*ssa.Function) bool { return true }
		e.Opaque = func(fn *ssa.Function) bool { return !rel(fn) }
		outs := e.RunFresh(root, nil)
		if learn {
			for cond := range conds {
				signals[cond] = nil
			}
			continue
		}
		for _, o := range outs {
			if !o.Panic {
				due(e, o.St, o.Instr, root.Name()+" ends")
				e.Oblige(o.St, "woken", o.Instr, true, "every waiter whose condition %s can make true is woken", root.Name())
			}
		}
		c.finish(e, root)
	}
	for _, w := range waits {
		c.ob("reached", w.wait, reached[w.wait], "the wait is reached from an entry point (undecided)")
		for _, f := range staleReads(c, w) {
			others := false
			for r := range shared[f] {
				others = others || !waiters[w.cond][r]
			}
			c.ob("re-checked", w.in, !others, "the condition of the wait on %s uses %s as it was before the wait, although others change it", classString(c, w.cond), classString(c, f))
		}
		one := len(waiters[w.cond]) == 1
		for r := range waiters[w.cond] {
			one = one && goRoot[r]
		}
		for _, s := range signals[w.cond] {
			c.ob("wakes-all", s, one, "Signal wakes one waiter, so only one goroutine can wait on %s", classString(c, w.cond))
		}
	}
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if f := fieldOf(s.Addr); f != nil && watched[f] != nil {
						c.ob("reached", in, stored[in], "the change of %s is reached from an entry point (undecided)", classString(c, f))
					}
				}
			}
		}
	}
}

func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var f func(x *ssa.BasicBlock) bool
	f = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if f(s) {
					return true
				}
			}
		}
		return false
	}
	return f(b)
}

// takenAddr: the address of the field is stored or passed somewhere.
func takenAddr(c *Ctx, f *types.Var) bool {
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldOf(fa) != f {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch x := r.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if x.Val == ssa.Value(fa) {
							return true
						}
					default:
						return true
					}
				}
			}
		}
	}
	return false
}

func sortedVars(c *Ctx, m map[*types.Var]bool) []*types.Var {
	var r []*types.Var
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, k int) bool { return c.p.before(r[i].Pos(), r[k].Pos()) })
	return r
}

func sortedVars2(c *Ctx, m map[*types.Var][]*waitPoint) []*types.Var {
	k := map[*types.Var]bool{}
	for v := range m {
		k[v] = true
	}
	return sortedVars(c, k)
}

// staleReads: fields read outside the loop of the wait whose values decide whether it is left.
func staleReads(c *Ctx, w *waitPoint) []*types.Var {
	reg := waitRegion(w.in)
	res := map[*types.Var]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		in, ok := v.(ssa.Instruction)
		if !ok || seen[v] {
			return
		}
		seen[v] = true
		out := !reg[in.Block()]
		switch x := v.(type) {
		case *ssa.UnOp:
			if f := fieldOf(x.X); f != nil {
				if out {
					res[f] = true
				}
				return
			}
			walk(x.X)
		case *ssa.BinOp:
			walk(x.X)
			walk(x.Y)
		case *ssa.Convert:
			walk(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && isAtomicMethod(f) {
				if fv := fieldOf(x.Call.Args[0]); fv != nil && out {
					res[fv] = true
				}
			}
		}
	}
	for b := range reg {
		if len(b.Instrs) == 0 {
			continue
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for _, s := range b.Succs {
			if !reg[s] {
				walk(i.Cond)
				break
			}
		}
	}
	return sortedVars(c, res)
}
