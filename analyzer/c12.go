package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:  "C12",
		min: 20,
		rule: "Every entry point (exported functions and methods, goroutine bodies, function values, functions nobody calls) that reaches a lock or a blocking operation is interpreted on all paths with the set of locks it holds: a lock is taken only when it is not held, released only when held, and nothing is held when the entry point ends; with a lock held there is no channel operation that can block, no wait on a wait group, no sleep, no dial, no read from a connection and no call of a caller-supplied function, and a condition variable is waited on only with its own lock held and no other. " +
			"The order in which lock classes (a field of a type) are nested, over all entry points, has no cycle. Every lock operation of the source is reached.",
		not: "writes to a connection under the lock of that connection (bounded by the write timeout, C10); goroutines that end by a panic",
		run: runC12,
	})
}

// lockClass names the kind of lock: the field it is, whatever the object.
func lockClass(l *Term) any {
	switch l.op {
	case OFA:
		return l.aux.(*types.Var)
	case OGlobal:
		return l.aux
	case OApp:
		if l.aux == "rlock" {
			return lockClass(l.args[0])
		}
	}
	return nil
}

func classString(c *Ctx, k any) string {
	if v, ok := k.(*types.Var); ok {
		for _, p := range []string{"memcache", "netconn", "stats"} {
			sc := c.p.spkgs[p].Pkg.Scope()
			for _, n := range sc.Names() {
				if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
					if nt, ok := tn.Type().(*types.Named); ok {
						for _, f := range structFields(nt) {
							if f == v {
								return n + "." + v.Name()
							}
						}
					}
				}
			}
		}
		return v.Name()
	}
	return fmt.Sprint(k)
}

func isLockOp(name string) bool {
	return strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex).") ||
		strings.HasPrefix(name, "(*sync.Cond).") || strings.HasPrefix(name, "invoke:(sync.Locker).") || strings.HasPrefix(name, "(sync.Locker).")
}

// waitsName: a library call that waits for something else than a lock.
func waitsName(name string) bool {
	switch name {
	case "(*sync.WaitGroup).Wait", "time.Sleep", "io.ReadFull", "io.ReadAll", "io.ReadAtLeast", "io.Copy", "(*sync.Once).Do":
		return true
	}
	return strings.HasSuffix(name, ").Read") && !strings.Contains(name, "bytes.") ||
		strings.HasPrefix(name, "net.Dial") || strings.HasPrefix(name, "(*net.Dialer).")
}

// commonName is the name of the callee of a call, as far as it is known without the analysis.
func commonName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return "invoke:" + cc.Method.FullName()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.RelString(nil)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name()
	}
	return "dynamic"
}

// lockRelevant: the instruction is a lock operation or may wait.
func lockRelevant(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Send, *ssa.Select:
		return true
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case ssa.CallInstruction:
		n := commonName(x.Common())
		return isLockOp(n) || waitsName(n) || n == "dynamic"
	}
	return false
}

// entryPoints lists the functions from which the relevant code is reached.
func entryPoints(c *Ctx, relevant func(*ssa.Function) bool) []*ssa.Function {
	called := map[*ssa.Function]bool{}
	goes := map[*ssa.Function]bool{}
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						if _, isGo := in.(*ssa.Go); isGo {
							goes[f] = true
						} else {
							called[f] = true
						}
					}
				}
			}
		}
	}
	taken := map[*ssa.Function]bool{}
	for _, f := range c.p.addrTaken {
		taken[f] = true
	}
	onlyCalled := map[*ssa.Function]bool{} // closures that are only called, deferred, or passed to a function of the repository
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				only := true
				for _, r := range *mc.Referrers() {
					ci, isCall := r.(ssa.CallInstruction)
					_, isGo := r.(*ssa.Go)
					switch {
					case !isCall || isGo:
						only = false
					case ci.Common().Value == ssa.Value(mc):
					case ci.Common().StaticCallee() == nil || !c.p.inRepo(ci.Common().StaticCallee()):
						only = false
					}
				}
				if only {
					onlyCalled[mc.Fn.(*ssa.Function)] = true
				}
			}
		}
	}
	var res []*ssa.Function
	for _, fn := range c.p.funcs {
		if !relevant(fn) {
			continue
		}
		exported := fn.Object() != nil && fn.Object().Exported()
		if exported || goes[fn] || taken[fn] && !onlyCalled[fn] || !called[fn] && !onlyCalled[fn] {
			res = append(res, fn)
		}
	}
	return res
}

// bufferedChan: every channel of that type is made with room for a message.
func bufferedChan(c *Ctx, t types.Type) bool {
	n := 0
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeChan)
				if !ok || !types.Identical(mc.Type().Underlying(), t.Underlying()) {
					continue
				}
				n++
				k, ok := mc.Size.(*ssa.Const)
				if !ok || k.Int64() < 1 {
					return false
				}
			}
		}
	}
	return n > 0
}

func heldLocks(st *State) []*Term {
	var ls []*Term
	for l, n := range st.locks {
		if n > 0 {
			ls = append(ls, l)
		}
	}
	sortTerms(ls)
	return ls
}

func heldNames(c *Ctx, ls []*Term) string {
	var s []string
	for _, l := range ls {
		s = append(s, classString(c, lockClass(l)))
	}
	if len(s) == 0 {
		return "none"
	}
	return strings.Join(s, ", ")
}

func runC12(c *Ctx) {
	memo := map[*ssa.Function]bool{}
	rel := func(fn *ssa.Function) bool { return mentions(c, memo, fn, lockRelevant) }
	lockMemo := map[*ssa.Function]bool{}
	locks := func(fn *ssa.Function) bool {
		return mentions(c, lockMemo, fn, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && isLockOp(commonName(ci.Common()))
		})
	}
	type edge struct{ from, to any }
	order := map[edge]ssa.Instruction{}
	seen := map[ssa.Instruction]bool{}
	roots := entryPoints(c, locks)
	if len(roots) == 0 {
		c.obFn("anchor", nil, false, "no entry point uses a lock (undecided)")
		return
	}
	blocked := func(e *Engine, st *State, in ssa.Instruction, what string) {
		h := heldLocks(st)
		e.Oblige(st, "no-lock-while-blocking", in, len(h) == 0, "no lock is held during %s (held: %s)", what, heldNames(c, h))
	}
	isRoot := map[*ssa.Function]bool{}
	for _, r := range roots {
		isRoot[r] = true
	}
	for i := 0; i < len(roots); i++ {
		root := roots[i]
		e := c.engine(Hooks{
			Lock: func(e *Engine, st *State, in ssa.Instruction, op string, l *Term) {
				seen[in] = true
				switch op {
				case "lock", "rlock":
					k := lockClass(l)
					e.Oblige(st, "lock-known", in, k != nil, "the lock is a field or a package variable (undecided: %s)", l)
					again := false
					for _, h := range heldLocks(st) {
						if lockClass(h) == k {
							again = true
						} else {
							order[edge{lockClass(h), k}] = in
						}
					}
					e.Oblige(st, "not-taken-twice", in, !again, "the lock %s is not taken while it is held", classString(c, k))
				case "unlock":
					e.Oblige(st, "released-once", in, st.locks[l] == 1, "only a lock that is held is released (%s)", classString(c, lockClass(l)))
				case "runlock":
					e.Oblige(st, "released-once", in, st.locks[appT(l.typ, "rlock", l)] == 1, "only a lock that is held is released (%s)", classString(c, lockClass(l)))
				case "wait":
					m := e.condMutex(st, l)
					if m == nil {
						e.Oblige(st, "wait-own-lock", in, false, "the lock of the condition variable was not found (undecided)")
						return
					}
					h := heldLocks(st)
					e.Oblige(st, "wait-own-lock", in, len(h) == 1 && h[0] == m && st.locks[m] == 1, "the wait holds exactly the lock of its condition variable, %s (held: %s)", classString(c, lockClass(m)), heldNames(c, h))
				}
			},
			Send: func(e *Engine, st *State, in ssa.Instruction, ch, val *Term) {
				if s, ok := in.(*ssa.Send); ok && bufferedChan(c, s.Chan.Type()) {
					return
				}
				blocked(e, st, in, "a channel send")
			},
			Recv: func(e *Engine, st *State, in ssa.Instruction, ch *Term) { blocked(e, st, in, "a channel receive") },
			Select: func(e *Engine, st *State, in *ssa.Select, chans []*Term) {
				if in.Blocking {
					blocked(e, st, in, "a select")
				}
			},
			Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
				if ci.Kind == "go" {
					return nil, true
				}
				if strings.HasPrefix(ci.Name, "invoke:(sync.Locker).") {
					e.Oblige(st, "lock-known", ci.Site, false, "the lock behind an interface is not known (undecided)")
				}
				if waitsName(ci.Name) && (ci.Callee == nil || !c.p.inRepo(ci.Callee)) {
					blocked(e, st, ci.Site, ci.Name)
				}
				if ci.Callee != root && len(heldLocks(st)) == 0 && alone(c, e, st, ci) {
					if !isRoot[ci.Callee] && rel(ci.Callee) {
						isRoot[ci.Callee] = true
						roots = append(roots, ci.Callee)
					}
					if isRoot[ci.Callee] {
						return e.opaqueCall(st, ci), true // interpreted on its own, from the same set of locks
					}
				}
				if ci.Name == "dynamic" {
					blocked(e, st, ci.Site, "a call of a function that is not known here")
				}
				return nil, false
			},
		})
		e.Merge = func(*ssa.Function) bool { return true }
		e.Opaque = func(fn *ssa.Function) bool { return !rel(fn) }
		for _, o := range e.RunFresh(root, nil) {
			if o.Panic {
				continue
			}
			h := heldLocks(o.St)
			e.Oblige(o.St, "released-at-end", o.Instr, len(h) == 0, "no lock is held when %s ends (held: %s)", root.Name(), heldNames(c, h))
			for l, n := range o.St.locks {
				if n < 0 {
					e.Oblige(o.St, "released-at-end", o.Instr, false, "%s is released more often than taken", classString(c, lockClass(l)))
				}
			}
		}
		c.finish(e, root)
	}
	// every lock operation was reached
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !isLockOp(commonName(ci.Common())) {
					continue
				}
				if _, isDefer := in.(*ssa.Defer); isDefer {
					continue // seen when it runs
				}
				if fn.Name() == "init" {
					continue
				}
				c.ob("reached", in, seen[in], "the lock operation is reached from an entry point (undecided)")
			}
		}
	}
	// lock order
	succ := map[any][]any{}
	var es []edge
	for x := range order {
		es = append(es, x)
	}
	sort.Slice(es, func(i, k int) bool { return c.p.pos(order[es[i]]) < c.p.pos(order[es[k]]) })
	for _, x := range es {
		succ[x.from] = append(succ[x.from], x.to)
	}
	for _, x := range es {
		// does x.to reach x.from?
		vis := map[any]bool{}
		var dfs func(n any) bool
		dfs = func(n any) bool {
			if n == x.from {
				return true
			}
			if vis[n] {
				return false
			}
			vis[n] = true
			for _, m := range succ[n] {
				if dfs(m) {
					return true
				}
			}
			return false
		}
		c.ob("lock-order", order[x], !dfs(x.to), "%s is taken while %s is held, and nowhere the other way round", classString(c, x.to), classString(c, x.from))
	}
}

// alone: the called function can be interpreted on its own, because nothing that only this path knows matters to it:
// no function value and no object that is still being made is passed.
func alone(c *Ctx, e *Engine, st *State, ci *CallInfo) bool {
	if ci.Callee == nil || len(ci.Callee.Blocks) == 0 || !c.p.inRepo(ci.Callee) || ci.Callee.Parent() != nil || ci.Kind == "go" {
		return false
	}
	var plain func(t *Term) bool
	plain = func(t *Term) bool {
		if t == nil {
			return true
		}
		if t.op == OFunc {
			return false
		}
		if t.typ != nil {
			if _, ok := t.typ.Underlying().(*types.Signature); ok {
				return false
			}
		}
		if r := st.rootAlloc(t); r != nil && !st.escaped[r] {
			return false
		}
		for _, a := range t.args {
			if !plain(a) {
				return false
			}
		}
		return true
	}
	for _, a := range ci.Args {
		if !plain(a) {
			return false
		}
	}
	return true
}
