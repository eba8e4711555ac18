package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C17", min: 20,
		rule: "The selector is interpreted on every arrival of pipelines of up to three batches, for every limit, every size of the batches and every progress of the reader (its counter only grows): when a batch that fits the limit is taken, the commands counted so far plus its own exceed those read by at most the limit, and whenever a batch is complete the sent counter moved by exactly the sizes of the batches taken. " +
			"The receiving goroutine is interpreted with a ghost per command: its responses are counted once, with the number it was sent with, on every path, also when reading fails. The counters and the limit are changed by nothing else, and the limit is the one configured.",
		not: "That waiting for room ends is C06 and C12; the counters are taken to stay below 2^60.",
		run: runC17,
	})
}

type limiterFields struct {
	wF, rF, limF *types.Var
	rAtomic      bool
}

func findLimiter(c *Ctx) *limiterFields {
	l := &limiterFields{wF: c.p.field("memcache", "connWriteLimiter", "cmdWriteCount"), rF: c.p.field("memcache", "connWriteLimiter", "cmdReadCount")}
	initL, nt := c.fn("memcache.initConnWriteLimiter"), c.p.typ("memcache", "connWriteLimiter")
	if l.wF == nil || l.rF == nil || nt == nil || initL == nil {
		c.obFn("anchor", initL, false, "the counters of the write limit were not found (undecided)")
		return nil
	}
	l.rAtomic = isAtomicType(l.rF.Type())
	n := 0
	for k := range c.p.effects(initL).writes {
		if f, ok := k.(*types.Var); ok && f != l.wF && f != l.rF && ownerType(c, f) == nt {
			if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				l.limF = f
				n++
			}
		}
	}
	c.obFn("anchor", initL, n == 1, "the field of the write limit was found (%d)", n)
	if n != 1 {
		return nil
	}
	return l
}

func runC17(c *Ctx) {
	q := newQueueEnv(c)
	if q == nil {
		return
	}
	l := findLimiter(c)
	if l == nil {
		return
	}
	q.rules = ruleSet("drain-once", "drain-batch")
	c17Send(q, l)
	e := c.engine(Hooks{})
	s, r := q.started(e)
	c17Receive(q, l, r)
	c17Single(q, l, s, r)
	c17Configured(q, l)
}

// limiterOf: the limiter object known to the state.
func (l *limiterFields) of(st *State) *Term {
	var best *Term
	for a := range st.heap {
		if a.op == OFA && (a.aux == l.limF || a.aux == l.wF) && (best == nil || a.args[0].id < best.id) {
			best = a.args[0]
		}
	}
	return best
}

const counterMax = int64(1) << 60

func c17Send(q *queueEnv, l *limiterFields) {
	c := q.c
	u := types.Typ[types.Uint64]
	takes, batches := 0, 0
	// what was read meanwhile: at least what was seen before
	fresh := func(e *Engine, st *State) *Term {
		v := freshSym(u, "readcount")
		st.zone.assumeLe(intT(0), v, 0)
		st.zone.assumeLe(v, intT(counterMax), 0)
		if p := st.ghost["r"]; p != nil {
			st.zone.assumeLe(p, v, 0)
		}
		// only what was sent before is counted as read (count-read)
		st.zone.assumeLe(v, st.ghost["sent"], 0)
		st.ghost["r"] = v
		return v
	}
	q.drainCall = func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		if !l.rAtomic || ci.Callee == nil || !isAtomicMethod(ci.Callee) || len(ci.Args) == 0 || ci.Args[0].op != OFA || ci.Args[0].aux != l.rF {
			return nil, false
		}
		if ci.Callee.Name() == "Load" {
			return one(st, fresh(e, st)), true
		}
		e.Oblige(st, "count-single", ci.Site, false, "the sending side does not change the number of commands read")
		return one(st, e.resultOf(st, ci)), true
	}
	q.drainLoad = func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
		if addr.op != OFA {
			return
		}
		switch addr.aux {
		case l.rF:
			if !l.rAtomic {
				st.heap[addr] = fresh(e, st)
			}
		case l.wF:
			st.zone.assumeLe(e.load(st, addr, u), intT(counterMax), 0)
		}
	}
	q.drainStart = func(e *Engine, st *State, a []*Term) {
		st.ghost["sent"], st.ghost["r"], st.ghost["limit"] = intT(0), intT(0), a[1]
		st.zone.assumeLe(a[1], intT(counterMax), 0)
	}
	q.drainTake = func(e *Engine, st *State, in ssa.Instruction, node *Term) {
		takes++
		cnt := e.load(st, faT(node, q.countF), q.countF.Type())
		lim := st.ghost["limit"]
		e.Oblige(st, "limit", in, st.zone.le(linT(lim, 1), cnt) || e.sumLe(st, []*Term{st.ghost["sent"], cnt}, []*Term{st.ghost["r"], lim}), "a batch that fits the write limit is taken only when the commands in flight leave room for it")
		st.zone.assumeLe(st.ghost["sent"], intT(counterMax), 0)
		st.ghost["sent"] = e.add(st, st.ghost["sent"], cnt, u)
	}
	q.drainDone = func(e *Engine, st *State, in ssa.Instruction) {
		batches++
		w := l.of(st)
		if w == nil {
			e.Oblige(st, "count-sent", in, false, "the limiter was not found (undecided)")
			return
		}
		e.Oblige(st, "count-sent", in, e.sumEq(st, []*Term{e.load(st, faT(w, l.wF), u)}, []*Term{st.ghost["sent"]}), "the commands of every batch taken are counted as sent once")
		e.Oblige(st, "limit-kept", in, e.sumEq(st, []*Term{e.load(st, faT(w, l.limF), u)}, []*Term{st.ghost["limit"]}), "the write limit is the one given")
	}
	// how the limit was decided matters until the batch is taken
	takesMemo, limMemo := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	q.drainMerge = func(fn *ssa.Function) bool {
		return mentions(c, takesMemo, fn, func(in ssa.Instruction) bool {
			call, ok := in.(*ssa.Call)
			if !ok {
				return false
			}
			b, ok := call.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" {
				return false
			}
			sl, ok := call.Type().Underlying().(*types.Slice)
			return ok && q.isCmdPtr(sl.Elem())
		}) || !mentions(c, limMemo, fn, func(in ssa.Instruction) bool {
			for _, o := range in.Operands(nil) {
				if o != nil && *o != nil {
					if f := fieldOf(*o); f != nil && (f == l.wF || f == l.rF || f == l.limF) {
						return true
					}
				}
			}
			return false
		})
	}
	q.checkDrain()
	c.obFn("limit", q.readCommands, takes > 0 && batches > 0, "batches are taken under the write limit (%d, %d)", takes, batches)
}

func c17Receive(q *queueEnv, l *limiterFields, rs []goRoot) {
	c := q.c
	adds, sends := 0, 0
	e := c.engine(Hooks{})
	count := func(e *Engine, st *State, node *Term) *Term {
		v := e.load(st, faT(node, q.countF), q.countF.Type())
		st.zone.assumeLe(intT(0), v, 0)
		st.zone.assumeLe(v, intT(maxLen), 0)
		return v
	}
	settle := func(e *Engine, st *State, in ssa.Instruction) {
		if st.mon["acks"] == "" || st.mon["dones"] == "" {
			return
		}
		node, added := st.ghost["done"], st.ghost["added"]
		e.Oblige(st, "count-read", in, node != nil && !node.isNilTerm() && e.sumEq(st, []*Term{added}, []*Term{count(e, st, node)}), "the commands counted as read are those of the batch that was completed")
		delete(st.mon, "acks")
		delete(st.mon, "dones")
		st.ghost["done"], st.ghost["added"] = nilT(), intT(0)
	}
	// a batch that was completed must have been counted by now
	due := func(e *Engine, st *State, in ssa.Instruction) {
		node := st.ghost["done"]
		if st.mon["dones"] != "" {
			e.Oblige(st, "count-read", in, node != nil && !node.isNilTerm() && st.zone.le(count(e, st, node), intT(0)), "every batch is counted as read when it is completed, also when it failed")
		}
		e.Oblige(st, "count-read", in, st.mon["acks"] == "", "commands are counted as read once, for a batch that is completed")
		delete(st.mon, "dones")
		delete(st.mon, "acks")
		st.ghost["done"], st.ghost["added"] = nilT(), intT(0)
	}
	onAdd := func(e *Engine, st *State, in ssa.Instruction, v *Term) {
		adds++
		if st.zone.le(v, intT(0)) {
			return
		}
		e.Oblige(st, "count-read", in, st.mon["acks"] == "", "the commands of a batch are counted as read once")
		st.mon["acks"] = "1"
		st.ghost["added"] = v
		settle(e, st, in)
	}
	e.h = Hooks{
		Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
			if addr.op == OFA && addr.aux == q.countF {
				count(e, st, addr.args[0])
			}
			if addr.op == OIA && q.isCmdPtr(derefType(addr.typ)) {
				if _, ok := st.heap[addr]; !ok {
					for a, v := range st.heap {
						if a.op == OIA && a.args[0] == addr.args[0] && st.zone.eq(a.args[1], addr.args[1]) {
							st.heap[addr] = v
							return
						}
					}
					x := freshSym(derefType(addr.typ), "cmd")
					st.facts[eqT(x, nilT())] = false
					st.heap[addr] = x
				}
			}
		},
		Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op == OFA && addr.aux == l.rF {
				old := st.heap[addr]
				if old == nil {
					e.Oblige(st, "count-read", in, false, "what the counter was before is not known (undecided)")
					return
				}
				onAdd(e, st, in, e.sub(st, val, old, val.typ))
			}
		},
		Send: func(e *Engine, st *State, in ssa.Instruction, ch, val *Term) {
			if !isChanOf(ch.typ, isErrorType) {
				return
			}
			sends++
			var node *Term
			for a, v := range st.heap {
				if v == ch && a.op == OFA && a.aux == q.chF {
					node = a.args[0]
				}
			}
			if st.mon["dones"] != "" {
				due(e, st, in)
			}
			if node == nil {
				node = nilT()
			} else if st.mon["acks"] == "" && st.zone.le(count(e, st, node), intT(0)) {
				return
			}
			st.mon["dones"] = "1"
			st.ghost["done"] = node
			settle(e, st, in)
		},
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			if ci.Callee == q.read {
				due(e, st, ci.Site)
				if lt := ci.Args[1]; lt.op == OSlice {
					for a := range st.heap {
						if a.op == OIA && a.args[0] == lt.args[0] {
							delete(st.heap, a)
						}
					}
				}
				return nil, false
			}
			if l.rAtomic && ci.Callee != nil && isAtomicMethod(ci.Callee) && len(ci.Args) > 0 && ci.Args[0].op == OFA && ci.Args[0].aux == l.rF {
				switch ci.Callee.Name() {
				case "Add":
					onAdd(e, st, ci.Site, ci.Args[1])
				case "Load":
				default:
					e.Oblige(st, "count-read", ci.Site, false, "the number of commands read is only added to")
				}
				return one(st, e.resultOf(st, ci)), true
			}
			return nil, false
		},
	}
	memo := map[*ssa.Function]bool{}
	counts := func(in ssa.Instruction) bool {
		for _, o := range in.Operands(nil) {
			if o != nil && *o != nil && fieldOf(*o) == l.rF {
				return true
			}
		}
		return false
	}
	rel := func(fn *ssa.Function) bool {
		eff := c.p.effects(fn)
		if fn == q.read || eff.funcs[q.read] || eff.calls["send"] && c.p.inRepo(fn) || q.touchesList(fn) {
			return true
		}
		return mentions(c, memo, fn, counts)
	}
	e.Opaque = func(fn *ssa.Function) bool { return !rel(fn) }
	e.Merge = func(fn *ssa.Function) bool { return false }
	for _, r := range rs {
		q.asGoroutine(e, r)
		vol := e.Volatile
		// the size of a batch is fixed when it is published (count-single)
		e.Volatile = func(f *types.Var) bool { return vol(f) && f != q.countF }
		r.st.ghost["done"], r.st.ghost["added"] = nilT(), intT(0)
		for _, o := range e.spawn(r.st, r.ci) {
			if !o.Panic {
				due(e, o.St, o.Instr)
			}
		}
		c.finish(e, r.ci.Callee)
	}
	c.obFn("count-read", q.read, adds > 0 && sends > 0, "responses are counted and batches completed (%d, %d)", adds, sends)
}

// c17Single: nothing else changes the counters, the limit, or the size of a batch once it was published.
func c17Single(q *queueEnv, l *limiterFields, s, r []goRoot) {
	c := q.c
	set := func(rs []goRoot) map[*ssa.Function]bool {
		m := map[*ssa.Function]bool{}
		for _, x := range rs {
			m[x.ci.Callee] = true
		}
		return m
	}
	senders, receivers, takers := set(s), set(r), map[*ssa.Function]bool{q.readCommands: true}
	made := map[*ssa.Function]bool{}
	if nc := c.fn("memcache.newCoreConnection"); nc != nil {
		made[nc] = true
	}
	for _, fn := range c.p.funcs {
		if c.p.inHarness(fn) {
			continue
		}
		w := map[*types.Var]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if f := fieldOf(x.Addr); f != nil {
						w[f] = true
					}
				case ssa.CallInstruction:
					if f := x.Common().StaticCallee(); f != nil && isAtomicMethod(f) && f.Name() != "Load" && len(x.Common().Args) > 0 {
						if v := fieldOf(x.Common().Args[0]); v != nil {
							w[v] = true
						}
					}
				}
			}
		}
		for _, k := range []struct {
			f    *types.Var
			from map[*ssa.Function]bool
			what string
		}{{l.wF, takers, "the number of commands sent is changed only when batches are taken"}, {l.rF, receivers, "the number of commands read is changed by the receiving goroutine only"}, {l.limF, made, "the write limit is only set when the connection is made"}} {
			if w[k.f] {
				bad := q.reachedAround(fn, k.from)
				c.obFn("count-single", fn, bad == "", "%s (also by %s)", k.what, bad)
			}
		}
		if w[q.countF] {
			for root := range senders {
				c.obFn("count-single", fn, !c.p.effects(root).funcs[fn] && fn != root, "the size of a batch does not change after it was published")
			}
			for root := range receivers {
				c.obFn("count-single", fn, !c.p.effects(root).funcs[fn] && fn != root, "the size of a batch does not change after it was published")
			}
		}
	}
}

// c17Configured: the limit in force is the one of the options.
func c17Configured(q *queueEnv, l *limiterFields) {
	c := q.c
	nc, with, initL := c.fn("memcache.newCoreConnection"), c.fn("memcache.WithWriteLimit"), c.fn("memcache.initConnWriteLimiter")
	if nc == nil || with == nil || initL == nil {
		return
	}
	var optF *types.Var
	for _, an := range with.AnonFuncs {
		for k := range c.p.effects(an).writes {
			if f, ok := k.(*types.Var); ok {
				optF = f
			}
		}
	}
	if optF == nil {
		c.obFn("anchor", with, false, "the option of the write limit was not found (undecided)")
		return
	}
	calls := 0
	e := c.engine(Hooks{})
	var opts *Term
	e.h = Hooks{Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		if ci.Kind == "go" {
			return nil, true
		}
		if ci.Callee == initL {
			calls++
			e.Oblige(st, "limit-kept", ci.Site, opts != nil && ci.Args[1] == e.load(st, faT(opts, optF), optF.Type()), "the write limit of a connection is the configured one")
		}
		return nil, false
	}}
	e.RunFresh(nc, func(_ *State, a []*Term) {
		for _, x := range a {
			if d := derefType(x.typ); d != nil && ownerType(c, optF) != nil && types.Identical(d, ownerType(c, optF)) {
				opts = x
			}
		}
	})
	c.finish(e, nc)
	c.obFn("limit-kept", nc, calls > 0, "a connection has a write limit")
}
