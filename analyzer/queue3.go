package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type goRoot struct {
	st *State
	ci *CallInfo
}

// started collects the goroutines a new connection starts, by what they do.
func (q *queueEnv) started(e *Engine) (sender, receiver []goRoot) {
	nc := q.c.fn("memcache.newCoreConnection")
	if nc == nil {
		return
	}
	h := e.h
	e.h = Hooks{Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		if ci.Kind != "go" {
			return nil, false
		}
		if ci.Callee != nil && q.c.p.inRepo(ci.Callee) {
			eff := q.c.p.effects(ci.Callee)
			if eff.funcs[q.readCommands] || eff.funcs[q.push] {
				sender = append(sender, goRoot{st.clone(), ci})
			}
			if eff.funcs[q.read] {
				receiver = append(receiver, goRoot{st.clone(), ci})
			}
		}
		return nil, true
	}}
	e.RunFresh(nc, nil)
	e.h = h
	q.c.finish(e, nc)
	q.c.obFn("goroutines", nc, len(sender) > 0 && len(receiver) > 0, "a connection starts goroutines that send and receive")
	return
}

// others: the fields that other functions than the goroutine's own change after the connection was made.
func (q *queueEnv) others(root *ssa.Function) func(f *types.Var) bool {
	c := q.c
	nc := c.fn("memcache.newCoreConnection")
	own := c.p.effects(root).funcs
	written := map[*types.Var]bool{}
	for _, fn := range c.p.funcs {
		if c.p.inHarness(fn) || fn == root || own[fn] || fn == nc {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if f := fieldOf(s.Addr); f != nil {
						if fa := s.Addr.(*ssa.FieldAddr); freshObject(fa.X) {
							continue
						}
						written[f] = true
					}
				}
			}
		}
	}
	return func(f *types.Var) bool { return written[f] }
}

// freshObject: the value is an object the function itself made.
func freshObject(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return freshObject(x.X)
	}
	return false
}

// asGoroutine prepares the state a goroutine starts in: what others may have changed by then is unknown.
func (q *queueEnv) asGoroutine(e *Engine, r goRoot) {
	vol := q.others(r.ci.Callee)
	e.Volatile = vol
	for a := range r.st.heap {
		if a.op == OFA && vol(a.aux.(*types.Var)) && rootObj(a).op == OAlloc {
			r.st.heap[a] = e.newValue(r.st, a.aux.(*types.Var).Type(), a.aux.(*types.Var).Name())
		}
	}
}

// onlyFrom: fn is called by goroutines of the given roots only.
func (q *queueEnv) onlyFrom(rule string, roots map[*ssa.Function]bool, fns ...*ssa.Function) {
	for _, fn := range fns {
		bad := q.reachedAround(fn, roots)
		q.c.obFn(rule, fn, bad == "", "%s is called by one goroutine of a connection only (also by %s)", fn.Name(), bad)
	}
}

// checkSender: every batch taken is given to the receiver before the next one is taken.
func (q *queueEnv) checkSender(rs []goRoot) {
	c := q.c
	e := c.engine(Hooks{})
	takes, pushes, ends := 0, 0, 0
	roots := map[*ssa.Function]bool{}
	isBatch := func(st *State, v *Term) bool {
		b := st.ghost["batch"]
		return b != nil && v.op == OSlice && v.args[0] == b.args[0] && st.zone.eq(v.args[1], b.args[1]) && st.zone.eq(v.args[2], b.args[2])
	}
	left := func(st *State) bool { // a batch was taken and not given to the receiver
		return st.mon["batch"] == "pending" && !st.zone.le(st.ghost["batch"].args[2], intT(0))
	}
	e.h = Hooks{
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			switch ci.Callee {
			case q.readCommands:
				takes++
				a := ci.Args[1]
				q.ob(e, st, "loop-empty", ci.Site, a.op == OSlice && st.zone.eq(a.args[2], intT(0)), "a new batch does not start with the commands of the last one (%v)", a)
				q.ob(e, st, "loop-pushed", ci.Site, !left(st), "the next commands are taken after the last ones were given to the receiver")
				var outs []CallOut
				for _, closed := range []bool{false, true} {
					s := st.clone()
					v := e.newValue(s, q.readCommands.Signature.Results().At(0).Type(), "batch")
					s.ghost["batch"] = v
					s.mon["batch"] = "pending"
					delete(s.mon, "end")
					if closed {
						s.mon["end"] = "1"
					}
					outs = append(outs, CallOut{s, tupleT(v, boolT(closed))})
				}
				return outs, true
			case q.push:
				pushes++
				v := ci.Args[1]
				ok := st.mon["batch"] == "pending" && isBatch(st, v)
				q.ob(e, st, "loop-push", ci.Site, ok, "the receiver gets exactly the commands that were taken, once")
				q.ob(e, st, "loop-open", ci.Site, st.mon["bufclosed"] == "", "nothing is given to the receiver after its end was reported")
				st.mon["batch"] = "pushed"
				res := q.push.Signature.Results()
				var rs []*Term
				for i := 0; i < res.Len(); i++ {
					if isBoolType(res.At(i).Type()) {
						rs = append(rs, boolT(false))
					} else {
						rs = append(rs, e.zero(res.At(i).Type()))
					}
				}
				return one(st, tupleT(rs...)), true
			case q.closeBuffer:
				ends++
				q.ob(e, st, "loop-open", ci.Site, !left(st) && st.mon["end"] == "1", "the end is reported after the last commands were given to the receiver")
				st.mon["bufclosed"] = "1"
				return one(st, nilT()), true
			}
			return nil, false
		},
		Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
			if b := st.ghost["batch"]; b != nil && st.mon["batch"] == "pending" && addr.op == OIA && addr.args[0] == b.args[0] {
				q.ob(e, st, "loop-push", in, false, "the commands that were taken are not replaced before the receiver has them")
			}
		},
	}
	rel := func(fn *ssa.Function) bool {
		eff := c.p.effects(fn)
		if eff.funcs[q.readCommands] || eff.funcs[q.push] || eff.funcs[q.closeBuffer] || fn == q.readCommands || fn == q.push || fn == q.closeBuffer {
			return true
		}
		for k := range eff.writes {
			if v, ok := k.(*types.Var); ok && ownerType(c, v) != nil {
				if s, ok := v.Type().Underlying().(*types.Slice); ok && q.isCmdPtr(s.Elem()) {
					return true
				}
			}
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if s, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Slice); ok && q.isCmdPtr(s.Elem()) {
				return true
			}
		}
		return false
	}
	e.Opaque = func(fn *ssa.Function) bool { return !rel(fn) }
	for _, r := range rs {
		roots[r.ci.Callee] = true
		q.asGoroutine(e, r)
		for _, o := range e.spawn(r.st, r.ci) {
			if o.Panic {
				continue
			}
			q.ob(e, o.St, "loop-ends", o.Instr, o.St.mon["end"] == "1" && !left(o.St), "the goroutine ends only after the last commands")
			q.ob(e, o.St, "loop-closes", o.Instr, o.St.mon["bufclosed"] == "1", "the receiver is told that nothing follows")
		}
		c.finish(e, r.ci.Callee)
	}
	if q.rules["loop-push"] {
		c.obFn("loop-push", q.push, takes > 0 && pushes > 0, "the goroutine that sends gives commands to the receiver")
		q.onlyFrom("loop-single", roots, q.readCommands, q.push, q.closeBuffer)
	}
	if q.rules["loop-closes"] {
		c.obFn("loop-closes", q.closeBuffer, ends > 0, "the end is reported")
	}
}

// checkReceiver: the commands read are completed one after the other, each once.
func (q *queueEnv) checkReceiver(rs []goRoot) {
	c := q.c
	it := types.Typ[types.Int]
	e := c.engine(Hooks{})
	reads, sends := 0, 0
	roots := map[*ssa.Function]bool{}
	e.h = Hooks{
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			if ci.Callee != q.read {
				return nil, false
			}
			reads++
			q.ob(e, st, "done-all", ci.Site, e.sumEq(st, []*Term{st.ghost["k"]}, []*Term{st.ghost["n"]}), "more commands are read when all that were read are completed")
			q.ob(e, st, "done-end", ci.Site, st.mon["end"] == "", "nothing is read after the end was reported")
			list := ci.Args[1]
			if list.op != OSlice {
				return nil, false
			}
			for a := range st.heap {
				if a.op == OIA && a.args[0] == list.args[0] {
					delete(st.heap, a)
				}
			}
			st.mon["list"] = list.args[0].String()
			st.ghost["off"], st.ghost["k"] = list.args[1], intT(0)
			s := st.clone()
			s.ghost["n"], s.mon["end"] = intT(0), "1"
			n := freshSym(it, "n")
			st.zone.assumeLe(intT(1), n, 0)
			st.zone.assumeLe(n, list.args[2], 0)
			st.ghost["n"] = n
			q.ob(e, st, "done-room", ci.Site, s.zone.le(intT(1), list.args[2]), "there is room for at least one command")
			return []CallOut{{st, n}, {s, intT(0)}}, true
		},
		Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
			if addr.op != OIA || addr.args[0].String() != st.mon["list"] || !q.isCmdPtr(derefType(addr.typ)) {
				return
			}
			if _, ok := st.heap[addr]; ok {
				return
			}
			for a, v := range st.heap {
				if a.op == OIA && a.args[0] == addr.args[0] && st.zone.eq(a.args[1], addr.args[1]) {
					st.heap[addr] = v
					return
				}
			}
			x := freshSym(derefType(addr.typ), "cmd")
			st.heap[addr] = x
			st.facts[eqT(x, nilT())] = false
			st.ghost["idx:"+x.String()] = addr.args[1]
		},
		Send: func(e *Engine, st *State, in ssa.Instruction, ch, val *Term) {
			if !isChanOf(ch.typ, isErrorType) {
				return
			}
			sends++
			var node *Term
			for a, v := range st.heap {
				if v == ch && a.op == OFA && a.aux == q.chF {
					node = a.args[0]
				}
			}
			ok := false
			if node != nil {
				if i := st.ghost["idx:"+node.String()]; i != nil && st.ghost["off"] != nil {
					ok = e.sumEq(st, []*Term{i}, []*Term{st.ghost["off"], st.ghost["k"]})
				}
			}
			q.ob(e, st, "done-order", in, ok, "commands are completed in the order in which they were read, each once")
			q.ob(e, st, "done-read", in, e.sumLe(st, []*Term{st.ghost["k"], intT(1)}, []*Term{st.ghost["n"]}), "only a command that was read is completed")
			st.ghost["k"] = e.add(st, st.ghost["k"], intT(1), it)
			for k := range st.ghost {
				if strings.HasPrefix(k, "idx:") {
					delete(st.ghost, k)
				}
			}
		},
	}
	rel := func(fn *ssa.Function) bool {
		eff := c.p.effects(fn)
		if fn == q.read || eff.funcs[q.read] || eff.calls["send"] && c.p.inRepo(fn) {
			return true
		}
		// accessors of the list
		return q.touchesList(fn)
	}
	e.Opaque = func(fn *ssa.Function) bool { return !rel(fn) }
	e.Merge = func(fn *ssa.Function) bool { return !q.touchesList(fn) }
	for _, r := range rs {
		roots[r.ci.Callee] = true
		q.asGoroutine(e, r)
		r.st.ghost["k"], r.st.ghost["n"] = intT(0), intT(0)
		for _, o := range e.spawn(r.st, r.ci) {
			if o.Panic {
				continue
			}
			q.ob(e, o.St, "done-exit", o.Instr, o.St.mon["end"] == "1" && e.sumEq(o.St, []*Term{o.St.ghost["k"]}, []*Term{o.St.ghost["n"]}), "the goroutine ends only when no command follows")
		}
		c.finish(e, r.ci.Callee)
	}
	if q.rules["done-order"] {
		c.obFn("done-order", q.read, reads > 0 && sends > 0, "commands are read and completed")
		q.onlyFrom("done-single", roots, q.read)
	}
}

// touchesList: the function is a small accessor of a list of commands (it reads or writes elements or
// moves over them) and does nothing else that matters.
func (q *queueEnv) touchesList(fn *ssa.Function) bool {
	if fn == nil || !q.c.p.inRepo(fn) {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok && q.isCmdPtr(derefType(ia.Type())) {
				return true
			}
			if s, ok := in.(*ssa.Slice); ok {
				if t, ok := s.Type().Underlying().(*types.Slice); ok && q.isCmdPtr(t.Elem()) {
					return true
				}
			}
		}
	}
	return false
}

// checkPublish: what is not accepted is completed at once, with the error for a closed connection.
func (q *queueEnv) checkPublish() {
	c := q.c
	for n := 1; n <= 3; n++ {
		e := c.engine(Hooks{})
		refused, accepted := 0, 0
		names := []string{"P1", "P2", "P3"}[:n]
		e.h = Hooks{
			Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
				if ci.Callee != q.sendPush {
					return nil, false
				}
				q.ob(e, st, "publish-once", ci.Site, st.mon["pushed"] == "" && q.nodeName(st, ci.Args[1]) == names[0] && st.mon["done"] == "", "the list of batches is handed over once")
				s := st.clone()
				st.mon["pushed"], s.mon["pushed"] = "open", "closed"
				return []CallOut{{st, boolT(false)}, {s, boolT(true)}}, true
			},
			Send: func(e *Engine, st *State, in ssa.Instruction, ch, val *Term) {
				if !isChanOf(ch.typ, isErrorType) {
					return
				}
				nm := ""
				for a, v := range st.heap {
					if v == ch && a.op == OFA && a.aux == q.chF {
						nm = q.nodeName(st, a.args[0])
					}
				}
				q.ob(e, st, "publish-refused", in, nm != "" && !monHas(st, "done", nm), "a batch is completed once (%s)", nm)
				g := ""
				for a, v := range st.heap {
					if a.op == OGlobal && v == val {
						g = a.aux.(*ssa.Global).Name()
					}
				}
				q.ob(e, st, "publish-error", in, g == "ErrConnClosed", "a batch that is refused is completed with ErrConnClosed (%s)", val)
				st.mon["done"] = monSorted(st.mon["done"], nm)
			},
		}
		e.Partition = q.shape
		for _, o := range e.RunFresh(q.publish, func(st *State, a []*Term) {
			var prev *Term
			for _, nm := range names {
				x := q.node(e, st, nm)
				if prev != nil {
					st.heap[faT(prev, q.siblingF)] = x
				} else {
					a[1] = x
				}
				prev = x
			}
		}) {
			if o.Panic {
				q.ob(e, o.St, "publish-refused", o.Instr, false, "publish panics")
				continue
			}
			switch o.St.mon["pushed"] {
			case "open":
				accepted++
				q.ob(e, o.St, "publish-accepted", o.Instr, o.St.mon["done"] == "", "a batch that is accepted is left to the receiver (completed: %s)", o.St.mon["done"])
			case "closed":
				refused++
				q.ob(e, o.St, "publish-refused", o.Instr, o.St.mon["done"] == strings.Join(names, ","), "every batch of the list that is refused is completed (%s of %s)", o.St.mon["done"], strings.Join(names, ","))
			default:
				q.ob(e, o.St, "publish-once", o.Instr, false, "the batches are handed over")
			}
		}
		c.finish(e, q.publish)
		c.obFn("publish-once", q.publish, refused > 0 && accepted > 0, "publishing can be refused and accepted")
	}
}

// checkChannels: each command has its own channel, with room for the one result.
func (q *queueEnv) checkChannels(receivers []goRoot) {
	c := q.c
	fns := map[*ssa.Function]bool{}
	var sends []ssa.Instruction
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && fieldOf(s.Addr) == q.chF {
					fns[fn] = true
				}
				if s, ok := in.(*ssa.Send); ok && isChanOf(s.Chan.Type(), isErrorType) {
					sends = append(sends, s)
				}
				if s, ok := in.(*ssa.Select); ok {
					for _, x := range s.States {
						if isChanOf(x.Chan.Type(), isErrorType) {
							c.ob("channel-direct", s, false, "results are sent and received directly (undecided otherwise)")
						}
					}
				}
			}
		}
	}
	var list []*ssa.Function
	for fn := range fns {
		list = append(list, fn)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	c.obFn("channel-own", nil, len(list) > 0, "commands get a channel")
	for _, fn := range list {
		e := c.engine(Hooks{})
		e.h.Store = func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op != OFA || addr.aux != q.chF || val.isNilTerm() {
				return
			}
			capT := st.heap[appT(types.NewPointer(types.Typ[types.Int]), "chancap", val)]
			q.ob(e, st, "channel-own", in, val.op == OAlloc && capT != nil && st.mon["chan:"+val.String()] == "", "the channel of a command is made for it alone")
			q.ob(e, st, "channel-room", in, capT != nil && st.zone.le(intT(1), capT), "the channel of a command has room for its result")
			q.ob(e, st, "channel-own", in, rootObj(addr).op == OAlloc, "the channel of a command is set when the command is made")
			st.mon["chan:"+val.String()] = "1"
		}
		e.RunFresh(fn, nil)
		c.finish(e, fn)
	}
	// who completes commands
	ok := map[*ssa.Function]bool{q.publish: true}
	for _, r := range receivers {
		ok[r.ci.Callee] = true
	}
	for _, s := range sends {
		bad := q.reachedAround(s.Parent(), ok)
		c.ob("done-who", s, bad == "", "commands are completed by the receiver, or by publish when they are refused (also by %s)", bad)
	}
}

// reachedAround: a function that reaches fn on a call path that passes none of the given ones.
func (q *queueEnv) reachedAround(fn *ssa.Function, stop map[*ssa.Function]bool) string {
	if stop[fn] {
		return ""
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, g := range q.c.p.funcs {
		if q.c.p.inHarness(g) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if o == nil || *o == nil {
						continue
					}
					if f, ok := (*o).(*ssa.Function); ok {
						callers[f] = append(callers[f], g)
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{fn: true}
	work := []*ssa.Function{fn}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if len(callers[f]) == 0 && f.Parent() == nil && f != fn {
			if f.Name() != "init" {
				return f.String()
			}
			continue
		}
		for _, g := range callers[f] {
			if !stop[g] && !seen[g] {
				seen[g] = true
				work = append(work, g)
			}
		}
	}
	return ""
}
