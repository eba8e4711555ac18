package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:  "C07",
		min: 40,
		rule: "The sending goroutine is interpreted for batches of every size: each command of a batch is bound to one and the same connection before the batch is given to the receiver, bytes are written only after that, command by command in the order of the batch, each at most once, only to the connection the command is bound to, and only when that connection was seen to have no error in the critical section of the write. The ring buffer gives the receiver the commands in the order they were put in, each once (every size and position). " +
			"The receiving goroutine is interpreted with the connection whose bytes the response reader holds: it takes commands in order, reads only from the connection of the command in work, hands the reader those bytes only, and takes a response for a command only when the reader holds nothing or bytes of that command's connection, and after an error of the reader only when it was reset. After a response that cannot be parsed no other response of that batch is decoded.",
		not: "That the server answers the commands of one connection in their order; what is done within the response reader is C05, within a batch C18.",
		run: runC07,
	})
}

func runC07(c *Ctx) {
	n := newConnEnv(c)
	q := newQueueEnv(c)
	if n == nil || q == nil {
		return
	}
	ss := findSenderState(c, n)
	if ss == nil {
		return
	}
	q.rules = ruleSet("drain-once", "drain-order", "drain-batch", "loop-empty", "loop-pushed", "loop-push", "loop-open", "loop-single",
		"done-all", "done-order", "done-read", "done-room", "done-end", "done-single")
	m := q.ringMask()
	q.checkRingPush(m)
	q.checkRingRead(m)
	q.checkDrain()
	e := c.engine(Hooks{})
	s, r := q.started(e)
	q.checkSender(s)
	q.checkReceiver(r)
	q.checkWrites(n, ss, s, ruleSet("bound-once", "bound", "write-queued", "write-order", "write-bound", "write-healthy"))
	q.connFixed(n)
	q.checkReads(n, r)
	c07Broken(c)
	c07Reset(c)
}

// c07Reset: a reader that was reset holds nothing and is in the state of a new one.
func c07Reset(c *Ctx) {
	reset, next, hasErr, make := c.fn("memcache.(responseReader).reset"), c.fn("memcache.(responseReader).readNextData"), c.fn("memcache.(responseReader).hasError"), c.fn("memcache.newResponseReader")
	recv := c.fn("memcache.(responseReader).recv")
	if reset == nil || next == nil || hasErr == nil || make == nil || recv == nil {
		return
	}
	rt := derefType(reset.Params[0].Type())
	var states []*types.Var
	if nt, ok := rt.(*types.Named); ok {
		for _, f := range structFields(nt) {
			if _, named := f.Type().(*types.Named); named {
				if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					states = append(states, f)
				}
			}
		}
	}
	c.obFn("anchor", reset, len(states) > 0, "the state of the reader was found")
	e := c.engine(Hooks{})
	fresh := map[*types.Var]*Term{}
	for _, o := range e.RunFresh(make, nil) {
		if o.Panic {
			continue
		}
		for _, f := range states {
			v := e.load(o.St, faT(o.Res[0], f), f.Type())
			c.obFn("reset-clean", make, fresh[f] == nil || fresh[f] == v, "every new reader starts in the same state")
			fresh[f] = v
		}
	}
	c.finish(e, make)
	e = c.engine(Hooks{Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		if ci.Callee == recv {
			e.Oblige(st, "reset-clean", ci.Site, false, "a reader that was reset has no bytes left to work on")
			return one(st, tupleT()), true
		}
		return nil, false
	}})
	runs := 0
	var r *Term
	for _, o := range e.RunFresh(reset, func(_ *State, args []*Term) { r = args[0] }) {
		if o.Panic {
			continue
		}
		for _, f := range states {
			v := e.load(o.St, faT(r, f), f.Type())
			c.obFn("reset-clean", reset, v == fresh[f], "a reader that was reset is in the state of a new one")
		}
		for _, o2 := range e.Run(o.St, next, []*Term{r}, nil) {
			if o2.Panic {
				continue
			}
			v, known := e.evalBool(o2.St, o2.Res[0])
			c.obFn("reset-clean", reset, known && !v, "a reader that was reset has no response")
			for _, o3 := range e.Run(o2.St, hasErr, []*Term{r}, nil) {
				if !o3.Panic {
					runs++
					c.obFn("reset-clean", reset, e.isNil(o3.St, o3.Res[0]), "a reader that was reset has no error")
				}
			}
		}
	}
	c.obFn("anchor", reset, runs > 0, "resetting returns")
	c.finish(e, reset)
}

// checkWrites follows what the sending goroutine does with a batch.
func (q *queueEnv) checkWrites(n *connEnv, ss *senderState, rs []goRoot, rules map[string]bool) {
	c := q.c
	it := types.Typ[types.Int]
	wr := c.fn("memcache.(commandListData).writeToWriter")
	if wr == nil {
		return
	}
	ob := func(e *Engine, st *State, rule string, in ssa.Instruction, ok bool, f string, a ...any) {
		if rules[rule] {
			e.Oblige(st, rule, in, ok, f, a...)
		}
	}
	binds, writes, flushes := 0, 0, 0
	roots := map[*ssa.Function]bool{}
	elemIdx := func(st *State, x *Term) *Term {
		if x != nil && x == st.ghost["el"] {
			return st.ghost["elidx"]
		}
		return nil
	}
	done := func(e *Engine, st *State, in ssa.Instruction, when string) {
		b := st.ghost["batch"]
		if b == nil || b.op != OSlice || st.mon["failed"] != "" {
			return
		}
		if st.mon["batch"] == "" {
			return
		}
		ob(e, st, "write-all", in, st.zone.le(b.args[2], intT(0)) || e.sumEq(st, []*Term{st.ghost["w"]}, []*Term{b.args[2]}), "every command of a batch is written before %s, if its connection has no error", when)
		ob(e, st, "write-flushed", in, st.mon["dirty"] == "", "what was written is flushed before %s", when)
	}
	e := c.engine(Hooks{})
	e.h = Hooks{
		Lock: func(e *Engine, st *State, in ssa.Instruction, op string, l *Term) {
			if op == "lock" || op == "wait" {
				n.forget(e, st)
			}
			if op == "unlock" {
				// the current connection may be another one from now on
				for a := range st.heap {
					if a.op == OFA && a.aux == ss.curF {
						st.mon["cur"] = ""
					}
				}
			}
		},
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			if outs, doneC := n.onCell(e, st, ci, func(*State, *Term, *Term, bool) {}); doneC {
				conn := ci.Args[0].args[0]
				for _, o := range outs {
					if conn == o.St.ghost["bound"] && n.state(e, o.St, conn) == "set" {
						o.St.mon["failed"] = "1"
					}
				}
				return outs, true
			}
			switch ci.Callee {
			case q.readCommands:
				done(e, st, ci.Site, "the next commands are taken")
				v := e.newValue(st, q.readCommands.Signature.Results().At(0).Type(), "batch")
				st.ghost["batch"], st.ghost["kb"], st.ghost["w"] = v, intT(0), intT(0)
				st.ghost["bound"], st.ghost["el"], st.ghost["elidx"] = nilT(), nilT(), intT(-1)
				st.mon["batch"] = "taken"
				delete(st.mon, "failed")
				delete(st.mon, "dirty")
				s := st.clone()
				return []CallOut{{st, tupleT(v, boolT(false))}, {s, tupleT(v, boolT(true))}}, true
			case q.push:
				b := st.ghost["batch"]
				if b == nil {
					return nil, false
				}
				ob(e, st, "bound", ci.Site, st.zone.le(b.args[2], intT(0)) || e.sumEq(st, []*Term{st.ghost["kb"]}, []*Term{b.args[2]}), "every command is bound to a connection before the receiver gets it")
				st.mon["batch"] = "pushed"
				res := q.push.Signature.Results()
				var rs []*Term
				for i := 0; i < res.Len(); i++ {
					if isBoolType(res.At(i).Type()) {
						rs = append(rs, boolT(false))
					} else {
						rs = append(rs, e.zero(res.At(i).Type()))
					}
				}
				return one(st, tupleT(rs...)), true
			case q.closeBuffer:
				done(e, st, ci.Site, "the end")
				return one(st, tupleT()), true
			case wr:
				if st.ghost["batch"] == nil {
					return nil, false
				}
				writes++
				i := elemIdx(st, ci.Args[0])
				ob(e, st, "write-queued", ci.Site, st.mon["batch"] == "pushed", "a command is written after the receiver was given it")
				ob(e, st, "write-order", ci.Site, i != nil && e.sumEq(st, []*Term{i}, []*Term{st.ghost["off"], st.ghost["w"]}) && st.mon["failed"] == "", "commands are written in the order of the batch, each once, and none after one that failed")
				conn := n.connOf(st, ci.Args[1])
				bound := st.heap[faT(ci.Args[0], q.connF)]
				ob(e, st, "write-bound", ci.Site, conn != nil && bound != nil && same(e, st, conn, bound), "a command is written to the connection it is bound to")
				if conn != nil {
					ob(e, st, "write-healthy", ci.Site, n.state(e, st, conn) == "clear" && len(heldLocks(st)) > 0, "a command is written only to a connection that was found to have no error in this critical section")
				}
				st.ghost["w"] = e.add(st, st.ghost["w"], intT(1), it)
				return okErr(e, st, ci, func(s *State) { s.mon["dirty"] = "1" }, func(s *State) { s.mon["failed"] = "1" }), true
			}
			if op, conn := n.ioCall(st, ci); op == "Flush" || op == "Write" {
				if op == "Flush" {
					flushes++
					ob(e, st, "write-bound", ci.Site, same(e, st, conn, st.ghost["bound"]) || st.zone.le(st.ghost["batch"].args[2], intT(0)), "the connection that is flushed is the one that was written to")
					ob(e, st, "write-healthy", ci.Site, n.state(e, st, conn) == "clear" && len(heldLocks(st)) > 0, "only a connection that was found to have no error in this critical section is flushed")
					return okErr(e, st, ci, func(s *State) { delete(s.mon, "dirty") }, func(s *State) { s.mon["failed"] = "1" }), true
				}
				ob(e, st, "write-order", ci.Site, false, "bytes are written that belong to no command (undecided)")
			}
			return nil, false
		},
		Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
			if addr.op == OFA && addr.aux == ss.curF {
				v := e.load(st, addr, ss.curF.Type())
				if st.mon["batch"] == "taken" && st.ghost["bound"] == nilT() {
					st.ghost["bound"] = v
				}
				return
			}
			b := st.ghost["batch"]
			if b == nil || addr.op != OIA || addr.args[0] != b.args[0] || !q.isCmdPtr(derefType(addr.typ)) {
				return
			}
			for a := range st.heap {
				if a.op == OIA && a.args[0] == addr.args[0] {
					delete(st.heap, a)
				}
			}
			if old := st.ghost["el"]; old != nil && old.op == OSym {
				delete(st.heap, faT(old, q.connF))
			}
			x := freshSym(derefType(addr.typ), "cmd")
			st.heap[addr] = x
			st.facts[eqT(x, nilT())] = false
			st.ghost["el"], st.ghost["elidx"], st.ghost["off"] = x, addr.args[1], b.args[1]
			if e.sumLe(st, []*Term{addr.args[1], intT(1)}, []*Term{b.args[1], st.ghost["kb"]}) || st.mon["batch"] == "pushed" {
				st.heap[faT(x, q.connF)] = st.ghost["bound"]
			}
		},
		Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
			b := st.ghost["batch"]
			if b != nil && addr.op == OIA && addr.args[0] == b.args[0] && st.mon["batch"] != "written" {
				ob(e, st, "bound", in, val.isNilTerm() && st.mon["batch"] == "pushed", "the commands of a batch are not replaced")
			}
			if addr.op != OFA || addr.aux != q.connF {
				return
			}
			binds++
			ob(e, st, "bound-once", in, st.mon["batch"] == "taken", "a command is bound before the receiver has it, and not again")
			i := elemIdx(st, addr.args[0])
			ob(e, st, "bound", in, i != nil && same(e, st, val, st.ghost["bound"]) && val != nilT(), "the commands of a batch are bound to one and the same current connection")
			if i != nil && e.sumEq(st, []*Term{i}, []*Term{b.args[1], st.ghost["kb"]}) {
				st.ghost["kb"] = e.add(st, st.ghost["kb"], intT(1), it)
			}
		},
	}
	memo := map[*ssa.Function]bool{}
	rel := func(fn *ssa.Function) bool {
		return fn == wr || mentions(c, memo, fn, func(in ssa.Instruction) bool {
			if n.relevant(in) {
				return true
			}
			switch x := in.(type) {
			case *ssa.FieldAddr:
				f := fieldOf(x)
				return f == ss.curF || f == q.connF || types.Identical(derefType(x.X.Type()), n.connT)
			case ssa.CallInstruction:
				f := x.Common().StaticCallee()
				return f == wr || f == q.push || f == q.readCommands || f == q.closeBuffer
			}
			return false
		}) || q.touchesList(fn)
	}
	e.Opaque = func(fn *ssa.Function) bool { return !rel(fn) }
	for _, r := range rs {
		roots[r.ci.Callee] = true
		q.asGoroutine(e, r)
		vol := e.Volatile
		e.Volatile = func(f *types.Var) bool { return vol(f) && f != q.connF || !n.atom && f == n.errF }
		for _, o := range e.spawn(r.st, r.ci) {
			if !o.Panic {
				done(e, o.St, o.Instr, "the goroutine ends")
			}
		}
		c.finish(e, r.ci.Callee)
	}
	c.obFn("anchor", wr, binds > 0 && writes > 0 && flushes > 0, "commands are bound, written and flushed (%d, %d, %d)", binds, writes, flushes)
	if !rules["bound-once"] {
		return
	}
	q.onlyFrom("write-single", roots, wr)
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && fieldOf(s.Addr) == q.connF && !freshObject(s.Addr.(*ssa.FieldAddr).X) {
					bad := q.reachedAround(fn, roots)
					c.ob("bound-once", in, bad == "", "commands are bound by the sending goroutine only (also by %s)", bad)
				}
			}
		}
	}
}

// checkReads follows whose bytes the response reader holds.
func (q *queueEnv) checkReads(n *connEnv, rs []goRoot) {
	c := q.c
	next, recv, reset := c.fn("memcache.(responseReader).readNextData"), c.fn("memcache.(responseReader).recv"), c.fn("memcache.(responseReader).reset")
	setCur, hasErr := c.fn("memcache.(responseReader).setCurrentCommand"), c.fn("memcache.(responseReader).hasError")
	if next == nil || recv == nil || reset == nil || setCur == nil || hasErr == nil {
		return
	}
	reads, takes, gives, sends, resets := 0, 0, 0, 0, 0
	connOfTarget := func(e *Engine, st *State) *Term {
		t := st.ghost["target"]
		if t == nil || t.isNilTerm() {
			return nil
		}
		return e.load(st, faT(t, q.connF), q.connF.Type())
	}
	for _, r := range rs {
		e := c.engine(Hooks{})
		q.asGoroutine(e, r)
		vol := e.Volatile
		// a command is bound to its connection before it is read, and stays so (bound-once)
		e.Volatile = func(f *types.Var) bool { return vol(f) && f != q.connF || !n.atom && f == n.errF }
		given := func(st *State) {
			delete(st.mon, "given")
			st.ghost["got"], st.ghost["bufoff"], st.ghost["from"], st.ghost["buf"] = intT(0), intT(0), nilT(), nilT()
		}
		e.h = Hooks{
			Lock: func(e *Engine, st *State, in ssa.Instruction, op string, l *Term) {
				if op == "lock" || op == "wait" {
					n.forget(e, st)
				}
			},
			BackEdge: func(e *Engine, st *State, header, pred *ssa.BasicBlock, head *State) {
				if st.mon["given"] == "due" && st.zone.le(st.ghost["got"], intT(0)) {
					given(st)
				}
			},
			Send: func(e *Engine, st *State, in ssa.Instruction, ch, val *Term) {
				if !isChanOf(ch.typ, isErrorType) {
					return
				}
				sends++
				if st.mon["rerr"] != "" {
					w := st.ghost["worked"]
					failed := w != nil && !w.isNilTerm() && n.state(e, st, e.load(st, faT(w, q.connF), q.connF.Type())) == "set"
					e.Oblige(st, "reader-lost", in, failed, "a command whose response could not be read is completed after its connection was failed")
				}
				var node *Term
				for a, v := range st.heap {
					if v == ch && a.op == OFA && a.aux == q.chF {
						node = a.args[0]
					}
				}
				e.Oblige(st, "completes-own", in, e.nonNil(st, val) || node != nil && same(e, st, node, st.ghost["worked"]), "a command is completed without an error only after its own responses were taken")
				e.Oblige(st, "reader-all-bytes", in, e.nonNil(st, val) || st.mon["given"] != "due" || st.zone.le(st.ghost["got"], intT(0)), "a command is completed only after what was read was given to the reader")
				e.Oblige(st, "completes-own", in, e.nonNil(st, val) || st.mon["rerr"] == "", "a command whose response could not be read is not completed without an error")
			},
			Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
				// list elements are commands that are not nil
				if addr.op == OIA && q.isCmdPtr(derefType(addr.typ)) {
					if _, ok := st.heap[addr]; !ok {
						for a, v := range st.heap {
							if a.op == OIA && a.args[0] == addr.args[0] && st.zone.eq(a.args[1], addr.args[1]) {
								st.heap[addr] = v
								return
							}
						}
						x := freshSym(derefType(addr.typ), "cmd")
						st.facts[eqT(x, nilT())] = false
						st.heap[addr] = x
					}
				}
			},
			Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
				if outs, done := n.onCell(e, st, ci, func(*State, *Term, *Term, bool) {}); done {
					return outs, true
				}
				switch ci.Callee {
				case q.read:
					// other commands from now on
					if l := ci.Args[1]; l.op == OSlice {
						for a := range st.heap {
							if a.op == OIA && a.args[0] == l.args[0] {
								delete(st.heap, a)
							}
						}
					}
					return nil, false
				case setCur:
					if ci.Args[1].isNilTerm() {
						st.ghost["target"] = nilT()
					} else {
						st.ghost["target"] = ci.Args[1]
						st.ghost["worked"] = ci.Args[1]
					}
					return one(st, tupleT()), true
				case reset:
					resets++
					if st.mon["rerr"] != "" {
						w := st.ghost["worked"]
						failed := w != nil && !w.isNilTerm() && n.state(e, st, e.load(st, faT(w, q.connF), q.connF.Type())) == "set"
						e.Oblige(st, "reader-lost", ci.Site, failed, "when responses are lost because the reader failed, their connection was failed before the reader is used again")
					}
					st.mon["rd"] = "clean"
					st.ghost["rc"] = nilT()
					delete(st.mon, "rerr")
					given(st)
					return one(st, tupleT()), true
				case recv:
					gives++
					e.Oblige(st, "reader-own-bytes", ci.Site, st.mon["given"] == "due" && ci.Args[1].op == OSlice && ci.Args[1].args[0] == st.ghost["buf"], "the reader is given what was just read, once")
					if x := ci.Args[1]; st.mon["given"] == "due" && x.op == OSlice {
						e.Oblige(st, "reader-all-bytes", ci.Site, same(e, st, x.args[1], st.ghost["bufoff"]) && e.sumEq(st, []*Term{x.args[2]}, []*Term{st.ghost["got"]}), "the reader is given all bytes that were read, and no more")
					}
					st.mon["rd"] = "dirty"
					st.ghost["rc"] = eldest(st, st.ghost["from"])
					given(st)
					return one(st, tupleT()), true
				case next:
					takes++
					conn := connOfTarget(e, st)
					e.Oblige(st, "reader-own-bytes", ci.Site, conn != nil, "a response is taken for a command")
					e.Oblige(st, "reader-own-bytes", ci.Site, st.mon["rd"] == "clean" || conn != nil && same(e, st, st.ghost["rc"], conn), "a response is taken for a command only from bytes of the connection it is bound to")
					e.Oblige(st, "reader-reset", ci.Site, st.mon["rerr"] == "", "after an error of the reader nothing is taken from it until it was reset")
					s2, s3 := st.clone(), st.clone()
					s2.mon["rerr"] = "1"
					return []CallOut{{st, boolT(true)}, {s2, boolT(true)}, {s3, boolT(false)}}, true
				case hasErr:
					if st.mon["rerr"] == "" {
						return one(st, nilT()), true
					}
					v := freshSym(hasErr.Signature.Results().At(0).Type(), "readerr")
					st.facts[eqT(v, nilT())] = false
					return one(st, v), true
				}
				op, conn := n.ioCall(st, ci)
				if op == "Read" {
					reads++
					want := connOfTarget(e, st)
					e.Oblige(st, "reads-own", ci.Site, want != nil && conn != nil && same(e, st, conn, want), "responses are read from the connection the command in work is bound to")
					e.Oblige(st, "reads-own", ci.Site, st.mon["rd"] == "clean" || want != nil && same(e, st, st.ghost["rc"], want), "the reader holds no bytes of another connection when more are read")
					if b := ci.Args[len(ci.Args)-1]; b.op == OSlice {
						e.havocElems(st, b.args[0])
						taken := st.mon["given"] != "due" || st.zone.le(st.ghost["got"], intT(0))
						e.Oblige(st, "reader-all-bytes", ci.Site, taken, "what was read is given to the reader before more is read")
						outs := okErr(e, st, ci, func(s *State) {
							s.mon["given"] = "due"
							s.ghost["from"] = conn
							s.ghost["buf"], s.ghost["bufoff"] = b.args[0], b.args[1]
							s.ghost["got"] = intT(0)
						}, nil)
						// the first outcome is the one without an error
						if r := outs[0].Res; r.op == OTuple && isIntTerm(r.args[0]) {
							s, k := outs[0].St, r.args[0]
							s.zone.assumeLe(intT(0), k, 0)
							s.zone.assumeLe(k, b.args[2], 0)
							s.ghost["got"] = k
						}
						return outs, true
					}
					return okErr(e, st, ci, nil, nil), true
				}
				return nil, false
			},
		}
		memo := map[*ssa.Function]bool{}
		rel := func(fn *ssa.Function) bool {
			if fn == next || fn == recv || fn == reset || fn == setCur || fn == hasErr {
				return true
			}
			eff := c.p.effects(fn)
			if eff.funcs[q.read] || fn == q.read || q.touchesList(fn) {
				return true
			}
			return mentions(c, memo, fn, func(in ssa.Instruction) bool {
				if n.relevant(in) {
					return true
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					f := ci.Common().StaticCallee()
					return f != nil && (f == next || f == recv || f == reset || f == setCur || f == hasErr)
				}
				if fa, ok := in.(*ssa.FieldAddr); ok {
					return fieldOf(fa) == q.connF
				}
				return false
			})
		}
		e.Opaque = func(fn *ssa.Function) bool { return !rel(fn) }
		e.Merge = func(fn *ssa.Function) bool { return false }
		r.st.mon["rd"] = "clean"
		r.st.ghost["rc"], r.st.ghost["target"], r.st.ghost["worked"] = nilT(), nilT(), nilT()
		r.st.ghost["from"], r.st.ghost["buf"] = nilT(), nilT()
		e.spawn(r.st, r.ci)
		c.finish(e, r.ci.Callee)
	}
	c.obFn("anchor", next, reads > 0 && takes > 0 && gives > 0 && sends > 0 && resets > 0, "responses are read, given, taken and reported (%d, %d, %d, %d, %d)", reads, gives, takes, sends, resets)
}

// c07Broken: after a response that cannot be parsed nothing else of the batch is decoded.
func c07Broken(c *Ctx) {
	broken, server := c.p.typ("memcache", "ErrBrokenPipe"), c.p.typ("memcache", "ErrServerError")
	if broken == nil || server == nil {
		c.obFn("anchor", nil, false, "the kinds of errors were not found (undecided)")
		return
	}
	fns := map[*ssa.Function]bool{}
	for _, fn := range c.p.funcs {
		if c.p.inHarness(fn) || isDecoder(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isDecoder(ci.Common().StaticCallee()) {
					fns[fn] = true
				}
			}
		}
	}
	// a helper that decodes one response is interpreted with its caller
	for fn := range fns {
		for changed := true; changed; {
			changed = false
			if !hasLoop(fn) {
				for _, g := range c.p.funcs {
					if !c.p.inHarness(g) && g != fn && callsDirectly(g, fn) {
						delete(fns, fn)
						fns[g] = true
						fn = g
						changed = true
						break
					}
				}
			}
		}
	}
	decodes := 0
	memo := map[*ssa.Function]bool{}
	rel := func(fn *ssa.Function) bool {
		return isDecoder(fn) || mentions(c, memo, fn, func(in ssa.Instruction) bool {
			if ci, ok := in.(ssa.CallInstruction); ok {
				return isDecoder(ci.Common().StaticCallee())
			}
			if ta, ok := in.(*ssa.TypeAssert); ok {
				return isErrorType(ta.X.Type())
			}
			return false
		})
	}
	for fn := range fns {
		e := c.engine(Hooks{Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			if ci.Kind == "go" {
				return nil, true
			}
			if !isDecoder(ci.Callee) {
				return nil, false
			}
			decodes++
			e.Oblige(st, "broken-stops", ci.Site, st.mon["broken:"+ci.Args[0].String()] == "", "after a response that cannot be parsed no other of the same batch is decoded")
			var outs []CallOut
			res := ci.Callee.Signature.Results()
			for _, k := range []string{"ok", "server", "other", "broken"} {
				s := st.clone()
				var rs []*Term
				for i := 0; i < res.Len(); i++ {
					if !isErrorType(res.At(i).Type()) {
						rs = append(rs, e.newValue(s, res.At(i).Type(), "resp"))
						continue
					}
					switch k {
					case "ok":
						rs = append(rs, nilT())
					case "server":
						rs = append(rs, ifaceT(server, e.newValue(s, server, "servererr")))
					case "broken":
						rs = append(rs, ifaceT(broken, e.newValue(s, broken, "brokenerr")))
						s.mon["broken:"+ci.Args[0].String()] = "1"
					default:
						if cl := c.p.typ("memcache", "ErrClientError"); cl != nil {
							rs = append(rs, ifaceT(cl, e.newValue(s, cl, "clienterr")))
						} else {
							v := freshSym(res.At(i).Type(), "err")
							s.facts[eqT(v, nilT())] = false
							rs = append(rs, v)
						}
					}
				}
				if len(rs) == 1 {
					outs = append(outs, CallOut{s, rs[0]})
				} else {
					outs = append(outs, CallOut{s, tupleT(rs...)})
				}
			}
			return outs, true
		}})
		e.h.Leave = func(e *Engine, st *State, f *ssa.Function, args []*Term, o Outcome) {
			// another parser for the next batch
			if initP := c.p.fn("memcache.initParser"); f == initP && initP != nil {
				delete(st.mon, "broken:"+args[0].String())
			}
		}
		e.Opaque = func(f *ssa.Function) bool {
			if isFailConnFn(f) {
				return true
			}
			return !rel(f) && f.Name() != "initParser"
		}
		inner := e.h.Call
		e.h.Call = func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			if ci.Callee != nil && isFailConn(ci) {
				// the error that is kept is not nil
				v := freshSym(ci.Callee.Signature.Results().At(0).Type(), "kept")
				st.facts[eqT(v, nilT())] = false
				return one(st, v), true
			}
			return inner(e, st, ci)
		}
		e.RunFresh(fn, nil)
		c.finish(e, fn)
	}
	c.obFn("broken-stops", nil, decodes > 0, "responses are decoded")
}

func isFailConnFn(fn *ssa.Function) bool {
	if recvName(fn) != "senderConnection" {
		return false
	}
	s := fn.Signature
	return s.Params().Len() == 1 && isErrorType(s.Params().At(0).Type())
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		if inCycle(b) {
			return true
		}
	}
	return false
}

func callsDirectly(g, fn *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}

var _ = strings.TrimSpace

// connFixed: what a connection reads from and writes to is decided when it is created.
func (q *queueEnv) connFixed(n *connEnv) {
	c, made := q.c, 0
	for _, fn := range c.p.funcs {
		if c.p.inHarness(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if ok {
					f := fieldOf(fa)
					if o := ownerType(c, f); f == n.errF || o == nil || !types.Identical(o, n.connT) {
						continue
					}
					if !types.IsInterface(f.Type()) {
						if st, ok := f.Type().Underlying().(*types.Struct); !ok || st.NumFields() == 0 || isAtomicType(f.Type()) {
							continue
						}
					}
					_, fresh := fa.X.(*ssa.Alloc)
					made++
					c.ob("conn-fixed", in, fresh, "what a connection reads from and writes to is stored only into a new connection")
					continue
				}
				if types.Identical(s.Val.Type(), n.connT) {
					_, fresh := s.Addr.(*ssa.Alloc)
					made++
					c.ob("conn-fixed", in, fresh, "a connection in use is not overwritten with another one")
				}
			}
		}
	}
	c.obFn("anchor", nil, made > 0, "the places where connections are made were found")
}

// same: the two values are known to be equal.
func same(e *Engine, st *State, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	v, known := e.evalBool(st, eqT(a, b))
	return known && v
}

// eldest: of the values known to be equal to v the one known longest. Joins keep two places
// together only where they hold the same value in name.
func eldest(st *State, v *Term) *Term {
	best := v
	for f, val := range st.facts {
		if !val || f.op != OEq {
			continue
		}
		for i := 0; i < 2; i++ {
			if f.args[i] == v && f.args[1-i].id < best.id {
				best = f.args[1-i]
			}
		}
	}
	return best
}
