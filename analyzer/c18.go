package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const pmodelNot = "Programs have up to four operations; that longer ones behave alike rests on the batch step (C18), which is shown for any size of a batch. Releasing a result before it was read, and the use of one pipeline by several goroutines, is the caller's mistake."

func init() {
	register(&Check{id: "C18", min: 20,
		rule: "Client programs (operations, Execute, Finish and result calls in many orders, with any bound of a batch and every outcome of batches and decoders) are interpreted on the pipeline code: each operation adds its command and its value to one batch that counts it, no batch exceeds the bound, and each batch's responses are decoded once, in the order of its operations, each as what its operation asked for. " +
			"Adding one command is interpreted on a batch of any size: either it still fits or a new batch is linked behind it. " +
			"The receiving goroutine is interpreted with a ghost count of the responses taken: a batch is completed without an error exactly when it got as many as it holds. How batches travel in order is C06 and C07.",
		not: pmodelNot,
		run: func(c *Ctx) {
			m := newPModel(c, ruleSet("batch-bound", "batch-count", "one-batch", "same-bound", "parse-batch", "parse-once", "parse-kind", "parse-count", "parse-failed", "parse-broken", "batch-order", "recv-count", "no-panic", "decided", "publish-all"))
			if m == nil {
				return
			}
			m.batchStep()
			m.recvCount()
			m.explorePrograms()
		},
	})
	register(&Check{id: "C19", min: 15,
		rule: "Client programs (operations, Execute, Finish and result calls in many orders, with any bound of a batch and every outcome of batches and decoders) are interpreted on the pipeline code with the decoders' results as tagged values: a result function returns only when its operation was sent and its batch completed; it then gives the very response and error decoded for that operation, the batch's error when that failed, and an error when its response could not be decoded. A second call gives ErrAlreadyGotten and the zero result.",
		not:  pmodelNot,
		run: func(c *Ctx) {
			m := newPModel(c, ruleSet("result-own", "result-once", "result-error", "result-sent", "result-waits", "parse-broken", "no-panic", "decided"))
			if m != nil {
				m.explorePrograms()
			}
		},
	})
	register(&Check{id: "C20", min: 20,
		rule: "Client programs (operations, Execute, Finish and result calls in many orders, with any bound of a batch and every outcome of batches and decoders) are interpreted on the pipeline code: everything published is a chain of batches with exactly the operations issued since the last time, in order, and each batch is published once, waited for once and only after it was published, and left alone until it is completed; a new session starts only after the previous one was completed and decoded; all go to the same connection. Execute and Finish leave nothing unsent, and Finish returns only after everything was received.",
		not:  pmodelNot,
		run: func(c *Ctx) {
			m := newPModel(c, ruleSet("publish-all", "publish-once", "publish-sent", "after-previous", "handed-over", "one-connection", "finish-waits", "wait-once", "wait-published", "no-panic", "decided"))
			if m != nil {
				m.explorePrograms()
			}
		},
	})
}

func (m *pmodel) explorePrograms() {
	for _, p := range []string{
		"finish execute MSet finish result0 result0 finish",
		"MGet result0 result0",
		"MGetFast execute result0 result0 execute",
		"MDel execute finish result0 result0",
		"FlushAll finish result0 result0",
		"Version result0 result0",
		"FlushAll Version MGet result2 result0 result1 result2 finish",
		"Version execute FlushAll execute MSet finish result2 result1 result0 result0",
		"MSet MSet MSet execute execute result1 MGet result3 result0 result2",
		"MGet MSet MDel Version finish result3 result0 result1 result2",
		"MSet MGet MDel result0 Version result1 finish result3",
		"MSet MGetFast result0 MDel result1 execute result2",
		"MDel MGetFast finish FlushAll result0 MSet result1 result3 result2",
	} {
		m.program(p)
	}
	kinds := [][]string{{"MSet", "MGetFast", "MDel"}}
	depth := 4
	if m.c.tier == "thorough" {
		kinds = append(kinds, []string{"MGet", "FlushAll", "MSet"}, []string{"Version", "MSet", "MGet"})
		depth = 5
	}
	for _, k := range kinds {
		m.explore(k, depth)
		m.c.finish(m.e, m.newPipe)
	}
	m.c.obFn("decided", m.newPipe, m.programs > 50 && m.paths > 500, "%d programs were interpreted in %d steps, to %d states", m.programs, m.steps, m.paths)
}

// batchStep adds commands to a batch of any size.
func (m *pmodel) batchStep() {
	c, q := m.c, m.q
	finish := c.fn("memcache.(cmdBuilder).finish")
	bt := c.p.typ("memcache", "cmdBuilder")
	if finish == nil || bt == nil {
		return
	}
	for _, name := range []string{"addMGet", "addMSet", "addMDel", "addVersion", "addFlushAll"} {
		add := c.fn("memcache.(cmdBuilder)." + name)
		if add == nil {
			continue
		}
		m.hooks()
		e := m.e
		st := newState()
		b := freshAlloc(types.NewPointer(bt), "builder")
		e.zeroInit(st, b, bt)
		max := e.newValue(st, types.Typ[types.Int], "max")
		st.zone.assumeLe(intT(1), max, 0)
		st.zone.assumeLe(max, intT(maxLen), 0)
		var states []*State
		for _, o := range e.Run(st, m.initBuilder, []*Term{b, max}, nil) {
			if !o.Panic {
				states = append(states, o.St)
			}
		}
		// from a current batch of any size, twice
		for round := 0; round < 2; round++ {
			var next []*State
			for _, st := range states {
				st.frame = nil
				ns := m.nodes(st)
				cur := ns[len(ns)-1]
				k := e.newValue(st, types.Typ[types.Int], "count")
				st.zone.assumeLe(intT(0), k, 0)
				st.zone.assumeLe(k, max, 0)
				st.heap[faT(cur, q.countF)] = k
				st.heap[faT(cur, m.reqF)] = e.newValue(st, m.reqF.Type(), "request")
				before := map[*Term][2]*Term{}
				for _, n := range ns {
					before[n] = [2]*Term{e.load(st, faT(n, q.countF), q.countF.Type()), e.load(st, faT(n, m.reqF), m.reqF.Type())}
				}
				args := []*Term{b}
				for i := 0; i < add.Signature.Params().Len(); i++ {
					p := add.Signature.Params().At(i)
					args = append(args, e.newValue(st, p.Type(), p.Name()))
				}
				for _, o := range m.outs(e.Run(st, add, args, nil), add) {
					st := o.St
					now := m.nodes(st)
					load := func(n *Term) (*Term, *Term) {
						return e.load(st, faT(n, q.countF), q.countF.Type()), e.load(st, faT(n, m.reqF), m.reqF.Type())
					}
					last := now[len(now)-1]
					for _, n := range now {
						cnt, req := load(n)
						sib := e.load(st, faT(n, q.siblingF), q.siblingF.Type())
						if n != last {
							m.ob(st, "batch-count", o.Instr, cnt == before[n][0] && req == before[n][1], "a command that goes to a new batch leaves the one before alone")
							continue
						}
						m.ob(st, "batch-order", o.Instr, sib.isNilTerm(), "nothing is linked behind the last batch")
						m.ob(st, "batch-bound", o.Instr, st.zone.le(cnt, max), "a batch of any size stays within the bound")
						if bf, had := before[n]; had {
							m.ob(st, "batch-count", o.Instr, e.sumEq(st, []*Term{cnt}, []*Term{bf[0], intT(1)}) && req != bf[1], "a command that fits is counted once by the batch that gets its text")
						} else {
							k, isC := cnt.isConstInt()
							m.ob(st, "batch-count", o.Instr, isC && k == 1 && !emptySlice(req), "a command that does not fit is the first one of a new batch")
						}
					}
					m.ob(st, "batch-order", o.Instr, len(now) <= len(ns)+1, "a command makes at most one new batch")
					if len(now) == len(ns)+1 {
						sib := e.load(st, faT(ns[len(ns)-1], q.siblingF), q.siblingF.Type())
						m.ob(st, "batch-order", o.Instr, sib == last, "a new batch is linked right behind the one before")
					}
					if round == 1 {
						for _, o2 := range m.outs(e.Run(st.clone(), finish, []*Term{b}, nil), finish) {
							m.ob(o2.St, "batch-order", o2.Instr, o2.Res[0] == now[0], "the pipeline starts with its first batch")
						}
					}
					next = append(next, st)
				}
			}
			states = next
		}
		m.ob(st, "batch-order", nil, len(states) > 2, "commands are added with and without a new batch")
		c.finish(e, add)
	}
}

// recvCount follows how many responses the receiving goroutine takes for a batch.
func (m *pmodel) recvCount() {
	c, q := m.c, m.q
	next, recv, reset := c.fn("memcache.(responseReader).readNextData"), c.fn("memcache.(responseReader).recv"), c.fn("memcache.(responseReader).reset")
	setCur, hasErr := c.fn("memcache.(responseReader).setCurrentCommand"), c.fn("memcache.(responseReader).hasError")
	if next == nil || recv == nil || reset == nil || setCur == nil || hasErr == nil {
		return
	}
	e0 := c.engine(Hooks{})
	_, rs := q.started(e0)
	it := types.Typ[types.Int]
	taken, sends := 0, 0
	for _, r := range rs {
		e := c.engine(Hooks{})
		q.asGoroutine(e, r)
		vol := e.Volatile
		e.Volatile = func(f *types.Var) bool { return vol(f) && f != q.countF && f != q.connF }
		count := func(e *Engine, st *State, node *Term) *Term {
			v := e.load(st, faT(node, q.countF), q.countF.Type())
			st.zone.assumeLe(intT(0), v, 0)
			st.zone.assumeLe(v, intT(maxLen), 0)
			return v
		}
		e.h = Hooks{
			Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
				if addr.op == OFA && addr.aux == q.countF {
					count(e, st, addr.args[0])
				}
				if addr.op == OIA && q.isCmdPtr(derefType(addr.typ)) {
					if _, ok := st.heap[addr]; !ok {
						for a, v := range st.heap {
							if a.op == OIA && a.args[0] == addr.args[0] && st.zone.eq(a.args[1], addr.args[1]) {
								st.heap[addr] = v
								return
							}
						}
						x := freshSym(derefType(addr.typ), "cmd")
						st.facts[eqT(x, nilT())] = false
						st.heap[addr] = x
					}
				}
			},
			Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
				if addr.op == OFA && addr.aux == q.countF {
					e.Oblige(st, "recv-count", in, false, "the size of a batch is not changed by the receiver")
				}
			},
			Send: func(e *Engine, st *State, in ssa.Instruction, ch, val *Term) {
				if !isChanOf(ch.typ, isErrorType) {
					return
				}
				sends++
				if e.nonNil(st, val) {
					return
				}
				var node *Term
				for a, v := range st.heap {
					if v == ch && a.op == OFA && a.aux == q.chF {
						node = a.args[0]
					}
				}
				t := st.ghost["target"]
				if node == nil || t == nil || t.isNilTerm() || !same(e, st, node, t) {
					// a batch that holds nothing
					e.Oblige(st, "recv-count", in, node != nil && st.zone.le(count(e, st, node), intT(0)), "a batch is completed without an error only after its responses were taken")
					return
				}
				n := count(e, st, node)
				e.Oblige(st, "recv-count", in, e.sumEq(st, []*Term{st.ghost["taken"]}, []*Term{n}) || st.zone.eq(st.ghost["left"], intT(0)), "a batch is completed without an error when exactly as many responses were taken as it has commands")
			},
			Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
				switch ci.Callee {
				case nil:
					return nil, false
				case q.read:
					if l := ci.Args[1]; l.op == OSlice {
						for a := range st.heap {
							if a.op == OIA && a.args[0] == l.args[0] {
								delete(st.heap, a)
							}
						}
					}
					return nil, false
				case setCur:
					if !ci.Args[1].isNilTerm() {
						st.ghost["target"] = ci.Args[1]
						st.ghost["taken"] = intT(0)
						st.ghost["left"] = count(e, st, ci.Args[1])
					}
					return one(st, tupleT()), true
				case reset, recv:
					return one(st, tupleT()), true
				case next:
					taken++
					t := st.ghost["target"]
					if t == nil || t.isNilTerm() {
						e.Oblige(st, "recv-count", ci.Site, false, "a response is taken for a batch")
						return one(st, e.resultOf(st, ci)), true
					}
					n := count(e, st, t)
					e.Oblige(st, "recv-count", ci.Site, st.zone.le(linT(st.ghost["taken"], 1), n) || st.zone.le(intT(1), st.ghost["left"]), "no more responses are taken than the batch has commands")
					s2 := st.clone()
					st.ghost["taken"] = e.add(st, st.ghost["taken"], intT(1), it)
					st.ghost["left"] = e.sub(st, st.ghost["left"], intT(1), it)
					return []CallOut{{st, boolT(true)}, {s2, boolT(false)}}, true
				case hasErr:
					return one(st, e.resultOf(st, ci)), true
				}
				if isFailConnFn(ci.Callee) {
					v := e.resultOf(st, ci)
					if isErrorType(v.typ) {
						st.facts[eqT(v, nilT())] = false
					}
					return one(st, v), true
				}
				return nil, false
			},
		}
		memo := map[*ssa.Function]bool{}
		rel := func(fn *ssa.Function) bool {
			if fn == next || fn == recv || fn == reset || fn == setCur || fn == hasErr {
				return true
			}
			eff := c.p.effects(fn)
			if eff.funcs[q.read] || fn == q.read || q.touchesList(fn) {
				return true
			}
			return mentions(c, memo, fn, func(in ssa.Instruction) bool {
				switch x := in.(type) {
				case *ssa.Send:
					return isChanOf(x.Chan.Type(), isErrorType)
				case *ssa.FieldAddr:
					return fieldOf(x) == q.countF
				case ssa.CallInstruction:
					f := x.Common().StaticCallee()
					return f != nil && (f == next || f == recv || f == reset || f == setCur || f == hasErr || isFailConnFn(f))
				}
				return false
			})
		}
		e.Opaque = func(fn *ssa.Function) bool { return !rel(fn) }
		r.st.ghost["target"], r.st.ghost["taken"], r.st.ghost["left"] = nilT(), intT(0), intT(0)
		e.spawn(r.st, r.ci)
		c.finish(e, r.ci.Callee)
	}
	c.obFn("recv-count", next, taken > 0 && sends > 0, "responses are taken and batches completed (%d and %d places)", taken, sends)
}
