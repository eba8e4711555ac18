package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:  "C23",
		min: 10,
		rule: "One round of the health check is interpreted for every counter value, number of connections and previous number: it ends without a probe exactly when the counter shows that every connection had a turn, and then remembers the counter; otherwise each step takes the next number by adding one, sends a version command on the connection at that number modulo the number of connections and waits for its answer, and steps are taken until the numbers covered every connection. " +
			"The background goroutine runs exactly one round after each period and ends, without another round, when the close channel is closed.",
		not: "counters beyond 2^60; that the period is the configured one is C21, that Close closes the channel and waits is C11",
		run: runC23,
	})
}

// neverSent: no value is ever sent on channels of empty structs, they are only closed.
func neverSent(c *Ctx) bool {
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					if isEmptyStruct(x.Chan.Type().Underlying().(*types.Chan).Elem()) {
						return false
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.SendOnly && isEmptyStruct(s.Chan.Type().Underlying().(*types.Chan).Elem()) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func isEmptyStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func isChanOf(t types.Type, is func(types.Type) bool) bool {
	if t == nil {
		return false
	}
	c, ok := t.Underlying().(*types.Chan)
	return ok && is(c.Elem())
}

// structFields lists the fields of a named struct.
func structFields(n *types.Named) []*types.Var {
	if n == nil {
		return nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		r = append(r, s.Field(i))
	}
	return r
}

func runC23(c *Ctx) {
	round := c.fn("memcache.(healthCheckService).runSingleLoop")
	hs := c.p.typ("memcache", "healthCheckService")
	connsF := sliceFieldOf(c, "healthCheckService", "clientConn")
	pipeT := c.p.typ("memcache", "Pipeline")
	connT := c.p.typ("memcache", "clientConn")
	var prevF, getF, addF, pipeConn *types.Var
	u64 := types.Typ[types.Uint64]
	for _, f := range structFields(hs) {
		if types.Identical(f.Type(), u64) {
			prevF = f
		}
		if s, ok := f.Type().Underlying().(*types.Signature); ok && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), u64) {
			if s.Params().Len() == 0 {
				getF = f
			} else {
				addF = f
			}
		}
	}
	for _, f := range structFields(pipeT) {
		if p, ok := f.Type().(*types.Pointer); ok && types.Identical(p.Elem(), connT) {
			pipeConn = f
		}
	}
	if round == nil || connsF == nil || prevF == nil || getF == nil || addF == nil || pipeConn == nil {
		c.obFn("anchor", round, false, "the parts of the health check were not found (undecided)")
		return
	}
	elem := connsF.Type().Underlying().(*types.Slice).Elem()
	const big = int64(1) << 60
	bounded := func(e *Engine, st *State, name string) *Term {
		v := e.newValue(st, u64, name)
		st.zone.assumeLe(intT(0), v, 0)
		st.zone.assumeLe(v, intT(big), 0)
		return v
	}
	// covers: the numbers up to x cover every connection; short: they do not
	covers := func(e *Engine, st *State, x *Term) bool {
		p0, n := st.ghost["p0"], st.ghost["n"]
		return e.sumLe(st, []*Term{p0, n}, []*Term{x}) || st.zone.le(st.ghost["bound"], x) || st.zone.le(n, e.sub(st, x, p0, u64))
	}
	short := func(e *Engine, st *State, x *Term) bool {
		p0, n := st.ghost["p0"], st.ghost["n"]
		return e.sumLe(st, []*Term{linT(x, 1)}, []*Term{p0, n}) || st.zone.le(linT(x, 1), st.ghost["bound"]) || st.zone.le(linT(e.sub(st, x, p0, u64), 1), n)
	}
	var self *Term
	done := func(st *State) {
		if st.mon["probe"] == "asked" {
			st.mon["probe"] = ""
		}
	}
	probes := 0
	e := c.engine(Hooks{
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			switch {
			case ci.Kind == "go":
				e.Oblige(st, "in-turn", ci.Site, false, "a round of the health check starts a goroutine (undecided)")
				return nil, true
			case ci.Name == "dynamic" && fieldVals(st, getF)[ci.Fn] && len(ci.Args) == 0:
				v := bounded(e, st, "now")
				st.zone.assumeLe(st.ghost["v"], v, 0) // the counter only grows
				if st.mon["read"] == "" {
					st.ghost["now"] = v
				}
				st.mon["read"] = "1"
				return one(st, v), true
			case ci.Name == "dynamic" && fieldVals(st, addF)[ci.Fn] && len(ci.Args) == 1:
				k, isC := ci.Args[0].isConstInt()
				e.Oblige(st, "next-number", ci.Site, isC && k == 1, "the next number is taken by adding one")
				e.Oblige(st, "answer-awaited", ci.Site, st.mon["probe"] == "", "the previous probe was sent and answered before the next number is taken")
				last := st.ghost["v"]
				if st.mon["added"] == "" {
					last = st.ghost["now"]
				}
				e.Oblige(st, "no-needless-probe", ci.Site, st.mon["read"] != "" && short(e, st, last), "a number is taken only while the numbers do not cover every connection")
				st.mon["added"] = "1"
				v := bounded(e, st, "number")
				st.zone.assumeLe(linT(st.ghost["v"], 1), v, 0) // the counter only grows
				st.ghost["v"] = v
				st.mon["probe"] = "due"
				return one(st, v), true
			case ci.Name == "dynamic" && ci.Fn == st.ghost["result"]:
				done(st)
				r := e.resultOf(st, ci)
				return one(st, r), true
			case ci.Callee != nil && recvName(ci.Callee) == "Pipeline" && ci.Callee.Object() != nil && ci.Callee.Object().Exported():
				switch ci.Callee.Name() {
				case "Version":
					probes++
					cn := e.load(st, faT(ci.Args[0], pipeConn), pipeConn.Type())
					e.Oblige(st, "probe-connection", ci.Site, st.mon["probe"] == "due" && cn == st.ghost["elem"] && st.mon["elem"] == "ok", "the version command goes to the connection at the number just taken, modulo the number of connections")
					st.mon["probe"] = "asked"
					r := e.resultOf(st, ci)
					st.facts[eqT(r, nilT())] = false
					st.ghost["result"], st.ghost["pipe"] = r, ci.Args[0]
					return one(st, r), true
				case "Finish":
					if ci.Args[0] == st.ghost["pipe"] {
						done(st)
					}
					return one(st, tupleT()), true
				case "Execute":
					return one(st, tupleT()), true
				}
				e.Oblige(st, "only-version", ci.Site, false, "the health check sends %s", ci.Callee.Name())
				return one(st, e.resultOf(st, ci)), true
			}
			return nil, false
		},
		Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
			if addr.op != OIA {
				return
			}
			l := st.ghost["list"]
			if l == nil || addr.args[0] != l.args[0] {
				return
			}
			m := map[*Term]int64{}
			k := linear(addr.args[1], 1, m) + linear(l.args[1], -1, m)
			st.mon["elem"] = "other"
			n := 0
			for t, x := range m {
				if x == 0 {
					continue
				}
				n++
				for t.op == OApp && strings.HasPrefix(t.aux.(string), "conv:") {
					t = t.args[0]
				}
				if x == 1 && k == 0 && t.op == OApp && t.aux == "rem" && t.args[0] == st.ghost["v"] && st.zone.eq(t.args[1], l.args[2]) {
					st.mon["elem"] = "ok"
				}
			}
			if n > 1 {
				st.mon["elem"] = "other"
			}
			if st.zone.eq(l.args[2], intT(1)) && st.zone.eq(addr.args[1], l.args[1]) {
				st.mon["elem"] = "ok"
			}
			st.ghost["elem"] = e.load(st, addr, elem)
		},
		Bounds: func(e *Engine, st *State, in ssa.Instruction, what string, ok bool) {
			e.Oblige(st, "index-in-range", in, ok, "%s is in range", what)
		},
	})
	e.Opaque = func(fn *ssa.Function) bool { return recvName(fn) == "pipelineSession" }
	outs := e.RunFresh(round, func(st *State, a []*Term) {
		self = a[0]
		st.facts[eqT(self, nilT())] = false
		l := e.load(st, faT(self, connsF), connsF.Type())
		st.zone.assumeLe(intT(1), e.lenOf(st, l), 0) // New makes at least one connection
		p0 := e.load(st, faT(self, prevF), u64)
		st.zone.assumeLe(intT(0), p0, 0)
		st.zone.assumeLe(p0, intT(big), 0)
		st.ghost["p0"], st.ghost["n"], st.ghost["list"] = p0, e.lenOf(st, l), l
		st.ghost["bound"] = e.add(st, p0, e.lenOf(st, l), u64)
		st.ghost["v"], st.ghost["now"] = p0, p0
		st.ghost["elem"], st.ghost["result"], st.ghost["pipe"] = nilT(), nilT(), nilT()
	})
	quiet, probing := 0, 0
	for _, o := range outs {
		st := o.St
		if o.Panic {
			e.Oblige(st, "no-panic", o.Instr, false, "a round of the health check panics")
			continue
		}
		prev := e.load(st, faT(self, prevF), u64)
		e.Oblige(st, "answer-awaited", o.Instr, st.mon["probe"] == "", "every number taken was probed and answered")
		if st.mon["added"] == "" {
			quiet++
			e.Oblige(st, "idle-only", o.Instr, st.mon["read"] == "1" && covers(e, st, st.ghost["now"]), "a round ends without a probe only if every connection had a turn since the previous check")
			e.Oblige(st, "remembered", o.Instr, prev == st.ghost["now"], "the number is remembered for the next check")
			continue
		}
		probing++
		e.Oblige(st, "covers-all", o.Instr, covers(e, st, st.ghost["v"]), "probing goes on until the numbers cover every connection")
		e.Oblige(st, "remembered", o.Instr, prev == st.ghost["v"], "the last number is remembered for the next check")
	}
	c.finish(e, round)
	c.obFn("both-ways", round, quiet > 0 && probing > 0 && probes > 0, "a round can end without a probe and with probes")
	c23Loop(c, round)
}

// c23Loop: the goroutine that runs the rounds.
func c23Loop(c *Ctx, round *ssa.Function) {
	hs := c.p.typ("memcache", "healthCheckService")
	sent := !neverSent(c)
	found := 0
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				callee := g.Common().StaticCallee()
				if callee == nil || !c.p.effects(callee).funcs[round] && callee != round {
					continue
				}
				found++
				c23Goroutine(c, fn, round, hs, sent)
			}
		}
	}
	c.obFn("background", round, found == 1, "exactly one goroutine runs the health check")
}

func c23Goroutine(c *Ctx, starter, round *ssa.Function, hs *types.Named, sent bool) {
	rounds, stops := 0, 0
	closes := func(st *State, ch *Term) bool {
		for _, f := range structFields(hs) {
			if isChanOf(f.Type(), isEmptyStruct) && fieldVals(st, f)[ch] {
				return true
			}
		}
		return false
	}
	e := c.engine(Hooks{
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			if ci.Kind == "go" {
				if st.mon["in"] == "" {
					st.mon["in"] = "1"
					for _, o := range e.spawn(st, ci) {
						if !o.Panic {
							stops++
							e.Oblige(o.St, "stops-only-on-close", o.Instr, o.St.mon["closed"] == "1", "the goroutine ends only when the close channel is closed")
						}
					}
					st.mon["in"] = ""
				}
				return nil, true
			}
			if ci.Callee == round {
				rounds++
				e.Oblige(st, "no-round-after-close", ci.Site, st.mon["closed"] == "", "no round runs after the close channel was closed")
				e.Oblige(st, "one-round-per-period", ci.Site, st.mon["due"] == "1", "a round runs once after each period")
				st.mon["due"] = ""
				return one(st, tupleT()), true
			}
			return nil, false
		},
		Select: func(e *Engine, st *State, in *ssa.Select, chans []*Term) {
			e.Oblige(st, "stops", in, st.mon["closed"] == "", "the goroutine does not wait again after the close channel was closed")
			has := false
			for i, s := range in.States {
				has = has || s.Dir == types.RecvOnly && closes(st, chans[i])
			}
			e.Oblige(st, "wakes-on-close", in, has, "the wait ends when the close channel is closed")
			e.Oblige(st, "one-round-per-period", in, st.mon["due"] == "", "the round of the previous period has run")
		},
		Case: func(e *Engine, st *State, in *ssa.Select, k int, ch, val, ok *Term) {
			if k < 0 || in.States[k].Dir != types.RecvOnly {
				return
			}
			if closes(st, ch) {
				if !sent {
					e.assume(st, ok, false)
				}
				st.mon["closed"] = "1"
			} else if isChanOf(in.States[k].Chan.Type(), func(t types.Type) bool { return t.String() == "time.Time" }) {
				st.mon["due"] = "1"
			}
		},
		Recv: func(e *Engine, st *State, in ssa.Instruction, ch *Term) {
			e.Oblige(st, "wakes-on-close", in, closes(st, ch), "the goroutine waits for something else than its timer and the close channel (undecided)")
		},
	})
	e.RunFresh(starter, nil)
	c.finish(e, starter)
	c.obFn("rounds", starter, rounds > 0 && stops > 0, "the goroutine runs rounds and can stop (%d, %d)", rounds, stops)
}
