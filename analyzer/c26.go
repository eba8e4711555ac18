package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:  "C26",
		min: 15,
		rule: "New is interpreted for every number of connections: it fails exactly for a number of at most zero, before making any, and otherwise makes one connection per turn, puts each into the list at once, and ends with a list of exactly that length, which the health check gets too. " +
			"Every operation of Pipeline is interpreted up to the choice of its connection: at most one atomic Add(1) on the counter, and the connection taken is the element at that result (plus a constant) modulo the length of the list, an index that is in range for every counter value. Every other use of the counter in the package is found and must be Add(1) or Load.",
		not: "fairness beyond consecutive numbers when several goroutines pick at once",
		run: runC26,
	})
}

// sliceFieldOf: the field of the struct that is a slice of pointers to elem.
func sliceFieldOf(c *Ctx, typ, elem string) *types.Var {
	n, el := c.p.typ("memcache", typ), c.p.typ("memcache", elem)
	if n == nil || el == nil {
		return nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
			if p, ok := sl.Elem().(*types.Pointer); ok && types.Identical(p.Elem(), el) {
				return s.Field(i)
			}
		}
	}
	return nil
}

func isAtomicType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic"
}

func runC26(c *Ctx) {
	connsF := sliceFieldOf(c, "Client", "clientConn")
	nw, newConn := c.fn("memcache.New"), c.fn("memcache.newConn")
	if connsF == nil {
		c.obFn("anchor", nw, false, "no list of connections in Client (undecided)")
	}
	if connsF == nil || nw == nil || newConn == nil {
		return
	}
	c26New(c, nw, newConn, connsF)
	c26Pick(c, connsF)
}

func c26New(c *Ctx, nw, newConn *ssa.Function, connsF *types.Var) {
	var num *Term
	it := types.Typ[types.Int]
	healthF := sliceFieldOf(c, "healthCheckService", "clientConn")
	placed := func(st *State, v *Term) {
		if v == st.ghost["last"] {
			st.mon["due"] = ""
		}
	}
	e := c.engine(Hooks{
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			if ci.Kind == "go" {
				return nil, true
			}
			if ci.Callee != newConn {
				return nil, false
			}
			e.Oblige(st, "connection-kept", ci.Site, st.mon["due"] == "", "the previous connection was put into the list")
			r := e.newValue(st, newConn.Signature.Results().At(0).Type(), "conn")
			st.facts[eqT(r, nilT())] = false
			st.ghost["last"] = r
			st.mon["due"] = "1"
			st.ghost["made"] = e.add(st, st.ghost["made"], intT(1), it)
			return one(st, r), true
		},
		Append: func(e *Engine, st *State, in ssa.Instruction, base, add, r *Term) {
			if n, ok := add.args[2].isConstInt(); ok && n == 1 && types.Identical(r.typ, connsF.Type()) {
				v := e.load(st, iaT(connsF.Type().Underlying().(*types.Slice).Elem(), add.args[0], add.args[1]), connsF.Type().Underlying().(*types.Slice).Elem())
				if v == st.ghost["last"] {
					at := e.add(st, base.args[2], intT(1), it)
					e.Oblige(st, "connection-at-its-place", in, st.zone.eq(at, st.ghost["made"]), "the connection is put behind the earlier ones")
					placed(st, v)
				}
			}
		},
		Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op == OIA && val == st.ghost["last"] && st.mon["due"] != "" && st.mon["tmp:"+addr.args[0].String()] == "" {
				// an element of the list itself, not of the argument list of append
				if al, ok := in.(*ssa.Store); ok {
					if ia, ok := al.Addr.(*ssa.IndexAddr); ok {
						if _, arr := ia.X.Type().Underlying().(*types.Slice); arr {
							e.Oblige(st, "connection-at-its-place", in, st.zone.eq(addr.args[1], linT(st.ghost["made"], -1)), "the connection is put at its own place")
							placed(st, val)
						}
					}
				}
			}
		},
	})
	e.Opaque = func(fn *ssa.Function) bool {
		eff := c.p.effects(fn)
		if eff.funcs[newConn] {
			return false
		}
		if healthF != nil {
			for f := range eff.writes {
				if f == healthF {
					return false
				}
			}
		}
		return true
	}
	outs := e.RunFresh(nw, func(st *State, a []*Term) {
		for _, x := range a {
			if isIntType(x.typ) {
				num = x
			}
		}
		st.ghost["made"] = intT(0)
		st.ghost["last"] = nilT()
	})
	if num == nil {
		c.obFn("anchor", nw, false, "New takes no number of connections (undecided)")
		return
	}
	good := 0
	for _, o := range outs {
		if o.Panic {
			continue
		}
		st := o.St
		if !e.isNil(st, o.Res[1]) {
			made, known := st.ghost["made"].isConstInt()
			e.Oblige(st, "error-only-for-bad-number", o.Instr, st.zone.le(num, intT(0)), "New fails only for a number of connections that is not positive")
			e.Oblige(st, "error-makes-nothing", o.Instr, known && made == 0, "no connection is made when New fails")
			continue
		}
		good++
		e.Oblige(st, "bad-number-rejected", o.Instr, st.zone.le(intT(1), num), "New succeeds only for a positive number of connections")
		e.Oblige(st, "made-exactly", o.Instr, st.zone.eq(st.ghost["made"], num) && st.mon["due"] == "", "exactly the given number of connections is made and kept (made %s)", st.ghost["made"])
		l := e.load(st, faT(o.Res[0], connsF), connsF.Type())
		e.Oblige(st, "list-length", o.Instr, st.zone.eq(e.lenOf(st, l), num), "the list has that many connections")
		if healthF != nil {
			ok := false
			for v := range fieldVals(st, healthF) {
				ok = ok || v == l
			}
			e.Oblige(st, "health-list", o.Instr, ok, "the health check gets the same list")
		}
	}
	c.finish(e, nw)
	c.obFn("can-succeed", nw, good > 0, "New can succeed")
}

// mentions: the function, or one it calls or makes, has an instruction that satisfies is.
func mentions(c *Ctx, memo map[*ssa.Function]bool, fn *ssa.Function, is func(ssa.Instruction) bool) bool {
	if v, ok := memo[fn]; ok {
		return v
	}
	memo[fn] = false
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if is(in) {
				r = true
			}
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok && c.p.inRepo(f) && mentions(c, memo, f, is) {
					r = true
				}
			}
		}
	}
	memo[fn] = r
	return r
}

// fieldOf: the field a FieldAddr takes.
func fieldOf(in ssa.Value) *types.Var {
	if fa, ok := in.(*ssa.FieldAddr); ok {
		if s, ok := derefType(fa.X.Type()).Underlying().(*types.Struct); ok {
			return s.Field(fa.Field)
		}
	}
	return nil
}

func c26Pick(c *Ctx, connsF *types.Var) {
	ops := pipelineOps(c)
	pipeT, connT := c.p.typ("memcache", "Pipeline"), c.p.typ("memcache", "clientConn")
	if len(ops) == 0 || pipeT == nil || connT == nil {
		c.obFn("anchor", nil, false, "no operations of Pipeline found (undecided)")
		return
	}
	var pipeConn *types.Var
	for i := 0; i < pipeT.Underlying().(*types.Struct).NumFields(); i++ {
		f := pipeT.Underlying().(*types.Struct).Field(i)
		if p, ok := f.Type().(*types.Pointer); ok && types.Identical(p.Elem(), connT) {
			pipeConn = f
		}
	}
	memo := map[*ssa.Function]bool{}
	relevant := func(in ssa.Instruction) bool {
		if ia, ok := in.(*ssa.IndexAddr); ok && types.Identical(ia.X.Type(), connsF.Type()) {
			return true
		}
		v, ok := in.(ssa.Value)
		return ok && (fieldOf(v) == connsF || pipeConn != nil && fieldOf(v) == pipeConn)
	}
	ctr := map[*types.Var]bool{}
	for _, op := range ops {
		picks := 0
		e := c.engine(Hooks{
			Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
				if len(ci.Args) == 0 || ci.Args[0].op != OFA || ci.Callee == nil || ci.Callee.Pkg == nil || ci.Callee.Pkg.Pkg.Path() != "sync/atomic" {
					return nil, false
				}
				f := ci.Args[0].aux.(*types.Var)
				if n := c.p.typ("memcache", "Client"); n == nil || !ownerIs(ci.Args[0], n) {
					return nil, false
				}
				if name := ci.Callee.Name(); !strings.HasPrefix(name, "Add") {
					return nil, false
				}
				k, isC := ci.Args[1].isConstInt()
				e.Oblige(st, "advance-by-one", ci.Site, isC && k == 1, "the counter is advanced by one")
				e.Oblige(st, "advance-once", ci.Site, st.ghost["pick"].isNilTerm(), "the counter is advanced at most once per pick")
				ctr[f] = true
				r := e.newValue(st, ci.Callee.Signature.Results().At(0).Type(), "pick")
				st.ghost["pick"] = r
				return one(st, r), true
			},
			Bounds: func(e *Engine, st *State, in ssa.Instruction, what string, ok bool) {
				if ia, isIA := in.(*ssa.IndexAddr); isIA && types.Identical(ia.X.Type(), connsF.Type()) {
					e.Oblige(st, "index-in-range", in, ok, "the index of the connection is in range for every counter value (%s)", what)
				}
			},
			Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
				if addr.op != OIA {
					return
				}
				var list *Term
				for v := range fieldVals(st, connsF) {
					if v.op == OSlice && v.args[0] == addr.args[0] {
						list = v
					}
				}
				if list == nil {
					return
				}
				picks++
				im := map[*Term]int64{}
				k := linear(addr.args[1], 1, im) + linear(list.args[1], -1, im)
				var ix *Term
				for t, n := range im {
					if n == 1 {
						ix = t
					} else if n != 0 {
						k = 1
					}
				}
				if ix == nil || k != 0 {
					ix = intT(-1)
				}
				for ix.op == OApp && strings.HasPrefix(ix.aux.(string), "conv:") {
					ix = ix.args[0]
				}
				ok := false
				if ix.op == OApp && ix.aux == "rem" && st.zone.eq(ix.args[1], list.args[2]) {
					m := map[*Term]int64{}
					poly(ix.args[0], 1, m)
					ok = len(m) == 1 && m[st.ghost["pick"]] == 1
				}
				if st.zone.eq(list.args[2], intT(1)) && st.zone.eq(addr.args[1], list.args[1]) {
					ok = true
				}
				e.Oblige(st, "round-robin", in, ok, "the connection is the one at the counter modulo the number of connections (index %s)", addr.args[1])
				st.ghost["chosen"] = e.load(st, addr, connsF.Type().Underlying().(*types.Slice).Elem())
			},
			Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
				if addr.op == OFA && pipeConn != nil && addr.aux == pipeConn && addr.args[0] == st.ghost["self"] {
					e.Oblige(st, "chosen-used", in, val == st.ghost["chosen"] && !val.isNilTerm(), "the pipeline uses the connection that was picked")
				}
			},
		})
		e.Opaque = func(fn *ssa.Function) bool { return !mentions(c, memo, fn, relevant) }
		outs := e.RunFresh(op, func(st *State, a []*Term) {
			st.ghost["pick"], st.ghost["chosen"] = nilT(), nilT()
			st.ghost["self"] = a[0]
			for i := 0; i < pipeT.Underlying().(*types.Struct).NumFields(); i++ {
				f := pipeT.Underlying().(*types.Struct).Field(i)
				if p, ok := f.Type().(*types.Pointer); ok && c.p.typ("memcache", "Client") != nil && types.Identical(p.Elem(), c.p.typ("memcache", "Client")) {
					cl := e.load(st, faT(a[0], f), f.Type())
					l := e.load(st, faT(cl, connsF), connsF.Type())
					st.zone.assumeLe(intT(1), e.lenOf(st, l), 0) // New makes at least one
				}
			}
		})
		for _, o := range outs {
			if o.Panic {
				continue
			}
			e.Oblige(o.St, "counter-only-for-picks", o.Instr, o.St.ghost["pick"].isNilTerm() == o.St.ghost["chosen"].isNilTerm(), "the counter advances exactly when a connection is picked")
		}
		c.finish(e, op)
		c.obFn("pick-found", op, picks > 0, "%s picks a connection", op.Name())
	}
	if len(ctr) == 0 {
		c.obFn("anchor", ops[0], false, "no counter found (undecided)")
	}
	// all other uses of the counter
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !ctr[fieldOf(fa)] {
					continue
				}
				for _, ref := range *fa.Referrers() {
					ok := false
					switch x := ref.(type) {
					case ssa.CallInstruction:
						callee := x.Common().StaticCallee()
						if callee != nil && len(x.Common().Args) > 0 && x.Common().Args[0] == fa {
							switch callee.Name() {
							case "Load":
								ok = true
							case "Add":
								k, isC := x.Common().Args[1].(*ssa.Const)
								ok = isC && k.Uint64() == 1
							}
						}
					case *ssa.MakeClosure:
						n := x.Fn.Name()
						ok = n == "Load$bound" || n == "Add$bound"
					case *ssa.DebugRef:
						ok = true
					}
					c.ob("counter-uses", ref, ok, "the counter is only advanced by one and read")
				}
			}
		}
	}
}
