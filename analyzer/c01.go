package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id: "C01", min: 10,
		rule: "Abstract interpretation of the key validator: it can return nil only after every byte was shown to lie in 33..126 (a counter of validated bytes equals the length at the return) and the length to lie in 1..250; under the assumption that all this holds it can only return nil. In every exported Pipeline operation that takes a key, the key is appended to a request only on paths on which the validator accepted it, and on the rejecting path nothing reachable from the pipeline is written and the error (also that of the returned function) is not nil.",
		not:  "validation switched off by the tests through enabledCheckLen",
		run:  runC01,
	})
}

const keyMin, keyMax, keyLo, keyHi = 1, 250, 33, 126

func runC01(c *Ctx) {
	v := c.fn("memcache.validateKeyFormat")
	if v == nil {
		return
	}
	c01Sound(c, v)
	c01Complete(c, v)
	c01Callers(c, v)
}

// predicateCalls models strings.IndexFunc and strings.ContainsFunc on the key.
func predicateCalls(e *Engine, st *State, ci *CallInfo, key func(*Term) bool, good func(st *State, r *Term) bool) ([]CallOut, bool) {
	if ci.Name != "strings.IndexFunc" && ci.Name != "strings.ContainsFunc" || !key(ci.Args[0]) {
		return nil, false
	}
	f := ci.Args[1]
	fn, ok := f.aux.(*ssa.Function)
	if f.op != OFunc || !ok || len(fn.Blocks) == 0 {
		return nil, false
	}
	found := func(b bool) *Term {
		if ci.Name == "strings.ContainsFunc" {
			return boolT(b)
		}
		if !b {
			return intT(-1)
		}
		return nil
	}
	r := freshSym(types.Typ[types.Int32], "rune")
	s := st.clone()
	s.zone.assumeLe(intT(0), r, 0)
	s.zone.assumeLe(r, intT(0x10ffff), 0)
	if e.StrElemRange != nil {
		if lo, hi, has := e.StrElemRange(ci.Args[0]); has {
			s.zone.assumeLe(intT(lo), r, 0)
			s.zone.assumeLe(r, intT(hi), 0)
		}
	}
	saved := s.frame
	allGood, someTrue := true, false
	for _, o := range e.execFn(s, fn, []*Term{r}, f.args, ci.Site) {
		v, known := e.evalBool(o.St, o.Res[0])
		if !known || v {
			someTrue = true
		}
		if (!known || !v) && !good(o.St, r) {
			allGood = false
		}
	}
	st.frame = saved
	var outs []CallOut
	s2 := st.clone()
	if allGood {
		st.ghost["vis"] = e.lenOf(st, ci.Args[0])
	}
	outs = append(outs, CallOut{st, found(false)})
	if someTrue {
		t := found(true)
		if t == nil {
			t = e.newValue(s2, types.Typ[types.Int], "index")
			s2.zone.assumeLe(intT(0), t, 0)
		}
		outs = append(outs, CallOut{s2, t})
	}
	return outs, true
}

func inKeyRange(st *State, t *Term) bool {
	lo, hi, o1, o2 := st.zone.rng(t)
	return o1 && o2 && lo >= keyLo && hi <= keyHi
}

func c01Sound(c *Ctx, v *ssa.Function) {
	var key *Term
	h := Hooks{
		BackEdge: func(e *Engine, st *State, header, pred *ssa.BasicBlock, head *State) {
			vis := st.ghost["vis"]
			if vis == nil || !isIntTerm(vis) {
				return
			}
			for _, k := range sortedKeys(st.ghost) {
				if !strings.HasPrefix(k, "itpos:") || !strings.Contains(k, key.String()) {
					continue
				}
				r := st.ghost["itrune:"+strings.TrimPrefix(k, "itpos:")]
				if st.zone.eq(st.ghost[k], vis) && r != nil && inKeyRange(st, r) {
					st.ghost["vis"] = e.add(st, vis, intT(1), types.Typ[types.Int])
					return
				}
			}
			for _, x := range append([]*Term{}, st.zone.vars[1:]...) {
				if x.op == OApp && len(x.args) == 2 && x.args[0] == key && x.aux == "elem" && st.zone.eq(x.args[1], vis) && inKeyRange(st, x) {
					st.ghost["vis"] = e.add(st, vis, intT(1), types.Typ[types.Int])
					return
				}
			}
		},
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			return predicateCalls(e, st, ci, func(t *Term) bool { return t == key }, inKeyRange)
		},
	}
	e := c.engine(h)
	outs := e.RunFresh(v, func(st *State, args []*Term) {
		key = args[0]
		st.ghost["vis"] = intT(0)
	})
	n := 0
	for _, o := range outs {
		if o.Panic {
			continue
		}
		st := o.St
		if len(o.Res) != 1 || e.nonNil(st, o.Res[0]) {
			continue
		}
		n++
		ln := e.lenOf(st, key)
		e.Oblige(st, "accepts-only-nonempty", o.Instr, st.zone.le(intT(keyMin), ln), "the validator may accept an empty key")
		e.Oblige(st, "accepts-only-short", o.Instr, st.zone.le(ln, intT(keyMax)), "the validator may accept a key longer than 250 bytes")
		vis := st.ghost["vis"]
		e.Oblige(st, "accepts-only-graphic", o.Instr, vis != nil && isIntTerm(vis) && st.zone.le(ln, vis), "the validator may accept a key without having shown every byte to be printable, non-space ASCII")
	}
	c.obFn("accepts-some", v, n > 0, "the validator accepts no key")
	c.finish(e, v)
}

func c01Complete(c *Ctx, v *ssa.Function) {
	var key *Term
	e := c.engine(Hooks{Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		return predicateCalls(e, st, ci, func(t *Term) bool { return t == key }, func(*State, *Term) bool { return true })
	}})
	e.StrElemRange = func(s *Term) (int64, int64, bool) {
		if s == key {
			return keyLo, keyHi, true
		}
		return 0, 0, false
	}
	outs := e.RunFresh(v, func(st *State, args []*Term) {
		key = args[0]
		ln := e.lenOf(st, key)
		st.zone.assumeLe(intT(keyMin), ln, 0)
		st.zone.assumeLe(ln, intT(keyMax), 0)
	})
	for _, o := range outs {
		ok := !o.Panic && len(o.Res) == 1
		if ok {
			val, known := e.evalBool(o.St, eqT(o.Res[0], nilT()))
			ok = known && val
		}
		e.Oblige(o.St, "accepts-good", o.Instr, ok, "the validator may reject a key of 1 to 250 printable, non-space ASCII characters")
	}
	c.finish(e, v)
}

func c01Callers(c *Ctx, v *ssa.Function) {
	rd := c.p.field("memcache", "commandListData", "requestData")
	if rd == nil {
		c.obFn("anchor", nil, false, "field commandListData.requestData not found (undecided)")
		return
	}
	var ops []*ssa.Function
	for _, t := range []string{"Pipeline", "Client"} {
		ops = append(ops, c.p.exportedMethods("memcache", t)...)
	}
	keyed := 0
	for _, op := range ops {
		var idx []int
		for i, p := range op.Params {
			if i > 0 && isKeyParam(p.Type()) {
				idx = append(idx, i)
			}
		}
		if len(idx) == 0 || !c.p.effects(op).writes[rd] {
			continue
		}
		keyed++
		keys := map[*Term]bool{}
		opaque := func(fn *ssa.Function) bool {
			return c.p.blocking(fn) && !c.p.effects(fn).funcs[v]
		}
		h := Hooks{
			Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
				if ci.Callee != v {
					if ci.Callee != nil && c.p.inRepo(ci.Callee) && opaque(ci.Callee) && len(c.p.effects(ci.Callee).writes) > 0 {
						c01Dirty(e, st, ci.Site)
					}
					return nil, false
				}
				if !keys[ci.Args[0]] {
					return one(st, e.resultOf(st, ci)), true
				}
				s2 := st.clone()
				st.mon["key"], s2.mon["key"] = "accepted", "rejected"
				r := e.resultOf(s2, ci)
				s2.facts[eqT(r, nilT())] = false
				return []CallOut{{st, nilT()}, {s2, r}}, true
			},
			Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
				if !st.localAlloc(addr) {
					c01Dirty(e, st, in)
				}
			},
			Append: func(e *Engine, st *State, in ssa.Instruction, base, add, res *Term) {
				toks := st.content[res]
				if n := len(toks); n > 0 && keys[toks[n-1].t] && toks[n-1].kind != "num" {
					st.mon["added"] = "1"
					e.Oblige(st, "key-validated", in, st.mon["key"] == "accepted", "the key becomes part of a request on a path on which the validator did not accept it")
				}
			},
		}
		e := c.engine(h)
		e.Opaque = opaque
		outs := e.RunFresh(op, func(st *State, args []*Term) {
			for _, i := range idx {
				keys[args[i]] = true
			}
		})
		acc, rej := 0, 0
		for _, o := range outs {
			if o.Panic {
				continue
			}
			st := o.St
			switch st.mon["key"] {
			case "accepted":
				acc++
				e.Oblige(st, "accepted-is-sent", o.Instr, st.mon["added"] == "1", "an accepted key is not put into a request")
			case "rejected":
				rej++
				e.Oblige(st, "rejected-no-effect", o.Instr, st.mon["dirty"] == "", "with a rejected key the pipeline is changed at %s", st.mon["dirty"])
				last := o.Res[len(o.Res)-1]
				if last.op == OFunc {
					inner := e.callValue(st.clone(), last)
					e.Oblige(st, "rejected-error", o.Instr, len(inner) > 0, "the function returned for a rejected key cannot be followed (undecided)")
					for _, x := range inner {
						if x.Panic {
							continue
						}
						e.Oblige(x.St, "rejected-error", o.Instr, e.nonNil(x.St, x.Res[len(x.Res)-1]), "the function returned for a rejected key may report success")
						e.Oblige(x.St, "rejected-no-effect", o.Instr, x.St.mon["dirty"] == "", "the function returned for a rejected key changes the pipeline at %s", x.St.mon["dirty"])
					}
				} else {
					e.Oblige(st, "rejected-error", o.Instr, e.nonNil(st, last), "a call with a rejected key may report success")
				}
			default:
				e.Oblige(st, "key-validated", o.Instr, false, "the operation ends without the validator having seen its key")
			}
		}
		c.obFn("both-ways", op, acc > 0 && rej > 0, "the operation has %d accepting and %d rejecting outcomes", acc, rej)
		c.finish(e, op)
	}
	c.obFn("operations", nil, keyed >= 4, "only %d operations with a key found", keyed)
}

func c01Dirty(e *Engine, st *State, in ssa.Instruction) {
	if st.mon["key"] != "accepted" && st.mon["dirty"] == "" {
		st.mon["dirty"] = e.prog.pos(in)
	}
}
