package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A batch is owned by the pipeline until it is published and again once it is completed. In between it
// belongs to the sender, and from the moment it is put into the ring to the sender and the receiver.
const (
	phWait   = "the pipeline, between publishing and completion"
	phAfter  = "the pipeline, after completion"
	phSendA  = "the sender, before the receiver has the batch"
	phSendB  = "the sender, when the receiver has the batch"
	phRecv   = "the receiver, before completion"
	phGone   = "the receiver, after completion"
	elemMark = "[]"
)

type touchKey struct {
	phase string
	field string
	write bool
}

// handing records in which phase which field of a batch is read and written.
type handing struct {
	c     *Ctx
	t     *threads
	a     *accesses
	m     *pmodel
	seen  map[touchKey]ssa.Instruction
	count map[string]int
}

func (h *handing) note(phase string, f *types.Var, elems, write bool, in ssa.Instruction) {
	if isSyncType(f.Type()) || f == h.m.q.chF && !write && !elems {
		return
	}
	n := f.Name()
	if elems {
		n += elemMark
	}
	h.count[phase]++
	k := touchKey{phase, n, write}
	if h.seen[k] == nil {
		h.seen[k] = in
	}
}

func (h *handing) batchField(f *types.Var) bool {
	o := ownerType(h.c, f)
	return o == h.m.q.cmdT || o != nil && types.Type(o) == derefType(h.m.entF.Type())
}

// batchOf: the names of the batches that an object is, or is a value of.
func (h *handing) batchOf(st *State, obj *Term, nodes map[string]*Term) (r []string) {
	m := h.m
	for i, n := range nodes {
		if n == obj {
			return []string{i}
		}
	}
	for i, n := range nodes {
		k := 0
		for x := st.heap[faT(n, m.entF)]; x != nil && x.op == OAlloc && k < 16; x = st.heap[faT(x, m.nextF)] {
			if x == obj {
				r = append(r, i)
			}
			k++
		}
	}
	return
}

// memoryOf: the field of a batch that holds the memory with this base.
func (h *handing) memoryOf(st *State, base *Term, nodes map[string]*Term) (r string, f *types.Var) {
	for a, v := range st.heap {
		if a.op != OFA || v.op != OSlice || v.args[0] != base || !h.batchField(a.aux.(*types.Var)) {
			continue
		}
		if is := h.batchOf(st, a.args[0], nodes); len(is) > 0 {
			return is[0], a.aux.(*types.Var)
		}
	}
	return "", nil
}

// follow adds the recording to hooks; phase gives the phase of a batch at the moment, or nothing.
func (h *handing) follow(b Hooks, nodes func(*State) map[string]*Term, phase func(st *State, i string) string) Hooks {
	at := func(st *State, in ssa.Instruction, addr *Term, write bool) {
		if addr.op == OSlice {
			addr = iaT(types.NewPointer(types.Typ[types.Byte]), addr.args[0], intT(0))
		}
		ns := nodes(st)
		if len(ns) == 0 {
			return
		}
		switch addr.op {
		case OFA:
			f := addr.aux.(*types.Var)
			if !h.batchField(f) {
				return
			}
			for _, i := range h.batchOf(st, addr.args[0], ns) {
				if p := phase(st, i); p != "" {
					h.note(p, f, false, write, in)
				}
			}
		case OIA:
			if i, f := h.memoryOf(st, addr.args[0], ns); f != nil {
				if p := phase(st, i); p != "" {
					h.note(p, f, true, write, in)
				}
			}
		}
	}
	old := b
	b.Load = func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
		at(st, in, addr, false)
		if old.Load != nil {
			old.Load(e, st, in, addr)
		}
	}
	b.Store = func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
		at(st, in, addr, true)
		if old.Store != nil {
			old.Store(e, st, in, addr, val)
		}
	}
	b.Append = func(e *Engine, st *State, in ssa.Instruction, base, add, res *Term) {
		if base.op == OSlice && base.args[0].op != ONil {
			at(st, in, base, true)
		}
		if add != nil && add.op == OSlice {
			at(st, in, add, false)
		}
		if old.Append != nil {
			old.Append(e, st, in, base, add, res)
		}
	}
	b.Call = func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		name := ci.Name
		switch {
		case name == "builtin:copy":
			at(st, ci.Site, ci.Args[0], true)
			if ci.Args[1].op == OSlice {
				at(st, ci.Site, ci.Args[1], false)
			}
		case ci.Callee == nil || !h.c.p.inRepo(ci.Callee):
			for _, a := range ci.Args {
				if a.op == OSlice {
					at(st, ci.Site, a, !strings.HasSuffix(name, ".Write") && !strings.HasPrefix(name, "builtin:"))
				}
			}
		}
		if old.Call != nil {
			return old.Call(e, st, ci)
		}
		return nil, false
	}
	return b
}

// pipeline is called when the model of pipelines sets its hooks.
func (h *handing) pipeline(m *pmodel) {
	m.e.h = h.follow(m.e.h, func(st *State) map[string]*Term {
		r := map[string]*Term{}
		for i, n := range m.nodes(st) {
			if st.mon["pub:"+itoa(i)] != "" {
				r[itoa(i)] = n
			}
		}
		return r
	}, func(st *State, i string) string {
		if st.mon["done:"+i] != "" {
			return phAfter
		}
		return phWait
	})
}

// static notes the accesses to batches of the functions reached from fn.
func (h *handing) static(fns map[*ssa.Function]bool, phase func(in ssa.Instruction) string) {
	for fn := range fns {
		for _, x := range h.a.byFn[fn] {
			f, ok := x.at.v.(*types.Var)
			if x.at.kind != "" || !ok || !h.batchField(f) || h.a.private(x) {
				continue
			}
			if p := phase(x.in); p != "" {
				h.note(p, f, false, x.write, x.in)
			}
		}
	}
}

func (h *handing) reachable(fn *ssa.Function) map[*ssa.Function]bool {
	return h.t.reach([]*ssa.Function{fn}, false, nil)
}

// handOver is the second half of the check.
func (r *raceCtx) handOver() {
	c := r.c
	m := newPModel(c, ruleSet("decided"))
	if m == nil {
		return
	}
	q := m.q
	h := &handing{c: c, t: r.t, a: r.a, m: m, seen: map[touchKey]ssa.Instruction{}, count: map[string]int{}}
	m.race = h
	for _, p := range []string{
		"MGet execute result0 finish",
		"MSet MSet execute result1 result0",
		"MSet MSet MSet MGet finish result3 result0 result2",
		"MGetFast MSet result0 release0 MDel finish result1 result2",
		"MSet execute MSet execute MGet result0 result1 result2 finish",
	} {
		m.program(p)
	}
	kinds, depth := []string{"MSet", "MGet"}, 3
	if c.tier == "thorough" {
		depth = 5
	}
	m.explore(kinds, depth)
	c.finish(m.e, m.newPipe)
	m.race = nil

	h.publishing()

	// the sender
	taken := func(st *State) map[string]*Term {
		r := map[string]*Term{}
		for i := 0; ; i++ {
			n := st.ghost["node:cmd"+itoa(i)]
			if n == nil {
				return r
			}
			r[itoa(i)] = n
		}
	}
	takes := m.driveSender(func(e *Engine, hk Hooks) Hooks {
		old := hk.Call
		hk.Call = func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			if ci.Callee == q.push {
				for i := range taken(st) {
					st.mon["ring:"+i] = "1"
				}
			}
			return old(e, st, ci)
		}
		return h.follow(hk, taken, func(st *State, i string) string {
			if st.mon["ring:"+i] != "" {
				return phSendB
			}
			return phSendA
		})
	}, func(*State, ssa.Instruction, string) {}, func(*State, ssa.Instruction, *Term, string) {})
	h.static(h.reachable(q.readCommands), func(ssa.Instruction) string { return phSendA })
	h.static(h.reachable(q.push), func(in ssa.Instruction) string {
		if len(r.t.held[in]) > 0 {
			return phSendA // still under the lock that the receiver takes to get the batch
		}
		return phSendB
	})

	// the receiver
	_, rs := q.started(c.engine(Hooks{}))
	for _, x := range rs {
		h.static(h.reachable(x.ci.Callee), func(ssa.Instruction) string { return phRecv })
	}
	completed := h.receiver(rs)

	pairs := [][2]string{{phSendA, phWait}, {phSendB, phWait}, {phRecv, phWait}, {phSendB, phRecv}, {phSendB, phAfter}}
	bad := map[string]bool{}
	for k, in := range h.seen {
		for k2, in2 := range h.seen {
			if k.field != k2.field || !k.write && !k2.write {
				continue
			}
			for _, p := range pairs {
				if k.phase == p[0] && k2.phase == p[1] {
					id := k.field + p[0] + p[1]
					if bad[id] {
						continue
					}
					bad[id] = true
					c.ob("hand-over", in, false, "%s of a batch is %s here by %s, and %s by %s at %s", k.field, rwText(k.write), k.phase, rwText(k2.write), k2.phase, c.p.pos(in2))
				}
			}
		}
		c.ob("hand-over", in, true, "%s of a batch is %s by %s", k.field, rwText(k.write), k.phase)
	}
	var parts []string
	for p, n := range h.count {
		parts = append(parts, p+": "+itoa(n)+" accesses")
	}
	sort.Strings(parts)
	c.summary["handed_over"] = parts
	c.obFn("hand-over", q.publish, takes > 0 && completed > 0 && h.count[phSendB] > 0 && h.count[phAfter] > 0 && h.count[phRecv] > 0, "batches are followed from the pipeline to the sender (%d) and the receiver (%d completions) and back", takes, completed)
}

func rwText(w bool) string {
	if w {
		return "written"
	}
	return "read"
}

// publishing: what publish does with a batch once the sender has it.
func (h *handing) publishing() {
	c, m, q := h.c, h.m, h.m.q
	e := c.engine(Hooks{})
	e.Partition = (&pmodel{q: q}).partition
	nodes := func(st *State) map[string]*Term {
		return map[string]*Term{"first": st.ghost["node:first"], "second": st.ghost["node:second"]}
	}
	e.h = h.follow(Hooks{Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		if ci.Callee != q.sendPush {
			return nil, false
		}
		s := st.clone()
		st.mon["taken"] = "1"
		return []CallOut{{st, boolT(false)}, {s, boolT(true)}}, true
	}}, nodes, func(st *State, i string) string {
		if st.mon["taken"] != "" {
			return phWait
		}
		return ""
	})
	st := newState()
	a, b := m.command(e, st, "first", 1), m.command(e, st, "second", 1)
	st.heap[faT(a, q.siblingF)] = b
	snd := freshSym(q.publish.Params[0].Type(), "sender")
	st.facts[eqT(snd, nilT())] = false
	e.Run(st, q.publish, []*Term{snd, a}, nil)
	c.finish(e, q.publish)
	h.static(h.reachable(q.sendPush), func(in ssa.Instruction) string {
		if len(h.t.held[in]) > 0 {
			return ""
		}
		return phWaitUnlocked(in)
	})
}

// phWaitUnlocked: accesses of the function that hands a batch over, outside its lock, count only when
// the lock was held before.
func phWaitUnlocked(in ssa.Instruction) string {
	locked := false
	eachInstr(in.Parent(), func(x ssa.Instruction) {
		if ci, ok := x.(ssa.CallInstruction); ok {
			if op, _ := lockOp(ci.Common()); op == 1 || op == 2 {
				locked = locked || pathTo(x, in, nil)
			}
		}
	})
	if locked {
		return phWait
	}
	return ""
}

// receiver: nothing of a batch is touched once it is completed.
func (h *handing) receiver(rs []goRoot) (completed int) {
	c, q := h.c, h.m.q
	rdT := c.p.typ("memcache", "responseReader")
	for _, r := range rs {
		e := c.engine(Hooks{})
		q.asGoroutine(e, r)
		vol := e.Volatile
		e.Volatile = func(f *types.Var) bool { return vol(f) && ownerType(c, f) != q.cmdT }
		sent := func(st *State, n *Term) bool { return n != nil && st.ghost["gone"] == n }
		touch := func(st *State, in ssa.Instruction, addr *Term, what string) {
			if addr.op == OFA && h.batchField(addr.aux.(*types.Var)) {
				e.Oblige(st, "hand-over", in, !sent(st, addr.args[0]), "%s of a batch is not %s after the batch was completed", addr.aux.(*types.Var).Name(), what)
			}
		}
		isReader := func(fn *ssa.Function) bool {
			return fn != nil && fn.Signature.Recv() != nil && rdT != nil && derefType(fn.Signature.Recv().Type()) == types.Type(rdT)
		}
		touchesBatch := map[*ssa.Function]int{}
		uses := func(fn *ssa.Function) bool {
			v, ok := touchesBatch[fn]
			if !ok {
				for g := range h.reachable(fn) {
					for _, x := range h.a.byFn[g] {
						if f, isF := x.at.v.(*types.Var); isF && x.at.kind == "" && h.batchField(f) {
							v = 1
						}
					}
				}
				touchesBatch[fn] = v
			}
			return v == 1
		}
		e.h = Hooks{
			Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
				touch(st, in, addr, "read")
				if addr.op == OIA && q.isCmdPtr(derefType(addr.typ)) {
					if _, ok := st.heap[addr]; !ok {
						for a, v := range st.heap {
							if a.op == OIA && a.args[0] == addr.args[0] && st.zone.eq(a.args[1], addr.args[1]) {
								st.heap[addr] = v
								return
							}
						}
						x := freshSym(derefType(addr.typ), "cmd")
						st.facts[eqT(x, nilT())] = false
						st.heap[addr] = x
					}
				}
			},
			Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) { touch(st, in, addr, "written") },
			Send: func(e *Engine, st *State, in ssa.Instruction, ch, val *Term) {
				if !isChanOf(ch.typ, isErrorType) {
					return
				}
				completed++
				for a, v := range st.heap {
					if v == ch && a.op == OFA && a.aux == q.chF {
						e.Oblige(st, "hand-over", in, !sent(st, a.args[0]), "a batch is completed once")
						st.ghost["gone"] = a.args[0]
						return
					}
				}
			},
			Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
				fn := ci.Callee
				if fn == nil {
					return nil, false
				}
				if fn == q.read {
					st.ghost["gone"] = nilT()
					if l := ci.Args[1]; l.op == OSlice {
						for a := range st.heap {
							if a.op == OIA && a.args[0] == l.args[0] {
								delete(st.heap, a)
							}
						}
					}
					return nil, false
				}
				if isReader(fn) {
					// the reader works on the batch it was given
					for _, a := range ci.Args[1:] {
						if q.isCmdPtr(a.typ) {
							st.ghost["current"] = a
						}
					}
					if uses(fn) {
						e.Oblige(st, "hand-over", ci.Site, !sent(st, st.ghost["current"]), "responses are not put into a batch after it was completed")
					}
					e.havocEffects(st, c.p.effects(fn))
					return one(st, e.resultOf(st, ci)), true
				}
				if isFailConnFn(fn) {
					v := e.resultOf(st, ci)
					if isErrorType(v.typ) {
						st.facts[eqT(v, nilT())] = false
					}
					return one(st, v), true
				}
				return nil, false
			},
		}
		memo := map[*ssa.Function]bool{}
		rel := func(fn *ssa.Function) bool {
			if isReader(fn) || fn == q.read || c.p.effects(fn).funcs[q.read] || q.touchesList(fn) || uses(fn) {
				return true
			}
			return mentions(c, memo, fn, func(in ssa.Instruction) bool {
				switch x := in.(type) {
				case *ssa.Send:
					return isChanOf(x.Chan.Type(), isErrorType)
				case ssa.CallInstruction:
					f := x.Common().StaticCallee()
					return f != nil && (isReader(f) || isFailConnFn(f))
				}
				return false
			})
		}
		e.Opaque = func(fn *ssa.Function) bool { return !rel(fn) }
		r.st.ghost["gone"], r.st.ghost["current"] = nilT(), nilT()
		e.spawn(r.st, r.ci)
		c.finish(e, r.ci.Callee)
	}
	return
}
