package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C16", min: 15,
		rule: "Client programs are interpreted on the pipeline code, and the sending goroutine is interpreted from taking one or two commands to taking the next, with all outcomes of writes. Each place where memory goes to a pool is an event on the memory itself: it has to be memory that this goroutine may give up at this moment (responses of a batch that was completed and decoded, requests that the sender took and wrote, memory that was taken from a pool and never handed over), it goes there once, is not read, written or handed on afterwards, and no field of a batch still holds it. " +
			"Requests that are handed over hold memory of the client's pools only, no buffer twice, and the caller's memory is never written. The goroutine that receives puts nothing into pools that it did not just take from one. Decoders' results share no memory with the buffer they are decoded from. Every place that puts memory into a pool is met.",
		not: "What the caller does with released results and values; a value that is not recycled at all (a leak) is no violation.",
		run: runC16,
	})
}

// recycler follows memory that is put into pools.
type recycler struct {
	c     *Ctx
	e     *Engine
	rules map[string]bool
	sites map[ssa.Instruction]bool
	// what links objects of their own
	sibling *types.Var
	// may says why base must not be put into a pool now, or nothing
	may  func(st *State, base *Term) string
	puts int
	// one follows a single piece of memory, ghost "value", of changing names
	one bool
}

func newRecycler(c *Ctx) *recycler {
	return &recycler{c: c, sites: map[ssa.Instruction]bool{}}
}

func (r *recycler) ob(st *State, rule string, in ssa.Instruction, ok bool, format string, a ...any) {
	r.e.Oblige(st, rule, in, ok, format, a...)
}

// wrapper: fn puts the memory of its last argument, a slice, into a pool and does nothing else to the state.
func (r *recycler) wrapper(fn *ssa.Function) bool {
	if fn == nil || !r.c.p.inRepo(fn) || fn.Signature.Results().Len() != 0 {
		return false
	}
	n := fn.Signature.Params().Len()
	if n == 0 || !r.c.p.effects(fn).calls["(*sync.Pool).Put"] {
		return false
	}
	if _, ok := fn.Signature.Params().At(n - 1).Type().Underlying().(*types.Slice); !ok {
		return false
	}
	return r.only(fn)
}

// only: fn changes no field of an object and calls only functions that put memory into pools.
func (r *recycler) only(fn *ssa.Function) bool {
	for k := range r.c.p.effects(fn).writes {
		if f, ok := k.(*types.Var); ok && f.IsField() {
			return false
		}
	}
	return true
}

// baseOf: the memory v refers to.
func baseOf(v *Term) *Term {
	for v != nil && v.op == OIface && len(v.args) > 0 {
		v = v.args[len(v.args)-1]
	}
	if v == nil {
		return nil
	}
	switch v.op {
	case OSlice:
		return baseOf(v.args[0])
	case OIA:
		return v.args[0]
	}
	return v
}

// root: memory that append may have kept.
func (r *recycler) root(st *State, b *Term) *Term {
	for i := 0; b != nil && i < 64; i++ {
		x := st.ghost["grown:"+b.String()]
		if x == nil {
			break
		}
		b = x
	}
	return b
}

// put: the memory of v goes to a pool.
func (r *recycler) put(st *State, in ssa.Instruction, v *Term) {
	r.puts++
	r.sites[in] = true
	b := r.root(st, baseOf(v))
	if b == nil || b.isNilTerm() {
		return
	}
	if v.op == OSlice && r.e.isNil(st, v) {
		return
	}
	if r.one {
		v := st.ghost["value"]
		ok := v != nil && same(r.e, st, v, b)
		r.ob(st, "recycle-once", in, !ok || st.mon["value"] != "put", "memory is put into a pool once (%v)", b)
		r.ob(st, "recycle-owned", in, ok && st.mon["value"] != "", "memory that the goroutine that receives puts into a pool is a value that was begun and not given to a command (%v)", b)
		st.mon["value"] = "put"
		return
	}
	r.ob(st, "recycle-once", in, st.mon["put:"+b.String()] == "", "memory is put into a pool once (%v)", v)
	why := r.may(st, b)
	r.ob(st, "recycle-owned", in, why == "", "memory that is put into a pool %s (%v)", why, v)
	st.mon["put:"+b.String()] = "1"
}

// used: the address or slice lies in memory that was put into a pool.
func (r *recycler) used(st *State, v *Term) bool {
	for v != nil {
		v = r.root(st, v)
		if r.one && st.mon["value"] == "put" && v == st.ghost["value"] {
			return true
		}
		if st.mon["put:"+v.String()] != "" {
			return true
		}
		switch v.op {
		case OFA, OIA, OSlice:
			v = v.args[0]
		case OIface:
			v = v.args[len(v.args)-1]
		default:
			return false
		}
	}
	return false
}

func anyPut(st *State) bool {
	for k := range st.mon {
		if strings.HasPrefix(k, "put:") {
			return true
		}
	}
	return st.mon["value"] == "put"
}

func (r *recycler) access(st *State, in ssa.Instruction, v *Term, what string) {
	if anyPut(st) {
		r.ob(st, "recycle-unused", in, !r.used(st, v), "memory that was put into a pool is not %s (%v)", what, v)
	}
}

// wrap adds the events to hooks.
func (r *recycler) wrap(h Hooks) Hooks {
	old := h
	h.Load = func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
		r.access(st, in, addr, "read")
		if old.Load != nil {
			old.Load(e, st, in, addr)
		}
	}
	h.Store = func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
		r.access(st, in, addr, "written")
		r.callers(st, in, addr)
		if old.Store != nil {
			old.Store(e, st, in, addr, val)
		}
	}
	h.Append = func(e *Engine, st *State, in ssa.Instruction, base, add, res *Term) {
		if !r.one && base.op == OSlice && res.op == OSlice && base.args[0] != res.args[0] && !base.args[0].isNilTerm() {
			st.ghost["grown:"+res.args[0].String()] = base.args[0]
		}
		if old.Append != nil {
			old.Append(e, st, in, base, add, res)
		}
	}
	h.Call = func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		if ci.Name == "(*sync.Pool).Put" && ci.Kind != "go" {
			r.put(st, ci.Site, ci.Args[len(ci.Args)-1])
			return one(st, tupleT()), true
		}
		if r.wrapper(ci.Callee) && ci.Kind != "go" {
			r.put(st, ci.Site, ci.Args[len(ci.Args)-1])
			return one(st, tupleT()), true
		}
		name := strings.TrimPrefix(ci.Name, "builtin:")
		switch {
		case name == "copy" || name == "append":
			r.access(st, ci.Site, ci.Args[0], "written")
			r.callers(st, ci.Site, ci.Args[0])
			for _, a := range ci.Args[1:] {
				r.access(st, ci.Site, a, "read")
			}
		case ci.Callee == nil && name == ci.Name || ci.Callee != nil && !r.c.p.inRepo(ci.Callee) || ci.Kind == "go" || ci.Callee != nil && isDecoder(ci.Callee):
			for _, a := range ci.Args {
				r.access(st, ci.Site, a, "handed to others")
			}
		}
		if old.Call != nil {
			return old.Call(e, st, ci)
		}
		return nil, false
	}
	return h
}

// callers: the address lies in memory the caller supplied.
func (r *recycler) callers(st *State, in ssa.Instruction, addr *Term) {
	for v := addr; v != nil; {
		if st.mon["caller:"+v.String()] != "" {
			r.ob(st, "caller-memory", in, false, "memory that the caller supplied is not written (%v)", addr)
			return
		}
		switch v.op {
		case OFA, OIA, OSlice:
			v = v.args[0]
		default:
			return
		}
	}
}

// dropped: no field of the object holds memory that was put into a pool.
func (r *recycler) dropped(st *State, in ssa.Instruction, obj *Term, when string) {
	objs := map[*Term]bool{obj: true}
	for more := true; more; {
		more = false
		for a, v := range st.heap {
			if a.op == OFA && objs[a.args[0]] && v.op == OAlloc && !objs[v] && a.aux != r.sibling {
				objs[v] = true
				more = true
			}
		}
	}
	for a, v := range st.heap {
		if a.op == OFA && objs[a.args[0]] && r.used(st, v) {
			r.ob(st, "recycle-dropped", in, false, "%s holds memory that was put into a pool, when %s", a.aux.(*types.Var).Name(), when)
			return
		}
	}
	if anyPut(st) {
		r.ob(st, "recycle-dropped", in, true, "no field of a batch holds memory that was put into a pool, when %s", when)
	}
}

func runC16(c *Ctx) {
	r := newRecycler(c)
	m := newPModel(c, ruleSet("recycle", "no-panic", "decided"))
	if m == nil {
		return
	}
	m.recycle = r
	r.sibling = m.q.siblingF
	for _, p := range []string{
		"MGet result0 result0",
		"MGetFast execute result0 result0 release0 MGet finish result1",
		"MGetFast MGetFast result0 release0 result1 release1 finish",
		"MGetFast MSet finish result0 release0 result1 result1",
		"MSet MSet execute result1 result0 result0",
		"MSet MSet MSet MGet finish result3 result0 result2",
		"MDel finish result0 FlushAll Version result2 result1",
		"MSet execute MSet execute MGet result0 result1 result2 finish",
	} {
		m.program(p)
	}
	kinds := [][]string{{"MSet", "MGet"}}
	depth := 4
	if c.tier == "thorough" {
		kinds = [][]string{{"MSet", "MGet", "MDel"}, {"MGetFast", "MSet", "Version"}}
	}
	for _, k := range kinds {
		m.explore(k, depth)
		c.finish(m.e, m.newPipe)
	}
	c.obFn("anchor", m.newPipe, r.puts > 0, "the pipeline recycles memory (%d events)", r.puts)
	m.recycleSender(r)
	m.recyclePublish(r)
	m.recycleReceiver(r)
	m.decodedMemory()
	m.recycleSites(r)
}

// ---- the pipeline

// recycling adds the events to the hooks of the model.
func (m *pmodel) recycling() {
	r, q := m.recycle, m.q
	r.e = m.e
	r.may = func(st *State, b *Term) string {
		for i := range m.nodes(st) {
			n := itoa(i)
			for _, f := range []*types.Var{m.rdF, m.rbF} {
				if v := st.ghost[f.Name()+":"+n]; v != nil && r.root(st, baseOf(v)) == b {
					if !m.settled(st, n) {
						return "was decoded before"
					}
					return ""
				}
			}
		}
		switch {
		case st.mon["sentmem:"+b.String()] != "":
			return "is not that of a request which the sender has"
		case st.mon["caller:"+b.String()] != "":
			return "is not the caller's"
		case st.mon["pooled:"+b.String()] != "":
			return ""
		}
		return "is known to belong to nobody else (undecided)"
	}
	base := m.e.h
	inner := base.Call
	base.Call = func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		if ci.Callee == q.publish {
			m.handOver(st, ci)
		}
		outs, ok := inner(e, st, ci)
		if ok && ci.Callee != nil {
			for _, o := range outs {
				if o.Res == nil {
					continue
				}
				switch {
				case ci.Callee == m.newCmd:
					for _, f := range []*types.Var{m.reqF, m.rdF} {
						o.St.mon["pooled:"+baseOf(o.St.heap[faT(o.Res, f)]).String()] = "1"
					}
				case o.Res.op == OSlice && r.c.p.effects(ci.Callee).calls["(*sync.Pool).Get"]:
					o.St.mon["pooled:"+o.Res.args[0].String()] = "1"
				case o.Res.op == OAlloc && r.c.p.effects(ci.Callee).calls["(*sync.Pool).Get"]:
					o.St.mon["pooled:"+o.Res.String()] = "1"
				}
			}
		}
		return outs, ok
	}
	m.e.h = r.wrap(base)
	// values that are returned are the caller's from then on, and results are used by the caller
}

// handOver: what is published is the client's own memory, each buffer once.
func (m *pmodel) handOver(st *State, ci *CallInfo) {
	e, r := m.e, m.recycle
	ns, ok := m.chain(st, ci.Args[1])
	if !ok {
		return
	}
	sent := func(v *Term) {
		b := r.root(st, baseOf(v))
		if b == nil || b.isNilTerm() || e.isNil(st, v) {
			return
		}
		k := b.String()
		r.ob(st, "request-own", ci.Site, st.mon["caller:"+k] == "", "a request that is handed over does not hold the caller's memory, which the sender would recycle")
		r.ob(st, "request-own", ci.Site, st.mon["sentmem:"+k] == "", "the requests that are handed over hold no buffer twice")
		r.ob(st, "request-own", ci.Site, st.mon["put:"+k] == "", "a request that is handed over holds no memory that was put into a pool")
		st.mon["sentmem:"+k] = "1"
	}
	for _, i := range ns {
		n := st.ghost["node:"+i]
		sent(e.load(st, faT(n, m.reqF), m.reqF.Type()))
		k := 0
		for x := e.load(st, faT(n, m.entF), m.entF.Type()); x.op == OAlloc && k < 16; x = e.load(st, faT(x, m.nextF), m.nextF.Type()) {
			for _, f := range structFields(derefType(m.entF.Type()).(*types.Named)) {
				if sl, ok := f.Type().Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
					sent(e.load(st, faT(x, f), f.Type()))
				}
			}
			k++
		}
	}
}

// stepEnd: after each step of a program no batch holds memory that was put into a pool.
func (m *pmodel) stepEnd(st *State, in ssa.Instruction) {
	for _, n := range m.nodes(st) {
		m.recycle.dropped(st, in, n, "a call of the pipeline returns")
	}
}

// givenOut: the values of an answer that is returned belong to the caller.
func (m *pmodel) givenOut(st *State, in ssa.Instruction, res []*Term) {
	for _, v := range res {
		m.recycle.ob(st, "result-memory", in, !m.holdsPut(st, v, 0), "a result does not refer to memory that was put into a pool")
	}
}

func (m *pmodel) holdsPut(st *State, v *Term, depth int) bool {
	if v == nil || depth > 4 {
		return false
	}
	if m.recycle.used(st, v) {
		return true
	}
	if v.op == OStruct || v.op == OTuple {
		for _, a := range v.args {
			if m.holdsPut(st, a, depth+1) {
				return true
			}
		}
	}
	return false
}

// release: the caller gives an MGetResult back.
func (m *pmodel) release(st *State, i int) (next []*State) {
	f := st.ghost["res:"+itoa(i)]
	fn := m.c.fn("memcache.ReleaseMGetResult")
	if f == nil || fn == nil {
		return nil
	}
	for _, o := range m.outs(m.e.Run(st, fn, []*Term{f}, nil), fn) {
		next = append(next, o.St)
	}
	return
}

// ---- the sending goroutine

// command makes a command that holds a request, with values or without.
func (m *pmodel) command(e *Engine, st *State, name string, values int) *Term {
	n := m.q.node(e, st, name)
	buf := func(l string) *Term {
		b := e.newValue(st, types.NewPointer(types.Typ[types.Byte]), l)
		st.facts[eqT(b, nilT())] = false
		ln, cp := e.newValue(st, types.Typ[types.Int], "len"), e.newValue(st, types.Typ[types.Int], "cap")
		st.zone.assumeLe(intT(1), ln, 0)
		st.zone.assumeLe(ln, cp, 0)
		st.zone.assumeLe(cp, intT(maxLen), 0)
		st.mon["reqmem:"+b.String()] = name
		return sliceT(m.reqF.Type(), b, intT(0), ln, cp)
	}
	st.heap[faT(n, m.reqF)] = buf("request")
	st.heap[faT(n, m.entF)] = nilT()
	for i := 0; i < values; i++ {
		t := derefType(m.entF.Type()).(*types.Named)
		x := freshAlloc(types.NewPointer(t), "value")
		e.zeroInit(st, x, t)
		for _, f := range structFields(t) {
			switch {
			case f == m.nextF:
				st.heap[faT(x, f)] = st.heap[faT(n, m.entF)]
			case isIntegerType(f.Type()):
				st.heap[faT(x, f)] = e.newValue(st, f.Type(), f.Name())
			default:
				if sl, ok := f.Type().Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
					st.heap[faT(x, f)] = buf("value")
				}
			}
		}
		st.heap[faT(n, m.entF)] = x
	}
	return n
}

func (m *pmodel) recycleSender(r *recycler) {
	before := r.puts
	r.may = func(st *State, b *Term) string {
		if st.mon["reqmem:"+b.String()] == "" {
			return "is that of a request the sender took, and nothing else"
		}
		return ""
	}
	takes := m.driveSender(func(e *Engine, h Hooks) Hooks {
		r.e = e
		return r.wrap(h)
	}, func(st *State, in ssa.Instruction, when string) {
		for i := 0; ; i++ {
			n := st.ghost["node:cmd"+itoa(i)]
			if n == nil {
				return
			}
			r.dropped(st, in, n, when)
		}
	}, r.access)
	m.c.obFn("anchor", m.q.readCommands, takes > 0 && r.puts > before, "the sender takes commands (%d) and recycles their requests (%d events)", takes, r.puts-before)
}

// driveSender interprets the sending goroutine from taking commands to taking the next ones.
func (m *pmodel) driveSender(wrap func(*Engine, Hooks) Hooks, ended func(st *State, in ssa.Instruction, when string), access func(st *State, in ssa.Instruction, v *Term, what string)) (takes int) {
	c, q := m.c, m.q
	e0 := c.engine(Hooks{})
	ss, _ := q.started(e0)
	for _, root := range ss {
		e := c.engine(Hooks{})
		q.asGoroutine(e, root)
		vol := e.Volatile
		e.Volatile = func(f *types.Var) bool {
			o := ownerType(c, f)
			return vol(f) && o != q.cmdT && o != derefType(m.entF.Type())
		}
		e.Partition = (&pmodel{q: q}).partition
		e.h = wrap(e, Hooks{
			Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
				switch ci.Callee {
				case q.readCommands:
					takes++
					ended(st, ci.Site, "the next commands are taken")
					var outs []CallOut
					shapes := [][]int{{}, {1}, {0, 2}}
					if st.mon["takes"] != "" {
						shapes = [][]int{{1}}
					}
					if len(st.mon["takes"]) >= 2 {
						return []CallOut{}, true
					}
					from := len(splitList(st.mon["cmds"]))
					for _, sh := range shapes {
						s := st.clone()
						s.mon["takes"] += "1"
						b := freshAlloc(types.NewPointer(types.NewPointer(q.cmdT)), "batch")
						for i, v := range sh {
							n := m.command(e, s, "cmd"+itoa(from+i), v)
							monAdd(s, "cmds", itoa(from+i))
							s.heap[iaT(types.NewPointer(q.cmdT), b, intT(int64(i)))] = n
						}
						k := intT(int64(len(sh)))
						l := sliceT(q.readCommands.Signature.Results().At(0).Type(), b, intT(0), k, intT(int64(len(sh)+4)))
						s2 := s.clone()
						outs = append(outs, CallOut{s, tupleT(l, boolT(len(s.mon["takes"]) == 2))})
						if len(s2.mon["takes"]) == 1 {
							outs = append(outs, CallOut{s2, tupleT(l, boolT(true))})
						}
					}
					return outs, true
				case q.push:
					st.mon["pushed"] = "1"
					res := q.push.Signature.Results()
					var rs []*Term
					for i := 0; i < res.Len(); i++ {
						if isBoolType(res.At(i).Type()) {
							rs = append(rs, boolT(false))
						} else {
							rs = append(rs, e.zero(res.At(i).Type()))
						}
					}
					return one(st, tupleT(rs...)), true
				case q.closeBuffer:
					return one(st, tupleT()), true
				}
				if isFailConnFn(ci.Callee) {
					v := e.resultOf(st, ci)
					if isErrorType(v.typ) {
						st.facts[eqT(v, nilT())] = false
					}
					return one(st, v), true
				}
				if strings.HasSuffix(ci.Name, ".Flush") || strings.HasSuffix(ci.Name, ".Write") {
					for _, a := range ci.Args {
						access(st, ci.Site, a, "handed to others")
					}
					return okErr(e, st, ci, func(*State) {}, func(*State) {}), true
				}
				return nil, false
			},
		})
		for _, o := range e.spawn(root.st, root.ci) {
			if !o.Panic {
				ended(o.St, o.Instr, "the goroutine ends")
			}
		}
		c.finish(e, root.ci.Callee)
	}
	return
}

// recyclePublish: a request that was handed to the sender is not recycled by the one who did.
func (m *pmodel) recyclePublish(r *recycler) {
	c, q := m.c, m.q
	e := c.engine(Hooks{})
	r.e = e
	e.Partition = (&pmodel{q: q}).partition
	r.may = func(st *State, b *Term) string {
		if st.mon["reqmem:"+b.String()] == "" {
			return "is that of a request"
		}
		if st.mon["refused"] == "" {
			return "is not that of a request which the sender has"
		}
		return ""
	}
	e.h = r.wrap(Hooks{Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		if ci.Callee != q.sendPush {
			return nil, false
		}
		s := st.clone()
		s.mon["refused"] = "1"
		return []CallOut{{st, boolT(false)}, {s, boolT(true)}}, true
	}})
	st := newState()
	a, b := m.command(e, st, "first", 1), m.command(e, st, "second", 1)
	st.heap[faT(a, q.siblingF)] = b
	snd := freshSym(q.publish.Params[0].Type(), "sender")
	st.facts[eqT(snd, nilT())] = false
	for _, o := range e.Run(st, q.publish, []*Term{snd, a}, nil) {
		if o.Panic {
			continue
		}
		r.ob(o.St, "publish-keeps", o.Instr, true, "publish recycles nothing the sender has")
		r.dropped(o.St, o.Instr, a, "publish returns")
		r.dropped(o.St, o.Instr, b, "publish returns")
	}
	c.finish(e, q.publish)
}

// ---- the receiving goroutine

func (m *pmodel) recycleReceiver(r *recycler) {
	c, q := m.c, m.q
	ss, rs := q.started(c.engine(Hooks{}))
	reach := func(roots []goRoot) map[*ssa.Function]bool {
		fns := map[*ssa.Function]bool{}
		for _, x := range roots {
			fns[x.ci.Callee] = true
			for f := range c.p.effects(x.ci.Callee).funcs {
				fns[f] = true
			}
		}
		return fns
	}
	touch := func(rule string, fns map[*ssa.Function]bool, who string, fields ...*types.Var) {
		n := 0
		for fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					f := fieldOf2(in)
					for _, x := range fields {
						if f == x {
							n++
							c.ob(rule, in, false, "%s touches %s of a command, which another goroutine may have put into a pool", who, f.Name())
						}
					}
				}
			}
		}
		c.obFn(rule, q.read, n == 0, "%s touches none of the fields of a command whose memory other goroutines put into pools (%d functions)", who, len(fns))
	}
	recv := reach(rs)
	touch("other-half", recv, "the goroutine that receives", m.reqF, m.entF)
	touch("other-half", reach(ss), "the goroutine that sends", m.rdF, m.rbF)
	// what it puts into pools
	var putting []*ssa.Function
	for fn := range recv {
		if c.p.effects(fn).calls["(*sync.Pool).Put"] && !r.wrapper(fn) {
			putting = append(putting, fn)
		}
	}
	c.obFn("receiver-keeps", q.read, true, "%d of the functions of the goroutine that receives put memory into pools", len(putting))
	if len(putting) == 0 {
		return
	}
	drive := c.harness("memcache.verifDriveReader")
	rdT := c.p.typ("memcache", "responseReader")
	if drive == nil || rdT == nil {
		return
	}
	e := c.engine(Hooks{})
	r.e = e
	e.Partition = c.p.enumPartition
	e.MergeAt = 1
	r.one = true
	h := r.wrap(Hooks{
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			if fn := ci.Callee; fn != nil && c.p.inRepo(fn) && c.p.effects(fn).calls["(*sync.Pool).Get"] && fn.Signature.Results().Len() == 1 && r.only(fn) {
				if sl, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
					b := e.newValue(st, types.NewPointer(sl.Elem()), "value")
					st.facts[eqT(b, nilT())] = false
					ln := ci.Args[len(ci.Args)-1]
					cp := e.newValue(st, types.Typ[types.Int], "cap")
					st.zone.assumeLe(ln, cp, 0)
					st.ghost["value"], st.mon["value"] = b, "open"
					return one(st, sliceT(fn.Signature.Results().At(0).Type(), b, intT(0), ln, cp)), true
				}
			}
			return nil, false
		},
		Append: func(e *Engine, st *State, in ssa.Instruction, base, add, res *Term) {
			if res.op == OSlice && isBytesSlice(res.typ) {
				if st.mon["value"] != "put" {
					delete(st.mon, "value")
				}
			}
		},
		Leave: func(e *Engine, st *State, fn *ssa.Function, args []*Term, out Outcome) {
			st = out.St
			if st.mon["value"] != "put" || fn.Signature.Recv() == nil || derefType(fn.Signature.Recv().Type()) != types.Type(rdT) || fn.Object() == nil {
				return
			}
			if f := st.frame; f != nil && f.parent != nil && f.parent.fn.Signature.Recv() != nil {
				return
			}
			for a, v := range st.heap {
				if a.op == OFA && r.used(st, v) && ownerType(c, a.aux.(*types.Var)) == rdT {
					r.ob(st, "recycle-dropped", fn.Blocks[0].Instrs[0], false, "the reader keeps a value that was put into a pool")
				}
			}
			delete(st.mon, "value")
		},
	})
	e.h = h
	e.RunFresh(drive, nil)
	r.one = false
	c.finish(e, drive)
}

func isBytesSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	s2, ok := s.Elem().Underlying().(*types.Slice)
	return ok && isByte(s2.Elem())
}

func fieldOf2(in ssa.Instruction) *types.Var {
	switch x := in.(type) {
	case *ssa.FieldAddr:
		return fieldOf(x)
	case *ssa.Field:
		if s, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return s.Field(x.Field)
		}
	}
	return nil
}

// ---- decoders

// decodedMemory: what a decoder returns does not refer to the buffer it decodes.
func (m *pmodel) decodedMemory() {
	c := m.c
	pt := c.p.typ("memcache", "parser")
	if pt == nil {
		return
	}
	for _, name := range parserEntries {
		fn := c.fn("memcache.(parser)." + name)
		if fn == nil {
			continue
		}
		e := c.engine(Hooks{})
		st := newState()
		ps := freshAlloc(types.NewPointer(pt), "parser")
		e.zeroInit(st, ps, pt)
		data, list := e.newValue(st, m.rdF.Type(), "data"), e.newValue(st, m.rbF.Type(), "values")
		ok := true
		for _, o := range e.Run(st, m.initParser, []*Term{ps, data, list}, nil) {
			if o.Panic {
				continue
			}
			o.St.frame = nil
			for _, o2 := range e.Run(o.St, fn, []*Term{ps}, nil) {
				if o2.Panic {
					continue
				}
				for _, v := range o2.Res {
					bad := refersTo(e, o2.St, v, baseOf(data), 0) || refersTo(e, o2.St, v, baseOf(list), 0)
					ok = ok && !bad
					e.Oblige(o2.St, "decoded-memory", o2.Instr, !bad, "what %s returns does not refer to the buffer it was decoded from, which is recycled", name)
				}
			}
		}
		c.finish(e, fn)
	}
}

// refersTo: the value is or holds a pointer or slice into base.
func refersTo(e *Engine, st *State, v, base *Term, depth int) bool {
	if v == nil || depth > 5 {
		return false
	}
	switch v.op {
	case OStruct, OTuple, OIface:
		for _, a := range v.args {
			if refersTo(e, st, a, base, depth+1) {
				return true
			}
		}
		return false
	case OSlice:
		return refersTo(e, st, v.args[0], base, depth+1)
	case OIA, OFA:
		return refersTo(e, st, v.args[0], base, depth+1)
	}
	if v == base {
		return true
	}
	if v.op == OApp && strings.HasPrefix(v.String(), "unsafe") {
		for _, a := range v.args {
			if refersTo(e, st, a, base, depth+1) {
				return true
			}
		}
	}
	return false
}

// ---- all places

// recycleSites: every place that puts memory into a pool was met.
func (m *pmodel) recycleSites(r *recycler) {
	c := m.c
	var fns []*ssa.Function
	fns = append(fns, c.p.funcs...)
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	n := 0
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						callers[f] = append(callers[f], fn)
					}
				}
			}
		}
	}
	// covered: fn is reached only through functions that put what they are given into a pool
	memo, taken := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range c.p.addrTaken {
		taken[f] = true
	}
	var covered func(fn *ssa.Function) bool
	covered = func(fn *ssa.Function) bool {
		if r.wrapper(fn) || releaseOf(c, fn) {
			return true
		}
		if v, ok := memo[fn]; ok {
			return v
		}
		memo[fn] = true
		ok := !taken[fn] && !(fn.Object() != nil && fn.Object().Exported())
		for _, f := range callers[fn] {
			ok = ok && covered(f)
		}
		memo[fn] = ok
		return ok
	}
	for _, fn := range fns {
		if c.p.inHarness(fn) || !c.p.inRepo(fn) || r.wrapper(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := ci.Common().StaticCallee()
				if f == nil || f.String() != "(*sync.Pool).Put" && !r.wrapper(f) {
					continue
				}
				n++
				c.ob("recycle-sites", in, r.sites[in] || covered(fn), "this place puts memory into a pool and is met by no program or goroutine that was interpreted (undecided)")
			}
		}
	}
	c.obFn("recycle-sites", m.newPipe, n > 0, "%d places put memory into pools", n)
}

// releaseOf: fn is exported and recycles what its caller gives it.
func releaseOf(c *Ctx, fn *ssa.Function) bool {
	return fn.Object() != nil && fn.Object().Exported() && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 1
}
