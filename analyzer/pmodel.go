package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pmodel interprets client programs: sequences of operations, Execute, Finish and result calls on one pipeline.
type pmodel struct {
	c     *Ctx
	q     *queueEnv
	e     *Engine
	rules map[string]bool

	rdF, rbF, reqF, entF, nextF *types.Var
	newPipe, execute, fin       *ssa.Function
	result                      *ssa.Function // MGetResult.Result
	initParser, initBuilder     *ssa.Function
	newCmd                      *ssa.Function
	ops                         map[string]*ssa.Function
	already                     *Term
	recycle                     *recycler // follows memory that is put into pools
	race                        *handing  // notes which fields are touched when
	paths, steps, programs      int
	depth                       int
}

// maxProgramOps: programs have at most this many operations.
const maxProgramOps = 4

type pstep struct {
	what string // op, execute, finish, result
	op   string
	i    int
}

func (s pstep) String() string {
	switch s.what {
	case "op":
		return s.op
	case "result", "release":
		return s.what + strconv.Itoa(s.i)
	}
	return s.what
}

func newPModel(c *Ctx, rules map[string]bool) *pmodel {
	q := newQueueEnv(c)
	if q == nil {
		return nil
	}
	m := &pmodel{c: c, q: q, rules: rules, ops: map[string]*ssa.Function{}}
	f := func(typ, name string) *types.Var {
		v := c.p.field("memcache", typ, name)
		if v == nil {
			c.obFn("anchor", nil, false, "%s has no field %s (undecided)", typ, name)
		}
		return v
	}
	m.rdF, m.rbF, m.reqF, m.entF = f("commandListData", "responseData"), f("commandListData", "responseBinaries"), f("commandListData", "requestData"), f("commandListData", "requestBinaries")
	m.nextF = f("requestBinaryEntry", "next")
	m.newPipe, m.execute, m.fin = c.fn("memcache.(Client).Pipeline"), c.fn("memcache.(Pipeline).Execute"), c.fn("memcache.(Pipeline).Finish")
	m.result = c.fn("memcache.(MGetResult).Result")
	m.initParser, m.initBuilder, m.newCmd = c.fn("memcache.initParser"), c.fn("memcache.initCmdBuilder"), c.fn("memcache.newCommand")
	if m.rdF == nil || m.rbF == nil || m.reqF == nil || m.entF == nil || m.nextF == nil || m.newPipe == nil || m.execute == nil || m.fin == nil || m.result == nil || m.initParser == nil || m.initBuilder == nil || m.newCmd == nil {
		return nil
	}
	for _, op := range pipelineOps(c) {
		m.ops[op.Name()] = op
	}
	for n := range opSpecs {
		if m.ops[n] == nil {
			c.obFn("anchor", nil, false, "operation %s not found (undecided)", n)
			return nil
		}
	}
	g := c.p.global("memcache", "ErrAlreadyGotten")
	if g == nil {
		c.obFn("anchor", nil, false, "ErrAlreadyGotten not found (undecided)")
		return nil
	}
	m.already = mk(OGlobal, g.Type(), g)
	return m
}

func (m *pmodel) ob(st *State, rule string, in ssa.Instruction, ok bool, format string, a ...any) {
	if m.rules[rule] {
		m.e.Oblige(st, rule, in, ok, format, a...)
	}
}

// nodes in the order they were made.
func (m *pmodel) nodes(st *State) (r []*Term) {
	for i := 0; ; i++ {
		n := st.ghost["node:"+strconv.Itoa(i)]
		if n == nil {
			return
		}
		r = append(r, n)
	}
}

func (m *pmodel) nodeIndex(st *State, n *Term) string {
	for i, x := range m.nodes(st) {
		if x == n {
			return strconv.Itoa(i)
		}
	}
	return ""
}

func itoa(i int) string { return strconv.Itoa(i) }

func splitList(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

func (m *pmodel) partition(st *State) string {
	var ks []string
	lit := func(v *Term) bool {
		switch v.op {
		case OInt, ONil, OAlloc:
			return true
		case OFA:
			return rootObj(v).op == OAlloc
		}
		return false
	}
	for f := st.frame; f != nil; f = f.parent {
		for x, v := range f.env {
			if _, isPhi := x.(*ssa.Phi); !isPhi || v == nil {
				continue
			}
			if k, isC := v.isConstInt(); isC && k > maxProgramOps {
				continue
			}
			if lit(v) {
				ks = append(ks, f.fn.Name()+"."+x.Name()+"="+v.String())
			} else if v.op == OSlice {
				if n, ok := v.args[2].isConstInt(); ok {
					ks = append(ks, f.fn.Name()+"."+x.Name()+"="+v.args[1].String()+":"+strconv.FormatInt(n, 10))
				}
			}
		}
	}
	for a, v := range st.heap {
		if t := derefType(a.typ); t != nil && m.q.isCmdPtr(t) && lit(v) {
			ks = append(ks, a.String()+"="+v.String())
		}
		if a.op == OFA && a.aux == m.q.countF && v.op == OInt {
			ks = append(ks, a.String()+"="+v.String())
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (m *pmodel) hooks() {
	c, q := m.c, m.q
	e := c.engine(Hooks{})
	m.e = e
	e.Partition = m.partition
	validate := c.p.fn("memcache.validateKeyFormat")
	srvT, brkT, cliT := c.p.typ("memcache", "ErrServerError"), c.p.typ("memcache", "ErrBrokenPipe"), c.p.typ("memcache", "ErrClientError")
	e.Merge = func(fn *ssa.Function) bool {
		eff := c.p.effects(fn)
		return fn.Signature.Results().Len() == 0 && !eff.calls["recv"] && !eff.funcs[q.publish] && !eff.funcs[m.initParser] && !eff.funcs[m.newCmd]
	}
	e.h = Hooks{
		Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
			if _, ok := st.heap[addr]; ok {
				return
			}
			switch addr.op {
			case OGlobal:
				// errors of the package are set when it is initialised
				if g := addr.aux.(*ssa.Global); isErrorType(derefType(g.Type())) && c.p.initOnly(g) {
					v := appT(derefType(g.Type()), "errorvar:"+g.Name())
					st.facts[eqT(v, nilT())] = false
					st.heap[addr] = v
				}
			case OIA:
				// the connections of a client
				if t := derefType(addr.typ); t != nil && connPtr(t) {
					v := e.load(st, addr, t)
					st.facts[eqT(v, nilT())] = false
				}
			}
		},
		Recv: func(e *Engine, st *State, in ssa.Instruction, ch *Term) {
			if !isChanOf(ch.typ, isErrorType) {
				return
			}
			node := ""
			for i, n := range m.nodes(st) {
				if st.heap[faT(n, q.chF)] == ch {
					node = strconv.Itoa(i)
				}
			}
			if node == "" {
				m.ob(st, "wait-published", in, false, "the channel that is waited on belongs to no batch of the pipeline (undecided)")
				return
			}
			m.ob(st, "wait-published", in, st.mon["pub:"+node] != "", "a batch is waited for only after it was sent: otherwise the wait never ends")
			m.ob(st, "wait-once", in, st.mon["done:"+node] == "", "a batch is waited for once: it is completed once")
			st.mon["done:"+node] = "1"
			n := st.ghost["node:"+node]
			err := e.newValue(st, types.Universe.Lookup("error").Type(), "batcherr")
			st.ghost["$recv"], st.ghost["err:"+node] = err, err
			for _, f := range []*types.Var{m.rdF, m.rbF} {
				v := e.newValue(st, f.Type(), "received")
				st.heap[faT(n, f)] = v
				st.ghost[f.Name()+":"+node] = v
			}
			conn := e.newValue(st, q.connF.Type(), "conn")
			st.facts[eqT(conn, nilT())] = false
			st.heap[faT(n, q.connF)] = conn
		},
		Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
			// what was handed over is not changed until it is completed
			if addr.op != OFA || derefType(addr.args[0].typ) == nil || !types.Identical(derefType(addr.args[0].typ), q.cmdT) {
				return
			}
			if n := m.nodeIndex(st, addr.args[0]); n != "" && addr.aux != q.linkF {
				m.ob(st, "handed-over", in, st.mon["pub:"+n] == "" || st.mon["done:"+n] != "", "a batch that was sent is left alone until it is completed")
			}
		},
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			fn := ci.Callee
			if fn == nil {
				return nil, false
			}
			switch {
			case fn == validate:
				return one(st, nilT()), true
			case isAppendNumber(fn):
				return one(st, e.appendNum(st, ci.Args[0], ci.Args[1])), true
			case fn == m.newCmd:
				i := len(m.nodes(st))
				n := freshAlloc(types.NewPointer(q.cmdT), "batch"+strconv.Itoa(i))
				e.zeroInit(st, n, q.cmdT)
				ch := e.newValue(st, q.chF.Type(), "ch")
				st.facts[eqT(ch, nilT())] = false
				st.heap[faT(n, q.chF)] = ch
				for _, f := range []*types.Var{m.reqF, m.rdF} {
					b := e.newValue(st, types.NewPointer(f.Type().Underlying().(*types.Slice).Elem()), "buffer")
					st.facts[eqT(b, nilT())] = false
					cp := e.newValue(st, types.Typ[types.Int], "cap")
					st.zone.assumeLe(intT(0), cp, 0)
					st.zone.assumeLe(cp, intT(maxLen), 0)
					st.heap[faT(n, f)] = sliceT(f.Type(), b, intT(0), intT(0), cp)
				}
				e.escape(st, n)
				st.ghost["node:"+strconv.Itoa(i)] = n
				return one(st, n), true
			case fn == m.initBuilder:
				max := ci.Args[1]
				if old := st.ghost["max"]; old != nil {
					m.ob(st, "same-bound", ci.Site, same(e, st, old, max) || st.zone.eq(old, max), "every batch of the pipeline has the same bound")
				}
				st.ghost["max"] = max
				if _, isC := max.isConstInt(); !isC {
					st.zone.assumeLe(intT(1), max, 0)
					st.zone.assumeLe(max, intT(maxLen), 0)
				}
				return nil, false
			case fn == q.publish:
				m.published(st, ci)
				return one(st, tupleT()), true
			case fn == m.initParser:
				m.parser(st, ci)
				return one(st, tupleT()), true
			case isDecoder(fn):
				return m.decoded(st, ci, srvT, brkT, cliT), true
			case isFailConnFn(fn):
				r := e.resultOf(st, ci)
				if isErrorType(r.typ) {
					st.facts[eqT(r, nilT())] = false
				}
				return one(st, r), true
			case ci.Name == "(*sync.Pool).Get":
				return nil, false
			case fn.Name() == "getPipelineCmdFromPool" && recvName(fn) == "":
				t := derefType(fn.Signature.Results().At(0).Type())
				a := freshAlloc(types.NewPointer(t), "pipelineCmd")
				e.zeroInit(st, a, t)
				return one(st, a), true
			}
			// pools of slices
			if p := c.p; p.inRepo(fn) && p.effects(fn).calls["(*sync.Pool).Get"] && fn.Signature.Results().Len() == 1 && !m.touches(fn) {
				sl, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
				if !ok {
					return nil, false
				}
				b := freshSym(types.NewPointer(sl.Elem()), "pooled")
				st.facts[eqT(b, nilT())] = false
				ln := intT(0)
				if isByte(sl.Elem()) && fn.Signature.Params().Len() == 1 {
					ln = ci.Args[len(ci.Args)-1]
				}
				cp := e.newValue(st, types.Typ[types.Int], "cap")
				st.zone.assumeLe(ln, cp, 0)
				return one(st, sliceT(fn.Signature.Results().At(0).Type(), b, intT(0), ln, cp)), true
			}
			if c.p.inRepo(fn) && c.p.effects(fn).calls["(*sync.Pool).Put"] && fn.Signature.Results().Len() == 0 && !m.touches(fn) && fn.Name() != "putPipelineCmdToPool" && len(ci.Args) > 0 {
				if s := ci.Args[len(ci.Args)-1]; s.op == OSlice {
					e.havocElems(st, s.args[0])
					return one(st, tupleT()), true
				}
			}
			return nil, false
		},
	}
	if m.recycle != nil {
		m.recycling()
	}
	if m.race != nil {
		m.race.pipeline(m)
	}
}

// touches: the function reaches the state of pipelines or batches.
func (m *pmodel) touches(fn *ssa.Function) bool {
	eff := m.c.p.effects(fn)
	for k := range eff.writes {
		if f, ok := k.(*types.Var); ok && (ownerType(m.c, f) == m.q.cmdT || f == m.rdF || f == m.rbF) {
			return true
		}
	}
	return eff.funcs[m.q.publish] || eff.funcs[m.newCmd] || eff.funcs[m.initParser]
}

// chain: the batches linked from head.
func (m *pmodel) chain(st *State, head *Term) (r []string, ok bool) {
	for x := head; !x.isNilTerm(); x = m.e.load(st, faT(x, m.q.siblingF), m.q.siblingF.Type()) {
		n := m.nodeIndex(st, x)
		if n == "" || len(r) > 8 {
			return r, false
		}
		r = append(r, n)
	}
	return r, true
}

func (m *pmodel) published(st *State, ci *CallInfo) {
	e := m.e
	snd := ci.Args[0]
	if old := st.ghost["sender"]; old != nil {
		m.ob(st, "one-connection", ci.Site, same(e, st, old, snd), "all batches of a pipeline are sent over one connection")
	} else {
		st.ghost["sender"] = snd
	}
	ns, ok := m.chain(st, ci.Args[1])
	m.ob(st, "publish-all", ci.Site, ok && len(ns) > 0, "what is sent is a chain of the pipeline's batches")
	var sent []string
	for _, n := range ns {
		m.ob(st, "publish-once", ci.Site, st.mon["pub:"+n] == "", "a batch is sent once")
		st.mon["pub:"+n] = "1"
		ops := splitList(st.mon["ops:"+n])
		sent = append(sent, ops...)
		cnt := e.load(st, faT(st.ghost["node:"+n], m.q.countF), m.q.countF.Type())
		k, isC := cnt.isConstInt()
		m.ob(st, "batch-count", ci.Site, isC && int(k) == len(ops), "a batch that is sent holds as many commands as it says")
		m.ob(st, "batch-bound", ci.Site, st.ghost["max"] != nil && st.zone.le(cnt, st.ghost["max"]), "a batch holds at most the configured number of commands")
	}
	m.ob(st, "publish-all", ci.Site, strings.Join(sent, ",") == st.mon["pending"], "what is sent are the operations since the last time, all of them and in order")
	for i := range m.nodes(st) {
		n := strconv.Itoa(i)
		own := false
		for _, x := range ns {
			own = own || x == n
		}
		if !own && st.mon["pub:"+n] != "" {
			m.ob(st, "after-previous", ci.Site, m.settled(st, n), "what was sent before is completed and parsed before the next commands of the pipeline are sent")
		}
	}
	for _, i := range splitList(st.mon["pending"]) {
		st.mon["sent:"+i] = "1"
	}
	delete(st.mon, "pending")
}

// settled: the batch was completed, and decoded unless it failed.
func (m *pmodel) settled(st *State, n string) bool {
	if st.mon["done:"+n] == "" {
		return false
	}
	if m.e.nonNil(st, st.ghost["err:"+n]) {
		return true
	}
	return st.mon["brk:"+n] != "" || st.mon["dec:"+n] == strconv.Itoa(len(splitList(st.mon["ops:"+n])))
}

func (m *pmodel) parser(st *State, ci *CallInfo) {
	found := ""
	for i := range m.nodes(st) {
		n := strconv.Itoa(i)
		if st.mon["done:"+n] == "" {
			continue
		}
		if st.ghost[m.rdF.Name()+":"+n] == ci.Args[1] && st.ghost[m.rbF.Name()+":"+n] == ci.Args[2] {
			found = n
		}
	}
	m.ob(st, "parse-batch", ci.Site, found != "", "a parser is given the responses and the values of one completed batch")
	if found == "" {
		return
	}
	m.ob(st, "parse-once", ci.Site, st.mon["dec:"+found] == "", "the responses of a batch are decoded once")
	st.mon["ps:"+ci.Args[0].String()] = found
}

func (m *pmodel) decoded(st *State, ci *CallInfo, srvT, brkT, cliT *types.Named) []CallOut {
	e := m.e
	res := e.resultOf(st, ci)
	n := st.mon["ps:"+ci.Args[0].String()]
	m.ob(st, "parse-batch", ci.Site, n != "", "responses are decoded by a parser that holds a completed batch")
	if n == "" {
		return one(st, res)
	}
	m.ob(st, "parse-failed", ci.Site, !e.nonNil(st, st.ghost["err:"+n]), "the responses of a batch that failed are not decoded")
	k := st.mon["dec:"+n]
	if k == "" {
		k = "0"
	}
	ki, _ := strconv.Atoi(k)
	ops := splitList(st.mon["ops:"+n])
	m.ob(st, "parse-count", ci.Site, ki < len(ops), "no more responses are decoded than the batch has commands")
	if ki >= len(ops) {
		return one(st, res)
	}
	op, _ := strconv.Atoi(ops[ki])
	want := m.decoder(st.mon["op:"+strconv.Itoa(op)])
	m.ob(st, "parse-kind", ci.Site, ci.Callee.Name() == want, "the response of the %s command of a batch is decoded as what its operation asked for: %s, not %s", ordinal(ki), want, ci.Callee.Name())
	m.ob(st, "parse-broken", ci.Site, st.mon["brk:"+n] == "", "after a response that could not be parsed nothing of its batch is decoded")
	st.mon["dec:"+n] = strconv.Itoa(ki + 1)
	key := strconv.Itoa(op)
	st.mon["decd:"+key] = "1"
	var outs []CallOut
	give := func(st *State, kind string, err *Term) {
		var r *Term
		if res.op == OTuple && len(res.args) == 2 {
			// a shape of its own for each outcome
			r = tupleT(res.args[0], err)
			st.ghost["resp:"+key] = res.args[0]
		} else {
			r = err
			st.ghost["resp:"+key] = nilT()
		}
		st.ghost["derr:"+key] = err
		st.mon["dk:"+key] = kind
		if kind != "ok" {
			st.mon["faults"] += "1"
		}
		outs = append(outs, CallOut{st, r})
	}
	faults := len(st.mon["faults"])
	if faults < 2 {
		s2 := st.clone()
		give(s2, "server", ifaceT(srvT, e.newValue(s2, srvT, "srverr")))
	}
	if faults < 1 {
		s3 := st.clone()
		s3.mon["brk:"+n] = "1"
		give(s3, "broken", ifaceT(brkT, e.newValue(s3, brkT, "brkerr")))
		s4 := st.clone()
		give(s4, "client", ifaceT(cliT, e.newValue(s4, cliT, "clierr")))
	}
	give(st, "ok", nilT())
	return outs
}

func ordinal(i int) string {
	return []string{"first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth"}[i%8]
}

func (m *pmodel) decoder(op string) string {
	return decoderOf[opSpecs[op].verb]
}

// start makes a pipeline of a client.
func (m *pmodel) start() []*State {
	m.hooks()
	st := newState()
	cl := freshSym(types.NewPointer(m.c.p.typ("memcache", "Client")), "client")
	st.facts[eqT(cl, nilT())] = false
	var r []*State
	for _, o := range m.e.Run(st, m.newPipe, []*Term{cl}, nil) {
		if o.Panic {
			continue
		}
		o.St.ghost["pipe"] = o.Res[0]
		o.St.frame = nil
		r = append(r, o.St)
	}
	return r
}

// do runs one step from every state.
func (m *pmodel) do(states []*State, s pstep) (next []*State) {
	for _, st := range states {
		st = st.clone()
		st.frame = nil
		st.note("step " + s.String())
		m.steps++
		switch s.what {
		case "op":
			next = append(next, m.operation(st, s.op)...)
		case "execute", "finish":
			fn := m.execute
			if s.what == "finish" {
				fn = m.fin
			}
			for _, o := range m.outs(m.e.Run(st, fn, []*Term{st.ghost["pipe"]}, nil), fn) {
				m.ob(o.St, "publish-sent", o.Instr, o.St.mon["pending"] == "", "when %s returns every operation was sent", fn.Name())
				if s.what == "finish" {
					for i := range m.nodes(o.St) {
						n := strconv.Itoa(i)
						if o.St.mon["ops:"+n] != "" {
							m.ob(o.St, "finish-waits", o.Instr, m.settled(o.St, n), "Finish returns only after the responses of all operations were received and decoded")
						}
					}
				}
				next = append(next, o.St)
			}
		case "result":
			next = append(next, m.call(st, s.i)...)
		case "release":
			next = append(next, m.release(st, s.i)...)
		}
	}
	if m.recycle != nil {
		for _, st := range next {
			m.stepEnd(st, nil)
		}
	}
	m.paths += len(next)
	return
}

func (m *pmodel) outs(outs []Outcome, fn *ssa.Function) (r []Outcome) {
	for _, o := range outs {
		if o.Panic {
			m.ob(o.St, "no-panic", o.Instr, false, "%s does not panic", fn.Name())
			continue
		}
		o.St.frame = nil
		r = append(r, o)
	}
	return
}

func (m *pmodel) operation(st *State, name string) (next []*State) {
	e, q := m.e, m.q
	fn := m.ops[name]
	i := st.mon["nops"]
	if i == "" {
		i = "0"
	}
	k, _ := strconv.Atoi(i)
	args := []*Term{st.ghost["pipe"]}
	for j := 0; j < fn.Signature.Params().Len(); j++ {
		p := fn.Signature.Params().At(j)
		if _, isS := p.Type().Underlying().(*types.Struct); isS {
			args = append(args, e.zero(p.Type()))
			continue
		}
		v := e.newValue(st, p.Type(), p.Name())
		if v.op == OSlice && m.recycle != nil {
			st.mon["caller:"+v.args[0].String()] = "1"
		}
		args = append(args, v)
	}
	type was struct {
		count  *Term
		req    *Term
		blocks int
	}
	look := func(st *State) map[string]was {
		r := map[string]was{}
		for i, n := range m.nodes(st) {
			r[strconv.Itoa(i)] = was{e.load(st, faT(n, q.countF), q.countF.Type()), e.load(st, faT(n, m.reqF), m.reqF.Type()), m.blocks(st, n)}
		}
		return r
	}
	st.mon["nops"] = strconv.Itoa(k + 1)
	st.mon["op:"+i] = name
	before := look(st)
	if st.mon["pending"] == "" {
		// a new session: after this the operation's batch is one made now
		st.mon["base"] = strconv.Itoa(len(before))
	}
	for _, o := range m.outs(e.Run(st, fn, args, nil), fn) {
		st := o.St
		after := look(st)
		changed := ""
		for _, n := range sortedKeys(after) {
			a := after[n]
			b, had := before[n]
			if st.mon["done:"+n] != "" && st.mon["pub:"+n] != "" {
				continue
			}
			if !had {
				b = was{count: intT(0)}
			}
			if a.count == b.count && (a.req == b.req || !had && emptySlice(a.req)) && a.blocks == b.blocks {
				continue
			}
			m.ob(st, "one-batch", o.Instr, changed == "", "an operation adds to one batch")
			changed = n
			av, ok1 := a.count.isConstInt()
			bv, ok2 := b.count.isConstInt()
			m.ob(st, "batch-count", o.Instr, ok1 && ok2 && av == bv+1, "an operation counts as one command of its batch")
			m.ob(st, "one-batch", o.Instr, a.req != b.req, "an operation's command is added to the batch that counts it")
			wb := b.blocks
			if opSpecs[name].value {
				wb++
			}
			m.ob(st, "one-batch", o.Instr, a.blocks == wb, "an operation's value is added to the batch that counts it")
			m.ob(st, "batch-bound", o.Instr, st.ghost["max"] != nil && st.zone.le(a.count, st.ghost["max"]), "a batch holds at most the configured number of commands")
			m.ob(st, "handed-over", o.Instr, st.mon["pub:"+n] == "", "an operation is added to a batch that was not sent yet")
		}
		m.ob(st, "one-batch", o.Instr, changed != "", "an operation adds to a batch")
		if changed == "" {
			continue
		}
		for j := range m.nodes(st) {
			n := strconv.Itoa(j)
			if st.mon["pub:"+n] != "" {
				m.ob(st, "after-previous", o.Instr, m.settled(st, n), "what was sent before is completed and parsed before an operation starts a new session")
			}
		}
		monAdd(st, "ops:"+changed, i)
		monAdd(st, "pending", i)
		st.mon["in:"+i] = changed
		// the result
		res := o.Res
		if len(res) == 2 {
			m.ob(st, "result-own", o.Instr, res[1].isNilTerm(), "an operation with a valid key succeeds")
		}
		st.ghost["res:"+i] = res[0]
		next = append(next, st)
	}
	return
}

func emptySlice(t *Term) bool {
	if t == nil || t.op != OSlice {
		return true
	}
	n, ok := t.args[2].isConstInt()
	return ok && n == 0
}

// blocks: how many values a batch has.
func (m *pmodel) blocks(st *State, n *Term) int {
	k := 0
	for x := m.e.load(st, faT(n, m.entF), m.entF.Type()); x.op == OAlloc && k < 16; x = m.e.load(st, faT(x, m.nextF), m.nextF.Type()) {
		k++
	}
	return k
}

// call runs the result function of an operation.
func (m *pmodel) call(st *State, i int) (next []*State) {
	e := m.e
	key := strconv.Itoa(i)
	f := st.ghost["res:"+key]
	var outs []Outcome
	if f == nil {
		return nil
	}
	if f.op == OFunc {
		outs = e.callValue(st, f)
	} else {
		outs = e.Run(st, m.result, []*Term{f}, nil)
	}
	name := st.mon["op:"+key]
	if len(outs) == 0 {
		m.ob(st, "result-own", nil, false, "the result function of %s is not known (undecided)", name)
	}
	for _, o := range m.outs(outs, m.ops[name]) {
		st := o.St
		if m.recycle != nil {
			m.givenOut(st, o.Instr, o.Res)
		}
		err := o.Res[len(o.Res)-1]
		isNil, known := e.evalBool(st, eqT(err, nilT()))
		if !known && e.nonNil(st, err) {
			isNil, known = false, true
		}
		if st.mon["got:"+key] != "" {
			e.h.Load(e, st, o.Instr, m.already)
			a := e.load(st, m.already, derefType(m.already.typ))
			m.ob(st, "result-once", o.Instr, same(e, st, err, a), "a second call of the result function gives ErrAlreadyGotten")
			if len(o.Res) == 2 {
				m.ob(st, "result-once", o.Instr, m.equal(st, o.Res[0], e.zero(o.Res[0].typ)), "a second call of the result function gives no result")
			}
			next = append(next, st)
			continue
		}
		st.mon["got:"+key] = "1"
		n := st.mon["in:"+key]
		m.ob(st, "result-sent", o.Instr, st.mon["sent:"+key] != "", "a result function sends the pipeline if it was not sent yet")
		m.ob(st, "result-waits", o.Instr, st.mon["done:"+n] != "", "a result function waits for the response")
		if st.mon["done:"+n] != "" {
			berr := st.ghost["err:"+n]
			bnil, bknown := e.evalBool(st, eqT(berr, nilT()))
			if !bknown && e.nonNil(st, berr) {
				bnil, bknown = false, true
			}
			switch {
			case !bknown:
				m.ob(st, "result-error", o.Instr, false, "whether the batch failed decides the result")
			case !bnil:
				m.ob(st, "result-error", o.Instr, same(e, st, err, berr), "when the batch failed the result is its error")
			case st.mon["decd:"+key] == "":
				m.ob(st, "result-error", o.Instr, known && !isNil && st.mon["brk:"+n] != "", "an operation whose response was not decoded gives an error")
			default:
				derr := st.ghost["derr:"+key]
				switch st.mon["dk:"+key] {
				case "ok":
					m.ob(st, "result-error", o.Instr, known && isNil, "an operation that succeeded gives no error")
					if len(o.Res) == 2 {
						m.ob(st, "result-own", o.Instr, m.equal(st, o.Res[0], st.ghost["resp:"+key]), "the result is the response of that very operation")
					}
				case "server":
					m.ob(st, "result-error", o.Instr, same(e, st, err, derr), "an error of the server is given as it is, to the operation it answers")
				default:
					m.ob(st, "result-error", o.Instr, known && !isNil, "an operation whose response could not be decoded gives an error")
				}
			}
		}
		next = append(next, st)
	}
	return
}

// equal compares values field by field.
func (m *pmodel) equal(st *State, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	if a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
		for i := range a.args {
			if !m.equal(st, a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	if a.op == OSlice && b.op == OSlice {
		for i := range a.args {
			if a.args[i] != b.args[i] && !st.zone.eq(a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	if isIntTerm(a) && isIntTerm(b) && st.zone.eq(a, b) {
		return true
	}
	return same(m.e, st, a, b)
}

// explore runs every program of up to depth steps over the kinds of operations, in turn.
func (m *pmodel) explore(kinds []string, depth int) {
	var rec func(states []*State, nops, left int, last pstep)
	rec = func(states []*State, nops, left int, last pstep) {
		if left == 0 || len(states) == 0 || m.e.incomplete != "" {
			m.programs++
			return
		}
		if nops < len(kinds) {
			s := pstep{what: "op", op: kinds[nops]}
			rec(m.do(states, s), nops+1, left-1, s)
		}
		for _, w := range []string{"execute", "finish"} {
			if nops == 0 {
				continue
			}
			s := pstep{what: w}
			rec(m.do(states, s), nops, left-1, s)
		}
		for i := 0; i < nops; i++ {
			s := pstep{what: "result", i: i}
			rec(m.do(states, s), nops, left-1, s)
		}
	}
	rec(m.start(), 0, depth, pstep{})
}

// program runs one sequence, e.g. "MGet MSet execute result1".
func (m *pmodel) program(text string) {
	m.programs++
	states := m.start()
	for _, w := range strings.Fields(text) {
		s := pstep{what: w}
		if strings.HasPrefix(w, "result") {
			s.what = "result"
			s.i, _ = strconv.Atoi(w[6:])
		} else if strings.HasPrefix(w, "release") {
			s.what = "release"
			s.i, _ = strconv.Atoi(w[7:])
		} else if m.ops[w] != nil {
			s = pstep{what: "op", op: w}
		}
		states = m.do(states, s)
		if len(states) == 0 || m.e.incomplete != "" {
			m.c.obFn("decided", nil, false, "program %q is not decided at %s", text, w)
			break
		}
	}
	m.c.finish(m.e, m.newPipe)
}

func connPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "clientConn"
}

// initOnly: a package variable that is assigned by the package's initialisation only.
func (p *Program) initOnly(g *ssa.Global) bool {
	if p.globalWrites == nil {
		p.globalWrites = map[*ssa.Global]bool{}
		for _, fn := range p.funcs {
			if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if x, ok := (*op).(*ssa.Global); ok {
							if u, isLoad := in.(*ssa.UnOp); !isLoad || u.X != x {
								p.globalWrites[x] = true
							}
						}
					}
				}
			}
		}
	}
	return !p.globalWrites[g]
}
