package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:  "C11",
		min: 40,
		rule: "Close is interpreted for every number of connections and every state they may be in: it waits for a connection only after that connection's close channel is closed and its list of commands is closed, it returns only after every connection, one by one, was told and every wait group its goroutines count in was waited for, and the health check was told first or by another Close. A channel is closed only by whoever changes its flag from open to closed, in one critical section or atomic step, and the flag is never taken back. " +
			"Each goroutine is added to its wait group before it is started and leaves it exactly once, on every way out. The sender goroutine ends only after the last commands and then reports the end, the receiver goroutine ends only after that and after shutting the sender down, which fails the current connection for good; the reconnect and health-check goroutines end, without another dial or probe, once they see that the client is closed. Publishing to a closed list completes every batch with ErrConnClosed.",
		not: "how long Close takes (C29); that a second Close, running at the same time, waits for the health check too",
		run: runC11,
	})
}

func runC11(c *Ctx) {
	n := newConnEnv(c)
	q := newQueueEnv(c)
	if n == nil || q == nil {
		return
	}
	ss := findSenderState(c, n)
	cl := c.fn("memcache.(Client).Close")
	connsF := sliceFieldOf(c, "Client", "clientConn")
	if ss == nil || cl == nil || connsF == nil {
		return
	}
	q.rules = ruleSet("list-push", "list-pop", "drain-all", "loop-ends", "loop-closes", "loop-open", "done-exit", "done-end", "publish-once", "publish-refused", "publish-error", "publish-accepted")
	waited := c11Groups(c)
	c11Close(c, q, cl, connsF, waited)
	q.checkSendBuffer()
	q.checkDrain()
	e := c.engine(Hooks{})
	s, r := q.started(e)
	q.checkSender(s)
	q.checkReceiver(r)
	c11Receiver(c, r, ss)
	q.checkPublish()
	c09Shutdown(c, n, ss)
	c09Goroutine(c, n, ss)
	if round := c.fn("memcache.(healthCheckService).runSingleLoop"); round != nil {
		c23Loop(c, round)
	}
}

// closable: what a close channel or its flag belongs to.
type closable struct {
	c    *Ctx
	once map[ssa.Instruction]bool                          // close sites that were interpreted
	told func(e *Engine, st *State, obj *Term, other bool) // other: whoever changed the flag tells the rest
}

func (k *closable) flag(f *types.Var) bool { // a flag next to a close channel
	o := ownerType(k.c, f)
	if o == nil {
		return false
	}
	b, isB := f.Type().Underlying().(*types.Basic)
	if !(isB && b.Kind() == types.Bool) && !(isAtomicType(f.Type()) && strings.HasSuffix(f.Type().String(), ".Bool")) {
		return false
	}
	for _, g := range structFields(o) {
		if isChanOf(g.Type(), isEmptyStruct) {
			return true
		}
	}
	return false
}

func (k *closable) owner(st *State, ch *Term) *Term {
	var r *Term
	for a, v := range st.heap {
		if v == ch && a.op == OFA {
			if r == nil || a.args[0].String() < r.String() {
				r = a.args[0]
			}
		}
	}
	return r
}

func (k *closable) pending(st *State) string {
	var l []string
	for m := range st.mon {
		if strings.HasPrefix(m, "won:") || strings.HasPrefix(m, "set:") {
			l = append(l, m)
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (k *closable) call(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
	flagAddr := func() *types.Var {
		if len(ci.Args) > 0 && ci.Args[0].op == OFA {
			if f := ci.Args[0].aux.(*types.Var); k.flag(f) {
				return f
			}
		}
		return nil
	}
	switch {
	case ci.Name == "builtin:close":
		obj := k.owner(st, ci.Args[0])
		if obj == nil {
			return nil, false
		}
		k.once[ci.Site] = true
		key := obj.String()
		_, won := st.mon["won:"+key]
		_, set := st.mon["set:"+key]
		free := false // the flag is known to be open, under a lock
		if len(heldLocks(st)) > 0 {
			for a, v := range st.heap {
				if a.op == OFA && a.args[0] == obj && k.flag(a.aux.(*types.Var)) {
					if b, ok := e.evalBool(st, v); ok && !b {
						free = true
					}
				}
			}
		}
		e.Oblige(st, "closed-once", ci.Site, (won || set || free) && st.mon["cl:"+key] == "", "the channel is closed only by whoever changes its flag from open to closed")
		delete(st.mon, "won:"+key)
		if len(heldLocks(st)) > 0 && !won {
			st.mon["cl:"+key] = "1"
		} else {
			k.told(e, st, obj, false)
		}
		return one(st, tupleT()), true
	case ci.Name == "(*sync/atomic.Bool).Swap" && flagAddr() != nil:
		e.Oblige(st, "closed-stays", ci.Site, ci.Args[1] == boolT(true), "a flag that says closed is not taken back")
		s := st.clone()
		k.win(st, ci.Args[0])
		k.told(e, s, ci.Args[0].args[0], true)
		return []CallOut{{st, boolT(false)}, {s, boolT(true)}}, true
	case ci.Name == "(*sync/atomic.Bool).CompareAndSwap" && flagAddr() != nil:
		e.Oblige(st, "closed-stays", ci.Site, ci.Args[2] == boolT(true) && ci.Args[1] == boolT(false), "a flag that says closed is not taken back")
		s := st.clone()
		k.win(st, ci.Args[0])
		k.told(e, s, ci.Args[0].args[0], true)
		return []CallOut{{st, boolT(true)}, {s, boolT(false)}}, true
	case ci.Name == "(*sync/atomic.Bool).Store" && flagAddr() != nil:
		e.Oblige(st, "closed-stays", ci.Site, ci.Args[1] == boolT(true), "a flag that says closed is not taken back")
		e.Oblige(st, "closed-once", ci.Site, len(heldLocks(st)) > 0, "the flag is tested and set in one step")
		return one(st, tupleT()), true
	case ci.Name == "(*sync.Once).Do" && len(ci.Args) == 2 && ci.Args[0].op == OFA:
		s := st.clone()
		k.told(e, s, ci.Args[0].args[0], true)
		st.mon["won:"+ci.Args[0].args[0].String()] = "1"
		outs := []CallOut{{s, tupleT()}}
		rs := e.callValue(st, ci.Args[1])
		if rs == nil {
			e.Oblige(st, "closed-once", ci.Site, false, "what runs once is not known (undecided)")
			outs = append(outs, CallOut{st, tupleT()})
		}
		for _, r := range rs {
			if !r.Panic {
				outs = append(outs, CallOut{r.St, tupleT()})
			}
		}
		return outs, true
	}
	return nil, false
}

func (k *closable) win(st *State, a *Term) {
	obj := a.args[0]
	for _, f := range structFields(derefTypeNamed(obj)) {
		if isChanOf(f.Type(), isEmptyStruct) {
			st.mon["won:"+obj.String()] = "1"
		}
	}
}

func derefTypeNamed(t *Term) *types.Named {
	if t == nil || t.typ == nil {
		return nil
	}
	n, _ := derefType(t.typ).(*types.Named)
	return n
}

func (k *closable) store(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
	if addr.op != OFA || !k.flag(addr.aux.(*types.Var)) || st.localAlloc(addr) {
		return
	}
	e.Oblige(st, "closed-stays", in, val == boolT(true), "a flag that says closed is not taken back")
	e.Oblige(st, "closed-once", in, len(heldLocks(st)) > 0, "the flag is tested and set in one critical section")
	if b, ok := e.evalBool(st, e.load(st, addr, addr.aux.(*types.Var).Type())); ok && !b {
		st.mon["set:"+addr.args[0].String()] = "1"
	}
}

func (k *closable) lock(e *Engine, st *State, in ssa.Instruction, op string, l *Term) {
	if op != "unlock" {
		return
	}
	flags := map[*Term]bool{}
	for a, v := range st.heap {
		if a.op == OFA && k.flag(a.aux.(*types.Var)) {
			if b, ok := e.evalBool(st, v); ok && b {
				flags[a.args[0]] = true
			}
		}
	}
	objs := map[string]*Term{}
	for o := range flags {
		objs[o.String()] = o
	}
	mine := map[string]bool{}
	for m := range st.mon {
		if strings.HasPrefix(m, "set:") {
			mine[m[4:]] = true
			e.Oblige(st, "closed-once", in, st.mon["cl:"+m[4:]] == "1", "the channel is closed in the critical section that changes its flag")
			delete(st.mon, m)
		}
		if strings.HasPrefix(m, "cl:") {
			e.Oblige(st, "closed-once", in, objs[m[3:]] != nil, "the flag is changed in the critical section that closes its channel")
		}
	}
	var names []string
	for nm := range objs {
		names = append(names, nm)
	}
	sort.Strings(names)
	for _, nm := range names {
		k.told(e, st, objs[nm], !mine[nm])
		delete(st.mon, "cl:"+nm)
	}
}

// waitGroupOf: the field of the wait group a call is made on.
func waitGroupOf(ci *CallInfo) *types.Var {
	if !strings.HasPrefix(ci.Name, "(*sync.WaitGroup).") || len(ci.Args) == 0 {
		return nil
	}
	if ci.Args[0].op == OFA {
		return ci.Args[0].aux.(*types.Var)
	}
	for a := ci.Args[0]; a != nil && len(a.args) > 0; a = a.args[0] {
		if a.op == OFA {
			return a.aux.(*types.Var)
		}
	}
	return nil
}

// c11Groups: goroutines are counted before they start and leave their wait group once.
func c11Groups(c *Ctx) map[*types.Var]bool {
	nw := c.fn("memcache.New")
	dial := c.fn("netconn.DialNewConn")
	groups := map[*types.Var]bool{}
	if nw == nil || dial == nil {
		return groups
	}
	counted := 0
	memo := map[*ssa.Function]bool{}
	rel := func(fn *ssa.Function) bool {
		return mentions(c, memo, fn, func(in ssa.Instruction) bool {
			if _, ok := in.(*ssa.Go); ok {
				return true
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			f := ci.Common().StaticCallee()
			return f != nil && strings.HasPrefix(f.String(), "(*sync.WaitGroup).")
		})
	}
	num := func(st *State, k string) int { n, _ := strconv.Atoi(st.mon[k]); return n }
	set := func(st *State, k string, n int) {
		if n == 0 {
			delete(st.mon, k)
		} else {
			st.mon[k] = strconv.Itoa(n)
		}
	}
	key := func(f *types.Var) string {
		return ownerType(c, f).Obj().Name() + "." + f.Name()
	}
	byKey := map[string]*types.Var{}
	goes := map[*ssa.Function]int{}
	start := func(e *Engine, st *State, ci *CallInfo, outs func(*State) []Outcome) {
		if ci.Callee == nil || goes[ci.Callee] > 30 {
			return
		}
		goes[ci.Callee]++
		s := st.clone()
		for k := range s.mon {
			delete(s.mon, k)
		}
		union := map[string]bool{}
		var exits []Outcome
		for _, o := range outs(s) {
			if o.Panic {
				continue
			}
			exits = append(exits, o)
			for k := range o.St.mon {
				if strings.HasPrefix(k, "done:") {
					union[k[5:]] = true
				}
			}
		}
		for k := range union {
			counted++
			for _, o := range exits {
				e.Oblige(o.St, "leaves-once", o.Instr, o.St.mon["done:"+k] == "1", "the goroutine leaves %s exactly once on every way out (%s times)", k, o.St.mon["done:"+k])
			}
			e.Oblige(st, "counted-before-start", ci.Site, num(st, "add:"+k) > 0, "the goroutine is added to %s before it is started", k)
			set(st, "add:"+k, num(st, "add:"+k)-1)
		}
	}
	e := c.engine(Hooks{})
	e.h.Call = func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		if ci.Kind == "go" {
			start(e, st, ci, func(s *State) []Outcome { return e.spawn(s, ci) })
			return nil, true
		}
		if ci.Callee == dial {
			return one(st, e.resultOf(st, ci)), true
		}
		f := waitGroupOf(ci)
		if f == nil || ownerType(c, f) == nil {
			return nil, false
		}
		byKey[key(f)] = f
		switch strings.TrimPrefix(ci.Name, "(*sync.WaitGroup).") {
		case "Add":
			n, ok := ci.Args[1].isConstInt()
			e.Oblige(st, "counted-before-start", ci.Site, ok, "how many goroutines are added is known")
			if n < 0 {
				set(st, "done:"+key(f), num(st, "done:"+key(f))-int(n))
				break
			}
			groups[f] = true
			set(st, "add:"+key(f), num(st, "add:"+key(f))+int(n))
		case "Done":
			set(st, "done:"+key(f), num(st, "done:"+key(f))+1)
		case "Go":
			groups[f] = true
			counted++
			if fv := ci.Args[1]; fv.op == OFunc {
				s := st.clone()
				s.frame, s.locks = nil, map[*Term]int{}
				e.callValue(s, fv)
			}
		}
		return one(st, tupleT()), true
	}
	e.Opaque = func(fn *ssa.Function) bool { return !rel(fn) }
	for _, o := range e.RunFresh(nw, nil) {
		if o.Panic {
			continue
		}
		left := ""
		for k, v := range o.St.mon {
			if strings.HasPrefix(k, "add:") {
				left += k[4:] + " " + v + " "
			}
		}
		e.Oblige(o.St, "all-started", o.Instr, left == "", "every goroutine that is counted is started (left: %s)", left)
	}
	c.finish(e, nw)
	c.obFn("counted-before-start", nw, counted >= 1 && len(groups) >= 1, "goroutines are counted in wait groups (%d)", counted)
	return groups
}

// c11Close interprets Close.
func c11Close(c *Ctx, q *queueEnv, cl *ssa.Function, connsF *types.Var, groups map[*types.Var]bool) {
	it := types.Typ[types.Int]
	connT, healthT := c.p.typ("memcache", "clientConn"), c.p.typ("memcache", "healthCheckService")
	elemT := connsF.Type().Underlying().(*types.Slice).Elem()
	e := c.engine(Hooks{})
	// climb: the connection or the health check an object belongs to
	climb := func(st *State, t *Term) *Term {
		t = rootObj(t)
		for i := 0; i < 6 && t != nil; i++ {
			if nt := derefTypeNamed(t); nt != nil && (types.Identical(nt, connT) || types.Identical(nt, healthT)) {
				return t
			}
			var up *Term
			for a, v := range st.heap {
				if v == t && a.op == OFA && (up == nil || rootObj(a).String() < up.String()) {
					up = rootObj(a)
				}
			}
			t = up
		}
		return nil
	}
	kinds := []string{"closeChan", "commands"}
	for f := range groups {
		if o := ownerType(c, f); o != nil && !types.Identical(o, healthT) {
			kinds = append(kinds, "wait:"+o.Obj().Name()+"."+f.Name())
		}
	}
	sort.Strings(kinds)
	kind := map[string]bool{}
	for _, k := range kinds {
		kind[k] = true
	}
	index := func(st *State, obj *Term) *Term {
		if obj == nil {
			return nil
		}
		if obj != st.ghost["cur"] {
			return nil
		}
		return st.ghost["curidx"]
	}
	event := func(st *State, kd string, obj *Term) {
		i := index(st, obj)
		if i == nil || !kind[kd] || st.ghost["k:"+kd] == nil {
			return
		}
		if e.sumEq(st, []*Term{i}, []*Term{st.ghost["off"], st.ghost["k:"+kd]}) {
			st.ghost["k:"+kd] = e.add(st, st.ghost["k:"+kd], intT(1), it)
		}
		// from the last to the first
		if e.sumEq(st, []*Term{i, intT(1)}, []*Term{st.ghost["off"], st.ghost["d:"+kd]}) {
			st.ghost["d:"+kd] = e.sub(st, st.ghost["d:"+kd], intT(1), it)
		}
	}
	k := &closable{c: c, once: map[ssa.Instruction]bool{}}
	k.told = func(e *Engine, st *State, obj *Term, other bool) {
		o := climb(st, obj)
		if o == nil {
			return
		}
		if types.Identical(derefTypeNamed(o), healthT) {
			st.mon["health"] = "told"
			return
		}
		event(st, "closeChan", o)
		if other {
			event(st, "commands", o)
		}
	}
	waits := 0
	e.h = Hooks{
		Lock:  k.lock,
		Store: k.store,
		Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
			if addr.op != OIA || derefType(addr.typ) == nil || !types.Identical(derefType(addr.typ), elemT) {
				return
			}
			l := st.ghost["list"]
			if l == nil || addr.args[0] != l.args[0] {
				return
			}
			for a := range st.heap {
				if a.op == OIA && a.args[0] == addr.args[0] {
					delete(st.heap, a)
				}
			}
			x := freshSym(elemT, "conn")
			st.heap[addr] = x
			st.facts[eqT(x, nilT())] = false
			st.ghost["cur"], st.ghost["curidx"] = x, addr.args[1]
		},
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			if ci.Kind == "go" {
				e.Oblige(st, "close-direct", ci.Site, false, "Close starts a goroutine (undecided)")
				return nil, true
			}
			if ci.Callee == q.sendClose {
				event(st, "commands", climb(st, ci.Args[0]))
				return one(st, tupleT()), true
			}
			if f := waitGroupOf(ci); f != nil && strings.HasSuffix(ci.Name, ".Wait") {
				waits++
				obj := climb(st, ci.Args[0])
				e.Oblige(st, "told-completely", ci.Site, k.pending(st) == "", "the flag and the channel agree before a wait (%s)", k.pending(st))
				if obj != nil && types.Identical(derefTypeNamed(obj), healthT) {
					e.Oblige(st, "told-before-wait", ci.Site, st.mon["health"] == "told", "the health check is told to stop before it is waited for")
					st.mon["healthwait:"+f.Name()] = "1"
					return one(st, tupleT()), true
				}
				i := index(st, obj)
				if i == nil {
					e.Oblige(st, "told-before-wait", ci.Site, false, "what is waited for is not understood (undecided)")
					return one(st, tupleT()), true
				}
				for _, kd := range []string{"closeChan", "commands"} {
					e.Oblige(st, "told-before-wait", ci.Site, e.sumLe(st, []*Term{i, intT(1)}, []*Term{st.ghost["off"], st.ghost["k:"+kd]}) ||
						e.sumLe(st, []*Term{st.ghost["off"], st.ghost["d:"+kd]}, []*Term{i}), "a connection is told to stop (%s) before it is waited for", kd)
				}
				event(st, "wait:"+ownerType(c, f).Obj().Name()+"."+f.Name(), obj)
				return one(st, tupleT()), true
			}
			return k.call(e, st, ci)
		},
		Recv: func(e *Engine, st *State, in ssa.Instruction, ch *Term) {
			e.Oblige(st, "close-direct", in, false, "Close waits for a channel (undecided)")
		},
	}
	ends := 0
	for _, o := range e.RunFresh(cl, func(st *State, a []*Term) {
		l := e.load(st, faT(a[0], connsF), connsF.Type())
		e.lenOf(st, l)
		st.ghost["list"], st.ghost["off"] = l, l.args[1]
		st.ghost["cur"], st.ghost["curidx"] = nilT(), intT(-1)
		for _, kd := range kinds {
			st.ghost["k:"+kd], st.ghost["d:"+kd] = intT(0), l.args[2]
		}
	}) {
		st := o.St
		if o.Panic {
			e.Oblige(st, "close-returns", o.Instr, false, "Close panics")
			continue
		}
		ends++
		e.Oblige(st, "told-completely", o.Instr, k.pending(st) == "", "the flag and the channel agree (%s)", k.pending(st))
		e.Oblige(st, "health-told", o.Instr, st.mon["health"] == "told", "the health check is told to stop")
		for _, kd := range kinds {
			what := "every connection is told to stop (" + kd + ")"
			if strings.HasPrefix(kd, "wait:") {
				what = "the goroutines of every connection are waited for (" + kd[5:] + ")"
			}
			e.Oblige(st, "every-connection", o.Instr, st.zone.eq(st.ghost["k:"+kd], st.ghost["list"].args[2]) || st.zone.le(st.ghost["d:"+kd], intT(0)), "%s", what)
		}
	}
	c.finish(e, cl)
	c.obFn("close-returns", cl, ends > 0 && waits > 0, "Close waits and returns")
	for f := range groups {
		if types.Identical(ownerType(c, f), healthT) {
			used := false
			for _, fn := range c.p.funcs {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && ci.Common().StaticCallee().String() == "(*sync.WaitGroup).Wait" && c.p.effects(cl).funcs[fn] {
							if len(ci.Common().Args) > 0 && fieldOf(ci.Common().Args[0]) == f {
								used = true
							}
						}
					}
				}
			}
			c.obFn("health-waited", cl, used, "Close waits for the health check")
		}
	}
	// nobody else closes these channels, and nobody takes a flag back
	for _, fn := range c.p.funcs {
		if c.p.inHarness(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				bi, ok := ci.Common().Value.(*ssa.Builtin)
				if !ok || bi.Name() != "close" || !isChanOf(ci.Common().Args[0].Type(), isEmptyStruct) || k.once[in] {
					continue
				}
				// the sender's goroutine reports its own end, once
				c.ob("closed-once", in, c11EndOnly(c, fn), "the channel is closed by Close, or by a goroutine when it ends")
			}
		}
	}
}

// c11EndOnly: the function is the body, or a deferred part of the body, of a goroutine.
func c11EndOnly(c *Ctx, fn *ssa.Function) bool {
	roots := map[*ssa.Function]bool{}
	for _, g := range c.p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Go); ok && x.Common().StaticCallee() != nil {
					roots[x.Common().StaticCallee()] = true
				}
			}
		}
	}
	if roots[fn] {
		return true
	}
	return fn.Parent() != nil && roots[fn.Parent()]
}

// c11Receiver: the receiving goroutine shuts the sender down before it ends.
func c11Receiver(c *Ctx, rs []goRoot, ss *senderState) {
	memo := map[*ssa.Function]bool{}
	rel := func(fn *ssa.Function) bool {
		return mentions(c, memo, fn, func(in ssa.Instruction) bool {
			s, ok := in.(*ssa.Store)
			return ok && fieldOf(s.Addr) == ss.closedF
		})
	}
	for _, r := range rs {
		e := c.engine(Hooks{Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op == OFA && addr.aux == ss.closedF {
				st.mon["shut"] = "1"
			}
		}})
		e.Opaque = func(fn *ssa.Function) bool { return !rel(fn) }
		n := 0
		for _, o := range e.spawn(r.st, r.ci) {
			if o.Panic {
				continue
			}
			n++
			e.Oblige(o.St, "shuts-down", o.Instr, o.St.mon["shut"] == "1", "the receiving goroutine shuts the sender down before it ends")
		}
		c.finish(e, r.ci.Callee)
		c.obFn("shuts-down", r.ci.Callee, n > 0, "the receiving goroutine can end")
	}
}
