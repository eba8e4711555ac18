package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:  "C09",
		min: 20,
		rule: "newConn and the goroutine it starts are interpreted with every dial forked into success and failure: the goroutine dials only after the current connection was found failed and the client not closed, after a failed dial it waits the retry duration (or for the close) before the next one, it ends only when the client is closed; " +
			"every socket that was dialed is stored as the sender's current connection in a critical section in which the sender was found not closed, or closed in one where it was, before the goroutine goes on; shutting the sender down marks it as closed and fails the connection that is current in that critical section. " +
			"DialNewConn and the dial function made for a password return either the open socket (whose Closer closes it) or an error after closing it once; the stand-in for a connection that could not be dialed fails every read and write.",
		not: "That dialing eventually succeeds; sockets a custom dial function opens besides the one it returns.",
		run: runC09,
	})
}

// senderState: the object that holds the current connection, and its closed flag.
type senderState struct {
	typ     *types.Named
	curF    *types.Var
	closedF *types.Var
}

func findSenderState(c *Ctx, n *connEnv) *senderState {
	s := &senderState{}
	sc := c.p.spkgs["memcache"].Pkg.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		var cur *types.Var
		mutex := false
		for _, f := range structFields(nt) {
			if types.Identical(derefType(f.Type()), n.connT) {
				cur = f
			}
			if strings.HasSuffix(f.Type().String(), "sync.Mutex") || strings.HasSuffix(f.Type().String(), "sync.RWMutex") {
				mutex = true
			}
		}
		if cur != nil && mutex {
			s.curF, s.typ = cur, nt
		}
	}
	sd := c.fn("memcache.(sender).shutdown")
	if s.curF == nil || sd == nil {
		c.obFn("anchor", sd, false, "the field holding the current connection was not found (undecided)")
		return nil
	}
	for k := range c.p.effects(sd).writes {
		f, ok := k.(*types.Var)
		if !ok {
			continue
		}
		if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && ownerType(c, f) == s.typ {
			s.closedF = f
		}
	}
	if s.closedF == nil {
		c.obFn("anchor", sd, false, "shutdown sets no flag (undecided)")
		return nil
	}
	return s
}

func runC09(c *Ctx) {
	n := newConnEnv(c)
	if n == nil {
		return
	}
	ss := findSenderState(c, n)
	if ss == nil {
		return
	}
	c09Dial(c)
	c09Auth(c)
	c09Stats(c)
	c09Shutdown(c, n, ss)
	c09Goroutine(c, n, ss)
}

// c09Dial: DialNewConn hands the socket on or closes it.
func c09Dial(c *Ctx) {
	dial := c.fn("netconn.DialNewConn")
	if dial == nil {
		return
	}
	n := &netEnv{c: c}
	e := c.engine(Hooks{Call: n.call})
	good, bad := 0, 0
	for _, o := range e.RunFresh(dial, nil) {
		st := o.St
		if o.Panic {
			continue
		}
		if e.isNil(st, o.Res[1]) {
			good++
			e.Oblige(st, "dial-success", o.Instr, st.mon["nc"] == "open" && st.mon["dialed"] == "1", "a nil error comes with an open socket (it is %s, dialed %s times)", st.mon["nc"], st.mon["dialed"])
			recv := optField(e, st, o.Res[0], dial.Signature.Results().At(0).Type(), "Closer")
			if recv == nil {
				e.Oblige(st, "closer-closes", o.Instr, false, "the connection has no Closer (undecided)")
				continue
			}
			res, ok := e.invoke(st.clone(), n, recv, "Close")
			if !ok { // the socket itself
				e.Oblige(st, "closer-closes", o.Instr, n.reaches(st, recv, 0), "the Closer of the connection is the socket")
				continue
			}
			for _, r := range res {
				e.Oblige(r.St, "closer-closes", o.Instr, r.St.mon["nc"] == "closed", "closing the connection closes its socket (it is %s)", r.St.mon["nc"])
			}
			continue
		}
		bad++
		e.Oblige(st, "dial-failure", o.Instr, e.nonNil(st, o.Res[1]), "an error is returned when there is no connection")
		if st.mon["nc"] != "" {
			e.Oblige(st, "socket-closed-on-error", o.Instr, st.mon["nc"] == "closed" && st.mon["dialed"] == "1", "the socket is closed exactly once when setting it up fails (it is %s)", st.mon["nc"])
		}
	}
	c.finish(e, dial)
	c.obFn("dial-outcomes", dial, good > 0 && bad > 0, "dialing can succeed and fail")
}

// reaches: the value is the socket, or wraps it.
func (n *netEnv) reaches(st *State, v *Term, depth int) bool {
	if v == nil || depth > 5 {
		return false
	}
	v = coreTerm(v)
	if n.isConn(st, v) {
		return true
	}
	if w := st.ghost["wraps:"+v.String()]; w != nil && n.reaches(st, w, depth+1) {
		return true
	}
	if v.typ != nil {
		var s *types.Struct
		if t := derefType(v.typ); t != nil {
			s, _ = t.Underlying().(*types.Struct)
		} else {
			s, _ = v.typ.Underlying().(*types.Struct)
		}
		if s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if f := s.Field(i); f.Embedded() {
					for a, x := range st.heap {
						if a.op == OFA && a.args[0] == v && a.aux == f && n.reaches(st, x, depth+1) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// c09Auth: the dial function for a password hands the socket on or closes it.
func c09Auth(c *Ctx) {
	n := &netEnv{c: c}
	e, st, cl, fn, args, _ := authClosure(c, n)
	if fn == nil {
		return
	}
	good, bad := 0, 0
	for _, o := range e.Run(st, fn, args, cl.args) {
		s := o.St
		if o.Panic {
			continue
		}
		if e.nonNil(s, o.Res[1]) {
			bad++
			if s.mon["nc"] != "" {
				e.Oblige(s, "socket-closed-on-error", o.Instr, s.mon["nc"] == "closed", "the socket is closed exactly once when authentication fails (it is %s)", s.mon["nc"])
			}
			continue
		}
		good++
		e.Oblige(s, "dial-success", o.Instr, e.isNil(s, o.Res[1]) && s.mon["nc"] == "open" && n.reaches(s, o.Res[0], 0), "the open socket is handed on when authentication succeeds (it is %s)", s.mon["nc"])
	}
	c.finish(e, fn)
	c.obFn("dial-outcomes", fn, good > 0 && bad > 1, "authentication can succeed and fail")
}

// c09Stats: the statistics client keeps the socket it dialed and closes it.
func c09Stats(c *Ctx) {
	nw := c.fn("stats.New")
	cl := c.fn("stats.(Client).Close")
	dial := c.fn("netconn.DialNewConn")
	if nw == nil || cl == nil || dial == nil {
		return
	}
	d := &dialModel{c: c, dial: dial}
	closed := 0
	e := c.engine(Hooks{Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		if outs, done := d.call(e, st, ci); done {
			return outs, true
		}
		return nil, false
	}})
	good := 0
	for _, o := range e.RunFresh(nw, nil) {
		if o.Panic {
			continue
		}
		e.Oblige(o.St, "dialed-once", o.Instr, o.St.mon["dials"] == "1", "one connection is dialed for a statistics client (%s)", o.St.mon["dials"])
		if o.St.mon["sock"] != "open" {
			continue
		}
		good++
		s := o.St.clone()
		for _, r := range e.Run(s, cl, []*Term{o.Res[0]}, nil) {
			closed++
			e.Oblige(r.St, "client-closes", r.Instr, r.St.mon["sock"] == "closed", "closing the statistics client closes the socket that was dialed for it (it is %s)", r.St.mon["sock"])
		}
	}
	c.finish(e, nw)
	c.obFn("dial-outcomes", nw, good > 0 && closed > 0, "a statistics client with a connection is made and closed")
}

// dialModel forks DialNewConn into a connection with three new parts and an error.
type dialModel struct {
	c      *Ctx
	dial   *ssa.Function
	onDial func(e *Engine, st *State, ci *CallInfo)
}

func (d *dialModel) call(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
	if ci.Kind == "go" {
		return nil, false
	}
	if ci.Callee == d.dial {
		if d.onDial != nil {
			d.onDial(e, st, ci)
		}
		bump(st, "dials")
		rt := d.dial.Signature.Results().At(0).Type()
		s2 := st.clone()
		nc := e.newValue(st, rt, "nc")
		if su, ok := rt.Underlying().(*types.Struct); ok {
			for i := 0; i < su.NumFields(); i++ {
				f := su.Field(i)
				v := e.fieldOf(st, nc, rt, i)
				st.facts[eqT(v, nilT())] = false
				if isCloserType(f.Type()) && f.Name() == "Closer" {
					st.ghost["sock"] = coreTerm(v)
				}
			}
		}
		st.mon["sock"] = "open"
		st.mon["dial"] = "ok"
		st.note(e.prog.pos(ci.Site) + ": dialing succeeds")
		err := freshSym(d.dial.Signature.Results().At(1).Type(), "dialerr")
		s2.facts[eqT(err, nilT())] = false
		s2.mon["dial"] = "failed"
		s2.note(e.prog.pos(ci.Site) + ": dialing fails")
		return []CallOut{{st, tupleT(nc, nilT())}, {s2, tupleT(e.zero(rt), err)}}, true
	}
	if shortCall(ci) == "Close" && len(ci.Args) == 1 && st.ghost["sock"] != nil && coreTerm(ci.Args[0]) == st.ghost["sock"] {
		if st.mon["sock"] == "open" {
			st.mon["sock"] = "closed"
		} else {
			st.mon["sock"] = "closed twice or after it was handed on"
		}
		return one(st, e.resultOf(st, ci)), true
	}
	return nil, false
}

// c09Shutdown: after shutdown no connection is current that is not failed.
func c09Shutdown(c *Ctx, n *connEnv, ss *senderState) {
	sd := c.fn("memcache.(sender).shutdown")
	e := c.engine(Hooks{})
	sets := 0
	e.h = Hooks{
		Lock: func(e *Engine, st *State, in ssa.Instruction, op string, l *Term) {
			if op == "lock" {
				n.forget(e, st)
			}
		},
		Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op == OFA && addr.aux == ss.closedF {
				sets++
				st.ghost["self"] = addr.args[0]
				e.Oblige(st, "shutdown-closes", in, val == boolT(true) && len(heldLocks(st)) > 0, "the sender is closed under its lock")
				if st.mon["closing"] == "" {
					// from now on no other connection is installed
					st.mon["closing"] = "1"
					st.ghost["final"] = e.load(st, faT(addr.args[0], ss.curF), ss.curF.Type())
				}
			}
		},
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			return n.onCell(e, st, ci, func(*State, *Term, *Term, bool) {})
		},
	}
	e.h.Load = func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
		if addr.op == OFA && addr.aux == ss.curF && st.mon["closing"] != "" && addr.args[0] == st.ghost["self"] {
			st.heap[addr] = st.ghost["final"]
		}
	}
	e.Volatile = func(f *types.Var) bool { return f == ss.curF }
	for _, o := range e.RunFresh(sd, nil) {
		if o.Panic {
			continue
		}
		e.Oblige(o.St, "shutdown-closes", o.Instr, o.St.mon["closing"] != "", "shutdown closes the sender")
		if cur := o.St.ghost["final"]; cur != nil {
			e.Oblige(o.St, "shutdown-fails-current", o.Instr, n.state(e, o.St, cur) == "set", "the connection that is current when the sender is closed is marked as failed")
		}
	}
	c.finish(e, sd)
	c.obFn("shutdown-closes", sd, sets > 0, "shutdown sets the closed flag")
	// the flag is never taken back
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && fieldOf(s.Addr) == ss.closedF {
					k, isC := s.Val.(*ssa.Const)
					c.ob("closed-stays", in, isC && k.Value != nil && k.Value.String() == "true", "a closed sender stays closed")
				}
			}
		}
	}
}

// c09Goroutine: the goroutine that reconnects.
func c09Goroutine(c *Ctx, n *connEnv, ss *senderState) {
	nw := c.fn("memcache.newConn")
	dial := c.fn("netconn.DialNewConn")
	of := optionFields(c, "memcache")["WithRetryDuration"]
	if nw == nil || dial == nil || of == nil || of.field == nil {
		c.obFn("anchor", nw, false, "the retry duration was not found (undecided)")
		return
	}
	retryF := of.field
	d := &dialModel{c: c, dial: dial}
	ne := &netEnv{c: c}
	memo, gmemo := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	dials := func(fn *ssa.Function) bool {
		return mentions(c, gmemo, fn, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && ci.Common().StaticCallee() == dial
		})
	}
	rel := func(fn *ssa.Function) bool {
		if fn.Pkg != nil && fn.Pkg.Pkg.Name() == "netconn" {
			return fn != dial
		}
		return mentions(c, memo, fn, func(in ssa.Instruction) bool {
			if n.relevant(in) {
				return true
			}
			switch x := in.(type) {
			case *ssa.Select:
				return true
			case *ssa.FieldAddr:
				f := fieldOf(x)
				return f == ss.curF || f == ss.closedF || f == retryF || types.Identical(derefType(x.X.Type()), n.connT)
			case ssa.CallInstruction:
				f := x.Common().StaticCallee()
				return f != nil && (f == dial || f.Pkg != nil && f.Pkg.Pkg.Path() == "time")
			}
			return false
		})
	}
	in := "" // "go" while the goroutine runs
	found, installs, closes, stops, standins, waits := 0, 0, 0, 0, 0, 0
	where := func() string {
		if in == "go" {
			return "the reconnect goroutine"
		}
		return "newConn"
	}
	closedVal := func(e *Engine, st *State, known bool) bool {
		for a, v := range st.heap {
			if a.op == OFA && a.aux == ss.closedF {
				b, ok := e.evalBool(st, v)
				if ok && b == known {
					return true
				}
			}
		}
		return false
	}
	owned := func(e *Engine, st *State, at ssa.Instruction, when string) {
		e.Oblige(st, "socket-owned", at, st.mon["sock"] != "open", "the socket that was dialed is handed to the sender or closed before %s", when)
	}
	d.onDial = func(e *Engine, st *State, ci *CallInfo) {
		owned(e, st, ci.Site, "the next dial")
		if in != "go" {
			e.Oblige(st, "first-dial", ci.Site, st.mon["dials"] == "", "newConn dials once")
			return
		}
		e.Oblige(st, "not-after-close", ci.Site, st.mon["closed"] == "" && !closedVal(e, st, true), "nothing is dialed after the client was found closed")
		e.Oblige(st, "only-after-failure", ci.Site, st.mon["failed"] == "1", "a connection is dialed only after the current one was found failed")
		e.Oblige(st, "retry-wait", ci.Site, st.mon["dial"] != "failed" || st.mon["slept"] == "1", "after a failed dial the retry duration passes before the next one")
		st.mon["slept"] = ""
	}
	retryOf := func(e *Engine, st *State, v *Term) bool { return fieldVals(st, retryF)[v] }
	e := c.engine(Hooks{})
	goRun := func(e *Engine, st *State, ci *CallInfo) {
		in = "go"
		delete(st.mon, "dial")
		for _, o := range e.spawn(st, ci) {
			if o.Panic {
				continue
			}
			stops++
			owned(e, o.St, o.Instr, "the goroutine ends")
			e.Oblige(o.St, "keeps-running", o.Instr, o.St.mon["closed"] == "1" || closedVal(e, o.St, true), "the reconnect goroutine ends only when the client is closed")
		}
		in = ""
	}
	e.h = Hooks{
		Lock: func(e *Engine, st *State, at ssa.Instruction, op string, l *Term) {
			if op == "lock" || op == "wait" {
				n.forget(e, st)
			}
			if op == "wait" {
				waits++
			}
			if op == "wait" || op == "unlock" {
				delete(st.mon, "open")
			}
			if in == "go" && op == "lock" {
				delete(st.mon, "idle")
				if st.mon["sock"] != "open" {
					st.mon["idle"] = "1"
				}
			}
			if in == "go" && op == "unlock" && st.mon["idle"] == "1" && closedVal(e, st, true) {
				st.mon["saw"] = "1"
			}
			if in == "go" && op == "wait" {
				e.Oblige(st, "ends-when-closed", at, !closedVal(e, st, true) && st.mon["closed"] == "", "the goroutine does not wait for a failure once it found the client closed")
			}
		},
		Load: func(e *Engine, st *State, at ssa.Instruction, addr *Term) {
			if addr.op == OFA && addr.aux == ss.curF {
				st.ghost["cur"] = e.load(st, addr, ss.curF.Type())
			}
		},
		Store: func(e *Engine, st *State, at ssa.Instruction, addr, val *Term) {
			if addr.op != OFA || addr.aux != ss.curF {
				return
			}
			r := st.rootAlloc(addr)
			fresh := r != nil && !st.escaped[r]
			has := false
			for a, v := range st.heap {
				if a.op == OFA && rootObj(a) == val && st.ghost["sock"] != nil && coreTerm(v) == st.ghost["sock"] {
					has = true
				}
			}
			if fresh {
				if has {
					st.mon["sock"] = "installed"
				}
				return
			}
			installs++
			e.Oblige(st, "install-dialed", at, has && st.mon["sock"] == "open", "the connection that is installed is the one just dialed, once")
			e.Oblige(st, "install-open", at, len(heldLocks(st)) > 0 && closedVal(e, st, false), "a connection is installed in a critical section in which the sender was found not closed")
			st.mon["sock"] = "installed"
			delete(st.mon, "failed")
			delete(st.mon, "slept")
			delete(st.mon, "dial")
		},
		Select: func(e *Engine, st *State, at *ssa.Select, chans []*Term) {
			owned(e, st, at, "waiting")
		},
		Recv: func(e *Engine, st *State, at ssa.Instruction, ch *Term) {
			if in == "go" && st.ghost["timer"] != nil && isTimerChan(st, ch) {
				st.mon["slept"] = "1"
			}
		},
		Case: func(e *Engine, st *State, at *ssa.Select, k int, ch, val, ok *Term) {
			if k < 0 || at.States[k].Dir != types.RecvOnly || in != "go" {
				return
			}
			if isTimerChan(st, ch) {
				st.mon["slept"] = "1"
			} else if isChanOf(at.States[k].Chan.Type(), isEmptyStruct) {
				e.assume(st, ok, false)
				st.mon["closed"] = "1"
			}
		},
		BackEdge: func(e *Engine, st *State, header, pred *ssa.BasicBlock, head *State) {
			if in == "go" && header.Parent() != nil && dials(header.Parent()) {
				at := pred.Instrs[len(pred.Instrs)-1]
				owned(e, st, at, "the next round")
				e.Oblige(st, "ends-when-closed", at, st.mon["saw"] == "" && st.mon["closed"] == "", "the goroutine goes no other round once it found the client closed")
			}
		},
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			if ci.Kind == "go" {
				for _, a := range ci.Args {
					e.escape(st, a)
				}
				if ci.Fn != nil {
					e.escape(st, ci.Fn)
				}
				if ci.Callee == nil || !dials(ci.Callee) {
					return nil, true
				}
				found++
				s := st.clone()
				if s.mon["dial"] == "failed" && in == "" {
					standins += c09StandIn(e, s, n, ne, ci.Site)
				}
				if s.mon["dial"] == "ok" && in == "" {
					owned(e, s, ci.Site, "the reconnect goroutine is started")
				}
				goRun(e, s, ci)
				return nil, true
			}
			if outs, done := d.call(e, st, ci); done {
				if shortCall(ci) == "Close" {
					closes++
					if in == "go" {
						e.Oblige(st, "close-only-when-closed", ci.Site, st.mon["sock"] == "closed" && (closedVal(e, st, true) || st.mon["closed"] == "1"), "%s closes a socket it dialed only when the client is closed (it is %s)", where(), st.mon["sock"])
					}
				}
				return outs, true
			}
			if outs, done := n.onCell(e, st, ci, func(*State, *Term, *Term, bool) {}); done {
				conn := ci.Args[0].args[0]
				for _, o := range outs {
					if conn == o.St.ghost["cur"] && n.state(e, o.St, conn) == "set" {
						o.St.mon["failed"] = "1"
					}
				}
				return outs, true
			}
			switch ci.Name {
			case "time.After", "time.NewTimer", "time.Tick", "time.NewTicker":
				if in == "go" && retryOf(e, st, ci.Args[0]) {
					r := e.resultOf(st, ci)
					st.facts[eqT(r, nilT())] = false
					st.ghost["timer"] = r
					return one(st, r), true
				}
			case "time.Sleep":
				if in == "go" && retryOf(e, st, ci.Args[0]) {
					st.mon["slept"] = "1"
				}
				return one(st, tupleT()), true
			case "io.NopCloser":
				a := freshAlloc(types.NewPointer(types.Typ[types.Int]), "nopcloser")
				st.ghost["wraps:"+a.String()] = ci.Args[0]
				return one(st, ifaceT(a.typ, a)), true
			}
			return nil, false
		},
	}
	e.Opaque = func(fn *ssa.Function) bool { return !rel(fn) }
	e.Volatile = func(f *types.Var) bool { return f == ss.closedF || !n.atom && f == n.errF }
	for _, o := range e.RunFresh(nw, nil) {
		if !o.Panic {
			owned(e, o.St, o.Instr, "newConn returns")
		}
	}
	c.finish(e, nw)
	c.obFn("background", nw, found > 0, "newConn starts a goroutine that reconnects")
	c.obFn("background", nw, installs > 0 && stops > 0 && waits > 0, "the goroutine waits, installs connections and can stop (%d, %d, %d)", waits, installs, stops)
	c.obFn("stand-in", nw, standins > 0, "after a failed first dial the sender gets a stand-in for a connection")
	c.obFn("closed-when-late", nw, closes > 0, "a socket dialed while the client is closed is closed")
}

func isTimerChan(st *State, ch *Term) bool {
	t := st.ghost["timer"]
	if t == nil {
		return false
	}
	if ch == t {
		return true
	}
	for a, v := range st.heap {
		if a.op == OFA && a.args[0] == t && v == ch {
			return true
		}
	}
	return false
}

// c09StandIn: what the sender got after a failed first dial fails every read and write.
func c09StandIn(e *Engine, st *State, n *connEnv, ne *netEnv, at ssa.Instruction) int {
	k := 0
	for a, v := range st.heap {
		if a.op != OFA || !n.isConnObj(rootObj(a)) || a.typ == nil || derefType(a.typ) == nil {
			continue
		}
		i, ok := derefType(a.typ).Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for m := 0; m < i.NumMethods(); m++ {
			name := i.Method(m).Name()
			if name != "Read" && name != "Write" && name != "Close" {
				continue
			}
			e.Oblige(st, "stand-in", at, e.nonNil(st, v), "the stand-in has a %s", a.aux.(*types.Var).Name())
			if name == "Close" {
				continue
			}
			s := st.clone()
			buf := e.newValue(s, types.NewSlice(types.Typ[types.Uint8]), "p")
			res, ok := e.invoke(s, ne, v, name, buf)
			if !ok {
				e.Oblige(st, "stand-in", at, false, "%s of the stand-in is not understood (undecided)", name)
				continue
			}
			for _, r := range res {
				k++
				e.Oblige(r.St, "stand-in", at, len(r.Res) == 2 && e.nonNil(r.St, r.Res[1]), "%s of the stand-in for a connection returns an error", name)
			}
		}
	}
	return k
}
