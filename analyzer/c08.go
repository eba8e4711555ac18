package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:  "C08",
		min: 12,
		rule: "The sender goroutine, the receiver goroutine and every operation of a pipeline are interpreted with the error state of each connection object as a cell: every write, flush and read of a connection happens only when its error cell was seen empty; " +
			"every error of one of them, of the response reader and of a decoder (other than a server error) is stored in the cell of that connection before anything else is done with it, unless the cell is already full; the cell is only written under one lock and when empty; " +
			"the socket is closed exactly once for each such write; commands complete with nil only if nothing failed, otherwise with the error kept in the cell.",
		not: "That two goroutines seeing the cell at the same time do not use the socket concurrently with its being closed (a read may be running while the connection is failed; the closed socket then returns an error).",
		run: runC08,
	})
}

// connEnv describes the objects that stand for one dialed connection.
type connEnv struct {
	c     *Ctx
	connT *types.Named // the connection object (reader, writer, closer and error)
	errF  *types.Var   // its error cell
	atom  bool         // the cell is an atomic
}

func hasFieldType(t types.Type, is func(types.Type) bool, depth int) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 3 {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if is(ft) || hasFieldType(ft, is, depth+1) {
			return true
		}
	}
	return false
}

// isCloserType: an interface with a method Close() error.
func isCloserType(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for k := 0; k < i.NumMethods(); k++ {
		if i.Method(k).Name() == "Close" {
			return true
		}
	}
	return false
}

func newConnEnv(c *Ctx) *connEnv {
	n := &connEnv{c: c}
	sc := c.p.spkgs["memcache"].Pkg.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || !hasFieldType(nt, isCloserType, 0) {
			continue
		}
		for _, f := range structFields(nt) {
			ft := f.Type()
			at := isAtomicType(ft) && (strings.Contains(ft.String(), "atomic.Pointer") || strings.Contains(ft.String(), "atomic.Value"))
			if at || isErrorType(ft) {
				n.connT, n.errF, n.atom = nt, f, at
			}
		}
	}
	if n.connT == nil {
		c.obFn("anchor", nil, false, "no type with a closer and an error was found (undecided)")
		return nil
	}
	return n
}

func (n *connEnv) isConnObj(t *Term) bool {
	return t != nil && t.typ != nil && types.Identical(derefType(t.typ), n.connT)
}

// makesConn: a function that returns a connection object.
func (n *connEnv) makesConn(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if types.Identical(derefType(rs.At(i).Type()), n.connT) {
			return true
		}
	}
	return false
}

func rootObj(a *Term) *Term {
	for a.op == OFA {
		a = a.args[0]
	}
	return a
}

// connOf: the connection object whose reader, writer or closer this is.
func (n *connEnv) connOf(st *State, v *Term) *Term {
	v = coreTerm(v)
	var best *Term
	for a, w := range st.heap {
		if a.op == OFA && coreTerm(w) == v {
			if r := rootObj(a); n.isConnObj(r) && (best == nil || r.String() < best.String()) {
				best = r
			}
		}
	}
	return best
}

func (n *connEnv) cell(conn *Term) *Term {
	a := faT(conn, n.errF)
	if n.atom {
		return appT(types.NewPointer(types.Typ[types.Int]), "atomic", a)
	}
	return a
}

// state of the error cell: "set", "clear" or "" when not known.
func (n *connEnv) state(e *Engine, st *State, conn *Term) string {
	v, ok := st.heap[n.cell(conn)]
	switch {
	case !ok:
		return ""
	case e.nonNil(st, v):
		return "set"
	case e.isNil(st, v):
		return "clear"
	}
	return ""
}

// recorded is the error kept in the cell.
func (n *connEnv) recorded(e *Engine, st *State, conn *Term) *Term {
	v, ok := st.heap[n.cell(conn)]
	if !ok {
		return nil
	}
	return n.unwrap(e, st, v)
}

func (n *connEnv) unwrap(e *Engine, st *State, v *Term) *Term {
	if v.isNilTerm() {
		return nil
	}
	if !n.atom || v.typ == nil || isErrorType(v.typ) {
		return v
	}
	if derefType(v.typ) == nil {
		return nil
	}
	if s, ok := derefType(v.typ).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if isErrorType(s.Field(i).Type()) {
				return e.load(st, faT(v, s.Field(i)), s.Field(i).Type())
			}
		}
	}
	if v.op == OIface {
		return v
	}
	if isErrorType(derefType(v.typ)) {
		return e.load(st, v, derefType(v.typ))
	}
	return nil
}

// onCell handles the atomic operations on error cells. write is called before a value is stored.
func (n *connEnv) onCell(e *Engine, st *State, ci *CallInfo, write func(st *State, conn, val *Term, cas bool)) ([]CallOut, bool) {
	if !n.atom || ci.Callee == nil || !isAtomicMethod(ci.Callee) || len(ci.Args) == 0 {
		return nil, false
	}
	a := ci.Args[0]
	if a.op != OFA || a.aux != n.errF {
		return nil, false
	}
	conn := a.args[0]
	cell := n.cell(conn)
	get := func(s *State) *Term {
		v, ok := s.heap[cell]
		if !ok {
			v = e.newValue(s, n.cellType(), "lasterr")
			s.heap[cell] = v
		}
		return v
	}
	name := ci.Callee.Name()
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	switch name {
	case "Load":
		if v, ok := st.heap[cell]; ok && (e.nonNil(st, v) || e.isNil(st, v)) {
			return one(st, v), true
		}
		// it holds an error or nothing: nil errors are never stored
		s2 := st.clone()
		st.heap[cell] = nilT()
		delete(s2.heap, cell)
		v := get(s2)
		s2.facts[eqT(v, nilT())] = false
		if r := n.unwrap(e, s2, v); r != nil {
			s2.facts[eqT(r, nilT())] = false
		}
		return []CallOut{{st, nilT()}, {s2, v}}, true
	case "Store":
		write(st, conn, ci.Args[1], false)
		e.escape(st, ci.Args[1])
		st.heap[cell] = ci.Args[1]
		return one(st, tupleT()), true
	case "Swap":
		old := get(st)
		write(st, conn, ci.Args[1], false)
		e.escape(st, ci.Args[1])
		st.heap[cell] = ci.Args[1]
		return one(st, old), true
	case "CompareAndSwap":
		if !ci.Args[1].isNilTerm() {
			e.Oblige(st, "first-error", ci.Site, false, "the error is replaced only when there is none yet")
			return one(st, e.resultOf(st, ci)), true
		}
		s2 := st.clone()
		var outs []CallOut
		// it was empty
		if n.state(e, st, conn) != "set" {
			delete(st.heap, cell)
			write(st, conn, ci.Args[2], true)
			e.escape(st, ci.Args[2])
			st.heap[cell] = ci.Args[2]
			outs = append(outs, CallOut{st, boolT(true)})
		}
		delete(s2.heap, cell)
		v := get(s2)
		s2.facts[eqT(v, nilT())] = false
		if r := n.unwrap(e, s2, v); r != nil {
			s2.facts[eqT(r, nilT())] = false
		}
		return append(outs, CallOut{s2, boolT(false)}), true
	}
	return nil, false
}

func (n *connEnv) cellType() types.Type {
	if nt, ok := n.errF.Type().(*types.Named); ok && nt.TypeArgs() != nil && nt.TypeArgs().Len() == 1 {
		return types.NewPointer(nt.TypeArgs().At(0))
	}
	return types.NewInterfaceType(nil, nil)
}

// forget: other goroutines may have failed the connections meanwhile.
func (n *connEnv) forget(e *Engine, st *State) {
	for a, v := range st.heap {
		f := a
		if n.atom {
			if a.op != OApp || a.aux != "atomic" {
				continue
			}
			f = a.args[0]
		}
		if f.op != OFA || f.aux != n.errF || e.nonNil(st, v) {
			continue
		}
		if r := st.rootAlloc(f.args[0]); r != nil && !st.escaped[r] {
			continue
		}
		delete(st.heap, a)
		if !n.atom {
			st.epoch[locKey(a, derefType(a.typ))] = freshEpoch()
		}
	}
}

// ioCall: a use of a connection: "Write", "Flush", "Read" or "Close", and the connection.
func (n *connEnv) ioCall(st *State, ci *CallInfo) (string, *Term) {
	if ci.Kind == "go" || len(ci.Args) == 0 {
		return "", nil
	}
	var recv *Term
	name := shortCall(ci)
	switch {
	case strings.HasPrefix(ci.Name, "invoke:"):
		recv = ci.Args[0]
	case ci.Callee != nil && !n.c.p.inRepo(ci.Callee):
		switch ci.Name {
		case "io.ReadFull", "io.ReadAtLeast":
			name, recv = "Read", ci.Args[0]
		case "io.WriteString", "fmt.Fprintf", "fmt.Fprint":
			name, recv = "Write", ci.Args[0]
		case "io.Copy":
			name, recv = "Write", ci.Args[0]
		default:
			return "", nil
		}
	default:
		return "", nil
	}
	if conn := n.connOf(st, recv); conn != nil {
		switch name {
		case "Write", "WriteString", "WriteByte", "ReadFrom":
			return "Write", conn
		case "Flush", "Read", "Close":
			return name, conn
		}
	}
	return "", nil
}

// relevant instructions: uses of connections, their error cell, completion of commands, decoding.
func (n *connEnv) relevant(in ssa.Instruction) bool {
	if ci, ok := in.(ssa.CallInstruction); ok {
		cc := ci.Common()
		if cc.IsInvoke() {
			switch cc.Method.Name() {
			case "Write", "Flush", "Read", "Close":
				return true
			}
		}
		if f := cc.StaticCallee(); f != nil && isAtomicMethod(f) && len(cc.Args) > 0 && fieldOf(cc.Args[0]) == n.errF {
			return true
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		return fieldOf(x.Addr) == n.errF
	case *ssa.UnOp:
		return fieldOf(x.X) == n.errF
	case *ssa.Send:
		ch, ok := x.Chan.Type().Underlying().(*types.Chan)
		return ok && isErrorType(ch.Elem())
	}
	return false
}

// errorSig: the function is given or returns an error.
func errorSig(fn *ssa.Function) bool {
	if fn == nil {
		return true
	}
	s := fn.Signature
	for i := 0; i < s.Results().Len(); i++ {
		if isErrorType(s.Results().At(i).Type()) {
			return true
		}
	}
	for i := 0; i < s.Params().Len(); i++ {
		if isErrorType(s.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

func runC08(c *Ctx) {
	n := newConnEnv(c)
	if n == nil {
		return
	}
	pcmd := c.p.typ("memcache", "pipelineCmd")
	nextData := c.fn("memcache.(responseReader).readNextData")
	rd := c.p.typ("memcache", "responseReader")
	cl := c.p.typ("memcache", "commandListData")
	if rd == nil || cl == nil {
		c.fn("memcache.responseReader")
		return
	}
	var rdErr, cmdConn *types.Var
	for _, f := range structFields(rd) {
		if isErrorType(f.Type()) {
			rdErr = f
		}
	}
	for _, f := range structFields(cl) {
		if types.Identical(derefType(f.Type()), n.connT) {
			cmdConn = f
		}
	}
	srvErr := c.p.typ("memcache", "ErrServerError")
	if pcmd == nil || nextData == nil || rdErr == nil || cmdConn == nil || srvErr == nil {
		return
	}
	memo := map[*ssa.Function]bool{}
	rel := func(fn *ssa.Function) bool {
		return mentions(c, memo, fn, func(in ssa.Instruction) bool {
			if ci, ok := in.(ssa.CallInstruction); ok && isDecoder(ci.Common().StaticCallee()) {
				return true
			}
			if u, ok := in.(*ssa.UnOp); ok && fieldOf(u.X) == rdErr {
				return true
			}
			if t, ok := in.(*ssa.TypeAssert); ok && isErrorType(t.X.Type()) {
				return true
			}
			return n.relevant(in)
		})
	}
	isServer := func(st *State, err *Term) bool {
		for f, v := range st.facts {
			if v && f.op == OApp && strings.HasPrefix(f.aux.(string), "istype:") && strings.HasSuffix(f.aux.(string), ".ErrServerError") && coreTerm(f.args[0]) == coreTerm(err) {
				return true
			}
		}
		return false
	}
	seen := map[string]int{}
	reached := map[ssa.Instruction]bool{}
	var lockOf *types.Var
	// conn is marked as failed now
	recorded := func(e *Engine, st *State, conn *Term) {
		pc := st.ghost["pendConn"]
		if st.mon["pend"] == "decode" {
			pc = st.ghost["curConn"]
		}
		if pc == conn {
			delete(st.mon, "pend")
		}
		if r := st.ghost["rerr"]; r != nil && st.ghost["curConn"] == conn && e.nonNil(st, r) {
			st.mon["failed"], st.ghost["failConn"] = "1", conn
			delete(st.ghost, "rerr")
		}
	}
	// nothing that failed is left unreported
	due := func(e *Engine, st *State, in ssa.Instruction, when string) {
		if st.mon["pend"] != "" {
			conn, err := st.ghost["pendConn"], st.ghost["pend"]
			if st.mon["pend"] == "decode" {
				conn = st.ghost["curConn"]
			}
			ok := conn != nil && n.state(e, st, conn) == "set" || st.mon["pend"] == "decode" && isServer(st, err)
			e.Oblige(st, "failure-recorded", in, ok, "the connection is marked as failed after an error of %s, before %s", st.mon["pend"], when)
			delete(st.mon, "pend")
		}
		if st.mon["unchecked"] != "" {
			e.Oblige(st, "reader-checked", in, false, "after a response was read the response reader is asked for its error, before %s", when)
			delete(st.mon, "unchecked")
		}
		if r := st.ghost["rerr"]; r != nil {
			if e.nonNil(st, r) {
				conn := st.ghost["curConn"]
				e.Oblige(st, "failure-recorded", in, conn != nil && n.state(e, st, conn) == "set", "the connection is marked as failed after an error of the response reader, before %s", when)
			}
			delete(st.ghost, "rerr")
		}
		if st.mon["close"] != "" {
			e.Oblige(st, "closed-once", in, false, "the socket of a connection that failed is closed before %s", when)
			delete(st.mon, "close")
		}
		if st.mon["lost"] != "" {
			e.Oblige(st, "error-kept", in, false, "the error of a response is kept for its command, before %s", when)
			delete(st.mon, "lost")
		}
	}
	pending := func(e *Engine, st *State, conn, err *Term, what string) {
		st.mon["pend"] = what
		st.ghost["pend"] = err
		if conn != nil {
			st.ghost["pendConn"] = conn
		} else {
			delete(st.ghost, "pendConn")
		}
	}
	write := func(e *Engine, st *State, in ssa.Instruction, conn, val *Term, cas bool) {
		seen["cell"]++
		reached[in] = true
		if r := st.rootAlloc(conn); r != nil && !st.escaped[r] {
			recorded(e, st, conn)
			return // not shared yet
		}
		err := n.unwrap(e, st, val)
		global := err != nil && func() bool {
			for a, v := range st.heap {
				if a.op == OGlobal && v == err {
					return true
				}
			}
			return false
		}()
		e.Oblige(st, "error-stored", in, err != nil && (e.nonNil(st, err) || global), "an error is stored, never nil")
		if !cas {
			h := heldLocks(st)
			var f *types.Var
			for _, l := range h {
				if k, ok := lockClass(l).(*types.Var); ok && (lockOf == nil || k == lockOf) {
					f = k
				}
			}
			e.Oblige(st, "under-lock", in, f != nil, "the error of a connection is stored under the same lock everywhere (held: %s)", heldNames(c, h))
			if f != nil {
				lockOf = f
			}
			e.Oblige(st, "first-error", in, n.state(e, st, conn) == "clear", "the error of a connection is stored only when it was found to have none, under the same lock")
		}
		if st.mon["pend"] != "" && st.ghost["pendConn"] == conn {
			e.Oblige(st, "right-error", in, err == st.ghost["pend"], "the error that happened is the one that is kept")
		}
		if r := st.ghost["rerr"]; r != nil && st.ghost["curConn"] == conn && e.nonNil(st, r) {
			e.Oblige(st, "right-error", in, err == r, "the error that happened is the one that is kept")
		}
		if st.mon["close"] != "" {
			due(e, st, in, "another error is stored")
		}
		recorded(e, st, conn)
		st.mon["close"] = "due"
		st.ghost["closeConn"] = conn
	}
	idle := func(st *State) bool {
		for _, k := range []string{"pend", "close", "lost", "unchecked", "failed"} {
			if st.mon[k] != "" {
				return false
			}
		}
		return st.ghost["rerr"] == nil && len(heldLocks(st)) == 0
	}
	roots := entryPoints(c, rel)
	// parameters of function type and interfaces are reached through their callers
	var rs []*ssa.Function
	for _, r := range roots {
		if pk := r.Pkg; pk != nil && pk.Pkg.Name() == "memcache" || r.Parent() != nil && r.Parent().Pkg.Pkg.Name() == "memcache" {
			rs = append(rs, r)
		}
	}
	isRoot := map[*ssa.Function]bool{}
	for _, r := range rs {
		isRoot[r] = true
	}
	for i := 0; i < len(rs); i++ {
		root := rs[i]
		e := c.engine(Hooks{})
		e.h = Hooks{
			Lock: func(e *Engine, st *State, in ssa.Instruction, op string, l *Term) {
				switch op {
				case "lock", "rlock", "trylock":
					n.forget(e, st)
				case "wait":
					due(e, st, in, "waiting")
					n.forget(e, st)
				}
			},
			Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
				if addr.op != OFA {
					return
				}
				if !n.atom && addr.aux == n.errF {
					write(e, st, in, addr.args[0], val, false)
					return
				}
				if isErrorType(derefType(addr.typ)) && addr.args[0].typ != nil && types.Identical(derefType(addr.args[0].typ), pcmd) {
					if st.mon["lost"] != "" {
						ok := val == st.ghost["decErr"]
						if conn := st.ghost["curConn"]; conn != nil && n.state(e, st, conn) == "set" {
							ok = ok || val == n.recorded(e, st, conn)
						}
						e.Oblige(st, "error-kept", in, ok && e.nonNil(st, val), "the command gets the error of its response, or the error its connection failed with")
						delete(st.mon, "lost")
					}
				}
			},
			Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
				if addr.op == OFA && addr.aux == rdErr {
					delete(st.mon, "unchecked")
					st.ghost["rerr"] = e.load(st, addr, rdErr.Type())
				}
				if addr.op == OFA && addr.aux == cmdConn {
					st.ghost["curConn"] = e.load(st, addr, cmdConn.Type())
				}
			},
			Send: func(e *Engine, st *State, in ssa.Instruction, ch, val *Term) {
				t, ok := ch.typ.Underlying().(*types.Chan)
				if !ok || !isErrorType(t.Elem()) {
					return
				}
				if r := st.ghost["rerr"]; r != nil && e.nonNil(st, r) {
					st.mon["failed"] = "1"
					st.ghost["failConn"] = st.ghost["curConn"]
				}
				due(e, st, in, "completing the command")
				seen["complete"]++
				if st.mon["failed"] == "" {
					return
				}
				var rec *Term
				if conn := st.ghost["failConn"]; conn != nil {
					rec = n.recorded(e, st, conn)
				}
				e.Oblige(st, "failure-reported", in, e.nonNil(st, val) && (rec == nil || val == rec), "a command whose connection failed completes with the error kept for the connection")
				delete(st.mon, "failed")
			},
			Recv: func(e *Engine, st *State, in ssa.Instruction, ch *Term) { due(e, st, in, "waiting") },
			Select: func(e *Engine, st *State, in *ssa.Select, chans []*Term) {
				due(e, st, in, "waiting")
			},
			BackEdge: func(e *Engine, st *State, header, pred *ssa.BasicBlock, head *State) {
				if st.frame.parent == nil {
					due(e, st, pred.Instrs[len(pred.Instrs)-1], "going on")
				}
			},
			Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
				if ci.Kind == "go" {
					return nil, true
				}
				if outs, done := n.onCell(e, st, ci, func(st *State, conn, val *Term, cas bool) { write(e, st, ci.Site, conn, val, cas) }); done {
					for _, o := range outs {
						if conn := ci.Args[0].args[0]; n.state(e, o.St, conn) == "set" {
							recorded(e, o.St, conn)
						}
					}
					return outs, true
				}
				if ci.Callee == nextData {
					seen["reader"]++
					s2 := st.clone()
					e.havocEffects(st, c.p.effects(nextData))
					e.havocEffects(s2, c.p.effects(nextData))
					st.mon["unchecked"] = "1"
					return []CallOut{{st, boolT(true)}, {s2, boolT(false)}}, true
				}
				if isDecoder(ci.Callee) && ci.Kind == "call" {
					due(e, st, ci.Site, "the next response is decoded")
					seen["decode"]++
					outs := okErr(e, st, ci, nil, nil)
					if len(outs) == 2 {
						s := outs[1].St
						err := lastOf(outs[1].Res)
						pending(e, s, nil, err, "decode")
						s.mon["lost"] = "1"
						s.ghost["decErr"] = err
					}
					return outs, true
				}
				op, conn := n.ioCall(st, ci)
				switch op {
				case "":
					if ci.Callee != root && !errorSig(ci.Callee) && idle(st) && alone(c, e, st, ci) && rel(ci.Callee) && !n.makesConn(ci.Callee) {
						// interpreted on its own: nothing is pending, and errors are not passed
						if !isRoot[ci.Callee] {
							isRoot[ci.Callee] = true
							rs = append(rs, ci.Callee)
						}
						n.forget(e, st)
						return e.opaqueCall(st, ci), true
					}
					return nil, false
				case "Close":
					ok := st.mon["close"] != "" && st.ghost["closeConn"] == conn
					if r := st.rootAlloc(conn); r != nil && !st.escaped[r] {
						ok = true
					}
					e.Oblige(st, "closed-once", ci.Site, ok, "the socket of a connection is closed exactly once, when the connection fails")
					delete(st.mon, "close")
					seen["close"]++
					return one(st, e.resultOf(st, ci)), true
				}
				due(e, st, ci.Site, "the connection is used again")
				reached[ci.Site] = true
				seen[op]++
				e.Oblige(st, "not-after-failure", ci.Site, n.state(e, st, conn) == "clear", "%s only on a connection that was found to have no error", op)
				if op == "Read" && ci.Args[len(ci.Args)-1].op == OSlice {
					e.havocElems(st, ci.Args[len(ci.Args)-1].args[0])
				}
				return okErr(e, st, ci, func(s *State) {
					if op == "Read" {
						s.ghost["readConn"] = conn
					}
				}, func(s *State) {
					s.mon["failed"] = "1"
					s.ghost["failConn"] = conn
					pending(e, s, conn, nil, op)
				}), true
			},
		}
		inner := e.h.Call
		e.h.Call = func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			outs, done := inner(e, st, ci)
			if done && len(outs) == 2 {
				s := outs[1].St
				switch s.mon["pend"] {
				case "Read", "Write", "Flush":
					if s.ghost["pend"] == nil {
						s.ghost["pend"] = lastOf(outs[1].Res)
					}
				}
			}
			return outs, done
		}
		e.Merge = func(fn *ssa.Function) bool { return !errorSig(fn) }
		e.Opaque = func(fn *ssa.Function) bool { return !rel(fn) && !n.makesConn(fn) }
		if !n.atom {
			e.Volatile = func(f *types.Var) bool { return f == n.errF }
		}
		for _, o := range e.RunFresh(root, nil) {
			if !o.Panic {
				due(e, o.St, o.Instr, root.Name()+" ends")
			}
		}
		c.finish(e, root)
	}
	for _, k := range []string{"Write", "Flush", "Read", "Close", "close", "cell", "complete", "decode", "reader"} {
		if k == "Close" {
			continue
		}
		c.obFn("anchor", nil, seen[k] > 0, "the analysis reached %s", k)
	}
}
