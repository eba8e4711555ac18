package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:  "C10",
		min: 9,
		rule: "DialNewConn and the methods of the reader and writer it installs are interpreted for all configurations: dialing gets the connect timeout, every Read/Write of the socket " +
			"happens only right after SetReadDeadline/SetWriteDeadline(time.Now()+that timeout) succeeded on the same socket in the same call, an error of setting it is returned, and the result of the socket is passed on. " +
			"The dial function made for a password sets a deadline from its timeout before its first byte and removes it before handing the connection on.",
		not: "That the operating system honours deadlines; connections supplied by a custom dial function that ignores them.",
		run: runC10,
	})
	register(&Check{
		id:  "C22",
		min: 9,
		rule: "The closure returned by GetDialFunc is interpreted for all usernames, passwords and server behaviours: exactly one message is written whose pieces are the set line with length = len(username)+1+len(password) and the payload; " +
			"a connection is returned with a nil error only if that write succeeded and all 8 bytes of the answer were read into one buffer without gaps and found equal to STORED CRLF; every other return has a non-nil error and the socket was closed exactly once.",
		not: "Server side checking of the password.",
		run: runC22,
	})
}

// fieldsOf: the duration fields of netconn's configuration by role.
func timeoutFields(c *Ctx) (connect, rd, wr *types.Var) {
	of := optionFields(c, "netconn")
	get := func(n string) *types.Var {
		i := of[n]
		c.obls = append(c.obls, Obligation{Rule: "option", Fn: n, OK: i != nil && i.field != nil && i.exact, Msg: n + " stores its argument in exactly one setting"})
		if i == nil {
			return nil
		}
		return i.field
	}
	rd, wr = get("WithReadTimeout"), get("WithWriteTimeout")
	ka := of["WithTCPKeepAliveDuration"]
	cfg := c.p.typ("netconn", "config")
	if cfg == nil {
		c.fn("netconn.config")
		return
	}
	s := cfg.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if types.TypeString(f.Type(), nil) != "time.Duration" || f == rd || f == wr || ka != nil && f == ka.field {
			continue
		}
		if connect != nil {
			c.obls = append(c.obls, Obligation{Rule: "option", Fn: "netconn.config", OK: false, Msg: "more than one duration without an option: the connect timeout is not identified (undecided)"})
		}
		connect = f
	}
	c.obls = append(c.obls, Obligation{Rule: "option", Fn: "netconn.config", OK: connect != nil && rd != nil && wr != nil && rd != wr, Msg: "connect, read and write timeout are three settings"})
	return
}

func runC10(c *Ctx) {
	runC10Timeouts(c)
	c10Auth(c)
}

// runC10Timeouts: dialing and the reader and writer of a dialed connection.
func runC10Timeouts(c *Ctx) {
	dial := c.fn("netconn.DialNewConn")
	if dial == nil {
		return
	}
	conF, rdF, wrF := timeoutFields(c)
	if conF == nil || rdF == nil || wrF == nil {
		return
	}
	var rdT, wrT map[*Term]bool
	n := &netEnv{c: c}
	inWrap := "" // the direction whose wrapper runs
	n.onDial = func(e *Engine, st *State, ci *CallInfo) {
		e.Oblige(st, "connect-timeout", ci.Site, fieldVals(st, conF)[ci.Args[2]] && !fieldVals(st, rdF)[ci.Args[2]] && !fieldVals(st, wrF)[ci.Args[2]], "dialing gets the connect timeout, got %s", ci.Args[2])
	}
	n.onIO = func(e *Engine, st *State, ci *CallInfo, dir string, buf *Term, toks []Tok) {
		if inWrap == "" {
			e.Oblige(st, "io-under-deadline", ci.Site, false, "the socket is used while dialing, outside of the reader and writer with timeouts")
			return
		}
		want := rdT
		if dir == "w" {
			want = wrT
		}
		d := st.ghost["dl:"+dir]
		ok := st.mon["dl:"+dir] == "fresh" && d != nil && want[d]
		msg := "the deadline set right before is now plus the configured timeout of this direction"
		switch {
		case st.mon["dl:"+dir] == "":
			msg = "no deadline was set in this call before the socket is used"
		case st.mon["dl:"+dir] == "failed":
			msg = "setting the deadline failed and the socket is used all the same"
		case st.mon["dl:"+dir] == "used":
			msg = "the socket is used a second time under the same deadline"
		case !ok:
			msg = "the deadline that was set is not now plus the configured timeout of this direction"
		}
		e.Oblige(st, "io-under-deadline", ci.Site, ok, "%s", msg)
		e.Oblige(st, "io-direction", ci.Site, dir == inWrap, "the %s method uses the socket in its own direction", inWrap)
		st.mon["dl:"+dir] = "used"
		st.mon["io:"+dir] = "1"
	}
	e := c.engine(Hooks{Call: n.call})
	outs := e.RunFresh(dial, nil)
	c.finish(e, dial)
	ncT := dial.Signature.Results().At(0).Type()
	good := 0
	for _, o := range outs {
		if !e.isNil(o.St, o.Res[1]) {
			continue
		}
		good++
		rdT, wrT = fieldVals(o.St, rdF), fieldVals(o.St, wrF)
		for _, w := range []struct{ field, method, dir string }{{"Reader", "Read", "r"}, {"Writer", "Write", "w"}} {
			st := o.St.clone()
			delete(st.mon, "dl:r")
			delete(st.mon, "dl:w")
			delete(st.ghost, "now")
			delete(st.ghost, "lasterr")
			recv := optField(e, st, o.Res[0], ncT, w.field)
			buf := e.newValue(st, types.NewSlice(types.Typ[types.Uint8]), "p")
			inWrap = w.dir
			var ioRes *Term
			e.h.Call = func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
				outs, done := n.call(e, st, ci)
				if done && (shortCall(ci) == "Read" || shortCall(ci) == "Write") {
					for _, x := range outs {
						x.St.ghost["iores"] = x.Res
					}
				}
				return outs, done
			}
			res, ok := e.invoke(st, n, recv, w.method, buf)
			e.h.Call = n.call
			c.obFn("wrapped", dial, ok, "the %s of a dialed connection is a type with timeouts", w.field)
			if !ok {
				continue
			}
			for _, r := range res {
				ioRes = r.St.ghost["iores"]
				if r.St.mon["io:"+w.dir] != "" {
					e.Oblige(r.St, "io-result", r.Instr, ioRes != nil && len(r.Res) == 2 && ioRes.args[0] == r.Res[0] && ioRes.args[1] == r.Res[1],
						"%s returns what the socket returned", w.method)
				} else {
					e.Oblige(r.St, "io-or-error", r.Instr, len(r.Res) == 2 && e.nonNil(r.St, r.Res[1]), "%s without using the socket returns an error", w.method)
				}
			}
			c.obFn("reaches-socket", dial, func() bool {
				for _, r := range res {
					if r.St.mon["io:"+w.dir] != "" {
						return true
					}
				}
				return false
			}(), "%s of the dialed connection reaches the socket", w.method)
			if len(res) > 0 {
				c.finish(e, dial)
			}
		}
		inWrap = ""
	}
	c.obFn("dial-success", dial, good > 0, "DialNewConn can return a connection")
}

func (e *Engine) isNil(st *State, t *Term) bool {
	v, known := e.evalBool(st, eqT(t, nilT()))
	return t.op == ONil || known && v
}

// authClosure runs GetDialFunc and gives its closure ready to run.
func authClosure(c *Ctx, n *netEnv) (e *Engine, st *State, cl *Term, fn *ssa.Function, args []*Term, auth *Term) {
	g := c.fn("netconn.(PasswordAuth).GetDialFunc")
	if g == nil {
		return
	}
	e = c.engine(Hooks{Call: n.call})
	outs := e.RunFresh(g, func(st *State, a []*Term) { auth = a[0] })
	c.finish(e, g)
	c.obFn("closure", g, len(outs) == 1, "GetDialFunc makes one dial function")
	if len(outs) != 1 {
		return
	}
	st = outs[0].St
	cl = coreTerm(outs[0].Res[0])
	f, ok := cl.aux.(*ssa.Function)
	c.obFn("closure", g, cl.op == OFunc && ok, "GetDialFunc makes one dial function")
	if !ok || cl.op != OFunc {
		return
	}
	fn = f
	for _, p := range fn.Params {
		args = append(args, e.newValue(st, p.Type(), p.Name()))
	}
	return
}

func c10Auth(c *Ctx) {
	n := &netEnv{c: c}
	var args []*Term
	n.onDial = func(e *Engine, st *State, ci *CallInfo) {
		e.Oblige(st, "auth-dial-timeout", ci.Site, ci.Args[2] == args[2], "the inner dial function gets the connect timeout")
	}
	n.onIO = func(e *Engine, st *State, ci *CallInfo, dir string, buf *Term, toks []Tok) {
		if st.zone.le(args[2], intT(0)) {
			return // no timeout is configured
		}
		ok := st.mon["dl:"+dir] == "fresh" && st.ghost["dl:"+dir] == args[2]
		e.Oblige(st, "auth-deadline", ci.Site, ok, "the handshake uses the socket only after its deadline was set from the connect timeout")
	}
	e, st, cl, fn, as, _ := authClosure(c, n)
	if fn == nil {
		return
	}
	args = as
	outs := e.Run(st, fn, args, cl.args)
	c.finish(e, fn)
	good := 0
	for _, o := range outs {
		if !e.isNil(o.St, o.Res[1]) {
			continue
		}
		good++
		for _, dir := range []string{"r", "w"} {
			m := o.St.mon["dl:"+dir]
			e.Oblige(o.St, "auth-deadline-removed", o.Instr, m == "none" || m == "", "the handshake's deadline is removed before the connection is handed on")
		}
	}
	c.finish(e, fn)
	c.obFn("auth-success", fn, good > 0, "the handshake can succeed")
}

const storedReply = "STORED\r\n"

func runC22(c *Ctx) {
	n := &netEnv{c: c}
	var auth *Term
	n.onIO = func(e *Engine, st *State, ci *CallInfo, dir string, buf *Term, toks []Tok) {
		e.Oblige(st, "open", ci.Site, st.mon["nc"] == "open", "the socket is used only while it is open")
		if dir == "w" {
			e.Oblige(st, "one-message", ci.Site, bump(st, "writes") == 1 && st.mon["reads"] == "", "one message is written, before the answer is read")
			uF, pF := authFields(c)
			if uF == nil || pF == nil {
				return
			}
			u, p := e.load(st, faT(auth, uF), uF.Type()), e.load(st, faT(auth, pF), pF.Type())
			ts := joinLits(toks)
			ok := len(ts) == 7 && ts[0].lit == "set memcached_auth 0 0 " && ts[1].kind == "num" && ts[2].lit == "\r\n" &&
				ts[3].kind == "bytes" && ts[3].t == u && ts[4].lit == " " && ts[5].kind == "bytes" && ts[5].t == p && ts[6].lit == "\r\n"
			e.Oblige(st, "message", ci.Site, ok, "the message is the set line, then username, a space, the password and CRLF; found %s", toksString(ts))
			if ok {
				e.Oblige(st, "message-length", ci.Site, e.sumEq(st, []*Term{ts[1].t}, []*Term{e.lenOf(st, u), e.lenOf(st, p), intT(1)}), "the announced length is that of the payload, found %s", ts[1].t)
			}
			st.mon["wrote"] = ""
			return
		}
		e.Oblige(st, "ask-first", ci.Site, st.mon["writes"] == "1", "the answer is read after the message was written")
		st.mon["reads"] = "1"
		if buf.op != OSlice {
			e.Oblige(st, "whole-answer", ci.Site, false, "the answer is read into a slice")
			return
		}
		if st.ghost["rbase"] == nil {
			st.ghost["rbase"], st.ghost["roff"], st.ghost["rpos"] = buf.args[0], buf.args[1], buf.args[1]
			st.ghost["rrem"] = buf.args[2]
			e.Oblige(st, "whole-answer", ci.Site, st.zone.eq(buf.args[2], intT(int64(len(storedReply)))), "the answer's %d bytes are asked for, found %s", len(storedReply), buf.args[2])
			return
		}
		e.Oblige(st, "no-gap", ci.Site, st.ghost["rbase"] == buf.args[0] && st.zone.eq(buf.args[1], st.ghost["rpos"]), "each piece of the answer is stored right after the previous one")
		e.Oblige(st, "no-more", ci.Site, st.zone.le(buf.args[2], st.ghost["rrem"]) || st.zone.le(e.add(st, st.ghost["rpos"], buf.args[2], types.Typ[types.Int]), linT(st.ghost["roff"], int64(len(storedReply)))), "no more than the rest of the answer is asked for")
	}
	n.onRead = func(e *Engine, st *State, ci *CallInfo, buf, k *Term) {
		if st.ghost["rpos"] == nil {
			return
		}
		it := types.Typ[types.Int]
		st.ghost["rpos"] = e.add(st, st.ghost["rpos"], k, it)
		st.ghost["rrem"] = e.sub(st, st.ghost["rrem"], k, it)
	}
	e, st, cl, fn, args, a := authClosure(c, n)
	if fn == nil {
		return
	}
	auth = a
	outs := e.Run(st, fn, args, cl.args)
	good, bad := 0, 0
	for _, o := range outs {
		s := o.St
		if e.nonNil(s, o.Res[1]) {
			bad++
			if s.mon["nc"] != "" {
				e.Oblige(s, "closed-on-failure", o.Instr, s.mon["nc"] == "closed", "a connection that is not accepted is closed exactly once (it is %s)", s.mon["nc"])
			}
			continue
		}
		good++
		e.Oblige(s, "success-connection", o.Instr, s.mon["nc"] == "open" && n.isConn(s, o.Res[0]), "the open connection itself is returned")
		e.Oblige(s, "success-error", o.Instr, e.isNil(s, o.Res[1]), "success means a nil error")
		e.Oblige(s, "success-asked", o.Instr, s.mon["writes"] == "1", "the password was sent")
		rem := s.ghost["rrem"]
		e.Oblige(s, "success-complete", o.Instr, rem != nil && (s.zone.eq(rem, intT(0)) || s.zone.le(linT(s.ghost["roff"], int64(len(storedReply))), s.ghost["rpos"])), "the complete answer was read")
		e.Oblige(s, "success-equal", o.Instr, rem != nil && storedCompared(s), "the answer was found equal to STORED CRLF")
	}
	c.finish(e, fn)
	c.obFn("outcomes", fn, good > 0 && bad >= 3, "success and failures were seen (%d and %d ways)", good, bad)
	c22Ctor(c)
}

// storedCompared: the state knows that the bytes read equal STORED CRLF.
func storedCompared(st *State) bool {
	isAnswer := func(b *Term) bool {
		return b != nil && b.op == OSlice && b.args[0] == st.ghost["rbase"] && st.zone.eq(b.args[1], st.ghost["roff"]) && st.zone.eq(b.args[2], intT(int64(len(storedReply))))
	}
	content := func(t *Term) (lit string, src *Term) {
		if t.op == OStr {
			return t.aux.(string), nil
		}
		if ts := joinLits(st.content[t]); len(ts) == 1 {
			if ts[0].kind == "lit" {
				return ts[0].lit, nil
			}
			return "", ts[0].t
		}
		return "", t
	}
	for f, v := range st.facts {
		if !v || len(f.args) != 2 || f.op != OEq && !(f.op == OApp && f.aux == "bytesEqual") {
			continue
		}
		l1, s1 := content(f.args[0])
		l2, s2 := content(f.args[1])
		if l1 == storedReply && isAnswer(s2) || l2 == storedReply && isAnswer(s1) {
			return true
		}
	}
	return false
}

// authFields: the fields NewPasswordAuth stores its two arguments in.
func authFields(c *Ctx) (u, p *types.Var) {
	f := c.p.fn("netconn.NewPasswordAuth")
	if f == nil {
		return
	}
	e := c.engine(Hooks{})
	var args []*Term
	outs := e.RunFresh(f, func(st *State, a []*Term) { args = a })
	for _, o := range outs {
		if len(args) != 2 {
			return
		}
		for a, v := range o.St.heap {
			if a.op == OFA && a.args[0] == coreTerm(o.Res[0]) {
				if v == args[0] {
					u = a.aux.(*types.Var)
				}
				if v == args[1] {
					p = a.aux.(*types.Var)
				}
			}
		}
	}
	return
}

func c22Ctor(c *Ctx) {
	f := c.fn("netconn.NewPasswordAuth")
	if f == nil {
		return
	}
	u, p := authFields(c)
	c.obFn("constructor", f, u != nil && p != nil && u != p, "NewPasswordAuth keeps the username and the password in two settings")
}
