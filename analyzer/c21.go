package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:  "C21",
		min: 25,
		rule: "Every With function of the three packages is run symbolically to find what it changes: exactly the one setting (and for the pass-through options exactly the netconn option) it names, with the caller's value. " +
			"New, the goroutines it starts and DialNewConn are then interpreted to see that this very setting is what the mechanism uses: delay before redialing, receive buffer, write limit, batch size, health-check period, logger on each failed dial, keep-alive, dial function, socket buffer and timeouts; all options are applied in order and passed to every dial.",
		not: "Default values; that the operating system honours keep-alive.",
		run: runC21,
	})
}

// mcEffect is what one memcache option changes.
type mcEffect struct {
	direct map[*types.Var]bool // fields set to the caller's value
	conn   map[*types.Var]bool // settings of netconn set to the caller's value
	all    bool                // all netconn options of the caller are appended
	bad    string
}

func memcacheOptionEffects(c *Ctx) map[string]*mcEffect {
	res := map[string]*mcEffect{}
	coF := optionListField(c, "memcache")
	for _, f := range optionFuncs(c, "memcache") {
		ef := &mcEffect{direct: map[*types.Var]bool{}, conn: map[*types.Var]bool{}}
		res[f.Name()] = ef
		var param *Term
		type app struct{ base, add *Term }
		apps := map[*Term]app{}
		e := c.engine(Hooks{Append: func(e *Engine, st *State, in ssa.Instruction, base, add, r *Term) { apps[r] = app{base, add} }})
		outs := e.RunFresh(f, func(st *State, args []*Term) { param = args[0] })
		c.finish(e, f)
		if len(outs) != 1 {
			ef.bad = "more than one way through the option (undecided)"
			continue
		}
		st := outs[0].St
		cl := coreTerm(outs[0].Res[0])
		fn, ok := cl.aux.(*ssa.Function)
		if cl.op != OFunc || !ok || len(fn.Params) != 1 {
			ef.bad = "the option is not a function literal (undecided)"
			continue
		}
		conf := e.newValue(st, fn.Params[0].Type(), "opts")
		st.facts[eqT(conf, nilT())] = false
		before := e.load(st, faT(conf, coF), coF.Type())
		e.h.Store = func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op != OFA || addr.args[0] != conf {
				return
			}
			v := addr.aux.(*types.Var)
			if v == coF {
				return
			}
			if val != param {
				ef.bad = "field " + v.Name() + " does not get the caller's value"
			}
			ef.direct[v] = true
		}
		o2 := e.Run(st, fn, []*Term{conf}, cl.args)
		c.finish(e, fn)
		if len(o2) != 1 {
			ef.bad = "more than one way through the option (undecided)"
			continue
		}
		st = o2[0].St
		after := e.load(st, faT(conf, coF), coF.Type())
		for after != before {
			a, ok := apps[after]
			if !ok {
				ef.bad = "the list of connection options is replaced"
				break
			}
			after = a.base
			if a.add == param {
				ef.all = true
				continue
			}
			n, isC := a.add.args[2].isConstInt()
			if !isC {
				ef.bad = "unknown connection options are appended (undecided)"
				break
			}
			for i := int64(0); i < n; i++ {
				el := coreTerm(e.load(st, iaT(coF.Type().Underlying().(*types.Slice).Elem(), a.add.args[0], linT(a.add.args[1], i)), coF.Type().Underlying().(*types.Slice).Elem()))
				fn2, ok := el.aux.(*ssa.Function)
				if el.op != OFunc || !ok {
					ef.bad = "an unknown connection option is appended (undecided)"
					continue
				}
				s2 := st.clone()
				cf := e.newValue(s2, fn2.Params[0].Type(), "conf")
				s2.facts[eqT(cf, nilT())] = false
				e2 := c.engine(Hooks{Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
					if addr.op == OFA && addr.args[0] == cf {
						if val != param {
							ef.bad = "connection setting " + addr.aux.(*types.Var).Name() + " does not get the caller's value"
						}
						ef.conn[addr.aux.(*types.Var)] = true
					}
				}})
				e2.Run(s2, fn2, []*Term{cf}, el.args)
				c.finish(e2, fn2)
			}
		}
	}
	return res
}

// optionListField: the field of the options that is a slice of netconn options.
func optionListField(c *Ctx, pkg string) *types.Var {
	sp := c.p.spkgs[pkg]
	opt := sp.Type("Option")
	sig, ok := opt.Type().Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	s, ok := derefType(sig.Params().At(0).Type()).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	no := c.p.typ("netconn", "Option")
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), no) {
			return s.Field(i)
		}
	}
	return nil
}

func runC21(c *Ctx) {
	// the options of the connection layer
	nc := optionFields(c, "netconn")
	seen := map[*types.Var]string{}
	for _, name := range sortedKeys(nc) {
		i := nc[name]
		c.obFn("netconn-option", i.fn, i.field != nil && i.exact, "%s stores the caller's value in exactly one setting (it writes %v)", name, i.others)
		if i.field != nil {
			c.obFn("netconn-distinct", i.fn, seen[i.field] == "", "no other option has the same setting (%s has)", seen[i.field])
			seen[i.field] = name
		}
	}
	for _, n := range []string{"WithBufferSize", "WithTCPKeepAliveDuration", "WithDialFunc", "WithReadTimeout", "WithWriteTimeout"} {
		if nc[n] == nil || nc[n].field == nil {
			c.fn("netconn." + n)
			return
		}
	}
	c21Dial(c, nc)
	c21Memcache(c, nc)
	c21Stats(c)
	// timeouts are used for the direction they name
	runC10Timeouts(c)
}

// c21Dial: DialNewConn uses each setting for its mechanism.
func c21Dial(c *Ctx, nc map[string]*optInfo) {
	dial := c.fn("netconn.DialNewConn")
	if dial == nil {
		return
	}
	n := &netEnv{c: c}
	is := func(st *State, name string, t *Term) bool { return fieldVals(st, nc[name].field)[t] }
	n.onDial = func(e *Engine, st *State, ci *CallInfo) {
		e.Oblige(st, "dial-func", ci.Site, is(st, "WithDialFunc", ci.Fn), "the configured dial function is called")
	}
	ka := false
	n.onMethod = func(e *Engine, st *State, ci *CallInfo, name string) {
		if name == "SetKeepAlivePeriod" {
			ka = true
			st.mon["period"] = "1"
			e.Oblige(st, "keep-alive", ci.Site, is(st, "WithTCPKeepAliveDuration", ci.Args[1]), "the keep-alive period is the configured one")
		}
		if name == "SetKeepAlive" {
			e.Oblige(st, "keep-alive", ci.Site, ci.Args[1] == boolT(true), "keep-alive is switched on")
			st.mon["keepalive"] = "1"
		}
	}
	buf := false
	n.onBuf = func(e *Engine, st *State, ci *CallInfo, kind string, size *Term) {
		if strings.HasPrefix(kind, "Writer") {
			buf = true
			e.Oblige(st, "write-buffer", ci.Site, size != nil && is(st, "WithBufferSize", size), "the write buffer has the configured size")
		}
	}
	e := c.engine(Hooks{Call: n.call})
	var opts *Term
	oi := &optIter{}
	e.h.Call = oi.wrap(n.call)
	e.h.Enter, e.h.Leave = oi.enter, oi.leave
	outs := e.RunFresh(dial, func(st *State, args []*Term) { opts = args[len(args)-1]; oi.list = opts })
	oi.check(c, dial)
	for _, o := range outs {
		if e.isNil(o.St, o.Res[1]) {
			tcp := false
			for f, v := range o.St.facts {
				if v && f.op == OApp && strings.HasPrefix(f.aux.(string), "istype:*net.TCPConn") {
					tcp = true
				}
			}
			if tcp {
				e.Oblige(o.St, "keep-alive-set", o.Instr, o.St.mon["period"] == "1" && o.St.mon["keepalive"] == "1", "keep-alive and its period are set on every TCP connection")
			}
		}
	}
	c.finish(e, dial)
	c.obFn("keep-alive-used", dial, ka, "the keep-alive period is set")
	c.obFn("buffer-used", dial, buf, "a buffered writer is made")
}

// optIter checks that all options of a list are applied, in order, to one settings object.
type optIter struct {
	list *Term
	fns  map[*ssa.Function]bool // functions that apply options
}

func (oi *optIter) enter(e *Engine, st *State, fn *ssa.Function, args []*Term) {
	for _, a := range args {
		if oi.list != nil && a.op == OSlice && a.args[0] == oi.list.args[0] {
			st.ghost["applied:"+fn.String()] = intT(0)
		}
	}
}

func (oi *optIter) leave(e *Engine, st *State, fn *ssa.Function, args []*Term, o Outcome) {
	k := "applied:" + fn.String()
	if v := st.ghost[k]; v != nil && oi.fns[fn] {
		e.Oblige(st, "all-options", o.Instr, st.zone.le(oi.list.args[2], v), "all options are applied")
	}
	delete(st.ghost, k)
}

func (oi *optIter) wrap(inner func(*Engine, *State, *CallInfo) ([]CallOut, bool)) func(*Engine, *State, *CallInfo) ([]CallOut, bool) {
	return func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		if oi.list != nil && ci.Name == "dynamic" && len(ci.Args) == 1 && ci.Kind == "call" {
			for a, v := range st.heap {
				if v == ci.Fn && a.op == OIA && a.args[0] == oi.list.args[0] {
					fn := st.frame.fn
					if oi.fns == nil {
						oi.fns = map[*ssa.Function]bool{}
					}
					oi.fns[fn] = true
					it := types.Typ[types.Int]
					idx := e.sub(st, a.args[1], oi.list.args[1], it)
					k := "applied:" + fn.String()
					next := st.ghost[k]
					e.Oblige(st, "all-options", ci.Site, next != nil && st.zone.eq(idx, next), "options are applied one after the other, none is left out (applying number %s, due is %s)", idx, next)
					st.ghost[k] = e.add(st, idx, intT(1), it)
					break
				}
			}
		}
		if inner == nil {
			return nil, false
		}
		return inner(e, st, ci)
	}
}

// check: some function applied the options.
func (oi *optIter) check(c *Ctx, fn *ssa.Function) {
	c.obFn("all-options", fn, len(oi.fns) > 0, "a loop applies the options")
}

// c21Relevant: the function, or one it calls or makes, does something the rule looks at.
// Calls through interfaces leave the package (readers, writers, closers).
func c21Relevant(c *Ctx, memo map[*ssa.Function]bool, fn *ssa.Function, stores bool) bool {
	if v, ok := memo[fn]; ok {
		return v
	}
	memo[fn] = false
	r := fn.Name() == "DialNewConn"
	var owners []*types.Named
	for _, tn := range []string{"connWriteLimiter", "clientConn", "coreConnection"} {
		if n := c.p.typ("memcache", tn); n != nil {
			owners = append(owners, n)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go:
				r = r || stores
			case *ssa.Store:
				if !stores {
					break
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					for _, o := range owners {
						r = r || types.Identical(derefType(fa.X.Type()), o)
					}
					r = r || x.Val.Type().String() == "time.Duration"
				}
			}
			if call, ok := in.(ssa.CallInstruction); ok {
				cc := call.Common()
				switch callee := cc.StaticCallee(); {
				case cc.IsInvoke():
					r = r || cc.Method.Name() == "Read"
				case callee == nil:
					s := cc.Signature()
					if s.Params().Len() == 1 && s.Results().Len() == 0 {
						t := s.Params().At(0).Type()
						_, ptr := t.Underlying().(*types.Pointer)
						r = r || ptr || isErrorType(t)
					}
				case callee.Blocks == nil || !c.p.inRepo(callee):
					r = r || strings.HasPrefix(callee.String(), "time.")
				}
			}
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok && c.p.inRepo(f) && c21Relevant(c, memo, f, stores) {
					r = true
				}
			}
		}
	}
	memo[fn] = r
	return r
}

func c21Memcache(c *Ctx, nc map[string]*optInfo) {
	efs := memcacheOptionEffects(c)
	coF := optionListField(c, "memcache")
	get := func(name string) *types.Var {
		ef := efs[name]
		if ef == nil {
			c.fn("memcache." + name)
			return nil
		}
		var f *types.Var
		for v := range ef.direct {
			f = v
		}
		return f
	}
	type want struct {
		direct int
		conn   string
		all    bool
	}
	wants := map[string]want{
		"WithRetryDuration":        {1, "", false},
		"WithBufferSize":           {1, "WithBufferSize", false},
		"WithDialErrorLogger":      {1, "", false},
		"WithTCPKeepAliveDuration": {0, "WithTCPKeepAliveDuration", false},
		"WithDialFunc":             {0, "WithDialFunc", false},
		"WithNetConnOptions":       {0, "", true},
		"WithWriteLimit":           {1, "", false},
		"WithMaxCommandsPerBatch":  {1, "", false},
		"WithHealthCheckDuration":  {1, "", false},
	}
	seen := map[*types.Var]string{}
	for _, name := range sortedKeys(wants) {
		w, ef := wants[name], efs[name]
		fn := c.fn("memcache." + name)
		if fn == nil || ef == nil {
			continue
		}
		ok := ef.bad == "" && len(ef.direct) == w.direct && ef.all == w.all
		if w.conn != "" {
			ok = ok && len(ef.conn) == 1 && ef.conn[nc[w.conn].field]
		} else {
			ok = ok && len(ef.conn) == 0
		}
		c.obFn("memcache-option", fn, ok, "%s changes exactly what it names (%s)", name, ef.bad)
		for v := range ef.direct {
			c.obFn("memcache-distinct", fn, seen[v] == "", "no other option has the same setting (%s has)", seen[v])
			seen[v] = name
		}
	}
	retryF, bufF, logF, limF, batchF, healthF := get("WithRetryDuration"), get("WithBufferSize"), get("WithDialErrorLogger"), get("WithWriteLimit"), get("WithMaxCommandsPerBatch"), get("WithHealthCheckDuration")
	if retryF == nil || bufF == nil || logF == nil || limF == nil || batchF == nil || healthF == nil || coF == nil {
		return
	}
	nw := c.fn("memcache.New")
	if nw == nil {
		return
	}
	var args []*Term
	// flow[f]: the fields that received the value of the setting f, f included
	flow := map[*types.Var]map[*types.Var]bool{}
	for _, f := range []*types.Var{retryF, bufF, logF, limF, batchF, healthF} {
		flow[f] = map[*types.Var]bool{f: true}
	}
	from := func(st *State, f *types.Var, v *Term) bool {
		for g := range flow[f] {
			vs := fieldVals(st, g)
			if vs[v] || v.op == OApp && strings.HasPrefix(v.aux.(string), "conv:") && vs[v.args[0]] {
				return true
			}
		}
		return false
	}
	role := "" // which goroutine is analysed
	used := map[string]bool{}
	memo, gmemo := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	var hook func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool)
	hook = func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		logged := func(what string) {
			e.Oblige(st, "logged", ci.Site, st.mon["logdue"] == "", "a failed dial is logged before %s", what)
		}
		switch {
		case ci.Kind == "go":
			old := role
			role = ""
			if ci.Callee != nil {
				eff := c.p.effects(ci.Callee)
				for f := range eff.funcs {
					if f.Name() == "DialNewConn" {
						role = "reconnect"
					}
					if recvName(f) == "Pipeline" && f.Name() == "Version" {
						role = "health"
					}
				}
				if old == "" && c21Relevant(c, gmemo, ci.Callee, false) {
					for _, o := range e.spawn(st, ci) {
						e.Oblige(o.St, "logged", o.Instr, o.St.mon["logdue"] == "", "a failed dial is logged")
					}
				}
			}
			role = old
			return nil, true
		case ci.Callee != nil && ci.Callee == c.p.fn("netconn.DialNewConn"):
			e.Oblige(st, "dial-address", ci.Site, ci.Args[0] == args[0], "the client's address is dialed")
			ok := fieldVals(st, coF)[ci.Args[1]]
			e.Oblige(st, "dial-options", ci.Site, ok, "all connection options are passed to the dial")
			logged("the next dial")
			used["dial"+role] = true
			s2 := st.clone()
			rt := ci.Callee.Signature.Results().At(0).Type()
			r := tupleT(e.newValue(st, rt, "nc"), nilT())
			err := freshSym(ci.Callee.Signature.Results().At(1).Type(), "dialerr")
			s2.facts[eqT(err, nilT())] = false
			s2.mon["logdue"] = "1"
			s2.ghost["dialerr"] = err
			return []CallOut{{st, r}, {s2, tupleT(e.zero(rt), err)}}, true
		case ci.Name == "dynamic" && len(ci.Args) == 1 && ci.Args[0].typ != nil && isErrorType(ci.Args[0].typ):
			if !from(st, logF, ci.Fn) {
				return nil, false
			}
			used["log"+role] = true
			e.Oblige(st, "log-only-failures", ci.Site, st.mon["logdue"] == "1" && st.ghost["dialerr"] == ci.Args[0], "the logger gets the error of a dial that failed, once")
			delete(st.mon, "logdue")
			return one(st, tupleT()), true
		case ci.Name == "time.After" || ci.Name == "time.NewTimer" || ci.Name == "time.Sleep" || ci.Name == "time.NewTicker" || ci.Name == "time.AfterFunc":
			logged("waiting")
			switch role {
			case "reconnect":
				used["retry"] = true
				e.Oblige(st, "retry-duration", ci.Site, from(st, retryF, ci.Args[0]), "the delay before redialing is the retry duration")
			case "health":
				used["health"] = true
				e.Oblige(st, "health-duration", ci.Site, from(st, healthF, ci.Args[0]), "the health-check period is the configured one")
			default:
				e.Oblige(st, "timer", ci.Site, false, "a timer outside of the reconnect and health-check goroutines (undecided)")
			}
		case ci.Name == "invoke:(io.Reader).Read" || shortCall(ci) == "Read" && strings.HasPrefix(ci.Name, "invoke:"):
			used["read"] = true
			b := ci.Args[1]
			e.Oblige(st, "receive-buffer", ci.Site, b.op == OSlice && from(st, bufF, b.args[2]), "responses are read into a buffer of the configured size")
		}
		return nil, false
	}
	oi := &optIter{}
	e := c.engine(Hooks{
		Call: oi.wrap(hook),
		Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op != OFA {
				return
			}
			v := addr.aux.(*types.Var)
			for f := range flow {
				if types.Identical(v.Type(), f.Type()) || f == limF {
					if !flow[f][v] && from(st, f, val) {
						flow[f][v] = true
					}
				}
			}
		},
	})
	e.Opaque = func(fn *ssa.Function) bool { return !c21Relevant(c, memo, fn, true) }
	e.h.Enter, e.h.Leave = oi.enter, oi.leave
	outs := e.RunFresh(nw, func(st *State, a []*Term) { args = a; oi.list = a[2] })
	oi.check(c, nw)
	for _, o := range outs {
		if e.isNil(o.St, o.Res[1]) {
			e.Oblige(o.St, "logged", o.Instr, o.St.mon["logdue"] == "", "a failed dial is logged")
		}
	}
	c.finish(e, nw)
	for _, k := range []string{"dial", "dialreconnect", "log", "logreconnect", "retry", "health", "read"} {
		c.obFn("mechanism", nw, used[k], "the mechanism %q was found", k)
	}

	wl := c.p.field("memcache", "connWriteLimiter", "writeLimit")
	c.obFn("write-limit", nw, wl != nil && flow[limF][wl], "the write limit reaches the limiter")
	// the batch size reaches the builder of every session
	ops := pipelineOps(c)
	if len(ops) == 0 {
		return
	}
	builderT := c.p.typ("memcache", "cmdBuilder")
	if builderT == nil {
		c.obFn("batch-size", nw, false, "the builder type was not found")
		return
	}
	bmemo := map[*ssa.Function]bool{}
	opStoresMemo := func(fn *ssa.Function) bool { return !storesInto(c, bmemo, fn, builderT) }
	for _, op := range ops {
		found := map[*types.Var]bool{}
		other := map[*types.Var]*Term{}
		e := c.engine(Hooks{Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op != OFA || !isIntType(addr.aux.(*types.Var).Type()) || !ownerIs(addr, builderT) {
				return
			}
			v := addr.aux.(*types.Var)
			for f := range flow[batchF] {
				if fieldVals(st, f)[val] {
					found[v] = true
					return
				}
			}
			other[v] = val
		}})
		e.Opaque = opStoresMemo
		e.RunFresh(op, nil)
		c.finish(e, op)
		ok := false
		for v := range found {
			ok = ok || other[v] == nil
		}
		c.obFn("batch-size", op, ok, "a new session of %s gets the batch size of its connection", op.Name())
	}
}

// storesInto: the function, or one it calls, stores an integer field of the type.
func storesInto(c *Ctx, memo map[*ssa.Function]bool, fn *ssa.Function, n *types.Named) bool {
	if v, ok := memo[fn]; ok {
		return v
	}
	memo[fn] = false
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Store); ok && isIntType(x.Val.Type()) {
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && types.Identical(derefType(fa.X.Type()), n) {
					r = true
				}
			}
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok && c.p.inRepo(f) && storesInto(c, memo, f, n) {
					r = true
				}
			}
		}
	}
	memo[fn] = r
	return r
}

// ownerIs: the field address belongs to a struct of the type.
func ownerIs(addr *Term, n *types.Named) bool {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i) == addr.aux.(*types.Var) {
			return true
		}
	}
	return false
}

func c21Stats(c *Ctx) {
	nw := c.fn("stats.New")
	if nw == nil {
		return
	}
	fs := optionFields(c, "stats")
	seen := map[*types.Var]bool{}
	for _, n := range []string{"WithErrorLogger", "WithNetConnOptions"} {
		i := fs[n]
		if i == nil {
			c.fn("stats." + n)
			return
		}
		c.obFn("stats-option", i.fn, i.field != nil && i.exact && !seen[i.field], "%s stores the caller's value in exactly one setting of its own", n)
		if i.field == nil {
			return
		}
		seen[i.field] = true
	}
	logF, coF := fs["WithErrorLogger"].field, fs["WithNetConnOptions"].field
	var args []*Term
	oi := &optIter{}
	hook := func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		switch {
		case ci.Callee != nil && ci.Callee == c.p.fn("netconn.DialNewConn"):
			e.Oblige(st, "stats-dial", ci.Site, ci.Args[0] == args[0] && fieldVals(st, coF)[ci.Args[1]], "the address and all connection options are passed to the dial")
			s2 := st.clone()
			rt := ci.Callee.Signature.Results().At(0).Type()
			r := tupleT(e.newValue(st, rt, "nc"), nilT())
			err := freshSym(ci.Callee.Signature.Results().At(1).Type(), "dialerr")
			s2.facts[eqT(err, nilT())] = false
			s2.mon["logdue"] = "1"
			s2.ghost["dialerr"] = err
			return []CallOut{{st, r}, {s2, tupleT(e.zero(rt), err)}}, true
		case ci.Name == "dynamic" && fieldVals(st, logF)[ci.Fn]:
			e.Oblige(st, "stats-log", ci.Site, st.mon["logdue"] == "1" && st.ghost["dialerr"] == ci.Args[0], "the logger gets the error of a dial that failed")
			delete(st.mon, "logdue")
			return one(st, tupleT()), true
		}
		return nil, false
	}
	e := c.engine(Hooks{Call: oi.wrap(hook)})
	e.h.Enter, e.h.Leave = oi.enter, oi.leave
	outs := e.RunFresh(nw, func(st *State, a []*Term) { args = a; oi.list = a[1] })
	oi.check(c, nw)
	for _, o := range outs {
		e.Oblige(o.St, "stats-log", o.Instr, o.St.mon["logdue"] == "", "a failed dial is logged")
	}
	c.finish(e, nw)
}
