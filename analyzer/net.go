package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// netEnv gives the meaning of the network, time and buffering functions of the standard library,
// for code that dials a connection and works with it.
type netEnv struct {
	c        *Ctx
	onDial   func(e *Engine, st *State, ci *CallInfo)
	onIO     func(e *Engine, st *State, ci *CallInfo, dir string, buf *Term, toks []Tok)
	onRead   func(e *Engine, st *State, ci *CallInfo, buf, n *Term) // a successful read
	onClose  func(e *Engine, st *State, ci *CallInfo)
	onSet    func(e *Engine, st *State, ci *CallInfo, dir string, d *Term, fresh bool)
	onMethod func(e *Engine, st *State, ci *CallInfo, name string)
	onBuf    func(e *Engine, st *State, ci *CallInfo, kind string, size *Term)
}

// coreTerm strips interface wrapping and type assertions.
func coreTerm(t *Term) *Term {
	for t != nil {
		switch {
		case t.op == OIface:
			t = t.args[0]
		case t.op == OApp && strings.HasPrefix(t.aux.(string), "as:"):
			t = t.args[0]
		default:
			return t
		}
	}
	return t
}

// isDialSig: func(network, address string, timeout time.Duration) (net.Conn, error)
func isDialSig(s *types.Signature) bool {
	if s.Params().Len() != 3 || s.Results().Len() != 2 || !isErrorType(s.Results().At(1).Type()) {
		return false
	}
	return types.TypeString(s.Results().At(0).Type(), nil) == "net.Conn" && types.TypeString(s.Params().At(2).Type(), nil) == "time.Duration"
}

func (n *netEnv) isConn(st *State, t *Term) bool {
	if t == nil || st.ghost["nc"] == nil {
		return false
	}
	t = coreTerm(t)
	for t.op == OFA { // a promoted method of the concrete connection
		t = coreTerm(t.args[0])
	}
	return t == st.ghost["nc"]
}

// okErr forks a call with an error result: once without and once with an error.
func okErr(e *Engine, st *State, ci *CallInfo, ok, fail func(st *State)) []CallOut {
	sig := ci.Site.Common().Signature()
	k := sig.Results().Len()
	mkRes := func(s *State, isErr bool) *Term {
		var rs []*Term
		for i := 0; i < k; i++ {
			t := sig.Results().At(i).Type()
			switch {
			case i == k-1 && isErr:
				r := e.newValue(s, t, "err")
				s.facts[eqT(r, nilT())] = false
				rs = append(rs, r)
			case i == k-1:
				rs = append(rs, nilT())
			default:
				rs = append(rs, e.newValue(s, t, "n"))
			}
		}
		if k == 1 {
			return rs[0]
		}
		return tupleT(rs...)
	}
	s2 := st.clone()
	if ok != nil {
		ok(st)
	}
	if fail != nil {
		fail(s2)
	}
	r1, r2 := mkRes(st, false), mkRes(s2, true)
	st.note(e.prog.pos(ci.Site) + ": " + shortCall(ci) + " succeeds")
	s2.note(e.prog.pos(ci.Site) + ": " + shortCall(ci) + " fails")
	s2.ghost["lasterr"] = lastOf(r2)
	return []CallOut{{st, r1}, {s2, r2}}
}

func lastOf(t *Term) *Term {
	if t.op == OTuple {
		return t.args[len(t.args)-1]
	}
	return t
}

func shortCall(ci *CallInfo) string {
	s := ci.Name
	if i := strings.LastIndexAny(s, "."); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func bump(st *State, k string) int {
	v, _ := strconv.Atoi(st.mon[k])
	if v < 9 {
		v++
	}
	st.mon[k] = strconv.Itoa(v)
	return v
}

func (n *netEnv) call(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
	if ci.Kind == "go" {
		return nil, false
	}
	switch ci.Name {
	case "time.Now":
		r := e.resultOf(st, ci)
		st.ghost["now"] = r
		return one(st, r), true
	case "(time.Time).Add":
		t, d := ci.Args[0], ci.Args[1]
		if t.op == OStruct {
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = appT(a.typ, "timeadd"+strconv.Itoa(i), a, d)
			}
			return one(st, mk(OStruct, t.typ, t.aux, args...)), true
		}
	case "bufio.NewWriter", "bufio.NewWriterSize", "bufio.NewReader", "bufio.NewReaderSize", "bufio.NewScanner":
		a := freshAlloc(ci.Site.Common().Signature().Results().At(0).Type(), "bufio")
		st.ghost["wraps:"+a.String()] = ci.Args[0]
		if n.onBuf != nil {
			var size *Term
			if len(ci.Args) > 1 {
				size = ci.Args[1]
			}
			n.onBuf(e, st, ci, strings.TrimPrefix(ci.Name, "bufio.New"), size)
		}
		return one(st, a), true
	case "io.ReadFull", "io.ReadAtLeast":
		if n.isConn(st, ci.Args[0]) && ci.Args[1].op == OSlice {
			min := ci.Args[1].args[2]
			if len(ci.Args) > 2 {
				min = ci.Args[2]
			}
			return n.read(e, st, ci, ci.Args[1], min), true
		}
	case "io.WriteString", "fmt.Fprintf", "fmt.Fprint":
		if n.isConn(st, ci.Args[0]) {
			v := ci.Args[1]
			if ci.Name == "fmt.Fprintf" {
				v = e.sprintf(st, ci.Args[1], ci.Args[2])
			}
			if ci.Name == "fmt.Fprint" {
				v = nil
			}
			return n.write(e, st, ci, v), true
		}
	}
	sig := ci.Site.Common().Signature()
	if isDialSig(sig) && (ci.Callee == nil || !e.prog.inRepo(ci.Callee)) && ci.Site.Common().Signature().Recv() == nil {
		if n.onDial != nil {
			n.onDial(e, st, ci)
		}
		bump(st, "dialed")
		s2 := st.clone()
		nc := freshSym(sig.Results().At(0).Type(), "nc")
		st.facts[eqT(nc, nilT())] = false
		st.ghost["nc"] = nc
		st.mon["nc"] = "open"
		err := freshSym(sig.Results().At(1).Type(), "dialerr")
		s2.facts[eqT(err, nilT())] = false
		s2.ghost["lasterr"] = err
		st.note(e.prog.pos(ci.Site) + ": dialing succeeds")
		s2.note(e.prog.pos(ci.Site) + ": dialing fails")
		return []CallOut{{st, tupleT(nc, nilT())}, {s2, tupleT(nilT(), err)}}, true
	}
	// a method of the connection
	if len(ci.Args) > 0 && n.isConn(st, ci.Args[0]) && (strings.HasPrefix(ci.Name, "invoke:") || ci.Callee != nil && !e.prog.inRepo(ci.Callee) && ci.Callee.Signature.Recv() != nil) {
		name := shortCall(ci)
		switch name {
		case "Close":
			if st.mon["nc"] == "open" {
				st.mon["nc"] = "closed"
			} else {
				st.mon["nc"] = "closed twice"
			}
			if n.onClose != nil {
				n.onClose(e, st, ci)
			}
			return one(st, e.resultOf(st, ci)), true
		case "Read":
			return n.read(e, st, ci, ci.Args[1], intT(0)), true
		case "Write":
			return n.write(e, st, ci, ci.Args[1]), true
		case "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
			dirs := []string{"r", "w"}
			if name == "SetReadDeadline" {
				dirs = dirs[:1]
			} else if name == "SetWriteDeadline" {
				dirs = dirs[1:]
			}
			d, what := n.deadline(e, st, ci.Args[1])
			if n.onSet != nil {
				for _, dir := range dirs {
					n.onSet(e, st, ci, dir, d, what == "fresh")
				}
			}
			return okErr(e, st, ci, func(s *State) {
				for _, dir := range dirs {
					s.mon["dl:"+dir] = what
					if d != nil {
						s.ghost["dl:"+dir] = d
					} else {
						delete(s.ghost, "dl:"+dir)
					}
				}
			}, func(s *State) {
				for _, dir := range dirs {
					s.mon["dl:"+dir] = "failed"
				}
			}), true
		}
		if n.onMethod != nil {
			n.onMethod(e, st, ci, name)
		}
		if k := sig.Results().Len(); k > 0 && isErrorType(sig.Results().At(k-1).Type()) {
			return okErr(e, st, ci, nil, nil), true
		}
	}
	return nil, false
}

// deadline classifies a deadline: "fresh" with its duration, "none" or "other".
func (n *netEnv) deadline(e *Engine, st *State, t *Term) (*Term, string) {
	if t.op != OStruct {
		return nil, "other"
	}
	zero := true
	for _, a := range t.args {
		if k, ok := a.isConstInt(); ok && k == 0 || a.op == ONil {
			continue
		}
		zero = false
	}
	if zero {
		return nil, "none"
	}
	now := st.ghost["now"]
	if now == nil || now.op != OStruct || len(now.args) != len(t.args) {
		return nil, "other"
	}
	var d *Term
	for i, a := range t.args {
		if a.op != OApp || a.aux != "timeadd"+strconv.Itoa(i) || a.args[0] != now.args[i] || d != nil && a.args[1] != d {
			return nil, "other"
		}
		d = a.args[1]
	}
	return d, "fresh"
}

func (n *netEnv) read(e *Engine, st *State, ci *CallInfo, buf, min *Term) []CallOut {
	if n.onIO != nil {
		n.onIO(e, st, ci, "r", buf, nil)
	}
	if buf.op == OSlice {
		e.havocElems(st, buf.args[0])
	}
	outs := okErr(e, st, ci, nil, nil)
	for i, o := range outs {
		k := o.Res.args[0]
		o.St.zone.assumeLe(intT(0), k, 0)
		o.St.zone.assumeLe(k, e.lenOf(o.St, buf), 0)
		if i == 0 {
			o.St.zone.assumeLe(min, k, 0)
			if n.onRead != nil {
				n.onRead(e, o.St, ci, buf, k)
			}
		}
	}
	return outs
}

func (n *netEnv) write(e *Engine, st *State, ci *CallInfo, v *Term) []CallOut {
	var toks []Tok
	if v != nil {
		toks = e.toks(st, v)
	}
	if n.onIO != nil {
		n.onIO(e, st, ci, "w", v, toks)
	}
	outs := okErr(e, st, ci, nil, nil)
	for i, o := range outs {
		k := o.Res.args[0]
		o.St.zone.assumeLe(intT(0), k, 0)
		if v != nil && i == 0 {
			o.St.zone.assumeLe(k, e.lenOf(o.St, v), 0)
			o.St.zone.assumeLe(e.lenOf(o.St, v), k, 0)
		}
	}
	return outs
}

// toks is the content of a string or byte slice as pieces.
func (e *Engine) toks(st *State, v *Term) []Tok {
	if c, ok := st.content[v]; ok {
		return c
	}
	return []Tok{strTok(v)}
}

// joinLits merges neighbouring literal pieces.
func joinLits(ts []Tok) []Tok {
	var r []Tok
	for _, t := range ts {
		if t.kind == "lit" && t.lit == "" {
			continue
		}
		if t.kind == "lit" && len(r) > 0 && r[len(r)-1].kind == "lit" {
			r[len(r)-1].lit += t.lit
			continue
		}
		r = append(r, t)
	}
	return r
}

// sprintf gives the content of a formatted string for constant formats with %s, %d and %v.
func (e *Engine) sprintf(st *State, format, args *Term) *Term {
	r := freshSym(types.Typ[types.String], "sprintf")
	if format.op != OStr || args.op != OSlice {
		return r
	}
	f := format.aux.(string)
	var toks []Tok
	k := int64(0)
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			toks = append(toks, Tok{kind: "lit", lit: f[i : i+1]})
			continue
		}
		i++
		if i >= len(f) {
			return r
		}
		if f[i] == '%' {
			toks = append(toks, Tok{kind: "lit", lit: "%"})
			continue
		}
		a, ok := st.heap[iaT(types.NewInterfaceType(nil, nil), args.args[0], linT(args.args[1], k))]
		if !ok {
			for ad, v := range st.heap {
				if ad.op == OIA && ad.args[0] == args.args[0] && ad.args[1] == linT(args.args[1], k) {
					a, ok = v, true
				}
			}
		}
		k++
		if !ok || a.op != OIface {
			return r
		}
		v := a.args[0]
		t := a.aux.(types.Type)
		_, named := t.(*types.Named)
		switch {
		case (f[i] == 's' || f[i] == 'v') && !named && isStringType(t):
			toks = append(toks, e.toks(st, v)...)
		case (f[i] == 'd' || f[i] == 'v') && !named && isIntType(t):
			toks = append(toks, Tok{kind: "num", t: v})
		default:
			return r
		}
	}
	st.content[r] = joinLits(toks)
	return r
}

// invoke calls a method of an interface value the state knows.
func (e *Engine) invoke(st *State, n *netEnv, recv *Term, method string, args ...*Term) ([]Outcome, bool) {
	for recv.op == OIface {
		t := recv.aux.(types.Type)
		if w := st.ghost["wraps:"+recv.args[0].String()]; w != nil {
			recv = w
			continue
		}
		ms := e.prog.ssa.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == method {
				if m := e.prog.ssa.MethodValue(ms.At(i)); m != nil && len(m.Blocks) > 0 && e.prog.inRepo(m) {
					return e.execFn(st, m, append([]*Term{recv.args[0]}, args...), nil, nil), true
				}
			}
		}
		recv = recv.args[0]
		if recv.op == OStruct { // a promoted method of an embedded interface
			su := recv.aux.(types.Type).Underlying().(*types.Struct)
			for i := 0; i < su.NumFields(); i++ {
				if iface, ok := su.Field(i).Type().Underlying().(*types.Interface); ok && su.Field(i).Embedded() {
					for k := 0; k < iface.NumMethods(); k++ {
						if iface.Method(k).Name() == method && recv.op == OStruct {
							recv = recv.args[i]
						}
					}
				}
			}
		}
	}
	return nil, false
}

// optionFields runs every exported With function of a package and gives the one field it writes
// with the caller's value (nil when it writes none or several).
type optInfo struct {
	fn     *ssa.Function
	field  *types.Var
	exact  bool // the stored value is the parameter itself
	others []string
}

func optionFuncs(c *Ctx, pkg string) []*ssa.Function {
	var res []*ssa.Function
	sp := c.p.spkgs[pkg]
	for _, name := range sortedKeys(sp.Members) {
		f, ok := sp.Members[name].(*ssa.Function)
		if !ok || f.Object() == nil || !f.Object().Exported() || !strings.HasPrefix(name, "With") || f.Signature.Results().Len() != 1 {
			continue
		}
		res = append(res, f)
	}
	return res
}

func optionFields(c *Ctx, pkg string) map[string]*optInfo {
	res := map[string]*optInfo{}
	for _, f := range optionFuncs(c, pkg) {
		info := &optInfo{fn: f}
		res[f.Name()] = info
		var param, conf *Term
		e := c.engine(Hooks{})
		outs := e.RunFresh(f, func(st *State, args []*Term) { param = args[0] })
		c.finish(e, f)
		if len(outs) != 1 {
			continue
		}
		cl := coreTerm(outs[0].Res[0])
		fn, ok := cl.aux.(*ssa.Function)
		if cl.op != OFunc || !ok || len(fn.Params) != 1 {
			continue
		}
		st := outs[0].St
		conf = e.newValue(st, fn.Params[0].Type(), "conf")
		st.facts[eqT(conf, nilT())] = false
		writes := map[*types.Var][]*Term{}
		e.h.Store = func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op == OFA && addr.args[0] == conf {
				v := addr.aux.(*types.Var)
				writes[v] = append(writes[v], val)
			}
		}
		o2 := e.execFn(st, fn, []*Term{conf}, cl.args, nil)
		c.finish(e, fn)
		for v, vs := range writes {
			info.others = append(info.others, v.Name())
			if len(writes) == 1 && len(o2) == 1 {
				info.field = v
				info.exact = len(vs) == 1 && vs[0] == param
			}
		}
	}
	return res
}

// fieldVals: the values a field is known to hold in any object.
func fieldVals(st *State, f *types.Var) map[*Term]bool {
	res := map[*Term]bool{}
	for a, v := range st.heap {
		if a.op == OFA && a.aux == f {
			res[v] = true
		}
	}
	return res
}
