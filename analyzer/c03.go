package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id: "C03", min: 40,
		rule: "Abstract interpretation of the five response decoders over every byte string: an outcome without error must carry the type its two status bytes denote (or the greeting word of version and flush_all), must have consumed a line that ends in CRLF, and every status has such an outcome; an error of kind server or client is produced exactly under its prefix with the text of the line as message. Lease flags and the CAS number are compared, on every step of the scanning loop, with a shadow computation of what the character at that position means. mg VA takes the next received value, the others none. Dispatch uses for each operation the decoder of the command it sent, and hands on the decoder's error.",
		not:  "which of several numbers on a malformed line is used",
		run:  runC03,
	})
}

type decSpec struct {
	fn     string
	status map[string]string // status -> constant of the response type
	word   string            // first word of a success without type
}

var decSpecs = []decSpec{
	{fn: "readMGet", status: map[string]string{"VA": "MGetResponseTypeVA", "HD": "MGetResponseTypeHD", "EN": "MGetResponseTypeEN"}},
	{fn: "readMSet", status: map[string]string{"HD": "MSetResponseTypeHD", "NS": "MSetResponseTypeNS", "EX": "MSetResponseTypeEX", "NF": "MSetResponseTypeNF"}},
	{fn: "readMDel", status: map[string]string{"HD": "MDelResponseTypeHD", "NF": "MDelResponseTypeNF", "EX": "MDelResponseTypeEX"}},
	{fn: "readVersion", word: "VERSION"},
	{fn: "readFlushAll", word: "OK"},
}

// decoderOf gives the decoder for the verb of a command.
var decoderOf = map[string]string{"mg": "readMGet", "ms": "readMSet", "md": "readMDel", "version": "readVersion", "flush_all": "readFlushAll"}

func (p *Program) constInt(pkg, name string) (int64, bool) {
	for q := range p.repoPkgs {
		if q.Name() != pkg {
			continue
		}
		if k, ok := q.Scope().Lookup(name).(*types.Const); ok {
			if n, ok := constant.Int64Val(k.Val()); ok {
				return n, true
			}
		}
	}
	return 0, false
}

// byteAt is the value of a byte of a buffer when the path determines it.
func byteAt(e *Engine, st *State, base, idx *Term) (byte, bool) {
	v, ok := st.heap[iaT(types.Typ[types.Uint8], base, idx)]
	if !ok {
		for a, x := range st.heap {
			if a.op == OIA && a.args[0] == base && st.zone.eq(a.args[1], idx) {
				v, ok = x, true
				break
			}
		}
	}
	if ok {
		lo, hi, o1, o2 := st.zone.rng(v)
		if o1 && o2 && lo == hi {
			return byte(lo), true
		}
	}
	return 0, false
}

// knownPrefix is what the path knows about the first bytes of a buffer.
func knownPrefix(e *Engine, st *State, d *Term) string {
	s := ""
	for i := int64(0); i < 16; i++ {
		b, ok := byteAt(e, st, d.args[0], linT(d.args[1], i))
		if !ok {
			break
		}
		s += string([]byte{b})
	}
	for f, v := range st.facts {
		if !v {
			continue
		}
		c, ok := comparedTo(e, st, f, d)
		if ok && len(c) > len(s) {
			s = c
		}
	}
	return s
}

// constBytes gives the content of a constant byte slice or string.
func constBytes(e *Engine, st *State, t *Term) (string, bool) {
	if t.op == OStr {
		return t.aux.(string), true
	}
	if t.op != OSlice {
		if toks, ok := st.content[t]; ok && len(toks) == 1 && toks[0].kind == "lit" {
			return toks[0].lit, true
		}
		return "", false
	}
	if toks, ok := st.content[t]; ok && len(toks) == 1 && toks[0].kind == "lit" {
		return toks[0].lit, true
	}
	n, ok := t.args[2].isConstInt()
	if !ok || n > 64 {
		return "", false
	}
	s := ""
	for i := int64(0); i < n; i++ {
		b, ok := byteAt(e, st, t.args[0], linT(t.args[1], i))
		if !ok {
			return "", false
		}
		s += string([]byte{b})
	}
	return s, true
}

// comparedTo: the fact says that the buffer starts with a constant.
func comparedTo(e *Engine, st *State, f *Term, d *Term) (string, bool) {
	if f.op == OEq {
		// string(d[:n]) == "const"
		for i := 0; i < 2; i++ {
			a, b := f.args[i], f.args[1-i]
			if b.op != OStr {
				continue
			}
			toks := st.content[a]
			if len(toks) == 1 && toks[0].kind == "bytes" && startsAt(st, toks[0].t, d) {
				return b.aux.(string), true
			}
		}
		return "", false
	}
	if f.op != OApp || f.aux != "bytesEqual" {
		return "", false
	}
	for i := 0; i < 2; i++ {
		a, b := f.args[i], f.args[1-i]
		if a.op != OSlice || !startsAt(st, a, d) {
			continue
		}
		if s, ok := constBytes(e, st, b); ok {
			return s, true
		}
	}
	return "", false
}

func startsAt(st *State, a, d *Term) bool {
	return a.op == OSlice && d.op == OSlice && a.args[0] == d.args[0] && st.zone.eq(a.args[1], d.args[1])
}

func runC03(c *Ctx) {
	pd := c.p.field("memcache", "parser", "data")
	pb := c.p.field("memcache", "parser", "binaries")
	if pd == nil || pb == nil {
		c.obFn("anchor", nil, false, "fields parser.data and parser.binaries not found (undecided)")
		return
	}
	for _, d := range decSpecs {
		fn := c.fn("memcache.(parser)." + d.fn)
		if fn == nil {
			continue
		}
		c03Decoder(c, fn, d, pd, pb)
	}
	c03Dispatch(c)
}

func (p *Program) namedIs(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && p.repoPkgs[n.Obj().Pkg()]
}

// errKind classifies the error value of an outcome.
func errKind(c *Ctx, e *Engine, st *State, v *Term) (kind string, msg *Term) {
	if val, known := e.evalBool(st, eqT(v, nilT())); known && val {
		return "nil", nil
	}
	if v.op == OIface {
		t := v.aux.(types.Type)
		for _, k := range []string{"ErrServerError", "ErrClientError"} {
			if c.p.namedIs(t, k) {
				if su, ok := t.Underlying().(*types.Struct); ok && su.NumFields() > 0 {
					msg = e.fieldOf(st, v.args[0], t, 0)
				}
				return k, msg
			}
		}
		return "other", nil
	}
	if e.nonNil(st, v) {
		return "other", nil
	}
	return "?", nil
}

func c03Decoder(c *Ctx, fn *ssa.Function, d decSpec, pd, pb *types.Var) {
	flagBits := map[byte]int64{}
	for ch, n := range map[byte]string{'W': "MGetFlagW", 'X': "MGetFlagX", 'Z': "MGetFlagZ"} {
		k, ok := c.p.constInt("memcache", n)
		if !ok {
			c.obFn("anchor", fn, false, "constant %s not found (undecided)", n)
		}
		flagBits[ch] = k
	}
	mget := d.fn == "readMGet"
	respT := fn.Signature.Results().At(0).Type()
	var flagsF, casF *types.Var
	if mget {
		flagsF, casF = c.p.field("memcache", "MGetResponse", "Flags"), c.p.field("memcache", "MGetResponse", "CAS")
	}
	var data, bins *Term
	casTaken := 0
	acc := map[*Term]bool{} // accumulators of the number loops: every step is ten times plus digit
	loops := map[*ssa.Function]map[*ssa.BasicBlock]bool{}
	h := Hooks{
		Narrow: func(e *Engine, st *State, in ssa.Instruction, v *Term, ok bool) {
			if mget {
				e.Oblige(st, "number-lossless", in, ok, "a number of the response may be truncated")
			}
		},
		Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
			if mget && addr.op == OIA && data != nil && addr.args[0] == data.args[0] && st.ghost["first"] == nil && c03InFlagLoop(st, in, flagsF, loops) {
				st.ghost["first"] = addr
				switch st.mon["at"] {
				case "next":
					e.Oblige(st, "every-character", in, e.sumEq(st, []*Term{addr.args[1]}, []*Term{data.args[1], st.ghost["next"]}), "the scanning loop does not look at the character after the previous one")
				case "":
					if b, ok := byteAt(e, st, data.args[0], data.args[1]); ok && b == 'H' {
						e.Oblige(st, "every-character", in, st.zone.le(addr.args[1], linT(data.args[1], 3)), "the scanning loop starts behind the first flag")
					}
				}
			}
		},
		BackEdge: func(e *Engine, st *State, header, pred *ssa.BasicBlock, head *State) {
			if mget && !c03FlagLoop(header, flagsF) {
				c03Digits(e, st, header, pred, head, casF.Type(), acc)
			}
			if !mget || !c03FlagLoop(header, flagsF) {
				return
			}
			// the character this step looked at: the first one loaded in it
			var ch *Term
			if adr := st.ghost["first"]; adr != nil && adr.op == OIA {
				ch = e.load(st, adr, types.Typ[types.Uint8])
			}
			if adr := st.ghost["first"]; adr != nil && adr.op == OIA {
				st.ghost["next"] = linT(e.sub(st, adr.args[1], data.args[1], types.Typ[types.Int]), 1)
			}
			st.mon["at"] = "next"
			delete(st.ghost, "first")
			fl := st.ghost["flags"]
			at := header.Instrs[len(header.Instrs)-1]
			if ch == nil {
				e.Oblige(st, "flags", at, false, "a step of the scanning loop looks at no character (undecided)")
				return
			}
			lo, hi, o1, o2 := st.zone.rng(ch)
			isC := false
			if o1 && o2 && lo == hi {
				if bit, ok := flagBits[byte(lo)]; ok {
					if k, isK := fl.isConstInt(); isK {
						st.ghost["flags"] = intT(k | bit)
					} else {
						t := appT(flagsF.Type(), "or", fl, intT(bit))
						st.zone.index(t)
						st.ghost["flags"] = t
					}
				}
				isC = byte(lo) == 'c'
				if isC {
					st.mon["at"] = "number"
					delete(st.ghost, "next")
				}
			} else {
				for b := range flagBits {
					if mayBe(st, ch, int64(b)) {
						e.Oblige(st, "flags", at, false, "a step of the scanning loop does not tell whether the character is %q", string([]byte{b}))
					}
				}
				if mayBe(st, ch, 'c') {
					e.Oblige(st, "cas", at, false, "a step of the scanning loop does not tell whether the character is 'c'")
				}
			}
			// the number kept by this step, in the field or in a variable
			var took *Term
			for a, v := range st.heap {
				if a.op == OFA && a.aux == casF {
					if old, ok := head.heap[a]; ok && old != v {
						took = v
					}
				}
			}
			for _, in := range header.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if types.Identical(phi.Type(), casF.Type()) {
					for i, p := range header.Preds {
						if v := e.val(st, phi.Edges[i]); p == pred && v != head.frame.env[phi] {
							took = v
						}
					}
				}
			}
			e.Oblige(st, "cas", at, took == nil || isC, "a number is taken as CAS although the character is not 'c'")
			if took != nil {
				m := map[*Term]int64{}
				k := poly(took, 1, m)
				good, known := acc[took]
				if !known {
					good = len(m) == 0 && k == 0 || isDigitOf(st, m, k) || len(m) == 1 && m[took] == 1 && took.op != OApp
				}
				e.Oblige(st, "cas-digits", at, good, "the number kept as CAS is not ten times the digits before plus the digit, for each digit (%s)", took)
				casTaken++
				st.ghost["cas"] = took
			}
		},
	}
	e := c.engine(h)
	outs := e.RunFresh(fn, func(st *State, args []*Term) {
		data = e.load(st, faT(args[0], pd), pd.Type())
		bins = e.load(st, faT(args[0], pb), pb.Type())
		st.ghost["flags"] = intT(0)
		st.ghost["cas"] = intT(0)
		st.ghost["self"] = args[0]
	})
	seen := map[string]bool{}
	kinds := map[string]bool{}
	for _, o := range outs {
		if o.Panic {
			continue
		}
		st, in := o.St, o.Instr
		errT := o.Res[len(o.Res)-1]
		kind, msg := errKind(c, e, st, errT)
		kinds[kind] = true
		pre := knownPrefix(e, st, data)
		self := st.ghost["self"]
		nd := e.load(st, faT(self, pd), pd.Type())
		switch kind {
		case "?":
			e.Oblige(st, "error-decided", in, false, "it is not known whether this outcome is an error (undecided)")
			continue
		case "ErrServerError", "ErrClientError":
			want := "SERVER_ERROR"
			if kind == "ErrClientError" {
				want = "CLIENT_ERROR"
			}
			e.Oblige(st, "error-kind", in, strings.HasPrefix(pre, want), "a %s is returned although the response is not known to start with %s (known: %q)", kind, want, pre)
			c03Message(e, st, in, data, nd, msg, len(want)+1)
			continue
		case "other":
			continue
		}
		// success
		e.Oblige(st, "consumes-line", in, nd.op == OSlice && nd.args[0] == data.args[0] && st.zone.lt(data.args[1], nd.args[1]), "a response is decoded without consuming it")
		if nd.op == OSlice {
			r, ok1 := byteAt(e, st, data.args[0], linT(nd.args[1], -2))
			n, ok2 := byteAt(e, st, data.args[0], linT(nd.args[1], -1))
			e.Oblige(st, "consumes-line", in, ok1 && ok2 && r == '\r' && n == '\n', "what is consumed of the response is not shown to end in CRLF")
			e.Oblige(st, "consumes-line", in, e.sumEq(st, []*Term{nd.args[1], nd.args[2]}, []*Term{data.args[1], data.args[2]}), "the rest of the response data is cut short")
		}
		if d.word != "" {
			e.Oblige(st, "status", in, strings.HasPrefix(pre, d.word), "success is returned although the response is not known to start with %s (known: %q)", d.word, pre)
			seen[d.word] = true
			if d.fn == "readVersion" {
				c03Version(e, st, in, o.Res[0], respT, data, nd)
			}
			continue
		}
		if len(pre) < 2 {
			e.Oblige(st, "status", in, false, "success is returned without the two status bytes being known")
			continue
		}
		status := pre[:2]
		cn, ok := d.status[status]
		e.Oblige(st, "status", in, ok, "success is returned for status %q", status)
		if !ok {
			continue
		}
		seen[status] = true
		want, ok := c.p.constInt("memcache", cn)
		tf := optField(e, st, o.Res[0], respT, "Type")
		e.Oblige(st, "type", in, ok && tf != nil && st.zone.eq(tf, intT(want)), "status %s gives response type %v instead of %s", status, tf, cn)
		if !mget {
			continue
		}
		fl := optField(e, st, o.Res[0], respT, "Flags")
		cas := optField(e, st, o.Res[0], respT, "CAS")
		dt := optField(e, st, o.Res[0], respT, "Data")
		nb := e.load(st, faT(self, pb), pb.Type())
		if status != "EN" {
			e.Oblige(st, "flags", in, fl == st.ghost["flags"], "the flags returned are not those on the line (%v, should be %v)", fl, st.ghost["flags"])
			e.Oblige(st, "cas", in, cas == st.ghost["cas"], "the CAS number returned is not the one on the line")
		}
		if status == "VA" {
			el := bins.typ.Underlying().(*types.Slice).Elem()
			first := e.load(st, iaT(el, bins.args[0], bins.args[1]), el)
			e.Oblige(st, "value", in, dt == first, "the value returned is not the next one received")
			e.Oblige(st, "value", in, nb.op == OSlice && nb.args[0] == bins.args[0] && st.zone.eq(nb.args[1], linT(bins.args[1], 1)), "the value returned is not removed from those received")
		} else {
			e.Oblige(st, "value", in, dt != nil && dt.op == OSlice && st.zone.le(dt.args[2], intT(0)), "a response without a value returns one")
			e.Oblige(st, "value", in, nb == bins, "a response without a value uses up one")
		}
	}
	for s := range d.status {
		c.obFn("all-statuses", fn, seen[s], "no successful outcome for status %s", s)
	}
	if d.word != "" {
		c.obFn("all-statuses", fn, seen[d.word], "no successful outcome for %s", d.word)
	}
	for _, k := range []string{"ErrServerError", "ErrClientError", "other"} {
		c.obFn("all-errors", fn, kinds[k], "no outcome with an error of kind %s", k)
	}
	if mget {
		c.obFn("cas", fn, casTaken > 0, "no step of the scanning loop takes a CAS number")
	}
	c.finish(e, fn)
}

// mayBe: the value is not excluded by bounds or disequalities.
func mayBe(st *State, t *Term, k int64) bool {
	lo, hi, o1, o2 := st.zone.rng(t)
	if o1 && k < lo || o2 && k > hi {
		return false
	}
	if v, ok := st.facts[eqT(t, intT(k))]; ok && !v {
		return false
	}
	return true
}

// c03FlagLoop: the loop in which flags are accumulated: it or the functions it runs in build MGetFlags.
func c03FlagLoop(header *ssa.BasicBlock, flagsF *types.Var) bool {
	if flagsF == nil {
		return false
	}
	// inner loops (numbers) do not contain an OR on the flag type
	body := loopBody(header)
	for b := range body {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && types.Identical(v.Type(), flagsF.Type()) {
				return true
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, a := range ci.Common().Args {
					if p, ok := a.Type().Underlying().(*types.Pointer); ok && (types.Identical(p.Elem(), flagsF.Type())) {
						return true
					}
				}
			}
			if fa, ok := in.(*ssa.FieldAddr); ok && fieldVar(fa) == flagsF {
				return true
			}
		}
	}
	return false
}

// loopBody is the natural loop of a header.
func loopBody(header *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{header: true}
	for _, b := range header.Parent().Blocks {
		for _, s := range b.Succs {
			if s == header && header.Dominates(b) {
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	return body
}

// c03InFlagLoop: the instruction runs in a step of the loop in which flags are accumulated.
func c03InFlagLoop(st *State, in ssa.Instruction, flagsF *types.Var, loops map[*ssa.Function]map[*ssa.BasicBlock]bool) bool {
	for f := st.frame; f != nil && in != nil; f = f.parent {
		bs, ok := loops[f.fn]
		if !ok {
			bs = map[*ssa.BasicBlock]bool{}
			for _, b := range f.fn.Blocks {
				for _, p := range b.Preds {
					if b.Dominates(p) && c03FlagLoop(b, flagsF) {
						for x := range loopBody(b) {
							bs[x] = true
						}
					}
				}
			}
			loops[f.fn] = bs
		}
		if bs[in.Block()] {
			return true
		}
		in = f.site
	}
	return false
}

// c03Message: the message of an error response is the text after its prefix, up to the CRLF.
func c03Message(e *Engine, st *State, in ssa.Instruction, data, nd, msg *Term, skip int) {
	e.Oblige(st, "error-consumes", in, nd.op == OSlice && nd.args[0] == data.args[0] && st.zone.lt(data.args[1], nd.args[1]), "an error response is not consumed")
	if msg == nil || nd.op != OSlice {
		return
	}
	toks := st.content[msg]
	if len(toks) != 1 || toks[0].kind != "bytes" {
		e.Oblige(st, "error-message", in, false, "the message of an error response is not known (undecided)")
		return
	}
	src := toks[0].t
	start, ln := src.args[1], src.args[2]
	if src.args[0] != data.args[0] {
		found := false
		for _, cp := range st.copies {
			if cp.Dst == src && cp.Src.op == OSlice && cp.Src.args[0] == data.args[0] && st.zone.eq(cp.N, src.args[2]) {
				start, ln, found = cp.Src.args[1], cp.N, true
			}
		}
		if !found {
			e.Oblige(st, "error-message", in, false, "the message of an error response is not copied from the response")
			return
		}
	}
	e.Oblige(st, "error-message", in, st.zone.eq(start, linT(data.args[1], int64(skip))), "the message of an error response does not start right after its prefix")
	e.Oblige(st, "error-message", in, e.sumEq(st, []*Term{start, ln}, []*Term{linT(nd.args[1], -2)}), "the message of an error response does not end before its CRLF")
}

func c03Version(e *Engine, st *State, in ssa.Instruction, resp *Term, respT types.Type, data, nd *Term) {
	v := optField(e, st, resp, respT, "Version")
	for v != nil && v.op == OApp && strings.HasPrefix(v.aux.(string), "strings.Trim") {
		v = v.args[0]
	}
	toks := st.content[v]
	ok := len(toks) == 1 && toks[0].kind == "bytes" && toks[0].t.op == OSlice && toks[0].t.args[0] == data.args[0]
	if ok {
		s := toks[0].t
		for f, v := range st.facts {
			if v && f.op == OApp && f.aux == "trimOf" && f.args[0] == s {
				s = f.args[1]
				break
			}
		}
		end := e.add(st, s.args[1], s.args[2], types.Typ[types.Int])
		ok = st.zone.le(s.args[1], linT(data.args[1], 8)) && st.zone.le(linT(data.args[1], 7), s.args[1]) && st.zone.eq(end, linT(nd.args[1], -2))
	}
	e.Oblige(st, "version", in, ok, "the version returned is not the rest of the line")
}

// dispatchFns are the functions that call several decoders.
func dispatchFns(c *Ctx) []*ssa.Function {
	var res []*ssa.Function
	for _, fn := range c.p.funcs {
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cal := ci.Common().StaticCallee(); cal != nil && isDecoder(cal) {
						n++
					}
				}
			}
		}
		if n > 0 {
			res = append(res, fn)
		}
	}
	return res
}

func isDecoder(fn *ssa.Function) bool {
	if recvName(fn) != "parser" {
		return false
	}
	for _, d := range decSpecs {
		if fn.Name() == d.fn {
			return true
		}
	}
	return false
}

// opKinds finds, for every operation, the kind constant of its command and the verb it sends.
func opKinds(c *Ctx) map[string]map[int64]bool {
	ct := c.p.field("memcache", "pipelineCmd", "cmdType")
	rd := c.p.field("memcache", "commandListData", "requestData")
	res := map[string]map[int64]bool{}
	if ct == nil || rd == nil {
		c.obFn("anchor", nil, false, "field pipelineCmd.cmdType not found (undecided)")
		return res
	}
	v := c.p.fn("memcache.validateKeyFormat")
	base := opOpaque(c)
	for _, op := range pipelineOps(c) {
		e := c.engine(Hooks{
			Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
				if v != nil && ci.Callee == v {
					return one(st, nilT()), true
				}
				if ci.Callee != nil && ci.Callee.Name() == "getByteSlice" && len(ci.Args) == 1 {
					return one(st, e.freshBytes(st, ci)), true
				}
				return nil, false
			},
			Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
				if addr.op == OFA && addr.aux == ct {
					if k, ok := val.isConstInt(); ok {
						if k != 0 {
							st.ghost["kind"] = val
						}
					} else {
						e.Oblige(st, "kind", in, false, "the kind of a command is not a constant (undecided)")
					}
				}
			},
			Append: func(e *Engine, st *State, in ssa.Instruction, b, add, r *Term) {
				if st.mon["verb"] != "" {
					return
				}
				if toks := st.content[r]; len(toks) > 0 {
					i := 0
					if toks[0].kind == "prefix" {
						i = 1
					}
					if i < len(toks) && toks[i].kind == "lit" {
						w := strings.FieldsFunc(toks[i].lit, func(r rune) bool { return r == ' ' || r == '\r' })
						if len(w) > 0 {
							st.mon["verb"] = w[0]
						}
					}
				}
			},
		})
		ctFn := func(fn *ssa.Function) bool { return c.p.effects(fn).writes[ct] }
		e.Opaque = func(fn *ssa.Function) bool {
			if strings.HasPrefix(fn.Name(), "addCommand") || fn.Name() == "newPipelineCmd" {
				return false
			}
			if c.p.blocking(fn) && ctFn(fn) && !c.p.effects(fn).funcs[dispatchOne(c)] {
				return false
			}
			if c.p.blocking(fn) && ctFn(fn) && fn.Signature.Params().Len() > 0 && c03TakesKind(fn, ct) {
				return false
			}
			return base(fn)
		}
		e.MergeAt = 1
		for _, o := range e.RunFresh(op, nil) {
			if o.Panic {
				continue
			}
			k := o.St.ghost["kind"]
			verb := o.St.mon["verb"]
			if k == nil || verb == "" {
				e.Oblige(o.St, "kind", o.Instr, false, "the kind and the verb of the command are not known (undecided)")
				continue
			}
			n, _ := k.isConstInt()
			if res[verb] == nil {
				res[verb] = map[int64]bool{}
			}
			res[verb][n] = true
		}
		c.finish(e, op)
	}
	return res
}

func c03TakesKind(fn *ssa.Function, ct *types.Var) bool {
	for _, p := range fn.Params {
		if types.Identical(p.Type(), ct.Type()) {
			return true
		}
	}
	return false
}

func dispatchOne(c *Ctx) *ssa.Function {
	if ds := dispatchFns(c); len(ds) > 0 {
		return ds[0]
	}
	return nil
}

// c03Dispatch: every kind of command is decoded by the decoder of its verb, and its error is handed on.
func c03Dispatch(c *Ctx) {
	ct := c.p.field("memcache", "pipelineCmd", "cmdType")
	ef := c.p.field("memcache", "pipelineCmd", "err")
	if ct == nil || ef == nil {
		c.obFn("anchor", nil, false, "fields of pipelineCmd not found (undecided)")
		return
	}
	kinds := opKinds(c)
	byKind := map[int64]string{}
	for verb, ks := range kinds {
		dec, ok := decoderOf[verb]
		c.obFn("dispatch", nil, ok, "no decoder is known for command %q", verb)
		for k := range ks {
			if old, dup := byKind[k]; dup && old != dec {
				c.obFn("dispatch", nil, false, "command kind %d is used for different commands", k)
			}
			byKind[k] = dec
		}
	}
	c.obFn("dispatch", nil, len(byKind) >= 5, "only %d kinds of commands found", len(byKind))
	for _, fn := range dispatchFns(c) {
		for k, dec := range byKind {
			c03DispatchKind(c, fn, ct, ef, k, dec)
		}
	}
}

func c03DispatchKind(c *Ctx, fn *ssa.Function, ct, ef *types.Var, k int64, dec string) {
	used := 0
	setKind := func(st *State, addr *Term) {
		if addr.op == OFA && addr.aux == ct {
			if _, ok := st.heap[addr]; !ok {
				st.heap[addr] = intT(k)
			}
			st.ghost["cur"] = addr.args[0]
		}
	}
	h := Hooks{
		Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) { setKind(st, addr) },
		Panic: func(e *Engine, st *State, in ssa.Instruction) {
			e.Oblige(st, "dispatch", in, false, "decoding the response of a command of kind %d panics", k)
		},
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			if isFailConn(ci) {
				r := e.resultOf(st, ci)
				st.facts[eqT(r, nilT())] = false
				e.Oblige(st, "error-handed-on", ci.Site, e.nonNil(st, ci.Args[1]), "the connection is failed without an error")
				return one(st, r), true
			}
			if ci.Callee == nil || !isDecoder(ci.Callee) {
				return nil, false
			}
			used++
			e.Oblige(st, "dispatch", ci.Site, ci.Callee.Name() == dec, "the response of a command of kind %d is read by %s instead of %s", k, ci.Callee.Name(), dec)
			r := e.resultOf(st, ci)
			er := r
			if r.op == OTuple {
				er = r.args[len(r.args)-1]
			}
			s2 := st.clone()
			st.mon["dec"], s2.mon["dec"] = "ok", "fail"
			s2.facts[eqT(er, nilT())] = false
			ok := nilT()
			if r.op == OTuple {
				as := append([]*Term(nil), r.args...)
				as[len(as)-1] = nilT()
				ok = tupleT(as...)
			}
			return []CallOut{{st, ok}, {s2, r}}, true
		},
		BackEdge: func(e *Engine, st *State, header, pred *ssa.BasicBlock, head *State) {
			if header.Parent() != fn || st.mon["dec"] == "" {
				return
			}
			c03Handed(e, st, header.Instrs[len(header.Instrs)-1], ef)
			st.mon["dec"] = ""
			delete(st.ghost, "cur")
		},
	}
	e := c.engine(h)
	for _, o := range e.RunFresh(fn, nil) {
		if !o.Panic && o.St.mon["dec"] != "" {
			c03Handed(e, o.St, o.Instr, ef)
		}
	}
	c.obFn("dispatch", fn, used > 0, "no decoder is called for commands of kind %d", k)
	c.finish(e, fn)
}

func c03Handed(e *Engine, st *State, in ssa.Instruction, ef *types.Var) {
	cur := st.ghost["cur"]
	if cur == nil {
		return
	}
	v := e.load(st, faT(cur, ef), ef.Type())
	if st.mon["dec"] == "ok" {
		val, known := e.evalBool(st, eqT(v, nilT()))
		e.Oblige(st, "error-handed-on", in, known && val, "a decoded response is reported as an error")
	} else {
		e.Oblige(st, "error-handed-on", in, e.nonNil(st, v), "the error of a response may be lost")
	}
}

// poly: the term as a linear combination, through wrapping arithmetic and constant factors.
func poly(t *Term, k int64, m map[*Term]int64) int64 {
	if t.op == OInt {
		return k * t.aux.(int64)
	}
	if t.op == OLin {
		return k*t.aux.(int64) + poly(t.args[0], k, m)
	}
	if t.op == OApp {
		switch t.aux {
		case "add", "addwrap":
			return poly(t.args[0], k, m) + poly(t.args[1], k, m)
		case "sub", "subwrap":
			return poly(t.args[0], k, m) + poly(t.args[1], -k, m)
		case "shl":
			if n, ok := t.args[1].isConstInt(); ok && n < 32 {
				return poly(t.args[0], k<<uint(n), m)
			}
		case "mul", "mulwrap":
			for i := 0; i < 2; i++ {
				if n, ok := t.args[i].isConstInt(); ok {
					return poly(t.args[1-i], k*n, m)
				}
			}
		}
	}
	m[t] += k
	return 0
}

// isDigitOf: the combination is the value of one character known to be a digit.
func isDigitOf(st *State, m map[*Term]int64, k int64) bool {
	if len(m) != 1 || k != -'0' {
		return false
	}
	for ch, n := range m {
		lo, hi, o1, o2 := st.zone.rng(ch)
		return n == 1 && o1 && o2 && lo >= '0' && hi <= '9'
	}
	return false
}

// unknownIn: the combination contains values made in a way that is not followed.
func unknownIn(m map[*Term]int64) bool {
	for t := range m {
		if t.op == OApp && t.aux != "and" && t.aux != "rem" && t.aux != "div" && t.aux != "shr" || t.op == OSym && strings.HasPrefix(t.String(), "sum#") {
			return true
		}
	}
	return false
}

// c03Digits checks the accumulators of a loop that scans a number.
func c03Digits(e *Engine, st *State, header, pred *ssa.BasicBlock, head *State, t types.Type, acc map[*Term]bool) {
	for _, in := range header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		h := head.frame.env[phi]
		if !types.Identical(phi.Type(), t) || h == nil {
			continue
		}
		for i, p := range header.Preds {
			v := e.val(st, phi.Edges[i])
			m := map[*Term]int64{}
			ok := true
			if p == pred {
				if v == h {
					continue
				}
				k := poly(v, 1, m)
				if n, c := h.isConstInt(); c {
					k -= 10 * n
				} else {
					hm := map[*Term]int64{}
					k -= 10 * poly(h, 1, hm)
					for x, n := range hm {
						if m[x] -= 10 * n; m[x] == 0 {
							delete(m, x)
						}
					}
				}
				ok = isDigitOf(st, m, k) || unknownIn(m)
			} else if !header.Dominates(p) {
				k := poly(v, 1, m)
				ok = len(m) == 0 && k == 0 || isDigitOf(st, m, k) || unknownIn(m)
			}
			if old, has := acc[h]; has {
				ok = ok && old
			}
			acc[h] = ok
		}
	}
}
