package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id: "C02", min: 40,
		rule: "Abstract interpretation of every exported Pipeline operation: on each path the content appended to exactly one request buffer is compared, token by token, with the command the arguments of that path ask for; each option must be decided on the path and present exactly if requested, carrying the caller's number without a narrowing conversion. For ms the announced number is the length of the value argument, and the block linked to the request has exactly that length plus two, was filled by copying the argument and CRLF, and is placed at the end of the command line. writeToWriter is shown to write line bytes and blocks contiguously, each once. Buffers taken from pools for requests are empty.",
		not:  "correct decimal rendering inside appendNumber beyond digits and lossless arithmetic (the unit tests pin it)",
		run:  runC02,
	})
}

// opSpec is the command an operation must produce.
type opSpec struct {
	verb  string // "mg " ...
	key   bool
	value bool
	opts  []optSpec
	fixed []string
}

type optSpec struct {
	flag  string
	field string   // option field that asks for it
	also  []string // further fields that must be set
	num   bool
}

var opSpecs = map[string]opSpec{
	"MGet":     {verb: "mg", key: true, fixed: []string{"v"}, opts: []optSpec{{flag: "c", field: "CAS"}, {flag: "N", field: "N", num: true}}},
	"MGetFast": {verb: "mg", key: true, fixed: []string{"v"}, opts: []optSpec{{flag: "c", field: "CAS"}, {flag: "N", field: "N", num: true}}},
	"MSet":     {verb: "ms", key: true, value: true, opts: []optSpec{{flag: "C", field: "CAS", num: true}, {flag: "T", field: "TTL", num: true}}},
	"MDel":     {verb: "md", key: true, opts: []optSpec{{flag: "C", field: "CAS", num: true}, {flag: "I", field: "I"}, {flag: "T", field: "TTL", also: []string{"I"}, num: true}}},
	"Version":  {verb: "version"},
	"FlushAll": {verb: "flush_all"},
}

// piece of a word: literal text or a term.
type piece struct {
	lit string
	num *Term
	str *Term
}

func wordString(w []piece) string {
	s := ""
	for _, p := range w {
		switch {
		case p.num != nil:
			s += "<" + p.num.String() + ">"
		case p.str != nil:
			s += "{" + p.str.String() + "}"
		default:
			s += p.lit
		}
	}
	return s
}

// words splits content at spaces; ok is false when the content is not fully known.
func words(toks []Tok) (ws [][]piece, crlf bool, ok bool) {
	var cur []piece
	have := false
	text := ""
	flush := func() {
		if text != "" {
			cur = append(cur, piece{lit: text})
			text = ""
		}
	}
	for _, t := range toks {
		switch t.kind {
		case "lit":
			for i := 0; i < len(t.lit); i++ {
				ch := t.lit[i]
				if ch == ' ' {
					flush()
					ws = append(ws, cur)
					cur, have = nil, false
					continue
				}
				text += string([]byte{ch})
				have = true
			}
		case "num":
			flush()
			cur = append(cur, piece{num: t.t})
			have = true
		case "byte", "unknown", "prefix":
			return nil, false, false
		default:
			flush()
			cur = append(cur, piece{str: t.t})
			have = true
		}
	}
	if strings.HasSuffix(text, "\r\n") {
		crlf = true
		text = strings.TrimSuffix(text, "\r\n")
	}
	if strings.ContainsAny(text, "\r\n") {
		return nil, false, false
	}
	flush()
	if have && len(cur) > 0 {
		ws = append(ws, cur)
	}
	for _, w := range ws {
		for _, p := range w {
			if strings.ContainsAny(p.lit, "\r\n") {
				return nil, false, false
			}
		}
	}
	return ws, crlf, true
}

func isAppendNumber(fn *ssa.Function) bool {
	if fn == nil || fn.Name() != "appendNumber" {
		return false
	}
	s := fn.Signature
	return s.Params().Len() == 2 && s.Results().Len() == 1 && isIntType(s.Params().At(1).Type())
}

func (e *Engine) appendNum(st *State, a, n *Term) *Term {
	it := types.Typ[types.Int]
	ln := e.newValue(st, it, "numlen")
	st.zone.assumeLe(intT(1), ln, 0)
	st.zone.assumeLe(ln, intT(20), 0)
	base := freshSym(types.NewPointer(types.Typ[types.Uint8]), "appended")
	l2 := e.add(st, a.args[2], ln, it)
	cp := freshSym(it, "cap")
	st.zone.assumeLe(l2, cp, 0)
	r := sliceT(a.typ, base, intT(0), l2, cp)
	e.appendTok(st, a, r, Tok{kind: "num", t: n})
	return r
}

// opRun analyses one exported operation with the validator accepting its key.
type opRun struct {
	c      *Ctx
	op     *ssa.Function
	e      *Engine
	args   []*Term
	outs   []Outcome
	rdBase map[string]bool
}

func pipelineOps(c *Ctx) []*ssa.Function {
	rd := c.p.field("memcache", "commandListData", "requestData")
	if rd == nil {
		c.obFn("anchor", nil, false, "field commandListData.requestData not found (undecided)")
		return nil
	}
	var res []*ssa.Function
	for _, f := range c.p.exportedMethods("memcache", "Pipeline") {
		sig := f.Signature
		if sig.Results().Len() == 0 || !c.p.effects(f).writes[rd] {
			continue
		}
		res = append(res, f)
	}
	return res
}

func opOpaque(c *Ctx) func(fn *ssa.Function) bool {
	v := c.p.fn("memcache.validateKeyFormat")
	addOne := map[*ssa.Function]bool{}
	for _, n := range []string{"addMGet", "addMSet", "addMDel", "addVersion", "addFlushAll"} {
		if f := c.p.fn("memcache.(cmdBuilder)." + n); f != nil {
			addOne[f] = true
		}
	}
	return func(fn *ssa.Function) bool {
		if !c.p.blocking(fn) {
			return false
		}
		eff := c.p.effects(fn)
		if v != nil && eff.funcs[v] {
			return false
		}
		for f := range addOne {
			if eff.funcs[f] {
				return false
			}
		}
		return true
	}
}

func runC02(c *Ctx) {
	ops := pipelineOps(c)
	seen := 0
	for _, op := range ops {
		spec, ok := opSpecs[op.Name()]
		if !ok {
			c.obFn("known-operation", op, false, "an exported operation %s writes requests, but no rule says what it must send (undecided)", op.Name())
			continue
		}
		seen++
		c02Op(c, op, spec)
	}
	c.obFn("operations", nil, seen >= 6, "only %d operations found", seen)
	c02Number(c)
	c02Writer(c)
	c02Pools(c)
}

func c02Op(c *Ctx, op *ssa.Function, spec opSpec) {
	v := c.p.fn("memcache.validateKeyFormat")
	rd := c.p.field("memcache", "commandListData", "requestData")
	entryT := c.p.typ("memcache", "requestBinaryEntry")
	h := Hooks{
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			if v != nil && ci.Callee == v {
				return one(st, nilT()), true
			}
			if isAppendNumber(ci.Callee) && ci.Args[0].op == OSlice {
				return one(st, e.appendNum(st, ci.Args[0], ci.Args[1])), true
			}
			if ci.Callee != nil && ci.Callee.Name() == "getByteSlice" && len(ci.Args) == 1 {
				return one(st, e.freshBytes(st, ci)), true
			}
			return nil, false
		},
		Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op == OFA && addr.aux == rd && val.op == OSlice {
				if _, has := st.content[val]; has {
					if old := st.ghost["cmd"]; old != nil && old != addr.args[0] {
						st.mon["two"] = "1"
					}
					st.ghost["cmd"] = addr.args[0]
				}
			}
			if entryT != nil && val.op == OAlloc && types.Identical(derefType(val.typ), entryT) {
				st.ghost["entry"] = val
				st.ghost["entryat"] = addr
			}
		},
	}
	e := c.engine(h)
	e.Opaque = opOpaque(c)
	var args []*Term
	outs := e.RunFresh(op, func(st *State, a []*Term) { args = a })
	n := 0
	for _, o := range outs {
		if o.Panic {
			continue
		}
		n++
		c02Check(c, e, op, spec, args, o, rd)
	}
	c.obFn("ends", op, n > 0, "the operation never ends normally")
	c.finish(e, op)
}

// freshBytes is what getByteSlice(n) gives: a slice of its own of length n (C15).
func (e *Engine) freshBytes(st *State, ci *CallInfo) *Term {
	it := types.Typ[types.Int]
	n := ci.Args[0]
	base := freshAlloc(types.NewPointer(types.Typ[types.Uint8]), "pooled")
	cp := freshSym(it, "cap")
	st.zone.assumeLe(n, cp, 0)
	typ := ci.Site.Common().Signature().Results().At(0).Type()
	return sliceT(typ, base, intT(0), n, cp)
}

func optField(e *Engine, st *State, opts *Term, typ types.Type, name string) *Term {
	su, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i).Name() == name {
			return e.fieldOf(st, opts, typ, i)
		}
	}
	return nil
}

// wanted: is the option asked for on this path; known is false when the path does not say.
func wanted(e *Engine, st *State, t *Term) (val, known bool) {
	if isIntTerm(t) && !isBoolType(t.typ) {
		if st.zone.le(intT(1), t) {
			return true, true
		}
		if st.zone.le(t, intT(0)) {
			return false, true
		}
		return false, false
	}
	return e.evalBool(st, t)
}

func c02Check(c *Ctx, e *Engine, op *ssa.Function, spec opSpec, args []*Term, o Outcome, rd *types.Var) {
	st := o.St
	in := o.Instr
	cmd := st.ghost["cmd"]
	e.Oblige(st, "one-request", in, st.mon["two"] == "" && cmd != nil, "the operation does not append to exactly one request")
	if cmd == nil {
		return
	}
	data := e.load(st, faT(cmd, rd), rd.Type())
	toks := st.content[data]
	if data.op != OSlice || len(toks) == 0 {
		e.Oblige(st, "request-known", in, false, "what is appended to the request is not known (undecided)")
		return
	}
	// everything before is what the request held
	if toks[0].kind == "prefix" {
		toks = toks[1:]
	}
	var key, value, opts *Term
	var optsT types.Type
	for i, p := range op.Params[1:] {
		a := args[i+1]
		switch u := p.Type().Underlying().(type) {
		case *types.Struct:
			opts, optsT = a, p.Type()
		case *types.Slice:
			value = a
		default:
			if isStringType(u) {
				key = a
			}
		}
	}
	ws, crlf, ok := words(toks)
	if !ok {
		e.Oblige(st, "request-known", in, false, "the command is not one line of known content: %s", toksString(toks))
		return
	}
	e.Oblige(st, "crlf", in, crlf, "the command line does not end in CRLF: %s", toksString(toks))
	line := ""
	for _, w := range ws {
		line += wordString(w) + " "
	}
	at := 0
	next := func() []piece {
		if at < len(ws) {
			at++
			return ws[at-1]
		}
		return nil
	}
	w := next()
	e.Oblige(st, "verb", in, len(w) == 1 && w[0].lit == spec.verb && w[0].num == nil && w[0].str == nil, "%s sends the command %q instead of %q", op.Name(), wordString(w), spec.verb)
	if spec.key {
		w = next()
		e.Oblige(st, "key", in, len(w) == 1 && w[0].str != nil && w[0].str == key, "the second word of the command is not exactly the key: %s", line)
	}
	if spec.value {
		w = next()
		ln := e.lenOf(st, value)
		e.Oblige(st, "announced-length", in, len(w) == 1 && w[0].num != nil && st.zone.eq(w[0].num, ln), "the length announced is %s and not the length of the value", wordString(w))
	}
	// flags
	flags := map[string]int{}
	nums := map[string]*Term{}
	for at < len(ws) {
		w = next()
		if len(w) == 0 || w[0].lit == "" {
			flags["?"]++
			continue
		}
		f := w[0].lit
		flags[f]++
		if len(w) == 2 && w[1].num != nil {
			nums[f] = w[1].num
		} else if len(w) > 1 {
			flags[f+"?"]++
		}
	}
	known := map[string]bool{}
	for _, f := range spec.fixed {
		known[f] = true
		e.Oblige(st, "flag-"+f, in, flags[f] == 1 && nums[f] == nil, "flag %s is not sent exactly once: %s", f, line)
	}
	for _, os := range spec.opts {
		known[os.flag] = true
		t := optField(e, st, opts, optsT, os.field)
		if t == nil {
			e.Oblige(st, "option-"+os.field, in, false, "option field %s not found (undecided)", os.field)
			continue
		}
		want, dec := wanted(e, st, t)
		for _, al := range os.also {
			t2 := optField(e, st, opts, optsT, al)
			w2, d2 := wanted(e, st, t2)
			switch {
			case d2 && !w2:
				want, dec = false, true
			case !d2 && !(dec && !want):
				dec = false
			}
		}
		e.Oblige(st, "option-"+os.field, in, dec, "the path does not depend on whether option %s was requested, the command is: %s", os.field, line)
		if !dec {
			continue
		}
		if want {
			e.Oblige(st, "option-"+os.field, in, flags[os.flag] == 1, "option %s was requested, but flag %s is not sent exactly once: %s", os.field, os.flag, line)
			if os.num {
				e.Oblige(st, "option-number-"+os.field, in, nums[os.flag] != nil && (nums[os.flag] == t || st.zone.eq(nums[os.flag], t)), "flag %s does not carry the number given as option %s: %s", os.flag, os.field, line)
			} else {
				e.Oblige(st, "option-number-"+os.field, in, nums[os.flag] == nil, "flag %s carries a number: %s", os.flag, line)
			}
		} else {
			e.Oblige(st, "option-"+os.field, in, flags[os.flag] == 0, "option %s was not requested, but flag %s is sent: %s", os.field, os.flag, line)
		}
	}
	var extra []string
	for f := range flags {
		if !known[f] {
			extra = append(extra, f)
		}
	}
	sort.Strings(extra)
	e.Oblige(st, "no-other-flag", in, len(extra) == 0, "the command has words nothing asks for %v: %s", extra, line)
	if spec.value {
		c02Block(c, e, st, in, data, value)
	} else {
		e.Oblige(st, "no-block", in, st.ghost["entry"] == nil, "a value block is attached to a command that has none")
	}
}

func toksString(ts []Tok) string {
	s := ""
	for _, t := range ts {
		if t.kind == "lit" {
			s += fmt.Sprintf("%q", t.lit)
		} else {
			s += "<" + t.kind + ">"
		}
	}
	return s
}

// c02Block: the block linked to the request holds value + CRLF.
func c02Block(c *Ctx, e *Engine, st *State, in ssa.Instruction, line, value *Term) {
	ent := st.ghost["entry"]
	e.Oblige(st, "block-linked", in, ent != nil, "no value block is linked to the request")
	if ent == nil {
		return
	}
	get := func(n string) (*Term, *types.Var) {
		f := c.p.field("memcache", "requestBinaryEntry", n)
		if f == nil {
			e.Oblige(st, "anchor", in, false, "field requestBinaryEntry.%s not found (undecided)", n)
			return nil, nil
		}
		return e.load(st, faT(ent, f), f.Type()), f
	}
	off, _ := get("offset")
	data, _ := get("data")
	next, nextF := get("next")
	if off == nil || data == nil || next == nil {
		return
	}
	e.Oblige(st, "block-offset", in, st.zone.eq(off, line.args[2]), "the value block is not placed at the end of its command line")
	vl := e.lenOf(st, value)
	e.Oblige(st, "block-length", in, data.op == OSlice && st.zone.eq(data.args[2], e.add(st, vl, intT(2), types.Typ[types.Int])), "the value block does not have the length of the value plus CRLF")
	e.Oblige(st, "block-last", in, next.op == ONil, "the new value block is followed by another one")
	// where it is linked, and that the builder remembers its end
	lp := c.p.field("memcache", "cmdBuilder", "lastRequestEntry")
	at := st.ghost["entryat"]
	e.Oblige(st, "block-linked", in, at != nil && !(at.op == OFA && at.args[0] == ent), "the value block is not linked")
	if lp != nil {
		ok := false
		for a, v := range st.heap {
			if a.op == OFA && a.aux == lp && v == faT(ent, nextF) {
				ok = true
			}
		}
		e.Oblige(st, "block-linked", in, ok, "the builder does not remember the end of the list of value blocks")
	}
	if data.op != OSlice {
		return
	}
	e.Oblige(st, "block-own", in, data.args[0] != value.args[0], "the value block shares memory with the caller's slice")
	if toks, ok := st.content[data]; ok {
		good := len(toks) == 2 && toks[0].t == value && toks[1].kind == "lit" && toks[1].lit == "\r\n"
		e.Oblige(st, "block-content", in, good, "the value block does not hold the value and CRLF")
		return
	}
	// filled by copy and single stores
	val, tail := false, false
	for _, cp := range st.copies {
		if cp.Dst.op != OSlice || cp.Dst.args[0] != data.args[0] {
			continue
		}
		if cp.Src == value && st.zone.eq(cp.Dst.args[1], data.args[1]) && st.zone.eq(cp.N, vl) {
			val = true
			continue
		}
		end := e.add(st, data.args[1], vl, types.Typ[types.Int])
		if isCRLFTerm(e, st, cp.Src) && st.zone.eq(cp.Dst.args[1], end) && st.zone.eq(cp.N, intT(2)) {
			tail = true
			continue
		}
		e.Oblige(st, "block-content", in, false, "something other than the value and CRLF is copied into the value block")
	}
	if !tail {
		end := e.add(st, data.args[1], vl, types.Typ[types.Int])
		b := types.Typ[types.Uint8]
		r := e.load(st, iaT(b, data.args[0], end), b)
		n := e.load(st, iaT(b, data.args[0], linT(end, 1)), b)
		rk, ok1 := r.isConstInt()
		nk, ok2 := n.isConstInt()
		tail = ok1 && ok2 && rk == '\r' && nk == '\n'
	}
	e.Oblige(st, "block-content", in, val && tail, "the value block is not filled with the value (copied: %v) and CRLF (%v)", val, tail)
}

func isCRLFTerm(e *Engine, st *State, t *Term) bool {
	if t.op == OStr {
		return t.aux.(string) == "\r\n"
	}
	if toks, ok := st.content[t]; ok {
		return len(toks) == 1 && toks[0].kind == "lit" && toks[0].lit == "\r\n"
	}
	return false
}

// c02Number: appendNumber produces only digits and never narrows its number.
func c02Number(c *Ctx) {
	fn := c.p.fn("memcache.appendNumber")
	if fn == nil {
		return // another rendering must be one the engine models, or request-known fails
	}
	h := Hooks{
		Narrow: func(e *Engine, st *State, in ssa.Instruction, v *Term, ok bool) {
			e.Oblige(st, "number-lossless", in, ok, "a number may be truncated before it is sent")
		},
		Bounds: func(e *Engine, st *State, in ssa.Instruction, what string, ok bool) {},
	}
	e := c.engine(h)
	e.RunFresh(fn, nil)
	c.finish(e, fn)
}

// c02Writer: writing a batch writes all lines and blocks once and in place.
func c02Writer(c *Ctx) {
	fn := c.fn("memcache.(commandListData).writeToWriter")
	rd := c.p.field("memcache", "commandListData", "requestData")
	rb := c.p.field("memcache", "commandListData", "requestBinaries")
	eo := c.p.field("memcache", "requestBinaryEntry", "offset")
	ed := c.p.field("memcache", "requestBinaryEntry", "data")
	en := c.p.field("memcache", "requestBinaryEntry", "next")
	if fn == nil || rd == nil || rb == nil || eo == nil || ed == nil || en == nil {
		c.obFn("anchor", nil, false, "writeToWriter or the fields of requestBinaryEntry not found (undecided)")
		return
	}
	var self *Term
	var reqBase, reqOff, reqLen *Term
	h := Hooks{
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			if !strings.HasSuffix(ci.Name, ".Write") || len(ci.Args) < 2 || ci.Args[1].op != OSlice {
				return nil, false
			}
			b := ci.Args[1]
			w := st.ghost["w"]
			cur := st.ghost["cur"]
			it := types.Typ[types.Int]
			switch {
			case b.args[0] == reqBase:
				ok := st.zone.eq(b.args[1], e.add(st, reqOff, w, it))
				e.Oblige(st, "contiguous", ci.Site, ok, "the part of the request written here does not start where the previous one ended")
				st.ghost["w"] = e.add(st, w, b.args[2], it)
				st.ghost["rem"] = e.sub(st, st.ghost["rem"], b.args[2], it)
				st.mon["block"] = ""
			default:
				d := e.load(st, faT(cur, ed), ed.Type())
				off := e.load(st, faT(cur, eo), eo.Type())
				e.Oblige(st, "block-in-place", ci.Site, b == d, "a write that is neither the next part of the request nor the whole next value block")
				e.Oblige(st, "block-in-place", ci.Site, st.zone.eq(off, w) && st.mon["done"] == "", "a value block is not written directly after the line it belongs to, once")
				st.mon["done"] = "1"
			}
			r := e.resultOf(st, ci)
			s2 := st.clone()
			s2.mon["failed"] = "1"
			if r.op == OTuple {
				st.facts[eqT(r.args[1], nilT())] = true
				s2.facts[eqT(r.args[1], nilT())] = false
				return []CallOut{{st, tupleT(r.args[0], nilT())}, {s2, r}}, true
			}
			return one(st, r), true
		},
		BackEdge: func(e *Engine, st *State, header, pred *ssa.BasicBlock, head *State) {
			cur := st.ghost["cur"]
			if st.mon["failed"] != "" {
				e.Oblige(st, "stops-at-error", header.Instrs[0], false, "writing goes on after an error")
			}
			if cur == nil || cur.op == ONil {
				return
			}
			e.Oblige(st, "block-in-place", header.Instrs[len(header.Instrs)-1], st.mon["done"] == "1", "a value block is skipped")
			st.mon["done"] = ""
			st.ghost["cur"] = e.load(st, faT(cur, en), en.Type())
		},
	}
	e := c.engine(h)
	outs := e.RunFresh(fn, func(st *State, args []*Term) {
		self = args[0]
		d := e.load(st, faT(self, rd), rd.Type())
		// the array is taken to begin where the slice does
		d = sliceT(d.typ, d.args[0], intT(0), d.args[2], d.args[3])
		st.heap[faT(self, rd)] = d
		reqBase, reqOff, reqLen = d.args[0], d.args[1], d.args[2]
		st.ghost["w"], st.ghost["rem"] = intT(0), reqLen
		st.ghost["cur"] = e.load(st, faT(self, rb), rb.Type())
	})
	for _, o := range outs {
		if o.Panic {
			continue
		}
		st := o.St
		if st.mon["failed"] != "" {
			e.Oblige(st, "write-error", o.Instr, e.nonNil(st, o.Res[0]), "an error of a write may be dropped")
			continue
		}
		if e.nonNil(st, o.Res[0]) {
			continue
		}
		e.Oblige(st, "all-written", o.Instr, st.zone.le(reqLen, st.ghost["w"]) || st.zone.le(st.ghost["rem"], intT(0)), "the end of the request is not written")
		v, known := e.evalBool(st, eqT(st.ghost["cur"], nilT()))
		e.Oblige(st, "all-written", o.Instr, known && v, "a value block is not written")
	}
	c.finish(e, fn)
}

// c02Pools: byte slices put into or made by a pool are empty, so a request starts empty.
func c02Pools(c *Ctx) {
	n := 0
	check := func(e *Engine, st *State, in ssa.Instruction, v *Term) {
		if v.op == OIface {
			v = v.args[0]
		}
		if v.op != OSlice {
			return
		}
		n++
		e.Oblige(st, "pool-empty", in, st.zone.le(v.args[2], intT(0)), "a slice that is not empty is given to a pool whose users append to it")
	}
	for _, fn := range c.p.funcs {
		var has bool
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if cal := call.Common().StaticCallee(); cal != nil && cal.RelString(nil) == "(*sync.Pool).Put" {
						has = true
					}
				}
			}
		}
		isNew := fn.Parent() != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && types.IsInterface(fn.Signature.Results().At(0).Type()) && !isErrorType(fn.Signature.Results().At(0).Type())
		if !has && !isNew {
			continue
		}
		e := c.engine(Hooks{Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			if ci.Name == "(*sync.Pool).Put" {
				check(e, st, ci.Site, ci.Args[1])
				return one(st, tupleT()), true
			}
			return nil, false
		}})
		outs := e.RunFresh(fn, nil)
		if isNew {
			for _, o := range outs {
				if !o.Panic {
					check(e, o.St, o.Instr, o.Res[0])
				}
			}
		}
		c.finish(e, fn)
	}
	c.obFn("pool-empty", nil, n >= 2, "no pool of request buffers found")
}
