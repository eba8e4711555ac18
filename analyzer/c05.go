package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C05", min: 20,
		rule: "The response reader is interpreted in the most general order its callers may use it, with chunks of any content and length. Two ghosts give the first byte of the current chunk that is not accounted for, and how many follow it. " +
			"Bytes are accounted for when they are appended, in order, to the response of the current command and the result is stored there; when they are kept in the reader for the next response; or when they are skipped as part of a value: copied to the place right after the last piece, up to the length the value's memory was taken for, and two bytes for the line break after it. " +
			"A value is given to the command only when exactly its length plus two bytes were consumed; a response is not complete while its value is not; a new chunk is accepted only when nothing of the last is unaccounted for. A response is complete only when a line feed or a value was the last that was taken. Reported errors void the rest of the stream until the reader is reset.",
		not: "that the announced number is what the digits say; that the two bytes after a value are a line break; that a line ends at its first line break",
		run: runC05,
	})
}

// conserve follows what happens to the bytes of the stream.
type conserve struct {
	c                     *Ctx
	e                     *Engine
	rdT                   *types.Named
	cmdT                  types.Type
	rdF, rbF              *types.Var
	records, keeps, skips int
	values                int
}

func runC05(c *Ctx) {
	drive := c.harness("memcache.verifDriveReader")
	v := &conserve{c: c, rdT: c.p.typ("memcache", "responseReader"), rdF: c.p.field("memcache", "commandListData", "responseData"), rbF: c.p.field("memcache", "commandListData", "responseBinaries")}
	next, reset := c.fn("memcache.(responseReader).readNextData"), c.fn("memcache.(responseReader).reset")
	if drive == nil || v.rdT == nil || v.rdF == nil || v.rbF == nil || next == nil || reset == nil {
		c.obFn("anchor", drive, false, "the response reader is not found (undecided)")
		return
	}
	rec := newRecycler(c)
	e := c.engine(Hooks{})
	v.e = e
	e.Partition = func(st *State) string {
		return c.p.enumPartition(st) + "|" + st.mon["value"] + "|" + st.mon["err"] + "|" + st.mon["kept"] + "|" + v.rest(st) + v.share(st)
	}
	e.MergeAt = 1
	e.Quick = true
	e.h = Hooks{
		Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
			if ci.Name == "builtin:copy" {
				v.copied(st, ci)
				return nil, false
			}
			fn := ci.Callee
			if fn == nil {
				if ci.Name == "dynamic" && c.p.inHarness(ci.Site.Parent()) {
					if rs := ci.Site.Common().Signature().Results(); rs.Len() == 1 && isByteSlice(rs.At(0).Type()) {
						return one(st, v.chunk(st, ci.Site, rs.At(0).Type())), true
					}
				}
				return nil, false
			}
			if c.p.inRepo(fn) && fn.Signature.Results().Len() == 1 && isByteSlice(fn.Signature.Results().At(0).Type()) && c.p.effects(fn).calls["(*sync.Pool).Get"] && rec.only(fn) && len(ci.Args) > 0 && isIntTerm(ci.Args[len(ci.Args)-1]) {
				return one(st, v.value(st, ci, fn.Signature.Results().At(0).Type())), true
			}
			return nil, false
		},
		Append: v.appended,
		Store:  v.stored,
		BackEdge: func(e *Engine, st *State, header, pred *ssa.BasicBlock, head *State) {
			v.backEdge(st, header, pred)
		},
		Leave: func(e *Engine, st *State, fn *ssa.Function, args []*Term, out Outcome) {
			st = out.St
			if !out.Panic {
				v.left(st, fn, args, out)
			}
			switch fn {
			case reset:
				v.clear(st)
			case next:
				if len(out.Res) == 1 && !out.Panic {
					v.keep(st, out.Instr)
					if isTrue, known := e.evalBool(st, out.Res[0]); !known || isTrue {
						v.ob(st, "value-complete", out.Instr, st.mon["value"] != "open" && (st.mon["value"] != "done" || v.sumEq(st, st.ghost["left"], st.ghost["rem"]) || v.zero(st, st.ghost["left"])), "a response is complete only when its value is")
						v.ob(st, "stored", out.Instr, st.mon["pend"] == "", "what was appended is stored in the command")
						v.ob(st, "line-end", out.Instr, st.mon["last"] != "", "a response is complete only when its line break, or its value, was the last that was taken")
						delete(st.mon, "last")
					}
				}
			}
		},
	}
	e.RunFresh(drive, func(st *State, args []*Term) { v.clear(st) })
	c.finish(e, drive)
	c.summary["records"], c.summary["kept"], c.summary["skipped"], c.summary["values"] = v.records, v.keeps, v.skips, v.values
	c.obFn("anchor", next, v.records > 0 && v.keeps > 0 && v.skips > 0 && v.values > 0, "bytes are recorded, kept and stored as values (%d, %d, %d)", v.records, v.keeps, v.skips)
}

// share: whether the rest of the value, or the rest of the chunk, is the smaller one.
func (v *conserve) share(st *State) string {
	g, r := st.ghost, ""
	if st.mon["value"] != "open" || v.rest(st) != "" {
		return r
	}
	if v.le(st, g["left"], g["rem"]) {
		r += "v"
	}
	if v.le(st, g["rem"], g["left"]) {
		r += "c"
	}
	return r
}

// rest: nothing of the chunk is left.
func (v *conserve) rest(st *State) string {
	if st.mon["kept"] == "" && st.ghost["B"] != nil && st.ghost["B"].isNilTerm() {
		return "0"
	}
	return ""
}

func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isByte(sl.Elem())
}

func (v *conserve) ob(st *State, rule string, in ssa.Instruction, ok bool, format string, a ...any) {
	if st.mon["err"] != "" {
		return
	}
	v.e.Oblige(st, rule, in, ok, format, a...)
}

func (v *conserve) sumEq(st *State, a, b *Term) bool {
	return a == b || st.zone.eq(a, b) || v.e.sumEq(st, []*Term{a}, []*Term{b})
}

func (v *conserve) le(st *State, a, b *Term) bool {
	return a == b || st.zone.le(a, b) || v.e.sumLe(st, []*Term{a}, []*Term{b})
}

// norm writes a sum in one way.
func (v *conserve) norm(st *State, t *Term) *Term {
	m := map[*Term]int64{}
	c := linear(t, 1, m)
	var pos, neg []*Term
	for a, k := range m {
		for ; k > 0; k-- {
			pos = append(pos, a)
		}
		for ; k < 0; k++ {
			neg = append(neg, a)
		}
		if len(pos)+len(neg) > 8 {
			return t
		}
	}
	sortTerms(pos)
	sortTerms(neg)
	if len(pos) == 0 {
		if len(neg) == 0 {
			return intT(c)
		}
		return t
	}
	r := linT(pos[0], c)
	for _, a := range pos[1:] {
		r = v.e.add(st, r, a, types.Typ[types.Int])
	}
	for _, a := range neg {
		r = v.e.sub(st, r, a, types.Typ[types.Int])
	}
	return r
}

func (v *conserve) zero(st *State, a *Term) bool { return v.sumEq(st, a, intT(0)) }

// clear: the stream starts anew.
func (v *conserve) clear(st *State) {
	for _, k := range []string{"at", "rem", "vlen", "left", "eaten", "src", "srclen", "dst", "dstlen", "keep", "keeplen"} {
		st.ghost[k] = intT(0)
	}
	for _, k := range []string{"B", "V", "pend"} {
		st.ghost[k] = nilT()
	}
	for _, k := range []string{"value", "err", "kept", "copy", "pend", "last"} {
		delete(st.mon, k)
	}
}

// chunk: the next bytes of the stream are given to the reader.
func (v *conserve) chunk(st *State, in ssa.Instruction, t types.Type) *Term {
	v.keep(st, in)
	if st.mon["err"] == "" {
		if st.mon["kept"] != "" {
			v.ob(st, "kept-first", in, v.zero(st, st.ghost["rem"]), "new bytes are taken only when the bytes that were kept are used up")
		} else {
			v.skip(st, in, st.ghost["rem"])
		}
		v.ob(st, "stored", in, st.mon["pend"] == "", "what was appended is stored in the command")
	}
	b := v.e.newValue(st, types.NewPointer(types.Typ[types.Byte]), "chunk")
	st.facts[eqT(b, nilT())] = false
	ln, cp := v.e.newValue(st, types.Typ[types.Int], "len"), v.e.newValue(st, types.Typ[types.Int], "cap")
	st.zone.assumeLe(intT(0), ln, 0)
	st.zone.assumeLe(ln, cp, 0)
	st.zone.assumeLe(cp, intT(maxLen), 0)
	st.ghost["B"], st.ghost["at"], st.ghost["rem"] = b, intT(0), ln
	delete(st.mon, "kept")
	return sliceT(t, b, intT(0), ln, cp)
}

// value: memory for a value is taken.
func (v *conserve) value(st *State, ci *CallInfo, t types.Type) *Term {
	e := v.e
	v.values++
	v.ob(st, "value-complete", ci.Site, st.mon["value"] == "", "memory for a value is taken only when the last value is complete")
	b := e.newValue(st, types.NewPointer(types.Typ[types.Byte]), "value")
	st.facts[eqT(b, nilT())] = false
	ln := ci.Args[len(ci.Args)-1]
	cp := e.newValue(st, types.Typ[types.Int], "cap")
	st.zone.assumeLe(ln, cp, 0)
	st.ghost["V"], st.ghost["vlen"], st.ghost["eaten"] = b, ln, intT(0)
	st.ghost["left"] = e.add(st, ln, intT(2), types.Typ[types.Int])
	st.mon["value"] = "open"
	return sliceT(t, b, intT(0), ln, cp)
}

// to: everything before off is accounted for, or skipped here.
func (v *conserve) to(st *State, in ssa.Instruction, off *Term) {
	if st.mon["err"] != "" {
		return
	}
	at := st.ghost["at"]
	v.ob(st, "in-order", in, v.le(st, at, off), "bytes are used once, in order")
	v.skip(st, in, v.e.sub(st, off, at, types.Typ[types.Int]))
}

// skip: k more bytes are neither recorded nor kept.
func (v *conserve) skip(st *State, in ssa.Instruction, k *Term) {
	if st.mon["err"] != "" {
		return
	}
	e, it := v.e, types.Typ[types.Int]
	g := st.ghost
	if !v.zero(st, k) {
		v.skips++
		if st.mon["value"] == "" {
			v.ob(st, "conserved", in, false, "every byte is recorded, kept, or part of a value (%v bytes are dropped)", k)
		} else {
			full := v.le(st, g["vlen"], g["eaten"])
			v.ob(st, "value-end", in, v.le(st, k, g["left"]), "no more bytes are taken for a value than its length and the line break")
			if st.mon["copy"] != "" {
				v.ob(st, "value-bytes", in, v.sumEq(st, g["src"], g["at"]) && (v.le(st, k, g["srclen"]) || v.le(st, g["dstlen"], g["srclen"])), "the bytes that are stored in the value are those that are skipped")
				v.ob(st, "value-place", in, v.sumEq(st, g["dst"], g["eaten"]), "a piece of a value is stored right after the previous one")
				v.ob(st, "value-bytes", in, v.le(st, k, g["dstlen"]) || e.sumEq(st, []*Term{g["dst"], g["dstlen"]}, []*Term{g["vlen"]}), "all bytes of the value are stored")
			} else {
				v.ob(st, "value-bytes", in, full, "bytes of a value are skipped without being stored only when the value is full")
			}
			g["left"] = e.sub(st, g["left"], k, it)
			if !full {
				g["eaten"] = e.add(st, g["eaten"], k, it)
			}
		}
		g["at"] = e.add(st, g["at"], k, it)
		g["rem"] = e.sub(st, g["rem"], k, it)
	}
	delete(st.mon, "copy")
	for _, n := range []string{"src", "srclen", "dst", "dstlen"} {
		g[n] = intT(0)
	}
	if st.mon["value"] == "done" {
		v.ob(st, "value-complete", in, v.zero(st, g["left"]), "a value is complete when its length and the line break were consumed")
		delete(st.mon, "value")
		st.mon["last"] = "1"
		g["V"], g["vlen"], g["left"], g["eaten"] = nilT(), intT(0), intT(0), intT(0)
	}
	v.names(st)
}

// left: a function of the reader returns what is left of the bytes it was given.
func (v *conserve) left(st *State, fn *ssa.Function, args []*Term, out Outcome) {
	if fn.Signature.Recv() == nil || derefType(fn.Signature.Recv().Type()) != types.Type(v.rdT) {
		return
	}
	if len(out.Res) == 0 {
		if st.mon["kept"] == "" {
			for _, a := range args {
				v.upTo(st, a)
			}
			v.names(st)
		}
		return
	}
	if len(out.Res) != 1 || !isByteSlice(fn.Signature.Results().At(0).Type()) {
		return
	}
	takes := false
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		takes = takes || isByteSlice(fn.Signature.Params().At(i).Type())
	}
	if !takes {
		return
	}
	v.keep(st, out.Instr)
	if st.mon["kept"] != "" {
		return
	}
	x, g := out.Res[0], st.ghost
	switch {
	case x.op == OSlice && x.args[0] == g["B"] && !x.args[0].isNilTerm():
		if v.e.sumEq(st, []*Term{x.args[1], x.args[2]}, []*Term{g["at"], g["rem"]}) {
			v.to(st, out.Instr, x.args[1])
			if st.mon["err"] == "" {
				g["at"], g["rem"] = x.args[1], x.args[2]
				if v.zero(st, g["rem"]) {
					v.names(st)
				}
			}
		}
	case v.e.isNil(st, x):
		v.skip(st, out.Instr, g["rem"])
		if st.mon["err"] == "" {
			g["rem"] = intT(0)
			v.names(st)
		}
	}
}

// upTo: all of x was used; what is left is written as what follows it.
func (v *conserve) upTo(st *State, x *Term) {
	g, it := st.ghost, types.Typ[types.Int]
	if x.op != OSlice || x.args[0] != g["B"] || x.args[0].isNilTerm() {
		return
	}
	end := v.norm(st, v.e.add(st, x.args[1], x.args[2], it))
	if at := g["at"]; end != at && v.sumEq(st, end, at) {
		g["at"], g["rem"] = end, v.norm(st, v.e.sub(st, v.e.add(st, at, g["rem"], it), end, it))
	}
}

// keep: the bytes that were stored in the reader are all that is left.
func (v *conserve) keep(st *State, in ssa.Instruction) {
	if st.mon["kept"] != "later" {
		return
	}
	g := st.ghost
	delete(st.mon, "kept")
	v.to(st, in, g["keep"])
	v.ob(st, "conserved", in, v.sumEq(st, g["keeplen"], g["rem"]), "all bytes that follow are kept")
	if v.rest(st) == "" && st.mon["err"] == "" {
		g["at"], g["rem"] = g["keep"], g["keeplen"]
		st.mon["kept"] = "1"
	}
	g["keep"], g["keeplen"] = intT(0), intT(0)
}

// names: sums are written in one way, and the ghosts are kept by the names of the fields they equal.
func (v *conserve) names(st *State) {
	for _, n := range []string{"at", "rem", "left", "eaten"} {
		st.ghost[n] = v.norm(st, st.ghost[n])
	}
	if st.mon["kept"] == "" && v.zero(st, st.ghost["rem"]) {
		st.ghost["B"], st.ghost["at"], st.ghost["rem"] = nilT(), intT(0), intT(0)
	}
	for _, n := range []string{"left", "eaten"} {
		if st.mon["value"] == "" || st.ghost[n].op == OInt {
			continue
		}
		for a, t := range st.heap {
			if a.op == OFA && ownerType(v.c, a.aux.(*types.Var)) == v.rdT && isIntTerm(t) && t.op != OInt && v.sumEq(st, t, st.ghost[n]) {
				st.ghost[n] = t
				break
			}
		}
	}
}

func (v *conserve) copied(st *State, ci *CallInfo) {
	dst, src := ci.Args[0], ci.Args[1]
	if dst.op != OSlice || src.op != OSlice || st.mon["value"] == "" || dst.args[0] != st.ghost["V"] {
		return
	}
	v.ob(st, "value-bytes", ci.Site, src.args[0] == st.ghost["B"], "a value is filled from the stream")
	v.to(st, ci.Site, src.args[1])
	st.mon["copy"] = "1"
	st.ghost["src"], st.ghost["srclen"], st.ghost["dst"], st.ghost["dstlen"] = src.args[1], src.args[2], dst.args[1], dst.args[2]
}

func (v *conserve) appended(e *Engine, st *State, in ssa.Instruction, base, add, res *Term) {
	if add == nil || res.op != OSlice || st.mon["err"] != "" {
		return
	}
	if isBytesSlice(res.typ) {
		if !v.holds(st, base, v.rbF) {
			return
		}
		v.ob(st, "value-complete", in, st.mon["value"] == "open", "a value is given to the command once")
		var el *Term
		if add.op == OSlice {
			el = st.heap[iaT(types.NewPointer(add.typ.Underlying().(*types.Slice).Elem()), add.args[0], add.args[1])]
		}
		v.ob(st, "value-own", in, el != nil && el.op == OSlice && el.args[0] == st.ghost["V"] && v.zero(st, el.args[1]) && v.sumEq(st, el.args[2], st.ghost["vlen"]), "the value that is given to the command is the one that was filled, all of it")
		st.mon["value"] = "done"
		v.pend(st, in, res)
		return
	}
	if !isByteSlice(res.typ) || !v.holds(st, base, v.rdF) {
		return
	}
	v.records++
	ok := add.op == OSlice && (add.args[0] == st.ghost["B"] || v.zero(st, add.args[2]))
	v.ob(st, "recorded", in, ok, "what is recorded as the response are bytes of the stream")
	if !ok {
		return
	}
	if v.zero(st, add.args[2]) {
		v.pend(st, in, res)
		return
	}
	v.to(st, in, add.args[1])
	if st.mon["value"] != "" {
		v.ob(st, "recorded", in, e.sumEq(st, []*Term{st.ghost["left"]}, []*Term{st.ghost["vlen"], intT(2)}), "bytes of a value are not recorded as the response")
	}
	it := types.Typ[types.Int]
	delete(st.mon, "last")
	if v.lineEnd(st, e.add(st, add.args[1], e.sub(st, add.args[2], intT(1), it), it)) {
		st.mon["last"] = "1"
	}
	v.ob(st, "in-range", in, v.le(st, add.args[2], st.ghost["rem"]), "only bytes of the chunk are recorded")
	st.ghost["at"] = e.add(st, st.ghost["at"], add.args[2], it)
	st.ghost["rem"] = e.sub(st, st.ghost["rem"], add.args[2], it)
	v.names(st)
	v.pend(st, in, res)
}

// lineEnd: the byte of the chunk at this place is known to end a line.
func (v *conserve) lineEnd(st *State, at *Term) bool {
	for a, t := range st.heap {
		if a.op == OIA && a.args[0] == st.ghost["B"] && isIntTerm(t) && v.sumEq(st, a.args[1], at) {
			if is, known := v.e.evalBool(st, v.e.eqTerm(st, t, intT('\n'))); known && is {
				return true
			}
		}
	}
	return false
}

// holds: base is what the field of a command holds.
func (v *conserve) holds(st *State, base *Term, f *types.Var) bool {
	for a, t := range st.heap {
		if a.op == OFA && a.aux == f && t == base {
			return true
		}
	}
	return false
}

func (v *conserve) pend(st *State, in ssa.Instruction, res *Term) {
	v.ob(st, "stored", in, st.mon["pend"] == "", "what was appended is stored in the command")
	st.mon["pend"] = "1"
	st.ghost["pend"] = res
}

func (v *conserve) stored(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
	if addr.op != OFA {
		return
	}
	f := addr.aux.(*types.Var)
	if f == v.rdF || f == v.rbF {
		cur := false
		for a, t := range st.heap {
			cur = cur || a.op == OFA && ownerType(v.c, a.aux.(*types.Var)) == v.rdT && t == addr.args[0]
		}
		if st.mon["pend"] != "" && st.ghost["pend"] == val {
			v.ob(st, "stored", in, cur, "bytes are recorded in the current command")
			delete(st.mon, "pend")
			st.ghost["pend"] = nilT()
		} else if old := e.load(st, addr, f.Type()); cur && old != val {
			v.ob(st, "stored", in, old.op == OSlice && v.zero(st, old.args[2]), "what was recorded is not replaced")
		}
		return
	}
	if ownerType(v.c, f) != v.rdT {
		return
	}
	switch {
	case isErrorType(f.Type()):
		if e.nonNil(st, val) {
			v.clear(st)
			st.mon["err"] = "1"
		}
	case isByteSlice(f.Type()):
		if val.op == OSlice && val.args[0] == st.ghost["B"] && !val.args[0].isNilTerm() {
			if st.mon["err"] != "" {
				return
			}
			v.keeps++
			st.mon["kept"] = "later"
			st.ghost["keep"], st.ghost["keeplen"] = val.args[1], val.args[2]
			return
		}
		// the field that holds them is set to something else
		old := st.heap[addr]
		if st.mon["kept"] != "" && old != nil && old.op == OSlice && old.args[0] == st.ghost["B"] {
			delete(st.mon, "kept")
		}
	}
}

// backEdge: a loop over the remaining bytes comes to its next turn.
func (v *conserve) backEdge(st *State, header, pred *ssa.BasicBlock) {
	if st.mon["kept"] == "later" && header.Parent().Signature.Recv() != nil && derefType(header.Parent().Signature.Recv().Type()) == types.Type(v.rdT) {
		v.keep(st, header.Instrs[0])
	}
	if st.mon["err"] != "" || st.mon["kept"] != "" {
		return
	}
	for _, in := range header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			return
		}
		if !isByteSlice(phi.Type()) {
			continue
		}
		was := st.frame.env[phi]
		if was == nil || was.op != OSlice || was.args[0] != st.ghost["B"] {
			continue
		}
		for i, p := range header.Preds {
			if p != pred {
				continue
			}
			x := v.e.val(st, phi.Edges[i])
			switch {
			case x.op == OSlice && x.args[0] == st.ghost["B"]:
				v.to(st, in, x.args[1])
				v.ob(st, "conserved", in, v.sumEq(st, x.args[2], st.ghost["rem"]), "all bytes that follow are used in the next turn")
				st.ghost["at"], st.ghost["rem"] = x.args[1], x.args[2]
				if v.zero(st, x.args[2]) {
					v.names(st)
				}
			case v.e.isNil(st, x) || x.op == OSlice && v.zero(st, x.args[2]):
				v.skip(st, in, st.ghost["rem"])
				st.ghost["rem"] = intT(0)
				v.names(st)
			}
		}
	}
}
