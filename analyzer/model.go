package main

import (
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CopyRec is one copy() executed on the path.
type CopyRec struct {
	Dst, Src, N *Term
	In          ssa.Instruction
}

func one(st *State, t *Term) []CallOut { return []CallOut{{st, t}} }

func (e *Engine) builtin(st *State, ci *CallInfo) []CallOut {
	name := strings.TrimPrefix(ci.Name, "builtin:")
	args := ci.Args
	it := types.Typ[types.Int]
	switch name {
	case "len":
		if args[0].op == OSlice || isStringType2(args[0]) {
			return one(st, e.lenOf(st, args[0]))
		}
		if a, ok := ci.Site.Common().Args[0].Type().Underlying().(*types.Array); ok {
			return one(st, intT(a.Len()))
		}
		n := e.newValue(st, it, "len")
		st.zone.assumeLe(intT(0), n, 0)
		return one(st, n)
	case "cap":
		if args[0].op == OSlice {
			return one(st, args[0].args[3])
		}
		n := e.newValue(st, it, "cap")
		st.zone.assumeLe(intT(0), n, 0)
		return one(st, n)
	case "append":
		return one(st, e.doAppend(st, ci))
	case "copy":
		dst, src := args[0], args[1]
		ln := e.lenOf(st, src)
		var n *Term
		switch {
		case st.zone.le(ln, dst.args[2]):
			n = ln
		case st.zone.le(dst.args[2], ln):
			n = dst.args[2]
		default:
			n = e.newValue(st, it, "copied")
			st.zone.assumeLe(intT(0), n, 0)
			st.zone.assumeLe(n, ln, 0)
			st.zone.assumeLe(n, dst.args[2], 0)
		}
		e.havocElems(st, dst.args[0])
		st.copies = append(st.copies[:len(st.copies):len(st.copies)], CopyRec{dst, src, n, ci.Site})
		return one(st, n)
	case "panic":
		if e.h.Panic != nil {
			e.h.Panic(e, st, ci.Site)
		}
		return nil
	case "min", "max":
		r := e.newValue(st, ci.Site.Common().Signature().Results().At(0).Type(), name)
		for _, a := range args {
			if name == "min" {
				st.zone.assumeLe(r, a, 0)
			} else {
				st.zone.assumeLe(a, r, 0)
			}
		}
		// r equals one of them
		var outs []CallOut
		for i, a := range args {
			s := st
			if i < len(args)-1 {
				s = st.clone()
			}
			s.zone.assumeLe(r, a, 0)
			s.zone.assumeLe(a, r, 0)
			if !s.zone.bottom {
				outs = append(outs, CallOut{s, r})
			}
		}
		return outs
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "Slice": // unsafe.Slice
		p, n := args[0], args[1]
		e.bounds(st, ci.Site, "unsafe slice length", st.zone.le(intT(0), n))
		st.zone.assumeLe(intT(0), n, 0)
		base, off := p, intT(0)
		if p.op == OIA {
			base, off = p.args[0], p.args[1]
		}
		typ := ci.Site.Common().Signature().Results().At(0).Type()
		return one(st, sliceT(typ, base, off, n, n))
	case "close":
		return one(st, nilT())
	case "delete", "print", "println", "clear":
		return one(st, nilT())
	}
	for _, a := range args {
		e.escape(st, a)
	}
	return one(st, e.resultOf(st, ci))
}

func (e *Engine) doAppend(st *State, ci *CallInfo) *Term {
	a := ci.Args[0]
	if len(ci.Args) < 2 {
		return a
	}
	b := ci.Args[1]
	it := types.Typ[types.Int]
	typ := ci.Site.Common().Args[0].Type()
	elem := typ.Underlying().(*types.Slice).Elem()
	if a.op != OSlice {
		return e.newValue(st, typ, "append")
	}
	lb := e.lenOf(st, b)
	ln := e.add(st, a.args[2], lb, it)
	if e.Extents && b.op == OSlice {
		if n, ok := lb.isConstInt(); ok && n <= 8 && st.zone.le(ln, a.args[3]) { // in place
			for i := int64(0); i < n; i++ {
				v := e.load(st, iaT(elem, b.args[0], linT(b.args[1], i)), elem)
				e.store(st, iaT(elem, a.args[0], e.add(st, a.args[1], linT(a.args[2], i), it)), v, elem)
			}
			return sliceT(typ, a.args[0], a.args[1], ln, a.args[3])
		}
	}
	base := freshSym(types.NewPointer(elem), "appended")
	st.facts[eqT(base, nilT())] = false
	cp := freshSym(it, "cap")
	st.zone.assumeLe(ln, cp, 0)
	st.zone.assumeLe(cp, intT(maxLen), 0)
	st.zone.assumeLe(intT(0), ln, 0)
	if e.Extents {
		st.heap[extentAt(base)] = cp
	}
	r := sliceT(typ, base, intT(0), ln, cp)
	// known elements
	for adr, v := range st.heap {
		if adr.op == OIA && adr.args[0] == a.args[0] {
			if d, ok := subTerm(st, adr.args[1], a.args[1]); ok {
				st.heap[iaT(elem, base, d)] = v
			}
		}
		if adr.op == OFA {
			var path []*types.Var
			r := adr
			for r.op == OFA {
				path = append(path, r.aux.(*types.Var))
				r = r.args[0]
			}
			if r.op == OIA && r.args[0] == a.args[0] {
				if d, ok := subTerm(st, r.args[1], a.args[1]); ok {
					n := iaT(elem, base, d)
					for i := len(path) - 1; i >= 0; i-- {
						n = faT(n, path[i])
					}
					st.heap[n] = v
				}
			}
		}
	}
	if b.op == OSlice {
		if n, ok := lb.isConstInt(); ok && n <= 8 {
			for i := int64(0); i < n; i++ {
				src := iaT(elem, b.args[0], linT(b.args[1], i))
				v := e.load(st, src, elem)
				e.escape(st, v)
				putDirect(st, iaT(elem, base, linT(a.args[2], i)), v, elem)
			}
		}
	}
	if isByte(elem) {
		var toks []Tok
		if c, ok := st.content[a]; ok {
			toks = append(toks, c...)
		} else if n, ok := a.args[2].isConstInt(); !ok || n != 0 {
			toks = append(toks, Tok{kind: "prefix", t: a})
		}
		if b.op == OSlice {
			if c, ok := st.content[b]; ok {
				toks = append(toks, c...)
			} else if n, ok := lb.isConstInt(); ok && n <= 8 {
				for i := int64(0); i < n; i++ {
					v := e.load(st, iaT(elem, b.args[0], linT(b.args[1], i)), elem)
					if k, ok := v.isConstInt(); ok {
						toks = append(toks, Tok{kind: "lit", lit: string([]byte{byte(k)})})
					} else {
						toks = append(toks, Tok{kind: "byte", t: v})
					}
				}
			} else {
				toks = append(toks, Tok{kind: "bytes", t: b})
			}
		} else if c, ok := st.content[b]; ok {
			toks = append(toks, c...)
		} else {
			toks = append(toks, strTok(b))
		}
		st.content[r] = toks
	}
	if e.h.Append != nil {
		e.h.Append(e, st, ci.Site, a, b, r)
	}
	return r
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// condMutex is the lock a condition variable value was made for, when the state knows it.
func (e *Engine) condMutex(st *State, cond *Term) *Term {
	if v, ok := st.heap[appT(types.NewPointer(types.Typ[types.Int]), "condlock", cond)]; ok {
		return v
	}
	// loaded from a field: use the program wide association field -> mutex field of the same object
	for a, v := range st.heap {
		if v == cond && a.op == OFA {
			if mf := e.prog.condMutexPath(a.aux.(*types.Var)); mf != nil {
				return mf(a.args[0])
			}
		}
	}
	return nil
}

func (e *Engine) lockOp(st *State, ci *CallInfo, op string, l *Term) {
	if e.h.Lock != nil {
		e.h.Lock(e, st, ci.Site, op, l)
	}
}

// model gives the meaning of library functions the analysis knows.
func (e *Engine) model(st *State, ci *CallInfo) ([]CallOut, bool) {
	args := ci.Args
	unit := func() ([]CallOut, bool) { return one(st, tupleT()), true }
	ret := func(t *Term) ([]CallOut, bool) { return one(st, t), true }
	it := types.Typ[types.Int]
	switch ci.Name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		e.lockOp(st, ci, "lock", args[0])
		st.locks[args[0]]++
		e.syncPoint(st)
		return unit()
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		e.lockOp(st, ci, "unlock", args[0])
		st.locks[args[0]]--
		if st.locks[args[0]] == 0 {
			delete(st.locks, args[0])
		}
		return unit()
	case "(*sync.RWMutex).RLock":
		e.lockOp(st, ci, "rlock", args[0])
		k := appT(args[0].typ, "rlock", args[0])
		st.locks[k]++
		e.syncPoint(st)
		return unit()
	case "(*sync.RWMutex).RUnlock":
		e.lockOp(st, ci, "runlock", args[0])
		k := appT(args[0].typ, "rlock", args[0])
		st.locks[k]--
		if st.locks[k] == 0 {
			delete(st.locks, k)
		}
		return unit()
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		e.lockOp(st, ci, "trylock", args[0])
		s2 := st.clone()
		st.locks[args[0]]++
		return []CallOut{{st, boolT(true)}, {s2, boolT(false)}}, true
	case "sync.NewCond":
		c := freshAlloc(types.NewPointer(it), "cond")
		l := args[0]
		if l.op == OIface {
			l = l.args[0]
		}
		st.heap[appT(types.NewPointer(types.Typ[types.Int]), "condlock", c)] = l
		return ret(c)
	case "(*sync.Cond).Wait":
		e.lockOp(st, ci, "wait", args[0])
		e.syncPoint(st)
		return unit()
	case "(*sync.Cond).Signal":
		e.lockOp(st, ci, "signal", args[0])
		return unit()
	case "(*sync.Cond).Broadcast":
		e.lockOp(st, ci, "broadcast", args[0])
		return unit()
	case "(*sync.WaitGroup).Wait":
		e.syncPoint(st)
		return unit()
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done":
		return unit()
	case "errors.New", "fmt.Errorf":
		r := e.newValue(st, ci.Site.Common().Signature().Results().At(0).Type(), "err")
		st.facts[eqT(r, nilT())] = false
		return ret(r)
	case "fmt.Sprintf":
		return ret(e.sprintf(st, args[0], args[1]))
	case "bytes.Equal":
		return ret(e.bytesEqual(st, args[0], args[1]))
	case "bytes.IndexByte":
		if args[0].op == OSlice {
			s2 := st.clone()
			r := e.newValue(st, it, "index")
			st.zone.assumeLe(intT(0), r, 0)
			st.zone.assumeLe(r, args[0].args[2], -1)
			st.heap[iaT(types.Typ[types.Byte], args[0].args[0], e.add(st, args[0].args[1], r, it))] = args[1]
			outs := one(s2, intT(-1))
			if !st.zone.bottom {
				outs = append(outs, CallOut{st, r})
			}
			return outs, true
		}
	case "bytes.Index":
		if a, b := args[0], args[1]; a.op == OSlice && b.op == OSlice {
			if n, ok := b.args[2].isConstInt(); ok && n > 0 && n <= 16 {
				s2 := st.clone()
				r := e.newValue(st, it, "index")
				st.zone.assumeLe(intT(0), r, 0)
				st.zone.assumeLe(r, a.args[2], -n)
				bt := types.Typ[types.Byte]
				at := e.add(st, a.args[1], r, it)
				for i := int64(0); i < n; i++ {
					st.heap[iaT(bt, a.args[0], linT(at, i))] = e.load(st, iaT(bt, b.args[0], linT(b.args[1], i)), bt)
				}
				outs := one(s2, intT(-1))
				if !st.zone.bottom {
					outs = append(outs, CallOut{st, r})
				}
				return outs, true
			}
		}
	case "bytes.TrimSpace":
		if a := args[0]; a.op == OSlice {
			// a part of the slice
			k, n := e.newValue(st, it, "trim"), e.newValue(st, it, "trimmed")
			st.zone.assumeLe(intT(0), k, 0)
			st.zone.assumeLe(k, a.args[2], 0)
			st.zone.assumeLe(intT(0), n, 0)
			st.zone.assumeLe(n, a.args[2], 0)
			st.zone.assumeLe(e.add(st, k, n, it), a.args[2], 0)
			r := sliceT(a.typ, a.args[0], e.add(st, a.args[1], k, it), n, n)
			st.facts[appT(types.Typ[types.Bool], "trimOf", r, a)] = true
			return ret(r)
		}
	case "bytes.HasPrefix":
		return e.hasPrefix(st, args[0], args[1]), true
	case "unicode.IsControl":
		return e.runeClass(st, args[0], func(r rune) bool { return r <= 0x1f || r >= 0x7f && r <= 0x9f }, []int64{0x20, 0x7f, 0xa0}), true
	case "unicode.IsSpace":
		return e.runeClass(st, args[0], isSpaceLatin, []int64{9, 14, 32, 33, 0x85, 0x86, 0xa0, 0xa1, 0x1680, 0x3001}), true
	case "unicode.IsPrint", "unicode.IsGraphic":
		return e.runeClass(st, args[0], func(r rune) bool { return r > 0x20 && r < 0x7f || r == 0x20 }, []int64{0x20, 0x7f, 0xa0}), true
	case "math/bits.Len32", "math/bits.Len64", "math/bits.Len", "math/bits.Len8", "math/bits.Len16":
		lo, hi, o1, o2 := st.zone.rng(args[0])
		if o1 && o2 && lo >= 0 {
			l1, l2 := int64(bits.Len64(uint64(lo))), int64(bits.Len64(uint64(hi)))
			if l1 == l2 {
				return ret(intT(l1))
			}
			// one case for each result
			var outs []CallOut
			for l := l1; l <= l2; l++ {
				s := st.clone()
				if l > 0 {
					s.zone.assumeLe(intT(int64(1)<<uint(l-1)), args[0], 0)
				}
				s.zone.assumeLe(args[0], intT(int64(1)<<uint(l)-1), 0)
				e.powersOfTwo(s)
				if !s.zone.bottom {
					outs = append(outs, CallOut{s, intT(l)})
				}
			}
			return outs, true
		}
		r := appT(it, "bitlen", args[0])
		st.zone.assumeLe(r, intT(64), 0)
		st.zone.assumeLe(intT(0), r, 0)
		return ret(r)
	case "math/bits.LeadingZeros32", "math/bits.LeadingZeros64", "math/bits.LeadingZeros":
		w := int64(64)
		if strings.HasSuffix(ci.Name, "32") {
			w = 32
		}
		lo, hi, o1, o2 := st.zone.rng(args[0])
		if o1 && o2 && lo >= 0 {
			var outs []CallOut
			for l := int64(bits.Len64(uint64(lo))); l <= int64(bits.Len64(uint64(hi))); l++ {
				s := st.clone()
				if l > 0 {
					s.zone.assumeLe(intT(int64(1)<<uint(l-1)), args[0], 0)
				}
				s.zone.assumeLe(args[0], intT(int64(1)<<uint(l)-1), 0)
				e.powersOfTwo(s)
				if !s.zone.bottom {
					outs = append(outs, CallOut{s, intT(w - l)})
				}
			}
			return outs, true
		}
	case "math/bits.TrailingZeros32", "math/bits.TrailingZeros64", "math/bits.TrailingZeros":
		lo, hi, o1, o2 := st.zone.rng(args[0])
		if o1 && o2 && lo >= 1 {
			var outs []CallOut
			for l := int64(bits.Len64(uint64(lo))); l <= int64(bits.Len64(uint64(hi))); l++ {
				s := st.clone()
				s.zone.assumeLe(intT(int64(1)<<uint(l-1)), args[0], 0)
				s.zone.assumeLe(args[0], intT(int64(1)<<uint(l)-1), 0)
				e.powersOfTwo(s)
				if s.zone.bottom {
					continue
				}
				r := intT(l - 1)
				if a, b, _, _ := s.zone.rng(args[0]); a != b || a != int64(1)<<uint(l-1) {
					r = e.newValue(s, it, "zeros")
					s.zone.assumeLe(intT(0), r, 0)
					s.zone.assumeLe(r, intT(l-1), 0)
				}
				outs = append(outs, CallOut{s, r})
			}
			return outs, true
		}
		r := appT(it, "trailingzeros", args[0])
		st.zone.assumeLe(r, intT(64), 0)
		st.zone.assumeLe(intT(0), r, 0)
		return ret(r)
	case "math/bits.OnesCount", "math/bits.OnesCount32", "math/bits.OnesCount64", "math/bits.OnesCount16", "math/bits.OnesCount8":
		r := appT(it, "onescount", args[0])
		st.zone.assumeLe(r, intT(64), 0)
		st.zone.assumeLe(intT(0), r, 0)
		return ret(r)
	case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper", "strings.TrimSuffix", "strings.TrimPrefix":
		return ret(appT(types.Typ[types.String], ci.Name, args...))
	case "strings.HasPrefix":
		r := appT(types.Typ[types.Bool], "hasprefix", args...)
		return ret(r)
	case "strconv.AppendUint", "strconv.AppendInt":
		if k, ok := args[2].isConstInt(); ok && k == 10 {
			a := args[0]
			ln := e.newValue(st, it, "numlen")
			st.zone.assumeLe(intT(1), ln, 0)
			base := freshSym(types.NewPointer(types.Typ[types.Uint8]), "appended")
			l2 := e.add(st, a.args[2], ln, it)
			cp := freshSym(it, "cap")
			st.zone.assumeLe(l2, cp, 0)
			r := sliceT(a.typ, base, intT(0), l2, cp)
			e.appendTok(st, a, r, Tok{kind: "num", t: args[1]})
			return ret(r)
		}
	case "strconv.FormatUint", "strconv.FormatInt":
		if k, ok := args[1].isConstInt(); ok && k == 10 {
			r := appT(types.Typ[types.String], "decimal", args[0])
			st.zone.assumeLe(intT(1), e.lenOf(st, r), 0)
			st.content[r] = []Tok{{kind: "num", t: args[0]}}
			return ret(r)
		}
	case "strconv.Itoa":
		r := appT(types.Typ[types.String], "decimal", args[0])
		st.zone.assumeLe(intT(1), e.lenOf(st, r), 0)
		st.content[r] = []Tok{{kind: "num", t: args[0]}}
		return ret(r)
	}
	return nil, false
}

// appendTok records that r is a with one more piece.
func (e *Engine) appendTok(st *State, a, r *Term, t Tok) {
	var toks []Tok
	if c, ok := st.content[a]; ok {
		toks = append(toks, c...)
	} else if n, ok := a.args[2].isConstInt(); !ok || n != 0 {
		toks = append(toks, Tok{kind: "prefix", t: a})
	}
	st.content[r] = append(toks, t)
}

func isSpaceLatin(r rune) bool {
	switch r {
	case '\t', '\n', '\v', '\f', '\r', ' ', 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000:
		return true
	}
	return r >= 0x2000 && r <= 0x200a
}

// runeClass decides a character class when it is constant on the value range of the rune.
func (e *Engine) runeClass(st *State, r *Term, in func(rune) bool, cuts []int64) []CallOut {
	lo, hi, o1, o2 := st.zone.rng(r)
	if o1 && o2 && hi-lo <= 1<<16 && lo >= 0 && hi < 0x2000 {
		first := in(rune(lo))
		same := true
		for x := lo; x <= hi; x++ {
			if in(rune(x)) != first {
				same = false
				break
			}
		}
		if same {
			return one(st, boolT(first))
		}
		// split the range at the class borders
		var outs []CallOut
		start := lo
		for x := lo; x <= hi; x++ {
			if x == hi || in(rune(x+1)) != in(rune(x)) {
				s := st.clone()
				s.zone.assumeLe(intT(start), r, 0)
				s.zone.assumeLe(r, intT(x), 0)
				outs = append(outs, CallOut{s, boolT(in(rune(x)))})
				start = x + 1
			}
		}
		return outs
	}
	_ = cuts
	if o1 && lo >= 0 && lo < 0x80 && (!o2 || hi > 0x7f) {
		s := st.clone()
		s.zone.assumeLe(r, intT(0x7f), 0)
		st.zone.assumeLe(intT(0x80), r, 0)
		return append(e.runeClass(s, r, in, nil), CallOut{st, e.newValue(st, types.Typ[types.Bool], "class")})
	}
	return one(st, appT(types.Typ[types.Bool], "class", r, freshSym(types.Typ[types.Int], "c")))
}

// bytesEqual: compare byte by byte when one side is a short constant.
func (e *Engine) bytesEqual(st *State, a, b *Term) *Term {
	if a.op != OSlice || b.op != OSlice {
		return e.newValue(st, types.Typ[types.Bool], "equal")
	}
	la, lb := a.args[2], b.args[2]
	if st.zone.lt(la, lb) || st.zone.lt(lb, la) {
		return boolT(false)
	}
	return appT(types.Typ[types.Bool], "bytesEqual", a, b)
}

func (e *Engine) hasPrefix(st *State, a, b *Term) []CallOut {
	if a.op != OSlice || b.op != OSlice {
		return one(st, e.newValue(st, types.Typ[types.Bool], "hasPrefix"))
	}
	c := appT(types.Typ[types.Bool], "hasPrefixB", a, b)
	s2 := st.clone()
	var outs []CallOut
	st.zone.assumeLe(b.args[2], a.args[2], 0)
	st.facts[c] = true
	if !st.zone.bottom {
		// same fact as comparing the prefix
		p := sliceT(a.typ, a.args[0], a.args[1], b.args[2], a.args[3])
		st.facts[appT(types.Typ[types.Bool], "bytesEqual", p, b)] = true
		outs = append(outs, CallOut{st, boolT(true)})
	}
	s2.facts[c] = false
	outs = append(outs, CallOut{s2, boolT(false)})
	return outs
}

// putDirect sets a location of a new object.
func putDirect(st *State, addr, v *Term, typ types.Type) {
	su, ok := typ.Underlying().(*types.Struct)
	if !ok {
		st.heap[addr] = v
		return
	}
	if v.op != OStruct {
		return
	}
	for i := 0; i < su.NumFields(); i++ {
		f := su.Field(i)
		putDirect(st, faT(addr, f), v.args[i], f.Type())
	}
}

// powersOfTwo narrows integers known to be powers of two.
func (e *Engine) powersOfTwo(st *State) {
	for c, v := range st.facts {
		if !v || c.op != OEq {
			continue
		}
		for _, p := range [][2]*Term{{c.args[0], c.args[1]}, {c.args[1], c.args[0]}} {
			if x := powerTerm(st, p[0], p[1]); x != nil {
				narrowPower(st, x)
			}
		}
	}
}

// powerTerm: a == b says that the result, if above zero, is a power of two.
func powerTerm(st *State, a, b *Term) *Term {
	k, ok := b.isConstInt()
	if !ok || a.op != OApp {
		return nil
	}
	switch name, _ := a.aux.(string); {
	case name == "and" && k == 0:
		for _, q := range [][2]*Term{{a.args[0], a.args[1]}, {a.args[1], a.args[0]}} {
			if st.zone.eq(linT(q[0], -1), q[1]) && st.zone.le(intT(1), q[0]) {
				return q[0]
			}
		}
	case name == "onescount" && k == 1:
		return a.args[0]
	}
	return nil
}

func narrowPower(st *State, x *Term) {
	lo, hi, o1, o2 := st.zone.rng(x)
	if !o1 || !o2 || lo < 1 {
		return
	}
	up := int64(1) << uint(bits.Len64(uint64(lo-1)))
	down := int64(1) << uint(bits.Len64(uint64(hi))-1)
	st.zone.assumeLe(intT(up), x, 0)
	st.zone.assumeLe(x, intT(down), 0)
}
