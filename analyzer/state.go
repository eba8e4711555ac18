package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Trace is the list of program points of one analysed path (newest first).
type Trace struct {
	what string
	prev *Trace
	n    int
}

type deferred struct {
	call ssa.CallInstruction
	fn   *Term
	args []*Term
}

// Frame is one activation on the analysed (inlined) call path.
type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]*Term
	parent   *Frame
	bindings []*Term
	defers   []deferred
	site     ssa.Instruction
	depth    int
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]*Term, len(f.env)+4)
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	return &g
}

// State is the abstract state on one path.
type State struct {
	frame   *Frame
	heap    map[*Term]*Term
	epoch   map[any]int
	zone    *Zone
	facts   map[*Term]bool
	ghost   map[string]*Term
	mon     map[string]string
	locks   map[*Term]int
	escaped map[*Term]bool
	content map[*Term][]Tok
	copies  []CopyRec
	trace   *Trace
}

// Tok is a piece of byte content of a slice built on the path.
type Tok struct {
	kind string // lit, bytes (of a slice or string term), num (decimal of an int term), unknown
	lit  string
	t    *Term
}

func newState() *State {
	return &State{
		heap: map[*Term]*Term{}, epoch: map[any]int{}, zone: newZone(), facts: map[*Term]bool{},
		ghost: map[string]*Term{}, mon: map[string]string{}, locks: map[*Term]int{},
		escaped: map[*Term]bool{}, content: map[*Term][]Tok{},
	}
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	c := make(map[K]V, len(m)+2)
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (s *State) clone() *State {
	c := *s
	if s.frame != nil {
		c.frame = s.frame.clone()
	}
	c.heap = cloneMap(s.heap)
	c.epoch = cloneMap(s.epoch)
	c.zone = s.zone.clone()
	c.facts = cloneMap(s.facts)
	c.ghost = cloneMap(s.ghost)
	c.mon = cloneMap(s.mon)
	c.locks = cloneMap(s.locks)
	c.escaped = cloneMap(s.escaped)
	c.content = cloneMap(s.content)
	return &c
}

func (s *State) note(what string) {
	n := 0
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &Trace{what: what, prev: s.trace, n: n}
}

func (s *State) key() string {
	var b strings.Builder
	for _, k := range sortedKeys(s.mon) {
		b.WriteString(k + "=" + s.mon[k] + ";")
	}
	n := 0
	var ls []string
	for l, c := range s.locks {
		if c != 0 {
			n += c
			ls = append(ls, lockName(l)+strconv.Itoa(c))
		}
	}
	sort.Strings(ls)
	b.WriteString(strings.Join(ls, ","))
	b.WriteString("|" + strconv.Itoa(len(s.frame.defers)))
	return b.String()
}

func lockName(l *Term) string {
	if l.op == OFA {
		return l.aux.(*types.Var).Name()
	}
	return l.String()
}

// ---------------------------------------------------------------------------
// memory
// ---------------------------------------------------------------------------

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

type cellKey struct{ t string }
type elemKey struct{ t string }

// locKey classifies an address for type based aliasing.
func locKey(addr *Term, typ types.Type) any {
	switch addr.op {
	case OFA:
		return addr.aux.(*types.Var)
	case OIA:
		return elemKey{typeString(typ)}
	case OGlobal:
		return addr.aux.(*ssa.Global)
	}
	return cellKey{typeString(typ)}
}

func (s *State) rootAlloc(a *Term) *Term {
	for {
		switch a.op {
		case OFA, OIA:
			a = a.args[0]
			continue
		case OAlloc:
			return a
		}
		return nil
	}
}

func (s *State) localAlloc(a *Term) bool {
	r := s.rootAlloc(a)
	return r != nil && !s.escaped[r]
}

// distinct reports that two addresses of the same class cannot be the same.
func (s *State) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == OIA && b.op == OIA {
		if a.args[0] == b.args[0] {
			return s.zone.lt(a.args[1], b.args[1]) || s.zone.lt(b.args[1], a.args[1])
		}
		return s.distinct(a.args[0], b.args[0])
	}
	if a.op == OFA && b.op == OFA {
		if a.aux != b.aux {
			// fields of the same struct type at different offsets, or of different types
			if sameOwner(a, b) || !fieldMayContain(a, b) {
				return true
			}
			return false
		}
		return s.distinct(a.args[0], b.args[0])
	}
	ra, rb := s.rootAlloc(a), s.rootAlloc(b)
	if ra != nil && rb != nil && ra != rb {
		return true
	}
	if ra != nil && rb == nil && !s.escaped[ra] {
		return true
	}
	if rb != nil && ra == nil && !s.escaped[rb] {
		return true
	}
	ga, gb := rootGlobal(a), rootGlobal(b)
	if ga != nil && gb != nil && (ga != gb || a.op == OGlobal && b.op == OGlobal) {
		return true
	}
	if (ga != nil && rb != nil) || (gb != nil && ra != nil) {
		return true
	}
	if v, ok := s.facts[eqT(a, b)]; ok && !v {
		return true
	}
	if a.op == ONil || b.op == ONil {
		return true
	}
	return false
}

// rootGlobal is the package variable an address lies in.
func rootGlobal(a *Term) *Term {
	for a.op == OFA || a.op == OIA {
		a = a.args[0]
	}
	if a.op == OGlobal {
		return a
	}
	return nil
}

func sameOwner(a, b *Term) bool       { return true }
func fieldMayContain(a, b *Term) bool { return false }

// freshEpoch gives a new epoch number.
func freshEpoch() int { tt.uid++; return tt.uid }

func (e *Engine) zero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return intT(0)
		case u.Info()&types.IsBoolean != 0:
			return boolT(false)
		case u.Info()&types.IsString != 0:
			return strT("")
		case u.Kind() == types.UnsafePointer:
			return nilT()
		}
		return mk(OConst, typ, "zero")
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = e.zero(u.Field(i).Type())
		}
		return mk(OStruct, typ, typ, args...)
	case *types.Slice:
		return nilSlice(typ)
	case *types.Array:
		return mk(OApp, typ, "zeroarr:"+typeString(typ))
	case *types.Tuple:
		return tupleT()
	}
	return nilT()
}

func nilSlice(typ types.Type) *Term {
	return sliceT(typ, nilT(), intT(0), intT(0), intT(0))
}

// newValue makes an unknown value of a type, with the structure needed by the analysis.
func (e *Engine) newValue(st *State, typ types.Type, name string) *Term {
	return e.unknown(st, typ, name, func(t types.Type, n string) *Term { return freshSym(t, n) })
}

func (e *Engine) unknown(st *State, typ types.Type, name string, mkSym func(types.Type, string) *Term) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = e.unknown(st, u.At(i).Type(), name+"."+strconv.Itoa(i), mkSym)
		}
		return tupleT(args...)
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = e.unknown(st, u.Field(i).Type(), name+"."+u.Field(i).Name(), mkSym)
		}
		return mk(OStruct, typ, typ, args...)
	case *types.Slice:
		b := mkSym(types.NewPointer(u.Elem()), name+".arr")
		o := mkSym(types.Typ[types.Int], name+".off")
		l := mkSym(types.Typ[types.Int], name+".len")
		c := mkSym(types.Typ[types.Int], name+".cap")
		z := intT(0)
		st.zone.assumeLe(z, o, 0)
		st.zone.assumeLe(z, l, 0)
		st.zone.assumeLe(l, c, 0)
		st.zone.assumeLe(c, intT(maxLen), 0)
		return sliceT(typ, b, o, l, c)
	case *types.Basic:
		s := mkSym(typ, name)
		if u.Info()&types.IsInteger != 0 {
			st.zone.index(s)
		}
		return s
	}
	return mkSym(typ, name)
}

func (s *State) epochOf(key any, typ types.Type) string {
	return strconv.Itoa(s.epoch[key]) + "/" + strconv.Itoa(s.epoch[cellKey{typeString(typ)}]) + "/" + strconv.Itoa(s.epoch["*"])
}

// load reads a memory location.
func (e *Engine) load(st *State, addr *Term, typ types.Type) *Term {
	if su, ok := typ.Underlying().(*types.Struct); ok {
		args := make([]*Term, su.NumFields())
		for i := range args {
			f := su.Field(i)
			args[i] = e.load(st, faT(addr, f), f.Type())
		}
		return mk(OStruct, typ, typ, args...)
	}
	if v, ok := st.heap[addr]; ok {
		return v
	}
	if addr.op == OIA {
		// same backing store, provably equal index
		for a, v := range st.heap {
			if a.op == OIA && a.args[0] == addr.args[0] && st.zone.eq(a.args[1], addr.args[1]) {
				return v
			}
		}
		if v := e.constElem(st, addr); v != nil {
			return v
		}
		if b := addr.args[0]; b.op == OAlloc && !st.escaped[b] {
			if s := st.ghost["bytesof:"+b.String()]; s != nil {
				return e.strElem(st, s, addr.args[1], typ)
			}
		}
	}
	key := locKey(addr, typ)
	ep := st.epochOf(key, typ)
	v := e.unknown(st, typ, "*"+shortAddr(addr), func(t types.Type, n string) *Term {
		return mk(OSym, t, "ld:"+n+":"+strconv.Itoa(addr.id)+"@"+ep).asSym(n)
	})
	st.heap[addr] = v
	return v
}

func (t *Term) asSym(name string) *Term {
	if _, ok := t.aux.(symAux); !ok {
		tt.uid++
		t.aux = symAux{tt.uid, name}
	}
	return t
}

func shortAddr(addr *Term) string {
	switch addr.op {
	case OFA:
		return addr.aux.(*types.Var).Name()
	case OIA:
		return "elem"
	case OGlobal:
		return addr.aux.(*ssa.Global).Name()
	}
	return "cell"
}

// constElem is the element of a constant byte string.
func (e *Engine) constElem(st *State, addr *Term) *Term {
	base := addr.args[0]
	if base.op == OApp && base.aux == "strdata" && base.args[0].op == OStr {
		if i, ok := addr.args[1].isConstInt(); ok {
			s := base.args[0].aux.(string)
			if i >= 0 && i < int64(len(s)) {
				return intT(int64(s[i]))
			}
		}
	}
	return nil
}

func (e *Engine) killAlias(st *State, addr *Term, typ types.Type) {
	key := locKey(addr, typ)
	ts := typeString(typ)
	_, isCell := key.(cellKey)
	if isCell && addr.op == OAlloc {
		isCell = false // a variable of its own
		if !st.escaped[addr] {
			return
		}
	}
	local := st.localAlloc(addr)
	for a := range st.heap {
		if a == addr {
			continue
		}
		at := derefType(a.typ)
		if at == nil {
			continue
		}
		akey := locKey(a, at)
		same := akey == key
		if !same && typeString(at) == ts {
			_, aCell := akey.(cellKey)
			if aCell && a.op != OAlloc || isCell {
				same = true
			}
		}
		if !same {
			continue
		}
		if local && !isCell {
			if st.distinct(a, addr) {
				continue
			}
		} else if st.distinct(a, addr) {
			continue
		}
		delete(st.heap, a)
	}
	if local && !isCell {
		return
	}
	st.epoch[key] = freshEpoch()
	if isCell {
		st.epoch[cellKey{ts}] = freshEpoch()
	}
}

// store writes a memory location.
func (e *Engine) store(st *State, addr, val *Term, typ types.Type) {
	if su, ok := typ.Underlying().(*types.Struct); ok {
		for i := 0; i < su.NumFields(); i++ {
			f := su.Field(i)
			e.store(st, faT(addr, f), e.fieldOf(st, val, typ, i), f.Type())
		}
		return
	}
	e.killAlias(st, addr, typ)
	if addr.op == OIA && addr.args[0].op == OAlloc {
		delete(st.ghost, "bytesof:"+addr.args[0].String())
	}
	st.heap[addr] = val
	if !st.localAlloc(addr) {
		e.escape(st, val)
	}
}

func (e *Engine) fieldOf(st *State, val *Term, typ types.Type, i int) *Term {
	if val.op == OStruct {
		return val.args[i]
	}
	su := typ.Underlying().(*types.Struct)
	f := su.Field(i)
	return e.unknown(st, f.Type(), f.Name(), func(t types.Type, n string) *Term {
		return appT(t, "field:"+n, val)
	})
}

// escape marks objects reachable from a value as reachable by others.
func (e *Engine) escape(st *State, val *Term) {
	if val == nil {
		return
	}
	var syms []*Term
	termSyms(val, map[*Term]bool{}, func(t *Term) { syms = append(syms, t) })
	for _, t := range syms {
		if t.op != OAlloc || st.escaped[t] {
			continue
		}
		st.escaped[t] = true
		for a, v := range st.heap {
			if st.rootAlloc(a) == t {
				e.escape(st, v)
			}
		}
	}
}

// havocKeys forgets the given fields (of objects others can reach).
func (e *Engine) havocKeys(st *State, match func(addr *Term, key any) bool, keys []any) {
	for a := range st.heap {
		at := derefType(a.typ)
		if at == nil {
			continue
		}
		if st.localAlloc(a) {
			continue
		}
		if match(a, locKey(a, at)) {
			delete(st.heap, a)
		}
	}
	for _, k := range keys {
		st.epoch[k] = freshEpoch()
	}
}

// ---------------------------------------------------------------------------
// conditions
// ---------------------------------------------------------------------------

// nonNil reports that a value is certainly not nil.
func (e *Engine) nonNil(st *State, t *Term) bool {
	switch t.op {
	case OAlloc, OGlobal, OIface, OFunc, OStr, OInt:
		return true
	case OFA, OIA:
		return true
	case OApp:
		if strings.HasPrefix(t.aux.(string), "nonnil:") {
			return true
		}
	case OSlice:
		if t.args[0].op == ONil {
			return false
		}
		if t.args[0].op == OAlloc {
			return true
		}
		return st.zone.lt(intT(0), t.args[3])
	}
	v, ok := st.facts[eqT(t, nilT())]
	return ok && !v
}

// evalBool decides a boolean term if the state determines it.
func (e *Engine) evalBool(st *State, c *Term) (val, known bool) {
	switch c.op {
	case OBool:
		return c.aux.(bool), true
	case ONot:
		v, k := e.evalBool(st, c.args[0])
		return !v, k
	case OLe:
		if st.zone.le(c.args[0], c.args[1]) {
			return true, true
		}
		if st.zone.lt(c.args[1], c.args[0]) {
			return false, true
		}
	case OEq:
		a, b := c.args[0], c.args[1]
		if v, ok := st.facts[c]; ok {
			return v, true
		}
		if isIntTerm(a) && isIntTerm(b) {
			if st.zone.eq(a, b) {
				return true, true
			}
			if st.zone.lt(a, b) || st.zone.lt(b, a) {
				return false, true
			}
			return false, false
		}
		if a.op == ONil || b.op == ONil {
			x := a
			if a.op == ONil {
				x = b
			}
			if x.op == ONil {
				return true, true
			}
			if x.op == OSlice && x.args[0].op == ONil {
				return true, true
			}
			if e.nonNil(st, x) {
				return false, true
			}
			return false, false
		}
		if a.op == OStr && b.op == OStr {
			return a == b, true
		}
		if a.op == OAlloc && b.op == OAlloc {
			return a == b, true
		}
		if a.op == OIface && b.op == OIface {
			if !types.Identical(a.aux.(types.Type), b.aux.(types.Type)) {
				return false, true
			}
			return e.evalBool(st, e.eqTerm(st, a.args[0], b.args[0]))
		}
		if st.localAlloc(a) && a.op == OAlloc && b.op == OSym || st.localAlloc(b) && b.op == OAlloc && a.op == OSym {
			return false, true
		}
		// a string that already equals one constant differs from the others
		if a.op == OStr || b.op == OStr {
			k, x := a, b
			if b.op == OStr {
				k, x = b, a
			}
			for f, v := range st.facts {
				if v && f.op == OEq && (f.args[0] == x && f.args[1].op == OStr && f.args[1] != k ||
					f.args[1] == x && f.args[0].op == OStr && f.args[0] != k) {
					return false, true
				}
			}
			if st.zone.lt(e.lenOf(st, x), intT(int64(len(k.aux.(string))))) || st.zone.lt(intT(int64(len(k.aux.(string)))), e.lenOf(st, x)) {
				return false, true
			}
		}
	default:
		if v, ok := st.facts[c]; ok {
			return v, true
		}
	}
	return false, false
}

func isIntTerm(t *Term) bool {
	if t.op == OInt || t.op == OLin {
		return true
	}
	return t.op != ONil && t.op != OIface && isIntType(t.typ)
}

// eqTerm builds the equality of two values.
func (e *Engine) eqTerm(st *State, a, b *Term) *Term {
	if a == b {
		return boolT(true)
	}
	if a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
		res := boolT(true)
		for i := range a.args {
			c := e.eqTerm(st, a.args[i], b.args[i])
			v, k := e.evalBool(st, c)
			if k && !v {
				return boolT(false)
			}
			if !k {
				return eqT(a, b)
			}
		}
		return res
	}
	if a.op == OBool {
		a, b = b, a
	}
	if b.op == OBool {
		if b.aux.(bool) {
			return a
		}
		return notT(a)
	}
	if (a.op == OInt || a.op == OLin || b.op == OInt || b.op == OLin) && isIntTerm(a) && isIntTerm(b) {
		// normalise: constants to one side
		va, ca := split(a)
		vb, cb := split(b)
		if va == nil && vb == nil {
			return boolT(ca == cb)
		}
		if va == nil {
			va, ca, vb, cb = vb, cb, va, ca
		}
		if vb == nil {
			return eqT(va, intT(cb-ca))
		}
		if va == vb {
			return boolT(ca == cb)
		}
		if va.id > vb.id {
			va, ca, vb, cb = vb, cb, va, ca
		}
		return eqT(va, linT(vb, cb-ca))
	}
	return eqT(a, b)
}

// assume restricts the state to c == v; false if that is impossible.
func (e *Engine) assume(st *State, c *Term, v bool) bool {
	if c.op == ONot {
		return e.assume(st, c.args[0], !v)
	}
	if val, known := e.evalBool(st, c); known {
		return val == v
	}
	switch c.op {
	case OLe:
		if v {
			st.zone.assumeLe(c.args[0], c.args[1], 0)
		} else {
			st.zone.assumeLe(c.args[1], c.args[0], -1)
		}
		unwrapDiff(st, c.args[0])
		unwrapDiff(st, c.args[1])
		return !st.zone.bottom && e.recheckNe(st)
	case OEq:
		a, b := c.args[0], c.args[1]
		st.facts[c] = v
		if isIntTerm(a) && isIntTerm(b) {
			if v {
				st.zone.assumeLe(a, b, 0)
				st.zone.assumeLe(b, a, 0)
				for _, p := range [][2]*Term{{a, b}, {b, a}} {
					if x := powerTerm(st, p[0], p[1]); x != nil {
						narrowPower(st, x)
					}
				}
			} else {
				if st.zone.le(a, b) {
					st.zone.assumeLe(a, b, -1)
				} else if st.zone.le(b, a) {
					st.zone.assumeLe(b, a, -1)
				}
			}
			return !st.zone.bottom && e.recheckNe(st)
		}
		if isStringType2(a) || isStringType2(b) {
			if v {
				la, lb := e.lenOf(st, a), e.lenOf(st, b)
				st.zone.assumeLe(la, lb, 0)
				st.zone.assumeLe(lb, la, 0)
				return !st.zone.bottom
			}
			// x != "" means len(x) > 0
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if p[0].op == OStr && p[0].aux.(string) == "" {
					st.zone.assumeLe(intT(1), e.lenOf(st, p[1]), 0)
				}
			}
			return !st.zone.bottom
		}
		if v && (a.op == ONil || b.op == ONil) {
			x := a
			if a.op == ONil {
				x = b
			}
			if x.op == OSlice {
				st.zone.assumeLe(x.args[3], intT(0), 0)
				st.zone.assumeLe(x.args[2], intT(0), 0)
				return !st.zone.bottom
			}
		}
		return true
	case OBool:
		return c.aux.(bool) == v
	}
	st.facts[c] = v
	return true
}

// unwrapDiff: an unsigned x - k below what a wrapped difference can be means k <= x.
func unwrapDiff(st *State, t *Term) {
	if t.op != OApp || t.aux != "subwrap" {
		return
	}
	x := t.args[0]
	k, ok := t.args[1].isConstInt()
	_, max, small := typeRange(t.typ)
	if !ok || !small {
		return
	}
	_, hi, _, okHi := st.zone.rng(t)
	_, xhi, _, xok := st.zone.rng(x)
	if !okHi || !xok || xhi > max || hi > max-k {
		return
	}
	st.zone.assumeLe(intT(k), x, 0)
	st.zone.assumeLe(x, intT(k), hi)
}

func isStringType2(t *Term) bool {
	return t.op == OStr || t.typ != nil && isStringType(t.typ)
}

// recheckNe tightens bounds with the recorded disequalities.
func (e *Engine) recheckNe(st *State) bool {
	for f, v := range st.facts {
		if v || f.op != OEq || !isIntTerm(f.args[0]) || !isIntTerm(f.args[1]) {
			continue
		}
		a, b := f.args[0], f.args[1]
		if st.zone.bound(a, b) == 0 {
			st.zone.assumeLe(a, b, -1)
		}
		if st.zone.bound(b, a) == 0 {
			st.zone.assumeLe(b, a, -1)
		}
		if st.zone.bottom {
			return false
		}
	}
	return !st.zone.bottom
}

// maxLen: no slice or string is longer than the address space of the supported machines.
const maxLen = int64(1) << 48

// lenOf is the length of a slice or string value.
func (e *Engine) lenOf(st *State, t *Term) *Term {
	switch t.op {
	case OSlice:
		return t.args[2]
	case OStr:
		return intT(int64(len(t.aux.(string))))
	case ONil:
		return intT(0)
	case OApp:
		if t.aux == "substr" {
			if l, ok := subTerm(st, t.args[2], t.args[1]); ok {
				return l
			}
		}
		if t.aux == "bytes2str" {
			return t.args[1]
		}
	}
	l := appT(types.Typ[types.Int], "len", t)
	st.zone.assumeLe(intT(0), l, 0)
	st.zone.assumeLe(l, intT(maxLen), 0)
	return l
}

func subTerm(st *State, a, b *Term) (*Term, bool) {
	va, ca := split(a)
	vb, cb := split(b)
	if va == vb {
		return intT(ca - cb), true
	}
	if vb == nil {
		return linT(a, -cb), true
	}
	return nil, false
}
