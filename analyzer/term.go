package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the head symbol of a term.
type Op uint8

const (
	OInt    Op = iota // aux int64
	OStr              // aux string
	OBool             // aux bool
	OConst            // other constants, aux string
	ONil              // nil of any type
	OSym              // opaque value, aux uid
	OAlloc            // object created on the analysed path, aux uid
	OGlobal           // address of a package level variable, aux *ssa.Global
	OFA               // address of a field: args[0] base address, aux *types.Var
	OIA               // address of an element: args[0] backing store, args[1] index
	OSlice            // args: backing store, offset, len, cap
	OStruct           // struct value, aux types.Type
	OIface            // interface holding args[0], aux types.Type
	OFunc             // function value, aux *ssa.Function, args bindings
	OLin              // args[0] + aux int64
	ONot
	OLe // args[0] <= args[1]
	OEq // args[0] == args[1]
	OApp
	OTuple
)

// Term is a hash-consed abstract value.
type Term struct {
	id   int
	op   Op
	args []*Term
	aux  any
	typ  types.Type
}

type termTable struct {
	m      map[string]*Term
	auxIDs map[any]int
	n      int
	uid    int
}

func newTermTable() *termTable {
	return &termTable{m: map[string]*Term{}, auxIDs: map[any]int{}}
}

var tt = newTermTable()

func (t *termTable) auxKey(aux any) string {
	switch x := aux.(type) {
	case nil:
		return ""
	case int64:
		return "i" + strconv.FormatInt(x, 10)
	case int:
		return "u" + strconv.Itoa(x)
	case string:
		return "s" + x
	case bool:
		if x {
			return "T"
		}
		return "F"
	case types.Type:
		return "t" + typeString(x)
	}
	id, ok := t.auxIDs[aux]
	if !ok {
		id = len(t.auxIDs) + 1
		t.auxIDs[aux] = id
	}
	return "o" + strconv.Itoa(id)
}

func mk(op Op, typ types.Type, aux any, args ...*Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + op))
	b.WriteString(tt.auxKey(aux))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if x, ok := tt.m[k]; ok {
		return x
	}
	tt.n++
	x := &Term{id: tt.n, op: op, args: args, aux: aux, typ: typ}
	tt.m[k] = x
	return x
}

type symAux struct {
	uid  int
	name string
}

func freshSym(typ types.Type, name string) *Term {
	tt.uid++
	tt.n++
	return &Term{id: tt.n, op: OSym, typ: typ, aux: symAux{tt.uid, name}}
}

func freshAlloc(typ types.Type, name string) *Term {
	tt.uid++
	tt.n++
	return &Term{id: tt.n, op: OAlloc, typ: typ, aux: symAux{tt.uid, name}}
}

func intT(v int64) *Term                 { return mk(OInt, types.Typ[types.Int], v) }
func strT(s string) *Term                { return mk(OStr, types.Typ[types.String], s) }
func boolT(b bool) *Term                 { return mk(OBool, types.Typ[types.Bool], b) }
func nilT() *Term                        { return mk(ONil, types.Typ[types.UntypedNil], nil) }
func tupleT(args ...*Term) *Term         { return mk(OTuple, nil, nil, args...) }
func faT(base *Term, f *types.Var) *Term { return mk(OFA, types.NewPointer(f.Type()), f, base) }
func appT(typ types.Type, name string, args ...*Term) *Term {
	return mk(OApp, typ, name, args...)
}
func iaT(elem types.Type, base, idx *Term) *Term {
	return mk(OIA, types.NewPointer(elem), nil, base, idx)
}
func sliceT(typ types.Type, base, off, ln, cp *Term) *Term {
	return mk(OSlice, typ, nil, base, off, ln, cp)
}
func ifaceT(t types.Type, v *Term) *Term { return mk(OIface, t, t, v) }

// linT is t + c for an integer term.
func linT(t *Term, c int64) *Term {
	if t.op == OInt {
		return intT(t.aux.(int64) + c)
	}
	if t.op == OLin {
		c += t.aux.(int64)
		t = t.args[0]
	}
	if c == 0 {
		return t
	}
	return mk(OLin, t.typ, c, t)
}

// split returns the variable part (nil for a constant) and the constant part.
func split(t *Term) (*Term, int64) {
	switch t.op {
	case OInt:
		return nil, t.aux.(int64)
	case OLin:
		return t.args[0], t.aux.(int64)
	}
	return t, 0
}

func notT(t *Term) *Term {
	switch t.op {
	case OBool:
		return boolT(!t.aux.(bool))
	case ONot:
		return t.args[0]
	}
	return mk(ONot, t.typ, nil, t)
}

func eqT(a, b *Term) *Term {
	if a == b {
		return boolT(true)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, types.Typ[types.Bool], nil, a, b)
}

func (t *Term) isConstInt() (int64, bool) {
	if t.op == OInt {
		return t.aux.(int64), true
	}
	return 0, false
}

func (t *Term) isSym() bool { return t.op == OSym }

func (t *Term) String() string { return termString(t, 0) }

func termString(t *Term, d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 6 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, termString(a, d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case OInt:
		return strconv.FormatInt(t.aux.(int64), 10)
	case OStr:
		return strconv.Quote(t.aux.(string))
	case OBool, OConst:
		return fmt.Sprint(t.aux)
	case ONil:
		return "nil"
	case OSym:
		a := t.aux.(symAux)
		return fmt.Sprintf("%s#%d", a.name, a.uid)
	case OAlloc:
		a := t.aux.(symAux)
		return fmt.Sprintf("new(%s)#%d", a.name, a.uid)
	case OGlobal:
		return "&" + t.aux.(*ssa.Global).Name()
	case OFA:
		return "&" + termString(t.args[0], d+1) + "." + t.aux.(*types.Var).Name()
	case OIA:
		return "&" + termString(t.args[0], d+1) + "[" + termString(t.args[1], d+1) + "]"
	case OSlice:
		return "slice(" + args() + ")"
	case OStruct:
		return "struct{" + args() + "}"
	case OIface:
		return fmt.Sprintf("iface[%s](%s)", shortType(t.aux.(types.Type)), args())
	case OFunc:
		return "func " + t.aux.(*ssa.Function).Name() + "(" + args() + ")"
	case OLin:
		return fmt.Sprintf("%s%+d", termString(t.args[0], d+1), t.aux.(int64))
	case ONot:
		return "!(" + args() + ")"
	case OLe:
		return "(" + termString(t.args[0], d+1) + " <= " + termString(t.args[1], d+1) + ")"
	case OEq:
		return "(" + termString(t.args[0], d+1) + " == " + termString(t.args[1], d+1) + ")"
	case OApp:
		return t.aux.(string) + "(" + args() + ")"
	case OTuple:
		return "(" + args() + ")"
	}
	return "?"
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// termSyms collects the opaque leaves of t.
func termSyms(t *Term, seen map[*Term]bool, f func(*Term)) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OSym || t.op == OAlloc {
		f(t)
	}
	for _, a := range t.args {
		termSyms(a, seen, f)
	}
}

// ---------------------------------------------------------------------------
// Zone: difference constraints over integer terms, kept transitively closed.
// ---------------------------------------------------------------------------

const zinf = int64(1) << 62

// Zone holds constraints v_i - v_j <= m[i*cap+j]; variable 0 is the constant 0.
type Zone struct {
	idx    map[*Term]int
	vars   []*Term
	m      []int64
	cp     int
	shared bool
	bottom bool
}

func newZone() *Zone {
	z := &Zone{idx: map[*Term]int{}, cp: 8}
	z.vars = []*Term{nil}
	z.m = make([]int64, z.cp*z.cp)
	for i := range z.m {
		z.m[i] = zinf
	}
	z.m[0] = 0
	return z
}

func (z *Zone) clone() *Zone {
	z.shared = true
	c := *z
	return &c
}

func (z *Zone) own() {
	if !z.shared {
		return
	}
	idx := make(map[*Term]int, len(z.idx)+2)
	for k, v := range z.idx {
		idx[k] = v
	}
	z.idx = idx
	z.vars = append([]*Term(nil), z.vars...)
	z.m = append([]int64(nil), z.m...)
	z.shared = false
}

func (z *Zone) index(t *Term) int {
	if t == nil {
		return 0
	}
	if i, ok := z.idx[t]; ok {
		return i
	}
	z.own()
	i := len(z.vars)
	if i >= z.cp {
		ncp := z.cp * 2
		nm := make([]int64, ncp*ncp)
		for k := range nm {
			nm[k] = zinf
		}
		for a := 0; a < i; a++ {
			copy(nm[a*ncp:a*ncp+i], z.m[a*z.cp:a*z.cp+i])
		}
		z.m, z.cp = nm, ncp
	}
	z.vars = append(z.vars, t)
	z.idx[t] = i
	z.m[i*z.cp+i] = 0
	if lo, hi, ok := typeRange(t.typ); ok {
		z.addEdge(i, 0, hi)
		z.addEdge(0, i, -lo)
	}
	return i
}

// addEdge asserts v_a - v_b <= c.
func (z *Zone) addEdge(a, b int, c int64) {
	if z.bottom || c >= zinf || z.m[a*z.cp+b] <= c {
		return
	}
	if r := z.m[b*z.cp+a]; r < zinf && r+c < 0 {
		z.bottom = true
		return
	}
	z.own()
	n := len(z.vars)
	cp := z.cp
	for u := 0; u < n; u++ {
		ua := z.m[u*cp+a]
		if ua >= zinf {
			continue
		}
		base := ua + c
		for v := 0; v < n; v++ {
			bv := z.m[b*cp+v]
			if bv >= zinf {
				continue
			}
			if s := base + bv; s < z.m[u*cp+v] {
				z.m[u*cp+v] = s
			}
		}
	}
}

// assumeLe asserts a - b <= c over terms.
func (z *Zone) assumeLe(a, b *Term, c int64) {
	va, ca := split(a)
	vb, cb := split(b)
	c = c - ca + cb
	if va == vb {
		if c < 0 {
			z.bottom = true
		}
		return
	}
	i := z.index(va)
	j := z.index(vb)
	z.addEdge(i, j, c)
}

// bound is the least known c with a - b <= c (zinf if unknown).
func (z *Zone) bound(a, b *Term) int64 {
	va, ca := split(a)
	vb, cb := split(b)
	if va == vb {
		return ca - cb
	}
	i := z.index(va)
	j := z.index(vb)
	c := z.m[i*z.cp+j]
	if c >= zinf {
		return zinf
	}
	return c + ca - cb
}

func (z *Zone) le(a, b *Term) bool { return z.bound(a, b) <= 0 }
func (z *Zone) lt(a, b *Term) bool { return z.bound(a, b) <= -1 }
func (z *Zone) eq(a, b *Term) bool { return z.bound(a, b) <= 0 && z.bound(b, a) <= 0 }

func (z *Zone) rng(a *Term) (lo, hi int64, okLo, okHi bool) {
	zero := intT(0)
	h := z.bound(a, zero)
	l := z.bound(zero, a)
	if h < zinf {
		hi, okHi = h, true
	}
	if l < zinf {
		lo, okLo = -l, true
	}
	return
}

const maxI = int64(1)<<61 - 1

// typeRange gives the value range of an integer type, when it is a useful bound.
func typeRange(t types.Type) (lo, hi int64, ok bool) {
	if t == nil {
		return 0, 0, false
	}
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 1<<16 - 1, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 0, zinf, true
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, true
	}
	return 0, 0, false
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (z *Zone) at(i, j int) int64 { return z.m[i*z.cp+j] }

var typeStrings = map[types.Type]string{}

// typeString is types.TypeString, remembered.
func typeString(t types.Type) string {
	s, ok := typeStrings[t]
	if !ok {
		s = types.TypeString(t, nil)
		typeStrings[t] = s
	}
	return s
}
