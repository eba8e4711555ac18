package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var joinDebug = false

// joiner generalises a loop head state H by a back edge state B.
//
// Corresponding values are generalised structurally; two different leaves become one
// fresh symbol per pair, so equalities between locations that hold in both states are
// kept. Integer relations are joined in the zone domain, with widening.
type joiner struct {
	e       *Engine
	h       *headState
	H, B    *State
	pairs   map[[2]*Term]*Term
	first   map[*Term]*Term // owned H symbol -> B value it was reused for
	changed bool
	newOwn  map[*Term]bool
	ints    [][3]*Term // joined, in H, in B
	intSeen map[*Term]bool
	slices  []*Term
}

// selfOK: the value is the same in both states and no generalised symbol in it
// already stands for a different value of B.
func (j *joiner) selfOK(a *Term) bool {
	if len(j.h.owned) == 0 {
		return true
	}
	ok := true
	var own []*Term
	termSyms(a, map[*Term]bool{}, func(s *Term) {
		if j.h.owned[s] {
			if f := j.first[s]; f != nil && f != s {
				ok = false
			}
			own = append(own, s)
		}
	})
	if ok {
		for _, s := range own {
			j.first[s] = s
		}
	}
	return ok
}

func (j *joiner) mark(why string, a ...any) {
	if joinDebug && !j.changed {
		fmt.Printf("  join changed: "+why+"\n", a...)
	}
	j.changed = true
}

func (j *joiner) addInt(t, a, b *Term) {
	if !isIntTerm(t) || j.intSeen[t] {
		return
	}
	j.intSeen[t] = true
	j.ints = append(j.ints, [3]*Term{t, a, b})
}

// term generalises a (from H) and b (from B).
func (j *joiner) term(a, b *Term, typ types.Type) *Term {
	if a == nil || b == nil {
		return nil
	}
	if a == b && j.selfOK(a) {
		return a
	}
	if p, ok := j.pairs[[2]*Term{a, b}]; ok {
		return p
	}
	var r *Term
	structural := false
	switch a.op {
	case OSlice, OStruct, OTuple, OIface, OFA, OIA:
		structural = a.op == b.op && len(a.args) == len(b.args) && tt.auxKey(a.aux) == tt.auxKey(b.aux)
	case OFunc:
		structural = a.op == b.op && a.aux == b.aux && len(a.args) == len(b.args)
	}
	if structural {
		args := make([]*Term, len(a.args))
		for i := range args {
			args[i] = j.term(a.args[i], b.args[i], partType(a, i))
		}
		r = mk(a.op, a.typ, a.aux, args...)
		if a.op == OSlice {
			j.slices = append(j.slices, r)
		}
		j.pairs[[2]*Term{a, b}] = r
		return r
	}
	if a.op == OSlice || b.op == OSlice {
		// nil against slice value and the like cannot happen: slices are always structural
		_ = 0
	}
	if j.h.owned[a] && (j.first[a] == nil || j.first[a] == b) {
		j.first[a] = b
		r = a
	} else {
		if typ == nil || isIntTerm(a) && !isIntType(typ) {
			typ = a.typ
			if typ == nil || a.op == ONil {
				typ = b.typ
			}
			if isIntTerm(a) {
				typ = intTypeOf(a, b)
			}
		}
		r = freshSym(typ, "φ")
		j.newOwn[r] = true
		j.mark("value %s vs %s", a, b)
	}
	j.pairs[[2]*Term{a, b}] = r
	j.addInt(r, a, b)
	return r
}

// partType is the type of a component of a structured value, when it is known.
func partType(t *Term, i int) types.Type {
	switch t.op {
	case OSlice:
		if i > 0 {
			return types.Typ[types.Int]
		}
		if s, ok := t.typ.Underlying().(*types.Slice); ok {
			return types.NewPointer(s.Elem())
		}
	case OStruct:
		if s, ok := t.typ.Underlying().(*types.Struct); ok {
			return s.Field(i).Type()
		}
	case OIface:
		return t.aux.(types.Type)
	case OIA:
		if i == 1 {
			return types.Typ[types.Int]
		}
	}
	return nil
}

func intTypeOf(a, b *Term) types.Type {
	for _, t := range []*Term{a, b} {
		if t.op != OInt && t.typ != nil && isIntType(t.typ) {
			if t.op == OLin {
				return t.args[0].typ
			}
			return t.typ
		}
	}
	return types.Typ[types.Int]
}

// joinInto generalises h.st by b; it reports whether h.st changed.
func (e *Engine) joinInto(h *headState, b *State) bool {
	H := h.st
	j := &joiner{e: e, h: h, H: H, B: b, pairs: map[[2]*Term]*Term{}, first: map[*Term]*Term{}, newOwn: map[*Term]bool{}, intSeen: map[*Term]bool{}}
	C := H.clone()
	C.trace = H.trace

	// registers of the current frame: outside values are equal, header phis differ
	for _, v := range sortedVals(H.frame.env) {
		bt, ok := b.frame.env[v]
		if !ok {
			continue
		}
		C.frame.env[v] = j.term(H.frame.env[v], bt, regType(v))
	}
	for _, k := range sortedKeys(H.ghost) {
		bt, ok := b.ghost[k]
		if !ok {
			bt = nilT()
		}
		C.ghost[k] = j.term(H.ghost[k], bt, nil)
	}
	for k, bt := range b.ghost {
		if _, ok := H.ghost[k]; !ok {
			C.ghost[k] = j.term(nilT(), bt, nil)
		}
	}

	// heap: iterate because new address pairs appear while values are paired
	done := map[*Term]bool{}
	newHeap := map[*Term]*Term{}
	dirtyKeys := map[any]bool{}
	for again := true; again; {
		again = false
		for _, a := range sortedAddrs(H.heap) {
			if done[a] {
				continue
			}
			// counterparts of this address in B
			ba, ca, ok := j.addr(a)
			if !ok {
				continue
			}
			bv, ok := b.heap[ba]
			if !ok {
				continue
			}
			done[a] = true
			again = true
			newHeap[ca] = j.term(H.heap[a], bv, derefType(a.typ))
		}
		// addresses H has under another (generalised) base: h-side base differs from joined base
		for p, r := range j.pairs {
			if r == p[0] {
				continue
			}
			for _, a := range sortedAddrs(H.heap) {
				if len(a.args) == 0 || a.args[0] != p[0] || a.op != OFA {
					continue
				}
				ba := mk(a.op, a.typ, a.aux, p[1])
				ca := mk(a.op, a.typ, a.aux, r)
				if _, have := newHeap[ca]; have {
					continue
				}
				bv, ok := b.heap[ba]
				if !ok {
					continue
				}
				newHeap[ca] = j.term(H.heap[a], bv, derefType(a.typ))
				again = true
			}
		}
	}
	for a := range H.heap {
		at := derefType(a.typ)
		if at == nil {
			continue
		}
		if _, ok := newHeap[a]; !ok {
			if !done[a] {
				j.mark("location %s dropped", a)
			}
			dirtyKeys[locKey(a, at)] = true
			if len(dirtyKeys) > 0 {
				dirtyKeys[cellKey{typeString(at)}] = true
			}
		} else if newHeap[a] != H.heap[a] {
			dirtyKeys[locKey(a, at)] = true
		}
	}
	C.heap = newHeap
	for k, v := range b.epoch {
		if H.epoch[k] != v && !e.ownedEpoch(h, k, H.epoch[k]) {
			dirtyKeys[k] = true
		}
	}
	for k := range dirtyKeys {
		if e.ownedEpoch(h, k, H.epoch[k]) {
			continue
		}
		ep := freshEpoch()
		C.epoch[k] = ep
		e.ownEpoch(h, k, ep)
		j.mark("epoch of %v", k)
	}

	// escaped: union
	for a := range b.escaped {
		if !C.escaped[a] {
			C.escaped[a] = true
			if j.relevantAlloc(a, C) {
				j.mark("escape of %s", a)
			}
		}
	}

	// content and copies: keep only what is the same
	for s, c := range H.content {
		if bc, ok := b.content[s]; !ok || !sameToks(c, bc) {
			delete(C.content, s)
			j.mark("content of %s", s)
		}
	}
	if len(b.copies) != len(H.copies) {
		n := len(H.copies)
		if n > 0 && len(b.copies) < n {
			n = len(b.copies)
		}
		C.copies = H.copies[:n:n]
	}

	// facts
	for f, v := range H.facts {
		bf := j.substHB(f)
		keep := false
		if bf != nil {
			if bv, known := e.evalBool(b, bf); known && bv == v {
				keep = true
			}
		}
		if !keep {
			delete(C.facts, f)
			if j.factMatters(f, C) {
				j.mark("fact %s", f)
			}
		}
	}
	for p, r := range j.pairs {
		if j.newOwn[r] && !isIntTerm(r) && e.nonNil(H, p[0]) && e.nonNil(b, p[1]) {
			C.facts[eqT(r, nilT())] = false
		}
	}

	j.joinZone(C)

	for t := range j.newOwn {
		h.owned[t] = true
	}
	if j.changed {
		h.st = C
	}
	return j.changed
}

func (j *joiner) relevantAlloc(a *Term, C *State) bool {
	for adr := range j.H.heap {
		if j.H.rootAlloc(adr) == a {
			return true
		}
	}
	return false
}

func (j *joiner) factMatters(f *Term, C *State) bool { return true }

type epochOwn struct {
	key any
	ep  int
}

func (e *Engine) ownedEpoch(h *headState, k any, ep int) bool {
	return h.epochs[epochOwn{k, ep}]
}

func (e *Engine) ownEpoch(h *headState, k any, ep int) {
	if h.epochs == nil {
		h.epochs = map[epochOwn]bool{}
	}
	h.epochs[epochOwn{k, ep}] = true
}

// addr maps an address of H to the address in B and in the joined state.
func (j *joiner) addr(a *Term) (inB, inC *Term, ok bool) {
	switch a.op {
	case OFA, OIA, OApp:
		ba := make([]*Term, len(a.args))
		ca := make([]*Term, len(a.args))
		for i, x := range a.args {
			b, c, ok := j.addr(x)
			if !ok {
				return nil, nil, false
			}
			ba[i], ca[i] = b, c
		}
		return mk(a.op, a.typ, a.aux, ba...), mk(a.op, a.typ, a.aux, ca...), true
	case OLin:
		b, c, ok := j.addr(a.args[0])
		if !ok {
			return nil, nil, false
		}
		k := a.aux.(int64)
		return linT(b, k), linT(c, k), true
	}
	if j.h.owned[a] {
		b := j.first[a]
		if b == nil {
			return nil, nil, false // not (yet) known
		}
		return b, a, true
	}
	return a, a, true
}

// substHB rewrites a term of H into B's values.
func (j *joiner) substHB(t *Term) *Term {
	if len(t.args) == 0 {
		if j.h.owned[t] {
			if b := j.first[t]; b != nil {
				return b
			}
		}
		return t
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = j.substHB(a)
		if args[i] != a {
			same = false
		}
	}
	if same {
		return t
	}
	switch t.op {
	case OEq:
		return j.e.eqTerm(j.B, args[0], args[1])
	case OLin:
		return linT(args[0], t.aux.(int64))
	case OLe:
		return leT(args[0], args[1])
	case ONot:
		return notT(args[0])
	}
	return mk(t.op, t.typ, t.aux, args...)
}

func (j *joiner) joinZone(C *State) {
	// variables: joined integers plus those of H that mean the same in B
	e := j.e
	type row struct{ c, h, b *Term }
	rows := []row{{nil, nil, nil}}
	have := map[*Term]bool{}
	for _, x := range j.ints {
		if x[0].op == OInt || x[0].op == OLin {
			continue
		}
		have[x[0]] = true
		rows = append(rows, row{x[0], x[1], x[2]})
	}
	live := liveInts(C)
	for _, v := range j.H.zone.vars[1:] {
		if have[v] || !live[v] {
			continue
		}
		have[v] = true
		rows = append(rows, row{v, v, j.substHB(v)})
	}
	z := newZone()
	for _, r := range rows[1:] {
		z.index(r.c)
	}
	// what holds for every slice
	for _, s := range j.slices {
		z.assumeLe(intT(0), s.args[1], 0)
		z.assumeLe(intT(0), s.args[2], 0)
		z.assumeLe(s.args[2], s.args[3], 0)
	}
	get := func(s *State, a, b *Term) int64 {
		if a == nil {
			a = intT(0)
		}
		if b == nil {
			b = intT(0)
		}
		return s.zone.bound(a, b)
	}
	widenAt, constAt, least := 3, 6, int64(0)
	if e.Quick {
		widenAt, constAt, least = 1, 1, 1<<30
	}
	widen := j.h.iter >= widenAt
	for i := range rows {
		for k := range rows {
			if i == k {
				continue
			}
			ch := get(j.H, rows[i].h, rows[k].h)
			if ch >= zinf {
				continue
			}
			cb := get(j.B, rows[i].b, rows[k].b)
			if cb <= ch {
				z.addEdge(z.index(rows[i].c), z.index(rows[k].c), ch)
				continue
			}
			// weaker in B
			if x, y := z.index(rows[i].c), z.index(rows[k].c); z.at(x, y) <= ch {
				continue
			}
			j.mark("bound %v - %v: %d vs %d", rows[i].c, rows[k].c, ch, cb)
			if cb >= zinf {
				continue
			}
			if !widen {
				z.addEdge(z.index(rows[i].c), z.index(rows[k].c), cb)
			} else if j.h.iter < constAt && (rows[k].c == nil || rows[i].c == nil) {
				// one more chance for constant bounds reached through a comparison
				z.addEdge(z.index(rows[i].c), z.index(rows[k].c), cb)
			} else if rows[k].c == nil {
				// upper bounds stay at the next constant the program compares with
				for _, t := range e.prog.thresholdList() {
					if cb <= t && t >= least {
						z.addEdge(z.index(rows[i].c), z.index(rows[k].c), t)
						break
					}
				}
			}
		}
	}
	C.zone = z
}

// liveInts collects the integer terms a state can still refer to.
func liveInts(s *State) map[*Term]bool {
	live := map[*Term]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if isIntTerm(t) {
			live[t] = true
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for f := s.frame; f != nil; f = f.parent {
		for _, t := range f.env {
			visit(t)
		}
		for _, t := range f.bindings {
			visit(t)
		}
		for _, d := range f.defers {
			for _, t := range d.args {
				visit(t)
			}
		}
	}
	for a, v := range s.heap {
		visit(a)
		visit(v)
	}
	for _, t := range s.ghost {
		visit(t)
	}
	for f := range s.facts {
		visit(f)
	}
	// length terms of live values
	for _, v := range s.zone.vars[1:] {
		if v.op == OApp && len(v.args) > 0 {
			all := true
			for _, a := range v.args {
				if !seen[a] && a.op != OInt && a.op != OStr {
					all = false
				}
			}
			if all {
				live[v] = true
			}
		}
	}
	return live
}

func sameToks(a, b []Tok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sortedAddrs(m map[*Term]*Term) []*Term {
	ks := make([]*Term, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortTerms(ks)
	return ks
}

func sortedVals(m map[ssa.Value]*Term) []ssa.Value {
	ks := make([]ssa.Value, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortValues(ks)
	return ks
}

func regType(v ssa.Value) types.Type {
	if _, ok := v.(*ssa.Range); ok {
		return nil
	}
	if _, ok := v.Type().(*types.Tuple); ok {
		return nil
	}
	return v.Type()
}
