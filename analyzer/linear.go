package main

import "go/types"

// linear adds k times a term to a linear combination over its atoms.
func linear(t *Term, k int64, m map[*Term]int64) (c int64) {
	switch {
	case t.op == OInt:
		return k * t.aux.(int64)
	case t.op == OLin:
		return k*t.aux.(int64) + linear(t.args[0], k, m)
	case t.op == OApp && t.aux == "add":
		return linear(t.args[0], k, m) + linear(t.args[1], k, m)
	case t.op == OApp && t.aux == "sub":
		return linear(t.args[0], k, m) + linear(t.args[1], -k, m)
	}
	if t.op == OApp && t.aux == "len" && t.args[0].op == OApp && t.args[0].aux == "concat" {
		c := int64(0)
		for _, a := range t.args[0].args {
			if a.op == OStr {
				c += k * int64(len(a.aux.(string)))
			} else {
				c += linear(appT(types.Typ[types.Int], "len", a), k, m)
			}
		}
		return c
	}
	m[t] += k
	return 0
}

// sumEq: the sum of a is shown to equal the sum of b.
func (e *Engine) sumEq(st *State, a, b []*Term) bool { return e.sumLe(st, a, b) && e.sumLe(st, b, a) }

// sumLe: the sum of a is shown to be at most the sum of b.
func (e *Engine) sumLe(st *State, a, b []*Term) bool {
	m := map[*Term]int64{}
	c := int64(0)
	for _, t := range a {
		c += linear(t, 1, m)
	}
	for _, t := range b {
		c += linear(t, -1, m)
	}
	return e.linLe(st, m, c, 2)
}

// linLe: the linear combination plus c is at most zero. An atom is also replaced by a sum or
// difference it is known to be bounded by.
func (e *Engine) linLe(st *State, m map[*Term]int64, c int64, depth int) bool {
	var pos, neg []*Term
	for t, k := range m {
		for ; k > 0 && len(pos) < 8; k-- {
			pos = append(pos, t)
		}
		for ; k < 0 && len(neg) < 8; k++ {
			neg = append(neg, t)
		}
	}
	sortTerms(pos)
	sortTerms(neg)
	if matchLe(st, pos, neg, c) {
		return true
	}
	if depth == 0 {
		return false
	}
	size := func(m map[*Term]int64) (n int64) {
		for _, k := range m {
			if k < 0 {
				k = -k
			}
			n += k
		}
		return
	}
	compound := func(t *Term) bool { return t != nil && t.op == OApp && (t.aux == "add" || t.aux == "sub") }
	// only what cancels an atom of the combination makes it smaller
	n := len(st.zone.vars)
	comp, plus, minus := make([]bool, n), make([]bool, n), make([]bool, n)
	for i, t := range st.zone.vars {
		comp[i] = compound(t)
		if t == nil {
			continue
		}
		l := map[*Term]int64{}
		linear(t, 1, l)
		for x, k := range l {
			plus[i] = plus[i] || k*m[x] > 0
			minus[i] = minus[i] || k*m[x] < 0
		}
	}
	for i, t := range st.zone.vars {
		for j, u := range st.zone.vars {
			if t == u || !comp[i] && !comp[j] || !plus[i] && !minus[j] {
				continue
			}
			d := st.zone.bound(orZero(t), orZero(u))
			if d >= zinf {
				continue
			}
			// t - u - d <= 0 is taken out of the combination
			m2 := map[*Term]int64{}
			for x, n := range m {
				m2[x] = n
			}
			c2 := c + d
			if t != nil {
				c2 += linear(t, -1, m2)
			}
			if u != nil {
				c2 += linear(u, 1, m2)
			}
			for x, k := range m2 {
				if k == 0 {
					delete(m2, x)
				}
			}
			if size(m2) < size(m) && e.linLe(st, m2, c2, depth-1) {
				return true
			}
		}
	}
	return false
}

// matchLe: sum(pos) - sum(neg) + c <= 0, by pairing the terms.
func matchLe(st *State, pos, neg []*Term, c int64) bool {
	z := intT(0)
	if len(pos) == 0 && len(neg) == 0 {
		return c <= 0
	}
	if len(pos) > 0 {
		for i := -1; i < len(neg); i++ {
			o := z
			if i >= 0 {
				o = neg[i]
			}
			d := st.zone.bound(pos[0], o)
			if d >= zinf {
				continue
			}
			rest := append([]*Term(nil), neg...)
			if i >= 0 {
				rest = append(rest[:i], rest[i+1:]...)
			}
			if matchLe(st, pos[1:], rest, c+d) {
				return true
			}
		}
		return false
	}
	d := st.zone.bound(z, neg[0])
	return d < zinf && matchLe(st, nil, neg[1:], c+d)
}

func orZero(t *Term) *Term {
	if t == nil {
		return intT(0)
	}
	return t
}
