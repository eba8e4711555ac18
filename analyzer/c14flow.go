package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// typeFlow says which types of the repository an interface value may hold, and which ones a
// library object may have been given.
type typeFlow struct {
	t    *threads
	next map[any][]any
	has  map[any]map[flowType]bool
	work []any
}

type flowType struct {
	t       types.Type
	wrapped bool // known to a library object that calls its methods
}

func newTypeFlow(t *threads) *typeFlow {
	f := &typeFlow{t: t, next: map[any][]any{}, has: map[any]map[flowType]bool{}}
	for _, fn := range t.fns {
		f.function(fn)
	}
	for len(f.work) > 0 {
		n := f.work[len(f.work)-1]
		f.work = f.work[:len(f.work)-1]
		for _, m := range f.next[n] {
			for ft := range f.has[n] {
				f.seed(m, ft)
			}
		}
	}
	return f
}

type wrapEdge struct{ to ssa.Value }

func (f *typeFlow) seed(n any, ft flowType) {
	if w, ok := n.(wrapEdge); ok {
		n = w.to
		ft.wrapped = true
	}
	if f.has[n] == nil {
		f.has[n] = map[flowType]bool{}
	}
	if !f.has[n][ft] {
		f.has[n][ft] = true
		f.work = append(f.work, n)
	}
}

func (f *typeFlow) edge(a, b any) { f.next[a] = append(f.next[a], b) }

func carrier(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Pointer:
		return true
	case *types.Slice:
		return carrier(x.Elem())
	case *types.Struct, *types.Tuple:
		return true
	}
	return false
}

func (f *typeFlow) function(fn *ssa.Function) {
	c := f.t.c
	eachInstr(fn, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.MakeInterface:
			f.edge(x.X, ssa.Value(x))
			if n := namedOf(x.X.Type()); n != nil && n.Obj().Pkg() != nil && c.p.repoPkgs[n.Obj().Pkg()] {
				f.seed(ssa.Value(x), flowType{t: x.X.Type()})
			}
		case *ssa.ChangeInterface:
			f.edge(x.X, ssa.Value(x))
		case *ssa.ChangeType:
			f.edge(x.X, ssa.Value(x))
		case *ssa.TypeAssert:
			f.edge(x.X, ssa.Value(x))
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				f.edge(ssa.Value(ta), ssa.Value(x))
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				f.edge(e, ssa.Value(x))
			}
		case *ssa.Store:
			if k := cellOf(x.Addr); k != nil {
				f.edge(x.Val, k)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if k := cellOf(x.X); k != nil {
					f.edge(k, ssa.Value(x))
				}
			}
		case *ssa.Field:
			if s, ok := x.X.Type().Underlying().(*types.Struct); ok {
				f.edge(s.Field(x.Field), ssa.Value(x))
			}
		case ssa.CallInstruction:
			cc := x.Common()
			callees := []*ssa.Function{}
			if g := cc.StaticCallee(); g != nil {
				if f.t.inScope(g) {
					callees = append(callees, g)
				} else if v, ok := in.(ssa.Value); ok {
					for _, a := range cc.Args {
						if carrier(a.Type()) {
							f.edge(a, wrapEdge{v})
						}
					}
				}
			} else if !cc.IsInvoke() {
				callees = c.p.possibleCallees(x)
			} else {
				callees = c.p.possibleCallees(x)
			}
			off := 0
			if cc.IsInvoke() {
				off = 1
			}
			for _, g := range callees {
				for i, a := range cc.Args {
					if i+off < len(g.Params) && carrier(a.Type()) {
						f.edge(a, ssa.Value(g.Params[i+off]))
					}
				}
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				eachInstr(g, func(r ssa.Instruction) {
					ret, ok := r.(*ssa.Return)
					if !ok {
						return
					}
					for i, res := range ret.Results {
						if len(ret.Results) == 1 {
							f.edge(res, v)
							continue
						}
						if v.Referrers() == nil {
							continue
						}
						for _, ref := range *v.Referrers() {
							if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
								f.edge(res, ssa.Value(ex))
							}
						}
					}
				})
			}
		}
	})
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// callees of a method call through an interface.
func (f *typeFlow) callees(cc *ssa.CallCommon) []*ssa.Function {
	var res []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(t types.Type, name string, pkg *types.Package) {
		sel := f.t.c.p.ssa.MethodSets.MethodSet(t).Lookup(pkg, name)
		if sel == nil {
			return
		}
		if m := f.t.c.p.ssa.MethodValue(sel); m != nil && len(m.Blocks) > 0 && !seen[m] {
			seen[m] = true
			res = append(res, m)
		}
	}
	for ft := range f.has[cc.Value] {
		add(ft.t, cc.Method.Name(), cc.Method.Pkg())
		if ft.wrapped {
			ms := f.t.c.p.ssa.MethodSets.MethodSet(ft.t)
			for i := 0; i < ms.Len(); i++ {
				if o := ms.At(i).Obj(); o.Exported() && (streamMethod(o.Name()) || o.Name() == "Close") {
					add(ft.t, o.Name(), o.Pkg())
				}
			}
		}
	}
	return res
}
