package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// place is what is raced for: a field or package variable, the elements of the slices or maps of
// a class of fields, or the object behind an interface in a field.
type place struct {
	v    any    // *types.Var, *ssa.Global, or the representative of a class of elements
	kind string // "", "elements", "object"
}

type access struct {
	at     place
	write  bool
	atomic bool
	in     ssa.Instruction
	addr   ssa.Value // the address or the container
}

// accesses collects the memory accesses of the functions.
type accesses struct {
	t       *threads
	c       *Ctx
	up      map[any]any // union-find over slices, maps and the fields that hold them
	byFn    map[*ssa.Function][]access
	targets map[*types.Var]map[*types.Var]bool
	leakM   map[*ssa.Parameter]bool
}

func newAccesses(t *threads) *accesses {
	a := &accesses{t: t, c: t.c, up: map[any]any{}, byFn: map[*ssa.Function][]access{}, targets: map[*types.Var]map[*types.Var]bool{}, leakM: map[*ssa.Parameter]bool{}}
	for _, fn := range t.fns {
		a.unify(fn)
	}
	for _, fn := range t.fns {
		a.collect(fn)
	}
	return a
}

func isContainer(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

func (a *accesses) rep(x any) any {
	for {
		y, ok := a.up[x]
		if !ok {
			return x
		}
		x = y
	}
}

func (a *accesses) union(x, y any) {
	x, y = a.rep(x), a.rep(y)
	if x == y {
		return
	}
	// fields represent their class
	if _, f := x.(*types.Var); f {
		x, y = y, x
	}
	a.up[x] = y
}

// cell: the field or variable at an address.
func cellOf(addr ssa.Value) any {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return fieldVar(x)
	case *ssa.Global:
		return x
	case *ssa.Alloc:
		return x
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return cellOf(b)
		}
	}
	return nil
}

func (a *accesses) unify(fn *ssa.Function) {
	eachInstr(fn, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			if isContainer(x.Val.Type()) {
				if k := cellOf(x.Addr); k != nil {
					a.union(k, x.Val)
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && isContainer(x.Type()) {
				if k := cellOf(x.X); k != nil {
					a.union(k, ssa.Value(x))
				}
			}
		case *ssa.Field:
			if isContainer(x.Type()) {
				if s, ok := x.X.Type().Underlying().(*types.Struct); ok {
					a.union(s.Field(x.Field), ssa.Value(x))
				}
			}
		case *ssa.Phi:
			if isContainer(x.Type()) {
				for _, e := range x.Edges {
					if _, isC := e.(*ssa.Const); !isC {
						a.union(ssa.Value(x), e)
					}
				}
			}
		case *ssa.Slice:
			if isContainer(x.X.Type()) {
				a.union(ssa.Value(x), x.X)
			} else if fa, ok := x.X.(*ssa.FieldAddr); ok {
				a.union(ssa.Value(x), fieldVar(fa))
			}
		case *ssa.ChangeType:
			if isContainer(x.Type()) {
				a.union(ssa.Value(x), x.X)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				a.union(ssa.Value(x), x.Call.Args[0])
			}
		}
	})
	for _, e := range a.t.edges[fn] {
		if e.args == nil {
			continue
		}
		if cc := e.site.(ssa.CallInstruction).Common(); cc.IsInvoke() && streamMethod(cc.Method.Name()) {
			continue // does not keep what it is given
		}
		for i, p := range e.callee.Params {
			if i < len(e.args) && isContainer(p.Type()) {
				if _, isC := e.args[i].(*ssa.Const); !isC {
					a.union(ssa.Value(p), e.args[i])
				}
			}
		}
		call, ok := e.site.(*ssa.Call)
		if !ok {
			continue
		}
		eachInstr(e.callee, func(in ssa.Instruction) {
			r, ok := in.(*ssa.Return)
			if !ok {
				return
			}
			for i, v := range r.Results {
				if !isContainer(v.Type()) {
					continue
				}
				if _, isC := v.(*ssa.Const); isC {
					continue
				}
				if len(r.Results) == 1 {
					a.union(ssa.Value(call), v)
					continue
				}
				for _, ref := range *call.Referrers() {
					if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
						a.union(ssa.Value(ex), v)
					}
				}
			}
		})
	}
}

func isSyncType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func (a *accesses) add(fn *ssa.Function, x access) { a.byFn[fn] = append(a.byFn[fn], x) }

// memory records an access of a value of type typ at an address.
func (a *accesses) memory(fn *ssa.Function, in ssa.Instruction, addr ssa.Value, typ types.Type, write bool) {
	if isSyncType(typ) {
		return
	}
	if s, ok := typ.Underlying().(*types.Struct); ok {
		n, named := typ.(*types.Named)
		if named && n.Obj().Pkg() != nil && !a.c.p.repoPkgs[n.Obj().Pkg()] {
			if fa, ok := addr.(*ssa.FieldAddr); ok {
				a.add(fn, access{at: place{v: fieldVar(fa)}, write: write, in: in, addr: addr})
			}
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if isSyncType(f.Type()) {
				continue
			}
			if _, nested := f.Type().Underlying().(*types.Struct); nested {
				a.memory(fn, in, addr, f.Type(), write)
			}
			a.add(fn, access{at: place{v: f}, write: write, in: in, addr: addr})
		}
		return
	}
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		a.add(fn, access{at: place{v: fieldVar(x)}, write: write, in: in, addr: addr})
	case *ssa.Global:
		a.add(fn, access{at: place{v: x}, write: write, in: in, addr: addr})
	case *ssa.IndexAddr:
		if isContainer(x.X.Type()) {
			a.add(fn, access{at: place{a.rep(x.X), "elements"}, write: write, in: in, addr: x.X})
		} else if k := cellOf(x.X); k != nil {
			a.add(fn, access{at: place{a.rep(k), "elements"}, write: write, in: in, addr: x.X})
		}
	case *ssa.UnOp:
		g := fieldOf(x.X)
		if g == nil {
			return
		}
		ts, ok := a.targets[g]
		if !ok {
			ts, _ = pointerTargets(a.c, g)
			a.targets[g] = ts
		}
		for f := range ts {
			a.add(fn, access{at: place{v: f}, write: write, in: in, addr: x.X})
		}
	}
}

// interfaceField: the field an interface value was read from.
func interfaceField(v ssa.Value) *types.Var {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return fieldOf(x.X)
		}
	case *ssa.ChangeInterface:
		return interfaceField(x.X)
	case *ssa.TypeAssert:
		return interfaceField(x.X)
	}
	return nil
}

func streamMethod(n string) bool {
	return n == "Read" || n == "Write" || n == "Flush" || strings.HasPrefix(n, "Read") || strings.HasPrefix(n, "Write")
}

func isStream(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net" {
		return false // safe for concurrent use
	}
	for i := 0; i < it.NumMethods(); i++ {
		if streamMethod(it.Method(i).Name()) {
			return true
		}
	}
	return false
}

func (a *accesses) elems(fn *ssa.Function, in ssa.Instruction, v ssa.Value, write bool) {
	if !isContainer(v.Type()) {
		return
	}
	if _, isC := v.(*ssa.Const); isC {
		return
	}
	a.add(fn, access{at: place{a.rep(v), "elements"}, write: write, in: in, addr: v})
}

func (a *accesses) collect(fn *ssa.Function) {
	eachInstr(fn, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				a.memory(fn, in, x.X, x.Type(), false)
			}
		case *ssa.Store:
			a.memory(fn, in, x.Addr, x.Val.Type(), true)
		case *ssa.MapUpdate:
			a.elems(fn, in, x.Map, true)
		case *ssa.Lookup:
			a.elems(fn, in, x.X, false)
		case *ssa.Range:
			a.elems(fn, in, x.X, false)
		case ssa.CallInstruction:
			cc := x.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "append", "copy":
					a.elems(fn, in, cc.Args[0], true)
					a.elems(fn, in, cc.Args[1], false)
				case "delete", "clear":
					a.elems(fn, in, cc.Args[0], true)
				}
				return
			}
			name := commonName(cc)
			callee := cc.StaticCallee()
			inScope := callee != nil && a.t.inScope(callee)
			if cc.IsInvoke() {
				if f := interfaceField(cc.Value); f != nil && streamMethod(cc.Method.Name()) && isStream(f.Type()) {
					a.add(fn, access{at: place{f, "object"}, write: true, in: in, addr: cc.Value.(ssa.Instruction).(ssa.Value)})
				}
			}
			dyn := !cc.IsInvoke() && callee == nil
			for _, v := range cc.Args {
				if f := interfaceField(v); f != nil && isStream(f.Type()) {
					a.add(fn, access{at: place{f, "object"}, write: true, in: in, addr: v})
				}
				if isContainer(v.Type()) && !inScope && !(dyn && len(a.c.p.possibleCallees(x)) > 0) {
					reads := strings.HasSuffix(name, ".Write") || strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "log.") ||
						strings.HasPrefix(name, "strconv.Parse") || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "bytes.")
					a.elems(fn, in, v, !reads)
				}
				fa, ok := v.(*ssa.FieldAddr)
				if !ok {
					if g, isG := v.(*ssa.Global); isG && !isSyncType(g.Type()) && !inScope {
						a.add(fn, access{at: place{v: g}, write: true, atomic: strings.HasPrefix(name, "sync/atomic."), in: in, addr: v})
					}
					continue
				}
				el := derefType(fa.Type())
				if isSyncType(el) {
					continue
				}
				if _, isStruct := el.Underlying().(*types.Struct); isStruct && inScope {
					continue // its accesses are the callee's
				}
				if strings.HasPrefix(name, "sync/atomic.") {
					a.add(fn, access{at: place{v: fieldVar(fa)}, write: !strings.HasPrefix(name, "sync/atomic.Load"), atomic: true, in: in, addr: v})
					continue
				}
				a.add(fn, access{at: place{v: fieldVar(fa)}, write: true, in: in, addr: v})
			}
		}
	})
}

// root: what an address or a container is reached from; direct when no pointer is loaded on the way.
func (a *accesses) root(v ssa.Value) (r ssa.Value, direct bool) {
	direct = true
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v, direct
			}
			direct = false
			v = x.X
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				v = x.Call.Args[0]
				continue
			}
			return v, direct
		case *ssa.FreeVar:
			return v, direct
		default:
			return v, direct
		}
	}
}

// escapes lists where a fresh object may become known to others.
func (a *accesses) escapes(v ssa.Value) []ssa.Instruction {
	var res []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val == v {
					res = append(res, x)
				}
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface:
				walk(r.(ssa.Value))
			case *ssa.MakeClosure, *ssa.Send, *ssa.MapUpdate, *ssa.Go, *ssa.Defer:
				res = append(res, r)
			case *ssa.Call:
				if _, isB := x.Call.Value.(*ssa.Builtin); isB {
					continue
				}
				callee := x.Call.StaticCallee()
				if callee == nil || !a.t.inScope(callee) {
					if callee != nil && callee.Pkg != nil && strings.HasPrefix(callee.Pkg.Pkg.Path(), "sync") && !strings.HasSuffix(callee.Name(), "Put") && !strings.HasSuffix(callee.Name(), "Store") {
						continue
					}
					res = append(res, r)
					continue
				}
				for i, arg := range x.Call.Args {
					if arg == v && i < len(callee.Params) && a.leaks(callee.Params[i]) {
						res = append(res, r)
					}
				}
			}
		}
	}
	walk(v)
	return res
}

func (a *accesses) leaks(p *ssa.Parameter) bool {
	if v, ok := a.leakM[p]; ok {
		return v
	}
	a.leakM[p] = true
	r := len(a.escapes(p)) > 0
	a.leakM[p] = r
	return r
}

// private: the object was made in this function and nobody else knows it yet.
func (a *accesses) private(x access) bool {
	r, direct := a.root(x.addr)
	if fv, ok := r.(*ssa.FreeVar); ok && direct {
		if _, isCell := bindingOf(fv).(*ssa.Alloc); isCell {
			return true // a captured variable: see captured
		}
	}
	var from ssa.Instruction
	switch y := r.(type) {
	case *ssa.Alloc:
		from = y
	case *ssa.MakeSlice:
		from = y
	case *ssa.MakeMap:
		from = y
	default:
		return false
	}
	if !direct {
		return false
	}
	for _, e := range a.escapes(r) {
		if e == x.in {
			continue
		}
		if pathTo(e, x.in, from) {
			return false
		}
	}
	return true
}

// made is an access while a client is being made.
type made struct {
	access
	locks   lset
	param   int // the object is this parameter's, -1 when it is known
	unknown bool
	spawned map[*role]bool
	site    ssa.Instruction // the call in the function in question
}

// construction lists the accesses of a function that is called while a client is made, with the
// goroutines that may run already.
func (a *accesses) construction(fn *ssa.Function, memo map[*ssa.Function][]made) []made {
	if m, ok := memo[fn]; ok {
		return m
	}
	memo[fn] = nil
	var res []made
	place := func(m made, v ssa.Value, in ssa.Instruction) made {
		m.param, m.unknown = -1, false
		var from ssa.Instruction
		r, _ := a.root(v)
		switch y := r.(type) {
		case *ssa.Parameter:
			for i, p := range fn.Params {
				if p == y {
					m.param = i
				}
			}
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Call:
			from = y.(ssa.Instruction)
		case *ssa.Extract:
			from = y.Tuple.(ssa.Instruction)
		case *ssa.Const:
		case *ssa.Global:
			m.unknown = true
		default:
			m.unknown = true
		}
		sp := a.t.spawnedBetween(fn, from, in)
		for r := range m.spawned {
			sp[r] = true
		}
		m.spawned = sp
		return m
	}
	for _, x := range a.byFn[fn] {
		l := a.t.localAt(x.in)
		if l == nil {
			continue
		}
		res = append(res, place(made{access: x, locks: l}, x.addr, x.in))
	}
	for _, e := range a.t.edges[fn] {
		if e.isGo {
			continue
		}
		l := a.t.localAt(e.site)
		if l == nil {
			continue
		}
		site := e.site
		if e.deferred { // runs when the function returns
			eachInstr(fn, func(in ssa.Instruction) {
				if _, ok := in.(*ssa.RunDefers); ok {
					site = in
				}
			})
		}
		for _, m := range a.construction(e.callee, memo) {
			if m.param < 0 && !m.unknown {
				res = append(res, m)
				continue
			}
			m2 := m
			m2.locks = l.clone()
			for k, v := range a.t.subst(m.locks, e.args) {
				m2.locks[k] = v
			}
			if m.param >= 0 && e.args != nil && m.param < len(e.args) {
				res = append(res, place(m2, e.args[m.param], site))
				continue
			}
			m2.unknown = true
			sp := a.t.spawnedBetween(fn, nil, site)
			for r := range m.spawned {
				sp[r] = true
			}
			m2.spawned = sp
			res = append(res, m2)
		}
	}
	memo[fn] = res
	return res
}
