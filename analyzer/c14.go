package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:  "C14",
		min: 40,
		rule: "Who runs what is computed from the go statements: every function belongs to the goroutines that reach it (the user's, and one per go statement), functions reached only while a client is made run before the goroutines they start. The locks certainly held at every instruction are computed by dataflow over all call sites. " +
			"Every field, package variable and slice element that more than one of these goroutines can reach must be written only before it is known to others, or used by one goroutine per object, or atomic, or have one lock that is held at every access (for writing at every write); variables captured by a goroutine are not shared with a writer. " +
			"Batches are handed over: on all interpreted paths of the pipeline, of the sending job and of the receiving job, the fields of a batch touched by two parties at the same time are only read.",
		not: "locks are identified by the field that holds them, not by object; bytes inside slices handed to callers",
		run: runC14,
	})
}

type raceCtx struct {
	c       *Ctx
	t       *threads
	a       *accesses
	shared  map[*types.Named]bool
	handed  map[*types.Named]bool
	owner   map[*types.Var]*types.Named
	classes map[any][]*types.Var // fields of a class of elements
}

func (r *raceCtx) inRepoType(n *types.Named) bool {
	return n.Obj().Pkg() != nil && r.c.p.repoPkgs[n.Obj().Pkg()] && !strings.HasSuffix(n.Obj().Pkg().Path(), "/stats")
}

// share adds a type and what is reached from it.
func (r *raceCtx) share(t types.Type) {
	switch x := t.(type) {
	case *types.Named:
		if !r.inRepoType(x) || r.shared[x] {
			if _, isI := x.Underlying().(*types.Interface); isI && !r.inRepoType(x) {
				r.implementors(x.Underlying().(*types.Interface))
			}
			return
		}
		if it, ok := x.Underlying().(*types.Interface); ok {
			r.implementors(it)
			return
		}
		r.shared[x] = true
		for _, f := range structFields(x) {
			r.share(f.Type())
		}
		if structFields(x) == nil {
			r.share(x.Underlying())
		}
	case *types.Pointer:
		r.share(x.Elem())
	case *types.Slice:
		r.share(x.Elem())
	case *types.Array:
		r.share(x.Elem())
	case *types.Map:
		r.share(x.Key())
		r.share(x.Elem())
	case *types.Chan:
		r.share(x.Elem())
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			r.share(x.Field(i).Type())
		}
	case *types.Interface:
		r.implementors(x)
	case *types.Alias:
		r.share(types.Unalias(x))
	}
}

func (r *raceCtx) implementors(it *types.Interface) {
	if it.NumMethods() == 0 || it.NumMethods() == 1 && it.Method(0).Name() == "Error" {
		return
	}
	for _, n := range []string{"netconn", "memcache"} {
		sc := r.c.p.spkgs[n].Pkg.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && types.Implements(types.NewPointer(nt), it) {
				r.share(nt)
			}
		}
	}
}

func runC14(c *Ctx) {
	clientT := c.p.typ("memcache", "Client")
	cmdT, binT := c.p.typ("memcache", "commandListData"), c.p.typ("memcache", "requestBinaryEntry")
	if clientT == nil || cmdT == nil {
		c.obFn("anchor", nil, false, "the types Client and commandListData are not both found (undecided)")
		return
	}
	isMaker := func(fn *ssa.Function) bool {
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if namedOf(rs.At(i).Type()) == clientT {
				return true
			}
		}
		return false
	}
	t := newThreads(c, isMaker)
	r := &raceCtx{c: c, t: t, a: newAccesses(t), shared: map[*types.Named]bool{}, handed: map[*types.Named]bool{cmdT: true}, owner: map[*types.Var]*types.Named{}, classes: map[any][]*types.Var{}}
	if binT != nil {
		r.handed[binT] = true
	}
	r.share(clientT)
	for _, ro := range t.roles {
		if ro.site == nil {
			continue
		}
		for _, fn := range ro.fns {
			for _, p := range fn.Params {
				r.share(p.Type())
			}
			for _, v := range fn.FreeVars {
				r.share(v.Type())
			}
		}
		for fn := range ro.in {
			if fn.Parent() != nil && !ro.in[fn.Parent()] {
				for _, v := range fn.FreeVars {
					r.share(v.Type())
				}
			}
		}
	}
	for _, sp := range []string{"memcache", "netconn"} {
		for _, m := range c.p.spkgs[sp].Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" {
				r.share(g.Type())
			}
		}
	}
	r.fields()
	r.captured()
	r.handOver()
	var names []string
	for n := range r.shared {
		names = append(names, n.Obj().Name())
	}
	sort.Strings(names)
	c.summary["shared_types"] = names
	var rn []string
	for _, ro := range t.roles {
		rn = append(rn, fmt.Sprintf("%s: %d functions", ro.name, len(ro.in)))
	}
	c.summary["goroutines"] = rn
	var cn []string
	for f := range t.con {
		cn = append(cn, short(f.String()))
	}
	sort.Strings(cn)
	c.summary["construction_only"] = cn
	for _, f := range t.fns {
		c.funcs[f.String()] = true
	}
	if len(t.roles) < 4 {
		c.obFn("goroutines", nil, false, "only %d kinds of goroutines found (undecided)", len(t.roles))
	}
}

// use is an access with who does it and with which locks.
type use struct {
	access
	locks lset
	roles []*role
	con   map[*role]bool // while a client is made: the goroutines that run already
}

func (r *raceCtx) nameOf(p place) string {
	s := ""
	switch v := p.v.(type) {
	case *types.Var:
		s = classString(r.c, v)
	case *ssa.Global:
		s = v.Name()
	default:
		s = fmt.Sprint(v)
	}
	switch p.kind {
	case "elements":
		var ns []string
		for _, f := range r.classes[p.v] {
			ns = append(ns, classString(r.c, f))
		}
		if len(ns) > 0 {
			s = strings.Join(ns, " / ")
		}
		return "the elements of " + s
	case "object":
		return "the object in " + s
	}
	return s
}

func (r *raceCtx) fields() {
	c := r.c
	for n := range r.shared {
		for _, f := range structFields(n) {
			r.owner[f] = n
		}
	}
	for _, f := range c.p.fields {
		if r.owner[f] != nil && isContainer(f.Type()) {
			k := r.a.rep(f)
			r.classes[k] = append(r.classes[k], f)
		}
	}
	// which places are shared
	globals := map[any]bool{}
	for _, sp := range []string{"memcache", "netconn"} {
		for _, m := range c.p.spkgs[sp].Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" && isContainer(derefType(g.Type())) {
				globals[r.a.rep(g)] = true
			}
		}
	}
	relevant := func(p place) bool {
		if p.kind == "elements" {
			fs := r.classes[p.v]
			if len(fs) == 0 {
				return globals[p.v]
			}
			for _, f := range fs {
				if r.handed[r.owner[f]] {
					return false
				}
			}
			return true
		}
		switch v := p.v.(type) {
		case *types.Var:
			n := r.owner[v]
			return n != nil && !r.handed[n]
		case *ssa.Global:
			return v.Name() != "init$guard"
		}
		return false
	}
	uses := map[place][]use{}
	inits := map[*ssa.Function]bool{}
	for _, n := range []string{"netconn", "memcache"} {
		if f := c.p.spkgs[n].Func("init"); f != nil {
			for g := range r.t.reach([]*ssa.Function{f}, false, nil) {
				inits[g] = true
			}
		}
	}
	total := 0
	for _, fn := range r.t.fns {
		roles := r.t.rolesOf(fn)
		if len(roles) == 0 {
			continue
		}
		for _, x := range r.a.byFn[fn] {
			if !relevant(x.at) || r.a.private(x) {
				continue
			}
			l := r.t.held[x.in]
			if l == nil {
				continue
			}
			total++
			uses[x.at] = append(uses[x.at], use{access: x, locks: l, roles: roles})
		}
	}
	memo := map[*ssa.Function][]made{}
	for _, m := range r.t.makers {
		for _, x := range r.a.construction(m, memo) {
			if !relevant(x.at) || len(x.spawned) == 0 {
				continue
			}
			total++
			uses[x.at] = append(uses[x.at], use{access: x.access, locks: x.locks, con: x.spawned})
		}
	}
	c.summary["accesses_to_shared_places"] = total
	var ps []place
	for p := range uses {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, k int) bool { return r.nameOf(ps[i]) < r.nameOf(ps[k]) })
	kinds := map[string]string{}
	for _, p := range ps {
		us := uses[p]
		bad, why := r.conflict(p, us)
		kinds[r.nameOf(p)] = why
		if bad == nil {
			c.ob("race-free", us[0].in, true, "%s: %s", r.nameOf(p), why)
			continue
		}
		for _, b := range bad {
			c.ob("race-free", b[0].in, false, "%s is %s by %s (locks held: %s) while it may be %s by %s at %s (locks held: %s)", r.nameOf(p), rw(b[0]), r.who(b[0]), r.lockNames(b[0].locks), rw(b[1]), r.who(b[1]), c.p.pos(b[1].in), r.lockNames(b[1].locks))
		}
	}
	c.summary["places"] = kinds
}

func rw(u use) string {
	if u.write {
		return "written"
	}
	return "read"
}

func (r *raceCtx) who(u use) string {
	if u.con != nil {
		return "the goroutine that makes the client, after starting " + roleNames(u.con)
	}
	m := map[*role]bool{}
	for _, x := range u.roles {
		m[x] = true
	}
	return roleNames(m)
}

func (r *raceCtx) lockNames(l lset) string {
	var ns []string
	for k := range l {
		if _, p := k.(paramKey); p {
			continue
		}
		ns = append(ns, classString(r.c, k))
	}
	if len(ns) == 0 {
		return "none"
	}
	sort.Strings(ns)
	return strings.Join(ns, ", ")
}

// conflict finds pairs of accesses that may happen at the same time.
func (r *raceCtx) conflict(p place, us []use) (bad [][2]use, why string) {
	written := false
	for _, u := range us {
		written = written || u.write
	}
	if !written {
		return nil, "not written after it is known to others"
	}
	var owners []*types.Named
	if p.kind == "elements" {
		for _, f := range r.classes[p.v] {
			owners = append(owners, r.owner[f])
		}
	} else if v, ok := p.v.(*types.Var); ok {
		owners = append(owners, r.owner[v])
	}
	uniq := map[*role]bool{}
	single := func(ro *role) bool {
		v, ok := uniq[ro]
		if !ok {
			v = len(owners) > 0
			for _, n := range owners {
				v = v && r.t.unique(ro, n)
			}
			uniq[ro] = v
		}
		return v
	}
	locks, atomics, ones := 0, 0, 0
	for i, a := range us {
		for k := i; k < len(us); k++ {
			b := us[k]
			if !a.write && !b.write {
				continue
			}
			if a.atomic && b.atomic {
				atomics++
				continue
			}
			conc := false
			switch {
			case a.con != nil && b.con != nil:
			case a.con != nil:
				for _, x := range b.roles {
					conc = conc || a.con[x]
				}
			case b.con != nil:
				for _, x := range a.roles {
					conc = conc || b.con[x]
				}
			default:
				for _, x := range a.roles {
					for _, y := range b.roles {
						if x != y || !single(x) {
							conc = true
						}
					}
				}
			}
			if !conc {
				ones++
				continue
			}
			common := false
			for l, m := range a.locks {
				if _, isP := l.(paramKey); isP {
					continue
				}
				n, ok := b.locks[l]
				if ok && (m == 2 || !a.write) && (n == 2 || !b.write) && (m == 2 || n == 2) {
					common = true
				}
			}
			if common {
				locks++
				continue
			}
			x, y := a, b
			if !x.write {
				x, y = b, a
			}
			if len(bad) < 3 {
				bad = append(bad, [2]use{x, y})
			}
		}
	}
	switch {
	case locks > 0:
		why = "under one lock"
	case atomics > 0:
		why = "atomic"
	default:
		why = "one goroutine per object"
	}
	return
}

// captured checks the variables a goroutine shares with the function that starts it.
func (r *raceCtx) captured() {
	c := r.c
	for _, fn := range r.t.fns {
		eachInstr(fn, func(in ssa.Instruction) {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok {
				return
			}
			clo := mc.Fn.(*ssa.Function)
			if clo.Synthetic != "" {
				return
			}
			var goSites []ssa.Instruction
			for _, ref := range *mc.Referrers() {
				if g, ok := ref.(*ssa.Go); ok {
					goSites = append(goSites, g)
				}
			}
			viaLib := false
			for _, e := range r.t.edges[fn] {
				if e.callee == clo && e.isGo && len(goSites) == 0 {
					goSites = append(goSites, e.site)
					viaLib = true
				}
			}
			_ = viaLib
			if len(goSites) == 0 {
				r.storedClosure(clo)
				return
			}
			for i, b := range mc.Bindings {
				cell, ok := b.(*ssa.Alloc)
				if !ok || i >= len(clo.FreeVars) {
					continue
				}
				if isSyncType(derefType(cell.Type())) {
					continue
				}
				inside := cellUses(clo.FreeVars[i])
				var outside []cellUse
				for _, u := range cellUses(cell) {
					if u.fn == clo || u.in == ssa.Instruction(mc) {
						continue
					}
					if u.fn != fn { // another closure
						outside = append(outside, u)
						continue
					}
					for _, g := range goSites {
						if pathTo(g, u.in, cell) {
							outside = append(outside, u)
							break
						}
					}
				}
				again := false
				for _, g := range goSites {
					again = again || pathTo(g, g, cell)
				}
				bad := ""
				for _, x := range inside {
					for _, y := range outside {
						if (x.write || y.write) && !r.commonLock(x.in, y.in) {
							bad = fmt.Sprintf("also used at %s", c.p.pos(y.in))
						}
					}
					if again && x.write && !r.commonLock(x.in, x.in) {
						bad = "written by every goroutine started here"
					}
				}
				c.ob("captured", goSites[0], bad == "", "the variable %s of the goroutine is not shared with a writer%s", cell.Comment, sep(bad))
			}
		})
	}
}

func sep(s string) string {
	if s == "" {
		return ""
	}
	return ": " + s
}

func (r *raceCtx) commonLock(a, b ssa.Instruction) bool {
	get := func(in ssa.Instruction) lset {
		if l := r.t.held[in]; l != nil {
			return l
		}
		return r.t.localAt(in)
	}
	for k, m := range get(a) {
		if n, ok := get(b)[k]; ok && m == 2 && n == 2 {
			if _, isP := k.(paramKey); !isP {
				return true
			}
		}
	}
	return false
}

// storedClosure: a function value that background goroutines call, or that is stored away, must
// not write what it captured.
func (r *raceCtx) storedClosure(clo *ssa.Function) {
	background := false
	for _, ro := range r.t.rolesOf(clo) {
		background = background || ro.site != nil
	}
	stored := false
	if clo.Parent() != nil {
		eachInstr(clo.Parent(), func(in ssa.Instruction) {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(clo) {
				for _, ref := range *mc.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Val == ssa.Value(mc) {
						if _, isA := s.Addr.(*ssa.Alloc); !isA {
							stored = true
						}
					}
				}
			}
		})
	}
	if !background && !stored || r.t.con[clo] {
		return
	}
	called := onlyCalled(r.c, clo)
	if called {
		return // runs within the function that makes it
	}
	for _, v := range clo.FreeVars {
		if isSyncType(derefType(v.Type())) {
			continue
		}
		us := cellUses(v)
		bad := ""
		for _, u := range us {
			if u.write && len(r.t.localAt(u.in)) == 0 {
				bad = fmt.Sprintf("written at %s without a lock", r.c.p.pos(u.in))
			}
		}
		if len(us) > 0 {
			r.c.obFn("captured", clo, bad == "", "the variable %s of a function value that several goroutines call is not written%s", v.Name(), sep(bad))
		}
	}
}

type cellUse struct {
	in    ssa.Instruction
	fn    *ssa.Function
	write bool
}

// cellUses: the loads and stores of a captured variable, in closures too.
func cellUses(v ssa.Value) []cellUse {
	var res []cellUse
	if _, ok := v.Type().Underlying().(*types.Pointer); !ok || v.Referrers() == nil {
		return nil
	}
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.UnOp:
			res = append(res, cellUse{x, x.Parent(), false})
		case *ssa.Store:
			if x.Addr == v {
				res = append(res, cellUse{x, x.Parent(), true})
			}
		case *ssa.FieldAddr:
			if _, isCell := v.(*ssa.Alloc); isCell {
				for _, r2 := range *x.Referrers() {
					switch y := r2.(type) {
					case *ssa.UnOp:
						res = append(res, cellUse{y, y.Parent(), false})
					case *ssa.Store:
						if y.Addr == ssa.Value(x) {
							res = append(res, cellUse{y, y.Parent(), true})
						}
					}
				}
			} else if _, isFree := v.(*ssa.FreeVar); isFree {
				for _, r2 := range *x.Referrers() {
					switch y := r2.(type) {
					case *ssa.UnOp:
						res = append(res, cellUse{y, y.Parent(), false})
					case *ssa.Store:
						if y.Addr == ssa.Value(x) {
							res = append(res, cellUse{y, y.Parent(), true})
						}
					}
				}
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v {
					f := x.Fn.(*ssa.Function)
					if i < len(f.FreeVars) {
						res = append(res, cellUses(f.FreeVars[i])...)
					}
				}
			}
		}
	}
	return res
}
