package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallInfo describes a call met on a path.
type CallInfo struct {
	Site   ssa.CallInstruction
	Callee *ssa.Function // nil when unknown
	Name   string        // full name of the callee, "invoke:(T).M" or "dynamic"
	Args   []*Term       // receiver first
	Fn     *Term
	Kind   string // call, go, defer
}

// CallOut is one result of a modelled call.
type CallOut struct {
	St  *State
	Res *Term // tuple for several results
}

// Outcome is one way in which an analysed function ends.
type Outcome struct {
	St    *State
	Res   []*Term
	Panic bool
	Instr ssa.Instruction
}

// Hooks lets a check observe and refine the analysis.
type Hooks struct {
	Call     func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool)
	Enter    func(e *Engine, st *State, fn *ssa.Function, args []*Term)
	Leave    func(e *Engine, st *State, fn *ssa.Function, args []*Term, out Outcome)
	Store    func(e *Engine, st *State, in ssa.Instruction, addr, val *Term)
	Load     func(e *Engine, st *State, in ssa.Instruction, addr *Term)
	Send     func(e *Engine, st *State, in ssa.Instruction, ch, val *Term)
	Recv     func(e *Engine, st *State, in ssa.Instruction, ch *Term)
	Select   func(e *Engine, st *State, in *ssa.Select, chans []*Term)
	Case     func(e *Engine, st *State, in *ssa.Select, k int, ch, val, ok *Term)
	Bounds   func(e *Engine, st *State, in ssa.Instruction, what string, ok bool)
	Return   func(e *Engine, st *State, res []*Term, in ssa.Instruction)
	Panic    func(e *Engine, st *State, in ssa.Instruction)
	BackEdge func(e *Engine, st *State, header, pred *ssa.BasicBlock, head *State)
	Narrow   func(e *Engine, st *State, in ssa.Instruction, v *Term, ok bool)
	Make     func(e *Engine, st *State, in *ssa.MakeSlice, ln, cp *Term)
	Deref    func(e *Engine, st *State, in ssa.Instruction, p *Term)
	Append   func(e *Engine, st *State, in ssa.Instruction, base, add, res *Term)
	Lock     func(e *Engine, st *State, in ssa.Instruction, op string, l *Term)
}

// Obligation is one fact the rule requires at one construct.
type Obligation struct {
	Rule string
	Pos  string
	Fn   string
	OK   bool
	Msg  string
	Path []string
}

// Engine runs the abstract interpretation of one entry point.
type Engine struct {
	prog *Program
	h    Hooks

	Opaque   func(fn *ssa.Function) bool
	MaxDepth int
	MaxSteps int
	MaxPaths int

	Partition func(st *State) string      // additional discrete part of loop and merge keys
	Extents   bool                        // keep the number of elements behind each pointer to elements
	Quick     bool                        // widen at once, with few thresholds
	MergeAt   int                         // join the outcomes of a call when there are more than this many
	Merge     func(fn *ssa.Function) bool // join the outcomes of these functions always

	StrElemRange func(s *Term) (lo, hi int64, ok bool) // assumed range of the characters of a string

	Volatile func(f *types.Var) bool // fields other goroutines may change at synchronisation points

	obls       []Obligation
	steps      int
	incomplete string
	loops      map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo

	FuncsSeen  map[*ssa.Function]bool
	OpaqueSeen map[string]bool
	Paths      int
	LoopPasses int

	loopDepth int
}

func newEngine(p *Program, h Hooks) *Engine {
	return &Engine{prog: p, h: h, MaxDepth: 40, MaxSteps: 4000000, MaxPaths: 200000,
		loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, FuncsSeen: map[*ssa.Function]bool{}, OpaqueSeen: map[string]bool{}}
}

// Oblige records that the rule requires cond at a construct.
func (e *Engine) Oblige(st *State, rule string, in ssa.Instruction, ok bool, format string, a ...any) {
	pos, fn := "", ""
	if in != nil {
		pos = e.prog.pos(in)
		fn = in.Parent().String()
	}
	o := Obligation{Rule: rule, Pos: pos, Fn: fn, OK: ok, Msg: fmt.Sprintf(format, a...)}
	if !ok && st != nil {
		for t := st.trace; t != nil && len(o.Path) < 60; t = t.prev {
			o.Path = append(o.Path, t.what)
		}
		for i, j := 0, len(o.Path)-1; i < j; i, j = i+1, j-1 {
			o.Path[i], o.Path[j] = o.Path[j], o.Path[i]
		}
		for f := st.frame; f != nil; f = f.parent {
			o.Fn = f.fn.String()
			if f.parent == nil {
				break
			}
		}
		if in != nil {
			o.Fn = in.Parent().String() + " (entry " + o.Fn + ")"
		}
	}
	e.obls = append(e.obls, o)
}

func (e *Engine) giveUp(why string) {
	if e.incomplete == "" {
		e.incomplete = why
	}
}

// Run analyses fn from st with the given arguments.
func (e *Engine) Run(st *State, fn *ssa.Function, args []*Term, bindings []*Term) []Outcome {
	outs := e.execFn(st, fn, args, bindings, nil)
	e.Paths += len(outs)
	return outs
}

// RunFresh analyses fn with unknown arguments.
func (e *Engine) RunFresh(fn *ssa.Function, setup func(st *State, args []*Term)) []Outcome {
	st := e.prog.initState(e)
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, e.newValue(st, p.Type(), p.Name()))
	}
	// a pointer receiver is not nil
	if fn.Signature.Recv() != nil && len(args) > 0 && args[0].op == OSym {
		st.facts[eqT(args[0], nilT())] = false
	}
	var binds []*Term
	for _, fv := range fn.FreeVars {
		binds = append(binds, e.newValue(st, fv.Type(), fv.Name()))
	}
	if setup != nil {
		setup(st, args)
	}
	return e.Run(st, fn, args, binds)
}

func (e *Engine) execFn(st *State, fn *ssa.Function, args, bindings []*Term, site ssa.Instruction) []Outcome {
	e.FuncsSeen[fn] = true
	parent := st.frame
	d := 0
	if parent != nil {
		d = parent.depth + 1
	}
	st.frame = &Frame{fn: fn, env: map[ssa.Value]*Term{}, parent: parent, bindings: bindings, site: site, depth: d}
	for i, p := range fn.Params {
		if i < len(args) {
			st.frame.env[p] = args[i]
		}
	}
	if e.h.Enter != nil {
		e.h.Enter(e, st, fn, args)
	}
	outs := e.runBlock(st, fn.Blocks[0], nil, nil)
	res := outs[:0]
	for _, o := range outs {
		o.St.frame = parent
		if e.h.Leave != nil {
			e.h.Leave(e, o.St, fn, args, o)
		}
		res = append(res, o)
	}
	return res
}

// ---------------------------------------------------------------------------
// loops
// ---------------------------------------------------------------------------

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func (e *Engine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := e.loops[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	e.loops[fn] = res
	return res
}

type pendingEdge struct {
	st   *State
	blk  *ssa.BasicBlock
	pred *ssa.BasicBlock
	head *State // state at the loop head this iteration started from
}

type loopRun struct {
	info  *loopInfo
	backs []pendingEdge
	exits []pendingEdge
}

func (e *Engine) runBlock(st *State, blk, pred *ssa.BasicBlock, lr *loopRun) []Outcome {
	if e.incomplete != "" {
		return nil
	}
	if lr != nil {
		if blk == lr.info.header {
			lr.backs = append(lr.backs, pendingEdge{st, blk, pred, nil})
			return nil
		}
		if !lr.info.body[blk] {
			lr.exits = append(lr.exits, pendingEdge{st, blk, pred, nil})
			return nil
		}
	}
	if l := e.loopsOf(blk.Parent())[blk]; l != nil {
		return e.runLoop(st, l, pred, lr)
	}
	e.bindPhis(st, blk, pred)
	return e.runInstrs(st, blk, 0, lr)
}

func (e *Engine) bindPhis(st *State, blk, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	pi := -1
	for i, p := range blk.Preds {
		if p == pred {
			pi = i
			break
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range blk.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, e.val(st, phi.Edges[pi]))
	}
	for i, phi := range phis {
		st.frame.env[phi] = vals[i]
	}
}

type headState struct {
	st     *State
	owned  map[*Term]bool
	iter   int
	dirty  bool
	epochs map[epochOwn]bool
}

// stKey is the discrete part of a state: states are joined only when it is the same.
func (e *Engine) stKey(st *State) string {
	k := st.key()
	if e.Partition != nil {
		k += "|" + e.Partition(st)
	}
	return k
}

// headKey is the key of a state at the head of a loop: whether an error was met, or a flag set, in the loop is kept apart.
func (e *Engine) headKey(st *State, l *loopInfo) string {
	k := e.stKey(st)
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := st.frame.env[phi]
		if v == nil {
			continue
		}
		switch {
		case isErrorType(phi.Type()):
			k += "/" + e.resKey(st, v)
		case isBoolType(phi.Type()):
			if b, known := e.evalBool(st, v); known {
				k += "/" + boolT(b).String()
			}
		}
	}
	return k
}

// resKey is the discrete part of a result value.
func (e *Engine) resKey(st *State, r *Term) string {
	if r == nil {
		return ""
	}
	switch r.op {
	case OBool, OInt, OStr, ONil, OFunc:
		return r.String()
	case OTuple:
		k := ""
		for _, a := range r.args {
			k += e.resKey(st, a) + ","
		}
		return k
	case OSlice:
		if n, ok := r.args[2].isConstInt(); ok && n == 0 {
			return "empty"
		}
		return "slice"
	}
	if e.nonNil(st, r) {
		return "nonnil"
	}
	if v, known := e.evalBool(st, eqT(r, nilT())); known && v {
		return "nil"
	}
	if r.typ != nil && isBoolType(r.typ) {
		if v, known := e.evalBool(st, r); known {
			return boolT(v).String()
		}
	}
	return "?"
}

// mergeOuts joins outcomes of a call that have the same discrete part.
func (e *Engine) mergeOuts(outs []CallOut) []CallOut {
	heads := map[string]*headState{}
	var order []string
	for _, o := range outs {
		k := e.stKey(o.St) + "//" + e.resKey(o.St, o.Res)
		o.St.ghost["$res"] = o.Res
		h := heads[k]
		if h == nil {
			heads[k] = &headState{st: o.St, owned: map[*Term]bool{}}
			order = append(order, k)
			continue
		}
		e.joinInto(h, o.St)
	}
	var res []CallOut
	for _, k := range order {
		st := heads[k].st
		r := st.ghost["$res"]
		delete(st.ghost, "$res")
		res = append(res, CallOut{st, r})
	}
	return res
}

// mergeEdges joins states that leave a loop through the same edge.
func (e *Engine) mergeEdges(xs []pendingEdge) []pendingEdge {
	heads := map[string]*headState{}
	var order []string
	edge := map[string]pendingEdge{}
	for _, x := range xs {
		k := fmt.Sprint(x.pred.Index, ">", x.blk.Index, "//", e.stKey(x.st))
		h := heads[k]
		if h == nil {
			heads[k] = &headState{st: x.st, owned: map[*Term]bool{}}
			order = append(order, k)
			edge[k] = x
			continue
		}
		e.joinInto(h, x.st)
	}
	var res []pendingEdge
	for _, k := range order {
		x := edge[k]
		x.st = heads[k].st
		res = append(res, x)
	}
	return res
}

func (e *Engine) runLoop(st *State, l *loopInfo, pred *ssa.BasicBlock, outer *loopRun) []Outcome {
	e.bindPhis(st, l.header, pred)
	e.dropLoopRegs(st, l)
	heads := map[string]*headState{}
	var order []string
	k0 := e.headKey(st, l)
	heads[k0] = &headState{st: st, owned: map[*Term]bool{}}
	order = append(order, k0)
	// what each head led to when it was last interpreted
	type record struct {
		outs  []Outcome
		exits []pendingEdge
		obls  []Obligation
	}
	recs := map[string]*record{}
	pending := map[string]bool{k0: true}
	e.loopDepth++
	defer func() { e.loopDepth-- }()
	mark := len(e.obls)
	for pass := 0; len(pending) > 0; pass++ {
		if pass > 60 {
			e.giveUp("loop analysis does not converge at " + e.prog.posOf(l.header.Instrs[0]))
			return nil
		}
		e.LoopPasses++
		var backs []pendingEdge
		for _, k := range order {
			if !pending[k] {
				continue
			}
			h := heads[k]
			run := &loopRun{info: l}
			r := &record{outs: e.runInstrs(h.st.clone(), l.header, 0, run), exits: run.exits}
			if e.incomplete != "" {
				return nil
			}
			for _, b := range run.backs {
				b.head = h.st
				if e.h.BackEdge != nil {
					e.h.BackEdge(e, b.st, l.header, b.pred, b.head)
				}
				backs = append(backs, b)
			}
			r.obls = append([]Obligation(nil), e.obls[mark:]...)
			e.obls = e.obls[:mark]
			recs[k] = r
		}
		pending = map[string]bool{}
		for _, b := range backs {
			e.bindPhis(b.st, l.header, b.pred)
			e.dropLoopRegs(b.st, l)
			k := e.headKey(b.st, l)
			h := heads[k]
			if h == nil {
				heads[k] = &headState{st: b.st, owned: map[*Term]bool{}}
				order = append(order, k)
				pending[k] = true
				continue
			}
			if e.joinInto(h, b.st) {
				h.dirty = true
				pending[k] = true
			}
		}
		for _, h := range heads {
			if h.dirty {
				h.iter++
				h.dirty = false
			}
		}
	}
	var outs []Outcome
	run := &loopRun{info: l}
	for _, k := range order {
		outs = append(outs, recs[k].outs...)
		run.exits = append(run.exits, recs[k].exits...)
		e.obls = append(e.obls, recs[k].obls...)
	}
	if e.MergeAt > 0 && len(run.exits) > e.MergeAt {
		run.exits = e.mergeEdges(run.exits)
	}
	for _, x := range run.exits {
		outs = append(outs, e.runBlock(x.st, x.blk, x.pred, outer)...)
	}
	return outs
}

// dropLoopRegs forgets registers defined inside the loop, except the phis of its header.
func (e *Engine) dropLoopRegs(st *State, l *loopInfo) {
	for v := range st.frame.env {
		in, ok := v.(ssa.Instruction)
		if !ok || !l.body[in.Block()] {
			continue
		}
		if _, isPhi := v.(*ssa.Phi); isPhi && in.Block() == l.header {
			continue
		}
		delete(st.frame.env, v)
	}
}

// ---------------------------------------------------------------------------
// instructions
// ---------------------------------------------------------------------------

func (e *Engine) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(st, x)
	case *ssa.Global:
		return mk(OGlobal, x.Type(), x)
	case *ssa.Function:
		return mk(OFunc, x.Type(), x)
	case *ssa.Builtin:
		return appT(x.Type(), "builtin:"+x.Name())
	case *ssa.FreeVar:
		for i, fv := range x.Parent().FreeVars {
			if fv == x && i < len(st.frame.bindings) {
				return st.frame.bindings[i]
			}
		}
	}
	if t, ok := st.frame.env[v]; ok {
		return t
	}
	t := e.newValue(st, v.Type(), v.Name())
	st.frame.env[v] = t
	return t
}

func (e *Engine) constVal(st *State, c *ssa.Const) *Term {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(c.Value))
	case constant.String:
		return strT(constant.StringVal(c.Value))
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok && i < zinf/2 && i > -zinf/2 {
			if isIntType(c.Type()) {
				return intT(i)
			}
		}
	}
	return mk(OConst, c.Type(), c.Value.ExactString())
}

func (e *Engine) runInstrs(st *State, blk *ssa.BasicBlock, i int, lr *loopRun) []Outcome {
	for ; i < len(blk.Instrs); i++ {
		e.steps++
		if e.steps > e.MaxSteps {
			e.giveUp("step budget exhausted in " + blk.Parent().String())
		}
		if e.incomplete != "" {
			return nil
		}
		in := blk.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := e.val(st, x.Cond)
			var outs []Outcome
			v, known := e.evalBool(st, c)
			if known {
				t := blk.Succs[1]
				if v {
					t = blk.Succs[0]
				}
				return e.runBlock(st, t, blk, lr)
			}
			st2 := st.clone()
			if e.assume(st, c, true) {
				st.note(e.prog.pos(x) + ": " + condString(c) + " is true")
				outs = append(outs, e.runBlock(st, blk.Succs[0], blk, lr)...)
			}
			if e.assume(st2, c, false) {
				st2.note(e.prog.pos(x) + ": " + condString(c) + " is false")
				outs = append(outs, e.runBlock(st2, blk.Succs[1], blk, lr)...)
			}
			return outs
		case *ssa.Jump:
			return e.runBlock(st, blk.Succs[0], blk, lr)
		case *ssa.Return:
			var res []*Term
			for _, r := range x.Results {
				res = append(res, e.val(st, r))
			}
			if st.frame.parent == nil && e.h.Return != nil {
				e.h.Return(e, st, res, x)
			}
			return []Outcome{{St: st, Res: res, Instr: x}}
		case *ssa.Panic:
			if e.h.Panic != nil {
				e.h.Panic(e, st, x)
			}
			return nil
		case *ssa.RunDefers:
			ds := st.frame.defers
			st.frame.defers = nil
			states := []*State{st}
			for k := len(ds) - 1; k >= 0; k-- {
				var next []*State
				for _, s := range states {
					for _, o := range e.doCall(s, ds[k].call, ds[k].fn, ds[k].args, "defer") {
						next = append(next, o.St)
					}
				}
				states = next
			}
			if len(states) == 1 {
				st = states[0]
				continue
			}
			var outs []Outcome
			for _, s := range states {
				outs = append(outs, e.runInstrs(s, blk, i+1, lr)...)
			}
			return outs
		case ssa.CallInstruction:
			common := x.Common()
			fnT, args := e.callOperands(st, common)
			switch y := x.(type) {
			case *ssa.Defer:
				st.frame.defers = append(st.frame.defers, deferred{call: y, fn: fnT, args: args})
				continue
			case *ssa.Go:
				for _, a := range args {
					e.escape(st, a)
				}
				e.escape(st, fnT)
				if e.h.Call != nil {
					ci := e.callInfo(st, x, fnT, args, "go")
					e.h.Call(e, st, ci)
				}
				continue
			case *ssa.Call:
				outs := e.doCall(st, x, fnT, args, "call")
				if len(outs) == 0 {
					return nil
				}
				if len(outs) == 1 {
					st = outs[0].St
					st.frame.env[y] = outs[0].Res
					continue
				}
				var res []Outcome
				for _, o := range outs {
					o.St.frame = o.St.frame.clone()
					o.St.frame.env[y] = o.Res
					res = append(res, e.runInstrs(o.St, blk, i+1, lr)...)
				}
				return res
			}
		case *ssa.Select:
			return e.doSelect(st, x, blk, i, lr)
		case *ssa.TypeAssert:
			if x.CommaOk {
				return e.doTypeAssert(st, x, blk, i, lr)
			}
			v := e.val(st, x.X)
			st.frame.env[x] = e.assertTo(st, v, x.AssertedType)
		default:
			e.simple(st, in)
		}
	}
	return nil
}

func condString(c *Term) string {
	s := c.String()
	if len(s) > 160 {
		s = s[:160] + "…"
	}
	return s
}

func (e *Engine) callOperands(st *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, e.val(st, c.Value))
		for _, a := range c.Args {
			args = append(args, e.val(st, a))
		}
		return nil, args
	}
	for _, a := range c.Args {
		args = append(args, e.val(st, a))
	}
	return e.val(st, c.Value), args
}

// spawn analyses the body of a goroutine from the state in which it is started.
func (e *Engine) spawn(st *State, ci *CallInfo) []Outcome {
	fn := ci.Callee
	if fn == nil || len(fn.Blocks) == 0 || !e.prog.inRepo(fn) {
		return nil
	}
	s := st.clone()
	s.frame = nil
	s.locks = map[*Term]int{}
	var binds []*Term
	if ci.Fn != nil && ci.Fn.op == OFunc {
		binds = ci.Fn.args
	}
	return e.Run(s, fn, ci.Args, binds)
}

// callInfo resolves the callee.
func (e *Engine) callInfo(st *State, site ssa.CallInstruction, fnT *Term, args []*Term, kind string) *CallInfo {
	c := site.Common()
	ci := &CallInfo{Site: site, Args: args, Fn: fnT, Kind: kind}
	if c.IsInvoke() {
		ci.Name = "invoke:" + c.Method.FullName()
		recv := args[0]
		if recv.op == OIface {
			t := recv.aux.(types.Type)
			if sel := e.prog.ssa.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				if m := e.prog.ssa.MethodValue(sel); m != nil {
					ci.Callee = m
					ci.Name = m.RelString(nil)
					ci.Args = append([]*Term{recv.args[0]}, args[1:]...)
				}
			}
		}
		return ci
	}
	if fnT.op == OFunc {
		fn := fnT.aux.(*ssa.Function)
		ci.Callee = fn
		ci.Name = fn.RelString(nil)
		return ci
	}
	if fnT.op == OApp {
		if n := fnT.aux.(string); strings.HasPrefix(n, "builtin:") {
			ci.Name = n
			return ci
		}
	}
	ci.Name = "dynamic"
	return ci
}

func (e *Engine) doCall(st *State, site ssa.CallInstruction, fnT *Term, args []*Term, kind string) []CallOut {
	ci := e.callInfo(st, site, fnT, args, kind)
	if e.h.Call != nil {
		if outs, done := e.h.Call(e, st, ci); done {
			return outs
		}
	}
	if strings.HasPrefix(ci.Name, "builtin:") {
		return e.builtin(st, ci)
	}
	if outs, done := e.model(st, ci); done {
		return outs
	}
	if ci.Callee != nil && len(ci.Callee.Blocks) > 0 && e.prog.inRepo(ci.Callee) && (e.Opaque == nil || !e.Opaque(ci.Callee)) {
		depth := 0
		rec := 0
		for f := st.frame; f != nil; f = f.parent {
			depth++
			if f.fn == ci.Callee {
				rec++
			}
		}
		if depth < e.MaxDepth && rec < 2 {
			var binds []*Term
			if ci.Fn != nil && ci.Fn.op == OFunc {
				binds = ci.Fn.args
			}
			var res []CallOut
			saved := st.frame
			outs := e.execFn(st, ci.Callee, ci.Args, binds, site)
			for _, o := range outs {
				if o.Panic {
					continue
				}
				o.St.frame = saved
				var r *Term
				if len(o.Res) == 1 {
					r = o.Res[0]
				} else {
					r = tupleT(o.Res...)
				}
				res = append(res, CallOut{o.St, r})
			}
			if e.MergeAt > 0 && len(res) > e.MergeAt || len(res) > 1 && e.Merge != nil && e.Merge(ci.Callee) {
				for i := range res {
					res[i].St.frame = saved.clone()
				}
				res = e.mergeOuts(res)
			}
			if len(res) > 1 {
				for i := range res {
					res[i].St.frame = saved.clone()
				}
			}
			return res
		}
	}
	return e.opaqueCall(st, ci)
}

// opaqueCall over-approximates a call that is not followed.
func (e *Engine) opaqueCall(st *State, ci *CallInfo) []CallOut {
	for _, a := range ci.Args {
		e.escape(st, a)
	}
	e.escape(st, ci.Fn)
	e.OpaqueSeen[ci.Name] = true
	if ci.Callee != nil && e.prog.inRepo(ci.Callee) {
		eff := e.prog.effects(ci.Callee)
		e.havocEffects(st, eff)
	} else if ci.Callee == nil {
		// function value or interface: any in-repo function of that signature
		for _, fn := range e.prog.possibleCallees(ci.Site) {
			e.havocEffects(st, e.prog.effects(fn))
		}
	}
	// byte buffers passed along may be overwritten
	for _, a := range ci.Args {
		if a.op == OSlice && !readOnlyExternal(ci.Name) {
			e.havocElems(st, a.args[0])
		}
	}
	return []CallOut{{st, e.resultOf(st, ci)}}
}

func readOnlyExternal(name string) bool {
	switch {
	case strings.Contains(name, ").Write"), strings.HasPrefix(name, "bytes."), strings.HasPrefix(name, "strings."),
		strings.HasPrefix(name, "fmt."), strings.HasPrefix(name, "log."):
		return true
	}
	return false
}

// elemOfBase: the type of the elements of a backing store, nil when it is not known.
func elemOfBase(base *Term) types.Type {
	t := derefType(base.typ)
	if t == nil {
		return nil
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Elem()
	}
	return t
}

func (e *Engine) havocElems(st *State, base *Term) {
	delete(st.ghost, "bytesof:"+base.String())
	for a := range st.heap {
		if a.op == OIA && (a.args[0] == base || !st.distinct(a.args[0], base)) {
			if et, at := elemOfBase(base), derefType(a.typ); a.args[0] != base && et != nil && at != nil && !types.Identical(et, at) {
				continue
			}
			delete(st.heap, a)
			st.epoch[locKey(a, derefType(a.typ))] = freshEpoch()
		}
	}
	for s := range st.content {
		if s.op == OSlice && s.args[0] == base {
			delete(st.content, s)
		}
	}
}

func (e *Engine) havocEffects(st *State, eff *Effects) {
	if len(eff.writes) == 0 {
		return
	}
	e.havocKeys(st, func(a *Term, key any) bool { return eff.writes[key] }, eff.keys())
}

func (e *Engine) resultOf(st *State, ci *CallInfo) *Term {
	sig := ci.Site.Common().Signature()
	rs := sig.Results()
	name := ci.Name
	if i := strings.LastIndexAny(name, "./"); i >= 0 {
		name = name[i+1:]
	}
	if rs.Len() == 1 {
		return e.newValue(st, rs.At(0).Type(), name)
	}
	return e.newValue(st, rs, name)
}

func (e *Engine) doSelect(st *State, x *ssa.Select, blk *ssa.BasicBlock, i int, lr *loopRun) []Outcome {
	var chans []*Term
	for _, s := range x.States {
		chans = append(chans, e.val(st, s.Chan))
	}
	if e.h.Select != nil {
		e.h.Select(e, st, x, chans)
	}
	e.syncPoint(st)
	n := len(x.States)
	start := 0
	if !x.Blocking {
		start = -1
	}
	var outs []Outcome
	for k := start; k < n; k++ {
		s := st.clone()
		tt := []*Term{intT(int64(k)), e.newValue(s, types.Typ[types.Bool], "recvOk")}
		for _, cs := range x.States {
			if cs.Dir == types.RecvOnly {
				ct := cs.Chan.Type().Underlying().(*types.Chan)
				tt = append(tt, e.newValue(s, ct.Elem(), "recv"))
			}
		}
		s.frame.env[x] = tupleT(tt...)
		if e.h.Case != nil {
			var ch, v *Term
			if k >= 0 {
				ch = chans[k]
				p := 2
				for j := 0; j < k; j++ {
					if x.States[j].Dir == types.RecvOnly {
						p++
					}
				}
				if x.States[k].Dir == types.RecvOnly {
					v = tt[p]
				}
			}
			e.h.Case(e, s, x, k, ch, v, tt[1])
		}
		s.note(fmt.Sprintf("%s: select takes case %d", e.prog.pos(x), k))
		outs = append(outs, e.runInstrs(s, blk, i+1, lr)...)
	}
	return outs
}

func (e *Engine) assertTo(st *State, v *Term, t types.Type) *Term {
	if v.op == OIface && types.Identical(v.aux.(types.Type), t) {
		return v.args[0]
	}
	if types.IsInterface(t) {
		return v
	}
	name := "as:" + typeString(t)
	return e.unknown(st, t, name, func(tt types.Type, n string) *Term { return appT(tt, n, v) })
}

func (e *Engine) doTypeAssert(st *State, x *ssa.TypeAssert, blk *ssa.BasicBlock, i int, lr *loopRun) []Outcome {
	v := e.val(st, x.X)
	set := func(s *State, ok bool) {
		if ok {
			s.frame.env[x] = tupleT(e.assertTo(s, v, x.AssertedType), boolT(true))
		} else {
			s.frame.env[x] = tupleT(e.zero(x.AssertedType), boolT(false))
		}
	}
	isI := types.IsInterface(x.AssertedType)
	if v.op == OIface && !isI {
		set(st, types.Identical(v.aux.(types.Type), x.AssertedType))
		return e.runInstrs(st, blk, i+1, lr)
	}
	if v.op == ONil {
		set(st, false)
		return e.runInstrs(st, blk, i+1, lr)
	}
	c := appT(types.Typ[types.Bool], "istype:"+types.TypeString(x.AssertedType, nil), v)
	var outs []Outcome
	if val, ok := st.facts[c]; ok {
		set(st, val)
		return e.runInstrs(st, blk, i+1, lr)
	}
	s2 := st.clone()
	st.facts[c] = true
	st.facts[eqT(v, nilT())] = false
	set(st, true)
	st.note(e.prog.pos(x) + ": value has type " + shortType(x.AssertedType))
	outs = append(outs, e.runInstrs(st, blk, i+1, lr)...)
	s2.facts[c] = false
	set(s2, false)
	s2.note(e.prog.pos(x) + ": value does not have type " + shortType(x.AssertedType))
	outs = append(outs, e.runInstrs(s2, blk, i+1, lr)...)
	return outs
}

// syncPoint forgets state that other goroutines may change meanwhile.
func (e *Engine) syncPoint(st *State) {
	if e.Volatile == nil {
		return
	}
	var keys []any
	seen := map[any]bool{}
	for a := range st.heap {
		if a.op == OFA && e.Volatile(a.aux.(*types.Var)) {
			k := locKey(a, derefType(a.typ))
			if !seen[k] {
				seen[k] = true
				keys = append(keys, k)
			}
		}
	}
	e.havocKeys(st, func(a *Term, key any) bool { return seen[key] }, keys)
	for _, f := range e.prog.allFields() {
		if e.Volatile(f) && !seen[f] {
			st.epoch[f] = freshEpoch()
		}
	}
}

func (e *Engine) bounds(st *State, in ssa.Instruction, what string, ok bool) {
	if e.h.Bounds != nil {
		e.h.Bounds(e, st, in, what, ok)
	}
}

func (e *Engine) simple(st *State, in ssa.Instruction) {
	env := st.frame.env
	switch x := in.(type) {
	case *ssa.Alloc:
		t := derefType(x.Type())
		a := freshAlloc(x.Type(), shortType(t))
		env[x] = a
		e.zeroInit(st, a, t)
	case *ssa.BinOp:
		env[x] = e.binop(st, x)
	case *ssa.ChangeInterface:
		env[x] = e.val(st, x.X)
	case *ssa.ChangeType:
		env[x] = e.val(st, x.X)
	case *ssa.Convert:
		env[x] = e.convert(st, x, x.X, x.Type())
	case *ssa.MultiConvert:
		env[x] = e.newValue(st, x.Type(), "conv")
	case *ssa.MakeChan:
		a := freshAlloc(x.Type(), "chan")
		env[x] = a
		st.heap[appT(types.NewPointer(types.Typ[types.Int]), "chancap", a)] = e.val(st, x.Size)
	case *ssa.MakeMap:
		env[x] = freshAlloc(x.Type(), "map")
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range x.Bindings {
			b = append(b, e.val(st, v))
		}
		env[x] = mk(OFunc, x.Type(), x.Fn.(*ssa.Function), b...)
	case *ssa.MakeInterface:
		env[x] = ifaceT(x.X.Type(), e.val(st, x.X))
	case *ssa.MakeSlice:
		ln, cp := e.val(st, x.Len), e.val(st, x.Cap)
		e.bounds(st, x, "make length", st.zone.le(intT(0), ln) && st.zone.le(ln, cp))
		if e.h.Make != nil {
			e.h.Make(e, st, x, ln, cp)
		}
		st.zone.assumeLe(intT(0), ln, 0)
		st.zone.assumeLe(ln, cp, 0)
		a := freshAlloc(types.NewPointer(x.Type().Underlying().(*types.Slice).Elem()), "array")
		if e.Extents {
			st.heap[extentAt(a)] = cp
		}
		s := sliceT(x.Type(), a, intT(0), ln, cp)
		env[x] = s
	case *ssa.MapUpdate:
		m, k, v := e.val(st, x.Map), e.val(st, x.Key), e.val(st, x.Value)
		if e.h.Store != nil {
			e.h.Store(e, st, x, appT(types.NewPointer(x.Value.Type()), "mapelem", m, k), v)
		}
		e.escape(st, v)
		for a := range st.heap {
			if a.op == OApp && (a.aux == "mapelem" || a.aux == "mappresent") {
				delete(st.heap, a)
			}
		}
		st.heap[appT(types.NewPointer(x.Value.Type()), "mapelem", m, k)] = v
		st.heap[appT(types.NewPointer(types.Typ[types.Bool]), "mappresent", m, k)] = boolT(true)
	case *ssa.Lookup:
		env[x] = e.lookup(st, x)
	case *ssa.Range:
		r := appT(x.Type(), "range", e.val(st, x.X), freshSym(types.Typ[types.Int], "it"))
		env[x] = r
		if isStringType(x.X.Type()) {
			// position and rune of the step before the first one
			st.ghost["itpos:"+r.String()] = intT(-1)
			st.ghost["itrune:"+r.String()] = intT(0)
		}
	case *ssa.Next:
		it := e.val(st, x.Iter)
		tp := x.Type().(*types.Tuple)
		ok := e.newValue(st, types.Typ[types.Bool], "more")
		k := e.newValue(st, tp.At(1).Type(), "key")
		var v *Term
		if x.IsString {
			v = freshSym(types.Typ[types.Int32], "rune")
			st.zone.assumeLe(intT(0), v, 0)
			st.zone.assumeLe(v, intT(0x10ffff), 0)
			if pp, pr := st.ghost["itpos:"+it.String()], st.ghost["itrune:"+it.String()]; it.op == OApp && pp != nil && pr != nil && isIntTerm(pp) && isIntTerm(pr) {
				var p *Term
				if st.zone.le(pr, intT(0x7f)) {
					p = e.add(st, pp, intT(1), types.Typ[types.Int])
				} else {
					p = freshSym(types.Typ[types.Int], "pos")
					st.zone.assumeLe(pp, p, -1)
					st.zone.assumeLe(p, pp, 4)
				}
				st.ghost["itpos:"+it.String()] = p
				st.ghost["itrune:"+it.String()] = v
				ok = notT(leT(e.lenOf(st, it.args[0]), p))
				k = p
				if e.StrElemRange != nil {
					if lo, hi, has := e.StrElemRange(it.args[0]); has {
						st.zone.assumeLe(intT(lo), v, 0)
						st.zone.assumeLe(v, intT(hi), 0)
					}
				}
			}
		} else {
			v = e.newValue(st, tp.At(2).Type(), "val")
		}
		_ = it
		env[x] = tupleT(ok, k, v)
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		if t.op == OTuple && x.Index < len(t.args) {
			env[x] = t.args[x.Index]
		} else {
			env[x] = e.newValue(st, x.Type(), x.Name())
		}
	case *ssa.Field:
		env[x] = e.fieldOf(st, e.val(st, x.X), x.X.Type(), x.Field)
	case *ssa.FieldAddr:
		b := e.val(st, x.X)
		if e.h.Deref != nil {
			e.h.Deref(e, st, x, b)
		}
		su := derefType(x.X.Type()).Underlying().(*types.Struct)
		env[x] = faT(b, su.Field(x.Field))
	case *ssa.Index:
		v := e.val(st, x.X)
		i := e.val(st, x.Index)
		ln := e.lenOf(st, v)
		e.bounds(st, x, "index", st.zone.le(intT(0), i) && st.zone.lt(i, ln))
		st.zone.assumeLe(intT(0), i, 0)
		st.zone.assumeLe(i, ln, -1)
		env[x] = e.strElem(st, v, i, x.Type())
	case *ssa.IndexAddr:
		env[x] = e.indexAddr(st, x)
	case *ssa.Slice:
		env[x] = e.slice(st, x)
	case *ssa.SliceToArrayPointer:
		env[x] = e.newValue(st, x.Type(), "arr")
	case *ssa.Send:
		ch, v := e.val(st, x.Chan), e.val(st, x.X)
		if e.h.Send != nil {
			e.h.Send(e, st, x, ch, v)
		}
		e.escape(st, v)
		e.syncPoint(st)
	case *ssa.Store:
		addr, v := e.val(st, x.Addr), e.val(st, x.Val)
		if e.h.Deref != nil {
			e.h.Deref(e, st, x, addr)
		}
		if e.h.Store != nil {
			e.h.Store(e, st, x, addr, v)
		}
		e.store(st, addr, v, derefType(x.Addr.Type()))
		if addr.op == OIA {
			for s := range st.content {
				if s.op == OSlice && s.args[0] == addr.args[0] {
					delete(st.content, s)
				}
			}
		}
	case *ssa.UnOp:
		e.unop(st, x)
	default:
		if v, ok := in.(ssa.Value); ok {
			env[v] = e.newValue(st, v.Type(), v.Name())
		}
	}
}

func (e *Engine) zeroInit(st *State, a *Term, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if e.externalStruct(f.Type()) {
				continue
			}
			e.zeroInit(st, faT(a, f), f.Type())
		}
	case *types.Array:
		if u.Len() <= 16 {
			for i := int64(0); i < u.Len(); i++ {
				e.zeroInit(st, iaT(u.Elem(), a, intT(i)), u.Elem())
			}
		}
	default:
		st.heap[a] = e.zero(t)
	}
}

// externalStruct: struct types of other modules are opaque (sync.Mutex and the like).
func (e *Engine) externalStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if _, isS := n.Underlying().(*types.Struct); !isS {
		return false
	}
	return n.Obj().Pkg() == nil || !e.prog.repoPkgs[n.Obj().Pkg()]
}

func (e *Engine) strElem(st *State, v, i *Term, typ types.Type) *Term {
	if v.op == OStr {
		if k, ok := i.isConstInt(); ok && k >= 0 && k < int64(len(v.aux.(string))) {
			return intT(int64(v.aux.(string)[k]))
		}
	}
	t := appT(typ, "elem", v, i)
	st.zone.index(t)
	if e.StrElemRange != nil {
		if lo, hi, has := e.StrElemRange(v); has {
			st.zone.assumeLe(intT(lo), t, 0)
			st.zone.assumeLe(t, intT(hi), 0)
		}
	}
	return t
}

func (e *Engine) lookup(st *State, x *ssa.Lookup) *Term {
	m, k := e.val(st, x.X), e.val(st, x.Index)
	if isStringType(x.X.Type()) {
		ln := e.lenOf(st, m)
		e.bounds(st, x, "index", st.zone.le(intT(0), k) && st.zone.lt(k, ln))
		st.zone.assumeLe(intT(0), k, 0)
		st.zone.assumeLe(k, ln, -1)
		return e.strElem(st, m, k, x.Type())
	}
	vt := x.Type()
	if x.CommaOk {
		vt = x.Type().(*types.Tuple).At(0).Type()
	}
	addr := appT(types.NewPointer(vt), "mapelem", m, k)
	v, ok := st.heap[addr]
	if !ok {
		v = e.newValue(st, vt, "mapval")
		st.heap[addr] = v
	}
	if x.CommaOk {
		pa := appT(types.NewPointer(types.Typ[types.Bool]), "mappresent", m, k)
		if st.heap[pa] == nil {
			st.heap[pa] = e.newValue(st, types.Typ[types.Bool], "present")
		}
		return tupleT(v, st.heap[pa])
	}
	return v
}

func (e *Engine) indexAddr(st *State, x *ssa.IndexAddr) *Term {
	b, i := e.val(st, x.X), e.val(st, x.Index)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		if b.op != OSlice {
			e.bounds(st, x, "index", false)
			return e.newValue(st, x.Type(), "elem")
		}
		e.bounds(st, x, "index", st.zone.le(intT(0), i) && st.zone.lt(i, b.args[2]))
		st.zone.assumeLe(intT(0), i, 0)
		st.zone.assumeLe(i, b.args[2], -1)
		return iaT(u.Elem(), b.args[0], e.add(st, b.args[1], i, types.Typ[types.Int]))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		e.bounds(st, x, "index", st.zone.le(intT(0), i) && st.zone.lt(i, intT(at.Len())))
		st.zone.assumeLe(intT(0), i, 0)
		st.zone.assumeLe(i, intT(at.Len()), -1)
		return iaT(at.Elem(), b, i)
	}
	return e.newValue(st, x.Type(), "elem")
}

func (e *Engine) slice(st *State, x *ssa.Slice) *Term {
	b := e.val(st, x.X)
	lo := intT(0)
	if x.Low != nil {
		lo = e.val(st, x.Low)
	}
	if isStringType(x.X.Type()) {
		ln := e.lenOf(st, b)
		hi := ln
		if x.High != nil {
			hi = e.val(st, x.High)
		}
		e.bounds(st, x, "slice bounds", st.zone.le(intT(0), lo) && st.zone.le(lo, hi) && st.zone.le(hi, ln))
		st.zone.assumeLe(intT(0), lo, 0)
		st.zone.assumeLe(lo, hi, 0)
		st.zone.assumeLe(hi, ln, 0)
		if b.op == OStr {
			l, ok1 := lo.isConstInt()
			h, ok2 := hi.isConstInt()
			if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(b.aux.(string))) {
				return strT(b.aux.(string)[l:h])
			}
		}
		r := appT(x.Type(), "substr", b, lo, hi)
		n := e.lenOf(st, r)
		d := e.sub(st, hi, lo, types.Typ[types.Int])
		st.zone.assumeLe(n, d, 0)
		st.zone.assumeLe(d, n, 0)
		return r
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		n := intT(at.Len())
		hi := n
		if x.High != nil {
			hi = e.val(st, x.High)
		}
		mx := n
		if x.Max != nil {
			mx = e.val(st, x.Max)
		}
		e.bounds(st, x, "slice bounds", st.zone.le(intT(0), lo) && st.zone.le(lo, hi) && st.zone.le(hi, mx) && st.zone.le(mx, n))
		return sliceT(x.Type(), b, lo, e.sub(st, hi, lo, types.Typ[types.Int]), e.sub(st, mx, lo, types.Typ[types.Int]))
	}
	if b.op != OSlice {
		e.bounds(st, x, "slice bounds", false)
		return e.newValue(st, x.Type(), "slice")
	}
	ln, cp := b.args[2], b.args[3]
	hi := ln
	if x.High != nil {
		hi = e.val(st, x.High)
	}
	mx := cp
	if x.Max != nil {
		mx = e.val(st, x.Max)
	}
	ok := st.zone.le(intT(0), lo) && st.zone.le(lo, hi) && st.zone.le(hi, mx) && st.zone.le(mx, cp)
	e.bounds(st, x, "slice bounds", ok)
	st.zone.assumeLe(intT(0), lo, 0)
	st.zone.assumeLe(lo, hi, 0)
	st.zone.assumeLe(hi, mx, 0)
	it := types.Typ[types.Int]
	r := sliceT(x.Type(), b.args[0], e.add(st, b.args[1], lo, it), e.sub(st, hi, lo, it), e.sub(st, mx, lo, it))
	st.zone.assumeLe(intT(0), r.args[1], 0)
	st.zone.assumeLe(intT(0), r.args[2], 0)
	st.zone.assumeLe(r.args[2], r.args[3], 0)
	if c, ok := st.content[b]; ok && lo == intT(0) {
		if hi == ln {
			st.content[r] = c
		} else if h, isC := hi.isConstInt(); isC && h == 0 {
			st.content[r] = nil
		}
	}
	return r
}

func (e *Engine) unop(st *State, x *ssa.UnOp) {
	env := st.frame.env
	v := e.val(st, x.X)
	switch x.Op {
	case token.MUL:
		if e.h.Deref != nil {
			e.h.Deref(e, st, x, v)
		}
		if e.h.Load != nil {
			e.h.Load(e, st, x, v)
		}
		env[x] = e.load(st, v, x.Type())
	case token.NOT:
		env[x] = notT(v)
	case token.SUB:
		env[x] = e.sub(st, intT(0), v, x.Type())
	case token.ARROW:
		if e.h.Recv != nil {
			e.h.Recv(e, st, x, v)
		}
		e.syncPoint(st)
		env[x] = e.newValue(st, x.Type(), "recv")
		if r := st.ghost["$recv"]; r != nil && !x.CommaOk {
			env[x] = r
			delete(st.ghost, "$recv")
		}
	default:
		env[x] = e.newValue(st, x.Type(), x.Name())
	}
}

// ---------------------------------------------------------------------------
// arithmetic
// ---------------------------------------------------------------------------

func (e *Engine) fits(st *State, lo, hi int64, okLo, okHi bool, typ types.Type) bool {
	tlo, thi, ok := typeRange(typ)
	if !ok {
		return true // int, int64: values are bounded by memory sizes
	}
	if !okLo || lo < tlo {
		return false
	}
	if thi < zinf && (!okHi || hi > thi) {
		return false
	}
	if thi >= zinf && !okHi {
		return false
	}
	return true
}

// add is a + b in type typ.
func (e *Engine) add(st *State, a, b *Term, typ types.Type) *Term {
	la, ha, ola, oha := st.zone.rng(a)
	lb, hb, olb, ohb := st.zone.rng(b)
	if !e.fits(st, la+lb, ha+hb, ola && olb, oha && ohb, typ) {
		if isUnsigned(typ) && wide(typ) && ola && olb {
			// unsigned 64 bit sum that may wrap: keep it opaque but deterministic
			r := appT(typ, "addwrap", minID(a, b), maxID(a, b))
			st.zone.index(r)
			return r
		}
		return e.newValue(st, typ, "sum")
	}
	va, ca := split(a)
	vb, cb := split(b)
	if va == nil {
		return linT(b, ca)
	}
	if vb == nil {
		return linT(a, cb)
	}
	r := appT(typ, "add", minID(va, vb), maxID(va, vb))
	_, have := st.zone.idx[r]
	e.boundSum(st, r, va, vb) // also when known: a join may have lost it
	if !have {
		e.relate(st, r, va, vb)
	}
	// va + (x - y) differs from x as va differs from y
	for _, p := range [][2]*Term{{va, vb}, {vb, va}} {
		if d := p[1]; d.op == OApp && d.aux == "sub" {
			x, y := d.args[0], d.args[1]
			if c := st.zone.bound(p[0], y); c < zinf {
				st.zone.assumeLe(r, x, c)
			}
			if c := st.zone.bound(y, p[0]); c < zinf {
				st.zone.assumeLe(x, r, c)
			}
		}
	}
	return linT(r, ca+cb)
}

// relate compares a new sum or difference with the ones already known that share an operand.
func (e *Engine) relate(st *State, r, a, b *Term) {
	z := st.zone
	le := func(x, y *Term, c int64) { // x - y <= c
		if c < zinf {
			z.assumeLe(x, y, c)
		}
	}
	for _, t := range append([]*Term(nil), z.vars[1:]...) {
		if t.op != OApp || t == r || t.aux != r.aux || len(t.args) != 2 {
			continue
		}
		if t.aux != "add" && t.aux != "sub" {
			continue
		}
		p, q := t.args[0], t.args[1]
		if t.aux == "add" {
			switch {
			case p == a:
				le(r, t, z.bound(b, q))
				le(t, r, z.bound(q, b))
			case q == a:
				le(r, t, z.bound(b, p))
				le(t, r, z.bound(p, b))
			case p == b:
				le(r, t, z.bound(a, q))
				le(t, r, z.bound(q, a))
			case q == b:
				le(r, t, z.bound(a, p))
				le(t, r, z.bound(p, a))
			}
			continue
		}
		if q == b {
			le(r, t, z.bound(a, p))
			le(t, r, z.bound(p, a))
		} else if p == a {
			le(r, t, z.bound(q, b))
			le(t, r, z.bound(b, q))
		}
	}
}

func wide(t types.Type) bool {
	b := t.Underlying().(*types.Basic)
	return b.Kind() == types.Uint64 || b.Kind() == types.Uint || b.Kind() == types.Uintptr
}

func minID(a, b *Term) *Term {
	if a.id < b.id {
		return a
	}
	return b
}
func maxID(a, b *Term) *Term {
	if a.id < b.id {
		return b
	}
	return a
}

// boundSum relates r = a + b with a and b.
func (e *Engine) boundSum(st *State, r, a, b *Term) {
	z := st.zone
	rel := func(x, y *Term) {
		lo, hi, okLo, okHi := z.rng(y)
		if okHi {
			z.assumeLe(r, x, hi)
		}
		if okLo {
			z.assumeLe(x, r, -lo)
		}
	}
	rel(a, b)
	rel(b, a)
}

// sub is a - b in type typ.
func (e *Engine) sub(st *State, a, b *Term, typ types.Type) *Term {
	va, ca := split(a)
	vb, cb := split(b)
	if isUnsigned(typ) {
		if !st.zone.le(b, a) {
			if wide(typ) {
				r := appT(typ, "subwrap", a, b)
				st.zone.index(r)
				return r
			}
			if lo, hi, small := typeRange(typ); small {
				r := appT(typ, "subwrap", a, b)
				st.zone.assumeLe(intT(lo), r, 0)
				st.zone.assumeLe(r, intT(hi), 0)
				return r
			}
			return e.newValue(st, typ, "diff")
		}
	} else if _, _, small := typeRange(typ); small {
		la, ha, o1, o2 := st.zone.rng(a)
		lb, hb, o3, o4 := st.zone.rng(b)
		if !e.fits(st, la-hb, ha-lb, o1 && o4, o2 && o3, typ) {
			return e.newValue(st, typ, "diff")
		}
	}
	if va == vb {
		return intT(ca - cb)
	}
	if vb == nil {
		return linT(a, -cb)
	}
	// (x + y) - y == x
	if va != nil && va.op == OApp && va.aux == "add" {
		if va.args[0] == vb {
			return linT(va.args[1], ca-cb)
		}
		if va.args[1] == vb {
			return linT(va.args[0], ca-cb)
		}
	}
	z := st.zone
	if va == nil {
		va = intT(0)
	}
	r := appT(typ, "sub", va, vb)
	if _, have := z.idx[r]; !have {
		e.relate(st, r, va, vb)
	}
	// r = va - vb
	if c := z.bound(va, vb); c < zinf {
		z.assumeLe(r, intT(0), c)
	}
	if c := z.bound(vb, va); c < zinf {
		z.assumeLe(intT(0), r, c)
	}
	lo, hi, okLo, okHi := z.rng(vb)
	if okHi {
		z.assumeLe(va, r, hi)
	}
	if okLo {
		z.assumeLe(r, va, -lo)
	}
	return linT(r, ca-cb)
}

func (e *Engine) binop(st *State, x *ssa.BinOp) *Term {
	a, b := e.val(st, x.X), e.val(st, x.Y)
	typ := x.Type()
	switch x.Op {
	case token.EQL:
		return e.eqTerm(st, a, b)
	case token.NEQ:
		return notT(e.eqTerm(st, a, b))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if !isIntType(x.X.Type()) {
			return appT(types.Typ[types.Bool], "cmp"+x.Op.String(), a, b)
		}
		switch x.Op {
		case token.LEQ:
			return leT(a, b)
		case token.GEQ:
			return leT(b, a)
		case token.LSS:
			return notT(leT(b, a))
		case token.GTR:
			return notT(leT(a, b))
		}
	}
	if isStringType(typ) && x.Op == token.ADD {
		if a.op == OStr && b.op == OStr {
			return strT(a.aux.(string) + b.aux.(string))
		}
		r := appT(typ, "concat", a, b)
		la, lb := e.lenOf(st, a), e.lenOf(st, b)
		st.content[r] = append(append([]Tok(nil), e.toks(st, a)...), e.toks(st, b)...)
		s := e.add(st, la, lb, types.Typ[types.Int])
		n := e.lenOf(st, r)
		st.zone.assumeLe(n, s, 0)
		st.zone.assumeLe(s, n, 0)
		return r
	}
	if !isIntType(typ) {
		return appT(typ, "op"+x.Op.String(), a, b)
	}
	ka, okA := a.isConstInt()
	kb, okB := b.isConstInt()
	switch x.Op {
	case token.ADD:
		return e.add(st, a, b, typ)
	case token.SUB:
		return e.sub(st, a, b, typ)
	case token.MUL:
		if okA && okB && abs(ka) < 1<<30 && abs(kb) < 1<<30 {
			return intT(ka * kb)
		}
		if okB && kb == 1 {
			return a
		}
		la, ha, o1, o2 := st.zone.rng(a)
		lb, hb, o3, o4 := st.zone.rng(b)
		if o1 && o2 && o3 && o4 && la >= 0 && lb >= 0 && ha < 1<<31 && hb < 1<<30 && e.fits(st, la*lb, ha*hb, true, true, typ) {
			r := appT(typ, "mul", a, b)
			st.zone.assumeLe(r, intT(ha*hb), 0)
			st.zone.assumeLe(intT(la*lb), r, 0)
			return r
		}
		r := appT(typ, "mulwrap", a, b)
		st.zone.index(r)
		return r
	case token.QUO:
		if okA && okB && kb != 0 {
			return intT(ka / kb)
		}
		r := appT(typ, "div", a, b)
		st.zone.index(r)
		if okB && kb > 0 && st.zone.le(intT(0), a) {
			st.zone.assumeLe(intT(0), r, 0)
			st.zone.assumeLe(r, a, 0)
			if _, ha, _, o := st.zone.rng(a); o {
				st.zone.assumeLe(r, intT(ha/kb), 0)
			}
			if kb >= 2 && st.zone.le(intT(1), a) {
				st.zone.assumeLe(r, a, -1)
			}
		}
		return r
	case token.REM:
		if okA && okB && kb != 0 {
			return intT(ka % kb)
		}
		r := appT(typ, "rem", a, b)
		st.zone.index(r)
		if st.zone.le(intT(0), a) {
			st.zone.assumeLe(intT(0), r, 0)
			st.zone.assumeLe(r, a, 0)
		}
		if okB && kb > 0 {
			st.zone.assumeLe(r, intT(kb-1), 0)
		} else if st.zone.le(intT(1), b) {
			st.zone.assumeLe(r, b, -1)
		}
		return r
	case token.SHL:
		if okA && okB && kb >= 0 && kb < 60 && ka >= 0 && (ka == 0 || ka < (zinf>>1)>>uint(kb)) {
			v := ka << uint(kb)
			if _, thi, ok := typeRange(typ); !ok || v <= thi {
				return intT(v)
			}
		}
		r := appT(typ, "shl", a, b)
		st.zone.index(r)
		return r
	case token.SHR:
		if okA && okB && kb >= 0 && ka >= 0 && kb < 62 {
			return intT(ka >> uint(kb))
		}
		r := appT(typ, "shr", a, b)
		st.zone.index(r)
		if st.zone.le(intT(0), a) {
			st.zone.assumeLe(intT(0), r, 0)
			st.zone.assumeLe(r, a, 0)
		}
		return r
	case token.AND:
		if okA && okB {
			return intT(ka & kb)
		}
		r := appT(typ, "and", minID(a, b), maxID(a, b))
		st.zone.index(r)
		for _, y := range []*Term{a, b} {
			if st.zone.le(intT(0), y) {
				st.zone.assumeLe(intT(0), r, 0)
				st.zone.assumeLe(r, y, 0)
			}
		}
		return r
	case token.OR:
		if okA && okB {
			return intT(ka | kb)
		}
		if okA && ka == 0 {
			return b
		}
		if okB && kb == 0 {
			return a
		}
		r := appT(typ, "or", a, b)
		st.zone.index(r)
		return r
	}
	r := appT(typ, "op"+x.Op.String(), a, b)
	st.zone.index(r)
	return r
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// leT is a <= b, normalised.
func leT(a, b *Term) *Term {
	va, ca := split(a)
	vb, cb := split(b)
	if va == vb {
		return boolT(ca <= cb)
	}
	if va == nil {
		return mk(OLe, types.Typ[types.Bool], nil, intT(ca-cb), vb)
	}
	if vb == nil {
		return mk(OLe, types.Typ[types.Bool], nil, va, intT(cb-ca))
	}
	return mk(OLe, types.Typ[types.Bool], nil, va, linT(vb, cb-ca))
}

func (e *Engine) convert(st *State, in ssa.Instruction, xv ssa.Value, to types.Type) *Term {
	v := e.val(st, xv)
	from := xv.Type()
	if isIntType(from) && isIntType(to) {
		r := e.convInt(st, v, to)
		if e.h.Narrow != nil {
			e.h.Narrow(e, st, in, v, r == v)
		}
		return r
	}
	_, toSlice := to.Underlying().(*types.Slice)
	if isStringType(from) && toSlice {
		ln := e.lenOf(st, v)
		var base *Term
		if v.op == OStr {
			base = freshAlloc(types.NewPointer(types.Typ[types.Uint8]), "bytes")
			s := v.aux.(string)
			if len(s) <= 64 {
				for i := 0; i < len(s); i++ {
					st.heap[iaT(types.Typ[types.Uint8], base, intT(int64(i)))] = intT(int64(s[i]))
				}
			}
		} else {
			base = freshAlloc(types.NewPointer(types.Typ[types.Uint8]), "bytes")
			if isByte(to.Underlying().(*types.Slice).Elem()) {
				st.ghost["bytesof:"+base.String()] = v
			}
		}
		r := sliceT(to, base, intT(0), ln, ln)
		st.content[r] = e.toks(st, v)
		return r
	}
	if _, fromSlice := from.Underlying().(*types.Slice); fromSlice && isStringType(to) && v.op == OSlice {
		r := appT(to, "bytes2str", freshSym(to, "str"), v.args[2])
		if c, ok := st.content[v]; ok {
			st.content[r] = c
		} else {
			st.content[r] = []Tok{{kind: "bytes", t: v}}
		}
		return r
	}
	if isUnsafe(from) || isUnsafe(to) {
		return v
	}
	return e.newValue(st, to, "conv")
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func strTok(v *Term) Tok {
	if v.op == OStr {
		return Tok{kind: "lit", lit: v.aux.(string)}
	}
	return Tok{kind: "bytes", t: v}
}

func (e *Engine) convInt(st *State, v *Term, to types.Type) *Term {
	lo, hi, okLo, okHi := st.zone.rng(v)
	tlo, thi, ok := typeRange(to)
	if !ok { // int, int64
		if v.typ != nil && isIntType(v.typ) {
			flo, fhi, fok := typeRange(v.typ)
			if fok && flo >= tlo && fhi >= zinf { // from uint64
				if okHi && hi < maxI {
					return v
				}
				r := appT(to, "conv:"+shortType(to), v)
				return r
			}
		}
		return v
	}
	if okLo && lo >= tlo && (thi >= zinf || okHi && hi <= thi) {
		return v
	}
	r := appT(to, "conv:"+shortType(to), v)
	st.zone.index(r)
	return r
}
