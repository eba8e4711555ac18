package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ob records an obligation when the property under check asks for its rule.
func (q *queueEnv) ob(e *Engine, st *State, rule string, in ssa.Instruction, ok bool, format string, a ...any) {
	if q.rules == nil || q.rules[rule] {
		e.Oblige(st, rule, in, ok, format, a...)
	}
}

func monAdd(st *State, key, name string) {
	var l []string
	if st.mon[key] != "" {
		l = strings.Split(st.mon[key], ",")
	}
	st.mon[key] = strings.Join(append(l, name), ",")
}

func monHas(st *State, key, name string) bool {
	for _, x := range strings.Split(st.mon[key], ",") {
		if x == name {
			return true
		}
	}
	return false
}

func monSet(st *State, key string) string {
	l := strings.Split(st.mon[key], ",")
	sort.Strings(l)
	return strings.Join(l, ",")
}

func monLen(st *State, key string) int {
	if st.mon[key] == "" {
		return 0
	}
	return strings.Count(st.mon[key], ",") + 1
}

// ---------------------------------------------------------------------------
// the list that pipelines push to
// ---------------------------------------------------------------------------

// checkSendBuffer runs push, popAll and close on a new list, in the orders that tell its states apart.
func (q *queueEnv) checkSendBuffer() {
	c := q.c
	initFn := c.fn("memcache.initSendBuffer")
	if initFn == nil {
		return
	}
	t := types.NewPointer(q.sendPush.Signature.Recv().Type().(*types.Pointer).Elem())
	var self *Term
	e := c.engine(Hooks{})
	inside := false
	waits := func(e *Engine, st *State, in ssa.Instruction, op string, l *Term) {
		// what another goroutine pushes while this one waits
		if op == "wait" && inside && st.mon["waited"] == "" {
			st.mon["waited"] = "1"
			w := st.ghost["node:W"]
			s2 := st.clone()
			s2.frame, s2.locks = nil, map[*Term]int{}
			inside = false
			outs := e.Run(s2, q.sendPush, []*Term{self, w}, nil)
			inside = true
			n := 0
			for _, o := range outs {
				if o.Panic {
					continue
				}
				if v, known := e.evalBool(o.St, o.Res[0]); known && v {
					continue
				}
				n++
				for a, v := range o.St.heap {
					st.heap[a] = v
				}
			}
			if n != 1 {
				q.ob(e, st, "list-push", in, false, "what push does while popAll waits is not decided")
			}
		}
	}
	e.h = Hooks{Lock: waits}
	e.Partition = q.shape
	e.Volatile = nil
	type step struct {
		what string
		arg  string
	}
	run := func(steps []step) {
		st := newState()
		self = freshAlloc(t, "list")
		e.zeroInit(st, self, derefType(t))
		q.node(e, st, "W")
		states := []*State{st}
		after := func(outs []Outcome) (r []Outcome) {
			for _, o := range outs {
				if o.Panic {
					q.ob(e, o.St, "list-push", o.Instr, false, "panic")
					continue
				}
				r = append(r, o)
			}
			return
		}
		for _, o := range after(e.Run(st, initFn, []*Term{self}, nil)) {
			states = []*State{o.St}
		}
		var pushed []string
		closed := false
		for _, s := range steps {
			var next []*State
			for _, st := range states {
				st.frame = nil
				switch s.what {
				case "push":
					n := q.node(e, st, s.arg)
					// links that a node may still hold from before
					for _, o := range after(e.Run(st, q.sendPush, []*Term{self, n}, nil)) {
						v, known := e.evalBool(o.St, o.Res[0])
						q.ob(e, o.St, "list-push", o.Instr, known && v == closed, "push says that the list is closed exactly when it is")
						if known && v == closed {
							next = append(next, o.St)
						}
					}
				case "close":
					for _, o := range after(e.Run(st, q.sendClose, []*Term{self}, nil)) {
						next = append(next, o.St)
					}
				case "pop", "wait":
					inside = s.what == "wait"
					for _, o := range after(e.Run(st, q.popAll, []*Term{self, boolT(inside)}, nil)) {
						var got []string
						x := o.Res[0]
						for len(got) < 6 && !x.isNilTerm() {
							nm := q.nodeName(o.St, x)
							got = append(got, nm)
							if nm == "" {
								break
							}
							x = e.load(o.St, faT(x, q.linkF), q.linkF.Type())
						}
						want := strings.Join(pushed, ",")
						if inside && want == "" && !closed {
							want = "W"
						}
						q.ob(e, o.St, "list-pop", o.Instr, strings.Join(got, ",") == want, "popAll takes what was pushed since the last time, in order, and nothing else: got [%s], pushed [%s]", strings.Join(got, ","), want)
						v, known := e.evalBool(o.St, o.Res[1])
						q.ob(e, o.St, "list-pop", o.Instr, known && v == closed, "popAll says that the list is closed exactly when it is")
						delete(o.St.mon, "waited")
						next = append(next, o.St)
					}
					inside = false
				}
			}
			switch s.what {
			case "push":
				if !closed {
					pushed = append(pushed, s.arg)
				}
			case "pop", "wait":
				pushed = nil
			case "close":
				closed = true
			}
			if len(next) == 0 || len(next) > 64 {
				c.obFn("list-push", q.sendPush, false, "the list is not decided (%d states)", len(next))
				return
			}
			states = next
		}
	}
	p := func(a string) step { return step{"push", a} }
	pop, wait, cl := step{"pop", ""}, step{"wait", ""}, step{"close", ""}
	run([]step{pop, p("A"), p("B"), p("C"), pop, pop, p("D"), pop})
	run([]step{wait, p("A"), p("B"), wait, wait, p("C"), pop})
	run([]step{p("A"), cl, p("B"), wait, p("C"), wait, pop})
	run([]step{p("A"), p("B"), cl, pop, pop})
	run([]step{p("A"), pop, p("B"), cl, p("C"), pop, wait})
	run([]step{cl, cl, wait, p("A"), pop})
	c.finish(e, q.sendPush)
}

// ---------------------------------------------------------------------------
// the selector: every list that was handed over comes out of readCommands
// ---------------------------------------------------------------------------

// checkDrain interprets readCommands, again and again, for every way in which small lists arrive.
func (q *queueEnv) checkDrain() {
	c := q.c
	drive := c.harness("memcache.verifDrainSelector")
	if drive == nil {
		return
	}
	e := c.engine(Hooks{})
	e.MaxSteps *= 4
	names := []string{"A", "B", "C", "D", "S1", "S2", "S3"}
	chains := map[string][]string{"A": {"A", "S1", "S2"}, "B": {"B"}, "C": {"C", "S3"}, "D": {"D"}}
	parent := map[string]string{}
	for _, l := range chains {
		for i := 1; i < len(l); i++ {
			parent[l[i]] = l[i-1]
		}
	}
	reads, returns := 0, 0
	var script [][]string
	feed := func(st *State, heads ...string) *Term {
		first := nilT()
		for i, h := range heads {
			l := chains[h]
			for k, n := range l {
				x := st.ghost["node:"+n]
				monAdd(st, "fed", n)
				if k+1 < len(l) {
					st.heap[faT(x, q.siblingF)] = st.ghost["node:"+l[k+1]]
				}
			}
			if i > 0 {
				st.heap[faT(st.ghost["node:"+heads[i-1]], q.linkF)] = st.ghost["node:"+h]
			} else {
				first = st.ghost["node:"+h]
			}
		}
		return first
	}
	done := func(st *State) bool { return monSet(st, "fed") == monSet(st, "out") }
	e.h.Call = func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		if ci.Callee != q.popAll {
			if q.drainCall != nil {
				return q.drainCall(e, st, ci)
			}
			return nil, false
		}
		waiting, known := e.evalBool(st, ci.Args[1])
		if !known || waiting {
			q.ob(e, st, "drain-wait", ci.Site, done(st) && st.mon["cur"] == "", "new commands are only waited for when none is left (left over of %s: taken %s, in the batch %s)", st.mon["fed"], st.mon["out"], st.mon["cur"])
		}
		n := st.mon["pops"]
		var outs []CallOut
		add := func(open bool, next string, heads ...string) {
			s := st.clone()
			if open && st.mon["closed"] == "1" || open && (!known || waiting) && len(heads) == 0 || st.mon["closed"] == "1" && len(heads) > 0 {
				return
			}
			s.mon["pops"] = next
			if !open {
				s.mon["closed"] = "1"
			}
			outs = append(outs, CallOut{s, tupleT(feed(s, heads...), boolT(!open))})
		}
		k, _ := strconv.Atoi(n)
		if k < len(script) {
			add(true, strconv.Itoa(k+1), script[k]...)
			add(false, "9", script[k]...)
		}
		add(true, n)
		add(false, "9")
		return outs, true
	}
	e.h.Append = func(e *Engine, st *State, in ssa.Instruction, base, add, res *Term) {
		if s, ok := res.typ.Underlying().(*types.Slice); !ok || !q.isCmdPtr(s.Elem()) {
			return
		}
		reads++
		n, ok := add.args[2].isConstInt()
		if !ok || n != 1 || add.op != OSlice {
			q.ob(e, st, "drain-once", in, false, "which commands are put into the batch is not decided")
			return
		}
		v := e.load(st, iaT(types.NewPointer(q.cmdT), add.args[0], add.args[1]), types.NewPointer(q.cmdT))
		nm := q.nodeName(st, v)
		q.ob(e, st, "drain-once", in, nm != "" && !monHas(st, "out", nm), "a command is put into a batch once (%s, taken already: %s)", nm, st.mon["out"])
		if nm == "" || monHas(st, "out", nm) {
			return
		}
		if q.drainTake != nil {
			q.drainTake(e, st, in, v)
		}
		q.ob(e, st, "drain-order", in, parent[nm] == "" || monHas(st, "out", parent[nm]), "the batches of one pipeline keep their order (%s before %s)", nm, parent[nm])
		// the order in which they were taken does not matter any more
		st.mon["out"], st.mon["cur"] = monSorted(st.mon["out"], nm), monSorted(st.mon["cur"], nm)
		for a := range st.heap {
			if a.op == OIA && a.typ != nil && q.isCmdPtr(derefType(a.typ)) {
				delete(st.heap, a)
			}
		}
	}
	e.h.Store = func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op == OIA && q.isCmdPtr(derefType(addr.typ)) && addr.args[0].op != OAlloc {
			q.ob(e, st, "drain-batch", in, false, "a batch only grows (undecided otherwise)")
		}
	}
	e.h.Lock = func(e *Engine, st *State, in ssa.Instruction, op string, l *Term) {
		if op == "wait" {
			q.ob(e, st, "drain-wait", in, st.mon["cur"] == "", "responses are only waited for when the batch is empty, else what it holds is never sent (%s)", st.mon["cur"])
			q.ob(e, st, "drain-wait", in, !done(st), "responses are only waited for when there is a command to send")
		}
	}
	e.h.Leave = func(e *Engine, st *State, fn *ssa.Function, args []*Term, o Outcome) {
		if fn != q.readCommands || o.Panic {
			return
		}
		returns++
		if q.drainDone != nil {
			q.drainDone(e, st, o.Instr)
		}
		n := monLen(st, "cur")
		k, ok := int64(-1), false
		if o.Res[0].op == OSlice {
			k, ok = o.Res[0].args[2].isConstInt()
		}
		q.ob(e, st, "drain-batch", o.Instr, ok && k == int64(n), "the batch holds every command that was taken (%s)", st.mon["cur"])
		closed, known := e.evalBool(st, o.Res[1])
		if !known || closed {
			q.ob(e, st, "drain-all", o.Instr, done(st), "the end is reported only after the last command (given %s, taken %s)", st.mon["fed"], st.mon["out"])
			q.ob(e, st, "drain-all", o.Instr, st.mon["closed"] == "1", "the end is reported only after the list was closed")
		}
		if !known || !closed {
			q.ob(e, st, "drain-progress", o.Instr, n > 0, "a batch that is not the last holds a command")
		}
		// a linked command would drag others along
		for _, nm := range strings.Split(st.mon["cur"], ",") {
			if x := st.ghost["node:"+nm]; x != nil {
				l := e.load(st, faT(x, q.siblingF), q.siblingF.Type())
				want := ""
				for ch, pa := range parent {
					if pa == nm {
						want = ch
					}
				}
				q.ob(e, st, "drain-sibling", o.Instr, q.nodeName(st, l) == want, "the batches of a pipeline stay linked (%s)", nm)
			}
		}
		delete(st.mon, "cur")
	}
	e.h.Load = q.drainLoad
	e.Partition = q.shape
	e.Merge = func(fn *ssa.Function) bool { return q.drainMerge == nil || q.drainMerge(fn) }
	for _, script = range [][][]string{{{"A", "B"}}, {{"A"}, {"C"}}, {{"B"}, {"C"}}, {{"B", "C"}, {"D"}}} {
		for _, o := range e.RunFresh(drive, func(st *State, a []*Term) {
			for _, n := range names {
				q.node(e, st, n)
			}
			st.zone.assumeLe(intT(0), a[1], 0)
			st.zone.assumeLe(intT(1), a[2], 0)
			st.zone.assumeLe(a[2], intT(1<<20), 0)
			if q.drainStart != nil {
				q.drainStart(e, st, a)
			}
		}) {
			if o.Panic {
				q.ob(e, o.St, "drain-once", o.Instr, false, "readCommands panics")
			}
		}
	}
	c.finish(e, q.readCommands)
	c.obFn("drain-once", q.readCommands, reads > 0 && returns > 0, "readCommands was interpreted (%d commands taken, %d returns)", reads, returns)
}

func monSorted(l, n string) string {
	var xs []string
	if l != "" {
		xs = strings.Split(l, ",")
	}
	xs = append(xs, n)
	sort.Strings(xs)
	return strings.Join(xs, ",")
}

var _ = fmt.Sprint
