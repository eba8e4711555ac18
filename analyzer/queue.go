package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// queueEnv knows the objects batches travel through.
type queueEnv struct {
	c                                   *Ctx
	cmdT                                *types.Named
	siblingF, linkF, chF, countF, connF *types.Var
	errF                                *types.Var
	bufT                                *types.Named // the ring buffer
	ringF, beginF, endF, ringClosedF    *types.Var
	push, read, closeBuffer             *ssa.Function
	sendPush, popAll, sendClose         *ssa.Function
	readCommands, readSent, publish     *ssa.Function
	rules                               map[string]bool

	// what else is followed while batches are taken from the selector
	drainCall  func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool)
	drainLoad  func(e *Engine, st *State, in ssa.Instruction, addr *Term)
	drainTake  func(e *Engine, st *State, in ssa.Instruction, node *Term)
	drainDone  func(e *Engine, st *State, in ssa.Instruction)
	drainMerge func(fn *ssa.Function) bool
	drainStart func(e *Engine, st *State, args []*Term)
}

func newQueueEnv(c *Ctx) *queueEnv {
	q := &queueEnv{c: c}
	q.cmdT, q.bufT = c.p.typ("memcache", "commandListData"), c.p.typ("memcache", "recvBuffer")
	q.push, q.read, q.closeBuffer = c.fn("memcache.(recvBuffer).push"), c.fn("memcache.(recvBuffer).read"), c.fn("memcache.(recvBuffer).closeBuffer")
	q.sendPush, q.popAll, q.sendClose = c.fn("memcache.(sendBuffer).push"), c.fn("memcache.(sendBuffer).popAll"), c.fn("memcache.(sendBuffer).close")
	q.readCommands, q.readSent, q.publish = c.fn("memcache.(inputSelector).readCommands"), c.fn("memcache.(sender).readSentCommands"), c.fn("memcache.(sender).publish")
	if q.cmdT == nil || q.bufT == nil || q.push == nil || q.read == nil || q.closeBuffer == nil || q.sendPush == nil || q.popAll == nil || q.readCommands == nil || q.readSent == nil || q.publish == nil || q.sendClose == nil {
		return nil
	}
	f := func(name string) *types.Var {
		v := c.p.field("memcache", "commandListData", name)
		if v == nil {
			c.obFn("anchor", nil, false, "commandListData has no field %s (undecided)", name)
		}
		return v
	}
	q.siblingF, q.linkF, q.chF, q.countF, q.connF, q.errF = f("sibling"), f("link"), f("ch"), f("cmdCount"), f("conn"), f("lastErr")
	if q.siblingF == nil || q.linkF == nil || q.chF == nil || q.countF == nil || q.connF == nil || q.errF == nil {
		return nil
	}
	q.ringF = sliceFieldOf(c, "recvBuffer", "commandListData")
	one := func(fn *ssa.Function, kind types.BasicKind) (r *types.Var) {
		n := 0
		for k := range c.p.effects(fn).writes {
			if v, ok := k.(*types.Var); ok && ownerType(c, v) == q.bufT {
				if b, ok := v.Type().Underlying().(*types.Basic); ok && (b.Kind() == kind || kind == types.Uint64 && b.Info()&types.IsInteger != 0) {
					r = v
					n++
				}
			}
		}
		c.obFn("anchor", fn, n == 1, "%s changes one number or flag of the ring buffer (%d)", fn.Name(), n)
		return
	}
	q.endF, q.beginF, q.ringClosedF = one(q.push, types.Uint64), one(q.read, types.Uint64), one(q.closeBuffer, types.Bool)
	if q.endF == nil || q.beginF == nil || q.ringClosedF == nil || q.ringF == nil || q.endF == q.beginF {
		return nil
	}
	return q
}

func (q *queueEnv) isCmdPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), q.cmdT)
}

// node makes a command object with known links.
func (q *queueEnv) node(e *Engine, st *State, name string) *Term {
	n := freshAlloc(types.NewPointer(q.cmdT), name)
	for _, f := range structFields(q.cmdT) {
		switch f {
		case q.siblingF, q.linkF, q.errF:
			st.heap[faT(n, f)] = nilT()
		default:
			st.heap[faT(n, f)] = e.newValue(st, f.Type(), name+"."+f.Name())
		}
	}
	cnt := st.heap[faT(n, q.countF)]
	st.zone.assumeLe(intT(1), cnt, 0)
	st.zone.assumeLe(cnt, intT(maxLen), 0)
	st.facts[eqT(st.heap[faT(n, q.chF)], nilT())] = false
	st.ghost["node:"+name] = n
	return n
}

func (q *queueEnv) nodeName(st *State, n *Term) string {
	for k, v := range st.ghost {
		if v == n && strings.HasPrefix(k, "node:") {
			return k[5:]
		}
	}
	return ""
}

// shape keeps states apart that differ in how command objects are linked.
func (q *queueEnv) shape(st *State) string {
	var ks []string
	lit := func(v *Term) bool {
		return v.op == ONil || v.op == OAlloc || v.op == OFA && rootObj(v).op == OAlloc
	}
	isPtr := func(t types.Type) bool {
		if q.isCmdPtr(t) {
			return true
		}
		p, ok := t.Underlying().(*types.Pointer)
		return ok && q.isCmdPtr(p.Elem())
	}
	for a, v := range st.heap {
		if t := derefType(a.typ); t != nil && isPtr(t) && (lit(v) || v.op == OFA) {
			ks = append(ks, a.String()+"="+v.String())
		}
	}
	for f := st.frame; f != nil; f = f.parent {
		for x, v := range f.env {
			if _, isPhi := x.(*ssa.Phi); isPhi && isPtr(x.Type()) && (lit(v) || v.op == OFA) {
				ks = append(ks, f.fn.Name()+"."+x.Name()+"="+v.String())
			}
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// ---------------------------------------------------------------------------
// the ring buffer
// ---------------------------------------------------------------------------

// ringSetup: a ring buffer in any state.
func (q *queueEnv) ringInv(e *Engine, st *State, self *Term) (begin, end, size *Term) {
	u := types.Typ[types.Uint64]
	begin, end = e.load(st, faT(self, q.beginF), q.beginF.Type()), e.load(st, faT(self, q.endF), q.endF.Type())
	buf := e.load(st, faT(self, q.ringF), q.ringF.Type())
	size = e.lenOf(st, buf)
	const big = int64(1) << 60
	for _, x := range []*Term{begin, end} {
		st.zone.assumeLe(intT(0), x, 0)
		st.zone.assumeLe(x, intT(big), 0)
	}
	st.zone.assumeLe(begin, end, 0)
	full := e.add(st, begin, size, u)
	st.zone.assumeLe(end, full, 0)
	return
}

// ringIndex: what the slot number is computed from, when it is reduced to the ring's size.
func (q *queueEnv) ringIndex(e *Engine, st *State, self, idx *Term) *Term {
	buf := e.load(st, faT(self, q.ringF), q.ringF.Type())
	if buf.op != OSlice {
		return nil
	}
	m := map[*Term]int64{}
	k := linear(idx, 1, m) + linear(buf.args[1], -1, m)
	var x *Term
	for t, n := range m {
		if n == 0 {
			continue
		}
		if n != 1 || x != nil {
			return nil
		}
		x = t
	}
	if x == nil || k != 0 {
		return nil
	}
	for x.op == OApp && strings.HasPrefix(x.aux.(string), "conv:") {
		x = x.args[0]
	}
	if x.op != OApp {
		return nil
	}
	isMask := func(t *Term) bool { return q.isMask(e, st, self, t) }
	switch x.aux {
	case "and":
		if isMask(x.args[0]) {
			return x.args[1]
		}
		if isMask(x.args[1]) {
			return x.args[0]
		}
	case "rem":
		if st.zone.eq(x.args[1], buf.args[2]) {
			return x.args[0]
		}
	}
	return nil
}

// isMask: a setting of the ring that the constructor makes one less than the ring's size.
func (q *queueEnv) isMask(e *Engine, st *State, self, t *Term) bool {
	if st.zone.eq(linT(t, 1), st.heap[faT(self, q.ringF)].args[2]) {
		return true
	}
	for _, f := range structFields(q.bufT) {
		if v, ok := st.heap[faT(self, f)]; ok && v == t && f != q.beginF && f != q.endF && st.ghost["maskF"] != nil && st.ghost["maskF"] == faT(self, f) {
			return true
		}
	}
	return false
}

// ringMask runs the constructor: the size is a power of two and the mask is one less.
func (q *queueEnv) ringMask() (maskF *types.Var) {
	c := q.c
	nc := c.fn("memcache.newCoreConnection")
	if nc == nil {
		return nil
	}
	e := c.engine(Hooks{Call: func(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
		if ci.Kind == "go" {
			return nil, true
		}
		return nil, false
	}})
	rings := 0
	for _, o := range e.RunFresh(nc, nil) {
		st := o.St
		for a, v := range st.heap {
			if a.op != OFA || a.aux != q.ringF || v.op != OSlice {
				continue
			}
			rings++
			self := a.args[0]
			n, ok := v.args[2].isConstInt()
			e.Oblige(st, "ring-size", o.Instr, ok && n > 0 && n&(n-1) == 0, "the size of the ring buffer is a power of two, found %s", v.args[2])
			b, en := e.load(st, faT(self, q.beginF), q.beginF.Type()), e.load(st, faT(self, q.endF), q.endF.Type())
			e.Oblige(st, "ring-empty", o.Instr, st.zone.eq(b, en), "a new ring buffer is empty")
			for _, f := range structFields(q.bufT) {
				if w, ok := st.heap[faT(self, f)]; ok && f != q.beginF && f != q.endF {
					if k, ok := w.isConstInt(); ok && k == n-1 {
						maskF = f
					}
				}
			}
		}
	}
	c.finish(e, nc)
	c.obFn("ring-size", nc, rings > 0, "a connection has a ring buffer")
	if maskF != nil {
		for _, fn := range c.p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && fieldOf(s.Addr) == maskF && !c.p.effects(nc).funcs[fn] {
						c.ob("ring-size", in, false, "the mask of the ring buffer does not change")
					}
				}
			}
		}
	}
	return
}

// cmdSlicePhi: the slices of commands a loop header joins, with what comes over an edge.
func (q *queueEnv) cmdSlicePhi(e *Engine, st *State, header, pred *ssa.BasicBlock, head *State) (old, now *Term) {
	k := -1
	for i, p := range header.Preds {
		if p == pred {
			k = i
		}
	}
	for _, in := range header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if s, ok := phi.Type().Underlying().(*types.Slice); ok && q.isCmdPtr(s.Elem()) && k >= 0 {
			return head.frame.env[phi], e.val(st, phi.Edges[k])
		}
	}
	return nil, nil
}

// ringStart notes the position at which storing or taking starts under the lock.
func (q *queueEnv) ringStart(e *Engine, st *State, self *Term, f *types.Var) {
	p := e.load(st, faT(self, f), f.Type())
	st.ghost["p0"], st.ghost["pos"], st.ghost["k"] = p, p, intT(0)
}

// ringStep: one more slot was used.
func (q *queueEnv) ringStep(e *Engine, st *State) {
	st.ghost["k"] = e.add(st, st.ghost["k"], intT(1), types.Typ[types.Int])
	st.ghost["pos"] = e.add(st, st.ghost["pos"], intT(1), types.Typ[types.Uint64])
}

// ringAt: x is the position after the slots used so far.
func (q *queueEnv) ringAt(e *Engine, st *State, x *Term) bool {
	if x == nil || st.ghost["p0"] == nil || st.ghost["pos"] == nil {
		return false
	}
	return st.zone.eq(x, st.ghost["pos"]) || e.sumEq(st, []*Term{x}, []*Term{st.ghost["p0"], st.ghost["k"]})
}

// checkRingPush: every command of the list is stored once, in order, in free slots.
func (q *queueEnv) checkRingPush(maskF *types.Var) {
	c := q.c
	var self *Term
	stores, ends, rets := 0, 0, 0
	e := c.engine(Hooks{})
	setup := func(st *State) {
		if maskF != nil {
			st.ghost["maskF"] = faT(self, maskF)
		}
	}
	e.h = Hooks{
		Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
			if addr.op == OFA && (addr.aux == q.beginF || addr.aux == q.endF) && st.mon["dirty"] == "" {
				q.ringInv(e, st, self)
			}
		},
		Lock: func(e *Engine, st *State, in ssa.Instruction, op string, l *Term) {
			switch op {
			case "lock":
				q.ringStart(e, st, self, q.endF)
				delete(st.ghost, "soff")
				delete(st.mon, "dirty")
			case "unlock", "wait":
				e.Oblige(st, "ring-counted", in, q.ringAt(e, st, st.heap[faT(self, q.endF)]), "the end moves by the number of commands stored before the ring is released")
				delete(st.mon, "dirty")
			}
		},
		Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
			buf := st.heap[faT(self, q.ringF)]
			if addr.op == OIA && buf != nil && buf.op == OSlice && addr.args[0] == buf.args[0] {
				stores++
				k := st.ghost["k"]
				begin, size := st.heap[faT(self, q.beginF)], buf.args[2]
				x := q.ringIndex(e, st, self, addr.args[1])
				ok := q.ringAt(e, st, x)
				e.Oblige(st, "ring-slot", in, ok, "commands are stored in the slots that follow the last one, one after the other (slot %s)", addr.args[1])
				if ok && begin != nil {
					e.Oblige(st, "ring-free", in, e.sumLe(st, []*Term{st.ghost["pos"], intT(1)}, []*Term{begin, size}) || e.sumLe(st, []*Term{st.ghost["p0"], k, intT(1)}, []*Term{begin, size}), "only a free slot is used")
				}
				st.mon["dirty"] = "1"
				// which element of the list
				list := st.ghost["list"]
				okv := false
				for a, v := range st.heap {
					if v == val && a.op == OIA && list != nil && a.args[0] == list && k != nil {
						m := map[*Term]int64{}
						cst := linear(a.args[1], 1, m) + linear(k, -1, m)
						_ = cst
						if s := st.ghost["soff"]; s != nil {
							okv = okv || e.sumEq(st, []*Term{a.args[1]}, []*Term{s, k})
						} else if kk, isC := k.isConstInt(); isC && kk == 0 || st.zone.eq(k, intT(0)) {
							st.ghost["soff"] = a.args[1]
							okv = true
						}
					}
				}
				e.Oblige(st, "ring-order", in, okv, "the commands are stored in their order, none left out")
				if k != nil && st.ghost["pos"] != nil {
					q.ringStep(e, st)
				}
				return
			}
			if addr.op == OFA && addr.aux == q.endF {
				ends++
				st.mon["dirty"] = "1"
			}
		},
		BackEdge: func(e *Engine, st *State, header, pred *ssa.BasicBlock, head *State) {
			old, now := q.cmdSlicePhi(e, st, header, pred, head)
			if old == nil || now == nil || old.op != OSlice || now.op != OSlice || st.ghost["k"] == nil {
				return
			}
			at := pred.Instrs[len(pred.Instrs)-1]
			k := st.ghost["k"]
			e.Oblige(st, "ring-rest", at, now.args[0] == st.ghost["list"] && e.sumEq(st, []*Term{now.args[1]}, []*Term{old.args[1], k}), "the list goes on with the first command not stored yet")
			e.Oblige(st, "ring-rest", at, e.sumEq(st, []*Term{now.args[2], k}, []*Term{old.args[2]}), "the rest of the list is as long as what is not stored yet")
			if s := st.ghost["soff"]; s != nil {
				e.Oblige(st, "ring-rest", at, st.zone.eq(s, old.args[1]), "storing starts at the first command of the rest")
			}
			st.ghost["rem"] = now.args[2]
			st.ghost["k"] = intT(0)
			delete(st.ghost, "soff")
		},
	}
	e.Volatile = func(f *types.Var) bool { return f == q.beginF || f == q.ringClosedF }
	for _, o := range e.RunFresh(q.push, func(st *State, a []*Term) {
		self = a[0]
		q.ringInv(e, st, self)
		setup(st)
		st.ghost["list"] = a[1].args[0]
		st.ghost["rem"] = a[1].args[2]
		st.ghost["k"] = intT(0)
	}) {
		st := o.St
		if o.Panic {
			e.Oblige(st, "ring-all", o.Instr, false, "push panics")
			continue
		}
		rets++
		isClosed := false
		for _, r := range o.Res {
			if isBoolType(r.typ) || r.op == OBool {
				v, known := e.evalBool(st, r)
				isClosed = isClosed || !known || v
			}
		}
		if isClosed {
			cl := e.load(st, faT(self, q.ringClosedF), q.ringClosedF.Type())
			v, known := e.evalBool(st, cl)
			e.Oblige(st, "ring-all", o.Instr, known && v, "commands are refused only when the ring buffer is closed")
			continue
		}
		e.Oblige(st, "ring-all", o.Instr, st.ghost["rem"] != nil && st.zone.eq(st.ghost["rem"], intT(0)), "push returns when all commands are stored")
	}
	c.finish(e, q.push)
	c.obFn("ring-all", q.push, stores > 0 && ends > 0 && rets > 1, "push stores commands")
}

// checkRingRead: commands are taken in order, each once, and none is invented.
func (q *queueEnv) checkRingRead(maskF *types.Var) {
	c := q.c
	var self, list *Term
	takes, ends := 0, 0
	e := c.engine(Hooks{})
	e.h = Hooks{
		Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
			if addr.op == OFA && (addr.aux == q.beginF || addr.aux == q.endF) && st.mon["dirty"] == "" {
				q.ringInv(e, st, self)
			}
		},
		Lock: func(e *Engine, st *State, in ssa.Instruction, op string, l *Term) {
			switch op {
			case "lock":
				q.ringStart(e, st, self, q.beginF)
				delete(st.mon, "dirty")
			case "unlock", "wait":
				e.Oblige(st, "ring-counted", in, q.ringAt(e, st, st.heap[faT(self, q.beginF)]), "the begin moves by the number of commands taken before the ring is released")
				delete(st.mon, "dirty")
			}
		},
		Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
			buf := st.heap[faT(self, q.ringF)]
			k := st.ghost["k"]
			if addr.op == OIA && addr.args[0] == list.args[0] {
				takes++
				m := map[*Term]int64{}
				_ = linear(addr.args[1], 1, m)
				e.Oblige(st, "ring-order", in, e.sumEq(st, []*Term{addr.args[1]}, []*Term{list.args[1], k}), "the commands taken are put one after the other")
				ok, avail := false, false
				for a, v := range st.heap {
					if v == val && a.op == OIA && buf != nil && buf.op == OSlice && a.args[0] == buf.args[0] {
						if x := q.ringIndex(e, st, self, a.args[1]); x != nil {
							end := st.heap[faT(self, q.endF)]
							if end != nil && q.ringAt(e, st, x) {
								ok = true
								avail = avail || st.zone.lt(st.ghost["pos"], end) || e.sumLe(st, []*Term{st.ghost["p0"], k, intT(1)}, []*Term{end})
							}
						}
					}
				}
				e.Oblige(st, "ring-slot", in, ok, "commands are taken from the slots that follow the last one taken, one after the other")
				e.Oblige(st, "ring-filled", in, !ok || avail, "only a slot that holds a command is read")
				st.mon["dirty"] = "1"
				if st.ghost["pos"] != nil {
					q.ringStep(e, st)
				}
				return
			}
			if addr.op == OIA && buf != nil && buf.op == OSlice && addr.args[0] == buf.args[0] {
				x := q.ringIndex(e, st, self, addr.args[1])
				ok := val.isNilTerm() && x != nil && st.ghost["pos"] != nil
				ok = ok && (e.sumLe(st, []*Term{linT(x, 1)}, []*Term{st.ghost["p0"], k}) || st.zone.le(linT(x, 1), st.ghost["pos"]))
				e.Oblige(st, "ring-clear", in, ok, "only a slot that was taken is cleared")
				return
			}
			if addr.op == OFA && addr.aux == q.beginF {
				ends++
				st.mon["dirty"] = "1"
			}
		},
	}
	e.Volatile = func(f *types.Var) bool { return f == q.endF || f == q.ringClosedF }
	for _, o := range e.RunFresh(q.read, func(st *State, a []*Term) {
		self, list = a[0], a[1]
		q.ringInv(e, st, self)
		if maskF != nil {
			st.ghost["maskF"] = faT(self, maskF)
		}
		st.ghost["k"] = intT(0)
	}) {
		st := o.St
		if o.Panic {
			e.Oblige(st, "ring-all", o.Instr, false, "read panics")
			continue
		}
		n := o.Res[0]
		e.Oblige(st, "ring-number", o.Instr, st.zone.eq(n, st.ghost["k"]), "read returns the number of commands it took")
		s := st.clone()
		s.zone.assumeLe(n, intT(0), 0)
		s.zone.assumeLe(intT(1), list.args[2], 0)
		if !s.zone.bottom {
			v, known := e.evalBool(s, e.load(s, faT(self, q.ringClosedF), q.ringClosedF.Type()))
			b, en := s.heap[faT(self, q.beginF)], s.heap[faT(self, q.endF)]
			e.Oblige(st, "ring-end", o.Instr, known && v && b != nil && en != nil && (s.zone.eq(b, en) || q.ringAt(e, s, b) && e.sumEq(s, []*Term{s.ghost["p0"], s.ghost["k"]}, []*Term{en})), "nothing is returned only when the ring buffer is closed and empty")
		}
	}
	c.finish(e, q.read)
	c.obFn("ring-all", q.read, takes > 0 && ends > 0, "read takes commands")
}
