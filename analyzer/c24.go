package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:  "C24",
		min: 25,
		rule: "GetGeneralStats, GetSlabsStats, GetSlabItemsStats and MetaDumpAll are interpreted for every reply, with each line and its parts as symbolic strings and an independent reading of the line as ghost state: a field is expected to be the number behind the statistic whose name is the field's (without underscores and case), parsed as signed or unsigned with exactly the width of the field, for the slab class on that line; every other field is expected to stay as it was. " +
			"After each line, and for every record handed out or returned, the fields are compared with the expected ones. Each slab class is listed once, when its first statistic is stored; each dumped key is handed over once.",
		not: "lines in which a name or a value itself contains the separator, which memcached does not send",
		run: func(c *Ctx) {
			runStats(c, ruleSet("field", "covered", "class", "listed", "handed-over", "width", "same-table", "decided"))
		},
	})
	register(&Check{
		id:  "C25",
		min: 25,
		rule: "GetGeneralStats, GetSlabsStats, GetSlabItemsStats and MetaDumpAll are interpreted for every reply and failure: exactly the command of the call is written and flushed before anything is read; a nil error is returned only if writing, reading and every number succeeded, every line had its shape and END was read; an error only if one of these failed. " +
			"After a number could not be parsed the call returns only once END was read, the connection failed or the reply was no such reply at all, and nothing is read behind END. No part of a line is accessed that the line might not have.",
		not: "replies in which the server itself sends wrong numbers",
		run: func(c *Ctx) {
			runStats(c, ruleSet("success", "false-error", "consumed", "own-reply", "command", "no-panic", "in-range", "decided"))
		},
	})
}

type statsCall struct {
	name, command string
	typ           string // struct with its own fields, in the stats package
	table         string // element type of the map of slab classes
	clsIdx, nmIdx int    // parts of the name of a statistic of one slab class
	dump          bool
}

var statsCalls = []statsCall{
	{name: "GetGeneralStats", command: "stats\r\n", typ: "GeneralStats"},
	{name: "GetSlabsStats", command: "stats slabs\r\n", typ: "SlabsStats", table: "SingleSlabStats", clsIdx: 0, nmIdx: 1},
	{name: "GetSlabItemsStats", command: "stats items\r\n", typ: "SlabItemsStats", table: "SingleSlabItemStats", clsIdx: 1, nmIdx: 2},
	{name: "MetaDumpAll", command: "lru_crawler metadump all\r\n", typ: "MetaDumpKey", dump: true},
}

func normStat(s string) string {
	s = strings.ToLower(strings.ReplaceAll(s, "_", ""))
	if s == "cls" {
		return "class"
	}
	return s
}

// statFields: the fields that hold one statistic.
func statFields(n *types.Named) []*types.Var {
	var r []*types.Var
	for _, f := range structFields(n) {
		if b, ok := f.Type().Underlying().(*types.Basic); ok && f.Exported() && b.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0 {
			r = append(r, f)
		}
	}
	return r
}

var strTyp = types.Typ[types.String]

// statRest is s behind the first separator, statPart its k-th part. A value holds no "=" itself.
func statRest(s *Term, sep string) *Term {
	if sep == "=" {
		return statPart(s, sep, intT(1))
	}
	return appT(strTyp, "rest", s, strT(sep))
}

func isRest(t *Term, sep string) bool {
	return t.op == OApp && t.aux == "rest" && t.args[1] == strT(sep)
}

func statPart(s *Term, sep string, k *Term) *Term {
	for isRest(s, sep) {
		s = s.args[0]
		k = linT(k, 1)
	}
	return appT(strTyp, "part", s, strT(sep), k)
}

// isPart: t is part k of s (or everything from part k on, for the last part).
func isPart(t, s *Term, sep string, k int) bool {
	if t == statPart(s, sep, intT(int64(k))) {
		return true
	}
	for ; k > 0 && isRest(t, sep); k-- {
		t = t.args[0]
	}
	return k == 0 && t == s
}

func partCount(s *Term, sep string) *Term {
	n := int64(0)
	for isRest(s, sep) {
		s = s.args[0]
		n--
	}
	return linT(appT(types.Typ[types.Int], "count", s, strT(sep)), n)
}

type statsEnv struct {
	c      *Ctx
	sc     statsCall
	rules  map[string]bool
	e      *Engine
	own    []*types.Var // fields of the result itself, or of a dumped key
	single []*types.Var // fields of one slab class
	tableF *types.Var
	listF  *types.Var
	stored map[*types.Var]bool
	ends   int
	scans  map[*ssa.BasicBlock]bool
}

func (s *statsEnv) ob(st *State, rule string, in ssa.Instruction, ok bool, format string, a ...any) {
	if s.rules[rule] {
		s.e.Oblige(st, rule, in, ok, format, a...)
	}
}

func (s *statsEnv) fail(st *State, why string) {
	if st.mon["failed"] == "" {
		st.mon["failed"] = why
	}
}

// is: the path established that a equals the constant.
func (s *statsEnv) is(st *State, a *Term, k string) bool {
	v, known := s.e.evalBool(st, s.e.eqTerm(st, a, strT(k)))
	return v && known
}

// sayings gives the names established for parts of the current line.
func (s *statsEnv) sayings(st *State, f func(part *Term, name string)) {
	for c, v := range st.facts {
		if !v || c.op != OEq {
			continue
		}
		a, b := c.args[0], c.args[1]
		if a.op == OStr {
			a, b = b, a
		}
		if b.op == OStr && a.op == OApp {
			f(a, b.aux.(string))
		}
	}
}

// expected value of a field given the text of its statistic.
func (s *statsEnv) expected(st *State, f *types.Var, match func(v *Term) bool, text *Term) *Term {
	b := f.Type().Underlying().(*types.Basic)
	switch {
	case b.Info()&types.IsBoolean != 0:
		c := s.e.eqTerm(st, text, strT("yes"))
		if v, known := s.e.evalBool(st, c); known {
			return boolT(v)
		}
		return c
	case b.Info()&types.IsString != 0:
		return appT(strTyp, "unescaped", text)
	case b.Info()&types.IsUnsigned != 0:
		return appT(types.Typ[types.Uint64], "uint", text)
	}
	return appT(types.Typ[types.Int64], "int", text)
}

// equal compares a stored value with the expected one.
func (s *statsEnv) equal(st *State, got, want *Term, f *types.Var) bool {
	if got == want {
		return true
	}
	if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		g, k1 := s.e.evalBool(st, got)
		w, k2 := s.e.evalBool(st, want)
		return k1 && k2 && g == w
	}
	if want.op == OApp && want.aux == "uint" || want.op == OApp && want.aux == "int" {
		// the text behind a last separator may be named in two ways
		return got.op == OApp && got.aux == want.aux && s.sameText(got.args[0], want.args[0])
	}
	if want.op == OApp && want.aux == "unescaped" {
		return got.op == OApp && got.aux == "unescaped" && s.sameText(got.args[0], want.args[0])
	}
	return isIntType(f.Type()) && isIntTerm(got) && isIntTerm(want) && st.zone.eq(got, want)
}

func (s *statsEnv) sameText(a, b *Term) bool {
	if a == b {
		return true
	}
	if b.op == OApp && b.aux == "part" {
		if k, ok := b.args[2].isConstInt(); ok {
			return isPart(a, b.args[0], b.args[1].aux.(string), int(k))
		}
	}
	return false
}

// width: the number was parsed with the width of the field.
func (s *statsEnv) width(st *State, in ssa.Instruction, f *types.Var, v *Term) {
	if !isIntType(f.Type()) {
		return
	}
	s.ob(st, "width", in, !st.facts[appT(types.Typ[types.Bool], "narrow:"+strconv.FormatInt(s.c.p.sizeof(f.Type())*8, 10), v)],
		"%s is parsed with its full width", f.Name())
}

// read brings the expected fields up to date with what the path found out about the line.
func (s *statsEnv) read(st *State, in ssa.Instruction) {
	line := st.ghost["line"]
	if line.op == ONil {
		return
	}
	key := statPart(line, " ", intT(1))
	s.sayings(st, func(p *Term, name string) {
		if s.sc.dump {
			for kv := range dumpParts(st, line) {
				if !isPart(p, kv, "=", 0) {
					continue
				}
				for _, f := range s.own {
					if normStat(f.Name()) == normStat(name) {
						st.ghost["exp:"+f.Name()] = s.expected(st, f, nil, statPart(kv, "=", intT(1)))
					}
				}
			}
			return
		}
		if p == key {
			for _, f := range s.own {
				if normStat(f.Name()) == normStat(name) {
					v := s.expected(st, f, nil, statPart(line, " ", intT(2)))
					st.ghost["exp:"+f.Name()] = v
					s.stored[f] = true
					s.width(st, in, f, v)
				}
			}
		}
	})
	if s.sc.dump {
		for _, f := range s.own {
			v := st.ghost["exp:"+f.Name()]
			if v.op == OApp && (v.aux == "int" || v.aux == "uint" || v.aux == "unescaped") || isBoolType(f.Type()) && v.op != OSym && s.boolSaid(st, f) {
				s.stored[f] = true
				s.width(st, in, f, v)
			}
		}
	}
}

func (s *statsEnv) boolSaid(st *State, f *types.Var) bool {
	r := false
	s.sayings(st, func(p *Term, name string) { r = r || normStat(name) == normStat(f.Name()) })
	return r
}

// dumpParts: the key=value parts of the line that facts speak about.
func dumpParts(st *State, line *Term) map[*Term]bool {
	r := map[*Term]bool{}
	for c := range st.facts {
		if c.op != OEq {
			continue
		}
		for _, a := range c.args {
			for a.op == OApp && (a.aux == "part" || a.aux == "rest") {
				if a.aux == "part" && a.args[0] == line && a.args[1] == strT(" ") {
					r[a] = true
				}
				a = a.args[0]
			}
		}
	}
	return r
}

// shape notes that the name of a statistic has too few parts.
func (s *statsEnv) shape(st *State) {
	line := st.ghost["line"]
	if s.sc.table != "" && line.op != ONil && st.zone.lt(partCount(statPart(line, " ", intT(1)), ":"), intT(int64(s.sc.nmIdx)+1)) {
		st.mon["shape"] = "1"
	}
}

// settle judges the line that was read last; end is true when no more of it will be looked at.
func (s *statsEnv) settle(st *State, in ssa.Instruction, end bool) {
	e := s.e
	line := st.ghost["line"]
	if kv := st.ghost["kv"]; kv.op != ONil {
		if !st.zone.le(intT(2), partCount(kv, "=")) {
			s.fail(st, "malformed")
		}
		st.ghost["kv"] = nilT()
	}
	s.read(st, in)
	if line.op == ONil || !end {
		return
	}
	defer func() { st.ghost["line"] = nilT() }() // a line is judged once
	first := statPart(line, " ", intT(0))
	if s.is(st, line, "END") || s.is(st, first, "END") {
		st.mon["end"] = "1"
		return
	}
	if !s.sc.dump {
		if !s.is(st, first, "STAT") || !st.zone.le(intT(3), partCount(line, " ")) {
			s.fail(st, "malformed")
			st.mon["over"] = "1"
		}
	}
	if st.mon["failed"] != "" {
		return
	}
	if s.sc.dump {
		s.ob(st, "handed-over", in, st.mon["called"] == "1", "every dumped key is handed over once")
		return
	}
	if s.tableF == nil {
		return
	}
	// the statistic of one slab class
	key := statPart(line, " ", intT(1))
	cls := appT(types.Typ[types.Uint64], "uint", statPart(key, ":", intT(int64(s.sc.clsIdx))))
	_ = e
	s.sayings(st, func(p *Term, name string) {
		if !isPart(p, key, ":", s.sc.nmIdx) {
			return
		}
		for _, f := range s.single {
			if normStat(f.Name()) == normStat(name) {
				s.ob(st, "field", in, st.mon["upd"] == "1", "the statistic %s is stored", name)
			}
		}
	})
	if st.mon["upd"] == "" {
		s.ob(st, "listed", in, st.mon["app"] == "", "only a slab class with a statistic is listed")
		return
	}
	m, k := st.ghost["table"], st.ghost["key"]
	s.ob(st, "class", in, s.equal(st, k, cls, s.single[0]), "the statistic belongs to the slab class on its line")
	var cur *Term
	for a, v := range st.heap {
		if a.op == OApp && a.aux == "mapelem" && a.args[0] == m && a.args[1] == k {
			cur = v
		}
	}
	if cur == nil || cur.op != OStruct {
		s.ob(st, "field", in, false, "the stored statistics of a slab class are not known (undecided)")
		return
	}
	want := map[*types.Var]*Term{}
	s.sayings(st, func(p *Term, name string) {
		if isPart(p, key, ":", s.sc.nmIdx) {
			for _, f := range s.single {
				if normStat(f.Name()) == normStat(name) {
					want[f] = s.expected(st, f, nil, statPart(line, " ", intT(2)))
				}
			}
		}
	})
	prev := st.ghost["prev"]
	for i, f := range structFields(s.c.p.typ("stats", s.sc.table)) {
		got := cur.args[i]
		if w := want[f]; w != nil {
			s.stored[f] = true
			s.ob(st, "field", in, s.equal(st, got, w, f), "%s is the value of its statistic", f.Name())
			s.width(st, in, f, w)
			continue
		}
		old := s.e.zero(f.Type())
		if prev.op == OStruct {
			old = prev.args[i]
		}
		ok := got == old || st.mon["was"] == "absent" && got == s.e.zero(f.Type())
		s.ob(st, "field", in, ok, "%s stays as it was", f.Name())
	}
	switch st.mon["was"] {
	case "absent":
		s.ob(st, "listed", in, st.mon["app"] == "1" && st.ghost["appended"] == k, "a new slab class is listed once")
	case "present":
		s.ob(st, "listed", in, st.mon["app"] == "", "a known slab class is not listed again")
	default:
		s.ob(st, "listed", in, false, "a slab class is stored without knowing whether it is listed (undecided)")
	}
}

func (p *Program) sizeof(t types.Type) int64 {
	return types.SizesFor("gc", "amd64").Sizeof(t)
}

// c24Reads: the function reads lines itself.
func c24Reads(p *Program, fn *ssa.Function) bool {
	if !p.inRepo(fn) {
		return false
	}
	for n := range p.effects(fn).calls {
		if isScan(n) {
			return true
		}
	}
	return false
}

func isScan(name string) bool { return name == "(*bufio.Scanner).Scan" }

// scanLoop: the loop of the header reads lines.
func (s *statsEnv) scanLoop(h *ssa.BasicBlock) bool {
	if r, ok := s.scans[h]; ok {
		return r
	}
	r := false
	if l := s.e.loopsOf(h.Parent())[h]; l != nil {
		for b := range l.body {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if fn := call.Common().StaticCallee(); fn != nil {
						if isScan(fn.String()) {
							r = true
						} else {
							r = r || c24Reads(s.c.p, fn)
						}
					}
				}
			}
		}
	}
	s.scans[h] = r
	return r
}

func runStats(c *Ctx, rules map[string]bool) {
	for _, sc := range statsCalls {
		fn := c.fn("stats.(Client)." + sc.name)
		if fn == nil {
			continue
		}
		s := &statsEnv{c: c, sc: sc, rules: rules, stored: map[*types.Var]bool{}, scans: map[*ssa.BasicBlock]bool{}}
		s.own = statFields(c.p.typ("stats", sc.typ))
		if sc.table != "" {
			s.single = statFields(c.p.typ("stats", sc.table))
			for _, f := range structFields(c.p.typ("stats", sc.typ)) {
				switch f.Type().Underlying().(type) {
				case *types.Map:
					s.tableF = f
				case *types.Slice:
					s.listF = f
				}
			}
			if s.tableF == nil || s.listF == nil || len(s.single) == 0 {
				c.obFn("decided", fn, false, "the table of slab classes was not found (undecided)")
				continue
			}
		} else if len(s.own) == 0 {
			c.obFn("decided", fn, false, "the fields of the result were not found (undecided)")
			continue
		}
		s.run(fn)
	}
}

func (s *statsEnv) fork(st *State, e *Engine, ok, bad *Term, fail func(st *State)) []CallOut {
	s2 := st.clone()
	err := e.newValue(s2, types.Universe.Lookup("error").Type(), "err")
	s2.facts[eqT(err, nilT())] = false
	fail(s2)
	return []CallOut{{st, tupleT(ok, nilT())}, {s2, tupleT(bad, err)}}
}

func (s *statsEnv) call(e *Engine, st *State, ci *CallInfo) ([]CallOut, bool) {
	str := func(i int) (string, bool) {
		if i < len(ci.Args) && ci.Args[i].op == OStr {
			return ci.Args[i].aux.(string), true
		}
		return "", false
	}
	it := types.Typ[types.Int]
	s.shape(st)
	if ci.Callee != nil && c24Reads(s.c.p, ci.Callee) {
		s.settle(st, ci.Site, true)
	}
	list := func(st *State, src *Term, sep string, limit int64, min int64) *Term {
		base := appT(types.NewPointer(strTyp), "parts", src, strT(sep), intT(limit))
		n := partCount(src, sep)
		st.zone.assumeLe(intT(min), n, 0)
		if limit > 0 {
			if st.zone.le(intT(limit), n) {
				n = intT(limit)
			}
		}
		if sep == "=" {
			st.ghost["kv"] = src
		}
		return sliceT(types.NewSlice(strTyp), base, intT(0), n, n)
	}
	write := func(text []Tok) []CallOut {
		toks := joinLits(text)
		ok := len(toks) == 1 && toks[0].kind == "lit" && toks[0].lit == s.sc.command && st.mon["wrote"] == ""
		s.ob(st, "command", ci.Site, ok, "exactly the command %q is written", s.sc.command)
		st.mon["wrote"] = "1"
		return okErr(e, st, ci, nil, func(st *State) { s.fail(st, "write") })
	}
	switch ci.Name {
	case "strings.Fields":
		return one(st, list(st, ci.Args[0], " ", 0, 0)), true
	case "strings.Split":
		if sep, ok := str(1); ok {
			return one(st, list(st, ci.Args[0], sep, 0, 1)), true
		}
	case "strings.SplitN":
		if sep, ok := str(1); ok {
			if k, c := ci.Args[2].isConstInt(); c && k > 0 {
				n, s2 := partCount(ci.Args[0], sep), st.clone()
				st.zone.assumeLe(n, intT(k), -1) // fewer parts than the limit
				s2.zone.assumeLe(intT(k), n, 0)
				var r []CallOut
				for _, x := range []*State{st, s2} {
					if v := list(x, ci.Args[0], sep, k, 1); !x.zone.bottom {
						r = append(r, CallOut{x, v})
					}
				}
				return r, true
			}
		}
	case "strings.Cut":
		if sep, ok := str(1); ok {
			if x, c := str(0); c {
				a, b, f := strings.Cut(x, sep)
				return one(st, tupleT(strT(a), strT(b), boolT(f))), true
			}
			if sep == "=" {
				st.ghost["kv"] = ci.Args[0]
			}
			n := partCount(ci.Args[0], sep)
			s2 := st.clone()
			st.zone.assumeLe(intT(2), n, 0)
			s2.zone.assumeLe(n, intT(1), 0)
			s2.zone.assumeLe(intT(1), n, 0)
			var r []CallOut
			if !st.zone.bottom {
				r = append(r, CallOut{st, tupleT(statPart(ci.Args[0], sep, intT(0)), statRest(ci.Args[0], sep), boolT(true))})
			}
			if !s2.zone.bottom {
				r = append(r, CallOut{s2, tupleT(ci.Args[0], strT(""), boolT(false))})
			}
			return r, true
		}
	case "strings.TrimPrefix":
		if p, ok := str(1); ok && strings.HasSuffix(p, ":") {
			return one(st, statRest(ci.Args[0], ":")), true
		}
	case "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
		t, name, base, bits := types.Typ[types.Int64], "int", int64(10), int64(64)
		if ci.Name != "strconv.Atoi" {
			k, ok1 := ci.Args[1].isConstInt()
			b, ok2 := ci.Args[2].isConstInt()
			if !ok1 || !ok2 {
				break
			}
			base, bits = k, b
		} else {
			t = it
		}
		if bits == 0 {
			bits = 64
		}
		if ci.Name == "strconv.ParseUint" {
			t, name = types.Typ[types.Uint64], "uint"
		}
		if base != 10 {
			name += strconv.FormatInt(base, 10)
		}
		v := appT(t, name, ci.Args[0])
		if t == it {
			v = appT(types.Typ[types.Int64], name, ci.Args[0])
		}
		outs := s.fork(st, e, v, e.newValue(st, t, "bad"), func(st *State) {
			s.fail(st, "number")
			st.mon["numfail"] = "1"
		})
		if name == "uint" {
			st.zone.assumeLe(intT(0), v, 0)
			if bits < 63 {
				st.zone.assumeLe(v, intT(int64(1)<<uint(bits)-1), 0)
			}
		} else if bits < 64 {
			st.zone.assumeLe(v, intT(int64(1)<<uint(bits-1)-1), 0)
			st.zone.assumeLe(intT(-(int64(1) << uint(bits-1))), v, 0)
		}
		for _, w := range []int64{8, 16, 32, 64} {
			if bits < w {
				st.facts[appT(types.Typ[types.Bool], "narrow:"+strconv.FormatInt(w, 10), v)] = true
			}
		}
		return outs, true
	case "net/url.PathUnescape":
		return s.fork(st, e, appT(strTyp, "unescaped", ci.Args[0]), strT(""), func(st *State) { s.fail(st, "escape") }), true
	case "(*bufio.Scanner).Scan":
		s.settle(st, ci.Site, true)
		s.ob(st, "own-reply", ci.Site, st.mon["sent"] == "1" && st.mon["end"] == "", "only the reply to the command of this call is read, up to its END")
		s2 := st.clone()
		line := e.newValue(st, strTyp, "line")
		st.ghost["line"] = line
		st.ghost["err"] = nilT()
		st.mon["called"], st.mon["upd"], st.mon["app"], st.mon["was"] = "", "", "", ""
		st.ghost["prev"], st.ghost["table"], st.ghost["key"] = nilT(), nilT(), nilT()
		if s.sc.dump {
			for _, f := range s.own {
				st.ghost["exp:"+f.Name()] = e.zero(f.Type())
			}
		}
		s2.ghost["line"] = nilT()
		s3 := s2.clone()
		s2.ghost["err"] = nilT()
		s.fail(s2, "closed")
		s2.mon["over"] = "1"
		err := e.newValue(s3, types.Universe.Lookup("error").Type(), "readErr")
		s3.facts[eqT(err, nilT())] = false
		s3.ghost["err"] = err
		s.fail(s3, "read")
		s3.mon["over"] = "1"
		return []CallOut{{st, boolT(true)}, {s2, boolT(false)}, {s3, boolT(false)}}, true
	case "(*bufio.Scanner).Text":
		if l := st.ghost["line"]; l.op != ONil {
			return one(st, l), true
		}
		return one(st, strT("")), true
	case "(*bufio.Scanner).Err":
		return one(st, st.ghost["err"]), true
	case "io.WriteString":
		return write(e.toks(st, ci.Args[1])), true
	}
	if strings.HasPrefix(ci.Name, "invoke:") {
		switch shortCall(ci) {
		case "Write":
			if len(ci.Args) == 2 {
				return write(e.toks(st, ci.Args[1])), true
			}
		case "Flush":
			return okErr(e, st, ci, func(st *State) {
				if st.mon["wrote"] == "1" {
					st.mon["sent"] = "1"
				}
			}, func(st *State) { s.fail(st, "write") }), true
		}
	}
	if ci.Name == "dynamic" && s.sc.dump && ci.Fn == st.ghost["scan"] && len(ci.Args) == 1 {
		s.settle(st, ci.Site, false)
		s.ob(st, "handed-over", ci.Site, st.mon["called"] == "" && st.ghost["line"].op != ONil && st.mon["end"] == "" && !s.is(st, st.ghost["line"], "END"), "a dumped key is handed over once, for a line of the dump")
		st.mon["called"] = "1"
		if st.mon["failed"] == "" {
			s.compare(st, ci.Site, ci.Args[0])
		} else {
			s.ob(st, "handed-over", ci.Site, false, "no record of a line that was not understood is handed over")
		}
		return one(st, tupleT()), true
	}
	return nil, false
}

func (s *statsEnv) compare(st *State, in ssa.Instruction, v *Term) {
	t := s.c.p.typ("stats", s.sc.typ)
	if v.op != OStruct {
		s.ob(st, "field", in, false, "the record is not known (undecided)")
		return
	}
	for i, f := range structFields(t) {
		if w := st.ghost["exp:"+f.Name()]; w != nil {
			s.ob(st, "field", in, s.equal(st, v.args[i], w, f), "%s is the value of its statistic", f.Name())
		}
	}
}

func (s *statsEnv) run(fn *ssa.Function) {
	c := s.c
	e := c.engine(Hooks{
		Call: s.call,
		Load: func(e *Engine, st *State, in ssa.Instruction, addr *Term) {
			if addr.op == OGlobal {
				g := addr.aux.(*ssa.Global)
				if isErrorType(derefType(g.Type())) && (g.Pkg == nil || !c.p.repoPkgs[g.Pkg.Pkg]) {
					st.facts[eqT(e.load(st, addr, derefType(g.Type())), nilT())] = false // io.EOF and the like
				}
			}
			if addr.op == OIA && addr.args[0].op == OApp && addr.args[0].aux == "parts" {
				b := addr.args[0]
				sep, limit := b.args[1].aux.(string), b.args[2]
				v := statPart(b.args[0], sep, addr.args[1])
				if k, _ := limit.isConstInt(); k > 0 {
					i, ok := addr.args[1].isConstInt()
					if !ok {
						v = e.newValue(st, strTyp, "part")
					} else if i == k-1 {
						v = b.args[0]
						for ; i > 0; i-- {
							v = statRest(v, sep)
						}
					}
				}
				st.heap[addr] = v
			}
		},
		Store: func(e *Engine, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op != OApp || addr.aux != "mapelem" || s.sc.table == "" || !types.Identical(derefType(addr.typ), c.p.typ("stats", s.sc.table)) {
				return
			}
			if st.mon["upd"] == "" {
				st.ghost["prev"] = nilT()
				if v := st.heap[addr]; v != nil {
					st.ghost["prev"] = v
				}
				st.mon["was"] = ""
				if p := st.heap[appT(types.NewPointer(types.Typ[types.Bool]), "mappresent", addr.args[0], addr.args[1])]; p != nil {
					if v, known := e.evalBool(st, p); known && v {
						st.mon["was"] = "present"
					} else if known {
						st.mon["was"] = "absent"
					}
				}
			} else {
				s.ob(st, "class", in, st.ghost["key"] == addr.args[1], "one line changes one slab class")
			}
			st.mon["upd"] = "1"
			s.ob(st, "same-table", in, addr.args[0].op == OAlloc && (st.mon["table"] == "" || st.mon["table"] == addr.args[0].String()), "all statistics go to one table")
			st.mon["table"] = addr.args[0].String()
			st.ghost["table"], st.ghost["key"] = addr.args[0], addr.args[1]
		},
		Append: func(e *Engine, st *State, in ssa.Instruction, base, add, r *Term) {
			if s.listF == nil || !types.Identical(r.typ, s.listF.Type()) {
				return
			}
			n, ok := add.args[2].isConstInt()
			if base != st.ghost["list"] || !ok || n != 1 {
				return
			}
			el := s.listF.Type().Underlying().(*types.Slice).Elem()
			st.ghost["appended"] = e.load(st, iaT(el, add.args[0], add.args[1]), el)
			st.mon["app"] += "1"
			st.ghost["list"] = r
		},
		BackEdge: func(e *Engine, st *State, header, pred *ssa.BasicBlock, head *State) {
			s.settle(st, pred.Instrs[len(pred.Instrs)-1], s.scanLoop(header))
		},
		Bounds: func(e *Engine, st *State, in ssa.Instruction, what string, ok bool) {
			s.ob(st, "in-range", in, ok, "%s is in range", what)
		},
	})
	s.e = e
	e.Opaque = func(fn *ssa.Function) bool { return false }
	outs := e.RunFresh(fn, func(st *State, a []*Term) {
		st.facts[eqT(a[0], nilT())] = false
		for _, f := range s.own {
			st.ghost["exp:"+f.Name()] = e.zero(f.Type())
		}
		for _, g := range []string{"line", "err", "kv", "prev", "table", "key", "appended", "list", "scan"} {
			st.ghost[g] = nilT()
		}
		if s.listF != nil {
			st.ghost["list"] = nilSlice(s.listF.Type())
		}
		if s.sc.dump {
			st.ghost["scan"] = a[1]
		}
	})
	good, bad := 0, 0
	for _, o := range outs {
		st := o.St
		if o.Panic {
			s.ob(st, "no-panic", o.Instr, false, "the call panics")
			continue
		}
		err := o.Res[len(o.Res)-1]
		v, known := e.evalBool(st, e.eqTerm(st, err, nilT()))
		isErr := known && !v
		line, kv := st.ghost["line"], st.ghost["kv"]
		if !isErr {
			good++
			s2 := st.clone()
			s.settle(s2, o.Instr, true)
			s.ob(s2, "success", o.Instr, s2.mon["sent"] == "1" && s2.mon["failed"] == "" && s2.mon["end"] == "1", "a nil error is returned only if the command was written and the whole reply was read and understood (%s)", s2.mon["failed"])
		}
		if isErr || !known {
			bad++
			// the reasons there can be
			s.shape(st)
			why := st.mon["failed"] != "" || st.mon["shape"] != ""
			if line.op != ONil && !s.is(st, line, "END") && !s.is(st, statPart(line, " ", intT(0)), "END") {
				why = why || kv.op != ONil && st.zone.lt(partCount(kv, "="), intT(2))
				if !s.sc.dump {
					f, k := e.evalBool(st, e.eqTerm(st, statPart(line, " ", intT(0)), strT("STAT")))
					why = why || k && !f || st.zone.lt(partCount(line, " "), intT(3))
				}
			}
			s.ob(st, "false-error", o.Instr, why, "an error is returned only if something failed")
			if st.mon["numfail"] == "1" {
				over := st.mon["end"] == "1" || st.mon["over"] == "1"
				if line.op != ONil {
					first := statPart(line, " ", intT(0))
					over = over || s.is(st, line, "END") || s.is(st, first, "END")
					if s.sc.dump {
						p, k := e.evalBool(st, appT(types.Typ[types.Bool], "hasprefix", line, strT("key=")))
						over = over || k && !p
					} else {
						f, k := e.evalBool(st, e.eqTerm(st, first, strT("STAT")))
						over = over || k && !f || st.zone.lt(partCount(line, " "), intT(3))
					}
				}
				s.ob(st, "consumed", o.Instr, over, "after a number that cannot be parsed the rest of the reply is read")
			}
			continue
		}
		s.settle(st, o.Instr, true)
		if s.sc.dump || st.mon["failed"] != "" {
			continue
		}
		r := o.Res[0]
		s.compare(st, o.Instr, r)
		if s.tableF != nil && r.op == OStruct {
			for i, f := range structFields(c.p.typ("stats", s.sc.typ)) {
				switch f {
				case s.tableF:
					s.ob(st, "same-table", o.Instr, st.mon["table"] == "" || st.mon["table"] == r.args[i].String(), "the table returned is the one the statistics went to")
				case s.listF:
					s.ob(st, "listed", o.Instr, st.ghost["list"] == r.args[i], "the list returned has every slab class that was added")
				}
			}
		}
	}
	c.finish(e, fn)
	if s.rules["covered"] {
		for _, f := range append(append([]*types.Var{}, s.own...), s.single...) {
			c.obFn("covered", fn, s.stored[f], "%s.%s comes from its statistic", s.sc.typ, f.Name())
		}
	}
	c.obFn("decided", fn, good > 0 && bad > 0, "%s can succeed and fail (%d, %d)", s.sc.name, good, bad)
}
