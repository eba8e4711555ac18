package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	id   string
	rule string // what is required, in one or two sentences
	not  string // what the check does not cover
	min  int    // least number of obligations on the confirmed tree
	run  func(c *Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.id] = c }

// Ctx collects what one check analysed and found.
type Ctx struct {
	id      string
	p       *Program
	tier    string
	obls    []Obligation
	funcs   map[string]bool
	entries []string
	opaque  map[string]bool
	steps   int
	paths   int
	loops   int
	notes   []string
	summary map[string]any
}

func newCtx(id string, p *Program, tier string) *Ctx {
	return &Ctx{id: id, p: p, tier: tier, funcs: map[string]bool{}, opaque: map[string]bool{}, summary: map[string]any{}}
}

// ob records an obligation at an instruction (or at a function when in is nil).
func (c *Ctx) ob(rule string, in ssa.Instruction, ok bool, format string, a ...any) {
	o := Obligation{Rule: rule, OK: ok, Msg: fmt.Sprintf(format, a...)}
	if in != nil {
		o.Pos = c.p.pos(in)
		o.Fn = in.Parent().String()
	}
	c.obls = append(c.obls, o)
}

// obFn records an obligation about a whole function.
func (c *Ctx) obFn(rule string, fn *ssa.Function, ok bool, format string, a ...any) {
	o := Obligation{Rule: rule, OK: ok, Msg: fmt.Sprintf(format, a...)}
	if fn != nil {
		o.Pos = c.p.fnPos(fn)
		o.Fn = fn.String()
	}
	c.obls = append(c.obls, o)
}

// fn resolves an anchor; a missing anchor is a failed obligation.
func (c *Ctx) fn(name string) *ssa.Function {
	f := c.p.fn(name)
	if f == nil {
		c.obls = append(c.obls, Obligation{Rule: "anchor", OK: false, Fn: name, Msg: "function not found in the current source (undecided)"})
		return nil
	}
	if c.p.inHarness(f) {
		return f
	}
	return f
}

// harness resolves a driver function.
func (c *Ctx) harness(name string) *ssa.Function {
	f := c.p.fn(name)
	if f == nil {
		msg := "driver " + name + " does not fit the current source (undecided)"
		if c.p.harnessErr != nil {
			msg += ": " + c.p.harnessErr.Error()
		}
		c.obls = append(c.obls, Obligation{Rule: "anchor", OK: false, Fn: name, Msg: msg})
	}
	return f
}

func (c *Ctx) engine(h Hooks) *Engine { return newEngine(c.p, h) }

// finish takes over what an engine run found.
func (c *Ctx) finish(e *Engine, entry *ssa.Function) {
	c.obls = append(c.obls, e.obls...)
	e.obls = nil
	if e.incomplete != "" {
		c.obls = append(c.obls, Obligation{Rule: "complete", OK: false, Fn: entry.String(), Pos: c.p.fnPos(entry), Msg: "undecided: " + e.incomplete})
		e.incomplete = ""
	}
	for f := range e.FuncsSeen {
		if !c.p.inHarness(f) {
			c.funcs[f.String()] = true
		}
	}
	for n := range e.OpaqueSeen {
		c.opaque[n] = true
	}
	c.entries = append(c.entries, short(entry.String()))
	c.steps += e.steps
	c.paths += e.Paths
	c.loops += e.LoopPasses
	e.steps, e.Paths, e.LoopPasses = 0, 0, 0
}

func short(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }

type oblGroup struct {
	Rule  string   `json:"rule"`
	Fn    string   `json:"function"`
	Pos   string   `json:"position"`
	OK    bool     `json:"ok"`
	Msg   string   `json:"message"`
	Path  []string `json:"path,omitempty"`
	Times int      `json:"paths"`
}

func (c *Ctx) groups() []*oblGroup {
	m := map[string]*oblGroup{}
	var ks []string
	for _, o := range c.obls {
		k := o.Rule + "\x00" + o.Pos
		if o.Pos == "" {
			k += "\x00" + o.Fn + "\x00" + o.Msg
		}
		g := m[k]
		if g == nil {
			g = &oblGroup{Rule: o.Rule, Fn: short(o.Fn), Pos: o.Pos, OK: true, Msg: short(o.Msg)}
			m[k] = g
			ks = append(ks, k)
		}
		g.Times++
		if !o.OK && g.OK {
			g.OK, g.Msg, g.Fn, g.Path = false, short(o.Msg), short(o.Fn), o.Path
		}
	}
	sort.Strings(ks)
	var res []*oblGroup
	for _, k := range ks {
		res = append(res, m[k])
	}
	return res
}

// knownFindings reads the committed list: lines "finding: property=<id> rule=<rule> function=<fn> <text>".
func knownFindings(dir, id string) []string {
	b, err := os.ReadFile(filepath.Join(dir, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var res []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+id+" ") {
			res = append(res, strings.TrimPrefix(l, "finding: property="+id+" "))
		}
	}
	return res
}

func runCheck(ck *Check, p *Program, tier string) (c *Ctx) {
	c = newCtx(ck.id, p, tier)
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Println(r, string(debug.Stack()))
			}
			st := strings.Split(string(debug.Stack()), "\n")
			w := ""
			for i, l := range st {
				if strings.Contains(l, "panic(") && i+3 < len(st) {
					w = strings.TrimSpace(st[i+3])
				}
			}
			c.obls = append(c.obls, Obligation{Rule: "internal", OK: false, Msg: fmt.Sprintf("undecided: the analysis failed: %v %s", r, w)})
		}
	}()
	ck.run(c)
	return c
}

// report prints the verdict, writes evidence and the report, and gives the exit code.
func report(ck *Check, c *Ctx, dir string, start time.Time) int {
	gs := c.groups()
	good, bad := 0, []*oblGroup{}
	for _, g := range gs {
		if g.OK {
			good++
		} else {
			bad = append(bad, g)
		}
	}
	if len(bad) == 0 && len(gs) < ck.min {
		bad = append(bad, &oblGroup{Rule: "instances", Msg: fmt.Sprintf("only %d rule instances found, at least %d were confirmed by hand: the rule no longer sees the code it is about", len(gs), ck.min)})
	}
	known := knownFindings(dir, ck.id)
	var viol []*oblGroup
	for _, g := range bad {
		hit := ""
		for _, k := range known {
			f := strings.Fields(k)
			if len(f) >= 2 && f[0] == "rule="+g.Rule && f[1] == "function="+strings.ReplaceAll(g.Fn, " ", "_") {
				hit = k
			}
		}
		if hit != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.id, hit)
			continue
		}
		viol = append(viol, g)
	}
	var fl []string
	for f := range c.funcs {
		fl = append(fl, short(f))
	}
	sort.Strings(fl)
	var op []string
	for f := range c.opaque {
		op = append(op, short(f))
	}
	sort.Strings(op)
	sort.Strings(c.entries)
	perRule := map[string]int{}
	for _, g := range gs {
		perRule[g.Rule]++
	}
	var samples []any
	for i, g := range gs {
		if i%(len(gs)/8+1) == 0 {
			samples = append(samples, g)
		}
	}
	cov := map[string]any{
		"explanation": ck.rule + " NOT COVERED: " + ck.not,
		"obligations": len(gs), "discharged": good,
		"rule_instances": perRule,
		"functions":      fl, "functions_analysed": len(fl),
		"entry_points":     c.entries,
		"paths":            c.paths,
		"loop_passes":      c.loops,
		"abstract_steps":   c.steps,
		"calls_summarised": op,
		"samples":          samples,
	}
	for k, v := range c.summary {
		cov[k] = v
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{
		"property": ck.id, "tier": c.tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
		"assumptions": []string{"see DESIGN.md, section Assumptions"},
	}
	_ = os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", ck.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	fmt.Printf("property=%s obligations=%d discharged=%d functions=%d paths=%d wall=%.1fs\n", ck.id, len(gs), good, len(fl), c.paths, time.Since(start).Seconds())
	if len(viol) == 0 {
		return 0
	}
	rp := filepath.Join(dir, "evidence", ck.id+".report.txt")
	var sb strings.Builder
	for _, g := range viol {
		fmt.Fprintf(&sb, "%s: rule %s in %s: %s (on %d analysed paths)\n", g.Pos, g.Rule, g.Fn, g.Msg, g.Times)
		for _, s := range g.Path {
			sb.WriteString("    " + s + "\n")
		}
	}
	_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", ck.id, rp)
	return 1
}
