package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID   string
	Rule string // what is decided, for the evidence
	Run  func(c *Ctx)
}

var checks = map[string]*Check{}

func register(id, rule string, run func(c *Ctx)) {
	checks[id] = &Check{ID: id, Rule: rule, Run: run}
}

// Finding is a violation of a rule at a construct.
type Finding struct {
	Rule, Where, Func, Msg string
	Path                   []string
}

// Key identifies the finding independently of line numbers.
func (f *Finding) Key() string { return f.Rule + " | " + f.Func + " | " + f.Msg }

// Ctx collects the results of a check.
type Ctx struct {
	p     *Program
	id    string
	tier  string
	start time.Time

	finds map[string]*Finding        // of finished analyses
	obl   map[string]map[string]bool // rule -> constructs
	cur   map[string]*Finding        // of the running analysis
	curO  map[string]map[string]bool
	bag   map[string]any // data collected by observers, reset each round

	fns      map[string]bool
	roots    map[string]bool
	steps    int
	states   int
	analyses []string
	notes    []string
	assume   []string
}

func newCtx(p *Program, id, tier string) *Ctx {
	return &Ctx{p: p, id: id, tier: tier, start: time.Now(), finds: map[string]*Finding{}, obl: map[string]map[string]bool{},
		fns: map[string]bool{}, roots: map[string]bool{}, cur: map[string]*Finding{}, curO: map[string]map[string]bool{}, bag: map[string]any{}}
}

// engine creates an engine with evaluated package initialisers.
func (c *Ctx) engine(obs ...Observer) *Engine {
	e := newEngine(c.p)
	e.join = true
	e.runInits()
	e.obs = obs
	return e
}

// explore runs an analysis; findings of incomplete rounds are discarded.
func (c *Ctx) explore(name string, e *Engine, setup func() []*State) {
	c.merge()
	prev := e.onRound
	e.onRound = func() {
		c.cur = map[string]*Finding{}
		c.curO = map[string]map[string]bool{}
		c.bag = map[string]any{}
		if prev != nil {
			prev()
		}
	}
	e.explore(setup)
	e.onRound = prev
	c.steps += e.steps
	c.states += e.states
	c.analyses = append(c.analyses, fmt.Sprintf("%s: %d roots, %d instructions interpreted, %d rounds", name, len(e.rootsSeen), e.steps, e.restarts+1))
	for f := range e.fnsSeen {
		c.fns[shortFn(f)] = true
	}
	for r := range e.rootsSeen {
		c.roots[r] = true
	}
	if e.over {
		c.failAt("undecided", name, name, "%s", "the analysis of "+name+" was not completed within its budget")
	}
	for _, m := range e.missing {
		c.failAt("anchor", name, name, "%s", m)
	}
	for _, m := range sortedKeys(e.cuts) {
		c.failAt("undecided", name, m, "%s", "recursion of "+m+" is too deep to be analysed")
	}
}

// merge takes over the results of the finished analysis.
func (c *Ctx) merge() {
	for k, f := range c.cur {
		c.finds[k] = f
	}
	for r, m := range c.curO {
		for k := range m {
			c.addObl(c.obl, r, k)
		}
	}
	c.cur = map[string]*Finding{}
	c.curO = map[string]map[string]bool{}
}

func (c *Ctx) addObl(o map[string]map[string]bool, rule, key string) {
	if o[rule] == nil {
		o[rule] = map[string]bool{}
	}
	o[rule][key] = true
}

// fail reports a violation on the path of st.
func (c *Ctx) fail(st *State, rule string, site ssa.Instruction, format string, args ...any) {
	if st != nil {
		st.e.debugDump(st, rule)
	}
	f := &Finding{Rule: rule, Msg: fmt.Sprintf(format, args...), Where: "?"}
	if site != nil {
		f.Where = c.p.Pos(site.Pos())
		if site.Parent() != nil {
			f.Func = shortFn(site.Parent())
		}
	}
	if st != nil {
		f.Path = st.path(60)
	}
	k := f.Key() + f.Where
	if old := c.cur[k]; old == nil || len(old.Path) > len(f.Path) {
		c.cur[k] = f
	}
}

// failAt reports a violation that isn't tied to a path.
func (c *Ctx) failAt(rule, where, fn, format string, args ...any) {
	f := &Finding{Rule: rule, Msg: fmt.Sprintf(format, args...), Where: where, Func: fn}
	c.cur[f.Key()+f.Where] = f
}

// oblige counts a checked construct.
func (c *Ctx) oblige(rule string, site ssa.Instruction, key string) {
	if site != nil {
		key = c.p.Pos(site.Pos()) + " " + key
	}
	c.addObl(c.curO, rule, key)
}

// need fails if fewer constructs than expected were found.
func (c *Ctx) need(rule string, min int) {
	c.merge()
	if n := len(c.obl[rule]); n < min {
		c.failAt("instances", rule, rule, "only %d instances of rule %s were found, expected at least %d", n, rule, min)
		c.merge()
	}
}

func (c *Ctx) note(format string, args ...any) {
	c.notes = append(c.notes, fmt.Sprintf(format, args...))
}

func (c *Ctx) assumes(s string) { c.assume = append(c.assume, s) }

// finish prints the results, writes the evidence and returns the exit code.
func (c *Ctx) finish(verif string, ck *Check) int {
	c.merge()
	known := map[string]bool{}
	if b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "known: property="+c.id+" ") {
				known[strings.TrimSpace(strings.TrimPrefix(l, "known: property="+c.id+" "))] = true
			}
		}
	}
	keys := sortedKeys(c.finds)
	code := 0
	var rep strings.Builder
	viol := 0
	for _, k := range keys {
		f := c.finds[k]
		if known[f.Key()] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, f.Key())
			continue
		}
		viol++
		fmt.Fprintf(&rep, "rule:     %s\nwhere:    %s (%s)\nviolation: %s\n", f.Rule, f.Where, f.Func, f.Msg)
		if len(f.Path) > 0 {
			rep.WriteString("path:\n")
			for _, l := range f.Path {
				rep.WriteString("    " + l + "\n")
			}
		}
		rep.WriteString("\n")
	}
	evd := filepath.Join(verif, "evidence")
	os.MkdirAll(evd, 0755)
	if viol > 0 {
		code = 1
		rp := filepath.Join("evidence", c.id+".violations.txt")
		os.WriteFile(filepath.Join(verif, rp), []byte(rep.String()), 0644)
		fmt.Print(rep.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
	} else {
		os.Remove(filepath.Join(evd, c.id+".violations.txt"))
	}
	total := 0
	rules := map[string]any{}
	var samples []string
	for _, r := range sortedKeys(c.obl) {
		ks := sortedKeys(c.obl[r])
		total += len(ks)
		rules[r] = len(ks)
		if len(ks) > 0 && len(samples) < 25 {
			samples = append(samples, r+": "+ks[0])
			if len(ks) > 1 {
				samples = append(samples, r+": "+ks[len(ks)-1])
			}
		}
	}
	fns := sortedKeys(c.fns)
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": 1, "level": "other",
		"wall_s":     time.Since(c.start).Seconds(),
		"violations": viol,
		"coverage": map[string]any{
			"explanation":           "Static analysis of the type-checked SSA form of the current working tree of /repo: " + ck.Rule,
			"rule":                  ck.Rule,
			"obligations":           total,
			"discharged":            max(0, total-viol),
			"obligations_by_rule":   rules,
			"samples":               samples,
			"analyses":              c.analyses,
			"abstract_states":       c.states,
			"instructions":          c.steps,
			"entry_points":          sortedKeys(c.roots),
			"functions_analysed":    len(fns),
			"functions":             fns,
			"notes":                 c.notes,
			"repository_functions":  len(c.p.Funcs),
			"repository_packages":   sortedKeys(c.p.Pkgs),
			"undecided_obligations": 0,
		},
		"assumptions": append([]string{
			"integers do not exceed 2^62, lengths do not exceed 2^31-1",
			"user code behind the public interfaces does not modify unexported state of the server",
			"functions of the standard library and of vendored packages behave as documented",
		}, c.assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evd, c.id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	if code == 0 {
		fmt.Printf("%s: held: %d obligations in %d functions, %d entry points (%.1fs)\n", c.id, total, len(fns), len(c.roots), time.Since(c.start).Seconds())
	}
	return code
}

func sortedList(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
