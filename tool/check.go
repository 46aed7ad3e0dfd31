package main

// Check framework: obligations, reports, evidence, known findings.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Check struct {
	ID    string
	Title string
	Rules string // what is decided, for the evidence file
	Trust []string
	Run   func(c *Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type obligation struct {
	rule, construct, pos, msg string
	ok                        bool
}

type Ctx struct {
	id       string
	tier     string
	seed     int
	obl      map[string]*obligation
	order    []string
	funcs    map[string]bool
	counters map[string]int
	mins     map[string]int
	progs    map[string]*GoProg
	ts       *TSProg
	verif    string
	configs  []string
	notes    []string
}

func (c *Ctx) thorough() bool { return c.tier == "thorough" }

// Prog loads the Go program in a build configuration.
func (c *Ctx) Prog(tags, goos string) *GoProg {
	k := tags + "|" + goos
	if g, ok := c.progs[k]; ok {
		return g
	}
	g, err := loadGo(repoRoot(), tags, goos)
	if err != nil {
		c.Obl("load", "go program "+k, false, "", "the source does not load: "+err.Error())
		panic(stopCheck{})
	}
	g.initGlobals()
	c.progs[k] = g
	c.configs = append(c.configs, fmt.Sprintf("go tags=%q goos=%q: %d files, %d functions", tags, goos, len(g.files), len(g.all)))
	return g
}

type stopCheck struct{}

func (c *Ctx) Obl(rule, construct string, ok bool, pos, msg string) {
	k := rule + "|" + construct
	o, have := c.obl[k]
	if !have {
		o = &obligation{rule: rule, construct: construct, pos: pos, ok: true}
		c.obl[k] = o
		c.order = append(c.order, k)
	}
	if !ok && o.ok {
		o.ok = false
		o.pos, o.msg = pos, msg
	}
}

func (c *Ctx) Count(k string, n int) { c.counters[k] += n }
func (c *Ctx) Fn(f *Func)            { c.funcs[f.Name] = true }

// Min demands at least n obligations under a rule.
func (c *Ctx) Min(rule string, n int) { c.mins[rule] = n }

// Engine reports analysis gaps as violations.
func (c *Ctx) Problems(e *Engine, construct string) {
	for _, p := range e.problems {
		c.Obl("analysis", construct+": "+p, false, "", "the analysis could not decide: "+p)
	}
}

func (c *Ctx) Missing(rule, what string) {
	c.Obl(rule, what, false, "", "expected construct not found: "+what)
}

type known struct{ prop, key, text string }

func loadKnown(verif string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=ID key=<rule|construct> :: text
		rest := strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		k := known{}
		if i := strings.Index(rest, " :: "); i >= 0 {
			k.text = rest[i+4:]
			rest = rest[:i]
		}
		if strings.HasPrefix(rest, "property=") {
			j := strings.IndexByte(rest, ' ')
			k.prop = rest[len("property="):j]
			rest = strings.TrimSpace(rest[j:])
		}
		k.key = strings.TrimPrefix(rest, "key=")
		r = append(r, k)
	}
	return r
}

func runCheck(id, tier, verif string) int {
	ck, ok := checks[id]
	if !ok {
		fmt.Printf("unknown property %s\n", id)
		return 1
	}
	t0 := time.Now()
	c := &Ctx{id: id, tier: tier, obl: map[string]*obligation{}, funcs: map[string]bool{}, counters: map[string]int{}, mins: map[string]int{}, progs: map[string]*GoProg{}, verif: verif}
	c.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopCheck); ok {
					return
				}
				if os.Getenv("VDEBUG") != "" {
					fmt.Fprintln(os.Stderr, r, string(debug.Stack()))
				}
				c.Obl("analysis", "internal", false, "", fmt.Sprintf("the analysis failed: %v", r))
			}
		}()
		ck.Run(c)
	}()
	// vacuity
	byRule := map[string]int{}
	for _, o := range c.obl {
		byRule[o.rule]++
	}
	var rules []string
	for r := range c.mins {
		rules = append(rules, r)
	}
	sort.Strings(rules)
	for _, r := range rules {
		if byRule[r] < c.mins[r] {
			c.Obl("coverage", r, false, "", fmt.Sprintf("rule %s applied to %d constructs, at least %d were confirmed to exist", r, byRule[r], c.mins[r]))
		}
	}
	kn := loadKnown(verif)
	used := map[string]bool{}
	var viol []*obligation
	var lines []string
	nok := 0
	for _, k := range c.order {
		o := c.obl[k]
		if o.ok {
			nok++
			continue
		}
		matched := false
		for _, x := range kn {
			if x.prop == id && x.key == k {
				matched = true
				if !used[k] {
					used[k] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, x.text)
				}
			}
		}
		if !matched {
			viol = append(viol, o)
		}
	}
	for _, o := range viol {
		lines = append(lines, fmt.Sprintf("%s: rule %s: %s: %s", o.pos, o.rule, o.construct, o.msg))
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var samples []string
	for _, k := range c.order {
		o := c.obl[k]
		if o.ok {
			samples = append(samples, o.rule+": "+o.construct)
		}
		if len(samples) >= 25 {
			break
		}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": c.seed, "level": "other", "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
		"assumptions": ck.Trust,
		"coverage": map[string]interface{}{
			"explanation":         ck.Rules,
			"obligations":         len(c.obl),
			"discharged":          nok,
			"obligations_by_rule": byRule,
			"functions_analysed":  fns,
			"function_count":      len(fns),
			"configurations":      c.configs,
			"counters":            c.counters,
			"known_findings":      len(used),
			"samples":             samples,
			"notes":               c.notes,
		},
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d obligations, %d discharged, %d functions, %.1fs\n", id, ck.Title, len(c.obl), nok, len(fns), time.Since(t0).Seconds())
	if len(viol) > 0 {
		rp := filepath.Join(verif, "evidence", id+".replay.txt")
		os.WriteFile(rp, []byte(strings.Join(lines, "\n")+"\n"), 0o644)
		for _, l := range lines {
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	os.Remove(filepath.Join(verif, "evidence", id+".replay.txt"))
	return 0
}
