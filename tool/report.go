package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Viol struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	Detail    string `json:"detail"`
}

type Report struct {
	prop     string
	obl      int
	dis      int
	viols    []Viol
	seen     map[string]bool
	samples  []string
	rules    map[string]int
	analysed map[string]int // what was analysed, by kind
	assume   []string
	start    time.Time
	floor    map[string]int
}

func newReport(prop string) *Report {
	return &Report{prop: prop, seen: map[string]bool{}, rules: map[string]int{}, analysed: map[string]int{}, start: time.Now(), floor: map[string]int{}}
}

// ok records a discharged obligation.
func (r *Report) ok(rule, construct string) {
	r.obl++
	r.dis++
	r.rules[rule]++
	if r.rules[rule] <= 3 {
		r.samples = append(r.samples, rule+": "+construct)
	}
}

// bad records a violated (or undecided) obligation.
func (r *Report) bad(rule, construct, where, detail string) {
	r.obl++
	r.rules[rule]++
	k := rule + "|" + construct
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	if len(detail) > 1500 {
		detail = detail[:1500] + "…"
	}
	r.viols = append(r.viols, Viol{rule, construct, where, detail})
}

func (r *Report) check(cond bool, rule, construct, where, detail string) bool {
	if cond {
		r.ok(rule, construct)
	} else {
		r.bad(rule, construct, where, detail)
	}
	return cond
}

// atLeast guards against a vacuous pass.
func (r *Report) atLeast(rule string, n int) {
	r.floor[rule] = n
	if r.rules[rule] < n {
		r.bad("anchor", rule, "-", fmt.Sprintf("only %d of at least %d expected instances of rule %q were found; the code it is anchored in has gone or has a form that the analysis cannot follow", r.rules[rule], n, rule))
	}
}

func (r *Report) assumption(s string) { r.assume = append(r.assume, s) }

type known struct {
	Status    string `json:"status"`
	Property  string `json:"property"`
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	What      string `json:"what"`
}

func (r *Report) finish(verif, out, tier string, seed int, level string) int {
	// known findings
	var knowns []known
	if b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimPrefix(strings.TrimSpace(l), "known: ")
			if l == "" || l[0] != '{' {
				continue
			}
			var k known
			if json.Unmarshal([]byte(l), &k) == nil && k.Status == "known" && k.Property == r.prop {
				knowns = append(knowns, k)
			}
		}
	}
	var fresh []Viol
	for _, v := range r.viols {
		sup := false
		for _, k := range knowns {
			if k.Rule == v.Rule && k.Construct == v.Construct {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k.What)
				sup = true
				break
			}
		}
		if !sup {
			fresh = append(fresh, v)
		}
	}
	var rules []string
	for k, n := range r.rules {
		rules = append(rules, fmt.Sprintf("%s: %d", k, n))
	}
	sort.Strings(rules)
	var an []string
	for k, n := range r.analysed {
		an = append(an, fmt.Sprintf("%s: %d", k, n))
	}
	sort.Strings(an)
	ev := map[string]interface{}{
		"property": r.prop,
		"tier":     tier,
		"seed":     seed,
		"level":    level,
		"coverage": map[string]interface{}{
			"obligations":  r.obl,
			"discharged":   r.dis,
			"checker_cmd":  "check.sh " + r.prop,
			"trusted_base": []string{"go/types and go/ssa of x/tools v0.52.0", "the transfer functions and rules in /verif/tool", "the tables of expected shapes in /verif/tool"},
			"explanation":  "Static analysis of /repo's current source. Obligations by rule: " + strings.Join(rules, "; ") + ". Analysed: " + strings.Join(an, "; ") + ".",
			"samples":      r.samples,
		},
		"assumptions": r.assume,
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(fresh),
	}
	if r.assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(out, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(out, r.prop+".json"), append(b, '\n'), 0o644)
	rp := filepath.Join(out, r.prop+".violations.json")
	os.Remove(rp)
	if len(fresh) == 0 {
		fmt.Printf("%s: %d obligations, all discharged (%s)\n", r.prop, r.obl, strings.Join(rules, "; "))
		return 0
	}
	b, _ = json.MarshalIndent(fresh, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	for i, v := range fresh {
		if i >= 20 {
			fmt.Printf("… and %d more\n", len(fresh)-i)
			break
		}
		fmt.Printf("%s: rule %s violated at %s (%s)\n    %s\n", r.prop, v.Rule, v.Construct, v.Where, v.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, rp)
	return 1
}
