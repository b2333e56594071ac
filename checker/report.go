package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Violation is one construct that breaks the rule.
type Violation struct {
	Key  string // stable: rule + construct, no line numbers
	Pos  string
	Text string
}

type Check struct {
	ID         string
	R          *Repo
	Tier       string
	Rule       string
	Counts     map[string]int
	Samples    []string
	Viol       []Violation
	Oblig      int
	Discharged int
	Notes      []string
	Assume     []string
	Units      map[string]bool
	seen       map[string]bool
}

func newCheck(id, tier string, r *Repo) *Check {
	return &Check{ID: id, R: r, Tier: tier, Counts: map[string]int{}, Units: map[string]bool{}, seen: map[string]bool{}}
}

// OK records a discharged obligation.
func (c *Check) OK(format string, a ...interface{}) {
	c.Oblig++
	c.Discharged++
	if len(c.Samples) < 40 {
		c.Samples = append(c.Samples, fmt.Sprintf(format, a...))
	}
}

// Bad records an obligation that could not be discharged.
func (c *Check) Bad(key, pos, format string, a ...interface{}) {
	c.Oblig++
	k := key + "|" + pos
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.Viol = append(c.Viol, Violation{Key: key, Pos: pos, Text: fmt.Sprintf(format, a...)})
}

func (c *Check) Count(name string, n int) { c.Counts[name] += n }
func (c *Check) Unit(name string)         { c.Units[name] = true }

// AtLeast fails the check when fewer instances were matched than were confirmed by hand.
func (c *Check) AtLeast(name string, n int) {
	if c.Counts[name] < n {
		c.Bad("instances:"+name, "-", "only %d instances of %q were found, at least %d were confirmed by reading: the rule no longer covers the code", c.Counts[name], name, n)
	}
}

type known struct {
	prop, key, text string
	hit             bool
}

func loadKnown(path, id string) ([]*known, error) {
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return nil, nil
	} else if err != nil {
		return nil, err
	}
	defer f.Close()
	var ks []*known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var e struct{ Property, Key, What string }
		if err := json.Unmarshal([]byte(l), &e); err != nil {
			return nil, fmt.Errorf("known findings: %v: %s", err, l)
		}
		if e.Property == id {
			ks = append(ks, &known{prop: e.Property, key: e.Key, text: e.What})
		}
	}
	return ks, sc.Err()
}

func (c *Check) finish(verifDir string, start time.Time, seed int) int {
	ks, err := loadKnown(filepath.Join(verifDir, "known_findings.jsonl"), c.ID)
	if err != nil {
		c.Bad("known-findings", "-", "%v", err)
	}
	var open []Violation
	knownHits := 0
	for _, v := range c.Viol {
		matched := false
		for _, k := range ks {
			if k.key == v.Key {
				matched = true
				if !k.hit {
					k.hit = true
					knownHits++
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.ID, k.text, v.Pos)
				}
			}
		}
		if !matched {
			open = append(open, v)
		}
	}
	sort.SliceStable(open, func(i, j int) bool { return open[i].Key < open[j].Key })
	units := make([]string, 0, len(c.Units))
	for u := range c.Units {
		units = append(units, u)
	}
	sort.Strings(units)
	cov := map[string]interface{}{
		"explanation":        c.Rule,
		"obligations":        c.Oblig,
		"discharged":         c.Discharged,
		"instances":          c.Counts,
		"analysed_functions": len(units),
		"functions":          units,
		"samples":            c.Samples,
		"source_lines":       c.R.lines(),
		"known_findings":     knownHits,
		"notes":              append([]string{}, c.Notes...),
	}
	if len(open) > 0 {
		var vs []string
		for _, v := range open {
			vs = append(vs, fmt.Sprintf("%s %s: %s", v.Pos, v.Key, v.Text))
		}
		cov["violations"] = vs
	}
	ev := map[string]interface{}{
		"property":    c.ID,
		"tier":        c.Tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": append([]string{}, c.Assume...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(open),
	}
	evdir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evdir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	rp := filepath.Join(evdir, c.ID+".violations.txt")
	os.Remove(rp)
	if len(open) == 0 {
		fmt.Printf("%s: held: %d obligations, %d discharged, %d functions analysed\n", c.ID, c.Oblig, c.Discharged, len(units))
		return 0
	}
	var sb strings.Builder
	for _, v := range open {
		fmt.Fprintf(&sb, "%s: rule %s, construct %s\n    %s\n", v.Pos, c.ID, v.Key, v.Text)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
	return 1
}

func (r *Repo) lines() int {
	if r == nil {
		return 0
	}
	return r.Lines
}
