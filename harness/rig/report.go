// Package rig runs the real service against the look-alike database and redis and collects what the monitors saw.
package rig

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Check accumulates one property check's coverage, findings and verdict.
type Check struct {
	ID, Tier string
	Seed     int64
	Rng      *rand.Rand
	Level    string
	Rule     string
	Assume   []string

	mu        sync.Mutex
	start     time.Time
	evals     int64
	distinct  map[string]int64
	samples   []any
	counters  map[string]int64
	states    map[string]map[string]bool
	viols     []violation
	known     map[string]string // key -> text
	knownHit  map[string]int
	failures  []string
	deadline  time.Time
	verifRoot string
}

type violation struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
	Trace  any    `json:"trace,omitempty"`
}

// NewCheck reads VERIF_TIER and VERIF_SEED.
func NewCheck(id string) *Check {
	c := &Check{ID: id, Tier: os.Getenv("VERIF_TIER"), start: time.Now(), distinct: map[string]int64{}, counters: map[string]int64{}, states: map[string]map[string]bool{}, known: map[string]string{}, knownHit: map[string]int{}, Level: "exploration"}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			c.Seed = n
		}
	}
	h := int64(0)
	for _, r := range id {
		h = h*131 + int64(r)
	}
	c.Rng = rand.New(rand.NewSource(c.Seed*1000003 + h))
	c.verifRoot = os.Getenv("VERIF_ROOT")
	if c.verifRoot == "" {
		c.verifRoot = "/verif"
	}
	c.loadKnown()
	return c
}

func (c *Check) loadKnown() {
	b, err := os.ReadFile(filepath.Join(c.verifRoot, "known-findings.json"))
	if err != nil {
		return
	}
	var f struct {
		Findings []struct {
			Property string `json:"property"`
			Key      string `json:"key"`
			What     string `json:"what"`
		} `json:"findings"`
	}
	if json.Unmarshal(b, &f) != nil {
		return
	}
	for _, x := range f.Findings {
		if x.Property == c.ID {
			c.known[x.Key] = x.What
		}
	}
}

// Thorough reports the tier.
func (c *Check) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *Check) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Elapsed since the check began.
func (c *Check) Elapsed() time.Duration { return time.Since(c.start) }

// Case counts one evaluation; shape names its kind (distinct shapes are counted), nontrivial says whether it counts.
func (c *Check) Case(shape string, nontrivial bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if nontrivial {
		c.distinct[shape]++
	}
}

// Add adds to a named counter.
func (c *Check) Add(name string, n int64) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

// Counter returns a counter.
func (c *Check) Counter(name string) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.counters[name]
}

// State records a distinct state or interleaving under a name.
func (c *Check) State(name, v string) {
	c.mu.Lock()
	m := c.states[name]
	if m == nil {
		m = map[string]bool{}
		c.states[name] = m
	}
	if len(m) < 200000 {
		m[v] = true
	}
	c.mu.Unlock()
}

// Sample keeps an actual case for the evidence.
func (c *Check) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// Violate reports a violation. key identifies the failing input, site or history.
func (c *Check) Violate(key, detail string, trace any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.known[key]; ok {
		c.knownHit[key]++
		return
	}
	for _, v := range c.viols {
		if v.Key == key && v.Detail == detail {
			return
		}
	}
	if len(c.viols) < 200 {
		c.viols = append(c.viols, violation{key, detail, trace})
	}
}

// Violations so far (known findings excluded).
func (c *Check) Violations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viols)
}

// Known reports whether key is a listed finding.
func (c *Check) Known(key string) bool { _, ok := c.known[key]; return ok }

// Broken records that the machinery could not do its work.
func (c *Check) Broken(format string, a ...any) {
	c.mu.Lock()
	c.failures = append(c.failures, fmt.Sprintf(format, a...))
	c.mu.Unlock()
	fmt.Fprintf(os.Stderr, "check %s: machinery: %s\n", c.ID, fmt.Sprintf(format, a...))
}

// Finish writes the evidence and returns the exit code.
func (c *Check) Finish() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	cov := map[string]any{}
	n := int64(len(c.distinct))
	cov["evaluations"] = c.evals
	cov["distinct_nontrivial"] = n
	cov["rule"] = c.Rule
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "none")
	}
	cov["samples"] = c.samples
	shapes := make([]string, 0, len(c.distinct))
	for k := range c.distinct {
		shapes = append(shapes, k)
	}
	sort.Strings(shapes)
	if len(shapes) > 40 {
		shapes = shapes[:40]
	}
	cov["shapes"] = shapes
	obs := map[string]any{}
	for k, v := range c.counters {
		obs[k] = v
	}
	for k, m := range c.states {
		obs["distinct_"+k] = len(m)
	}
	cov["observed"] = obs
	ev := map[string]any{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.viols)}
	if len(c.Assume) > 0 {
		ev["assumptions"] = c.Assume
	}
	dir := filepath.Join(c.verifRoot, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}
	for k, v := range c.known {
		if c.knownHit[k] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", c.ID, oneLine(v), k)
		}
	}
	if len(c.failures) > 0 && len(c.viols) == 0 {
		fmt.Fprintf(os.Stderr, "check %s could not decide: %s\n", c.ID, strings.Join(c.failures, "; "))
		return 2
	}
	if len(c.viols) > 0 {
		seen := map[string]int{} // one of each kind first
		rank := map[int]int{}
		for i, v := range c.viols {
			rank[i] = seen[v.Key]
			seen[v.Key]++
		}
		idx := make([]int, len(c.viols))
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(a, b int) bool { return rank[idx[a]] < rank[idx[b]] })
		vs := make([]violation, len(idx))
		for i, k := range idx {
			vs[i] = c.viols[k]
		}
		c.viols = vs
		for i, v := range c.viols {
			if i >= 8 && os.Getenv("VX_ALL") == "" {
				fmt.Printf("... and %d more\n", len(c.viols)-i)
				break
			}
			p := filepath.Join(dir, fmt.Sprintf("%s.replay.%d.json", c.ID, i))
			rb, _ := json.MarshalIndent(map[string]any{"property": c.ID, "seed": c.Seed, "tier": c.Tier, "violation": v, "rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash /verif/check.sh %s", c.Seed, c.Tier, c.ID)}, "", " ")
			os.WriteFile(p, rb, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s %s: %s\n", c.ID, p, v.Key, cut(oneLine(v.Detail), 400))
		}
		return 1
	}
	fmt.Printf("%s held: %d evaluations, %d distinct, %.1fs\n", c.ID, c.evals, n, time.Since(c.start).Seconds())
	return 0
}

func oneLine(s string) string { return strings.Join(strings.Fields(s), " ") }
func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
