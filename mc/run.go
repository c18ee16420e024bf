package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"time"
)

// Run is one execution of the check of one property.
type Run struct {
	ID       string
	Tier     string
	Seed     int
	Start    time.Time
	Deadline time.Time
	Root     string

	mu         sync.Mutex
	samples    []any
	violations int
	Coverage   map[string]any
	Assume     []string
	Level      string

	// worker processes explore a share of the space only
	Shard, Shards int
	found         *workerViolation

	Replay *Replay // re-execute a single recorded case
	once   sync.Once
	infl   *inflight
}

type Replay struct {
	Property string `json:"property"`
	Spec     *Spec  `json:"spec"`
	Space    string `json:"space"`
	Case     int    `json:"case"`
}

func (r *Run) inflight() *inflight {
	r.once.Do(func() { r.infl = newInflight(r) })
	return r.infl
}

func NewRun(id, tier string, root string, quick, thorough time.Duration) *Run {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := &Run{ID: id, Tier: tier, Seed: seed, Start: time.Now(), Root: root,
		Coverage: map[string]any{}, Level: "model_checking"}
	d := quick
	if tier == "thorough" {
		d = thorough
	}
	r.Deadline = r.Start.Add(d)
	return r
}

func (r *Run) Quick() bool { return r.Tier != "thorough" }

func (r *Run) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
}

// Violation records a violation and prints the VIOLATION line. Returns true.
func (r *Run) Violation(msg string, replay map[string]any) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.violations++
	if r.violations > 1 {
		return true
	}
	if r.Shards > 0 {
		r.found = &workerViolation{msg, replay}
		return true
	}
	if r.Replay != nil {
		fmt.Printf("reproduced %v: %v\n", r.ID, msg)
		return true
	}
	dir := filepath.Join(r.Root, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, r.ID+".json")
	replay["property"] = r.ID
	replay["message"] = msg
	b, err := json.MarshalIndent(replay, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("%q", msg))
	}
	os.WriteFile(path, b, 0o644)
	fmt.Printf("%v: %v\n", r.ID, msg)
	if e, ok := replay["edits"]; ok {
		fmt.Printf("  template %v, edits %v\n", replay["template"], e)
	}
	fmt.Printf("VIOLATION property=%v replay=%v\n", r.ID, path)
	return true
}

// Finish writes the evidence file and returns the exit code.
func (r *Run) Finish() int {
	r.Coverage["samples"] = r.samples
	if r.samples == nil {
		r.Coverage["samples"] = []any{}
	}
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": r.Coverage, "assumptions": r.Assume,
		"wall_s": time.Since(r.Start).Seconds(), "violations": r.violations,
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}
	os.MkdirAll(filepath.Join(r.Root, "evidence"), 0o755)
	if r.Replay != nil {
		// not a check, leaves the evidence alone
	} else if err := os.WriteFile(filepath.Join(r.Root, "evidence", r.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}
	keys := []string{"states", "transitions", "traces_validated_against_impl", "exhaustive", "classes", "bounds"}
	for _, k := range keys {
		if v, ok := r.Coverage[k]; ok {
			fmt.Printf("  %v: %v\n", k, v)
		}
	}
	fmt.Printf("%v %v: %v violations, %.1fs\n", r.ID, r.Tier, r.violations, time.Since(r.Start).Seconds())
	if r.violations > 0 {
		return 1
	}
	return 0
}

func (r *Run) fromExplorer(x *Explorer, exhaustive bool, bounds any) {
	r.Coverage["states"] = x.States
	r.Coverage["transitions"] = x.Transitions
	r.Coverage["traces_validated_against_impl"] = x.Nontrivial
	r.Coverage["classes"] = x.Classes()
	r.Coverage["exhaustive"] = exhaustive
	r.Coverage["bounds"] = bounds
	r.Coverage["depth_completed_per_template"] = x.MaxDepth
}

// mergeCoverage adds the coverage of another part of the same check.
func (r *Run) mergeCoverage(other map[string]any) {
	sum := func(k string) {
		var n int64
		for _, c := range []map[string]any{r.Coverage, other} {
			if v, ok := c[k].(int64); ok {
				n += v
			}
		}
		r.Coverage[k] = n
	}
	for _, k := range []string{"states", "transitions", "traces_validated_against_impl"} {
		sum(k)
	}
	if e, ok := other["exhaustive"].(bool); ok {
		mine, _ := r.Coverage["exhaustive"].(bool)
		r.Coverage["exhaustive"] = e && mine
	}
	if cl, ok := other["classes"].(map[string]int64); ok {
		mine, _ := r.Coverage["classes"].(map[string]int64)
		if mine == nil {
			mine = map[string]int64{}
		}
		for k, v := range cl {
			mine[k] += v
		}
		r.Coverage["classes"] = mine
	}
	if b, ok := other["bounds"].(map[string]any); ok {
		mine, _ := r.Coverage["bounds"].(map[string]any)
		if mine == nil {
			mine = map[string]any{}
		}
		for k, v := range b {
			mine[k] = v
		}
		r.Coverage["bounds"] = mine
	}
	for k, v := range other {
		if _, ok := r.Coverage[k]; !ok {
			r.Coverage[k] = v
		}
	}
}
