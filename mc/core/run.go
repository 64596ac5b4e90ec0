// Package core holds the property-independent parts of the checker: result
// collection, evidence, violations and their confirmation, and the explorer.
package core

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// Run is one execution of one check.
type Run struct {
	Prop string
	Tier string
	Seed int64
	Root string // /verif

	States, Transitions, Traces, Evals, Distinct atomic.Int64

	start     time.Time
	deadline  time.Time
	truncated atomic.Bool

	mu          sync.Mutex
	samples     []any
	assumptions []string
	bounds      map[string]any
	parts       []map[string]any
	viol        []Violation
	unconfirmed []string
	known       []string
	seen        map[string]int64

	stop atomic.Bool
}

// Violation describes one failing execution.
type Violation struct {
	Property string `json:"property"`
	Part     string `json:"part"`
	What     string `json:"what"`
	Trace    any    `json:"trace"`
}

func NewRun(prop, tier string, seed int64, root string) *Run {
	r := &Run{Prop: prop, Tier: tier, Seed: seed, Root: root, start: time.Now(), bounds: map[string]any{}, seen: map[string]int64{}}
	limit := 420 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	r.deadline = r.start.Add(limit)
	return r
}

// Thorough reports whether the deep bounds apply.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns the bound for the tier.
func Pick[T any](r *Run, quick, thorough T) T {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Stopped reports that exploration should end: enough violations, or out of time.
func (r *Run) Stopped() bool {
	if r.stop.Load() {
		return true
	}
	if time.Now().After(r.deadline) {
		r.truncated.Store(true)
		return true
	}
	return false
}

// Truncate records that an exploration was not completed.
func (r *Run) Truncate() { r.truncated.Store(true) }

func (r *Run) Bound(name string, v any) { r.mu.Lock(); r.bounds[name] = v; r.mu.Unlock() }
func (r *Run) Assume(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, a := range r.assumptions {
		if a == s {
			return
		}
	}
	r.assumptions = append(r.assumptions, s)
}

// Count adds to a named counter of the evidence.
func (r *Run) Count(name string, n int64) { r.mu.Lock(); r.seen[name] += n; r.mu.Unlock() }

// Counter returns a named counter.
func (r *Run) Counter(name string) int64 { r.mu.Lock(); defer r.mu.Unlock(); return r.seen[name] }

// Sample records an actual case of this run (the first few are kept).
func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// Part records the statistics of one exploration.
func (r *Run) Part(m map[string]any) { r.mu.Lock(); r.parts = append(r.parts, m); r.mu.Unlock() }

// Known prints a known finding.
func (r *Run) Known(what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.known {
		if k == what {
			return
		}
	}
	r.known = append(r.known, what)
	fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, what)
}

// Violate reports a violation found in an exploration. confirm re-executes it
// from scratch and returns what it observed; a violation that does not happen
// again is not reported.
func (r *Run) Violate(part, what string, trace any, confirm func() string) {
	r.mu.Lock()
	if len(r.viol) >= 3 || r.stop.Load() {
		r.mu.Unlock()
		return
	}
	r.mu.Unlock()
	if confirm != nil {
		for i := 0; i < 3; i++ {
			got := safe(confirm)
			if got == "" {
				r.mu.Lock()
				r.unconfirmed = append(r.unconfirmed, part+": "+what)
				n := len(r.unconfirmed)
				r.mu.Unlock()
				if n <= 3 {
					fmt.Fprintf(Out, "unconfirmed (not reported): %s: %s\n", part, what)
				}
				return
			}
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, v := range r.viol {
		if v.What == what {
			return
		}
	}
	r.viol = append(r.viol, Violation{r.Prop, part, what, trace})
	r.stop.Store(true)
}

func safe(f func() string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("panic: %v", e)
		}
	}()
	return f()
}

// Out is where the check writes notes (the standard error may be captured).
var Out = os.Stdout

// Finish writes the evidence and the replay files and returns the exit code.
func (r *Run) Finish(level string) int {
	cov := map[string]any{
		"samples": r.samples, "bounds": r.bounds, "parts": r.parts,
		"exhaustive": !r.truncated.Load() && len(r.viol) == 0,
	}
	if len(r.samples) == 0 {
		cov["samples"] = []any{}
	}
	for k, v := range r.seen {
		cov["n_"+k] = v
	}
	if r.States.Load() > 0 || level == "model_checking" {
		cov["states"] = r.States.Load()
		cov["transitions"] = r.Transitions.Load()
		cov["traces_validated_against_impl"] = r.Traces.Load()
	}
	if r.Evals.Load() > 0 {
		cov["evaluations"] = r.Evals.Load()
	}
	if r.Distinct.Load() > 0 {
		cov["distinct_nontrivial"] = r.Distinct.Load()
	}
	if len(r.unconfirmed) > 0 {
		cov["unconfirmed"] = r.unconfirmed
	}
	if len(r.known) > 0 {
		cov["known_findings"] = r.known
	}
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": level,
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(),
		"violations": len(r.viol), "assumptions": r.assumptions,
	}
	if r.assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(Out, "evidence:", err)
		return 2
	}
	dir := filepath.Join(r.Root, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(Out, "evidence:", err)
		return 2
	}
	fmt.Fprintf(Out, "%s %s: states=%d transitions=%d traces=%d evaluations=%d in %.1fs\n", r.Prop, r.Tier,
		r.States.Load(), r.Transitions.Load(), r.Traces.Load(), r.Evals.Load(), time.Since(r.start).Seconds())
	if len(r.viol) == 0 {
		return 0
	}
	for _, v := range r.viol {
		path := WriteReplay(r.Root, v)
		fmt.Fprintf(Out, "%s: %s\n", v.Part, v.What)
		fmt.Fprintf(Out, "VIOLATION property=%s replay=%s\n", r.Prop, path)
	}
	return 1
}

// WriteReplay stores a violation as a file.
func WriteReplay(root string, v Violation) string {
	b, _ := json.MarshalIndent(v, "", " ")
	h := sha256.Sum256(b)
	dir := filepath.Join(root, "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, v.Property+"-"+hex.EncodeToString(h[:4])+".json")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

// Parallel runs f for every index on all cores; it stops early when the run does.
// A panic in f is a harness error unless f recovered it itself.
func (r *Run) Parallel(n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	var pmu sync.Mutex
	var perr string
	for w := 0; w < runtime.GOMAXPROCS(0); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					pmu.Lock()
					perr = fmt.Sprintf("%v\n%s", e, debug.Stack())
					pmu.Unlock()
				}
			}()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || r.Stopped() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
	if perr != "" {
		panic("harness: " + perr)
	}
}

// Keys returns the sorted keys of a map.
func Keys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Case is one evaluated case of an enumeration that is judged directly: f returns
// what is wrong, or "". It is evaluated again before it is reported.
func (r *Run) Case(part string, desc func() any, f func() string) bool {
	r.Evals.Add(1)
	w := Guard(f)
	if w == "" {
		return true
	}
	r.Violate(part, w, desc(), func() string { return Guard(f) })
	return false
}

// Guard runs f and turns a panic into a description.
func Guard(f func() string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("panic: %v at %s", e, firstFrames(debug.Stack()))
		}
	}()
	return f()
}
