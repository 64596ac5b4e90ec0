package core

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Node is a state of a system under exploration together with its model.
type Node interface {
	// Clone returns an independent copy.
	Clone() Node
	// Key digests everything the future depends on.
	Key() [32]byte
	// Ops lists the operations enabled in the state.
	Ops() []string
	// Apply performs the operation on the node, changing it, and returns what is
	// wrong with the outcome ("" if nothing).
	Apply(op string) string
	// Check judges the state itself (probes on copies).
	Check() string
}

// Space is a set of histories: all sequences of up to Depth operations from Root.
type Space struct {
	Name  string
	Root  func() Node
	Depth int
	// MaxStates stops the expansion (reported as not exhaustive); 0 means none.
	MaxStates int
}

type trail struct {
	up *trail
	op string
}

func (t *trail) list() []string {
	var ops []string
	for ; t != nil && t.up != nil; t = t.up {
		ops = append(ops, t.op)
	}
	for i, j := 0, len(ops)-1; i < j; i, j = i+1, j-1 {
		ops[i], ops[j] = ops[j], ops[i]
	}
	return ops
}

type item struct {
	n Node
	t *trail
}

const shards = 256

// ReplayOps executes a history from scratch and returns the first thing that is
// wrong ("" if nothing).
func ReplayOps(s Space, ops []string) string {
	n := s.Root()
	if w := n.Check(); w != "" {
		return w
	}
	for i, op := range ops {
		if w := n.Apply(op); w != "" {
			return fmt.Sprintf("step %d %s: %s", i+1, op, w)
		}
		if w := n.Check(); w != "" {
			return fmt.Sprintf("after step %d %s: %s", i+1, op, w)
		}
	}
	return ""
}

// Explore visits every state reachable within the depth, breadth first, merging
// equal states, and checks every state and every transition.
func (r *Run) Explore(s Space) {
	t0 := time.Now()
	root := s.Root()
	report := func(t *trail, w string) {
		ops := t.list()
		r.Violate(s.Name, w, map[string]any{"root": s.Name, "ops": ops}, func() string { return ReplayOps(s, ops) })
	}
	var states, trans, traces atomic.Int64
	// The root is judged while its successors are explored.
	rootDone := make(chan string, 1)
	rc := root.Clone()
	go func() { rootDone <- Guard(rc.Check) }()
	states.Add(1)
	var seen [shards]struct {
		sync.Mutex
		m map[[32]byte]struct{}
	}
	for i := range seen {
		seen[i].m = map[[32]byte]struct{}{}
	}
	add := func(k [32]byte) bool {
		sh := &seen[k[0]]
		sh.Lock()
		defer sh.Unlock()
		if _, ok := sh.m[k]; ok {
			return false
		}
		sh.m[k] = struct{}{}
		return true
	}
	add(root.Key())
	frontier := []item{{root, &trail{}}}
	depthReached := 0
	capped := false
	var levels []int
	for d := 0; d < s.Depth && len(frontier) > 0 && !r.Stopped(); d++ {
		levels = append(levels, len(frontier))
		last := d == s.Depth-1
		next := make([][]item, runtime.GOMAXPROCS(0)*4)
		var nmu [64]sync.Mutex
		// Few states: one task per operation; many: one per state.
		type task struct {
			item
			ops []string
			mu  *sync.Mutex
		}
		var tasks []task
		for i, it := range frontier {
			frontier[i].n = nil
			if len(frontier) > 8*runtime.GOMAXPROCS(0) {
				tasks = append(tasks, task{it, nil, new(sync.Mutex)})
				continue
			}
			mu := new(sync.Mutex)
			for _, op := range it.n.Ops() {
				tasks = append(tasks, task{it, []string{op}, mu})
			}
		}
		r.Parallel(len(tasks), func(i int) {
			it := tasks[i]
			tasks[i].n = nil
			slot := i % len(next)
			ops := it.ops
			if ops == nil {
				ops = it.n.Ops()
			}
			for _, op := range ops {
				if r.Stopped() {
					return
				}
				it.mu.Lock()
				c := it.n.Clone()
				it.mu.Unlock()
				trans.Add(1)
				t := &trail{it.t, op}
				if w := Guard(func() string { return c.Apply(op) }); w != "" {
					report(t, "op "+op+": "+w)
					continue
				}
				if !add(c.Key()) {
					continue
				}
				n := states.Add(1)
				if w := Guard(c.Check); w != "" {
					report(t, w)
					continue
				}
				if n == 7 || n == 500 || n == 5000 {
					r.Sample(map[string]any{"space": s.Name, "history": strings.Join(t.list(), " ")})
				}
				if !last {
					nmu[slot].Lock()
					next[slot] = append(next[slot], item{c, t})
					nmu[slot].Unlock()
				}
			}
		})
		depthReached = d + 1
		// Validate the snapshots: one history per level slot from scratch, without snapshots or merging.
		var flat []item
		for _, x := range next {
			flat = append(flat, x...)
		}
		if !r.Stopped() && len(flat) > 0 {
			step := len(flat)/4 + 1
			var idx []int
			for i := 0; i < len(flat); i += step {
				idx = append(idx, i)
			}
			r.Parallel(len(idx), func(j int) {
				it := flat[idx[j]]
				ops := it.t.list()
				n := s.Root()
				for _, op := range ops {
					if w := Guard(func() string { return n.Apply(op) }); w != "" {
						report(it.t, w)
						return
					}
				}
				if n.Key() != it.n.Key() {
					r.Count("replay_key_mismatch", 1)
				}
				traces.Add(1)
			})
		}
		if s.MaxStates > 0 && int(states.Load()) > s.MaxStates {
			capped = true
			frontier = nil
			break
		}
		frontier = flat
	}
	if w := <-rootDone; w != "" {
		report(&trail{}, w)
	}
	if capped {
		r.truncated.Store(true)
	}
	r.States.Add(states.Load())
	r.Transitions.Add(trans.Load())
	r.Traces.Add(traces.Load())
	r.Part(map[string]any{"space": s.Name, "depth_bound": s.Depth, "depth": depthReached, "states": states.Load(),
		"transitions": trans.Load(), "traces_replayed_from_scratch": traces.Load(), "levels": levels, "wall_s": time.Since(t0).Seconds()})
}

func firstFrames(stack []byte) string {
	var out []string
	for _, l := range strings.Split(string(stack), "\n") {
		if strings.Contains(l, "libsignal-go/protocol") && !strings.HasPrefix(l, "\t") {
			out = append(out, strings.TrimSpace(l))
			if len(out) == 2 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}
