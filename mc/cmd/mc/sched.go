package main

import (
	"bytes"
	"io"
	"runtime"
	"strconv"
	"time"

	"verif/mc/core"
)

// The controlled scheduler: of the operations it runs, one at a time holds the
// baton and gives it back at every call to a store or random source. The baton is
// passed through plain variables in functions the race detector does not see, so
// that passing it orders nothing: every pair of conflicting accesses of two
// operations that the library itself does not order is reported as a race,
// whatever the schedule. The process runs on one processor.

const (
	csWaiting = iota
	csRunning
	csYielded
	csDone
)

type sched struct {
	state []int32
	goid  []int64
}

type cthread struct {
	nr    int64
	id    int
	s     *sched
	steps int
	seed  int64
	name  string
	out   string
	weak  string
	glob  io.Reader
}

//go:norace
func (s *sched) get(i int) int32 { return s.state[i] }

//go:norace
func (s *sched) set(i int, v int32) { s.state[i] = v }

//go:norace
func (s *sched) waitGo(i int) {
	for s.state[i] != csRunning {
		runtime.Gosched()
	}
}

// waitBack waits until the operation gives the baton back; it returns false if it
// does not (it may be blocked).
//
//go:norace
func (s *sched) waitBack(i int, limit time.Duration) bool {
	var t0 time.Time
	for n := 0; ; n++ {
		if s.state[i] != csRunning {
			return true
		}
		runtime.Gosched()
		if n == 1000 {
			t0 = time.Now()
		}
		if n > 1000 && n%1000 == 0 {
			if time.Since(t0) > limit {
				return false
			}
			// Blocked, or waiting for the garbage collector.
			time.Sleep(10 * time.Microsecond)
		}
	}
}

//go:norace
func (s *sched) setGoid(i int, id int64) { s.goid[i] = id }

//go:norace
func (s *sched) find(id int64) int {
	for i, g := range s.goid {
		if g == id {
			return i
		}
	}
	return -1
}

func goid() int64 {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	if i := bytes.IndexByte(b, ' '); i > 0 {
		n, _ := strconv.ParseInt(string(b[:i]), 10, 64)
		return n
	}
	return -2
}

// yield gives the baton back and waits for it.
func (t *cthread) yield() {
	t.steps++
	t.s.set(t.id, csYielded)
	t.s.waitGo(t.id)
}

// yieldReader yields before every read.
type yieldReader struct {
	t *cthread
	r io.Reader
}

func (y *yieldReader) Read(b []byte) (int, error) {
	y.t.yield()
	return y.r.Read(b)
}

func (t *cthread) rnd(label string) io.Reader {
	return &yieldReader{t, core.NewPRF(t.seed, "c21", t.name, label)}
}

// curThreads is the set of operations now under the scheduler; the process-wide
// random source serves each from its own stream.
type threadSet struct {
	s  *sched
	ts []*cthread
}

var curSet *threadSet

type schedRand struct{ base io.Reader }

//go:norace
func loadSet() *threadSet { return curSet }

//go:norace
func storeSet(t *threadSet) { curSet = t }

//go:norace
func (t *threadSet) at(i int) *cthread { return t.ts[i] }

func (g *schedRand) Read(b []byte) (int, error) {
	if set := loadSet(); set != nil {
		if i := set.s.find(goid()); i >= 0 {
			t := set.at(i)
			t.yield()
			return t.glob.Read(b)
		}
	}
	return g.base.Read(b)
}

// decision is one point at which the schedule could have gone on differently.
type decision struct {
	enabled []int
	chosen  int
	cur     int // who held the baton, -1 at the start or after it ended
}

// runSchedule runs the operations under the schedule that begins with prefix and
// then never preempts. It reports the decisions and whether every one ended.
func runSchedule(ts []*cthread, body func(t *cthread), prefix []int) (trace []decision, finished bool) {
	n := len(ts)
	s := &sched{state: make([]int32, n), goid: make([]int64, n)}
	storeSet(&threadSet{s, ts})
	defer storeSet(nil)
	done := make(chan struct{}, n)
	for i := range ts {
		t := ts[i]
		t.id, t.s, t.steps = i, s, 0
		go func() {
			s.setGoid(t.id, goid())
			s.waitGo(t.id)
			body(t)
			s.set(t.id, csDone)
			done <- struct{}{}
		}()
	}
	cur := -1
	blocked := map[int]bool{}
	t0 := time.Now()
	for {
		var enabled []int
		left := 0
		for i := 0; i < n; i++ {
			switch s.get(i) {
			case csDone:
			case csRunning:
				left++ // blocked
			default:
				delete(blocked, i)
				left++
				enabled = append(enabled, i)
			}
		}
		if left == 0 {
			break
		}
		if len(enabled) == 0 {
			if time.Since(t0) > 60*time.Second {
				return trace, false
			}
			time.Sleep(time.Millisecond)
			continue
		}
		c := enabled[0]
		for _, e := range enabled {
			if e == cur {
				c = cur
			}
		}
		if k := len(trace); k < len(prefix) {
			for _, e := range enabled {
				if e == prefix[k] {
					c = e
				}
			}
		}
		trace = append(trace, decision{enabled, c, cur})
		s.set(c, csRunning)
		cur = c
		if !s.waitBack(c, 2*time.Second) {
			blocked[c] = true
		}
		if s.get(c) == csDone {
			cur = -1
		}
	}
	for range ts {
		<-done
	}
	return trace, true
}

// allSchedules enumerates the schedules with at most bound preemptions.
func allSchedules(bound, limit int, run func(prefix []int) ([]decision, bool)) (n int) {
	var rec func(prefix []int) bool
	rec = func(prefix []int) bool {
		trace, ok := run(prefix)
		n++
		if !ok {
			return false
		}
		pre := 0
		chosen := make([]int, len(trace))
		for i, d := range trace {
			chosen[i] = d.chosen
		}
		isIn := func(d decision, x int) bool {
			for _, e := range d.enabled {
				if e == x {
					return true
				}
			}
			return false
		}
		for i, d := range trace {
			if i >= len(prefix) {
				for _, alt := range d.enabled {
					if alt == d.chosen {
						continue
					}
					p := pre
					if d.cur >= 0 && isIn(d, d.cur) && alt != d.cur {
						p++
					}
					if p > bound {
						continue
					}
					if !rec(append(chosen[:i:i], alt)) {
						return false
					}
				}
			}
			if d.cur >= 0 && isIn(d, d.cur) && d.chosen != d.cur {
				pre++
			}
		}
		return limit == 0 || n < limit
	}
	rec(nil)
	return n
}

// With is for setting up, before anything runs under the scheduler.
func (g *schedRand) With(r io.Reader, f func()) {
	old := g.base
	g.base = r
	defer func() { g.base = old }()
	f()
}
