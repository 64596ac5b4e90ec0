package main

import (
	"time"

	"verif/mc/core"
)

// kase is one case of an enumeration; it returns what is wrong, or "".
type kase struct {
	desc any
	f    func() string
}

// enumerate judges every case of a finite space; each is evaluated again before it
// is reported.
func enumerate(r *core.Run, part string, cases []kase) {
	if r.Stopped() || len(cases) == 0 {
		return
	}
	t0 := time.Now()
	r.Parallel(len(cases), func(i int) {
		c := cases[i]
		r.Case(part, func() any { return c.desc }, c.f)
		r.States.Add(1)
		r.Transitions.Add(1)
		r.Traces.Add(1)
	})
	r.Sample(map[string]any{"space": part, "case": cases[len(cases)/2].desc})
	r.Part(map[string]any{"space": part, "states": len(cases), "transitions": len(cases), "wall_s": time.Since(t0).Seconds()})
}
