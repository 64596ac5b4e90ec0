package main

import (
	"fmt"

	"github.com/RTann/libsignal-go/protocol/session"

	"verif/mc/core"
)

func init() { register("C29", "model_checking", c29) }

// c29 compares conversations with and without archiving: apart from sending while
// there is no current session, both must go the same way.
func c29(r *core.Run) {
	for _, s := range []struct {
		script string
		mem    bool
		mi, ms [2]int
		arch   int
		q, t   int
	}{
		{"", false, [2]int{1, 1}, [2]int{2, 2}, 2, 7, 8},
		{"", true, [2]int{1, 0}, [2]int{2, 2}, 2, 8, 9},
		{"I0o S0 r S1 r", false, [2]int{}, [2]int{3, 3}, 3, 7, 9},
		{"I0o S0 r S1 r", true, [2]int{1, 1}, [2]int{2, 2}, 2, 6, 8},
		{"I0n S0 S0 rr S1 S1 S0", false, [2]int{}, [2]int{2, 2}, 3, 7, 8},
		{"I0n S0 r S1 r I0o S0 S0 S1 I1o S1", false, [2]int{}, [2]int{2, 2}, 2, 5, 7},
		{"I0n S0 r S1 r V0 V0 S1", false, [2]int{1, 1}, [2]int{2, 2}, 2, 6, 7},
		{"I0n S0 r S1 r V0 I0o S0 r V1 S0 S1 r V0 V1 S0", false, [2]int{1, 0}, [2]int{2, 2}, 2, 6, 7},
		{"I0n S0 I0n S0 I0n S0 I1n S1 I1n S1 V0 V1", false, [2]int{}, [2]int{1, 1}, 2, 6, 7},
	} {
		s := s
		r.Explore(core.Space{Name: fmt.Sprintf("archiving from [%s] mem=%v", s.script, s.mem), Depth: core.Pick(r, s.q, s.t), Root: func() core.Node {
			w := newTwin(r.Seed, s.mem, false, s.mi, s.ms)
			w.auto, w.arch = false, 99
			w = w.run(s.script)
			w.arch = s.arch
			return w
		}})
	}
	enumerate(r, "records without a session", []kase{{"empty record", func() string {
		rec := session.NewRecord(nil)
		for i := 0; i < 3; i++ {
			rec.ArchiveCurrentState()
			if rec.State() != nil {
				return "an empty record has a session after archiving"
			}
			if ps, err := rec.PreviousStates(); err != nil || len(ps) != 0 {
				return fmt.Sprintf("an empty record has %d archived sessions after archiving (%v)", len(ps), err)
			}
		}
		return ""
	}}})
}
