package main

import (
	"bytes"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/message"

	"verif/mc/core"
)

func init() { register("C04", "model_checking", c04) }

// converge lets one message travel in each direction and requires both sides to end
// in the same session with ordinary messages, whoever starts.
func converge(r *core.Run) func(w *pair) string {
	return func(w *pair) string {
		for p := 0; p < 2; p++ {
			if w.Cur[p] == "" {
				continue
			}
			r.Evals.Add(1)
			c := w.clone()
			q := 1 - p
			m, x := c.sendPT(p, []byte("there"))
			if x != "" {
				return "then " + x
			}
			if m == nil {
				return ""
			}
			if !c.deliverable(m) {
				continue // the one-time key it names is gone
			}
			if x := c.recv(m); x != "" {
				return "then " + x
			}
			if m, x = c.sendPT(q, []byte("and back")); x != "" {
				return "then " + x
			}
			if x := c.recv(m); x != "" {
				return "then " + x
			}
			if c.broken {
				return ""
			}
			a, b := c.P[0].CurrentBase(c.addr(1)), c.P[1].CurrentBase(c.addr(0))
			if a == nil || !bytes.Equal(a, b) {
				return fmt.Sprintf("after a message from %s and an answer the two sides use different sessions", party[p])
			}
			for i := 0; i < 2; i++ {
				typ, _, err := c.P[i].Encrypt(c.addr(1-i), []byte("x"))
				if err != nil || typ != message.WhisperType {
					return fmt.Sprintf("after a message from %s and an answer %s still sends %v (%v)", party[p], party[i], typ, err)
				}
			}
		}
		return ""
	}
}

func c04(r *core.Run) {
	r.Assume("two initiations that name the same one-time pre-key: only the first to arrive can be established (C05)")
	for _, s := range []struct {
		root         string
		sends, inits [2]int
		modes        string
		q, t         int
		mem          bool
		archive      int
	}{
		{"fresh", [2]int{3, 3}, [2]int{2, 2}, "n", 7, 9, false, 0},
		{"fresh", [2]int{2, 2}, [2]int{1, 1}, "ons", 7, 8, true, 0},
		{"fresh", [2]int{1, 1}, [2]int{3, 3}, "o", 8, 9, false, 0},
		{"initiated", [2]int{2, 2}, [2]int{1, 1}, "os", 6, 8, false, 0},
		{"established", [2]int{2, 2}, [2]int{1, 1}, "o", 7, 9, true, 0},
		{"crossed", [2]int{2, 2}, [2]int{1, 1}, "n", 6, 8, false, 0},
		{"crossed-read", [2]int{2, 2}, [2]int{1, 1}, "o", 6, 8, true, 1},
		{"reinit", [2]int{2, 2}, [2]int{1, 1}, "n", 5, 7, false, 1},
		{"reinit-read", [2]int{2, 2}, [2]int{1, 1}, "o", 5, 7, false, 0},
		{"three-sessions", [2]int{2, 2}, [2]int{1, 1}, "n", 5, 6, true, 0},
	} {
		cfg := pcfg{Seed: r.Seed, Kinds: "deliver send type session init nosend wire", Modes: s.modes, MaxSend: s.sends, MaxInit: s.inits,
			Mem: s.mem, Archive: s.archive, Check: converge(r)}
		sp := pairSpace(s.root, cfg, core.Pick(r, s.q, s.t))
		sp.Name += "/" + s.modes
		r.Explore(sp)
	}
	// Many sessions in a row: every one is established and the two sides agree on it.
	probe := converge(r)
	var ps []longPat
	for _, p := range longPats(r) {
		if p.Reinit > 0 && p.Chain < 40 {
			ps = append(ps, p)
		}
	}
	longPairs(r, "deliver send type session init nosend wire", nil, ps, nil, func(w *pair, p longPat, turn int) string { return probe(w) })
}
