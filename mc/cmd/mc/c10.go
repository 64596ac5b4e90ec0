package main

import (
	"fmt"

	"verif/mc/core"
)

func init() {
	register("C10", "model_checking", c10)
	register("C11", "model_checking", c11)
}

type gspace struct {
	script string
	gcfg
	q, t int
}

func groupSpaces(r *core.Run, kinds string, check func(w *gw) string, ss []gspace) {
	for _, s := range ss {
		cfg := s.gcfg
		cfg.seed, cfg.kinds, cfg.check = r.Seed, kinds, check
		script := s.script
		r.Explore(core.Space{Name: fmt.Sprintf("[%s] n=%d senders=%v groups=%d mem=%v rekey=%d again=%v", script, cfg.n, cfg.senders, cfg.dists, cfg.mem, cfg.rekey, cfg.again),
			Depth: core.Pick(r, s.q, s.t), Root: func() core.Node { c := cfg; return newGW(&c).run(script) }})
	}
}

func c10(r *core.Run) {
	groupSpaces(r, "deliver send dist refuse", nil, []gspace{
		{"", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 4, maxDist: 3, redead: true, lens: []int{5, 0, 16, 33}}, 11, 13},
		{"", gcfg{n: 3, senders: []int{0}, dists: 1, maxSend: 3, maxDist: 2, mem: true}, 11, 12},
		{"", gcfg{n: 3, senders: []int{0, 1}, dists: 1, maxSend: 2, maxDist: 2}, 10, 11},
		{"", gcfg{n: 2, senders: []int{0}, dists: 2, maxSend: 3, maxDist: 2, mem: true}, 11, 12},
		{"N 0 0; D 1 0; S 0 0", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 4, maxDist: 3, rekey: 1}, 11, 12},
		{"N 0 0; D 1 0; S 0 0; S 0 0; S 0 0; R 1 2; N 0 0", gcfg{n: 3, senders: []int{0}, dists: 1, maxSend: 2, maxDist: 3, again: true, redead: true}, 9, 11},
		{"N 0 0; S 0 0; K 0 0; N 0 0; S 0 0; K 0 0; N 0 0; D 1 all; S 0 0", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 3, maxDist: 3, rekey: 1, again: true}, 9, 11},
	})
	groupOrders(r)
	longGroups(r, "deliver send dist", []int{5, 0, 16, 33, 100}, nil, nil)
	lengthsGroup(r, "deliver send dist")
	marathonGroups(r, mDeliver)
}

// groupOrders reads a burst of messages in every order.
func groupOrders(r *core.Run) {
	n := core.Pick(r, 6, 8)
	cfg := gcfg{seed: r.Seed, n: 2, senders: []int{0}, dists: 1, kinds: "deliver send dist"}
	var perms [][]int
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			perms = append(perms, append([]int(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	c := cfg
	root := newGW(&c).run("N 0 0; D 1 0")
	for i := 0; i < n; i++ {
		root.send(0, 0)
	}
	r.Bound("burst_orders", len(perms))
	r.Parallel(len(perms), func(i int) {
		r.Case("orders", func() any { return perms[i] }, func() string {
			w := root.clone()
			for _, k := range perms[i] {
				if x := w.recv(1, w.Msgs[k]); x != "" {
					return fmt.Sprintf("order %v: %s", perms[i], x)
				}
			}
			return ""
		})
	})
}

// replays offers every consumed message again, before and after processing every
// distribution again, and then checks that pending messages are still readable.
func groupReplays(r *core.Run) func(w *gw) string {
	return func(w *gw) string {
		for m := range w.P {
			if len(w.Seen[m]) == 0 && len(w.Done[m]) == 0 {
				continue
			}
			for pass := -1; pass < len(w.Dists); pass++ {
				c := w.clone()
				if pass >= 0 {
					d := w.Dists[pass]
					if d.chain.sender == m || !w.Done[m][d.id] && w.held(m, d.chain) == nil {
						continue // a first distribution is a new chain, not a repetition
					}
					if err := c.P[m].GroupProcess(c.P[d.chain.sender].Addr, d.wire); err != nil {
						continue
					}
				}
				before := c.P[m].Digest()
				for _, x := range w.Msgs {
					if x.chain.sender == m {
						continue
					}
					if w.Seen[m][x.id] {
						r.Evals.Add(1)
						pt, err := c.P[m].GroupDecrypt(c.P[x.chain.sender].Addr, x.wire)
						if s := refused(pt, err); s != "" {
							return fmt.Sprintf("replay of message %s (iteration %d) at member %d, distribution %d processed again: %s", x.id, x.n, m, pass, s)
						}
						if c.P[m].Digest() != before {
							return fmt.Sprintf("replay of message %s at member %d was refused but changed stored state", x.id, m)
						}
					}
				}
				if pass < 0 {
					continue
				}
				for _, x := range w.Msgs {
					if x.chain.sender != m && !w.Seen[m][x.id] && w.readable(m, x) {
						r.Evals.Add(1)
						pt, err := c.P[m].Clone().GroupDecrypt(c.P[x.chain.sender].Addr, x.wire)
						if err != nil || string(pt) != string(x.pt) {
							return fmt.Sprintf("after distribution %d was processed again by member %d, pending message %s (iteration %d) is unreadable: %v", pass, m, x.id, x.n, err)
						}
					}
				}
			}
		}
		return ""
	}
}

func c11(r *core.Run) {
	groupSpaces(r, "", groupReplays(r), []gspace{
		{"", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 3, maxDist: 3, again: true}, 11, 13},
		{"", gcfg{n: 3, senders: []int{0}, dists: 1, maxSend: 3, maxDist: 2, mem: true}, 11, 12},
		{"", gcfg{n: 2, senders: []int{0, 1}, dists: 1, maxSend: 2, maxDist: 2}, 11, 12},
		{"N 0 0; D 1 0; S 0 0; N 0 0; S 0 0; S 0 0; R 1 2", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 2, maxDist: 3, again: true, rekey: 1}, 10, 12},
		{"N 0 0; D 1 0; S 0 0; S 0 0; R 1 all; K 0 0; N 0 0; D 1 1; S 0 0", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 2, maxDist: 3, again: true, rekey: 1, mem: false}, 10, 12},
	})
	longGroups(r, "refuse", nil, nil, greplayTurn)
	marathonGroups(r, mRefuse)
}
