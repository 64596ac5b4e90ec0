package main

import (
	"bytes"
	"fmt"

	"verif/mc/core"
	"verif/mc/ref"
)

func init() { register("C24", "model_checking", c24) }

func c24(r *core.Run) {
	d := func(q, t int) int { return core.Pick(r, q, t) }
	base := icfg{seed: r.Seed, maxSend: [2]int{3, 3}, maxInit: [2]int{1, 1}, modes: "on", mirror: true, check: (*inter).erased}
	one := base
	one.maxInit = [2]int{}
	mem := base
	mem.mem, mem.modes = true, "o"
	arch := one
	arch.archive = 2
	restart := one
	restart.restart = true
	for _, s := range []core.Space{
		interSpace("from nothing", "", base, d(7, 8)),
		interSpace("from nothing, bundled stores", "", mem, d(7, 8)),
		interSpace("library initiated", "ILo SL r SR r", one, d(8, 10)),
		interSpace("reference initiated", "IRo SR r SL r", one, d(8, 10)),
		interSpace("both initiated", "ILo IRo SL SR", one, d(7, 9)),
		interSpace("archived sessions", "ILo SL r SR r IRo SR r ILn SL r", arch, d(7, 8)),
		interSpace("archived sessions with late messages", "ILn SL SL r SR SR SR IRo SR SR", arch, d(6, 7)),
		interSpace("with restarts", "IRo SR r SL r", restart, d(6, 8)),
		interSpace("after many turns", "ILn SL r SR r SL r SR r SL r SR r SL r SR SR SR r SL SR", base, d(5, 7)),
	} {
		r.Explore(s)
	}
	r.Count("sessions_not_followed", mirrorLost.Load())
	// Long chains read in every pattern of gaps.
	var cs []kase
	for _, start := range []string{"IRo", "IRn SR r SL r", "ILo SL r"} {
		for _, n := range []int{12, core.Pick(r, 60, 300)} {
			for _, step := range []int{1, 2, 3, 7} {
				for _, rev := range []bool{false, true} {
					start, n, step, rev := start, n, step, rev
					cs = append(cs, kase{fmt.Sprintf("%s, %d messages, every %d first, reversed %v", start, n, step, rev), func() string {
						c := icfg{seed: r.Seed, mirror: true}
						w := newInter(&c).run(start)
						k := len(w.Msgs)
						for i := 0; i < n; i++ {
							w.sendR()
						}
						for off := 0; off < step; off++ {
							for i := off; i < n; i += step {
								j := k + i
								if rev {
									j = k + n - 1 - i
								}
								if w.recv(w.Msgs[j]); w.bad {
									return ""
								}
								if i == off || i >= n-step || i%10 == 0 {
									if s := w.erased(); s != "" {
										return s
									}
								}
							}
							w.sendL()
							if s := w.erased(); s != "" {
								return s
							}
						}
						return ""
					}})
				}
			}
		}
	}
	enumerate(r, "long chains", cs)
	r.Count("control_keys_of_skipped_messages_found", foundPending.Load())
	c24group(r)
}

// groupErased judges the stored state of every device.
func (w *gw) groupErased() string {
	chains := map[gchain]*ref.Chain{}
	for _, d := range w.Dists {
		f, err := ref.ParseSKDM(d.wire)
		if err != nil {
			return ""
		}
		if c := chains[d.chain]; c == nil || f.N < c.N {
			chains[d.chain] = &ref.Chain{Key: f.ChainKey, N: f.N}
		}
	}
	for p := range w.P {
		dump := dumpParty(w.P[p])
		top := map[gchain]uint32{}
		for _, m := range w.Msgs {
			if m.chain.sender != p && !w.Seen[p][m.id] || chains[m.chain] == nil {
				continue
			}
			what := "decrypted"
			if m.chain.sender == p {
				what = "sent"
			}
			if m.n > top[m.chain] || top[m.chain] == 0 {
				top[m.chain] = m.n
			}
			c := *chains[m.chain]
			for ; c.N <= m.n; c = c.Next() {
				if bytes.Contains(dump, c.Key) {
					return fmt.Sprintf("device %d stores the chain key of position %d after message %d was %s", p, c.N, m.n, what)
				}
				if c.N == m.n {
					k := c.GroupKeys()
					if bytes.Contains(dump, k.Seed) || bytes.Contains(dump, k.Cipher) {
						return fmt.Sprintf("device %d stores the message key of message %d, which was %s", p, m.n, what)
					}
				}
			}
		}
	}
	return ""
}

func c24group(r *core.Run) {
	d := func(q, t int) int { return core.Pick(r, q, t) }
	for _, s := range []struct {
		script string
		cfg    gcfg
		q, t   int
	}{
		{"", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 4, maxDist: 3}, 11, 13},
		{"", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 3, maxDist: 2, again: true, mem: true}, 9, 12},
		{"", gcfg{n: 2, senders: []int{0, 1}, dists: 1, maxSend: 2, maxDist: 1}, 10, 12},
		{"", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 3, maxDist: 3, rekey: 2, again: true}, 9, 11},
		{"", gcfg{n: 3, senders: []int{0}, dists: 2, maxSend: 2, maxDist: 2}, 7, 8},
	} {
		cfg := s.cfg
		cfg.seed = r.Seed
		cfg.check = (*gw).groupErased
		r.Explore(core.Space{Name: fmt.Sprintf("group n=%d senders=%v groups=%d rekey=%d mem=%v", cfg.n, cfg.senders, cfg.dists, cfg.rekey, cfg.mem), Depth: d(s.q, s.t), Root: func() core.Node {
			c := cfg
			return newGW(&c)
		}})
	}
	longGroups(r, "", nil, nil, func(w *gw, turn int) string { return w.groupErased() })
}
