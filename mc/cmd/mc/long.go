package main

import (
	"fmt"
	"slices"

	"verif/mc/core"
)

// Long conversations: the explorations cover every history up to a depth; these cover
// whole families of long ones, every combination of the parameters below.

// orders in which a burst is delivered.
var burstOrders = []string{"fifo", "lifo", "evens", "last", "rotate", "thirds"}

// burst returns the order of n messages; a negative entry is one that stays behind.
func burst(order string, n int) (now, later []int) {
	for i := 0; i < n; i++ {
		switch order {
		case "fifo":
			now = append(now, i)
		case "lifo":
			now = append(now, n-1-i)
		case "evens": // the even ones, then the odd ones
			if j := 2 * i; j < n {
				now = append(now, j)
			} else {
				now = append(now, 2*(i-(n+1)/2)+1)
			}
		case "last": // the newest first, the rest in order
			now = append(now, (i+n-1)%n)
		case "rotate":
			now = append(now, (i+n/2)%n)
		case "thirds": // every third one stays behind
			if i%3 == 0 {
				later = append(later, i)
			} else {
				now = append(now, i)
			}
		}
	}
	return now, later
}

type longPat struct {
	First  int
	Mode   byte
	Mem    bool
	Chain  int
	Order  string
	Turns  int
	Delay  int  // turns after which messages that stayed behind arrive
	Reinit int  // a new session every so many turns, by the one whose turn it is
	Both   bool // both sides send their bursts before either reads
}

func (p longPat) String() string { return fmt.Sprintf("%+v", struct{ longPat }{p}) }

// longPats is the grid.
func longPats(r *core.Run) []longPat {
	var ps []longPat
	i := 0
	for _, mode := range []byte("on") {
		for _, chain := range core.Pick(r, []int{1, 2, 7, 40}, []int{1, 2, 3, 7, 40, 150}) {
			for _, order := range burstOrders {
				if chain == 1 && order != "fifo" && order != "thirds" {
					continue
				}
				for _, turns := range core.Pick(r, []int{3, 12}, []int{3, 12, 60}) {
					if chain*turns > 600 {
						continue
					}
					for _, delay := range []int{1, 2, 4, 6} {
						if order != "thirds" && delay != 1 {
							continue
						}
						for _, re := range []int{0, 1, 4} {
							for _, both := range []bool{false, true} {
								i++
								ps = append(ps, longPat{i / 2 % 2, mode, i/4%2 == 1, chain, order, turns, delay, re, both})
							}
						}
					}
				}
			}
		}
	}
	r.Bound("long_conversations", len(ps))
	return ps
}

// play runs a long conversation; after is called at the end of every turn.
func (w *pair) play(p longPat, after func(w *pair, p longPat, turn int) string) string {
	type held struct {
		due int
		m   string
	}
	var back []held
	res := w.Apply(fmt.Sprintf("I%d%c", p.First, p.Mode))
	if res != "" || w.broken {
		return res
	}
	var pend [2][]*pmsg
	send := func(s int) string {
		for i := 0; i < p.Chain; i++ {
			if w.Cur[s] == "" {
				return ""
			}
			n := len(w.Msgs)
			if res := w.send(s); res != "" || w.broken {
				return res
			}
			pend[s] = append(pend[s], w.Msgs[n])
		}
		return ""
	}
	deliver := func(s, turn int) string {
		now, later := burst(p.Order, len(pend[s]))
		for _, i := range later {
			back = append(back, held{turn + p.Delay, pend[s][i].ID})
		}
		for _, i := range now {
			if m := w.msg(pend[s][i].ID); w.deliverable(m) {
				if res := w.recv(m); res != "" || w.broken {
					return res
				}
			}
		}
		pend[s] = nil
		var rest []held
		for _, h := range back {
			m := w.msg(h.m)
			if h.due > turn {
				rest = append(rest, h)
			} else if w.deliverable(m) {
				if res := w.recv(m); res != "" || w.broken {
					return res
				}
			}
		}
		back = rest
		return ""
	}
	for turn := 0; turn < p.Turns; turn++ {
		s := (p.First + turn) % 2
		if p.Reinit > 0 && turn > 0 && turn%p.Reinit == 0 {
			if res := w.Apply(fmt.Sprintf("I%d%c", s, p.Mode)); res != "" || w.broken {
				return res
			}
		}
		res := send(s)
		if res == "" && !w.broken && p.Both {
			res = send(1 - s)
		}
		if res == "" && !w.broken {
			res = deliver(s, turn)
		}
		if res == "" && !w.broken && p.Both {
			res = deliver(1-s, turn)
		}
		if res == "" && !w.broken && after != nil {
			res = after(w, p, turn)
		}
		if res != "" || w.broken {
			if res != "" {
				res = fmt.Sprintf("turn %d: %s", turn, res)
			}
			return res
		}
	}
	return ""
}

// longPairs plays every long conversation.
func longPairs(r *core.Run, kinds string, lens []int, ps []longPat, setup func(c *pcfg), after func(w *pair, p longPat, turn int) string) {
	r.Parallel(len(ps), func(i int) {
		r.Case("long conversations", func() any { return ps[i] }, func() string {
			cfg := pcfg{Seed: r.Seed, Kinds: kinds, Lens: lens, Mem: ps[i].Mem}
			if setup != nil {
				setup(&cfg)
			}
			w := newPair(&cfg)
			res := w.play(ps[i], after)
			r.Count("long_messages", int64(len(w.Msgs)))
			if !w.broken {
				r.Count("long_completed", 1)
			}
			if res != "" {
				return fmt.Sprintf("%v: %s", ps[i], res)
			}
			return ""
		})
	})
}

// replayTurn offers consumed messages again: those of the last turns, and one in
// seven of the older ones, all of them after the last turn.
func replayTurn(w *pair, p longPat, turn int) string {
	n := len(w.Msgs)
	for i := 0; i < n; i++ {
		m := w.Msgs[i]
		if !m.Used || turn < p.Turns-1 && i < n-20 && i%7 != turn%7 {
			continue
		}
		if res := w.recv(m); res != "" || w.broken {
			return res
		}
	}
	return ""
}

// gridLens are content lengths: all small ones, around block and page sizes, large ones.
func gridLens(r *core.Run) []int {
	var ls []int
	for l := 0; l <= core.Pick(r, 600, 4200); l++ {
		ls = append(ls, l)
	}
	for _, b := range []int{1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072} {
		for d := -17; d <= 17; d++ {
			ls = append(ls, b+d)
		}
	}
	return append(ls, 1<<18, 1<<20)
}

// lengthsPair sends one content of every length at every stage of a conversation.
func lengthsPair(r *core.Run, kinds string) {
	ls := gridLens(r)
	r.Bound("content_lengths", len(ls))
	stages := []struct{ name, script string }{
		{"set-up message", "I0o"}, {"second set-up message", "I0n S0 r1"}, {"first answer", "I0o S0 r1"}, {"established", "I0o S0 r1 S1 r0"}, {"in a chain", "I0n S0 r1 S1 S1 r0"},
	}
	for si, s := range stages {
		cfg := pcfg{Seed: r.Seed, Kinds: kinds, Mem: si%2 == 1}
		root := newPair(&cfg).run(s.script)
		from := 0
		if s.name == "first answer" || s.name == "in a chain" {
			from = 1
		}
		r.Parallel(len(ls), func(i int) {
			r.Case("lengths", func() any { return map[string]any{"stage": s.name, "length": ls[i]} }, func() string {
				w := root.clone()
				pt := core.Bytes(ls[i], r.Seed, "length", ls[i])
				for k := 0; k < 2; k++ {
					m, res := w.sendPT(from, pt)
					if res != "" || m == nil {
						return res
					}
					if res := w.recv(m); res != "" || w.broken {
						return fmt.Sprintf("%s of %d bytes: %s", s.name, ls[i], res)
					}
					// Contents that look like padding.
					pt = append([]byte(nil), pt...)
					for j := range pt {
						pt[j] = byte(16 - ls[i]%16)
					}
				}
				return ""
			})
		})
	}
}

// ---- groups ----

type glongPat struct {
	Mem    bool
	Chain  int
	Order  string
	Turns  int
	Delay  int
	Rekey  int // a new chain every so many turns
	Redist int // the chain is distributed again every so many turns
	Again  int // every distribution of a chain still held is processed again: 1 after each turn, oldest first; 2 the newest before each turn; 3 before each turn, newest first
	Join   int // turn at which a third member joins
}

func glongPats(r *core.Run) []glongPat {
	var ps []glongPat
	i := 0
	for _, chain := range core.Pick(r, []int{1, 3, 40}, []int{1, 2, 3, 7, 40, 150}) {
		for _, order := range burstOrders {
			if chain == 1 && order != "fifo" && order != "thirds" {
				continue
			}
			for _, turns := range core.Pick(r, []int{3, 10}, []int{3, 10, 40}) {
				if chain*turns > 600 {
					continue
				}
				for _, delay := range []int{1, 4} {
					if order != "thirds" && delay != 1 {
						continue
					}
					for _, re := range []int{0, 1, 3} {
						for again := 0; again <= 3; again++ {
							for _, rd := range []int{0, 2} {
								i++
								ps = append(ps, glongPat{re == 0 && i/2%2 == 0, chain, order, turns, delay, re, rd, again, i % 4})
							}
						}
					}
				}
			}
		}
	}
	r.Bound("long_group_conversations", len(ps))
	return ps
}

func (w *gw) play(p glongPat, after func(w *gw, turn int) string) string {
	type held struct {
		due int
		x   *gmsg
	}
	var back []held
	joined := func(m, turn int) bool { return m == 1 || m == 2 && turn >= p.Join }
	again := func(ds []*gdist) string {
		for m := 1; m <= 2; m++ {
			for _, d := range ds {
				if w.Done[m][d.id] && w.held(m, d.chain) != nil {
					if res := w.process(m, d); res != "" || w.bad {
						return res
					}
				}
			}
		}
		return ""
	}
	for turn := 0; turn < p.Turns; turn++ {
		if p.Rekey > 0 && turn > 0 && turn%p.Rekey == 0 {
			w.Apply("K 0 0")
		}
		fresh := !w.Live[[2]int{0, 0}]
		if fresh || turn == p.Join || p.Redist > 0 && turn%p.Redist == 0 {
			if res := w.newDist(0, 0); res != "" || w.bad {
				return res
			}
			d := w.Dists[len(w.Dists)-1]
			for m := 1; m <= 2; m++ {
				if joined(m, turn) && (fresh || w.held(m, d.chain) == nil || p.Redist > 0) {
					if res := w.process(m, d); res != "" || w.bad {
						return res
					}
				}
			}
		}
		if p.Again > 1 {
			ds := append([]*gdist(nil), w.Dists...)
			slices.Reverse(ds)
			if p.Again == 2 {
				ds = ds[:1]
			}
			if res := again(ds); res != "" || w.bad {
				return fmt.Sprintf("turn %d: again: %s", turn, res)
			}
		}
		var ms []*gmsg
		for i := 0; i < p.Chain; i++ {
			x, res := w.send(0, 0)
			if res != "" || w.bad {
				return res
			}
			ms = append(ms, x)
		}
		now, later := burst(p.Order, len(ms))
		for _, i := range later {
			back = append(back, held{turn + p.Delay, ms[i]})
		}
		var list []*gmsg
		for _, i := range now {
			list = append(list, ms[i])
		}
		var rest []held
		for _, h := range back {
			if h.due > turn {
				rest = append(rest, h)
			} else {
				list = append(list, h.x)
			}
		}
		back = rest
		for m := 1; m <= 2; m++ {
			for _, x := range list {
				if joined(m, turn) {
					if res := w.recv(m, x); res != "" || w.bad {
						return fmt.Sprintf("turn %d: %s", turn, res)
					}
				}
			}
		}
		if p.Again == 1 {
			if res := again(w.Dists); res != "" || w.bad {
				return fmt.Sprintf("turn %d: again: %s", turn, res)
			}
		}
		if after != nil {
			if res := after(w, turn); res != "" || w.bad {
				return fmt.Sprintf("turn %d: %s", turn, res)
			}
		}
	}
	return ""
}

func longGroups(r *core.Run, kinds string, lens []int, setup func(c *gcfg), after func(w *gw, turn int) string) {
	ps := glongPats(r)
	r.Parallel(len(ps), func(i int) {
		r.Case("long group conversations", func() any { return ps[i] }, func() string {
			cfg := gcfg{seed: r.Seed, kinds: kinds, lens: lens, mem: ps[i].Mem, n: 3, senders: []int{0}, dists: 1}
			if setup != nil {
				setup(&cfg)
			}
			w := newGW(&cfg)
			res := w.play(ps[i], after)
			r.Count("long_messages", int64(len(w.Msgs)))
			if !w.bad {
				r.Count("long_completed", 1)
			}
			if res != "" {
				return fmt.Sprintf("%+v: %s", ps[i], res)
			}
			return ""
		})
	})
}

// greplayTurn offers consumed group messages again.
func greplayTurn(w *gw, turn int) string {
	n := len(w.Msgs)
	for m := 1; m <= 2; m++ {
		for i, x := range w.Msgs {
			if !w.Seen[m][x.id] || i < n-20 && i%7 != turn%7 {
				continue
			}
			if res := w.recv(m, x); res != "" || w.bad {
				return res
			}
		}
	}
	return ""
}

func lengthsGroup(r *core.Run, kinds string) {
	ls := gridLens(r)
	r.Bound("content_lengths", len(ls))
	for si, script := range []string{"N 0 0; D 1 0", "N 0 0; D 1 0; S 0 0; R 1 0; S 0 0"} {
		cfg := gcfg{seed: r.Seed, kinds: kinds, mem: si == 1, n: 2, senders: []int{0}, dists: 1}
		root := newGW(&cfg).run(script)
		r.Parallel(len(ls), func(i int) {
			r.Case("lengths", func() any { return map[string]any{"script": script, "length": ls[i]} }, func() string {
				w := root.clone()
				c := *w.cfg
				c.lens = []int{ls[i]}
				w.cfg = &c
				x, res := w.send(0, 0)
				if res != "" || w.bad {
					return res
				}
				if res := w.recv(1, x); res != "" {
					return fmt.Sprintf("%d bytes: %s", ls[i], res)
				}
				return ""
			})
		})
	}
}
