package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/RTann/libsignal-go/protocol/message"

	"verif/mc/core"
)

func init() { register("C19", "model_checking", c19) }

const interKinds = "init send recv header ratchet"

func c19(r *core.Run) {
	lens := []int{0, 1, 15, 16, 17, 40}
	base := icfg{seed: r.Seed, maxSend: [2]int{3, 3}, maxInit: [2]int{1, 1}, modes: "on", lens: lens, kinds: interKinds}
	one := base
	one.maxInit = [2]int{0, 0}
	mem := base
	mem.mem = true
	mem.modes = "o"
	restart := one
	restart.restart = true
	restart.kinds = interKinds + " restart"
	d := func(q, t int) int { return core.Pick(r, q, t) }
	r.Bound("content_lengths", fmt.Sprint(lens))
	for _, s := range []core.Space{
		interSpace("from nothing", "", base, d(7, 9)),
		interSpace("from nothing, bundled stores", "", mem, d(7, 8)),
		interSpace("library initiated", "ILo SL r SR r", one, d(9, 11)),
		interSpace("reference initiated", "IRo SR r SL r", one, d(9, 11)),
		interSpace("both initiated", "ILo IRn SL SR", one, d(8, 9)),
		interSpace("after many turns", "ILn SL r SR r SL r SR r SL r SR r SL r SR r SL SR", base, d(6, 7)),
		interSpace("with restarts", "ILo SL r SR r", restart, d(7, 9)),
		interSpace("repeated set-up by the library", "ILo SL SL ILn SL", one, d(7, 9)),
		interSpace("repeated set-up by the reference", "IRo SR SR IRn SR", one, d(7, 9)),
	} {
		r.Explore(s)
	}
	// Long chains in every rotation and reversed, and many turns.
	var cs []kase
	n := core.Pick(r, 40, 200)
	long := core.Pick(r, 300, 2100)
	for _, start := range []string{"ILo", "IRo", "ILn SL r SR r", "IRn SR r SL r"} {
		for _, who := range []string{"SL", "SR"} {
			for _, del := range []string{"r", "rr"} {
				start, who, del := start, who, del
				if strings.HasPrefix(start, "IL") && len(start) == 3 && who == "SR" || strings.HasPrefix(start, "IR") && len(start) == 3 && who == "SL" {
					continue
				}
				cs = append(cs, kase{start + " then " + fmt.Sprint(long) + " " + who + " " + del, func() string {
					var all []int
					for l := 0; l < 80; l++ {
						all = append(all, l)
					}
					c := icfg{seed: r.Seed, kinds: interKinds, lens: all}
					w := newInter(&c).run(start + strings.Repeat(" "+who, long) + " " + del + " SR SL " + del + " SR SL r")
					return w.Fail
				}})
			}
		}
	}
	for _, start := range []string{"ILo", "IRn"} {
		for _, turn := range []string{" SL r SR r", " SL SL rr SR SR SR r", " SR r SL SL r", " SL SR r", " SL SR rr"} {
			start, turn := start, turn
			if start == "IRn" && strings.HasPrefix(turn, " SL") {
				start = "IRn SR r"
			}
			if start == "ILo" && strings.HasPrefix(turn, " SR") || strings.HasPrefix(turn, " SL SR") && start == "ILo" {
				start = "ILo SL r"
			}
			cs = append(cs, kase{start + " and " + turn + " repeated", func() string {
				c := icfg{seed: r.Seed, kinds: interKinds}
				return newInter(&c).run(start + strings.Repeat(turn, n)).Fail
			}})
		}
	}
	enumerate(r, "long conversations", cs)
	marathonPairs(r, mHeader)
	marathonInter(r)
}

// marathonInter is one conversation of very many messages with the reference.
func marathonInter(r *core.Run) {
	n := core.Pick(r, 66_000, 200_000)
	var cs []kase
	for _, root := range []string{"IRo SR r SL r", "ILn SL r SR r"} {
		root := root
		cs = append(cs, kase{fmt.Sprintf("%d messages each way after %q", n, root), func() string {
			w := newInter(&icfg{seed: r.Seed, kinds: interKinds}).run(root)
			if w.Fail != "" || len(w.R.Order) == 0 {
				return w.Fail
			}
			s := w.R.Sess[w.R.Order[len(w.R.Order)-1]]
			for i := 0; i < n; i++ {
				typ, wire, err := w.L.Encrypt(w.RA, mText(i))
				if err != nil || typ != message.WhisperType {
					return fmt.Sprintf("message %d is not sent: type %v (%v)", i, typ, err)
				}
				if pt, err := s.Decrypt(wire, w.key("marathon")); err != nil || !bytes.Equal(pt, mText(i)) {
					return fmt.Sprintf("the reference reads message %d as %q (%v)", i, pt, err)
				}
			}
			for i := 0; i < n; i++ {
				_, wire := s.Encrypt(mText(i))
				pt, err := w.L.DecryptWith(w.RA, message.WhisperType, wire, core.NewPRF(r.Seed, "marathon", i))
				if err != nil || !bytes.Equal(pt, mText(i)) {
					return fmt.Sprintf("message %d of the reference is read as %q (%v)", i, pt, err)
				}
			}
			return ""
		}})
	}
	enumerate(r, "marathons with the reference", cs)
}
