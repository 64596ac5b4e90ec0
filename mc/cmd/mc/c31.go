package main

import (
	"errors"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C31", "model_checking", c31) }

// classes of errors an application tells apart.
type errClass struct{ dup, untrusted, fault bool }

func classOf(err error) errClass {
	return errClass{errors.Is(err, perrors.ErrDuplicateMessage), perrors.IsErrUntrustedIdentity(err), errors.Is(err, world.ErrFault)}
}

// wantClass checks that an error has exactly one meaning.
func wantClass(what string, err error, want errClass) string {
	if err == nil {
		return "" // whether it must be refused is judged by other properties
	}
	if world.IsPanic(err) {
		return what + ": " + err.Error()
	}
	if got := classOf(err); got != want {
		return fmt.Sprintf("%s: the error %q is recognised as %+v, expected %+v", what, err, got, want)
	}
	return ""
}

var (
	isDup       = errClass{dup: true}
	isUntrusted = errClass{untrusted: true}
	isFault     = errClass{fault: true}
	isOther     = errClass{}
)

func (w *pair) retained(m *pmsg) bool {
	p := m.To
	if w.Sess[m.Sess].Evicted[fmt.Sprint(p, m.Chain)] {
		return false
	}
	if w.Cur[p] == m.Sess {
		return true
	}
	for _, a := range w.Arch[p] {
		if a == m.Sess {
			return true
		}
	}
	return false
}

// altered is a message with the last byte of its authentication code changed.
func altered(typ message.CiphertextType, wire []byte) []byte {
	if typ == message.PreKeyType {
		f, err := ref.ParsePreKey(wire)
		if err != nil {
			panic(err)
		}
		g := *f
		g.Message = altered(message.WhisperType, f.Message)
		return ref.EncodePreKey(g)
	}
	x := append([]byte(nil), wire...)
	x[len(x)-1] ^= 1
	return x
}

func classPair(r *core.Run, faults bool) func(w *pair) string {
	return func(w *pair) string {
		n := int64(0)
		defer func() { r.Evals.Add(n) }()
		stranger := world.NewKeyPair(w.cfg.Seed, "stranger")
		for p := 0; p < 2; p++ {
			q := 1 - p
			var probe *world.Party
			fresh := func() *world.Party { n++; probe = w.P[p].Clone(); return probe }
			rec, has := w.P[p].RawRecord(w.addr(q))
			// Sending without a session, and a record without a current one.
			if w.Cur[p] == "" {
				_, _, err := fresh().Encrypt(w.addr(q), []byte("x"))
				if s := wantClass("sending without a session", err, isOther); s != "" {
					return s
				}
				if err != nil && !errors.Is(err, perrors.ErrSessionNotFound(w.addr(q))) {
					return fmt.Sprintf("sending without a session: the error %q does not say that there is no session with %v", err, w.addr(q))
				}
			}
			if has && rec.State() == nil {
				_, e1 := rec.Version()
				_, e2 := rec.SenderChainKey()
				_, e3 := rec.LocalIdentityKey()
				_, _, e4 := rec.RemoteIdentityKey()
				_, _, e5 := rec.ReceiverChainKey(stranger.PublicKey())
				for i, err := range []error{e1, e2, e3, e4, e5} {
					if !errors.Is(err, perrors.ErrNoCurrentSession) {
						return fmt.Sprintf("asking an archived record (%d): %v", i, err)
					}
				}
			}
			for _, m := range w.Msgs {
				if m.To != p {
					continue
				}
				what := fmt.Sprintf("message %s (%v, session %s, counter %d) to %s", m.ID, m.Typ, m.Sess, m.N, party[p])
				if !has && m.Typ != message.PreKeyType {
					_, err := fresh().Decrypt(w.addr(q), m.Typ, m.Wire)
					if s := wantClass(what+" without any session", err, isOther); s != "" {
						return s
					}
					if err != nil && !errors.Is(err, perrors.ErrSessionNotFound(w.addr(q))) {
						return fmt.Sprintf("%s without any session: the error %q does not say that there is no session with %v", what, err, w.addr(q))
					}
				}
				switch {
				case m.Used && w.retained(m):
					for again := 0; again < 2; again++ {
						if again == 0 {
							fresh()
						}
						_, err := probe.Decrypt(w.addr(q), m.Typ, m.Wire)
						if err == nil {
							return what + " was accepted again"
						}
						if s := wantClass(what+" delivered again", err, isDup); s != "" {
							return s
						}
					}
				case !m.Used:
					_, err := fresh().Decrypt(w.addr(q), m.Typ, altered(m.Typ, m.Wire))
					if s := wantClass(what+" altered", err, isOther); s != "" {
						return s
					}
					if !w.deliverable(m) {
						_, err := fresh().Decrypt(w.addr(q), m.Typ, m.Wire)
						if s := wantClass(what+" not readable here", err, isOther); s != "" {
							return s
						}
						break
					}
					x := fresh()
					x.SetTrust(w.addr(q), identKey(stranger.PublicKey().Bytes()))
					_, err = x.Decrypt(w.addr(q), m.Typ, m.Wire)
					if err == nil {
						return what + ": accepted although another identity is trusted"
					}
					if s := wantClass(what+" of an identity that is not trusted", err, isUntrusted); s != "" {
						return s
					}
				}
			}
			x := fresh()
			x.SetTrust(w.addr(q), identKey(stranger.PublicKey().Bytes()))
			if w.Cur[p] != "" {
				_, _, err := x.Encrypt(w.addr(q), []byte("x"))
				if err == nil {
					return "sent to an identity that is not trusted"
				}
				if s := wantClass("sending to an identity that is not trusted", err, isUntrusted); s != "" {
					return s
				}
			}
			for _, mode := range []byte("on") {
				b := w.clone().bundleFor(p, mode)
				err := x.ProcessBundle(w.addr(q), b)
				if err == nil {
					return "a bundle of an identity that is not trusted was accepted"
				}
				if s := wantClass("a bundle of an identity that is not trusted", err, isUntrusted); s != "" {
					return s
				}
				n++
				b.SignedPreKeySignature = append([]byte(nil), b.SignedPreKeySignature...)
				b.SignedPreKeySignature[5] ^= 1
				if s := wantClass("a bundle with a wrong signature", fresh().ProcessBundle(w.addr(q), b), isOther); s != "" {
					return s
				}
			}
		}
		if !faults {
			return ""
		}
		for _, op := range w.faultOps() {
			a := w.clone()
			f := a.faultOp(op)
			base := withFault(f.party, fault{at: -1}, func() error { _, err := f.run(); return err })
			if base.err != nil {
				continue
			}
			for k := 0; k < base.calls; k++ {
				for _, mode := range faultModes[:2] {
					n++
					c := w.clone()
					g := c.faultOp(op)
					e := withFault(g.party, fault{k, mode}, func() error { _, err := g.run(); return err })
					if !e.fired || op[0] == 'R' && e.call.Store == "random" {
						continue
					}
					where := fmt.Sprintf("%s with %s at call %d (%v)", op, mode, k+1, e.call)
					if e.err == nil {
						return where + ": success was reported"
					}
					if s := wantClass(where, e.err, isFault); s != "" {
						return s
					}
				}
			}
		}
		return ""
	}
}

func classGroup(r *core.Run) func(w *gw) string {
	return func(w *gw) string {
		n := int64(0)
		defer func() { r.Evals.Add(n) }()
		for m := range w.P {
			for _, x := range w.Msgs {
				if x.chain.sender == m {
					continue
				}
				n++
				from := w.P[x.chain.sender].Addr
				what := fmt.Sprintf("message %s (iteration %d) at member %d", x.id, x.n, m)
				c := w.P[m].Clone()
				switch {
				case w.Seen[m][x.id] && w.held(m, x.chain) != nil:
					for again := 0; again < 2; again++ {
						_, err := c.GroupDecrypt(from, x.wire)
						if err == nil {
							return what + " was accepted again"
						}
						if s := wantClass(what+" delivered again", err, isDup); s != "" {
							return s
						}
					}
				case w.readable(m, x):
					y := append([]byte(nil), x.wire...)
					y[len(y)-9] ^= 1
					_, err := c.GroupDecrypt(from, y)
					if s := wantClass(what+" altered", err, isOther); s != "" {
						return s
					}
				case !w.Seen[m][x.id] && w.held(m, x.chain) == nil:
					_, err := c.GroupDecrypt(from, x.wire)
					if s := wantClass(what+" without its distribution", err, isOther); s != "" {
						return s
					}
				}
			}
		}
		for _, op := range w.Ops() {
			if op[0] == 'K' {
				continue
			}
			a := w.clone()
			f := a.faultOp(op)
			base := withFault(f.party, fault{at: -1}, func() error { _, err := f.run(); return err })
			if base.err != nil {
				continue
			}
			for k := 0; k < base.calls; k++ {
				for _, mode := range faultModes[:2] {
					n++
					c := w.clone()
					g := c.faultOp(op)
					e := withFault(g.party, fault{k, mode}, func() error { _, err := g.run(); return err })
					if !e.fired {
						continue
					}
					where := fmt.Sprintf("%s with %s at call %d (%v)", op, mode, k+1, e.call)
					if e.err == nil {
						return where + ": success was reported"
					}
					if s := wantClass(where, e.err, isFault); s != "" {
						return s
					}
				}
			}
		}
		return ""
	}
}

func c31(r *core.Run) {
	for _, s := range []struct {
		root         string
		sends, inits [2]int
		restart      bool
		archive      int
		faults       bool
		q, t         int
		mem          bool
	}{
		{"fresh", [2]int{3, 2}, [2]int{1, 1}, false, 1, true, 5, 7, false},
		{"fresh", [2]int{2, 2}, [2]int{1, 1}, true, 0, false, 7, 9, true},
		{"initiated", [2]int{3, 3}, [2]int{0, 1}, true, 1, true, 4, 6, true},
		{"established", [2]int{3, 3}, [2]int{0, 0}, true, 1, true, 5, 7, false},
		{"established-none", [2]int{2, 2}, [2]int{1, 1}, false, 1, false, 5, 7, true},
		{"skipped", [2]int{2, 2}, [2]int{0, 0}, false, 1, true, 4, 6, false},
		{"ratcheted", [2]int{2, 2}, [2]int{0, 0}, false, 1, false, 4, 6, true},
		{"full-chains", [2]int{1, 1}, [2]int{0, 0}, false, 1, false, 3, 5, false},
		{"crossed", [2]int{2, 2}, [2]int{0, 0}, false, 1, true, 4, 6, false},
		{"crossed-read", [2]int{2, 2}, [2]int{0, 1}, false, 1, false, 4, 6, true},
		{"reinit-read", [2]int{2, 2}, [2]int{1, 0}, false, 1, false, 4, 6, false},
		{"three-sessions", [2]int{1, 1}, [2]int{0, 0}, false, 1, true, 3, 5, true},
		{"Z0", [2]int{2, 2}, [2]int{0, 0}, true, 0, false, 5, 7, false},
	} {
		cfg := pcfg{Seed: r.Seed, Kinds: "", Modes: "on", Check: classPair(r, s.faults)}
		cfg.MaxSend, cfg.MaxInit, cfg.Mem, cfg.Restart, cfg.Archive = s.sends, s.inits, s.mem, s.restart, s.archive
		r.Explore(pairSpace(s.root, cfg, core.Pick(r, s.q, s.t)))
	}
	for _, c := range []struct {
		policy string
		mem    bool
		max    map[string]int
		q, t   int
	}{
		{"tofu", false, map[string]int{"G": 1, "E": 1, "s": 2, "S": 2, "T": 1}, 6, 8},
		{"tofu", true, map[string]int{"G": 1, "E": 1, "s": 1, "S": 1, "T": 1, "F": 1}, 7, 9},
		{"deny-sending", false, map[string]int{"G": 1, "E": 1, "s": 2, "S": 1, "T": 1}, 7, 8},
		{"deny-receiving", false, map[string]int{"G": 1, "E": 1, "s": 1, "S": 2, "T": 1}, 7, 8},
		{"only-1", false, map[string]int{"G": 1, "E": 1, "s": 1, "S": 1, "T": 1}, 7, 8},
	} {
		cfg := &idCfg{seed: r.Seed, mem: c.mem, policy: c.policy, max: c.max, classes: true}
		r.Explore(core.Space{Name: fmt.Sprintf("identities: %s mem=%v %v", c.policy, c.mem, c.max), Depth: core.Pick(r, c.q, c.t), Root: func() core.Node { return newIDW(r, cfg) }})
	}
	groupSpaces(r, "", classGroup(r), []gspace{
		{"", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 3, maxDist: 3, again: true}, 8, 10},
		{"", gcfg{n: 3, senders: []int{0, 1}, dists: 1, maxSend: 2, maxDist: 2, mem: true}, 6, 8},
		{"N 0 0; D 1 0; S 0 0; S 0 0; S 0 0; R 1 2", gcfg{n: 2, senders: []int{0}, dists: 2, maxSend: 2, maxDist: 3, again: true}, 5, 7},
		{"N 0 0; S 0 0; K 0 0; N 0 0; S 0 0; K 0 0; N 0 0; D 1 all; S 0 0; R 1 all", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 2, maxDist: 4, again: true, rekey: 1}, 5, 7},
	})
	// Duplicates in long conversations.
	longPairs(r, "", nil, longPats(r), nil, func(w *pair, p longPat, turn int) string {
		n := len(w.Msgs)
		for i := 0; i < n; i++ {
			m := w.Msgs[i]
			if !m.Used || !w.retained(m) || turn < p.Turns-1 && i < n-20 && i%7 != turn%7 {
				continue
			}
			r.Evals.Add(1)
			_, err := w.P[m.To].Decrypt(w.addr(m.From), m.Typ, m.Wire)
			if s := wantClass(fmt.Sprintf("message %s (session %s, counter %d) delivered again in turn %d", m.ID, m.Sess, m.N, turn), err, isDup); s != "" {
				return s
			}
		}
		return ""
	})
	longGroups(r, "", nil, nil, func(w *gw, turn int) string {
		n := len(w.Msgs)
		for m := 1; m <= 2; m++ {
			for i, x := range w.Msgs {
				if !w.Seen[m][x.id] || w.held(m, x.chain) == nil || i < n-20 && i%7 != turn%7 {
					continue
				}
				r.Evals.Add(1)
				_, err := w.P[m].GroupDecrypt(w.P[x.chain.sender].Addr, x.wire)
				if s := wantClass(fmt.Sprintf("message %s (iteration %d) delivered again to member %d", x.id, x.n, m), err, isDup); s != "" {
					return s
				}
			}
		}
		return ""
	})
}
