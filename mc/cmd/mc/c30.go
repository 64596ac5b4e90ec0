package main

import (
	"fmt"
	"strings"

	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C30", "model_checking", c30) }

func c30(r *core.Run) {
	d := func(q, t int) int { return core.Pick(r, q, t) }
	base := icfg{seed: r.Seed, maxSend: [2]int{3, 3}, maxInit: [2]int{1, 1}, modes: "on", mirror: true, steal: true, fresh: true, kinds: "ratchet fresh", check: (*inter).healed}
	one := base
	one.maxInit = [2]int{}
	mem := base
	mem.mem, mem.modes = true, "o"
	arch := one
	arch.archive = 1
	for _, s := range []core.Space{
		interSpace("from nothing", "", base, d(6, 7)),
		interSpace("from nothing, bundled stores", "", mem, d(6, 7)),
		interSpace("library initiated", "ILo SL r SR r", one, d(8, 9)),
		interSpace("reference initiated", "IRo SR r SL r", one, d(8, 9)),
		interSpace("both initiated", "ILo IRo SL SR", one, d(7, 8)),
		interSpace("unanswered messages", "IRo SR r SL SL r SR", one, d(8, 9)),
		interSpace("archived sessions", "ILo SL r SR r IRo SR r", arch, d(7, 8)),
	} {
		r.Explore(s)
	}
	r.Count("sessions_not_followed", mirrorLost.Load())
	// Long conversations: a theft at every point of every pattern of turns.
	var cs []kase
	for _, start := range []string{"ILo SL r SR r", "IRn SR r SL r"} {
		for _, turn := range []string{"SL r SR r", "SL SL r SR SR r", "SR r SL r SR SR r", "SL SR r", "SR SL rr"} {
			for at := 0; at < core.Pick(r, 12, 40); at++ {
				start, turn, at := start, turn, at
				cs = append(cs, kase{fmt.Sprintf("%s, theft after %d of %s", start, at, turn), func() string {
					c := icfg{seed: r.Seed, mirror: true, fresh: true, kinds: "ratchet fresh"}
					w := newInter(&c).run(start)
					ops := strings.Fields(strings.Repeat(" "+turn, at+6))
					for i, op := range ops {
						if i == at {
							w.steal()
						}
						if i > at+14 || w.bad {
							break
						}
						w.run(op)
						if w.Fail != "" {
							return w.Fail
						}
						if s := w.healed(); s != "" {
							return s
						}
					}
					return ""
				}})
			}
		}
	}
	enumerate(r, "theft at every point of long conversations", cs)
	r.Count("control_chains_the_thief_can_read", foundStolen.Load())
	c30entropy(r)
}

// c30entropy flips every byte of the random input and counts how many decide the
// new keys.
func c30entropy(r *core.Run) {
	// A source may return less than was asked for.
	for _, chunk := range []int{0, 1, 7, 31} {
		c30entropyOf(r, chunk)
	}
}

func c30entropyOf(r *core.Run, chunk int) {
	flip := func(seed []byte, i int) *flipReader { return &flipReader{seed, 0, i, chunk} }
	seed := core.Bytes(4096, r.Seed, "entropy")
	var cs []kase
	for _, script := range []string{"", "ILo SL r SR", "IRo SR", "IRn SR r SL r SR", "IRo SR r SL r SR r SL r SR"} {
		script := script
		cs = append(cs, kase{"entropy of the keys made after [" + script + "]", func() string {
			c := icfg{seed: r.Seed}
			w := newInter(&c).run(script)
			if w.bad {
				return ""
			}
			var op func(src *flipReader) []string
			want := 32
			if script == "" {
				want = 32
				id := prekey.ID(900)
				b := &prekey.Bundle{RegistrationID: 1, DeviceID: w.RA.DeviceID, SignedPreKeyID: 77, PreKeyID: &id,
					PreKeyPublic: pubKey(ref.Enc(ref.Pub(w.key("x")))), SignedPreKeyPublic: pubKey(ref.Enc(ref.Pub(w.R.Signed))), IdentityKey: identKey(ref.Enc(w.R.ID.Pub))}
				b.SignedPreKeySignature = ref.SignFast(w.R.ID.Priv, make([]byte, 64), b.SignedPreKeyPublic.Bytes())
				op = func(src *flipReader) []string {
					l := w.L.Clone()
					if err := world.Protect(func() error { return l.Session(w.RA).ProcessPreKeyBundle(world.Ctx, src, b) }); err != nil {
						return nil
					}
					l.Touched()
					return []string{string(l.CurrentBase(w.RA)), string(sendKey(l, w.RA))}
				}
			} else {
				m := w.Msgs[len(w.Msgs)-1]
				typ := message.WhisperType
				if m.Pre {
					typ = message.PreKeyType
				}
				op = func(src *flipReader) []string {
					l := w.L.Clone()
					if _, err := l.DecryptWith(w.RA, typ, m.Wire, src); err != nil {
						return nil
					}
					return []string{string(sendKey(l, w.RA))}
				}
			}
			src := flip(seed, -1)
			plain := op(src)
			if plain == nil {
				return ""
			}
			for k := range plain {
				n := 0
				for i := 0; i < src.n; i++ {
					if got := op(flip(seed, i)); got == nil || got[k] != plain[k] {
						n++
					}
				}
				if n < want {
					return fmt.Sprintf("only %d bytes of the %d random bytes read decide a new key", n, src.n)
				}
			}
			return ""
		}})
	}
	enumerate(r, fmt.Sprintf("entropy of new keys, reads of %d", chunk), cs)
}

// flipReader delivers fixed bytes with one of them changed (in a bit no key ignores).
type flipReader struct {
	b    []byte
	n    int
	flip int
	// chunk is how much a read returns at most, unless 0.
	chunk int
}

func (f *flipReader) Read(p []byte) (int, error) {
	if f.chunk > 0 && len(p) > f.chunk {
		p = p[:f.chunk]
	}
	for i := range p {
		p[i] = f.b[f.n%len(f.b)]
		if f.n == f.flip {
			p[i] ^= 0x10
		}
		f.n++
	}
	return len(p), nil
}
