package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"sort"

	"github.com/RTann/libsignal-go/protocol/message"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C02", "model_checking", c02) }

type variant struct {
	name string
	typ  message.CiphertextType
	wire []byte
}

func u32(n uint32) *uint32 { return &n }

// envelopes returns the ways to present a message again: unchanged, and with the
// parts that are not covered by its authentication changed.
func (w *pair) envelopes(m *pmsg) []variant {
	vs := []variant{{"unchanged", m.Typ, m.Wire}}
	var bases [][]byte
	var names []string
	for k := range w.Sess {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		if b := w.Sess[k].Base; len(b) == 33 {
			bases = append(bases, b)
		}
	}
	fresh := ref.Enc(world.NewKeyPair(w.cfg.Seed, "attacker base").PublicKey().KeyBytes())
	// One-time pre-keys that exist at the receiver, in order.
	var pres []int
	for n := range w.Pre[m.To] {
		pres = append(pres, n)
	}
	sort.Ints(pres)
	inner := m.Wire
	f := &ref.PreKeyFields{Version: 0x33, Reg: w.P[m.From].Reg, Signed: uint32(signedID), Base: fresh,
		Identity: w.P[m.From].KP.IdentityKey().Bytes(), Message: m.Wire}
	add := func(name string, g ref.PreKeyFields) {
		vs = append(vs, variant{name, message.PreKeyType, ref.EncodePreKey(g)})
	}
	if m.Typ == message.PreKeyType {
		p, err := ref.ParsePreKey(m.Wire)
		if err != nil {
			return vs
		}
		f, inner = p, p.Message
		vs = append(vs, variant{"unwrapped", message.WhisperType, inner})
		g := *f
		g.Base = append([]byte(nil), f.Base...)
		g.Base[32] ^= 0x80
		add("base key alias", g)
		g = *f
		g.Reg ^= 1
		add("other registration ID", g)
		g = *f
		g.Pre = nil
		add("without one-time key", g)
		g.Pre = u32(9999)
		add("unknown one-time key", g)
		g = *f
		g.Signed = 9999
		add("unknown signed key", g)
		g = *f
		g.Version = 0x30
		add("other version nibble", g)
		vs = append(vs, variant{"unknown field", message.PreKeyType, append(append([]byte(nil), m.Wire...), ref.PB(nil).Uint(9, 1)...)})
		vs = append(vs, variant{"repeated field", message.PreKeyType, append(append([]byte(nil), m.Wire...), ref.PB(nil).Uint(5, 77)...)})
	} else {
		add("wrapped, new base key", *f)
	}
	for i, n := range pres {
		if i >= 2 {
			break
		}
		g := *f
		g.Pre = u32(uint32(n))
		add(fmt.Sprint("one-time key ", n), g)
		g.Base = fresh
		add(fmt.Sprint("one-time key ", n, ", new base key"), g)
	}
	for i, b := range bases {
		if bytes.Equal(b, f.Base) {
			continue
		}
		g := *f
		g.Base = b
		add("base key of session "+names[i], g)
		g.Pre = nil
		add("base key of session "+names[i]+" without one-time key", g)
	}
	g := *f
	g.Base = fresh
	add("new base key", g)
	g.Pre = nil
	add("new base key without one-time key", g)
	return vs
}

// refused checks that an operation failed cleanly.
func refused(pt []byte, err error) string {
	switch {
	case err == nil:
		return fmt.Sprintf("accepted (plaintext %q)", clip(pt))
	case world.IsPanic(err):
		return err.Error()
	case len(pt) != 0:
		return fmt.Sprintf("plaintext released together with error %q", err)
	}
	return ""
}

// probeReplays offers every consumed message again.
func probeReplays(r *core.Run) func(w *pair) string {
	return func(w *pair) string {
		for _, m := range w.Msgs {
			if !m.Used {
				continue
			}
			before := w.P[m.To].Digest()
			c := w.P[m.To].Clone()
			n := int64(0)
			for _, v := range w.envelopes(m) {
				n++
				pt, err := c.DecryptWith(w.addr(m.From), v.typ, v.wire, core.NewPRF(w.cfg.Seed, "probe", v.wire))
				if s := refused(pt, err); s != "" {
					return fmt.Sprintf("replay of message %s (session %s, counter %d, %s) to %s: %s", m.ID, m.Sess, m.N, v.name, party[m.To], s)
				}
				if c.Digest() != before {
					return fmt.Sprintf("replay of message %s (session %s, counter %d, %s) to %s was refused but changed stored state %v", m.ID, m.Sess, m.N, v.name, party[m.To],
						world.Diff(w.P[m.To].Contents(), c.Contents()))
				}
			}
			r.Evals.Add(n)
		}
		return ""
	}
}

func c02(r *core.Run) {
	base := pcfg{Seed: r.Seed, Kinds: "", Modes: "on", Check: probeReplays(r)}
	for _, s := range []struct {
		root         string
		sends, inits [2]int
		restart      bool
		archive      int
		q, t         int
		mem          bool
	}{
		{"fresh", [2]int{3, 2}, [2]int{1, 1}, false, 0, 7, 9, false},
		{"initiated", [2]int{3, 3}, [2]int{0, 1}, true, 0, 6, 8, true},
		{"established", [2]int{3, 3}, [2]int{0, 0}, true, 0, 6, 8, false},
		{"established-none", [2]int{2, 2}, [2]int{1, 1}, false, 1, 5, 7, true},
		{"skipped", [2]int{2, 2}, [2]int{0, 0}, false, 0, 5, 7, false},
		{"ratcheted", [2]int{2, 2}, [2]int{0, 0}, false, 0, 4, 6, true},
		{"full-chains", [2]int{1, 1}, [2]int{0, 0}, false, 0, 3, 5, false},
		{"crossed", [2]int{2, 2}, [2]int{0, 0}, false, 0, 5, 7, false},
		{"crossed-read", [2]int{2, 2}, [2]int{0, 1}, false, 1, 4, 6, true},
		{"reinit", [2]int{2, 2}, [2]int{0, 0}, false, 0, 5, 7, true},
		{"reinit-read", [2]int{2, 2}, [2]int{1, 0}, false, 1, 4, 6, false},
		{"three-sessions", [2]int{1, 1}, [2]int{0, 0}, false, 0, 4, 6, true},
		{"Z0", [2]int{2, 2}, [2]int{0, 0}, true, 0, 5, 8, false},
	} {
		cfg := base
		cfg.MaxSend, cfg.MaxInit, cfg.Mem, cfg.Restart, cfg.Archive = s.sends, s.inits, s.mem, s.restart, s.archive
		r.Explore(pairSpace(s.root, cfg, core.Pick(r, s.q, s.t)))
	}
	manySessions(r)
	var ps []longPat
	for _, p := range longPats(r) {
		if p.Chain < 40 || p.Reinit == 0 && p.Turns < 12 {
			ps = append(ps, p)
		}
	}
	longPairs(r, "refuse", nil, ps, nil, replayTurn)
	marathonPairs(r, mRefuse)
}

// manySessions replays messages of sessions buried under other sessions (fewer than
// are retained), and of long chains.
func manySessions(r *core.Run) {
	cfg := pcfg{Seed: r.Seed, Modes: "o"}
	w := newPair(&cfg).run("")
	w.cfg.MaxSend = [2]int{1000, 1000}
	script := []string{}
	for i := 0; i < 12; i++ {
		script = append(script, fmt.Sprintf("I%d%c", i%2, "on"[i%3/2]), fmt.Sprintf("S%d", i%2), fmt.Sprintf("r%d", 1-i%2), fmt.Sprintf("S%d", 1-i%2), fmt.Sprintf("r%d", i%2))
	}
	probe := probeReplays(r)
	for i, op := range script {
		w.run(op)
		if w.broken {
			return
		}
		if i%5 != 4 {
			continue
		}
		i, c := i, w.clone()
		r.Case("buried sessions", func() any { return script[:i+1] }, func() string { return probe(c) })
	}
	// A long chain read in a scattered order.
	w = newPair(&cfg).run("I0n S0 r1 S1 r0")
	for i := 0; i < 140; i++ {
		if w.send(0) != "" {
			return
		}
	}
	k := len(w.Msgs) - 140
	for i := 0; i < 140; i++ {
		m := w.Msgs[k+(i*37)%140]
		if w.recv(m) != "" || w.broken {
			return
		}
		if i%20 == 19 {
			c := w.clone()
			r.Case("long chain", func() any { return hex.EncodeToString(m.Wire) }, func() string { return probe(c) })
		}
	}
}
