package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C05", "model_checking", c05) }

// hub is one receiving device, initiators that fetch bundles from it, and the model
// of its pre-keys.
type hub struct {
	r      *core.Run
	cfg    *hubCfg
	B      *world.Party
	I      []*world.Party
	Msgs   []*hmsg
	Opened map[string]bool // sessions established at the receiver, by base key
	Pre    map[int]bool
	Signed map[int]bool
	Did    []int // initiations per initiator
	Sent   []int
	bad    bool
}

type hubCfg struct {
	n        int
	choices  []hchoice
	maxInit  int
	maxSend  int
	mem      bool
	seed     int64
	tampered bool
}

type hchoice struct {
	pre    int // -1 none
	signed int
}

type hmsg struct {
	id   string
	from int
	typ  message.CiphertextType
	wire []byte
	pt   []byte
	base string
	ch   hchoice
	n    uint32
	used bool
}

func newHub(r *core.Run, cfg *hubCfg) *hub {
	addrs := []address.Address{{Name: "bob", DeviceID: 1}}
	for i := 0; i < cfg.n; i++ {
		addrs = append(addrs, address.Address{Name: "caller", DeviceID: address.DeviceID(i + 1)})
	}
	u := &world.Universe{Addrs: addrs, Signed: []prekey.ID{22, 23, 99}, Pre: []prekey.ID{22, 23, 99, 101, 102, 103, 900}}
	h := &hub{r: r, cfg: cfg, Opened: map[string]bool{}, Pre: map[int]bool{}, Signed: map[int]bool{}}
	h.B = world.NewParty(cfg.seed, "hub", "hub", addrs[0], 7, u, cfg.mem)
	for _, id := range []int{22, 23} {
		h.B.AddSigned(prekey.ID(id))
		h.Signed[id] = true
	}
	// A one-time key with the ID of the signed key must not be confused with it.
	for _, id := range []int{22, 101, 102, 103} {
		h.B.AddPre(prekey.ID(id))
		h.Pre[id] = true
	}
	for i := 0; i < cfg.n; i++ {
		h.I = append(h.I, world.NewParty(cfg.seed, fmt.Sprint("caller", i), fmt.Sprint("caller", i), addrs[i+1], uint32(20+i), u, cfg.mem))
	}
	h.Did, h.Sent = make([]int, cfg.n), make([]int, cfg.n)
	return h
}

func (h *hub) Clone() core.Node {
	c := *h
	c.B = h.B.Clone()
	c.I = nil
	for _, p := range h.I {
		c.I = append(c.I, p.Clone())
	}
	c.Msgs = append([]*hmsg(nil), h.Msgs...)
	c.Opened, c.Pre, c.Signed = map[string]bool{}, map[int]bool{}, h.Signed
	for k := range h.Opened {
		c.Opened[k] = true
	}
	for k := range h.Pre {
		c.Pre[k] = true
	}
	c.Did, c.Sent = append([]int(nil), h.Did...), append([]int(nil), h.Sent...)
	return &c
}

func (h *hub) Key() [32]byte {
	xs := []any{}
	for _, p := range append([]*world.Party{h.B}, h.I...) {
		d := p.Digest()
		xs = append(xs, d[:])
	}
	var ms []string
	for _, m := range h.Msgs {
		ms = append(ms, fmt.Sprint(m.id, m.used))
	}
	sort.Strings(ms)
	return core.Digest(append(xs, strings.Join(ms, ","), fmt.Sprint(h.Did, h.Sent))...)
}

func (h *hub) Ops() []string {
	if h.bad {
		return nil
	}
	var ops []string
	for i := range h.I {
		if h.Did[i] < h.cfg.maxInit {
			for c := range h.cfg.choices {
				ops = append(ops, fmt.Sprintf("I %d %d", i, c))
			}
		}
		if h.Did[i] > 0 && h.Sent[i] < h.cfg.maxSend {
			ops = append(ops, fmt.Sprintf("S %d", i))
		}
	}
	var rs []string
	for _, m := range h.Msgs {
		rs = append(rs, "R "+m.id)
		if h.cfg.tampered && !m.used {
			rs = append(rs, "T "+m.id)
		}
	}
	sort.Strings(rs)
	return append(ops, rs...)
}

func (h *hub) contents() string {
	return fmt.Sprint(keysOf(h.Pre), keysOf(h.Signed))
}

func keysOf(m map[int]bool) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// check compares the pre-key stores with the model.
func (h *hub) check() string {
	for _, id := range h.B.U.Pre {
		k, ok, err := h.B.Pre().Load(world.Ctx, id)
		if err != nil || ok != h.Pre[int(id)] {
			return fmt.Sprintf("one-time pre-key %d: stored %v, expected %v (%v)", id, ok, h.Pre[int(id)], err)
		}
		if ok {
			kp, err := k.KeyPair()
			if err != nil || !bytes.Equal(kp.PrivateKey().Bytes(), h.B.PreKP(id).PrivateKey().Bytes()) {
				return fmt.Sprintf("one-time pre-key %d was changed", id)
			}
		}
	}
	for _, id := range h.B.U.Signed {
		if _, ok, err := h.B.Signed().Load(world.Ctx, id); err != nil || ok != h.Signed[int(id)] {
			return fmt.Sprintf("signed pre-key %d: stored %v, expected %v (%v)", id, ok, h.Signed[int(id)], err)
		}
	}
	return ""
}

// Check offers every message that has not been read in envelopes that name every other
// one-time or signed pre-key, whether it exists or not. Such a message uses up nothing, and where
// it would set up a session it is refused.
func (h *hub) Check() string {
	if h.bad {
		return ""
	}
	for _, m := range h.Msgs {
		if m.used {
			continue
		}
		pres := []*uint32{nil}
		for _, id := range h.B.U.Pre {
			v := uint32(id)
			pres = append(pres, &v)
		}
		for _, pre := range pres {
			n := -1
			if pre != nil {
				n = int(*pre)
			}
			for _, signed := range h.B.U.Signed {
				// One of the two is as it was, and not both.
				if (n == m.ch.pre) == (int(signed) == m.ch.signed) {
					continue
				}
				g, err := ref.ParsePreKey(m.wire)
				if err != nil {
					return ""
				}
				g.Pre, g.Signed = pre, uint32(signed)
				h.r.Evals.Add(1)
				c := *h
				c.B = h.B.Clone()
				before := c.B.Digest()
				_, err = c.B.Decrypt(h.I[m.from].Addr, m.typ, ref.EncodePreKey(*g))
				what := fmt.Sprintf("message %d of initiator %d altered to name one-time key %d and signed key %d", m.n, m.from, n, signed)
				if world.IsPanic(err) {
					return what + ": " + err.Error()
				}
				if !h.Opened[m.base] && err == nil {
					return what + ": accepted"
				}
				if err != nil && c.B.Digest() != before {
					return what + ": refused but changed stored state"
				}
				if x := c.check(); x != "" {
					return what + ": " + x
				}
			}
		}
	}
	return ""
}

func (h *hub) Apply(op string) string {
	f := strings.Fields(op)
	switch f[0] {
	case "I":
		var i, c int
		fmt.Sscan(f[1], &i)
		fmt.Sscan(f[2], &c)
		h.Did[i]++
		ch := h.cfg.choices[c]
		var pre *prekey.ID
		if ch.pre >= 0 {
			id := prekey.ID(ch.pre)
			pre = &id
		}
		if err := h.I[i].ProcessBundle(h.B.Addr, h.B.Bundle(prekey.ID(ch.signed), pre)); err != nil {
			h.bad = true
		}
		return ""
	case "S":
		var i int
		fmt.Sscan(f[1], &i)
		h.Sent[i]++
		pt := core.Bytes(6, h.cfg.seed, "hub", i, h.Sent[i])
		typ, wire, err := h.I[i].Encrypt(h.B.Addr, pt)
		if err != nil || typ != message.PreKeyType {
			h.bad = true
			return ""
		}
		p, err := ref.ParsePreKey(wire)
		if err != nil {
			h.bad = true
			return ""
		}
		ch := hchoice{-1, int(p.Signed)}
		if p.Pre != nil {
			ch.pre = int(*p.Pre)
		}
		s, err := ref.ParseSignal(p.Message)
		if err != nil {
			h.bad = true
			return ""
		}
		d := core.Digest(wire)
		h.Msgs = append(h.Msgs, &hmsg{id: fmt.Sprintf("%d.%x", i, d[:4]), from: i, typ: typ, wire: wire, pt: pt, base: string(p.Base), ch: ch, n: s.N})
		return ""
	}
	k := -1
	for j, m := range h.Msgs {
		if m.id == f[1] {
			k = j
		}
	}
	m := h.Msgs[k]
	var calls []world.Call
	if h.B.DB != nil {
		h.B.DB.Hook = func(c world.Call, post bool) error {
			if !post && c.Write() {
				calls = append(calls, c)
			}
			return nil
		}
		defer func() { h.B.DB.Hook = nil }()
	}
	wire := m.wire
	if f[0] == "T" {
		wire = append([]byte(nil), wire...)
		g, _ := ref.ParsePreKey(wire)
		g.Message = append([]byte(nil), g.Message...)
		g.Message[len(g.Message)-1] ^= 1
		wire = ref.EncodePreKey(*g)
	}
	before := h.B.Digest()
	pt, err := h.B.Decrypt(h.I[m.from].Addr, m.typ, wire)
	expect := f[0] == "R" && !m.used && (h.Opened[m.base] || h.Signed[m.ch.signed] && (m.ch.pre < 0 || h.Pre[m.ch.pre]))
	what := fmt.Sprintf("message %d of initiator %d naming one-time key %d and signed key %d", m.n, m.from, m.ch.pre, m.ch.signed)
	if world.IsPanic(err) {
		return what + ": " + err.Error()
	}
	if !expect {
		why := "already read"
		switch {
		case f[0] == "T":
			why = "altered"
		case m.used:
		case !h.Signed[m.ch.signed]:
			why = "the signed key does not exist"
		default:
			why = "the one-time key does not exist"
		}
		if err == nil {
			return fmt.Sprintf("%s: accepted although %s", what, why)
		}
		if h.B.Digest() != before {
			return fmt.Sprintf("%s: refused (%s) but changed stored state", what, why)
		}
		for _, c := range calls {
			if c.Op == "Delete" {
				return fmt.Sprintf("%s: refused (%s) but removed one-time key %d", what, why, c.ID)
			}
		}
		return h.check()
	}
	if err != nil {
		// Readability is C01's and C04's; here only that a failure uses up nothing.
		h.bad = true
		if h.B.Digest() != before {
			return fmt.Sprintf("%s: failed (%v) but changed stored state", what, err)
		}
		return h.check()
	}
	if !bytes.Equal(pt, m.pt) {
		return what + ": wrong plaintext"
	}
	if !h.Opened[m.base] {
		h.Opened[m.base] = true
		if m.ch.pre >= 0 {
			delete(h.Pre, m.ch.pre)
		}
	}
	c := *m
	c.used = true
	h.Msgs[k] = &c
	return h.check()
}

func c05(r *core.Run) {
	for _, c := range []struct {
		hubCfg
		q, t int
	}{
		{hubCfg{n: 3, choices: []hchoice{{101, 22}, {-1, 22}}, maxInit: 1, maxSend: 2}, 9, 11},
		{hubCfg{n: 2, choices: []hchoice{{101, 22}, {102, 22}, {900, 22}, {101, 99}, {-1, 99}, {22, 22}}, maxInit: 1, maxSend: 2, mem: true}, 8, 9},
		{hubCfg{n: 1, choices: []hchoice{{101, 22}, {102, 23}, {-1, 23}}, maxInit: 2, maxSend: 3, tampered: true}, 8, 11},
		{hubCfg{n: 2, choices: []hchoice{{101, 22}, {102, 23}}, maxInit: 2, maxSend: 2}, 9, 10},
	} {
		cfg := c.hubCfg
		cfg.seed = r.Seed
		r.Explore(core.Space{Name: fmt.Sprintf("initiators=%d choices=%v", cfg.n, cfg.choices), Depth: core.Pick(r, c.q, c.t),
			Root: func() core.Node { return newHub(r, &cfg) }})
	}
	// A pre-key message must not use up the one-time key of another session.
	for _, s := range []struct {
		root         string
		sends, inits [2]int
		q, t         int
		mem          bool
	}{
		{"initiated", [2]int{2, 2}, [2]int{1, 1}, 5, 7, false},
		{"established", [2]int{2, 2}, [2]int{1, 1}, 5, 7, true},
		{"crossed", [2]int{2, 2}, [2]int{0, 1}, 4, 6, false},
		{"reinit", [2]int{1, 1}, [2]int{1, 1}, 4, 6, false},
	} {
		cfg := pcfg{Seed: r.Seed, Kinds: "", Modes: "os", MaxSend: s.sends, MaxInit: s.inits, Mem: s.mem, ReDead: true, Check: func(w *pair) string {
			if x := w.preKeys(); x != "" {
				return x
			}
			return w.stealPre(r)
		}}
		r.Explore(pairSpace(s.root, cfg, core.Pick(r, s.q, s.t)))
	}
	preIDs(r)
}

// preKeys compares the one-time keys of both sides with the model.
func (w *pair) preKeys() string {
	for p := 0; p < 2; p++ {
		for _, id := range w.P[p].U.Pre {
			_, ok, err := w.P[p].Pre().Load(world.Ctx, id)
			if err != nil || ok != w.Pre[p][int(id)] {
				return fmt.Sprintf("one-time pre-key %d of %s: stored %v, expected %v", id, party[p], ok, w.Pre[p][int(id)])
			}
		}
		if _, ok, err := w.P[p].Signed().Load(world.Ctx, signedID); err != nil || !ok {
			return "the signed pre-key is gone"
		}
	}
	return ""
}

// stealPre offers every message in envelopes that name other one-time keys; whether or
// not it is accepted, no key may be used up except that of the session it belongs to.
func (w *pair) stealPre(r *core.Run) string {
	for i, m := range w.Msgs {
		if i > 3 && i < len(w.Msgs)-4 {
			continue
		}
		for _, v := range w.envelopes(m) {
			if v.typ != message.PreKeyType {
				continue
			}
			r.Evals.Add(1)
			c := w.P[m.To].Clone()
			_, err := c.DecryptWith(w.addr(m.From), v.typ, v.wire, core.NewPRF(w.cfg.Seed, "steal", v.wire))
			s := w.Sess[m.Sess]
			for _, id := range c.U.Pre {
				_, ok, _ := c.Pre().Load(world.Ctx, id)
				was := w.Pre[m.To][int(id)]
				mayGo := err == nil && !s.Known[m.To] && s.Pre == int(id)
				if was && !ok && !mayGo || !was && ok {
					return fmt.Sprintf("message %s of session %s (%s, result %v): one-time pre-key %d changed", m.ID, m.Sess, v.name, err, id)
				}
			}
		}
	}
	return ""
}

// preIDs checks identifiers at the boundaries of their range.
func preIDs(r *core.Run) {
	ids := []uint32{0, 1, 2, 127, 128, 255, 256, 1 << 16, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	for _, mem := range []bool{false, true} {
		for _, pre := range ids {
			for _, signed := range ids {
				pre, signed := pre, signed
				f := func() string {
					u := &world.Universe{Addrs: []address.Address{{Name: "a", DeviceID: 1}, {Name: "b", DeviceID: 1}}}
					for _, id := range ids {
						u.Pre = append(u.Pre, prekey.ID(id))
						u.Signed = append(u.Signed, prekey.ID(id))
					}
					a := world.NewParty(r.Seed, "a", "a", u.Addrs[0], 1, u, mem)
					b := world.NewParty(r.Seed, "b", "b", u.Addrs[1], 2, u, mem)
					b.AddSigned(prekey.ID(signed))
					for _, id := range ids {
						b.AddPre(prekey.ID(id))
					}
					p := prekey.ID(pre)
					if err := a.ProcessBundle(b.Addr, b.Bundle(prekey.ID(signed), &p)); err != nil {
						return fmt.Sprintf("bundle with one-time key %d, signed key %d refused: %v", pre, signed, err)
					}
					for n := 0; n < 2; n++ {
						typ, wire, err := a.Encrypt(b.Addr, []byte("hi"))
						if err != nil {
							return fmt.Sprintf("one-time key %d, signed key %d: cannot send: %v", pre, signed, err)
						}
						if pt, err := b.Decrypt(a.Addr, typ, wire); err != nil || string(pt) != "hi" {
							return fmt.Sprintf("one-time key %d, signed key %d: not readable: %v", pre, signed, err)
						}
						for _, id := range ids {
							_, ok, _ := b.Pre().Load(world.Ctx, prekey.ID(id))
							if ok == (id == pre) {
								return fmt.Sprintf("one-time key %d, signed key %d, after message %d: key %d stored %v", pre, signed, n, id, ok)
							}
						}
					}
					return ""
				}
				if pre == 0 {
					// Recorded finding: a one-time key with ID 0 is treated as none once the session was stored.
					if core.Guard(f) != "" && isKnown(r, "one-time-pre-key-id-0") {
						r.Evals.Add(1)
						continue
					}
				}
				r.Case("identifiers", func() any { return []uint32{pre, signed} }, f)
			}
		}
	}
}
