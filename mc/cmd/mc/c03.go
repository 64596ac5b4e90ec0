package main

import (
	"bytes"
	"encoding/hex"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/message"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C03", "model_checking", c03) }

var lowOrder = func() [][]byte {
	var out [][]byte
	for _, h := range []string{
		"0000000000000000000000000000000000000000000000000000000000000000",
		"0100000000000000000000000000000000000000000000000000000000000000",
		"e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
		"5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
		"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
		"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
		"eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	} {
		b, _ := hex.DecodeString(h)
		out = append(out, b)
		c := append([]byte(nil), b...)
		c[31] |= 0x80
		out = append(out, c)
	}
	return out
}()

// forgeries returns alterations of a message. With all set it includes every single
// bit flip, truncation and byte duplication or removal of the encoding.
func (w *pair) forgeries(m *pmsg, all bool) []variant {
	var vs []variant
	add := func(name string, typ message.CiphertextType, wire []byte) {
		if typ == m.Typ && bytes.Equal(wire, m.Wire) {
			return
		}
		vs = append(vs, variant{name, typ, wire})
	}
	other := message.PreKeyType
	if m.Typ == other {
		other = message.WhisperType
	}
	if all {
		for i := range m.Wire {
			for b := 0; b < 8; b++ {
				x := append([]byte(nil), m.Wire...)
				x[i] ^= 1 << b
				add(fmt.Sprintf("bit %d of byte %d flipped", b, i), m.Typ, x)
			}
			add(fmt.Sprintf("cut to %d bytes", i), m.Typ, m.Wire[:i])
			add(fmt.Sprintf("first %d bytes removed", i+1), m.Typ, m.Wire[i+1:])
			x := append(append([]byte(nil), m.Wire[:i]...), m.Wire[i+1:]...)
			add(fmt.Sprintf("byte %d removed", i), m.Typ, x)
			x = append(append(append([]byte(nil), m.Wire[:i]...), m.Wire[i]), m.Wire[i:]...)
			add(fmt.Sprintf("byte %d doubled", i), m.Typ, x)
		}
	}
	for _, n := range []int{1, 8, 16, 64} {
		add(fmt.Sprint("extended by ", n), m.Typ, append(append([]byte(nil), m.Wire...), make([]byte, n)...))
	}
	add("as other type", other, m.Wire)
	inner := m.Wire
	wrap := func(name string, in []byte) { add(name, message.WhisperType, in) }
	if m.Typ == message.PreKeyType {
		f, err := ref.ParsePreKey(m.Wire)
		if err != nil {
			return vs
		}
		inner = f.Message
		wrap = func(name string, in []byte) {
			g := *f
			g.Message = in
			add(name, message.PreKeyType, ref.EncodePreKey(g))
			add(name+" (unwrapped)", message.WhisperType, in)
		}
		// Envelope fields.
		ids := map[string][]byte{"own": w.P[m.To].KP.IdentityKey().Bytes(), "stranger": ref.Enc(world.NewKeyPair(w.cfg.Seed, "stranger").PublicKey().KeyBytes())}
		for i, l := range lowOrder {
			ids[fmt.Sprint("low order ", i)] = ref.Enc(l)
		}
		for _, k := range core.Keys(ids) {
			g := *f
			g.Identity = ids[k]
			add("identity key "+k, message.PreKeyType, ref.EncodePreKey(g))
			g = *f
			g.Base = ids[k]
			add("base key "+k, message.PreKeyType, ref.EncodePreKey(g))
			g.Identity = ids[k]
			add("identity and base key "+k, message.PreKeyType, ref.EncodePreKey(g))
		}
	}
	for _, v := range w.envelopes(m) {
		if v.name != "unchanged" && v.name != "unwrapped" {
			vs = append(vs, v)
		}
	}
	f, err := ref.ParseSignal(inner)
	if err != nil {
		return vs
	}
	enc := func(name string, first byte, ratchet []byte, n, prev uint32, ct, mac []byte) {
		body := append([]byte{first}, ref.PB(nil).Bytes(1, ratchet).Uint(2, uint64(n)).Uint(3, uint64(prev)).Bytes(4, ct)...)
		x := append(body, mac...)
		if !bytes.Equal(x, inner) {
			wrap(name, x)
		}
	}
	for _, n := range []uint32{0, 1, 2, 3, f.N + 1, f.N - 1, f.N + 25000, 26000, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		if n == f.N+25000 && !all {
			continue // costly
		}
		if w.cfg.SameName && n > f.N+1 {
			continue // a session with oneself is exempt from the limit, by design, however long that takes
		}
		enc(fmt.Sprint("counter ", n), f.Version, f.Ratchet, n, f.Prev, f.Cipher, f.Mac)
	}
	for _, n := range []uint32{f.Prev + 1, 7, 1<<32 - 1} {
		enc(fmt.Sprint("previous counter ", n), f.Version, f.Ratchet, f.N, n, f.Cipher, f.Mac)
	}
	for _, v := range []byte{0x33, 0x23, 0x43, 0x34, 0x32, 0x03, 0x30, 0x22, 0x44, 0xff, 0} {
		enc(fmt.Sprintf("version %x", v), v, f.Ratchet, f.N, f.Prev, f.Cipher, f.Mac)
	}
	for i, l := range lowOrder {
		enc(fmt.Sprint("ratchet key low order ", i), f.Version, ref.Enc(l), f.N, f.Prev, f.Cipher, f.Mac)
		enc(fmt.Sprint("ratchet key low order, first ", i), f.Version, ref.Enc(l), 0, f.Prev, f.Cipher, f.Mac)
	}
	enc("ratchet key of stranger", f.Version, ref.Enc(world.NewKeyPair(w.cfg.Seed, "stranger").PublicKey().KeyBytes()), f.N, f.Prev, f.Cipher, f.Mac)
	alias := append([]byte(nil), f.Ratchet...)
	alias[32] ^= 0x80
	enc("ratchet key alias", f.Version, alias, f.N, f.Prev, f.Cipher, f.Mac)
	enc("no content", f.Version, f.Ratchet, f.N, f.Prev, nil, f.Mac)
	if len(f.Cipher) >= 32 {
		enc("content cut", f.Version, f.Ratchet, f.N, f.Prev, f.Cipher[:len(f.Cipher)-16], f.Mac)
		enc("content moved", f.Version, f.Ratchet, f.N, f.Prev, f.Cipher[16:], f.Mac)
	}
	enc("content extended", f.Version, f.Ratchet, f.N, f.Prev, append(append([]byte(nil), f.Cipher...), f.Cipher...), f.Mac)
	// Authentication codes an outsider can make.
	id := [2][]byte{w.P[0].KP.IdentityKey().Bytes(), w.P[1].KP.IdentityKey().Bytes()}
	keys := [][]byte{nil, make([]byte, 32), f.Ratchet, f.Ratchet[1:], id[0], id[1], f.Cipher}
	for i, k := range keys {
		for j, p := range [][2][]byte{{id[m.From], id[m.To]}, {id[m.To], id[m.From]}, {nil, nil}} {
			enc(fmt.Sprintf("code under public key %d %d", i, j), f.Version, f.Ratchet, f.N, f.Prev, f.Cipher, ref.HMAC(k, p[0], p[1], f.Body)[:8])
		}
	}
	for _, c := range [][]byte{nil, make([]byte, 8), f.Mac[:7], f.Mac[:4], f.Mac[1:], append(append([]byte(nil), f.Mac...), 0), f.Body[:8]} {
		enc(fmt.Sprintf("code %x", c), f.Version, f.Ratchet, f.N, f.Prev, f.Cipher, c)
	}
	// The same content in another encoding: fields reordered, repeated, unknown, long varints.
	alt := func(name string, pb ref.PB) { wrap(name, append(append([]byte{f.Version}, pb...), f.Mac...)) }
	alt("fields reordered", ref.PB(nil).Uint(2, uint64(f.N)).Bytes(1, f.Ratchet).Uint(3, uint64(f.Prev)).Bytes(4, f.Cipher))
	alt("unknown field", ref.PB(nil).Bytes(1, f.Ratchet).Uint(2, uint64(f.N)).Uint(3, uint64(f.Prev)).Bytes(4, f.Cipher).Uint(99, 1))
	alt("field repeated", ref.PB(nil).Bytes(1, f.Ratchet).Uint(2, uint64(f.N)).Uint(2, uint64(f.N)).Uint(3, uint64(f.Prev)).Bytes(4, f.Cipher))
	alt("counter without high bits", ref.PB(nil).Bytes(1, f.Ratchet).Uint(2, uint64(f.N)|1<<32).Uint(3, uint64(f.Prev)).Bytes(4, f.Cipher))
	// Parts of other messages.
	for i, o := range w.Msgs {
		if o == m || i > 6 && i < len(w.Msgs)-3 {
			continue
		}
		in := o.Wire
		if o.Typ == message.PreKeyType {
			g, err := ref.ParsePreKey(o.Wire)
			if err != nil {
				continue
			}
			in = g.Message
		}
		g, err := ref.ParseSignal(in)
		if err != nil {
			continue
		}
		enc("content of message "+o.ID, f.Version, f.Ratchet, f.N, f.Prev, g.Cipher, f.Mac)
		enc("content and code of message "+o.ID, f.Version, f.Ratchet, f.N, f.Prev, g.Cipher, g.Mac)
		enc("code of message "+o.ID, f.Version, f.Ratchet, f.N, f.Prev, f.Cipher, g.Mac)
		enc("header of message "+o.ID, f.Version, g.Ratchet, g.N, g.Prev, f.Cipher, f.Mac)
		enc("counter of message "+o.ID, f.Version, f.Ratchet, g.N, f.Prev, f.Cipher, f.Mac)
		enc("ratchet key of message "+o.ID, f.Version, g.Ratchet, f.N, f.Prev, f.Cipher, f.Mac)
	}
	return vs
}

// tampered offers variants to a party and judges the outcome. genuine is the message
// whose plaintext alone may be returned, nil if none may.
type offer struct {
	w      *pair
	p      int
	from   int
	base   *world.Party
	c      *world.Party
	wrote  bool
	before [32]byte
}

func newOffer(w *pair, p, from int) *offer {
	o := &offer{w: w, p: p, from: from, base: w.P[p]}
	o.before = o.base.Digest()
	o.reset()
	return o
}

func (o *offer) reset() {
	o.c = o.base.Clone()
	o.wrote = false
	if o.c.DB != nil {
		o.c.DB.Hook = func(c world.Call, post bool) error {
			if c.Write() {
				o.wrote = true
			}
			return nil
		}
	}
}

// changed tells whether the stores differ from the base.
func (o *offer) changed() bool {
	if o.c.DB != nil && !o.wrote {
		return false
	}
	return o.c.Digest() != o.before
}

// try returns what is wrong with the answer to a forgery.
func (o *offer) try(v variant, genuine []byte) string {
	pt, err := o.c.DecryptWith(o.w.addr(o.from), v.typ, v.wire, core.NewPRF(o.w.cfg.Seed, "forge", v.wire))
	if err == nil {
		if genuine != nil && v.typ == message.PreKeyType && bytes.Equal(pt, genuine) {
			o.reset()
			return ""
		}
		return fmt.Sprintf("%s: accepted, plaintext %x", v.name, clip(pt))
	}
	if world.IsPanic(err) {
		return fmt.Sprintf("%s: %v", v.name, err)
	}
	if len(pt) != 0 {
		return fmt.Sprintf("%s: plaintext together with error %v", v.name, err)
	}
	if o.changed() {
		return fmt.Sprintf("%s: refused (%v), but changed %v", v.name, err, world.Diff(o.base.Contents(), o.c.Contents()))
	}
	return ""
}

func probeForgeries(r *core.Run, all func(w *pair, m *pmsg) bool) func(w *pair) string {
	return func(w *pair) string {
		var n int64
		defer func() { r.Evals.Add(n) }()
		for i, m := range w.Msgs {
			if m.Used && i < len(w.Msgs)-4 && !r.Thorough() {
				continue
			}
			// An altered or added envelope may still carry the message, as long as it is readable.
			var genuine []byte
			if w.deliverable(m) {
				genuine = append([]byte{}, m.PT...)
			}
			o := newOffer(w, m.To, m.From)
			for _, v := range w.forgeries(m, all(w, m)) {
				n++
				if x := o.try(v, genuine); x != "" {
					return fmt.Sprintf("message %s (session %s, counter %d, to %s), %s", m.ID, m.Sess, m.N, party[m.To], x)
				}
			}
			if w.deliverable(m) {
				pt, err := o.c.DecryptWith(w.addr(m.From), m.Typ, m.Wire, core.NewPRF(w.cfg.Seed, "genuine", m.Wire))
				if err != nil || !bytes.Equal(pt, m.PT) {
					return fmt.Sprintf("message %s (session %s, counter %d, to %s): the genuine message is not readable after forgeries were refused: %v", m.ID, m.Sess, m.N, party[m.To], err)
				}
			}
			// Reflection to the sender, as if it came from the receiver or from itself.
			back := newOffer(w, m.From, m.To)
			for _, v := range w.envelopes(m) {
				n++
				if x := back.try(variant{"reflected, " + v.name, v.typ, v.wire}, nil); x != "" {
					return fmt.Sprintf("message %s (session %s): %s", m.ID, m.Sess, x)
				}
			}
		}
		return ""
	}
}

func c03(r *core.Run) {
	r.Assume("alterations of the parts of a set-up message that are not authenticated may be accepted, if the plaintext is the genuine one")
	first := probeForgeries(r, func(w *pair, m *pmsg) bool { return w.Sent == [2]int{} || m.N == 0 && m == w.Msgs[len(w.Msgs)-1] })
	never := probeForgeries(r, func(w *pair, m *pmsg) bool { return false })
	for _, s := range []struct {
		root         string
		sends, inits [2]int
		q, t         int
		mem, same    bool
		deep         bool
	}{
		{"fresh", [2]int{1, 1}, [2]int{1, 1}, 3, 5, false, false, true},
		{"fresh", [2]int{2, 2}, [2]int{1, 1}, 6, 7, false, false, false},
		{"initiated", [2]int{1, 1}, [2]int{0, 0}, 2, 4, false, false, true},
		{"established", [2]int{1, 1}, [2]int{0, 0}, 2, 4, false, false, true},
		{"established", [2]int{2, 2}, [2]int{0, 1}, 4, 6, true, false, false},
		{"established-none", [2]int{2, 2}, [2]int{0, 0}, 4, 6, false, false, false},
		{"established-none/self", [2]int{2, 2}, [2]int{0, 0}, 4, 6, false, true, false},
		{"skipped", [2]int{1, 1}, [2]int{0, 0}, 3, 5, false, false, false},
		{"skipped", [2]int{1, 0}, [2]int{0, 0}, 1, 3, false, false, true},
		{"full-chains", [2]int{1, 1}, [2]int{0, 0}, 1, 3, false, false, false},
		{"crossed", [2]int{1, 1}, [2]int{0, 0}, 3, 5, false, false, false},
		{"crossed-read", [2]int{1, 1}, [2]int{0, 1}, 3, 5, false, false, false},
		{"reinit", [2]int{1, 1}, [2]int{0, 0}, 3, 5, false, false, false},
		{"reinit-read", [2]int{1, 1}, [2]int{0, 0}, 3, 5, true, false, false},
		{"three-sessions", [2]int{1, 0}, [2]int{0, 0}, 2, 4, false, false, false},
		{"Z0", [2]int{2, 2}, [2]int{0, 0}, 4, 6, false, false, true},
	} {
		cfg := pcfg{Seed: r.Seed, Modes: "on", MaxSend: s.sends, MaxInit: s.inits, Mem: s.mem, SameName: s.same, Check: never, Lens: []int{5, 20}}
		if s.deep {
			cfg.Check = first
		}
		sp := pairSpace(s.root, cfg, core.Pick(r, s.q, s.t))
		if s.deep {
			sp.Name += " (all bit flips)"
		}
		r.Explore(sp)
	}
	outsider(r)
}

// outsider: messages between other parties, and messages made by a third party from
// public values.
func outsider(r *core.Run) {
	for _, mem := range []bool{false, true} {
		t := newTrio(r.Seed, mem)
		// Everybody has a session with everybody.
		type rec struct {
			from, to int
			typ      message.CiphertextType
			wire, pt []byte
		}
		var recs []rec
		send := func(a, b int, deliver bool) {
			pt := core.Bytes(12, r.Seed, "outsider", a, b, len(recs))
			typ, wire, err := t[a].Encrypt(t[b].Addr, pt)
			if err != nil {
				return
			}
			recs = append(recs, rec{a, b, typ, wire, pt})
			if deliver {
				t[b].Decrypt(t[a].Addr, typ, wire)
			}
		}
		for _, p := range [][2]int{{0, 1}, {0, 2}, {1, 2}} {
			if err := t[p[0]].ProcessBundle(t[p[1]].Addr, t[p[1]].Bundle(signedID, nil)); err != nil {
				return
			}
			send(p[0], p[1], true)
			send(p[0], p[1], false)
			send(p[1], p[0], true)
			send(p[0], p[1], false)
			send(p[1], p[0], false)
		}
		// Every message to every other party under every other name.
		for i := range recs {
			m := recs[i]
			for to := 0; to < 3; to++ {
				for from := 0; from < 3; from++ {
					if from == m.from && to == m.to || from == to {
						continue
					}
					wires := []variant{{"unchanged", m.typ, m.wire}}
					if m.typ == message.PreKeyType {
						f, err := ref.ParsePreKey(m.wire)
						if err != nil {
							return
						}
						wires = append(wires, variant{"unwrapped", message.WhisperType, f.Message})
						g := *f
						g.Identity = t[from].KP.IdentityKey().Bytes()
						wires = append(wires, variant{"other identity", message.PreKeyType, ref.EncodePreKey(g)})
					}
					for _, v := range wires {
						v, from, to := v, from, to
						r.Case("redirected", func() any {
							return fmt.Sprintf("message %d of %d to %d, offered to %d as from %d, %s", i, m.from, m.to, to, from, v.name)
						}, func() string {
							c := t[to].Clone()
							before := c.Digest()
							pt, err := c.DecryptWith(t[from].Addr, v.typ, v.wire, core.NewPRF(r.Seed, "redir"))
							if s := refused(pt, err); s != "" {
								return fmt.Sprintf("message of %s to %s offered to %s as from %s (%s): %s", t[m.from].Name, t[m.to].Name, t[to].Name, t[from].Name, v.name, s)
							}
							if c.Digest() != before {
								return "redirected message changed stored state"
							}
							return ""
						})
					}
				}
			}
		}
		// A stranger poses as A towards B: knows all public values, has own keys.
		stranger := ref.Identity{Priv: world.NewKeyPair(r.Seed, "stranger").PrivateKey().Bytes(), Reg: 9}
		stranger.Pub = ref.Pub(stranger.Priv)
		base, ratchet := world.NewKeyPair(r.Seed, "sb").PrivateKey().Bytes(), world.NewKeyPair(r.Seed, "sr").PrivateKey().Bytes()
		for _, fresh := range []bool{true, false} {
			for _, pre := range []*uint32{nil, u32(100), u32(101)} {
				for claim := 0; claim < 4; claim++ {
					b := newTrio(r.Seed, mem)[1]
					if !fresh {
						b = t[1].Clone()
					}
					b.AddPre(100)
					bun := ref.Bundle{Identity: b.KP.PublicKey().KeyBytes(), Signed: b.SignedKP(signedID).PublicKey().KeyBytes(), SignedID: uint32(signedID)}
					if pre != nil {
						bun.Pre, bun.PreID = b.PreKP(100).PublicKey().KeyBytes(), pre
					}
					s, err := ref.Initiate(stranger, bun, base, ratchet)
					if err != nil {
						panic(err)
					}
					ids := [][]byte{t[0].KP.IdentityKey().Bytes(), t[2].KP.IdentityKey().Bytes(), b.KP.IdentityKey().Bytes(), t[0].KP.IdentityKey().Bytes()}
					s.Me = ids[claim]
					if claim == 3 {
						s.Me = ref.Enc(stranger.Pub)
					}
					_, wire := s.Encrypt([]byte("forged"))
					if claim == 3 {
						f, _ := ref.ParsePreKey(wire)
						f.Identity = ids[3]
						wire = ref.EncodePreKey(*f)
					}
					from := t[0].Addr
					if claim == 1 {
						from = t[2].Addr
					}
					r.Case("impersonated", func() any { return fmt.Sprint(fresh, pre, claim) }, func() string {
						c := b.Clone()
						before := c.Digest()
						pt, err := c.DecryptWith(from, message.PreKeyType, wire, core.NewPRF(r.Seed, "imp"))
						if s := refused(pt, err); s != "" {
							return fmt.Sprintf("set-up message made by a stranger in the name of %v: %s", from, s)
						}
						if c.Digest() != before {
							return "a set-up message made by a stranger changed stored state"
						}
						return ""
					})
				}
			}
		}
	}
}
