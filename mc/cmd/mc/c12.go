package main

import (
	"bytes"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/address"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C12", "model_checking", c12) }

type gvariant struct {
	name   string
	sender address.Address
	wire   []byte
}

// groupForgeries returns altered and forged copies of a group message.
func (w *gw) groupForgeries(x *gmsg, all bool) []gvariant {
	var vs []gvariant
	from := w.P[x.chain.sender].Addr
	add := func(name string, wire []byte) {
		if !bytes.Equal(wire, x.wire) {
			vs = append(vs, gvariant{name, from, wire})
		}
	}
	if all {
		for i := range x.wire {
			for b := 0; b < 8; b++ {
				c := append([]byte(nil), x.wire...)
				c[i] ^= 1 << b
				add(fmt.Sprintf("bit %d of byte %d", b, i), c)
			}
			add(fmt.Sprint("cut to ", i), x.wire[:i])
			add(fmt.Sprint("byte removed ", i), append(append([]byte(nil), x.wire[:i]...), x.wire[i+1:]...))
			add(fmt.Sprint("byte doubled ", i), append(append([]byte(nil), x.wire[:i+1]...), x.wire[i:]...))
		}
	}
	f, err := ref.ParseSenderKey(x.wire)
	if err != nil {
		return vs
	}
	raw := func(first byte, dist []byte, id, n uint32, ct []byte) []byte {
		return append([]byte{first}, ref.PB(nil).Bytes(1, dist).Uint(2, uint64(id)).Uint(3, uint64(n)).Bytes(4, ct)...)
	}
	old := func(name string, body []byte) { add(name, append(append([]byte(nil), body...), f.Sig...)) }
	for _, n := range []uint32{0, 1, 2, f.N + 1, f.N - 1, 26000, 1<<32 - 1} {
		old(fmt.Sprint("iteration ", n), raw(f.Version, f.Dist, f.ChainID, n, f.Cipher))
	}
	for _, c := range []uint32{0, f.ChainID + 1, f.ChainID ^ 1<<30, f.ChainID | 1<<31} {
		old(fmt.Sprint("chain ", c), raw(f.Version, f.Dist, c, f.N, f.Cipher))
	}
	for _, o := range w.Dists {
		old(fmt.Sprint("chain of distribution ", o.id), raw(f.Version, f.Dist, o.chain.id, f.N, f.Cipher))
	}
	for _, d := range []string{distA.String(), distB.String()} {
		old("group "+d, raw(f.Version, []byte(d), f.ChainID, f.N, f.Cipher))
	}
	for _, v := range []byte{0x33, 0x23, 0x43, 0x34, 0x32, 0x30, 0, 0xff} {
		old(fmt.Sprintf("version %x", v), raw(v, f.Dist, f.ChainID, f.N, f.Cipher))
	}
	old("no content", raw(f.Version, f.Dist, f.ChainID, f.N, nil))
	old("content twice", raw(f.Version, f.Dist, f.ChainID, f.N, append(append([]byte(nil), f.Cipher...), f.Cipher...)))
	for _, n := range []int{1, 16, 64} {
		add(fmt.Sprint("extended by ", n), append(append([]byte(nil), x.wire...), make([]byte, n)...))
	}
	alt := func(name string, pb ref.PB) { old(name, append([]byte{f.Version}, pb...)) }
	alt("unknown field", ref.PB(nil).Bytes(1, f.Dist).Uint(2, uint64(f.ChainID)).Uint(3, uint64(f.N)).Bytes(4, f.Cipher).Uint(9, 9))
	alt("fields reordered", ref.PB(nil).Uint(2, uint64(f.ChainID)).Bytes(1, f.Dist).Uint(3, uint64(f.N)).Bytes(4, f.Cipher))
	alt("field repeated", ref.PB(nil).Bytes(1, f.Dist).Uint(2, uint64(f.ChainID)).Uint(3, uint64(f.N)).Uint(3, uint64(f.N)).Bytes(4, f.Cipher))
	// Signatures of others over the exact or a new content.
	body := f.Body
	z := core.Bytes(64, w.cfg.seed, "z")
	for i, p := range w.P {
		add(fmt.Sprint("signed by the identity of member ", i), append(append([]byte(nil), body...), signed(p.KP.PrivateKey().Bytes(), z, body)...))
	}
	add("signed by a stranger", append(append([]byte(nil), body...), signed(world.NewKeyPair(w.cfg.seed, "g stranger").PrivateKey().Bytes(), z, body)...))
	// A member who knows the chain key writes in the sender's name.
	for _, d := range w.Dists {
		if d.chain != x.chain || d.n > x.n {
			continue
		}
		sk, err := ref.ParseSKDM(d.wire)
		if err != nil {
			continue
		}
		c := ref.Chain{Key: sk.ChainKey, N: sk.N}
		for c.N < x.n {
			c = c.Next()
		}
		for _, n := range []uint32{x.n, x.n + 1} {
			k := c.GroupKeys()
			b := raw(0x33, f.Dist, f.ChainID, n, ref.CBCEncrypt(k.Cipher, k.IV, []byte("forged")))
			add("member forgery, stranger's signature", append(append([]byte(nil), b...), signed(world.NewKeyPair(w.cfg.seed, "g stranger").PrivateKey().Bytes(), z, b)...))
			add("member forgery, chain key as signing key", append(append([]byte(nil), b...), signed(sk.ChainKey, z, b)...))
			add("member forgery, old signature", append(append([]byte(nil), b...), f.Sig...))
			add("member forgery, no signature", b)
			add("member forgery, zero signature", append(append([]byte(nil), b...), make([]byte, 64)...))
			c = c.Next()
		}
		break
	}
	for i, o := range w.Msgs {
		if o == x || i > 8 {
			continue
		}
		g, err := ref.ParseSenderKey(o.wire)
		if err != nil {
			continue
		}
		old("content of "+o.id, raw(f.Version, f.Dist, f.ChainID, f.N, g.Cipher))
		add("signature of "+o.id, append(append([]byte(nil), body...), g.Sig...))
		add("body of "+o.id, append(append([]byte(nil), g.Body...), f.Sig...))
		old("header of "+o.id, raw(g.Version, g.Dist, g.ChainID, g.N, f.Cipher))
	}
	// Attributed to another sender.
	for i, p := range w.P {
		if i != x.chain.sender {
			vs = append(vs, gvariant{fmt.Sprint("attributed to ", i), p.Addr, x.wire})
		}
	}
	return vs
}

func signed(priv, z, body []byte) []byte { return ref.SignFast(priv, z, body) }

func groupForgery(r *core.Run, all func(w *gw, x *gmsg) bool) func(w *gw) string {
	return func(w *gw) string {
		for m := range w.P {
			if len(w.Done[m]) == 0 {
				continue
			}
			before := w.P[m].Digest()
			for _, x := range w.Msgs {
				if x.chain.sender == m {
					continue
				}
				c := w.P[m].Clone()
				wrote := false
				if c.DB != nil {
					c.DB.Hook = func(k world.Call, post bool) error { wrote = wrote || k.Write(); return nil }
				}
				for _, v := range w.groupForgeries(x, all(w, x)) {
					r.Evals.Add(1)
					pt, err := c.GroupDecrypt(v.sender, v.wire)
					if s := refused(pt, err); s != "" {
						return fmt.Sprintf("message %s (iteration %d), %s, at member %d: %s", x.id, x.n, v.name, m, s)
					}
					if (wrote || c.DB == nil) && c.Digest() != before {
						return fmt.Sprintf("message %s, %s, at member %d: refused but changed stored state", x.id, v.name, m)
					}
				}
				if w.readable(m, x) {
					pt, err := c.GroupDecrypt(w.P[x.chain.sender].Addr, x.wire)
					if err != nil || !bytes.Equal(pt, x.pt) {
						return fmt.Sprintf("after forgeries were refused by member %d, the genuine message %s is unreadable: %v", m, x.id, err)
					}
				}
			}
		}
		return ""
	}
}

func c12(r *core.Run) {
	allFirst := groupForgery(r, func(w *gw, x *gmsg) bool { return x == w.Msgs[len(w.Msgs)-1] })
	never := groupForgery(r, func(w *gw, x *gmsg) bool { return false })
	groupSpaces(r, "", allFirst, []gspace{
		{"N 0 0; D 1 0; S 0 0", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 2, maxDist: 1}, 3, 5},
		{"N 0 0; D 1 0; S 0 0; S 0 0; S 0 0; R 1 2", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 1, maxDist: 1, mem: true}, 3, 5},
	})
	groupSpaces(r, "", never, []gspace{
		{"", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 3, maxDist: 2}, 7, 9},
		{"N 0 0; N 1 0; N 0 1; D 2 all; D 1 all; D 0 all", gcfg{n: 3, senders: []int{0, 1}, dists: 2, maxSend: 1, maxDist: 1}, 4, 7},
		{"N 0 0; S 0 0; K 0 0; N 0 0; S 0 0; N 1 0; S 1 0; D 2 all", gcfg{n: 3, senders: []int{0, 1}, dists: 1, maxSend: 1, maxDist: 2}, 4, 6},
		{"N 0 0; D 1 0; S 0 0; S 0 0; R 1 1; K 0 0; N 0 0; D 1 1; S 0 0", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 2, maxDist: 2}, 4, 6},
	})
	foreignChains(r)
}

// foreignChains: another member distributes a chain with the identifier of the
// sender's chain under its own address; messages of each stay attributed to their maker.
func foreignChains(r *core.Run) {
	cfg := gcfg{seed: r.Seed, n: 3, senders: []int{0, 1}, dists: 1}
	w := newGW(&cfg).run("N 0 0; D 2 0; S 0 0; S 0 0")
	if w.bad {
		return
	}
	sk, err := ref.ParseSKDM(w.Dists[0].wire)
	if err != nil {
		return
	}
	evil := &ref.GroupSender{Dist: distA.String(), ChainID: sk.ChainID, Chain: ref.Chain{Key: sk.ChainKey, N: sk.N}, SigPriv: core.Bytes(32, r.Seed, "evil")}
	dist := evil.Distribution()
	msg := evil.Encrypt([]byte("forged"), core.Bytes(64, r.Seed, "z"))
	for _, pass := range []int{0, 1, 2} {
		pass := pass
		r.Case("same chain identifier under another sender", func() any { return pass }, func() string {
			c := w.P[2].Clone()
			evilAddr, good := w.P[1].Addr, w.P[0].Addr
			if pass > 0 {
				if err := c.GroupProcess(evilAddr, dist); err != nil {
					return ""
				}
			}
			if pass == 2 {
				if pt, err := c.GroupDecrypt(evilAddr, msg); err != nil || string(pt) != "forged" {
					return fmt.Sprintf("own message of the other sender is unreadable: %v", err)
				}
			}
			before := c.Digest()
			if s := refused(c.GroupDecrypt(good, msg)); s != "" {
				return "message signed by another member in the sender's name: " + s
			}
			if s := refused(c.GroupDecrypt(evilAddr, w.Msgs[0].wire)); s != "" {
				return "message attributed to another member: " + s
			}
			if c.Digest() != before {
				return "refused messages changed stored state"
			}
			for _, x := range w.Msgs {
				if pt, err := c.GroupDecrypt(good, x.wire); err != nil || !bytes.Equal(pt, x.pt) {
					return fmt.Sprintf("genuine message unreadable: %v", err)
				}
			}
			return ""
		})
	}
}
