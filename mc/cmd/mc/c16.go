package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/identity"

	"verif/mc/core"
	"verif/mc/ref"
)

func init() { register("C16", "model_checking", c16) }

// smallOrder lists all encodings of points of small order, with and without the top bit.
func smallOrder() [][]byte {
	p := ref.P
	add := func(n int64) *big.Int { return new(big.Int).Add(p, big.NewInt(n)) }
	e1, _ := new(big.Int).SetString("39382357235489614581723060781553021112529911719440698176882885853963445705823", 10)
	e2, _ := new(big.Int).SetString("325606250916557431795983626356110631294008115727848805560023387167927233504", 10)
	var out [][]byte
	for _, v := range []*big.Int{big.NewInt(0), big.NewInt(1), e1, e2, add(-1), add(0), add(1)} {
		b := toLE(v)
		out = append(out, b)
		c := append([]byte(nil), b...)
		c[31] |= 0x80
		out = append(out, c)
	}
	return out
}

func c16(r *core.Run) {
	// Private keys: boundaries, all single bits, pseudorandom ones.
	var privs [][]byte
	privs = append(privs, make([]byte, 32), bytes.Repeat([]byte{0xff}, 32))
	for b := 0; b < 256; b++ {
		k := make([]byte, 32)
		k[b/8] = 1 << (b % 8)
		privs = append(privs, k)
	}
	for i := 0; i < core.Pick(r, 200, 2000); i++ {
		privs = append(privs, core.Bytes(32, r.Seed, "priv", i))
	}
	privs = append(privs, toLE(ref.L), toLE(new(big.Int).Sub(ref.L, big.NewInt(1))), toLE(new(big.Int).Add(ref.L, big.NewInt(1))), toLE(ref.P))
	r.Bound("private_keys", len(privs))

	var cs []kase
	for i := range privs {
		raw := privs[i]
		cs = append(cs, kase{fmt.Sprintf("private key %x", raw), func() string {
			k, err := curve.NewPrivateKey(append([]byte(nil), raw...))
			if err != nil {
				return "refused: " + err.Error()
			}
			base := append([]byte{9}, make([]byte, 31)...)
			want := ref.X25519(raw, base)
			if !bytes.Equal(want, ref.Pub(raw)) {
				panic("reference")
			}
			if !bytes.Equal(k.PublicKey().KeyBytes(), want) || !bytes.Equal(k.PublicKey().Bytes(), ref.Enc(want)) {
				return fmt.Sprintf("public key %x, expected %x", k.PublicKey().KeyBytes(), want)
			}
			if !bytes.Equal(ref.Clamp(k.Bytes()), ref.Clamp(raw)) || len(k.Bytes()) != 32 {
				return fmt.Sprintf("private key became %x", k.Bytes())
			}
			k2, err := curve.NewPrivateKey(k.Bytes())
			if err != nil || !k2.PublicKey().Equal(k.PublicKey()) || !bytes.Equal(k2.Bytes(), k.Bytes()) {
				return fmt.Sprint("the encoding of a private key is another key: ", err)
			}
			kp, err := curve.NewKeyPair(k.Bytes(), k.PublicKey().Bytes())
			if err != nil || !kp.PublicKey().Equal(k.PublicKey()) || !bytes.Equal(kp.PrivateKey().Bytes(), k.Bytes()) {
				return fmt.Sprint("key pair: ", err)
			}
			// Generated from a source that delivers these bytes, in any portions.
			for step := 1; step <= 33; step += 8 {
				g, err := curve.GenerateKeyPair(&dribble{b: append(append([]byte(nil), raw...), 1, 2, 3), step: step})
				if err != nil || !bytes.Equal(g.PublicKey().KeyBytes(), want) || !bytes.Equal(ref.Clamp(g.PrivateKey().Bytes()), ref.Clamp(raw)) {
					return fmt.Sprintf("generated from these bytes in portions of %d: %v", step, err)
				}
			}
			ik, err := identity.GenerateKeyPair(&dribble{b: append([]byte(nil), raw...), step: 5})
			if err != nil || !bytes.Equal(ik.IdentityKey().Bytes(), ref.Enc(want)) || !bytes.Equal(ik.PublicKey().Bytes(), ref.Enc(want)) || !bytes.Equal(ref.Clamp(ik.PrivateKey().Bytes()), ref.Clamp(raw)) {
				return fmt.Sprint("identity key pair: ", err)
			}
			ck, err := curve25519.NewPrivateKey(append([]byte(nil), raw...))
			if err != nil || !bytes.Equal(ck.PublicKeyBytes(), want) || !bytes.Equal(ref.Clamp(ck.Bytes()), ref.Clamp(raw)) {
				return fmt.Sprint("curve25519 key: ", err)
			}
			// Too few bytes are an error.
			for n := 0; n < 32; n += 31 {
				if _, err := curve.GenerateKeyPair(&dribble{b: raw[:n], step: 40}); err == nil {
					return fmt.Sprintf("a key was generated from %d bytes", n)
				}
			}
			return ""
		}})
	}
	// Without a source, the system's own one is used.
	cs = append(cs, kase{"no random source given", func() string {
		seen := map[string]bool{}
		for i := 0; i < 8; i++ {
			g, err := curve.GenerateKeyPair(nil)
			if err != nil {
				return "key pair: " + err.Error()
			}
			ik, err := identity.GenerateKeyPair(nil)
			if err != nil {
				return "identity key pair: " + err.Error()
			}
			pk, err := curve.GeneratePrivateKey(nil)
			if err != nil {
				return "private key: " + err.Error()
			}
			sig, err := g.Sign(nil, []byte("abc"))
			if err != nil || !ref.Verify(g.PublicKey().KeyBytes(), []byte("abc"), sig) {
				return fmt.Sprint("signature: ", err)
			}
			sig2, err := pk.Sign(nil, []byte("abc"), nil)
			if err != nil || !ref.Verify(pk.PublicKey().KeyBytes(), []byte("abc"), sig2) {
				return fmt.Sprint("signature by a private key: ", err)
			}
			for _, b := range [][]byte{g.PrivateKey().Bytes(), ik.PrivateKey().Bytes(), pk.Bytes(), sig, sig2} {
				if seen[string(b)] {
					return "the same key or signature was made twice"
				}
				seen[string(b)] = true
			}
		}
		return ""
	}})
	for l := 0; l <= 70; l++ {
		l := l
		cs = append(cs, kase{fmt.Sprint("key lengths ", l), func() string {
			b := core.Bytes(l, r.Seed, "len")
			if _, err := curve.NewPrivateKey(b); (err == nil) != (l == 32) {
				return fmt.Sprintf("private key of %d bytes: %v", l, err)
			}
			if _, err := curve25519.NewPrivateKey(b); (err == nil) != (l == 32) {
				return fmt.Sprintf("private key of %d bytes: %v", l, err)
			}
			for typ := 0; typ < 256; typ++ {
				if l > 0 {
					b[0] = byte(typ)
				}
				k, err := curve.NewPublicKey(b)
				if l < 33 || typ != 5 {
					if err == nil {
						return fmt.Sprintf("public key of %d bytes and type %d accepted", l, typ)
					}
				} else if l == 33 && (err != nil || !bytes.Equal(k.Bytes(), b)) {
					return fmt.Sprintf("public key of type %d: %v", typ, err)
				}
			}
			k, _ := curve.NewPrivateKey(core.Bytes(32, r.Seed, "k"))
			ck, _ := curve25519.NewPrivateKey(k.Bytes())
			if s, err := ck.Agreement(core.Bytes(l, r.Seed, "len")); (err == nil) != (l == 32) {
				return fmt.Sprintf("agreement with a public key of %d bytes: %x %v", l, s, err)
			}
			return ""
		}})
	}
	enumerate(r, "keys", cs)

	// Agreement: all pairs of a set of private keys with all public keys.
	var pubs [][]byte
	for i, p := range privs {
		if i < 2 || i%29 == 3 || i >= len(privs)-4 {
			pubs = append(pubs, ref.Pub(p))
		}
	}
	for i := 0; i < core.Pick(r, 12, 60); i++ {
		pubs = append(pubs, core.Bytes(32, r.Seed, "any public", i)) // may be on the twist
	}
	for b := 0; b < 256; b += 5 {
		k := make([]byte, 32)
		k[b/8] = 1 << (b % 8)
		pubs = append(pubs, k)
	}
	for d := int64(-3); d < 20; d++ {
		pubs = append(pubs, toLE(new(big.Int).Add(ref.P, big.NewInt(d))))
	}
	pubs = append(pubs, bytes.Repeat([]byte{0xff}, 32))
	low := smallOrder()
	pubs = append(pubs, low...)
	cs = nil
	for i := range privs {
		if !(i < 6 || i%17 == 0 || i >= len(privs)-4) {
			continue
		}
		raw := privs[i]
		cs = append(cs, kase{fmt.Sprintf("agreement of %x", raw), func() string {
			k, err := curve.NewPrivateKey(raw)
			if err != nil {
				return err.Error()
			}
			kp, err := curve.NewKeyPair(raw, ref.Enc(ref.Pub(raw)))
			if err != nil {
				return err.Error()
			}
			for _, pb := range pubs {
				pk := pubKey(ref.Enc(pb))
				s, err := k.Agreement(pk)
				want, ok := ref.DH(raw, pb)
				if ok != (err == nil) || ok && !bytes.Equal(s, want) {
					return fmt.Sprintf("with %x: %x %v, expected %x %v", pb, s, err, want, ok)
				}
				if !ok && len(s) > 0 {
					return "a secret was returned with an error"
				}
				s2, err2 := kp.Agreement(pk)
				if (err2 == nil) != ok || !bytes.Equal(s, s2) {
					return "the pair computes another secret"
				}
			}
			for _, pb := range low {
				if _, err := k.Agreement(pubKey(ref.Enc(pb))); err == nil {
					return fmt.Sprintf("low-order key %x accepted", pb)
				}
			}
			// The other side computes the same secret.
			for j := 0; j < len(privs); j += 13 {
				o, _ := curve.NewPrivateKey(privs[j])
				a, e1 := k.Agreement(o.PublicKey())
				b, e2 := o.Agreement(k.PublicKey())
				if e1 != nil || e2 != nil || !bytes.Equal(a, b) || len(a) != 32 {
					return fmt.Sprintf("secrets with %x differ: %x %x %v %v", privs[j], a, b, e1, e2)
				}
			}
			return ""
		}})
	}
	// The ladder over big integers for some, to bind the reference itself.
	for i := 0; i < len(pubs); i += 7 {
		pb := pubs[i]
		cs = append(cs, kase{fmt.Sprintf("ladder with %x", pb), func() string {
			for j := 0; j < len(privs); j += 41 {
				k, _ := curve.NewPrivateKey(privs[j])
				want := ref.X25519(privs[j], pb)
				s, err := k.Agreement(pubKey(ref.Enc(pb)))
				zero := bytes.Equal(want, make([]byte, 32))
				if zero != (err != nil) || !zero && !bytes.Equal(s, want) {
					return fmt.Sprintf("%x: %x %v, expected %x", privs[j], s, err, want)
				}
			}
			return ""
		}})
	}
	enumerate(r, "agreement", cs)

	// Signatures.
	cs = nil
	lens := []int{0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 1000}
	verify := func(pub []byte, sig []byte, parts ...[]byte) bool {
		ok, err := pubKey(ref.Enc(pub)).VerifySignature(sig, parts...)
		if ok && err != nil {
			panic("accepted with an error")
		}
		return ok
	}
	for i := range privs {
		if !(i < 10 || i%11 == 0 || i >= len(privs)-4) {
			continue
		}
		raw := privs[i]
		pub := ref.Pub(raw)
		for _, l := range lens {
			l := l
			cs = append(cs, kase{fmt.Sprintf("signature by %x of %d bytes", raw, l), func() string {
				k, err := curve.NewPrivateKey(raw)
				if err != nil {
					return err.Error()
				}
				msg := core.Bytes(l, r.Seed, "msg", l)
				src := core.NewPRF(r.Seed, "z", l)
				src.Record = true
				sig, err := k.Sign(src, msg)
				if err != nil {
					return "cannot sign: " + err.Error()
				}
				if len(sig) != 64 || !ref.Verify(pub, msg, sig) {
					return "not a valid signature by the specification"
				}
				if z := bytes.Join(src.Reads, nil); len(z) == 64 {
					if want := ref.Sign(raw, z, msg); !bytes.Equal(want, sig) {
						return "not the specified signature for this randomness"
					}
				} else {
					return fmt.Sprintf("%d random bytes were used instead of 64", len(z))
				}
				if !verify(pub, sig, msg) || !verify(pub, sig, msg, nil) || !verify(pub, sig, nil, msg) {
					return "own signature not accepted"
				}
				if !verify(pub, ref.Sign(raw, core.Bytes(64, r.Seed, "other z"), msg), msg) {
					return "a signature by an independent implementation is not accepted"
				}
				// Every division into two or three parts is the same message, for signing and verifying.
				for c := 0; c <= l && l <= 65; c++ {
					if !verify(pub, sig, msg[:c], msg[c:]) {
						return fmt.Sprintf("not accepted when divided at %d", c)
					}
					if c%8 == 1 {
						s2, err := k.Sign(core.NewPRF(r.Seed, "z", l), msg[:c], nil, msg[c:])
						if err != nil || !bytes.Equal(s2, sig) {
							return fmt.Sprintf("signing in parts divided at %d differs: %v", c, err)
						}
					}
				}
				return ""
			}})
		}
	}
	enumerate(r, "signatures", cs)

	// Everything near a valid signature is judged as the specification says.
	cs = nil
	for i := 0; i < core.Pick(r, 6, 24); i++ {
		i := i
		raw := privs[258+i]
		pub := ref.Pub(raw)
		msg := core.Bytes(20+i, r.Seed, "near", i)
		cs = append(cs, kase{fmt.Sprintf("around a signature by %x", raw), func() string {
			k, err := curve.NewPrivateKey(raw)
			if err != nil {
				return err.Error()
			}
			sig, err := k.Sign(core.NewPRF(r.Seed, "near z", i), msg)
			if err != nil {
				return err.Error()
			}
			judge := func(what string, pub, sig []byte, parts ...[]byte) string {
				if got, want := verify(pub, sig, parts...), ref.Verify(pub, bytes.Join(parts, nil), sig); got != want {
					return fmt.Sprintf("%s: accepted %v, by the specification %v", what, got, want)
				}
				return ""
			}
			never := func(what string, pub, sig []byte, parts ...[]byte) string {
				if verify(pub, sig, parts...) {
					return what + " is accepted"
				}
				return ""
			}
			var w string
			for b := 0; b < 512 && w == ""; b++ {
				c := append([]byte(nil), sig...)
				c[b/8] ^= 1 << (b % 8)
				w = never(fmt.Sprint("signature with bit flipped ", b), pub, c, msg)
			}
			for b := 0; b < 255 && w == ""; b++ {
				c := append([]byte(nil), pub...)
				c[b/8] ^= 1 << (b % 8)
				w = never(fmt.Sprint("key with bit flipped ", b), c, sig, msg)
			}
			for b := 0; b < len(msg)*8 && w == ""; b++ {
				c := append([]byte(nil), msg...)
				c[b/8] ^= 1 << (b % 8)
				w = never(fmt.Sprint("message with bit flipped ", b), pub, sig, c)
			}
			if w != "" {
				return w
			}
			for c := 0; c < len(msg); c++ {
				if w = never(fmt.Sprint("message cut ", c), pub, sig, msg[:c]); w != "" {
					return w
				}
				if w = never(fmt.Sprint("parts swapped ", c), pub, sig, msg[c+1:], msg[:c+1]); w != "" && c+1 < len(msg) {
					return w
				}
				if w = never(fmt.Sprint("part left out ", c), pub, sig, msg[:c], nil, msg[c+1:]); w != "" {
					return w
				}
			}
			if w = never("message extended", pub, sig, msg, []byte{0}); w != "" {
				return w
			}
			if w = never("message doubled", pub, sig, msg, msg); w != "" {
				return w
			}
			for l := 0; l <= 130; l++ {
				if l == 64 {
					continue
				}
				if w = never(fmt.Sprint("signature of length ", l), pub, append(append([]byte(nil), sig...), make([]byte, 70)...)[:l], msg); w != "" {
					return w
				}
				if ok, err := curve25519.VerifySignature(pub, append(append([]byte(nil), sig...), make([]byte, 70)...)[:l], msg); ok {
					return fmt.Sprint("signature of length ", l, " accepted ", err)
				}
			}
			// The same scalar plus multiples of the order, non-canonical points, low-order keys and points.
			s := new(big.Int).SetBytes(rev(append(append([]byte(nil), sig[32:63]...), sig[63]&0x7f)))
			for m := int64(1); m < 8; m++ {
				t := new(big.Int).Add(s, new(big.Int).Mul(ref.L, big.NewInt(m)))
				if t.BitLen() > 255 {
					break
				}
				c := append(append([]byte(nil), sig[:32]...), toLE(t)...)
				c[63] |= sig[63] & 0x80
				if w = never(fmt.Sprint("scalar plus order times ", m), pub, c, msg); w != "" {
					return w
				}
			}
			for _, lo := range low {
				if w = judge(fmt.Sprintf("low-order key %x", lo), lo, sig, msg); w != "" {
					return w
				}
				if w = judge(fmt.Sprintf("low-order point %x", lo), pub, append(append([]byte(nil), lo...), sig[32:]...), msg); w != "" {
					return w
				}
				zero := append(append([]byte{1}, make([]byte, 31)...), make([]byte, 32)...)
				if w = judge(fmt.Sprintf("trivial signature for %x", lo), lo, zero, msg); w != "" {
					return w
				}
			}
			for _, pb := range pubs {
				if bytes.Equal(pb, pub) {
					continue
				}
				if w = judge(fmt.Sprintf("key %x", pb), pb, sig, msg); w != "" {
					return w
				}
			}
			// Randomness changes the signature, and is taken from the source completely.
			s2, err := k.Sign(core.NewPRF(r.Seed, "near z'", i), msg)
			if err != nil || bytes.Equal(s2[:32], sig[:32]) || !verify(pub, s2, msg) {
				return fmt.Sprint("the signature does not depend on the random source: ", err)
			}
			for _, n := range []int{0, 1, 31, 32, 63} {
				if _, err := k.Sign(&dribble{b: make([]byte, n), step: 100}, msg); err == nil {
					return fmt.Sprintf("signed with %d random bytes", n)
				}
			}
			for _, step := range []int{1, 7, 63} {
				z := core.Bytes(64, r.Seed, "portions")
				s3, err := k.Sign(&dribble{b: z, step: step}, msg)
				if err != nil || !bytes.Equal(s3, ref.SignFast(raw, z, msg)) {
					return fmt.Sprintf("random bytes delivered in portions of %d: %v", step, err)
				}
			}
			return ""
		}})
	}
	enumerate(r, "near signatures", cs)

	// Equality and independent copies.
	cs = nil
	var eq [][]byte
	for b := 0; b < 256; b++ {
		k := core.Bytes(32, r.Seed, "eq")
		k[b/8] ^= 1 << (b % 8)
		eq = append(eq, k)
	}
	eq = append(eq, core.Bytes(32, r.Seed, "eq"))
	for i := range eq {
		i := i
		cs = append(cs, kase{fmt.Sprint("equality ", i), func() string {
			a := pubKey(ref.Enc(eq[i]))
			ia := identKey(ref.Enc(eq[i]))
			for j := range eq {
				b := pubKey(ref.Enc(eq[j]))
				if a.Equal(b) != (i == j) || b.Equal(a) != (i == j) || ia.Equal(identKey(ref.Enc(eq[j]))) != (i == j) {
					return fmt.Sprintf("keys %x and %x: equal is wrong", eq[i], eq[j])
				}
			}
			for n, f := range map[string]func() []byte{"Bytes": a.Bytes, "KeyBytes": a.KeyBytes, "identity": ia.Bytes} {
				x := f()
				for y := range x {
					x[y] ^= 0xff
				}
				if !bytes.Equal(a.KeyBytes(), eq[i]) || !bytes.Equal(ia.Bytes(), ref.Enc(eq[i])) {
					return "writing to the result of " + n + " changes the key"
				}
			}
			in := ref.Enc(eq[i])
			c := pubKey(in)
			k, err := curve.NewPublicKey(in)
			if err != nil {
				return err.Error()
			}
			for y := range in {
				in[y] ^= 0xff
			}
			if !k.Equal(c) {
				return "the key changes with the buffer it was decoded from"
			}
			pin := append([]byte(nil), eq[i]...)
			p, err := curve.NewPrivateKey(pin)
			if err != nil {
				return err.Error()
			}
			for y := range pin {
				pin[y] ^= 0xff
			}
			for y, x := 0, p.Bytes(); y < len(x); y++ {
				x[y] ^= 0xff
			}
			for y, x := 0, p.PublicKey().KeyBytes(); y < len(x); y++ {
				x[y] ^= 0xff
			}
			s1, _ := ref.DH(eq[i], ref.Pub(privs[300]))
			s2, err := p.Agreement(pubKey(ref.Enc(ref.Pub(privs[300]))))
			if err != nil || !bytes.Equal(s1, s2) || !bytes.Equal(ref.Clamp(p.Bytes()), ref.Clamp(eq[i])) || !bytes.Equal(p.PublicKey().KeyBytes(), ref.Pub(eq[i])) {
				return "the private key changes with a buffer"
			}
			return ""
		}})
	}
	enumerate(r, "equality and copies", cs)
}

func rev(b []byte) []byte {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return c
}

// dribble is a source that delivers given bytes in portions and then ends.
type dribble struct {
	b    []byte
	step int
}

func (d *dribble) Read(p []byte) (int, error) {
	if len(d.b) == 0 {
		return 0, fmt.Errorf("source exhausted")
	}
	n := min(len(p), d.step, len(d.b))
	copy(p, d.b[:n])
	d.b = d.b[n:]
	return n, nil
}
