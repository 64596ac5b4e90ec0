package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"math/big"
	"sync"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C06", "model_checking", c06) }

type bvariant struct {
	name string
	b    *prekey.Bundle
	ok   bool // acceptable if the identity is trusted
}

var bvCache = struct {
	sync.Mutex
	m map[string][]bvariant
}{m: map[string][]bvariant{}}

func cachedVariants(seed int64, b *world.Party, good *prekey.Bundle, all bool) []bvariant {
	k := fmt.Sprintf("%x %v %v", good.SignedPreKeySignature, good.PreKeyID != nil, all)
	bvCache.Lock()
	defer bvCache.Unlock()
	if vs, ok := bvCache.m[k]; ok {
		return vs
	}
	vs := bundleVariants(seed, b, good, all)
	var wg sync.WaitGroup
	for i := range vs {
		wg.Add(1)
		go func(v *bvariant) { defer wg.Done(); v.ok = acceptable(v.b) }(&vs[i])
	}
	wg.Wait()
	bvCache.m[k] = vs
	return vs
}

// bundleVariants alters a bundle in every way; all adds every bit flip.
func bundleVariants(seed int64, b *world.Party, good *prekey.Bundle, all bool) []bvariant {
	var vs []bvariant
	add := func(name string, f func(b *prekey.Bundle)) {
		c := *good
		c.SignedPreKeySignature = append([]byte(nil), good.SignedPreKeySignature...)
		f(&c)
		vs = append(vs, bvariant{name: name, b: &c})
	}
	pub := func(raw []byte) curve.PublicKey {
		k, err := curve.NewPublicKey(ref.Enc(raw))
		if err != nil {
			panic(err)
		}
		return k
	}
	key := func(raw []byte) identity.Key {
		k, err := identity.NewKey(ref.Enc(raw))
		if err != nil {
			panic(err)
		}
		return k
	}
	sign := func(p curve.PrivateKey, msg []byte) []byte {
		return ref.Sign(p.Bytes(), core.Bytes(64, seed, "c06", msg), msg)
	}
	add("unchanged", func(*prekey.Bundle) {})
	add("new one-time key", func(b *prekey.Bundle) {
		id := prekey.ID(140)
		b.PreKeyID, b.PreKeyPublic = &id, world.NewKeyPair(seed, "some one-time").PublicKey()
	})
	add("no one-time key", func(b *prekey.Bundle) { b.PreKeyID, b.PreKeyPublic = nil, nil })
	add("other registration and device ID", func(b *prekey.Bundle) { b.RegistrationID, b.DeviceID = 1<<31, 77 })
	// Another valid signature of the same key.
	again := ref.Sign(b.KP.PrivateKey().Bytes(), core.Bytes(64, seed, "again"), good.SignedPreKeyPublic.Bytes())
	add("signed again", func(x *prekey.Bundle) { x.SignedPreKeySignature = again })
	stranger := world.NewKeyPair(seed, "c06 stranger")
	mine := b.KP.PrivateKey()
	sp := good.SignedPreKeyPublic
	add("signed by the wrong key", func(b *prekey.Bundle) { b.SignedPreKeySignature = sign(stranger.PrivateKey(), sp.Bytes()) })
	add("self-signed", func(x *prekey.Bundle) {
		x.SignedPreKeySignature = sign(b.SignedKP(signedID).PrivateKey(), sp.Bytes())
	})
	add("signature of the key without its type", func(x *prekey.Bundle) { x.SignedPreKeySignature = sign(mine, sp.KeyBytes()) })
	add("signature of the identity key", func(x *prekey.Bundle) { x.SignedPreKeySignature = sign(mine, b.KP.IdentityKey().Bytes()) })
	add("signature of nothing", func(x *prekey.Bundle) { x.SignedPreKeySignature = sign(mine, nil) })
	add("signature of the key twice", func(x *prekey.Bundle) {
		x.SignedPreKeySignature = sign(mine, append(append([]byte(nil), sp.Bytes()...), sp.Bytes()...))
	})
	add("other signed key, old signature", func(x *prekey.Bundle) { x.SignedPreKeyPublic = stranger.PublicKey() })
	add("other signed key, alternate-identity signature", func(x *prekey.Bundle) {
		x.SignedPreKeyPublic = stranger.PublicKey()
		k, _ := identity.NewKey(stranger.PublicKey().Bytes())
		s, err := b.KP.SignAlternateIdentity(core.NewPRF(seed, "alt"), k)
		if err == nil {
			x.SignedPreKeySignature = s
		}
	})
	add("other identity, old signature", func(x *prekey.Bundle) { x.IdentityKey = key(stranger.PublicKey().KeyBytes()) })
	add("other identity, own signature", func(x *prekey.Bundle) {
		x.IdentityKey = key(stranger.PublicKey().KeyBytes())
		x.SignedPreKeySignature = sign(stranger.PrivateKey(), sp.Bytes())
	})
	add("identity and signed key swapped", func(x *prekey.Bundle) {
		x.IdentityKey, x.SignedPreKeyPublic = key(sp.KeyBytes()), b.KP.PublicKey()
		x.SignedPreKeySignature = sign(b.SignedKP(signedID).PrivateKey(), b.KP.PublicKey().Bytes())
	})
	add("identity key alias", func(x *prekey.Bundle) {
		k := append([]byte(nil), b.KP.PublicKey().KeyBytes()...)
		k[31] ^= 0x80
		x.IdentityKey = key(k)
	})
	add("signed key alias", func(x *prekey.Bundle) {
		k := append([]byte(nil), sp.KeyBytes()...)
		k[31] ^= 0x80
		x.SignedPreKeyPublic = pub(k)
	})
	add("signed key alias, signed", func(x *prekey.Bundle) {
		k := append([]byte(nil), sp.KeyBytes()...)
		k[31] ^= 0x80
		x.SignedPreKeyPublic = pub(k)
		x.SignedPreKeySignature = sign(mine, x.SignedPreKeyPublic.Bytes())
	})
	for i, l := range lowOrder {
		l := l
		add(fmt.Sprint("signed key of low order, signed ", i), func(x *prekey.Bundle) {
			x.SignedPreKeyPublic = pub(l)
			x.SignedPreKeySignature = sign(mine, x.SignedPreKeyPublic.Bytes())
		})
		add(fmt.Sprint("one-time key of low order ", i), func(x *prekey.Bundle) {
			id := prekey.ID(140)
			x.PreKeyID, x.PreKeyPublic = &id, pub(l)
		})
		add(fmt.Sprint("identity key of low order, old signature ", i), func(x *prekey.Bundle) { x.IdentityKey = key(l) })
		if s := lowOrderSignature(seed, l, sp.Bytes()); s != nil {
			add(fmt.Sprint("identity key of low order, forged signature ", i), func(x *prekey.Bundle) { x.IdentityKey, x.SignedPreKeySignature = key(l), s })
		}
	}
	// Signature lengths and contents.
	for n := 0; n <= 130; n++ {
		if n == 64 {
			continue
		}
		n := n
		add(fmt.Sprint("signature of ", n, " bytes"), func(x *prekey.Bundle) {
			s := append([]byte(nil), good.SignedPreKeySignature...)
			for len(s) < n {
				s = append(s, good.SignedPreKeySignature...)
			}
			x.SignedPreKeySignature = s[:n]
		})
	}
	add("no signature", func(x *prekey.Bundle) { x.SignedPreKeySignature = nil })
	add("zero signature", func(x *prekey.Bundle) { x.SignedPreKeySignature = make([]byte, 64) })
	add("one signature", func(x *prekey.Bundle) { x.SignedPreKeySignature = bytes.Repeat([]byte{0xff}, 64) })
	// S replaced by S + L.
	add("signature plus group order", func(x *prekey.Bundle) {
		s := append([]byte(nil), good.SignedPreKeySignature...)
		top := s[63] & 0x80
		v := le(s[32:])
		v.SetBit(v, 255, 0)
		v.Add(v, ref.L)
		copy(s[32:], toLE(v))
		s[63] |= top
		x.SignedPreKeySignature = s
	})
	if all {
		for i := 0; i < 512; i++ {
			i := i
			add(fmt.Sprint("signature bit ", i), func(x *prekey.Bundle) { x.SignedPreKeySignature[i/8] ^= 1 << (i % 8) })
		}
		for i := 0; i < 256; i++ {
			i := i
			add(fmt.Sprint("signed key bit ", i), func(x *prekey.Bundle) {
				k := append([]byte(nil), sp.KeyBytes()...)
				k[i/8] ^= 1 << (i % 8)
				x.SignedPreKeyPublic = pub(k)
			})
			add(fmt.Sprint("identity key bit ", i), func(x *prekey.Bundle) {
				k := append([]byte(nil), b.KP.PublicKey().KeyBytes()...)
				k[i/8] ^= 1 << (i % 8)
				x.IdentityKey = key(k)
			})
		}
	}
	return vs
}

func le(b []byte) *big.Int {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(c)
}

func toLE(v *big.Int) []byte {
	b := v.FillBytes(make([]byte, 32))
	for i, j := 0, 31; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}

// lowOrderSignature makes a signature that verifies under a public key of low order
// without knowing any private key.
func lowOrderSignature(seed int64, pub, msg []byte) []byte {
	for i := 0; i < 200; i++ {
		for _, sb := range []byte{0, 0x80} {
			if _, ok := ref.EdKey(pub, sb); !ok {
				continue
			}
			h := sha512.Sum512(core.Bytes(32, seed, "low", i))
			r := new(big.Int).Mod(le(h[:]), ref.L)
			s := append(ref.BaseMult(r), toLE(r)...)
			s[63] |= sb
			if ref.Verify(pub, msg, s) {
				return s
			}
		}
	}
	return nil
}

// acceptable is the specification of an acceptable bundle.
func acceptable(b *prekey.Bundle) bool {
	if !ref.Verify(b.IdentityKey.PublicKey().KeyBytes(), b.SignedPreKeyPublic.Bytes(), b.SignedPreKeySignature) {
		return false
	}
	k := core.Bytes(32, 1, "probe key")
	for _, x := range []curve.PublicKey{b.IdentityKey.PublicKey(), b.SignedPreKeyPublic, b.PreKeyPublic} {
		if x == nil {
			continue
		}
		if _, ok := ref.DH(k, x.KeyBytes()); !ok {
			return false
		}
	}
	return true
}

func probeBundles(r *core.Run, all func(w *pair) bool) func(w *pair) string {
	return func(w *pair) string {
		pre := prekey.ID(150)
		for _, good := range []*prekey.Bundle{w.P[1].Bundle(signedID, nil), w.P[1].Bundle(signedID, &pre)} {
			base := w.P[0]
			before := base.Contents()
			bd := base.Digest()
			c := base.Clone()
			for _, v := range cachedVariants(w.cfg.Seed, w.P[1], good, all(w)) {
				r.Evals.Add(1)
				want := v.ok
				if pin, ok, _ := base.Ident().Load(world.Ctx, w.addr(1)); ok && !bytes.Equal(pin.Bytes(), v.b.IdentityKey.Bytes()) {
					want = false
				}
				sig := append([]byte(nil), v.b.SignedPreKeySignature...)
				err := c.ProcessBundle(w.addr(1), v.b)
				switch {
				case world.IsPanic(err):
					return fmt.Sprintf("bundle (%s): %v", v.name, err)
				case err == nil && !want:
					return fmt.Sprintf("bundle (%s) was accepted", v.name)
				case err != nil && want:
					return fmt.Sprintf("acceptable bundle (%s) was refused: %v", v.name, err)
				case !bytes.Equal(sig, v.b.SignedPreKeySignature):
					return fmt.Sprintf("bundle (%s) was modified", v.name)
				}
				if err != nil {
					r.Count("bundles_refused", 1)
					if c.Digest() != bd {
						return fmt.Sprintf("bundle (%s) was refused but changed %v", v.name, world.Diff(before, c.Contents()))
					}
					continue
				}
				r.Count("bundles_accepted", 1)
				r.Distinct.Add(1)
				d := world.Diff(before, c.Contents())
				for _, e := range d {
					if e[1:] != fmt.Sprint("session ", 1, " ", w.addr(1)) && e[1:] != fmt.Sprint("identity ", 1, " ", w.addr(1)) {
						return fmt.Sprintf("bundle (%s) was accepted and changed %v", v.name, d)
					}
				}
				pin, ok, _ := c.Ident().Load(world.Ctx, w.addr(1))
				if !ok || !bytes.Equal(pin.Bytes(), v.b.IdentityKey.Bytes()) {
					return fmt.Sprintf("bundle (%s) was accepted but its identity key is not remembered", v.name)
				}
				if _, _, err := c.Encrypt(w.addr(1), []byte("x")); err != nil {
					return fmt.Sprintf("bundle (%s) was accepted but nothing can be sent: %v", v.name, err)
				}
				c = base.Clone()
			}
		}
		return ""
	}
}

func c06(r *core.Run) {
	r.Assume("a bundle has a signed pre-key and an identity key, and its one-time pre-key ID and key are both present or both absent")
	for _, mem := range []bool{false, true} {
		for _, root := range []string{"fresh", "initiated", "established", "crossed-read", "reinit", "three-sessions", "I0o S0 r1 S1 r0 V0", "trust-other", "trust-same", "I0n S0 trust-other"} {
			cfg := pcfg{Seed: r.Seed, Modes: "on", MaxSend: [2]int{1, 1}, MaxInit: [2]int{0, 1}, Mem: mem,
				Check: probeBundles(r, func(w *pair) bool { return w.Sent == [2]int{} || r.Thorough() })}
			sp := pairSpace(root, cfg, core.Pick(r, 2, 4))
			sp.Name = fmt.Sprintf("%s mem=%v", root, mem)
			script, other, same := root, false, false
			for suffix, flag := range map[string]*bool{"trust-other": &other, "trust-same": &same} {
				if len(script) >= len(suffix) && script[len(script)-len(suffix):] == suffix {
					script, *flag = script[:len(script)-len(suffix)], true
				}
			}
			sp.Root = func() core.Node {
				for _, x := range pairRoots {
					if x.name == script {
						script = x.script
					}
				}
				w := newPair(&cfg).run(script)
				if other {
					k, _ := identity.NewKey(world.NewKeyPair(r.Seed, "c06 stranger").PublicKey().Bytes())
					w.P[0].SetTrust(w.addr(1), k)
				}
				if same {
					w.P[0].SetTrust(w.addr(1), w.P[1].KP.IdentityKey())
				}
				return w
			}
			r.Explore(sp)
		}
	}
}
