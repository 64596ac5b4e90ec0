package main

import (
	"bytes"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C28", "model_checking", c28) }

// altMessage is what an alternate-identity signature covers.
func altMessage(other []byte) []byte {
	return append(append(bytes.Repeat([]byte{0xff}, 32), "Signal_PNI_Signature"...), other...)
}

func c28(r *core.Run) {
	n := core.Pick(r, 5, 9)
	var kps []identity.KeyPair
	for i := 0; i < n; i++ {
		kp := world.NewKeyPair(r.Seed, fmt.Sprint("c28 ", i))
		kps = append(kps, identity.NewKeyPair(kp.PrivateKey(), identKey(kp.PublicKey().Bytes())))
	}
	zs := []string{"z1", "z2", "z3"}
	var cs []kase
	verify := func(k identity.Key, sig []byte, o identity.Key) bool {
		ok, err := k.VerifyAlternateIdentity(sig, o)
		return ok && err == nil
	}
	for i := range kps {
		for j := range kps {
			for _, z := range zs {
				i, j, z := i, j, z
				cs = append(cs, kase{fmt.Sprintf("identity %d for %d", i, j), func() string {
					sig, err := kps[i].SignAlternateIdentity(core.NewPRF(r.Seed, z), kps[j].IdentityKey())
					if err != nil {
						return "cannot sign: " + err.Error()
					}
					if len(sig) != 64 || !ref.Verify(kps[i].PublicKey().KeyBytes(), altMessage(kps[j].IdentityKey().Bytes()), sig) {
						return "not a signature of the specified content"
					}
					for k := range kps {
						for l := range kps {
							if got := verify(kps[k].IdentityKey(), sig, kps[l].IdentityKey()); got != (k == i && l == j) {
								return fmt.Sprintf("the signature by %d for %d verifies for %d and %d: %v", i, j, k, l, got)
							}
						}
						// It is not a signature for any other purpose.
						for l := range kps {
							if ok, _ := kps[k].PublicKey().VerifySignature(sig, kps[l].IdentityKey().Bytes()); ok {
								return "verifies as a signature of a key"
							}
						}
					}
					// Every altered signature.
					for b := 0; b < 512; b++ {
						c := append([]byte(nil), sig...)
						c[b/8] ^= 1 << (b % 8)
						if verify(kps[i].IdentityKey(), c, kps[j].IdentityKey()) {
							return fmt.Sprintf("verifies with bit %d of the signature flipped", b)
						}
					}
					for l := 0; l < 64; l++ {
						if verify(kps[i].IdentityKey(), sig[:l], kps[j].IdentityKey()) {
							return fmt.Sprintf("verifies cut to %d bytes", l)
						}
					}
					for _, l := range []int{1, 2, 32, 64} {
						if verify(kps[i].IdentityKey(), append(append([]byte(nil), sig...), make([]byte, l)...), kps[j].IdentityKey()) {
							return fmt.Sprintf("verifies extended by %d bytes", l)
						}
					}
					// Every altered key.
					for b := 0; b < 256; b++ {
						ok := append([]byte(nil), kps[j].IdentityKey().Bytes()...)
						ok[1+b/8] ^= 1 << (b % 8)
						if verify(kps[i].IdentityKey(), sig, identKey(ok)) {
							return fmt.Sprintf("verifies for the other key with bit %d flipped", b)
						}
						if b == 255 {
							continue // the top bit of a key is ignored by the signature scheme
						}
						mk := append([]byte(nil), kps[i].IdentityKey().Bytes()...)
						mk[1+b/8] ^= 1 << (b % 8)
						if verify(identKey(mk), sig, kps[j].IdentityKey()) {
							return fmt.Sprintf("verifies for the signer with bit %d flipped", b)
						}
					}
					return ""
				}})
			}
		}
	}
	enumerate(r, "pairs of identities", cs)

	cs = nil
	for i := range kps {
		for j := range kps {
			i, j := i, j
			cs = append(cs, kase{fmt.Sprintf("foreign signatures of %d about %d", i, j), func() string {
				ob := kps[j].IdentityKey().Bytes()
				p1, p2 := bytes.Repeat([]byte{0xff}, 32), []byte("Signal_PNI_Signature")
				priv := kps[i].PrivateKey()
				var bodies [][]byte
				add := func(parts ...[]byte) { bodies = append(bodies, bytes.Join(parts, nil)) }
				// What the identity signs for other purposes: pre-keys, group messages, anything.
				add(ob)
				add(ob[1:])
				add(p2, ob)
				add(p1, ob)
				add(p2, p1, ob)
				add(p1, p2)
				add(p1, p2, ob[1:])
				add(p1, p2, ob, ob)
				add(p1, p2, kps[i].IdentityKey().Bytes(), ob)
				add(p1, p2, ob, kps[i].IdentityKey().Bytes())
				add(p1[1:], p2, ob)
				add(p1, []byte{0xff}, p2, ob)
				add(p1, p2[:len(p2)-1], ob)
				add(p1, []byte("signal_pni_signature"), ob)
				add()
				for b := 0; b < (32+20+33)*8; b++ {
					m := altMessage(ob)
					m[b/8] ^= 1 << (b % 8)
					bodies = append(bodies, m)
				}
				for k, body := range bodies {
					sig, err := priv.Sign(core.NewPRF(r.Seed, "z"), body)
					if err != nil {
						return err.Error()
					}
					if verify(kps[i].IdentityKey(), sig, kps[j].IdentityKey()) {
						return fmt.Sprintf("a signature of another content (%d) verifies", k)
					}
				}
				// Made by an independent implementation.
				good := ref.Sign(priv.Bytes(), core.Bytes(64, r.Seed, "zz"), altMessage(ob))
				if !verify(kps[i].IdentityKey(), good, kps[j].IdentityKey()) {
					return "a specified signature is refused"
				}
				return ""
			}})
		}
	}
	// Signatures that satisfy the equation without a key do not exist for these; trivial ones.
	for i := range kps {
		i := i
		cs = append(cs, kase{fmt.Sprint("trivial signatures for ", i), func() string {
			for _, b := range []byte{0, 1, 0xff, 0x80, 0x7f} {
				s := bytes.Repeat([]byte{b}, 64)
				t := append(bytes.Repeat([]byte{0}, 32), bytes.Repeat([]byte{b}, 32)...)
				u := append(append([]byte{1}, make([]byte, 31)...), bytes.Repeat([]byte{b}, 32)...)
				for _, x := range [][]byte{s, t, u, nil} {
					for j := range kps {
						if verify(kps[i].IdentityKey(), x, kps[j].IdentityKey()) {
							return fmt.Sprintf("%x verifies", x)
						}
					}
				}
			}
			return ""
		}})
	}
	enumerate(r, "other signatures", cs)
	r.Bound("identities", n)
	_ = curve.PublicKeySize
}
