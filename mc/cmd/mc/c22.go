package main

import (
	"bytes"
	"fmt"
	"sync/atomic"
	"time"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/crypto/aes"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/mc/core"
	"verif/mc/world"
)

func init() { register("C22", "model_checking", c22) }

// guarded is a buffer inside a larger one whose every byte is watched.
type guarded struct {
	name        string
	whole, want []byte
}

// kept is a value the library returned, with the content it had.
type kept struct {
	name string
	got  func() []byte
	want []byte
}

// bufs holds the buffers passed in and the values returned.
type bufs struct {
	pre, spare int
	in         []*guarded
	out        []kept
}

// buf returns a buffer with the content, at an offset in a larger array, with spare
// capacity behind it.
func (b *bufs) buf(name string, content []byte) []byte {
	g := &guarded{name: name, whole: make([]byte, b.pre+len(content)+b.spare)}
	for i := range g.whole {
		g.whole[i] = byte(0xa0 + i%31)
	}
	copy(g.whole[b.pre:], content)
	g.want = append([]byte(nil), g.whole...)
	b.in = append(b.in, g)
	return g.whole[b.pre : b.pre+len(content)]
}

func (b *bufs) keep(name string, v []byte) {
	b.out = append(b.out, kept{name, func() []byte { return v }, append([]byte(nil), v...)})
}

func (b *bufs) keepFn(name string, f func() []byte) {
	b.out = append(b.out, kept{name, f, append([]byte(nil), f()...)})
}

// check reports a buffer that was written to or a value that changed.
func (b *bufs) check() string {
	for _, g := range b.in {
		if !bytes.Equal(g.whole, g.want) {
			i := 0
			for g.whole[i] == g.want[i] {
				i++
			}
			switch {
			case i < b.pre:
				return fmt.Sprintf("memory in front of the passed %s was changed", g.name)
			case i >= len(g.whole)-b.spare:
				return fmt.Sprintf("memory beyond the length of the passed %s was changed (byte %d of the spare capacity)", g.name, i-(len(g.whole)-b.spare))
			}
			return fmt.Sprintf("the passed %s was changed at byte %d", g.name, i-b.pre)
		}
	}
	for _, k := range b.out {
		if !bytes.Equal(k.got(), k.want) {
			return fmt.Sprintf("the %s returned earlier changed from %.40x to %.40x", k.name, k.want, k.got())
		}
	}
	return ""
}

func flip(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0xff
	}
}

// scribble overwrites everything that was passed in, with its spare capacity.
func (b *bufs) scribble() {
	for _, g := range b.in {
		flip(g.whole)
	}
}

// fix22 are the objects the operations share.
type fix22 struct {
	seed       int64
	kp, other  *curve.KeyPair
	id, id2    identity.KeyPair
	signal     []byte
	prekeyWire []byte
	skm, skdm  []byte
	state      []byte
	plainMsg   []byte
	sig, alt   []byte
	scan       []byte
}

// op22 is an operation on values: it passes buffers made by b, keeps results in b and
// returns what can be observed of the keys it made.
type op22 struct {
	name string
	run  func(f *fix22, b *bufs, v int) (obs func() [][]byte, err error)
}

func newFix22(seed int64) *fix22 {
	f := &fix22{seed: seed}
	f.kp, f.other = world.NewKeyPair(seed, "c22 a"), world.NewKeyPair(seed, "c22 b")
	f.id = must2(identity.GenerateKeyPair(core.NewPRF(seed, "c22 id")))
	f.id2 = must2(identity.GenerateKeyPair(core.NewPRF(seed, "c22 id2")))
	b := &bufs{}
	s := must2(f.newSignal(b, 0))
	f.signal = append([]byte(nil), s.Bytes()...)
	id := prekey.ID(9)
	pk := must2(message.NewPreKey(message.PreKeyConfig{Version: 3, RegistrationID: 4, PreKeyID: &id, SignedPreKeyID: 5, BaseKey: f.kp.PublicKey(), IdentityKey: f.id.IdentityKey(), Message: s}))
	f.prekeyWire = append([]byte(nil), pk.Bytes()...)
	sk := must2(f.newSenderKey(b, 0))
	f.skm = append([]byte(nil), sk.Bytes()...)
	d := must2(f.newSKDM(b, 0))
	f.skdm = append([]byte(nil), d.Bytes()...)
	rec := must2(session.InitializeAliceSessionRecord(core.NewPRF(seed, "c22 rec"), &ratchet.AliceParameters{OurIdentityKeyPair: f.id, OurBaseKeyPair: f.kp,
		TheirIdentityKey: f.id2.IdentityKey(), TheirSignedPreKey: f.other.PublicKey(), TheirRatchetKey: f.other.PublicKey()}))
	rec.State().SetAliceBaseKey(f.kp.PublicKey().Bytes())
	f.state = append([]byte(nil), rec.State().Bytes()...)
	f.sig = must2(f.kp.PrivateKey().Sign(core.NewPRF(seed, "c22 sig"), []byte("one"), []byte("two")))
	f.alt = must2(f.id.SignAlternateIdentity(core.NewPRF(seed, "c22 alt"), f.id2.IdentityKey()))
	sc := must2(fingerprint.NewScannable(2, bytes.Repeat([]byte{7}, 32), bytes.Repeat([]byte{8}, 32)))
	f.scan = append([]byte(nil), must2(sc.Bytes())...)
	return f
}

func (f *fix22) newSignal(b *bufs, v int) (*message.Signal, error) {
	m, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: b.buf("MAC key", bytes.Repeat([]byte{byte(v)}, 32)), SenderRatchetKey: f.kp.PublicKey(), PreviousCounter: 1, Counter: uint32(v),
		Ciphertext: b.buf("ciphertext", bytes.Repeat([]byte{byte(v)}, 16*(1+v))), SenderIdentityKey: f.id.IdentityKey(), ReceiverIdentityKey: f.id2.IdentityKey()})
	if err != nil {
		return nil, err
	}
	return m.(*message.Signal), nil
}

func (f *fix22) newSenderKey(b *bufs, v int) (*message.SenderKey, error) {
	return message.NewSenderKey(core.NewPRF(f.seed, "c22 skm", v), message.SenderKeyConfig{Version: 3, DistID: distA, ChainID: 3, Iteration: uint32(v),
		Ciphertext: b.buf("ciphertext", bytes.Repeat([]byte{byte(v)}, 16*(1+v))), SignatureKey: f.kp.PrivateKey()})
}

func (f *fix22) newSKDM(b *bufs, v int) (*message.SenderKeyDistribution, error) {
	return message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: distA, ChainID: 3, Iteration: uint32(v),
		ChainKey: b.buf("chain key", bytes.Repeat([]byte{byte(v)}, 32)), SigningKey: f.kp.PublicKey()})
}

func pubObs(k curve.PublicKey) func() [][]byte {
	return func() [][]byte { return [][]byte{k.Bytes(), k.KeyBytes()} }
}

func (f *fix22) text(v int) []byte { return core.Bytes(7*v+1, f.seed, "c22 text", v) }

var ops22 = []op22{
	{"aes.CBCEncrypt", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		c, err := aes.CBCEncrypt(b.buf("key", core.Bytes(32, f.seed, "k", v)), b.buf("IV", core.Bytes(16, f.seed, "iv")), b.buf("plaintext", f.text(v)))
		b.keep("ciphertext", c)
		return nil, err
	}},
	{"aes.CBCDecrypt", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		k, iv := core.Bytes(32, f.seed, "k", v), core.Bytes(16, f.seed, "iv")
		c, err := aes.CBCEncrypt(k, iv, f.text(v))
		if err != nil {
			return nil, err
		}
		p, err := aes.CBCDecrypt(b.buf("key", k), b.buf("IV", iv), b.buf("ciphertext", c))
		b.keep("plaintext", p)
		return nil, err
	}},
	{"aes.CBCDecrypt refused", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		p, err := aes.CBCDecrypt(b.buf("key", core.Bytes(32, f.seed, "k")), b.buf("IV", core.Bytes(16, f.seed, "iv")), b.buf("ciphertext", core.Bytes(16*(1+v%3)+v%2, f.seed, "c", v)))
		if err == nil {
			b.keep("plaintext", p)
		}
		return nil, nil
	}},
	{"curve.NewPublicKey", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		k, err := curve.NewPublicKey(b.buf("key", world.NewKeyPair(f.seed, fmt.Sprint("np", v)).PublicKey().Bytes()))
		if err != nil {
			return nil, err
		}
		b.keepFn("public key", func() []byte { return k.Bytes() })
		return pubObs(k), nil
	}},
	{"curve.NewPrivateKey", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		k, err := curve.NewPrivateKey(b.buf("key", core.Bytes(32, f.seed, "priv", v)))
		if err != nil {
			return nil, err
		}
		b.keepFn("private key", func() []byte { return k.Bytes() })
		return func() [][]byte { return [][]byte{k.Bytes(), k.PublicKey().Bytes(), k.PublicKey().KeyBytes()} }, nil
	}},
	{"curve.NewKeyPair", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		s := world.NewKeyPair(f.seed, fmt.Sprint("pair", v))
		k, err := curve.NewKeyPair(b.buf("private key", s.PrivateKey().Bytes()), b.buf("public key", s.PublicKey().Bytes()))
		if err != nil {
			return nil, err
		}
		return func() [][]byte {
			return [][]byte{k.PrivateKey().Bytes(), k.PublicKey().Bytes(), k.PrivateKey().PublicKey().Bytes()}
		}, nil
	}},
	{"curve25519.NewPrivateKey", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		k, err := curve25519.NewPrivateKey(b.buf("key", core.Bytes(32, f.seed, "priv", v)))
		if err != nil {
			return nil, err
		}
		s, err := k.Agreement(b.buf("peer key", f.other.PublicKey().KeyBytes()))
		b.keep("secret", s)
		return func() [][]byte { return [][]byte{k.Bytes(), k.PublicKeyBytes()} }, err
	}},
	{"Sign", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		s, err := f.kp.PrivateKey().Sign(core.NewPRF(f.seed, "s", v), b.buf("first message", f.text(v)), b.buf("second message", f.text(v+1)), b.buf("third message", nil))
		b.keep("signature", s)
		return nil, err
	}},
	{"VerifySignature", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		sig := append([]byte(nil), f.sig...)
		if v > 0 {
			sig[v] ^= 1
		}
		ok, err := f.kp.PublicKey().VerifySignature(b.buf("signature", sig), b.buf("first message", []byte("one")), b.buf("second message", []byte("two")))
		b.keep("verdict", []byte(fmt.Sprint(ok)))
		return nil, err
	}},
	{"curve25519.VerifySignature", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		ok, err := curve25519.VerifySignature(b.buf("key", f.kp.PublicKey().KeyBytes()), b.buf("signature", f.sig), b.buf("first message", []byte("one")), b.buf("second message", []byte("two")))
		if !ok {
			return nil, fmt.Errorf("not verified %v", err)
		}
		return nil, err
	}},
	{"Agreement", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		s, err := f.kp.Agreement(f.other.PublicKey())
		b.keep("secret", s)
		return nil, err
	}},
	{"identity.NewKey", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		k, err := identity.NewKey(b.buf("key", world.NewKeyPair(f.seed, fmt.Sprint("np", v)).PublicKey().Bytes()))
		if err != nil {
			return nil, err
		}
		return func() [][]byte { return [][]byte{k.Bytes(), k.PublicKey().Bytes(), k.PublicKey().KeyBytes()} }, nil
	}},
	{"alternate identity", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		s, err := f.id.SignAlternateIdentity(core.NewPRF(f.seed, "alt", v), f.id2.IdentityKey())
		if err != nil {
			return nil, err
		}
		b.keep("signature", s)
		_, err = f.id.IdentityKey().VerifyAlternateIdentity(b.buf("signature", f.alt), f.id2.IdentityKey())
		return func() [][]byte {
			return [][]byte{f.id.PublicKey().Bytes(), f.id.PrivateKey().Bytes(), f.id2.IdentityKey().Bytes()}
		}, err
	}},
	{"fingerprint.New", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		p, err := fingerprint.New(2, 3, b.buf("local identifier", f.text(v)), f.id.IdentityKey(), b.buf("remote identifier", f.text(v+1)), f.id2.IdentityKey())
		if err == nil {
			b.keepFn("fingerprint", func() []byte { return []byte(p.String()) })
		}
		return nil, err
	}},
	{"scannable fingerprint", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		s, err := fingerprint.NewScannable(2, b.buf("local fingerprint", bytes.Repeat([]byte{byte(v)}, 32)), b.buf("remote fingerprint", bytes.Repeat([]byte{8}, 32)))
		if err != nil {
			return nil, err
		}
		x, err := s.Bytes()
		if err != nil {
			return nil, err
		}
		b.keep("scannable code", x)
		_, err = s.Compare(b.buf("scanned code", f.scan))
		return nil, err
	}},
	{"displayable fingerprint", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		s, err := fingerprint.NewDisplayable(b.buf("local fingerprint", bytes.Repeat([]byte{byte(v)}, 32)), b.buf("remote fingerprint", bytes.Repeat([]byte{8}, 32)))
		if err == nil {
			b.keepFn("digits", func() []byte { return []byte(s.String()) })
		}
		return nil, err
	}},
	{"ratchet keys", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		root, err := ratchet.NewRootKey(b.buf("root key", bytes.Repeat([]byte{byte(v)}, 32)))
		if err != nil {
			return nil, err
		}
		root2, chain, err := root.CreateChain(f.kp.PrivateKey(), f.other.PublicKey())
		if err != nil {
			return nil, err
		}
		b.keep("root key", root2.Bytes())
		b.keep("chain key", chain.Key())
		mk, err := chain.Next().Next().MessageKeys()
		if err != nil {
			return nil, err
		}
		b.keep("cipher key", mk.CipherKey())
		b.keep("MAC key", mk.MACKey())
		b.keep("IV", mk.IV())
		chain, err = ratchet.NewChainKey(b.buf("chain key", bytes.Repeat([]byte{byte(v)}, 32)), 4)
		if err != nil {
			return nil, err
		}
		n := chain.Next()
		b.keep("chain key", n.Key())
		mk, err = ratchet.DeriveMessageKeys(b.buf("seed", bytes.Repeat([]byte{byte(v)}, 32)), 5)
		if err != nil {
			return nil, err
		}
		b.keep("cipher key", mk.CipherKey())
		root, chain, err = ratchet.DeriveKeys(b.buf("secret", bytes.Repeat([]byte{byte(v)}, 160)))
		b.keep("root key", root.Bytes())
		b.keep("chain key", chain.Key())
		return nil, err
	}},
	{"sender keys", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		c := senderkey.NewChainKey(b.buf("chain key", bytes.Repeat([]byte{byte(v)}, 32)), 4)
		n := c.Next()
		b.keep("chain key", n.Seed())
		mk, err := n.MessageKey()
		if err != nil {
			return nil, err
		}
		b.keep("cipher key", mk.CipherKey())
		b.keep("IV", mk.IV())
		b.keep("seed", mk.Seed())
		mk, err = senderkey.DeriveMessageKey(b.buf("seed", bytes.Repeat([]byte{byte(v)}, 32)), 4)
		b.keep("cipher key", mk.CipherKey())
		return nil, err
	}},
	{"message.NewSignal", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		m, err := f.newSignal(b, v)
		if err != nil {
			return nil, err
		}
		b.keepFn("message", func() []byte { return m.Bytes() })
		_, err = m.VerifyMAC(b.buf("MAC key", bytes.Repeat([]byte{byte(v)}, 32)), f.id.IdentityKey(), f.id2.IdentityKey())
		if err != nil {
			return nil, err
		}
		id := prekey.ID(v)
		pk, err := message.NewPreKey(message.PreKeyConfig{Version: 3, RegistrationID: 4, PreKeyID: &id, SignedPreKeyID: 5, BaseKey: f.other.PublicKey(), IdentityKey: f.id.IdentityKey(), Message: m})
		if err == nil && id != prekey.ID(v) {
			return nil, fmt.Errorf("changed the ID")
		}
		b.keepFn("pre-key message", func() []byte { return pk.Bytes() })
		return nil, err
	}},
	{"parse signal", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		m, err := message.NewSignalFromBytes(b.buf("message", f.signal))
		if err != nil {
			return nil, err
		}
		_, err = m.(*message.Signal).VerifyMAC(b.buf("MAC key", make([]byte, 32)), f.id.IdentityKey(), f.id2.IdentityKey())
		b.keep("body", m.(*message.Signal).Message())
		return pubObs(m.(*message.Signal).SenderRatchetKey()), err
	}},
	{"parse pre-key message", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		m, err := message.NewPreKeyFromBytes(b.buf("message", f.prekeyWire))
		if err != nil {
			return nil, err
		}
		p := m.(*message.PreKey)
		return func() [][]byte {
			return [][]byte{p.BaseKey().Bytes(), p.IdentityKey().Bytes(), p.Message().SenderRatchetKey().Bytes()}
		}, nil
	}},
	{"message.NewSenderKey", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		m, err := f.newSenderKey(b, v)
		if err != nil {
			return nil, err
		}
		b.keepFn("group message", func() []byte { return m.Bytes() })
		_, err = m.VerifySignature(f.kp.PublicKey())
		return nil, err
	}},
	{"parse group message", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		m, err := message.NewSenderKeyFromBytes(b.buf("message", f.skm))
		if err != nil {
			return nil, err
		}
		b.keep("body", m.Message())
		_, err = m.VerifySignature(f.kp.PublicKey())
		return nil, err
	}},
	{"message.NewSenderKeyDistribution", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		m, err := f.newSKDM(b, v)
		if err != nil {
			return nil, err
		}
		b.keepFn("distribution", func() []byte { return m.Bytes() })
		return pubObs(m.SigningKey()), nil
	}},
	{"parse distribution", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		m, err := message.NewSenderKeyDistributionFromBytes(b.buf("message", f.skdm))
		if err != nil {
			return nil, err
		}
		b.keep("chain key", m.ChainKey())
		return pubObs(m.SigningKey()), nil
	}},
	{"parse unusable", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		for i, w := range [][]byte{f.signal, f.prekeyWire, f.skm, f.skdm} {
			for _, n := range []int{0, 1, len(w) / 2, len(w) - 1} {
				x := b.buf("message", w[:n])
				switch i {
				case 0:
					message.NewSignalFromBytes(x)
				case 1:
					message.NewPreKeyFromBytes(x)
				case 2:
					message.NewSenderKeyFromBytes(x)
				case 3:
					message.NewSenderKeyDistributionFromBytes(x)
				}
				message.NewPlaintextFromBytes(x)
			}
		}
		return nil, nil
	}},
	{"prekeys", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		s := prekey.NewSigned(3, 4, f.kp, b.buf("signature", f.sig))
		p := prekey.NewPreKey(3, f.other)
		k1, err := s.KeyPair()
		if err != nil {
			return nil, err
		}
		k2, err := p.KeyPair()
		if err != nil {
			return nil, err
		}
		return func() [][]byte {
			a := must2(s.KeyPair())
			b := must2(p.KeyPair())
			return [][]byte{k1.PublicKey().Bytes(), k1.PrivateKey().Bytes(), k2.PublicKey().Bytes(), k2.PrivateKey().Bytes(),
				a.PublicKey().Bytes(), a.PrivateKey().Bytes(), b.PublicKey().Bytes(), b.PrivateKey().Bytes(),
				f.kp.PublicKey().Bytes(), f.kp.PrivateKey().Bytes(), f.other.PrivateKey().Bytes()}
		}, nil
	}},
	{"session.NewRecordBytes", func(f *fix22, b *bufs, v int) (func() [][]byte, error) {
		r, err := session.NewRecordBytes(b.buf("record", f.state))
		if err != nil {
			return nil, err
		}
		return func() [][]byte {
			k, _, err := r.RemoteIdentityKey()
			if err != nil {
				panic(err)
			}
			l := must2(r.LocalIdentityKey())
			s := must2(r.State().SenderRatchetKey())
			return [][]byte{r.State().Bytes(), k.Bytes(), l.Bytes(), s.Bytes(), s.KeyBytes(), must2(r.State().SenderRatchetPrivateKey()).Bytes()}
		}, nil
	}},
}

// runOp22 runs an operation with buffers of a shape and judges it.
func runOp22(f *fix22, o op22, pre, spare, v int) string {
	b := &bufs{pre: pre, spare: spare}
	obs, err := o.run(f, b, v)
	if err != nil {
		return fmt.Sprintf("%s: %v", o.name, err)
	}
	if w := b.check(); w != "" {
		return o.name + ": " + w
	}
	if obs == nil {
		return ""
	}
	snap := func() (s [][]byte) {
		for _, x := range obs() {
			s = append(s, append([]byte(nil), x...))
		}
		return
	}
	want := snap()
	b.scribble()
	for i, x := range snap() {
		if !bytes.Equal(x, want[i]) {
			return fmt.Sprintf("%s: changing a passed buffer afterwards changes key %d", o.name, i)
		}
	}
	for _, x := range obs() {
		flip(x[:len(x):len(x)])
	}
	for i, x := range snap() {
		if !bytes.Equal(x, want[i]) {
			return fmt.Sprintf("%s: writing to the bytes returned for a key changes key %d", o.name, i)
		}
	}
	return ""
}

// pair22 runs one operation after another and looks at the first one's results.
func pair22(f *fix22, x, y op22, v int) string {
	b1, b2 := &bufs{spare: 5}, &bufs{spare: 5}
	if _, err := x.run(f, b1, v); err != nil {
		return x.name + ": " + err.Error()
	}
	for n := 0; n < 2; n++ {
		if _, err := y.run(f, b2, v+1+n); err != nil {
			return y.name + ": " + err.Error()
		}
		if w := b1.check(); w != "" {
			return fmt.Sprintf("after %s, %s: %s", x.name, y.name, w)
		}
	}
	return ""
}

// w22 is a conversation with the bundled stores, run from the start every time: copies
// would hide what is shared. A careless caller overwrites all it has passed in, and all
// it was returned, after every operation; a careful one keeps everything.
type w22 struct {
	seed  int64
	dirty bool
	p     [2]*world.Party
	b     *bufs
	queue [2][]wmsg
	nPre  [2]int
	n     int
	dists [][]byte
	gms   [][]byte
	obs   []string
}

func newW22(seed int64, dirty bool) *w22 {
	u := &world.Universe{Signed: []prekey.ID{signedID}}
	w := &w22{seed: seed, dirty: dirty, b: &bufs{pre: 3, spare: 40}}
	for i := range w.p {
		a := address.Address{Name: fmt.Sprint("p", i), DeviceID: 1}
		u.Addrs = append(u.Addrs, a)
		u.Groups = append(u.Groups, world.GroupKey{Addr: a, Dist: distA})
		w.p[i] = world.NewParty(seed, fmt.Sprint("p", i), fmt.Sprint("p", i), a, uint32(i), u, true)
		w.p[i].AddSigned(signedID)
	}
	for i := 1; i < 9; i++ {
		u.Pre = append(u.Pre, prekey.ID(i))
	}
	return w
}

func (w *w22) addr(i int) address.Address { return w.p[i].Addr }

func (w *w22) rnd(l string) *core.PRF { return core.NewPRF(w.seed, "c22", l, w.n) }

// done ends an operation.
func (w *w22) done(ret ...[]byte) {
	if !w.dirty {
		for _, r := range ret {
			w.b.keep("value", r)
		}
		return
	}
	w.b.scribble()
	w.b.in = nil
	for _, r := range ret {
		flip(r)
	}
	// Keys the library hands out.
	for i, p := range w.p {
		kp := p.Ident().KeyPair(world.Ctx)
		flip(kp.PublicKey().Bytes())
		flip(kp.PrivateKey().Bytes())
		flip(kp.IdentityKey().Bytes())
		flip(kp.IdentityKey().PublicKey().KeyBytes())
		if k, ok, _ := p.Ident().Load(world.Ctx, w.addr(1-i)); ok {
			flip(k.Bytes())
			flip(k.PublicKey().KeyBytes())
		}
		if s, ok, _ := p.Signed().Load(world.Ctx, signedID); ok {
			if kp, err := s.KeyPair(); err == nil {
				flip(kp.PublicKey().Bytes())
				flip(kp.PrivateKey().Bytes())
			}
		}
		if r, ok, _ := p.Sess().Load(world.Ctx, w.addr(1-i)); ok && r.State() != nil {
			if k, ok, err := r.RemoteIdentityKey(); ok && err == nil {
				flip(k.Bytes())
			}
			if k, err := r.LocalIdentityKey(); err == nil {
				flip(k.Bytes())
			}
			if k, err := r.State().SenderRatchetKey(); err == nil {
				flip(k.Bytes())
				flip(k.KeyBytes())
			}
			if k, err := r.State().SenderRatchetPrivateKey(); err == nil {
				flip(k.Bytes())
			}
			flip(r.State().Bytes())
		}
	}
}

// keepMsg watches all content of a message object: nothing done with it, or later, may
// change it. (A careless caller overwrites the buffer it was parsed from.)
func (w *w22) keepMsg(m any) {
	if w.dirty {
		return
	}
	w.b.keepFn(fmt.Sprintf("%T", m), func() []byte { return msgContent(m) })
}

func msgContent(m any) []byte {
	var b []byte
	add := func(x ...any) {
		for _, v := range x {
			b = fmt.Appendf(b, "%x ", v)
		}
	}
	switch m := m.(type) {
	case *message.Signal:
		add(m.Bytes(), m.Message(), m.SenderRatchetKey().Bytes(), m.Counter(), m.Version())
	case *message.PreKey:
		add(m.Bytes(), m.BaseKey().Bytes(), m.IdentityKey().Bytes(), m.RegistrationID(), m.SignedPreKeyID(), m.Version())
		if m.PreKeyID() != nil {
			add(uint32(*m.PreKeyID()))
		}
		b = append(b, msgContent(m.Message())...)
	case *message.SenderKey:
		add(m.Bytes(), m.Message(), m.ChainID(), m.Iteration(), m.DistributionID(), m.Version())
	case *message.SenderKeyDistribution:
		add(m.Bytes(), m.ChainKey(), m.SigningKey().Bytes(), m.ChainID(), m.Iteration(), m.DistributionID(), m.Version())
	}
	return b
}

func (w *w22) log(f string, a ...any) { w.obs = append(w.obs, fmt.Sprintf(f, a...)) }

func (w *w22) ops() (s []string) {
	for i := 0; i < 2; i++ {
		if w.nPre[i] < 2 {
			s = append(s, fmt.Sprint("I", i))
		}
		if _, ok, _ := w.p[i].Sess().Load(world.Ctx, w.addr(1-i)); ok {
			s = append(s, fmt.Sprint("S", i), fmt.Sprint("R", i))
		}
		if len(w.queue[i]) > 0 {
			s = append(s, fmt.Sprint("r", i))
		}
		if len(w.queue[i]) > 1 {
			s = append(s, fmt.Sprint("n", i))
		}
	}
	return
}

func (w *w22) do(op string) {
	w.n++
	i := int(op[1] - '0')
	me, to := w.p[i], w.addr(1-i)
	switch op[0] {
	case 'I':
		w.nPre[i]++
		id := prekey.ID(w.nPre[i])
		other := w.p[1-i]
		other.AddPre(id)
		b := other.Bundle(signedID, &id)
		b.SignedPreKeySignature = w.b.buf("bundle signature", b.SignedPreKeySignature)
		before := *b
		err := me.Session(to).ProcessPreKeyBundle(world.Ctx, w.rnd(op), b)
		w.log("%s %v", op, err)
		if !sameBundle(&before, b) || *b.PreKeyID != id {
			w.log("the bundle was changed")
		}
		if w.dirty {
			*b.PreKeyID = 4711
			flip(b.IdentityKey.Bytes())
			flip(b.PreKeyPublic.Bytes())
			flip(b.SignedPreKeyPublic.KeyBytes())
			*b = prekey.Bundle{}
		}
		w.done()
	case 'S':
		pt := w.b.buf("plaintext", []byte(fmt.Sprint("message ", w.n)))
		c, err := me.Session(to).EncryptMessage(world.Ctx, pt)
		if err != nil {
			w.log("%s %v", op, err)
			w.done()
			return
		}
		w.log("%s %x", op, c.Bytes())
		w.queue[1-i] = append(w.queue[1-i], wmsg{c.Type(), append([]byte(nil), c.Bytes()...)})
		w.keepMsg(c)
		if p, ok := c.(*message.PreKey); ok && w.dirty && p.PreKeyID() != nil {
			*p.PreKeyID() = 4712
		}
		w.done(c.Bytes())
	case 'r', 'n':
		k := 0
		if op[0] == 'n' {
			k = len(w.queue[i]) - 1
		}
		m := w.queue[i][k]
		w.queue[i] = append(append([]wmsg(nil), w.queue[i][:k]...), w.queue[i][k+1:]...)
		c, err := world.ParsePair(m.typ, w.b.buf("message", m.wire))
		if err != nil {
			w.log("%s %v", op, err)
			w.done()
			return
		}
		w.keepMsg(c)
		pt, err := me.Session(to).DecryptMessage(world.Ctx, w.rnd(op), c)
		w.log("%s %q %v", op, pt, err)
		if p, ok := c.(*message.PreKey); ok && w.dirty && p.PreKeyID() != nil {
			*p.PreKeyID() = 4713
		}
		w.done(pt)
	case 'R':
		r, ok, err := me.Sess().Load(world.Ctx, to)
		if err != nil || !ok || r.State() == nil {
			return
		}
		b := w.b.buf("record", r.State().Bytes())
		n, err := session.NewRecordBytes(b)
		if err == nil {
			err = me.Sess().Store(world.Ctx, to, n)
		}
		w.log("%s %v", op, err)
		w.done()
	}
}

func sameBundle(a, b *prekey.Bundle) bool {
	return a.RegistrationID == b.RegistrationID && a.DeviceID == b.DeviceID && a.PreKeyID == b.PreKeyID && a.SignedPreKeyID == b.SignedPreKeyID &&
		bytes.Equal(a.SignedPreKeySignature, b.SignedPreKeySignature) && bytes.Equal(a.IdentityKey.Bytes(), b.IdentityKey.Bytes()) &&
		bytes.Equal(a.PreKeyPublic.Bytes(), b.PreKeyPublic.Bytes()) && bytes.Equal(a.SignedPreKeyPublic.Bytes(), b.SignedPreKeyPublic.Bytes())
}

// Group operations: party 0 sends.
func (w *w22) groupOps() (s []string) {
	if len(w.dists) < 3 {
		s = append(s, "N")
	}
	if len(w.dists) > 0 {
		s = append(s, "P", "G")
	}
	if len(w.dists) > 1 {
		s = append(s, "Q")
	}
	if len(w.gms) > 0 {
		s = append(s, "g")
	}
	if len(w.gms) > 1 {
		s = append(s, "h")
	}
	return
}

func (w *w22) groupDo(op string) {
	w.n++
	a, b := w.p[0], w.p[1]
	switch op {
	case "N":
		var m *message.SenderKeyDistribution
		var err error
		world.GlobalRand.With(w.rnd("global"), func() { m, err = a.GroupSession(a.Addr, distA).NewSenderKeyDistribution(world.Ctx, w.rnd(op)) })
		if err != nil {
			w.log("N %v", err)
			return
		}
		w.log("N %x", m.Bytes())
		w.keepMsg(m)
		w.dists = append(w.dists, append([]byte(nil), m.Bytes()...))
		if w.dirty {
			flip(m.SigningKey().Bytes())
		}
		w.done(m.Bytes())
	case "P", "Q":
		wire := w.dists[len(w.dists)-1]
		if op == "Q" {
			wire = w.dists[0]
		}
		m, err := message.NewSenderKeyDistributionFromBytes(w.b.buf("distribution", wire))
		if err == nil {
			w.keepMsg(m)
			err = b.GroupSession(a.Addr, distA).ProcessSenderKeyDistribution(world.Ctx, m)
		}
		w.log("%s %v", op, err)
		w.done()
	case "G":
		pt := w.b.buf("plaintext", []byte(fmt.Sprint("message ", w.n)))
		m, err := a.GroupSession(a.Addr, distA).EncryptMessage(world.Ctx, w.rnd(op), pt)
		if err != nil {
			w.log("G %v", err)
			w.done()
			return
		}
		w.log("G %x", m.Bytes())
		w.keepMsg(m)
		w.gms = append(w.gms, append([]byte(nil), m.Bytes()...))
		w.done(m.Bytes())
	case "g", "h":
		k := 0
		if op == "h" {
			k = len(w.gms) - 1
		}
		wire := w.gms[k]
		w.gms = append(append([][]byte(nil), w.gms[:k]...), w.gms[k+1:]...)
		m, err := message.NewSenderKeyFromBytes(w.b.buf("group message", wire))
		if err != nil {
			w.log("%s %v", op, err)
			w.done()
			return
		}
		w.keepMsg(m)
		pt, err := b.GroupSession(a.Addr, distA).DecryptMessage(world.Ctx, m)
		w.log("%s %q %v", op, pt, err)
		w.done(pt)
	}
}

// history22 runs a history for a careful and a careless caller.
func history22(seed int64, group bool, h []string) (next []string, bad string) {
	var w [2]*w22
	for k, dirty := range []bool{false, true} {
		x := newW22(seed, dirty)
		w[k] = x
		for _, op := range h {
			if group {
				x.groupDo(op)
			} else {
				x.do(op)
			}
		}
		if !dirty {
			if s := x.b.check(); s != "" {
				return nil, fmt.Sprintf("after %v: %s", h, s)
			}
		}
	}
	for i := range w[0].obs {
		if i >= len(w[1].obs) || w[0].obs[i] != w[1].obs[i] {
			return nil, fmt.Sprintf("a caller that overwrites the buffers it passed and was returned gets another result: %.160s, not %.160s", w[1].obs[i], w[0].obs[i])
		}
	}
	if d := world.Diff(w[0].p[0].Contents(), w[1].p[0].Contents()); len(d) > 0 {
		return nil, fmt.Sprintf("overwriting buffers that were passed or returned changed what is stored: %v", d)
	}
	if d := world.Diff(w[0].p[1].Contents(), w[1].p[1].Contents()); len(d) > 0 {
		return nil, fmt.Sprintf("overwriting buffers that were passed or returned changed what is stored: %v", d)
	}
	if group {
		return w[0].groupOps(), ""
	}
	return w[0].ops(), ""
}

// all22 runs every history up to a depth that begins with a given one, each from the start.
func all22(r *core.Run, name string, group bool, start []string, depth int) {
	if r.Stopped() {
		return
	}
	t0 := time.Now()
	var n, tr atomic.Int64
	run := func(h []string) []string {
		n.Add(1)
		tr.Add(int64(len(h)))
		var next []string
		f := func() string {
			return core.Guard(func() (s string) { next, s = history22(r.Seed, group, h); return })
		}
		if s := f(); s != "" {
			r.Violate(name, s, map[string]any{"history": h}, f)
			return nil
		}
		return next
	}
	var walk func(h []string, d int)
	walk = func(h []string, d int) {
		if r.Stopped() {
			return
		}
		next := run(h)
		if d == 0 {
			return
		}
		for _, op := range next {
			walk(append(h[:len(h):len(h)], op), d-1)
		}
	}
	// The first three steps in sequence, the rest in parallel.
	front := [][]string{start}
	for d := 0; d < 3; d++ {
		var nf [][]string
		for _, h := range front {
			for _, op := range run(h) {
				nf = append(nf, append(h[:len(h):len(h)], op))
			}
		}
		front = nf
	}
	r.Parallel(len(front), func(i int) { walk(front[i], depth-3) })
	r.States.Add(n.Load())
	r.Transitions.Add(tr.Load())
	r.Traces.Add(2 * n.Load())
	if len(front) > 0 {
		r.Sample(map[string]any{"space": name, "history": front[len(front)/2]})
	}
	r.Part(map[string]any{"space": name, "depth": depth, "states": n.Load(), "transitions": tr.Load(), "wall_s": time.Since(t0).Seconds()})
}

func c22(r *core.Run) {
	f := newFix22(r.Seed)
	var cs []kase
	shapes := []int{0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100}
	for _, o := range ops22 {
		for _, pre := range []int{0, 1, 5} {
			for _, spare := range shapes {
				for v := 0; v < core.Pick(r, 4, 12); v++ {
					cs = append(cs, kase{fmt.Sprintf("%s, offset %d, spare %d, value %d", o.name, pre, spare, v), func() string { return runOp22(f, o, pre, spare, v) }})
				}
			}
		}
	}
	enumerate(r, "operations with guarded buffers", cs)
	cs = nil
	for _, x := range ops22 {
		for _, y := range ops22 {
			for v := 0; v < 2; v++ {
				cs = append(cs, kase{fmt.Sprintf("%s then %s", x.name, y.name), func() string { return pair22(f, x, y, v) }})
			}
		}
	}
	enumerate(r, "results after other operations", cs)
	// Every length of plaintext, with every spare capacity that padding might use.
	cs = nil
	for n := 0; n <= core.Pick(r, 50, 300); n++ {
		for spare := 0; spare <= 33; spare++ {
			cs = append(cs, kase{fmt.Sprintf("plaintext of %d bytes, spare %d", n, spare), func() string {
				b := &bufs{pre: 1, spare: spare}
				k, iv, pt := core.Bytes(32, 1, "k"), core.Bytes(16, 1, "iv"), core.Bytes(n, 1, "p")
				c, err := aes.CBCEncrypt(k, iv, b.buf("plaintext", pt))
				if err != nil {
					return err.Error()
				}
				b.keep("ciphertext", c)
				p, err := aes.CBCDecrypt(k, iv, b.buf("ciphertext", c))
				if err != nil {
					return err.Error()
				}
				b.keep("plaintext", p)
				// Writing to a result does not reach into what was passed.
				s := b.check()
				b.out = nil
				flip(p)
				flip(c)
				if s == "" {
					s = b.check()
				}
				return s
			}})
		}
	}
	enumerate(r, "lengths of plaintexts", cs)
	all22(r, "conversation", false, nil, core.Pick(r, 6, 7))
	all22(r, "conversation with archived sessions", false, []string{"I0", "S0", "S0", "r1", "S1", "I1", "S1", "r0"}, core.Pick(r, 4, 6))
	all22(r, "established conversation", false, []string{"I0", "S0", "r1", "S1", "r0"}, core.Pick(r, 5, 6))
	all22(r, "group", true, nil, core.Pick(r, 7, 9))
	all22(r, "established group", true, []string{"N", "P", "G", "G", "G", "h"}, core.Pick(r, 5, 7))
}
