package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C15", "model_checking", c15) }

// once remembers which fields an encoding was made of.
type once struct {
	mu sync.Mutex
	m  map[string]string
}

func (o *once) put(enc []byte, fields string) string {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.m == nil {
		o.m = map[string]string{}
	}
	if f, ok := o.m[string(enc)]; ok && f != fields {
		return fmt.Sprintf("%s and %s have the same encoding", f, fields)
	}
	o.m[string(enc)] = fields
	return ""
}

var edges32 = []uint32{0, 1, 2, 127, 128, 255, 256, 16383, 16384, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2, 1<<32 - 1}

func c15(r *core.Run) {
	r.Assume("protocol version 3, the only one the library produces")
	lens := []int{0, 1, 2, 15, 16, 17, 127, 128, 129, 1000, 16383, 16384, 16385}
	if r.Thorough() {
		lens = append(lens, 3, 31, 32, 33, 63, 64, 65, 255, 256, 257, 65535, 65536, 1<<21-1, 1<<21)
	}
	counters := edges32
	r.Bound("content_lengths", fmt.Sprint(lens))
	r.Bound("counters", fmt.Sprint(counters))
	var keys []curve.PublicKey
	for i := 0; i < 3; i++ {
		keys = append(keys, world.NewKeyPair(r.Seed, fmt.Sprint("c15 ", i)).PublicKey())
	}
	// Public keys as they may arrive: any 32 bytes.
	odd := [][]byte{make([]byte, 32), bytes.Repeat([]byte{0xff}, 32), append(make([]byte, 31), 0x80), append([]byte{1}, make([]byte, 31)...)}
	for _, b := range odd {
		keys = append(keys, pubKey(ref.Enc(b)))
	}
	idA, idB := identKey(keys[0].Bytes()), identKey(keys[1].Bytes())
	macKeys := [][]byte{make([]byte, 32), core.Bytes(32, r.Seed, "mac"), bytes.Repeat([]byte{0xff}, 32)}

	// Ordinary messages.
	var seenS once
	var cs []kase
	signal := func(k curve.PublicKey, n, prev uint32, ct, mk []byte, from, to identity.Key) (*message.Signal, error) {
		m, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: mk, SenderRatchetKey: k, PreviousCounter: prev, Counter: n, Ciphertext: ct, SenderIdentityKey: from, ReceiverIdentityKey: to})
		if err != nil {
			return nil, err
		}
		s, ok := m.(*message.Signal)
		if !ok {
			return nil, fmt.Errorf("not a Signal message")
		}
		return s, nil
	}
	same := func(a, b *message.Signal) string {
		switch {
		case a.Type() != message.WhisperType || b.Type() != message.WhisperType:
			return "type"
		case a.Version() != b.Version():
			return fmt.Sprint("version ", a.Version(), " ", b.Version())
		case a.Counter() != b.Counter():
			return fmt.Sprint("counter ", a.Counter(), " ", b.Counter())
		case !bytes.Equal(a.Message(), b.Message()):
			return "content"
		case !bytes.Equal(a.SenderRatchetKey().Bytes(), b.SenderRatchetKey().Bytes()) || !a.SenderRatchetKey().Equal(b.SenderRatchetKey()):
			return "ratchet key"
		case !bytes.Equal(a.Bytes(), b.Bytes()):
			return "encoding"
		}
		return ""
	}
	judgeSignal := func(k curve.PublicKey, n, prev uint32, ct, mk []byte) string {
		m, err := signal(k, n, prev, ct, mk, idA, idB)
		if err != nil {
			return "cannot create: " + err.Error()
		}
		d := core.Digest(k.Bytes(), n, prev, ct, mk)
		if x := seenS.put(m.Bytes(), fmt.Sprintf("counter %d previous %d content %d bytes (%x)", n, prev, len(ct), d[:4])); x != "" {
			return x
		}
		if len(ct) > 0 {
			f, err := ref.ParseSignal(m.Bytes())
			if err != nil || f.Version != 0x33 || f.N != n || f.Prev != prev || !bytes.Equal(f.Cipher, ct) || !bytes.Equal(f.Ratchet, k.Bytes()) {
				return fmt.Sprintf("the encoding has other field values: %v", err)
			}
			if !bytes.Equal(f.Mac, ref.HMAC(mk, idA.Bytes(), idB.Bytes(), f.Body)[:8]) {
				return "the authentication is not the specified one"
			}
		}
		if m.Version() != 3 || m.Counter() != n || !bytes.Equal(m.Message(), ct) || !bytes.Equal(m.SenderRatchetKey().Bytes(), k.Bytes()) {
			return "fields of the created message differ from those given"
		}
		c, err := message.NewSignalFromBytes(append([]byte(nil), m.Bytes()...))
		if err != nil {
			return "not decodable: " + err.Error()
		}
		m2, ok := c.(*message.Signal)
		if !ok {
			return "decoded to another type"
		}
		if x := same(m, m2); x != "" {
			return "decoded message differs: " + x
		}
		for _, mm := range []*message.Signal{m, m2} {
			for i, k2 := range macKeys {
				ok, err := mm.VerifyMAC(k2, idA, idB)
				if err != nil || ok != bytes.Equal(k2, mk) {
					return fmt.Sprintf("authentication with key %d: %v %v", i, ok, err)
				}
			}
			if ok, err := mm.VerifyMAC(mk, idB, idA); err != nil || ok {
				return fmt.Sprintf("authentication with swapped identities: %v %v", ok, err)
			}
		}
		return ""
	}
	for _, n := range counters {
		for _, p := range counters {
			n, p := n, p
			cs = append(cs, kase{fmt.Sprintf("counter %d previous %d", n, p), func() string { return judgeSignal(keys[0], n, p, []byte("ciphertext"), macKeys[1]) }})
		}
	}
	for _, l := range lens {
		for ki := range keys {
			for mi := range macKeys {
				l, ki, mi := l, ki, mi
				cs = append(cs, kase{fmt.Sprintf("content %d key %d mac %d", l, ki, mi), func() string {
					return judgeSignal(keys[ki], 5, 3, core.Bytes(l, r.Seed, "ct"), macKeys[mi])
				}})
			}
		}
	}
	for b := 0; b < 256; b++ {
		b := b
		// One content byte of every value, and every value repeated.
		cs = append(cs, kase{fmt.Sprint("content byte ", b), func() string {
			if x := judgeSignal(keys[0], 0, 0, []byte{byte(b)}, macKeys[1]); x != "" {
				return x
			}
			return judgeSignal(keys[0], 0, 0, bytes.Repeat([]byte{byte(b)}, 20), macKeys[1])
		}})
	}
	enumerate(r, "ordinary messages", cs)

	// Set-up messages.
	var seenP once
	cs = nil
	ids := []*uint32{nil}
	for i := range edges32 {
		ids = append(ids, &edges32[i])
	}
	inner, err := signal(keys[0], 0, 0, []byte("inner"), macKeys[1], idA, idB)
	if err != nil {
		r.Violate("set-up messages", "cannot create an inner message: "+err.Error(), nil, nil)
		return
	}
	judgePre := func(reg uint32, pre *uint32, sig uint32, base, ident curve.PublicKey, in *message.Signal) string {
		var id *prekey.ID
		name := "none"
		if pre != nil {
			v := prekey.ID(*pre)
			id = &v
			name = fmt.Sprint(*pre)
		}
		m, err := message.NewPreKey(message.PreKeyConfig{Version: 3, RegistrationID: reg, PreKeyID: id, SignedPreKeyID: prekey.ID(sig), BaseKey: base, IdentityKey: identKey(ident.Bytes()), Message: in})
		if err != nil {
			return "cannot create: " + err.Error()
		}
		d := core.Digest(base.Bytes(), ident.Bytes(), in.Bytes())
		if x := seenP.put(m.Bytes(), fmt.Sprintf("registration %d pre-key %s signed %d (%x)", reg, name, sig, d[:4])); x != "" {
			return x
		}
		f, err := ref.ParsePreKey(m.Bytes())
		if err != nil {
			return "not the specified encoding: " + err.Error()
		}
		if f.Version != 0x33 || f.Reg != reg || f.Signed != sig || (f.Pre == nil) != (pre == nil) || pre != nil && *f.Pre != *pre ||
			!bytes.Equal(f.Base, base.Bytes()) || !bytes.Equal(f.Identity, ident.Bytes()) || !bytes.Equal(f.Message, in.Bytes()) {
			return "the encoding has other field values than the specification"
		}
		c, err := message.NewPreKeyFromBytes(append([]byte(nil), m.Bytes()...))
		if err != nil {
			return "not decodable: " + err.Error()
		}
		for i, x := range []message.Ciphertext{m, c} {
			p, ok := x.(*message.PreKey)
			if !ok || p.Type() != message.PreKeyType {
				return "type"
			}
			if p.Version() != 3 || p.RegistrationID() != reg || p.SignedPreKeyID() != prekey.ID(sig) {
				return fmt.Sprintf("copy %d: version %d registration %d signed %d", i, p.Version(), p.RegistrationID(), p.SignedPreKeyID())
			}
			if (p.PreKeyID() == nil) != (pre == nil) || pre != nil && uint32(*p.PreKeyID()) != *pre {
				return fmt.Sprintf("copy %d: pre-key identifier %v, was %s", i, p.PreKeyID(), name)
			}
			if !bytes.Equal(p.BaseKey().Bytes(), base.Bytes()) || !bytes.Equal(p.IdentityKey().Bytes(), ident.Bytes()) {
				return fmt.Sprintf("copy %d: keys", i)
			}
			if x := same(p.Message(), in); x != "" {
				return fmt.Sprintf("copy %d: inner message: %s", i, x)
			}
			if !bytes.Equal(p.Bytes(), m.Bytes()) {
				return fmt.Sprintf("copy %d: encoding", i)
			}
			if ok, err := p.Message().VerifyMAC(macKeys[1], idA, idB); err != nil || !ok {
				return fmt.Sprintf("copy %d: authentication of the inner message: %v %v", i, ok, err)
			}
		}
		return ""
	}
	for _, reg := range edges32 {
		for _, pre := range ids {
			for _, sig := range edges32 {
				reg, pre, sig := reg, pre, sig
				cs = append(cs, kase{fmt.Sprintf("registration %d pre-key %v signed %d", reg, deref(pre), sig), func() string { return judgePre(reg, pre, sig, keys[0], keys[1], inner) }})
			}
		}
	}
	for _, base := range keys {
		for _, id := range keys {
			base, id := base, id
			cs = append(cs, kase{fmt.Sprintf("base %x identity %x", base.KeyBytes()[:4], id.KeyBytes()[:4]), func() string { return judgePre(5, nil, 22, base, id, inner) }})
		}
	}
	for _, l := range lens {
		in, err := signal(keys[2], 7, 9, core.Bytes(l, r.Seed, "inner"), macKeys[1], idA, idB)
		if err == nil {
			cs = append(cs, kase{fmt.Sprint("inner content ", l), func() string { return judgePre(5, u32(31), 22, keys[0], keys[1], in) }})
		}
	}
	enumerate(r, "set-up messages", cs)

	// Group messages and distributions.
	var dists []distribution.ID
	for _, s := range []string{"00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff", distA.String(), distB.String(), "D1D1D1D1-7000-11EB-B32A-33B8A8A48700", "00000000-0000-0000-0000-000000000001", "01000000-0000-0000-0000-000000000000"} {
		d, err := distribution.Parse(s)
		if err != nil {
			r.Violate("identifiers", "identifier "+s+" not accepted: "+err.Error(), s, nil)
			return
		}
		dists = append(dists, d)
	}
	sk := world.NewKeyPair(r.Seed, "c15 signing")
	sk2 := world.NewKeyPair(r.Seed, "c15 signing 2")
	var seenG, seenD once
	cs = nil
	group := func(d distribution.ID, chain, n uint32, ct []byte) string {
		m, err := message.NewSenderKey(core.NewPRF(r.Seed, "z"), message.SenderKeyConfig{Version: 3, DistID: d, ChainID: chain, Iteration: n, Ciphertext: ct, SignatureKey: sk.PrivateKey()})
		if err != nil {
			return "cannot create: " + err.Error()
		}
		if len(m.Bytes()) < 64 {
			return "encoding too short"
		}
		dg := core.Digest(ct)
		if x := seenG.put(m.Bytes()[:len(m.Bytes())-64], fmt.Sprintf("group %v chain %d iteration %d content %x", d, chain, n, dg[:4])); x != "" {
			return x
		}
		if len(ct) > 0 {
			f, err := ref.ParseSenderKey(m.Bytes())
			if err != nil || f.Version != 0x33 || string(f.Dist) != d.String() || f.ChainID != chain || f.N != n || !bytes.Equal(f.Cipher, ct) {
				return fmt.Sprintf("the encoding has other field values: %v %+v", err, f)
			}
			if !ref.Verify(sk.PublicKey().KeyBytes(), f.Body, f.Sig) {
				return "not a signature over the exact encoding"
			}
		}
		m2, err := message.NewSenderKeyFromBytes(append([]byte(nil), m.Bytes()...))
		if err != nil {
			return "not decodable: " + err.Error()
		}
		for i, x := range []*message.SenderKey{m, m2} {
			if x.Type() != message.SenderKeyType || x.Version() != 3 || x.DistributionID() != d || x.ChainID() != chain || x.Iteration() != n || !bytes.Equal(x.Message(), ct) || !bytes.Equal(x.Bytes(), m.Bytes()) {
				return fmt.Sprintf("copy %d: type %v version %d group %v chain %d iteration %d content %d bytes", i, x.Type(), x.Version(), x.DistributionID(), x.ChainID(), x.Iteration(), len(x.Message()))
			}
			if ok, err := x.VerifySignature(sk.PublicKey()); err != nil || !ok {
				return fmt.Sprintf("copy %d: signature not valid: %v", i, err)
			}
			if ok, _ := x.VerifySignature(sk2.PublicKey()); ok {
				return fmt.Sprintf("copy %d: signature valid for another key", i)
			}
		}
		return ""
	}
	dist := func(d distribution.ID, chain, n uint32, ck []byte, k curve.PublicKey) string {
		m, err := message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: d, ChainID: chain, Iteration: n, ChainKey: ck, SigningKey: k})
		if err != nil {
			return "cannot create: " + err.Error()
		}
		if x := seenD.put(m.Bytes(), fmt.Sprintf("group %v chain %d iteration %d key %x signing %x", d, chain, n, ck, k.Bytes())); x != "" {
			return x
		}
		f, err := ref.ParseSKDM(m.Bytes())
		if err != nil || f.Version != 0x33 || string(f.Dist) != d.String() || f.ChainID != chain || f.N != n || !bytes.Equal(f.ChainKey, ck) || !bytes.Equal(f.SigPub, k.Bytes()) {
			return fmt.Sprintf("the encoding has other field values: %v", err)
		}
		m2, err := message.NewSenderKeyDistributionFromBytes(append([]byte(nil), m.Bytes()...))
		if err != nil {
			return "not decodable: " + err.Error()
		}
		for i, x := range []*message.SenderKeyDistribution{m, m2} {
			if x.Version() != 3 || x.DistributionID() != d || x.ChainID() != chain || x.Iteration() != n || !bytes.Equal(x.ChainKey(), ck) || !bytes.Equal(x.SigningKey().Bytes(), k.Bytes()) || !bytes.Equal(x.Bytes(), m.Bytes()) {
				return fmt.Sprintf("copy %d: group %v chain %d iteration %d", i, x.DistributionID(), x.ChainID(), x.Iteration())
			}
		}
		return ""
	}
	for _, c := range edges32 {
		for _, n := range edges32 {
			c, n := c, n
			cs = append(cs, kase{fmt.Sprintf("group message chain %d iteration %d", c, n), func() string { return group(distA, c, n, []byte("ct")) }})
			cs = append(cs, kase{fmt.Sprintf("distribution chain %d iteration %d", c, n), func() string { return dist(distA, c, n, macKeys[1], sk.PublicKey()) }})
		}
	}
	for _, d := range dists {
		for _, l := range lens {
			d, l := d, l
			cs = append(cs, kase{fmt.Sprintf("group message %v content %d", d, l), func() string { return group(d, 1, 2, core.Bytes(l, r.Seed, "ct")) }})
		}
		for _, ck := range macKeys {
			for _, k := range keys {
				d, ck, k := d, ck, k
				cs = append(cs, kase{fmt.Sprintf("distribution %v", d), func() string { return dist(d, 3, 4, ck, k) }})
			}
		}
	}
	enumerate(r, "group messages", cs)

	// Identifiers, keys, plaintext messages and addresses.
	cs = nil
	for pos := 0; pos < 16; pos++ {
		for b := 0; b < 256; b++ {
			pos, b := pos, b
			cs = append(cs, kase{fmt.Sprintf("identifier byte %d = %d", pos, b), func() string {
				var u [16]byte
				u[pos] = byte(b)
				s := fmt.Sprintf("%x-%x-%x-%x-%x", u[:4], u[4:6], u[6:8], u[8:10], u[10:])
				d, err := distribution.Parse(s)
				if err != nil || d.String() != s {
					return fmt.Sprintf("%s became %v: %v", s, d, err)
				}
				e, err := distribution.ParseBytes([]byte(s))
				if err != nil || e != d || distribution.MustParse(s) != d {
					return "identifiers parsed from text and bytes differ"
				}
				if g, err := distribution.Parse(strings.ToUpper(s)); err != nil || g != d {
					return "upper case differs"
				}
				return ""
			}})
		}
	}
	for pos := 0; pos < 32; pos++ {
		for b := 0; b < 256; b++ {
			pos, b := pos, b
			cs = append(cs, kase{fmt.Sprintf("key byte %d = %d", pos, b), func() string {
				k := make([]byte, 33)
				k[0] = 5
				k[1+pos] = byte(b)
				p, err := curve.NewPublicKey(append([]byte(nil), k...))
				if err != nil || !bytes.Equal(p.Bytes(), k) || !bytes.Equal(p.KeyBytes(), k[1:]) {
					return fmt.Sprintf("public key %x: %v", k, err)
				}
				i, err := identity.NewKey(append([]byte(nil), k...))
				if err != nil || !bytes.Equal(i.Bytes(), k) || !bytes.Equal(i.PublicKey().Bytes(), k) {
					return fmt.Sprintf("identity key %x: %v", k, err)
				}
				return ""
			}})
		}
	}
	for l := 0; l < 40; l++ {
		l := l
		cs = append(cs, kase{fmt.Sprint("plaintext message ", l), func() string {
			b := append([]byte{0xC0}, core.Bytes(l, r.Seed, "plain")...)
			p, err := message.NewPlaintextFromBytes(append([]byte(nil), b...))
			if err != nil || p.Type() != message.PlaintextType || !bytes.Equal(p.Bytes(), b) || !bytes.Equal(p.Message(), b[1:]) {
				return fmt.Sprintf("plaintext message: %v", err)
			}
			return ""
		}})
	}
	for _, d := range edges32 {
		d := d
		cs = append(cs, kase{fmt.Sprint("device ", d), func() string {
			for _, n := range []string{"", "a", "+14151111111", "a.b", "é"} {
				if s := (address.Address{Name: n, DeviceID: address.DeviceID(d)}).String(); s != fmt.Sprintf("%s.%d", n, d) {
					return "address text " + s
				}
				if s := prekey.ID(d).String(); s != fmt.Sprint(d) {
					return "identifier text " + s
				}
			}
			return ""
		}})
	}
	enumerate(r, "identifiers and keys", cs)
	otherFormats(r)
}

// otherFormats offers encodings with another version or format, or whose keys and
// identifiers cannot be ones, to every decoder.
func otherFormats(r *core.Run) {
	key := func(l string) []byte { return ref.Enc(world.NewKeyPair(r.Seed, l).PublicKey().KeyBytes()) }
	k, b, id := key("format ratchet"), key("format base"), key("format identity")
	sk := world.NewKeyPair(r.Seed, "format signing")
	ct := core.Bytes(32, r.Seed, "format ct")
	mk := core.Bytes(32, r.Seed, "format mac")
	dist := []byte(distA.String())
	signal := func(first byte, k []byte) []byte { return ref.EncodeSignal(first, k, 3, 2, ct, mk, b, id) }
	pre := func(first byte, b, id, in []byte) []byte {
		return ref.EncodePreKey(ref.PreKeyFields{Version: first, Reg: 7, Signed: 22, Base: b, Identity: id, Message: in})
	}
	group := func(first byte, d []byte) []byte {
		return ref.EncodeSenderKey(first, d, 9, 3, ct, sk.PrivateKey().Bytes(), core.Bytes(64, r.Seed, "format z"))
	}
	skdm := func(first byte, d, ck, k []byte) []byte {
		return ref.EncodeSKDM(ref.SKDM{Version: first, Dist: d, ChainID: 9, N: 3, ChainKey: ck, SigPub: k})
	}
	decoders := []struct {
		name string
		f    func(b []byte) (version int, err error)
	}{
		{"ordinary message", func(b []byte) (int, error) {
			m, err := message.NewSignalFromBytes(b)
			if err != nil {
				return 0, err
			}
			return int(m.(*message.Signal).Version()), nil
		}},
		{"set-up message", func(b []byte) (int, error) {
			m, err := message.NewPreKeyFromBytes(b)
			if err != nil {
				return 0, err
			}
			return int(m.(*message.PreKey).Version()), nil
		}},
		{"group message", func(b []byte) (int, error) {
			m, err := message.NewSenderKeyFromBytes(b)
			if err != nil {
				return 0, err
			}
			return int(m.Version()), nil
		}},
		{"distribution", func(b []byte) (int, error) {
			m, err := message.NewSenderKeyDistributionFromBytes(b)
			if err != nil {
				return 0, err
			}
			return int(m.Version()), nil
		}},
		{"plaintext message", func(b []byte) (int, error) { _, err := message.NewPlaintextFromBytes(b); return 3, err }},
	}
	var cs []kase
	add := func(what string, d int, wire []byte, ok bool) {
		cs = append(cs, kase{decoders[d].name + ", " + what, func() string {
			v, err := decoders[d].f(append([]byte(nil), wire...))
			if ok && (err != nil || v != 3) {
				return fmt.Sprintf("refused or of version %d: %v", v, err)
			}
			if !ok && err == nil {
				return "accepted"
			}
			return ""
		}})
	}
	ck := core.Bytes(32, r.Seed, "format chain key")
	pub := sk.PublicKey().Bytes()
	for v := 0; v < 256; v++ {
		first := byte(v)
		what := fmt.Sprintf("first byte %#x", first)
		if v>>4 != 3 || v == 0x33 {
			ok := v == 0x33
			add(what, 0, signal(first, k), ok)
			add(what, 1, pre(first, b, id, signal(0x33, k)), ok)
			add(what+" inside", 1, pre(0x33, b, id, signal(first, k)), ok)
			add(what, 2, group(first, dist), ok)
			add(what, 3, skdm(first, dist, ck, pub), ok)
		}
		add(what, 4, append([]byte{first}, ct...), v == 0xC0)
		if v != 5 {
			bad := func(k []byte) []byte { return append([]byte{first}, k[1:]...) }
			what := fmt.Sprint("key of type ", v)
			add("ratchet "+what, 0, signal(0x33, bad(k)), false)
			add("base "+what, 1, pre(0x33, bad(b), id, signal(0x33, k)), false)
			add("identity "+what, 1, pre(0x33, b, bad(id), signal(0x33, k)), false)
			add("signing "+what, 3, skdm(0x33, dist, ck, bad(pub)), false)
		}
	}
	for l := 0; l < 33; l++ {
		what := fmt.Sprintf("key of %d bytes", l)
		add("ratchet "+what, 0, signal(0x33, k[:l]), false)
		add("base "+what, 1, pre(0x33, b[:l], id, signal(0x33, k)), false)
		add("identity "+what, 1, pre(0x33, b, id[:l], signal(0x33, k)), false)
		add("signing "+what, 3, skdm(0x33, dist, ck, pub[:l]), false)
	}
	for l := 0; l <= 70; l++ {
		add(fmt.Sprintf("chain key of %d bytes", l), 3, skdm(0x33, dist, core.Bytes(l, r.Seed, "format ck"), pub), l == 32)
	}
	for l := 0; l < 36; l++ {
		add(fmt.Sprintf("identifier cut to %d bytes", l), 2, group(0x33, dist[:l]), false)
		add(fmt.Sprintf("identifier cut to %d bytes", l), 3, skdm(0x33, dist[:l], ck, pub), false)
		x := append([]byte(nil), dist...)
		x[l] = 'z'
		add(fmt.Sprintf("identifier with a wrong character %d", l), 2, group(0x33, x), false)
		add(fmt.Sprintf("identifier with a wrong character %d", l), 3, skdm(0x33, x, ck, pub), false)
	}
	in := signal(0x33, k)
	for l := 0; l <= 8; l++ {
		add(fmt.Sprintf("inner message cut to %d bytes", l), 1, pre(0x33, b, id, in[:l]), false)
	}
	enumerate(r, "other formats", cs)
}

func deref(p *uint32) any {
	if p == nil {
		return "none"
	}
	return *p
}
