package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"fmt"
	"runtime"
	"time"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/crypto/aes"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C14", "model_checking", c14) }

// patience is how long one operation on hostile input may take; the slowest
// legitimate ones take a fraction of a second.
const patience = 60 * time.Second

// within runs f and reports a panic or a call that does not return.
func within(f func()) string {
	done := make(chan string, 1)
	go func() {
		done <- core.Guard(func() string { f(); return "" })
	}()
	select {
	case s := <-done:
		return s
	default:
	}
	t := time.NewTimer(patience)
	defer t.Stop()
	select {
	case s := <-done:
		return s
	case <-t.C:
		return fmt.Sprintf("did not return within %v", patience)
	}
}

// decoder is one way in which bytes enter the library, with everything that can be
// asked of what was decoded.
type decoder struct {
	name string
	f    func(b []byte)
}

func decoders(seed int64) []decoder {
	id := identKey(ref.Enc(ref.Pub(core.Bytes(32, seed, "c14 identity"))))
	kp := world.NewKeyPair(seed, "c14")
	fp, _ := fingerprint.NewScannable(1, core.Bytes(32, seed, "l"), core.Bytes(32, seed, "r"))
	mac := core.Bytes(32, seed, "mac")
	pub := func(k curve.PublicKey) {
		k.Bytes()
		k.KeyBytes()
		k.Equal(kp.PublicKey())
		kp.PublicKey().Equal(k)
		k.VerifySignature(make([]byte, 64), []byte("m"))
		kp.PrivateKey().Agreement(k)
	}
	signal := func(s *message.Signal) {
		s.Bytes()
		s.Message()
		s.Version()
		s.Counter()
		_ = s.Type().String()
		pub(s.SenderRatchetKey())
		s.VerifyMAC(mac, id, id)
		s.VerifyMAC(nil, id, id)
	}
	return []decoder{
		{"signal message", func(b []byte) {
			if m, err := message.NewSignalFromBytes(b); err == nil {
				signal(m.(*message.Signal))
			}
		}},
		{"pre-key message", func(b []byte) {
			if m, err := message.NewPreKeyFromBytes(b); err == nil {
				p := m.(*message.PreKey)
				p.Bytes()
				p.Version()
				p.RegistrationID()
				if x := p.PreKeyID(); x != nil {
					_ = x.String()
				}
				_ = p.SignedPreKeyID().String()
				_ = p.Type().String()
				pub(p.BaseKey())
				pub(p.IdentityKey().PublicKey())
				p.IdentityKey().VerifyAlternateIdentity(make([]byte, 64), id)
				signal(p.Message())
			}
		}},
		{"sender key message", func(b []byte) {
			if m, err := message.NewSenderKeyFromBytes(b); err == nil {
				m.Bytes()
				m.Version()
				_ = m.DistributionID().String()
				m.ChainID()
				m.Iteration()
				m.Message()
				_ = m.Type().String()
				m.VerifySignature(kp.PublicKey())
			}
		}},
		{"distribution message", func(b []byte) {
			if m, err := message.NewSenderKeyDistributionFromBytes(b); err == nil {
				m.Bytes()
				m.Version()
				_ = m.DistributionID().String()
				m.ChainID()
				m.Iteration()
				m.ChainKey()
				pub(m.SigningKey())
			}
		}},
		{"plaintext message", func(b []byte) {
			if m, err := message.NewPlaintextFromBytes(b); err == nil {
				m.Bytes()
				m.Message()
				_ = m.Type().String()
			}
		}},
		{"public key", func(b []byte) {
			if k, err := curve.NewPublicKey(b); err == nil {
				pub(k)
			}
			if k, err := identity.NewKey(b); err == nil {
				k.Equal(id)
				k.Bytes()
			}
		}},
		{"private key", func(b []byte) {
			if k, err := curve.NewPrivateKey(b); err == nil {
				k.Bytes()
				pub(k.PublicKey())
				k.Agreement(kp.PublicKey())
				k.Sign(core.NewPRF(seed, "sign"), b)
			}
			if k, err := curve.NewKeyPair(b, b); err == nil {
				k.Agreement(kp.PublicKey())
			}
		}},
		{"signature", func(b []byte) {
			kp.PublicKey().VerifySignature(b, b)
			id.VerifyAlternateIdentity(b, id)
		}},
		{"identifier", func(b []byte) {
			if d, err := distribution.ParseBytes(b); err == nil {
				_ = d.String()
			}
			if d, err := distribution.Parse(string(b)); err == nil {
				_ = d.String()
			}
		}},
		{"fingerprint", func(b []byte) {
			if fp != nil {
				fp.Compare(b)
			}
			if d, err := fingerprint.NewDisplayable(b, b); err == nil {
				_ = d.String()
			}
			if s, err := fingerprint.NewScannable(7, b, b); err == nil {
				if c, err := s.Bytes(); err == nil {
					s.Compare(c)
				}
			}
		}},
		{"content", func(b []byte) {
			aes.CBCDecrypt(mac, mac[:16], b)
			aes.CBCDecrypt(b, mac[:16], mac)
			aes.CBCDecrypt(mac, b, mac)
			aes.CBCEncrypt(b, b, b)
		}},
		{"stored session", func(b []byte) {
			if r, err := session.NewRecordBytes(b); err == nil {
				recordAccess(r, kp.PublicKey())
			}
		}},
	}
}

// recordAccess asks everything of a session record.
func recordAccess(r *session.Record, k curve.PublicKey) {
	r.Version()
	r.LocalIdentityKey()
	r.RemoteIdentityKey()
	r.ReceiverChainKey(k)
	if c, err := r.SenderChainKey(); err == nil {
		c.Next()
		c.MessageKeys()
	}
	r.PreviousStates()
	r.HasSessionState(3, k.Bytes())
	s := r.State()
	if s == nil {
		return
	}
	s.Bytes()
	s.Clone()
	s.AliceBaseKey()
	s.PreviousCounter()
	s.RootKey()
	s.SenderRatchetKey()
	s.SenderRatchetPrivateKey()
	s.SessionWithSelf()
	s.ReceiverChain(k)
	s.ReceiverChainKey(k)
	s.LocalRegistrationID()
	if u, err := s.UnacknowledgedPreKeyMessages(); err == nil && u != nil {
		u.PreKeyID()
		u.BaseKey()
	}
	c := s.Clone()
	c.MessageKeys(k, 0)
	c.ClearUnacknowledgedPreKeyMessage()
	r.ArchiveCurrentState()
	r.PreviousStates()
}

// mutant is an altered byte string.
type mutant struct {
	name string
	b    []byte
}

type rawField struct {
	tag  uint64
	n    uint64
	b    []byte
	kind int
}

func splitPB(b []byte) ([]rawField, bool) {
	fs, err := parseLoose(b)
	if err != nil {
		return nil, false
	}
	var out []rawField
	for _, f := range fs {
		if f.Kind != 0 && f.Kind != 2 {
			return nil, false
		}
		out = append(out, rawField{tag: uint64(f.N)<<3 | uint64(f.Kind), n: f.Int, b: f.Buf, kind: f.Kind})
	}
	return out, len(out) > 0
}

func (f rawField) enc() []byte {
	var p []byte
	put := func(n uint64) {
		for n >= 0x80 {
			p = append(p, byte(n)|0x80)
			n >>= 7
		}
		p = append(p, byte(n))
	}
	put(f.tag)
	if f.kind == 0 {
		put(f.n)
		return p
	}
	put(uint64(len(f.b)))
	return append(p, f.b...)
}

func joinPB(fs []rawField) []byte {
	var out []byte
	for _, f := range fs {
		out = append(out, f.enc()...)
	}
	return out
}

var edgeInts = []uint64{0, 1, 2, 3, 4, 127, 128, 25000, 25001, 26000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1<<64 - 1}

// fieldMutants returns the alterations of one field: replacements by zero or more
// fields.
func fieldMutants(f rawField, seed int64, depth int) []struct {
	name string
	fs   []rawField
} {
	var out []struct {
		name string
		fs   []rawField
	}
	add := func(name string, fs ...rawField) {
		out = append(out, struct {
			name string
			fs   []rawField
		}{fmt.Sprintf("field %d %s", f.tag>>3, name), fs})
	}
	add("absent")
	add("twice", f, f)
	if f.kind == 0 {
		for _, n := range edgeInts {
			if n != f.n {
				g := f
				g.n = n
				add(fmt.Sprint("= ", n), g)
			}
		}
		add("as bytes", rawField{tag: f.tag | 2, kind: 2, b: []byte{1}})
		return out
	}
	set := func(name string, b []byte) {
		g := f
		g.b = b
		add(name, g)
	}
	set("empty", nil)
	for _, n := range []int{1, 8, 15, 16, 17, 31, 32, 33, 34, 64} {
		if n != len(f.b) {
			set(fmt.Sprintf("of %d bytes", n), core.Bytes(n, seed, "c14", n))
		}
	}
	if n := len(f.b); n > 0 {
		set("one byte shorter", f.b[:n-1])
		set("zeros", make([]byte, n))
		set("ones", bytes.Repeat([]byte{0xff}, n))
		for _, v := range []byte{0, 4, 6, 0xff} {
			x := append([]byte(nil), f.b...)
			x[0] = v
			set(fmt.Sprint("first byte ", v), x)
		}
	}
	set("one byte longer", append(append([]byte(nil), f.b...), 0))
	set("of 100000 bytes", make([]byte, 100000))
	if len(f.b) == 33 && f.b[0] == 5 {
		for i, l := range lowOrder {
			if i%2 == 0 {
				set(fmt.Sprint("low order ", i/2), ref.Enc(l))
			}
		}
	}
	g := f
	g.tag, g.kind, g.n = f.tag&^7, 0, 1
	add("as integer", g)
	if depth > 0 {
		if _, ok := splitPB(f.b); ok && len(f.b) != 33 && len(f.b) != 32 {
			for _, m := range pbMutants(f.b, seed, depth-1) {
				set(m.name, m.b)
			}
		}
	}
	return out
}

// pbMutants returns all single structural alterations of an encoded message.
func pbMutants(b []byte, seed int64, depth int) []mutant {
	fs, ok := splitPB(b)
	if !ok {
		return nil
	}
	var out []mutant
	for i, f := range fs {
		for _, m := range fieldMutants(f, seed, depth) {
			x := append([]rawField(nil), fs[:i]...)
			x = append(x, m.fs...)
			x = append(x, fs[i+1:]...)
			out = append(out, mutant{m.name, joinPB(x)})
		}
		if i > 0 {
			x := append([]rawField(nil), fs...)
			x[i-1], x[i] = x[i], x[i-1]
			out = append(out, mutant{fmt.Sprintf("fields %d and %d swapped", i-1, i), joinPB(x)})
		}
	}
	for _, n := range []uint64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		var l []byte
		for v := n; ; v >>= 7 {
			if v < 0x80 {
				l = append(l, byte(v))
				break
			}
			l = append(l, byte(v)|0x80)
		}
		out = append(out, mutant{fmt.Sprintf("claims %d bytes", n), append(append(append([]byte(nil), b...), 4<<3|2), l...)})
	}
	out = append(out,
		mutant{"unknown field", append(append([]byte(nil), b...), 0xf8, 0x07, 1)},
		mutant{"open group", append(append([]byte(nil), b...), 0xf3, 0x07)},
		mutant{"overlong integer", append(append([]byte(nil), b...), 2<<3, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1)},
		mutant{"nothing", nil})
	return out
}

// pbPairs returns all alterations of two different fields.
func pbPairs(b []byte, seed int64, keep func(i, j int) bool) []mutant {
	fs, ok := splitPB(b)
	if !ok {
		return nil
	}
	var out []mutant
	for i, f := range fs {
		for j := i + 1; j < len(fs); j++ {
			k := 0
			for _, m := range fieldMutants(f, seed, 0) {
				for _, n := range fieldMutants(fs[j], seed, 0) {
					if k++; !keep(k, len(m.fs)+len(n.fs)) {
						continue
					}
					x := append([]rawField(nil), fs[:i]...)
					x = append(x, m.fs...)
					x = append(x, fs[i+1:j]...)
					x = append(x, n.fs...)
					x = append(x, fs[j+1:]...)
					out = append(out, mutant{m.name + ", " + n.name, joinPB(x)})
				}
			}
		}
	}
	return out
}

// byteMutants returns all truncations and single-byte alterations.
func byteMutants(b []byte, values []int) []mutant {
	var out []mutant
	for i := range b {
		out = append(out, mutant{fmt.Sprintf("cut to %d bytes", i), b[:i:i]})
		for _, v := range values {
			if int(b[i]) == v {
				continue
			}
			x := append([]byte(nil), b...)
			x[i] = byte(v)
			out = append(out, mutant{fmt.Sprintf("byte %d = %d", i, v), x})
		}
		if i > 0 {
			out = append(out, mutant{fmt.Sprintf("without the first %d bytes", i), b[i:]})
		}
	}
	for n := 1; n <= 70; n++ {
		out = append(out, mutant{fmt.Sprintf("extended by %d bytes", n), append(append([]byte(nil), b...), make([]byte, n)...)})
	}
	return out
}

func c14(r *core.Run) {
	r.Assume("A session with oneself is exempt from the limit of messages ahead, by design; its messages with a forged counter are not offered.")
	ds := decoders(r.Seed)

	// 1. Every short byte string.
	var cases []kase
	for _, d := range ds {
		for hi := 0; hi < 256; hi++ {
			d, hi := d, byte(hi)
			cases = append(cases, kase{fmt.Sprintf("%s: every string of up to 3 bytes starting %#x (third byte from a list)", d.name, hi), func() string {
				var cur []byte
				if s := within(func() {
					if hi == 0 {
						d.f(nil)
						d.f([]byte{})
					}
					cur = []byte{hi}
					d.f(cur)
					for lo := 0; lo < 256; lo++ {
						cur = []byte{hi, byte(lo)}
						d.f(cur)
						if hi&0x0f == 3 || r.Thorough() {
							for _, x := range []byte{0, 1, 5, 0x0a, 0x7f, 0x80, 0xff} {
								cur = []byte{hi, byte(lo), x}
								d.f(cur)
							}
						}
					}
				}); s != "" {
					return fmt.Sprintf("%s %x: %s", d.name, cur, s)
				}
				return ""
			}})
		}
		for n := 0; n <= 300; n++ {
			d, n := d, n
			cases = append(cases, kase{fmt.Sprintf("%s: %d equal bytes", d.name, n), func() string {
				for _, v := range []byte{0, 0x05, 0x0a, 0x12, 0x33, 0x7f, 0x80, 0xc0, 0xff, '0', '-'} {
					for _, first := range []byte{v, 0x33, 0x05} {
						b := bytes.Repeat([]byte{v}, n)
						if n > 0 {
							b[0] = first
						}
						if s := within(func() { d.f(b) }); s != "" {
							return fmt.Sprintf("%s %x: %s", d.name, clip(b), s)
						}
					}
				}
				return ""
			}})
		}
	}
	enumerate(r, "short byte strings", cases)

	// 2. Samples of everything, altered, through their decoders and then through every
	// operation that takes them.
	s := newSamples(r)
	if s == nil {
		return
	}
	vals := make([]int, 0, 256)
	for v := 0; v < 256; v++ {
		vals = append(vals, v)
	}
	var all, deep []kase
	var serial []func() string
	for _, x := range s.list {
		ms := byteMutants(x.b, vals)
		for i, m := range ms {
			x, m := x, m
			ops := i%core.Pick(r, 5, 1) == 0
			all = append(all, kase{x.name + ", " + m.name, func() string { return s.offer(ds, x, m, ops) }})
		}
		body, wrap := x.body(x.b)
		if body == nil {
			continue
		}
		ms = pbMutants(body, r.Seed, 2)
		np := core.Pick(r, 7, 1)
		ms = append(ms, pbPairs(body, r.Seed, func(i, _ int) bool { return i%np == 0 })...)
		for _, m := range ms {
			x, m := x, mutant{m.name, wrap(m.b)}
			deep = append(deep, kase{x.name + ", " + m.name, func() string { return s.offer(ds, x, m, true) }})
			serial = append(serial, func() string { return s.memory(ds, x, m) })
		}
	}
	r.Bound("short strings", "all of 0 to 2 bytes, 3 bytes with selected ends, 0 to 300 equal bytes, for 12 decoders")
	enumerate(r, "truncated and altered samples", all)
	enumerate(r, "structurally altered samples", deep)
	if r.Stopped() {
		return
	}
	// 3. Memory, one at a time.
	for _, f := range serial {
		if r.Stopped() {
			return
		}
		f := f
		r.Case("memory", func() any { return "memory" }, f)
	}
	r.Traces.Add(int64(len(serial)))
	c14records(r, s)
}

// sample is a genuine byte string of one kind.
type sample struct {
	name string
	kind string // signal, prekey, senderkey, distribution, code, key, id
	b    []byte
	// fix makes an altered body authentic again.
	fix func(body []byte) []byte
}

// body returns the protocol buffer of a sample and how to wrap an altered one.
func (x sample) body(b []byte) ([]byte, func([]byte) []byte) {
	switch x.kind {
	case "signal":
		return b[1 : len(b)-8], func(p []byte) []byte {
			return x.fix(append([]byte{b[0]}, p...))
		}
	case "senderkey":
		return b[1 : len(b)-64], func(p []byte) []byte {
			return x.fix(append([]byte{b[0]}, p...))
		}
	case "prekey", "distribution":
		return b[1:], func(p []byte) []byte { return append([]byte{b[0]}, p...) }
	case "code":
		return b, func(p []byte) []byte { return p }
	}
	return nil, nil
}

// samples holds genuine traffic and devices in different situations.
type samples struct {
	list  []sample
	devs  []*world.Party // receivers of pairwise messages from them
	names []string
	gdevs []*world.Party
	them  address.Address
	gthem address.Address
	// For stored records.
	record [][]byte
	recDev []*world.Party
	wires  []lmsg // pairwise messages to offer to a device with an altered record
	bundle func() *prekey.Bundle
}

func newSamples(r *core.Run) (s *samples) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(skipCheck); ok {
				r.Count("setup_failed", 1)
				r.Sample(fmt.Sprint("set-up failed: ", x.err))
				s = nil
				return
			}
			panic(e)
		}
	}()
	ok := func(err error) {
		if err != nil {
			panic(skipCheck{err})
		}
	}
	s = &samples{}
	l := newLimited(r.Seed, false)
	s.them = l.them
	l.P.AddPre(100)
	fresh := l.P.Clone()
	s.dev("without a session", fresh)
	add := func(name, kind string, b []byte, fix func([]byte) []byte) {
		s.list = append(s.list, sample{name, kind, b, fix})
	}
	// MAC an altered body with the keys it would genuinely have.
	mac := func(sess *ref.Sess, c ref.Chain) func([]byte) []byte {
		k := c.MsgKeys()
		return func(body []byte) []byte {
			h := hmac.New(sha256.New, k.Mac)
			h.Write(ref.Enc(l.ID.Pub))
			h.Write(l.P.KP.IdentityKey().Bytes())
			h.Write(body)
			return append(append([]byte(nil), body...), h.Sum(nil)[:8]...)
		}
	}
	l.initiate()
	pre := l.send(0)
	add("pre-key message", "prekey", pre.wire, nil)
	ot := ref.PreKeyFields{}
	if f, err := ref.ParsePreKey(pre.wire); err == nil {
		ot = *f
		ot.Pre = u32(100)
		add("pre-key message with a one-time pre-key", "prekey", ref.EncodePreKey(ot), nil)
	}
	ok(l.read(pre))
	s.dev("set up by the peer", l.P.Clone())
	s.wires = append(s.wires, pre)
	pre2 := l.send(2)
	s.wires = append(s.wires, pre2)
	ok(l.reply())
	c := l.S.Send
	m := l.send(0)
	add("message of a new chain", "signal", m.wire, mac(l.S, c))
	s.rec(l.P)
	s.wires = append(s.wires, m)
	ok(l.read(m))
	ok(l.read(l.send(3)))
	c = l.S.Send
	m = l.send(0)
	add("message of a known chain", "signal", m.wire, mac(l.S, c))
	s.wires = append(s.wires, m)
	s.dev("with a conversation", l.P.Clone())
	s.rec(l.P)
	x := l.P.Clone()
	ok(x.Archive(l.them))
	s.dev("with an archived session", x)
	b := newLimited(r.Seed, false)
	ok(b.accept())
	s.dev("set up by the device", b.P.Clone())
	s.rec(b.P)
	m = b.send(0)
	s.wires = append(s.wires, m)
	add("first reply", "signal", m.wire, func(body []byte) []byte { return append(append([]byte(nil), body...), m.wire[len(m.wire)-8:]...) })
	signed := l.key("signed")
	sig := ref.SignFast(l.ID.Priv, core.Bytes(64, r.Seed, "z"), ref.Enc(ref.Pub(signed)))
	s.bundle = func() *prekey.Bundle {
		return &prekey.Bundle{RegistrationID: 77, DeviceID: 1, SignedPreKeyID: 5, SignedPreKeyPublic: pubKey(ref.Enc(ref.Pub(signed))), SignedPreKeySignature: sig, IdentityKey: identKey(ref.Enc(l.ID.Pub))}
	}

	// Groups.
	g := newGLimited(r.Seed)
	gs := g.sender(0, 3)
	s.gdevs = append(s.gdevs, g.P.Clone())
	add("distribution", "distribution", gs.Distribution(), nil)
	ok(g.P.GroupProcess(g.them, gs.Distribution()))
	s.gdevs = append(s.gdevs, g.P.Clone())
	ok(g.read(gat(gs, gs.Chain, 6)))
	s.gdevs = append(s.gdevs, g.P.Clone())
	resign := func(body []byte) []byte {
		return append(append([]byte(nil), body...), ref.SignFast(gs.SigPriv, make([]byte, 64), body)...)
	}
	add("group message", "senderkey", gat(gs, gs.Chain, 7).wire, resign)
	add("late group message", "senderkey", gat(gs, gs.Chain, 4).wire, resign)
	s.gthem = g.them
	add("code", "code", fpCode(1, core.Bytes(32, r.Seed, "r"), core.Bytes(32, r.Seed, "l")), nil)
	add("public key", "key", ref.Enc(l.ID.Pub), nil)
	add("private key", "key", l.ID.Priv, nil)
	add("signature", "key", sig, nil)
	for _, t := range []string{"d1d1d1d1-7000-11eb-b32a-33b8a8a487a6", "{d1d1d1d1-7000-11eb-b32a-33b8a8a487a6}", "urn:uuid:d1d1d1d1-7000-11eb-b32a-33b8a8a487a6", "d1d1d1d1700011ebb32a33b8a8a487a6"} {
		add("identifier", "id", []byte(t), nil)
	}
	add("stored session", "record", s.record[0], nil)
	return s
}

func (s *samples) dev(name string, p *world.Party) {
	s.devs = append(s.devs, p)
	s.names = append(s.names, name)
}

func (s *samples) rec(p *world.Party) {
	r, ok := p.RawRecord(s.them)
	if !ok || r.State() == nil {
		panic(skipCheck{fmt.Errorf("no session")})
	}
	s.record = append(s.record, r.State().Bytes())
	s.recDev = append(s.recDev, p.Clone())
}

// offer gives altered bytes to all decoders and, with ops, to the operations.
func (s *samples) offer(ds []decoder, x sample, m mutant, ops bool) string {
	for _, d := range ds {
		if res := within(func() { d.f(m.b) }); res != "" {
			return fmt.Sprintf("%s, %s, read as %s: %s", x.name, m.name, d.name, res)
		}
	}
	if !ops {
		return ""
	}
	if x.kind == "signal" || x.kind == "prekey" {
		for i, p := range s.devs {
			for _, typ := range []message.CiphertextType{message.PreKeyType, message.WhisperType} {
				p := p.Clone()
				var err error
				if res := within(func() { _, err = p.Decrypt(s.them, typ, m.b) }); res != "" {
					return fmt.Sprintf("%s, %s, decrypted by a device %s: %s", x.name, m.name, s.names[i], res)
				}
				if world.IsPanic(err) {
					return fmt.Sprintf("%s, %s, decrypted by a device %s: %v", x.name, m.name, s.names[i], err)
				}
			}
		}
	}
	if x.kind == "senderkey" || x.kind == "distribution" {
		for i, p := range s.gdevs {
			p := p.Clone()
			var err error
			if res := within(func() {
				if x.kind == "distribution" {
					err = p.GroupProcess(s.gthem, m.b)
					if err == nil {
						// Use what was accepted.
						for _, y := range s.list {
							if y.kind == "senderkey" {
								if _, e := p.GroupDecrypt(s.gthem, y.b); world.IsPanic(e) {
									err = e
								}
							}
						}
					}
				} else {
					_, err = p.GroupDecrypt(s.gthem, m.b)
				}
			}); res != "" {
				return fmt.Sprintf("%s, %s, group device %d: %s", x.name, m.name, i, res)
			}
			if world.IsPanic(err) {
				return fmt.Sprintf("%s, %s, group device %d: %v", x.name, m.name, i, err)
			}
		}
	}
	return ""
}

// memory measures what decoding and using altered bytes allocates.
func (s *samples) memory(ds []decoder, x sample, m mutant) string {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	for _, d := range ds {
		if res := within(func() { d.f(m.b) }); res != "" {
			return fmt.Sprintf("%s, %s, read as %s: %s", x.name, m.name, d.name, res)
		}
	}
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 64<<20 {
		return fmt.Sprintf("%s, %s (%d bytes): decoding allocates %d bytes", x.name, m.name, len(m.b), n)
	}
	return ""
}

// c14records restores altered stored sessions and runs all pairs of operations.
func c14records(r *core.Run, s *samples) {
	type op struct {
		name string
		f    func(p *world.Party) error
	}
	ops := []op{
		{"encrypt", func(p *world.Party) error { _, _, err := p.Encrypt(s.them, []byte("x")); return err }},
		{"archive", func(p *world.Party) error { return p.Archive(s.them) }},
		{"restart", func(p *world.Party) error { return p.Restart(s.them) }},
		{"bundle", func(p *world.Party) error { return p.ProcessBundle(s.them, s.bundle()) }},
		{"access", func(p *world.Party) error {
			return world.Protect(func() error {
				rec, ok, err := p.Sess().Load(world.Ctx, s.them)
				if err != nil || !ok {
					return err
				}
				recordAccess(rec, p.KP.PublicKey())
				return nil
			})
		}},
	}
	for i, m := range s.wires {
		m := m
		ops = append(ops, op{fmt.Sprint("decrypt message ", i), func(p *world.Party) error { _, err := p.Decrypt(s.them, m.typ, m.wire); return err }})
	}
	var cases []kase
	for i, b := range s.record {
		i := i
		ms := pbMutants(b, r.Seed, 3)
		np := core.Pick(r, 23, 1)
		ms = append(ms, pbPairs(b, r.Seed, func(k, _ int) bool { return k%np == 0 })...)
		vals := []int{0, 1, 0x7f, 0x80, 0xff}
		for k, m := range byteMutants(b, vals) {
			if k%core.Pick(r, 4, 1) == 0 {
				ms = append(ms, m)
			}
		}
		for _, m := range ms {
			m := m
			cases = append(cases, kase{fmt.Sprintf("stored session %d, %s", i, m.name), func() string {
				rec, err := session.NewRecordBytes(append([]byte(nil), m.b...))
				if err != nil {
					return ""
				}
				base := s.recDev[i].Clone()
				if err := base.Sess().Store(world.Ctx, s.them, rec); err != nil {
					return ""
				}
				base.Touched()
				for _, o1 := range ops {
					p := base.Clone()
					var err error
					if res := within(func() { err = o1.f(p) }); res != "" {
						return fmt.Sprintf("stored session %d, %s: %s: %s", i, m.name, o1.name, res)
					}
					if world.IsPanic(err) {
						return fmt.Sprintf("stored session %d, %s: %s: %v", i, m.name, o1.name, err)
					}
					if err != nil {
						continue // nothing changed: the second operation is tried as a first
					}
					for _, o2 := range ops {
						q := p.Clone()
						if res := within(func() { err = o2.f(q) }); res != "" {
							return fmt.Sprintf("stored session %d, %s: %s, %s: %s", i, m.name, o1.name, o2.name, res)
						}
						if world.IsPanic(err) {
							return fmt.Sprintf("stored session %d, %s: %s, %s: %v", i, m.name, o1.name, o2.name, err)
						}
					}
				}
				return ""
			}})
		}
	}
	enumerate(r, "stored sessions", cases)
}
