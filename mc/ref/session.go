package ref

import (
	"bytes"
	"crypto/hmac"
	"errors"
	"fmt"
)

// MsgKeys are the keys of one message.
type MsgKeys struct {
	Seed, Cipher, Mac, IV []byte
	N                     uint32
}

// Chain is a symmetric chain.
type Chain struct {
	Key []byte
	N   uint32
}

// MsgKeys returns the keys of the chain's next message.
func (c Chain) MsgKeys() MsgKeys {
	seed := HMAC(c.Key, []byte{1})
	k := HKDF(seed, nil, "WhisperMessageKeys", 80)
	return MsgKeys{seed, k[:32], k[32:64], k[64:80], c.N}
}

// Next advances the chain.
func (c Chain) Next() Chain { return Chain{HMAC(c.Key, []byte{2}), c.N + 1} }

func rootStep(root, priv, pub []byte) (newRoot []byte, chain Chain, err error) {
	s, ok := DH(priv, pub)
	if !ok {
		return nil, Chain{}, errors.New("low order")
	}
	k := HKDF(s, root, "WhisperRatchet", 64)
	return k[:32], Chain{k[32:], 0}, nil
}

// Identity of a reference device.
type Identity struct {
	Priv, Pub []byte
	Reg       uint32
}

// Pending is the session set-up data sent until acknowledged.
type Pending struct {
	Pre    *uint32
	Signed uint32
	Base   []byte
}

// Sess is one Double Ratchet session of the reference implementation; it keeps
// everything it ever skipped.
type Sess struct {
	Me, Them          []byte // typed identity keys
	Reg               uint32
	Root              []byte
	SendPriv, SendPub []byte
	Send              Chain
	Prev              uint32
	Recv              map[string]Chain
	Skipped           map[string]MsgKeys
	Pending           *Pending
	Base              []byte
	// History of all keys this side ever derived, by "ratchet key|n", when Track is set.
	Track bool
	Used  map[string]MsgKeys
	// Log lists the key derivations, newest first, while Logged is set.
	Logged bool
	Log    *Derivation
}

// Derivation is one step in which a root key and a chain came about.
type Derivation struct {
	Up     *Derivation
	Before []byte // root key used; nil for the session set-up
	Own    []byte // own public key of the agreement (typed)
	Their  []byte
	After  []byte // new root key
	Chain  []byte // first key of the chain
	Owner  []byte // ratchet key that names the chain in messages
	Pre    []byte // one-time pre-key (typed public) of a session set-up
}

func (s *Sess) note(d Derivation) {
	if s.Logged {
		d.Up = s.Log
		s.Log = &d
	}
}

// noteSetup starts the log of a session: chain and root are those of the set-up.
func (s *Sess) noteSetup(root []byte, chain Chain, base, owner, pre []byte) {
	s.Logged = true
	s.note(Derivation{Own: base, After: root, Chain: chain.Key, Owner: owner, Pre: pre})
}

func (s *Sess) Clone() *Sess {
	c := *s
	c.Recv = map[string]Chain{}
	for k, v := range s.Recv {
		c.Recv[k] = v
	}
	c.Skipped = map[string]MsgKeys{}
	for k, v := range s.Skipped {
		c.Skipped[k] = v
	}
	if s.Used != nil {
		c.Used = map[string]MsgKeys{}
		for k, v := range s.Used {
			c.Used[k] = v
		}
	}
	return &c
}

func x3dh(dhs ...[]byte) (root []byte, chain Chain) {
	in := bytes.Repeat([]byte{0xff}, 32)
	for _, d := range dhs {
		in = append(in, d...)
	}
	k := HKDF(in, nil, "WhisperText", 64)
	return k[:32], Chain{k[32:], 0}
}

// Bundle is what an initiator needs; keys untyped.
type Bundle struct {
	Identity, Signed []byte
	SignedID         uint32
	Pre              []byte
	PreID            *uint32
}

// Initiate creates the initiator's session.
func Initiate(me Identity, b Bundle, basePriv, ratchetPriv []byte) (*Sess, error) {
	d1, ok1 := DH(me.Priv, b.Signed)
	d2, ok2 := DH(basePriv, b.Identity)
	d3, ok3 := DH(basePriv, b.Signed)
	if !ok1 || !ok2 || !ok3 {
		return nil, errors.New("low order")
	}
	ds := [][]byte{d1, d2, d3}
	if b.Pre != nil {
		d4, ok := DH(basePriv, b.Pre)
		if !ok {
			return nil, errors.New("low order")
		}
		ds = append(ds, d4)
	}
	root0, first := x3dh(ds...)
	root, send, err := rootStep(root0, ratchetPriv, b.Signed)
	if err != nil {
		return nil, err
	}
	base := Enc(Pub(basePriv))
	s := &Sess{Me: Enc(me.Pub), Them: Enc(b.Identity), Reg: me.Reg, Root: root, SendPriv: ratchetPriv, SendPub: Enc(Pub(ratchetPriv)),
		Send: send, Recv: map[string]Chain{string(Enc(b.Signed)): first}, Skipped: map[string]MsgKeys{},
		Pending: &Pending{b.PreID, b.SignedID, base}, Base: base}
	s.noteSetup(root0, first, base, Enc(b.Signed), typed(b.Pre))
	s.note(Derivation{Before: root0, Own: s.SendPub, Their: Enc(b.Signed), After: root, Chain: send.Key, Owner: s.SendPub})
	return s, nil
}

// Quiet drops the log of key derivations.
func (s *Sess) Quiet() *Sess {
	s.Logged, s.Log = false, nil
	return s
}

func typed(pub []byte) []byte {
	if pub == nil {
		return nil
	}
	return Enc(pub)
}

// Respond creates the responder's session; preSK is nil if no one-time key was named.
func Respond(me Identity, signedSK, preSK, theirIdentity, theirBase []byte) (*Sess, error) {
	d1, ok1 := DH(signedSK, theirIdentity)
	d2, ok2 := DH(me.Priv, theirBase)
	d3, ok3 := DH(signedSK, theirBase)
	if !ok1 || !ok2 || !ok3 {
		return nil, errors.New("low order")
	}
	ds := [][]byte{d1, d2, d3}
	if preSK != nil {
		d4, ok := DH(preSK, theirBase)
		if !ok {
			return nil, errors.New("low order")
		}
		ds = append(ds, d4)
	}
	root, send := x3dh(ds...)
	s := &Sess{Me: Enc(me.Pub), Them: Enc(theirIdentity), Reg: me.Reg, Root: root, SendPriv: signedSK, SendPub: Enc(Pub(signedSK)),
		Send: send, Recv: map[string]Chain{}, Skipped: map[string]MsgKeys{}, Base: Enc(theirBase)}
	var pre []byte
	if preSK != nil {
		pre = Enc(Pub(preSK))
	}
	s.noteSetup(root, send, nil, s.SendPub, pre)
	return s, nil
}

// SignalFields are the fields of an ordinary message.
type SignalFields struct {
	Version byte // whole first byte
	Ratchet []byte
	N, Prev uint32
	Cipher  []byte
	Mac     []byte
	Body    []byte // everything before the MAC
}

// EncodeSignal encodes and authenticates.
func EncodeSignal(first byte, ratchet []byte, n, prev uint32, ct, macKey, from, to []byte) []byte {
	body := append([]byte{first}, PB(nil).Bytes(1, ratchet).Uint(2, uint64(n)).Uint(3, uint64(prev)).Bytes(4, ct)...)
	return append(body, HMAC(macKey, from, to, body)[:8]...)
}

// ParseSignal decodes an ordinary message strictly: all fields present, in order.
func ParseSignal(w []byte) (*SignalFields, error) {
	if len(w) < 9 {
		return nil, errors.New("short")
	}
	fs, err := ParsePB(w[1 : len(w)-8])
	if err != nil {
		return nil, err
	}
	r, ok1 := Get(fs, 1)
	n, ok2 := Get(fs, 2)
	p, ok3 := Get(fs, 3)
	c, ok4 := Get(fs, 4)
	if !ok1 || !ok2 || !ok3 || !ok4 || len(fs) != 4 {
		return nil, fmt.Errorf("fields %v", fs)
	}
	if len(r.Buf) != 33 || r.Buf[0] != 5 {
		return nil, errors.New("ratchet key encoding")
	}
	if n.Int>>32 != 0 || p.Int>>32 != 0 {
		return nil, errors.New("counter range")
	}
	return &SignalFields{w[0], r.Buf, uint32(n.Int), uint32(p.Int), c.Buf, w[len(w)-8:], w[:len(w)-8]}, nil
}

// PreKeyFields are the fields of a session set-up message.
type PreKeyFields struct {
	Version  byte
	Reg      uint32
	Pre      *uint32
	Signed   uint32
	Base     []byte
	Identity []byte
	Message  []byte
}

func EncodePreKey(f PreKeyFields) []byte {
	p := PB(nil)
	if f.Pre != nil {
		p = p.Uint(1, uint64(*f.Pre))
	}
	p = p.Bytes(2, f.Base).Bytes(3, f.Identity).Bytes(4, f.Message).Uint(5, uint64(f.Reg)).Uint(6, uint64(f.Signed))
	return append([]byte{f.Version}, p...)
}

func ParsePreKey(w []byte) (*PreKeyFields, error) {
	if len(w) < 1 {
		return nil, errors.New("short")
	}
	fs, err := ParsePB(w[1:])
	if err != nil {
		return nil, err
	}
	b, ok1 := Get(fs, 2)
	i, ok2 := Get(fs, 3)
	m, ok3 := Get(fs, 4)
	r, ok4 := Get(fs, 5)
	s, ok5 := Get(fs, 6)
	pre, has := Get(fs, 1)
	want := 5
	if has {
		want = 6
	}
	if !ok1 || !ok2 || !ok3 || !ok4 || !ok5 || len(fs) != want {
		return nil, fmt.Errorf("fields %d", len(fs))
	}
	f := &PreKeyFields{w[0], uint32(r.Int), nil, uint32(s.Int), b.Buf, i.Buf, m.Buf}
	if has {
		v := uint32(pre.Int)
		f.Pre = &v
	}
	return f, nil
}

func hk(ratchet []byte, n uint32) string { return fmt.Sprintf("%x|%d", ratchet, n) }

// Encrypt produces the next message.
func (s *Sess) Encrypt(pt []byte) (preKey bool, wire []byte) {
	k := s.Send.MsgKeys()
	if s.Used != nil {
		s.Used[hk(s.SendPub, s.Send.N)] = k
	}
	w := EncodeSignal(0x33, s.SendPub, s.Send.N, s.Prev, CBCEncrypt(k.Cipher, k.IV, pt), k.Mac, s.Me, s.Them)
	s.Send = s.Send.Next()
	if s.Pending == nil {
		return false, w
	}
	return true, EncodePreKey(PreKeyFields{0x33, s.Reg, s.Pending.Pre, s.Pending.Signed, s.Pending.Base, s.Me, w})
}

// Decrypt reads an ordinary message; newRatchet is the private key to use if the
// message starts a new incoming chain. The session changes only on success.
func (s *Sess) Decrypt(wire, newRatchet []byte) ([]byte, error) {
	f, err := ParseSignal(wire)
	if err != nil {
		return nil, err
	}
	if f.Version != 0x33 {
		return nil, fmt.Errorf("version %x", f.Version)
	}
	t := s.Clone()
	id := hk(f.Ratchet, f.N)
	chain, known := t.Recv[string(f.Ratchet)]
	if !known {
		mid, rc, err := rootStep(t.Root, t.SendPriv, f.Ratchet[1:])
		if err != nil {
			return nil, err
		}
		root, sc, err := rootStep(mid, newRatchet, f.Ratchet[1:])
		if err != nil {
			return nil, err
		}
		if t.Logged {
			t.note(Derivation{Before: t.Root, Own: t.SendPub, Their: f.Ratchet, After: mid, Chain: rc.Key, Owner: f.Ratchet})
			t.note(Derivation{Before: mid, Own: Enc(Pub(newRatchet)), Their: f.Ratchet, After: root, Chain: sc.Key, Owner: Enc(Pub(newRatchet))})
		}
		t.Root, chain = root, rc
		if t.Send.N > 0 {
			t.Prev = t.Send.N - 1
		} else {
			t.Prev = 0
		}
		t.Send, t.SendPriv, t.SendPub = sc, newRatchet, Enc(Pub(newRatchet))
		t.Recv[string(f.Ratchet)] = rc
	}
	var k MsgKeys
	if f.N < chain.N {
		var ok bool
		if k, ok = t.Skipped[id]; !ok {
			return nil, errors.New("duplicate")
		}
		delete(t.Skipped, id)
	} else {
		if f.N-chain.N > 30000 {
			return nil, errors.New("too far")
		}
		for chain.N < f.N {
			t.Skipped[hk(f.Ratchet, chain.N)] = chain.MsgKeys()
			chain = chain.Next()
		}
		k = chain.MsgKeys()
		t.Recv[string(f.Ratchet)] = chain.Next()
	}
	if !hmac.Equal(f.Mac, HMAC(k.Mac, t.Them, t.Me, f.Body)[:8]) {
		return nil, errors.New("mac")
	}
	pt, err := CBCDecrypt(k.Cipher, k.IV, f.Cipher)
	if err != nil {
		return nil, err
	}
	if t.Used != nil {
		t.Used[id] = k
	}
	t.Pending = nil
	*s = *t
	return pt, nil
}

// ---- sender keys ----

// GroupKeys are the keys of one group message.
type GroupKeys struct{ Seed, IV, Cipher []byte }

func (c Chain) GroupKeys() GroupKeys {
	seed := HMAC(c.Key, []byte{1})
	k := HKDF(seed, nil, "WhisperGroup", 48)
	return GroupKeys{seed, k[:16], k[16:48]}
}

// GroupSender is the sending side of a sender-key session.
type GroupSender struct {
	Dist    string
	ChainID uint32
	Chain   Chain
	SigPriv []byte
	// Memo keeps signatures, for senders that say the same in many states.
	Memo bool
}

func (g *GroupSender) Distribution() []byte {
	return EncodeSKDM(SKDM{0x33, []byte(g.Dist), g.ChainID, g.Chain.N, g.Chain.Key, Enc(Pub(g.SigPriv))})
}

func (g *GroupSender) Encrypt(pt, z []byte) []byte {
	k := g.Chain.GroupKeys()
	sign := Sign
	if g.Memo {
		sign = SignFast
	}
	w := encodeSenderKey(0x33, []byte(g.Dist), g.ChainID, g.Chain.N, CBCEncrypt(k.Cipher, k.IV, pt), g.SigPriv, z, sign)
	g.Chain = g.Chain.Next()
	return w
}

// SKDM is a sender-key distribution.
type SKDM struct {
	Version  byte
	Dist     []byte
	ChainID  uint32
	N        uint32
	ChainKey []byte
	SigPub   []byte
}

func EncodeSKDM(m SKDM) []byte {
	return append([]byte{m.Version}, PB(nil).Bytes(1, m.Dist).Uint(2, uint64(m.ChainID)).Uint(3, uint64(m.N)).Bytes(4, m.ChainKey).Bytes(5, m.SigPub)...)
}

func ParseSKDM(w []byte) (*SKDM, error) {
	if len(w) == 0 {
		return nil, errors.New("short")
	}
	fs, err := ParsePB(w[1:])
	if err != nil {
		return nil, err
	}
	if len(fs) != 5 {
		return nil, fmt.Errorf("fields %d", len(fs))
	}
	d, ok1 := Get(fs, 1)
	c, ok2 := Get(fs, 2)
	n, ok3 := Get(fs, 3)
	k, ok4 := Get(fs, 4)
	s, ok5 := Get(fs, 5)
	if !ok1 || !ok2 || !ok3 || !ok4 || !ok5 || len(k.Buf) != 32 || len(s.Buf) != 33 {
		return nil, errors.New("fields")
	}
	return &SKDM{w[0], d.Buf, uint32(c.Int), uint32(n.Int), k.Buf, s.Buf}, nil
}

func EncodeSenderKey(first byte, dist []byte, chainID, n uint32, ct, sigPriv, z []byte) []byte {
	return encodeSenderKey(first, dist, chainID, n, ct, sigPriv, z, Sign)
}

func encodeSenderKey(first byte, dist []byte, chainID, n uint32, ct, sigPriv, z []byte, sign func(priv, z, msg []byte) []byte) []byte {
	body := append([]byte{first}, PB(nil).Bytes(1, dist).Uint(2, uint64(chainID)).Uint(3, uint64(n)).Bytes(4, ct)...)
	return append(body, sign(sigPriv, z, body)...)
}

// SenderKeyFields are the fields of a group message.
type SenderKeyFields struct {
	Version byte
	Dist    []byte
	ChainID uint32
	N       uint32
	Cipher  []byte
	Body    []byte
	Sig     []byte
}

func ParseSenderKey(w []byte) (*SenderKeyFields, error) {
	if len(w) < 65 {
		return nil, errors.New("short")
	}
	body := w[:len(w)-64]
	fs, err := ParsePB(body[1:])
	if err != nil {
		return nil, err
	}
	if len(fs) != 4 {
		return nil, fmt.Errorf("fields %d", len(fs))
	}
	d, ok1 := Get(fs, 1)
	c, ok2 := Get(fs, 2)
	n, ok3 := Get(fs, 3)
	x, ok4 := Get(fs, 4)
	if !ok1 || !ok2 || !ok3 || !ok4 {
		return nil, errors.New("fields")
	}
	return &SenderKeyFields{w[0], d.Buf, uint32(c.Int), uint32(n.Int), x.Buf, body, w[len(w)-64:]}, nil
}

// GroupReceiver follows one chain of a sender.
type GroupReceiver struct {
	D       SKDM
	Chain   Chain
	Skipped map[uint32]GroupKeys
}

func NewGroupReceiver(d SKDM) *GroupReceiver {
	return &GroupReceiver{d, Chain{d.ChainKey, d.N}, map[uint32]GroupKeys{}}
}

func (g *GroupReceiver) Clone() *GroupReceiver {
	c := &GroupReceiver{g.D, g.Chain, map[uint32]GroupKeys{}}
	for k, v := range g.Skipped {
		c.Skipped[k] = v
	}
	return c
}

func (g *GroupReceiver) Decrypt(w []byte) ([]byte, error) {
	f, err := ParseSenderKey(w)
	if err != nil {
		return nil, err
	}
	if f.Version != 0x33 || !bytes.Equal(f.Dist, g.D.Dist) || f.ChainID != g.D.ChainID {
		return nil, errors.New("header")
	}
	if !Verify(g.D.SigPub[1:], f.Body, f.Sig) {
		return nil, errors.New("signature")
	}
	t := g.Clone()
	var k GroupKeys
	if f.N < t.Chain.N {
		var ok bool
		if k, ok = t.Skipped[f.N]; !ok {
			return nil, errors.New("duplicate")
		}
		delete(t.Skipped, f.N)
	} else {
		for t.Chain.N < f.N {
			t.Skipped[t.Chain.N] = t.Chain.GroupKeys()
			t.Chain = t.Chain.Next()
		}
		k = t.Chain.GroupKeys()
		t.Chain = t.Chain.Next()
	}
	pt, err := CBCDecrypt(k.Cipher, k.IV, f.Cipher)
	if err != nil {
		return nil, err
	}
	*g = *t
	return pt, nil
}
