package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"sync/atomic"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

// The mirror follows the library's side of every session with the reference
// implementation, so that every key the library derives is known. The private keys
// the library makes are found in the random bytes it was given.

var mirrorLost atomic.Int64

// Controls: what the searches of stored state do find.
var foundPending, foundStolen atomic.Int64

func (w *inter) lose(sess string) {
	mirrorLost.Add(1)
	w.Lost = true
	delete(w.Mir, sess)
}

// sendKey tells which ratchet key the device would send under, by trying it on a copy.
func sendKey(p *world.Party, to address.Address) []byte {
	typ, wire, err := p.Clone().Encrypt(to, nil)
	if err != nil {
		return nil
	}
	if typ == message.PreKeyType {
		f, err := ref.ParsePreKey(wire)
		if err != nil {
			return nil
		}
		wire = f.Message
	}
	f, err := ref.ParseSignal(wire)
	if err != nil {
		return nil
	}
	return f.Ratchet
}

func (w *inter) mirrorInit(id string, base []byte, pre *uint32) {
	if !w.cfg.mirror {
		return
	}
	rat := sendKey(w.L, w.RA)
	w.learn(w.Priv["stream"], rat)
	bp, rp := w.Priv[string(base)], w.Priv[string(rat)]
	if bp == nil || rp == nil {
		w.lose(id)
		return
	}
	b := ref.Bundle{Identity: w.R.ID.Pub, Signed: ref.Pub(w.R.Signed), SignedID: 77, PreID: pre}
	if pre != nil {
		b.Pre = ref.Pub(w.key(fmt.Sprint("one-time ", *pre)))
	}
	s, err := ref.Initiate(w.libID(), b, bp, rp)
	if err != nil {
		w.lose(id)
		return
	}
	w.Mir[id] = s
}

func (w *inter) libID() ref.Identity {
	return ref.Identity{Priv: w.L.KP.PrivateKey().Bytes(), Pub: w.L.KP.PublicKey().KeyBytes(), Reg: w.L.Reg}
}

func (w *inter) mirrorSend(m *nmsg) {
	if !w.cfg.mirror || w.Mir[m.Sess] == nil {
		return
	}
	s := w.Mir[m.Sess].Clone()
	if _, wire := s.Encrypt(m.PT); !bytes.Equal(wire, m.Wire) {
		w.lose(m.Sess)
		return
	}
	w.Mir[m.Sess] = s
}

func (w *inter) mirrorRecv(m *nmsg) {
	if !w.cfg.mirror {
		return
	}
	s := w.Mir[m.Sess]
	if s == nil {
		if !m.Pre {
			return
		}
		f, err := ref.ParsePreKey(m.Wire)
		if err != nil {
			panic(err)
		}
		var preSK []byte
		if f.Pre != nil {
			preSK = w.L.PreKP(prekey.ID(*f.Pre)).PrivateKey().Bytes()
			w.Priv[string(ref.Enc(ref.Pub(preSK)))] = preSK
		}
		if s, err = ref.Respond(w.libID(), w.L.SignedKP(signedID).PrivateKey().Bytes(), preSK, f.Identity[1:], f.Base[1:]); err != nil {
			w.lose(m.Sess)
			return
		}
	}
	s = s.Clone()
	rp := s.SendPriv
	if _, known := s.Recv[m.Rat]; !known {
		rat := sendKey(w.L, w.RA)
		w.learn(w.Priv["stream"], rat)
		if rp = w.Priv[string(rat)]; rp == nil {
			w.lose(m.Sess)
			return
		}
	}
	if pt, err := s.Decrypt(m.Body, rp); err != nil || !bytes.Equal(pt, m.PT) {
		w.lose(m.Sess)
		return
	}
	w.Mir[m.Sess] = s
}

// derivations of a session, oldest first.
func derivations(s *ref.Sess) []*ref.Derivation {
	var out []*ref.Derivation
	for d := s.Log; d != nil; d = d.Up {
		out = append([]*ref.Derivation{d}, out...)
	}
	return out
}

// dump is everything the device has stored.
func (w *inter) dump() []byte { return dumpParty(w.L) }

func dumpParty(p *world.Party) []byte {
	if p.DB != nil {
		return core.Dump(p.DB)
	}
	return core.Dump(p.Mem)
}

// reach is what can be derived in one session from a dump of the device's state:
// for each chain, from which position on it is known.
type reach struct {
	from map[string]uint32
	root map[string]bool
}

// derive computes the reach; top says up to which position of a chain keys matter;
// longTerm tells whether the long-term keys of the device count as known.
func (w *inter) derive(s *ref.Sess, dump []byte, top map[string]uint32, longTerm bool) reach {
	r := reach{map[string]uint32{}, map[string]bool{}}
	has := func(b []byte) bool { return len(b) >= 16 && bytes.Contains(dump, b) }
	priv := func(pub []byte) bool { return pub != nil && has(w.Priv[string(pub)]) }
	for _, d := range derivations(s) {
		o := string(d.Owner)
		n, ok := top[o]
		if ok {
			c := ref.Chain{Key: d.Chain}
			for ; c.N <= n; c = c.Next() {
				if has(c.Key) {
					r.from[o] = c.N
					break
				}
			}
		}
		known := false
		if d.Before == nil {
			known = d.Own != nil && priv(d.Own) || d.Own == nil && (d.Pre == nil && longTerm || d.Pre != nil && priv(d.Pre))
		} else {
			known = (r.root[string(d.Before)] || has(d.Before)) && priv(d.Own)
		}
		if known {
			r.from[o] = 0
			r.root[string(d.After)] = true
		}
	}
	return r
}

// tops are the last positions of each chain of a session seen in messages.
func (w *inter) tops(sess string, f func(m *nmsg) bool) map[string]uint32 {
	top := map[string]uint32{}
	for _, m := range w.Msgs {
		if m.Sess == sess && f(m) {
			if n, ok := top[m.Rat]; !ok || m.N > n {
				top[m.Rat] = m.N
			}
		}
	}
	return top
}

// chainKeys returns the message keys at a position of a chain of the session.
func chainKeys(s *ref.Sess, rat string, n uint32) (ref.MsgKeys, bool) {
	for d := s.Log; d != nil; d = d.Up {
		if string(d.Owner) == rat {
			c := ref.Chain{Key: d.Chain}
			for c.N < n {
				c = c.Next()
			}
			return c.MsgKeys(), true
		}
	}
	return ref.MsgKeys{}, false
}

// erased judges the stored state: nothing consumed can be derived from it.
func (w *inter) erased() string {
	dump := w.dump()
	gone := func(m *nmsg) bool { return m.From == 0 || m.Used }
	for _, id := range core.Keys(w.Mir) {
		s := w.Mir[id]
		r := w.derive(s, dump, w.tops(id, gone), false)
		for _, m := range w.Msgs {
			if m.Sess != id {
				continue
			}
			if !gone(m) {
				// A key that is still needed: found if the message was skipped.
				if k, ok := chainKeys(s, m.Rat, m.N); ok && (bytes.Contains(dump, k.Seed) || bytes.Contains(dump, k.Cipher)) {
					foundPending.Add(1)
				}
				continue
			}
			what := "decrypted"
			if m.From == 0 {
				what = "sent"
			}
			if k, ok := chainKeys(s, m.Rat, m.N); ok {
				for i, b := range [][]byte{k.Seed, k.Cipher, k.Mac} {
					if bytes.Contains(dump, b) {
						return fmt.Sprintf("the stored state contains the %s of a message that was %s (counter %d)", []string{"message key", "cipher key", "authentication key"}[i], what, m.N)
					}
				}
			}
			if n, ok := r.from[m.Rat]; ok && n <= m.N {
				return fmt.Sprintf("the stored state contains keys from which a message that was %s can be read (counter %d, chain known from %d)", what, m.N, n)
			}
		}
		for _, d := range derivations(s) {
			if d.Own == nil || bytes.Equal(d.Own, s.SendPub) || bytes.Equal(d.Own, w.L.SignedKP(signedID).PublicKey().Bytes()) {
				continue
			}
			if p := w.Priv[string(d.Own)]; p != nil && bytes.Contains(dump, p) {
				return fmt.Sprintf("the stored state contains the private part of %s, which is no longer used", hex.EncodeToString(d.Own[:5]))
			}
		}
		if v := w.View[id]; v != nil && !v.Mine && v.AtLib && v.Pre != nil {
			if bytes.Contains(dump, w.L.PreKP(prekey.ID(*v.Pre)).PrivateKey().Bytes()) {
				return fmt.Sprintf("the stored state contains the used one-time pre-key %d", *v.Pre)
			}
		}
	}
	return ""
}

// ---- theft ----

type theft struct {
	dump  []byte
	steps map[string]int // derivations made by then, per session
	own   map[string]bool
}

func (t *theft) key() []byte {
	if t == nil {
		return nil
	}
	d := core.Digest(t.dump)
	return d[:]
}

func (w *inter) steal() {
	t := &theft{w.dump(), map[string]int{}, map[string]bool{}}
	for id, s := range w.Mir {
		ds := derivations(s)
		t.steps[id] = len(ds)
		for _, d := range ds {
			t.own[string(d.Own)] = true
		}
	}
	t.own[string(w.L.SignedKP(signedID).PublicKey().Bytes())] = true
	w.Theft = t
}

// healed judges what the thief can read.
func (w *inter) healed() string {
	t := w.Theft
	if t == nil {
		return ""
	}
	for _, id := range core.Keys(w.Mir) {
		s := w.Mir[id]
		top := w.tops(id, func(*nmsg) bool { return true })
		r := w.derive(s, t.dump, top, true)
		foundStolen.Add(int64(len(r.from)))
		for i, d := range derivations(s) {
			if i < t.steps[id] || d.Own == nil || t.own[string(d.Own)] {
				continue
			}
			// This chain involves a key the device made after the theft.
			if _, ok := r.from[string(d.Owner)]; ok || r.root[string(d.After)] {
				return fmt.Sprintf("the state stolen earlier is enough to read the chain %x, although a ratchet key was made since", d.Owner[:5])
			}
		}
	}
	return ""
}

// ---- randomness of new keys ----

// freshInit processes the bundle with different random sources on copies.
func (w *inter) freshInit(b *prekey.Bundle) string {
	if !w.cfg.fresh {
		return ""
	}
	try := func(src string) (base, rat string) {
		c := w.L.Clone()
		rnd := core.NewPRF(w.cfg.seed, "fresh", src)
		if err := world.Protect(func() error { return c.Session(w.RA).ProcessPreKeyBundle(world.Ctx, rnd, b) }); err != nil {
			return "", ""
		}
		c.Touched()
		return string(c.CurrentBase(w.RA)), string(sendKey(c, w.RA))
	}
	b1, r1 := try("1")
	b2, r2 := try("2")
	b3, r3 := try("1")
	switch {
	case b1 == "" || r1 == "" || b2 == "" || r2 == "":
		return ""
	case b1 == b2:
		return "the base key of a new session does not depend on the random source"
	case r1 == r2:
		return "the ratchet key of a new session does not depend on the random source"
	case b1 == r1:
		return "the base key and the ratchet key of a new session are the same"
	case b1 != b3 || r1 != r3:
		return "the keys of a new session are not made from the given random source alone"
	}
	return ""
}

// freshRecv decrypts with different random sources on copies.
func (w *inter) freshRecv(m *nmsg, typ message.CiphertextType) string {
	if v := w.View[m.Sess]; !w.cfg.fresh || v == nil || v.Recv[m.Rat] {
		return ""
	}
	old := string(sendKey(w.L, w.RA))
	try := func(src string) string {
		c := w.L.Clone()
		if _, err := c.DecryptWith(w.RA, typ, m.Wire, core.NewPRF(w.cfg.seed, "fresh", src)); err != nil {
			return ""
		}
		return string(sendKey(c, w.RA))
	}
	r1, r2, r3 := try("1"), try("2"), try("1")
	switch {
	case r1 == "" || r2 == "" || r3 == "":
		return ""
	case r1 == old:
		return "no new ratchet key after a message with a new ratchet key"
	case r1 == r2:
		return "the new ratchet key does not depend on the random source"
	case r1 != r3:
		return "the new ratchet key is not made from the given random source alone"
	}
	return ""
}
