package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

// pmsg is a pairwise message with what the model knows about it.
type pmsg struct {
	ID       string
	From, To int
	Typ      message.CiphertextType
	Wire, PT []byte
	Sess     string
	Chain    string
	N        uint32
	Used     bool
}

// psess is a session in the model.
type psess struct {
	Init    int
	Pre     int // one-time pre-key ID of the responder, -1 for none
	Known   [2]bool
	Pending bool
	Base    []byte
	Chains  [2][]string // incoming chains a party holds, oldest first
	Evicted map[string]bool
}

type pcfg struct {
	Mem      bool
	MaxSend  [2]int
	MaxInit  [2]int
	Modes    string // how sessions are initiated: o fresh one-time key, n none, s shared one-time key
	Restart  bool
	Archive  int // how many archive operations
	Lens     []int
	Kinds    string // kinds of mismatch this property reports, space separated
	Check    func(w *pair) string
	OnRecv   func(w *pair, p int, m *pmsg) // after a successful delivery
	OnSend   func(w *pair, p int, m *pmsg) string
	ReDead   bool // also deliver messages that must be refused
	NoRecv   bool
	Seed     int64
	SameName bool
}

// pair is two devices, the network between them, and the model.
type pair struct {
	cfg      *pcfg
	P        [2]*world.Party
	Msgs     []*pmsg
	Sess     map[string]*psess
	Cur      [2]string
	Arch     [2][]string
	Pre      [2]map[int]bool
	Sent     [2]int
	Inits    [2]int
	NextPre  [2]int
	Arcs     int
	Xs       int
	Extra    any // property-specific, treated as immutable
	Init0    [2]int
	broken   bool
	rootFail string
}

var party = [2]string{"A", "B"}

const signedID = prekey.ID(22)

func newPair(cfg *pcfg) *pair {
	w := &pair{cfg: cfg, Sess: map[string]*psess{}}
	addr := [2]address.Address{{Name: "+14151111111", DeviceID: 1}, {Name: "+14151111112", DeviceID: 1}}
	id := party
	if cfg.SameName {
		// Two devices of one user.
		addr[1] = address.Address{Name: addr[0].Name, DeviceID: 2}
		id[1] = id[0]
	}
	u := &world.Universe{Addrs: addr[:], Signed: []prekey.ID{signedID}}
	for i := 0; i < 60; i++ {
		u.Pre = append(u.Pre, prekey.ID(100+i))
	}
	for p := 0; p < 2; p++ {
		w.P[p] = world.NewParty(cfg.Seed, party[p], id[p], addr[p], uint32(5+p), u, cfg.Mem)
		w.P[p].AddSigned(signedID)
		w.Pre[p] = map[int]bool{}
		w.NextPre[p] = 100
	}
	return w
}

func (w *pair) Clone() core.Node { return w.clone() }

func (w *pair) clone() *pair {
	c := *w
	for p := 0; p < 2; p++ {
		c.P[p] = w.P[p].Clone()
		c.Arch[p] = append([]string(nil), w.Arch[p]...)
		c.Pre[p] = map[int]bool{}
		for k := range w.Pre[p] {
			c.Pre[p][k] = true
		}
	}
	c.Msgs = make([]*pmsg, len(w.Msgs))
	copy(c.Msgs, w.Msgs)
	c.Sess = make(map[string]*psess, len(w.Sess)+1)
	for k, v := range w.Sess {
		s := *v
		s.Chains[0] = append([]string(nil), v.Chains[0]...)
		s.Chains[1] = append([]string(nil), v.Chains[1]...)
		s.Evicted = map[string]bool{}
		for k := range v.Evicted {
			s.Evicted[k] = true
		}
		c.Sess[k] = &s
	}
	return &c
}

func (w *pair) Key() [32]byte {
	var ms []string
	for _, m := range w.Msgs {
		ms = append(ms, fmt.Sprint(m.ID, m.Used, m.Sess))
	}
	sort.Strings(ms)
	var ss []string
	for k, s := range w.Sess {
		ss = append(ss, fmt.Sprint(k, s.Known, s.Pending, s.Pre, hex.EncodeToString(s.Base)))
	}
	sort.Strings(ss)
	a, b := w.P[0].Digest(), w.P[1].Digest()
	return core.Digest(a[:], b[:], strings.Join(ms, ";"), strings.Join(ss, ";"), w.Cur[0], w.Cur[1],
		strings.Join(w.Arch[0], ","), strings.Join(w.Arch[1], ","), fmt.Sprint(w.Sent, w.Inits, w.Arcs, w.Xs, w.Pre), w.Extra)
}

func (w *pair) msg(id string) *pmsg {
	for _, m := range w.Msgs {
		if m.ID == id {
			return m
		}
	}
	return nil
}

// deliverable tells whether the model expects the message to be readable.
func (w *pair) deliverable(m *pmsg) bool {
	s := w.Sess[m.Sess]
	if m.Used {
		return false
	}
	if !s.Known[m.To] {
		return m.Typ == message.PreKeyType && (s.Pre < 0 || w.Pre[m.To][s.Pre])
	}
	return !s.Evicted[fmt.Sprint(m.To, m.Chain)]
}

func (w *pair) Ops() []string {
	if w.broken {
		return nil
	}
	var ops []string
	for p := 0; p < 2; p++ {
		if w.Inits[p]-w.Init0[p] < w.cfg.MaxInit[p] {
			for _, m := range w.cfg.Modes {
				ops = append(ops, fmt.Sprintf("I%d%c", p, m))
			}
		}
		if w.Sent[p] < w.cfg.MaxSend[p] && w.Cur[p] != "" {
			ops = append(ops, fmt.Sprintf("S%d", p))
		}
		if w.cfg.Restart && w.Xs < 2 && len(w.Arch[p]) == 0 && w.Cur[p] != "" {
			ops = append(ops, fmt.Sprintf("X%d", p))
		}
		if w.Arcs < w.cfg.Archive {
			ops = append(ops, fmt.Sprintf("V%d", p))
		}
	}
	if w.cfg.NoRecv {
		return ops
	}
	var rs []string
	for _, m := range w.Msgs {
		if !m.Used && (w.cfg.ReDead || w.deliverable(m)) {
			rs = append(rs, fmt.Sprintf("R%d:%s", m.To, m.ID))
		}
	}
	sort.Strings(rs)
	return append(ops, rs...)
}

func (w *pair) fail(kind, format string, a ...any) string {
	w.broken = true
	for _, k := range strings.Fields(w.cfg.Kinds) {
		if k == kind {
			return kind + ": " + fmt.Sprintf(format, a...)
		}
	}
	return ""
}

func (w *pair) addr(p int) address.Address { return w.P[p].Addr }

func (w *pair) Apply(op string) string {
	p := int(op[1] - '0')
	switch op[0] {
	case 'I':
		return w.init(p, op[2])
	case 'S':
		return w.send(p)
	case 'R':
		return w.recv(w.msg(op[3:]))
	case 'X':
		w.Xs++
		if err := w.P[p].Restart(w.addr(1 - p)); err != nil {
			return w.fail("restart", "session of %s not restorable: %v", party[p], err)
		}
		return w.current(p)
	case 'Z':
		return w.records()
	case 'V':
		w.Arcs++
		if err := w.P[p].Archive(w.addr(1 - p)); err != nil {
			return w.fail("archive", "archive: %v", err)
		}
		if w.Cur[p] != "" {
			w.Arch[p] = append(w.Arch[p], w.Cur[p])
			w.Cur[p] = ""
		}
		return w.current(p)
	}
	panic("op " + op)
}

// records sets up a session without pre-key messages, from agreed parameters.
func (w *pair) records() string {
	base := world.NewKeyPair(w.cfg.Seed, "records base")
	a, b := w.P[0], w.P[1]
	signed := b.SignedKP(signedID)
	ra, err := session.InitializeAliceSessionRecord(core.NewPRF(w.cfg.Seed, "records"), &ratchet.AliceParameters{
		OurIdentityKeyPair: a.KP, OurBaseKeyPair: base, TheirIdentityKey: b.KP.IdentityKey(),
		TheirSignedPreKey: signed.PublicKey(), TheirRatchetKey: signed.PublicKey(),
	})
	if err != nil {
		return w.fail("init", "InitializeAliceSessionRecord: %v", err)
	}
	rb, err := session.InitializeBobSessionRecord(&ratchet.BobParameters{
		OurIdentityKeyPair: b.KP, OurSignedPreKeyPair: signed, OurRatchetKeyPair: signed,
		TheirIdentityKey: a.KP.IdentityKey(), TheirBaseKey: base.PublicKey(),
	})
	if err != nil {
		return w.fail("init", "InitializeBobSessionRecord: %v", err)
	}
	for p, r := range []*session.Record{ra, rb} {
		if err := w.P[p].Sess().Store(world.Ctx, w.addr(1-p), r); err != nil {
			return w.fail("init", "store: %v", err)
		}
		w.P[p].Touched()
		w.Cur[p] = "Z"
	}
	s := &psess{Init: -1, Pre: -1, Known: [2]bool{true, true}, Evicted: map[string]bool{}}
	s.Chains[0] = []string{hex.EncodeToString(signed.PublicKey().Bytes())}
	w.Sess["Z"] = s
	return ""
}

// current compares the current session with the model.
func (w *pair) current(p int) string {
	base := w.P[p].CurrentBase(w.addr(1 - p))
	if w.Cur[p] == "" {
		if base != nil {
			return w.fail("session", "%s has a current session although it was archived", party[p])
		}
		return ""
	}
	if want := w.Sess[w.Cur[p]].Base; !bytes.Equal(base, want) {
		return w.fail("session", "the current session of %s is not %s", party[p], w.Cur[p])
	}
	return ""
}

// bundleFor returns a bundle of the peer of p with a reserved one-time key, or none.
func (w *pair) bundleFor(p int, mode byte) *prekey.Bundle {
	if mode != 'o' {
		return w.P[1-p].Bundle(signedID, nil)
	}
	id := prekey.ID(faultPre)
	if _, ok, _ := w.P[1-p].Pre().Load(world.Ctx, id); !ok {
		w.P[1-p].AddPre(id)
	}
	return w.P[1-p].Bundle(signedID, &id)
}

func (w *pair) init(p int, mode byte) string {
	q := 1 - p
	w.Inits[p]++
	var pre *prekey.ID
	n := -1
	switch mode {
	case 'o', 's':
		n = w.NextPre[q]
		if mode == 's' && n > 100 {
			n = 100
		} else {
			w.NextPre[q]++
			if !w.Pre[q][n] {
				w.P[q].AddPre(prekey.ID(n))
				w.Pre[q][n] = true
			}
		}
		id := prekey.ID(n)
		pre = &id
	}
	if err := w.P[p].ProcessBundle(w.addr(q), w.P[q].Bundle(signedID, pre)); err != nil {
		return w.fail("init", "authentic bundle refused: %v", err)
	}
	sid := fmt.Sprintf("%s%d", party[p], w.Inits[p])
	s := &psess{Init: p, Pre: n, Pending: true, Base: w.P[p].CurrentBase(w.addr(q)), Evicted: map[string]bool{}}
	s.Known[p] = true
	s.Chains[p] = []string{"signed pre-key"}
	if s.Base == nil {
		return w.fail("session", "no current session after processing a bundle")
	}
	for k, o := range w.Sess {
		if bytes.Equal(o.Base, s.Base) {
			return w.fail("session", "new session has the base key of session %s", k)
		}
	}
	w.Sess[sid] = s
	if w.Cur[p] != "" {
		w.Arch[p] = append(w.Arch[p], w.Cur[p])
	}
	w.Cur[p] = sid
	return w.current(p)
}

func (w *pair) send(p int) string {
	l := 5
	if len(w.cfg.Lens) > 0 {
		l = w.cfg.Lens[w.Sent[p]%len(w.cfg.Lens)]
	}
	d := w.P[p].Digest()
	pt := core.Bytes(l, w.cfg.Seed, "pt", p, w.Sent[p], d[:])
	_, res := w.sendPT(p, pt)
	return res
}

func (w *pair) sendPT(p int, pt []byte) (*pmsg, string) {
	w.Sent[p]++
	in := append([]byte(nil), pt...)
	typ, wire, err := w.P[p].Encrypt(w.addr(1-p), in)
	if err != nil {
		if w.Cur[p] == "" {
			return nil, ""
		}
		return nil, w.fail("send", "%s cannot send: %v", party[p], err)
	}
	if w.Cur[p] == "" {
		return nil, w.fail("nosend", "%s could send without a current session", party[p])
	}
	h := sha256.Sum256(append([]byte(party[p]), wire...))
	m := &pmsg{ID: hex.EncodeToString(h[:4]), From: p, To: 1 - p, Typ: typ, Wire: wire, PT: pt, Sess: w.Cur[p]}
	s := w.Sess[w.Cur[p]]
	want := message.WhisperType
	if s.Init == p && s.Pending {
		want = message.PreKeyType
	}
	if typ != want {
		return nil, w.fail("type", "%s sent a message of type %v, expected %v (session %s)", party[p], typ, want, w.Cur[p])
	}
	inner := wire
	if typ == message.PreKeyType {
		f, err := ref.ParsePreKey(wire)
		if err != nil {
			return nil, w.fail("wire", "set-up message: %v", err)
		}
		if !bytes.Equal(f.Base, s.Base) {
			return nil, w.fail("session", "set-up message of %s names another session", w.Cur[p])
		}
		inner = f.Message
	}
	f, err := ref.ParseSignal(inner)
	if err != nil {
		return nil, w.fail("wire", "message: %v", err)
	}
	m.Chain, m.N = hex.EncodeToString(f.Ratchet), f.N
	w.Msgs = append(w.Msgs, m)
	if w.cfg.OnSend != nil {
		if r := w.cfg.OnSend(w, p, m); r != "" {
			return m, r
		}
	}
	return m, w.current(p)
}

func (w *pair) recv(m *pmsg) string {
	p := m.To
	s := w.Sess[m.Sess]
	expect := w.deliverable(m)
	before := w.P[p].Digest()
	pt, err := w.P[p].Decrypt(w.addr(m.From), m.Typ, m.Wire)
	if !expect {
		if err == nil {
			return w.fail("refuse", "message %s of session %s was accepted (%q) although it must be refused", m.ID, m.Sess, pt)
		}
		if world.IsPanic(err) {
			return w.fail("refuse", "message %s: %v", m.ID, err)
		}
		if w.P[p].Digest() != before {
			return w.fail("refuse", "refused message %s changed stored state", m.ID)
		}
		return ""
	}
	if err != nil {
		return w.fail("deliver", "message %s (%s, session %s, counter %d, %d bytes) not readable by %s: %v", m.ID, m.Typ, m.Sess, m.N, len(m.PT), party[p], err)
	}
	if !bytes.Equal(pt, m.PT) {
		return w.fail("deliver", "message %s (session %s, counter %d) decrypted to %x, was %x", m.ID, m.Sess, m.N, clip(pt), clip(m.PT))
	}
	for i, x := range w.Msgs {
		if x == m {
			c := *m
			c.Used = true
			w.Msgs[i] = &c
			m = &c
			break
		}
	}
	if !s.Known[p] {
		s.Known[p] = true
		if s.Pre >= 0 {
			delete(w.Pre[p], s.Pre)
		}
	}
	if s.Init == p {
		s.Pending = false
	}
	has := false
	for _, c := range s.Chains[p] {
		if c == m.Chain {
			has = true
		}
	}
	if !has {
		s.Chains[p] = append(s.Chains[p], m.Chain)
		if len(s.Chains[p]) > 5 {
			s.Evicted[fmt.Sprint(p, s.Chains[p][0])] = true
			s.Chains[p] = s.Chains[p][1:]
		}
	}
	if w.Cur[p] != m.Sess {
		for i, a := range w.Arch[p] {
			if a == m.Sess {
				w.Arch[p] = append(w.Arch[p][:i], w.Arch[p][i+1:]...)
				break
			}
		}
		if w.Cur[p] != "" {
			w.Arch[p] = append(w.Arch[p], w.Cur[p])
		}
		w.Cur[p] = m.Sess
	}
	if w.cfg.OnRecv != nil {
		w.cfg.OnRecv(w, p, m)
	}
	return w.current(p)
}

func clip(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

func (w *pair) Check() string {
	if w.rootFail != "" {
		return w.rootFail
	}
	if w.broken || w.cfg.Check == nil {
		return ""
	}
	return w.cfg.Check(w)
}

// ---- scripted roots ----

// run executes a script: operations as in Apply; "r0" delivers the newest unread
// message to party 0, "r0a" all unread oldest first, "d0" drops nothing.
func (w *pair) run(script string) *pair {
	for _, op := range strings.Fields(script) {
		if w.broken {
			return w
		}
		var res string
		switch {
		case op[0] == 'r':
			p := int(op[1] - '0')
			all := len(op) > 2
			for i := 0; i < len(w.Msgs); i++ {
				m := w.Msgs[i]
				if !all {
					m = w.Msgs[len(w.Msgs)-1-i]
				}
				if m.To == p && w.deliverable(m) {
					res = w.recv(m)
					if !all || res != "" {
						break
					}
				}
			}
		default:
			res = w.Apply(op)
		}
		if res != "" {
			// Reported by the exploration: the root itself fails.
			w.rootFail = "in the prefix " + script + " at " + op + ": " + res
			w.broken = true
		}
	}
	w.Sent, w.Init0, w.Arcs, w.Xs = [2]int{}, w.Inits, 0, 0
	return w
}
