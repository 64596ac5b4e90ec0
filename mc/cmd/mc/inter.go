package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

// inter is a device of the library (0) in conversation with a device of the
// reference implementation (1).
type inter struct {
	cfg   *icfg
	L     *world.Party
	RA    address.Address
	R     refDev
	Msgs  []*nmsg
	View  map[string]*iview // sessions as the library's device must see them, by base key
	Cur   string            // session the library must send in
	Sent  [2]int
	Inits [2]int
	Xs    int
	// Priv are the private keys of the library's device, found in its random stream, by public key.
	Priv map[string][]byte
	// Mir follows the library's side of each session with the reference implementation (cfg.mirror).
	Mir   map[string]*ref.Sess
	Arcs  int
	Lost  bool // the mirror could not follow
	Theft *theft
	Extra any
	bad   bool
	Fail  string
}

type icfg struct {
	seed    int64
	mem     bool
	maxSend [2]int
	maxInit [2]int
	modes   string
	restart bool
	lens    []int
	check   func(w *inter) string
	onSend  func(w *inter, m *nmsg) string
	onRecv  func(w *inter, m *nmsg) string
	kinds   string
	track   bool
	mirror  bool
	archive int
	steal   bool
	fresh   bool // vary the random source at every step that makes a key
}

type nmsg struct {
	ID   string
	From int
	Pre  bool
	Wire []byte // as sent
	Body []byte // the ordinary message inside
	PT   []byte
	Sess string
	Rat  string
	N    uint32
	Used bool
	Keys ref.MsgKeys // known once the reference device has it
}

// iview is the model of the library's sending side of a session.
type iview struct {
	Mine    bool // initiated by the library
	Pre     *uint32
	Pending bool
	N       uint32
	Prev    uint32
	Ratchet string // current ratchet key, "" if not seen yet
	Recv    map[string]bool
	AtRef   bool // known to the reference device
	AtLib   bool
}

type refDev struct {
	ID     ref.Identity
	Signed []byte
	Sess   map[string]*ref.Sess
	Order  []string // most recently used last
	Count  int
}

func (d *refDev) use(id string) {
	for i, o := range d.Order {
		if o == id {
			d.Order = append(append([]string(nil), d.Order[:i]...), d.Order[i+1:]...)
			break
		}
	}
	d.Order = append(append([]string(nil), d.Order...), id)
}

func (w *inter) key(label string) []byte {
	return ref.Clamp(core.Bytes(32, w.cfg.seed, "ref key", label))
}

func newInter(cfg *icfg) *inter {
	w := &inter{cfg: cfg, View: map[string]*iview{}, Priv: map[string][]byte{}, Mir: map[string]*ref.Sess{}}
	la := address.Address{Name: "+14151111111", DeviceID: 1}
	w.RA = address.Address{Name: "+14151111112", DeviceID: 3}
	u := &world.Universe{Addrs: []address.Address{la, w.RA}, Signed: []prekey.ID{signedID}}
	for i := 0; i < 40; i++ {
		u.Pre = append(u.Pre, prekey.ID(100+i))
	}
	w.L = world.NewParty(cfg.seed, "L", "lib", la, 0x1234, u, cfg.mem)
	kp, _ := w.L.AddSigned(signedID)
	w.Priv[string(kp.PublicKey().Bytes())] = kp.PrivateKey().Bytes()
	ik := w.key("identity")
	w.R = refDev{ID: ref.Identity{Priv: ik, Pub: ref.Pub(ik), Reg: 0x2345}, Signed: w.key("signed"), Sess: map[string]*ref.Sess{}}
	return w
}

func (w *inter) Clone() core.Node { return w.clone() }

func (w *inter) clone() *inter {
	c := *w
	c.L = w.L.Clone()
	c.R.Sess = map[string]*ref.Sess{}
	for k, s := range w.R.Sess {
		c.R.Sess[k] = s.Clone()
	}
	c.Mir = make(map[string]*ref.Sess, len(w.Mir)+1)
	for k, s := range w.Mir {
		c.Mir[k] = s // replaced, never changed
	}
	c.R.Order = append([]string(nil), w.R.Order...)
	c.Msgs = append([]*nmsg(nil), w.Msgs...)
	c.View = map[string]*iview{}
	for k, v := range w.View {
		x := *v
		x.Recv = map[string]bool{}
		for r := range v.Recv {
			x.Recv[r] = true
		}
		c.View[k] = &x
	}
	c.Priv = make(map[string][]byte, len(w.Priv)+1)
	for k, v := range w.Priv {
		c.Priv[k] = v
	}
	return &c
}

func (w *inter) Key() [32]byte {
	var ms []string
	for _, m := range w.Msgs {
		ms = append(ms, fmt.Sprint(m.ID, m.Used))
	}
	sort.Strings(ms)
	d := w.L.Digest()
	return core.Digest(d[:], w.R, w.View, strings.Join(ms, ";"), w.Cur, fmt.Sprint(w.Sent, w.Inits, w.Xs, w.Arcs), w.Theft.key(), w.Extra)
}

func (w *inter) deliverable(m *nmsg) bool {
	if m.Used {
		return false
	}
	v := w.View[m.Sess]
	if m.From == 0 {
		return v.AtRef || m.Pre
	}
	return v.AtLib || m.Pre
}

func (w *inter) Ops() []string {
	if w.bad {
		return nil
	}
	var ops []string
	for p, n := range []string{"L", "R"} {
		if w.Inits[p] < w.cfg.maxInit[p] {
			for _, m := range w.cfg.modes {
				ops = append(ops, fmt.Sprintf("I%s%c", n, m))
			}
		}
		if w.Sent[p] < w.cfg.maxSend[p] && (p == 0 && w.Cur != "" || p == 1 && len(w.R.Order) > 0) {
			ops = append(ops, "S"+n)
		}
	}
	if w.cfg.restart && w.Xs < 2 && w.Cur != "" && len(w.View) == 1 {
		ops = append(ops, "X")
	}
	if w.Arcs < w.cfg.archive && w.Cur != "" {
		ops = append(ops, "V")
	}
	if w.cfg.steal && w.Theft == nil && len(w.View) > 0 {
		ops = append(ops, "T")
	}
	var rs []string
	for _, m := range w.Msgs {
		if w.deliverable(m) {
			rs = append(rs, "R:"+m.ID)
		}
	}
	sort.Strings(rs)
	return append(ops, rs...)
}

func (w *inter) fail(kind, format string, a ...any) string {
	w.bad = true
	for _, k := range strings.Fields(w.cfg.kinds) {
		if k == kind {
			return fmt.Sprintf(format, a...)
		}
	}
	return ""
}

func (w *inter) Apply(op string) string {
	switch op[0] {
	case 'I':
		return w.init(op[1] == 'L', op[2])
	case 'S':
		if op[1] == 'L' {
			return w.sendL()
		}
		return w.sendR()
	case 'X':
		w.Xs++
		if err := w.L.Restart(w.RA); err != nil {
			return w.fail("restart", "not restorable: %v", err)
		}
		return ""
	case 'V':
		w.Arcs++
		if err := w.L.Archive(w.RA); err != nil {
			return w.fail("archive", "archive: %v", err)
		}
		w.Cur = ""
		return ""
	case 'T':
		w.steal()
		return ""
	case 'R':
		for _, m := range w.Msgs {
			if m.ID == op[2:] {
				return w.recv(m)
			}
		}
	}
	panic(op)
}

// learn finds private keys of the library in the random bytes it was given.
func (w *inter) learn(stream []byte, pub []byte) {
	if _, ok := w.Priv[string(pub)]; ok || pub == nil {
		return
	}
	for i := 0; i+32 <= len(stream); i++ {
		if bytes.Equal(ref.Enc(ref.Pub(stream[i:i+32])), pub) {
			w.Priv[string(pub)] = ref.Clamp(stream[i : i+32])
			return
		}
	}
}

// tee records what is read.
type tee struct {
	r   io.Reader
	buf []byte
}

func (t *tee) Read(b []byte) (int, error) {
	n, err := t.r.Read(b)
	t.buf = append(t.buf, b[:n]...)
	return n, err
}

func (w *inter) init(lib bool, mode byte) string {
	var pre *uint32
	if lib {
		w.Inits[0]++
		b := &prekey.Bundle{RegistrationID: w.R.ID.Reg, DeviceID: w.RA.DeviceID, SignedPreKeyID: 77,
			SignedPreKeyPublic: pubKey(ref.Enc(ref.Pub(w.R.Signed))), IdentityKey: identKey(ref.Enc(w.R.ID.Pub))}
		b.SignedPreKeySignature = ref.SignFast(w.R.ID.Priv, core.Bytes(64, w.cfg.seed, "sig"), b.SignedPreKeyPublic.Bytes())
		if mode == 'o' {
			id := prekey.ID(500 + w.Inits[0])
			pre = u32(uint32(id))
			b.PreKeyID = &id
			b.PreKeyPublic = pubKey(ref.Enc(ref.Pub(w.key(fmt.Sprint("one-time ", id)))))
		}
		if res := w.freshInit(b); res != "" {
			return w.fail("fresh", "%s", res)
		}
		t := &tee{r: w.L.Rand(fmt.Sprint("bundle ", w.Inits[0]))}
		err := world.Protect(func() error { return w.L.Session(w.RA).ProcessPreKeyBundle(world.Ctx, t, b) })
		w.L.Touched()
		if err != nil {
			return w.fail("init", "a bundle of the reference device is refused: %v", err)
		}
		base := w.L.CurrentBase(w.RA)
		w.learn(t.buf, base)
		id := hex.EncodeToString(base)
		if _, ok := w.View[id]; ok || len(base) != 33 {
			return w.fail("init", "no new session after processing a bundle (base key %s)", id)
		}
		w.View[id] = &iview{Mine: true, Pre: pre, Pending: true, AtLib: true, Recv: map[string]bool{string(ref.Enc(ref.Pub(w.R.Signed))): true}}
		w.Cur = id
		w.stream(t.buf)
		w.mirrorInit(id, base, pre)
		return ""
	}
	w.Inits[1]++
	b := ref.Bundle{Identity: w.L.KP.PublicKey().KeyBytes(), Signed: w.L.SignedKP(signedID).PublicKey().KeyBytes(), SignedID: uint32(signedID)}
	if mode == 'o' {
		id := prekey.ID(100 + w.Inits[1])
		kp := w.L.AddPre(id)
		b.PreID, b.Pre = u32(uint32(id)), kp.PublicKey().KeyBytes()
	}
	s, err := ref.Initiate(w.R.ID, b, w.key(fmt.Sprint("base ", w.Inits[1])), w.fresh())
	if err != nil {
		panic(err)
	}
	if w.cfg.track {
		s.Used = map[string]ref.MsgKeys{}
	}
	s.Quiet()
	id := hex.EncodeToString(s.Base)
	w.R.Sess[id] = s
	w.R.use(id)
	w.View[id] = &iview{Pre: b.PreID, AtRef: true, Recv: map[string]bool{}}
	return ""
}

// stream keeps random bytes of the library until the ratchet keys made of them are seen.
func (w *inter) stream(b []byte) {
	w.Priv["stream"] = append(append([]byte(nil), w.Priv["stream"]...), b...)
	if n := len(w.Priv["stream"]); n > 512 {
		w.Priv["stream"] = w.Priv["stream"][n-512:]
	}
}

// fresh is a new private key of the reference device.
func (w *inter) fresh() []byte {
	w.R.Count++
	return w.key(fmt.Sprint("ratchet ", w.R.Count))
}

func (w *inter) text(p int) []byte {
	l := 7
	if len(w.cfg.lens) > 0 {
		l = w.cfg.lens[w.Sent[p]%len(w.cfg.lens)]
	}
	w.Sent[p]++
	return core.Bytes(l, w.cfg.seed, "text", p, w.Sent[p], w.Cur, strings.Join(w.R.Order, ","), fmt.Sprint(len(w.Msgs)))
}

func (w *inter) sendL() string {
	pt := w.text(0)
	typ, wire, err := w.L.Encrypt(w.RA, append([]byte(nil), pt...))
	if err != nil {
		return w.fail("send", "the library cannot send: %v", err)
	}
	v := w.View[w.Cur]
	m := &nmsg{From: 0, Wire: wire, Body: wire, PT: pt, Sess: w.Cur}
	if typ == message.PreKeyType {
		f, err := ref.ParsePreKey(wire)
		if err != nil {
			return w.fail("header", "set-up message: %v", err)
		}
		if !v.Pending {
			return w.fail("header", "a set-up message was sent in an acknowledged session")
		}
		if f.Version != 0x33 || f.Reg != w.L.Reg || f.Signed != 77 || (f.Pre == nil) != (v.Pre == nil) || f.Pre != nil && *f.Pre != *v.Pre {
			return w.fail("header", "set-up message has version %x, registration %x, one-time key %v, signed key %d", f.Version, f.Reg, deref(f.Pre), f.Signed)
		}
		if !bytes.Equal(f.Identity, w.L.KP.PublicKey().Bytes()) || hex.EncodeToString(f.Base) != w.Cur {
			return w.fail("header", "set-up message has identity %x base %x", f.Identity, f.Base)
		}
		m.Pre, m.Body = true, f.Message
	} else if v.Pending {
		return w.fail("header", "an ordinary message was sent in an unacknowledged session")
	}
	f, err := ref.ParseSignal(m.Body)
	if err != nil {
		return w.fail("header", "message: %v", err)
	}
	if f.Version != 0x33 || f.N != v.N || f.Prev != v.Prev {
		return w.fail("header", "message has version %x counter %d previous counter %d, specified are 33, %d, %d", f.Version, f.N, f.Prev, v.N, v.Prev)
	}
	if v.Ratchet == "" {
		for id, o := range w.View {
			if o.Ratchet == string(f.Ratchet) {
				return w.fail("ratchet", "the ratchet key of session %s is used again", id)
			}
		}
		for _, o := range w.Msgs {
			if o.Rat == string(f.Ratchet) {
				return w.fail("ratchet", "a ratchet key is used again")
			}
		}
		v.Ratchet = string(f.Ratchet)
		w.learn(w.Priv["stream"], f.Ratchet)
	} else if v.Ratchet != string(f.Ratchet) {
		return w.fail("header", "the ratchet key changed within a chain")
	}
	v.N++
	m.Rat, m.N = string(f.Ratchet), f.N
	w.mirrorSend(m)
	m.ID = fmt.Sprintf("L%x", core.Digest(wire))[:9]
	w.Msgs = append(w.Msgs, m)
	if w.cfg.onSend != nil {
		return w.cfg.onSend(w, m)
	}
	return ""
}

func (w *inter) sendR() string {
	pt := w.text(1)
	id := w.R.Order[len(w.R.Order)-1]
	s := w.R.Sess[id]
	k := s.Send.MsgKeys()
	pre, wire := s.Encrypt(pt)
	m := &nmsg{From: 1, Wire: wire, Body: wire, PT: pt, Sess: id, Pre: pre, Keys: k}
	if pre {
		f, err := ref.ParsePreKey(wire)
		if err != nil {
			panic(err)
		}
		m.Body = f.Message
	}
	f, err := ref.ParseSignal(m.Body)
	if err != nil {
		panic(err)
	}
	m.Rat, m.N = string(f.Ratchet), f.N
	m.ID = fmt.Sprintf("R%x", core.Digest(wire))[:9]
	w.Msgs = append(w.Msgs, m)
	return ""
}

func (w *inter) recv(m *nmsg) string {
	v := w.View[m.Sess]
	if m.From == 1 {
		typ := message.WhisperType
		if m.Pre {
			typ = message.PreKeyType
		}
		if res := w.freshRecv(m, typ); res != "" {
			return w.fail("fresh", "%s", res)
		}
		t := &tee{r: w.L.Rand("dec" + string(m.Wire))}
		pt, err := w.L.DecryptWith(w.RA, typ, m.Wire, t)
		if err != nil {
			return w.fail("recv", "the library cannot read a message of the reference device (set-up %v, counter %d, %d bytes): %v", m.Pre, m.N, len(m.PT), err)
		}
		if !bytes.Equal(pt, m.PT) {
			return w.fail("recv", "the library read %x instead of %x", clip(pt), clip(m.PT))
		}
		w.stream(t.buf)
		v.AtLib = true
		v.Pending = false
		if !v.Recv[m.Rat] {
			v.Recv[m.Rat] = true
			v.Prev = 0
			if v.N > 0 {
				v.Prev = v.N - 1
			}
			v.N, v.Ratchet = 0, ""
		}
		w.Cur = m.Sess
		w.mirrorRecv(m)
		w.mark(m, nil)
	} else {
		s := w.R.Sess[m.Sess]
		if s == nil {
			f, err := ref.ParsePreKey(m.Wire)
			if err != nil {
				panic(err)
			}
			var preSK []byte
			if f.Pre != nil {
				preSK = w.key(fmt.Sprint("one-time ", *f.Pre))
			}
			if s, err = ref.Respond(w.R.ID, w.R.Signed, preSK, f.Identity[1:], f.Base[1:]); err != nil {
				return w.fail("recv", "set-up by the library is not acceptable: %v", err)
			}
			s.Quiet()
		}
		t := s.Clone()
		if t.Used == nil {
			t.Used = map[string]ref.MsgKeys{}
		}
		pt, err := t.Decrypt(m.Body, w.fresh())
		if err != nil {
			return w.fail("recv", "the reference device cannot read a message of the library (set-up %v, counter %d, %d bytes): %v", m.Pre, m.N, len(m.PT), err)
		}
		if !bytes.Equal(pt, m.PT) {
			return w.fail("recv", "the reference device read %x instead of %x", clip(pt), clip(m.PT))
		}
		k := t.Used[fmt.Sprintf("%x|%d", m.Rat, m.N)]
		if !w.cfg.track {
			t.Used = nil
		}
		w.R.Sess[m.Sess] = t
		w.R.use(m.Sess)
		v.AtRef = true
		w.mark(m, &k)
	}
	if w.cfg.onRecv != nil {
		return w.cfg.onRecv(w, m)
	}
	return ""
}

func (w *inter) mark(m *nmsg, k *ref.MsgKeys) {
	for i, x := range w.Msgs {
		if x == m {
			c := *m
			c.Used = true
			if k != nil {
				c.Keys = *k
			}
			w.Msgs[i] = &c
		}
	}
}

func (w *inter) Check() string {
	if w.Fail != "" {
		return w.Fail
	}
	if w.bad || w.cfg.check == nil {
		return ""
	}
	return w.cfg.check(w)
}

// run executes a script; "r" delivers everything deliverable, oldest first.
func (w *inter) run(script string) *inter {
	for _, op := range strings.Fields(script) {
		if w.bad {
			break
		}
		var res string
		if op == "r" || op == "rr" {
			for i := 0; i < len(w.Msgs) && res == ""; i++ {
				m := w.Msgs[i]
				if op == "rr" {
					m = w.Msgs[len(w.Msgs)-1-i]
				}
				if w.deliverable(m) && !w.bad {
					res = w.recv(m)
				}
			}
		} else {
			res = w.Apply(op)
		}
		if res != "" {
			w.Fail = "in the prefix " + script + " at " + op + ": " + res
			w.bad = true
		}
	}
	w.Sent, w.Xs, w.Arcs = [2]int{}, 0, 0
	w.cfg0()
	return w
}

func (w *inter) cfg0() {
	// Further set-ups are counted from here.
	c := *w.cfg
	c.maxInit = [2]int{w.cfg.maxInit[0] + w.Inits[0], w.cfg.maxInit[1] + w.Inits[1]}
	w.cfg = &c
}

func interSpace(name, script string, cfg icfg, depth int) core.Space {
	return core.Space{Name: name, Depth: depth, Root: func() core.Node {
		c := cfg
		return newInter(&c).run(script)
	}}
}
