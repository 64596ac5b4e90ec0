package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C07", "model_checking", c07) }

// idw is a device A and two devices with different identities which both answer at
// one address, as after a reinstallation or an attack, and the model of what A remembers.
type idw struct {
	cfg  *idCfg
	r    *core.Run
	A    *world.Party
	B    [2]*world.Party
	Msgs []*imsg
	Sess map[string]int // sessions of A by base key: the identity
	Cur  string
	Pin  int // -1 none
	Ops_ map[string]int
	// acked tells whether B_i has a session that A knows, so that Whisper messages of it are readable.
	bad bool
}

type idCfg struct {
	seed   int64
	mem    bool
	policy string
	max    map[string]int // bound per kind of operation
	// classes: also judge whether errors say what they are about (C31)
	classes bool
}

type imsg struct {
	id       string
	from, to int // 0,1: B; 2: A
	typ      message.CiphertextType
	wire     []byte
	pt       []byte
	base     string
	used     bool
}

func (c *idCfg) trusted(pin, i int, d direction.Direction) bool {
	switch c.policy {
	case "all":
		return true
	case "deny-sending":
		return d != direction.Sending
	case "deny-receiving":
		return d != direction.Receiving
	case "only-1":
		return i == 0
	}
	return pin < 0 || pin == i
}

func newIDW(r *core.Run, cfg *idCfg) *idw {
	a, b := address.Address{Name: "alice", DeviceID: 1}, address.Address{Name: "bob", DeviceID: 1}
	u := &world.Universe{Addrs: []address.Address{a, b, {Name: "bob", DeviceID: 2}, {Name: "carol", DeviceID: 1}}, Signed: []prekey.ID{signedID}}
	w := &idw{cfg: cfg, r: r, Sess: map[string]int{}, Pin: -1, Ops_: map[string]int{}}
	w.A = world.NewParty(cfg.seed, "alice", "alice", a, 3, u, cfg.mem)
	w.A.AddSigned(signedID)
	for i := 0; i < 2; i++ {
		w.B[i] = world.NewParty(cfg.seed, fmt.Sprint("bob", i), fmt.Sprint("bob", i), b, uint32(4+i), u, false)
		w.B[i].AddSigned(signedID)
	}
	if cfg.policy != "tofu" {
		key0 := w.B[0].KP.IdentityKey().Bytes()
		bob := b
		w.A.DB.Policy = func(x address.Address, k identity.Key, d direction.Direction) bool {
			if x != bob {
				return false
			}
			i := 1
			if bytes.Equal(k.Bytes(), key0) {
				i = 0
			}
			return cfg.trusted(-1, i, d)
		}
	}
	return w
}

func (w *idw) Clone() core.Node {
	c := *w
	c.A = w.A.Clone()
	c.B = [2]*world.Party{w.B[0].Clone(), w.B[1].Clone()}
	c.Msgs = append([]*imsg(nil), w.Msgs...)
	c.Sess, c.Ops_ = map[string]int{}, map[string]int{}
	for k, v := range w.Sess {
		c.Sess[k] = v
	}
	for k, v := range w.Ops_ {
		c.Ops_[k] = v
	}
	return &c
}

func (w *idw) Key() [32]byte {
	var ms []string
	for _, m := range w.Msgs {
		ms = append(ms, fmt.Sprint(m.id, m.used))
	}
	sort.Strings(ms)
	a, b, c := w.A.Digest(), w.B[0].Digest(), w.B[1].Digest()
	return core.Digest(a[:], b[:], c[:], strings.Join(ms, ","), fmt.Sprint(w.Ops_, w.Pin), w.Cur)
}

func (w *idw) Ops() []string {
	if w.bad {
		return nil
	}
	var ops []string
	can := func(k string) bool { return w.Ops_[k] < w.cfg.max[k[:1]] }
	for i := 0; i < 2; i++ {
		for _, k := range []string{"G", "E"} {
			if can(fmt.Sprint(k, i)) {
				ops = append(ops, fmt.Sprint(k, i))
			}
		}
		if can(fmt.Sprint("s", i)) && w.B[i].CurrentBase(w.A.Addr) != nil {
			ops = append(ops, fmt.Sprint("s", i))
		}
		if can("T") && w.Pin != i {
			ops = append(ops, fmt.Sprint("T", i))
		}
	}
	if can("S") {
		ops = append(ops, "S")
	}
	if can("F") && !w.cfg.mem && w.Pin >= 0 {
		ops = append(ops, "F")
	}
	var rs []string
	for _, m := range w.Msgs {
		if !m.used {
			if m.to == 2 {
				rs = append(rs, "r:"+m.id, "t:"+m.id)
			} else {
				rs = append(rs, "d:"+m.id)
			}
		}
	}
	sort.Strings(rs)
	return append(ops, rs...)
}

func (w *idw) Check() string { return "" }

func (w *idw) key(i int) identity.Key { return w.B[i].KP.IdentityKey() }

// pins compares what A remembers with the model.
func (w *idw) pins() string {
	for _, a := range w.A.U.Addrs {
		k, ok, err := w.A.Ident().Load(world.Ctx, a)
		if err != nil {
			return err.Error()
		}
		if a != w.B[0].Addr {
			if ok {
				return fmt.Sprintf("an identity key is remembered for %v", a)
			}
			continue
		}
		switch {
		case w.Pin < 0 && ok:
			return "an identity key is remembered although none was used successfully"
		case w.Pin >= 0 && (!ok || !bytes.Equal(k.Bytes(), w.key(w.Pin).Bytes())):
			return fmt.Sprintf("the remembered identity key is not that of identity %d", w.Pin)
		}
	}
	return ""
}

func (w *idw) Apply(op string) string {
	k := op
	if i := strings.IndexByte(op, ':'); i > 0 {
		k = op[:1]
	}
	if op[0] == 'T' {
		k = "T"
	}
	w.Ops_[k]++
	bob := w.B[0].Addr
	i := 0
	if len(op) == 2 {
		i = int(op[1] - '0')
	}
	var calls []world.Call
	watch := func() {
		if w.A.DB != nil {
			w.A.DB.Hook = func(c world.Call, post bool) error {
				if !post {
					calls = append(calls, c)
				}
				return nil
			}
		}
	}
	// judge checks an operation of A that involves identity id in direction d.
	judge := func(what string, id int, d direction.Direction, before [32]byte, err error, released bool) string {
		if w.A.DB != nil {
			w.A.DB.Hook = nil
			for _, c := range calls {
				switch {
				case (c.Store == "identity" || c.Store == "session") && c.Addr != bob:
					return fmt.Sprintf("%s: %s for address %v", what, c, c.Addr)
				case c.Op == "IsTrusted" && c.Dir != d:
					return fmt.Sprintf("%s: the store was asked about direction %v", what, c.Dir)
				case c.Store == "identity" && c.Op == "Store" && !bytes.Equal(c.Key, w.key(id).Bytes()):
					return fmt.Sprintf("%s: another identity key was stored", what)
				}
			}
		}
		if world.IsPanic(err) {
			return what + ": " + err.Error()
		}
		if !w.cfg.trusted(w.Pin, id, d) {
			if err == nil {
				return fmt.Sprintf("%s with identity %d was accepted, remembered is %d (policy %s)", what, id, w.Pin, w.cfg.policy)
			}
			if released {
				return what + ": refused, but content was released"
			}
			if w.A.Digest() != before {
				return fmt.Sprintf("%s with untrusted identity: refused but changed stored state", what)
			}
			if w.cfg.classes {
				if x := wantClass(fmt.Sprintf("%s with an identity that is not trusted (%d, remembered %d, policy %s)", what, id, w.Pin, w.cfg.policy), err, isUntrusted); x != "" {
					return x
				}
			}
			return w.pins()
		}
		if err != nil {
			return fmt.Sprintf("%s with trusted identity %d was refused (remembered %d, policy %s): %v", what, id, w.Pin, w.cfg.policy, err)
		}
		w.Pin = id
		return w.pins()
	}
	before := w.A.Digest()
	switch op[0] {
	case 'G':
		watch()
		err := w.A.ProcessBundle(bob, w.B[i].Bundle(signedID, nil))
		ok := w.cfg.trusted(w.Pin, i, direction.Sending)
		if x := judge("bundle", i, direction.Sending, before, err, false); x != "" {
			return x
		}
		if ok {
			w.Cur = string(w.A.CurrentBase(bob))
			w.Sess[w.Cur] = i
		}
		return ""
	case 'E':
		if err := w.B[i].ProcessBundle(w.A.Addr, w.A.Bundle(signedID, nil)); err != nil {
			w.bad = true
		}
		return ""
	case 's':
		return w.emit(w.B[i], w.A.Addr, i, 2)
	case 'S':
		if w.Cur == "" {
			_, _, err := w.A.Encrypt(bob, []byte("x"))
			if err == nil {
				return "sent without a session"
			}
			if w.cfg.classes {
				return wantClass("sending without a session", err, isOther)
			}
			return ""
		}
		id := w.Sess[w.Cur]
		watch()
		pt := core.Bytes(6, w.cfg.seed, "pt", w.Ops_["S"])
		typ, wire, err := w.A.Encrypt(bob, pt)
		if err != nil && strings.HasPrefix(err.Error(), "LEAK") {
			return "send: " + err.Error()
		}
		ok := w.cfg.trusted(w.Pin, id, direction.Sending)
		if x := judge("send", id, direction.Sending, before, err, wire != nil); x != "" || !ok {
			return x
		}
		w.add(typ, wire, pt, 2, id)
		return ""
	case 'T':
		w.A.SetTrust(bob, w.key(i))
		w.Pin = i
		return w.pins()
	case 'F':
		w.A.ForgetIdentity(bob)
		w.Pin = -1
		return ""
	}
	var m *imsg
	mi := 0
	for j, x := range w.Msgs {
		if x.id == op[2:] {
			m, mi = x, j
		}
	}
	c := *m
	switch op[0] {
	case 'd':
		c.used = true
		w.Msgs[mi] = &c
		if _, err := w.B[m.to].Decrypt(w.A.Addr, m.typ, m.wire); err != nil {
			// Not judged here (the other side's policy is always first use).
			_ = err
		}
		return ""
	case 't':
		// Altered copies never cause a key to be remembered, whatever they claim.
		var vs []variant
		x := append([]byte(nil), m.wire...)
		x[len(x)-1] ^= 1
		if m.typ != message.PreKeyType {
			vs = append(vs, variant{"altered", m.typ, x})
		}
		if m.typ == message.PreKeyType {
			f, err := ref.ParsePreKey(m.wire)
			if err != nil {
				return ""
			}
			g := *f
			g.Message = append([]byte(nil), f.Message...)
			g.Message[len(g.Message)-9] ^= 1
			vs = append(vs, variant{"altered inside", m.typ, ref.EncodePreKey(g)})
			for n, id := range [][]byte{w.key(1 - m.from).Bytes(), w.A.KP.IdentityKey().Bytes(), ref.Enc(world.NewKeyPair(w.cfg.seed, "nobody").PublicKey().KeyBytes())} {
				g := *f
				g.Identity = id
				vs = append(vs, variant{fmt.Sprint("in the name of another identity ", n), m.typ, ref.EncodePreKey(g)})
				g.Base = ref.Enc(world.NewKeyPair(w.cfg.seed, "new base").PublicKey().KeyBytes())
				vs = append(vs, variant{fmt.Sprint("as a new session of another identity ", n), m.typ, ref.EncodePreKey(g)})
			}
			g = *f
			g.Base = ref.Enc(world.NewKeyPair(w.cfg.seed, "new base").PublicKey().KeyBytes())
			vs = append(vs, variant{"as a new session", m.typ, ref.EncodePreKey(g)})
		} else {
			for n, id := range [][]byte{w.key(0).Bytes(), w.key(1).Bytes(), w.A.KP.IdentityKey().Bytes()} {
				g := ref.PreKeyFields{Version: 0x33, Reg: 5, Signed: uint32(signedID), Base: ref.Enc(world.NewKeyPair(w.cfg.seed, "new base").PublicKey().KeyBytes()), Identity: id, Message: m.wire}
				vs = append(vs, variant{fmt.Sprint("wrapped in the name of ", n), message.PreKeyType, ref.EncodePreKey(g)})
			}
		}
		for _, v := range vs {
			w.r.Evals.Add(1)
			pt, err := w.A.DecryptWith(bob, v.typ, v.wire, core.NewPRF(w.cfg.seed, "t", v.wire))
			if s := refused(pt, err); s != "" {
				return fmt.Sprintf("message of identity %d, %s: %s", m.from, v.name, s)
			}
			if x := w.pins(); x != "" {
				return fmt.Sprintf("after refusing a message of identity %d, %s: %s", m.from, v.name, x)
			}
			if w.A.Digest() != before {
				return fmt.Sprintf("message of identity %d, %s: refused but changed stored state", m.from, v.name)
			}
			if w.cfg.classes {
				claimed := m.from
				if f, err := ref.ParsePreKey(v.wire); v.typ == message.PreKeyType && err == nil {
					claimed = -1
					for i := range w.B {
						if bytes.Equal(f.Identity, w.key(i).Bytes()) {
							claimed = i
						}
					}
				}
				if claimed >= 0 && w.cfg.trusted(w.Pin, claimed, direction.Receiving) {
					if x := wantClass(fmt.Sprintf("message of identity %d, %s", m.from, v.name), err, isOther); x != "" {
						return x
					}
				}
			}
		}
		return ""
	}
	watch()
	pt, err := w.A.Decrypt(bob, m.typ, m.wire)
	if _, known := w.Sess[m.base]; !known && m.typ != message.PreKeyType {
		if w.A.DB != nil {
			w.A.DB.Hook = nil
		}
		return ""
	}
	ok := w.cfg.trusted(w.Pin, m.from, direction.Receiving)
	if x := judge(fmt.Sprintf("%v message", m.typ), m.from, direction.Receiving, before, err, len(pt) > 0); x != "" || !ok {
		return x
	}
	if !bytes.Equal(pt, m.pt) {
		return "wrong plaintext"
	}
	c.used = true
	w.Msgs[mi] = &c
	w.Cur = string(w.A.CurrentBase(bob))
	if id, ok := w.Sess[w.Cur]; ok && id != m.from {
		return fmt.Sprintf("a message of identity %d was decrypted in a session of identity %d", m.from, id)
	}
	w.Sess[w.Cur] = m.from
	return ""
}

func (w *idw) emit(p *world.Party, to address.Address, from, dst int) string {
	pt := core.Bytes(6, w.cfg.seed, "pt", from, w.Ops_[fmt.Sprint("s", from)])
	typ, wire, err := p.Encrypt(to, pt)
	if err != nil {
		w.bad = true
		return ""
	}
	w.add(typ, wire, pt, from, dst)
	w.Msgs[len(w.Msgs)-1].base = string(p.CurrentBase(to))
	return ""
}

func (w *idw) add(typ message.CiphertextType, wire, pt []byte, from, to int) {
	d := core.Digest(wire)
	w.Msgs = append(w.Msgs, &imsg{id: fmt.Sprintf("%d%d.%x", from, to, d[:4]), from: from, to: to, typ: typ, wire: wire, pt: pt})
}

func c07(r *core.Run) {
	for _, c := range []struct {
		policy string
		mem    bool
		max    map[string]int
		q, t   int
	}{
		{"tofu", false, map[string]int{"G": 1, "E": 1, "s": 2, "S": 2, "T": 2, "F": 0}, 7, 9},
		{"tofu", false, map[string]int{"G": 1, "E": 1, "s": 1, "S": 1, "T": 1, "F": 1}, 8, 10},
		{"tofu", true, map[string]int{"G": 2, "E": 1, "s": 1, "S": 2, "T": 1}, 8, 9},
		{"all", false, map[string]int{"G": 1, "E": 1, "s": 1, "S": 2, "T": 1}, 7, 9},
		{"deny-sending", false, map[string]int{"G": 1, "E": 1, "s": 2, "S": 1, "T": 1}, 8, 9},
		{"deny-receiving", false, map[string]int{"G": 1, "E": 1, "s": 1, "S": 2, "T": 1}, 8, 9},
		{"only-1", false, map[string]int{"G": 1, "E": 1, "s": 1, "S": 1, "T": 1}, 8, 9},
	} {
		cfg := &idCfg{seed: r.Seed, mem: c.mem, policy: c.policy, max: c.max}
		r.Explore(core.Space{Name: fmt.Sprintf("%s mem=%v %v", c.policy, c.mem, c.max), Depth: core.Pick(r, c.q, c.t), Root: func() core.Node { return newIDW(r, cfg) }})
	}
}
