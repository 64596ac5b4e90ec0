package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/mc/core"
	"verif/mc/world"
)

func init() { register("C25", "model_checking", c25) }

// twin is a conversation and its double: in the double each device saves and
// restores its session after every step. Both must behave the same.
type twin struct {
	seed    int64
	mem     bool
	P, Q    [2]*world.Party
	Msgs    []*tmsg
	Archive [2]bool // archived sessions exist; they are not part of the serialised session
	Inits   [2]int
	Sent    [2]int
	maxInit [2]int
	maxSend [2]int
	auto    bool // restore after every step, not at chosen points
	Xs      int
	arch    int // archive operations of the double (C29)
	Arcs    int
	Off     [2]bool // the double has no current session
	Fail    string
}

type tmsg struct {
	id       string
	from     int
	typ      message.CiphertextType
	wire, pt []byte
	used     bool
}

func newTwin(seed int64, mem bool, sameName bool, maxInit, maxSend [2]int) *twin {
	w := &twin{seed: seed, mem: mem, maxInit: maxInit, maxSend: maxSend, auto: true}
	addr := [2]address.Address{{Name: "+14151111111", DeviceID: 1}, {Name: "+14151111112", DeviceID: 7}}
	ids := party
	if sameName {
		addr[1].Name, ids[1] = addr[0].Name, ids[0]
	}
	u := &world.Universe{Addrs: addr[:], Signed: []prekey.ID{signedID}}
	for i := 0; i < 20; i++ {
		u.Pre = append(u.Pre, prekey.ID(100+i))
	}
	for p := range w.P {
		w.P[p] = world.NewParty(seed, party[p], ids[p], addr[p], uint32(0xfffffff0+p), u, mem)
		w.P[p].AddSigned(signedID)
		for i := 0; i < 8; i++ {
			w.P[p].AddPre(prekey.ID(100 + i))
		}
		w.Q[p] = w.P[p].Clone()
	}
	return w
}

func (w *twin) Clone() core.Node { return w.clone() }

func (w *twin) clone() *twin {
	c := *w
	for p := range w.P {
		c.P[p], c.Q[p] = w.P[p].Clone(), w.Q[p].Clone()
	}
	c.Msgs = append([]*tmsg(nil), w.Msgs...)
	return &c
}

func (w *twin) Key() [32]byte {
	var ms []string
	for _, m := range w.Msgs {
		ms = append(ms, fmt.Sprint(m.id, m.used))
	}
	return core.Digest(w.P[0].Digest(), w.P[1].Digest(), w.Q[0].Digest(), w.Q[1].Digest(), strings.Join(ms, ","), fmt.Sprint(w.Archive, w.Inits, w.Sent, w.Xs, w.Arcs, w.Off))
}

func (w *twin) Ops() []string {
	var ops []string
	for p := range w.P {
		if w.Inits[p] < w.maxInit[p] {
			ops = append(ops, fmt.Sprintf("I%do", p), fmt.Sprintf("I%dn", p))
		}
		if w.Sent[p] < w.maxSend[p] {
			ops = append(ops, fmt.Sprintf("S%d", p))
		}
		if w.Arcs < w.arch && (w.Inits[p] > 0 || len(w.Msgs) > 0) {
			ops = append(ops, fmt.Sprintf("V%d", p))
		}
		if w.arch == 0 && !w.auto && w.Xs < 2 && !w.Archive[p] {
			ops = append(ops, fmt.Sprintf("X%d", p))
		}
	}
	for _, m := range w.Msgs {
		if !m.used {
			ops = append(ops, "R:"+m.id)
		}
	}
	return ops
}

// both runs an operation of a device in both worlds and compares what it does.
func (w *twin) both(p int, label string, f func(q *world.Party, rnd func() io.Reader) (message.CiphertextType, []byte, error)) (message.CiphertextType, []byte, error, string) {
	d := w.P[p].Digest()
	rnd := func() io.Reader {
		prf := core.NewPRF(w.seed, "twin", label, d)
		if w.arch > 0 && label[0] == 'R' {
			// The number of sessions tried before the right one differs: every one gets the same bytes.
			return &flipReader{b: core.Bytes(32, w.seed, "twin", label, d), flip: -1}
		}
		return prf
	}
	had := w.P[p].CurrentBase(w.peer(p))
	t1, b1, e1 := f(w.P[p], rnd)
	t2, b2, e2 := f(w.Q[p], rnd)
	w.P[p].Touched()
	w.Q[p].Touched()
	if (e1 == nil) != (e2 == nil) {
		return t1, b1, e1, fmt.Sprintf("%s: without %s the result is %v, with it %v", label, w.what(), okErr(e1), okErr(e2))
	}
	if e1 == nil && (t1 != t2 || !bytes.Equal(b1, b2)) {
		return t1, b1, e1, fmt.Sprintf("%s: the result differs with %s: %d %x, %d %x", label, w.what(), t1, clip(b1), t2, clip(b2))
	}
	if now := w.P[p].CurrentBase(w.peer(p)); had != nil && !bytes.Equal(had, now) {
		w.Archive[p] = true
	}
	if w.auto && !w.Archive[p] {
		if err := w.Q[p].Restart(w.peer(p)); err != nil {
			return t1, b1, e1, fmt.Sprintf("%s: the session cannot be restored: %v", label, err)
		}
	}
	return t1, b1, e1, ""
}

// what the double does that the original does not.
func (w *twin) what() string {
	if w.arch > 0 {
		return "archiving"
	}
	return "saving and restoring"
}

func okErr(err error) string {
	if err == nil {
		return "success"
	}
	return fmt.Sprintf("an error (%v)", err)
}

func (w *twin) peer(p int) address.Address { return w.P[1-p].Addr }

func (w *twin) Apply(op string) string {
	switch op[0] {
	case 'I':
		p := int(op[1] - '0')
		var pre *prekey.ID
		if op[2] == 'o' {
			id := prekey.ID(100 + w.Inits[p])
			pre = &id
		}
		w.Inits[p]++
		b := w.P[1-p].Bundle(signedID, pre)
		_, _, _, res := w.both(p, op, func(q *world.Party, rnd func() io.Reader) (message.CiphertextType, []byte, error) {
			err := world.Protect(func() error { return q.Session(w.peer(p)).ProcessPreKeyBundle(world.Ctx, rnd(), b) })
			return 0, nil, err
		})
		w.Off[p] = false
		return res
	case 'S':
		p := int(op[1] - '0')
		w.Sent[p]++
		d := w.P[p].Digest()
		if w.Off[p] {
			before := w.Q[p].Digest()
			if _, wire, err := w.Q[p].Encrypt(w.peer(p), []byte("text")); err == nil {
				return fmt.Sprintf("a message was sent in an archived session: %x", clip(wire))
			} else if world.IsPanic(err) {
				return fmt.Sprintf("sending in an archived session: %v", err)
			}
			if w.Q[p].Digest() != before {
				return "a refused attempt to send changed the stored state"
			}
			return ""
		}
		pt := core.Bytes(6, w.seed, "twin text", p, w.Sent[p], d)
		typ, wire, err, res := w.both(p, op, func(q *world.Party, _ func() io.Reader) (message.CiphertextType, []byte, error) {
			return q.Encrypt(w.peer(p), pt)
		})
		if res == "" && err == nil {
			dg := core.Digest(wire)
			w.Msgs = append(w.Msgs, &tmsg{id: fmt.Sprintf("%d%x", p, dg[:4]), from: p, typ: typ, wire: wire, pt: pt})
		}
		return res
	case 'V':
		p := int(op[1] - '0')
		w.Arcs++
		before := w.Q[p].Digest()
		none := w.Q[p].CurrentBase(w.peer(p)) == nil
		if err := w.Q[p].Archive(w.peer(p)); err != nil {
			return fmt.Sprintf("archiving: %v", err)
		}
		if w.Q[p].CurrentBase(w.peer(p)) != nil {
			return "there is a current session after archiving it"
		}
		if none && w.Q[p].Digest() != before {
			return "archiving without a current session changed the stored state"
		}
		w.Off[p] = true
		return ""
	case 'X':
		p := int(op[1] - '0')
		w.Xs++
		if err := w.Q[p].Restart(w.peer(p)); err != nil {
			return fmt.Sprintf("the session cannot be restored: %v", err)
		}
		return ""
	case 'R':
		for i, m := range w.Msgs {
			if m.id != op[2:] {
				continue
			}
			_, _, err, res := w.both(1-m.from, op, func(q *world.Party, rnd func() io.Reader) (message.CiphertextType, []byte, error) {
				pt, err := q.DecryptWith(w.P[m.from].Addr, m.typ, m.wire, rnd())
				return 0, pt, err
			})
			if err == nil {
				c := *m
				c.used = true
				w.Msgs[i] = &c
				w.Off[1-m.from] = false
			}
			return res
		}
	}
	panic(op)
}

// Check offers every message, consumed or not, and altered ones, to copies of both.
func (w *twin) Check() string {
	if w.Fail != "" {
		return w.Fail
	}
	for _, m := range w.Msgs {
		p := 1 - m.from
		for v, wire := range [][]byte{m.wire, alter(m.wire)} {
			if v == 1 && m != w.Msgs[len(w.Msgs)-1] {
				continue
			}
			a, b := w.P[p].Clone(), w.Q[p].Clone()
			rnd := func() *core.PRF { return core.NewPRF(w.seed, "twin check", m.id) }
			pa, ea := a.DecryptWith(w.P[m.from].Addr, m.typ, wire, rnd())
			pb, eb := b.DecryptWith(w.P[m.from].Addr, m.typ, wire, rnd())
			if (ea == nil) != (eb == nil) || !bytes.Equal(pa, pb) {
				return fmt.Sprintf("message %s (read before: %v, altered: %v): without %s %v, with it %v", m.id, m.used, v == 1, w.what(), okErr(ea), okErr(eb))
			}
		}
	}
	return ""
}

func alter(b []byte) []byte {
	c := append([]byte(nil), b...)
	c[len(c)-1] ^= 1
	return c
}

func (w *twin) run(script string) *twin {
	for _, op := range strings.Fields(script) {
		var res string
		if op == "r" || op == "rr" {
			for i := range w.Msgs {
				j := i
				if op == "rr" {
					j = len(w.Msgs) - 1 - i
				}
				if !w.Msgs[j].used && res == "" {
					res = w.Apply("R:" + w.Msgs[j].id)
				}
			}
		} else {
			res = w.Apply(op)
		}
		if res != "" {
			w.Fail = "in the prefix " + script + ": " + res
			return w
		}
	}
	w.Inits, w.Sent, w.Arcs = [2]int{4, 4}, [2]int{}, 0
	w.maxInit = [2]int{w.maxInit[0] + 4, w.maxInit[1] + 4}
	return w
}

func c25(r *core.Run) {
	for _, s := range []struct {
		script string
		mem    bool
		same   bool
		mi, ms [2]int
		q, t   int
	}{
		{"", false, false, [2]int{1, 1}, [2]int{3, 3}, 7, 8},
		{"", true, false, [2]int{1, 0}, [2]int{3, 3}, 8, 9},
		{"I0o S0 r S1 r", false, false, [2]int{}, [2]int{4, 4}, 9, 10},
		{"I0n S0 r S1 S1 rr S0 S0 S0 rr S1", true, false, [2]int{}, [2]int{3, 3}, 8, 9},
		{"I0n S0 r S1 r S0 r S1 r S0 r S1 r S0 S0 r S1 r S0 r S1 r", false, false, [2]int{}, [2]int{3, 3}, 7, 8},
		{"I0o S0 S0 rr S1 r", false, true, [2]int{}, [2]int{3, 3}, 7, 8},
		{"I0o S0 r S1 r", false, false, [2]int{1, 1}, [2]int{2, 2}, 6, 7},
	} {
		s := s
		r.Explore(core.Space{Name: fmt.Sprintf("always restored from [%s] mem=%v same name=%v", s.script, s.mem, s.same), Depth: core.Pick(r, s.q, s.t), Root: func() core.Node {
			return newTwin(r.Seed, s.mem, s.same, s.mi, s.ms).run(s.script)
		}})
	}
	// A restore at any one or two points only.
	for _, s := range []struct {
		script string
		q, t   int
	}{{"", 7, 9}, {"I0o S0 r S1 r", 7, 8}, {"I1n S1 S1 rr S0 S0", 6, 7}} {
		s := s
		r.Explore(core.Space{Name: "restored at any two points from [" + s.script + "]", Depth: core.Pick(r, s.q, s.t), Root: func() core.Node {
			mi := [2]int{}
			if s.script == "" {
				mi[0] = 1
			}
			w := newTwin(r.Seed, false, false, mi, [2]int{3, 3})
			w.auto = false
			return w.run(s.script)
		}})
	}
	// Long conversations restored at the end of every turn.
	var ps []longPat
	for _, p := range longPats(r) {
		if p.Reinit == 0 {
			ps = append(ps, p)
		}
	}
	longPairs(r, "deliver send restart session type", nil, ps, nil, func(w *pair, p longPat, turn int) string {
		for k := 0; k < 2; k++ {
			if w.Cur[k] != "" {
				if x := w.Apply(fmt.Sprintf("X%d", k)); x != "" || w.broken {
					return x
				}
			}
		}
		return ""
	})
	var cs []kase
	// Skipped messages survive, up to the limit.
	for _, n := range []int{1, 2, 17, 500, 1999, 2000} {
		for _, times := range []int{1, 3} {
			n, times := n, times
			cs = append(cs, kase{fmt.Sprintf("%d skipped messages, restored %d times", n, times), func() string { return restoreSkipped(r.Seed, n, times) }})
		}
	}
	// Every combination of identifiers of an unacknowledged session.
	vals := []uint32{0, 1, 127, 128, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	for _, reg := range vals {
		for _, signed := range vals {
			for k := -1; k < len(vals); k++ {
				reg, signed, k := reg, signed, k
				cs = append(cs, kase{fmt.Sprintf("registration %d, signed pre-key %d, one-time pre-key %d", reg, signed, k), func() string {
					var pre *prekey.ID
					if k >= 0 {
						id := prekey.ID(vals[k])
						pre = &id
					}
					return restorePending(r.Seed, reg, prekey.ID(signed), pre)
				}})
			}
		}
	}
	enumerate(r, "restored states", cs)
}

func restorePending(seed int64, reg uint32, signed prekey.ID, pre *prekey.ID) string {
	a, b := address.Address{Name: "a", DeviceID: 1}, address.Address{Name: "b", DeviceID: 1}
	u := &world.Universe{Addrs: []address.Address{a, b}, Signed: []prekey.ID{signed}}
	if pre != nil {
		u.Pre = []prekey.ID{*pre}
	}
	pa := world.NewParty(seed, "a", "a", a, reg, u, false)
	pb := world.NewParty(seed, "b", "b", b, reg, u, false)
	pb.AddSigned(signed)
	if pre != nil {
		pb.AddPre(*pre)
	}
	if err := pa.ProcessBundle(b, pb.Bundle(signed, pre)); err != nil {
		return ""
	}
	q := pa.Clone()
	for i := 0; i < 3; i++ {
		if err := q.Restart(b); err != nil {
			return fmt.Sprintf("not restorable: %v", err)
		}
		t1, w1, e1 := pa.Encrypt(b, []byte("hello"))
		t2, w2, e2 := q.Encrypt(b, []byte("hello"))
		if (e1 == nil) != (e2 == nil) || t1 != t2 || !bytes.Equal(w1, w2) {
			return fmt.Sprintf("message %d differs after restoring: %v, %v", i, e1, e2)
		}
	}
	return ""
}

func restoreSkipped(seed int64, n, times int) string {
	w := newTwin(seed, false, false, [2]int{}, [2]int{}).run("I0o S0 r S1 r")
	if w.Fail != "" {
		return ""
	}
	p, q := w.P[0], w.P[1]
	var ms [][]byte
	for i := 0; i <= n; i++ {
		_, wire, err := p.Encrypt(q.Addr, []byte(fmt.Sprint("m", i)))
		if err != nil {
			return ""
		}
		ms = append(ms, wire)
	}
	if _, err := q.Decrypt(p.Addr, message.WhisperType, ms[n]); err != nil {
		return ""
	}
	plain := q.Clone()
	for i := 0; i < times; i++ {
		if err := q.Restart(p.Addr); err != nil {
			return fmt.Sprintf("not restorable: %v", err)
		}
	}
	step := 1
	if n > 400 {
		step = n / 37
	}
	for i := 0; i < n; i += step {
		pa, ea := plain.Decrypt(p.Addr, message.WhisperType, ms[i])
		pb, eb := q.Decrypt(p.Addr, message.WhisperType, ms[i])
		if (ea == nil) != (eb == nil) || !bytes.Equal(pa, pb) {
			return fmt.Sprintf("skipped message %d of %d: without interruption %v, after restoring %v", i, n, okErr(ea), okErr(eb))
		}
		if i%(5*step) == 0 {
			if err := q.Restart(p.Addr); err != nil {
				return fmt.Sprintf("not restorable: %v", err)
			}
		}
	}
	return ""
}
