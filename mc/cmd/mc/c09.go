package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C09", "model_checking", c09) }

// fmsg is a message in flight.
type fmsg struct {
	id   string
	to   int
	typ  message.CiphertextType
	wire []byte
	used bool
}

// hdr is what one device has sent in one chain.
type hdr struct {
	n     uint32 // next expected counter
	slack uint32 // sends that failed after they were stored
}

// fresh is a conversation in which operations may fail; it remembers all headers.
type fresh struct {
	seed   int64
	mem    bool
	P      [2]*world.Party
	Msgs   []fmsg
	Chains [2]map[string]hdr
	Cipher map[string]bool
	Last   [2]string
	Sends  [2]int
	Inits  [2]int
	Faults int
	Xs     int
	max    struct{ send, init, fault, restart int }
	kinds  string
}

var c09pt = []byte("the same plaintext, longer than one block")

func newFresh(seed int64, mem bool) *fresh {
	w := &fresh{seed: seed, mem: mem, Cipher: map[string]bool{}}
	cfg := pcfg{Seed: seed, Mem: mem}
	p := newPair(&cfg)
	w.P = p.P
	w.Chains = [2]map[string]hdr{{}, {}}
	return w
}

func (w *fresh) Clone() core.Node { return w.clone() }

func (w *fresh) clone() *fresh {
	c := *w
	for p := 0; p < 2; p++ {
		c.P[p] = w.P[p].Clone()
		c.Chains[p] = map[string]hdr{}
		for k, v := range w.Chains[p] {
			c.Chains[p][k] = v
		}
	}
	c.Msgs = append([]fmsg(nil), w.Msgs...)
	c.Cipher = map[string]bool{}
	for k := range w.Cipher {
		c.Cipher[k] = true
	}
	return &c
}

func (w *fresh) Key() [32]byte {
	var ms []string
	for _, m := range w.Msgs {
		ms = append(ms, fmt.Sprint(m.id, m.used))
	}
	sort.Strings(ms)
	a, b := w.P[0].Digest(), w.P[1].Digest()
	return core.Digest(a[:], b[:], strings.Join(ms, ","), fmt.Sprint(w.Chains, w.Sends, w.Inits, w.Faults, w.Xs))
}

func (w *fresh) Check() string { return "" }

func (w *fresh) Ops() []string {
	var ops []string
	for p := 0; p < 2; p++ {
		if w.Inits[p] < w.max.init {
			ops = append(ops, fmt.Sprintf("I%d", p))
		}
		if w.Sends[p] < w.max.send && w.P[p].CurrentBase(w.P[1-p].Addr) != nil {
			ops = append(ops, fmt.Sprintf("S%d", p))
			ops = w.faults(ops, fmt.Sprintf("S%d", p))
		}
		if w.Xs < w.max.restart && w.P[p].CurrentBase(w.P[1-p].Addr) != nil {
			ops = append(ops, fmt.Sprintf("X%d", p))
		}
	}
	for _, m := range w.Msgs {
		if !m.used {
			op := fmt.Sprintf("R%d:%s", m.to, m.id)
			ops = append(ops, op)
			ops = w.faults(ops, op)
		}
	}
	return ops
}

// faults lists the faults of an operation: an error at each call, before or after
// its effect, and a crash after each write.
func (w *fresh) faults(ops []string, op string) []string {
	if w.Faults >= w.max.fault {
		return ops
	}
	c := w.clone()
	var calls []world.Call
	p := int(op[1] - '0')
	c.P[p].SetHook(func(x world.Call, post bool) error {
		if !post {
			calls = append(calls, x)
		}
		return nil
	})
	c.do(op)
	c.P[p].SetHook(nil)
	for i, x := range calls {
		ops = append(ops, fmt.Sprintf("%s/%d/error before", op, i))
		if x.Write() {
			ops = append(ops, fmt.Sprintf("%s/%d/error after", op, i), fmt.Sprintf("%s/%d/crash after", op, i))
		}
	}
	return ops
}

// do performs an operation without judging it.
func (w *fresh) do(op string) (typ message.CiphertextType, wire []byte, err error) {
	p := int(op[1] - '0')
	if op[0] == 'S' {
		return w.P[p].Encrypt(w.P[1-p].Addr, append([]byte(nil), c09pt...))
	}
	for _, m := range w.Msgs {
		if m.id == op[3:] {
			_, err = w.P[p].Decrypt(w.P[1-p].Addr, m.typ, m.wire)
		}
	}
	return
}

func (w *fresh) Apply(op string) string {
	p := int(op[1] - '0')
	q := 1 - p
	f := fault{at: -1}
	if i := strings.Index(op, "/"); i > 0 {
		parts := strings.Split(op[i+1:], "/")
		fmt.Sscan(parts[0], &f.at)
		f.mode = parts[1]
		op = op[:i]
		w.Faults++
	}
	switch op[0] {
	case 'I':
		w.Inits[p]++
		var id *prekey.ID
		if w.Inits[p] == 1 {
			n := prekey.ID(100)
			id = &n
			w.P[q].AddPre(n)
		}
		w.P[p].ProcessBundle(w.P[q].Addr, w.P[q].Bundle(signedID, id))
	case 'X':
		w.Xs++
		w.P[p].Restart(w.P[q].Addr)
	case 'R':
		e := withFault(w.P[p], f, func() (err error) { _, _, err = w.do(op); return })
		for i := range w.Msgs {
			if w.Msgs[i].id == op[3:] && e.err == nil && !e.crashed {
				w.Msgs[i].used = true
			}
		}
	case 'S':
		w.Sends[p]++
		var typ message.CiphertextType
		var wire []byte
		e := withFault(w.P[p], f, func() (err error) { typ, wire, err = w.do(op); return })
		if e.crashed || e.err != nil {
			if !e.crashed && strings.HasPrefix(e.err.Error(), "LEAK") {
				return e.err.Error()
			}
			if e.persisted && w.Last[p] != "" {
				h := w.Chains[p][w.Last[p]]
				h.slack++
				w.Chains[p][w.Last[p]] = h
			}
			if e.persisted {
				// The chain may be a new one: its first counters may be missing.
				h := w.Chains[p]["any"]
				h.slack++
				w.Chains[p]["any"] = h
			}
			return ""
		}
		return w.sent(p, typ, wire)
	}
	return ""
}

func (w *fresh) sent(p int, typ message.CiphertextType, wire []byte) string {
	inner := wire
	if typ == message.PreKeyType {
		f, err := ref.ParsePreKey(wire)
		if err != nil {
			return ""
		}
		inner = f.Message
	}
	f, err := ref.ParseSignal(inner)
	if err != nil {
		return ""
	}
	if k := string(f.Cipher); w.Cipher[k] {
		return fmt.Sprintf("%s sent two messages with the same ciphertext (counter %d): a message key was used twice", party[p], f.N)
	} else {
		w.Cipher[k] = true
	}
	chain := string(f.Ratchet)
	if _, ok := w.Chains[1-p][chain]; ok {
		return fmt.Sprintf("%s sent with a ratchet key of its peer", party[p])
	}
	h, known := w.Chains[p][chain]
	slack := w.Chains[p]["any"].slack
	switch {
	case known && f.N < h.n:
		return fmt.Sprintf("%s sent a second message with counter %d of the same chain (next unused: %d)", party[p], f.N, h.n)
	case f.N > h.n+slack:
		return fmt.Sprintf("%s sent counter %d of a chain, expected %d", party[p], f.N, h.n)
	}
	w.Chains[p][chain] = hdr{n: f.N + 1}
	w.Last[p] = chain
	d := core.Digest(wire)
	w.Msgs = append(w.Msgs, fmsg{id: fmt.Sprintf("%x", d[:4]), to: 1 - p, typ: typ, wire: wire})
	return ""
}

func (w *fresh) run(script string) *fresh {
	for _, op := range strings.Fields(script) {
		if op[0] == 'r' {
			p := int(op[1] - '0')
			for i := len(w.Msgs) - 1; i >= 0; i-- {
				if m := w.Msgs[i]; m.to == p && !m.used {
					w.Apply(fmt.Sprintf("R%d:%s", p, m.id))
					break
				}
			}
			continue
		}
		w.Apply(op)
	}
	w.Sends, w.Inits, w.Faults, w.Xs = [2]int{}, [2]int{1, 1}, 0, 0
	if script == "" {
		w.Inits = [2]int{}
	}
	return w
}

func c09(r *core.Run) {
	r.Assume("the application's stores are not rolled back to an earlier state")
	for _, s := range []struct {
		script                     string
		send, init, fault, restart int
		mem                        bool
		q, t                       int
	}{
		{"", 3, 1, 0, 0, false, 8, 9},
		{"", 2, 1, 1, 0, false, 6, 7},
		{"I0 S0 r1 S1 r0", 4, 2, 0, 1, true, 6, 8},
		{"I0 S0 r1 S1 r0", 3, 1, 2, 0, false, 5, 6},
		{"I0 S0 r1 S1 r0", 2, 2, 1, 1, true, 4, 6},
		{"I0 S0 S0 r1 S1 S1 r0 S0 r1", 3, 1, 1, 1, false, 5, 6},
		{"I0 I1 S0 S1", 2, 2, 1, 0, false, 4, 6},
		{"I0 I1 S0 S1 r0 r1", 3, 2, 1, 1, true, 4, 6},
		{"I0 S0 r1 S1 I1 S1 r0 S0 S1", 2, 2, 1, 1, false, 4, 5},
	} {
		r.Explore(core.Space{Name: fmt.Sprintf("[%s] faults=%d restarts=%d mem=%v", s.script, s.fault, s.restart, s.mem), Depth: core.Pick(r, s.q, s.t), Root: func() core.Node {
			w := newFresh(r.Seed, s.mem).run(s.script)
			w.max.send, w.max.init, w.max.fault, w.max.restart = s.send, s.init, s.fault, s.restart
			return w
		}})
	}
	// Long chains.
	r.Case("long chain", func() any { return "1500 sends by each side with replies between" }, func() string {
		w := newFresh(r.Seed, false).run("I0 S0 r1 S1 r0")
		for i := 0; i < 1500; i++ {
			for p := 0; p < 2; p++ {
				if x := w.Apply(fmt.Sprintf("S%d", p)); x != "" {
					return fmt.Sprintf("send %d: %s", i, x)
				}
				w.Msgs = w.Msgs[len(w.Msgs)-1:]
				if i%97 == p*31 {
					w.run(fmt.Sprintf("r%d", 1-p))
				}
			}
		}
		return ""
	})
	// The counters on the wire are consecutive on every chain.
	longPairs(r, "", nil, longPats(r), func(c *pcfg) {
		next := map[string]uint32{}
		c.OnSend = func(w *pair, p int, m *pmsg) string {
			k := fmt.Sprint(p, m.Sess, m.Chain)
			if m.N != next[k] {
				return fmt.Sprintf("party %s sent counter %d on a chain whose next is %d", party[p], m.N, next[k])
			}
			next[k] = m.N + 1
			return ""
		}
	}, nil)
	groupFresh(r)
	marathonPairs(r, mHeader)
	marathonGroups(r, mHeader)
}

// ---- groups ----

type gfresh struct {
	*gw
	Next   map[string]hdr // per chain
	Cipher map[string]bool
	Faults int
	maxF   int
}

func (w *gfresh) Clone() core.Node {
	c := &gfresh{gw: w.gw.clone(), Next: map[string]hdr{}, Cipher: map[string]bool{}, Faults: w.Faults, maxF: w.maxF}
	for k, v := range w.Next {
		c.Next[k] = v
	}
	for k := range w.Cipher {
		c.Cipher[k] = true
	}
	return c
}

func (w *gfresh) Key() [32]byte {
	k := w.gw.Key()
	return core.Digest(k[:], fmt.Sprint(w.Next, w.Faults))
}

func (w *gfresh) Ops() []string {
	var ops []string
	for _, op := range w.gw.Ops() {
		ops = append(ops, op)
		if op[0] != 'S' && op[0] != 'N' || w.Faults >= w.maxF {
			continue
		}
		c := w.gw.clone()
		f := c.faultOp(op)
		var calls []world.Call
		f.party.SetHook(func(x world.Call, post bool) error {
			if !post {
				calls = append(calls, x)
			}
			return nil
		})
		f.run()
		f.party.SetHook(nil)
		for i, x := range calls {
			ops = append(ops, fmt.Sprintf("%s/%d/error before", op, i))
			if x.Write() {
				ops = append(ops, fmt.Sprintf("%s/%d/error after", op, i), fmt.Sprintf("%s/%d/crash after", op, i))
			}
		}
	}
	return ops
}

func (w *gfresh) Apply(op string) string {
	f := fault{at: -1}
	if i := strings.Index(op, "/"); i > 0 {
		parts := strings.Split(op[i+1:], "/")
		fmt.Sscan(parts[0], &f.at)
		f.mode = parts[1]
		op = op[:i]
		w.Faults++
	}
	if op[0] != 'S' {
		if f.at >= 0 {
			o := w.gw.faultOp(op)
			withFault(o.party, f, func() (err error) { _, err = o.run(); return })
			return ""
		}
		return w.gw.Apply(op)
	}
	var s, d int
	fmt.Sscanf(op, "S %d %d", &s, &d)
	w.Sent[[2]int{s, d}]++
	var wire []byte
	e := withFault(w.P[s], f, func() (err error) { wire, err = w.P[s].GroupEncrypt(gdistID(d), append([]byte(nil), c09pt...)); return })
	if e.crashed || e.err != nil {
		if !e.crashed && strings.HasPrefix(e.err.Error(), "LEAK") {
			return e.err.Error()
		}
		if e.persisted {
			h := w.Next["any"]
			h.slack++
			w.Next["any"] = h
		}
		return ""
	}
	x, err := ref.ParseSenderKey(wire)
	if err != nil {
		return ""
	}
	if w.Cipher[string(x.Cipher)] {
		return fmt.Sprintf("two group messages have the same ciphertext (iteration %d): a message key was used twice", x.N)
	}
	w.Cipher[string(x.Cipher)] = true
	k := fmt.Sprint(s, d, x.ChainID)
	h := w.Next[k]
	if x.N < h.n {
		return fmt.Sprintf("iteration %d of a chain was sent twice", x.N)
	}
	if x.N > h.n+w.Next["any"].slack {
		return fmt.Sprintf("iteration %d of a chain was sent, expected %d", x.N, h.n)
	}
	w.Next[k] = hdr{n: x.N + 1}
	return ""
}

func groupFresh(r *core.Run) {
	for _, s := range []struct {
		script string
		gcfg
		faults int
		q, t   int
	}{
		{"", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 5, maxDist: 3, rekey: 2}, 2, 8, 9},
		{"", gcfg{n: 2, senders: []int{0, 1}, dists: 2, maxSend: 3, maxDist: 1}, 1, 6, 7},
		{"", gcfg{n: 2, senders: []int{0, 1}, dists: 1, maxSend: 3, maxDist: 2, mem: true}, 2, 6, 7},
	} {
		cfg := s.gcfg
		cfg.seed = r.Seed
		script, faults := s.script, s.faults
		r.Explore(core.Space{Name: fmt.Sprintf("group senders=%v groups=%d faults=%d mem=%v", cfg.senders, cfg.dists, faults, cfg.mem), Depth: core.Pick(r, s.q, s.t), Root: func() core.Node {
			c := cfg
			return &gfresh{gw: newGW(&c).run(script), Next: map[string]hdr{}, Cipher: map[string]bool{}, maxF: faults}
		}})
	}
}
