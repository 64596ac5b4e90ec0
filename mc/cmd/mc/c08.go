package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/RTann/libsignal-go/protocol/message"

	"verif/mc/core"
	"verif/mc/world"
)

func init() { register("C08", "model_checking", c08) }

// fault describes what happens at one call of an operation.
type fault struct {
	at   int
	mode string // error before, error after, crash before, crash after
}

var faultModes = []string{"error before", "error after", "crash before", "crash after"}

// faulty runs an operation of a party with a fault and reports how it ended.
type ended struct {
	fired     bool
	crashed   bool
	persisted bool // the session or group record was stored
	err       error
	call      world.Call
	calls     int
}

// withFault runs op with the party's calls under control; at < 0 only counts.
func withFault(p *world.Party, f fault, op func() error) (e ended) {
	p.SetHook(func(c world.Call, post bool) error {
		if !post {
			e.calls++
		}
		if post && c.Op == "Store" && (c.Store == "session" || c.Store == "group") {
			e.persisted = true
		}
		if e.calls-1 != f.at || post != strings.HasSuffix(f.mode, "after") {
			return nil
		}
		e.fired, e.call = true, c
		if f.mode[0] == 'c' {
			panic(world.Crash{})
		}
		return world.ErrFault
	})
	defer func() {
		p.SetHook(nil)
		p.Touched()
		if x := recover(); x != nil {
			if _, ok := x.(world.Crash); !ok {
				panic(x)
			}
			e.crashed = true
		}
	}()
	e.err = op()
	return
}

// faultOp is an operation that can be repeated.
type faultOp struct {
	name  string
	party *world.Party
	// run performs the operation and returns any output.
	run func() (out []byte, err error)
	// obj is the parsed message the operation is given, the same one each time.
	obj any
}

// left tells what a failed operation left of its input.
func (f faultOp) left() string {
	if f.obj == nil {
		return ""
	}
	return string(msgContent(f.obj))
}

// pairOp prepares an operation on a copy of the world.
func (w *pair) faultOp(op string) faultOp {
	p := int(op[1] - '0')
	q := 1 - p
	f := faultOp{name: op, party: w.P[p]}
	switch op[0] {
	case 'I':
		b := w.bundleFor(p, op[2])
		f.run = func() ([]byte, error) { return nil, w.P[p].ProcessBundle(w.addr(q), b) }
	case 'S':
		pt := []byte("fault " + op)
		f.run = func() ([]byte, error) { _, b, err := w.P[p].Encrypt(w.addr(q), pt); return b, err }
	case 'R':
		m := w.msg(op[3:])
		f.party = w.P[m.To]
		c, err := world.ParsePair(m.Typ, append([]byte(nil), m.Wire...))
		if err != nil {
			f.run = func() ([]byte, error) { return nil, err }
			break
		}
		f.obj = c
		f.run = func() ([]byte, error) { return w.P[m.To].DecryptObject(w.addr(m.From), c) }
	}
	return f
}

// judge checks how a faulted operation ended. before are the stored contents.
func judgeFault(f faultOp, e ended, out []byte, before map[string][32]byte, ft fault, trial bool, pin func() string) string {
	where := fmt.Sprintf("%s with %s at call %d (%v)", f.name, ft.mode, ft.at+1, e.call)
	if !e.fired {
		return ""
	}
	if !e.crashed {
		switch {
		case e.err == nil && trial && e.call.Store == "random":
		case e.err == nil:
			return where + ": the operation reported success"
		case world.IsPanic(e.err):
			return where + ": " + e.err.Error()
		case strings.HasPrefix(e.err.Error(), "LEAK"):
			return where + ": " + e.err.Error()
		case len(out) != 0 && e.err != nil:
			return where + ": output was returned together with the error"
		}
	}
	if !e.persisted {
		for _, d := range world.Diff(before, f.party.Contents()) {
			if !strings.HasPrefix(d[1:], "identity ") {
				return fmt.Sprintf("%s: %s was persisted before the session was", where, d)
			}
			if x := pin(); x != "" {
				return where + ": " + x
			}
		}
	}
	return ""
}

// pinned checks that what a party remembers about its peer is the peer's key.
func (w *pair) pinned(p int) string {
	k, ok, _ := w.P[p].Ident().Load(world.Ctx, w.addr(1-p))
	if ok && !bytes.Equal(k.Bytes(), w.P[1-p].KP.IdentityKey().Bytes()) {
		return "a wrong identity key was remembered"
	}
	if !ok {
		return "a remembered identity key was lost"
	}
	return ""
}

// works checks that a conversation goes on: every pending message is readable and
// both directions work.
func (w *pair) works() string {
	c := w.clone()
	cfg := *c.cfg
	cfg.Kinds, cfg.OnSend, cfg.OnRecv = "deliver send init", nil, nil
	c.cfg = &cfg
	for i := 0; i < len(c.Msgs); i++ {
		if m := c.Msgs[i]; c.deliverable(m) {
			if x := c.recv(m); x != "" || c.broken {
				return "pending message: " + x
			}
		}
	}
	for round := 0; round < 2; round++ {
		for p := 0; p < 2; p++ {
			if c.Cur[p] == "" {
				continue
			}
			m, x := c.sendPT(p, []byte{byte(round), byte(p)})
			if x != "" || c.broken {
				return "afterwards: " + x
			}
			if c.deliverable(m) {
				if x := c.recv(m); x != "" || c.broken {
					return "afterwards: " + x
				}
			}
		}
	}
	return ""
}

// faultAll enumerates the faults of one operation in a state.
func (w *pair) faultAll(r *core.Run, op string, double bool) string {
	p := int(op[1] - '0')
	// The operation without a fault, and the model afterwards.
	after := w.clone()
	f := after.faultOp(op)
	var want []byte
	base := withFault(f.party, fault{at: -1}, func() (err error) { want, err = f.run(); return })
	if base.err != nil {
		return "" // not expected to work here; other properties judge that
	}
	model := w.clone()
	quiet := *w.cfg
	quiet.Kinds = ""
	model.cfg = &quiet
	if op[0] == 'R' {
		model.Apply(op)
	}
	if model.broken {
		return ""
	}
	// Only judge what works without faults.
	control := model
	if op[0] == 'I' {
		control = w.clone()
		control.cfg = &quiet
		control.Apply(op)
	}
	if control.works() != "" {
		return ""
	}
	contents := w.clone().faultOp(op).party.Contents()
	memo := map[string]string{}
	var settle1 func(c *pair, g faultOp, e ended, where string) string
	settle := func(c *pair, g faultOp, e ended, where string) string {
		a, b := c.P[0].Digest(), c.P[1].Digest()
		k := fmt.Sprintf("%x%x%v%s", a, b, e.persisted, g.left())
		if x, ok := memo[k]; ok {
			return x
		}
		x := settle1(c, g, e, where)
		memo[k] = x
		return x
	}
	settle1 = func(c *pair, g faultOp, e ended, where string) string {
		// Repeat the operation without a fault.
		out, err := g.run()
		r.Transitions.Add(1)
		switch {
		case err == nil && op[0] == 'R':
			if !bytes.Equal(out, want) {
				return where + ": repeating it gave another result"
			}
		case err != nil && world.IsPanic(err):
			return where + ": repeating it: " + err.Error()
		case err != nil && !(op[0] == 'R' && e.persisted):
			return where + ": repeating it failed: " + err.Error()
		}
		m := model.clone()
		if op[0] == 'I' {
			// The model of a fresh initiation over the stores as they are.
			m.P[p], m.P[1-p] = c.P[p], c.P[1-p]
			m.Cur[p] = "again"
			m.Sess["again"] = &psess{Init: p, Pre: preOf(op[2]), Pending: true, Base: c.P[p].CurrentBase(c.addr(1 - p)), Known: known(p), Evicted: map[string]bool{}}
			m.Sess["again"].Chains[p] = []string{"signed pre-key"}
			if n := preOf(op[2]); n >= 0 {
				m.Pre[1-p][n] = true
			}
		} else {
			m.P[0], m.P[1] = c.P[0], c.P[1]
			if op[0] == 'S' {
				// What the repeated operation produced is readable too.
				typ := msgType(out)
				x := c.P[1-p].Clone()
				pt, err := x.Decrypt(c.addr(p), typ, out)
				s := m.Sess[m.Cur[p]]
				if (s.Known[1-p] || typ == message.PreKeyType && (s.Pre < 0 || m.Pre[1-p][s.Pre])) && (err != nil || string(pt) != "fault "+op) {
					return fmt.Sprintf("%s: the message produced by repeating it is unreadable: %v", where, err)
				}
			}
		}
		if x := m.works(); x != "" {
			return where + ": " + x
		}
		return ""
	}
	trial := false
	if op[0] == 'R' {
		// The message is first tried with the current session, which is not its own.
		m := w.msg(op[3:])
		trial = w.Cur[m.To] != "" && w.Cur[m.To] != m.Sess
	}
	for k := 0; k < base.calls; k++ {
		for _, mode := range faultModes {
			ft := fault{k, mode}
			c := w.clone()
			g := c.faultOp(op)
			var out []byte
			e := withFault(g.party, ft, func() (err error) { out, err = g.run(); return })
			r.Transitions.Add(1)
			r.Evals.Add(1)
			where := fmt.Sprintf("%s with %s at call %d (%v)", op, mode, k+1, e.call)
			if x := judgeFault(g, e, out, contents, ft, trial, func() string { return c.pinned(who(w, op)) }); x != "" {
				return x
			}
			if e.err == nil && !e.crashed && e.fired {
				// A trial decryption with another session than the message's own failed; the result stands.
				if !bytes.Equal(out, want) {
					return where + ": another result"
				}
				m := model.clone()
				m.P[0], m.P[1] = c.P[0], c.P[1]
				if x := m.works(); x != "" {
					return where + ": " + x
				}
				continue
			}
			if !double || op[0] == 'I' && !r.Thorough() || len(world.Diff(contents, g.party.Contents())) == 0 {
				if x := settle(c, g, e, where); x != "" {
					return x
				}
				continue
			}
			again := g.party.Contents()
			for k2 := 0; k2 < base.calls; k2++ {
				for _, mode2 := range faultModes {
					c2 := c.clone()
					g2 := c2.faultOp(op)
					ft2 := fault{k2, mode2}
					var out2 []byte
					e2 := withFault(g2.party, ft2, func() (err error) { out2, err = g2.run(); return })
					r.Evals.Add(1)
					r.Transitions.Add(1)
					if !e2.fired {
						continue
					}
					if x := judgeFault(g2, e2, out2, again, ft2, trial, func() string { return c2.pinned(who(w, op)) }); x != "" {
						return where + "; then " + x
					}
					e2.persisted = e2.persisted || e.persisted
					if e2.err == nil && !e2.crashed {
						continue
					}
					if x := settle(c2, g2, e2, fmt.Sprintf("%s; then %s at call %d (%v)", where, mode2, k2+1, e2.call)); x != "" {
						return x
					}
				}
			}
		}
	}
	// A random source that delivers less than was asked for is not a failure.
	c := w.clone()
	g := c.faultOp(op)
	g.party.ShortReads = true
	out, err := g.run()
	g.party.ShortReads = false
	r.Evals.Add(1)
	if err != nil || !bytes.Equal(out, want) {
		return fmt.Sprintf("%s with a random source that returns one byte at a time: %v", op, err)
	}
	if d := world.Diff(f.party.Contents(), g.party.Contents()); len(d) > 0 {
		return fmt.Sprintf("%s with a random source that returns one byte at a time ends in another state: %v", op, d)
	}
	return ""
}

func who(w *pair, op string) int { return int(op[1] - '0') }

func known(p int) (k [2]bool) { k[p] = true; return }

func preOf(mode byte) int {
	if mode == 'o' {
		return faultPre
	}
	return -1
}

func msgType(wire []byte) message.CiphertextType {
	if _, err := message.NewPreKeyFromBytes(append([]byte(nil), wire...)); err == nil {
		return message.PreKeyType
	}
	return message.WhisperType
}

const faultPre = 159

func c08(r *core.Run) {
	r.Assume("a store call that fails has either taken full effect or none; a crash loses everything that was not stored")
	base := pcfg{Seed: r.Seed, Kinds: "", Modes: "on"}
	for _, s := range []struct {
		root string
		q, t int
	}{
		{"fresh", 4, 6}, {"initiated", 3, 4}, {"established", 3, 4}, {"established-none", 1, 3}, {"skipped", 2, 3}, {"ratcheted", 1, 3},
		{"full-chains", 1, 2}, {"crossed", 2, 4}, {"crossed-read", 1, 3}, {"reinit", 2, 3}, {"reinit-read", 2, 3}, {"three-sessions", 1, 3},
		{"I0o S0 r1 S1 V0 V1", 1, 3}, {"Z0", 2, 3},
	} {
		for _, mem := range []bool{false, true} {
			cfg := base
			cfg.Mem = mem
			cfg.MaxSend, cfg.MaxInit = [2]int{2, 2}, [2]int{1, 1}
			cfg.Check = func(w *pair) string {
				for _, op := range w.faultOps() {
					double := len(w.Msgs) > 0 && w.Sent == [2]int{} && w.Inits == w.Init0
					if x := w.faultAll(r, op, double); x != "" {
						return x
					}
				}
				return ""
			}
			d := core.Pick(r, s.q, s.t)
			if mem && d > 1 && !r.Thorough() {
				d--
			}
			r.Explore(pairSpace(s.root, cfg, d))
		}
	}
	groupFaults(r)
}

// faultOps lists the operations to which faults are applied in a state.
func (w *pair) faultOps() []string {
	ops := []string{"I0o", "I0n", "I1o"}
	for p := 0; p < 2; p++ {
		if w.Cur[p] != "" {
			ops = append(ops, fmt.Sprintf("S%d", p))
		}
	}
	for _, m := range w.Msgs {
		if w.deliverable(m) {
			ops = append(ops, fmt.Sprintf("R%d:%s", m.To, m.ID))
		}
	}
	return ops
}

func (w *gw) works() string {
	c := w.clone()
	cfg := *c.cfg
	cfg.kinds, cfg.onSend = "deliver send dist", nil
	c.cfg = &cfg
	pending := func() string {
		for m := range c.P {
			for _, x := range c.Msgs {
				if x.chain.sender != m && c.readable(m, x) {
					if s := c.recv(m, x); s != "" || c.bad {
						return fmt.Sprint("pending message: ", s)
					}
				}
			}
		}
		return ""
	}
	if s := pending(); s != "" {
		return s
	}
	for _, k := range []int{0, 1} {
		for d := 0; d < c.cfg.dists; d++ {
			if !c.Live[[2]int{k, d}] {
				continue
			}
			for round := 0; round < 2; round++ {
				if s := c.newDist(k, d); s != "" || c.bad {
					return "afterwards: " + s
				}
				for m := range c.P {
					if m != k {
						if s := c.process(m, c.Dists[len(c.Dists)-1]); s != "" || c.bad {
							return "afterwards: " + s
						}
					}
				}
				if _, s := c.send(k, d); s != "" || c.bad {
					return "afterwards: " + s
				}
				if s := pending(); s != "" {
					return "afterwards: " + s
				}
			}
		}
	}
	return ""
}

func (w *gw) faultOp(op string) faultOp {
	f := strings.Fields(op)
	i := int(f[1][0] - '0')
	o := faultOp{name: op, party: w.P[i]}
	switch f[0] {
	case "N":
		o.run = func() ([]byte, error) { return w.P[i].NewDist(gdistID(int(f[2][0] - '0'))) }
	case "S":
		o.run = func() ([]byte, error) { return w.P[i].GroupEncrypt(gdistID(int(f[2][0]-'0')), []byte("fault")) }
	case "D":
		d := w.dist(f[2])
		o.run = func() ([]byte, error) { return nil, w.P[i].GroupProcess(w.P[d.chain.sender].Addr, d.wire) }
	case "R":
		x := w.msg(f[2])
		m, err := message.NewSenderKeyFromBytes(append([]byte(nil), x.wire...))
		if err != nil {
			o.run = func() ([]byte, error) { return nil, err }
			break
		}
		o.obj = m
		o.run = func() ([]byte, error) { return w.P[i].GroupDecryptObject(w.P[x.chain.sender].Addr, m) }
	}
	return o
}

func (w *gw) faultAll(r *core.Run, op string, double bool) string {
	a := w.clone()
	f := a.faultOp(op)
	var want []byte
	base := withFault(f.party, fault{at: -1}, func() (err error) { want, err = f.run(); return })
	if base.err != nil {
		return ""
	}
	quiet := *w.cfg
	quiet.kinds = ""
	model := w.clone()
	model.cfg = &quiet
	model.Apply(op)
	if model.bad || model.works() != "" {
		return ""
	}
	if op[0] == 'S' || op[0] == 'N' {
		live := model.Live
		model = w.clone()
		model.cfg, model.Live = &quiet, live
	}
	contents := w.clone().faultOp(op).party.Contents()
	memo := map[string]string{}
	var settle1 func(c *gw, g faultOp, e ended, where string) string
	settle := func(c *gw, g faultOp, e ended, where string) string {
		d := g.party.Digest()
		k := fmt.Sprintf("%x%v%s", d, e.persisted, g.left())
		if x, ok := memo[k]; ok {
			return x
		}
		x := settle1(c, g, e, where)
		memo[k] = x
		return x
	}
	settle1 = func(c *gw, g faultOp, e ended, where string) string {
		out, err := g.run()
		switch {
		case err == nil && op[0] == 'R' && !bytes.Equal(out, want):
			return where + ": repeating it gave another result"
		case err != nil && world.IsPanic(err):
			return where + ": repeating it: " + err.Error()
		case err != nil && !(op[0] == 'R' && e.persisted):
			return where + ": repeating it failed: " + err.Error()
		}
		m := model.clone()
		m.P = c.P
		if x := m.works(); x != "" {
			return where + ": " + x
		}
		return ""
	}
	for k := 0; k < base.calls; k++ {
		for _, mode := range faultModes {
			ft := fault{k, mode}
			c := w.clone()
			g := c.faultOp(op)
			var out []byte
			e := withFault(g.party, ft, func() (err error) { out, err = g.run(); return })
			r.Transitions.Add(1)
			r.Evals.Add(1)
			where := fmt.Sprintf("%s with %s at call %d (%v)", op, mode, k+1, e.call)
			if x := judgeFault(g, e, out, contents, ft, false, func() string { return "an identity was stored by a group operation" }); x != "" {
				return x
			}
			if !double || len(world.Diff(contents, g.party.Contents())) == 0 {
				if x := settle(c, g, e, where); x != "" {
					return x
				}
				continue
			}
			again := g.party.Contents()
			for k2 := 0; k2 < base.calls; k2++ {
				for _, mode2 := range faultModes {
					c2 := c.clone()
					g2 := c2.faultOp(op)
					ft2 := fault{k2, mode2}
					var out2 []byte
					e2 := withFault(g2.party, ft2, func() (err error) { out2, err = g2.run(); return })
					r.Evals.Add(1)
					if !e2.fired {
						continue
					}
					if x := judgeFault(g2, e2, out2, again, ft2, false, func() string { return "an identity was stored by a group operation" }); x != "" {
						return where + "; then " + x
					}
					e2.persisted = e2.persisted || e.persisted
					if e2.err == nil && !e2.crashed {
						continue
					}
					if x := settle(c2, g2, e2, fmt.Sprintf("%s; then %s at call %d (%v)", where, mode2, k2+1, e2.call)); x != "" {
						return x
					}
				}
			}
		}
	}
	c := w.clone()
	g := c.faultOp(op)
	g.party.ShortReads = true
	out, err := g.run()
	g.party.ShortReads = false
	r.Evals.Add(1)
	if err != nil || !bytes.Equal(out, want) {
		return fmt.Sprintf("%s with a random source that returns one byte at a time: %v", op, err)
	}
	if d := world.Diff(f.party.Contents(), g.party.Contents()); len(d) > 0 {
		return fmt.Sprintf("%s with a random source that returns one byte at a time ends in another state: %v", op, d)
	}
	return ""
}

func groupFaults(r *core.Run) {
	check := func(w *gw) string {
		for _, op := range w.Ops() {
			if op[0] == 'K' {
				continue
			}
			if x := w.faultAll(r, op, len(w.Sent) == 0 && len(w.Msgs) > 0 || r.Thorough() && len(w.Msgs) < 2); x != "" {
				return x
			}
		}
		return ""
	}
	groupSpaces(r, "", check, []gspace{
		{"", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 3, maxDist: 2, again: true}, 6, 9},
		{"", gcfg{n: 3, senders: []int{0, 1}, dists: 1, maxSend: 2, maxDist: 2, mem: true}, 4, 6},
		{"N 0 0; D 1 0; S 0 0; S 0 0; S 0 0; R 1 2", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 2, maxDist: 3, again: true}, 3, 5},
		{"N 0 0; S 0 0; K 0 0; N 0 0; S 0 0; K 0 0; N 0 0; D 1 all; S 0 0", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 2, maxDist: 4, again: true}, 3, 5},
	})
}
