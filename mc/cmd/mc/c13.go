package main

import (
	"fmt"
	"reflect"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C13", "model_checking", c13) }

const (
	maxJump    = 25000
	maxSkipped = 2000
	maxChains  = 5
	maxArch    = 40
)

// limited is a library device talking to the reference implementation, which can be
// moved along its chains at will.
type limited struct {
	seed int64
	P    *world.Party
	them address.Address
	ID   ref.Identity
	S    *ref.Sess
	n    int
}

func newLimited(seed int64, self bool) *limited {
	addrs := []address.Address{{Name: "+14151111111", DeviceID: 1}, {Name: "+14151111112", DeviceID: 1}}
	ps := newParties(seed, false, addrs)
	l := &limited{seed: seed, P: ps[0], them: addrs[1]}
	priv := ref.Clamp(core.Bytes(32, seed, "reference identity"))
	if self {
		priv = l.P.KP.PrivateKey().Bytes()
	}
	l.ID = ref.Identity{Priv: priv, Pub: ref.Pub(priv), Reg: 77}
	return l
}

func (l *limited) clone() *limited {
	c := *l
	c.P = l.P.Clone()
	if l.S != nil {
		c.S = l.S.Clone()
	}
	return &c
}

func (l *limited) key(label string) []byte {
	l.n++
	return ref.Clamp(core.Bytes(32, l.seed, "reference key", label, l.n))
}

func must2[T any](v T, err error) T {
	if err != nil {
		panic(fmt.Sprintf("set-up: %v", err))
	}
	return v
}

// initiate lets the reference start a session with the library device.
func (l *limited) initiate() {
	l.S = must2(ref.Initiate(l.ID, ref.Bundle{Identity: l.P.KP.PublicKey().KeyBytes(), Signed: l.P.SignedKP(signedID).PublicKey().KeyBytes(), SignedID: uint32(signedID)}, l.key("base"), l.key("ratchet")))
	l.S.Reg = l.ID.Reg
}

// accept lets the library start a session with the reference.
func (l *limited) accept() error {
	signed := l.key("signed")
	sig := ref.SignFast(l.ID.Priv, core.Bytes(64, l.seed, "z"), ref.Enc(ref.Pub(signed)))
	b := &prekey.Bundle{RegistrationID: 77, DeviceID: 1, SignedPreKeyID: 5, SignedPreKeyPublic: pubKey(ref.Enc(ref.Pub(signed))), SignedPreKeySignature: sig, IdentityKey: identKey(ref.Enc(l.ID.Pub))}
	if err := l.P.ProcessBundle(l.them, b); err != nil {
		return err
	}
	typ, wire, err := l.P.Encrypt(l.them, []byte("hello"))
	if err != nil {
		return err
	}
	if typ != message.PreKeyType {
		return fmt.Errorf("first message is not a set-up message")
	}
	f, err := ref.ParsePreKey(wire)
	if err != nil {
		return err
	}
	if l.S, err = ref.Respond(l.ID, signed, nil, f.Identity[1:], f.Base[1:]); err != nil {
		return err
	}
	_, err = l.S.Decrypt(f.Message, l.key("ratchet"))
	return err
}

type lmsg struct {
	typ  message.CiphertextType
	wire []byte
	pt   string
	n    uint32
}

// send makes the reference's next message; skip moves its chain ahead before.
func (l *limited) send(skip int) lmsg {
	for i := 0; i < skip; i++ {
		l.S.Send = l.S.Send.Next()
	}
	l.n++
	m := lmsg{pt: fmt.Sprint("message ", l.n), n: l.S.Send.N}
	pre, w := l.S.Encrypt([]byte(m.pt))
	m.typ, m.wire = message.WhisperType, w
	if pre {
		m.typ = message.PreKeyType
	}
	return m
}

// at makes the reference's message at a position of its current chain, from a chain key at or before it.
func (l *limited) at(c ref.Chain, n uint32) lmsg {
	s := l.S.Clone()
	for c.N < n {
		c = c.Next()
	}
	s.Send = c
	m := lmsg{pt: fmt.Sprint("position ", n), n: n}
	pre, w := s.Encrypt([]byte(m.pt))
	m.typ, m.wire = message.WhisperType, w
	if pre {
		m.typ = message.PreKeyType
	}
	return m
}

// read delivers a message to the library device.
func (l *limited) read(m lmsg) error {
	pt, err := l.P.Decrypt(l.them, m.typ, m.wire)
	if err != nil {
		return err
	}
	if string(pt) != m.pt {
		return fmt.Errorf("decrypted to %q, was %q", clip(pt), m.pt)
	}
	return nil
}

// reply sends a message of the library device to the reference.
func (l *limited) reply() error {
	typ, wire, err := l.P.Encrypt(l.them, []byte("reply"))
	if err != nil {
		return err
	}
	if typ == message.PreKeyType {
		f, err := ref.ParsePreKey(wire)
		if err != nil {
			return err
		}
		wire = f.Message
	}
	_, err = l.S.Decrypt(wire, l.key("ratchet"))
	return err
}

// refusedAt checks that a message is refused without side effects.
func (l *limited) refusedAt(m lmsg) string {
	before := l.P.Digest()
	pt, err := l.P.Decrypt(l.them, m.typ, m.wire)
	if s := refused(pt, err); s != "" {
		return s
	}
	if l.P.Digest() != before {
		return "it was refused but changed stored state"
	}
	return ""
}

// starts are the situations in which a limit is probed.
func c13starts(r *core.Run, self bool) []struct {
	name string
	l    *limited
} {
	var out []struct {
		name string
		l    *limited
	}
	add := func(name string, l *limited) {
		out = append(out, struct {
			name string
			l    *limited
		}{name, l})
	}
	ok := func(err error) {
		if err != nil {
			panic(skipCheck{err})
		}
	}
	l := newLimited(r.Seed, self)
	l.initiate()
	add("unknown session", l.clone())
	ok(l.read(l.send(0)))
	add("set up by the peer, chain at 1", l.clone())
	ok(l.read(l.send(3)))
	add("chain at 5 with skipped messages", l.clone())
	ok(l.reply())
	add("new chain", l.clone())
	ok(l.read(l.send(0)))
	ok(l.reply())
	ok(l.read(l.send(7)))
	add("third chain at 8", l.clone())
	m := newLimited(r.Seed, self)
	ok(m.accept())
	add("set up by the device", m.clone())
	ok(m.read(m.send(2)))
	add("set up by the device, chain at 3", m.clone())
	return out
}

// skipCheck is thrown when the set-up fails, which other properties judge.
type skipCheck struct{ err error }

func c13(r *core.Run) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(skipCheck); ok {
				r.Count("setup_failed", 1)
				r.Sample(fmt.Sprint("set-up failed: ", s.err))
				return
			}
			panic(e)
		}
	}()
	var jobs []func()
	job := func(part string, desc string, f func() string) {
		jobs = append(jobs, func() {
			r.Transitions.Add(1)
			r.Case(part, func() any { return desc }, f)
		})
	}
	// Jumps.
	for _, self := range []bool{false, true} {
		for _, st := range c13starts(r, self) {
			for _, jump := range core.Pick(r, []int{0, 1, 1999, 2000, 2001, 24999, 25000, 25001, 25002, 30000}, []int{0, 1, 2, 1998, 1999, 2000, 2001, 2002, 3999, 4000, 4001, 12345, 24998, 24999, 25000, 25001, 25002, 26999, 27000, 27001, 29999, 30000, 50000}) {
				st, jump, self := st, jump, self
				job("jump", fmt.Sprintf("%s, jump %d, self %v", st.name, jump, self), func() string {
					l := st.l.clone()
					c := l.clone()
					near := c.send(0)
					m := l.send(jump)
					if jump > maxJump && !self {
						if x := l.refusedAt(m); x != "" {
							return fmt.Sprintf("%s: a message %d positions ahead: %s", st.name, jump, x)
						}
						if err := l.read(near); err != nil {
							return fmt.Sprintf("%s: after a message too far ahead was refused, the next one is unreadable: %v", st.name, err)
						}
						return ""
					}
					if err := l.read(m); err != nil {
						return fmt.Sprintf("%s: a message %d positions ahead (self %v) was refused: %v", st.name, jump, self, err)
					}
					return ""
				})
			}
		}
	}
	// Skipped messages: every position probed after one or two jumps with reads between.
	for _, st := range c13starts(r, false) {
		for _, jumps := range core.Pick(r,
			[][2]int{{1999, 0}, {2000, 0}, {2001, 0}, {1500, 499}, {1500, 500}, {1500, 501}, {1, 2000}},
			[][2]int{{1998, 0}, {1999, 0}, {2000, 0}, {2001, 0}, {2002, 0}, {3000, 0}, {25000, 0}, {1500, 499}, {1500, 500}, {1500, 501}, {1, 1999}, {1, 2000}, {2000, 1}, {2000, 2000}, {25000, 25000}}) {
			for _, consume := range []int{0, 3} {
				st, jumps, consume := st, jumps, consume
				job("skipped", fmt.Sprintf("%s, jumps %v, %d read between", st.name, jumps, consume), func() string {
					l := st.l.clone()
					start := l.S.Send
					var list []uint32
					push := func(from, to uint32) {
						for ; from < to; from++ {
							list = append(list, from)
							if len(list) > maxSkipped {
								list = list[1:]
							}
						}
					}
					first := true
					for _, j := range jumps {
						if j == 0 && !first {
							break
						}
						m := l.send(j)
						if err := l.read(m); err != nil {
							return fmt.Sprintf("%s: jump of %d refused: %v", st.name, j, err)
						}
						push(m.n-uint32(j), m.n)
						if first {
							// Read some of the oldest and of the newest skipped messages.
							for i := 0; i < consume && len(list) > 2; i++ {
								k := 0
								if i%2 == 1 {
									k = len(list) - 1
								}
								n := list[k]
								if err := l.read(l.at(start, n)); err != nil {
									return fmt.Sprintf("%s, jumps %v: skipped position %d (of %d retained) is unreadable: %v", st.name, jumps, n, len(list), err)
								}
								list = append(append([]uint32(nil), list[:k]...), list[k+1:]...)
							}
						}
						first = false
					}
					keep := map[uint32]bool{}
					for _, n := range list {
						keep[n] = true
					}
					// Probe around the boundary and every 97th position.
					end := l.S.Send.N
					c := start
					for ; c.N < end; c = c.Next() {
						n := c.N
						near := len(list) > 0 && (n+4 > list[0] && n < list[0]+4 || n+4 > list[len(list)-1])
						if !near && n%97 != 0 && n > start.N+3 {
							continue
						}
						m := l.at(c, n)
						if keep[n] {
							x := l.clone()
							if err := x.read(m); err != nil {
								return fmt.Sprintf("%s, jumps %v, %d read: skipped position %d, one of the %d most recent, is unreadable: %v", st.name, jumps, consume, n, len(list), err)
							}
						} else if x := l.refusedAt(m); x != "" {
							return fmt.Sprintf("%s, jumps %v, %d read: position %d is not among the %d most recently skipped, but: %s", st.name, jumps, consume, n, len(list), x)
						}
					}
					if sz := sizeOf(l.P); sz > 2100*200+4096 {
						return fmt.Sprintf("%s, jumps %v: stored state has %d bytes", st.name, jumps, sz)
					}
					return ""
				})
			}
		}
	}
	// Incoming chains.
	for _, mode := range []string{"peer", "device"} {
		mode := mode
		job("chains", mode, func() string {
			l := newLimited(r.Seed, false)
			var held [][]lmsg
			if mode == "device" {
				if err := l.accept(); err != nil {
					return ""
				}
			} else {
				l.initiate()
				held = nil
			}
			for turn := 0; turn < core.Pick(r, 14, 30); turn++ {
				ms := []lmsg{l.send(0), l.send(0), l.send(0)}
				if err := l.read(ms[1]); err != nil {
					return fmt.Sprintf("session set up by the %s, turn %d: %v", mode, turn, err)
				}
				held = append(held, ms)
				for i, ms := range held {
					for _, k := range []int{0, 2} {
						if i > len(held)-1-maxChains {
							if err := l.clone().read(ms[k]); err != nil {
								return fmt.Sprintf("session set up by the %s: message of chain %d of %d is unreadable: %v", mode, i+1, len(held), err)
							}
						} else if ms[k].typ == message.WhisperType {
							if x := l.refusedAt(ms[k]); x != "" {
								return fmt.Sprintf("session set up by the %s: message of chain %d of %d, beyond the %d retained: %s", mode, i+1, len(held), maxChains, x)
							}
						}
					}
				}
				if err := l.reply(); err != nil {
					return fmt.Sprintf("reply %d: %v", turn, err)
				}
			}
			if sz := sizeOf(l.P); sz > 12000 {
				return fmt.Sprintf("after %d ratchet turns the stored state has %d bytes", len(held), sz)
			}
			return ""
		})
	}
	// Older chains go on being read while newer ones begin.
	for _, mode := range []string{"peer", "device"} {
		for pat := 0; pat < 1<<8; pat++ {
			// Which of the ages 1 to 4 are read late in even and in odd turns.
			mode, pat := mode, pat
			if !r.Thorough() && pat>>4 != 0 && pat>>4 != pat&15 && pat>>4 != 15&^pat {
				continue
			}
			job("chains read late", fmt.Sprintf("%s, ages %04b and %04b", mode, pat&15, pat>>4), func() string {
				l := newLimited(r.Seed, false)
				if mode == "device" {
					if err := l.accept(); err != nil {
						return ""
					}
				} else {
					l.initiate()
				}
				var held [][]lmsg
				for turn := 0; turn < 9; turn++ {
					var ms []lmsg
					for i := 0; i < 7; i++ {
						ms = append(ms, l.send(0))
					}
					if err := l.read(ms[1]); err != nil {
						return fmt.Sprintf("turn %d: %v", turn, err)
					}
					held = append(held, ms)
					for age := 1; age <= 4 && age <= turn; age++ {
						if pat>>(turn%2*4)>>(age-1)&1 == 0 {
							continue
						}
						c, k := turn-age, 1+age
						if err := l.read(held[c][k]); err != nil {
							return fmt.Sprintf("turn %d: message %d of chain %d is unreadable: %v", turn, k, c, err)
						}
					}
					for c, ms := range held {
						for _, k := range []int{0, 6} {
							if c > turn-maxChains {
								if err := l.clone().read(ms[k]); err != nil {
									return fmt.Sprintf("turn %d: message %d of chain %d is unreadable: %v", turn, k, c, err)
								}
							} else if ms[k].typ == message.WhisperType {
								if x := l.refusedAt(ms[k]); x != "" {
									return fmt.Sprintf("turn %d: message %d of chain %d, beyond the %d retained: %s", turn, k, c, maxChains, x)
								}
							}
						}
					}
					if err := l.reply(); err != nil {
						return fmt.Sprintf("reply %d: %v", turn, err)
					}
				}
				return ""
			})
		}
	}
	// Archived sessions.
	for _, mode := range []string{"peer", "device", "alternating"} {
		mode := mode
		job("archived", mode, func() string { return c13archived(r, mode) })
	}
	groupLimits(r, job)
	r.States.Add(int64(len(jobs)))
	r.Parallel(len(jobs), func(i int) { jobs[i]() })
	r.Traces.Add(int64(len(jobs)))
	r.Bound("limits", map[string]int{"jump": maxJump, "skipped": maxSkipped, "chains": maxChains, "archived": maxArch})
	if !r.Stopped() {
		c13skips(r)
		marathonPairs(r, mBounded)
		marathonGroups(r, mBounded)
	}
}

// c13archived establishes more sessions than are retained and probes every one of
// them after each.
func c13archived(r *core.Run, mode string) string {
	l := newLimited(r.Seed, false)
	type held struct {
		msgs []lmsg
		s    *ref.Sess
	}
	var hs []held
	order := []int{} // sessions from oldest to current
	n := maxArch + 6
	for i := 0; i < n; i++ {
		if mode == "peer" || mode == "alternating" && i%2 == 0 {
			l.initiate()
			if err := l.read(l.send(0)); err != nil {
				return fmt.Sprintf("session %d: %v", i, err)
			}
			if err := l.reply(); err != nil {
				return fmt.Sprintf("session %d: %v", i, err)
			}
		} else if err := l.accept(); err != nil {
			return fmt.Sprintf("session %d: %v", i, err)
		}
		m := l.send(0)
		if err := l.read(m); err != nil {
			return fmt.Sprintf("session %d: %v", i, err)
		}
		hs = append(hs, held{[]lmsg{l.send(0), l.send(0), l.send(0)}, l.S.Clone()})
		order = append(order, i)
		if len(order) > maxArch+1 {
			order = order[1:]
		}
		if i < maxArch-2 && i != 3 {
			continue
		}
		keep := map[int]bool{}
		for _, k := range order {
			keep[k] = true
		}
		for k, h := range hs {
			for j, m := range h.msgs[:2] {
				if keep[k] {
					if err := l.clone().read(m); err != nil {
						return fmt.Sprintf("mode %s: message %d of session %d is unreadable with %d sessions (retained: %v): %v", mode, j, k+1, i+1, order, err)
					}
				} else if x := l.refusedAt(m); x != "" {
					return fmt.Sprintf("mode %s: message %d of session %d of %d, no longer retained: %s", mode, j, k+1, i+1, x)
				}
			}
		}
		// Reading a message of any retained session makes it current again and keeps
		// the others, with and without a session being current before.
		if i >= maxArch-1 && i <= maxArch+1 {
			for _, archive := range []bool{false, true} {
				for at, k := range order {
					c := l.clone()
					kept := order
					if archive {
						if err := c.P.Archive(l.them); err != nil {
							return fmt.Sprintf("mode %s: archiving session %d: %v", mode, i+1, err)
						}
						if len(kept) > maxArch {
							kept = kept[1:]
							if at == 0 {
								continue
							}
						}
					}
					if err := c.read(hs[k].msgs[2]); err != nil {
						return fmt.Sprintf("mode %s: session %d of %v (archived first: %v): %v", mode, k+1, kept, archive, err)
					}
					for j, o := range kept {
						if near := j < 2 || j > len(kept)-3 || o > k-2 && o < k+2; !near && !r.Thorough() {
							continue
						}
						if err := c.clone().read(hs[o].msgs[0]); err != nil {
							return fmt.Sprintf("mode %s: session %d of %v (archived first: %v) became current again, after which session %d is unreadable: %v", mode, k+1, kept, archive, o+1, err)
						}
					}
				}
			}
		}
		// The oldest retained one goes on being kept.
		if i == maxArch+2 {
			k := order[0]
			if err := l.read(hs[k].msgs[2]); err != nil {
				return fmt.Sprintf("mode %s: oldest retained session %d: %v", mode, k+1, err)
			}
			order = append(order[1:], k)
		}
	}
	if sz := sizeOf(l.P); sz > 41*1500+4096 {
		return fmt.Sprintf("mode %s: after %d sessions the stored state has %d bytes", mode, n, sz)
	}
	return ""
}

// sizeOf measures everything a party stores.
func sizeOf(p *world.Party) int {
	n := 0
	for _, a := range p.U.Addrs {
		if r, ok := p.RawRecord(a); ok {
			n += deepSize(reflect.ValueOf(r))
		}
	}
	for _, g := range p.U.Groups {
		if r, ok := p.RawGroup(g.Addr, g.Dist); ok {
			n += deepSize(reflect.ValueOf(r))
		}
	}
	return n
}

// deepSize counts the bytes held in byte slices and strings reachable from a value.
func deepSize(v reflect.Value) int {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return 0
		}
		if v.Kind() == reflect.Ptr && v.Elem().Kind() == reflect.Struct && v.Elem().Type().PkgPath() != "" &&
			(v.Elem().Type().PkgPath() == "reflect" || len(v.Elem().Type().PkgPath()) > 10 && v.Elem().Type().PkgPath()[:10] == "google.gol") {
			return 0
		}
		return deepSize(v.Elem())
	case reflect.Struct:
		n := 0
		for i := 0; i < v.NumField(); i++ {
			if name := v.Type().Field(i).Name; name == "state" && v.Type().Field(i).Type.Kind() == reflect.Struct {
				continue // bookkeeping of generated messages
			}
			n += deepSize(v.Field(i))
		}
		return n
	case reflect.Slice, reflect.Array:
		n := 0
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			return v.Len()
		}
		for i := 0; i < v.Len(); i++ {
			n += deepSize(v.Index(i))
		}
		return n
	case reflect.String:
		return v.Len()
	}
	return 0
}

// ---- groups ----

// glimited is a library member that follows chains of a reference sender.
type glimited struct {
	seed int64
	P    *world.Party
	them address.Address
	n    int
}

func newGLimited(seed int64) *glimited {
	cfg := gcfg{seed: seed, n: 2, senders: []int{0}, dists: 1}
	w := newGW(&cfg)
	return &glimited{seed: seed, P: w.P[1], them: w.P[0].Addr}
}

func (l *glimited) clone() *glimited { c := *l; c.P = l.P.Clone(); return &c }

func (l *glimited) sender(i int, start int) *ref.GroupSender {
	g := &ref.GroupSender{Dist: distA.String(), ChainID: uint32(1000 + i), Chain: ref.Chain{Key: core.Bytes(32, l.seed, "group chain", i)}, SigPriv: ref.Clamp(core.Bytes(32, l.seed, "group signing", i))}
	for k := 0; k < start; k++ {
		g.Chain = g.Chain.Next()
	}
	return g
}

func gat(g *ref.GroupSender, c ref.Chain, n uint32) lmsg {
	for c.N < n {
		c = c.Next()
	}
	x := *g
	x.Chain = c
	k := c.GroupKeys()
	pt := fmt.Sprint("position ", n)
	body := append([]byte{0x33}, ref.PB(nil).Bytes(1, []byte(x.Dist)).Uint(2, uint64(x.ChainID)).Uint(3, uint64(n)).Bytes(4, ref.CBCEncrypt(k.Cipher, k.IV, []byte(pt)))...)
	return lmsg{wire: append(body, ref.SignFast(x.SigPriv, make([]byte, 64), body)...), pt: pt, n: n}
}

func (l *glimited) read(m lmsg) error {
	pt, err := l.P.GroupDecrypt(l.them, m.wire)
	if err != nil {
		return err
	}
	if string(pt) != m.pt {
		return fmt.Errorf("decrypted to %q, was %q", clip(pt), m.pt)
	}
	return nil
}

func (l *glimited) refusedAt(m lmsg) string {
	before := l.P.Digest()
	pt, err := l.P.GroupDecrypt(l.them, m.wire)
	if s := refused(pt, err); s != "" {
		return s
	}
	if l.P.Digest() != before {
		return "it was refused but changed stored state"
	}
	return ""
}

func groupLimits(r *core.Run, job func(string, string, func() string)) {
	for _, start := range []int{0, 1, 5} {
		for _, read := range []int{-1, 0, 3} { // positions read before
			for _, jump := range core.Pick(r, []int{0, 1, 1999, 2000, 2001, 24999, 25000, 25001, 25002}, []int{0, 1, 2, 1998, 1999, 2000, 2001, 2002, 4000, 24998, 24999, 25000, 25001, 25002, 27001, 30000}) {
				start, read, jump := start, read, jump
				job("group jump", fmt.Sprintf("distribution at %d, read ahead %d, jump %d", start, read, jump), func() string {
					where := fmt.Sprintf("group chain from iteration %d, %d ahead read before", start, read)
					l := newGLimited(r.Seed)
					g := l.sender(0, start)
					if err := l.P.GroupProcess(l.them, g.Distribution()); err != nil {
						return fmt.Sprintf("%s: distribution refused: %v", where, err)
					}
					first := g.Chain
					next := uint32(start)
					var list []uint32
					push := func(to uint32) {
						for ; next < to; next++ {
							list = append(list, next)
							if len(list) > maxSkipped {
								list = list[1:]
							}
						}
						next = to + 1
					}
					if read >= 0 {
						n := uint32(start + read)
						if err := l.read(gat(g, first, n)); err != nil {
							return fmt.Sprintf("%s: %v", where, err)
						}
						push(n)
					}
					n := next + uint32(jump)
					m := gat(g, first, n)
					if jump > maxJump {
						if x := l.refusedAt(m); x != "" {
							return fmt.Sprintf("%s: a message %d iterations ahead: %s", where, jump, x)
						}
						if err := l.read(gat(g, first, next)); err != nil {
							return fmt.Sprintf("%s: after a message too far ahead was refused, the next one is unreadable: %v", where, err)
						}
						return ""
					}
					if err := l.read(m); err != nil {
						return fmt.Sprintf("%s: a message %d iterations ahead was refused: %v", where, jump, err)
					}
					push(n)
					keep := map[uint32]bool{}
					for _, n := range list {
						keep[n] = true
					}
					c := first
					for ; c.N < next; c = c.Next() {
						n := c.N
						near := len(list) > 0 && (n+4 > list[0] && n < list[0]+4 || n+4 > list[len(list)-1])
						if !near && n%211 != 0 && n > uint32(start)+3 {
							continue
						}
						m := gat(g, c, n)
						if keep[n] {
							if err := l.clone().read(m); err != nil {
								return fmt.Sprintf("%s, jump %d: skipped iteration %d, one of the %d most recent, is unreadable: %v", where, jump, n, len(list), err)
							}
						} else if x := l.refusedAt(m); x != "" {
							return fmt.Sprintf("%s, jump %d: iteration %d is not among the %d most recently skipped, but: %s", where, jump, n, len(list), x)
						}
					}
					if sz := sizeOf(l.P); sz > 2100*80+1024 {
						return fmt.Sprintf("%s, jump %d: stored state has %d bytes", where, jump, sz)
					}
					return ""
				})
			}
		}
	}
	for _, again := range []int{-1, 0, 2, 4} {
		again := again
		job("group chains", fmt.Sprint("distribution processed again: ", again), func() string {
			l := newGLimited(r.Seed)
			var gs []*ref.GroupSender
			var order []int
			for i := 0; i < 9; i++ {
				g := l.sender(i, 0)
				gs = append(gs, g)
				if err := l.P.GroupProcess(l.them, g.Distribution()); err != nil {
					return fmt.Sprintf("distribution %d refused: %v", i, err)
				}
				order = append(order, i)
				if len(order) > maxChains {
					order = order[1:]
				}
				if err := l.read(gat(g, g.Chain, 1)); err != nil {
					return fmt.Sprintf("chain %d: %v", i, err)
				}
				if i == 4 && again >= 0 {
					// A distribution that is processed again counts as the most recent.
					if err := l.P.GroupProcess(l.them, gs[again].Distribution()); err != nil {
						return fmt.Sprintf("repeated distribution %d refused: %v", again, err)
					}
					var o []int
					for _, k := range order {
						if k != again {
							o = append(o, k)
						}
					}
					order = append(o, again)
				}
				keep := map[int]bool{}
				for _, k := range order {
					keep[k] = true
				}
				for k, g := range gs {
					for _, n := range []uint32{0, 2} {
						m := gat(g, g.Chain, n)
						if keep[k] {
							if err := l.clone().read(m); err != nil {
								return fmt.Sprintf("message of chain %d is unreadable with chains %v retained: %v", k, order, err)
							}
						} else if x := l.refusedAt(m); x != "" {
							return fmt.Sprintf("message of chain %d with chains %v retained: %s", k, order, x)
						}
					}
				}
			}
			if sz := sizeOf(l.P); sz > 4096 {
				return fmt.Sprintf("stored state has %d bytes", sz)
			}
			return ""
		})
	}
}
