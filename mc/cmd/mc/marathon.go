package main

import (
	"bytes"
	"fmt"
	"slices"

	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/mc/core"
	"verif/mc/ref"
)

// Marathons: single conversations of tens of thousands of messages, thousands of turns or
// hundreds of sessions, in which counters and indexes pass the limits of 8 and 16 bits.

// Judgements of a marathon.
const (
	mDeliver = 1 << iota // what arrives is what was sent
	mRefuse              // what was read is refused when it comes again
	mHeader              // the header fields count exactly
	mBounded             // stored state stays within the retention limits
	mReference           // the reference reads it
)

func mText(i int) []byte { return []byte(fmt.Sprint("message number ", i)) }

// late tells positions whose messages stay behind: they agree in their low bits.
func late(i int) bool {
	switch i - 100 {
	case 0, 1 << 8, 1 << 12, 1 << 14, 1 << 15, 1 << 16:
		return true
	}
	return false
}

// mwire is a message of a marathon.
type mwire struct {
	i   int
	typ message.CiphertextType
	w   []byte
}

// marun is one marathon between two devices.
type marun struct {
	*pair
	seed  int64
	want  int
	count int
}

func newMarun(seed int64, want int, mem bool, root string) *marun {
	cfg := pcfg{Seed: seed, Kinds: "", Mem: mem}
	return &marun{newPair(&cfg).run(root), seed, want, 0}
}

func (m *marun) encrypt(p, i int) (*mwire, *ref.SignalFields, error) {
	typ, w, err := m.P[p].Encrypt(m.addr(1-p), mText(i))
	if err != nil {
		return nil, nil, fmt.Errorf("message %d is not sent: %v", i, err)
	}
	body := w
	if typ == message.PreKeyType {
		f, err := ref.ParsePreKey(w)
		if err != nil {
			return nil, nil, fmt.Errorf("message %d: %v", i, err)
		}
		body = f.Message
	}
	f, err := ref.ParseSignal(body)
	if err != nil {
		return nil, nil, fmt.Errorf("message %d: %v", i, err)
	}
	return &mwire{i, typ, w}, f, nil
}

func (m *marun) read(p int, x *mwire) string {
	m.count++
	pt, err := m.P[p].DecryptWith(m.addr(1-p), x.typ, x.w, core.NewPRF(m.seed, "marathon", m.count))
	if err != nil {
		if m.want&mDeliver != 0 {
			return fmt.Sprintf("message %d is unreadable: %v", x.i, err)
		}
		m.broken = true
		return ""
	}
	if m.want&mDeliver != 0 && !bytes.Equal(pt, mText(x.i)) {
		return fmt.Sprintf("message %d was read as %q", x.i, pt)
	}
	return ""
}

// again offers a message that was read.
func (m *marun) again(p int, x *mwire) string {
	if m.want&mRefuse == 0 || x == nil {
		return ""
	}
	before := m.P[p].Digest()
	m.count++
	pt, err := m.P[p].DecryptWith(m.addr(1-p), x.typ, x.w, core.NewPRF(m.seed, "marathon", m.count))
	if s := refused(pt, err); s != "" {
		return fmt.Sprintf("message %d comes again: %s", x.i, s)
	}
	m.P[p].Touched()
	if m.P[p].Digest() != before {
		return fmt.Sprintf("message %d comes again: it was refused but changed stored state", x.i)
	}
	return ""
}

func (m *marun) bounded(where string) string {
	if m.want&mBounded == 0 {
		return ""
	}
	for p := 0; p < 2; p++ {
		rec, ok := m.P[p].RawRecord(m.addr(1 - p))
		if !ok || rec.State() == nil {
			continue
		}
		if n := len(rec.State().Bytes()); n > 1<<20 {
			return fmt.Sprintf("%s: the session state has %d bytes", where, n)
		}
		if prev, err := rec.PreviousStates(); err != nil || len(prev) > maxArch {
			return fmt.Sprintf("%s: %d archived sessions (%v)", where, len(prev), err)
		}
	}
	return ""
}

// turnOver exchanges one message each way, twice.
func (m *marun) turnOver(first, base, prev int) string {
	for k := 0; k < 4; k++ {
		p := (first + k) % 2
		x, f, err := m.encrypt(p, base+k)
		if err != nil {
			return err.Error()
		}
		if m.want&mHeader != 0 {
			if k == 0 && int(f.Prev) != prev {
				return fmt.Sprintf("the first message after a chain whose last counter was %d says %d", prev, f.Prev)
			}
			if f.N != 0 {
				return fmt.Sprintf("a new chain begins at counter %d", f.N)
			}
		}
		if s := m.read(1-p, x); s != "" || m.broken {
			return s
		}
		if s := m.again(1-p, x); s != "" {
			return s
		}
	}
	return ""
}

// chain sends n messages of one chain; those of every gap are left out until the end.
func (m *marun) chain(from, n, gap int) string {
	var first *ref.SignalFields
	var held []*mwire
	kept := map[int]*mwire{}
	for i := 0; i < n; i++ {
		x, f, err := m.encrypt(from, i)
		if err != nil {
			return err.Error()
		}
		if first == nil {
			first = f
		}
		if m.want&mHeader != 0 && (f.N != first.N+uint32(i) || !bytes.Equal(f.Ratchet, first.Ratchet) || f.Prev != first.Prev || f.Version != 0x33) {
			return fmt.Sprintf("message %d of a chain from counter %d has counter %d, previous counter %d, ratchet key %x (was %x)", i, first.N, f.N, f.Prev, f.Ratchet, first.Ratchet)
		}
		if i%1000 < 3 || i&0xff < 1 || i&0xffff < 8 {
			kept[i] = x
		}
		if i%gap == gap-1 || late(i) {
			held = append(held, x)
			delete(kept, i)
			continue
		}
		if s := m.read(1-from, x); s != "" || m.broken {
			return s
		}
		if i%5000 == 1 || i > 1<<16-8 && i < 1<<16+8 {
			for _, j := range []int{0, 1, i, i - 256, i - 1<<15, i - 1<<16, i / 1000 * 1000} {
				if s := m.again(1-from, kept[j]); s != "" {
					return fmt.Sprintf("after message %d: %s", i, s)
				}
			}
		}
	}
	if s := m.bounded(fmt.Sprint("after ", n, " messages")); s != "" {
		return s
	}
	slices.Reverse(held)
	for _, x := range held {
		if s := m.read(1-from, x); s != "" || m.broken {
			return "late " + s
		}
		if s := m.again(1-from, x); s != "" {
			return s
		}
	}
	for i := 0; i < n; i += 977 {
		if s := m.again(1-from, kept[i/1000*1000]); s != "" {
			return s
		}
	}
	x, f, err := m.encrypt(from, n)
	if err != nil {
		return err.Error()
	}
	if s := m.read(1-from, x); s != "" || m.broken {
		return s
	}
	// The answer, and the next chain.
	y, _, err := m.encrypt(1-from, n+1)
	if err != nil {
		return err.Error()
	}
	if s := m.read(from, y); s != "" || m.broken {
		return s
	}
	return m.turnOver(from, n+2, int(f.N))
}

// jumps leaves out gap messages before each that is delivered.
func (m *marun) jumps(from, n, gap int) string {
	first := -1
	for k := 0; k < n; k++ {
		var last *mwire
		var near []*mwire
		for i := 0; i <= gap; i++ {
			x, f, err := m.encrypt(from, k*(gap+1)+i)
			if err != nil {
				return err.Error()
			}
			if first < 0 {
				first = int(f.N)
			}
			if m.want&mHeader != 0 && int(f.N) != first+x.i {
				return fmt.Sprintf("message %d of a chain from counter %d has counter %d", x.i, first, f.N)
			}
			if i == gap {
				last = x
			} else if gap-i <= 1999 && (gap-i)%331 == 1 {
				near = append(near, x)
			}
		}
		if s := m.read(1-from, last); s != "" || m.broken {
			return s
		}
		for _, x := range near {
			if s := m.read(1-from, x); s != "" || m.broken {
				return "left behind, " + s
			}
		}
		for _, x := range append(near, last) {
			if s := m.again(1-from, x); s != "" {
				return s
			}
		}
		if s := m.bounded(fmt.Sprint("after ", k+1, " jumps")); s != "" {
			return s
		}
	}
	return ""
}

// turns changes the direction n times; one message of each chain stays behind for two turns.
func (m *marun) turns(n int) string {
	var back []*mwire
	var backTo []int
	prevLast := [2]int{-1, -1}
	for t := 0; t < n; t++ {
		p := (t + 1) % 2
		var first, second *mwire
		for k := 0; k < 2; k++ {
			x, f, err := m.encrypt(p, 2*t+k)
			if err != nil {
				return err.Error()
			}
			if m.want&mHeader != 0 && t > 2 {
				if int(f.N) != k {
					return fmt.Sprintf("turn %d: message %d of the chain has counter %d", t, k, f.N)
				}
				if int(f.Prev) != prevLast[p] {
					return fmt.Sprintf("turn %d: previous counter %d, expected %d", t, f.Prev, prevLast[p])
				}
				if k == 1 {
					prevLast[p] = 1
				}
			} else if k == 1 {
				prevLast[p] = int(f.N)
			}
			if k == 0 {
				first = x
			} else {
				second = x
			}
		}
		if s := m.read(1-p, second); s != "" || m.broken {
			return fmt.Sprintf("turn %d: %s", t, s)
		}
		back, backTo = append(back, first), append(backTo, 1-p)
		if len(back) > 2 {
			x, to := back[0], backTo[0]
			if s := m.read(to, x); s != "" || m.broken {
				return fmt.Sprintf("turn %d: late %s", t, s)
			}
			if t%50 == 0 {
				if s := m.again(to, x); s != "" {
					return s
				}
				if s := m.again(1-p, second); s != "" {
					return s
				}
			}
			back, backTo = back[1:], backTo[1:]
		}
		if t%500 == 0 {
			if s := m.bounded(fmt.Sprintf("turn %d", t)); s != "" {
				return s
			}
		}
	}
	return ""
}

// sessions starts n sessions; the second message of each is read thirty sessions later.
func (m *marun) sessions(n int, mode byte) string {
	var back []*mwire
	for k := 0; k < n; k++ {
		p := 0
		var pre *prekey.ID
		if mode == 'o' {
			id := prekey.ID(1000 + k)
			m.P[1].AddPre(id)
			pre = &id
		}
		if err := m.P[p].ProcessBundle(m.addr(1), m.P[1].Bundle(signedID, pre)); err != nil {
			return fmt.Sprintf("session %d: authentic bundle refused: %v", k, err)
		}
		var xs []*mwire
		for i := 0; i < 2; i++ {
			x, f, err := m.encrypt(p, 3*k+i)
			if err != nil {
				return err.Error()
			}
			if m.want&mHeader != 0 && (int(f.N) != i || x.typ != message.PreKeyType) {
				return fmt.Sprintf("session %d: message %d has counter %d and type %v", k, i, f.N, x.typ)
			}
			xs = append(xs, x)
		}
		if s := m.read(1, xs[0]); s != "" || m.broken {
			return fmt.Sprintf("session %d: %s", k, s)
		}
		y, _, err := m.encrypt(1, 3*k+2)
		if err != nil {
			return err.Error()
		}
		if s := m.read(0, y); s != "" || m.broken {
			return fmt.Sprintf("session %d: %s", k, s)
		}
		if s := m.again(1, xs[0]); s != "" {
			return fmt.Sprintf("session %d: %s", k, s)
		}
		back = append(back, xs[1])
		if len(back) > 15 {
			// Reading it makes its session current; the next set-up replaces it.
			if s := m.read(1, back[0]); s != "" || m.broken {
				return fmt.Sprintf("session %d: late %s", k, s)
			}
			if s := m.again(1, back[0]); s != "" {
				return fmt.Sprintf("session %d: %s", k, s)
			}
			back = back[1:]
		}
		if s := m.bounded(fmt.Sprint("session ", k)); s != "" {
			return s
		}
	}
	return ""
}

// marathonPairs runs the pairwise marathons.
func marathonPairs(r *core.Run, want int) {
	n := core.Pick(r, 66_000, 200_000)
	var cs []kase
	add := func(desc string, f func() string) { cs = append(cs, kase{desc, f}) }
	for i, root := range []string{"I0o S0 r1 S1 r0", "I0n"} {
		i, root := i, root
		add(fmt.Sprintf("%d messages of one chain after %q", n, root), func() string {
			return newMarun(r.Seed, want, i == 1, root).chain(0, n, 4999)
		})
	}
	add("messages of one chain after every 21999 that were lost", func() string {
		return newMarun(r.Seed, want, false, "I0o S0 r1 S1 r0").jumps(1, core.Pick(r, 3, 9), 21_999)
	})
	add("turns", func() string {
		return newMarun(r.Seed, want, false, "I0o S0 r1 S1 r0").turns(core.Pick(r, 2500, 20000))
	})
	for _, mode := range "no" {
		mode := byte(mode)
		add("sessions set up "+string(mode), func() string {
			return newMarun(r.Seed, want, mode == 'n', "I0n S0 r1 S1 r0").sessions(core.Pick(r, 300, 3000), mode)
		})
	}
	enumerate(r, "marathons", cs)
	r.Bound("marathon_messages", n)
}

// ---- groups ----

type gmarun struct {
	*gw
	seed int64
	want int
	n    int
}

func (m *gmarun) encrypt(i int) ([]byte, *ref.SenderKeyFields, error) {
	m.n++
	w, err := m.P[0].GroupEncryptWith(distA, mText(i), core.NewPRF(m.seed, "marathon", m.n))
	if err != nil {
		return nil, nil, fmt.Errorf("message %d is not sent: %v", i, err)
	}
	f, err := ref.ParseSenderKey(w)
	if err != nil {
		return nil, nil, fmt.Errorf("message %d: %v", i, err)
	}
	return w, f, nil
}

func (m *gmarun) read(p, i int, w []byte) string {
	pt, err := m.P[p].GroupDecrypt(m.P[0].Addr, w)
	if err != nil {
		if m.want&mDeliver != 0 {
			return fmt.Sprintf("member %d: message %d is unreadable: %v", p, i, err)
		}
		m.bad = true
		return ""
	}
	if m.want&mDeliver != 0 && !bytes.Equal(pt, mText(i)) {
		return fmt.Sprintf("member %d: message %d was read as %q", p, i, pt)
	}
	return ""
}

func (m *gmarun) again(p, i int, w []byte) string {
	if m.want&mRefuse == 0 || w == nil {
		return ""
	}
	before := m.P[p].Digest()
	pt, err := m.P[p].GroupDecrypt(m.P[0].Addr, w)
	if s := refused(pt, err); s != "" {
		return fmt.Sprintf("member %d: message %d comes again: %s", p, i, s)
	}
	m.P[p].Touched()
	if m.P[p].Digest() != before {
		return fmt.Sprintf("member %d: message %d comes again: it was refused but changed stored state", p, i)
	}
	return ""
}

// chain: member 1 reads all messages but some, member 2 one in 21000, member 3 joins late.
func (m *gmarun) chain(n int) string {
	d0, err := m.P[0].NewDistWith(distA, core.NewPRF(m.seed, "marathon", "dist"), core.NewPRF(m.seed, "marathon", "id"))
	if err != nil {
		return err.Error()
	}
	for p := 1; p <= 2; p++ {
		if err := m.P[p].GroupProcess(m.P[0].Addr, d0); err != nil {
			return err.Error()
		}
	}
	held := map[int][]byte{}
	kept := map[int][]byte{}
	var id uint32
	sk0, err := ref.ParseSKDM(d0)
	if err != nil {
		return err.Error()
	}
	chain := ref.Chain{Key: sk0.ChainKey, N: sk0.N}
	for i := 0; i < n; i++ {
		w, f, err := m.encrypt(i)
		if err != nil {
			return err.Error()
		}
		if i == 0 {
			id = f.ChainID
		}
		if m.want&mHeader != 0 && (f.N != uint32(i) || f.ChainID != id || f.Version != 0x33) {
			return fmt.Sprintf("message %d has iteration %d and chain %d (was %d)", i, f.N, f.ChainID, id)
		}
		if m.want&mReference != 0 {
			k := chain.GroupKeys()
			if pt, err := ref.CBCDecrypt(k.Cipher, k.IV, f.Cipher); err != nil || !bytes.Equal(pt, mText(i)) {
				return fmt.Sprintf("the reference reads message %d as %q (%v)", i, pt, err)
			}
			chain = chain.Next()
		}
		if i%1000 < 2 || i&0xffff < 8 {
			kept[i] = w
		}
		if i == n-500 {
			d, err := m.P[0].NewDistWith(distA, core.NewPRF(m.seed, "marathon", "dist"), core.NewPRF(m.seed, "marathon", "id"))
			if err != nil {
				return err.Error()
			}
			sk, err := ref.ParseSKDM(d)
			if err != nil {
				return err.Error()
			}
			if m.want&mHeader != 0 && sk.N != uint32(i+1) {
				return fmt.Sprintf("a distribution made after message %d is at iteration %d", i, sk.N)
			}
			if err := m.P[3].GroupProcess(m.P[0].Addr, d); err != nil {
				return err.Error()
			}
		} else if i > n-500 {
			if s := m.read(3, i, w); s != "" || m.bad {
				return s
			}
		}
		if i%21_000 == 20_999 {
			if s := m.read(2, i, w); s != "" || m.bad {
				return s
			}
			if s := m.again(2, i, w); s != "" {
				return s
			}
		}
		if i%4999 == 4998 || late(i) {
			held[i] = w
			delete(kept, i)
			continue
		}
		if s := m.read(1, i, w); s != "" || m.bad {
			return s
		}
		if i%5000 == 1 || i > 1<<16-8 && i < 1<<16+8 {
			for _, j := range []int{0, 1, i - 1<<15, i - 1<<16, i / 1000 * 1000} {
				if s := m.again(1, j, kept[j]); s != "" {
					return fmt.Sprintf("after message %d: %s", i, s)
				}
			}
		}
		if i == 1<<16+200 {
			for j := i; j > 0; j-- {
				if held[j] == nil {
					continue
				}
				if s := m.read(1, j, held[j]); s != "" || m.bad {
					return "late " + s
				}
				if s := m.again(1, j, held[j]); s != "" {
					return s
				}
				delete(held, j)
			}
		}
		if m.want&mBounded != 0 && i%10_000 == 9_999 {
			for p := 1; p <= 2; p++ {
				if sz := sizeOf(m.P[p]); sz > 2100*80+2048 {
					return fmt.Sprintf("after message %d the stored state of member %d has %d bytes", i, p, sz)
				}
			}
		}
	}
	return ""
}

func marathonGroups(r *core.Run, want int) {
	n := core.Pick(r, 66_000, 140_000)
	cs := []kase{{fmt.Sprintf("%d messages of one chain", n), func() string {
		m := &gmarun{newGW(&gcfg{seed: r.Seed, n: 4, senders: []int{0}, dists: 1}), r.Seed, want, 0}
		return m.chain(n)
	}}}
	cs = append(cs, kase{"chains", func() string {
		m := &gmarun{newGW(&gcfg{seed: r.Seed, n: 2, senders: []int{0}, dists: 1}), r.Seed, want, 0}
		for k := 0; k < core.Pick(r, 400, 3000); k++ {
			m.P[0].RemoveGroup(m.P[0].Addr, distA)
			d, err := m.P[0].NewDistWith(distA, core.NewPRF(m.seed, "marathon", k), core.NewPRF(m.seed, "marathon id", k))
			if err != nil {
				return err.Error()
			}
			if err := m.P[1].GroupProcess(m.P[0].Addr, d); err != nil {
				return err.Error()
			}
			var ws [][]byte
			for i := 0; i < 2; i++ {
				w, _, err := m.encrypt(2*k + i)
				if err != nil {
					return err.Error()
				}
				ws = append(ws, w)
			}
			for i := 1; i >= 0; i-- {
				if s := m.read(1, 2*k+i, ws[i]); s != "" || m.bad {
					return fmt.Sprintf("chain %d: %s", k, s)
				}
				if s := m.again(1, 2*k+i, ws[i]); s != "" {
					return fmt.Sprintf("chain %d: %s", k, s)
				}
			}
		}
		return ""
	}})
	enumerate(r, "marathons", cs)
	r.Bound("marathon_messages", n)
}
