package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/distribution"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C27", "model_checking", c27) }

// glib is a device of the library that sends to and receives from devices of the
// reference implementation in a group.
type glib struct {
	cfg  *glibCfg
	L    *world.Party
	Dist distribution.ID
	// Sending: what the specification predicts.
	Skdm  []*ref.SKDM
	Chain ref.Chain
	Live  bool
	Sent  int
	Keys  int
	// Receiving: chains of reference senders.
	Next []map[int]*grecv // per sender, chain
	Used map[string]bool
	bad  bool
	Fail string
}

type grecv struct {
	next uint32
	skip map[uint32]bool
}

type glibCfg struct {
	seed    int64
	mem     bool
	maxSend int
	rekey   int
	lens    []int
	// Receiving.
	senders int
	chains  int
	msgs    int
	start   uint32
	dists   []int // iterations (relative) at which distributions are made
}

type gwire struct {
	wire, pt []byte
	n        uint32
}

func newGLib(cfg *glibCfg) *glib {
	w := &glib{cfg: cfg, Dist: distA, Used: map[string]bool{}}
	u := &world.Universe{}
	for i := 0; i <= cfg.senders; i++ {
		a := address.Address{Name: fmt.Sprint("+1415000000", i/2), DeviceID: address.DeviceID(1 + i%2)}
		u.Addrs = append(u.Addrs, a)
		u.Groups = append(u.Groups, world.GroupKey{Addr: a, Dist: distA}, world.GroupKey{Addr: a, Dist: distB})
	}
	w.L = world.NewParty(cfg.seed, "GL", "GL", u.Addrs[0], 1, u, cfg.mem)
	for i := 0; i < cfg.senders; i++ {
		w.Next = append(w.Next, map[int]*grecv{})
	}
	return w
}

func (w *glib) Clone() core.Node { return w.clone() }

func (w *glib) clone() *glib {
	c := *w
	c.L = w.L.Clone()
	c.Skdm = append([]*ref.SKDM(nil), w.Skdm...)
	c.Used = map[string]bool{}
	for k := range w.Used {
		c.Used[k] = true
	}
	c.Next = nil
	for _, m := range w.Next {
		n := map[int]*grecv{}
		for k, v := range m {
			x := &grecv{v.next, map[uint32]bool{}}
			for s := range v.skip {
				x.skip[s] = true
			}
			n[k] = x
		}
		c.Next = append(c.Next, n)
	}
	return &c
}

func (w *glib) Key() [32]byte {
	d := w.L.Digest()
	var used []string
	for k := range w.Used {
		used = append(used, k)
	}
	sort.Strings(used)
	return core.Digest(d[:], len(w.Skdm), w.Chain, w.Live, w.Sent, w.Keys, strings.Join(used, ","))
}

// sender is a chain of a reference sender.
func (w *glib) sender(s, c int) *ref.GroupSender {
	return &ref.GroupSender{Dist: w.Dist.String(), ChainID: uint32(7 + 13*s + c), Chain: ref.Chain{Key: core.Bytes(32, w.cfg.seed, "gl chain", s, c), N: w.cfg.start},
		SigPriv: ref.Clamp(core.Bytes(32, w.cfg.seed, "gl sig", s, c))}
}

func (w *glib) wires(s, c int) (dists, msgs []*gwire) {
	g := w.sender(s, c)
	for i := 0; i < w.cfg.msgs; i++ {
		for _, d := range w.cfg.dists {
			if d == i {
				dists = append(dists, &gwire{wire: g.Distribution(), n: g.Chain.N})
			}
		}
		pt := core.Bytes(w.cfg.lens[i%len(w.cfg.lens)], w.cfg.seed, "gl pt", s, c, i)
		n := g.Chain.N
		msgs = append(msgs, &gwire{wire: refGroupEncrypt(g, pt, w.cfg.seed), pt: pt, n: n})
	}
	return
}

func (w *glib) Ops() []string {
	if w.bad {
		return nil
	}
	var ops []string
	if w.cfg.maxSend > 0 {
		if len(w.Skdm) < 6 {
			ops = append(ops, "N")
		}
		if w.Live && w.Sent < w.cfg.maxSend {
			ops = append(ops, "S")
		}
		if w.Live && w.Keys < w.cfg.rekey && w.Sent > 0 {
			ops = append(ops, "K")
		}
	}
	for s := range w.Next {
		for c := 0; c < w.cfg.chains; c++ {
			for i := range w.cfg.dists {
				if id := fmt.Sprintf("D %d %d %d", s, c, i); !w.Used[id] {
					ops = append(ops, id)
				}
			}
			g := w.Next[s][c]
			if g == nil {
				continue
			}
			for i := 0; i < w.cfg.msgs; i++ {
				n := w.cfg.start + uint32(i)
				if id := fmt.Sprintf("R %d %d %d", s, c, i); !w.Used[id] && (n >= g.next || g.skip[n]) {
					ops = append(ops, id)
				}
			}
		}
	}
	return ops
}

func (w *glib) fail(format string, a ...any) string {
	w.bad = true
	return fmt.Sprintf(format, a...)
}

func (w *glib) Check() string { return w.Fail }

func (w *glib) Apply(op string) string {
	f := strings.Fields(op)
	switch f[0] {
	case "N":
		wire, err := w.L.NewDist(w.Dist)
		if err != nil {
			return w.fail("no distribution: %v", err)
		}
		d, err := ref.ParseSKDM(wire)
		if err != nil {
			return w.fail("distribution: %v", err)
		}
		if d.Version != 0x33 || string(d.Dist) != w.Dist.String() || d.SigPub[0] != 5 {
			return w.fail("distribution has version %x, group %s", d.Version, d.Dist)
		}
		if !w.Live {
			if d.N != 0 {
				return w.fail("a new chain starts at %d", d.N)
			}
			if d.ChainID>>31 != 0 {
				return w.fail("chain identifier %d has more than 31 bits", d.ChainID)
			}
			for _, o := range w.Skdm {
				if o.ChainID == d.ChainID || bytes.Equal(o.ChainKey, d.ChainKey) || bytes.Equal(o.SigPub, d.SigPub) {
					return w.fail("a new chain repeats an identifier or key of an old one")
				}
			}
			w.Skdm, w.Chain, w.Live = nil, ref.Chain{Key: d.ChainKey}, true
		} else {
			o := w.Skdm[len(w.Skdm)-1]
			if d.N != w.Chain.N || !bytes.Equal(d.ChainKey, w.Chain.Key) || d.ChainID != o.ChainID || !bytes.Equal(d.SigPub, o.SigPub) {
				return w.fail("distribution at iteration %d: chain %d iteration %d, keys as specified: %v %v", w.Chain.N, d.ChainID, d.N, bytes.Equal(d.ChainKey, w.Chain.Key), bytes.Equal(d.SigPub, o.SigPub))
			}
		}
		w.Skdm = append(w.Skdm, d)
	case "K":
		w.Keys++
		w.L.RemoveGroup(w.L.Addr, w.Dist)
		w.Live = false
	case "S":
		w.Sent++
		dg := w.L.Digest()
		pt := core.Bytes(w.cfg.lens[w.Sent%len(w.cfg.lens)], w.cfg.seed, "gl", dg[:])
		wire, err := w.L.GroupEncrypt(w.Dist, append([]byte(nil), pt...))
		if err != nil {
			return w.fail("cannot send: %v", err)
		}
		m, err := ref.ParseSenderKey(wire)
		if err != nil {
			return w.fail("message: %v", err)
		}
		d := w.Skdm[len(w.Skdm)-1]
		if m.Version != 0x33 || string(m.Dist) != w.Dist.String() || m.ChainID != d.ChainID || m.N != w.Chain.N {
			return w.fail("message has version %x group %s chain %d iteration %d, specified are 33, %v, %d, %d", m.Version, m.Dist, m.ChainID, m.N, w.Dist, d.ChainID, w.Chain.N)
		}
		w.Chain = w.Chain.Next()
		// Every reference member reads it, from whichever distribution of the chain.
		for i, o := range w.Skdm {
			got, err := ref.NewGroupReceiver(*o).Decrypt(wire)
			if err != nil || !bytes.Equal(got, pt) {
				return w.fail("a reference member with distribution %d cannot read message %d of %d bytes: %v", i, m.N, len(pt), err)
			}
		}
	case "D", "R":
		var s, c, i int
		fmt.Sscan(strings.Join(f[1:], " "), &s, &c, &i)
		dists, msgs := w.wires(s, c)
		from := w.L.U.Addrs[1+s]
		w.Used[op] = true
		if f[0] == "D" {
			if err := w.L.GroupProcess(from, dists[i].wire); err != nil {
				return w.fail("distribution %d of chain %d at iteration %d refused: %v", i, c, dists[i].n, err)
			}
			if w.Next[s][c] == nil {
				w.Next[s][c] = &grecv{dists[i].n, map[uint32]bool{}}
			}
			return ""
		}
		pt, err := w.L.GroupDecrypt(from, msgs[i].wire)
		if err != nil || !bytes.Equal(pt, msgs[i].pt) {
			return w.fail("message %d (%d bytes) of sender %d chain %d: read %x, %v", msgs[i].n, len(msgs[i].pt), s, c, clip(pt), err)
		}
		g := w.Next[s][c]
		n := msgs[i].n
		if n < g.next {
			delete(g.skip, n)
			return ""
		}
		for ; g.next < n; g.next++ {
			g.skip[g.next] = true
		}
		g.next = n + 1
	}
	return ""
}

func c27(r *core.Run) {
	lens := []int{0, 1, 15, 16, 17, 40}
	d := func(q, t int) int { return core.Pick(r, q, t) }
	space := func(name string, cfg glibCfg, depth int) {
		cfg.seed, cfg.lens = r.Seed, lens
		r.Explore(core.Space{Name: name, Depth: depth, Root: func() core.Node { return newGLib(&cfg) }})
	}
	space("library sends", glibCfg{maxSend: 8, rekey: 2}, d(10, 13))
	space("library sends, bundled stores", glibCfg{maxSend: 8, mem: true}, d(9, 12))
	space("one reference sender", glibCfg{senders: 1, chains: 1, msgs: 5, dists: []int{0, 1, 3}}, d(8, 8))
	space("one reference sender, bundled stores", glibCfg{senders: 1, chains: 1, msgs: 5, dists: []int{0, 2}, mem: true}, d(7, 7))
	space("two chains", glibCfg{senders: 1, chains: 2, msgs: 3, dists: []int{0, 1}}, d(6, 10))
	space("two senders", glibCfg{senders: 2, chains: 1, msgs: 3, dists: []int{0, 1}}, d(6, 10))
	space("both", glibCfg{senders: 1, chains: 1, msgs: 3, dists: []int{0}, maxSend: 3}, d(7, 9))
	for _, start := range []uint32{1, 1000, 1<<31 - 2, 1 << 31, 1<<32 - 8} {
		space(fmt.Sprint("chain at iteration ", start), glibCfg{senders: 1, chains: 1, msgs: 4, dists: []int{0, 2}, start: start}, d(6, 6))
	}
	// Long chains: every length, in order, reversed and with gaps.
	var cs []kase
	n := core.Pick(r, 300, 2100)
	for _, order := range []string{"forward", "backward", "odd then even", "from the middle"} {
		for _, from := range []int{0, 1, n / 2} {
			order, from := order, from
			cs = append(cs, kase{fmt.Sprintf("%d messages %s, distribution at %d", n, order, from), func() string {
				var all []int
				for l := 0; l < 80; l++ {
					all = append(all, l)
				}
				w := newGLib(&glibCfg{seed: r.Seed, senders: 1, chains: 1, msgs: n, dists: []int{from}, lens: all})
				if x := w.Apply("D 0 0 0"); x != "" {
					return x
				}
				var idx []int
				for i := from; i < n; i++ {
					idx = append(idx, i)
				}
				switch order {
				case "backward":
					sort.Sort(sort.Reverse(sort.IntSlice(idx)))
				case "odd then even":
					sort.SliceStable(idx, func(a, b int) bool { return idx[a]%2 > idx[b]%2 })
				case "from the middle":
					m := len(idx) / 2
					idx = append(append([]int(nil), idx[m:]...), idx[:m]...)
				}
				for _, i := range idx {
					if x := w.Apply(fmt.Sprintf("R 0 0 %d", i)); x != "" {
						return x
					}
				}
				return ""
			}})
		}
	}
	cs = append(cs, kase{fmt.Sprintf("%d messages by the library", n), func() string {
		var all []int
		for l := 0; l < 80; l++ {
			all = append(all, l)
		}
		w := newGLib(&glibCfg{seed: r.Seed, maxSend: n, lens: all})
		for i := 0; i < n; i++ {
			if i%20 == 0 {
				if x := w.Apply("N"); x != "" {
					return x
				}
			}
			if x := w.Apply("S"); x != "" {
				return x
			}
		}
		return ""
	}})
	enumerate(r, "long chains", cs)
	marathonGroups(r, mHeader|mReference)
}

// refGroupEncrypt is Encrypt with cached signatures.
func refGroupEncrypt(g *ref.GroupSender, pt []byte, seed int64) []byte {
	k := g.Chain.GroupKeys()
	ct := ref.CBCEncrypt(k.Cipher, k.IV, pt)
	body := append([]byte{0x33}, ref.PB(nil).Bytes(1, []byte(g.Dist)).Uint(2, uint64(g.ChainID)).Uint(3, uint64(g.Chain.N)).Bytes(4, ct)...)
	g.Chain = g.Chain.Next()
	return append(body, ref.SignFast(g.SigPriv, core.Bytes(64, seed, "gz"), body)...)
}
