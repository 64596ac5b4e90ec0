package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/distribution"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

var (
	distA = distribution.MustParse("d1d1d1d1-7000-11eb-b32a-33b8a8a487a6")
	distB = distribution.MustParse("d1d1d1d1-7000-11eb-b32a-33b8a8a487a7")
)

// gchain identifies a chain of a sender.
type gchain struct {
	sender int
	dist   int
	id     uint32
	sig    string
}

type gdist struct {
	id    string
	chain gchain
	n     uint32
	wire  []byte
}

type gmsg struct {
	id    string
	chain gchain
	n     uint32
	wire  []byte
	pt    []byte
}

// gstate is what the model knows of a chain held by a member.
type gstate struct {
	chain gchain
	next  uint32
	skip  map[uint32]bool
}

type gcfg struct {
	seed    int64
	mem     bool
	n       int   // parties; all are members
	senders []int // who sends
	dists   int
	maxSend int
	maxDist int // distributions created per sender and group
	rekey   int
	lens    []int
	kinds   string // deliver refuse
	redead  bool   // also deliver what must be refused
	again   bool   // also process distributions again
	check   func(w *gw) string
	onSend  func(w *gw, m *gmsg) string
}

type gw struct {
	cfg   *gcfg
	P     []*world.Party
	Dists []*gdist
	Msgs  []*gmsg
	// Held lists the chains of each member per sender and group, oldest first.
	Held   []map[[2]int][]gstate
	Seen   []map[string]bool // consumed messages per member
	Done   []map[string]bool // processed distributions
	Sent   map[[2]int]int
	Rekeys int
	Live   map[[2]int]bool
	bad    bool
	Fail   string
}

func gdistID(d int) distribution.ID { return []distribution.ID{distA, distB}[d] }

func newGW(cfg *gcfg) *gw {
	w := &gw{cfg: cfg, Sent: map[[2]int]int{}, Live: map[[2]int]bool{}}
	u := &world.Universe{}
	for i := 0; i < cfg.n; i++ {
		u.Addrs = append(u.Addrs, address.Address{Name: fmt.Sprint("+1415000000", i/2), DeviceID: address.DeviceID(1 + i%2)})
	}
	for _, a := range u.Addrs {
		u.Groups = append(u.Groups, world.GroupKey{Addr: a, Dist: distA}, world.GroupKey{Addr: a, Dist: distB})
	}
	for i := 0; i < cfg.n; i++ {
		w.P = append(w.P, world.NewParty(cfg.seed, fmt.Sprint("g", i), fmt.Sprint("g", i), u.Addrs[i], 1, u, cfg.mem))
		w.Held = append(w.Held, map[[2]int][]gstate{})
		w.Seen = append(w.Seen, map[string]bool{})
		w.Done = append(w.Done, map[string]bool{})
	}
	return w
}

func (w *gw) clone() *gw {
	c := *w
	c.P, c.Held, c.Seen, c.Done = nil, nil, nil, nil
	for i, p := range w.P {
		c.P = append(c.P, p.Clone())
		h := map[[2]int][]gstate{}
		for k, v := range w.Held[i] {
			var ss []gstate
			for _, s := range v {
				t := s
				t.skip = map[uint32]bool{}
				for n := range s.skip {
					t.skip[n] = true
				}
				ss = append(ss, t)
			}
			h[k] = ss
		}
		c.Held = append(c.Held, h)
		cp := func(m map[string]bool) map[string]bool {
			x := map[string]bool{}
			for k := range m {
				x[k] = true
			}
			return x
		}
		c.Seen, c.Done = append(c.Seen, cp(w.Seen[i])), append(c.Done, cp(w.Done[i]))
	}
	c.Dists, c.Msgs = append([]*gdist(nil), w.Dists...), append([]*gmsg(nil), w.Msgs...)
	c.Sent, c.Live = map[[2]int]int{}, map[[2]int]bool{}
	for k, v := range w.Sent {
		c.Sent[k] = v
	}
	for k, v := range w.Live {
		c.Live[k] = v
	}
	return &c
}

func (w *gw) Clone() core.Node { return w.clone() }

func (w *gw) Key() [32]byte {
	var xs []any
	for i, p := range w.P {
		d := p.Digest()
		xs = append(xs, d[:], strings.Join(core.Keys(w.Seen[i]), ","), strings.Join(core.Keys(w.Done[i]), ","))
	}
	var ids []string
	for _, m := range w.Msgs {
		ids = append(ids, m.id)
	}
	for _, d := range w.Dists {
		ids = append(ids, d.id)
	}
	sort.Strings(ids)
	return core.Digest(append(xs, strings.Join(ids, ","), fmt.Sprint(w.Sent), w.Rekeys)...)
}

func (w *gw) held(m int, c gchain) *gstate {
	ss := w.Held[m][[2]int{c.sender, c.dist}]
	for i := range ss {
		if ss[i].chain.id == c.id {
			return &ss[i]
		}
	}
	return nil
}

// readable is the model's expectation.
func (w *gw) readable(m int, x *gmsg) bool {
	s := w.held(m, x.chain)
	if s == nil || s.chain != x.chain {
		return false
	}
	if x.n < s.next {
		return s.skip[x.n]
	}
	return x.n-s.next <= 25000
}

func (w *gw) Ops() []string {
	if w.bad {
		return nil
	}
	var ops []string
	for _, s := range w.cfg.senders {
		for d := 0; d < w.cfg.dists; d++ {
			k := [2]int{s, d}
			n := 0
			for _, x := range w.Dists {
				if x.chain.sender == s && x.chain.dist == d {
					n++
				}
			}
			if n < w.cfg.maxDist {
				ops = append(ops, fmt.Sprintf("N %d %d", s, d))
			}
			if w.Live[k] && w.Sent[k] < w.cfg.maxSend {
				ops = append(ops, fmt.Sprintf("S %d %d", s, d))
			}
			if w.Live[k] && w.Rekeys < w.cfg.rekey && w.Sent[k] > 0 {
				ops = append(ops, fmt.Sprintf("K %d %d", s, d))
			}
		}
	}
	var rs []string
	for m := range w.P {
		for _, d := range w.Dists {
			if d.chain.sender != m && (w.cfg.again || !w.Done[m][d.id]) {
				rs = append(rs, fmt.Sprintf("D %d %s", m, d.id))
			}
		}
		for _, x := range w.Msgs {
			if x.chain.sender != m && (w.readable(m, x) || w.cfg.redead) {
				rs = append(rs, fmt.Sprintf("R %d %s", m, x.id))
			}
		}
	}
	sort.Strings(rs)
	return append(ops, rs...)
}

func (w *gw) fail(kind, format string, a ...any) string {
	w.bad = true
	for _, k := range strings.Fields(w.cfg.kinds) {
		if k == kind {
			return kind + ": " + fmt.Sprintf(format, a...)
		}
	}
	return ""
}

func (w *gw) msg(id string) *gmsg {
	for _, m := range w.Msgs {
		if m.id == id {
			return m
		}
	}
	return nil
}

func (w *gw) dist(id string) *gdist {
	for _, m := range w.Dists {
		if m.id == id {
			return m
		}
	}
	return nil
}

func (w *gw) Apply(op string) string {
	f := strings.Fields(op)
	i := int(f[1][0] - '0')
	switch f[0] {
	case "N":
		return w.newDist(i, int(f[2][0]-'0'))
	case "K":
		d := int(f[2][0] - '0')
		w.Rekeys++
		w.P[i].RemoveGroup(w.P[i].Addr, gdistID(d))
		w.Live[[2]int{i, d}] = false
		return ""
	case "S":
		_, x := w.send(i, int(f[2][0]-'0'))
		return x
	case "D":
		return w.process(i, w.dist(f[2]))
	case "R":
		return w.recv(i, w.msg(f[2]))
	}
	panic(op)
}

func (w *gw) newDist(s, d int) string {
	wire, err := w.P[s].NewDist(gdistID(d))
	if err != nil {
		return w.fail("dist", "cannot create a distribution: %v", err)
	}
	f, err := ref.ParseSKDM(wire)
	if err != nil {
		return w.fail("dist", "distribution: %v", err)
	}
	w.Live[[2]int{s, d}] = true
	h := core.Digest(wire)
	x := &gdist{id: fmt.Sprintf("%d%d%x", s, d, h[:4]), chain: gchain{s, d, f.ChainID, string(f.SigPub)}, n: f.N, wire: wire}
	if w.dist(x.id) == nil {
		w.Dists = append(w.Dists, x)
	}
	return ""
}

func (w *gw) send(s, d int) (*gmsg, string) {
	k := [2]int{s, d}
	w.Sent[k]++
	l := 5
	if len(w.cfg.lens) > 0 {
		l = w.cfg.lens[w.Sent[k]%len(w.cfg.lens)]
	}
	dg := w.P[s].Digest()
	pt := core.Bytes(l, w.cfg.seed, "gpt", s, d, dg[:])
	wire, err := w.P[s].GroupEncrypt(gdistID(d), append([]byte(nil), pt...))
	if err != nil {
		return nil, w.fail("send", "cannot send: %v", err)
	}
	f, err := ref.ParseSenderKey(wire)
	if err != nil {
		return nil, w.fail("wire", "message: %v", err)
	}
	h := core.Digest(wire)
	x := &gmsg{id: fmt.Sprintf("%d%d.%d.%x", s, d, f.N, h[:4]), n: f.N, wire: wire, pt: pt}
	for _, y := range w.Dists {
		if y.chain.sender == s && y.chain.dist == d && y.chain.id == f.ChainID {
			x.chain = y.chain
		}
	}
	w.Msgs = append(w.Msgs, x)
	if w.cfg.onSend != nil {
		if r := w.cfg.onSend(w, x); r != "" {
			return x, r
		}
	}
	return x, ""
}

func (w *gw) process(m int, d *gdist) string {
	if err := w.P[m].GroupProcess(w.P[d.chain.sender].Addr, d.wire); err != nil {
		return w.fail("dist", "distribution %s refused by member %d: %v", d.id, m, err)
	}
	w.Done[m][d.id] = true
	k := [2]int{d.chain.sender, d.chain.dist}
	ss := w.Held[m][k]
	st := gstate{d.chain, d.n, map[uint32]bool{}}
	var rest []gstate
	for _, s := range ss {
		if s.chain == d.chain {
			st = s
		} else if s.chain.id != d.chain.id {
			rest = append(rest, s)
		}
	}
	if len(rest) >= 5 {
		rest = rest[1:]
	}
	w.Held[m][k] = append(rest, st)
	return ""
}

func (w *gw) recv(m int, x *gmsg) string {
	want := w.readable(m, x)
	before := w.P[m].Digest()
	pt, err := w.P[m].GroupDecrypt(w.P[x.chain.sender].Addr, x.wire)
	if !want {
		if s := refused(pt, err); s != "" {
			return w.fail("refuse", "message %s at member %d (consumed before: %v): %s", x.id, m, w.Seen[m][x.id], s)
		}
		if w.P[m].Digest() != before {
			return w.fail("refuse", "message %s at member %d was refused but changed stored state", x.id, m)
		}
		return ""
	}
	if err != nil {
		return w.fail("deliver", "message %s (iteration %d, %d bytes) not readable by member %d: %v", x.id, x.n, len(x.pt), m, err)
	}
	if !bytes.Equal(pt, x.pt) {
		return w.fail("deliver", "message %s (iteration %d) decrypted to %x, was %x", x.id, x.n, clip(pt), clip(x.pt))
	}
	w.Seen[m][x.id] = true
	s := w.held(m, x.chain)
	if x.n < s.next {
		delete(s.skip, x.n)
		return ""
	}
	for s.next < x.n {
		s.skip[s.next] = true
		s.next++
	}
	s.next = x.n + 1
	return ""
}

func (w *gw) Check() string {
	if w.Fail != "" {
		return w.Fail
	}
	if w.bad || w.cfg.check == nil {
		return ""
	}
	return w.cfg.check(w)
}

// run executes a script of operations separated by ";"; message and distribution
// arguments may be "last", "all" or an index.
func (w *gw) run(script string) *gw {
	for _, op := range strings.Split(script, ";") {
		op = strings.TrimSpace(op)
		if op == "" || w.bad {
			continue
		}
		f := strings.Fields(op)
		var res string
		switch {
		case len(f) == 3 && (f[0] == "D" || f[0] == "R"):
			var ids []string
			if f[0] == "D" {
				for _, d := range w.Dists {
					ids = append(ids, d.id)
				}
			} else {
				for _, x := range w.Msgs {
					ids = append(ids, x.id)
				}
			}
			switch f[2] {
			case "all":
			case "last":
				ids = ids[len(ids)-1:]
			default:
				var n int
				fmt.Sscan(f[2], &n)
				ids = ids[n : n+1]
			}
			for _, id := range ids {
				if res = w.Apply(f[0] + " " + f[1] + " " + id); res != "" {
					break
				}
			}
		default:
			res = w.Apply(op)
		}
		if res != "" {
			w.Fail = "in the prefix " + script + " at " + op + ": " + res
			w.bad = true
		}
	}
	w.Sent, w.Rekeys = map[[2]int]int{}, 0
	return w
}
