package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C20", "model_checking", c20) }

// confusable addresses: equal under one careless treatment of names or devices or
// another.
var confusable = []address.Address{
	{Name: "bob", DeviceID: 1},
	{Name: "bob", DeviceID: 2},
	{Name: "bob", DeviceID: 11},
	{Name: "bob1", DeviceID: 1},
	{Name: "bob.1", DeviceID: 1},
	{Name: "Bob", DeviceID: 1},
	{Name: "bob ", DeviceID: 1},
	{Name: "bob\x00", DeviceID: 1},
	{Name: "bob", DeviceID: 0},
	{Name: "bob", DeviceID: 257},
	{Name: "bob", DeviceID: 65537},
	{Name: "bob", DeviceID: 1<<31 + 1},
	{Name: "", DeviceID: 1},
	{Name: "bob.1", DeviceID: 11},
	{Name: "bo\u0062\u0301", DeviceID: 1},
	{Name: "bobbobbobbobbobbobbobbobbobbobbobbobbobbobbobbobbobbobbobbobbobbob1", DeviceID: 1},
	{Name: "bobbobbobbobbobbobbobbobbobbobbobbobbobbobbobbobbobbobbobbobbobbob2", DeviceID: 1},
	{Name: "bob\xff", DeviceID: 1},
	{Name: "bob\xfe", DeviceID: 1},
	{Name: "bob\ufffd", DeviceID: 1},
	{Name: "bob?", DeviceID: 1},
}

// iso is one device with conversations with peers whose addresses are similar.
type iso struct {
	hub   *world.Party
	peers []*world.Party
	addr  []address.Address
	opts  *isoOpts
	// What the hub has: sessions and their peers.
	open  []bool // the peer can send to the hub
	known []bool // the hub can send to the peer
	left  []int  // one-time pre-keys still unused
	n     int
	last  int
	fixed bool
}

type isoOpts struct {
	seed  int64
	mem   bool
	addrs []address.Address
	self  address.Address
}

func newIso(o *isoOpts) *iso {
	addrs := append([]address.Address{o.self}, o.addrs...)
	u := &world.Universe{Addrs: addrs, Signed: []prekey.ID{signedID}}
	for i := 0; i < 20; i++ {
		u.Pre = append(u.Pre, prekey.ID(100+i))
	}
	w := &iso{opts: o, addr: o.addrs, last: -1}
	w.hub = world.NewParty(o.seed, "hub", "hub", o.self, 9, u, o.mem)
	w.hub.AddSigned(signedID)
	for i := 0; i < 20; i++ {
		w.hub.AddPre(prekey.ID(100 + i))
		w.left = append(w.left, 100+i)
	}
	for i, a := range o.addrs {
		p := world.NewParty(o.seed, fmt.Sprint("peer", i), fmt.Sprint("peer", i), a, uint32(20+i), u, false)
		p.AddSigned(signedID)
		w.peers = append(w.peers, p)
	}
	w.open = make([]bool, len(addrs))
	w.known = make([]bool, len(addrs))
	return w
}

func (w *iso) Clone() core.Node { return w.clone() }

func (w *iso) clone() *iso {
	c := *w
	c.hub = w.hub.Clone()
	c.peers = append([]*world.Party(nil), w.peers...)
	for i := range c.peers {
		c.peers[i] = w.peers[i].Clone()
	}
	c.open = append([]bool(nil), w.open...)
	c.known = append([]bool(nil), w.known...)
	c.left = append([]int(nil), w.left...)
	return &c
}

func (w *iso) Key() [32]byte {
	xs := []any{w.hub.Digest(), w.n, fmt.Sprint(w.open, w.known, w.left, w.last)}
	for _, p := range w.peers {
		xs = append(xs, p.Digest())
	}
	return core.Digest(xs...)
}

func (w *iso) Ops() []string {
	var ops []string
	for i := range w.peers {
		ops = append(ops, fmt.Sprint("I", i)) // the hub starts a session
		if !w.open[i] {
			ops = append(ops, fmt.Sprint("J", i)) // the peer does
		}
		if w.known[i] {
			ops = append(ops, fmt.Sprint("S", i))
		}
		if w.open[i] {
			ops = append(ops, fmt.Sprint("R", i))
		}
	}
	return ops
}

// scope runs an operation of the hub for one address and judges which entries it
// used.
func (w *iso) scope(p *world.Party, i int, pre []prekey.ID, f func() error) (string, error) {
	var bad string
	before := p.Contents()
	okPre := func(id prekey.ID) bool {
		for _, x := range pre {
			if x == id {
				return true
			}
		}
		return false
	}
	p.SetHook(func(c world.Call, post bool) error {
		switch c.Store {
		case "session", "identity":
			if c.Addr != w.addr[i] {
				bad = fmt.Sprintf("an operation for %q device %d used %v of %q device %d", w.addr[i].Name, w.addr[i].DeviceID, c, c.Addr.Name, c.Addr.DeviceID)
			}
		case "prekey":
			if !okPre(c.ID) {
				bad = fmt.Sprintf("an operation for %v used one-time pre-key %d", w.addr[i], c.ID)
			}
		case "group":
			bad = fmt.Sprintf("a pairwise operation used %v", c)
		}
		return nil
	})
	err := f()
	p.SetHook(nil)
	p.Touched()
	if bad != "" {
		return bad, err
	}
	for _, d := range world.Diff(before, p.Contents()) {
		ok := false
		// Entries are named by their position in the list of addresses; 0 is the hub itself.
		for _, kind := range []string{"session", "identity"} {
			if strings.HasPrefix(d[1:], fmt.Sprintf("%s %d ", kind, i+1)) {
				ok = true
			}
		}
		for _, id := range pre {
			if d == fmt.Sprint("-prekey ", id) {
				ok = true
			}
		}
		if !ok {
			return fmt.Sprintf("an operation for %q device %d changed another entry: %q", w.addr[i].Name, w.addr[i].DeviceID, d), err
		}
	}
	return "", err
}

func (w *iso) Apply(op string) string {
	i, _ := strconv.Atoi(op[1:])
	w.last = i
	w.n++
	text := []byte(fmt.Sprint("text ", w.n))
	switch op[0] {
	case 'I':
		b := w.peers[i].Bundle(signedID, nil)
		res, err := w.scope(w.hub, i, nil, func() error { return w.hub.ProcessBundle(w.addr[i], b) })
		if res != "" {
			return res
		}
		if err != nil {
			return fmt.Sprintf("bundle of %q device %d refused: %v", w.addr[i].Name, w.addr[i].DeviceID, err)
		}
		w.known[i] = true
	case 'J':
		id := prekey.ID(w.left[0])
		w.left = w.left[1:]
		if err := w.peers[i].ProcessBundle(w.hub.Addr, w.hub.Bundle(signedID, &id)); err != nil {
			return ""
		}
		w.open[i] = true
		return w.deliver(i, text, id)
	case 'S':
		var typ message.CiphertextType
		var wire []byte
		res, err := w.scope(w.hub, i, nil, func() (e error) { typ, wire, e = w.hub.Encrypt(w.addr[i], text); return })
		if res != "" {
			return res
		}
		if err != nil {
			return fmt.Sprintf("encrypting for %q device %d failed: %v", w.addr[i].Name, w.addr[i].DeviceID, err)
		}
		// Only the peer it was encrypted for can read it.
		for j := range w.peers {
			p := w.peers[j]
			if j != i {
				p = p.Clone()
			}
			pt, err := p.Decrypt(w.hub.Addr, typ, wire)
			if j != i && err == nil {
				return fmt.Sprintf("a message for %v was read by %v: %q", w.addr[i], w.addr[j], clip(pt))
			}
			if j == i && (err != nil || string(pt) != string(text)) {
				return fmt.Sprintf("a message for %q device %d was not readable there: %v", w.addr[i].Name, w.addr[i].DeviceID, err)
			}
		}
		w.open[i] = true
	case 'R':
		return w.deliver(i, text)
	}
	return ""
}

func (w *iso) deliver(i int, text []byte, pre ...prekey.ID) string {
	typ, wire, err := w.peers[i].Encrypt(w.hub.Addr, text)
	if err != nil {
		return ""
	}
	if f, err := ref.ParsePreKey(wire); err == nil && typ == message.PreKeyType && f.Pre != nil {
		pre = append(pre, prekey.ID(*f.Pre))
	}
	var pt []byte
	res, err := w.scope(w.hub, i, pre, func() (e error) { pt, e = w.hub.Decrypt(w.addr[i], typ, wire); return })
	if res != "" {
		return res
	}
	if err != nil || string(pt) != string(text) {
		return fmt.Sprintf("message from %q device %d: %q, %v", w.addr[i].Name, w.addr[i].DeviceID, clip(pt), err)
	}
	w.known[i] = true
	return ""
}

// Check redirects messages: a message of one peer's session is offered as one of
// every other peer.
func (w *iso) Check() string {
	for i := range w.peers {
		if !w.open[i] {
			continue
		}
		typ, wire, err := w.peers[i].Clone().Encrypt(w.hub.Addr, []byte("redirected"))
		if err != nil {
			continue
		}
		if typ == message.PreKeyType {
			// The set-up part authenticates an identity key, not an address; the message
			// itself belongs to one session.
			f, err := ref.ParsePreKey(wire)
			if err != nil {
				continue
			}
			wire = f.Message
		}
		for j := range w.peers {
			if i == j || w.last >= 0 && i != w.last && j != w.last {
				continue
			}
			h := w.hub.Clone()
			before := h.Digest()
			pt, err := h.Decrypt(w.addr[j], message.WhisperType, wire)
			if err == nil {
				return fmt.Sprintf("a message of %q device %d was accepted from %q device %d: %q", w.addr[i].Name, w.addr[i].DeviceID, w.addr[j].Name, w.addr[j].DeviceID, clip(pt))
			}
			if h.Digest() != before {
				return fmt.Sprintf("a refused message of %v offered as one of %v changed stored state", w.addr[i], w.addr[j])
			}
		}
	}
	return ""
}

// ---- groups ----

var confusableDist = func() []distribution.ID {
	var out []distribution.ID
	for _, s := range []string{
		"d1d1d1d1-7000-11eb-b32a-33b8a8a487a6",
		"d1d1d1d1-7000-11eb-b32a-33b8a8a487a7",
		"d1d1d1d0-7000-11eb-b32a-33b8a8a487a6",
		"e1d1d1d1-7000-11eb-b32a-33b8a8a487a6",
		"d1d1d1d1-7000-41eb-b32a-33b8a8a487a6",
		"d1d1d1d1-7000-11eb-332a-33b8a8a487a6",
		"a687a4a8-b833-2ab3-eb11-0070d1d1d1d1",
		"00000000-0000-0000-0000-000000000000",
	} {
		out = append(out, distribution.MustParse(s))
	}
	return out
}()

// giso is a member of several similar groups with several similar senders.
type giso struct {
	hub     *world.Party
	senders []address.Address
	dists   []distribution.ID
	S       map[string]*ref.GroupSender // sender and group
	has     map[string]bool
	own     map[int]bool
	n       int
	last    string
	seed    int64
}

func newGiso(seed int64, mem bool, self address.Address, senders []address.Address, dists []distribution.ID) *giso {
	u := &world.Universe{Addrs: append([]address.Address{self}, senders...)}
	for _, a := range u.Addrs {
		for _, d := range dists {
			u.Groups = append(u.Groups, world.GroupKey{Addr: a, Dist: d})
		}
	}
	w := &giso{senders: senders, dists: dists, S: map[string]*ref.GroupSender{}, has: map[string]bool{}, own: map[int]bool{}, seed: seed}
	w.hub = world.NewParty(seed, "hub", "hub", self, 9, u, mem)
	for s := range senders {
		for d := range dists {
			k := fmt.Sprint(s, ",", d)
			// All chains have the same identifier, which does not tell them apart.
			w.S[k] = &ref.GroupSender{Dist: dists[d].String(), ChainID: 1234, Chain: ref.Chain{Key: core.Bytes(32, seed, "giso chain", k)}, SigPriv: ref.Clamp(core.Bytes(32, seed, "giso sig", k)), Memo: true}
		}
	}
	return w
}

func (w *giso) Clone() core.Node { return w.clone() }

func (w *giso) clone() *giso {
	c := *w
	c.hub = w.hub.Clone()
	c.S = map[string]*ref.GroupSender{}
	for k, g := range w.S {
		x := *g
		c.S[k] = &x
	}
	c.has, c.own = map[string]bool{}, map[int]bool{}
	for k := range w.has {
		c.has[k] = true
	}
	for k := range w.own {
		c.own[k] = true
	}
	return &c
}

func (w *giso) Key() [32]byte {
	return core.Digest(w.hub.Digest(), w.n, w.last, fmt.Sprint(w.has, w.own))
}

func (w *giso) Ops() []string {
	var ops []string
	for s := range w.senders {
		for d := range w.dists {
			k := fmt.Sprint(s, ",", d)
			if w.has[k] {
				ops = append(ops, "M"+k)
			} else {
				ops = append(ops, "D"+k)
			}
		}
	}
	for d := range w.dists {
		if w.own[d] {
			ops = append(ops, fmt.Sprint("E", d))
		} else {
			ops = append(ops, fmt.Sprint("N", d))
		}
	}
	return ops
}

// scope judges which entries an operation for a sender (-1: the hub) and group used.
func (w *giso) scope(s, d int, f func() error) (string, error) {
	who := w.hub.Addr
	if s >= 0 {
		who = w.senders[s]
	}
	before := w.hub.Contents()
	var bad string
	w.hub.SetHook(func(c world.Call, post bool) error {
		if c.Store == "group" && (c.Addr != who || c.Dist != w.dists[d]) {
			bad = fmt.Sprintf("an operation for sender %q device %d, group %s used %v of sender %q device %d, group %s", who.Name, who.DeviceID, w.dists[d], c, c.Addr.Name, c.Addr.DeviceID, c.Dist)
		}
		if c.Store != "group" && c.Store != "random" {
			bad = fmt.Sprintf("a group operation used %v", c)
		}
		return nil
	})
	err := f()
	w.hub.SetHook(nil)
	w.hub.Touched()
	if bad != "" {
		return bad, err
	}
	for _, x := range world.Diff(before, w.hub.Contents()) {
		if !strings.HasPrefix(x[1:], fmt.Sprintf("group %d ", (s+1)*len(w.dists)+d)) {
			return fmt.Sprintf("an operation for sender %q device %d, group %s changed another entry: %q", who.Name, who.DeviceID, w.dists[d], x), err
		}
	}
	return "", err
}

func (w *giso) Apply(op string) string {
	w.n++
	text := []byte(fmt.Sprint("text ", w.n))
	s, d := -1, 0
	k := op[1:]
	if a, b, ok := strings.Cut(k, ","); ok {
		s, _ = strconv.Atoi(a)
		d, _ = strconv.Atoi(b)
		w.last = k
	} else {
		d, _ = strconv.Atoi(k)
	}
	switch op[0] {
	case 'D':
		res, err := w.scope(s, d, func() error { return w.hub.GroupProcess(w.senders[s], w.S[k].Distribution()) })
		if res != "" {
			return res
		}
		if err != nil {
			return fmt.Sprintf("distribution %s refused: %v", k, err)
		}
		w.has[k] = true
	case 'M':
		m := w.S[k].Encrypt(text, make([]byte, 64))
		var pt []byte
		res, err := w.scope(s, d, func() (e error) { pt, e = w.hub.GroupDecrypt(w.senders[s], m); return })
		if res != "" {
			return res
		}
		if err != nil || string(pt) != string(text) {
			return fmt.Sprintf("group message %s: %q, %v", k, clip(pt), err)
		}
	case 'N':
		res, err := w.scope(-1, d, func() error { _, e := w.hub.NewDist(w.dists[d]); return e })
		if res != "" {
			return res
		}
		if err != nil {
			return fmt.Sprintf("new distribution for group %d: %v", d, err)
		}
		w.own[d] = true
	case 'E':
		res, err := w.scope(-1, d, func() error { _, e := w.hub.GroupEncrypt(w.dists[d], text); return e })
		if res != "" {
			return res
		}
		if err != nil {
			return fmt.Sprintf("encrypting for group %d: %v", d, err)
		}
	}
	return ""
}

// Check offers messages under wrong senders, and with the group changed.
func (w *giso) Check() string {
	for _, k := range core.Keys(w.has) {
		a, _, _ := strings.Cut(k, ",")
		s, _ := strconv.Atoi(a)
		g := *w.S[k]
		m := g.Encrypt([]byte("redirected"), make([]byte, 64))
		for j, x := range append([]address.Address{w.hub.Addr}, w.senders...) {
			if j-1 == s {
				continue
			}
			h := w.hub.Clone()
			before := h.Digest()
			if pt, err := h.GroupDecrypt(x, m); err == nil {
				return fmt.Sprintf("a group message of %q device %d was accepted as one of %q device %d: %q", w.senders[s].Name, w.senders[s].DeviceID, x.Name, x.DeviceID, clip(pt))
			}
			if h.Digest() != before {
				return fmt.Sprintf("a refused group message of %v offered as one of %v changed stored state", w.senders[s], x)
			}
		}
		for _, d := range w.dists {
			if d.String() == g.Dist {
				continue
			}
			// The same chain, but for another group.
			o := g
			o.Dist = d.String()
			h := w.hub.Clone()
			if pt, err := h.GroupDecrypt(w.senders[s], o.Encrypt([]byte("redirected"), make([]byte, 64))); err == nil {
				return fmt.Sprintf("a message for group %s in a chain of group %s was accepted: %q", d, g.Dist, clip(pt))
			}
		}
	}
	return ""
}

func c20(r *core.Run) {
	self := []address.Address{{Name: "alice", DeviceID: 1}, {Name: "bob", DeviceID: 3}}
	// Every pair of similar addresses, several steps each; then all together.
	for _, mem := range []bool{true, false} {
		for i := range confusable {
			for j := i + 1; j < len(confusable); j++ {
				depth := core.Pick(r, 4, 5)
				if i > 0 {
					depth--
				}
				o := &isoOpts{r.Seed, mem, []address.Address{confusable[i], confusable[j]}, self[0]}
				r.Explore(core.Space{Name: fmt.Sprintf("pair %d,%d mem %v", i, j, mem), Depth: depth, Root: func() core.Node { return newIso(o) }})
			}
		}
		for k, s := range self {
			o := &isoOpts{r.Seed, mem, confusable, s}
			if k == 1 {
				o.addrs = confusable[:6]
			}
			r.Explore(core.Space{Name: fmt.Sprintf("%d addresses mem %v self %v", len(o.addrs), mem, s), Depth: core.Pick(r, 2, 3), Root: func() core.Node { return newIso(o) }})
		}
		for i := 1; i < len(confusable); i++ {
			sn := []address.Address{confusable[0], confusable[i]}
			ds := []distribution.ID{confusableDist[0], confusableDist[1+(i%(len(confusableDist)-1))]}
			r.Explore(core.Space{Name: fmt.Sprintf("senders 0,%d mem %v", i, mem), Depth: core.Pick(r, 3, 5), Root: func() core.Node { return newGiso(r.Seed, mem, self[1], sn, ds) }})
		}
		r.Explore(core.Space{Name: fmt.Sprintf("similar groups mem %v", mem), Depth: core.Pick(r, 3, 4), Root: func() core.Node {
			return newGiso(r.Seed, mem, self[1], confusable[:1], confusableDist)
		}})
		// Session objects made for one group that are given what belongs to another.
		r.Explore(core.Space{Name: fmt.Sprintf("objects of another group mem %v", mem), Depth: core.Pick(r, 5, 6), Root: func() core.Node {
			w := newGiso(r.Seed, mem, self[1], confusable[:1], confusableDist[:2])
			w.hub.RecvDist = confusableDist[0]
			return w
		}})
	}
}
