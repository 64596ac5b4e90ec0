package main

import (
	"bytes"
	"crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/mc/core"
	"verif/mc/world"
)

func init() { register("C21", "model_checking", c21) }

// cworld is a device with one conversation per operation that will run.
type cworld struct {
	seed   int64
	d      *world.Party
	nAddr  int
	nPre   int
	shared map[string]any
	u      *world.Universe
}

func newCworld(seed int64, mem bool) *cworld {
	u := &world.Universe{Signed: []prekey.ID{signedID}}
	w := &cworld{seed: seed, u: u, shared: map[string]any{}}
	w.d = world.NewParty(seed, "device", "device", address.Address{Name: "me", DeviceID: 1}, 7, u, mem)
	w.d.AddSigned(signedID)
	u.Addrs = append(u.Addrs, w.d.Addr)
	return w
}

// peer makes another device with an address that is not used yet.
func (w *cworld) peer() *world.Party {
	w.nAddr++
	// Neighbours share the name, or the device.
	n := w.nAddr
	a := address.Address{Name: fmt.Sprint("bob", (n-1)/2), DeviceID: address.DeviceID(1 + (n-1)%2)}
	if w.d.Mem != nil {
		a = address.Address{Name: fmt.Sprint("bob", (n-1)%2), DeviceID: address.DeviceID(1 + (n-1)/2)}
	}
	w.u.Addrs = append(w.u.Addrs, a)
	p := world.NewParty(w.seed, fmt.Sprint("peer", w.nAddr), fmt.Sprint("peer", w.nAddr), a, uint32(100+w.nAddr), w.u, false)
	p.AddSigned(signedID)
	return p
}

// preID stores a one-time pre-key of the device that is not used yet.
func (w *cworld) preID() *prekey.ID {
	w.nPre++
	id := prekey.ID(50 + w.nPre)
	w.u.Pre = append(w.u.Pre, id)
	w.d.AddPre(id)
	return &id
}

// dist is a group in which only the operation of this number sends; all receive in the
// first one.
func (w *cworld) dist(s int) distribution.ID { return confusableDist[s] }

func (w *cworld) group(a address.Address, d distribution.ID) {
	w.u.Groups = append(w.u.Groups, world.GroupKey{Addr: a, Dist: d})
}

func check1(err error) {
	if err != nil {
		panic("set-up: " + err.Error())
	}
}

type wmsg struct {
	typ  message.CiphertextType
	wire []byte
}

func (w *cworld) enc(p *world.Party, to address.Address, pt string) wmsg {
	typ, wire, err := p.Encrypt(to, []byte(pt))
	check1(err)
	return wmsg{typ, wire}
}

func (w *cworld) dec(p *world.Party, from address.Address, m wmsg) {
	_, err := p.Decrypt(from, m.typ, m.wire)
	check1(err)
}

// incoming makes a peer that has set up a session with the device.
func (w *cworld) incoming(oneTime bool) *world.Party {
	p := w.peer()
	var id *prekey.ID
	if oneTime {
		id = w.preID()
	}
	check1(p.ProcessBundle(w.d.Addr, w.d.Bundle(signedID, id)))
	return p
}

// established makes a peer with a session that both sides have used.
func (w *cworld) established(oneTime bool) *world.Party {
	p := w.incoming(oneTime)
	w.dec(w.d, p.Addr, w.enc(p, w.d.Addr, "one"))
	w.dec(p, w.d.Addr, w.enc(w.d, p.Addr, "two"))
	return p
}

type cop func(t *cthread, p *world.Party)

func (t *cthread) result(err error, parts ...[]byte) {
	t.out = fmt.Sprintf("%v %x", err, parts)
	t.weak = fmt.Sprint(err)
}

func doDecrypt(from address.Address, m wmsg) cop {
	return func(t *cthread, p *world.Party) {
		pt, err := p.DecryptWith(from, m.typ, m.wire, t.rnd("dec"))
		t.result(err, pt)
	}
}

var samePlaintext = []byte("a plaintext that all operations share")

func doEncrypt(to address.Address) cop {
	return func(t *cthread, p *world.Party) {
		typ, wire, err := p.Encrypt(to, samePlaintext)
		t.result(err, []byte{byte(typ)}, wire)
	}
}

type ckind struct {
	name string
	prep func(w *cworld, s int) cop
}

func cut(b []byte, at int) []byte {
	c := append([]byte(nil), b...)
	if at < 0 {
		at += len(c)
	}
	c[at] ^= 1
	return c
}

var ckinds = []ckind{
	{"process bundle", func(w *cworld, s int) cop {
		p := w.peer()
		id := prekey.ID(3)
		p.AddPre(id)
		b := p.Bundle(signedID, &id)
		return func(t *cthread, d *world.Party) {
			t.result(world.Protect(func() error { return d.Session(p.Addr).ProcessPreKeyBundle(world.Ctx, t.rnd("bundle"), b) }))
		}
	}},
	{"process bundle again, no one-time", func(w *cworld, s int) cop {
		p := w.established(true)
		b := p.Bundle(signedID, nil)
		return func(t *cthread, d *world.Party) {
			t.result(world.Protect(func() error { return d.Session(p.Addr).ProcessPreKeyBundle(world.Ctx, t.rnd("bundle"), b) }))
		}
	}},
	{"refused bundle", func(w *cworld, s int) cop {
		p := w.peer()
		b := p.Bundle(signedID, nil)
		b.SignedPreKeySignature = cut(b.SignedPreKeySignature, 5)
		return func(t *cthread, d *world.Party) {
			t.result(world.Protect(func() error { return d.Session(p.Addr).ProcessPreKeyBundle(world.Ctx, t.rnd("bundle"), b) }))
		}
	}},
	{"encrypt set-up", func(w *cworld, s int) cop {
		p := w.peer()
		check1(w.d.ProcessBundle(p.Addr, p.Bundle(signedID, nil)))
		return doEncrypt(p.Addr)
	}},
	{"encrypt", func(w *cworld, s int) cop { return doEncrypt(w.established(true).Addr) }},
	{"encrypt without session", func(w *cworld, s int) cop { return doEncrypt(w.peer().Addr) }},
	{"decrypt set-up", func(w *cworld, s int) cop {
		p := w.incoming(true)
		return doDecrypt(p.Addr, w.enc(p, w.d.Addr, fmt.Sprint("hello", s)))
	}},
	{"decrypt set-up without one-time", func(w *cworld, s int) cop {
		p := w.incoming(false)
		return doDecrypt(p.Addr, w.enc(p, w.d.Addr, fmt.Sprint("hello", s)))
	}},
	{"decrypt set-up over old session", func(w *cworld, s int) cop {
		p := w.established(true)
		check1(p.ProcessBundle(w.d.Addr, w.d.Bundle(signedID, w.preID())))
		return doDecrypt(p.Addr, w.enc(p, w.d.Addr, "new"))
	}},
	{"decrypt first reply", func(w *cworld, s int) cop {
		p := w.peer()
		check1(w.d.ProcessBundle(p.Addr, p.Bundle(signedID, nil)))
		w.dec(p, w.d.Addr, w.enc(w.d, p.Addr, "x"))
		return doDecrypt(p.Addr, w.enc(p, w.d.Addr, fmt.Sprint("reply", s)))
	}},
	{"decrypt same chain", func(w *cworld, s int) cop {
		p := w.established(true)
		w.dec(w.d, p.Addr, w.enc(p, w.d.Addr, "three"))
		return doDecrypt(p.Addr, w.enc(p, w.d.Addr, "four"))
	}},
	{"decrypt skipping", func(w *cworld, s int) cop {
		p := w.established(true)
		w.enc(p, w.d.Addr, "three")
		w.enc(p, w.d.Addr, "four")
		return doDecrypt(p.Addr, w.enc(p, w.d.Addr, "five"))
	}},
	{"decrypt skipped", func(w *cworld, s int) cop {
		p := w.established(true)
		m := w.enc(p, w.d.Addr, "three")
		w.dec(w.d, p.Addr, w.enc(p, w.d.Addr, "four"))
		return doDecrypt(p.Addr, m)
	}},
	{"decrypt in archived session", func(w *cworld, s int) cop {
		p := w.established(true)
		m := w.enc(p, w.d.Addr, "three")
		check1(p.ProcessBundle(w.d.Addr, w.d.Bundle(signedID, w.preID())))
		w.dec(w.d, p.Addr, w.enc(p, w.d.Addr, "new"))
		return doDecrypt(p.Addr, m)
	}},
	{"decrypt altered", func(w *cworld, s int) cop {
		p := w.established(true)
		m := w.enc(p, w.d.Addr, "three")
		m.wire = cut(m.wire, -1)
		return doDecrypt(p.Addr, m)
	}},
	{"decrypt duplicate", func(w *cworld, s int) cop {
		p := w.established(true)
		m := w.enc(p, w.d.Addr, "three")
		w.dec(w.d, p.Addr, m)
		return doDecrypt(p.Addr, m)
	}},
	{"decrypt untrusted", func(w *cworld, s int) cop {
		p := w.incoming(true)
		w.d.SetTrust(p.Addr, w.peer().KP.IdentityKey())
		return doDecrypt(p.Addr, w.enc(p, w.d.Addr, "hello"))
	}},
	{"new distribution", func(w *cworld, s int) cop {
		w.group(w.d.Addr, w.dist(s))
		return doDist(w.dist(s))
	}},
	{"distribution again", func(w *cworld, s int) cop {
		w.group(w.d.Addr, w.dist(s))
		_, err := w.d.NewDist(w.dist(s))
		check1(err)
		return doDist(w.dist(s))
	}},
	{"group encrypt", func(w *cworld, s int) cop {
		w.group(w.d.Addr, w.dist(s))
		_, err := w.d.NewDist(w.dist(s))
		check1(err)
		return func(t *cthread, d *world.Party) {
			wire, err := d.GroupEncryptWith(w.dist(s), samePlaintext, t.rnd("genc"))
			t.result(err, wire)
		}
	}},
	{"process distribution", func(w *cworld, s int) cop {
		p := w.peer()
		w.group(p.Addr, distA)
		wire, err := p.NewDist(distA)
		check1(err)
		return func(t *cthread, d *world.Party) { t.result(d.GroupProcess(p.Addr, wire)) }
	}},
	{"group decrypt", func(w *cworld, s int) cop { return groupDec(w, s, 1, false) }},
	{"group decrypt skipping", func(w *cworld, s int) cop { return groupDec(w, s, 4, false) }},
	{"group decrypt altered", func(w *cworld, s int) cop { return groupDec(w, s, 2, true) }},
	{"read one group message object", func(w *cworld, s int) cop {
		type sh struct {
			p *world.Party
			d *message.SenderKeyDistribution
			m *message.SenderKey
		}
		x, ok := w.shared["group"].(*sh)
		if !ok {
			x = &sh{p: w.peer()}
			wire, err := x.p.NewDist(distB)
			check1(err)
			x.d, err = message.NewSenderKeyDistributionFromBytes(wire)
			check1(err)
			wire, err = x.p.GroupEncrypt(distB, samePlaintext)
			check1(err)
			x.m, err = message.NewSenderKeyFromBytes(wire)
			check1(err)
			w.shared["group"] = x
			w.group(x.p.Addr, distB)
		}
		base := w.peer()
		return func(t *cthread, d *world.Party) {
			q := base.Clone()
			q.SetHook(t.hook)
			g := q.GroupSession(x.p.Addr, distB)
			var pt []byte
			err := world.Protect(func() error {
				if err := g.ProcessSenderKeyDistribution(world.Ctx, x.d); err != nil {
					return err
				}
				var err error
				pt, err = g.DecryptMessage(world.Ctx, x.m)
				return err
			})
			t.result(err, pt)
		}
	}},
	{"use one bundle object", func(w *cworld, s int) cop {
		b, ok := w.shared["bundle"].(*prekey.Bundle)
		if !ok {
			p := w.peer()
			id := prekey.ID(3)
			p.AddPre(id)
			b = p.Bundle(signedID, &id)
			w.shared["bundle"] = b
		}
		base, to := w.peer(), address.Address{Name: "bob", DeviceID: 1}
		return func(t *cthread, d *world.Party) {
			q := base.Clone()
			q.SetHook(t.hook)
			err := world.Protect(func() error { return q.Session(to).ProcessPreKeyBundle(world.Ctx, t.rnd("bundle"), b) })
			if err != nil {
				t.result(err)
				return
			}
			_, wire, err := q.Encrypt(to, samePlaintext)
			t.result(err, wire)
		}
	}},
	{"keys and signatures", func(w *cworld, s int) cop {
		kp := w.d.KP
		other := world.NewKeyPair(w.seed, fmt.Sprint("other", s))
		return func(t *cthread, d *world.Party) {
			var parts [][]byte
			err := world.Protect(func() error {
				g, err := curve.GenerateKeyPair(t.rnd("gen"))
				if err != nil {
					return err
				}
				parts = append(parts, g.PublicKey().Bytes())
				id, err := identity.GenerateKeyPair(t.rnd("ident"))
				if err != nil {
					return err
				}
				sig, err := kp.PrivateKey().Sign(t.rnd("sign"), samePlaintext, other.PublicKey().Bytes())
				if err != nil {
					return err
				}
				ok, err := kp.IdentityKey().PublicKey().VerifySignature(sig, samePlaintext, other.PublicKey().Bytes())
				parts = append(parts, sig, []byte(fmt.Sprint(ok)))
				if err != nil {
					return err
				}
				alt, err := kp.SignAlternateIdentity(t.rnd("alt"), id.IdentityKey())
				if err != nil {
					return err
				}
				ok, err = kp.IdentityKey().VerifyAlternateIdentity(alt, id.IdentityKey())
				parts = append(parts, alt, []byte(fmt.Sprint(ok)))
				if err != nil {
					return err
				}
				sec, err := kp.PrivateKey().Agreement(other.PublicKey())
				parts = append(parts, sec)
				return err
			})
			t.result(err, parts...)
		}
	}},
	{"fingerprint", func(w *cworld, s int) cop {
		other := w.peer().KP.IdentityKey()
		return func(t *cthread, d *world.Party) {
			var out string
			err := world.Protect(func() error {
				f, err := fingerprint.New(2, 40, []byte("me"), w.d.KP.IdentityKey(), []byte{byte(s)}, other)
				if err != nil {
					return err
				}
				t.yield()
				out = f.String()
				return nil
			})
			t.result(err, []byte(out))
		}
	}},
}

// freshPair makes two devices inside an operation, so that every key of theirs is used
// for the first time while the operations run.
func freshPair(t *cthread, w *cworld) (a, b *world.Party) {
	n := t.nr
	u := &world.Universe{Addrs: []address.Address{{Name: fmt.Sprint("new", n), DeviceID: 1}, {Name: "other", DeviceID: 2}}, Signed: []prekey.ID{signedID}, Pre: []prekey.ID{5}}
	a = world.NewParty(w.seed+n<<8, "fresh a", "fresh a", u.Addrs[0], 1, u, false)
	b = world.NewParty(w.seed+n<<8, "fresh b", "fresh b", u.Addrs[1], 2, u, false)
	b.AddSigned(signedID)
	b.AddPre(5)
	a.SetHook(t.hook)
	b.SetHook(t.hook)
	return a, b
}

func init() {
	ckinds = append(ckinds, ckind{"a whole conversation", func(w *cworld, s int) cop {
		return func(t *cthread, _ *world.Party) {
			a, b := freshPair(t, w)
			id := prekey.ID(5)
			err := a.ProcessBundle(b.Addr, b.Bundle(signedID, &id))
			for i := 0; i < 3 && err == nil; i++ {
				x, y := a, b
				if i == 1 {
					x, y = b, a
				}
				var typ message.CiphertextType
				var wire, pt []byte
				if typ, wire, err = x.Encrypt(y.Addr, samePlaintext); err != nil {
					break
				}
				pt, err = y.Decrypt(x.Addr, typ, wire)
				if err == nil && !bytes.Equal(pt, samePlaintext) {
					err = errors.New("wrong plaintext")
				}
			}
			t.result(err)
		}
	}}, ckind{"a whole group conversation", func(w *cworld, s int) cop {
		return func(t *cthread, _ *world.Party) {
			a, b := freshPair(t, w)
			dist := distribution.MustParse(fmt.Sprintf("%08x-7000-11eb-b32a-33b8a8a487a6", t.nr))
			u := &world.Universe{Addrs: a.U.Addrs, Groups: []world.GroupKey{{Addr: a.Addr, Dist: dist}}}
			a.U, b.U = u, u
			var wire []byte
			err := world.Protect(func() error {
				m, err := a.GroupSession(a.Addr, dist).NewSenderKeyDistribution(world.Ctx, t.rnd("dist"))
				if err == nil {
					wire = append(wire, m.Bytes()...)
				}
				return err
			})
			if err == nil {
				err = b.GroupProcess(a.Addr, wire)
			}
			for i := 0; i < 2 && err == nil; i++ {
				var pt []byte
				if wire, err = a.GroupEncrypt(dist, samePlaintext); err != nil {
					break
				}
				pt, err = b.GroupDecrypt(a.Addr, wire)
				if err == nil && !bytes.Equal(pt, samePlaintext) {
					err = errors.New("wrong plaintext")
				}
			}
			if err == nil {
				var f *fingerprint.Fingerprint
				if f, err = fingerprint.New(2, 40, []byte(a.Addr.Name), a.KP.IdentityKey(), []byte("x"), b.KP.IdentityKey()); err == nil && len(f.String()) != 60 {
					err = errors.New("wrong fingerprint")
				}
			}
			t.result(err)
		}
	}})
}

func doDist(dist distribution.ID) cop {
	return func(t *cthread, d *world.Party) {
		var out []byte
		err := world.Protect(func() error {
			m, err := d.GroupSession(d.Addr, dist).NewSenderKeyDistribution(world.Ctx, t.rnd("dist"))
			if err == nil {
				out = append(out, m.Bytes()...)
			}
			return err
		})
		t.result(err, out)
	}
}

func groupDec(w *cworld, s, n int, alter bool) cop {
	p := w.peer()
	w.group(p.Addr, distA)
	wire, err := p.NewDist(distA)
	check1(err)
	check1(w.d.GroupProcess(p.Addr, wire))
	for i := 0; i < n; i++ {
		wire, err = p.GroupEncrypt(distA, []byte(fmt.Sprint("group", i)))
		check1(err)
	}
	if alter {
		wire = cut(wire, -3)
	}
	return func(t *cthread, d *world.Party) {
		pt, err := d.GroupDecrypt(p.Addr, wire)
		t.result(err, pt)
	}
}

// hook yields before every call to a store.
func (t *cthread) hook(c world.Call, post bool) error {
	if !post {
		t.yield()
	}
	return nil
}

// threads counts the runs of operations.
var threads int64

// crun is one set of operations.
type crun struct {
	w     *cworld
	names []string
	ops   []cop
	mem   bool
	// solo results
	out, weak []string
	steps     []int
	want      map[string][32]byte
	exact     bool
}

func (c *crun) thread(i int) *cthread {
	threads++
	return &cthread{nr: threads, seed: c.w.seed, name: fmt.Sprint(i), glob: core.NewPRF(c.w.seed, "c21 global", i)}
}

// start returns the operations as threads on fresh stores: shared ones, or under
// the race detector one copy for each, so that no lock of the stores orders the
// operations.
func (c *crun) start(which []int) (ts []*cthread, body func(t *cthread), after func() map[string][32]byte) {
	base := c.w.d.Clone()
	ps := map[*cthread]*world.Party{}
	fn := map[*cthread]cop{}
	for _, i := range which {
		t := c.thread(i)
		ts = append(ts, t)
		if raceBuild {
			ps[t] = c.w.d.Clone()
			ps[t].SetHook(t.hook)
		} else {
			ps[t] = base.View(t.hook)
		}
		fn[t] = c.ops[i]
	}
	return ts, func(t *cthread) {
			defer func() {
				if e := recover(); e != nil {
					t.out = fmt.Sprintf("panic: %v", e)
					t.weak = t.out
				}
			}()
			fn[t](t, ps[t])
		}, func() map[string][32]byte {
			return base.Contents()
		}
}

func newCrun(seed int64, mem bool, ks []int) *crun {
	c := &crun{w: newCworld(seed, mem), mem: mem, exact: true}
	for s, k := range ks {
		c.names = append(c.names, ckinds[k].name)
		c.ops = append(c.ops, ckinds[k].prep(c.w, s))
	}
	before := c.w.d.Contents()
	c.want = c.w.d.Contents()
	for i := range c.ops {
		var o, wk string
		var after map[string][32]byte
		for n := 0; n < 2; n++ {
			ts, body, cont := c.start([]int{i})
			runSchedule(ts, body, nil)
			cts := cont()
			if n == 1 && (ts[0].out != o || len(world.Diff(cts, after)) != 0) {
				// Not a function of the given random source alone.
				c.exact = false
			}
			o, wk, after = ts[0].out, ts[0].weak, cts
			if n == 0 {
				c.steps = append(c.steps, ts[0].steps)
			}
		}
		c.out, c.weak = append(c.out, o), append(c.weak, wk)
		for k, v := range after {
			if before[k] != v {
				c.want[k] = v
			}
		}
		for k := range before {
			if _, ok := after[k]; !ok {
				delete(c.want, k)
			}
		}
	}
	return c
}

// schedule runs one schedule and judges it.
func (c *crun) schedule(prefix []int) (trace []decision, ok bool, bad string) {
	all := make([]int, len(c.ops))
	for i := range all {
		all[i] = i
	}
	ts, body, after := c.start(all)
	trace, ok = runSchedule(ts, body, prefix)
	if !ok {
		return trace, false, fmt.Sprintf("the operations %q do not finish when they run at the same time", c.names)
	}
	for i, t := range ts {
		if c.exact && t.out != c.out[i] || t.weak != c.weak[i] {
			return trace, ok, fmt.Sprintf("%q, running at the same time as %q, has another result than alone: %.200s, not %.200s", c.names[i], c.others(i), t.out, c.out[i])
		}
	}
	if c.exact && !raceBuild {
		if d := world.Diff(c.want, after()); len(d) != 0 {
			return trace, ok, fmt.Sprintf("after %q ran at the same time the stores differ from separate runs: %v", c.names, d)
		}
	}
	return trace, ok, ""
}

func (c *crun) others(i int) []string {
	return append(append([]string(nil), c.names[:i]...), c.names[i+1:]...)
}

// interleavings of two sequences of n and m steps.
func choose(n, m, limit int) int {
	if n+m > 40 {
		return limit + 1
	}
	r := 1
	for i := 1; i <= m; i++ {
		r = r * (n + i) / i
		if r > limit*64 {
			return limit + 1
		}
	}
	return r
}

type cwork struct {
	Runs, Schedules, Steps, Full, Bounded int
	MaxBound                              int
	Bad                                   *core.Violation
	Races                                 int
	Truncated                             bool
	Sample                                any
}

// c21sets lists the sets of operations to run: pairs, then triples.
func c21sets(thorough bool) (sets [][]int, mems []bool) {
	n := len(ckinds)
	for _, mem := range []bool{false, true} {
		if mem && raceBuild {
			continue
		}
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				sets, mems = append(sets, []int{i, j}), append(mems, mem)
			}
		}
	}
	trip := []int{0, 3, 6, 9, 11, 17, 20, 22}
	if thorough {
		trip = nil
		for i := range ckinds {
			trip = append(trip, i)
		}
	}
	if !raceBuild {
		for a := range trip {
			for b := a; b < len(trip); b++ {
				for c := b; c < len(trip); c++ {
					sets, mems = append(sets, []int{trip[a], trip[b], trip[c]}), append(mems, false)
				}
			}
		}
	}
	return
}

// c21worker explores its share of the sets and prints what it found.
func c21worker(tier string, part, of int, seed int64, only int) int {
	runtime.GOMAXPROCS(1)
	g := &schedRand{core.NewPRF(1, "global")}
	rand.Reader, world.GlobalRand = g, g
	thorough := tier == "thorough"
	sets, mems := c21sets(thorough)
	var res cwork
	deadline := time.Now().Add(map[bool]time.Duration{false: 6 * time.Minute, true: 150 * time.Minute}[thorough])
	for x := range sets {
		if only >= 0 && x != only || only < 0 && x%of != part || res.Bad != nil {
			continue
		}
		if time.Now().After(deadline) {
			res.Truncated = true
			continue
		}
		c := newCrun(seed, mems[x], sets[x])
		full := map[bool]int{false: 1500, true: 60000}[thorough]
		bound := 1000
		count := 0
		if len(c.ops) == 2 {
			count = choose(c.steps[0]+1, c.steps[1]+1, full)
		}
		switch {
		case len(c.ops) == 3:
			bound = map[bool]int{false: 1, true: 2}[thorough]
		case raceBuild:
			bound = map[bool]int{false: 1, true: 4}[thorough]
		case (mems[x] || c.steps[0]+c.steps[1] > 25) && !thorough:
			bound = 1
		case count > full:
			bound = map[bool]int{false: 2, true: 5}[thorough]
		}
		if bound == 1000 {
			res.Full++
		} else {
			res.Bounded++
			if bound > res.MaxBound {
				res.MaxBound = bound
			}
		}
		res.Runs++
		res.Schedules += allSchedules(bound, 0, func(prefix []int) ([]decision, bool) {
			trace, ok, bad := c.schedule(prefix)
			res.Steps += len(trace)
			if raceBuild {
				if n := raceReports(); n > res.Races {
					res.Races = n
					if bad == "" {
						bad = "data race"
					}
				}
			}
			if bad != "" {
				var ch []int
				for _, d := range trace {
					ch = append(ch, d.chosen)
				}
				if bad != "data race" {
					// It must happen again.
					for i := 0; i < 3; i++ {
						if _, _, again := c.schedule(ch); again == "" {
							return trace, ok
						}
					}
				}
				res.Bad = &core.Violation{Property: "C21", Part: "interleavings", What: bad, Trace: map[string]any{"operations": c.names, "bundled stores": c.mem, "schedule": ch, "set": x}}
				return trace, false
			}
			if res.Sample == nil && len(prefix) > 3 {
				var ch []int
				for _, d := range trace {
					ch = append(ch, d.chosen)
				}
				res.Sample = map[string]any{"operations": c.names, "schedule": ch}
			}
			return trace, ok
		})
	}
	b, _ := json.Marshal(res)
	fmt.Fprintf(core.Out, "RESULT %s\n", b)
	return 0
}

func runC21(bin, tier string, part, of, only int, env ...string) (res cwork, errOut string, err error) {
	cmd := exec.Command(bin, "c21", tier, fmt.Sprint(part), fmt.Sprint(of), fmt.Sprint(only))
	cmd.Env = append(os.Environ(), env...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err = cmd.Run()
	errOut = errb.String()
	if err != nil {
		return
	}
	for _, l := range strings.Split(out.String(), "\n") {
		if s, ok := strings.CutPrefix(l, "RESULT "); ok {
			return res, errOut, json.Unmarshal([]byte(s), &res)
		}
	}
	return res, errOut, fmt.Errorf("no result: %.300s", out.String())
}

// raceOf returns the first report in which both accesses are inside the library.
func raceOf(log string) string {
	for _, rep := range strings.Split(log, "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		if i := strings.Index(rep, "created at:"); i > 0 {
			rep = rep[:i]
		}
		parts := strings.SplitN(rep, "\n\n", 3)
		if len(parts) < 2 {
			continue
		}
		if strings.Contains(parts[0], "libsignal-go/protocol/") && strings.Contains(parts[1], "libsignal-go/protocol/") {
			return strings.TrimSpace(rep)
		}
	}
	return ""
}

func c21(r *core.Run) {
	n := runtime.NumCPU()
	r.Bound("operations", func() (s []string) {
		for _, k := range ckinds {
			s = append(s, k.name)
		}
		return
	}())
	type job struct {
		bin  string
		race bool
		part int
	}
	race := os.Getenv("VERIF_RACE_BIN")
	if race == "" {
		panic("VERIF_RACE_BIN is not set (use check.sh)")
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	tmp, err := os.MkdirTemp("", "c21-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	var jobs []job
	of := 2 * n
	for i := 0; i < of; i++ {
		jobs = append(jobs, job{race, true, i}, job{self, false, i})
	}
	raceEnv := func(name string) (string, string) {
		p := filepath.Join(tmp, name)
		return p, "GORACE=halt_on_error=0 exitcode=0 history_size=5 atexit_sleep_ms=0 log_path=" + p
	}
	readLog := func(p string) string {
		fs, _ := filepath.Glob(p + ".*")
		var s string
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			s += string(b)
		}
		return s
	}
	var mu sync.Mutex
	totals := map[bool]*cwork{true: {}, false: {}}
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		log, env := raceEnv(fmt.Sprint("race", i))
		res, errOut, err := runC21(j.bin, r.Tier, j.part, of, -1, env)
		if err != nil {
			if strings.Contains(errOut, "fatal error:") && strings.Contains(errOut, "libsignal-go/protocol") {
				r.Violate("interleavings", "the process died", errOut, nil)
				return
			}
			panic(fmt.Sprint("worker: ", err, " ", errOut))
		}
		mu.Lock()
		t := totals[j.race]
		t.Runs += res.Runs
		t.Schedules += res.Schedules
		t.Steps += res.Steps
		t.Full += res.Full
		t.Bounded += res.Bounded
		t.MaxBound = max(t.MaxBound, res.MaxBound)
		mu.Unlock()
		if res.Truncated {
			r.Truncate()
		}
		if res.Sample != nil {
			r.Sample(res.Sample)
		}
		if res.Bad == nil {
			return
		}
		if res.Bad.What != "data race" {
			r.Violate(res.Bad.Part, res.Bad.What, res.Bad.Trace, nil)
			return
		}
		rep := raceOf(readLog(log))
		if rep == "" {
			panic("a data race outside the library: " + readLog(log))
		}
		set := res.Bad.Trace.(map[string]any)["set"]
		res.Bad.Trace.(map[string]any)["report"] = strings.Split(rep, "\n")
		k := 0
		r.Violate("data race", fmt.Sprintf("data race between %v", res.Bad.Trace.(map[string]any)["operations"]), res.Bad.Trace, func() string {
			k++
			log, env := raceEnv(fmt.Sprint("again", i, "-", k))
			if _, _, err := runC21(j.bin, r.Tier, 0, 1, int(set.(float64)), env); err != nil {
				return ""
			}
			return raceOf(readLog(log))
		})
	})
	for _, race := range []bool{false, true} {
		t := totals[race]
		name := "results and stores"
		if race {
			name = "data races"
		}
		r.States.Add(int64(t.Steps))
		r.Transitions.Add(int64(t.Steps))
		r.Traces.Add(int64(t.Schedules))
		r.Part(map[string]any{"space": name, "sets_of_operations": t.Runs, "schedules": t.Schedules, "steps": t.Steps, "sets_with_all_interleavings": t.Full, "sets_with_bounded_preemptions": t.Bounded, "largest_preemption_bound": t.MaxBound})
	}
}
