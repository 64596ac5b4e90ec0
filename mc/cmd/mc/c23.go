package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/protocol"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/mc/core"
	"verif/mc/world"
)

func init() { register("C23", "model_checking", c23) }

// bundled is one bundled store seen as a map from numbered keys to numbered values.
type bundled struct {
	keys, vals int
	store      func(k, v int) (replaced, hasReplaced bool, err error)
	// load returns the number of the value, -1 for none of them.
	load   func(k int) (v int, ok bool, err error)
	del    func(k int) error
	mutate func(k int) error // changes a loaded copy
	clear  func() error
	trust  func(k, v int) (bool, error)
	fixed  func() string
}

// same reports which values are equal: values 0 and 1 are different objects with the same content.
func same(v int) int {
	if v == 1 {
		return 0
	}
	return v
}

// runStore executes a history on a fresh store and compares it with a map.
func runStore(b *bundled, ops []string) string {
	m := map[int]int{}
	for i, op := range ops {
		last := i == len(ops)-1
		var k, v int
		fmt.Sscanf(op[1:], "%d,%d", &k, &v)
		switch op[0] {
		case 'S':
			rep, has, err := b.store(k, v)
			if err != nil {
				return fmt.Sprintf("store of value %d under key %d: %v", v, k, err)
			}
			old, ok := m[k]
			if want := ok && same(old) != same(v); has && rep != want {
				return fmt.Sprintf("store of value %d under key %d reported replaced=%v", v, k, rep)
			}
			m[k] = v
		case 'D':
			if err := b.del(k); err != nil {
				return fmt.Sprintf("delete of key %d: %v", k, err)
			}
			delete(m, k)
		case 'M':
			if err := b.mutate(k); err != nil {
				return fmt.Sprintf("load of key %d: %v", k, err)
			}
		case 'C':
			if err := b.clear(); err != nil {
				return fmt.Sprintf("clear: %v", err)
			}
			m = map[int]int{}
		}
		if !last {
			continue
		}
		// Twice: reading changes nothing either.
		for n := 0; n < 2; n++ {
			for k := 0; k < b.keys; k++ {
				v, ok, err := b.load(k)
				want, in := m[k]
				switch {
				case err != nil:
					return fmt.Sprintf("load of key %d: %v", k, err)
				case ok != in:
					return fmt.Sprintf("key %d is present: %v, expected: %v", k, ok, in)
				case in && v != same(want):
					return fmt.Sprintf("key %d has value %d, expected %d", k, v, same(want))
				}
				if b.trust != nil {
					for c := 0; c < b.vals; c++ {
						t, err := b.trust(k, c)
						if wantT := !in || same(want) == same(c); err != nil || t != wantT {
							return fmt.Sprintf("identity %d for key %d is trusted: %v (%v), expected: %v", c, k, t, err, wantT)
						}
					}
				}
			}
		}
	}
	if b.fixed != nil {
		return b.fixed()
	}
	return ""
}

func storeAlphabet(b *bundled) []string {
	var ops []string
	for k := 0; k < b.keys; k++ {
		for v := 0; v < b.vals; v++ {
			ops = append(ops, fmt.Sprintf("S%d,%d", k, v))
		}
		if b.del != nil {
			ops = append(ops, fmt.Sprintf("D%d", k))
		}
		if b.mutate != nil {
			ops = append(ops, fmt.Sprintf("M%d", k))
		}
	}
	if b.clear != nil {
		ops = append(ops, "C")
	}
	return ops
}

// allStores runs every history up to the depth, each from scratch.
func allStores(r *core.Run, name string, depth int, mk func() *bundled) {
	if r.Stopped() {
		return
	}
	t0 := time.Now()
	abc := storeAlphabet(mk())
	var n, trans atomic.Int64
	r.Parallel(len(abc)*len(abc), func(i int) {
		first := []string{abc[i/len(abc)], abc[i%len(abc)]}
		var walk func(ops []string)
		walk = func(ops []string) {
			if r.Stopped() {
				return
			}
			n.Add(1)
			trans.Add(int64(len(ops)))
			f := func() string { return core.Guard(func() string { return runStore(mk(), ops) }) }
			if w := f(); w != "" {
				ops := append([]string(nil), ops...)
				g := func() string { return core.Guard(func() string { return runStore(mk(), ops) }) }
				r.Violate(name, w, map[string]any{"store": name, "ops": ops}, g)
				return
			}
			if len(ops) < depth {
				for _, op := range abc {
					walk(append(ops[:len(ops):len(ops)], op))
				}
			}
		}
		if i%len(abc) == 0 {
			// The history of length one, once.
			if w := core.Guard(func() string { return runStore(mk(), first[:1]) }); w != "" {
				r.Violate(name, w, map[string]any{"store": name, "ops": first[:1]}, func() string { return runStore(mk(), first[:1]) })
			}
			n.Add(1)
		}
		walk(first)
	})
	r.States.Add(n.Load())
	r.Transitions.Add(trans.Load())
	r.Traces.Add(n.Load())
	r.Sample(map[string]any{"space": name, "history": strings.Join([]string{abc[0], abc[len(abc)-1], abc[len(abc)/2]}, " ")})
	r.Part(map[string]any{"space": name, "depth": depth, "states": n.Load(), "transitions": trans.Load(), "wall_s": time.Since(t0).Seconds()})
}

// dirChoices are the directions trust is asked for.
var dirChoices = []direction.Direction{direction.Sending, direction.Receiving}

type storeVals struct {
	sess  []*session.Record
	sdig  [][32]byte
	group []*session.GroupRecord
	gdig  [][32]byte
	ident []identity.Key
	pre   []*prekey.PreKey
	spre  []*prekey.SignedPreKey
	kp    identity.KeyPair
}

func newStoreVals(seed int64) *storeVals {
	s := &storeVals{}
	for v := 0; v < 3; v++ {
		l := fmt.Sprint("store value ", same(v))
		kp, err := identity.GenerateKeyPair(core.NewPRF(seed, l))
		if err != nil {
			panic(err)
		}
		if v == 2 {
			s.kp = kp
		}
		k, _ := identity.NewKey(kp.PublicKey().Bytes())
		s.ident = append(s.ident, k)
		base, other := world.NewKeyPair(seed, l+"base"), world.NewKeyPair(seed, l+"other")
		rec, err := session.InitializeAliceSessionRecord(core.NewPRF(seed, l), &ratchet.AliceParameters{OurIdentityKeyPair: kp, OurBaseKeyPair: base,
			TheirIdentityKey: kp.IdentityKey(), TheirSignedPreKey: other.PublicKey(), TheirRatchetKey: other.PublicKey()})
		if err != nil {
			panic(err)
		}
		s.sess = append(s.sess, rec)
		g := session.NewGroupRecord()
		for i := 0; i < 2; i++ {
			st := session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: uint32(1 + same(v) + 10*i), Iteration: 0, ChainKey: core.Bytes(32, seed, l),
				SignatureKey: base.PublicKey(), SignaturePrivateKey: base.PrivateKey()})
			if err := g.AddState(st); err != nil {
				panic(err)
			}
		}
		s.group = append(s.group, g)
		s.pre = append(s.pre, prekey.NewPreKey(prekey.ID(7+same(v)), base))
		s.spre = append(s.spre, prekey.NewSigned(prekey.ID(7+same(v)), 5, base, []byte(l)))
	}
	for v := range s.sess {
		s.sdig, s.gdig = append(s.sdig, core.Digest(s.sess[v])), append(s.gdig, core.Digest(s.group[v]))
	}
	return s
}

func c23(r *core.Run) {
	vals := newStoreVals(r.Seed)
	ctx := world.Ctx
	// The session records are stored as copies, since a history may change what is loaded.
	sessOf := func(st session.Store, ks []address.Address) *bundled {
		return &bundled{keys: len(ks), vals: 3,
			store: func(k, v int) (bool, bool, error) {
				return false, false, st.Store(ctx, ks[k], core.DeepClone(vals.sess[v]))
			},
			load: func(k int) (int, bool, error) {
				rec, ok, err := st.Load(ctx, ks[k])
				if !ok || err != nil {
					return -1, ok, err
				}
				for v := range vals.sess {
					if core.Digest(rec) == vals.sdig[v] {
						return same(v), true, nil
					}
				}
				return -1, true, nil
			},
			mutate: func(k int) error {
				rec, ok, err := st.Load(ctx, ks[k])
				if !ok || err != nil {
					return err
				}
				st := rec.State()
				st.SetPreviousCounter(77)
				st.SetLocalRegistrationID(78)
				st.SetAliceBaseKey([]byte("other"))
				chain, err := ratchet.NewChainKey(make([]byte, 32), 5)
				if err != nil {
					return err
				}
				root, err := ratchet.NewRootKey(make([]byte, 32))
				if err != nil {
					return err
				}
				st.SetSenderChainKey(chain)
				st.SetRootKey(root)
				st.ClearUnacknowledgedPreKeyMessage()
				if key, err := st.SenderRatchetKey(); err == nil {
					st.AddReceiverChain(key, chain)
				}
				rec.ArchiveCurrentState()
				rec.SetSessionState(vals.sess[2].State().Clone())
				rec.ArchiveCurrentState()
				return nil
			}}
	}
	type gk struct {
		a address.Address
		d distribution.ID
	}
	groupOf := func(st session.GroupStore, ks []gk) *bundled {
		return &bundled{keys: len(ks), vals: 3,
			store: func(k, v int) (bool, bool, error) {
				return false, false, st.Store(ctx, ks[k].a, ks[k].d, core.DeepClone(vals.group[v]))
			},
			load: func(k int) (int, bool, error) {
				rec, ok, err := st.Load(ctx, ks[k].a, ks[k].d)
				if !ok || err != nil {
					return -1, ok, err
				}
				for v := range vals.group {
					if core.Digest(rec) == vals.gdig[v] {
						return same(v), true, nil
					}
				}
				return -1, true, nil
			},
			mutate: func(k int) error {
				rec, ok, err := st.Load(ctx, ks[k].a, ks[k].d)
				if !ok || err != nil {
					return err
				}
				s, err := rec.State()
				if err != nil {
					return err
				}
				mk, err := senderkey.DeriveMessageKey(make([]byte, 32), 9)
				if err == nil {
					s.AddMessageKey(mk)
				}
				s.SetSenderChainKey(senderkey.NewChainKey(make([]byte, 32), 5))
				for _, id := range []uint32{1, 3, 11, 13} {
					if s := rec.StateForChainID(id); s != nil {
						s.SetSenderChainKey(senderkey.NewChainKey(make([]byte, 32), 6))
					}
				}
				rec.RemoveStates(11)
				return rec.AddState(s)
			}}
	}
	identOf := func(st identity.Store, ks []address.Address) *bundled {
		return &bundled{keys: len(ks), vals: 3,
			store: func(k, v int) (bool, bool, error) {
				rep, err := st.Store(ctx, ks[k], vals.ident[v])
				return rep, true, err
			},
			load: func(k int) (int, bool, error) {
				key, ok, err := st.Load(ctx, ks[k])
				if !ok || err != nil {
					return -1, ok, err
				}
				for v := range vals.ident {
					if bytes.Equal(key.Bytes(), vals.ident[v].Bytes()) {
						return same(v), true, nil
					}
				}
				return -1, true, nil
			},
			clear: st.Clear,
			trust: func(k, v int) (bool, error) {
				var res bool
				for i, d := range dirChoices {
					t, err := st.IsTrustedIdentity(ctx, ks[k], vals.ident[v], d)
					if err != nil {
						return t, err
					}
					if i > 0 && t != res {
						return t, fmt.Errorf("depends on the direction")
					}
					res = t
				}
				return res, nil
			},
			fixed: func() string {
				if kp := st.KeyPair(ctx); !bytes.Equal(kp.PublicKey().Bytes(), vals.kp.PublicKey().Bytes()) || !bytes.Equal(kp.PrivateKey().Bytes(), vals.kp.PrivateKey().Bytes()) {
					return "the key pair of the device changed"
				}
				if id := st.LocalRegistrationID(ctx); id != 0xfedcba98 {
					return fmt.Sprintf("the registration ID became %x", id)
				}
				return ""
			}}
	}
	preOf := func(st prekey.Store, ks []prekey.ID) *bundled {
		return &bundled{keys: len(ks), vals: 3,
			store: func(k, v int) (bool, bool, error) { return false, false, st.Store(ctx, ks[k], vals.pre[v]) },
			load: func(k int) (int, bool, error) {
				p, ok, err := st.Load(ctx, ks[k])
				if !ok || err != nil {
					return -1, ok, err
				}
				for v := range vals.pre {
					if core.Digest(p) == core.Digest(vals.pre[v]) {
						return same(v), true, nil
					}
				}
				return -1, true, nil
			},
			del: func(k int) error { return st.Delete(ctx, ks[k]) }}
	}
	signedOf := func(st prekey.SignedStore, ks []prekey.ID) *bundled {
		return &bundled{keys: len(ks), vals: 3,
			store: func(k, v int) (bool, bool, error) { return false, false, st.Store(ctx, ks[k], vals.spre[v]) },
			load: func(k int) (int, bool, error) {
				p, ok, err := st.Load(ctx, ks[k])
				if !ok || err != nil {
					return -1, ok, err
				}
				for v := range vals.spre {
					if core.Digest(p) == core.Digest(vals.spre[v]) {
						return same(v), true, nil
					}
				}
				return -1, true, nil
			}}
	}
	ids := []prekey.ID{1, 0, 2, 255, 256, 257, 65537, 1<<24 + 1, 1 << 31, 1<<31 + 1, 1<<32 - 1}
	pairs := func(n int, f func(i, j int)) {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				f(i, j)
			}
		}
	}
	// Two keys: every pair of similar ones. Three keys: longer histories.
	deep := core.Pick(r, 4, 5)
	pairDepth := core.Pick(r, 4, 5)
	mk := func() protocol.Store { return protocol.NewInMemStore(vals.kp, 0xfedcba98) }
	al := append(append([]address.Address(nil), confusable...), address.Address{})
	pairs(len(al), func(i, j int) {
		ks := []address.Address{al[i], al[j]}
		allStores(r, fmt.Sprintf("session store, addresses %d %d", i, j), pairDepth, func() *bundled { return sessOf(mk().SessionStore(), ks) })
		allStores(r, fmt.Sprintf("identity store, addresses %d %d", i, j), pairDepth, func() *bundled { return identOf(mk().IdentityStore(), ks) })
	})
	var gks []gk
	for _, a := range confusable[:core.Pick(r, 12, len(confusable))] {
		gks = append(gks, gk{a, confusableDist[0]})
	}
	for _, d := range confusableDist[1:] {
		gks = append(gks, gk{confusable[0], d}, gk{confusable[1], d})
	}
	pairs(len(gks), func(i, j int) {
		ks := []gk{gks[i], gks[j]}
		allStores(r, fmt.Sprintf("group store, keys %d %d", i, j), core.Pick(r, 3, 4), func() *bundled { return groupOf(mk().GroupStore(), ks) })
	})
	pairs(len(ids), func(i, j int) {
		ks := []prekey.ID{ids[i], ids[j]}
		allStores(r, fmt.Sprintf("pre-key store, keys %d %d", i, j), pairDepth+1, func() *bundled { return preOf(mk().PreKeyStore(), ks) })
		allStores(r, fmt.Sprintf("signed pre-key store, keys %d %d", i, j), pairDepth+1, func() *bundled { return signedOf(mk().SignedPreKeyStore(), ks) })
	})
	allStores(r, "session store, three keys", deep, func() *bundled { return sessOf(session.NewInMemStore(), confusable[:3]) })
	allStores(r, "identity store, three keys", deep+1, func() *bundled { return identOf(identity.NewInMemStore(vals.kp, 0xfedcba98), confusable[:3]) })
	allStores(r, "group store, three keys", deep, func() *bundled { return groupOf(session.NewInMemGroupStore(), gks[:3]) })
	allStores(r, "pre-key store, three keys", deep+1, func() *bundled { return preOf(prekey.NewInMemStore(), ids[:3]) })
	allStores(r, "signed pre-key store, three keys", deep+1, func() *bundled { return signedOf(prekey.NewInMemSignedStore(), ids[:3]) })
	// Many entries at once.
	var cs []kase
	for _, n := range []int{100, 1000, core.Pick(r, 5000, 50000)} {
		n := n
		cs = append(cs, kase{fmt.Sprint(n, " pre-keys"), func() string { return manyPre(vals, n) }})
		cs = append(cs, kase{fmt.Sprint(n, " identities"), func() string { return manyIdent(vals, n) }})
	}
	// Identity keys that differ in a single bit.
	for bit := 0; bit < 255; bit++ {
		bit := bit
		cs = append(cs, kase{fmt.Sprint("identities that differ in bit ", bit), func() string { return nearIdent(vals, mk().IdentityStore(), bit) }})
	}
	// One store object for each kind, the same on every request, and independent of other sets of stores.
	cs = append(cs, kase{"independent sets", func() string {
		a, b := mk(), mk()
		if err := a.SessionStore().Store(ctx, confusable[0], vals.sess[0]); err != nil {
			return err.Error()
		}
		if _, err := a.IdentityStore().Store(ctx, confusable[0], vals.ident[0]); err != nil {
			return err.Error()
		}
		a.PreKeyStore().Store(ctx, 1, vals.pre[0])
		a.SignedPreKeyStore().Store(ctx, 1, vals.spre[0])
		a.GroupStore().Store(ctx, confusable[0], confusableDist[0], vals.group[0])
		for i, p := range []protocol.Store{a, b} {
			_, o1, _ := p.SessionStore().Load(ctx, confusable[0])
			_, o2, _ := p.IdentityStore().Load(ctx, confusable[0])
			_, o3, _ := p.PreKeyStore().Load(ctx, 1)
			_, o4, _ := p.SignedPreKeyStore().Load(ctx, 1)
			_, o5, _ := p.GroupStore().Load(ctx, confusable[0], confusableDist[0])
			for k, o := range []bool{o1, o2, o3, o4, o5} {
				if o != (i == 0) {
					return fmt.Sprintf("set %d of stores has entry of kind %d: %v", i, k, o)
				}
			}
		}
		return ""
	}})
	enumerate(r, "large and separate stores", cs)
}

func manyPre(vals *storeVals, n int) string {
	st := prekey.NewInMemStore()
	for i := 0; i < n; i++ {
		if err := st.Store(world.Ctx, prekey.ID(i*7), vals.pre[2*(i%2)]); err != nil {
			return err.Error()
		}
	}
	for i := 0; i < n; i += 3 {
		if err := st.Delete(world.Ctx, prekey.ID(i*7)); err != nil {
			return err.Error()
		}
	}
	for i := 0; i < n; i++ {
		p, ok, err := st.Load(world.Ctx, prekey.ID(i*7))
		if err != nil || ok != (i%3 != 0) || ok && core.Digest(p) != core.Digest(vals.pre[2*(i%2)]) {
			return fmt.Sprintf("entry %d of %d: present %v, %v", i, n, ok, err)
		}
	}
	return ""
}

func manyIdent(vals *storeVals, n int) string {
	st := identity.NewInMemStore(vals.kp, 1)
	at := func(i int) address.Address {
		return address.Address{Name: fmt.Sprint("n", i/3), DeviceID: address.DeviceID(i % 3)}
	}
	for i := 0; i < n; i++ {
		if rep, err := st.Store(world.Ctx, at(i), vals.ident[2*(i%2)]); err != nil || rep {
			return fmt.Sprintf("entry %d: replaced %v, %v", i, rep, err)
		}
	}
	for i := 0; i < n; i++ {
		for v := 0; v < 3; v += 2 {
			if ok, err := st.IsTrustedIdentity(world.Ctx, at(i), vals.ident[v], direction.Sending); err != nil || ok != (v == 2*(i%2)) {
				return fmt.Sprintf("entry %d: trusted %v, %v", i, ok, err)
			}
		}
	}
	if err := st.Clear(); err != nil {
		return err.Error()
	}
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			if rep, err := st.Store(world.Ctx, at(i), vals.ident[2]); err != nil || rep {
				return fmt.Sprintf("entry %d after clearing: replaced %v, %v", i, rep, err)
			}
		}
	}
	time.Sleep(20 * time.Millisecond)
	for i := 0; i < n; i++ {
		k, ok, err := st.Load(world.Ctx, at(i))
		if err != nil || ok != (i%2 == 0) || ok && !k.Equal(vals.ident[2]) {
			return fmt.Sprintf("entry %d after clearing: present %v, %v", i, ok, err)
		}
	}
	return ""
}

// nearIdent stores an identity key and then one that differs from it in one bit.
func nearIdent(vals *storeVals, st identity.Store, bit int) string {
	raw := append([]byte(nil), vals.ident[0].Bytes()...)
	raw[len(raw)-32+bit/8] ^= 1 << (bit % 8)
	near, err := identity.NewKey(raw)
	if err != nil {
		return "the key that differs is not accepted: " + err.Error()
	}
	a := confusable[0]
	for i, pair := range [][2]identity.Key{{vals.ident[0], near}, {near, vals.ident[0]}} {
		if rep, err := st.Store(world.Ctx, a, pair[0]); err != nil || rep {
			return fmt.Sprintf("round %d: store of the first key: replaced=%v, %v", i, rep, err)
		}
		for _, d := range dirChoices {
			if t, err := st.IsTrustedIdentity(world.Ctx, a, pair[1], d); err != nil || t {
				return fmt.Sprintf("round %d: a key that differs from the stored one in bit %d is trusted: %v, %v", i, bit, t, err)
			}
		}
		if rep, err := st.Store(world.Ctx, a, pair[1]); err != nil || !rep {
			return fmt.Sprintf("round %d: store of a key that differs in bit %d: replaced=%v, %v", i, bit, rep, err)
		}
		if k, ok, err := st.Load(world.Ctx, a); err != nil || !ok || !bytes.Equal(k.Bytes(), pair[1].Bytes()) {
			return fmt.Sprintf("round %d: the key that differs in bit %d is not the one stored after it replaced the other (%v, %v)", i, bit, ok, err)
		}
		if err := st.Clear(); err != nil {
			return err.Error()
		}
	}
	return ""
}
