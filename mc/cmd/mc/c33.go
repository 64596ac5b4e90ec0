package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/RTann/libsignal-go/protocol/curve"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C33", "model_checking", c33) }

// lastArch are the archived sessions a record retains.
func lastArch[T any](a []T) []T {
	if len(a) > maxArch {
		return a[len(a)-maxArch:]
	}
	return a
}

// recordPair compares what the records of both devices report with the model.
func recordPair(r *core.Run) func(w *pair) string {
	return func(w *pair) string {
		for p := 0; p < 2; p++ {
			r.Evals.Add(1)
			rec, ok := w.P[p].RawRecord(w.addr(1 - p))
			if !ok {
				if w.Cur[p] != "" || len(w.Arch[p]) > 0 {
					return fmt.Sprintf("device %s has no session record", party[p])
				}
				continue
			}
			if s := w.recordOf(p, core.DeepClone(rec)); s != "" {
				return fmt.Sprintf("the record of device %s: %s", party[p], s)
			}
			if s := w.recordOf(p, rec); s != "" {
				return fmt.Sprintf("the record of device %s, asked again: %s", party[p], s)
			}
		}
		return ""
	}
}

func (w *pair) recordOf(p int, rec *session.Record) string {
	has := func(version uint32, base []byte, want bool, what string) string {
		got, err := rec.HasSessionState(version, base)
		if err != nil || got != want {
			return fmt.Sprintf("HasSessionState of %s is %v (%v), expected %v", what, got, err, want)
		}
		return ""
	}
	arch := lastArch(w.Arch[p])
	held := map[string]bool{}
	for _, a := range arch {
		held[a] = true
	}
	if w.Cur[p] != "" {
		held[w.Cur[p]] = true
	}
	var names []string
	for id := range w.Sess {
		names = append(names, id)
	}
	sort.Strings(names)
	for _, id := range names {
		base := w.Sess[id].Base
		if base == nil {
			continue
		}
		if s := has(3, base, held[id], "session "+id); s != "" {
			return s
		}
		for _, v := range []uint32{0, 2, 4} {
			if s := has(v, base, false, fmt.Sprintf("session %s in version %d", id, v)); s != "" {
				return s
			}
		}
		x := append([]byte(nil), base...)
		x[len(x)-1] ^= 0x40
		for _, b := range [][]byte{nil, x, base[1:], base[:32], append(append([]byte(nil), base...), 0)} {
			if s := has(3, b, false, fmt.Sprintf("base key %x", b)); s != "" {
				return s
			}
		}
	}
	for round := 0; round < 2; round++ {
		prev, err := rec.PreviousStates()
		if err != nil {
			return fmt.Sprint("PreviousStates: ", err)
		}
		if len(prev) != len(arch) {
			return fmt.Sprintf("%d archived sessions, expected %d", len(prev), len(arch))
		}
		for i, a := range arch {
			if base := w.Sess[a].Base; base != nil && !bytes.Equal(prev[i].AliceBaseKey(), base) {
				return fmt.Sprintf("archived session %d is not %s", i, a)
			}
			if s := w.stateOf(p, a, prev[i]); s != "" {
				return fmt.Sprintf("archived session %s: %s", a, s)
			}
			// What was returned is a copy.
			prev[i].SetAliceBaseKey([]byte("changed"))
			prev[i].SetPreviousCounter(77)
			prev[i].ClearUnacknowledgedPreKeyMessage()
		}
	}
	st := rec.State()
	if (st == nil) != (w.Cur[p] == "") {
		return fmt.Sprintf("has a current session: %v, expected %q", st != nil, w.Cur[p])
	}
	v, e1 := rec.Version()
	l, e2 := rec.LocalIdentityKey()
	k, there, e3 := rec.RemoteIdentityKey()
	_, e4 := rec.SenderChainKey()
	if st == nil {
		for _, e := range []error{e1, e2, e3, e4} {
			if !errors.Is(e, perrors.ErrNoCurrentSession) {
				return fmt.Sprintf("without a current session a query answers with %v", e)
			}
		}
		return ""
	}
	if e1 != nil || v != 3 {
		return fmt.Sprintf("version %d (%v)", v, e1)
	}
	if e2 != nil || !bytes.Equal(l.Bytes(), w.P[p].KP.IdentityKey().Bytes()) {
		return fmt.Sprintf("its local identity key is not that of the device (%v)", e2)
	}
	if e3 != nil || !there || !bytes.Equal(k.Bytes(), w.P[1-p].KP.IdentityKey().Bytes()) {
		return fmt.Sprintf("its remote identity key is not that of the peer (%v)", e3)
	}
	if e4 != nil {
		return fmt.Sprint("SenderChainKey: ", e4)
	}
	if base := w.Sess[w.Cur[p]].Base; base != nil && !bytes.Equal(st.AliceBaseKey(), base) {
		return "the base key of the current session is not that of " + w.Cur[p]
	}
	return w.stateOf(p, w.Cur[p], st)
}

// stateOf compares a session state of a device with the model.
func (w *pair) stateOf(p int, id string, st *session.State) string {
	s := w.Sess[id]
	if st.Version() != 3 {
		return fmt.Sprint("version ", st.Version())
	}
	l, err := st.LocalIdentityKey()
	if err != nil || !bytes.Equal(l.Bytes(), w.P[p].KP.IdentityKey().Bytes()) {
		return fmt.Sprintf("its local identity key is not that of the device (%v)", err)
	}
	k, ok, err := st.RemoteIdentityKey()
	if err != nil || !ok || !bytes.Equal(k.Bytes(), w.P[1-p].KP.IdentityKey().Bytes()) {
		return fmt.Sprintf("its remote identity key is not that of the peer (%v)", err)
	}
	if self, err := st.SessionWithSelf(); err != nil || self != bytes.Equal(l.Bytes(), k.Bytes()) {
		return fmt.Sprintf("it is a session with oneself: %v (%v)", self, err)
	}
	u, err := st.UnacknowledgedPreKeyMessages()
	if err != nil {
		return fmt.Sprint("UnacknowledgedPreKeyMessages: ", err)
	}
	if want := s.Init == p && s.Pending && s.Base != nil; (u != nil) != want {
		return fmt.Sprintf("its set-up is unacknowledged: %v, expected %v", u != nil, want)
	}
	if u != nil {
		if !bytes.Equal(u.BaseKey().Bytes(), s.Base) || u.SignedPreKeyID() != signedID {
			return fmt.Sprintf("its set-up names base key %x and signed pre-key %d", u.BaseKey().Bytes(), u.SignedPreKeyID())
		}
		if n := u.PreKeyID(); (n == nil) != (s.Pre < 0) || n != nil && int(*n) != s.Pre {
			return fmt.Sprintf("its set-up names another one-time pre-key than %d", s.Pre)
		}
	}
	return ""
}

// recordKeys compares the keys of the library's sessions with those the reference implementation has.
func recordKeys(r *core.Run) func(w *inter) string {
	return func(w *inter) string {
		rec, ok := w.L.RawRecord(w.RA)
		if !ok || w.bad {
			return ""
		}
		rec = core.DeepClone(rec)
		states, err := rec.PreviousStates()
		if err != nil {
			return fmt.Sprint("PreviousStates: ", err)
		}
		if rec.State() != nil {
			states = append(states, rec.State())
		}
		for _, st := range states {
			id := hex.EncodeToString(st.AliceBaseKey())
			s := w.Mir[id]
			if s == nil {
				continue
			}
			r.Evals.Add(1)
			if x := stateKeys(st, s); x != "" {
				return fmt.Sprintf("session %s: %s", id[:10], x)
			}
			if st == rec.State() {
				c, err := rec.SenderChainKey()
				if err != nil || !bytes.Equal(c.Key(), s.Send.Key) || c.Index() != s.Send.N {
					return "SenderChainKey of the record is not that of its current session"
				}
				for rat, ch := range s.Recv {
					c, ok, err := rec.ReceiverChainKey(pubKey([]byte(rat)))
					if err != nil || !ok || !bytes.Equal(c.Key(), ch.Key) || c.Index() != ch.N {
						return "ReceiverChainKey of the record is not that of its current session"
					}
				}
			}
		}
		return ""
	}
}

func stateKeys(st *session.State, s *ref.Sess) string {
	if k, err := st.RootKey(); err != nil || !bytes.Equal(k.Bytes(), s.Root) {
		return fmt.Sprintf("another root key than specified (%v)", err)
	}
	if c, err := st.SenderChainKey(); err != nil || !bytes.Equal(c.Key(), s.Send.Key) || c.Index() != s.Send.N {
		return fmt.Sprintf("another sender chain key than specified, or not at %d (%v)", s.Send.N, err)
	}
	if k, err := st.SenderRatchetKey(); err != nil || !bytes.Equal(k.Bytes(), ref.Enc(ref.Pub(s.SendPriv))) {
		return fmt.Sprintf("another ratchet key than specified (%v)", err)
	}
	if k, err := st.SenderRatchetPrivateKey(); err != nil || !bytes.Equal(ref.Pub(k.Bytes()), ref.Pub(s.SendPriv)) {
		return fmt.Sprintf("another private ratchet key than specified (%v)", err)
	}
	if len(s.Recv) > maxChains {
		return ""
	}
	top := uint32(0)
	for rat, ch := range s.Recv {
		pk := pubKey([]byte(rat))
		c, ok, err := st.ReceiverChainKey(pk)
		if err != nil || !ok || !bytes.Equal(c.Key(), ch.Key) || c.Index() != ch.N {
			return fmt.Sprintf("another receiver chain key than specified, or not at %d (%v)", ch.N, err)
		}
		if ch.N > top {
			top = ch.N
		}
		for n := uint32(0); n <= ch.N; n++ {
			cp := st.Clone()
			mk, ok, err := cp.MessageKeys(pk, n)
			want, keep := s.Skipped[fmt.Sprintf("%x|%d", rat, n)]
			if err != nil || ok != keep {
				return fmt.Sprintf("message keys %d of a chain at %d: %v (%v), expected %v", n, ch.N, ok, err, keep)
			}
			if !ok {
				continue
			}
			if !bytes.Equal(mk.CipherKey(), want.Cipher) || !bytes.Equal(mk.MACKey(), want.Mac) || !bytes.Equal(mk.IV(), want.IV) || mk.Counter() != n {
				return fmt.Sprintf("message keys %d are not those specified", n)
			}
			if _, again, _ := cp.MessageKeys(pk, n); again {
				return fmt.Sprintf("message keys %d are there after they were taken", n)
			}
			for rat2, ch2 := range s.Recv {
				for o := uint32(0); o < ch2.N; o++ {
					if _, keep := s.Skipped[fmt.Sprintf("%x|%d", rat2, o)]; keep && (rat2 != rat || o != n) {
						if _, ok, _ := cp.Clone().MessageKeys(pubKey([]byte(rat2)), o); !ok {
							return fmt.Sprintf("taking message keys %d removed message keys %d", n, o)
						}
					}
				}
			}
		}
	}
	return ""
}

// recordGroup compares what group records report with the model.
func recordGroup(r *core.Run) func(w *gw) string {
	return func(w *gw) string {
		chains := map[gchain]ref.Chain{}
		for _, d := range w.Dists {
			f, err := ref.ParseSKDM(d.wire)
			if err != nil {
				return ""
			}
			if c, ok := chains[d.chain]; !ok || f.N < c.N {
				chains[d.chain] = ref.Chain{Key: f.ChainKey, N: f.N}
			}
		}
		for m := range w.P {
			for k, ss := range w.Held[m] {
				if k[0] == m {
					continue
				}
				r.Evals.Add(1)
				rec, ok := w.P[m].RawGroup(w.P[k[0]].Addr, gdistID(k[1]))
				if !ok {
					if len(ss) > 0 {
						return fmt.Sprintf("member %d has no group record for %v", m, k)
					}
					continue
				}
				rec = core.DeepClone(rec)
				for _, s := range ss {
					st := rec.StateForChainID(s.chain.id)
					if st == nil {
						return fmt.Sprintf("member %d: no state for a chain it holds", m)
					}
					pk, err := st.PublicSigningKey()
					if err != nil || string(pk.Bytes()) != s.chain.sig || st.ChainID() != s.chain.id || st.Version() != 3 {
						return fmt.Sprintf("member %d: the state of a chain has another signing key, identifier or version (%v)", m, err)
					}
					c, known := chains[s.chain]
					if !known || c.N > s.next {
						continue
					}
					first := c
					for c.N < s.next {
						c = c.Next()
					}
					if ck := st.SenderChainKey(); ck.Iteration() != s.next || !bytes.Equal(ck.Seed(), c.Key) {
						return fmt.Sprintf("member %d: the chain key is not that of position %d", m, s.next)
					}
					for c = first; c.N <= s.next; c = c.Next() {
						cp := core.DeepClone(st)
						mk, ok, err := cp.RemoveMessageKeys(c.N)
						if err != nil || ok != s.skip[c.N] {
							return fmt.Sprintf("member %d: the message key of position %d is there: %v (%v), expected %v", m, c.N, ok, err, s.skip[c.N])
						}
						if g := c.GroupKeys(); ok && (!bytes.Equal(mk.CipherKey(), g.Cipher) || !bytes.Equal(mk.IV(), g.IV) || mk.Iteration() != c.N) {
							return fmt.Sprintf("member %d: the message key of position %d is not the one specified", m, c.N)
						}
						for n := range s.skip {
							if _, there, _ := core.DeepClone(cp).RemoveMessageKeys(n); n != c.N && s.skip[n] && !there {
								return fmt.Sprintf("member %d: taking the message key of position %d removed that of %d", m, c.N, n)
							}
						}
					}
				}
				for _, id := range []uint32{0, 1, 0x7fffffff, 0xffffffff} {
					want := false
					for _, s := range ss {
						want = want || s.chain.id == id
					}
					if (rec.StateForChainID(id) != nil) != want {
						return fmt.Sprintf("member %d: chain %d is there, expected: %v", m, id, want)
					}
				}
			}
		}
		return ""
	}
}

// ---- records as containers ----

// recs is a session record and the list it must equal.
type recs struct {
	v    *recVals
	R    *session.Record
	Cur  int // 0: none
	Prev []int
	Bad  string
}

// recVals are the states put into records; state i has counter i.
type recVals struct {
	states []*session.State
	keys   []curve.PublicKey
	priv   []curve.PrivateKey
	pairs  []*curve.KeyPair
	n      int
	seed   int64
}

func newRecVals(seed int64, n int) *recVals {
	v := &recVals{n: n, seed: seed}
	kp, err := identity.GenerateKeyPair(core.NewPRF(seed, "record identity"))
	if err != nil {
		panic(err)
	}
	other := world.NewKeyPair(seed, "record peer")
	for i := 0; i <= n; i++ {
		base := world.NewKeyPair(seed, fmt.Sprint("record base ", i))
		v.keys, v.priv, v.pairs = append(v.keys, base.PublicKey()), append(v.priv, base.PrivateKey()), append(v.pairs, base)
		rec, err := session.InitializeAliceSessionRecord(core.NewPRF(seed, "record", i), &ratchet.AliceParameters{OurIdentityKeyPair: kp, OurBaseKeyPair: base,
			TheirIdentityKey: identKey(other.PublicKey().Bytes()), TheirSignedPreKey: other.PublicKey(), TheirRatchetKey: other.PublicKey()})
		if err != nil {
			panic(err)
		}
		st := rec.State()
		st.SetAliceBaseKey(base.PublicKey().Bytes())
		st.SetPreviousCounter(uint32(i))
		v.states = append(v.states, st)
	}
	return v
}

func (n *recs) Clone() core.Node {
	c := *n
	c.R = core.DeepClone(n.R)
	c.Prev = append([]int(nil), n.Prev...)
	return &c
}

func (n *recs) Key() [32]byte { return core.Digest(n.R, n.Cur, n.Prev) }

func (n *recs) Ops() (ops []string) {
	if n.Bad != "" {
		return nil
	}
	ops = []string{"archive", "new", "set 0"}
	if n.Cur != 0 {
		ops = append(ops, "restore")
	}
	free := 0
	for i := n.v.n; i > 0; i-- {
		in := i == n.Cur
		for _, p := range n.Prev {
			in = in || i == p
		}
		if !in {
			free = i
		}
	}
	if free == 0 {
		return ops
	}
	ops = append(ops, fmt.Sprint("set ", free), fmt.Sprint("promote ", free))
	for idx := -1; idx <= len(n.Prev); idx++ {
		if idx > 1 && idx < len(n.Prev)-2 && idx != len(n.Prev)/2 {
			continue
		}
		ops = append(ops, fmt.Sprintf("old %d %d", idx, free))
	}
	return ops
}

func (n *recs) archive() {
	if n.Cur != 0 {
		n.Prev = lastArch(append(append([]int(nil), n.Prev...), n.Cur))
		n.Cur = 0
	}
}

func (n *recs) Apply(op string) string {
	f := strings.Fields(op)
	arg := func(i int) int { x, _ := strconv.Atoi(f[i]); return x }
	st := func(i int) *session.State {
		if i == 0 {
			return nil
		}
		return n.v.states[i].Clone()
	}
	err := world.Protect(func() error {
		switch f[0] {
		case "archive":
			n.R.ArchiveCurrentState()
			n.archive()
		case "new":
			n.R, n.Prev = session.NewRecord(st(n.Cur)), nil
		case "restore":
			rec, err := session.NewRecordBytes(n.R.State().Bytes())
			if err != nil {
				return err
			}
			n.R, n.Prev = rec, nil
		case "set":
			n.R.SetSessionState(st(arg(1)))
			n.Cur = arg(1)
		case "promote":
			n.R.PromoteState(st(arg(1)))
			n.archive()
			n.Cur = arg(1)
		case "old":
			idx := arg(1)
			n.R.PromoteOldState(idx, st(arg(2)))
			if idx >= 0 && idx < len(n.Prev) {
				n.Prev = append(append([]int(nil), n.Prev[:idx]...), n.Prev[idx+1:]...)
				n.archive()
				n.Cur = arg(2)
			}
		}
		return nil
	})
	if err != nil {
		n.Bad = op
		return fmt.Sprintf("%s: %v", op, err)
	}
	return ""
}

func (n *recs) Check() string {
	s := n.check()
	if s != "" {
		s = fmt.Sprintf("expected current session %d, archived sessions %v: %s", n.Cur, n.Prev, s)
	}
	return s
}

func (n *recs) check() string {
	is := func(st *session.State, i int) bool {
		return bytes.Equal(st.Bytes(), n.v.states[i].Bytes()) && int(st.PreviousCounter()) == i
	}
	st := n.R.State()
	if (st != nil) != (n.Cur != 0) || st != nil && !is(st, n.Cur) {
		return "another current session"
	}
	prev, err := n.R.PreviousStates()
	if err != nil || len(prev) != len(n.Prev) {
		return fmt.Sprintf("%d archived sessions (%v)", len(prev), err)
	}
	for i := range prev {
		if !is(prev[i], n.Prev[i]) {
			return fmt.Sprintf("archived session %d is %d", i, prev[i].PreviousCounter())
		}
	}
	for i := 1; i <= n.v.n; i++ {
		in := i == n.Cur
		for _, p := range n.Prev {
			in = in || i == p
		}
		if got, err := n.R.HasSessionState(3, n.v.keys[i].Bytes()); err != nil || got != in {
			return fmt.Sprintf("has session %d: %v (%v)", i, got, err)
		}
	}
	return ""
}

// sts is a session state and what it must hold.
type sts struct {
	v     *recVals
	S     *session.State
	Chain []int         // incoming chains, oldest first
	Keys  map[int]int   // their chain keys
	Msg   map[int][]int // their message keys, oldest first
	Set   map[string]int
	Next  int // message keys made
}

// newSts is an empty state, or one with a chain that holds n message keys.
func newSts(v *recVals, n int) *sts {
	s := &sts{v: v, S: session.NewState(&v1.SessionStructure{SessionVersion: 3}), Keys: map[int]int{}, Msg: map[int][]int{}, Set: map[string]int{}}
	if n > 0 {
		s.Apply("add 1")
		for i := 0; i < n; i++ {
			s.Apply("key 1")
		}
	}
	return s
}

func (n *sts) chainKey(i int) ratchet.ChainKey {
	return must2(ratchet.NewChainKey(core.Bytes(32, n.v.seed, "chain", i), uint32(i)))
}

func (n *sts) msgKey(i int) ratchet.MessageKeys {
	b := core.Bytes(80, n.v.seed, "message key", i)
	return must2(ratchet.NewMessageKeys(b[:32], b[32:64], b[64:], uint32(i)))
}

func (n *sts) Clone() core.Node {
	c := *n
	c.S = n.S.Clone()
	c.Chain = append([]int(nil), n.Chain...)
	c.Keys, c.Msg, c.Set = map[int]int{}, map[int][]int{}, map[string]int{}
	for k, v := range n.Keys {
		c.Keys[k] = v
	}
	for k, v := range n.Msg {
		c.Msg[k] = append([]int(nil), v...)
	}
	for k, v := range n.Set {
		c.Set[k] = v
	}
	return &c
}

func (n *sts) Key() [32]byte {
	return core.Digest(n.S.Bytes(), fmt.Sprint(n.Chain, n.Keys, n.Msg, n.Set, n.Next))
}

func (n *sts) Ops() []string {
	ops := []string{"save", "ack", "root 1", "root 2", "sender 1", "sender 2", "senderkey 3", "pending 0 7", "pending 9 8", "previous 5", "registration 6", "take 1 -1", "chain 8 4", "key 8"}
	for i := 1; i < n.v.n; i++ {
		if n.Keys[i] == 0 {
			ops = append(ops, fmt.Sprint("add ", i))
			break
		}
	}
	for _, c := range n.Chain {
		ops = append(ops, fmt.Sprintf("chain %d %d", c, n.Keys[c]+10), fmt.Sprintf("key %d", c))
		if k := n.Msg[c]; len(k) > 0 {
			ops = append(ops, fmt.Sprintf("take %d %d", c, k[0]))
			if len(k) > 2 {
				ops = append(ops, fmt.Sprintf("take %d %d", c, k[1]))
			}
			if len(k) > 1 {
				ops = append(ops, fmt.Sprintf("take %d %d", c, k[len(k)-1]))
			}
		}
	}
	return ops
}

func (n *sts) Apply(op string) (res string) {
	f := strings.Fields(op)
	arg := func(i int) int { x, _ := strconv.Atoi(f[i]); return x }
	err := world.Protect(func() error {
		switch f[0] {
		case "save":
			rec, err := session.NewRecordBytes(n.S.Bytes())
			if err != nil {
				return err
			}
			n.S = rec.State()
		case "root":
			n.S.SetRootKey(must2(ratchet.NewRootKey(core.Bytes(32, n.v.seed, "root", arg(1)))))
			n.Set["root"] = arg(1)
		case "sender":
			n.S.SetSenderChain(n.v.pairs[arg(1)], n.chainKey(arg(1)))
			n.Set["sender"], n.Set["senderkey"] = arg(1), arg(1)
		case "senderkey":
			n.S.SetSenderChainKey(n.chainKey(arg(1)))
			n.Set["senderkey"] = arg(1)
		case "pending":
			var id *prekey.ID
			if arg(1) != 0 {
				x := prekey.ID(arg(1))
				id = &x
			}
			n.S.SetUnacknowledgedPreKeyMessage(id, prekey.ID(arg(2)), n.v.keys[arg(2)%n.v.n])
			n.Set["pending"], n.Set["signed"] = arg(1), arg(2)
		case "ack":
			n.S.ClearUnacknowledgedPreKeyMessage()
			delete(n.Set, "signed")
		case "previous":
			n.S.SetPreviousCounter(uint32(arg(1)))
			n.Set["previous"] = arg(1)
		case "registration":
			n.S.SetLocalRegistrationID(uint32(arg(1)))
			n.S.SetRemoteRegistrationID(uint32(arg(1) + 1))
			n.Set["registration"] = arg(1)
		case "add":
			c := arg(1)
			n.S.AddReceiverChain(n.v.keys[c], n.chainKey(c))
			n.Chain = append(n.Chain, c)
			n.Keys[c], n.Msg[c] = c, nil
			if len(n.Chain) > maxChains {
				old := n.Chain[0]
				n.Chain = append([]int(nil), n.Chain[1:]...)
				delete(n.Keys, old)
				delete(n.Msg, old)
			}
		case "chain":
			err := n.S.SetReceiverChainKey(n.v.keys[arg(1)], n.chainKey(arg(2)))
			if (err == nil) != (n.Keys[arg(1)] != 0) {
				res = fmt.Sprintf("setting the chain key of chain %d: %v", arg(1), err)
			}
			if n.Keys[arg(1)] != 0 {
				n.Keys[arg(1)] = arg(2)
			}
		case "key":
			c := arg(1)
			err := n.S.SetMessageKeys(n.v.keys[c], n.msgKey(n.Next))
			if (err == nil) != (n.Keys[c] != 0) {
				res = fmt.Sprintf("adding message keys to chain %d: %v", c, err)
			}
			if n.Keys[c] != 0 {
				n.Msg[c] = append(n.Msg[c], n.Next)
				if k := len(n.Msg[c]); k > maxSkipped {
					n.Msg[c] = append([]int(nil), n.Msg[c][k-maxSkipped:]...)
				}
				n.Next++
			}
		case "take":
			res = n.take(n.S, arg(1), arg(2))
			for i, k := range n.Msg[arg(1)] {
				if k == arg(2) {
					n.Msg[arg(1)] = append(append([]int(nil), n.Msg[arg(1)][:i]...), n.Msg[arg(1)][i+1:]...)
					break
				}
			}
		}
		return nil
	})
	if err != nil {
		return err.Error()
	}
	return res
}

// take takes message keys from a state, which must be as the model says.
func (n *sts) take(s *session.State, c, i int) string {
	want := false
	for _, k := range n.Msg[c] {
		want = want || k == i
	}
	mk, ok, err := s.MessageKeys(n.v.keys[c], uint32(i))
	if err != nil || ok != want {
		return fmt.Sprintf("message keys %d of chain %d: %v (%v), expected %v", i, c, ok, err, want)
	}
	if ok {
		x := n.msgKey(i)
		if !bytes.Equal(mk.CipherKey(), x.CipherKey()) || !bytes.Equal(mk.MACKey(), x.MACKey()) || !bytes.Equal(mk.IV(), x.IV()) || mk.Counter() != uint32(i) {
			return fmt.Sprintf("message keys %d of chain %d are not those added", i, c)
		}
	}
	return ""
}

func (n *sts) Check() string {
	if s := n.check(n.S); s != "" {
		return fmt.Sprintf("expected chains %v: %s", n.Chain, s)
	}
	return ""
}

func (n *sts) check(s *session.State) string {
	ckIs := func(c ratchet.ChainKey, i int) bool {
		x := n.chainKey(i)
		return c.Index() == x.Index() && bytes.Equal(c.Key(), x.Key())
	}
	rk, err := s.RootKey()
	if x, ok := n.Set["root"]; (err == nil) != ok || ok && !bytes.Equal(rk.Bytes(), core.Bytes(32, n.v.seed, "root", x)) {
		return fmt.Sprintf("root key (%v)", err)
	}
	ck, err := s.SenderChainKey()
	if x, ok := n.Set["senderkey"]; (err == nil) != ok || ok && !ckIs(ck, x) {
		return fmt.Sprintf("sender chain key (%v)", err)
	}
	pub, err := s.SenderRatchetKey()
	x, ok := n.Set["sender"]
	if (err == nil) != ok || ok && !pub.Equal(n.v.keys[x]) {
		return fmt.Sprintf("sender ratchet key (%v)", err)
	}
	priv, err := s.SenderRatchetPrivateKey()
	if (err == nil) != ok || ok && !bytes.Equal(priv.Bytes(), n.v.priv[x].Bytes()) {
		return fmt.Sprintf("private sender ratchet key (%v)", err)
	}
	if int(s.PreviousCounter()) != n.Set["previous"] || int(s.LocalRegistrationID()) != n.Set["registration"] {
		return fmt.Sprintf("previous counter %d, registration %d", s.PreviousCounter(), s.LocalRegistrationID())
	}
	u, err := s.UnacknowledgedPreKeyMessages()
	signed, ok := n.Set["signed"]
	if err != nil || (u != nil) != ok {
		return fmt.Sprintf("unacknowledged set-up: %v (%v)", u != nil, err)
	}
	if ok {
		id := 0
		if u.PreKeyID() != nil {
			id = int(*u.PreKeyID())
		}
		if id != n.Set["pending"] || int(u.SignedPreKeyID()) != signed || !u.BaseKey().Equal(n.v.keys[signed%n.v.n]) {
			return fmt.Sprintf("the unacknowledged set-up names keys %d and %d", id, u.SignedPreKeyID())
		}
	}
	for c := 1; c <= n.v.n; c++ {
		want, there := n.Keys[c]
		i, ch := s.ReceiverChain(n.v.keys[c])
		if (ch != nil) != there || (i >= 0) != there {
			return fmt.Sprintf("chain %d is there: %v", c, ch != nil)
		}
		k, ok, err := s.ReceiverChainKey(n.v.keys[c])
		if err != nil || ok != there || ok && !ckIs(k, want) {
			return fmt.Sprintf("chain key of chain %d: %v (%v)", c, ok, err)
		}
		for i := 0; i < n.Next; i++ {
			if i >= 4 && i < n.Next-6 {
				continue
			}
			d := s.Clone()
			if x := n.take(d, c, i); x != "" {
				return x
			}
			if n.Next > 100 && i%3 != 0 {
				continue
			}
			for j := 0; j < n.Next; j++ {
				if j == i || j >= 4 && j < n.Next-6 {
					continue
				}
				if x := n.take(d.Clone(), c, j); x != "" {
					return fmt.Sprintf("after taking message keys %d: %s", i, x)
				}
				if n.Next > 100 {
					j += 2
				}
			}
		}
	}
	return ""
}

// grecs is a group record and the list it must equal.
type grecs struct {
	v    *recVals
	R    *session.GroupRecord
	List []gent
	Next int
}

type gent struct{ chain, key, tag int }

func (n *grecs) Clone() core.Node {
	c := *n
	c.R = core.DeepClone(n.R)
	c.List = append([]gent(nil), n.List...)
	return &c
}

func (n *grecs) Key() [32]byte { return core.Digest(n.R, fmt.Sprint(n.List, n.Next)) }

func (n *grecs) Ops() (ops []string) {
	in := map[int]bool{}
	for _, e := range n.List {
		in[e.chain] = true
		ops = append(ops, fmt.Sprintf("add %d %d", e.chain, e.key), fmt.Sprintf("add %d %d", e.chain, 3-e.key),
			fmt.Sprintf("remove %d %d", e.chain, e.key), fmt.Sprintf("remove %d %d", e.chain, 3-e.key), fmt.Sprintf("removeall %d", e.chain))
	}
	for c := 1; c < 9; c++ {
		if !in[c] {
			return append(ops, fmt.Sprintf("add %d 1", c), fmt.Sprintf("add %d 2", c), fmt.Sprintf("remove %d 1", c), fmt.Sprintf("removeall %d", c))
		}
	}
	return
}

func (n *grecs) drop(c, k int) (out []gent, gone []gent) {
	for _, e := range n.List {
		if e.chain == c && (k == 0 || e.key == k) {
			gone = append(gone, e)
		} else {
			out = append(out, e)
		}
	}
	return
}

func (n *grecs) is(st *session.GroupState, e gent) bool {
	pk, err := st.PublicSigningKey()
	ck := st.SenderChainKey()
	return err == nil && pk.Equal(n.v.keys[e.key]) && int(st.ChainID()) == e.chain && int(ck.Iteration()) == e.tag && bytes.Equal(ck.Seed(), core.Bytes(32, n.v.seed, "group chain", e.tag))
}

func (n *grecs) Apply(op string) (res string) {
	f := strings.Fields(op)
	arg := func(i int) int { x, _ := strconv.Atoi(f[i]); return x }
	err := world.Protect(func() error {
		switch f[0] {
		case "add":
			n.Next++
			e := gent{arg(1), arg(2), n.Next}
			err := n.R.AddState(session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: uint32(e.chain), Iteration: uint32(e.tag),
				ChainKey: core.Bytes(32, n.v.seed, "group chain", e.tag), SignatureKey: n.v.keys[e.key], SignaturePrivateKey: n.v.priv[e.key]}))
			if err != nil {
				return err
			}
			if _, same := n.drop(e.chain, e.key); len(same) > 0 {
				e = same[0]
			}
			n.List, _ = n.drop(e.chain, 0)
			n.List = append(n.List, e)
			if len(n.List) > maxChains {
				n.List = append([]gent(nil), n.List[1:]...)
			}
		case "remove":
			st, ok := n.R.RemoveState(uint32(arg(1)), n.v.keys[arg(2)])
			l, gone := n.drop(arg(1), arg(2))
			n.List = l
			if ok != (len(gone) > 0) || ok && !n.is(st, gone[0]) {
				res = fmt.Sprintf("%s: %v", op, ok)
			}
		case "removeall":
			k := n.R.RemoveStates(uint32(arg(1)))
			l, gone := n.drop(arg(1), 0)
			n.List = l
			if k != len(gone) {
				res = fmt.Sprintf("%s: %d", op, k)
			}
		}
		return nil
	})
	if err != nil {
		return err.Error()
	}
	return res
}

func (n *grecs) Check() string {
	for c := 0; c < 10; c++ {
		st := n.R.StateForChainID(uint32(c))
		_, l := n.drop(c, 0)
		if (st != nil) != (len(l) > 0) || st != nil && !n.is(st, l[0]) {
			return fmt.Sprintf("expected %v: state of chain %d: %v", n.List, c, st != nil)
		}
	}
	st, err := n.R.State()
	if (err == nil) != (len(n.List) > 0) {
		return fmt.Sprintf("expected %v: State: %v", n.List, err)
	}
	for _, e := range n.List {
		if n.is(st, e) {
			return ""
		}
	}
	if err == nil {
		return fmt.Sprintf("expected %v: State is none of them", n.List)
	}
	return ""
}

// gkeys is a group state and the message keys it must hold.
type gkeys struct {
	v    *recVals
	S    *session.GroupState
	Keys []int
	Next int
	At   int
}

func newGkeys(v *recVals, n int) *gkeys {
	g := &gkeys{v: v, S: session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: 5, Iteration: 1, ChainKey: core.Bytes(32, v.seed, "group chain", 1), SignatureKey: v.keys[1]}), At: 1}
	for i := 0; i < n; i++ {
		g.Apply("key")
	}
	return g
}

func (n *gkeys) Clone() core.Node {
	c := *n
	c.S = core.DeepClone(n.S)
	c.Keys = append([]int(nil), n.Keys...)
	return &c
}

func (n *gkeys) Key() [32]byte { return core.Digest(n.S, fmt.Sprint(n.Keys, n.Next, n.At)) }

func (n *gkeys) Ops() []string {
	ops := []string{"key", "take -1", fmt.Sprint("take ", n.Next), fmt.Sprint("chain ", n.At+1)}
	k := n.Keys
	for i := range k {
		if i < 2 || i > len(k)-4 {
			ops = append(ops, fmt.Sprint("take ", k[i]))
		}
	}
	return ops
}

func (n *gkeys) seed(i int) []byte { return core.Bytes(32, n.v.seed, "group message key", i) }

func (n *gkeys) take(s *session.GroupState, i int) string {
	want := false
	for _, k := range n.Keys {
		want = want || k == i
	}
	mk, ok, err := s.RemoveMessageKeys(uint32(i))
	if err != nil || ok != want {
		return fmt.Sprintf("message key %d: %v (%v), expected %v", i, ok, err, want)
	}
	if ok {
		x := must2(senderkey.DeriveMessageKey(n.seed(i), uint32(i)))
		if !bytes.Equal(mk.CipherKey(), x.CipherKey()) || !bytes.Equal(mk.IV(), x.IV()) || mk.Iteration() != uint32(i) {
			return fmt.Sprintf("message key %d is not the one added", i)
		}
	}
	return ""
}

func (n *gkeys) Apply(op string) (res string) {
	f := strings.Fields(op)
	arg := func(i int) int { x, _ := strconv.Atoi(f[i]); return x }
	err := world.Protect(func() error {
		switch f[0] {
		case "key":
			n.S.AddMessageKey(must2(senderkey.DeriveMessageKey(n.seed(n.Next), uint32(n.Next))))
			n.Keys = append(n.Keys, n.Next)
			if len(n.Keys) > maxSkipped {
				n.Keys = append([]int(nil), n.Keys[1:]...)
			}
			n.Next++
		case "chain":
			n.At = arg(1)
			n.S.SetSenderChainKey(senderkey.NewChainKey(core.Bytes(32, n.v.seed, "group chain", n.At), uint32(n.At)))
		case "take":
			res = n.take(n.S, arg(1))
			for i, k := range n.Keys {
				if k == arg(1) {
					n.Keys = append(append([]int(nil), n.Keys[:i]...), n.Keys[i+1:]...)
					break
				}
			}
		}
		return nil
	})
	if err != nil {
		return err.Error()
	}
	return res
}

func (n *gkeys) Check() string {
	if ck := n.S.SenderChainKey(); int(ck.Iteration()) != n.At || !bytes.Equal(ck.Seed(), core.Bytes(32, n.v.seed, "group chain", n.At)) {
		return fmt.Sprintf("the chain key is not that of %d", n.At)
	}
	if pk, err := n.S.PublicSigningKey(); err != nil || !pk.Equal(n.v.keys[1]) || n.S.ChainID() != 5 || n.S.Version() != 3 {
		return fmt.Sprintf("signing key, chain or version (%v)", err)
	}
	for i := 0; i <= n.Next; i++ {
		if i >= 4 && i < n.Next-6 {
			continue
		}
		d := core.DeepClone(n.S)
		if x := n.take(d, i); x != "" {
			return x
		}
		for j := 0; j <= n.Next; j++ {
			if j == i || j >= 4 && j < n.Next-6 || n.Next > 100 && (i+j)%3 != 0 {
				continue
			}
			if x := n.take(core.DeepClone(d), j); x != "" {
				return fmt.Sprintf("after taking message key %d: %s", i, x)
			}
		}
	}
	return ""
}

func c33(r *core.Run) {
	d := func(q, t int) int { return core.Pick(r, q, t) }
	v := newRecVals(r.Seed, 8)
	big := newRecVals(r.Seed, 47)
	for _, s := range []core.Space{
		{Name: "session records", Depth: d(9, 12), Root: func() core.Node { return &recs{v: v, R: session.NewRecord(nil)} }},
		{Name: "session records at the limit", Depth: d(3, 4), Root: func() core.Node {
			n := &recs{v: big, R: session.NewRecord(nil)}
			for i := 1; i <= maxArch; i++ {
				n.Apply(fmt.Sprint("promote ", i))
			}
			return n
		}},
		{Name: "session states", Depth: d(4, 5), Root: func() core.Node { return newSts(v, 0) }},
		{Name: "session states with chains", Depth: d(3, 4), Root: func() core.Node {
			n := newSts(v, 2)
			for _, op := range []string{"add 2", "key 2", "add 3", "key 3", "key 3", "key 3", "add 4", "sender 1", "root 1"} {
				n.Apply(op)
			}
			return n
		}},
		{Name: "session states at the limit", Depth: d(2, 3), Root: func() core.Node { return newSts(v, maxSkipped-1) }},
		{Name: "group records", Depth: d(7, 8), Root: func() core.Node { return &grecs{v: v, R: session.NewGroupRecord()} }},
		{Name: "group states", Depth: d(6, 8), Root: func() core.Node { return newGkeys(v, 0) }},
		{Name: "group states at the limit", Depth: d(3, 4), Root: func() core.Node { return newGkeys(v, maxSkipped-1) }},
	} {
		r.Explore(s)
	}
	for _, s := range []struct {
		root         string
		sends, inits [2]int
		restart      bool
		archive      int
		q, t         int
		mem          bool
	}{
		{"fresh", [2]int{3, 2}, [2]int{1, 1}, false, 1, 7, 9, false},
		{"fresh", [2]int{2, 2}, [2]int{2, 1}, true, 0, 7, 8, true},
		{"initiated", [2]int{3, 3}, [2]int{0, 1}, true, 1, 6, 7, true},
		{"established", [2]int{3, 3}, [2]int{0, 0}, true, 1, 6, 8, false},
		{"established-none", [2]int{2, 2}, [2]int{1, 1}, false, 1, 6, 7, true},
		{"crossed", [2]int{2, 2}, [2]int{0, 0}, false, 1, 6, 7, false},
		{"crossed-read", [2]int{2, 2}, [2]int{0, 1}, false, 1, 5, 7, true},
		{"reinit-read", [2]int{2, 2}, [2]int{1, 0}, false, 1, 5, 7, false},
		{"three-sessions", [2]int{2, 2}, [2]int{1, 0}, false, 2, 4, 6, true},
	} {
		cfg := pcfg{Seed: r.Seed, Kinds: "", Modes: "on", Check: recordPair(r)}
		cfg.MaxSend, cfg.MaxInit, cfg.Mem, cfg.Restart, cfg.Archive = s.sends, s.inits, s.mem, s.restart, s.archive
		r.Explore(pairSpace(s.root, cfg, core.Pick(r, s.q, s.t)))
	}
	// The limit of archived sessions.
	for _, mem := range []bool{false, true} {
		cfg := pcfg{Seed: r.Seed, Kinds: "", Modes: "n", Check: recordPair(r), Mem: mem, MaxSend: [2]int{1, 1}, MaxInit: [2]int{2, 1}, Archive: 1, NoRecv: true}
		r.Explore(pairSpace(strings.Repeat("I0n S0 r1 S1 r0 ", maxArch), cfg, d(4, 5)))
		r.Explore(pairSpace(strings.Repeat("I0n S0 ", maxArch+1), cfg, d(2, 3)))
	}
	base := icfg{seed: r.Seed, maxSend: [2]int{3, 3}, maxInit: [2]int{1, 1}, modes: "on", mirror: true, check: recordKeys(r)}
	one := base
	one.maxInit = [2]int{}
	arch := one
	arch.archive = 2
	restart := one
	restart.restart = true
	mem := base
	mem.mem = true
	for _, s := range []core.Space{
		interSpace("from nothing", "", base, d(6, 8)),
		interSpace("library initiated", "ILo SL r SR r", one, d(7, 9)),
		interSpace("reference initiated", "IRo SR r SL r", one, d(7, 9)),
		interSpace("both initiated", "ILo IRo SL SR", mem, d(5, 7)),
		interSpace("archived sessions", "ILo SL r SR r IRo SR r ILn SL r", arch, d(6, 8)),
		interSpace("with restarts", "IRo SR r SL r", restart, d(6, 8)),
		interSpace("after many turns", "ILn SL r SR r SL r SR r SL r SR SR SR r SL SR", base, d(5, 7)),
	} {
		r.Explore(s)
	}
	r.Count("sessions_not_followed", mirrorLost.Load())
	groupSpaces(r, "", recordGroup(r), []gspace{
		{"", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 4, maxDist: 3, again: true}, 9, 11},
		{"", gcfg{n: 3, senders: []int{0, 1}, dists: 1, maxSend: 2, maxDist: 2, mem: true}, 7, 9},
		{"N 0 0; D 1 0; S 0 0; S 0 0; S 0 0; R 1 2", gcfg{n: 2, senders: []int{0}, dists: 2, maxSend: 2, maxDist: 3, again: true}, 6, 8},
		{"N 0 0; S 0 0; K 0 0; N 0 0; S 0 0; K 0 0; N 0 0; D 1 all; S 0 0; R 1 all", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 2, maxDist: 4, again: true, rekey: 1}, 6, 8},
	})
}
