// Package world builds parties of the library under test that can be copied,
// compared and made to fail, using only the library's exported API.
package world

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/protocol"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/mc/core"
)

var Ctx = context.Background()

// GroupKey names a group record.
type GroupKey struct {
	Addr address.Address
	Dist distribution.ID
}

// Call is one call of the library to a store or to the random source.
type Call struct {
	Store string // session, identity, prekey, signed, group, random
	Op    string
	Addr  address.Address
	Dist  distribution.ID
	ID    prekey.ID
	Key   []byte
	Dir   direction.Direction
}

func (c Call) String() string {
	return fmt.Sprintf("%s.%s", c.Store, c.Op)
}

// Write reports whether the call changes a store.
func (c Call) Write() bool { return c.Op == "Store" || c.Op == "Delete" }

// Hook sees a call before (post=false) and after (post=true) it takes effect; an
// error is returned to the library.
type Hook func(c Call, post bool) error

// ErrFault is the error of an injected failure.
var ErrFault = errors.New("injected store failure")

// DB is a set of stores with the semantics of a database: records are copied in
// and out.
type DB struct {
	KP     identity.KeyPair
	Reg    uint32
	sess   map[address.Address]*session.Record
	ident  map[address.Address]identity.Key
	pre    map[prekey.ID]*prekey.PreKey
	signed map[prekey.ID]*prekey.SignedPreKey
	group  map[GroupKey]*session.GroupRecord
	Hook   Hook
	// TrustAll accepts every identity, as an application may choose to.
	TrustAll bool
	// Policy, if set, decides about trust instead.
	Policy func(a address.Address, k identity.Key, d direction.Direction) bool
}

func NewDB(kp identity.KeyPair, reg uint32) *DB {
	return &DB{KP: kp, Reg: reg,
		sess:   map[address.Address]*session.Record{},
		ident:  map[address.Address]identity.Key{},
		pre:    map[prekey.ID]*prekey.PreKey{},
		signed: map[prekey.ID]*prekey.SignedPreKey{},
		group:  map[GroupKey]*session.GroupRecord{},
	}
}

func copyMap[K comparable, V any](m map[K]V) map[K]V {
	c := make(map[K]V, len(m)+1)
	for k, v := range m {
		c[k] = v
	}
	return c
}

// Clone copies the database (stored records are never changed in place).
func (d *DB) Clone() *DB {
	return &DB{KP: d.KP, Reg: d.Reg, sess: copyMap(d.sess), ident: copyMap(d.ident), pre: copyMap(d.pre),
		signed: copyMap(d.signed), group: copyMap(d.group), TrustAll: d.TrustAll, Policy: d.Policy}
}

func (d *DB) call(c Call, effect func()) error {
	if d.Hook != nil {
		if err := d.Hook(c, false); err != nil {
			return err
		}
	}
	effect()
	if d.Hook != nil {
		return d.Hook(c, true)
	}
	return nil
}

type dbSess struct{ *DB }
type dbIdent struct{ *DB }
type dbPre struct{ *DB }
type dbSigned struct{ *DB }
type dbGroup struct{ *DB }

func (d dbSess) Load(_ context.Context, a address.Address) (rec *session.Record, ok bool, err error) {
	err = d.call(Call{Store: "session", Op: "Load", Addr: a}, func() {
		var r *session.Record
		if r, ok = d.sess[a]; ok {
			rec = core.DeepClone(r)
		}
	})
	if err != nil {
		return nil, false, err
	}
	return
}

func (d dbSess) Store(_ context.Context, a address.Address, r *session.Record) error {
	return d.call(Call{Store: "session", Op: "Store", Addr: a}, func() { d.sess[a] = core.DeepClone(r) })
}

func (d dbIdent) KeyPair(context.Context) identity.KeyPair   { return d.KP }
func (d dbIdent) LocalRegistrationID(context.Context) uint32 { return d.Reg }
func (d dbIdent) Clear() error                               { d.ident = map[address.Address]identity.Key{}; return nil }
func (d dbIdent) Load(_ context.Context, a address.Address) (k identity.Key, ok bool, err error) {
	err = d.call(Call{Store: "identity", Op: "Load", Addr: a}, func() { k, ok = d.ident[a] })
	if err != nil {
		return identity.Key{}, false, err
	}
	return
}

func (d dbIdent) Store(_ context.Context, a address.Address, k identity.Key) (replaced bool, err error) {
	err = d.call(Call{Store: "identity", Op: "Store", Addr: a, Key: k.Bytes()}, func() {
		old, ok := d.ident[a]
		replaced = ok && !bytes.Equal(old.Bytes(), k.Bytes())
		d.ident[a] = core.DeepClone(k)
	})
	if err != nil {
		return false, err
	}
	return
}

func (d dbIdent) IsTrustedIdentity(_ context.Context, a address.Address, k identity.Key, dir direction.Direction) (ok bool, err error) {
	err = d.call(Call{Store: "identity", Op: "IsTrusted", Addr: a, Key: k.Bytes(), Dir: dir}, func() {
		old, known := d.ident[a]
		ok = d.TrustAll || !known || bytes.Equal(old.Bytes(), k.Bytes())
		if d.Policy != nil {
			ok = d.Policy(a, k, dir)
		}
	})
	if err != nil {
		return false, err
	}
	return
}

func (d dbPre) Load(_ context.Context, id prekey.ID) (k *prekey.PreKey, ok bool, err error) {
	err = d.call(Call{Store: "prekey", Op: "Load", ID: id}, func() { k, ok = d.pre[id] })
	if err != nil {
		return nil, false, err
	}
	return
}

func (d dbPre) Store(_ context.Context, id prekey.ID, k *prekey.PreKey) error {
	return d.call(Call{Store: "prekey", Op: "Store", ID: id}, func() { d.pre[id] = k })
}

func (d dbPre) Delete(_ context.Context, id prekey.ID) error {
	return d.call(Call{Store: "prekey", Op: "Delete", ID: id}, func() { delete(d.pre, id) })
}

func (d dbSigned) Load(_ context.Context, id prekey.ID) (k *prekey.SignedPreKey, ok bool, err error) {
	err = d.call(Call{Store: "signed", Op: "Load", ID: id}, func() { k, ok = d.signed[id] })
	if err != nil {
		return nil, false, err
	}
	return
}

func (d dbSigned) Store(_ context.Context, id prekey.ID, k *prekey.SignedPreKey) error {
	return d.call(Call{Store: "signed", Op: "Store", ID: id}, func() { d.signed[id] = k })
}

func (d dbGroup) Load(_ context.Context, a address.Address, id distribution.ID) (rec *session.GroupRecord, ok bool, err error) {
	err = d.call(Call{Store: "group", Op: "Load", Addr: a, Dist: id}, func() {
		var r *session.GroupRecord
		if r, ok = d.group[GroupKey{a, id}]; ok {
			rec = core.DeepClone(r)
		}
	})
	if err != nil {
		return nil, false, err
	}
	return
}

func (d dbGroup) Store(_ context.Context, a address.Address, id distribution.ID, r *session.GroupRecord) error {
	return d.call(Call{Store: "group", Op: "Store", Addr: a, Dist: id}, func() { d.group[GroupKey{a, id}] = core.DeepClone(r) })
}

// Universe lists the keys under which a world may store anything.
type Universe struct {
	Addrs  []address.Address
	Pre    []prekey.ID
	Signed []prekey.ID
	Groups []GroupKey
}

// Party is one device.
type Party struct {
	Name string
	Addr address.Address
	KP   identity.KeyPair
	Reg  uint32
	U    *Universe
	DB   *DB            // one of DB
	Mem  protocol.Store // and Mem
	Seed int64
	// Nonce distinguishes repeated operations in an otherwise equal state.
	Nonce int
	// RandHook sees every read of the random source.
	RandHook Hook
	// ShortReads makes the random source deliver one byte at a time.
	ShortReads bool

	memHook Hook
	// OpCtx is the context of the operations, and CtxHook sees the one of every call
	// of an operation.
	OpCtx   context.Context
	CtxHook CtxHook
	// The session objects in use, and how many operations succeeded.
	objs  map[objKey]*session.Session
	gobjs map[objKey]*session.GroupSession
	// RecvDist is the group of the session objects with which the party receives; by
	// default it is that of the message in one half of the cases, and none in the other.
	RecvDist distribution.ID
	turn  int
	dg    *[32]byte // cached digest; reset by every operation
}

// Touched must be called after the stores were changed by other means than the
// methods of Party.
func (p *Party) Touched() { p.dg = nil }

// NewParty creates a device with a fixed identity.
func NewParty(seed int64, name, ident string, addr address.Address, reg uint32, u *Universe, mem bool) *Party {
	kp, err := identity.GenerateKeyPair(core.NewPRF(seed, "identity", ident))
	if err != nil {
		panic(err)
	}
	p := &Party{Name: name, Addr: addr, KP: kp, Reg: reg, U: u, Seed: seed}
	if mem {
		p.Mem = protocol.NewInMemStore(kp, reg)
	} else {
		p.DB = NewDB(kp, reg)
	}
	return p
}

func (p *Party) Sess() session.Store {
	if p.Mem != nil {
		if p.memHook != nil {
			return memSess{p}
		}
		return p.Mem.SessionStore()
	}
	return dbSess{p.DB}
}

func (p *Party) Ident() identity.Store {
	if p.Mem != nil {
		if p.memHook != nil {
			return memIdent{p.Mem.IdentityStore(), p}
		}
		return p.Mem.IdentityStore()
	}
	return dbIdent{p.DB}
}

func (p *Party) Pre() prekey.Store {
	if p.Mem != nil {
		if p.memHook != nil {
			return memPre{p}
		}
		return p.Mem.PreKeyStore()
	}
	return dbPre{p.DB}
}

func (p *Party) Signed() prekey.SignedStore {
	if p.Mem != nil {
		if p.memHook != nil {
			return memSigned{p}
		}
		return p.Mem.SignedPreKeyStore()
	}
	return dbSigned{p.DB}
}

func (p *Party) Group() session.GroupStore {
	if p.Mem != nil {
		if p.memHook != nil {
			return memGroup{p}
		}
		return p.Mem.GroupStore()
	}
	return dbGroup{p.DB}
}

// Clone copies the party with its stores.
func (p *Party) Clone() *Party {
	c := *p
	c.RandHook, c.memHook, c.ShortReads, c.OpCtx, c.CtxHook = nil, nil, false, nil, nil
	c.cloneObjects()
	if p.DB != nil {
		c.DB = p.DB.Clone()
		return &c
	}
	c.Mem = protocol.NewInMemStore(p.KP, p.Reg)
	for _, a := range p.U.Addrs {
		if r, ok, _ := p.Mem.SessionStore().Load(Ctx, a); ok {
			c.Mem.SessionStore().Store(Ctx, a, core.DeepClone(r))
		}
		if k, ok, _ := p.Mem.IdentityStore().Load(Ctx, a); ok {
			c.Mem.IdentityStore().Store(Ctx, a, core.DeepClone(k))
		}
	}
	for _, id := range p.U.Pre {
		if k, ok, _ := p.Mem.PreKeyStore().Load(Ctx, id); ok {
			c.Mem.PreKeyStore().Store(Ctx, id, core.DeepClone(k))
		}
	}
	for _, id := range p.U.Signed {
		if k, ok, _ := p.Mem.SignedPreKeyStore().Load(Ctx, id); ok {
			c.Mem.SignedPreKeyStore().Store(Ctx, id, core.DeepClone(k))
		}
	}
	for _, g := range p.U.Groups {
		if k, ok, _ := p.Mem.GroupStore().Load(Ctx, g.Addr, g.Dist); ok {
			c.Mem.GroupStore().Store(Ctx, g.Addr, g.Dist, core.DeepClone(k))
		}
	}
	return &c
}

// Contents returns what the stores hold, entry by entry.
func (p *Party) Contents() map[string][32]byte {
	hook := (Hook)(nil)
	mh := p.memHook
	p.memHook = nil
	defer func() { p.memHook = mh }()
	if p.DB != nil {
		hook, p.DB.Hook = p.DB.Hook, nil
		defer func() { p.DB.Hook = hook }()
	}
	m := map[string][32]byte{}
	for i, a := range p.U.Addrs {
		if p.DB != nil {
			if r, ok := p.DB.sess[a]; ok {
				m[fmt.Sprint("session ", i, " ", a)] = core.Digest(r)
			}
		} else if r, ok, _ := p.Sess().Load(Ctx, a); ok {
			m[fmt.Sprint("session ", i, " ", a)] = core.Digest(r)
		}
		if k, ok, _ := p.Ident().Load(Ctx, a); ok {
			m[fmt.Sprint("identity ", i, " ", a)] = core.Digest(k.Bytes())
		}
	}
	for _, id := range p.U.Pre {
		if k, ok, _ := p.Pre().Load(Ctx, id); ok {
			m[fmt.Sprint("prekey ", id)] = core.Digest(k)
		}
	}
	for _, id := range p.U.Signed {
		if k, ok, _ := p.Signed().Load(Ctx, id); ok {
			m[fmt.Sprint("signed ", id)] = core.Digest(k)
		}
	}
	for i, g := range p.U.Groups {
		if p.DB != nil {
			if r, ok := p.DB.group[g]; ok {
				m[fmt.Sprint("group ", i, " ", g)] = core.Digest(r)
			}
		} else if r, ok, _ := p.Group().Load(Ctx, g.Addr, g.Dist); ok {
			m[fmt.Sprint("group ", i, " ", g)] = core.Digest(r)
		}
	}
	return m
}

// Digest hashes the contents of the stores.
func (p *Party) Digest() [32]byte {
	if p.dg == nil {
		d := p.digest()
		p.dg = &d
	}
	return *p.dg
}

func (p *Party) digest() [32]byte {
	m := p.Contents()
	var xs []any
	for _, k := range core.Keys(m) {
		d := m[k]
		xs = append(xs, k, d[:])
	}
	if p.DB != nil {
		// Anything stored outside the universe counts too.
		xs = append(xs, len(p.DB.sess), len(p.DB.ident), len(p.DB.pre), len(p.DB.signed), len(p.DB.group))
	}
	return core.Digest(xs...)
}

// Diff names the entries in which two contents differ.
func Diff(a, b map[string][32]byte) []string {
	var out []string
	for _, k := range core.Keys(a) {
		if v, ok := b[k]; !ok {
			out = append(out, "-"+k)
		} else if v != a[k] {
			out = append(out, "~"+k)
		}
	}
	for _, k := range core.Keys(b) {
		if _, ok := a[k]; !ok {
			out = append(out, "+"+k)
		}
	}
	return out
}

// SetHook installs a hook on the stores and the random source.
func (p *Party) SetHook(h Hook) {
	p.RandHook = h
	if p.DB != nil {
		p.DB.Hook = h
	} else {
		p.memHook = h
	}
}

// Rand returns the random source for an operation: a function of the party's state
// and the operation, so that independent operations commute.
func (p *Party) Rand(op string) io.Reader {
	d := p.Digest()
	return &hookReader{core.NewPRF(p.Seed, "rand", p.Name, op, d[:], p.Nonce), p}
}

type hookReader struct {
	r io.Reader
	p *Party
}

func (h *hookReader) Read(b []byte) (int, error) {
	if h.p.ShortReads && len(b) > 1 {
		b = b[:1]
	}
	if h.p.RandHook != nil {
		if err := h.p.RandHook(Call{Store: "random", Op: "Read"}, false); err != nil {
			return 0, err
		}
	}
	n, err := h.r.Read(b)
	if h.p.RandHook != nil {
		if err := h.p.RandHook(Call{Store: "random", Op: "Read"}, true); err != nil {
			return n / 2, err
		}
	}
	return n, err
}

// RemovePre and RemoveSession change the stores directly, as an application would.
func (p *Party) RemoveSession(a address.Address) {
	p.dg = nil
	if p.DB != nil {
		delete(p.DB.sess, a)
	}
}

// ForgetIdentity removes the pinned key of an address (database parties only).
func (p *Party) ForgetIdentity(a address.Address) { p.dg = nil; delete(p.DB.ident, a) }

// SetTrust pins a key as the application would.
func (p *Party) SetTrust(a address.Address, k identity.Key) {
	p.dg = nil
	if _, err := p.Ident().Store(Ctx, a, k); err != nil {
		panic(err)
	}
}

// RawRecord returns the stored session record itself for inspection.
func (p *Party) RawRecord(a address.Address) (*session.Record, bool) {
	if p.DB != nil {
		r, ok := p.DB.sess[a]
		return r, ok
	}
	r, ok, _ := p.Mem.SessionStore().Load(Ctx, a)
	return r, ok
}

// The bundled in-memory stores behind a hook.
type memSess struct{ p *Party }
type identIface = identity.Store
type memIdent struct {
	identIface
	p *Party
}
type memPre struct{ p *Party }
type memSigned struct{ p *Party }
type memGroup struct{ p *Party }

func (p *Party) memCall(c Call, effect func() error) error {
	if err := p.memHook(c, false); err != nil {
		return err
	}
	if err := effect(); err != nil {
		return err
	}
	return p.memHook(c, true)
}

func (m memSess) Load(ctx context.Context, a address.Address) (r *session.Record, ok bool, err error) {
	err = m.p.memCall(Call{Store: "session", Op: "Load", Addr: a}, func() (e error) { r, ok, e = m.p.Mem.SessionStore().Load(ctx, a); return })
	if err != nil {
		return nil, false, err
	}
	return
}

func (m memSess) Store(ctx context.Context, a address.Address, r *session.Record) error {
	return m.p.memCall(Call{Store: "session", Op: "Store", Addr: a}, func() error { return m.p.Mem.SessionStore().Store(ctx, a, r) })
}

func (m memIdent) Load(ctx context.Context, a address.Address) (k identity.Key, ok bool, err error) {
	err = m.p.memCall(Call{Store: "identity", Op: "Load", Addr: a}, func() (e error) { k, ok, e = m.identIface.Load(ctx, a); return })
	if err != nil {
		return identity.Key{}, false, err
	}
	return
}

func (m memIdent) IsTrustedIdentity(ctx context.Context, a address.Address, k identity.Key, d direction.Direction) (ok bool, err error) {
	err = m.p.memCall(Call{Store: "identity", Op: "IsTrusted", Addr: a, Key: k.Bytes(), Dir: d}, func() (e error) { ok, e = m.identIface.IsTrustedIdentity(ctx, a, k, d); return })
	if err != nil {
		return false, err
	}
	return
}

func (m memIdent) Store(ctx context.Context, a address.Address, k identity.Key) (rep bool, err error) {
	err = m.p.memCall(Call{Store: "identity", Op: "Store", Addr: a, Key: k.Bytes()}, func() (e error) { rep, e = m.identIface.Store(ctx, a, k); return })
	if err != nil {
		return false, err
	}
	return
}

func (m memPre) Load(ctx context.Context, id prekey.ID) (k *prekey.PreKey, ok bool, err error) {
	err = m.p.memCall(Call{Store: "prekey", Op: "Load", ID: id}, func() (e error) { k, ok, e = m.p.Mem.PreKeyStore().Load(ctx, id); return })
	if err != nil {
		return nil, false, err
	}
	return
}

func (m memPre) Store(ctx context.Context, id prekey.ID, k *prekey.PreKey) error {
	return m.p.memCall(Call{Store: "prekey", Op: "Store", ID: id}, func() error { return m.p.Mem.PreKeyStore().Store(ctx, id, k) })
}

func (m memPre) Delete(ctx context.Context, id prekey.ID) error {
	return m.p.memCall(Call{Store: "prekey", Op: "Delete", ID: id}, func() error { return m.p.Mem.PreKeyStore().Delete(ctx, id) })
}

func (m memSigned) Load(ctx context.Context, id prekey.ID) (k *prekey.SignedPreKey, ok bool, err error) {
	err = m.p.memCall(Call{Store: "signed", Op: "Load", ID: id}, func() (e error) { k, ok, e = m.p.Mem.SignedPreKeyStore().Load(ctx, id); return })
	if err != nil {
		return nil, false, err
	}
	return
}

func (m memSigned) Store(ctx context.Context, id prekey.ID, k *prekey.SignedPreKey) error {
	return m.p.memCall(Call{Store: "signed", Op: "Store", ID: id}, func() error { return m.p.Mem.SignedPreKeyStore().Store(ctx, id, k) })
}

func (m memGroup) Load(ctx context.Context, a address.Address, id distribution.ID) (r *session.GroupRecord, ok bool, err error) {
	err = m.p.memCall(Call{Store: "group", Op: "Load", Addr: a, Dist: id}, func() (e error) { r, ok, e = m.p.Mem.GroupStore().Load(ctx, a, id); return })
	if err != nil {
		return nil, false, err
	}
	return
}

func (m memGroup) Store(ctx context.Context, a address.Address, id distribution.ID, r *session.GroupRecord) error {
	return m.p.memCall(Call{Store: "group", Op: "Store", Addr: a, Dist: id}, func() error { return m.p.Mem.GroupStore().Store(ctx, a, id, r) })
}

// View returns the same device seen through another hook; the stores are shared.
func (p *Party) View(h Hook) *Party {
	c := *p
	c.dg = nil
	c.cloneObjects()
	if p.DB != nil {
		db := *p.DB
		c.DB = &db
	}
	c.SetHook(h)
	return &c
}
