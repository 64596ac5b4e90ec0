package world

import (
	"fmt"
	"io"
	"reflect"
	"runtime/debug"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/mc/core"
)

// Panic is the error of an operation that panicked.
type Panic struct {
	Val   any
	Stack string
}

func (p *Panic) Error() string { return fmt.Sprintf("PANIC: %v", p.Val) }

// Crash is thrown by a hook to stop an operation as a crash of the process would.
type Crash struct{}

// Protect runs f and turns a panic into an error.
func Protect(f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(Crash); ok {
				panic(e)
			}
			err = &Panic{e, string(debug.Stack())}
		}
	}()
	return f()
}

// IsPanic reports whether an operation panicked.
func IsPanic(err error) bool { _, ok := err.(*Panic); return ok }

// KeepObjects makes the operations of a party use two session objects per
// conversation in turn, rather than new ones, if the objects can hold anything of
// their own. An operation that failed is repeated on the same object.
var KeepObjects = true

// stateful reports whether a type has fields besides the given number of known ones.
func stateful(v any, known int) bool {
	t := reflect.TypeOf(v)
	for i := 0; i < t.NumField(); i++ {
		if !t.Field(i).IsExported() {
			return true
		}
	}
	return t.NumField() > known
}

var (
	sessionStateful = stateful(session.Session{}, 5)
	groupStateful   = stateful(session.GroupSession{}, 3)
)

type objKey struct {
	addr address.Address
	dist distribution.ID
	turn int
}

// done notes how an operation on a session object ended.
func (p *Party) done(err *error) {
	p.dg = nil
	if *err == nil {
		p.turn++
	}
}

// Session returns the session object of the party for a remote address.
func (p *Party) Session(remote address.Address) *session.Session {
	s := &session.Session{}
	if sessionStateful && KeepObjects {
		k := objKey{remote, distribution.ID{}, p.turn % 2}
		if p.objs == nil {
			p.objs = map[objKey]*session.Session{}
		}
		if o := p.objs[k]; o != nil {
			s = o
		} else {
			p.objs[k] = s
		}
	}
	s.RemoteAddress, s.SessionStore, s.PreKeyStore = remote, p.Sess(), p.Pre()
	s.SignedPreKeyStore, s.IdentityKeyStore = p.Signed(), p.Ident()
	if h := p.CtxHook; h != nil {
		s.SessionStore, s.PreKeyStore = ctxSess{s.SessionStore, h}, ctxPre{s.PreKeyStore, h}
		s.SignedPreKeyStore, s.IdentityKeyStore = ctxSigned{s.SignedPreKeyStore, h}, ctxIdent{s.IdentityKeyStore, h}
	}
	return s
}

// GroupSession returns the group session object of the party.
func (p *Party) GroupSession(sender address.Address, dist distribution.ID) *session.GroupSession {
	s := &session.GroupSession{}
	if groupStateful && KeepObjects {
		k := objKey{sender, dist, p.turn % 2}
		if p.gobjs == nil {
			p.gobjs = map[objKey]*session.GroupSession{}
		}
		if o := p.gobjs[k]; o != nil {
			s = o
		} else {
			p.gobjs[k] = s
		}
	}
	s.SenderAddress, s.DistID, s.SenderKeyStore = sender, dist, p.Group()
	if p.CtxHook != nil {
		s.SenderKeyStore = ctxGroup{s.SenderKeyStore, p.CtxHook}
	}
	return s
}

// cloneObjects gives the party its own copies of its session objects.
func (p *Party) cloneObjects() {
	if p.objs != nil {
		m := map[objKey]*session.Session{}
		for k, o := range p.objs {
			c := *o
			c.RemoteAddress, c.SessionStore, c.PreKeyStore, c.SignedPreKeyStore, c.IdentityKeyStore = address.Address{}, nil, nil, nil, nil
			m[k] = core.DeepClone(&c)
		}
		p.objs = m
	}
	if p.gobjs != nil {
		m := map[objKey]*session.GroupSession{}
		for k, o := range p.gobjs {
			c := *o
			c.SenderKeyStore = nil
			m[k] = core.DeepClone(&c)
		}
		p.gobjs = m
	}
}

// Encrypt encrypts for a remote address and returns the encoded message.
func (p *Party) Encrypt(remote address.Address, pt []byte) (typ message.CiphertextType, wire []byte, err error) {
	defer p.done(&err)
	err = Protect(func() error {
		m, err := p.Session(remote).EncryptMessage(p.ctx(), pt)
		if err != nil {
			if m != nil {
				return fmt.Errorf("LEAK: ciphertext returned with error %w", err)
			}
			return err
		}
		if m == nil {
			return fmt.Errorf("NIL: no ciphertext and no error")
		}
		typ, wire = m.Type(), append([]byte(nil), m.Bytes()...)
		return nil
	})
	return
}

// ParsePair decodes a pairwise message.
func ParsePair(typ message.CiphertextType, wire []byte) (message.Ciphertext, error) {
	if typ == message.PreKeyType {
		return message.NewPreKeyFromBytes(wire)
	}
	return message.NewSignalFromBytes(wire)
}

// Decrypt decodes and decrypts a message from a remote address.
func (p *Party) Decrypt(remote address.Address, typ message.CiphertextType, wire []byte) (pt []byte, err error) {
	return p.DecryptWith(remote, typ, wire, p.Rand("dec"+string(wire)))
}

// DecryptWith is Decrypt with a given random source.
func (p *Party) DecryptWith(remote address.Address, typ message.CiphertextType, wire []byte, rnd io.Reader) (pt []byte, err error) {
	defer p.done(&err)
	err = Protect(func() error {
		m, err := ParsePair(typ, append([]byte(nil), wire...))
		if err != nil {
			return err
		}
		pt, err = p.Session(remote).DecryptMessage(p.ctx(), rnd, m)
		return err
	})
	return
}

// DecryptObject decrypts a message that is already parsed.
func (p *Party) DecryptObject(remote address.Address, m message.Ciphertext) (pt []byte, err error) {
	rnd := p.Rand("dec" + string(m.Bytes()))
	defer p.done(&err)
	err = Protect(func() (err error) {
		pt, err = p.Session(remote).DecryptMessage(p.ctx(), rnd, m)
		return
	})
	return
}

// ProcessBundle processes a pre-key bundle of a remote address.
func (p *Party) ProcessBundle(remote address.Address, b *prekey.Bundle) (err error) {
	op := "bundle" + remote.String() + string(b.SignedPreKeySignature)
	if b.PreKeyID != nil {
		op += b.PreKeyID.String()
	}
	rnd := p.Rand(op)
	defer p.done(&err)
	return Protect(func() error { return p.Session(remote).ProcessPreKeyBundle(p.ctx(), rnd, b) })
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(fmt.Sprintf("set-up: %v", err))
	}
	return v
}

// NewKeyPair returns a fixed key pair for a label.
func NewKeyPair(seed int64, label string) *curve.KeyPair {
	return must(curve.GenerateKeyPair(core.NewPRF(seed, "keypair", label)))
}

// AddSigned creates and stores a signed pre-key and returns its signature.
func (p *Party) AddSigned(id prekey.ID) (*curve.KeyPair, []byte) {
	defer p.Touched()
	kp := NewKeyPair(p.Seed, fmt.Sprint(p.Name, " signed ", id))
	sig := must(p.KP.PrivateKey().Sign(core.NewPRF(p.Seed, "sig", p.Name, int(id)), kp.PublicKey().Bytes()))
	if err := p.Signed().Store(Ctx, id, prekey.NewSigned(id, 42, kp, sig)); err != nil {
		panic(err)
	}
	return kp, sig
}

// AddPre creates and stores a one-time pre-key.
func (p *Party) AddPre(id prekey.ID) *curve.KeyPair {
	defer p.Touched()
	kp := NewKeyPair(p.Seed, fmt.Sprint(p.Name, " one-time ", id))
	if err := p.Pre().Store(Ctx, id, prekey.NewPreKey(id, kp)); err != nil {
		panic(err)
	}
	return kp
}

// PreKP returns the key pair of a one-time pre-key, whether or not it is still stored.
func (p *Party) PreKP(id prekey.ID) *curve.KeyPair {
	return NewKeyPair(p.Seed, fmt.Sprint(p.Name, " one-time ", id))
}

// SignedKP returns the key pair of a signed pre-key.
func (p *Party) SignedKP(id prekey.ID) *curve.KeyPair {
	return NewKeyPair(p.Seed, fmt.Sprint(p.Name, " signed ", id))
}

// Bundle returns the bundle a server would hand out; pre is nil for none.
func (p *Party) Bundle(signed prekey.ID, pre *prekey.ID) *prekey.Bundle {
	kp := p.SignedKP(signed)
	sig := must(p.KP.PrivateKey().Sign(core.NewPRF(p.Seed, "sig", p.Name, int(signed)), kp.PublicKey().Bytes()))
	b := &prekey.Bundle{
		RegistrationID: p.Reg, DeviceID: p.Addr.DeviceID, SignedPreKeyID: signed,
		SignedPreKeyPublic: kp.PublicKey(), SignedPreKeySignature: sig, IdentityKey: p.KP.IdentityKey(),
	}
	if pre != nil {
		id := *pre
		b.PreKeyID = &id
		b.PreKeyPublic = p.PreKP(id).PublicKey()
	}
	return b
}

// Restart saves and restores the current session through its serialised form.
func (p *Party) Restart(remote address.Address) error {
	defer p.Touched()
	return Protect(func() error {
		r, ok, err := p.Sess().Load(Ctx, remote)
		if err != nil || !ok {
			return err
		}
		if r.State() == nil {
			return nil
		}
		n, err := session.NewRecordBytes(r.State().Bytes())
		if err != nil {
			return err
		}
		return p.Sess().Store(Ctx, remote, n)
	})
}

// Archive archives the current session, as an application does.
func (p *Party) Archive(remote address.Address) error {
	defer p.Touched()
	return Protect(func() error {
		r, ok, err := p.Sess().Load(Ctx, remote)
		if err != nil || !ok {
			return err
		}
		r.ArchiveCurrentState()
		return p.Sess().Store(Ctx, remote, r)
	})
}

// CurrentBase returns the base key of the current session, nil if there is none.
func (p *Party) CurrentBase(remote address.Address) []byte {
	r, ok := p.RawRecord(remote)
	if !ok || r.State() == nil {
		return nil
	}
	if b := r.State().AliceBaseKey(); b != nil {
		return b
	}
	return []byte{}
}

// Global is the source behind crypto/rand while a group operation runs.
type Global interface {
	// With runs f with the global source replaced by r.
	With(r io.Reader, f func())
}

var GlobalRand Global

// NewDist creates a distribution message of the party's own sender key.
func (p *Party) NewDist(dist distribution.ID) (wire []byte, err error) {
	rnd := p.Rand("dist" + dist.String())
	g := p.Rand("chain" + dist.String())
	return p.NewDistWith(dist, rnd, g)
}

// NewDistWith is NewDist with given random sources.
func (p *Party) NewDistWith(dist distribution.ID, rnd, global io.Reader) (wire []byte, err error) {
	defer p.done(&err)
	GlobalRand.With(global, func() {
		err = Protect(func() error {
			m, err := p.GroupSession(p.Addr, dist).NewSenderKeyDistribution(p.ctx(), rnd)
			if err != nil {
				if m != nil {
					return fmt.Errorf("LEAK: distribution returned with error %w", err)
				}
				return err
			}
			wire = append([]byte(nil), m.Bytes()...)
			return nil
		})
	})
	return
}

// GroupEncrypt encrypts for a group.
func (p *Party) GroupEncrypt(dist distribution.ID, pt []byte) (wire []byte, err error) {
	return p.GroupEncryptWith(dist, pt, p.Rand("genc"+dist.String()+string(pt)))
}

func (p *Party) GroupEncryptWith(dist distribution.ID, pt []byte, rnd io.Reader) (wire []byte, err error) {
	defer p.done(&err)
	err = Protect(func() error {
		m, err := p.GroupSession(p.Addr, dist).EncryptMessage(p.ctx(), rnd, pt)
		if err != nil {
			if m != nil {
				return fmt.Errorf("LEAK: ciphertext returned with error %w", err)
			}
			return err
		}
		wire = append([]byte(nil), m.Bytes()...)
		return nil
	})
	return
}

func (p *Party) recvDist(of distribution.ID, n uint32) distribution.ID {
	if p.RecvDist != (distribution.ID{}) {
		return p.RecvDist
	}
	if n%2 == 1 {
		return of
	}
	return distribution.ID{}
}

// GroupProcess processes a distribution of a sender.
func (p *Party) GroupProcess(sender address.Address, wire []byte) (err error) {
	defer p.done(&err)
	return Protect(func() error {
		m, err := message.NewSenderKeyDistributionFromBytes(append([]byte(nil), wire...))
		if err != nil {
			return err
		}
		return p.GroupSession(sender, p.recvDist(m.DistributionID(), m.Iteration())).ProcessSenderKeyDistribution(p.ctx(), m)
	})
}

// GroupDecrypt decrypts a group message of a sender.
func (p *Party) GroupDecrypt(sender address.Address, wire []byte) (pt []byte, err error) {
	defer p.done(&err)
	err = Protect(func() error {
		m, err := message.NewSenderKeyFromBytes(append([]byte(nil), wire...))
		if err != nil {
			return err
		}
		pt, err = p.GroupSession(sender, p.recvDist(m.DistributionID(), m.Iteration())).DecryptMessage(p.ctx(), m)
		return err
	})
	return
}

// GroupDecryptObject decrypts a group message that is already parsed.
func (p *Party) GroupDecryptObject(sender address.Address, m *message.SenderKey) (pt []byte, err error) {
	defer p.done(&err)
	err = Protect(func() (err error) {
		pt, err = p.GroupSession(sender, p.recvDist(m.DistributionID(), m.Iteration())).DecryptMessage(p.ctx(), m)
		return
	})
	return
}

// RemoveGroup deletes a group record, as an application does to change the sender key.
func (p *Party) RemoveGroup(sender address.Address, dist distribution.ID) {
	p.dg = nil
	p.Nonce++ // the random source goes on
	delete(p.DB.group, GroupKey{sender, dist})
}

// RawGroup returns the stored group record for inspection.
func (p *Party) RawGroup(sender address.Address, dist distribution.ID) (*session.GroupRecord, bool) {
	if p.DB != nil {
		r, ok := p.DB.group[GroupKey{sender, dist}]
		return r, ok
	}
	r, ok, _ := p.Mem.GroupStore().Load(Ctx, sender, dist)
	return r, ok
}
