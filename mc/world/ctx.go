package world

import (
	"context"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"
)

// CtxHook sees the context of every store call. The error, if any, is returned to
// the library; calls for which canFail is false have no way to report one.
type CtxHook func(ctx context.Context, c Call, canFail bool) error

func (p *Party) ctx() context.Context {
	if p.OpCtx != nil {
		return p.OpCtx
	}
	return Ctx
}

type ctxSess struct {
	in session.Store
	h  CtxHook
}
type ctxIdent struct {
	in identity.Store
	h  CtxHook
}
type ctxPre struct {
	in prekey.Store
	h  CtxHook
}
type ctxSigned struct {
	in prekey.SignedStore
	h  CtxHook
}
type ctxGroup struct {
	in session.GroupStore
	h  CtxHook
}

func (s ctxSess) Load(ctx context.Context, a address.Address) (*session.Record, bool, error) {
	if err := s.h(ctx, Call{Store: "session", Op: "Load", Addr: a}, true); err != nil {
		return nil, false, err
	}
	return s.in.Load(ctx, a)
}

func (s ctxSess) Store(ctx context.Context, a address.Address, r *session.Record) error {
	if err := s.h(ctx, Call{Store: "session", Op: "Store", Addr: a}, true); err != nil {
		return err
	}
	return s.in.Store(ctx, a, r)
}

func (s ctxIdent) KeyPair(ctx context.Context) identity.KeyPair {
	s.h(ctx, Call{Store: "identity", Op: "KeyPair"}, false)
	return s.in.KeyPair(ctx)
}

func (s ctxIdent) LocalRegistrationID(ctx context.Context) uint32 {
	s.h(ctx, Call{Store: "identity", Op: "LocalRegistrationID"}, false)
	return s.in.LocalRegistrationID(ctx)
}

func (s ctxIdent) Clear() error { return s.in.Clear() }

func (s ctxIdent) Load(ctx context.Context, a address.Address) (identity.Key, bool, error) {
	if err := s.h(ctx, Call{Store: "identity", Op: "Load", Addr: a}, true); err != nil {
		return identity.Key{}, false, err
	}
	return s.in.Load(ctx, a)
}

func (s ctxIdent) Store(ctx context.Context, a address.Address, k identity.Key) (bool, error) {
	if err := s.h(ctx, Call{Store: "identity", Op: "Store", Addr: a}, true); err != nil {
		return false, err
	}
	return s.in.Store(ctx, a, k)
}

func (s ctxIdent) IsTrustedIdentity(ctx context.Context, a address.Address, k identity.Key, d direction.Direction) (bool, error) {
	if err := s.h(ctx, Call{Store: "identity", Op: "IsTrusted", Addr: a, Dir: d}, true); err != nil {
		return false, err
	}
	return s.in.IsTrustedIdentity(ctx, a, k, d)
}

func (s ctxPre) Load(ctx context.Context, id prekey.ID) (*prekey.PreKey, bool, error) {
	if err := s.h(ctx, Call{Store: "prekey", Op: "Load", ID: id}, true); err != nil {
		return nil, false, err
	}
	return s.in.Load(ctx, id)
}

func (s ctxPre) Store(ctx context.Context, id prekey.ID, k *prekey.PreKey) error {
	if err := s.h(ctx, Call{Store: "prekey", Op: "Store", ID: id}, true); err != nil {
		return err
	}
	return s.in.Store(ctx, id, k)
}

func (s ctxPre) Delete(ctx context.Context, id prekey.ID) error {
	if err := s.h(ctx, Call{Store: "prekey", Op: "Delete", ID: id}, true); err != nil {
		return err
	}
	return s.in.Delete(ctx, id)
}

func (s ctxSigned) Load(ctx context.Context, id prekey.ID) (*prekey.SignedPreKey, bool, error) {
	if err := s.h(ctx, Call{Store: "signed", Op: "Load", ID: id}, true); err != nil {
		return nil, false, err
	}
	return s.in.Load(ctx, id)
}

func (s ctxSigned) Store(ctx context.Context, id prekey.ID, k *prekey.SignedPreKey) error {
	if err := s.h(ctx, Call{Store: "signed", Op: "Store", ID: id}, true); err != nil {
		return err
	}
	return s.in.Store(ctx, id, k)
}

func (s ctxGroup) Load(ctx context.Context, a address.Address, id distribution.ID) (*session.GroupRecord, bool, error) {
	if err := s.h(ctx, Call{Store: "group", Op: "Load", Addr: a, Dist: id}, true); err != nil {
		return nil, false, err
	}
	return s.in.Load(ctx, a, id)
}

func (s ctxGroup) Store(ctx context.Context, a address.Address, id distribution.ID, r *session.GroupRecord) error {
	if err := s.h(ctx, Call{Store: "group", Op: "Store", Addr: a, Dist: id}, true); err != nil {
		return err
	}
	return s.in.Store(ctx, a, id, r)
}
