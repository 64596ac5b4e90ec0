package main

import (
	"fmt"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/mc/world"
)

// newTrio returns three devices without sessions.
func newTrio(seed int64, mem bool) []*world.Party {
	return newParties(seed, mem, []address.Address{{Name: "+14151111111", DeviceID: 1}, {Name: "+14151111112", DeviceID: 1}, {Name: "+14151111113", DeviceID: 1}})
}

func newParties(seed int64, mem bool, addrs []address.Address) []*world.Party {
	u := &world.Universe{Addrs: addrs, Signed: []prekey.ID{signedID, signedID + 1}}
	for i := 0; i < 20; i++ {
		u.Pre = append(u.Pre, prekey.ID(100+i))
	}
	var ps []*world.Party
	for i, a := range addrs {
		n := string(rune('A' + i))
		p := world.NewParty(seed, n, fmt.Sprint("trio ", n), a, uint32(5+i), u, mem)
		p.AddSigned(signedID)
		ps = append(ps, p)
	}
	return ps
}

func pubKey(b []byte) curve.PublicKey {
	k, err := curve.NewPublicKey(append([]byte(nil), b...))
	if err != nil {
		panic(fmt.Sprintf("set-up: %v", err))
	}
	return k
}

func identKey(b []byte) identity.Key {
	k, err := identity.NewKey(append([]byte(nil), b...))
	if err != nil {
		panic(fmt.Sprintf("set-up: %v", err))
	}
	return k
}
