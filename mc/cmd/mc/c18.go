package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"reflect"
	"unsafe"

	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C18", "model_checking", c18) }

// fpHash is the published algorithm.
func fpHash(n uint32, id, key []byte) []byte {
	h := sha512.Sum512(bytes.Join([][]byte{{0, 0}, key, id, key}, nil))
	for i := uint32(1); i < n; i++ {
		h = sha512.Sum512(append(h[:len(h):len(h)], key...))
	}
	return h[:]
}

func fpDigits(h []byte) string {
	s := ""
	for i := 0; i < 30; i += 5 {
		var n uint64
		for _, b := range h[i : i+5] {
			n = n<<8 | uint64(b)
		}
		s += fmt.Sprintf("%05d", n%100000)
	}
	return s
}

func fpNumber(a, b []byte) string {
	x, y := fpDigits(a), fpDigits(b)
	if x < y {
		return x + y
	}
	return y + x
}

func fpCode(version uint32, local, remote []byte) []byte {
	return ref.PB(nil).Uint(1, uint64(version)).Bytes(2, ref.PB(nil).Bytes(1, local[:32])).Bytes(3, ref.PB(nil).Bytes(1, remote[:32]))
}

// scannableOf finds the code inside a fingerprint, which has no accessor.
func scannableOf(f *fingerprint.Fingerprint) *fingerprint.Scannable {
	v := reflect.ValueOf(f).Elem()
	for i := 0; i < v.NumField(); i++ {
		if fv := v.Field(i); fv.Type() == reflect.TypeOf((*fingerprint.Scannable)(nil)) {
			return (*fingerprint.Scannable)(unsafe.Pointer(fv.Pointer()))
		}
	}
	return nil
}

type user struct {
	name string
	id   []byte
	key  identity.Key
}

func c18(r *core.Run) {
	key := func(l string) identity.Key { return identKey(world.NewKeyPair(r.Seed, "c18 "+l).PublicKey().Bytes()) }
	k1, k2 := key("1"), key("2")
	flip := func(k identity.Key, i int, bit byte) identity.Key {
		b := k.Bytes()
		b[1+i] ^= bit
		return identKey(b)
	}
	ids := [][]byte{[]byte("+14152222222"), []byte("+14153333333"), {}, []byte("+1415222222"), []byte("+141522222222"), {0}, {0, 0}, {5}, k1.Bytes(), append(append([]byte{}, k1.Bytes()...), 'x'), bytes.Repeat([]byte{0xff}, 16), core.Bytes(300, r.Seed, "long id")}
	keys := []identity.Key{k1, k2, flip(k1, 0, 1), flip(k1, 31, 0x80), flip(k1, 15, 4), flip(k2, 31, 0x40)}
	var users []user
	for i, id := range ids {
		for j, k := range keys {
			users = append(users, user{fmt.Sprintf("id %d key %d", i, j), id, k})
		}
	}
	// full judges one pair completely from both sides.
	full := func(a, b user, n, version uint32) string {
		ha, hb := fpHash(n, a.id, a.key.Bytes()), fpHash(n, b.id, b.key.Bytes())
		mk := func(x, y user) (*fingerprint.Fingerprint, error) {
			return fingerprint.New(version, n, append([]byte(nil), x.id...), x.key, append([]byte(nil), y.id...), y.key)
		}
		fa, err := mk(a, b)
		if err != nil {
			return "refused: " + err.Error()
		}
		fb, err := mk(b, a)
		if err != nil {
			return "refused: " + err.Error()
		}
		if len(fa.String()) != 60 || fa.String() != fb.String() {
			return fmt.Sprintf("the two sides show %s and %s", fa, fb)
		}
		if want := fpNumber(ha, hb); fa.String() != want {
			return fmt.Sprintf("number %s, expected %s", fa, want)
		}
		sa, sb := scannableOf(fa), scannableOf(fb)
		if sa == nil || sb == nil {
			var err1, err2 error
			sa, err1 = fingerprint.NewScannable(version, ha, hb)
			sb, err2 = fingerprint.NewScannable(version, hb, ha)
			if err1 != nil || err2 != nil {
				return fmt.Sprint("code refused: ", err1, err2)
			}
		}
		ca, err := sa.Bytes()
		if err != nil {
			return "code: " + err.Error()
		}
		cb, err := sb.Bytes()
		if err != nil {
			return "code: " + err.Error()
		}
		if !bytes.Equal(ca, fpCode(version, ha, hb)) || !bytes.Equal(cb, fpCode(version, hb, ha)) {
			return "the code is not the specified encoding"
		}
		if ok, err := sa.Compare(cb); !ok || err != nil {
			return fmt.Sprintf("the other side's code is refused: %v %v", ok, err)
		}
		if ok, err := sb.Compare(ca); !ok || err != nil {
			return fmt.Sprintf("the other side's code is refused: %v %v", ok, err)
		}
		if ok, _ := sa.Compare(ca); ok != bytes.Equal(ha[:32], hb[:32]) {
			return "a device accepts its own code"
		}
		return ""
	}
	var cs []kase
	for i := range users {
		for j := range users {
			i, j := i, j
			cs = append(cs, kase{users[i].name + " / " + users[j].name, func() string { return full(users[i], users[j], 2, 1) }})
		}
	}
	enumerate(r, "pairs of users", cs)

	// Every iteration count in a range, and selected larger ones.
	cs = nil
	top := uint32(core.Pick(r, 1500, 20000))
	var counts []uint32
	for n := uint32(2); n <= top; n++ {
		counts = append(counts, n)
	}
	counts = append(counts, 5199, 5200, 5201, 1<<15-1, 1<<15, 1<<16-1, 1<<16, 1<<16+1, 99999, 100000, 1<<17, 262144, 999999, 1000000)
	a, b := users[0], users[len(keys)+1]
	for k := range counts {
		n := counts[len(counts)-1-k]
		cs = append(cs, kase{fmt.Sprint("iterations ", n), func() string { return full(a, b, n, 2) }})
	}
	bad := []uint32{0, 1, 1000001, 1000002, 1<<20 + 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 2, 1<<32 - 2, 1<<32 - 1}
	for _, n := range bad {
		n := n
		cs = append(cs, kase{fmt.Sprint("iterations ", n), func() string {
			f, err := fingerprint.New(1, n, a.id, a.key, b.id, b.key)
			if err == nil || f != nil {
				return fmt.Sprintf("%d iterations are accepted", n)
			}
			return ""
		}})
	}
	for _, v := range edges32 {
		v := v
		cs = append(cs, kase{fmt.Sprint("version ", v), func() string { return full(a, b, 2, v) }})
	}
	enumerate(r, "iteration counts and versions", cs)
	r.Bound("iterations", fmt.Sprintf("every count 2..%d, %d larger ones, %d outside the limits", top, 14, len(bad)))

	// Different inputs give different numbers, and codes are accepted for exactly the same inputs.
	type setup struct {
		l, r    user
		n, v    uint32
		s       *fingerprint.Scannable
		code    []byte
		display string
	}
	var setups []*setup
	small := []user{{"a", ids[0], k1}, {"b", ids[1], k2}, {"a'", ids[3], k1}, {"a key'", ids[0], keys[3]}, {"b'", ids[1], keys[5]}, {"empty", ids[2], k1}, {"zero", ids[5], k1}}
	for _, n := range []uint32{2, 3, 4} {
		for _, v := range []uint32{0, 1, 2, 1<<32 - 1} {
			for _, l := range small {
				for _, m := range small {
					hl, hm := fpHash(n, l.id, l.key.Bytes()), fpHash(n, m.id, m.key.Bytes())
					f, err := fingerprint.New(v, n, l.id, l.key, m.id, m.key)
					if err != nil {
						r.Violate("distinct", "refused: "+err.Error(), l.name+m.name, nil)
						return
					}
					s := scannableOf(f)
					if s == nil {
						s, _ = fingerprint.NewScannable(v, hl, hm)
					}
					code, err := s.Bytes()
					if err != nil {
						r.Violate("distinct", "no code: "+err.Error(), l.name+m.name, nil)
						return
					}
					setups = append(setups, &setup{l, m, n, v, s, code, f.String()})
				}
			}
		}
	}
	cs = nil
	for i := range setups {
		i := i
		cs = append(cs, kase{fmt.Sprintf("%s/%s %d iterations version %d", setups[i].l.name, setups[i].r.name, setups[i].n, setups[i].v), func() string {
			x := setups[i]
			for _, y := range setups {
				same := x.n == y.n && x.l.name == y.r.name && x.r.name == y.l.name
				straight := x.n == y.n && x.l.name == y.l.name && x.r.name == y.r.name
				if (x.display == y.display) != (same || straight) {
					return fmt.Sprintf("numbers of %s/%s (%d) and %s/%s (%d): %s %s", x.l.name, x.r.name, x.n, y.l.name, y.r.name, y.n, x.display, y.display)
				}
				ok, err := x.s.Compare(y.code)
				if ok != (same && x.v == y.v) {
					return fmt.Sprintf("code of %s/%s (%d, version %d) at %s/%s (%d, version %d): accepted %v, %v", y.l.name, y.r.name, y.n, y.v, x.l.name, x.r.name, x.n, x.v, ok, err)
				}
				if ok && err != nil {
					return "accepted with an error"
				}
			}
			return ""
		}})
	}
	enumerate(r, "different inputs", cs)

	// Every alteration of a code.
	hl, hr := fpHash(2, a.id, a.key.Bytes()), fpHash(2, b.id, b.key.Bytes())
	mine, err := fingerprint.NewScannable(2, hl, hr)
	if err != nil {
		r.Violate("codes", err.Error(), nil, nil)
		return
	}
	theirs := fpCode(2, hr, hl)
	cs = nil
	odd := func(name string, code []byte) {
		cs = append(cs, kase{name, func() string {
			ok, err := mine.Compare(append([]byte(nil), code...))
			want, malformed := fpAccept(2, hl, hr, code)
			if ok != want || ok && err != nil {
				return fmt.Sprintf("%s: accepted %v (%v), expected %v", name, ok, err, want)
			}
			if malformed && err == nil {
				return name + ": malformed code without an error"
			}
			return ""
		}})
	}
	for i := range theirs {
		for bit := 0; bit < 8; bit++ {
			c := append([]byte(nil), theirs...)
			c[i] ^= 1 << bit
			odd(fmt.Sprintf("bit %d of byte %d", bit, i), c)
		}
		odd(fmt.Sprint("cut to ", i), theirs[:i])
		odd(fmt.Sprint("without byte ", i), append(append([]byte(nil), theirs[:i]...), theirs[i+1:]...))
	}
	for x := 0; x < 256; x++ {
		odd(fmt.Sprint("single byte ", x), []byte{byte(x)})
		odd(fmt.Sprint("extended by ", x), append(append([]byte(nil), theirs...), byte(x)))
		for y := 0; y < 256; y++ {
			odd(fmt.Sprint("bytes ", x, " ", y), []byte{byte(x), byte(y)})
		}
	}
	pb := func() ref.PB { return ref.PB(nil) }
	lf := func(b []byte) []byte { return pb().Bytes(1, b) }
	for _, n := range []int{0, 1, 16, 30, 31, 33, 64} {
		odd(fmt.Sprint("remote of length ", n), pb().Uint(1, 2).Bytes(2, lf(hr[:min(n, 64)])).Bytes(3, lf(hl[:32])))
		odd(fmt.Sprint("local of length ", n), pb().Uint(1, 2).Bytes(2, lf(hr[:32])).Bytes(3, lf(hl[:min(n, 64)])))
	}
	odd("no version", pb().Bytes(2, lf(hr[:32])).Bytes(3, lf(hl[:32])))
	odd("no local", pb().Uint(1, 2).Bytes(3, lf(hl[:32])))
	odd("no remote", pb().Uint(1, 2).Bytes(2, lf(hr[:32])))
	odd("nothing", nil)
	odd("version only", pb().Uint(1, 2))
	odd("empty parts", pb().Uint(1, 2).Bytes(2, nil).Bytes(3, nil))
	odd("swapped", fpCode(2, hl, hr))
	odd("both local", fpCode(2, hl, hl))
	odd("both remote", fpCode(2, hr, hr))
	for _, v := range edges32 {
		odd(fmt.Sprint("version ", v), fpCode(v, hr, hl))
	}
	odd("version beyond 32 bits", pb().Uint(1, 1<<32+2).Bytes(2, lf(hr[:32])).Bytes(3, lf(hl[:32])))
	enumerate(r, "codes", cs)

	// Lengths of fingerprints given directly.
	cs = nil
	for l := 0; l < 70; l++ {
		for m := 0; m < 70; m++ {
			l, m := l, m
			cs = append(cs, kase{fmt.Sprintf("lengths %d %d", l, m), func() string {
				x, y := core.Bytes(l, r.Seed, "fl"), core.Bytes(m, r.Seed, "fr")
				_, err := fingerprint.NewScannable(1, x, y)
				if (err == nil) != (l >= 32 && m >= 32) {
					return fmt.Sprintf("code from %d and %d bytes: %v", l, m, err)
				}
				d, err := fingerprint.NewDisplayable(x, y)
				if (err == nil) != (l >= 30 && m >= 30) {
					return fmt.Sprintf("number from %d and %d bytes: %v", l, m, err)
				}
				if err == nil && d.String() != fpNumber(x, y) {
					return "number " + d.String()
				}
				return ""
			}})
		}
	}
	// All values of every digit group's bytes.
	for pos := 0; pos < 30; pos++ {
		for v := 0; v < 256; v++ {
			pos, v := pos, v
			cs = append(cs, kase{fmt.Sprintf("byte %d value %d", pos, v), func() string {
				for _, fill := range []byte{0, 0xff, 0x5a} {
					x := bytes.Repeat([]byte{fill}, 32)
					x[pos] = byte(v)
					for _, y := range [][]byte{x, bytes.Repeat([]byte{0x5a}, 32), make([]byte, 32)} {
						d, err := fingerprint.NewDisplayable(x, y)
						if err != nil || d.String() != fpNumber(x, y) {
							return fmt.Sprintf("number of %x / %x: %v, %v", x[:30], y[:30], d, err)
						}
					}
				}
				return ""
			}})
		}
	}
	enumerate(r, "encoding of numbers", cs)
}

// fpAccept decides by the specification whether a code matches, and whether it is
// not a code at all.
func fpAccept(version uint32, local, remote, code []byte) (ok, malformed bool) {
	fs, err := parseLoose(code)
	if err != nil {
		return false, true
	}
	var v uint32
	var l, m []byte
	inner := func(b []byte, old []byte) ([]byte, error) {
		gs, err := parseLoose(b)
		for _, g := range gs {
			if g.N == 1 && g.Raw {
				old = g.Buf
			}
		}
		return old, err
	}
	for _, f := range fs {
		switch {
		case f.N == 1 && f.Kind == 0:
			v = uint32(f.Int)
		case f.N == 2 && f.Raw:
			if l, err = inner(f.Buf, l); err != nil {
				return false, true
			}
		case f.N == 3 && f.Raw:
			if m, err = inner(f.Buf, m); err != nil {
				return false, true
			}
		}
	}
	return v == version && bytes.Equal(l, remote[:32]) && bytes.Equal(m, local[:32]), false
}

type looseField struct {
	ref.Field
	Kind int
}

// parseLoose decodes any well-formed protocol buffer (all wire types).
func parseLoose(b []byte) ([]looseField, error) {
	var out []looseField
	bad := fmt.Errorf("malformed")
	rd := func() (uint64, error) {
		var n uint64
		for i := 0; i < 10; i++ {
			if len(b) == 0 {
				return 0, bad
			}
			c := b[0]
			b = b[1:]
			if i == 9 && c > 1 {
				return 0, bad
			}
			n |= uint64(c&0x7f) << (7 * i)
			if c < 0x80 {
				return n, nil
			}
		}
		return 0, bad
	}
	var groups []uint64
	for len(b) > 0 {
		tag, err := rd()
		if err != nil {
			return nil, err
		}
		num := tag >> 3
		if num == 0 || num > 1<<29-1 {
			return nil, bad
		}
		f := looseField{Kind: int(tag & 7)}
		f.N = int(num)
		take := func(n uint64) ([]byte, error) {
			if n > uint64(len(b)) {
				return nil, bad
			}
			x := b[:n]
			b = b[n:]
			return x, nil
		}
		switch tag & 7 {
		case 0:
			f.Int, err = rd()
		case 1:
			_, err = take(8)
		case 2:
			var n uint64
			if n, err = rd(); err == nil {
				f.Buf, err = take(n)
				f.Raw = true
			}
		case 3:
			groups = append(groups, num)
		case 4:
			if len(groups) == 0 || groups[len(groups)-1] != num {
				return nil, bad
			}
			groups = groups[:len(groups)-1]
			continue
		case 5:
			_, err = take(4)
		default:
			err = bad
		}
		if err != nil {
			return nil, err
		}
		if len(groups) == 0 {
			out = append(out, f)
		}
	}
	if len(groups) > 0 {
		return nil, bad
	}
	return out, nil
}
