// Package ref is an independent implementation of the protocols the library
// implements, written from the specifications (X3DH, Double Ratchet, XEdDSA, sender
// keys, numeric fingerprints). It shares no code with the library.
package ref

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"fmt"
	"math/big"
	"sync"
)

// ---- symmetric primitives ----

func HMAC(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// HKDF is RFC 5869 with SHA-256.
func HKDF(ikm, salt []byte, info string, n int) []byte {
	if len(salt) == 0 {
		salt = make([]byte, 32)
	}
	prk := HMAC(salt, ikm)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		t = HMAC(prk, t, []byte(info), []byte{i})
		out = append(out, t...)
	}
	return out[:n]
}

// CBCEncrypt is AES-CBC with PKCS #7 padding.
func CBCEncrypt(key, iv, pt []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	n := 16 - len(pt)%16
	buf := make([]byte, len(pt)+n)
	copy(buf, pt)
	for i := len(pt); i < len(buf); i++ {
		buf[i] = byte(n)
	}
	prev := append([]byte(nil), iv...)
	for i := 0; i < len(buf); i += 16 {
		for j := 0; j < 16; j++ {
			buf[i+j] ^= prev[j]
		}
		b.Encrypt(buf[i:i+16], buf[i:i+16])
		prev = buf[i : i+16]
	}
	return buf
}

// CBCRaw encrypts whole blocks without padding.
func CBCRaw(key, iv, blocks []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(blocks))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, blocks)
	return out
}

func CBCDecrypt(key, iv, ct []byte) ([]byte, error) {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	if len(ct) == 0 || len(ct)%16 != 0 {
		return nil, errors.New("length")
	}
	out := make([]byte, len(ct))
	prev := iv
	for i := 0; i < len(ct); i += 16 {
		b.Decrypt(out[i:i+16], ct[i:i+16])
		for j := 0; j < 16; j++ {
			out[i+j] ^= prev[j]
		}
		prev = ct[i : i+16]
	}
	n := int(out[len(out)-1])
	if n < 1 || n > 16 {
		return nil, errors.New("padding")
	}
	for _, x := range out[len(out)-n:] {
		if int(x) != n {
			return nil, errors.New("padding")
		}
	}
	return out[:len(out)-n], nil
}

// ---- curve25519 ----

var (
	P, _   = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
	L, _   = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	D      *big.Int
	sqrtM1 *big.Int
	baseY  *big.Int
	base   point
)

type point struct{ x, y *big.Int }

func init() {
	inv := new(big.Int).ModInverse(big.NewInt(121666), P)
	D = new(big.Int).Mul(big.NewInt(-121665), inv)
	D.Mod(D, P)
	e := new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(1)), 2)
	sqrtM1 = new(big.Int).Exp(big.NewInt(2), e, P)
	baseY = new(big.Int).Mul(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), P))
	baseY.Mod(baseY, P)
	bx, ok := recoverX(baseY, 0)
	if !ok {
		panic("base")
	}
	base = point{bx, baseY}
}

func mod(x *big.Int) *big.Int { return x.Mod(x, P) }

func recoverX(y *big.Int, sign uint) (*big.Int, bool) {
	y2 := mod(new(big.Int).Mul(y, y))
	u := mod(new(big.Int).Sub(y2, big.NewInt(1)))
	v := mod(new(big.Int).Add(mod(new(big.Int).Mul(D, y2)), big.NewInt(1)))
	x2 := mod(new(big.Int).Mul(u, new(big.Int).ModInverse(v, P)))
	e := new(big.Int).Rsh(new(big.Int).Add(P, big.NewInt(3)), 3)
	x := new(big.Int).Exp(x2, e, P)
	if mod(new(big.Int).Mul(x, x)).Cmp(x2) != 0 {
		x = mod(x.Mul(x, sqrtM1))
	}
	if mod(new(big.Int).Mul(x, x)).Cmp(x2) != 0 {
		return nil, false
	}
	if x.Bit(0) != sign {
		x = mod(new(big.Int).Neg(x))
	}
	return x, true
}

func (a point) add(b point) point {
	xy := mod(new(big.Int).Mul(mod(new(big.Int).Mul(a.x, b.x)), mod(new(big.Int).Mul(a.y, b.y))))
	dxy := mod(new(big.Int).Mul(D, xy))
	nx := mod(new(big.Int).Add(new(big.Int).Mul(a.x, b.y), new(big.Int).Mul(a.y, b.x)))
	ny := mod(new(big.Int).Add(new(big.Int).Mul(a.y, b.y), new(big.Int).Mul(a.x, b.x)))
	one := big.NewInt(1)
	dx := new(big.Int).ModInverse(mod(new(big.Int).Add(one, dxy)), P)
	dy := new(big.Int).ModInverse(mod(new(big.Int).Sub(one, dxy)), P)
	return point{mod(nx.Mul(nx, dx)), mod(ny.Mul(ny, dy))}
}

func (a point) mul(k *big.Int) point {
	r := point{big.NewInt(0), big.NewInt(1)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(a)
		}
	}
	return r
}

func (a point) encode() []byte {
	b := le32(a.y)
	b[31] |= byte(a.x.Bit(0)) << 7
	return b
}

func le32(x *big.Int) []byte {
	var b [32]byte
	x.FillBytes(b[:])
	for i, j := 0, 31; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b[:]
}

func fromLE(b []byte) *big.Int {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(c)
}

// Clamp applies the X25519 clamping.
func Clamp(k []byte) []byte {
	c := append([]byte(nil), k...)
	c[0] &= 248
	c[31] &= 127
	c[31] |= 64
	return c
}

// X25519 is the RFC 7748 Montgomery ladder over big integers.
func X25519(k, u []byte) []byte {
	s := fromLE(Clamp(k))
	ub := append([]byte(nil), u...)
	ub[31] &= 0x7f
	x1 := mod(fromLE(ub))
	x2, z2 := big.NewInt(1), big.NewInt(0)
	x3, z3 := new(big.Int).Set(x1), big.NewInt(1)
	swap := uint(0)
	m := func(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b)) }
	add := func(a, b *big.Int) *big.Int { return mod(new(big.Int).Add(a, b)) }
	sub := func(a, b *big.Int) *big.Int { return mod(new(big.Int).Sub(a, b)) }
	a24 := big.NewInt(121665)
	for t := 254; t >= 0; t-- {
		kt := s.Bit(t)
		swap ^= kt
		if swap == 1 {
			x2, x3 = x3, x2
			z2, z3 = z3, z2
		}
		swap = kt
		A := add(x2, z2)
		AA := m(A, A)
		B := sub(x2, z2)
		BB := m(B, B)
		E := sub(AA, BB)
		C := add(x3, z3)
		Dd := sub(x3, z3)
		DA := m(Dd, A)
		CB := m(C, B)
		x3 = m(add(DA, CB), add(DA, CB))
		z3 = m(x1, m(sub(DA, CB), sub(DA, CB)))
		x2 = m(AA, BB)
		z2 = m(E, add(AA, m(a24, E)))
	}
	if swap == 1 {
		x2, x3 = x3, x2
		z2, z3 = z3, z2
	}
	inv := new(big.Int).Exp(z2, new(big.Int).Sub(P, big.NewInt(2)), P)
	return le32(m(x2, inv))
}

// DH is X25519 by the standard library; ok is false for a low-order result.
func DH(priv, pub []byte) (out []byte, ok bool) {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		panic(err)
	}
	u, err := ecdh.X25519().NewPublicKey(pub)
	if err != nil {
		panic(err)
	}
	s, err := k.ECDH(u)
	return s, err == nil
}

// Pub returns the public key of a private key.
func Pub(priv []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		panic(err)
	}
	return k.PublicKey().Bytes()
}

// Enc returns the typed encoding of a public key.
func Enc(pub []byte) []byte { return append([]byte{5}, pub...) }

// Sign is the XEd25519 variant the Signal libraries use: the sign of the Edwards key
// is carried in the top bit of the signature.
func Sign(priv []byte, z []byte, msg []byte) []byte {
	a := fromLE(Clamp(priv))
	A := base.mul(a).encode()
	aRed := le32(new(big.Int).Mod(a, L))
	pre := make([]byte, 32)
	for i := range pre {
		pre[i] = 0xff
	}
	pre[0] = 0xfe
	h := sha512.New()
	h.Write(pre)
	h.Write(aRed)
	h.Write(msg)
	h.Write(z)
	r := new(big.Int).Mod(fromLE(h.Sum(nil)), L)
	R := base.mul(r).encode()
	h = sha512.New()
	h.Write(R)
	h.Write(A)
	h.Write(msg)
	k := new(big.Int).Mod(fromLE(h.Sum(nil)), L)
	s := new(big.Int).Mod(new(big.Int).Add(r, new(big.Int).Mul(k, a)), L)
	sig := append(append([]byte{}, R...), le32(s)...)
	sig[63] &= 0x7f
	sig[63] |= A[31] & 0x80
	return sig
}

// EdKey converts a Montgomery key and sign to an Edwards key; ok is false for u = -1.
func EdKey(pub []byte, sign byte) ([]byte, bool) {
	ub := append([]byte(nil), pub...)
	ub[31] &= 0x7f
	u := mod(fromLE(ub))
	den := mod(new(big.Int).Add(u, big.NewInt(1)))
	if den.Sign() == 0 {
		return nil, false
	}
	y := mod(new(big.Int).Mul(mod(new(big.Int).Sub(u, big.NewInt(1))), new(big.Int).ModInverse(den, P)))
	b := le32(y)
	b[31] |= sign & 0x80
	return b, true
}

// Verify checks an XEd25519 signature.
func Verify(pub, msg, sig []byte) bool {
	if len(sig) != 64 || len(pub) != 32 {
		return false
	}
	A, ok := EdKey(pub, sig[63])
	if !ok {
		return false
	}
	s := append([]byte(nil), sig...)
	s[63] &= 0x7f
	return ed25519.Verify(A, msg, s)
}

// ---- protocol buffers ----

// PB builds a protocol buffer.
type PB []byte

func varint(n uint64) []byte {
	var b []byte
	for n >= 0x80 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return append(b, byte(n))
}

func (p PB) Uint(field int, n uint64) PB {
	p = append(p, varint(uint64(field)<<3)...)
	return append(p, varint(n)...)
}

func (p PB) Bytes(field int, b []byte) PB {
	p = append(p, varint(uint64(field)<<3|2)...)
	p = append(p, varint(uint64(len(b)))...)
	return append(p, b...)
}

// Field is a decoded field.
type Field struct {
	N   int
	Int uint64
	Buf []byte
	Raw bool // bytes
}

// ParsePB decodes the fields in order.
func ParsePB(b []byte) ([]Field, error) {
	var out []Field
	rd := func() (uint64, error) {
		var n uint64
		for s := uint(0); s < 70; s += 7 {
			if len(b) == 0 {
				return 0, errors.New("truncated")
			}
			c := b[0]
			b = b[1:]
			n |= uint64(c&0x7f) << s
			if c < 0x80 {
				return n, nil
			}
		}
		return 0, errors.New("varint")
	}
	for len(b) > 0 {
		tag, err := rd()
		if err != nil {
			return nil, err
		}
		f := Field{N: int(tag >> 3)}
		switch tag & 7 {
		case 0:
			if f.Int, err = rd(); err != nil {
				return nil, err
			}
		case 2:
			n, err := rd()
			if err != nil {
				return nil, err
			}
			if n > uint64(len(b)) {
				return nil, errors.New("truncated")
			}
			f.Buf, f.Raw = b[:n], true
			b = b[n:]
		default:
			return nil, fmt.Errorf("wire type %d", tag&7)
		}
		out = append(out, f)
	}
	return out, nil
}

// Get returns the last field with a number.
func Get(fs []Field, n int) (Field, bool) {
	for i := len(fs) - 1; i >= 0; i-- {
		if fs[i].N == n {
			return fs[i], true
		}
	}
	return Field{}, false
}

// BaseMult returns the encoding of r times the base point.
func BaseMult(r *big.Int) []byte { return base.mul(r).encode() }

var signCache sync.Map

// SignFast is Sign with a cache: repeated signatures of the same content are the same.
func SignFast(priv, z, msg []byte) []byte {
	k := string(priv) + string(z) + string(msg)
	if v, ok := signCache.Load(k); ok {
		return v.([]byte)
	}
	s := Sign(priv, z, msg)
	signCache.Store(k, s)
	return s
}
