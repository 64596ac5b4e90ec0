package main

import (
	"bytes"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/crypto/aes"

	"verif/mc/core"
	"verif/mc/ref"
)

func init() { register("C17", "model_checking", c17) }

func c17(r *core.Run) {
	maxLen := core.Pick(r, 1100, 4200)
	var cs []kase
	iv := core.Bytes(16, r.Seed, "iv")
	key := func(n int) []byte { return core.Bytes(n, r.Seed, "key", n) }
	roundTrip := func(k, iv, pt []byte) string {
		ct, err := aes.CBCEncrypt(k, iv, pt)
		if err != nil {
			return "encryption refused: " + err.Error()
		}
		if !bytes.Equal(ct, ref.CBCEncrypt(k, iv, pt)) {
			return "ciphertext is not AES-CBC with PKCS #7 padding"
		}
		got, err := aes.CBCDecrypt(k, iv, ct)
		if err != nil || !bytes.Equal(got, pt) {
			return fmt.Sprintf("decryption returned %d bytes, error %v", len(got), err)
		}
		return ""
	}
	for _, kl := range []int{16, 24, 32} {
		for l := 0; l <= maxLen; l++ {
			kl, l := kl, l
			cs = append(cs, kase{fmt.Sprintf("key %d, plaintext %d", kl, l), func() string {
				if x := roundTrip(key(kl), iv, core.Bytes(l, r.Seed, "pt", l)); x != "" {
					return x
				}
				// Plaintexts that look like padding.
				for _, b := range []byte{0, 1, 2, byte(16 - l%16), 16, 17, 255} {
					if x := roundTrip(key(kl), iv, bytes.Repeat([]byte{b}, l)); x != "" {
						return fmt.Sprintf("plaintext of %d bytes %d: %s", l, b, x)
					}
				}
				return ""
			}})
		}
		for _, l := range []int{1 << 14, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<20 - 1, 1 << 20} {
			kl, l := kl, l
			cs = append(cs, kase{fmt.Sprintf("key %d, plaintext %d", kl, l), func() string { return roundTrip(key(kl), iv, core.Bytes(l, r.Seed, "pt", l)) }})
		}
	}
	// Every single-byte value of key, vector and short plaintexts.
	for b := 0; b < 256; b++ {
		b := b
		cs = append(cs, kase{fmt.Sprint("byte ", b), func() string {
			for i := 0; i < 32; i++ {
				k := make([]byte, 32)
				k[i] = byte(b)
				v := make([]byte, 16)
				v[i%16] = byte(b)
				pt := make([]byte, i)
				if i > 0 {
					pt[i-1] = byte(b)
				}
				if x := roundTrip(k, v, pt); x != "" {
					return x
				}
			}
			return ""
		}})
	}
	// All plaintexts of up to two bytes.
	for b := 0; b < 256; b++ {
		b := b
		cs = append(cs, kase{fmt.Sprint("short plaintexts starting ", b), func() string {
			for c := 0; c < 256; c++ {
				if x := roundTrip(key(32), iv, []byte{byte(b), byte(c)}); x != "" {
					return x
				}
			}
			return roundTrip(key(32), iv, []byte{byte(b)})
		}})
	}
	enumerate(r, "round trips", cs)

	refuse := func(what string, k, v, ct []byte) string {
		pt, err := aes.CBCDecrypt(k, v, ct)
		if err == nil {
			return fmt.Sprintf("%s was accepted, plaintext %x", what, clip(pt))
		}
		if len(pt) > 0 {
			return what + " returned plaintext with an error"
		}
		return ""
	}
	cs = nil
	for kl := 0; kl <= 70; kl++ {
		for il := 0; il <= 40; il++ {
			if (kl == 16 || kl == 24 || kl == 32) && il == 16 {
				continue
			}
			kl, il := kl, il
			cs = append(cs, kase{fmt.Sprintf("key %d vector %d", kl, il), func() string {
				for _, l := range []int{0, 1, 15, 16, 17, 32, 48} {
					b := core.Bytes(l, r.Seed, "x")
					if ct, err := aes.CBCEncrypt(key(kl), core.Bytes(il, r.Seed, "v"), b); err == nil || len(ct) > 0 {
						return fmt.Sprintf("encryption of %d bytes accepted a %d-byte key and %d-byte vector", l, kl, il)
					}
					if x := refuse(fmt.Sprintf("%d bytes with a %d-byte key and %d-byte vector", l, kl, il), key(kl), core.Bytes(il, r.Seed, "v"), b); x != "" {
						return x
					}
				}
				return ""
			}})
		}
	}
	enumerate(r, "key and vector lengths", cs)

	cs = nil
	for _, kl := range []int{16, 24, 32} {
		for l := 0; l <= core.Pick(r, 300, 2000); l++ {
			if l > 0 && l%16 == 0 {
				continue
			}
			kl, l := kl, l
			cs = append(cs, kase{fmt.Sprintf("ciphertext %d", l), func() string {
				// A valid ciphertext cut or extended to the length.
				good := ref.CBCEncrypt(key(kl), iv, core.Bytes(l+40, r.Seed, "pt"))[:l]
				return refuse(fmt.Sprintf("ciphertext of %d bytes", l), key(kl), iv, good)
			}})
		}
		// Every final block that differs from correct padding in a run or in one position.
		for blocks := 1; blocks <= core.Pick(r, 3, 6); blocks++ {
			for last := 0; last < 256; last++ {
				kl, blocks, last := kl, blocks, last
				cs = append(cs, kase{fmt.Sprintf("padding %d, %d blocks", last, blocks), func() string {
					judge := func(raw []byte) string {
						ct := ref.CBCRaw(key(kl), iv, raw)
						want, werr := ref.CBCDecrypt(key(kl), iv, ct)
						if werr != nil {
							return refuse(fmt.Sprintf("padding %x", raw[len(raw)-16:]), key(kl), iv, ct)
						}
						got, err := aes.CBCDecrypt(key(kl), iv, ct)
						if err != nil || !bytes.Equal(got, want) {
							return fmt.Sprintf("valid padding %x: %d bytes, error %v", raw[len(raw)-16:], len(got), err)
						}
						return ""
					}
					// Runs of every length of the last byte, before bytes of another value.
					for _, fill := range []byte{byte(last) ^ 1, 0, 16, byte(last) ^ 0x80} {
						for run := 1; run <= 16*blocks; run++ {
							raw := bytes.Repeat([]byte{fill}, 16*blocks)
							for i := 0; i < run; i++ {
								raw[len(raw)-1-i] = byte(last)
							}
							if x := judge(raw); x != "" {
								return x
							}
						}
					}
					if last >= 1 && last <= 16 {
						// Correct padding with one position set to each value.
						for pos := 1; pos <= last; pos++ {
							for v := 0; v < 256; v++ {
								raw := bytes.Repeat([]byte{0xAA}, 16*blocks)
								for i := 1; i <= last; i++ {
									raw[len(raw)-i] = byte(last)
								}
								raw[len(raw)-pos] = byte(v)
								if x := judge(raw); x != "" {
									return x
								}
							}
						}
					}
					return ""
				}})
			}
		}
	}
	// Any change of the last block, the previous block or the vector changes the result as specified.
	for bit := 0; bit < 48*8; bit++ {
		bit := bit
		cs = append(cs, kase{fmt.Sprint("flipped bit ", bit), func() string {
			for _, l := range []int{0, 1, 15, 16, 20, 31} {
				k := key(32)
				v := append([]byte(nil), iv...)
				ct := ref.CBCEncrypt(k, v, core.Bytes(l, r.Seed, "pt"))
				if bit < 128 {
					v[bit/8] ^= 1 << (bit % 8)
				} else if i := bit/8 - 16; i < len(ct) {
					ct[i] ^= 1 << (bit % 8)
				}
				want, werr := ref.CBCDecrypt(k, v, ct)
				got, err := aes.CBCDecrypt(k, v, ct)
				if (err == nil) != (werr == nil) || err == nil && !bytes.Equal(got, want) {
					return fmt.Sprintf("length %d: %x %v, expected %x %v", l, clip(got), err, clip(want), werr)
				}
			}
			return ""
		}})
	}
	enumerate(r, "malformed ciphertexts", cs)
	r.Bound("plaintext_lengths", fmt.Sprintf("0..%d and up to 1 MiB", maxLen))
}
