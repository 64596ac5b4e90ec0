package main

import (
	"bytes"
	"crypto/ecdh"
	"crypto/rand"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/crypto/aes"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/mc/core"
	"verif/mc/ref"
	"verif/mc/world"
)

func init() { register("C26", "model_checking", c26) }

// ---- finding secrets in text ----

const win = 8

// secrets holds all windows of 8 bytes of every secret.
type secrets struct {
	m     map[uint64]string
	known map[string]bool
}

func newSecrets() *secrets { return &secrets{map[uint64]string{}, map[string]bool{}} }

// add reports whether the secret is new.
func (s *secrets) add(what string, b []byte) bool {
	if len(b) < win || s.known[string(b)] {
		return false
	}
	s.known[string(b)] = true
	for i := 0; i+win <= len(b); i++ {
		s.m[binary.LittleEndian.Uint64(b[i:])] = what
	}
	return true
}

func (s *secrets) bytes(b []byte) string {
	if len(b) < win {
		return ""
	}
	x := binary.LittleEndian.Uint64(b)
	for i := 0; ; i++ {
		if w, ok := s.m[x]; ok {
			return w
		}
		if i+win >= len(b) {
			return ""
		}
		x = x>>8 | uint64(b[i+win])<<56
	}
}

const (
	isHex = 1 << iota
	isB64
	isDigit
)

var class [256]byte

func init() {
	for c := 0; c < 256; c++ {
		b := byte(c)
		up := b | 0x20
		if b >= '0' && b <= '9' {
			class[c] |= isHex | isB64 | isDigit
		}
		if up >= 'a' && up <= 'z' {
			class[c] |= isB64
		}
		if up >= 'a' && up <= 'f' {
			class[c] |= isHex
		}
		if strings.IndexByte("+/-_", b) >= 0 {
			class[c] |= isB64
		}
	}
}

// runs calls f for every maximal run of at least min characters of a class.
func runs(t []byte, cl byte, min int, f func(run []byte) string) string {
	for i := 0; i < len(t); {
		if class[t[i]]&cl == 0 {
			i++
			continue
		}
		j := i
		for j < len(t) && class[t[j]]&cl != 0 {
			j++
		}
		if j-i >= min {
			if w := f(t[i:j]); w != "" {
				return w
			}
		}
		i = j
	}
	return ""
}

// find looks for a secret in a text, in any of the forms.
func (s *secrets) find(t []byte) (what string) {
	in := func(w, form string) string {
		if w == "" {
			return ""
		}
		return w + " in " + form + " form"
	}
	if w := s.bytes(t); w != "" {
		return in(w, "raw")
	}
	if bytes.IndexByte(t, '\\') >= 0 {
		if w := s.bytes(unescape(t)); w != "" {
			return in(w, "quoted")
		}
	}
	buf := make([]byte, len(t)+3)
	if w := runs(t, isHex, 2*win, func(run []byte) string {
		for off := 0; off < 2; off++ {
			r := run[off:]
			n, _ := hex.Decode(buf, r[:len(r)&^1])
			if w := s.bytes(buf[:n]); w != "" {
				return w
			}
		}
		return ""
	}); w != "" {
		return in(w, "hexadecimal")
	}
	if w := runs(t, isB64, 11, func(run []byte) string {
		for off := 0; off < 4 && len(run)-off >= 11; off++ {
			r := append([]byte(nil), run[off:]...)
			for i, c := range r {
				switch c {
				case '-':
					r[i] = '+'
				case '_':
					r[i] = '/'
				}
			}
			if len(r)%4 == 1 {
				r = r[:len(r)-1]
			}
			n, _ := base64.RawStdEncoding.Decode(buf, r)
			if w := s.bytes(buf[:n]); w != "" {
				return w
			}
		}
		return ""
	}); w != "" {
		return in(w, "base64")
	}
	if w := s.lists(t); w != "" {
		return in(w, "list")
	}
	if w := runs(t, isDigit, 15, func(run []byte) string {
		x, ok := new(big.Int).SetString(string(run), 10)
		if !ok {
			return ""
		}
		b := x.Bytes()
		if w := s.bytes(b); w != "" {
			return w
		}
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		return s.bytes(b)
	}); w != "" {
		return in(w, "decimal number")
	}
	return ""
}

// lists reads sequences of numbers: [1 2 3], 0x1, 0x2, 12 ab 0f.
func (s *secrets) lists(t []byte) string {
	var dec, hx []byte
	flush := func() string {
		w := ""
		if len(dec) >= win {
			w = s.bytes(dec)
		}
		if w == "" && len(hx) >= win {
			w = s.bytes(hx)
		}
		dec, hx = dec[:0], hx[:0]
		return w
	}
	gap := 0
	for i := 0; i < len(t); {
		if class[t[i]]&isB64 == 0 {
			gap++
			i++
			if gap > 4 {
				if w := flush(); w != "" {
					return w
				}
			}
			continue
		}
		j := i
		for j < len(t) && class[t[j]]&isB64 != 0 {
			j++
		}
		tok := string(t[i:j])
		i, gap = j, 0
		if len(tok) > 4 {
			if w := flush(); w != "" {
				return w
			}
			continue
		}
		h := strings.TrimPrefix(tok, "0x")
		n, err := strconv.ParseUint(h, 16, 8)
		if err != nil && len(hx) > 0 {
			if w := s.bytes(hx); w != "" {
				return w
			}
			hx = hx[:0]
		}
		d, err2 := strconv.ParseUint(tok, 10, 8)
		if err != nil && err2 != nil {
			if w := flush(); w != "" {
				return w
			}
			continue
		}
		if err == nil {
			hx = append(hx, byte(n))
		}
		if err2 == nil {
			dec = append(dec, byte(d))
		} else if len(dec) > 0 {
			if w := s.bytes(dec); w != "" {
				return w
			}
			dec = dec[:0]
		}
	}
	return flush()
}

// unescape undoes the escapes of Go and of the text format of protocol buffers.
func unescape(t []byte) []byte {
	out := make([]byte, 0, len(t))
	for i := 0; i < len(t); i++ {
		if t[i] != '\\' || i+1 == len(t) {
			out = append(out, t[i])
			continue
		}
		num := func(at, n, base int) bool {
			if at+n > len(t) {
				return false
			}
			v, err := strconv.ParseUint(string(t[at:at+n]), base, 32)
			if err != nil {
				return false
			}
			if base == 16 && n > 2 {
				out = append(out, string(rune(v))...)
			} else {
				out = append(out, byte(v))
			}
			i = at + n - 1
			return true
		}
		switch c := t[i+1]; {
		case c == 'x' && num(i+2, 2, 16), c == 'u' && num(i+2, 4, 16), c == 'U' && num(i+2, 8, 16):
		case c >= '0' && c <= '7' && (num(i+1, 3, 8) || num(i+1, 2, 8) || num(i+1, 1, 8)):
		default:
			if k := strings.IndexByte("abfnrtv", c); k >= 0 {
				out = append(out, "\a\b\f\n\r\t\v"[k])
			} else {
				out = append(out, c)
			}
			i++
		}
	}
	return out
}

// ---- what an operation writes ----

// leak watches everything the process prints and every error.
type leak struct {
	f     *os.File
	at    int64
	sec   *secrets
	lines map[string]string // distinct lines, with the operation that wrote them
	names []string
	n     struct{ ops, bytes, errs int64 }
	where func() string
	bad   string
	trace string
}

var header = regexp.MustCompile(`(?m)^[IWEF]\d{4} [\d:.]+ +\d+ [^\]\n]*\] `)

// drain judges what was written since the last call.
func (k *leak) drain(op string) {
	k.n.ops++
	buf := make([]byte, 4096)
	var text []byte
	for {
		n, _ := syscall.Pread(int(k.f.Fd()), buf, k.at)
		if n <= 0 {
			break
		}
		text = append(text, buf[:n]...)
		k.at += int64(n)
	}
	if len(text) > 0 {
		k.judge(op, "output", text)
	}
	if k.at > 8<<20 {
		k.f.Truncate(0)
		k.at = 0
	}
}

func (k *leak) judge(op, kind string, text []byte) {
	if k.bad != "" {
		return
	}
	k.n.bytes += int64(len(text))
	text = header.ReplaceAll(text, nil)
	if len(k.lines) < 300000 {
		if t := string(text); k.lines[t] == "" {
			k.lines[t] = op
		}
	}
	if w := k.sec.find(text); w != "" {
		k.bad = fmt.Sprintf("%s: the %s contains %s: %.300q", op, kind, w, text)
		k.trace = k.where()
	}
}

// err judges an error and everything it wraps.
func (k *leak) err(op string, err error) {
	k.drain(op)
	for depth := 0; err != nil && depth < 10; depth++ {
		k.n.errs++
		k.judge(op, "error", []byte(err.Error()))
		k.judge(op, "error", []byte(fmt.Sprintf("%+v", err)))
		if j, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range j.Unwrap() {
				k.err(op, e)
			}
			return
		}
		err = errors.Unwrap(err)
	}
}

// do runs an operation and judges it.
func (k *leak) do(op string, f func() error) {
	if k.bad != "" {
		return
	}
	k.err(op, world.Protect(f))
}

// again looks at everything that was written with everything that became known.
func (k *leak) again() {
	for t, op := range k.lines {
		if k.bad != "" {
			return
		}
		if w := k.sec.find([]byte(t)); w != "" {
			k.bad = fmt.Sprintf("%s: the output contains %s: %.300q", op, w, t)
		}
	}
}

// selfTest makes sure that every form is found.
func (s *secrets) selfTest(seed int64) int {
	b := core.Bytes(32, seed, "control secret")
	t := newSecrets()
	t.add("control", b)
	rev := append([]byte(nil), b...)
	for i, j := 0, 31; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	var oct string
	for _, c := range b {
		oct += fmt.Sprintf(`\%03o`, c)
	}
	forms := []string{fmt.Sprintf("%s", b), fmt.Sprintf("%v", b), fmt.Sprintf("%d", b), fmt.Sprintf("%x", b), fmt.Sprintf("%X", b), fmt.Sprintf("% x", b),
		fmt.Sprintf("%#x", b), fmt.Sprintf("%#v", b), fmt.Sprintf("%# x", b), fmt.Sprintf("%q", b), fmt.Sprintf("%+q", b), base64.StdEncoding.EncodeToString(b), base64.URLEncoding.EncodeToString(b),
		"k" + base64.RawStdEncoding.EncodeToString(b), "a" + hex.EncodeToString(b), fmt.Sprint(new(big.Int).SetBytes(b)), fmt.Sprint(new(big.Int).SetBytes(rev)),
		fmt.Sprint([32]byte(b)), fmt.Sprintf("%v", struct{ A, B []byte }{[]byte{1}, b}), oct, fmt.Sprintf("%x", b[5:13]), base64.StdEncoding.EncodeToString(append([]byte("x"), b...)),
		base64.StdEncoding.EncodeToString(append([]byte("xy"), b...)), fmt.Sprintf("%v", b[20:28]), strings.Join(strings.Fields(fmt.Sprint(b)), ", ")}
	for i, f := range forms {
		if t.find([]byte("key "+f+" of session")) == "" {
			panic(fmt.Sprint("control: form ", i, " is not found: ", f))
		}
		if s.find([]byte("key "+f+" of session")) != "" {
			panic("control: found what is not there")
		}
	}
	return len(forms)
}

// ---- secrets of a world ----

var dhCache = map[string][]byte{}

func dh(priv, pub []byte) []byte {
	if len(pub) == 33 {
		pub = pub[1:]
	}
	k := string(priv) + string(pub)
	if x, ok := dhCache[k]; ok {
		return x
	}
	var out []byte
	if p, err := ecdh.X25519().NewPrivateKey(priv); err == nil {
		if q, err := ecdh.X25519().NewPublicKey(pub); err == nil {
			out, _ = p.ECDH(q)
		}
	}
	dhCache[k] = out
	return out
}

var pubCache = map[string][]byte{}

func pubOf(priv []byte) []byte {
	if p, ok := pubCache[string(priv)]; ok {
		return p
	}
	p := ref.Pub(priv)
	pubCache[string(priv)] = p
	return p
}

const chainAhead = 12

func (s *secrets) chain(c ref.Chain, group bool, upto uint32) {
	for i := uint32(0); i <= upto+chainAhead; i++ {
		if !s.add("a chain key", c.Key) && i > upto+chainAhead/2 {
			return
		}
		if group {
			k := c.GroupKeys()
			s.add("a message key", k.Seed)
			s.add("a message key", k.Cipher)
		} else {
			k := c.MsgKeys()
			s.add("a message key", k.Seed)
			s.add("a message key", k.Cipher)
			s.add("a message key", k.Mac)
		}
		c = c.Next()
	}
}

var chainsKnown = map[string]bool{}

// secrets collects everything secret in the conversation.
func (w *inter) secrets(s *secrets) {
	var ours, theirs [][]byte
	for pub, p := range w.Priv {
		if pub != "stream" {
			ours = append(ours, p)
		}
	}
	ours = append(ours, w.L.KP.PrivateKey().Bytes())
	for i := 0; i <= w.Inits[1]+1; i++ {
		ours = append(ours, w.L.PreKP(prekey.ID(100+i)).PrivateKey().Bytes())
	}
	theirs = append(theirs, w.R.ID.Priv, w.R.Signed)
	for i := 0; i <= w.R.Count; i++ {
		theirs = append(theirs, w.key(fmt.Sprint("ratchet ", i)))
	}
	for i := 0; i <= w.Inits[1]; i++ {
		theirs = append(theirs, w.key(fmt.Sprint("base ", i)))
	}
	for i := 0; i <= w.Inits[0]; i++ {
		theirs = append(theirs, w.key(fmt.Sprint("one-time ", 500+i)))
	}
	for _, p := range ours {
		s.add("a private key", p)
		for _, q := range theirs {
			s.add("a shared secret", dh(p, pubOf(q)))
		}
	}
	for _, q := range theirs {
		s.add("a private key of the peer", q)
	}
	for _, m := range w.Msgs {
		s.add("a plaintext", m.PT)
	}
	for _, x := range w.Mir {
		for d := x.Log; d != nil; d = d.Up {
			s.add("a root key", d.After)
			s.add("a root key", d.Before)
			if !chainsKnown[string(d.Chain)] {
				chainsKnown[string(d.Chain)] = true
				s.chain(ref.Chain{Key: d.Chain}, false, 8)
			}
		}
	}
	for _, x := range w.R.Sess {
		s.add("a root key", x.Root)
		if !chainsKnown[string(x.Send.Key)] {
			chainsKnown[string(x.Send.Key)] = true
			s.chain(x.Send, false, 2)
		}
		for _, c := range x.Recv {
			if !chainsKnown[string(c.Key)] {
				chainsKnown[string(c.Key)] = true
				s.chain(c, false, 2)
			}
		}
	}
}

func (w *gw) secrets(s *secrets) {
	for _, p := range w.P {
		s.add("a private key", p.KP.PrivateKey().Bytes())
	}
	for _, d := range w.Dists {
		if f, err := ref.ParseSKDM(d.wire); err == nil && !chainsKnown[string(f.ChainKey)] {
			chainsKnown[string(f.ChainKey)] = true
			s.chain(ref.Chain{Key: f.ChainKey, N: f.N}, true, 8)
		}
		p := w.P[d.chain.sender]
		if rec, ok := p.RawGroup(p.Addr, gdistID(d.chain.dist)); ok {
			if st := rec.StateForChainID(d.chain.id); st != nil {
				if k, err := st.PrivateSigningKey(); err == nil {
					s.add("a private signing key", k.Bytes())
				}
			}
		}
	}
	for _, m := range w.Msgs {
		s.add("a plaintext", m.pt)
	}
}

// ---- exploration ----

type cspace struct {
	name  string
	depth int
	root  func() core.Node
	secs  func(n core.Node, s *secrets)
	probe func(k *leak, n core.Node, level int)
}

type cresult struct {
	States, Transitions, Ops, Bytes, Errs, Secrets, Lines, Forms int64
	Bad, Trace                                                   string
	Sample                                                       string
}

// search visits the states of a space; the operations possible at first are shared out.
func (k *leak) search(c cspace, part, of int, res *cresult) {
	type item struct {
		n core.Node
		t []string
	}
	var cur []string
	k.where = func() string { return c.name + ": " + strings.Join(cur, " ; ") }
	k.drain("set-up")
	root := c.root()
	c.secs(root, k.sec)
	k.drain("set-up of " + c.name)
	k.again()
	seen := map[[32]byte]bool{root.Key(): true}
	if part == 0 {
		c.probe(k, root, 0)
	}
	res.States++
	front := []item{{root, nil}}
	for d := 0; d < c.depth && k.bad == ""; d++ {
		var next []item
		for _, it := range front {
			for i, op := range it.n.Ops() {
				if d == 0 && i%of != part || k.bad != "" {
					continue
				}
				n := it.n.Clone()
				cur = append(append([]string(nil), it.t...), op)
				if res := core.Guard(func() string { return n.Apply(op) }); res != "" {
					k.judge(op, "error", []byte(res))
				}
				res.Transitions++
				c.secs(n, k.sec)
				k.drain(op)
				key := n.Key()
				if seen[key] {
					continue
				}
				seen[key] = true
				res.States++
				if res.States == 40 {
					res.Sample = k.where()
				}
				c.probe(k, n, d+1)
				next = append(next, item{n, cur})
			}
		}
		front = next
	}
}

// probe tries everything that can go wrong in a state.
func (w *inter) probe(k *leak, level int, all bool) {
	u := core.Bytes(24, w.cfg.seed, "probe plaintext")
	k.sec.add("a plaintext", u)
	them := w.RA
	stranger := address.Address{Name: "+14150000000", DeviceID: 9}
	enc := func(what string, p *world.Party, to address.Address) {
		k.do(what, func() error { _, _, err := p.Encrypt(to, u); return err })
	}
	dec := func(what string, p *world.Party, from address.Address, typ message.CiphertextType, wire []byte) {
		k.do(what, func() error { _, err := p.Decrypt(from, typ, wire); return err })
	}
	enc("encrypt", w.L.Clone(), them)
	enc("encrypt without a session", w.L.Clone(), stranger)
	typ := func(m *nmsg) message.CiphertextType {
		if m.Pre {
			return message.PreKeyType
		}
		return message.WhisperType
	}
	var mine []*nmsg
	for _, m := range w.Msgs {
		if m.From == 1 {
			mine = append(mine, m)
		}
	}
	bundle := func(n int, sig []byte) *prekey.Bundle {
		b := &prekey.Bundle{RegistrationID: w.R.ID.Reg, DeviceID: them.DeviceID, SignedPreKeyID: 77,
			SignedPreKeyPublic: pubKey(ref.Enc(ref.Pub(w.R.Signed))), IdentityKey: identKey(ref.Enc(w.R.ID.Pub))}
		if n > 0 {
			id := prekey.ID(500)
			b.PreKeyID, b.PreKeyPublic = &id, pubKey(ref.Enc(ref.Pub(w.key("one-time 500"))))
		}
		if sig == nil {
			sig = ref.SignFast(w.R.ID.Priv, core.Bytes(64, w.cfg.seed, "sig"), b.SignedPreKeyPublic.Bytes())
		}
		b.SignedPreKeySignature = sig
		return b
	}
	proc := func(what string, p *world.Party, b *prekey.Bundle) {
		k.do(what, func() error { return p.ProcessBundle(them, b) })
		// What was created is known from what is stored.
		if rec, ok := p.RawRecord(them); ok && rec.State() != nil {
			if x, err := rec.State().SenderRatchetPrivateKey(); err == nil {
				k.sec.add("a private key", x.Bytes())
			}
		}
	}
	proc("bundle", w.L.Clone(), bundle(0, nil))
	proc("bundle with a one-time key", w.L.Clone(), bundle(1, nil))
	for _, n := range []int{0, 1, 63, 64, 65} {
		proc(fmt.Sprint("bundle with a signature of length ", n), w.L.Clone(), bundle(1, make([]byte, n)))
	}
	// Untrusted.
	x := w.L.Clone()
	x.SetTrust(them, identKey(ref.Enc(ref.Pub(w.key("other identity")))))
	enc("encrypt to an untrusted peer", x.Clone(), them)
	proc("bundle of an untrusted peer", x.Clone(), bundle(1, nil))
	for i, m := range mine {
		dec("decrypt from an untrusted peer", x.Clone(), them, typ(m), m.Wire)
		dec("decrypt", w.L.Clone(), them, typ(m), m.Wire)
		dec("decrypt as the other type", w.L.Clone(), them, message.WhisperType+message.PreKeyType-typ(m), m.Wire)
		dec("decrypt the inner message", w.L.Clone(), them, message.WhisperType, m.Body)
		dec("decrypt without a session", w.L.Clone(), stranger, typ(m), m.Wire)
		if level > 0 && i < len(mine)-2 && !all {
			continue
		}
		step := 3
		if level <= 1 || all {
			step = 1
		}
		for j := level % step; j < len(m.Wire); j += step {
			b := append([]byte(nil), m.Wire...)
			b[j] ^= 1 << (j % 8)
			dec("decrypt an altered message", w.L.Clone(), them, typ(m), b)
			dec("decrypt a cut message", w.L.Clone(), them, typ(m), m.Wire[:j])
		}
		w.crafted(k, m, func(what string, wire []byte) { dec(what, w.L.Clone(), them, typ(m), wire) })
	}
	for _, m := range w.Msgs {
		if m.From == 0 {
			t := message.WhisperType
			if m.Pre {
				t = message.PreKeyType
			}
			dec("decrypt an own message", w.L.Clone(), them, t, m.Wire)
		}
	}
	// Faults.
	type fop struct {
		name string
		f    func(p *world.Party) error
	}
	ops := []fop{
		{"encrypt", func(p *world.Party) error { _, _, err := p.Encrypt(them, u); return err }},
		{"bundle", func(p *world.Party) error { return p.ProcessBundle(them, bundle(1, nil)) }},
	}
	for _, m := range mine {
		m := m
		if w.deliverable(m) {
			ops = append(ops, fop{"decrypt", func(p *world.Party) error { _, err := p.Decrypt(them, typ(m), m.Wire); return err }})
		}
	}
	for _, o := range ops {
		p := w.L.Clone()
		n := withFault(p, fault{at: -1}, func() error { return o.f(p) }).calls
		k.drain(o.name)
		for i := 0; i < n; i++ {
			for _, mode := range faultModes {
				p := w.L.Clone()
				e := withFault(p, fault{i, mode}, func() error { return o.f(p) })
				k.err(fmt.Sprintf("%s with %s at call %d", o.name, mode, i+1), e.err)
			}
		}
	}
	w.records(k, level, all)
}

// crafted offers messages which are authentic and yet wrong.
func (w *inter) crafted(k *leak, m *nmsg, offer func(what string, wire []byte)) {
	wrap := func(body []byte) []byte {
		if !m.Pre {
			return body
		}
		f, err := ref.ParsePreKey(m.Wire)
		if err != nil {
			panic(err)
		}
		f.Message = body
		return ref.EncodePreKey(*f)
	}
	f, err := ref.ParseSignal(m.Body)
	if err != nil {
		panic(err)
	}
	me, them := ref.Enc(w.R.ID.Pub), w.L.KP.IdentityKey().Bytes()
	for _, n := range []uint32{f.N + 3, f.N + 24999, f.N + 30000, 1<<32 - 1} {
		offer(fmt.Sprint("decrypt a message of the far future, forged, counter ", n-f.N), wrap(ref.EncodeSignal(0x33, f.Ratchet, n, f.Prev, f.Cipher, m.Keys.Mac, me, them)))
	}
	for _, v := range []byte{0x23, 0x43, 0x34} {
		offer("decrypt a message of another version", wrap(ref.EncodeSignal(v, f.Ratchet, f.N, f.Prev, f.Cipher, m.Keys.Mac, me, them)))
	}
	for i := 0; i < 4; i++ {
		blocks := core.Bytes(32, w.cfg.seed, "bad padding")
		blocks[31] = []byte{0, 1, 17, 255}[i]
		k.sec.add("a plaintext", blocks[:31])
		offer("decrypt a message with wrong padding", wrap(ref.EncodeSignal(0x33, f.Ratchet, f.N, f.Prev, ref.CBCRaw(m.Keys.Cipher, m.Keys.IV, blocks), m.Keys.Mac, me, them)))
	}
	for _, ct := range [][]byte{nil, {1}, f.Cipher[:15], append(append([]byte(nil), f.Cipher...), 1)} {
		offer("decrypt a message of a wrong length", wrap(ref.EncodeSignal(0x33, f.Ratchet, f.N, f.Prev, ct, m.Keys.Mac, me, them)))
	}
	for _, rat := range [][]byte{make([]byte, 33), ref.Enc(make([]byte, 32)), f.Ratchet[:32]} {
		offer("decrypt a message with a bad ratchet key", wrap(ref.EncodeSignal(0x33, rat, f.N, f.Prev, f.Cipher, m.Keys.Mac, me, them)))
	}
	if m.Pre {
		g, _ := ref.ParsePreKey(m.Wire)
		for i := 0; i < 5; i++ {
			h := *g
			switch i {
			case 0:
				h.Pre = u32(4711)
			case 1:
				h.Signed = 4712
			case 2:
				h.Base = ref.Enc(make([]byte, 32))
			case 3:
				h.Identity = ref.Enc(ref.Pub(w.key("other identity")))
			case 4:
				h.Reg++
			}
			offer("decrypt an altered set-up message", ref.EncodePreKey(h))
		}
	}
}

// records restores damaged copies of the stored session and uses them.
func (w *inter) records(k *leak, level int, all bool) {
	rec, ok := w.L.RawRecord(w.RA)
	if !ok || rec.State() == nil {
		return
	}
	b := rec.State().Bytes()
	use := func(what string, b []byte) {
		var rec *session.Record
		k.do("restore a session with "+what, func() (err error) { rec, err = session.NewRecordBytes(append([]byte(nil), b...)); return })
		if rec == nil || k.bad != "" {
			return
		}
		k.do("use a session with "+what, func() error { recordErrors(k, rec, w.L.KP.PublicKey()); return nil })
		p := w.L.Clone()
		rec, _ = session.NewRecordBytes(append([]byte(nil), b...))
		if p.Sess().Store(world.Ctx, w.RA, rec) != nil {
			return
		}
		p.Touched()
		q := p.Clone()
		k.do("encrypt in a session with "+what, func() error { _, _, err := q.Encrypt(w.RA, []byte("secret plaintext of the probe")); return err })
		for _, m := range w.Msgs {
			if m.From == 1 && w.deliverable(m) {
				q := p.Clone()
				typ := message.WhisperType
				if m.Pre {
					typ = message.PreKeyType
				}
				k.do("decrypt in a session with "+what, func() error { _, err := q.Decrypt(w.RA, typ, m.Wire); return err })
			}
		}
	}
	k.sec.add("a plaintext", []byte("secret plaintext of the probe"))
	if level == 0 || all {
		for _, m := range pbMutants(b, w.cfg.seed, 3) {
			use(m.name, m.b)
		}
	}
	step := 29
	if level == 0 {
		step = 3
	}
	for i := level % step; i < len(b); i += step {
		use(fmt.Sprint("a cut at ", i), b[:i])
		c := append([]byte(nil), b...)
		c[i] ^= 1 << (i % 8)
		use(fmt.Sprint("an alteration at ", i), c)
	}
}

func recordErrors(k *leak, r *session.Record, key curve.PublicKey) {
	e := func(err error) { k.err("use of a stored session", err) }
	_, err := r.Version()
	e(err)
	_, err = r.LocalIdentityKey()
	e(err)
	_, _, err = r.RemoteIdentityKey()
	e(err)
	_, err = r.SenderChainKey()
	e(err)
	_, err = r.PreviousStates()
	e(err)
	s := r.State()
	if s == nil {
		return
	}
	_, err = s.RootKey()
	e(err)
	_, err = s.SenderRatchetKey()
	e(err)
	_, err = s.SenderRatchetPrivateKey()
	e(err)
	_, err = s.SessionWithSelf()
	e(err)
	_, _, err = s.ReceiverChainKey(key)
	e(err)
	_, err = s.UnacknowledgedPreKeyMessages()
	e(err)
}

func (w *gw) probe(k *leak, level int, all bool) {
	u := core.Bytes(24, w.cfg.seed, "probe plaintext")
	k.sec.add("a plaintext", u)
	for i, p := range w.P {
		p := p
		enc := func(q *world.Party) {
			k.do("group encrypt", func() error { _, err := q.GroupEncrypt(distA, u); return err })
		}
		enc(p.Clone())
		k.do("group encrypt without a chain", func() error { _, err := p.Clone().GroupEncrypt(confusableDist[5], u); return err })
		type fop struct {
			name string
			f    func(p *world.Party) error
		}
		ops := []fop{
			{"distribution", func(p *world.Party) error {
				d, err := p.NewDist(distA)
				if f, e := ref.ParseSKDM(d); e == nil {
					k.sec.add("a chain key", f.ChainKey)
				}
				return err
			}},
			{"group encrypt", func(p *world.Party) error { _, err := p.GroupEncrypt(distA, u); return err }},
		}
		for _, d := range w.Dists {
			d := d
			if d.chain.sender == i {
				continue
			}
			from := w.P[d.chain.sender].Addr
			ops = append(ops, fop{"process distribution", func(p *world.Party) error { return p.GroupProcess(from, d.wire) }})
			for j := 0; j < len(d.wire); j++ {
				if level > 1 && !all && j%3 != level%3 {
					continue
				}
				b := append([]byte(nil), d.wire...)
				b[j] ^= 1 << (j % 8)
				k.do("process an altered distribution", func() error { return p.Clone().GroupProcess(from, b) })
				k.do("process a cut distribution", func() error { return p.Clone().GroupProcess(from, d.wire[:j]) })
			}
			sk, err := ref.ParseSKDM(d.wire)
			if err != nil {
				continue
			}
			for _, n := range []int{0, 1, 31, 33, 64} {
				y := *sk
				y.ChainKey = core.Bytes(n, w.cfg.seed, "odd chain key")
				k.sec.add("a chain key", y.ChainKey)
				b := ref.EncodeSKDM(y)
				k.do(fmt.Sprint("process a distribution with a chain key of length ", n), func() error { return p.Clone().GroupProcess(from, b) })
				y = *sk
				y.SigPub = core.Bytes(n, w.cfg.seed, "odd key")
				b = ref.EncodeSKDM(y)
				k.do("process a distribution with an odd signing key", func() error { return p.Clone().GroupProcess(from, b) })
			}
			y := *sk
			y.SigPub = ref.Enc(ref.Pub(core.Bytes(32, w.cfg.seed, "other signing key")))
			k.do("process a distribution with another signing key", func() error { return p.Clone().GroupProcess(from, ref.EncodeSKDM(y)) })
		}
		for _, m := range w.Msgs {
			m := m
			from := w.P[m.chain.sender].Addr
			if m.chain.sender != i {
				ops = append(ops, fop{"group decrypt", func(p *world.Party) error { _, err := p.GroupDecrypt(from, m.wire); return err }})
			}
			for _, v := range w.groupForgeries(m, level == 0 || all) {
				k.do("group decrypt, "+v.name, func() error { _, err := p.Clone().GroupDecrypt(v.sender, v.wire); return err })
			}
			// Signed by the sender and yet wrong.
			s := w.P[m.chain.sender]
			rec, ok := s.RawGroup(s.Addr, gdistID(m.chain.dist))
			if !ok || rec.StateForChainID(m.chain.id) == nil {
				continue
			}
			sk, err := rec.StateForChainID(m.chain.id).PrivateSigningKey()
			f, e2 := ref.ParseSenderKey(m.wire)
			if err != nil || e2 != nil {
				continue
			}
			for _, n := range []uint32{m.n + 3, m.n + 24999, m.n + 30000, 1<<32 - 1} {
				if n == m.n+24999 && !all && level > 0 {
					continue
				}
				b := ref.EncodeSenderKey(0x33, f.Dist, f.ChainID, n, f.Cipher, sk.Bytes(), make([]byte, 64))
				k.do("group decrypt of the future", func() error { _, err := p.Clone().GroupDecrypt(from, b); return err })
			}
			for _, ct := range [][]byte{nil, {1}, f.Cipher[:15], core.Bytes(16, w.cfg.seed, "blocks"), core.Bytes(32, w.cfg.seed, "blocks")} {
				b := ref.EncodeSenderKey(0x33, f.Dist, f.ChainID, m.n, ct, sk.Bytes(), make([]byte, 64))
				k.do("group decrypt of a wrong content", func() error { _, err := p.Clone().GroupDecrypt(from, b); return err })
			}
		}
		for _, o := range ops {
			p := w.P[i].Clone()
			n := withFault(p, fault{at: -1}, func() error { return o.f(p) }).calls
			k.drain(o.name)
			for c := 0; c < n; c++ {
				for _, mode := range faultModes {
					p := w.P[i].Clone()
					e := withFault(p, fault{c, mode}, func() error { return o.f(p) })
					k.err(fmt.Sprintf("%s with %s at call %d", o.name, mode, c+1), e.err)
				}
			}
		}
	}
}

// primitives gives secrets of every length to everything that takes one.
func (k *leak) primitives(seed int64) int {
	k.where = func() string { return "primitives" }
	n := 0
	kp := world.NewKeyPair(seed, "c26")
	k.sec.add("a private key", kp.PrivateKey().Bytes())
	id := identKey(kp.PublicKey().Bytes())
	do := func(what string, f func() error) {
		n++
		k.do(what, f)
	}
	for l := 0; l <= 80; l++ {
		l := l
		b := core.Bytes(l, seed, "odd secret", l)
		k.sec.add("a secret argument", b)
		good := core.Bytes(32, seed, "good secret", l)
		k.sec.add("a secret argument", good)
		name := func(s string) string { return fmt.Sprintf("%s with %d bytes", s, l) }
		do(name("private key"), func() error { _, err := curve.NewPrivateKey(b); return err })
		do(name("private key"), func() error {
			x, err := curve25519.NewPrivateKey(b)
			if err == nil {
				_, err = x.Agreement(b)
			}
			return err
		})
		do(name("key pair"), func() error { _, err := curve.NewKeyPair(b, kp.PublicKey().Bytes()); return err })
		do(name("key pair"), func() error { _, err := curve.NewKeyPair(good, b); return err })
		do(name("encryption key"), func() error { _, err := aes.CBCEncrypt(b, good[:16], good); return err })
		do(name("vector"), func() error { _, err := aes.CBCEncrypt(good, b, good); return err })
		do(name("plaintext"), func() error { _, err := aes.CBCEncrypt(good, good[:16], b); return err })
		do(name("decryption key"), func() error { _, err := aes.CBCDecrypt(b, good[:16], good); return err })
		do(name("vector"), func() error { _, err := aes.CBCDecrypt(good, b, good); return err })
		do(name("ciphertext"), func() error { _, err := aes.CBCDecrypt(good, good[:16], b); return err })
		do(name("bad padding"), func() error {
			// Three or four last bytes per length make all 256.
			for last := l * 256 / 81; last < (l+1)*256/81; last++ {
				for blocks := 1; blocks <= 3; blocks++ {
					pt := core.Bytes(16*blocks, seed, "bad padding", last, blocks)
					pt[len(pt)-1] = byte(last)
					k.sec.add("a plaintext", pt[:len(pt)-1])
					_, err := aes.CBCDecrypt(good, good[:16], ref.CBCRaw(good, good[:16], pt))
					k.err(name("bad padding"), err)
				}
			}
			return nil
		})
		do(name("root key"), func() error {
			x, err := ratchet.NewRootKey(b)
			if err == nil {
				_, _, err = x.CreateChain(kp.PrivateKey(), kp.PublicKey())
			}
			return err
		})
		do(name("chain key"), func() error {
			x, err := ratchet.NewChainKey(b, 3)
			if err == nil {
				_, err = x.Next().MessageKeys()
			}
			return err
		})
		do(name("message keys"), func() error { _, err := ratchet.NewMessageKeys(b, good, good[:16], 1); return err })
		do(name("message keys"), func() error { _, err := ratchet.NewMessageKeys(good, b, good[:16], 1); return err })
		do(name("message keys"), func() error { _, err := ratchet.NewMessageKeys(good, good, b, 1); return err })
		do(name("message keys"), func() error { _, err := ratchet.DeriveMessageKeys(b, 1); return err })
		do(name("secret input"), func() error { _, _, err := ratchet.DeriveKeys(b); return err })
		do(name("sender key"), func() error {
			_, err := senderkey.NewChainKey(b, 2).Next().MessageKey()
			return err
		})
		do(name("sender message key"), func() error { _, err := senderkey.DeriveMessageKey(b, 2); return err })
		do(name("stored session"), func() error { _, err := session.NewRecordBytes(b); return err })
		do(name("distribution"), func() error { _, err := message.NewSenderKeyDistributionFromBytes(b); return err })
		do(name("message"), func() error { _, err := message.NewSignalFromBytes(b); return err })
		do(name("plaintext content"), func() error { _, err := message.NewPlaintextFromBytes(b); return err })
		do(name("message to be authenticated"), func() error {
			m, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: b, SenderRatchetKey: kp.PublicKey(), Counter: 1, Ciphertext: good, SenderIdentityKey: id, ReceiverIdentityKey: id})
			if err == nil {
				_, err = m.(*message.Signal).VerifyMAC(good, id, id)
			}
			return err
		})
		do(name("message to be authenticated"), func() error {
			m, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: good, SenderRatchetKey: kp.PublicKey(), Counter: 1, Ciphertext: good[:16], SenderIdentityKey: id, ReceiverIdentityKey: id})
			if err == nil {
				_, err = m.(*message.Signal).VerifyMAC(b, id, id)
			}
			return err
		})
		do(name("signature"), func() error { _, err := kp.PrivateKey().Sign(core.NewPRF(seed, l), b); return err })
		do(name("signature check"), func() error { _, err := kp.PublicKey().VerifySignature(b, good); return err })
		do(name("random source"), func() error { _, err := curve.GenerateKeyPair(bytes.NewReader(b)); return err })
		do(name("random source"), func() error { _, err := kp.Sign(bytes.NewReader(b), good); return err })
		do(name("random source"), func() error { _, err := identity.GenerateKeyPair(bytes.NewReader(b)); return err })
		do(name("alternate identity"), func() error {
			_, err := identity.NewKeyPair(kp.PrivateKey(), id).SignAlternateIdentity(bytes.NewReader(b), id)
			return err
		})
		do(name("fingerprint"), func() error {
			f, err := fingerprint.NewScannable(1, good, good)
			if err == nil {
				_, err = f.Compare(b)
			}
			return err
		})
		do(name("sender key message"), func() error {
			_, err := message.NewSenderKey(bytes.NewReader(b), message.SenderKeyConfig{Version: 3, DistID: distA, ChainID: 1, Iteration: 1, Ciphertext: good, SignatureKey: kp.PrivateKey()})
			return err
		})
	}
	return n
}

// held collects the secrets of a stored session.
func (s *secrets) held(p *world.Party, a address.Address) {
	rec, ok := p.RawRecord(a)
	if !ok || rec.State() == nil {
		return
	}
	st := rec.State()
	if x, err := st.RootKey(); err == nil {
		s.add("a root key", append([]byte(nil), x.Bytes()...))
	}
	if x, err := st.SenderRatchetPrivateKey(); err == nil {
		s.add("a private key", append([]byte(nil), x.Bytes()...))
	}
	if x, err := st.SenderChainKey(); err == nil {
		s.chain(ref.Chain{Key: append([]byte(nil), x.Key()...), N: x.Index()}, false, 2)
	}
}

// limits goes to the limits of everything that is limited and beyond.
func (k *leak) limits(seed int64, thorough bool) (n int) {
	cur := "limits"
	k.where = func() string { return cur }
	jumps := []int{0, 1, 1999, 2001, 25000, 25001, 30000}
	turns, sessions := 8, maxArch+4
	if thorough {
		jumps = []int{0, 1, 2, 1998, 1999, 2000, 2001, 2002, 4001, 24999, 25000, 25001, 25002, 30000, 60000}
		turns, sessions = 16, 2*maxArch+4
	}
	all := func(c ref.Chain, upto uint32, group bool) {
		for ; c.N <= upto+2; c = c.Next() {
			s := k.sec
			s.add("a chain key", c.Key)
			if c.N%200 != 0 && c.N+20 < upto {
				continue
			}
			if group {
				g := c.GroupKeys()
				s.add("a message key", g.Seed)
				s.add("a message key", g.Cipher)
			} else {
				g := c.MsgKeys()
				s.add("a message key", g.Seed)
				s.add("a message key", g.Cipher)
				s.add("a message key", g.Mac)
			}
		}
	}
	read := func(l *limited, m lmsg, what string) {
		n++
		k.do(what, func() error { return l.read(m) })
		k.sec.held(l.P, l.them)
	}
	own := func(l *limited, what string) {
		n++
		k.do(what, func() error { return l.reply() })
		k.sec.held(l.P, l.them)
	}
	know := func(l *limited) {
		k.sec.add("a private key", l.P.KP.PrivateKey().Bytes())
		k.sec.add("a private key", l.P.SignedKP(signedID).PrivateKey().Bytes())
		k.sec.add("a private key of the peer", l.ID.Priv)
		k.sec.held(l.P, l.them)
		if l.S != nil {
			k.sec.add("a root key", l.S.Root)
			k.sec.add("a private key of the peer", l.S.SendPriv)
		}
	}
	for _, self := range []bool{false, true} {
		for _, st := range c13starts(&core.Run{Seed: seed}, self) {
			for _, jump := range jumps {
				cur = fmt.Sprintf("%s, session with oneself %v, jump %d", st.name, self, jump)
				l := st.l.clone()
				know(l)
				c := l.S.Send
				all(c, c.N+uint32(jump), false)
				m := l.send(jump)
				know(l)
				read(l.clone(), m, "read ahead")
				// The same with a wrong content and with a wrong authentication code.
				bad := m
				bad.wire = append([]byte(nil), m.wire...)
				bad.wire[len(bad.wire)-1] ^= 1
				read(l.clone(), bad, "read ahead, wrong code")
				x := l.clone()
				read(x, m, "read ahead")
				read(x, m, "read ahead again")
				if jump > 0 {
					for _, at := range []uint32{m.n - 1, c.N, c.N + uint32(jump)/2} {
						read(x, x.at(c, at), "read a skipped message")
						read(x, x.at(c, at), "read a skipped message again")
					}
				}
				own(x, "reply")
				read(x, x.send(0), "read on the next chain")
			}
		}
		cur = fmt.Sprintf("many ratchet turns, session with oneself %v", self)
		l := newLimited(seed, self)
		l.initiate()
		var old []lmsg
		for i := 0; i < turns; i++ {
			know(l)
			all(l.S.Send, l.S.Send.N+3, false)
			late := l.send(0)
			read(l, l.send(0), "read on a new chain")
			old = append(old, late)
			for _, m := range old {
				read(l.clone(), m, "read a late message")
			}
			own(l, "reply")
		}
		cur = fmt.Sprintf("many sessions, session with oneself %v", self)
		l = newLimited(seed, self)
		old = nil
		for i := 0; i < sessions; i++ {
			if i%2 == 0 {
				l.initiate()
				late := l.send(0)
				all(l.S.Send, l.S.Send.N+2, false)
				know(l)
				read(l, l.send(0), "read the first of a session")
				old = append(old, late)
			} else {
				n++
				k.do("set up a session", func() error { return l.accept() })
				know(l)
			}
			if i%8 == 0 || i > maxArch-2 {
				for _, m := range old {
					read(l.clone(), m, "read a message of an old session")
				}
			}
			n++
			k.do("archive", func() error { return l.clone().P.Archive(l.them) })
		}
	}
	// Groups.
	w := newGW(&gcfg{seed: seed, lens: []int{24}, n: 2, senders: []int{0}, dists: 1, maxSend: 2, maxDist: 2}).run("N 0 0; D 1 0; S 0 0")
	w.secrets(k.sec)
	d, err := ref.ParseSKDM(w.Dists[0].wire)
	from, p := w.P[0], w.P[1]
	rec, ok := from.RawGroup(from.Addr, distA)
	if err != nil || !ok || rec.StateForChainID(d.ChainID) == nil {
		return
	}
	priv, err := rec.StateForChainID(d.ChainID).PrivateSigningKey()
	if err != nil {
		return
	}
	c := ref.Chain{Key: d.ChainKey, N: d.N}
	all(c, c.N+uint32(jumps[len(jumps)-1]), true)
	for _, jump := range jumps {
		cur = fmt.Sprintf("group, jump %d", jump)
		at := func(m uint32, pt []byte, padded bool) []byte {
			y := c
			for y.N < m {
				y = y.Next()
			}
			g := y.GroupKeys()
			ct := ref.CBCEncrypt(g.Cipher, g.IV, pt)
			if !padded {
				ct = ref.CBCRaw(g.Cipher, g.IV, pt)
			}
			return ref.EncodeSenderKey(0x33, d.Dist, d.ChainID, m, ct, priv.Bytes(), make([]byte, 64))
		}
		pt := core.Bytes(24, seed, "far plaintext", jump)
		k.sec.add("a plaintext", pt)
		q := p.Clone()
		get := func(what string, q *world.Party, b []byte) {
			n++
			k.do(what, func() error { _, err := q.GroupDecrypt(from.Addr, b); return err })
		}
		end := c.N + uint32(jump)
		get("read ahead in a group", q, at(end, pt, true))
		get("read ahead in a group again", q, at(end, pt, true))
		for _, i := range []uint32{c.N, c.N + uint32(jump)/2, end - 1} {
			if i < c.N || i >= end {
				continue
			}
			get("read a skipped group message", q, at(i, pt, true))
			get("read a skipped group message again", q, at(i, pt, true))
		}
		if jump > 1 {
			continue
		}
		for last := 0; last < 256; last++ {
			blocks := core.Bytes(32, seed, "bad group padding", last)
			blocks[31] = byte(last)
			k.sec.add("a plaintext", blocks[:31])
			get("read a group message with bad padding", p.Clone(), at(end, blocks, false))
		}
	}
	// More keys of a sender than are retained.
	q, r := p.Clone(), from.Clone()
	for i := 0; i < 9; i++ {
		cur = fmt.Sprintf("group, chain %d", i+2)
		var b []byte
		r.RemoveGroup(r.Addr, distA)
		n += 2
		k.do("new group chain", func() (err error) { b, err = r.NewDist(distA); return })
		if f, err := ref.ParseSKDM(b); err == nil {
			all(ref.Chain{Key: f.ChainKey, N: f.N}, f.N+2, true)
		}
		k.do("process a group chain", func() error { return q.GroupProcess(r.Addr, b) })
		var m []byte
		pt := core.Bytes(24, seed, "new chain plaintext", i)
		k.sec.add("a plaintext", pt)
		k.do("send on a group chain", func() (err error) { m, err = r.GroupEncrypt(distA, pt); return })
		k.do("read on a group chain", func() error { _, err := q.GroupDecrypt(r.Addr, m); return err })
		k.do("read on an old group chain", func() error { _, err := q.Clone().GroupDecrypt(r.Addr, w.Msgs[0].wire); return err })
		n += 3
	}
	return n
}

func c26spaces(seed int64, thorough bool) []cspace {
	d := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	base := icfg{seed: seed, maxSend: [2]int{2, 2}, maxInit: [2]int{1, 1}, modes: "on", mirror: true, lens: []int{24}}
	one := base
	one.maxInit = [2]int{}
	arch := base
	arch.archive, arch.modes = 1, "o"
	mem := base
	mem.mem, mem.modes = true, "o"
	var out []cspace
	in := func(name, script string, cfg icfg, depth int) {
		out = append(out, cspace{name, depth, func() core.Node { c := cfg; return newInter(&c).run(script) },
			func(n core.Node, s *secrets) { n.(*inter).secrets(s) },
			func(k *leak, n core.Node, level int) { n.(*inter).probe(k, level, false) }})
	}
	in("from nothing", "", base, d(4, 5))
	in("from nothing, bundled stores", "", mem, d(3, 5))
	in("library initiated", "ILo SL r SR r", one, d(4, 5))
	in("reference initiated", "IRo SR r SL r", one, d(4, 5))
	in("both initiated", "ILo IRo SL SR", one, d(3, 5))
	in("archived sessions", "ILo SL r SR r IRo SR r ILn SL r", arch, d(2, 4))
	in("late messages", "ILn SL SL r SR SR SR IRo SR SR", arch, d(2, 3))
	in("after many turns", "ILn SL r SR r SL r SR r SL r SR r SL r SR SR SR r SL SR", one, d(3, 4))
	gr := func(cfg gcfg, script string, depth int) {
		cfg.seed, cfg.lens = seed, []int{24}
		out = append(out, cspace{fmt.Sprintf("group n=%d senders=%v groups=%d rekey=%d after %q", cfg.n, cfg.senders, cfg.dists, cfg.rekey, script), depth, func() core.Node { c := cfg; return newGW(&c).run(script) },
			func(n core.Node, s *secrets) { n.(*gw).secrets(s) },
			func(k *leak, n core.Node, level int) { n.(*gw).probe(k, level, false) }})
	}
	gr(gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 2, maxDist: 2, again: true}, "", d(4, 6))
	gr(gcfg{n: 2, senders: []int{0, 1}, dists: 1, maxSend: 2, maxDist: 2, rekey: 1}, "N 0 0; D 1 0; S 0 0; S 0 0; R 1 1", d(2, 4))
	gr(gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 1, maxDist: 1, mem: true}, "", d(4, 6))
	return out
}

const c26parts = 4

// c26worker runs one part of one space with everything the process prints captured.
func c26worker(tier string, job int, seed int64) int {
	runtime.GOMAXPROCS(1)
	rand.Reader = globalRand
	world.GlobalRand = globalRand
	keep, err := syscall.Dup(1)
	if err != nil {
		return 2
	}
	tmp, err := os.CreateTemp("", "c26-")
	if err != nil {
		return 2
	}
	os.Remove(tmp.Name())
	// The file is appended to, so that it can be emptied.
	f, err := os.OpenFile(fmt.Sprintf("/proc/self/fd/%d", tmp.Fd()), os.O_RDWR|os.O_APPEND, 0)
	if err != nil {
		return 2
	}
	errOut, _ := syscall.Dup(2)
	syscall.Dup2(int(f.Fd()), 1)
	syscall.Dup2(int(f.Fd()), 2)
	// A failure of the harness has to be seen.
	defer func() {
		if e := recover(); e != nil {
			w := os.NewFile(uintptr(errOut), "stderr")
			fmt.Fprintf(w, "harness: %v\n", e)
			panic(e)
		}
	}()
	flag.CommandLine.Parse(nil)
	flag.Set("logtostderr", "true")
	flag.Set("v", "99")
	k := &leak{f: f, sec: newSecrets(), lines: map[string]string{}}
	var res cresult
	fmt.Fprintln(os.Stderr, "control line")
	os.Stdout.WriteString("control line\n")
	println("control line")
	k.where = func() string { return "control" }
	k.drain("control")
	for t := range k.lines {
		if strings.Count(t, "control line") != 3 {
			panic("control: what is printed is not captured: " + t)
		}
	}
	if len(k.lines) != 1 {
		panic("control: what is printed is not captured")
	}
	res.Forms = int64(k.sec.selfTest(seed))
	spaces := c26spaces(seed, tier == "thorough")
	switch job - len(spaces)*c26parts {
	case 0:
		res.Transitions = int64(k.primitives(seed))
	case 1:
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(skipCheck); !ok {
						panic(e)
					}
				}
			}()
			res.Transitions = int64(k.limits(seed, tier == "thorough"))
		}()
	default:
		k.search(spaces[job/c26parts], job%c26parts, c26parts, &res)
	}
	k.again()
	res.Ops, res.Bytes, res.Errs, res.Secrets, res.Lines = k.n.ops, k.n.bytes, k.n.errs, int64(len(k.sec.known)), int64(len(k.lines))
	res.Bad, res.Trace = k.bad, k.trace
	b, _ := json.Marshal(res)
	syscall.Write(keep, append(append([]byte("RESULT "), b...), '\n'))
	return 0
}

func c26(r *core.Run) {
	r.Assume("secrets of fewer than 8 bytes, or fewer than 8 consecutive bytes of a secret, are not looked for")
	spaces := c26spaces(r.Seed, r.Thorough())
	jobs := len(spaces)*c26parts + 2
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	run := func(i int) (res cresult, err error) {
		cmd := exec.Command(self, "c26", r.Tier, fmt.Sprint(i))
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		if err = cmd.Run(); err != nil {
			return res, fmt.Errorf("worker %d: %v %s", i, err, errb.String())
		}
		s, ok := strings.CutPrefix(out.String(), "RESULT ")
		if !ok {
			return res, fmt.Errorf("worker %d: no result: %.300s", i, out.String())
		}
		return res, json.Unmarshal([]byte(s), &res)
	}
	var mu sync.Mutex
	parts := make([]cresult, len(spaces)+2)
	walls := make([]float64, len(parts))
	r.Parallel(jobs, func(i int) {
		i = jobs - 1 - i // the longest first
		t0 := time.Now()
		res, err := run(i)
		if err != nil {
			panic(err.Error())
		}
		mu.Lock()
		pi := i / c26parts
		if pi >= len(spaces) {
			pi = len(spaces) + i - len(spaces)*c26parts
		}
		p := &parts[pi]
		p.States += res.States
		p.Transitions += res.Transitions
		p.Ops += res.Ops
		p.Bytes += res.Bytes
		p.Errs += res.Errs
		p.Secrets += res.Secrets
		p.Lines += res.Lines
		p.Forms = res.Forms
		walls[pi] += time.Since(t0).Seconds()
		mu.Unlock()
		r.States.Add(res.States)
		r.Transitions.Add(res.Transitions)
		r.Evals.Add(res.Ops)
		r.Count("errors_read", res.Errs)
		r.Count("bytes_of_output_and_errors_searched", res.Bytes)
		r.Count("secrets_searched_for", res.Secrets)
		if res.Sample != "" {
			r.Sample(map[string]any{"history": res.Sample})
		}
		if res.Bad == "" {
			return
		}
		r.Violate("leak", res.Bad, map[string]any{"history": res.Trace, "job": i}, func() string {
			again, err := run(i)
			if err != nil {
				return ""
			}
			return again.Bad
		})
	})
	for i, p := range parts {
		name := "primitives"
		depth := 0
		if i > len(spaces) {
			name = "limits"
		}
		if i < len(spaces) {
			name, depth = spaces[i].name, spaces[i].depth
		}
		r.Traces.Add(p.Ops)
		r.Part(map[string]any{"space": name, "depth_bound": depth, "states": p.States, "transitions": p.Transitions, "operations_judged": p.Ops, "errors_judged": p.Errs,
			"bytes_searched": p.Bytes, "distinct_outputs": p.Lines, "secrets": p.Secrets, "encodings_in_self_test": p.Forms, "wall_s": walls[i]})
	}
}
