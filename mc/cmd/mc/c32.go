package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"verif/mc/core"
	"verif/mc/world"
)

func init() { register("C32", "model_checking", c32) }

type ctxMark struct{}

// callerCtx is the context of one operation.
type callerCtx struct {
	mark     *int
	deadline time.Time
	done     chan struct{}
	mu       sync.Mutex
	err      error
}

func newCallerCtx() *callerCtx {
	return &callerCtx{mark: new(int), deadline: time.Now().Add(24 * time.Hour), done: make(chan struct{})}
}

func (c *callerCtx) Deadline() (time.Time, bool) { return c.deadline, true }
func (c *callerCtx) Done() <-chan struct{}       { return c.done }
func (c *callerCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *callerCtx) Value(k any) any {
	if k == (ctxMark{}) {
		return c.mark
	}
	return nil
}

func (c *callerCtx) end(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err == nil {
		c.err = err
		close(c.done)
	}
}

// ctxEnd is how an operation with a context under control ended.
type ctxEnd struct {
	calls     int
	refused   bool // a store reported that the context has ended
	persisted bool // a session or group record was stored
	at        world.Call
	bad       string
	out       []byte
	err       error
}

// withCtx runs an operation with a context of its own, which ends with cause just
// before call number at.
func withCtx(p *world.Party, at int, cause error, op func() ([]byte, error)) (e ctxEnd) {
	ctx := newCallerCtx()
	bad := func(c world.Call, s string) {
		if e.bad == "" {
			e.bad = fmt.Sprintf("call %d (%v): %s", e.calls, c, s)
		}
	}
	p.OpCtx = ctx
	p.CtxHook = func(got context.Context, c world.Call, canFail bool) error {
		e.calls++
		if got == nil {
			bad(c, "no context was given")
			return nil
		}
		if got.Value(ctxMark{}) != any(ctx.mark) {
			bad(c, "the context is not that of the operation")
			return nil
		}
		if d, ok := got.Deadline(); !ok || d.After(ctx.deadline) {
			bad(c, "the context does not have the deadline of the operation")
		}
		if e.calls-1 == at {
			ctx.end(cause)
			e.at = c
		}
		if at < 0 || e.calls-1 < at {
			if got.Err() != nil {
				bad(c, "the context has ended before that of the operation")
			}
		} else {
			select {
			case <-got.Done():
			case <-time.After(3 * time.Second):
				bad(c, "the context goes on after that of the operation has ended")
				return nil
			}
			if canFail {
				e.refused = true
				return got.Err()
			}
		}
		if c.Op == "Store" && (c.Store == "session" || c.Store == "group") {
			e.persisted = true
		}
		return nil
	}
	defer func() { p.OpCtx, p.CtxHook = nil, nil; p.Touched() }()
	e.out, e.err = op()
	return
}

// ctxAll ends the context of an operation at each of its calls. mk prepares the operation in a fresh copy of the state.
func ctxAll(r *core.Run, mk func() faultOp) string {
	f := mk()
	before := f.party.Contents()
	wantOut, wantErr := f.run()
	after := f.party.Contents()
	f = mk()
	b := withCtx(f.party, -1, nil, f.run)
	r.Transitions.Add(1)
	r.Evals.Add(1)
	switch {
	case b.bad != "":
		return fmt.Sprintf("%s: %s", f.name, b.bad)
	case (b.err == nil) != (wantErr == nil) || !bytes.Equal(b.out, wantOut):
		return fmt.Sprintf("%s depends on the values of the context: %v instead of %v", f.name, b.err, wantErr)
	case len(world.Diff(after, f.party.Contents())) > 0:
		return fmt.Sprintf("%s: the stored state depends on the values of the context", f.name)
	}
	for k := 0; k < b.calls; k++ {
		for _, cause := range []error{context.Canceled, context.DeadlineExceeded} {
			g := mk()
			e := withCtx(g.party, k, cause, g.run)
			r.Transitions.Add(1)
			r.Evals.Add(1)
			where := fmt.Sprintf("%s with the context ending (%v) at call %d (%v)", g.name, cause, k+1, e.at)
			switch {
			case e.bad != "":
				return where + ": " + e.bad
			case world.IsPanic(e.err):
				return where + ": " + e.err.Error()
			case e.err != nil && len(e.out) != 0:
				return where + ": output was returned together with the error"
			case e.refused && e.err == nil:
				return where + ": success was reported"
			case wantErr == nil && e.err != nil && !errors.Is(e.err, cause):
				return fmt.Sprintf("%s: the error %q does not say so", where, e.err)
			case e.err == nil && !bytes.Equal(e.out, wantOut):
				return where + ": another result"
			}
			if e.persisted {
				continue
			}
			for _, d := range world.Diff(before, g.party.Contents()) {
				if len(d) < 10 || d[1:10] != "identity " {
					return fmt.Sprintf("%s: %s was persisted before the session was", where, d)
				}
			}
			if e.err == nil || wantErr != nil {
				continue
			}
			// The same again with a context that goes on.
			again := withCtx(g.party, -1, nil, g.run)
			r.Transitions.Add(1)
			if again.bad != "" {
				return fmt.Sprintf("%s; repeated: %s", where, again.bad)
			}
			if again.err != nil || g.name[0] == 'R' && !bytes.Equal(again.out, wantOut) {
				return fmt.Sprintf("%s: repeating it: %v", where, again.err)
			}
		}
	}
	return ""
}

// ctxOps are the operations of a state, accepted and refused ones.
func (w *pair) ctxOps() (mks []func() faultOp) {
	for _, op := range w.faultOps() {
		mks = append(mks, func() faultOp { return w.clone().faultOp(op) })
	}
	for p := 0; p < 2; p++ {
		if w.Cur[p] == "" {
			mks = append(mks, func() faultOp { return w.clone().faultOp(fmt.Sprintf("S%d", p)) })
		}
		mks = append(mks, func() faultOp {
			c := w.clone()
			f := c.faultOp(fmt.Sprintf("I%dn", p))
			b := c.bundleFor(p, 'n')
			b.SignedPreKeySignature = append([]byte(nil), b.SignedPreKeySignature...)
			b.SignedPreKeySignature[5] ^= 1
			f.name += " with a wrong signature"
			f.run = func() ([]byte, error) { return nil, c.P[p].ProcessBundle(c.addr(1-p), b) }
			return f
		})
	}
	seen := 0
	for i := len(w.Msgs) - 1; i >= 0; i-- {
		m := w.Msgs[i]
		if m.Used {
			if seen++; seen <= 2 {
				mks = append(mks, func() faultOp { return w.clone().faultOp(fmt.Sprintf("R%d:%s", m.To, m.ID)) })
			}
			continue
		}
		mks = append(mks, func() faultOp {
			c := w.clone()
			f := faultOp{name: fmt.Sprintf("R%d:%s altered", m.To, m.ID), party: c.P[m.To]}
			wire := altered(m.Typ, m.Wire)
			f.run = func() ([]byte, error) { return c.P[m.To].Decrypt(c.addr(m.From), m.Typ, wire) }
			return f
		})
	}
	return
}

func c32(r *core.Run) {
	r.Assume("the stores answer with the error of the context they are given once it has ended")
	for _, s := range []struct {
		root         string
		sends, inits [2]int
		restart      bool
		q, t         int
		mem          bool
	}{
		{"fresh", [2]int{2, 2}, [2]int{1, 1}, false, 6, 8, false},
		{"initiated", [2]int{2, 2}, [2]int{0, 1}, true, 4, 6, true},
		{"established", [2]int{2, 2}, [2]int{0, 0}, false, 4, 6, false},
		{"established-none", [2]int{2, 2}, [2]int{1, 0}, false, 4, 6, true},
		{"skipped", [2]int{2, 2}, [2]int{0, 0}, false, 3, 5, false},
		{"ratcheted", [2]int{2, 2}, [2]int{0, 0}, false, 3, 5, true},
		{"crossed", [2]int{2, 2}, [2]int{0, 0}, false, 4, 6, false},
		{"crossed-read", [2]int{2, 2}, [2]int{0, 1}, false, 3, 5, true},
		{"reinit-read", [2]int{2, 2}, [2]int{1, 0}, false, 3, 5, false},
		{"three-sessions", [2]int{1, 1}, [2]int{0, 0}, false, 3, 4, true},
		{"Z0", [2]int{2, 2}, [2]int{0, 0}, false, 4, 6, false},
	} {
		cfg := pcfg{Seed: r.Seed, Kinds: "", Modes: "on", Check: func(w *pair) string {
			for _, mk := range w.ctxOps() {
				if s := ctxAll(r, mk); s != "" {
					return s
				}
			}
			return ""
		}}
		cfg.MaxSend, cfg.MaxInit, cfg.Mem, cfg.Restart = s.sends, s.inits, s.mem, s.restart
		r.Explore(pairSpace(s.root, cfg, core.Pick(r, s.q, s.t)))
	}
	check := func(w *gw) string {
		for _, op := range w.Ops() {
			if op[0] == 'K' {
				continue
			}
			if s := ctxAll(r, func() faultOp { return w.clone().faultOp(op) }); s != "" {
				return s
			}
		}
		for m := range w.P {
			for _, x := range w.Msgs {
				if x.chain.sender == m {
					continue
				}
				for _, alter := range []bool{false, true} {
					s := ctxAll(r, func() faultOp {
						c := w.clone()
						wire := append([]byte(nil), x.wire...)
						if alter {
							wire[len(wire)-9] ^= 1
						}
						return faultOp{name: fmt.Sprintf("R %d %s (altered: %v)", m, x.id, alter), party: c.P[m], run: func() ([]byte, error) {
							return c.P[m].GroupDecrypt(c.P[x.chain.sender].Addr, wire)
						}}
					})
					if s != "" {
						return s
					}
				}
			}
		}
		return ""
	}
	groupSpaces(r, "", check, []gspace{
		{"", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 3, maxDist: 2, again: true}, 7, 9},
		{"", gcfg{n: 3, senders: []int{0, 1}, dists: 1, maxSend: 2, maxDist: 2, mem: true}, 5, 7},
		{"N 0 0; D 1 0; S 0 0; S 0 0; S 0 0; R 1 2", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 2, maxDist: 3, again: true}, 4, 6},
		{"N 0 0; S 0 0; K 0 0; N 0 0; S 0 0; K 0 0; N 0 0; D 1 all; S 0 0", gcfg{n: 2, senders: []int{0}, dists: 1, maxSend: 2, maxDist: 4, again: true}, 4, 6},
	})
}
