package main

import (
	"fmt"
	"strconv"
	"strings"

	"verif/mc/core"
	"verif/mc/ref"
)

// skipNode explores a chain around the limit of retained skipped messages: all
// orders of skipping ahead and of reading retained messages late, with the exact
// list of what must be retained as the model.
type skipNode struct {
	pair  *limited
	group *glimited
	g     *ref.GroupSender
	start ref.Chain // chain key at the first position
	next  uint32    // next position of the chain
	list  []uint32  // retained positions, oldest first
	gone  []uint32  // positions that were consumed or dropped last
}

func (s *skipNode) Clone() core.Node {
	c := *s
	if s.pair != nil {
		c.pair = s.pair.clone()
	} else {
		c.group = s.group.clone()
	}
	c.list = append([]uint32(nil), s.list...)
	c.gone = append([]uint32(nil), s.gone...)
	return &c
}

func (s *skipNode) Key() [32]byte {
	if s.pair != nil {
		return core.Digest(s.pair.P.Digest(), s.list)
	}
	return core.Digest(s.group.P.Digest(), s.list)
}

// Ops: J<k> skips k positions and reads the next message, O reads the oldest
// retained message, N the newest, M the one in the middle, S the second oldest.
func (s *skipNode) Ops() []string {
	ops := []string{"J0", "J1", "J2", "J3"}
	if len(s.list) > 3 {
		ops = append(ops, "O", "S", "M", "N")
	}
	return ops
}

func (s *skipNode) at(n uint32) lmsg {
	if s.pair != nil {
		return s.pair.at(s.start, n)
	}
	return gat(s.g, s.start, n)
}

func (s *skipNode) read(m lmsg) error {
	if s.pair != nil {
		return s.pair.read(m)
	}
	return s.group.read(m)
}

func (s *skipNode) refusedAt(m lmsg) string {
	if s.pair != nil {
		return s.pair.refusedAt(m)
	}
	return s.group.refusedAt(m)
}

func (s *skipNode) drop(n uint32) {
	s.gone = append(s.gone, n)
	if len(s.gone) > 3 {
		s.gone = s.gone[1:]
	}
}

func (s *skipNode) jump(k uint32) string {
	if err := s.read(s.at(s.next + k)); err != nil {
		return fmt.Sprintf("a message %d ahead was refused: %v", k, err)
	}
	for i := uint32(0); i < k; i++ {
		s.list = append(s.list, s.next+i)
		if len(s.list) > maxSkipped {
			s.drop(s.list[0])
			s.list = s.list[1:]
		}
	}
	s.next += k + 1
	return ""
}

func (s *skipNode) Apply(op string) string {
	if rest, ok := strings.CutPrefix(op, "J"); ok {
		k, _ := strconv.Atoi(rest)
		return s.jump(uint32(k))
	}
	i := map[string]int{"O": 0, "S": 1, "M": len(s.list) / 2, "N": len(s.list) - 1}[op]
	n := s.list[i]
	if err := s.read(s.at(n)); err != nil {
		return fmt.Sprintf("skipped position %d, one of the %d retained, is unreadable: %v", n, len(s.list), err)
	}
	s.list = append(s.list[:i], s.list[i+1:]...)
	s.drop(n)
	return ""
}

func (s *skipNode) Check() string {
	for _, i := range []int{0, len(s.list) / 2, len(s.list) - 1} {
		if i < 0 {
			continue
		}
		c := s.Clone().(*skipNode)
		if err := c.read(c.at(s.list[i])); err != nil {
			return fmt.Sprintf("skipped position %d, number %d of the %d retained, is unreadable: %v", s.list[i], i+1, len(s.list), err)
		}
	}
	for _, n := range s.gone {
		if x := s.refusedAt(s.at(n)); x != "" {
			return fmt.Sprintf("position %d was read or is no longer among the %d most recently skipped, but: %s", n, maxSkipped, x)
		}
	}
	return ""
}

func c13skips(r *core.Run) {
	depth := core.Pick(r, 4, 5)
	fill := uint32(maxSkipped - 2)
	var l *limited
	for _, st := range c13starts(r, false) {
		if st.name == "new chain" {
			l = st.l
		}
	}
	if l != nil {
		r.Explore(core.Space{Name: "skipped around the limit, pairwise", Depth: depth, Root: func() core.Node {
			s := &skipNode{pair: l.clone(), start: l.S.Send, next: l.S.Send.N}
			if x := s.jump(fill); x != "" {
				panic(skipCheck{fmt.Errorf("%s", x)})
			}
			return s
		}})
	}
	r.Explore(core.Space{Name: "skipped around the limit, group", Depth: depth, Root: func() core.Node {
		gl := newGLimited(r.Seed)
		g := gl.sender(0, 0)
		s := &skipNode{group: gl, g: g, start: g.Chain}
		if err := gl.P.GroupProcess(gl.them, g.Distribution()); err != nil {
			panic(skipCheck{err})
		}
		if x := s.jump(fill); x != "" {
			panic(skipCheck{fmt.Errorf("%s", x)})
		}
		return s
	}})
}
