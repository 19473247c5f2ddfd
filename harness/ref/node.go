package ref

import (
	"bytes"
	"strings"
)

// Node is an expected output: literal bytes, a sequence, or a set of
// comma-separated entries in any order.
type Node struct {
	Lit  []byte
	Seq  []Node
	Perm []Node
}

func lit(s string) Node   { return Node{Lit: []byte(s)} }
func litB(b []byte) Node  { return Node{Lit: b} }
func (n *Node) det() bool { return n.Seq == nil && n.Perm == nil }

// builder concatenates nodes, merging the literals.
type builder struct {
	cur   []byte
	parts []Node
}

func (b *builder) str(s string)   { b.cur = append(b.cur, s...) }
func (b *builder) bytes(s []byte) { b.cur = append(b.cur, s...) }
func (b *builder) flush() {
	if len(b.cur) != 0 {
		b.parts = append(b.parts, Node{Lit: b.cur})
		b.cur = nil
	}
}

func (b *builder) node(n Node) {
	if n.Perm != nil {
		b.flush()
		b.parts = append(b.parts, n)
		return
	}
	if n.Seq != nil {
		for _, k := range n.Seq {
			b.node(k)
		}
		return
	}
	b.cur = append(b.cur, n.Lit...)
}

func (b *builder) done() Node {
	if b.parts == nil {
		return Node{Lit: b.cur}
	}
	b.flush()
	return Node{Seq: b.parts}
}

// Flat returns the bytes of n, and whether this is the only admissible output.
func (n Node) Flat() ([]byte, bool) {
	if n.det() {
		return n.Lit, true
	}
	var buf bytes.Buffer
	n.flat(&buf)
	return buf.Bytes(), false
}

func (n Node) flat(buf *bytes.Buffer) {
	buf.Write(n.Lit)
	for _, k := range n.Seq {
		k.flat(buf)
	}
	for i, k := range n.Perm {
		if i != 0 {
			buf.WriteByte(',')
		}
		k.flat(buf)
	}
}

// Inconclusive counts the matches given up.
var Inconclusive int

// Match returns whether b is an admissible output of n. A search that takes too
// long is given up and counts as a match.
func (n Node) Match(b []byte) bool {
	if n.det() {
		return bytes.Equal(n.Lit, b)
	}
	m := matcher{b: b, budget: 30_000_000}
	ends := m.match(&n, 0)
	if m.budget < 0 {
		Inconclusive++
		return true
	}
	for _, e := range ends {
		if e == len(b) {
			return true
		}
	}
	return false
}

type matcher struct {
	b      []byte
	budget int
}

// match returns the offsets where an output of n that begins at off can end.
func (m *matcher) match(n *Node, off int) []int {
	if m.budget--; m.budget < 0 {
		return nil
	}
	switch {
	case n.Perm != nil:
		return m.perm(n.Perm, off)
	case n.Seq != nil:
		ends := []int{off}
		for i := range n.Seq {
			var next []int
			for _, e := range ends {
				for _, x := range m.match(&n.Seq[i], e) {
					next = addInt(next, x)
				}
			}
			if ends = next; ends == nil {
				return nil
			}
		}
		return ends
	default:
		if bytes.HasPrefix(m.b[off:], n.Lit) {
			return []int{off + len(n.Lit)}
		}
		return nil
	}
}

func addInt(l []int, x int) []int {
	for _, y := range l {
		if y == x {
			return l
		}
	}
	return append(l, x)
}

// permState is a way to have matched some entries: the numbers of the entries
// of each group that are left, and the offset reached.
type permState struct {
	left []int32
	off  int
}

func (s *permState) key() string {
	k := make([]byte, 0, 4*len(s.left)+8)
	for _, n := range s.left {
		k = append(k, byte(n), byte(n>>8), byte(n>>16))
	}
	return string(append(k, byte(s.off), byte(s.off>>8), byte(s.off>>16), byte(s.off>>24)))
}

func (m *matcher) perm(p []Node, off int) []int {
	// equal entries are one group
	var groups []*Node
	left := []int32{}
	index := map[string]int{}
	lits := map[string]int{} // groups of a literal, by the literal
	var lens []int           // their lengths
	var others []int         // groups of other nodes
	for i := range p {
		c := p[i].String()
		if !p[i].det() {
			c = "\x00node " + c
		}
		g, ok := index[c]
		if !ok {
			g = len(groups)
			index[c] = g
			groups = append(groups, &p[i])
			left = append(left, 0)
			if p[i].det() {
				lits[c] = g
				lens = addInt(lens, len(c))
			} else {
				others = append(others, g)
			}
		}
		left[g]++
	}
	states := []*permState{{left, off}}
	type move struct {
		from *permState
		g    int
		end  int
	}
	for i := range p {
		var moves []move
		for _, s := range states {
			add := func(g, e int) {
				if i < len(p)-1 {
					if e >= len(m.b) || m.b[e] != ',' {
						return
					}
					e++
				}
				moves = append(moves, move{s, g, e})
			}
			for _, l := range lens {
				if s.off+l <= len(m.b) {
					if g, ok := lits[string(m.b[s.off:s.off+l])]; ok && s.left[g] > 0 {
						add(g, s.off+l)
					}
				}
			}
			m.budget -= len(lens)
			for _, g := range others {
				if s.left[g] > 0 {
					for _, e := range m.match(groups[g], s.off) {
						add(g, e)
					}
				}
			}
		}
		if m.budget < 0 {
			return nil
		}
		if len(moves) == 1 { // the usual case
			mv := moves[0]
			mv.from.left[mv.g]--
			mv.from.off = mv.end
			states = append(states[:0], mv.from)
			continue
		}
		states = nil
		seen := map[string]bool{}
		for _, mv := range moves {
			n := &permState{append([]int32(nil), mv.from.left...), mv.end}
			n.left[mv.g]--
			if k := n.key(); !seen[k] {
				seen[k] = true
				states = append(states, n)
			}
			m.budget -= 10
		}
		if states == nil || m.budget < 0 {
			return nil
		}
	}
	var ends []int
	for _, s := range states {
		ends = addInt(ends, s.off)
	}
	return ends
}

func (n Node) String() string {
	var sb strings.Builder
	n.str(&sb)
	return sb.String()
}

func (n Node) str(sb *strings.Builder) {
	sb.Write(n.Lit)
	for _, k := range n.Seq {
		k.str(sb)
	}
	if n.Perm != nil {
		sb.WriteString("«")
		for i, k := range n.Perm {
			if i != 0 {
				sb.WriteString("«,»")
			}
			k.str(sb)
		}
		sb.WriteString("»")
	}
}

// Clone returns a copy that shares no memory with n.
func (n Node) Clone() Node {
	c := Node{Lit: append([]byte(nil), n.Lit...)}
	if n.Lit == nil {
		c.Lit = nil
	}
	for _, s := range n.Seq {
		c.Seq = append(c.Seq, s.Clone())
	}
	if n.Perm != nil {
		c.Perm = []Node{}
	}
	for _, s := range n.Perm {
		c.Perm = append(c.Perm, s.Clone())
	}
	return c
}
