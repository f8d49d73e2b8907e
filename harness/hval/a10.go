package main

import (
	"bytes"
	"fmt"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/zzverif/vk"
	w "github.com/cloudflare/cfrpki/zzverif/world"
)

// bn is a node of an abstract BER value.
type bn struct {
	tag  []byte
	prim []byte
	kids []*bn
}

func (n *bn) constr() bool { return n.tag[0]&0x20 != 0 }

func derLen(l int) []byte {
	if l < 128 {
		return []byte{byte(l)}
	}
	var b []byte
	for x := l; x > 0; x >>= 8 {
		b = append([]byte{byte(x)}, b...)
	}
	return append([]byte{0x80 | byte(len(b))}, b...)
}

func (n *bn) der() []byte {
	c := n.prim
	if n.constr() {
		c = nil
		for _, k := range n.kids {
			c = append(c, k.der()...)
		}
	}
	return append(append(append([]byte{}, n.tag...), derLen(len(c))...), c...)
}

// ref is an independent BER reader. status: 0 fine, 1 does not matter, 2 error.
type ref struct{ b []byte }

func (p ref) read(off, end, depth int) (n *bn, next int, st int) {
	worse := func(x int) {
		if x > st {
			st = x
		}
	}
	if off >= end {
		return nil, off, 2
	}
	if depth > 900 {
		worse(1)
	}
	n = &bn{}
	t0 := off
	b := p.b[off]
	off++
	if b&0x1f == 0x1f {
		first := true
		for {
			if off >= end {
				return nil, off, 2
			}
			c := p.b[off]
			off++
			if first && c == 0x80 {
				worse(1)
			}
			if first && c < 31 {
				worse(1)
			}
			first = false
			if c < 0x80 {
				break
			}
		}
	}
	n.tag = p.b[t0:off]
	if b == 0 {
		worse(1) // end-of-contents where none belongs
	}
	if off >= end {
		return nil, off, 2
	}
	l := int(p.b[off])
	off++
	indef := false
	ln := l
	if l == 0x80 {
		indef = true
	} else if l > 0x80 {
		k := l & 0x7f
		if off+k > end {
			return nil, off, 2
		}
		if p.b[off] == 0 || k > 4 {
			worse(1)
		}
		ln = 0
		for i := 0; i < k; i++ {
			ln = ln<<8 | int(p.b[off+i])
			if ln > 1<<40 {
				return nil, off, 2
			}
		}
		off += k
	}
	if indef {
		if !n.constr() {
			return nil, off, 2
		}
		for {
			if off+2 > end {
				return nil, off, 2
			}
			if p.b[off] == 0 && p.b[off+1] == 0 {
				return n, off + 2, st
			}
			k, nx, s := p.read(off, end, depth+1)
			worse(s)
			if st == 2 {
				return nil, off, 2
			}
			n.kids = append(n.kids, k)
			off = nx
		}
	}
	if off+ln > end {
		return nil, off, 2
	}
	stop := off + ln
	if !n.constr() {
		n.prim = p.b[off:stop]
		return n, stop, st
	}
	for off < stop {
		k, nx, s := p.read(off, stop, depth+1)
		worse(s)
		if st == 2 {
			return nil, off, 2
		}
		n.kids = append(n.kids, k)
		off = nx
	}
	return n, stop, st
}

// encodings lists the byte encodings of a tree: each node's length in each form.
// forms: 0 minimal, 1 one more length octet than needed (0x81 for short),
// 2 indefinite
func encodeForms(n *bn, forms []int, pos *int) []byte {
	f := forms[*pos]
	*pos++
	c := n.prim
	if n.constr() {
		c = nil
		for _, k := range n.kids {
			c = append(c, encodeForms(k, forms, pos)...)
		}
	}
	out := append([]byte{}, n.tag...)
	switch {
	case f == 2 && n.constr():
		return append(append(append(out, 0x80), c...), 0, 0)
	case f == 1 && len(c) > 0 && len(c) < 128:
		return append(append(out, 0x81, byte(len(c))), c...)
	}
	return append(append(out, derLen(len(c))...), c...)
}

func (n *bn) size() int {
	s := 1
	for _, k := range n.kids {
		s += k.size()
	}
	return s
}

// trees lists ordered trees of exactly n nodes.
func trees(n int, leaves []*bn, inner [][]byte) []*bn {
	var out []*bn
	if n == 1 {
		out = append(out, leaves...)
	}
	for _, f := range forests(n-1, leaves, inner) {
		for _, t := range inner {
			out = append(out, &bn{tag: t, kids: f})
		}
	}
	return out
}

func forests(n int, leaves []*bn, inner [][]byte) [][]*bn {
	if n == 0 {
		return [][]*bn{nil}
	}
	var out [][]*bn
	for k := 1; k <= n; k++ {
		for _, t := range trees(k, leaves, inner) {
			for _, r := range forests(n-k, leaves, inner) {
				out = append(out, append([]*bn{t}, r...))
			}
		}
	}
	return out
}

func init() {
	checks["A10"] = func(r *vk.Run) {
		r.Rule = "every tree of up to 4 (5) TLVs with every choice of length form per node, every truncation and every length octet off by one; every byte string up to length 5 over 15 symbols and up to length 7 over 7; large lengths; compared with an independent BER reader and DER writer"
		r.HangLimit(3 * 60e9)
		check := func(b []byte) *vk.Fail {
			in := append([]byte(nil), b...)
			n, _, st := ref{b}.read(0, len(b), 0)
			out, err := librpki.BER2DER(b)
			if !bytes.Equal(in, b) {
				return vk.Failf("input-changed", "input modified: %x", in)
			}
			r.Traces(1)
			switch {
			case st == 2 && err == nil:
				return vk.Failf("malformed-accepted", "%.80x converted to %.80x", b, out)
			case st == 0 && err != nil:
				return vk.Failf("legal-rejected", "%.80x: %v", b, err)
			case st == 0 && !bytes.Equal(out, n.der()):
				return vk.Failf("wrong-conversion", "%.80x converted to %.80x, want %.80x", b, out, n.der())
			}
			return nil
		}
		leaves := []*bn{{tag: []byte{4}}, {tag: []byte{4}, prim: []byte{0}}, {tag: []byte{2}, prim: []byte{0, 0}}, {tag: []byte{0x9f, 0x81, 0x05}, prim: []byte{0x30, 0x80, 0}}, {tag: []byte{0x1f, 0x1f}, prim: []byte{0xff}}}
		inner := [][]byte{{0x30}, {0x24}, {0xbf, 0x21}}
		max := 4
		if r.Thorough() {
			max = 5
		}
		var all []*bn
		for n := 1; n <= max; n++ {
			all = append(all, trees(n, leaves, inner)...)
		}
		r.Note("trees", len(all))
		r.Parallel(len(all), func(i int) {
			t := all[i]
			n := t.size()
			id := fmt.Sprintf("tree %d %x", i, t.der())
			if r.Skip(id) {
				return
			}
			if i%3999 == 0 {
				r.Sample(id)
			}
			r.State(id)
			want := t.der()
			r.Check(id, func() *vk.Fail {
				forms := make([]int, n)
				for {
					p := 0
					b := encodeForms(t, forms, &p)
					r.Trans(1)
					out, err := librpki.BER2DER(b)
					if err != nil {
						return vk.Failf("legal-rejected", "%x: %v", b, err)
					}
					if !bytes.Equal(out, want) {
						return vk.Failf("wrong-conversion", "%x converted to %x, want %x", b, out, want)
					}
					again, err := librpki.BER2DER(out)
					if err != nil || !bytes.Equal(again, out) {
						return vk.Failf("der-changed", "%x became %x %v", out, again, err)
					}
					for c := 0; c < len(b); c++ {
						if f := check(b[:c]); f != nil {
							return f
						}
						for _, d := range []byte{1, 255} {
							m := append([]byte(nil), b...)
							m[c] += d
							if f := check(m); f != nil {
								return f
							}
						}
					}
					if f := check(append(append([]byte{}, b...), 0xff)); f != nil { // trailing data is ignored
						return f
					}
					k := n - 1
					for ; k >= 0; k-- {
						forms[k]++
						if forms[k] < 3 {
							break
						}
						forms[k] = 0
					}
					if k < 0 {
						return nil
					}
				}
			})
		})
		strs := func(alpha []byte, l int) {
			total := 1
			for i := 0; i < l; i++ {
				total *= len(alpha)
			}
			chunks := 256
			r.Parallel(chunks, func(c int) {
				for v := c * total / chunks; v < (c+1)*total/chunks; v++ {
					s := make([]byte, l)
					x := v
					for i := range s {
						s[i] = alpha[x%len(alpha)]
						x /= len(alpha)
					}
					if r.Only != "" && r.Skip(fmt.Sprintf("str %x", s)) {
						continue
					}
					if f := check(s); f != nil {
						r.Check(fmt.Sprintf("str %x", s), func() *vk.Fail { return check(s) })
					}
				}
				r.Eval((c+1)*total/chunks - c*total/chunks)
			})
			r.Count("strings", int64(total))
		}
		a15 := []byte{0, 1, 2, 3, 4, 5, 6, 0x1f, 0x24, 0x30, 0x3f, 0x80, 0x81, 0x82, 0x84}
		a7 := []byte{0, 1, 2, 4, 0x30, 0x80, 0x81}
		L15, L7 := 5, 7
		if r.Thorough() {
			L15, L7 = 6, 9
		}
		for l := 0; l <= L15; l++ {
			strs(a15, l)
		}
		for l := L15 + 1; l <= L7; l++ {
			strs(a7, l)
		}
		for l := 0; l <= 2; l++ {
			b := make([]byte, 256)
			for i := range b {
				b[i] = byte(i)
			}
			strs(b, l)
		}
		// large contents around each length size, in every nesting
		for _, l := range []int{0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 1<<24 - 1, 1 << 24, 1<<24 + 1} {
			for dep := 0; dep < 3; dep++ {
				for f := 0; f < 27; f++ {
					t := &bn{tag: []byte{4}, prim: bytes.Repeat([]byte{0xab}, l)}
					n := 1
					for i := 0; i < dep; i++ {
						t = &bn{tag: []byte{0x30}, kids: []*bn{t}}
						n++
					}
					forms := []int{f % 3, f / 3 % 3, f / 9}[:n]
					if l > 1<<20 && f%3 == 1 {
						continue
					}
					id := fmt.Sprintf("large %d depth %d forms %v", l, dep, forms)
					if r.Skip(id) {
						continue
					}
					p := 0
					b := encodeForms(t, forms, &p)
					r.State(id)
					r.Check(id, func() *vk.Fail {
						if f := check(b); f != nil {
							return f
						}
						return check(b[:len(b)-1])
					})
				}
			}
		}
		// real objects
		for n, b := range a08Objects() {
			t, rest, err := w.ParseTLV(b)
			if err != nil || len(rest) > 0 {
				continue
			}
			b := b
			r.State(n)
			r.Check("object "+n, func() *vk.Fail {
				if out, err := librpki.BER2DER(b); err != nil || !bytes.Equal(out, b) {
					return vk.Failf("der-changed", "%s: %v", n, err)
				}
				if out, err := librpki.BER2DER(berIndef(t)); err != nil || !bytes.Equal(out, b) {
					return vk.Failf("wrong-conversion", "%s with indefinite lengths: %v", n, err)
				}
				return nil
			})
		}
		r.Outcome("done")
		r.Outcome(fmt.Sprint(len(all)))
	}
}
