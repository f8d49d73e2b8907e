package main

import (
	"fmt"
	"net"
	"sort"
	"strings"

	"github.com/cloudflare/cfrpki/ov"
	"github.com/cloudflare/cfrpki/zzverif/vk"
)

// D01: origin validation against a reference written from RFC 6811.

type vrp struct {
	n   *net.IPNet
	max int
	asn uint32
	id  int
	cb  func()
}

func (v *vrp) GetASN() uint32 { v.point(); return v.asn }
func (v *vrp) GetMaxLen() int { v.point(); return v.max }
func (v *vrp) GetPrefix() *net.IPNet {
	return &net.IPNet{IP: append(net.IP(nil), v.n.IP...), Mask: append(net.IPMask(nil), v.n.Mask...)}
}
func (v *vrp) point() {
	if v.cb != nil {
		v.cb()
	}
}
func (v *vrp) String() string { return fmt.Sprintf("%s-%d/AS%d", v.n, v.max, v.asn) }

type route struct {
	n   *net.IPNet
	asn uint32
	cb  func()
}

func (r *route) GetASN() uint32 {
	if r.cb != nil {
		r.cb()
	}
	return r.asn
}
func (r *route) GetPrefix() *net.IPNet {
	if r.cb != nil {
		r.cb()
	}
	return &net.IPNet{IP: append(net.IP(nil), r.n.IP...), Mask: append(net.IPMask(nil), r.n.Mask...)}
}
func (r *route) String() string { return fmt.Sprintf("%s from AS%d", r.n, r.asn) }

// family and bits of a prefix, independently of the net package's notion of
// IPv4-mapped addresses: the mask length decides.
func famBits(n *net.IPNet) (string, int) {
	ones, size := n.Mask.Size()
	ip := n.IP
	if size == 32 {
		ip = ip.To4()
	} else {
		ip = ip.To16()
	}
	var s strings.Builder
	for i := 0; i < ones; i++ {
		s.WriteByte('0' + ip[i/8]>>(7-uint(i%8))&1)
	}
	return fmt.Sprintf("%d:%s", size, s.String()), ones
}

type fam struct {
	key  string
	bits int
}

var famCache = map[*net.IPNet]fam{}

func cover(v, r *net.IPNet) bool {
	a, b := famCache[v], famCache[r]
	return strings.HasPrefix(b.key, a.key)
}

func refOV(vs []*vrp, r *route) (int, []int) {
	st := ov.STATE_UNKNOWN
	var m []int
	bits := famCache[r.n].bits
	for _, v := range vs {
		if !cover(v.n, r.n) {
			continue
		}
		m = append(m, v.id)
		if v.asn == r.asn && r.asn != 0 && bits <= v.max {
			st = ov.STATE_VALID
		} else if st == ov.STATE_UNKNOWN {
			st = ov.STATE_INVALID
		}
	}
	sort.Ints(m)
	return st, m
}

func mkNet(s string) *net.IPNet {
	ip, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	_ = ip
	return n
}
func asOV(vs []*vrp) []ov.AbstractROA {
	var l []ov.AbstractROA
	for _, v := range vs {
		l = append(l, v)
	}
	return l
}
func compareOV(vs []*vrp, r *route, got []ov.AbstractROA, st int, err error) *vk.Fail {
	if err != nil {
		return vk.Failf("error", "%v for %v: %v", vs, r, err)
	}
	ws, wm := refOV(vs, r)
	var gm []int
	for _, g := range got {
		gm = append(gm, g.(*vrp).id)
	}
	sort.Ints(gm)
	if st != ws {
		return vk.Failf(fmt.Sprintf("state %s instead of %s", ov.StateToName[st], ov.StateToName[ws]), "VRPs %v, route %v: %s instead of %s", vs, r, ov.StateToName[st], ov.StateToName[ws])
	}
	if fmt.Sprint(gm) != fmt.Sprint(wm) {
		return vk.Failf("covering VRPs", "VRPs %v, route %v: returned %v instead of %v", vs, r, gm, wm)
	}
	return nil
}

func init() {
	checks["D01"] = func(r *vk.Run) {
		r.Rule = "every sequence (order and duplicates included) of up to 3 VRPs over nested/sibling/boundary prefixes x max lengths x AS numbers, every route of the same universe, in both families and for addresses held in 4 and 16 bytes; all interleavings of two concurrent queries at every callback into the VRPs and routes; repeated queries"
		type universe struct {
			name   string
			vrps   []*vrp
			routes []*route
		}
		mk := func(name string, pf []string, extra []*net.IPNet, lens func(bits, size int) []int, rts []string, rextra []*net.IPNet) universe {
			u := universe{name: name}
			var nets []*net.IPNet
			for _, p := range pf {
				nets = append(nets, mkNet(p))
			}
			nets = append(nets, extra...)
			for _, n := range nets {
				ones, size := n.Mask.Size()
				for _, l := range lens(ones, size) {
					for _, a := range []uint32{1, 4294967295, 0} {
						u.vrps = append(u.vrps, &vrp{n: n, max: l, asn: a})
					}
				}
			}
			var rn []*net.IPNet
			for _, p := range rts {
				rn = append(rn, mkNet(p))
			}
			rn = append(rn, rextra...)
			for _, n := range rn {
				for _, a := range []uint32{1, 4294967295, 0} {
					u.routes = append(u.routes, &route{n: n, asn: a})
				}
			}
			for _, n := range append(append([]*net.IPNet(nil), nets...), rn...) {
				k, b := famBits(n)
				famCache[n] = fam{k, b}
			}
			return u
		}
		two := func(bits, size int) []int {
			l := []int{bits}
			if bits < size {
				l = append(l, size)
			}
			return l
		}
		three := func(bits, size int) []int {
			l := two(bits, size)
			if bits+1 < size {
				l = append(l, bits+1)
			}
			return l
		}
		wide := func(s string) *net.IPNet {
			n := mkNet(s)
			return &net.IPNet{IP: n.IP.To16(), Mask: n.Mask}
		}
		host := func(s string) *net.IPNet {
			ip, n, _ := net.ParseCIDR(s)
			if len(n.Mask) == 4 {
				ip = ip.To4()
			}
			return &net.IPNet{IP: ip, Mask: n.Mask}
		}
		v4 := mk("v4", []string{"0.0.0.0/0", "10.0.0.0/8", "10.128.0.0/9", "10.0.0.0/9", "10.0.0.0/32", "10.0.0.0/24"}, nil, two,
			[]string{"0.0.0.0/0", "10.0.0.0/8", "10.0.0.0/9", "10.128.0.0/9", "10.0.0.0/24", "10.0.0.0/32", "10.0.0.1/32", "11.0.0.0/8", "255.255.255.255/32"}, []*net.IPNet{host("10.0.0.9/24"), wide("10.0.0.0/24")})
		v6 := mk("v6", []string{"::/0", "2001:db8::/32", "2001:db8:8000::/33", "2001:db8::/64", "2001:db8::/128"}, nil, two,
			[]string{"::/0", "2001:db8::/32", "2001:db8::/33", "2001:db8:8000::/33", "2001:db8::/64", "2001:db8::/65", "2001:db8::/128", "2001:db8::1/128", "2001:db9::/32"}, []*net.IPNet{host("2001:db8::9/64")})
		mix := mk("mixed", []string{"0.0.0.0/0", "::/0", "10.0.0.0/8", "a00::/8", "a00::/16"}, []*net.IPNet{wide("10.0.0.0/8")}, two,
			[]string{"0.0.0.0/0", "10.0.0.0/8", "10.1.0.0/16", "::/0", "a00::/8", "a00::/16"}, []*net.IPNet{wide("10.1.0.0/16")})
		us := []universe{v4, v6, mix}
		if r.Thorough() {
			us = append(us, mk("v4deep", []string{"0.0.0.0/0", "128.0.0.0/1", "192.0.0.0/2", "192.0.0.0/24", "192.0.1.0/24", "192.0.0.0/23", "192.0.0.0/31", "192.0.0.1/32"}, nil, three,
				[]string{"0.0.0.0/0", "128.0.0.0/1", "192.0.0.0/2", "192.0.0.0/3", "192.0.0.0/23", "192.0.0.0/24", "192.0.1.0/24", "192.0.1.128/25", "192.0.0.0/31", "192.0.0.1/32", "192.0.0.0/32", "127.0.0.0/8"}, nil))
		}
		for _, u := range us {
			u := u
			n := len(u.vrps)
			r.Note("vrps:"+u.name, n)
			r.Parallel(n+1, func(i int) {
				one := func(ids []int) {
					id := fmt.Sprintf("%s/%v", u.name, ids)
					if r.Skip(id) {
						return
					}
					var vs []*vrp
					for k, x := range ids {
						c := *u.vrps[x]
						c.id = k
						vs = append(vs, &c)
					}
					r.Check(id, func() *vk.Fail {
						o := ov.NewOV(asOV(vs))
						for _, rt := range u.routes {
							got, st, err := o.Validate(rt)
							if x := compareOV(vs, rt, got, st, err); x != nil {
								return x
							}
						}
						return nil
					})
					r.Trans(len(u.routes))
				}
				if i == n {
					one(nil)
					r.State(u.name + " empty")
					return
				}
				one([]int{i})
				for j := 0; j < n; j++ {
					one([]int{i, j})
					r.State(fmt.Sprintf("%s %d %d", u.name, i, j))
					for k := 0; k < n; k++ {
						if !r.Thorough() && u.vrps[k].asn == 4294967295 && k != i && k != j {
							continue
						}
						one([]int{i, j, k})
					}
				}
			})
		}
		// earlier queries: any two queries before, same answer
		u := v4
		var sets [][]*vrp
		for i := 0; i < len(u.vrps); i += 2 {
			for j := 0; j < len(u.vrps); j += 3 {
				a, b := *u.vrps[i], *u.vrps[j]
				a.id, b.id = 0, 1
				sets = append(sets, []*vrp{&a, &b})
			}
		}
		r.Parallel(len(sets), func(i int) {
			vs := sets[i]
			o := ov.NewOV(asOV(vs))
			for _, a := range u.routes {
				for _, b := range u.routes {
					r.Check(fmt.Sprintf("history/%d/%v/%v", i, a, b), func() *vk.Fail {
						o.Validate(a)
						got, st, err := o.Validate(b)
						return compareOV(vs, b, got, st, err)
					})
				}
			}
		})
		// two concurrent queries: query 2 runs to completion or up to its own
		// k-th callback at the l-th callback of query 1, then 1 finishes, then 2
		nsched := int64(0)
		r.Parallel(len(sets), func(i int) {
			if i%3 != 0 && !r.Thorough() {
				return
			}
			for ai := 0; ai < len(u.routes); ai += 2 {
				for bi := 1; bi < len(u.routes); bi += 3 {
					for l := 0; ; l++ {
						more := false
						for k := 0; ; k++ {
							id := fmt.Sprintf("concurrent/%d/%d/%d/%d/%d", i, ai, bi, l, k)
							if r.Skip(id) {
								more = l < 12
								if k > 12 {
									break
								}
								continue
							}
							var r1, r2 bool
							r.Check(id, func() *vk.Fail {
								var x *vk.Fail
								x, r1, r2 = concurrentOV(sets[i], u.routes[ai], u.routes[bi], l, k)
								return x
							})
							r.Traces(1)
							nsched++
							more = more || r1
							if !r2 || !r1 {
								break
							}
						}
						if !more {
							break
						}
					}
				}
			}
		})
	}
}

// concurrentOV preempts the first query at its l-th callback, then the
// second at its k-th; it tells whether these callbacks were reached.
func concurrentOV(base []*vrp, ra, rb *route, l, k int) (*vk.Fail, bool, bool) {
	var vs []*vrp
	for _, v := range base {
		c := *v
		vs = append(vs, &c)
	}
	cur, n1, n2 := 1, 0, 0
	reach1, reach2 := false, false
	to2, to1, done2 := make(chan bool), make(chan bool), make(chan bool)
	first := func() {
		if n1 == l {
			n1++
			reach1 = true
			cur = 2
			to2 <- true
			<-to1
			cur = 1
			return
		}
		n1++
	}
	second := func() {
		if n2 == k {
			n2++
			reach2 = true
			to1 <- true
			<-to2
			cur = 2
			return
		}
		n2++
	}
	point := func() {
		if cur == 1 {
			first()
		} else {
			second()
		}
	}
	for _, v := range vs {
		v.cb = nil
	}
	o := ov.NewOV(asOV(vs))
	for _, v := range vs {
		v.cb = point
	}
	a, b := *ra, *rb
	a.cb, b.cb = point, point
	var g2 []ov.AbstractROA
	var s2 int
	var e2 error
	started := false
	go func() {
		<-to2
		started = true
		g2, s2, e2 = o.Validate(&b)
		if !reach2 {
			to1 <- true
		}
		done2 <- true
	}()
	g1, s1, e1 := o.Validate(&a)
	if !started {
		cur = 2
		n2 = k + 1
		reach2 = true
		to2 <- true
		reach2 = true
		<-done2
		reach2 = false
	} else if reach2 {
		cur = 2
		to2 <- true
		<-done2
	} else {
		<-done2
	}
	a.cb, b.cb = nil, nil
	for _, v := range vs {
		v.cb = nil
	}
	fa := *ra
	if x := compareOV(vs, &fa, g1, s1, e1); x != nil {
		return x, reach1, reach2
	}
	return compareOV(vs, rb, g2, s2, e2), reach1, reach2
}
