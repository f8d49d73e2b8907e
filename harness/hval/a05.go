package main

import (
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	w "github.com/cloudflare/cfrpki/zzverif/world"
)

// roaBodies are payload shapes; every one is legal.
var roaBodies = []struct {
	name string
	asn  int64
	e    []w.Entry
}{
	{"v4", 7, []w.Entry{w.E("10.1.0.0/16", -1)}},
	{"v4max", 4294967295, []w.Entry{w.E("10.1.0.0/16", 32)}},
	{"v4eq", 0, []w.Entry{w.E("10.1.0.0/16", 16)}},
	{"v6", 1, []w.Entry{w.E("2001:db8::/32", -1)}},
	{"v6max", 2147483648, []w.Entry{w.E("2001:db8::/48", 128)}},
	{"host", 23456, []w.Entry{w.E("10.255.255.255/32", -1), w.E("2001:db8::1/128", 128)}},
	{"mixed", 65535, []w.Entry{w.E("10.0.0.0/8", 9), w.E("172.16.0.0/12", -1), w.E("2001:db8::/33", 34)}},
	{"dup", 65536, []w.Entry{w.E("10.1.0.0/16", 24), w.E("10.1.0.0/16", 24), w.E("10.1.0.0/16", -1), w.E("10.1.2.0/23", 24)}},
	{"odd", 2, []w.Entry{w.E("10.1.2.0/23", -1), w.E("10.128.0.0/9", 31), w.E("2001:db8:8000::/33", 127)}},
}

// treeWorld builds the CA tree given by a parent vector (node 0 is the TA).
func treeWorld(name, host string, b *w.Builder, parents []int, bodies func(i int) []int) *w.World {
	t := b.TA(name, host, full)
	cas := []*w.CA{t.TA}
	for i, p := range parents {
		res := full
		if i%2 == 1 {
			res = w.Res{V4Inh: true, V6Inh: true, ASInh: true}
		}
		cas = append(cas, b.Kid(cas[p], fmt.Sprintf("%sc%d", name, i+1), host, res))
	}
	for i, c := range cas {
		for j, k := range bodies(i) {
			b.ROA(c, fmt.Sprintf("%sr%d-%d", name, i, j), roaBodies[k].asn, roaBodies[k].e...)
		}
	}
	return t
}

func parentVectors(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, v := range parentVectors(n - 1) {
		for p := 0; p < n; p++ {
			out = append(out, append(append([]int(nil), v...), p))
		}
	}
	return out
}

func init() {
	checks["A05"] = func(r *vk.Run) {
		r.Rule = "healthy worlds: every tree shape up to 5 CAs, every manifest order of small publication points, every legal ROA payload shape, boundary dates, unknown file types, one or two trust anchors; each is validated twice and has to be valid in full"
		sp := &spec{complete: true, sound: has("unknown", "extra")}
		type job struct {
			id    string
			build func() []*w.World
			o     w.Opts
		}
		var jobs []job
		add := func(id string, o w.Opts, f func() []*w.World) { jobs = append(jobs, job{id + " " + optName(o), f, o}) }
		maxN := 4
		if r.Thorough() {
			maxN = 5
		}
		for n := 0; n <= maxN; n++ {
			for pi, pv := range parentVectors(n) {
				for ord := 0; ord < 4; ord++ {
					for _, o := range optsAll {
						pv, ord, o := pv, ord, o
						add(fmt.Sprintf("tree n=%d #%d order=%d", n, pi, ord), o, func() []*w.World {
							b := w.NewBuilder()
							x := treeWorld("t", "t.example", b, pv, func(i int) []int { return []int{(i + ord) % len(roaBodies)} })
							x.Walk(func(c *w.CA) { c.Order = orderOf(c, ord) })
							return []*w.World{x}
						})
					}
				}
			}
		}
		// every order of the TA's and of one CA's manifest
		base := s3.Build()
		pt := perms(orderOf(base.Find("ta"), 0))
		pa := perms(orderOf(base.Find("A"), 0))
		for i := range pt {
			for j := range pa {
				i, j := i, j
				add(fmt.Sprintf("orders %d %d", i, j), optsAll[0], func() []*w.World {
					x := s3.Build()
					x.Find("ta").Order, x.Find("A").Order = pt[i], pa[j]
					return []*w.World{x}
				})
			}
		}
		// every pair of ROA payloads at TA and CA, also in one publication point
		for i := range roaBodies {
			for j := range roaBodies {
				for _, o := range optsAll {
					i, j := i, j
					add(fmt.Sprintf("bodies %s %s", roaBodies[i].name, roaBodies[j].name), o, func() []*w.World {
						return []*w.World{treeWorld("t", "t.example", w.NewBuilder(), []int{0}, func(k int) []int {
							if k == 0 {
								return []int{i}
							}
							return []int{j, i}
						})}
					})
				}
			}
		}
		// boundary dates, each object kind, alone and together
		for m := 0; m < 16; m++ {
			for _, o := range optsAll {
				m := m
				add(fmt.Sprintf("dates %04b", m), o, func() []*w.World {
					b := w.NewBuilder()
					if m&1 != 0 {
						b.NB = w.T0
					}
					if m&2 != 0 {
						b.NA = w.T0
					}
					if m&4 != 0 {
						b.MT = w.T0
					}
					if m&8 != 0 {
						b.MN = w.T0
					}
					return []*w.World{treeWorld("t", "t.example", b, []int{0, 1}, func(k int) []int { return []int{k} })}
				})
			}
		}
		// far dates (UTCTime / GeneralizedTime)
		for _, na := range []time.Time{time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)} {
			na := na
			add("until "+na.String(), optsAll[0], func() []*w.World {
				b := w.NewBuilder()
				b.NA, b.MN = na, na
				b.NB = time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC)
				return []*w.World{treeWorld("t", "t.example", b, []int{0, 1}, func(k int) []int { return []int{k} })}
			})
		}
		// resources given as ranges and unusual but legal blocks
		for i, res := range []w.Res{
			{V4: []w.Rng{w.RR("10.0.0.0", "10.255.255.255"), w.RR("172.16.0.0", "172.31.255.255")}, V6: []w.Rng{w.RR("2001:db8::", "2001:db8:ffff:ffff:ffff:ffff:ffff:ffff")}, AS: []w.ARng{{Lo: 0, Hi: 4294967295}}},
			{V4: []w.Rng{w.RR("9.255.255.255", "11.0.0.0"), w.RR("172.0.0.0", "172.255.255.254")}, V6: []w.Rng{w.RR("2001:db7:ffff:ffff:ffff:ffff:ffff:ffff", "2001:db9::")}},
			{V4: []w.Rng{w.RR("0.0.0.0", "255.255.255.255")}, V6: []w.Rng{w.PR("::/0")}},
			{V4: []w.Rng{w.PR("0.0.0.0/0")}, V6: []w.Rng{w.RR("::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff")}, AS: []w.ARng{{Lo: 5, Hi: 5, Range: true}}},
			{V4: []w.Rng{w.RR("10.0.0.0", "223.255.255.255")}, V6: []w.Rng{w.RR("2001::", "3fff:ffff:ffff:ffff:ffff:ffff:ffff:ffff")}},
		} {
			for k := range roaBodies {
				res, k := res, k
				add(fmt.Sprintf("ranges %d %s", i, roaBodies[k].name), optsAll[0], func() []*w.World {
					x := treeWorld("t", "t.example", w.NewBuilder(), []int{0, 1}, func(int) []int { return []int{k} })
					x.Walk(func(c *w.CA) {
						if c == x.TA {
							c.Cert.Res = res
						} else {
							c.Cert.Res = w.Res{V4Inh: true, V6Inh: true, ASInh: len(res.AS) > 0}
						}
						c.MftEE.Res = w.Res{V4Inh: true, V6Inh: true}
					})
					return []*w.World{x}
				})
			}
		}
		// two trust anchors in one run
		for i, p1 := range parentVectors(2) {
			for j, p2 := range parentVectors(2) {
				for _, o := range optsAll {
					p1, p2 := p1, p2
					add(fmt.Sprintf("two TAs %d %d", i, j), o, func() []*w.World {
						b := w.NewBuilder()
						return []*w.World{treeWorld("t", "t.example", b, p1, func(k int) []int { return []int{k} }),
							treeWorld("u", "u.example", b, p2, func(k int) []int { return []int{k + 1} })}
					})
				}
			}
		}
		// unknown file types, big serial numbers, wide publication point
		for i, n := range []string{"x.gbr", "x.asa", "x", "cer", ".cer2", "x.CER.bak", "sub.tak"} {
			n := n
			add(fmt.Sprintf("unknown-type %d", i), optsAll[0], func() []*w.World {
				x := s3.Build()
				x.Walk(func(c *w.CA) { c.Extra[n] = w.Seq(w.Int(5)) })
				return []*w.World{x}
			})
		}
		for _, s := range []Shape{s1, s2, s3, s4, s5} {
			for _, nm := range namings {
				s, nm := s, nm
				add("names "+s.Name+" "+nm.n, optsAll[0], func() []*w.World { return []*w.World{rename(s.Build(), nm.f)} })
			}
		}
		add("wide", optsAll[0], func() []*w.World {
			b := w.NewBuilder()
			t := b.TA("ta", "ta.example", full)
			for i := 0; i < 22; i++ {
				b.ROA(t.TA, fmt.Sprintf("r%d", i), int64(i), w.E(fmt.Sprintf("10.%d.0.0/16", i), 24))
			}
			return []*w.World{t}
		})
		for _, n := range []int{1, 11, 12} {
			n := n
			add(fmt.Sprintf("deep %d", n), optsAll[0], func() []*w.World {
				b := w.NewBuilder()
				pv := make([]int, n-1)
				for i := range pv {
					pv[i] = i
				}
				return []*w.World{treeWorld("t", "t.example", b, pv, func(i int) []int {
					if i == n-1 {
						return []int{6}
					}
					return nil
				})}
			})
		}
		r.Note("worlds", len(jobs))
		r.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			if r.Skip(j.id) {
				return
			}
			if i%499 == 0 {
				r.Sample(j.id)
			}
			ws := j.build()
			e := &w.Expect{Cert: map[string]w.Verdict{}, Roa: map[string]w.Verdict{}, Mft: map[string]w.Verdict{}, Why: map[string]string{}, VRPs: map[string][]string{}, Must: map[string][]string{}}
			files := map[string][]byte{}
			tals := map[string][]byte{}
			n := 0
			for k, x := range ws {
				x.EvalInto(j.o, e)
				x.AddFiles(files)
				tals[fmt.Sprintf("/tal%d", k)] = x.TALBytes()
			}
			r.State(j.id)
			r.Check(j.id, func() *vk.Fail {
				prev := ""
				for k := 0; k < 2; k++ {
					res := w.RunSeeker(&w.Seeker{Files: files, TALs: tals, Requests: map[string]int{}, MaxSteps: 20000}, j.o)
					r.Trans(res.Steps)
					r.Traces(1)
					n = 0
					for _, m := range []map[string]w.Verdict{e.Cert, e.Roa, e.Mft} {
						for u, v := range m {
							if v != w.MustValid {
								return vk.Failf("harness", "healthy world has %s %s", u, v)
							}
							n++
						}
					}
					if f := judge(e, res, sp); f != nil {
						return f
					}
					s := res.Summary()
					r.Outcome(s)
					if k == 1 && s != prev {
						return vk.Failf("nondeterministic", "second validation differs:\n%s\n--\n%s", prev, s)
					}
					prev = s
				}
				return nil
			})
		})
	}
}

// orderOf gives one of four listing orders of a CA's files.
func orderOf(c *w.CA, k int) []string {
	var l []string
	for n := range c.Products() {
		l = append(l, n)
	}
	sort.Strings(l)
	switch k {
	case 1:
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	case 2:
		l = append(l[len(l)/2:], l[:len(l)/2]...)
	case 3:
		sort.Slice(l, func(i, j int) bool { return l[i][len(l[i])-3:]+l[i] > l[j][len(l[j])-3:]+l[j] })
	}
	return l
}

var _ = big.NewInt
