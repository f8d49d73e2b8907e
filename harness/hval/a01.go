package main

import (
	"fmt"
	"net/netip"
	"strings"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	w "github.com/cloudflare/cfrpki/zzverif/world"
)

type opt struct {
	name string
	set  func(r *w.Res)
}

func v4(l ...w.Rng) func(r *w.Res) { return func(r *w.Res) { r.V4 = append(r.V4, l...) } }
func v6(l ...w.Rng) func(r *w.Res) { return func(r *w.Res) { r.V6 = append(r.V6, l...) } }
func as(l ...w.ARng) func(r *w.Res) {
	return func(r *w.Res) { r.AS = append(r.AS, l...) }
}

var v4opts = []opt{
	{"/16", v4(w.PR("10.1.0.0/16"))},
	{"inh", func(r *w.Res) { r.V4Inh = true }},
	{"/24", v4(w.PR("10.1.1.0/24"))},
	{"none", func(r *w.Res) {}},
	{"range", v4(w.RR("10.1.1.0", "10.1.3.255"))},
	{"range+1", v4(w.RR("10.1.0.255", "10.1.2.0"))},
	{"out", v4(w.PR("192.0.2.0/24"))},
	{"two", v4(w.PR("10.1.1.0/24"), w.PR("192.0.2.0/24"))},
	{"/0", v4(w.PR("0.0.0.0/0"))},
}
var v6opts = []opt{
	{"/32", v6(w.PR("2001:db8::/32"))},
	{"inh", func(r *w.Res) { r.V6Inh = true }},
	{"/48", v6(w.PR("2001:db8:1::/48"))},
	{"none", func(r *w.Res) {}},
	{"range", v6(w.RR("2001:db8:1::", "2001:db8:3:ffff:ffff:ffff:ffff:ffff"))},
	{"range+1", v6(w.RR("2001:db8:0:ffff::", "2001:db8:2::"))},
	{"out", v6(w.PR("2001:db9::/32"))},
	{"two", v6(w.PR("2001:db8:1::/48"), w.PR("2001:db9::/48"))},
	{"/0", v6(w.PR("::/0"))},
}
var asopts = []opt{
	{"100-200", as(w.ARng{Lo: 100, Hi: 200})},
	{"inh", func(r *w.Res) { r.ASInh = true }},
	{"150", as(w.ARng{Lo: 150, Hi: 150})},
	{"none", func(r *w.Res) {}},
	{"150-160", as(w.ARng{Lo: 150, Hi: 160})},
	{"99-150", as(w.ARng{Lo: 99, Hi: 150})},
	{"200-201", as(w.ARng{Lo: 200, Hi: 201})},
	{"150,900", as(w.ARng{Lo: 150, Hi: 150}, w.ARng{Lo: 900, Hi: 900})},
	{"0-4294967295", as(w.ARng{Lo: 0, Hi: 4294967295})},
}
var mixopts = []opt{
	{"4+6", func(r *w.Res) { v4(w.PR("10.1.0.0/16"))(r); v6(w.PR("2001:db8::/32"))(r) }},
	{"inh4", func(r *w.Res) { r.V4Inh = true }},
	{"inh6", func(r *w.Res) { r.V6Inh = true }},
	{"inh4+inh6", func(r *w.Res) { r.V4Inh = true; r.V6Inh = true }},
	{"inh4+6", func(r *w.Res) { r.V4Inh = true; v6(w.PR("2001:db8:1::/48"))(r) }},
	{"4+inh6", func(r *w.Res) { r.V6Inh = true; v4(w.PR("10.1.1.0/24"))(r) }},
	{"mapped", v6(w.PR("::ffff:10.1.0.0/112"))},
	{"4", v4(w.PR("10.1.1.0/24"))},
	{"6", v6(w.PR("2001:db8:1::/48"))},
}

func pick(o []opt, names ...string) []opt {
	var out []opt
	for _, n := range names {
		for _, x := range o {
			if x.name == n {
				out = append(out, x)
			}
		}
	}
	return out
}

// chainWorld: TA -> c1 -> ... -> cn, a ROA under the last CA.
func chainWorld(sel []opt, bystander bool) *w.World {
	b := w.NewBuilder()
	res := func(o opt) w.Res { var r w.Res; o.set(&r); return r }
	t := b.TA("ta", "h.example", res(sel[0]))
	c := t.TA
	for i := 1; i < len(sel)-1; i++ {
		c = b.Kid(c, fmt.Sprintf("c%d", i), "h.example", res(sel[i]))
	}
	r := b.ROA(c, "r", 64501, w.E("10.1.1.0/24", 25), w.E("10.1.0.0/16", -1), w.E("2001:db8:1::/48", 50), w.E("192.0.2.0/24", -1), w.E("2001:db8::/32", -1))
	r.EE.Res = res(sel[len(sel)-1])
	return t
}

func init() {
	checks["A01"] = func(r *vk.Run) {
		r.Rule = "every assignment of a resource option to each certificate of a chain trust anchor..CAs..ROA certificate (per family and mixed), each a distinct world; plus all 1- and 2-deviation worlds with over-claims"
		sp := &spec{complete: true, sound: has("over-claims", "extra", "unknown")}
		o := w.DefaultOpts()
		type job struct {
			id  string
			sel []opt
		}
		var jobs []job
		gen := func(fam string, opts []opt, n int) {
			idx := make([]int, n)
			for {
				sel := make([]opt, n)
				var l []string
				for i, k := range idx {
					sel[i] = opts[k]
					l = append(l, opts[k].name)
				}
				jobs = append(jobs, job{fam + ":" + strings.Join(l, ">"), sel})
				i := 0
				for ; i < n; i++ {
					idx[i]++
					if idx[i] < len(opts) {
						break
					}
					idx[i] = 0
				}
				if i == n {
					return
				}
			}
		}
		fams := []struct {
			n string
			o []opt
			r []string // reduced set for deep chains
		}{{"v4", v4opts, []string{"/16", "inh", "/24", "out", "none"}}, {"v6", v6opts, []string{"/32", "inh", "/48", "out", "none"}},
			{"as", asopts, []string{"100-200", "inh", "150", "99-150", "none"}}, {"mix", mixopts, []string{"4+6", "inh4", "inh4+inh6", "inh4+6", "4+inh6"}}}
		for _, f := range fams {
			for n := 2; n <= 4; n++ {
				gen(f.n, f.o, n)
			}
			gen(f.n+"-deep", pick(f.o, f.r...), 5)
			gen(f.n+"-deeper", pick(f.o, f.r[:3]...), 6)
			gen(f.n+"-deepest", pick(f.o, f.r[:2]...), 8)
			if r.Thorough() {
				gen(f.n, f.o, 5)
				gen(f.n+"-deeper", pick(f.o, f.r...), 6)
				gen(f.n+"-deepest", pick(f.o, f.r[:3]...), 8)
			}
		}
		r.Note("chains", len(jobs))
		r.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			if i%5003 == 0 {
				r.Sample(j.id)
			}
			runWorld(r, j.id, func() *w.World { return chainWorld(j.sel, false) }, o, sp)
		})
		holes(r, o, sp)
		explore(r, &spec{class: map[string]bool{"a01": true}, shapes: []Shape{s1, s4}, opts: optsAll[:1], complete: true, sound: has("over-claims", "extra", "unknown")})
	}
}

// holes: a CA holds any subset of four adjacent blocks (one resource entry
// per block, or merged), listed in either order; the certificate below claims
// any run of blocks, exactly or cut short by one address at either end.
func holes(r *vk.Run, o w.Opts, sp *spec) {
	type fam struct {
		name string
		at   func(lo, hi, cutlo, cuthi int) func(r *w.Res)
		all  w.Res
		ent  w.Entry
	}
	a4 := func(b int) netip.Addr { return netip.AddrFrom4([4]byte{10, byte(b), 0, 0}) }
	a6 := func(b int) netip.Addr {
		x := netip.MustParseAddr("2001:db8::").As16()
		x[5] = byte(b)
		return netip.AddrFrom16(x)
	}
	ip := func(addr func(int) netip.Addr, lo, hi, cutlo, cuthi int) w.Rng {
		l, h := addr(lo), addr(hi).Prev()
		if cutlo > 0 {
			l = l.Next()
		}
		if cuthi > 0 {
			h = h.Prev()
		}
		return w.Rng{Lo: l, Hi: h}
	}
	fams := []fam{
		{"v4", func(lo, hi, cl, ch int) func(r *w.Res) { return v4(ip(a4, lo, hi, cl, ch)) }, w.Res{V4: []w.Rng{w.PR("10.0.0.0/8")}, AS: []w.ARng{{Lo: 1, Hi: 9}}}, w.E("10.1.0.0/24", -1)},
		{"v6", func(lo, hi, cl, ch int) func(r *w.Res) { return v6(ip(a6, lo, hi, cl, ch)) }, w.Res{V6: []w.Rng{w.PR("2001:db8::/32")}, AS: []w.ARng{{Lo: 1, Hi: 9}}}, w.E("2001:db8:1::/56", -1)},
		{"as", func(lo, hi, cl, ch int) func(r *w.Res) {
			return as(w.ARng{Lo: int64(100*lo + cl), Hi: int64(100*hi - 1 - ch)})
		}, w.Res{V4: []w.Rng{w.PR("10.0.0.0/8")}, AS: []w.ARng{{Lo: 0, Hi: 1000}}}, w.E("10.1.0.0/24", -1)},
	}
	type job struct {
		f           fam
		set, lo, hi int
		cut         int
		merged, rev bool
		deep        bool
	}
	var jobs []job
	for _, f := range fams {
		for set := 1; set < 16; set++ {
			for lo := 0; lo < 4; lo++ {
				for hi := lo + 1; hi <= 4; hi++ {
					for cut := 0; cut < 4; cut++ {
						for k := 0; k < 8; k++ {
							jobs = append(jobs, job{f, set, lo, hi, cut, k&1 == 1, k&2 == 2, k&4 == 4})
						}
					}
				}
			}
		}
	}
	r.Note("holes", len(jobs))
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		id := fmt.Sprintf("holes/%s/held=%04b/claim=%d-%d/cut=%d/merged=%v/rev=%v/deep=%v", j.f.name, j.set, j.lo, j.hi, j.cut, j.merged, j.rev, j.deep)
		if i%1999 == 0 {
			r.Sample(id)
		}
		runWorld(r, id, func() *w.World {
			b := w.NewBuilder()
			t := b.TA("ta", "h.example", j.f.all)
			var res w.Res
			for k := 0; k < 4; k++ {
				if j.set>>k&1 == 0 {
					continue
				}
				e := k + 1
				for j.merged && e < 4 && j.set>>e&1 == 1 {
					e++
				}
				j.f.at(k, e, 0, 0)(&res)
				k = e - 1
			}
			if j.rev {
				for a, z := 0, len(res.V4)-1; a < z; a, z = a+1, z-1 {
					res.V4[a], res.V4[z] = res.V4[z], res.V4[a]
				}
				for a, z := 0, len(res.V6)-1; a < z; a, z = a+1, z-1 {
					res.V6[a], res.V6[z] = res.V6[z], res.V6[a]
				}
				for a, z := 0, len(res.AS)-1; a < z; a, z = a+1, z-1 {
					res.AS[a], res.AS[z] = res.AS[z], res.AS[a]
				}
			}
			if res.V4 == nil && j.f.ent.Fam == 1 {
				res.V4 = j.f.all.V4
			}
			c := b.Kid(t.TA, "c1", "h.example", res)
			if j.deep {
				var m w.Res
				j.f.at(j.lo, j.hi, j.cut&1, j.cut>>1)(&m)
				if m.V4 == nil && j.f.ent.Fam == 1 {
					m.V4 = j.f.all.V4
				}
				c = b.Kid(c, "c2", "h.example", m)
			}
			ro := b.ROA(c, "r", 5, j.f.ent)
			if !j.deep {
				var m w.Res
				j.f.at(j.lo, j.hi, j.cut&1, j.cut>>1)(&m)
				ro.EE.Res = m
			}
			return t
		}, o, sp)
	})
}
