package main

import (
	"fmt"
	"strings"
	"time"

	w "github.com/cloudflare/cfrpki/zzverif/world"
)

// A Shape builds a fresh, healthy world.
type Shape struct {
	Name  string
	Build func() *w.World
}

var full = w.Res{V4: []w.Rng{w.PR("10.0.0.0/8"), w.PR("172.16.0.0/12")}, V6: []w.Rng{w.PR("2001:db8::/32")}, AS: []w.ARng{{Lo: 1, Hi: 1000}}}

func sub(i int) w.Res {
	return w.Res{V4: []w.Rng{w.PR(fmt.Sprintf("10.%d.0.0/13", 8*i))}, V6: []w.Rng{w.PR(fmt.Sprintf("2001:db8:%x000::/36", i))}, AS: []w.ARng{{Lo: int64(100 * i), Hi: int64(100*i + 50)}}}
}
func roaFor(b *w.Builder, c *w.CA, name string, i int) *w.ROA {
	return b.ROA(c, name, int64(100*i+7), w.E(fmt.Sprintf("10.%d.0.0/16", 8*i), 24), w.E(fmt.Sprintf("10.%d.0.0/17", 8*i+1), -1), w.E(fmt.Sprintf("2001:db8:%x000::/40", i), 48))
}

var s1 = Shape{"S1", func() *w.World {
	b := w.NewBuilder()
	t := b.TA("ta", "ta.example", full)
	a := b.Kid(t.TA, "A", "a.example", sub(1))
	roaFor(b, t.TA, "rt", 0)
	roaFor(b, a, "ra", 1)
	b.ROA(a, "ra2", 64500, w.E("10.9.1.0/24", -1))
	return t
}}
var s2 = Shape{"S2", func() *w.World {
	b := w.NewBuilder()
	t := b.TA("ta", "ta.example", full)
	a := b.Kid(t.TA, "A", "a.example", sub(1))
	bb := b.Kid(a, "B", "b.example", sub(1))
	c := b.Kid(bb, "C", "c.example", sub(1))
	roaFor(b, t.TA, "rt", 0)
	roaFor(b, a, "ra", 1)
	roaFor(b, bb, "rb", 1)
	roaFor(b, c, "rc", 1)
	return t
}}
var s3 = Shape{"S3", func() *w.World {
	b := w.NewBuilder()
	t := b.TA("ta", "ta.example", full)
	a := b.Kid(t.TA, "A", "a.example", sub(1))
	bb := b.Kid(t.TA, "B", "b.example", sub(2))
	c := b.Kid(a, "C", "c.example", sub(1))
	roaFor(b, t.TA, "rt", 0)
	roaFor(b, a, "ra", 1)
	roaFor(b, bb, "rb", 2)
	roaFor(b, c, "rc", 1)
	return t
}}

var s5 = Shape{"S5", func() *w.World {
	b := w.NewBuilder()
	t := b.TA("ta", "ta.example", full)
	a := b.Kid(t.TA, "A", "a.example", sub(1))
	bb := b.Kid(t.TA, "B", "b.example", sub(2))
	c := b.Kid(a, "C", "c.example", sub(1))
	d := b.Kid(bb, "D", "d.example", sub(2))
	roaFor(b, a, "ra", 1)
	roaFor(b, bb, "rb", 2)
	roaFor(b, c, "rc", 1)
	roaFor(b, d, "rd", 2)
	return t
}}

// S4: every intermediate CA inherits everything.
var s4 = Shape{"S4", func() *w.World {
	b := w.NewBuilder()
	inh := w.Res{V4Inh: true, V6Inh: true, ASInh: true}
	t := b.TA("ta", "ta.example", full)
	a := b.Kid(t.TA, "A", "a.example", inh)
	bb := b.Kid(a, "B", "b.example", inh)
	c := b.Kid(bb, "C", "c.example", sub(3))
	roaFor(b, a, "ra", 1)
	roaFor(b, bb, "rb", 2)
	roaFor(b, c, "rc", 3)
	return t
}}

// A Dev is one deviation from the healthy world. It returns false if it
// does not apply to this shape.
type Dev struct {
	Name  string
	Class string   // a01..a04
	Node  *nodeRef // CA whose behaviour deviates
	Apply func(x *w.World)
}
type nodeRef struct{ ca string }

const day = 24 * time.Hour

// Menu lists all single deviations for a shape.
func Menu(s Shape) []Dev {
	var out []Dev
	base := s.Build()
	add := func(class, ca, n string, f func(x *w.World)) {
		out = append(out, Dev{Name: n, Class: class, Node: &nodeRef{ca}, Apply: f})
	}
	var names []string
	roas := map[string][]string{}
	kids := map[string][]string{}
	parent := map[string]string{}
	base.Walk(func(c *w.CA) {
		names = append(names, c.Cert.Name)
		for _, r := range c.Roas {
			roas[c.Cert.Name] = append(roas[c.Cert.Name], r.File)
		}
		for _, k := range c.Kids {
			kids[c.Cert.Name] = append(kids[c.Cert.Name], k.Cert.Name)
			parent[k.Cert.Name] = c.Cert.Name
		}
	})
	other := func(c *w.CA) *w.Key { return w.K(24) } // a key nobody owns
	// certificate faults, shared between CA, manifest EE and ROA EE
	certDevs := func(ca, owner, label string, get func(x *w.World) *w.Cert, isTA bool) {
		c := func(class, n string, f func(x *w.World, c *w.Cert)) {
			add(class, owner, label+":"+n, func(x *w.World) { f(x, get(x)) })
		}
		c("a02", "expired", func(x *w.World, c *w.Cert) { c.NA = w.T0.Add(-time.Second) })
		c("a02", "not-yet", func(x *w.World, c *w.Cert) { c.NB = w.T0.Add(time.Second) })
		c("a02", "expired-long", func(x *w.World, c *w.Cert) { c.NA = w.T0.Add(-20 * day) })
		c("a02", "ends-now", func(x *w.World, c *w.Cert) { c.NA = w.T0 })
		c("a02", "begins-now", func(x *w.World, c *w.Cert) { c.NB = w.T0 })
		c("a02", "corrupt-sig", func(x *w.World, c *w.Cert) { c.CorruptSig = true })
		c("a02", "other-key", func(x *w.World, c *w.Cert) { c.SignKey = other(nil) })
		if isTA {
			return
		}
		c("a02", "aki-other", func(x *w.World, c *w.Cert) { c.AKI = w.K(24).SKI })
		c("a02", "aki-none", func(x *w.World, c *w.Cert) { c.OmitAKI = true })
		c("a02", "self-signed", func(x *w.World, c *w.Cert) { c.SignKey = c.Key })
		// signed by another CA of the tree, with and without matching AKI
		for _, o := range names {
			o := o
			if o == ca || (parent[ca] == o && label == ca) || (parent[label] == o) {
				continue
			}
			c("a02", "signed-by-"+o, func(x *w.World, c *w.Cert) { c.SignKey = x.Find(o).Cert.Key })
		}
		for i, r := range []func(r *w.Res){
			func(r *w.Res) { r.V4, r.V4Inh = append(r.V4, w.PR("192.0.2.0/24")), false },
			func(r *w.Res) { r.V6, r.V6Inh = append(r.V6, w.PR("2001:db9::/32")), false },
			func(r *w.Res) { r.AS, r.ASInh = append(r.AS, w.ARng{Lo: 5000, Hi: 5000}), false },
			func(r *w.Res) { r.AS, r.ASInh = append(r.AS, w.ARng{Lo: 999, Hi: 1001, Range: true}), false },
			func(r *w.Res) { r.V4, r.V4Inh = append(r.V4, w.RR("172.31.0.0", "172.32.0.1")), false },
		} {
			r := r
			c("a01", fmt.Sprintf("overclaim%d", i), func(x *w.World, c *w.Cert) { c.Res = c.Res.Clone(); r(&c.Res) })
		}
	}
	cmsDevs := func(ca, label string, get func(x *w.World) *w.CMSFault) {
		add("a02", ca, label+":cms-digest", func(x *w.World) { get(x).BadDigest = true })
		for i := 1; i <= 7; i++ {
			i := i
			add("a02x", ca, fmt.Sprintf("%s:cms-digest%d", label, i), func(x *w.World) { get(x).BadDigest, get(x).DigestForm = true, i })
		}
		add("a02", ca, label+":cms-sig", func(x *w.World) { get(x).BadSig = true })
		add("a02", ca, label+":cms-otherkey", func(x *w.World) { get(x).SignKey = other(nil) })
		add("a02", ca, label+":cms-cakey", func(x *w.World) { get(x).SignKey = x.Find(ca).Cert.Key })
	}
	fileDevs := func(ca, file string) {
		add("a04", ca, file+":missing", func(x *w.World) { x.Find(ca).Missing[file] = true })
		add("a04", ca, file+":badhash", func(x *w.World) { x.Find(ca).BadHash[file] = true })
		for i := 1; i <= 6; i++ {
			i := i
			add("a04x", ca, fmt.Sprintf("%s:badhash%d", file, i), func(x *w.World) {
				q := x.Find(ca)
				q.BadHash[file] = true
				if q.HashForm == nil {
					q.HashForm = map[string]int{}
				}
				q.HashForm[file] = i
			})
		}
		add("a04", ca, file+":unlisted", func(x *w.World) { x.Find(ca).Unlisted[file] = true })
		add("a05", ca, file+":duplisted", func(x *w.World) { x.Find(ca).DupList[file] = true })
	}
	add("a02", "ta", "tal-key", func(x *w.World) { x.TAL.Key = w.K(23) })
	for _, n := range names {
		n := n
		isTA := n == "ta"
		own := parent[n]
		if isTA {
			own = n
		}
		certDevs(n, own, n, func(x *w.World) *w.Cert { return &x.Find(n).Cert }, isTA)
		if !isTA {
			add("a02", own, n+":non-ca", func(x *w.World) { x.Find(n).Cert.CA = false })
			add("a02", own, n+":no-bc", func(x *w.World) { x.Find(n).Cert.OmitBC = true })
			add("a02", own, n+":no-certsign", func(x *w.World) { x.Find(n).Cert.NoCertSign = true })
			p := parent[n]
			add("a03", p, n+":revoked", func(x *w.World) { q := x.Find(p); q.Revoked = append(q.Revoked, x.Find(n).Cert.Serial) })
			fileDevs(p, n+".cer")
		}
		certDevs(n, n, n+".mft", func(x *w.World) *w.Cert { return &x.Find(n).MftEE }, false)
		cmsDevs(n, n+".mft", func(x *w.World) *w.CMSFault { return &x.Find(n).MftFault })
		add("a03", n, n+".mft:revoked", func(x *w.World) { q := x.Find(n); q.Revoked = append(q.Revoked, q.MftEE.Serial) })
		add("a04", n, n+".mft:missing", func(x *w.World) { x.Find(n).MftMissing = true })
		add("a04", n, n+".mft:stale", func(x *w.World) { x.Find(n).MftNext = w.T0.Add(-time.Second) })
		add("a04", n, n+".mft:stale-long", func(x *w.World) { x.Find(n).MftNext = w.T0.Add(-5 * time.Hour) })
		add("a04", n, n+".mft:future", func(x *w.World) { x.Find(n).MftThis = w.T0.Add(time.Second) })
		add("a04", n, n+".mft:next-now", func(x *w.World) { x.Find(n).MftNext = w.T0 })
		add("a04", n, n+".mft:this-now", func(x *w.World) { x.Find(n).MftThis = w.T0 })
		add("a04", n, n+".mft:far-future-next", func(x *w.World) { x.Find(n).MftNext = w.T0.Add(20 * 365 * day) })
		add("a04", n, n+".mft:dangling", func(x *w.World) { q := x.Find(n); q.Dangling = append(q.Dangling, "zz-nothing.roa") })
		add("a04", n, n+".mft:dangling-first", func(x *w.World) {
			q := x.Find(n)
			q.Extra["000.gbr"] = []byte("not an rpki object")
			q.Missing["000.gbr"] = true
		})
		add("a05", n, n+":unknown-type", func(x *w.World) {
			q := x.Find(n)
			q.Extra["aaa.gbr"] = []byte{0x30, 3, 2, 1, 5}
			q.Extra["zzz"] = []byte{0x30, 0}
		})
		add("a06", n, n+":garbage-roa", func(x *w.World) { x.Find(n).Extra["000garbage.roa"] = []byte{0x30, 3, 2, 1, 1} })
		add("a06", n, n+":garbage-cer", func(x *w.World) {
			x.Find(n).Extra["000garbage.cer"] = []byte("garbage")
			x.Find(n).Unreadable["000garbage.cer"] = true
		})
		add("a06", n, n+":garbage-crl", func(x *w.World) {
			x.Find(n).Extra["zzgarbage.crl"] = []byte{0x30, 0x80}
			x.Find(n).Unreadable["zzgarbage.crl"] = true
		})
		add("a06", n, n+":garbage-mft", func(x *w.World) {
			x.Find(n).Extra["zzgarbage.mft"] = []byte{}
			x.Find(n).Unreadable["zzgarbage.mft"] = true
		})
		// a certificate issued by an end-entity key
		add("a02", n, n+":ee-as-issuer", func(x *w.World) {
			q := x.Find(n)
			ee := q.MftEE
			if len(q.Roas) > 0 {
				ee = q.Roas[0].EE
			}
			for _, ca := range []bool{true, false} {
				c := w.Cert{Name: "evil", Key: w.K(22), Serial: 900, NB: ee.NB, NA: ee.NA, CA: ca, Res: ee.Res, CARepo: "rsync://evil.example/r/", Mft: "rsync://evil.example/r/e.mft"}
				if !ca {
					c.Key = w.K(21)
				}
				q.Extra[fmt.Sprintf("zzevil%v.cer", ca)] = c.DER(&ee)
			}
		})
		crl := n + ".crl"
		for i := 1; i <= 5; i++ {
			i := i
			add("a03", n, fmt.Sprintf("%s:entries%d", crl, i), func(x *w.World) { x.Find(n).CrlEnt = i })
		}
		add("a03", n, crl+":corrupt", func(x *w.World) { x.Find(n).CrlCorrupt = true })
		add("a03", n, crl+":otherkey", func(x *w.World) { x.Find(n).CrlKey = other(nil) })
		add("a03", n, crl+":stale", func(x *w.World) { x.Find(n).CrlNext = w.T0.Add(-time.Hour) })
		fileDevs(n, crl)
		// CRL naming every serial in use anywhere, properly signed or not
		all := func(x *w.World) []int64 { return []int64{1, 2, 3, 4, 5, 6, 7} }
		add("a03", n, crl+":revokes-all", func(x *w.World) { q := x.Find(n); q.Revoked = append(q.Revoked, all(x)...) })
		for _, o := range names {
			o := o
			if o == n {
				continue
			}
			// forged: names o as issuer but signed by n
			add("a03", n, crl+":forged-for-"+o, func(x *w.World) {
				q := x.Find(n)
				f := w.CA{Cert: x.Find(o).Cert, CrlKey: q.Cert.Key, Revoked: all(x), CrlThis: q.CrlThis, CrlNext: q.CrlNext}
				q.Extra["forged.crl"] = f.CRL()
			})
			add("a03", n, crl+":replaced-by-forged-for-"+o, func(x *w.World) {
				q := x.Find(n)
				q.CrlAKI = x.Find(o).Cert.Key.SKI
				q.Revoked = append(q.Revoked, all(x)...)
			})
		}
		for _, rf := range roas[n] {
			rf := rf
			get := func(x *w.World) *w.ROA {
				for _, r := range x.Find(n).Roas {
					if r.File == rf {
						return r
					}
				}
				return nil
			}
			certDevs(n, n, rf, func(x *w.World) *w.Cert { return &get(x).EE }, false)
			cmsDevs(n, rf, func(x *w.World) *w.CMSFault { return &get(x).Fault })
			add("a02", n, rf+":cms-swap", func(x *w.World) {
				r := get(x)
				o := *r
				o.Entries = []w.Entry{r.Entries[0]}
				o.RawBody = nil
				r.Fault.SwapPayload = w.Seq(w.Int(7), w.Seq(w.Seq(w.Oct([]byte{0, 1}), w.Seq(w.Seq(w.Bits(r.Entries[0].Addr, r.Entries[0].Bits))))))
			})
			add("a03", n, rf+":revoked", func(x *w.World) { q := x.Find(n); q.Revoked = append(q.Revoked, get(x).EE.Serial) })
			fileDevs(n, rf)
			add("a01", n, rf+":entry-outside-ee", func(x *w.World) { r := get(x); r.Entries = append(r.Entries, w.E("10.200.0.0/16", -1)) })
			add("a01", n, rf+":entry-wider-than-ee", func(x *w.World) {
				r := get(x)
				r.Entries = append([]w.Entry{w.E("10.0.0.0/8", -1)}, r.Entries...)
			})
			add("a01", n, rf+":v6-entry-outside-ee", func(x *w.World) { r := get(x); r.Entries = append(r.Entries, w.E("2001:db8::/32", 64)) })
		}
	}
	return out
}

func isBelow(x *w.World, top, n string) bool {
	c := x.Find(n)
	for c != nil {
		if c.Cert.Name == top {
			return true
		}
		c = c.Parent
	}
	return false
}

func devNames(d []Dev) string {
	var l []string
	for _, x := range d {
		l = append(l, x.Name)
	}
	return strings.Join(l, "+")
}
