package main

import (
	"bytes"
	"crypto/x509/pkix"
	"fmt"
	"math/big"
	"sort"
	"strings"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/zzverif/vk"
	w "github.com/cloudflare/cfrpki/zzverif/world"
)

func certMeaning(c *librpki.RPKICertificate) string {
	var l []string
	for _, x := range c.IPAddresses {
		l = append(l, x.String())
	}
	for _, x := range c.ASNums {
		l = append(l, x.String())
	}
	for _, x := range c.SubjectInformationAccess {
		l = append(l, x.AccessMethod.String()+"="+string(x.GeneralName))
	}
	x := c.Certificate
	return fmt.Sprintf("cert %x serial=%v aki=%x %v..%v ca=%v key=%x crldp=%v res=%v", x.SubjectKeyId, x.SerialNumber, x.AuthorityKeyId, x.NotBefore, x.NotAfter, x.IsCA, x.RawSubjectPublicKeyInfo, x.CRLDistributionPoints, l)
}

// meanings lists what every valid object says.
func meanings(v *pki.Validator) map[string]bool {
	out := map[string]bool{}
	for _, x := range v.ValidObjects {
		if c, ok := x.Resource.(*librpki.RPKICertificate); ok {
			out[certMeaning(c)] = true
		}
	}
	for _, x := range v.ValidROA {
		if o, ok := x.Resource.(*librpki.RPKIROA); ok {
			var l []string
			for _, e := range o.Entries {
				l = append(l, fmt.Sprintf("%v-%d", e.IPNet, e.MaxLength))
			}
			l = append(l, "valid:")
			for _, e := range o.Valids {
				l = append(l, fmt.Sprintf("%v-%d", e.IPNet, e.MaxLength))
			}
			out[fmt.Sprintf("roa AS%d %v signed=%v %s", o.ASN, l, o.SigningTime, certMeaning(o.Certificate))] = true
		}
	}
	for _, x := range v.ValidManifest {
		if o, ok := x.Resource.(*librpki.RPKIManifest); ok {
			var l []string
			for _, f := range o.Content.FileList {
				l = append(l, fmt.Sprintf("%s=%x", f.Name, f.GetHash()))
			}
			out[fmt.Sprintf("mft %v %v..%v %v %s", o.Content.ManifestNumber, o.Content.ThisUpdate, o.Content.NextUpdate, l, certMeaning(o.Certificate))] = true
		}
	}
	for k, x := range v.ValidCRL {
		if o, ok := x.Resource.(*pkix.CertificateList); ok {
			var l []string
			for _, f := range o.TBSCertList.RevokedCertificates {
				l = append(l, f.SerialNumber.String())
			}
			out[fmt.Sprintf("crl %x %v..%v %v", k, o.TBSCertList.ThisUpdate, o.TBSCertList.NextUpdate, l)] = true
		}
	}
	return out
}

// emMenu: deviating signature blocks. want: 0 reject, 1 accept.
func emMenu(k int) map[string]func(d []byte) ([]byte, bool) {
	di := append([]byte{0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20})
	good := func(d []byte) []byte {
		t := append(append([]byte{}, di...), d...)
		em := append([]byte{0, 1}, bytes.Repeat([]byte{0xff}, k-3-len(t))...)
		return append(append(em, 0), t...)
	}
	pad := func(head []byte, fill byte, sep []byte, t []byte, trail int) []byte {
		n := k - len(head) - len(sep) - len(t) - trail
		em := append(append([]byte{}, head...), bytes.Repeat([]byte{fill}, n)...)
		em = append(append(em, sep...), t...)
		return append(em, make([]byte, trail)...)
	}
	m := map[string]func(d []byte) ([]byte, bool){"good": func(d []byte) ([]byte, bool) { return good(d), true }}
	for i := 0; i < k; i++ {
		for _, x := range []byte{1, 0x80, 0xff} {
			i, x := i, x
			m[fmt.Sprintf("flip %d^%02x", i, x)] = func(d []byte) ([]byte, bool) { e := good(d); e[i] ^= x; return e, false }
		}
	}
	full := func(d []byte) []byte { return append(append([]byte{}, di...), d...) }
	for trail := 1; trail < k-3-51-1; trail++ {
		trail := trail
		m[fmt.Sprintf("trailing zeros %d", trail)] = func(d []byte) ([]byte, bool) { return pad([]byte{0, 1}, 0xff, []byte{0}, full(d), trail), false }
		m[fmt.Sprintf("ps %d then garbage after", trail)] = func(d []byte) ([]byte, bool) {
			e := pad([]byte{0, 1}, 0xff, []byte{0}, full(d), trail)
			for i := k - trail; i < k; i++ {
				e[i] = byte(i)
			}
			return e, false
		}
		m[fmt.Sprintf("garbage %d before digestinfo", trail)] = func(d []byte) ([]byte, bool) {
			g := bytes.Repeat([]byte{0x5a}, trail)
			return pad([]byte{0, 1}, 0xff, []byte{0}, append(g, full(d)...), 0), false
		}
	}
	m["type 2"] = func(d []byte) ([]byte, bool) { return pad([]byte{0, 2}, 0xff, []byte{0}, full(d), 0), false }
	m["type 0"] = func(d []byte) ([]byte, bool) { return pad([]byte{0, 0}, 0x00, []byte{0}, full(d), 0), false }
	m["no separator"] = func(d []byte) ([]byte, bool) { return pad([]byte{0, 1}, 0xff, nil, full(d), 0), false }
	m["no type"] = func(d []byte) ([]byte, bool) { return pad([]byte{0}, 0xff, []byte{0}, full(d), 0), false }
	m["bare digest"] = func(d []byte) ([]byte, bool) { return pad([]byte{0, 1}, 0xff, []byte{0}, d, 0), false }
	m["zero padded digest"] = func(d []byte) ([]byte, bool) { return pad([]byte{0}, 0, nil, d, 0), false }
	m["zero padded digestinfo"] = func(d []byte) ([]byte, bool) { return pad([]byte{0}, 0, nil, full(d), 0), false }
	m["octet string only"] = func(d []byte) ([]byte, bool) {
		return pad([]byte{0, 1}, 0xff, []byte{0}, append([]byte{4, 32}, d...), 0), false
	}
	alg := func(oid []byte, null bool) []byte {
		b := append([]byte{6, byte(len(oid))}, oid...)
		if null {
			b = append(b, 5, 0)
		}
		return append([]byte{0x30, byte(len(b))}, b...)
	}
	info := func(a, d []byte) []byte {
		b := append(append([]byte{}, a...), append([]byte{4, byte(len(d))}, d...)...)
		return append([]byte{0x30, byte(len(b))}, b...)
	}
	sha256oid := []byte{0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01}
	for n, o := range map[string][]byte{"sha1": {0x2b, 0x0e, 0x03, 0x02, 0x1a}, "md5": {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 2, 5}, "sha384": {0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02}, "sha512": {0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03}} {
		o := o
		m["digest labelled "+n] = func(d []byte) ([]byte, bool) {
			return pad([]byte{0, 1}, 0xff, []byte{0}, info(alg(o, true), d), 0), false
		}
	}
	m["null absent"] = func(d []byte) ([]byte, bool) {
		return pad([]byte{0, 1}, 0xff, []byte{0}, info(alg(sha256oid, false), d), 0), false
	}
	m["digest+1"] = func(d []byte) ([]byte, bool) {
		return pad([]byte{0, 1}, 0xff, []byte{0}, info(alg(sha256oid, true), append(append([]byte{}, d...), 0)), 0), false
	}
	m["digest-1"] = func(d []byte) ([]byte, bool) {
		return pad([]byte{0, 1}, 0xff, []byte{0}, info(alg(sha256oid, true), d[:31]), 0), false
	}
	m["digest twice"] = func(d []byte) ([]byte, bool) {
		return pad([]byte{0, 1}, 0xff, []byte{0}, info(alg(sha256oid, true), append(append([]byte{}, d...), d...)), 0), false
	}
	m["long form"] = func(d []byte) ([]byte, bool) {
		t := append([]byte{0x30, 0x81, 0x31}, full(d)[2:]...)
		return pad([]byte{0, 1}, 0xff, []byte{0}, t, 0), false
	}
	m["trailing in digestinfo"] = func(d []byte) ([]byte, bool) {
		t := append(full(d), 5, 0)
		t[1] += 2
		return pad([]byte{0, 1}, 0xff, []byte{0}, t, 0), false
	}
	m["all zero"] = func(d []byte) ([]byte, bool) { return make([]byte, k), false }
	m["one"] = func(d []byte) ([]byte, bool) { e := make([]byte, k); e[k-1] = 1; return e, false }
	return m
}

func a09World() *w.World {
	x := a08World()
	h := x.Find("X")
	r := w.ROA{}
	_ = r
	x.Find("X").Revoked = []int64{77}
	_ = h
	return x
}

func init() {
	checks["A09"] = func(r *vk.Run) {
		r.Rule = "for certificate, CRL, manifest, ROA and XML message: every byte position x replacement values, every structural edit without re-signing, every mix of the parts of two valid ROAs/manifests, every enumerated deviation of the signature block made with the signing key; whatever is valid afterwards has to say exactly what the original said"
		r.HangLimit(3 * 60e9)
		opts := []w.Opts{{Time: w.T0}, {Time: w.T0, StrictCMS: true}}
		run := func(f map[string][]byte, tal []byte, o w.Opts) map[string]bool {
			res := w.RunFiles(f, tal, o)
			r.Trans(res.Steps)
			r.Traces(1)
			return meanings(res.Manager.Validator)
		}
		base := a09World()
		bf := base.Files()
		tal := base.TALBytes()
		h := base.Find("X")
		baseM := [2]map[string]bool{run(bf, tal, opts[0]), run(bf, tal, opts[1])}
		r.Note("objects_valid_in_base", len(baseM[0]))
		if len(baseM[0]) < 13 {
			r.Violate("base", vk.Failf("base", "base world not valid: %v", baseM[0]))
			return
		}
		targets := map[string]string{"roa": h.Dir + "rx.roa", "mft": h.Dir + h.MftFile, "cer": h.Dir + "XK.cer", "crl": h.Dir + h.CrlFile}
		compare := func(got map[string]bool, b map[string]bool, kind string) *vk.Fail {
			var extra []string
			for k := range got {
				if kind == "crl" && !strings.HasPrefix(k, "crl") {
					continue
				}
				if !b[k] {
					extra = append(extra, k)
				}
			}
			if len(extra) > 0 {
				sort.Strings(extra)
				return vk.Failf("altered-"+kind+"-accepted", "valid after tampering: %s", strings.Join(extra, "\n"))
			}
			r.Outcome(fmt.Sprintf("%s %d", kind, len(got)))
			return nil
		}
		type job struct {
			id string
			f  func() *vk.Fail
		}
		var jobs []job
		add := func(kind, id string, mk func() []byte) {
			for oi, o := range opts {
				if oi == 1 && (kind == "cer" || kind == "crl") {
					continue
				}
				oi, o := oi, o
				jobs = append(jobs, job{fmt.Sprintf("%s strict=%v %s", kind, o.StrictCMS, id), func() *vk.Fail {
					f := make(map[string][]byte, len(bf))
					for k, v := range bf {
						f[k] = v
					}
					f[targets[kind]] = mk()
					return compare(run(f, tal, o), baseM[oi], kind)
				}})
			}
		}
		var kinds []string
		for k := range targets {
			kinds = append(kinds, k)
		}
		sort.Strings(kinds)
		for _, kind := range kinds {
			b := bf[targets[kind]]
			for i := range b {
				vals := []byte{b[i] ^ 1, b[i] ^ 2, b[i] ^ 4, b[i] ^ 0x80, b[i] + 1, 0, 0xff}
				if r.Thorough() {
					vals = nil
					for v := 0; v < 256; v++ {
						vals = append(vals, byte(v))
					}
				}
				for _, v := range vals {
					if v == b[i] {
						continue
					}
					i, v := i, v
					add(kind, fmt.Sprintf("[%d]=%02x", i, v), func() []byte {
						c := append([]byte(nil), b...)
						c[i] = v
						return c
					})
				}
			}
			t, _, err := w.ParseTLV(b)
			if err != nil {
				panic(err)
			}
			cnt := 0
			t.Walk(func(_, _ *w.Node, _ int) { cnt++ })
			for k := 0; k < cnt; k++ {
				for _, e := range nodeEdits() {
					k, e := k, e
					add(kind, fmt.Sprintf("node %d %s", k, e.name), func() []byte { c := t.Clone(); editAt(c, k, e); return c.Bytes() })
				}
			}
		}
		// mixing the parts of two valid objects of one CA
		mix := func(kind string, a, b []byte, target string, ff map[string][]byte, bm [2]map[string]bool) {
			parse := func(x []byte) *w.Node { n, _, _ := w.ParseTLV(x); return n }
			cnt := 0
			var paths []int
			parse(a).Walk(func(_, _ *w.Node, _ int) { paths = append(paths, cnt); cnt++ })
			get := func(n *w.Node, k int) *w.Node {
				c := 0
				var out *w.Node
				n.Walk(func(x, _ *w.Node, _ int) {
					if c == k {
						out = x
					}
					c++
				})
				return out
			}
			one := func(set []int) {
				for oi, o := range opts {
					oi, o := oi, o
					jobs = append(jobs, job{fmt.Sprintf("mix %s strict=%v %v", kind, o.StrictCMS, set), func() *vk.Fail {
						x, y := parse(a), parse(b)
						for _, k := range set {
							dst, src := get(x, k), get(y, k)
							if dst == nil || src == nil {
								return nil
							}
							*dst = *src.Clone()
						}
						f := make(map[string][]byte, len(ff))
						for k, v := range ff {
							f[k] = v
						}
						f[target] = x.Bytes()
						return compare(run(f, tal, o), bm[oi], kind)
					}})
				}
			}
			for i := range paths {
				one([]int{i})
			}
			// coarse parts, all subsets
			var coarse []int
			{
				x := parse(a)
				sd := x.Kids[1].Kids[0] // SignedData
				si := sd.Kids[len(sd.Kids)-1].Kids[0]
				want := map[*w.Node]bool{sd.Kids[2]: true, sd.Kids[3]: true}
				for _, k := range si.Kids {
					want[k] = true
				}
				for _, k := range si.Kids {
					if k.Tag[0] == 0xa0 {
						for _, q := range k.Kids {
							want[q] = true
						}
						delete(want, k)
					}
				}
				c := 0
				x.Walk(func(n, _ *w.Node, _ int) {
					if want[n] {
						coarse = append(coarse, c)
					}
					c++
				})
			}
			r.Note("mix_parts_"+kind, len(coarse))
			for m := 1; m < 1<<uint(len(coarse)); m++ {
				var s []int
				for i, k := range coarse {
					if m>>uint(i)&1 != 0 {
						s = append(s, k)
					}
				}
				one(s)
			}
		}
		{
			// two ROAs of X
			x2 := a09World()
			b2 := w.NewBuilder()
			b2.Skip(20)
			_ = b2
			hx := x2.Find("X")
			r2 := *hx.Roas[0]
			r2.File = "ry.roa"
			r2.EE.Key = w.K(22)
			r2.EE.Serial = 55
			r2.EE.SignedObj = hx.Dir + "ry.roa"
			r2.ASID = big.NewInt(64599)
			r2.Entries = []w.Entry{w.E("10.66.0.0/16", -1), w.E("10.67.0.0/16", 24), w.E("2001:db8:4100::/40", 48)}
			r2.EE.Res = w.Res{V4: []w.Rng{w.PR("10.66.0.0/15")}, V6: []w.Rng{w.PR("2001:db8:4100::/40")}}
			hx.Roas = append(hx.Roas, &r2)
			f2 := x2.Files()
			bm := [2]map[string]bool{run(f2, tal, opts[0]), run(f2, tal, opts[1])}
			if len(bm[0]) != len(baseM[0])+2 {
				r.Violate("base2", vk.Failf("base", "second ROA not valid: %d %d", len(bm[0]), len(baseM[0])))
			}
			mix("roa", f2[hx.Dir+"rx.roa"], f2[hx.Dir+"ry.roa"], hx.Dir+"rx.roa", f2, bm)
			// older manifest of X
			x3 := a09World()
			h3 := x3.Find("X")
			h3.MftNum = 99
			h3.MftEE.Key = w.K(22)
			h3.MftEE.Serial = 55
			f3 := x3.Files()
			bm3 := [2]map[string]bool{run(f3, tal, opts[0]), run(f3, tal, opts[1])}
			for i := range bm3 {
				for k := range baseM[i] {
					bm3[i][k] = true
				}
			}
			mix("mft", f3[h3.Dir+h3.MftFile], bf[h3.Dir+h3.MftFile], h3.Dir+h3.MftFile, f3, bm3)
		}
		// signature blocks
		k := (w.K(5).Priv.N.BitLen() + 7) / 8
		em := emMenu(k)
		var ems []string
		for n := range em {
			ems = append(ems, n)
		}
		sort.Strings(ems)
		for _, n := range ems {
			for _, kind := range []string{"roa", "mft"} {
				for _, o := range opts {
					n, kind, o := n, kind, o
					jobs = append(jobs, job{fmt.Sprintf("block %s strict=%v %s", kind, o.StrictCMS, n), func() *vk.Fail {
						x := a09World()
						hx := x.Find("X")
						ok := false
						ft := w.CMSFault{EM: func(d []byte, kk int) []byte {
							e, g := em[n](d)
							ok = g
							return e
						}}
						u := hx.Dir + "rx.roa"
						if kind == "roa" {
							hx.Roas[0].Fault = ft
						} else {
							hx.MftFault = ft
							u = hx.Dir + hx.MftFile
						}
						f := x.Files()
						res := w.RunFiles(f, tal, o)
						r.Trans(res.Steps)
						r.Traces(1)
						valid := res.Roa[u]
						if kind == "mft" {
							valid = res.Mft[u]
						}
						r.Outcome(fmt.Sprint("block ", valid))
						if valid != ok {
							return vk.Failf("signature-block", "%s: accepted=%v", n, valid)
						}
						return nil
					}})
				}
			}
		}
		// signed XML messages: payload against signature
		xm := w.CMS([]int{1, 2, 840, 113549, 1, 9, 16, 1, 28}, []byte("<msg version=\"4\"/>"), &h.Roas[0].EE, &h.Cert, w.CMSFault{})
		for i := range xm {
			for bit := 0; bit < 8; bit++ {
				i, bit := i, bit
				jobs = append(jobs, job{fmt.Sprintf("xml [%d] bit %d", i, bit), func() *vk.Fail {
					c := append([]byte(nil), xm...)
					c[i] ^= 1 << uint(bit)
					o, err := librpki.DecodeXML(c)
					if err == nil && o != nil && o.InnerValid && string(o.Content) != "<msg version=\"4\"/>" {
						return vk.Failf("altered-xml-accepted", "content %q", o.Content)
					}
					r.Outcome(fmt.Sprint("xml ", err == nil, o != nil && o.InnerValid))
					return nil
				}})
			}
		}
		r.Note("cases", len(jobs))
		r.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			if r.Skip(j.id) {
				return
			}
			if i%19999 == 0 {
				r.Sample(j.id)
			}
			r.State(j.id)
			r.Check(j.id, j.f)
		})
	}
}
