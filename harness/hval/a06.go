package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	w "github.com/cloudflare/cfrpki/zzverif/world"
)

// hostile lists what a CA can do to others beyond publishing broken objects.
func hostile(s Shape) []Dev {
	var out []Dev
	base := s.Build()
	var names []string
	base.Walk(func(c *w.CA) { names = append(names, c.Cert.Name) })
	for _, n := range names {
		if n == "ta" {
			continue
		}
		for _, v := range names {
			if v == n || isBelow(base, n, v) {
				continue
			}
			n, v := n, v
			add := func(name string, f func(x *w.World, me, victim *w.CA)) {
				out = append(out, Dev{Name: n + "->" + v + ":" + name, Class: "hostile", Node: &nodeRef{n}, Apply: func(x *w.World) { f(x, x.Find(n), x.Find(v)) }})
			}
			add("own-mft-uri", func(x *w.World, me, vi *w.CA) { me.Cert.Mft = vi.Cert.Mft })
			add("own-repo-uri", func(x *w.World, me, vi *w.CA) { me.Cert.CARepo = vi.Cert.CARepo })
			add("own-both-uri", func(x *w.World, me, vi *w.CA) { me.Cert.CARepo = vi.Cert.CARepo; me.Cert.Mft = vi.Cert.Mft })
			sub := func(x *w.World, me, vi *w.CA, mftAtVictim bool, badhash bool) {
				b := w.NewBuilder()
				_ = b
				ev := &w.CA{Dir: vi.Dir, File: "aa-evil.cer", Parent: me}
				ev.Cert = w.Cert{Name: "evil", Key: w.K(24), Serial: 800, NB: me.Cert.NB, NA: me.Cert.NA, CA: true, Res: me.Cert.Res.Clone(), CARepo: vi.Dir, Mft: me.Dir + "evil.mft"}
				if mftAtVictim {
					ev.Cert.Mft = vi.Cert.Mft
				}
				me.Extra["aa-evil.cer"] = ev.Cert.DER(&me.Cert)
				if !mftAtVictim {
					ee := w.Cert{Name: "evilmft", Key: w.K(23), Serial: 1, NB: me.Cert.NB, NA: me.Cert.NA, Res: w.Res{V4Inh: true, V6Inh: true, ASInh: true}, SignedObj: me.Dir + "evil.mft"}
					prod := vi.Products()
					ev.MftNum, ev.MftThis, ev.MftNext = 3, me.MftThis, me.MftNext
					ev.BadHash = map[string]bool{}
					ev.Unlisted, ev.DupList = map[string]bool{}, map[string]bool{}
					if badhash {
						for f := range prod {
							ev.BadHash[f] = true
						}
					}
					ev.Cert.Key = w.K(24)
					// published, not listed: reached through the SIA
					x.Also(me.Dir+"evil.mft", w.CMS(w.OIDMft, ev.MftBody(prod), &ee, &ev.Cert, w.CMSFault{}))
				}
			}
			add("sub-ca-mft-uri", func(x *w.World, me, vi *w.CA) { sub(x, me, vi, true, false) })
			add("sub-ca-lists-files", func(x *w.World, me, vi *w.CA) { sub(x, me, vi, false, false) })
			add("sub-ca-lists-files-badhash", func(x *w.World, me, vi *w.CA) { sub(x, me, vi, false, true) })
			for _, broken := range []bool{false, true} {
				broken := broken
				suffix := "copies"
				if broken {
					suffix = "broken-copies"
				}
				mod := func(b []byte) []byte {
					if broken {
						b = append([]byte(nil), b...)
						b[len(b)-3] ^= 1
					}
					return b
				}
				add(suffix+"-cert", func(x *w.World, me, vi *w.CA) {
					if vi.Parent != nil {
						me.Extra["000"+vi.File] = mod(vi.CertDER())
					} else {
						me.Extra["000"+vi.File] = mod(vi.Cert.DER(nil))
					}
				})
				add(suffix+"-roa", func(x *w.World, me, vi *w.CA) {
					for _, ro := range vi.Roas {
						me.Extra["000"+ro.File] = mod(ro.DER(vi))
					}
				})
				add(suffix+"-mft", func(x *w.World, me, vi *w.CA) {
					me.Extra["000"+vi.MftFile] = mod(w.CMS(w.OIDMft, vi.MftBody(vi.Products()), &vi.MftEE, &vi.Cert, vi.MftFault))
				})
				add(suffix+"-crl", func(x *w.World, me, vi *w.CA) { me.Extra["000"+vi.CrlFile] = mod(vi.CRL()) })
			}
			// certificates with the victim's key identifier
			add("bogus-same-ski", func(x *w.World, me, vi *w.CA) {
				c := vi.Cert
				c.SignKey = w.K(24)
				me.Extra["000bogus.cer"] = c.DER(&me.Cert)
			})
			add("expired-same-ski", func(x *w.World, me, vi *w.CA) {
				c := vi.Cert
				c.SignKey, c.AKI, c.Res = me.Cert.Key, me.Cert.Key.SKI, me.Cert.Res
				c.NA = w.T0.Add(-day)
				me.Extra["000bogus.cer"] = c.DER(&me.Cert)
			})
			add("overclaim-same-ski", func(x *w.World, me, vi *w.CA) {
				c := vi.Cert
				c.SignKey, c.AKI, c.Res = nil, nil, w.Res{V4: []w.Rng{w.PR("0.0.0.0/0")}}
				me.Extra["000bogus.cer"] = c.DER(&me.Cert)
			})
			add("SKI-valid-same-ski", func(x *w.World, me, vi *w.CA) {
				c := vi.Cert
				c.Key, c.SKI = w.K(24), vi.Cert.Key.SKI
				c.SignKey, c.AKI, c.Res, c.CARepo, c.Mft = nil, nil, w.Res{V4Inh: true}, "", ""
				me.Extra["000bogus.cer"] = c.DER(&me.Cert)
			})
			add("SKI-valid-same-key", func(x *w.World, me, vi *w.CA) {
				c := vi.Cert
				c.SignKey, c.AKI, c.Res, c.CARepo, c.Mft = nil, nil, w.Res{V4Inh: true}, "", ""
				me.Extra["000bogus.cer"] = c.DER(&me.Cert)
			})
			add("crl-for-victim", func(x *w.World, me, vi *w.CA) {
				f := w.CA{Cert: vi.Cert, CrlKey: me.Cert.Key, Revoked: []int64{1, 2, 3, 4, 5, 6}, CrlThis: me.CrlThis, CrlNext: me.CrlNext}
				me.Extra["000.crl"] = f.CRL()
			})
			add("crl-revokes-numbers", func(x *w.World, me, vi *w.CA) { me.Revoked = []int64{1, 2, 3, 4, 5, 6} })
			add("own-ski-is-victims-plus-digit", func(x *w.World, me, vi *w.CA) {
				me.Cert.SKI = append(append([]byte(nil), vi.Cert.Key.SKI...), '1')
				for i, k := range vi.Kids {
					k.Cert.Serial = int64(11 + i)
				}
				me.Revoked = []int64{1, 2, 3, 4}
				me.MftEE.Serial = 50
			})
			add("chain-to-victim-file", func(x *w.World, me, vi *w.CA) {
				me.Dangling = append(me.Dangling, strings.TrimPrefix(vi.Dir, "rsync://")+vi.MftFile)
			})
		}
	}
	return out
}

// outside gives the identifiers of everything not issued by n nor below n.
func outside(x *w.World, n string) map[string]bool {
	out := map[string]bool{}
	x.Walk(func(c *w.CA) {
		if c.Cert.Name != n {
			if !isBelow(x, n, c.Cert.Name) {
				out[fmt.Sprintf("%x", c.Cert.Key.SKI)] = true
			}
		}
		if !isBelow(x, n, c.Cert.Name) {
			out[fmt.Sprintf("%x", c.MftEE.Key.SKI)] = true
			for _, r := range c.Roas {
				out[fmt.Sprintf("%x", r.EE.Key.SKI)] = true
			}
		}
	})
	return out
}

func restrict(m map[string]bool, ids map[string]bool) []string {
	var l []string
	for k := range m {
		f := strings.Fields(k)
		if ids[f[1]] {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

func init() {
	checks["A06"] = func(r *vk.Run) {
		r.Rule = "for every CA X of every shape, every 1- and 2-deviation of what X publishes (or requests for its certificate), also hostile references to other CAs' files, copies, key identifier reuse and CRLs; objects outside X's subtree have to come out exactly as in the healthy world"
		type job struct {
			s    Shape
			o    w.Opts
			d    []Dev
			node string
			two  bool
		}
		var jobs []job
		for _, s := range []Shape{s1, s2, s3, s5} {
			base := s.Build()
			m := Menu(s)
			h := hostile(s)
			all := append(append([]Dev(nil), h...), m...)
			base.Walk(func(c *w.CA) {
				n := c.Cert.Name
				var own []Dev
				for _, d := range all {
					if d.Node.ca == n {
						own = append(own, d)
					}
				}
				for oi, o := range optsAll {
					for _, two := range []bool{false, true} {
						if n == "ta" && !two {
							continue
						}
						for _, d := range own {
							jobs = append(jobs, job{s, o, []Dev{d}, n, two})
						}
						if (oi == 0 && !two && (s.Name == "S3" || s.Name == "S5")) || r.Thorough() {
							for i := range own {
								for k := i + 1; k < len(own); k++ {
									if !r.Thorough() && (own[i].Class != "hostile" && own[k].Class != "hostile" || strings.HasSuffix(own[i].Class, "x") || strings.HasSuffix(own[k].Class, "x")) {
										continue
									}
									jobs = append(jobs, job{s, o, []Dev{own[i], own[k]}, n, two})
								}
							}
						}
					}
				}
			})
		}
		r.Note("worlds", len(jobs))
		r.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			id := fmt.Sprintf("%s/%s/two=%v/X=%s/%s", j.s.Name, optName(j.o), j.two, j.node, devNames(j.d))
			if r.Skip(id) {
				return
			}
			if i%1999 == 0 {
				r.Sample(id)
			}
			run := func(devs []Dev) *w.Result {
				x := j.s.Build()
				for _, d := range devs {
					d.Apply(x)
				}
				files := x.Files()
				tals := map[string][]byte{"/tal1": x.TALBytes()}
				if j.two {
					otherWorld().AddFiles(files)
					tals["/tal2"] = otherWorld().TALBytes()
				}
				return w.RunSeeker(&w.Seeker{Files: files, TALs: tals, Requests: map[string]int{}, MaxSteps: 20000}, j.o)
			}
			r.State(id)
			r.Check(id, func() *vk.Fail {
				x := j.s.Build()
				ids := map[string]bool{}
				if j.node != "ta" {
					ids = outside(x, j.node)
				}
				if j.two {
					for k := range outside(otherWorld(), "nobody") {
						ids[k] = true
					}
				}
				// serial numbers of the victim may be part of the scenario
				a := restrict(run(nil).BySKI(), ids)
				res := run(j.d)
				r.Trans(res.Steps)
				r.Traces(1)
				b := restrict(res.BySKI(), ids)
				r.Outcome(strings.Join(b, "\n") + "|" + res.Summary())
				if strings.Join(a, "\n") != strings.Join(b, "\n") {
					return &vk.Fail{Key: "damage:" + damageClass(j.d), Desc: fmt.Sprintf("healthy:\n%s\nwith %s by %s:\n%s", strings.Join(a, "\n"), devNames(j.d), j.node, strings.Join(b, "\n"))}
				}
				return nil
			})
		})
	}
}

func damageClass(d []Dev) string {
	for _, x := range d {
		if strings.Contains(x.Name, "SKI-valid-same-") {
			return "valid certificate with the key identifier of another CA"
		}
	}
	var l []string
	for _, x := range d {
		_, k, _ := strings.Cut(x.Name, ":")
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, "+")
}

func otherWorld() *w.World {
	b := w.NewBuilder()
	b.Skip(14)
	t := b.TA("ua", "ua.example", full)
	a := b.Kid(t.TA, "UA", "ua.example", sub(1))
	b.ROA(a, "ru", 64511, w.E("10.9.0.0/16", -1))
	return t
}
