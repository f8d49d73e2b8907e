package main

import (
	"fmt"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	w "github.com/cloudflare/cfrpki/zzverif/world"
)

func perms(l []string) [][]string {
	if len(l) == 0 {
		return [][]string{nil}
	}
	var out [][]string
	for i := range l {
		rest := append(append([]string(nil), l[:i]...), l[i+1:]...)
		for _, p := range perms(rest) {
			out = append(out, append([]string{l[i]}, p...))
		}
	}
	return out
}

type target struct{ ca, obj string }

func revoke(x *w.World, t target) {
	c := x.Find(t.ca)
	for _, k := range c.Kids {
		if k.File == t.obj {
			c.Revoked = append(c.Revoked, k.Cert.Serial)
		}
	}
	for _, r := range c.Roas {
		if r.File == t.obj {
			c.Revoked = append(c.Revoked, r.EE.Serial)
		}
	}
}

func init() {
	checks["A03"] = func(r *vk.Run) {
		r.Rule = "all listing orders of all manifests x all sets of revoked objects (shape S3), plus equal serials, plus 0/1/2-deviation worlds over CRL faults; distinct by order, revocations and deviations"
		sp := &spec{complete: true, sound: has("revoked")}
		targets := []target{{"ta", "A.cer"}, {"ta", "B.cer"}, {"ta", "rt.roa"}, {"A", "C.cer"}, {"A", "ra.roa"}, {"B", "rb.roa"}, {"C", "rc.roa"}}
		pt := perms([]string{"A.cer", "B.cer", "rt.roa", "ta.crl"})
		pa := perms([]string{"A.crl", "C.cer", "ra.roa"})
		pb := perms([]string{"B.crl", "rb.roa"})
		pc := perms([]string{"C.crl", "rc.roa"})
		type job struct{ t, a, b, c, rev, dup int }
		var jobs []job
		for dup := 0; dup < 3; dup++ {
			for rev := 0; rev < 1<<len(targets); rev++ {
				for t := range pt {
					for a := range pa {
						for b := range pb {
							for c := range pc {
								if !r.Thorough() && dup > 0 && (b > 0 || c > 0) {
									continue
								}
								jobs = append(jobs, job{t, a, b, c, rev, dup})
							}
						}
					}
				}
			}
		}
		o := w.DefaultOpts()
		r.Note("orders_x_revocations", len(jobs))
		r.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			id := fmt.Sprintf("order t%d a%d b%d c%d revoked=%07b dup=%d", j.t, j.a, j.b, j.c, j.rev, j.dup)
			if i%9973 == 0 {
				r.Sample(id)
			}
			runWorld(r, id, func() *w.World {
				x := s3.Build()
				x.Find("ta").Order, x.Find("A").Order, x.Find("B").Order, x.Find("C").Order = pt[j.t], pa[j.a], pb[j.b], pc[j.c]
				switch j.dup {
				case 1: // two certificates of one issuer share a serial number
					x.Find("ta").Roas[0].EE.Serial = x.Find("A").Cert.Serial
					x.Find("A").Roas[0].EE.Serial = x.Find("C").Cert.Serial
				case 2: // big serials with the same digits as issuer-key collisions
					x.Find("B").Cert.Serial = 111111111
					x.Find("A").Cert.Serial = 11111111
				}
				for k, t := range targets {
					if j.rev>>k&1 == 1 {
						revoke(x, t)
					}
				}
				return x
			}, o, sp)
		})
		// A CA whose key identifier is that of another CA plus a digit.
		for k := 0; k < 2; k++ {
			for serial := int64(0); serial < 4; serial++ {
				for ord := range pt {
					id := fmt.Sprintf("crafted-ski %d %d order %d", k, serial, ord)
					runWorld(r, id, func() *w.World {
						x := s3.Build()
						vict, evil := "A", "B"
						if k == 1 {
							vict, evil = "ta", "B"
						}
						e := x.Find(evil)
						e.Cert.SKI = append(append([]byte(nil), x.Find(vict).Cert.Key.SKI...), '1')
						v := x.Find(vict)
						v.Kids[0].Cert.Serial = 12
						v.Roas[0].EE.Serial = 13
						e.Revoked = []int64{2, 3, 12, 13, serial}
						e.MftEE.Serial, e.Roas[0].EE.Serial = 70, 71
						x.Find("ta").Order = pt[ord]
						return x
					}, o, sp)
				}
			}
		}
		explore(r, &spec{class: map[string]bool{"a03": true}, shapes: []Shape{s1, s3}, opts: optsAll, complete: true, sound: has("revoked")})
	}
}
