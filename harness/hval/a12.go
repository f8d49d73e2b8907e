package main

import (
	"fmt"
	"sort"
	"strings"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/zzverif/vk"
	w "github.com/cloudflare/cfrpki/zzverif/world"
)

// A12: reference graphs. Three CAs ta -> A -> B in one directory, so that
// every manifest can list every file and every certificate can point to any
// of them.

const flat = "rsync://flat.example/repo/"

var flatBase = map[string][]string{
	"ta": {"ta.crl", "A.cer", "rt.roa"},
	"A":  {"A.crl", "B.cer", "ra.roa"},
	"B":  {"B.crl", "rb.roa"},
}
var flatFiles = []string{"ta.cer", "A.cer", "B.cer", "ta.mft", "A.mft", "B.mft", "ta.crl", "A.crl", "B.crl", "rt.roa", "ra.roa", "rb.roa", "rb2.roa", "missing.roa", "missing.mft"}
var flatCAs = []string{"ta", "A", "B"}

type graph struct {
	list  map[string][]string // manifest of CA -> names
	point map[string]string   // certificate of CA -> manifest name
}

func (g *graph) toggle(ca, f string) {
	l := g.list[ca]
	for i, x := range l {
		if x == f {
			g.list[ca] = append(append([]string(nil), l[:i]...), l[i+1:]...)
			return
		}
	}
	g.list[ca] = append(append([]string(nil), l...), f)
}
func newGraph() *graph {
	g := &graph{list: map[string][]string{}, point: map[string]string{}}
	for c, l := range flatBase {
		g.list[c] = append([]string(nil), l...)
		g.point[c] = c + ".mft"
	}
	return g
}
func (g *graph) String() string {
	var s []string
	for _, c := range flatCAs {
		s = append(s, c+"->"+g.point[c]+"["+strings.Join(g.list[c], " ")+"]")
	}
	return strings.Join(s, " ")
}

// references counts the distinct (referring file, referenced file) pairs.
func (g *graph) references() int {
	n := 2 // TAL, certificate of the trust anchor
	m := map[string]bool{}
	for _, c := range flatCAs {
		m[c+".cer>"+g.point[c]] = true
		for _, f := range g.list[c] {
			m[c+".mft>"+f] = true
		}
		m[c+".cer> repo"] = true
	}
	return n + len(m)
}

// build renders the graph; the hash of a manifest in a manifest is right only
// if that one has been rendered before (B, A, ta).
func (g *graph) build() (map[string][]byte, []byte) {
	b := w.NewBuilder()
	t := b.TA("ta", "flat.example", full)
	a := b.Kid(t.TA, "A", "flat.example", sub(1))
	bb := b.Kid(a, "B", "flat.example", sub(1))
	cas := map[string]*w.CA{"ta": t.TA, "A": a, "B": bb}
	t.TAL.URI = []string{flat + "ta.cer"}
	roaFor(b, t.TA, "rt", 0)
	roaFor(b, a, "ra", 1)
	b.ROA(bb, "rb", 64501, w.E("10.10.0.0/16", 20))
	for n, c := range cas {
		c.Dir = flat
		c.Cert.CARepo = flat
		c.Cert.Mft = flat + g.point[n]
		c.MftEE.SignedObj = flat + n + ".mft"
	}
	files := map[string][]byte{"ta.cer": t.TA.CertDER()}
	for _, c := range cas {
		for n, x := range c.Products() {
			files[n] = x
		}
	}
	files["rb2.roa"] = files["rb.roa"]
	for _, n := range []string{"B", "A", "ta"} {
		c := cas[n]
		var order []string
		prod := map[string][]byte{}
		for _, f := range g.list[n] {
			order = append(order, f)
			if x, ok := files[f]; ok {
				prod[f] = x
			}
		}
		c.Order = order
		files[n+".mft"] = w.CMS(w.OIDMft, c.MftBody(prod), &c.MftEE, &c.Cert, w.CMSFault{})
	}
	out := map[string][]byte{}
	for n, x := range files {
		out[flat+n] = x
	}
	return out, t.TALBytes()
}

func init() {
	checks["A12"] = func(r *vk.Run) {
		r.Rule = "every reference graph within k deviations of a tree of three CAs in one directory (each manifest may list any of 15 files, each certificate may point to any of them), and every graph over the certificate, manifest and ROA of one CA below the trust anchor; hash checking on/off, invalid children explored or not"
		type edit struct {
			name string
			add  bool
			f    func(g *graph)
		}
		var edits []edit
		for _, c := range flatCAs {
			for _, f := range flatFiles {
				c, f := c, f
				in := false
				for _, x := range flatBase[c] {
					in = in || x == f
				}
				edits = append(edits, edit{fmt.Sprintf("%s.mft^%s", c, f), !in && !strings.HasPrefix(f, "missing"), func(g *graph) { g.toggle(c, f) }})
			}
			for _, f := range flatFiles {
				c, f := c, f
				if f == c+".mft" {
					continue
				}
				edits = append(edits, edit{fmt.Sprintf("%s.cer->%s", c, f), false, func(g *graph) { g.point[c] = f }})
			}
			c := c
			edits = append(edits, edit{c + ".mft reversed", true, func(g *graph) {
				l := append([]string(nil), g.list[c]...)
				for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
					l[i], l[j] = l[j], l[i]
				}
				g.list[c] = l
			}})
			for _, f := range flatBase[c] {
				f := f
				edits = append(edits, edit{c + ".mft twice " + f, true, func(g *graph) { g.list[c] = append(append([]string(nil), g.list[c]...), f) }})
			}
		}
		type job struct {
			g    *graph
			name string
			add  bool
		}
		var jobs []job
		emit := func(es ...int) {
			g := newGraph()
			add := true
			var n []string
			for _, i := range es {
				edits[i].f(g)
				add = add && edits[i].add
				n = append(n, edits[i].name)
			}
			jobs = append(jobs, job{g, strings.Join(n, "+"), add})
		}
		emit()
		for i := range edits {
			emit(i)
			for k := i + 1; k < len(edits); k++ {
				emit(i, k)
				if r.Thorough() {
					for l := k + 1; l < len(edits); l++ {
						emit(i, k, l)
					}
				}
			}
		}
		// full product over two CAs: any list, any pointer
		small := []string{"ta.cer", "A.cer", "ta.mft", "A.mft", "ra.roa", "A.crl"}
		if !r.Thorough() {
			small = small[:5]
		}
		for m0 := 0; m0 < 1<<uint(len(small)); m0++ {
			for m1 := 0; m1 < 1<<uint(len(small)); m1++ {
				for _, p0 := range []string{"ta.mft", "A.mft", "ta.cer", "ra.roa"} {
					for _, p1 := range []string{"ta.mft", "A.mft", "A.cer", "ta.cer"} {
						if !r.Thorough() && p0 != "ta.mft" && p1 != "A.mft" {
							continue
						}
						g := newGraph()
						g.list["B"] = nil
						g.list["ta"], g.list["A"] = []string{"ta.crl"}, []string{"A.crl"}
						if r.Thorough() {
							g.list["A"] = nil
						}
						for i, f := range small {
							if m0>>uint(i)&1 == 1 {
								g.list["ta"] = append(g.list["ta"], f)
							}
							if m1>>uint(i)&1 == 1 {
								g.list["A"] = append(g.list["A"], f)
							}
						}
						g.point["ta"], g.point["A"] = p0, p1
						jobs = append(jobs, job{g, fmt.Sprintf("product %x %x %s %s", m0, m1, p0, p1), false})
					}
				}
			}
		}
		r.Note("graphs", len(jobs))
		bf, bt := newGraph().build()
		type mode struct{ hash, inval bool }
		run := func(files map[string][]byte, tal []byte, m mode, max int) (*w.Result, bool, string) {
			s := &w.Seeker{Files: files, TALs: map[string][]byte{"/tal": tal}, Requests: map[string]int{}, MaxSteps: max}
			v := pki.NewValidator()
			v.Time = w.T0
			v.DecoderConfig = &librpki.DecoderConfig{}
			sm := pki.NewSimpleManager()
			sm.Validator, sm.FileSeeker, sm.StrictHash = v, s, m.hash
			over := false
			again := ""
			s.OnGet = func(p string) {
				c := w.Collect(sm)
				if c.Cert[p] || c.Roa[p] || c.Mft[p] {
					again = p
				}
			}
			func() {
				defer func() {
					if p := recover(); p != nil {
						if p == w.ErrLoop {
							over = true
							return
						}
						panic(p)
					}
				}()
				sm.AddInitial([]*pki.PKIFile{{Path: "/tal", Type: pki.TYPE_TAL}})
				sm.Explore(false, m.inval)
			}()
			res := w.Collect(sm)
			res.Requests, res.Steps = s.Requests, s.Steps
			return res, over, again
		}
		base, _, _ := run(bf, bt, mode{false, false}, 1000)
		r.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			if i%2999 == 0 {
				r.Sample(j.g.String())
			}
			files, tal := map[string][]byte(nil), []byte(nil)
			for _, m := range []mode{{true, false}, {false, false}, {false, true}, {true, true}} {
				if m.hash && m.inval && !r.Thorough() {
					continue
				}
				id := fmt.Sprintf("hash=%v,inval=%v/%s", m.hash, m.inval, j.name)
				if r.Skip(id) {
					continue
				}
				if files == nil {
					files, tal = j.g.build()
				}
				refs := j.g.references()
				r.Check(id, func() *vk.Fail {
					res, over, again := run(files, tal, m, refs)
					r.Trans(res.Steps)
					if over {
						return vk.Failf("more steps than references", "graph %s has %d references, the exploration took more steps", j.g, refs)
					}
					if len(res.DupRoa) > 0 {
						return vk.Failf("ROA reported twice", "graph %s: %v", j.g, res.DupRoa)
					}
					seen := map[string]string{}
					for p, l := range res.VRPs {
						k := strings.Join(l, " ")
						if q, ok := seen[k]; ok {
							return vk.Failf("ROA reported twice", "graph %s: %s and %s", j.g, p, q)
						}
						seen[k] = p
					}
					if again != "" {
						return vk.Failf("validated file requested again", "graph %s: %s", j.g, again)
					}
					for _, p := range sortedKeys(res.Requests) {
						n := strings.TrimPrefix(p, flat)
						by := 1
						for _, c := range flatCAs {
							if j.g.point[c] == n {
								by++
							}
							for _, f := range j.g.list[c] {
								if f == n {
									by++
									break
								}
							}
						}
						if n != "/tal" && n != "ta.cer" && by > 1 {
							by--
						}
						if res.Requests[p] > by {
							return vk.Failf("file requested more often than it is referred to", "graph %s: %s requested %d times by %d references", j.g, n, res.Requests[p], by)
						}
					}
					if !m.hash && j.add && !m.inval {
						for p := range base.Roa {
							if !res.Roa[p] && !(strings.HasSuffix(p, "rb.roa") && res.Roa[flat+"rb2.roa"]) {
								return vk.Failf("further references lost a valid ROA", "graph %s: %s", j.g, p)
							}
						}
					}
					return nil
				})
				r.Traces(1)
				r.State(fmt.Sprintf("%v %s", m, j.g))
			}
		})
	}
}
func sortedKeys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
