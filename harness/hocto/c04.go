package hocto

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net/netip"
	"os"
	"sort"
	"strings"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/cloudflare/cfrpki/zzverif/world"
)

func init() { checks["C04"] = c04 }

// atom is one authorization.
type atom struct {
	asn    int64
	prefix string
	max    int
}

func (a atom) String() string { return fmt.Sprintf("%s-%d=AS%d", a.prefix, a.max, a.asn) }

// vrp is how the list has to show it.
func (a atom) vrp() string {
	return fmt.Sprintf("%s,%d,AS%d", netip.MustParsePrefix(a.prefix), a.max, a.asn)
}

// kept says whether the filter keeps it.
func (a atom) kept() bool {
	p := netip.MustParsePrefix(a.prefix)
	if p.Addr().Is4() {
		return p.Bits() <= 24
	}
	return p.Bits() <= 48
}

// one ROA per list; where[i] = trust anchor, CA below it (0: the anchor itself)
type c04roa struct {
	ta, ca int
	atoms  []atom
}
type c04spec struct {
	tas    int
	roas   []c04roa
	filter bool
	sign   bool
	names  string // "", "few", "many", "same"
	mode   string
	lost   int // this trust anchor has no certificate, -1: none
}

func (c c04spec) String() string {
	s := fmt.Sprintf("tas=%d", c.tas)
	for _, r := range c.roas {
		s += fmt.Sprintf(" %d.%d[", r.ta, r.ca)
		for i, a := range r.atoms {
			if i > 0 {
				s += " "
			}
			s += a.String()
		}
		s += "]"
	}
	s += fmt.Sprintf(" filter=%v sign=%v", c.filter, c.sign)
	if c.names != "" {
		s += " names=" + c.names
	}
	if c.mode != "" {
		s += " mode=" + c.mode
	}
	if c.lost >= 0 {
		s += fmt.Sprintf(" lost=%d", c.lost)
	}
	return s
}

func everything() world.Res {
	return world.Res{V4: []world.Rng{world.PR("0.0.0.0/0")}, V6: []world.Rng{world.PR("::/0")}, AS: []world.ARng{{Lo: 0, Hi: 4294967295}}}
}

func (c c04spec) worlds() []*world.World {
	var ws []*world.World
	b := world.NewBuilder()
	for t := 0; t < c.tas; t++ {
		b.Skip(8 * t)
		h := fmt.Sprintf("h%d.example.net", t)
		w := b.TA(fmt.Sprintf("t%d", t), h, everything())
		w.TA.Cert.RRDP = "https://" + h + "/rrdp/notification.xml"
		kids := map[int]*world.CA{0: w.TA}
		for i, r := range c.roas {
			if r.ta != t {
				continue
			}
			ca := kids[r.ca]
			if ca == nil {
				ca = b.Kid(w.TA, fmt.Sprintf("k%d%d", t, r.ca), h, everything())
				ca.Cert.RRDP = w.TA.Cert.RRDP
				kids[r.ca] = ca
			}
			var es []world.Entry
			for _, a := range r.atoms {
				es = append(es, world.E(a.prefix, a.max))
			}
			x := b.ROA(ca, fmt.Sprintf("r%d", i), r.atoms[0].asn, es...)
			x.ASID = big.NewInt(r.atoms[0].asn)
		}
		ws = append(ws, w)
	}
	return ws
}

func (c c04spec) run(r *vk.Run) *vk.Fail {
	e := NewEnv()
	defer e.Close()
	ws := c.worlds()
	site := NewSite(ws...)
	var tals, names []string
	for i, w := range ws {
		tals = append(tals, e.TAL(fmt.Sprintf("t%d.tal", i), w.TALBytes()))
		names = append(names, fmt.Sprintf("N%d", i))
		if i != c.lost {
			e.Put(w.TAURI(), w.TA.CertDER())
		} else {
			delete(site.Files, w.TAURI())
		}
	}
	labels := names
	switch c.names {
	case "few":
		names, labels = append([]string{}, names[1:]...), tals
		if len(names) == 0 {
			return nil
		}
	case "many":
		names, labels = append(names, "N9"), tals
	case "same":
		for i := range names {
			names[i] = "N"
		}
	}
	site.Attach(e)
	e.Flags["tal.root"] = strings.Join(tals, ",")
	e.Flags["tal.name"] = strings.Join(names, ",")
	e.Flags["filter"] = fmt.Sprint(c.filter)
	e.Flags["output.sign"] = fmt.Sprint(c.sign)
	// The model.
	by := map[string]map[string]bool{} // VRP -> labels it may have
	total := map[string]int{}          // label -> authorizations found
	for i := range ws {
		total[labels[i]] += 0
	}
	for _, x := range c.roas {
		if x.ta == c.lost {
			continue
		}
		for _, a := range x.atoms {
			total[labels[x.ta]]++
			if c.filter && !a.kept() {
				continue
			}
			if by[a.vrp()] == nil {
				by[a.vrp()] = map[string]bool{}
			}
			by[a.vrp()][labels[x.ta]] = true
		}
	}
	judge := func(l *listJSON) *vk.Fail {
		seen := map[string]bool{}
		for _, x := range l.Roas {
			v := x.String()
			switch {
			case by[v] == nil:
				return vk.Failf("extra", "the list has %s, which is not authorized (or to be filtered)", v)
			case seen[v]:
				return vk.Failf("duplicate", "the list has %s twice", v)
			case !by[v][x.TA]:
				return vk.Failf("label", "%s is labelled %q", v, x.TA)
			}
			seen[v] = true
		}
		var vs []string
		for v := range by {
			vs = append(vs, v)
		}
		sort.Strings(vs)
		for _, v := range vs {
			if !seen[v] {
				return vk.Failf("missing", "the list does not have %s", v)
			}
		}
		return nil
	}
	if c.mode == "oneoff" {
		e.Flags["mode"] = "oneoff"
		e.Exec()
		if fl := e.Died(); fl != nil {
			return fl
		}
		if e.Ended != "returned" {
			return vk.Failf("no-stop", "the program does not end (%s)", e.Ended)
		}
		by, err := os.ReadFile(e.Dir + "/output.json")
		if err != nil {
			return vk.Failf("no-file", "no list is written: %v", err)
		}
		l := &listJSON{}
		if err := json.Unmarshal(by, l); err != nil {
			return vk.Failf("json", "the list written is not JSON: %v", err)
		}
		return judge(l)
	}
	var fail *vk.Fail
	e.OnIdle = func(n int) bool {
		code, l, err := e.List()
		if code != 200 || l == nil || err != nil {
			fail = vk.Failf("status", "the list is answered with %d (%v)", code, err)
			return false
		}
		if fail = judge(l); fail != nil {
			return false
		}
		inf, fl := e.Infos()
		if fl != nil {
			fail = fl
			return false
		}
		got := map[string]int{}
		for _, x := range inf.ROAsTALs {
			got[x.TA] += x.Count
		}
		for i := range labels {
			if got[labels[i]] != total[labels[i]] {
				fail = vk.Failf("tal-count", "%d authorizations are counted for %s instead of %d", got[labels[i]], labels[i], total[labels[i]])
				return false
			}
		}
		if inf.ROACount != len(l.Roas) {
			fail = vk.Failf("count", "the information page counts %d authorizations, the list has %d", inf.ROACount, len(l.Roas))
			return false
		}
		return n < 2 && c.lost < 0 // once more after the refresh interval
	}
	e.Exec()
	if os.Getenv("VK_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, e.Errors)
	}
	if fail != nil {
		return fail
	}
	if fl := e.Died(); fl != nil {
		return fl
	}
	if e.Ended != "idle" {
		return vk.Failf("no-stop", "the program does not come to rest (%s)", e.Ended)
	}
	return nil
}

type infoJSON struct {
	Stable bool `json:"stable"`
	TAs    []struct {
		Name string `json:"name"`
		Sia  []struct {
			Rsync string `json:"rsync"`
			RRDP  string `json:"rrdp"`
		} `json:"sia"`
	} `json:"tas"`
	Iteration int   `json:"iteration"`
	Last      int64 `json:"validation-last"`
	ROAsTALs  []struct {
		TA    string `json:"ta"`
		Count int    `json:"count"`
	} `json:"roas-tal-count"`
	ROACount int `json:"roas-count"`
}

// Infos fetches the information page.
func (e *Env) Infos() (*infoJSON, *vk.Fail) {
	w := e.Get("/infos")
	if w == nil || w.Code != 200 {
		return nil, vk.Failf("infos", "the information page is not served")
	}
	i := &infoJSON{}
	if err := json.Unmarshal(w.Body.Bytes(), i); err != nil {
		return nil, vk.Failf("infos", "the information page is not JSON: %v", err)
	}
	return i, nil
}

var c04atoms = []atom{
	{1, "10.0.0.0/24", 24}, {1, "10.0.0.0/24", 25}, {1, "10.0.0.0/24", 32}, {2, "10.0.0.0/24", 24}, {1, "10.0.0.0/25", 25},
	{1, "10.0.0.0/23", 24}, {1, "10.0.1.0/24", 24}, {1, "10.0.0.128/25", 28}, {1, "10.0.0.1/32", 32}, {0, "10.0.0.0/8", 8},
	{1, "0.0.0.0/0", 0}, {4294967295, "0.0.0.0/0", 32}, {12, "10.0.0.0/24", 24},
	{1, "2001:db8::/48", 48}, {1, "2001:db8::/48", 128}, {1, "2001:db8::/49", 49}, {1, "2001:db8::/32", 48}, {2, "2001:db8::/48", 48},
	{1, "2001:db8:0:1::/64", 64}, {1, "::/0", 0}, {65536, "::/0", 128}, {1, "::/48", 48}, {1, "2001:db8::1/128", 128},
	{1, "::ffff:10.0.0.0/120", 120}, {1, "::ffff:0.0.0.0/96", 128}, {1, "::10.0.0.0/120", 120}, {1, "64:ff9b::/96", 96},
	// equal when written without separators
	{1, "8000::/1", 128}, {1, "8000::/11", 28}, {41, "64.0.0.0/2", 2}, {1, "64.0.0.0/2", 24},
	{1, "1.0.0.0/24", 24}, {1, "0.1.0.0/24", 24}, {1, "2001:db8::/47", 48}, {1, "2001:db8::/47", 49}, {1, "2001:db8::/50", 50},
}

func c04(r *vk.Run) {
	r.Rule = "every authorization of a list of boundary cases alone, every pair of them in every placement (same ROA, two ROAs, two CAs, two trust anchors), every multiset of up to four out of five in every distribution over ROAs, CAs and three trust anchors, and these with every filter, name, signing and output setting; the list the real program serves or writes is compared with the set the model has"
	one := func(c c04spec) {
		r.Case(c.String(), func() *vk.Fail {
			f := c.run(r)
			r.Traces(1)
			return f
		})
	}
	fb := []bool{true, false}
	// alone, all settings
	for _, a := range c04atoms {
		for _, fi := range fb {
			for _, si := range fb {
				for _, na := range []string{"", "few", "many"} {
					for _, mo := range []string{"", "oneoff"} {
						for _, ca := range []int{0, 1} {
							for t := 0; t < 2; t++ {
								if !r.Thorough() && (ca == 1 && (t == 1 || na != "") || mo == "oneoff" && na != "" && !si) {
									continue
								}
								one(c04spec{tas: 2, roas: []c04roa{{t, ca, []atom{a}}}, filter: fi, sign: si, names: na, mode: mo, lost: -1})
							}
						}
					}
				}
			}
		}
	}
	// pairs
	for i, a := range c04atoms {
		for j, b := range c04atoms {
			if j < i {
				continue
			}
			for _, fi := range fb {
				if a.asn == b.asn && i != j {
					one(c04spec{tas: 1, roas: []c04roa{{0, 0, []atom{a, b}}}, filter: fi, lost: -1, sign: (i+j)%2 == 0})
				}
				one(c04spec{tas: 1, roas: []c04roa{{0, 0, []atom{a}}, {0, 0, []atom{b}}}, filter: fi, lost: -1, sign: true})
				one(c04spec{tas: 2, roas: []c04roa{{0, 0, []atom{a}}, {1, 0, []atom{b}}}, filter: fi, lost: -1})
				if r.Thorough() {
					one(c04spec{tas: 1, roas: []c04roa{{0, 0, []atom{a}}, {0, 1, []atom{b}}}, filter: fi, lost: -1, mode: "oneoff"})
					one(c04spec{tas: 1, roas: []c04roa{{0, 1, []atom{b}}, {0, 2, []atom{a}}}, filter: fi, lost: -1})
					one(c04spec{tas: 2, roas: []c04roa{{1, 0, []atom{a}}, {0, 0, []atom{b}}}, filter: fi, lost: -1, names: "same"})
				}
			}
		}
	}
	// multisets in every distribution
	few := []atom{c04atoms[0], c04atoms[1], c04atoms[3], c04atoms[4], c04atoms[13]}
	max := 3
	if r.Thorough() {
		max = 4
	}
	slots := []c04roa{{ta: 0, ca: 0}, {ta: 0, ca: 1}, {ta: 1, ca: 0}, {ta: 2, ca: 1}}
	var pick func(from, n int, cur []atom)
	pick = func(from, n int, cur []atom) {
		if n == 0 {
			place := make([]int, len(cur))
			for {
				c := c04spec{tas: 3, filter: (place[0]+len(cur))%2 == 0, sign: place[0]%2 == 1, lost: -1}
				if place[0] == 3 {
					c.mode = "oneoff"
				}
				for i, p := range place {
					x := slots[p]
					x.atoms = []atom{cur[i]}
					c.roas = append(c.roas, x)
				}
				one(c)
				i := 0
				for i < len(place) && place[i] == len(slots)-1 {
					place[i] = 0
					i++
				}
				if i == len(place) {
					break
				}
				place[i]++
			}
			return
		}
		for i := from; i < len(few); i++ {
			pick(i, n-1, append(cur[:len(cur):len(cur)], few[i]))
		}
	}
	for n := 3; n <= max; n++ {
		pick(0, n, nil)
	}
	// long lists
	for _, n := range []int{0, 1, 7, 30} {
		for _, fi := range fb {
			for _, na := range []string{"", "same", "few"} {
				c := c04spec{tas: 3, filter: fi, sign: true, lost: -1, names: na}
				for i := 0; i < n && i < len(c04atoms); i++ {
					a := c04atoms[i]
					if i < 9 || a.asn != 1 {
						c.roas = append(c.roas, c04roa{len(c.roas) % 3, len(c.roas) / 3 % 2, []atom{a}})
						continue
					}
					for j := range c.roas { // to one of the ROAs there are
						x := &c.roas[(i+j)%9]
						if x.atoms[0].asn == 1 {
							x.atoms = append(x.atoms, a)
							break
						}
					}
				}
				if len(c.roas) > 12 {
					c.roas = c.roas[:12]
				}
				one(c)
			}
		}
	}
	// a trust anchor that is not available
	for lost := 0; lost < 3; lost++ {
		for _, na := range []string{"", "few", "many", "same"} {
			for _, fi := range fb {
				c := c04spec{tas: 3, filter: fi, sign: true, lost: lost, names: na}
				for t := 0; t < 3; t++ {
					c.roas = append(c.roas, c04roa{t, 0, []atom{c04atoms[t]}}, c04roa{t, 1, []atom{c04atoms[13]}})
				}
				one(c)
			}
		}
	}
}
