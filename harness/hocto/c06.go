package hocto

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/cloudflare/cfrpki/zzverif/world"
)

func init() { checks["C06"] = c06 }

// ---- servers for worlds whose certificates name any number of endpoints ----

type farm struct {
	files map[string][]byte
	rrdp  map[string]*RRDP // by notification URL
	has   func(u, x string) bool
}

func newFarm() *farm { return &farm{files: map[string][]byte{}, rrdp: map[string]*RRDP{}} }

// publish makes the servers offer exactly the given worlds.
func (f *farm) publish(ws ...*world.World) {
	f.files = map[string][]byte{}
	for _, w := range ws {
		w.AddFiles(f.files)
		w.Walk(func(c *world.CA) {
			if u := c.Cert.RRDP; u != "" && f.rrdp[u] == nil {
				f.rrdp[u] = NewRRDP(strings.TrimSuffix(u, "/notification.xml"))
			}
		})
	}
	for u, s := range f.rrdp {
		m := map[string][]byte{}
		for x, b := range f.files {
			if strings.HasPrefix(x, "rsync://"+hostOf(u)+"/") && (f.has == nil || f.has(u, x)) {
				m[x] = b
			}
		}
		// Also at first, so that the delta of every serial number seen is
		// offered: with a snapshot, withdrawn files stay in the cache.
		s.SetObjects(m)
	}
}
func (f *farm) attach(e *Env) {
	e.HTTP = func(rq *http.Request) (*http.Response, error) {
		if os.Getenv("VK_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "GET", rq.URL)
		}
		for _, s := range f.rrdp {
			if b, ok := s.Get(rq.URL.String()); ok {
				return Resp(200, []byte(b)), nil
			}
		}
		return Resp(404, []byte("not found")), nil
	}
	e.Rsync = func(uri, dest string, args []string) (string, string, int) {
		out, code := RsyncCopy(e.Dir, f.files, uri, dest)
		return out, "", code
	}
}

// ---- the resource list ----

type res6 struct {
	Type           string   `json:"type"`
	Name           string   `json:"name"`
	SubjectKeyId   string   `json:"subject-key-id"`
	AuthorityKeyId string   `json:"authority-key-id"`
	Path           string   `json:"path"`
	Hash           string   `json:"hash"`
	TA             string   `json:"ta"`
	SIAs           []string `json:"sia"`
	IPs            []ip6    `json:"ips"`
	ASNs           []asn6   `json:"asns"`
	ROAs           []roa6   `json:"roas"`
	ASN            uint32   `json:"asn"`
	Emitted        int64    `json:"emitted"`
	ValidFrom      int64    `json:"validfrom"`
	ValidTo        int64    `json:"validto"`
	Serial         string   `json:"serial"`
	FileList       []string `json:"mft-files"`
	ManifestNumber string   `json:"mft-number"`
	ThisUpdate     int64    `json:"mft-thisupdate"`
	NextUpdate     int64    `json:"mft-nextupdate"`
}
type ip6 struct {
	Prefix  string   `json:"prefix,omitempty"`
	Range   []string `json:"ip-range,omitempty"`
	Inherit int      `json:"inherit,omitempty"`
}
type asn6 struct {
	ASN     uint32   `json:"asn,omitempty"`
	Range   []uint32 `json:"asn-range,omitempty"`
	Inherit bool     `json:"inherit,omitempty"`
}
type roa6 struct {
	Prefix    string `json:"prefix"`
	MaxLength int    `json:"max-length"`
}

func ski6(c *world.Cert) string {
	if c.SKI != nil {
		return hex.EncodeToString(c.SKI)
	}
	return hex.EncodeToString(c.Key.SKI)
}

// describe is what the list has to say about a CA certificate.
func describe(c *world.Cert, issuer *world.Cert) *res6 {
	x := &res6{Type: "certificate", SubjectKeyId: ski6(c), Serial: fmt.Sprint(c.Serial), ValidFrom: c.NB.Unix(), ValidTo: c.NA.Unix()}
	x.Name = strings.ToUpper(x.SubjectKeyId)
	if issuer != nil {
		x.AuthorityKeyId = ski6(issuer)
	}
	for _, u := range []string{c.CARepo, c.RRDP, c.Mft, c.SignedObj} {
		if u != "" {
			x.SIAs = append(x.SIAs, u)
		}
	}
	ips := func(l []world.Rng, inh bool, fam int) {
		if inh {
			x.IPs = append(x.IPs, ip6{Inherit: fam})
			return
		}
		for _, g := range l {
			if p, ok := g.AsPrefix(); ok && !g.Range {
				x.IPs = append(x.IPs, ip6{Prefix: p.String()})
			} else {
				x.IPs = append(x.IPs, ip6{Range: []string{g.Lo.String(), g.Hi.String()}})
			}
		}
	}
	if !c.Res.NoIP {
		ips(c.Res.V4, c.Res.V4Inh, 1)
		ips(c.Res.V6, c.Res.V6Inh, 2)
	}
	if !c.Res.NoAS {
		if c.Res.ASInh {
			x.ASNs = append(x.ASNs, asn6{Inherit: true})
		} else {
			for _, a := range c.Res.AS {
				if a.Lo == a.Hi && !a.Range {
					x.ASNs = append(x.ASNs, asn6{ASN: uint32(a.Lo)})
				} else {
					x.ASNs = append(x.ASNs, asn6{Range: []uint32{uint32(a.Lo), uint32(a.Hi)}})
				}
			}
		}
	}
	return x
}

type state6 struct {
	res    map[string]*res6 // by type and path
	any    map[string]bool
	repos  map[string]map[string]map[string]bool // label -> repository -> endpoints
	counts map[string]int
	vrps   map[string]bool
	loose  map[string]bool // labels with objects the model leaves open
}

// model says what the pages have to show.
func model6(labels []string, ws []*world.World) *state6 {
	m := &state6{res: map[string]*res6{}, any: map[string]bool{}, repos: map[string]map[string]map[string]bool{}, counts: map[string]int{}, vrps: map[string]bool{}, loose: map[string]bool{}}
	for i, w := range ws {
		ta := labels[i]
		x := w.Eval(world.DefaultOpts())
		files := w.Files()
		add := func(v world.Verdict, path string, d *res6) bool {
			d.Path, d.TA = path, ta
			h := sha256.Sum256(files[path])
			d.Hash = hex.EncodeToString(h[:])
			switch v {
			case world.MustValid:
				m.res[d.Type+" "+path+" "+ta] = d
				return true
			case world.Any:
				m.any[d.Type+" "+path+" "+ta] = true
				if d.Type != "manifest" {
					m.loose[ta] = true
				}
			}
			return false
		}
		if m.repos[ta] == nil {
			m.repos[ta] = map[string]map[string]bool{}
		}
		m.counts[ta] += 0
		w.Walk(func(c *world.CA) {
			u, iss := w.TAURI(), (*world.Cert)(nil)
			if c.Parent != nil {
				u, iss = c.Parent.Dir+c.File, &c.Parent.Cert
			}
			if add(x.Cert[u], u, describe(&c.Cert, iss)) {
				p := strings.Split(c.Cert.CARepo, "/")
				mod := strings.Join(p[:4], "/")
				if m.repos[ta][mod] == nil {
					m.repos[ta][mod] = map[string]bool{}
				}
				m.repos[ta][mod][c.Cert.RRDP] = true
			}
			mu := c.Dir + c.MftFile
			d := describe(&c.MftEE, &c.Cert)
			d.Type, d.SIAs, d.IPs, d.ASNs = "manifest", nil, nil, nil
			d.FileList = c.Listing(c.Products())
			d.ManifestNumber = fmt.Sprint(c.MftNum)
			d.ThisUpdate, d.NextUpdate = c.MftThis.Unix(), c.MftNext.Unix()
			add(x.Mft[mu], mu, d)
			for _, r := range c.Roas {
				ru := c.Dir + r.File
				d := describe(&r.EE, &c.Cert)
				d.Type, d.SIAs, d.IPs, d.ASNs = "roa", nil, nil, nil
				d.ASN = uint32(r.ASID.Uint64())
				d.Emitted = world.T0.Add(-24 * time.Hour).Unix()
				for _, e := range r.Entries {
					g := e.Rng()
					p, _ := g.AsPrefix()
					ml := e.Bits
					if e.MaxLen != nil {
						ml = int(*e.MaxLen)
					}
					d.ROAs = append(d.ROAs, roa6{p.String(), ml})
				}
				if add(x.Roa[ru], ru, d) {
					for _, e := range d.ROAs {
						m.counts[ta]++
						m.vrps[fmt.Sprintf("%s,%d,AS%d", e.Prefix, e.MaxLength, d.ASN)] = true
					}
				}
			}
		})
	}
	return m
}

func js(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

// norm makes orders that do not matter comparable.
func (x *res6) norm() map[string]string {
	o := map[string]string{}
	var m map[string]interface{}
	json.Unmarshal([]byte(js(x)), &m)
	for k, v := range m {
		if l, ok := v.([]interface{}); ok {
			var s []string
			for _, y := range l {
				s = append(s, js(y))
			}
			sort.Strings(s)
			o[k] = strings.Join(s, " ")
			continue
		}
		o[k] = js(v)
	}
	for _, k := range []string{"sia", "ips", "asns", "roas", "mft-files"} {
		if o[k] == "null" {
			o[k] = ""
		}
	}
	return o
}

func (e *Env) check6(m *state6) *vk.Fail {
	w := e.Get("/resources.json")
	if w == nil || w.Code != 200 {
		return vk.Failf("status", "the resource list is not served")
	}
	var l struct {
		Metadata struct {
			Generated int64 `json:"generated"`
		} `json:"metadata"`
		Resources []*res6 `json:"resources"`
	}
	if err := json.Unmarshal(w.Body.Bytes(), &l); err != nil {
		return vk.Failf("json", "the resource list is not JSON: %v", err)
	}
	seen := map[string]bool{}
	for _, g := range l.Resources {
		id := g.Type + " " + g.Path + " " + g.TA
		if m.any[id] {
			continue
		}
		want := m.res[id]
		if want == nil {
			return vk.Failf("extra:"+g.Type, "the resource list has the %s, which is not valid", id)
		}
		if seen[id] {
			return vk.Failf("duplicate:"+g.Type, "the resource list has the %s twice", id)
		}
		seen[id] = true
		a, b := g.norm(), want.norm()
		var ks []string
		for k := range b {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if a[k] != b[k] {
				return vk.Failf("field:"+g.Type+"/"+k, "the resource list shows %s of the %s as %s instead of %s", k, id, a[k], b[k])
			}
		}
	}
	var ids []string
	for id := range m.res {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		if !seen[id] {
			return vk.Failf("missing:"+strings.Fields(id)[0], "the resource list does not have the %s", id)
		}
	}
	if g := l.Metadata.Generated; g < world.T0.Unix() || g > e.R.GetNow().Unix() {
		return vk.Failf("generated", "the resource list was generated at %d (now %d)", g, e.R.GetNow().Unix())
	}
	inf, fl := e.Infos()
	if fl != nil {
		return fl
	}
	names := map[string]bool{}
	for _, t := range inf.TAs {
		want := m.repos[t.Name]
		if want == nil || names[t.Name] {
			return vk.Failf("info-ta", "the information page lists the trust anchor %q", t.Name)
		}
		names[t.Name] = true
		if m.loose[t.Name] {
			continue
		}
		have := map[string]bool{}
		for _, s := range t.Sia {
			eps := want[s.Rsync]
			if eps == nil || have[s.Rsync] {
				return vk.Failf("info-repo", "the information page lists the repository %q under %s", s.Rsync, t.Name)
			}
			have[s.Rsync] = true
			if !eps[s.RRDP] || s.RRDP == "" && len(eps) > 1 {
				return vk.Failf("info-rrdp", "the information page shows %q as the RRDP endpoint of %s (of %v)", s.RRDP, s.Rsync, keys6(eps))
			}
		}
		for _, u := range keys2(want) {
			if !have[u] {
				return vk.Failf("info-missing", "the information page does not list the repository %s under %s", u, t.Name)
			}
		}
	}
	for t := range m.repos {
		if !names[t] {
			return vk.Failf("info-ta", "the information page does not list the trust anchor %q", t)
		}
	}
	got := map[string]int{}
	for _, x := range inf.ROAsTALs {
		if m.loose[x.TA] {
			m.counts[x.TA] = 0
			continue
		}
		got[x.TA] += x.Count
	}
	for t := range m.counts {
		got[t] += 0
	}
	if js(got) != js(m.counts) {
		return vk.Failf("info-counts", "the information page counts %s instead of %s", js(got), js(m.counts))
	}
	if len(m.loose) == 0 && inf.ROACount != len(m.vrps) {
		return vk.Failf("info-count", "the information page counts %d authorizations instead of %d", inf.ROACount, len(m.vrps))
	}
	return nil
}

func keys6(m map[string]bool) (o []string) {
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return
}
func keys2(m map[string]map[string]bool) (o []string) {
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return
}

// run6 runs the program on worlds; after each rest, step changes them.
func run6(r *vk.Run, labels []string, ws []*world.World, steps ...func()) *vk.Fail {
	e := NewEnv()
	defer e.Close()
	f := newFarm()
	f.attach(e)
	var tals []string
	for i, w := range ws {
		tals = append(tals, e.TAL(labels[i]+".tal", w.TALBytes()))
	}
	pub := func() {
		f.publish(ws...)
		for _, w := range ws {
			e.Put(w.TAURI(), w.TA.CertDER())
		}
	}
	pub()
	e.Flags["tal.root"] = strings.Join(tals, ",")
	e.Flags["tal.name"] = strings.Join(labels, ",")
	e.Flags["filter"] = "false"
	m := model6(labels, ws)
	var fail *vk.Fail
	e.OnIdle = func(n int) bool {
		if fail = e.check6(m); fail != nil {
			fail.Desc = fmt.Sprintf("at rest %d: %s", n, fail.Desc)
			return false
		}
		if len(steps) == 0 {
			return false
		}
		steps[0]()
		steps = steps[1:]
		pub()
		m = model6(labels, ws)
		return true
	}
	e.Exec()
	if os.Getenv("VK_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, e.Errors)
	}
	if fail != nil {
		return fail
	}
	if fl := e.Died(); fl != nil {
		return fl
	}
	if e.Ended != "idle" {
		return vk.Failf("no-stop", "the program does not come to rest (%s)", e.Ended)
	}
	return nil
}

// base6 is a tree over two trust anchors and four repositories.
func base6() ([]string, []*world.World) {
	b := world.NewBuilder()
	v4 := func(p string) world.Res {
		return world.Res{V4: []world.Rng{world.PR(p)}, V6: []world.Rng{world.PR("2001:db8::/32")}, AS: []world.ARng{{Lo: 1, Hi: 1000}}}
	}
	w := b.TA("a", "h0.example.net", v4("10.0.0.0/8"))
	k1 := b.Kid(w.TA, "k1", "h1.example.net", v4("10.0.0.0/9"))
	k2 := b.Kid(w.TA, "k2", "h0.example.net", v4("10.128.0.0/9"))
	g := b.Kid(k1, "g", "h2.example.net", world.Res{V4Inh: true, V6Inh: true, ASInh: true})
	b.ROA(w.TA, "ra", 1, world.E("10.0.0.0/8", 24))
	b.ROA(k1, "r1", 2, world.E("10.1.0.0/16", 16), world.E("2001:db8:1::/48", 64))
	b.ROA(k1, "r2", 3, world.E("10.2.0.0/16", -1))
	b.ROA(k2, "r3", 4, world.E("10.129.0.0/16", 20))
	b.ROA(g, "r4", 0, world.E("10.3.0.0/25", 32))
	w2 := b.TA("b", "h3.example.net", v4("11.0.0.0/8"))
	k3 := b.Kid(w2.TA, "k3", "h1.example.net", v4("11.1.0.0/16"))
	b.ROA(k3, "r5", 5, world.E("11.1.0.0/16", 24))
	ws := []*world.World{w, w2}
	for _, x := range ws {
		x.Walk(func(c *world.CA) { c.Cert.RRDP = epURL(hostOf(c.Dir), "rrdp") })
	}
	return []string{"A", "B"}, ws
}

type fault6 struct {
	name string
	do   func(ws []*world.World)
}

// faults6 enumerates single faults of the base trees.
func faults6() []fault6 {
	var o []fault6
	_, ws := base6()
	certs := func(ws []*world.World) (l []*world.Cert, names []string, own []*world.CA) {
		for _, w := range ws {
			w.Walk(func(c *world.CA) {
				l, names, own = append(l, &c.Cert), append(names, c.File), append(own, c.Parent)
				l, names, own = append(l, &c.MftEE), append(names, c.MftFile), append(own, c)
				for _, r := range c.Roas {
					l, names, own = append(l, &r.EE), append(names, r.File), append(own, c)
				}
			})
		}
		return
	}
	l, names, owns := certs(ws)
	own := owns
	for i := range l {
		i := i
		n := names[i]
		at := func(f func(c *world.Cert, ca *world.CA)) func([]*world.World) {
			return func(ws []*world.World) {
				l, _, own := certs(ws)
				if i < len(l) && (owns[i] == nil) == (own[i] == nil) {
					f(l[i], own[i])
				}
			}
		}
		o = append(o, fault6{"expire " + n, at(func(c *world.Cert, _ *world.CA) { c.NA = world.T0.Add(-time.Hour) })},
			fault6{"future " + n, at(func(c *world.Cert, _ *world.CA) { c.NB = world.T0.Add(time.Hour * 24 * 30) })},
			fault6{"signature " + n, at(func(c *world.Cert, _ *world.CA) { c.CorruptSig = true })},
			fault6{"serial " + n, at(func(c *world.Cert, _ *world.CA) { c.Serial = 1<<40 + 12345 })},
			fault6{"dates " + n, at(func(c *world.Cert, _ *world.CA) {
				c.NB = time.Date(1999, 12, 31, 23, 59, 59, 0, time.UTC)
				c.NA = time.Date(2051, 1, 1, 0, 0, 0, 0, time.UTC)
			})})
		if own[i] != nil {
			o = append(o, fault6{"revoke " + n, at(func(c *world.Cert, ca *world.CA) { ca.Revoked = append(ca.Revoked, c.Serial) })},
				fault6{"miss " + n, at(func(c *world.Cert, ca *world.CA) {
					if n == ca.MftFile {
						ca.MftMissing = true
					} else {
						ca.Missing[n] = true
					}
				})})
			if !strings.HasSuffix(n, ".mft") {
				o = append(o, fault6{"unlisted " + n, at(func(c *world.Cert, ca *world.CA) { ca.Unlisted[n] = true })},
					fault6{"hash " + n, at(func(c *world.Cert, ca *world.CA) { ca.BadHash[n] = true })})
			}
		}
	}
	for _, n := range []string{"a", "k1", "k2", "g", "b", "k3"} {
		n := n
		at := func(f func(c *world.CA)) func([]*world.World) {
			return func(ws []*world.World) {
				for _, w := range ws {
					if c := w.Find(n); c != nil {
						f(c)
					}
				}
			}
		}
		o = append(o, fault6{"stale manifest " + n, at(func(c *world.CA) { c.MftNext = world.T0.Add(-time.Hour) })},
			fault6{"manifest number " + n, at(func(c *world.CA) { c.MftNum = 1 << 50 })},
			fault6{"manifest times " + n, at(func(c *world.CA) {
				c.MftThis = world.T0.Add(-time.Second)
				c.MftNext = world.T0.Add(365 * 24 * time.Hour)
			})},
			fault6{"extra file " + n, at(func(c *world.CA) { c.Extra["z.gbr"] = []byte{0x30, 0} })},
			fault6{"order " + n, at(func(c *world.CA) {
				p := c.Listing(c.Products())
				for i := len(p) - 1; i >= 0; i-- {
					c.Order = append(c.Order, p[i])
				}
			})},
			fault6{"no endpoint " + n, at(func(c *world.CA) { c.Cert.RRDP = "" })},
			fault6{"other endpoint " + n, at(func(c *world.CA) { c.Cert.RRDP = epURL(hostOf(c.Dir), "second") })},
			fault6{"empty " + n, at(func(c *world.CA) { c.Roas, c.Kids = nil, nil })},
			fault6{"new roa " + n, at(func(c *world.CA) {
				if len(c.Roas) == 0 {
					return
				}
				x := *c.Roas[0]
				x.File = "new.roa"
				x.EE.Key = world.K(24)
				x.EE.Serial = 77
				x.EE.SignedObj = c.Dir + x.File
				x.ASID = big.NewInt(4294967295)
				c.Roas = append(c.Roas, &x)
			})},
			fault6{"gone " + n, at(func(c *world.CA) {
				if c.Parent == nil {
					return
				}
				var k []*world.CA
				for _, y := range c.Parent.Kids {
					if y != c {
						k = append(k, y)
					}
				}
				c.Parent.Kids = k
			})})
	}
	return o
}

func c06(r *vk.Run) {
	r.Rule = "a forest of two trust anchors over four repositories with every fault of a list, alone, in pairs and appearing between rests; every form of certificate resources; all assignments of up to four CAs to modules and endpoints under one or two trust anchors; 1 to 11 repositories with CAs of different endpoints; the resource list and the information page of the real program are compared with a model"
	one := func(id string, f func() *vk.Fail) {
		r.Case(id, func() *vk.Fail {
			fl := f()
			r.Traces(1)
			return fl
		})
	}
	fs := faults6()
	one("base", func() *vk.Fail { l, ws := base6(); return run6(r, l, ws) })
	// one trust anchor under several names
	twice := func(l []string, ws []*world.World) ([]string, []*world.World) {
		return append(l, "C", "D"), append(ws, ws[0], ws[1])
	}
	one("twice", func() *vk.Fail { l, ws := twice(base6()); return run6(r, l, ws, func() {}) })
	one("twice in turn", func() *vk.Fail {
		l, ws := base6()
		return run6(r, append(l, "C"), []*world.World{ws[0], ws[0], ws[1]}, func() {})
	})
	for _, f := range fs {
		f := f
		one("twice, fault "+f.name, func() *vk.Fail { l, ws := base6(); f.do(ws); l, ws = twice(l, ws); return run6(r, l, ws) })
		one("twice, then "+f.name, func() *vk.Fail {
			l, ws := base6()
			l2, ws2 := twice(l, ws)
			return run6(r, l2, ws2, func() { f.do(ws) })
		})
	}
	for i, f := range fs {
		i, f := i, f
		one("fault "+f.name, func() *vk.Fail { l, ws := base6(); f.do(ws); return run6(r, l, ws) })
		one("then "+f.name, func() *vk.Fail { l, ws := base6(); return run6(r, l, ws, func() { f.do(ws) }, func() {}) })
		for j := range fs {
			g := fs[j]
			if i == j || !r.Thorough() && (i*7+j)%8 != 0 {
				continue
			}
			if i < j {
				one("both "+f.name+" + "+g.name, func() *vk.Fail { l, ws := base6(); f.do(ws); g.do(ws); return run6(r, l, ws) })
			}
			if r.Thorough() || (i+j*3)%4 == 0 {
				one("then "+f.name+" then "+g.name, func() *vk.Fail {
					l, ws := base6()
					return run6(r, l, ws, func() { f.do(ws) }, func() { g.do(ws) })
				})
			}
		}
	}
	// resource forms
	pr, rr := world.PR, world.RR
	type form struct {
		n string
		r world.Res
	}
	rg := func(g world.Rng) world.Rng { g.Range = true; return g }
	v4s := []form{{"none", world.Res{}}, {"inh", world.Res{V4Inh: true}}, {"p", world.Res{V4: []world.Rng{pr("10.0.0.0/8")}}}, {"all", world.Res{V4: []world.Rng{pr("0.0.0.0/0")}}},
		{"range", world.Res{V4: []world.Rng{rr("10.0.0.1", "10.0.0.6")}}}, {"prange", world.Res{V4: []world.Rng{rg(pr("10.0.0.0/24"))}}}, {"host", world.Res{V4: []world.Rng{pr("10.0.0.1/32")}}},
		{"many", world.Res{V4: []world.Rng{pr("10.0.0.0/8"), rr("11.0.0.1", "11.0.0.9"), pr("12.0.0.0/30"), rr("13.0.0.0", "14.255.255.255")}}}}
	v6s := []form{{"none", world.Res{}}, {"inh", world.Res{V6Inh: true}}, {"p", world.Res{V6: []world.Rng{pr("2001:db8::/32")}}}, {"all", world.Res{V6: []world.Rng{pr("::/0")}}},
		{"mapped", world.Res{V6: []world.Rng{pr("::ffff:10.0.0.0/104")}}}, {"mrange", world.Res{V6: []world.Rng{rr("::ffff:10.0.0.1", "::ffff:10.0.0.6")}}}, {"low", world.Res{V6: []world.Rng{rr("::", "::ffff:10.0.0.6")}}},
		{"many", world.Res{V6: []world.Rng{pr("::1/128"), rr("2001:db8::1", "2001:db8::9"), pr("2001:db8:1::/48")}}}}
	ass := []form{{"none", world.Res{}}, {"inh", world.Res{ASInh: true}}, {"one", world.Res{AS: []world.ARng{{Lo: 5, Hi: 5}}}}, {"zero", world.Res{AS: []world.ARng{{Lo: 0, Hi: 0}}}},
		{"range", world.Res{AS: []world.ARng{{Lo: 0, Hi: 4294967295}}}}, {"orange", world.Res{AS: []world.ARng{{Lo: 7, Hi: 7, Range: true}}}}, {"many", world.Res{AS: []world.ARng{{Lo: 1, Hi: 1}, {Lo: 3, Hi: 9}, {Lo: 4294967295, Hi: 4294967295}}}}}
	for _, a := range v4s {
		for _, b := range v6s {
			for _, c := range ass {
				if a.n == "none" && b.n == "none" && c.n == "none" {
					continue
				}
				if !r.Thorough() && a.n != "p" && b.n != "p" && c.n != "one" && a.n != b.n {
					continue
				}
				re := world.Res{V4: a.r.V4, V4Inh: a.r.V4Inh, V6: b.r.V6, V6Inh: b.r.V6Inh, AS: c.r.AS, ASInh: c.r.ASInh}
				one("resources v4="+a.n+" v6="+b.n+" as="+c.n, func() *vk.Fail {
					bd := world.NewBuilder()
					w := bd.TA("a", "h0.example.net", everything())
					bd.Kid(w.TA, "k", "h0.example.net", re)
					w.Walk(func(c *world.CA) { c.Cert.RRDP = epURL("h0.example.net", "rrdp") })
					return run6(r, []string{"A"}, []*world.World{w})
				})
			}
		}
	}
	// repositories and endpoints
	type place struct{ mod, ep int }
	var places []place
	for m := 0; m < 3; m++ {
		for ep := 0; ep < 3; ep++ {
			places = append(places, place{m, ep})
		}
	}
	maxk := 3
	if r.Thorough() {
		maxk = 4
	}
	host := []string{"h0.example.net", "h0.example.net", "h1.example.net"}
	mods := []string{"repo", "other", "repo"}
	setPlace := func(c *world.CA, name string, p place) {
		c.Dir = "rsync://" + host[p.mod] + "/" + mods[p.mod] + "/" + name + "/"
		c.Cert.CARepo, c.Cert.Mft = c.Dir, c.Dir+c.MftFile
		c.MftEE.SignedObj, c.MftEE.CRLDP = c.Cert.Mft, c.Dir+c.CrlFile
		for _, k := range c.Kids {
			k.Cert.CRLDP = c.Dir + c.CrlFile
		}
		switch p.ep {
		case 1:
			c.Cert.RRDP = epURL(host[p.mod], "rrdp")
		case 2:
			c.Cert.RRDP = epURL(host[p.mod], "second")
		default:
			c.Cert.RRDP = ""
		}
	}
	build := func(ps []place, own []int) ([]string, []*world.World) {
		b := world.NewBuilder()
		w := b.TA("a", "h0.example.net", everything())
		w2 := b.TA("b", "h1.example.net", everything())
		ws := []*world.World{w, w2}
		for i := range ws {
			setPlace(ws[i].TA, ws[i].Name, place{2 * i, 1})
		}
		for i, p := range ps {
			n := fmt.Sprintf("k%d", i)
			c := b.Kid(ws[own[i]].TA, n, "x", everything())
			setPlace(c, n, p)
		}
		return []string{"A", "B"}, ws
	}
	var all []int
	for i := range places {
		all = append(all, i)
	}
	for n := 1; n <= maxk; n++ {
	tuple:
		for _, t := range tuples(n, all) {
			var ps []place
			for i, x := range t {
				if i > 0 && x < t[i-1] && !r.Thorough() { // unordered
					continue tuple
				}
				ps = append(ps, places[x])
			}
			for m := 0; m < 1<<len(t); m++ {
				if !r.Thorough() && m != 0 && m != 1 && m != 5 && m != 7 && m != 2 {
					continue
				}
				own := make([]int, len(t))
				for i := range own {
					own[i] = m >> i & 1
				}
				one(fmt.Sprintf("places %v owners %v", ps, own), func() *vk.Fail {
					l, ws := build(ps, own)
					return run6(r, l, ws)
				})
			}
		}
	}
	// growing slices
	for n := 1; n <= 11; n++ {
		for first := 0; first < 3; first++ {
			for second := 0; second < 3; second++ {
				one(fmt.Sprintf("repositories %d endpoints %d %d", n, first, second), func() *vk.Fail {
					b := world.NewBuilder()
					w := b.TA("a", "h0.example.net", everything())
					for i := 0; i < n; i++ {
						h := fmt.Sprintf("h%d.example.net", i%((n+1)/2))
						c := b.Kid(w.TA, fmt.Sprintf("k%d", i), h, everything())
						ep := first
						if i >= (n+1)/2 {
							ep = second
						}
						if ep > 0 {
							c.Cert.RRDP = epURL(h, []string{"", "rrdp", "second"}[ep])
						}
					}
					return run6(r, []string{"A"}, []*world.World{w})
				})
			}
		}
	}
}
