package hocto

import (
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/cloudflare/cfrpki/zzverif/world"
)

func init() { checks["B07"] = b07 }

// B07: whatever is in the cache when the program starts, or was served before,
// a round in which every server works leads to the complete result.

const httpsTA07 = "https://h0.example.net/ta/a.cer"

// gens07 are the same publication at three times: now, at an earlier time
// (still valid), and so early that manifests and CRLs have expired.
func gens07(transport string, https bool) (cur *world.World, gens map[byte]map[string][]byte) {
	gens = map[byte]map[string][]byte{}
	for _, k := range "cox" {
		b := world.NewBuilder()
		asn := int64(1)
		switch k {
		case 'o':
			asn = 11
			b.MT, b.MN = world.T0.Add(-20*time.Hour), world.T0.Add(8*time.Hour)
		case 'x':
			asn = 21
			b.MT, b.MN = world.T0.Add(-60*time.Hour), world.T0.Add(-36*time.Hour)
		}
		w := b.TA("a", "h0.example.net", everything())
		if https {
			w.TAL.URI = []string{httpsTA07, w.TAL.URI[0]}
			if k == 'o' { // reissued since then
				w.TA.Cert.Res = world.Res{V4: []world.Rng{world.PR("10.0.0.0/16")}, AS: []world.ARng{{Lo: 1, Hi: 9}}}
				w.TA.Cert.Serial++
			}
		}
		k1 := b.Kid(w.TA, "k1", "h1.example.net", everything())
		g := b.Kid(k1, "g", "h2.example.net", everything())
		for i, ca := range []*world.CA{w.TA, k1, g} {
			if transport[i] == 'R' {
				ca.Cert.RRDP = epURL(hostOf(ca.Dir), "rrdp")
			}
			b.ROA(ca, fmt.Sprintf("r%d", i), asn+int64(i), world.E(fmt.Sprintf("10.%d.0.0/16", i), 24))
			if k != 'c' {
				ca.MftNum--
			}
		}
		gens[byte(k)] = w.Files()
		if k == 'c' {
			cur = w
		}
	}
	return
}

type case07 struct {
	transport string // of a, k1, g: r rsync, R RRDP
	base      byte   // what all files are: c current, a absent, o old, x expired
	per       string // base of the files of each server
	dev       [][2]int
	state     string // rrdp.json: "", "garbage", "old"
	served    bool   // not in the cache, but served at first
	restart   bool   // served: a new process gets the good content
	oneoff    bool
	https     bool // the TAL names an https location
	loose     bool // strict.manifests off
	noRsync   bool // repositories are not to be had over rsync
}

const states07 = "caehgox"

func (c case07) String() string {
	s := fmt.Sprintf("%s %c%s", c.transport, c.base, c.per)
	for _, d := range c.dev {
		s += fmt.Sprintf(" %d=%c", d[0], states07[d[1]])
	}
	if c.state != "" {
		s += " rrdp.json=" + c.state
	}
	for _, f := range []struct {
		on bool
		n  string
	}{{c.served, "served"}, {c.restart, "restart"}, {c.oneoff, "oneoff"}, {c.loose, "loose"}, {c.https, "https"}, {c.noRsync, "norsync"}} {
		if f.on {
			s += " " + f.n
		}
	}
	return s
}

func (c case07) run(r *vk.Run) *vk.Fail {
	cur, gens := gens07(c.transport, c.https)
	names := keys(gens['c'])
	content := func(u string, st byte) []byte {
		b := gens['c'][u]
		switch st {
		case 'a':
			return nil
		case 'e':
			return []byte{}
		case 'h':
			return b[:len(b)/2]
		case 'g':
			return []byte("<html>not found</html>")
		case 'o', 'x':
			return gens[st][u]
		}
		return b
	}
	mix := map[string][]byte{}
	for i, u := range names {
		st := c.base
		if c.per != "" {
			st = c.per[hostOf(u)[1]-'0']
		}
		for _, d := range c.dev {
			if d[0] == i {
				st = states07[d[1]]
			}
		}
		if b := content(u, st); b != nil {
			mix[u] = b
		}
	}
	e := NewEnv()
	defer e.Close()
	f := newFarm()
	f.publish(cur)
	good := f.files
	if c.served {
		f.files = mix
		for u, s := range f.rrdp {
			m := map[string][]byte{}
			for x, b := range mix {
				if strings.HasPrefix(x, "rsync://"+hostOf(u)+"/") {
					m[x] = b
				}
			}
			s.NewSession()
			s.Objects = map[string][]byte{}
			s.SetObjects(m)
		}
	} else {
		for u, b := range mix {
			e.Put(u, b)
		}
	}
	switch c.state {
	case "garbage":
		fatalIf(os.WriteFile(e.Cache+"/rrdp.json", []byte("{\"x"), 0600))
	case "old":
		s := "{"
		for _, u := range keys08(f.rrdp) {
			s += fmt.Sprintf("%q:{\"RsyncURL\":%q,\"Path\":%q,\"SessionID\":\"11111111-af9e-4dca-bdda-719cce2c4e01\",\"Serial\":1},", u, "rsync://"+hostOf(u)+"/repo", u)
		}
		fatalIf(os.WriteFile(e.Cache+"/rrdp.json", []byte(strings.TrimSuffix(s, ",")+"}"), 0600))
	}
	f.attach(e)
	if inner := e.Rsync; c.noRsync {
		e.Rsync = func(uri, dest string, args []string) (string, string, int) {
			if !strings.Contains(uri, "/ta/") {
				return "", "rsync: failed to connect", 10
			}
			return inner(uri, dest, args)
		}
	}
	if inner := e.HTTP; c.https {
		e.HTTP = func(rq *http.Request) (*http.Response, error) {
			if rq.URL.String() == httpsTA07 {
				if b, ok := f.files[cur.TAL.URI[1]]; ok {
					return Resp(200, b), nil
				}
				return Resp(404, nil), nil
			}
			return inner(rq)
		}
	}
	e.Flags["tal.root"] = e.TAL("a.tal", cur.TALBytes())
	e.Flags["tal.name"] = "A"
	if c.loose {
		e.Flags["strict.manifests"] = "false"
	}
	want := "AS1 10.0.0.0/16-24 AS2 10.1.0.0/16-24 AS3 10.2.0.0/16-24"
	var got string
	var code int
	list := func() {
		var l *listJSON
		code, l, _ = e.List()
		got = ""
		if l != nil {
			got = vrps07(l)
		}
	}
	phase := 0
	if c.oneoff {
		e.Flags["mode"] = "oneoff"
	}
	good2 := func() {
		phase = 1
		f.publish(cur)
		f.files = good
	}
	e.OnIdle = func(n int) bool {
		if c.served && phase == 0 {
			if c.restart {
				return false
			}
			good2()
			return true
		}
		list()
		return false
	}
	e.Exec()
	if fl := e.Died(); fl != nil {
		return fl
	}
	if c.served && c.restart {
		good2()
		e.Exec()
		if fl := e.Died(); fl != nil {
			return fl
		}
	}
	r.Trans(len(e.R.OpList()))
	if c.oneoff {
		if e.Ended != "returned" {
			return vk.Failf("no-stop", "the program does not end (%s)", e.Ended)
		}
		l := &listJSON{}
		b, err := os.ReadFile(e.Dir + "/output.json")
		if err == nil {
			err = json.Unmarshal(b, l)
		}
		if err != nil {
			return vk.Failf("no-list", "no list is written: %v", err)
		}
		got = vrps07(l)
	} else if e.Ended != "idle" {
		return vk.Failf("no-stop", "the program does not come to rest (%s)", e.Ended)
	} else if code != 200 {
		return vk.Failf("no-list", "no list is served: %d", code)
	}
	r.Outcome(got)
	if got != want {
		return vk.Failf("incomplete", "the result is [%s] instead of [%s]", got, want)
	}
	return nil
}

func keys08(m map[string]*RRDP) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
func vrps07(l *listJSON) string {
	var x []string
	for _, v := range l.Roas {
		x = append(x, fmt.Sprintf("%v %s-%d", v.ASN, v.Prefix, v.MaxLength))
	}
	sort.Strings(x)
	return strings.Join(x, " ")
}

func b07(r *vk.Run) {
	r.Rule = "three CAs on three servers; every content of the cache at the start in which up to two files (thorough: three) deviate (absent, empty, cut off, garbage, an older version, an expired version) from all current, all absent, all older or all expired, x transports x RRDP state files x modes, with the trust anchor certificate over rsync or (with older ones of fewer resources) over https; the same contents served at first, then repaired, with and without a restart; and every combination of current, absent, older and expired repositories; the real program has to arrive at the complete list"
	_, gens := gens07("rrr", false)
	n := len(gens['c'])
	one := func(c case07) {
		r.Case(c.String(), func() *vk.Fail {
			fl := c.run(r)
			r.Traces(1)
			return fl
		})
	}
	tr := []string{"rrr", "RRR", "rRr", "RrR"}
	devs := func(max int, base byte, f func([][2]int)) {
		var rec func(from int, d [][2]int)
		rec = func(from int, d [][2]int) {
			f(append([][2]int{}, d...))
			if len(d) == max {
				return
			}
			for i := from; i < n; i++ {
				for s := range states07 {
					if states07[s] == base {
						continue
					}
					rec(i+1, append(d, [2]int{i, s}))
				}
			}
		}
		rec(0, nil)
	}
	for _, t := range tr {
		for _, base := range []byte("caox") {
			devs(1, base, func(d [][2]int) {
				for v := 0; v < 16; v++ {
					c := case07{transport: t, base: base, dev: d, oneoff: v&1 != 0, loose: v&2 != 0}
					if !r.Thorough() && (v&4 != 0 && (base != 'c' || v&3 != 0) || v&3 == 3 || v&3 != 0 && len(t) > 0 && t[0] != t[1]) {
						continue
					}
					if v&4 != 0 {
						if !strings.Contains(t, "R") {
							continue
						}
						c.state = "garbage"
						if v&8 != 0 {
							c.state = "old"
						}
					} else if v&8 != 0 {
						continue
					}
					one(c)
				}
				for v := 0; v < 4 && (v < 2 || r.Thorough() || t == "rrr"); v++ {
					one(case07{transport: t, base: base, dev: d, served: true, restart: v&1 != 0, loose: v&2 != 0})
				}
			})
		}
	}
	for _, base := range []byte("caox") {
		devs(1, base, func(d [][2]int) {
			for v := 0; v < 12; v++ {
				one(case07{transport: "RRR", base: base, dev: d, noRsync: true, state: []string{"", "garbage", "old"}[v%3], oneoff: v/3 == 1, served: v/3 >= 2, restart: v/3 == 3})
			}
		})
	}
	for _, t := range []string{"rrr", "RRR"} {
		for _, base := range []byte("caox") {
			devs(1, base, func(d [][2]int) {
				for v := 0; v < 4; v++ {
					one(case07{transport: t, base: base, dev: d, https: true, served: v&1 != 0, restart: v&1 != 0 && v&2 != 0, oneoff: v == 2})
				}
			})
		}
	}
	max := 2
	if r.Thorough() {
		max = 3
	}
	for _, t := range tr[:2] {
		for _, base := range []byte("ca") {
			if base == 'a' && t == "RRR" && !r.Thorough() {
				continue
			}
			devs(max, base, func(d [][2]int) {
				if len(d) < 2 {
					return
				}
				one(case07{transport: t, base: base, dev: d})
				if len(d) == 2 && base == 'c' && (t == "rrr" || r.Thorough()) {
					one(case07{transport: t, base: base, dev: d, served: true})
				}
			})
		}
	}
	words(3, "rR", func(t string) {
		words(3, "caox", func(per string) {
			for _, v := range []int{0, 1, 3} {
				one(case07{transport: t, base: per[0], per: per, served: v&1 != 0, restart: v&2 != 0})
			}
		})
	})
}
