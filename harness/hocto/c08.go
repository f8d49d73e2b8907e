package hocto

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/cloudflare/cfrpki/zzverif/world"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/prometheus/client_golang/prometheus/promhttp"
)

func init() { checks["C08"] = c08 }

// C08: histories of polls in which repositories publish, fail and recover.
// What the monitoring page says at every rest, and while discovering, is
// compared with what the servers saw.

type metrics map[string]float64

func parseMetrics(s string) metrics {
	m := metrics{}
	for _, l := range strings.Split(s, "\n") {
		if l == "" || l[0] == '#' {
			continue
		}
		i := strings.LastIndexByte(l, ' ')
		if i < 0 {
			continue
		}
		if v, err := strconv.ParseFloat(l[i+1:], 64); err == nil {
			m[l[:i]] = v
		}
	}
	return m
}

func metricsNow() metrics {
	w := httptest.NewRecorder()
	promhttp.Handler().ServeHTTP(w, httptest.NewRequest("GET", "/metrics", nil))
	return parseMetrics(w.Body.String())
}

type rep08 struct {
	rrdp bool
	st   []byte // per rest: 'o' works, 'f' RRDP answers 500, 'e' RRDP documents are broken, 'd' nothing works, 'p' rsync breaks off
}
type case08 struct {
	reps     []rep08 // of k1 and g
	change   string  // before every later rest: '.' nothing, '+' a ROA more, '-' all ROAs of g gone, 's' a new session
	failover bool
	rrdp     bool
	limit    int
}

func (c case08) String() string {
	s := ""
	for _, r := range c.reps {
		k := "rsync"
		if r.rrdp {
			k = "rrdp"
		}
		s += k + "=" + string(r.st) + " "
	}
	s += "changes=" + c.change
	if !c.failover {
		s += " nofailover"
	}
	if !c.rrdp {
		s += " norrdp"
	}
	if c.limit > 0 {
		s += fmt.Sprint(" limit=", c.limit)
	}
	return s
}

var wanted08 = regexp.MustCompile(`\.(cer|crl|gbr|roa|mft)$`)

func (c case08) run(r *vk.Run) *vk.Fail {
	b := world.NewBuilder()
	w := b.TA("a", "h0.example.net", everything())
	k1 := b.Kid(w.TA, "k1", "h1.example.net", everything())
	g := b.Kid(k1, "g", "h2.example.net", everything())
	w2 := b.TA("b", "h3.example.net", everything())
	b.ROA(w.TA, "r0", 1, world.E("10.0.0.0/8", 24))
	b.ROA(k1, "r1", 2, world.E("10.1.0.0/16", 16), world.E("2001:db8::/32", 64))
	b.ROA(g, "r2", 3, world.E("10.2.0.0/16", 20))
	b.ROA(w2.TA, "r3", 4, world.E("11.0.0.0/8", 24), world.E("12.0.0.0/8", 8), world.E("13.0.0.0/8", 9))
	ws := []*world.World{w, w2}
	rrdpOf := func(ca *world.CA, on bool) {
		if on {
			ca.Cert.RRDP = epURL(hostOf(ca.Dir), "rrdp")
		}
	}
	rrdpOf(w.TA, true)
	rrdpOf(k1, c.reps[0].rrdp)
	rrdpOf(g, c.reps[1].rrdp)

	e := NewEnv()
	defer e.Close()
	f := newFarm()
	var tals []string
	for i, x := range ws {
		tals = append(tals, e.TAL([]string{"A", "B"}[i]+".tal", x.TALBytes()))
	}
	pub := func() {
		f.publish(ws...)
		for _, x := range ws {
			e.Put(x.TAURI(), x.TA.CertDER())
		}
	}
	pub()
	e.Flags["tal.root"] = strings.Join(tals, ",")
	e.Flags["tal.name"] = "A,B"
	e.Flags["filter"] = "false"
	e.Flags["output.wait"] = "true"
	if !c.failover {
		e.Flags["rrdp.failover"] = "false"
	}
	if !c.rrdp {
		e.Flags["rrdp"] = "false"
	}
	if c.limit > 0 {
		e.Flags["max.iterations"] = fmt.Sprint(c.limit)
	}

	phase := 0
	state := func(host string) byte {
		for i, h := range []string{"h1.example.net", "h2.example.net"} {
			if h == host {
				return c.reps[i].st[phase]
			}
		}
		return 'o'
	}
	type seen struct {
		errs, files int
		ok          bool
		at          int64
		serial      int64
		fresh       bool // the last fetch worked
	}
	var mu sync.Mutex
	rr, rs := map[string]*seen{}, map[string]*seen{}
	get := func(m map[string]*seen, k string) *seen {
		if m[k] == nil {
			m[k] = &seen{}
		}
		return m[k]
	}
	base := metricsNow()
	d := func(m metrics, k string) int { return int(m[k] - base[k]) }
	page := func() metrics {
		x := e.Get("/metrics")
		if x == nil {
			return nil
		}
		return parseMetrics(x.Body.String())
	}
	label := func(n string, kv ...string) string {
		var l []string
		for i := 0; i < len(kv); i += 2 {
			l = append(l, fmt.Sprintf("%s=%q", kv[i], kv[i+1]))
		}
		return n + "{" + strings.Join(l, ",") + "}"
	}
	valCount := label("operation_time_count", "type", "validation")
	valsAtRest := 0
	var midFail *vk.Fail
	var last int64 // when something was fetched
	mid := func(host string) {
		if host != "h0.example.net" {
			return // once per round
		}
		m := page()
		now := e.R.GetNow().Unix()
		if m == nil {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		last = now
		if midFail != nil || d(m, valCount) == valsAtRest {
			return
		}
		// a validation of this discovery has ended without being stable
		if m["state"] != 0 {
			midFail = vk.Failf("state-discovering", "while it still discovers repositories the state is %v", m["state"])
		}
		if int64(m["last_validation"]) != now {
			midFail = vk.Failf("last-validation", "the last validation was at %d but last_validation is %v", now, m["last_validation"])
		}
		if h := e.Get("/health"); phase == 0 && h.Code == 200 {
			midFail = vk.Failf("health-discovering", "the health page says 200 before the first result is there")
		}
	}
	e.HTTP = func(rq *http.Request) (*http.Response, error) {
		mid(rq.URL.Host)
		mu.Lock()
		defer mu.Unlock()
		u := rq.URL.String()
		for n, s := range f.rrdp {
			b, ok := s.Get(u)
			if !ok {
				continue
			}
			x := get(rr, n)
			st := state(rq.URL.Host)
			if u == n {
				x.files, x.ok, x.fresh = 0, true, true
				x.at, x.serial = e.R.GetNow().Unix(), s.Serial
				if st == 'f' || st == 'd' {
					x.errs++
					x.ok, x.fresh = false, false
					return Resp(500, nil), nil
				}
			} else {
				if st == 'e' {
					if x.fresh {
						x.errs++
					}
					x.ok, x.fresh = false, false
					b = b[:len(b)/2]
				}
				x.files += strings.Count(b, "<publish ")
			}
			return Resp(200, []byte(b)), nil
		}
		return Resp(404, nil), nil
	}
	e.Rsync = func(uri, dest string, args []string) (string, string, int) {
		mid(hostOf(uri))
		mu.Lock()
		defer mu.Unlock()
		x := get(rs, uri)
		x.at, x.files, x.fresh = e.R.GetNow().Unix(), 0, true
		switch state(hostOf(uri)) {
		case 'd':
			x.errs++
			x.fresh = false
			return "", "rsync error", 10
		case 'p':
			x.errs++
			x.fresh = false
			out, _ := RsyncCopy(e.Dir, f.files, uri, dest)
			return out, "rsync error", 23
		}
		out, code := RsyncCopy(e.Dir, f.files, uri, dest)
		if code != 0 {
			x.errs++
			x.fresh = false
		}
		for _, l := range strings.Split(out, "\n") {
			if wanted08.MatchString(l) {
				x.files++
			}
		}
		return out, "", code
	}
	rounds := 0
	judge := func() *vk.Fail {
		m := page()
		if m == nil {
			return vk.Failf("page", "no monitoring page")
		}
		l, fl := e.list08()
		if fl != nil {
			return fl
		}
		now := last
		is := func(key, k string, want float64) *vk.Fail {
			if v, ok := m[k]; !ok || v != want {
				return vk.Failf(key, "%s is %v (%v) instead of %v", k, v, ok, want)
			}
			return nil
		}
		var fs []*vk.Fail
		fs = append(fs, is("state", "state", 1), is("last-validation", "last_validation", float64(now)), is("last-stable", "last_stable_validation", float64(now)))
		for _, t := range []string{"A", "B"} {
			fs = append(fs, is("roas", label("roas", "ta", t), float64(l[t])))
		}
		for n, x := range rr {
			if v := d(m, label("rrdp_errors", "address", n)); v != x.errs {
				fs = append(fs, vk.Failf("rrdp-errors", "%s: %d errors are counted, there were %d", n, v, x.errs))
			}
			if !x.ok {
				continue
			}
			fs = append(fs, is("rrdp-serial", label("rrdp_serial", "address", n), float64(x.serial)))
			fs = append(fs, is("rrdp-time", label("last_fetch", "address", n, "type", "rrdp"), float64(x.at)))
			fs = append(fs, is("rrdp-files", label("file_count_sia", "address", n, "type", "rrdp"), float64(x.files)))
		}
		for n, x := range rs {
			if v := d(m, label("rsync_errors", "address", n)); v != x.errs {
				fs = append(fs, vk.Failf("rsync-errors", "%s: %d errors are counted, there were %d", n, v, x.errs))
			}
			if !x.fresh {
				continue
			}
			fs = append(fs, is("rsync-time", label("last_fetch", "address", n, "type", "rsync"), float64(x.at)))
			fs = append(fs, is("rsync-files", label("file_count_sia", "address", n, "type", "rsync"), float64(x.files)))
		}
		v := d(m, valCount)
		for _, t := range []string{"tal", "rsync", "rrdp"} {
			want := v
			if t == "rrdp" && !c.rrdp {
				want = 0
			}
			if n := d(m, label("operation_time_count", "type", t)); n != want {
				fs = append(fs, vk.Failf("operations", "%d operations of kind %s are counted in %d rounds", n, t, v))
			}
		}
		if v <= rounds {
			fs = append(fs, vk.Failf("operations", "no validation is counted"))
		}
		rounds = v
		valsAtRest = v
		if h := e.Get("/health"); h.Code != 200 {
			fs = append(fs, vk.Failf("health", "the health page says %d at rest", h.Code))
		}
		for _, x := range fs {
			if x != nil {
				return x
			}
		}
		r.Outcome(fmt.Sprint(l["A"], l["B"], len(rr), len(rs), v))
		return nil
	}
	var fail *vk.Fail
	e.OnIdle = func(n int) bool {
		mu.Lock()
		fail = midFail
		mu.Unlock()
		if fail == nil {
			fail = judge()
		}
		if fail != nil {
			fail.Desc = fmt.Sprintf("rest %d: %s", n, fail.Desc)
			return false
		}
		r.Trans(1)
		if phase == len(c.change) {
			return false
		}
		mu.Lock()
		defer mu.Unlock()
		switch c.change[phase] {
		case '+':
			b.ROA(g, fmt.Sprintf("n%d", phase), int64(50+phase), world.E(fmt.Sprintf("10.%d.0.0/16", 100+phase), 24))
		case '-':
			g.Roas = nil
		case '0': // trust anchor B has no ROAs any more
			w2.TA.Roas = nil
		case 'z': // nor A
			w.Walk(func(c *world.CA) { c.Roas = nil })
		case 's':
			for _, s := range f.rrdp {
				s.NewSession()
			}
		}
		pub()
		phase++
		e.R.Advance(17 * time.Second)
		return true
	}
	e.Exec()
	if os.Getenv("VK_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, e.Errors, e.Ended)
	}
	if fail != nil {
		return fail
	}
	if fl := e.Died(); fl != nil {
		return fl
	}
	if e.Ended != "idle" {
		return vk.Failf("no-stop", "the program does not come to rest (%s)", e.Ended)
	}
	return nil
}

// list08 counts what is on the list by trust anchor.
func (e *Env) list08() (map[string]int, *vk.Fail) {
	code, l, err := e.List()
	if l == nil {
		return nil, vk.Failf("no-list", "no list at rest (%d %v)", code, err)
	}
	m := map[string]int{}
	for _, x := range l.Roas {
		m[x.TA]++
	}
	return m, nil
}

func c08(r *vk.Run) {
	r.Rule = "histories of three rests with every combination of how two repositories (RRDP or rsync) behave in each (working, RRDP failing at the notification or in a document, rsync breaking off, nothing working) and of what is published between them; the monitoring page of the real program is compared with what the servers saw, at every rest and at every request of the discovery"
	// Costly, and nothing to do with the program.
	prometheus.Unregister(prometheus.NewGoCollector())
	prometheus.Unregister(prometheus.NewProcessCollector(prometheus.ProcessCollectorOpts{}))
	one := func(c case08) {
		r.Case(c.String(), func() *vk.Fail {
			fl := c.run(r)
			r.Traces(1)
			return fl
		})
	}
	rests := 3
	words(2, "rn", func(kinds string) {
		al := func(k byte) string {
			if k == 'r' {
				return "ofed"
			}
			return "opd"
		}
		words(rests, al(kinds[0]), func(s1 string) {
			words(rests, al(kinds[1]), func(s2 string) {
				words(rests-1, ".+-s0z", func(ch string) {
					if strings.ContainsAny(ch, "0z") && strings.ContainsAny(ch, "-s") {
						return
					}
					c := case08{reps: []rep08{{kinds[0] == 'r', []byte(s1)}, {kinds[1] == 'r', []byte(s2)}}, change: ch, failover: true, rrdp: true}
					small := s1 == "ooo" || s2 == "ooo"
					few := map[string]bool{"+-": true, "s+": true, "-s": true}
					calm := strings.Count(s1+s2, "o") >= 2*rests-1
					if calm || r.Thorough() || small && few[ch] || ch == "+-" && s1[0] == 'o' {
						one(c)
					}
					if ch == "+." || r.Thorough() {
						if small && (calm || s1[0] != 'o' || s2[0] != 'o' || r.Thorough()) {
							c.failover = false
							one(c)
							c.failover = true
							c.rrdp = false
							one(c)
							c.rrdp = true
						}
						for l := 1; l < 4 && (calm || r.Thorough() && small); l++ {
							c.limit = l
							one(c)
						}
					}
				})
			})
		})
	})
}
