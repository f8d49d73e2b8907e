package hocto

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/zzverif/vhook"
	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/cloudflare/cfrpki/zzverif/world"
	"github.com/cloudflare/gortr/prefixfile"
)

func init() {
	checks["C01"] = func(r *vk.Run) { c01(r, "C01") }
	checks["C03"] = func(r *vk.Run) { c01(r, "C03") }
}

// C01 and C03: HTTP requests are interleaved with the validation loop. The
// requests only read, so many of them can share one execution of the loop:
// a request starts when the loop is at state p1, passes i of its own steps,
// pauses, and goes on when the loop has reached state p2, for every
// (p1, i, p2).

type sc1 struct {
	name    string
	chain   int // CAs below the trust anchor, one repository each
	wait    bool
	sign    bool
	refresh string
	limit   int // max.iterations, 0: default
	short   bool
	dirty   bool // with duplicates and entries that are filtered out
	steps   []string
}

func (s sc1) String() string {
	return fmt.Sprintf("%s chain=%d wait=%v sign=%v refresh=%s limit=%d short=%v dirty=%v steps=%s", s.name, s.chain, s.wait, s.sign, s.refresh, s.limit, s.short, s.dirty, strings.Join(s.steps, "+"))
}

type get1 struct {
	ep         string
	cond       string // If-None-Match
	i, j, p3   int    // pauses after i steps, and after j further steps until p3
	t0         time.Time
	code       int
	etag, cc   string
	body       string
	panic      interface{}
	done       bool
	atomic     bool
	start, end int // states of the loop
}

func (g *get1) String() string {
	s := g.ep
	if g.cond != "" {
		s += fmt.Sprintf(" If-None-Match %s", g.cond)
	}
	if g.atomic {
		return fmt.Sprintf("%s at loop state %d", s, g.start)
	}
	if g.j > 0 {
		s += fmt.Sprintf(" (with a pause after another %d steps)", g.j)
	}
	return fmt.Sprintf("%s at loop state %d, paused after %d steps until state %d", s, g.start, g.i, g.end)
}

// exec1 is what happened in one execution.
type exec1 struct {
	gets  []*get1
	ticks []map[string]*get1 // the answers at every loop state
	idle  []map[string]*get1 // the answers while the program waits
	want  [][]string         // the complete lists at those times
	paths [][]string         // and the resources
	etags map[string]string  // etag -> body
	fail  *vk.Fail
}

func (s sc1) grow(b *world.Builder, p *world.CA, i int) *world.CA {
	h := fmt.Sprintf("h%d.example.net", i)
	k := b.Kid(p, fmt.Sprintf("k%d", i), h, everything())
	k.Cert.RRDP = "https://" + h + "/rrdp/notification.xml"
	b.ROA(k, "r", int64(100+i), world.E(fmt.Sprintf("10.%d.0.0/16", i), 24))
	return k
}

// run executes the program once. Requests start at the states p1 with
// p1 mod "mod" = class (none when mod is 0) and continue at p1+1..last.
func (s sc1) run(eps []string, mod, class, last, window int, conds bool) *exec1 {
	x := &exec1{etags: map[string]string{}}
	b := world.NewBuilder()
	w := b.TA("ta", "h0.example.net", everything())
	w.TA.Cert.RRDP = "https://h0.example.net/rrdp/notification.xml"
	b.ROA(w.TA, "r", 100, world.E("10.0.0.0/16", 24))
	if s.dirty {
		b.ROA(w.TA, "d", 100, world.E("10.0.0.0/16", 24), world.E("10.0.0.0/25", 25), world.E("10.0.1.0/24", 24))
	}
	leaf := w.TA
	cas := 0
	for cas < s.chain {
		cas++
		leaf = s.grow(b, leaf, cas)
	}
	w.TAL.URI = []string{w.TAURI()}
	f := newFarm()
	f.publish(w)
	e := NewEnv()
	defer e.Close()
	e.Put(w.TAURI(), w.TA.CertDER())
	f.attach(e)
	for k, v := range map[string]string{"tal.root": e.TAL("t", w.TALBytes()), "tal.name": "T", "refresh": s.refresh,
		"output.wait": fmt.Sprint(s.wait), "output.sign": fmt.Sprint(s.sign)} {
		e.Flags[k] = v
	}
	if s.limit > 0 {
		e.Flags["max.iterations"] = fmt.Sprint(s.limit)
	}
	if s.short {
		e.Flags["output.sign.validity"] = "1ms"
	}
	e.MaxNow = 2000000
	bodies := map[string]string{}
	do := func(g *get1) {
		g.t0 = e.R.GetNow()
		p := g.ep
		if p == "roas" {
			p = e.Out()
		}
		req := httptest.NewRequest("GET", p, nil)
		if g.cond != "" {
			req.Header.Set("If-None-Match", g.cond)
		}
		rec := httptest.NewRecorder()
		e.R.Handler.ServeHTTP(rec, req)
		g.code = rec.Code
		g.etag, g.cc = rec.Header().Get("Etag"), rec.Header().Get("Cache-Control")
		g.body = rec.Body.String()
		if c, ok := bodies[g.body]; ok {
			g.body = c
		} else {
			bodies[g.body] = g.body
		}
		g.done = true
	}
	variants := func() {
		var es []string
		for t := range x.etags {
			es = append(es, t)
		}
		sort.Strings(es)
		for _, t := range es {
			for _, c := range []string{t, t[:len(t)-1], t[:8], t + "0", "0" + t, strings.Repeat("0", len(t))} {
				g := &get1{ep: "roas", cond: c, atomic: true, start: len(x.ticks) - 1, end: len(x.ticks) - 1}
				do(g)
				x.gets = append(x.gets, g)
			}
		}
	}
	sc := &vhook.Sched{}
	type waiting struct {
		t *vhook.Thread
		g *get1
	}
	at := map[int][]waiting{} // by p2
	finish := func(l []waiting, end int) {
		for _, q := range l {
			q.g.end = end
			if p3 := q.g.p3; p3 > end {
				q.g.p3 = 0
				q.t.Run(q.g.j)
				if !q.t.Done {
					at[p3] = append(at[p3], q)
					continue
				}
			}
			q.t.Run(-1)
			if !q.t.Done { // it waits for a lock
				at[end+1] = append(at[end+1], q)
				continue
			}
			q.g.panic = q.t.Panic
		}
	}
	look := func(n int) map[string]*get1 {
		m := map[string]*get1{}
		for _, ep := range eps {
			g := &get1{ep: ep, atomic: true, start: n, end: n}
			t := sc.Spawn(func() { do(g) })
			t.Run(-1)
			g.panic = t.Panic
			x.gets = append(x.gets, g)
			if !t.Done { // it waits for a lock
				g.atomic = false
				at[n+1] = append(at[n+1], waiting{t, g})
				continue
			}
			m[ep] = g
			if g.code == 200 && g.etag != "" && x.etags[g.etag] == "" {
				x.etags[g.etag] = g.body
			}
		}
		return m
	}
	ready := false
	before := 0
	sc.Point = func(n int) {
		if !ready {
			select {
			case <-e.R.HandlerC:
				ready = true
			case <-time.After(10 * time.Millisecond):
				// before the program has started its server
				before++
				return
			}
		}
		n -= before
		x.ticks = append(x.ticks, look(n))
		l := at[n]
		delete(at, n)
		finish(l, n)
		if mod <= 0 || n%mod != class {
			return
		}
		for _, ep := range eps {
			cs := []string{""}
			if conds && ep == "roas" {
				var es []string
				for t := range x.etags {
					es = append(es, t)
				}
				sort.Strings(es)
				cs = append(cs, es...)
			}
			for _, cond := range cs {
				blocked, total := false, 0
			steps:
				for i := 0; i < 200 && !blocked; i++ {
					for p2 := n + 1; p2 <= last; p2++ {
						g := &get1{ep: ep, cond: cond, i: i, start: n}
						t := sc.Spawn(func() { do(g) })
						t.Run(i)
						x.gets = append(x.gets, g)
						if t.Done {
							g.end = n
							g.panic = t.Panic
							break steps
						}
						at[p2] = append(at[p2], waiting{t, g})
						blocked = blocked || t.Blocked
					}
					total = i
				}
				// two pauses
				for i := 0; i <= total && window > 0 && cond == ""; i++ {
					for p2 := n + 1; p2 < n+window && p2 < last; p2++ {
						for j := 1; i+j <= total; j++ {
							for p3 := p2 + 1; p3 <= n+window && p3 <= last; p3++ {
								g := &get1{ep: ep, i: i, j: j, p3: p3, start: n}
								t := sc.Spawn(func() { do(g) })
								t.Run(i)
								x.gets = append(x.gets, g)
								if t.Done {
									g.end, g.panic = n, t.Panic
									continue
								}
								at[p2] = append(at[p2], waiting{t, g})
							}
						}
					}
				}
			}
		}
	}
	e.Sched = sc
	e.OnIdle = func(k int) bool {
		x.idle = append(x.idle, look(len(x.ticks)-1))
		x.want = append(x.want, WantVRPs(w, "T"))
		var ps []string
		w.Walk(func(c *world.CA) {
			if c.Parent == nil {
				ps = append(ps, w.TAURI())
			} else {
				ps = append(ps, c.Parent.Dir+c.File)
			}
			ps = append(ps, c.Dir+c.MftFile)
			for _, o := range c.Roas {
				ps = append(ps, c.Dir+o.File)
			}
		})
		sort.Strings(ps)
		x.paths = append(x.paths, ps)
		if conds {
			variants()
		}
		if k > len(s.steps) {
			for i := 0; i < 1000 && len(at) > 0; i++ {
				var ks []int
				for p := range at {
					ks = append(ks, p)
				}
				sort.Ints(ks)
				for _, p := range ks {
					l := at[p]
					delete(at, p)
					finish(l, len(x.ticks)-1)
				}
			}
			return false
		}
		switch s.steps[k-1] {
		case "same":
		case "edit": // another authorization, as many as before
			w.TA.Roas[0].ASID.SetInt64(w.TA.Roas[0].ASID.Int64() + 1000)
		case "grow":
			cas++
			leaf = s.grow(b, leaf, cas)
		case "edit-grow":
			w.TA.Roas[0].ASID.SetInt64(w.TA.Roas[0].ASID.Int64() + 1000)
			cas++
			leaf = s.grow(b, leaf, cas)
		case "grow2":
			cas += 2
			leaf = s.grow(b, leaf, cas-1)
			leaf = s.grow(b, leaf, cas)
		case "more":
			b.ROA(w.TA, fmt.Sprintf("m%d", k), 777, world.E(fmt.Sprintf("10.200.%d.0/24", k), 24))
		case "less":
			w.TA.Roas = w.TA.Roas[:len(w.TA.Roas)-1]
		}
		f.publish(w)
		return true
	}
	e.Exec()
	x.fail = e.Died()
	if x.fail == nil && e.Ended != "idle" {
		x.fail = vk.Failf("ended", "the program ended: %s", e.Ended)
	}
	return x
}

type list1 struct {
	bad   *vk.Fail
	vrps  string
	valid int64
}
type oracle1 struct{ parsed map[string]*list1 }

func (o *oracle1) parse(body string, sign bool) *list1 {
	if l := o.parsed[body]; l != nil {
		return l
	}
	l := &list1{}
	o.parsed[body] = l
	var p prefixfile.ROAList
	var j listJSON
	if err := json.Unmarshal([]byte(body), &j); err != nil {
		l.bad = vk.Failf("not-a-list", "the body is not a list: %v: %.200s", err, body)
		return l
	}
	json.Unmarshal([]byte(body), &p)
	l.vrps = strings.Join(j.VRPs(), "|")
	l.valid = j.Metadata.Valid
	switch {
	case j.Roas == nil:
		l.bad = vk.Failf("no-entries", "the body has no list of entries: %.200s", body)
	case j.Metadata.Generated == 0:
		l.bad = vk.Failf("never-generated", "the answer is no generated list: %.200s", body)
	case j.Metadata.Counts != len(j.Roas):
		l.bad = vk.Failf("count", "the list says it has %d entries and has %d", j.Metadata.Counts, len(j.Roas))
	case j.Metadata.Valid < j.Metadata.Generated:
		l.bad = vk.Failf("validity", "valid until %d, generated %d", j.Metadata.Valid, j.Metadata.Generated)
	case sign:
		a, b, err := p.CheckFile(&signKey.PublicKey)
		if err != nil || !a || !b {
			l.bad = vk.Failf("signature", "the signatures do not fit the list: %v %v %v: %.300s", a, b, err, body)
		}
	}
	return l
}

func short1(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:4])
}

func paths1(body string) string {
	var j struct {
		Resources []*res6 `json:"resources"`
	}
	if json.Unmarshal([]byte(body), &j) != nil {
		return "?" + body
	}
	var ps []string
	for _, y := range j.Resources {
		ps = append(ps, y.Path)
	}
	sort.Strings(ps)
	return strings.Join(ps, "|")
}

// check decides one execution.
func (s sc1) check(r *vk.Run, x *exec1, prop string) *vk.Fail {
	if x.fail != nil {
		return x.fail
	}
	o := &oracle1{parsed: map[string]*list1{}}
	if len(x.idle) != len(s.steps)+1 {
		return vk.Failf("idles", "%d stable states instead of %d", len(x.idle), len(s.steps)+1)
	}
	complete, resComplete := map[string]bool{}, map[string]bool{}
	for k, m := range x.idle {
		g := m["roas"]
		if g == nil || g.code != 200 {
			return vk.Failf("not-ready-when-stable", "in the %d. stable state the list is not available", k+1)
		}
		l := o.parse(g.body, s.sign)
		if s.limit == 0 && !s.dirty && l.vrps != strings.Join(x.want[k], "|") {
			return vk.Failf("stable-list", "the list of the %d. stable state is %s instead of %s", k+1, l.vrps, strings.Join(x.want[k], "|"))
		}
		complete[l.vrps] = true
		if h := m["/health"]; h != nil && h.code != 200 {
			return vk.Failf("health-when-stable", "in the %d. stable state the health page answers %d", k+1, h.code)
		}
		if h := m["/resources.json"]; h != nil {
			ps := paths1(h.body)
			if s.limit == 0 && ps != strings.Join(x.paths[k], "|") {
				return vk.Failf("stable-resources", "the resource list of the %d. stable state is %s instead of %s", k+1, ps, strings.Join(x.paths[k], "|"))
			}
			resComplete[ps] = true
		}
	}
	gen := map[string]bool{} // lists answered at some state
	for _, m := range x.ticks {
		if g := m["roas"]; g != nil && g.code == 200 {
			gen[o.parse(g.body, s.sign).vrps] = true
		}
	}
	etag := map[string]string{}
	resCache := map[string]string{}
	for _, g := range x.gets {
		if g.end < g.start || g.end >= len(x.ticks) {
			g.end = len(x.ticks) - 1
		}
		if g.panic != nil {
			return vk.Failf("handler-panic:"+g.ep, "%s: the handler panics: %v", g, g.panic)
		}
		if !g.done {
			continue
		}
		bad := func(key, f string, a ...interface{}) *vk.Fail {
			return vk.Failf(key, "%s: %s", g, fmt.Sprintf(f, a...))
		}
		r.Eval(1)
		switch g.ep {
		case "roas":
			switch g.code {
			case 200:
				l := o.parse(g.body, s.sign)
				if prop == "C01" {
					if s.wait && !complete[l.vrps] {
						return bad("partial-list", "200 with the incomplete list %s", l.vrps)
					}
					continue
				}
				if l.bad != nil {
					return bad(l.bad.Key, "%s", l.bad.Desc)
				}
				if !gen[l.vrps] && !complete[l.vrps] {
					return bad("mixed-list", "200 with a list that was never generated: %s", l.vrps)
				}
				if i := strings.Index(g.cc, "max-age="); i >= 0 {
					n, err := strconv.ParseInt(strings.TrimSpace(strings.SplitN(g.cc[i+8:], ",", 2)[0]), 10, 64)
					if err != nil {
						return bad("cache-control", "%q", g.cc)
					}
					if left := time.Unix(l.valid, 0).Sub(g.t0); n > 0 && time.Duration(n)*time.Second > left {
						return bad("max-age", "max-age is %d, but the list is valid for another %v", n, left)
					}
				}
				if g.etag != "" {
					if prev, ok := etag[g.etag]; ok && prev != g.body {
						return bad("etag", "two answers with the Etag %s differ: %.150s | %.150s", g.etag, prev, g.body)
					}
					etag[g.etag] = g.body
				}
			case 304:
				if prop != "C03" {
					continue
				}
				if g.cond == "" {
					return bad("304", "304 for an unconditional request")
				}
				ok := false
				for n := g.start; n <= g.end && !ok; n++ {
					t := x.ticks[n]["roas"]
					ok = t != nil && t.code == 200 && t.body == x.etags[g.cond]
				}
				if !ok {
					return bad("stale-304", "304 although the client's copy was not the current list at any time of the request")
				}
			case 503:
			default:
				return bad("status", "status %d", g.code)
			}
		case "/resources.json":
			if prop != "C01" || !s.wait || g.code != 200 {
				continue
			}
			ps, ok := resCache[g.body]
			if !ok {
				ps = paths1(g.body)
				resCache[g.body] = ps
			}
			if !resComplete[ps] {
				return bad("partial-resources", "200 with the incomplete resource list %s", ps)
			}
		case "/health":
			if prop != "C01" || !s.wait || g.code != 200 {
				continue
			}
			ok := false
			for n := g.start; n <= g.end && !ok; n++ {
				t := x.ticks[n]["roas"]
				ok = t == nil || t.code == 200
			}
			if !ok {
				return bad("health-early", "ready, but no list is available")
			}
		}
	}
	return nil
}

func c01(r *vk.Run, prop string) {
	r.Rule = "every request (p1, i, p2): it starts at loop state p1, pauses after i of its statements and continues at loop state p2; states are those of the real validation loop of the instrumented program, in a chain of repositories discovered round by round, followed by updates"
	scs := []sc1{
		{name: "plain", chain: 2, wait: true, sign: true, refresh: "20m"},
		{name: "update", chain: 0, wait: true, sign: true, refresh: "1ms", steps: []string{"edit", "same", "more", "less"}},
		{name: "grow", chain: 0, wait: true, sign: true, refresh: "1ms", steps: []string{"edit-grow", "edit"}},
		{name: "grow-late", chain: 0, wait: true, sign: true, refresh: "20m", steps: []string{"edit-grow"}},
		{name: "grow2", chain: 1, wait: true, sign: false, refresh: "20m", steps: []string{"grow2"}},
		{name: "limit", chain: 4, wait: true, sign: true, refresh: "1m", limit: 1, steps: []string{"same", "same"}},
		{name: "limit", chain: 4, wait: true, sign: true, refresh: "1m", limit: 2, steps: []string{"edit"}},
		{name: "nowait", chain: 2, wait: false, sign: true, refresh: "1ms", steps: []string{"edit-grow"}},
		{name: "nowait-late", chain: 1, wait: false, sign: true, refresh: "20m", steps: []string{"edit"}},
		{name: "short", chain: 0, wait: true, sign: true, refresh: "1ms", short: true, steps: []string{"edit"}},
		{name: "dirty", chain: 0, wait: true, sign: true, refresh: "1m", dirty: true, steps: []string{"edit", "less"}},
	}
	classes, window := 12, 0
	if r.Thorough() {
		classes, window = 24, 8
		scs = append(scs,
			sc1{name: "long", chain: 4, wait: true, sign: true, refresh: "1ms", steps: []string{"grow2", "edit", "less", "grow"}},
			sc1{name: "nowait-long", chain: 3, wait: false, sign: true, refresh: "1ms", steps: []string{"grow2", "edit", "less"}},
			sc1{name: "limit-long", chain: 6, wait: true, sign: false, refresh: "1ms", limit: 3, steps: []string{"edit", "edit", "edit-grow"}},
		)
	}
	eps := []string{"roas"}
	if prop == "C01" {
		eps = []string{"roas", "/resources.json", "/health"}
	}
	for _, s := range scs {
		s := s
		states := 0
		for k := 0; k < classes; k++ {
			k := k
			id := fmt.Sprintf("%s | p1=%d mod %d", s, k, classes)
			r.Case(id, func() *vk.Fail {
				if states == 0 { // how many states there are
					x := s.run(eps, 0, 0, 0, 0, false)
					if x.fail != nil {
						return x.fail
					}
					states = len(x.ticks) + 2
				}
				x := s.run(eps, classes, k, states, window, prop == "C03")
				r.Count("schedules", int64(len(x.gets)))
				r.Count("loop_states", int64(len(x.ticks)))
				r.Trans(len(x.gets))
				for _, t := range x.ticks {
					if g := t["roas"]; g != nil {
						r.Outcome(fmt.Sprintf("%s %d %s", s.name, g.code, short1(g.body)))
					}
				}
				r.Sample(fmt.Sprintf("%s: %d requests, %d loop states", id, len(x.gets), len(x.ticks)))
				return s.check(r, x, prop)
			})
		}
	}
}
