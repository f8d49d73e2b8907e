package hocto

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/cloudflare/cfrpki/zzverif/world"
)

func init() { checks["B04"] = b04 }

// Outcomes of one RRDP poll.
const (
	oOK = iota
	oNoConn
	oStatus
	oData      // the snapshot or delta cannot be had
	oBigNotify // the notification is too large
	oBigData
	oGarbage
)

var oNames = []string{"ok", "noconn", "404", "nodata", "bignotif", "bigdata", "garbage"}

func oFailed(o int) bool { return o != oOK }
func oBig(o int) bool    { return o == oBigNotify || o == oBigData }
func oSteps(o int) int {
	if o == oOK || o == oData || o == oBigData {
		return 2
	}
	return 1
}

type tooBig struct{}

func (tooBig) Read([]byte) (int, error) { return 0, errors.New("http: request body too large") }
func (tooBig) Close() error             { return nil }

// fetchNet is a network whose answers are held back until the explored
// order releases them.
type fetchNet struct {
	mu      sync.Mutex
	e       *Env
	talPath string
	held    []*heldReq
	polls   []map[string]int // per round, by endpoint
	syncs   []map[string]int // per round, by module
	maxHeld int
	early   bool // a validation ran while a fetch was held
	other   []string
}
type heldReq struct {
	key   string
	round int
	ch    chan struct{}
}

// validations counts the validation rounds begun.
func (n *fetchNet) validations() int {
	c := 0
	for _, o := range n.e.R.OpList() {
		if o.Read && o.Path == n.talPath {
			c++
		}
	}
	return c
}

func (n *fetchNet) hold(key string) {
	h := &heldReq{key: key, round: n.validations(), ch: make(chan struct{})}
	n.mu.Lock()
	n.held = append(n.held, h)
	if len(n.held) > n.maxHeld {
		n.maxHeld = len(n.held)
	}
	n.mu.Unlock()
	<-h.ch
}
func (n *fetchNet) count(l *[]map[string]int, key string) {
	r := n.validations()
	n.mu.Lock()
	defer n.mu.Unlock()
	for len(*l) <= r {
		*l = append(*l, map[string]int{})
	}
	(*l)[r][key]++
}
func (n *fetchNet) numHeld() int { n.mu.Lock(); defer n.mu.Unlock(); return len(n.held) }

// release lets the held request go that comes first in the order.
func (n *fetchNet) release(order map[string]int) string {
	v := n.validations()
	n.mu.Lock()
	defer n.mu.Unlock()
	best := -1
	for i, h := range n.held {
		if h.round != v {
			n.early = true
		}
		if best < 0 || order[h.key] < order[n.held[best].key] || order[h.key] == order[n.held[best].key] && h.key < n.held[best].key {
			best = i
		}
	}
	if best < 0 {
		return ""
	}
	h := n.held[best]
	n.held = append(n.held[:best:best], n.held[best+1:]...)
	close(h.ch)
	return h.key
}

// drain releases everything at the end.
func (n *fetchNet) drain() {
	for i := 0; i < 50; i++ {
		for n.release(nil) != "" {
		}
		time.Sleep(100 * time.Microsecond)
		if inflight.Load() == 0 {
			return
		}
	}
}

// A fetch topology: modules and the RRDP endpoints their CAs name.
type topo struct {
	name    string
	mods    []string         // rsync modules
	eps     []string         // endpoint names
	of      []map[int]bool   // per module: its endpoints
	late    func(t *topoRun) // a change of the certificates after the second round
	lateOf  []map[int]bool   // endpoints afterwards
	dropped map[int]bool     // endpoints nobody names any more
	build   func() *world.World
	w       *world.World
}

type topoRun struct {
	t    *topo
	site *Site
	srv  []*RRDP
	e    *Env
}

var b04res = world.Res{V4: []world.Rng{world.PR("10.0.0.0/8")}, AS: []world.ARng{{Lo: 1, Hi: 100}}}

func redir(c *world.CA, dir string) {
	c.Dir = dir
	c.Cert.CARepo, c.Cert.Mft = dir, dir+c.MftFile
	c.MftEE.SignedObj, c.MftEE.CRLDP = c.Cert.Mft, dir+c.CrlFile
}

func epURL(host, name string) string { return "https://" + host + "/" + name + "/notification.xml" }

// plain: a trust anchor and two children, each with a host of its own, with
// or without RRDP.
func plain(rrdp ...bool) *topo {
	t := &topo{name: fmt.Sprintf("plain%v", rrdp)}
	for i, has := range rrdp {
		h := fmt.Sprintf("h%d.example.net", i)
		t.mods = append(t.mods, "rsync://"+h+"/repo")
		m := map[int]bool{}
		if has {
			m[len(t.eps)] = true
			t.eps = append(t.eps, epURL(h, "rrdp"))
		}
		t.of = append(t.of, m)
	}
	t.build = func() *world.World {
		b := world.NewBuilder()
		w := b.TA("ta", "h0.example.net", b04res)
		for i := 1; i < len(rrdp); i++ {
			b.Kid(w.TA, fmt.Sprintf("k%d", i), fmt.Sprintf("h%d.example.net", i), b04res)
		}
		i := 0
		w.Walk(func(c *world.CA) {
			if rrdp[i] {
				c.Cert.RRDP = epURL(fmt.Sprintf("h%d.example.net", i), "rrdp")
			}
			i++
		})
		return w
	}
	return t
}

// sharedModule: two CAs in the same rsync module, each with its own RRDP
// endpoint.
func sharedModule() *topo {
	t := &topo{name: "two endpoints for a module", mods: []string{"rsync://h0.example.net/repo"}, of: []map[int]bool{{0: true, 1: true}},
		eps: []string{epURL("h0.example.net", "rrdp"), epURL("h0.example.net", "second")}}
	t.build = func() *world.World {
		b := world.NewBuilder()
		w := b.TA("ta", "h0.example.net", b04res)
		w.TA.Cert.RRDP = t.eps[0]
		b.Kid(w.TA, "k1", "h0.example.net", b04res).Cert.RRDP = t.eps[1]
		return w
	}
	return t
}

// sharedEndpoint: one RRDP endpoint for two modules of the same host.
func sharedEndpoint() *topo {
	t := &topo{name: "two modules for an endpoint", mods: []string{"rsync://h0.example.net/repo", "rsync://h0.example.net/repo2"}, of: []map[int]bool{{0: true}, {0: true}},
		eps: []string{epURL("h0.example.net", "rrdp")}}
	t.build = func() *world.World {
		b := world.NewBuilder()
		w := b.TA("ta", "h0.example.net", b04res)
		w.TA.Cert.RRDP = t.eps[0]
		k := b.Kid(w.TA, "k1", "h0.example.net", b04res)
		redir(k, "rsync://h0.example.net/repo2/k1/")
		k.Cert.RRDP = t.eps[0]
		return w
	}
	return t
}

// changing: the child's certificate is reissued with other locations.
func changing(name string, before, after []string) *topo {
	// endpoint 0: the trust anchor's
	t := &topo{name: "change " + name, mods: []string{"rsync://h0.example.net/repo", "rsync://h1.example.net/repo"}, eps: []string{epURL("h0.example.net", "rrdp")}, dropped: map[int]bool{}}
	idx := func(l []string) map[int]bool {
		m := map[int]bool{}
		for _, n := range l {
			u := epURL("h1.example.net", n)
			f := -1
			for i, e := range t.eps {
				if e == u {
					f = i
				}
			}
			if f < 0 {
				t.eps = append(t.eps, u)
				f = len(t.eps) - 1
			}
			m[f] = true
		}
		return m
	}
	t.of = []map[int]bool{{0: true}, idx(before)}
	t.lateOf = []map[int]bool{{0: true}, idx(after)}
	for i := range t.of[1] {
		if !t.lateOf[1][i] {
			t.dropped[i] = true
		}
	}
	mk := func(l []string) *world.World {
		b := world.NewBuilder()
		w := b.TA("ta", "h0.example.net", b04res)
		w.TA.Cert.RRDP = t.eps[0]
		k := b.Kid(w.TA, "k1", "h1.example.net", b04res)
		if len(l) > 0 {
			k.Cert.RRDP = epURL("h1.example.net", l[0])
		}
		return w
	}
	t.build = func() *world.World { return mk(before) }
	t.late = func(r *topoRun) {
		r.site = NewSite(mk(after))
		for u, b := range r.site.Files {
			r.e.Put(u, b)
		}
		for i, s := range r.srv {
			s.SetObjects(r.site.under("rsync://" + hostOf(t.eps[i]) + "/"))
		}
	}
	return t
}

// under gives the files below a prefix.
func (s *Site) under(p string) map[string][]byte {
	m := map[string][]byte{}
	for u, b := range s.Files {
		if strings.HasPrefix(u, p) {
			m[u] = b
		}
	}
	return m
}

type b04case struct {
	limit          int
	rrdp, failover bool
	out            [][]int // per round from the second: outcome of each endpoint
	rsyncFail      int     // bit mask of modules
	order          []string
}

func (c b04case) String() string {
	s := fmt.Sprintf("limit=%d rrdp=%v failover=%v", c.limit, c.rrdp, c.failover)
	for _, o := range c.out {
		s += " ["
		for i, x := range o {
			if i > 0 {
				s += " "
			}
			s += oNames[x]
		}
		s += "]"
	}
	return s + fmt.Sprintf(" rsyncfail=%d order=%s", c.rsyncFail, strings.Join(c.order, ","))
}

func (t *topo) run(c b04case, r *vk.Run) *vk.Fail {
	if t.w == nil {
		t.w = t.build()
	}
	e := NewEnv()
	defer e.Close()
	tr := &topoRun{t: t, site: NewSite(t.w), e: e}
	for _, u := range t.eps {
		s := NewRRDP(strings.TrimSuffix(u, "/notification.xml"))
		s.Objects = tr.site.under("rsync://" + hostOf(u) + "/")
		tr.srv = append(tr.srv, s)
	}
	for u, b := range tr.site.Files {
		e.Put(u, b)
	}
	e.Flags["tal.root"] = e.TAL("ta.tal", t.w.TALBytes())
	e.Flags["tal.name"] = "TA"
	e.Flags["rrdp"] = fmt.Sprint(c.rrdp)
	e.Flags["rrdp.failover"] = fmt.Sprint(c.failover)
	e.Flags["max_concurrent_retrievals"] = fmt.Sprint(c.limit)
	n := &fetchNet{e: e, talPath: e.Dir + "/ta.tal"}
	rounds := len(c.out) + 1
	outcome := func(round, ep int) int { // round: 1 = first
		if i := round - 2; i >= 0 && i < len(c.out) {
			return c.out[i][ep]
		}
		return oOK
	}
	// model: what each round has to fetch
	ofAt := func(round int) []map[int]bool {
		if t.late != nil && round > 3 {
			return t.lateOf
		}
		return t.of
	}
	wantPolls := func(round int) (must, may map[int]bool) {
		must, may = map[int]bool{}, map[int]bool{}
		if round < 2 || !c.rrdp {
			return
		}
		for _, m := range ofAt(round) {
			for ep := range m {
				must[ep] = true
			}
		}
		if t.late != nil && round > 3 {
			for ep := range t.dropped {
				may[ep] = true
			}
		}
		return
	}
	wantSync := func(round, m int) bool {
		if round < 2 {
			return false
		}
		eps := ofAt(round)[m]
		if len(eps) == 0 || !c.rrdp {
			return true
		}
		for ep := range eps {
			if o := outcome(round, ep); oFailed(o) && !oBig(o) && c.failover {
				return true
			}
		}
		return false
	}
	seen := map[string]bool{} // data request of a poll already held
	e.HTTP = func(rq *http.Request) (*http.Response, error) {
		u := rq.URL.String()
		for i, s := range tr.srv {
			if !strings.HasPrefix(u, s.Base+"/") {
				continue
			}
			round := n.validations() + 1
			o := outcome(round, i)
			big := &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(tooBig{}), ContentLength: -1}
			if u == s.Notify() {
				n.count(&n.polls, fmt.Sprint(i))
				n.hold(fmt.Sprintf("e%d", i))
				switch o {
				case oNoConn:
					return nil, errors.New("connection refused")
				case oStatus:
					return Resp(404, []byte("no")), nil
				case oBigNotify:
					return big, nil
				case oGarbage:
					return Resp(200, []byte("<html>")), nil
				}
				return s.Serve(rq), nil
			}
			k := fmt.Sprintf("e%d'", i)
			sk := fmt.Sprintf("%s %d", k, round)
			n.mu.Lock()
			first := !seen[sk]
			seen[sk] = true
			n.mu.Unlock()
			if first {
				n.hold(k)
			}
			switch o {
			case oData:
				return nil, errors.New("connection reset")
			case oBigData:
				return big, nil
			}
			return s.Serve(rq), nil
		}
		n.mu.Lock()
		n.other = append(n.other, u)
		n.mu.Unlock()
		return Resp(404, nil), nil
	}
	e.Rsync = func(uri, dest string, args []string) (string, string, int) {
		inflight.Add(1)
		defer inflight.Add(-1)
		key := ""
		for i, m := range t.mods {
			if strings.TrimSuffix(uri, "/") == m {
				key = fmt.Sprintf("m%d", i)
			}
		}
		if key == "" {
			n.mu.Lock()
			n.other = append(n.other, uri)
			n.mu.Unlock()
			return "", "", 5
		}
		n.count(&n.syncs, key[1:])
		n.hold(key)
		var i int
		fmt.Sscanf(key, "m%d", &i)
		if c.rsyncFail>>i&1 == 1 {
			return "", "rsync error", 12
		}
		out, code := RsyncCopy(e.Dir, tr.site.Files, uri, dest)
		return out, "", code
	}
	e.OnIdle = func(k int) bool {
		// the first pause comes after the second round
		if k == 1 && t.late != nil {
			t.late(tr)
		} else {
			for i, s := range tr.srv {
				s.Update(map[string][]byte{fmt.Sprintf("rsync://%s/repo/x%d.gbr", hostOf(t.eps[i]), i): []byte(fmt.Sprint("v", k))})
			}
		}
		return k+1 < rounds
	}
	order := map[string]int{}
	for i, k := range c.order {
		order[k] = i
	}
	over := make(chan struct{})
	ctl := make(chan struct{})
	go func() {
		defer close(ctl)
		for {
			// what the model expects to be held now
			select {
			case <-over:
				return
			default:
			}
			h := n.numHeld()
			if h == 0 {
				time.Sleep(30 * time.Microsecond)
				continue
			}
			round := n.validations() + 1
			// remaining fetches of the phase
			left := 0
			n.mu.Lock()
			inRRDP := false
			for _, x := range n.held {
				if x.key[0] == 'e' {
					inRRDP = true
				}
			}
			n.mu.Unlock()
			if inRRDP {
				must, may := wantPolls(round)
				for ep := range may {
					must[ep] = true
				}
				for ep := range must {
					o := outcome(round, ep)
					if n.relCount(round, fmt.Sprintf("e%d", ep)) < oSteps(o) {
						left++
					}
				}
			} else {
				for m := range t.mods {
					if wantSync(round, m) && n.relCount(round, fmt.Sprintf("m%d", m)) == 0 {
						left++
					}
				}
			}
			want := left
			if want > c.limit {
				want = c.limit
			}
			for i := 0; i < 300 && n.numHeld() < want; i++ {
				time.Sleep(50 * time.Microsecond)
			}
			if left <= 1 { // last of the phase: does anybody go on without it?
				time.Sleep(700 * time.Microsecond)
			}
			n.releaseNoted(order, round)
		}
	}()
	e.Exec()
	close(over)
	<-ctl
	n.drain()
	if r != nil {
		r.Trans(len(n.rel()))
	}
	if f := e.Died(); f != nil {
		return f
	}
	if e.Ended != "idle" {
		return vk.Failf("no-stop", "the program does not come to rest (%s)", e.Ended)
	}
	if n.maxHeld > c.limit {
		return vk.Failf("too-many", "%d fetches ran at the same time, the limit is %d", n.maxHeld, c.limit)
	}
	if n.early {
		return vk.Failf("validation-too-early", "a validation began while a fetch was still running")
	}
	if len(n.other) > 0 {
		return vk.Failf("unexpected", "unexpected fetches: %v", n.other)
	}
	if v := n.validations(); v != rounds {
		return vk.Failf("rounds", "%d validations instead of %d", v, rounds)
	}
	get := func(l []map[string]int, i int, k string) int {
		if i < len(l) {
			return l[i][k]
		}
		return 0
	}
	for round := 1; round <= rounds; round++ {
		must, may := wantPolls(round)
		for ep, u := range t.eps {
			got := get(n.polls, round-1, fmt.Sprint(ep))
			switch {
			case must[ep] && got == 0:
				return vk.Failf("not-polled", "round %d: the RRDP endpoint %s is not polled", round, u)
			case got > 1:
				return vk.Failf("polled-again", "round %d: the RRDP endpoint %s is polled %d times", round, u, got)
			case got == 1 && !must[ep] && !may[ep]:
				return vk.Failf("polled-wrongly", "round %d: the RRDP endpoint %s is polled", round, u)
			}
		}
		for m, u := range t.mods {
			got := get(n.syncs, round-1, fmt.Sprint(m))
			want := wantSync(round, m)
			switch {
			case want && got == 0:
				return vk.Failf("no-rsync", "round %d: %s is not fetched with rsync", round, u)
			case got > 1:
				return vk.Failf("rsync-again", "round %d: %s is fetched with rsync %d times", round, u, got)
			case got == 1 && !want:
				return vk.Failf("rsync-wrongly", "round %d: %s is fetched with rsync", round, u)
			}
		}
	}
	return nil
}

var relMu sync.Mutex
var relLog = map[*fetchNet]map[string]int{}

func (n *fetchNet) relCount(round int, key string) int {
	relMu.Lock()
	defer relMu.Unlock()
	return relLog[n][fmt.Sprintf("%d %s", round, key)] + relLog[n][fmt.Sprintf("%d %s'", round, key)]
}
func (n *fetchNet) releaseNoted(order map[string]int, round int) {
	k := n.release(order)
	relMu.Lock()
	defer relMu.Unlock()
	if relLog[n] == nil {
		relLog[n] = map[string]int{}
	}
	relLog[n][fmt.Sprintf("%d %s", round, k)]++
}
func (n *fetchNet) rel() map[string]int {
	relMu.Lock()
	defer relMu.Unlock()
	m := relLog[n]
	delete(relLog, n)
	return m
}

// perms gives all orders of the steps in which the steps of each endpoint
// stay in order.
func perms(groups [][]string) [][]string {
	var out [][]string
	total := 0
	for _, g := range groups {
		total += len(g)
	}
	pos := make([]int, len(groups))
	var cur []string
	var rec func()
	rec = func() {
		if len(cur) == total {
			out = append(out, append([]string(nil), cur...))
			return
		}
		for i, g := range groups {
			if pos[i] < len(g) {
				cur = append(cur, g[pos[i]])
				pos[i]++
				rec()
				pos[i]--
				cur = cur[:len(cur)-1]
			}
		}
	}
	rec()
	return out
}

// tuples gives all n-tuples over the values.
func tuples(n int, vals []int) [][]int {
	out := [][]int{{}}
	for i := 0; i < n; i++ {
		var nx [][]int
		for _, t := range out {
			for _, v := range vals {
				nx = append(nx, append(append([]int(nil), t...), v))
			}
		}
		out = nx
	}
	return out
}

func b04(r *vk.Run) {
	r.Rule = "fetch topologies x outcome of every poll x order in which the answers of concurrent fetches arrive x worker limits and flags; the real fetch round with held-back network answers, compared with which fetches each round has to make"
	all := []int{oOK, oNoConn, oStatus, oData, oBigNotify, oBigData, oGarbage}
	few := []int{oOK, oNoConn, oData, oBigData}
	case1 := func(t *topo, c b04case) {
		r.Case(t.name+" "+c.String(), func() *vk.Fail {
			f := t.run(c, r)
			r.Traces(1)
			if f != nil {
				r.Outcome(f.Key)
			}
			return f
		})
	}
	// orders for the first fetch round; later rounds use the same priorities
	rrdpOrders := func(out []int) [][]string {
		var g [][]string
		for i, o := range out {
			s := []string{fmt.Sprintf("e%d", i)}
			if oSteps(o) == 2 {
				s = append(s, fmt.Sprintf("e%d'", i))
			}
			g = append(g, s)
		}
		return perms(g)
	}
	rsyncOrders := func(n int) [][]string {
		var g [][]string
		for i := 0; i < n; i++ {
			g = append(g, []string{fmt.Sprintf("m%d", i)})
		}
		return perms(g)
	}
	flags := [][2]bool{{true, true}, {true, false}, {false, true}, {false, false}}
	limits := []int{1, 2, 3}
	every := func(t *topo, vals []int, rounds int, full bool) {
		per := tuples(len(t.eps), vals)
		hist := [][][]int{{}}
		for i := 0; i < rounds; i++ {
			var nx [][][]int
			for _, h := range hist {
				for _, p := range per {
					nx = append(nx, append(append([][]int(nil), h...), p))
				}
			}
			hist = nx
		}
		for _, fl := range flags {
			for _, h := range hist {
				if !fl[0] { // RRDP is off: outcomes do not matter
					ok := true
					for _, o := range h {
						for _, x := range o {
							ok = ok && x == oOK
						}
					}
					if !ok {
						continue
					}
				}
				for _, l := range limits {
					if l > len(t.mods) && l > len(t.eps) && l > 1 {
						continue
					}
					orders := [][]string{nil}
					if fl[0] && l > 1 && full {
						orders = rrdpOrders(h[0])
					}
					for _, o := range orders {
						case1(t, b04case{l, fl[0], fl[1], h, 0, o})
					}
					if !full {
						continue
					}
					// orders and failures of the rsync runs
					for _, o := range rsyncOrders(len(t.mods)) {
						for mask := 0; mask < 1<<len(t.mods); mask++ {
							case1(t, b04case{l, fl[0], fl[1], h, mask, o})
						}
						if l == 1 {
							break
						}
					}
				}
			}
		}
	}
	two := []*topo{plain(true, true), plain(true, false), plain(false, true), sharedModule(), sharedEndpoint()}
	for _, t := range two {
		every(t, all, 1, true)
		every(t, few, 2, false)
	}
	every(plain(false, false), []int{oOK}, 2, true)
	every(plain(true, true, true), []int{oOK, oNoConn}, 1, true)
	every(plain(true, true, true), few, 1, false)
	every(plain(true, false, true), []int{oOK, oData}, 1, true)
	changes := []*topo{changing("drop RRDP", []string{"rrdp"}, nil), changing("add RRDP", nil, []string{"rrdp"}), changing("move", []string{"rrdp"}, []string{"new"})}
	for _, t := range changes {
		for _, l := range limits[:2] {
			for _, fl := range flags {
				for _, o2 := range tuples(len(t.eps), []int{oOK, oNoConn, oBigNotify}) {
					for _, o4 := range tuples(len(t.eps), []int{oOK, oNoConn}) {
						ok := make([]int, len(t.eps))
						case1(t, b04case{l, fl[0], fl[1], [][]int{o2, ok, o4}, 0, nil})
					}
				}
			}
		}
	}
	if r.Thorough() {
		every(plain(true, true, true), []int{oOK, oNoConn, oData, oBigNotify, oBigData}, 1, true)
		for _, t := range two {
			every(t, few, 2, true)
			every(t, []int{oOK, oNoConn, oBigData}, 3, false)
		}
		every(plain(true, true, true, true), []int{oOK, oNoConn, oBigData}, 1, false)
	}
}

var _ = sort.Strings
var _ = os.Stat
