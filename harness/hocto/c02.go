package hocto

import (
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"sort"
	"strings"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/cloudflare/cfrpki/zzverif/world"
)

func init() { checks["C02"] = c02 }

// C02: all small forests of delegations x all assignments of the CAs to
// repositories x all transports of the repositories. A model of the
// discovery says how many rounds there are and what is found.

type g02 struct {
	parent []int  // of CA i, -1: a trust anchor
	mod    []int  // repository of CA i
	tr     string // transport of repository m
	first  int    // CAs present at first, the others appear in the first rest
	hosts  int    // 0: a host per repository, 1: all on one host
	again  bool   // start the program again on the cache
	noROA  bool
	limit  int
	wait   bool
	mode   string
	rests  int
}

func (g g02) String() string {
	s := fmt.Sprintf("parents=%v repositories=%v transports=%s", g.parent, g.mod, g.tr)
	if g.first < len(g.parent) {
		s += fmt.Sprintf(" first=%d", g.first)
	}
	if g.hosts > 0 {
		s += " one-host"
	}
	if g.again {
		s += " again"
	}
	if g.limit > 0 {
		s += fmt.Sprintf(" limit=%d", g.limit)
	}
	if !g.wait {
		s += " nowait"
	}
	if g.mode != "" {
		s += " mode=" + g.mode
	}
	return s
}

// place moves a new CA to another directory.
func place(c *world.CA, dir string) {
	c.Dir, c.Cert.CARepo, c.Cert.Mft = dir, dir, dir+c.MftFile
	c.MftEE.SignedObj, c.MftEE.CRLDP = c.Cert.Mft, dir+c.CrlFile
}

func (g g02) module(m int) (host, dir, rrdp string) {
	host = fmt.Sprintf("h%d.example.net", m)
	if g.hosts == 1 {
		host = "h.example.net"
	}
	dir = fmt.Sprintf("rsync://%s/m%d/", host, m)
	switch g.tr[m] {
	case 'r', 'b', 'x':
		rrdp = fmt.Sprintf("https://%s/rrdp%d/notification.xml", host, m)
	case 'c':
		rrdp = "https://h0.example.net/rrdp0/notification.xml"
	}
	return
}

func (g g02) build() (cas []*world.CA, roots []*world.World) {
	b := world.NewBuilder()
	for i, p := range g.parent {
		host, dir, rrdp := g.module(g.mod[i])
		n := fmt.Sprintf("c%d", i)
		var c *world.CA
		if p < 0 {
			w := b.TA(n, host, everything())
			w.TAL.URI = []string{"rsync://ta.example.net/ta/" + n + ".cer"}
			roots = append(roots, w)
			c = w.TA
		} else {
			c = b.Kid(cas[p], n, host, everything())
		}
		place(c, dir+n+"/")
		c.Cert.RRDP = rrdp
		if !g.noROA {
			b.ROA(c, "r", int64(100+i), world.E(fmt.Sprintf("10.%d.0.0/16", i), 24))
		}
		cas = append(cas, c)
	}
	return
}

// sim02 is the model: what a validator knows round by round.
type sim02 struct {
	g     g02
	n     int          // CAs that exist
	known map[int]bool // repositories ever discovered
	files map[int]int  // repository -> how many CAs existed when it was fetched
	valid map[int]bool // CAs with a valid certificate in the last round
}

func (s *sim02) round() (fresh bool, found []int) {
	for m := range s.known {
		if s.g.tr[m] != 'x' {
			s.files[m] = s.n
		}
	}
	valid := map[int]bool{}
	s.valid = valid
	now := map[int]bool{}
	for i := 0; i < s.n; i++ {
		p := s.g.parent[i]
		if p >= 0 {
			v, ok := s.files[s.g.mod[p]]
			if !valid[p] || !ok || i >= v {
				continue
			}
		}
		valid[i] = true
		m := s.g.mod[i]
		now[m] = true
		if _, ok := s.files[m]; ok && !s.g.noROA {
			found = append(found, i)
		}
	}
	for m := range now {
		if !s.known[m] {
			s.known[m] = true
			fresh = true
		}
	}
	return
}

func (g g02) run(r *vk.Run) *vk.Fail {
	cas, roots := g.build()
	n := g.first
	if n == 0 {
		n = len(cas)
	}
	// CAs that do not exist yet
	kids := map[*world.CA][]*world.CA{}
	for _, c := range cas {
		kids[c] = c.Kids
	}
	have := func(n int) {
		for _, c := range cas {
			c.Kids = nil
		}
		for i, c := range cas[:n] {
			if p := g.parent[i]; p >= 0 {
				cas[p].Kids = append(cas[p].Kids, c)
			}
		}
	}
	e := NewEnv()
	defer e.Close()
	f := newFarm()
	f.has = func(u, x string) bool {
		// an endpoint offers what is in its repository only
		u = strings.TrimSuffix(u, "/notification.xml")
		return strings.Contains(x, "/m"+u[strings.LastIndex(u, "rrdp")+4:]+"/")
	}
	down := map[string]bool{}
	for m := range g.tr {
		_, dir, u := g.module(m)
		if g.tr[m] == 'b' || g.tr[m] == 'x' {
			down[strings.TrimSuffix(u, "notification.xml")] = true
		}
		if g.tr[m] == 'x' {
			down[strings.TrimSuffix(dir, "/")] = true
		}
	}
	isDown := func(u string) bool {
		for d := range down {
			if strings.HasPrefix(u, d) {
				return true
			}
		}
		return false
	}
	f.attach(e)
	web, sync := e.HTTP, e.Rsync
	e.HTTP = func(rq *http.Request) (*http.Response, error) {
		if isDown(rq.URL.String()) {
			return Resp(404, []byte("not found")), nil
		}
		return web(rq)
	}
	e.Rsync = func(uri, dest string, args []string) (string, string, int) {
		if isDown(uri) {
			return "", "connection refused", 10
		}
		return sync(uri, dest, args)
	}
	sim := &sim02{g: g, known: map[int]bool{}, files: map[int]int{}}
	publish := func() {
		have(n)
		sim.n = n
		f.publish(roots...)
	}
	var tals, names []string
	for i, w := range roots {
		tals = append(tals, e.TAL(fmt.Sprintf("t%d", i), w.TALBytes()))
		names = append(names, "T")
		e.Put(w.TAURI(), w.TA.CertDER())
	}
	publish()
	e.Flags["tal.root"], e.Flags["tal.name"] = strings.Join(tals, ","), strings.Join(names, ",")
	e.Flags["output.wait"] = fmt.Sprint(g.wait)
	limit := 32
	if g.limit > 0 {
		limit = g.limit
		e.Flags["max.iterations"] = fmt.Sprint(limit)
	}
	if g.mode != "" {
		e.Flags["mode"] = g.mode
	}
	rests := g.rests
	if rests == 0 {
		rests = 1
	}
	if n < len(cas) {
		rests++
	}
	iter := 0
	// one cycle of the model, from a rest to the next
	cycle := func() (want []string, rounds int, stable bool) {
		var found []int
		for {
			var fresh bool
			fresh, found = sim.round()
			iter++
			rounds++
			stable = !fresh && iter > 1
			if stable || rounds > limit {
				break
			}
		}
		for _, i := range found {
			want = append(want, fmt.Sprintf("10.%d.0.0/16,24,AS%d@T", i, 100+i))
		}
		sort.Strings(want)
		return
	}
	if g.mode == "oneoff" {
		e.Exec()
		if fl := e.Died(); fl != nil {
			return fl
		}
		if e.Ended != "returned" {
			return vk.Failf("no-end", "the program does not end: %s", e.Ended)
		}
		want, rounds, stable := cycle()
		out, err := os.ReadFile(e.Dir + "/output.json")
		if err != nil {
			return vk.Failf("oneoff-none", "no list is written (%d rounds, stable: %v)", rounds, stable)
		}
		l, fl := decode02(out)
		if fl != nil {
			return fl
		}
		if !same(l, want) {
			return vk.Failf("oneoff-list", "the list is %v instead of %v", l, want)
		}
		return nil
	}
	var fail *vk.Fail
	e.OnIdle = func(k int) bool {
		want, rounds, stable := cycle()
		r.Count("rounds", int64(rounds))
		inf, fl := e.Infos()
		if fl != nil {
			fail = fl
			return false
		}
		if inf.Iteration != iter {
			fail = vk.Failf("rounds", "rest %d comes after %d rounds instead of %d", k, inf.Iteration, iter)
			return false
		}
		if !inf.Stable {
			fail = vk.Failf("not-stable", "rest %d: the state is not stable", k)
			return false
		}
		_, l, err := e.List()
		if err != nil || l == nil {
			fail = vk.Failf("no-list", "rest %d: no list: %v", k, err)
			return false
		}
		if !same(l.VRPs(), want) {
			fail = vk.Failf("list", "rest %d (stable: %v): the list is %v instead of %v", k, stable, l.VRPs(), want)
			return false
		}
		if k >= rests {
			return false
		}
		n = len(cas)
		publish()
		return true
	}
	for start := 0; start < 2; start++ {
		e.Exec()
		if fail != nil {
			return fail
		}
		if fl := e.Died(); fl != nil {
			return fl
		}
		if e.Ended != "idle" {
			return vk.Failf("no-rest", "the program does not come to rest: %s", e.Ended)
		}
		if !g.again {
			break
		}
		// what is known is forgotten, the files are not
		iter, rests, sim.known = 0, 1, map[int]bool{}
	}
	return nil
}

func decode02(b []byte) ([]string, *vk.Fail) {
	l := &listJSON{}
	if err := json.Unmarshal(b, l); err != nil {
		return nil, vk.Failf("oneoff-json", "the file is not a list: %v", err)
	}
	return l.VRPs(), nil
}

// forests calls f with all parent lists of n CAs, the first one a root.
func forests(n int, f func(parent []int)) {
	p := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(append([]int(nil), p...))
			return
		}
		for q := -1; q < i; q++ {
			if i == 0 && q >= 0 {
				break
			}
			p[i] = q
			rec(i + 1)
		}
	}
	rec(0)
}

// partitions calls f with all assignments of n things to numbered groups.
func partitions(n int, f func(mod []int, groups int)) {
	m := make([]int, n)
	var rec func(i, k int)
	rec = func(i, k int) {
		if i == n {
			f(append([]int(nil), m...), k)
			return
		}
		for q := 0; q <= k; q++ {
			m[i] = q
			if q == k {
				rec(i+1, k+1)
			} else {
				rec(i+1, k)
			}
		}
	}
	rec(0, 0)
}

func words(n int, alphabet string, f func(s string)) {
	b := make([]byte, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(string(b))
			return
		}
		for k := 0; k < len(alphabet); k++ {
			b[i] = alphabet[k]
			rec(i + 1)
		}
	}
	rec(0)
}

// moving is a CA whose repository changes with every fetch: there is a new
// repository in every round, for ever.
func moving(r *vk.Run, tr byte, limit int, wait bool, mode string, rests int) *vk.Fail {
	g := g02{parent: []int{-1, 0}, mod: []int{0, 1}, tr: string([]byte{tr, 's'}), wait: wait}
	cas, roots := g.build()
	e := NewEnv()
	defer e.Close()
	f := newFarm()
	k := 0
	move := func() {
		k++
		place(cas[1], fmt.Sprintf("rsync://v%d.example.net/m/c1/", k))
		f.publish(roots...)
	}
	move()
	f.attach(e)
	web, sync := e.HTTP, e.Rsync
	e.HTTP = func(rq *http.Request) (*http.Response, error) {
		if strings.HasSuffix(rq.URL.Path, "/notification.xml") {
			move()
		}
		return web(rq)
	}
	e.Rsync = func(uri, dest string, args []string) (string, string, int) {
		if tr != 'r' && strings.HasPrefix(uri, "rsync://h0") {
			move()
		}
		return sync(uri, dest, args)
	}
	e.Put(roots[0].TAURI(), roots[0].TA.CertDER())
	e.Flags["tal.root"], e.Flags["tal.name"] = e.TAL("t", roots[0].TALBytes()), "T"
	e.Flags["output.wait"] = fmt.Sprint(wait)
	if limit > 0 {
		e.Flags["max.iterations"] = fmt.Sprint(limit)
	} else {
		limit = 32
	}
	if mode != "" {
		e.Flags["mode"] = mode
	}
	e.MaxNow = 2000000
	var fail *vk.Fail
	last := 0
	e.OnIdle = func(n int) bool {
		inf, fl := e.Infos()
		if fl != nil {
			fail = fl
			return false
		}
		if d := inf.Iteration - last; d < limit || d > limit+1 {
			fail = vk.Failf("limit", "rest %d comes after %d rounds, the limit is %d", n, d, limit)
			return false
		}
		last = inf.Iteration
		return n < rests
	}
	e.Exec()
	if fail != nil {
		return fail
	}
	if fl := e.Died(); fl != nil {
		return fl
	}
	if mode == "oneoff" {
		if e.Ended != "returned" {
			return vk.Failf("no-end", "the program does not end: %s", e.Ended)
		}
		if k > limit+2 {
			return vk.Failf("limit", "%d repositories are discovered, the limit is %d", k, limit)
		}
		out, err := os.ReadFile(e.Dir + "/output.json")
		if err != nil {
			return vk.Failf("oneoff-none", "no list is written after the iteration limit")
		}
		l, fl := decode02(out)
		if fl != nil {
			return fl
		}
		if !strings.Contains(fmt.Sprint(l), "10.0.0.0/16,24,AS100@T") {
			return vk.Failf("oneoff-list", "the list %v does not have what is below the trust anchor", l)
		}
		return nil
	}
	if e.Ended != "idle" {
		return vk.Failf("no-rest", "the program does not come to rest: %s", e.Ended)
	}
	return nil
}

func c02(r *vk.Run) {
	r.Rule = "all forests of delegations x assignments of CAs to repositories x transports of the repositories (RRDP, rsync, broken RRDP, unreachable, foreign endpoint) x parts that appear later x restarts x iteration limits, compared with a model of the discovery round by round"
	do := func(g g02) {
		if g.tr[0] == 's' && strings.Contains(g.tr, "c") {
			return // an endpoint that works but does not offer the repository
		}
		if g.first == 0 {
			g.first = len(g.parent)
		}
		for _, p := range g.parent[g.first:] {
			if p < 0 {
				return // trust anchors are there from the start
			}
		}
		r.Case(g.String(), func() *vk.Fail { return g.run(r) })
	}
	all := func(n int, tr string, each func(g g02)) {
		forests(n, func(parent []int) {
			partitions(n, func(mod []int, groups int) {
				words(groups, tr, func(w string) {
					each(g02{parent: parent, mod: mod, tr: w, wait: true, first: n})
				})
			})
		})
	}
	for n := 1; n <= 3; n++ {
		all(n, "rsbxc", func(g g02) {
			do(g)
			g.again = true
			do(g)
			g.again = false
			g.wait = false
			do(g)
			if !strings.Contains(g.tr, "c") {
				g.hosts = 1
				do(g)
			}
		})
		all(n, "rs", func(g g02) {
			g.mode = "oneoff"
			do(g)
			g.wait = false
			do(g)
		})
	}
	four, later := "rx", "r"
	if r.Thorough() {
		four, later = "rsbxc", "rsx"
	}
	all(4, four, do)
	all(4, "s", do)
	for n := 2; n <= 3; n++ {
		for m := 1; m < n; m++ {
			all(n, "rsx", func(g g02) { g.first = m; do(g) })
		}
	}
	for m := 1; m < 4; m++ {
		all(4, later, func(g g02) { g.first = m; do(g) })
	}
	if r.Thorough() {
		all(5, "r", do)
		all(5, "s", do)
		for m := 1; m < 5; m++ {
			all(5, "r", func(g g02) { g.first = m; do(g) })
		}
	}
	// chains against the iteration limit
	for limit := 1; limit <= 4; limit++ {
		for n := 1; n <= 11; n++ {
			for _, tr := range []string{"r", "s"} {
				for _, wait := range []bool{true, false} {
					for _, mode := range []string{"", "oneoff"} {
						g := g02{wait: wait, mode: mode, limit: limit, noROA: n > 8, tr: strings.Repeat(tr, n), rests: 3, first: n}
						for i := 0; i < n; i++ {
							g.parent, g.mod = append(g.parent, i-1), append(g.mod, i)
						}
						do(g)
					}
				}
			}
		}
	}
	for _, tr := range []byte{'r', 's'} {
		for _, limit := range []int{0, 1, 2, 3, 5, 8} {
			for _, wait := range []bool{true, false} {
				for _, mode := range []string{"", "oneoff"} {
					tr, limit, wait, mode := tr, limit, wait, mode
					r.Case(fmt.Sprintf("moving transport=%c limit=%d wait=%v mode=%s", tr, limit, wait, mode), func() *vk.Fail {
						return moving(r, tr, limit, wait, mode, 3)
					})
				}
			}
		}
	}
}
