package hocto

import (
	"context"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/cloudflare/cfrpki/zzverif/world"
)

func init() { checks["C09"] = c09 }

// C09: a server that stops answering is given up, and everything else goes on
// as if it had failed at once.

// world09 is generation g of what is published.
func world09(g int, transport string, https bool) *world.World {
	b := world.NewBuilder()
	w := b.TA("a", "h0.example.net", everything())
	if https {
		w.TAL.URI = []string{httpsTA07, w.TAL.URI[0]}
	}
	k1 := b.Kid(w.TA, "k1", "h1.example.net", everything())
	k2 := b.Kid(k1, "k2", "h2.example.net", everything())
	k3 := b.Kid(w.TA, "k3", "h3.example.net", everything())
	for i, ca := range []*world.CA{w.TA, k1, k2, k3} {
		b.ROA(ca, fmt.Sprintf("r%d", i), int64(10*g+i), world.E(fmt.Sprintf("10.%d.0.0/16", i), 24))
		ca.MftNum = int64(7 + g)
		if transport[i] == 'R' {
			ca.Cert.RRDP = epURL(hostOf(ca.Dir), "rrdp")
		}
	}
	return w
}

// case09 says which server is in which state in which phase (between rests):
//
//	T     the https server of the trust anchor certificate
//	0..3  the RRDP servers: at the notification (n no answer, h headers only,
//	      m half of the body) or at other documents (N, H, M), x refused
//	a..d  the rsync servers of the same hosts: silent, closed, ... (see hangs),
//	      capital letter: after everything was transferred
//	C     the CT log: n, h, m at each submission; 1n: at the first only
type case09 struct {
	transport  string
	https      bool
	down       []map[string]string // per phase: server -> state
	failover   bool
	concurrent int
	oneoff     bool
	ct         bool
	refresh    time.Duration
	stall      int // real rsync: h1 stops after so many bytes in phases with down["real"]
	real       string
}

func (c case09) String() string {
	s := c.transport
	if c.https {
		s += " https"
	}
	for i, d := range c.down {
		s += fmt.Sprintf(" %d:", i)
		var ks []string
		for k := range d {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			s += k + "=" + d[k] + ","
		}
	}
	if !c.failover {
		s += " nofailover"
	}
	if c.concurrent > 0 {
		s += fmt.Sprint(" concurrent=", c.concurrent)
	}
	if c.oneoff {
		s += " oneoff"
	}
	if c.ct {
		s += " ct"
	}
	if c.refresh > 0 {
		s += " refresh=" + c.refresh.String()
	}
	if c.real != "" {
		s += fmt.Sprint(" stall=", c.stall)
	}
	return s
}

var errHang = errors.New("connection reset by peer")

// giveUp waits as long as the client does. When the request has a deadline
// there is no need to wait for it.
func (e *Env) giveUp(ctx context.Context) error {
	if t, ok := ctx.Deadline(); ok && time.Until(t) < 20*time.Minute {
		return timeout09{}
	}
	select {
	case <-ctx.Done():
		return ctx.Err()
	case <-e.Release:
		return errHang
	}
}

// timeout09 is like the error of net/http.
type timeout09 struct{}

func (timeout09) Error() string {
	return "context deadline exceeded (Client.Timeout exceeded while awaiting headers)"
}
func (timeout09) Timeout() bool        { return true }
func (timeout09) Temporary() bool      { return true }
func (timeout09) Is(target error) bool { return target == context.DeadlineExceeded }

type hangingBody struct {
	e   *Env
	ctx context.Context
	b   []byte
	err error
}

func (h *hangingBody) Read(p []byte) (int, error) {
	if len(h.b) > 0 {
		n := copy(p, h.b)
		h.b = h.b[n:]
		return n, nil
	}
	if h.err == nil {
		h.err = h.e.giveUp(h.ctx)
	}
	return 0, h.err
}
func (h *hangingBody) Close() error { return nil }

type result09 struct {
	lists []string
	reqs  []string // sorted, by phase
	files []string
	ended string
	fail  *vk.Fail
}

// exec runs the case, with servers that hang or that fail at once.
func (c case09) exec(hang bool, timeout time.Duration, r *vk.Run) (o result09) {
	e := NewEnv()
	var once sync.Once
	release := func() { once.Do(func() { close(e.Release) }) }
	defer func() {
		e.closeReleased()
	}()
	defer release()
	f := newFarm()
	phase := 0
	var w *world.World
	pub := func() {
		w = world09(phase+1, c.transport, c.https)
		f.publish(w)
	}
	pub()
	f.attach(e)
	web, sync1 := e.HTTP, e.Rsync
	var mu sync.Mutex
	var reqs []string
	note := func(s string) {
		mu.Lock()
		reqs = append(reqs, s)
		n := len(reqs)
		mu.Unlock()
		if n > 5000 {
			e.R.Kill() // it asks again and again
			runtime.Goexit()
		}
	}
	state := func(k string) string {
		if phase < len(c.down) {
			return c.down[phase][k]
		}
		return ""
	}
	subs := 0
	e.HTTP = func(rq *http.Request) (*http.Response, error) {
		u := rq.URL.String()
		var st string
		get := func() (*http.Response, error) { return web(rq) }
		switch {
		case rq.URL.Host == "ct.example.net":
			b, _ := io.ReadAll(rq.Body)
			note(fmt.Sprintf("POST %s %x", u, sha256.Sum256(b)))
			mu.Lock()
			subs++
			st = state("C")
			if strings.HasPrefix(st, "1") {
				if st = st[1:]; subs > 1 {
					st = ""
				}
			}
			mu.Unlock()
			get = func() (*http.Response, error) { return sct(), nil }
		case u == httpsTA07:
			note("GET " + u)
			st = state("T")
			get = func() (*http.Response, error) { return Resp(200, f.files[w.TAL.URI[1]]), nil }
		default:
			note("GET " + u)
			st = state(string(rq.URL.Host[1]))
			low := strings.ToLower(st)
			if st != "" && st != "x" && (low == st) != strings.HasSuffix(u, "/notification.xml") {
				st = ""
			}
			st = strings.ToLower(st)
		}
		if st == "" {
			return get()
		}
		if st == "x" {
			return nil, errHang
		}
		if st == "n" {
			if !hang {
				return nil, errHang
			}
			return nil, e.giveUp(rq.Context())
		}
		rs, err := get()
		if err != nil || rs.StatusCode != 200 {
			return rs, err
		}
		b, _ := io.ReadAll(rs.Body)
		if st == "h" {
			b = nil
		} else {
			b = b[:len(b)/2]
		}
		hb := &hangingBody{e: e, ctx: rq.Context(), b: b}
		if !hang {
			hb.err = errHang
		}
		rs.Body = hb
		return rs, nil
	}
	e.Rsync = func(uri, dest string, args []string) (string, string, int) {
		note("rsync " + uri)
		st := state(string("abcd"[hostOf(uri)[1]-'0']))
		if st == "" {
			return sync1(uri, dest, args)
		}
		out := ""
		if low := strings.ToLower(st); low != st {
			st = low
			out, _, _ = sync1(uri, dest, args)
		}
		if hang {
			for i, h := range hangs {
				if h == st {
					return out, "", -1 - i
				}
			}
		}
		return out, "", 30
	}
	e.Flags["tal.root"] = e.TAL("a.tal", w.TALBytes())
	e.Flags["tal.name"] = "A"
	e.Flags["rsync.timeout"] = timeout.String()
	if !c.failover {
		e.Flags["rrdp.failover"] = "false"
	}
	if c.concurrent > 0 {
		e.Flags["max_concurrent_retrievals"] = fmt.Sprint(c.concurrent)
	}
	if c.ct {
		e.Flags["ct"], e.Flags["ct.addr"], e.Flags["ct.threads"] = "true", ctAddr, "3"
	}
	if c.oneoff {
		e.Flags["mode"] = "oneoff"
	}
	refresh := 20 * time.Minute
	if c.refresh > 0 {
		refresh = c.refresh
		e.Flags["refresh"] = refresh.String()
	}
	if c.real != "" {
		e.Flags["rsync.bin"] = c.real
		serve08(e, f.files, func(string) time.Time { return mtime08 })
		c.connect(e, hang, state("real") != "")
	}
	left := func() *vk.Fail {
		for i := 0; ; i++ {
			n := int(e.Hung.Load())
			if c.real != "" && hang {
				n = len(processes09(e.Dir))
			}
			if n == 0 {
				return nil
			}
			if i == 1500 {
				return vk.Failf("left", "%d rsync processes are still running", n)
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	mark := func() {
		mu.Lock()
		sort.Strings(reqs)
		o.reqs = append(o.reqs, strings.Join(reqs, "\n"))
		reqs = nil
		mu.Unlock()
		var fs []string
		filepath.Walk(e.Cache, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && !strings.HasSuffix(p, "rrdp.json") {
				b, _ := os.ReadFile(p)
				fs = append(fs, fmt.Sprintf("%s %x", strings.TrimPrefix(p, e.Cache), sha256.Sum256(b)))
			}
			return nil
		})
		o.files = append(o.files, strings.Join(fs, "\n"))
	}
	var fail *vk.Fail
	e.OnIdle = func(n int) bool {
		if fail = left(); fail != nil {
			return false
		}
		if d := e.LastIdle; d != refresh {
			fail = vk.Failf("refresh", "the next round is to begin after %v instead of %v", d, refresh)
			return false
		}
		code, l, _ := e.List()
		s := fmt.Sprint(code)
		if l != nil {
			s += " " + vrps07(l)
		}
		o.lists = append(o.lists, s)
		mark()
		r.Outcome(s)
		r.Trans(1)
		if phase++; phase > len(c.down) {
			return false
		}
		mu.Lock()
		subs = 0
		mu.Unlock()
		pub()
		if c.real != "" {
			serve08(e, f.files, func(string) time.Time { return mtime08.Add(time.Duration(phase) * time.Hour) })
			c.connect(e, hang, state("real") != "")
		}
		return true
	}
	limit := 40*time.Second + 12*timeout
	late := false
	t := time.AfterFunc(limit, func() {
		mu.Lock()
		late = true
		mu.Unlock()
		e.R.Kill()
		release()
	})
	e.Exec()
	t.Stop()
	mu.Lock()
	defer mu.Unlock()
	o.ended = e.Ended
	switch {
	case late:
		o.fail = vk.Failf("hangs", "the program is still waiting after %v", limit)
		given09++
	case fail != nil:
		o.fail = fail
	case e.Died() != nil:
		o.fail = e.Died()
	case len(reqs) > 5000:
		o.fail = vk.Failf("again", "the program asks without end: %s", reqs[len(reqs)-1])
	case c.oneoff && e.Ended != "returned" || !c.oneoff && e.Ended != "idle":
		o.fail = vk.Failf("no-stop", "the program does not come to rest (%s)", e.Ended)
	}
	if c.oneoff && o.fail == nil {
		mu.Unlock()
		if o.fail = left(); o.fail == nil {
			mark()
		}
		mu.Lock()
		b, _ := os.ReadFile(e.Dir + "/output.json")
		o.lists = append(o.lists, roas09(b))
	}
	return o
}

var given09 int // cases of this process in which the program was stuck

// connect sets the real rsync's connection to its servers.
func (c case09) connect(e *Env, hang, stalled bool) {
	p := c.real
	if stalled {
		// Only h1 stops.
		w := e.Dir + "/connect"
		s := "#!/bin/sh\ncase $1 in h1.*) "
		if hang {
			s += fmt.Sprintf("exec %s -stall %d %s --server --daemon --config=%s/rsyncd/$1 .;;", os.Getenv("VERIF_RSYNC_BIN"), c.stall, c.real, e.Dir)
		} else {
			s += "exit 1;;"
		}
		s += fmt.Sprintf("\n*) exec %s --server --daemon --config=%s/rsyncd/$1 .;;\nesac\n", c.real, e.Dir)
		fatalIf(os.WriteFile(w, []byte(s), 0755))
		os.Setenv("RSYNC_CONNECT_PROG", w+" %H")
		return
	}
	os.Setenv("RSYNC_CONNECT_PROG", e.rsyncConnect(p))
}

// processes09 lists processes that write to a directory with rsync.
func processes09(dir string) (l []string) {
	ps, _ := filepath.Glob("/proc/[0-9]*/cmdline")
	for _, p := range ps {
		b, _ := os.ReadFile(p)
		if a := strings.Split(string(b), "\x00"); len(a) > 3 && strings.HasPrefix(a[len(a)-2], dir+"/") && strings.HasPrefix(a[len(a)-3], "rsync://") {
			l = append(l, p)
		}
	}
	return
}

func roas09(b []byte) string {
	l := &listJSON{}
	if err := json.Unmarshal(b, l); err != nil {
		return fmt.Sprintf("%v: %s", err, b)
	}
	return vrps07(l)
}

func (c case09) run(r *vk.Run) *vk.Fail {
	if given09 > 2 {
		return nil // and the run has failed
	}
	ref := c.exec(false, 2*time.Second, r)
	if ref.fail != nil {
		ref.fail.Desc = "with servers failing at once: " + ref.fail.Desc
		return ref.fail
	}
	var f *vk.Fail
	// Again with more time, lest a healthy rsync was not fast enough.
	for _, t := range []time.Duration{2 * time.Second, 9 * time.Second} {
		if f = c.compare(ref, c.exec(true, t, r)); f == nil || f.Key == "hangs" {
			return f
		}
	}
	return f
}

func (c case09) compare(a, b result09) *vk.Fail {
	if b.fail != nil {
		return b.fail
	}
	for _, x := range []struct {
		n    string
		a, b []string
	}{{"list", a.lists, b.lists}, {"requests", a.reqs, b.reqs}, {"cache", a.files, b.files}} {
		if c.real != "" && x.n != "list" {
			continue // rsync may have transferred something
		}
		if len(x.a) != len(x.b) {
			return vk.Failf("rests", "%d rests instead of %d", len(x.b), len(x.a))
		}
		for i := range x.a {
			if c.real != "" && i+1 < len(x.a) {
				continue
			}
			if x.a[i] != x.b[i] {
				return &vk.Fail{Key: x.n, Desc: fmt.Sprintf("rest %d: when servers hang, the %s is not what it is when they fail: %s instead of %s", i, x.n, x.b[i], x.a[i])}
			}
		}
	}
	return nil
}

func c09(r *vk.Run) {
	r.Rule = "histories of two or three rests in which any one or two of the https, RRDP and rsync servers and the CT log stop answering in one or both phases, at every point (no answer, headers only, half a body, of the notification or of other documents; rsync silent, with closed output, deaf to SIGTERM, with a second process, before or after the transfer), x transports, failover, concurrency, modes; the real rsync with a server that stops after 0, 1, ... bytes; the lists, requests and cache of the real program have to be those of servers that fail at once, and no rsync is left"
	one := func(c case09) {
		r.Case(c.String(), func() *vk.Fail {
			fl := c.run(r)
			r.Traces(1)
			return fl
		})
	}
	type server struct {
		k      string
		states []string
	}
	phases := func(k, s string, f func([]map[string]string)) {
		for v := 1; v < 4; v++ {
			d := []map[string]string{{}, {}}
			for i := range d {
				if v>>i&1 != 0 {
					d[i][k] = s
				}
			}
			f(d)
		}
	}
	merge := func(a, b []map[string]string) (o []map[string]string) {
		for i := range a {
			m := map[string]string{}
			for k, v := range a[i] {
				m[k] = v
			}
			for k, v := range b[i] {
				m[k] = v
			}
			o = append(o, m)
		}
		return
	}
	// rsync first: these take time
	rs := []string{"silent", "Silent", "closed", "Closed", "term", "child", "Child", "orphan"}
	base := case09{transport: "rrrr", failover: true}
	for _, h := range []string{"a", "b", "c"} {
		for _, s := range rs {
			phases(h, s, func(d []map[string]string) {
				c := base
				c.down = d
				one(c)
				if s == "silent" || s == "child" || r.Thorough() {
					c.concurrent = 1
					one(c)
				}
			})
		}
	}
	for i, s := range rs {
		for j, s2 := range rs {
			if !r.Thorough() && (i+j)%3 != 0 {
				continue
			}
			phases("b", s, func(d []map[string]string) {
				phases("d", s2, func(d2 []map[string]string) {
					c := base
					c.down = merge(d, d2)
					if r.Thorough() || d[1]["b"] != "" && d2[0]["d"] != "" {
						one(c)
					}
				})
			})
		}
	}
	for _, s := range rs {
		for _, s1 := range []string{"n", "M", "x"} {
			phases("b", s, func(d []map[string]string) {
				phases("1", s1, func(d1 []map[string]string) {
					if !r.Thorough() && (len(d[0])+len(d1[0]) == 1 || s1 != "n" && len(d[1]) == 0) {
						return
					}
					c := base
					c.transport = "rRRr"
					c.down = merge(d, d1)
					one(c)
				})
			})
		}
		c := base
		c.oneoff = true
		for _, h := range []string{"b", "c", "d"} {
			c.down = []map[string]string{{h: s}}
			one(c)
		}
	}
	stalls := []int{0, 1, 13, 14, 40, 100, 200, 300, 400, 600, 800, 1000, 1200, 1500, 1800, 2000, 2200, 2500, 3000, 3500, 4000, 5000, 6000, 7000}
	if r.Thorough() {
		stalls = nil
		for i := 0; i < 8000; i += 40 {
			stalls = append(stalls, i)
		}
	}
	if bin, err := exec.LookPath("rsync"); err == nil {
		for _, n := range stalls {
			for v := 0; v < 2; v++ {
				c := base
				c.real, c.stall = bin, n
				c.down = []map[string]string{{}, {}}
				c.down[v]["real"] = "stall"
				one(c)
			}
		}
	}
	// HTTP
	doc := []string{"n", "h", "m"}
	all := []string{"n", "h", "m", "N", "H", "M"}
	servers := []server{{"T", doc}, {"0", all}, {"1", all}, {"2", all}, {"3", all}}
	for _, t := range []string{"RRRR", "rRRr", "rRrR", "RRrr"} {
		for i, s := range servers {
			for _, st := range s.states {
				phases(s.k, st, func(d []map[string]string) {
					for v := 0; v < 16; v++ {
						if !r.Thorough() && v&6 == 6 {
							continue
						}
						c := case09{transport: t, https: v&1 == 0, down: d, failover: v&2 == 0}
						if v&4 != 0 {
							c.concurrent = 1
						}
						if v&8 != 0 {
							c.oneoff = true
							c.down = d[:1]
							if len(d[0]) == 0 || len(d[1]) != 0 {
								continue
							}
						}
						one(c)
					}
				})
				for _, s2 := range servers[i+1:] {
					for _, st2 := range s2.states {
						if !r.Thorough() && t != "RRRR" && (st != st2 || st == "h" || st == "H") {
							continue
						}
						phases(s.k, st, func(d []map[string]string) {
							phases(s2.k, st2, func(d2 []map[string]string) {
								if r.Thorough() || len(d[0])+len(d2[1]) == 2 {
									one(case09{transport: t, https: true, down: merge(d, d2), failover: true})
								}
							})
						})
					}
				}
			}
		}
	}
	for _, st := range []string{"n", "h", "m", "1n", "1h", "1m"} {
		phases("C", st, func(d []map[string]string) {
			for _, t := range []string{"rrrr", "RRRR"} {
				one(case09{transport: t, down: d, failover: true, ct: true})
				one(case09{transport: t, down: d[:1], failover: true, ct: true, oneoff: true})
			}
		})
	}
	for _, d := range []time.Duration{time.Second, time.Minute, 7 * time.Minute, 3 * time.Hour} {
		one(case09{transport: "rRrR", down: []map[string]string{{}, {"1": "n"}}, failover: true, refresh: d})
	}
}
