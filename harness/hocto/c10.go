package hocto

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/cloudflare/cfrpki/zzverif/vk"
)

func init() { checks["C10"] = c10 }

// client10 is a client that does not read its answer: it lets the first write
// wait ("stall"), reads half of it first ("part") or has gone ("gone").
type client10 struct {
	at     int // the number of the server request during which it asks, -n at the n-th rest
	page   string
	method string
	hdr    string
	mode   string
	until  int // rests until it goes on, 0: it never does
}
type case10 struct {
	transport string
	nowait    bool
	sign      bool
	limit     int
	clients   []client10
}

func (c case10) config() string {
	return fmt.Sprintf("%s/nowait=%v/sign=%v/limit=%d", c.transport, c.nowait, c.sign, c.limit)
}
func (c case10) String() string {
	s := c.config()
	for _, x := range c.clients {
		s += fmt.Sprintf(" %d:%s %s %s %s until %d", x.at, x.method, x.page, x.hdr, x.mode, x.until)
	}
	return s
}

var pages10 = []string{"/output.json", "/resources.json", "/infos", "/health", "/metrics"}

// plain10 takes times and signatures out of an answer.
func plain10(page string, code int, h http.Header, b []byte) string {
	s := fmt.Sprintln(code, h.Get("Content-Type"))
	if page == "/metrics" {
		var l []string
		for _, x := range strings.Split(string(b), "\n") {
			for _, p := range []string{"roas{", "state "} {
				if strings.HasPrefix(x, p) {
					l = append(l, x)
				}
			}
		}
		return s + strings.Join(l, "\n")
	}
	var v interface{}
	if json.Unmarshal(b, &v) != nil {
		return s + string(b)
	}
	var strip func(v interface{})
	strip = func(v interface{}) {
		switch v := v.(type) {
		case map[string]interface{}:
			for k, x := range v {
				switch k {
				case "generated", "valid", "signature", "signatureDate", "validation-last", "validation-duration", "iteration":
					delete(v, k)
				}
				strip(x)
			}
		case []interface{}:
			for _, x := range v {
				strip(x)
			}
			// the order of lists that come from maps
			sort.Slice(v, func(i, j int) bool { return fmt.Sprint(v[i]) < fmt.Sprint(v[j]) })
		}
	}
	strip(v)
	x, _ := json.Marshal(v)
	return s + string(x)
}

type slow10 struct {
	c       client10
	w       *httptest.ResponseRecorder
	blocked chan struct{}
	release chan struct{}
	done    chan struct{}
	once    sync.Once
	wrote   bool
	fail    *vk.Fail
	quick   string // what a quick client got
}

func (s *slow10) Header() http.Header { return s.w.Header() }
func (s *slow10) WriteHeader(c int)   { s.w.WriteHeader(c) }
func (s *slow10) Write(p []byte) (int, error) {
	if s.c.mode == "gone" {
		return 0, errors.New("write: broken pipe")
	}
	if !s.wrote {
		s.wrote = true
		n := 0
		if s.c.mode == "part" {
			n = len(p) / 2
			s.w.Write(p[:n])
		}
		close(s.blocked)
		<-s.release
		s.w.Write(p[n:])
		return len(p), nil
	}
	return s.w.Write(p)
}
func (s *slow10) goOn() { s.once.Do(func() { close(s.release) }) }

type result10 struct {
	rests []map[string]string
	reqs  int
	fail  *vk.Fail
}

var held10 bool // enough seen in this process

func (c case10) exec(r *vk.Run) (o result10) {
	e := NewEnv()
	defer e.Close()
	f := newFarm()
	phase := 0
	pub := func() {
		phase++
		f.publish(world09(phase, c.transport, false))
	}
	w := world09(1, c.transport, false)
	pub()
	f.attach(e)
	e.Flags["tal.root"], e.Flags["tal.name"] = e.TAL("a.tal", w.TALBytes()), "A"
	e.Flags["max_concurrent_retrievals"] = "1"
	e.Flags["output.sign"] = fmt.Sprint(c.sign)
	e.Flags["output.wait"] = fmt.Sprint(!c.nowait)
	if c.limit > 0 {
		e.Flags["max.iterations"] = fmt.Sprint(c.limit)
	}
	var mu sync.Mutex
	setFail := func(x *vk.Fail) {
		mu.Lock()
		if o.fail == nil {
			o.fail = x
		}
		mu.Unlock()
	}
	var slow []*slow10
	// What is asked here runs beside the program and may be blocked by it.
	ask := func(w http.ResponseWriter, method, page, hdr string) (*vk.Fail, chan struct{}) {
		if page == "/output.json" {
			page = e.Out()
		}
		req := httptest.NewRequest(method, page, nil)
		if i := strings.Index(hdr, ": "); i > 0 {
			req.Header.Set(hdr[:i], hdr[i+2:])
		}
		select {
		case <-e.R.HandlerC:
		case <-time.After(5 * time.Second):
			return vk.Failf("no-server", "the program does not listen"), nil
		}
		run := e.R
		done := make(chan struct{})
		go func() {
			run.Own()
			defer close(done)
			defer func() {
				if p := recover(); p != nil {
					setFail(&vk.Fail{Key: "panic:" + siteOf(string(debug.Stack())), Desc: fmt.Sprintf("%s %s: panic: %v", method, page, p), Detail: string(debug.Stack())})
				}
			}()
			run.Handler.ServeHTTP(w, req)
		}()
		return nil, done
	}
	get := func(method, page, hdr string) (string, *vk.Fail) {
		w := httptest.NewRecorder()
		x, done := ask(w, method, page, hdr)
		if x != nil {
			return "", x
		}
		select {
		case <-done:
			return plain10(page, w.Code, w.Header(), w.Body.Bytes()), nil
		case <-time.After(6 * time.Second):
			return "", vk.Failf("no-answer", "%s %s is not answered", method, page)
		}
	}
	come := func(at int) {
		for _, x := range c.clients {
			if x.at != at {
				continue
			}
			q, fl := get(x.method, x.page, x.hdr)
			if fl != nil {
				setFail(fl)
				return
			}
			s := &slow10{c: x, w: httptest.NewRecorder(), blocked: make(chan struct{}), release: make(chan struct{}), quick: q}
			if fl, s.done = ask(s, x.method, x.page, x.hdr); fl != nil {
				setFail(fl)
				return
			}
			select {
			case <-s.blocked:
			case <-s.done:
			case <-time.After(6 * time.Second):
				setFail(vk.Failf("no-answer", "%s %s is not answered", x.method, x.page))
			}
			mu.Lock()
			slow = append(slow, s)
			mu.Unlock()
		}
	}
	point := func() {
		mu.Lock()
		o.reqs++
		n := o.reqs
		mu.Unlock()
		come(n)
	}
	web, rs := e.HTTP, e.Rsync
	e.HTTP = func(rq *http.Request) (*http.Response, error) { point(); return web(rq) }
	e.Rsync = func(uri, dest string, args []string) (string, string, int) { point(); return rs(uri, dest, args) }
	all := func() {
		mu.Lock()
		l := slow
		mu.Unlock()
		for _, s := range l {
			s.goOn()
		}
	}
	watch := time.AfterFunc(8*time.Second, func() {
		setFail(vk.Failf("held-up", "the program does not go on while a client does not read its answer"))
		all()
		time.AfterFunc(4*time.Second, func() { e.R.Kill() })
	})
	defer watch.Stop()
	check := func(s *slow10) {
		s.goOn()
		select {
		case <-s.done:
		case <-time.After(6 * time.Second):
			setFail(vk.Failf("no-answer", "%s %s is not answered", s.c.method, s.c.page))
			return
		}
		if s.c.mode == "gone" || s.c.method == "HEAD" {
			return
		}
		if got := plain10(s.c.page, s.w.Code, s.w.Header(), s.w.Body.Bytes()); got != s.quick {
			setFail(vk.Failf("slow-answer", "%s %s: a client that reads slowly gets\n%.600s\ninstead of\n%.600s", s.c.method, s.c.page, got, s.quick))
		}
	}
	e.OnIdle = func(n int) bool {
		come(-n)
		m := map[string]string{}
		for _, p := range pages10 {
			b, fl := get("GET", p, "")
			if fl != nil {
				setFail(fl)
				return false
			}
			m[p] = b
		}
		o.rests = append(o.rests, m)
		r.Trans(1)
		mu.Lock()
		bad := o.fail != nil
		mu.Unlock()
		if bad || n == 3 {
			return false
		}
		for _, s := range slow {
			at := -s.c.at // the rest it came at or before
			if at < 0 {
				at = 0
			}
			if s.c.until > 0 && n >= at+s.c.until {
				check(s)
			}
		}
		pub()
		e.R.Advance(time.Minute)
		return true
	}
	e.Exec()
	if os.Getenv("VK_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, e.Errors, e.Ended, o.reqs, o.rests)
	}
	for _, s := range slow {
		check(s)
	}
	if o.fail == nil {
		o.fail = e.Died()
	}
	if o.fail == nil && e.Ended != "idle" {
		o.fail = vk.Failf("no-stop", "the program does not come to rest (%s)", e.Ended)
	}
	return
}

var ref10 = map[string]result10{}

func (c case10) run(r *vk.Run) *vk.Fail {
	ref, ok := ref10[c.config()]
	if !ok {
		x := c
		x.clients = nil
		ref = x.exec(r)
		if ref.fail != nil {
			return ref.fail
		}
		ref10[c.config()] = ref
	}
	if held10 {
		return nil
	}
	o := c.exec(r)
	if o.fail != nil {
		return o.fail
	}
	if len(o.rests) != len(ref.rests) {
		return vk.Failf("rests", "%d rests instead of %d", len(o.rests), len(ref.rests))
	}
	for i := range o.rests {
		if !reflect.DeepEqual(o.rests[i], ref.rests[i]) {
			for _, p := range pages10 {
				if a, b := o.rests[i][p], ref.rests[i][p]; a != b {
					return vk.Failf("disturbed", "rest %d: %s is\n%.600s\ninstead of\n%.600s", i+1, p, a, b)
				}
			}
		}
	}
	r.Outcome(fmt.Sprint(o.reqs))
	return nil
}

func c10(r *vk.Run) {
	r.Rule = "histories of three publications on the real program with one or two clients, which ask for every page in several ways at every request the program makes to a server and at every rest, and do not read the answer, read half of it or are gone, and go on after one rest, two or never; every page at every rest is compared with that of the history without them, and what a slow client gets with what a quick one got"
	n := 0
	one := func(c case10) {
		r.Case(c.String(), func() *vk.Fail {
			fl := c.run(r)
			if fl != nil && (fl.Key == "held-up" || fl.Key == "no-answer") {
				if n++; n > 2 {
					held10 = true // each costs seconds
				}
			}
			r.Traces(1)
			return fl
		})
	}
	reqs := 28 // of a history; more is the same as none
	var at []int
	for i := 1; i <= reqs; i++ {
		at = append(at, i)
	}
	at = append(at, -1, -2, -3)
	type rq struct{ method, hdr string }
	for _, c := range []case10{{transport: "RRNN"}, {transport: "NNNN", nowait: true}, {transport: "RNRN", sign: true}, {transport: "NNNN", limit: 1}} {
		for _, a := range at {
			for _, p := range pages10 {
				for _, m := range []string{"stall", "part", "gone"} {
					for u := 0; u < 3; u++ {
						if m == "gone" && u > 0 {
							continue
						}
						c.clients = []client10{{a, p, "GET", "", m, u}}
						one(c)
					}
				}
				if c.transport == "RRNN" || r.Thorough() {
					for _, q := range []rq{{"POST", ""}, {"HEAD", ""}, {"OPTIONS", "Access-Control-Request-Method: GET"}, {"GET", "If-None-Match: x"}, {"GET", "Accept-Encoding: gzip"}, {"DELETE", ""}} {
						if q.hdr == "Accept-Encoding: gzip" && p == "/metrics" {
							continue
						}
						c.clients = []client10{{a, p, q.method, q.hdr, "stall", 0}}
						one(c)
					}
				}
			}
			for _, p := range []string{"/", "/output.json/x", "/infos?x=y", "//resources.json", "/debug/pprof/"} {
				c.clients = []client10{{a, p, "GET", "", "stall", 0}}
				one(c)
			}
		}
	}
	// two of them
	c := case10{transport: "RRNN"}
	for i, a := range at {
		for _, b := range at[i:] {
			if !r.Thorough() && (a > 0 && (a < 8 || a%2 > 0) || b > 0 && (b < 8 || b%2 > 0)) {
				continue
			}
			for i, p := range pages10 {
				for j, q := range pages10 {
					if (i > 2 || j > 2) && !r.Thorough() {
						continue
					}
					for _, u := range [][2]int{{0, 0}, {1, 0}, {0, 1}} {
						if u[0]+u[1] > 0 && !r.Thorough() {
							continue
						}
						c.clients = []client10{{a, p, "GET", "", "stall", u[0]}, {b, q, "GET", "", "part", u[1]}}
						one(c)
					}
				}
			}
		}
	}
}
