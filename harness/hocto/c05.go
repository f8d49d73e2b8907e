package hocto

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/cloudflare/cfrpki/zzverif/vhook"
	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/cloudflare/cfrpki/zzverif/world"
)

func init() { checks["C05"] = c05 }

// ---- what has to be submitted ----

// chains5 maps the chain of every valid object of the worlds to its name
// and the URIs of the files it comes from.
type chain5 struct {
	name  string
	files []string
	may   bool
}

func chains5(ws ...*world.World) map[string]*chain5 {
	o := map[string]*chain5{}
	opts := world.DefaultOpts()
	for _, w := range ws {
		x := w.Eval(opts)
		w.Walk(func(c *world.CA) {
			var up [][]byte
			var upf []string
			for a := c; a != nil; a = a.Parent {
				up = append(up, a.CertDER())
				if a.Parent != nil {
					upf = append(upf, a.Parent.Dir+a.File)
				} else {
					upf = append(upf, w.TAURI())
				}
			}
			add := func(v world.Verdict, uri string, ders [][]byte, files []string) {
				if v == world.MustNot {
					return
				}
				o[key5(ders)] = &chain5{uri, files, v != world.MustValid}
			}
			add(x.Cert[upf[0]], upf[0], up, upf)
			mu := c.Dir + c.MftFile
			add(x.Mft[mu], mu, append([][]byte{c.MftEE.DER(&c.Cert)}, up...), append([]string{mu}, upf...))
			for _, r := range c.Roas {
				ru := c.Dir + r.File
				add(x.Roa[ru], ru, append([][]byte{r.EE.DER(&c.Cert)}, up...), append([]string{ru}, upf...))
			}
		})
	}
	return o
}

func key5(ders [][]byte) string {
	b, _ := json.Marshal(struct {
		Chain [][]byte `json:"chain"`
	}{ders})
	return string(b)
}

// ---- the log ----

// log5 is the log's server. With hold set, answers are held back until as
// many requests as possible wait, and are given in the order of the script.
type log5 struct {
	mu     sync.Mutex
	got    []string // chains, in the order of arrival
	done   int      // requests answered
	bad    string
	answer func(k int, chain string, rq *http.Request) (*http.Response, error)
	delay  time.Duration

	threads int
	total   int // requests to come
	script  []int
	degrees []int
	pend    []chan struct{}
	stop    chan struct{}
	last    time.Time
}

func (l *log5) serve(rq *http.Request, path string) (*http.Response, error) {
	b, err := io.ReadAll(rq.Body)
	var m struct {
		Chain [][]byte `json:"chain"`
	}
	l.mu.Lock()
	if rq.Method != "POST" || !strings.HasSuffix(path, "/ct/v1/add-chain") {
		l.bad = rq.Method + " " + path
	}
	if err != nil || json.Unmarshal(b, &m) != nil {
		l.bad = fmt.Sprintf("unreadable request: %v", err)
	}
	c := key5(m.Chain)
	k := len(l.got)
	l.got = append(l.got, c)
	l.last = time.Now()
	var ch chan struct{}
	if l.stop != nil {
		ch = make(chan struct{})
		l.pend = append(l.pend, ch)
	}
	l.mu.Unlock()
	if ch != nil {
		<-ch
	}
	if l.delay > 0 {
		time.Sleep(l.delay)
	}
	defer func() { l.mu.Lock(); l.done++; l.mu.Unlock() }()
	if l.answer != nil {
		return l.answer(k, c, rq)
	}
	return sct(), nil
}

func sct() *http.Response {
	return Resp(200, []byte(`{"sct_version":0,"id":"CEEUmABxUywWGQRgvPxH/cJlOvopLHKzf/hjrinMyfA=","timestamp":1512556025588,"extensions":"","signature":"BAMARjBEAiAJAPO7EKykH4eOQ81kTzKCb4IEWzcxTBdbdRCHLFPLFAIgBEoGXDUtcIaF3M5HWI+MxwkCQbvqR9TSGUHDCZoOr3Q="}`))
}

// control answers the held requests one by one as the script says.
func (l *log5) control(threads, total int, script []int) func() {
	l.stop = make(chan struct{})
	l.threads, l.total, l.script = threads, total, script
	end := make(chan struct{})
	go func() {
		defer close(end)
		out := 0
		for {
			l.mu.Lock()
			want := l.threads
			if r := l.total - out; r < want {
				want = r
			}
			if n := len(l.pend); n > 0 && (n >= want || time.Since(l.last) > 500*time.Millisecond) {
				c := 0
				if len(l.degrees) < len(l.script) {
					c = l.script[len(l.degrees)]
				}
				if c >= n {
					c = n - 1
				}
				l.degrees = append(l.degrees, n)
				close(l.pend[c])
				l.pend = append(l.pend[:c:c], l.pend[c+1:]...)
				out++
			}
			l.mu.Unlock()
			select {
			case <-l.stop:
				l.mu.Lock()
				for _, c := range l.pend {
					close(c)
				}
				l.pend, l.stop = nil, nil
				l.mu.Unlock()
				return
			case <-time.After(100 * time.Microsecond):
			}
		}
	}()
	return func() { close(l.stop); <-end }
}

// count compares the submissions with what is wanted: how often each chain,
// at least and at most.
func (l *log5) compare(names map[string]*chain5, lo, hi func(c *chain5) int) *vk.Fail {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.bad != "" {
		return vk.Failf("request", "the log gets a strange request: %s", l.bad)
	}
	n := map[string]int{}
	for _, c := range l.got {
		n[c]++
	}
	var ks []string
	for k := range names {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return names[ks[i]].name < names[ks[j]].name })
	for _, c := range l.got {
		if names[c] == nil {
			var m struct {
				Chain [][]byte `json:"chain"`
			}
			json.Unmarshal([]byte(c), &m)
			return vk.Failf("chain", "the log gets a chain of %d certificates that is no valid object's: %s", len(m.Chain), where5(m.Chain, names))
		}
	}
	for _, k := range ks {
		c := names[k]
		if n[k] < lo(c) {
			return vk.Failf("lost", "the chain of %s is submitted %d times instead of %d", c.name, n[k], lo(c))
		}
		if n[k] > hi(c) {
			return vk.Failf("twice", "the chain of %s is submitted %d times instead of %d", c.name, n[k], hi(c))
		}
	}
	return nil
}

// where5 names the certificates of a chain.
func where5(ders [][]byte, names map[string]*chain5) string {
	var o []string
	for _, d := range ders {
		n := fmt.Sprintf("%d bytes", len(d))
		for k, c := range names {
			var m struct {
				Chain [][]byte `json:"chain"`
			}
			json.Unmarshal([]byte(k), &m)
			if len(m.Chain) > 0 && string(m.Chain[0]) == string(d) {
				n = c.name
			}
		}
		o = append(o, n)
	}
	return strings.Join(o, " <- ")
}

func times5(n int) func(*chain5) int { return func(*chain5) int { return n } }
func must5(n int) func(*chain5) int {
	return func(c *chain5) int {
		if c.may {
			return 0
		}
		return n
	}
}

// ---- octorpki ----

const ctAddr = "https://ct.example.net/logs/x"

type run5 struct {
	ws      []*world.World
	threads int
	log     *log5
	flags   map[string]string
	fail    func(kind, path string) error
	end     string
}

func (x *run5) env() *Env {
	e := NewEnv()
	f := newFarm()
	f.attach(e)
	f.publish(x.ws...)
	web := e.HTTP
	e.HTTP = func(rq *http.Request) (*http.Response, error) {
		if rq.URL.Host == "ct.example.net" {
			return x.log.serve(rq, rq.URL.Path)
		}
		return web(rq)
	}
	var tals, names []string
	for i, w := range x.ws {
		tals = append(tals, e.TAL(fmt.Sprintf("t%d.tal", i), w.TALBytes()))
		names = append(names, fmt.Sprintf("T%d", i))
		e.Put(w.TAURI(), w.TA.CertDER())
	}
	e.Flags["tal.root"], e.Flags["tal.name"] = strings.Join(tals, ","), strings.Join(names, ",")
	e.Flags["ct"], e.Flags["ct.addr"], e.Flags["ct.threads"] = "true", ctAddr, fmt.Sprint(x.threads)
	for k, v := range x.flags {
		e.Flags[k] = v
	}
	if x.fail != nil {
		e.Prep = func(r *vhook.Run) { r.FailAt = x.fail }
	}
	return e
}

// oneRound runs the program to its first rest (or its end) and compares.
func (x *run5) oneRound(names map[string]*chain5, lo, hi func(*chain5) int) *vk.Fail {
	e := x.env()
	defer e.Close()
	var fail *vk.Fail
	want := 0
	for _, c := range names {
		want += lo(c)
	}
	e.OnIdle = func(int) bool {
		// submissions may still be on the way
		for i := 0; i < 2000; i++ {
			x.log.mu.Lock()
			n := len(x.log.got)
			x.log.mu.Unlock()
			if n >= want {
				break
			}
			time.Sleep(time.Millisecond)
		}
		fail = x.log.compare(names, lo, hi)
		return false
	}
	e.Exec()
	if fail != nil {
		return fail
	}
	if fl := e.Died(); fl != nil {
		return fl
	}
	end := x.end
	if end == "" {
		end = "idle"
	}
	if e.Ended != end {
		return vk.Failf("no-rest", "the program does not come to its end: %s", e.Ended)
	}
	if end == "returned" {
		x.log.mu.Lock()
		got, done := len(x.log.got), x.log.done
		x.log.mu.Unlock()
		if done < got {
			return vk.Failf("unfinished", "the program ends while %d submissions are unanswered", got-done)
		}
		return x.log.compare(names, lo, hi)
	}
	return nil
}

// ---- ctrpki ----

func (x *run5) ctrpki(names map[string]*chain5, lo, hi func(*chain5) int, gone func(k int) string) *vk.Fail {
	e := NewEnv()
	defer e.Close()
	var tals, maps []string
	hosts := map[string]bool{}
	for i, w := range x.ws {
		tals = append(tals, e.TAL(fmt.Sprintf("t%d.tal", i), w.TALBytes()))
		for u, b := range w.Files() {
			e.Put(u, b)
			hosts[hostOf(u)] = true
		}
	}
	for h := range hosts {
		maps = append(maps, "rsync://"+h+"/="+e.Cache+"/"+h+"/")
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	fatalIf(err)
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, rq *http.Request) {
		r, err := x.log.serve(rq, rq.URL.Path)
		if gone != nil {
			x.log.mu.Lock()
			u := gone(x.log.done)
			x.log.mu.Unlock()
			if u != "" {
				os.Remove(e.CachePath(u))
			}
		}
		if err != nil {
			if c, _, e2 := w.(http.Hijacker).Hijack(); e2 == nil {
				c.Close()
			}
			return
		}
		w.WriteHeader(r.StatusCode)
		io.Copy(w, r.Body)
	})}
	go srv.Serve(l)
	defer srv.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(filepath.Dir(os.Getenv("VERIF_RSYNC_BIN")), "ctrpki"),
		"-tal.root", strings.Join(tals, ","), "-map.dir", strings.Join(maps, ","), "-ct", "http://"+l.Addr().String()+"/x", "-ct.threads", fmt.Sprint(x.threads), "-loglevel", "error")
	cmd.Dir = e.Dir
	out, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		return vk.Failf("ctrpki-hangs", "ctrpki does not end")
	}
	if err != nil {
		s := string(out)
		if i := strings.Index(s, "panic:"); i >= 0 {
			s = s[i:]
		}
		if len(s) > 600 {
			s = s[:600]
		}
		return &vk.Fail{Key: "ctrpki-dies", Desc: fmt.Sprintf("ctrpki ends with %v", err), Detail: s}
	}
	x.log.mu.Lock()
	got, done := len(x.log.got), x.log.done
	x.log.mu.Unlock()
	if done < got {
		return vk.Failf("ctrpki-unfinished", "ctrpki ends while %d submissions are unanswered", got-done)
	}
	f := x.log.compare(names, lo, hi)
	if f != nil {
		f.Key = "ctrpki-" + f.Key
	}
	return f
}

// ---- worlds ----

// trees5 are small trees: parents of the CAs, ROAs of each.
func tree5(parent []int, roas int) []*world.World {
	b := world.NewBuilder()
	var cas []*world.CA
	var ws []*world.World
	for i, p := range parent {
		n, h := fmt.Sprintf("c%d", i), fmt.Sprintf("h%d.example.net", i)
		var c *world.CA
		if p < 0 {
			w := b.TA(n, h, everything())
			ws = append(ws, w)
			c = w.TA
		} else {
			c = b.Kid(cas[p], n, h, everything())
		}
		c.Cert.RRDP = epURL(h, "rrdp")
		for k := 0; k < roas; k++ {
			b.ROA(c, fmt.Sprintf("r%d", k), int64(100+10*i+k), world.E(fmt.Sprintf("10.%d.%d.0/24", i, k), 24))
		}
		cas = append(cas, c)
	}
	return ws
}

// all chains of the worlds sit in the cache from the start, so that the
// first stable round has them all.

func explore5(r *vk.Run, name string, ws func() []*world.World, threads int, bin bool, limit int) {
	r.Case(name, func() *vk.Fail {
		w := ws()
		names := chains5(w...)
		var script []int
		runs := 0
		for {
			x := &run5{ws: w, threads: threads, log: &log5{}}
			stop := x.log.control(threads, len(names), script)
			var f *vk.Fail
			if bin {
				f = x.ctrpki(names, must5(1), times5(1), nil)
			} else {
				f = x.oneRound(names, must5(1), times5(1))
			}
			stop()
			runs++
			r.Trans(len(x.log.degrees))
			r.Count("completion-orders", 1)
			if f != nil {
				f.Desc += fmt.Sprintf(" (completion order %v)", script)
				return f
			}
			// next script
			d := x.log.degrees
			s := append([]int(nil), script...)
			for len(s) < len(d) {
				s = append(s, 0)
			}
			s = s[:len(d)]
			i := len(d) - 1
			for ; i >= 0; i-- {
				if s[i]+1 < d[i] {
					s[i]++
					s = s[:i+1]
					break
				}
			}
			if i < 0 || limit > 0 && runs >= limit {
				break
			}
			script = s
		}
		return nil
	})
}

func c05(r *vk.Run) {
	r.Rule = "all small trees x threads x completion orders of the submissions; all single faults of objects; all placements of failing submissions and of files that cannot be read; octorpki and ctrpki"
	bins := []bool{false, true}
	pn := map[bool]string{false: "octorpki", true: "ctrpki"}
	// completion orders
	type shape struct {
		parent []int
		roas   int
	}
	shapes := []shape{{[]int{-1}, 0}, {[]int{-1}, 1}, {[]int{-1}, 2}, {[]int{-1, 0}, 0}, {[]int{-1, 0}, 1}, {[]int{-1, -1}, 0}}
	maxThreads := 3
	if r.Thorough() {
		shapes = append(shapes, shape{[]int{-1, 0, 0}, 0}, shape{[]int{-1, 0, 1}, 0}, shape{[]int{-1, -1}, 1}, shape{[]int{-1}, 4})
		maxThreads = 4
	}
	for _, s := range shapes {
		for t := 1; t <= maxThreads; t++ {
			for _, bin := range bins {
				s, t, bin := s, t, bin
				explore5(r, fmt.Sprintf("%s orders parents=%v roas=%d threads=%d", pn[bin], s.parent, s.roas, t), func() []*world.World { return tree5(s.parent, s.roas) }, t, bin, 0)
			}
		}
	}
	run := func(name string, f func() *vk.Fail) { r.Case(name, f) }
	// trees
	n := 4
	for k := 1; k <= n; k++ {
		forests(k, func(parent []int) {
			for _, bin := range bins {
				for _, t := range []int{0, 1, 2, 7, 50} {
					if t == 0 && !bin {
						continue
					}
					bin, t, parent := bin, t, parent
					run(fmt.Sprintf("%s tree parents=%v threads=%d", pn[bin], parent, t), func() *vk.Fail {
						x := &run5{ws: tree5(parent, 1), threads: t, log: &log5{}}
						names := chains5(x.ws...)
						if bin {
							return x.ctrpki(names, must5(1), times5(1), nil)
						}
						return x.oneRound(names, must5(1), times5(1))
					})
				}
			}
		})
	}
	// authority key identifiers of trust anchors
	for _, what := range []string{"own", "child", "roa", "other", "unknown"} {
		for _, bin := range bins {
			what, bin := what, bin
			run(fmt.Sprintf("%s anchor-aki %s", pn[bin], what), func() *vk.Fail {
				ws := tree5([]int{-1, 0, 1, -1}, 1)
				ta := ws[0].TA
				switch what {
				case "own":
					ta.Cert.AKI = ta.Cert.Key.SKI
				case "child":
					ta.Cert.AKI = ta.Kids[0].Cert.Key.SKI
				case "roa":
					ta.Cert.AKI = ta.Roas[0].EE.Key.SKI
				case "other":
					ta.Cert.AKI = ws[1].TA.Cert.Key.SKI
				case "unknown":
					ta.Cert.AKI = []byte("01234567890123456789")
				}
				x := &run5{ws: ws, threads: 2, log: &log5{}}
				names := chains5(ws...)
				if bin {
					return x.ctrpki(names, must5(1), times5(1), nil)
				}
				return x.oneRound(names, must5(1), times5(1))
			})
		}
	}
	// faults of objects
	for i, f := range faults6() {
		for _, bin := range bins {
			i, f, bin := i, f, bin
			run(fmt.Sprintf("%s fault %d %s", pn[bin], i, f.name), func() *vk.Fail {
				_, ws := base6()
				f.do(ws)
				x := &run5{ws: ws, threads: 2, log: &log5{}}
				names := chains5(ws...)
				if bin {
					return x.ctrpki(names, must5(1), times5(1), nil)
				}
				return x.oneRound(names, must5(1), times5(1))
			})
		}
	}
	// failing submissions
	small := func() []*world.World { return tree5([]int{-1, 0}, 1) }
	nchains := len(chains5(small()...))
	bads := []string{"refused", "400", "403", "404", "500", "502", "garbage", "broken", "hang"}
	for _, bin := range bins {
		for _, what := range bads {
			if bin && (what == "refused" || what == "garbage" || what == "broken" || what == "hang") {
				continue // ctrpki's library tries again until it works
			}
			for k := -1; k < nchains; k++ {
				for t := 1; t <= 2; t++ {
					bin, what, k, t := bin, what, k, t
					run(fmt.Sprintf("%s answer %s to %d threads=%d", pn[bin], what, k, t), func() *vk.Fail {
						x := &run5{ws: small(), threads: t, log: &log5{}, flags: map[string]string{"ct.timeout": "1"}}
						x.log.answer = func(n int, _ string, rq *http.Request) (*http.Response, error) {
							if k >= 0 && n != k || k < 0 && what == "hang" && n > 2 {
								return sct(), nil
							}
							switch what {
							case "refused":
								return nil, errors.New("connection refused")
							case "garbage":
								return Resp(200, []byte("<html>")), nil
							case "broken":
								p := Resp(200, nil)
								p.Body, p.ContentLength = io.NopCloser(&brokenBody{}), -1
								return p, nil
							case "hang":
								<-rq.Context().Done()
								return nil, rq.Context().Err()
							}
							c := 0
							fmt.Sscan(what, &c)
							return Resp(c, []byte("no")), nil
						}
						names := chains5(x.ws...)
						if bin {
							return x.ctrpki(names, must5(1), times5(1), nil)
						}
						return x.oneRound(names, must5(1), times5(1))
					})
				}
			}
		}
	}
	// files that cannot be read
	files := map[string]bool{}
	for _, c := range chains5(small()...) {
		for _, u := range c.files {
			files[u] = true
		}
	}
	var us []string
	for u := range files {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		uses := 0
		for _, c := range chains5(small()...) {
			for _, f := range c.files {
				if f == u {
					uses++
				}
			}
		}
		for _, errno := range []error{fs.ErrNotExist, syscall.EIO} {
			for _, on := range []bool{false, true} {
				for k := 1; k <= uses+3; k++ {
					for t := 1; t <= 2; t++ {
						u, errno, on, k, t := u, errno, on, k, t
						run(fmt.Sprintf("octorpki unreadable %s %v from=%v read=-%d threads=%d", u, errno, on, k, t), func() *vk.Fail {
							return unreadable5(u, errno, on, k, t, uses, small())
						})
					}
				}
			}
		}
		for k := 1; k <= nchains; k++ {
			for t := 0; t <= 2; t++ {
				u, k, t := u, k, t
				run(fmt.Sprintf("ctrpki deleted %s after=%d threads=%d", u, k, t), func() *vk.Fail {
					x := &run5{ws: small(), threads: t, log: &log5{}}
					names := chains5(x.ws...)
					return x.ctrpki(names, without5(u, 1), times5(1), func(n int) string {
						if n == k {
							return u
						}
						return ""
					})
				})
			}
		}
	}
	// rounds
	{
		for k := 1; k <= 3; k++ {
			forests(k, func(parent []int) {
				for _, tr := range []byte{'r', 's'} {
					for _, wait := range []bool{true, false} {
						for _, mode := range []string{"", "oneoff"} {
							for _, limit := range []int{0, 1, 2} {
								parent, tr, wait, mode, limit := parent, tr, wait, mode, limit
								run(fmt.Sprintf("octorpki rounds parents=%v transport=%c wait=%v mode=%s limit=%d", parent, tr, wait, mode, limit), func() *vk.Fail {
									return rounds5(parent, tr, wait, mode, limit)
								})
							}
						}
					}
				}
			})
		}
	}
}

func without5(u string, n int) func(*chain5) int {
	return func(c *chain5) int {
		for _, f := range c.files {
			if f == u {
				return 0
			}
		}
		return must5(n)(c)
	}
}

// unreadable5 makes one read of a file fail (or all from it on): the k-th
// from the end.
func unreadable5(u string, errno error, on bool, k, threads, uses int, ws []*world.World) *vk.Fail {
	names := chains5(ws...)
	total := -1
	for pass := 0; pass < 2; pass++ {
		x := &run5{ws: ws, threads: threads, log: &log5{}}
		n := 0
		var path string
		x.fail = func(kind, p string) error {
			if p != path || kind != "readfile" && kind != "read" && kind != "open" {
				return nil
			}
			n++
			if total >= 0 && (n == total-k+1 || on && n > total-k) {
				return &fs.PathError{Op: "open", Path: p, Err: errno}
			}
			return nil
		}
		path = filepath.Join(base, fmt.Sprintf("r%d", runNo+1), "cache", strings.TrimPrefix(u, "rsync://"))
		lo, hi := must5(1), times5(1)
		if pass > 0 {
			lo = without5(u, 1)
			if k > uses {
				lo = times5(0) // already the validation misses it
			}
		}
		f := x.oneRound(names, lo, hi)
		if f != nil {
			return f
		}
		if n == 0 {
			return vk.Failf("harness", "no read of %s is seen", u)
		}
		if pass > 0 && k <= uses && !on {
			x.log.mu.Lock()
			got := len(x.log.got)
			x.log.mu.Unlock()
			if got != len(names)-1 {
				return vk.Failf("unreadable", "one read of %s fails and %d of %d chains are submitted", u, got, len(names))
			}
		}
		total = n
	}
	return nil
}

type brokenBody struct{ n int }

func (b *brokenBody) Read(p []byte) (int, error) {
	if b.n++; b.n > 1 {
		return 0, errors.New("connection reset")
	}
	return copy(p, "{\"sct"), nil
}

// rounds5 counts the submissions of every round while repositories are
// discovered.
func rounds5(parent []int, tr byte, wait bool, mode string, limit int) *vk.Fail {
	g := g02{parent: parent, tr: strings.Repeat(string([]byte{tr}), len(parent)), wait: wait}
	for i := range parent {
		g.mod = append(g.mod, i)
	}
	cas, ws := g.build()
	all := chains5(ws...)
	byURI := map[string]string{}
	for k, c := range all {
		byURI[c.name] = k
	}
	x := &run5{ws: ws, threads: 2, log: &log5{}, flags: map[string]string{"output.wait": fmt.Sprint(wait)}}
	if mode != "" {
		x.flags["mode"] = mode
		x.log.delay = 30 * time.Millisecond
	}
	lim := 32
	if limit > 0 {
		lim = limit
		x.flags["max.iterations"] = fmt.Sprint(limit)
	}
	sim := &sim02{g: g, known: map[int]bool{}, files: map[int]int{}, n: len(cas)}
	want := map[string]int{}
	iter := 0
	cycle := func() {
		for rounds := 1; ; rounds++ {
			fresh, found := sim.round()
			iter++
			stable := !fresh && iter > 1
			end := stable || rounds > lim
			if end || !wait {
				for i := range sim.valid {
					u := ""
					if parent[i] < 0 {
						for _, w := range ws {
							if w.TA == cas[i] {
								u = w.TAURI()
							}
						}
					} else {
						u = cas[parent[i]].Dir + cas[i].File
					}
					want[u]++
				}
				for _, i := range found {
					want[cas[i].Dir+cas[i].MftFile]++
					want[cas[i].Dir+cas[i].Roas[0].File]++
				}
			}
			if end {
				return
			}
		}
	}
	e := x.env()
	defer e.Close()
	cmp := func() *vk.Fail {
		n := func(c *chain5) int { return want[c.name] }
		var f *vk.Fail
		for i := 0; i < 200; i++ {
			if f = x.log.compare(all, n, n); f == nil || f.Key != "lost" || mode != "" {
				return f
			}
			time.Sleep(10 * time.Millisecond)
		}
		return f
	}
	var fail *vk.Fail
	e.OnIdle = func(k int) bool {
		cycle()
		fail = cmp()
		return fail == nil && k < 3
	}
	e.Exec()
	if fail != nil {
		return fail
	}
	if fl := e.Died(); fl != nil {
		return fl
	}
	if mode == "oneoff" {
		if e.Ended != "returned" {
			return vk.Failf("no-end", "the program does not end: %s", e.Ended)
		}
		x.log.mu.Lock()
		got, done := len(x.log.got), x.log.done
		x.log.mu.Unlock()
		if done < got {
			return vk.Failf("unfinished", "the program ends while %d submissions are unanswered", got-done)
		}
		cycle()
		return cmp()
	}
	if e.Ended != "idle" {
		return vk.Failf("no-rest", "the program does not come to rest: %s", e.Ended)
	}
	return nil
}
