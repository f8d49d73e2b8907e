package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/cloudflare/cfrpki/zzverif/site"
	"github.com/cloudflare/cfrpki/zzverif/vk"
	w "github.com/cloudflare/cfrpki/zzverif/world"
)

// C11: the unchanged programs, built with Go's happens-before race detector,
// run histories in which everything that can happen at the same time does:
// fetches over RRDP and rsync, submissions to the CT log, requests for every
// page while one of the other servers is waited for. The detector compares
// every pair of accesses that the locks and channels of the run leave
// unordered, whatever order they took place in.

type case11 struct {
	kinds   string // of the children's repositories: R RRDP, F RRDP failing, S rsync, X nothing works, Q one RRDP endpoint for all Q
	gate    string
	order   string // of the answers held back: "" all at once, forward, backward
	pages   int    // -1: all, at every pause
	log     string
	ct      bool
	sign    bool
	https   bool
	tals    int
	workers int
	mode    string // server, restart, oneoff, ctrpki
}

func (c case11) id() string {
	return fmt.Sprintf("%s/%s/%s%s/p%d/%s/ct=%v/sign=%v/https=%v/%dtals/%dw", c.mode, c.kinds, c.gate, c.order, c.pages, c.log, c.ct, c.sign, c.https, c.tals, c.workers)
}

var pages11 = []string{"/output.json", "/resources.json", "/infos", "/health", "/metrics"}

// world11 is a trust anchor with a ROA and children with one each, which
// change from phase to phase.
func world11(s *site.Site, c case11, phase, n int, eps map[string]*site.RRDP) (*w.World, []string) {
	all := w.Res{V4: []w.Rng{w.PR("0.0.0.0/0")}, V6: []w.Rng{w.PR("::/0")}, AS: []w.ARng{{Lo: 0, Hi: 1<<32 - 1}}}
	b := w.NewBuilder()
	b.Skip(n * 10)
	name := string(rune('a' + n))
	h := func(i int) string { return fmt.Sprintf("h%d%s.example.net", i, name) }
	x := b.TA(name, h(0), all)
	var exp []string
	roa := func(ca *w.CA, i int, ok bool) {
		p := fmt.Sprintf("10.%d.0.0/16", n*10+i)
		asn := 100 + 10*phase + i
		b.ROA(ca, fmt.Sprintf("r%d", i), int64(asn), w.E(p, 24))
		if ok {
			exp = append(exp, fmt.Sprintf("%d %s-24", asn, p))
		}
	}
	roa(x.TA, 0, true)
	x.TA.MftNum += int64(phase)
	content := map[string]map[string][]byte{}
	for i, k := range c.kinds {
		i++
		ca := b.Kid(x.TA, fmt.Sprintf("k%d", i), h(i), all)
		ep := ""
		switch k {
		case 'R', 'F':
			ep = fmt.Sprintf("e%d%s", i, name)
		case 'X':
			s.Fail(h(i), 10)
			ep = fmt.Sprintf("e%d%s", i, name)
		case 'Q':
			ep = "eq" + name
		}
		if ep != "" {
			if eps[ep] == nil {
				eps[ep] = s.RRDP(ep)
			}
			ca.Cert.RRDP = eps[ep].URL()
			if content[ep] == nil {
				content[ep] = map[string][]byte{}
			}
		}
		ca.MftNum += int64(phase)
		roa(ca, i, k != 'X')
	}
	f := x.Files()
	s.Put(f)
	for i, k := range c.kinds {
		name := map[rune]string{'R': fmt.Sprintf("e%d%s", i+1, name), 'Q': "eq" + name}[k]
		if name == "" {
			continue
		}
		for u, b := range f {
			if strings.HasPrefix(u, "rsync://"+h(i+1)+"/") {
				content[name][u] = b
			}
		}
	}
	for ep, m := range content {
		if len(m) > 0 {
			eps[ep].Set(m)
		}
	}
	if c.https {
		s.Static("/ta/"+name+".cer", f[x.TAURI()])
		x.TAL.URI = []string{s.Base + "/ta/" + name + ".cer"}
	}
	return x, exp
}

var frame11 = regexp.MustCompile(`(?m)^  (\S+)\(\)\n +(\S+):(\d+)`)

// races reads what the detector wrote.
func races(dir string) (key, text string) {
	l, _ := filepath.Glob(dir + "/race.*")
	sort.Strings(l)
	for _, f := range l {
		b, _ := os.ReadFile(f)
		if len(b) == 0 {
			continue
		}
		text = string(b)
		var at []string
		for _, blk := range strings.Split(text, "\n\n") {
			if len(at) == 2 {
				break
			}
			if !strings.Contains(blk, "ead at 0x") && !strings.Contains(blk, "rite at 0x") {
				continue
			}
			for _, m := range frame11.FindAllStringSubmatch(blk, -1) {
				if strings.HasPrefix(m[1], "main.") || strings.Contains(m[1], "cfrpki/") && !strings.Contains(m[1], "/vendor/") {
					at = append(at, m[1])
					break
				}
			}
		}
		sort.Strings(at)
		return "race " + strings.Join(at, " "), text
	}
	return "", ""
}

type roas11 struct {
	Roas []struct {
		Prefix string      `json:"prefix"`
		Max    int         `json:"maxLength"`
		ASN    interface{} `json:"asn"`
	} `json:"roas"`
}

func list11(b []byte) string {
	l := &roas11{}
	if json.Unmarshal(b, l) != nil {
		return "not JSON"
	}
	var x []string
	for _, r := range l.Roas {
		x = append(x, fmt.Sprintf("%v %s-%d", strings.TrimPrefix(fmt.Sprint(r.ASN), "AS"), r.Prefix, r.Max))
	}
	sort.Strings(x)
	return strings.Join(x, " ")
}

func run11(r *vk.Run, c case11, dir string) *vk.Fail {
	bin := filepath.Join(r.Verif, ".build/bin")
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	s := site.New(dir, bin+"/rsync-fake")
	defer s.Close()
	s.Env = []string{"GORACE=log_path=" + dir + "/race exitcode=0 history_size=5", "GOMAXPROCS=4"}
	s.Doc("/ct/ct/v1/add-chain", func(rq *http.Request) (int, []byte) {
		return 200, []byte(`{"sct_version":0,"id":"AAAA","timestamp":1,"extensions":"","signature":"BAMAAA=="}`)
	})
	eps := map[string]*site.RRDP{}
	var exp []string
	publish := func(phase int) []string {
		exp = nil
		var tals, names, hosts []string
		for n := 0; n < c.tals; n++ {
			x, e := world11(s, c, phase, n, eps)
			exp = append(exp, e...)
			t := fmt.Sprintf("t%d.tal", n)
			must11(os.WriteFile(dir+"/"+t, x.TALBytes(), 0644))
			tals, names = append(tals, t), append(names, fmt.Sprintf("T%d", n))
			if c.mode == "ctrpki" {
				for u, b := range x.Files() {
					p := filepath.Join(dir, "cache", strings.TrimPrefix(u, "rsync://"))
					os.MkdirAll(filepath.Dir(p), 0755)
					must11(os.WriteFile(p, b, 0644))
					hosts = append(hosts, strings.Split(strings.TrimPrefix(u, "rsync://"), "/")[0])
				}
			}
		}
		sort.Strings(exp)
		if c.mode == "ctrpki" {
			var m []string
			for _, h := range hosts {
				m = append(m, "rsync://"+h+"/="+dir+"/cache/"+h+"/")
			}
			return []string{"-tal.root", strings.Join(tals, ","), "-map.dir", strings.Join(m, ","), "-ct", s.Base + "/ct", "-ct.threads", fmt.Sprint(c.workers), "-loglevel", c.log}
		}
		return []string{"-tal.root", strings.Join(tals, ","), "-tal.name", strings.Join(names, ","), "-allow.root", "-cache", dir + "/cache", "-rrdp.file", dir + "/rrdp.json", "-rsync.bin", dir + "/rsync",
			fmt.Sprintf("-output.sign=%v", c.sign), "-http.addr", s.Addr, "-refresh", "100ms", "-ct=" + fmt.Sprint(c.ct), "-ct.addr", s.Base + "/ct", "-ct.threads", fmt.Sprint(c.workers), "-max_concurrent_retrievals", fmt.Sprint(c.workers), "-loglevel", c.log}
	}
	args := publish(0)
	fail := func(key, f string, a ...interface{}) *vk.Fail {
		s.Kill()
		if k, t := races(dir); k != "" {
			return &vk.Fail{Key: k, Desc: "two accesses to the same memory are not ordered", Detail: t}
		}
		o := s.Out.String()
		if len(o) > 3000 {
			o = o[len(o)-3000:]
		}
		return &vk.Fail{Key: key, Desc: fmt.Sprintf(f, a...), Detail: o + "\n" + strings.Join(s.Log(), "\n")}
	}
	// Every page twice, by clients that come at the same time. Handlers that
	// follow each other are ordered by what the HTTP server does.
	ask := func() {
		var wg sync.WaitGroup
		for i, p := range pages11 {
			if c.pages >= 0 && c.pages != i {
				continue
			}
			for k := 0; k < 2; k++ {
				wg.Add(1)
				go func(p string) {
					defer wg.Done()
					s.Get(p)
				}(p)
				r.Trans(1)
			}
		}
		wg.Wait()
	}
	const quiet = 25 * time.Millisecond
	s.Gate(c.gate)
	deadline := time.Now().Add(limit11())
	if c.mode == "oneoff" || c.mode == "ctrpki" {
		prog := bin + "/octorpki-race"
		if c.mode == "ctrpki" {
			prog = bin + "/ctrpki-race"
		} else {
			args = append(args, "-mode", "oneoff", "-output.roa", dir+"/out.json")
		}
		s.Start(prog, args...)
		for {
			if done, err := s.Ended(); done {
				if err != nil {
					return fail("dies", "the program ends with %v", err)
				}
				break
			}
			if time.Now().After(deadline) {
				return fail("hangs", "the program does not end")
			}
			s.Quiet(quiet)
			s.Release(c.order, 10*time.Millisecond)
		}
		s.Kill()
		if c.mode == "oneoff" {
			b, _ := os.ReadFile(dir + "/out.json")
			if got := list11(b); got != strings.Join(exp, " ") {
				return fail("list", "the list is %s instead of %s", got, strings.Join(exp, " "))
			}
		}
	} else {
		start := func() {
			s.Start(bin+"/octorpki-race", append(args, "-output.roa", "/output.json")...)
		}
		start()
		for phase := 0; phase < 3; phase++ {
			if phase > 0 {
				if phase == 2 && c.mode == "restart" {
					s.Kill()
					if k, t := races(dir); k != "" {
						return &vk.Fail{Key: k, Desc: "two accesses to the same memory are not ordered", Detail: t}
					}
				}
				publish(phase)
				if phase == 2 && c.mode == "restart" {
					start()
				}
			}
			want := strings.Join(exp, " ")
			for seen := 0; seen < 2; {
				n := s.Quiet(quiet)
				ask()
				s.Release(c.order, 10*time.Millisecond)
				if done, err := s.Ended(); done {
					if phase == 0 && strings.Contains(s.Out.String(), "address already in use") {
						return &vk.Fail{Key: "port"}
					}
					return fail("dies", "the program ends with %v", err)
				}
				if time.Now().After(deadline) {
					_, b := s.Get("/output.json")
					return fail("list", "in phase %d the list does not become %s but is %s", phase, want, list11(b))
				}
				if n > 0 {
					continue
				}
				// several rounds with the same result, nothing held
				if code, b := s.Get("/output.json"); code == 200 && list11(b) == want {
					seen++
				}
			}
		}
		s.Kill()
	}
	if k, t := races(dir); k != "" {
		return &vk.Fail{Key: k, Desc: "two accesses to the same memory are not ordered", Detail: t}
	}
	return nil
}

func must11(err error) {
	if err != nil {
		panic(err)
	}
}

func init() {
	checks["C11"] = func(r *vk.Run) {
		r.Rule = "the programs built with the happens-before race detector on histories of three publications: repositories of up to three CAs by transport x the class of answers held back x the order in which they go on x pages requested meanwhile x restart, TAL over https, CT, several TALs, worker limits; one-off runs and ctrpki x threads"
		r.Assume("the race detector sees the accesses of each run and orders them by the locks, channels and goroutine starts of that run")
		w.T0 = time.Now().UTC().Truncate(time.Second)
		root, err := os.MkdirTemp("", "c11-")
		must11(err)
		defer os.RemoveAll(root)
		var cases []case11
		add := func(c case11) {
			if c.mode == "" {
				c.mode = "server"
			}
			if c.tals == 0 {
				c.tals = 1
			}
			if c.workers == 0 {
				c.workers = 100
			}
			if c.log == "" {
				c.log = "fatal"
			}
			cases = append(cases, c)
		}
		gates := []string{"", "notification", "document", "rsync"}
		n := 2
		if r.Thorough() {
			n = 3
		}
		var kinds []string
		var rec func(pre string)
		rec = func(pre string) {
			if pre != "" {
				kinds = append(kinds, pre)
			}
			if len(pre) < n {
				for _, k := range "RFSXQ" {
					if pre == "" || byte(k) >= pre[len(pre)-1] || r.Thorough() {
						rec(pre + string(k))
					}
				}
			}
		}
		rec("")
		kinds = append(kinds, "RFS", "RRR", "SSS", "RSX", "QQR", "FFF")
		// what is fetched at the same time
		for _, k := range kinds {
			for _, g := range gates {
				for _, o := range []string{"", "forward", "backward"} {
					if g == "" && o != "" || len(k) == 1 && o == "backward" {
						continue
					}
					add(case11{kinds: k, gate: g, order: o, pages: -1})
				}
			}
		}
		// more than can be fetched at the same time
		for _, k := range []string{"RRR", "RRRR", "RRRF", "RFFS", "RRSS", "QQRR", "SSSS", "FFXX"} {
			for _, g := range gates {
				for _, o := range []string{"", "forward", "backward"} {
					for _, ws := range []int{1, 2, 3} {
						if g == "" && o != "" {
							continue
						}
						add(case11{kinds: k, gate: g, order: o, workers: ws, log: []string{"fatal", "debug"}[ws%2], pages: -1})
					}
				}
			}
		}
		// what is requested meanwhile
		for _, k := range []string{"RS", "FX"} {
			for _, g := range append(gates, "tal", "ct") {
				for p := -1; p < len(pages11); p++ {
					for _, ct := range []bool{false, true} {
						if g == "ct" && !ct {
							continue
						}
						for _, o := range []case11{{log: "fatal"}, {log: "debug", sign: true, https: true}, {log: "fatal", tals: 2, https: true, workers: 1}, {log: "fatal", mode: "restart", https: true, workers: 2}} {
							if g == "tal" && !o.https || p >= 0 && !r.Thorough() && (o.tals > 0 || o.mode != "") {
								continue
							}
							o.kinds, o.gate, o.pages, o.ct = k, g, p, ct
							add(o)
						}
					}
				}
			}
		}
		// no pages, but submissions
		for _, k := range []string{"S", "RS", "RFS", "RSX"} {
			for _, m := range []string{"oneoff", "ctrpki"} {
				for _, th := range []int{1, 2, 3, 50} {
					for _, g := range []string{"", "ct", "rsync", "document"} {
						for _, o := range []string{"", "forward", "backward"} {
							if g == "" && o != "" || m == "ctrpki" && g != "" && g != "ct" {
								continue
							}
							for _, tals := range []int{1, 2} {
								add(case11{kinds: k, gate: g, order: o, mode: m, ct: true, workers: th, tals: tals, log: "error"})
							}
						}
					}
				}
			}
		}
		r.Note("runs", len(cases))
		sem := make(chan int, len(cases))
		for i := range cases {
			sem <- i
		}
		close(sem)
		// most of the time is spent waiting
		var wg sync.WaitGroup
		for t := 0; t < 24; t++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range sem {
					c := cases[i]
					if r.Skip(c.id()) || r.Expired() || r.Violations() > 10 {
						continue
					}
					r.State(c.id())
					k := 0
					r.Check(c.id(), func() *vk.Fail {
						for {
							k++
							f := run11(r, c, filepath.Join(root, fmt.Sprintf("%d.%d", i, k)))
							if f != nil && f.Key == "port" {
								continue
							}
							return f
						}
					})
					r.Traces(1)
				}
			}()
		}
		wg.Wait()
	}
}

func limit11() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("VK_LIMIT")); err == nil {
		return d
	}
	return 60 * time.Second
}
