package hocto

import (
	"bytes"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/cloudflare/cfrpki/zzverif/world"
)

func init() { checks["B08"] = b08 }

// B08: with the real rsync, whatever the cache contains, what an rsync server
// publishes is in the cache after a round.

// layout08 are the places of TAL certificate and repositories.
type layout08 struct {
	name           string
	ta             string // URI of the trust anchor certificate
	h0, h1, h2     string // host (and more of the path) of the CAs
	taDirNoTrailer bool   // the TA's repository URI has no slash at the end
	https          string // another location of the trust anchor certificate
}

var layouts08 = []layout08{
	{name: "plain", ta: "rsync://h0.example.net/ta/a.cer", h0: "h0.example.net", h1: "h1.example.net", h2: "h2.example.net"},
	{name: "one-module", ta: "rsync://h0.example.net/repo/a.cer", h0: "h0.example.net", h1: "h0.example.net", h2: "h0.example.net"},
	{name: "modules-nested", ta: "rsync://h0.example.net/ta/x/y/a.cer", h0: "h0.example.net", h1: "h0.example.net/m1/d1/d2", h2: "h0.example.net/m2"},
	{name: "port", ta: "rsync://h0.example.net:8873/ta/a.cer", h0: "h0.example.net:8873", h1: "h1.example.net:1", h2: "h1.example.net"},
	{name: "no-slash", ta: "rsync://h0.example.net/ta/a.cer", h0: "h0.example.net", h1: "h1.example.net", h2: "h0.example.net", taDirNoTrailer: true},
	{name: "https", ta: "rsync://h0.example.net/ta/a.cer", h0: "h0.example.net", h1: "h1.example.net", h2: "h2.example.net", https: "https://h0.example.net/a.cer"},
}

// world08 is generation g of what is published; objects of two generations
// have the same names.
func world08(l layout08, g int) *world.World {
	b := world.NewBuilder()
	b.MT, b.MN = world.T0.Add(time.Duration(g-4)*time.Hour), world.T0.Add(24*time.Hour)
	w := b.TA("a", l.h0, everything())
	w.TAL.URI = []string{l.ta}
	if l.https != "" {
		w.TAL.URI = []string{l.https, l.ta}
	}
	w.TA.Cert.Serial = int64(g)
	k1 := b.Kid(w.TA, "k1", l.h1, everything())
	k2 := b.Kid(k1, "k2", l.h2, everything())
	for i, ca := range []*world.CA{w.TA, k1, k2} {
		b.ROA(ca, fmt.Sprintf("r%d", i), int64(10*g+i), world.E(fmt.Sprintf("10.%d.0.0/16", i), 24))
		ca.MftNum = int64(7 + g)
		if l.taDirNoTrailer {
			ca.Cert.CARepo = strings.TrimSuffix(ca.Cert.CARepo, "/")
		}
	}
	return w
}

func want08(g int) string {
	return fmt.Sprintf("AS%d 10.0.0.0/16-24 AS%d 10.1.0.0/16-24 AS%d 10.2.0.0/16-24", 10*g, 10*g+1, 10*g+2)
}

func (l layout08) files(w *world.World) map[string][]byte {
	m := w.Files()
	for u, b := range m {
		if strings.Contains(u, "/ta/a.cer") && u != l.ta {
			delete(m, u)
			m[l.ta] = b
		}
	}
	return m
}

// the deviations of a cached file from the published one
var local08 = []string{"absent", "touched", "older", "newer", "empty", "cut", "longer", "readonly", "noaccess", "dangling", "link", "dir", "emptynew", "cutnew"}

var mtime08 = world.T0.Add(-5 * time.Hour)

// serve08 lets the servers publish files, all last modified at mt.
func serve08(e *Env, files map[string][]byte, mt func(u string) time.Time) {
	mods := map[string]map[string]string{}
	root := e.Dir + "/server"
	seen := map[string]bool{}
	for u, b := range files {
		p := strings.TrimPrefix(u, "rsync://")
		parts := strings.SplitN(p, "/", 3)
		host := strings.SplitN(parts[0], ":", 2)[0]
		if mods[host] == nil {
			mods[host] = map[string]string{}
		}
		mods[host][parts[1]] = root + "/" + host + "/" + parts[1]
		fp := root + "/" + host + "/" + parts[1] + "/" + parts[2]
		fatalIf(os.MkdirAll(filepath.Dir(fp), 0755))
		fatalIf(os.WriteFile(fp+".tmp08", b, 0644))
		fatalIf(os.Rename(fp+".tmp08", fp))
		fatalIf(os.Chtimes(fp, mt(u), mt(u)))
		seen[fp] = true
	}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && !seen[p] {
			os.Remove(p)
		}
		return nil
	})
	for h, m := range mods {
		e.rsyncd(h, m)
	}
}

func local08put(e *Env, u string, b []byte, how string, other string) {
	p := e.CachePath(u)
	fatalIf(os.MkdirAll(filepath.Dir(p), 0755))
	os.Remove(p)
	put := func(b []byte, mt time.Time) {
		fatalIf(os.WriteFile(p, b, 0644))
		fatalIf(os.Chtimes(p, mt, mt))
	}
	flip := append([]byte{}, b...)
	flip[len(flip)-1] ^= 1
	flip[len(flip)/2] ^= 0x20
	switch how {
	case "same":
		put(b, mtime08)
	case "touched":
		put(b, mtime08.Add(time.Hour))
	case "older":
		put(flip, mtime08.Add(-time.Hour))
	case "newer":
		put(flip, mtime08.Add(24*time.Hour))
	case "empty":
		put(nil, mtime08)
	case "emptynew":
		put(nil, mtime08.Add(time.Hour))
	case "cut":
		put(b[:len(b)/2], mtime08)
	case "cutnew":
		put(b[:len(b)-1], mtime08.Add(time.Hour))
	case "longer":
		put(append(append([]byte{}, b...), 0), mtime08)
	case "readonly":
		put(flip, mtime08.Add(time.Second))
		os.Chmod(p, 0400)
	case "noaccess":
		put(flip, mtime08.Add(-time.Second))
		os.Chmod(p, 0)
	case "dangling":
		fatalIf(os.Symlink("nowhere", p))
	case "link":
		fatalIf(os.Symlink(e.CachePath(other), p))
	case "dir":
		fatalIf(os.Mkdir(p, 0755))
	}
}

type mirror08 struct {
	layout layout08
	local  map[int]string // file number -> deviation; others: base
	base   string
	gens   []int // what the servers publish from round to round
	shift  []int // hours: modification times of each generation
	extra  string
	down   []string // per round: hosts that are not reachable
	oneoff bool
	fileIn string // a path below the cache that is a file instead of a directory
}

func (c mirror08) run(r *vk.Run, bin string) *vk.Fail {
	e := NewEnv()
	defer e.Close()
	extras := map[string][]byte{}
	switch c.extra {
	case "names":
		for _, n := range []string{"a b.roa", "ü.cer", "-v.mft", "back\\slash.crl", "new\nline.roa", "100%25.cer", strings.Repeat("x", 240) + ".roa", "*.roa", "deleting x.roa", ".hidden.cer", "#octothorpe.roa", "q\"uote.cer"} {
			extras["rsync://h0.example.net/repo/a/"+n] = []byte("x" + n)
			extras["rsync://h0.example.net/repo/"+n] = []byte("y" + n)
		}
	case "big":
		extras["rsync://h0.example.net/repo/a/big.roa"] = bytes.Repeat([]byte("0123456789abcdef"), 1<<17)
		extras["rsync://h0.example.net/repo/zero.roa"] = nil
	case "many":
		for i := 0; i < 3000; i++ {
			extras[fmt.Sprintf("rsync://h0.example.net/repo/a/%s/%0100d.roa", strings.Repeat("d", i%7+1), i)] = []byte(fmt.Sprint(i))
		}
	case "deep":
		extras["rsync://h0.example.net/repo/"+strings.Repeat("d/", 60)+"x.roa"] = []byte("deep")
	}
	now := 0
	var files map[string][]byte
	publish := func() {
		g := c.gens[now]
		fs := c.layout.files(world08(c.layout, g))
		for u, b := range extras {
			fs[u] = b
		}
		e.mu.Lock()
		files = fs
		e.mu.Unlock()
		mt := mtime08
		if now < len(c.shift) {
			mt = mt.Add(time.Duration(c.shift[now]) * time.Hour)
		}
		serve08(e, files, func(string) time.Time { return mt })
		if now < len(c.down) {
			for _, h := range strings.Fields(c.down[now]) {
				switch {
				case strings.HasPrefix(h, "!"): // the daemon cannot start
					os.Remove(e.Dir + "/rsyncd/" + h[1:])
				default: // the host has no modules
					e.rsyncd(h, nil)
				}
			}
		}
	}
	publish()
	names := keys(c.layout.files(world08(c.layout, c.gens[0])))
	if c.base != "absent" || len(c.local) > 0 {
		for i, u := range names {
			how := c.base
			if d, ok := c.local[i]; ok {
				how = d
			}
			if how != "absent" {
				local08put(e, u, files[u], how, names[(i+1)%len(names)])
			}
		}
	}
	if c.fileIn != "" {
		fatalIf(os.MkdirAll(filepath.Dir(e.Cache+"/"+c.fileIn), 0755))
		fatalIf(os.WriteFile(e.Cache+"/"+c.fileIn, []byte("file"), 0644))
	}
	e.Flags["tal.root"] = e.TAL("a.tal", world08(c.layout, 1).TALBytes())
	e.Flags["tal.name"] = "A"
	e.Flags["rsync.bin"] = bin
	e.HTTP = func(rq *http.Request) (*http.Response, error) {
		if rq.URL.String() == c.layout.https {
			e.mu.Lock()
			defer e.mu.Unlock()
			return Resp(200, files[c.layout.ta]), nil
		}
		return Resp(404, nil), nil
	}
	os.Setenv("RSYNC_CONNECT_PROG", e.rsyncConnect(bin))
	if c.oneoff {
		e.Flags["mode"] = "oneoff"
	}
	// A certificate that has been published, or has something behind it, is
	// valid; this one is not fetched with rsync again.
	olds := map[string]bool{}
	for _, g := range []int{1, 2, 3} {
		b := string(c.layout.files(world08(c.layout, g))[c.layout.ta])
		olds[b], olds[b+"\x00"] = true, true
	}
	var bad, stale *vk.Fail
	e.OnIdle = func(n int) bool {
		down := now < len(c.down) && c.down[now] != ""
		var st *vk.Fail
		bad, st = c.judge(e, files, down, olds)
		if stale == nil {
			stale = st
		}
		r.Trans(1)
		if bad == nil && !down {
			code, l, _ := e.List()
			got := ""
			if l != nil {
				got = vrps07(l)
			}
			r.Outcome(got)
			if w := want08(c.gens[now]); code != 200 || got != w {
				bad = vk.Failf("list", "round %d: the list is [%s] (status %d) instead of [%s]", now, got, code, w)
			}
		}
		now++
		if bad != nil || now >= len(c.gens) {
			return false
		}
		publish()
		return true
	}
	e.Exec()
	if f := e.Died(); f != nil {
		return f
	}
	if c.oneoff {
		if e.Ended != "returned" {
			return vk.Failf("no-stop", "the program does not end (%s)", e.Ended)
		}
		if bad, stale = c.judge(e, files, false, olds); bad == nil {
			bad = stale
		}
		return bad
	}
	if bad != nil {
		return bad
	}
	if e.Ended != "idle" {
		return vk.Failf("no-stop", "the program does not come to rest (%s)", e.Ended)
	}
	return stale
}

// judge compares the cache to what the servers publish.
func (c mirror08) judge(e *Env, files map[string][]byte, down bool, olds map[string]bool) (bad, stale *vk.Fail) {
	if down {
		return nil, nil
	}
	for _, u := range keys(files) {
		p := e.CachePath(u)
		fi, err := os.Lstat(p)
		if err != nil {
			return vk.Failf("not-there", "%s is published and not in the cache: %v", u, err), nil
		}
		if !fi.Mode().IsRegular() {
			return vk.Failf("not-a-file", "%s is published and %v in the cache", u, fi.Mode()), nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return vk.Failf("not-there", "%s: %v", u, err), nil
		}
		if u == c.layout.ta && c.layout.https == "" && olds[string(b)] && !bytes.Equal(b, files[u]) {
			stale = vk.Failf("stale-ta", "the trust anchor certificate %s is not fetched with rsync while the one in the cache is valid", u)
			continue
		}
		if !bytes.Equal(b, files[u]) {
			return vk.Failf("differs", "%s is not in the cache what is published (%d bytes, published %d)", u, len(b), len(files[u])), nil
		}
	}
	return nil, stale
}

func b08(r *vk.Run) {
	r.Rule = "the real program with the real rsync and a daemon per host: every published file x every deviation of the cached copy (absent, other times, same size and other content, cut off, longer, no access, symbolic link, directory), singly and in pairs, from a full and an empty cache, on five layouts of hosts, ports, modules and directories; every history of three publications with older and newer modification times, hosts failing and returning in between; after each round the cache has to equal the publication and the list has to be complete"
	bin, err := exec.LookPath("rsync")
	if err != nil {
		r.Note("real_rsync", "not installed, nothing checked")
		return
	}
	r.Note("real_rsync", bin)
	names := func(l layout08) []string { return keys(l.files(world08(l, 1))) }
	one := func(id string, c mirror08) {
		if c.gens == nil {
			c.gens = []int{1}
		}
		r.Case(id, func() *vk.Fail {
			f := c.run(r, bin)
			r.Traces(1)
			return f
		})
	}
	for _, l := range layouts08 {
		n := len(names(l))
		for _, o := range []bool{false, true} {
			one(fmt.Sprintf("%s empty oneoff=%v", l.name, o), mirror08{layout: l, base: "absent", oneoff: o})
			for _, b := range append([]string{"same"}, local08...) {
				if l.https != "" && (b == "dangling" || b == "link" || b == "dir") {
					continue
				}
				one(fmt.Sprintf("%s all %s oneoff=%v", l.name, b, o), mirror08{layout: l, base: b, oneoff: o})
			}
		}
		for i := 0; i < n; i++ {
			for _, d := range local08 {
				if l.https != "" && names(l)[i] == l.ta && (d == "dangling" || d == "link" || d == "dir") {
					continue // the program writes this file itself
				}
				for _, base := range []string{"same", "absent"} {
					if d == base {
						continue
					}
					one(fmt.Sprintf("%s %s %d=%s", l.name, base, i, d), mirror08{layout: l, base: base, local: map[int]string{i: d}})
				}
			}
		}
		if l.name != "plain" && !r.Thorough() {
			continue
		}
		pair := []string{"absent", "older", "newer", "cut", "dir", "link"}
		if r.Thorough() {
			pair = local08
		}
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				for _, d := range pair {
					for _, d2 := range pair {
						one(fmt.Sprintf("%s %d=%s %d=%s", l.name, i, d, j, d2), mirror08{layout: l, base: "same", local: map[int]string{i: d, j: d2}})
					}
				}
			}
		}
	}
	// histories
	for li, l := range layouts08 {
		for _, s1 := range []int{-2, 2} {
			for _, s2 := range []int{-3, 1, 3} {
				for _, g := range [][]int{{1, 2, 3}, {3, 2, 1}, {1, 2, 1}, {2, 2, 3}} {
					if li > 0 && !r.Thorough() && g[0] != 1 {
						continue
					}
					one(fmt.Sprintf("%s history %v %d %d", l.name, g, s1, s2), mirror08{layout: l, base: "absent", gens: g, shift: []int{0, s1, s2}})
				}
			}
		}
	}
	for _, x := range []string{"names", "big", "many", "deep"} {
		for _, b := range []string{"absent", "same", "older"} {
			one("extra "+x+" "+b, mirror08{layout: layouts08[0], base: b, extra: x, gens: []int{1, 2}, shift: []int{0, 1}})
		}
	}
	// hosts that fail
	sets := []string{"h0", "h1", "h2", "!h0", "!h1", "!h2", "h0 h1", "!h0 h2", "!h0 !h1 !h2", "h0 h1 h2"}
	for _, s := range sets {
		s = strings.NewReplacer("h0", "h0.example.net", "h1", "h1.example.net", "h2", "h2.example.net").Replace(s)
		one("down first "+s, mirror08{layout: layouts08[0], base: "absent", gens: []int{1, 1}, down: []string{s}})
		one("down then "+s, mirror08{layout: layouts08[0], base: "absent", gens: []int{1, 2, 2}, shift: []int{0, 1, 1}, down: []string{"", s}})
		for _, s2 := range sets[:6] {
			s2 = strings.NewReplacer("h0", "h0.example.net", "h1", "h1.example.net", "h2", "h2.example.net").Replace(s2)
			one("down "+s+" then "+s2, mirror08{layout: layouts08[0], base: "absent", gens: []int{1, 2, 3}, shift: []int{0, 1, 2}, down: []string{s, s2}})
		}
	}
	for _, p := range []string{"h0.example.net/repo/a", "h1.example.net/repo/k1", "h2.example.net/repo/k2"} {
		one("file instead of directory "+p, mirror08{layout: layouts08[0], base: "absent", fileIn: p})
	}
}
