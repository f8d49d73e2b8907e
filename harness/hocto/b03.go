package hocto

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/cloudflare/cfrpki/zzverif/world"
)

func init() { checks["B03"] = b03 }

const evil = "evil.example.org"

// hostile strings where an rsync URI is expected; @O is a place outside of
// the cache (but inside the scratch directory), @H the server's own host.
var hostileURIs = []string{
	"rsync://@H/repo/../../outside/x.cer", "rsync://@H/../outside/x.cer", "rsync://@H/repo/../../../../../../../outside.cer", "rsync://../outside/x.cer", "rsync://../x.cer",
	"rsync://..", "rsync://@H/..", "rsync://@H/../", "rsync://@H/repo/..", "rsync://@H/repo/../..", "rsync://@H/repo/../../", "rsync://./x.cer", "rsync://.", "rsync:///outside/x.cer", "rsync:///", "rsync://",
	"", "@O/x.cer", "@O/", "file://@O/x.cer", "https://@H/x.cer", "rsync:/@O/x.cer", "RSYNC://@H/../../outside/x.cer", " rsync://@H/../../outside/x.cer",
	"rsync://@H", "rsync://@H/", "rsync://@H/repo", "rsync://@H/repo/", "rsync://@H//", "rsync://@H//x.cer", "rsync://@H/repo//x.cer", "rsync://@H/repo/./x.cer", "rsync://@H/./../../outside/x.cer",
	"rsync://@H/repo/..\\..\\..\\outside\\x.cer", "rsync://@H/repo/%2e%2e/%2e%2e/%2e%2e/outside/x.cer", "rsync://@H/repo/ta/evil.mft/x.cer", "rsync://@H/ta/evil.cer/x.cer", "rsync://@H/repo/ta",
	"rsync://good.example.net/repo/ta/good.mft", "rsync://good.example.net/ta/good.cer", "rsync://@H.evil/repo/x.cer", "rsync://x/rsync://@H/y.cer", "rsync://good.example.net/rsync://@H/", "rsync://@H@good.example.net/repo/x.cer",
	"rsync://@H/repo/" + strings.Repeat("n", 300) + ".cer", "rsync://" + strings.Repeat("h", 300) + "/repo/x.cer", "rsync://@H/repo/" + strings.Repeat("d/", 2100) + "x.cer", "rsync://@H/repo/a\x00b.cer", "rsync://@H/repo/a\nb.cer", "rsync://@H/repo/*",
	"--rsh=x", "-e", "rsync://rrdp.json/repo/x.cer", "rsync://@H/..x/y.cer", "rsync://@H/x../y.cer", "rsync://@H/.../y.cer", "../outside/x.cer", "x.cer", "rsync",
}

// expand fills in the placeholders.
func (e *Env) expand(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "@H", evil), "@O", e.Dir+"/outside")
}

// judgeFS checks every file operation and rsync run of the program.
func (e *Env) judgeFS(rsyncs [][2]string, bound map[string]bool) *vk.Fail {
	allowed := map[string]bool{e.Dir + "/key.pem": true, e.Dir + "/output.json": true, e.Cache + "/rrdp.json": true, e.Cache: true}
	for _, t := range strings.Split(e.Flags["tal.root"], ",") {
		allowed[t] = true
	}
	for _, o := range e.R.OpList() {
		if allowed[o.Path] {
			if o.Path == e.Cache && o.Kind != "mkdir" && !o.Read {
				return vk.Failf("cache-root:"+o.Kind, "the program does %s on the cache directory itself", o.Kind)
			}
			continue
		}
		if !strings.HasPrefix(o.Path, e.Cache+"/") {
			what := "modifies"
			if o.Read {
				what = "reads"
			}
			return vk.Failf(what+"-outside:"+o.Kind, "the program %s %s (%s), which is outside of the cache", what, o.Path, o.Kind)
		}
		if !o.Read && o.Kind != "mkdir" && bound != nil {
			h := strings.SplitN(strings.TrimPrefix(o.Path, e.Cache+"/"), "/", 2)[0]
			if !bound[h] {
				return vk.Failf("foreign-host:"+o.Kind, "the program stores %s, in the directory of a host its RRDP server is not bound to", o.Path)
			}
		}
	}
	for _, a := range rsyncs {
		if !strings.HasPrefix(a[0], "rsync://") {
			return vk.Failf("rsync-source", "rsync is run on %q", a[0])
		}
		d := filepath.Clean(a[1])
		h := strings.SplitN(strings.TrimPrefix(a[0], "rsync://"), "/", 2)[0]
		if !strings.HasPrefix(d, e.Cache+"/") || strings.Contains(a[1]+"/", "/../") {
			return vk.Failf("rsync-outside", "rsync of %q is pointed at %q, which is not below the cache directory", a[0], a[1])
		}
		if !strings.HasPrefix(d+"/", e.Cache+"/"+h+"/") {
			return vk.Failf("rsync-other-host", "rsync of %q is pointed at %q, outside of the directory of its host", a[0], a[1])
		}
	}
	// nothing appeared outside, no link leads outside
	var bad *vk.Fail
	filepath.Walk(e.Dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || bad != nil {
			return nil
		}
		if fi.Mode()&os.ModeSymlink != 0 && strings.HasPrefix(p, e.Cache) {
			t, err := filepath.EvalSymlinks(p)
			if err != nil { // dangling
				t, _ = os.Readlink(p)
				if !filepath.IsAbs(t) {
					t = filepath.Join(filepath.Dir(p), t)
				}
			}
			if !strings.HasPrefix(t, e.Cache+"/") {
				bad = vk.Failf("symlink", "the cache contains the symbolic link %s, which leads outside of the cache", p)
			}
		}
		if !fi.IsDir() && !strings.HasPrefix(p, e.Cache+"/") && !allowed[p] && !strings.HasPrefix(p, e.Dir+"/outside/") && !strings.HasPrefix(p, e.Dir+"/server/") && !strings.HasPrefix(p, e.Dir+"/rsyncd/") {
			bad = vk.Failf("created-outside", "%s was created", p)
		}
		return nil
	})
	if b, _ := os.ReadFile(e.Dir + "/outside/x.cer"); string(b) != "secret" {
		return vk.Failf("outside-changed", "the file outside of the cache was changed")
	}
	return bad
}

var goodWorld *world.World
var goodSite *Site

// b03env prepares a run with a well-behaved trust anchor beside the hostile
// one.
func b03env() *Env {
	if goodWorld == nil {
		b := world.NewBuilder()
		goodWorld = b.TA("good", "good.example.net", world.Res{V4: []world.Rng{world.PR("10.0.0.0/8")}, AS: []world.ARng{{Lo: 1, Hi: 100}}})
		b.ROA(goodWorld.TA, "r", 1, world.E("10.1.0.0/16", 20))
		goodSite = NewSite(goodWorld)
	}
	e := NewEnv()
	os.MkdirAll(e.Dir+"/outside", 0755)
	os.WriteFile(e.Dir+"/outside/x.cer", []byte("secret"), 0644)
	return e
}

type b03case struct {
	uri       []string // TAL locations of the hostile trust anchor
	edit      func(w *world.World, e *Env)
	pub, wd   []string // objects in the hostile snapshot and delta
	deltaToo  bool
	noTA      bool // the hostile trust anchor certificate is not in the cache yet
	flags     map[string]string
	snapURI   string
	realRsync func(e *Env)
	// a CA claims the good host's repository as its own, which binds its RRDP
	// server to that host
	bindsGood bool
}

func (c b03case) run(maxIdle int) *vk.Fail {
	e := b03env()
	defer e.Close()
	b := world.NewBuilder()
	b.Skip(6)
	w := b.TA("evil", evil, world.Res{V4: []world.Rng{world.PR("11.0.0.0/8")}, AS: []world.ARng{{Lo: 1, Hi: 100}}})
	b.ROA(w.TA, "er", 2, world.E("11.1.0.0/16", 20))
	k := b.Kid(w.TA, "kid", evil, world.Res{V4: []world.Rng{world.PR("11.2.0.0/16")}, AS: []world.ARng{{Lo: 1, Hi: 100}}})
	b.ROA(k, "kr", 3, world.E("11.2.3.0/24", 24))
	bound := map[string]bool{evil: true, "good.example.net": true, "rfc8630": true}
	if c.pub != nil || c.wd != nil || c.snapURI != "" {
		w.TA.Cert.RRDP = "https://" + evil + "/rrdp/notification.xml"
	}
	if c.edit != nil {
		c.edit(w, e)
	}
	ownsGood := c.bindsGood
	if c.uri != nil {
		w.TAL.URI = nil
		for _, u := range c.uri {
			w.TAL.URI = append(w.TAL.URI, e.expand(u))
			if h := hostOf(e.expand(u)); strings.HasPrefix(e.expand(u), "rsync://") {
				bound[h] = true // the operator's own choice
				bound[strings.SplitN(strings.TrimPrefix(filepath.Clean("/"+strings.TrimPrefix(e.expand(u), "rsync://")), "/"), "/", 2)[0]] = true
				ownsGood = ownsGood || h == "good.example.net"
			}
		}
	}
	files := map[string][]byte{}
	w.AddFiles(files)
	for u, by := range files {
		if strings.HasPrefix(u, "rsync://"+evil+"/repo/evil/") || strings.HasPrefix(u, "rsync://"+evil+"/repo/kid/") {
			e.Put(u, by)
		}
	}
	if !c.noTA {
		e.Put("rsync://"+evil+"/ta/evil.cer", w.TA.CertDER())
	}
	for u, by := range goodSite.Files {
		e.Put(u, by)
	}
	e.Flags["tal.root"] = e.TAL("evil.tal", w.TALBytes()) + "," + e.TAL("good.tal", goodWorld.TALBytes())
	e.Flags["tal.name"] = "evil,good"
	for n, v := range c.flags {
		e.Flags[n] = v
	}
	polls := 0
	e.HTTP = func(rq *http.Request) (*http.Response, error) {
		u := rq.URL.String()
		if strings.HasSuffix(u, ".cer") {
			return Resp(200, w.TA.CertDER()), nil
		}
		if !strings.Contains(u, evil+"/rrdp") {
			return Resp(404, nil), nil
		}
		el := func(kind string, s string) string {
			s = e.expand(s)
			s = strings.NewReplacer("&", "&amp;", "<", "&lt;", "\"", "&quot;", "\n", "&#10;", "\x00", "\\0").Replace(s)
			if kind == "withdraw" {
				return fmt.Sprintf("<withdraw uri=\"%s\" hash=\"%064d\"/>", s, 0)
			}
			return fmt.Sprintf("<publish uri=\"%s\">%s</publish>", s, base64.StdEncoding.EncodeToString([]byte("payload")))
		}
		doc := func(kind string, serial int) string {
			x := fmt.Sprintf("<%s xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"s\" serial=\"%d\">", kind, serial)
			for _, p := range c.pub {
				x += el("publish", p)
			}
			if kind == "delta" {
				for _, p := range c.wd {
					x += el("withdraw", p)
				}
			}
			return x + "</" + kind + ">"
		}
		switch {
		case strings.HasSuffix(u, "notification.xml"):
			polls++
			n := polls
			if n > 3 {
				n = 3
			}
			snap := "https://" + evil + "/rrdp/snapshot.xml"
			if c.snapURI != "" {
				snap = e.expand(c.snapURI)
			}
			x := fmt.Sprintf("<notification xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"s\" serial=\"%d\"><snapshot uri=\"%s\" hash=\"%s\"/>", n, strings.ReplaceAll(snap, "&", "&amp;"), sha(doc("snapshot", n)))
			for i := 1; i <= n; i++ {
				x += fmt.Sprintf("<delta serial=\"%d\" uri=\"https://%s/rrdp/delta%d.xml\" hash=\"%s\"/>", i, evil, i, sha(doc("delta", i)))
			}
			return Resp(200, []byte(x+"</notification>")), nil
		case strings.HasSuffix(u, "snapshot.xml"):
			n := polls
			if n > 3 {
				n = 3
			}
			return Resp(200, []byte(doc("snapshot", n))), nil
		case strings.Contains(u, "/delta"):
			n := 0
			fmt.Sscanf(u[strings.LastIndex(u, "/")+1:], "delta%d.xml", &n)
			return Resp(200, []byte(doc("delta", n))), nil
		}
		return Resp(404, nil), nil
	}
	var rsyncs [][2]string
	e.Rsync = func(uri, dest string, args []string) (string, string, int) {
		e.mu.Lock()
		rsyncs = append(rsyncs, [2]string{uri, dest})
		e.mu.Unlock()
		return "", "", 5
	}
	if c.realRsync != nil {
		c.realRsync(e)
		os.Setenv("RSYNC_CONNECT_PROG", e.rsyncConnect(c.flags["rsync.bin"]))
	}
	okList := false
	var lastCode int
	e.OnIdle = func(n int) bool {
		code, l, err := e.List()
		lastCode = code
		if err == nil && l != nil && strings.Contains(strings.Join(l.VRPs(), " "), "10.1.0.0/16,20,AS1@good") {
			okList = true
		}
		return n < maxIdle
	}
	e.Exec()
	if f := e.Died(); f != nil {
		return f
	}
	if f := e.judgeFS(rsyncs, bound); f != nil {
		return f
	}
	if e.Ended != "idle" {
		return vk.Failf("no-stop", "the program does not come to rest (%s)", e.Ended)
	}
	if c.realRsync != nil { // it did transfer something
		if _, err := os.Stat(e.Cache + "/" + evil + "/repo/kid/kr.roa"); err != nil {
			if _, err := os.Stat(e.Cache + "/" + evil + "/repo/evil/evil.crl"); err != nil {
				return vk.Failf("no-transfer", "rsync brought nothing into the cache (%v)", err)
			}
		}
	}
	if !okList && !ownsGood {
		return vk.Failf("bystander", "the authorizations of the other trust anchor are not served (last status %d)", lastCode)
	}
	return nil
}

func b03(r *vk.Run) {
	r.Rule = "a menu of hostile URIs and names at every place a server, certificate, manifest or TAL can put one, singly and (RRDP documents) in pairs; every file operation and rsync run of the real program is recorded and has to stay inside the cache directory, and the program has to keep serving another trust anchor"
	case1 := func(id string, c b03case) {
		r.Case(id, func() *vk.Fail {
			f := c.run(2)
			r.Trans(1)
			r.Traces(1)
			return f
		})
	}
	fo := map[string]string{"rrdp.failover": "true"}
	nf := map[string]string{"rrdp.failover": "false"}
	for i, u := range hostileURIs {
		u := u
		id := fmt.Sprintf("%d %.60q", i, u)
		// the TAL's own location
		for _, f := range []map[string]string{fo, nf} {
			fn := f["rrdp.failover"]
			if !strings.ContainsAny(u, "\n\x00") && strings.TrimSpace(u) != "" {
				case1("tal "+fn+" "+id, b03case{uri: []string{u}, flags: f})
				case1("tal-https-first "+fn+" "+id, b03case{uri: []string{"https://" + evil + "/ta.cer", u}, flags: f, noTA: true})
				case1("tal-rsync-first "+fn+" "+id, b03case{uri: []string{u, "https://" + evil + "/ta.cer"}, flags: f, noTA: true})
			}
			// certificate fields of the trust anchor and of its child
			for _, kid := range []bool{false, true} {
				pick := func(w *world.World) *world.CA {
					if kid {
						return w.Find("kid")
					}
					return w.TA
				}
				case1(fmt.Sprintf("repo kid=%v %s %s", kid, fn, id), b03case{flags: f, edit: func(w *world.World, e *Env) { pick(w).Cert.CARepo = e.expand(u) }})
				case1(fmt.Sprintf("mft kid=%v %s %s", kid, fn, id), b03case{flags: f, edit: func(w *world.World, e *Env) { pick(w).Cert.Mft = e.expand(u) }})
				case1(fmt.Sprintf("repo+mft kid=%v %s %s", kid, fn, id), b03case{flags: f, edit: func(w *world.World, e *Env) { pick(w).Cert.CARepo, pick(w).Cert.Mft = e.expand(u), e.expand(u) }})
				case1(fmt.Sprintf("rrdp kid=%v %s %s", kid, fn, id), b03case{flags: f, edit: func(w *world.World, e *Env) { pick(w).Cert.RRDP = e.expand(u) }})
				case1(fmt.Sprintf("repo+rrdp kid=%v %s %s", kid, fn, id), b03case{flags: f, edit: func(w *world.World, e *Env) {
					pick(w).Cert.CARepo = e.expand(u)
					pick(w).Cert.RRDP = "https://" + evil + "/rrdp/notification.xml"
				}, pub: []string{"rsync://good.example.net/repo/good/good.mft"}, bindsGood: strings.HasPrefix(u, "rsync://good.example.net/")})
				case1(fmt.Sprintf("crldp kid=%v %s %s", kid, fn, id), b03case{flags: f, edit: func(w *world.World, e *Env) {
					w.Find("kid").Cert.CRLDP = e.expand(u)
					pick(w).MftEE.CRLDP, pick(w).MftEE.SignedObj = e.expand(u), e.expand(u)
				}})
				// without manifests the directory is listed
				case1(fmt.Sprintf("listing kid=%v %s %s", kid, fn, id), b03case{flags: map[string]string{"rrdp.failover": fn, "manifest.use": "false"}, edit: func(w *world.World, e *Env) { pick(w).Cert.CARepo = e.expand(u) }})
			}
		}
		// names in a manifest
		case1("mftname "+id, b03case{flags: fo, edit: func(w *world.World, e *Env) { w.TA.Dangling = append(w.TA.Dangling, e.expand(u)) }})
		case1("mftname kid "+id, b03case{flags: fo, edit: func(w *world.World, e *Env) {
			k := w.Find("kid")
			k.Dangling = append(k.Dangling, strings.TrimPrefix(e.expand(u), "rsync://"))
		}})
		for _, up := range []string{"../", "../../", "../../../", "../../../../", "sub/../../", "./../", "//"} {
			if i == 0 {
				for _, x := range []string{"outside/x.cer", "outside/x.roa", "outside/x.mft", "outside/x.crl", "key.pem", "rrdp.json", "evil.tal"} {
					n := up + x
					case1("mftname rel "+n, b03case{flags: fo, edit: func(w *world.World, e *Env) { w.TA.Dangling = append(w.TA.Dangling, n) }})
				}
			}
		}
		// RRDP documents
		case1("snapshot "+id, b03case{pub: []string{u}, flags: fo})
		case1("withdraw "+id, b03case{pub: []string{"rsync://" + evil + "/repo/ok.roa"}, wd: []string{u}, flags: fo})
		case1("snapshot-uri "+id, b03case{snapURI: u, flags: fo})
		if !r.Thorough() {
			for _, v := range []string{"rsync://@H/repo/x", "rsync://@H/repo/x/y.cer"} {
				case1("pair "+id+v, b03case{pub: []string{u, v}, wd: []string{v}, flags: fo})
			}
			continue
		}
		for j, v := range hostileURIs {
			case1(fmt.Sprintf("pair %s %d", id, j), b03case{pub: []string{u, v}, wd: []string{v}, flags: fo})
			case1(fmt.Sprintf("pubwd %s %d", id, j), b03case{pub: []string{u}, wd: []string{v}, flags: nf})
		}
	}
	// Real rsync with symbolic links on the server.
	bin, err := exec.LookPath("rsync")
	if err != nil {
		r.Note("real_rsync", "not installed, symbolic links not checked")
		return
	}
	r.Note("real_rsync", bin)
	targets := []string{"@O", "@O/x.cer", "../../../../outside", "../../../../outside/x.cer", "../../..", "..", "../../good.example.net", "/", "/etc/passwd", "ta/../../../../../outside", "./ta", "evil.mft"}
	for ti, t := range targets {
		for _, at := range []string{"lnk", "evil/lnk", "evil/evil.mft", "evil/er.roa", "kid"} {
			t, at := t, at
			id := fmt.Sprintf("symlink %d %s at %s", ti, t, at)
			case1(id, b03case{flags: map[string]string{"rsync.bin": bin}, realRsync: func(e *Env) {
				srv := e.Dir + "/server/repo"
				// the server has what the cache has, plus the link
				exec.Command("cp", "-a", e.Cache+"/"+evil+"/repo", e.Dir+"/server-tmp").Run()
				os.MkdirAll(e.Dir+"/server", 0755)
				os.Rename(e.Dir+"/server-tmp", srv)
				os.RemoveAll(srv + "/" + at)
				os.Symlink(e.expand(t), srv+"/"+at)
				os.RemoveAll(e.Cache + "/" + evil + "/repo")
				e.rsyncd(evil, map[string]string{"repo": srv})
			}})
		}
	}
}
