// Package hocto model-checks the whole octorpki program: it is linked into
// an instrumented copy of cmd/octorpki and runs its real main function
// against simulated HTTP and rsync servers, a scratch disk and a virtual
// clock.
package hocto

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"errors"
	"flag"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cloudflare/cfrpki/zzverif/vhook"
	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/cloudflare/cfrpki/zzverif/world"
	"github.com/sirupsen/logrus"
)

var octoMain func()
var checks = map[string]func(*vk.Run){}

// Main is the harness' main function.
func Main(m func()) {
	octoMain = m
	logrus.SetOutput(io.Discard)
	if len(os.Args) < 2 || checks[os.Args[1]] == nil {
		fmt.Println("usage: hocto <property>")
		os.Exit(2)
	}
	id := os.Args[1]
	r := vk.New(id)
	if id == "B08" || id == "C09" {
		vk.ShardFactor = 4 // much of the time is spent waiting for rsync
	}
	if !r.Child() {
		r.Supervise()
	}
	debug.SetGCPercent(400)
	setup()
	if p := os.Getenv("VK_PROF"); p != "" {
		f, _ := os.Create(p + fmt.Sprint(os.Getpid()))
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
		go func() { time.Sleep(15 * time.Second); pprof.StopCPUProfile(); f.Close() }()
	}
	os.Args = []string{"octorpki"}
	if id == "C09" {
		r.HangLimit(300 * time.Second)
	} else {
		r.HangLimit(60 * time.Second)
	}
	checks[id](r)
	os.RemoveAll(base)
	r.Finish()
}

var base string // scratch directory of this process
var sockets net.Listener
var signKey *ecdsa.PrivateKey
var signKeyPEM []byte
var flagDefaults = map[string]string{}
var curEnv atomic.Pointer[Env]
var runNo int
var inflight atomic.Int64

func fatalIf(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(5)
	}
}

func setup() {
	var err error
	// The simulated validation instant: now, in whole seconds.
	world.T0 = time.Now().UTC().Truncate(time.Second)
	tmp := os.TempDir()
	base, err = os.MkdirTemp(tmp, "hocto-")
	fatalIf(err)
	base, err = filepath.EvalSymlinks(base)
	fatalIf(err)
	fatalIf(os.Chdir(base))
	signKey, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	fatalIf(err)
	kb, err := x509.MarshalECPrivateKey(signKey)
	fatalIf(err)
	signKeyPEM = pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})
	flag.VisitAll(func(f *flag.Flag) { flagDefaults[f.Name] = f.DefValue })
	sock := filepath.Join(base, "s")
	sockets, err = net.Listen("unix", sock)
	fatalIf(err)
	os.Setenv("VERIF_RSYNC_SOCK", sock)
	go func() {
		for {
			c, err := sockets.Accept()
			if err != nil {
				return
			}
			go serveRsync(c)
		}
	}()
	http.DefaultTransport = transport{}
	logrus.StandardLogger().ExitFunc = func(c int) {
		if e := ownEnv(); e != nil {
			e.mu.Lock()
			if e.Fatal == "" {
				e.Fatal = fmt.Sprintf("exit %d: %s", c, e.lastFatal)
				e.FatalStack = string(debug.Stack())
			}
			e.mu.Unlock()
			e.R.Kill()
		}
		runtime.Goexit()
	}
	vhook.OnExit = func(c int) {
		if e := ownEnv(); e != nil {
			e.mu.Lock()
			if c != 0 && e.Fatal == "" {
				e.Fatal = fmt.Sprintf("exit %d", c)
				e.FatalStack = string(debug.Stack())
			}
			e.mu.Unlock()
		}
	}
	logrus.AddHook(logHook{})
}

// ownEnv is the environment of the calling goroutine's run, nil when that is
// over.
func ownEnv() *Env {
	e := curEnv.Load()
	if e == nil || vhook.Cur() != e.run.Load() {
		return nil
	}
	return e
}

type logHook struct{}

func (logHook) Levels() []logrus.Level {
	return []logrus.Level{logrus.FatalLevel, logrus.PanicLevel, logrus.ErrorLevel}
}
func (logHook) Fire(en *logrus.Entry) error {
	if e := ownEnv(); e != nil {
		e.mu.Lock()
		if en.Level == logrus.ErrorLevel {
			if len(e.Errors) < 200 {
				e.Errors = append(e.Errors, en.Message)
			}
		} else {
			e.lastFatal = en.Message
		}
		e.mu.Unlock()
	}
	return nil
}

// Env is one execution of the program with its surroundings.
type Env struct {
	run        atomic.Pointer[vhook.Run]
	Dir, Cache string
	Flags      map[string]string
	HTTP       func(req *http.Request) (*http.Response, error)
	Rsync      func(uri, dest string, args []string) (out, errs string, code int)
	OnIdle     func(n int) bool // the program waits for the n-th time: go on?
	Sched      *vhook.Sched
	Prep       func(r *vhook.Run)
	MaxNow     int

	R          *vhook.Run
	Idles      int
	Fatal      string
	FatalStack string
	Panic      interface{}
	Stack      string
	Ended      string // returned, idle, crashed, fatal, panic, runaway, stuck
	Errors     []string
	lastFatal  string
	mu         sync.Mutex
	Hung       atomic.Int64  // rsync processes that wait for nothing
	Release    chan struct{} // ends them
	LastIdle   time.Duration
}

// NewEnv makes a fresh scratch directory.
func NewEnv() *Env {
	runNo++
	e := &Env{Dir: filepath.Join(base, fmt.Sprintf("r%d", runNo)), Flags: map[string]string{}, Release: make(chan struct{})}
	e.Cache = e.Dir + "/cache"
	fatalIf(os.MkdirAll(e.Cache, 0755))
	fatalIf(os.WriteFile(e.Dir+"/key.pem", signKeyPEM, 0600))
	return e
}

// Close removes the scratch directory.
func (e *Env) Close() {
	close(e.Release)
	e.closeReleased()
}

func (e *Env) closeReleased() {
	for i := 0; inflight.Load() != 0 && i < 1000; i++ {
		time.Sleep(time.Millisecond)
	}
	curEnv.Store(nil)
	if old := e.run.Swap(nil); old != nil {
		old.Disown()
	}
	if strings.HasPrefix(e.Dir, base+"/r") {
		os.RemoveAll(e.Dir)
	}
}

// TAL writes a trust anchor locator.
func (e *Env) TAL(name string, b []byte) string {
	p := filepath.Join(e.Dir, name)
	fatalIf(os.WriteFile(p, b, 0644))
	return p
}

// CachePath is where the cache keeps a URI.
func (e *Env) CachePath(uri string) string {
	return filepath.Join(e.Cache, strings.TrimPrefix(uri, "rsync://"))
}

// Put stores a file in the cache.
func (e *Env) Put(uri string, b []byte) {
	p := e.CachePath(uri)
	fatalIf(os.MkdirAll(filepath.Dir(p), 0755))
	fatalIf(os.WriteFile(p, b, 0644))
}

// Exec runs the program until it waits with OnIdle saying no, ends or dies.
// It can be called again: that is a restart with what is left on disk.
func (e *Env) Exec() {
	for n, d := range flagDefaults {
		fatalIf(flag.Set(n, d))
	}
	fl := map[string]string{"allow.root": "true", "cache": e.Cache + "/", "rrdp.file": e.Cache + "/rrdp.json", "output.roa": "output.json",
		"output.sign.key": e.Dir + "/key.pem", "rsync.bin": os.Getenv("VERIF_RSYNC_BIN"), "loglevel": "error", "http.addr": "127.0.0.1:0",
		"max_concurrent_retrievals": "4"}
	if e.Flags["mode"] == "oneoff" {
		fl["output.roa"] = e.Dir + "/output.json"
	}
	for n, v := range e.Flags {
		fl[n] = v
	}
	for n, v := range fl {
		fatalIf(flag.Set(n, v))
	}
	e.Fatal, e.Panic, e.Ended, e.Idles, e.Errors = "", nil, "", 0, nil
	r := &vhook.Run{Root: e.Dir, Base: base, CrashAt: -1, Sched: e.Sched, MaxNow: e.MaxNow}
	if r.MaxNow == 0 {
		r.MaxNow = 20000
	}
	r.SetNow(world.T0)
	if e.R != nil {
		r.SetNow(e.R.GetNow())
	}
	if e.Prep != nil {
		e.Prep(r)
	}
	r.Idle = func(d time.Duration) {
		e.Idles++
		e.LastIdle = d
		if e.OnIdle == nil || !e.OnIdle(e.Idles) {
			e.Ended = "idle"
			r.Kill()
			runtime.Goexit()
		}
	}
	e.R = r
	if old := e.run.Swap(r); old != nil {
		old.Disown()
	}
	curEnv.Store(e)
	vhook.Start(r)
	done := make(chan struct{})
	go func() {
		returned := false
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				e.mu.Lock()
				e.Panic, e.Stack = p, string(debug.Stack())
				e.mu.Unlock()
			} else if returned && e.Ended == "" {
				e.Ended = "returned"
			}
		}()
		r.Own()
		r.LoopG = vhook.Goid()
		octoMain()
		returned = true
	}()
	stop := false
	for !stop {
		select {
		case <-done:
			stop = true
		case <-time.After(200 * time.Millisecond):
			if r.Dead() {
				select {
				case <-done:
				case <-time.After(time.Second):
				}
				stop = true
			}
		}
	}
	r.Kill()
	e.mu.Lock()
	switch {
	case e.Panic != nil:
		e.Ended = "panic"
	case r.IsFrozen():
		e.Ended = "crashed"
	case e.Fatal != "":
		e.Ended = "fatal"
	case r.Runaway:
		e.Ended = "runaway"
	case e.Ended == "":
		e.Ended = "stuck"
	}
	e.mu.Unlock()
}

// Died turns a fatal exit or panic of the program into a failure.
func (e *Env) Died() *vk.Fail {
	switch e.Ended {
	case "panic":
		return &vk.Fail{Key: "panic:" + siteOf(e.Stack), Desc: fmt.Sprintf("the program panics: %v", e.Panic), Detail: e.Stack}
	case "fatal":
		return &vk.Fail{Key: "fatal:" + siteOf(e.FatalStack), Desc: "the program stops itself: " + e.Fatal, Detail: e.FatalStack}
	case "stuck":
		return vk.Failf("stuck", "the program's main loop ended unexpectedly")
	}
	return nil
}

func siteOf(st string) string {
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "github.com/cloudflare/cfrpki/") && !strings.Contains(l, "/zzverif/") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/cloudflare/cfrpki/")
		}
	}
	return "?"
}

// Get asks the program's HTTP server.
func (e *Env) Get(p string, hdr ...string) *httptest.ResponseRecorder {
	select {
	case <-e.R.HandlerC:
	case <-time.After(5 * time.Second):
		return nil
	}
	req := httptest.NewRequest("GET", p, nil)
	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header.Set(hdr[i], hdr[i+1])
	}
	w := httptest.NewRecorder()
	e.R.Handler.ServeHTTP(w, req)
	return w
}

// Out is the path of the ROA list on the server.
func (e *Env) Out() string {
	o := flag.Lookup("output.roa").Value.String()
	if !strings.HasPrefix(o, "/") {
		o = "/" + o
	}
	return o
}

// ---- network ----

type transport struct{}

func (transport) RoundTrip(req *http.Request) (*http.Response, error) {
	e := ownEnv()
	if e == nil || e.HTTP == nil || e.R.Dead() {
		return nil, errors.New("verif: no network")
	}
	inflight.Add(1)
	defer inflight.Add(-1)
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	resp, err := e.HTTP(req)
	if resp != nil {
		resp.Request = req
	}
	return resp, err
}

// Resp builds an HTTP response.
func Resp(code int, body []byte) *http.Response {
	return &http.Response{StatusCode: code, Status: fmt.Sprintf("%d %s", code, http.StatusText(code)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body))}
}

func serveRsync(c net.Conn) {
	defer c.Close()
	var args []string
	if json.NewDecoder(c).Decode(&args) != nil {
		return
	}
	var a struct {
		Out, Err string
		Code     int
		Hang     string
	}
	a.Code = 12
	e := curEnv.Load()
	if e != nil && e.Rsync != nil && len(args) >= 2 && !e.R.Dead() {
		a.Out, a.Err, a.Code = e.Rsync(args[len(args)-2], args[len(args)-1], args[:len(args)-2])
	}
	if a.Code < 0 && -a.Code <= len(hangs) {
		// This one does not end; its connection lasts as long as it does.
		a.Hang = hangs[-a.Code-1]
		if a.Hang != "orphan" {
			e.Hung.Add(1)
			defer e.Hung.Add(-1)
		}
		json.NewEncoder(c).Encode(a)
		end := make(chan struct{})
		go func() {
			io.Copy(io.Discard, c)
			close(end)
		}()
		select {
		case <-end:
		case <-e.Release:
		}
		return
	}
	json.NewEncoder(c).Encode(a)
}

// hangs are the ways rsync does not end, as exit codes -1, -2, ...: without
// a word or after what it has written; after it closed its output; not even on
// SIGTERM; as two processes of which the first ends the second on SIGTERM; and
// with a second one that stays.
var hangs = []string{"silent", "closed", "term", "child", "orphan"}

// RsyncCopy does what rsync does with a source URI and a destination for
// the files of a server (URI -> content).
func RsyncCopy(root string, files map[string][]byte, uri, dest string) (string, int) {
	if dest != root && !strings.HasPrefix(filepath.Clean(dest)+"/", root+"/") {
		return "", 11
	}
	write := func(p string, b []byte) bool {
		if os.MkdirAll(filepath.Dir(p), 0755) != nil {
			return false
		}
		return os.WriteFile(p, b, 0644) == nil
	}
	out := "receiving incremental file list\n"
	if b, ok := files[uri]; ok { // a single file
		if fi, err := os.Stat(dest); err == nil && fi.IsDir() {
			dest = filepath.Join(dest, path.Base(uri))
		}
		if !write(dest, b) {
			return out, 11
		}
		return out + path.Base(uri) + "\n", 0
	}
	prefix := uri
	parts := strings.Split(strings.TrimPrefix(uri, "rsync://"), "/")
	under := "" // directory name created at the destination
	if !strings.HasSuffix(prefix, "/") {
		prefix += "/"
		if len(parts) > 2 {
			under = parts[len(parts)-1]
		}
	}
	var us []string
	for u := range files {
		if strings.HasPrefix(u, prefix) {
			us = append(us, u)
		}
	}
	sort.Strings(us)
	if len(us) == 0 {
		return "", 5
	}
	for _, u := range us {
		rel := strings.TrimPrefix(u, prefix)
		if !write(filepath.Join(dest, under, rel), files[u]) {
			return out, 11
		}
		out += path.Join(under, rel) + "\n"
	}
	return out, 0
}
