// Package site drives the built programs from outside: it plays a TLS server
// on the loopback with TAL locations, RRDP endpoints and a CT log, and the
// other side of the stand-in for rsync. Every request belongs to a class and
// can be held back until the checking side lets it go on.
package site

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Site is everything around one run of a program.
type Site struct {
	Dir, Base string
	Bin       map[string]string
	Env       []string
	Out       bytes.Buffer
	Addr      string

	mu    sync.Mutex
	docs  map[string]func(r *http.Request) (int, []byte)
	files map[string][]byte // what rsync servers have, by URI
	fail  map[string]int    // rsync exit codes by host
	log   []string
	gate  string // the class that is held
	held  []held
	last  time.Time // of the last request
	ts    *httptest.Server
	sock  net.Listener
	cmd   *exec.Cmd
	done  chan struct{}
	err   error
	key   *ecdsa.PrivateKey
}
type held struct {
	what string
	c    chan struct{}
}

var tlsOnce sync.Once
var tlsCert tls.Certificate
var tlsPEM []byte

func ident() {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "site"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	must(err)
	tlsCert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	tlsPEM = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}
func must(err error) {
	if err != nil {
		panic(err)
	}
}

// New sets a site up in a directory, which the caller removes.
func New(dir, rsync string) *Site {
	tlsOnce.Do(ident)
	s := &Site{Dir: dir, docs: map[string]func(*http.Request) (int, []byte){}, files: map[string][]byte{}, fail: map[string]int{}, last: time.Now()}
	must(os.MkdirAll(dir+"/cache", 0755))
	must(os.WriteFile(dir+"/ca.pem", tlsPEM, 0644))
	must(os.Symlink(rsync, dir+"/rsync"))
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	kb, err := x509.MarshalECPrivateKey(key)
	must(err)
	must(os.WriteFile(dir+"/private.pem", pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0600))
	s.ts = httptest.NewUnstartedServer(http.HandlerFunc(s.serve))
	s.ts.Config.ErrorLog = log.New(io.Discard, "", 0)
	s.ts.TLS = &tls.Config{Certificates: []tls.Certificate{tlsCert}}
	s.ts.StartTLS()
	s.Base = s.ts.URL
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s.Addr = l.Addr().String()
	l.Close()
	s.sock, err = net.Listen("unix", dir+"/s")
	must(err)
	go func() {
		for {
			c, err := s.sock.Accept()
			if err != nil {
				return
			}
			go s.rsync(c)
		}
	}()
	return s
}

// Close ends everything.
func (s *Site) Close() {
	s.Kill()
	s.Gate("")
	s.sock.Close()
	s.ts.CloseClientConnections()
	s.ts.Close()
}

func class(p string) string {
	switch {
	case strings.HasSuffix(p, "/notification.xml"):
		return "notification"
	case strings.HasSuffix(p, "/snapshot.xml"), strings.HasSuffix(p, "/delta.xml"):
		return "document"
	case strings.HasSuffix(p, ".cer"):
		return "tal"
	}
	return "ct"
}

func (s *Site) wait(class, what string) {
	s.mu.Lock()
	s.log = append(s.log, what)
	s.last = time.Now()
	if s.gate != class {
		s.mu.Unlock()
		return
	}
	h := held{what, make(chan struct{})}
	s.held = append(s.held, h)
	s.mu.Unlock()
	<-h.c
}
func (s *Site) serve(w http.ResponseWriter, r *http.Request) {
	s.wait(class(r.URL.Path), "http "+r.URL.Path)
	s.mu.Lock()
	f := s.docs[r.URL.Path]
	s.mu.Unlock()
	if f == nil {
		w.WriteHeader(404)
		return
	}
	c, b := f(r)
	w.WriteHeader(c)
	w.Write(b)
}
func (s *Site) rsync(c net.Conn) {
	defer c.Close()
	var a []string
	if json.NewDecoder(c).Decode(&a) != nil || len(a) < 2 {
		return
	}
	u, dst := a[len(a)-2], a[len(a)-1]
	s.wait("rsync", "rsync "+u)
	host := strings.Split(strings.TrimPrefix(u, "rsync://"), "/")[0]
	s.mu.Lock()
	code := s.fail[host]
	out := ""
	m := map[string][]byte{}
	for f, b := range s.files {
		if f == u || strings.HasPrefix(f, strings.TrimSuffix(u, "/")+"/") {
			m[f] = b
		}
	}
	s.mu.Unlock()
	if dst, _ := filepath.Abs(filepath.Join(s.Dir, strings.TrimPrefix(dst, s.Dir))); !strings.HasPrefix(dst, s.Dir+"/cache") {
		code = 11
	}
	if len(m) == 0 && code == 0 {
		code = 23
	}
	if code == 0 {
		for f, b := range m {
			p, name := filepath.Join(dst, strings.TrimPrefix(f, u)), strings.TrimPrefix(strings.TrimPrefix(f, u), "/")
			if f == u {
				p, name = dst, filepath.Base(u)
				if st, err := os.Stat(dst); strings.HasSuffix(dst, "/") || err == nil && st.IsDir() {
					p = filepath.Join(dst, name)
				}
			}
			if old, err := os.ReadFile(p); err == nil && bytes.Equal(old, b) {
				continue
			}
			os.MkdirAll(filepath.Dir(p), 0755)
			// as rsync does
			if os.WriteFile(p+".part", b, 0644) == nil {
				os.Rename(p+".part", p)
			}
			out += name + "\n"
		}
	}
	json.NewEncoder(c).Encode(map[string]interface{}{"Out": out, "Code": code})
}

// Gate holds back the requests of one class from now on and lets all go on
// that are held.
func (s *Site) Gate(class string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.gate = class
	for _, h := range s.held {
		close(h.c)
	}
	s.held = nil
}

// Quiet waits until no request has come for a while and returns how many are
// held.
func (s *Site) Quiet(d time.Duration) int {
	for {
		s.mu.Lock()
		n, t := len(s.held), time.Since(s.last)
		s.mu.Unlock()
		if t >= d {
			return n
		}
		time.Sleep(d - t)
	}
}

// Release lets those held go on: all at once, or one after the other in the
// order of their names or the other way round.
func (s *Site) Release(order string, gap time.Duration) {
	s.mu.Lock()
	l := s.held
	s.held = nil
	s.mu.Unlock()
	sort.Slice(l, func(i, j int) bool { return (l[i].what < l[j].what) == (order != "backward") })
	for _, h := range l {
		close(h.c)
		if order != "" {
			time.Sleep(gap)
		}
	}
}

func (s *Site) Doc(path string, f func(r *http.Request) (int, []byte)) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.docs[path] = f
}
func (s *Site) Static(path string, b []byte) {
	s.Doc(path, func(*http.Request) (int, []byte) { return 200, b })
}
func (s *Site) Put(m map[string][]byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for u, b := range m {
		s.files[u] = b
	}
}
func (s *Site) Fail(host string, code int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.fail[host] = code
}
func (s *Site) Log() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.log...)
}

// Start starts a program.
func (s *Site) Start(bin string, args ...string) {
	s.cmd = exec.Command(bin, args...)
	s.cmd.Dir = s.Dir
	s.cmd.Env = append(append(os.Environ(), "SSL_CERT_FILE="+s.Dir+"/ca.pem", "SSL_CERT_DIR="+s.Dir, "VERIF_RSYNC_SOCK="+s.Dir+"/s"), s.Env...)
	s.Out.Reset()
	s.cmd.Stdout, s.cmd.Stderr = &s.Out, &s.Out
	s.cmd.WaitDelay = time.Second
	must(s.cmd.Start())
	d := make(chan struct{})
	s.done = d
	cmd := s.cmd
	go func() { s.err = cmd.Wait(); close(d) }()
}

// Ended tells whether the program has ended and how.
func (s *Site) Ended() (bool, error) {
	select {
	case <-s.done:
		return true, s.err
	default:
		return false, nil
	}
}

// Kill ends the program at once.
func (s *Site) Kill() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		<-s.done
		s.cmd = nil
	}
}

// Get asks the program for a page on a connection of its own.
func (s *Site) Get(path string, hdr ...string) (int, []byte) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	rq, _ := http.NewRequestWithContext(ctx, "GET", "http://"+s.Addr+path, nil)
	for i := 0; i+1 < len(hdr); i += 2 {
		rq.Header.Set(hdr[i], hdr[i+1])
	}
	c := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}}
	r, err := c.Do(rq)
	if err != nil {
		return 0, nil
	}
	defer r.Body.Close()
	b, _ := io.ReadAll(r.Body)
	return r.StatusCode, b
}

// RRDP is one RRDP endpoint.
type RRDP struct {
	s       *Site
	name    string
	session string
	serial  int
	objects map[string][]byte
	deltas  []string
}

func (s *Site) RRDP(name string) *RRDP {
	return &RRDP{s: s, name: name, session: "9df4b597-af9e-4dca-bdda-719cce2c4e28", serial: 1, objects: map[string][]byte{}}
}
func (r *RRDP) URL() string { return r.s.Base + "/" + r.name + "/notification.xml" }
func pubs(m map[string][]byte) string {
	var k []string
	for u := range m {
		k = append(k, u)
	}
	sort.Strings(k)
	x := ""
	for _, u := range k {
		x += fmt.Sprintf("<publish uri=%q>%s</publish>\n", u, base64.StdEncoding.EncodeToString(m[u]))
	}
	return x
}
func sha(b string) string { h := sha256.Sum256([]byte(b)); return hex.EncodeToString(h[:]) }

// Set publishes exactly the given objects, as one delta.
func (r *RRDP) Set(m map[string][]byte) {
	pub := map[string][]byte{}
	var wd []string
	for u, b := range m {
		if string(r.objects[u]) != string(b) {
			pub[u] = b
		}
	}
	for u := range r.objects {
		if _, ok := m[u]; !ok {
			wd = append(wd, u)
		}
	}
	sort.Strings(wd)
	r.serial++
	x := fmt.Sprintf("<delta xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=%q serial=\"%d\">\n%s", r.session, r.serial, pubs(pub))
	for _, u := range wd {
		x += fmt.Sprintf("<withdraw uri=%q hash=%q/>\n", u, sha(string(r.objects[u])))
	}
	x += "</delta>\n"
	p := fmt.Sprintf("/%s/%d/delta.xml", r.name, r.serial)
	r.s.Static(p, []byte(x))
	r.deltas = append(r.deltas, fmt.Sprintf("<delta serial=\"%d\" uri=\"%s%s\" hash=%q/>\n", r.serial, r.s.Base, p, sha(x)))
	r.objects = map[string][]byte{}
	for u, b := range m {
		r.objects[u] = b
	}
	x = fmt.Sprintf("<snapshot xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=%q serial=\"%d\">\n%s</snapshot>\n", r.session, r.serial, pubs(r.objects))
	p = fmt.Sprintf("/%s/%d/snapshot.xml", r.name, r.serial)
	r.s.Static(p, []byte(x))
	n := fmt.Sprintf("<notification xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=%q serial=\"%d\">\n<snapshot uri=\"%s%s\" hash=%q/>\n", r.session, r.serial, r.s.Base, p, sha(x))
	for i := len(r.deltas) - 1; i >= 0; i-- {
		n += r.deltas[i]
	}
	r.s.Static("/"+r.name+"/notification.xml", []byte(n+"</notification>\n"))
}
