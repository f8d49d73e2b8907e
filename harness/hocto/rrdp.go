package hocto

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"net/http"
	"sort"
	"strings"
)

type delta struct {
	pub map[string][]byte
	wd  []string
}

// RRDP is a correct RRDP server (RFC 8182).
type RRDP struct {
	Base    string // https://host/rrdp
	Session string
	Serial  int64
	Objects map[string][]byte
	Deltas  map[int64]delta
	Min     int64 // oldest delta still offered
	ns      int
	nl      int
	Lin     map[int64]int               // which content a serial stands for
	Hist    map[int64]map[string][]byte // its objects
}

func NewRRDP(base string) *RRDP {
	r := &RRDP{Base: base, Objects: map[string][]byte{}, Deltas: map[int64]delta{}}
	r.NewSession()
	return r
}
func (s *RRDP) NewSession() {
	s.ns++
	s.Session = fmt.Sprintf("9df4b597-af9e-4dca-bdda-719cce2c4e%02d", s.ns)
	s.Serial = 1
	s.Deltas = map[int64]delta{}
	s.Min = 2
	s.Lin, s.Hist = map[int64]int{}, map[int64]map[string][]byte{}
	s.nl++
	s.Lin[1] = s.nl
}

// Rollback restores an earlier state, as from a backup.
func (s *RRDP) Rollback(n int64) bool {
	to := s.Serial - n
	if to < 1 || s.Hist[to] == nil {
		return false
	}
	s.Serial = to
	s.Objects = map[string][]byte{}
	for u, b := range s.Hist[to] {
		s.Objects[u] = b
	}
	for k := range s.Deltas {
		if k > to {
			delete(s.Deltas, k)
		}
	}
	return true
}
func (s *RRDP) save() {
	m := map[string][]byte{}
	for u, b := range s.Objects {
		m[u] = b
	}
	s.Hist[s.Serial] = m
}
func (s *RRDP) Notify() string { return s.Base + "/notification.xml" }

// Update publishes and withdraws objects.
func (s *RRDP) Update(pub map[string][]byte, wd ...string) {
	s.save()
	s.Serial++
	s.nl++
	s.Lin[s.Serial] = s.nl
	s.Deltas[s.Serial] = delta{pub, wd}
	for u, b := range pub {
		s.Objects[u] = b
	}
	for _, u := range wd {
		delete(s.Objects, u)
	}
}

// SetObjects moves to the given content with one delta.
func (s *RRDP) SetObjects(o map[string][]byte) bool {
	pub := map[string][]byte{}
	var wd []string
	for u, b := range o {
		if string(s.Objects[u]) != string(b) {
			pub[u] = b
		}
	}
	for u := range s.Objects {
		if _, ok := o[u]; !ok {
			wd = append(wd, u)
		}
	}
	if len(pub)+len(wd) == 0 {
		return false
	}
	sort.Strings(wd)
	s.Update(pub, wd...)
	return true
}

func keys(m map[string][]byte) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
func pubXML(u string, b []byte) string {
	return fmt.Sprintf("<publish uri=%q>%s</publish>\n", u, base64.StdEncoding.EncodeToString(b))
}
func (s *RRDP) snapshot() string {
	x := fmt.Sprintf("<snapshot xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=%q serial=\"%d\">\n", s.Session, s.Serial)
	for _, u := range keys(s.Objects) {
		x += pubXML(u, s.Objects[u])
	}
	return x + "</snapshot>\n"
}
func (s *RRDP) delta(n int64) string {
	x := fmt.Sprintf("<delta xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=%q serial=\"%d\">\n", s.Session, n)
	d := s.Deltas[n]
	for _, u := range keys(d.pub) {
		x += pubXML(u, d.pub[u])
	}
	for _, u := range d.wd {
		x += fmt.Sprintf("<withdraw uri=%q hash=\"%064d\"/>\n", u, 0)
	}
	return x + "</delta>\n"
}
func sha(s string) string { h := sha256.Sum256([]byte(s)); return hex.EncodeToString(h[:]) }
func (s *RRDP) snapURL() string {
	return fmt.Sprintf("%s/%s/%d/snapshot.xml", s.Base, s.Session, s.Serial)
}
func (s *RRDP) notification() string {
	x := fmt.Sprintf("<notification xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=%q serial=\"%d\">\n<snapshot uri=%q hash=%q/>\n", s.Session, s.Serial, s.snapURL(), sha(s.snapshot()))
	for n := s.Serial; n >= s.Min; n-- {
		if _, ok := s.Deltas[n]; !ok {
			break
		}
		x += fmt.Sprintf("<delta serial=\"%d\" uri=\"%s/%s/%d/delta.xml\" hash=%q/>\n", n, s.Base, s.Session, n, sha(s.delta(n)))
	}
	return x + "</notification>\n"
}

// Get answers a request for one of the server's documents.
func (s *RRDP) Get(url string) (string, bool) {
	if !strings.HasPrefix(url, s.Base+"/") {
		return "", false
	}
	if url == s.Notify() {
		return s.notification(), true
	}
	if url == s.snapURL() {
		return s.snapshot(), true
	}
	for n := range s.Deltas {
		if url == fmt.Sprintf("%s/%s/%d/delta.xml", s.Base, s.Session, n) && n >= s.Min {
			return s.delta(n), true
		}
	}
	return "", false
}
func (s *RRDP) Serve(req *http.Request) *http.Response {
	if b, ok := s.Get(req.URL.String()); ok {
		return Resp(200, []byte(b))
	}
	return Resp(404, []byte("not found"))
}

// clone copies the server's state.
func (s *RRDP) clone() *RRDP {
	c := *s
	c.Objects = map[string][]byte{}
	for k, v := range s.Objects {
		c.Objects[k] = v
	}
	c.Deltas = map[int64]delta{}
	for k, v := range s.Deltas {
		c.Deltas[k] = v
	}
	return &c
}
