package hocto

import (
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strings"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/cloudflare/cfrpki/zzverif/world"
)

// Site is the outside world: the repositories of some trust anchors, offered
// over rsync and, where a certificate says so, RRDP.
type Site struct {
	Files map[string][]byte // rsync URI -> content
	HTTPS map[string][]byte // other https documents (trust anchor certificates)
	RRDP  map[string]*RRDP  // by host
	Reqs  []string
}

func NewSite(ws ...*world.World) *Site {
	s := &Site{Files: map[string][]byte{}, HTTPS: map[string][]byte{}, RRDP: map[string]*RRDP{}}
	for _, w := range ws {
		s.Add(w)
	}
	return s
}

func hostOf(uri string) string {
	i := strings.Index(uri, "://")
	if i < 0 {
		return ""
	}
	return strings.SplitN(uri[i+3:], "/", 2)[0]
}

// Add publishes a world.
func (s *Site) Add(w *world.World) {
	w.AddFiles(s.Files)
	for _, u := range w.TAL.URI {
		if strings.HasPrefix(u, "https://") {
			s.HTTPS[u] = w.TA.CertDER()
		}
	}
	w.Walk(func(c *world.CA) {
		if h := hostOf(c.Cert.RRDP); h != "" && s.RRDP[h] == nil && strings.HasSuffix(c.Cert.RRDP, "/rrdp/notification.xml") {
			s.RRDP[h] = NewRRDP("https://" + h + "/rrdp")
		}
	})
	s.Sync()
}

// Sync lets the RRDP servers publish what the rsync servers have.
func (s *Site) Sync() {
	for h, r := range s.RRDP {
		m := map[string][]byte{}
		for u, b := range s.Files {
			if strings.HasPrefix(u, "rsync://"+h+"/") {
				m[u] = b
			}
		}
		if r.Serial == 1 && len(r.Objects) == 0 {
			r.Objects = m
			continue
		}
		r.SetObjects(m)
	}
}

func (s *Site) Serve(rq *http.Request) (*http.Response, error) {
	u := rq.URL.String()
	if b, ok := s.HTTPS[u]; ok {
		return Resp(200, b), nil
	}
	if r := s.RRDP[hostOf(u)]; r != nil {
		return r.Serve(rq), nil
	}
	return Resp(404, []byte("not found")), nil
}

// Attach connects the program to the site.
func (s *Site) Attach(e *Env) {
	e.HTTP = s.Serve
	e.Rsync = func(uri, dest string, args []string) (string, string, int) {
		out, code := RsyncCopy(e.Dir, s.Files, uri, dest)
		return out, "", code
	}
}

// ---- what the program serves ----

type roaJSON struct {
	Prefix    string      `json:"prefix"`
	MaxLength int         `json:"maxLength"`
	ASN       interface{} `json:"asn"`
	TA        string      `json:"ta"`
}
type listJSON struct {
	Metadata struct {
		Counts        int    `json:"counts"`
		Generated     int64  `json:"generated"`
		Valid         int64  `json:"valid"`
		Signature     string `json:"signature"`
		SignatureDate string `json:"signatureDate"`
	} `json:"metadata"`
	Roas []roaJSON `json:"roas"`
}

func (r roaJSON) String() string { return fmt.Sprintf("%v,%v,%v", r.Prefix, r.MaxLength, r.ASN) }

// List fetches the ROA list.
func (e *Env) List() (int, *listJSON, error) {
	w := e.Get(e.Out())
	if w == nil {
		return 0, nil, fmt.Errorf("no server")
	}
	if w.Code != 200 {
		return w.Code, nil, nil
	}
	l := &listJSON{}
	if err := json.Unmarshal(w.Body.Bytes(), l); err != nil {
		return w.Code, nil, err
	}
	return w.Code, l, nil
}

// VRPs returns the list's entries with their trust anchors, sorted.
func (l *listJSON) VRPs() []string {
	var o []string
	for _, r := range l.Roas {
		o = append(o, r.String()+"@"+r.TA)
	}
	sort.Strings(o)
	return o
}

// WantVRPs lists the authorizations of all ROAs of a world without faults.
func WantVRPs(w *world.World, ta string) []string {
	var o []string
	w.Walk(func(c *world.CA) {
		for _, r := range c.Roas {
			for _, x := range r.Entries {
				g := x.Rng()
				p, _ := g.AsPrefix()
				ml := int64(x.Bits)
				if x.MaxLen != nil {
					ml = *x.MaxLen
				}
				o = append(o, fmt.Sprintf("%v,%v,AS%v@%v", p, ml, r.ASID, ta))
			}
		}
	})
	sort.Strings(o)
	return o
}

func same(a, b []string) bool { return strings.Join(a, "|") == strings.Join(b, "|") }

var _ = vk.Failf
