package world

import (
	"crypto/sha256"
	"encoding/base64"
	"errors"
	"fmt"
	"net"
	"net/netip"
	"sort"
	"strings"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
)

// TALBytes renders a trust anchor locator file (own encoder).
func (w *World) TALBytes() []byte {
	b := base64.StdEncoding.EncodeToString(w.TAL.Key.SPKI)
	var l []string
	for len(b) > 64 {
		l = append(l, b[:64])
		b = b[64:]
	}
	l = append(l, b)
	return []byte(strings.Join(w.TAL.URI, "\n") + "\n\n" + strings.Join(l, "\n") + "\n")
}

// Seeker serves a world from memory the way the on-disk fetcher does: BER to
// DER conversion, hash of the original bytes, absent files are (nil, nil).
type Seeker struct {
	Files    map[string][]byte
	TALs     map[string][]byte
	Requests map[string]int
	Steps    int
	MaxSteps int
	MissErr  bool
	NoConv   bool
	OnGet    func(path string)
}

var ErrLoop = errors.New("too many steps")

func (s *Seeker) GetFile(f *pki.PKIFile) (*pki.SeekFile, error) {
	s.Steps++
	if s.MaxSteps > 0 && s.Steps > s.MaxSteps {
		panic(ErrLoop)
	}
	p := f.ComputePath()
	s.Requests[p]++
	if s.OnGet != nil {
		s.OnGet(p)
	}
	if f.Type == pki.TYPE_TAL {
		b, ok := s.TALs[p]
		if !ok {
			return nil, nil
		}
		return &pki.SeekFile{File: p, Data: b}, nil
	}
	b, ok := s.Files[p]
	if !ok {
		if s.MissErr {
			return nil, errors.New("no such file " + p)
		}
		return nil, nil
	}
	h := sha256.Sum256(b)
	d := b
	if !s.NoConv {
		var err error
		d, err = librpki.BER2DER(b)
		if err != nil {
			return nil, err
		}
	}
	return &pki.SeekFile{File: p, Data: d, Sha256: h[:]}, nil
}
func (s *Seeker) GetRepository(f *pki.PKIFile, cb pki.CallbackExplore) error {
	return errors.New("not used")
}

type quiet struct{}

func (quiet) Debugf(string, ...interface{}) {}
func (quiet) Printf(string, ...interface{}) {}
func (quiet) Errorf(string, ...interface{}) {}
func (quiet) Warnf(string, ...interface{})  {}

// Result is what the real validator ended with.
type Result struct {
	Cert, Roa, Mft map[string]bool
	VRPs           map[string][]string
	Requests       map[string]int
	Steps, Count   int
	DupRoa         []string
	Manager        *pki.SimpleManager
}

func pathOf(r *pki.Resource) string {
	if r == nil || r.File == nil {
		return "?"
	}
	return r.File.ComputePath()
}

// RunFiles validates the files with the real code.
func RunFiles(files map[string][]byte, tal []byte, o Opts) *Result {
	s := &Seeker{Files: files, TALs: map[string][]byte{"/tal": tal}, Requests: map[string]int{}, MaxSteps: 20000}
	return RunSeeker(s, o)
}
func RunSeeker(s *Seeker, o Opts) *Result {
	v := pki.NewValidator()
	v.Time = o.Time
	v.DecoderConfig = &librpki.DecoderConfig{ValidateStrict: o.StrictCMS}
	sm := pki.NewSimpleManager()
	sm.Validator = v
	sm.FileSeeker = s
	sm.StrictHash = o.Hash
	sm.StrictManifests = o.StrictMft
	sm.ReportErrors = true
	sm.Log = quiet{}
	done := make(chan struct{})
	go func() {
		for range sm.Errors {
		}
		close(done)
	}()
	defer func() { sm.Close(); <-done }()
	var tals []string
	for t := range s.TALs {
		tals = append(tals, t)
	}
	sort.Strings(tals)
	for _, t := range tals {
		sm.AddInitial([]*pki.PKIFile{{Path: t, Type: pki.TYPE_TAL}})
	}
	n := sm.Explore(false, false)
	r := Collect(sm)
	r.Requests = s.Requests
	r.Steps = s.Steps
	r.Count = n
	return r
}

// Collect reads the valid sets out of a manager.
func Collect(sm *pki.SimpleManager) *Result {
	r := &Result{Cert: map[string]bool{}, Roa: map[string]bool{}, Mft: map[string]bool{}, VRPs: map[string][]string{}, Manager: sm}
	for _, x := range sm.Validator.ValidObjects {
		if x.Type == pki.TYPE_CER {
			r.Cert[pathOf(x)] = true
		}
	}
	for _, x := range sm.Validator.ValidROA {
		p := pathOf(x)
		if r.Roa[p] {
			r.DupRoa = append(r.DupRoa, p)
		}
		r.Roa[p] = true
		roa, ok := x.Resource.(*librpki.RPKIROA)
		if !ok {
			continue
		}
		l := []string{}
		for _, e := range roa.Valids {
			l = append(l, fmt.Sprintf("%s-%d=>AS%d", netString(e.IPNet), e.MaxLength, roa.ASN))
		}
		sort.Strings(l)
		r.VRPs[p] = l
	}
	for _, x := range sm.Validator.ValidManifest {
		r.Mft[pathOf(x)] = true
	}
	return r
}

// BySKI describes a result independently of file locations: certificates,
// manifests and ROAs by key identifier, with their authorizations.
func (r *Result) BySKI() map[string]bool {
	out := map[string]bool{}
	for _, x := range r.Manager.Validator.ValidObjects {
		if _, id := x.GetIdentifier(); x.Type == pki.TYPE_CER {
			out[fmt.Sprintf("C %x", id)] = true
		}
	}
	for _, x := range r.Manager.Validator.ValidManifest {
		_, id := x.GetIdentifier()
		out[fmt.Sprintf("M %x", id)] = true
	}
	for _, x := range r.Manager.Validator.ValidROA {
		_, id := x.GetIdentifier()
		out[fmt.Sprintf("R %x", id)] = true
		if roa, ok := x.Resource.(*librpki.RPKIROA); ok {
			for _, e := range roa.Valids {
				out[fmt.Sprintf("V %x %s-%d=>AS%d", id, netString(e.IPNet), e.MaxLength, roa.ASN)] = true
			}
		}
	}
	return out
}

// Diff compares with the reference; soundness and completeness
// separately. It returns (class, description) of the first difference.
func Diff(x *Expect, r *Result, sound, complete bool) (string, string) {
	type km struct {
		kind string
		exp  map[string]Verdict
		got  map[string]bool
	}
	for _, k := range []km{{"certificate", x.Cert, r.Cert}, {"roa", x.Roa, r.Roa}, {"manifest", x.Mft, r.Mft}} {
		var us []string
		for u := range k.exp {
			us = append(us, u)
		}
		sort.Strings(us)
		for _, u := range us {
			v := k.exp[u]
			if sound && v == MustNot && k.got[u] {
				return "accepted-" + k.kind + ":" + strings.ReplaceAll(whyClass(x.Why[u]), " ", "-"), fmt.Sprintf("%s %s is reported valid although: %s", k.kind, u, x.Why[u])
			}
			if complete && v == MustValid && !k.got[u] {
				return "rejected-" + k.kind, fmt.Sprintf("%s %s is not reported valid although nothing is wrong with it or above it", k.kind, u)
			}
		}
		if sound {
			for u := range k.got {
				if _, ok := k.exp[u]; !ok {
					return "unknown-" + k.kind, fmt.Sprintf("%s %s is reported valid but is not part of the world", k.kind, u)
				}
			}
		}
	}
	var us []string
	for u := range x.VRPs {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		if !r.Roa[u] {
			continue
		}
		e, g := map[string]int{}, map[string]int{}
		for _, s := range x.VRPs[u] {
			e[s]++
		}
		for _, s := range r.VRPs[u] {
			g[s]++
		}
		if sound {
			for s := range g {
				if g[s] > e[s] {
					return "extra-vrp", fmt.Sprintf("ROA %s emits %s (x%d); expected %v", u, s, g[s], x.VRPs[u])
				}
			}
		}
		if complete && x.Roa[u] == MustValid {
			m := map[string]int{}
			for _, s := range x.Must[u] {
				m[s]++
			}
			for s := range m {
				if g[s] < m[s] {
					return "missing-vrp", fmt.Sprintf("ROA %s does not emit %s; got %v", u, s, r.VRPs[u])
				}
			}
		}
	}
	return "", ""
}
func whyClass(s string) string {
	for _, p := range []string{"listed file", "hash of"} {
		if strings.HasPrefix(s, p) {
			return p
		}
	}
	return s
}

// Summary is a canonical text of a result (used as outcome fingerprint).
func (r *Result) Summary() string {
	var l []string
	for u := range r.Cert {
		l = append(l, "C "+u)
	}
	for u := range r.Mft {
		l = append(l, "M "+u)
	}
	for u := range r.Roa {
		l = append(l, "R "+u+" "+strings.Join(r.VRPs[u], ","))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// DiffSound reports an accepted object whose reason for rejection is in scope.
func DiffSound(x *Expect, r *Result, scope func(why string) bool) (string, string) {
	y := &Expect{Cert: map[string]Verdict{}, Roa: map[string]Verdict{}, Mft: map[string]Verdict{}, Why: x.Why, VRPs: map[string][]string{}}
	for _, k := range []struct{ a, b map[string]Verdict }{{x.Cert, y.Cert}, {x.Roa, y.Roa}, {x.Mft, y.Mft}} {
		for u, v := range k.a {
			if v == MustNot && !scope(x.Why[u]) {
				v = Any
			}
			k.b[u] = v
		}
	}
	if scope("extra") {
		y.VRPs = x.VRPs
	}
	if !scope("unknown") {
		for u := range r.Cert {
			if _, ok := y.Cert[u]; !ok {
				y.Cert[u] = Any
			}
		}
		for u := range r.Roa {
			if _, ok := y.Roa[u]; !ok {
				y.Roa[u] = Any
			}
		}
		for u := range r.Mft {
			if _, ok := y.Mft[u]; !ok {
				y.Mft[u] = Any
			}
		}
	}
	return Diff(y, r, true, false)
}

// netString writes a prefix of the family its mask belongs to.
func netString(n *net.IPNet) string {
	ones, bits := n.Mask.Size()
	var a netip.Addr
	if ip := n.IP.To4(); bits == 32 && ip != nil {
		a, _ = netip.AddrFromSlice(ip)
	} else if ip := n.IP.To16(); bits == 128 && ip != nil {
		a, _ = netip.AddrFromSlice(ip)
	} else {
		return n.String()
	}
	return netip.PrefixFrom(a, ones).String()
}
