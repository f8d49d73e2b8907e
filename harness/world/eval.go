package world

import (
	"bytes"
	"fmt"
	"net/netip"
	"sort"
	"time"
)

// Verdict of the reference model for one object.
type Verdict int

const (
	Any       Verdict = iota // the property leaves it open
	MustValid                // completeness: has to be accepted
	MustNot                  // soundness: must not be accepted
)

func (v Verdict) String() string { return [...]string{"any", "must-valid", "must-not"}[v] }

type Opts struct {
	Time            time.Time
	StrictMft, Hash bool
	StrictCMS       bool
}

func DefaultOpts() Opts { return Opts{Time: T0, StrictMft: true, Hash: true} }

// Expect is the reference verdict per object URI.
type Expect struct {
	Must           map[string][]string // per ROA uri, authorizations that have to be emitted
	Cert, Roa, Mft map[string]Verdict
	Why            map[string]string
	VRPs           map[string][]string // per ROA uri, sorted, for the entries a valid ROA must emit
}

type ctx struct {
	dead  string // non-empty: MustNot, with reason
	clean bool   // completeness can be claimed
	eff   Eff
	caOK  bool
}

// Eval is the reference model.
func (w *World) Eval(o Opts) *Expect {
	x := &Expect{Cert: map[string]Verdict{}, Roa: map[string]Verdict{}, Mft: map[string]Verdict{}, Why: map[string]string{}, VRPs: map[string][]string{}, Must: map[string][]string{}}
	w.EvalInto(o, x)
	return x
}

func certBad(c *Cert, issuer *Cert, issuerKey *Key, issuerCA bool, o Opts) string {
	sk := c.SignKey
	if sk == nil {
		sk = issuerKey
	}
	if sk != issuerKey || c.CorruptSig {
		return "bad signature"
	}
	if c != issuer {
		if !issuerCA {
			return "issuer is not a CA"
		}
		if c.OmitAKI || (c.AKI != nil && !bytes.Equal(c.AKI, issuer.ski())) {
			return "wrong authority key id"
		}
	}
	if o.Time.Before(c.NB) || o.Time.After(c.NA) {
		return "not in validity period"
	}
	return ""
}

func (w *World) EvalInto(o Opts, x *Expect) {
	ta := w.TA
	c := ctx{clean: true}
	if ta.RawCert != nil {
		c.dead = "raw TA"
	}
	if w.TAL.Key != ta.Cert.Key {
		c.dead = "TA key differs from TAL"
	}
	if r := certBad(&ta.Cert, &ta.Cert, ta.Cert.Key, true, o); r != "" {
		c.dead = r
	}
	c.eff, _ = ta.Cert.Res.Resolve(nil)
	evalCA(ta, w.TAURI(), c, o, x, nil)
}

func unclean(c *Cert) bool {
	return c.TBSEdit != nil || c.RawIP != nil || c.RawAS != nil || c.ExtraSIA != nil
}

// evalCA handles a CA whose own certificate was judged in c.
func evalCA(ca *CA, uri string, c ctx, o Opts, x *Expect, _ map[int64]bool) {
	prod := ca.Products()
	list := ca.Listing(prod)
	listed := map[string]bool{}
	for _, n := range list {
		listed[n] = true
	}
	caFlag := ca.Cert.CA && !ca.Cert.OmitBC && !ca.Cert.NoCertSign
	clean := c.clean && c.dead == ""
	selfDead := c.dead
	if unclean(&ca.Cert) || ca.RawCert != nil || ca.CrlRaw != nil || ca.CrlEdit != nil || ca.MftRawBody != nil || ca.MftRawFile != nil {
		clean = false
	}
	pubURIok := ca.Cert.Mft == ca.Dir+ca.MftFile && ca.Cert.CARepo == ca.Dir
	if !pubURIok {
		clean = false
	}
	// manifest
	mftWhy := ""
	switch {
	case ca.MftMissing:
		mftWhy = "manifest missing"
	case ca.MftFault.bad():
		mftWhy = "manifest signature"
	default:
		if r := certBad(&ca.MftEE, &ca.Cert, ca.Cert.Key, caFlag, o); r != "" {
			mftWhy = "manifest EE: " + r
		} else if _, ok := ca.MftEE.Res.Resolve(&c.eff); !ok {
			mftWhy = "manifest EE over-claims"
		}
	}
	// CRL
	crlEff := false
	crlClean := true
	n := ca.CrlFile
	if listed[n] && !ca.Missing[n] && !(o.Hash && ca.BadHash[n]) && !ca.CrlCorrupt && (ca.CrlKey == nil || ca.CrlKey == ca.Cert.Key) &&
		(ca.CrlAKI == nil || bytes.Equal(ca.CrlAKI, ca.Cert.ski())) && ca.CrlRaw == nil && ca.CrlEdit == nil {
		crlEff = true
	} else {
		crlClean = false
	}
	if crlEff && (o.Time.Before(ca.CrlThis) || o.Time.After(ca.CrlNext)) {
		crlClean = false // currency of CRLs is not claimed either way
	}
	revoked := map[int64]bool{}
	if crlEff {
		for _, s := range ca.Revoked {
			revoked[s] = true
		}
	}
	mftRevoked := revoked[ca.MftEE.Serial]
	// publication point faults that take the CA down
	down := ""
	if mftWhy == "" {
		for _, n := range list {
			_, exists := prod[n]
			miss := !exists || ca.Missing[n]
			if miss && o.StrictMft {
				down = "listed file " + n + " missing"
			}
			if !miss && ca.Unreadable[n] && o.StrictMft {
				down = "listed file " + n + " unreadable"
			}
			if !miss && ca.BadHash[n] && o.Hash && o.StrictMft {
				down = "hash of " + n + " differs"
			}
		}
		if o.Time.Before(ca.MftThis) || o.Time.After(ca.MftNext) {
			if o.Hash && o.StrictMft {
				any := false
				for _, n := range list {
					if _, ok := prod[n]; ok && !ca.Missing[n] {
						any = true
					}
				}
				if any {
					down = "manifest not current"
				} else {
					clean = false
				}
			} else {
				clean = false
			}
		}
	}
	dead := selfDead
	if dead == "" && down != "" {
		dead = down
	}
	set := func(m map[string]Verdict, u string, v Verdict, why string) {
		if old, ok := m[u]; ok && old != v {
			v = Any
		}
		m[u] = v
		x.Why[u] = why
	}
	// own certificate
	switch {
	case dead != "":
		set(x.Cert, uri, MustNot, dead)
	case clean && mftWhy == "" && crlClean && !mftRevoked:
		set(x.Cert, uri, MustValid, "")
	default:
		set(x.Cert, uri, Any, "")
	}
	prodClean := clean && mftWhy == "" && crlClean && !mftRevoked && caFlag
	prodDead := dead
	if prodDead == "" && mftWhy != "" {
		prodDead = mftWhy
	}
	// manifest object
	mu := ca.Dir + ca.MftFile
	switch {
	case dead != "" || mftWhy != "":
		set(x.Mft, mu, MustNot, dead+mftWhy)
	case mftRevoked:
		set(x.Mft, mu, MustNot, "manifest EE revoked")
	case prodClean && !unclean(&ca.MftEE):
		set(x.Mft, mu, MustValid, "")
	default:
		set(x.Mft, mu, Any, "")
	}
	dup := dupSKIs(ca)
	judge := func(n string, cert *Cert) (string, bool, Eff) {
		why := prodDead
		if why == "" && !listed[n] {
			why = "not listed"
		}
		if why == "" && ca.Missing[n] {
			why = "file missing"
		}
		if why == "" && o.Hash && ca.BadHash[n] {
			why = "hash differs"
		}
		if why == "" {
			why = certBad(cert, &ca.Cert, ca.Cert.Key, caFlag, o)
		}
		e, ok := cert.Res.Resolve(&c.eff)
		if why == "" && !ok && cert.RawIP == nil && cert.RawAS == nil {
			why = "over-claims"
		}
		if why == "" && revoked[cert.Serial] {
			why = "revoked"
		}
		return why, prodClean && !unclean(cert) && !dup[string(cert.ski())], e
	}
	for _, r := range ca.Roas {
		u := ca.Dir + r.File
		why, cl, e := judge(r.File, &r.EE)
		if why == "" && r.Fault.bad() {
			why = "ROA signature"
		}
		if r.RawFile != nil || r.RawBody != nil {
			cl = false
		}
		vr, legal := r.expVRPs(e)
		if why == "" && !legal && r.RawBody == nil && r.RawFile == nil {
			why = "illegal entry"
		}
		switch {
		case why != "":
			set(x.Roa, u, MustNot, why)
		case cl:
			set(x.Roa, u, MustValid, "")
			x.VRPs[u] = vr
			x.Must[u] = r.mustVRPs(vr)
		default:
			set(x.Roa, u, Any, "")
			x.VRPs[u] = vr
		}
	}
	for _, k := range ca.Kids {
		why, cl, e := judge(k.File, &k.Cert)
		evalCA(k, ca.Dir+k.File, ctx{dead: why, clean: cl, eff: e}, o, x, nil)
	}
}

func dupSKIs(ca *CA) map[string]bool {
	root := ca
	for root.Parent != nil {
		root = root.Parent
	}
	cnt := map[string]int{}
	walkCA(root, func(c *CA) {
		cnt[string(c.Cert.ski())]++
		cnt[string(c.MftEE.ski())]++
		for _, r := range c.Roas {
			cnt[string(r.EE.ski())]++
		}
	})
	d := map[string]bool{}
	for k, n := range cnt {
		if n > 1 {
			d[k] = true
		}
	}
	return d
}

// mustVRPs drops what is only held through inheritance by the EE certificate,
// which RFC 9582 forbids in ROA certificates.
func (r *ROA) mustVRPs(may []string) []string {
	if !r.EE.Res.V4Inh && !r.EE.Res.V6Inh {
		return may
	}
	out, _ := r.expVRPs(Eff{V4: r.EE.Res.V4, V6: r.EE.Res.V6})
	return out
}

// expVRPs lists what the ROA has to emit given the EE certificate's
// effective resources; legal=false if some entry is illegal.
func (r *ROA) expVRPs(ee Eff) ([]string, bool) {
	var out []string
	legal := true
	if r.ASID.Sign() < 0 || r.ASID.BitLen() > 32 {
		legal = false
	}
	for _, e := range r.Entries {
		lim := 32
		if e.Fam == 2 {
			lim = 128
		}
		if (e.Fam != 1 && e.Fam != 2) || e.Bits > lim {
			legal = false
			continue
		}
		ml := int64(e.Bits)
		if e.MaxLen != nil && *e.MaxLen != -1 {
			ml = *e.MaxLen
		}
		if e.MaxLen != nil && (*e.MaxLen < int64(e.Bits) || *e.MaxLen > int64(lim)) {
			legal = false
		}
		rg := e.Rng()
		hold := ee.V4
		if e.Fam == 2 {
			hold = ee.V6
		}
		if !in(hold, rg) {
			continue // outside the EE certificate: must not be emitted
		}
		// The code emits only what the EE certificate lists explicitly.
		p := netip.PrefixFrom(rg.Lo, e.Bits)
		out = append(out, fmt.Sprintf("%s-%d=>AS%s", p, ml, r.ASID))
	}
	sort.Strings(out)
	return out, legal
}
