package main

import (
	"bytes"
	"encoding/asn1"
	"encoding/base64"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/ca"
	syncpki "github.com/cloudflare/cfrpki/sync/lib"
	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/zzverif/vk"
	w "github.com/cloudflare/cfrpki/zzverif/world"
)

// a08World: ta -> X (misbehaving, with kid XK) and V (healthy).
func a08World() *w.World {
	b := w.NewBuilder()
	x := b.TA("ta", "ta.example", full)
	v := b.Kid(x.TA, "V", "v.example", sub(1))
	b.ROA(v, "rv", 64500, w.E("10.8.0.0/16", 20))
	h := b.Kid(x.TA, "X", "x.example", w.Res{V4: []w.Rng{w.PR("10.64.0.0/10"), w.RR("172.16.0.0", "172.16.255.250")}, V6: []w.Rng{w.PR("2001:db8:4000::/34")}, AS: []w.ARng{{Lo: 1, Hi: 1}, {Lo: 500, Hi: 600}}})
	b.ROA(h, "rx", 64501, w.E("10.64.0.0/16", -1), w.E("10.65.0.0/16", 24), w.E("2001:db8:4000::/40", 48))
	k := b.Kid(h, "XK", "x.example", w.Res{V4: []w.Rng{w.PR("10.64.0.0/12"), w.RR("172.16.0.0", "172.16.255.250")}, V6Inh: true, AS: []w.ARng{{Lo: 500, Hi: 501}}})
	k.Cert.CRLDP = h.Dir + h.CrlFile
	k.Cert.RRDP = "https://x.example/n.xml"
	b.ROA(k, "rk", 64501, w.E("10.64.0.0/16", -1))
	h.Revoked = []int64{77, 78}
	return x
}

type a08Kind int

// useDecoders feeds the bytes to the decoder of the kind and uses the result.
func useDecoders(kind string, b []byte) string {
	out := ""
	res := func(name string, err error) {
		if err == nil {
			out += name + " ok;"
		} else {
			out += name + " err;"
		}
	}
	useCert := func(c *librpki.RPKICertificate) {
		if c == nil {
			return
		}
		_ = c.String()
		c.HasRRDP()
		c.GetRRDPGeneralName()
		c.GetRsyncGeneralName()
		c.Validate(c)
		c.ValidateTime(w.T0)
		c.ValidateIPCertificate(c)
		c.ValidateASNCertificate(c)
		pki.ExtractPathCert(c)
	}
	if kind == "tal" || kind == "any" {
		t, err := librpki.DecodeTAL(b)
		res("tal", err)
		if err == nil {
			t.GetRsyncURI()
			t.HasRsync()
			t.GetURI()
			librpki.EncodeTAL(t)
			x := a08Cert()
			t.CheckCertificate(x.Certificate)
		}
	}
	if kind == "cer" || kind == "any" {
		c, err := librpki.DecodeCertificate(b)
		res("cer", err)
		if err == nil {
			useCert(c)
		}
	}
	if kind == "roa" || kind == "any" {
		for _, strict := range []bool{true, false} {
			d := &librpki.DecoderConfig{ValidateStrict: strict}
			o, err := d.DecodeROA(b)
			res("roa", err)
			if err == nil {
				useCert(o.Certificate)
				o.ValidateEntries()
				o.ValidateTime(w.T0)
			}
		}
	}
	if kind == "mft" || kind == "any" {
		for _, strict := range []bool{true, false} {
			d := &librpki.DecoderConfig{ValidateStrict: strict}
			o, err := d.DecodeManifest(b)
			res("mft", err)
			if err == nil {
				useCert(o.Certificate)
				pki.ExtractPathManifest(o)
			}
		}
	}
	if kind == "xmlcms" || kind == "any" {
		o, err := librpki.DecodeXML(b)
		res("xmlcms", err)
		if err == nil && o != nil {
			useCert(o.Certificate)
			ca.DecodeXMLFull(o.Content)
		}
	}
	if kind == "ext" || kind == "any" {
		_, err := librpki.DecodeIPAddressBlock(b)
		res("ip", err)
		_, _, err = librpki.DecodeASN(b)
		res("as", err)
		_, err = librpki.DecodeSubjectInformationAccess(b)
		res("sia", err)
		_, err = librpki.DecodeKeyAuthority(b)
		res("aki", err)
		_, err = librpki.DecodeKeyIdentifier(b)
		res("ski", err)
	}
	if kind == "ber" || kind == "any" {
		_, err := librpki.BER2DER(b)
		res("ber", err)
		_, _, err = librpki.BadFormatGroup(b)
		res("group", err)
	}
	if kind == "caxml" || kind == "any" {
		_, _, err := ca.DecodeXMLFull(b)
		res("xml", err)
		_, _, err = ca.DecodeXMLCRFull(b)
		res("xmlcr", err)
		_, _, err = ca.DecodeXMLPRFull(b)
		res("xmlpr", err)
		_, err = ca.DecodeInner(b)
		res("inner", err)
	}
	if kind == "rrdp" || kind == "any" {
		_, err := syncpki.ParseRoot(string(b))
		res("root", err)
		_, _, err = syncpki.ParseNode(string(b))
		res("node", err)
	}
	if kind == "rsync" || kind == "any" {
		syncpki.FilterMatch(string(b))
		_, err := syncpki.ExtractFoldersPathFromRsyncURL(string(b))
		res("folders", err)
		_, err = syncpki.ExtractFilePathFromRsyncURL(string(b))
		res("file", err)
		_, _, err = syncpki.ExtractRsyncDomainModule(string(b))
		res("module", err)
		m := map[string]syncpki.SubMap{}
		syncpki.AddInMap(string(b), m)
		syncpki.ReduceMap(m)
	}
	// the validator's own entry point
	types := map[string][]int{"tal": {pki.TYPE_TAL}, "cer": {pki.TYPE_CER}, "roa": {pki.TYPE_ROA}, "mft": {pki.TYPE_MFT}, "crl": {pki.TYPE_CRL},
		"any": {pki.TYPE_TAL, pki.TYPE_CER, pki.TYPE_ROA, pki.TYPE_MFT, pki.TYPE_CRL, pki.TYPE_UNKNOWN}}
	for _, t := range types[kind] {
		for _, trust := range []bool{false, true} {
			v := pki.NewValidator()
			v.Time = w.T0
			par := &pki.PKIFile{Type: pki.TYPE_MFT, Path: "rsync://h/m/x.mft", Parent: &pki.PKIFile{Type: pki.TYPE_CER, Path: "rsync://h/m/x.cer"}}
			_, _, _, err := v.AddResource(&pki.PKIFile{Type: t, Path: "rsync://h/m/o", Trust: trust, Parent: par}, b)
			res("add", err)
			if t != pki.TYPE_CER {
				break
			}
		}
	}
	return out
}

var a08certCache *librpki.RPKICertificate

func a08Cert() *librpki.RPKICertificate { return a08certCache }

// berIndef re-encodes with indefinite lengths.
func berIndef(n *w.Node) []byte {
	if n.Constr {
		out := []byte{n.Tag[0], 0x80}
		for _, k := range n.Kids {
			out = append(out, berIndef(k)...)
		}
		return append(out, 0, 0)
	}
	return n.Bytes()
}

// a08Objects gives one valid object of each kind.
func a08Objects() map[string][]byte {
	x := a08World()
	f := x.Files()
	h, k := x.Find("X"), x.Find("XK")
	o := map[string][]byte{
		"tal/tal":     x.TALBytes(),
		"cer/xk":      k.CertDER(),
		"cer/ta":      x.TA.CertDER(),
		"crl/x":       h.CRL(),
		"roa/rx":      f[h.Dir+"rx.roa"],
		"mft/x":       f[h.Dir+h.MftFile],
		"xmlcms/msg":  w.CMS([]int{1, 2, 840, 113549, 1, 9, 16, 1, 28}, []byte(`<msg xmlns="http://www.hactrn.net/uris/rpki/publication-spec/" version="4" type="query"><list tag="a" hash="b" uri="rsync://h/m/f"/></msg>`), &h.Roas[0].EE, &h.Cert, w.CMSFault{}),
		"ext/ip":      w.Seq(w.Seq(w.Oct([]byte{0, 1}), w.Seq(w.Bits([]byte{10}, 8), w.Seq(w.Bits([]byte{172, 16}, 12), w.Bits([]byte{172, 32}, 13)))), w.Seq(w.Oct([]byte{0, 2}), w.Null())),
		"ext/as":      w.Seq(w.Ctx(0, true, w.Seq(w.Int(5), w.Seq(w.Int(7), w.Int(9)))), w.Ctx(1, true, w.Null())),
		"ext/sia":     w.Seq(w.Seq(w.OID(1, 3, 6, 1, 5, 5, 7, 48, 5), w.Ctx(6, false, []byte("rsync://h/m/")))),
		"ext/aki":     w.Seq(w.Ctx(0, false, []byte{1, 2, 3, 4})),
		"rsync/del":   []byte("deleting a/b/c.roa"),
		"rsync/uri":   []byte("rsync://host/module/a/b.cer"),
		"caxml/msg":   []byte(`<msg xmlns="http://www.hactrn.net/uris/rpki/publication-spec/" version="4" type="query"><publish tag="a" hash="b" uri="rsync://h/m/f">AAAA</publish></msg>`),
		"caxml/child": []byte(`<child_request xmlns="http://www.hactrn.net/uris/rpki/rpki-setup/" version="1" child_handle="c" tag="t"><child_bpki_ta>AA==</child_bpki_ta></child_request>`),
		"caxml/par":   []byte(`<parent_response xmlns="http://www.hactrn.net/uris/rpki/rpki-setup/" version="1" service_uri="http://h" tag="t"><parent_bpki_ta>AA==</parent_bpki_ta></parent_response>`),
		"rrdp/notif":  []byte(`<notification xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="s" serial="3"><snapshot uri="https://h/s.xml" hash="ab"/><delta serial="3" uri="https://h/3.xml" hash="cd"/></notification>`),
		"rrdp/snap":   []byte(`<snapshot xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="s" serial="3"><publish uri="rsync://h/m/a.cer">QUJD</publish></snapshot>`),
		"rrdp/delta":  []byte(`<delta xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="s" serial="3"><publish uri="rsync://h/m/a.cer" hash="ab">QUJD</publish><withdraw uri="rsync://h/m/b.cer" hash="00"/></delta>`),
	}
	for _, n := range []string{"roa/rx", "mft/x"} {
		t, _, err := w.ParseTLV(o[n])
		if err != nil {
			panic(err)
		}
		o[n+"-indef"] = berIndef(t)
		o["ber/"+n[:3]] = berIndef(t)
	}
	return o
}

// nodeEdits are the structural edits of one node.
type nodeEdit struct {
	name  string
	apply func(n, p *w.Node, i int)
}

func nodeEdits() []nodeEdit {
	var out []nodeEdit
	add := func(name string, f func(n, p *w.Node, i int)) { out = append(out, nodeEdit{name, f}) }
	insert := func(p *w.Node, i int, k *w.Node) {
		p.Kids = append(p.Kids[:i:i], append([]*w.Node{k}, p.Kids[i:]...)...)
	}
	add("delete", func(n, p *w.Node, i int) {
		if p != nil {
			p.Kids = append(p.Kids[:i:i], p.Kids[i+1:]...)
		}
	})
	add("dup", func(n, p *w.Node, i int) {
		if p != nil {
			insert(p, i, n.Clone())
		}
	})
	add("dup100", func(n, p *w.Node, i int) {
		for k := 0; p != nil && k < 100; k++ {
			insert(p, i, n.Clone())
		}
	})
	add("swap", func(n, p *w.Node, i int) {
		if p != nil && i+1 < len(p.Kids) {
			p.Kids[i], p.Kids[i+1] = p.Kids[i+1], p.Kids[i]
		}
	})
	add("wrap", func(n, p *w.Node, i int) {
		if p != nil {
			p.Kids[i] = &w.Node{Tag: []byte{0x30}, Constr: true, Kids: []*w.Node{n}}
		}
	})
	add("unwrap", func(n, p *w.Node, i int) {
		if p != nil && len(n.Kids) > 0 {
			k := append([]*w.Node{}, p.Kids[:i]...)
			k = append(k, n.Kids...)
			p.Kids = append(k, p.Kids[i+1:]...)
		}
	})
	raw := func(name string, c []byte) {
		add(name, func(n, p *w.Node, i int) { n.Constr, n.Wrapped, n.Kids, n.Prim, n.Pre = false, false, nil, c, nil })
	}
	raw("empty", nil)
	raw("00", []byte{0})
	raw("ff", []byte{0xff})
	raw("80", []byte{0x80})
	raw("0000", []byte{0, 0})
	raw("ffff", []byte{0xff, 0xff})
	raw("zeros9", make([]byte, 9))
	raw("int64+", []byte{0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})
	raw("int32+", []byte{1, 0, 0, 0, 0})
	raw("ones17", bytes.Repeat([]byte{0xff}, 17))
	raw("bits7", []byte{7, 0x80})
	raw("bits8", []byte{8, 0x80})
	raw("bits0/136", append([]byte{0}, make([]byte, 17)...))
	raw("zeros300", make([]byte, 300))
	raw("indef", []byte{0x30, 0x80, 0x30, 0x80, 0, 0})
	raw("seq", []byte{0x30, 0})
	raw("null", []byte{5, 0})
	raw("overrun", []byte{0x30, 0x84, 0xff, 0xff, 0xff, 0xff})
	add("cut", func(n, p *w.Node, i int) {
		if len(n.Kids) > 0 {
			n.Kids = n.Kids[:len(n.Kids)-1]
		} else if len(n.Prim) > 0 {
			n.Prim = n.Prim[:len(n.Prim)-1]
		}
	})
	add("grow", func(n, p *w.Node, i int) {
		if !n.Constr && !n.Wrapped {
			n.Prim = append(append([]byte{}, n.Prim...), 1)
		} else {
			n.Kids = append(n.Kids, &w.Node{Tag: []byte{2}, Prim: []byte{1}})
		}
	})
	for _, t := range []byte{0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0a, 0x0c, 0x13, 0x16, 0x17, 0x18, 0x1e, 0x24, 0x30, 0x31, 0x80, 0x81, 0x86, 0xa0, 0xa1, 0xa3, 0x7f} {
		t := t
		add(fmt.Sprintf("tag%02x", t), func(n, p *w.Node, i int) { n.Tag = []byte{t} })
	}
	return out
}

// editAt applies edit e to the k-th node; false when there is none.
func editAt(root *w.Node, k int, e nodeEdit) bool {
	done := false
	c := 0
	type at struct {
		n, p *w.Node
		i    int
	}
	var hit at
	root.Walk(func(n, p *w.Node, i int) {
		if c == k {
			hit, done = at{n, p, i}, true
		}
		c++
	})
	if done {
		e.apply(hit.n, hit.p, hit.i)
	}
	return done
}

func init() {
	checks["A08"] = func(r *vk.Run) {
		r.Rule = "every truncation and every single-byte replacement of each object kind, every structural edit of every TLV node (plain, and re-signed and published by a CA of a tree with a healthy sibling), all short byte strings, nesting chains; no panic, no abort, always an end, and the healthy sibling stays valid"
		r.HangLimit(3 * time.Minute)
		c, err := librpki.DecodeCertificate(a08World().TA.CertDER())
		if err != nil {
			r.Violate("base", vk.Failf("decode", "%v", err))
			return
		}
		a08certCache = c
		objs := a08Objects()
		var names []string
		for n := range objs {
			names = append(names, n)
		}
		sort.Strings(names)
		type job struct {
			id string
			f  func() *vk.Fail
		}
		var jobs []job
		dec := func(id, kind string, mk func() []byte) {
			jobs = append(jobs, job{id, func() *vk.Fail { r.Outcome(kind + useDecoders(kind, mk())); r.Traces(1); return nil }})
		}
		for _, n := range names {
			n := n
			kind := strings.Split(n, "/")[0]
			b := objs[n]
			dec(n, kind, func() []byte { return b })
			for i := 0; i <= len(b); i++ {
				i := i
				dec(fmt.Sprintf("%s cut %d", n, i), kind, func() []byte { return b[:i] })
				dec(fmt.Sprintf("%s from %d", n, i), kind, func() []byte { return b[i:] })
			}
			for i := range b {
				vals := []byte{0, 1, 0x7f, 0x80, 0x81, 0x82, 0x84, 0xff, b[i] ^ 1, b[i] ^ 0x20, b[i] ^ 0x80, b[i] + 1, b[i] - 1}
				if kind == "tal" || kind == "rrdp" || kind == "caxml" || kind == "rsync" {
					vals = append(vals, '\n', '\r', ' ', '<', '>', '&', '"', '/', '=', '#', '.', ':')
				}
				if r.Thorough() || len(b) < 200 {
					vals = nil
					for k := 0; k < 256; k++ {
						vals = append(vals, byte(k))
					}
				}
				for _, v := range vals {
					i, v := i, v
					dec(fmt.Sprintf("%s [%d]=%02x", n, i, v), kind, func() []byte {
						c := append([]byte(nil), b...)
						c[i] = v
						return c
					})
				}
			}
			if t, rest, err := w.ParseTLV(b); err == nil && len(rest) == 0 {
				cnt := 0
				t.Walk(func(_, _ *w.Node, _ int) { cnt++ })
				for k := 0; k < cnt; k++ {
					for _, e := range nodeEdits() {
						k, e := k, e
						dec(fmt.Sprintf("%s node %d %s", n, k, e.name), kind, func() []byte {
							c := t.Clone()
							editAt(c, k, e)
							return c.Bytes()
						})
					}
				}
			}
		}
		// short strings
		for l := 0; l <= 2; l++ {
			for v := 0; v < 1<<(8*uint(l)); v++ {
				s := []byte{byte(v >> 8), byte(v)}[2-l:]
				dec(fmt.Sprintf("short %x", s), "any", func() []byte { return s })
			}
		}
		alpha := []byte{0, 1, 2, 4, 5, 6, 0x24, 0x30, 0x31, 0x80, 0x81, 0x82, 0x84, 0xa0, 0xff, '\n', '/', '<', 'A'}
		L := 3
		if r.Thorough() {
			L = 4
		}
		for l := 3; l <= L; l++ {
			idx := make([]int, l)
			for {
				s := make([]byte, l)
				for i, x := range idx {
					s[i] = alpha[x]
				}
				dec(fmt.Sprintf("short %x", s), "any", func() []byte { return s })
				i := l - 1
				for ; i >= 0; i-- {
					idx[i]++
					if idx[i] < len(alpha) {
						break
					}
					idx[i] = 0
				}
				if i < 0 {
					break
				}
			}
		}
		// published and re-signed structural edits
		vic := ""
		{
			x := a08World()
			vic = x.Find("V").Dir + "rv.roa"
		}
		pub := func(id string, strict bool, mk func() *w.World) {
			jobs = append(jobs, job{fmt.Sprintf("%s strict=%v", id, strict), func() *vk.Fail {
				x := mk()
				o := w.DefaultOpts()
				o.StrictCMS = strict
				res := w.RunFiles(x.Files(), x.TALBytes(), o)
				r.Trans(res.Steps)
				r.Traces(1)
				r.Outcome(res.Summary())
				if !strings.HasPrefix(id, "ta") && !res.Roa[vic] {
					return vk.Failf("sibling-lost", "healthy sibling's ROA is gone: %s", res.Summary())
				}
				return nil
			}})
		}
		type site struct {
			name string
			set  func(x *w.World, ed func(*w.Node))
		}
		rebody := func(body []byte, ed func(*w.Node)) []byte {
			n, _, err := w.ParseTLV(body)
			if err != nil {
				panic(err)
			}
			ed(n)
			return n.Bytes()
		}
		sites := []site{
			{"kid-cert", func(x *w.World, ed func(*w.Node)) { x.Find("XK").Cert.TBSEdit = ed }},
			{"roa-ee", func(x *w.World, ed func(*w.Node)) { x.Find("X").Roas[0].EE.TBSEdit = ed }},
			{"roa-body", func(x *w.World, ed func(*w.Node)) {
				ro := x.Find("X").Roas[0]
				ro.RawBody = rebody(ro.Body(), ed)
			}},
			{"roa-cms", func(x *w.World, ed func(*w.Node)) { x.Find("X").Roas[0].Fault.Edit = ed }},
			{"mft-ee", func(x *w.World, ed func(*w.Node)) { x.Find("X").MftEE.TBSEdit = ed }},
			{"mft-body", func(x *w.World, ed func(*w.Node)) {
				h := x.Find("X")
				h.MftRawBody = rebody(h.MftBody(h.Products()), ed)
			}},
			{"mft-cms", func(x *w.World, ed func(*w.Node)) { x.Find("X").MftFault.Edit = ed }},
			{"crl", func(x *w.World, ed func(*w.Node)) { x.Find("X").CrlEdit = ed }},
			{"ta-cert", func(x *w.World, ed func(*w.Node)) { x.TA.Cert.TBSEdit = ed }},
		}
		for _, st := range sites {
			st := st
			cnt := 0
			{
				x := a08World()
				st.set(x, func(n *w.Node) { n.Walk(func(_, _ *w.Node, _ int) { cnt++ }) })
				x.Files()
			}
			base := cnt
			// Files() may render the site more than once
			for k := 0; k < base; k++ {
				hit := false
				x := a08World()
				st.set(x, func(n *w.Node) { hit = editAt(n, k, nodeEdit{"", func(n, p *w.Node, i int) {}}) })
				x.Files()
				if !hit {
					break
				}
				for _, e := range nodeEdits() {
					for _, strict := range []bool{false, true} {
						if strict && !strings.Contains(st.name, "cms") && !r.Thorough() {
							continue
						}
						k, e := k, e
						pub(fmt.Sprintf("%s node %d %s", st.name, k, e.name), strict, func() *w.World {
							x := a08World()
							st.set(x, func(n *w.Node) { editAt(n, k, e) })
							return x
						})
					}
				}
			}
		}
		// whole-file replacements
		for _, n := range names {
			b := objs[n]
			for _, f := range []string{"XK.cer", "X.crl", "rx.roa", "zz.mft", "zz.cer", "zz.gbr"} {
				f := f
				pub("file "+f+" is "+n, false, func() *w.World {
					x := a08World()
					h := x.Find("X")
					switch f {
					case "XK.cer":
						x.Find("XK").RawCert = b
					case "X.crl":
						h.CrlRaw = b
					case "rx.roa":
						h.Roas[0].RawFile = b
					default:
						h.Extra[f] = b
					}
					return x
				})
			}
			pub("mft is "+n, false, func() *w.World { x := a08World(); x.Find("X").MftRawFile = b; return x })
			pub("ta is "+n, false, func() *w.World { x := a08World(); x.TA.RawCert = b; return x })
		}
		r.Note("cases", len(jobs))
		r.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			if r.Skip(j.id) {
				return
			}
			if i%49999 == 0 {
				r.Sample(j.id)
			}
			r.State(j.id)
			r.Check(j.id, j.f)
		})
		// nesting chains, one after another; the last case is on stderr should
		// the process die
		chain := func(tag byte, depth int, indef bool) []byte {
			if indef {
				return append(bytes.Repeat([]byte{tag, 0x80}, depth), make([]byte, 2*depth)...)
			}
			var rev []byte
			l := 0
			for i := 0; i < depth; i++ {
				h := []byte{}
				switch {
				case l < 128:
					h = []byte{byte(l), tag}
				case l < 256:
					h = []byte{byte(l), 0x81, tag}
				case l < 65536:
					h = []byte{byte(l), byte(l >> 8), 0x82, tag}
				case l < 1<<24:
					h = []byte{byte(l), byte(l >> 8), byte(l >> 16), 0x83, tag}
				default:
					h = []byte{byte(l), byte(l >> 8), byte(l >> 16), byte(l >> 24), 0x84, tag}
				}
				rev = append(rev, h...)
				l += len(h)
			}
			for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
				rev[i], rev[j] = rev[j], rev[i]
			}
			return rev
		}
		depths := []int{1, 2, 10, 100, 999, 1000, 1001, 10000, 100000}
		if r.Thorough() {
			depths = append(depths, 1000000)
		}
		for _, d := range depths {
			for _, tag := range []byte{0x30, 0x31, 0x24, 0xa0, 0x3f} {
				for _, ind := range []bool{false, true} {
					b := chain(tag, d, ind)
					id := fmt.Sprintf("chain tag=%02x depth=%d indefinite=%v", tag, d, ind)
					if r.Skip(id) {
						continue
					}
					fmt.Fprintln(os.Stderr, id)
					r.State(id)
					r.Check(id, func() *vk.Fail { r.Outcome(useDecoders("any", b)); return nil })
					// inside a signed object, and unterminated
					in := w.Seq(w.OID(1, 2, 840, 113549, 1, 7, 2), w.Ctx(0, true, b))
					r.Check(id+" in CMS", func() *vk.Fail { r.Outcome(useDecoders("roa", in)); return nil })
					r.Check(id+" cut", func() *vk.Fail { r.Outcome(useDecoders("ber", b[:len(b)/2])); return nil })
				}
			}
			for _, el := range []string{"notification", "snapshot", "delta", "a"} {
				b := []byte(strings.Repeat("<"+el+">", d) + strings.Repeat("</"+el+">", d))
				id := fmt.Sprintf("xml chain %s depth=%d", el, d)
				if r.Skip(id) {
					continue
				}
				fmt.Fprintln(os.Stderr, id)
				r.State(id)
				if d <= 10000 || r.Thorough() {
					r.Check(id, func() *vk.Fail { r.Outcome(useDecoders("rrdp", b) + useDecoders("caxml", b)); return nil })
				}
			}
		}
	}
}

var _ = asn1.NullBytes
var _ = base64.StdEncoding

func init() {
	helpers["a08base"] = func([]string) {
		x := a08World()
		res := w.RunFiles(x.Files(), x.TALBytes(), w.DefaultOpts())
		fmt.Println(res.Summary())
		e := x.Eval(w.DefaultOpts())
		fmt.Println(e.Why)
	}
}
