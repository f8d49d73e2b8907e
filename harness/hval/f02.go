package main

import (
	"encoding/asn1"
	"encoding/xml"
	"fmt"
	"strings"

	"github.com/cloudflare/cfrpki/ca"
	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/zzverif/vk"
)

// elem is an element of a message: what is written and what has to be read.
type elem struct {
	name, hash, code, tag, uri, inner string
	text                              string
}

func attr(n, v string, q string) string {
	if v == "" {
		return ""
	}
	r := strings.NewReplacer("&", "&amp;", "<", "&lt;", "\"", "&quot;", "'", "&#39;")
	return " " + n + "=" + q + r.Replace(v) + q
}

func init() {
	checks["F02"] = func(r *vk.Run) {
		r.Rule = "every message of up to 3 (4) elements from a menu (all element kinds of RFC 8181 and 8183, attributes present, absent and with escapes, contents, both quotes, spaces and comments between) for every kind of message; every truncation; something before or after the message; other root elements; what the decoders return is compared with what was written"
		ns := "http://www.hactrn.net/uris/rpki/publication-spec/"
		setup := "http://www.hactrn.net/uris/rpki/rpki-setup/"
		h := strings.Repeat("0123456789abcdef", 4)
		menu := []elem{
			{name: "list"},
			{name: "list", uri: "rsync://h.example/m/a.cer", hash: h},
			{name: "publish", uri: "rsync://h.example/m/a.cer", tag: "t1", inner: "MIIBAA=="},
			{name: "publish", uri: "rsync://h.example/m/b&c'd\".roa", hash: h, tag: "<2>", inner: "MIIB\nAAEC\n"},
			{name: "withdraw", uri: "rsync://h.example/m/a.mft", hash: h, tag: "t2"},
			{name: "success"},
			{name: "report_error", code: "no_object_matching_hash", tag: "t3", inner: "<error_text>a &lt; b</error_text><failed_pdu><withdraw uri=\"x\" hash=\"y\"/></failed_pdu>"},
			{name: "child_bpki_ta", inner: "R29kIGlzIHJlYWw="},
		}
		write := func(e elem, q string, self bool) string {
			a := attr("tag", e.tag, q) + attr("uri", e.uri, q) + attr("hash", e.hash, q) + attr("error_code", e.code, q)
			if e.inner == "" && self {
				return "<" + e.name + a + "/>"
			}
			return "<" + e.name + a + ">" + e.inner + "</" + e.name + ">"
		}
		same := func(got []ca.Content, want []elem) string {
			if len(got) != len(want) {
				return fmt.Sprintf("%d elements are read instead of %d", len(got), len(want))
			}
			for i, g := range got {
				e := want[i]
				if g.XMLName.Local != e.name || g.Hash != e.hash || g.ErrorCode != e.code || g.Tag != e.tag || g.URI != e.uri || g.Inner != e.inner {
					return fmt.Sprintf("element %d is read as %+v instead of %+v", i, g, e)
				}
			}
			return ""
		}
		type msg struct {
			root, ns string
			attrs    [][2]string
			dec      func(b []byte) (map[string]string, []ca.Content, error)
		}
		kinds := []msg{
			{"msg", ns, [][2]string{{"version", "4"}, {"type", "query"}}, func(b []byte) (map[string]string, []ca.Content, error) {
				m, c, err := ca.DecodeXMLFull(b)
				if err != nil {
					return nil, c, err
				}
				m2, err2 := ca.DecodeXML(b)
				if err2 != nil || *m2 != *m {
					return nil, c, fmt.Errorf("DecodeXML differs: %v", err2)
				}
				return map[string]string{"version": fmt.Sprint(m.Version), "type": m.Type}, c, nil
			}},
			{"child_request", setup, [][2]string{{"version", "1"}, {"child_handle", "Bob & co"}, {"tag", "x\"1"}}, func(b []byte) (map[string]string, []ca.Content, error) {
				m, c, err := ca.DecodeXMLCRFull(b)
				if err != nil {
					return nil, c, err
				}
				return map[string]string{"version": fmt.Sprint(m.Version), "child_handle": m.ChildHandle, "tag": m.Tag}, c, nil
			}},
			{"parent_response", setup, [][2]string{{"version", "1"}, {"tag", "q"}, {"service_uri", "http://a.example/up-down/?a=1&b=2"}, {"child_handle", "Bob"}, {"parent_handle", "Alice"}}, func(b []byte) (map[string]string, []ca.Content, error) {
				m, c, err := ca.DecodeXMLPRFull(b)
				if err != nil {
					return nil, c, err
				}
				return map[string]string{"version": fmt.Sprint(m.Version), "tag": m.Tag, "service_uri": m.ServiceURI, "child_handle": m.ChildHandle, "parent_handle": m.ParentHandle}, c, nil
			}},
		}
		check := func(id string, k msg, doc string, want []elem, ok bool) {
			if r.Skip(id) {
				return
			}
			r.Check(id, func() *vk.Fail {
				at, c, err := k.dec([]byte(doc))
				r.Outcome(fmt.Sprint(len(c), err != nil))
				if !ok {
					if err == nil {
						return vk.Failf("accepted:"+strings.SplitN(id, "/", 2)[0], "%q is decoded without an error", doc)
					}
					return nil
				}
				if err != nil {
					return vk.Failf("refused", "%q: %v", doc, err)
				}
				for _, a := range k.attrs {
					if at[a[0]] != a[1] {
						return vk.Failf("attribute", "%s is read as %q instead of %q", a[0], at[a[0]], a[1])
					}
				}
				if s := same(c, want); s != "" {
					return vk.Failf("content", "%q: %s", doc, s)
				}
				return nil
			})
			r.State(id)
		}
		max := 3
		if r.Thorough() {
			max = 4
		}
		var lists [][]elem
		var rec func(l []elem)
		rec = func(l []elem) {
			lists = append(lists, append([]elem(nil), l...))
			if len(l) == max {
				return
			}
			for _, e := range menu {
				rec(append(l, e))
			}
		}
		rec(nil)
		type form struct {
			pre, sep, q string
			self        bool
		}
		forms := []form{{"", "", "\"", true}, {"<?xml version=\"1.0\" encoding=\"US-ASCII\"?>\n", "\n  ", "'", false}, {"<!-- c -->\n", "<!-- <x/> -->", "\"", true}}
		for ki, k := range kinds {
			for li, l := range lists {
				for fi, f := range forms {
					if fi > 0 && len(l) > 2 && !r.Thorough() {
						continue
					}
					var b strings.Builder
					if f.pre != "" && fi == 1 {
						// Go's decoder knows no other encoding than UTF-8
						b.WriteString(strings.Replace(f.pre, "US-ASCII", "UTF-8", 1))
					} else {
						b.WriteString(f.pre)
					}
					b.WriteString("<" + k.root + " xmlns=" + f.q + k.ns + f.q)
					for _, a := range k.attrs {
						b.WriteString(attr(a[0], a[1], f.q))
					}
					b.WriteString(">" + f.sep)
					for _, e := range l {
						b.WriteString(write(e, f.q, f.self) + f.sep)
					}
					b.WriteString("</" + k.root + ">")
					doc := b.String()
					id := fmt.Sprintf("%d/%d/%d", ki, li, fi)
					check("message/"+id, k, doc, l, true)
					if len(l) <= 1 {
						for n := 0; n < len(doc); n++ {
							check(fmt.Sprintf("truncated/%s/%d", id, n), k, doc[:n], nil, false)
						}
						for ti, t := range []string{"<x/>", doc, "text", "</x>", "<"} {
							check(fmt.Sprintf("after/%s/%d", id, ti), k, doc+t, nil, false)
						}
						for ti, t := range []string{"\n", "  ", "<!-- end -->"} {
							check(fmt.Sprintf("space/%s/%d", id, ti), k, doc+t, l, true)
						}
						for oi, o := range kinds {
							if oi != ki {
								check(fmt.Sprintf("kind/%s/%d", id, oi), o, doc, nil, false)
							}
						}
						check("namespace/"+id, k, strings.Replace(doc, k.ns, k.ns+"x", 1), nil, false)
						// signed and back
						check("signed/"+id, msg{attrs: k.attrs, dec: func(b []byte) (map[string]string, []ca.Content, error) {
							x, err := librpki.EncodeXMLData(b)
							if err != nil {
								return nil, nil, err
							}
							var in []byte
							if _, err := unmarshalOctets(x.EContent.FullBytes, &in); err != nil {
								return nil, nil, err
							}
							return k.dec(in)
						}}, doc, l, true)
					}
				}
			}
		}
		// what the library writes it reads
		for li, l := range lists {
			if len(l) > 2 {
				continue
			}
			var in strings.Builder
			for _, e := range l {
				in.WriteString(write(e, "\"", true))
			}
			for _, m := range []interface{}{
				&ca.XMLMessage{Version: ca.XML_VERSION_RFC8181, Type: "query", Inner: in.String()},
				&ca.XMLMessageChildRequest{Version: ca.XML_VERSION_RFC8183, ChildHandle: "a<b&\"", Tag: "1", Inner: in.String()},
				&ca.XMLMessageParentResponse{Version: 1, Tag: "'", ServiceURI: "http://x/?a&b", ChildHandle: "\t", ParentHandle: "", Inner: in.String()},
			} {
				id := fmt.Sprintf("written/%d/%T", li, m)
				if r.Skip(id) {
					continue
				}
				l, m := l, m
				r.Check(id, func() *vk.Fail {
					b, err := xml.Marshal(m)
					if err != nil {
						return vk.Failf("marshal", "%v", err)
					}
					var c []ca.Content
					ok := false
					switch x := m.(type) {
					case *ca.XMLMessage:
						var y *ca.XMLMessage
						y, c, err = ca.DecodeXMLFull(b)
						ok = err == nil && y.Version == x.Version && y.Type == x.Type && y.Inner == x.Inner
					case *ca.XMLMessageChildRequest:
						var y *ca.XMLMessageChildRequest
						y, c, err = ca.DecodeXMLCRFull(b)
						ok = err == nil && y.Version == x.Version && y.ChildHandle == x.ChildHandle && y.Tag == x.Tag && y.Inner == x.Inner
					case *ca.XMLMessageParentResponse:
						var y *ca.XMLMessageParentResponse
						y, c, err = ca.DecodeXMLPRFull(b)
						ok = err == nil && y.Version == x.Version && y.Tag == x.Tag && y.ServiceURI == x.ServiceURI && y.ChildHandle == x.ChildHandle && y.ParentHandle == x.ParentHandle && y.Inner == x.Inner
					}
					if !ok {
						return vk.Failf("written", "%s is not read back (%v)", b, err)
					}
					if s := same(c, l); s != "" {
						return vk.Failf("written", "%s: %s", b, s)
					}
					return nil
				})
				r.State(id)
			}
		}
	}
}

// unmarshalOctets takes an OCTET STRING out of its explicit tag.
func unmarshalOctets(b []byte, out *[]byte) ([]byte, error) {
	var v asn1.RawValue
	if _, err := asn1.Unmarshal(b, &v); err != nil {
		return nil, err
	}
	return asn1.Unmarshal(v.Bytes, out)
}
