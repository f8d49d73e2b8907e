package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"

	syncpki "github.com/cloudflare/cfrpki/sync/lib"
	"github.com/cloudflare/cfrpki/zzverif/vk"
)

// B05: RRDP documents against their notification.

type rrdpElem struct {
	withdraw bool
	uri      string
	data     string
}
type rrdpDoc struct {
	kind    string
	session string
	serial  int
	elems   []rrdpElem
}

func (d rrdpDoc) xml() string {
	var b strings.Builder
	fmt.Fprintf(&b, "<%s xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"%s\" serial=\"%d\">\n", d.kind, d.session, d.serial)
	for _, e := range d.elems {
		if e.withdraw {
			fmt.Fprintf(&b, "<withdraw uri=\"%s\" hash=\"%s\"/>\n", e.uri, hexSum("old"))
		} else {
			fmt.Fprintf(&b, "<publish uri=\"%s\">%s</publish>\n", e.uri, base64.StdEncoding.EncodeToString([]byte(e.data)))
		}
	}
	fmt.Fprintf(&b, "</%s>\n", d.kind)
	return b.String()
}
func hexSum(s string) string { h := sha256.Sum256([]byte(s)); return hex.EncodeToString(h[:]) }

type notif struct {
	session  string
	serial   int
	snapshot string
	deltas   map[int]string // serial -> uri
	hash     map[string]string
}

func (n notif) xml() string {
	var b strings.Builder
	fmt.Fprintf(&b, "<notification xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"%s\" serial=\"%d\">\n<snapshot uri=\"%s\" hash=\"%s\"/>\n", n.session, n.serial, n.snapshot, n.hash[n.snapshot])
	for s := n.serial; s > 0; s-- {
		if u, ok := n.deltas[s]; ok {
			fmt.Fprintf(&b, "<delta serial=\"%d\" uri=\"%s\" hash=\"%s\"/>\n", s, u, n.hash[u])
		}
	}
	return b.String() + "</notification>\n"
}

// strictXML is the reference reader: one root element of the given kind,
// everything well-formed; returns attributes of interest.
type xnode struct {
	name string
	attr map[string]string
	text string
	kids []*xnode
}

func strictXML(s string) (*xnode, error) {
	d := xml.NewDecoder(strings.NewReader(s))
	d.CharsetReader = func(_ string, r io.Reader) (io.Reader, error) { return r, nil }
	var stack []*xnode
	var root *xnode
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case xml.StartElement:
			n := &xnode{name: x.Name.Local, attr: map[string]string{}}
			for _, a := range x.Attr {
				n.attr[a.Name.Local] = a.Value
			}
			if len(stack) == 0 {
				if root != nil {
					return nil, errors.New("two roots")
				}
				root = n
			} else {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, n)
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].text += string(x)
			} else if strings.TrimSpace(string(x)) != "" {
				return nil, errors.New("text outside the root")
			}
		}
	}
	if root == nil {
		return nil, errors.New("no root")
	}
	return root, nil
}

type rrdpServer struct {
	docs    map[string]string
	fetched []string
	fail    map[string]error
	anyURI  string // body for unknown URIs
}

func (s *rrdpServer) GetXML(u string) (string, error) {
	s.fetched = append(s.fetched, u)
	if len(s.fetched) > 2000 {
		panic("too many requests")
	}
	if e := s.fail[u]; e != nil {
		return "", e
	}
	if d, ok := s.docs[u]; ok {
		return d, nil
	}
	return "", errors.New("status is 404")
}

const nURI = "https://rrdp.example/notification.xml"

// pollRRDP runs one poll and returns what the callback got.
func pollRRDP(f syncpki.RRDPFetcher, session string, serial int64, cbErr int) (*syncpki.RRDPSystem, []string, error) {
	var got []string
	sys := &syncpki.RRDPSystem{Path: nURI, Fetcher: f, SessionID: session, Serial: serial,
		Callback: func(main, url, path string, data []byte, withdraw, snapshot bool, cur int64, args ...interface{}) error {
			got = append(got, fmt.Sprintf("%v %s %s", withdraw, path, hexSum(string(data))[:8]))
			if withdraw {
				got[len(got)-1] = fmt.Sprintf("%v %s", withdraw, path)
			}
			if len(got) == cbErr {
				return errors.New("disk full")
			}
			return nil
		}}
	err := sys.FetchRRDP("rsync://h.example/")
	return sys, got, err
}

// judgeRRDP says why this poll must not have succeeded, or "".
func judgeRRDP(srv *rrdpServer, session string, serial int64, sys *syncpki.RRDPSystem, got []string, err error) *vk.Fail {
	if err != nil {
		if sys.SessionID != session || sys.Serial != serial {
			return vk.Failf("failed poll changed the recorded state", "error %v, state %s/%d -> %s/%d", err, session, serial, sys.SessionID, sys.Serial)
		}
		return nil
	}
	root, e := strictXML(srv.docs[nURI])
	if e != nil {
		return vk.Failf("malformed notification accepted", "%v: %q", e, srv.docs[nURI])
	}
	if root.name != "notification" {
		return vk.Failf("another document accepted as notification", "%q", srv.docs[nURI])
	}
	if fmt.Sprint(sys.Serial) != strings.TrimSpace(strings.TrimLeft(root.attr["serial"], "0+")) && root.attr["serial"] != "" && !strings.HasPrefix(root.attr["serial"], "-") {
		if n, e := strconv.ParseInt(strings.TrimSpace(root.attr["serial"]), 10, 64); e != nil || n != sys.Serial {
			return vk.Failf("recorded serial", "%d, notification says %q", sys.Serial, root.attr["serial"])
		}
	}
	if sys.SessionID != root.attr["session_id"] {
		return vk.Failf("recorded session", "%q, notification says %q", sys.SessionID, root.attr["session_id"])
	}
	type ref struct{ kind, hash string }
	refs := map[string][]ref{}
	for _, k := range root.kids {
		if k.name == "snapshot" || k.name == "delta" {
			refs[k.attr["uri"]] = append(refs[k.attr["uri"]], ref{k.name, k.attr["hash"]})
		}
	}
	var want []string
	for _, u := range srv.fetched[1:] {
		l := refs[u]
		if len(l) == 0 {
			return vk.Failf("document fetched that was not announced", "%q", u)
		}
		doc := srv.docs[u]
		okHash, kinds := false, ""
		for _, x := range l {
			if x.hash == "" || strings.EqualFold(strings.TrimSpace(x.hash), hexSum(doc)) {
				okHash = true
				kinds += x.kind
			}
		}
		if !okHash {
			return vk.Failf("document with another hash accepted", "%s: %q", u, doc)
		}
		n, e := strictXML(doc)
		if e != nil {
			return vk.Failf("malformed document accepted", "%s (%v): %q", u, e, doc)
		}
		if !strings.Contains(kinds, n.name) {
			return vk.Failf("document of another kind accepted", "%s: %q", u, doc)
		}
		var pub, wd []string
		for _, k := range n.kids {
			switch k.name {
			case "publish":
				b, e := base64.StdEncoding.DecodeString(strings.Map(func(r rune) rune {
					if strings.ContainsRune(" \t\r\n", r) {
						return -1
					}
					return r
				}, k.text))
				if e != nil {
					return vk.Failf("undecodable content accepted", "%s: %q", u, k.text)
				}
				pub = append(pub, fmt.Sprintf("false %s %s", k.attr["uri"], hexSum(string(b))[:8]))
			case "withdraw":
				wd = append(wd, "true "+k.attr["uri"])
			}
		}
		want = append(append(want, pub...), wd...)
	}
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		return vk.Failf("objects handed over differ from the documents", "got %v, want %v", got, want)
	}
	return nil
}

type respRT struct {
	f func(*http.Request) (*http.Response, error)
}

func (r respRT) RoundTrip(q *http.Request) (*http.Response, error) { return r.f(q) }

type zeros struct{ n int64 }

func (z *zeros) Read(p []byte) (int, error) {
	if z.n == 0 {
		return 0, io.EOF
	}
	if int64(len(p)) > z.n {
		p = p[:z.n]
	}
	for i := range p {
		p[i] = ' '
	}
	z.n -= int64(len(p))
	return len(p), nil
}

type breakReader struct {
	b []byte
	e error
}

func (r *breakReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.e
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

func init() {
	checks["B05"] = func(r *vk.Run) {
		r.Rule = "polls in every client state (fresh, one and two deltas behind, current, ahead, other session) against a server whose notification, snapshot or deltas are truncated at every byte, altered at every byte, replaced by documents of other kinds or contents, with and without the announced hash following the change; every HTTP status, transport error and oversized response; every callback failure. A success is judged by an independent strict reader of the served documents"
		u := "rsync://h.example/m/"
		snap := rrdpDoc{"snapshot", "S1", 4, []rrdpElem{{false, u + "a.cer", "aaa4"}, {false, u + "b.roa", "bbb"}}}
		d3 := rrdpDoc{"delta", "S1", 3, []rrdpElem{{false, u + "b.roa", "bbb"}, {true, u + "c.crl", ""}}}
		d4 := rrdpDoc{"delta", "S1", 4, []rrdpElem{{false, u + "a.cer", "aaa4"}}}
		d2 := rrdpDoc{"delta", "S1", 2, []rrdpElem{{true, u + "z.cer", ""}}}
		sU, d2U, d3U, d4U := "https://r.example/s", "https://r.example/2", "https://r.example/3", "https://r.example/4"
		base := func() (map[string]string, notif) {
			docs := map[string]string{sU: snap.xml(), d2U: d2.xml(), d3U: d3.xml(), d4U: d4.xml()}
			n := notif{"S1", 4, sU, map[int]string{2: d2U, 3: d3U, 4: d4U}, map[string]string{}}
			for k, d := range docs {
				n.hash[k] = hexSum(d)
			}
			docs[nURI] = n.xml()
			return docs, n
		}
		type client struct {
			session string
			serial  int64
		}
		clients := []client{{"", 0}, {"S1", 2}, {"S1", 3}, {"S1", 4}, {"S1", 5}, {"S2", 3}, {"S1", 1}}
		type mut struct {
			name string
			doc  string
			data string
			fix  bool // the announced hash follows
		}
		var muts []mut
		b0, _ := base()
		names := []string{nURI, sU, d3U, d4U}
		for _, k := range names {
			d := b0[k]
			for i := 0; i < len(d); i++ {
				muts = append(muts, mut{"truncate", k, d[:i], false}, mut{"truncate", k, d[:i], true})
				for _, c := range []byte{0, '<', '>', '"', '&', ' ', 'A', '9', '/', 0xff, d[i] ^ 1, d[i] ^ 0x20} {
					if c == d[i] {
						continue
					}
					x := d[:i] + string([]byte{c}) + d[i+1:]
					muts = append(muts, mut{"byte", k, x, false})
					muts = append(muts, mut{"byte", k, x, true})
				}
				for _, ins := range []string{" ", "<", "<!-- -->", "</publish>", "<publish uri=\"rsync://h.example/m/x\">AA==</publish>"} {
					muts = append(muts, mut{"insert", k, d[:i] + ins + d[i:], true})
				}
			}
			for _, o := range []string{"", " ", "<html><body>error</body></html>", "<snapshot/>", "<delta/>", "<notification/>", b0[nURI], b0[sU], b0[d3U], b0[d4U], "not xml", b0[sU] + b0[sU], "<html>" + b0[sU] + "</html>", "<html>" + b0[d3U] + "</html>", b0[k] + "x", b0[k] + "<x/>", b0[k] + "<", "x" + b0[k], "<x/>" + b0[k], "\x1f\x8b" + b0[k]} {
				muts = append(muts, mut{"replace", k, o, false}, mut{"replace", k, o, true})
			}
			for _, bad := range []string{"!!!!", "AAA", "A===", "AA=A", "AAAA====", "\u00e9", "AA", "=", "QQ==QQ=="} {
				muts = append(muts, mut{"base64", k, strings.Replace(d, base64.StdEncoding.EncodeToString([]byte("bbb")), bad, 1), true}, mut{"base64", k, strings.Replace(d, base64.StdEncoding.EncodeToString([]byte("aaa4")), bad, 1), true})
			}
		}
		r.Note("mutations", len(muts))
		run := func(id string, docs map[string]string, c client, mustOK bool) {
			r.Check(id, func() *vk.Fail {
				srv := &rrdpServer{docs: docs}
				sys, got, err := pollRRDP(srv, c.session, c.serial, 0)
				r.Trans(len(srv.fetched))
				r.Outcome(fmt.Sprint(err == nil, len(srv.fetched)))
				if mustOK && err != nil {
					return vk.Failf("good documents refused", "%v", err)
				}
				return judgeRRDP(srv, c.session, c.serial, sys, got, err)
			})
			r.Traces(1)
		}
		for _, c := range clients {
			d, _ := base()
			run(fmt.Sprintf("base/%v", c), d, c, true)
		}
		r.Parallel(len(muts), func(i int) {
			m := muts[i]
			docs, n := base()
			docs[m.doc] = m.data
			if m.doc != nURI && m.fix {
				n.hash[m.doc] = hexSum(m.data)
				docs[nURI] = n.xml()
			} else if m.fix && m.name != "insert" {
				return
			}
			for ci, c := range clients {
				if !r.Thorough() && ci > 2 && m.name != "replace" && m.doc != nURI {
					continue
				}
				id := fmt.Sprintf("%s/%d/%v/%v", m.name, i, m.fix, c)
				if r.Skip(id) {
					continue
				}
				run(id, docs, c, false)
				r.State(id)
			}
		})
		// harmless variations have to be accepted
		vary := []struct {
			n string
			f func(string) string
		}{
			{"xml declaration", func(d string) string { return "<?xml version=\"1.0\"?>\n" + d }},
			{"utf-8", func(d string) string { return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" + d }},
			{"us-ascii", func(d string) string { return "<?xml version=\"1.0\" encoding=\"us-ascii\"?>" + d }},
			{"single quotes", func(d string) string { return strings.ReplaceAll(d, "\"", "'") }},
			{"comments", func(d string) string {
				return "<!-- a -->" + strings.ReplaceAll(d, "\n", "<!-- b -->\n") + "<!-- c -->"
			}},
			{"no trailing newline", strings.TrimSpace},
			{"CRLF", func(d string) string { return strings.ReplaceAll(d, "\n", "\r\n") }},
			{"indented content", func(d string) string {
				return strings.ReplaceAll(strings.ReplaceAll(d, "</publish>", "\n\t</publish>"), "\">", "\">\n\t ")
			}},
			{"upper case hash", func(d string) string { return d }},
			{"prefix", func(d string) string {
				for _, e := range []string{"publish", "withdraw", "snapshot", "delta", "notification"} {
					d = strings.ReplaceAll(strings.ReplaceAll(d, "<"+e+" ", "<r:"+e+" "), "</"+e, "</r:"+e)
				}
				return strings.Replace(d, "xmlns=", "xmlns:r=", 1)
			}},
		}
		for _, v := range vary {
			for _, w := range vary {
				for _, c := range clients {
					docs, n := base()
					for k := range docs {
						if k != nURI {
							docs[k] = v.f(docs[k])
							n.hash[k] = hexSum(docs[k])
							if w.n == "upper case hash" {
								n.hash[k] = strings.ToUpper(n.hash[k])
							}
						}
					}
					docs[nURI] = w.f(n.xml())
					run(fmt.Sprintf("variation/%s/%s/%v", v.n, w.n, c), docs, c, true)
				}
			}
		}
		// failing requests and callbacks, at each step
		for _, c := range clients {
			c := c
			d, _ := base()
			for k := range d {
				k := k
				r.Check(fmt.Sprintf("fetch error/%s/%v", k, c), func() *vk.Fail {
					docs, _ := base()
					srv := &rrdpServer{docs: docs, fail: map[string]error{k: errors.New("connection reset")}}
					sys, got, err := pollRRDP(srv, c.session, c.serial, 0)
					for _, f := range srv.fetched {
						if f == k && err == nil {
							return vk.Failf("failed request ignored", "%s", k)
						}
					}
					return judgeRRDP(srv, c.session, c.serial, sys, got, err)
				})
			}
			for n := 1; n < 6; n++ {
				n := n
				r.Check(fmt.Sprintf("callback error/%d/%v", n, c), func() *vk.Fail {
					docs, _ := base()
					srv := &rrdpServer{docs: docs}
					sys, got, err := pollRRDP(srv, c.session, c.serial, n)
					if err == nil && len(got) >= n {
						return vk.Failf("failure to store an object ignored", "call %d of %v", n, got)
					}
					if err != nil && len(got) < n {
						return vk.Failf("good documents refused", "%v", err)
					}
					if err != nil && (sys.SessionID != c.session || sys.Serial != c.serial) {
						return vk.Failf("failed poll changed the recorded state", "%v", err)
					}
					return nil
				})
			}
		}
		// HTTP
		get := func(f func(*http.Request) (*http.Response, error)) (string, error) {
			h := syncpki.NewHTTPFetcher("agent")
			h.Client.Transport = respRT{f}
			return h.GetXML("https://x.example/n")
		}
		for st := 100; st < 600; st++ {
			st := st
			for _, hdr := range []string{"", "https://x.example/other"} {
				hdr := hdr
				r.Check(fmt.Sprintf("status/%d/%s", st, hdr), func() *vk.Fail {
					s, err := get(func(q *http.Request) (*http.Response, error) {
						h := http.Header{}
						if hdr != "" {
							h.Set("Location", hdr)
						}
						return &http.Response{StatusCode: st, Status: fmt.Sprint(st), Header: h, Body: io.NopCloser(strings.NewReader("body")), Request: q}, nil
					})
					if (st == 200) != (err == nil) || st == 200 && s != "body" {
						return vk.Failf("HTTP status", "%d: %q %v", st, s, err)
					}
					return nil
				})
			}
		}
		for n := 0; n < 20; n++ {
			n := n
			r.Check(fmt.Sprintf("body error/%d", n), func() *vk.Fail {
				_, err := get(func(q *http.Request) (*http.Response, error) {
					return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(&breakReader{bytes.Repeat([]byte("x"), n*97), io.ErrUnexpectedEOF}), Request: q}, nil
				})
				if err == nil {
					return vk.Failf("aborted response accepted", "after %d bytes", n*97)
				}
				return nil
			})
		}
		r.Check("size limit", func() *vk.Fail {
			for _, d := range []int64{1} {
				s, err := get(func(q *http.Request) (*http.Response, error) {
					return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(&zeros{syncpki.ResponseLimit + d}), Request: q}, nil
				})
				if err == nil {
					return vk.Failf("oversized response accepted", "%d bytes", len(s))
				}
				if err.Error() != "http: request body too large" {
					return vk.Failf("oversized response not reported as such", "%v", err)
				}
			}
			return nil
		})
	}
}
