package hocto

import (
	"errors"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/cloudflare/cfrpki/zzverif/world"
)

func init() { checks["C07"] = c07 }

// What a trust anchor location has to offer.
const (
	tGood = iota
	tWrongKey
	tGarbage
	tError   // 404; rsync: error exit
	tNoConn  // connection error; rsync: nothing there
	tExpired // the right key, but expired
	tBadSig  // the right key, signature broken
	tEmpty
	tReissued // another valid certificate with the right key
)

var tNames = []string{"good", "wrongkey", "garbage", "error", "noconn", "expired", "badsig", "empty", "reissued"}

type c07fix struct {
	good, other, wrong *world.World
	docs               map[int][]byte
	files              map[string][]byte
	rrdp               map[string]*RRDP
}

var c07f *c07fix

func c07setup() *c07fix {
	if c07f != nil {
		return c07f
	}
	res := func(p string) world.Res {
		return world.Res{V4: []world.Rng{world.PR(p)}, AS: []world.ARng{{Lo: 1, Hi: 100}}}
	}
	f := &c07fix{docs: map[int][]byte{}, files: map[string][]byte{}}
	b := world.NewBuilder()
	f.good = b.TA("a", "a.example.net", res("10.0.0.0/8"))
	b.ROA(f.good.TA, "ra", 1, world.E("10.1.0.0/16", 24))
	b.ROA(f.good.TA, "rc", 4, world.E("13.1.0.0/16", 24)) // not under the first certificate
	f.other = b.TA("b", "b.example.net", res("11.0.0.0/8"))
	b.ROA(f.other.TA, "rb", 2, world.E("11.1.0.0/16", 24))
	f.wrong = b.TA("w", "w.example.net", res("12.0.0.0/8"))
	b.ROA(f.wrong.TA, "rw", 3, world.E("12.1.0.0/16", 24))
	f.rrdp = map[string]*RRDP{}
	for _, w := range []*world.World{f.good, f.other, f.wrong} {
		// the repositories are offered over RRDP, which is cheaper here than
		// starting rsync
		w.TA.Cert.RRDP = epURL(hostOf(w.TA.Dir), "rrdp")
		f.rrdp[w.TA.Cert.RRDP] = NewRRDP("https://" + hostOf(w.TA.Dir) + "/rrdp")
		for u, by := range w.Files() {
			if strings.Contains(u, "/repo/") {
				f.files[u] = by
				f.rrdp[w.TA.Cert.RRDP].Objects[u] = by
			}
		}
	}
	f.docs[tGood] = f.good.TA.CertDER()
	f.docs[tWrongKey] = f.wrong.TA.CertDER()
	f.docs[tGarbage] = []byte("<html>not a certificate</html>")
	f.docs[tEmpty] = nil
	bad := append([]byte(nil), f.docs[tGood]...)
	bad[len(bad)-3] ^= 0x10
	f.docs[tBadSig] = bad
	na := f.good.TA.Cert.NA
	f.good.TA.Cert.NA = world.T0.Add(-24 * time.Hour)
	f.docs[tExpired] = f.good.TA.CertDER()
	f.good.TA.Cert.NA = na
	old := f.good.TA.Cert
	f.good.TA.Cert.Res = world.Res{V4: []world.Rng{world.PR("10.0.0.0/8"), world.PR("13.0.0.0/8")}, AS: []world.ARng{{Lo: 1, Hi: 100}}}
	f.good.TA.Cert.Serial++
	f.docs[tReissued] = f.good.TA.CertDER()
	f.good.TA.Cert = old
	c07f = f
	return f
}

type c07case struct {
	kinds    string  // H and R, one per location
	out      [][]int // per fetch attempt, per location
	init     int     // what the cache holds at first, -1: nothing
	failover bool
	otherNew bool // the other trust anchor has to be fetched too
	names    bool // http instead of https
}

func (c c07case) String() string {
	s := fmt.Sprintf("%s init=", c.kinds)
	if c.init < 0 {
		s += "none"
	} else {
		s += tNames[c.init]
	}
	for _, o := range c.out {
		s += " ["
		for i, x := range o {
			if i > 0 {
				s += " "
			}
			s += tNames[x]
		}
		s += "]"
	}
	return s + fmt.Sprintf(" failover=%v otherNew=%v http=%v", c.failover, c.otherNew, c.names)
}

func (c c07case) run(r *vk.Run) *vk.Fail {
	f := c07setup()
	e := NewEnv()
	defer e.Close()
	for u, b := range f.files {
		e.Put(u, b)
	}
	proto := "https://"
	if c.names {
		proto = "http://"
	}
	var uris []string
	rsyncIdx := -1
	for i, k := range c.kinds {
		if k == 'H' {
			uris = append(uris, fmt.Sprintf("%sta%d.example.net/a.cer", proto, i))
		} else {
			uris = append(uris, fmt.Sprintf("rsync://ta%d.example.net/ta/a.cer", i))
			if rsyncIdx < 0 {
				rsyncIdx = i
			}
		}
	}
	w := *f.good
	w.TAL.URI = uris
	o := *f.other
	o.TAL.URI = []string{"https://b.example.net/b.cer", "rsync://b.example.net/ta/b.cer"}
	talA := e.TAL("a.tal", w.TALBytes())
	talB := e.TAL("b.tal", o.TALBytes())
	e.Flags["tal.root"] = talA + "," + talB
	if c.otherNew {
		e.Flags["tal.root"] = talB + "," + talA
	}
	e.Flags["tal.name"] = "A,B"
	if c.otherNew {
		e.Flags["tal.name"] = "B,A"
	}
	e.Flags["rrdp.failover"] = fmt.Sprint(c.failover)
	if !c.otherNew {
		e.Put("rsync://b.example.net/ta/b.cer", f.other.TA.CertDER())
	}
	if c.init >= 0 {
		p := "rsync://ta0.example.net/ta/a.cer"
		if rsyncIdx >= 0 {
			p = uris[rsyncIdx]
		} else {
			return nil
		}
		e.Put(p, f.docs[c.init])
	}
	rounds := func() int { // validations begun
		n := 0
		for _, op := range e.R.OpList() {
			if op.Read && op.Path == talA {
				n++
			}
		}
		return n
	}
	type req struct {
		round, loc int
	}
	var reqs []req
	note := func(loc int) {
		e.mu.Lock()
		reqs = append(reqs, req{rounds(), loc})
		e.mu.Unlock()
	}
	attempts := 0
	attemptOf := map[int]int{}
	outcome := func(loc int) int {
		e.mu.Lock()
		defer e.mu.Unlock()
		n := rounds()
		a, ok := attemptOf[n]
		if !ok {
			a = attempts
			attemptOf[n] = a
			attempts++
		}
		if a < len(c.out) {
			return c.out[a][loc]
		}
		return tGood
	}
	e.HTTP = func(rq *http.Request) (*http.Response, error) {
		u := rq.URL.String()
		for i, x := range uris {
			if u == x {
				note(i)
				switch k := outcome(i); k {
				case tError:
					return Resp(404, f.docs[tGood]), nil
				case tNoConn:
					return nil, errors.New("connection refused")
				default:
					return Resp(200, f.docs[k]), nil
				}
			}
		}
		if u == o.TAL.URI[0] {
			return Resp(200, f.other.TA.CertDER()), nil
		}
		for _, s := range f.rrdp {
			if b, ok := s.Get(u); ok {
				return Resp(200, []byte(b)), nil
			}
		}
		return Resp(404, nil), nil
	}
	e.Rsync = func(uri, dest string, args []string) (string, string, int) {
		files := map[string][]byte{}
		for i, x := range uris {
			if uri == x {
				note(i)
				switch k := outcome(i); k {
				case tError:
					return "", "rsync: error", 12
				case tNoConn:
					return "", "", 5
				default:
					files[uri] = f.docs[k]
				}
			}
		}
		for u, b := range f.files {
			files[u] = b
		}
		out, code := RsyncCopy(e.Dir, files, uri, dest)
		return out, "", code
	}
	type snap struct {
		round int
		vrps  []string
		code  int
	}
	var snaps []snap
	e.OnIdle = func(n int) bool {
		code, l, _ := e.List()
		s := snap{round: rounds(), code: code}
		if l != nil {
			s.vrps = l.VRPs()
		}
		snaps = append(snaps, s)
		return n < len(c.out)+2
	}
	e.Exec()
	if r != nil {
		r.Trans(len(reqs))
	}
	if fl := e.Died(); fl != nil {
		return fl
	}
	if e.Ended != "idle" {
		return vk.Failf("no-stop", "the program does not come to rest (%s)", e.Ended)
	}
	// The model: walk the rounds.
	last := rounds()
	has := -1 // the valid certificate in the cache
	if valid07(c.init) {
		has = c.init
	}
	at := 0
	state := map[int]int{1: has}
	for round := 2; round <= last; round++ {
		outs := make([]int, len(uris)) // good after the listed attempts
		if at < len(c.out) {
			outs = c.out[at]
		}
		var must []int // requests expected in order
		got := []int{}
		for _, q := range reqs {
			if q.round == round-1 {
				got = append(got, q.loc)
			}
		}
		if len(got) > 0 {
			at++
		}
		now := -1
		soft := -1 // from here on requests are optional
		for i, k := range c.kinds {
			if k != 'H' || now >= 0 {
				continue
			}
			must = append(must, i)
			switch outs[i] {
			case tGood, tReissued:
				now = outs[i]
			case tExpired, tBadSig:
				// The right key, though not usable: going on is
				// allowed, stopping too.
				if soft < 0 {
					soft = len(must)
				}
			}
		}
		if now < 0 && has < 0 && c.failover && rsyncIdx >= 0 {
			must = append(must, rsyncIdx)
			if valid07(outs[rsyncIdx]) {
				now = outs[rsyncIdx]
			}
		}
		ok := len(got) <= len(must)
		for i := range must {
			if i < len(got) && got[i] != must[i] {
				ok = false
			}
		}
		if len(got) < len(must) && (soft < 0 || len(got) < soft) {
			ok = false
		}
		if !ok {
			return vk.Failf("locations", "round %d: the locations asked are %v instead of %v (outcomes %v)", round, got, must, names07(outs))
		}
		if len(got) < len(must) {
			now = -1
		}
		if now >= 0 {
			has = now
		}
		state[round] = has
	}
	va, vb, vc := "10.1.0.0/16,24,AS1@A", "11.1.0.0/16,24,AS2@B", "13.1.0.0/16,24,AS4@A"
	for _, s := range snaps {
		want := vb
		switch state[s.round] {
		case tGood:
			want = va + "|" + vb
		case tReissued:
			want = va + "|" + vb + "|" + vc
		}
		got := strings.Join(s.vrps, "|")
		if got == want {
			continue
		}
		if s.code != 200 {
			return vk.Failf("status", "after round %d the list is answered with %d", s.round, s.code)
		}
		switch {
		case !strings.Contains(got, vb):
			return vk.Failf("other", "after round %d the authorizations of the other trust anchor are missing: %s", s.round, got)
		case strings.Contains(got, "12.1"):
			return vk.Failf("wrong-key", "after round %d a trust anchor with the wrong key is trusted: %s", s.round, got)
		case state[s.round] == tReissued && strings.Contains(got, va):
			return vk.Failf("reissued", "after round %d the reissued certificate is not in use: %s", s.round, got)
		case state[s.round] == tGood && strings.Contains(got, vc):
			return vk.Failf("old", "after round %d another certificate than the last one is in use: %s", s.round, got)
		case strings.Contains(got, va) && state[s.round] < 0:
			return vk.Failf("trusted", "after round %d the trust anchor is trusted without a usable certificate: %s", s.round, got)
		default:
			return vk.Failf("untrusted", "after round %d the trust anchor is not trusted: %s", s.round, got)
		}
	}
	if len(snaps) < len(c.out)+2 {
		return vk.Failf("stopped", "only %d results", len(snaps))
	}
	return nil
}

func valid07(o int) bool { return o == tGood || o == tReissued }

func names07(l []int) []string {
	var o []string
	for _, x := range l {
		o = append(o, tNames[x])
	}
	return o
}

func c07(r *vk.Run) {
	r.Rule = "every list of up to three https and rsync locations x what each offers at each of two attempts (then all are good) x what the cache holds at first x failover; the real program's requests and trust are compared with a model"
	hvals := []int{tGood, tWrongKey, tGarbage, tError, tNoConn, tExpired, tBadSig, tEmpty, tReissued}
	rvals := []int{tGood, tWrongKey, tGarbage, tError, tNoConn, tExpired, tReissued}
	hfew, rfew := []int{tGood, tWrongKey, tError}, []int{tGood, tWrongKey, tError}
	var combos func(kinds string, h, rs []int) [][]int
	combos = func(kinds string, h, rs []int) [][]int {
		out := [][]int{{}}
		seenR := false
		for _, k := range kinds {
			vals := h
			if k == 'R' {
				vals = rs
				if seenR { // only the first rsync location is used
					vals = []int{tError, tWrongKey}
				}
				seenR = true
			}
			var nx [][]int
			for _, o := range out {
				for _, v := range vals {
					nx = append(nx, append(o[:len(o):len(o)], v))
				}
			}
			out = nx
		}
		return out
	}
	case1 := func(c c07case) {
		r.Case(c.String(), func() *vk.Fail {
			f := c.run(r)
			r.Traces(1)
			return f
		})
	}
	var lists []string
	for n := 1; n <= 3; n++ {
		for m := 0; m < 1<<n; m++ {
			s := ""
			for i := 0; i < n; i++ {
				s += string("HR"[m>>i&1])
			}
			lists = append(lists, s)
		}
	}
	k := 0
	for _, l := range lists {
		hv, rv := hvals, rvals
		if len(l) == 3 && !r.Thorough() {
			hv, rv = []int{tGood, tWrongKey, tGarbage, tError, tExpired}, []int{tGood, tWrongKey, tGarbage, tError}
		}
		first := combos(l, hv, rv)
		second := combos(l, hfew, rfew)
		if len(l) == 3 && !r.Thorough() {
			second = combos(l, []int{tGood, tWrongKey}, rfew)
		}
		hasR := strings.Contains(l, "R")
		for _, fo := range []bool{true, false} {
			if !hasR && !fo && !r.Thorough() {
				continue
			}
			for _, o1 := range first {
				for _, init := range []int{-1, tGood, tWrongKey, tGarbage, tExpired, tBadSig, tEmpty, tReissued} {
					if init >= 0 && (!hasR || len(l) == 3 && !r.Thorough()) {
						continue
					}
					k++
					case1(c07case{kinds: l, out: [][]int{o1}, init: init, failover: fo, otherNew: k%2 == 0, names: k%7 == 0})
				}
				usable := false
				for i, x := range o1 {
					usable = usable || valid07(x) && (l[i] == 'H' || fo)
				}
				second := second
				if usable { // a valid certificate is refreshed over https
					if len(l) == 3 && !r.Thorough() || !strings.Contains(l, "H") {
						continue
					}
					second = combos(l, []int{tReissued, tWrongKey, tGarbage, tError, tExpired, tBadSig}, []int{tWrongKey, tReissued})
				}
				for _, o2 := range second {
					k++
					case1(c07case{kinds: l, out: [][]int{o1, o2}, init: -1, failover: fo, otherNew: k%2 == 0})
				}
			}
		}
	}
}
