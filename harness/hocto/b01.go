package hocto

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"

	"github.com/cloudflare/cfrpki/zzverif/vhook"
	"github.com/cloudflare/cfrpki/zzverif/vk"
	"github.com/cloudflare/cfrpki/zzverif/world"
)

func init() { checks["B01"] = b01 }

// One trust anchor with an RRDP endpoint; its certificate is in the cache.
// The objects the server publishes are plain bytes: what is checked is the
// mirror, not the validation.
type mirror struct {
	tal, ta []byte
	taURI   string
	srv     *RRDP
}

const mHost = "rpki.example.net"

var mirrorWorld *world.World

func newMirror() *mirror {
	if mirrorWorld == nil {
		b := world.NewBuilder()
		w := b.TA("ta", mHost, world.Res{V4: []world.Rng{world.PR("10.0.0.0/8")}, AS: []world.ARng{{Lo: 1, Hi: 100}}})
		w.TA.Cert.RRDP = "https://" + mHost + "/rrdp/notification.xml"
		mirrorWorld = w
	}
	w := mirrorWorld
	m := &mirror{tal: w.TALBytes(), ta: w.TA.CertDER(), taURI: w.TAURI(), srv: NewRRDP("https://" + mHost + "/rrdp")}
	// Deltas are only used when that of the last serial is still offered, so
	// the server has some before the first poll.
	for i, n := range mNames {
		m.srv.Update(map[string][]byte{mURI(n): content(n, i+1)})
	}
	return m
}

func mURI(n string) string { return "rsync://" + mHost + "/repo/" + n }

// The objects of the mirror: names in nested directories.
var mNames = []string{"a.cer", "ta/b.roa", "ta/deep/c.mft"}

func content(name string, v int) []byte {
	return []byte(fmt.Sprintf("%s version %d %s", name, v, strings.Repeat("x", v*3)))
}

// cacheObjects reads the repository part of the cache.
func (e *Env) cacheObjects(host string) map[string][]byte {
	out := map[string][]byte{}
	root := e.Cache + "/" + host + "/repo"
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(p)
			out["rsync://"+strings.TrimPrefix(p, e.Cache+"/")] = b
		}
		return nil
	})
	return out
}

type recorded struct {
	Session string
	Serial  int64
}

// recordedState reads the saved RRDP state: endpoint -> state.
func (e *Env) recordedState() (map[string]recorded, error) {
	b, err := os.ReadFile(e.Cache + "/rrdp.json")
	if err != nil {
		return nil, err
	}
	var m map[string]struct {
		Path      string
		SessionID string
		Serial    int64
	}
	if err := json.Unmarshal(b, &m); err != nil {
		return nil, err
	}
	out := map[string]recorded{}
	for _, v := range m {
		out[v.Path] = recorded{v.SessionID, v.Serial}
	}
	return out, nil
}

// Server events between two polls.
type ev struct {
	name string
	f    func(s *RRDP, step int)
}

func mEvents(thorough bool) []ev {
	l := []ev{
		{"none", func(s *RRDP, n int) {}},
		{"add", func(s *RRDP, n int) {
			s.Update(map[string][]byte{mURI("ta/new" + fmt.Sprint(n) + ".roa"): content("new", n)})
		}},
		{"replace", func(s *RRDP, n int) { s.Update(map[string][]byte{mURI(mNames[1]): content(mNames[1], n+5)}) }},
		{"withdraw", func(s *RRDP, n int) {
			for _, x := range []string{mURI(mNames[1]), mURI(mNames[2]), mURI(mNames[0])} {
				if _, ok := s.Objects[x]; ok {
					s.Update(nil, x)
					return
				}
			}
		}},
		{"two deltas, the second undoing the first", func(s *RRDP, n int) {
			u := mURI("ta/flap.roa")
			s.Update(map[string][]byte{u: content("flap", n)})
			s.Update(nil, u)
		}},
		{"withdraw and bring back", func(s *RRDP, n int) {
			s.Update(nil, mURI(mNames[0]))
			s.Update(map[string][]byte{mURI(mNames[0]): content(mNames[0], n+20)})
		}},
		{"trim deltas", func(s *RRDP, n int) {
			s.Update(map[string][]byte{mURI(mNames[0]): content(mNames[0], n+9)})
			s.Update(map[string][]byte{mURI(mNames[1]): content(mNames[1], n+9)})
			s.Min = s.Serial
		}},
		{"new session", func(s *RRDP, n int) {
			s.Objects[mURI(mNames[1])] = content(mNames[1], n+30)
			s.NewSession()
		}},
		{"new session, same serial", func(s *RRDP, n int) {
			old := s.Serial
			s.NewSession()
			for s.Serial < old {
				s.Update(map[string][]byte{mURI(mNames[0]): content(mNames[0], int(s.Serial)+n+40)})
			}
		}},
		{"rollback", func(s *RRDP, n int) { s.Rollback(2) }},
	}
	if thorough {
		l = append(l, ev{"no deltas offered", func(s *RRDP, n int) {
			s.Update(map[string][]byte{mURI(mNames[2]): content(mNames[2], n+9)})
			s.Min = s.Serial + 1
		}}, ev{"empty", func(s *RRDP, n int) { s.SetObjects(map[string][]byte{}) }},
			ev{"three changes at once", func(s *RRDP, n int) {
				s.Update(map[string][]byte{mURI(mNames[2]): content(mNames[2], n+70), mURI("z.crl"): content("z", n)}, mURI(mNames[0]))
			}})
	}
	return l
}

// Faults of one poll: which request fails and how.
type flt struct {
	req  int // number of the request within the poll
	kind int // 0: none 1: 500 2: connection error 3: cut short 4: wrong document (other serial) 5: garbage object in it
}

func (f flt) String() string {
	if f.kind == 0 {
		return "ok"
	}
	return fmt.Sprintf("f%d%s", f.req, [...]string{"", "status", "error", "cut", "empty", "badobject"}[f.kind])
}

func (f flt) apply(body string) (*http.Response, error) {
	switch f.kind {
	case 1:
		return Resp(500, []byte("oops")), nil
	case 2:
		return nil, errors.New("connection reset")
	case 3:
		return Resp(200, []byte(body[:len(body)*2/3])), nil
	case 4:
		return Resp(200, nil), nil
	case 5:
		i := strings.LastIndex(body, "</publish>")
		if i < 0 {
			return Resp(200, []byte("<"+body)), nil
		}
		return Resp(200, []byte(body[:i]+"!!"+body[i:])), nil
	}
	return Resp(200, []byte(body)), nil
}

type b01step struct {
	ev ev
	f  flt
}

type pollState struct {
	before recorded
	had    bool
	objs   map[string][]byte
}

// runHistory runs a whole history in one process. restart says after which
// polls the process is stopped and started anew (between polls).
func (m *mirror) runHistory(steps []b01step, restart map[int]bool) (fail *vk.Fail, polls int) {
	e := NewEnv()
	defer e.Close()
	e.Put(m.taURI, m.ta)
	e.Flags["tal.root"] = e.TAL("ta.tal", m.tal)
	e.Flags["tal.name"] = "TA"
	e.Flags["rrdp.failover"] = "false"
	e.Flags["filter"] = "false"
	s := m.srv
	var cur flt
	req := 0
	poll := -1
	var prev recorded
	had, broken := false, false
	var maxServed int64 // highest serial of the session the client got something of
	prevLin := 0
	withdrawn := map[string]bool{}
	lastSnap := s.clone() // what the server publishes during the current poll
	setFail := func(f *vk.Fail) {
		if fail == nil {
			fail = f
		}
	}
	// judge looks at disk and recorded state after a poll ended.
	judge := func() {
		if poll < 0 {
			return
		}
		if broken {
			return
		}
		st, err := e.recordedState()
		now, ok := st[s.Notify()]
		if err != nil {
			ok = false
		}
		same := ok == had && now == prev
		isServer := ok && now == recorded{lastSnap.Session, lastSnap.Serial}
		faulted := cur.kind != 0 && req > cur.req
		where := fmt.Sprintf("poll %d", poll)
		switch {
		case !faulted && !isServer:
			setFail(vk.Failf("not-recorded", "%s saw no fault, but the recorded state is %v %v instead of %v/%d", where, ok, now, lastSnap.Session, lastSnap.Serial))
			return
		case !isServer && !same:
			setFail(vk.Failf("foreign-state", "%s left a recorded state %v that is neither the previous one %v nor the server's %v/%d", where, now, prev, lastSnap.Session, lastSnap.Serial))
			return
		case faulted && isServer && !same:
			setFail(vk.Failf("faulty-poll-recorded", "%s failed (%v) but the server's state was recorded", where, cur))
			return
		}
		if isServer && !faulted {
			have := e.cacheObjects(mHost)
			for u, b := range lastSnap.Objects {
				h, ok := have[u]
				if !ok {
					setFail(vk.Failf("missing", "after %s the published object %s is not in the cache", where, u))
				} else if string(h) != string(b) {
					setFail(vk.Failf("stale", "after %s the cache has %q for %s, the server publishes %q", where, h, u, b))
				}
			}
			for u := range withdrawn {
				if h, ok := have[u]; ok {
					setFail(vk.Failf("not-withdrawn", "after %s the withdrawn object %s is still in the cache (%d bytes)", where, u, len(h)))
				}
			}
		}
		if isServer {
			maxServed = now.Serial
		}
		if isServer && !same {
			prevLin = lastSnap.Lin[lastSnap.Serial]
		}
		prev, had = now, ok
	}
	// note remembers what the document served now tells the client.
	note := func(u string) {
		if u != s.Notify() && s.Serial > maxServed {
			maxServed = s.Serial
		}
		if u == s.snapURL() {
			for o := range s.Objects {
				delete(withdrawn, o)
			}
		}
		for n, d := range s.Deltas {
			if u != s.Notify() && u == fmt.Sprintf("%s/%s/%d/delta.xml", s.Base, s.Session, n) {
				for _, o := range d.wd {
					withdrawn[o] = true
				}
				for o := range d.pub {
					delete(withdrawn, o)
				}
			}
		}
	}
	next := func() { // a new poll begins
		poll++
		polls++
		req = 0
		cur = flt{}
		if poll < len(steps) {
			steps[poll].ev.f(s, poll)
			cur = steps[poll].f
		}
		if had && prev.Session == s.Session && prev.Serial <= s.Serial && s.Lin[prev.Serial] != prevLin {
			// The server reused a serial number for other content:
			// nobody could notice.
			broken = true
		}
		if had && prev.Session == s.Session && prev.Serial <= s.Serial && s.Serial < maxServed {
			// It went back behind what a failed poll already brought.
			broken = true
		}
		lastSnap = s.clone()
	}
	total := len(steps) + 1 // one more, fault-free and without changes
	stop := false
	e.HTTP = func(rq *http.Request) (*http.Response, error) {
		u := rq.URL.String()
		if u == s.Notify() {
			judge()
			if fail != nil || poll+1 >= total || stop {
				e.R.Kill()
				return nil, errors.New("over")
			}
			if restart[poll] && poll >= 0 {
				delete(restart, poll)
				stop = true
				e.R.Kill()
				return nil, errors.New("stop")
			}
			next()
		}
		k := req
		req++
		b, ok := s.Get(u)
		if !ok {
			return Resp(404, nil), nil
		}
		if cur.kind != 0 && cur.req == k {
			if u != s.Notify() && s.Serial > maxServed {
				maxServed = s.Serial
			}
			return cur.apply(b)
		}
		note(u)
		return Resp(200, []byte(b)), nil
	}
	e.Rsync = func(uri, dest string, args []string) (string, string, int) {
		setFail(vk.Failf("rsync", "rsync is run for %s although failover is off", uri))
		return "", "", 1
	}
	e.OnIdle = func(int) bool { return true }
	for {
		stop = false
		e.Exec()
		if f := e.Died(); f != nil && e.Ended != "stuck" {
			setFail(f)
		}
		if !stop || fail != nil {
			break
		}
	}
	if fail == nil && poll+1 < total {
		fail = vk.Failf("gave-up", "the program stopped polling after %d polls (%s)", poll+1, e.Ended)
	}
	return
}

func b01(r *vk.Run) {
	r.Rule = "histories of an RRDP server (publish, replace, withdraw, several deltas, trimmed deltas, new session, rollback) x one faulty request per poll at every position x restarts of the program; the real octorpki main loop polls them, and after every poll the cache directory and the saved state are compared with the server"
	evs := mEvents(r.Thorough())
	depth := 3
	var faults []flt
	for q := 0; q < 4; q++ {
		for k := 1; k <= 5; k++ {
			faults = append(faults, flt{q, k})
		}
	}
	run := func(id string, steps []b01step, restart map[int]bool) {
		r.Case(id, func() *vk.Fail {
			rs := map[int]bool{}
			for k := range restart {
				rs[k] = true
			}
			f, polls := newMirror().runHistory(steps, rs)
			r.Trans(polls)
			r.Traces(1)
			return f
		})
	}
	var names func(st []b01step) string
	names = func(st []b01step) string {
		var l []string
		for _, x := range st {
			l = append(l, x.ev.name+"/"+x.f.String())
		}
		return strings.Join(l, "; ")
	}
	// All histories of the given depth without faults, with every set of restarts
	// at depth 2, then with one fault anywhere, then (thorough) with two.
	var rec func(st []b01step)
	rec = func(st []b01step) {
		if r.Expired() {
			return
		}
		if len(st) > 0 {
			for mask := 0; mask < 1<<len(st); mask++ {
				if len(st) > 2 && mask != 0 && mask != 1<<len(st)-1 && !r.Thorough() {
					continue
				}
				rs := map[int]bool{}
				for i := range st {
					if mask>>i&1 == 1 {
						rs[i] = true
					}
				}
				run(fmt.Sprintf("%s restarts=%b", names(st), mask), append([]b01step(nil), st...), rs)
			}
			for i := range st {
				if len(st) > 2 && !r.Thorough() && st[i].ev.name == "none" {
					continue
				}
				for _, f := range faults {
					if len(st) > 2 && !r.Thorough() && f.kind != 2 && f.kind != 5 {
						continue
					}
					s2 := append([]b01step(nil), st...)
					s2[i].f = f
					run(names(s2), s2, nil)
					if r.Thorough() || len(st) < 3 {
						run(names(s2)+" restarts=all", s2, map[int]bool{0: true, 1: true, 2: true, 3: true})
					}
					if r.Thorough() && len(st) == 2 && i == 0 {
						for _, g := range faults {
							s3 := append([]b01step(nil), s2...)
							s3[1].f = g
							run(names(s3), s3, nil)
						}
					}
				}
			}
		}
		if len(st) == depth {
			return
		}
		for _, x := range evs {
			rec(append(append([]b01step(nil), st...), b01step{ev: x}))
		}
	}
	rec(nil)
	if r.Thorough() {
		b01two(r, 3)
	} else {
		b01two(r, 2)
	}
}

var _ = vhook.Cur
