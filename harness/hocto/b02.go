package hocto

import (
	"errors"
	"fmt"
	"net/http"
	"strings"

	"github.com/cloudflare/cfrpki/zzverif/vhook"
	"github.com/cloudflare/cfrpki/zzverif/vk"
)

func init() { checks["B02"] = b02 }

// crashScenario is a mirror history during which the process is killed.
type crashScenario struct {
	https  bool  // the TAL is fetched over https too
	evs    []int // server events before polls 1, 2, ...
	after  int   // server event while the process is down
	state  bool  // rrdp.json in the cache directory or in its own
	evList []ev
}

func (c crashScenario) String() string {
	var l []string
	for _, i := range c.evs {
		l = append(l, c.evList[i].name)
	}
	return fmt.Sprintf("https=%v [%s] then %s", c.https, strings.Join(l, "; "), c.evList[c.after].name)
}

// run performs the scenario with crashes at the given (operation, torn)
// points, one per process life, and judges the end.
func (c crashScenario) run(crashes [][2]int) (fail *vk.Fail, ops []vhook.Op, opsN []int) {
	m := newMirror()
	s := m.srv
	e := NewEnv()
	defer e.Close()
	tal := m.tal
	if c.https {
		tal = []byte(strings.Replace(string(tal), m.taURI, "https://"+mHost+"/ta.cer\n"+m.taURI, 1))
	} else {
		e.Put(m.taURI, m.ta)
	}
	e.Flags["tal.root"] = e.TAL("ta.tal", tal)
	e.Flags["tal.name"] = "TA"
	e.Flags["rrdp.failover"] = "false"
	poll := 0
	want := 0
	withdrawn := map[string]bool{} // by deltas served since the last snapshot
	e.HTTP = func(rq *http.Request) (*http.Response, error) {
		u := rq.URL.String()
		if u == "https://"+mHost+"/ta.cer" {
			return Resp(200, m.ta), nil
		}
		if u == s.Notify() {
			if poll >= want {
				e.R.Kill()
				return nil, errors.New("over")
			}
			if poll > 0 && poll <= len(c.evs) {
				c.evList[c.evs[poll-1]].f(s, poll)
			}
			poll++
		}
		if u == s.snapURL() {
			withdrawn = map[string]bool{}
		}
		for n, d := range s.Deltas {
			if u == fmt.Sprintf("%s/%s/%d/delta.xml", s.Base, s.Session, n) {
				for _, o := range d.wd {
					withdrawn[o] = true
				}
				for o := range d.pub {
					delete(withdrawn, o)
				}
			}
		}
		if b, ok := s.Get(u); ok {
			return Resp(200, []byte(b)), nil
		}
		return Resp(404, nil), nil
	}
	e.OnIdle = func(int) bool { return true }
	want = len(c.evs) + 1
	life := 0
	e.Prep = func(r *vhook.Run) {
		if life < len(crashes) {
			r.CrashAt, r.Torn = crashes[life][0], crashes[life][1]
		}
	}
	for ; ; life++ {
		e.Exec()
		opsN = append(opsN, e.R.Muts())
		if life == 0 {
			for _, o := range e.R.OpList() {
				if !o.Read {
					ops = append(ops, o)
				}
			}
		}
		if e.Ended == "crashed" {
			if life == 0 {
				c.evList[c.after].f(s, 90)
				poll = len(c.evs) + 1
				want = poll + 2
			} else {
				want = poll + 2
			}
			continue
		}
		if f := e.Died(); f != nil && e.Ended != "stuck" {
			f.Key = "restart-" + f.Key
			return f, ops, opsN
		}
		if poll < want {
			return vk.Failf("gave-up", "after the crash the program polled %d times and stopped (%s)", poll, e.Ended), ops, opsN
		}
		break
	}
	st, err := e.recordedState()
	if err != nil {
		return vk.Failf("no-state", "no readable RRDP state after recovery: %v", err), ops, opsN
	}
	if now := st[s.Notify()]; now != (recorded{s.Session, s.Serial}) {
		return vk.Failf("not-recorded", "after recovery the recorded state is %v, the server is at %v/%d", now, s.Session, s.Serial), ops, opsN
	}
	have := e.cacheObjects(mHost)
	for u, b := range s.Objects {
		h, ok := have[u]
		if !ok {
			return vk.Failf("missing", "after recovery the published object %s is not in the cache", u), ops, opsN
		} else if string(h) != string(b) {
			return vk.Failf("torn", "after recovery the cache has %q for %s, the server publishes %q", h, u, b), ops, opsN
		}
	}
	for u := range withdrawn {
		if _, ok := have[u]; ok {
			return vk.Failf("not-withdrawn", "after recovery the withdrawn object %s is still in the cache", u), ops, opsN
		}
	}
	return nil, ops, opsN
}

func b02(r *vk.Run) {
	r.Rule = "mirror histories; the process dies at every file operation (nothing, an empty file, half, all but one byte or all of a torn write on disk), the server moves on, the program is restarted on what is left, and again during the recovery; afterwards disk and recorded state are compared with the server"
	evs := mEvents(true)
	var hist [][]int
	hist = append(hist, nil)
	for i := range evs {
		hist = append(hist, []int{i})
	}
	if r.Thorough() {
		for i := range evs {
			for j := range evs {
				hist = append(hist, []int{i, j})
			}
		}
	} else {
		hist = append(hist, []int{1, 3}, []int{3, 1}, []int{2, 4}, []int{4, 2}, []int{7, 2})
	}
	for _, https := range []bool{false, true} {
		for _, h := range hist {
			if r.Expired() {
				return
			}
			c := crashScenario{https: https, evs: h, evList: evs}
			f, ops, _ := c.run(nil)
			r.Case(c.String()+" no crash", func() *vk.Fail { return f })
			for k := range ops {
				variants := []int{0, 4}
				if ops[k].Kind == "write" || ops[k].Kind == "filewrite" || ops[k].Kind == "open" {
					variants = []int{0, 1, 2, 3, 4}
				}
				for _, t := range variants {
					afters := []int{0, 1, 2, 3}
					if !r.Thorough() && len(h) > 1 {
						afters = []int{0, 2}
					}
					if r.Thorough() {
						afters = nil
						for i := range evs {
							afters = append(afters, i)
						}
					}
					for _, a := range afters {
						d := c
						d.after = a
						cr := [][2]int{{k, t}}
						r.Case(fmt.Sprintf("%s crash %d/%d", d, k, t), func() *vk.Fail {
							f, _, n := d.run(cr)
							r.Trans(len(n))
							r.Traces(1)
							if f != nil {
								f.Key += ":" + ops[k].Kind
							}
							return f
						})
						// a second crash during the recovery
						if a != 0 && !r.Thorough() || t == 1 || t == 3 || len(h) > 1 {
							continue
						}
						lim := 12
						for k2 := 0; k2 < lim; k2++ {
							for _, t2 := range []int{0, 2, 4} {
								cr := [][2]int{{k, t}, {k2, t2}}
								r.Case(fmt.Sprintf("%s crash %d/%d %d/%d", d, k, t, k2, t2), func() *vk.Fail {
									f, _, n := d.run(cr)
									r.Trans(len(n))
									r.Traces(1)
									if f != nil {
										f.Key += ":" + ops[k].Kind + "+"
									}
									return f
								})
							}
						}
					}
				}
			}
		}
	}
}
