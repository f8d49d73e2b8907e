package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	api "github.com/cloudflare/cfrpki/sync/api"
	syncpki "github.com/cloudflare/cfrpki/sync/lib"
	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/zzverif/vk"
	w "github.com/cloudflare/cfrpki/zzverif/world"
	"google.golang.org/grpc"
)

// apiServer stands in for the API: files by URI.
type apiServer struct {
	api.RPKIAPIClient
	files map[string][]byte
	fail  map[string]bool // what cannot be fetched
	cut   map[string]int  // the listing of a directory breaks off there
	end   error
	asked map[string]int
}

var errAPI = errors.New("rpc error: code = Unavailable desc = transport is closing")

func (s *apiServer) GetResource(_ context.Context, q *api.ResourceQuery, _ ...grpc.CallOption) (*api.ResourceData, error) {
	if s.asked != nil {
		s.asked[q.Path]++
	}
	b, ok := s.files[q.Path]
	if !ok {
		return nil, errors.New("rpc error: code = NotFound desc = " + q.Path)
	}
	if s.fail[q.Path] {
		return nil, errAPI
	}
	return &api.ResourceData{Path: q.Path, Data: b}, nil
}

type apiStream struct {
	grpc.ClientStream
	l   []*api.ResourceData
	end error
}

func (s *apiStream) Recv() (*api.ResourceData, error) {
	if len(s.l) == 0 {
		return nil, s.end
	}
	x := s.l[0]
	s.l = s.l[1:]
	return x, nil
}

func (s *apiServer) GetRepository(_ context.Context, q *api.ResourceQuery, _ ...grpc.CallOption) (api.RPKIAPI_GetRepositoryClient, error) {
	dir := strings.TrimSuffix(q.Path, "/") + "/"
	if s.asked != nil {
		s.asked[dir]++
	}
	if s.fail[dir] {
		return nil, errAPI
	}
	var us []string
	for u := range s.files {
		if strings.HasPrefix(u, dir) && !strings.Contains(u[len(dir):], "/") {
			us = append(us, u)
		}
	}
	sort.Strings(us)
	st := &apiStream{end: io.EOF}
	if k, ok := s.cut[dir]; ok && k <= len(us) {
		us = us[:k]
		st.end = s.end
	}
	for _, u := range us {
		st.l = append(st.l, &api.ResourceData{Path: u[len(dir):], Data: s.files[u]})
	}
	return st, nil
}

// runAPI validates files with the real validator through the API.
func runAPI(s *apiServer, tal []byte, o w.Opts, noMft bool, dir string) (*w.Result, []error) {
	p := filepath.Join(dir, "t.tal")
	os.WriteFile(p, tal, 0644)
	return runWith(&api.APIFetch{Client: s, Ctx: context.Background()}, p, o, noMft)
}

func runWith(f pki.FileSeeker, tal string, o w.Opts, noMft bool) (*w.Result, []error) {
	v := pki.NewValidator()
	v.Time = o.Time
	v.DecoderConfig = &librpki.DecoderConfig{ValidateStrict: o.StrictCMS}
	sm := pki.NewSimpleManager()
	sm.Validator = v
	sm.FileSeeker = f
	sm.StrictHash = o.Hash
	sm.StrictManifests = o.StrictMft
	sm.ReportErrors = true
	var errs []error
	done := make(chan struct{})
	go func() {
		for e := range sm.Errors {
			if e != nil {
				errs = append(errs, e)
			}
		}
		close(done)
	}()
	sm.AddInitial([]*pki.PKIFile{{Path: tal, Type: pki.TYPE_TAL}})
	n := sm.Explore(noMft, false)
	sm.Close()
	<-done
	r := w.Collect(sm)
	r.Count = n
	return r, errs
}

func init() {
	checks["F01"] = func(r *vk.Run) {
		r.Rule = "all 0-, 1- and 2-deviation worlds under every strictness setting through the API instead of from files, compared object by object with the reference model; every file and every subset of two that the API cannot deliver; without manifests: every directory listing broken off at every position, compared with files on disk"
		root, err := os.MkdirTemp("", "vkf01")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(root)
		any := func(string) bool { return true }
		shapes := []Shape{s1, s3}
		if r.Thorough() {
			shapes = allShapes
		}
		explore(r, &spec{class: map[string]bool{"a04": true}, shapes: shapes, opts: optsAll, complete: true, sound: any,
			run: func(files map[string][]byte, tal []byte, o w.Opts) *w.Result {
				d, _ := os.MkdirTemp(root, "x")
				defer os.RemoveAll(d)
				res, _ := runAPI(&apiServer{files: files}, tal, o, false, d)
				return res
			}})
		// what the API does not deliver is as good as missing
		for _, s := range allShapes {
			x := s.Build()
			files := x.Files()
			var us []string
			for u := range files {
				us = append(us, u)
			}
			sort.Strings(us)
			var sets [][]string
			for i := range us {
				sets = append(sets, us[i:i+1])
				for j := 0; j < i; j++ {
					sets = append(sets, []string{us[i], us[j]})
				}
			}
			for _, o := range optsAll {
				s, o := s, o
				r.Parallel(len(sets), func(i int) {
					id := fmt.Sprintf("undelivered/%s/%s/%s", s.Name, optName(o), strings.Join(sets[i], "+"))
					if r.Skip(id) {
						return
					}
					r.Check(id, func() *vk.Fail {
						d, _ := os.MkdirTemp(root, "x")
						defer os.RemoveAll(d)
						fail := map[string]bool{}
						left := map[string][]byte{}
						for u, b := range files {
							left[u] = b
						}
						for _, u := range sets[i] {
							fail[u] = true
							delete(left, u)
						}
						got, errs := runAPI(&apiServer{files: files, fail: fail}, x.TALBytes(), o, false, d)
						want := w.RunSeeker(&w.Seeker{Files: left, TALs: map[string][]byte{"/tal": x.TALBytes()}, Requests: map[string]int{}, MaxSteps: 20000, MissErr: true}, o)
						r.Outcome(got.Summary())
						if k := diffSKI(want, got); k != "" {
							return vk.Failf("undelivered", "files the API does not deliver are not treated like missing ones: %s", k)
						}
						if len(errs) == 0 {
							return vk.Failf("silent", "no error is reported")
						}
						return nil
					})
					r.State(id)
				})
			}
		}
		// one client, several rounds: what counts is what the API delivers now
		for _, s := range allShapes {
			s := s
			x := s.Build()
			files := x.Files()
			var us []string
			for u := range files {
				us = append(us, u)
			}
			sort.Strings(us)
			// changes: a file alone, or the whole publication an hour later
			type change struct {
				n string
				f func() map[string][]byte
			}
			var cs []change
			with := func(u string, b []byte) map[string][]byte {
				m := map[string][]byte{}
				for v, y := range files {
					m[v] = y
				}
				if b == nil {
					delete(m, u)
				} else {
					m[u] = b
				}
				return m
			}
			for _, u := range us {
				u := u
				cs = append(cs, change{"gone " + u, func() map[string][]byte { return with(u, nil) }},
					change{"empty " + u, func() map[string][]byte { return with(u, []byte{}) }},
					change{"flip " + u, func() map[string][]byte {
						b := append([]byte{}, files[u]...)
						b[len(b)-1] ^= 1
						return with(u, b)
					}})
			}
			nr := 0
			x.Walk(func(c *w.CA) { nr += len(c.Roas) })
			for i := 0; i < nr; i++ {
				for _, what := range []string{"asn", "serial", "remove"} {
					i, what := i, what
					cs = append(cs, change{fmt.Sprint(what, " ROA ", i), func() map[string][]byte {
						y := s.Build()
						k := 0
						y.Walk(func(c *w.CA) {
							for j := range c.Roas {
								if k++; k-1 != i {
									continue
								}
								c.MftNum++
								switch what {
								case "asn":
									c.Roas[j].ASID = big.NewInt(64499)
								case "serial":
									c.Roas[j].EE.Serial += 1000
								default:
									c.Roas = append(append([]*w.ROA{}, c.Roas[:j]...), c.Roas[j+1:]...)
								}
								return
							}
						})
						return y.Files()
					}})
				}
			}
			for _, o := range optsAll {
				for _, noMft := range []bool{false, true} {
					o, noMft := o, noMft
					r.Parallel(len(cs), func(i int) {
						id := fmt.Sprintf("rounds/%s/%s/%v/%s", s.Name, optName(o), noMft, cs[i].n)
						if r.Skip(id) {
							return
						}
						r.Check(id, func() *vk.Fail {
							d, _ := os.MkdirTemp(root, "x")
							defer os.RemoveAll(d)
							p := filepath.Join(d, "t.tal")
							os.WriteFile(p, x.TALBytes(), 0644)
							fresh := func(f map[string][]byte) *w.Result {
								res, _ := runWith(&api.APIFetch{Client: &apiServer{files: f}, Ctx: context.Background()}, p, o, noMft)
								return res
							}
							ch := cs[i].f()
							srv := &apiServer{}
							f := &api.APIFetch{Client: srv, Ctx: context.Background()}
							for n, fs := range []map[string][]byte{files, ch, files, {}, ch} {
								srv.files = fs
								got, _ := runWith(f, p, o, noMft)
								want := fresh(fs)
								r.Outcome(got.Summary())
								r.Trans(1)
								if k := diffRes(want, got); k != "" {
									return vk.Failf("rounds", "round %d of one client differs from a fresh one: %s", n, k)
								}
							}
							return nil
						})
						r.State(id)
					})
				}
			}
		}
		// without manifests
		type kase struct {
			s   Shape
			dir string
			cut int
			end error
		}
		var ks []kase
		for _, s := range append([]Shape{s5}, allShapes...) {
			ks = append(ks, kase{s, "", 0, nil})
			dirs := map[string]int{}
			for u := range s.Build().Files() {
				dirs[u[:strings.LastIndex(u, "/")+1]]++
			}
			var ds []string
			for d := range dirs {
				ds = append(ds, d)
			}
			sort.Strings(ds)
			for _, d := range ds {
				for k := -1; k <= dirs[d]; k++ {
					for _, e := range []error{errAPI, io.ErrUnexpectedEOF, context.DeadlineExceeded} {
						ks = append(ks, kase{s, d, k, e})
					}
				}
			}
		}
		r.Parallel(len(ks), func(i int) {
			k := ks[i]
			id := fmt.Sprintf("nomanifest/%s/%s/%d/%v", k.s.Name, k.dir, k.cut, k.end)
			if r.Skip(id) {
				return
			}
			r.Check(id, func() *vk.Fail {
				d, _ := os.MkdirTemp(root, "x")
				defer os.RemoveAll(d)
				x := k.s.Build()
				o := w.DefaultOpts()
				files := x.Files()
				s := &apiServer{files: files, asked: map[string]int{}}
				n := 0
				for u := range files {
					if strings.HasPrefix(u, k.dir) && !strings.Contains(u[len(k.dir):], "/") {
						n++
					}
				}
				if k.dir != "" && k.cut < 0 {
					s.fail = map[string]bool{k.dir: true}
				} else if k.dir != "" {
					s.cut, s.end = map[string]int{k.dir: k.cut}, k.end
				}
				got, errs := runAPI(s, x.TALBytes(), o, true, d)
				for u, b := range files {
					p := filepath.Join(d, "c", strings.TrimPrefix(u, "rsync://"))
					os.MkdirAll(filepath.Dir(p), 0755)
					os.WriteFile(p, b, 0644)
				}
				x.Walk(func(c *w.CA) { os.MkdirAll(filepath.Join(d, "c", strings.TrimPrefix(c.Dir, "rsync://")), 0755) })
				lf := &syncpki.LocalFetch{MapDirectory: map[string]string{"rsync://": filepath.Join(d, "c") + "/"}}
				want, _ := runWith(lf, filepath.Join(d, "t.tal"), o, true)
				r.Outcome(got.Summary())
				k2 := diffSKI(want, got)
				if k.dir != "" && k.cut < n {
					k2 = extraSKI(want, got) // less is fine
				}
				if k2 != "" {
					return vk.Failf("nomanifest", "another result through the API than from files: %s", k2)
				}
				if k.dir != "" && s.asked[k.dir] > 0 && len(errs) == 0 {
					return vk.Failf("cut", "the listing of %s breaks off after %d files and no error is reported", k.dir, k.cut)
				}
				if k.dir == "" && len(got.Roa) == 0 && !strings.Contains(k.s.Name, "s5") {
					return vk.Failf("nothing", "nothing is valid")
				}
				return nil
			})
			r.State(id)
		})
	}
}

func extraSKI(a, b *w.Result) string {
	for k := range b.BySKI() {
		if !a.BySKI()[k] {
			return "extra " + k
		}
	}
	return ""
}

// diffSKI names a difference of two results.
func diffSKI(a, b *w.Result) string {
	x, y := a.BySKI(), b.BySKI()
	var o []string
	for k := range x {
		if !y[k] {
			o = append(o, "missing "+k)
		}
	}
	for k := range y {
		if !x[k] {
			o = append(o, "extra "+k)
		}
	}
	sort.Strings(o)
	if len(o) > 4 {
		o = o[:4]
	}
	return strings.Join(o, "; ")
}

// diffRes compares also what the ROAs say.
func diffRes(a, b *w.Result) string {
	if k := diffSKI(a, b); k != "" {
		return k
	}
	x, y := fmt.Sprint(a.VRPs), fmt.Sprint(b.VRPs)
	if x != y {
		return fmt.Sprintf("authorizations %s instead of %s", y, x)
	}
	return ""
}
