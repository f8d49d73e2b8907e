package main

import (
	"fmt"
	"math/big"
	"net/netip"
	"sort"
	"strings"

	"github.com/cloudflare/cfrpki/zzverif/vk"
	w "github.com/cloudflare/cfrpki/zzverif/world"
)

type rawEntry struct {
	fam  string // family octets
	pat  string // address pattern: zeros, ones, ten, db8, mapped
	bits int
	ml   *big.Int
}

func (e rawEntry) String() string {
	m := "-"
	if e.ml != nil {
		m = e.ml.String()
	}
	return fmt.Sprintf("%x:%s/%d-%s", e.fam, e.pat, e.bits, m)
}

func (e rawEntry) addr() []byte {
	b := make([]byte, (e.bits+7)/8)
	copyPat := func(p []byte) { copy(b, p) }
	switch e.pat {
	case "ones":
		for i := range b {
			b[i] = 0xff
		}
	case "ten":
		copyPat([]byte{10, 1, 2, 3})
	case "db8":
		copyPat([]byte{0x20, 1, 0xd, 0xb8, 0x80, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1})
	case "mapped":
		copyPat([]byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 10, 1, 2, 3})
	}
	if r := e.bits % 8; r != 0 {
		b[len(b)-1] &= 0xff << (8 - r)
	}
	return b
}

// held: inside 10.0.0.0/8 or 2001:db8::/32
func (e rawEntry) held() bool {
	a := e.addr()
	return e.fam == "\x00\x01" && e.bits >= 8 && a[0] == 10 || e.fam == "\x00\x02" && e.bits >= 32 && a[0] == 0x20 && a[1] == 1 && a[2] == 0xd && a[3] == 0xb8
}

func (e rawEntry) der() []byte {
	x := [][]byte{w.Bits(e.addr(), e.bits)}
	if e.ml != nil {
		x = append(x, w.BigInt(e.ml))
	}
	return w.Seq(x...)
}

// vrp gives the authorization of the entry; ok=false: illegal, sure=false:
// profile violation on which the property does not decide.
func (e rawEntry) vrp(asn *big.Int) (s string, ok, sure bool) {
	lim := 0
	if len(e.fam) >= 2 && e.fam[0] == 0 {
		switch e.fam[1] {
		case 1:
			lim = 32
		case 2:
			lim = 128
		}
	}
	if lim == 0 || e.bits > lim {
		return "", false, true
	}
	ml := big.NewInt(int64(e.bits))
	if e.ml != nil {
		ml = e.ml
		if ml.Cmp(big.NewInt(int64(e.bits))) < 0 || ml.Cmp(big.NewInt(int64(lim))) > 0 {
			return "", false, true
		}
	}
	full := make([]byte, lim/8)
	copy(full, e.addr())
	a, _ := netip.AddrFromSlice(full)
	sure = len(e.fam) == 2 && !(lim == 128 && a.Is4In6())
	return fmt.Sprintf("%s-%s=>AS%s", netip.PrefixFrom(a, e.bits), ml, asn), true, sure
}

func roaBody(asn *big.Int, blocks [][]rawEntry) []byte {
	var fams [][]byte
	for _, b := range blocks {
		var es [][]byte
		for _, e := range b {
			es = append(es, e.der())
		}
		f := "\x00\x01"
		if len(b) > 0 {
			f = b[0].fam
		}
		fams = append(fams, w.Seq(w.Oct([]byte(f)), w.Seq(es...)))
	}
	return w.Seq(w.BigInt(asn), w.Seq(fams...))
}

func init() {
	checks["A07"] = func(r *vk.Run) {
		r.Rule = "every prefix length x max length boundary x address pattern x family encoding, AS number boundaries, and all ordered pairs (same or separate blocks) of a menu of legal and illegal entries; each signed into a ROA and validated under a trust anchor holding everything"
		big1 := func(s string) *big.Int { v, _ := new(big.Int).SetString(s, 10); return v }
		mls := func(n, lim int) []*big.Int {
			out := []*big.Int{nil}
			seen := map[int64]bool{}
			for _, v := range []int{-1 << 31, -256, -2, -1, 0, 1, n - 1, n, n + 1, 31, 32, 33, 127, 128, 129, 255, 256, 256 + n, 1 << 31, 1<<32 + n} {
				if !seen[int64(v)] {
					seen[int64(v)] = true
					out = append(out, big.NewInt(int64(v)))
				}
			}
			return append(out, big1("9223372036854775807"), big1("9223372036854775808"), big1("-9223372036854775808"), big1("18446744073709551648"))
		}
		type job struct {
			asn    *big.Int
			blocks [][]rawEntry
			part   bool // the certificate holds only part
		}
		var jobs []job
		v4, v6 := "\x00\x01", "\x00\x02"
		one := func(e rawEntry) { jobs = append(jobs, job{big.NewInt(64500), [][]rawEntry{{e}}, false}) }
		for n := 0; n <= 40; n++ {
			for _, m := range mls(n, 32) {
				for _, p := range []string{"ten", "ones"} {
					one(rawEntry{v4, p, n, m})
				}
			}
		}
		for n := 0; n <= 136; n++ {
			for _, m := range mls(n, 128) {
				pats := []string{"db8"}
				if r.Thorough() || n%8 < 2 || n > 120 {
					pats = []string{"db8", "mapped", "ones"}
				}
				for _, p := range pats {
					one(rawEntry{v6, p, n, m})
				}
			}
		}
		for _, f := range []string{"", "\x00", "\x01", "\x00\x00", "\x00\x03", "\x01\x01", "\x02\x02", "\x01\x00", "\x00\x01\x01", "\x00\x02\x02", "\x00\x01\x00\x00", "\x01\x01\x01", "\x00\xff", "\x40\x04"} {
			for _, n := range []int{0, 8, 24, 32, 33, 128} {
				for _, m := range []*big.Int{nil, big.NewInt(int64(n)), big.NewInt(32), big.NewInt(128)} {
					one(rawEntry{f, "ten", n, m})
				}
			}
		}
		asns := []*big.Int{}
		for _, s := range []string{"-9223372036854775809", "-9223372036854775808", "-4294967296", "-2147483648", "-256", "-1", "0", "1", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "4294967297", "4295032831", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617"} {
			asns = append(asns, big1(s))
		}
		for _, a := range asns {
			for _, e := range [][][]rawEntry{{{{v4, "ten", 24, nil}}}, {{{v6, "db8", 48, big.NewInt(64)}}}, {{{v4, "ten", 8, big.NewInt(8)}}, {{v6, "db8", 32, nil}}}, {}, {{}}} {
				jobs = append(jobs, job{a, e, false})
			}
		}
		b := func(v int64) *big.Int { return big.NewInt(v) }
		menu := []rawEntry{{v4, "ten", 16, nil}, {v4, "ten", 24, b(24)}, {v4, "ten", 24, b(32)}, {v4, "ten", 0, b(0)}, {v4, "ten", 24, b(23)}, {v4, "ten", 24, b(33)}, {v4, "ten", 33, nil}, {v4, "ten", 24, b(-2)}, {v4, "ones", 32, nil},
			{v4, "ones", 24, b(8)}, {v4, "ones", 24, b(33)}, {v6, "ones", 48, b(47)}, {v6, "ones", 48, nil}, {v6, "db8", 32, nil}, {v6, "db8", 48, b(48)}, {v6, "db8", 48, b(128)}, {v6, "db8", 48, b(47)}, {v6, "db8", 48, b(129)}, {v6, "db8", 129, nil}, {v6, "db8", 24, b(33)}, {"\x00\x03", "ten", 8, nil}, {v6, "db8", 0, nil}}
		for _, x := range menu {
			for k := 0; k < 2*len(menu); k++ {
				y, part := menu[k/2], k%2 == 1
				jobs = append(jobs, job{b(65551), [][]rawEntry{{x}, {y}}, part})
				if x.fam == y.fam {
					jobs = append(jobs, job{b(65551), [][]rawEntry{{x, y}}, part})
				}
				if r.Thorough() {
					for _, z := range menu {
						jobs = append(jobs, job{b(65551), [][]rawEntry{{x}, {y}, {z}}, part})
						if x.fam == y.fam && x.fam == z.fam {
							jobs = append(jobs, job{b(65551), [][]rawEntry{{x, y, z}}, part})
						}
					}
				}
			}
		}
		all := w.Res{V4: []w.Rng{w.PR("0.0.0.0/0")}, V6: []w.Rng{w.PR("::/0")}, AS: []w.ARng{{Lo: 0, Hi: 4294967295}}}
		r.Note("roas", len(jobs))
		r.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			id := fmt.Sprintf("AS%s %v part=%v", j.asn, j.blocks, j.part)
			if r.Skip(id) {
				return
			}
			if i%997 == 0 {
				r.Sample(id)
			}
			r.State(id)
			bl := w.NewBuilder()
			x := bl.TA("ta", "ta.example", all)
			ro := bl.ROA(x.TA, "r", 1, w.E("10.0.0.0/8", -1))
			ro.EE.Res = w.Res{V4: all.V4, V6: all.V6}
			if j.part {
				ro.EE.Res = w.Res{V4: []w.Rng{w.PR("10.0.0.0/8")}, V6: []w.Rng{w.PR("2001:db8::/32")}}
			}
			ro.RawBody = roaBody(j.asn, j.blocks)
			var want []string
			legal, sure := j.asn.Sign() >= 0 && j.asn.BitLen() <= 32, true
			minus1 := false
			for _, bk := range j.blocks {
				if len(bk) == 0 {
					sure = false
				}
				for _, e := range bk {
					s, ok, su := e.vrp(j.asn)
					legal = legal && ok
					sure = sure && su
					if !j.part || e.held() {
						want = append(want, s)
					}
					minus1 = minus1 || (e.ml != nil && e.ml.Cmp(b(-1)) == 0)
				}
			}
			if len(j.blocks) == 0 {
				sure = false
			}
			r.Check(id, func() *vk.Fail {
				res := w.RunFiles(x.Files(), x.TALBytes(), w.DefaultOpts())
				r.Trans(res.Steps)
				r.Traces(1)
				uri := x.TA.Dir + ro.File
				var got []string
				for p, l := range res.VRPs {
					if p != uri {
						return vk.Failf("other", "unexpected ROA %s", p)
					}
					got = append(got, l...)
				}
				sort.Strings(got)
				r.Outcome(strings.Join(got, ","))
				if !legal {
					if len(got) > 0 {
						k := "illegal-emitted"
						if minus1 && legalButMinus1(j.asn, j.blocks) {
							k = "explicit max length -1 taken as absent"
						}
						return vk.Failf(k, "illegal ROA emitted %v", got)
					}
					return nil
				}
				sort.Strings(want)
				if !sure && len(got) == 0 {
					return nil
				}
				if strings.Join(dedup(got), " ") != strings.Join(dedup(want), " ") {
					return vk.Failf("wrong-emission", "emitted %v, the ROA says %v", got, want)
				}
				return nil
			})
		})
	}
}

func dedup(l []string) []string {
	var out []string
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			out = append(out, s)
		}
	}
	return out
}

// legalButMinus1: legal once explicit max lengths of -1 count as absent.
func legalButMinus1(asn *big.Int, blocks [][]rawEntry) bool {
	ok := asn.Sign() >= 0 && asn.BitLen() <= 32
	for _, b := range blocks {
		for _, e := range b {
			if e.ml != nil && e.ml.Cmp(big.NewInt(-1)) == 0 {
				e.ml = nil
			}
			_, l, _ := e.vrp(asn)
			ok = ok && l
		}
	}
	return ok
}
