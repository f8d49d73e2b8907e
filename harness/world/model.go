package world

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"
	"net/netip"
	"sort"
	"strings"
	"time"
)

// T0 is the validation instant of all worlds.
var T0 = time.Date(2024, 6, 1, 12, 0, 0, 0, time.UTC)

// ---- resources ----

type Rng struct {
	Lo, Hi netip.Addr
	Range  bool // encode as range even if it is a prefix
}
type ARng struct {
	Lo, Hi int64
	Range  bool
}
type Res struct {
	V4, V6       []Rng
	V4Inh, V6Inh bool
	AS           []ARng
	ASInh        bool
	NoIP, NoAS   bool
}

func (r Res) Clone() Res {
	r.V4 = append([]Rng(nil), r.V4...)
	r.V6 = append([]Rng(nil), r.V6...)
	r.AS = append([]ARng(nil), r.AS...)
	return r
}

func PR(s string) Rng {
	p := netip.MustParsePrefix(s).Masked()
	return Rng{Lo: p.Addr(), Hi: lastAddr(p)}
}
func RR(lo, hi string) Rng {
	return Rng{Lo: netip.MustParseAddr(lo), Hi: netip.MustParseAddr(hi), Range: true}
}
func lastAddr(p netip.Prefix) netip.Addr {
	b := p.Addr().AsSlice()
	for i := p.Bits(); i < len(b)*8; i++ {
		b[i/8] |= 1 << (7 - i%8)
	}
	a, _ := netip.AddrFromSlice(b)
	return a
}

// AsPrefix reports whether the range is exactly one prefix.
func (r Rng) AsPrefix() (netip.Prefix, bool) {
	for l := 0; l <= r.Lo.BitLen(); l++ {
		p := netip.PrefixFrom(r.Lo, l)
		if p.Masked().Addr() == r.Lo && lastAddr(p) == r.Hi {
			return p, true
		}
	}
	return netip.Prefix{}, false
}
func addrBits(a netip.Addr, n int) []byte {
	b := a.AsSlice()[:(n+7)/8]
	b = append([]byte(nil), b...)
	if n%8 != 0 {
		b[len(b)-1] &= 0xff << (8 - n%8)
	}
	return Bits(b, n)
}
func (r Rng) der() []byte {
	if p, ok := r.AsPrefix(); ok && !r.Range {
		return addrBits(p.Addr(), p.Bits())
	}
	// RFC 3779: trailing zero bits of the minimum and trailing one bits of
	// the maximum are dropped.
	lo, hi := r.Lo.AsSlice(), r.Hi.AsSlice()
	n := len(lo) * 8
	for n > 0 && lo[(n-1)/8]>>(7-(n-1)%8)&1 == 0 {
		n--
	}
	m := len(hi) * 8
	for m > 0 && hi[(m-1)/8]>>(7-(m-1)%8)&1 == 1 {
		m--
	}
	return Seq(addrBits(r.Lo, n), addrBits(r.Hi, m))
}
func famDER(fam byte, l []Rng, inh bool) []byte {
	if inh {
		return Seq(Oct([]byte{0, fam}), Null())
	}
	if len(l) == 0 {
		return nil
	}
	var e [][]byte
	for _, r := range l {
		e = append(e, r.der())
	}
	return Seq(Oct([]byte{0, fam}), Seq(e...))
}
func (r Res) ipExt() []byte {
	if r.NoIP {
		return nil
	}
	a, b := famDER(1, r.V4, r.V4Inh), famDER(2, r.V6, r.V6Inh)
	if a == nil && b == nil {
		return nil
	}
	return Seq(a, b)
}
func (r Res) asExt() []byte {
	if r.NoAS {
		return nil
	}
	if r.ASInh {
		return Seq(Ctx(0, true, Null()))
	}
	if len(r.AS) == 0 {
		return nil
	}
	var e [][]byte
	for _, a := range r.AS {
		if a.Lo == a.Hi && !a.Range {
			e = append(e, Int(a.Lo))
		} else {
			e = append(e, Seq(Int(a.Lo), Int(a.Hi)))
		}
	}
	return Seq(Ctx(0, true, Seq(e...)))
}

// Eff is what a certificate effectively holds after resolving inheritance.
type Eff struct {
	V4, V6 []Rng
	AS     []ARng
}

func in(l []Rng, r Rng) bool {
	for _, x := range l {
		if x.Lo.Compare(r.Lo) <= 0 && r.Hi.Compare(x.Hi) <= 0 {
			return true
		}
	}
	return false
}
func inAS(l []ARng, r ARng) bool {
	for _, x := range l {
		if x.Lo <= r.Lo && r.Hi <= x.Hi {
			return true
		}
	}
	return false
}

// Resolve computes the effective resources under parent; ok=false if the
// certificate claims more than the parent holds.
func (r Res) Resolve(parent *Eff) (Eff, bool) {
	ok := true
	e := Eff{}
	if !r.NoIP {
		e.V4, e.V6 = r.V4, r.V6
		if r.V4Inh {
			e.V4 = nil
			if parent != nil {
				e.V4 = parent.V4
			}
		}
		if r.V6Inh {
			e.V6 = nil
			if parent != nil {
				e.V6 = parent.V6
			}
		}
	}
	if !r.NoAS {
		e.AS = r.AS
		if r.ASInh {
			e.AS = nil
			if parent != nil {
				e.AS = parent.AS
			}
		}
	}
	if parent != nil {
		for _, x := range e.V4 {
			ok = ok && in(parent.V4, x)
		}
		for _, x := range e.V6 {
			ok = ok && in(parent.V6, x)
		}
		for _, x := range e.AS {
			ok = ok && inAS(parent.AS, x)
		}
	}
	return e, ok
}

// ---- objects ----

type Cert struct {
	Name       string
	Key        *Key
	SKI, AKI   []byte // nil: key's / issuer's
	OmitAKI    bool
	SignKey    *Key // nil: issuer's
	Serial     int64
	NB, NA     time.Time
	CA         bool
	OmitBC     bool
	NoCertSign bool
	Res        Res
	CorruptSig bool
	CARepo     string
	Mft        string
	RRDP       string
	SignedObj  string
	CRLDP      string
	ExtraSIA   []byte
	RawIP      []byte // overrides the IP extension value
	RawAS      []byte
	TBSEdit    func(tbs *Node) // structural edit before signing
}

type CMSFault struct {
	BadDigest   bool // message digest attribute does not match the payload
	DigestForm  int  // with BadDigest: how it differs, see CMS()
	BadSig      bool // signature bit flipped
	SignKey     *Key // signed with another key than the EE certificate's
	SwapPayload []byte
	EM          func(digest []byte, k int) []byte // custom signature block
	NoSigner    bool
	Edit        func(cms *Node)
	SigAlgOther bool
	ExtraCert   []byte
}

func (f CMSFault) bad() bool {
	return f.BadDigest || f.BadSig || f.SignKey != nil || f.SwapPayload != nil || f.EM != nil || f.NoSigner || f.Edit != nil
}

type Entry struct {
	Fam    byte
	Addr   []byte
	Bits   int
	MaxLen *int64
}

func E(prefix string, maxlen int) Entry {
	p := netip.MustParsePrefix(prefix).Masked()
	e := Entry{Fam: 1, Bits: p.Bits()}
	if p.Addr().Is6() {
		e.Fam = 2
	}
	b := p.Addr().AsSlice()
	e.Addr = b[:(p.Bits()+7)/8]
	if maxlen >= 0 {
		m := int64(maxlen)
		e.MaxLen = &m
	}
	return e
}

type ROA struct {
	File    string
	EE      Cert
	ASID    *big.Int
	Entries []Entry
	Fault   CMSFault
	RawBody []byte // overrides the eContent
	RawFile []byte // overrides the whole file
}

type ListEdit struct {
	Name    string
	BadHash bool
}

type CA struct {
	Cert    Cert
	File    string // certificate file name in the parent's directory
	Parent  *CA
	Dir     string // publication directory URI, ends with /
	Roas    []*ROA
	Kids    []*CA
	Extra   map[string][]byte // other published and listed files
	RawCert []byte            // overrides the certificate file

	MftEE      Cert
	MftFile    string
	MftThis    time.Time
	MftNext    time.Time
	MftFault   CMSFault
	MftRawBody []byte
	MftRawFile []byte
	MftMissing bool
	MftNum     int64

	CrlFile    string
	CrlKey     *Key // nil: own
	CrlAKI     []byte
	CrlCorrupt bool
	CrlThis    time.Time
	CrlNext    time.Time
	Revoked    []int64
	CrlEnt     int // encoding of the CRL entries, see CRL()
	CrlRaw     []byte
	CrlEdit    func(*Node)

	Unreadable map[string]bool // published, but not even BER
	Missing    map[string]bool // listed, not published
	Unlisted   map[string]bool // published, not listed
	BadHash    map[string]bool // listed with another hash
	HashForm   map[string]int  // with BadHash: how it differs, see MftBody
	Dangling   []string        // listed names that never exist
	Order      []string        // listing order (default: sorted)
	DupList    map[string]bool // listed twice
}

type TAL struct {
	Key *Key
	URI []string
}

type World struct {
	Name string
	TA   *CA
	TAL  TAL

	also map[string][]byte
}

// Also publishes one more file.
func (w *World) Also(uri string, b []byte) {
	if w.also == nil {
		w.also = map[string][]byte{}
	}
	w.also[uri] = b
}

func (w *World) Walk(f func(*CA)) { walkCA(w.TA, f) }
func walkCA(c *CA, f func(*CA)) {
	f(c)
	for _, k := range c.Kids {
		walkCA(k, f)
	}
}
func (w *World) Find(name string) *CA {
	var r *CA
	w.Walk(func(c *CA) {
		if c.Cert.Name == name {
			r = c
		}
	})
	return r
}

// ---- builders with defaults ----

type Builder struct {
	nextKey int
	Serials map[*CA]int64
	NB, NA  time.Time
	MT, MN  time.Time
}

func NewBuilder() *Builder {
	return &Builder{Serials: map[*CA]int64{}, NB: T0.Add(-30 * 24 * time.Hour), NA: T0.Add(365 * 24 * time.Hour), MT: T0.Add(-12 * time.Hour), MN: T0.Add(12 * time.Hour)}
}
func (b *Builder) key() *Key {
	k := K(b.nextKey % NumKeys)
	if b.nextKey >= NumKeys {
		panic("out of keys")
	}
	b.nextKey++
	return k
}

// Skip reserves keys.
func (b *Builder) Skip(n int)         { b.nextKey = n }
func (b *Builder) serial(c *CA) int64 { b.Serials[c]++; return b.Serials[c] }

func (b *Builder) finishCA(c *CA) {
	c.MftEE = Cert{Name: c.Cert.Name + ".mft", Key: b.key(), Serial: b.serial(c), NB: b.NB, NA: b.NA,
		Res: Res{V4Inh: true, V6Inh: true, ASInh: true}}
	c.MftFile = c.Cert.Name + ".mft"
	c.CrlFile = c.Cert.Name + ".crl"
	c.MftThis, c.MftNext = b.MT, b.MN
	c.CrlThis, c.CrlNext = b.MT, b.MN
	c.MftNum = 7
	c.Unreadable = map[string]bool{}
	c.Extra, c.Missing, c.Unlisted, c.BadHash, c.DupList = map[string][]byte{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	c.Cert.CARepo = c.Dir
	c.Cert.Mft = c.Dir + c.MftFile
	c.MftEE.SignedObj = c.Cert.Mft
	c.MftEE.CRLDP = c.Dir + c.CrlFile
}
func (b *Builder) TA(name, host string, res Res) *World {
	c := &CA{Dir: "rsync://" + host + "/repo/" + name + "/", File: name + ".cer"}
	c.Cert = Cert{Name: name, Key: b.key(), Serial: 1, NB: b.NB, NA: b.NA, CA: true, Res: res}
	b.finishCA(c)
	return &World{Name: name, TA: c, TAL: TAL{Key: c.Cert.Key, URI: []string{"rsync://" + host + "/ta/" + name + ".cer"}}}
}
func (b *Builder) Kid(p *CA, name, host string, res Res) *CA {
	c := &CA{Dir: "rsync://" + host + "/repo/" + name + "/", File: name + ".cer", Parent: p}
	c.Cert = Cert{Name: name, Key: b.key(), Serial: b.serial(p), NB: b.NB, NA: b.NA, CA: true, Res: res, CRLDP: p.Dir + p.CrlFile}
	b.finishCA(c)
	p.Kids = append(p.Kids, c)
	return c
}
func (b *Builder) ROA(p *CA, name string, asn int64, entries ...Entry) *ROA {
	r := &ROA{File: name + ".roa", ASID: big.NewInt(asn), Entries: entries}
	res := Res{}
	for _, e := range entries {
		rg := e.Rng()
		if e.Fam == 1 {
			res.V4 = append(res.V4, rg)
		} else {
			res.V6 = append(res.V6, rg)
		}
	}
	res.V4, res.V6 = canon(res.V4), canon(res.V6)
	r.EE = Cert{Name: name, Key: b.key(), Serial: b.serial(p), NB: b.NB, NA: b.NA, Res: res, SignedObj: p.Dir + r.File, CRLDP: p.Dir + p.CrlFile}
	p.Roas = append(p.Roas, r)
	return r
}

// canon sorts, merges overlapping ranges (RFC 3779 canonical form).
func canon(l []Rng) []Rng {
	sort.Slice(l, func(i, j int) bool { return l[i].Lo.Compare(l[j].Lo) < 0 })
	var o []Rng
	for _, r := range l {
		if n := len(o); n > 0 && r.Lo.Compare(o[n-1].Hi) <= 0 {
			if r.Hi.Compare(o[n-1].Hi) > 0 {
				o[n-1].Hi = r.Hi
			}
			continue
		}
		o = append(o, r)
	}
	return o
}

// Rng of a ROA entry (legal entries only).
func (e Entry) Rng() Rng {
	n := 4
	if e.Fam == 2 {
		n = 16
	}
	b := make([]byte, n)
	copy(b, e.Addr)
	a, _ := netip.AddrFromSlice(b)
	p := netip.PrefixFrom(a, e.Bits).Masked()
	return Rng{Lo: p.Addr(), Hi: lastAddr(p)}
}

// ---- DER of objects ----

func name(ski []byte) []byte {
	return Seq(Set(Seq(OID(2, 5, 4, 3), TLV(0x13, []byte(fmt.Sprintf("%X", ski))))))
}
func ext(oid []int, crit bool, val []byte) []byte {
	if crit {
		return Seq(OID(oid...), Bool(true), Oct(val))
	}
	return Seq(OID(oid...), Oct(val))
}
func uri(s string) []byte { return Ctx(6, false, []byte(s)) }

func (c *Cert) ski() []byte {
	if c.SKI != nil {
		return c.SKI
	}
	return c.Key.SKI
}

// DER builds the certificate; issuer nil means self-signed.
func (c *Cert) DER(issuer *Cert) []byte {
	sk := c.SignKey
	iss := c
	if issuer != nil {
		iss = issuer
	}
	if sk == nil {
		sk = iss.Key
	}
	aki := c.AKI
	if aki == nil && issuer != nil {
		aki = issuer.ski()
	}
	var x [][]byte
	if c.CA && !c.OmitBC {
		x = append(x, ext([]int{2, 5, 29, 19}, true, Seq(Bool(true))))
	}
	x = append(x, ext([]int{2, 5, 29, 14}, false, Oct(c.ski())))
	if aki != nil && !c.OmitAKI {
		x = append(x, ext([]int{2, 5, 29, 35}, false, Seq(Ctx(0, false, aki))))
	}
	ku := []byte{0x80}
	kn := 1
	if c.CA && !c.NoCertSign {
		ku, kn = []byte{0x06}, 7
	}
	x = append(x, ext([]int{2, 5, 29, 15}, true, Bits(ku, kn)))
	if c.CRLDP != "" {
		x = append(x, ext([]int{2, 5, 29, 31}, false, Seq(Seq(Ctx(0, true, Ctx(0, true, uri(c.CRLDP)))))))
	}
	var sia [][]byte
	ad := []int{1, 3, 6, 1, 5, 5, 7, 48}
	if c.CARepo != "" {
		sia = append(sia, Seq(OID(append(ad, 5)...), uri(c.CARepo)))
	}
	if c.RRDP != "" {
		sia = append(sia, Seq(OID(append(ad, 13)...), uri(c.RRDP)))
	}
	if c.Mft != "" {
		sia = append(sia, Seq(OID(append(ad, 10)...), uri(c.Mft)))
	}
	if c.SignedObj != "" {
		sia = append(sia, Seq(OID(append(ad, 11)...), uri(c.SignedObj)))
	}
	if c.ExtraSIA != nil {
		sia = append(sia, c.ExtraSIA)
	}
	if len(sia) > 0 {
		x = append(x, ext([]int{1, 3, 6, 1, 5, 5, 7, 1, 11}, false, Seq(sia...)))
	}
	x = append(x, ext([]int{2, 5, 29, 32}, true, Seq(Seq(OID(1, 3, 6, 1, 5, 5, 7, 14, 2)))))
	ip, as := c.Res.ipExt(), c.Res.asExt()
	if c.RawIP != nil {
		ip = c.RawIP
	}
	if c.RawAS != nil {
		as = c.RawAS
	}
	if ip != nil {
		x = append(x, ext([]int{1, 3, 6, 1, 5, 5, 7, 1, 7}, true, ip))
	}
	if as != nil {
		x = append(x, ext([]int{1, 3, 6, 1, 5, 5, 7, 1, 8}, true, as))
	}
	tbs := Seq(Ctx(0, true, Int(2)), Int(c.Serial), sha256RSA, name(iss.ski()), Seq(X509Time(c.NB), X509Time(c.NA)),
		name(c.ski()), c.Key.SPKI, Ctx(3, true, Seq(x...)))
	if c.TBSEdit != nil {
		n, _, err := ParseTLV(tbs)
		must(err)
		c.TBSEdit(n)
		tbs = n.Bytes()
	}
	sig := sk.Sign(tbs)
	if c.CorruptSig {
		sig = append([]byte(nil), sig...)
		sig[len(sig)/2] ^= 1
	}
	return Seq(tbs, sha256RSA, Bits(sig, len(sig)*8))
}

// CMS wraps a payload.
func CMS(oid []int, body []byte, ee *Cert, issuer *Cert, f CMSFault) []byte {
	signed := body
	digest := sha256.Sum256(signed)
	d := digest[:]
	noDigest := false
	if f.BadDigest {
		d = append([]byte(nil), d...)
		switch f.DigestForm {
		case 0:
			d[0] ^= 1
		case 1:
			d[31] ^= 0x80
		case 2:
			d = d[:31]
		case 3:
			d = d[:1]
		case 4:
			d = d[:0]
		case 5:
			d = append(d, 0)
		case 6:
			noDigest = true
		case 7:
			z := sha256.Sum256(nil)
			d = z[:]
		}
	}
	attrs := [][]byte{
		Seq(OID(1, 2, 840, 113549, 1, 9, 3), Set(OID(oid...))),
		Seq(OID(1, 2, 840, 113549, 1, 9, 5), Set(X509Time(T0.Add(-24*time.Hour)))),
		Seq(OID(1, 2, 840, 113549, 1, 9, 4), Set(Oct(d))),
	}
	if noDigest {
		attrs = attrs[:2]
	}
	sort.Slice(attrs, func(i, j int) bool { return bytes.Compare(attrs[i], attrs[j]) < 0 })
	sk := ee.Key
	if f.SignKey != nil {
		sk = f.SignKey
	}
	setOf := Set(attrs...)
	var sig []byte
	if f.EM != nil {
		h := sha256.Sum256(setOf)
		sig = sk.RawSign(f.EM(h[:], (sk.Priv.N.BitLen()+7)/8))
	} else {
		sig = sk.Sign(setOf)
	}
	if f.BadSig {
		sig = append([]byte(nil), sig...)
		sig[3] ^= 1
	}
	sa := append([]byte(nil), setOf...)
	sa[0] = 0xa0
	da := Seq(OID(2, 16, 840, 1, 101, 3, 4, 2, 1))
	alg := sha256RSA
	if f.SigAlgOther {
		alg = Seq(OID(1, 2, 840, 113549, 1, 1, 1), Null())
	}
	si := Seq(Int(3), Ctx(0, false, ee.ski()), da, sa, alg, Oct(sig))
	if f.NoSigner {
		si = nil
	}
	pl := body
	if f.SwapPayload != nil {
		pl = f.SwapPayload
	}
	out := Seq(OID(1, 2, 840, 113549, 1, 7, 2), Ctx(0, true, Seq(Int(3), Set(da),
		Seq(OID(oid...), Ctx(0, true, Oct(pl))), Ctx(0, true, ee.DER(issuer), f.ExtraCert), Set(si))))
	if f.Edit != nil {
		n, _, err := ParseTLV(out)
		must(err)
		f.Edit(n)
		out = n.Bytes()
	}
	return out
}

var OIDRoa = []int{1, 2, 840, 113549, 1, 9, 16, 1, 24}
var OIDMft = []int{1, 2, 840, 113549, 1, 9, 16, 1, 26}

func (r *ROA) Body() []byte {
	if r.RawBody != nil {
		return r.RawBody
	}
	var fams [][]byte
	for _, fam := range []byte{1, 2, 3} {
		var es [][]byte
		for _, e := range r.Entries {
			if e.Fam != fam {
				continue
			}
			x := [][]byte{Bits(e.Addr, e.Bits)}
			if e.MaxLen != nil {
				x = append(x, Int(*e.MaxLen))
			}
			es = append(es, Seq(x...))
		}
		if es != nil {
			fams = append(fams, Seq(Oct([]byte{0, fam}), Seq(es...)))
		}
	}
	return Seq(BigInt(r.ASID), Seq(fams...))
}
func (r *ROA) DER(ca *CA) []byte {
	if r.RawFile != nil {
		return r.RawFile
	}
	return CMS(OIDRoa, r.Body(), &r.EE, &ca.Cert, r.Fault)
}
func (c *CA) CRL() []byte {
	if c.CrlRaw != nil {
		return c.CrlRaw
	}
	k := c.CrlKey
	if k == nil {
		k = c.Cert.Key
	}
	aki := c.CrlAKI
	if aki == nil {
		aki = c.Cert.ski()
	}
	var rv []byte
	if len(c.Revoked) > 0 {
		var l [][]byte
		for _, s := range c.Revoked {
			at := X509Time(T0.Add(-time.Hour))
			var ex []byte
			switch c.CrlEnt {
			case 1: // revoked from tomorrow on, says the entry; listed is revoked
				at = X509Time(T0.Add(24 * time.Hour))
			case 2: // reason: removed from CRL / key compromise
				ex = Seq(ext([]int{2, 5, 29, 21}, false, TLV(0x0a, []byte{8})))
			case 3:
				ex = Seq(ext([]int{2, 5, 29, 21}, false, TLV(0x0a, []byte{1})), ext([]int{2, 5, 29, 24}, false, GenTime(T0.Add(-48*time.Hour))))
			case 4:
				at = X509Time(T0.Add(-40 * 365 * 24 * time.Hour))
			case 5: // listed twice
				l = append(l, Seq(Int(s), at))
			}
			l = append(l, Seq(Int(s), at, ex))
		}
		rv = Seq(l...)
	}
	tbs := Seq(Int(1), sha256RSA, name(aki), X509Time(c.CrlThis), X509Time(c.CrlNext), rv,
		Ctx(0, true, Seq(ext([]int{2, 5, 29, 35}, false, Seq(Ctx(0, false, aki))), ext([]int{2, 5, 29, 20}, false, Int(5)))))
	if c.CrlEdit != nil {
		n, _, err := ParseTLV(tbs)
		must(err)
		c.CrlEdit(n)
		tbs = n.Bytes()
	}
	sig := k.Sign(tbs)
	if c.CrlCorrupt {
		sig = append([]byte(nil), sig...)
		sig[5] ^= 1
	}
	return Seq(tbs, sha256RSA, Bits(sig, len(sig)*8))
}
func (c *CA) CertDER() []byte {
	if c.RawCert != nil {
		return c.RawCert
	}
	if c.Parent == nil {
		return c.Cert.DER(nil)
	}
	return c.Cert.DER(&c.Parent.Cert)
}

// Products returns the files of the publication point except the manifest.
func (c *CA) Products() map[string][]byte {
	m := map[string][]byte{}
	if c.CrlFile != "" {
		m[c.CrlFile] = c.CRL()
	}
	for _, r := range c.Roas {
		m[r.File] = r.DER(c)
	}
	for _, k := range c.Kids {
		m[k.File] = k.CertDER()
	}
	for n, b := range c.Extra {
		m[n] = b
	}
	return m
}

// Listing gives the manifest's file names in order.
func (c *CA) Listing(prod map[string][]byte) []string {
	var names []string
	if c.Order != nil {
		names = append(names, c.Order...)
	} else {
		for n := range prod {
			names = append(names, n)
		}
		sort.Strings(names)
	}
	var out []string
	for _, n := range names {
		if c.Unlisted[n] {
			continue
		}
		out = append(out, n)
		if c.DupList[n] {
			out = append(out, n)
		}
	}
	return append(out, c.Dangling...)
}
func (c *CA) MftBody(prod map[string][]byte) []byte {
	if c.MftRawBody != nil {
		return c.MftRawBody
	}
	var fl [][]byte
	for _, n := range c.Listing(prod) {
		h := sha256.Sum256(prod[n])
		hb := Bits(h[:], 256)
		if c.BadHash[n] {
			switch c.HashForm[n] {
			case 0:
				h[31] ^= 1
				hb = Bits(h[:], 256)
			case 1: // truncated
				hb = Bits(h[:31], 248)
			case 2:
				hb = Bits(h[:1], 8)
			case 3:
				hb = Bits(nil, 0)
			case 4: // longer
				hb = Bits(append(append([]byte(nil), h[:]...), 0), 264)
			case 5:
				h[0] ^= 0x80
				hb = Bits(h[:], 256)
			case 6: // hash of nothing
				z := sha256.Sum256(nil)
				hb = Bits(z[:], 256)
			}
		}
		fl = append(fl, Seq(IA5(n), hb))
	}
	return Seq(Int(c.MftNum), GenTime(c.MftThis), GenTime(c.MftNext), OID(2, 16, 840, 1, 101, 3, 4, 2, 1), Seq(fl...))
}

// Files renders the whole world: URI -> bytes.
func (w *World) Files() map[string][]byte {
	out := map[string][]byte{}
	w.AddFiles(out)
	return out
}
func (w *World) AddFiles(out map[string][]byte) {
	out[w.TAURI()] = w.TA.CertDER()
	for u, b := range w.also {
		out[u] = b
	}
	w.Walk(func(c *CA) {
		prod := c.Products()
		for n, b := range prod {
			if !c.Missing[n] {
				out[c.Dir+n] = b
			}
		}
		if !c.MftMissing {
			if c.MftRawFile != nil {
				out[c.Dir+c.MftFile] = c.MftRawFile
			} else {
				out[c.Dir+c.MftFile] = CMS(OIDMft, c.MftBody(prod), &c.MftEE, &c.Cert, c.MftFault)
			}
		}
	})
}
func (w *World) TAURI() string {
	for _, u := range w.TAL.URI {
		if strings.HasPrefix(u, "rsync://") {
			return u
		}
	}
	return w.TAL.URI[0]
}
