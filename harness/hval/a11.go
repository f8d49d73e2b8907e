package main

import (
	"bytes"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"net"
	"reflect"
	"strings"
	"time"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/zzverif/vk"
	w "github.com/cloudflare/cfrpki/zzverif/world"
)

// canonIP renders IP blocks independently of their Go representation.
func canonIP(l []librpki.IPCertificateInformation) string {
	var v4, v6, other []string
	for _, x := range l {
		s := ""
		fam := x.GetAfi()
		switch y := x.(type) {
		case *librpki.IPNet:
			ones, bits := y.IPNet.Mask.Size()
			fam = 1
			ip := y.IPNet.IP.To4()
			if bits == 128 {
				fam, ip = 2, y.IPNet.IP.To16()
			}
			s = fmt.Sprintf("%x/%d", []byte(ip.Mask(y.IPNet.Mask)), ones)
		case *librpki.IPAddressRange:
			a, b := y.Min, y.Max
			if a.To4() != nil && b.To4() != nil {
				fam, a, b = 1, a.To4(), b.To4()
			} else {
				fam = 2
			}
			s = fmt.Sprintf("%x-%x", []byte(a), []byte(b))
		case *librpki.IPAddressNull:
			s = "inherit"
		}
		switch fam {
		case 1:
			v4 = append(v4, s)
		case 2:
			v6 = append(v6, s)
		default:
			other = append(other, s)
		}
	}
	return fmt.Sprint(v4, v6, other)
}

func canonAS(l []librpki.ASNCertificateInformation) string {
	var out []string
	for _, x := range l {
		switch y := x.(type) {
		case *librpki.ASN:
			out = append(out, fmt.Sprint(y.ASN))
		case *librpki.ASNRange:
			out = append(out, fmt.Sprintf("%d-%d", y.Min, y.Max))
		case *librpki.ASNull:
			out = append(out, "inherit")
		}
	}
	return strings.Join(out, ",")
}

func netOf(pat byte, bits, size int, wide bool) *net.IPNet {
	ip := make(net.IP, size/8)
	for i := range ip {
		switch pat {
		case 1:
			ip[i] = 0xff
		case 2:
			ip[i] = byte(0xaa - i)
		case 3:
			ip[i] = byte(i + 1)
		}
	}
	if size == 128 && pat == 0 {
		ip[0] = 0x20
	}
	m := net.CIDRMask(bits, size)
	ip = ip.Mask(m)
	if wide {
		ip = ip.To16()
	}
	return &net.IPNet{IP: ip, Mask: m}
}

func init() {
	checks["A11"] = func(r *vk.Run) {
		r.Rule = "every prefix length with four address patterns in both families (and both Go representations of IPv4), all boundary address ranges, all ordered pairs and selected triples of blocks; AS numbers and ranges over boundaries; SIA lists; TALs for 18 key sizes, all splits and URI lists; ROAs, manifests, CRLs and XML messages encoded, signed, decoded and validated"
		var ipJobs, asJobs int
		ipCase := func(id string, l []librpki.IPCertificateInformation) {
			ipJobs++
			if r.Skip(id) {
				return
			}
			r.State(id)
			r.Check(id, func() *vk.Fail {
				want := canonIP(l)
				e, err := librpki.EncodeIPAddressBlock(l)
				if err != nil {
					return vk.Failf("ip-encode", "%v", err)
				}
				got, err := librpki.DecodeIPAddressBlock(e.Value)
				if err != nil {
					return vk.Failf("ip-decode", "%v", err)
				}
				r.Traces(1)
				if c := canonIP(got); c != want {
					return vk.Failf("ip-differs", "encoded %s decoded %s", want, c)
				}
				e2, err := librpki.EncodeIPAddressBlock(got)
				if err != nil || !bytes.Equal(e2.Value, e.Value) {
					return vk.Failf("ip-reencode", "re-encoding differs: %x %x %v", e.Value, e2.Value, err)
				}
				r.Outcome(fmt.Sprint(len(got)))
				return nil
			})
		}
		type ipi = librpki.IPCertificateInformation
		for pat := byte(0); pat < 4; pat++ {
			for n := 0; n <= 32; n++ {
				ipCase(fmt.Sprintf("v4 %d/%d", pat, n), []ipi{&librpki.IPNet{IPNet: netOf(pat, n, 32, false)}})
				ipCase(fmt.Sprintf("v4 wide %d/%d", pat, n), []ipi{&librpki.IPNet{IPNet: netOf(pat, n, 32, true)}})
			}
			for n := 0; n <= 128; n++ {
				ipCase(fmt.Sprintf("v6 %d/%d", pat, n), []ipi{&librpki.IPNet{IPNet: netOf(pat, n, 128, false)}})
			}
		}
		a4 := []string{"0.0.0.0", "0.0.0.1", "9.255.255.255", "10.0.0.0", "10.0.0.1", "10.128.0.0", "10.255.255.255", "11.0.0.0", "127.255.255.255", "128.0.0.0", "255.255.255.254", "255.255.255.255"}
		a6 := []string{"::", "::1", "2001:db8::", "2001:db8::1", "2001:db8:0:ffff:ffff:ffff:ffff:ffff", "2001:db8:ffff:ffff:ffff:ffff:ffff:ffff", "7fff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "8000::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:fffe", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"}
		for i := range a4 {
			for j := i; j < len(a4); j++ {
				ipCase("range "+a4[i]+"-"+a4[j], []ipi{&librpki.IPAddressRange{Min: net.ParseIP(a4[i]).To4(), Max: net.ParseIP(a4[j]).To4()}})
				ipCase("range wide "+a4[i]+"-"+a4[j], []ipi{&librpki.IPAddressRange{Min: net.ParseIP(a4[i]), Max: net.ParseIP(a4[j])}})
			}
		}
		for i := range a6 {
			for j := i; j < len(a6); j++ {
				ipCase("range "+a6[i]+"-"+a6[j], []ipi{&librpki.IPAddressRange{Min: net.ParseIP(a6[i]), Max: net.ParseIP(a6[j])}})
			}
		}
		menu := []ipi{&librpki.IPNet{IPNet: netOf(2, 9, 32, false)}, &librpki.IPNet{IPNet: netOf(3, 32, 32, false)}, &librpki.IPAddressRange{Min: net.ParseIP("10.0.0.1").To4(), Max: net.ParseIP("10.0.0.9").To4()},
			&librpki.IPNet{IPNet: netOf(2, 33, 128, false)}, &librpki.IPNet{IPNet: netOf(1, 128, 128, false)}, &librpki.IPAddressRange{Min: net.ParseIP("2001:db8::"), Max: net.ParseIP("2001:db8::8")}, &librpki.IPNet{IPNet: netOf(0, 0, 32, false)}}
		for i := range menu {
			for j := range menu {
				ipCase(fmt.Sprintf("pair %d %d", i, j), []ipi{menu[i], menu[j]})
				for k := range menu {
					ipCase(fmt.Sprintf("triple %d %d %d", i, j, k), []ipi{menu[i], menu[j], menu[k]})
				}
			}
			for _, f := range []uint8{1, 2} {
				if menu[i].GetAfi() != f {
					ipCase(fmt.Sprintf("inherit %d with %d", f, i), []ipi{&librpki.IPAddressNull{Family: f}, menu[i]})
					ipCase(fmt.Sprintf("%d with inherit %d", i, f), []ipi{menu[i], &librpki.IPAddressNull{Family: f}})
				}
			}
		}
		ipCase("inherit both", []ipi{&librpki.IPAddressNull{Family: 1}, &librpki.IPAddressNull{Family: 2}})
		ipCase("inherit 1", []ipi{&librpki.IPAddressNull{Family: 1}})
		ipCase("inherit 2", []ipi{&librpki.IPAddressNull{Family: 2}})
		ipCase("none", []ipi{})

		type asi = librpki.ASNCertificateInformation
		nums := []int{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}
		var asMenu []asi
		for i, a := range nums {
			asMenu = append(asMenu, &librpki.ASN{ASN: a})
			for _, b := range nums[i:] {
				asMenu = append(asMenu, &librpki.ASNRange{Min: a, Max: b})
			}
		}
		asCase := func(id string, a, b []asi) {
			asJobs++
			if r.Skip(id) {
				return
			}
			r.State(id)
			r.Check(id, func() *vk.Fail {
				e, err := librpki.EncodeASN(a, b)
				if err != nil {
					return vk.Failf("as-encode", "%v", err)
				}
				x, y, err := librpki.DecodeASN(e.Value)
				if err != nil {
					return vk.Failf("as-decode", "%v", err)
				}
				r.Traces(1)
				if canonAS(x) != canonAS(a) || canonAS(y) != canonAS(b) {
					return vk.Failf("as-differs", "encoded %s|%s decoded %s|%s", canonAS(a), canonAS(b), canonAS(x), canonAS(y))
				}
				e2, err := librpki.EncodeASN(x, y)
				if err != nil || !bytes.Equal(e2.Value, e.Value) {
					return vk.Failf("as-reencode", "%x %x %v", e.Value, e2.Value, err)
				}
				return nil
			})
		}
		inh := []asi{&librpki.ASNull{}}
		asCase("as none", nil, nil)
		asCase("as inherit", inh, nil)
		asCase("rdi inherit", nil, inh)
		asCase("both inherit", inh, inh)
		for i, x := range asMenu {
			asCase(fmt.Sprintf("as %d", i), []asi{x}, nil)
			asCase(fmt.Sprintf("rdi %d", i), nil, []asi{x})
			asCase(fmt.Sprintf("as %d rdi inherit", i), []asi{x}, inh)
			asCase(fmt.Sprintf("as inherit rdi %d", i), inh, []asi{x})
			for j, y := range asMenu {
				if i%4 == 0 || r.Thorough() {
					asCase(fmt.Sprintf("as %d,%d", i, j), []asi{x, y}, nil)
					asCase(fmt.Sprintf("as %d rdi %d", i, j), []asi{x}, []asi{y})
				}
			}
		}
		// SIA lists
		oids := []asn1.ObjectIdentifier{{1, 3, 6, 1, 5, 5, 7, 48, 5}, {1, 3, 6, 1, 5, 5, 7, 48, 10}, {1, 3, 6, 1, 5, 5, 7, 48, 11}, {1, 3, 6, 1, 5, 5, 7, 48, 13}, {2, 5, 29}}
		names := []string{"", "rsync://h/m/", "https://h/n.xml", strings.Repeat("x", 127), strings.Repeat("y", 128), strings.Repeat("z", 300), "a\x00b\xff"}
		var sm []librpki.SIA
		for _, o := range oids {
			for _, n := range names {
				sm = append(sm, librpki.SIA{AccessMethod: o, GeneralName: []byte(n)})
			}
		}
		siaCase := func(id string, l ...librpki.SIA) {
			if r.Skip(id) {
				return
			}
			r.State(id)
			r.Check(id, func() *vk.Fail {
				var p []*librpki.SIA
				for i := range l {
					p = append(p, &l[i])
				}
				e, err := librpki.EncodeSIA(p)
				if err != nil {
					return vk.Failf("sia-encode", "%v", err)
				}
				got, err := librpki.DecodeSubjectInformationAccess(e.Value)
				if err != nil {
					return vk.Failf("sia-decode", "%v", err)
				}
				r.Traces(1)
				if len(got) != len(l) {
					return vk.Failf("sia-differs", "%v %v", got, l)
				}
				for i := range l {
					if !got[i].AccessMethod.Equal(l[i].AccessMethod) || !bytes.Equal(got[i].GeneralName, l[i].GeneralName) {
						return vk.Failf("sia-differs", "%v %v", got, l)
					}
				}
				return nil
			})
		}
		siaCase("sia none")
		for i, x := range sm {
			siaCase(fmt.Sprintf("sia %d", i), x)
			for j, y := range sm {
				siaCase(fmt.Sprintf("sia %d %d", i, j), x, y)
			}
		}
		for _, p := range names[1:6] {
			for _, auth := range []bool{true, false} {
				p, auth := p, auth
				id := fmt.Sprintf("infoaccess %v %.10s", auth, p)
				r.Check(id, func() *vk.Fail {
					e, err := librpki.EncodeInfoAccess(auth, p)
					if err != nil {
						return vk.Failf("ia-encode", "%v", err)
					}
					got, err := librpki.DecodeSubjectInformationAccess(e.Value)
					if err != nil || len(got) != 1 || string(got[0].GeneralName) != p {
						return vk.Failf("ia-differs", "%v %v", got, err)
					}
					return nil
				})
			}
		}
		// TALs
		uris := []string{"rsync://h/m/ta.cer", "https://h/ta.cer", "https://other.example:8443/a/b.cer?x=y"}
		var lists [][]string
		for i := range uris {
			lists = append(lists, []string{uris[i]})
			for j := range uris {
				lists = append(lists, []string{uris[i], uris[j]})
				for k := range uris {
					lists = append(lists, []string{uris[i], uris[j], uris[k]})
				}
			}
		}
		ki := 0
		for bits := 1024; bits <= 1024+17*8; bits += 8 {
			n := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
			n.Add(n, big.NewInt(int64(12345+2*bits)))
			ki++
			for _, e := range []int{3, 65537} {
				for _, ptr := range []bool{false, true} {
					for _, split := range []int{0, 1, 3, 4, 63, 64, 65, 76, 100, 1000} {
						for li, ul := range lists {
							if li > 0 && (split != 64 || bits > 1048) && !r.Thorough() {
								continue
							}
							ul, split, e, ptr := ul, split, e, ptr
							id := fmt.Sprintf("tal bits=%d e=%d ptr=%v split=%d uris=%v", bits, e, ptr, split, ul)
							if r.Skip(id) {
								continue
							}
							r.State(id)
							r.Check(id, func() *vk.Fail {
								key := w.K(0).Priv.PublicKey
								key.N, key.E = n, e
								var pk interface{} = key
								if ptr {
									pk = &key
								}
								t, err := librpki.CreateTAL(ul, pk)
								if err != nil {
									return vk.Failf("tal-create", "%v", err)
								}
								b, err := librpki.EncodeTALSize(t, split)
								if err != nil {
									return vk.Failf("tal-encode", "%v", err)
								}
								if split == 64 {
									b2, err := librpki.EncodeTAL(t)
									if err != nil || !bytes.Equal(b, b2) {
										return vk.Failf("tal-encode", "EncodeTAL differs %v", err)
									}
								}
								r.Traces(1)
								for round := 0; round < 2; round++ {
									d, err := librpki.DecodeTAL(b)
									if err != nil {
										return vk.Failf("tal-decode", "%v", err)
									}
									if !reflect.DeepEqual(d.URI, ul) || !d.OID.Equal(t.OID) || d.Algorithm != t.Algorithm {
										return vk.Failf("tal-differs", "%v %v", d, t)
									}
									cert := &x509.Certificate{PublicKeyAlgorithm: x509.RSA, PublicKey: &key}
									if !d.CheckCertificate(cert) || !t.CheckCertificate(cert) {
										return vk.Failf("tal-key", "key does not match its certificate")
									}
									other := key
									other.N = new(big.Int).Add(n, big.NewInt(2))
									if d.CheckCertificate(&x509.Certificate{PublicKeyAlgorithm: x509.RSA, PublicKey: &other}) {
										return vk.Failf("tal-key", "another key matches")
									}
									b, err = librpki.EncodeTALSize(d, split)
									if err != nil {
										return vk.Failf("tal-reencode", "%v", err)
									}
								}
								return nil
							})
						}
					}
				}
			}
		}
		// signed objects
		ca := w.Cert{Name: "ca", Key: w.K(1), Serial: 1, NB: w.T0.Add(-time.Hour), NA: w.T0.Add(time.Hour), CA: true, Res: full}
		ee := w.Cert{Name: "ee", Key: w.K(2), Serial: 2, NB: ca.NB, NA: ca.NA, Res: full, SignedObj: "rsync://h/m/x"}
		eeDER := ee.DER(&ca)
		sign := func(content interface{}, encap []byte, st time.Time) ([]byte, error) {
			c, err := librpki.EncodeCMS(nil, content, st)
			if err != nil {
				return nil, err
			}
			if err := c.Sign(rand.Reader, ee.Key.SKI, encap, ee.Key.Priv, eeDER); err != nil {
				return nil, err
			}
			return asn1.Marshal(*c)
		}
		dec := &librpki.DecoderConfig{}
		type job struct {
			id string
			f  func() *vk.Fail
		}
		var jobs []job
		roaCase := func(id string, asn int, es []*librpki.ROAEntry) {
			jobs = append(jobs, job{id, func() *vk.Fail {
				o, err := librpki.EncodeROAEntries(asn, es)
				if err != nil {
					return vk.Failf("roa-encode", "%v", err)
				}
				encap, err := librpki.ROAToEncap(o)
				if err != nil {
					return vk.Failf("roa-encap", "%v", err)
				}
				st := w.T0.Add(-time.Minute)
				b, err := sign(o, encap, st)
				if err != nil {
					return vk.Failf("roa-sign", "%v", err)
				}
				d, err := dec.DecodeROA(b)
				if err != nil {
					return vk.Failf("roa-decode", "%v", err)
				}
				r.Traces(1)
				if !d.InnerValid {
					return vk.Failf("roa-signature", "%v", d.InnerValidityError)
				}
				canon := func(l []*librpki.ROAEntry) string {
					var v4, v6 []string
					for _, e := range l {
						ones, bits := e.IPNet.Mask.Size()
						ml := e.MaxLength
						if ml == -1 {
							ml = ones
						}
						if bits == 32 {
							v4 = append(v4, fmt.Sprintf("%x/%d-%d", []byte(e.IPNet.IP.To4().Mask(e.IPNet.Mask)), ones, ml))
						} else {
							v6 = append(v6, fmt.Sprintf("%x/%d-%d", []byte(e.IPNet.IP), ones, ml))
						}
					}
					return fmt.Sprint(v4, v6)
				}
				if d.ASN != asn || canon(d.Entries) != canon(es) {
					return vk.Failf("roa-differs", "AS%d %s decoded as AS%d %s", asn, canon(es), d.ASN, canon(d.Entries))
				}
				if !d.SigningTime.Equal(st) {
					return vk.Failf("roa-time", "%v %v", d.SigningTime, st)
				}
				return nil
			}})
		}
		for _, a := range nums {
			roaCase(fmt.Sprintf("roa AS%d", a), a, []*librpki.ROAEntry{{IPNet: netOf(2, 16, 32, false), MaxLength: 24}})
		}
		var rm []*librpki.ROAEntry
		for pat := byte(0); pat < 4; pat++ {
			for n := 0; n <= 32; n++ {
				for _, wide := range []bool{false, true} {
					rm = append(rm, &librpki.ROAEntry{IPNet: netOf(pat, n, 32, wide), MaxLength: n + (32-n)*int(pat)/3})
				}
			}
			for n := 0; n <= 128; n++ {
				rm = append(rm, &librpki.ROAEntry{IPNet: netOf(pat, n, 128, false), MaxLength: n + (128-n)*int(pat)/3})
			}
		}
		for i, e := range rm {
			roaCase(fmt.Sprintf("roa entry %d", i), 64500, []*librpki.ROAEntry{e})
			roaCase(fmt.Sprintf("roa entry %d and %d", i, i*7%len(rm)), 64500, []*librpki.ROAEntry{e, rm[i*7%len(rm)], rm[i*13%len(rm)]})
		}
		for m := -1; m <= 128; m++ {
			if m == -1 || m >= 16 {
				if m <= 32 {
					roaCase(fmt.Sprintf("roa ml %d", m), 1, []*librpki.ROAEntry{{IPNet: netOf(2, 16, 32, false), MaxLength: m}})
				}
				roaCase(fmt.Sprintf("roa6 ml %d", m), 1, []*librpki.ROAEntry{{IPNet: netOf(2, 16, 128, false), MaxLength: m}})
			}
		}
		mftCase := func(id string, mc librpki.ManifestContent) {
			jobs = append(jobs, job{id, func() *vk.Fail {
				o, err := librpki.EncodeManifestContent(mc)
				if err != nil {
					return vk.Failf("mft-encode", "%v", err)
				}
				encap, err := librpki.ManifestToEncap(o)
				if err != nil {
					return vk.Failf("mft-encap", "%v", err)
				}
				b, err := sign(o, encap, w.T0)
				if err != nil {
					return vk.Failf("mft-sign", "%v", err)
				}
				d, err := dec.DecodeManifest(b)
				if err != nil {
					return vk.Failf("mft-decode", "%v", err)
				}
				r.Traces(1)
				if !d.InnerValid {
					return vk.Failf("mft-signature", "%v", d.InnerValidityError)
				}
				c := d.Content
				if c.ManifestNumber.Cmp(mc.ManifestNumber) != 0 || !c.ThisUpdate.Equal(mc.ThisUpdate) || !c.NextUpdate.Equal(mc.NextUpdate) || !c.FileHashAlg.Equal(mc.FileHashAlg) || len(c.FileList) != len(mc.FileList) {
					return vk.Failf("mft-differs", "%v %v", c, mc)
				}
				for i := range c.FileList {
					if c.FileList[i].Name != mc.FileList[i].Name || !bytes.Equal(c.FileList[i].GetHash(), mc.FileList[i].GetHash()) {
						return vk.Failf("mft-differs", "%v %v", c, mc)
					}
				}
				return nil
			}})
		}
		file := func(i int) librpki.File {
			h := bytes.Repeat([]byte{byte(i)}, 32)
			return librpki.File{Name: fmt.Sprintf("file%d-%s.roa", i, strings.Repeat("n", i%140)), Hash: asn1.BitString{Bytes: h, BitLength: 256}}
		}
		for n := 0; n <= 40; n++ {
			var fl []librpki.File
			for i := 0; i < n; i++ {
				fl = append(fl, file(i*n))
			}
			num := new(big.Int).Lsh(big.NewInt(int64(n)), uint(4*n))
			for _, d := range []time.Time{w.T0, time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC)} {
				mftCase(fmt.Sprintf("mft %d files %v", n, d), librpki.ManifestContent{ManifestNumber: num, ThisUpdate: w.T0, NextUpdate: d, FileHashAlg: librpki.SHA256OID, FileList: fl})
			}
		}
		for _, n := range []int{0, 1, 10, 100, 1000, 70000} {
			for _, kind := range []string{"data", "content"} {
				n, kind := n, kind
				jobs = append(jobs, job{fmt.Sprintf("xml %s %d", kind, n), func() *vk.Fail {
					msg := []byte("<msg>" + strings.Repeat("x", n) + "</msg>")
					o, err := librpki.EncodeXMLData(msg)
					if kind == "content" {
						type M struct {
							XMLName struct{} `xml:"msg"`
							T       string   `xml:",chardata"`
						}
						o, err = librpki.EncodeXMLContent(M{T: strings.Repeat("x", n)})
					}
					if err != nil {
						return vk.Failf("xml-encode", "%v", err)
					}
					encap, err := librpki.EContentToEncapBF(o.EContent.FullBytes, true)
					if err != nil || !bytes.Equal(encap, msg) {
						return vk.Failf("xml-encap", "%v %.40q", err, encap)
					}
					b, err := sign(o, encap, w.T0)
					if err != nil {
						return vk.Failf("xml-sign", "%v", err)
					}
					d, err := librpki.DecodeXML(b)
					if err != nil {
						return vk.Failf("xml-decode", "%v", err)
					}
					r.Traces(1)
					if !bytes.Equal(d.Content, msg) || !d.InnerValid {
						return vk.Failf("xml-differs", "%.60q %v", d.Content, d.InnerValidityError)
					}
					return nil
				}})
			}
		}
		caCert, err := x509.ParseCertificate(ca.DER(nil))
		if err != nil {
			r.Violate("ca", vk.Failf("base", "%v", err))
			return
		}
		for n := 0; n <= 12; n++ {
			for _, next := range []time.Time{w.T0.Add(time.Hour), time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC)} {
				for _, loc := range []*time.Location{time.UTC, time.FixedZone("x", 3600*5+1800)} {
					n, next, loc := n, next, loc
					jobs = append(jobs, job{fmt.Sprintf("crl %d %v %v", n, next, loc), func() *vk.Fail {
						var rc []pkix.RevokedCertificate
						for i := 0; i < n; i++ {
							rc = append(rc, pkix.RevokedCertificate{SerialNumber: new(big.Int).Lsh(big.NewInt(int64(i+1)), uint(13*i)), RevocationTime: w.T0.In(loc)})
						}
						sn := new(big.Int).Lsh(big.NewInt(1), uint(n*8))
						b, err := librpki.CreateCRL(caCert, rand.Reader, ca.Key.Priv, rc, w.T0.In(loc), next.In(loc), sn)
						if err != nil {
							return vk.Failf("crl-create", "%v", err)
						}
						d, err := x509.ParseDERCRL(b)
						if err != nil {
							return vk.Failf("crl-decode", "%v", err)
						}
						r.Traces(1)
						if err := caCert.CheckCRLSignature(d); err != nil {
							return vk.Failf("crl-signature", "%v", err)
						}
						if len(d.TBSCertList.RevokedCertificates) != n || !d.TBSCertList.ThisUpdate.Equal(w.T0) || !d.TBSCertList.NextUpdate.Equal(next) {
							return vk.Failf("crl-differs", "%v", d.TBSCertList)
						}
						for i, x := range d.TBSCertList.RevokedCertificates {
							if x.SerialNumber.Cmp(rc[i].SerialNumber) != 0 || !x.RevocationTime.Equal(w.T0) {
								return vk.Failf("crl-differs", "%v", x)
							}
						}
						return nil
					}})
				}
			}
		}
		r.Note("ip_cases", ipJobs)
		r.Note("as_cases", asJobs)
		r.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			if r.Skip(j.id) {
				return
			}
			if i%499 == 0 {
				r.Sample(j.id)
			}
			r.State(j.id)
			r.Check(j.id, j.f)
		})
		r.Trans(ipJobs + asJobs + len(jobs))
	}
}
