// Package world builds small RPKI repositories from abstract descriptions
// with its own DER encoder (independent of the code under test), and holds
// the reference model that says what must and must not validate.
package world

import (
	"crypto"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/x509"
	"encoding/asn1"
	"encoding/base64"
	"fmt"
	"math/big"
	"sync"
	"time"
)

// ---- tiny DER encoder ----

func TLV(tag byte, content ...[]byte) []byte {
	var n int
	for _, c := range content {
		n += len(c)
	}
	out := make([]byte, 0, n+6)
	out = append(out, tag)
	switch {
	case n < 128:
		out = append(out, byte(n))
	case n < 256:
		out = append(out, 0x81, byte(n))
	case n < 65536:
		out = append(out, 0x82, byte(n>>8), byte(n))
	case n < 1<<24:
		out = append(out, 0x83, byte(n>>16), byte(n>>8), byte(n))
	default:
		out = append(out, 0x84, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	for _, c := range content {
		out = append(out, c...)
	}
	return out
}
func Seq(c ...[]byte) []byte { return TLV(0x30, c...) }
func Set(c ...[]byte) []byte { return TLV(0x31, c...) }
func Oct(b []byte) []byte    { return TLV(0x04, b) }
func Null() []byte           { return []byte{5, 0} }
func Bool(v bool) []byte {
	if v {
		return []byte{1, 1, 0xff}
	}
	return []byte{1, 1, 0}
}
func Int(v int64) []byte       { return BigInt(big.NewInt(v)) }
func BigInt(v *big.Int) []byte { b, err := asn1.Marshal(v); must(err); return b }
func OID(v ...int) []byte      { b, err := asn1.Marshal(asn1.ObjectIdentifier(v)); must(err); return b }
func Bits(b []byte, n int) []byte {
	u := byte(len(b)*8 - n)
	return TLV(3, []byte{u}, b)
}
func IA5(s string) []byte  { return TLV(0x16, []byte(s)) }
func UTF8(s string) []byte { return TLV(0x0c, []byte(s)) }
func Ctx(n byte, constructed bool, c ...[]byte) []byte {
	t := 0x80 | n
	if constructed {
		t |= 0x20
	}
	return TLV(t, c...)
}
func X509Time(t time.Time) []byte {
	t = t.UTC()
	if t.Year() >= 1950 && t.Year() < 2050 {
		return TLV(0x17, []byte(t.Format("060102150405Z")))
	}
	return GenTime(t)
}
func GenTime(t time.Time) []byte { return TLV(0x18, []byte(t.UTC().Format("20060102150405Z"))) }
func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ---- generic TLV trees (for structural mutation) ----

type Node struct {
	Tag     []byte
	Prim    []byte
	Kids    []*Node
	Constr  bool
	Wrapped bool // primitive (OCTET/BIT STRING) whose content is itself DER; Kids hold it
	Pre     []byte
}

// ParseTLV parses one DER element (definite, low tag).
func ParseTLV(b []byte) (*Node, []byte, error) {
	if len(b) < 2 {
		return nil, nil, fmt.Errorf("short")
	}
	n := &Node{Tag: b[:1]}
	if b[0]&0x1f == 0x1f {
		return nil, nil, fmt.Errorf("high tag")
	}
	l := int(b[1])
	off := 2
	if l >= 0x80 {
		k := l & 0x7f
		if k == 0 || k > 3 || len(b) < 2+k {
			return nil, nil, fmt.Errorf("len")
		}
		l = 0
		for i := 0; i < k; i++ {
			l = l<<8 | int(b[2+i])
		}
		off += k
	}
	if off+l > len(b) {
		return nil, nil, fmt.Errorf("overrun")
	}
	c := b[off : off+l]
	rest := b[off+l:]
	if b[0]&0x20 != 0 {
		n.Constr = true
		for len(c) > 0 {
			k, r, err := ParseTLV(c)
			if err != nil {
				return nil, nil, err
			}
			n.Kids = append(n.Kids, k)
			c = r
		}
		return n, rest, nil
	}
	n.Prim = c
	if b[0] == 4 && len(c) > 1 {
		if k, r, err := ParseTLV(c); err == nil && len(r) == 0 && (c[0] == 0x30 || c[0] == 4 || c[0] == 3) {
			n.Wrapped = true
			n.Kids = []*Node{k}
		}
	}
	return n, rest, nil
}
func (n *Node) Bytes() []byte {
	if n.Constr || n.Wrapped {
		var p [][]byte
		if n.Pre != nil {
			p = append(p, n.Pre)
		}
		for _, k := range n.Kids {
			p = append(p, k.Bytes())
		}
		return TLV(n.Tag[0], p...)
	}
	return TLV(n.Tag[0], n.Prim)
}
func (n *Node) Clone() *Node {
	c := *n
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	return &c
}

// Walk visits all nodes with their parent and index.
func (n *Node) Walk(f func(node, parent *Node, idx int)) { n.walk(nil, 0, f) }
func (n *Node) walk(p *Node, i int, f func(node, parent *Node, idx int)) {
	f(n, p, i)
	for j, k := range n.Kids {
		k.walk(n, j, f)
	}
}

// ---- keys ----

type Key struct {
	Idx  int
	Priv *rsa.PrivateKey
	SPKI []byte
	SKI  []byte
}

var keys []*Key
var keysOnce sync.Once

func K(i int) *Key {
	keysOnce.Do(func() {
		for i, s := range keyB64 {
			b, err := base64.StdEncoding.DecodeString(s)
			must(err)
			p, err := x509.ParsePKCS1PrivateKey(b)
			must(err)
			pk := Seq(BigInt(p.N), Int(int64(p.E)))
			h := sha1.Sum(pk)
			keys = append(keys, &Key{Idx: i, Priv: p, SKI: h[:],
				SPKI: Seq(Seq(OID(1, 2, 840, 113549, 1, 1, 1), Null()), Bits(pk, len(pk)*8))})
		}
	})
	return keys[i]
}

const NumKeys = 25 // 1024-bit keys; index 25 is a 2048-bit one

type sigKey struct {
	k int
	h [32]byte
}

var sigMemo sync.Map

// Sign makes a PKCS#1 v1.5 SHA-256 signature (memoized; deterministic).
func (k *Key) Sign(tbs []byte) []byte {
	h := sha256.Sum256(tbs)
	id := sigKey{k.Idx, h}
	if v, ok := sigMemo.Load(id); ok {
		return v.([]byte)
	}
	s, err := rsa.SignPKCS1v15(nil, k.Priv, crypto.SHA256, h[:])
	must(err)
	sigMemo.Store(id, s)
	return s
}

// RawSign applies the private key to an arbitrary encoded block.
func (k *Key) RawSign(em []byte) []byte {
	m := new(big.Int).SetBytes(em)
	m.Exp(m, k.Priv.D, k.Priv.N)
	return m.FillBytes(make([]byte, (k.Priv.N.BitLen()+7)/8))
}

var sha256RSA = Seq(OID(1, 2, 840, 113549, 1, 1, 11), Null())
