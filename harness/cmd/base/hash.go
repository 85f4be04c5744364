package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	stdhash "hash"
	"hash/crc32"
	"hash/crc64"
	"io"

	"github.com/vipally/gx/hash"
	"vp/mon"
)

var iso = crc64.MakeTable(crc64.ISO)

// refFingerprint is the fingerprint of data of the given size, from scratch.
func refFingerprint(data []byte, size uint64) []byte {
	var s [8]byte
	binary.BigEndian.PutUint64(s[:], size)
	a, b := md5.Sum(data), sha1.Sum(data)
	var c [8]byte
	binary.BigEndian.PutUint64(c[:], crc64.Checksum(data, iso))
	var out []byte
	out = append(out, s[2:]...)
	out = append(out, a[4:10]...)
	out = append(out, b[7:13]...)
	return append(out, c[1:7]...)
}

type method struct {
	m    hash.HashMethod
	name string
	ref  func([]byte) []byte
}

var methods = []method{
	{hash.MD5, "MD5", func(b []byte) []byte { x := md5.Sum(b); return x[:] }},
	{hash.SHA1, "SHA1", func(b []byte) []byte { x := sha1.Sum(b); return x[:] }},
	{hash.SHA256, "SHA256", func(b []byte) []byte { x := sha256.Sum256(b); return x[:] }},
	{hash.SHA512, "SHA512", func(b []byte) []byte { x := sha512.Sum512(b); return x[:] }},
	{hash.CRC32, "CRC32", func(b []byte) []byte {
		var x [4]byte
		binary.BigEndian.PutUint32(x[:], crc32.ChecksumIEEE(b))
		return x[:]
	}},
	{hash.CRC64, "CRC64", func(b []byte) []byte {
		var x [8]byte
		binary.BigEndian.PutUint64(x[:], crc64.Checksum(b, iso))
		return x[:]
	}},
	{hash.FINGERPRINT, "FINGERPRINT", func(b []byte) []byte { return refFingerprint(b, uint64(len(b))) }},
}

// hashContract drives one hash object through a random history of writes, sums
// and resets, comparing with the digest of everything written since the reset.
func hashContract(c *mon.Case, h stdhash.Hash, ref func([]byte) []byte, name string) {
	r := c.R
	var acc []byte
	ops := r.Range(2, 20)
	for k := 0; k < ops; k++ {
		switch r.Intn(7) {
		case 0, 1, 2:
			p := r.Bytes(r.Sizes(3000, 100, 200000))
			q := append([]byte(nil), p...)
			n, err := h.Write(p)
			if n != len(p) || err != nil {
				c.Failf("%s: Write of %d bytes = %d, %v", name, len(p), n, err)
			}
			if !bytes.Equal(p, q) {
				c.Failf("%s: Write changed the bytes it was given", name)
			}
			for i := range p { // Write must not keep the caller's slice
				p[i] = 0xAA
			}
			acc = append(acc, q...)
			c.Logf("write %d bytes", len(q))
		case 3:
			h.Reset()
			acc = acc[:0:0]
			c.Logf("reset")
		case 4: // streaming through io.Copy in odd pieces
			p := r.Bytes(r.Sizes(5000, 100, 300000))
			n, err := io.CopyBuffer(struct{ io.Writer }{h}, struct{ io.Reader }{bytes.NewReader(p)}, make([]byte, 1+r.Sizes(700, 5, 100000)))
			if int(n) != len(p) || err != nil {
				c.Failf("%s: copying %d bytes in = %d, %v", name, len(p), n, err)
			}
			acc = append(acc, p...)
			c.Logf("copy %d bytes", len(p))
		default:
			pre := r.Bytes(r.Intn(9))
			b := make([]byte, len(pre), len(pre)+r.Intn(100))
			copy(b, pre)
			s := h.Sum(b)
			want := append(append([]byte(nil), pre...), ref(acc)...)
			c.Logf("sum = %x", s)
			if !bytes.Equal(s, want) {
				c.Failf("%s: Sum after %d bytes appended %x, want %x", name, len(acc), s[minInt(len(pre), len(s)):], ref(acc))
			}
			if !bytes.Equal(b, pre) {
				c.Failf("%s: Sum changed the prefix it was given", name)
			}
			if s2 := h.Sum(nil); !bytes.Equal(s2, ref(acc)) {
				c.Failf("%s: a second Sum gives another digest", name)
			}
			if h.Size() != len(ref(acc)) {
				c.Failf("%s: Size=%d, the digest has %d bytes", name, h.Size(), len(ref(acc)))
			}
			c.Count("digests compared", 2)
		}
	}
	if s := h.Sum(nil); !bytes.Equal(s, ref(acc)) {
		c.Failf("%s: final Sum after %d bytes is %x, want %x", name, len(acc), s, ref(acc))
	}
	if h.BlockSize() < 0 {
		c.Failf("%s: BlockSize=%d", name, h.BlockSize())
	}
	c.Eval(ops)
	c.Seen(mon.HashInit.Str(name).Bytes(acc).Add(uint64(ops)))
	c.Sample("%s: %d steps, %d bytes since the last reset", name, ops, len(acc))
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func hashString(c *mon.Case) {
	r := c.R
	b := r.Bytes(r.Sizes(2000, 100, 200000))
	if c.Idx%512 == 7 {
		b = r.Bytes(1000000 + r.Intn(9<<20))
	}
	if c.Idx == 100 {
		b = r.Bytes(1<<24 + r.Intn(1<<22))
	}
	for _, m := range methods {
		want := fmt.Sprintf("%x", m.ref(b))
		if got := m.m.StringHash(string(b)); got != want {
			c.Failf("%s.StringHash of %d bytes = %s, want %s", m.name, len(b), got, want)
		}
		wantL := fmt.Sprintf("%010d-%s", len(b), want)
		if got := m.m.StringHashL(string(b)); got != wantL {
			c.Failf("%s.StringHashL of %d bytes = %s, want %s", m.name, len(b), got, wantL)
		}
		h := hash.New(m.m)
		h.Write(b)
		if got := h.Sum(nil); !bytes.Equal(got, m.ref(b)) {
			c.Failf("New(%s): digest %x, want %x", m.name, got, m.ref(b))
		}
	}
	c.Eval(3 * len(methods))
	c.Seen(mon.HashInit.Bytes(b))
	c.Sample("%d bytes under %d methods", len(b), len(methods))
	bad := hash.HashMethod(8 + r.Intn(1000))
	c.MustPanic(fmt.Sprintf("New of unknown method %d", bad), func() { bad.New() })
	c.MustPanic(fmt.Sprintf("hash.New of unknown method %d", bad), func() { hash.New(bad) })
	c.MustPanic(fmt.Sprintf("StringHash of unknown method %d", bad), func() { bad.StringHash("x") })
	c.MustPanic(fmt.Sprintf("StringHashL of unknown method %d", bad), func() { bad.StringHashL("x") })
}

// independent: two objects of a method must not share state.
func hashIndependent(c *mon.Case) {
	r := c.R
	m := methods[c.Idx%len(methods)]
	a, b := m.m.New(), m.m.New()
	var da, db []byte
	for k := 0; k < 6; k++ {
		p := r.Bytes(r.Sizes(200, 50, 70000))
		if r.Bool() {
			a.Write(p)
			da = append(da, p...)
		} else {
			b.Write(p)
			db = append(db, p...)
		}
	}
	if !bytes.Equal(a.Sum(nil), m.ref(da)) || !bytes.Equal(b.Sum(nil), m.ref(db)) {
		c.Failf("%s: two objects used in turns give wrong digests", m.name)
	}
	a.Reset()
	if !bytes.Equal(b.Sum(nil), m.ref(db)) {
		c.Failf("%s: resetting one object changed another", m.name)
	}
	c.Seen(mon.HashInit.Str(m.name).Bytes(da).Bytes(db))
}

// hashConcurrent: goroutines make and use hashes of all methods at once.
func hashConcurrent(c *mon.Case) {
	start := make(chan bool)
	for g := 0; g < 4; g++ {
		r := mon.NewRand(c.R.U64())
		c.Go(func() {
			<-start
			for k := 0; k < 14; k++ {
				m := methods[r.Intn(len(methods))]
				b := r.Bytes(r.Size(2000))
				h := m.m.New()
				for x := b; len(x) > 0; {
					n := r.Range(1, len(x))
					h.Write(x[:n])
					x = x[n:]
				}
				if s := h.Sum(nil); !bytes.Equal(s, m.ref(b)) {
					c.Failf("%s beside other goroutines: digest of %d bytes is %x, want %x", m.name, len(b), s, m.ref(b))
				}
				if s, w := m.m.StringHash(string(b)), fmt.Sprintf("%x", m.ref(b)); s != w {
					c.Failf("%s beside other goroutines: StringHash of %d bytes is %s, want %s", m.name, len(b), s, w)
				}
				m.m.StringHashL(string(b))
			}
		})
	}
	close(start)
	c.Wait()
	c.Eval(4 * 14 * 2)
	c.Count("digests made concurrently", 4*14*2)
	c.Seen(mon.HashInit.Add(c.R.U64()))
}

func fingerprintCase(c *mon.Case) {
	r := c.R
	f := hash.NewFingerprint()
	data := r.Bytes(r.Sizes(4000, 200, 1<<20))
	for off := 0; off < len(data); {
		n := r.Range(1, len(data)-off)
		f.Write(data[off : off+n])
		off += n
	}
	check := func(size uint64) {
		want := refFingerprint(data, size&0xFFFFFFFFFFFF)
		if got := f.Sum(nil); !bytes.Equal(got, want) {
			c.Failf("fingerprint of %d bytes (size %d) = %x, want %x", len(data), size, got, want)
		}
		ws := fmt.Sprintf("%x-%x-%x-%x", want[:6], want[6:12], want[12:18], want[18:])
		if got := f.String(); got != ws {
			c.Failf("fingerprint text of %d bytes (size %d) = %s, want %s", len(data), size, got, ws)
		}
	}
	check(uint64(len(data)))
	if f.Hash() != stdhash.Hash(f) {
		c.Failf("Hash is another object")
	}
	sz := int64(r.U64() >> uint(1+r.Intn(40)))
	if r.Chance(1, 4) {
		sz = -sz
	}
	f.Resetsize(sz)
	check(uint64(sz))
	more := r.Bytes(r.Intn(50))
	f.Write(more)
	data = append(data, more...)
	check(uint64(sz) + uint64(len(more)))
	f.Reset()
	data = nil
	check(0)
	// a different content has a different fingerprint
	x := r.Bytes(r.Range(1, 300))
	y := append([]byte(nil), x...)
	switch r.Intn(3) {
	case 0:
		y[r.Intn(len(y))] ^= 1 << uint(r.Intn(8))
	case 1:
		y = append(y, 0)
	default:
		y = y[:len(y)-1]
	}
	f.Write(x)
	g := hash.NewFingerprint()
	g.Write(y)
	if bytes.Equal(f.Sum(nil), g.Sum(nil)) || f.String() == g.String() {
		c.Failf("two different contents of %d and %d bytes have one fingerprint", len(x), len(y))
	}
	c.Seen(mon.HashInit.Bytes(x).Add(uint64(sz)))
	c.Sample("content of %d bytes in pieces, size overridden to %d: %s", len(x), sz, f)
}

func init() {
	mon.Register(&mon.Prop{ID: "C13",
		Rule: "random contents of 0..3000 (one in 100: up to 200000) bytes under every method through every way to hash, and random histories of writes, sums and resets of its objects, against the standard library's digests; distinct = distinct content or history",
		Sections: []mon.Section{
			{Name: "string", Quick: 2500, Thorough: 200000, Run: hashString},
			{Name: "contract", Quick: 3500, Thorough: 200000, Run: func(c *mon.Case) {
				m := methods[c.Idx%len(methods)]
				hashContract(c, m.m.New(), m.ref, m.name)
			}},
			{Name: "concurrent", Quick: 200, Thorough: 4000, Run: hashConcurrent},
			{Name: "independent", Quick: 1400, Thorough: 50000, Run: hashIndependent},
		}})
	mon.Register(&mon.Prop{ID: "C14",
		Rule: "random contents in random pieces, size overrides, resets and near-equal contents, against a fingerprint composed from the standard digests; distinct = distinct content or history",
		Sections: []mon.Section{
			{Name: "fingerprint", Quick: 8000, Thorough: 400000, Run: fingerprintCase},
			{Name: "contract", Quick: 3000, Thorough: 200000, Run: func(c *mon.Case) {
				m := methods[6]
				hashContract(c, hash.NewFingerprint(), m.ref, m.name)
			}},
		}})
}
