package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/des"

	gxcrypto "github.com/vipally/gx/crypto"
	gxaes "github.com/vipally/gx/crypto/aes"
	"github.com/vipally/gx/crypto/ecb"
	"vp/mon"
)

const guard = 0xA7

// guarded returns n random bytes inside a larger buffer whose spare capacity
// holds guard bytes, and a function that reports what has been disturbed.
func guarded(data []byte, spare int) (b []byte, intact func() string) {
	whole := make([]byte, len(data)+spare)
	copy(whole, data)
	for i := len(data); i < len(whole); i++ {
		whole[i] = guard
	}
	keep := append([]byte(nil), whole...)
	return whole[:len(data)], func() string {
		if !bytes.Equal(whole[:len(data)], keep[:len(data)]) {
			return "the caller's input bytes changed"
		}
		if !bytes.Equal(whole, keep) {
			return "the spare capacity behind the caller's input was written"
		}
		return ""
	}
}

// payload draws data with the shapes that matter to paddings: zeros, bytes that
// look like padding, multi-byte and invalid UTF-8, block multiples.
func payload(r *mon.Rand, n int) []byte {
	b := r.Bytes(n)
	switch r.Intn(8) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1: // a tail that looks like padding
		k := r.Range(1, 20)
		for i := 0; i < k && i < n; i++ {
			b[n-1-i] = byte(k)
		}
	case 2: // trailing zeros
		for i, k := 0, r.Range(1, 20); i < k && i < n; i++ {
			b[n-1-i] = 0
		}
	case 3: // small values
		for i := range b {
			b[i] %= 3
		}
	case 4: // bytes of broken UTF-8
		for i := range b {
			b[i] = []byte{0xC0, 0x80, 0xE4, 0xBD, 0xA0, 0xFF, 0xED}[r.Intn(7)]
		}
	}
	return b
}

func noTrailingZero(r *mon.Rand, b []byte) []byte {
	if n := len(b); n > 0 && b[n-1] == 0 {
		b[n-1] = byte(r.Range(1, 255))
	}
	return b
}

func checkPad(c *mon.Case, name string, in []byte, bs int, out []byte, fill func(i, pad int) byte) {
	c.Assert(len(out)%bs == 0, "%s(len %d, block %d): padded length %d is no multiple of the block", name, len(in), bs, len(out))
	pad := len(out) - len(in)
	c.Assert(pad >= 1 && pad <= bs, "%s(len %d, block %d): %d bytes of padding, expected 1..%d", name, len(in), bs, pad, bs)
	c.Assert(bytes.Equal(out[:len(in)], in), "%s(len %d, block %d): the padded data does not begin with the input", name, len(in), bs)
	for i := len(in); i < len(out); i++ {
		if w := fill(i-len(in), pad); out[i] != w {
			c.Failf("%s(len %d, block %d): padding byte %d is %d, expected %d", name, len(in), bs, i-len(in), out[i], w)
		}
	}
	c.Seen(mon.HashInit.Str(name).Add(uint64(len(in))).Add(uint64(bs)))
	c.Count(name, 1)
}

func runPad(c *mon.Case, n, bs int) {
	r := c.R
	data := payload(r, n)
	spare := r.Intn(300)
	zf := func(i, pad int) byte { return 0 }
	pf := func(i, pad int) byte { return byte(pad) }
	type pk struct {
		name string
		pad  func([]byte, int) []byte
		unp  func([]byte) []byte
		fill func(int, int) byte
	}
	for _, k := range []pk{
		{"ZeroPadding", gxcrypto.ZeroPadding, gxcrypto.ZeroUnPadding, zf},
		{"PKCS5Padding", gxcrypto.PKCS5Padding, gxcrypto.PKCS5UnPadding, pf},
		{"PKCS7Padding", gxaes.PKCS7Padding, gxaes.PKCS7Unpadding, pf},
		{"PKCS7PaddingString", func(b []byte, bs int) []byte { return gxaes.PKCS7PaddingString(string(b), bs) }, gxaes.PKCS7Unpadding, pf},
	} {
		b, intact := guarded(data, spare)
		c.Logf("%s of %d bytes (spare %d) to blocks of %d", k.name, n, spare, bs)
		out := k.pad(b, bs)
		if m := intact(); m != "" {
			c.Failf("%s(len %d, block %d): %s", k.name, n, bs, m)
		}
		checkPad(c, k.name, data, bs, out, k.fill)
		// padding again from the same buffer gives the same answer, also
		// after another padding has been put beside it
		out2 := k.pad(b, bs)
		c.Assert(bytes.Equal(out, out2), "%s(len %d, block %d): two calls differ", k.name, n, bs)
		if len(out2) > len(data) {
			out2[len(out2)-1] ^= 0xff
			c.Assert(out[len(out)-1] == k.fill(len(out)-1-n, len(out)-n), "%s(len %d, block %d): two results share their padding", k.name, n, bs)
		}
		want := data
		if k.name == "ZeroPadding" {
			want = bytes.TrimRight(data, "\x00")
		}
		dup := append([]byte(nil), out...)
		got := k.unp(dup)
		c.Assert(bytes.Equal(got, want), "%s(len %d, block %d): unpadding the padded data gives %d bytes that are not the input", k.name, n, bs, len(got))
		c.Assert(bytes.Equal(dup, out), "%s(len %d, block %d): unpadding changed the padded data", k.name, n, bs)
	}
	c.Eval(3)
}

func init() {
	mon.Register(&mon.Prop{ID: "C22",
		Rule: "one evaluation = one padding of one buffer with one block size, its guarded surroundings and the unpadding of the result; distinct = distinct (function, length, block size)",
		Sections: []mon.Section{
			{Name: "grid", Quick: 255, Thorough: 255, Exhaustive: true, Run: func(c *mon.Case) {
				bs := c.Idx + 1
				for n := 0; n <= 2*bs+1; n++ {
					if bs > 40 && n > 20 && n < bs-3 && n%7 != 0 {
						continue
					}
					runPad(c, n, bs)
				}
				c.Sample("block size %d, lengths 0..%d", bs, 2*bs+1)
			}},
			{Name: "random", Quick: 3000, Thorough: 60000, Run: func(c *mon.Case) {
				runPad(c, c.R.Sizes(5000, 60, 200000), c.R.Range(1, 255))
			}},
			{Name: "large", Quick: 8, Thorough: 100, Run: func(c *mon.Case) {
				n := c.R.Sizes(0, 1, 1<<21)
				if c.Idx%4 == 0 {
					n = 1<<24 + c.R.Range(-20, 20)
				}
				runPad(c, n+1, c.R.Range(1, 255))
			}},
		}})

	mon.Register(&mon.Prop{ID: "C23",
		Rule: "one evaluation = one message encrypted and decrypted on a stateful pair; distinct = distinct (key size, message lengths so far)",
		Sections: []mon.Section{
			{Name: "stream", Quick: 2500, Thorough: 40000, Run: aesStream},
			{Name: "keys", Quick: 65, Thorough: 65, Exhaustive: true, Run: func(c *mon.Case) {
				key := c.R.Bytes(c.Idx)
				e, err1 := gxaes.NewAESEncrypter(key)
				d, err2 := gxaes.NewAESDecrypter(key)
				ok := c.Idx == 16 || c.Idx == 24 || c.Idx == 32
				if ok {
					c.Assert(err1 == nil && err2 == nil && e != nil && d != nil, "a key of %d bytes was refused: %v, %v", c.Idx, err1, err2)
				} else {
					c.Assert(err1 != nil && err2 != nil, "a key of %d bytes was accepted: %v, %v", c.Idx, err1, err2)
				}
				c.Seen(mon.HashInit.Add(uint64(c.Idx)).Add(7))
			}},
			{Name: "independent", Quick: 60, Thorough: 400, Run: aesConc},
		}})

	mon.Register(&mon.Prop{ID: "C24",
		Rule: "one evaluation = one buffer encrypted, compared with the standard library's cipher and decrypted; distinct = distinct (data length, key length, key bytes)",
		Sections: []mon.Section{
			{Name: "reference", Quick: 6000, Thorough: 120000, Run: tdesRef},
			{Name: "refuse", Quick: 600, Thorough: 6000, Run: func(c *mon.Case) {
				n := c.R.Sizes(200, 20, 70000)
				if n%8 == 0 && n > 0 && c.R.Bool() {
					n++
				}
				b := c.R.Bytes(n)
				key := c.R.Bytes(c.R.Intn(40))
				out, err := ecb.TripleDesDecrypt(b, key)
				if n == 0 || n%8 != 0 {
					c.Assert(err != nil, "decrypting %d bytes, which are no whole blocks, gave %d bytes and no error", n, len(out))
					c.Assert(len(out) == 0, "decrypting %d bytes gave an error and %d bytes", n, len(out))
				} else {
					c.Assert(err == nil, "decrypting %d bytes: %v", n, err)
				}
				c.Seen(mon.HashInit.Add(uint64(n)).Add(uint64(len(key))).Add(9))
			}},
			{Name: "concurrent", Quick: 60, Thorough: 400, Run: tdesConc},
		}})
}

// refCBC is the independent reference: AES in CBC mode, the first block of the
// key as initial vector, PKCS7 padding, one chain over all messages.
type refCBC struct{ m cipher.BlockMode }

func newRef(key []byte) *refCBC {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	return &refCBC{cipher.NewCBCEncrypter(b, append([]byte(nil), key[:16]...))}
}

func (m *refCBC) enc(b []byte) []byte {
	p := 16 - len(b)%16
	x := append(append([]byte(nil), b...), bytes.Repeat([]byte{byte(p)}, p)...)
	m.m.CryptBlocks(x, x)
	return x
}

func aesStream(c *mon.Case) {
	r := c.R
	key := r.Bytes([]int{16, 24, 32}[r.Intn(3)])
	keyKeep := append([]byte(nil), key...)
	e, err := gxaes.NewAESEncrypter(key)
	c.Assert(err == nil, "NewAESEncrypter: %v", err)
	d, err := gxaes.NewAESDecrypter(key)
	c.Assert(err == nil, "NewAESDecrypter: %v", err)
	ref := newRef(key)
	if r.Bool() { // the caller may reuse its key buffer
		c.Assert(bytes.Equal(key, keyKeep), "the key was modified")
		r.Fill(key)
		c.Count("key buffer reused", 1)
	}
	h := mon.HashInit.Add(uint64(len(key)))
	var outs, msgs, wants [][]byte
	n := r.Range(1, 12)
	if r.Intn(50) == 0 {
		n = r.Range(100, 400)
	}
	for i := 0; i < n; i++ {
		msg := payload(r, r.Sizes(600, 200, 200000))
		if r.Intn(4000) == 0 {
			msg = payload(r, 1<<20+r.Sizes(2000, 3, 3<<20))
		}
		if r.Intn(3) == 0 {
			msg = payload(r, 16*r.Intn(5))
		} else if r.Intn(40) == 0 { // about whole pages, the padding included or not
			msg = payload(r, 1024*r.Range(1, 40)+r.Range(-18, 2))
		}
		b, intact := guarded(msg, r.Intn(40))
		var ct []byte
		if r.Bool() {
			ct = e.Encrypt(b)
		} else {
			ct = e.EncryptString(string(b))
		}
		if m := intact(); m != "" {
			c.Failf("Encrypt of message %d: %s", i, m)
		}
		want := ref.enc(msg)
		c.Logf("message %d: %d bytes", i, len(msg))
		c.Assert(bytes.Equal(ct, want), "message %d (%d bytes, key of %d): the ciphertext is not that of AES-CBC with PKCS7 padding", i, len(msg), len(key))
		outs, msgs, wants = append(outs, ct), append(msgs, msg), append(wants, want)
		h = h.Add(uint64(len(msg)))
		c.Seen(h)
	}
	var plains [][]byte
	for i := range outs {
		c.Assert(bytes.Equal(outs[i], wants[i]), "ciphertext %d changed after later messages", i)
		b, intact := guarded(outs[i], r.Intn(40))
		var pt []byte
		if r.Bool() {
			pt = d.Decrypt(b)
		} else {
			pt = []byte(d.DecryptToString(b))
		}
		if m := intact(); m != "" {
			c.Failf("Decrypt of message %d: %s", i, m)
		}
		c.Assert(bytes.Equal(pt, msgs[i]), "message %d (%d bytes, key of %d) does not decrypt to what was encrypted", i, len(msgs[i]), len(keyKeep))
		plains = append(plains, pt)
	}
	for i := range plains {
		c.Assert(bytes.Equal(plains[i], msgs[i]), "the plain text of message %d changed after later messages", i)
	}
	c.Eval(n)
	c.Count("messages", n)
	c.Sample("key of %d bytes, %d messages of %v bytes", len(keyKeep), n, lens(msgs))
}

func lens(m [][]byte) (l []int) {
	for _, x := range m {
		l = append(l, len(x))
	}
	return
}

// aesConc: pairs used by different goroutines do not disturb each other.
func aesConc(c *mon.Case) {
	key := c.R.Bytes([]int{16, 24, 32}[c.R.Intn(3)])
	for g := 0; g < 4; g++ {
		r := mon.NewRand(c.R.U64())
		c.Go(func() {
			e, _ := gxaes.NewAESEncrypter(key)
			d, _ := gxaes.NewAESDecrypter(key)
			ref := newRef(key)
			for i := 0; i < 30; i++ {
				m := payload(r, r.Intn(200))
				ct := e.Encrypt(m)
				c.Assert(bytes.Equal(ct, ref.enc(m)), "an independent encrypter was disturbed by another")
				c.Assert(bytes.Equal(d.Decrypt(ct), m), "an independent decrypter was disturbed by another")
			}
		})
	}
	c.Wait()
	c.Count("concurrent messages", 120)
	c.Eval(120)
}

func ref3des(key []byte, data []byte) []byte {
	k := make([]byte, 24)
	copy(k, key)
	b, err := des.NewTripleDESCipher(k)
	if err != nil {
		panic(err)
	}
	n := (len(data)/8 + 1) * 8
	p := make([]byte, n)
	copy(p, data)
	for i := 0; i < n; i += 8 {
		b.Encrypt(p[i:], p[i:i+8])
	}
	return p
}

func one3des(c *mon.Case, r *mon.Rand) {
	data := noTrailingZero(r, payload(r, r.Sizes(800, 200, 100000)))
	if r.Intn(800) == 0 {
		data = noTrailingZero(r, payload(r, 1<<20+r.Sizes(2000, 3, 3<<20)))
	}
	if r.Intn(60) == 0 { // about whole pages, the padding included or not
		data = noTrailingZero(r, payload(r, 1024*r.Range(1, 40)+r.Range(-10, 2)))
	}
	zeros := false
	if r.Intn(6) == 0 {
		data = payload(r, r.Size(200))
		zeros = len(data) > 0 && data[len(data)-1] == 0
	}
	key := r.Bytes([]int{24, 24, 24, 16, 8, r.Intn(64)}[r.Intn(6)])
	if r.Intn(12) == 0 { // the same block again and again, the padded last one included
		k := r.Range(1, 8)
		blk := append(noTrailingZero(r, r.Bytes(k)), make([]byte, 8-k)...)
		n := r.Sizes(6, 2, 3000)
		data = append(bytes.Repeat(blk, n), blk[:k]...)
		zeros = false
	}
	if r.Intn(8) == 0 && len(key) >= 8 { // parts of the key alike, or weak
		switch r.Intn(3) {
		case 0:
			if len(key) >= 16 {
				copy(key[8:16], key)
			}
		case 1:
			if len(key) >= 24 {
				copy(key[16:24], key[8*r.Intn(2):])
			}
		case 2:
			v := []byte{0, 1, 0xfe, 0xff, 0x1f, 0xe0}[r.Intn(6)]
			for i := range key {
				key[i] = v
			}
		}
	}
	b, intact := guarded(data, r.Intn(40))
	k, kIntact := guarded(key, r.Intn(40))
	ct, err := ecb.TripleDesEncrypt(b, k)
	c.Assert(err == nil, "encrypting %d bytes with a key of %d: %v", len(data), len(key), err)
	if m := intact(); m != "" {
		c.Failf("TripleDesEncrypt: %s", m)
	}
	want := ref3des(key, data)
	c.Assert(bytes.Equal(ct, want), "encrypting %d bytes with a key of %d: the ciphertext is not that of 3DES-EDE in ECB mode with zero padding", len(data), len(key))
	cb, cIntact := guarded(ct, r.Intn(40))
	pt, err := ecb.TripleDesDecrypt(cb, k)
	c.Assert(err == nil, "decrypting %d bytes: %v", len(ct), err)
	if m := cIntact(); m != "" {
		c.Failf("TripleDesDecrypt: %s", m)
	}
	if m := kIntact(); m != "" {
		c.Failf("3DES key: %s", m)
	}
	exp := bytes.TrimRight(data, "\x00")
	c.Assert(bytes.Equal(pt, exp), "%d bytes with a key of %d do not decrypt to what was encrypted (%d bytes back)", len(data), len(key), len(pt))
	if zeros {
		c.Count("data with trailing zeros", 1)
	}
	c.Count("round trips", 1)
	c.Seen(mon.HashInit.Add(uint64(len(data))).Bytes(key))
	c.Sample("%d bytes, key of %d bytes", len(data), len(key))
}

func tdesRef(c *mon.Case) { one3des(c, c.R) }

func tdesConc(c *mon.Case) {
	for g := 0; g < 4; g++ {
		r := mon.NewRand(c.R.U64())
		c.Go(func() {
			for i := 0; i < 25; i++ {
				one3des(c, r)
			}
		})
	}
	c.Wait()
	c.Eval(100)
}
