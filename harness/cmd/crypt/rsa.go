package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	stdrsa "crypto/rsa"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"encoding/pem"
	"math/big"
	"strings"
	"sync"

	"github.com/vipally/gx/crypto/rsa"
	"vp/mon"
)

type pair struct {
	bits      int
	pri, pub  []byte
	srv       *rsa.RsaServer
	cli       *rsa.RsaClient
	key       *stdrsa.PrivateKey
	blockSize int
}

var (
	pairs    []*pair
	pairOnce sync.Once
)

func mkPair(c *mon.Case, bits int) *pair {
	pri, pub, err := rsa.GenRsaKeys(bits)
	c.Assert(err == nil, "GenRsaKeys(%d): %v", bits, err)
	return loadPair(c, bits, pri, pub)
}

// foreignPair is a key pair made elsewhere: with another public exponent, or of
// more than two primes, and written with line ends, headers or text around.
func foreignPair(c *mon.Case, e int64, primes int) *pair {
	one := big.NewInt(1)
	for {
		k := &stdrsa.PrivateKey{}
		n, phi := big.NewInt(1), big.NewInt(1)
		for i := 0; i < primes; i++ {
			q, err := rand.Prime(rand.Reader, (1024+primes-1)/primes)
			if err != nil {
				panic(err)
			}
			k.Primes = append(k.Primes, q)
			n.Mul(n, q)
			phi.Mul(phi, new(big.Int).Sub(q, one))
		}
		d := new(big.Int).ModInverse(big.NewInt(e), phi)
		if d == nil || n.BitLen() < 1024 {
			continue
		}
		k.N, k.E, k.D = n, int(e), d
		if k.Validate() != nil {
			continue
		}
		k.Precompute()
		der, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
		if err != nil {
			panic(err)
		}
		return loadPair(c, n.BitLen(), pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)}),
			pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}))
	}
}

func loadPair(c *mon.Case, bits int, pri, pub []byte) *pair {
	var err error
	p := &pair{bits: bits, pri: pri, pub: pub}
	pb, rest := pem.Decode(pri)
	c.Assert(pb != nil && len(bytes.TrimSpace(rest)) == 0, "GenRsaKeys(%d): the private key is no single PEM block", bits)
	p.key, err = x509.ParsePKCS1PrivateKey(pb.Bytes)
	c.Assert(err == nil, "GenRsaKeys(%d): the private key is no PKCS1 key: %v", bits, err)
	c.Assert(p.key.Validate() == nil, "GenRsaKeys(%d): the private key does not validate", bits)
	c.Assert(p.key.N.BitLen() == bits, "GenRsaKeys(%d) made a key of %d bits", bits, p.key.N.BitLen())
	ub, rest := pem.Decode(pub)
	c.Assert(ub != nil && len(bytes.TrimSpace(rest)) == 0, "GenRsaKeys(%d): the public key is no single PEM block", bits)
	u, err := x509.ParsePKIXPublicKey(ub.Bytes)
	c.Assert(err == nil, "GenRsaKeys(%d): the public key is no PKIX key: %v", bits, err)
	up, ok := u.(*stdrsa.PublicKey)
	c.Assert(ok && up.E == p.key.E && up.N.Cmp(p.key.N) == 0, "GenRsaKeys(%d): the public key does not belong to the private key", bits)
	c.Assert(!bytes.Contains(pub, pri) && len(pub) < len(pri), "GenRsaKeys(%d): the public key carries the private key", bits)
	p.srv, err = rsa.NewServer(pri)
	c.Assert(err == nil && p.srv != nil, "NewServer of a generated key: %v", err)
	p.cli, err = rsa.NewClient(pub)
	c.Assert(err == nil && p.cli != nil, "NewClient of a generated key: %v", err)
	c.Assert(mon.Panics(func() { rsa.MustNewServer(pri); rsa.MustNewClient(pub) }) == nil, "MustNew* panicked on a generated key")
	p.blockSize = (bits + 7) / 8
	c.Count("keys generated", 1)
	c.Seen(mon.HashInit.Str("key").Bytes(pub))
	return p
}

// thePairs are made once per process: key generation is the slow part.
func thePairs(c *mon.Case) []*pair {
	if len(pairs) == 0 {
		for _, b := range []int{1024, 1024, 1032, 2048} {
			pairs = append(pairs, mkPair(c, b))
		}
		pairs = append(pairs, foreignPair(c, 3, 2), foreignPair(c, 1<<31-1, 2), foreignPair(c, 17, 2), foreignPair(c, 65537, 3))
	}
	return pairs
}

var hashes = []crypto.Hash{crypto.SHA512, crypto.SHA256, crypto.SHA1, crypto.MD5, crypto.SHA384, crypto.SHA224}

func rsaPair(c *mon.Case) {
	ps := thePairs(c)
	r := c.R
	p := ps[r.Intn(len(ps))]
	var q *pair
	for q == nil || q == p {
		q = ps[r.Intn(len(ps))]
	}
	max := p.blockSize - 11
	n := r.Intn(max + 1)
	if r.Intn(4) == 0 {
		n = []int{0, 1, max - 1, max}[r.Intn(4)]
	}
	msg := payload(r, n)
	b, intact := guarded(msg, r.Intn(30))
	ct, err := p.cli.Encrypt(b)
	c.Assert(err == nil, "encrypting %d bytes with %d bits: %v", n, p.bits, err)
	c.Assert(len(ct) == p.blockSize, "a ciphertext of %d bytes with a key of %d bits", len(ct), p.bits)
	cb, cIntact := guarded(ct, r.Intn(30))
	pt, err := p.srv.Decrypt(cb)
	c.Assert(err == nil && bytes.Equal(pt, msg), "%d bytes with %d bits do not decrypt to what was encrypted (%v)", n, p.bits, err)
	std, err := stdrsa.DecryptPKCS1v15(nil, p.key, ct)
	c.Assert(err == nil && bytes.Equal(std, msg), "the standard library cannot read the ciphertext: %v", err)
	if m := intact() + cIntact(); m != "" {
		c.Failf("Encrypt/Decrypt: %s", m)
	}
	if pt, err := q.srv.Decrypt(ct); err == nil && bytes.Equal(pt, msg) && n > 8 {
		c.Failf("another private key decrypts the message")
	}
	if ct2, err := p.cli.Encrypt(b); err == nil {
		c.Assert(!bytes.Equal(ct, ct2), "two encryptions of one message are equal")
	}
	// a ciphertext with something before or behind it, or cut, is none
	for _, x := range [][]byte{append(append([]byte(nil), ct...), r.Bytes(r.Range(1, 40))...), append(make([]byte, r.Range(1, 40)), ct...),
		append(append([]byte(nil), ct...), ct...), append(r.Bytes(r.Range(1, 300)), ct...), ct[:r.Intn(len(ct))]} {
		if pt, err := p.srv.Decrypt(x); err == nil && n > 8 && bytes.Equal(pt, msg) {
			if _, err := stdrsa.DecryptPKCS1v15(nil, p.key, x); err != nil {
				c.Failf("a ciphertext of %d bytes made %d bytes long decrypts, which it does not in the standard library", len(ct), len(x))
			}
		}
	}
	// too long a message is refused
	_, err = p.cli.Encrypt(r.Bytes(max + 1 + r.Intn(20)))
	c.Assert(err != nil, "a message longer than %d bytes was accepted by a key of %d bits", max, p.bits)

	// signatures
	data := payload(r, r.Sizes(2000, 20, 300000))
	if r.Intn(60) == 0 {
		data = payload(r, 1<<20+r.Range(1, 9)<<uint(r.Intn(20)))
	}
	h := hashes[r.Intn(len(hashes))]
	d, dIntact := guarded(data, r.Intn(30))
	var sg []byte
	if r.Bool() {
		h = crypto.SHA512
		sg, err = p.srv.SignDefault(d)
	} else {
		sg, err = p.srv.Sign(d, h)
	}
	c.Assert(err == nil, "signing with %v: %v", h, err)
	verify := func(cl *rsa.RsaClient, d, s []byte) error {
		if h == crypto.SHA512 && r.Bool() {
			return cl.VerifyDefault(d, s)
		}
		return cl.Verify(d, s, h)
	}
	c.Assert(verify(p.cli, d, sg) == nil, "a genuine signature (%v, %d bytes of data) was refused", h, len(data))
	hh := h.New()
	hh.Write(data)
	c.Assert(stdrsa.VerifyPKCS1v15(&p.key.PublicKey, h, hh.Sum(nil), sg) == nil, "the standard library refuses the signature (%v)", h)
	if m := dIntact(); m != "" {
		c.Failf("Sign/Verify: %s", m)
	}
	// tampering anywhere is noticed
	for t := 0; t < 4; t++ {
		d2, s2 := append([]byte(nil), data...), append([]byte(nil), sg...)
		what := ""
		switch k := r.Intn(6); {
		case k == 0 && len(d2) > 0:
			i := r.Intn(len(d2))
			d2[i] ^= 1 << uint(r.Intn(8))
			what = "a bit of the data flipped"
		case k == 1 && len(d2) > 0:
			d2 = d2[:r.Intn(len(d2))]
			what = "the data cut"
		case k == 2:
			d2 = append(d2, byte(r.Intn(2)*r.Intn(256)))
			what = "a byte appended to the data"
		case k == 3:
			s2 = s2[:r.Intn(len(s2))]
			what = "the signature cut"
		case k == 4:
			s2 = append(s2, byte(r.Intn(256)))
			what = "the signature extended"
		default:
			s2[r.Intn(len(s2))] ^= 1 << uint(r.Intn(8))
			what = "a bit of the signature flipped"
		}
		c.Assert(verify(p.cli, d2, s2) != nil, "a signature (%v) was accepted although %s", h, what)
		c.Count("tampered: "+what, 1)
	}
	c.Assert(verify(q.cli, d, sg) != nil, "a signature was accepted by another public key")
	other := hashes[r.Intn(len(hashes))]
	if other != h {
		c.Assert(p.cli.Verify(d, sg, other) != nil, "a %v signature was accepted as %v", h, other)
	}
	c.Eval(8)
	c.Seen(mon.HashInit.Add(uint64(n)).Add(uint64(p.bits)).Add(uint64(h)).Add(uint64(len(data))))
	c.Sample("%d bits, message of %d bytes, signature %v over %d bytes", p.bits, n, h, len(data))
}

func rsaBadKeys(c *mon.Case) {
	ps := thePairs(c)
	r := c.R
	p := ps[r.Intn(len(ps))]
	bad := func(what string, k []byte) {
		s, err := rsa.NewServer(k)
		c.Assert(err != nil, "NewServer accepted %s (%v)", what, s)
		c.MustPanic("MustNewServer of "+what, func() { rsa.MustNewServer(k) })
	}
	badC := func(what string, k []byte) {
		s, err := rsa.NewClient(k)
		c.Assert(err != nil, "NewClient accepted %s (%v)", what, s)
		c.MustPanic("MustNewClient of "+what, func() { rsa.MustNewClient(k) })
	}
	g := r.Bytes(r.Intn(400))
	bad("garbage", g)
	badC("garbage", g)
	bad("a public key", p.pub)
	badC("a private key", p.pri)
	bad("nothing", nil)
	badC("nothing", nil)
	for _, k := range [][]byte{p.pri, p.pub} {
		blk, _ := pem.Decode(k)
		der := append([]byte(nil), blk.Bytes...)
		bad("a key that is not in PEM form", der)
		badC("a key that is not in PEM form", der)
		b64 := []byte(base64.StdEncoding.EncodeToString(der))
		bad("a key in base64 only", b64)
		badC("a key in base64 only", b64)
		for _, cutp := range [][]byte{k[1:], k[:bytes.LastIndex(k, []byte("-----END"))], bytes.Replace(k, []byte("-----BEGIN"), []byte("----BEGIN"), 1)} {
			bad("a key with a broken PEM frame", cutp)
			badC("a key with a broken PEM frame", cutp)
		}
		der = der[:r.Intn(len(der))]
		cut := pem.EncodeToMemory(&pem.Block{Type: blk.Type, Bytes: der})
		bad("a truncated key", cut)
		badC("a truncated key", cut)
	}
	if ek, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader); err == nil {
		der, _ := x509.MarshalPKIXPublicKey(&ek.PublicKey)
		badC("an EC key", pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}))
	}
	c.Eval(9)
	c.Count("keys refused", 10)
	c.Seen(mon.HashInit.Str("bad").Bytes(g))
}

const codeKey = "ac643718-9730-e711-59210"

func rsaCode(c *mon.Case) {
	r := c.R
	src := noTrailingZero(r, payload(r, r.Sizes(500, 30, 100000)))
	b, intact := guarded(src, r.Intn(30))
	enc := rsa.Encode(b)
	c.Assert(enc != "", "Encode of %d bytes is empty", len(src))
	bin, err := base64.StdEncoding.DecodeString(enc)
	c.Assert(err == nil, "Encode gave no base64: %v", err)
	c.Assert(len(bin) == (len(src)/8+1)*8, "Encode of %d bytes gives %d bytes", len(src), len(bin))
	if len(src) > 8 {
		c.Assert(!bytes.Contains(bin, src[:8]), "Encode shows the plain text")
	}
	c.Assert(rsa.EncodeString(string(src)) == enc, "EncodeString and Encode differ")
	c.Assert(bytes.Equal(rsa.Decode(enc), src), "Decode(Encode(x)) is not x (%d bytes)", len(src))
	c.Assert(rsa.DecodeString(enc) == string(src), "DecodeString(Encode(x)) is not x (%d bytes)", len(src))
	// broken input is refused
	for _, bad := range []string{enc[:len(enc)-1], enc + "!", "*" + enc[1:], base64.StdEncoding.EncodeToString(bin[:len(bin)-1-r.Intn(6)]), ""} {
		c.Assert(len(rsa.Decode(bad)) == 0 && rsa.DecodeString(bad) == "", "Decode of the broken %q gives data", bad)
	}
	// hash
	var w bytes.Buffer
	for i := 0; i < 5; i++ {
		w.WriteString(codeKey)
		w.Write(src)
		w.WriteString(codeKey)
	}
	want := sha512.Sum512(w.Bytes())
	got := rsa.Hash(b)
	c.Assert(bytes.Equal(got, want[:]), "Hash of %d bytes is not the salted sha512", len(src))
	c.Assert(rsa.HashString(string(src)) == hex.EncodeToString(want[:]), "HashString of %d bytes is not the hex form of Hash", len(src))
	// hex
	hx := rsa.BytesToHexString(b)
	c.Assert(hx == hex.EncodeToString(src), "BytesToHexString is wrong for %d bytes", len(src))
	c.Assert(bytes.Equal(rsa.HexStringToBytes(hx), src) && bytes.Equal(rsa.HexStringToBytes(strings.ToUpper(hx)), src), "HexStringToBytes does not invert BytesToHexString")
	if len(hx) > 0 {
		i := r.Intn(len(hx))
		c.Assert(len(rsa.HexStringToBytes(hx[:i]+"g"+hx[i+1:])) == 0, "HexStringToBytes accepts a letter that is no hex digit")
		c.Assert(len(rsa.HexStringToBytes(hx[1:])) == 0, "HexStringToBytes accepts an odd number of digits")
	}
	if m := intact(); m != "" {
		c.Failf("Encode/Hash: %s", m)
	}
	c.Eval(12)
	c.Seen(mon.HashInit.Bytes(src))
	c.Sample("%d bytes -> %q", len(src), clipS(enc, 60))
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// rsaConc uses one server and client from several goroutines.
func rsaConc(c *mon.Case) {
	p := thePairs(c)[0]
	for g := 0; g < 4; g++ {
		r := mon.NewRand(c.R.U64())
		c.Go(func() {
			for i := 0; i < 6; i++ {
				m := r.Bytes(r.Intn(100))
				ct, err := p.cli.Encrypt(m)
				c.Assert(err == nil, "Encrypt: %v", err)
				pt, err := p.srv.Decrypt(ct)
				c.Assert(err == nil && bytes.Equal(pt, m), "concurrent round trip failed: %v", err)
				s, err := p.srv.SignDefault(m)
				c.Assert(err == nil && p.cli.VerifyDefault(m, s) == nil, "concurrent signature failed: %v", err)
				e := rsa.EncodeString(string(noTrailingZero(r, m)))
				c.Assert(rsa.DecodeString(e) == string(m), "concurrent Encode/Decode failed")
			}
		})
	}
	c.Wait()
	c.Eval(24)
	c.Count("concurrent round trips", 24)
}

func init() {
	mon.Register(&mon.Prop{ID: "C25",
		Rule: "one evaluation = one decided claim about a round trip, a signature, a refused key or text; distinct = distinct (key, hash, lengths) or texts",
		Sections: []mon.Section{
			{Name: "pair", Quick: 500, Thorough: 8000, Run: rsaPair, CPU: 60},
			{Name: "badkeys", Quick: 60, Thorough: 600, Run: rsaBadKeys, CPU: 60},
			{Name: "keygen", Quick: 6, Thorough: 48, CPU: 60, Run: func(c *mon.Case) {
				p := mkPair(c, []int{1024, 1025, 1151, 1536, 3072, 2047}[c.Idx%6])
				m := c.R.Bytes(50)
				ct, err := p.cli.Encrypt(m)
				c.Assert(err == nil, "Encrypt: %v", err)
				pt, err := p.srv.Decrypt(ct)
				c.Assert(err == nil && bytes.Equal(pt, m), "round trip with %d bits failed", p.bits)
				q := mkPair(c, p.bits)
				c.Assert(!bytes.Equal(p.pri, q.pri), "two generated keys are equal")
			}},
			{Name: "badsizes", Quick: 24, Thorough: 200, CPU: 60, Run: func(c *mon.Case) {
				bits := c.Idx - 8
				if c.Idx >= 16 {
					bits = -c.R.Range(1, 1<<20)
				}
				if c.Idx%8 == 7 {
					bits = c.R.Range(1, 600)
				}
				_, want := stdrsa.GenerateKey(rand.Reader, bits)
				pri, pub, err := rsa.GenRsaKeys(bits)
				if want != nil {
					c.Assert(err != nil && len(pri) == 0 && len(pub) == 0, "GenRsaKeys(%d) gives %d and %d bytes and the error %v for a size no key can have (%v)", bits, len(pri), len(pub), err, want)
					c.Count("impossible key sizes", 1)
				}
				c.Eval(1)
				c.Seen(mon.HashInit.Add(uint64(bits)))
			}},
			{Name: "code", Quick: 3000, Thorough: 60000, Run: rsaCode},
			{Name: "concurrent", Quick: 12, Thorough: 100, Run: rsaConc, CPU: 60},
		}})
}
