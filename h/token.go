package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"hash"
	"math/big"
	"strings"
	"time"
)

// JWT tooling of the harness: signs with the standard library only.

var jwtAlgs = []string{"RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "HS256", "HS384", "HS512", "ES256", "ES384", "ES512"}

var rsaKeys, ecKeys = func() (r []*rsa.PrivateKey, e map[string][]*ecdsa.PrivateKey) {
	e = map[string][]*ecdsa.PrivateKey{}
	parse := func(s string) any {
		p, _ := pem.Decode([]byte(s))
		k, err := x509.ParsePKCS8PrivateKey(p.Bytes)
		if err != nil {
			panic(err)
		}
		return k
	}
	for _, s := range rsaPEM {
		r = append(r, parse(s).(*rsa.PrivateKey))
	}
	for c, l := range ecPEM {
		for _, s := range l {
			e[c] = append(e[c], parse(s).(*ecdsa.PrivateKey))
		}
	}
	return
}()

var ecCurve = map[string]string{"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}

const nKeys = 4

func hsSecret(i int) string {
	odd := ""
	switch i { // what a secret may well hold
	case 2:
		odd = `$HOME-${PATH}-$$-$1-%s-%2B-"q"-`
	case 3:
		odd = `{{.x}}-&amp;-# : 'q'-\n\\-é-<b>-`
	}
	return fmt.Sprintf("secret-%d-%s%s", i, odd, strings.Repeat("abcdefgh", 2+i*3))
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func hashOf(alg string) (func() hash.Hash, crypto.Hash) {
	switch alg[2:] {
	case "384":
		return sha512.New384, crypto.SHA384
	case "512":
		return sha512.New, crypto.SHA512
	}
	return sha256.New, crypto.SHA256
}

func privKey(alg string, i int) any {
	switch alg[:2] {
	case "RS", "PS":
		return rsaKeys[i%len(rsaKeys)]
	case "ES":
		l := ecKeys[ecCurve[alg]]
		return l[i%len(l)]
	}
	return []byte(hsSecret(i))
}

func pubKey(alg string, i int) any {
	switch k := privKey(alg, i).(type) {
	case *rsa.PrivateKey:
		return &k.PublicKey
	case *ecdsa.PrivateKey:
		return &k.PublicKey
	default:
		return k
	}
}

// jwsSign signs with an arbitrary key (for HMAC a byte slice).
func jwsSign(alg string, key any, input []byte) []byte {
	if strings.EqualFold(alg, "none") {
		return nil
	}
	hf, ch := hashOf(alg)
	if alg[:2] == "HS" {
		m := hmac.New(hf, key.([]byte))
		m.Write(input)
		return m.Sum(nil)
	}
	h := hf()
	h.Write(input)
	d := h.Sum(nil)
	switch alg[:2] {
	case "RS":
		s, err := rsa.SignPKCS1v15(rand.Reader, key.(*rsa.PrivateKey), ch, d)
		must(err)
		return s
	case "PS":
		s, err := rsa.SignPSS(rand.Reader, key.(*rsa.PrivateKey), ch, d, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
		must(err)
		return s
	}
	k := key.(*ecdsa.PrivateKey)
	r, s, err := ecdsa.Sign(rand.Reader, k, d)
	must(err)
	n := (k.Curve.Params().BitSize + 7) / 8
	out := make([]byte, 2*n)
	r.FillBytes(out[:n])
	s.FillBytes(out[n:])
	return out
}

func mkToken(hdr, claims map[string]any, alg string, key any) string {
	h, _ := json.Marshal(hdr)
	c, _ := json.Marshal(claims)
	in := b64(h) + "." + b64(c)
	return in + "." + b64(jwsSign(alg, key, []byte(in)))
}

func pubPEM(alg string, i int, kind string) string {
	pub := pubKey(alg, i)
	if kind == "cert" {
		priv := privKey(alg, i)
		tpl := &x509.Certificate{SerialNumber: big.NewInt(int64(i) + 1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Unix(900000000, 0), NotAfter: time.Unix(4000000000, 0)}
		b, err := x509.CreateCertificate(rand.Reader, tpl, tpl, pub, priv)
		must(err)
		return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: b}))
	}
	b, err := x509.MarshalPKIXPublicKey(pub)
	must(err)
	t := "PUBLIC KEY"
	if kind == "rsapub" && alg[0] != 'E' {
		t = "RSA PUBLIC KEY"
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: t, Bytes: b}))
}

func jwkOf(alg string, i int, kid string) map[string]any {
	m := map[string]any{"alg": alg, "use": "sig"}
	if kid != "" {
		m["kid"] = kid
	}
	switch k := pubKey(alg, i).(type) {
	case *rsa.PublicKey:
		m["kty"], m["n"], m["e"] = "RSA", b64(k.N.Bytes()), b64(big.NewInt(int64(k.E)).Bytes())
	case *ecdsa.PublicKey:
		n := (k.Curve.Params().BitSize + 7) / 8
		m["kty"], m["crv"], m["x"], m["y"] = "EC", k.Curve.Params().Name, b64(k.X.FillBytes(make([]byte, n))), b64(k.Y.FillBytes(make([]byte, n)))
	}
	return m
}

func jwksDoc(keys ...map[string]any) string {
	b, _ := json.Marshal(map[string]any{"keys": keys})
	return string(b)
}

func base64RawURL(s string) ([]byte, error) { return base64.RawURLEncoding.DecodeString(s) }
