package main

import (
	"crypto"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"time"
)

// CertSpec describes one certificate of a chain; times are seconds relative to a base.
type CertSpec struct {
	CN     string
	RSA    bool
	Key    int
	From   int
	To     int
	DNS    []string
	CA     bool
	Serial string // hex
	IP     bool   // also valid for 127.0.0.1
	EKU    string // "": server auth, none, client
}

func (c CertSpec) priv() crypto.Signer {
	if c.RSA {
		return rsaKeys[c.Key%len(rsaKeys)]
	}
	l := ecKeys["P-256"]
	return l[c.Key%len(l)]
}

// makeChain signs specs[i] with specs[i+1]; the last signs itself, unless signer is given.
func makeChain(specs []CertSpec, base time.Time) ([][]byte, error) {
	var out [][]byte
	for i, s := range specs {
		ser, ok := new(big.Int).SetString(s.Serial, 16)
		if !ok {
			ser = big.NewInt(int64(i + 1))
		}
		p := specs[min(i+1, len(specs)-1)]
		mk := func(x CertSpec) *x509.Certificate {
			return &x509.Certificate{Subject: pkix.Name{CommonName: x.CN}, SubjectKeyId: []byte(fmt.Sprintf("%v-%d-%s", x.RSA, x.Key, x.CN))}
		}
		t := mk(s)
		t.SerialNumber, t.NotBefore, t.NotAfter = ser, base.Add(time.Duration(s.From)*time.Second), base.Add(time.Duration(s.To)*time.Second)
		t.DNSNames, t.IsCA, t.BasicConstraintsValid = s.DNS, s.CA, true
		if s.IP {
			t.IPAddresses = []net.IP{net.IPv4(127, 0, 0, 1)}
		}
		if s.CA {
			t.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature
		} else {
			t.KeyUsage = x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment
			switch s.EKU {
			case "":
				t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
			case "client":
				t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
			}
		}
		b, err := x509.CreateCertificate(rand.Reader, t, mk(p), s.priv().Public(), p.priv())
		if err != nil {
			return nil, err
		}
		out = append(out, b)
	}
	return out, nil
}

func chainPEM(ders ...[]byte) string {
	s := ""
	for _, d := range ders {
		s += string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: d}))
	}
	return s
}

func keyPEM(c CertSpec) string {
	b, err := x509.MarshalPKCS8PrivateKey(c.priv())
	must(err)
	return string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: b}))
}

func tlsCertOf(c CertSpec, ders ...[]byte) tls.Certificate {
	return tls.Certificate{Certificate: ders, PrivateKey: c.priv()}
}

func poolOf(der []byte) *x509.CertPool {
	p := x509.NewCertPool()
	c, err := x509.ParseCertificate(der)
	must(err)
	p.AddCert(c)
	return p
}

const day = 86400

// stdChain is a leaf for j8a.test/localhost/127.0.0.1 signed by a root, good for 300 days.
func stdChain(rsa bool) []CertSpec {
	return []CertSpec{
		{CN: "j8a.test", RSA: rsa, Key: 0, From: -day, To: 300 * day, DNS: []string{"j8a.test", "localhost"}, IP: true, Serial: "0a0b0c"},
		{CN: "Verif Root", RSA: rsa, Key: 1, From: -2 * day, To: 900 * day, CA: true, Serial: "01"},
	}
}
