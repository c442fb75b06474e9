package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/x509"
	"encoding/pem"
	"math/big"
)

// deterministic P-256 key pair for configurations where only a valid key is needed
var ecPubPEM = func() string {
	x, y := elliptic.P256().ScalarBaseMult(big.NewInt(0x1234567890abcdef).Bytes())
	b, err := x509.MarshalPKIXPublicKey(&ecdsa.PublicKey{Curve: elliptic.P256(), X: x, Y: y})
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
}()
