// Writes certificates for servers on the loopback address into a directory: an authority (ca.pem), and, each
// with its key, good, wrong (for another name), expired, future, self (signed by itself), stranger (signed by
// another authority).
package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"time"
)

func check(err error) {
	if err != nil {
		panic(err)
	}
}

var serial = int64(1)

func template(name string, from, to time.Time) *x509.Certificate {
	serial++
	return &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: from, NotAfter: to,
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, BasicConstraintsValid: true}
}

func write(path, kind string, der []byte) {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0600)
	check(err)
	check(pem.Encode(f, &pem.Block{Type: kind, Bytes: der}))
	check(f.Close())
}

func main() {
	dir := os.Args[1]
	check(os.MkdirAll(dir, 0755))
	now := time.Now()
	long, ago := now.Add(24*365*time.Hour), now.Add(-48*time.Hour)
	authority := func(name string) (*x509.Certificate, *ecdsa.PrivateKey) {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		check(err)
		t := template(name, ago.Add(-time.Hour), long)
		t.IsCA, t.KeyUsage, t.ExtKeyUsage = true, x509.KeyUsageCertSign, nil
		der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
		check(err)
		c, err := x509.ParseCertificate(der)
		check(err)
		return c, k
	}
	ca, cak := authority("authority")
	other, otherk := authority("another authority")
	write(filepath.Join(dir, "ca.pem"), "CERTIFICATE", ca.Raw)
	// an authority that signed nothing
	idle, _ := authority("idle authority")
	write(filepath.Join(dir, "idle.pem"), "CERTIFICATE", idle.Raw)
	for _, kind := range []string{"good", "wrong", "expired", "future", "self", "stranger"} {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		check(err)
		t := template(kind, ago, long)
		t.IPAddresses, t.DNSNames = []net.IP{net.ParseIP("127.0.0.1")}, []string{"localhost"}
		parent, pk := ca, cak
		switch kind {
		case "wrong":
			t.IPAddresses, t.DNSNames = nil, []string{"elsewhere.example"}
		case "expired":
			t.NotAfter = now.Add(-24 * time.Hour)
		case "future":
			t.NotBefore = now.Add(24 * time.Hour)
		case "self":
			parent, pk = t, k
		case "stranger":
			parent, pk = other, otherk
		}
		der, err := x509.CreateCertificate(rand.Reader, t, parent, &k.PublicKey, pk)
		check(err)
		p := filepath.Join(dir, kind+".pem")
		write(p, "CERTIFICATE", der)
		kb, err := x509.MarshalPKCS8PrivateKey(k)
		check(err)
		write(p, "PRIVATE KEY", kb)
	}
}
