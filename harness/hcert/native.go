package hcert

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"os"
	"path/filepath"
	"time"

	vf "github.com/cybozu-go/moco/zzvf"
)

// Real certificates for native runs: certificate i is signed by CA i.

const ncert = 3

var (
	caPEM, certPEM, keyPEM [ncert][]byte
	caCert, leaf           [ncert]*x509.Certificate
	caKey                  [ncert]*ecdsa.PrivateKey
)

func must(err error) {
	if err != nil {
		vf.Unsupported(err.Error())
	}
}

func issue(cn string, names []string, ca int) (certP, keyP []byte, c *x509.Certificate) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: cn}, DNSNames: names,
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), KeyUsage: x509.KeyUsageDigitalSignature,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(rand.Reader, t, caCert[ca], &k.PublicKey, caKey[ca])
	must(err)
	kd, err := x509.MarshalECPrivateKey(k)
	must(err)
	c, err = x509.ParseCertificate(der)
	must(err)
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kd}), c
}

func mkcerts() {
	for i := 0; i < ncert; i++ {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		t := &x509.Certificate{SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: "ca" + string(rune('0'+i))},
			NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
		der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
		must(err)
		caKey[i] = k
		caCert[i], err = x509.ParseCertificate(der)
		must(err)
		caPEM[i] = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
		certPEM[i], keyPEM[i], leaf[i] = issue("moco-controller", nil, i)
	}
}

func bundle(mask byte) (b []byte) {
	for i := 0; i < ncert; i++ {
		if mask&(1<<i) != 0 {
			b = append(b, caPEM[i]...)
		}
	}
	return b
}

func put(dir, name string, have bool, b byte) {
	p := filepath.Join(dir, name)
	if vf.Symbolic() {
		if have {
			disk[p] = b
		} else {
			delete(disk, p)
		}
		return
	}
	if !have {
		os.Remove(p)
		return
	}
	var data []byte
	switch name {
	case "ca.crt":
		data = bundle(b)
	case "tls.crt":
		data = certPEM[b]
	case "tls.key":
		data = keyPEM[b]
	}
	must(os.WriteFile(p, data, 0o600))
}

func scratch() (string, func()) {
	if vf.Symbolic() {
		return "/certs", func() {}
	}
	mkcerts()
	d, err := os.MkdirTemp("", "hcert")
	must(err)
	return d, func() { os.RemoveAll(d) }
}

// poolIs tells whether the pool holds exactly the CAs of the mask.
func poolIs(p *x509.CertPool, mask byte) bool {
	if p == nil {
		return false
	}
	if vf.Symbolic() {
		return pools[p] == mask
	}
	want := x509.NewCertPool()
	want.AppendCertsFromPEM(bundle(mask))
	return p.Equal(want)
}

// certIs tells whether the DER is certificate v.
func certIs(der [][]byte, v byte) bool {
	if len(der) == 0 {
		return false
	}
	if vf.Symbolic() {
		return der[0][0] == v
	}
	return string(der[0]) == string(leaf[v].Raw)
}
