package hcert

import (
	"crypto/tls"
	"crypto/x509"
	"errors"
	"os"
	"path/filepath"

	vf "github.com/cybozu-go/moco/zzvf"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/keepalive"
)

// The stand-ins below replace files, PEM parsing and gRPC under the symbolic
// executor: a file is missing or holds one byte, a pool is the byte of its
// bundle, a certificate is the byte of its file.

var (
	disk  = map[string]byte{}
	pools = map[*x509.CertPool]byte{}

	// began is closed at the first read
	began chan struct{}
	reads int

	errTLS = errors.New("bad certificate")
)

// ReadFile stands in for os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	if began != nil && reads == 0 {
		reads++
		close(began)
	}
	b, ok := disk[filepath.Clean(name)]
	if !ok {
		return nil, errTLS
	}
	return []byte{b}, nil
}

// Stat stands in for os.Stat.
func Stat(name string) (os.FileInfo, error) {
	vf.Unsupported("os.Stat of a certificate file")
	return nil, errTLS
}

// NewCertPool stands in for x509.NewCertPool.
func NewCertPool() *x509.CertPool { return &x509.CertPool{} }

// AppendCertsFromPEM stands in for the method of x509.CertPool.
func AppendCertsFromPEM(p *x509.CertPool, b []byte) bool {
	if len(b) == 0 {
		return false
	}
	pools[p] |= b[0]
	return true
}

// LoadX509KeyPair stands in for tls.LoadX509KeyPair.
func LoadX509KeyPair(c, k string) (tls.Certificate, error) {
	cb, err := ReadFile(c)
	if err != nil {
		return tls.Certificate{}, err
	}
	kb, err := ReadFile(k)
	if err != nil {
		return tls.Certificate{}, err
	}
	return X509KeyPair(cb, kb)
}

// X509KeyPair stands in for tls.X509KeyPair.
func X509KeyPair(c, k []byte) (tls.Certificate, error) {
	if len(c) == 0 || len(k) == 0 || c[0] != k[0] {
		return tls.Certificate{}, errTLS
	}
	return tls.Certificate{Certificate: [][]byte{c}}, nil
}

type creds struct {
	credentials.TransportCredentials
	cfg *tls.Config
}

type opt struct {
	grpc.EmptyDialOption
	authority string
	c         credentials.TransportCredentials
}

type dialed struct {
	target    string
	authority string
	cfg       *tls.Config
}

var dial []dialed

// NewTLS stands in for credentials.NewTLS.
func NewTLS(c *tls.Config) credentials.TransportCredentials { return &creds{cfg: c} }

// WithAuthority stands in for grpc.WithAuthority.
func WithAuthority(a string) grpc.DialOption { return &opt{authority: a} }

// WithTransportCredentials stands in for grpc.WithTransportCredentials.
func WithTransportCredentials(c credentials.TransportCredentials) grpc.DialOption { return &opt{c: c} }

// WithKeepaliveParams stands in for grpc.WithKeepaliveParams.
func WithKeepaliveParams(kp keepalive.ClientParameters) grpc.DialOption { return &opt{} }

// NewClient stands in for grpc.NewClient.
func NewClient(target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	d := dialed{target: target}
	for _, o := range opts {
		x, ok := o.(*opt)
		if !ok {
			continue
		}
		if x.authority != "" {
			d.authority = x.authority
		}
		if c, ok := x.c.(*creds); ok {
			d.cfg = c.cfg
		}
	}
	dial = append(dial, d)
	return &grpc.ClientConn{}, nil
}

// Clone stands in for the method of x509.CertPool.
func Clone(p *x509.CertPool) *x509.CertPool {
	n := &x509.CertPool{}
	pools[n] = pools[p]
	return n
}

// Equal stands in for the method of x509.CertPool.
func Equal(p, q *x509.CertPool) bool { return p != nil && q != nil && pools[p] == pools[q] }
