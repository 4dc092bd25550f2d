// Package hcert: certificates of the connections to moco-agent.
package hcert

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"net"
	"strconv"
	"sync"
	"time"

	agent "github.com/cybozu-go/moco-agent/proto"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/clustering"
	ctrlcmd "github.com/cybozu-go/moco/cmd/moco-controller/cmd"
	"github.com/cybozu-go/moco/pkg/cert"
	"github.com/cybozu-go/moco/pkg/constants"
	vf "github.com/cybozu-go/moco/zzvf"
	"github.com/cybozu-go/moco/zzvf/mock"
	"github.com/go-logr/logr"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/status"
	corev1 "k8s.io/api/core/v1"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

const iv = 40 * time.Millisecond

type state struct {
	ca, crt, key    bool
	vca, vcrt, vkey byte
}

// ok: the files can be loaded.
func (s state) ok() bool { return s.ca && s.crt && s.key && s.vcrt == s.vkey }

func (s state) write(dir string) {
	put(dir, "ca.crt", s.ca, s.vca)
	put(dir, "tls.crt", s.crt, s.vcrt)
	put(dir, "tls.key", s.key, s.vkey)
}

func symState() state {
	return state{!vf.Bool("no-ca"), !vf.Bool("no-crt"), !vf.Bool("no-key"),
		vf.Byte("ca", 1, 7), vf.Byte("crt", 0, ncert-1), vf.Byte("key", 0, ncert-1)}
}

// clientCert is the certificate a client with the configuration presents.
func clientCert(c *tls.Config) [][]byte {
	if c.GetClientCertificate != nil {
		x, err := c.GetClientCertificate(&tls.CertificateRequestInfo{})
		if err != nil || x == nil {
			return nil
		}
		return x.Certificate
	}
	if len(c.Certificates) == 0 {
		return nil
	}
	return c.Certificates[0].Certificate
}

// serverCert is the certificate a server with the configuration presents.
func serverCert(c *tls.Config) [][]byte {
	if c.GetCertificate != nil && len(c.Certificates) == 0 {
		x, err := c.GetCertificate(&tls.ClientHelloInfo{})
		if err != nil || x == nil {
			return nil
		}
		return x.Certificate
	}
	if len(c.Certificates) == 0 {
		return nil
	}
	return c.Certificates[0].Certificate
}

// accept is the configuration the server uses for a new connection.
func accept(c *tls.Config) *tls.Config {
	if c.GetConfigForClient == nil {
		return c
	}
	x, err := c.GetConfigForClient(&tls.ClientHelloInfo{})
	vf.Assert(err == nil, "a connection is accepted")
	if x == nil {
		return c
	}
	return x
}

func (s state) expect(c, srv *tls.Config, what string) {
	vf.Assert(vf.And(poolIs(c.RootCAs, s.vca), certIs(clientCert(c), s.vcrt)), "client: "+what)
	vf.Assert(!c.InsecureSkipVerify, "the client verifies the server")
	x := accept(srv)
	vf.Assert(vf.And(poolIs(x.ClientCAs, s.vca), certIs(serverCert(x), s.vcrt)), "server: "+what)
	vf.Assert(x.ClientAuth == tls.RequireAndVerifyClientCert, "the server requires and verifies client certificates")
	vf.Assert(x.VerifyConnection != nil, "the server checks the name of the client")
}

// Reload: the certificates in use are those of the last set of files that fit together.
func Reload() {
	dir, clean := scratch()
	defer clean()
	s := symState()
	s.write(dir)
	r, err := cert.NewReloader(dir, logr.Discard())
	vf.Assert((err == nil) == s.ok(), "a reloader starts only with usable files")
	if err != nil {
		vf.Reach("refused")
		return
	}
	srv := r.TLSServerConfig()
	s.expect(r.TLSClientConfig(), srv, "the files at the start are used")
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() {
		r.Run(ctx, iv)
		close(done)
	}()
	settle := func() {
		time.Sleep(iv)
		vf.Quiesce()
		if !vf.Symbolic() {
			time.Sleep(3 * iv)
		}
	}
	time.Sleep(iv / 2)
	for i := 0; i < vf.Param("steps", 2); i++ {
		n := symState()
		n.write(dir)
		settle()
		if n.ok() {
			s = n
			vf.Reach("reloaded")
			s.expect(r.TLSClientConfig(), srv, "new files are used after the interval")
		} else {
			vf.Reach("kept")
			s.expect(r.TLSClientConfig(), srv, "the old certificates stay in use while the files do not fit")
		}
	}
	cancel()
	settle()
	select {
	case <-done:
	default:
		vf.Assert(false, "the loop ends with its context")
	}
	vf.Reach("end")
}

// Together: CA and certificate are replaced together for connections made meanwhile.
func Together() {
	dir, clean := scratch()
	defer clean()
	a := state{true, true, true, 1, 0, 0}
	b := state{true, true, true, 2, 1, 1}
	a.write(dir)
	r, err := cert.NewReloader(dir, logr.Discard())
	vf.Assert(err == nil, "a reloader starts with usable files")
	if err != nil {
		return
	}
	srv := r.TLSServerConfig()
	server := vf.Bool("server")
	look := func(r *cert.Reloader, srv *tls.Config) bool {
		if server {
			x := accept(srv)
			return vf.Or(vf.And(poolIs(x.ClientCAs, a.vca), certIs(serverCert(x), a.vcrt)), vf.And(poolIs(x.ClientCAs, b.vca), certIs(serverCert(x), b.vcrt)))
		}
		x := r.TLSClientConfig()
		return vf.Or(vf.And(poolIs(x.RootCAs, a.vca), certIs(clientCert(x), a.vcrt)), vf.And(poolIs(x.RootCAs, b.vca), certIs(clientCert(x), b.vcrt)))
	}
	const label = "CA and certificate of the same files"
	if !vf.Symbolic() {
		nativeTogether(dir, a, b, func(r *cert.Reloader, srv *tls.Config) { vf.Assert(look(r, srv), label) })
		return
	}
	b.write(dir)
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(1)
	vf.ExploreSchedules(true)
	go func() {
		defer wg.Done()
		r.Run(ctx, iv)
	}()
	began = make(chan struct{})
	<-began
	for i := 0; i < 2; i++ {
		vf.Assert(look(r, srv), label)
	}
	cancel()
	wg.Wait()
	vf.Reach("end")
}

// nativeTogether repeats the replacement under load.
func nativeTogether(dir string, a, b state, look func(r *cert.Reloader, srv *tls.Config)) {
	for end := time.Now().Add(2 * time.Second); time.Now().Before(end); {
		a.write(dir)
		r, err := cert.NewReloader(dir, logr.Discard())
		must(err)
		srv := r.TLSServerConfig()
		b.write(dir)
		ctx, cancel := context.WithTimeout(context.Background(), 4*time.Millisecond)
		var wg sync.WaitGroup
		for i := 0; i < 5; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if i == 0 {
					r.Run(ctx, time.Millisecond)
				}
				for ctx.Err() == nil {
					look(r, srv)
				}
			}()
		}
		wg.Wait()
		cancel()
	}
}

// Name: only the controller may call the agent.
func Name() {
	dir, clean := scratch()
	defer clean()
	s := state{true, true, true, 1, 0, 0}
	s.write(dir)
	r, err := cert.NewReloader(dir, logr.Discard())
	vf.Assert(err == nil, "a reloader starts with usable files")
	if err != nil {
		return
	}
	x := accept(r.TLSServerConfig())
	vf.Assert(x.VerifyConnection != nil, "the server checks the name of the client")
	if x.VerifyConnection == nil {
		return
	}
	const want = "moco-controller"
	mk := func(cn string) *x509.Certificate { return &x509.Certificate{Subject: pkix.Name{CommonName: cn}} }
	var cn string
	switch vf.Int("length", 0, 3) {
	case 0:
		cn = vf.StrN("cn", len(want), '!', 'z')
	case 1:
		cn = vf.StrN("cn", len(want)+1, '!', 'z')
	case 2:
		cn = vf.StrN("cn", len(want)-1, '!', 'z')
	}
	var cs tls.ConnectionState
	chain := []*x509.Certificate{mk(cn), mk(want)}
	switch vf.Int("chain", 0, 2) {
	case 1:
		cs.PeerCertificates = chain[:1]
	case 2:
		cs.PeerCertificates = chain
	}
	if len(cs.PeerCertificates) > 0 {
		cs.VerifiedChains = [][]*x509.Certificate{cs.PeerCertificates}
	}
	err = x.VerifyConnection(cs)
	if len(cs.PeerCertificates) == 0 {
		vf.Reach("none")
		vf.Assert(err != nil, "a client without certificate is refused")
		return
	}
	vf.Assert((err == nil) == (cn == want), "a client is accepted exactly if its own certificate is for moco-controller")
	if err == nil {
		vf.Reach("accepted")
	}
	vf.Reach("end")
}

// podsClient serves Pods.
type podsClient struct {
	mock.Client
	pods map[client.ObjectKey]string
	fail bool
}

func (c *podsClient) Get(ctx context.Context, key client.ObjectKey, obj client.Object, opts ...client.GetOption) error {
	if c.fail {
		return mock.ErrInjected
	}
	p, ok := obj.(*corev1.Pod)
	if !ok {
		vf.Unsupported("Get of something else than a Pod")
		return nil
	}
	ip, ok := c.pods[key]
	if !ok {
		return mock.NotFound()
	}
	p.Namespace, p.Name = key.Namespace, key.Name
	p.Status.PodIP = ip
	p.Status.HostIP = "127.0.0.9"
	return nil
}

// Dial: connections are made to the instance meant.
func Dial() {
	dir, clean := scratch()
	defer clean()
	s := state{true, true, true, 1, 0, 0}
	s.write(dir)
	r, err := cert.NewReloader(dir, logr.Discard())
	vf.Assert(err == nil, "a reloader starts with usable files")
	if err != nil {
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if vf.Bool("rotated") {
		s = state{true, true, true, 2, 1, 1}
		s.write(dir)
		go r.Run(ctx, iv)
		time.Sleep(iv + iv/2)
		vf.Quiesce()
		if !vf.Symbolic() {
			time.Sleep(3 * iv)
		}
	}
	cluster := &mocov1beta2.MySQLCluster{}
	cluster.Namespace, cluster.Name = "ns", "c"
	if vf.Bool("other") {
		cluster.Namespace = "other"
	}
	c := &podsClient{pods: map[client.ObjectKey]string{}, fail: vf.Bool("get-fails")}
	for _, ns := range []string{"ns", "other"} {
		for i := 0; i < 3; i++ {
			c.pods[client.ObjectKey{Namespace: ns, Name: "moco-c-" + strconv.Itoa(i)}] = "127.0." + strconv.Itoa(len(ns)) + "." + strconv.Itoa(i+1)
		}
	}
	i := vf.Int("index", 0, 2)
	key := client.ObjectKey{Namespace: cluster.Namespace, Name: cluster.PodName(i)}
	ip := c.pods[key]
	good := !c.fail
	switch vf.Int("pod", 0, 2) {
	case 1:
		delete(c.pods, key)
		good = false
	case 2:
		c.pods[key] = ""
		good = false
	}
	f := clustering.NewAgentFactory(ctrlcmd.ZZResolver(c), r)
	host := "moco-c-" + strconv.Itoa(i) + ".moco-c." + cluster.Namespace + ".svc"
	if vf.Symbolic() {
		_, err := f.New(context.Background(), cluster, i)
		vf.Assert((err == nil) == good, "a connection is made exactly if the Pod has an address")
		if !good {
			vf.Reach("no-address")
			vf.Assert(len(dial) == 0, "nothing is dialled without address")
			return
		}
		vf.Assert(len(dial) == 1, "one connection is made")
		d := dial[0]
		vf.Assert(d.target == net.JoinHostPort(ip, strconv.Itoa(constants.AgentPort)), "the agent of the instance is dialled")
		vf.Assert(d.cfg != nil, "TLS is used")
		if d.cfg == nil {
			return
		}
		name := d.cfg.ServerName
		if name == "" {
			name = d.authority
		}
		vf.Assert(name == host, "the certificate is checked for the host name of the instance")
		vf.Assert(!d.cfg.InsecureSkipVerify, "the client verifies the server")
		vf.Assert(vf.And(poolIs(d.cfg.RootCAs, s.vca), certIs(clientCert(d.cfg), s.vcrt)), "the certificates loaded last are used")
		vf.Reach("end")
		return
	}
	nativeDial(f, cluster, i, ip, host, good, s)
}

// nativeDial makes the connections for real: to an agent with the certificate
// of the instance, one with that of another instance, and one of another CA.
func nativeDial(f clustering.AgentFactory, cluster *mocov1beta2.MySQLCluster, i int, ip, host string, good bool, s state) {
	call := func() error {
		conn, err := f.New(context.Background(), cluster, i)
		vf.Assert((err == nil) == good, "a connection is made exactly if the Pod has an address")
		if err != nil {
			return err
		}
		defer conn.Close()
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		defer cancel()
		_, err = conn.Clone(ctx, &agent.CloneRequest{})
		return err
	}
	if !good {
		call()
		return
	}
	serve := func(names []string, ca int) (got *tls.ConnectionState, err error) {
		var mu sync.Mutex
		cp, kp, _ := issue("agent", names, ca)
		pair, err := tls.X509KeyPair(cp, kp)
		must(err)
		lis, err := net.Listen("tcp", net.JoinHostPort(ip, strconv.Itoa(constants.AgentPort)))
		must(err)
		srv := grpc.NewServer(grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{pair}, ClientAuth: tls.RequireAnyClientCert,
			VerifyConnection: func(cs tls.ConnectionState) error {
				mu.Lock()
				got = &cs
				mu.Unlock()
				return nil
			}})))
		agent.RegisterAgentServer(srv, agent.UnimplementedAgentServer{})
		go srv.Serve(lis)
		err = call()
		srv.Stop()
		mu.Lock()
		defer mu.Unlock()
		return got, err
	}
	ca := 0
	if s.vca == 2 {
		ca = 1
	}
	got, err := serve([]string{host}, ca)
	vf.Assert(got != nil, "the agent of the instance is dialled")
	vf.Assert(status.Code(err) == codes.Unimplemented, "the certificate is checked for the host name of the instance")
	vf.Assert(got != nil && len(got.PeerCertificates) > 0 && certIs([][]byte{got.PeerCertificates[0].Raw}, s.vcrt), "the certificates loaded last are used")
	_, err = serve([]string{"moco-c-7.moco-c." + cluster.Namespace + ".svc"}, ca)
	vf.Assert(status.Code(err) != codes.Unimplemented, "the client verifies the server")
	_, err = serve([]string{host}, 1-ca)
	vf.Assert(status.Code(err) != codes.Unimplemented, "the certificates loaded last are used")
}
