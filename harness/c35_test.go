package harness

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

// C35: documents go to verified servers only.

// authority issues certificates.
type authority struct {
	cert *x509.Certificate
	key  crypto.Signer
}

var certSerial = big.NewInt(1000)

func (a *authority) issue(tmpl *x509.Certificate, pub crypto.PublicKey) []byte {
	certSerial = new(big.Int).Add(certSerial, big.NewInt(1))
	tmpl.SerialNumber = certSerial
	der, err := x509.CreateCertificate(rand.Reader, tmpl, a.cert, pub, a.key)
	if err != nil {
		broken("%v", err)
	}
	return der
}

func newAuthority(parent *authority, name string, isCA bool, from, to time.Time) *authority {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		broken("%v", err)
	}
	a := &authority{key: key}
	tmpl := &x509.Certificate{Subject: pkix.Name{CommonName: name}, NotBefore: from, NotAfter: to,
		IsCA: isCA, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature}
	if isCA {
		tmpl.KeyUsage |= x509.KeyUsageCertSign
	}
	if parent == nil {
		parent = &authority{tmpl, key}
	}
	a.cert, err = x509.ParseCertificate(parent.issue(tmpl, &key.PublicKey))
	if err != nil {
		broken("%v", err)
	}
	return a
}

// tlsWorld has the keys, authorities and servers of this process.
type tlsWorld struct {
	root, expired, inter, interExpired, other, leaf, own *authority
	imposter                                             *authority // another root with the trusted one's name
	ec                                                   *ecdsa.PrivateKey
	rsa                                                  *rsa.PrivateKey
	roots, ownPool                                       *x509.CertPool
	first, second                                        *tlsServer
}

// tlsServer shows the certificate of the case and counts what it is sent.
type tlsServer struct {
	port   string
	mu     sync.Mutex
	config *tls.Config
	answer func(w http.ResponseWriter, body string)
	bodies []string
}

func newTLSServer() *tlsServer {
	s := &tlsServer{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		broken("%v", err)
	}
	_, s.port, _ = net.SplitHostPort(l.Addr().String())
	h := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		s.mu.Lock()
		s.bodies = append(s.bodies, string(b))
		answer := s.answer
		s.mu.Unlock()
		answer(w, string(b))
	}))
	h.Listener.Close()
	h.Listener = l
	h.TLS = &tls.Config{Certificates: []tls.Certificate{serverCert}, GetConfigForClient: func(*tls.ClientHelloInfo) (*tls.Config, error) {
		s.mu.Lock()
		defer s.mu.Unlock()
		return s.config, nil
	}}
	h.Config.ErrorLog = log.New(io.Discard, "", 0)
	h.Config.SetKeepAlivesEnabled(false)
	h.StartTLS()
	return s
}

func (s *tlsServer) begin(c *tls.Config, answer func(w http.ResponseWriter, body string)) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.config, s.answer, s.bodies = c, answer, nil
}

func (s *tlsServer) got() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.bodies...)
}

func newTLSWorld() *tlsWorld {
	netSetup()
	root, err := x509.ParseCertificate(serverCert.Certificate[0])
	if err != nil {
		broken("%v", err)
	}
	now := time.Now()
	soon, past := now.Add(2000*time.Hour), now.Add(-2000*time.Hour)
	w := &tlsWorld{root: &authority{root, serverCert.PrivateKey.(crypto.Signer)}}
	w.inter = newAuthority(w.root, "intermediate", true, past, soon)
	w.interExpired = newAuthority(w.root, "old intermediate", true, past, now.Add(-time.Hour))
	w.leaf = newAuthority(w.root, "not an authority", false, past, soon)
	w.other = newAuthority(nil, "somebody", true, past, soon)
	w.imposter = newAuthority(nil, root.Subject.CommonName, true, past, soon)
	w.own = newAuthority(nil, "caller's own", true, past, soon)
	if w.ec, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader); err != nil {
		broken("%v", err)
	}
	if w.rsa, err = rsa.GenerateKey(rand.Reader, 2048); err != nil {
		broken("%v", err)
	}
	w.roots, w.ownPool = x509.NewCertPool(), x509.NewCertPool()
	w.roots.AddCert(root)
	w.ownPool.AddCert(w.own.cert)
	w.first, w.second = newTLSServer(), newTLSServer()
	return w
}

// identity is a drawn server: its configuration, and what is wrong with it.
type identity struct {
	config  *tls.Config
	problem string
	issuer  string
	rsaOnly bool // offers nothing but RSA key exchange
	what    string
}

// drawIdentity draws a server which is asked for as host. The caller trusts the
// harness' root, or its own one.
func (w *tlsWorld) drawIdentity(t *rapid.T, host string, own bool, sound bool) *identity {
	id := &identity{}
	wrong := func(p string) {
		if id.problem == "" {
			id.problem = p
		}
	}
	spoil := func(label string) bool { return !sound && rapid.IntRange(0, 5).Draw(t, label) == 5 }
	now := time.Now()
	tmpl := &x509.Certificate{Subject: pkix.Name{CommonName: rapid.SampledFrom([]string{"server", host}).Draw(t, "common name")},
		NotBefore: now.Add(-time.Hour), NotAfter: now.Add(time.Hour), BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment}
	// names
	good := []string{host, strings.ToUpper(host)}
	bad := []string{"ofx.bank.example", "127.0.0.2", "*.localhost", "localhost.example", "host", "*", "ocalhost", "localhos", "*.0.0.1", "128.0.0.1"}
	if host == "localhost" {
		bad = append(bad, "127.0.0.1")
	} else {
		bad = append(bad, "localhost", "DNS:127.0.0.1")
	}
	var names []string
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "other names"); i < n; i++ {
		names = append(names, rapid.SampledFrom(bad).Draw(t, "name"))
	}
	if spoil("names") {
		wrong("another host's name")
	} else {
		names = append(names, rapid.SampledFrom(good).Draw(t, "name"))
	}
	for _, n := range names {
		if ip := net.ParseIP(n); ip != nil {
			tmpl.IPAddresses = append(tmpl.IPAddresses, ip)
		} else {
			tmpl.DNSNames = append(tmpl.DNSNames, strings.TrimPrefix(n, "DNS:"))
		}
	}
	// time
	if spoil("time") {
		wrong("expired or not valid yet")
		d := rapid.SampledFrom([]time.Duration{2 * time.Minute, time.Hour, 24 * time.Hour, 20000 * time.Hour}).Draw(t, "by")
		span := rapid.SampledFrom([]time.Duration{time.Hour, 100 * time.Hour, 2000 * time.Hour}).Draw(t, "span")
		if rapid.Bool().Draw(t, "future") {
			tmpl.NotBefore, tmpl.NotAfter = now.Add(d), now.Add(d+span)
		} else {
			tmpl.NotBefore, tmpl.NotAfter = now.Add(-d-span), now.Add(-d)
		}
	}
	// purpose
	tmpl.ExtKeyUsage = rapid.SampledFrom([][]x509.ExtKeyUsage{nil, {x509.ExtKeyUsageServerAuth}, {x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth}}).Draw(t, "usage")
	if spoil("purpose") {
		wrong("not for servers")
		tmpl.ExtKeyUsage = rapid.SampledFrom([][]x509.ExtKeyUsage{{x509.ExtKeyUsageClientAuth}, {x509.ExtKeyUsageEmailProtection, x509.ExtKeyUsageCodeSigning}}).Draw(t, "usage")
	}
	// TLS
	c := &tls.Config{MinVersion: tls.VersionTLS10}
	var key crypto.Signer = w.ec
	if rapid.Bool().Draw(t, "rsa") {
		key = w.rsa
	}
	switch k := rapid.IntRange(0, 9).Draw(t, "tls"); {
	case k == 0:
		c.MinVersion = tls.VersionTLS13
	case k <= 2:
		c.MaxVersion = tls.VersionTLS12
	case k == 3 && !sound:
		c.MaxVersion = rapid.SampledFrom([]uint16{tls.VersionTLS10, tls.VersionTLS11}).Draw(t, "old")
		wrong("TLS before 1.2")
	case k <= 5:
		c.MaxVersion = tls.VersionTLS12
		key = w.rsa
		c.CipherSuites = []uint16{rapid.SampledFrom([]uint16{tls.TLS_RSA_WITH_AES_128_CBC_SHA256, tls.TLS_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_RSA_WITH_AES_256_GCM_SHA384}).Draw(t, "suite")}
		id.rsaOnly = true
	case k == 6:
		c.MaxVersion = tls.VersionTLS12
		key = w.rsa
		c.CipherSuites = []uint16{rapid.SampledFrom([]uint16{tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384, tls.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256}).Draw(t, "suite")}
	case k == 7:
		c.MaxVersion = tls.VersionTLS12
		key = w.ec
		c.CipherSuites = []uint16{rapid.SampledFrom([]uint16{tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, tls.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256}).Draw(t, "suite")}
	}
	// chain
	trusted := w.root
	if own {
		trusted = w.own
	}
	cert := tls.Certificate{PrivateKey: key}
	id.issuer = "root"
	if spoil("issuer") {
		issuers := []string{"somebody", "namesake", "itself", "not an authority", "not an authority", "missing intermediate", "old intermediate", "the other root", "borrowed"}
		id.issuer = rapid.SampledFrom(issuers).Draw(t, "issuer")
		wrong("issued by " + id.issuer)
	} else if !own && rapid.IntRange(0, 2).Draw(t, "intermediate") == 2 {
		id.issuer = "intermediate"
	}
	by := trusted
	var chain []*authority
	switch id.issuer {
	case "somebody":
		by, chain = w.other, []*authority{w.other}
	case "namesake":
		by = w.imposter
		if rapid.Bool().Draw(t, "sent") {
			chain = []*authority{w.imposter}
		}
	case "not an authority":
		by, chain = w.leaf, []*authority{w.leaf, w.root}
	case "intermediate":
		by, chain = w.inter, []*authority{w.inter}
	case "missing intermediate":
		by = w.inter
	case "old intermediate":
		by, chain = w.interExpired, []*authority{w.interExpired}
	case "the other root":
		by = w.own
		if own {
			by = w.root
		}
	case "itself":
		tmpl.IsCA = rapid.Bool().Draw(t, "isca")
		by = &authority{tmpl, key}
	}
	leaf := by.issue(tmpl, key.Public())
	cert.Certificate = [][]byte{leaf}
	if id.issuer == "borrowed" {
		// shows a genuine certificate without having its key
		cert.Certificate = [][]byte{trusted.issue(tmpl, w.other.key.Public())}
		cert.PrivateKey = w.ec
		if c.CipherSuites != nil {
			c.CipherSuites, id.rsaOnly = nil, false
		}
	}
	for _, a := range chain {
		cert.Certificate = append(cert.Certificate, a.cert.Raw)
	}
	c.Certificates = []tls.Certificate{cert}
	id.config = c
	id.what = fmt.Sprintf("%s: names %q, issuer %s, valid %v to %v, versions %x-%x, suites %x, usage %v", id.problem, names, id.issuer, tmpl.NotBefore.Sub(now).Round(time.Minute), tmpl.NotAfter.Sub(now).Round(time.Minute), c.MinVersion, c.MaxVersion, c.CipherSuites, tmpl.ExtKeyUsage)
	return id
}

func TestC35(t *testing.T) {
	rule("Servers with drawn certificates (names, validity, purpose, issuer and chain, key), TLS versions and cipher suites are asked by the three clients, by each operation, directly, by a redirect or when a request is retried, and by commands. A server with anything wrong must not receive a request and the operation must fail; any other receives the document. Non-trivial when something is wrong or the suites or versions are restricted.")
	assuming("Whether the standard and Discover clients reach servers which offer only RSA key exchange depends on settings of Go and is not judged. The roots are those named by SSL_CERT_FILE.")
	w := newTLSWorld()
	setting := func(t *rapid.T, kind string) (bc *ofxgo.BasicClient, own bool) {
		bc = drawConfig(t)
		if kind == "basic" {
			switch rapid.IntRange(0, 3).Draw(t, "http client") {
			case 0:
				own = true
				bc.HTTPClient = &http.Client{Transport: &http.Transport{TLSClientConfig: &tls.Config{RootCAs: w.ownPool}, DisableKeepAlives: true}}
			case 1:
				bc.HTTPClient = &http.Client{}
			}
		} else if rapid.IntRange(0, 2).Draw(t, "unused http client") == 2 {
			// trusting anyone; the special clients don't use it
			bc.HTTPClient = &http.Client{Transport: &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, DisableKeepAlives: true}}
		}
		return
	}
	prop(t, "servers", 5000, 60000, func(t *rapid.T, c *Case) {
		kind := rapid.SampledFrom(clientKinds).Draw(t, "client")
		bc, own := setting(t, kind)
		cl := makeClient(kind, bc)
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		host := rapid.SampledFrom([]string{"127.0.0.1", "localhost"}).Draw(t, "host")
		id := w.drawIdentity(t, host, own, false)
		doc, _ := answerDocument(t, true)
		w.first.begin(id.config, func(rw http.ResponseWriter, body string) { io.WriteString(rw, doc) })
		r := drawRequest(t)
		resp, raw, err := operate(op, cl, r, "https://"+host+":"+w.first.port+"/ofx", strings.NewReader("the document"))
		closeAnswer(raw)
		got := w.first.got()
		c.Label("%s: %s", kind, id.problem)
		if id.problem != "" {
			if len(got) > 0 || err == nil || resp != nil || raw != nil {
				t.Fatalf("%s %s to a server which is %s: %d requests, error %v", kind, op, id.what, len(got), err)
			}
		} else if id.rsaOnly && kind != "vanguard" {
			if (err == nil) != (len(got) == 1) {
				t.Fatalf("%s %s: %d requests, error %v", kind, op, len(got), err)
			}
			return
		} else if err != nil || len(got) != 1 {
			t.Fatalf("%s %s to a sound server %s: %d requests, error %v", kind, op, id.what, len(got), err)
		}
		if id.problem != "" || id.config.CipherSuites != nil || id.config.MaxVersion != 0 || id.issuer != "root" {
			c.NonTrivial(kind + op + id.what)
			c.Sample("%s %s, %s: %v", kind, op, id.what, err)
		}
	})
	prop(t, "redirects", 2000, 20000, func(t *rapid.T, c *Case) {
		kind := rapid.SampledFrom([]string{"basic", "vanguard"}).Draw(t, "client")
		bc, own := setting(t, kind)
		cl := makeClient(kind, bc)
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		hosts := []string{"127.0.0.1", "localhost"}
		host := rapid.SampledFrom(hosts).Draw(t, "host")
		to := rapid.SampledFrom(hosts).Draw(t, "to")
		front := w.drawIdentity(t, host, own, true)
		id := w.drawIdentity(t, to, own, false)
		if kind != "vanguard" && (front.rsaOnly || id.rsaOnly) {
			return
		}
		code := rapid.SampledFrom([]int{307, 308, 302, 303}).Draw(t, "status")
		doc, _ := answerDocument(t, true)
		w.first.begin(front.config, func(rw http.ResponseWriter, body string) {
			rw.Header().Set("Location", "https://"+to+":"+w.second.port+"/there")
			rw.WriteHeader(code)
		})
		w.second.begin(id.config, func(rw http.ResponseWriter, body string) { io.WriteString(rw, doc) })
		_, raw, err := operate(op, cl, drawRequest(t), "https://"+host+":"+w.first.port+"/ofx", strings.NewReader("the document"))
		closeAnswer(raw)
		if len(w.first.got()) != 1 {
			t.Fatalf("%s %s: the first server (%s) got %d requests, error %v", kind, op, front.what, len(w.first.got()), err)
		}
		got := w.second.got()
		if id.problem != "" && (len(got) > 0 || err == nil) {
			t.Fatalf("%s %s redirected to a server which is %s: %d requests, error %v", kind, op, id.what, len(got), err)
		}
		if id.problem == "" && (len(got) != 1 || err != nil) {
			t.Fatalf("%s %s redirected to a sound server %s: %d requests, error %v", kind, op, id.what, len(got), err)
		}
		if id.problem != "" {
			c.NonTrivial(fmt.Sprint(kind, op, code, id.what))
			c.Sample("%s %s, status %d to %s: %v", kind, op, code, id.what, err)
		}
		c.Label("%s: %s", kind, id.problem)
	})
	prop(t, "retries", 2000, 20000, func(t *rapid.T, c *Case) {
		bc, _ := setting(t, "vanguard")
		cl := makeClient("vanguard", bc)
		op := rapid.SampledFrom(clientOps[:2]).Draw(t, "op")
		hosts := []string{"127.0.0.1", "localhost"}
		host := rapid.SampledFrom(hosts).Draw(t, "host")
		to := host
		swapped := rapid.Bool().Draw(t, "swapped")
		if !swapped {
			to = rapid.SampledFrom(hosts).Draw(t, "to")
		}
		front := w.drawIdentity(t, host, false, true)
		id := w.drawIdentity(t, to, false, false)
		code := rapid.SampledFrom([]int{307, 308, 302, 303}).Draw(t, "status")
		doc, _ := answerDocument(t, true)
		finally := func(rw http.ResponseWriter, body string) { io.WriteString(rw, doc) }
		w.second.begin(id.config, finally)
		n := 0
		w.first.begin(front.config, func(rw http.ResponseWriter, body string) {
			if n++; n == 1 {
				rw.Header().Set("Set-Cookie", "session=1")
				if swapped {
					// somebody else answers at this address from now on
					w.first.mu.Lock()
					w.first.config, w.first.answer = id.config, finally
					w.first.mu.Unlock()
				}
				return
			}
			rw.Header().Set("Location", "https://"+to+":"+w.second.port+"/there")
			rw.WriteHeader(code)
		})
		_, raw, err := operate(op, cl, drawRequest(t), "https://"+host+":"+w.first.port+"/ofx", nil)
		closeAnswer(raw)
		got := len(w.second.got())
		if swapped {
			got = len(w.first.got()) - 1
		} else if at := len(w.first.got()); at != 2 {
			t.Fatalf("%s: the first server (%s) got %d requests, error %v", op, front.what, at, err)
		}
		if id.problem != "" && (got > 0 || err == nil) {
			t.Fatalf("%s retried (swapped %v) at a server which is %s: %d requests, error %v", op, swapped, id.what, got, err)
		}
		if id.problem == "" && (got != 1 || err != nil) {
			t.Fatalf("%s retried (swapped %v) at a sound server %s: %d requests, error %v", op, swapped, id.what, got, err)
		}
		if id.problem != "" {
			c.NonTrivial(fmt.Sprint(op, swapped, code, id.what))
			c.Sample("%s retried (swapped %v, status %d) at %s: %v", op, swapped, code, id.what, err)
		}
		c.Label("swapped %v: %s", swapped, id.problem)
	})
	prop(t, "commands", 480, 4000, func(t *rapid.T, c *Case) {
		cmd := rapid.SampledFrom(serverCommands).Draw(t, "command")
		host := rapid.SampledFrom([]string{"127.0.0.1", "localhost"}).Draw(t, "host")
		id := w.drawIdentity(t, host, false, false)
		if id.rsaOnly {
			return
		}
		doc, _ := answerDocument(t, true)
		w.first.begin(id.config, func(rw http.ResponseWriter, body string) { io.WriteString(rw, doc) })
		i := drawInvocation(t, cmd, "https://"+host+":"+w.first.port+"/ofx")
		dir := workDir()
		defer os.RemoveAll(dir)
		roots := filepath.Join(dir, "roots.pem")
		if err := os.WriteFile(roots, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: w.root.cert.Raw}), 0o644); err != nil {
			broken("%v", err)
		}
		res := runOfx(t, i.args(), nil, i.env(), inDir(dir))
		got := w.first.got()
		if id.problem != "" && (len(got) > 0 || res.code == 0) {
			t.Fatalf("ofx %q to a server which is %s: %d requests, exit status %d\n%s%s", i.args(), id.what, len(got), res.code, res.out, res.errOut)
		}
		if id.problem == "" && len(got) != 1 {
			t.Fatalf("ofx %q to a sound server %s: %d requests, exit status %d\n%s%s", i.args(), id.what, len(got), res.code, res.out, res.errOut)
		}
		if id.problem != "" {
			c.NonTrivial(cmd + id.what)
			c.Sample("%s, %s: %q", cmd, id.what, res.out)
		}
		c.Label("%s: %s", cmd, id.problem)
	})
}
