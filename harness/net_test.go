package harness

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

// Local servers for the network properties. All addresses are on the loopback
// interface; a certificate made for this process is its only trusted root.

var (
	netOnce     sync.Once
	serverCert  tls.Certificate
	certFile    string // the trusted root
	emptyDir    string // stands in for the system's certificate directory
	patience    = 30 * time.Second
	plainServer *plainListener
)

func netSetup() {
	netOnce.Do(func() {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			broken("%v", err)
		}
		tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "harness"},
			NotBefore: time.Now().Add(-2400 * time.Hour), NotAfter: time.Now().Add(2400 * time.Hour),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
			IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1), net.IPv6loopback}, DNSNames: []string{"localhost"}}
		der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
		if err != nil {
			broken("%v", err)
		}
		serverCert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
		dir, err := os.MkdirTemp("", "harness-tls")
		if err != nil {
			broken("%v", err)
		}
		certFile = filepath.Join(dir, "root.pem")
		emptyDir = filepath.Join(dir, "none")
		os.Mkdir(emptyDir, 0o755)
		if err := os.WriteFile(certFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644); err != nil {
			broken("%v", err)
		}
		os.Setenv("SSL_CERT_FILE", certFile)
		os.Setenv("SSL_CERT_DIR", emptyDir)
		for _, v := range []string{"HTTP_PROXY", "HTTPS_PROXY", "http_proxy", "https_proxy", "ALL_PROXY", "all_proxy"} {
			os.Unsetenv(v)
		}
		plainServer = newPlainListener()
	})
}

// eventually waits until f holds.
func eventually(f func() bool) bool {
	for start := time.Now(); time.Since(start) < patience; time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

// plainListener records what arrives on an unencrypted port.
type plainListener struct {
	l    net.Listener
	addr string
	mu   sync.Mutex
	got  []*plainConn
}

type plainConn struct {
	first []byte
	done  chan struct{}
}

func newPlainListener() *plainListener {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		broken("%v", err)
	}
	p := &plainListener{l: l, addr: l.Addr().String()}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			pc := &plainConn{done: make(chan struct{})}
			p.mu.Lock()
			p.got = append(p.got, pc)
			p.mu.Unlock()
			go func() {
				c.SetReadDeadline(time.Now().Add(10 * time.Second))
				b := make([]byte, 4096)
				n, _ := c.Read(b)
				pc.first = b[:n]
				if n > 0 && b[0] != 0x16 && !strings.HasPrefix(string(b[:n]), marker) {
					// answer, so that a client which got this far goes on
					io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
				}
				c.Close()
				close(pc.done)
			}()
		}
	}()
	return p
}

const marker = "harness barrier"

// take returns what arrived on every connection made since the last call. A
// connection of its own, which the listener accepts in turn, is the barrier.
func (p *plainListener) take() []string {
	c, err := net.Dial("tcp", p.addr)
	if err != nil {
		broken("%v", err)
	}
	io.WriteString(c, marker)
	io.Copy(io.Discard, c)
	c.Close()
	p.mu.Lock()
	got := p.got
	p.got = nil
	p.mu.Unlock()
	var out []string
	for _, g := range got {
		<-g.done
		if string(g.first) != marker {
			out = append(out, string(g.first))
		}
	}
	return out
}

// httpsServer is a TLS server whose answers are scripted per case.
type httpsServer struct {
	*httptest.Server
	mu     sync.Mutex
	script func(n int, w http.ResponseWriter, r *http.Request, body []byte)
	log    []received
	states map[net.Conn]http.ConnState
	opened int
	stop   chan struct{} // closed to end streaming handlers
}

type received struct {
	method, uri, host, body string
	header                  http.Header
	length                  int64
}

func newHTTPSServer() *httpsServer {
	netSetup()
	s := &httpsServer{states: map[net.Conn]http.ConnState{}, stop: make(chan struct{})}
	s.Server = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		s.mu.Lock()
		n := len(s.log)
		s.log = append(s.log, received{r.Method, r.RequestURI, r.Host, string(b), r.Header.Clone(), r.ContentLength})
		script := s.script
		s.mu.Unlock()
		if script != nil {
			script(n, w, r, b)
		}
	}))
	s.TLS = &tls.Config{Certificates: []tls.Certificate{serverCert}}
	s.Config.ErrorLog = log.New(io.Discard, "", 0)
	s.Config.ConnState = func(c net.Conn, st http.ConnState) {
		s.mu.Lock()
		defer s.mu.Unlock()
		if st == http.StateNew {
			s.opened++
		}
		if st == http.StateClosed || st == http.StateHijacked {
			delete(s.states, c)
		} else {
			s.states[c] = st
		}
	}
	s.StartTLS()
	return s
}

// begin installs the script of a case.
func (s *httpsServer) begin(script func(n int, w http.ResponseWriter, r *http.Request, body []byte)) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.script, s.log = script, nil
}

func (s *httpsServer) received() []received {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]received(nil), s.log...)
}

// conns counts the connections that are open, and those in use.
func (s *httpsServer) conns() (open, active int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, st := range s.states {
		open++
		if st == http.StateActive {
			active++
		}
	}
	return
}

// rawServer is a TLS server which records the bytes of each connection.
type rawServer struct {
	l     net.Listener
	addr  string
	mu    sync.Mutex
	conns []*rawConn
	// answer gets the request once it is complete and writes whatever it
	// likes; returning true closes the connection.
	answer func(n int, req []byte, w io.Writer) bool
}

type rawConn struct {
	mu   sync.Mutex
	got  []byte
	err  error
	done chan struct{} // the client has closed the connection
}

func (c *rawConn) bytes() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return string(c.got)
}

func (c *rawConn) closed() bool {
	select {
	case <-c.done:
		return true
	default:
		return false
	}
}

var lengthRE = regexp.MustCompile(`(?i)\r\ncontent-length:[ \t]*([0-9]+)`)

func newRawServer() *rawServer {
	netSetup()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		broken("%v", err)
	}
	s := &rawServer{l: l, addr: l.Addr().String()}
	go func() {
		for {
			tcp, err := l.Accept()
			if err != nil {
				return
			}
			rc := &rawConn{done: make(chan struct{})}
			s.mu.Lock()
			n := len(s.conns)
			s.conns = append(s.conns, rc)
			answer := s.answer
			s.mu.Unlock()
			go s.serve(n, tls.Server(tcp, &tls.Config{Certificates: []tls.Certificate{serverCert}}), rc, answer)
		}
	}()
	return s
}

func (s *rawServer) serve(n int, c *tls.Conn, rc *rawConn, answer func(int, []byte, io.Writer) bool) {
	defer close(rc.done)
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	if err := c.Handshake(); err != nil {
		rc.err = err
		return
	}
	br := bufio.NewReader(c)
	buf := make([]byte, 65536)
	answered := false
	for {
		if !answered { // give up when the rest of a request doesn't come
			c.SetReadDeadline(time.Now().Add(15 * time.Second))
		} else {
			c.SetReadDeadline(time.Now().Add(60 * time.Second))
		}
		k, err := br.Read(buf)
		rc.mu.Lock()
		rc.got = append(rc.got, buf[:k]...)
		got := rc.got
		rc.mu.Unlock()
		if err != nil {
			return
		}
		if answered {
			continue
		}
		head, body, ok := bytes.Cut(got, []byte("\r\n\r\n"))
		if !ok {
			continue
		}
		want := 0
		if m := lengthRE.FindSubmatch(head); m != nil {
			want, _ = strconv.Atoi(string(m[1]))
		}
		if len(body) < want {
			continue
		}
		answered = true
		if answer == nil || answer(n, append([]byte(nil), got...), c) {
			return
		}
	}
}

func (s *rawServer) begin(answer func(n int, req []byte, w io.Writer) bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.answer, s.conns = answer, nil
}

func (s *rawServer) take() []*rawConn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*rawConn(nil), s.conns...)
}

// answerDocument draws a response and renders it.
func answerDocument(t *rapid.T, valid bool) (string, *ofxgo.Response) {
	g := newGen(t, anyVersion(t), valid)
	if g.density > 60 {
		g.density = 60
	}
	g.maxList = 2
	r := &ofxgo.Response{}
	setRespVersion(r, g.ver)
	g.fillSignon(r)
	if g.n(0, 3) > 0 {
		putMessage(r, oneOfEach(g))
	}
	return canonicalSurface(t, g.ver).Document(responseNode(r)), r
}

// drawPayload draws bytes to send as they are.
func drawPayload(t *rapid.T, max int) []byte {
	switch rapid.IntRange(0, 3).Draw(t, "payload") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(t, "bytes")
	case 1:
		d, _ := answerDocument(t, true)
		return []byte(d)
	case 2:
		unit := rapid.SliceOfN(rapid.Byte(), 1, 64).Draw(t, "unit")
		n := rapid.IntRange(0, max).Draw(t, "size")
		if max >= 100000 && rapid.IntRange(0, 15).Draw(t, "huge") == 15 {
			n = rapid.IntRange(1<<20, 5<<20).Draw(t, "hugesize")
		}
		b := bytes.Repeat(unit, n/len(unit)+1)[:n]
		for i := 0; i < n; i += 97 { // no period a faulty copy could hide in
			b[i] = byte(i / 97)
		}
		return b
	}
	return []byte("<OFX>\r\n" + (&Gen{t: t}).str(0, 60) + "\r\n\r\n0\r\n</OFX>")
}

// drawReader gives the bytes through some kind of reader.
func drawReader(t *rapid.T, b []byte) io.Reader {
	switch rapid.IntRange(0, 8).Draw(t, "reader") {
	case 0:
		return bytes.NewBuffer(append([]byte(nil), b...))
	case 1:
		return bytes.NewReader(b)
	case 2:
		return strings.NewReader(string(b))
	case 3: // a buffer from which something has been read already
		buf := bytes.NewBufferString("skipped")
		buf.Write(b)
		buf.Next(7)
		return buf
	case 4: // short reads
		return &choppy{b: b, n: rapid.IntRange(1, max(1000, len(b)/500)).Draw(t, "chop")}
	case 5, 6: // readers which can go back to what has been read already
		whole := append([]byte("skipped"), b...)
		if rapid.Bool().Draw(t, "bytes") {
			r := bytes.NewReader(whole)
			r.Seek(7, io.SeekStart)
			return r
		}
		r := strings.NewReader(string(whole))
		r.Seek(7, io.SeekStart)
		return r
	case 7: // part of something longer
		return io.NewSectionReader(bytes.NewReader(append(append([]byte("before"), b...), "after"...)), 6, int64(len(b)))
	case 8:
		return io.LimitReader(bytes.NewReader(append(append([]byte(nil), b...), "after"...)), int64(len(b)))
	}
	return struct{ io.Reader }{bytes.NewReader(b)}
}

// choppy returns at most n bytes per read and the last ones along with EOF.
type choppy struct {
	b []byte
	n int
}

func (c *choppy) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	k := min(len(p), c.n, len(c.b))
	copy(p, c.b[:k])
	c.b = c.b[k:]
	if len(c.b) == 0 {
		return k, io.EOF
	}
	return k, nil
}
