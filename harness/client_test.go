package harness

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/cookiejar"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

var clientKinds = []string{"basic", "discover", "vanguard"}

func makeClient(kind string, bc *ofxgo.BasicClient) ofxgo.Client {
	switch kind {
	case "discover":
		return ofxgo.NewDiscoverCardClient(bc)
	case "vanguard":
		return ofxgo.NewVanguardClient(bc)
	}
	return bc
}

// drawClientVersion draws a version for a configuration, now and then none or
// an unknown one.
func drawClientVersion(t *rapid.T) int {
	if rapid.IntRange(0, 19).Draw(t, "unknown") == 19 {
		return rapid.SampledFrom([]int{len(versionStrings), len(versionStrings) + 1, 76, 102, 202, 1 << 32}).Draw(t, "clientver")
	}
	return rapid.IntRange(-1, len(versionStrings)-1).Draw(t, "clientver")
}

// drawConfig draws the configuration of a client.
func drawConfig(t *rapid.T) *ofxgo.BasicClient {
	bc := config(rapid.Bool().Draw(t, "noindent"), rapid.Bool().Draw(t, "cr"), drawClientVersion(t))
	bc.AppID = rapid.SampledFrom([]string{"", "QWIN", "ABCDE", "x"}).Draw(t, "appid")
	bc.AppVer = rapid.SampledFrom([]string{"", "2400", "1", "0102"}).Draw(t, "appver")
	bc.UserAgent = drawUserAgent(t)
	return bc
}

// configure sets all fields of a configuration.
func configure(bc, to *ofxgo.BasicClient) {
	bc.SpecVersion, bc.AppID, bc.AppVer = to.SpecVersion, to.AppID, to.AppVer
	bc.NoIndent, bc.CarriageReturn, bc.UserAgent, bc.HTTPClient = to.NoIndent, to.CarriageReturn, to.UserAgent, to.HTTPClient
}

func drawUserAgent(t *rapid.T) string {
	return rapid.SampledFrom([]string{"", "InetClntApp/3.0", "Mozilla/5.0 (X11; Linux)", "a", "a b (c; d)", longToken(t, "useragent")}).Draw(t, "useragent")
}

// longToken is mostly short, but may have some thousand letters and digits.
func longToken(t *rapid.T, label string) string {
	if rapid.IntRange(0, 3).Draw(t, "long "+label) < 3 {
		return "x"
	}
	var b strings.Builder
	for i, n := 0, 100<<rapid.IntRange(0, 6).Draw(t, label+" length"); b.Len() < n; i++ {
		fmt.Fprintf(&b, "a%d", i)
	}
	return b.String()
}

// drawRequest draws a valid request which is not too big.
func drawRequest(t *rapid.T) *ofxgo.Request {
	g := newGen(t, anyVersion(t), true)
	r := g.request()
	// options of newer versions would make it invalid for some clients
	for _, m := range r.Bank {
		s := m.(*ofxgo.StatementRequest)
		s.IncludePending, s.IncTranImg = false, false
	}
	for _, m := range r.CreditCard {
		s := m.(*ofxgo.CCStatementRequest)
		s.IncludePending, s.IncTranImg = false, false
	}
	return r
}

// operate performs one operation of a client. A raw answer is closed by the
// caller.
func operate(op string, c ofxgo.Client, r *ofxgo.Request, url string, body io.Reader) (*ofxgo.Response, *http.Response, error) {
	switch op {
	case "request":
		r.URL = url
		resp, err := c.Request(r)
		return resp, nil, err
	case "noparse":
		r.URL = url
		resp, err := c.RequestNoParse(r)
		return nil, resp, err
	}
	resp, err := c.RawRequest(url, body)
	return nil, resp, err
}

var clientOps = []string{"request", "noparse", "raw"}

func closeAnswer(resp *http.Response) {
	if resp != nil {
		resp.Body.Close()
	}
}

// C17: credentials never travel over anything but https.
func TestC17(t *testing.T) {
	rule("Every kind of client and operation is pointed at drawn URLs that are not https, at https URLs of a port which does not speak TLS, and at https servers which redirect in drawn chains to plain http; a recording plain-text port (and the configured HTTP client) must see no unencrypted byte. The command line gets plain URLs, too. Every case is non-trivial.")
	assuming("Servers are on the loopback interface.")
	netSetup()
	s := newHTTPSServer()
	defer s.Close()
	p := plainServer
	insecure := func(t *rapid.T) string {
		rest := p.addr + rapid.SampledFrom([]string{"", "/", "/ofx", "/https://" + p.addr, "?https://", "/ofx#https"}).Draw(t, "rest")
		return fmt.Sprintf(rapid.SampledFrom([]string{"http://%s", "http://%s", "HTTP://%s", "Http://%s", "http://user:secret@%s", " http://%s", "//%s", "%s", "ftp://%s", "ws://%s", "http+https://%s", "httpss://%s",
			"httpsx://%s", "https//%s", "https:/%s", "https:%s", "shttp://%s", "http://https://%s", "\thttp://%s", "https.http://%s", "http:%s", "h2c://%s", "unix://%s", "https%%3A//%s", "xhttps://%s", " https://%s", "\"https://%s", "http://"}).Draw(t, "url"), rest)
	}
	prop(t, "plain-url", 18000, 100000, func(t *rapid.T, c *Case) {
		kind := rapid.SampledFrom(clientKinds).Draw(t, "client")
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		u := insecure(t)
		bc := drawConfig(t)
		rt := &recordTransport{}
		if rapid.Bool().Draw(t, "configured") {
			bc.HTTPClient = &http.Client{Transport: rt}
		}
		cl := makeClient(kind, bc)
		if rapid.IntRange(0, 3).Draw(t, "get") == 3 {
			cl = ofxgo.GetClient(u, bc)
		}
		parsed, raw, err := operate(op, cl, drawRequest(t), u, strings.NewReader("secret"))
		closeAnswer(raw)
		if err == nil || parsed != nil || raw != nil {
			t.Fatalf("%s client, %s to %q: no error", kind, op, u)
		}
		if len(rt.urls) > 0 {
			t.Fatalf("%s client, %s to %q was sent: %q", kind, op, u, rt.bodies)
		}
		if got := p.take(); len(got) > 0 {
			t.Fatalf("%s client, %s to %q connected and sent %q", kind, op, u, got)
		}
		c.NonTrivial(kind + op + u)
		c.Label("%s %s", kind, op)
		c.Sample("%s %s %q: %v", kind, op, u, err)
	})
	prop(t, "https-to-plain-port", 900, 4000, func(t *rapid.T, c *Case) {
		// the port does not speak TLS: nothing may be sent but a TLS handshake
		kind := rapid.SampledFrom(clientKinds).Draw(t, "client")
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		u := "https://" + p.addr + "/ofx"
		parsed, raw, err := operate(op, makeClient(kind, drawConfig(t)), drawRequest(t), u, strings.NewReader("secret"))
		closeAnswer(raw)
		if err == nil || parsed != nil {
			t.Fatalf("%s client, %s to a port without TLS: no error", kind, op)
		}
		for _, b := range p.take() {
			if b != "" && b[0] != 0x16 {
				t.Fatalf("%s client, %s sent %q in the clear", kind, op, b)
			}
		}
		c.NonTrivial(kind + op)
	})
	redirects := []int{301, 302, 303, 307, 308}
	prop(t, "redirect-recorded", 12000, 60000, func(t *rapid.T, c *Case) {
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		hops := rapid.IntRange(1, 5).Draw(t, "hops")
		codes := make([]int, hops)
		for i := range codes {
			codes[i] = rapid.SampledFrom(redirects).Draw(t, "status")
		}
		target := rapid.SampledFrom([]string{"http://example.invalid/ofx", "HTTP://example.invalid/", "http://example.invalid:443/ofx", "//example.invalid/x", "http:/ofx"}).Draw(t, "target")
		if target[0] == '/' {
			target = "http:" + target
		}
		rt := &recordTransport{}
		rt.answer = func(n int, req *http.Request) *http.Response {
			h := http.Header{}
			if n < hops {
				h.Set("Location", fmt.Sprintf("https://example.invalid/hop%d", n))
			} else {
				h.Set("Location", target)
			}
			code := 200
			if n <= hops {
				code = codes[n-1]
			}
			return &http.Response{StatusCode: code, Status: strconv.Itoa(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: io.NopCloser(strings.NewReader("")), Request: req}
		}
		bc := drawConfig(t)
		bc.HTTPClient = &http.Client{Transport: rt}
		switch rapid.IntRange(0, 2).Draw(t, "policy") {
		case 1:
			bc.HTTPClient.CheckRedirect = func(*http.Request, []*http.Request) error { return nil }
		case 2:
			bc.HTTPClient.CheckRedirect = func(r *http.Request, via []*http.Request) error {
				if len(via) > 3 {
					return errors.New("enough")
				}
				return nil
			}
		}
		parsed, raw, err := operate(op, bc, drawRequest(t), "https://example.invalid/ofx", strings.NewReader("secret"))
		closeAnswer(raw)
		if err == nil || parsed != nil {
			t.Fatalf("%s followed a redirect to %s", op, target)
		}
		for _, u := range rt.urls {
			if !strings.HasPrefix(u, "https://") {
				t.Fatalf("%s followed a redirect to %s: %q", op, u, rt.urls)
			}
		}
		c.NonTrivial(fmt.Sprint(op, codes, target))
		c.Label("%d hops", hops)
		c.Sample("%s %v %s: %v", op, codes, target, err)
	})
	prop(t, "redirect-served", 1800, 8000, func(t *rapid.T, c *Case) {
		kind := rapid.SampledFrom(clientKinds).Draw(t, "client")
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		hops := rapid.IntRange(1, 3).Draw(t, "hops")
		code := rapid.SampledFrom(redirects).Draw(t, "status")
		cookies := rapid.Bool().Draw(t, "cookies-first")
		s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
			if cookies && n == 0 {
				w.Header().Set("Set-Cookie", "a=b")
				w.Header().Set("Content-Length", "0")
				return
			}
			if cookies {
				n--
			}
			to := "http://" + p.addr + "/ofx"
			if n+1 < hops {
				to = fmt.Sprintf("%s/hop%d", s.URL, n)
			}
			w.Header().Set("Location", to)
			w.WriteHeader(code)
		})
		bc := drawConfig(t)
		parsed, raw, err := operate(op, makeClient(kind, bc), drawRequest(t), s.URL+"/ofx", strings.NewReader("secret"))
		closeAnswer(raw)
		if got := p.take(); len(got) > 0 {
			t.Fatalf("%s client, %s followed a redirect %d to plain http, which got %q", kind, op, code, got)
		}
		single := cookies && (kind != "vanguard" || op == "raw")
		if !single && (err == nil || parsed != nil) {
			t.Fatalf("%s client, %s: no error after a redirect to plain http", kind, op)
		}
		c.NonTrivial(fmt.Sprint(kind, op, hops, code, cookies))
		c.Label("%s %s", kind, op)
	})
	commands := [][]string{{"download-profile"}, {"get-accounts"}, {"download-bank"}, {"download-cc"}, {"download-inv"}, {"transactions-bank"}, {"transactions-cc"}, {"transactions-inv"}, {"detect-settings"}}
	prop(t, "command-line", 480, 1600, func(t *rapid.T, c *Case) {
		cmd := rapid.SampledFrom(commands).Draw(t, "command")
		u := insecure(t)
		args := append([]string{}, cmd...)
		args = append(args, "-url", u, "-username", "user", "-password", "secret")
		if cmd[0] == "detect-settings" {
			args = append(args, "-delay", "0")
		}
		if strings.HasSuffix(cmd[0], "-bank") {
			args = append(args, "-bankid", "1", "-acctid", "2")
		}
		res := runOfx(t, args, nil)
		if got := p.take(); len(got) > 0 {
			t.Fatalf("ofx %q connected and sent %q", args, got)
		}
		if cmd[0] != "detect-settings" && res.code == 0 {
			t.Fatalf("ofx %q succeeded\n%s", args, res.out)
		}
		c.NonTrivial(cmd[0] + u)
		c.Label("%s", cmd[0])
	})
}

var plainURLs = rapid.Custom(func(t *rapid.T) string {
	u := "https://" + rapid.SampledFrom([]string{"example.invalid", "a.b.example.invalid", "127.0.0.1", "[::1]", "xn--bcher-kva.invalid", "EXAMPLE.invalid"}).Draw(t, "host")
	u += rapid.SampledFrom([]string{"", "", ":443", ":8443"}).Draw(t, "port")
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "segments"); i < n; i++ {
		u += "/" + rapid.SampledFrom([]string{"ofx", "OFX.dll", "a%20b", "a%2Fb", "cgi-bin", "~x", "a;b=c", "", "ofx.asp", "..", "é", longToken(t, "segment")}).Draw(t, "segment")
	}
	if rapid.IntRange(0, 2).Draw(t, "query") == 2 {
		u += "?" + rapid.SampledFrom([]string{"x=1", "x=1&y=%20", "", "a=b?c", "q", "s=" + longToken(t, "query")}).Draw(t, "querytext")
	}
	return u
}).Filter(func(u string) bool {
	p, err := url.Parse(u)
	return err == nil && p.String() == u
})

func headerIs(h http.Header, name string, want ...string) bool {
	return reflect.DeepEqual(append([]string{}, h.Values(name)...), append([]string{}, want...))
}

// C18: the standard client posts exactly the document, once.
func TestC18(t *testing.T) {
	rule("Drawn requests or payloads (up to 2 MB, through several kinds of readers) are sent to drawn URLs by drawn configurations through a recording HTTP client, or to a real TLS server; method, URL, headers, body and count are compared, and the drawn answer (status, headers, body) must come back. Non-trivial when there is a body.")
	assuming("URLs have no fragments, no credentials and are spelled in their canonical form; answers of redirect statuses carry no location.")
	statuses := []int{200, 200, 200, 200, 201, 202, 204, 206, 226, 299, 300, 304, 399, 400, 401, 403, 404, 405, 429, 500, 502, 503, 599}
	netSetup()
	prop(t, "recorded", 18000, 120000, func(t *rapid.T, c *Case) {
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		u := plainURLs.Draw(t, "url")
		code := rapid.SampledFrom(statuses).Draw(t, "status")
		doc, want := answerDocument(t, true)
		answer := []byte(doc)
		if op != "request" {
			answer = drawPayload(t, 200000)
		}
		header := http.Header{"X-Drawn": {"a", "b"}, "Content-Type": {rapid.SampledFrom([]string{"application/x-ofx", "text/plain", "text/html; charset=utf-8"}).Draw(t, "type")}, "Set-Cookie": {"a=b"}}
		length := int64(len(answer))
		if rapid.Bool().Draw(t, "unknown") {
			length = -1
		}
		var sent []*http.Request
		rt := &recordTransport{answer: func(n int, req *http.Request) *http.Response {
			sent = append(sent, req)
			return &http.Response{StatusCode: code, Status: fmt.Sprintf("%d Drawn", code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: header.Clone(),
				Body: io.NopCloser(bytes.NewReader(answer)), ContentLength: length, Request: req}
		}}
		bc := drawConfig(t)
		if rapid.IntRange(0, 3).Draw(t, "reconfigured") == 3 {
			// what counts is the configuration at the time of the request
			bc.HTTPClient = &http.Client{Transport: &recordTransport{}}
			_, resp, _ := operate(op, bc, drawRequest(t), "https://earlier.invalid", strings.NewReader("x"))
			closeAnswer(resp)
			configure(bc, drawConfig(t))
			c.Label("reconfigured")
		}
		bc.HTTPClient = &http.Client{Transport: rt}
		jar := rapid.Bool().Draw(t, "jar")
		if jar {
			j, _ := cookiejar.New(nil)
			pu, _ := url.Parse(u)
			j.SetCookies(pu, []*http.Cookie{{Name: "jarred", Value: "1", Path: "/"}})
			bc.HTTPClient.Jar = j
		}
		payload := drawPayload(t, 200000)
		r := drawRequest(t)
		parsed, raw, err := operate(op, bc, r, u, drawReader(t, payload))
		if op != "raw" {
			// the client's fields are set in r by now
			b, merr := r.Marshal()
			if merr != nil {
				t.Fatalf("marshalling the request again: %v", merr)
			}
			payload = b.Bytes()
		}
		if len(sent) != 1 || len(rt.bodies) != 1 {
			t.Fatalf("%s sent %d requests: %q", op, len(sent), rt.urls)
		}
		req := sent[0]
		if req.Method != "POST" || rt.urls[0] != u {
			t.Fatalf("%s to %q sent as %s %q", op, u, req.Method, rt.urls[0])
		}
		if rt.bodies[0] != string(payload) {
			t.Fatalf("%s: body differs: sent %d bytes, given %d\n%.2000q\n%.2000q", op, len(rt.bodies[0]), len(payload), rt.bodies[0], payload)
		}
		if req.ContentLength > 0 && req.ContentLength != int64(len(payload)) {
			t.Fatalf("%s: content length %d for %d bytes", op, req.ContentLength, len(payload))
		}
		if req.Host != "" && req.Host != req.URL.Host {
			t.Fatalf("%s: host header %q", op, req.Host)
		}
		if !headerIs(req.Header, "Content-Type", "application/x-ofx") {
			t.Fatalf("content type %q", req.Header.Values("Content-Type"))
		}
		if bc.UserAgent != "" && !headerIs(req.Header, "User-Agent", bc.UserAgent) || bc.UserAgent == "" && req.Header.Get("User-Agent") != "" {
			t.Fatalf("user agent %q sent as %q", bc.UserAgent, req.Header.Values("User-Agent"))
		}
		if jar && req.Header.Get("Cookie") != "jarred=1" {
			t.Fatalf("the cookie jar of the configured HTTP client was not used")
		}
		judgeAnswer(t, op, code, answer, header, want, parsed, raw, err)
		if len(payload) > 0 {
			c.NonTrivial(op + u + string(payload))
			c.Sample("%s %s: %d bytes, status %d", op, u, len(payload), code)
		}
		c.Label("%s, status 200: %v", op, code == 200)
	})
	prop(t, "configured-client", 900, 3000, func(t *rapid.T, c *Case) {
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		bc := drawConfig(t)
		failure := errors.New("no route")
		how := rapid.SampledFrom([]string{"transport-error", "timeout"}).Draw(t, "how")
		calls := 0
		bc.HTTPClient = &http.Client{Transport: transportFunc(func(req *http.Request) (*http.Response, error) {
			calls++
			if how == "timeout" {
				select {
				case <-req.Context().Done():
					return nil, req.Context().Err()
				case <-time.After(20 * time.Second):
					broken("the timeout of the configured HTTP client did not pass")
				}
			}
			return nil, failure
		})}
		if how == "timeout" {
			bc.HTTPClient.Timeout = 5 * time.Millisecond
		}
		parsed, raw, err := operate(op, bc, drawRequest(t), "https://example.invalid/ofx", strings.NewReader("x"))
		if err == nil || parsed != nil || raw != nil || calls != 1 {
			t.Fatalf("%s with a %s: %v, %v, %v after %d calls", op, how, parsed, raw, err, calls)
		}
		if how == "transport-error" && !errors.Is(err, failure) {
			t.Fatalf("%s: error %v instead of the transport's", op, err)
		}
		c.NonTrivial(op + how)
		c.Label("%s %s", op, how)
	})
	s := newHTTPSServer()
	defer s.Close()
	prop(t, "served", 1500, 8000, func(t *rapid.T, c *Case) {
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		code := rapid.SampledFrom([]int{200, 200, 200, 201, 203, 400, 404, 500, 503}).Draw(t, "status")
		doc, want := answerDocument(t, true)
		answer := []byte(doc)
		if op != "request" {
			answer = drawPayload(t, 2000000)
		}
		chunked := rapid.Bool().Draw(t, "chunked")
		s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
			w.Header().Set("X-Drawn", "a")
			w.Header().Set("Content-Type", "application/x-ofx")
			if !chunked {
				w.Header().Set("Content-Length", strconv.Itoa(len(answer)))
			}
			w.WriteHeader(code)
			for b := answer; len(b) > 0; {
				k := min(len(b), 100000)
				w.Write(b[:k])
				b = b[k:]
				if chunked {
					w.(http.Flusher).Flush()
				}
			}
		})
		bc := drawConfig(t)
		if rapid.Bool().Draw(t, "own") {
			bc.HTTPClient = s.Client()
		}
		path := rapid.SampledFrom([]string{"", "/", "/ofx", "/a%20b/ofx.dll?x=1&y=2", "/%C3%A9?q"}).Draw(t, "path")
		payload := drawPayload(t, 2000000)
		r := drawRequest(t)
		parsed, raw, err := operate(op, bc, r, s.URL+path, drawReader(t, payload))
		if op != "raw" {
			b, merr := r.Marshal()
			if merr != nil {
				t.Fatalf("marshalling the request again: %v", merr)
			}
			payload = b.Bytes()
		}
		got := s.received()
		if len(got) != 1 {
			t.Fatalf("%s sent %d requests", op, len(got))
		}
		if path == "" || path[0] == '?' {
			path = "/" + path
		}
		g := got[0]
		if g.method != "POST" || g.uri != path || g.host != strings.TrimPrefix(s.URL, "https://") || g.body != string(payload) {
			t.Fatalf("%s to %s arrived as %s %s at %s with %d bytes (%d given)\n%.1000q\n%.1000q", op, path, g.method, g.uri, g.host, len(g.body), len(payload), g.body, payload)
		}
		if !headerIs(g.header, "Content-Type", "application/x-ofx") || bc.UserAgent != "" && !headerIs(g.header, "User-Agent", bc.UserAgent) {
			t.Fatalf("headers %v", g.header)
		}
		judgeAnswer(t, op, code, answer, http.Header{"X-Drawn": {"a"}}, want, parsed, raw, err)
		c.NonTrivial(op + path + string(payload))
		c.Label("%s, status 200: %v", op, code == 200)
	})
	hugeExchanges(t, "basic", s)
}

type transportFunc func(*http.Request) (*http.Response, error)

func (f transportFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// judgeAnswer checks what an operation made of an answer: raw operations give
// it unaltered, for error statuses along with an error, and Request parses it.
func judgeAnswer(t *rapid.T, op string, code int, answer []byte, header http.Header, want *ofxgo.Response, parsed *ofxgo.Response, raw *http.Response, err error) {
	if (err == nil) != (code == 200) {
		t.Fatalf("%s answered with status %d: error %v", op, code, err)
	}
	if op == "request" {
		if code != 200 {
			if parsed != nil {
				t.Fatalf("response %v in spite of status %d", parsed, code)
			}
			return
		}
		if parsed == nil {
			t.Fatalf("no response")
		}
		if d := diffResponses(want, parsed); d != "" {
			t.Fatalf("answer parsed differently: %s\n%s", d, answer)
		}
		return
	}
	if raw == nil {
		t.Fatalf("%s answered with status %d: no answer, error %v", op, code, err)
	}
	defer raw.Body.Close()
	b, rerr := io.ReadAll(raw.Body)
	if rerr != nil || string(b) != string(answer) {
		t.Fatalf("%s: answer of %d bytes read as %d bytes (%v)\n%.1000q\n%.1000q", op, len(answer), len(b), rerr, answer, b)
	}
	if raw.StatusCode != code {
		t.Fatalf("%s: status %d became %d", op, code, raw.StatusCode)
	}
	for k, v := range header {
		if !reflect.DeepEqual(raw.Header[k], v) {
			t.Fatalf("%s: header %s %q became %q", op, k, v, raw.Header[k])
		}
	}
}

// rawAnswer renders an HTTP answer in a drawn framing; closes tells whether
// the end of the body is the end of the connection.
func rawAnswer(t *rapid.T, status string, body []byte) (out []byte, closes bool) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %s\r\nContent-Type: application/x-ofx\r\n", status)
	switch rapid.IntRange(0, 2).Draw(t, "framing") {
	case 0:
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(body))
		b.Write(body)
	case 1:
		fmt.Fprintf(&b, "Transfer-Encoding: chunked\r\n\r\n")
		for len(body) > 0 {
			k := min(len(body), rapid.SampledFrom([]int{1, 10, 1000, 50000}).Draw(t, "chunk"))
			if len(body) > 20000 {
				k = min(len(body), 50000)
			}
			fmt.Fprintf(&b, "%x\r\n%s\r\n", k, body[:k])
			body = body[k:]
		}
		b.WriteString("0\r\n\r\n")
	default:
		b.WriteString("Connection: close\r\n\r\n")
		b.Write(body)
		closes = true
	}
	return b.Bytes(), closes
}

// C19: the byte sequence Discover requires.
func TestC19(t *testing.T) {
	rule("Drawn requests or payloads are sent by the Discover client to a local TLS server which records every byte of the connection until the client closes it; they are compared with the required sequence. Drawn answers (status, framing, body, breakage) must be delivered or give an error. Every case is non-trivial.")
	s := newRawServer()
	port := s.addr[strings.LastIndexByte(s.addr, ':'):]
	prop(t, "bytes", 4800, 24000, func(t *rapid.T, c *Case) {
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		host := rapid.SampledFrom([]string{"127.0.0.1", "127.0.0.1", "localhost"}).Draw(t, "host")
		path := rapid.SampledFrom([]string{"", "/", "/ofx", "/a/b.dll", "/a%20b", "/%C3%A9/x", "/ofx/", "/a;b", "/" + longToken(t, "path")}).Draw(t, "path")
		query := rapid.SampledFrom([]string{"", "", "?x=1", "?" + longToken(t, "query")}).Draw(t, "query")
		payload := drawPayload(t, 300000)
		code := rapid.SampledFrom([]int{200, 200, 200, 200, 201, 204, 302, 400, 403, 404, 500, 503}).Draw(t, "status")
		doc, want := answerDocument(t, true)
		answer := []byte(doc)
		if op != "request" {
			answer = drawPayload(t, 300000)
		}
		if code == 204 {
			answer = nil
		}
		out, closes := rawAnswer(t, fmt.Sprintf("%d Drawn", code), answer)
		s.begin(func(n int, req []byte, w io.Writer) bool {
			w.Write(out)
			return closes
		})
		r := drawRequest(t)
		bc := drawConfig(t)
		parsed, raw, err := operate(op, ofxgo.NewDiscoverCardClient(bc), r, "https://"+host+port+path+query, drawReader(t, payload))
		if op != "raw" {
			b, merr := r.Marshal()
			if merr != nil {
				t.Fatalf("marshalling the request again: %v", merr)
			}
			payload = b.Bytes()
		}
		if (err == nil) != (code == 200) {
			t.Fatalf("%s answered with status %d: error %v", op, code, err)
		}
		if code == 200 {
			judgeAnswer(t, op, code, answer, nil, want, parsed, raw, err)
		} else if parsed != nil {
			t.Fatalf("response in spite of status %d", code)
		}
		closeAnswer(raw)
		conns := s.take()
		if len(conns) != 1 {
			t.Fatalf("%s opened %d connections", op, len(conns))
		}
		for start := time.Now(); !conns[0].closed() && time.Since(start) < 5*time.Second; {
			time.Sleep(time.Millisecond)
		}
		if path == "" {
			path = "/"
		}
		expect := "POST " + path + " HTTP/1.1\r\nContent-Type: application/x-ofx\r\nHost: " + host + "\r\nContent-Length: " + strconv.Itoa(len(payload)) + "\r\nConnection: Keep-Alive\r\n\r\n" + string(payload)
		if got := conns[0].bytes(); got != expect {
			t.Fatalf("%s sent %d bytes\n%.1500q\nexpected %d bytes\n%.1500q", op, len(got), got, len(expect), expect)
		}
		c.NonTrivial(op + path + string(payload))
		c.Label("%s, status 200: %v", op, code == 200)
		c.Sample("%s: %.300q", op, expect)
	})
	prop(t, "broken-answer", 2400, 12000, func(t *rapid.T, c *Case) {
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		doc, _ := answerDocument(t, true)
		whole := fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: application/x-ofx\r\nContent-Length: %d\r\n\r\n%s", len(doc), doc)
		headLen := len(whole) - len(doc)
		var out string
		how := rapid.SampledFrom([]string{"cut-head", "cut-body", "garbage", "silence", "bad-status", "bad-chunk"}).Draw(t, "how")
		switch how {
		case "cut-head":
			out = whole[:rapid.IntRange(0, headLen-1).Draw(t, "cut")]
		case "cut-body":
			most := len(doc) - 1
			if op == "request" { // the document must not be complete
				most = strings.LastIndex(doc, "</OFX") + len("</OFX")
			}
			out = whole[:headLen+rapid.IntRange(0, most).Draw(t, "cut")]
		case "garbage":
			out = rapid.SampledFrom([]string{"<html>\r\n\r\n", "\x00\x01\x02\r\n\r\n", "OFXHEADER:100\r\n\r\n", "HTTP 200 OK\r\n\r\n"}).Draw(t, "garbage") + doc
		case "bad-status":
			out = strings.Replace(whole, "200", rapid.SampledFrom([]string{"2x0", "-200", "20", ""}).Draw(t, "code"), 1)
		case "bad-chunk":
			out = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + rapid.SampledFrom([]string{"zz\r\n", "5\r\nab", "5\r\nabcde\r\n", "-1\r\n"}).Draw(t, "chunk")
		}
		s.begin(func(n int, req []byte, w io.Writer) bool {
			io.WriteString(w, out)
			return true
		})
		parsed, raw, err := operate(op, ofxgo.NewDiscoverCardClient(drawConfig(t)), drawRequest(t), "https://127.0.0.1"+port+"/ofx", strings.NewReader("x"))
		if op == "request" && (err == nil || parsed != nil) {
			t.Fatalf("response from a broken answer (%s)\n%q", how, out)
		}
		if raw != nil && err == nil {
			if _, rerr := io.ReadAll(raw.Body); rerr == nil {
				t.Fatalf("%s: broken answer (%s) delivered as a whole one\n%q", op, how, out)
			}
		}
		if op != "request" && raw == nil && err == nil {
			t.Fatalf("%s: neither answer nor error", op)
		}
		closeAnswer(raw)
		c.NonTrivial(op + out)
		c.Label("%s %s", op, how)
	})
	hs := newHTTPSServer()
	defer hs.Close()
	hugeExchanges(t, "discover", hs)
	prop(t, "failing-reader", 300, 1000, func(t *rapid.T, c *Case) {
		failure := errors.New("cannot read")
		s.begin(func(n int, req []byte, w io.Writer) bool {
			io.WriteString(w, "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n")
			return false
		})
		raw, err := ofxgo.NewDiscoverCardClient(drawConfig(t)).RawRequest("https://127.0.0.1"+port+"/ofx", io.MultiReader(bytes.NewReader(drawPayload(t, 5000)), errReader{failure}))
		closeAnswer(raw)
		if err == nil || raw != nil {
			t.Fatalf("a document which could not be read was sent")
		}
		for _, rc := range s.take() {
			if eventually(rc.closed); rc.bytes() != "" {
				t.Fatalf("a document which could not be read was sent as %q", rc.bytes())
			}
		}
		c.NonTrivial("failing reader")
	})
}

type errReader struct{ err error }

func (e errReader) Read([]byte) (int, error) { return 0, e.err }

// C20: Vanguard's cookie retry.
func TestC20(t *testing.T) {
	rule("A local TLS server answers the Vanguard client's requests with drawn bodies (empty, short, long; with a length, chunked or flushed) and drawn cookies; every request that arrives is recorded and compared with the rule: one retry exactly for empty answers with cookies. Non-trivial when the first answer sets cookies or is empty.")
	assuming("Cookie names and values are plain tokens; answers of the retry rule have status 200.")
	s := newHTTPSServer()
	defer s.Close()
	var serial atomic.Int64
	type cookie struct{ name, value, attrs string }
	longValue := func(t *rapid.T) string {
		if rapid.IntRange(0, 9).Draw(t, "longer") < 9 {
			return ""
		}
		return longToken(t, "cookie")
	}
	drawCookies := func(t *rapid.T) (cs []cookie) {
		n := rapid.IntRange(0, 4).Draw(t, "cookies")
		if rapid.IntRange(0, 19).Draw(t, "many") == 19 {
			n = rapid.IntRange(5, 40).Draw(t, "more")
		}
		for i := 0; i < n; i++ {
			cs = append(cs, cookie{
				rapid.OneOf(rapid.SampledFrom([]string{"JSESSIONID", "a", "a", "B", "TS01"}), rapid.StringMatching(`[A-Za-z_][A-Za-z0-9_.-]{0,10}`)).Draw(t, "name"),
				rapid.StringMatching(`[A-Za-z0-9+/=_.:%!-]{0,40}`).Draw(t, "value") + longValue(t),
				rapid.SampledFrom([]string{"", "; Path=/", "; Path=/other; Secure; HttpOnly", "; Domain=example.invalid", "; Max-Age=0", "; Expires=Thu, 01 Jan 1970 00:00:00 GMT", "; SameSite=Strict; Secure"}).Draw(t, "attrs")})
		}
		return
	}
	prop(t, "retry", 6400, 24000, func(t *rapid.T, c *Case) {
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		doc, want := answerDocument(t, true)
		var bodies [3]string
		var cookies [3][]cookie
		var framing [3]string
		codes := [3]int{200, 200, 200}
		for i := range bodies {
			bodies[i] = rapid.SampledFrom([]string{"", "", doc, doc, "x", " ", "\r\n"}).Draw(t, "body")
			if i == 0 && rapid.Bool().Draw(t, "force") {
				bodies[i] = ""
			}
			cookies[i] = drawCookies(t)
			framing[i] = rapid.SampledFrom([]string{"length", "chunked", "delayed", "close"}).Draw(t, "framing")
		}
		if rapid.IntRange(0, 3).Draw(t, "failing") == 3 {
			codes[1] = rapid.SampledFrom([]int{201, 400, 403, 500}).Draw(t, "status")
			if op == "raw" || bodies[0] != "" || len(cookies[0]) == 0 {
				codes[0] = codes[1]
			}
		}
		s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
			n = min(n, 2)
			for _, ck := range cookies[n] {
				w.Header().Add("Set-Cookie", ck.name+"="+ck.value+ck.attrs)
			}
			w.Header().Set("Content-Type", "application/x-ofx")
			switch framing[n] {
			case "length":
				w.Header().Set("Content-Length", strconv.Itoa(len(bodies[n])))
			case "close":
				w.Header().Set("Connection", "close")
			}
			w.WriteHeader(codes[n])
			switch framing[n] {
			case "chunked":
				w.(http.Flusher).Flush()
			case "delayed":
				w.(http.Flusher).Flush()
				time.Sleep(2 * time.Millisecond)
			}
			if bodies[n] != "" {
				io.WriteString(w, bodies[n])
			}
		})
		r := drawRequest(t)
		bc := drawConfig(t)
		path := fmt.Sprintf("/us/Ofx%d?q=%d", serial.Add(1), rapid.IntRange(0, 9).Draw(t, "q"))
		payload := drawPayload(t, 20000)
		parsed, raw, err := operate(op, ofxgo.NewVanguardClient(bc), r, s.URL+path, drawReader(t, payload))
		if op != "raw" {
			b, merr := r.Marshal()
			if merr != nil {
				t.Fatalf("marshalling the request again: %v", merr)
			}
			payload = b.Bytes()
		}
		retry := op != "raw" && bodies[0] == "" && len(cookies[0]) > 0
		got := s.received()
		if expect := map[bool]int{false: 1, true: 2}[retry]; len(got) != expect {
			t.Fatalf("%s: %d requests, expected %d (first answer %q, %s, cookies %v)", op, len(got), expect, bodies[0], framing[0], cookies[0])
		}
		for i, g := range got {
			if g.method != "POST" || g.uri != path || g.body != string(payload) {
				t.Fatalf("%s: request %d is %s %s with %d bytes (document: %d bytes)\n%.1000q\n%.1000q", op, i+1, g.method, g.uri, len(g.body), len(payload), g.body, payload)
			}
			if !headerIs(g.header, "Content-Type", "application/x-ofx") || bc.UserAgent != "" && !headerIs(g.header, "User-Agent", bc.UserAgent) {
				t.Fatalf("%s: request %d has headers %v, expected User-Agent %q", op, i+1, g.header, bc.UserAgent)
			}
			var have, should []string
			for _, line := range g.header.Values("Cookie") {
				for _, p := range strings.Split(line, ";") {
					have = append(have, strings.TrimSpace(p))
				}
			}
			if i == 1 {
				for _, ck := range cookies[0] {
					should = append(should, ck.name+"="+ck.value)
				}
			}
			sort.Strings(have)
			sort.Strings(should)
			if !reflect.DeepEqual(have, should) {
				t.Fatalf("%s: request %d has cookies %q, expected %q", op, i+1, have, should)
			}
		}
		last := 0
		if retry {
			last = 1
		}
		if codes[last] != 200 {
			if err == nil || parsed != nil {
				t.Fatalf("%s: no error for status %d", op, codes[last])
			}
			closeAnswer(raw)
		} else if op == "request" {
			if bodies[last] != doc {
				if err == nil || parsed != nil {
					t.Fatalf("%q parsed as a response", bodies[last])
				}
			} else if err != nil || parsed == nil {
				t.Fatalf("answer not parsed: %v", err)
			} else if d := diffResponses(want, parsed); d != "" {
				t.Fatalf("answer parsed differently: %s", d)
			}
		} else {
			judgeAnswer(t, op, 200, []byte(bodies[last]), nil, want, parsed, raw, err)
		}
		if bodies[0] == "" || len(cookies[0]) > 0 {
			c.NonTrivial(fmt.Sprint(op, bodies, cookies, framing))
			c.Sample("%s: %v %v %v", op, framing, cookies[0], len(bodies[0]))
		}
		c.Label("%s, empty %v, cookies %v, %s", op, bodies[0] == "", len(cookies[0]) > 0, framing[0])
	})
	redirectedRetries(t, s)
	hugeExchanges(t, "vanguard", s)
}

// C20, continued: redirects before the answers don't change where the retry
// goes and what it carries.
func redirectedRetries(t *testing.T, s *httpsServer) {
	prop(t, "redirected", 1200, 6000, func(t *rapid.T, c *Case) {
		op := rapid.SampledFrom([]string{"request", "noparse"}).Draw(t, "op")
		doc, want := answerDocument(t, true)
		retry := rapid.IntRange(0, 3).Draw(t, "retry") > 0
		// what is expected to arrive, and how each request is answered
		type step struct {
			path, to string
			retried  bool
		}
		home := fmt.Sprintf("/us/Ofx?q=%d", rapid.IntRange(0, 9).Draw(t, "q"))
		var steps []step
		answers := 1
		if retry {
			answers = 2
		}
		moves := 0
		for a := 0; a < answers; a++ {
			path := home
			for i := rapid.IntRange(0, 2).Draw(t, "moves"); i > 0; i-- {
				to := fmt.Sprintf("/moved%d/%d", a, i)
				steps = append(steps, step{path, to, a == 1})
				path = to
				moves++
			}
			steps = append(steps, step{path, "", a == 1})
		}
		status := rapid.SampledFrom([]int{307, 308}).Draw(t, "status")
		onMove := rapid.Bool().Draw(t, "cookieonmove")
		s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
			if n >= len(steps) {
				return
			}
			if st := steps[n]; st.to != "" {
				if onMove {
					w.Header().Add("Set-Cookie", "moved=1")
				}
				http.Redirect(w, r, st.to, status)
				return
			}
			if retry && n < len(steps)-1 && !steps[n].retried {
				w.Header().Add("Set-Cookie", "session=abc")
				w.Header().Add("Set-Cookie", "node=7; Path=/")
				return
			}
			io.WriteString(w, doc)
		})
		r := drawRequest(t)
		bc := drawConfig(t)
		parsed, raw, err := operate(op, ofxgo.NewVanguardClient(bc), r, s.URL+home, nil)
		b, merr := r.Marshal()
		if merr != nil {
			t.Fatalf("marshalling the request again: %v", merr)
		}
		got := s.received()
		for i := range max(len(got), len(steps)) {
			if i >= len(got) || i >= len(steps) || got[i].uri != steps[i].path {
				t.Fatalf("%s: requests %v, expected %v", op, describeURIs(got), steps)
			}
			g := got[i]
			if g.method != "POST" || g.body != b.String() {
				t.Fatalf("%s: request %d is %s with %d bytes (document: %d bytes)", op, i+1, g.method, len(g.body), b.Len())
			}
			if !headerIs(g.header, "Content-Type", "application/x-ofx") || bc.UserAgent != "" && !headerIs(g.header, "User-Agent", bc.UserAgent) {
				t.Fatalf("%s: request %d has headers %v, expected User-Agent %q", op, i+1, g.header, bc.UserAgent)
			}
			if g.uri != home {
				continue // cookies after a redirect are the HTTP library's business
			}
			cookies, should := strings.Join(g.header.Values("Cookie"), "; "), ""
			if steps[i].retried {
				should = "session=abc; node=7"
			}
			if cookies != should {
				t.Fatalf("%s: request %d has cookies %q, expected %q", op, i+1, cookies, should)
			}
		}
		judgeAnswer(t, op, 200, []byte(doc), nil, want, parsed, raw, err)
		if moves > 0 {
			c.NonTrivial(fmt.Sprint(op, steps, onMove, status, doc))
			c.Sample("%s: %v", op, steps)
		}
		c.Label("retry %v, %d redirects", retry, moves)
	})
}

func describeURIs(got []received) (out []string) {
	for _, g := range got {
		out = append(out, g.uri)
	}
	return
}

// C21: choice of clients and their configuration.
func TestC21(t *testing.T) {
	rule("Drawn URLs at and around the institutions' ones with drawn configurations decide the kind of client; requests sent by each kind (to a recording HTTP client or local servers) are compared with the reference document made of the caller's content and the client's configuration, including version, formatting and time. Every case is non-trivial.")
	netSetup()
	special := map[string]string{"https://ofx.discovercard.com": "discover", "https://vesnc.vanguard.com/us/OfxDirectConnectServlet": "vanguard"}
	prop(t, "choice", 80000, 300000, func(t *rapid.T, c *Case) {
		var u, kind string
		base := rapid.SampledFrom([]string{"https://ofx.discovercard.com", "https://vesnc.vanguard.com/us/OfxDirectConnectServlet"}).Draw(t, "base")
		switch rapid.IntRange(0, 3).Draw(t, "form") {
		case 0: // slashes around
			u = rapid.StringMatching(`/{0,3}`).Draw(t, "before") + base + rapid.StringMatching(`/{0,3}`).Draw(t, "after")
			kind = special[base]
		case 1: // near misses
			i := rapid.IntRange(0, len(base)-1).Draw(t, "at")
			u = base[:i] + rapid.SampledFrom([]string{"", "x", "/", ".", "A", " "}).Draw(t, "char") + base[i+1:]
			if strings.Trim(u, "/") == base {
				kind = special[base]
			}
		case 2:
			u = rapid.SampledFrom([]string{"%s/x", "%s?x=1", "%s:443", " %s", "%s ", "%s#", "x%s", "%s/us", "%s.evil.invalid", "https://evil.invalid/?%s"}).Draw(t, "around")
			u = strings.Replace(u, "%s", base, 1)
		default:
			u = rapid.OneOf(plainURLs, rapid.SampledFrom([]string{"", "/", "https://", "http://ofx.discovercard.com", "https://www.discovercard.com", "https://OFX.discovercard.com", "https://discovercard.com", "https://vesnc.vanguard.com", "https://vesnc.vanguard.com/us", "https://vesnc.vanguard.com/us/ofxdirectconnectservlet", "http://vesnc.vanguard.com/us/OfxDirectConnectServlet"})).Draw(t, "other")
		}
		bc := drawConfig(t)
		cl := ofxgo.GetClient(u, bc)
		got := "other"
		switch x := cl.(type) {
		case *ofxgo.DiscoverCardClient:
			got = "discover"
			if x.BasicClient != bc {
				t.Fatalf("client for %q has another configuration", u)
			}
		case *ofxgo.VanguardClient:
			got = "vanguard"
			if x.BasicClient != bc {
				t.Fatalf("client for %q has another configuration", u)
			}
		case *ofxgo.BasicClient:
			got = ""
			if x != bc {
				t.Fatalf("client for %q is not the configured one", u)
			}
		}
		if got != kind {
			t.Fatalf("client for %q is %T, expected %q", u, cl, kind)
		}
		checkSettings(t, cl, bc)
		c.NonTrivial(u)
		c.Label("%q", kind)
		c.Sample("%q: %T", u, cl)
	})
	s := newHTTPSServer()
	defer s.Close()
	raw := newRawServer()
	prop(t, "governs", 16000, 60000, func(t *rapid.T, c *Case) {
		kind := rapid.SampledFrom([]string{"basic", "basic", "basic", "fields", "fields", "discover", "vanguard"}).Draw(t, "client")
		op := rapid.SampledFrom([]string{"request", "noparse"}).Draw(t, "op")
		r := drawRequest(t)
		if r.Signon.Language == "" {
			r.Signon.Language = "ENG"
		}
		// whatever an earlier client or the caller left in the client's fields
		// is overwritten
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "earlier"); i < n; i++ {
			r.SetClientFields(makeClient(rapid.SampledFrom([]string{"basic", "discover", "vanguard"}).Draw(t, "earlierclient"), drawConfig(t)))
			if rapid.Bool().Draw(t, "written") {
				if _, err := r.Marshal(); err != nil {
					t.Fatalf("marshalling: %v", err)
				}
			}
			c.Label("used before")
		}
		setReqVersion(r, rapid.IntRange(-1, len(versionStrings)-1).Draw(t, "oldversion"))
		r.Signon.AppID = ofxgo.String(rapid.SampledFrom([]string{"", "OLD", "OFXGO"}).Draw(t, "oldid"))
		r.Signon.AppVer = ofxgo.String(rapid.SampledFrom([]string{"", "1900", "toolong"}).Draw(t, "oldver"))
		before := requestNode(r)
		bc := drawConfig(t)
		cl := makeClient(kind, bc)
		checkSettings(t, cl, bc)
		if rapid.IntRange(0, 3).Draw(t, "reconfigured") == 3 {
			// what counts is the configuration at the time of the request
			other := drawRequest(t)
			other.SetClientFields(cl)
			if kind == "basic" {
				bc.HTTPClient = &http.Client{Transport: &recordTransport{}}
				_, resp, _ := operate(op, cl, other, "https://earlier.invalid", nil)
				closeAnswer(resp)
			}
			configure(bc, drawConfig(t))
			checkSettings(t, cl, bc)
			c.Label("reconfigured")
		}
		var sent string
		t0 := time.Now()
		switch kind {
		case "basic":
			rt := &recordTransport{}
			bc.HTTPClient = &http.Client{Transport: rt}
			_, resp, err := operate(op, cl, r, "https://example.invalid", nil)
			closeAnswer(resp)
			if err != nil || len(rt.bodies) != 1 {
				t.Fatalf("%d requests, error %v", len(rt.bodies), err)
			}
			sent = rt.bodies[0]
		case "fields":
			r.SetClientFields(cl)
			b, err := r.Marshal()
			if err != nil {
				t.Fatalf("marshalling: %v", err)
			}
			sent = b.String()
		case "discover":
			raw.begin(func(n int, req []byte, w io.Writer) bool {
				fmt.Fprintf(w, "HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n%s", sgmlHead+signonBlock+"</OFX>")
				return true
			})
			_, resp, err := operate(op, cl, r, "https://"+raw.addr, nil)
			closeAnswer(resp)
			conns := raw.take()
			if err != nil || len(conns) != 1 {
				t.Fatalf("%d connections, error %v", len(conns), err)
			}
			_, sent, _ = strings.Cut(conns[0].bytes(), "\r\n\r\n")
		case "vanguard":
			s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
				io.WriteString(w, sgmlHead+signonBlock+"</OFX>")
			})
			_, resp, err := operate(op, cl, r, s.URL, nil)
			closeAnswer(resp)
			got := s.received()
			if err != nil || len(got) != 1 {
				t.Fatalf("%d requests, error %v", len(got), err)
			}
			sent = got[0].body
		}
		t1 := time.Now()
		ver, id, av := settings(bc)
		if int(reflect.ValueOf(r).Elem().FieldByName("Version").Uint())-1 != ver || string(r.Signon.AppID) != id || string(r.Signon.AppVer) != av {
			t.Fatalf("request has version %v, application %q %q; configured %+v", r.Version, r.Signon.AppID, r.Signon.AppVer, bc)
		}
		if d := r.Signon.DtClient.Time; d.Before(t0.Add(-time.Millisecond)) || d.After(t1.Add(time.Millisecond)) {
			t.Fatalf("client time %v, sent between %v and %v", d, t0, t1)
		}
		// the rest of the request is as it was
		after := requestNode(r)
		hide := func(n *Node) *Node {
			n = prune(n)
			son := n.Kids[0].Kids[0]
			var kids []*Node
			for _, k := range son.Kids {
				if k.Name != "DTCLIENT" && k.Name != "APPID" && k.Name != "APPVER" {
					kids = append(kids, k)
				}
			}
			son.Kids = kids
			return n
		}
		if d := diffTrees(hide(before), hide(after)); d != "" {
			t.Fatalf("sending changed the caller's content: %s", d)
		}
		// and is what was sent
		want := requestNode(r)
		for _, k := range want.Kids[0].Kids[0].Kids {
			if k.Name == "DTCLIENT" {
				k.Val.T = k.Val.T.Truncate(time.Millisecond)
				k.Val.Zone = ""
				k.Val.Off -= k.Val.Off % 60
			}
		}
		checkDocument(t, sent, want, ver, true)
		if p := formatProblem(sent, !bc.NoIndent, bc.CarriageReturn); p != "" {
			t.Fatalf("client with NoIndent %v, CarriageReturn %v: %s\n%q", bc.NoIndent, bc.CarriageReturn, p, sent)
		}
		c.NonTrivial(kind + op + sent)
		c.Label("%s %s", kind, op)
		c.Label("version %s", versionStrings[ver])
	})
}

// settings are what a configuration stands for: its values or the defaults.
func settings(bc *ofxgo.BasicClient) (ver int, id, appver string) {
	ver, id, appver = v203, "OFXGO", "0001"
	if k := int(reflect.ValueOf(bc).Elem().FieldByName("SpecVersion").Uint()); k >= 1 && k <= len(versionStrings) {
		ver = k - 1
	}
	if bc.AppID != "" {
		id = bc.AppID
	}
	if bc.AppVer != "" {
		appver = bc.AppVer
	}
	return
}

func checkSettings(t *rapid.T, cl ofxgo.Client, bc *ofxgo.BasicClient) {
	ver, id, av := settings(bc)
	if cl.OfxVersion().String() != versionStrings[ver] || string(cl.ID()) != id || string(cl.Version()) != av || cl.IndentRequests() == bc.NoIndent || cl.CarriageReturnNewLines() != bc.CarriageReturn {
		t.Fatalf("%T configured with %+v gives version %v, application %q %q, indent %v, carriage return %v", cl, bc, cl.OfxVersion(), cl.ID(), cl.Version(), cl.IndentRequests(), cl.CarriageReturnNewLines())
	}
}

// formatProblem judges the white space of a document against the options.
func formatProblem(doc string, indent, cr bool) string {
	bare := strings.ReplaceAll(doc, "\r\n", "")
	switch {
	case cr && strings.ContainsAny(bare, "\r\n"):
		return "a line does not end with CR LF"
	case !cr && strings.Contains(doc, "\r"):
		return "carriage return"
	}
	body := doc[strings.Index(doc, "<OFX>"):]
	lines := strings.Split(strings.ReplaceAll(strings.TrimRight(body, "\r\n"), "\r\n", "\n"), "\n")
	if !indent {
		if len(lines) > 1 {
			return "line breaks between elements although indentation is off"
		}
		return ""
	}
	if len(lines) < 3 {
		return "no line breaks between elements although indentation is on"
	}
	for i, l := range lines {
		if i > 0 && i < len(lines)-1 && strings.TrimLeft(l, " \t") == l {
			return "line without indentation: " + l
		}
		if strings.Count(l, "<") > 2 {
			return "several elements in one line: " + l
		}
	}
	return ""
}

// trackedBody notes whether a body has been closed, and reads after that.
type trackedBody struct {
	r      io.Reader
	closed atomic.Bool
	late   atomic.Bool
}

func (b *trackedBody) Read(p []byte) (int, error) {
	if b.closed.Load() {
		b.late.Store(true)
		return 0, errors.New("read after close")
	}
	return b.r.Read(p)
}
func (b *trackedBody) Close() error { b.closed.Store(true); return nil }

var strangerModes = []string{"an untrusted certificate", "a plain answer", "an old protocol", "garbage"}

// strangers accept connections which can't become encrypted ones, and wait for
// their end.
type strangers struct {
	l    net.Listener
	cert tls.Certificate
	mu   sync.Mutex
	mode string
	open int
	any  int
}

func newStrangers() *strangers {
	s := &strangers{}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		broken("%v", err)
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(7), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		broken("%v", err)
	}
	s.cert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	if s.l, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
		broken("%v", err)
	}
	go func() {
		for {
			conn, err := s.l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			mode := s.mode
			s.open++
			s.any++
			s.mu.Unlock()
			go func() {
				switch mode {
				case "an untrusted certificate":
					tls.Server(conn, &tls.Config{Certificates: []tls.Certificate{s.cert}}).Handshake()
				case "an old protocol":
					tls.Server(conn, &tls.Config{Certificates: []tls.Certificate{s.cert}, MinVersion: tls.VersionTLS10, MaxVersion: tls.VersionTLS11}).Handshake()
				case "a plain answer":
					io.WriteString(conn, "HTTP/1.1 400 Bad Request\r\n\r\n")
				default:
					io.WriteString(conn, "\x16\x03\x03\x00\x05hello\x00\xff\xfe")
				}
				io.Copy(io.Discard, conn)
				conn.Close()
				s.mu.Lock()
				s.open--
				s.mu.Unlock()
			}()
		}
	}()
	return s
}

func (s *strangers) begin(mode string) (addr string, closed func() bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.mode, s.any, s.open = mode, 0, 0
	return s.l.Addr().String(), func() bool {
		s.mu.Lock()
		defer s.mu.Unlock()
		return s.any > 0 && s.open == 0
	}
}

// C22: connections are not leaked.
func TestC22(t *testing.T) {
	rule("Every kind of client and operation gets drawn answers (status, valid, invalid, garbage, empty, failing or endless bodies, cookies, redirects). Standard client: all bodies handed out by a recording HTTP client must be closed after parsing operations, and open and readable after raw ones until closed. Special clients: the local server's connections must be closed or idle again, and not pile up, also those on which no encryption could be agreed. Every case is non-trivial.")
	netSetup()
	prop(t, "bodies", 24000, 100000, func(t *rapid.T, c *Case) {
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		hops := rapid.SampledFrom([]int{0, 0, 0, 1, 3, 12}).Draw(t, "redirects")
		insecure := hops > 0 && rapid.IntRange(0, 3).Draw(t, "insecure") == 3
		code := rapid.SampledFrom([]int{200, 200, 200, 204, 301, 400, 500}).Draw(t, "status")
		doc, _ := answerDocument(t, rapid.IntRange(0, 3).Draw(t, "valid") > 0)
		content := rapid.SampledFrom([]string{"doc", "doc", "doc", "cut", "garbage", "empty", "failing"}).Draw(t, "content")
		body := []byte(doc)
		switch content {
		case "cut":
			body = body[:rapid.IntRange(0, len(body)).Draw(t, "cut")]
		case "garbage":
			body = drawPayload(t, 2000)
		case "empty":
			body = nil
		}
		known := rapid.Bool().Draw(t, "known length")
		var bodies []*trackedBody
		rt := &recordTransport{answer: func(n int, req *http.Request) *http.Response {
			var rd io.Reader = bytes.NewReader(body)
			if content == "failing" {
				rd = io.MultiReader(bytes.NewReader(body[:len(body)/2]), errReader{errors.New("connection lost")})
			}
			tb := &trackedBody{r: rd}
			bodies = append(bodies, tb)
			length := int64(-1)
			if known {
				length = int64(len(body))
			}
			resp := &http.Response{StatusCode: code, Status: strconv.Itoa(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: tb, ContentLength: length, Request: req}
			if n <= hops {
				resp.StatusCode = 302
				scheme := "https"
				if insecure && n == hops {
					scheme = "http"
				}
				resp.Header.Set("Location", fmt.Sprintf("%s://example.invalid/%d", scheme, n))
			}
			return resp
		}}
		bc := drawConfig(t)
		bc.HTTPClient = &http.Client{Transport: rt}
		r := drawRequest(t)
		if rapid.IntRange(0, 9).Draw(t, "badrequest") == 9 {
			r.Signon.UserID = ""
		}
		_, raw, err := operate(op, bc, r, "https://example.invalid/ofx", strings.NewReader("x"))
		open := 0
		for _, b := range bodies {
			if !b.closed.Load() {
				open++
			}
		}
		if raw == nil {
			if open > 0 {
				t.Fatalf("%s (status %d, %s, %d redirects) returned %v and left %d of %d bodies open", op, code, content, hops, err, open, len(bodies))
			}
		} else {
			last := bodies[len(bodies)-1]
			// a redirect which is refused leaves an answer with a closed body
			if err == nil || code != 200 && !insecure && hops < 10 {
				if open != 1 || last.closed.Load() {
					t.Fatalf("%s (status %d, %s) returned an answer and left %d bodies open", op, code, content, open)
				}
				b, rerr := io.ReadAll(raw.Body)
				if content != "failing" && (rerr != nil || string(b) != string(body)) {
					t.Fatalf("%s: the body of the answer is not readable: %v", op, rerr)
				}
			}
			raw.Body.Close()
			if !last.closed.Load() {
				t.Fatalf("%s: closing the answer does not close its body", op)
			}
		}
		for _, b := range bodies {
			if b.late.Load() {
				t.Fatalf("%s: a body was read after it was closed", op)
			}
		}
		c.NonTrivial(fmt.Sprint(op, code, content, hops, insecure, len(body)))
		c.Label("%s %s redirects=%d", op, content, hops)
		c.Sample("%s, status %d, %s, %d redirects: %v", op, code, content, hops, err)
	})
	s := newHTTPSServer()
	defer s.Close()
	prop(t, "connections", 1600, 6000, func(t *rapid.T, c *Case) {
		kind := rapid.SampledFrom([]string{"vanguard", "vanguard", "basic"}).Draw(t, "client")
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		doc, _ := answerDocument(t, rapid.IntRange(0, 3).Draw(t, "valid") > 0)
		type step struct {
			code    int
			cookies bool
			content string
		}
		var steps [3]step
		for i := range steps {
			steps[i] = step{rapid.SampledFrom([]int{200, 200, 200, 403, 500}).Draw(t, "status"), rapid.Bool().Draw(t, "cookies"), rapid.SampledFrom([]string{"doc", "empty", "empty", "endless", "garbage"}).Draw(t, "content")}
		}
		over := make(chan struct{})
		var running sync.WaitGroup
		s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
			running.Add(1)
			defer running.Done()
			st := steps[min(n, 2)]
			if st.cookies {
				w.Header().Set("Set-Cookie", "a=b")
			}
			w.WriteHeader(st.code)
			switch st.content {
			case "doc":
				io.WriteString(w, doc)
			case "garbage":
				io.WriteString(w, "<html>no</html>")
			case "endless":
				// goes on until the client closes the connection
				for {
					if _, err := io.WriteString(w, "<html>this is not OFX</html>\n"); err != nil {
						return
					}
					w.(http.Flusher).Flush()
					select {
					case <-r.Context().Done():
						return
					case <-over:
						panic(http.ErrAbortHandler)
					case <-time.After(200 * time.Microsecond):
					}
				}
			}
		})
		_, raw, err := operate(op, makeClient(kind, drawConfig(t)), drawRequest(t), s.URL, strings.NewReader("x"))
		sent := len(s.received())
		if raw != nil {
			// the answer stays usable until it is closed
			last := steps[min(sent-1, 2)]
			if last.content == "doc" && err == nil {
				if b, rerr := io.ReadAll(raw.Body); rerr != nil || string(b) != doc {
					t.Fatalf("%s client, %s: the answer is not readable: %v", kind, op, rerr)
				}
			}
			raw.Body.Close()
		}
		ok := eventually(func() bool { _, active := s.conns(); return active == 0 })
		close(over)
		if !ok {
			t.Fatalf("%s client, %s: a connection is still in use after the operation (answers %v, error %v)", kind, op, steps[:sent], err)
		}
		if !eventually(func() bool { open, _ := s.conns(); return open <= 6 }) {
			open, _ := s.conns()
			t.Fatalf("%s client, %s: %d connections are open after sequential operations", kind, op, open)
		}
		c.NonTrivial(fmt.Sprint(kind, op, steps, err))
		c.Label("%s %s %s", kind, op, steps[0].content)
	})
	strangers := newStrangers()
	prop(t, "no-handshake", 600, 4000, func(t *rapid.T, c *Case) {
		kind := rapid.SampledFrom(clientKinds).Draw(t, "client")
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		mode := rapid.SampledFrom(strangerModes).Draw(t, "server")
		addr, closed := strangers.begin(mode)
		_, answer, err := operate(op, makeClient(kind, drawConfig(t)), drawRequest(t), "https://"+addr, strings.NewReader("x"))
		if answer != nil || err == nil {
			t.Fatalf("%s client, %s: a server with %s answered: %v", kind, op, mode, err)
		}
		if !eventually(closed) {
			t.Fatalf("%s client, %s: the connection to a server with %s is still open after the operation (error %v)", kind, op, mode, err)
		}
		c.NonTrivial(kind + op + mode + fmt.Sprint(err))
		c.Label("%s %s: %s", kind, op, mode)
	})
	raw := newRawServer()
	prop(t, "discover", 2000, 8000, func(t *rapid.T, c *Case) {
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		doc, _ := answerDocument(t, rapid.IntRange(0, 3).Draw(t, "valid") > 0)
		content := rapid.SampledFrom([]string{"doc", "doc", "garbage", "empty", "halted", "broken", "error"}).Draw(t, "content")
		code, body := 200, doc
		switch content {
		case "garbage":
			body = "<html>no</html>"
		case "empty":
			body = ""
		case "error":
			code = rapid.SampledFrom([]int{302, 403, 500}).Draw(t, "status")
		}
		gate := make(chan struct{})
		raw.begin(func(n int, req []byte, w io.Writer) bool {
			switch content {
			case "broken":
				io.WriteString(w, "nonsense\r\n\r\n")
			case "halted": // garbage first, but the rest is never sent
				io.WriteString(w, "HTTP/1.1 200 OK\r\nContent-Length: 100000\r\n\r\n"+strings.Repeat("<html>this is not OFX</html>\n", 400))
			default:
				fmt.Fprintf(w, "HTTP/1.1 %d X\r\nContent-Length: %d\r\n\r\n%s", code, len(body), body[:len(body)/2])
				if op != "request" && code == 200 {
					<-gate // the operation has returned, the body is not complete
				}
				io.WriteString(w, body[len(body)/2:])
			}
			return false
		})
		_, answer, err := operate(op, ofxgo.NewDiscoverCardClient(drawConfig(t)), drawRequest(t), "https://"+raw.addr, strings.NewReader("x"))
		close(gate)
		if answer != nil {
			if content == "doc" {
				if b, rerr := io.ReadAll(answer.Body); rerr != nil || string(b) != doc {
					t.Fatalf("%s: the answer is not readable: %v", op, rerr)
				}
				if raw.take()[0].closed() {
					c.Label("closed by the end of the body")
				}
			}
			answer.Body.Close()
		}
		for _, rc := range raw.take() {
			if !eventually(rc.closed) {
				t.Fatalf("%s (%s): the connection is still open after the operation (error %v)", op, content, err)
			}
		}
		c.NonTrivial(fmt.Sprint(op, content, code, len(body)))
		c.Label("%s %s", op, content)
	})
}
