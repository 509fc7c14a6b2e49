package harness

import (
	"bytes"
	"io"
	"net/http"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

// requestProblems lists what is wrong with a request, judged by the rules of
// the specification which the library documents.
func requestProblems(r *ofxgo.Request) []string {
	var p []string
	bad := func(cond bool, what string) {
		if cond {
			p = append(p, what)
		}
	}
	ver := int(reflect.ValueOf(r).Elem().FieldByName("Version").Uint()) - 1
	bad(ver < 0 || ver >= len(versionStrings), "version")
	s := &r.Signon
	bad(len(s.UserID) == 0, "user id empty")
	bad(len(s.UserID) > 32, "user id long")
	bad(s.UserPass != "" && s.UserKey != "", "password and key")
	bad(s.UserPass == "" && s.UserKey == "", "neither password nor key")
	bad(len(s.UserPass) > 32, "password long")
	bad(len(s.UserKey) > 64, "key long")
	bad(len(s.Language) != 0 && len(s.Language) != 3, "language length")
	bad(len(s.AppID) == 0, "app id empty")
	bad(len(s.AppID) > 5, "app id long")
	bad(len(s.AppVer) == 0, "app version empty")
	bad(len(s.AppVer) > 4, "app version long")
	v := reflect.ValueOf(r).Elem()
	for _, ms := range messageSets {
		l := v.FieldByName(ms.Go)
		for i := 0; i < l.Len(); i++ {
			m := l.Index(i).Elem().Interface().(ofxgo.Message)
			own := false
			for _, rt := range reqTypesBySet[ms.Go] {
				own = own || reflect.TypeOf(m).Elem() == rt
			}
			if !own {
				p = append(p, "foreign message")
				continue
			}
			n := reflect.ValueOf(m).Elem().FieldByName("TrnUID").Len()
			bad(n == 0, "transaction id empty")
			bad(n > 36, "transaction id long")
			if sr, ok := m.(*ofxgo.StatementRequest); ok {
				bad(sr.BankAcctFrom.BankID == "", "bank id empty")
				bad(sr.BankAcctFrom.AcctID == "", "account id empty")
				k := reflect.ValueOf(sr.BankAcctFrom.AcctType).Uint()
				bad(k < 1 || k > uint64(len(enums["acctType"])), "account type")
				bad(bool(sr.IncludePending) && ver < v220, "pending before 2.2")
				bad(bool(sr.IncTranImg) && ver < v210, "images before 2.1")
			}
		}
	}
	return p
}

// spoilRequest applies one drawn change, which may or may not break a rule.
func spoilRequest(g *Gen, r *ofxgo.Request) {
	t := g.t
	str := func(lens ...int) ofxgo.String {
		return ofxgo.String(strings.Repeat("k", rapid.SampledFrom(lens).Draw(t, "len")))
	}
	s := &r.Signon
	var msgs []ofxgo.Message
	v := reflect.ValueOf(r).Elem()
	for _, ms := range messageSets {
		for i, l := 0, v.FieldByName(ms.Go); i < l.Len(); i++ {
			msgs = append(msgs, l.Index(i).Interface().(ofxgo.Message))
		}
	}
	switch rapid.IntRange(0, 15).Draw(t, "spoil") {
	case 0:
		reflect.ValueOf(r).Elem().FieldByName("Version").SetUint(rapid.SampledFrom([]uint64{0, 12, 13, 100, 203, 1 << 40, 1, 11}).Draw(t, "version"))
	case 1:
		s.UserID = str(0, 1, 31, 32, 33, 64)
	case 2:
		s.UserPass = str(0, 1, 31, 32, 33, 64)
	case 3:
		s.UserKey = str(0, 1, 32, 33, 63, 64, 65, 200)
	case 4:
		s.UserPass, s.UserKey = "", str(1, 33, 64, 65)
	case 5:
		s.UserPass, s.UserKey = str(1, 32, 33), ""
	case 6:
		s.Language = str(0, 1, 2, 3, 4, 5)
	case 7:
		s.AppID = str(0, 1, 4, 5, 6, 10)
	case 8:
		s.AppVer = str(0, 1, 3, 4, 5, 10)
	case 9, 10: // move or add a foreign message
		types := reqTypesBySet
		if rapid.Bool().Draw(t, "response") {
			types = respTypesBySet
		}
		from := rapid.SampledFrom(messageSets).Draw(t, "from").Go
		if len(types[from]) == 0 {
			from = "Bank"
		}
		m := g.message(rapid.SampledFrom(types[from]).Draw(t, "type"))
		l := v.FieldByName(rapid.SampledFrom(messageSets).Draw(t, "to").Go)
		l.Set(reflect.Append(l, reflect.ValueOf(m)))
	default:
		if len(msgs) == 0 {
			m := g.message(reqTypesBySet["Bank"][0])
			r.Bank = append(r.Bank, m)
			msgs = append(msgs, m)
		}
		m := rapid.SampledFrom(msgs).Draw(t, "msg")
		sr, bank := m.(*ofxgo.StatementRequest)
		uid := reflect.ValueOf(m).Elem().FieldByName("TrnUID")
		if k := rapid.IntRange(0, 5).Draw(t, "what"); bank {
			switch k {
			case 1:
				sr.BankAcctFrom.BankID = str(0, 1, 9)
				return
			case 2:
				sr.BankAcctFrom.AcctID = str(0, 1, 22)
				return
			case 3:
				reflect.ValueOf(sr).Elem().FieldByName("BankAcctFrom").FieldByName("AcctType").SetUint(rapid.SampledFrom([]uint64{0, 1, 5, 6, 7, 1000}).Draw(t, "accttype"))
				return
			case 4:
				sr.IncludePending = true
				return
			case 5:
				sr.IncTranImg = true
				return
			}
		}
		if uid.IsValid() {
			uid.SetString(string(str(0, 1, 35, 36, 37, 100)))
		}
	}
}

// recorder of requests which answers with a fixed document
type recordTransport struct {
	urls   []string
	bodies []string
	answer func(n int, req *http.Request) *http.Response
}

func (rt *recordTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	var b []byte
	if req.Body != nil {
		b, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	rt.urls = append(rt.urls, req.URL.String())
	rt.bodies = append(rt.bodies, string(b))
	if rt.answer != nil {
		return rt.answer(len(rt.urls), req), nil
	}
	return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{},
		Body: io.NopCloser(strings.NewReader(sgmlHead + signonBlock + "</OFX>")), ContentLength: -1, Request: req}, nil
}

// C08: invalid requests are never marshalled.
func TestC08(t *testing.T) {
	rule("A valid request gets 0 to 3 drawn changes, each of which may break a rule or stay at its limit; a predicate written from the rules decides whether marshalling must succeed with exactly the reference document or fail without one. Non-trivial when at least one change was made.")
	assuming("Length limits are probed with ASCII text.")
	prop(t, "marshal", 64000, 400000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		r := g.request()
		n := rapid.IntRange(0, 3).Draw(t, "changes")
		for i := 0; i < n; i++ {
			spoilRequest(g, r)
		}
		problems := requestProblems(r)
		noLang := r.Signon.Language == ""
		b, err := r.Marshal()
		if len(problems) > 0 {
			if err == nil || b != nil {
				t.Fatalf("request with %v marshalled (error %v)\n%v", problems, err, b)
			}
			for _, p := range problems {
				c.Label("%s", p)
			}
		} else {
			if err != nil {
				t.Fatalf("valid request refused: %v", err)
			}
			ver := int(reflect.ValueOf(r).Elem().FieldByName("Version").Uint()) - 1
			if noLang {
				r.Signon.Language = "ENG"
				c.Label("language defaulted")
			}
			checkDocument(t, b.String(), requestNode(r), ver, true)
			c.Label("valid after %d changes", n)
		}
		if n > 0 {
			c.NonTrivial(strings.Join(problems, ",") + describe(r))
			c.Sample("%v: %v", problems, err)
		}
	})
	prop(t, "routing-default", 4000, 10000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		r := g.request()
		p := g.message(reqTypesBySet["Prof"][0]).(*ofxgo.ProfileRequest)
		p.ClientRouting = ofxgo.String(rapid.SampledFrom([]string{"", "NONE", "SERVICE", "MSGSET", "x"}).Draw(t, "routing"))
		r.Prof = []ofxgo.Message{p}
		was := p.ClientRouting
		b, err := r.Marshal()
		if err != nil {
			t.Fatalf("valid request refused: %v", err)
		}
		c.Label("routing %q", string(was))
		p.ClientRouting = "NONE"
		checkDocument(t, b.String(), requestNode(r), g.ver, true)
		c.NonTrivial(b.String())
	})
	prop(t, "client", 12000, 60000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		r := g.request()
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "changes"); i < n; i++ {
			spoilRequest(g, r)
		}
		rt := &recordTransport{}
		bc := config(rapid.Bool().Draw(t, "noindent"), rapid.Bool().Draw(t, "cr"), rapid.IntRange(-1, len(versionStrings)).Draw(t, "clientver"))
		bc.AppID = rapid.SampledFrom([]string{"", "QWIN", "ABCDE", "ABCDEF"}).Draw(t, "appid")
		bc.AppVer = rapid.SampledFrom([]string{"", "2400", "1", "12345"}).Draw(t, "appver")
		bc.HTTPClient = &http.Client{Transport: rt}
		var err error
		noParse := rapid.Bool().Draw(t, "noparse")
		if noParse {
			var resp *http.Response
			resp, err = bc.RequestNoParse(r)
			if resp != nil {
				resp.Body.Close()
			}
		} else {
			_, err = bc.Request(r)
		}
		// the client has by now overwritten its fields in r
		problems := requestProblems(r)
		if len(problems) > 0 {
			if err == nil || len(rt.urls) > 0 {
				t.Fatalf("request with %v: sent %d times, error %v\n%q", problems, len(rt.urls), err, rt.bodies)
			}
			c.NonTrivial(strings.Join(problems, ",") + describe(r))
			c.Label("refused")
			return
		}
		if err != nil || len(rt.urls) != 1 {
			t.Fatalf("valid request: sent %d times, error %v", len(rt.urls), err)
		}
		r.Signon.DtClient.Time = r.Signon.DtClient.Truncate(time.Millisecond)
		checkDocument(t, rt.bodies[0], requestNode(r), int(reflect.ValueOf(r).Elem().FieldByName("Version").Uint())-1, true)
		c.NonTrivial(rt.bodies[0])
		c.Label("sent")
	})
}

func describe(r *ofxgo.Request) string {
	var b bytes.Buffer
	v := reflect.ValueOf(r).Elem()
	for _, ms := range messageSets {
		for i, l := 0, v.FieldByName(ms.Go); i < l.Len(); i++ {
			b.WriteString(ms.Go + ":" + l.Index(i).Elem().Type().String() + " ")
		}
	}
	return b.String() + string(r.Signon.UserID) + "/" + string(r.Signon.AppID) + "/" + string(r.Signon.Language)
}
