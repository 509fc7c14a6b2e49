package harness

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

// hangLimit bounds one parse of a small document; such a parse takes well
// under 50 ms, even under the race detector on a loaded machine.
const hangLimit = 60 * time.Second

type parsed struct {
	resp  *ofxgo.Response
	err   error
	panic any
}

// guarded runs one parse, turning panics into values and hangs into aborts.
func guarded(part, input string, f func() (*ofxgo.Response, error)) parsed {
	ch := make(chan parsed, 1)
	go func() {
		var p parsed
		defer func() {
			if e := recover(); e != nil {
				p.panic = e
			}
			ch <- p
		}()
		p.resp, p.err = f()
	}()
	timer := time.NewTimer(hangLimit)
	defer timer.Stop()
	select {
	case p := <-ch:
		return p
	case <-timer.C:
		abort(part, fmt.Sprintf("parsing %d bytes took over %v", len(input), hangLimit), input)
	}
	panic("unreachable")
}

// parseBoth decodes and parses an input and checks the contract of results.
// It returns the decoding result.
func parseBoth(t fataler, part, input string, mk func() io.Reader) parsed {
	d := guarded(part, input, func() (*ofxgo.Response, error) { return ofxgo.DecodeResponse(mk()) })
	if d.panic != nil {
		t.Fatalf("decoding panicked: %v\n%q", d.panic, input)
	}
	if (d.resp == nil) == (d.err == nil) {
		t.Fatalf("decoding returned response %v with error %v\n%q", d.resp != nil, d.err, input)
	}
	if d.err == nil && !ending.MatchString(input) {
		t.Fatalf("accepted without a closing tag: %q", input)
	}
	p := guarded(part, input, func() (*ofxgo.Response, error) { return ofxgo.ParseResponse(mk()) })
	if p.panic != nil {
		t.Fatalf("parsing panicked: %v\n%q", p.panic, input)
	}
	if (p.resp == nil) != (d.resp == nil) || p.resp == nil && p.err == nil {
		t.Fatalf("parsing returned response %v with error %v, decoding returned %v\n%q", p.resp != nil, p.err, d.err, input)
	}
	if d.resp != nil {
		// whatever was read can be validated and written without crashing
		m := guarded(part, input, func() (*ofxgo.Response, error) {
			d.resp.Valid()
			d.resp.Marshal()
			return nil, nil
		})
		if m.panic != nil {
			t.Fatalf("marshalling the decoded response panicked: %v\n%q", m.panic, input)
		}
	}
	return d
}

func tokens(doc string) []string {
	var out []string
	for len(doc) > 0 {
		i := strings.IndexByte(doc, '<')
		if i != 0 {
			if i < 0 {
				i = len(doc)
			}
			out = append(out, doc[:i])
			doc = doc[i:]
			continue
		}
		j := strings.IndexByte(doc, '>')
		if j < 0 {
			j = len(doc) - 1
		}
		out = append(out, doc[:j+1])
		doc = doc[j+1:]
	}
	return out
}

var evilTokens = []string{
	"<!-- c -->", "<![CDATA[x]]>", "<?pi x?>", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "<", "&", "&x;", "&#0;", "&#xFFFFFFFF;", "\x00", "\xff\xfe",
	"<OFX>", "</OFX>", "<SIGNONMSGSRSV1>", "</SIGNONMSGSRSV1>", "<BANKMSGSRSV1>", "</BANKMSGSRSV1>", "<STMTTRNRS>", "<A/>", "<OFX/>", "<a b=\"c\">",
	"<a:b>", "</>", "<>", "< OFX>", "<BANKTRANLIST>", "</BANKTRANLIST>", "<INVTRANLIST>", "<INVPOSLIST>", "</INVPOSLIST>", "<INVOOLIST>", "<SECLIST>", "</SECLIST>",
	"<MSGSETLIST>", "</MSGSETLIST>", "<SIGNONMSGSET>", "<SIGNONMSGSETV1>", "</SIGNONMSGSET>", "<PROFMSGSRSV1><PROFTRNRS><PROFRS><MSGSETLIST>", "<SECLISTMSGSRSV1><SECLIST>",
	"<BUYMF>", "</BUYMF>", "<INVBANKTRAN>", "<STOCKINFO>", "OFXHEADER:100", "OFXHEADER=", "99999999999999999999999", "1e999999999", "-", "20209999", "20200101[99999999999999999999]", "20200101[", "]", "[]",
	"1/0", "0x1p-1074", ".", "1e-999999", "\u00a0", "\ufeff", "<BAL>", "</BAL>", "<STATUS>", "<CODE>", "<DTSERVER>", "<CURDEF>", "\r", "\t",
}

func mutate(t *rapid.T, doc string) string {
	toks := tokens(doc)
	for i, k := 0, rapid.IntRange(1, 6).Draw(t, "mutations"); i < k && len(toks) > 0; i++ {
		p := rapid.IntRange(0, len(toks)-1).Draw(t, "at")
		q := rapid.IntRange(0, len(toks)-1).Draw(t, "other")
		ins := func(s ...string) {
			toks = append(toks[:p:p], append(s, toks[p:]...)...)
		}
		switch rapid.IntRange(0, 9).Draw(t, "op") {
		case 0:
			toks = append(toks[:p:p], toks[p+1:]...)
		case 1:
			ins(toks[p])
		case 2:
			toks[p], toks[q] = toks[q], toks[p]
		case 3:
			toks[p] = toks[q]
		case 4, 5:
			toks[p] = rapid.SampledFrom(evilTokens).Draw(t, "evil")
		case 6:
			ins(rapid.SampledFrom(evilTokens).Draw(t, "evil"))
		case 7: // delete a range
			if q < p {
				p, q = q, p
			}
			toks = append(toks[:p:p], toks[q:]...)
		case 8: // byte damage
			toks[p] = damageBytes(t, toks[p], 2)
		case 9: // repeat a range
			if q < p {
				p, q = q, p
			}
			if q-p > 0 && q-p < 200 {
				seg := append([]string{}, toks[p:q]...)
				ins(seg...)
			}
		}
	}
	return strings.Join(toks, "")
}

// damageBytes edits a text at the level of bytes and of short runs of bytes.
func damageBytes(t *rapid.T, s string, most int) string {
	b := []byte(s)
	// runs of the same class: names, blanks, single other bytes
	class := func(c byte) int {
		switch {
		case c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '-':
			return 1
		case c == ' ' || c == '\t' || c == '\r' || c == '\n':
			return 2
		}
		return 0
	}
	for i, k := 0, rapid.IntRange(1, most).Draw(t, "edits"); i < k && len(b) > 0; i++ {
		p := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		q := p + 1
		if class(b[p]) != 0 && rapid.Bool().Draw(t, "run") {
			for q < len(b) && class(b[q]) == class(b[p]) {
				q++
			}
			for p > 0 && class(b[p-1]) == class(b[p]) {
				p--
			}
		} else if rapid.IntRange(0, 3).Draw(t, "mark") == 0 {
			// the nearest punctuation
			for p < len(b)-1 && class(b[p]) != 0 {
				p++
			}
			q = p + 1
		}
		old := string(b[p:q])
		var repl string
		switch rapid.IntRange(0, 6).Draw(t, "edit") {
		case 0, 1: // deleted
		case 2:
			repl = old + old
		case 3:
			repl = rapid.SampledFrom([]string{"\"", "'", ":", "=", "<", ">", "?", "/", " ", "\n", "\r", "\t", "\x00", "\xff", "&", ";", "-", "0", "1", "é", "\ufeff", "OFX", "NONE", "100", "200", "203", "103"}).Draw(t, "with")
		case 4:
			repl = old + rapid.SampledFrom([]string{"\"", "'", ":", "=", "<", ">", "?", "?>", "/", " ", "\n", "\r\n", "\x00", "\xff", "&quot;"}).Draw(t, "insert")
		case 5:
			repl = string([]byte{rapid.Byte().Draw(t, "byte")})
		case 6: // everything from here on, or up to here
			if rapid.Bool().Draw(t, "tail") {
				q = len(b)
			} else {
				p = 0
			}
		}
		b = append(append(append([]byte{}, b[:p]...), repl...), b[q:]...)
	}
	return string(b)
}

// markup matches tags, CDATA sections, comments and declarations.
var markup = regexp.MustCompile(`(?s)<!\[CDATA\[.*?\]\]>|<!--.*?-->|<\?.*?\?>|<[^>]*>`)

// ending matches what may end a response.
var ending = regexp.MustCompile(`</[^<>]*OFX`)

// C06: parsing is total.
func TestC06(t *testing.T) {
	rule("Generated documents and samples are damaged at token and byte level, headers at the level of bytes, values in odd spellings and elements of each kind many times over, random bytes and tag soup are made, documents are cut at every position, and readers fail at drawn positions; each is decoded and parsed under a panic guard and a hang limit. A case is non-trivial when the input starts with an acceptable header (so that the parser goes past it) or the cut or failing read falls inside the document.")
	assuming("Elements nest at most a million deep (see the known finding); readers obey the io.Reader contract.")
	docs := samples()
	document := func(t *rapid.T) string {
		if rapid.IntRange(0, 3).Draw(t, "src") == 0 {
			return rapid.SampledFrom(docs).Draw(t, "sample").text
		}
		g := newGen(t, anyVersion(t), false)
		return drawSurface(t, g.ver).Document(responseNode(g.response()))
	}
	prop(t, "damaged", 16000, 400000, func(t *rapid.T, c *Case) {
		in := mutate(t, document(t))
		d := parseBoth(t, "damaged", in, func() io.Reader { return strings.NewReader(in) })
		if d.err == nil {
			c.Label("accepted")
		} else {
			c.Label("rejected: %s", errClass(d.err))
		}
		if strings.Contains(in, "<OFX>") {
			c.NonTrivial(in)
			c.Sample("%s", in)
		}
	})
	prop(t, "headers", 20000, 400000, func(t *rapid.T, c *Case) {
		// damage confined to the header of a small document
		ver := anyVersion(t)
		hdr := drawSurface(t, ver).header()
		in := damageBytes(t, hdr, 5)
		switch rapid.IntRange(0, 3).Draw(t, "body") {
		case 0:
			in += "<OFX>" + signonBlock + "</OFX>"
		case 1:
			in += "<OFX>"
		case 2:
			in += "\r\n\r\n<OFX>" + signonBlock + "</OFX>\r\n"
		}
		d := parseBoth(t, "headers", in, func() io.Reader { return strings.NewReader(in) })
		if d.err == nil {
			c.Label("accepted")
		} else {
			c.Label("rejected: %s", errClass(d.err))
		}
		c.NonTrivial(in)
		c.Sample("%q", in)
	})
	prop(t, "soup", 12000, 300000, func(t *rapid.T, c *Case) {
		ver := anyVersion(t)
		var b strings.Builder
		hdr := rapid.IntRange(0, 3).Draw(t, "hdr")
		if hdr > 0 {
			b.WriteString(drawSurface(t, ver).header())
		}
		if hdr > 1 {
			b.WriteString("<OFX>")
		}
		if hdr > 2 {
			b.WriteString("<SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><DTSERVER>20200101</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1>")
		}
		for i, k := 0, rapid.IntRange(0, 30).Draw(t, "len"); i < k; i++ {
			switch rapid.IntRange(0, 5).Draw(t, "tok") {
			case 0:
				b.Write(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "bytes"))
			case 1:
				b.WriteString(rapid.SampledFrom(evilTokens).Draw(t, "evil"))
			default:
				e := rapid.SampledFrom(allElements).Draw(t, "elem")
				if rapid.Bool().Draw(t, "end") {
					e = "/" + e
				}
				b.WriteString("<" + e + ">")
			}
		}
		if rapid.Bool().Draw(t, "close") {
			b.WriteString("</OFX>")
		}
		in := b.String()
		parseBoth(t, "soup", in, func() io.Reader { return strings.NewReader(in) })
		if hdr > 1 {
			c.NonTrivial(in)
			c.Sample("%q", in)
		}
	})
	prop(t, "bytes", 6000, 100000, func(t *rapid.T, c *Case) {
		in := string(rapid.SliceOfN(rapid.Byte(), 0, 2000).Draw(t, "bytes"))
		if rapid.Bool().Draw(t, "prefix") {
			in = "OFXHEADER:" + in
		}
		parseBoth(t, "bytes", in, func() io.Reader { return strings.NewReader(in) })
		c.NonTrivial(in)
	})
	prop(t, "cut", 160, 6000, func(t *rapid.T, c *Case) {
		// every cut before the closing tag is complete gives an error
		g := newGen(t, anyVersion(t), false)
		g.density, g.maxList, g.big = g.n(0, 40), 1, false
		doc := drawSurface(t, g.ver).Document(responseNode(g.response()))
		end := strings.LastIndex(doc, "</OFX>") + len("</OFX>")
		cuts := 150
		if tier() == "thorough" {
			cuts = 1000
		}
		step := len(doc)/cuts + 1

		for k := rapid.IntRange(0, step-1).Draw(t, "first"); k < end; k += step {
			in := doc[:k]
			r, err := ofxgo.DecodeResponse(strings.NewReader(in))
			if err == nil || r != nil {
				t.Fatalf("document cut after %d of %d bytes: response %v, error %v\n%s", k, end, r != nil, err, in)
			}
			if p, err := ofxgo.ParseResponse(strings.NewReader(in)); err == nil || p != nil {
				t.Fatalf("document cut after %d of %d bytes parsed: response %v, error %v\n%s", k, end, p != nil, err, in)
			}
		}
		if r, err := ofxgo.DecodeResponse(strings.NewReader(doc[:end])); err != nil || r == nil {
			t.Fatalf("complete document rejected: %v\n%s", err, doc)
		}
		c.NonTrivial(doc)
		c.Sample("%d bytes, step %d: %s", len(doc), step, doc)
	})
	prop(t, "stray-end", 8000, 200000, func(t *rapid.T, c *Case) {
		// an end tag of an element which is not open doesn't end the document
		g := newGen(t, anyVersion(t), false)
		doc := drawSurface(t, g.ver).Document(responseNode(g.response()))
		start := strings.Index(doc, "<OFX>")
		tags := markup.FindAllStringIndex(doc[start:], -1)
		type insertion struct {
			at   int
			name string // of an end tag, if not any
		}
		var places []insertion
		last := ""
		present := map[string]bool{}
		for i, m := range tags {
			tag := doc[start+m[0] : start+m[1]]
			switch {
			case tag[1] == '!' || tag[1] == '?':
			case tag[1] == '/':
				if name := tag[2 : len(tag)-1]; name == last && name != "OFX" {
					places = append(places, insertion{at: start + m[1], name: name})
				}
				last = ""
				places = append(places, insertion{at: start + m[0]})
			default:
				last = strings.TrimSpace(tag[1 : len(tag)-1])
				present[last] = true
				if i > 0 {
					places = append(places, insertion{at: start + m[0]})
				}
			}
		}
		at := rapid.SampledFrom(places).Draw(t, "at")
		name := at.name
		if name == "" {
			name = rapid.OneOf(rapid.SampledFrom(allElements), rapid.SampledFrom([]string{"A", "OFXX", "OF", "X.EXT", "ofx", "P"})).Filter(func(n string) bool { return !present[n] }).Draw(t, "name")
		}
		in := doc[:at.at] + "</" + name + ">"
		if rapid.IntRange(0, 3).Draw(t, "rest") > 0 {
			in += doc[at.at:]
		}
		if d := parseBoth(t, "stray-end", in, func() io.Reader { return strings.NewReader(in) }); d.err == nil {
			t.Fatalf("accepted with a stray </%s> at byte %d\n%s", name, at.at, in)
		}
		c.NonTrivial(in)
		c.Sample("</%s> at %d of: %s", name, at.at, in)
	})
	prop(t, "reader-errors", 4000, 100000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), false)
		doc := drawSurface(t, g.ver).Document(responseNode(g.response()))
		end := strings.LastIndex(doc, "</OFX>") + len("</OFX>")
		k := rapid.IntRange(0, end-1).Draw(t, "failAt")
		e := rapid.SampledFrom([]error{errInjected, io.ErrUnexpectedEOF, io.EOF}).Draw(t, "err")
		var last *chunkReader
		mk := func() io.Reader {
			last = drawChunks(t, doc[:k])
			last.err = e
			return last
		}
		d := parseBoth(t, "reader-errors", doc[:k], mk)
		if d.err == nil {
			t.Fatalf("reader failing with %v after %d of %d bytes: no error\n%s", e, k, end, doc)
		}
		// a reader that makes no progress
		if g.n(0, 9) == 0 {
			d := guarded("reader-errors", doc, func() (*ofxgo.Response, error) {
				return ofxgo.DecodeResponse(io.MultiReader(strings.NewReader(doc[:k]), stuckReader{}))
			})
			if d.panic != nil || d.err == nil {
				t.Fatalf("stuck reader: response %v, error %v, panic %v", d.resp != nil, d.err, d.panic)
			}
			c.Label("stuck reader")
		}
		c.NonTrivial(fmt.Sprint(k, e, doc))
		c.Label("%v", e)
	})
	each(t, "growth", len(growthKinds), growth)
	prop(t, "lists", 320, 6400, growthOfLists)
	prop(t, "values", 1600, 40000, values)
	if tier() == "thorough" {
		once(t, "known-finding-depth", depth)
	}
}

type stuckReader struct{}

func (stuckReader) Read(p []byte) (int, error) { return 0, nil }

func errClass(err error) string {
	s := err.Error()
	if i := strings.IndexByte(s, ':'); i > 0 {
		s = s[:i]
	}
	if len(s) > 30 {
		s = s[:30]
	}
	return s
}

var growthKinds = []struct {
	name string
	mk   func(n int) string
}{
	{"transactions", func(n int) string {
		return bankDoc(strings.Repeat("<STMTTRN><TRNTYPE>DEBIT<DTPOSTED>20200101<TRNAMT>-1.50<FITID>1<NAME>x<MEMO>some memo text</STMTTRN>", n))
	}},
	{"long-text", func(n int) string {
		return bankDoc("<STMTTRN><TRNTYPE>DEBIT<DTPOSTED>20200101<TRNAMT>-1.50<FITID>1<NAME>" + strings.Repeat("abcdefghij &amp; ", n*6) + "</STMTTRN>")
	}},
	{"whitespace", func(n int) string {
		return bankDoc(strings.Repeat(" \n", n*50))
	}},
	{"unknown", func(n int) string {
		return bankDoc("<STMTTRN><TRNTYPE>DEBIT<DTPOSTED>20200101<TRNAMT>-1.50<FITID>1<NAME>x" + strings.Repeat("<X.Y><Z>1</Z></X.Y>", n*4) + "</STMTTRN>")
	}},
	{"nested", func(n int) string {
		return bankDoc("<STMTTRN><TRNTYPE>DEBIT<DTPOSTED>20200101<TRNAMT>-1.50<FITID>1<NAME>x" + strings.Repeat("<X.Y>", n*10) + strings.Repeat("</X.Y>", n*10) + "</STMTTRN>")
	}},
	{"messages", func(n int) string {
		m := "<STMTTRNRS><TRNUID>1<STATUS><CODE>0<SEVERITY>INFO</STATUS></STMTTRNRS>"
		return sgmlHead + signonBlock + "<BANKMSGSRSV1>" + strings.Repeat(m, n) + "</BANKMSGSRSV1></OFX>"
	}},
	{"digits", func(n int) string {
		return bankDoc(strings.Repeat("<STMTTRN><TRNTYPE>DEBIT<DTPOSTED>20200101<TRNAMT>"+strings.Repeat("7", 200)+"."+strings.Repeat("3", 90)+"<FITID>1<NAME>x</STMTTRN>", n/2))
	}},
	{"investments", func(n int) string {
		tr := "<INCOME><INVTRAN><FITID>1<DTTRADE>20200101</INVTRAN><SECID><UNIQUEID>1<UNIQUEIDTYPE>CUSIP</SECID><INCOMETYPE>DIV<TOTAL>1<SUBACCTSEC>CASH<SUBACCTFUND>CASH</INCOME>"
		return sgmlHead + signonBlock + "<INVSTMTMSGSRSV1><INVSTMTTRNRS><TRNUID>1<STATUS><CODE>0<SEVERITY>INFO</STATUS><INVSTMTRS><DTASOF>20200101<CURDEF>USD<INVACCTFROM><BROKERID>1<ACCTID>1</INVACCTFROM><INVTRANLIST><DTSTART>20200101<DTEND>20200101" +
			strings.Repeat(tr, n/2) + "</INVTRANLIST></INVSTMTRS></INVSTMTTRNRS></INVSTMTMSGSRSV1></OFX>"
	}},
	{"securities", func(n int) string {
		s := "<OTHERINFO><SECINFO><SECID><UNIQUEID>1<UNIQUEIDTYPE>CUSIP</SECID><SECNAME>x</SECINFO></OTHERINFO>"
		return sgmlHead + signonBlock + "<SECLISTMSGSRSV1><SECLIST>" + strings.Repeat(s, n) + "</SECLIST></SECLISTMSGSRSV1></OFX>"
	}},
	{"positions", func(n int) string {
		s := "<POSOTHER><INVPOS><SECID><UNIQUEID>1<UNIQUEIDTYPE>CUSIP</SECID><HELDINACCT>CASH<POSTYPE>LONG<UNITS>1<UNITPRICE>1<MKTVAL>1<DTPRICEASOF>20200101</INVPOS></POSOTHER>"
		return sgmlHead + signonBlock + "<INVSTMTMSGSRSV1><INVSTMTTRNRS><TRNUID>1<STATUS><CODE>0<SEVERITY>INFO</STATUS><INVSTMTRS><DTASOF>20200101<CURDEF>USD<INVACCTFROM><BROKERID>1<ACCTID>1</INVACCTFROM><INVPOSLIST>" +
			strings.Repeat(s, n/2) + "</INVPOSLIST></INVSTMTRS></INVSTMTTRNRS></INVSTMTMSGSRSV1></OFX>"
	}},
	{"errors", func(n int) string { // every message invalid: the error list grows
		m := "<STMTTRNRS><STATUS><CODE>0<SEVERITY>INFO</STATUS></STMTTRNRS>"
		return sgmlHead + signonBlock + "<BANKMSGSRSV1>" + strings.Repeat(m, n) + "</BANKMSGSRSV1></OFX>"
	}},
}

// growth checks that time and memory grow linearly with the document.
func growth(t *testing.T, i int, c *Case) {
	n, factor := 250, 12
	if tier() == "thorough" {
		n, factor = 500, 24
	}
	{
		name, mk := growthKinds[i].name, growthKinds[i].mk
		small, big := mk(n), mk(n*factor)
		ratio := float64(len(big)) / float64(len(small))
		measure := func(doc string) (time.Duration, uint64) {
			best := time.Hour
			var mem uint64
			for i := 0; i < 2; i++ {
				var a, b runtime.MemStats
				runtime.GC()
				runtime.ReadMemStats(&a)
				s := time.Now()
				p := guarded("growth", doc, func() (*ofxgo.Response, error) { return ofxgo.ParseResponse(strings.NewReader(doc)) })
				el := time.Since(s)
				runtime.ReadMemStats(&b)
				if p.panic != nil {
					t.Fatalf("%s: panic %v", name, p.panic)
				}
				if p.resp == nil {
					t.Fatalf("%s: %v\n%.600s", name, p.err, doc)
				}
				if el < best {
					best = el
				}
				mem = b.TotalAlloc - a.TotalAlloc
			}
			return best, mem
		}
		ok := false
		var msg string
		for try := 0; try < 4 && !ok; try++ {
			t1, m1 := measure(small)
			t2, m2 := measure(big)
			if t1 < time.Millisecond {
				t1 = time.Millisecond
			}
			msg = fmt.Sprintf("%s: %d bytes in %v allocating %d, %d bytes in %v allocating %d", name, len(small), t1, m1, len(big), t2, m2)
			// Linear behaviour gives ratios near 1; quadratic behaviour gives
			// ratios near the size factor of 12.
			ok = float64(t2) <= 5*ratio*float64(t1) && float64(m2) <= 3*ratio*float64(m1)+1<<20
		}
		if !ok {
			t.Errorf("time or memory grows faster than the document: %s", msg)
		}
		fmt.Println("note:", msg)
		c.NonTrivial(name)
		c.Sample("%s", msg)
		c.Label("%s", name)
	}
}

// values checks that the time and memory a value takes is in proportion to its
// length, whatever its characters: documents with it are compared with
// documents with an ordinary value of the same length.
func values(t *rapid.T, c *Case) {
	num := func(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "n") }
	pick := func(ss ...string) string { return rapid.SampledFrom(ss).Draw(t, "pick") }
	digits := func(lo, hi int) string {
		n := num(lo, hi)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + num(0, 9))
		}
		if n > 0 && b[0] == '0' {
			b[0] = '1'
		}
		return string(b)
	}
	exponent := func() string {
		return pick("e", "E", "p", "P") + pick("", "+", "-") + pick("", "", "0", "000") + digits(1, num(4, 12))
	}
	var v string
	kind := pick("exponent", "exponent", "exponent", "fraction exponent", "prefix", "quotient", "digits", "zeros")
	switch kind {
	case "exponent":
		v = pick("", "-", "+") + digits(1, 3) + exponent()
	case "fraction exponent":
		v = digits(0, 2) + pick(".", ",") + pick("", "0000") + digits(1, 3) + exponent()
	case "prefix":
		v = pick("0x", "0b", "0o", "0X1.") + digits(1, 3) + exponent()
	case "quotient":
		v = digits(1, 5) + "/" + digits(1, 5) + pick("", exponent())
	case "digits":
		v = digits(1, 60) + pick("", "."+digits(1, 60))
	case "zeros":
		v = strings.Repeat("0", num(0, 40)) + pick("", ".") + strings.Repeat("0", num(1, 40)) + exponent()
	}
	elem := pick("TRNAMT", "TRNAMT", "TRNAMT", "TRNAMT", "DTPOSTED", "SIC", "FITID", "TRNTYPE")
	if elem == "DTPOSTED" && num(0, 1) == 0 {
		v = "20200101120000.000[" + pick("", "-", "+") + digits(1, 12) + pick("", "."+digits(1, 12)) + ":GMT]"
		kind = "zone"
	}
	// Most such values are malformed, so there is only one in a document.
	mk := func(value string) string {
		e := "<STMTTRN><TRNTYPE>DEBIT<DTPOSTED>20200101<TRNAMT>1<FITID>1<SIC>1<NAME>x</STMTTRN>"
		i := strings.Index(e, "<"+elem+">") + len(elem) + 2
		j := i + strings.IndexByte(e[i:], '<')
		return bankDoc(e[:i] + value + e[j:])
	}
	measure := func(value string) (time.Duration, uint64, bool) {
		doc := mk(value)
		best, mem, ok := time.Hour, uint64(1<<62), false
		for i := 0; i < 2; i++ {
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			s := time.Now()
			for j := 0; j < 4; j++ {
				p := guarded("values", doc, func() (*ofxgo.Response, error) { return ofxgo.ParseResponse(strings.NewReader(doc)) })
				if p.panic != nil {
					t.Fatalf("panic %v\n%s", p.panic, doc)
				}
				ok = p.resp != nil
			}
			el := time.Since(s)
			runtime.ReadMemStats(&b)
			if el < best {
				best = el
			}
			if m := b.TotalAlloc - a.TotalAlloc; m < mem {
				mem = m
			}
		}
		return best, mem, ok
	}
	var msg string
	for try := 0; ; try++ {
		t1, m1, _ := measure(strings.Repeat("1", len(v)))
		t2, m2, ok := measure(v)
		msg = fmt.Sprintf("%s %q: 4 documents in %v allocating %d; with an ordinary value in %v allocating %d", elem, v, t2, m2, t1, m1)
		if t2 <= 5*t1+20*time.Millisecond && m2 <= 3*m1+1<<20 {
			if ok {
				c.Label("accepted")
			}
			break
		}
		if try == 5 {
			t.Fatalf("a value takes time or memory out of proportion: %s", msg)
		}
	}
	c.NonTrivial(elem + v)
	c.Sample("%s", msg)
	c.Label("%s %s", elem, kind)
}

const sgmlHead = "OFXHEADER:100\r\nDATA:OFXSGML\r\nVERSION:103\r\nSECURITY:NONE\r\nENCODING:USASCII\r\nCHARSET:1252\r\nCOMPRESSION:NONE\r\nOLDFILEUID:NONE\r\nNEWFILEUID:NONE\r\n\r\n<OFX>"
const signonBlock = "<SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><DTSERVER>20200101</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1>"

func bankDoc(list string) string {
	return sgmlHead + signonBlock + "<BANKMSGSRSV1><STMTTRNRS><TRNUID>1<STATUS><CODE>0<SEVERITY>INFO</STATUS><STMTRS><CURDEF>USD<BANKACCTFROM><BANKID>1<ACCTID>1<ACCTTYPE>CHECKING</BANKACCTFROM><BANKTRANLIST><DTSTART>20200101<DTEND>20200101" +
		list + "</BANKTRANLIST><LEDGERBAL><BALAMT>1<DTASOF>20200101</LEDGERBAL></STMTRS></STMTTRNRS></BANKMSGSRSV1></OFX>"
}

var allElements = func() []string {
	seen := map[string]bool{"OFX": true}
	for _, ts := range schema {
		seen[ts.Elem] = true
		for _, fs := range ts.Fields {
			for _, p := range fs.Path {
				seen[p] = true
			}
		}
	}
	for _, ms := range messageSets {
		seen[ms.Elem+"RSV1"] = true
	}
	delete(seen, "")
	var out []string
	for e := range seen {
		out = append(out, e)
	}
	sortStrings(out)
	return out
}()

// depth re-runs the known stack exhaustion in a process of its own.
func depth(t *testing.T, ev func(key, sample string)) {
	cmd := exec.Command("/proc/self/exe", "-test.run", "^TestDepthProbe$")
	cmd.Env = append(os.Environ(), "VERIF_DEPTH_PROBE=30000000", "VERIF_PARTIAL=", "VERIF_SHARDS=1", "VERIF_STATUS=", "VERIF_EVIDENCE=")
	out, err := cmd.CombinedOutput()
	overflow := bytes.Contains(out, []byte("stack overflow"))
	fmt.Printf("note: known finding, 30 million nested elements: err=%v, stack overflow=%v\n", err, overflow)
	ev("depth", fmt.Sprintf("30 million nested elements: overflow=%v", overflow))
}

func TestDepthProbe(t *testing.T) {
	n := envInt("VERIF_DEPTH_PROBE", 0)
	if n == 0 {
		t.Skip("only run by the check")
	}
	in := io.MultiReader(strings.NewReader(`<?xml version="1.0"?><?OFX OFXHEADER="200" VERSION="203"?><OFX><SIGNONMSGSRSV1><SONRS>`), &repeatReader{s: "<a>", n: n})
	_, err := ofxgo.DecodeResponse(in)
	if err == nil {
		t.Fatal("no error")
	}
}

type repeatReader struct {
	s   string
	n   int
	buf string
}

func (r *repeatReader) Read(p []byte) (int, error) {
	if r.buf == "" {
		if r.n == 0 {
			return 0, io.EOF
		}
		k := min(r.n, 1000)
		r.n -= k
		r.buf = strings.Repeat(r.s, k)
	}
	n := copy(p, r.buf)
	r.buf = r.buf[n:]
	return n, nil
}

// FuzzC06 is the coverage-guided part of the thorough check.
func FuzzC06(f *testing.F) {
	for _, s := range samples() {
		if len(s.text) < 8000 {
			f.Add([]byte(s.text), byte(0))
		}
	}
	for _, e := range evilTokens {
		f.Add([]byte(sgmlHead+signonBlock+e+"</OFX>"), byte(1))
	}
	for i, rt := range append(append(append([]reflect.Type{}, invTranTypes...), positionTypes...), ooTypes...) {
		_ = rt
		ex := rapid.Custom(func(t *rapid.T) string {
			g := newGen(t, i%len(versionStrings), true)
			return drawSurface(t, g.ver).Document(responseNode(g.response()))
		}).Example(i)
		if len(ex) < 8000 {
			f.Add([]byte(ex), byte(i))
		}
	}
	f.Fuzz(func(t *testing.T, data []byte, chunk byte) {
		in := string(data)
		parseBoth(t, "fuzz", in, func() io.Reader {
			r := &chunkReader{data: in}
			if chunk > 0 {
				r.sizes = []int{int(chunk)}
			}
			return r
		})
	})
}
