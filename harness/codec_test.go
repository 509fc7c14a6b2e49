package harness

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

func labelResponse(c *Case, r *ofxgo.Response) {
	v := reflect.ValueOf(r).Elem()
	for _, ms := range messageSets {
		l := v.FieldByName(ms.Go)
		for i := 0; i < l.Len(); i++ {
			c.Label("%s", l.Index(i).Elem().Type().Elem().Name())
		}
	}
}

func respMessages(r *ofxgo.Response) int {
	v := reflect.ValueOf(r).Elem()
	n := 0
	for _, ms := range messageSets {
		n += v.FieldByName(ms.Go).Len()
	}
	return n
}

// C01: marshal then parse gives back the same response.
func TestC01(t *testing.T) {
	rule("A response of any OFX version with up to 3 messages of any supported type, valid by the library's documented rules, is marshalled and parsed again; non-trivial when it holds at least one message.")
	assuming("Strings carry no surrounding whitespace and no characters XML forbids; dates have millisecond precision and whole-minute offsets; amounts have at most 100 fraction digits.")
	prop(t, "roundtrip", 3500, 60000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		r := g.response()
		want := responseNode(r)
		b, err := r.Marshal()
		if err != nil {
			t.Fatalf("Marshal of a valid response failed: %v", err)
		}
		doc := b.String()
		got, err := ofxgo.ParseResponse(strings.NewReader(doc))
		if err != nil {
			t.Fatalf("parsing the marshalled response: %v\n%s", err, doc)
		}
		if respVersion(got) != g.ver {
			t.Fatalf("version %s became %v", versionStrings[g.ver], got.Version)
		}
		if d := diffTrees(want, responseNode(got)); d != "" {
			t.Fatalf("round trip changed the response: %s\n%s", d, doc)
		}
		labelResponse(c, r)
		c.Label("version %s", versionStrings[g.ver])
		if respMessages(r) > 0 {
			c.NonTrivial(doc)
			c.Sample("%s", doc)
		}
		// A second generation must be byte-identical: nothing degrades.
		b2, err := got.Marshal()
		if err != nil {
			t.Fatalf("marshalling the parsed response: %v", err)
		}
		got2, err := ofxgo.ParseResponse(strings.NewReader(b2.String()))
		if err != nil {
			t.Fatalf("second round trip: %v", err)
		}
		if d := diffTrees(want, responseNode(got2)); d != "" {
			t.Fatalf("second round trip changed the response: %s", d)
		}
	})
	prop(t, "roundtrip-each-type", 3500, 40000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		r := &ofxgo.Response{}
		setRespVersion(r, g.ver)
		g.fill(reflect.ValueOf(&r.Signon).Elem())
		one := oneOfEach(g)
		putMessage(r, one)
		want := responseNode(r)
		b, err := r.Marshal()
		if err != nil {
			t.Fatalf("Marshal of a valid response failed: %v", err)
		}
		got, err := ofxgo.ParseResponse(strings.NewReader(b.String()))
		if err != nil {
			t.Fatalf("parsing the marshalled response: %v\n%s", err, b)
		}
		if d := diffTrees(want, responseNode(got)); d != "" {
			t.Fatalf("round trip changed the response: %s\n%s", d, b)
		}
		labelResponse(c, r)
		c.NonTrivial(b.String())
	})
	partLargeDocuments(t)
	longListsOfOthers(t, 16, 400)
}

// oneOfEach draws a message, steering towards the less common aggregates.
func oneOfEach(g *Gen) ofxgo.Message {
	switch k := g.n(0, 9); {
	case k <= 4: // one investment transaction, position, order
		m := g.of(reflect.TypeOf(ofxgo.InvStatementResponse{})).Interface().(*ofxgo.InvStatementResponse)
		m.InvTranList = &ofxgo.InvTranList{DtStart: g.date(), DtEnd: g.date()}
		m.InvTranList.InvTransactions = append(m.InvTranList.InvTransactions,
			g.of(rapid.SampledFrom(invTranTypes).Draw(g.t, "trtype")).Elem().Interface().(ofxgo.InvTransaction))
		return m
	case k <= 6:
		l := &ofxgo.SecurityList{}
		l.Securities = append(l.Securities, g.of(rapid.SampledFrom(securityTypes).Draw(g.t, "sectype")).Elem().Interface().(ofxgo.Security))
		return l
	default:
		return g.message(rapid.SampledFrom([]reflect.Type{
			reflect.TypeOf(ofxgo.AcctInfoResponse{}), reflect.TypeOf(ofxgo.StatementResponse{}), reflect.TypeOf(ofxgo.CCStatementResponse{}),
			reflect.TypeOf(ofxgo.ProfileResponse{}), reflect.TypeOf(ofxgo.SecListResponse{})}).Draw(g.t, "msgtype"))
	}
}

// putMessage appends a message to the message set it belongs to according to
// the reference tables.
func putMessage(r any, m ofxgo.Message) {
	v := reflect.ValueOf(r).Elem()
	types := respTypesBySet
	if _, ok := r.(*ofxgo.Request); ok {
		types = reqTypesBySet
	}
	for set, ts := range types {
		for _, rt := range ts {
			if reflect.TypeOf(m).Elem() == rt {
				l := v.FieldByName(set)
				l.Set(reflect.Append(l, reflect.ValueOf(m)))
				return
			}
		}
	}
	panic(fmt.Sprintf("no set for %T", m))
}

// C02: decoding a document yields exactly the values written in it.
func TestC02(t *testing.T) {
	rule("A value of the reference schema is rendered by the harness (own element names, own lexical forms) and decoded; non-trivial when the document holds a message.")
	assuming("Documents hold supported elements in specification order; text is UTF-8, has no surrounding whitespace of its own and no characters XML forbids.")
	check := func(t *rapid.T, c *Case, g *Gen, r *ofxgo.Response) {
		want := responseNode(r)
		doc := drawSurface(t, g.ver).Document(want)
		got, err := ofxgo.DecodeResponse(strings.NewReader(doc))
		if err != nil {
			t.Fatalf("decoding failed: %v\n%s", err, doc)
		}
		if respVersion(got) != g.ver {
			t.Fatalf("version %s decoded as %v", versionStrings[g.ver], got.Version)
		}
		if d := diffTrees(want, responseNode(got)); d != "" {
			t.Fatalf("decoded value differs from the document: %s\n%s", d, doc)
		}
		labelResponse(c, r)
		if respMessages(r) > 0 {
			c.NonTrivial(doc)
			c.Sample("%s", doc)
		}
	}
	prop(t, "decode", 6000, 150000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), rapid.Bool().Draw(t, "valid"))
		check(t, c, g, g.response())
	})
	prop(t, "decode-each-type", 6000, 150000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), rapid.Bool().Draw(t, "valid"))
		r := &ofxgo.Response{}
		setRespVersion(r, g.ver)
		g.fill(reflect.ValueOf(&r.Signon).Elem())
		putMessage(r, oneOfEach(g))
		check(t, c, g, r)
	})
	prop(t, "decode-full", 1200, 20000, func(t *rapid.T, c *Case) {
		// every optional element present at once
		g := newGen(t, anyVersion(t), rapid.Bool().Draw(t, "valid"))
		g.density, g.maxList = 100, 2
		r := &ofxgo.Response{}
		setRespVersion(r, g.ver)
		g.fill(reflect.ValueOf(&r.Signon).Elem())
		putMessage(r, oneOfEach(g))
		check(t, c, g, r)
	})
	partLargeDocuments(t)
	longLists(t, 32, 600)
	longListsOfOthers(t, 32, 600)
	// Known finding: INVACCTTYPE shares the enumeration of holder types, which
	// lacks CORPORATE. Reported, not asserted.
	once(t, "known-finding-invaccttype", func(t *testing.T, ev func(key, sample string)) {
		doc := `<?xml version="1.0"?><?OFX OFXHEADER="200" VERSION="203"?><OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><DTSERVER>20200101</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1><SIGNUPMSGSRSV1><ACCTINFOTRNRS><TRNUID>1</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><ACCTINFORS><DTACCTUP>20200101</DTACCTUP><ACCTINFO><INVACCTINFO><INVACCTFROM><BROKERID>b</BROKERID><ACCTID>a</ACCTID></INVACCTFROM><USPRODUCTTYPE>401K</USPRODUCTTYPE><CHECKING>N</CHECKING><SVCSTATUS>ACTIVE</SVCSTATUS><INVACCTTYPE>CORPORATE</INVACCTTYPE></INVACCTINFO></ACCTINFO></ACCTINFORS></ACCTINFOTRNRS></SIGNUPMSGSRSV1></OFX>`
		_, err := ofxgo.DecodeResponse(strings.NewReader(doc))
		fmt.Printf("note: known finding INVACCTTYPE CORPORATE: decoding gives %v\n", err)
		ev("invaccttype", doc)
	})
	// Known finding: the character set a document names is ignored. Reported,
	// not asserted.
	once(t, "known-finding-charset", func(t *testing.T, ev func(key, sample string)) {
		for _, doc := range []string{
			"OFXHEADER:100\r\nDATA:OFXSGML\r\nVERSION:103\r\nSECURITY:NONE\r\nENCODING:USASCII\r\nCHARSET:1252\r\nCOMPRESSION:NONE\r\nOLDFILEUID:NONE\r\nNEWFILEUID:NONE\r\n\r\n<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0<SEVERITY>INFO<MESSAGE>caf\xe9</STATUS><DTSERVER>20200101<LANGUAGE>ENG</SONRS></SIGNONMSGSRSV1></OFX>",
			"<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?><?OFX OFXHEADER=\"200\" VERSION=\"203\"?><OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY><MESSAGE>caf\xe9</MESSAGE></STATUS><DTSERVER>20200101</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1></OFX>",
		} {
			_, err := ofxgo.DecodeResponse(strings.NewReader(doc))
			fmt.Printf("note: known finding character set: decoding gives %v\n", err)
			ev("charset"+doc, fmt.Sprintf("%q", doc))
		}
	})
}

// C03: marshalling a response writes exactly the reference document.
func TestC03(t *testing.T) {
	rule("A valid response with up to 3 messages is marshalled; the harness' own tokenizer reads the output and compares header, element names, order, nesting and lexical values with the reference schema. Non-trivial when the response holds a message.")
	assuming("An optional element whose value is the zero value of its type may be present or absent.")
	check := func(t *rapid.T, c *Case, g *Gen, r *ofxgo.Response) {
		sameMessage(g, reflect.ValueOf(r).Elem())
		want := responseNode(r)
		b, err := r.Marshal()
		if err != nil {
			t.Fatalf("Marshal of a valid response failed: %v", err)
		}
		checkDocument(t, b.String(), want, g.ver, false)
		if r.Signon.Name() != "SONRS" {
			t.Fatalf("a sign-on response reports the name %q", r.Signon.Name())
		}
		checkNames(t, reflect.ValueOf(r).Elem(), "RSV1")
		labelResponse(c, r)
		if respMessages(r) > 0 {
			c.NonTrivial(b.String())
			c.Sample("%s", b)
		}
	}
	prop(t, "encode", 18000, 150000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		check(t, c, g, g.response())
	})
	prop(t, "encode-each-type", 18000, 150000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		r := &ofxgo.Response{}
		setRespVersion(r, g.ver)
		g.fill(reflect.ValueOf(&r.Signon).Elem())
		putMessage(r, oneOfEach(g))
		check(t, c, g, r)
	})
}

// checkNames compares what the messages of a request or response say about
// themselves with the element and message set they are written as.
func checkNames(t fataler, v reflect.Value, suffix string) {
	for _, ms := range messageSets {
		l := v.FieldByName(ms.Go)
		for i := 0; i < l.Len(); i++ {
			m := l.Index(i).Interface().(ofxgo.Message)
			if want := messageNode(m).Name; m.Name() != want {
				t.Fatalf("a %T written as <%s> reports the name %q", m, want, m.Name())
			}
			if set := m.Type().String(); set != ms.Elem+suffix {
				t.Fatalf("a %T written in <%s> reports the message set %q", m, ms.Elem+suffix, set)
			}
		}
	}
}

type fataler interface{ Fatalf(string, ...any) }

// checkDocument verifies a whole document written by the library. With
// unclosed, SGML value elements must not carry end tags.
func checkDocument(t fataler, doc string, want *Node, ver int, unclosed bool) {
	body, err := splitHeader(doc, ver)
	if err != nil {
		t.Fatalf("%v\n%s", err, doc)
	}
	raw, err := parseMarkup(body, unclosed && isSGML(ver))
	if err != nil {
		t.Fatalf("ill-formed output: %v\n%s", err, doc)
	}
	if d := diffMarkup(want, raw); d != "" {
		t.Fatalf("output differs from the reference document: %s\n%s", d, doc)
	}
	if d := checkClosing(raw, unclosed && isSGML(ver)); d != "" {
		t.Fatalf("%s\n%s", d, doc)
	}
}

// checkClosing verifies the end tags: none on value elements in SGML requests,
// on every element otherwise.
func checkClosing(n *RawNode, unclosed bool) string {
	leaf := len(n.Kids) == 0 && sgmlLeaf[n.Name]
	if unclosed && leaf && n.Closed {
		return fmt.Sprintf("value element <%s> has an end tag in SGML", n.Name)
	}
	if !n.Closed && !(unclosed && leaf) {
		return fmt.Sprintf("<%s> has no end tag", n.Name)
	}
	for _, k := range n.Kids {
		if d := checkClosing(k, unclosed); d != "" {
			return d
		}
	}
	return ""
}

// splitHeader verifies the file header of a version and returns the body.
func splitHeader(doc string, ver int) (string, error) {
	i := strings.Index(doc, "<OFX>")
	if i < 0 {
		return "", fmt.Errorf("no <OFX> in output")
	}
	var lines []string
	for _, l := range strings.Split(doc[:i], "\n") {
		if l = strings.TrimSuffix(l, "\r"); l != "" {
			lines = append(lines, l)
		}
	}
	v := versionStrings[ver]
	want := []string{`<?xml version="1.0" encoding="UTF-8" standalone="no"?>`,
		`<?OFX OFXHEADER="200" VERSION="` + v + `" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>`}
	if isSGML(ver) {
		want = []string{"OFXHEADER:100", "DATA:OFXSGML", "VERSION:" + v, "SECURITY:NONE", "ENCODING:USASCII", "CHARSET:1252", "COMPRESSION:NONE", "OLDFILEUID:NONE", "NEWFILEUID:NONE"}
		if !strings.HasSuffix(strings.ReplaceAll(doc[:i], "\r", ""), "\n\n") {
			return "", fmt.Errorf("no blank line after the SGML header")
		}
	}
	if !reflect.DeepEqual(lines, want) {
		return "", fmt.Errorf("header lines %q, expected %q", lines, want)
	}
	return doc[i:], nil
}

// sameMessage sometimes lists one message twice.
func sameMessage(g *Gen, v reflect.Value) {
	if g.n(0, 9) < 9 {
		return
	}
	for _, ms := range messageSets {
		if l := v.FieldByName(ms.Go); l.IsValid() && l.Len() > 0 && g.n(0, 1) == 1 {
			l.Set(reflect.Append(l, l.Index(g.n(0, l.Len()-1))))
		}
	}
}

func reqMessages(r *ofxgo.Request) int {
	v := reflect.ValueOf(r).Elem()
	n := 0
	for _, ms := range messageSets {
		n += v.FieldByName(ms.Go).Len()
	}
	return n
}

// config is a client whose only purpose is to carry marshalling options.
func config(noIndent, cr bool, ver int) *ofxgo.BasicClient {
	c := &ofxgo.BasicClient{NoIndent: noIndent, CarriageReturn: cr}
	reflect.ValueOf(c).Elem().FieldByName("SpecVersion").SetUint(uint64(ver + 1))
	return c
}

// C04: marshalling a request writes exactly the reference document.
func TestC04(t *testing.T) {
	rule("A valid request of any version with up to 4 messages and any formatting option is marshalled; the harness' own tokenizer reads the output and compares it with the reference schema, including the end tags. Non-trivial when the request holds a message.")
	prop(t, "encode", 48000, 300000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		r := g.request()
		sameMessage(g, reflect.ValueOf(r).Elem())
		if g.n(0, 3) == 3 {
			// through a client's formatting options, which do not matter here
			bc := config(g.n(0, 1) == 1, g.n(0, 1) == 1, g.ver)
			bc.AppID, bc.AppVer = string(r.Signon.AppID), string(r.Signon.AppVer)
			r.SetClientFields(bc)
			r.Signon.DtClient = g.date()
		}
		want := requestNode(r)
		b, err := r.Marshal()
		if err != nil {
			t.Fatalf("Marshal of a valid request failed: %v", err)
		}
		checkDocument(t, b.String(), want, g.ver, true)
		if r.Signon.Name() != "SONRQ" {
			t.Fatalf("a sign-on request reports the name %q", r.Signon.Name())
		}
		checkNames(t, reflect.ValueOf(r).Elem(), "RQV1")
		c.Label("version %s", versionStrings[g.ver])
		v := reflect.ValueOf(r).Elem()
		for _, ms := range messageSets {
			for i, l := 0, v.FieldByName(ms.Go); i < l.Len(); i++ {
				c.Label("%s", l.Index(i).Elem().Type().Elem().Name())
			}
		}
		if reqMessages(r) > 0 {
			c.NonTrivial(b.String())
			c.Sample("%s", b)
		}
	})
}
