package harness

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

const minimalBody = "<OFX>" + signonBlock + "</OFX>"

// bodies that tempt the detection: header-like text in the content
var temptingBodies = []string{
	minimalBody,
	"\n" + minimalBody + "\n",
	strings.Replace(minimalBody, "</DTSERVER>", "</DTSERVER><!-- -->", 1),
	"<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY><MESSAGE>OFXHEADER:100 DATA:OFXSGML VERSION:102</MESSAGE></STATUS><DTSERVER>20200101</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1></OFX>",
	"<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY><MESSAGE>OFXHEADER=\"200\" VERSION=\"220\"</MESSAGE></STATUS><DTSERVER>20200101</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1></OFX>",
	"<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY><MESSAGE>" + strings.Repeat("long ", 400) + "</MESSAGE></STATUS><DTSERVER>20200101</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1></OFX>",
}

type kv struct{ k, v string }

var sgmlKeys = []string{"OFXHEADER", "DATA", "VERSION", "SECURITY", "ENCODING", "CHARSET", "COMPRESSION", "OLDFILEUID", "NEWFILEUID"}

// sgmlFields draws the fields of a conforming 1.x header.
func sgmlFields(t *rapid.T, ver int) []kv {
	fileuid := func(l string) string {
		return rapid.SampledFrom([]string{"NONE", "0", "abc", "20230101120000_abc-DEF", "A-B-C-D", "d41d8cd98f00b204e9800998ecf8427e0123"}).Draw(t, l)
	}
	return []kv{
		{"OFXHEADER", "100"}, {"DATA", "OFXSGML"}, {"VERSION", versionStrings[ver]},
		{"SECURITY", rapid.SampledFrom([]string{"NONE", "TYPE1"}).Draw(t, "sec")},
		{"ENCODING", rapid.SampledFrom([]string{"USASCII", "UNICODE", "UTF-8", "X-1", "NONE"}).Draw(t, "enc")},
		{"CHARSET", rapid.SampledFrom([]string{"1252", "ISO-8859-1", "NONE", "CSUNICODE", "8859-1", "UTF-8"}).Draw(t, "cs")},
		{"COMPRESSION", "NONE"}, {"OLDFILEUID", fileuid("old")}, {"NEWFILEUID", fileuid("new")}}
}

type headerLayout struct{ colon, sep, tail string }

func drawLayout(t *rapid.T) headerLayout {
	return headerLayout{
		colon: rapid.SampledFrom([]string{":", ": ", ":  "}).Draw(t, "colon"),
		sep:   rapid.SampledFrom([]string{"\r\n", "\n", "", " ", "\r\n\r\n"}).Draw(t, "sep"),
		tail:  rapid.SampledFrom([]string{"\r\n", "\n", "", "\r\n\r\n", " "}).Draw(t, "tail"),
	}
}

func (l headerLayout) write(fields []kv) string {
	var b strings.Builder
	for _, f := range fields {
		b.WriteString(f.k + l.colon + f.v + l.sep)
	}
	return b.String() + l.tail
}

// mustReject checks that neither entry point accepts the document.
func mustReject(t *rapid.T, doc, why string) {
	if r, err := ofxgo.DecodeResponse(drawChunks(t, doc)); err == nil || r != nil {
		t.Fatalf("%s: decoded (error %v)\n%s", why, err, doc)
	}
	if r, err := ofxgo.ParseResponse(strings.NewReader(doc)); err == nil || r != nil {
		t.Fatalf("%s: parsed (error %v)\n%s", why, err, doc)
	}
}

func mustAcceptVersion(t *rapid.T, doc string, ver int) {
	for i := 0; i < 2; i++ {
		var r *ofxgo.Response
		var err error
		if i == 0 {
			r, err = ofxgo.DecodeResponse(drawChunks(t, doc))
		} else {
			r, err = ofxgo.ParseResponse(strings.NewReader(doc))
		}
		if err != nil {
			t.Fatalf("conforming header rejected: %v\n%s", err, doc)
		}
		if respVersion(r) != ver {
			t.Fatalf("version %s reported as %v\n%s", versionStrings[ver], r.Version, doc)
		}
		if r.Version.String() != versionStrings[ver] || !r.Version.Valid() {
			t.Fatalf("version %s prints as %q (valid %v)", versionStrings[ver], r.Version.String(), r.Version.Valid())
		}
	}
}

func notVersion(t *rapid.T) string {
	for {
		v := rapid.OneOf(
			rapid.SampledFrom([]string{"100", "101", "104", "150", "152", "161", "199", "204", "212", "221", "230", "300", "0", "1", "10", "1030", "20", "2200", "22", "999", "00000"}),
			rapid.Map(rapid.SampledFrom(versionStrings), func(v string) string { return "0" + v }),
			rapid.Map(rapid.SampledFrom(versionStrings), func(v string) string { return v + "0" }),
			rapid.Map(rapid.SampledFrom(versionStrings), func(v string) string { return "00" + v }),
			rapid.Map(rapid.SampledFrom(versionStrings), func(v string) string { return v[:2] }),
			rapid.Map(rapid.SampledFrom(versionStrings), func(v string) string { return "1" + v }),
			rapid.StringMatching("[0-9]{1,5}")).Draw(t, "badver")
		ok := true
		for _, k := range versionStrings {
			if k == v {
				ok = false
			}
		}
		if ok {
			return v
		}
	}
}

// C07: header detection.
func TestC07(t *testing.T) {
	rule("Conforming headers of both families in drawn layouts must be accepted with their version; headers with one drawn defect (missing, repeated, swapped or misspelt field, wrong value, unknown version, version of the other family, stray text) must be rejected. Every case is non-trivial; distinct header texts are counted.")
	assuming("Headers are under 900 bytes; attributes are not repeated; version declarations say 1.0.")
	prop(t, "sgml-conforming", 12000, 100000, func(t *rapid.T, c *Case) {
		ver := rapid.IntRange(v102, v160).Draw(t, "ver")
		h := drawLayout(t).write(sgmlFields(t, ver))
		mustAcceptVersion(t, h+rapid.SampledFrom(temptingBodies).Draw(t, "body"), ver)
		c.Label("version %s", versionStrings[ver])
		c.NonTrivial(h)
		c.Sample("%q", h)
	})
	prop(t, "sgml-defects", 24000, 200000, func(t *rapid.T, c *Case) {
		ver := rapid.IntRange(v102, v160).Draw(t, "ver")
		f := sgmlFields(t, ver)
		lay := drawLayout(t)
		pick := func() int { return rapid.IntRange(0, len(f)-1).Draw(t, "field") }
		prefix := ""
		defect := ""
		kind := rapid.IntRange(0, 13).Draw(t, "defect")
		if lay.sep == "" && (kind < 3 || kind > 8) {
			lay.sep = "\n" // without separators such defects can be ambiguous
		}
		switch kind {
		case 0:
			i := pick()
			defect = "missing " + f[i].k
			f = append(f[:i:i], f[i+1:]...)
		case 1:
			i := pick()
			j := rapid.IntRange(0, len(f)-2).Draw(t, "other")
			if j >= i {
				j++
			}
			defect = "swapped " + f[i].k + " and " + f[j].k
			f[i], f[j] = f[j], f[i]
		case 2:
			i := pick()
			defect = "repeated " + f[i].k
			f = append(f[:i+1:i+1], f[i:]...)
		case 3:
			defect = "OFXHEADER value"
			f[0].v = rapid.SampledFrom([]string{"200", "101", "10", "1000", "0", "102", "160", "NONE", "0100", "00100", "100100"}).Draw(t, "v")
		case 4:
			defect = "DATA value"
			f[1].v = rapid.SampledFrom([]string{"OFXXML", "SGML", "XML", "OFX", "NONE", "OFXSGMLX", "ofxsgml"}).Draw(t, "v")
		case 5:
			defect = "unknown VERSION"
			f[2].v = notVersion(t)
		case 6:
			defect = "2.x VERSION"
			f[2].v = versionStrings[rapid.IntRange(v200, v220).Draw(t, "v")]
		case 7:
			defect = "SECURITY value"
			f[3].v = rapid.SampledFrom([]string{"TYPE2", "TYPE", "type1", "none", "SSL", "TYPE11", "YES"}).Draw(t, "v")
		case 8:
			defect = "COMPRESSION value"
			f[6].v = rapid.SampledFrom([]string{"GZIP", "ZIP", "LZ", "DEFLATE", "YES", "none"}).Draw(t, "v")
		case 9:
			i := pick()
			defect = "empty " + f[i].k
			f[i].v = ""
		case 10:
			i := pick()
			defect = "misspelt " + f[i].k
			f[i].k = rapid.SampledFrom([]string{strings.ToLower(f[i].k), f[i].k + "S", "X" + f[i].k, f[i].k[1:]}).Draw(t, "key")
		case 11:
			defect = "unknown field"
			i := pick()
			f = append(f[:i:i], append([]kv{{"EXTRA", "1"}}, f[i:]...)...)
		case 12:
			defect = "text before the header"
			prefix = rapid.SampledFrom([]string{"X", "HTTP/1.1 200 OK\r\n\r\n", "<", "<?xml version=\"1.0\"?>\n", "OFX", "<html>", "<!-- -->"}).Draw(t, "prefix")
		case 13:
			i := pick()
			defect = "no colon after " + f[i].k
			lay.colon = rapid.SampledFrom([]string{"=", " ", "", ";", "::"}).Draw(t, "colon")
		}
		h := prefix + lay.write(f)
		mustReject(t, h+rapid.SampledFrom(temptingBodies).Draw(t, "body"), defect)
		c.Label("%s", defect)
		c.NonTrivial(h)
		c.Sample("%s: %q", defect, h)
	})
	xmlDecl := func(t *rapid.T) string {
		return rapid.SampledFrom([]string{
			`<?xml version="1.0"?>`, `<?xml version="1.0" encoding="UTF-8"?>`, `<?xml version="1.0" encoding="UTF-8" standalone="no"?>`,
			`<?xml version="1.0" encoding="utf-8" standalone="yes" ?>`, `<?xml version="1.0" encoding="ISO-8859-1"?>`, `<?xml version='1.0'?>`}).Draw(t, "decl")
	}
	gap := func(t *rapid.T, label string) string {
		return rapid.SampledFrom([]string{"", "\n", "\r\n", " ", "\n\n  "}).Draw(t, label)
	}
	attrs := func(t *rapid.T, ver int) []kv {
		a := []kv{{"OFXHEADER", "200"}, {"VERSION", versionStrings[ver]}}
		if rapid.Bool().Draw(t, "sec") {
			a = append(a, kv{"SECURITY", "NONE"})
		}
		uids := []string{"NONE", "", "123", "a-b_c", "20230101 x", "VERSION=102"}
		if rapid.Bool().Draw(t, "old") {
			a = append(a, kv{"OLDFILEUID", rapid.SampledFrom(uids).Draw(t, "olduid")})
		}
		if rapid.Bool().Draw(t, "new") {
			a = append(a, kv{"NEWFILEUID", rapid.SampledFrom(uids).Draw(t, "newuid")})
		}
		return rapid.Permutation(a).Draw(t, "order")
	}
	writePI := func(t *rapid.T, target string, a []kv) string {
		var b strings.Builder
		b.WriteString("<?" + target)
		for _, f := range a {
			b.WriteString(rapid.SampledFrom([]string{" ", "  ", "\n"}).Draw(t, "asep") + f.k + `="` + f.v + `"`)
		}
		return b.String() + rapid.SampledFrom([]string{"", " "}).Draw(t, "end") + "?>"
	}
	prop(t, "xml-conforming", 12000, 100000, func(t *rapid.T, c *Case) {
		ver := rapid.IntRange(v200, v220).Draw(t, "ver")
		h := xmlDecl(t) + gap(t, "g1") + writePI(t, "OFX", attrs(t, ver)) + gap(t, "g2")
		mustAcceptVersion(t, h+rapid.SampledFrom(temptingBodies[:2]).Draw(t, "body"), ver)
		i := rapid.IntRange(3, 5).Draw(t, "tempting")
		mustAcceptVersion(t, h+temptingBodies[i], ver)
		c.Label("version %s", versionStrings[ver])
		c.NonTrivial(h)
		c.Sample("%q", h)
	})
	prop(t, "xml-defects", 24000, 200000, func(t *rapid.T, c *Case) {
		ver := rapid.IntRange(v200, v220).Draw(t, "ver")
		a := attrs(t, ver)
		set := func(k, v string) {
			for i := range a {
				if a[i].k == k {
					a[i].v = v
					return
				}
			}
			a = append(a, kv{k, v})
		}
		drop := func(k string) {
			for i := range a {
				if a[i].k == k {
					a = append(a[:i:i], a[i+1:]...)
					return
				}
			}
		}
		decl, target, defect := xmlDecl(t), "OFX", ""
		mangle := func(s string) string { return s }
		switch rapid.IntRange(0, 11).Draw(t, "defect") {
		case 0:
			defect = "no XML declaration"
			decl = ""
		case 1:
			defect = "no OFX header"
			mangle = func(string) string { return "" }
		case 2:
			defect = "other processing instruction"
			target = rapid.SampledFrom([]string{"ofx", "OFX2", "XOFX", "xml-stylesheet", "OF"}).Draw(t, "target")
		case 3:
			defect = "OFXHEADER value"
			set("OFXHEADER", rapid.SampledFrom([]string{"100", "201", "20", "2000", "", "220", "NONE", "200 ", "0200", " 200", "+200", "200.0"}).Draw(t, "v"))
		case 4:
			defect = "no OFXHEADER"
			drop("OFXHEADER")
		case 5:
			defect = "no VERSION"
			drop("VERSION")
		case 6:
			defect = "unknown VERSION"
			set("VERSION", rapid.OneOf(rapid.Custom(notVersion), rapid.SampledFrom([]string{"", "2.0", "NONE", "v203", "203x", "+203", "203.0"})).Draw(t, "v"))
		case 7:
			defect = "1.x VERSION"
			set("VERSION", versionStrings[rapid.IntRange(v102, v160).Draw(t, "v")])
		case 8:
			defect = "SECURITY value"
			set("SECURITY", rapid.SampledFrom([]string{"TYPE1", "none", "", "SSL", "TYPE2"}).Draw(t, "v"))
		case 9:
			defect = "unknown attribute"
			set(rapid.SampledFrom([]string{"DATA", "COMPRESSION", "ENCODING", "CHARSET", "version", "X", "FILEUID", "OFXHEADERS"}).Draw(t, "k"), "NONE")
		case 10:
			defect = "attribute without closing quote"
			mangle = func(s string) string {
				i := strings.LastIndexByte(s, '"')
				return s[:i] + s[i+1:]
			}
		case 11:
			defect = "unquoted value"
			mangle = func(s string) string { return strings.ReplaceAll(s, `"`, "") }
		}
		h := decl + gap(t, "g1") + mangle(writePI(t, target, a)) + gap(t, "g2")
		mustReject(t, h+rapid.SampledFrom(temptingBodies).Draw(t, "body"), defect)
		c.Label("%s", defect)
		c.NonTrivial(h)
		c.Sample("%s: %q", defect, h)
	})
	prop(t, "no-header", 6000, 20000, func(t *rapid.T, c *Case) {
		h := rapid.SampledFrom([]string{"", "\n", " ", "OFXHEADER", "OFXHEADER:", "OFXHEADER:100", "OFXHEADER=", `<?OFX?>`, `<?xml version="1.0"?>`, "<?xml?>", "garbage\n", "<!DOCTYPE OFX>", "<OFX>"}).Draw(t, "h") +
			rapid.SampledFrom([]string{"", "\n", " x", "OFXHEADER:100", "VERSION:102"}).Draw(t, "h2")
		mustReject(t, h+rapid.SampledFrom(temptingBodies).Draw(t, "body"), "no header")
		c.NonTrivial(h)
	})
	// the version type itself
	prop(t, "version-names", 12000, 50000, func(t *rapid.T, c *Case) {
		s := rapid.OneOf(rapid.SampledFrom(versionStrings), rapid.Custom(notVersion), rapid.StringMatching("[0-9A-Z. ]{0,4}")).Draw(t, "s")
		want := -1
		for i, k := range versionStrings {
			if k == strings.TrimSpace(s) {
				want = i
			}
		}
		v, err := ofxgo.NewOfxVersion(s)
		if want < 0 {
			if err == nil {
				t.Fatalf("version %q accepted as %v", s, v)
			}
			if v.Valid() {
				t.Fatalf("rejected version %q gives valid %v", s, v)
			}
		} else if s == versionStrings[want] {
			if err != nil || int(reflect.ValueOf(v).Uint()) != want+1 || v.String() != s || !v.Valid() {
				t.Fatalf("version %q gives %v (%d), error %v", s, v, v, err)
			}
		}
		c.NonTrivial(fmt.Sprint(s))
	})
	once(t, "version-order", func(t *testing.T, ev func(key, sample string)) {
		// the exported constants stand for the versions they are named after
		consts := []interface{ String() string }{ofxgo.OfxVersion102, ofxgo.OfxVersion103, ofxgo.OfxVersion151, ofxgo.OfxVersion160, ofxgo.OfxVersion200, ofxgo.OfxVersion201, ofxgo.OfxVersion202, ofxgo.OfxVersion203, ofxgo.OfxVersion210, ofxgo.OfxVersion211, ofxgo.OfxVersion220}
		for i, k := range consts {
			if k.String() != versionStrings[i] || reflect.ValueOf(k).Uint() != uint64(i+1) {
				t.Fatalf("constant for %s prints %s", versionStrings[i], k)
			}
			ev(versionStrings[i], k.String())
		}
	})
}
