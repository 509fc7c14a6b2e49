package harness

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
	"golang.org/x/text/currency"
	"pgregory.net/rapid"
)

// readLeaf reads one element holding the given (already escaped) text.
func readLeaf(v any, text string) error {
	return xml.Unmarshal([]byte("<X>"+text+"</X>"), v)
}

// writeLeaf writes a value as one element and returns its unescaped text.
func writeLeaf(v any) (string, error) {
	b, err := xml.Marshal(v)
	if err != nil {
		return "", err
	}
	s := string(b)
	i, j := strings.IndexByte(s, '>'), strings.LastIndex(s, "</")
	if len(s) == 0 || s[0] != '<' || i < 0 || j < i {
		return "", fmt.Errorf("wrote %q", s)
	}
	return unescape(s[i+1 : j])
}

var blanks = []string{"", "", "", " ", "\n", "\t", "\r\n", "  \n "}

func pad(t *rapid.T, s string) string {
	return rapid.SampledFrom(blanks).Draw(t, "before") + s + rapid.SampledFrom(blanks).Draw(t, "after")
}

// leafInDocument puts a text into a drawn element of the given kind of a drawn
// document and decodes it. With val == nil the document must be refused, else
// exactly that value must be read and all others stay as they are. It returns
// the name of the element, "" if there is nothing to do: no such element, or a
// zero value, which may be as good as absent.
func leafInDocument(t *rapid.T, kind Kind, text string, val *Scalar, skip ...string) string {
	if val != nil && zeroTree(&Node{Leaf: true, Val: *val}) {
		return ""
	}
	g := newGen(t, anyVersion(t), true)
	g.maxList = 2
	r := &ofxgo.Response{}
	setRespVersion(r, g.ver)
	g.fill(reflect.ValueOf(&r.Signon).Elem())
	putMessage(r, oneOfEach(g))
	tree := prune(responseNode(r))
	var leaves []*Node
	var walk func(n *Node)
	walk = func(n *Node) {
		if n.Leaf && n.Kind == kind {
			for _, s := range skip {
				if n.Name == s {
					return
				}
			}
			leaves = append(leaves, n)
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(tree)
	if len(leaves) == 0 {
		return ""
	}
	n := leaves[rapid.IntRange(0, len(leaves)-1).Draw(t, "leaf")]
	n.Text = &text
	doc := drawSurface(t, g.ver).Document(tree)
	got, err := ofxgo.DecodeResponse(strings.NewReader(doc))
	if val == nil {
		if err == nil {
			t.Fatalf("%q accepted as the value of %s\n%s", text, n.Name, doc)
		}
		return n.Name
	}
	if err != nil {
		t.Fatalf("%q refused as the value of %s: %v\n%s", text, n.Name, err, doc)
	}
	n.Val = *val
	if d := diffTrees(tree, responseNode(got)); d != "" {
		t.Fatalf("with %q in %s: %s\n%s", text, n.Name, d, doc)
	}
	return n.Name
}

// refuseEverywhere puts malformed texts into every element of the given kinds
// of a complete entry of a mixed list, or of a complete message, one by one.
func refuseEverywhere(t *testing.T, quick, thorough int, bad func(t *rapid.T, kind Kind) string, kinds ...Kind) {
	prop(t, "malformed-in-every-element", quick, thorough, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		g.density, g.maxList, g.big = 20, 1, false
		r := listResponse(g, 0)
		m := r.InvStmt[0].(*ofxgo.InvStatementResponse)
		g.density = 100
		full := func(ts ...reflect.Type) any {
			return g.of(rapid.SampledFrom(ts).Draw(t, "kind")).Elem().Interface()
		}
		switch g.n(0, 9) {
		case 0, 1, 2:
			m.InvTranList = &ofxgo.InvTranList{DtStart: g.date(), DtEnd: g.date()}
			m.InvTranList.InvTransactions = append(m.InvTranList.InvTransactions, full(invTranTypes...).(ofxgo.InvTransaction))
		case 3:
			m.InvTranList = &ofxgo.InvTranList{DtStart: g.date(), DtEnd: g.date()}
			m.InvTranList.BankTransactions = append(m.InvTranList.BankTransactions, full(reflect.TypeOf(ofxgo.InvBankTransaction{})).(ofxgo.InvBankTransaction))
		case 4:
			m.InvPosList = append(m.InvPosList, full(positionTypes...).(ofxgo.Position))
		case 5:
			m.InvOOList = append(m.InvOOList, full(ooTypes...).(ofxgo.OpenOrder))
		case 6:
			l := r.SecList[0].(*ofxgo.SecurityList)
			l.Securities = append(l.Securities, full(securityTypes...).(ofxgo.Security))
		default:
			r.InvStmt, r.SecList = nil, nil
			var ts []reflect.Type
			for _, x := range respTypesBySet {
				ts = append(ts, x...)
			}
			sort.Slice(ts, func(i, j int) bool { return ts[i].Name() < ts[j].Name() })
			putMessage(r, g.message(rapid.SampledFrom(ts).Draw(t, "message")))
		}
		tree := prune(responseNode(r))
		s := drawSurface(t, g.ver)
		k := 0
		var walk func(n *Node)
		walk = func(n *Node) {
			for _, kind := range kinds {
				if !n.Leaf || n.Kind != kind {
					continue
				}
				text := bad(t, kind)
				n.Text = &text
				doc := s.Document(tree)
				n.Text = nil
				if _, err := ofxgo.DecodeResponse(strings.NewReader(doc)); err == nil {
					t.Fatalf("%q accepted as the value of %s\n%s", text, n.Name, doc)
				}
				k++
				c.NonTrivial(n.Name + text)
			}
			for _, k := range n.Kids {
				walk(k)
			}
		}
		walk(tree)
		c.Label("%d elements", min(k/10*10, 100))
	})
}

// Amounts ---------------------------------------------------------------------

// drawDecimal draws the text of a decimal number.
func drawDecimal(t *rapid.T) string {
	g := &Gen{t: t}
	sign := rapid.SampledFrom([]string{"", "", "-", "+"}).Draw(t, "sign")
	max := rapid.SampledFrom([]int{3, 12, 40, 500}).Draw(t, "size")
	ip := g.digits(0, max)
	sep := rapid.SampledFrom([]string{"", ".", ","}).Draw(t, "sep")
	fp := ""
	if sep != "" {
		fp = g.digits(0, rapid.SampledFrom([]int{2, 12, 130, 500}).Draw(t, "fsize"))
	}
	if ip == "" && fp == "" {
		ip = "0"
	}
	if rapid.IntRange(0, 4).Draw(t, "zeros") == 4 {
		ip = "000" + ip
	}
	return sign + ip + sep + fp
}

var notAmounts = []string{"", "-", "+", ".", ",", "-.", "$5", "5$", "5%", "abc", "1a", "a1", "1.2.3", "1,2,3", "1,234.56", "1.234,56", "1,234,567",
	"1 000", "1. 5", "- 5", "--1", "++1", "+-1", "-+1", "1-", "1+", "(5)", "5 USD", "USD5", "Y", "one", "1..2", "1,,2", "1:2", "1;2", "#1", "=1", "NA", "N/A", "null", "nil"}

// written amounts: plain decimal digits without superfluous zeros
var canonicalAmount = regexp.MustCompile(`^(-?(0|[1-9][0-9]*)(\.[0-9]*[1-9])?)$`)

func TestC10(t *testing.T) {
	rule("Reading: drawn decimal texts (sign, up to 503 integer and 500 fraction digits, point or comma, surrounding whitespace) against an independent exact parser, alone and inside drawn documents; drawn non-numbers must be refused. Writing: drawn decimals with up to 100 fraction digits. Non-trivial when the text is not a bare integer.")
	assuming("Forms that are neither OFX amounts nor clearly malformed (fractions like 1/3, exponents, digit group underscores, other radixes) are not judged.")
	plain := regexp.MustCompile(`^[0-9]{1,9}$`)
	note := func(c *Case, text string) {
		if !plain.MatchString(text) {
			c.NonTrivial(text)
			c.Sample("%q", text)
		}
	}
	prop(t, "read", 60000, 2000000, func(t *rapid.T, c *Case) {
		text := drawDecimal(t)
		want, err := lexAmount(strings.Replace(text, ",", ".", 1))
		if err != nil {
			broken("%v", err)
		}
		in := pad(t, text)
		// the result may not depend on what the variable held before
		a := (&Gen{t: t}).amount()
		if err := readLeaf(&a, in); err != nil {
			t.Fatalf("amount %q refused: %v", in, err)
		}
		if a.Rat.Cmp(want) != 0 {
			t.Fatalf("amount %q read as %v, expected %v", in, a.Rat.RatString(), want.RatString())
		}
		note(c, in)
	})
	prop(t, "read-in-document", 4000, 60000, func(t *rapid.T, c *Case) {
		text := drawDecimal(t)
		want, _ := lexAmount(strings.Replace(text, ",", ".", 1))
		c.Label("%v", leafInDocument(t, KAmount, pad(t, text), &Scalar{Kind: KAmount, R: want}) != "")
		note(c, text)
	})
	bad := func(t *rapid.T) string {
		switch rapid.IntRange(0, 3).Draw(t, "badform") {
		case 0: // a foreign character inside a number
			s := drawDecimal(t)
			i := rapid.IntRange(0, len(s)).Draw(t, "at")
			return s[:i] + rapid.SampledFrom([]string{"$", "€", "g", "Z", "%", "#", "'", "*", ";", "(", "!", "USD"}).Draw(t, "char") + s[i:]
		case 1: // a second separator
			a, b := (&Gen{t: t}).digits(1, 6), (&Gen{t: t}).digits(1, 6)
			return a + rapid.SampledFrom([]string{".", ","}).Draw(t, "sep1") + b + rapid.SampledFrom([]string{".", ","}).Draw(t, "sep2") + (&Gen{t: t}).digits(0, 6)
		case 2: // whitespace inside
			return (&Gen{t: t}).digits(1, 6) + rapid.SampledFrom([]string{" ", "\n", "\t", "\u00a0"}).Draw(t, "space") + (&Gen{t: t}).digits(1, 6)
		}
		return rapid.SampledFrom(notAmounts).Draw(t, "bad")
	}
	prop(t, "read-malformed", 20000, 400000, func(t *rapid.T, c *Case) {
		text := pad(t, bad(t))
		var a ofxgo.Amount
		if err := readLeaf(&a, text); err == nil {
			t.Fatalf("%q read as amount %v", text, a.Rat.RatString())
		}
		note(c, text)
	})
	prop(t, "malformed-in-document", 2500, 40000, func(t *rapid.T, c *Case) {
		text := pad(t, bad(t))
		if leafInDocument(t, KAmount, text, nil) != "" {
			note(c, text)
		}
	})
	refuseEverywhere(t, 1200, 20000, func(t *rapid.T, _ Kind) string { return pad(t, bad(t)) }, KAmount)
	prop(t, "write", 60000, 2000000, func(t *rapid.T, c *Case) {
		g := &Gen{t: t}
		var s string
		if rapid.Bool().Draw(t, "long") {
			s = g.digits(1, 60) + "." + g.digits(0, 100)
		} else {
			s = g.digits(1, 12) + "." + g.digits(0, 6)
		}
		s = strings.TrimRight(s, ".")
		if rapid.Bool().Draw(t, "neg") {
			s = "-" + s
		}
		want, err := lexAmount(s)
		if err != nil {
			broken("%v", err)
		}
		var a ofxgo.Amount
		a.Rat.Set(want)
		text, err := writeLeaf(a)
		if err != nil {
			t.Fatalf("writing %s: %v", s, err)
		}
		if str := a.String(); str != text {
			t.Fatalf("%s prints as %q but is written as %q", s, str, text)
		}
		if !canonicalAmount.MatchString(text) || text == "-0" {
			t.Fatalf("%s written as %q, not plain decimal digits", s, text)
		}
		if r, err := lexAmount(text); err != nil || r.Cmp(want) != 0 {
			t.Fatalf("%s written as %q", s, text)
		}
		if a.Rat.Cmp(want) != 0 {
			t.Fatalf("writing %s changed it", s)
		}
		var back ofxgo.Amount
		if err := readLeaf(&back, text); err != nil || !back.Equal(a) || back.Rat.Cmp(want) != 0 {
			t.Fatalf("%s read back as %v (%v)", s, back.Rat.RatString(), err)
		}
		note(c, text)
	})
	prop(t, "equal", 20000, 400000, func(t *rapid.T, c *Case) {
		var a, b ofxgo.Amount
		ra := (&Gen{t: t}).rat()
		rb := new(big.Rat).Set(ra)
		switch rapid.IntRange(0, 4).Draw(t, "other") {
		case 0:
			rb = (&Gen{t: t}).rat()
		case 1:
			rb.Add(rb, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(rapid.IntRange(0, 120).Draw(t, "digits"))), nil)))
		case 2:
			rb.Neg(rb)
		case 3:
			rb.SetFrac(new(big.Int).Mul(rb.Num(), big.NewInt(10)), new(big.Int).Mul(rb.Denom(), big.NewInt(10)))
		}
		a.Rat.Set(ra)
		b.Rat.Set(rb)
		if want := ra.Cmp(rb) == 0; a.Equal(b) != want || b.Equal(a) != want {
			t.Fatalf("Equal(%v, %v) = %v", ra.RatString(), rb.RatString(), a.Equal(b))
		}
		if a.Rat.Cmp(ra) != 0 || b.Rat.Cmp(rb) != 0 {
			t.Fatalf("Equal changed its operands")
		}
		c.NonTrivial(ra.RatString() + "=" + rb.RatString())
		c.Label("equal=%v", ra.Cmp(rb) == 0)
	})
}

// Dates -----------------------------------------------------------------------

// drawDateText draws a permitted date text and gives what it denotes.
func drawDateText(t *rapid.T) (string, Scalar) {
	g := &Gen{t: t}
	y := rapid.OneOf(rapid.IntRange(1900, 2100), rapid.IntRange(1, 9999)).Draw(t, "year")
	mo := g.n(1, 12)
	last := time.Date(y, time.Month(mo)+1, 0, 0, 0, 0, 0, time.UTC).Day()
	d := g.n(1, last)
	if g.n(0, 3) == 3 {
		d = last
	}
	s := fmt.Sprintf("%04d%02d%02d", y, mo, d)
	k := g.n(0, 4)
	if k >= 1 {
		s += fmt.Sprintf("%02d", g.n(0, 23))
	}
	if k >= 2 {
		s += fmt.Sprintf("%02d", g.n(0, 59))
	}
	if k >= 3 {
		s += fmt.Sprintf("%02d", g.n(0, 59))
	}
	if k >= 4 {
		s += fmt.Sprintf(".%03d", g.n(0, 999))
	}
	zoned := g.n(0, 4) > 0
	if zoned {
		h := g.n(0, 14)
		z := strconv.Itoa(h)
		if g.n(0, 2) == 2 {
			z = fmt.Sprintf("%02d", h)
		}
		z = rapid.SampledFrom([]string{"", "-", "-", "+"}).Draw(t, "zsign") + z
		if g.n(0, 2) == 2 {
			z += fmt.Sprintf(".%02d", rapid.OneOf(rapid.SampledFrom([]int{0, 25, 50, 75, 33, 67}), rapid.IntRange(0, 99)).Draw(t, "hundredths"))
		}
		if g.n(0, 2) > 0 {
			z += ":" + rapid.OneOf(rapid.SampledFrom(zoneNames), rapid.StringMatching(`[A-Z]{1,6}`)).Draw(t, "zname")
		}
		s += "[" + z + "]"
	}
	sc, err := lexDate(s)
	if err != nil {
		broken("%v", err)
	}
	return s, sc
}

// zoneNameOK judges the name of the zone a date was read with.
func zoneNameOK(d ofxgo.Date, want Scalar) bool {
	name, off := d.Zone()
	if off != want.Off {
		return false
	}
	if want.Zone != "" {
		return name == want.Zone
	}
	return want.Off != 0 || name == "GMT"
}

func drawBadDate(t *rapid.T) string {
	g := &Gen{t: t}
	switch g.n(0, 6) {
	case 0: // wrong number of digits
		n := rapid.SampledFrom([]int{0, 1, 2, 4, 6, 7, 9, 11, 13, 15, 16, 17, 20}).Draw(t, "len")
		return "20200411131211999888777"[:n]
	case 1: // impossible field
		return rapid.SampledFrom([]string{"20201301", "20200001", "20200100", "20200132", "20200431", "20200230", "20210229", "21000229", "20200631", "20200931", "20201131",
			"2020010124", "202001012560", "202001011260", "20200101123460", "2020010112606000", "20200101246060", "2020010199", "20200101125999", "20209901"}).Draw(t, "bad")
	case 2: // separators and other notations
		return rapid.SampledFrom([]string{"2020-01-01", "01/02/2020", "2020/01/01", "2020.01.01", "2020-01-01T12:00:00Z", "20200101T120000", "20200101 120000", "2020 01 01", "Jan 1, 2020", "1 Jan 2020",
			"today", "-20200101", "+20200101", "20200101Z", "20200101+0100", "20200101 GMT", "NONE", "0", "20200101120000.", "20200101.500"}).Draw(t, "bad")
	case 3: // a letter in place of a digit
		s, _ := drawDateText(t)
		s, _, _ = strings.Cut(s, "[")
		i := rapid.IntRange(0, min(len(s), 14)-1).Draw(t, "at")
		return s[:i] + rapid.SampledFrom([]string{"O", "l", "x", "-", " ", "/"}).Draw(t, "char") + s[i+1:]
	case 4: // bad zone
		s, _ := drawDateText(t)
		s, _, _ = strings.Cut(s, "[")
		return s + rapid.SampledFrom([]string{"[]", "[:EST]", "[--5:EST]", "[5.5.5:EST]", "[EST]", "[99:EST]", "[-:EST]", "[+]", "[x]", "[5x:EST]", "[5:EST:EST]", "[-99]", "[1000:GMT]", "[ ]", "[GMT:0]", "[0x5]", "[5,5:EST]"}).Draw(t, "zone")
	case 5: // a zone without a date
		return rapid.SampledFrom([]string{"[0:GMT]", "[-5:EST]", "]", "[", " [0]"}).Draw(t, "zone")
	}
	return ""
}

func TestC11(t *testing.T) {
	rule("Reading: drawn dates in every permitted precision and zone form against an independent parser, alone and inside drawn documents; drawn malformed and impossible dates must be refused. Writing: drawn instants (to the nanosecond) and zones (to the second) are written and read back by the library and the independent parser. Non-trivial when the date has a time or a zone.")
	assuming("Zone names are upper-case letters, offsets within 14 hours; a fraction of an hour is given in hundredths and stands for the nearest minute.")
	prop(t, "read", 60000, 2000000, func(t *rapid.T, c *Case) {
		text, want := drawDateText(t)
		in := pad(t, text)
		d := (&Gen{t: t}).date()
		if err := readLeaf(&d, in); err != nil {
			t.Fatalf("date %q refused: %v", in, err)
		}
		if !d.Time.Equal(want.T) || !zoneNameOK(d, want) {
			t.Fatalf("date %q read as %v, expected %v", in, d.Time, want)
		}
		if len(text) > 8 {
			c.NonTrivial(in)
			c.Sample("%q", in)
		}
		_, z, _ := strings.Cut(text, "[")
		c.Label("precision %d, zone %v fraction %v name %v", len(text)-len(z), z != "", strings.Contains(z, "."), strings.Contains(z, ":"))
	})
	prop(t, "read-in-document", 4000, 60000, func(t *rapid.T, c *Case) {
		text, want := drawDateText(t)
		if leafInDocument(t, KDate, pad(t, text), &want) != "" {
			c.NonTrivial(text)
		}
	})
	prop(t, "read-malformed", 20000, 400000, func(t *rapid.T, c *Case) {
		text := pad(t, drawBadDate(t))
		var d ofxgo.Date
		if err := readLeaf(&d, text); err == nil {
			t.Fatalf("%q read as date %v", text, d.Time)
		}
		c.NonTrivial(text)
		c.Sample("%q", text)
	})
	prop(t, "malformed-in-document", 2500, 40000, func(t *rapid.T, c *Case) {
		text := pad(t, drawBadDate(t))
		if leafInDocument(t, KDate, text, nil) != "" {
			c.NonTrivial(text)
		}
	})
	refuseEverywhere(t, 1200, 20000, func(t *rapid.T, _ Kind) string { return pad(t, drawBadDate(t)) }, KDate)
	upper := regexp.MustCompile(`^[A-Z]+$`)
	prop(t, "write", 60000, 2000000, func(t *rapid.T, c *Case) {
		g := &Gen{t: t}
		y := rapid.OneOf(rapid.IntRange(1900, 2100), rapid.IntRange(2, 9998)).Draw(t, "year")
		var loc *time.Location
		switch g.n(0, 7) {
		case 0:
			loc = time.UTC
		case 1: // any second
			loc = time.FixedZone(rapid.SampledFrom([]string{"LMT", "", "EST"}).Draw(t, "zn"), g.n(-14*3600, 14*3600))
		case 2: // unusual names
			loc = time.FixedZone(rapid.SampledFrom([]string{"-03", "+0530", "", "est", "Q", "ÉST", "A B", "]", "GMT+1"}).Draw(t, "zn"), g.n(-14*60, 14*60)*60)
		case 3: // any minute
			loc = time.FixedZone(rapid.SampledFrom(zoneNames).Draw(t, "zn"), g.n(-14*60, 14*60)*60)
		case 4, 5: // offset and name depend on the time
			loc = rapid.SampledFrom(places).Draw(t, "place")
		default:
			loc = g.zone()
		}
		d := ofxgo.NewDate(y, time.Month(g.n(1, 12)), g.n(1, 31), g.n(0, 23), g.n(0, 59), g.n(0, 59), g.n(0, 999999999), loc)
		if g.n(0, 1) == 0 {
			d.Time = d.Truncate(time.Second)
		}
		if g.n(0, 7) == 7 {
			*d = *ofxgo.NewDateGMT(y, time.Month(g.n(1, 12)), g.n(1, 28), g.n(0, 23), g.n(0, 59), g.n(0, 59), g.n(0, 999999999))
			if n, o := d.Zone(); n != "GMT" || o != 0 {
				t.Fatalf("NewDateGMT gives zone %q %d", n, o)
			}
		}
		name, off := d.Zone()
		was := d.Time
		// the instant to the millisecond
		inst := d.Time.Truncate(time.Millisecond)
		text, err := writeLeaf(*d)
		if err != nil {
			t.Fatalf("writing %v: %v", was, err)
		}
		if s := d.String(); s != text {
			t.Fatalf("%v prints as %q but is written as %q", was, s, text)
		}
		sc, err := lexDate(text)
		if err != nil {
			t.Fatalf("%v written as %q: %v", was, text, err)
		}
		var back ofxgo.Date
		if err := readLeaf(&back, text); err != nil {
			t.Fatalf("%v written as %q and refused: %v", was, text, err)
		}
		if !sc.T.Equal(inst) || !back.Time.Equal(inst) {
			t.Fatalf("%v written as %q, that is %v, read back as %v", was, text, sc.T, back.Time)
		}
		_, boff := back.Zone()
		if off%60 == 0 && (sc.Off != off || boff != off) {
			t.Fatalf("%v (offset %d) written as %q, offset read back %d", was, off, text, boff)
		}
		if boff-off >= 60 || off-boff >= 60 {
			t.Fatalf("offset %d written as %q", off, text)
		}
		bname, _ := back.Zone()
		if upper.MatchString(name) && (sc.Zone != name || bname != name) {
			t.Fatalf("%v written as %q, zone name %q read back as %q", was, text, name, bname)
		}
		if !back.Equal(ofxgo.Date{Time: inst}) || !d.Time.Equal(was) {
			t.Fatalf("Equal(%v, %v) is false", back.Time, inst)
		}
		c.NonTrivial(text)
		c.Sample("%v: %q", was, text)
		c.Label("offset whole hours %v, minutes %v", off%3600 == 0, off%60 == 0)
	})
	prop(t, "equal", 20000, 400000, func(t *rapid.T, c *Case) {
		g := &Gen{t: t}
		a, b := g.date(), ofxgo.Date{}
		switch g.n(0, 4) {
		case 0:
			b = g.date()
		case 4: // far apart, where sums of small units repeat
			b.Time = a.Time
			for n := g.n(1, 8); n > 0; n-- {
				// 2^61 ns, 2^32 s, 400 years
				b.Time = b.Add(time.Duration(rapid.SampledFrom([]int64{1 << 61, 1 << 61, 1 << 61, 1 << 62, 1 << 32 * 1e9, 146097 * 86400 / 2 * 1e9}).Draw(t, "far")))
			}
			for n := g.n(0, 2); n > 0; n-- {
				b.Time = b.Add(1 << 62).Add(1 << 62)
			}
		case 1: // the same instant elsewhere
			b.Time = a.In(g.zone())
		case 2: // the same clock elsewhere
			b.Time = time.Date(a.Year(), a.Month(), a.Day(), a.Hour(), a.Minute(), a.Second(), a.Nanosecond(), g.zone())
		case 3:
			b.Time = a.Add(time.Duration(rapid.SampledFrom([]int64{1, 1000, 1000000, 1000000000, 3600e9, 86400e9}).Draw(t, "delta")))
		}
		want := a.UnixNano() == b.UnixNano() && a.Unix() == b.Unix()
		if a.Equal(b) != want || b.Equal(a) != want {
			t.Fatalf("Equal(%v, %v) = %v", a.Time, b.Time, a.Equal(b))
		}
		c.NonTrivial(fmt.Sprint(a.Time, b.Time))
		c.Label("equal=%v", want)
	})
	prop(t, "construct", 10000, 100000, func(t *rapid.T, c *Case) {
		g := &Gen{t: t}
		y, mo, d, h, mi, s, ns := g.n(1, 9999), time.Month(g.n(1, 12)), g.n(1, 31), g.n(0, 23), g.n(0, 59), g.n(0, 59), g.n(0, 999999999)
		loc := g.zone()
		if x, want := ofxgo.NewDate(y, mo, d, h, mi, s, ns, loc), time.Date(y, mo, d, h, mi, s, ns, loc); !x.Time.Equal(want) {
			t.Fatalf("NewDate gives %v, expected %v", x.Time, want)
		}
		if x, want := ofxgo.NewDateGMT(y, mo, d, h, mi, s, ns), time.Date(y, mo, d, h, mi, s, ns, time.UTC); !x.Time.Equal(want) {
			t.Fatalf("NewDateGMT gives %v, expected %v", x.Time, want)
		}
		c.NonTrivial(fmt.Sprint(y, mo, d, h, mi, s, ns, loc))
	})
}

// Integers, booleans, strings, ids --------------------------------------------

var notInts = []string{"", "-", "+", "1.0", "1,0", "1.", ".1", "0x10", "0b1", "0o7", "1e3", "1_000", "abc", "--1", "+-1", "1 2", "1a", "a1", "9223372036854775808", "-9223372036854775809", "99999999999999999999999", "1/2", "Y", "½", "١", "#1", "1-", "1%"}
var notBools = []string{"", "y", "n", "YES", "NO", "true", "false", "True", "1", "0", "T", "F", "YN", "Y N", "X", "-", "Ｙ", "Y.", "NONE", "NN", "YY", "on"}

func TestC12(t *testing.T) {
	rule("Drawn 64-bit integers in several decimal spellings, booleans, and strings and ids (markup characters, entities, non-ASCII text; several escapings) with surrounding whitespace are read, and drawn malformed ones must be refused, alone and inside drawn documents; values are written and read back. Non-trivial unless the text is a bare small number or word.")
	assuming("Text has no surrounding whitespace of its own and no characters XML forbids.")
	int64s := rapid.OneOf(rapid.Int64(), rapid.Int64Range(-1000, 1000), rapid.SampledFrom([]int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, 1 << 53, 1<<53 + 1, math.MaxUint32}))
	intText := func(t *rapid.T) (int64, string) {
		i := int64s.Draw(t, "int")
		s := strconv.FormatInt(i, 10)
		zeros := rapid.SampledFrom([]string{"", "", "0", "0000", strings.Repeat("0", 40)}).Draw(t, "zeros")
		if i < 0 {
			s = "-" + zeros + s[1:]
		} else {
			s = rapid.SampledFrom([]string{"", "", "+"}).Draw(t, "plus") + zeros + s
		}
		return i, s
	}
	prop(t, "int", 40000, 1000000, func(t *rapid.T, c *Case) {
		i, s := intText(t)
		in := pad(t, s)
		v := ofxgo.Int(rapid.Int64().Draw(t, "before"))
		if err := readLeaf(&v, in); err != nil || int64(v) != i {
			t.Fatalf("integer %q read as %d (%v)", in, v, err)
		}
		text, err := writeLeaf(ofxgo.Int(i))
		if err != nil || text != strconv.FormatInt(i, 10) {
			t.Fatalf("integer %d written as %q (%v)", i, text, err)
		}
		j := int64s.Draw(t, "other")
		if ofxgo.Int(i).Equal(ofxgo.Int(j)) != (i == j) || !ofxgo.Int(i).Equal(v) {
			t.Fatalf("Equal(%d, %d)", i, j)
		}
		c.NonTrivial(in)
		c.Sample("%q", in)
	})
	badInt := func(t *rapid.T) string {
		switch rapid.IntRange(0, 2).Draw(t, "form") {
		case 0: // beyond 64 bits
			b := new(big.Int).SetUint64(1 << 63)
			b.Add(b, new(big.Int).SetUint64(rapid.Uint64().Draw(t, "excess")))
			if rapid.Bool().Draw(t, "neg") {
				b.Add(b, big.NewInt(1)).Neg(b)
			}
			return b.String()
		case 1:
			_, s := intText(t)
			i := rapid.IntRange(0, len(s)).Draw(t, "at")
			return s[:i] + rapid.SampledFrom([]string{".", ",", "e", "x", "_", "$", "'", "g"}).Draw(t, "char") + s[i:]
		}
		return rapid.SampledFrom(notInts).Draw(t, "bad")
	}
	prop(t, "int-malformed", 15000, 300000, func(t *rapid.T, c *Case) {
		in := pad(t, badInt(t))
		var v ofxgo.Int
		if err := readLeaf(&v, in); err == nil {
			t.Fatalf("%q read as integer %d", in, v)
		}
		c.NonTrivial(in)
	})
	prop(t, "int-in-document", 3000, 40000, func(t *rapid.T, c *Case) {
		i, s := intText(t)
		if leafInDocument(t, KInt, pad(t, s), &Scalar{Kind: KInt, I: i}, "CODE") != "" {
			c.NonTrivial(s)
		}
	})
	prop(t, "int-malformed-in-document", 2000, 30000, func(t *rapid.T, c *Case) {
		in := pad(t, badInt(t))
		if leafInDocument(t, KInt, in, nil) != "" {
			c.NonTrivial(in)
		}
	})
	prop(t, "bool", 5000, 50000, func(t *rapid.T, c *Case) {
		b := rapid.Bool().Draw(t, "value")
		s := map[bool]string{true: "Y", false: "N"}[b]
		in := pad(t, s)
		v := ofxgo.Boolean(rapid.Bool().Draw(t, "before"))
		if err := readLeaf(&v, in); err != nil || bool(v) != b {
			t.Fatalf("boolean %q read as %v (%v)", in, v, err)
		}
		if text, err := writeLeaf(ofxgo.Boolean(b)); err != nil || text != s {
			t.Fatalf("boolean %v written as %q (%v)", b, text, err)
		}
		o := rapid.Bool().Draw(t, "other")
		if ofxgo.Boolean(b).Equal(ofxgo.Boolean(o)) != (b == o) {
			t.Fatalf("Equal(%v, %v)", b, o)
		}
		c.NonTrivial(in)
	})
	badBool := func(t *rapid.T) string {
		return rapid.OneOf(rapid.SampledFrom(notBools), rapid.StringMatching(`[A-Za-z0-9]{1,5}`).Filter(func(s string) bool { return s != "Y" && s != "N" })).Draw(t, "bad")
	}
	prop(t, "bool-malformed", 5000, 50000, func(t *rapid.T, c *Case) {
		in := pad(t, badBool(t))
		v := ofxgo.Boolean(rapid.Bool().Draw(t, "before"))
		if err := readLeaf(&v, in); err == nil {
			t.Fatalf("%q read as boolean %v", in, v)
		}
		c.NonTrivial(in)
	})
	prop(t, "bool-malformed-in-document", 2000, 30000, func(t *rapid.T, c *Case) {
		in := pad(t, badBool(t))
		if leafInDocument(t, KBool, in, nil) != "" {
			c.NonTrivial(in)
		}
	})
	refuseEverywhere(t, 1200, 20000, func(t *rapid.T, kind Kind) string {
		if kind == KInt {
			return pad(t, badInt(t))
		}
		return pad(t, badBool(t))
	}, KInt, KBool)
	prop(t, "text", 40000, 1000000, func(t *rapid.T, c *Case) {
		g := &Gen{t: t}
		s := g.str(0, rapid.SampledFrom([]int{4, 40, 400}).Draw(t, "max"))
		if rapid.Bool().Draw(t, "fragments") {
			s = strings.TrimSpace(strings.Join(rapid.SliceOfN(rapid.SampledFrom(fragments), 0, 8).Draw(t, "text"), ""))
		}
		sf := &Surface{t: t, entities: rapid.IntRange(0, 2).Draw(t, "entities")}
		in := pad(t, sf.escape(s))
		str, uid := ofxgo.String("before"), ofxgo.UID("before")
		if err := readLeaf(&str, in); err != nil || string(str) != s {
			t.Fatalf("text %q read as %q (%v)", in, str, err)
		}
		if err := readLeaf(&uid, in); err != nil || string(uid) != s {
			t.Fatalf("id %q read as %q (%v)", in, uid, err)
		}
		text, err := writeLeaf(ofxgo.String(s))
		if err != nil || text != s {
			t.Fatalf("text %q written as %q (%v)", s, text, err)
		}
		if text, err := writeLeaf(ofxgo.UID(s)); err != nil || text != s {
			t.Fatalf("id %q written as %q (%v)", s, text, err)
		}
		if p := str.String(); p != s {
			t.Fatalf("text %q prints as %q", s, p)
		}
		b, err := xml.Marshal(ofxgo.String(s))
		var back ofxgo.String
		if err == nil {
			err = xml.Unmarshal(b, &back)
		}
		if err != nil || string(back) != s {
			t.Fatalf("text %q written as %q and read back as %q (%v)", s, b, back, err)
		}
		o := s
		if rapid.Bool().Draw(t, "differs") {
			o = rapid.SampledFrom([]string{s + "x", s + " ", strings.ToUpper(s), strings.ToLower(s), g.str(0, 10)}).Draw(t, "other")
		}
		if ofxgo.String(s).Equal(ofxgo.String(o)) != (s == o) || ofxgo.UID(s).Equal(ofxgo.UID(o)) != (s == o) {
			t.Fatalf("Equal(%q, %q)", s, o)
		}
		if in != "" {
			c.NonTrivial(in)
			c.Sample("%q", in)
		}
	})
}

// Enumerations ------------------------------------------------------------------

func TestC13(t *testing.T) {
	rule("Every member of every enumeration is constructed, printed, validated, written and read (exhaustive, with several surroundings); names of other enumerations, near misses and drawn words which are no members must be refused, alone and inside drawn documents; drawn out-of-range numbers must not be valid nor print or write as a member. Every enumerated case is non-trivial.")
	byName := map[string][]string{}
	for _, n := range enumOrder {
		byName[n] = enums[lowerFirst(n)]
	}
	if len(enumRegistry) != len(enumOrder) {
		broken("%d enumerations registered, %d known", len(enumRegistry), len(enumOrder))
	}
	each(t, "members", len(enumRegistry), func(t *testing.T, i int, c *Case) {
		e := enumRegistry[i]
		names := byName[e.name]
		if len(e.consts) != len(names) {
			broken("%s: %d constants, %d names", e.name, len(e.consts), len(names))
		}
		seen := map[uint64]string{}
		for k, name := range names {
			v := e.consts[k]
			if o, dup := seen[v]; dup {
				t.Fatalf("%s: %s and %s are the same value", e.name, o, name)
			}
			seen[v] = name
			if !e.valid(v) || e.print(v) != name {
				t.Fatalf("%s %s: valid %v, prints as %q", e.name, name, e.valid(v), e.print(v))
			}
			w, err := e.write(v)
			if err != nil || !strings.Contains(w, ">"+name+"<") {
				t.Fatalf("%s %s written as %q (%v)", e.name, name, w, err)
			}
			for _, ws := range []string{"%s", " %s", "%s ", "\n%s\r\n", "\t %s \t"} {
				text := fmt.Sprintf(ws, name)
				if got, ok, s, err := e.make(text); err != nil || got != v || !ok || s != name {
					t.Fatalf("%s %q constructed as %d %q (%v), expected %d", e.name, text, got, s, err, v)
				}
				if got, err := e.from(text); err != nil || got != v {
					t.Fatalf("%s %q converted to %d (%v), expected %d", e.name, text, got, err, v)
				}
				if got, err := e.read("<X>" + text + "</X>"); err != nil || got != v {
					t.Fatalf("%s %q read as %d (%v), expected %d", e.name, text, got, err, v)
				}
			}
			c.Label("member of %s", e.name)
		}
		c.NonTrivial(e.name)
		c.Sample("%s: %v", e.name, names)
	})
	exhausted("every member of every enumeration")
	members := func(e enumOps) map[string]bool {
		m := map[string]bool{}
		for _, n := range byName[e.name] {
			m[n] = true
		}
		return m
	}
	drawOther := func(t *rapid.T, names []string) string {
		pick := func() string { return rapid.SampledFrom(names).Draw(t, "member") }
		switch rapid.IntRange(0, 8).Draw(t, "form") {
		case 0:
			return strings.ToLower(pick())
		case 1:
			s := pick()
			return s[:len(s)-1]
		case 2:
			return pick() + rapid.SampledFrom([]string{"S", "X", "1", ".", "\u00a0x"}).Draw(t, "suffix")
		case 3:
			return pick() + rapid.SampledFrom([]string{" ", ",", "|", ""}).Draw(t, "sep") + pick()
		case 4:
			s := pick()
			return s[:1] + strings.ToLower(s[1:])
		case 5, 6: // a member of another enumeration
			return rapid.SampledFrom(byName[rapid.SampledFrom(enumOrder).Draw(t, "enum")]).Draw(t, "foreign")
		case 7:
			return strconv.Itoa(rapid.IntRange(0, 20).Draw(t, "number"))
		}
		return rapid.OneOf(rapid.Just(""), rapid.StringMatching(`[A-Z0-9 ]{0,8}`)).Draw(t, "word")
	}
	prop(t, "other-names", 40000, 800000, func(t *rapid.T, c *Case) {
		e := rapid.SampledFrom(enumRegistry).Draw(t, "enumeration")
		text := drawOther(t, byName[e.name])
		if members(e)[strings.TrimSpace(text)] {
			return
		}
		if v, ok, s, err := e.make(text); err == nil || ok {
			t.Fatalf("%s: %q constructed as %d %q (%v)", e.name, text, v, s, err)
		}
		if v, err := e.from(text); err == nil || e.valid(v) {
			t.Fatalf("%s: %q converted to %d (%v)", e.name, text, v, err)
		}
		if v, err := e.read("<X>" + text + "</X>"); err == nil || e.valid(v) {
			t.Fatalf("%s: %q read as %d (%v)", e.name, text, v, err)
		}
		c.NonTrivial(e.name + text)
		c.Sample("%s %q", e.name, text)
	})
	prop(t, "out-of-range", 20000, 300000, func(t *rapid.T, c *Case) {
		e := rapid.SampledFrom(enumRegistry).Draw(t, "enumeration")
		n := uint64(len(e.consts))
		v := rapid.OneOf(rapid.Just(uint64(0)), rapid.Uint64Range(n+1, n+30), rapid.SampledFrom([]uint64{256, 257, 1 << 16, 1<<16 + 1, 1 << 32, 1<<32 + 1, 1 << 63, math.MaxUint64}), rapid.Uint64()).Draw(t, "value")
		if v >= 1 && v <= n {
			return
		}
		if e.valid(v) {
			t.Fatalf("%s(%d) is valid", e.name, v)
		}
		w, _ := e.write(v)
		p := e.print(v)
		for _, name := range byName[e.name] {
			if p == name {
				t.Fatalf("%s(%d) prints as %s", e.name, v, name)
			}
			if strings.Contains(w, ">"+name+"<") {
				t.Fatalf("%s(%d) is written as %s", e.name, v, w)
			}
		}
		c.NonTrivial(fmt.Sprint(e.name, v))
	})
	anyMember := func(text string) bool {
		for _, n := range byName {
			for _, m := range n {
				if m == strings.TrimSpace(text) {
					return true
				}
			}
		}
		return false
	}
	prop(t, "other-names-in-document", 4000, 60000, func(t *rapid.T, c *Case) {
		e := rapid.SampledFrom(enumRegistry).Draw(t, "enumeration")
		text := drawOther(t, byName[e.name])
		if anyMember(text) {
			return
		}
		if leafInDocument(t, KEnum, text, nil) != "" {
			c.NonTrivial(text)
		}
	})
	refuseEverywhere(t, 1200, 20000, func(t *rapid.T, _ Kind) string {
		for {
			if text := drawOther(t, byName[rapid.SampledFrom(enumRegistry).Draw(t, "enumeration").name]); !anyMember(text) {
				return text
			}
		}
	}, KEnum)
}

// Status codes ------------------------------------------------------------------

func TestC14(t *testing.T) {
	rule("Every specified code with every severity, and drawn other codes, against a frozen table of the specification. Every case is non-trivial.")
	sevs := []string{"INFO", "WARN", "ERROR", "", "info", "Error", "FATAL", "INFO "}
	judge := func(t fataler, code int64, sev string) {
		s := &ofxgo.Status{Code: ofxgo.Int(code), Severity: ofxgo.String(sev)}
		e, known := statusTab[code]
		m, merr := s.CodeMeaning()
		cond, cerr := s.CodeConditions()
		ok, verr := s.Valid()
		if ok != (verr == nil) {
			t.Fatalf("status %d %q: Valid returns %v, %v", code, sev, ok, verr)
		}
		if ok != (known && e[1] == sev) {
			t.Fatalf("status %d %q: valid is %v (%v), specified severity %q", code, sev, ok, verr, e[1])
		}
		if known && (merr != nil || cerr != nil || m != e[0] || cond != e[2]) {
			t.Fatalf("status %d: meaning %q (%v), conditions %q (%v); expected %q, %q", code, m, merr, cond, cerr, e[0], e[2])
		}
		if !known && (merr == nil || cerr == nil || m != "" || cond != "") {
			t.Fatalf("unknown status %d: meaning %q (%v), conditions %q (%v)", code, m, merr, cond, cerr)
		}
		if s.Code != ofxgo.Int(code) || string(s.Severity) != sev {
			t.Fatalf("status %d %q changed to %d %q", code, sev, s.Code, s.Severity)
		}
	}
	each(t, "specified", len(statusList)*len(sevs), func(t *testing.T, i int, c *Case) {
		code, sev := statusList[i/len(sevs)], sevs[i%len(sevs)]
		judge(t, code, sev)
		c.NonTrivial(fmt.Sprint(code, sev))
		c.Sample("%d %q", code, sev)
	})
	each(t, "small-codes", 22000, func(t *testing.T, i int, c *Case) {
		judge(t, int64(i)-1000, sevs[i%3])
		c.NonTrivial(fmt.Sprint(i))
	})
	exhausted("every specified status code with every severity; every code from -1000 to 20999")
	prop(t, "drawn", 60000, 400000, func(t *rapid.T, c *Case) {
		code := rapid.OneOf(rapid.Int64(), rapid.Int64Range(-100000, 100000), rapid.Map(rapid.SampledFrom(statusList), func(x int64) int64 { return x + 1<<32 }), rapid.Map(rapid.SampledFrom(statusList), func(x int64) int64 { return x + 1<<16 }), rapid.SampledFrom(statusList)).Draw(t, "code")
		sev := rapid.SampledFrom(sevs).Draw(t, "severity")
		judge(t, code, sev)
		c.NonTrivial(fmt.Sprint(code, sev))
	})
}

// Currencies --------------------------------------------------------------------

func TestC15(t *testing.T) {
	rule("All 17576 three-letter codes in all 8 spellings of case are constructed and read (exhaustive) against a frozen list of ISO 4217 codes; drawn other texts must be refused, alone and inside drawn documents; drawn symbols and rates are validated and compared. Every case is non-trivial.")
	assuming("The frozen list holds the current and historical ISO 4217 codes, including the funds and metal codes and XXX.")
	iso := map[string]bool{}
	for _, s := range currencies {
		iso[s] = true
	}
	each(t, "all-codes", 26*26*26, func(t *testing.T, i int, c *Case) {
		code := string([]byte{'A' + byte(i/676), 'A' + byte(i/26%26), 'A' + byte(i%26)})
		for m := 0; m < 8; m++ {
			b := []byte(code)
			for k := range b {
				if m>>k&1 == 1 {
					b[k] += 'a' - 'A'
				}
			}
			text := string(b)
			p, err := ofxgo.NewCurrSymbol(text)
			if (err == nil) != iso[code] || (p != nil) != iso[code] {
				t.Fatalf("constructing %q: %v, %v; is a code: %v", text, p, err, iso[code])
			}
			var v ofxgo.CurrSymbol
			in := []string{"%s", " %s", "%s\n", "\t%s\r\n"}[(i+m)%4]
			in = fmt.Sprintf(in, text)
			rerr := readLeaf(&v, in)
			if (rerr == nil) != iso[code] {
				t.Fatalf("reading %q: %v; is a code: %v", in, rerr, iso[code])
			}
			if !iso[code] {
				continue
			}
			for _, s := range []ofxgo.CurrSymbol{*p, v} {
				w, err := writeLeaf(s)
				if err != nil || w != code || s.String() != code {
					t.Fatalf("%q written as %q (%v), prints as %q", text, w, err, s.String())
				}
				ok, verr := s.Valid()
				if ok != (code != "XXX") || ok != (verr == nil) {
					t.Fatalf("%s: Valid returns %v, %v", code, ok, verr)
				}
			}
			if !p.Equal(v) {
				t.Fatalf("%s constructed and read are not equal", code)
			}
		}
		if iso[code] {
			c.Label("code")
		}
		c.NonTrivial(code)
	})
	exhausted("all 17576 three-letter codes in all spellings of case")
	bad := func(t *rapid.T) string {
		return rapid.OneOf(
			rapid.SampledFrom([]string{"", "US", "USDX", "U$D", "840", "$", "€", "US D", "U", "USD,EUR", "US1", "USD.", "dollar", "ÚSD", "ＵＳＤ", "N/A", "---", "U\u017fD", "\u212aRW"}),
			rapid.Map(rapid.SampledFrom(currencies), func(s string) string { return s + "S" }),
			rapid.StringMatching(`[A-Z0-9]{0,5}`).Filter(func(s string) bool { return !iso[s] })).Draw(t, "bad")
	}
	prop(t, "malformed", 20000, 100000, func(t *rapid.T, c *Case) {
		s := bad(t)
		if p, err := ofxgo.NewCurrSymbol(s); err == nil || p != nil {
			t.Fatalf("%q constructed as %v", s, p)
		}
		in := pad(t, s)
		var v ofxgo.CurrSymbol
		if err := readLeaf(&v, in); err == nil {
			t.Fatalf("%q read as %v", in, v)
		}
		c.NonTrivial(in)
		c.Sample("%q", in)
	})
	prop(t, "malformed-in-document", 4000, 30000, func(t *rapid.T, c *Case) {
		in := pad(t, bad(t))
		if leafInDocument(t, KCurr, in, nil) != "" {
			c.NonTrivial(in)
		}
	})
	refuseEverywhere(t, 1200, 20000, func(t *rapid.T, _ Kind) string { return pad(t, bad(t)) }, KCurr)
	prop(t, "valid-and-equal", 40000, 300000, func(t *rapid.T, c *Case) {
		g := &Gen{t: t}
		code := rapid.OneOf(rapid.SampledFrom(currencies), rapid.SampledFrom([]string{"XXX", "XTS", "USD", "EUR"})).Draw(t, "code")
		sym := ofxgo.CurrSymbol{Unit: currency.MustParseISO(code)}
		var rate big.Rat
		switch g.n(0, 5) {
		case 0: // zero
		case 1: // multiples of powers of two
			rate.SetInt(new(big.Int).Lsh(big.NewInt(int64(g.n(-9, 9))), uint(g.n(0, 200))))
		case 2: // tiny
			rate.SetFrac(big.NewInt(int64(g.n(-9, 9))), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(g.n(0, 400))), nil))
		default:
			rate.Set(g.rat())
		}
		cur := ofxgo.Currency{CurSym: sym}
		cur.CurRate.Rat.Set(&rate)
		ok, err := cur.Valid()
		if ok != (code != "XXX" && rate.Sign() != 0) || ok != (err == nil) {
			t.Fatalf("currency %s at rate %s: Valid returns %v, %v", code, rate.RatString(), ok, err)
		}
		o := ofxgo.CurrSymbol{Unit: currency.MustParseISO(rapid.OneOf(rapid.SampledFrom(currencies), rapid.Just(code)).Draw(t, "other"))}
		if sym.Equal(o) != (code == o.Unit.String()) || o.Equal(sym) != sym.Equal(o) {
			t.Fatalf("Equal(%s, %s) = %v", code, o.Unit, sym.Equal(o))
		}
		if zero := (ofxgo.CurrSymbol{}); zero.Equal(sym) != (code == "XXX") {
			t.Fatalf("the unset symbol and %s: Equal is %v", code, zero.Equal(sym))
		}
		c.NonTrivial(code + rate.RatString() + o.Unit.String())
		c.Label("valid=%v", ok)
	})
}

// Transaction ids -----------------------------------------------------------------

var randomForm = regexp.MustCompile(`^[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$`)

// uidChild makes a process of its own print ids, when asked to.
func uidChild() {
	for i := 0; i < 50; i++ {
		u, err := ofxgo.RandomUID()
		if err != nil {
			fmt.Println("error", err)
			os.Exit(1)
		}
		fmt.Println(*u)
	}
	os.Exit(0)
}

func TestC16(t *testing.T) {
	if os.Getenv("VERIF_UIDCHILD") != "" {
		uidChild()
	}
	rule("Drawn ASCII ids around the length limits and the hyphen positions against the rules; large numbers of generated ids from drawn numbers of goroutines and from several processes are checked for form, repetition and variation of every position. Every case is non-trivial.")
	prop(t, "form", 180000, 1000000, func(t *rapid.T, c *Case) {
		g := &Gen{t: t}
		var id string
		switch g.n(0, 3) {
		case 0:
			id = rapid.StringMatching(`[ -~]{0,40}`).Draw(t, "id")
		case 1:
			id = strings.Repeat("x", rapid.SampledFrom([]int{0, 1, 35, 36, 37, 72, 100}).Draw(t, "len"))
		default: // a well-formed id with a drawn change
			alpha := rapid.SampledFrom([]string{"0123456789abcdef", "0123456789ABCDEF", "ghXYZ_.-", "----"}).Draw(t, "alphabet")
			b := make([]byte, 36)
			for i := range b {
				b[i] = alpha[g.n(0, len(alpha)-1)]
				if i == 8 || i == 13 || i == 18 || i == 23 {
					b[i] = '-'
				}
			}
			switch g.n(0, 4) {
			case 0:
				b[rapid.SampledFrom([]int{8, 13, 18, 23, 0, 7, 9, 12, 14, 17, 19, 22, 24, 35}).Draw(t, "at")] = rapid.SampledFrom([]byte{'x', '_', '-', ' '}).Draw(t, "char")
			case 1:
				b = append(b, 'a')
			case 2:
				b = b[:35]
			}
			id = string(b)
		}
		u := ofxgo.UID(id)
		ok, err := u.Valid()
		if want := len(id) >= 1 && len(id) <= 36; ok != want || ok != (err == nil) {
			t.Fatalf("id %q of length %d: Valid returns %v, %v", id, len(id), ok, err)
		}
		rec, rerr := u.RecommendedFormat()
		want := len(id) == 36 && id[8] == '-' && id[13] == '-' && id[18] == '-' && id[23] == '-'
		if rec != want || rec != (rerr == nil) {
			t.Fatalf("id %q: RecommendedFormat returns %v, %v", id, rec, rerr)
		}
		c.NonTrivial(id)
		c.Sample("%q", id)
		c.Label("valid=%v recommended=%v", ok, rec)
	})
	prop(t, "random", 144, 800, func(t *rapid.T, c *Case) {
		workers := rapid.SampledFrom([]int{1, 2, 8, 32}).Draw(t, "goroutines")
		per := 6400 / workers
		out := make([][]ofxgo.UID, workers)
		errs := make([]error, workers)
		var wg sync.WaitGroup
		for w := range out {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < per; i++ {
					u, err := ofxgo.RandomUID()
					if err != nil {
						errs[w] = err
						return
					}
					out[w] = append(out[w], *u)
				}
			}()
		}
		wg.Wait()
		seen := map[ofxgo.UID]bool{}
		var chars [36]map[byte]int
		for i := range chars {
			chars[i] = map[byte]int{}
		}
		for w, l := range out {
			if errs[w] != nil {
				t.Fatalf("RandomUID: %v", errs[w])
			}
			for _, u := range l {
				if !randomForm.MatchString(string(u)) {
					t.Fatalf("generated id %q", u)
				}
				if ok, err := u.RecommendedFormat(); !ok || err != nil {
					t.Fatalf("generated id %q: RecommendedFormat %v, %v", u, ok, err)
				}
				if seen[u] || everSeen(u) {
					t.Fatalf("id %q generated twice", u)
				}
				seen[u] = true
				for i := range chars {
					chars[i][u[i]]++
				}
			}
		}
		for i := range chars {
			if i == 8 || i == 13 || i == 18 || i == 23 {
				continue
			}
			// 6400 draws: of 16 digits, none is missing but by a chance below 1e-170
			if len(chars[i]) < 8 {
				t.Fatalf("position %d of generated ids takes only the values %v", i, chars[i])
			}
		}
		c.NonTrivial(string(out[0][0]))
		c.Label("goroutines %d", workers)
		c.Sample("%s %s", out[0][0], out[workers-1][per-1])
	})
	once(t, "processes", func(t *testing.T, ev func(key, sample string)) {
		seen := map[string]int{}
		for p := 0; p < 4; p++ {
			cmd := exec.Command("/proc/self/exe", "-test.run", "^TestC16$")
			cmd.Env = append(os.Environ(), "VERIF_UIDCHILD=1", "VERIF_PARTIAL="+t.TempDir()+"/p", "VERIF_SHARD=0")
			b, err := cmd.Output()
			if err != nil {
				broken("child process: %v", err)
			}
			for _, l := range strings.Fields(string(b)) {
				if q, dup := seen[l]; dup {
					t.Fatalf("processes %d and %d both generated %s", q, p, l)
				}
				seen[l] = p
			}
			ev(string(b), string(b[:37]))
		}
	})
}

var everUIDs = struct {
	sync.Mutex
	m map[ofxgo.UID]bool
}{m: map[ofxgo.UID]bool{}}

func everSeen(u ofxgo.UID) bool {
	everUIDs.Lock()
	defer everUIDs.Unlock()
	if everUIDs.m[u] {
		return true
	}
	everUIDs.m[u] = true
	return false
}
