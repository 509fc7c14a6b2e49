package harness

import (
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
	"golang.org/x/text/currency"
	"pgregory.net/rapid"
)

// dump describes a value completely, so that equal dumps mean
// equal values as users see them.
func dump(v any) string {
	var b strings.Builder
	dumpValue(&b, reflect.ValueOf(v))
	return b.String()
}

var (
	ratType  = reflect.TypeOf(big.Rat{})
	timeType = reflect.TypeOf(time.Time{})
	unitType = reflect.TypeOf(currency.Unit{})
)

func dumpValue(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Type() {
	case ratType:
		r := v.Interface().(big.Rat)
		b.WriteString(r.RatString())
		return
	case timeType:
		t := v.Interface().(time.Time)
		z, off := t.Zone()
		fmt.Fprintf(b, "%d.%d/%s/%d", t.Unix(), t.Nanosecond(), z, off)
		return
	case unitType:
		b.WriteString(v.Interface().(currency.Unit).String())
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dumpValue(b, v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "%s ", v.Elem().Type())
		dumpValue(b, v.Elem())
	case reflect.Slice:
		fmt.Fprintf(b, "%d[", v.Len())
		for i := 0; i < v.Len(); i++ {
			dumpValue(b, v.Index(i))
			b.WriteString(", ")
		}
		b.WriteString("]")
	case reflect.Struct:
		fmt.Fprintf(b, "%s{", v.Type().Name())
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" && !f.Anonymous { // such as something remembered
				continue
			}
			fmt.Fprintf(b, "%s:", f.Name)
			dumpValue(b, v.Field(i))
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		fmt.Fprint(b, v.Uint())
	default:
		panic("dump " + v.Kind().String())
	}
}

var lineBreaks = regexp.MustCompile(`\r?\n[ \t]*`)

// C24: marshalling is deterministic, pure, and formatting is white space.
func TestC24(t *testing.T) {
	rule("Drawn requests and responses (valid and invalid) are marshalled twice, with other values in between, and compared byte by byte, together with complete dumps of the values before and after; drawn documents are parsed twice. A request is marshalled under all four formatting options and the results are compared after removing line breaks and the white space after them. Non-trivial when there is a message.")
	prop(t, "response-twice", 3000, 60000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), rapid.IntRange(0, 3).Draw(t, "valid") > 0)
		r := g.response()
		before := dump(r)
		b1, err1 := r.Marshal()
		if after := dump(r); after != before {
			t.Fatalf("marshalling changed the response\n%s\n%s", before, after)
		}
		other := newGen(t, anyVersion(t), true).response()
		if _, err := other.Marshal(); err != nil {
			t.Fatalf("marshalling: %v", err)
		}
		b2, err2 := r.Marshal()
		if fmt.Sprint(err1) != fmt.Sprint(err2) || err1 == nil && b1.String() != b2.String() {
			t.Fatalf("marshalled differently the second time (%v, %v)\n%s\n%s", err1, err2, b1, b2)
		}
		r.Valid()
		if after := dump(r); after != before {
			t.Fatalf("validating changed the response\n%s\n%s", before, after)
		}
		if respMessages(r) > 0 {
			c.NonTrivial(before)
		}
		c.Label("error %v", err1 != nil)
	})
	prop(t, "parse-twice", 3000, 60000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), rapid.IntRange(0, 3).Draw(t, "valid") > 0)
		r := g.response()
		doc := drawSurface(t, g.ver).Document(responseNode(r))
		if rapid.IntRange(0, 2).Draw(t, "mutate") == 2 {
			doc = mutate(t, doc)
		}
		g2 := newGen(t, anyVersion(t), true)
		otherDoc := drawSurface(t, g2.ver).Document(responseNode(g2.response()))
		r1, err1 := ofxgo.ParseResponse(strings.NewReader(doc))
		d1 := dump(r1)
		if _, err := ofxgo.ParseResponse(strings.NewReader(otherDoc)); err != nil {
			t.Fatalf("parsing: %v\n%s", err, otherDoc)
		}
		r2, err2 := ofxgo.ParseResponse(strings.NewReader(doc))
		if d2 := dump(r2); d1 != d2 || fmt.Sprint(err1) != fmt.Sprint(err2) {
			t.Fatalf("parsed differently the second time (%v, %v)\n%s\n%s", err1, err2, d1, d2)
		}
		if dump(r1) != d1 {
			t.Fatalf("parsing a document changed the response of an earlier one\n%s\n%s", d1, dump(r1))
		}
		if respMessages(r) > 0 {
			c.NonTrivial(doc)
		}
		c.Label("error %v", err1 != nil)
	})
	prop(t, "formatting", 4000, 80000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		r := g.request()
		date := g.date()
		var first, firstDoc string
		for i, k := range rapid.Permutation([]int{0, 1, 2, 3, 0, 3, 1}).Draw(t, "order") {
			noIndent, cr := k&1 == 1, k&2 == 2
			r.SetClientFields(config(noIndent, cr, g.ver))
			r.Signon.DtClient = date
			before := dump(r)
			b, err := r.Marshal()
			if err != nil {
				t.Fatalf("marshalling: %v", err)
			}
			if after := dump(r); after != before {
				t.Fatalf("marshalling changed the request\n%s\n%s", before, after)
			}
			doc := b.String()
			if p := formatProblem(doc, !noIndent, cr); p != "" {
				t.Fatalf("NoIndent %v, CarriageReturn %v: %s\n%q", noIndent, cr, p, doc)
			}
			bare := lineBreaks.ReplaceAllString(doc, "")
			if i == 0 {
				first, firstDoc = bare, doc
			} else if bare != first {
				t.Fatalf("NoIndent %v, CarriageReturn %v gives other content\n%q\n%q", noIndent, cr, firstDoc, doc)
			}
			b2, err := r.Marshal()
			if err != nil || b2.String() != doc {
				t.Fatalf("marshalled differently the second time: %v\n%q\n%q", err, doc, b2)
			}
		}
		if reqMessages(r) > 0 {
			c.NonTrivial(first)
			c.Sample("%s", firstDoc)
		}
		c.Label("version %s", versionStrings[g.ver])
	})
}

func elems(ts []reflect.Type) (out []string) {
	for _, rt := range ts {
		out = append(out, schema[rt.Name()].Elem)
	}
	return
}

// mixedLists are the kinds of lists whose entries have kinds of their own.
var mixedLists = []struct {
	elem  string // of the list
	types []reflect.Type
	more  []string // other children it may have
}{
	{"INVTRANLIST", invTranTypes, []string{"DTSTART", "DTEND", "INVBANKTRAN"}},
	{"INVPOSLIST", positionTypes, nil},
	{"INVOOLIST", ooTypes, nil},
	{"SECLIST", securityTypes, nil},
}

// listResponse draws a response with full mixed lists.
func listResponse(g *Gen, most int) *ofxgo.Response {
	r := &ofxgo.Response{}
	setRespVersion(r, g.ver)
	g.fillSignon(r)
	m := &ofxgo.InvStatementResponse{}
	g.fill(reflect.ValueOf(m).Elem())
	draw := func(ts []reflect.Type) any {
		return g.of(rapid.SampledFrom(ts).Draw(g.t, "kind")).Elem().Interface()
	}
	if m.InvTranList = nil; g.chance(80) {
		m.InvTranList = &ofxgo.InvTranList{DtStart: g.date(), DtEnd: g.date()}
		for i, k := 0, g.n(0, most); i < k; i++ {
			if j := g.again(i); j >= 0 {
				m.InvTranList.InvTransactions = append(m.InvTranList.InvTransactions, m.InvTranList.InvTransactions[j])
				continue
			}
			m.InvTranList.InvTransactions = append(m.InvTranList.InvTransactions, draw(invTranTypes).(ofxgo.InvTransaction))
		}
		for i, k := 0, g.n(0, most/2); i < k; i++ {
			if j := g.again(i); j >= 0 {
				m.InvTranList.BankTransactions = append(m.InvTranList.BankTransactions, m.InvTranList.BankTransactions[j])
				continue
			}
			m.InvTranList.BankTransactions = append(m.InvTranList.BankTransactions, g.of(reflect.TypeOf(ofxgo.InvBankTransaction{})).Elem().Interface().(ofxgo.InvBankTransaction))
		}
	}
	m.InvPosList, m.InvOOList = nil, nil
	for i, k := 0, g.n(0, most); i < k; i++ {
		if j := g.again(i); j >= 0 {
			m.InvPosList = append(m.InvPosList, m.InvPosList[j])
			continue
		}
		m.InvPosList = append(m.InvPosList, draw(positionTypes).(ofxgo.Position))
	}
	for i, k := 0, g.n(0, most); i < k; i++ {
		if j := g.again(i); j >= 0 {
			m.InvOOList = append(m.InvOOList, m.InvOOList[j])
			continue
		}
		m.InvOOList = append(m.InvOOList, draw(ooTypes).(ofxgo.OpenOrder))
	}
	l := &ofxgo.SecurityList{}
	for i, k := 0, g.n(0, most); i < k; i++ {
		if j := g.again(i); j >= 0 {
			l.Securities = append(l.Securities, l.Securities[j])
			continue
		}
		l.Securities = append(l.Securities, draw(securityTypes).(ofxgo.Security))
	}
	r.InvStmt = append(r.InvStmt, m)
	r.SecList = append(r.SecList, l)
	return r
}

// findNode gives the first element of a name.
func findNode(n *Node, name string) *Node {
	if n.Name == name {
		return n
	}
	for _, k := range n.Kids {
		if f := findNode(k, name); f != nil {
			return f
		}
	}
	return nil
}

// part finds the first struct of a type inside a value.
func part(v reflect.Value, rt reflect.Type) (reflect.Value, bool) {
	if v.Type() == rt {
		return v, true
	}
	if v.Kind() == reflect.Struct {
		for i := 0; i < v.NumField(); i++ {
			if p, ok := part(v.Field(i), rt); ok {
				return p, true
			}
		}
	}
	return v, false
}

// checkEntries verifies what the entries of a response's lists say of
// themselves.
func checkEntries(t fataler, r *ofxgo.Response) int {
	n := 0
	check := func(e any, name string, common any) {
		n++
		rv := reflect.ValueOf(e)
		if want := schema[rv.Type().Name()].Elem; name != want {
			t.Fatalf("entry of type %T calls itself %q instead of %q", e, name, want)
		}
		if common == nil {
			return
		}
		p, ok := part(rv, reflect.TypeOf(common))
		if !ok {
			t.Fatalf("%T has no %T", e, common)
		}
		if a, b := dump(p.Interface()), dump(common); a != b {
			t.Fatalf("%T gives another %T than it holds\n%s\n%s", e, common, a, b)
		}
	}
	for _, m := range responseMessages(r) {
		switch m := m.(type) {
		case *ofxgo.InvStatementResponse:
			if m.InvTranList != nil {
				for _, e := range m.InvTranList.InvTransactions {
					check(e, e.TransactionType(), e.InvTransaction())
				}
			}
			for _, e := range m.InvPosList {
				check(e, e.PositionType(), e.InvPosition())
			}
			for _, e := range m.InvOOList {
				check(e, e.OrderType(), nil)
			}
		case *ofxgo.SecurityList:
			for _, e := range m.Securities {
				check(e, e.SecurityType(), e.SecurityInfo())
			}
		}
	}
	return n
}

type (
	strangeTran     struct{ ofxgo.BuyMF }
	strangePosition struct{ ofxgo.MFPosition }
	strangeOrder    struct{ ofxgo.OOBuyMF }
	strangeSecurity struct{ ofxgo.MFInfo }
)

// C25: mixed lists.
func TestC25(t *testing.T) {
	rule("Investment statements and security lists with up to 14 entries per list, of kinds drawn anew for each entry, are rendered by the harness with bank transactions interleaved at drawn places and parsed; kinds, order, data, reported names and common parts are compared, and the marshalled form is compared with the reference document. Entries of unknown kinds are put into the lists at drawn places. Non-trivial when a list has two entries.")
	prop(t, "lists", 4000, 80000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), rapid.Bool().Draw(t, "valid"))
		g.density, g.maxList = rapid.SampledFrom([]int{0, 5, 20, 60}).Draw(t, "listdensity"), 2
		r := listResponse(g, rapid.SampledFrom([]int{2, 5, 14}).Draw(t, "most"))
		want := responseNode(r)
		if l := findNode(want, "INVTRANLIST"); l != nil {
			var inv, bank []*Node
			for _, k := range l.Kids[2:] {
				if k.Name == "INVBANKTRAN" {
					bank = append(bank, k)
				} else {
					inv = append(inv, k)
				}
			}
			l.Kids = l.Kids[:2:2]
			for len(inv) > 0 || len(bank) > 0 {
				if len(bank) == 0 || len(inv) > 0 && g.n(0, 1) == 0 {
					l.Kids, inv = append(l.Kids, inv[0]), inv[1:]
				} else {
					l.Kids, bank = append(l.Kids, bank[0]), bank[1:]
				}
			}
		}
		doc := drawSurface(t, g.ver).Document(want)
		got, err := ofxgo.DecodeResponse(strings.NewReader(doc))
		if err != nil {
			t.Fatalf("decoding: %v\n%s", err, doc)
		}
		if d := diffResponses(r, got); d != "" {
			t.Fatalf("lists were read differently: %s\n%s", d, doc)
		}
		n := checkEntries(t, got)
		if g.valid {
			b, err := got.Marshal()
			if err != nil {
				t.Fatalf("marshalling: %v", err)
			}
			checkDocument(t, b.String(), responseNode(r), g.ver, false)
		}
		if n > 1 {
			c.NonTrivial(doc)
			c.Sample("%s", doc)
		}
		c.Label("%d+ entries", n/10*10)
	})
	longLists(t, 48, 600)
	prop(t, "one-kind", 2500, 50000, func(t *rapid.T, c *Case) {
		// lists of a single entry with all or none of its optional parts
		g := newGen(t, anyVersion(t), true)
		g.density = rapid.SampledFrom([]int{0, 50, 100}).Draw(t, "kinddensity")
		li := rapid.IntRange(0, 3).Draw(t, "list")
		e := g.of(rapid.SampledFrom(mixedLists[li].types).Draw(t, "kind")).Elem().Interface()
		r := &ofxgo.Response{}
		setRespVersion(r, g.ver)
		g.density = 0
		g.fillSignon(r)
		m := &ofxgo.InvStatementResponse{}
		g.fill(reflect.ValueOf(m).Elem())
		switch e := e.(type) {
		case ofxgo.InvTransaction:
			m.InvTranList = &ofxgo.InvTranList{DtStart: g.date(), DtEnd: g.date(), InvTransactions: []ofxgo.InvTransaction{e}}
		case ofxgo.Position:
			m.InvPosList = ofxgo.PositionList{e}
		case ofxgo.OpenOrder:
			m.InvOOList = ofxgo.OOList{e}
		case ofxgo.Security:
			r.SecList = append(r.SecList, &ofxgo.SecurityList{Securities: []ofxgo.Security{e}})
		}
		r.InvStmt = append(r.InvStmt, m)
		b, err := r.Marshal()
		if err != nil {
			t.Fatalf("marshalling %T: %v", e, err)
		}
		checkDocument(t, b.String(), responseNode(r), g.ver, false)
		got, err := ofxgo.ParseResponse(strings.NewReader(b.String()))
		if err != nil {
			t.Fatalf("parsing %T: %v\n%s", e, err, b)
		}
		if d := diffResponses(r, got); d != "" {
			t.Fatalf("%T changed: %s\n%s", e, d, b)
		}
		if checkEntries(t, got) != 1 {
			t.Fatalf("%T: not one entry", e)
		}
		c.NonTrivial(b.String())
		c.Label("%T", e)
	})
	prop(t, "unknown-kind-read", 3000, 50000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		g.density = 5
		r := listResponse(g, 3)
		m := r.InvStmt[0].(*ofxgo.InvStatementResponse)
		if m.InvTranList == nil {
			m.InvTranList = &ofxgo.InvTranList{DtStart: g.date(), DtEnd: g.date()}
		}
		root := responseNode(r)
		ml := rapid.SampledFrom(mixedLists).Draw(t, "list")
		l := findNode(root, ml.elem)
		l.Maybe = false
		known := map[string]bool{}
		for _, k := range append(elems(ml.types), ml.more...) {
			known[k] = true
		}
		var names []string
		for _, o := range mixedLists {
			names = append(names, elems(o.types)...)
			names = append(names, o.elem)
		}
		for k := range known {
			names = append(names, strings.ToLower(k), k+"X", "X"+k, k[:len(k)-1], "OO"+k, strings.TrimPrefix(k, "OO"), "INV"+k)
		}
		names = append(names, "STMTTRN", "INVTRAN", "INVBUY", "SECINFO", "INVPOS", "OO", "X.EXT", "BUYBOND")
		sort.Strings(names)
		name := rapid.SampledFrom(names).Filter(func(n string) bool { return !known[n] && n != "" }).Draw(t, "name")
		x := &Node{Name: name}
		switch rapid.IntRange(0, 2).Draw(t, "content") {
		case 1: // the content of an entry
			x.Kids = structNode("", g.of(rapid.SampledFrom(ml.types).Draw(t, "like"))).Kids
		case 2:
			x.Kids = []*Node{{Name: "MEMO", Leaf: true, Kind: KString, Val: Scalar{Kind: KString, S: "x"}}}
		}
		i := rapid.IntRange(0, len(l.Kids)).Draw(t, "at")
		l.Kids = append(l.Kids[:i:i], append([]*Node{x}, l.Kids[i:]...)...)
		s := drawSurface(t, g.ver)
		s.closeLeaf = 1
		doc := s.Document(root)
		for _, parse := range []func() (*ofxgo.Response, error){
			func() (*ofxgo.Response, error) { return ofxgo.DecodeResponse(strings.NewReader(doc)) },
			func() (*ofxgo.Response, error) { return ofxgo.ParseResponse(strings.NewReader(doc)) },
		} {
			if _, err := parse(); err == nil {
				t.Fatalf("no error for <%s> in %s\n%s", name, ml.elem, doc)
			}
		}
		c.NonTrivial(doc)
		c.Label("%s", ml.elem)
		c.Sample("<%s> in %s at %d", name, ml.elem, i)
	})
	prop(t, "unknown-kind-write", 1500, 20000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		g.density = 5
		r := listResponse(g, 3)
		m := r.InvStmt[0].(*ofxgo.InvStatementResponse)
		if m.InvTranList == nil {
			m.InvTranList = &ofxgo.InvTranList{DtStart: g.date(), DtEnd: g.date()}
		}
		sl := r.SecList[0].(*ofxgo.SecurityList)
		list := rapid.IntRange(0, 3).Draw(t, "list")
		switch list {
		case 0:
			e := g.of(reflect.TypeOf(ofxgo.BuyMF{})).Elem().Interface().(ofxgo.BuyMF)
			i := g.n(0, len(m.InvTranList.InvTransactions))
			m.InvTranList.InvTransactions = append(m.InvTranList.InvTransactions[:i:i], append([]ofxgo.InvTransaction{strangeTran{e}}, m.InvTranList.InvTransactions[i:]...)...)
		case 1:
			e := g.of(reflect.TypeOf(ofxgo.MFPosition{})).Elem().Interface().(ofxgo.MFPosition)
			i := g.n(0, len(m.InvPosList))
			m.InvPosList = append(m.InvPosList[:i:i], append(ofxgo.PositionList{strangePosition{e}}, m.InvPosList[i:]...)...)
		case 2:
			e := g.of(reflect.TypeOf(ofxgo.OOBuyMF{})).Elem().Interface().(ofxgo.OOBuyMF)
			i := g.n(0, len(m.InvOOList))
			m.InvOOList = append(m.InvOOList[:i:i], append(ofxgo.OOList{strangeOrder{e}}, m.InvOOList[i:]...)...)
		case 3:
			e := g.of(reflect.TypeOf(ofxgo.MFInfo{})).Elem().Interface().(ofxgo.MFInfo)
			i := g.n(0, len(sl.Securities))
			sl.Securities = append(sl.Securities[:i:i], append([]ofxgo.Security{strangeSecurity{e}}, sl.Securities[i:]...)...)
		}
		if b, err := r.Marshal(); err == nil {
			t.Fatalf("no error for an entry of an unknown kind in list %d\n%s", list, b)
		}
		c.NonTrivial(fmt.Sprint(list, dump(r)))
		c.Label("%s", mixedLists[list].elem)
	})
}

// extraContent draws elements which are specific to some message set.
func extraContent(g *Gen) []*Node {
	leaf := func(n, v string) *Node {
		return &Node{Name: n, Leaf: true, Kind: KString, Val: Scalar{Kind: KString, S: v}}
	}
	all := [][]*Node{
		{leaf("CLOSINGAVAIL", "Y")},
		{leaf("INVALIDACCTTYPE", "CD"), leaf("INVALIDACCTTYPE", "CREDITLINE"), leaf("CLOSINGAVAIL", "N")},
		{{Name: "XFERPROF", Kids: []*Node{leaf("PROCDAYSOFF", "SUNDAY"), leaf("PROCENDTM", "170000"), leaf("CANSCHED", "Y"), leaf("CANRECUR", "N"), leaf("DFLTDAYSTOPAY", "1")}}},
		{{Name: "EMAILPROF", Kids: []*Node{leaf("CANEMAIL", "N"), leaf("CANNOTIFY", "Y")}}},
		{leaf("TRANDNLD", "Y"), leaf("OODNLD", "Y"), leaf("POSDNLD", "Y"), leaf("BALDNLD", "N"), leaf("CANEMAIL", "Y"), leaf("INV401KDNLD", "N")},
		{leaf("SECLISTRQDNLD", "Y")},
		{{Name: "OTHERENROLL", Kids: []*Node{{Name: "CLIENTENROLL", Kids: []*Node{leaf("ACCTREQUIRED", "Y")}}}}, leaf("CHGUSERINFO", "N"), leaf("AVAILACCTS", "Y")},
		{{Name: "X.EXT", Kids: []*Node{{Name: "MSGSETCORE", Kids: []*Node{leaf("VER", "9"), leaf("URL", "http://evil.invalid"), leaf("LANGUAGE", "XXX")}}}}},
		{leaf("VER", "7"), leaf("SPNAME", "evil")},
		nil,
	}
	return all[g.n(0, len(all)-1)]
}

// C26: profiles.
func TestC26(t *testing.T) {
	rule("Profiles with up to 12 message sets of drawn names and capabilities, with set-specific extra elements around their cores, are rendered by the harness and parsed, or marshalled and read by the harness; order, names and capabilities are compared. Malformed lists and names which are not version 1 names must give errors. Non-trivial with two message sets.")
	profile := func(g *Gen, most int) (*ofxgo.Response, *ofxgo.ProfileResponse) {
		r := &ofxgo.Response{}
		setRespVersion(r, g.ver)
		g.fillSignon(r)
		p := &ofxgo.ProfileResponse{}
		g.fill(reflect.ValueOf(p).Elem())
		p.MessageSetList = nil
		for i, k := 0, g.n(0, most); i < k; i++ {
			m := ofxgo.MessageSet{}
			g.fill(reflect.ValueOf(&m).Elem())
			switch g.n(0, 9) {
			case 9:
				m.Name = strings.ToUpper(rapid.StringMatching(`[A-Z][A-Z0-9.]{0,11}`).Draw(g.t, "set")) + "MSGSETV1"
			case 8: // any name, such as one which ends like a version itself
				m.Name = rapid.StringMatching(`[A-Z]([A-Z0-9.]{0,5})(V|1|V1|11|MSGSET|V1MSGSET|V2)?`).Filter(func(s string) bool {
					// elements which hold values in SGML can't hold a message set
					return !sgmlLeaf[s] && !sgmlLeaf[s+"V1"]
				}).Draw(g.t, "name") + "V1"
			default:
				m.Name = rapid.SampledFrom(profMsgSets).Draw(g.t, "mset") + "V1"
			}
			p.MessageSetList = append(p.MessageSetList, m)
		}
		r.Prof = append(r.Prof, p)
		return r, p
	}
	compare := func(t *rapid.T, want, got *ofxgo.Response, doc string) {
		if d := diffResponses(want, got); d != "" {
			t.Fatalf("profile changed: %s\n%s", d, doc)
		}
		a, b := want.Prof[0].(*ofxgo.ProfileResponse).MessageSetList, got.Prof[0].(*ofxgo.ProfileResponse).MessageSetList
		for i := range a {
			if a[i].Name != b[i].Name {
				t.Fatalf("message set %d is %q instead of %q\n%s", i, b[i].Name, a[i].Name, doc)
			}
		}
	}
	prop(t, "read", 8000, 80000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		r, p := profile(g, 12)
		root := responseNode(r)
		for _, set := range findNode(root, "MSGSETLIST").Kids {
			v1 := set.Kids[0]
			extra := extraContent(g)
			if g.n(0, 3) == 3 {
				v1.Kids = append(append([]*Node{}, extra...), v1.Kids...)
			} else {
				v1.Kids = append(v1.Kids, extra...)
			}
		}
		s := drawSurface(t, g.ver)
		s.closeLeaf = 1
		doc := s.Document(root)
		got, err := ofxgo.ParseResponse(strings.NewReader(doc))
		if err != nil {
			t.Fatalf("parsing: %v\n%s", err, doc)
		}
		compare(t, r, got, doc)
		if len(p.MessageSetList) > 1 {
			c.NonTrivial(doc)
			c.Sample("%s", doc)
		}
		c.Label("%d message sets", len(p.MessageSetList))
	})
	prop(t, "write", 6000, 60000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		r, p := profile(g, 12)
		for i := range p.MessageSetList {
			// as after parsing, or left over from something else
			switch g.n(0, 3) {
			case 1:
				p.MessageSetList[i].XMLName.Local = p.MessageSetList[i].Name
			case 2:
				p.MessageSetList[i].XMLName.Local = "OTHERMSGSETV1"
			}
		}
		b, err := r.Marshal()
		if err != nil {
			t.Fatalf("marshalling: %v", err)
		}
		checkDocument(t, b.String(), responseNode(r), g.ver, false)
		got, err := ofxgo.ParseResponse(strings.NewReader(b.String()))
		if err != nil {
			t.Fatalf("parsing: %v\n%s", err, b)
		}
		compare(t, r, got, b.String())
		if len(p.MessageSetList) > 1 {
			c.NonTrivial(b.String())
		}
		c.Label("%d message sets", len(p.MessageSetList))
	})
	prop(t, "bad-name", 3000, 20000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		r, p := profile(g, 5)
		m := ofxgo.MessageSet{}
		g.fill(reflect.ValueOf(&m).Elem())
		m.Name = rapid.SampledFrom(profMsgSets).Draw(t, "mset") + rapid.SampledFrom([]string{"", "V2", "v1", "V11", "V1X", "V", "1", "V3", "V1V2"}).Draw(t, "suffix")
		i := g.n(0, len(p.MessageSetList))
		p.MessageSetList = append(p.MessageSetList[:i:i], append(ofxgo.MessageSetList{m}, p.MessageSetList[i:]...)...)
		if b, err := r.Marshal(); err == nil {
			t.Fatalf("message set %q was written\n%s", m.Name, b)
		}
		c.NonTrivial(m.Name + dump(p))
		c.Label("%s", m.Name)
	})
	prop(t, "malformed", 5000, 40000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		g.density = 10
		r, _ := profile(g, 5)
		root := responseNode(r)
		l := findNode(root, "MSGSETLIST")
		text := func(s string) *Node { return &Node{Name: "", Text: &s} }
		i := g.n(0, len(l.Kids))
		insert := func(list []*Node, i int, n *Node) []*Node {
			return append(list[:i:i], append([]*Node{n}, list[i:]...)...)
		}
		version := func(n string) *Node { return structNode(n, core(g)) }
		how := rapid.SampledFrom([]string{"text", "empty", "text-in-set", "text-after", "leaf"}).Draw(t, "how")
		switch how {
		case "text":
			l.Kids = insert(l.Kids, i, text("text"))
		case "empty":
			l.Kids = insert(l.Kids, i, &Node{Name: "BANKMSGSET"})
		case "text-in-set":
			l.Kids = insert(l.Kids, i, &Node{Name: "BANKMSGSET", Kids: []*Node{text("text"), version("BANKMSGSETV1")}})
		case "text-after":
			l.Kids = insert(l.Kids, i, &Node{Name: "BANKMSGSET", Kids: []*Node{version("BANKMSGSETV1"), text("text")}})
		case "leaf":
			l.Kids = insert(l.Kids, i, &Node{Name: "BANKMSGSET", Leaf: true, Kind: KString, Val: Scalar{Kind: KString, S: "Y"}})
		}
		s := drawSurface(t, g.ver)
		s.closeLeaf = 1
		doc := s.Document(root)
		if got, err := ofxgo.DecodeResponse(strings.NewReader(doc)); err == nil {
			t.Fatalf("malformed list (%s) accepted as %v\n%s", how, got.Prof[0].(*ofxgo.ProfileResponse).MessageSetList, doc)
		}
		c.NonTrivial(doc)
		c.Label("%s", how)
	})
}

// core draws the capabilities of a message set.
func core(g *Gen) reflect.Value {
	m := ofxgo.MessageSet{}
	g.fill(reflect.ValueOf(&m).Elem())
	return reflect.ValueOf(m)
}
