package harness

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

const placeholder = "zqPLACEHOLDERqz"

// largeText is n bytes of text in which every part differs from the others.
func largeText(n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "%d <&> é %x;", i, i*7919)
	}
	s := b.String()[:n]
	return strings.TrimSpace(strings.ToValidUTF8(s, "x")) + "."
}

// Documents far larger than usual: many entries, a huge text, much whitespace.
func partLargeDocuments(t *testing.T) {
	prop(t, "large", 16, 160, func(t *rapid.T, c *Case) {
		ver := anyVersion(t)
		g := newGen(t, ver, true)
		g.big, g.density = false, 30
		r := &ofxgo.Response{}
		setRespVersion(r, ver)
		g.fill(reflect.ValueOf(&r.Signon).Elem())
		s := g.message(reflect.TypeOf(ofxgo.StatementResponse{})).(*ofxgo.StatementResponse)
		tran := *g.of(reflect.TypeOf(ofxgo.Transaction{})).Interface().(*ofxgo.Transaction)
		tran.FiTID, tran.Memo = placeholder, "m"
		shape := rapid.SampledFrom([]string{"entries", "text", "space", "messages"}).Draw(t, "shape")
		if shape == "text" {
			tran.FiTID, tran.Memo = "1", placeholder
		}
		s.BankTranList = &ofxgo.TransactionList{DtStart: g.date(), DtEnd: g.date(), Transactions: []ofxgo.Transaction{tran}}
		r.Bank = []ofxgo.Message{s}
		sf := drawSurface(t, ver)
		doc := sf.Document(responseNode(r))
		// the element to repeat, at a size no limit is likely to be above
		name := map[string]string{"messages": "STMTTRNRS"}[shape]
		if name == "" {
			name = "STMTTRN"
		}
		i, j := strings.Index(doc, "<"+name+">"), strings.Index(doc, "</"+name+">")+len(name)+3
		head, one, tail := doc[:i], doc[i:j], doc[j:]
		n := 1
		switch shape {
		case "entries", "messages":
			size := rapid.SampledFrom([]int{70_000, 300_000, 1_200_000, 5_000_000}).Draw(t, "size")
			if isSGML(ver) { // slower to parse
				size = min(size, 1_500_000)
			}
			n = size/len(one) + 1
			var b strings.Builder
			for k := 0; k < n; k++ {
				b.WriteString(strings.Replace(one, placeholder, fmt.Sprint("id", k), 1))
			}
			doc = head + b.String() + tail
		case "text":
			size := rapid.SampledFrom([]int{70_000, 1_200_000, 9_000_000, 18_000_000}).Draw(t, "size")
			text := largeText(size)
			tran.Memo = ofxgo.String(text)
			doc = strings.Replace(doc, placeholder, plainEscaper.Replace(text), 1)
		case "space":
			size := rapid.SampledFrom([]int{70_000, 1_200_000, 9_000_000, 18_000_000}).Draw(t, "size")
			doc = head + strings.Repeat("\r\n      ", size/8) + strings.Replace(one, placeholder, "id0", 1) + tail
		}
		check := func(how string, got *ofxgo.Response, err error) {
			if err != nil || got == nil {
				t.Fatalf("%s: document of %d bytes (%s) refused: %v", how, len(doc), shape, err)
			}
			var all []ofxgo.Transaction
			for _, m := range got.Bank {
				l := m.(*ofxgo.StatementResponse).BankTranList
				if l == nil {
					t.Fatalf("%s: no transactions", how)
				}
				all = append(all, l.Transactions...)
			}
			if len(all) != n || shape == "messages" && len(got.Bank) != n || shape != "messages" && len(got.Bank) != 1 {
				t.Fatalf("%s: %d transactions in %d messages, expected %d (%s)", how, len(all), len(got.Bank), n, shape)
			}
			for k := range all {
				if shape != "text" {
					tran.FiTID = ofxgo.String(fmt.Sprint("id", k))
				}
				if all[k].FiTID != tran.FiTID || all[k].Memo != tran.Memo {
					t.Fatalf("%s: transaction %d has id %.50q and %d bytes of memo", how, k, all[k].FiTID, len(all[k].Memo))
				}
				if k < 3 || k > n-3 || k%97 == 0 {
					if d := diffTrees(structNode("", reflect.ValueOf(&tran)), structNode("", reflect.ValueOf(&all[k]))); d != "" {
						t.Fatalf("%s: transaction %d differs: %s", how, k, d)
					}
				}
			}
			// everything but the transactions
			for _, m := range got.Bank[:1] {
				s2 := *m.(*ofxgo.StatementResponse)
				l2 := *s2.BankTranList
				l2.Transactions = s.BankTranList.Transactions
				s2.BankTranList = &l2
				rest := *got
				rest.Bank = []ofxgo.Message{&s2}
				if d := diffTrees(responseNode(r), responseNode(&rest)); d != "" {
					t.Fatalf("%s: the rest differs: %s", how, d)
				}
			}
		}
		got, err := ofxgo.ParseResponse(strings.NewReader(doc))
		check("parsing", got, err)
		b, err := got.Marshal()
		if err != nil {
			t.Fatalf("marshalling a large response failed: %v", err)
		}
		again, err := ofxgo.ParseResponse(b)
		check("parsing what was marshalled", again, err)
		c.NonTrivial(fmt.Sprint(shape, len(doc), doc[:i]))
		c.Label("%s, more than %d KB", shape, map[bool]int{false: 50, true: 1000}[len(doc) > 1_000_000])
	})
}

var plainEscaper = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;")
