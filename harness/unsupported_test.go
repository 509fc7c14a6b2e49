package harness

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

func insertNode(list []*Node, i int, n *Node) []*Node {
	return append(list[:i:i], append([]*Node{n}, list[i:]...)...)
}

func textNode(s string) *Node { return &Node{Text: &s} }

func leafNode(name, value string) *Node {
	return &Node{Name: name, Leaf: true, Kind: KString, Val: Scalar{Kind: KString, S: value}}
}

// drawMessages draws a response with one to four messages.
func drawMessages(g *Gen) *ofxgo.Response {
	r := &ofxgo.Response{}
	setRespVersion(r, g.ver)
	g.fillSignon(r)
	for i, k := 0, g.n(1, 4); i < k; i++ {
		putMessage(r, oneOfEach(g))
	}
	return r
}

// extension draws an element no OFX version has.
func extension(g *Gen, depth int) *Node {
	names := []string{"INTU.BID", "INTU.XXX", "X.EXT", "FOOBAR", "OFXEXTENSION2", "A1", "BANK.NOTE", "Z-Y_X.1"}
	x := &Node{Name: rapid.SampledFrom(names).Draw(g.t, "ext")}
	switch g.n(0, 4) {
	case 0: // empty
	case 1, 2:
		*x = *leafNode(x.Name, g.str(1, 30))
	default:
		for i, k := 0, g.n(1, 3); i < k; i++ {
			switch {
			case depth < 3 && g.n(0, 2) == 2:
				x.Kids = append(x.Kids, extension(g, depth+1))
			case g.n(0, 2) == 0: // an element which means something elsewhere
				x.Kids = append(x.Kids, structNode("", g.of(rapid.SampledFrom([]reflect.Type{
					reflect.TypeOf(ofxgo.Status{}), reflect.TypeOf(ofxgo.Transaction{}), reflect.TypeOf(ofxgo.Currency{}), reflect.TypeOf(ofxgo.Balance{}),
				}).Draw(g.t, "inside"))))
				if k := x.Kids[len(x.Kids)-1]; k.Name == "" {
					k.Name = "CURRENCY"
				}
			default:
				x.Kids = append(x.Kids, leafNode(rapid.SampledFrom([]string{"TRNUID", "CODE", "MEMO", "NAME", "DTPOSTED", "CURDEF", "LANGUAGE", "BALAMT", "STMTTRN", "FITID"}).Draw(g.t, "leaf"), g.str(1, 20)))
			}
		}
	}
	return x
}

// C32: unsupported content and unknown extensions.
func TestC32(t *testing.T) {
	rule("A drawn document gets one drawn piece of unsupported content (message sets and messages of other kinds or in other places, missing, repeated or misplaced signons, text between messages or list entries) and must be refused, or drawn unknown elements with nested content at drawn places of supported aggregates and must give exactly the original values. Every case is non-trivial.")
	assuming("Unknown elements have end tags, except in SGML at the end of their aggregate; text directly inside other aggregates is not judged.")
	prop(t, "unsupported", 6000, 120000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		g.density = min(g.density, 35)
		r := drawMessages(g)
		root := prune(responseNode(r))
		set := func() *Node { return root.Kids[g.n(1, len(root.Kids)-1)] }
		how := rapid.SampledFrom([]string{"set", "set-with-message", "message", "foreign-message", "no-signon", "late-signon", "two-signons", "two-sonrs", "empty-signon", "other-in-signon", "text", "text-in-set", "text-in-signon", "text-in-list", "wrong-root", "no-root"}).Draw(t, "how")
		stranger := func() *Node {
			n := &Node{Name: rapid.SampledFrom([]string{"LOANSTMTTRNRS", "INTRATRNRS", "INTERTRNRS", "WIRETRNRS", "PMTTRNRS", "MAILTRNRS", "CHGUSERINFOTRNRS", "ENROLLTRNRS", "ACCTTRNRS", "STPCHKTRNRS", "STMTENDTRNRS", "CCSTMTENDTRNRS", "INVMAILTRNRS", "PRESDETAILTRNRS", "IMAGETRNRS", "BANKMAILTRNRS", "STMTTRNRQ", "FOOTRNRS", "stmttrnrs", "STMTTRNRSX", "STMTRS", "SECLISTRS", "RECINTRATRNRS", "INTRASYNCRS", "STMTTRN"}).Draw(t, "name")}
			if g.n(0, 2) > 0 {
				n.Kids = []*Node{leafNode("TRNUID", "1"), structNode("STATUS", g.of(reflect.TypeOf(ofxgo.Status{})))}
			}
			return n
		}
		switch how {
		case "set":
			n := &Node{Name: rapid.SampledFrom([]string{"FOOMSGSRSV1", "BANKMSGSRQV1", "BANKMSGSRSV2", "BANKMSGSRS", "bankmsgsrsv1", "SIGNONMSGSRQV1", "TAX1099MSGSRSV1", "STMTTRNRS", "SONRS", "SECLIST", "OFX", "XBANKMSGSRSV1"}).Draw(t, "set")}
			if g.n(0, 1) == 1 {
				n.Kids = []*Node{messageNode(oneOfEach(g))}
			}
			root.Kids = insertNode(root.Kids, g.n(1, len(root.Kids)), n)
		case "set-with-message":
			n := &Node{Name: rapid.SampledFrom([]string{"LOANMSGSRSV1", "INTERXFERMSGSRSV1", "WIREXFERMSGSRSV1", "BILLPAYMSGSRSV1", "EMAILMSGSRSV1", "PRESDIRMSGSRSV1", "PRESDLVMSGSRSV1", "IMAGEMSGSRSV1"}).Draw(t, "set")}
			n.Kids = []*Node{stranger()}
			if g.n(0, 2) == 2 {
				n.Kids = []*Node{messageNode(oneOfEach(g))}
			}
			root.Kids = insertNode(root.Kids, g.n(1, len(root.Kids)), n)
		case "message":
			s := set()
			s.Kids = insertNode(s.Kids, g.n(0, len(s.Kids)), stranger())
		case "foreign-message":
			s := set()
			have := map[string]bool{}
			for _, k := range s.Kids {
				have[k.Name] = true
			}
			if s.Name == "SECLISTMSGSRSV1" {
				have["SECLIST"], have["SECLISTTRNRS"] = true, true
			}
			var m *Node
			for m == nil || have[m.Name] {
				m = messageNode(oneOfEach(g))
			}
			s.Kids = insertNode(s.Kids, g.n(0, len(s.Kids)), m)
		case "no-signon":
			root.Kids = root.Kids[1:]
		case "late-signon":
			i := g.n(1, len(root.Kids)-1)
			son := root.Kids[0]
			root.Kids = append(append(append([]*Node{}, root.Kids[1:i+1]...), son), root.Kids[i+1:]...)
		case "two-signons":
			root.Kids = insertNode(root.Kids, g.n(1, len(root.Kids)), root.Kids[0])
		case "two-sonrs":
			root.Kids[0].Kids = append(root.Kids[0].Kids, root.Kids[0].Kids[0])
		case "empty-signon":
			root.Kids[0].Kids = nil
		case "other-in-signon":
			n := &Node{Name: rapid.SampledFrom([]string{"SONRQ", "PINCHTRNRS", "CHALLENGETRNRS", "STATUS", "sonrs", "SONRSX", "MFACHALLENGETRNRS"}).Draw(t, "name"), Kids: root.Kids[0].Kids[0].Kids}
			switch g.n(0, 2) {
			case 0:
				root.Kids[0].Kids = []*Node{n}
			case 1:
				root.Kids[0].Kids = append(root.Kids[0].Kids, n)
			case 2:
				root.Kids[0].Kids = append([]*Node{n}, root.Kids[0].Kids...)
			}
		case "text", "text-in-set", "text-in-signon", "text-in-list":
			var in *Node
			switch how {
			case "text":
				in = root
			case "text-in-set":
				in = set()
			case "text-in-signon":
				in = root.Kids[0]
			default:
				if in = findNode(root, rapid.SampledFrom([]string{"INVTRANLIST", "INVPOSLIST", "INVOOLIST", "SECLIST"}).Draw(t, "list")); in == nil {
					in = root
				}
			}
			text := rapid.SampledFrom([]string{"text", "x", "0", "&amp;", "&lt;STMTTRNRS&gt;", ".", "é", "&#65;", "]]&gt;", "-"}).Draw(t, "text")
			first := 0
			if in == root.Kids[0] { // text in front of the signon itself is read over
				first = 1
			}
			in.Kids = insertNode(in.Kids, g.n(first, len(in.Kids)), textNode(text))
		case "wrong-root":
			root.Name = rapid.SampledFrom([]string{"ofx", "OFXX", "QFX", "XML", "OFC", "SIGNONMSGSRSV1"}).Draw(t, "root")
		}
		s := drawSurface(t, g.ver)
		s.closeLeaf = 1
		doc := s.Document(root)
		if how == "no-root" {
			doc = s.header()
			for _, k := range root.Kids {
				doc += s.render(k)
			}
		}
		if got, err := ofxgo.DecodeResponse(strings.NewReader(doc)); err == nil {
			t.Fatalf("unsupported content (%s) was accepted, giving %s\n%s", how, dump(got), doc)
		}
		if _, err := ofxgo.ParseResponse(strings.NewReader(doc)); err == nil {
			t.Fatalf("unsupported content (%s) was accepted\n%s", how, doc)
		}
		c.NonTrivial(doc)
		c.Label("%s", how)
		c.Sample("%s: %s", how, doc)
	})
	prop(t, "extensions", 6000, 120000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), rapid.Bool().Draw(t, "valid"))
		g.density = min(g.density, 60)
		r := drawMessages(g)
		root := prune(responseNode(r))
		var places []*Node
		var walk func(n *Node, struc bool)
		walk = func(n *Node, struc bool) {
			if n.Leaf {
				return
			}
			list := false
			switch n.Name {
			case "INVTRANLIST", "INVPOSLIST", "INVOOLIST", "SECLIST", "MSGSETLIST":
				list = true
			}
			if struc && !list {
				places = append(places, n)
			}
			for _, k := range n.Kids {
				if n.Name == "MSGSETLIST" { // the sets in it wrap their versions
					for _, v := range k.Kids {
						walk(v, true)
					}
					continue
				}
				walk(k, true)
			}
		}
		for _, set := range root.Kids {
			for _, m := range set.Kids {
				walk(m, true)
			}
		}
		n := rapid.IntRange(1, 6).Draw(t, "extensions")
		var where []string
		for i := 0; i < n; i++ {
			p := places[g.n(0, len(places)-1)]
			x := extension(g, 0)
			p.Kids = insertNode(p.Kids, g.n(0, len(p.Kids)), x)
			where = append(where, p.Name+"/"+x.Name)
		}
		s := drawSurface(t, g.ver)
		doc := s.Document(root)
		got, err := ofxgo.DecodeResponse(strings.NewReader(doc))
		if err != nil {
			t.Fatalf("unknown elements %v are not tolerated: %v\n%s", where, err, doc)
		}
		if d := diffResponses(r, got); d != "" {
			t.Fatalf("unknown elements %v disturb the values: %s\n%s", where, d, doc)
		}
		c.NonTrivial(doc)
		c.Label("%d extensions", n)
		c.Sample("%v", where)
	})
	prop(t, "unclosed-extensions", 1500, 20000, func(t *rapid.T, c *Case) {
		// as some institutions end their signon: <INTU.BID>3000</SONRS>
		g := newGen(t, rapid.IntRange(v102, v160).Draw(t, "version"), true)
		g.density = min(g.density, 60)
		r := drawMessages(g)
		root := prune(responseNode(r))
		var places []*Node
		var walk func(n *Node)
		walk = func(n *Node) {
			switch n.Name {
			case "INVTRANLIST", "INVPOSLIST", "INVOOLIST", "SECLIST", "MSGSETLIST":
				return
			}
			if !n.Leaf {
				places = append(places, n)
			}
			for _, k := range n.Kids {
				walk(k)
			}
		}
		walk(root.Kids[0].Kids[0])
		if g.n(0, 1) == 1 {
			walk(root.Kids[1].Kids[0])
		}
		p := places[g.n(0, len(places)-1)]
		text := ""
		for i, k := 0, g.n(1, 3); i < k; i++ {
			text += fmt.Sprintf("<INTU.%s>%s", rapid.SampledFrom([]string{"BID", "USERID", "ORG"}).Draw(t, "leaf"), "3000\n"[:g.n(1, 5)])
		}
		p.Kids = append(p.Kids, textNode(text))
		doc := drawSurface(t, g.ver).Document(root)
		got, err := ofxgo.DecodeResponse(strings.NewReader(doc))
		if err != nil {
			t.Fatalf("%q at the end of %s is not tolerated: %v\n%s", text, p.Name, err, doc)
		}
		if d := diffResponses(r, got); d != "" {
			t.Fatalf("%q at the end of %s disturbs the values: %s\n%s", text, p.Name, d, doc)
		}
		c.NonTrivial(doc)
		c.Label("in %s", p.Name)
	})
	// Known finding: in SGML, an unknown element without end tag swallows what
	// follows it in its aggregate. Reported, not asserted.
	once(t, "known-finding-unclosed-extension", func(t *testing.T, ev func(key, sample string)) {
		doc := "OFXHEADER:100\nDATA:OFXSGML\nVERSION:103\nSECURITY:NONE\nENCODING:USASCII\nCHARSET:1252\nCOMPRESSION:NONE\nOLDFILEUID:NONE\nNEWFILEUID:NONE\n\n<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0<SEVERITY>INFO<X.TRACE>7<MESSAGE>hello</STATUS><DTSERVER>20200101<LANGUAGE>ENG</SONRS></SIGNONMSGSRSV1></OFX>"
		r, err := ofxgo.DecodeResponse(strings.NewReader(doc))
		if err != nil {
			fmt.Printf("note: known finding unclosed extension: %v\n", err)
		} else {
			fmt.Printf("note: known finding unclosed extension: <X.TRACE>7<MESSAGE>hello is read as message %q\n", r.Signon.Status.Message)
		}
		ev("unclosed extension", doc)
	})
}
