package harness

import (
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/aclindsa/ofxgo"
)

// Node is an element of a reference document. Leaves carry a typed value.
type Node struct {
	Name  string
	Leaf  bool
	Kind  Kind
	Val   Scalar
	Maybe bool    // optional and zero-valued: an encoder may emit it or leave it out
	Text  *string // written instead of the value, when set
	Kids  []*Node
}

// Scalar is the semantic value of a leaf element.
type Scalar struct {
	Kind Kind
	S    string // string, uid, currency, enumeration text
	I    int64
	B    bool
	R    *big.Rat
	T    time.Time // date
	Off  int       // zone offset, seconds
	Zone string    // zone name, "" if unnamed
}

func (s Scalar) String() string {
	switch s.Kind {
	case KInt:
		return strconv.FormatInt(s.I, 10)
	case KBool:
		if s.B {
			return "Y"
		}
		return "N"
	case KAmount:
		return s.R.RatString()
	case KDate:
		return fmt.Sprintf("%s off=%d zone=%q", s.T.UTC().Format("2006-01-02T15:04:05.999999999"), s.Off, s.Zone)
	}
	return strconv.Quote(s.S)
}

// sameScalar compares an expected value with the one read back.
func sameScalar(want, got Scalar) bool {
	if want.Kind != got.Kind {
		return false
	}
	switch want.Kind {
	case KInt:
		return want.I == got.I
	case KBool:
		return want.B == got.B
	case KAmount:
		return want.R.Cmp(got.R) == 0
	case KDate:
		return want.T.Equal(got.T) && want.Off == got.Off && (want.Zone == "" || want.Zone == got.Zone)
	}
	return want.S == got.S
}

func scalarOf(v reflect.Value, fs *FieldSpec) (Scalar, bool) {
	sc := Scalar{Kind: fs.Kind}
	zero := false
	switch fs.Kind {
	case KString, KUID:
		sc.S = v.String()
		zero = sc.S == ""
	case KInt:
		sc.I = v.Int()
		zero = sc.I == 0
	case KBool:
		sc.B = v.Bool()
		zero = !sc.B
	case KAmount:
		a := v.Interface().(ofxgo.Amount)
		sc.R = new(big.Rat).Set(&a.Rat)
		zero = sc.R.Sign() == 0
	case KDate:
		d := v.Interface().(ofxgo.Date)
		sc.T = d.Time
		sc.Zone, sc.Off = d.Time.Zone()
		zero = d.Time.IsZero()
	case KCurr:
		c := v.Interface().(ofxgo.CurrSymbol)
		sc.S = c.Unit.String()
		zero = sc.S == "XXX"
	case KEnum:
		i := v.Uint()
		tab := enums[fs.Base]
		if i >= 1 && i <= uint64(len(tab)) {
			sc.S = tab[i-1]
		} else {
			zero = true
			if i != 0 {
				sc.S = fmt.Sprintf("#%d", i)
			}
		}
	default:
		panic("not a scalar")
	}
	return sc, zero
}

// structNode builds the reference element for an aggregate value.
func structNode(name string, v reflect.Value) *Node {
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	ts := schema[v.Type().Name()]
	if ts == nil {
		if v.Type().Name() == "SecurityList" {
			return secListNode(v.Interface().(ofxgo.SecurityList))
		}
		panic("no schema for " + v.Type().Name())
	}
	if name == "" {
		name = ts.Elem
	}
	n := &Node{Name: name}
	for _, fs := range ts.Fields {
		fv := v.FieldByName(fs.Go)
		if !fv.IsValid() {
			panic(fmt.Sprintf("field %s.%s is gone", ts.Name, fs.Go))
		}
		parent := n
		for _, p := range fs.Path[:len(fs.Path)-1] {
			k := len(parent.Kids)
			if k > 0 && parent.Kids[k-1].Name == p && !parent.Kids[k-1].Leaf {
				parent = parent.Kids[k-1]
			} else {
				c := &Node{Name: p}
				parent.Kids = append(parent.Kids, c)
				parent = c
			}
		}
		leaf := fs.Path[len(fs.Path)-1]
		add := func(x *Node) { parent.Kids = append(parent.Kids, x) }
		one := func(ev reflect.Value, opt bool) {
			switch fs.Kind {
			case KStruct:
				c := structNode(leaf, ev)
				if opt && zeroTree(c) {
					c.Maybe = true
				}
				add(c)
			case KSpecial:
				add(specialNode(leaf, ev, opt))
			default:
				sc, zero := scalarOf(ev, fs)
				add(&Node{Name: leaf, Leaf: true, Kind: fs.Kind, Val: sc, Maybe: zero && (opt || fs.Kind == KEnum)})
			}
		}
		switch {
		case fs.Slice:
			for i := 0; i < fv.Len(); i++ {
				one(fv.Index(i), false)
			}
		case fs.Ptr:
			if !fv.IsNil() {
				one(fv.Elem(), false)
			}
		default:
			one(fv, fs.Opt)
		}
	}
	markContainers(n, ts)
	return n
}

// markContainers marks grouping elements all of whose content may be absent.
func markContainers(n *Node, ts *TypeSpec) {
	group := map[string]bool{}
	for _, fs := range ts.Fields {
		for _, p := range fs.Path[:len(fs.Path)-1] {
			group[p] = true
		}
	}
	var walk func(x *Node)
	walk = func(x *Node) {
		for _, k := range x.Kids {
			if !k.Leaf && group[k.Name] {
				walk(k)
				all := true
				for _, kk := range k.Kids {
					if !kk.Maybe {
						all = false
					}
				}
				if all {
					k.Maybe = true
				}
			}
		}
	}
	walk(n)
}

// zeroTree reports whether every leaf below n holds the zero value.
func zeroTree(n *Node) bool {
	if n.Leaf {
		switch n.Val.Kind {
		case KInt:
			return n.Val.I == 0
		case KBool:
			return !n.Val.B
		case KAmount:
			return n.Val.R.Sign() == 0
		case KDate:
			return n.Val.T.IsZero()
		case KCurr:
			return n.Val.S == "XXX"
		}
		return n.Val.S == ""
	}
	for _, k := range n.Kids {
		if !zeroTree(k) {
			return false
		}
	}
	return true
}

func specialNode(name string, v reflect.Value, opt bool) *Node {
	switch l := v.Interface().(type) {
	case ofxgo.InvTranList:
		n := &Node{Name: name}
		date := func(nm string, d ofxgo.Date) {
			sc, _ := scalarOf(reflect.ValueOf(d), &FieldSpec{Kind: KDate})
			n.Kids = append(n.Kids, &Node{Name: nm, Leaf: true, Kind: KDate, Val: sc})
		}
		date("DTSTART", l.DtStart)
		date("DTEND", l.DtEnd)
		for _, t := range l.InvTransactions {
			n.Kids = append(n.Kids, structNode("", reflect.ValueOf(t)))
		}
		for _, t := range l.BankTransactions {
			n.Kids = append(n.Kids, structNode("", reflect.ValueOf(t)))
		}
		return n
	case ofxgo.PositionList:
		n := &Node{Name: name, Maybe: opt && len(l) == 0}
		for _, p := range l {
			n.Kids = append(n.Kids, structNode("", reflect.ValueOf(p)))
		}
		return n
	case ofxgo.OOList:
		n := &Node{Name: name, Maybe: opt && len(l) == 0}
		for _, p := range l {
			n.Kids = append(n.Kids, structNode("", reflect.ValueOf(p)))
		}
		return n
	case ofxgo.MessageSetList:
		n := &Node{Name: name}
		for _, m := range l {
			w := &Node{Name: strings.TrimSuffix(m.Name, "V1")}
			w.Kids = []*Node{structNode(m.Name, reflect.ValueOf(m))}
			n.Kids = append(n.Kids, w)
		}
		return n
	}
	panic("unknown special type")
}

func secListNode(l ofxgo.SecurityList) *Node {
	n := &Node{Name: "SECLIST"}
	for _, s := range l.Securities {
		n.Kids = append(n.Kids, structNode("", reflect.ValueOf(s)))
	}
	return n
}

// messageNode builds the element of a message (pointer to a message struct).
func messageNode(m ofxgo.Message) *Node {
	return structNode("", reflect.ValueOf(m))
}

func documentNode(v reflect.Value, suffix string) *Node {
	root := &Node{Name: "OFX"}
	root.Kids = append(root.Kids, &Node{Name: "SIGNONMSGS" + suffix, Kids: []*Node{structNode("", v.FieldByName("Signon"))}})
	for _, ms := range messageSets {
		l := v.FieldByName(ms.Go)
		if l.Len() == 0 {
			continue
		}
		n := &Node{Name: ms.Elem + suffix}
		for i := 0; i < l.Len(); i++ {
			n.Kids = append(n.Kids, messageNode(l.Index(i).Interface().(ofxgo.Message)))
		}
		root.Kids = append(root.Kids, n)
	}
	return root
}

func responseNode(r *ofxgo.Response) *Node { return documentNode(reflect.ValueOf(r).Elem(), "RSV1") }
func requestNode(r *ofxgo.Request) *Node   { return documentNode(reflect.ValueOf(r).Elem(), "RQV1") }

// prune drops everything that may be absent.
func prune(n *Node) *Node {
	c := *n
	c.Kids = nil
	for _, k := range n.Kids {
		if k.Maybe {
			continue
		}
		c.Kids = append(c.Kids, prune(k))
	}
	return &c
}

// diffTrees compares two reference trees (both built from values) after
// pruning and returns a description of the first difference, or "".
func diffTrees(want, got *Node) string { return diffT("", prune(want), prune(got)) }

func diffT(path string, w, g *Node) string {
	path += "/" + w.Name
	if w.Name != g.Name {
		return fmt.Sprintf("%s: expected this element, found %s", path, g.Name)
	}
	if w.Leaf {
		if !g.Leaf || !sameScalar(w.Val, g.Val) {
			return fmt.Sprintf("%s: expected %v, got %v", path, w.Val, g.Val)
		}
		return ""
	}
	for i := range w.Kids {
		if i >= len(g.Kids) {
			return fmt.Sprintf("%s/%s: lost (value %s)", path, w.Kids[i].Name, summarize(w.Kids[i]))
		}
		if w.Kids[i].Name != g.Kids[i].Name {
			return fmt.Sprintf("%s: expected %s (%s) at position %d, got %s (%s)", path, w.Kids[i].Name, summarize(w.Kids[i]), i, g.Kids[i].Name, summarize(g.Kids[i]))
		}
		if d := diffT(path, w.Kids[i], g.Kids[i]); d != "" {
			return d
		}
	}
	if len(g.Kids) > len(w.Kids) {
		return fmt.Sprintf("%s: unexpected %s (%s)", path, g.Kids[len(w.Kids)].Name, summarize(g.Kids[len(w.Kids)]))
	}
	return ""
}

func summarize(n *Node) string {
	if n.Leaf {
		return n.Val.String()
	}
	return fmt.Sprintf("aggregate with %d children", len(n.Kids))
}

func countLeaves(n *Node) int {
	if n.Leaf {
		return 1
	}
	c := 0
	for _, k := range n.Kids {
		c += countLeaves(k)
	}
	return c
}

// diffResponses compares two Responses by value, XMLName bookkeeping aside.
func diffResponses(want, got *ofxgo.Response) string {
	if want.Version != got.Version {
		return fmt.Sprintf("version: expected %v, got %v", want.Version, got.Version)
	}
	return diffTrees(responseNode(want), responseNode(got))
}
