package harness

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"reflect"
	"runtime/debug"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

// wild draws any value of the exported types, whether or not it makes sense.
type wild struct {
	t *rapid.T
	// zero is how many in ten values stay at their zero, odd how many of
	// the others are unusual
	zero, odd, max int
	budget         int
	clean          bool // texts are their own normal form
}

func (w *wild) one(n int) int { return rapid.IntRange(0, n-1).Draw(w.t, "w") }

var oddStrings = []string{"\x00", "\xff\xfe", "a\x01b", "\u2028", "\uFFFE", "\U0010FFFF", "]]>", "<!--", "&#0;", "&", "<", ">", "</OFX>", "<OFX>", " ", "\t\n\r", "\xed\xa0\x80", "é", "%s%n", strings.Repeat("x", 5000), "\"'", "<![CDATA[", "\x1b[2J", "V1", "A V1", "<V1"}

func (w *wild) text() string {
	if w.one(10) < w.odd {
		s := ""
		for i, n := 0, 1+w.one(3); i < n; i++ {
			s += oddStrings[w.one(len(oddStrings))]
		}
		if w.clean {
			s = strings.TrimSpace(strings.Map(func(r rune) rune {
				if r < 0x20 && r != '\t' && r != '\n' || r == 0xFFFE || r == utf8.RuneError {
					return '?'
				}
				return r
			}, s))
			if s == "" {
				s = "x"
			}
		}
		return s
	}
	return rapid.StringMatching(`[A-Za-z0-9]{1,40}`).Draw(w.t, "s")
}

func (w *wild) moment() time.Time {
	if w.one(10) >= w.odd {
		return time.Date(1990+w.one(60), time.Month(1+w.one(12)), 1+w.one(28), w.one(24), w.one(60), w.one(60), 0, time.UTC)
	}
	zone := time.FixedZone([]string{"", "EST", "a b", "]", "<&", strings.Repeat("Z", 100)}[w.one(6)], []int{0, 1, -1, 59, 3600, -1800, 86399, -86400, 1 << 40, math.MaxInt32}[w.one(10)])
	return []time.Time{
		{}, time.Unix(0, 0), time.Unix(math.MaxInt32, 999999999), time.Unix(-1<<40, 1), time.Unix(1<<40, 0), time.Unix(math.MaxInt64, 0), time.Unix(math.MinInt64, 0),
		time.Date(-5, 1, 1, 0, 0, 0, 0, zone), time.Date(0, 1, 1, 0, 0, 0, 0, zone), time.Date(10000, 1, 1, 0, 0, 0, 0, zone), time.Date(2020, 2, 29, 23, 59, 59, 999999999, zone),
	}[w.one(11)].In(zone)
}

func (w *wild) fill(v reflect.Value) {
	if w.one(10) < w.zero {
		return
	}
	if w.budget--; w.budget < 0 {
		return
	}
	switch p := v.Addr().Interface().(type) {
	case *ofxgo.Amount:
		switch w.one(4) {
		case 0:
			p.SetFrac64(int64(w.one(2000)-1000), 3)
		case 1:
			p.Set(new(big.Rat).SetFrac(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(w.one(400))), nil), new(big.Int).Exp(big.NewInt(7), big.NewInt(int64(w.one(400))), nil)))
		default:
			p.SetFrac64(int64(w.one(2000000)-1000000), 100)
		}
		return
	case *ofxgo.Date:
		p.Time = w.moment()
		return
	case *ofxgo.CurrSymbol:
		if c, err := ofxgo.NewCurrSymbol([]string{"USD", "EUR", "XXX", "JPY"}[w.one(4)]); err == nil {
			*p = *c
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		w.fill(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath != "" && !f.Anonymous || f.Name == "XMLName" {
				continue
			}
			if v.Field(i).CanSet() {
				w.fill(v.Field(i))
			}
			if _, ok := v.Addr().Interface().(*ofxgo.MessageSet); ok && v.Type().Field(i).Name == "Name" && w.one(10) >= w.zero {
				// most other names are refused
				name := "BANKMSGSET"
				if w.one(10) < w.odd {
					name = strings.ToUpper(w.text())
				}
				v.Field(i).SetString(name + "V1")
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(w.text()))
			return
		}
		for i, n := 0, w.one(w.max+1); i < n; i++ {
			e := reflect.New(v.Type().Elem()).Elem()
			w.fill(e)
			if e.Kind() == reflect.Interface && e.IsNil() || e.Kind() == reflect.Ptr && e.IsNil() {
				continue
			}
			v.Set(reflect.Append(v, e))
		}
	case reflect.Interface:
		var fit []reflect.Type
		for _, rt := range wildTypes {
			if rt.Implements(v.Type()) {
				fit = append(fit, rt)
			}
			if pt := reflect.PointerTo(rt); pt.Implements(v.Type()) {
				fit = append(fit, pt)
			}
		}
		if len(fit) == 0 {
			broken("nothing implements %v", v.Type())
		}
		rt := fit[w.one(len(fit))]
		if rt.Kind() == reflect.Ptr {
			e := reflect.New(rt.Elem())
			w.fill(e.Elem())
			v.Set(e)
			return
		}
		e := reflect.New(rt).Elem()
		w.fill(e)
		v.Set(e)
	case reflect.String:
		v.SetString(w.text())
	case reflect.Bool:
		v.SetBool(w.one(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt([]int64{1, -1, 0, 100, 2000, 15500, math.MaxInt32, math.MinInt32}[w.one(8)])
		if v.Kind() == reflect.Int64 && w.one(10) < w.odd {
			v.SetInt([]int64{math.MaxInt64, math.MinInt64}[w.one(2)])
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n := uint64(1 + w.one(6))
		if w.one(10) < w.odd {
			n = []uint64{0, 12, 40, 255, 1 << 16, 1<<32 - 1, 1 << 31, math.MaxUint64}[w.one(8)]
		}
		v.SetUint(n)
	case reflect.Map, reflect.Func, reflect.Chan:
		broken("unexpected %v", v.Type())
	}
}

// wildTypes are the types messages and list entries can have.
var wildTypes []reflect.Type

func init() {
	for _, m := range []map[string][]reflect.Type{reqTypesBySet, respTypesBySet} {
		for _, ms := range messageSets {
			wildTypes = append(wildTypes, m[ms.Go]...)
		}
	}
	for _, l := range [][]reflect.Type{invTranTypes, positionTypes, ooTypes, securityTypes} {
		wildTypes = append(wildTypes, l...)
	}
	wildTypes = append(wildTypes, reflect.TypeOf(ofxgo.SignonRequest{}), reflect.TypeOf(ofxgo.SignonResponse{}))
}

// panicOf reports a panic as text.
func panicOf(f func()) (panicked string) {
	defer func() {
		if p := recover(); p != nil {
			panicked = fmt.Sprintf("%v\n%s", p, debug.Stack())
		}
	}()
	f()
	return
}

// C34: marshalling and validation are total.
func TestC34(t *testing.T) {
	rule("Values of the exported types are drawn without regard to sense: zero, odd and huge values in any field, any type of message and entry in any list, by value or by reference, and valid requests and responses with such values put in drawn places. Marshalling must end in either an error with a message or a well-formed UTF-8 document with the right header; a response's document must be readable, and reading and marshalling must not change it any further. Lists of each kind are made long: validating and marshalling must take time and memory in proportion. Every method without arguments, Valid with any version, and Equal must return, consistently. Every case is non-trivial.")
	assuming("Lists hold no nil entries, and XMLName fields are left to the library.")
	newWild := func(t *rapid.T) *wild {
		return &wild{t: t, zero: rapid.SampledFrom([]int{0, 1, 3, 6, 9}).Draw(t, "zero"), odd: rapid.SampledFrom([]int{0, 1, 1, 3, 6}).Draw(t, "odd"), max: rapid.SampledFrom([]int{1, 2, 3}).Draw(t, "max"), budget: 3000}
	}
	judge := func(t *rapid.T, c *Case, r any, b *bytes.Buffer, err error, panicked string) {
		ver := int(reflect.ValueOf(r).Elem().FieldByName("Version").Uint()) - 1
		switch {
		case panicked != "":
			t.Fatalf("marshalling panicked: %s\n%+v", panicked, r)
		case err != nil && b != nil:
			t.Fatalf("both an error and a document: %v\n%s", err, b)
		case err == nil && b == nil:
			t.Fatalf("neither an error nor a document\n%+v", r)
		case err != nil:
			if strings.TrimSpace(err.Error()) == "" {
				t.Fatalf("error without a message\n%+v", r)
			}
			c.Label("refused")
			c.NonTrivial(err.Error())
			return
		}
		if ver < 0 || ver >= len(versionStrings) {
			t.Fatalf("a document of no version\n%s", b)
		}
		doc := b.String()
		if !utf8.ValidString(doc) {
			t.Fatalf("the document is not UTF-8: %q", doc)
		}
		body, herr := splitHeader(doc, ver)
		if herr != nil {
			t.Fatalf("%v\n%s", herr, doc)
		}
		root, merr := parseMarkup(body, isSGML(ver))
		if merr != nil || root.Name != "OFX" {
			t.Fatalf("not a well-formed document: %v\n%s", merr, doc)
		}
		var walk func(n *RawNode)
		walk = func(n *RawNode) {
			if len(n.Kids) == 0 {
				if _, err := unescape(n.Text); err != nil {
					t.Fatalf("%s: %v\n%s", n.Name, err, doc)
				}
			}
			for _, k := range n.Kids {
				walk(k)
			}
		}
		walk(root)
		c.Label("marshalled")
		c.NonTrivial(doc)
	}
	prop(t, "response", 8000, 120000, func(t *rapid.T, c *Case) {
		w := newWild(t)
		w.clean = rapid.Bool().Draw(t, "clean")
		var r *ofxgo.Response
		ver := anyVersion(t)
		if rapid.IntRange(0, 3).Draw(t, "base") == 0 {
			r = &ofxgo.Response{}
			w.fill(reflect.ValueOf(r).Elem())
			setRespVersion(r, ver)
		} else {
			g := newGen(t, ver, true)
			r = g.response()
			w.disturb(reflect.ValueOf(r).Elem())
		}
		var b *bytes.Buffer
		var err error
		p := panicOf(func() { b, err = r.Marshal() })
		judge(t, c, r, b, err, p)
		if b == nil {
			return
		}
		// what is marshalled can be read, and is the same from then on
		doc := b.String()
		for i := 0; i < 2; i++ {
			var back *ofxgo.Response
			if p := panicOf(func() { back, err = ofxgo.DecodeResponse(strings.NewReader(doc)) }); p != "" || err != nil {
				t.Fatalf("what was marshalled cannot be read: %v%s\n%s", err, p, doc)
			}
			p := panicOf(func() { b, err = back.Marshal() })
			if p == "" && err != nil && !w.clean {
				// white space has been trimmed, or characters XML lacks replaced
				c.Label("not the same length")
				return
			}
			if p != "" || err != nil {
				t.Fatalf("what was read cannot be marshalled: %v%s\n%s", err, p, doc)
			}
			if i > 0 && b.String() != doc {
				t.Fatalf("reading and marshalling again changes the document\n%s\nto\n%s", doc, b)
			}
			doc = b.String()
		}
	})
	prop(t, "request", 8000, 120000, func(t *rapid.T, c *Case) {
		w := newWild(t)
		var r *ofxgo.Request
		ver := anyVersion(t)
		if rapid.IntRange(0, 3).Draw(t, "base") == 0 {
			r = &ofxgo.Request{}
			w.fill(reflect.ValueOf(r).Elem())
			setReqVersion(r, ver)
		} else {
			g := newGen(t, ver, true)
			r = g.request()
			w.disturb(reflect.ValueOf(r).Elem())
		}
		if rapid.Bool().Draw(t, "client") {
			r.SetClientFields(drawConfig(t))
		}
		var b *bytes.Buffer
		var err error
		p := panicOf(func() { b, err = r.Marshal() })
		judge(t, c, r, b, err, p)
	})
	prop(t, "growth", 160, 3200, growthOfMarshalling)
	prop(t, "methods", 16000, 240000, func(t *rapid.T, c *Case) {
		// no method of a value which takes nothing, a version or another value panics
		w := newWild(t)
		rt := wildTypes[w.one(len(wildTypes))]
		parts := []reflect.Value{}
		a, b := reflect.New(rt), reflect.New(rt)
		w.fill(a.Elem())
		w.fill(b.Elem())
		var walk func(v reflect.Value)
		walk = func(v reflect.Value) {
			switch v.Kind() {
			case reflect.Ptr, reflect.Interface:
				if !v.IsNil() {
					walk(v.Elem())
				}
				return
			case reflect.Slice:
				for i := 0; i < v.Len() && i < 2; i++ {
					walk(v.Index(i))
				}
			case reflect.Struct:
				if v.Type().PkgPath() != ofxgoPath {
					return
				}
				for i := 0; i < v.NumField(); i++ {
					if v.Type().Field(i).PkgPath == "" {
						walk(v.Field(i))
					}
				}
			}
			if v.CanAddr() && v.Type().PkgPath() == ofxgoPath && reflect.PointerTo(v.Type()).NumMethod() > 0 {
				parts = append(parts, v.Addr())
			}
		}
		walk(a)
		parts = append(parts, a)
		called := 0
		for _, v := range parts {
			for i := 0; i < v.NumMethod(); i++ {
				m, mt := v.Method(i), v.Type().Method(i)
				var in []reflect.Value
				switch {
				case m.Type().NumIn() == 0:
				case m.Type().NumIn() == 1 && m.Type().In(0).Kind() == reflect.Uint && mt.Name == "Valid":
					in = append(in, reflect.ValueOf([]uint64{0, 1, 5, 11, 12, math.MaxUint32}[w.one(6)]).Convert(m.Type().In(0)))
				case m.Type().NumIn() == 1 && m.Type().In(0) == v.Type().Elem():
					in = append(in, reflect.Zero(v.Type().Elem()))
				default:
					continue
				}
				var out []reflect.Value
				if p := panicOf(func() { out = m.Call(in) }); p != "" {
					t.Fatalf("%v.%s panicked: %s\n%+v", v.Type(), mt.Name, p, v.Interface())
				}
				called++
				if len(out) == 2 && out[0].Kind() == reflect.Bool && out[1].Type().String() == "error" && out[0].Bool() != out[1].IsNil() {
					t.Fatalf("%v.%s gave %v and %v\n%+v", v.Type(), mt.Name, out[0], out[1], v.Interface())
				}
				if mt.Name == "Equal" && len(in) == 1 && in[0].Type() == v.Type().Elem() && reflect.DeepEqual(v.Elem().Interface(), in[0].Interface()) && !out[0].Bool() {
					t.Fatalf("%v: %+v is not equal to itself", v.Type(), v.Interface())
				}
			}
		}
		c.NonTrivial(fmt.Sprintf("%v %d %x", rt, called, hashOf(a.Interface())))
		c.Label("%v", rt)
	})
}

var ofxgoPath = reflect.TypeOf(ofxgo.Response{}).PkgPath()

func hashOf(v any) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%+v", v)
	return h.Sum64()
}

// disturb replaces some parts of a value.
func (w *wild) disturb(v reflect.Value) {
	var parts []reflect.Value
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.CanSet() {
			parts = append(parts, v)
		}
		switch v.Interface().(type) {
		case ofxgo.Amount, ofxgo.Date, ofxgo.CurrSymbol:
			return
		}
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.PkgPath == "" && f.Name != "XMLName" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			if v.Type().Elem().Kind() != reflect.Uint8 {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i))
				}
			}
		}
	}
	walk(v)
	for i, n := 0, w.one(4); i < n; i++ {
		p := parts[1+w.one(len(parts)-1)]
		if w.one(4) == 0 && p.Kind() != reflect.Interface {
			p.Set(reflect.Zero(p.Type()))
			continue
		}
		w.fill(p)
	}
}
