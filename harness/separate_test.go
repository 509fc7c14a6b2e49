package harness

import (
	"bytes"
	"math/big"
	"reflect"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

// clobber changes everything in a value in place, through its pointers and
// slices, as an owner of the value may.
func clobber(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			clobber(v.Elem())
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Elem().Kind() == reflect.Pointer {
			clobber(v.Elem())
			return
		}
		x := reflect.New(v.Elem().Type()).Elem()
		x.Set(v.Elem())
		clobber(x)
		v.Set(x)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			clobber(v.Index(i))
		}
	case reflect.Struct:
		switch x := v.Addr().Interface().(type) {
		case *ofxgo.Amount:
			// in all the ways which may reuse the memory of the number
			x.Neg(&x.Rat)
			x.Add(&x.Rat, big.NewRat(1, 3))
			x.Mul(&x.Rat, big.NewRat(1, 7))
			x.Sub(&x.Rat, &x.Rat)
			x.SetFrac64(-77, 13)
			return
		case *ofxgo.Date:
			x.Time = x.Time.Add(time.Hour)
			return
		case *ofxgo.CurrSymbol:
			*x = ofxgo.CurrSymbol{}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" && f.Name != "XMLName" {
				clobber(v.Field(i))
			}
		}
	case reflect.String:
		v.SetString("clobbered")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int64:
		v.SetInt(v.Int() ^ 5)
	case reflect.Uint, reflect.Uint64:
		v.SetUint(v.Uint() ^ 1)
	}
}

// separateValues: results are the caller's own, whatever becomes of others.
func separateValues(t *testing.T) {
	prop(t, "own-values", 1000, 20000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		g.density = max(30, min(g.density, 60))
		r := drawMessages(g)
		doc := []byte(drawSurface(t, g.ver).Document(prune(responseNode(r))))
		kept := append([]byte{}, doc...)
		parse := func(from []byte) *ofxgo.Response {
			x, err := ofxgo.ParseResponse(bytes.NewReader(from))
			if err != nil {
				t.Fatalf("parsing: %v\n%s", err, kept)
			}
			return x
		}
		marshal := func(x interface {
			Marshal() (*bytes.Buffer, error)
		}) *bytes.Buffer {
			b, err := x.Marshal()
			if err != nil {
				t.Fatalf("marshalling: %v", err)
			}
			return b
		}
		first, second := parse(doc), parse(doc)
		for i := range doc {
			doc[i] = 'x'
		}
		before := dump(second)
		clobber(reflect.ValueOf(first))
		if after := dump(second); after != before {
			t.Fatalf("changing one response changed another one parsed from the same bytes\n%s\n%s\n%s", before, after, kept)
		}
		third := parse(kept)
		if again := dump(third); again != before {
			t.Fatalf("the same bytes are parsed differently after changing an earlier response\n%s\n%s\n%s", before, again, kept)
		}
		// documents are the caller's own, too
		b := marshal(second)
		text := b.String()
		request := drawRequest(t)
		rb := marshal(request)
		rtext := rb.String()
		if b.String() != text {
			t.Fatalf("marshalling a request changed the document of a response")
		}
		for _, buf := range []*bytes.Buffer{b, rb} {
			p := buf.Bytes()
			p = p[:cap(p)]
			for i := range p {
				p[i] = 'x'
			}
		}
		if got := marshal(third).String(); got != text {
			t.Fatalf("changing one document changed the next\n%s\n%s", text, got)
		}
		if got := marshal(request).String(); got != rtext {
			t.Fatalf("changing one document changed the next\n%s\n%s", rtext, got)
		}
		c.NonTrivial(text)
		c.Label("version %s", versionStrings[g.ver])
	})
}
