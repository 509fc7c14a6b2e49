package harness

import (
	"fmt"
	"io"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

// listElements are the elements which may be repeated.
var listElements = func() map[string]bool {
	m := map[string]bool{}
	for _, ts := range schema {
		for _, fs := range ts.Fields {
			if fs.Slice {
				m[fs.Path[len(fs.Path)-1]] = true
			}
		}
	}
	return m
}

var polyParents = map[string]bool{"INVTRANLIST": true, "INVPOSLIST": true, "INVOOLIST": true, "SECLIST": true, "MSGSETLIST": true}

// repeated draws a document of every kind and an element of it, and returns a
// function which gives the document with that element n times, its name, the
// path to it and the length of the element.
func repeated(t *rapid.T) (mk func(n int) string, path string, size int) {
	tree, ver, path := repeatedTree(t, 100, false)
	sf := canonicalSurface(t, ver)
	mk = func(n int) string { return sf.Document(tree(n)) }
	return mk, path, len(mk(2)) - len(mk(1))
}

func repeatedTree(t *rapid.T, density int, onlyLists bool) (tree func(n int) *Node, ver int, path string) {
	ver = anyVersion(t)
	if rapid.IntRange(0, 3).Draw(t, "xml") > 0 {
		ver = v203 // much faster to parse
	}
	g := newGen(t, ver, true)
	g.big, g.density = false, density
	r := &ofxgo.Response{}
	setRespVersion(r, ver)
	g.fill(reflect.ValueOf(&r.Signon).Elem())
	var types []reflect.Type
	sets := map[reflect.Type]string{}
	for set, ts := range respTypesBySet {
		for _, rt := range ts {
			types = append(types, rt)
			sets[rt] = set
		}
	}
	sort.Slice(types, func(i, j int) bool { return types[i].Name() < types[j].Name() })
	rt := rapid.SampledFrom(types).Draw(t, "message")
	f := reflect.ValueOf(r).Elem().FieldByName(sets[rt])
	f.Set(reflect.Append(f, reflect.ValueOf(g.message(rt))))
	root := prune(responseNode(r))
	type place struct {
		parent *Node
		i      int
		path   string
	}
	var lists, all []place
	known := listElements()
	var walk func(n *Node, path string)
	walk = func(n *Node, path string) {
		path += "/" + n.Name
		for i, k := range n.Kids {
			p := place{n, i, path + "/" + k.Name}
			if known[k.Name] && !k.Leaf || polyParents[n.Name] && !k.Leaf || k.Name == "LANGUAGE" && n.Name == "MSGSETCORE" || strings.HasSuffix(n.Name, "RSV1") && n.Name != "SIGNONMSGSRSV1" {
				lists = append(lists, p)
			}
			all = append(all, p)
			walk(k, path)
		}
	}
	walk(root, "")
	from := all
	if len(lists) > 0 && (onlyLists || rapid.IntRange(0, 3).Draw(t, "any element") > 0) {
		from = lists
	}
	p := rapid.SampledFrom(from).Draw(t, "element")
	kids := p.parent.Kids
	// the tree is valid until the next call
	tree = func(n int) *Node {
		k := append([]*Node{}, kids[:p.i]...)
		for j := 0; j < n; j++ {
			k = append(k, kids[p.i])
		}
		p.parent.Kids = append(k, kids[p.i+1:]...)
		return root
	}
	return tree, ver, p.path
}

// growsWith judges whether what f does takes time and memory in proportion to
// the number of copies of an element of a document.
func growsWith(t *rapid.T, c *Case, what string, f func(doc string) (run func(), ok bool)) {
	mk, path, size := repeated(t)
	n := min(max(400_000/size/12, 20), 250)
	const factor = 12
	small, big := mk(n), mk(n*factor)
	ratio := float64(len(big)) / float64(len(small))
	measure := func(doc string) (time.Duration, uint64, bool) {
		run, ok := f(doc)
		best, mem := time.Hour, uint64(1<<62)
		for i := 0; i < 2 && ok; i++ {
			var a, b runtime.MemStats
			runtime.GC()
			runtime.ReadMemStats(&a)
			s := time.Now()
			run()
			el := time.Since(s)
			runtime.ReadMemStats(&b)
			best, mem = min(best, el), min(mem, b.TotalAlloc-a.TotalAlloc)
			if el > 2*time.Second {
				break
			}
		}
		return best, mem, ok
	}
	var msg string
	for try := 0; ; try++ {
		t1, m1, ok1 := measure(small)
		t2, m2, ok2 := measure(big)
		if !ok1 || !ok2 {
			c.Label("not applicable")
			return
		}
		msg = fmt.Sprintf("%s, %s: %d copies in %v allocating %d, %d copies in %v allocating %d", what, path, n, t1, m1, n*factor, t2, m2)
		if float64(t2) <= 5*ratio*float64(max(t1, time.Millisecond)) && float64(m2) <= 3*ratio*float64(m1)+1<<20 {
			break
		}
		if try == 4 {
			t.Fatalf("time or memory grows faster than the document: %s", msg)
		}
	}
	c.NonTrivial(path)
	c.Sample("%s", msg)
	c.Label("%s", path[strings.LastIndexByte(path, '/')+1:])
}

// growthOfLists: parsing takes time in proportion to the number of elements of
// each kind.
func growthOfLists(t *rapid.T, c *Case) {
	growsWith(t, c, "parsing", func(doc string) (func(), bool) {
		return func() {
			p := guarded("lists", doc, func() (*ofxgo.Response, error) { return ofxgo.ParseResponse(strings.NewReader(doc)) })
			if p.panic != nil {
				t.Fatalf("panic %v", p.panic)
			}
		}, true
	})
}

// growthOfMarshalling: so do validating and marshalling.
func growthOfMarshalling(t *rapid.T, c *Case) {
	growsWith(t, c, "validating and marshalling", func(doc string) (func(), bool) {
		r, _ := ofxgo.ParseResponse(strings.NewReader(doc))
		if r == nil {
			return nil, false
		}
		return func() {
			r.Valid()
			if b, err := r.Marshal(); err == nil {
				io.Copy(io.Discard, b)
			}
		}, true
	})
}
