package harness

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

// hugeBytes are n bytes without a period a faulty copy could hide in.
func hugeBytes(t *rapid.T, n int) []byte {
	unit := rapid.SliceOfN(rapid.Byte(), 1, 64).Draw(t, "unit")
	b := bytes.Repeat(unit, n/len(unit)+1)[:n]
	for i := 0; i < n; i += 97 {
		b[i] = byte(i / 97)
	}
	for i := 1; i < n; i += 9973 {
		b[i] = byte(i / 9973)
	}
	return b
}

func drawHugeSize(t *rapid.T) int {
	return rapid.SampledFrom([]int{6 << 20, 11 << 20, 17 << 20, 35 << 20}).Draw(t, "megabytes") + rapid.IntRange(0, 5000).Draw(t, "more")
}

// hugeExchanges: documents and answers far larger than usual go through.
func hugeExchanges(t *testing.T, kind string, s *httpsServer) {
	prop(t, "huge", 16, 64, func(t *rapid.T, c *Case) {
		op := rapid.SampledFrom(clientOps).Draw(t, "op")
		doc, want := answerDocument(t, true)
		var answer []byte
		if op == "request" {
			n := min(drawHugeSize(t), 20<<20) // parsing takes longer
			i := strings.LastIndex(doc, "</OFX>")
			answer = []byte(doc[:i] + strings.Repeat("        \n", n/9) + doc[i:])
		} else {
			answer = hugeBytes(t, drawHugeSize(t))
		}
		framing := rapid.SampledFrom([]string{"length", "chunked", "close"}).Draw(t, "framing")
		s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
			switch framing {
			case "length":
				w.Header().Set("Content-Length", strconv.Itoa(len(answer)))
			case "close":
				w.Header().Set("Connection", "close")
			}
			w.Write(answer)
		})
		bc := drawConfig(t)
		bc.HTTPClient = nil
		payload := hugeBytes(t, 100)
		if op == "raw" {
			payload = hugeBytes(t, drawHugeSize(t))
		}
		r := drawRequest(t)
		parsed, raw, err := operate(op, makeClient(kind, bc), r, s.URL+"/ofx", drawReader(t, payload))
		if op != "raw" {
			b, merr := r.Marshal()
			if merr != nil {
				t.Fatalf("marshalling the request again: %v", merr)
			}
			payload = b.Bytes()
		}
		if err != nil {
			t.Fatalf("%s of %d bytes, answered with %d bytes (%s): %v", op, len(payload), len(answer), framing, err)
		}
		if op == "request" {
			if d := diffResponses(want, parsed); d != "" {
				t.Fatalf("answer of %d bytes parsed differently: %s", len(answer), d)
			}
		} else {
			b, rerr := io.ReadAll(raw.Body)
			raw.Body.Close()
			if rerr != nil || !bytes.Equal(b, answer) {
				t.Fatalf("%s: answer of %d bytes (%s) read as %d bytes (%v)", op, len(answer), framing, len(b), rerr)
			}
		}
		got := s.received()
		if len(got) != 1 || got[0].body != string(payload) {
			t.Fatalf("%s of %d bytes: %d requests, the first with %d bytes", op, len(payload), len(got), len(got[0].body))
		}
		c.NonTrivial(fmt.Sprint(op, framing, len(payload), len(answer)))
		c.Sample("%s of %d bytes, answered with %d bytes (%s)", op, len(payload), len(answer), framing)
		c.Label("%s", op)
	})
	s.begin(nil)
}

// hugeDownloads: so do downloads.
func hugeDownloads(t *testing.T, s *httpsServer) {
	prop(t, "huge", 16, 64, func(t *rapid.T, c *Case) {
		answer := hugeBytes(t, drawHugeSize(t))
		known := rapid.Bool().Draw(t, "length")
		s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
			if known {
				w.Header().Set("Content-Length", strconv.Itoa(len(answer)))
			}
			w.Write(answer)
		})
		cmd := rapid.SampledFrom(downloadCommands).Draw(t, "command")
		dir := workDir()
		defer os.RemoveAll(dir)
		i := drawInvocation(t, cmd, s.URL+"/ofx")
		i.flags = append(i.flags, "-filename", "huge.ofx")
		res := runOfx(t, i.args(), nil, inDir(dir))
		if res.code != 0 {
			t.Fatalf("ofx %q: exit status %d\n%s%s", i.args(), res.code, res.out, res.errOut)
		}
		b, err := os.ReadFile(filepath.Join(dir, "huge.ofx"))
		if err != nil || !bytes.Equal(b, answer) {
			t.Fatalf("ofx %q stored %d bytes, the server sent %d (%v)", i.args(), len(b), len(answer), err)
		}
		c.NonTrivial(fmt.Sprint(cmd, known, len(answer)))
		c.Label("%s", cmd)
	})
	s.begin(nil)
}

// longLists: lists of any kind keep each of very many entries.
func longLists(t *testing.T, quick, thorough int) {
	prop(t, "long-lists", quick, thorough, func(t *rapid.T, c *Case) {
		kind := rapid.SampledFrom([]string{"InvTranList", "InvTranList", "InvPosList", "InvOOList", "Securities", "BankTransactions"}).Draw(t, "list")
		ver := v203
		if rapid.IntRange(0, 3).Draw(t, "sgml") == 3 {
			ver = 0
		}
		g := newGen(t, ver, true)
		g.big, g.density, g.maxList = false, 20, 1
		r := &ofxgo.Response{}
		setRespVersion(r, ver)
		g.fillSignon(r)
		// one entry of each kind, repeated in a drawn order
		var types []reflect.Type
		var entries []reflect.Value
		var list reflect.Value
		switch kind {
		case "Securities":
			m := g.message(reflect.TypeOf(ofxgo.SecurityList{})).(*ofxgo.SecurityList)
			putMessage(r, m)
			list, types = reflect.ValueOf(&m.Securities).Elem(), securityTypes
		default:
			m := g.message(reflect.TypeOf(ofxgo.InvStatementResponse{})).(*ofxgo.InvStatementResponse)
			putMessage(r, m)
			if m.InvTranList == nil {
				m.InvTranList = &ofxgo.InvTranList{DtStart: g.date(), DtEnd: g.date()}
			}
			switch kind {
			case "InvTranList":
				list, types = reflect.ValueOf(&m.InvTranList.InvTransactions).Elem(), invTranTypes
			case "BankTransactions":
				list, types = reflect.ValueOf(&m.InvTranList.BankTransactions).Elem(), []reflect.Type{reflect.TypeOf(ofxgo.InvBankTransaction{})}
			case "InvPosList":
				list, types = reflect.ValueOf(&m.InvPosList).Elem(), positionTypes
			case "InvOOList":
				list, types = reflect.ValueOf(&m.InvOOList).Elem(), ooTypes
			}
		}
		for _, kind := range types {
			entries = append(entries, g.of(kind).Elem())
		}
		one := func(pattern []int) string {
			list.Set(reflect.Zero(list.Type()))
			for _, k := range pattern {
				list.Set(reflect.Append(list, entries[k]))
			}
			return canonicalSurface(t, ver).Document(responseNode(r))
		}
		base := rapid.Permutation(upTo(len(entries))).Draw(t, "pattern")
		size := max(len(one(base))-len(one(nil)), 1) / len(base)
		n := rapid.SampledFrom([]int{300, 1100, 4200, 10100}).Draw(t, "entries")
		limit := 4_000_000
		if ver == 0 {
			limit = 1_000_000
		}
		n = min(n, limit/size) + rapid.IntRange(0, 20).Draw(t, "more")
		var pattern []int
		for i := 0; i < n; i++ {
			pattern = append(pattern, base[(i+i/1000)%len(base)])
		}
		doc := one(pattern)
		want := responseNode(r)
		keepsAll(t, fmt.Sprintf("a list of %d entries (%s)", n, kind), doc, want)
		c.NonTrivial(fmt.Sprint(kind, n, base))
		c.Label("%s, more than 1000: %v", kind, n > 1000)
	})
}

// longListsOfOthers: so do the other lists.
func longListsOfOthers(t *testing.T, quick, thorough int) {
	prop(t, "long-lists-of-others", quick, thorough, func(t *rapid.T, c *Case) {
		tree, ver, path := repeatedTree(t, rapid.SampledFrom([]int{0, 20, 50}).Draw(t, "density"), true)
		sf := canonicalSurface(t, ver)
		size := len(sf.Document(tree(2))) - len(sf.Document(tree(1)))
		limit := 4_000_000
		if isSGML(ver) {
			limit = 1_000_000
		}
		n := min(rapid.SampledFrom([]int{300, 1100, 4200, 10100}).Draw(t, "entries"), limit/size) + rapid.IntRange(0, 20).Draw(t, "more")
		want := tree(n)
		doc := sf.Document(want)
		if !known(path) {
			c.Label("not a list")
			return
		}
		keepsAll(t, fmt.Sprintf("%s %d times", path, n), doc, want)
		c.NonTrivial(fmt.Sprint(path, n))
		c.Label("%s, more than 1000: %v", path, n > 1000)
	})
}

// known tells whether there may be many of the element at a path.
func known(path string) bool {
	p := strings.Split(path, "/")
	name, parent := p[len(p)-1], p[len(p)-2]
	return listElements()[name] || polyParents[parent] || parent == "MSGSETCORE" || strings.HasSuffix(parent, "RSV1") && parent != "SIGNONMSGSRSV1"
}

func upTo(n int) (out []int) {
	for i := range n {
		out = append(out, i)
	}
	return
}

// keepsAll parses a document, marshals the result, and parses that.
func keepsAll(t *rapid.T, what, doc string, want *Node) {
	got, err := ofxgo.ParseResponse(strings.NewReader(doc))
	if err != nil || got == nil {
		t.Fatalf("%s: parsing gives %v", what, err)
	}
	if d := diffTrees(want, responseNode(got)); d != "" {
		t.Fatalf("%s: parsed differently: %s", what, d)
	}
	b, err := got.Marshal()
	if err != nil {
		t.Fatalf("%s: marshalling gives %v", what, err)
	}
	again, err := ofxgo.ParseResponse(b)
	if err != nil || again == nil {
		t.Fatalf("%s: parsing what was marshalled gives %v", what, err)
	}
	if d := diffTrees(want, responseNode(again)); d != "" {
		t.Fatalf("%s: differs after marshalling: %s", what, d)
	}
}
