package harness

import (
	"embed"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

//go:embed samples
var sampleFS embed.FS

type sample struct{ name, text string }

func samples() []sample {
	var out []sample
	ents, err := sampleFS.ReadDir("samples")
	if err != nil {
		panic(err)
	}
	for _, e := range ents {
		b, err := sampleFS.ReadFile("samples/" + e.Name())
		if err != nil {
			panic(err)
		}
		out = append(out, sample{e.Name(), string(b)})
	}
	return out
}

// chunkReader delivers data in drawn chunk sizes, then err (io.EOF by default),
// either on its own or along with the last bytes.
type chunkReader struct {
	data    string
	sizes   []int
	i       int
	err     error
	errWith bool
	reads   int
	after   int // reads after the error was delivered
}

func (r *chunkReader) Read(p []byte) (int, error) {
	r.reads++
	end := r.err
	if end == nil {
		end = io.EOF
	}
	if len(r.data) == 0 {
		r.after++
		return 0, end
	}
	n := len(p)
	if len(r.sizes) > 0 {
		n = r.sizes[r.i%len(r.sizes)]
		r.i++
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.errWith {
		return n, end
	}
	return n, nil
}

func drawChunks(t *rapid.T, data string) *chunkReader {
	r := &chunkReader{data: data}
	switch rapid.IntRange(0, 4).Draw(t, "chunking") {
	case 1:
		r.sizes = []int{1}
	case 2:
		r.sizes = rapid.SliceOfN(rapid.IntRange(1, 40), 1, 5).Draw(t, "sizes")
	case 3:
		r.sizes = rapid.SliceOfN(rapid.IntRange(0, 1500), 1, 4).Draw(t, "sizes")
		r.sizes = append(r.sizes, 7)
	}
	r.errWith = rapid.Bool().Draw(t, "eofWithData")
	return r
}

// C05: the parsed response does not depend on the spelling of the document.
func TestC05(t *testing.T) {
	rule("The same reference document is rendered in its plainest spelling and in a drawn one (line endings, whitespace, optional end tags, header layout, entities, equivalent numbers and dates) and delivered in drawn read sizes; both must parse to equal responses. Non-trivial when the texts differ and the document holds a message.")
	prop(t, "spellings", 5000, 120000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), rapid.Bool().Draw(t, "valid"))
		r := g.response()
		tree := responseNode(r)
		plain := canonicalSurface(t, g.ver).Document(tree)
		s := drawSurface(t, g.ver)
		other := s.Document(tree)
		a, err := ofxgo.DecodeResponse(strings.NewReader(plain))
		if err != nil {
			t.Fatalf("plain spelling rejected: %v\n%s", err, plain)
		}
		b, err := ofxgo.DecodeResponse(drawChunks(t, other))
		if err != nil {
			t.Fatalf("other spelling rejected: %v\n%s", err, other)
		}
		if d := diffResponses(a, b); d != "" {
			t.Fatalf("spellings parse differently: %s\n--- plain\n%s\n--- other\n%s", d, plain, other)
		}
		if d := diffTrees(tree, responseNode(b)); d != "" {
			t.Fatalf("content changed: %s\n%s", d, other)
		}
		c.Label("header form %d sgml=%v", s.headerForm, s.sgml)
		c.Label("whitespace %q", s.ws)
		c.Label("end tags %d sgml=%v", s.closeLeaf, s.sgml)
		if plain != other && respMessages(r) > 0 {
			c.NonTrivial(other)
			c.Sample("%s", other)
		}
	})
	docs := samples()
	prop(t, "samples", 1200, 30000, func(t *rapid.T, c *Case) {
		d := rapid.SampledFrom(docs).Draw(t, "sample")
		body := strings.Index(d.text, "<OFX>")
		if body < 0 {
			t.Skip("no body")
		}
		a, err := ofxgo.DecodeResponse(strings.NewReader(d.text))
		if err != nil {
			t.Fatalf("sample %s rejected: %v", d.name, err)
		}
		// Respace: whitespace between a tag and the next tag is insignificant.
		ws := rapid.SliceOfN(rapid.SampledFrom([]string{"", " ", "\n", "\r\n", "\t", "\n\n    "}), 1, 8).Draw(t, "ws")
		var b strings.Builder
		b.WriteString(d.text[:body])
		rest, k := d.text[body:], 0
		for {
			i := strings.IndexByte(rest, '>')
			if i < 0 {
				break
			}
			b.WriteString(rest[:i+1])
			rest = rest[i+1:]
			j := strings.IndexByte(rest, '<')
			if j < 0 {
				break
			}
			if strings.TrimSpace(rest[:j]) == "" && !emptyElement(b.String(), rest[j:]) {
				b.WriteString(ws[k%len(ws)])
				k++
				rest = rest[j:]
			}
		}
		got, err := ofxgo.DecodeResponse(drawChunks(t, b.String()))
		if err != nil {
			t.Fatalf("respaced sample %s rejected: %v", d.name, err)
		}
		if df := diffResponses(a, got); df != "" {
			t.Fatalf("respaced sample %s parses differently: %s", d.name, df)
		}
		c.Label("%s", d.name)
		c.NonTrivial(d.name + fmt.Sprintf("%q", ws))
	})
}

// emptyElement reports whether before ends in <X> and after starts with </X>.
func emptyElement(before, after string) bool {
	i := strings.LastIndexByte(before, '<')
	return i >= 0 && strings.HasPrefix(after, "</"+before[i+1:])
}

var errInjected = errors.New("injected read error")

// abort reports a violation that cannot be shrunk in-process (a hang) and
// ends this process.
func abort(part, msg, input string) {
	os.WriteFile("hang-"+part+".input.fail.txt", []byte(input), 0o644)
	fmt.Printf("%s: %s\ninput: %.20000s\n", part, msg, input)
	violated(part + ": " + msg)
	finish(1)
}
