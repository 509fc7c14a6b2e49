package harness

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

// job is one use of the library. run may be called several times; each call
// works on values of its own and returns a function which, called once
// everything else has ended, says what came of it.
type job struct {
	kind string
	run  func() func() string
	// judge looks at the result without reference to any other run.
	judge func(result string) string
}

// remake copies a request or response so that runs share nothing.
func remake(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(remake(v.Elem()))
		return p
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		i := reflect.New(v.Type()).Elem()
		i.Set(remake(v.Elem()))
		return i
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			s.Index(i).Set(remake(v.Index(i)))
		}
		return s
	case reflect.Struct:
		switch x := v.Interface().(type) {
		case ofxgo.Amount:
			var a ofxgo.Amount
			a.Rat.Set(&x.Rat)
			return reflect.ValueOf(a)
		}
		s := reflect.New(v.Type()).Elem()
		s.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				s.Field(i).Set(remake(v.Field(i)))
			}
		}
		return s
	}
	return v
}

var taskRE = regexp.MustCompile(`task[0-9]+x`)

// C23: independent uses do not affect each other.
func TestC23(t *testing.T) {
	rule("8 to 24 drawn jobs (marshalling responses and requests, parsing conforming and damaged documents, validating, making ids, and requests of three shared clients whose server answers according to each request, with cookies of its own for the Vanguard client) start together at a barrier under the race detector; each result must be the one the job gives alone (computed before or after, as drawn). In the part own-values, one of two responses parsed from the same bytes is changed in place as far as reflection reaches, as are the buffers of marshalled documents; nothing else may change. Non-trivial when at least two kinds of jobs ran, and always in the other parts.")
	assuming("Schedules are those the Go scheduler and the race detector produce on 8 cores with drawn GOMAXPROCS and yields; the race detector reports races between the accesses which happened, in any order.")
	netSetup()
	s := newHTTPSServer()
	defer s.Close()
	serial := 0
	prop(t, "jobs", 1000, 40000, func(t *rapid.T, c *Case) {
		var mu sync.Mutex
		type exchange struct {
			cookie  bool
			answer  string
			bodies  []string
			cookies []string
		}
		exchanges := map[string]*exchange{}
		s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
			mu.Lock()
			x := exchanges[taskRE.FindString(string(body))]
			if x == nil {
				mu.Unlock()
				w.WriteHeader(500)
				return
			}
			x.bodies = append(x.bodies, string(body))
			x.cookies = append(x.cookies, r.Header.Get("Cookie"))
			first := len(x.bodies) == 1
			mu.Unlock()
			if x.cookie && first {
				w.Header().Set("Set-Cookie", "session="+taskRE.FindString(string(body)))
				w.Header().Set("Content-Length", "0")
				return
			}
			io.WriteString(w, x.answer)
		})
		mine := rapid.Bool().Draw(t, "own")
		shared := map[string]ofxgo.Client{}
		for _, k := range clientKinds {
			bc := drawConfig(t)
			if k == "basic" && mine {
				bc.HTTPClient = s.Client()
			}
			shared[k] = makeClient(k, bc)
		}
		n := rapid.IntRange(8, 24).Draw(t, "jobs")
		netLeft := 5
		kinds := []string{"marshal-response", "marshal-response", "marshal-request", "marshal-request", "parse", "parse", "parse-damaged", "validate", "ids", "leaves", "client", "client", "client"}
		if rapid.IntRange(0, 2).Draw(t, "narrow") == 0 {
			kinds = []string{rapid.SampledFrom(kinds).Draw(t, "only"), rapid.SampledFrom(kinds).Draw(t, "only2")}
		}
		var jobs []job
		for i := 0; i < n; i++ {
			kind := rapid.SampledFrom(kinds).Draw(t, "kind")
			if kind == "client" && netLeft == 0 {
				kind = "marshal-request"
			}
			g := newGen(t, anyVersion(t), true)
			g.density = min(g.density, 50)
			g.maxList, g.big = 2, false
			j := job{kind: kind}
			switch kind {
			case "marshal-response":
				r := &ofxgo.Response{}
				setRespVersion(r, g.ver)
				g.fillSignon(r)
				putMessage(r, oneOfEach(g))
				want, ver := responseNode(r), g.ver
				j.run = func() func() string {
					x := remake(reflect.ValueOf(r)).Interface().(*ofxgo.Response)
					b, err := x.Marshal()
					return func() string { return outcome(b, err) }
				}
				j.judge = func(got string) string {
					rc := &judge{}
					rc.run(func() { checkDocument(rc, got, want, ver, false) })
					return rc.said
				}
			case "marshal-request":
				r := drawRequest(t)
				j.run = func() func() string {
					x := remake(reflect.ValueOf(r)).Interface().(*ofxgo.Request)
					b, err := x.Marshal()
					return func() string { return outcome(b, err) }
				}
			case "parse":
				r := drawMessages(g)
				doc := drawSurface(t, g.ver).Document(prune(responseNode(r)))
				j.run = func() func() string {
					x, err := ofxgo.ParseResponse(strings.NewReader(doc))
					return func() string {
						if err != nil {
							return err.Error()
						}
						return diffResponses(r, x)
					}
				}
				j.judge = func(got string) string { return got }
			case "parse-damaged":
				doc, _ := answerDocument(t, rapid.Bool().Draw(t, "valid"))
				doc = mutate(t, doc)
				if len(doc) > 20000 {
					doc = doc[:20000]
				}
				j.run = func() func() string {
					x, err := ofxgo.DecodeResponse(strings.NewReader(doc))
					return func() string { return fmt.Sprint(dump(x), err) }
				}
			case "validate":
				g.valid = rapid.Bool().Draw(t, "valid")
				r := drawMessages(g)
				j.run = func() func() string {
					ok, err := r.Valid()
					return func() string { return fmt.Sprint(ok, err) }
				}
			case "ids":
				j.run = func() func() string {
					var all []string
					for i := 0; i < 30; i++ {
						u, err := ofxgo.RandomUID()
						if err != nil {
							return func() string { return err.Error() }
						}
						all = append(all, string(*u))
					}
					return func() string {
						for _, u := range all {
							if !randomForm.MatchString(u) {
								return "malformed id " + u
							}
						}
						return ""
					}
				}
				j.judge = func(got string) string { return got }
			case "leaves":
				names := []string{}
				for i := 0; i < 8; i++ {
					names = append(names, rapid.SampledFrom([]string{"USD", "EUR", "XXX", "JPY", "ZZZ", "usd", "CHECKING", "POS", "102", "203", "DIV", "LONG"}).Draw(t, "name"))
				}
				j.run = func() func() string {
					var out []string
					for _, n := range names {
						c, err := ofxgo.NewCurrSymbol(n)
						out = append(out, fmt.Sprint(c, err))
						a, err := ofxgo.NewAcctType(n)
						out = append(out, fmt.Sprint(a, err))
						v, err := ofxgo.NewOfxVersion(n)
						out = append(out, fmt.Sprint(v, err))
						x, err := ofxgo.NewTrnType(n)
						out = append(out, fmt.Sprint(x, err))
						cl := ofxgo.GetClient("https://"+n, &ofxgo.BasicClient{AppID: n})
						out = append(out, fmt.Sprintf("%T %v", cl, cl.ID()))
					}
					return func() string { return strings.Join(out, ",") }
				}
			case "client":
				netLeft--
				ck := rapid.SampledFrom(clientKinds).Draw(t, "client")
				op := rapid.SampledFrom([]string{"request", "noparse"}).Draw(t, "op")
				j.kind += " " + ck
				r := drawRequest(t)
				resp := drawMessages(g)
				doc := canonicalSurface(t, g.ver).Document(prune(responseNode(resp)))
				cookie := ck == "vanguard" && rapid.Bool().Draw(t, "cookies")
				cl := shared[ck]
				j.run = func() func() string {
					mu.Lock()
					serial++
					task := fmt.Sprintf("task%dx", serial)
					exchanges[task] = &exchange{answer: doc, cookie: cookie}
					mu.Unlock()
					r := remake(reflect.ValueOf(r)).Interface().(*ofxgo.Request)
					r.Signon.UserID = ofxgo.String(task)
					parsed, raw, err := operate(op, cl, r, s.URL+"/ofx", nil)
					var body []byte
					var readErr error
					if raw != nil {
						body, readErr = io.ReadAll(raw.Body)
						raw.Body.Close()
					}
					return func() string {
						if err != nil || readErr != nil {
							return fmt.Sprint(op, ": ", err, readErr)
						}
						if op == "request" {
							if d := diffResponses(resp, parsed); d != "" {
								return "another answer: " + d
							}
						} else if string(body) != doc {
							return fmt.Sprintf("another answer: %q instead of %q", body, doc)
						}
						b, err := r.Marshal()
						if err != nil {
							return err.Error()
						}
						mu.Lock()
						x := exchanges[task]
						mu.Unlock()
						want := []string{b.String()}
						cookies := []string{""}
						if cookie {
							want = append(want, b.String())
							cookies = append(cookies, "session="+task)
						}
						if !reflect.DeepEqual(x.bodies, want) {
							return fmt.Sprintf("sent %q instead of %q", x.bodies, want)
						}
						if !reflect.DeepEqual(x.cookies, cookies) {
							return fmt.Sprintf("cookies %q instead of %q", x.cookies, cookies)
						}
						return ""
					}
				}
				j.judge = func(got string) string { return got }
			}
			jobs = append(jobs, j)
		}
		alone := func() []string {
			out := make([]string, len(jobs))
			for i, j := range jobs {
				out[i] = j.run()()
			}
			return out
		}
		before := rapid.Bool().Draw(t, "alone-first")
		var want []string
		if before {
			want = alone()
		}
		procs := rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs")
		yields := make([]int, len(jobs))
		for i := range yields {
			yields[i] = rapid.IntRange(0, 5).Draw(t, "yields")
		}
		old := runtime.GOMAXPROCS(procs)
		start := make(chan struct{})
		ends := make([]func() string, len(jobs))
		var wg sync.WaitGroup
		for i := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < yields[i]; k++ {
					runtime.Gosched()
				}
				ends[i] = jobs[i].run()
			}()
		}
		close(start)
		wg.Wait()
		runtime.GOMAXPROCS(old)
		got := make([]string, len(jobs))
		for i := range jobs {
			got[i] = ends[i]()
		}
		if !before {
			want = alone()
		}
		var names []string
		ran := map[string]bool{}
		for i, j := range jobs {
			names = append(names, j.kind)
			ran[j.kind] = true
			if j.judge != nil {
				if p := j.judge(got[i]); p != "" {
					t.Fatalf("%s, along with %d others: %s", j.kind, len(jobs)-1, p)
				}
			}
			if got[i] != want[i] {
				t.Fatalf("%s, along with %d others, gave\n%s\nbut alone\n%s", j.kind, len(jobs)-1, got[i], want[i])
			}
		}
		for k := range ran {
			c.Label("%s", k)
		}
		c.Label("%d processors", procs)
		if len(ran) > 1 {
			c.NonTrivial(strings.Join(got, "\n"))
			c.Sample("%v", names)
		}
	})
	idRounds := 40
	if tier() == "thorough" {
		idRounds = 400
	}
	prop(t, "ids", idRounds, idRounds, func(t *rapid.T, c *Case) {
		// ids made at the same time are all different
		procs := rapid.IntRange(2, 16).Draw(t, "procs")
		out := make([][]string, procs)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range out {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < 100; k++ {
					u, err := ofxgo.RandomUID()
					if err != nil {
						out[i] = append(out[i], err.Error())
						return
					}
					out[i] = append(out[i], string(*u))
				}
			}()
		}
		close(start)
		wg.Wait()
		all := map[string]bool{}
		for _, l := range out {
			for _, u := range l {
				if !randomForm.MatchString(u) || all[u] {
					t.Fatalf("id %q is malformed or made twice by %d at once", u, procs)
				}
				all[u] = true
			}
		}
		c.NonTrivial(out[0][0])
		c.Label("%d at once", procs)
	})
	separateValues(t)
	firstUses(t, s)
	prop(t, "same-bytes", 300, 6000, func(t *rapid.T, c *Case) {
		// one document parsed by several at once, from its own reader each
		g := newGen(t, anyVersion(t), true)
		g.density = min(g.density, 50)
		r := drawMessages(g)
		doc := []byte(drawSurface(t, g.ver).Document(prune(responseNode(r))))
		k := rapid.IntRange(2, 8).Draw(t, "parsers")
		out := make([]*ofxgo.Response, k)
		bufs := make([]*bytes.Buffer, k)
		errs := make([]error, k)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range out {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if out[i], errs[i] = ofxgo.ParseResponse(bytes.NewReader(doc)); errs[i] == nil {
					bufs[i], errs[i] = out[i].Marshal()
				}
			}()
		}
		close(start)
		wg.Wait()
		for i := range out {
			if errs[i] != nil {
				t.Fatalf("parsing among %d: %v\n%s", k, errs[i], doc)
			}
			if d := diffResponses(r, out[i]); d != "" {
				t.Fatalf("parsing among %d: %s\n%s", k, d, doc)
			}
			if bufs[i].String() != bufs[0].String() {
				t.Fatalf("marshalling among %d gave\n%s\nand\n%s", k, bufs[i], bufs[0])
			}
		}
		c.NonTrivial(string(doc))
		c.Label("%d at once", k)
	})
}

// judge lets a fatal check say what is wrong instead of ending the test.
type judge struct{ said string }

func (j *judge) Fatalf(format string, a ...any) { panic(judged(fmt.Sprintf(format, a...))) }

type judged string

func (j *judge) run(f func()) {
	defer func() {
		if p := recover(); p != nil {
			s, ok := p.(judged)
			if !ok {
				panic(p)
			}
			j.said = string(s)
		}
	}()
	f()
}

func outcome(b *bytes.Buffer, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return b.String()
}
