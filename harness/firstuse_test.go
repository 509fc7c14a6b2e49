package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

// What the library prepares when it is first used must be prepared safely, too:
// a process of its own begins with several goroutines doing drawn things at once.

type firstTask struct {
	Kind, Arg string
	Yields    int
}

var firstKinds = []string{"parse", "parse", "remarshal", "marshal-request", "enums", "status", "currency", "id", "leaves", "client basic", "client discover", "client vanguard", "client vanguard", "pick-client"}

// do performs one task and describes its result.
func (f firstTask) do() string {
	for i := 0; i < f.Yields; i++ {
		runtime.Gosched()
	}
	switch f.Kind {
	case "parse":
		x, err := ofxgo.ParseResponse(strings.NewReader(f.Arg))
		return fmt.Sprint(dump(x), err)
	case "remarshal":
		x, err := ofxgo.DecodeResponse(strings.NewReader(f.Arg))
		if err != nil {
			return err.Error()
		}
		return outcome(x.Marshal())
	case "marshal-request":
		q := firstRequest(f.Arg)
		return outcome(q.Marshal())
	case "enums":
		var out []string
		for _, n := range strings.Fields(f.Arg) {
			a, err := ofxgo.NewAcctType(n)
			out = append(out, fmt.Sprint(a, err, a.Valid()))
			v, err := ofxgo.NewOfxVersion(n)
			out = append(out, fmt.Sprint(v, err, v.Valid()))
			x, err := ofxgo.NewTrnType(n)
			out = append(out, fmt.Sprint(x, err, x.Valid()))
			i, err := ofxgo.NewIncomeType(n)
			out = append(out, fmt.Sprint(i, err, i.Valid()))
		}
		return strings.Join(out, ",")
	case "status":
		var out []string
		for _, code := range []int64{0, 1, 2000, 2003, 15500, 15501, 12345} {
			s := ofxgo.Status{Code: ofxgo.Int(code), Severity: ofxgo.String(f.Arg)}
			m, err := s.CodeMeaning()
			c, err2 := s.CodeConditions()
			ok, err3 := s.Valid()
			out = append(out, fmt.Sprint(m, err, c, err2, ok, err3))
		}
		return strings.Join(out, ",")
	case "currency":
		c, err := ofxgo.NewCurrSymbol(f.Arg)
		if err != nil {
			return err.Error()
		}
		ok, err := c.Valid()
		return fmt.Sprint(c, ok, err)
	case "id":
		u, err := ofxgo.RandomUID()
		if err != nil || !randomForm.MatchString(string(*u)) {
			return fmt.Sprint("bad id ", u, err)
		}
		return ""
	case "leaves":
		var a ofxgo.Amount
		a.SetFrac64(int64(len(f.Arg)), 64)
		d := ofxgo.NewDate(2020, 2, 29, 23, 59, len(f.Arg)%60, 5e6, time.FixedZone("EST", -5*3600))
		u := ofxgo.UID(f.Arg)
		ok, err := u.Valid()
		r, err2 := u.RecommendedFormat()
		return fmt.Sprint(a, d, ofxgo.NewDateGMT(2020, 1, 2, 3, 4, 5, 6), ok, err, r, err2)
	case "pick-client":
		cl := ofxgo.GetClient(f.Arg, &ofxgo.BasicClient{AppID: "A"})
		return fmt.Sprintf("%T %v %v %v %v", cl, cl.ID(), cl.Version(), cl.OfxVersion(), cl.IndentRequests())
	}
	cl := makeClient(strings.TrimPrefix(f.Kind, "client "), &ofxgo.BasicClient{})
	r := firstRequest("203")
	r.URL = f.Arg
	x, err := cl.Request(r)
	return fmt.Sprint(dump(x), err)
}

func firstRequest(version string) *ofxgo.Request {
	q := &ofxgo.Request{}
	q.Version, _ = ofxgo.NewOfxVersion(version)
	q.Signon = ofxgo.SignonRequest{DtClient: *ofxgo.NewDateGMT(2020, 1, 2, 3, 4, 5, 0), UserID: "user", UserPass: "pass", Language: "ENG", AppID: "OFXGO", AppVer: "0001"}
	q.Bank = append(q.Bank, &ofxgo.StatementRequest{TrnUID: "1", BankAcctFrom: ofxgo.BankAcct{BankID: "1", AcctID: "2", AcctType: ofxgo.AcctTypeChecking}, DtStart: ofxgo.NewDateGMT(2019, 1, 2, 3, 4, 5, 0), Include: true})
	return q
}

// firstUse is the process: it does the tasks on its standard input at once.
func firstUse() {
	var tasks []firstTask
	if err := json.NewDecoder(os.Stdin).Decode(&tasks); err != nil {
		broken("%v", err)
	}
	out := make([]string, len(tasks))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range tasks {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			out[i] = tasks[i].do()
		}()
	}
	close(start)
	wg.Wait()
	json.NewEncoder(os.Stdout).Encode(out)
	os.Exit(0)
}

func firstUses(t *testing.T, s *httpsServer) {
	prop(t, "first-use", 640, 8000, func(t *rapid.T, c *Case) {
		kinds := rapid.SliceOfN(rapid.SampledFrom(firstKinds), 1, 3).Draw(t, "kinds")
		answer := ""
		var tasks []firstTask
		for i, n := 0, rapid.IntRange(2, 10).Draw(t, "tasks"); i < n; i++ {
			f := firstTask{Kind: kinds[i%len(kinds)], Yields: rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "yields")}
			switch f.Kind {
			case "parse", "remarshal":
				f.Arg, _ = answerDocument(t, rapid.IntRange(0, 4).Draw(t, "valid") > 0)
			case "marshal-request":
				f.Arg = rapid.SampledFrom(versionStrings).Draw(t, "version")
			case "enums":
				f.Arg = rapid.SampledFrom([]string{"CHECKING 102 POS DIV", "220 X CGLONG", "CD OTHER", "INT 999"}).Draw(t, "names")
			case "status":
				f.Arg = rapid.SampledFrom([]string{"INFO", "WARN", "ERROR"}).Draw(t, "severity")
			case "currency":
				f.Arg = rapid.SampledFrom([]string{"USD", "eur", "XXX", "QQQ", ""}).Draw(t, "currency")
			case "leaves":
				f.Arg = strings.Repeat("x", rapid.IntRange(0, 40).Draw(t, "length"))
			case "pick-client":
				f.Arg = rapid.SampledFrom([]string{"https://ofx.discovercard.com", "https://vesnc.vanguard.com/us/OfxDirectConnectServlet", "https://bank.example/"}).Draw(t, "url")
			case "id":
			default:
				f.Arg = s.URL + "/ofx"
				if answer == "" {
					answer, _ = answerDocument(t, true)
				}
			}
			tasks = append(tasks, f)
		}
		cookies := rapid.IntRange(0, 2).Draw(t, "cookies") > 0
		s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
			if cookies && r.Header.Get("Cookie") == "" {
				w.Header().Set("Set-Cookie", "a=b")
				return
			}
			io.WriteString(w, answer)
		})
		in, err := json.Marshal(tasks)
		if err != nil {
			broken("%v", err)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, "/proc/self/exe")
		cmd.Env = append(os.Environ(), "VERIF_FIRSTUSE=1", "GORACE=atexit_sleep_ms=20", "VERIF_PARTIAL=", "VERIF_STATUS=", "VERIF_EVIDENCE=", "VERIF_SHARDS=1")
		cmd.Stdin = bytes.NewReader(in)
		var out, errOut bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errOut
		err = cmd.Run()
		var ee *exec.ExitError
		if err != nil && !errors.As(err, &ee) {
			broken("running a process: %v", err)
		}
		var got []string
		if jerr := json.Unmarshal(out.Bytes(), &got); err != nil || jerr != nil || len(got) != len(tasks) {
			t.Fatalf("%d tasks (%q) done at once in a new process: %v %v\n%.8000s", len(tasks), kinds, err, ctx.Err(), errOut.String()+out.String())
		}
		for i, f := range tasks {
			// the same again alone
			if want := f.do(); got[i] != want {
				t.Fatalf("%s at the beginning of a process gave\n%s\nbut later\n%s", f.Kind, got[i], want)
			}
		}
		c.NonTrivial(fmt.Sprint(kinds, len(tasks), strings.Join(got, "")))
		for _, k := range kinds {
			c.Label("%s", k)
		}
		c.Sample("%d tasks at once: %q", len(tasks), kinds)
	})
}
