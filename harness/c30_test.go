package harness

import (
	"fmt"
	"hash/fnv"
	"io"
	"net/http"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

// A trial is one combination settings detection tries.
type trial struct {
	id, ver, ofx string
	noIndent     bool
}

func (x trial) String() string {
	return fmt.Sprintf("%s %s %s noindent %v", x.id, x.ver, x.ofx, x.noIndent)
}

var trials = func() (out []trial) {
	apps := []struct{ id, versions string }{
		{"OFXGO", "0001"},
		{"QWIN", "2600 2500 2400 2300 2200 2100 2000 1900 1800 1700 1600 1500 1400"},
		{"QMOFX", "1700 1600 1500 1400"},
		{"QB", "1800 1700 1600 1500"},
		{"Money", "1600 1500 1400 1200 1100"},
	}
	for _, a := range apps {
		for _, v := range strings.Fields(a.versions) {
			for _, o := range strings.Fields("203 103 200 201 202 210 211 102 151 160 220") {
				out = append(out, trial{a.id, v, o, false}, trial{a.id, v, o, true})
			}
		}
	}
	return
}()

var failedRE = regexp.MustCompile(`(?i)attempt\s+([0-9]+)\s+failed`)

var ofxVersionRE = regexp.MustCompile(`\bVERSION[:=]"?([0-9]{3})`)

// readTrial finds out the settings a document was written with.
func readTrial(doc string) (x trial, user, pass string) {
	value := func(name string) string {
		_, rest, ok := strings.Cut(doc, "<"+name+">")
		if !ok {
			return ""
		}
		v, _, _ := strings.Cut(rest, "<")
		v, _ = unescape(strings.TrimSpace(v))
		return v
	}
	x.id, x.ver = value("APPID"), value("APPVER")
	head, body, _ := strings.Cut(doc, "<OFX>")
	for _, m := range ofxVersionRE.FindAllStringSubmatch(head, -1) {
		x.ofx = m[1]
	}
	x.noIndent = !strings.Contains(strings.TrimSpace(body), "\n")
	return x, value("USERID"), value("USERPASS")
}

// C30: settings detection finds the first working combination.
func TestC30(t *testing.T) {
	rule("The command runs against servers which accept drawn sets of combinations of settings and credentials (single ones at drawn places of the order, conditions on single settings, random sets, sets depending on the number of requests, none at all) and reject the others in drawn ways; the requests received must be exactly those of the documented order up to the first accepted one, with correct documents, the failed attempts must be listed, and exactly the accepted combination reported. Every case is non-trivial.")
	assuming("An answer is acceptable when it is a valid OFX response with HTTP status 200, whatever its signon status.")
	netSetup()
	s := newHTTPSServer()
	defer s.Close()
	prop(t, "search", 1200, 6000, func(t *rapid.T, c *Case) {
		g := newGen(t, 0, true)
		text := func(lo, hi int) string {
			for {
				if v := strings.ReplaceAll(g.str(lo, hi), "\x00", ""); v != anonymousName && !strings.ContainsAny(v, "\n\r") {
					return v
				}
			}
		}
		user, pass, org, fid := text(1, 32), text(1, 32), text(0, 32), text(0, 32)
		type offer struct {
			trial
			anon bool
			n    int // which request this is
		}
		at := rapid.IntRange(0, len(trials)-1).Draw(t, "at")
		if rapid.IntRange(0, 9).Draw(t, "deep") > 0 {
			at = rapid.IntRange(0, 70).Draw(t, "shallow")
		}
		x := trials[at]
		var accept func(o offer) bool
		how := rapid.SampledFrom([]string{"one", "one-real", "one-anonymous", "ofx", "application", "version", "noindent", "set", "count", "anonymous", "all", "none"}).Draw(t, "how")
		if how == "none" && rapid.IntRange(0, 3).Draw(t, "really") > 0 {
			how = "one"
		}
		salt := rapid.Uint64().Draw(t, "salt")
		count := rapid.IntRange(0, 150).Draw(t, "count")
		odds := uint64(rapid.IntRange(5, 60).Draw(t, "odds"))
		switch how {
		case "one":
			accept = func(o offer) bool { return o.trial == x }
		case "one-real":
			accept = func(o offer) bool { return o.trial == x && !o.anon }
		case "one-anonymous":
			accept = func(o offer) bool { return o.trial == x && o.anon }
		case "ofx":
			accept = func(o offer) bool { return o.ofx == x.ofx }
		case "application":
			accept = func(o offer) bool { return o.id == x.id }
		case "version":
			accept = func(o offer) bool { return o.id == x.id && o.ver == x.ver && o.ofx >= "200" }
		case "noindent":
			accept = func(o offer) bool { return o.noIndent && o.ofx == x.ofx }
		case "anonymous":
			accept = func(o offer) bool { return o.anon && o.ofx == x.ofx && o.noIndent == x.noIndent }
		case "set":
			accept = func(o offer) bool {
				h := fnv.New64a()
				fmt.Fprint(h, salt, o.trial, o.anon)
				return (h.Sum64()>>7)%odds == 0
			}
		case "count":
			accept = func(o offer) bool { return o.n == count }
		case "all":
			accept = func(o offer) bool { return true }
		case "none":
			accept = func(o offer) bool { return false }
		}
		good, _ := answerDocument(t, true)
		reject := rapid.SampledFrom([]string{"status", "status", "empty", "html", "cut", "other", "invalid", "mixed", "drop", "drop-real"}).Draw(t, "reject")
		code := rapid.SampledFrom([]int{400, 401, 403, 404, 500, 503, 204}).Draw(t, "status")
		var arrivals []time.Time
		s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
			arrivals = append(arrivals, time.Now()) // requests come one at a time
			o := offer{n: n}
			var u string
			o.trial, u, _ = readTrial(string(body))
			o.anon = u == anonymousName
			if accept(o) {
				io.WriteString(w, good)
				return
			}
			k := reject
			if k == "mixed" {
				k = []string{"status", "empty", "html", "cut", "other", "drop"}[n%6]
			}
			if k == "drop-real" {
				k = "drop"
				if o.anon {
					k = "status"
				}
			}
			switch k {
			case "status":
				w.WriteHeader(code)
				if code != 204 {
					io.WriteString(w, good)
				}
			case "drop": // no answer at all
				panic(http.ErrAbortHandler)
			case "html":
				io.WriteString(w, "<html>go away</html>")
			case "cut":
				io.WriteString(w, good[:strings.LastIndex(good, "</OFX")])
			case "other":
				io.WriteString(w, strings.Replace(good, "<SIGNONMSGSRSV1>", "<SIGNUPMSGSRSV1>", 1))
			case "invalid":
				io.WriteString(w, sgmlHead+strings.Replace(signonBlock, ">ENG<", ">ENGLISH<", 1)+"</OFX>")
			}
		})
		// what has to happen
		var want []offer
		found := -1
	search:
		for k, x := range trials {
			for _, anon := range []bool{false, true} {
				o := offer{x, anon, len(want)}
				want = append(want, o)
				if accept(o) {
					found = k
					break search
				}
			}
		}
		if len(want) > 400 && rapid.IntRange(0, 3).Draw(t, "long") > 0 {
			t.SkipNow()
		}
		delay := 0
		if len(want) < 30 {
			delay = rapid.SampledFrom([]int{0, 0, 1, 5, 20}).Draw(t, "delay")
		}
		flags := [][]string{flagArgs(t, "delay", fmt.Sprint(delay))}
		if 2 < len(want) && len(want) < 9 {
			// also long ones, and that which goes without saying
			if delay = rapid.SampledFrom([]int{0, 20, 333, 500, 700, 1200}).Draw(t, "longer delay"); delay == 500 {
				flags = nil
			} else {
				flags[0] = flagArgs(t, "delay", fmt.Sprint(delay))
			}
		}
		args := []string{"detect-settings"}
		for _, f := range rapid.Permutation(append(flags, flagArgs(t, "url", s.URL+"/ofx"), flagArgs(t, "username", user), flagArgs(t, "password", pass), flagArgs(t, "org", org), flagArgs(t, "fid", fid))).Draw(t, "order") {
			args = append(args, f...)
		}
		t0 := time.Now()
		res := runOfx(t, args, nil)
		t1 := time.Now()
		got := s.received()
		for k := range want {
			if k >= len(got) {
				t.Fatalf("the search stopped after %d requests instead of %d (%s)\n%s%s", len(got), len(want), how, res.out, res.errOut)
			}
			x, u, p := readTrial(got[k].body)
			wu, wp := user, pass
			if want[k].anon {
				wu, wp = anonymousName, anonymousName
			}
			if x != want[k].trial || u != wu || p != wp {
				t.Fatalf("request %d: expected %v as %q %q, got %v as %q %q", k, want[k].trial, wu, wp, x, u, p)
			}
			if k < 6 || k > len(want)-3 {
				checkProfileRequest(t, got[k].body, want[k].trial, wu, wp, org, fid, t0, t1)
			}
			if k > 0 && delay > 0 && !want[k].anon && arrivals[k].Sub(arrivals[k-1]) < time.Duration(delay)*time.Millisecond {
				t.Fatalf("attempts %v apart in spite of a delay of %dms", arrivals[k].Sub(arrivals[k-1]), delay)
			}
		}
		if len(got) > len(want) {
			t.Fatalf("the search went on after request %d was accepted (%s)\n%s", len(want)-1, how, res.out)
		}
		failures := found
		if found < 0 {
			failures = len(trials)
		}
		lines := strings.Split(strings.TrimSpace(res.out), "\n")
		n := 0
		for _, l := range lines {
			if m := failedRE.FindStringSubmatch(l); m != nil {
				n++
				x := trials[min(n-1, len(trials)-1)]
				if m[1] != fmt.Sprint(n) || !strings.Contains(l, x.id) || !strings.Contains(l, x.ver) || !strings.Contains(l, x.ofx) || strings.Contains(l, "noindent") != x.noIndent {
					t.Fatalf("failure %d (%v) reported as %q", n, x, l)
				}
			}
		}
		if n != failures {
			t.Fatalf("%d failures reported instead of %d (%s)\n%s", n, failures, how, res.out)
		}
		if found < 0 {
			if strings.Contains(res.out, "AppID:") || strings.Contains(res.out, "found to work") {
				t.Fatalf("settings reported although none worked\n%s", res.out[max(0, len(res.out)-500):])
			}
		} else {
			x := trials[found]
			tail := lines[min(failures, len(lines)):]
			if d := shows(strings.Join(tail, "\n"), wants("The following settings were found to work:", newline, "AppID:", x.id, newline, "AppVer:", x.ver, newline, "OFX Version:", x.ofx, newline, "noindent:", fmt.Sprint(x.noIndent), newline)); d != "" {
				t.Fatalf("%v was found, reported as %q: %s", x, tail, d)
			}
			if res.code != 0 {
				t.Fatalf("exit status %d after %v was found", res.code, x)
			}
		}
		c.NonTrivial(fmt.Sprint(how, reject, len(want), salt, user))
		c.Label("%s", how)
		c.Label("rejecting with %s", reject)
		c.Sample("%s, rejecting with %s: %d requests, found %d", how, reject, len(want), found)
	})
}

// checkProfileRequest compares a document with the one of a trial.
func checkProfileRequest(t *rapid.T, doc string, x trial, user, pass, org, fid string, t0, t1 time.Time) {
	r := &ofxgo.Request{}
	ver := 0
	for k, v := range versionStrings {
		if v == x.ofx {
			ver = k
		}
	}
	setReqVersion(r, ver)
	r.Signon = ofxgo.SignonRequest{UserID: ofxgo.String(user), UserPass: ofxgo.String(pass), Language: "ENG", Org: ofxgo.String(org), Fid: ofxgo.String(fid), AppID: ofxgo.String(x.id), AppVer: ofxgo.String(x.ver)}
	r.Prof = []ofxgo.Message{&ofxgo.ProfileRequest{ClientRouting: "NONE"}}
	checkNewDocument(t, fmt.Sprint(x), doc, r, !x.noIndent, false, t0, t1, map[string]time.Time{"DTPROFUP": time.Unix(0, 0)})
}
