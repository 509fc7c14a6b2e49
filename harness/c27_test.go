package harness

import (
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

// invocation is a drawn command line with what it stands for.
type invocation struct {
	cmd    string
	flags  []string          // one or two arguments per flag, as drawn
	vals   map[string]string // values given
	noIn   bool
	cr     bool
	dryrun bool
	tz     string
}

func (i *invocation) val(name, def string) string {
	if v, ok := i.vals[name]; ok {
		return v
	}
	return def
}

func (i *invocation) args() []string { return append([]string{i.cmd}, i.flags...) }

// with gives a flag in one of the forms a flag can take.
func flagArgs(t *rapid.T, name, v string) []string {
	switch rapid.IntRange(0, 3).Draw(t, "form") {
	case 0:
		return []string{"-" + name, v}
	case 1:
		return []string{"--" + name, v}
	case 2:
		return []string{"-" + name + "=" + v}
	}
	return []string{"--" + name + "=" + v}
}

var statementCommands = []string{"download-bank", "download-cc", "download-inv", "transactions-bank", "transactions-cc", "transactions-inv"}
var downloadCommands = []string{"download-bank", "download-cc", "download-inv", "download-profile"}
var serverCommands = append(append([]string{}, statementCommands...), "download-profile", "get-accounts")

const anonymousName = "anonymous00000000000000000000000"

// drawInvocation draws a complete, valid command line for a command.
func drawInvocation(t *rapid.T, cmd, url string) *invocation {
	g := newGen(t, 0, true)
	i := &invocation{cmd: cmd, vals: map[string]string{}}
	var flags [][]string
	give := func(name, v string) {
		i.vals[name] = v
		flags = append(flags, flagArgs(t, name, v))
	}
	maybe := func(name string, draw func() string) {
		if rapid.Bool().Draw(t, "give "+name) {
			give(name, draw())
		}
	}
	text := func(lo, hi int) func() string {
		return func() string {
			if hi == 40 && g.long && g.n(0, 2) == 2 {
				g.long = false
				return strings.ReplaceAll(g.longStr(16), "\x00", "")
			}
			return strings.ReplaceAll(g.str(lo, hi), "\x00", "")
		}
	}
	give("url", url)
	if cmd != "download-profile" || rapid.IntRange(0, 2).Draw(t, "user") > 0 {
		give("username", text(1, 32)())
		give("password", text(1, 32)())
	} else {
		maybe("username", func() string { return "" })
		maybe("password", text(0, 32))
	}
	maybe("org", text(0, 32))
	maybe("fid", text(0, 32))
	maybe("appid", text(0, 5))
	maybe("appver", text(0, 4))
	maybe("ofxversion", func() string { return rapid.SampledFrom(versionStrings).Draw(t, "ofxversion") })
	maybe("clientuid", func() string { return g.uid() })
	maybe("useragent", func() string {
		return drawUserAgent(t)
	})
	if strings.HasSuffix(cmd, "-bank") {
		give("bankid", text(1, 40)())
		give("acctid", text(1, 40)())
		maybe("accttype", func() string { return rapid.SampledFrom(enums["acctType"]).Draw(t, "accttype") })
	}
	if strings.HasSuffix(cmd, "-cc") {
		give("acctid", text(1, 40)())
	}
	if strings.HasSuffix(cmd, "-inv") {
		maybe("acctid", text(0, 40))
		maybe("brokerid", text(0, 40))
	}
	boolean := func(name string) bool {
		switch rapid.IntRange(0, 4).Draw(t, name) {
		case 0:
			flags = append(flags, []string{"-" + name})
			return true
		case 1:
			flags = append(flags, []string{"--" + name + "=true"})
			return true
		case 2:
			flags = append(flags, []string{"-" + name + "=false"})
		}
		return false
	}
	i.noIn, i.cr = boolean("noindent"), boolean("carriagereturn")
	flags = rapid.Permutation(flags).Draw(t, "order")
	for _, f := range flags {
		i.flags = append(i.flags, f...)
	}
	i.tz = rapid.SampledFrom([]string{"", "UTC", "America/New_York", "Asia/Kolkata", "America/Sao_Paulo", "Australia/Lord_Howe", "Asia/Kathmandu", "nowhere"}).Draw(t, "tz")
	return i
}

func (i *invocation) env() func(*exec.Cmd) {
	return func(c *exec.Cmd) {
		if i.tz != "" {
			c.Env = append(c.Env, "TZ="+i.tz)
		}
	}
}

// request is the request an invocation stands for, without ids and times.
func (i *invocation) request() *ofxgo.Request {
	r := &ofxgo.Request{}
	ver := 0
	for k, s := range versionStrings {
		if s == i.val("ofxversion", "203") {
			ver = k
		}
	}
	setReqVersion(r, ver)
	str := func(name, def string) ofxgo.String { return ofxgo.String(i.val(name, def)) }
	r.Signon.UserID, r.Signon.UserPass = str("username", ""), str("password", "")
	if r.Signon.UserID == "" {
		r.Signon.UserID, r.Signon.UserPass = anonymousName, anonymousName
	}
	r.Signon.Language = "ENG"
	r.Signon.Org, r.Signon.Fid = str("org", ""), str("fid", "")
	r.Signon.AppID, r.Signon.AppVer = str("appid", "QWIN"), str("appver", "2400")
	if r.Signon.AppID == "" {
		r.Signon.AppID = "OFXGO"
	}
	if r.Signon.AppVer == "" {
		r.Signon.AppVer = "0001"
	}
	r.Signon.ClientUID = ofxgo.UID(i.val("clientuid", ""))
	switch {
	case i.cmd == "get-accounts":
		r.Signup = []ofxgo.Message{&ofxgo.AcctInfoRequest{DtAcctUp: ofxgo.Date{Time: time.Unix(0, 0)}}}
	case i.cmd == "download-profile":
		r.Prof = []ofxgo.Message{&ofxgo.ProfileRequest{ClientRouting: "NONE"}}
	case strings.HasSuffix(i.cmd, "-bank"):
		m := &ofxgo.StatementRequest{BankAcctFrom: ofxgo.BankAcct{BankID: str("bankid", ""), AcctID: str("acctid", "")}, Include: true}
		for k, n := range enums["acctType"] {
			if n == i.val("accttype", "CHECKING") {
				reflect.ValueOf(m).Elem().FieldByName("BankAcctFrom").FieldByName("AcctType").SetUint(uint64(k + 1))
			}
		}
		r.Bank = []ofxgo.Message{m}
	case strings.HasSuffix(i.cmd, "-cc"):
		r.CreditCard = []ofxgo.Message{&ofxgo.CCStatementRequest{CCAcctFrom: ofxgo.CCAcct{AcctID: str("acctid", "")}, Include: true}}
	case strings.HasSuffix(i.cmd, "-inv"):
		r.InvStmt = []ofxgo.Message{&ofxgo.InvStatementRequest{InvAcctFrom: ofxgo.InvAcct{BrokerID: str("brokerid", ""), AcctID: str("acctid", "")},
			Include: true, IncludeOO: true, IncludePos: true, IncludeBalance: true, Include401K: true, Include401KBal: true}}
	}
	return r
}

// check compares a document with the one the invocation stands for and
// returns the transaction's id.
func (i *invocation) check(t *rapid.T, doc string, t0, t1 time.Time) string {
	return checkNewDocument(t, fmt.Sprintf("%q", i.args()), doc, i.request(), !i.noIn, i.cr, t0, t1, map[string]time.Time{"DTACCTUP": time.Unix(0, 0)})
}

// checkNewDocument compares a document made between two times with the one of
// a request, but for the client's time, the transaction's id, and the spelling
// of some dates. It returns the id.
func checkNewDocument(t *rapid.T, what, doc string, r *ofxgo.Request, indent, cr bool, t0, t1 time.Time, dates map[string]time.Time) string {
	ver := int(reflect.ValueOf(r).Elem().FieldByName("Version").Uint()) - 1
	body, err := splitHeader(doc, ver)
	if err != nil {
		t.Fatalf("%s: %v\n%s", what, err, doc)
	}
	raw, err := parseMarkup(body, isSGML(ver))
	if err != nil {
		t.Fatalf("%s: %v\n%s", what, err, doc)
	}
	texts := map[string]string{}
	var walk func(n *RawNode)
	walk = func(n *RawNode) {
		if len(n.Kids) == 0 {
			texts[n.Name] = strings.TrimSpace(n.Text)
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(raw)
	want := requestNode(r)
	date := func(name string, lo, hi time.Time) {
		n := findNode(want, name)
		if n == nil {
			return
		}
		sc, err := lexDate(texts[name])
		if err != nil {
			t.Fatalf("%s: %s: %v\n%s", what, name, err, doc)
		}
		if sc.T.Before(lo.Add(-time.Millisecond)) || sc.T.After(hi.Add(time.Millisecond)) {
			t.Fatalf("%s: %s is %v, not within %v and %v\n%s", what, name, sc.T, lo, hi, doc)
		}
		n.Val = sc
	}
	date("DTCLIENT", t0, t1)
	for name, at := range dates {
		date(name, at, at)
	}
	id := texts["TRNUID"]
	if !randomForm.MatchString(id) {
		t.Fatalf("%s: transaction id %q\n%s", what, id, doc)
	}
	findNode(want, "TRNUID").Val.S = id
	checkDocument(t, doc, want, ver, true)
	if p := formatProblem(doc, indent, cr); p != "" {
		t.Fatalf("%s: %s\n%q", what, p, doc)
	}
	return id
}

// workDir is an empty directory for one invocation.
func workDir() string {
	d, err := os.MkdirTemp("", "ofx")
	if err != nil {
		broken("%v", err)
	}
	return d
}

func inDir(d string) func(*exec.Cmd) { return func(c *exec.Cmd) { c.Dir = d } }

func entries(d string) []string {
	es, err := os.ReadDir(d)
	if err != nil {
		broken("%v", err)
	}
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out
}

// C27: the command line sends what its flags say.
func TestC27(t *testing.T) {
	rule("Drawn flag values (any text up to the documented lengths), flag forms and orders, formatting flags and time zones for every server command; the printed, or received, document is compared with the reference document of the request the flags stand for, tokenized by the harness. Non-trivial when a flag other than the required ones is given.")
	assuming("Flag values are valid UTF-8 without NUL and of valid lengths; times may be those between start and end of the command.")
	netSetup()
	s := newHTTPSServer()
	defer s.Close()
	prop(t, "dry-run", 8000, 60000, func(t *rapid.T, c *Case) {
		s.begin(nil)
		cmd := rapid.SampledFrom(serverCommands).Draw(t, "command")
		url := rapid.SampledFrom([]string{s.URL, s.URL + "/ofx", "https://ofx.discovercard.com", "https://vesnc.vanguard.com/us/OfxDirectConnectServlet", "https://example.invalid/", "http://" + plainServer.addr}).Draw(t, "url")
		i := drawInvocation(t, cmd, url)
		i.flags = append(flagArgs2(t, "dryrun"), i.flags...)
		dir := workDir()
		defer os.RemoveAll(dir)
		opened := s.connections()
		t0 := time.Now()
		res := runOfx(t, i.args(), nil, inDir(dir), i.env())
		t1 := time.Now()
		if res.code != 0 || res.errOut != "" {
			t.Fatalf("ofx %q: exit status %d\n%s%s", i.args(), res.code, res.out, res.errOut)
		}
		doc, ok := strings.CutSuffix(res.out, "\n")
		if !ok {
			t.Fatalf("ofx %q: output does not end with a line break: %q", i.args(), res.out)
		}
		i.check(t, doc, t0, t1)
		if s.connections() != opened || len(plainServer.take()) > 0 {
			t.Fatalf("ofx %q contacted the server", i.args())
		}
		if e := entries(dir); len(e) > 0 {
			t.Fatalf("ofx %q made %q", i.args(), e)
		}
		c.Label("%s", cmd)
		if len(i.vals) > 3 {
			c.NonTrivial(strings.Join(i.args(), "\x00"))
			c.Sample("%q", i.args())
		}
	})
	prop(t, "posted", 2400, 20000, func(t *rapid.T, c *Case) {
		s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
			io.WriteString(w, sgmlHead+signonBlock+"</OFX>")
		})
		cmd := rapid.SampledFrom(serverCommands).Draw(t, "command")
		path := rapid.SampledFrom([]string{"/", "/ofx", "/a%20b/ofx.dll?x=1&y=2", "/cgi-bin/OFX", "/a/b;c"}).Draw(t, "path")
		i := drawInvocation(t, cmd, s.URL+path)
		dir := workDir()
		defer os.RemoveAll(dir)
		t0 := time.Now()
		res := runOfx(t, i.args(), nil, inDir(dir), i.env())
		t1 := time.Now()
		got := s.received()
		if len(got) != 1 {
			t.Fatalf("ofx %q made %d requests\n%s%s", i.args(), len(got), res.out, res.errOut)
		}
		if got[0].method != "POST" || got[0].uri != path {
			t.Fatalf("ofx %q sent %s %s", i.args(), got[0].method, got[0].uri)
		}
		if got[0].length != int64(len(got[0].body)) || !headerIs(got[0].header, "Content-Type", "application/x-ofx") {
			t.Fatalf("ofx %q sent headers %q", i.args(), got[0].header)
		}
		ua := got[0].header.Values("User-Agent")
		if w := i.val("useragent", ""); w != "" && !reflect.DeepEqual(ua, []string{w}) {
			t.Fatalf("ofx %q sent user agent %q", i.args(), ua)
		}
		if res.code != 0 {
			t.Fatalf("ofx %q: exit status %d\n%s%s", i.args(), res.code, res.out, res.errOut)
		}
		i.check(t, got[0].body, t0, t1)
		c.Label("%s", cmd)
		if len(i.vals) > 3 {
			c.NonTrivial(strings.Join(i.args(), "\x00"))
			c.Sample("%q", i.args())
		}
	})
	prop(t, "prompt", 240, 2400, func(t *rapid.T, c *Case) {
		// without a password flag the password comes from the terminal
		cmd := rapid.SampledFrom(serverCommands).Draw(t, "command")
		i := drawInvocation(t, cmd, "https://example.invalid")
		if i.val("username", "") == "" {
			i.flags = append(i.flags, "-username", "someone")
			i.vals["username"] = "someone"
		}
		i.flags = append([]string{"-dryrun"}, append(i.flags, "-password", "")...)
		pw := strings.TrimSpace(rapid.StringMatching(`[!-~é日ß][ -~é]{0,14}[!-~]`).Draw(t, "pw"))
		i.vals["password"] = pw
		master, slave, err := openTerminal()
		if err != nil {
			c.Label("no terminal available")
			return
		}
		defer master.Close()
		io.WriteString(master, pw+"\n")
		t0 := time.Now()
		res := runOfx(t, i.args(), slave, i.env())
		slave.Close()
		t1 := time.Now()
		doc, ok := strings.CutPrefix(strings.TrimSuffix(res.out, "\n"), "Password for "+i.val("username", "")+": ")
		if !ok || res.code != 0 {
			t.Fatalf("ofx %q: exit status %d\n%s%s", i.args(), res.code, res.out, res.errOut)
		}
		i.check(t, doc, t0, t1)
		c.NonTrivial(cmd + pw)
		c.Label("%s", cmd)
	})
	prop(t, "ids", 48, 480, func(t *rapid.T, c *Case) {
		// every invocation makes an id of its own
		cmd := rapid.SampledFrom(serverCommands).Draw(t, "command")
		i := drawInvocation(t, cmd, "https://example.invalid")
		i.flags = append([]string{"-dryrun"}, i.flags...)
		seen := map[string]bool{}
		for k := 0; k < 5; k++ {
			t0 := time.Now()
			res := runOfx(t, i.args(), nil, i.env())
			id := i.check(t, strings.TrimSuffix(res.out, "\n"), t0, time.Now())
			if seen[id] {
				t.Fatalf("ofx %q used the id %s again", i.args(), id)
			}
			seen[id] = true
		}
		c.NonTrivial(fmt.Sprint(seen))
		c.Label("%s", cmd)
	})
}

func flagArgs2(t *rapid.T, name string) []string {
	return []string{rapid.SampledFrom([]string{"-" + name, "--" + name, "-" + name + "=true", "-" + name + "=1"}).Draw(t, name)}
}

// connections counts the connections ever made to the server.
func (s *httpsServer) connections() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.opened
}

// openTerminal makes a pseudo terminal.
func openTerminal() (master, slave *os.File, err error) {
	if master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0); err != nil {
		return
	}
	var n, unlock uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))); e != 0 {
		master.Close()
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		master.Close()
		return nil, nil, e
	}
	if slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0); err != nil {
		master.Close()
	}
	return
}
