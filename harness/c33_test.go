package harness

import (
	"bytes"
	"fmt"
	"html"
	"io"
	"log"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

// secret is a password with a part that occurs nowhere by chance.
type secret struct{ text, core string }

func drawSecret(t *rapid.T, max int) secret {
	core := "Zq" + rapid.StringMatching(`[A-Za-z0-9]{10,12}`).Draw(t, "core")
	s := secret{core, core}
	if rapid.Bool().Draw(t, "decorated") {
		s.text = rapid.SampledFrom([]string{"", "&", "<", "é", " ", "%", "\"", "a"}).Draw(t, "before") + core + rapid.SampledFrom([]string{"", "&", ">", "日", "%s", "%d", "'", "\\", "b"}).Draw(t, "after")
		s.text = strings.TrimSpace(s.text)
	}
	for len(s.text) < max {
		s.text += "x"
	}
	return s
}

// in says whether the secret can be told from what was written.
func (s secret) in(texts ...string) bool {
	for _, x := range texts {
		if strings.Contains(x, s.core) || strings.Contains(html.UnescapeString(x), s.core) {
			return true
		}
		if u, err := url.QueryUnescape(x); err == nil && strings.Contains(u, s.core) {
			return true
		}
	}
	return false
}

// listening runs something while what the process writes is recorded.
func listening(f func()) string {
	file, err := os.CreateTemp("", "said")
	if err != nil {
		broken("%v", err)
	}
	defer os.Remove(file.Name())
	defer file.Close()
	out, errOut := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = file, file
	log.SetOutput(file)
	func() {
		defer func() { os.Stdout, os.Stderr = out, errOut; log.SetOutput(errOut) }()
		f()
	}()
	b, err := os.ReadFile(file.Name())
	if err != nil {
		broken("%v", err)
	}
	return string(b)
}

// C33: secrets appear nowhere but in the requests they are for.
func TestC33(t *testing.T) {
	rule("Passwords and user keys with a unique core are used in valid and invalid requests through every kind of client, and with every command, against servers which accept, refuse, drop and damage; what is returned as error, printed, logged or stored, and what is sent outside the posted document (URLs, headers, later requests of other users), is searched for the core. Passwords are typed at a pseudo terminal when the prompt asks for them; the terminal must never show them, and be left as it was. Every case is non-trivial.")
	assuming("The server does not repeat the secrets in its answers.")
	netSetup()
	s := newHTTPSServer()
	defer s.Close()
	prop(t, "library", 8000, 60000, func(t *rapid.T, c *Case) {
		r := drawRequest(t)
		g := newGen(t, anyVersion(t), true)
		sec := drawSecret(t, rapid.SampledFrom([]int{0, 0, 0, 31, 32, 33, 64, 65, 200}).Draw(t, "length"))
		if rapid.IntRange(0, 2).Draw(t, "key") == 0 {
			r.Signon.UserPass, r.Signon.UserKey = "", ofxgo.String(sec.text)
		} else {
			r.Signon.UserPass, r.Signon.UserKey = ofxgo.String(sec.text), ""
		}
		if rapid.IntRange(0, 9).Draw(t, "both") == 0 {
			r.Signon.UserPass, r.Signon.UserKey = ofxgo.String(sec.text), ofxgo.String(sec.text)
		}
		for i, n := 0, rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "changes"); i < n; i++ {
			pass, key := r.Signon.UserPass, r.Signon.UserKey
			spoilRequest(g, r)
			r.Signon.UserPass, r.Signon.UserKey = pass, key
		}
		answer := drawAnswerKind(t, s)
		u := s.URL + rapid.SampledFrom([]string{"", "/", "/ofx", "/a?b=c"}).Draw(t, "path")
		switch rapid.IntRange(0, 9).Draw(t, "elsewhere") {
		case 0:
			u = rapid.SampledFrom([]string{"http://" + plainServer.addr, "https://" + plainServer.addr, "https://127.0.0.1:1/", "", "https://", "https://%zz", "ftp://x"}).Draw(t, "url")
		}
		kind := rapid.SampledFrom(clientKinds).Draw(t, "client")
		op := rapid.SampledFrom(clientOps[:2]).Draw(t, "op")
		bc := drawConfig(t)
		var err error
		var resp *ofxgo.Response
		said := listening(func() {
			var raw *http.Response
			resp, raw, err = operate(op, makeClient(kind, bc), r, u, nil)
			closeAnswer(raw)
		})
		plainServer.take()
		if err != nil && sec.in(err.Error(), fmt.Sprintf("%v|%+v|%#v", err, err, err)) {
			t.Fatalf("%s client, %s to %s (%s): the error shows the secret %q: %v", kind, op, u, answer, sec.text, err)
		}
		if sec.in(said) {
			t.Fatalf("%s client, %s to %s (%s) wrote the secret %q: %s", kind, op, u, answer, sec.text, said)
		}
		if resp != nil {
			if x := fmt.Sprintf("%+v", *resp); sec.in(x) {
				t.Fatalf("%s client, %s: the response holds the secret %q: %s", kind, op, sec.text, x)
			}
		}
		for _, got := range s.received() {
			if sec.in(got.uri, got.host, got.method, fmt.Sprint(got.header)) {
				t.Fatalf("%s client, %s (%s): the secret %q is outside the posted document: %s %s %v", kind, op, answer, sec.text, got.method, got.uri, got.header)
			}
		}
		c.NonTrivial(kind + op + u + answer + sec.text)
		c.Label("%s %s: %s", kind, op, answer)
		c.Sample("%s %s to %s (%s): %v", kind, op, u, answer, err)
	})
	prop(t, "marshal", 8000, 120000, func(t *rapid.T, c *Case) {
		// nothing but the document says it
		g := newGen(t, anyVersion(t), true)
		r := g.request()
		sec := drawSecret(t, rapid.SampledFrom([]int{0, 0, 0, 33, 65}).Draw(t, "length"))
		r.Signon.UserPass, r.Signon.UserKey = ofxgo.String(sec.text), ""
		if rapid.Bool().Draw(t, "key") {
			r.Signon.UserPass, r.Signon.UserKey = "", ofxgo.String(sec.text)
		}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "changes"); i < n; i++ {
			pass, key := r.Signon.UserPass, r.Signon.UserKey
			spoilRequest(g, r)
			r.Signon.UserPass, r.Signon.UserKey = pass, key
		}
		var b *bytes.Buffer
		var err error
		said := listening(func() { b, err = r.Marshal() })
		if sec.in(said) || err != nil && sec.in(err.Error(), fmt.Sprintf("%+v|%#v", err, err)) {
			t.Fatalf("the secret %q is shown: %v\n%s", sec.text, err, said)
		}
		if err == nil && strings.Count(html.UnescapeString(b.String()), sec.core) != 1 {
			t.Fatalf("the secret %q is in the document more than once\n%s", sec.text, b)
		}
		c.NonTrivial(fmt.Sprint(sec.text, err))
		c.Label("error %v", err != nil)
	})
	commands := append(append([]string{}, serverCommands...), "detect-settings", "transactions-bank", "get-accounts")
	line := func(t *rapid.T, u string, sec secret) (cmd string, args []string) {
		cmd = rapid.SampledFrom(commands).Draw(t, "command")
		if cmd == "detect-settings" {
			return cmd, append([]string{cmd, "-url", u, "-username", "user", "-delay=0"}, flagArgs(t, "password", sec.text)...)
		}
		i := drawInvocation(t, cmd, u)
		args = without(i.args(), "password", false)
		args = append(args, flagArgs(t, "password", sec.text)...)
		if cmd == "download-profile" { // without a user, the password is not used
			args = without(args, "username", false)
			args = append(args, "-username", rapid.SampledFrom([]string{"user", "user", ""}).Draw(t, "user"))
		}
		return
	}
	prop(t, "commands", 2400, 24000, func(t *rapid.T, c *Case) {
		sec := drawSecret(t, rapid.SampledFrom([]int{0, 0, 0, 31, 32, 33}).Draw(t, "length"))
		answer := drawAnswerKind(t, s)
		u := rapid.SampledFrom([]string{s.URL + "/ofx", s.URL, s.URL, s.URL, "https://127.0.0.1:1", "http://" + plainServer.addr, "", "https://%zz"}).Draw(t, "url")
		cmd, args := line(t, u, sec)
		switch rapid.IntRange(0, 9).Draw(t, "defect") {
		case 0:
			args = append(args, "-nosuch=1")
		case 1:
			args = append(args, "-username", "")
		case 2:
			args = append(args, "-filename", "")
		case 3:
			args = append(args, "-ofxversion", "999")
		case 4:
			args = append(args, "-appid", "TOOLONG")
		case 5:
			args = append(args, "-accttype", "x")
		case 6:
			args = append(args, "-h")
		case 7:
			args = append(args, "-filename", "no/such/directory")
		}
		dir := workDir()
		defer os.RemoveAll(dir)
		res := runOfx(t, args, nil, inDir(dir))
		plainServer.take()
		if sec.in(res.out, res.errOut) {
			t.Fatalf("ofx %q (%s) shows the password\n%s%s", args, answer, res.out, res.errOut)
		}
		checkFiles(t, dir, sec, args)
		for _, got := range s.received() {
			if sec.in(got.uri, got.host, fmt.Sprint(got.header)) {
				t.Fatalf("ofx %q: the password is outside the posted document: %s %s %v", args, got.method, got.uri, got.header)
			}
			if sec.in(got.body) && strings.Contains(got.body, anonymousName) {
				t.Fatalf("ofx %q sent the password for another user\n%s", args, got.body)
			}
		}
		c.NonTrivial(strings.Join(args, "\x00"))
		c.Label("%s: %s", cmd, answer)
		c.Sample("%q (%s): %.200q", args, answer, res.out+res.errOut)
	})
	prop(t, "prompt", 1200, 12000, func(t *rapid.T, c *Case) {
		sec := drawSecret(t, 0)
		answer := drawAnswerKind(t, s)
		dry := rapid.Bool().Draw(t, "dry")
		u := rapid.SampledFrom([]string{s.URL + "/ofx", s.URL, "https://127.0.0.1:1"}).Draw(t, "url")
		cmd, args := line(t, u, sec)
		args = without(args, "password", rapid.Bool().Draw(t, "empty"))
		args = append(without(args, "username", false), "-username=user")
		dry = dry && cmd != "detect-settings"
		if dry {
			args = append(args, "-dryrun")
		}
		ask, keys := true, sec.text
		switch rapid.IntRange(0, 7).Draw(t, "variant") {
		case 0: // nothing to ask for
			ask = false
			args = append(args, "-password=given")
		case 1: // no answer
			sec.text, keys = "", ""
		case 2: // corrected while typing
			keys = rapid.SampledFrom([]string{"abc\x15", "xy\x7f\x7f"}).Draw(t, "typo") + keys
		case 3: // with a pause
			keys = keys[:1] + "\x04" + keys[1:]
		}
		dir := workDir()
		defer os.RemoveAll(dir)
		opened := s.connections()
		res := typing(t, args, keys+"\n", ask, inDir(dir))
		if !res.available {
			c.Label("no terminal available")
			return
		}
		plainServer.take()
		failed := sec.text == ""
		what := fmt.Sprintf("ofx %q, typing %q (%s)", args, keys, answer)
		if ask != strings.Contains(res.shown+res.out, "assword for user") {
			t.Fatalf("%s: asked for the password: %v\n%s\n%s", what, !ask, res.shown, res.out)
		}
		if sec.in(res.shown, res.errOut) || !(dry && !failed && ask) && sec.in(res.out) {
			t.Fatalf("%s: the password was shown\nterminal: %q\noutput: %q%q", what, res.shown, res.out, res.errOut)
		}
		if !res.restored {
			t.Fatalf("%s: the terminal was left in another mode", what)
		}
		checkFiles(t, dir, sec, args)
		c.NonTrivial(what)
		c.Sample("%s: %.200q %.200q", what, res.shown, res.out)
		if !ask {
			c.Label("not asked")
			return
		}
		if failed {
			// with an empty password, anonymous settings are searched for
			if s.connections() != opened && cmd != "detect-settings" {
				t.Fatalf("%s: the server was contacted without a password\n%s", what, res.out)
			}
			c.Label("no password")
			return
		}
		c.Label("dry run %v", dry)
		if dry {
			if strings.Count(html.UnescapeString(res.out), "<USERPASS>"+sec.text) != 1 {
				t.Fatalf("%s: the document does not hold the password once\n%s", what, res.out)
			}
			return
		}
		for k, got := range s.received() {
			if k == 0 && strings.Count(html.UnescapeString(got.body), "<USERPASS>"+sec.text) != 1 {
				t.Fatalf("%s: the request does not hold the password\n%s", what, got.body)
			}
		}
	})
	prop(t, "no-terminal", 400, 4000, func(t *rapid.T, c *Case) {
		// a password is never read from anything but a terminal
		sec := drawSecret(t, 0)
		s.begin(nil)
		cmd, args := line(t, s.URL, sec)
		args = append(without(args, "password", rapid.Bool().Draw(t, "empty")), "-username=user")
		var in io.Reader
		switch rapid.IntRange(0, 2).Draw(t, "input") {
		case 0:
			in = strings.NewReader("")
		case 1:
			in = strings.NewReader(sec.text + "\n")
		}
		dir := workDir()
		defer os.RemoveAll(dir)
		opened := s.connections()
		res := runOfx(t, args, in, inDir(dir))
		if res.code == 0 || s.connections() != opened || !saysWhy(res) {
			t.Fatalf("ofx %q without a terminal: exit status %d, %d connections\n%s%s", args, res.code, s.connections()-opened, res.out, res.errOut)
		}
		if sec.in(res.out, res.errOut) || len(entries(dir)) > 0 {
			t.Fatalf("ofx %q without a terminal: files %q\n%s%s", args, entries(dir), res.out, res.errOut)
		}
		c.NonTrivial(strings.Join(args, "\x00"))
		c.Label("%s", cmd)
	})
}

// drawAnswerKind makes the server answer in some way or other.
func drawAnswerKind(t *rapid.T, s *httpsServer) string {
	kind := rapid.SampledFrom([]string{"valid", "valid", "invalid", "status", "garbage", "cut", "dropped", "empty", "cookie", "redirect", "redirect-plain"}).Draw(t, "answer")
	doc, _ := answerDocument(t, kind != "invalid")
	cut := rapid.IntRange(0, len(doc)-1).Draw(t, "cut")
	code := rapid.SampledFrom([]int{400, 401, 403, 500, 503}).Draw(t, "code")
	redirect := rapid.SampledFrom([]int{301, 302, 303, 307, 308}).Draw(t, "redirect")
	s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
		if n >= 8 { // let the search for settings end
			io.WriteString(w, sgmlHead+signonBlock+"</OFX>")
			return
		}
		switch kind {
		case "status":
			w.WriteHeader(code)
		case "garbage":
			io.WriteString(w, "<html>no</html>")
			return
		case "cut":
			doc = doc[:cut]
		case "dropped":
			if h, ok := w.(http.Hijacker); ok {
				if conn, _, err := h.Hijack(); err == nil {
					conn.Close()
				}
			}
			return
		case "empty":
			return
		case "cookie":
			if n == 0 {
				w.Header().Set("Set-Cookie", "a=b; Path=/")
				return
			}
		case "redirect", "redirect-plain":
			if n == 0 {
				to := s.URL + "/other?x=y"
				if kind == "redirect-plain" {
					to = "http://" + plainServer.addr + "/"
				}
				w.Header().Set("Location", to)
				w.WriteHeader(redirect)
				return
			}
		}
		io.WriteString(w, doc)
	})
	return kind
}

// checkFiles looks for the secret in everything below a directory.
func checkFiles(t *rapid.T, dir string, sec secret, args []string) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			broken("%v", err)
		}
		if sec.in(p) {
			t.Fatalf("ofx %q: the file name %s holds the password", args, p)
		}
		if !fi.IsDir() {
			b, _ := os.ReadFile(p)
			if sec.in(string(b)) {
				t.Fatalf("ofx %q: the file %s holds the password", args, p)
			}
		}
		return nil
	})
}

type typed struct {
	cliResult
	shown     string // by the terminal
	restored  bool
	available bool
}

// typing runs a command at a pseudo terminal and types something as soon as
// the terminal has stopped showing what is typed.
func typing(t *rapid.T, args []string, keys string, ask bool, opts ...func(*exec.Cmd)) (res typed) {
	master, slave, err := openTerminal()
	if err != nil {
		return
	}
	res.available = true
	defer slave.Close()
	var mu sync.Mutex
	var shown, out bytes.Buffer
	drained := make(chan bool)
	go func() {
		b := make([]byte, 4096)
		for {
			n, err := master.Read(b)
			mu.Lock()
			shown.Write(b[:n])
			mu.Unlock()
			if err != nil {
				close(drained)
				return
			}
		}
	}()
	before := modes(slave)
	onTerminal := rapid.Bool().Draw(t, "on terminal")
	typist := make(chan bool)
	stop := make(chan bool)
	go func() {
		defer close(typist)
		if !ask {
			return
		}
		// The password is typed into whatever there is after a while, so
		// that a prompt which shows it is seen doing so.
		for end := time.Now().Add(30 * time.Second); time.Now().Before(end) && modes(slave).Lflag&syscall.ECHO != 0; {
			select {
			case <-stop:
				return
			case <-time.After(time.Millisecond):
			}
		}
		io.WriteString(master, keys)
	}()
	res.cliResult = runOfx(t, args, slave, append(opts, func(c *exec.Cmd) {
		c.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
		if onTerminal {
			c.Stdout, c.Stderr = slave, slave
		} else {
			c.Stdout = &out
		}
	})...)
	close(stop)
	<-typist
	res.restored = modes(slave) == before
	slave.Close()
	// all of it has been shown once the last byte is read
	select {
	case <-drained:
	case <-time.After(10 * time.Second):
	}
	master.Close()
	mu.Lock()
	res.shown = strings.ReplaceAll(shown.String(), "\r\n", "\n")
	mu.Unlock()
	if onTerminal {
		res.out, res.shown = res.shown, ""
	} else {
		res.out = out.String()
	}
	return
}

func modes(f *os.File) (m syscall.Termios) {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&m))); e != 0 {
		broken("the terminal's modes: %v", e)
	}
	return
}
