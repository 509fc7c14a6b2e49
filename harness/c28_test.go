package harness

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// target is a drawn place for a download to go to.
type target struct {
	dir, file string // working directory, and the file's absolute path
	args      []string
	before    []byte // previous content
	existed   bool
	mode      os.FileMode
	mtime     time.Time
	others    string
}

func drawTarget(t *rapid.T) *target {
	g := &target{dir: workDir()}
	os.Mkdir(filepath.Join(g.dir, "sub"), 0o755)
	os.WriteFile(filepath.Join(g.dir, "other.ofx"), []byte("other"), 0o644)
	name := rapid.SampledFrom([]string{"", "", "./response.ofx", "a.ofx", "sub/a b.ofx", "./sub/../b", "sub/é", "-x", "/abs", "sub/.hidden", "a%d.ofx", "response.ofx.tmp"}).Draw(t, "filename")
	switch name {
	case "":
		g.file = filepath.Join(g.dir, "response.ofx")
	case "/abs":
		g.file = filepath.Join(g.dir, "sub", "absolute.ofx")
		g.args = []string{"-filename", g.file}
	default:
		g.file = filepath.Join(g.dir, name)
		g.args = flagArgs(t, "filename", name)
	}
	if g.existed = rapid.IntRange(0, 2).Draw(t, "existing") > 0; g.existed {
		g.before = bytes.Repeat([]byte("previous content\n"), rapid.SampledFrom([]int{0, 1, 3, 20000}).Draw(t, "previous"))
		g.mode = rapid.SampledFrom([]os.FileMode{0o644, 0o600, 0o640}).Draw(t, "mode")
		g.mtime = time.Unix(1000000000+int64(rapid.IntRange(0, 1000).Draw(t, "mtime")), 0)
		if os.WriteFile(g.file, g.before, g.mode) != nil || os.Chmod(g.file, g.mode) != nil || os.Chtimes(g.file, g.mtime, g.mtime) != nil {
			broken("cannot make %s", g.file)
		}
	}
	g.others = g.listing()
	return g
}

// listing is everything in the directory but the target.
func (g *target) listing() string {
	var out []string
	filepath.Walk(g.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			broken("%v", err)
		}
		if p == g.file {
			return nil
		}
		if fi.IsDir() {
			out = append(out, p)
		} else {
			b, _ := os.ReadFile(p)
			out = append(out, p+":"+string(b))
		}
		return nil
	})
	return strings.Join(out, "\n")
}

// untouched says what happened to the target, if anything did.
func (g *target) untouched() string {
	fi, err := os.Stat(g.file)
	switch {
	case !g.existed && err == nil:
		return fmt.Sprintf("the file was made, with %d bytes", fi.Size())
	case !g.existed:
		return g.rest()
	case err != nil:
		return "the file is gone"
	}
	b, _ := os.ReadFile(g.file)
	if !bytes.Equal(b, g.before) {
		return fmt.Sprintf("the file's %d bytes were replaced by %d", len(g.before), len(b))
	}
	if !fi.ModTime().Equal(g.mtime) {
		return "the file was written to"
	}
	return g.rest()
}

func (g *target) rest() string {
	if now := g.listing(); now != g.others {
		return fmt.Sprintf("other files changed from %q to %q", g.others, now)
	}
	return ""
}

// C28: downloads store exactly the bytes the server sent.
func TestC28(t *testing.T) {
	rule("The four download commands run against a TLS server sending drawn bodies (any bytes, up to 4 MB) in drawn framings to drawn file names with or without previous content; the file must hold exactly those bytes. Drawn failures (statuses, refused and broken connections, untrusted certificates, bad answers, refused redirects, invalid requests) must leave files, times and directories alone and end with an error and a failing status, as must answers cut at drawn points, files that cannot be created, and a full device. Every case is non-trivial.")
	assuming("Answers are not compressed. What an interrupted download leaves in its file is not judged.")
	netSetup()
	s := newHTTPSServer()
	defer s.Close()
	prop(t, "stored", 2400, 24000, func(t *rapid.T, c *Case) {
		answer := drawPayload(t, rapid.SampledFrom([]int{100, 5000, 100000, 100000, 4000000}).Draw(t, "max"))
		framing := rapid.SampledFrom([]string{"length", "chunked", "close", "pieces"}).Draw(t, "framing")
		s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
			w.Header().Set("Content-Type", "application/x-ofx")
			switch framing {
			case "length":
				w.Header().Set("Content-Length", strconv.Itoa(len(answer)))
				w.Write(answer)
			case "close":
				w.Header().Set("Connection", "close")
				w.Write(answer)
			default:
				w.WriteHeader(200)
				w.(http.Flusher).Flush()
				step := max(len(answer)/5, 1)
				for b := answer; len(b) > 0; {
					k := min(len(b), step)
					w.Write(b[:k])
					w.(http.Flusher).Flush()
					if framing == "pieces" {
						time.Sleep(time.Millisecond)
					}
					b = b[k:]
				}
			}
		})
		cmd := rapid.SampledFrom(downloadCommands).Draw(t, "command")
		i := drawInvocation(t, cmd, s.URL+"/ofx")
		g := drawTarget(t)
		defer os.RemoveAll(g.dir)
		i.flags = append(i.flags, g.args...)
		res := runOfx(t, i.args(), nil, inDir(g.dir))
		if res.code != 0 {
			t.Fatalf("ofx %q: exit status %d\n%s%s", i.args(), res.code, res.out, res.errOut)
		}
		b, err := os.ReadFile(g.file)
		if err != nil {
			t.Fatalf("ofx %q: %v\n%s", i.args(), err, res.out)
		}
		if !bytes.Equal(b, answer) {
			t.Fatalf("ofx %q stored %d bytes, the server sent %d (%s)\n%.500q\n%.500q", i.args(), len(b), len(answer), framing, b, answer)
		}
		if r := g.rest(); r != "" {
			t.Fatalf("ofx %q: %s", i.args(), r)
		}
		c.NonTrivial(cmd + framing + string(answer))
		c.Label("%s %s", cmd, framing)
		c.Label("previous content %v", g.existed)
		c.Sample("%q: %d bytes, %s", i.args(), len(answer), framing)
	})
	hugeDownloads(t, s)
	raw := newRawServer()
	nobody, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		broken("%v", err)
	}
	nowhere := nobody.Addr().String()
	nobody.Close()
	prop(t, "failed", 1600, 16000, func(t *rapid.T, c *Case) {
		cmd := rapid.SampledFrom(downloadCommands).Draw(t, "command")
		how := rapid.SampledFrom([]string{"status", "status", "status", "refused", "untrusted", "silent", "garbage", "redirect", "loop", "invalid", "plain"}).Draw(t, "how")
		url := s.URL + "/ofx"
		answer := drawPayload(t, 20000)
		code := 0
		var opts []func(*exec.Cmd)
		switch how {
		case "status":
			code = rapid.SampledFrom([]int{201, 202, 204, 205, 206, 300, 304, 400, 401, 403, 404, 405, 408, 429, 500, 501, 502, 503, 504, 599}).Draw(t, "status")
			s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
				w.WriteHeader(code)
				if code != 204 && code != 304 {
					w.Write(answer)
				}
			})
		case "refused":
			url = "https://" + nowhere
		case "untrusted":
			s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) { w.Write(answer) })
			opts = append(opts, func(c *exec.Cmd) { c.Env = append(c.Env, "SSL_CERT_FILE=/nonexistent") })
		case "silent", "garbage":
			url = "https://" + raw.addr + "/ofx"
			bad := rapid.SampledFrom([]string{"SSH-2.0-x\r\n\r\n", "HTTP/1.1\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\nabc", "HTTP/1.1 200 OK\r\nContent-Le", "HTTP/1.1 OK 200\r\n\r\n", "<OFX></OFX>\r\n\r\n"}).Draw(t, "bad")
			raw.begin(func(n int, req []byte, w io.Writer) bool {
				if how == "garbage" {
					io.WriteString(w, bad)
				}
				return true
			})
		case "redirect":
			code = rapid.SampledFrom([]int{301, 302, 303, 307, 308}).Draw(t, "status")
			s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
				w.Header().Set("Location", "http://"+plainServer.addr+"/")
				w.WriteHeader(code)
				w.Write(answer)
			})
		case "loop":
			s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
				w.Header().Set("Location", r.RequestURI)
				w.WriteHeader(307)
			})
		case "invalid", "plain":
			s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) { w.Write(answer) })
			if how == "plain" {
				url = "http" + strings.TrimPrefix(url, "https")
			}
		}
		i := drawInvocation(t, cmd, url)
		if how == "invalid" {
			k := rapid.IntRange(0, 2).Draw(t, "invalid")
			switch {
			case k == 0 && i.val("username", "") != "":
				i.flags = append(i.flags, "-username", strings.Repeat("u", 33))
			case k == 1:
				i.flags = append(i.flags, "-appid", "TOOLONG")
			case strings.HasSuffix(cmd, "-bank"):
				i.flags = append(i.flags, "-acctid", "")
			default:
				i.flags = append(i.flags, "-appver", "24000")
			}
		}
		g := drawTarget(t)
		defer os.RemoveAll(g.dir)
		i.flags = append(i.flags, g.args...)
		res := runOfx(t, i.args(), nil, append(opts, inDir(g.dir))...)
		if res.code == 0 {
			t.Fatalf("ofx %q: exit status 0 (%s, status %d)\n%s%s", i.args(), how, code, res.out, res.errOut)
		}
		if u := g.untouched(); u != "" {
			t.Fatalf("ofx %q failed (%s, status %d) but %s\n%s", i.args(), how, code, u, res.out)
		}
		if !saysWhy(res) {
			t.Fatalf("ofx %q: no reason given (%s, status %d): %q %q", i.args(), how, code, res.out, res.errOut)
		}
		if how == "status" && !strings.Contains(res.out+res.errOut, strconv.Itoa(code)) {
			t.Fatalf("ofx %q: the status %d is not reported: %q", i.args(), code, res.out)
		}
		c.NonTrivial(fmt.Sprint(cmd, how, code, g.file))
		c.Label("%s", how)
		c.Label("%s", cmd)
		c.Sample("%q, %s %d: %q", i.args(), how, code, res.out)
	})
	prop(t, "cut-short", 1200, 12000, func(t *rapid.T, c *Case) {
		cmd := rapid.SampledFrom(downloadCommands).Draw(t, "command")
		answer := drawPayload(t, 300000)
		if len(answer) == 0 {
			answer = []byte("x")
		}
		framing := rapid.SampledFrom([]string{"length", "chunked"}).Draw(t, "framing")
		var head, whole string
		if framing == "length" {
			head = fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: application/x-ofx\r\nContent-Length: %d\r\n\r\n", len(answer))
			whole = string(answer)
		} else {
			head = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"
			size := rapid.IntRange(1, 70000).Draw(t, "chunk")
			var b strings.Builder
			for a := answer; len(a) > 0; {
				k := min(size, len(a))
				fmt.Fprintf(&b, "%x\r\n%s\r\n", k, a[:k])
				a = a[k:]
			}
			whole = b.String() // without the last chunk
		}
		cut := rapid.IntRange(0, len(whole)-1).Draw(t, "cut")
		if framing == "chunked" && rapid.IntRange(0, 4).Draw(t, "last") == 4 {
			cut = len(whole)
		}
		raw.begin(func(n int, req []byte, w io.Writer) bool {
			io.WriteString(w, head+whole[:cut])
			return true
		})
		i := drawInvocation(t, cmd, "https://"+raw.addr+"/ofx")
		g := drawTarget(t)
		defer os.RemoveAll(g.dir)
		i.flags = append(i.flags, g.args...)
		res := runOfx(t, i.args(), nil, inDir(g.dir))
		if res.code == 0 || !saysWhy(res) {
			t.Fatalf("ofx %q: exit status %d although the answer was cut after %d of %d bytes (%s)\n%s%s", i.args(), res.code, cut, len(whole), framing, res.out, res.errOut)
		}
		if r := g.rest(); r != "" {
			t.Fatalf("ofx %q: %s", i.args(), r)
		}
		c.NonTrivial(fmt.Sprint(cmd, framing, cut, len(whole)))
		c.Label("%s %s", cmd, framing)
		c.Sample("%q, %s cut after %d of %d: %q", i.args(), framing, cut, len(whole), res.out)
	})
	prop(t, "uncreatable", 600, 6000, func(t *rapid.T, c *Case) {
		cmd := rapid.SampledFrom(downloadCommands).Draw(t, "command")
		answer := append([]byte("OFXHEADER"), drawPayload(t, 100000)...)
		s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) { w.Write(answer) })
		g := drawTarget(t)
		defer os.RemoveAll(g.dir)
		bad := rapid.SampledFrom([]string{"missing/a.ofx", "sub", "other.ofx/a", "", "/dev/full", "/dev/full", "sub/" + strings.Repeat("x", 300), "./"}).Draw(t, "bad")
		i := drawInvocation(t, cmd, s.URL+"/ofx")
		i.flags = append(i.flags, flagArgs(t, "filename", bad)...)
		res := runOfx(t, i.args(), nil, inDir(g.dir))
		if res.code == 0 || !saysWhy(res) {
			t.Fatalf("ofx %q: exit status %d\n%s%s", i.args(), res.code, res.out, res.errOut)
		}
		if u := g.untouched(); u != "" {
			t.Fatalf("ofx %q: %s", i.args(), u)
		}
		c.NonTrivial(cmd + bad + string(answer))
		c.Label("%s %.20q", cmd, bad)
		c.Sample("%q: %q", i.args(), res.out)
	})
}

// saysWhy looks for a message. A download which succeeds prints none, and how
// a failure is worded is not judged.
func saysWhy(r cliResult) bool {
	return strings.TrimSpace(r.out+r.errOut) != ""
}
