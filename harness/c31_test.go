package harness

import (
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

var allCommands = append(append([]string{}, serverCommands...), "detect-settings")

// flagsOf is which flags a command has.
func flagsOf(cmd string) map[string]bool {
	list := "url username password org fid"
	if cmd == "detect-settings" {
		list += " delay"
	} else {
		list += " appid appver ofxversion clientuid noindent carriagereturn useragent dryrun"
	}
	switch {
	case strings.HasPrefix(cmd, "download-"):
		list += " filename"
	}
	switch {
	case strings.HasSuffix(cmd, "-bank"):
		list += " bankid acctid accttype"
	case strings.HasSuffix(cmd, "-cc"):
		list += " acctid"
	case strings.HasSuffix(cmd, "-inv"):
		list += " acctid brokerid"
	}
	m := map[string]bool{}
	for _, f := range strings.Fields(list) {
		m[f] = true
	}
	return m
}

// C31: bad command lines fail cleanly without contacting a server.
func TestC31(t *testing.T) {
	rule("Complete command lines of every command get one or more drawn defects (no or unknown commands, unknown or misplaced flags, missing or malformed values, missing URL or user name, unknown versions and account types, empty file names, no password and no terminal); each must end with a failing status and a message, without a connection to the listening server and without a change in the working directory. Help in all its forms must list every command, or every flag of a command, and succeed. Every case is non-trivial.")
	netSetup()
	s := newHTTPSServer()
	defer s.Close()
	prop(t, "defects", 8000, 80000, func(t *rapid.T, c *Case) {
		cmd := rapid.SampledFrom(allCommands).Draw(t, "command")
		var args []string
		detect := cmd == "detect-settings"
		if detect {
			args = []string{cmd, "-url", s.URL, "-username", "user", "-password", "secret", "-delay", "0"}
		} else {
			i := drawInvocation(t, cmd, s.URL)
			args = i.args()
			if rapid.IntRange(0, 4).Draw(t, "dry") == 0 {
				args = append(args, "-dryrun")
			}
		}
		has := flagsOf(cmd)
		defects := []string{"no-command", "unknown-command", "unknown-flag", "foreign-flag", "no-value", "bad-value", "no-url", "no-url", "no-username", "no-username", "no-password"}
		if !detect {
			defects = append(defects, "version", "version", "version")
		}
		if has["accttype"] {
			defects = append(defects, "accttype", "accttype", "accttype")
		}
		if has["filename"] {
			defects = append(defects, "filename", "filename", "filename")
		}
		var done []string
		last := ""
		insert := func(extra ...string) { args = append(args[:1:1], append(extra, args[1:]...)...) }
		for k, n := 0, rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "defects"); k < n; k++ {
			d := rapid.SampledFrom(defects).Draw(t, "defect")
			done = append(done, d)
			switch d {
			case "no-command":
				args = nil
			case "unknown-command":
				bad := rapid.SampledFrom([]string{"", "get-account", "GET-ACCOUNTS", "download", "downloadbank", "-url", "transactions", "detect", "ofx", "--version", "-hh", "h", "version", "get-accounts ", "-", "--", "Help", "/h", "-help=true"}).Draw(t, "name")
				args = append([]string{bad}, args...)
			case "unknown-flag":
				insert(rapid.SampledFrom([]string{"-nosuch", "--Url", "-user", "-pass=x", "--no-indent", "-DRYRUN", "-x", "---url", "-=", "-url-", "--fi", "-noindents"}).Draw(t, "flag"))
			case "foreign-flag":
				var foreign []string
				for _, f := range []string{"filename", "bankid", "acctid", "accttype", "brokerid", "delay", "dryrun", "noindent", "appid", "ofxversion"} {
					if !has[f] {
						foreign = append(foreign, f)
					}
				}
				insert("-" + rapid.SampledFrom(foreign).Draw(t, "flag") + "=1")
			case "no-value":
				last = rapid.SampledFrom([]string{"-url", "--username", "-password", "-fid", "--org"}).Draw(t, "flag")
			case "bad-value":
				if detect {
					insert("-delay=" + rapid.SampledFrom([]string{"", "x", "-1", "1.5", "1s"}).Draw(t, "value"))
				} else {
					insert("-" + rapid.SampledFrom([]string{"noindent", "carriagereturn", "dryrun"}).Draw(t, "flag") + "=" + rapid.SampledFrom([]string{"", "maybe", "2", "yes", "N"}).Draw(t, "value"))
				}
			case "no-url":
				args = without(args, "url", rapid.Bool().Draw(t, "empty"))
			case "no-username":
				if cmd == "download-profile" {
					args = without(args, "url", false)
				} else {
					args = without(args, "username", rapid.Bool().Draw(t, "empty"))
				}
			case "no-password":
				args = without(args, "password", rapid.Bool().Draw(t, "empty"))
				if cmd == "download-profile" && len(args) > 0 { // which doesn't need one without a user
					args = append(without(args, "username", false), "-username", "user")
				}
			case "version":
				args = append(args, flagArgs(t, "ofxversion", rapid.SampledFrom([]string{"", "100", "101", "104", "150", "204", "212", "221", "300", "2", "1.0.2", "OFX102", "v203", "203x", "-203", "0", "abc"}).Draw(t, "value"))...)
			case "accttype":
				args = append(args, flagArgs(t, "accttype", rapid.SampledFrom([]string{"", "CHECK", "CHECKINGS", "CREDIT CARD", "INVESTMENT", "1", "N", "CHECKING SAVINGS", "CREDITCARD", "ACCTTYPE"}).Draw(t, "value"))...)
			case "filename":
				args = append(args, flagArgs(t, "filename", "")...)
			}
			if len(args) == 0 {
				break
			}
		}
		if last != "" {
			args = append(args, last)
		}
		s.begin(func(n int, w http.ResponseWriter, r *http.Request, body []byte) {
			io.WriteString(w, sgmlHead+signonBlock+"</OFX>")
		})
		g := drawTarget(t)
		defer os.RemoveAll(g.dir)
		opened := s.connections()
		res := runOfx(t, args, nil, inDir(g.dir))
		if res.code == 0 {
			t.Fatalf("ofx %q (%v): exit status 0\n%s%s", args, done, res.out, res.errOut)
		}
		if s.connections() != opened || len(s.received()) > 0 {
			t.Fatalf("ofx %q (%v) contacted the server\n%s%s", args, done, res.out, res.errOut)
		}
		if u := g.untouched(); u != "" {
			t.Fatalf("ofx %q (%v): %s", args, done, u)
		}
		if said := res.out + res.errOut; strings.TrimSpace(said) == "" || strings.Contains(said, "goroutine ") {
			t.Fatalf("ofx %q (%v) said %q", args, done, said)
		}
		c.NonTrivial(strings.Join(args, "\x00"))
		c.Label("%s", strings.Join(done, "+"))
		c.Sample("%q: %.120q", args, res.out+res.errOut)
	})
	helps := []string{"-h", "-help", "--help", "help"}
	forms := []string{"-h", "-help", "--help", "--h"}
	each(t, "help", len(helps)+len(allCommands)*len(forms), func(t *testing.T, k int, c *Case) {
		s.begin(nil)
		opened := s.connections()
		var args []string
		var must []string
		if k < len(helps) {
			args, must = []string{helps[k]}, allCommands
		} else {
			k -= len(helps)
			cmd := allCommands[k/len(forms)]
			args = []string{cmd, forms[k%len(forms)]}
			for f := range flagsOf(cmd) {
				must = append(must, "-"+f)
			}
		}
		res := runOfx(t, args, nil)
		if res.code != 0 {
			t.Fatalf("ofx %q: exit status %d\n%s%s", args, res.code, res.out, res.errOut)
		}
		for _, m := range must {
			if !strings.Contains(res.out+res.errOut, m) {
				t.Fatalf("ofx %q does not list %s\n%s%s", args, m, res.out, res.errOut)
			}
		}
		if s.connections() != opened {
			t.Fatalf("ofx %q contacted the server", args)
		}
		c.NonTrivial(fmt.Sprint(args))
		c.Label("%d", len(must))
	})
	each(t, "no-command-lists", 12, func(t *testing.T, k int, c *Case) {
		// usage accompanies a missing or unknown command
		args := []string{}
		if k > 0 {
			args = []string{[]string{"x", "get-account", "Help", "", "-url", "downloads", "--", "-", "detect", "HELP", "\n"}[k-1]}
		}
		res := runOfx(t, args, nil)
		if res.code == 0 {
			t.Fatalf("ofx %q: exit status 0", args)
		}
		for _, m := range allCommands {
			if !strings.Contains(res.out+res.errOut, m) {
				t.Fatalf("ofx %q does not list %s\n%s%s", args, m, res.out, res.errOut)
			}
		}
		c.NonTrivial(fmt.Sprint(args))
	})
}

// without takes a flag out of a command line, or empties it.
func without(args []string, name string, empty bool) []string {
	var out []string
	for k := 0; k < len(args); k++ {
		bare := strings.TrimPrefix(strings.TrimPrefix(args[k], "-"), "-")
		flag := strings.HasPrefix(args[k], "-") && k > 0
		if flag && bare == name {
			k++
			continue
		}
		if flag && strings.HasPrefix(bare, name+"=") {
			continue
		}
		out = append(out, args[k])
		// the value of another flag goes along with it
		if flag && !strings.Contains(bare, "=") && k+1 < len(args) && !boolFlags[bare] {
			k++
			out = append(out, args[k])
		}
	}
	if empty && len(out) > 0 {
		out = append(out, "-"+name, "")
	}
	return out
}

var boolFlags = map[string]bool{"noindent": true, "carriagereturn": true, "dryrun": true}
