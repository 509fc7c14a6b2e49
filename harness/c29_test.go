package harness

import (
	"fmt"
	"io"
	"math/big"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

// A want is something a listing must show next. Spaces and tabs between two of
// them do not matter; everything else does.
type want struct {
	text   string
	any    []string // one of these instead
	amount *big.Rat
	date   *ofxgo.Date
	line   bool // at least one line break
}

func (w want) String() string {
	switch {
	case w.line:
		return "a line break"
	case w.amount != nil:
		return "the amount " + w.amount.RatString()
	case w.date != nil:
		return fmt.Sprintf("the date %v", w.date.Time)
	case w.any != nil:
		return fmt.Sprintf("one of %q", w.any)
	}
	return strconv.Quote(w.text)
}

// wants makes the things a listing must show from their values.
func wants(vs ...any) []want {
	var out []want
	for _, v := range vs {
		switch x := v.(type) {
		case string:
			out = append(out, want{text: x})
		case ofxgo.String:
			out = append(out, want{text: string(x)})
		case ofxgo.Int:
			out = append(out, want{text: strconv.FormatInt(int64(x), 10)})
		case ofxgo.Amount:
			out = append(out, want{amount: new(big.Rat).Set(&x.Rat)})
		case ofxgo.Date:
			out = append(out, want{date: &x})
		case ofxgo.CurrSymbol:
			out = append(out, want{text: x.Unit.String()})
		case want:
			out = append(out, x)
		case []want:
			out = append(out, x...)
		default: // an enumeration
			rv := reflect.ValueOf(v)
			tab := enums[rv.Type().Name()]
			k := rv.Uint()
			if tab == nil || k < 1 || k > uint64(len(tab)) {
				panic(fmt.Sprintf("no name for %T %v", v, k))
			}
			out = append(out, want{text: tab[k-1]})
		}
	}
	return out
}

var newline = want{line: true}

// shows says where a listing departs from what it must show.
func shows(out string, ws []want) string {
	rest := out
	for i, w := range ws {
		fail := func() string {
			return fmt.Sprintf("item %d: expected %s at byte %d: %.120q", i, w, len(out)-len(rest), rest)
		}
		s := strings.TrimLeft(rest, " \t")
		switch {
		case w.line:
			at := len(out) - len(s)
			if s != "" && s[0] != '\n' && at > 0 && strings.TrimRight(out[:at], " \t") != "" && !strings.HasSuffix(strings.TrimRight(out[:at], " \t"), "\n") {
				return fail()
			}
			rest = strings.TrimLeft(s, " \t\n")
		case w.amount != nil:
			k := 0
			for k < len(s) && strings.IndexByte("+-0123456789.", s[k]) >= 0 {
				k++
			}
			r, err := lexAmount(s[:k])
			if err != nil || r.Cmp(w.amount) != 0 {
				return fail()
			}
			rest = s[k:]
		case w.date != nil:
			k := strings.IndexByte(s, ']') + 1
			sc, err := lexDate(s[:k])
			if err != nil || !sc.T.Equal(w.date.Time) {
				return fail()
			}
			if _, off := w.date.Time.Zone(); sc.Off != off {
				return fail()
			}
			rest = s[k:]
		case w.any != nil:
			ok := false
			for _, a := range w.any {
				if strings.HasPrefix(s, a) {
					rest, ok = s[len(a):], true
					break
				}
			}
			if !ok {
				return fail()
			}
		default:
			if !strings.HasPrefix(s, w.text) {
				return fail()
			}
			rest = s[len(w.text):]
		}
	}
	if strings.TrimSpace(rest) != "" {
		return fmt.Sprintf("unexpected output %.200q", rest)
	}
	return ""
}

// transactionWants is how one bank transaction is listed.
func transactionWants(def ofxgo.CurrSymbol, tr *ofxgo.Transaction) []want {
	cur := def
	if tr.Currency != nil {
		cur = tr.Currency.CurSym
	}
	name := tr.Name
	if name == "" && tr.Payee != nil {
		name = tr.Payee.Name
	}
	ws := wants(tr.DtPosted, tr.TrnAmt, cur, tr.TrnType, name)
	if tr.Memo != "" {
		ws = append(ws, wants("-", tr.Memo)...)
	}
	return append(ws, newline)
}

// currencyWant allows for currencies with a rate of zero, which mean nothing.
func currencyWant(def ofxgo.CurrSymbol, c *ofxgo.Currency) want {
	given, fallback := c.CurSym.Unit.String(), def.Unit.String()
	if given == "XXX" {
		return want{text: fallback}
	}
	if c.CurRate.Sign() == 0 {
		return want{any: []string{given, fallback}}
	}
	return want{text: given}
}

// investmentWants is how one investment transaction is listed.
func investmentWants(def ofxgo.CurrSymbol, tr ofxgo.InvTransaction) []want {
	v := reflect.ValueOf(tr)
	kind := strings.ToUpper(v.Type().Name())
	if tran := v.FieldByName("InvTran"); !tran.IsValid() {
		for _, in := range []string{"InvBuy", "InvSell"} {
			if b := v.FieldByName(in); b.IsValid() {
				v = b
			}
		}
	}
	it := v.FieldByName("InvTran").Interface().(ofxgo.InvTran)
	f := func(name string) any { return v.FieldByName(name).Interface() }
	cur := want{text: def.Unit.String()}
	if c := v.FieldByName("Currency"); c.IsValid() {
		x := c.Interface().(ofxgo.Currency)
		cur = currencyWant(def, &x)
	}
	var sec []want
	if s := v.FieldByName("SecID"); s.IsValid() {
		x := s.Interface().(ofxgo.SecurityID)
		sec = wants(x.UniqueIDType, x.UniqueID)
	}
	ws := wants(kind, it.DtTrade)
	switch x := tr.(type) {
	case ofxgo.ClosureOpt:
		ws = append(ws, wants(x.OptAction, x.Units, "contracts (", x.ShPerCtrct, "shares each)")...)
	case ofxgo.Income:
		ws = append(ws, wants(x.IncomeType, x.Total, cur, "(", sec, ")")...)
	case ofxgo.InvExpense, ofxgo.RetOfCap:
		ws = append(ws, wants(f("Total"), cur, "(", sec, ")")...)
	case ofxgo.JrnlFund:
		ws = append(ws, wants(x.Total, cur, "(", x.SubAcctFrom, "->", x.SubAcctTo, ")")...)
	case ofxgo.JrnlSec:
		ws = append(ws, wants(x.Units, sec, "(", x.SubAcctFrom, "->", x.SubAcctTo, ")")...)
	case ofxgo.MarginInterest:
		ws = append(ws, wants(x.Total, cur)...)
	case ofxgo.Split:
		ws = append(ws, wants(x.Numerator, "/", x.Denominator, x.OldUnits, "->", x.NewUnits, "shares of", sec, "(", x.FracCash, cur, "for fractional shares)")...)
	case ofxgo.Transfer:
		ws = append(ws, wants(x.Units, "(", sec, ")", x.TferAction)...)
	default: // the buys, the sells and reinvestments
		ws = append(ws, wants(f("Units"), "(", sec, ")@", f("UnitPrice"), cur, "(Total:", f("Total"), ")")...)
	}
	return append(ws, newline)
}

// C29: listings show every entry and never crash.
func TestC29(t *testing.T) {
	rule("Drawn valid answers with 0 to 3 messages of the kind asked for among others, 0 to 7 entries of all kinds and any optional parts, rendered by the harness and served over TLS; the output must consist of exactly the expected items, with amounts and dates read back by the harness' own lexers and white space between items ignored. Answers with failing signons, error statuses, damaged documents and broken connections must end with a failing status and a reason. Non-trivial when an entry is listed, or a failure reported.")
	assuming("Only the first message of the kind asked for is listed, and an account with several kinds of details counts as the first kind of bank, credit card, investment.")
	netSetup()
	s := newHTTPSServer()
	defer s.Close()
	listing := []string{"get-accounts", "transactions-bank", "transactions-cc", "transactions-inv"}
	draw := func(t *rapid.T, cmd string) (*Gen, *ofxgo.Response, []want, int) {
		g := newGen(t, anyVersion(t), true)
		g.density = min(g.density, 60)
		g.maxList = 2
		g.long = g.n(0, 7) == 7
		r := &ofxgo.Response{}
		setRespVersion(r, g.ver)
		g.fillSignon(r)
		r.Signon.Status = ofxgo.Status{Code: 0, Severity: "INFO"}
		for i, n := 0, g.n(0, 2); i < n; i++ {
			if m := oneOfEach(g); !strings.Contains(map[string]string{"get-accounts": "*ofxgo.AcctInfoResponse", "transactions-bank": "*ofxgo.StatementResponse", "transactions-cc": "*ofxgo.CCStatementResponse", "transactions-inv": "*ofxgo.InvStatementResponse"}[cmd], fmt.Sprintf("%T", m)) {
				putMessage(r, m)
			}
		}
		listed := 0
		var ws []want
		tranList := func() *ofxgo.TransactionList {
			if g.n(0, 5) == 0 {
				return nil
			}
			l := &ofxgo.TransactionList{DtStart: g.date(), DtEnd: g.date()}
			for i, n := 0, g.n(0, 7); i < n; i++ {
				l.Transactions = append(l.Transactions, *g.of(reflect.TypeOf(ofxgo.Transaction{})).Interface().(*ofxgo.Transaction))
			}
			g.grow(reflect.ValueOf(&l.Transactions).Elem())
			return l
		}
		n := rapid.SampledFrom([]int{0, 1, 1, 1, 1, 1, 2, 3}).Draw(t, "messages")
		for i := 0; i < n; i++ {
			switch cmd {
			case "get-accounts":
				m := g.of(reflect.TypeOf(ofxgo.AcctInfoResponse{})).Interface().(*ofxgo.AcctInfoResponse)
				m.AcctInfo = nil
				for k, n := 0, g.n(0, 7); k < n; k++ {
					a := *g.of(reflect.TypeOf(ofxgo.AcctInfo{})).Interface().(*ofxgo.AcctInfo)
					if g.n(0, 3) > 0 { // usually, one kind of details
						b, cc := a.BankAcctInfo, a.CCAcctInfo
						a.BankAcctInfo, a.CCAcctInfo, a.InvAcctInfo = nil, nil, nil
						switch g.n(0, 2) {
						case 0:
							if a.BankAcctInfo = b; b == nil {
								a.BankAcctInfo = g.of(reflect.TypeOf(ofxgo.BankAcctInfo{})).Interface().(*ofxgo.BankAcctInfo)
							}
						case 1:
							if a.CCAcctInfo = cc; cc == nil {
								a.CCAcctInfo = g.of(reflect.TypeOf(ofxgo.CCAcctInfo{})).Interface().(*ofxgo.CCAcctInfo)
							}
						default:
							a.InvAcctInfo = g.of(reflect.TypeOf(ofxgo.InvAcctInfo{})).Interface().(*ofxgo.InvAcctInfo)
						}
					}
					m.AcctInfo = append(m.AcctInfo, a)
				}
				g.grow(reflect.ValueOf(&m.AcctInfo).Elem())
				putMessage(r, m)
				if i > 0 {
					break
				}
				ws = append(ws, wants(newline, "Found the following accounts:", newline)...)
				for _, a := range m.AcctInfo {
					listed++
					switch {
					case a.BankAcctInfo != nil:
						f := a.BankAcctInfo.BankAcctFrom
						ws = append(ws, wants("Bank Account:", newline, "BankID: \"", f.BankID, "\"", newline, "AcctID: \"", f.AcctID, "\"", newline, "AcctType:", f.AcctType, newline)...)
					case a.CCAcctInfo != nil:
						ws = append(ws, wants("Credit card:", newline, "AcctID: \"", a.CCAcctInfo.CCAcctFrom.AcctID, "\"", newline)...)
					case a.InvAcctInfo != nil:
						f := a.InvAcctInfo.InvAcctFrom
						ws = append(ws, wants("Investment account:", newline, "BrokerID: \"", f.BrokerID, "\"", newline, "AcctID: \"", f.AcctID, "\"", newline)...)
					default:
						ws = append(ws, wants("Unknown type:", a.Name, a.Desc, newline)...)
					}
				}
			case "transactions-bank", "transactions-cc":
				var def ofxgo.CurrSymbol
				var l *ofxgo.TransactionList
				var bal ofxgo.Amount
				var at ofxgo.Date
				if cmd == "transactions-bank" {
					m := g.of(reflect.TypeOf(ofxgo.StatementResponse{})).Interface().(*ofxgo.StatementResponse)
					l = tranList()
					m.BankTranList = l
					def, bal, at = m.CurDef, m.BalAmt, m.DtAsOf
					putMessage(r, m)
				} else {
					m := g.of(reflect.TypeOf(ofxgo.CCStatementResponse{})).Interface().(*ofxgo.CCStatementResponse)
					l = tranList()
					m.BankTranList = l
					def, bal, at = m.CurDef, m.BalAmt, m.DtAsOf
					putMessage(r, m)
				}
				if i > 0 {
					break
				}
				ws = append(ws, wants("Balance:", bal, def, "(as of", at, ")", newline, "Transactions:", newline)...)
				if l != nil {
					for k := range l.Transactions {
						listed++
						ws = append(ws, transactionWants(def, &l.Transactions[k])...)
					}
				}
			case "transactions-inv":
				m := g.of(reflect.TypeOf(ofxgo.InvStatementResponse{})).Interface().(*ofxgo.InvStatementResponse)
				m.InvTranList = nil
				if g.n(0, 5) > 0 {
					l := &ofxgo.InvTranList{DtStart: g.date(), DtEnd: g.date()}
					for k, n := 0, g.n(0, 7); k < n; k++ {
						l.InvTransactions = append(l.InvTransactions, g.of(rapid.SampledFrom(invTranTypes).Draw(g.t, "trtype")).Elem().Interface().(ofxgo.InvTransaction))
					}
					for k, n := 0, g.n(0, 2); k < n; k++ {
						b := ofxgo.InvBankTransaction{SubAcctFund: g.of(reflect.TypeOf(ofxgo.InvBankTransaction{})).Interface().(*ofxgo.InvBankTransaction).SubAcctFund}
						for j, o := 0, g.n(1, 3); j < o; j++ {
							b.Transactions = append(b.Transactions, *g.of(reflect.TypeOf(ofxgo.Transaction{})).Interface().(*ofxgo.Transaction))
						}
						g.grow(reflect.ValueOf(&b.Transactions).Elem())
						l.BankTransactions = append(l.BankTransactions, b)
					}
					g.grow(reflect.ValueOf(&l.InvTransactions).Elem())
					m.InvTranList = l
				}
				putMessage(r, m)
				if i > 0 {
					break
				}
				if m.InvBal != nil && m.InvBal.AvailCash.Sign() != 0 {
					ws = append(ws, wants("Balance:", m.InvBal.AvailCash, m.CurDef, "(as of", m.DtAsOf, ")", newline)...)
				}
				if m.InvTranList == nil {
					break
				}
				for k := range m.InvTranList.BankTransactions {
					b := &m.InvTranList.BankTransactions[k]
					ws = append(ws, wants(newline, "Bank Transactions for", b.SubAcctFund, "subaccount:", newline)...)
					for j := range b.Transactions {
						listed++
						ws = append(ws, transactionWants(m.CurDef, &b.Transactions[j])...)
					}
				}
				ws = append(ws, wants(newline, "Investment Transactions:", newline)...)
				for _, x := range m.InvTranList.InvTransactions {
					listed++
					ws = append(ws, investmentWants(m.CurDef, x)...)
				}
			}
		}
		if n == 0 {
			ws = wants("No", map[string]string{"get-accounts": "signup", "transactions-inv": "investment"}[cmd], "messages received", newline)
			if ws[1].text == "" {
				ws[1].text = "banking"
			}
		}
		return g, r, ws, listed
	}
	prop(t, "listed", 6000, 80000, func(t *rapid.T, c *Case) {
		cmd := rapid.SampledFrom(listing).Draw(t, "command")
		g, r, ws, listed := draw(t, cmd)
		doc := drawSurface(t, g.ver).Document(prune(responseNode(r)))
		s.begin(func(n int, w http.ResponseWriter, req *http.Request, body []byte) { io.WriteString(w, doc) })
		i := drawInvocation(t, cmd, s.URL+"/ofx")
		res := runOfx(t, i.args(), nil, i.env())
		if res.code != 0 || res.errOut != "" {
			t.Fatalf("ofx %q: exit status %d\n%s%s\n%s", i.args(), res.code, res.out, res.errOut, doc)
		}
		if d := shows(res.out, ws); d != "" {
			t.Fatalf("ofx %s: %s\n%s\n%s", cmd, d, res.out, doc)
		}
		c.Label("%s", cmd)
		c.Label("%d entries", listed)
		if listed > 0 {
			c.NonTrivial(doc)
			c.Sample("%s: %s", cmd, res.out)
		}
	})
	prop(t, "failures", 1600, 16000, func(t *rapid.T, c *Case) {
		cmd := rapid.SampledFrom(listing).Draw(t, "command")
		g, r, _, _ := draw(t, cmd)
		how := rapid.SampledFrom([]string{"signon", "signon", "status", "cut", "invalid", "unsupported", "empty", "html"}).Draw(t, "how")
		code := 200
		switch how {
		case "signon":
			for r.Signon.Status.Code == 0 {
				g.status(&r.Signon.Status)
			}
			r.Signon.Status.Message = ofxgo.String(rapid.SampledFrom([]string{"", "Signon invalid", "100% wrong", "%s%d<&>"}).Draw(t, "message"))
		case "status":
			code = rapid.SampledFrom([]int{400, 403, 500, 503}).Draw(t, "status")
		case "invalid":
			r.Signon.Language = "ENGLISH"
		}
		root := prune(responseNode(r))
		if how == "unsupported" {
			root.Kids = append(root.Kids, &Node{Name: "FOOMSGSRSV1"})
		}
		doc := drawSurface(t, g.ver).Document(root)
		switch how {
		case "cut":
			end := strings.LastIndex(doc, "</OFX")
			doc = doc[:rapid.IntRange(0, end).Draw(t, "cut")]
		case "empty":
			doc = ""
		case "html":
			doc = "<html><body>down for maintenance</body></html>"
		}
		s.begin(func(n int, w http.ResponseWriter, req *http.Request, body []byte) {
			w.WriteHeader(code)
			io.WriteString(w, doc)
		})
		i := drawInvocation(t, cmd, s.URL+"/ofx")
		res := runOfx(t, i.args(), nil, i.env())
		if res.code == 0 || strings.Contains(res.errOut, "goroutine ") {
			t.Fatalf("ofx %q: exit status %d after %s\n%s%s\n%s", i.args(), res.code, how, res.out, res.errOut, doc)
		}
		said := res.out + res.errOut
		if how == "signon" {
			if !strings.Contains(said, fmt.Sprint(int64(r.Signon.Status.Code))) || !strings.Contains(said, string(r.Signon.Status.Message)) || !strings.Contains(said, statusTab[int64(r.Signon.Status.Code)][0]) {
				t.Fatalf("ofx %s: signon status %d %q reported as %q", cmd, r.Signon.Status.Code, r.Signon.Status.Message, said)
			}
		} else if !saysWhy(res) {
			t.Fatalf("ofx %s: no reason given after %s: %q", cmd, how, said)
		}
		if strings.Contains(said, "Transactions:") || strings.Contains(said, "Found the following") {
			t.Fatalf("ofx %s: lists something after %s\n%s", cmd, how, said)
		}
		c.NonTrivial(how + doc)
		c.Label("%s %s", cmd, how)
		c.Sample("%s, %s: %q", cmd, how, said)
	})
}
