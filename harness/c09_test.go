package harness

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
	"pgregory.net/rapid"
)

func enumOK(v any, name string) bool {
	k := reflect.ValueOf(v).Uint()
	return k >= 1 && k <= uint64(len(enums[name]))
}

func zeroDate(d ofxgo.Date) bool { return d.Time.Equal(time.Time{}) }

func currencyOK(c *ofxgo.Currency) bool {
	return c != nil && c.CurSym.Unit.String() != "XXX" && c.CurRate.Rat.Sign() != 0
}

func statusOK(s *ofxgo.Status) bool {
	e, ok := statusTab[int64(s.Code)]
	return ok && e[1] == string(s.Severity)
}

func bankAcctOK(a *ofxgo.BankAcct) bool {
	return a.BankID != "" && a.AcctID != "" && enumOK(a.AcctType, "acctType")
}

func transactionProblem(x *ofxgo.Transaction, ver int) string {
	var hold = uint64(0)
	for i, n := range enums["trnType"] {
		if n == "HOLD" {
			hold = uint64(i + 1)
		}
	}
	switch {
	case !enumOK(x.TrnType, "trnType"):
		return "transaction type"
	case reflect.ValueOf(x.TrnType).Uint() == hold:
		return "hold among posted transactions"
	case zeroDate(x.DtPosted):
		return "posting date"
	case x.FiTID == "":
		return "transaction FITID"
	case x.CorrectFiTID != "" && !enumOK(x.CorrectAction, "correctAction"):
		return "correction without action"
	case x.Name != "" && x.Payee != nil:
		return "name and payee"
	case x.BankAcctTo != nil && x.CCAcctTo != nil:
		return "two transfer accounts"
	case x.BankAcctTo != nil && !bankAcctOK(x.BankAcctTo):
		return "transfer bank account"
	case x.CCAcctTo != nil && x.CCAcctTo.AcctID == "":
		return "transfer card account"
	case len(x.ImageData) > 0 && ver < v220:
		return "images before 2.2"
	case len(x.ImageData) > 2:
		return "more than two images"
	case currencyOK(x.Currency) && currencyOK(x.OrigCurrency):
		return "two currencies"
	}
	if p := x.Payee; p != nil {
		switch {
		case p.Name == "", p.Addr1 == "", p.City == "", p.State == "", p.PostalCode == "", p.Phone == "":
			return "payee incomplete"
		case p.Country != "" && len(p.Country) != 3:
			return "payee country"
		}
	}
	return ""
}

func pendingProblem(x *ofxgo.PendingTransaction) string {
	switch {
	case !enumOK(x.TrnType, "trnType"):
		return "pending type"
	case zeroDate(x.DtTran):
		return "pending date"
	case x.Name == "":
		return "pending name"
	case currencyOK(&x.Currency) && currencyOK(&x.OrigCurrency):
		return "pending currencies"
	}
	return ""
}

// messageProblem names a rule a response message breaks, or "".
func messageProblem(m ofxgo.Message, ver int) string {
	uid := reflect.ValueOf(m).Elem().FieldByName("TrnUID")
	if uid.IsValid() && (uid.Len() == 0 || uid.Len() > 36) {
		return "transaction id of " + reflect.TypeOf(m).Elem().Name()
	}
	s, ok := m.(*ofxgo.StatementResponse)
	if !ok {
		return ""
	}
	switch {
	case !statusOK(&s.Status):
		return "statement status"
	case s.CurDef.Unit.String() == "XXX":
		return "statement currency"
	case !bankAcctOK(&s.BankAcctFrom):
		return "statement account"
	case zeroDate(s.DtAsOf):
		return "balance date"
	case (s.AvailBalAmt == nil) != (s.AvailDtAsOf == nil):
		return "half an available balance"
	}
	if l := s.BankTranList; l != nil {
		if zeroDate(l.DtStart) || zeroDate(l.DtEnd) {
			return "list dates"
		}
		for i := range l.Transactions {
			if p := transactionProblem(&l.Transactions[i], ver); p != "" {
				return p
			}
		}
	}
	if l := s.BankTranListP; l != nil {
		if ver < v220 {
			return "pending list before 2.2"
		}
		if zeroDate(l.DtAsOf) {
			return "pending list date"
		}
		for i := range l.Transactions {
			if p := pendingProblem(&l.Transactions[i]); p != "" {
				return p
			}
		}
	}
	for _, b := range s.BalList {
		if b.Name == "" || b.Desc == "" || !enumOK(b.BalType, "balType") {
			return "balance"
		}
	}
	return ""
}

func signonProblem(s *ofxgo.SignonResponse) string {
	switch {
	case len(s.Language) != 3:
		return "signon language"
	case !statusOK(&s.Status):
		return "signon status"
	}
	return ""
}

func responseMessages(r *ofxgo.Response) []ofxgo.Message {
	var out []ofxgo.Message
	v := reflect.ValueOf(r).Elem()
	for _, ms := range messageSets {
		l := v.FieldByName(ms.Go)
		for i := 0; i < l.Len(); i++ {
			out = append(out, l.Index(i).Interface().(ofxgo.Message))
		}
	}
	return out
}

func (g *Gen) spoilStatus(s *ofxgo.Status) {
	switch g.n(0, 3) {
	case 0:
		s.Code = ofxgo.Int(rapid.SampledFrom([]int64{2, -1, 2013, 15504, 99999, 2000, 15500, 0}).Draw(g.t, "code"))
	case 1:
		s.Severity = ofxgo.String(rapid.SampledFrom([]string{"INFO", "WARN", "ERROR", "info", "FATAL", "x"}).Draw(g.t, "sev"))
	default:
		g.status(s) // stays consistent
	}
}

func setEnum(p any, v uint64) { reflect.ValueOf(p).Elem().SetUint(v) }

func (g *Gen) spoilAcct(a *ofxgo.BankAcct) {
	switch g.n(0, 3) {
	case 0:
		a.BankID = ""
	case 1:
		a.AcctID = ""
	case 2:
		setEnum(&a.AcctType, 0)
	case 3:
		a.BranchID, a.AcctKey = "", "" // allowed
	}
}

func (g *Gen) spoilTransaction(x *ofxgo.Transaction) {
	cur := func() *ofxgo.Currency {
		c := &ofxgo.Currency{CurSym: g.currency(), CurRate: g.amount()}
		if g.n(0, 3) == 3 {
			c.CurRate = ofxgo.Amount{}
		}
		return c
	}
	typ := func(name string) reflect.Type {
		return map[string]reflect.Type{"payee": reflect.TypeOf(ofxgo.Payee{}), "bank": reflect.TypeOf(ofxgo.BankAcct{}), "cc": reflect.TypeOf(ofxgo.CCAcct{}), "image": reflect.TypeOf(ofxgo.ImageData{})}[name]
	}
	switch g.n(0, 15) {
	case 0:
		setEnum(&x.TrnType, 0)
	case 1:
		x.TrnType = ofxgo.TrnTypeHold
	case 2:
		x.DtPosted = ofxgo.Date{}
	case 3:
		x.FiTID = ""
	case 4:
		x.CorrectFiTID = "c1"
		setEnum(&x.CorrectAction, uint64(g.n(0, 2)))
	case 5:
		x.CorrectFiTID = ""
		setEnum(&x.CorrectAction, uint64(g.n(0, 2)))
	case 6:
		x.Name = "both"
		x.Payee = g.of(typ("payee")).Interface().(*ofxgo.Payee)
		if g.n(0, 2) == 0 {
			x.Name = x.Payee.Name
		}
	case 7, 8:
		x.Name = ""
		x.Payee = g.of(typ("payee")).Interface().(*ofxgo.Payee)
		f := reflect.ValueOf(x.Payee).Elem().FieldByName(rapid.SampledFrom([]string{"Name", "Addr1", "Addr2", "Addr3", "City", "State", "PostalCode", "Country", "Phone"}).Draw(g.t, "payeefield"))
		f.SetString(rapid.SampledFrom([]string{"", "US", "USA", "USAX"}).Draw(g.t, "value"))
	case 9:
		x.BankAcctTo = g.of(typ("bank")).Interface().(*ofxgo.BankAcct)
		x.CCAcctTo = g.of(typ("cc")).Interface().(*ofxgo.CCAcct)
	case 10:
		x.BankAcctTo, x.CCAcctTo = g.of(typ("bank")).Interface().(*ofxgo.BankAcct), nil
		g.spoilAcct(x.BankAcctTo)
	case 11:
		x.BankAcctTo, x.CCAcctTo = nil, g.of(typ("cc")).Interface().(*ofxgo.CCAcct)
		if g.n(0, 1) == 0 {
			x.CCAcctTo.AcctID = ""
		}
	case 12:
		x.ImageData = nil
		for i, k := 0, g.n(0, 4); i < k; i++ {
			x.ImageData = append(x.ImageData, *g.of(typ("image")).Interface().(*ofxgo.ImageData))
		}
	case 13:
		x.Currency, x.OrigCurrency = cur(), cur()
		if g.n(0, 2) == 0 {
			c := *x.Currency
			x.OrigCurrency = &c
		}
	case 14:
		x.Currency, x.OrigCurrency = cur(), nil
	case 15:
		x.Currency, x.OrigCurrency = nil, cur()
	}
}

func (g *Gen) spoilStatement(s *ofxgo.StatementResponse) {
	needTran := func() *ofxgo.Transaction {
		if s.BankTranList == nil {
			s.BankTranList = &ofxgo.TransactionList{DtStart: g.date(), DtEnd: g.date()}
		}
		l := s.BankTranList
		for k := g.n(0, 2); len(l.Transactions) <= k; {
			l.Transactions = append(l.Transactions, *g.of(reflect.TypeOf(ofxgo.Transaction{})).Interface().(*ofxgo.Transaction))
		}
		return &l.Transactions[g.n(0, len(l.Transactions)-1)]
	}
	pending := func() *ofxgo.PendingTransaction {
		if s.BankTranListP == nil {
			s.BankTranListP = &ofxgo.PendingTransactionList{DtAsOf: g.date()}
		}
		l := s.BankTranListP
		for k := g.n(0, 2); len(l.Transactions) <= k; {
			l.Transactions = append(l.Transactions, *g.of(reflect.TypeOf(ofxgo.PendingTransaction{})).Interface().(*ofxgo.PendingTransaction))
		}
		return &l.Transactions[g.n(0, len(l.Transactions)-1)]
	}
	switch k := g.n(0, 25); k {
	case 0:
		g.spoilStatus(&s.Status)
	case 1:
		s.CurDef = ofxgo.CurrSymbol{}
	case 2:
		g.spoilAcct(&s.BankAcctFrom)
	case 3:
		s.DtAsOf = ofxgo.Date{}
	case 4:
		a := g.amount()
		s.AvailBalAmt, s.AvailDtAsOf = &a, nil
	case 5:
		d := g.date()
		s.AvailBalAmt, s.AvailDtAsOf = nil, &d
	case 6:
		s.AvailBalAmt, s.AvailDtAsOf = nil, nil
	case 7:
		needTran()
		s.BankTranList.DtStart = ofxgo.Date{}
	case 8:
		needTran()
		s.BankTranList.DtEnd = ofxgo.Date{}
	case 9:
		pending() // wrong before 2.2
	case 10:
		pending()
		s.BankTranListP.DtAsOf = ofxgo.Date{}
	case 11:
		setEnum(&pending().TrnType, 0)
	case 12:
		pending().TrnType = ofxgo.TrnTypeHold // allowed
	case 13:
		pending().DtTran = ofxgo.Date{}
	case 14:
		pending().Name = ""
	case 15:
		p := pending()
		p.Currency = ofxgo.Currency{CurSym: g.currency(), CurRate: g.amount()}
		p.OrigCurrency = ofxgo.Currency{CurSym: g.currency(), CurRate: g.amount()}
		if g.n(0, 2) == 0 {
			p.OrigCurrency = p.Currency
		}
	case 16:
		b := *g.of(reflect.TypeOf(ofxgo.Balance{})).Interface().(*ofxgo.Balance)
		switch g.n(0, 3) {
		case 0:
			b.Name = ""
		case 1:
			b.Desc = ""
		case 2:
			setEnum(&b.BalType, 0)
		}
		s.BalList = append(s.BalList, b)
	case 17, 18: // a list without transactions is held to the same rules
		s.BankTranListP = &ofxgo.PendingTransactionList{DtAsOf: g.date()}
		if g.n(0, 2) == 0 {
			s.BankTranListP.DtAsOf = ofxgo.Date{}
		}
	case 19:
		s.BankTranList = &ofxgo.TransactionList{DtStart: g.date(), DtEnd: g.date()}
		switch g.n(0, 3) {
		case 0:
			s.BankTranList.DtStart = ofxgo.Date{}
		case 1:
			s.BankTranList.DtEnd = ofxgo.Date{}
		}
	default:
		g.spoilTransaction(needTran())
	}
}

func (g *Gen) spoilResponse(r *ofxgo.Response) {
	msgs := responseMessages(r)
	if len(msgs) == 0 {
		m := g.message(respTypesBySet["Bank"][0])
		r.Bank = append(r.Bank, m)
		msgs = append(msgs, m)
	}
	switch g.n(0, 9) {
	case 0:
		r.Signon.Language = ofxgo.String(rapid.SampledFrom([]string{"", "E", "EN", "ENG", "ENGL", "FRA"}).Draw(g.t, "lang"))
	case 1:
		g.spoilStatus(&r.Signon.Status)
	case 2, 3:
		m := rapid.SampledFrom(msgs).Draw(g.t, "msg")
		if uid := reflect.ValueOf(m).Elem().FieldByName("TrnUID"); uid.IsValid() {
			uid.SetString(strings.Repeat("u", rapid.SampledFrom([]int{0, 1, 35, 36, 37, 60}).Draw(g.t, "len")))
		}
		// statuses other than the signon's and the statement's are the caller's business
	default:
		var st []*ofxgo.StatementResponse
		for _, m := range msgs {
			if s, ok := m.(*ofxgo.StatementResponse); ok {
				st = append(st, s)
			}
		}
		if len(st) == 0 {
			s := g.message(respTypesBySet["Bank"][0]).(*ofxgo.StatementResponse)
			r.Bank = append(r.Bank, s)
			st = append(st, s)
		}
		g.spoilStatement(rapid.SampledFrom(st).Draw(g.t, "statement"))
	}
}

// C09: response validation.
func TestC09(t *testing.T) {
	rule("A valid response gets 0 to 4 drawn changes, each of which may break a rule or stay at its limit; a predicate written from the rules decides for the signon and each message whether it must be reported. Non-trivial when at least one change was made.")
	assuming("Length limits are probed with ASCII text.")
	prop(t, "validate", 9000, 250000, func(t *rapid.T, c *Case) {
		g := newGen(t, anyVersion(t), true)
		if g.density > 60 {
			g.density = 60
		}
		r := g.response()
		n := rapid.IntRange(0, 4).Draw(t, "changes")
		for i := 0; i < n; i++ {
			g.spoilResponse(r)
		}
		var problems []string
		if p := signonProblem(&r.Signon); p != "" {
			problems = append(problems, p)
		}
		for _, m := range responseMessages(r) {
			if p := messageProblem(m, g.ver); p != "" {
				problems = append(problems, p)
			}
		}
		tree := responseNode(r)
		doc := drawSurface(t, g.ver).Document(tree)
		dec, err := ofxgo.DecodeResponse(strings.NewReader(doc))
		if err != nil {
			t.Fatalf("decoding refused a readable document (%v): %v\n%s", problems, err, doc)
		}
		got, err := ofxgo.ParseResponse(strings.NewReader(doc))
		if got == nil {
			t.Fatalf("response with %v not returned: %v\n%s", problems, err, doc)
		}
		if d := diffTrees(tree, responseNode(got)); d != "" {
			t.Fatalf("data of the response with %v changed: %s\n%s", problems, d, doc)
		}
		checkReport(t, got, err, problems, g.ver)
		for _, x := range []*ofxgo.Response{r, dec} {
			ok, verr := x.Valid()
			if ok != (verr == nil) {
				t.Fatalf("Valid returns %v with error %v", ok, verr)
			}
			checkReport(t, x, verr, problems, g.ver)
		}
		b, merr := got.Marshal()
		if len(problems) > 0 && (merr == nil || b != nil) {
			t.Fatalf("response with %v marshalled\n%s", problems, b)
		}
		if len(problems) == 0 && merr != nil {
			t.Fatalf("marshalling a valid response failed: %v", merr)
		}
		for _, p := range problems {
			c.Label("%s", p)
		}
		c.Label("%d offending messages", len(problems))
		if n > 0 {
			c.NonTrivial(doc)
			c.Sample("%v: %v", problems, err)
		}
	})
	prop(t, "one-message", 12000, 200000, func(t *rapid.T, c *Case) {
		// a single small message: many cases of each rule at little cost
		ver := rapid.SampledFrom([]int{v220, v220, v220, v220 - 1, v220 - 1, 0, -1}).Draw(t, "at")
		if ver < 0 {
			ver = anyVersion(t)
		}
		g := newGen(t, ver, true)
		g.big, g.density, g.maxList = false, 20, 1
		r := &ofxgo.Response{}
		setRespVersion(r, g.ver)
		set := rapid.SampledFrom([]string{"Bank", "Bank", "Bank", "CreditCard", "InvStmt"}).Draw(t, "set")
		m := g.message(respTypesBySet[set][0])
		putMessage(r, m)
		for i, k := 0, rapid.IntRange(1, 2).Draw(t, "changes"); i < k; i++ {
			s, ok := m.(*ofxgo.StatementResponse)
			if ok && rapid.IntRange(0, 2).Draw(t, "transaction") > 0 {
				if s.BankTranList == nil {
					s.BankTranList = &ofxgo.TransactionList{DtStart: g.date(), DtEnd: g.date()}
				}
				l := s.BankTranList
				for k := g.n(0, 2); len(l.Transactions) <= k; {
					l.Transactions = append(l.Transactions, *g.of(reflect.TypeOf(ofxgo.Transaction{})).Interface().(*ofxgo.Transaction))
				}
				g.spoilTransaction(&l.Transactions[g.n(0, len(l.Transactions)-1)])
			} else if ok {
				g.spoilStatement(s)
			} else {
				g.spoilResponse(r)
			}
		}
		m = responseMessages(r)[0]
		p := messageProblem(m, g.ver)
		ok, err := m.Valid(r.Version)
		if ok != (p == "") || ok != (err == nil) {
			t.Fatalf("version %s: Valid returns %v, %v; problem: %q\n%s", versionStrings[g.ver], ok, err, p, dump(m))
		}
		c.NonTrivial(dump(m))
		c.Label("%s: %s", set, p)
	})
	prop(t, "many-offending", 400, 8000, func(t *rapid.T, c *Case) {
		// each of many offending messages is reported
		g := newGen(t, anyVersion(t), true)
		g.big, g.density, g.maxList = false, 20, 1
		r := &ofxgo.Response{}
		setRespVersion(r, g.ver)
		g.fill(reflect.ValueOf(&r.Signon).Elem())
		sets := []string{"Bank", "Bank", "CreditCard", "Signup", "SecList", "Prof", "InvStmt"}
		for i, k := 0, rapid.IntRange(5, 60).Draw(t, "messages"); i < k; i++ {
			m := g.message(respTypesBySet[rapid.SampledFrom(sets).Draw(t, "set")][0])
			if rapid.IntRange(0, 3).Draw(t, "spoil") > 0 {
				if s, ok := m.(*ofxgo.StatementResponse); ok && rapid.Bool().Draw(t, "inside") {
					g.spoilStatement(s)
				} else {
					reflect.ValueOf(m).Elem().FieldByName("TrnUID").SetString(strings.Repeat("u", rapid.SampledFrom([]int{0, 37, 38, 40, 80}).Draw(t, "len")))
				}
			}
			putMessage(r, m)
		}
		var problems []string
		if p := signonProblem(&r.Signon); p != "" {
			problems = append(problems, p)
		}
		for _, m := range responseMessages(r) {
			if p := messageProblem(m, g.ver); p != "" {
				problems = append(problems, p)
			}
		}
		_, err := r.Valid()
		checkReport(t, r, err, problems, g.ver)
		if b, err := r.Marshal(); (err == nil) != (len(problems) == 0) || len(problems) > 0 && b != nil {
			t.Fatalf("response with %d problems marshalled with error %v", len(problems), err)
		}
		c.NonTrivial(fmt.Sprint(problems, len(responseMessages(r))))
		c.Label("more than 10 offending messages: %v", len(problems) > 10)
	})
	prop(t, "misplaced", 1500, 20000, func(t *rapid.T, c *Case) {
		// messages outside their set are never marshalled
		g := newGen(t, anyVersion(t), true)
		r := g.response()
		types := respTypesBySet
		if rapid.Bool().Draw(t, "request") {
			types = reqTypesBySet
		}
		var all []reflect.Type
		for _, ms := range messageSets {
			all = append(all, types[ms.Go]...)
		}
		rt := rapid.SampledFrom(all).Draw(t, "type")
		to := rapid.SampledFrom(messageSets).Draw(t, "to").Go
		own := false
		for _, x := range respTypesBySet[to] {
			own = own || x == rt
		}
		l := reflect.ValueOf(r).Elem().FieldByName(to)
		m := g.message(rt)
		l.Set(reflect.Append(l, reflect.ValueOf(m)))
		b, err := r.Marshal()
		if own && err != nil {
			t.Fatalf("%v in %s refused: %v", rt, to, err)
		}
		if !own && (err == nil || b != nil) {
			t.Fatalf("%v in %s marshalled\n%s", rt, to, b)
		}
		c.NonTrivial(fmt.Sprint(rt, to, own))
		c.Label("own=%v", own)
	})
}

// checkReport compares the validation error of a response with the expected
// problems: each offending message must be described, and nothing else.
func checkReport(t *rapid.T, r *ofxgo.Response, err error, problems []string, ver int) {
	if len(problems) == 0 {
		if err != nil {
			t.Fatalf("valid response reported as invalid: %v", err)
		}
		return
	}
	if err == nil {
		t.Fatalf("response with %v reported as valid", problems)
	}
	text := err.Error()
	count := map[string]int{}
	each := func(what, problem string, ok bool, merr error) {
		if ok != (merr == nil) {
			t.Fatalf("%s: Valid returns %v with error %v", what, ok, merr)
		}
		if ok != (problem == "") {
			t.Fatalf("%s: Valid returns %v, %v; problem: %q", what, ok, merr, problem)
		}
		if merr != nil {
			count[merr.Error()]++
		}
	}
	ok, merr := r.Signon.Valid(r.Version)
	each("signon", signonProblem(&r.Signon), ok, merr)
	for _, m := range responseMessages(r) {
		ok, merr := m.Valid(r.Version)
		each(m.Name(), messageProblem(m, ver), ok, merr)
	}
	for e, n := range count {
		if strings.Count(text, e) < n {
			t.Fatalf("error %q occurs %d times in the report, expected %d\n%s", e, strings.Count(text, e), n, text)
		}
	}
}
