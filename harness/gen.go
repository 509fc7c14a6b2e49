package harness

import (
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"
	_ "time/tzdata" // the zones' rules

	"github.com/aclindsa/ofxgo"
	"golang.org/x/text/currency"
	"pgregory.net/rapid"
)

// Gen generates library values from the reference schema. All random choices
// are rapid draws.
type Gen struct {
	t       *rapid.T
	ver     int  // index into versionStrings
	valid   bool // respect the library's documented validation rules
	density int  // percentage of optional fields present
	maxList int
	ascii   bool
	plain   bool // simple strings only (CLI tests)

	big  bool // one list may still become a long one
	long bool // one text may still become a long one

	// values drawn before, some of which are drawn again
	strs    []string
	rats    []*big.Rat
	dates   []ofxgo.Date
	symbols []ofxgo.CurrSymbol
}

// again sometimes picks one of n earlier values, otherwise it returns -1.
func (g *Gen) again(n int) int {
	if n == 0 || g.n(0, 11) < 11 {
		return -1
	}
	return g.n(0, n-1)
}

func newGen(t *rapid.T, ver int, valid bool) *Gen {
	d := rapid.SampledFrom([]int{10, 35, 60, 90, 100}).Draw(t, "density")
	m := 3
	if d >= 90 {
		m = 2
	}
	g := &Gen{t: t, ver: ver, valid: valid, density: d, maxList: m}
	g.big = g.n(0, 39) == 39
	g.long = g.n(0, 39) == 39
	return g
}

// grow sometimes makes a long list of a drawn one, by repeating its entries
// with other identifiers. It does so once in a document at most.
func (g *Gen) grow(list reflect.Value) {
	if !g.big || list.Len() == 0 || g.n(0, 1) == 0 {
		return
	}
	g.big = false
	k := list.Len()
	for i, n := k, rapid.SampledFrom([]int{17, 40, 101, 257}).Draw(g.t, "long"); i < n; i++ {
		e := reflect.New(list.Type().Elem()).Elem()
		e.Set(list.Index(i % k))
		in := e
		if e.Kind() == reflect.Interface {
			v := e.Elem()
			if v.Kind() == reflect.Ptr {
				p := reflect.New(v.Elem().Type())
				p.Elem().Set(v.Elem())
				stamp(p.Elem(), i)
				e.Set(p)
				list.Set(reflect.Append(list, e))
				continue
			}
			in = reflect.New(v.Type()).Elem()
			in.Set(v)
		}
		stamp(in, i)
		e.Set(in)
		list.Set(reflect.Append(list, e))
	}
}

// stamp sets the first text in v to the number i.
func stamp(v reflect.Value, i int) bool {
	switch v.Type() {
	case reflect.TypeOf(ofxgo.String("")), reflect.TypeOf(ofxgo.UID("")):
		v.SetString(strconv.Itoa(i))
		return true
	}
	if v.Kind() == reflect.Struct && schema[v.Type().Name()] != nil {
		for _, fs := range schema[v.Type().Name()].Fields {
			if stamp(v.FieldByName(fs.Go), i) {
				return true
			}
		}
	}
	return false
}

func (g *Gen) n(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(g.t, "n") }
func (g *Gen) chance(pct int) bool {
	// small draws mean "no", so that shrinking drops optional content
	return rapid.IntRange(0, 99).Draw(g.t, "p") >= 100-pct
}

const safeChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
const punct = "-_./:;,+*#@!?()[]{}=%$^~|`\\ "

var trickyStrings = []string{
	"a<b", "a>b", "R&D", "&amp;", "&lt;x&gt;", `say "hi"`, "it's", "]]>", "<!-- -->", "a  b", "a\tb", "a\nb", "x\r\ny",
	"<MEMO>", "</OFX>", "&#65;", "100%", "%s%d", "\\n", "N", "Y", "0", "-1", "1,5", "é", "日本語", "Ünïcödé", "\u00a0x\u00a0y",
	"emoji \U0001F600", "&nbsp;", "OFXHEADER:100", "OFXHEADER=", "null", "<?xml?>", "a]b[c", "[0:GMT]", "20200101", "&", "<", ">", "'", "\"",
	"/", "a=b", "\ufb01", "\u2028", "e\u0301", "x\u200by", "\ue000", "\ufffd", "<![CDATA[x]]>",
}

// fragments are what odd texts are put together from.
var fragments = []string{
	"\n", "\r\n", "\r", "\t", " ", "  ", "<", ">", "</", "/>", "&", ";", "&amp;", "&lt;", "&#10;", "#", "\"", "'", "=", "/", "\\", "%", "+", "-", ",", ".", ":", "|", "[", "]", "]]>", "<!", "<?", "?>", "--",
	"<MEMO>", "</MEMO>", "<NAME>", "</STMTTRN>", "</OFX>", "<OFX>", "OFXHEADER:100", "a", "b", "X", "word", "0", "1", "42", "é", "ß", "\u00a0", "\u0085", "\ufeff", "語", "\U0001F600",
}

// str generates a string of lo..hi bytes with no surrounding whitespace.
func (g *Gen) str(lo, hi int) string {
	if hi <= 0 {
		return ""
	}
	if i := g.again(len(g.strs)); i >= 0 && len(g.strs[i]) >= lo && len(g.strs[i]) <= hi {
		return g.strs[i]
	}
	s := g.newStr(lo, hi)
	g.strs = append(g.strs, s)
	return s
}

// longStr is a text of up to about 2^bits bytes without any period.
func (g *Gen) longStr(bits int) string {
	unit := g.newStr(1, 60)
	var b strings.Builder
	for i, n := 0, 200<<g.n(0, bits-8)+g.n(0, 200); b.Len() < n; i++ {
		b.WriteString(unit)
		b.WriteString(strconv.Itoa(i))
	}
	return b.String()
}

func (g *Gen) newStr(lo, hi int) string {
	for try := 0; ; try++ {
		s := g.rawStr(hi)
		s = strings.TrimSpace(s)
		for len(s) > hi {
			r := []rune(s)
			s = strings.TrimSpace(string(r[:len(r)-1]))
		}
		for len(s) < lo {
			s += safeChars[g.n(0, len(safeChars)-1):][:1]
		}
		if strings.TrimSpace(s) == s {
			return s
		}
	}
}

func (g *Gen) rawStr(hi int) string {
	if g.plain {
		k := min(hi, 12)
		var b strings.Builder
		for i, l := 0, g.n(1, k); i < l; i++ {
			b.WriteByte(safeChars[g.n(0, len(safeChars)-1)])
		}
		return b.String()
	}
	switch k := g.n(0, 10); {
	case k == 10 && !g.ascii: // bits and pieces
		var b strings.Builder
		for i, l := 0, g.n(1, 6); i < l; i++ {
			b.WriteString(rapid.SampledFrom(fragments).Draw(g.t, "fragment"))
		}
		return b.String()
	case k <= 5 || (g.ascii && k <= 7):
		var b strings.Builder
		for i, l := 0, g.n(0, min(hi, 10)); i < l; i++ {
			b.WriteByte(safeChars[g.n(0, len(safeChars)-1)])
		}
		return b.String()
	case k == 6:
		var b strings.Builder
		cs := safeChars + punct + "<>&\"'"
		for i, l := 0, g.n(0, min(hi, 20)); i < l; i++ {
			b.WriteByte(cs[g.n(0, len(cs)-1)])
		}
		return b.String()
	case k <= 8:
		if g.ascii {
			return "R&D <x>"
		}
		return rapid.SampledFrom(trickyStrings).Draw(g.t, "tricky")
	default:
		if g.ascii {
			return "x"
		}
		var b strings.Builder
		for i, l := 0, g.n(0, 8); i < l; i++ {
			var r rune
			switch g.n(0, 3) {
			case 0:
				r = rune(g.n(0x20, 0x7e))
			case 1:
				r = rune(g.n(0xa0, 0x24f))
			case 2:
				r = rune(g.n(0x370, 0xd7ff))
			default:
				r = rune(g.n(0x10000, 0x1ffff))
			}
			b.WriteRune(r)
		}
		if g.n(0, 9) == 9 && hi > 60 {
			return strings.Repeat(b.String()+"x", g.n(1, 200))
		}
		return b.String()
	}
}

func (g *Gen) amount() ofxgo.Amount {
	var a ofxgo.Amount
	if i := g.again(len(g.rats)); i >= 0 {
		a.Rat.Set(g.rats[i])
		return a
	}
	r := g.rat()
	g.rats = append(g.rats, r)
	a.Rat.Set(r)
	return a
}

func (g *Gen) digits(lo, hi int) string {
	var b strings.Builder
	for i, l := 0, g.n(lo, hi); i < l; i++ {
		b.WriteByte(byte('0' + g.n(0, 9)))
	}
	return b.String()
}

// rat generates an exact decimal with at most 100 fraction digits.
func (g *Gen) rat() *big.Rat {
	var s string
	switch k := g.n(0, 19); {
	case k == 0:
		s = "0"
	case k <= 9:
		s = g.digits(1, 6) + "." + g.digits(2, 2)
	case k <= 13:
		s = g.digits(1, 9)
	case k <= 17:
		s = g.digits(0, 12) + "." + g.digits(0, 10) + "1"
	case k == 18:
		s = g.digits(1, 40) + "." + g.digits(10, 99) + "7"
	default:
		s = g.digits(1, 5) + "00000"
	}
	if strings.HasPrefix(s, ".") {
		s = "0" + s
	}
	if g.n(0, 2) == 2 {
		s = "-" + s
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("bad rat " + s)
	}
	return r
}

// date generates a date with millisecond precision and a whole-minute zone.
func (g *Gen) date() ofxgo.Date {
	if i := g.again(len(g.dates)); i >= 0 {
		return g.dates[i]
	}
	d := g.newDate()
	g.dates = append(g.dates, d)
	return d
}

func (g *Gen) newDate() ofxgo.Date {
	y := g.n(1900, 2100)
	if g.n(0, 19) == 19 {
		y = g.n(2, 9998)
	}
	mo, d := g.n(1, 12), g.n(1, 31)
	h, mi, s, ms := 0, 0, 0, 0
	switch g.n(0, 4) {
	case 1:
		h = g.n(0, 23)
	case 2:
		h, mi = g.n(0, 23), g.n(0, 59)
	case 3:
		h, mi, s = g.n(0, 23), g.n(0, 59), g.n(0, 59)
	case 4:
		h, mi, s, ms = g.n(0, 23), g.n(0, 59), g.n(0, 59), g.n(0, 999)
	}
	return ofxgo.Date{Time: time.Date(y, time.Month(mo), d, h, mi, s, ms*1000000, g.zone())}
}

var zoneNames = []string{"GMT", "EST", "EDT", "CST", "PST", "MST", "CET", "CEST", "JST", "IST", "AEST", "NZDT", "UTC", "BST", "AKST"}

// places are time zones with different offsets over the year and the years.
var places = func() (ls []*time.Location) {
	for _, name := range []string{"America/New_York", "Europe/London", "Australia/Lord_Howe", "Asia/Kolkata", "America/St_Johns", "Pacific/Apia", "Africa/Casablanca", "Antarctica/Troll"} {
		l, err := time.LoadLocation(name)
		if err != nil {
			panic(err)
		}
		ls = append(ls, l)
	}
	return
}()

func (g *Gen) zone() *time.Location {
	switch k := g.n(0, 9); {
	case k <= 2:
		return time.FixedZone("GMT", 0)
	case k <= 5:
		return time.FixedZone(rapid.SampledFrom(zoneNames).Draw(g.t, "zn"), g.n(-12, 14)*3600)
	case k <= 7:
		// fractional hour zones
		return time.FixedZone(rapid.SampledFrom(zoneNames).Draw(g.t, "zn"), g.n(-12*60+1, 14*60-1)*60)
	default:
		return time.FixedZone("", g.n(-12, 14)*3600)
	}
}

func (g *Gen) currency() ofxgo.CurrSymbol {
	if i := g.again(len(g.symbols)); i >= 0 {
		return g.symbols[i]
	}
	c := g.newCurrency()
	g.symbols = append(g.symbols, c)
	return c
}

func (g *Gen) newCurrency() ofxgo.CurrSymbol {
	c := rapid.SampledFrom(currencies).Draw(g.t, "cur")
	if c == "XXX" {
		c = "USD"
	}
	return ofxgo.CurrSymbol{Unit: currency.MustParseISO(c)}
}

func (g *Gen) uid() string {
	if g.n(0, 3) == 3 {
		return fmt.Sprintf("%08x-%04x-%04x-%04x-%012x", g.n(0, 1<<30), g.n(0, 0xffff), g.n(0, 0xffff), g.n(0, 0xffff), g.n(0, 1<<40))
	}
	return g.str(1, 36)
}

func (g *Gen) integer() int64 {
	switch g.n(0, 5) {
	case 0:
		return 0
	case 5:
		return rapid.Int64().Draw(g.t, "i64")
	}
	return int64(g.n(-50, 100000))
}

// optional string-like fields that must be empty or have a given length
var lenRules = map[string][2]int{
	"SignonRequest.UserID": {1, 32}, "SignonRequest.UserPass": {1, 32}, "SignonRequest.UserKey": {1, 64},
	"SignonRequest.Language": {3, 3}, "SignonRequest.AppID": {1, 5}, "SignonRequest.AppVer": {1, 4},
	"SignonResponse.Language": {3, 3}, "Payee.Country": {3, 3},
}

// fields that may not be empty in valid mode
var nonEmpty = map[string]bool{
	"BankAcct.BankID": true, "BankAcct.AcctID": true, "CCAcct.AcctID": true, "Payee.Name": true, "Payee.Addr1": true,
	"Payee.City": true, "Payee.State": true, "Payee.PostalCode": true, "Payee.Phone": true, "Transaction.FiTID": true,
	"PendingTransaction.Name": true, "Balance.Name": true, "Balance.Desc": true,
}

func (g *Gen) scalar(fs *FieldSpec, owner string, rv reflect.Value) {
	key := owner + "." + fs.Go
	switch fs.Kind {
	case KString:
		lo, hi := 0, 255
		if r, ok := lenRules[key]; ok && g.valid {
			lo, hi = r[0], r[1]
		} else if nonEmpty[key] && g.valid || fs.Opt {
			lo = 1
		}
		if hi == 255 && g.long && g.n(0, 7) == 7 {
			g.long = false
			rv.SetString(g.longStr(17))
			return
		}
		rv.SetString(g.str(lo, hi))
	case KUID:
		rv.SetString(g.uid())
	case KInt:
		rv.SetInt(g.integer())
	case KAmount:
		rv.Set(reflect.ValueOf(g.amount()))
	case KDate:
		rv.Set(reflect.ValueOf(g.date()))
	case KBool:
		rv.SetBool(g.n(0, 1) == 1)
	case KCurr:
		rv.Set(reflect.ValueOf(g.currency()))
	case KEnum:
		rv.SetUint(uint64(g.n(1, len(enums[fs.Base]))))
	default:
		panic("not scalar")
	}
}

// fill generates a struct value of the given type.
func (g *Gen) fill(v reflect.Value) {
	ts := schema[v.Type().Name()]
	if ts == nil {
		panic("no schema for " + v.Type().Name())
	}
	for _, fs := range ts.Fields {
		fv := v.FieldByName(fs.Go)
		elem := func(ev reflect.Value) {
			switch fs.Kind {
			case KStruct:
				g.fill(ev)
			case KSpecial:
				g.special(ev)
			default:
				g.scalar(fs, ts.Name, ev)
			}
		}
		if fs.Slice {
			lim := g.maxList
			if fs.Base == "ImageData" && g.valid {
				lim = 2
				if g.ver < v220 {
					lim = 0
				}
			}
			k := 0
			if lim > 0 {
				k = g.n(0, lim)
			}
			for i := 0; i < k; i++ {
				e := reflect.New(fv.Type().Elem()).Elem()
				if j := g.again(i); j >= 0 {
					e = fv.Index(j)
				} else {
					elem(e)
				}
				fv.Set(reflect.Append(fv, e))
			}
			if fs.Base != "ImageData" || !g.valid {
				g.grow(fv)
			}
			continue
		}
		if fs.Opt && !g.chance(g.density) {
			continue
		}
		if fs.Ptr {
			p := reflect.New(fv.Type().Elem())
			elem(p.Elem())
			fv.Set(p)
		} else {
			elem(fv)
		}
	}
	if g.valid {
		g.fixup(v)
	}
}

func (g *Gen) status(s *ofxgo.Status) {
	code := rapid.SampledFrom(statusList).Draw(g.t, "code")
	s.Code = ofxgo.Int(code)
	s.Severity = ofxgo.String(statusTab[code][1])
}

// fixup makes a generated aggregate satisfy the validation rules.
func (g *Gen) fixup(v reflect.Value) {
	switch p := v.Addr().Interface().(type) {
	case *ofxgo.Status:
		g.status(p)
	case *ofxgo.Transaction:
		for p.TrnType == ofxgo.TrnTypeHold {
			p.TrnType = ofxgo.TrnTypeOther
		}
		if p.CorrectFiTID != "" && !p.CorrectAction.Valid() {
			p.CorrectAction = ofxgo.CorrectActionReplace
		}
		if p.Name != "" && p.Payee != nil {
			if g.n(0, 1) == 0 {
				p.Payee = nil
			} else {
				p.Name = ""
			}
		}
		if p.BankAcctTo != nil && p.CCAcctTo != nil {
			if g.n(0, 1) == 0 {
				p.CCAcctTo = nil
			} else {
				p.BankAcctTo = nil
			}
		}
		if p.Currency != nil && p.OrigCurrency != nil {
			if g.n(0, 1) == 0 {
				p.OrigCurrency = nil
			} else {
				p.Currency = nil
			}
		}
	case *ofxgo.PendingTransaction:
		if p.Name == "" {
			p.Name = "x"
		}
		g.oneCurrency(&p.Currency, &p.OrigCurrency)
	case *ofxgo.StatementResponse:
		if (p.AvailBalAmt == nil) != (p.AvailDtAsOf == nil) {
			a, d := g.amount(), g.date()
			p.AvailBalAmt, p.AvailDtAsOf = &a, &d
		}
		if g.ver < v220 {
			p.BankTranListP = nil
		}
	case *ofxgo.StatementRequest:
		if g.ver < v220 {
			p.IncludePending = false
		}
		if g.ver < v210 {
			p.IncTranImg = false
		}
	case *ofxgo.CCStatementRequest:
		if g.ver < v220 {
			p.IncludePending = false
		}
		if g.ver < v210 {
			p.IncTranImg = false
		}
	case *ofxgo.SignonRequest:
		if p.UserPass == "" && p.UserKey == "" {
			p.UserPass = ofxgo.String(g.str(1, 32))
		} else if p.UserPass != "" && p.UserKey != "" {
			if g.n(0, 1) == 0 {
				p.UserKey = ""
			} else {
				p.UserPass = ""
			}
		}
	case *ofxgo.ProfileRequest:
		p.ClientRouting = "NONE"
	}
}

func (g *Gen) oneCurrency(a, b *ofxgo.Currency) {
	if ok1, ok2 := a.CurSym.Unit.String() != "XXX", b.CurSym.Unit.String() != "XXX"; ok1 && ok2 {
		if g.n(0, 1) == 0 {
			*a = ofxgo.Currency{}
		} else {
			*b = ofxgo.Currency{}
		}
	}
}

func (g *Gen) of(rt reflect.Type) reflect.Value {
	p := reflect.New(rt)
	g.fill(p.Elem())
	return p
}

func (g *Gen) special(v reflect.Value) {
	switch p := v.Addr().Interface().(type) {
	case *ofxgo.InvTranList:
		p.DtStart, p.DtEnd = g.date(), g.date()
		for i, k := 0, g.n(0, g.maxList+2); i < k; i++ {
			if j := g.again(i); j >= 0 {
				p.InvTransactions = append(p.InvTransactions, p.InvTransactions[j])
				continue
			}
			t := g.of(rapid.SampledFrom(invTranTypes).Draw(g.t, "trtype")).Elem().Interface()
			p.InvTransactions = append(p.InvTransactions, t.(ofxgo.InvTransaction))
		}
		g.grow(reflect.ValueOf(&p.InvTransactions).Elem())
		for i, k := 0, g.n(0, 2); i < k; i++ {
			if j := g.again(i); j >= 0 {
				p.BankTransactions = append(p.BankTransactions, p.BankTransactions[j])
				continue
			}
			t := g.of(reflect.TypeOf(ofxgo.InvBankTransaction{})).Elem().Interface()
			p.BankTransactions = append(p.BankTransactions, t.(ofxgo.InvBankTransaction))
		}
		g.grow(reflect.ValueOf(&p.BankTransactions).Elem())
	case *ofxgo.PositionList:
		for i, k := 0, g.n(0, g.maxList+1); i < k; i++ {
			if j := g.again(i); j >= 0 {
				*p = append(*p, (*p)[j])
				continue
			}
			t := g.of(rapid.SampledFrom(positionTypes).Draw(g.t, "postype")).Elem().Interface()
			*p = append(*p, t.(ofxgo.Position))
		}
		g.grow(reflect.ValueOf(p).Elem())
	case *ofxgo.OOList:
		for i, k := 0, g.n(0, g.maxList+1); i < k; i++ {
			if j := g.again(i); j >= 0 {
				*p = append(*p, (*p)[j])
				continue
			}
			t := g.of(rapid.SampledFrom(ooTypes).Draw(g.t, "ootype")).Elem().Interface()
			*p = append(*p, t.(ofxgo.OpenOrder))
		}
		g.grow(reflect.ValueOf(p).Elem())
	case *ofxgo.MessageSetList:
		for i, k := 0, g.n(0, g.maxList+1); i < k; i++ {
			m := g.of(reflect.TypeOf(ofxgo.MessageSet{})).Interface().(*ofxgo.MessageSet)
			m.Name = rapid.SampledFrom(profMsgSets).Draw(g.t, "mset") + "V1"
			*p = append(*p, *m)
		}
		g.grow(reflect.ValueOf(p).Elem())
	default:
		panic("unknown special")
	}
}

func (g *Gen) securityList() *ofxgo.SecurityList {
	l := &ofxgo.SecurityList{}
	for i, k := 0, g.n(0, g.maxList+2); i < k; i++ {
		if j := g.again(i); j >= 0 {
			l.Securities = append(l.Securities, l.Securities[j])
			continue
		}
		s := g.of(rapid.SampledFrom(securityTypes).Draw(g.t, "sectype")).Elem().Interface()
		l.Securities = append(l.Securities, s.(ofxgo.Security))
	}
	g.grow(reflect.ValueOf(&l.Securities).Elem())
	return l
}

func (g *Gen) message(rt reflect.Type) ofxgo.Message {
	if rt.Name() == "SecurityList" {
		return g.securityList()
	}
	return g.of(rt).Interface().(ofxgo.Message)
}

// messages fills the message sets of a request or response.
func (g *Gen) messages(v reflect.Value, types map[string][]reflect.Type) {
	var all []struct {
		set string
		rt  reflect.Type
	}
	for _, ms := range messageSets {
		for _, rt := range types[ms.Go] {
			all = append(all, struct {
				set string
				rt  reflect.Type
			}{ms.Go, rt})
		}
	}
	for i, k := 0, g.n(0, 3); i < k; i++ {
		c := all[g.n(0, len(all)-1)]
		l := v.FieldByName(c.set)
		if j := g.again(l.Len()); j >= 0 { // the same message once more
			old := l.Index(j).Elem().Elem()
			p := reflect.New(old.Type())
			p.Elem().Set(old)
			l.Set(reflect.Append(l, p))
			continue
		}
		m := g.message(c.rt)
		l.Set(reflect.Append(l, reflect.ValueOf(m)))
	}
	for _, ms := range messageSets {
		if l := v.FieldByName(ms.Go); l.IsValid() && len(types[ms.Go]) > 0 {
			g.grow(l)
		}
	}
}

func (g *Gen) response() *ofxgo.Response {
	r := &ofxgo.Response{}
	setRespVersion(r, g.ver)
	g.fill(reflect.ValueOf(&r.Signon).Elem())
	g.messages(reflect.ValueOf(r).Elem(), respTypesBySet)
	return r
}

func (g *Gen) request() *ofxgo.Request {
	r := &ofxgo.Request{}
	setReqVersion(r, g.ver)
	r.URL = "https://example.invalid/ofx"
	g.fill(reflect.ValueOf(&r.Signon).Elem())
	g.messages(reflect.ValueOf(r).Elem(), reqTypesBySet)
	return r
}

func anyVersion(t *rapid.T) int { return rapid.IntRange(0, len(versionStrings)-1).Draw(t, "version") }

func (g *Gen) fillSignon(r *ofxgo.Response) { g.fill(reflect.ValueOf(&r.Signon).Elem()) }
