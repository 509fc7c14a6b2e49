// Package harness holds the property checks for ofxgo. It uses only the
// public API of the library; everything it knows about OFX (element names,
// order, enumerations, leaf elements, status codes, currencies) is frozen here
// and is independent of the struct tags and tables in the code under test.
package harness

import (
	_ "embed"
	"fmt"
	"reflect"
	"strings"

	"github.com/aclindsa/ofxgo"
)

//go:embed schema.txt
var schemaText string

//go:embed enums.txt
var enumText string

//go:embed sgml_leaves.txt
var leafText string

//go:embed status.txt
var statusText string

//go:embed currencies.txt
var currencyText string

// Kind classifies a field of the reference schema.
type Kind int

const (
	KString Kind = iota
	KUID
	KInt
	KAmount
	KDate
	KBool
	KCurr
	KEnum
	KStruct
	KSpecial // hand-marshalled lists
)

// FieldSpec is one line of the reference schema.
type FieldSpec struct {
	Go    string
	Path  []string
	Opt   bool
	Ptr   bool
	Slice bool
	Base  string
	Kind  Kind
}

// TypeSpec is one aggregate of the reference schema.
type TypeSpec struct {
	Name   string
	Elem   string
	Fields []*FieldSpec
}

var (
	schema     = map[string]*TypeSpec{}
	enums      = map[string][]string{} // by type name, e.g. "acctType"
	enumOrder  []string                // exported names in order
	sgmlLeaf   = map[string]bool{}
	statusTab  = map[int64][3]string{} // code -> meaning, severity, conditions
	statusList []int64
	currencies []string
)

func lowerFirst(s string) string { return strings.ToLower(s[:1]) + s[1:] }

func init() {
	var cur *TypeSpec
	for _, l := range strings.Split(schemaText, "\n") {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		if f[0] == "type" {
			cur = &TypeSpec{Name: f[1], Elem: f[2]}
			if cur.Elem == "-" {
				cur.Elem = ""
			}
			schema[cur.Name] = cur
			continue
		}
		if len(f) != 4 {
			panic("bad schema line: " + l)
		}
		fs := &FieldSpec{Go: f[0], Path: strings.Split(f[2], ">"), Opt: f[3] == "opt"}
		b := f[1]
		if strings.HasPrefix(b, "*") {
			fs.Ptr, b = true, b[1:]
		}
		if strings.HasPrefix(b, "[]") {
			fs.Slice, b = true, b[2:]
		}
		fs.Base = b
		switch b {
		case "String":
			fs.Kind = KString
		case "UID":
			fs.Kind = KUID
		case "Int":
			fs.Kind = KInt
		case "Amount":
			fs.Kind = KAmount
		case "Date":
			fs.Kind = KDate
		case "Boolean":
			fs.Kind = KBool
		case "CurrSymbol":
			fs.Kind = KCurr
		case "InvTranList", "PositionList", "OOList", "MessageSetList":
			fs.Kind = KSpecial
		default:
			if b[0] >= 'a' && b[0] <= 'z' {
				fs.Kind = KEnum
			} else {
				fs.Kind = KStruct
			}
		}
		cur.Fields = append(cur.Fields, fs)
	}
	for _, l := range strings.Split(strings.TrimSpace(enumText), "\n") {
		p := strings.Split(l, "|")
		enumOrder = append(enumOrder, p[0])
		enums[lowerFirst(p[0])] = p[1:]
	}
	for _, l := range strings.Fields(leafText) {
		sgmlLeaf[l] = true
	}
	for _, l := range strings.Split(strings.TrimRight(statusText, "\n"), "\n") {
		p := strings.Split(l, "\t")
		var code int64
		fmt.Sscan(p[0], &code)
		statusTab[code] = [3]string{p[1], p[2], p[3]}
		statusList = append(statusList, code)
	}
	currencies = strings.Fields(currencyText)
	for _, ts := range schema {
		for _, fs := range ts.Fields {
			if fs.Kind == KEnum && enums[fs.Base] == nil {
				panic("unknown enum " + fs.Base)
			}
			if fs.Kind == KStruct && schema[fs.Base] == nil {
				panic("unknown struct " + fs.Base)
			}
		}
	}
}

// The OFX versions, in order; a version's Go value is its index + 1.
var versionStrings = []string{"102", "103", "151", "160", "200", "201", "202", "203", "210", "211", "220"}

const (
	v102 = iota
	v103
	v151
	v160
	v200
	v201
	v202
	v203
	v210
	v211
	v220
)

func isSGML(v int) bool { return v <= v160 }

func setReqVersion(r *ofxgo.Request, v int) {
	reflect.ValueOf(r).Elem().FieldByName("Version").SetUint(uint64(v + 1))
}

func setRespVersion(r *ofxgo.Response, v int) {
	reflect.ValueOf(r).Elem().FieldByName("Version").SetUint(uint64(v + 1))
}

func respVersion(r *ofxgo.Response) int {
	return int(reflect.ValueOf(r).Elem().FieldByName("Version").Uint()) - 1
}

// messageSets lists the message sets in the order the OFX specification
// prescribes: Go field name of Request/Response and element name stem.
var messageSets = []struct{ Go, Elem string }{
	{"Signup", "SIGNUPMSGS"},
	{"Bank", "BANKMSGS"},
	{"CreditCard", "CREDITCARDMSGS"},
	{"Loan", "LOANMSGS"},
	{"InvStmt", "INVSTMTMSGS"},
	{"InterXfer", "INTERXFERMSGS"},
	{"WireXfer", "WIREXFERMSGS"},
	{"Billpay", "BILLPAYMSGS"},
	{"Email", "EMAILMSGS"},
	{"SecList", "SECLISTMSGS"},
	{"PresDir", "PRESDIRMSGS"},
	{"PresDlv", "PRESDLVMSGS"},
	{"Prof", "PROFMSGS"},
	{"Image", "IMAGEMSGS"},
}

// Which Go types may appear in each message set.
var respTypesBySet = map[string][]reflect.Type{
	"Signup":     {reflect.TypeOf(ofxgo.AcctInfoResponse{})},
	"Bank":       {reflect.TypeOf(ofxgo.StatementResponse{})},
	"CreditCard": {reflect.TypeOf(ofxgo.CCStatementResponse{})},
	"InvStmt":    {reflect.TypeOf(ofxgo.InvStatementResponse{})},
	"SecList":    {reflect.TypeOf(ofxgo.SecListResponse{}), reflect.TypeOf(ofxgo.SecurityList{})},
	"Prof":       {reflect.TypeOf(ofxgo.ProfileResponse{})},
}

var reqTypesBySet = map[string][]reflect.Type{
	"Signup":     {reflect.TypeOf(ofxgo.AcctInfoRequest{})},
	"Bank":       {reflect.TypeOf(ofxgo.StatementRequest{})},
	"CreditCard": {reflect.TypeOf(ofxgo.CCStatementRequest{})},
	"InvStmt":    {reflect.TypeOf(ofxgo.InvStatementRequest{})},
	"SecList":    {reflect.TypeOf(ofxgo.SecListRequest{})},
	"Prof":       {reflect.TypeOf(ofxgo.ProfileRequest{})},
}

var invTranTypes = []reflect.Type{
	reflect.TypeOf(ofxgo.BuyDebt{}), reflect.TypeOf(ofxgo.BuyMF{}), reflect.TypeOf(ofxgo.BuyOpt{}),
	reflect.TypeOf(ofxgo.BuyOther{}), reflect.TypeOf(ofxgo.BuyStock{}), reflect.TypeOf(ofxgo.ClosureOpt{}),
	reflect.TypeOf(ofxgo.Income{}), reflect.TypeOf(ofxgo.InvExpense{}), reflect.TypeOf(ofxgo.JrnlFund{}),
	reflect.TypeOf(ofxgo.JrnlSec{}), reflect.TypeOf(ofxgo.MarginInterest{}), reflect.TypeOf(ofxgo.Reinvest{}),
	reflect.TypeOf(ofxgo.RetOfCap{}), reflect.TypeOf(ofxgo.SellDebt{}), reflect.TypeOf(ofxgo.SellMF{}),
	reflect.TypeOf(ofxgo.SellOpt{}), reflect.TypeOf(ofxgo.SellOther{}), reflect.TypeOf(ofxgo.SellStock{}),
	reflect.TypeOf(ofxgo.Split{}), reflect.TypeOf(ofxgo.Transfer{}),
}

var positionTypes = []reflect.Type{
	reflect.TypeOf(ofxgo.DebtPosition{}), reflect.TypeOf(ofxgo.MFPosition{}), reflect.TypeOf(ofxgo.OptPosition{}),
	reflect.TypeOf(ofxgo.OtherPosition{}), reflect.TypeOf(ofxgo.StockPosition{}),
}

var ooTypes = []reflect.Type{
	reflect.TypeOf(ofxgo.OOBuyDebt{}), reflect.TypeOf(ofxgo.OOBuyMF{}), reflect.TypeOf(ofxgo.OOBuyOpt{}),
	reflect.TypeOf(ofxgo.OOBuyOther{}), reflect.TypeOf(ofxgo.OOBuyStock{}), reflect.TypeOf(ofxgo.OOSellDebt{}),
	reflect.TypeOf(ofxgo.OOSellMF{}), reflect.TypeOf(ofxgo.OOSellOpt{}), reflect.TypeOf(ofxgo.OOSellOther{}),
	reflect.TypeOf(ofxgo.OOSellStock{}), reflect.TypeOf(ofxgo.OOSwitchMF{}),
}

var securityTypes = []reflect.Type{
	reflect.TypeOf(ofxgo.DebtInfo{}), reflect.TypeOf(ofxgo.MFInfo{}), reflect.TypeOf(ofxgo.OptInfo{}),
	reflect.TypeOf(ofxgo.OtherInfo{}), reflect.TypeOf(ofxgo.StockInfo{}),
}

// Names of the message sets a profile may describe.
var profMsgSets = []string{
	"SIGNONMSGSET", "SIGNUPMSGSET", "BANKMSGSET", "CREDITCARDMSGSET", "LOANMSGSET", "INVSTMTMSGSET",
	"INTERXFERMSGSET", "WIREXFERMSGSET", "BILLPAYMSGSET", "EMAILMSGSET", "SECLISTMSGSET",
	"PRESDIRMSGSET", "PRESDLVMSGSET", "PROFMSGSET", "IMAGEMSGSET", "TAX1099MSGSET", "LOCALMSGSET",
}
