package harness

import (
	"fmt"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

// enumOps gives untyped access to one enumeration of the library.
type enumOps struct {
	name   string
	make   func(string) (uint64, bool, string, error) // value, Valid, String
	from   func(string) (uint64, error)
	read   func(doc string) (uint64, error)
	write  func(v uint64) (string, error)
	valid  func(v uint64) bool
	print  func(v uint64) string
	consts []uint64
}

type enumValue interface {
	~uint
	fmt.Stringer
	Valid() bool
}

type enumPtr[T any] interface {
	*T
	FromString(string) error
}

func enumOf[T enumValue, P enumPtr[T]](name string, make func(string) (T, error), consts ...T) enumOps {
	o := enumOps{
		name: name,
		make: func(s string) (uint64, bool, string, error) {
			v, err := make(s)
			return uint64(v), v.Valid(), v.String(), err
		},
		from: func(s string) (uint64, error) {
			var v T
			err := P(&v).FromString(s)
			return uint64(v), err
		},
		read: func(doc string) (uint64, error) {
			var v T
			err := xml.Unmarshal([]byte(doc), &v)
			return uint64(v), err
		},
		write: func(v uint64) (string, error) {
			b, err := xml.Marshal(T(v))
			return string(b), err
		},
		valid: func(v uint64) bool { return T(v).Valid() },
		print: func(v uint64) string { return T(v).String() },
	}
	for _, c := range consts {
		o.consts = append(o.consts, uint64(c))
	}
	return o
}

var enumRegistry = []enumOps{
	enumOf("OfxVersion", ofxgo.NewOfxVersion, ofxgo.OfxVersion102, ofxgo.OfxVersion103, ofxgo.OfxVersion151, ofxgo.OfxVersion160, ofxgo.OfxVersion200, ofxgo.OfxVersion201, ofxgo.OfxVersion202, ofxgo.OfxVersion203, ofxgo.OfxVersion210, ofxgo.OfxVersion211, ofxgo.OfxVersion220),
	enumOf("AcctType", ofxgo.NewAcctType, ofxgo.AcctTypeChecking, ofxgo.AcctTypeSavings, ofxgo.AcctTypeMoneyMrkt, ofxgo.AcctTypeCreditLine, ofxgo.AcctTypeCD),
	enumOf("TrnType", ofxgo.NewTrnType, ofxgo.TrnTypeCredit, ofxgo.TrnTypeDebit, ofxgo.TrnTypeInt, ofxgo.TrnTypeDiv, ofxgo.TrnTypeFee, ofxgo.TrnTypeSrvChg, ofxgo.TrnTypeDep, ofxgo.TrnTypeATM, ofxgo.TrnTypePOS, ofxgo.TrnTypeXfer, ofxgo.TrnTypeCheck, ofxgo.TrnTypePayment, ofxgo.TrnTypeCash, ofxgo.TrnTypeDirectDep, ofxgo.TrnTypeDirectDebit, ofxgo.TrnTypeRepeatPmt, ofxgo.TrnTypeHold, ofxgo.TrnTypeOther),
	enumOf("ImageType", ofxgo.NewImageType, ofxgo.ImageTypeStatement, ofxgo.ImageTypeTransaction, ofxgo.ImageTypeTax),
	enumOf("ImageRefType", ofxgo.NewImageRefType, ofxgo.ImageRefTypeOpaque, ofxgo.ImageRefTypeURL, ofxgo.ImageRefTypeFormURL),
	enumOf("CheckSup", ofxgo.NewCheckSup, ofxgo.CheckSupFrontOnly, ofxgo.CheckSupBackOnly, ofxgo.CheckSupFrontAndBack),
	enumOf("CorrectAction", ofxgo.NewCorrectAction, ofxgo.CorrectActionDelete, ofxgo.CorrectActionReplace),
	enumOf("BalType", ofxgo.NewBalType, ofxgo.BalTypeDollar, ofxgo.BalTypePercent, ofxgo.BalTypeNumber),
	enumOf("Inv401kSource", ofxgo.NewInv401kSource, ofxgo.Inv401kSourcePreTax, ofxgo.Inv401kSourceAfterTax, ofxgo.Inv401kSourceMatch, ofxgo.Inv401kSourceProfitSharing, ofxgo.Inv401kSourceRollover, ofxgo.Inv401kSourceOtherVest, ofxgo.Inv401kSourceOtherNonVest),
	enumOf("SubAcctType", ofxgo.NewSubAcctType, ofxgo.SubAcctTypeCash, ofxgo.SubAcctTypeMargin, ofxgo.SubAcctTypeShort, ofxgo.SubAcctTypeOther),
	enumOf("BuyType", ofxgo.NewBuyType, ofxgo.BuyTypeBuy, ofxgo.BuyTypeBuyToCover),
	enumOf("OptAction", ofxgo.NewOptAction, ofxgo.OptActionExercise, ofxgo.OptActionAssign, ofxgo.OptActionExpire),
	enumOf("TferAction", ofxgo.NewTferAction, ofxgo.TferActionIn, ofxgo.TferActionOut),
	enumOf("PosType", ofxgo.NewPosType, ofxgo.PosTypeLong, ofxgo.PosTypeShort),
	enumOf("Secured", ofxgo.NewSecured, ofxgo.SecuredNaked, ofxgo.SecuredCovered),
	enumOf("Duration", ofxgo.NewDuration, ofxgo.DurationDay, ofxgo.DurationGoodTilCancel, ofxgo.DurationImmediate),
	enumOf("Restriction", ofxgo.NewRestriction, ofxgo.RestrictionAllOrNone, ofxgo.RestrictionMinUnits, ofxgo.RestrictionNone),
	enumOf("UnitType", ofxgo.NewUnitType, ofxgo.UnitTypeShares, ofxgo.UnitTypeCurrency),
	enumOf("OptBuyType", ofxgo.NewOptBuyType, ofxgo.OptBuyTypeBuyToOpen, ofxgo.OptBuyTypeBuyToClose),
	enumOf("SellType", ofxgo.NewSellType, ofxgo.SellTypeSell, ofxgo.SellTypeSellShort),
	enumOf("LoanPmtFreq", ofxgo.NewLoanPmtFreq, ofxgo.LoanPmtFreqWeekly, ofxgo.LoanPmtFreqBiweekly, ofxgo.LoanPmtFreqTwiceMonthly, ofxgo.LoanPmtFreqMonthly, ofxgo.LoanPmtFreqFourWeeks, ofxgo.LoanPmtFreqBiMonthly, ofxgo.LoanPmtFreqQuarterly, ofxgo.LoanPmtFreqSemiannually, ofxgo.LoanPmtFreqAnnually, ofxgo.LoanPmtFreqOther),
	enumOf("IncomeType", ofxgo.NewIncomeType, ofxgo.IncomeTypeCGLong, ofxgo.IncomeTypeCGShort, ofxgo.IncomeTypeDiv, ofxgo.IncomeTypeInterest, ofxgo.IncomeTypeMisc),
	enumOf("SellReason", ofxgo.NewSellReason, ofxgo.SellReasonCall, ofxgo.SellReasonSell, ofxgo.SellReasonMaturity),
	enumOf("OptSellType", ofxgo.NewOptSellType, ofxgo.OptSellTypeSellToClose, ofxgo.OptSellTypeSellToOpen),
	enumOf("RelType", ofxgo.NewRelType, ofxgo.RelTypeSpread, ofxgo.RelTypeStraddle, ofxgo.RelTypeNone, ofxgo.RelTypeOther),
	enumOf("CharType", ofxgo.NewCharType, ofxgo.CharTypeAlphaOnly, ofxgo.CharTypeNumericOnly, ofxgo.CharTypeAlphaOrNumeric, ofxgo.CharTypeAlphaAndNumeric),
	enumOf("SyncMode", ofxgo.NewSyncMode, ofxgo.SyncModeFull, ofxgo.SyncModeLite),
	enumOf("OfxSec", ofxgo.NewOfxSec, ofxgo.OfxSecNone, ofxgo.OfxSecType1),
	enumOf("DebtType", ofxgo.NewDebtType, ofxgo.DebtTypeCoupon, ofxgo.DebtTypeZero),
	enumOf("DebtClass", ofxgo.NewDebtClass, ofxgo.DebtClassTreasury, ofxgo.DebtClassMunicipal, ofxgo.DebtClassCorporate, ofxgo.DebtClassOther),
	enumOf("CouponFreq", ofxgo.NewCouponFreq, ofxgo.CouponFreqMonthly, ofxgo.CouponFreqQuarterly, ofxgo.CouponFreqSemiannual, ofxgo.CouponFreqAnnual, ofxgo.CouponFreqOther),
	enumOf("CallType", ofxgo.NewCallType, ofxgo.CallTypeCall, ofxgo.CallTypePut, ofxgo.CallTypePrefund, ofxgo.CallTypeMaturity),
	enumOf("AssetClass", ofxgo.NewAssetClass, ofxgo.AssetClassDomesticBond, ofxgo.AssetClassIntlBond, ofxgo.AssetClassLargeStock, ofxgo.AssetClassSmallStock, ofxgo.AssetClassIntlStock, ofxgo.AssetClassMoneyMrkt, ofxgo.AssetClassOther),
	enumOf("MfType", ofxgo.NewMfType, ofxgo.MfTypeOpenEnd, ofxgo.MfTypeCloseEnd, ofxgo.MfTypeOther),
	enumOf("OptType", ofxgo.NewOptType, ofxgo.OptTypePut, ofxgo.OptTypeCall),
	enumOf("StockType", ofxgo.NewStockType, ofxgo.StockTypeCommon, ofxgo.StockTypePreferred, ofxgo.StockTypeConvertible, ofxgo.StockTypeOther),
	enumOf("HolderType", ofxgo.NewHolderType, ofxgo.HolderTypeIndividual, ofxgo.HolderTypeJoint, ofxgo.HolderTypeCustodial, ofxgo.HolderTypeTrust, ofxgo.HolderTypeOther),
	enumOf("AcctClassification", ofxgo.NewAcctClassification, ofxgo.AcctClassificationPersonal, ofxgo.AcctClassificationBusiness, ofxgo.AcctClassificationCorporate, ofxgo.AcctClassificationOther),
	enumOf("SvcStatus", ofxgo.NewSvcStatus, ofxgo.SvcStatusAvail, ofxgo.SvcStatusPend, ofxgo.SvcStatusActive),
	enumOf("UsProductType", ofxgo.NewUsProductType, ofxgo.UsProductType401K, ofxgo.UsProductType403B, ofxgo.UsProductTypeIRA, ofxgo.UsProductTypeKEOGH, ofxgo.UsProductTypeOther, ofxgo.UsProductTypeSARSEP, ofxgo.UsProductTypeSimple, ofxgo.UsProductTypeNormal, ofxgo.UsProductTypeTDA, ofxgo.UsProductTypeTrust, ofxgo.UsProductTypeUGMA),
}
