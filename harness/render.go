package harness

import (
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Surface holds the surface-form choices for rendering a reference tree.
type Surface struct {
	t          *rapid.T
	sgml       bool
	ver        int
	closeLeaf  int    // 0 never close SGML leaves, 1 always, 2 mixed
	ws         string // between elements: "", "\n", "\r\n", "indent", "mixed"
	leafWS     bool   // whitespace around leaf text
	lexical    bool   // vary the lexical form of values
	entities   int    // 0 minimal named, 1 numeric, 2 mixed
	headerForm int
	crlfBody   bool
	long       int // length of long runs of whitespace (0: none)
	longs      int // long runs written
}

func drawSurface(t *rapid.T, ver int) *Surface {
	s := &Surface{t: t, ver: ver, sgml: isSGML(ver)}
	s.closeLeaf = rapid.IntRange(0, 2).Draw(t, "closeLeaf")
	s.ws = rapid.SampledFrom([]string{"\n", "", "\r\n", "indent", "mixed"}).Draw(t, "ws")
	s.leafWS = rapid.IntRange(0, 3).Draw(t, "leafWS") == 3
	s.lexical = rapid.IntRange(0, 2).Draw(t, "lexical") == 2
	s.entities = rapid.IntRange(0, 2).Draw(t, "entities")
	s.headerForm = rapid.IntRange(0, 5).Draw(t, "headerForm")
	if rapid.IntRange(0, 15).Draw(t, "long") == 15 {
		s.long = rapid.SampledFrom([]int{100, 500, 1023, 1025, 4095, 4100, 9000, 70000}).Draw(t, "longws")
	}
	return s
}

// canonicalSurface is the plainest rendering for a version.
func canonicalSurface(t *rapid.T, ver int) *Surface {
	return &Surface{t: t, ver: ver, sgml: isSGML(ver), closeLeaf: 1, ws: "\n"}
}

func (s *Surface) header() string {
	v := versionStrings[s.ver]
	if s.sgml {
		kv := []string{"OFXHEADER", "100", "DATA", "OFXSGML", "VERSION", v, "SECURITY", "NONE", "ENCODING", "USASCII", "CHARSET", "1252", "COMPRESSION", "NONE", "OLDFILEUID", "NONE", "NEWFILEUID", "NONE"}
		sep, colon, tail := "\r\n", ":", "\r\n"
		switch s.headerForm {
		case 1:
			sep, tail = "\n", "\n"
		case 2:
			colon = ": "
		case 3:
			sep, tail = "", ""
		case 4:
			sep, tail = "\n", ""
			kv[7], kv[9], kv[11] = "TYPE1", "UTF-8", "NONE"
			kv[17] = "20230101120000_abc-DEF"
		case 5:
			sep, tail = "\r\n", "\r\n\r\n\n"
			kv[9], kv[11], kv[15], kv[17] = "UNICODE", "ISO-8859-1", "1234", "5678"
		}
		var b strings.Builder
		for i := 0; i < len(kv); i += 2 {
			b.WriteString(kv[i] + colon + kv[i+1] + sep)
		}
		return b.String() + tail
	}
	switch s.headerForm {
	case 1:
		return `<?xml version="1.0" encoding="UTF-8" standalone="no"?><?OFX OFXHEADER="200" VERSION="` + v + `" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>`
	case 2:
		return `<?xml version="1.0" encoding="utf-8" ?>` + "\r\n" + `<?OFX OFXHEADER="200" VERSION="` + v + `" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE" ?>` + "\r\n"
	case 3:
		return `<?xml version="1.0"?>` + "\n\n" + `<?OFX VERSION="` + v + `" OFXHEADER="200" NEWFILEUID="x-1" OLDFILEUID="NONE" SECURITY="NONE"?>` + "\n"
	case 4:
		return `<?xml version="1.0" encoding="US-ASCII"?>` + "\n" + `<?OFX OFXHEADER="200" VERSION="` + v + `"?>` + "\n"
	case 5:
		return `<?xml version="1.0" encoding="UTF-8"?>` + "\n" + `<?OFX OFXHEADER="200"  VERSION="` + v + `"   SECURITY="NONE" OLDFILEUID="" NEWFILEUID=""?>` + "\n"
	}
	return `<?xml version="1.0" encoding="UTF-8" standalone="no"?>` + "\n" + `<?OFX OFXHEADER="200" VERSION="` + v + `" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>` + "\n"
}

// Document renders header and body.
func (s *Surface) Document(root *Node) string {
	var b strings.Builder
	b.WriteString(s.header())
	s.body(&b, prune(root), 0)
	switch s.ws {
	case "":
	case "\r\n":
		b.WriteString("\r\n")
	default:
		b.WriteString("\n")
	}
	return b.String()
}

// longRun writes a long run of whitespace once in a while, if the document is
// to have such.
func (s *Surface) longRun(b *strings.Builder) {
	if s.long > 0 && s.longs < 5 && rapid.IntRange(0, 19).Draw(s.t, "longhere") == 19 {
		s.longs++
		b.WriteString(strings.Repeat(rapid.SampledFrom([]string{" ", "\n", "\t", "\r\n", "\n "}).Draw(s.t, "longof"), s.long))
	}
}

func (s *Surface) gap(b *strings.Builder, depth int) {
	s.longRun(b)
	switch s.ws {
	case "indent":
		b.WriteString("\n" + strings.Repeat("    ", depth))
	case "mixed":
		b.WriteString(rapid.SampledFrom([]string{"\n", "", " ", "\t", "\r\n", "\n\n  "}).Draw(s.t, "gap"))
	default:
		b.WriteString(s.ws)
	}
}

func (s *Surface) body(b *strings.Builder, n *Node, depth int) {
	if depth > 0 {
		s.gap(b, depth)
	}
	if n.Name == "" { // bare text
		b.WriteString(*n.Text)
		return
	}
	b.WriteString("<" + n.Name + ">")
	if n.Leaf {
		text := s.leaf(n)
		pad := func() string {
			if !s.leafWS {
				return ""
			}
			return rapid.SampledFrom([]string{"", " ", "\n", "\t", "\r\n", "   "}).Draw(s.t, "pad")
		}
		b.WriteString(pad())
		if s.leafWS {
			s.longRun(b)
		}
		b.WriteString(text)
		b.WriteString(pad())
		closeIt := true
		if s.sgml && sgmlLeaf[n.Name] && text != "" {
			switch s.closeLeaf {
			case 0:
				closeIt = false
			case 2:
				closeIt = rapid.IntRange(0, 1).Draw(s.t, "close") == 1
			}
		}
		if closeIt {
			b.WriteString("</" + n.Name + ">")
		}
		return
	}
	for _, k := range n.Kids {
		s.body(b, k, depth+1)
	}
	s.gap(b, depth)
	b.WriteString("</" + n.Name + ">")
}

func (s *Surface) leaf(n *Node) string {
	if n.Text != nil {
		return *n.Text
	}
	switch n.Val.Kind {
	case KString, KUID:
		return s.escape(n.Val.S)
	case KCurr, KEnum:
		return n.Val.S
	case KInt:
		if s.lexical && n.Val.I >= 0 {
			return rapid.SampledFrom([]string{"", "0", "00", "+"}).Draw(s.t, "intform") + n.Val.String()
		}
		return n.Val.String()
	case KBool:
		return n.Val.String()
	case KAmount:
		return s.amount(n.Val)
	case KDate:
		return s.date(n.Val)
	}
	panic("leaf kind")
}

func (s *Surface) amount(v Scalar) string {
	str := strings.TrimRight(v.R.FloatString(120), "0")
	str = strings.TrimSuffix(str, ".")
	if !s.lexical {
		return str
	}
	neg := strings.HasPrefix(str, "-")
	str = strings.TrimPrefix(str, "-")
	ip, fp, has := strings.Cut(str, ".")
	switch rapid.IntRange(0, 4).Draw(s.t, "amtform") {
	case 1:
		fp += "00"
		has = true
	case 2:
		ip = "00" + ip
	case 3:
		if has && ip == "0" {
			ip = ""
		}
	}
	sep := rapid.SampledFrom([]string{".", ","}).Draw(s.t, "sep")
	out := ip
	if has {
		out += sep + fp
	}
	if neg {
		return "-" + out
	}
	if rapid.IntRange(0, 3).Draw(s.t, "plus") == 3 {
		return "+" + out
	}
	return out
}

func zoneText(off int, name string) string {
	sign, a := "", off
	if off < 0 {
		sign, a = "-", -off
	}
	z := fmt.Sprintf("%s%d", sign, a/3600)
	if m := (a % 3600) / 60; m != 0 {
		z += fmt.Sprintf(".%02d", (m*100+30)/60)
	}
	if name != "" {
		z += ":" + name
	}
	return z
}

func (s *Surface) date(v Scalar) string {
	local := v.T.UTC().Add(time.Duration(v.Off) * time.Second)
	full := local.Format("20060102150405.000")
	z := "[" + zoneText(v.Off, v.Zone) + "]"
	if !s.lexical {
		return full + z
	}
	var forms []string
	forms = append(forms, full)
	if local.Nanosecond() == 0 {
		forms = append(forms, full[:14])
		if local.Second() == 0 {
			forms = append(forms, full[:12])
			if local.Minute() == 0 {
				forms = append(forms, full[:10])
				if local.Hour() == 0 {
					forms = append(forms, full[:8])
				}
			}
		}
	}
	f := rapid.SampledFrom(forms).Draw(s.t, "dateform")
	switch k := rapid.IntRange(0, 4).Draw(s.t, "zoneform"); {
	case k >= 3: // hours with a leading zero, explicit zero fraction
		sign, a := "", v.Off
		if a < 0 {
			sign, a = "-", -a
		}
		name := ""
		if v.Zone != "" {
			name = ":" + v.Zone
		}
		frac := fmt.Sprintf(".%02d", ((a%3600)/60*100+30)/60)
		if k == 4 && a%3600 == 0 {
			frac = ""
		}
		return f + fmt.Sprintf("[%s%02d%s%s]", sign, a/3600, frac, name)
	case k == 1 && v.Off == 0 && (v.Zone == "GMT" || v.Zone == ""):
		return f
	case k == 2 && v.Off >= 0:
		return f + "[+" + zoneText(v.Off, v.Zone) + "]"
	}
	return f + z
}

func (s *Surface) escape(str string) string {
	var b strings.Builder
	for _, r := range str {
		form := s.entities
		if form == 2 {
			form = rapid.IntRange(0, 1).Draw(s.t, "entform")
		}
		switch {
		case r == '&' && form == 0:
			b.WriteString("&amp;")
		case r == '<' && form == 0:
			b.WriteString("&lt;")
		case r == '>' && form == 0:
			b.WriteString("&gt;")
		case r == '"' && form == 0:
			b.WriteString("&quot;")
		case r == '\'' && form == 0:
			b.WriteString("'")
		case r == '&' || r == '<' || r == '>' || r == '\r':
			fmt.Fprintf(&b, "&#%d;", r)
		case r == '"' || r == '\'' || r > 0x7f:
			if form == 1 {
				fmt.Fprintf(&b, "&#x%X;", r)
			} else {
				b.WriteRune(r)
			}
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// render renders one element on its own.
func (s *Surface) render(n *Node) string {
	var b strings.Builder
	s.body(&b, n, 0)
	return b.String()
}
