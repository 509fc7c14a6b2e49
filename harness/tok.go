package harness

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// RawNode is an element read by the harness' own tokenizer.
type RawNode struct {
	Name   string
	Text   string
	Kids   []*RawNode
	Closed bool // had an explicit end tag
}

// parseMarkup reads the body of a document written by the library: nothing but
// start tags without attributes, end tags and escaped text. Leaf elements of
// SGML 1.x may lack end tags. It returns the root element; inter-element
// whitespace is checked to be only whitespace.
func parseMarkup(s string, sgml bool) (*RawNode, error) {
	var stack []*RawNode
	var root *RawNode
	pos := 0
	for pos < len(s) {
		lt := strings.IndexByte(s[pos:], '<')
		if lt < 0 {
			if strings.TrimSpace(s[pos:]) != "" {
				return nil, fmt.Errorf("text %q after the last tag", s[pos:])
			}
			break
		}
		text := s[pos : pos+lt]
		pos += lt
		if len(stack) > 0 {
			stack[len(stack)-1].Text += text
		} else if strings.TrimSpace(text) != "" {
			return nil, fmt.Errorf("text %q outside any element", text)
		}
		gt := strings.IndexByte(s[pos:], '>')
		if gt < 0 {
			return nil, fmt.Errorf("unterminated tag at %q", s[pos:])
		}
		tag := s[pos+1 : pos+gt]
		pos += gt + 1
		if strings.HasPrefix(tag, "/") {
			name := tag[1:]
			for len(stack) > 0 && stack[len(stack)-1].Name != name {
				top := stack[len(stack)-1]
				if !sgml || !sgmlLeaf[top.Name] || len(top.Kids) > 0 {
					return nil, fmt.Errorf("</%s> while <%s> is open", name, top.Name)
				}
				stack = stack[:len(stack)-1]
			}
			if len(stack) == 0 {
				return nil, fmt.Errorf("</%s> without a start tag", name)
			}
			stack[len(stack)-1].Closed = true
			stack = stack[:len(stack)-1]
			continue
		}
		if !nameRE.MatchString(tag) {
			return nil, fmt.Errorf("unexpected markup <%s>", tag)
		}
		if sgml && len(stack) > 0 {
			top := stack[len(stack)-1]
			if sgmlLeaf[top.Name] && len(top.Kids) == 0 {
				stack = stack[:len(stack)-1]
			}
		}
		n := &RawNode{Name: tag}
		if len(stack) == 0 {
			if root != nil {
				return nil, fmt.Errorf("second root element <%s>", tag)
			}
			root = n
		} else {
			p := stack[len(stack)-1]
			if strings.TrimSpace(p.Text) != "" {
				return nil, fmt.Errorf("<%s> inside <%s> which has text %q", tag, p.Name, p.Text)
			}
			p.Text = ""
			p.Kids = append(p.Kids, n)
		}
		stack = append(stack, n)
	}
	if len(stack) > 0 {
		return nil, fmt.Errorf("<%s> never closed", stack[len(stack)-1].Name)
	}
	if root == nil {
		return nil, fmt.Errorf("no root element")
	}
	return root, nil
}

var nameRE = regexp.MustCompile(`^[A-Z][A-Z0-9.]*$|^INV401K[A-Z]*$`)

// unescape resolves character and predefined entity references strictly.
func unescape(s string) (string, error) {
	if strings.ContainsAny(s, "<>") && strings.Contains(s, "<") {
		return "", fmt.Errorf("raw < in text")
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] != '&' {
			b.WriteByte(s[i])
			i++
			continue
		}
		j := strings.IndexByte(s[i:], ';')
		if j < 0 {
			return "", fmt.Errorf("unterminated entity in %q", s)
		}
		ent := s[i+1 : i+j]
		i += j + 1
		switch ent {
		case "lt":
			b.WriteByte('<')
		case "gt":
			b.WriteByte('>')
		case "amp":
			b.WriteByte('&')
		case "quot":
			b.WriteByte('"')
		case "apos":
			b.WriteByte('\'')
		case "nbsp":
			b.WriteRune(0xa0)
		default:
			if !strings.HasPrefix(ent, "#") {
				return "", fmt.Errorf("unknown entity &%s;", ent)
			}
			var n uint64
			var err error
			if strings.HasPrefix(ent, "#x") {
				n, err = strconv.ParseUint(ent[2:], 16, 32)
			} else {
				n, err = strconv.ParseUint(ent[1:], 10, 32)
			}
			if err != nil || !utf8.ValidRune(rune(n)) {
				return "", fmt.Errorf("bad character reference &%s;", ent)
			}
			b.WriteRune(rune(n))
		}
	}
	return b.String(), nil
}

// Independent lexical parsers -------------------------------------------------

var amountRE = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)$`)

func lexAmount(s string) (*big.Rat, error) {
	if !amountRE.MatchString(s) {
		return nil, fmt.Errorf("%q is not a decimal amount", s)
	}
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimLeft(s, "+-")
	ip, fp, _ := strings.Cut(s, ".")
	num, ok := new(big.Int).SetString("0"+ip+fp, 10)
	if !ok {
		return nil, fmt.Errorf("%q is not a decimal amount", s)
	}
	den := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(len(fp))), nil)
	if neg {
		num.Neg(num)
	}
	return new(big.Rat).SetFrac(num, den), nil
}

var dateRE = regexp.MustCompile(`^([0-9]{4})([0-9]{2})([0-9]{2})(?:([0-9]{2})(?:([0-9]{2})(?:([0-9]{2})(?:\.([0-9]{3}))?)?)?)?(?:\[([+-]?)([0-9]{1,2})(?:\.([0-9]{2}))?(?::([A-Z]+))?\])?$`)

// lexDate parses an OFX date/time into an instant, its offset and zone name.
func lexDate(s string) (Scalar, error) {
	m := dateRE.FindStringSubmatch(s)
	if m == nil {
		return Scalar{}, fmt.Errorf("%q is not an OFX date", s)
	}
	n := func(i int) int { v, _ := strconv.Atoi("0" + m[i]); return v }
	if n(2) < 1 || n(2) > 12 || n(4) > 23 || n(5) > 59 || n(6) > 60 {
		return Scalar{}, fmt.Errorf("%q is out of range", s)
	}
	off := n(9)*3600 + roundMinutes(n(10))*60
	if m[8] == "-" {
		off = -off
	}
	t := time.Date(n(1), time.Month(n(2)), n(3), n(4), n(5), n(6), n(7)*1000000, time.UTC)
	if t.Day() != n(3) {
		return Scalar{}, fmt.Errorf("%q has no such day", s)
	}
	return Scalar{Kind: KDate, T: t.Add(-time.Duration(off) * time.Second), Off: off, Zone: m[11]}, nil
}

// roundMinutes turns hundredths of an hour into the nearest minute.
func roundMinutes(h int) int { return (h*60 + 50) / 100 }

func lexLeaf(kind Kind, text string) (Scalar, error) {
	sc := Scalar{Kind: kind}
	switch kind {
	case KInt:
		i, err := strconv.ParseInt(text, 10, 64)
		sc.I = i
		return sc, err
	case KBool:
		switch text {
		case "Y":
			sc.B = true
		case "N":
		default:
			return sc, fmt.Errorf("%q is not Y or N", text)
		}
		return sc, nil
	case KAmount:
		r, err := lexAmount(text)
		sc.R = r
		return sc, err
	case KDate:
		return lexDate(text)
	}
	sc.S = text
	return sc, nil
}

// diffMarkup compares what an encoder wrote with the reference tree: the same
// elements, in the same order and nesting, with the same values. Optional
// zero-valued elements (Maybe) may be present or absent.
func diffMarkup(want *Node, got *RawNode) string { return diffM("", want, got) }

func diffM(path string, w *Node, g *RawNode) string {
	path += "/" + w.Name
	if w.Name != g.Name {
		return fmt.Sprintf("%s: found <%s> instead", path, g.Name)
	}
	if w.Leaf {
		if len(g.Kids) > 0 {
			return fmt.Sprintf("%s: leaf element has children (<%s>)", path, g.Kids[0].Name)
		}
		raw := g.Text
		if !g.Closed {
			raw = strings.TrimRight(raw, " \r\n\t")
		}
		text, err := unescape(raw)
		if err != nil {
			return fmt.Sprintf("%s: %v", path, err)
		}
		if w.Kind == KEnum && w.Maybe {
			return fmt.Sprintf("%s: written as %q although it has no value", path, text)
		}
		sc, err := lexLeaf(w.Kind, text)
		if err != nil {
			return fmt.Sprintf("%s: %v", path, err)
		}
		if !sameScalar(w.Val, sc) {
			return fmt.Sprintf("%s: expected %v, written as %q", path, w.Val, text)
		}
		return ""
	}
	if strings.TrimSpace(g.Text) != "" {
		return fmt.Sprintf("%s: aggregate has text %q", path, g.Text)
	}
	i := 0
	for _, k := range w.Kids {
		if i < len(g.Kids) && g.Kids[i].Name == k.Name {
			d := diffM(path, k, g.Kids[i])
			if d == "" {
				i++
				continue
			}
			if !k.Maybe {
				return d
			}
			return d
		}
		if k.Maybe {
			continue
		}
		found := "the end"
		if i < len(g.Kids) {
			found = "<" + g.Kids[i].Name + ">"
		}
		return fmt.Sprintf("%s: expected <%s> (%s), found %s", path, k.Name, summarize(k), found)
	}
	if i < len(g.Kids) {
		return fmt.Sprintf("%s: unexpected <%s>", path, g.Kids[i].Name)
	}
	return ""
}

func sortStrings(s []string) { sort.Strings(s) }
