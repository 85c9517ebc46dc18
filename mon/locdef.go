//go:build go1.22

package main

import (
	"math/rand/v2"
	"strconv"
	"strings"

	"github.com/fwip/posix-utils/pkg/locale"
)

// A generator of well-formed locale definitions that knows the tokens, the
// recorded values, and how the definition may be laid out.

type dtok struct {
	typ  int
	text string
	gap  byte // what goes before it: 0 nothing, ' ' white space, ';' a continuation is possible
}

// dline is one logical line.
type dline struct {
	toks   []dtok
	indent bool // may be indented
	kind   string
}

type ddef struct {
	lines    []dline
	sym      string
	hasSym   bool
	frac     int
	hasFrac  bool
	group    []int
	hasGroup bool
	esc      rune
	comment  rune
}

const (
	kChars = iota
	kPairs
	kString
	kStrings
	kInt
	kInts
	kMsg
)

type dkw struct {
	word string
	typ  int
	kind int
}

type dcat struct {
	name string
	typ  int
	kws  []dkw
}

var dcats = []dcat{
	{"LC_CTYPE", locale.LC_CTYPE_STR, []dkw{{"upper", locale.UPPER_STR, kChars}, {"lower", locale.LOWER_STR, kChars}, {"alpha", locale.ALPHA_STR, kChars}, {"digit", locale.DIGIT_STR, kChars}, {"alnum", locale.ALNUM_STR, kChars}, {"space", locale.SPACE_STR, kChars}, {"cntrl", locale.CNTRL_STR, kChars}, {"punct", locale.PUNCT_STR, kChars}, {"graph", locale.GRAPH_STR, kChars}, {"print", locale.PRINT_STR, kChars}, {"xdigit", locale.XDIGIT_STR, kChars}, {"blank", locale.BLANK_STR, kChars}, {"toupper", locale.TOUPPER_STR, kPairs}, {"tolower", locale.TOLOWER_STR, kPairs}}},
	{"LC_MONETARY", locale.LC_MONETARY_STR, []dkw{{"int_curr_symbol", locale.INT_CURR_SYMBOL_STR, kString}, {"currency_symbol", locale.CURRENCY_SYMBOL_STR, kString}, {"mon_decimal_point", locale.MON_DECIMAL_POINT_STR, kString}, {"mon_thousands_sep", locale.MON_THOUSANDS_SEP_STR, kString}, {"mon_grouping", locale.MON_GROUPING_STR, kInts}, {"positive_sign", locale.POSITIVE_SIGN_STR, kString}, {"negative_sign", locale.NEGATIVE_SIGN_STR, kString}, {"int_frac_digits", locale.INT_FRAC_DIGITS_STR, kInt}, {"frac_digits", locale.FRAC_DIGITS_STR, kInt}, {"p_cs_precedes", locale.P_CS_PRECEDES_STR, kInt}, {"p_sep_by_space", locale.P_SEP_BY_SPACE_STR, kInt}, {"n_cs_precedes", locale.N_CS_PRECEDES_STR, kInt}, {"n_sep_by_space", locale.N_SEP_BY_SPACE_STR, kInt}, {"p_sign_posn", locale.P_SIGN_POSN_STR, kInt}, {"n_sign_posn", locale.N_SIGN_POSN_STR, kInt}, {"int_p_cs_precedes", locale.INT_P_CS_PRECEDES_STR, kInt}, {"int_p_sep_by_space", locale.INT_P_SEP_BY_SPACE_STR, kInt}, {"int_n_cs_precedes", locale.INT_N_CS_PRECEDES_STR, kInt}, {"int_n_sep_by_space", locale.INT_N_SEP_BY_SPACE_STR, kInt}, {"int_p_sign_posn", locale.INT_P_SIGN_POSN_STR, kInt}, {"int_n_sign_posn", locale.INT_N_SIGN_POSN_STR, kInt}}},
	{"LC_NUMERIC", locale.LC_NUMERIC_STR, []dkw{{"decimal_point", locale.DECIMAL_POINT_STR, kString}, {"thousands_sep", locale.THOUSANDS_SEP_STR, kString}, {"grouping", locale.GROUPING_STR, kInts}}},
	{"LC_TIME", locale.LC_TIME_STR, []dkw{{"abday", locale.ABDAY_STR, kStrings}, {"day", locale.DAY_STR, kStrings}, {"abmon", locale.ABMON_STR, kStrings}, {"mon", locale.MON_STR, kStrings}, {"d_t_fmt", locale.D_T_FMT_STR, kString}, {"d_fmt", locale.D_FMT_STR, kString}, {"t_fmt", locale.T_FMT_STR, kString}, {"am_pm", locale.AM_PM_STR, kStrings}, {"t_fmt_ampm", locale.T_FMT_AMPM_STR, kString}, {"era", locale.ERA_STR, kStrings}, {"era_d_fmt", locale.ERA_D_FMT_STR, kString}, {"era_t_fmt", locale.ERA_T_FMT_STR, kString}, {"era_d_t_fmt", locale.ERA_D_T_FMT_STR, kString}, {"alt_digits", locale.ALT_DIGITS_STR, kStrings}}},
	{"LC_MESSAGES", locale.LC_MESSAGES_STR, []dkw{{"yesexpr", locale.YESEXPR_STR, kMsg}, {"noexpr", locale.NOEXPR_STR, kMsg}}},
	{"LC_COLLATE", locale.LC_COLLATE_STR, nil},
}

var charNames = []string{"A", "b", "zero", "vertical-tab", "NUL", "DC1", "left_curly", "a-b-c", "x1", "IS4", "U0041", "z", "tilde"}

func genCharSym(r *rand.Rand) string {
	if oneIn(r, 4) {
		return "<" + string(rune('a'+r.IntN(26))) + ">"
	}
	if oneIn(r, 20) {
		const alpha = "ABCXYZabcxyz0189-_"
		x := []byte{}
		for k := 1 + size(r, 60); k > 0; k-- {
			x = append(x, alpha[r.IntN(len(alpha))])
		}
		return "<" + string(x) + ">"
	}
	return "<" + charNames[r.IntN(len(charNames))] + ">"
}

func (d *ddef) genString(r *rand.Rand, escapes, mayBeEmpty bool) []dtok {
	if mayBeEmpty && oneIn(r, 6) {
		return []dtok{{typ: locale.TWO_DOUBLE_QUOTE_STR, text: `""`}}
	}
	t := []dtok{{typ: '"', text: `"`}}
	n := 1 + r.IntN(6)
	if oneIn(r, 40) {
		n = 100
		if oneIn(r, 10) {
			n = 100 + size(r, 3000)
			if oneIn(r, 3) {
				n = 4000 + r.IntN(6000)
			}
		}
	}
	short := false // the last token was a constant of two digits: no digit may follow
	for k := 0; k < n; k++ {
		if escapes && oneIn(r, 6) {
			e := string(d.esc)
			switch r.IntN(4) {
			case 0:
				t = append(t, dtok{typ: locale.CHAR, text: e + string(pick(r, ',', ';', '<', '>', '"', d.esc))})
			case 1:
				x := e + strconv.Itoa(r.IntN(4)) + strconv.Itoa(r.IntN(8)) + strconv.Itoa(r.IntN(8))
				if short = oneIn(r, 3); short {
					x = x[:len(x)-1]
				}
				t = append(t, dtok{typ: locale.OCTAL_CHAR, text: x})
				continue
			case 2:
				x := e + "d" + sprintf("%03d", r.IntN(256))
				if short = oneIn(r, 3); short {
					x = x[:len(x)-1]
				}
				t = append(t, dtok{typ: locale.DECIMAL_CHAR, text: x})
				continue
			case 3:
				t = append(t, dtok{typ: locale.HEX_CHAR, text: e + "x" + sprintf(pick(r, "%02x", "%02X"), r.IntN(256))})
			}
			short = false
			continue
		}
		alpha := []rune("USDabc %E:;,.<>()年é-+*/#$!~&0123\t'=")
		x := alpha[r.IntN(len(alpha))]
		if x == d.esc || short && x >= '0' && x <= '9' {
			x = 'Q'
		}
		short = false
		t = append(t, dtok{typ: locale.CHAR, text: string(x)})
	}
	return append(t, dtok{typ: '"', text: `"`})
}

func genIntTok(r *rand.Rand) dtok {
	return dtok{typ: locale.NUMBER, text: pick(r, "0", "1", "2", "3", "-1", "10", "127", strconv.Itoa(r.IntN(5000)))}
}

// value draws a value of the kind.
func (d *ddef) value(r *rand.Rand, cat string, kw dkw) []dtok {
	list := func(n int, f func() []dtok) []dtok {
		var t []dtok
		for i := 0; i < n; i++ {
			x := f()
			if i > 0 {
				t = append(t, dtok{typ: ';', text: ";"})
				x[0].gap = ';'
			}
			t = append(t, x...)
		}
		return t
	}
	n := 1 + r.IntN(5)
	if oneIn(r, 30) {
		n = 30
		if oneIn(r, 10) {
			n = 30 + r.IntN(300)
		}
	}
	switch kw.kind {
	case kChars:
		return list(n, func() []dtok { return []dtok{{typ: locale.CHARSYMBOL, text: genCharSym(r)}} })
	case kPairs:
		return list(n, func() []dtok {
			return []dtok{{typ: '(', text: "("}, {typ: locale.CHARSYMBOL, text: genCharSym(r)}, {typ: ',', text: ","}, {typ: locale.CHARSYMBOL, text: genCharSym(r)}, {typ: ')', text: ")"}}
		})
	case kString:
		return d.genString(r, kw.word != "int_curr_symbol", cat != "LC_TIME")
	case kStrings:
		return list(n, func() []dtok { return d.genString(r, true, false) })
	case kInt:
		return []dtok{genIntTok(r)}
	case kInts:
		return list(n, func() []dtok { return []dtok{genIntTok(r)} })
	case kMsg:
		re := pick(r, "^[yY]", "^[nN][oO]?", "^([yY]|oui)", "x", "^[jJ].*", "a;b", "<A>")
		return []dtok{{typ: '"', text: `"`}, {typ: locale.EXTENDED_REG_EXP, text: re}, {typ: '"', text: `"`}}
	}
	panic("kind")
}

func genDef(r *rand.Rand) *ddef {
	d := &ddef{esc: '\\', comment: '#'}
	if oneIn(r, 3) {
		d.esc = pick(r, '/', '%', '!', '~', '&', '|', '@', '§', '¬', '→')
	}
	if oneIn(r, 3) {
		d.comment = pick(r, '*', '$', '%', '~', ';', '§', '/', '"', '(') // the last two begin continuations only
		if d.comment == d.esc {
			d.comment = '#'
		}
	}
	usedMon := map[string]bool{}
	cats := 1 + r.IntN(4)
	if oneIn(r, 100) {
		cats = 5 + r.IntN(30)
	}
	for k := cats; k > 0; k-- {
		cat := dcats[r.IntN(len(dcats))]
		if oneIn(r, 4) {
			cat = dcats[1]
		}
		d.lines = append(d.lines, dline{toks: []dtok{{typ: cat.typ, text: cat.name}}, kind: "head"})
		if cat.name == "LC_COLLATE" {
			os := dline{toks: []dtok{{typ: locale.ORDER_START_STR, text: "order_start"}}, indent: true, kind: "order_start"}
			if oneIn(r, 2) {
				w := r.IntN(3)
				os.toks = append(os.toks, dtok{typ: []int{locale.FORWARD_STR, locale.BACKWARD_STR, locale.POSITION_STR}[w], text: []string{"forward", "backward", "position"}[w], gap: ' '})
			}
			d.lines = append(d.lines, os)
			for j := 1 + r.IntN(6); j > 0; j-- {
				d.lines = append(d.lines, dline{toks: []dtok{{typ: locale.CHARSYMBOL, text: genCharSym(r)}}, kind: "order"})
			}
			d.lines = append(d.lines, dline{toks: []dtok{{typ: locale.ORDER_END_STR, text: "order_end"}}, kind: "order_end"})
		} else {
			any := false
			for j := 1 + r.IntN(6); j > 0; j-- {
				kw := cat.kws[r.IntN(len(cat.kws))]
				if cat.name == "LC_MONETARY" {
					if oneIn(r, 3) {
						kw = cat.kws[pick(r, 0, 4, 7)]
					}
					if usedMon[kw.word] {
						continue
					}
					usedMon[kw.word] = true
				}
				any = true
				d.addKeyword(r, cat, kw)
			}
			if !any {
				d.addKeyword(r, cat, dkw{"negative_sign", locale.NEGATIVE_SIGN_STR, kString})
			}
		}
		d.lines = append(d.lines, dline{toks: []dtok{{typ: locale.END_STR, text: "END"}, {typ: cat.typ, text: cat.name, gap: ' '}}, kind: "end"})
	}
	return d
}

func (d *ddef) addKeyword(r *rand.Rand, cat dcat, kw dkw) {
	v := d.value(r, cat.name, kw)
	v[0].gap = ' '
	d.lines = append(d.lines, dline{toks: append([]dtok{{typ: kw.typ, text: kw.word}}, v...), indent: true, kind: "kw"})
	switch kw.word {
	case "int_curr_symbol":
		d.hasSym = true
		d.sym = ""
		if v[0].typ != locale.TWO_DOUBLE_QUOTE_STR {
			for _, t := range v[1 : len(v)-1] {
				d.sym += t.text
			}
		}
	case "int_frac_digits":
		d.hasFrac = true
		d.frac, _ = strconv.Atoi(v[0].text)
	case "mon_grouping":
		d.hasGroup = true
		d.group = nil
		for _, t := range v {
			if t.typ == locale.NUMBER {
				n, _ := strconv.Atoi(t.text)
				d.group = append(d.group, n)
			}
		}
	}
}

// render lays the definition out; it returns the source and the text that its
// tokens should concatenate to.
func (d *ddef) render(r *rand.Rand, plain bool) (src, norm string) {
	var s, n strings.Builder
	comment := func(ch rune) {
		s.WriteRune(ch)
		s.WriteString(pick(r, "", " a comment", " \"quoted", " END LC_CTYPE", " LC_TIME", "####", " <A>;<B>", " comment_char !", " 100% é"))
		s.WriteByte('\n')
	}
	cur := '#'
	cm := func() {
		for !plain && oneIn(r, 5) {
			comment(cur)
		}
	}
	heads := []string{}
	if d.esc != '\\' {
		heads = append(heads, "e")
	}
	if d.comment != '#' {
		heads = append(heads, "c")
	}
	r.Shuffle(len(heads), func(i, j int) { heads[i], heads[j] = heads[j], heads[i] })
	cm()
	for _, h := range heads {
		sep := pick(r, " ", "  ", "\t")
		if h == "e" {
			s.WriteString("escape_char" + sep + string(d.esc) + "\n")
		} else {
			s.WriteString("comment_char" + sep + string(d.comment) + "\n")
			cur = d.comment
		}
		cm()
	}
	both := func(x string) {
		s.WriteString(x)
		n.WriteString(x)
	}
	blanks := func() string {
		if plain {
			return " "
		}
		return pick(r, " ", " ", "  ", "\t", "   \t ", "        ")
	}
	continued := false // the blanks around a continuation are its own
	cont := func() {
		continued = true
		for k := pick(r, 1, 1, 1, 1, 2, 3); k > 0; k-- { // also lines with nothing else
			s.WriteRune(d.esc)
			s.WriteByte('\n')
			s.WriteString(pick(r, "", " ", "    ", "\t"))
		}
	}
	for i, l := range d.lines {
		if i > 0 {
			cm()
			if !plain && (l.kind == "head" || oneIn(r, 4)) && oneIn(r, 12) { // from here on another comment character
				if to := pick(r, '*', '$', '%', '~', ';', '§', '#', '"', '('); to != d.esc {
					s.WriteString("comment_char " + string(to) + "\n")
					cur = to
				}
				cm()
			}
		}
		if l.indent && !plain && oneIn(r, 6) {
			both(blanks())
		}
		continued = false
		for _, t := range l.toks {
			switch t.gap {
			case ' ':
				both(blanks())
				if !plain && oneIn(r, 10) {
					cont()
				}
			case ';':
				if !plain && oneIn(r, 4) {
					cont()
				}
			}
			both(t.text)
		}
		last := i == len(d.lines)-1
		if !plain && !last && !continued && oneIn(r, 15) && (l.kind == "head" || l.kind == "end" && l.toks[1].text != "LC_COLLATE") {
			both(pick(r, " ", "\t", "  "))
		}
		if !last || oneIn(r, 2) {
			both("\n")
			for !plain && oneIn(r, 12) {
				both("\n")
			}
		}
	}
	if !plain && strings.HasSuffix(s.String(), "\n") && oneIn(r, 6) {
		comment(cur)
		if oneIn(r, 2) { // the last line may have no newline
			return strings.TrimSuffix(s.String(), "\n"), n.String()
		}
	}
	return s.String(), n.String()
}
