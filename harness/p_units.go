package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/text"
	"pgregory.net/rapid"
)

func newGen(t *rapid.T) *gen { return &gen{t: t, p: &Profile{}, d: &Doc{}} }

// ------------------------------------------------------------- C05

type hyphCase struct {
	Set      string   // en-us, latin or empty for own patterns
	Patterns []string `json:",omitempty"`
	Dress    string   `json:",omitempty"` // how the pattern list is written
	File     bool     `json:",omitempty"`
	Words    []string
}

var alphabets = []string{"ab", "abc", "abcde", "aeéßü", "абвг", "αβγδ", "abⱥé", "etaoin", "日本ab", "a%b", "a'b", "#ab&", "/*-a"}

func randCase(g *gen, s string) string {
	switch g.n(0, 5) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		rs := []rune(s)
		for i := range rs {
			if g.pct(50) {
				rs[i] = []rune(strings.ToUpper(string(rs[i])))[0]
			}
		}
		return string(rs)
	case 2:
		rs := []rune(s)
		if len(rs) > 0 {
			return strings.ToUpper(string(rs[0])) + string(rs[1:])
		}
	}
	return s
}

func genHyph(t *rapid.T) *hyphCase {
	g := newGen(t)
	c := &hyphCase{}
	alpha := []rune(pick(g, alphabets...))
	letters := func(lo, hi int) string {
		var sb strings.Builder
		for i := g.n(lo, hi); i > 0; i-- {
			sb.WriteRune(pick(g, alpha...))
		}
		return sb.String()
	}
	c.Dress = pick(g, "", "crlf", "blank", "indent", "noeol")
	c.File = g.pct(15)
	for i := g.n(1, 6); i > 0; i-- {
		var w string
		switch g.n(0, 9) {
		case 0:
			w = letters(0, 3)
		case 1:
			w = letters(20, 110)
		case 2: // around the limit of 100 bytes
			w = strings.Repeat(string(alpha[0]), 96/utf8.RuneLen(alpha[0])) + letters(0, 6)
		case 3:
			w = letters(1, 5) + pick(g, " ", "-", "'", "(", "x", "é", "1", "%", "&", "\u00ad", "’") + letters(1, 6)
		default:
			w = letters(3, 18)
		}
		c.Words = append(c.Words, randCase(g, w))
	}
	seen := map[string]bool{}
	for i := g.n(0, 25); i > 0; i-- {
		ls := ""
		switch {
		case g.pct(50): // a part of a word, up to all of it
			rs := []rune(strings.ToLower(pick(g, c.Words...)))
			if len(rs) == 0 || len(rs) > 40 || strings.ContainsFunc(string(rs), func(r rune) bool { return unicode.IsDigit(r) || unicode.IsSpace(r) || r == '.' }) {
				continue
			}
			a, b := g.n(0, len(rs)-1), len(rs)
			if g.pct(60) {
				b = g.n(a+1, len(rs))
			}
			if g.pct(30) {
				a = 0
			}
			ls = string(rs[a:b])
			if a == 0 && g.pct(50) {
				ls = "." + ls
			}
			if b == len(rs) && g.pct(50) {
				ls += "."
			}
		default:
			ls = letters(1, 5)
			if g.pct(15) {
				ls = "." + ls
			}
			if g.pct(15) {
				ls += "."
			}
		}
		if seen[ls] {
			continue
		}
		seen[ls] = true
		var sb strings.Builder
		rs := []rune(ls)
		for k := 0; k <= len(rs); k++ {
			if g.pct(40) {
				fmt.Fprint(&sb, g.n(0, 9))
			}
			if k < len(rs) {
				sb.WriteRune(rs[k])
			}
		}
		c.Patterns = append(c.Patterns, sb.String())
	}
	return c
}

func genHyphReal(t *rapid.T) *hyphCase {
	g := newGen(t)
	c := &hyphCase{Set: pick(g, "en-us", "latin")}
	for i := g.n(1, 6); i > 0; i-- {
		var w string
		switch g.n(0, 6) {
		case 0, 1:
			w = pick(g, longWords...)
		case 2:
			w = pick(g, longWords...) + pick(g, "s", "ing", "-", ",", "'s", "ß", "é") + pick(g, longWords...)
		case 3:
			w = pick(g, utf8Words...)
		case 4: // glued parts of words
			for k := g.n(1, 4); k > 0; k-- {
				p := pick(g, longWords...)
				a := g.n(0, len(p)-1)
				w += p[a:g.n(a, len(p))]
			}
		default:
			for k := g.n(1, 20); k > 0; k-- {
				w += string("etaoinshrdlcumwfgypbvkjxqz"[g.n(0, 25)])
			}
		}
		c.Words = append(c.Words, randCase(g, w))
	}
	return c
}

var setLatin *hyphenation.Hyphenator

func checkHyph(c *hyphCase, st *Stats) error {
	var h *hyphenation.Hyphenator
	var ref *Liang
	switch c.Set {
	case "en-us":
		h, ref = enUs(), refEnUs()
	case "latin":
		if setLatin == nil {
			setLatin = hyphenation.NewLatin()
		}
		h, ref = setLatin, refLatin()
	default:
		var sb strings.Builder
		for i, p := range c.Patterns {
			eol := "\n"
			switch c.Dress {
			case "crlf":
				eol = "\r\n"
			case "blank":
				eol = "\n\n \t\n"
			case "indent":
				eol = "\t \n\t  "
			case "noeol":
				if i == len(c.Patterns)-1 {
					eol = ""
				}
			}
			sb.WriteString(p + eol)
		}
		var err error
		if c.File {
			dir, done := scratch()
			defer done()
			f := filepath.Join(dir, "patterns.txt")
			os.WriteFile(f, []byte(sb.String()), 0o644)
			h, err = hyphenation.LoadFromFile(f)
		} else {
			h, err = hyphenation.Load(strings.NewReader(sb.String()))
		}
		if err != nil {
			return fmt.Errorf("valid patterns are not loaded: %w", err)
		}
		ref = newLiang(c.Patterns)
	}
	for _, w := range c.Words {
		have := h.Hyphenate(w)
		if strings.Join(have, "") != w {
			return fmt.Errorf("parts %q of %q do not give the word", have, w)
		}
		if len(have) > 1 {
			st.NonTrivial()
			st.Class("divided")
			for _, p := range have {
				if !utf8.ValidString(p) || utf8.RuneCountInString(p) < 2 {
					return fmt.Errorf("parts %q of %q: %q cuts a letter or has less than two", have, w, p)
				}
			}
		}
		want := ref.parts(w)
		if fmt.Sprintf("%q", have) != fmt.Sprintf("%q", want) {
			return fmt.Errorf("%q is divided into %q instead of %q", w, have, want)
		}
		st.ClassIf(len(w) > 95 && len(w) < 106, "about 100 bytes long")
		st.ClassIf(len(w) != utf8.RuneCountInString(w), "not ascii")
	}
	return nil
}

// ------------------------------------------------------------- C06

type spaceCase struct{ S, Twin string }

func genSpace(t *rapid.T) *spaceCase {
	g := newGen(t)
	var sb strings.Builder
	tok := []string{" ", "  ", "\t", "\n", "\r", "\r\n", "\\", "\\\\", "a", "b", "foo", "é", "\u00a0", "\u2003", "ab", "\v", "x y", "<", "日"}
	for i := g.n(0, 25); i > 0; i-- {
		s := pick(g, tok...)
		if g.pct(5) {
			u := pick(g, tok...) + pick(g, tok...)
			if g.pct(60) {
				u += pick(g, tok...)
			}
			s = strings.Repeat(u, 2+g.uniform(29))
		}
		if g.pct(10) {
			s = strings.Repeat(s, g.n(2, 20))
		}
		sb.WriteString(s)
	}
	return &spaceCase{S: sb.String()}
}

func genTwins(t *rapid.T) *spaceCase {
	g := newGen(t)
	c := &spaceCase{Twin: pick(g, " ", "ab", "\n", "bar", "aa", "aba", "a", "", "é", "abab", "bar ")}
	var sb strings.Builder
	for i := g.n(0, 20); i > 0; i-- {
		if g.pct(55) {
			s := c.Twin
			if g.pct(20) {
				s = strings.Repeat(s, g.n(2, 40))
			}
			sb.WriteString(s)
			continue
		}
		sb.WriteString(pick(g, "a", "b", "ab", "ba", " ", "r", "x", "é", "\n"))
	}
	c.S = sb.String()
	return c
}

func refSpace(s string) string {
	out := strings.Join(fields(s), " ")
	var sb strings.Builder
	rs := []rune(out)
	for i, r := range rs {
		if r == ' ' && (i > 0 && rs[i-1] == '\\' || i+1 < len(rs) && rs[i+1] == '\\') {
			continue
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

func checkSpace(c *spaceCase, st *Stats) error {
	have, want := text.WhitespaceRectified(c.S), refSpace(c.S)
	if have != want {
		return fmt.Errorf("%q is normalised to %q instead of %q", c.S, have, want)
	}
	if again := text.WhitespaceRectified(have); again != have {
		return fmt.Errorf("normalising %q again gives %q", have, again)
	}
	st.NonTrivialIf(have != c.S && strings.Contains(have, " "))
	st.ClassIf(strings.Contains(c.S, "\\"), "with backslashes")
	return nil
}

func checkTwins(c *spaceCase, st *Stats) error {
	have := text.RemoveTwins(c.S, c.Twin)
	if c.Twin == "" {
		if have != c.S {
			return fmt.Errorf("nothing to collapse in %q, got %q", c.S, have)
		}
		return nil
	}
	twice := c.Twin + c.Twin
	if strings.Contains(have, twice) {
		return fmt.Errorf("%q with %q collapsed gives %q", c.S, c.Twin, have)
	}
	if !strings.Contains(c.S, twice) {
		if have != c.S {
			return fmt.Errorf("%q has no repeated %q, but is changed to %q", c.S, c.Twin, have)
		}
		return nil
	}
	st.NonTrivial()
	if again := text.RemoveTwins(have, c.Twin); again != have {
		return fmt.Errorf("collapsing %q in %q again gives %q", c.Twin, have, again)
	}
	// runs of a token which does not overlap itself are well defined
	bordered := false
	for i := 1; i < len(c.Twin); i++ {
		bordered = bordered || strings.HasSuffix(c.Twin, c.Twin[:i])
	}
	if !bordered {
		want := regexp.MustCompile("(?:"+regexp.QuoteMeta(c.Twin)+")+").ReplaceAllLiteralString(c.S, c.Twin)
		if have != want {
			return fmt.Errorf("%q with %q collapsed gives %q instead of %q", c.S, c.Twin, have, want)
		}
	}
	return nil
}

// ------------------------------------------------------------- C11

// fromSty converts the reference style.
func fromSty(s RSty) style.Styles {
	rgb := func(c RGB) style.RGB { return style.RGB{R: c[0], G: c[1], B: c[2]} }
	var o style.Styles
	o.Font = style.Font{Family: s.Font.Family, PointSize: s.Font.Size, Style: style.FontStyle(s.Font.Style), Weight: style.FontWeight(s.Font.Weight), Decoration: style.FontDecoration(s.Font.Deco)}
	o.Border = style.Border{Left: s.Border[0], Top: s.Border[1], Right: s.Border[2], Bottom: s.Border[3]}
	o.Padding = style.Padding{Left: s.Pad[0], Top: s.Pad[1], Right: s.Pad[2], Bottom: s.Pad[3]}
	o.Margin = style.Margin{Left: s.Margin[0], Top: s.Margin[1], Right: s.Margin[2], Bottom: s.Margin[3]}
	o.Width, o.Height, o.LineSpacing, o.OffsetX, o.OffsetY = s.Width, s.Height, s.LS, s.OffX, s.OffY
	o.ColumnWidth = s.ColW
	o.HAlign, o.VAlign = style.HAlign(s.HAlign), style.VAlign(s.VAlign)
	o.Foreground, o.Color.Text, o.Background = rgb(s.Fg), rgb(s.Text), rgb(s.Bg)
	o.LineWidth = s.LW
	return o
}

type declCase struct {
	Base    RSty
	Src     string
	Decls   []Decl
	Bad     string `json:",omitempty"` // what is malformed
	Sheet   []ClassDef
	Use     []string `json:",omitempty"`
	Sel     string   `json:",omitempty"`
	Reorder []int    `json:",omitempty"`
}

var wsRuns = []string{"", "", " ", "  ", "\n", "\t", "\r\n  "}

func (g *gen) randomSty() RSty {
	q := func() (v [4]float64) {
		for i := range v {
			v[i] = mustF(g.decimal(-5, 30))
		}
		return
	}
	c := func() RGB { return RGB{g.n(0, 255), g.n(0, 255), g.n(0, 255)} }
	f := func() float64 { return mustF(g.decimal(-100, 300)) }
	return RSty{
		Font:   Font{pick(g, "Arial", "x y", "Ünï"), f(), pick(g, "normal", "italic", "?"), pick(g, "normal", "bold"), pick(g, "normal", "underline")},
		Border: [4]int{g.n(-1, 3), g.n(-1, 3), g.n(-1, 3), g.n(-1, 3)}, Pad: q(), Margin: q(), Width: f(), Height: f(), LS: f(), OffX: f(), OffY: f(), ColW: f(),
		HAlign: pick(g, "left", "block"), VAlign: pick(g, "top", "bottom"), Fg: c(), Text: c(), Bg: c(), LW: f(),
	}
}

// wideDecl: any value a declaration can have
func (g *gen) wideDecl() Decl {
	k := pick(g, allKeys...)
	number := func() string {
		switch g.n(0, 5) {
		case 0:
			return pick(g, "0", "-1", "1e2", "+3.5", "-0.25", ".5", "7.", "1E-3", "100000", "00012")
		case 1:
			return num(math.Round(rapid.Float64Range(-1e6, 1e6).Draw(g.t, "f")*1e4) / 1e4)
		}
		return g.decimal(-50, 300)
	}
	sep := func() string { return pick(g, ",", ",", ", ", ",  ") }
	switch k {
	case "font-family":
		return Decl{k, pick(g, "Arial", "Deja Vu", "x", "Ünïcode", "'quoted'", "a,b", "1", "a/b")}
	case "font-style", "font-weight", "font-decoration", "h-align", "v-align":
		if g.pct(20) {
			return Decl{k, pick(g, "", "other", "BOLD", "justify")}
		}
		return g.decl(k)
	case "border":
		n := func() string { return pick(g, "0", "1", "2", "-1", "17", "+3", "100") }
		return Decl{k, n() + sep() + n() + sep() + n() + sep() + n()}
	case "padding", "margin":
		n := func() string { return g.decimal(-20, 50) }
		return Decl{k, n() + sep() + n() + sep() + n() + sep() + n()}
	case "color", "text-color", "background-color":
		c := fmt.Sprintf("%06x", rapid.IntRange(0, 0xffffff).Draw(g.t, "rgb"))
		if g.pct(50) {
			c = strings.ToUpper(c)
		}
		return Decl{k, pick(g, "#", "") + c}
	}
	return Decl{k, number()}
}

func (g *gen) wideDecls(max int) []Decl {
	var ds []Decl
	for i := g.n(0, max); i > 0; i-- {
		if g.pct(10) {
			ds = append(ds, Decl{pick(g, "unknown", "font", "Width", "font_size", "colour", "styles", "x-y", "left", "padding-left", "FONT-FAMILY"), pick(g, "1", "abc", "", "#fff", "1,2,3")})
			continue
		}
		if len(ds) > 0 && g.pct(20) { // repeated key
			k := ds[g.n(0, len(ds)-1)].K
			d := g.wideDecl()
			for tries := 0; d.K != k && tries < 30; tries++ {
				d = g.wideDecl()
			}
			ds = append(ds, d)
			continue
		}
		ds = append(ds, g.wideDecl())
	}
	return ds
}

func (g *gen) spell(ds []Decl) string {
	var sb strings.Builder
	w := func() string { return pick(g, wsRuns...) }
	for i, d := range ds {
		sb.WriteString(w() + d.K + w() + ":" + w() + d.V + w())
		if i < len(ds)-1 || g.pct(60) {
			sb.WriteString(";")
		}
		for g.pct(6) {
			sb.WriteString(w() + ";")
		}
	}
	sb.WriteString(w())
	return sb.String()
}

// badDecl gives a malformed declaration.
func (g *gen) badDecl() (string, string) {
	fl := pick(g, "width", "height", "line-spacing", "offset-x", "offset-y", "column-width", "font-point-size", "line-width")
	col := pick(g, "color", "text-color", "background-color")
	q := pick(g, "padding", "margin", "border")
	switch g.n(0, 5) {
	case 0:
		return pick(g, "width", "color", "no colon", "width 10", "="), "no colon"
	case 1:
		return pick(g, "width:1:2", "a:b:c", "color:#ff0000:1", "::", "width::10", "padding:1,2,3,4:"), "several colons"
	case 2:
		return fl + ":" + pick(g, "", "abc", "12mm", "1,5", "10 20", "--1", "1.2.3", "50%", "0x", "1e", "ten", "#5"), "number"
	case 3:
		return col + ":" + pick(g, "", "#", "red", "#fff", "#12345", "#1234567", "#gggggg", "12345", "#-12345", "rgb(1,2,3)", "##00000", "##ff0000", "#-f0000", "0xff00", "#ff0000#", "# ff0000", "#00 000", "#ff00f", "ff00ff00", "+12345"), "color"
	case 4:
		if q == "border" && g.pct(40) {
			return q + ":" + pick(g, "1.5,1,1,1", "1,1,1,1.5", "1,1,0.5,1"), "border value"
		}
		return q + ":" + pick(g, "", "1", "1,2", "1,2,3", "1,2,3,", "1,2,3,4,5", "1,2,3,4,", "1 2 3 4", "a,b,c,d", "1,2,3,x", "1,,3,4", "1,2,3,4mm", "1;2", "1,2,3,4 5", ",,,"), "sides"
	}
	return pick(g, "wid", "x", "/*", "//", "@", "!", "_", "bold") + pick(g, "", " ", "-") + pick(g, "y", "10"), "no colon"
}

func genDecls(t *rapid.T) *declCase {
	g := newGen(t)
	g.p = &Profile{Aligns: anyAlign}
	c := &declCase{Base: g.randomSty(), Decls: g.wideDecls(8)}
	c.Src = g.spell(c.Decls)
	return c
}

func genBadDecls(t *rapid.T) *declCase {
	g := newGen(t)
	g.p = &Profile{Aligns: anyAlign}
	c := &declCase{}
	bad, what := g.badDecl()
	c.Bad = what + ": " + bad
	src := g.spell(g.wideDecls(3))
	if strings.TrimSpace(src) != "" && !strings.HasSuffix(strings.TrimSpace(src), ";") {
		src += ";"
	}
	src += pick(g, wsRuns...) + bad
	var rest []Decl
	for _, d := range g.wideDecls(3) {
		if !strings.HasPrefix(bad, d.K) { // it would replace the malformed one
			rest = append(rest, d)
		}
	}
	if tail := g.spell(rest); tail != "" {
		src += ";" + tail
	}
	c.Src = src
	return c
}

func checkDecls(c *declCase, st *Stats) error {
	m, err := style.DecodeMutator(strings.NewReader(c.Src))
	if c.Bad != "" {
		st.NonTrivial()
		if err == nil {
			return fmt.Errorf("malformed declaration (%s) is accepted in %q", c.Bad, c.Src)
		}
		if m != nil {
			return fmt.Errorf("a style change is returned together with the error %v for %q", err, c.Src)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%q is rejected: %w", c.Src, err)
	}
	base := fromSty(c.Base)
	have := base
	m.Mutate(&have)
	want := c.Base
	want.apply(c.Decls)
	st.NonTrivialIf(len(c.Decls) > 0)
	if w := fromSty(want); have != w {
		return fmt.Errorf("%q gives\n%+v instead of\n%+v from\n%+v", c.Src, have, w, base)
	}
	m.Mutate(&have)
	if have != fromSty(want) {
		return fmt.Errorf("%q applied twice gives something else", c.Src)
	}
	if fromSty(c.Base) != base {
		return fmt.Errorf("the style which is passed by value is changed")
	}
	return nil
}

var sels = []string{"first-row", "last-row", "first-cell", "last-cell"}

func genSheet(t *rapid.T) *declCase {
	g := newGen(t)
	g.p = &Profile{Aligns: anyAlign}
	c := &declCase{Base: g.randomSty()}
	var sb strings.Builder
	w := func() string { return pick(g, " ", "", "\n", "\t", "\r\n  ") }
	names := []string{"a", "bold-x", "C", "äé", "x_1", "a.b", "#id"}
	var used []string
	for i := g.n(0, 5); i > 0; i-- {
		n := pick(g, names...)
		dup := false
		for _, u := range used {
			dup = dup || u == n
		}
		if dup {
			continue
		}
		used = append(used, n)
		c.Sheet = append(c.Sheet, ClassDef{Name: n, Decls: g.wideDecls(4)})
	}
	if g.pct(2) { // large sheets
		for i := pick(g, 20, 40, 70, 130); i > 0; i-- {
			n := fmt.Sprintf("many%d", i)
			used = append(used, n)
			c.Sheet = append(c.Sheet, ClassDef{Name: n, Decls: g.wideDecls(4)})
		}
	}
	var variants []ClassDef
	for _, d := range c.Sheet {
		for _, s := range sels {
			if g.pct(30) {
				variants = append(variants, ClassDef{Name: d.Name, Sel: s, Decls: g.wideDecls(4)})
			}
		}
	}
	// variants may stand anywhere behind their class
	for _, v := range variants {
		lo := 0
		for i, d := range c.Sheet {
			if d.Name == v.Name && d.Sel == "" {
				lo = i + 1
			}
		}
		at := g.n(lo, len(c.Sheet))
		c.Sheet = append(c.Sheet[:at], append([]ClassDef{v}, c.Sheet[at:]...)...)
	}
	for _, d := range c.Sheet {
		n := d.Name
		if d.Sel != "" {
			n += pick(g, "", "", w()) + ":" + pick(g, "", "", w()) + d.Sel
		}
		sb.WriteString(w() + n + w() + "{" + g.spell(d.Decls) + "}" + w())
	}
	c.Src = sb.String()
	for i := g.n(0, 4); i > 0; i-- {
		if len(used) > 0 && g.pct(80) {
			c.Use = append(c.Use, pick(g, used...))
		} else {
			c.Use = append(c.Use, pick(g, "nope", "", "A"))
		}
	}
	c.Sel = pick(g, "", "first-row", "last-row", "first-cell", "last-cell", "other")
	return c
}

func genBadSheet(t *rapid.T) *declCase {
	c := genSheet(t)
	g := newGen(t)
	g.p = &Profile{Aligns: anyAlign}
	good := c.Src
	block := func() string { return "{" + g.spell(g.wideDecls(2)) + "}" }
	var bad string
	switch g.n(0, 9) {
	case 8, 9:
		// a brace too many or too few anywhere, often next to another one
		src := good + " zz " + block() + " zz:first-row " + block() + pick(g, "", " yy "+block())
		var at []int
		near := g.pct(60)
		for i := range src {
			if !near || src[i] == '{' || src[i] == '}' || i > 0 && (src[i-1] == '{' || src[i-1] == '}') {
				at = append(at, i)
			}
		}
		at = append(at, len(src))
		i := at[g.uniform(len(at))]
		if i < len(src) && (src[i] == '{' || src[i] == '}') && g.pct(50) {
			c.Src, c.Bad = src[:i]+src[i+1:], "a brace is missing"
		} else {
			c.Src, c.Bad = src[:i]+pick(g, "{", "}")+src[i:], "a brace too many"
		}
		return c
	case 0:
		bad, c.Bad = pick(g, " ", "\n", "")+block(), "class without name"
		good = strings.TrimRight(good, " \r\n\t")
	case 1:
		bad, c.Bad = "zz {"+g.spell(g.wideDecls(2)), "block is not closed"
	case 2:
		bad, c.Bad = "zz "+block()+" }", "brace is not opened"
	case 3:
		bad, c.Bad = "zz { { width: 1 }", "nested brace"
	case 4:
		bad, c.Bad = "zz:first-row "+block(), "variant without class"
		if g.pct(50) {
			bad += " zz " + block()
		}
	case 5:
		d, what := g.badDecl()
		bad, c.Bad = "zz { width: 1;"+d+"; font-family: x }", "malformed declaration in class: "+what+" "+d
	case 6:
		bad, c.Bad = pick(g, "zz", "zz:first-row", "bold", "/"), "class without block"
		c.Src = good + " " + bad + pick(g, "", " ", "\n")
		return c
	case 7:
		bad, c.Bad = pick(g, ":first-row ", ":x ")+block(), "variant without class name"
	}
	c.Src = good + " " + bad
	if strings.HasPrefix(c.Bad, "block is not closed") || g.pct(50) {
		return c
	}
	c.Src += " tail " + block()
	return c
}

func checkSheet(c *declCase, st *Stats) error {
	cs, err := style.DecodeClasses(strings.NewReader(c.Src))
	if c.Bad != "" {
		st.NonTrivial()
		if err == nil {
			return fmt.Errorf("malformed style sheet (%s) is accepted: %q", c.Bad, c.Src)
		}
		if cs != nil {
			return fmt.Errorf("style classes are returned together with the error %v for %q", err, c.Src)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("style sheet is rejected: %w\n%s", err, c.Src)
	}
	bases := 0
	for _, d := range c.Sheet {
		if d.Sel == "" {
			bases++
			if _, ok := cs[d.Name]; !ok {
				return fmt.Errorf("class %q is missing in %q", d.Name, c.Src)
			}
		}
	}
	if len(cs) != bases {
		return fmt.Errorf("%d classes instead of %d in %q", len(cs), bases, c.Src)
	}
	doc := &Doc{Classes: c.Sheet}
	have := fromSty(c.Base)
	cs.Mutate(&have, c.Use...)
	want := doc.resolve(c.Base, &Node{Class: c.Use}, "")
	if w := fromSty(want); have != w {
		return fmt.Errorf("classes %q of %q give\n%+v instead of\n%+v", c.Use, c.Src, have, w)
	}
	have = fromSty(c.Base)
	cs.MutateWithSelector(c.Sel, &have, c.Use...)
	want = doc.resolve(c.Base, &Node{Class: c.Use}, c.Sel)
	if w := fromSty(want); have != w {
		return fmt.Errorf("classes %q with %q of %q give\n%+v instead of\n%+v", c.Use, c.Sel, c.Src, have, w)
	}
	st.NonTrivialIf(len(c.Use) > 0 && have != fromSty(c.Base))
	return nil
}

// fuzzDecls: any string is decoded or rejected, and what is accepted conforms to the grammar
type anyCase struct{ S string }

func genAnyStyle(t *rapid.T) *anyCase {
	g := newGen(t)
	g.p = &Profile{Aligns: anyAlign}
	if g.pct(15) {
		return &anyCase{rapid.String().Draw(t, "s")}
	}
	toks := append([]string{":", ";", ";", ":", "{", "}", ",", "#", " ", "\n", "1", "1.5", "-1", "1,2,3,4", "#ff0000", "ff0000", "abc", "é", "\x00", "1e999", "inf", "0x10", "1_0"}, allKeys...)
	var sb strings.Builder
	for i := g.n(0, 24); i > 0; i-- {
		if g.pct(25) {
			d := g.wideDecl()
			sb.WriteString(d.K + ":" + d.V + ";")
			continue
		}
		sb.WriteString(pick(g, toks...))
	}
	return &anyCase{sb.String()}
}

var colorRe = regexp.MustCompile(`^#?[0-9a-fA-F]{6}$`)
var sidesRe = regexp.MustCompile(`^[^,]+,[^,]+,[^,]+,[^,]+$`)

func checkAnyStyle(c *anyCase, st *Stats) error {
	m, err := style.DecodeMutator(strings.NewReader(c.S))
	style.DecodeClasses(strings.NewReader(c.S))
	if err != nil {
		if m != nil {
			return fmt.Errorf("a style change is returned together with the error %v", err)
		}
		st.Class("rejected")
		return nil
	}
	st.Class("accepted")
	// whatever is accepted is a list of key:value with values of their types
	vals := map[string]string{}
	for _, part := range strings.Split(c.S, ";") {
		part = strings.Trim(part, " \t\r\n")
		if part == "" {
			continue
		}
		kv := strings.Split(part, ":")
		if len(kv) != 2 {
			return fmt.Errorf("%q is accepted with the declaration %q", c.S, part)
		}
		vals[strings.Trim(kv[0], " \t\r\n")] = strings.Trim(kv[1], " \t\r\n")
	}
	sentinel := defaultSty()
	sentinel.Border = [4]int{91, 92, 93, 94}
	sentinel.Pad = [4]float64{81, 82, 83, 84}
	sentinel.Margin = [4]float64{71, 72, 73, 74}
	have := fromSty(sentinel)
	base := have
	m.Mutate(&have)
	n := 0
	for _, k := range allKeys {
		v, ok := vals[k]
		if !ok {
			continue
		}
		n++
		switch k {
		case "font-family", "font-style", "font-weight", "font-decoration", "h-align", "v-align":
		case "color", "text-color", "background-color":
			if !colorRe.MatchString(v) {
				return fmt.Errorf("color %q is accepted in %q", v, c.S)
			}
		case "border", "padding", "margin":
			if !sidesRe.MatchString(v) {
				return fmt.Errorf("%s %q is accepted in %q", k, v, c.S)
			}
		default:
			if _, err := strconv.ParseFloat(v, 64); err != nil {
				return fmt.Errorf("%s %q is accepted in %q", k, v, c.S)
			}
		}
	}
	if n == 0 && have != base {
		return fmt.Errorf("%q names no known key, but changes the style", c.S)
	}
	st.NonTrivialIf(n > 0)
	return nil
}

func init() {
	register(&Prop{ID: "C05", Rule: "random pattern sets over small alphabets (ascii, accented, cyrillic, greek, letters whose lower case has another length) and the two shipped sets; words of 0 to 110 letters in mixed case, compared with a reference implementation; non-trivial: a word is divided",
		Subs: []*Sub{
			sub("patterns", 60000, 4000000, genHyph, checkHyph),
			sub("shipped", 40000, 2000000, genHyphReal, checkHyph),
		}})
	register(&Prop{ID: "C06", Rule: "random strings of white space, backslashes, letters and tokens, compared with a field-based reference; non-trivial: the result differs from the input and contains a blank, or a repeated token was collapsed",
		Subs: []*Sub{
			sub("space", 200000, 8000000, genSpace, checkSpace),
			sub("twins", 200000, 8000000, genTwins, checkTwins),
		}})
	register(&Prop{ID: "C11", Rule: "random declaration lists and style sheets in varying spelling applied to random styles and compared with a reference, lists and sheets with one malformed part, and random token strings; non-trivial: a declaration is present or malformed",
		Subs: []*Sub{
			sub("declarations", 60000, 3000000, genDecls, checkDecls),
			sub("malformed", 60000, 3000000, genBadDecls, checkDecls),
			sub("sheets", 30000, 1500000, genSheet, checkSheet),
			sub("malformed-sheets", 30000, 1500000, genBadSheet, checkSheet),
			sub("any", 80000, 4000000, genAnyStyle, checkAnyStyle),
		}})
}
