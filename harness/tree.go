package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
	"pgregory.net/rapid"
)

// Tree is a document as a tree of elements, without regard to whether it makes sense to print it.
type Tree struct {
	Meta    [3]string
	Orient  string
	Format  string
	Margins [4]string // as written, empty: missing
	Sheet   []ClassDef
	Header  *Node `json:",omitempty"`
	Footer  *Node `json:",omitempty"`
	Body    *Node `json:",omitempty"`
}

type treeGen struct {
	*gen
	wild   bool // numbers are bounded such that the document can be printed
	budget int
	names  []string
	n0     int
}

var containerKids = []string{"#text", "text", "box", "p", "br", "font", "lf", "setx", "sety", "newpage", "image", "table", "grid"}

func (g *treeGen) number() string {
	switch g.n(0, 4) {
	case 0:
		return pick(g.gen, "0", "-1", "1e2", "+3.5", "-0.25", ".5", "7.", "1E-3", "00012")
	case 1:
		return g.decimal(-1000, 1000)
	}
	return g.decimal(0, 100)
}

func (g *treeGen) freeText() string {
	var sb strings.Builder
	n := g.n(0, 5)
	if g.wild && g.pct(25) {
		n = g.n(0, 150)
	}
	for i := n; i > 0; i-- {
		switch g.n(0, 9) {
		case 0, 1:
			sb.WriteString(pick(g.gen, " ", "\n", "\t", "  \n ", "\r", "\u00a0"))
		case 2:
			sb.WriteString(pick(g.gen, "<", ">", "&", "\"", "'", "&amp;", "]]>", "<!--", "<b>", "</p>", "{cp}", "{np}", "\\", "😀", "\u2028", "a&b", "&#65;", "--"))
		case 3:
			sb.WriteString(pick(g.gen, utf8Words...))
		default:
			sb.WriteString(pick(g.gen, shortWords...))
		}
		if g.pct(50) {
			sb.WriteByte(' ')
		}
	}
	return sb.String()
}

// decls draws any declarations; in a wild tree, half of them from the values a document would use
func (g *treeGen) decls(el string, max int) []Decl {
	if !g.wild || g.pct(40) {
		return g.wideDecls(max)
	}
	var ds []Decl
	for i := g.n(0, max); i > 0; i-- {
		ds = append(ds, g.decl(pick(g.gen, allKeys...)))
	}
	return ds
}

func (g *treeGen) dress(n *Node) *Node {
	if g.pct(35) || g.wild && g.pct(40) {
		n.Style = g.decls(n.El, 4)
	}
	if g.pct(30) {
		for i := pick(g.gen, 1, 1, 2, 2, 3, 4, 6); i > 0; i-- {
			n.Class = append(n.Class, pick(g.gen, append([]string{"nope", "x-1"}, g.names...)...))
		}
	}
	if g.pct(5) {
		n.Attr = append(n.Attr, [2]string{pick(g.gen, "id", "lang", "data-x", "title"), g.freeText()})
	}
	return n
}

func (g *treeGen) node(el string, depth int) *Node {
	g.budget--
	n := &Node{El: el}
	kids := func(els []string, max int) {
		if depth <= 0 || g.budget <= 0 {
			return
		}
		for i := g.n(0, max); i > 0; i-- {
			n.Kids = append(n.Kids, g.node(pick(g.gen, els...), depth-1))
		}
	}
	switch el {
	case "#text":
		n.Text = g.freeText()
		return n
	case "p":
		n.Text = g.freeText()
	case "image":
		n.Text = pick(g.gen, "a.png", "sub/b.jpg", "x & y.gif", " c.png ", "", "ü.png")
	case "lf":
		if g.pct(85) {
			n.Attr = append(n.Attr, [2]string{"lines", g.number()})
		}
		return n
	case "setx", "sety":
		if g.pct(85) {
			n.Attr = append(n.Attr, [2]string{el[3:], g.number()})
		}
		return n
	case "br", "newpage":
		return n
	case "font":
	case "text", "box":
		if g.pct(80) {
			kids([]string{"#text", "#text", "#text", "p", "br"}, 5)
		} else {
			kids(containerKids, 4)
		}
	case "header", "footer", "body":
		kids(containerKids, 6)
	case "table":
		if g.pct(40) {
			n.Attr = append(n.Attr, [2]string{"repeatheader", fmt.Sprint(g.n(0, 10))})
		}
		kids([]string{"tr"}, 4)
	case "tr":
		kids([]string{"td"}, 4)
	case "td":
		for _, a := range []string{"colspan", "rowspan"} {
			if g.pct(25) {
				n.Attr = append(n.Attr, [2]string{a, pick(g.gen, fmt.Sprint(g.n(1, 4)), fmt.Sprint(g.n(1, 4)), fmt.Sprint(g.n(1, 4)), pick(g.gen, "10", "128", "256", "999", "1000", "+2", "007"))})
			}
		}
		kids([]string{"#text", "#text", "p", "br", "box", "image", "text", "table"}, 4)
	case "grid":
		w := g.n(1, 3)
		rows := &Node{El: "rows"}
		areas := []string{}
		for i := g.n(1, 3); i > 0; i-- {
			gr := &Node{El: "gr"}
			for k := 0; k < w; k++ {
				a := pick(g.gen, "a", "b", "c", "main", "ü")
				areas = append(areas, a)
				gr.Text += a + pick(g.gen, " ", "  ", "\n", "\t ")
			}
			g.dress(gr)
			rows.Kids = append(rows.Kids, gr)
		}
		parts := &Node{El: "parts"}
		for i := g.n(0, 2); i > 0; i-- {
			part := &Node{El: "part", Attr: [][2]string{{"area", pick(g.gen, areas...)}}}
			g.dress(part)
			if depth > 0 {
				for k := g.n(0, 3); k > 0; k-- {
					part.Kids = append(part.Kids, g.node(pick(g.gen, containerKids[1:]...), depth-2))
				}
			}
			parts.Kids = append(parts.Kids, part)
		}
		n.Kids = []*Node{rows, parts}
	}
	return g.dress(n)
}

// sheet draws style classes
func (g *treeGen) sheet() (out []ClassDef) {
	for i := g.n(0, 4); i > 0; i-- {
		name := fmt.Sprintf("%s%d", pick(g.gen, "c", "cls-", "Ä"), i)
		g.names = append(g.names, name)
		out = append(out, ClassDef{Name: name, Decls: g.decls("", 4)})
		for _, s := range sels {
			if g.pct(15) {
				out = append(out, ClassDef{Name: name, Sel: s, Decls: g.decls("", 3)})
			}
		}
	}
	return
}

func genTree(g *treeGen) *Tree {
	t := &Tree{}
	if g.pct(60) {
		for i := range t.Meta {
			t.Meta[i] = g.freeText()
		}
	}
	t.Orient = pick(g.gen, "", "portrait", "landscape", "upside down")
	t.Format = pick(g.gen, "", "a3", "a4", "a5", "letter", "legal", "b17")
	for i := range t.Margins {
		if g.pct(75) {
			t.Margins[i] = g.number()
		}
	}
	t.Sheet = g.sheet()
	if g.pct(60) {
		t.Header = g.node("header", 4)
	}
	if g.pct(60) {
		t.Footer = g.node("footer", 4)
	}
	if g.pct(95) {
		t.Body = g.node("body", 6)
	}
	return t
}

// amplify makes something of the tree large: a text, the number of children of an element, or the style sheet
func (t *Tree) amplify(g *treeGen) {
	var all, texts, parents []*Node
	var rec func(n *Node)
	rec = func(n *Node) {
		all = append(all, n)
		if strings.TrimSpace(n.Text) != "" && (n.El == "#text" || n.El == "p") {
			texts = append(texts, n)
		}
		if len(n.Kids) > 0 && n.El != "grid" && n.El != "rows" && n.El != "parts" {
			parents = append(parents, n)
		}
		for _, k := range n.Kids {
			rec(k)
		}
	}
	for _, n := range []*Node{t.Header, t.Footer, t.Body} {
		if n != nil {
			rec(n)
		}
	}
	switch mode := g.uniform(3); {
	case mode == 0 && len(texts) > 0:
		n := texts[g.uniform(len(texts))]
		size := pick(g.gen, 3000, 5000, 10000, 70000)
		var sb strings.Builder
		for i := 0; sb.Len() < size; i++ {
			fmt.Fprintf(&sb, "%s %d ", n.Text, i)
		}
		n.Text = sb.String()
	case mode == 1 && len(parents) > 0:
		n := parents[g.uniform(len(parents))]
		kids := n.Kids
		per := 0
		for _, k := range kids {
			per += 1 + k.words()
		}
		for i := min(pick(g.gen, 60, 130, 300)/len(kids), 3000/per); i > 0; i-- {
			for j, k := range kids {
				c := k.clone()
				if c.El == "#text" || c.El == "p" {
					c.Text += fmt.Sprintf(" %d.%d", i, j)
				}
				n.Kids = append(n.Kids, c)
			}
		}
	default:
		for i := pick(g.gen, 20, 40, 70, 130); i > 0; i-- {
			name := fmt.Sprintf("many%d", i)
			t.Sheet = append(t.Sheet, ClassDef{Name: name, Decls: g.decls("", 4)})
			if len(all) > 0 && g.pct(10) {
				if n := all[g.uniform(len(all))]; n.El == "text" || n.El == "box" || n.El == "td" || n.El == "p" {
					n.Class = append(n.Class, name)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- writing

// xmlWriter spells a tree as XML in one of many ways.
type xmlWriter struct {
	*gen
	sb    strings.Builder
	plain bool
	order bool // children of document and page in any order
}

func (w *xmlWriter) roll(p int) bool { return !w.plain && w.pct(p) }

func (w *xmlWriter) comment() {
	w.sb.WriteString(pick(w.gen, "<!-- a comment -->", "<!---->", "<?pi some data?>", "<!-- <p>no</p> & -->"))
}

func (w *xmlWriter) char(r rune, attr rune) {
	named := map[rune]string{'&': "&amp;", '<': "&lt;", '>': "&gt;", '"': "&quot;", '\'': "&apos;"}
	must := r == '&' || r == '<' || r == '\r' || attr != 0 && (r == attr || r == '\n' || r == '\t') || attr == 0 && r == '>'
	if !must && !w.roll(4) {
		if r == '\n' && attr == 0 && w.roll(20) {
			w.sb.WriteString("\r\n")
			return
		}
		w.sb.WriteRune(r)
		return
	}
	if s, ok := named[r]; ok && !w.roll(30) {
		w.sb.WriteString(s)
		return
	}
	if w.roll(50) {
		fmt.Fprintf(&w.sb, pick(w.gen, "&#x%x;", "&#x%X;", "&#x0%x;"), r)
		return
	}
	fmt.Fprintf(&w.sb, "&#%d;", r)
}

func (w *xmlWriter) text(s string) {
	rs := []rune(s)
	if len(rs) > 1500 && !w.plain {
		// special spellings just at few places
		a, b := len(rs)/2, len(rs)/2+20
		w.plain = true
		w.text(string(rs[:a]))
		w.plain = false
		w.text(string(rs[a:b]))
		w.plain = true
		w.text(string(rs[b:]))
		w.plain = false
		return
	}
	for i := 0; i < len(rs); {
		if w.roll(6) {
			w.comment()
		}
		if w.roll(8) {
			k := i + w.n(1, len(rs)-i)
			seg := string(rs[i:k])
			if !strings.Contains(seg, "]]>") && !strings.ContainsRune(seg, '\r') {
				w.sb.WriteString("<![CDATA[" + seg + "]]>")
				i = k
				continue
			}
		}
		w.char(rs[i], 0)
		i++
	}
}

func (w *xmlWriter) ws() string {
	if w.plain {
		return ""
	}
	return pick(w.gen, "", "", "", " ", "\n", "  ")
}

func (w *xmlWriter) attrs(as [][2]string) {
	if !w.plain && len(as) > 1 {
		as = rapid.Permutation(as).Draw(w.t, "attrs")
	}
	for _, a := range as {
		q := '"'
		if w.roll(40) {
			q = '\''
		}
		sp := " "
		if w.roll(20) {
			sp = pick(w.gen, "\n", "\t", "   ", "\r\n ")
		}
		eq := w.ws() + "=" + w.ws()
		w.sb.WriteString(sp + a[0] + eq + string(q))
		for _, r := range a[1] {
			w.char(r, q)
		}
		w.sb.WriteRune(q)
	}
}

// open writes a start tag; true: it is the whole element
func (w *xmlWriter) open(el string, as [][2]string, empty bool) bool {
	w.sb.WriteString("<" + el)
	w.attrs(as)
	w.sb.WriteString(w.ws())
	if empty && (w.plain || w.pct(60)) {
		w.sb.WriteString("/>")
		return true
	}
	w.sb.WriteString(">")
	return false
}

func (w *xmlWriter) close(el string) { w.sb.WriteString("</" + el + w.ws() + ">") }

func (w *xmlWriter) node(n *Node) {
	if n.El == "#text" {
		w.text(n.Text)
		return
	}
	as := append([][2]string{}, n.Attr...)
	if len(n.Class) > 0 {
		v := strings.Join(n.Class, " ")
		if w.roll(30) {
			v = " " + strings.Join(n.Class, pick(w.gen, "  ", "\n", " \t")) + " "
		}
		as = append(as, [2]string{"class", v})
	}
	if len(n.Style) > 0 || w.roll(5) {
		v := declString(n.Style)
		if !w.plain {
			v = w.spell(n.Style)
		}
		as = append(as, [2]string{"style", v})
	}
	if w.open(n.El, as, len(n.Kids) == 0 && n.Text == "") {
		return
	}
	w.text(n.Text)
	for i, k := range n.Kids {
		// white space next to text would be part of it
		if k.El != "#text" && (i == 0 || n.Kids[i-1].El != "#text") {
			if w.roll(40) {
				w.sb.WriteString(pick(w.gen, "\n", "  ", "\n\t", "\r\n"))
			}
		}
		if w.roll(5) {
			w.comment()
		}
		w.node(k)
	}
	if len(n.Kids) > 0 && n.Kids[len(n.Kids)-1].El != "#text" && w.roll(40) {
		w.sb.WriteString(pick(w.gen, "\n", "  "))
	}
	w.close(n.El)
}

func (w *xmlWriter) leaf(el, text string) func() {
	return func() {
		if w.open(el, nil, text == "") {
			return
		}
		w.text(text)
		w.close(el)
	}
}

// parts writes several children in order, or in any order
func (w *xmlWriter) parts(fs []func()) {
	if w.order && len(fs) > 1 {
		fs = rapid.Permutation(fs).Draw(w.t, "order")
	}
	for _, f := range fs {
		if w.plain {
			w.sb.WriteString("\n")
		} else {
			w.sb.WriteString(pick(w.gen, "", "\n", "  ", "\r\n\t"))
			if w.roll(8) {
				w.comment()
			}
		}
		f()
	}
}

// document writes the tree and returns the text and the end of the root element in it.
func (w *xmlWriter) document(t *Tree) (string, int) {
	if w.roll(4) {
		w.sb.WriteString("\ufeff")
	}
	if w.roll(30) {
		w.sb.WriteString(pick(w.gen, "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\r\n"))
	}
	if w.roll(15) {
		w.comment()
	}
	if w.roll(8) {
		w.sb.WriteString("<!DOCTYPE document>\n")
	}
	w.open("document", nil, false)
	var fs []func()
	if t.Meta != [3]string{} || w.roll(30) {
		fs = append(fs, func() {
			w.open("meta", nil, false)
			var ms []func()
			for i, n := range []string{"author", "creator", "subject"} {
				if t.Meta[i] != "" || w.roll(30) {
					ms = append(ms, w.leaf(n, t.Meta[i]))
				}
			}
			w.parts(ms)
			w.close("meta")
		})
	}
	fs = append(fs, func() {
		w.open("page", nil, false)
		var ps []func()
		if t.Orient != "" {
			ps = append(ps, w.leaf("orientation", t.Orient))
		}
		if t.Format != "" {
			ps = append(ps, w.leaf("format", t.Format))
		}
		if t.Margins != [4]string{} {
			ps = append(ps, func() {
				w.open("margins", nil, false)
				var ms []func()
				for i, n := range []string{"left", "top", "right", "bottom"} {
					if t.Margins[i] != "" {
						v := t.Margins[i]
						if w.roll(15) {
							v = pick(w.gen, " ", "\n") + v + " "
						}
						ms = append(ms, w.leaf(n, v))
					}
				}
				w.parts(ms)
				w.close("margins")
			})
		}
		w.parts(ps)
		w.close("page")
	})
	if len(t.Sheet) > 0 || w.roll(10) {
		s := "\n" + classSheet(t.Sheet)
		if w.roll(50) {
			s = ""
			for _, c := range t.Sheet {
				n := c.Name
				if c.Sel != "" {
					n += ":" + c.Sel
				}
				s += w.ws() + n + w.ws() + "{" + w.spell(c.Decls) + "}" + w.ws()
			}
		}
		fs = append(fs, w.leaf("style", s))
	}
	for _, n := range []*Node{t.Header, t.Footer, t.Body} {
		if n != nil {
			n := n
			fs = append(fs, func() { w.node(n) })
		}
	}
	w.parts(fs)
	w.sb.WriteString("\n")
	w.close("document")
	end := w.sb.Len()
	if w.roll(30) {
		w.sb.WriteString(pick(w.gen, "\n", " <!-- end -->", "\r\n\r\n"))
	}
	return w.sb.String(), end
}

// ---------------------------------------------------------------- normal form

var probeSty = [2]RSty{defaultSty(), {
	Font: Font{"base family", 7.25, "base", "base", "base"}, Border: [4]int{91, 92, 93, 94}, Pad: [4]float64{81, 82, 83, 84}, Margin: [4]float64{71, 72, 73, 74},
	Width: 1.5, Height: 2.5, LS: 3.5, OffX: 4.5, OffY: 5.5, ColW: 6.5, HAlign: "hbase", VAlign: "vbase", Fg: RGB{1, 2, 3}, Text: RGB{4, 5, 6}, Bg: RGB{7, 8, 9}, LW: 8.5,
}}

// norm is a list of lines describing a tree, the same for all ways to write it
type norm struct {
	lines []string
	depth int
	text  string // pending text
}

func (o *norm) add(format string, args ...any) {
	o.flush()
	o.lines = append(o.lines, strings.Repeat(" ", o.depth)+fmt.Sprintf(format, args...))
}

func (o *norm) flush() {
	t := o.text
	o.text = ""
	if len(strings.TrimSpace(t)) > 0 {
		o.lines = append(o.lines, strings.Repeat(" ", o.depth)+fmt.Sprintf("text %q", t))
	}
}

func (o *norm) in(f func()) {
	o.flush()
	o.depth++
	f()
	o.flush()
	o.depth--
}

func wantSty(n *Node) string {
	s := fmt.Sprintf("classes=%q", n.Class)
	for _, p := range probeSty {
		p.apply(n.Style)
		s += fmt.Sprintf(" %+v", fromSty(p))
	}
	return s
}

func haveSty(i xdoc.Instruction, classes []string) string {
	s := fmt.Sprintf("classes=%q", classes)
	for _, p := range probeSty {
		s += fmt.Sprintf(" %+v", i.MutatedStyles(nil, fromSty(p)))
	}
	return s
}

func (o *norm) wantNode(n *Node) {
	switch n.El {
	case "#text":
		o.text += n.Text
	case "p":
		o.add("p %q %s", n.Text, wantSty(n))
	case "image":
		o.add("image %q %s", n.Text, wantSty(n))
	case "lf":
		o.add("lf %v", n.attrF("lines"))
	case "setx":
		o.add("setx %v", n.attrF("x"))
	case "sety":
		o.add("sety %v", n.attrF("y"))
	case "br", "newpage":
		o.add("%s", n.El)
	case "font":
		o.add("font %s", wantSty(n))
	case "text", "box", "header", "footer", "body", "tr":
		o.add("%s %s", n.El, wantSty(n))
		o.in(func() { o.wantKids(n.Kids) })
	case "table":
		o.add("table %d %s", n.attrI("repeatheader", 0), wantSty(n))
		o.in(func() { o.wantKids(n.Kids) })
	case "td":
		o.add("td %d %d %s", n.attrI("colspan", 1), n.attrI("rowspan", 1), wantSty(n))
		o.in(func() { o.wantKids(n.Kids) })
	case "grid":
		o.add("grid %s", wantSty(n))
		o.in(func() {
			for _, k := range n.Kids {
				for _, kk := range k.Kids {
					if kk.El == "gr" {
						o.add("gr %q %s", strings.Fields(kk.Text), wantSty(kk))
					} else {
						a, _ := kk.attr("area")
						o.add("part %q %s", a, wantSty(kk))
						o.in(func() { o.wantKids(kk.Kids) })
					}
				}
			}
		})
	default:
		harnessFail("tree: element %q", n.El)
	}
}

func (o *norm) wantKids(ns []*Node) {
	for _, n := range ns {
		o.wantNode(n)
	}
}

func (t *Tree) norm() []string {
	o := &norm{}
	o.add("meta %q", t.Meta)
	m := [4]float64{}
	for i, s := range t.Margins {
		if s != "" {
			m[i] = mustF(s)
		}
	}
	o.add("page %q %q %v", t.Orient, t.Format, m)
	for _, c := range t.Sheet {
		for _, sel := range append([]string{""}, sels...) {
			if c.Sel != "" {
				continue
			}
			for _, p := range probeSty {
				p = (&Doc{Classes: t.Sheet}).resolve(p, &Node{Class: []string{c.Name}}, sel)
				o.add("class %s:%s %+v", c.Name, sel, fromSty(p))
			}
		}
	}
	for i, n := range []*Node{t.Header, t.Footer, t.Body} {
		if n == nil {
			n = &Node{El: []string{"header", "footer", "body"}[i]}
		}
		o.wantNode(n)
	}
	o.flush()
	return o.lines
}

func span(n int) int {
	if n == 0 {
		return 1
	}
	return n
}

func (o *norm) haveKids(iss []xdoc.Instruction) {
	for n, i := range iss {
		// words are never torn apart
		if b, ok := i.(*xdoc.TextBlock); ok && n > 0 {
			if a, ok := iss[n-1].(*xdoc.TextBlock); ok && a.Text != "" && b.Text != "" {
				last, _ := utf8.DecodeLastRuneInString(a.Text)
				first, _ := utf8.DecodeRuneInString(b.Text)
				if !unicode.IsSpace(last) && !unicode.IsSpace(first) {
					o.add("torn %q %q", a.Text, b.Text)
				}
			}
		}
		o.haveNode(i)
	}
}

func (o *norm) haveNode(i xdoc.Instruction) {
	switch i := i.(type) {
	case *xdoc.TextBlock:
		o.text += i.Text
	case *xdoc.Paragraph:
		o.add("p %q %s", i.Text, haveSty(i, i.Classes))
	case *xdoc.Image:
		o.add("image %q %s", i.Source, haveSty(i, i.Classes))
	case *xdoc.LineFeed:
		o.add("lf %v", i.Lines)
	case *xdoc.SetX:
		o.add("setx %v", i.X)
	case *xdoc.SetY:
		o.add("sety %v", i.Y)
	case *xdoc.LineBreak:
		o.add("br")
	case *xdoc.PageBreak:
		o.add("newpage")
	case *xdoc.Font:
		o.add("font %s", haveSty(i, i.Classes))
	case *xdoc.Text:
		o.add("text %s", haveSty(i, i.Styled.Classes))
		o.in(func() { o.haveKids(i.ISS) })
	case *xdoc.Box:
		o.add("box %s", haveSty(i, i.Styled.Classes))
		o.in(func() { o.haveKids(i.ISS) })
	case *xdoc.Table:
		o.add("table %d %s", i.RepeatHeader, haveSty(i, i.Classes))
		o.in(func() {
			for _, r := range i.Rows {
				o.add("tr %s", haveSty(r, r.Classes))
				o.in(func() {
					for _, c := range r.Cells {
						o.add("td %d %d %s", span(c.ColSpan), span(c.RowSpan), haveSty(c, c.Styled.Classes))
						o.in(func() { o.haveKids(c.ISS) })
					}
				})
			}
		})
	case *xdoc.Grid:
		o.add("grid %s", haveSty(i, i.Classes))
		o.in(func() {
			for _, r := range i.Rows {
				o.add("gr %q %s", r.Areas, haveSty(r, r.Classes))
			}
			for _, p := range i.Parts {
				o.add("part %q %s", p.Area, haveSty(p, p.Styled.Classes))
				o.in(func() { o.haveKids(p.ISS) })
			}
		})
	default:
		o.add("unexpected %T", i)
	}
}

// normOf describes a loaded document in the same terms.
func normOf(d *xdoc.Document, sheet []ClassDef) []string {
	o := &norm{}
	o.add("meta %q", [3]string{d.Meta.Author, d.Meta.Creator, d.Meta.Subject})
	m := d.Page.Margins
	o.add("page %q %q %v", string(d.Page.Orientation), string(d.Page.Format), [4]float64{m.Left, m.Top, m.Right, m.Bottom})
	n := 0
	for _, c := range sheet {
		if c.Sel != "" {
			continue
		}
		n++
		for _, sel := range append([]string{""}, sels...) {
			for _, p := range probeSty {
				var s style.Styles = fromSty(p)
				if sel == "" {
					d.StyleClasses().Mutate(&s, c.Name)
				} else {
					d.StyleClasses().MutateWithSelector(sel, &s, c.Name)
				}
				o.add("class %s:%s %+v", c.Name, sel, s)
			}
		}
	}
	if len(d.StyleClasses()) != n {
		o.add("%d classes", len(d.StyleClasses()))
	}
	for i, is := range []xdoc.Instructions{d.Header, d.Footer, d.Body} {
		is := is
		o.add("%s %s", []string{"header", "footer", "body"}[i], haveSty(&xdoc.Text{Styled: is.Styled}, is.Classes))
		o.in(func() { o.haveKids(is.ISS) })
	}
	o.flush()
	return o.lines
}

func sameLines(have, want []string) error {
	for i := range want {
		if i >= len(have) {
			return fmt.Errorf("missing: %s", want[i])
		}
		if have[i] != want[i] {
			return fmt.Errorf("line %d:\n  %s\ninstead of\n  %s", i, have[i], want[i])
		}
	}
	if len(have) > len(want) {
		return fmt.Errorf("additional: %s", have[len(want)])
	}
	return nil
}
