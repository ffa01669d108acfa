package main

import (
	"fmt"
	"math"
	"strings"

	"pgregory.net/rapid"
)

// Profile steers the document generator.
type Profile struct {
	Elems    [2]int         // number of body elements
	Kinds    map[string]int // weights of element kinds
	Aligns   map[string]int
	Words    int // max words per run of text
	LongPct  int // long words
	UTF8Pct  int
	SmallPct int // small pages
	Classes  bool
	Cascade  bool // styles from classes, at all levels, incl. irrelevant declarations
	Marginal int  // percentage of documents with header and footer
	Spans    string
	BoxCells int // percentage of cells with boxes
	UniqueBg bool
	Mixed    int // percentage of paragraphs with own font
	Breaks   int // percentage of forced breaks between runs
	MinRows  int
	MaxRows  int
	MaxCols  int
	RepPct   int
	Imgs     bool
	Big      int // percentage of large texts
	TopTable bool
	NoColW   bool
	// Force is put inline to all texts, boxes, tables and cells
	Force        []Decl
	Plain        int // percentage of elements without any style
	FreeCursor   bool
	MarginalImgs bool
	Marks        bool // placeholders among the words
}

type gen struct {
	t  *rapid.T
	p  *Profile
	d  *Doc
	bg int
	u8 bool
}

func (g *gen) n(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return rapid.IntRange(lo, hi).Draw(g.t, "n")
}

func (g *gen) pct(p int) bool {
	if p <= 0 {
		return false
	}
	if p >= 100 {
		return true
	}
	// compare random binary digits with those of 1-p, two on average
	rest := 128 - (p*128+50)/100
	for half := 64; half > 0; half /= 2 {
		bit := rapid.Bool().Draw(g.t, "p")
		switch {
		case bit && rest < half:
			return true
		case bit:
			rest -= half
		case rest >= half:
			return false
		}
	}
	return rest == 0
}

// uniform draws from 0 to n-1; g.n prefers small numbers.
func (g *gen) uniform(n int) int {
	u := 0
	for k := 1; k < 4*n; k *= 2 {
		u *= 2
		if rapid.Bool().Draw(g.t, "u") {
			u++
		}
	}
	return u % n
}

func pick[T any](g *gen, xs ...T) T {
	if len(xs) < 4 {
		return xs[g.n(0, len(xs)-1)]
	}
	return xs[g.uniform(len(xs))]
}

func (g *gen) weighted(ks []string, w map[string]int) string {
	sum := 0
	for _, k := range ks {
		sum += w[k]
	}
	if sum == 0 {
		return ks[0]
	}
	i := g.uniform(sum)
	for _, k := range ks {
		i -= w[k]
		if i < 0 {
			return k
		}
	}
	return ks[0]
}

var shortWords = strings.Fields("a I to of the and was it in he fox dog quick brown jumps over lazy lorem ipsum dolor sit amet text line page x1 42 3.14 end. (see) no, yes; A&B <b> \"q\" it's 100% €uro")
var longWords = strings.Fields("hyphenation typographical justification representation algorithm documentation extraordinary information international configuration university philosophical Metropolitan ASSOCIATION antidisestablishmentarianism internationalization understanding consideration miscellaneous table project present record associate concatenation supercalifragilistic communication responsibility electroencephalographically")
var utf8Words = strings.Fields("Größe naïve Übermäßig café слово предложение μεγάλος δοκιμή žluťoučký Œuvre señor łódź fünfzig Straße résumé cafe\u0301 Gro\u0308ße\u0300 日本語 x\u20d7y")

func (g *gen) word() string {
	r := g.uniform(100)
	switch {
	case g.p.Marks && r >= 94:
		return pick(g, "{cp}", "{np}", "({cp}/{np})", "p{cp}.")
	case r < 100-g.p.LongPct-20:
		w := pick(g, shortWords...)
		if !g.u8 {
			w = strings.ReplaceAll(w, "€", "E")
		}
		return w
	case r < 100-g.p.LongPct-12:
		if g.u8 {
			return pick(g, utf8Words...)
		}
		return pick(g, longWords...)
	case r < 100-g.p.LongPct-5:
		n := g.n(1, 9)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteByte("etaoinshrdlumwfgypbvkjxqz"[g.n(0, 24)])
		}
		return sb.String()
	case r < 100-g.p.LongPct:
		w := pick(g, longWords...)
		if g.pct(6) {
			w += strings.ToLower(pick(g, longWords...) + pick(g, longWords...))
		}
		if g.pct(12) { // words with hyphens of their own
			v := pick(g, pick(g, shortWords...), pick(g, longWords...))
			return pick(g, w+"-"+v, v+"-"+w, "-"+w, w+"-", "--", "-", v+"--"+w, v+"-"+v+"-"+w)
		}
		if g.pct(8) { // blanks which are letters
			return pick(g, "10", "a", w) + pick(g, "\u00a0", "\u00a0", "\u2003", "\u202f", "\u200b", "\u00ad", "\u3000", "\u0085") + pick(g, "km", "%", w)
		}
		return pick(g, "("+w+")", w+",", w+".", strings.ToUpper(w), w+pick(g, longWords...))
	default:
		if g.u8 && g.pct(30) {
			return pick(g, utf8Words...)
		}
		return pick(g, longWords...)
	}
}

func (g *gen) words(max int) string {
	n := g.n(1, max)
	var sb strings.Builder
	sep := func() string { return pick(g, " ", " ", " ", " ", "  ", "\n   ", "\t", " \r\n ") }
	if g.pct(25) {
		sb.WriteString(sep())
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteString(sep())
		}
		sb.WriteString(g.word())
	}
	if g.pct(25) {
		sb.WriteString(sep())
	}
	return sb.String()
}

func (g *gen) color() string {
	c := fmt.Sprintf("%02x%02x%02x", g.n(0, 255), g.n(0, 255), g.n(0, 255))
	return pick(g, "#", "") + c
}

func (g *gen) uniqueBg() string {
	g.bg++
	return fmt.Sprintf("#%06x", (g.bg*0x3f1d3)&0xffffff)
}

func (g *gen) family() string {
	if g.u8 {
		return pick(g, "DejaVu")
	}
	return pick(g, "Arial", "Times", "Courier", "Helvetica")
}

func (g *gen) quadF(vals ...string) string {
	return pick(g, vals...) + "," + pick(g, " ", "") + pick(g, vals...) + "," + pick(g, vals...) + ", " + pick(g, vals...)
}

// decimal draws a number with up to two decimals
func (g *gen) decimal(lo, hi float64) string {
	k := pick(g, 1.0, 10, 100)
	return num(float64(g.n(int(lo*k), int(hi*k))) / k)
}

var decimals = map[string][2]float64{"font-point-size": {5, 32}, "width": {15, 190}, "height": {1, 40}, "line-spacing": {0.6, 2.5}, "offset-x": {-8, 25}, "offset-y": {-2, 15}, "column-width": {8, 60}, "line-width": {0, 2.5}}

// decl draws a declaration for key k
func (g *gen) decl(k string) Decl {
	var v string
	if r, ok := decimals[k]; ok && g.pct(25) {
		return Decl{k, g.decimal(r[0], r[1])}
	}
	switch k {
	case "font-family":
		v = g.family()
	case "font-point-size":
		v = pick(g, "10", "12", "8", "9.5", "14", "18", "11", "24")
	case "font-style":
		v = pick(g, "normal", "italic")
	case "font-weight":
		v = pick(g, "normal", "bold")
	case "font-decoration":
		v = pick(g, "normal", "underline")
	case "border":
		v = g.quadF("0", "1", "0", "2", "0", "1", "0", "7")
	case "padding":
		v = g.quadF("0", "1", "2", "3.5", "5")
	case "margin":
		v = g.quadF("0", "1", "4.5")
	case "width":
		v = pick(g, "60", "40", "90", "75.5", "30", "120", "150", "1000", "-1")
	case "height":
		v = pick(g, "20", "10", "30", "15.5", "-1", "0", "0.5")
	case "line-spacing":
		v = pick(g, "1.5", "1", "1.2", "2", "1.05", "0.8")
	case "offset-x":
		v = pick(g, "0", "5", "10", "2.5", "-4", "-7.5")
	case "offset-y":
		v = pick(g, "0", "3", "1.5", "8", "-1")
	case "column-width":
		v = pick(g, "20", "25", "35", "30.5", "-1", "0")
	case "h-align":
		ks := []string{"left", "center", "right", "block"}
		v = g.weighted(ks, g.p.Aligns)
	case "v-align":
		v = pick(g, "top", "middle", "bottom")
	case "color", "text-color", "background-color":
		v = g.color()
	case "line-width":
		v = pick(g, "1", "0.5", "0.2", "2", "0")
	}
	return Decl{k, v}
}

var fontKeys = []string{"font-family", "font-point-size", "font-style", "font-weight", "font-decoration"}
var allKeys = append(append([]string{}, fontKeys...), "border", "padding", "margin", "width", "height", "line-spacing", "offset-x", "offset-y", "column-width", "h-align", "v-align", "color", "text-color", "background-color", "line-width")

// keysOf lists the keys which are drawn for an element with their probability.
func keysOf(el string) map[string]int {
	switch el {
	case "font", "p":
		return map[string]int{"font-family": 15, "font-point-size": 30, "font-style": 20, "font-weight": 25, "font-decoration": 10, "text-color": 25}
	case "text":
		return map[string]int{"font-family": 15, "font-point-size": 25, "font-style": 15, "font-weight": 15, "font-decoration": 10, "text-color": 25, "h-align": 65, "width": 45, "line-spacing": 35}
	case "box":
		return map[string]int{"font-family": 10, "font-point-size": 20, "font-style": 10, "font-weight": 15, "font-decoration": 8, "text-color": 20, "h-align": 60, "width": 55, "line-spacing": 30,
			"padding": 50, "border": 50, "height": 20, "offset-x": 20, "offset-y": 20, "background-color": 35, "color": 25, "line-width": 40}
	case "table":
		return map[string]int{"font-family": 8, "font-point-size": 15, "font-weight": 8, "text-color": 10, "h-align": 30, "v-align": 30, "width": 40, "line-spacing": 15, "padding": 30, "border": 30, "background-color": 15, "line-width": 30, "color": 10}
	case "tr":
		return map[string]int{"font-family": 5, "font-point-size": 10, "font-style": 10, "text-color": 10, "h-align": 15, "v-align": 20, "padding": 10, "border": 10, "background-color": 10, "line-width": 8, "color": 8}
	case "td":
		return map[string]int{"font-family": 8, "font-point-size": 15, "font-style": 8, "font-weight": 8, "text-color": 15, "h-align": 30, "v-align": 35, "padding": 25, "border": 20, "line-spacing": 10, "line-width": 10, "color": 10, "background-color": 15}
	case "image":
		return map[string]int{"width": 45, "height": 45, "offset-x": 25, "offset-y": 25}
	}
	return nil
}

func (g *gen) decls(el string) []Decl {
	var out []Decl
	ks := keysOf(el)
	for _, k := range allKeys {
		if g.pct(ks[k]) {
			out = append(out, g.decl(k))
		}
	}
	if len(out) > 1 && g.pct(20) { // other order
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

// styled draws classes and inline style of an element.
func (g *gen) styled(n *Node) {
	if g.pct(g.p.Plain) {
		return
	}
	g.style(n)
	for _, d := range g.p.Force {
		switch n.El {
		case "text", "box", "table":
			n.setStyle(d.K, d.V)
		}
	}
}

func (g *gen) style(n *Node) {
	if !g.p.Cascade {
		if g.p.Classes && len(g.d.Classes) > 0 {
			for g.pct(25) && len(n.Class) < 3 {
				n.Class = append(n.Class, pick(g, g.d.Classes...).Name)
			}
		}
		n.Style = g.decls(n.El)
		return
	}
	for g.pct(45) && len(n.Class) < 5 {
		if len(g.d.Classes) > 0 && g.pct(85) {
			n.Class = append(n.Class, pick(g, g.d.Classes...).Name)
		} else {
			n.Class = append(n.Class, "unknown")
		}
	}
	if g.pct(45) {
		for i := g.n(0, 3); i > 0; i-- {
			d := g.decl(g.cascadeKey())
			n.setStyle(d.K, d.V)
		}
	}
	if n.El == "image" {
		n.Style = append(n.Style, g.decls(n.El)...)
	}
}

func (g *gen) cascadeKey() string {
	// colours and fonts are visible everywhere, the others depend on the element
	return pick(g, "font-family", "font-point-size", "font-style", "font-weight", "font-decoration", "text-color", "background-color", "color",
		"line-width", "padding", "border", "h-align", "v-align", "line-spacing", "text-color", "font-weight", "background-color", "width", "offset-x", "offset-y", "margin")
}

func (g *gen) makeClasses() {
	if !g.p.Classes {
		return
	}
	n := g.n(0, 5)
	if g.p.Cascade {
		n = g.n(2, 6)
	}
	for i := 0; i < n; i++ {
		name := pick(g, "c", "cl-", "Cls_") + fmt.Sprint(i)
		draw := func() []Decl {
			var ds []Decl
			tmp := &Node{}
			for k := g.n(0, 4); k > 0; k-- {
				d := g.decl(g.cascadeKey())
				tmp.setStyle(d.K, d.V)
			}
			ds = tmp.Style
			return ds
		}
		g.d.Classes = append(g.d.Classes, ClassDef{Name: name, Decls: draw()})
		if g.p.Cascade || g.pct(30) {
			for _, sel := range []string{"first-row", "last-row", "first-cell", "last-cell"} {
				if g.pct(35) {
					g.d.Classes = append(g.d.Classes, ClassDef{Name: name, Sel: sel, Decls: draw()})
				}
			}
		}
	}
}

// runs fills a text container
func (g *gen) runs(n *Node, maxWords int) {
	if g.pct(4) {
		if g.pct(50) {
			n.Kids = append(n.Kids, &Node{El: "#text", Text: pick(g, " ", "\n", "\t \n")})
		}
		return
	}
	k := g.n(1, 3)
	for i := 0; i < k; i++ {
		switch {
		case g.pct(g.p.Mixed):
			p := &Node{El: "p", Text: g.words((maxWords + 1) / 2)}
			g.styled(p)
			n.Kids = append(n.Kids, p)
			if g.pct(15) {
				n.Kids = append(n.Kids, &Node{El: "#text", Text: "\n  "})
			}
		default:
			txt := g.words(maxWords)
			if l := len(n.Kids); l > 0 && n.Kids[l-1].El == "#text" {
				txt = " " + txt
			}
			n.Kids = append(n.Kids, &Node{El: "#text", Text: txt})
		}
		for g.pct(g.p.Breaks) {
			n.Kids = append(n.Kids, &Node{El: "br"})
		}
	}
}

func (g *gen) maxWords() int {
	if g.pct(g.p.Big) {
		return g.p.Words * 5
	}
	return g.p.Words
}

func (g *gen) textNode() *Node {
	n := &Node{El: "text"}
	g.styled(n)
	g.runs(n, g.maxWords())
	return n
}

func (g *gen) boxNode(maxWords int) *Node {
	n := &Node{El: "box"}
	g.styled(n)
	if !g.pct(8) {
		g.runs(n, maxWords)
	}
	return n
}

var imgNames = []string{"a.png", "b.jpg", "sub/c.png", "d.gif", "./e.png", "a.png", "b.jpg", "sub/c.png", "d.gif", "../up.png", "missing.png", "broken.png", "../up.png", "cut.png", "cut.jpg", "cut.gif", "damaged.png"}

func (g *gen) imageNode() *Node {
	n := &Node{El: "image"}
	g.styled(n)
	if g.pct(8) {
		n.setStyle(pick(g, "width", "height"), pick(g, "0", "-0.5")) // not requested
	}
	name := pick(g, imgNames...)
	if g.d.Imgs == nil {
		g.d.Imgs = map[string][2]int{}
	}
	if _, ok := g.d.Imgs[name]; !ok {
		px := [2]int{pick(g, 40, 1, 96, 200, 7, 500), pick(g, 40, 1, 96, 200, 13, 700)}
		switch {
		case name == "missing.png" || name == "broken.png":
			px = [2]int{}
		case strings.HasPrefix(name, "cut") || strings.HasPrefix(name, "damaged"):
			px = [2]int{0, g.uniform(1000)}
		}
		g.d.Imgs[name] = px
	}
	n.Text = name
	return n
}

// tiling draws a grid tiled by spanning cells: list per row of {colspan,rowspan}
func (g *gen) tiling(rows, cols int, mode string) [][][2]int {
	covered := make([][]bool, rows+6)
	for i := range covered {
		covered[i] = make([]bool, cols)
	}
	out := make([][][2]int, rows)
	bandEnd := 0
	for r := 0; r < rows; r++ {
		if r >= bandEnd {
			bandEnd = r + 1
			if mode == "bands" && g.pct(40) {
				bandEnd = r + g.n(2, 3)
				if g.pct(12) {
					bandEnd = r + 4 + g.uniform(4)
				}
			}
			if bandEnd > rows {
				bandEnd = rows
			}
		}
		for c := 0; c < cols; c++ {
			if covered[r][c] {
				continue
			}
			cs, rs := 1, 1
			if mode != "" && g.pct(25) {
				maxc := 1
				for c+maxc < cols && !covered[r][c+maxc] {
					maxc++
				}
				cs = g.n(1, maxc)
			}
			switch {
			case mode == "any" && g.pct(25):
				rs = g.n(1, 3)
				if g.pct(12) {
					rs = 4 + g.uniform(3)
				}
				if r+rs > rows && !(r == rows-1 && g.pct(10)) {
					rs = rows - r
				}
			case mode == "bands" && bandEnd-r > 1 && g.pct(40):
				rs = bandEnd - r
			}
			for i := 0; i < rs; i++ {
				for j := 0; j < cs; j++ {
					covered[r+i][c+j] = true
				}
			}
			out[r] = append(out[r], [2]int{cs, rs})
		}
	}
	// a span reaching below the last row needs the whole row to do so
	reach := rows
	for r := rows; r < len(covered); r++ {
		any := false
		for c := 0; c < cols; c++ {
			any = any || covered[r][c]
		}
		if any {
			reach = r + 1
		}
	}
	if reach > rows {
		for r := rows; r < reach; r++ {
			for c := 0; c < cols; c++ {
				if !covered[r][c] { // not tiled: clip all spans to the table
					for rr := range out {
						for k := range out[rr] {
							if rr+out[rr][k][1] > rows {
								out[rr][k][1] = rows - rr
							}
						}
					}
					return out
				}
			}
		}
	}
	return out
}

func (g *gen) tableNode() *Node {
	n := &Node{El: "table"}
	g.styled(n)
	lo := g.p.MinRows
	if lo == 0 {
		lo = 1
	}
	rows, cols := g.n(lo, g.p.MaxRows), g.n(1, g.p.MaxCols)
	if g.pct(12) { // wide tables
		cols = g.p.MaxCols + g.uniform(3)
	}
	if g.pct(g.p.RepPct) {
		n.Attr = append(n.Attr, [2]string{"repeatheader", fmt.Sprint(pick(g, 1, 1, 1+g.uniform(3), g.uniform(min(rows+2, 11))))})
	}
	til := g.tiling(rows, cols, g.p.Spans)
	for r := 0; r < rows; r++ {
		tr := &Node{El: "tr"}
		if g.p.Cascade || g.pct(30) {
			g.styled(tr)
		}
		for _, sp := range til[r] {
			td := &Node{El: "td"}
			if g.p.Cascade || g.pct(60) {
				g.styled(td)
			}
			if g.p.UniqueBg {
				td.setStyle("background-color", g.uniqueBg())
			}
			if sp[0] > 1 || g.pct(3) {
				td.Attr = append(td.Attr, [2]string{"colspan", fmt.Sprint(sp[0])})
			}
			if sp[1] > 1 || g.pct(3) {
				td.Attr = append(td.Attr, [2]string{"rowspan", fmt.Sprint(sp[1])})
			}
			if sp[0] == 1 && !g.p.NoColW && g.pct(15) {
				d := g.decl("column-width")
				td.setStyle(d.K, d.V)
			}
			if sp[1] == 1 && g.pct(10) {
				d := g.decl("height")
				td.setStyle(d.K, d.V)
			}
			switch {
			case g.pct(g.p.BoxCells):
				if g.pct(50) {
					g.runs(td, (g.p.Words+2)/3)
				}
				for k := g.n(1, 2); k > 0; k-- {
					td.Kids = append(td.Kids, g.boxNode((g.p.Words+2)/3))
					if g.pct(30) {
						g.runs(td, (g.p.Words+2)/3)
					}
				}
			case g.pct(6):
			default:
				g.runs(td, (g.p.Words+1)/2)
			}
			if g.p.Imgs && g.pct(12) {
				td.Kids = append(td.Kids, g.imageNode())
			}
			tr.Kids = append(tr.Kids, td)
		}
		n.Kids = append(n.Kids, tr)
	}
	return n
}

var elemKinds = []string{"text", "box", "table", "lf", "setx", "sety", "newpage", "font", "image", "grid"}

func (g *gen) elem() *Node {
	switch k := g.weighted(elemKinds, g.p.Kinds); k {
	case "text":
		return g.textNode()
	case "box":
		return g.boxNode(g.maxWords())
	case "table":
		return g.tableNode()
	case "lf":
		if g.p.FreeCursor && g.pct(50) {
			return &Node{El: "lf", Attr: [][2]string{{"lines", g.decimal(0, 12)}}}
		}
		return &Node{El: "lf", Attr: [][2]string{{"lines", pick(g, "1", "2", "0.5", "3", "8", "1.5", "20", "45")}}}
	case "setx":
		if g.p.FreeCursor && g.pct(50) {
			if g.pct(25) { // in the right margin or near to it
				return &Node{El: "setx", Attr: [][2]string{{"x", num(g.d.geo().W - float64(g.uniform(400))/10)}}}
			}
			return &Node{El: "setx", Attr: [][2]string{{"x", g.decimal(-200, 200)}}}
		}
		return &Node{El: "setx", Attr: [][2]string{{"x", pick(g, "30", "50", "20.5", "-80", "-100", "70", "0")}}}
	case "sety":
		if g.p.FreeCursor && g.pct(50) {
			if g.pct(25) { // in the bottom margin or near to it
				return &Node{El: "sety", Attr: [][2]string{{"y", num(g.d.geo().H - float64(g.uniform(60)))}}}
			}
			return &Node{El: "sety", Attr: [][2]string{{"y", g.decimal(-280, 280)}}}
		}
		return &Node{El: "sety", Attr: [][2]string{{"y", pick(g, "40", "60", "-60", "100.5", "-30", "130", "-20", "30")}}}
	case "newpage":
		return &Node{El: "newpage"}
	case "font":
		n := &Node{El: "font"}
		g.styled(n)
		if len(n.Style) == 0 {
			n.Style = g.decls("font")
		}
		return n
	case "image":
		return g.imageNode()
	case "grid":
		return &Node{El: "grid", Kids: []*Node{
			{El: "rows", Kids: []*Node{{El: "gr", Text: "a b"}, {El: "gr", Text: " a c "}}},
			{El: "parts", Kids: []*Node{{El: "part", Attr: [][2]string{{"area", "a"}}, Kids: []*Node{{El: "text", Text: "in grid"}}}}},
		}}
	}
	return nil
}

func (g *gen) page() {
	d := g.d
	d.Format = pick(g, "a4", "a5", "letter", "", "a3", "legal")
	d.Orient = pick(g, "portrait", "landscape", "")
	m := [4]float64{}
	geo := d.geo()
	switch {
	case g.pct(g.p.SmallPct): // short pages
		m[1] = pick(g, 10.0, 15.5, 20)
		m[3] = geo.H - m[1] - pick(g, 90.0, 60, 120, 75.3)
		m[0] = pick(g, 10.0, 20, 15)
		m[2] = pick(g, 10.0, 20, 12.5)
	default:
		m[0] = pick(g, 10.0, 20, 15.5, 0, 2)
		m[1] = pick(g, 10.0, 20, 25.5, 0)
		m[2] = pick(g, 10.0, 20, 30, 0)
		m[3] = pick(g, 10.0, 20, 40, 0)
	}
	if g.pct(25) { // narrow page
		m[2] = math.Max(m[2], math.Floor(geo.W-m[0]-2-pick(g, 90.0, 70, 110)))
	}
	if m == [4]float64{} && g.pct(50) {
		return
	}
	d.Margins = &m
}

func (p Profile) doc(t *rapid.T) *Doc {
	d := &Doc{}
	g := &gen{t: t, p: &p, d: d}
	g.u8 = g.pct(p.UTF8Pct)
	d.UTF8 = g.u8
	g.page()
	g.makeClasses()
	if g.u8 {
		// the default font has no glyphs for UTF-8
		d.Body = append(d.Body, &Node{El: "font", Style: []Decl{{"font-family", "DejaVu"}}})
	}
	if p.TopTable {
		d.Body = append(d.Body, g.tableNode())
	}
	n := g.n(p.Elems[0], p.Elems[1])
	for i := 0; i < n; i++ {
		e := g.elem()
		d.Body = append(d.Body, e)
		if e.El == "sety" && p.FreeCursor && g.pct(25) {
			d.Body = append(d.Body, &Node{El: "lf", Attr: [][2]string{{"lines", g.decimal(-3, 0)}}})
		}
	}
	if g.pct(p.Marginal) {
		d.Header = g.marginal(true)
		d.Footer = g.marginal(false)
	}
	d.repair()
	return d
}

func (g *gen) marginal(header bool) []*Node {
	if g.pct(8) {
		return nil
	}
	var out []*Node
	if header {
		out = append(out, &Node{El: "sety", Attr: [][2]string{{"y", pick(g, "2", "5", "0", "1.5")}}})
	} else {
		out = append(out, &Node{El: "sety", Attr: [][2]string{{"y", pick(g, "-10", "-15", "-20.5", "-8")}}})
	}
	sub := *g.p
	sub.Words, sub.Big, sub.Marks = 5, 0, true
	sub.Kinds = map[string]int{"text": 40, "box": 15, "font": 12, "setx": 8, "lf": 6, "table": 6, "newpage": 3}
	if g.p.MarginalImgs {
		sub.Kinds["image"] = 15
	}
	sub.MaxRows, sub.MaxCols, sub.Spans, sub.BoxCells, sub.RepPct = 2, 3, "", 0, 0
	save := g.p
	g.p = &sub
	defer func() { g.p = save }()
	tag := "H"
	if !header {
		tag = "F"
	}
	for i := g.n(1, 4); i > 0; i-- {
		out = append(out, g.elem())
	}
	last := &Node{El: "text", Kids: []*Node{{El: "#text", Text: pick(g, tag+" {cp} of {np}", tag+"{cp}", tag+" {np} {cp} {cp}", tag)}}}
	if g.pct(40) {
		last.El = pick(g, "text", "text", "box")
		g.styled(last)
	}
	out = append(out, last)
	return out
}
