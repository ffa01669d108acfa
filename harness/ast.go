package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Decl is one style declaration.
type Decl struct{ K, V string }

// ClassDef is one block of a style sheet; Sel is the positional variant or empty.
type ClassDef struct {
	Name  string
	Sel   string `json:",omitempty"`
	Decls []Decl
}

// Node is an element (or text, El "#text") of a document.
type Node struct {
	El    string
	Class []string    `json:",omitempty"`
	Style []Decl      `json:",omitempty"`
	Attr  [][2]string `json:",omitempty"`
	Text  string      `json:",omitempty"`
	Kids  []*Node     `json:",omitempty"`
}

// Doc is a generated document.
type Doc struct {
	Orient  string      `json:",omitempty"`
	Format  string      `json:",omitempty"`
	Margins *[4]float64 `json:",omitempty"` // left, top, right, bottom
	Meta    [3]string   `json:",omitempty"`
	Classes []ClassDef  `json:",omitempty"`
	Header  []*Node     `json:",omitempty"`
	Footer  []*Node     `json:",omitempty"`
	Body    []*Node
	UTF8    bool              `json:",omitempty"` // with DejaVu fonts
	Imgs    map[string][2]int `json:",omitempty"` // image files: size in pixels, 0: not readable
}

func num(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func esc(s string) string {
	r := strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&quot;", "'", "&#39;")
	return r.Replace(s)
}

func declString(ds []Decl) string {
	var sb strings.Builder
	for _, d := range ds {
		sb.WriteString(d.K + ": " + d.V + "; ")
	}
	return strings.TrimSpace(sb.String())
}

func (n *Node) attr(k string) (string, bool) {
	for _, a := range n.Attr {
		if a[0] == k {
			return a[1], true
		}
	}
	return "", false
}

func (n *Node) attrF(k string) float64 {
	s, _ := n.attr(k)
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

func (n *Node) attrI(k string, def int) int {
	s, ok := n.attr(k)
	if !ok {
		return def
	}
	i, _ := strconv.Atoi(s)
	return i
}

func (n *Node) setStyle(k, v string) {
	for i := range n.Style {
		if n.Style[i].K == k {
			n.Style[i].V = v
			return
		}
	}
	n.Style = append(n.Style, Decl{k, v})
}

func (n *Node) write(sb *strings.Builder) {
	if n.El == "#text" {
		sb.WriteString(esc(n.Text))
		return
	}
	sb.WriteString("<" + n.El)
	for _, a := range n.Attr {
		fmt.Fprintf(sb, " %s=\"%s\"", a[0], esc(a[1]))
	}
	if len(n.Class) > 0 {
		fmt.Fprintf(sb, " class=\"%s\"", esc(strings.Join(n.Class, " ")))
	}
	if len(n.Style) > 0 {
		fmt.Fprintf(sb, " style=\"%s\"", esc(declString(n.Style)))
	}
	if len(n.Kids) == 0 && n.Text == "" {
		sb.WriteString("/>")
		return
	}
	sb.WriteString(">")
	sb.WriteString(esc(n.Text))
	for _, k := range n.Kids {
		k.write(sb)
	}
	sb.WriteString("</" + n.El + ">")
}

func nodesXML(ns []*Node) string {
	var sb strings.Builder
	for _, n := range ns {
		n.write(&sb)
		if n.El != "#text" {
			sb.WriteString("\n")
		}
	}
	return sb.String()
}

func (d *Doc) XML() string {
	var sb strings.Builder
	sb.WriteString("<document>\n")
	if d.Meta != [3]string{} {
		fmt.Fprintf(&sb, "<meta><author>%s</author><creator>%s</creator><subject>%s</subject></meta>\n", esc(d.Meta[0]), esc(d.Meta[1]), esc(d.Meta[2]))
	}
	sb.WriteString("<page>")
	if d.Orient != "" {
		sb.WriteString("<orientation>" + d.Orient + "</orientation>")
	}
	if d.Format != "" {
		sb.WriteString("<format>" + d.Format + "</format>")
	}
	if d.Margins != nil {
		m := d.Margins
		fmt.Fprintf(&sb, "<margins><left>%s</left><top>%s</top><right>%s</right><bottom>%s</bottom></margins>", num(m[0]), num(m[1]), num(m[2]), num(m[3]))
	}
	sb.WriteString("</page>\n")
	if len(d.Classes) > 0 {
		sb.WriteString("<style>\n" + esc(classSheet(d.Classes)) + "</style>\n")
	}
	if d.Header != nil {
		sb.WriteString("<header>\n" + nodesXML(d.Header) + "</header>\n")
	}
	if d.Footer != nil {
		sb.WriteString("<footer>\n" + nodesXML(d.Footer) + "</footer>\n")
	}
	sb.WriteString("<body>\n" + nodesXML(d.Body) + "</body>\n</document>\n")
	return sb.String()
}

func classSheet(cs []ClassDef) string {
	var sb strings.Builder
	for _, c := range cs {
		sb.WriteString(c.Name)
		if c.Sel != "" {
			sb.WriteString(":" + c.Sel)
		}
		sb.WriteString(" { " + declString(c.Decls) + " }\n")
	}
	return sb.String()
}

// ------------------------------------------------------------ geometry

var formatSizes = map[string][2]float64{ // points, portrait
	"a3":     {841.89, 1190.55},
	"a4":     {595.28, 841.89},
	"a5":     {420.94, 595.28},
	"letter": {612, 792},
	"legal":  {612, 1008},
}

// Geo is the page geometry in millimeters.
type Geo struct {
	W, H           float64
	L, T, R, B     float64
	X0, Y0, X1, Y1 float64 // printable area
}

func (d *Doc) geo() Geo {
	sz, ok := formatSizes[d.Format]
	if !ok {
		sz = formatSizes["a4"]
	}
	w, h := sz[0]*ptToMM, sz[1]*ptToMM
	if d.Orient == "landscape" {
		w, h = h, w
	}
	g := Geo{W: w, H: h}
	if d.Margins != nil {
		g.L, g.T, g.R, g.B = d.Margins[0], d.Margins[1], d.Margins[2], d.Margins[3]
	}
	g.X0, g.Y0, g.X1, g.Y1 = g.L, g.T, w-g.R-2, h-g.B
	return g
}

// ------------------------------------------------------------ styles

// RSty is the reference style record.
type RSty struct {
	Font   Font
	Border [4]int // left, top, right, bottom
	Pad    [4]float64
	Margin [4]float64
	Width  float64
	Height float64
	LS     float64
	OffX   float64
	OffY   float64
	ColW   float64
	HAlign string
	VAlign string
	Fg     RGB
	Text   RGB
	Bg     RGB
	LW     float64
}

func defaultSty() RSty {
	return RSty{
		Font:   Font{"Arial", 12, "normal", "normal", "normal"},
		Width:  -1,
		Height: -1,
		LS:     1.5,
		ColW:   -1,
		HAlign: "left",
		VAlign: "top",
		Bg:     RGB{255, 255, 255},
		LW:     1,
	}
}

func mustF(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		harnessFail("reference style: number %q", s)
	}
	return f
}

func mustRGB(s string) RGB {
	n, err := strconv.ParseUint(strings.TrimPrefix(s, "#"), 16, 32)
	if err != nil {
		harnessFail("reference style: color %q", s)
	}
	return RGB{int(n >> 16 & 255), int(n >> 8 & 255), int(n & 255)}
}

func quad(s string) (q [4]float64) {
	ps := strings.Split(s, ",")
	if len(ps) != 4 {
		harnessFail("reference style: quad %q", s)
	}
	for i, p := range ps {
		q[i] = mustF(strings.TrimSpace(p))
	}
	return
}

func (s *RSty) apply(ds []Decl) {
	for _, d := range ds {
		switch d.K {
		case "font-family":
			s.Font.Family = d.V
		case "font-point-size":
			s.Font.Size = mustF(d.V)
		case "font-style":
			s.Font.Style = d.V
		case "font-weight":
			s.Font.Weight = d.V
		case "font-decoration":
			s.Font.Deco = d.V
		case "border":
			q := quad(d.V)
			for i := range q {
				s.Border[i] = int(q[i])
			}
		case "padding":
			s.Pad = quad(d.V)
		case "margin":
			s.Margin = quad(d.V)
		case "width":
			s.Width = mustF(d.V)
		case "height":
			s.Height = mustF(d.V)
		case "line-spacing":
			s.LS = mustF(d.V)
		case "offset-x":
			s.OffX = mustF(d.V)
		case "offset-y":
			s.OffY = mustF(d.V)
		case "column-width":
			s.ColW = mustF(d.V)
		case "h-align":
			s.HAlign = d.V
		case "v-align":
			s.VAlign = d.V
		case "color":
			s.Fg = mustRGB(d.V)
		case "text-color":
			s.Text = mustRGB(d.V)
		case "background-color":
			s.Bg = mustRGB(d.V)
		case "line-width":
			s.LW = mustF(d.V)
		}
	}
}

// resolve gives the style of n from the inherited one; sel is the positional selector or empty.
func (d *Doc) resolve(base RSty, n *Node, sel string) RSty {
	s := base
	for _, cn := range n.Class {
		var def, variant *ClassDef
		for i := range d.Classes {
			c := &d.Classes[i]
			if c.Name != cn {
				continue
			}
			if c.Sel == "" {
				def = c
			} else if c.Sel == sel {
				variant = c
			}
		}
		if def == nil {
			continue
		}
		if sel != "" && variant != nil {
			s.apply(variant.Decls)
		} else {
			s.apply(def.Decls)
		}
	}
	s.apply(n.Style)
	return s
}

func positional(i, n int, what string) string {
	switch {
	case i == 0:
		return "first-" + what
	case i == n-1:
		return "last-" + what
	}
	return ""
}

// ------------------------------------------------------------ text content

// Item is a word or a forced break of a text container.
type Item struct {
	Brk bool
	W   string
	Sty *RSty
}

func fields(s string) []string {
	return strings.FieldsFunc(s, isBlank)
}

// isBlank tells if r separates words; other kinds of blanks (no-break, narrow, ...) are letters of a word
func isBlank(r rune) bool { return r == ' ' || r == '\n' || r == '\r' || r == '\t' }

// items lists words and breaks of a container with style sty.
func (d *Doc) items(n *Node, sty *RSty) []Item {
	var out []Item
	for _, k := range n.Kids {
		switch k.El {
		case "#text":
			for _, w := range fields(k.Text) {
				out = append(out, Item{W: w, Sty: sty})
			}
		case "p":
			ps := d.resolve(*sty, k, "")
			txt := k.Text
			for _, kk := range k.Kids {
				if kk.El == "#text" {
					txt += kk.Text
				}
			}
			for _, w := range fields(txt) {
				out = append(out, Item{W: w, Sty: &ps})
			}
		case "br":
			out = append(out, Item{Brk: true})
		}
	}
	return out
}
