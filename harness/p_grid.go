package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/mazzegi/xpdf/xdoc"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------- C28

type gridCase struct {
	T     Tree
	Src   string
	Bad   string `json:",omitempty"` // what is wrong with the grid
	Where string
}

var areaNames = []string{"a", "b", "main", "side-bar", "Main", "ü", "1", "a.b", "x_y", "head", "foot"}

// gridNode draws a grid and says what is wrong with it.
func gridNode(g *treeGen, depth int) (*Node, string) {
	bad := ""
	w := g.n(1, 4)
	rows := &Node{El: "rows"}
	parts := &Node{El: "parts"}
	used := map[string]bool{}
	pool := areaNames[:g.n(2, len(areaNames))]
	row := func(w int) *Node {
		gr := &Node{El: "gr"}
		sp := func() string { return pick(g.gen, " ", " ", "  ", "\n", "\t", " \r\n\t ") }
		if g.pct(40) {
			gr.Text = sp()
		}
		for i := 0; i < w; i++ {
			a := pick(g.gen, pool...)
			used[a] = true
			if i > 0 {
				gr.Text += sp()
			}
			gr.Text += a
		}
		if g.pct(40) || w == 0 && g.pct(70) {
			gr.Text += sp()
		}
		return g.dress(gr)
	}
	n := g.n(1, 5)
	for i := 0; i < n; i++ {
		rows.Kids = append(rows.Kids, row(w))
	}
	for i := g.n(0, 4); i > 0; i-- {
		var names []string
		for _, a := range pool {
			if used[a] {
				names = append(names, a)
			}
		}
		part := &Node{El: "part", Attr: [][2]string{{"area", pick(g.gen, names...)}}}
		for k := g.n(0, 3); depth > 0 && k > 0; k-- {
			part.Kids = append(part.Kids, g.node(pick(g.gen, "p", "br", "text", "box", "image", "lf", "table"), 2))
		}
		parts.Kids = append(parts.Kids, g.dress(part))
	}
	switch g.n(0, 9) {
	case 0: // ragged
		k := g.n(0, n)
		w2 := w + g.n(1, 3)
		if g.pct(50) && w > 1 {
			w2 = g.n(1, w-1)
		}
		rows.Kids = append(rows.Kids[:k:k], append([]*Node{row(w2)}, rows.Kids[k:]...)...)
		bad = "ragged"
	case 1:
		k := g.n(0, n)
		rows.Kids = append(rows.Kids[:k:k], append([]*Node{row(0)}, rows.Kids[k:]...)...)
		bad = "row without areas"
		if g.pct(20) {
			rows.Kids = []*Node{rows.Kids[k]}
			parts.Kids = nil
		}
	case 2:
		rows.Kids = nil
		bad = "no rows"
		if g.pct(60) {
			parts.Kids = nil
		}
	case 3, 4:
		var names []string
		cands := append([]string{"nope", "", " ", "a b", "MAIN", "area"}, areaNames...)
		for _, a := range areaNames {
			if used[a] {
				cands = append(cands, a+" ", " "+a, strings.ToUpper(a), a+a, a[:len(a)-1])
			}
		}
		for _, a := range cands {
			if !used[a] && utf8.ValidString(a) {
				names = append(names, a)
			}
		}
		p := &Node{El: "part", Attr: [][2]string{{"area", pick(g.gen, names...)}}}
		if g.pct(20) {
			p.Attr = nil
		}
		k := g.n(0, len(parts.Kids))
		parts.Kids = append(parts.Kids[:k:k], append([]*Node{p}, parts.Kids[k:]...)...)
		bad = "unknown area"
	}
	grid := &Node{El: "grid", Kids: []*Node{rows, parts}}
	if len(parts.Kids) == 0 && g.pct(50) {
		grid.Kids = grid.Kids[:1]
	} else if len(rows.Kids) == 0 && g.pct(50) {
		grid.Kids = grid.Kids[1:]
	}
	return g.dress(grid), bad
}

func genGrid(t *rapid.T) *gridCase {
	g := newTreeGen(t)
	g.budget = 12
	c := &gridCase{T: *genTree(g)}
	if c.T.Body == nil {
		c.T.Body = &Node{El: "body"}
	}
	var n *Node
	g.budget = 10
	n, c.Bad = gridNode(g, 2)
	for i := g.n(0, 2); i > 0; i-- {
		w := pick(g.gen, "td", "part", "text", "box")
		c.Where += "<" + w
		around := func(n *Node) []*Node {
			out := []*Node{n}
			if g.pct(50) {
				out = append([]*Node{g.node("p", 0)}, out...)
			}
			if g.pct(50) {
				out = append(out, g.node("p", 0))
			}
			return out
		}
		switch w {
		case "td":
			n = &Node{El: "table", Kids: []*Node{{El: "tr", Kids: []*Node{{El: "td", Kids: around(n)}, {El: "td"}}}}}
		case "part":
			n = &Node{El: "grid", Kids: []*Node{{El: "rows", Kids: []*Node{{El: "gr", Text: "a b"}}}, {El: "parts", Kids: []*Node{{El: "part", Attr: [][2]string{{"area", "b"}}, Kids: around(n)}}}}}
		default:
			n = &Node{El: w, Kids: around(n)}
		}
	}
	ps := c.T.places("header footer body text box td part")
	at := ps[g.n(0, len(ps)-1)].n
	c.Where += "<" + at.El
	i := g.n(0, len(at.Kids))
	at.Kids = append(at.Kids[:i:i], append([]*Node{n}, at.Kids[i:]...)...)
	w := &xmlWriter{gen: g.gen, plain: g.pct(30)}
	c.Src, _ = w.document(&c.T)
	return c
}

func checkGrid(c *gridCase, st *Stats) error {
	doc, err := xdoc.Load(strings.NewReader(c.Src))
	st.NonTrivial()
	if c.Bad != "" {
		st.Class(c.Bad)
		if err == nil {
			return fmt.Errorf("grid (%s) in %s is accepted\n%s", c.Bad, c.Where, c.Src)
		}
		if doc != nil {
			return fmt.Errorf("a document is returned together with the error %v", err)
		}
		return nil
	}
	st.Class("valid")
	if err != nil {
		return fmt.Errorf("valid grid in %s is rejected: %w\n%s", c.Where, err, c.Src)
	}
	if err := sameLines(normOf(doc, c.T.Sheet), c.T.norm()); err != nil {
		return fmt.Errorf("%w\n%s", err, c.Src)
	}
	return nil
}

type gridDocCase struct {
	D     Doc
	Grids []*Node
	At    []int // where they are inserted, counted over all places
}

func genGridDoc(t *rapid.T) *gridDocCase {
	p := mixedProfile.with(func(p *Profile) {
		p.Elems = [2]int{1, 6}
		p.Marginal = 40
		p.Kinds = map[string]int{"text": 40, "box": 25, "table": 20, "lf": 8, "setx": 5, "sety": 3, "newpage": 4, "font": 8}
	})
	c := &gridDocCase{D: *p.doc(t)}
	g := newTreeGen(t)
	for i := g.n(1, 3); i > 0; i-- {
		g.budget = 8
		n, bad := gridNode(g, 2)
		if bad != "" {
			n = &Node{El: "grid", Kids: []*Node{{El: "rows", Kids: []*Node{{El: "gr", Text: "a a b"}, {El: "gr", Text: "a a c"}}}, {El: "parts", Kids: []*Node{
				{El: "part", Attr: [][2]string{{"area", pick(g.gen, "a", "b", "c")}}, Kids: []*Node{{El: "p", Text: "in the grid"}, {El: "font", Style: []Decl{{"font-weight", "bold"}}}}}}}}}
		}
		c.Grids = append(c.Grids, n)
		c.At = append(c.At, g.n(0, 1000))
	}
	return c
}

// withGrids inserts the grids between elements of the top level.
func (c *gridDocCase) withGrids() *Doc {
	d := c.D
	lists := []*[]*Node{&d.Body}
	if len(d.Header) > 0 {
		lists = append(lists, &d.Header)
	}
	if len(d.Footer) > 0 {
		lists = append(lists, &d.Footer)
	}
	for i, n := range c.Grids {
		l := lists[0]
		if k := c.At[i] % 5; k > 2 {
			l = lists[k%len(lists)]
		}
		at := c.At[i] % (len(*l) + 1)
		*l = append((*l)[:at:at], append([]*Node{n}, (*l)[at:]...)...)
	}
	return &d
}

func checkGridDoc(c *gridDocCase, st *Stats) error {
	alone, err := renderDoc(&c.D)
	if err != nil {
		return err
	}
	d := c.withGrids()
	with, err := renderDoc(d)
	if err != nil {
		return err
	}
	if alone.Pages != with.Pages {
		return fmt.Errorf("%d pages with grids instead of %d\n%s", with.Pages, alone.Pages, d.XML())
	}
	if err := sameEvents(alone.Evs, with.Evs, 1e-6); err != nil {
		return fmt.Errorf("grids disturb the document: %w\n%s", err, d.XML())
	}
	st.NonTrivialIf(len(alone.Evs) > 8)
	return nil
}

func init() {
	register(&Prop{ID: "C28", Rule: "random grids, valid or with one fault, at random places and depths of random documents, in random spelling, compared with the element tree; random documents rendered with and without grids; non-trivial: every loaded grid; for renderings: more than 8 things are drawn",
		Subs: []*Sub{
			sub("load", 10000, 500000, genGrid, checkGrid),
			sub("render", 1500, 60000, genGridDoc, checkGridDoc),
		}})
}
