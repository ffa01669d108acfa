package main

import (
	"fmt"
	"math"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

var anyAlign = map[string]int{"left": 40, "center": 20, "right": 20, "block": 20}
var plainAlign = map[string]int{"left": 40, "center": 30, "right": 30}
var blockAlign = map[string]int{"block": 100}

var mixedProfile = Profile{
	Elems: [2]int{1, 9}, Kinds: map[string]int{"text": 40, "box": 25, "table": 15, "lf": 8, "setx": 5, "sety": 3, "newpage": 4, "font": 6, "grid": 1, "image": 5},
	Aligns: anyAlign, Words: 14, LongPct: 10, UTF8Pct: 5, SmallPct: 45, Classes: true, Spans: "bands", BoxCells: 15, Mixed: 25, Breaks: 12,
	MaxRows: 6, MaxCols: 4, RepPct: 30, Big: 12, UniqueBg: true, Marginal: 40, Imgs: true,
}

func (p Profile) with(f func(p *Profile)) Profile {
	f(&p)
	return p
}

var bodyTags = []string{"content", "hyph", "lines", "halign", "sty", "boxsty", "pitch", "cursor", "boxframe", "boxpage", "slot", "size", "tpage", "valign", "image"}

// marg adds the tags of header and footer
func marg(tags ...string) []string {
	out := append([]string{}, tags...)
	for _, t := range tags {
		out = append(out, "m-"+t)
	}
	return out
}

func init() {
	const docRule = "random documents (texts, boxes, tables with spans, images, instructions, classes, page set-ups) from the property's profile, repaired to the domain stated in DESIGN.md, rendered by the real processor on a recording engine; "

	// ---- text
	noBlock := mixedProfile.with(func(p *Profile) { p.Aligns = plainAlign; p.Marginal = 0; p.Breaks = 18 })
	flowing := mixedProfile.with(func(p *Profile) {
		p.Aligns = plainAlign
		p.Marginal = 0
		p.SmallPct = 90
		p.Big = 40
		p.Kinds = map[string]int{"text": 55, "box": 20, "table": 20, "newpage": 3, "font": 4, "setx": 4, "lf": 5}
		p.RepPct = 50
		p.MaxRows = 9
	})
	register(&Prop{ID: "C01", Rule: docRule + "non-trivial: at least one line is broken because it is full, or a table is drawn", Subs: []*Sub{
		layoutSub("mixed", 10000, 400000, noBlock, func(r *Run, f *Flow) bool { return f.multi > 0 || f.tables > 0 }, "content"),
		layoutSub("paged", 6000, 200000, flowing, func(r *Run, f *Flow) bool { return r.Pages > 1 }, "content"),
		layoutSubOf("large", 900, 30000, flowing.amplified("words", "parts", "elements", "rows"), func(r *Run, f *Flow) bool { return r.Pages > 1 }, "content"),
		contentPDFSub("pdf", 1200, 40000, noBlock),
	}})

	block := mixedProfile.with(func(p *Profile) {
		p.Aligns = blockAlign
		p.Marginal = 10
		p.LongPct = 35
		p.Breaks = 12
		p.Force = []Decl{{"h-align", "block"}}
		p.Kinds = map[string]int{"text": 45, "box": 30, "table": 15, "setx": 5, "font": 6, "newpage": 3, "lf": 4}
	})
	register(&Prop{ID: "C02", Rule: docRule + "all containers are justified, words are long and pages often narrow; non-trivial: at least one word was divided", Subs: []*Sub{
		layoutSub("justified", 14000, 500000, block, func(r *Run, f *Flow) bool { return f.hyphens > 0 }, marg("content", "hyph")...),
		layoutSubOf("large", 900, 30000, block.amplified("words", "words", "parts", "elements"), func(r *Run, f *Flow) bool { return f.hyphens > 0 }, marg("content", "hyph")...),
	}})

	lines := mixedProfile.with(func(p *Profile) { p.Breaks = 25; p.Big = 20; p.Mixed = 30; p.LongPct = 15; p.Marginal = 15 })
	register(&Prop{ID: "C03", Rule: docRule + "non-trivial: at least one line is broken because it is full", Subs: []*Sub{
		layoutSub("lines", 10000, 400000, lines, func(r *Run, f *Flow) bool { return f.multi > 0 }, marg("lines")...),
		layoutSub("justified", 5000, 200000, block.with(func(p *Profile) { p.Breaks = 20 }), func(r *Run, f *Flow) bool { return f.multi > 0 }, marg("lines")...),
		layoutSubOf("fitted", 3000, 150000, lines.fitted, func(r *Run, f *Flow) bool { return f.multi > 0 }, marg("lines")...),
		layoutSubOf("fittedjust", 3000, 150000, block.with(func(p *Profile) { p.Breaks = 20 }).fitted, func(r *Run, f *Flow) bool { return f.multi > 0 }, marg("lines")...),
		layoutSubOf("large", 900, 30000, lines.amplified("words", "words", "parts"), func(r *Run, f *Flow) bool { return f.multi > 0 }, marg("lines")...),
		layoutSubOf("largejust", 500, 20000, block.amplified("words", "words", "parts"), func(r *Run, f *Flow) bool { return f.multi > 0 }, marg("lines")...),
	}})
	register(&Prop{ID: "C04", Rule: docRule + "non-trivial: at least one line is broken because it is full and some text is not left-aligned", Subs: []*Sub{
		layoutSub("aligned", 10000, 400000, lines.with(func(p *Profile) { p.Aligns = map[string]int{"left": 15, "center": 30, "right": 30, "block": 25} }),
			func(r *Run, f *Flow) bool { return f.multi > 0 }, marg("halign")...),
		layoutSub("justified", 5000, 200000, block.with(func(p *Profile) { p.Breaks = 20 }), func(r *Run, f *Flow) bool { return f.multi > 0 }, marg("halign")...),
		layoutSubOf("large", 900, 30000, lines.with(func(p *Profile) { p.Aligns = map[string]int{"left": 15, "center": 30, "right": 30, "block": 25} }).amplified("words", "words", "parts"),
			func(r *Run, f *Flow) bool { return f.multi > 0 }, marg("halign")...),
	}})
	pitch := mixedProfile.with(func(p *Profile) {
		p.Kinds = map[string]int{"text": 60, "box": 8, "font": 10, "lf": 6, "setx": 5, "sety": 3, "table": 5}
		p.SmallPct = 80
		p.Big = 35
		p.Mixed = 35
		p.Breaks = 20
		p.Marginal = 15
	})
	register(&Prop{ID: "C26", Rule: docRule + "non-trivial: a page is broken within or between texts, or several lines are printed in fonts of different size", Subs: []*Sub{
		layoutSub("pitch", 14000, 500000, pitch, func(r *Run, f *Flow) bool { return r.Pages > 1 && f.multi > 0 }, marg("pitch")...),
		layoutSubOf("filled", 6000, 200000, pitch.filled, func(r *Run, f *Flow) bool { return r.Pages > 1 }, marg("pitch")...),
		layoutSubOf("large", 900, 30000, pitch.amplified("words", "parts", "elements"), func(r *Run, f *Flow) bool { return r.Pages > 1 }, marg("pitch")...),
	}})

	// ---- boxes
	boxes := mixedProfile.with(func(p *Profile) {
		p.Kinds = map[string]int{"text": 15, "box": 60, "lf": 8, "setx": 8, "sety": 4, "newpage": 3, "font": 6, "image": 3}
		p.Elems = [2]int{1, 10}
		p.Marginal = 20
	})
	register(&Prop{ID: "C07", Rule: docRule + "non-trivial: at least one box with a text of several lines", Subs: []*Sub{
		layoutSub("boxes", 14000, 500000, boxes, func(r *Run, f *Flow) bool { return f.boxes > 0 && f.multi > 0 }, marg("boxframe", "boxsty", "cursor")...),
		layoutSubOf("fitted", 5000, 150000, boxes.fitted, func(r *Run, f *Flow) bool { return f.boxes > 0 && f.multi > 0 }, marg("boxframe", "boxsty", "cursor")...),
		layoutSubOf("large", 700, 20000, boxes.amplified("words", "elements"), func(r *Run, f *Flow) bool { return f.boxes > 0 && f.multi > 0 }, marg("boxframe", "boxsty", "cursor")...),
	}})
	boxpages := boxes.with(func(p *Profile) {
		p.SmallPct = 95
		p.Elems = [2]int{3, 14}
		p.Marginal = 10
	})
	register(&Prop{ID: "C08", Rule: docRule + "pages are short, or the bottom margin is put where a box or line ends; non-trivial: a box moved to a new page", Subs: []*Sub{
		layoutSub("boxpages", 14000, 500000, boxpages, func(r *Run, f *Flow) bool { return f.boxbreaks > 0 }, "boxpage"),
		layoutSubOf("filled", 6000, 200000, boxpages.filled, func(r *Run, f *Flow) bool { return f.boxbreaks > 0 }, "boxpage"),
		layoutSubOf("large", 900, 30000, boxpages.amplified("words", "elements"), func(r *Run, f *Flow) bool { return f.boxbreaks > 0 }, "boxpage"),
	}})

	// ---- tables
	tables := mixedProfile.with(func(p *Profile) {
		p.Kinds = map[string]int{"text": 20, "box": 8, "table": 60, "lf": 6, "setx": 8, "font": 6, "image": 3, "newpage": 2}
		p.Elems = [2]int{1, 5}
		p.Marginal = 15
	})
	onePage := tables.with(func(p *Profile) {
		p.TopTable = true
		p.Elems = [2]int{0, 1}
		p.Kinds = map[string]int{"text": 20, "lf": 6}
		p.Spans = "any"
		p.SmallPct = 0
		p.RepPct = 0
		p.MaxRows, p.MaxCols = 6, 5
		p.Words = 5
		p.Big = 0
		p.Marginal = 0
		p.BoxCells = 6
	})
	register(&Prop{ID: "C12", Rule: docRule + "tables with arbitrary span tilings (those on one page) or spans confined to row bands (over pages); non-trivial: a cell spans rows or columns", Subs: []*Sub{
		layoutSub("tilings", 9000, 300000, onePage, func(r *Run, f *Flow) bool { return f.spans > 0 }, marg("slot", "content")...),
		layoutSub("flow", 6000, 200000, tables, func(r *Run, f *Flow) bool { return f.spans > 0 }, marg("slot", "content")...),
		layoutSubOf("large", 900, 30000, tables.amplified("rows", "columns"), func(r *Run, f *Flow) bool { return f.tables > 0 }, marg("slot", "content")...),
	}})
	register(&Prop{ID: "C13", Rule: docRule + "non-trivial: a table with several rows and wrapped lines or boxes in cells", Subs: []*Sub{
		layoutSub("sizes", 8000, 300000, tables.with(func(p *Profile) { p.BoxCells = 30 }), func(r *Run, f *Flow) bool { return f.tables > 0 && (f.multi > 0 || f.innerBoxes > 0) }, marg("size", "slot")...),
		layoutSub("tilings", 7000, 200000, onePage, func(r *Run, f *Flow) bool { return f.spans > 0 }, marg("size", "slot")...),
		layoutSubOf("fitted", 4000, 150000, tables.with(func(p *Profile) { p.BoxCells = 30; p.Words = 10 }).fitted, func(r *Run, f *Flow) bool { return f.tables > 0 && (f.multi > 0 || f.innerBoxes > 0) }, marg("size", "slot")...),
		layoutSubOf("large", 900, 30000, tables.amplified("rows", "columns", "columns"), func(r *Run, f *Flow) bool { return f.tables > 0 }, marg("size", "slot")...),
	}})
	tpages := tables.with(func(p *Profile) {
		p.SmallPct = 95
		p.MinRows, p.MaxRows, p.MaxCols = 1, 12, 3
		p.RepPct = 60
		p.Marginal = 0
		p.Elems = [2]int{1, 4}
		p.Words = 8
		p.BoxCells = 8
	})
	register(&Prop{ID: "C14", Rule: docRule + "short pages and tables with many rows, 60% with repeated header rows; non-trivial: a table continues on another page", Subs: []*Sub{
		layoutSub("pages", 14000, 500000, tpages, func(r *Run, f *Flow) bool { return f.tbreaks > 0 }, "tpage", "content", "size", "boxpage"),
		layoutSubOf("filled", 6000, 200000, tpages.filled, func(r *Run, f *Flow) bool { return f.tbreaks > 0 }, "tpage", "content", "size", "boxpage"),
		layoutSubOf("large", 500, 8000, tpages.amplified("rows"), func(r *Run, f *Flow) bool { return f.tbreaks > 0 }, "tpage", "content", "size", "boxpage"),
	}})
	register(&Prop{ID: "C27", Rule: docRule + "non-trivial: a cell with middle or bottom alignment that is higher than its content", Subs: []*Sub{
		layoutSub("cells", 8000, 300000, tables.with(func(p *Profile) {
			p.BoxCells = 35
			p.MinRows = 1
			p.MaxCols = 5
		}), func(r *Run, f *Flow) bool { return f.vspace > 0 }, marg("valign")...),
		layoutSub("tilings", 6000, 200000, onePage.with(func(p *Profile) { p.BoxCells = 20; p.Imgs = false }), func(r *Run, f *Flow) bool { return f.vspace > 0 }, marg("valign")...),
		layoutSubOf("edge", 2000, 60000, edgeCells(onePage), func(r *Run, f *Flow) bool { return f.innerBoxes > 0 || f.lines > 0 }, marg("valign")...),
		layoutSubOf("large", 700, 20000, tables.with(func(p *Profile) { p.BoxCells = 35 }).amplified("rows", "columns"), func(r *Run, f *Flow) bool { return f.vspace > 0 }, marg("valign")...),
	}})

	// ---- cursor, images
	cursor := mixedProfile.with(func(p *Profile) {
		p.Kinds = map[string]int{"text": 30, "box": 15, "lf": 20, "setx": 20, "sety": 15, "newpage": 10, "font": 8, "table": 4, "image": 8}
		p.Elems = [2]int{2, 14}
		p.Words = 6
		p.Marginal = 25
		p.FreeCursor = true
	})
	register(&Prop{ID: "C16", Rule: docRule + "many cursor instructions; non-trivial: an instruction is followed by a text or box", Subs: []*Sub{
		layoutSub("cursor", 14000, 500000, cursor, func(r *Run, f *Flow) bool { return f.instrs > 0 && f.lines > 0 }, marg("cursor", "image")...),
		layoutSubOf("large", 700, 20000, cursor.amplified("elements", "elements", "words"), func(r *Run, f *Flow) bool { return f.instrs > 0 && f.lines > 0 }, marg("cursor", "image")...),
	}})
	register(&Prop{ID: "C20", Rule: docRule + "png, jpeg and gif files of random sizes, also in sub-directories, missing or damaged; non-trivial: an image was drawn", Subs: []*Sub{
		layoutSub("images", 8000, 150000, mixedProfile.with(func(p *Profile) {
			p.Kinds = map[string]int{"text": 15, "box": 5, "lf": 6, "setx": 8, "sety": 6, "newpage": 4, "font": 3, "table": 12, "image": 50}
			p.Words = 5
			p.Marginal = 10
			p.SmallPct = 60
			p.MarginalImgs = true
		}), func(r *Run, f *Flow) bool { return f.images > 0 }, marg("image", "content", "cursor")...),
	}})

	// ---- styles
	cascade := mixedProfile.with(func(p *Profile) {
		p.Cascade = true
		p.Elems = [2]int{1, 6}
		p.Words = 5
		p.Big = 0
		p.SmallPct = 15
		p.Marginal = 15
		p.Mixed = 40
		p.BoxCells = 30
		p.MaxRows = 4
		p.Imgs = false
		p.UniqueBg = false
		p.RepPct = 0
		p.Kinds = map[string]int{"text": 30, "box": 25, "table": 40, "font": 8, "lf": 4, "image": 0}
	})
	register(&Prop{ID: "C09", Rule: docRule + "classes with positional variants, unknown classes and inline styles at every level; the same document with every style written out inline and no classes must be drawn alike; non-trivial: a class is used", Subs: []*Sub{
		layoutSub("fonts-colors", 7000, 250000, cascade, func(r *Run, f *Flow) bool { return len(f.d.Classes) > 0 && f.lines > 0 }, marg("sty", "boxsty", "halign", "valign", "size", "boxframe", "pitch")...),
		layoutSubOf("large", 700, 20000, cascade.amplified("rows", "columns", "elements", "parts"), func(r *Run, f *Flow) bool { return len(f.d.Classes) > 0 && f.lines > 0 }, marg("sty", "boxsty", "halign", "valign", "size", "boxframe", "pitch")...),
		sub("inlined", 7000, 250000, func(t *rapid.T) *Doc { return cascade.doc(t) }, checkInlined),
	}})
	leak := mixedProfile.with(func(p *Profile) {
		p.Kinds = map[string]int{"text": 35, "box": 25, "table": 20, "font": 10, "image": 4, "lf": 5}
		p.Words = 6
		p.Big = 0
		p.Marginal = 60
		p.Plain = 45
		p.SmallPct = 40
		p.Elems = [2]int{2, 10}
	})
	register(&Prop{ID: "C10", Rule: docRule + "styled elements followed by plain ones, with header and footer; and the same probe elements behind arbitrary others and alone on a fresh page; non-trivial: a plain element follows a styled one", Subs: []*Sub{
		layoutSub("sequence", 8000, 300000, leak, func(r *Run, f *Flow) bool { return f.lines > 1 && r.Pages > 0 && len(f.d.Body) > 1 }, marg("sty", "boxsty")...),
		layoutSubOf("large", 700, 20000, leak.amplified("elements", "words", "rows"), func(r *Run, f *Flow) bool { return f.lines > 1 && r.Pages > 1 && len(f.d.Body) > 1 }, marg("sty", "boxsty")...),
		sub("probes", 5000, 200000, func(t *rapid.T) *probeCase {
			noise := leak.with(func(p *Profile) { p.Plain = 10; p.Marginal = 0 })
			c := &probeCase{Doc: noise.doc(t)}
			g := &gen{t: t, p: &noise, d: c.Doc, u8: c.Doc.UTF8}
			probe := noise
			probe.Plain = 70
			probe.Elems = [2]int{1, 3}
			g.p = &probe
			if g.pct(50) {
				c.Join = pick(g, "20", "45.5", "-60", "100")
			}
			for i := g.n(1, 3); i > 0; i-- {
				c.Probes = append(c.Probes, g.elem())
			}
			return c
		}, checkProbes),
	}})
}

// edgeCells draws tables at the very top of the page, whose cells leave no or nearly no room around their contents.
func edgeCells(p Profile) func(t *rapid.T) *Doc {
	p.BoxCells = 30
	p.Imgs = false
	return func(t *rapid.T) *Doc {
		d := p.doc(t)
		g := &gen{t: t, p: &p, d: d}
		m := [4]float64{10, 0, 10, 10}
		d.Margins = &m
		for _, n := range d.Body {
			if n.El != "table" {
				continue
			}
			for _, tr := range n.Kids {
				for _, td := range tr.Kids {
					if g.pct(80) {
						td.setStyle("v-align", pick(g, "middle", "bottom"))
					}
					if g.pct(80) {
						td.setStyle("padding", fmt.Sprintf("%s,0,%s,%s", g.decimal(0, 4), g.decimal(0, 4), g.decimal(0, 6)))
					}
				}
			}
		}
		d.repair()
		return d
	}
}

// checkInlined compares a document with its copy, in which every element carries its resolved style inline.
func checkInlined(d *Doc, st *Stats) error {
	a, err := renderDoc(d)
	if err != nil {
		return err
	}
	in := d.inlined()
	b, err := renderDoc(in)
	if err != nil {
		return err
	}
	st.NonTrivialIf(len(d.Classes) > 0)
	if err := sameEvents(a.Evs, b.Evs, 1e-6); err != nil {
		return fmt.Errorf("with all styles inline the document is drawn differently: %w\n%s\ninlined:\n%s", err, d.XML(), in.XML())
	}
	return nil
}

func renderDoc(d *Doc) (*Run, error) {
	o := renderOpts{fonts: d.fonts()}
	if d.Imgs != nil {
		dir, done := scratch()
		defer done()
		o.wd = d.materialize(dir)
	}
	run, err := renderXML(d.XML(), o)
	if err != nil {
		return nil, err
	}
	if o.wd != "" {
		for i := range run.Evs {
			e := &run.Evs[i]
			if e.K == 'i' { // without the scratch directory, which differs from run to run
				e.S = strings.TrimPrefix(e.S, filepath.Dir(o.wd))
			}
		}
	}
	return run, nil
}

func sameEv(a, b Ev, tol float64) bool {
	c := func(x, y float64) bool { return math.Abs(x-y) <= tol }
	return a.K == b.K && a.Zone == b.Zone && a.Page == b.Page && a.S == b.S && a.Font == b.Font && a.Col == b.Col &&
		c(a.X, b.X) && c(a.Y, b.Y) && c(a.X1, b.X1) && c(a.Y1, b.Y1) && c(a.W, b.W) && c(a.H, b.H) && c(a.LW, b.LW)
}

func sameEvents(a, b []Ev, tol float64) error {
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(a):
			return fmt.Errorf("additional %v", b[i])
		case i >= len(b):
			return fmt.Errorf("missing %v", a[i])
		case !sameEv(a[i], b[i], tol):
			return fmt.Errorf("event %d: %v (zone %c) vs. %v (zone %c)", i, a[i], a[i].Zone, b[i], b[i].Zone)
		}
	}
	return nil
}

// decls writes out a complete style.
func (s RSty) decls() []Decl {
	q := func(v [4]float64) string { return num(v[0]) + "," + num(v[1]) + "," + num(v[2]) + "," + num(v[3]) }
	col := func(c RGB) string { return fmt.Sprintf("#%02x%02x%02x", c[0], c[1], c[2]) }
	return []Decl{
		{"font-family", s.Font.Family}, {"font-point-size", num(s.Font.Size)}, {"font-style", s.Font.Style}, {"font-weight", s.Font.Weight}, {"font-decoration", s.Font.Deco},
		{"border", fmt.Sprintf("%d,%d,%d,%d", s.Border[0], s.Border[1], s.Border[2], s.Border[3])}, {"padding", q(s.Pad)}, {"margin", q(s.Margin)},
		{"width", num(s.Width)}, {"height", num(s.Height)}, {"line-spacing", num(s.LS)}, {"offset-x", num(s.OffX)}, {"offset-y", num(s.OffY)}, {"column-width", num(s.ColW)},
		{"h-align", s.HAlign}, {"v-align", s.VAlign}, {"color", col(s.Fg)}, {"text-color", col(s.Text)}, {"background-color", col(s.Bg)}, {"line-width", num(s.LW)},
	}
}

// inlined is a copy of the document without classes, every element with its complete resolved style.
func (d *Doc) inlined() *Doc {
	c := *d
	c.Classes = nil
	base := defaultSty()
	c.Body = d.inlineAll(d.Body, &base, false)
	// header and footer start with a font of the body, so only the declared attributes are written out
	b := base
	c.Header = d.inlineAll(d.Header, &b, true)
	c.Footer = d.inlineAll(d.Footer, &b, true)
	return &c
}

func (d *Doc) inlineAll(ns []*Node, base *RSty, keepBase bool) []*Node {
	var out []*Node
	for _, n := range ns {
		out = append(out, d.inline(n, base, keepBase))
	}
	if ns != nil && out == nil {
		out = []*Node{}
	}
	return out
}

// declared gives the declarations an element gets from its classes and inline, the last ones winning.
func (d *Doc) declared(n *Node, sel string) []Decl {
	var all []Decl
	for _, cn := range n.Class {
		var def, variant *ClassDef
		for i := range d.Classes {
			c := &d.Classes[i]
			if c.Name != cn {
				continue
			}
			if c.Sel == "" {
				def = c
			} else if c.Sel == sel {
				variant = c
			}
		}
		switch {
		case def == nil:
		case sel != "" && variant != nil:
			all = append(all, variant.Decls...)
		default:
			all = append(all, def.Decls...)
		}
	}
	all = append(all, n.Style...)
	tmp := &Node{}
	for _, dd := range all {
		tmp.setStyle(dd.K, dd.V)
	}
	return tmp.Style
}

func (d *Doc) inline(n *Node, base *RSty, keep bool) *Node {
	if n.El == "#text" || n.El == "grid" {
		return n
	}
	c := *n
	c.Class = nil
	style := func(cn *Node, b RSty, sel string) RSty {
		s := d.resolve(b, cn, sel)
		if keep {
			cn.Style = d.declared(cn, sel)
		} else {
			cn.Style = s.decls()
		}
		cn.Class = nil
		return s
	}
	c.Class = n.Class
	s := style(&c, *base, "")
	c.Kids = nil
	switch n.El {
	case "font":
		base.Font = s.Font
	case "lf", "setx", "sety", "newpage", "br":
		c.Style = nil
	case "text", "box":
		for _, k := range n.Kids {
			kc := *k
			if k.El == "p" {
				style(&kc, s, "")
			}
			c.Kids = append(c.Kids, &kc)
		}
	case "table":
		for ir, tr := range n.Kids {
			trc := *tr
			rs := style(&trc, s, positional(ir, len(n.Kids), "row"))
			trc.Kids = nil
			for ic, td := range tr.Kids {
				tdc := *td
				cs := style(&tdc, rs, positional(ic, len(tr.Kids), "cell"))
				tdc.Kids = nil
				inner := *base
				inner.Font = cs.Font
				for _, k := range td.Kids {
					kc := *k
					switch k.El {
					case "p":
						style(&kc, cs, "")
					case "box", "image":
						kk := d.inline(k, &inner, keep)
						kc = *kk
					}
					tdc.Kids = append(tdc.Kids, &kc)
				}
				trc.Kids = append(trc.Kids, &tdc)
			}
			c.Kids = append(c.Kids, &trc)
		}
	}
	return &c
}

// probeCase: the probes must be drawn alike behind the document and behind its font instructions only.
type probeCase struct {
	Doc    *Doc
	Probes []*Node
	Join   string // what is between: a page break, or the cursor is put at a place of the page
}

func checkProbes(c *probeCase, st *Stats) error {
	noisy, plain := *c.Doc, *c.Doc
	noisy.Header, noisy.Footer, plain.Header, plain.Footer = nil, nil, nil, nil
	var fonts []*Node
	for _, n := range c.Doc.Body {
		if n.El == "font" {
			fonts = append(fonts, n)
		}
	}
	tail := append([]*Node{{El: "text", Kids: []*Node{{El: "#text", Text: probeMark}}}, {El: "newpage"}}, c.Probes...)
	if c.Join != "" {
		tail = append([]*Node{{El: "sety", Attr: [][2]string{{"y", c.Join}}}, {El: "setx", Attr: [][2]string{{"x", num(c.Doc.geo().L)}}}}, c.Probes...)
	}
	draw := func(d *Doc, nodes []*Node) (*Run, []Ev, error) {
		skip, page := 0, 1
		d.Body = nodes
		if c.Join != "" { // what is drawn without the probes comes first
			r, err := renderDoc(d)
			if err != nil {
				return nil, nil, err
			}
			skip, page = len(r.Evs), r.Pages
		}
		d.Body = append(append([]*Node{}, nodes...), tail...)
		r, err := renderDoc(d)
		if err != nil {
			return nil, nil, err
		}
		if c.Join == "" {
			t, err := probeTail(r.Evs)
			return r, t, err
		}
		if len(r.Evs) < skip {
			return nil, nil, fmt.Errorf("with additional elements at its end less is drawn\n%s", d.XML())
		}
		t := append([]Ev{}, r.Evs[skip:]...)
		for k := range t {
			t[k].Page -= page
		}
		return r, t, nil
	}
	_, ta, err := draw(&noisy, c.Doc.Body)
	if err != nil {
		return err
	}
	_, tb, err := draw(&plain, fonts)
	if err != nil {
		return err
	}
	st.NonTrivialIf(len(tb) > 0)
	if err := sameEvents(tb, ta, 1e-6); err != nil {
		return fmt.Errorf("behind other elements the probes are drawn differently: %w\n%s", err, noisy.XML())
	}
	return nil
}

const probeMark = "PROBEMARK"

// probeTail gives the events behind the page break that follows the mark.
func probeTail(evs []Ev) ([]Ev, error) {
	mark := -1
	for i, e := range evs {
		if e.K == 't' && e.S == probeMark {
			mark = i
		}
		if mark >= 0 && e.K == 'p' && e.Page > evs[mark].Page {
			out := append([]Ev{}, evs[i:]...)
			for k := range out {
				out[k].Page -= e.Page
			}
			return out, nil
		}
	}
	return nil, fmt.Errorf("the elements behind %s are not printed on a new page", probeMark)
}
