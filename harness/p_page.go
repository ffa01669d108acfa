package main

import (
	"fmt"
	"math"
	"strings"

	"pgregory.net/rapid"
)

// ------------------------------------------------------------- C15

// wildMarginal draws a header or footer of any elements without restricting them.
func (g *gen) wildMarginal(tag string) []*Node {
	sub := *g.p
	sub.Words, sub.Big = 8, 10
	sub.Kinds = map[string]int{"text": 30, "box": 20, "font": 15, "setx": 10, "sety": 10, "lf": 6, "table": 12, "newpage": 8, "image": 6, "grid": 3}
	sub.MaxRows, sub.MaxCols, sub.Spans, sub.BoxCells, sub.RepPct = 4, 3, "any", 10, 30
	sub.FreeCursor = true
	save := g.p
	g.p = &sub
	defer func() { g.p = save }()
	var out []*Node
	for i := g.n(1, 5); i > 0; i-- {
		out = append(out, g.elem())
	}
	mark := &Node{El: "text", Kids: []*Node{{El: "#text", Text: tag + " {cp} {np}"}}}
	at := g.n(0, len(out))
	return append(out[:at], append([]*Node{mark}, out[at:]...)...)
}

func checkIndependent(d *Doc, st *Stats) error {
	with, err := renderDoc(d)
	if err != nil {
		return err
	}
	plain := *d
	plain.Header, plain.Footer = nil, nil
	without, err := renderDoc(&plain)
	if err != nil {
		return err
	}
	st.NonTrivialIf(without.Pages > 0 && (len(d.Header) > 0 || len(d.Footer) > 0))
	st.ClassIf(without.Pages > 1, "several pages")
	if with.Pages != without.Pages {
		return fmt.Errorf("%d pages with header and footer, %d without\n%s", with.Pages, without.Pages, d.XML())
	}
	if err := sameEvents(without.body(), with.body(), 1e-9); err != nil {
		return fmt.Errorf("with header and footer the body is drawn differently: %w\n%s", err, d.XML())
	}
	return nil
}

// checkMarks: every page of the PDF carries header and footer once with the right numbers.
func checkMarks(d *Doc, st *Stats) error {
	run, err := renderDoc(d)
	if err != nil {
		return err
	}
	pdf, err := parsePDF(run.PDF)
	if err != nil {
		return fmt.Errorf("PDF is not well-formed: %w\n%s", err, d.XML())
	}
	n := len(pdf.Pages)
	if n != run.Pages {
		return fmt.Errorf("%d pages in the PDF, %d were started\n%s", n, run.Pages, d.XML())
	}
	st.NonTrivialIf(n > 1)
	st.ClassIf(n >= 10, "10 pages or more")
	st.ClassIf(d.UTF8, "utf-8 font")
	for p := 1; p <= n; p++ {
		var sb strings.Builder
		for _, e := range pdf.texts(p) {
			sb.WriteString(strings.ReplaceAll(e.S, " ", ""))
			sb.WriteString(" ")
		}
		all := strings.ReplaceAll(sb.String(), " ", "")
		for _, m := range []struct {
			tag   string
			nodes []*Node
		}{{"HEAD", d.Header}, {"FOOT", d.Footer}} {
			if len(m.nodes) == 0 {
				continue
			}
			want := fmt.Sprintf("%s[%d/%d]%s", m.tag, p, n, m.tag)
			if c := strings.Count(all, want); c != 1 {
				return fmt.Errorf("page %d of %d carries %q %d times: %q\n%s", p, n, want, c, all, d.XML())
			}
			if c := strings.Count(all, m.tag+"["); c != 1 {
				return fmt.Errorf("page %d of %d carries %s %d times: %q\n%s", p, n, m.tag, c, all, d.XML())
			}
		}
		if strings.Contains(all, "{np}") || strings.Contains(all, "{cp}") {
			return fmt.Errorf("page %d: placeholder is not replaced: %q\n%s", p, all, d.XML())
		}
	}
	return nil
}

// ------------------------------------------------------------- C25

type pageCase struct {
	Doc  *Doc
	Kind string // first element
}

func genPage(t *rapid.T) *pageCase {
	g := newGen(t)
	g.p = &Profile{Aligns: anyAlign, Words: 8}
	d := g.d
	d.Format = pick(g, "a3", "a4", "a5", "letter", "legal", "", "A4", "b5", "tabloid", "Letter")
	d.Orient = pick(g, "portrait", "landscape", "")
	geo := d.geo()
	m := func(max float64) float64 {
		if g.pct(15) {
			return 0
		}
		return mustF(g.decimal(0, max))
	}
	mar := [4]float64{m(geo.W/2 - 40), m(geo.H/2 - 30), m(geo.W/2 - 40), m(geo.H/2 - 30)}
	d.Margins = &mar
	if g.pct(6) {
		d.Margins = nil
	}
	c := &pageCase{Doc: d, Kind: pick(g, "text", "box", "table", "block")}
	bg := Decl{"background-color", "#123456"}
	pages := g.n(1, 3)
	for p := 0; p < pages; p++ {
		if p > 0 {
			d.Body = append(d.Body, &Node{El: "newpage"})
		}
		var n *Node
		txt := &Node{El: "#text", Text: g.words(6)}
		switch c.Kind {
		case "text":
			n = &Node{El: "text", Kids: []*Node{txt}}
		case "block":
			n = &Node{El: "text", Style: []Decl{{"h-align", "block"}}, Kids: []*Node{{El: "#text", Text: strings.Repeat("many words of a text which fills the line ", 6)}}}
		case "box":
			n = &Node{El: "box", Style: []Decl{bg, {"line-width", "0"}}, Kids: []*Node{txt}}
		case "table":
			n = &Node{El: "table", Style: []Decl{bg, {"line-width", "0"}}, Kids: []*Node{{El: "tr", Kids: []*Node{{El: "td", Kids: []*Node{txt}}, {El: "td", Kids: []*Node{{El: "#text", Text: "x"}}}}}}}
		}
		d.Body = append(d.Body, n)
	}
	// fill some pages
	for i := g.n(0, 3); i > 0; i-- {
		d.Body = append(d.Body, &Node{El: "text", Kids: []*Node{{El: "#text", Text: strings.Repeat("lorem ipsum dolor sit amet ", g.n(1, 150))}}})
	}
	return c
}

func checkPage(c *pageCase, st *Stats) error {
	d := c.Doc
	g := d.geo()
	run, err := renderXML(d.XML(), renderOpts{})
	if err != nil {
		return err
	}
	pdf, err := parsePDF(run.PDF)
	if err != nil {
		return fmt.Errorf("PDF is not well-formed: %w\n%s", err, d.XML())
	}
	fail := func(format string, args ...any) error {
		return fmt.Errorf("%s\n%s", fmt.Sprintf(format, args...), clip(d.XML(), 3000))
	}
	st.ClassIf(d.Orient == "landscape", "landscape")
	st.ClassIf(len(pdf.Pages) > 1, "several pages")
	st.Class("starts with " + c.Kind)
	st.NonTrivial()
	for i, p := range pdf.Pages {
		if math.Abs(p.W-g.W) > 0.01 || math.Abs(p.H-g.H) > 0.01 {
			return fail("page %d is %.2f x %.2f mm instead of %.2f x %.2f", i+1, p.W, p.H, g.W, g.H)
		}
	}
	const tol = 0.01
	started := 1
	for p := 1; p <= len(pdf.Pages); p++ {
		var evs []PEv
		for _, e := range pdf.Evs {
			if e.Page == p && (e.K != 't' || visible(e.S)) {
				evs = append(evs, e)
			}
		}
		if len(evs) == 0 {
			return fail("page %d is empty", p)
		}
		left, right, top := math.Inf(1), math.Inf(-1), math.Inf(1)
		for _, e := range evs {
			switch e.K {
			case 't':
				x0, y0 := e.X-cellMargin, e.Y-0.8*e.Size*ptToMM
				left, top = math.Min(left, x0), math.Min(top, y0)
				f := Font{Family: "Arial", Size: 12}
				right = math.Max(right, x0+f.width(e.S))
				if y1 := y0 + e.Size*ptToMM; y1 > g.Y1+tol {
					return fail("page %d: text %q ends at %.3f, below the bottom margin at %.3f", p, e.S, y1, g.Y1)
				}
			case 'f':
				left, top = math.Min(left, e.X), math.Min(top, e.Y)
				right = math.Max(right, e.X+e.W)
				if e.Y+e.H > g.Y1+tol {
					return fail("page %d: %v ends below the bottom margin at %.3f", p, e, g.Y1)
				}
			}
		}
		if math.Abs(left-g.X0) > tol || math.Abs(top-g.Y0) > tol {
			return fail("page %d: contents start at (%.3f, %.3f) instead of the margins (%.3f, %.3f)", p, left, top, g.X0, g.Y0)
		}
		if right > g.X1+tol {
			return fail("page %d: contents end at %.3f, right of %.3f", p, right, g.X1)
		}
		if started <= len(d.Body) && (c.Kind == "box" || c.Kind == "table") && evs[0].K == 'f' {
			if math.Abs(right-g.X1) > tol {
				return fail("page %d: full width ends at %.3f instead of %.3f", p, right, g.X1)
			}
		}
		// justified text reaches the right edge up to the tolerance for rounding
		if c.Kind == "block" && p == 1 && math.Abs(right-g.X1) > 0.2 {
			return fail("page %d: justified text ends at %.3f instead of %.3f", p, right, g.X1)
		}
	}
	return nil
}

// checkGeometry: sizes of all pages, and the body inside of the printable area.
func checkGeometry(d *Doc, st *Stats) error {
	run, err := renderDoc(d)
	if err != nil {
		return err
	}
	pdf, err := parsePDF(run.PDF)
	if err != nil {
		return fmt.Errorf("PDF is not well-formed: %w\n%s", err, d.XML())
	}
	g := d.geo()
	st.NonTrivialIf(run.Pages > 1)
	for i, p := range pdf.Pages {
		if math.Abs(p.W-g.W) > 0.01 || math.Abs(p.H-g.H) > 0.01 {
			return fmt.Errorf("page %d is %.2f x %.2f mm instead of %.2f x %.2f\n%s", i+1, p.W, p.H, g.W, g.H, d.XML())
		}
	}
	for _, e := range run.body() {
		if e.K == 't' && visible(e.S) && e.Y+e.Font.height() > g.Y1+1e-4 {
			return fmt.Errorf("%v ends below the bottom margin at %.3f\n%s", e, g.Y1, d.XML())
		}
	}
	tag, err := comparePDF(run.Evs, pdf, run.Pages)
	if tag == "place" || tag == "pages" {
		return fmt.Errorf("%w\n%s", err, d.XML())
	}
	return nil
}

func init() {
	body := mixedProfile.with(func(p *Profile) { p.Marginal = 0; p.SmallPct = 70 })
	manyPages := func(t *rapid.T) *Doc {
		p := Profile{Elems: [2]int{1, 5}, Kinds: map[string]int{"text": 30, "box": 10, "newpage": 40, "font": 5, "table": 5}, Aligns: anyAlign, Words: 10, UTF8Pct: 20, SmallPct: 50,
			Classes: true, MaxRows: 3, MaxCols: 3, Big: 10}
		d := p.doc(t)
		g := newGen(t)
		if g.pct(25) {
			for i := g.n(8, 13); i > 0; i-- {
				d.Body = append(d.Body, &Node{El: "newpage"})
			}
		}
		if g.pct(3) {
			for i := g.n(85, 125); i > 0; i-- {
				d.Body = append(d.Body, &Node{El: "newpage"})
			}
		}
		mark := func(tag string, y string) []*Node {
			var fnt []*Node
			if d.UTF8 {
				fnt = []*Node{{El: "font", Style: []Decl{{"font-family", "DejaVu"}, {"font-point-size", "10"}}}}
			} else {
				fnt = []*Node{{El: "font", Style: []Decl{{"font-family", pick(g, "Arial", "Times", "Courier")}, {"font-point-size", "10"}}}}
			}
			m := &Node{El: pick(g, "text", "box"), Kids: []*Node{{El: "#text", Text: tag + "[{cp}/{np}]" + tag}}}
			out := append([]*Node{{El: "sety", Attr: [][2]string{{"y", y}}}}, fnt...)
			if g.pct(20) {
				out = append(out, &Node{El: "newpage"})
			}
			if g.pct(30) {
				return append(out, &Node{El: "table", Kids: []*Node{{El: "tr", Kids: []*Node{{El: "td", Kids: m.Kids}, {El: "td", Kids: []*Node{{El: "#text", Text: "x"}}}}}}})
			}
			return append(out, m)
		}
		if !g.pct(15) {
			d.Header = mark("HEAD", "3")
		}
		if !g.pct(15) {
			d.Footer = mark("FOOT", "-15")
		}
		return d
	}
	register(&Prop{ID: "C15", Rule: "random documents with header and footer: the texts of header and footer on every page at the right place (recording engine), with page numbers and count (PDF, up to 18 pages), and the body compared with the same document without header and footer, which may contain anything; non-trivial: more than one page or a non-empty header or footer",
		Subs: []*Sub{
			layoutSub("marginals", 5000, 200000, mixedProfile.with(func(p *Profile) { p.Marginal = 100; p.Words = 8; p.SmallPct = 60; p.MarginalImgs = true }),
				func(r *Run, f *Flow) bool { return r.Pages > 1 }, "m-content", "m-cursor", "m-pitch", "m-sty", "m-boxsty", "m-boxframe", "m-halign", "m-lines"),
			sub("independent", 4500, 200000, func(t *rapid.T) *Doc {
				d := body.doc(t)
				p := body
				g := &gen{t: t, p: &p, d: d, u8: d.UTF8}
				if !g.pct(15) {
					d.Header = g.wildMarginal("H")
				}
				if !g.pct(15) {
					d.Footer = g.wildMarginal("F")
				}
				return d
			}, checkIndependent),
			sub("numbers", 3000, 100000, manyPages, checkMarks),
		}})
	register(&Prop{ID: "C25", Rule: "random paper formats (also unknown ones), orientations and margins with documents starting every page with a full-width element, and random documents; sizes, edges and positions taken from the PDF; non-trivial: every case of the first kind, several pages for the second",
		Subs: []*Sub{
			sub("edges", 8000, 300000, genPage, checkPage),
			sub("documents", 4000, 150000, func(t *rapid.T) *Doc {
				return mixedProfile.with(func(p *Profile) { p.Marginal = 10; p.SmallPct = 70; p.FreeCursor = true }).doc(t)
			}, checkGeometry),
			layoutSub("layout", 4000, 150000, mixedProfile.with(func(p *Profile) { p.Marginal = 0; p.SmallPct = 60; p.Words = 8 }), func(r *Run, f *Flow) bool { return f.boxes+f.tables > 0 }, "boxframe", "size", "halign", "cursor", "tpage", "boxpage"),
		}})
}
