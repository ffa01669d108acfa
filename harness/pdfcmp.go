package main

import (
	"fmt"
	"math"
	"strings"

	"pgregory.net/rapid"
)

const pdfTol = 0.006 // mm, coordinates are written with two decimals of a point
const cellMargin = 1.0

var coreNames = map[string][4]string{
	"helvetica": {"Helvetica", "Helvetica-Bold", "Helvetica-Oblique", "Helvetica-BoldOblique"},
	"arial":     {"Helvetica", "Helvetica-Bold", "Helvetica-Oblique", "Helvetica-BoldOblique"},
	"times":     {"Times-Roman", "Times-Bold", "Times-Italic", "Times-BoldItalic"},
	"courier":   {"Courier", "Courier-Bold", "Courier-Oblique", "Courier-BoldOblique"},
}

// baseFont is the name of the font in the PDF, empty if not known.
func (f Font) baseFont() string {
	q, ok := coreNames[strings.ToLower(f.Family)]
	if !ok {
		return ""
	}
	i := 0
	if f.Weight == "bold" {
		i++
	}
	if f.Style == "italic" {
		i += 2
	}
	return q[i]
}

// comparePDF: the PDF paints exactly what the engine was told, in this order, page by page.
// The tag of a deviation is content, place, font or color.
func comparePDF(evs []Ev, p *PDF, pages int) (tag string, err error) {
	if len(p.Pages) != pages {
		return "pages", fmt.Errorf("the PDF has %d pages, %d were drawn", len(p.Pages), pages)
	}
	byPage := make([][]Ev, pages+1)
	for _, e := range evs {
		if e.K == 'p' || e.K == 't' && !visible(e.S) && (e.Font.Deco != "underline" || e.S == "") {
			continue
		}
		byPage[e.Page] = append(byPage[e.Page], e)
	}
	pdf := make([][]PEv, pages+1)
	for _, e := range p.Evs {
		if e.K == 't' && !visible(e.S) {
			continue
		}
		pdf[e.Page] = append(pdf[e.Page], e)
	}
	c := func(a, b float64) bool { return math.Abs(a-b) <= pdfTol }
	for n := 1; n <= pages; n++ {
		ps := pdf[n]
		i := 0
		for _, e := range byPage[n] {
			if e.K == 't' && !visible(e.S) {
				// blanks may be underlined
				if i < len(ps) && ps[i].K == 'f' && c(ps[i].X, e.X+cellMargin) && ps[i].H <= 0.2*e.Font.height() && math.Abs(ps[i].W-e.Font.width(e.S)) < 0.02 &&
					ps[i].Y > e.Y+0.79*e.Font.height() && ps[i].Y < e.Y+1.1*e.Font.height() {
					i++
				}
				continue
			}
			if i >= len(ps) {
				return "content", fmt.Errorf("page %d: %v is missing in the PDF", n, e)
			}
			q := ps[i]
			i++
			if q.K != e.K {
				return "content", fmt.Errorf("page %d: the PDF contains %v instead of %v", n, q, e)
			}
			switch e.K {
			case 't':
				want := strings.ReplaceAll(e.S, "{np}", fmt.Sprint(pages))
				if q.S != want {
					return "content", fmt.Errorf("page %d: the PDF contains %v instead of %q", n, q, want)
				}
				if !c(q.X, e.X+cellMargin) || !c(q.Y, e.Y+0.8*e.Font.height()) {
					return "place", fmt.Errorf("page %d: %v is at (%.3f, %.3f) instead of (%.3f, %.3f) (baseline)", n, q, q.X, q.Y, e.X+cellMargin, e.Y+0.8*e.Font.height())
				}
				if b := e.Font.baseFont(); b != "" && q.Base != b || math.Abs(q.Size-e.Font.Size) > 0.0051 {
					return "font", fmt.Errorf("page %d: %v is printed in %s %.2f instead of %v", n, q, q.Base, q.Size, e.Font)
				}
				if !sameColor(q.Col, e.Col) {
					return "color", fmt.Errorf("page %d: %v has color %v instead of %v", n, q, q.Col, e.Col)
				}
				if e.Font.Deco == "underline" {
					// a line below the text, as long as it
					if i >= len(ps) || ps[i].K != 'f' || ps[i].H > 0.2*e.Font.height() || !c(ps[i].X, q.X) || ps[i].Y < q.Y-0.01 || ps[i].Y > q.Y+0.3*e.Font.height() {
						return "font", fmt.Errorf("page %d: %v is not underlined", n, q)
					}
					if w := e.Font.width(e.S); math.Abs(ps[i].W-w) > 0.02 && !strings.Contains(e.S, "{np}") {
						return "font", fmt.Errorf("page %d: the line under %v is %.3f long instead of %.3f", n, q, ps[i].W, w)
					}
					if !sameColor(ps[i].Col, e.Col) {
						return "color", fmt.Errorf("page %d: the line under %v has color %v", n, q, ps[i].Col)
					}
					i++
				}
			case 'f':
				x, y, w, h := e.X, e.Y, e.W, e.H
				if w < 0 {
					x, w = x+w, -w
				}
				if h < 0 {
					y, h = y+h, -h
				}
				if !c(q.X, x) || !c(q.Y, y) || !c(q.W, w) || !c(q.H, h) {
					return "place", fmt.Errorf("page %d: %v instead of %v", n, q, e)
				}
				if !sameColor(q.Col, e.Col) {
					return "color", fmt.Errorf("page %d: %v instead of %v", n, q, e)
				}
			case 'l':
				if !c(q.X, e.X) || !c(q.Y, e.Y) || !c(q.W, e.X1) || !c(q.H, e.Y1) {
					return "place", fmt.Errorf("page %d: %v instead of %v", n, q, e)
				}
				if !sameColor(q.Col, e.Col) || math.Abs(q.LW-e.LW) > 0.004 {
					return "color", fmt.Errorf("page %d: %v instead of %v", n, q, e)
				}
			case 'i':
				if !c(q.X, e.X) || !c(q.Y, e.Y) || !c(q.W, e.W) || !c(q.H, e.H) {
					return "place", fmt.Errorf("page %d: %v instead of %v", n, q, e)
				}
			}
		}
		if i < len(ps) {
			return "content", fmt.Errorf("page %d: the PDF contains %v, which was not drawn", n, ps[i])
		}
	}
	return "", nil
}

func sameColor(a, b RGB) bool {
	for i := range a {
		if a[i] != b[i] { // three decimals in the PDF tell 256 values
			return false
		}
	}
	return true
}

// contentPDFSub: all texts drawn arrive in the PDF.
func contentPDFSub(name string, quick, thorough int, p Profile) *Sub {
	return sub(name, quick, thorough, func(t *rapid.T) *Doc { return p.doc(t) }, func(d *Doc, st *Stats) error {
		run, err := renderDoc(d)
		if err != nil {
			return err
		}
		pdf, err := parsePDF(run.PDF)
		if err != nil {
			return fmt.Errorf("PDF is not well-formed: %w\n%s", err, d.XML())
		}
		st.NonTrivialIf(len(pdf.texts(0)) > 0)
		if tag, err := comparePDF(run.Evs, pdf, run.Pages); tag == "content" || tag == "pages" {
			return fmt.Errorf("%w\n%s", err, d.XML())
		}
		return nil
	})
}
