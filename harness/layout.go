package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/mazzegi/xpdf/font"
	"pgregory.net/rapid"
)

var imgMu sync.Mutex
var imgCache = map[string][]byte{}

// imageFile encodes an image of the size in the format given by the extension of name.
func imageFile(name string, w, h int) []byte {
	ext := strings.ToLower(filepath.Ext(name))
	key := fmt.Sprintf("%s %d %d", ext, w, h)
	imgMu.Lock()
	defer imgMu.Unlock()
	if bs, ok := imgCache[key]; ok {
		return bs
	}
	pal := color.Palette{color.RGBA{200, 30, 30, 255}, color.RGBA{30, 30, 200, 255}}
	img := image.NewPaletted(image.Rect(0, 0, w, h), pal)
	for i := range img.Pix {
		img.Pix[i] = byte(i / 3 % 2)
	}
	var buf bytes.Buffer
	var err error
	switch ext {
	case ".jpg", ".jpeg":
		err = jpeg.Encode(&buf, img, nil)
	case ".gif":
		err = gif.Encode(&buf, img, nil)
	default:
		err = png.Encode(&buf, img)
	}
	if err != nil {
		harnessFail("encode image: %v", err)
	}
	imgCache[key] = buf.Bytes()
	return buf.Bytes()
}

// damagedImage returns an image of which bytes are missing or wrong, so that it cannot be decoded.
func damagedImage(name string, size int) []byte {
	bs := append([]byte(nil), imageFile(strings.ReplaceAll(name, "damaged", "cut"), 1+size%211, 1+size%173)...)
	if strings.Contains(name, "damaged") { // png: a wrong checksum
		bs[41+size%4] ^= 0x55
	} else {
		bs = bs[:len(bs)*(30+size%45)/100]
	}
	if _, _, err := image.Decode(bytes.NewReader(bs)); err == nil {
		return bs[:len(bs)/2]
	}
	return bs
}

// materialize writes the images of the document; the working directory is a sub-directory of dir.
func (d *Doc) materialize(dir string) string {
	wd := filepath.Join(dir, "wd")
	os.MkdirAll(filepath.Join(wd, "sub"), 0o755)
	for name, px := range d.Imgs {
		f := filepath.Join(wd, name)
		var bs []byte
		switch {
		case px[0] > 0:
			bs = imageFile(name, px[0], px[1])
		case strings.Contains(name, "broken"):
			bs = []byte("this is no image at all")
		case strings.Contains(name, "cut"), strings.Contains(name, "damaged"):
			bs = damagedImage(name, px[1])
		default:
			continue
		}
		if err := os.WriteFile(f, bs, 0o644); err != nil {
			harnessFail("write image: %v", err)
		}
	}
	return wd
}

func (d *Doc) fonts() *font.Registry {
	if d.UTF8 {
		return dejavuRegistry()
	}
	return font.NewRegistry()
}

// observe renders the document and walks its body along the reference.
func (d *Doc) observe() (*Run, *Flow, error) {
	o := renderOpts{fonts: d.fonts()}
	if d.Imgs != nil {
		dir, done := scratch()
		defer done()
		o.wd = d.materialize(dir)
	}
	run, err := renderXML(d.XML(), o)
	if err != nil {
		return nil, nil, err
	}
	f := newFlow(d, run.body())
	f.wd = o.wd
	f.walk(d.Body)
	f.finish()
	return run, f, nil
}

// marginals checks header and footer of all pages, collecting violations in f.
func (f *Flow) marginals(run *Run) {
	if f.aborted {
		return
	}
	byPage := map[[2]int][]Ev{}
	for _, e := range run.Evs {
		if e.Zone != 'b' && e.K != 'p' {
			k := [2]int{e.Page, int(e.Zone)}
			byPage[k] = append(byPage[k], e)
		}
	}
	for p := 1; p <= run.Pages; p++ {
		for _, z := range []byte{'h', 'f'} {
			nodes, what := f.d.Header, "header"
			base := f.fontAt[p]
			if z == 'f' {
				nodes, what = f.d.Footer, "footer"
				if b, ok := f.fontAt[p+1]; ok {
					base = b
				} else {
					base = f.base
				}
			}
			m := newFlow(f.d, byPage[[2]int{p, int(z)}])
			m.base, m.page, m.noBreak, m.cp = base, p, true, fmt.Sprint(p)
			m.wd = f.wd
			m.y = f.g.T
			m.walk(nodes)
			m.finish()
			for _, v := range m.viols {
				f.bad("m-"+strings.ReplaceAll(v.Tag, "|", "|m-"), "%s of page %d: %s", what, p, v.Msg)
			}
			if m.aborted {
				f.skipped++
			}
		}
	}
}

func classify(st *Stats, d *Doc, run *Run, f *Flow) {
	st.ClassIf(run.Pages > 1, "several pages")
	st.ClassIf(run.Pages > 3, "more than 3 pages")
	st.ClassIf(f.aborted, "not checked to the end")
	st.ClassIf(f.multi > 0, "wrapped lines")
	st.ClassIf(f.hyphens > 0, "divided words")
	st.ClassIf(f.tables > 0, "tables")
	st.ClassIf(f.tbreaks > 0, "tables over pages")
	st.ClassIf(f.repeated > 0, "repeated header rows")
	st.ClassIf(f.innerBoxes > 0, "boxes in cells")
	st.ClassIf(f.images > 0, "images")
	st.ClassIf(f.scaled > 0, "shrunk images")
	st.ClassIf(f.noImage > 0, "skipped images")
	st.ClassIf(d.UTF8, "utf-8 font")
	st.ClassIf(d.Header != nil || d.Footer != nil, "header or footer")
	st.ClassIf(len(d.Classes) > 0, "style classes")
}

// layoutSub is a check of generated documents for the given aspects.
func layoutSub(name string, quick, thorough int, p Profile, nontrivial func(run *Run, f *Flow) bool, tags ...string) *Sub {
	return layoutSubOf(name, quick, thorough, func(t *rapid.T) *Doc { return p.doc(t) }, nontrivial, tags...)
}

func layoutSubOf(name string, quick, thorough int, gen func(t *rapid.T) *Doc, nontrivial func(run *Run, f *Flow) bool, tags ...string) *Sub {
	return sub(name, quick, thorough, gen, func(d *Doc, st *Stats) error {
		run, f, err := d.observe()
		if err != nil {
			return err
		}
		f.marginals(run)
		classify(st, d, run, f)
		st.NonTrivialIf(nontrivial(run, f))
		if err := f.firstOf(tags...); err != nil {
			return fmt.Errorf("%w\n%s", err, d.XML())
		}
		return nil
	})
}

// filled draws documents of the profile whose bottom margin is put exactly, or nearly, where something of the first page ends.
func (p Profile) filled(t *rapid.T) *Doc {
	d := p.doc(t)
	g := &gen{t: t, p: &p, d: d}
	at, delta := g.uniform(64), pick(g, 0, 0, 0, 0.001, -0.001, 0.01, -0.01, 1)
	_, f, err := d.observe()
	if err != nil {
		return d
	}
	geo := d.geo()
	var ends []float64
	for _, y := range f.ends {
		if y > geo.T+40 && y < geo.H {
			ends = append(ends, y)
		}
	}
	if len(ends) == 0 {
		return d
	}
	m := [4]float64{geo.L, geo.T, geo.R, geo.H - ends[at%len(ends)] - delta}
	if m[3] < 0 {
		return d
	}
	d.Margins = &m
	d.repair()
	return d
}

// fitted draws documents of the profile, where the widths of texts, boxes and columns are exactly, or nearly, those of some of their words.
func (p Profile) fitted(t *rapid.T) *Doc {
	d := p.doc(t)
	g := &gen{t: t, p: &p, d: d}
	geo := d.geo()
	base := defaultSty()
	exact := func(sty RSty, n *Node, lo, hi float64) (float64, bool) {
		items := d.items(n, &sty)
		if len(items) == 0 {
			return 0, false
		}
		i := 0
		if g.pct(30) {
			i = g.uniform(len(items))
		}
		k := i + 1 + g.uniform(8)
		w := 0.0
		for j := i; j < k && j < len(items); j++ {
			it := items[j]
			if it.Brk {
				break
			}
			if j == k-1 && sty.HAlign == "block" {
				if ps := refEnUs().parts(it.W); len(ps) > 1 {
					w += it.Sty.Font.width(" " + strings.Join(ps[:1+g.uniform(len(ps)-1)], "") + "-")
					break
				}
			}
			if j == i && sty.HAlign == "block" && g.pct(40) {
				// the line starts with the remainder of a divided word
				if ps := refEnUs().parts(it.W); len(ps) > 1 {
					w += it.Sty.Font.width(strings.Join(ps[1+g.uniform(len(ps)-1):], ""))
					continue
				}
			}
			w += it.Sty.Font.width(" " + it.W)
		}
		w += pick(g, 0, 0, 0, 0, 1e-9, -1e-9, 1e-4, -1e-4, 2e-4)
		return w, w > lo && w < hi
	}
	fit := d.Margins != nil && g.pct(30) // the width of the page
	for _, n := range d.Body {
		if fit && (n.El == "text" || n.El == "box") {
			sty := d.resolve(base, n, "")
			pads := 0.0
			if n.El == "box" {
				pads = sty.Pad[0] + sty.Pad[2]
			}
			if w, ok := exact(sty, n, 60, geo.W-geo.L-2-pads); ok {
				n.setStyle("width", "-1")
				d.Margins[2] = geo.W - geo.L - 2 - w - pads
				geo = d.geo()
				fit = false
				continue
			}
		}
		switch n.El {
		case "font":
			base.Font = d.resolve(base, n, "").Font
		case "text", "box":
			sty := d.resolve(base, n, "")
			pads := 0.0
			if n.El == "box" {
				pads = sty.Pad[0] + sty.Pad[2]
			}
			if w, ok := exact(sty, n, 10, geo.X1-geo.X0-pads-30); ok && g.pct(70) {
				n.setStyle("width", num(w+pads))
			}
		case "table":
			rt := d.refTable(n, base, geo.L, geo)
			room := geo.X1 - geo.X0 - 25*float64(len(rt.widths))
			for _, row := range rt.rows {
				for _, c := range row {
					if span := c.n.attrI("colspan", 1); span > 1 || room < 25 {
						continue
					}
					pads := c.sty.Pad[0] + c.sty.Pad[2]
					if w, ok := exact(c.sty, c.n, 8, room-pads); ok && g.pct(40) {
						c.n.setStyle("column-width", num(w+pads))
						room -= w + pads
					}
				}
			}
		}
	}
	d.repair()
	return d
}

func (n *Node) clone() *Node {
	c := *n
	c.Class = append([]string(nil), n.Class...)
	c.Style = append([]Decl(nil), n.Style...)
	c.Attr = append([][2]string(nil), n.Attr...)
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return &c
}

func (n *Node) words() int {
	k := len(fields(n.Text))
	for _, c := range n.Kids {
		k += c.words()
	}
	return k
}

// amplified draws documents of the profile of which something is large: the texts, the number of their parts, the rows or
// columns of the tables, or the number of elements.
func (p Profile) amplified(modes ...string) func(t *rapid.T) *Doc {
	return func(t *rapid.T) *Doc {
		d := p.doc(t)
		g := &gen{t: t, p: &p, d: d}
		g.u8 = d.UTF8
		g.bg = 5000
		mode := pick(g, modes...)
		size := pick(g, 300, 80, 150, 600, 1200)
		budget := 4000 // words altogether
		serial := 0
		recolor := func(n *Node) {
			if p.UniqueBg {
				n.setStyle("background-color", g.uniqueBg())
			}
		}
		for _, n := range d.Body {
			if budget < 0 {
				break
			}
			if mode == "words" && g.pct(30) { // many words per line
				n.setStyle("font-point-size", "5")
			}
			switch {
			case mode == "words" && (n.El == "text" || n.El == "box"):
				for _, k := range n.Kids {
					if fs := fields(k.Text); len(fs) > 0 {
						var sb strings.Builder
						for i := 0; i < size/len(fs) && i < budget; i++ {
							serial++
							fmt.Fprintf(&sb, " %s %d", strings.Join(fs, " "), serial)
						}
						budget -= size * 2
						k.Text += sb.String()
					}
				}
			case mode == "parts" && n.El == "text" && len(n.Kids) > 0:
				kids := n.Kids
				for i := 0; i < size/4/len(kids); i++ {
					for _, k := range kids {
						c := k.clone()
						serial++
						if c.El == "#text" && len(fields(c.Text)) > 0 {
							c.Text = fmt.Sprintf(" %s %d ", c.Text, serial)
						}
						if c.El == "p" {
							c.Text += fmt.Sprintf(" %d ", serial)
						}
						n.Kids = append(n.Kids, c)
					}
				}
				budget -= size
			case mode == "rows" && n.El == "table":
				rows := n.Kids
				per := n.words() + 4*len(rows)
				for i := 0; i < min(size/len(rows)/2, 2500/per); i++ {
					for _, r := range rows {
						c := r.clone()
						for _, td := range c.Kids {
							recolor(td)
						}
						n.Kids = append(n.Kids, c)
					}
				}
				budget -= 2500
			case mode == "columns" && n.El == "table":
				times := 1 + g.uniform(5)
				for _, r := range n.Kids {
					cells := r.Kids
					for i := 0; i < times; i++ {
						for _, td := range cells {
							c := td.clone()
							recolor(c)
							r.Kids = append(r.Kids, c)
						}
					}
				}
			}
		}
		if mode == "elements" && len(d.Body) > 0 {
			els := d.Body
			per := 0
			for _, n := range els {
				per += 3 + n.words()
			}
			for i := 0; i < min(size/3/len(els), 3000/per); i++ {
				for _, n := range els {
					c := n.clone()
					if c.El == "table" {
						for _, r := range c.Kids {
							for _, td := range r.Kids {
								recolor(td)
							}
						}
					}
					d.Body = append(d.Body, c)
				}
			}
		}
		d.repair()
		return d
	}
}
