package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------- C21

type engOp struct {
	Op   string
	A    []float64 `json:",omitempty"`
	Font *Font     `json:",omitempty"`
	S    string    `json:",omitempty"`
	C    RGB       `json:",omitempty"`
	Move []bool    `json:",omitempty"`
}

type engCase struct {
	Orient, Format string
	Margins        [4]float64
	UTF8           bool
	Imgs           map[string][2]int
	Ops            []engOp
}

func genEngine(t *rapid.T) *engCase {
	g := newGen(t)
	g.p = &Profile{LongPct: 10}
	c := &engCase{Orient: pick(g, "portrait", "landscape", ""), Format: pick(g, "a4", "a5", "letter", "legal", "a3", ""), UTF8: g.pct(30), Imgs: map[string][2]int{}}
	g.u8 = c.UTF8
	d := Doc{Orient: c.Orient, Format: c.Format}
	geo := d.geo()
	for i := range c.Margins {
		c.Margins[i] = mustF(g.decimal(0, 40))
	}
	c.Margins[3] = mustF(g.decimal(0, geo.H-100))
	px := func() float64 { return mustF(g.decimal(0, geo.W)) }
	py := func() float64 { return mustF(g.decimal(0, geo.H)) }
	fnt := func() *Font {
		f := &Font{Family: pick(g, "Arial", "Times", "Courier", "Helvetica", "arial", "TIMES"), Size: mustF(g.decimal(4, 40)),
			Style: pick(g, "normal", "italic", "", "oblique"), Weight: pick(g, "normal", "bold", ""), Deco: pick(g, "normal", "underline", "")}
		if c.UTF8 && g.pct(50) {
			f.Family = "DejaVu"
		}
		return f
	}
	col := func() RGB { return RGB{g.n(0, 255), g.n(0, 255), g.n(0, 255)} }
	c.Ops = append(c.Ops, engOp{Op: "font", Font: fnt()})
	for g.pct(30) { // settings made before the first page hold on it
		c.Ops = append(c.Ops, pick(g, engOp{Op: "textcolor", C: col()}, engOp{Op: "drawcolor", C: col()}, engOp{Op: "fillcolor", C: col()}, engOp{Op: "lw", A: []float64{mustF(g.decimal(0, 4))}}, engOp{Op: "font", Font: fnt()}))
	}
	c.Ops = append(c.Ops, engOp{Op: "page"})
	for i := g.n(1, 30); i > 0; i-- {
		var o engOp
		switch g.n(0, 15) {
		case 0:
			o = engOp{Op: "page"}
		case 1:
			x := px()
			if g.pct(30) {
				x = -x
			}
			o = engOp{Op: "setx", A: []float64{x}}
		case 2:
			y := py()
			if g.pct(30) {
				y = -y
			}
			o = engOp{Op: "sety", A: []float64{y}}
		case 3:
			o = engOp{Op: "lf", A: []float64{mustF(g.decimal(0, 6))}}
			if g.pct(20) {
				o.A[0] = -o.A[0] / 2 // upwards, as far as the page reaches
			}
		case 4, 5:
			o = engOp{Op: "font", Font: fnt()}
		case 6:
			o = engOp{Op: "textcolor", C: col()}
		case 7:
			o = engOp{Op: "drawcolor", C: col()}
		case 8:
			o = engOp{Op: "fillcolor", C: col()}
		case 9:
			o = engOp{Op: "lw", A: []float64{mustF(g.decimal(0, 4))}}
		case 10:
			o = engOp{Op: "rect", A: []float64{px(), py(), px(), py()}}
		case 11:
			o = engOp{Op: "path"}
			for k := g.n(1, 6); k > 0; k-- {
				o.A = append(o.A, px(), py())
				o.Move = append(o.Move, len(o.Move) == 0 || g.pct(30))
			}
		case 12:
			name := pick(g, "a.png", "b.jpg", "c.gif")
			c.Imgs[name] = [2]int{g.n(1, 60), g.n(1, 60)}
			x, y := px(), py()
			if g.pct(20) {
				x = -x / 4
			}
			if g.pct(20) {
				y = -y / 4
			}
			o = engOp{Op: "image", S: name, A: []float64{x, y, mustF(g.decimal(1, 150)), mustF(g.decimal(1, 150))}}
		default:
			s := pick(g, "", " ") + g.word()
			for g.pct(40) {
				s += " " + g.word()
			}
			if g.pct(10) {
				s = pick(g, "a\\b", "(x", "x)", "()", "\\", "%", "<<>>", "a)b(c", "/F1 12 Tf", " ")
			}
			if g.pct(50) {
				o = engOp{Op: "setx", A: []float64{mustF(g.decimal(0, geo.W/2))}}
				c.Ops = append(c.Ops, o)
			}
			o = engOp{Op: "text", S: s}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func ascii(s string) bool {
	for _, r := range s {
		if r > 126 {
			return false
		}
	}
	return true
}

func checkEngine(c *engCase, st *Stats) error {
	dir, done := scratch()
	defer done()
	for name, px := range c.Imgs {
		if err := os.WriteFile(filepath.Join(dir, name), imageFile(name, px[0], px[1]), 0o644); err != nil {
			harnessFail("%v", err)
		}
	}
	doc := &xdoc.Document{Page: xdoc.Page{Orientation: xdoc.Orientation(c.Orient), Format: xdoc.PaperFormat(c.Format),
		Margins: xdoc.Margins{Left: c.Margins[0], Top: c.Margins[1], Right: c.Margins[2], Bottom: c.Margins[3]}}}
	d := Doc{Orient: c.Orient, Format: c.Format, Margins: &c.Margins, UTF8: c.UTF8}
	g := d.geo()
	e, err := engine.NewFPDF(d.fonts(), doc)
	if err != nil {
		return fmt.Errorf("engine: %w", err)
	}
	var evs []Ev
	var fnt Font
	var text, draw, fill RGB
	lw := 0.2
	page := 0
	var x, y float64
	// the page size and margins never change
	static := func() error {
		l, t, r, b := e.Margins()
		if !near(l, g.L) || !near(t, g.T) || !near(r, g.R) || math.Abs(b-g.B) > 1e-5 {
			return fmt.Errorf("margins %v %v %v %v instead of %v", l, t, r, b, c.Margins)
		}
		if w, h := e.PageWidth(), e.PageHeight(); math.Abs(w-g.W) > 0.01 || math.Abs(h-g.H) > 0.01 {
			return fmt.Errorf("page size %v x %v instead of %v x %v", w, h, g.W, g.H)
		}
		x0, y0, x1, y1 := e.PrintableArea()
		if !near(x0, g.L) || !near(y0, g.T) || math.Abs(x1-(g.W-g.R-2)) > 0.01 || math.Abs(y1-(g.H-g.B)) > 0.01 {
			return fmt.Errorf("printable area (%v,%v)-(%v,%v)", x0, y0, x1, y1)
		}
		return nil
	}
	texts, shapes := 0, 0
	for i, o := range c.Ops {
		what := fmt.Sprintf("operation %d (%s %v %q)", i, o.Op, o.A, o.S)
		switch o.Op {
		case "page":
			e.AddPage()
			page++
			x, y = g.L, g.T
			evs = append(evs, Ev{K: 'p', Page: page})
		case "setx":
			e.SetX(o.A[0])
			x = o.A[0]
			if x < 0 {
				x += g.W
			}
		case "sety":
			e.SetY(o.A[0])
			y = o.A[0]
			if y < 0 {
				y += g.H
			}
		case "lf":
			if y+o.A[0]*fnt.height() < 0 {
				continue
			}
			e.LineFeed(o.A[0])
			y += o.A[0] * fnt.height()
			x = g.L
		case "font":
			e.ChangeFont(style.Font{Family: o.Font.Family, PointSize: o.Font.Size, Style: style.FontStyle(o.Font.Style), Weight: style.FontWeight(o.Font.Weight), Decoration: style.FontDecoration(o.Font.Deco)})
			fnt = *o.Font
		case "textcolor":
			e.SetTextColor(o.C[0], o.C[1], o.C[2])
			text = o.C
		case "drawcolor":
			e.SetDrawColor(o.C[0], o.C[1], o.C[2])
			draw = o.C
		case "fillcolor":
			e.SetFillColor(o.C[0], o.C[1], o.C[2])
			fill = o.C
		case "lw":
			e.SetLineWidth(o.A[0])
			lw = o.A[0]
		case "rect":
			e.FillRect(o.A[0], o.A[1], o.A[2], o.A[3])
			evs = append(evs, Ev{K: 'f', Page: page, X: o.A[0], Y: o.A[1], W: o.A[2], H: o.A[3], Col: fill})
			shapes++
		case "path":
			var px, py float64
			for k, mv := range o.Move {
				qx, qy := o.A[2*k], o.A[2*k+1]
				if mv {
					e.MoveTo(qx, qy)
					x, y = qx, qy // as gofpdf does
				} else {
					e.LineTo(qx, qy)
					x, y = qx, qy
					evs = append(evs, Ev{K: 'l', Page: page, X: px, Y: py, X1: qx, Y1: qy, Col: draw, LW: lw})
				}
				px, py = qx, qy
			}
			e.DrawPath()
			// where the cursor is behind a path is left open
			x, y = g.L, g.T
			e.SetX(x)
			e.SetY(y)
			shapes++
		case "image":
			e.PutImage(filepath.Join(dir, o.S), o.A[0], o.A[1], o.A[2], o.A[3])
			evs = append(evs, Ev{K: 'i', Page: page, X: o.A[0], Y: o.A[1], W: o.A[2], H: o.A[3], S: o.S})
			shapes++
		case "text":
			s := o.S
			if !ascii(s) && fnt.Family != "DejaVu" {
				s = "replaced"
			}
			mf := fnt
			w := mf.width(s)
			if have := e.TextWidth(s); math.Abs(have-w) > 1e-6 {
				return fmt.Errorf("%s: width of %q is %v instead of %v in %v", what, s, have, w, fnt)
			}
			if x+w > g.W-g.R-2.01 || math.Abs(y+fnt.height()-(g.H-g.B)) < 1e-4 || g.T+fnt.height() > g.H-g.B-1 {
				continue // the line is full, or it is at the very end of the page
			}
			e.WriteText(s)
			if s == "" {
				continue
			}
			if y+fnt.height() > g.H-g.B && (fnt.Family != "DejaVu" || s != " ") {
				page++
				y = g.T
			}
			evs = append(evs, Ev{K: 't', Page: page, X: x, Y: y, S: s, Font: fnt, Col: text})
			x += w
			texts++
		}
		if err := e.Error(); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		hx, hy := e.GetXY()
		if page > 0 && (math.Abs(hx-x) > 1e-6 || math.Abs(hy-y) > 1e-6) {
			return fmt.Errorf("%s: the cursor is at (%v, %v) instead of (%v, %v)", what, hx, hy, x, y)
		}
		if n := e.CurrentPage(); n != page {
			return fmt.Errorf("%s: page %d instead of %d", what, n, page)
		}
		if h := e.FontHeight(); math.Abs(h-fnt.height()) > 1e-6 {
			return fmt.Errorf("%s: font height %v instead of %v", what, h, fnt.height())
		}
		if err := static(); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
	}
	if m := e.MonoFont(); m != "Courier" {
		return fmt.Errorf("mono font is %q", m)
	}
	var buf bytes.Buffer
	if err := e.WritePDF(&buf); err != nil {
		return fmt.Errorf("write: %w", err)
	}
	pdf, err := parsePDF(buf.Bytes())
	if err != nil {
		return fmt.Errorf("PDF is not well-formed: %w", err)
	}
	st.NonTrivialIf(texts > 0 && shapes > 0)
	st.ClassIf(page > 1, "several pages")
	st.ClassIf(c.UTF8, "utf-8 font")
	st.ClassIf(texts > 0, "texts")
	if _, err := comparePDF(evs, pdf, page); err != nil {
		return err
	}
	// images show the right file
	k := 0
	for _, ev := range evs {
		if ev.K != 'i' {
			continue
		}
		for k < len(pdf.Evs) && pdf.Evs[k].K != 'i' {
			k++
		}
		if k < len(pdf.Evs) {
			if pdf.Evs[k].Px != c.Imgs[ev.S] {
				return fmt.Errorf("image of %v pixels is drawn instead of %s with %v", pdf.Evs[k].Px, ev.S, c.Imgs[ev.S])
			}
			k++
		}
	}
	return nil
}

// ------------------------------------------------------------- C24

type fontDef struct {
	Name   string
	Styles [][2]string // style, file
}

type fontCase struct {
	Mono    *string `json:",omitempty"`
	Fonts   []fontDef
	Missing string `json:",omitempty"` // a file which is not there or no font
	Kind    string `json:",omitempty"` // of the missing one
	Cut     int    `json:",omitempty"`
	Dir     string // directory of the definition file
	Chdir   string // current directory relative to the root
	RelDef  bool   `json:",omitempty"` // definition file given relative to the current directory
	Spell   int
	Shared  bool `json:",omitempty"` // one file for all definitions of the same font
	Same    bool `json:",omitempty"` // different files of the same name
}

var fontStyles = []string{"regular", "bold", "italic", "bold+italic"}
var fontFiles = []string{"DejaVuSansCondensed.ttf", "DejaVuSansCondensed-Bold.ttf", "DejaVuSansCondensed-Oblique.ttf", "DejaVuSansCondensed-BoldOblique.ttf", "calligra.ttf"}

func genFonts(t *rapid.T) *fontCase {
	g := newGen(t)
	c := &fontCase{Dir: pick(g, "fonts", "a/b", ".", "with space"), Chdir: pick(g, ".", "a", "fonts", "other/deep"), RelDef: g.pct(50), Spell: g.n(0, 2), Shared: g.pct(25), Same: g.pct(20)}
	if g.pct(50) {
		m := pick(g, "Mono Sans", "Courier", "", "dejavu")
		c.Mono = &m
	}
	names := []string{"DejaVu", "Other Font", "third", "Fourth"}
	for i := g.n(0, 3); i > 0; i-- {
		f := fontDef{Name: names[len(c.Fonts)]}
		for _, s := range rapid.Permutation(fontStyles).Draw(t, "styles")[:g.n(0, 4)] {
			f.Styles = append(f.Styles, [2]string{s, pick(g, fontFiles[:4]...)})
		}
		c.Fonts = append(c.Fonts, f)
	}
	return c
}

// layout of the files: relative to the definition, in a sub-directory, above it, or absolute
func (c *fontCase) fileRef(i, k int) (rel string, abs bool) {
	f := c.Fonts[i].Styles[k][1]
	name := fmt.Sprintf("f%d-%d-%s", i, k, f)
	if c.Shared {
		name, i, k = f, len(f), 0
	} else if c.Same {
		name = fmt.Sprintf("d%d-%d/font/f.ttf", i, k)
	}
	switch (i*3 + k + c.Spell) % 4 {
	case 0:
		return name, false
	case 1:
		return "ttf/" + name, false
	case 2:
		return "../up/" + name, false
	}
	return "abs/" + name, true
}

var fontData = map[string][]byte{}

func fontBytes(name string) []byte {
	imgMu.Lock()
	defer imgMu.Unlock()
	if bs, ok := fontData[name]; ok {
		return bs
	}
	bs, err := os.ReadFile(filepath.Join(fontDir(), name))
	if err != nil {
		harnessFail("font: %v", err)
	}
	fontData[name] = bs
	return bs
}

func checkFonts(c *fontCase, st *Stats) error {
	root, done := scratch()
	defer done()
	// depth so that ../up stays inside
	root = filepath.Join(root, "r")
	defDir := filepath.Join(root, c.Dir)
	cwd := filepath.Join(root, c.Chdir)
	for _, p := range []string{defDir, cwd} {
		if err := os.MkdirAll(p, 0o755); err != nil {
			harnessFail("%v", err)
		}
	}
	q := func(s string) string {
		if c.Spell == 1 {
			return "'" + s + "'"
		}
		return fmt.Sprintf("%q", s)
	}
	var sb strings.Builder
	if c.Mono != nil {
		fmt.Fprintf(&sb, "MonoFont = %s\n", q(*c.Mono))
	}
	type want struct {
		name, sty, path string
		file            string
	}
	var wants []want
	for i, f := range c.Fonts {
		fmt.Fprintf(&sb, "\n[[Fonts]]\nName = %s\n", q(f.Name))
		for k, s := range f.Styles {
			ref, abs := c.fileRef(i, k)
			path := filepath.Join(defDir, ref)
			if abs {
				ref = filepath.Join(root, ref)
				path = ref
			}
			if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
				harnessFail("%v", err)
			}
			if err := os.WriteFile(path, fontBytes(s[1]), 0o644); err != nil {
				harnessFail("%v", err)
			}
			if c.Spell == 2 {
				fmt.Fprintf(&sb, "  [[Fonts.StyleDefinitions]]\n  FilePath = %s # file\n  Style = %s\n", q(ref), q(s[0]))
			} else {
				fmt.Fprintf(&sb, "[[Fonts.StyleDefinitions]]\nStyle = %s\nFilePath = %s\n", q(s[0]), q(ref))
			}
			wants = append(wants, want{f.Name, s[0], path, s[1]})
		}
	}
	def := filepath.Join(defDir, "fontdef.toml")
	if err := os.WriteFile(def, []byte(sb.String()), 0o644); err != nil {
		harnessFail("%v", err)
	}
	old, err := os.Getwd()
	if err != nil {
		harnessFail("%v", err)
	}
	if err := os.Chdir(cwd); err != nil {
		harnessFail("%v", err)
	}
	back := func() {
		if err := os.Chdir(old); err != nil {
			harnessFail("%v", err)
		}
	}
	defer back()
	arg := def
	if c.RelDef {
		if arg, err = filepath.Rel(cwd, def); err != nil {
			harnessFail("%v", err)
		}
	}
	reg, err := font.LoadRegistryFromFile(arg)
	if err != nil {
		return fmt.Errorf("font definitions are not loaded: %w\n%s", err, sb.String())
	}
	back() // the registry does not depend on the current directory any more
	mono := ""
	if c.Mono != nil {
		mono = *c.Mono
	}
	if reg.MonoFont() != mono {
		return fmt.Errorf("mono font is %q instead of %q", reg.MonoFont(), mono)
	}
	i := 0
	var bad error
	reg.Each(func(fd font.Descriptor) error {
		if bad == nil {
			if i >= len(wants) {
				bad = fmt.Errorf("additional font %+v\n%s", fd, sb.String())
			} else if w := wants[i]; fd.Name != w.name || string(fd.Style) != w.sty || filepath.Clean(fd.FilePath) != w.path || !filepath.IsAbs(fd.FilePath) {
				bad = fmt.Errorf("font %d is %+v instead of %+v\n%s", i, fd, w, sb.String())
			}
		}
		i++
		return nil
	})
	if bad != nil {
		return bad
	}
	if i != len(wants) {
		return fmt.Errorf("%d fonts instead of %d\n%s", i, len(wants), sb.String())
	}
	doc := &xdoc.Document{}
	e, err := engine.NewFPDF(reg, doc)
	if err != nil {
		return fmt.Errorf("engine: %w\n%s", err, sb.String())
	}
	if mono == "" {
		mono = "Courier"
	}
	if e.MonoFont() != mono {
		return fmt.Errorf("mono font of the engine is %q instead of %q", e.MonoFont(), mono)
	}
	if len(wants) == 0 {
		return nil
	}
	st.NonTrivial()
	st.ClassIf(len(wants) > 2, "more than 2 fonts")
	set := func(w want, size float64) {
		f := style.Font{Family: w.name, PointSize: size}
		if w.sty == "bold" || w.sty == "bold+italic" {
			f.Weight = style.FontWeightBold
		}
		if w.sty == "italic" || w.sty == "bold+italic" {
			f.Style = style.FontStyleItalic
		}
		e.ChangeFont(f)
	}
	set(wants[0], 12)
	e.AddPage()
	for k, w := range wants {
		set(w, 12)
		e.SetX(10)
		// the width tells the file
		fd := Font{Family: "DejaVu", Size: 12}
		switch w.file {
		case fontFiles[1]:
			fd.Weight = "bold"
		case fontFiles[2]:
			fd.Style = "italic"
		case fontFiles[3]:
			fd.Weight, fd.Style = "bold", "italic"
		}
		s := fmt.Sprintf("Text%d", k)
		if have, wt := e.TextWidth(s), fd.width(s); math.Abs(have-wt) > 1e-6 {
			return fmt.Errorf("text in %+v is %v wide instead of %v", w, have, wt)
		}
		e.WriteText(s)
		e.LineFeed(1)
	}
	var buf bytes.Buffer
	if err := e.WritePDF(&buf); err != nil {
		return fmt.Errorf("write: %w", err)
	}
	pdf, err := parsePDF(buf.Bytes())
	if err != nil {
		return fmt.Errorf("PDF is not well-formed: %w", err)
	}
	ts := pdf.texts(0)
	if len(ts) != len(wants) {
		return fmt.Errorf("%d texts instead of %d", len(ts), len(wants))
	}
	// texts in the same font file name share the glyph outlines, texts in different ones do not share a font
	for k, w := range wants {
		if want := fmt.Sprintf("Text%d", k); ts[k].S != want {
			return fmt.Errorf("text %q instead of %q", ts[k].S, want)
		}
		if got := ttfStyle(pdf.fonts[ts[k].FontKey].file); got != "" && got != ttfStyle(fontBytes(w.file)) {
			return fmt.Errorf("%q in %s %s is printed with a font file of %s instead of %s", ts[k].S, w.name, w.sty, got, ttfStyle(fontBytes(w.file)))
		}
	}
	return nil
}

// ttfStyle characterises a TrueType file by tables which survive sub-setting.
func ttfStyle(b []byte) string {
	if len(b) < 12 {
		return ""
	}
	n := int(b[4])<<8 | int(b[5])
	out := ""
	for i := 0; i < n && 12+16*(i+1) <= len(b); i++ {
		r := b[12+16*i:]
		tag := string(r[:4])
		off := int(r[8])<<24 | int(r[9])<<16 | int(r[10])<<8 | int(r[11])
		ln := int(r[12])<<24 | int(r[13])<<16 | int(r[14])<<8 | int(r[15])
		if off+ln > len(b) {
			return ""
		}
		if tag == "cvt " || tag == "prep" || tag == "fpgm" {
			out += fmt.Sprintf("%s:%x ", tag, hash64(b[off:off+ln]))
		}
	}
	return out
}

func genBadFonts(t *rapid.T) *fontCase {
	c := genFonts(t)
	g := newGen(t)
	if len(c.Fonts) == 0 {
		c.Fonts = []fontDef{{Name: "DejaVu"}}
	}
	i := g.n(0, len(c.Fonts)-1)
	if len(c.Fonts[i].Styles) == 0 {
		c.Fonts[i].Styles = [][2]string{{pick(g, fontStyles...), fontFiles[0]}}
	}
	k := g.n(0, len(c.Fonts[i].Styles)-1)
	c.Missing = fmt.Sprintf("%d/%d", i, k)
	c.Kind = pick(g, "missing", "empty", "garbage", "directory", "text", "cut", "cut", "table", "opentype", "collection")
	c.Cut = pick(g, g.uniform(1<<20), g.uniform(400), 16*g.uniform(20)+g.uniform(16), g.n(0, 1<<20))
	return c
}

// checkBadFonts: a font file which is missing or no font makes the creation of the engine fail.
func checkBadFonts(c *fontCase, st *Stats) error {
	root, done := scratch()
	defer done()
	reg := font.NewRegistry()
	for i, f := range c.Fonts {
		for k, s := range f.Styles {
			path := filepath.Join(root, fmt.Sprintf("f%d-%d.ttf", i, k))
			bs := fontBytes(s[1])
			if fmt.Sprintf("%d/%d", i, k) == c.Missing {
				switch c.Kind {
				case "missing":
					bs = nil
				case "empty":
					bs = []byte{}
				case "garbage":
					bs = bytes.Repeat([]byte{0xde, 0xad, 0xbe, 0xef}, 300)
				case "directory":
					os.Mkdir(path, 0o755)
					bs = nil
				case "text":
					bs = []byte(strings.Repeat("this is no font\n", 100))
				case "cut":
					// the last table may be followed by up to three padding bytes
					bs = bs[:c.Cut%(len(bs)-3)]
				case "table":
					// one of the tables no TrueType font lacks
					tag := []string{"cmap", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "name", "post"}[c.Cut%9]
					bs = append([]byte(nil), bs...)
					copy(bs[12+bytes.Index(bs[12:], []byte(tag)):], "zzzz")
				case "opentype":
					bs = append([]byte("OTTO"), bs[4:]...)
				case "collection":
					bs = append([]byte("ttcf"), bs[4:]...)
				}
			}
			if bs != nil {
				if err := os.WriteFile(path, bs, 0o644); err != nil {
					harnessFail("%v", err)
				}
			}
			reg.Register(font.Descriptor{Name: f.Name, Style: font.Style(s[0]), FilePath: path})
		}
	}
	st.NonTrivial()
	st.Class(c.Kind)
	e, err := engine.NewFPDF(reg, &xdoc.Document{})
	if err == nil {
		return fmt.Errorf("font file %s (%s) is accepted", c.Missing, c.Kind)
	}
	if e != nil {
		return fmt.Errorf("an engine is returned together with the error %v", err)
	}
	return nil
}

type anyFile struct {
	Data []byte
	Kind string
}

func genAnyToml(t *rapid.T) *anyFile {
	g := newGen(t)
	toks := []string{"MonoFont", "=", "\"x\"", "\n", "[[Fonts]]", "[[Fonts.StyleDefinitions]]", "Name", "Style", "FilePath", "[", "]", "'", "\"", "1", "true", "#", "[Fonts]", "é", "\x00", "Name = \"a\"\n", "Style=\"bold\"\n", "[[Fonts]]\n", "Name = 5\n", "[[Fonts.StyleDefinitions]]\n", "FilePath=\"x.ttf\"\n"}
	var sb strings.Builder
	for i := g.n(0, 15); i > 0; i-- {
		sb.WriteString(pick(g, toks...))
	}
	return &anyFile{Data: []byte(sb.String()), Kind: pick(g, "file", "file", "file", "missing", "directory")}
}

// checkAnyToml: an unusable definition file is an error, never a panic or a partial registry.
func checkAnyToml(c *anyFile, st *Stats) error {
	dir, done := scratch()
	defer done()
	f := filepath.Join(dir, "fontdef.toml")
	switch c.Kind {
	case "directory":
		os.Mkdir(f, 0o755)
	case "missing":
	default:
		os.WriteFile(f, c.Data, 0o644)
	}
	reg, err := font.LoadRegistryFromFile(f)
	if err != nil && reg != nil {
		return fmt.Errorf("a registry is returned together with the error %v", err)
	}
	if err == nil && (reg == nil || c.Kind != "file") {
		return fmt.Errorf("%s is accepted", c.Kind)
	}
	st.NonTrivialIf(err != nil || len(c.Data) > 0)
	st.ClassIf(err != nil, "rejected")
	st.ClassIf(err == nil, "accepted")
	return nil
}

func init() {
	register(&Prop{ID: "C21", Rule: "random sequences of engine operations (pages, cursor, fonts, colours, line widths, rectangles, paths, images, texts with all core fonts and a UTF-8 font), a model of the cursor and of what is drawn, compared with the reported values after every operation and with the operators in the PDF; non-trivial: at least one text and one shape are drawn",
		Subs: []*Sub{sub("operations", 10000, 400000, genEngine, checkEngine)}})
	register(&Prop{ID: "C24", Rule: "random font definition files (styles, absolute and relative paths, spelling) in random directories loaded from random current directories; definitions with an unusable file; random files; non-trivial: at least one font is defined",
		Subs: []*Sub{
			sub("definitions", 500, 20000, genFonts, checkFonts),
			sub("unusable", 2500, 60000, genBadFonts, checkBadFonts),
			sub("files", 8000, 400000, genAnyToml, checkAnyToml),
		}})
}
