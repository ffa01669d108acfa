package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/xdoc"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------- C22

// image files by kind
var goodKinds = []string{"png", "png-gray", "png-rgba", "jpeg", "jpeg-gray", "gif", "gif-anim", "tiny"}
var skipKinds = []string{"missing", "empty", "text", "directory", "truncated", "truncated-jpg", "truncated-gif", "bad-data"}
var badKinds = []string{"png16", "png-as-jpg", "jpg-as-png", "no-ext", "interlaced"}

// imageKind gives the file name for a kind and its content; nil: there is no such file
func imageKind(kind, stem string) (string, []byte) {
	var buf bytes.Buffer
	enc := func(img image.Image) []byte {
		buf.Reset()
		if err := png.Encode(&buf, img); err != nil {
			harnessFail("png: %v", err)
		}
		return append([]byte{}, buf.Bytes()...)
	}
	r := image.Rect(0, 0, 7, 5)
	switch kind {
	case "png":
		return stem + ".png", imageFile("a.png", 7, 5)
	case "tiny":
		return stem + ".png", imageFile("a.png", 1, 1)
	case "png-gray":
		return stem + ".png", enc(image.NewGray(r))
	case "png-rgba":
		im := image.NewNRGBA(r)
		im.Set(1, 1, color.NRGBA{1, 2, 3, 100})
		return stem + ".PNG", enc(im)
	case "jpeg":
		return stem + ".jpg", imageFile("a.jpg", 7, 5)
	case "jpeg-gray":
		if err := jpeg.Encode(&buf, image.NewGray(r), nil); err != nil {
			harnessFail("jpeg: %v", err)
		}
		return stem + ".jpeg", buf.Bytes()
	case "gif", "gif-anim":
		return stem + ".gif", imageFile("a.gif", 7, 5)
	case "missing":
		return stem + ".png", nil
	case "empty":
		return stem + ".png", []byte{}
	case "text":
		return stem + ".jpg", []byte("this is no image at all")
	case "directory":
		return stem + ".png", nil
	case "png16":
		return stem + ".png", enc(image.NewGray16(r))
	case "png-as-jpg":
		return stem + ".jpg", imageFile("a.png", 7, 5)
	case "jpg-as-png":
		return stem + ".png", imageFile("a.jpg", 7, 5)
	case "truncated":
		bs := imageFile("a.png", 40, 40)
		return stem + ".png", bs[:len(bs)-20]
	case "truncated-jpg":
		bs := imageFile("a.jpg", 40, 40)
		return stem + ".jpg", bs[:len(bs)-30]
	case "truncated-gif":
		bs := imageFile("a.gif", 40, 40)
		return stem + ".gif", bs[:len(bs)-30]
	case "bad-data":
		bs := append([]byte{}, imageFile("a.png", 40, 40)...)
		bs[len(bs)-25] ^= 0x5a
		return stem + ".png", bs
	case "no-ext":
		return stem, imageFile("a.png", 7, 5)
	case "interlaced":
		bs := append([]byte{}, imageFile("a.png", 1, 1)...)
		bs[28] = 1 // interlace method in IHDR
		fixCRC(bs)
		return stem + ".png", bs
	}
	harnessFail("image kind %q", kind)
	return "", nil
}

func fixCRC(bs []byte) {
	c := crcPNG(bs[12:29])
	bs[29], bs[30], bs[31], bs[32] = byte(c>>24), byte(c>>16), byte(c>>8), byte(c)
}

func crcPNG(bs []byte) uint32 {
	c := ^uint32(0)
	for _, b := range bs {
		c ^= uint32(b)
		for i := 0; i < 8; i++ {
			if c&1 != 0 {
				c = c>>1 ^ 0xedb88320
			} else {
				c >>= 1
			}
		}
	}
	return ^c
}

// place writes the image into the directory and returns its name.
func placeImage(dir, kind, stem string) string {
	name, bs := imageKind(kind, stem)
	f := filepath.Join(dir, name)
	os.MkdirAll(filepath.Dir(f), 0o755)
	switch {
	case kind == "directory":
		os.MkdirAll(f, 0o755)
	case bs != nil:
		if err := os.WriteFile(f, bs, 0o644); err != nil {
			harnessFail("write image: %v", err)
		}
	}
	return name
}

type wildCase struct {
	Src     string
	Kinds   []string // of the images a, b, ...
	UTF8    bool
	Mutant  bool `json:",omitempty"`
	Extreme bool `json:",omitempty"`
}

func genWild(t *rapid.T) *wildCase {
	g := newTreeGen(t)
	g.wild = true
	g.budget = pick(g.gen, 10, 40, 80)
	c := &wildCase{UTF8: g.pct(30)}
	tr := genTree(g)
	if tr.Body == nil || len(tr.Body.Kids) == 0 {
		tr.Body = g.node("body", 5)
	}
	if g.pct(70) { // a page with room for something
		for i := range tr.Margins {
			tr.Margins[i] = pick(g.gen, "", "0", "5", "20", "50")
		}
	}
	for i := 0; i < 3; i++ {
		ks := goodKinds
		if g.pct(30) {
			ks = skipKinds
		} else if g.pct(10) {
			ks = badKinds
		}
		c.Kinds = append(c.Kinds, pick(g.gen, ks...))
	}
	for _, p := range tr.places("image") {
		i := g.n(0, len(c.Kinds)-1)
		p.n.Text, _ = imageKind(c.Kinds[i], string(rune('a'+i)))
	}
	w := &xmlWriter{gen: g.gen, plain: true}
	c.Src, _ = w.document(tr)
	if g.pct(10) {
		m := genMutatedOf(g, c.Src)
		c.Src, c.Mutant = m, true
	}
	return c
}

// genExtreme: documents with single numbers far beyond of what makes sense
func genExtreme(t *rapid.T) *wildCase {
	g := newTreeGen(t)
	g.wild = true
	g.budget = pick(g.gen, 5, 15, 30)
	c := &wildCase{UTF8: g.pct(20), Kinds: []string{"png", "jpeg", "gif"}, Extreme: true}
	tr := genTree(g)
	if tr.Body == nil || len(tr.Body.Kids) == 0 {
		tr.Body = g.node("body", 4)
	}
	for _, p := range tr.places("image") {
		p.n.Text = pick(g.gen, "a.png", "b.jpg", "c.gif")
	}
	num := func() string {
		return pick(g.gen, "1000", "-1000", "30000", "1e6", "-1e6", "1e9", "-1e9", "1e-9", "-1e-9", "0", "-0", "-0.5", "0.001", "99999999", "1e15")
	}
	setAttr := func(n *Node, k, v string) {
		for i := range n.Attr {
			if n.Attr[i][0] == k {
				n.Attr[i][1] = v
				return
			}
		}
		n.Attr = append(n.Attr, [2]string{k, v})
	}
	if g.pct(25) {
		tr.Margins[g.n(0, 3)] = num()
	}
	if ps := tr.places("td"); len(ps) > 0 && g.pct(60) {
		setAttr(ps[g.uniform(len(ps))].n, pick(g.gen, "colspan", "rowspan"), pick(g.gen, "0", "-1", "-99999999", "7", "100", "1000", "1001", "50000", "5000000", "99999999", "2147483648", "9223372036854775807"))
	}
	for _, p := range tr.places("lf setx sety") {
		if g.pct(40) {
			k := "lines"
			if p.n.El != "lf" {
				k = p.n.El[3:]
			}
			setAttr(p.n, k, num())
		}
	}
	for _, p := range tr.places("text box p table tr td image font") {
		if !g.pct(30) {
			continue
		}
		k := pick(g.gen, "width", "height", "offset-x", "offset-y", "line-spacing", "column-width", "font-point-size", "line-width", "padding", "border")
		v := num()
		switch k {
		case "padding":
			v = strings.Join([]string{num(), num(), num(), num()}, ",")
		case "border":
			i := func() string { return pick(g.gen, "0", "1", "-1", "99999999", "-99999999") }
			v = strings.Join([]string{i(), i(), i(), i()}, ",")
		}
		p.n.Style = append(p.n.Style, Decl{k, v})
	}
	w := &xmlWriter{gen: g.gen, plain: true}
	c.Src, _ = w.document(tr)
	return c
}

// totality: the rendering ends with an error and without any output, or with a complete PDF.
func totality(run *Run, src string) (*PDF, error) {
	if run.Err != nil {
		if len(run.PDF) > 0 {
			return nil, fmt.Errorf("processing fails (%v), but %d bytes are written\n%s", run.Err, len(run.PDF), src)
		}
		return nil, nil
	}
	pdf, err := parsePDF(run.PDF)
	if err != nil {
		return nil, fmt.Errorf("no well-formed PDF: %w\n%s", err, src)
	}
	if len(pdf.Pages) != run.Pages {
		return nil, fmt.Errorf("PDF has %d pages, %d were started\n%s", len(pdf.Pages), run.Pages, src)
	}
	images := 0
	for _, e := range run.Evs {
		if e.K == 'i' {
			images++
		}
	}
	for _, e := range pdf.Evs {
		if e.K == 'i' {
			images--
		}
	}
	if images != 0 {
		return nil, fmt.Errorf("PDF lacks %d images\n%s", images, src)
	}
	return pdf, nil
}

func checkWild(c *wildCase, st *Stats) error {
	dir, done := scratch()
	defer done()
	for i, k := range c.Kinds {
		placeImage(dir, k, string(rune('a'+i)))
	}
	doc, err := xdoc.Load(strings.NewReader(c.Src))
	if err != nil {
		if c.Mutant {
			st.Class("mutant not loaded")
			return nil
		}
		if c.Extreme { // limits of numbers are up to the loader
			st.Class("extreme value not loaded")
			return nil
		}
		return fmt.Errorf("well-formed document is not loaded: %w\n%s", err, c.Src)
	}
	o := renderOpts{wd: dir}
	if c.UTF8 {
		o.fonts = dejavuRegistry()
	}
	run, err := render(doc, o)
	if err != nil {
		// the engine was not created
		return fmt.Errorf("%w\n%s", err, c.Src)
	}
	if _, err := totality(run, c.Src); err != nil {
		return err
	}
	st.ClassIf(run.Err != nil, "error")
	st.ClassIf(run.Err == nil, "complete")
	st.ClassIf(run.Pages > 1, "several pages")
	st.ClassIf(c.Mutant, "mutant loaded")
	st.ClassIf(c.Extreme, "extreme value loaded")
	st.NonTrivialIf(len(run.Evs) > 5)
	return nil
}

func genMutatedOf(g *treeGen, src string) string {
	bs := []byte(src)
	for i := g.n(1, 3); i > 0; i-- {
		at := g.n(0, len(bs)-1)
		switch g.n(0, 2) {
		case 0: // duplicate a piece between tags
			a := bytes.IndexByte(bs[at:], '<')
			if a < 0 {
				continue
			}
			a += at
			b := bytes.IndexByte(bs[a:], '>')
			if b < 0 {
				continue
			}
			b += a + 1
			bs = append(bs[:b:b], append(append([]byte{}, bs[a:b]...), bs[b:]...)...)
		case 1: // other digits
			for k := at; k < len(bs); k++ {
				if bs[k] >= '0' && bs[k] <= '9' {
					bs[k] = byte('0' + g.n(0, 9))
					break
				}
			}
		case 2: // another name
			a := bytes.Index(bs[at:], []byte("<p"))
			if a >= 0 {
				bs = append(bs[:at+a:at+a], append([]byte("<br/>"), bs[at+a:]...)...)
			}
		}
	}
	return string(bs)
}

type unusableCase struct {
	Before []Node
	Where  string
	What   string // unknown font, or image kind
	After  []Node
	UTF8   bool
	Abs    bool
}

var wrappers = []string{"body", "header", "footer", "td", "td+box"}

func genUnusable(t *rapid.T) *unusableCase {
	g := newTreeGen(t)
	c := &unusableCase{UTF8: g.pct(20), Abs: g.pct(20)}
	plain := func() (out []Node) {
		for i := g.n(0, 3); i > 0; i-- {
			out = append(out, pick(g.gen,
				Node{El: "text", Kids: []*Node{{El: "#text", Text: "some words"}}},
				Node{El: "box", Style: []Decl{{"border", "1,1,1,1"}}, Kids: []*Node{{El: "#text", Text: "in a box"}}},
				Node{El: "lf", Attr: [][2]string{{"lines", "1"}}},
				Node{El: "newpage"},
				Node{El: "table", Kids: []*Node{{El: "tr", Kids: []*Node{{El: "td", Kids: []*Node{{El: "#text", Text: "cell"}}}}}}},
			))
		}
		return
	}
	c.Before, c.After = plain(), plain()
	c.What = pick(g.gen, append(append(append([]string{"font-text", "font-p", "font-instruction", "font-box", "font-td", "font-style"}, badKinds...), skipKinds...), goodKinds...)...)
	switch {
	case strings.HasPrefix(c.What, "font"):
		c.Where = pick(g.gen, "body", "header", "footer")
	default:
		c.Where = pick(g.gen, "body", "header", "footer", "td")
	}
	return c
}

func checkUnusable(c *unusableCase, st *Stats) error {
	dir, done := scratch()
	defer done()
	var n *Node
	font := []Decl{{"font-family", "nosuchfont"}}
	text := func(s string) []*Node { return []*Node{{El: "#text", Text: s}} }
	want := "error"
	switch c.What {
	case "font-text":
		n = &Node{El: "text", Style: font, Kids: text("words")}
	case "font-box":
		n = &Node{El: "box", Style: font, Kids: text("words")}
	case "font-p":
		n = &Node{El: "text", Kids: []*Node{{El: "p", Style: font, Text: "words"}}}
	case "font-instruction":
		n = &Node{El: "font", Style: font}
	case "font-td":
		n = &Node{El: "table", Kids: []*Node{{El: "tr", Kids: []*Node{{El: "td", Style: font, Kids: text("words")}}}}}
	case "font-style":
		// a style of a known font which does not exist
		n = &Node{El: "text", Style: []Decl{{"font-family", "mono"}, {"font-weight", "bold"}}, Kids: text("words")}
		if !c.UTF8 {
			want = "any"
		}
	default:
		name := placeImage(dir, c.What, "x")
		if c.Abs {
			name = filepath.Join(dir, name)
		}
		n = &Node{El: "image", Text: name, Style: []Decl{{"width", "20"}}}
		if c.Where == "td" {
			n = &Node{El: "table", Kids: []*Node{{El: "tr", Kids: []*Node{{El: "td", Kids: []*Node{n}}}}}}
		}
		for _, k := range skipKinds {
			if k == c.What {
				want = "skip"
			}
		}
		for _, k := range goodKinds {
			if k == c.What {
				want = "drawn"
			}
		}
	}
	d := &Doc{Orient: "portrait", Format: "a4", Margins: &[4]float64{10, 10, 10, 10}}
	for i := range c.Before {
		d.Body = append(d.Body, &c.Before[i])
	}
	switch c.Where {
	case "header":
		d.Header = []*Node{n}
	case "footer":
		d.Footer = []*Node{n}
	default:
		d.Body = append(d.Body, n)
	}
	for i := range c.After {
		d.Body = append(d.Body, &c.After[i])
	}
	src := d.XML()
	o := renderOpts{wd: dir}
	if c.UTF8 {
		o.fonts = dejavuRegistry()
	}
	doc, err := xdoc.Load(strings.NewReader(src))
	if err != nil {
		return fmt.Errorf("valid document is not loaded: %w\n%s", err, src)
	}
	run, err := render(doc, o)
	if err != nil {
		return fmt.Errorf("%w\n%s", err, src)
	}
	pdf, err := totality(run, src)
	if err != nil {
		return err
	}
	st.NonTrivial()
	st.Class(c.What)
	images := 0
	if pdf != nil {
		for _, e := range pdf.Evs {
			if e.K == 'i' {
				images++
			}
		}
	}
	switch {
	case want == "error" && run.Err == nil:
		return fmt.Errorf("%s in %s is not reported\n%s", c.What, c.Where, src)
	case want == "skip" && (run.Err != nil || images != 0):
		return fmt.Errorf("image (%s) in %s is not skipped: error %v, %d images\n%s", c.What, c.Where, run.Err, images, src)
	case want == "drawn":
		n := 1
		if c.Where == "header" || c.Where == "footer" {
			n = run.Pages
		}
		if run.Err != nil || images != n {
			return fmt.Errorf("image (%s) in %s: error %v, %d images instead of %d\n%s", c.What, c.Where, run.Err, images, n, src)
		}
	}
	return nil
}

// ------------------------------------------------------------- C23

type isoCase struct {
	Docs  []Doc
	Plan  []int // renderings one after the other
	Par   []int // renderings at once
	Share bool  // one after the other all in the same directory, with the images of each in turn
}

func genIso(t *rapid.T) *isoCase {
	c := &isoCase{}
	p := mixedProfile.with(func(p *Profile) {
		p.Elems = [2]int{1, 6}
		p.LongPct = 25
		p.Aligns = map[string]int{"left": 20, "center": 10, "right": 10, "block": 60}
		p.Kinds = map[string]int{"text": 40, "box": 25, "table": 20, "lf": 5, "setx": 5, "sety": 3, "newpage": 4, "font": 10, "image": 5}
		p.Marginal = 50
	})
	n := 2
	g := newGen(t)
	if g.pct(40) {
		n = 3
	}
	for i := 0; i < n; i++ {
		c.Docs = append(c.Docs, *p.doc(t))
	}
	c.Share = g.pct(40)
	for i := g.n(2, 5); i > 0; i-- {
		c.Plan = append(c.Plan, g.n(0, n-1))
	}
	for i := g.n(2, 6); i > 0; i-- {
		c.Par = append(c.Par, g.n(0, n-1))
	}
	return c
}

// outcome is what a rendering shows.
type outcome struct {
	Err   string
	Pages int
	Evs   []Ev
	PDF   string // text of the pages
}

func (c *isoCase) opts(i int, dir string, h *hyphenation.Hyphenator) renderOpts {
	o := renderOpts{fonts: c.Docs[i].fonts(), hyph: h}
	if c.Docs[i].Imgs != nil {
		o.wd = filepath.Join(dir, fmt.Sprint(i), "wd")
	}
	return o
}

func outcomeOf(doc *xdoc.Document, o renderOpts) (*outcome, error) {
	run, err := render(doc, o)
	if err != nil {
		return nil, err
	}
	out := &outcome{Pages: run.Pages, Evs: run.Evs}
	if o.wd != "" {
		for i := range out.Evs {
			if e := &out.Evs[i]; e.K == 'i' {
				e.S = strings.TrimPrefix(e.S, filepath.Dir(o.wd))
			}
		}
	}
	if run.Err != nil {
		out.Err = "failed"
	}
	return out, nil
}

// freshOutcome renders in a process of its own; called with the case on standard input.
func freshMain() {
	var in struct {
		Src  string
		UTF8 bool
		WD   string
	}
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitError)
	}
	stdout := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	o := renderOpts{fonts: (&Doc{UTF8: in.UTF8}).fonts(), hyph: hyphenation.NewEnUs(), wd: in.WD}
	doc, err := xdoc.Load(strings.NewReader(in.Src))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitViolation)
	}
	out, err := outcomeOf(doc, o)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitViolation)
	}
	json.NewEncoder(stdout).Encode(out)
	os.Exit(0)
}

func freshOutcome(d *Doc, o renderOpts) (*outcome, error) {
	exe, err := os.Executable()
	if err != nil {
		harnessFail("executable: %v", err)
	}
	cmd := exec.Command(exe, "-fresh")
	in, _ := json.Marshal(map[string]any{"Src": d.XML(), "UTF8": d.UTF8, "WD": o.wd})
	cmd.Stdin = bytes.NewReader(in)
	cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0")
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("rendering alone fails: %v %s\n%s", err, clip(stderr.String(), 2000), d.XML())
	}
	var out outcome
	if err := json.Unmarshal(stdout.Bytes(), &out); err != nil {
		harnessFail("fresh outcome: %v", err)
	}
	return &out, nil
}

func (a *outcome) same(b *outcome) error {
	if a.Err != b.Err || a.Pages != b.Pages {
		return fmt.Errorf("error %q and %d pages instead of error %q and %d pages", b.Err, b.Pages, a.Err, a.Pages)
	}
	return sameEvents(a.Evs, b.Evs, 1e-9)
}

var probeWords = []string{"hyphenation", "representation", "documentation", "Information", "independent", "table", "a", "associate", "ALGORITHM", "unbelievable"}

func checkIso(c *isoCase, st *Stats) error {
	dir, done := scratch()
	defer done()
	hyph := hyphenation.NewEnUs()
	divs := func() (out []string) {
		for _, w := range probeWords {
			out = append(out, strings.Join(hyph.Hyphenate(w), "|"))
		}
		return
	}
	before := divs()
	type state struct {
		doc  *xdoc.Document
		norm []string
		desc *xdoc.Description
		ref  *outcome
		src  string
	}
	var states []*state
	for i := range c.Docs {
		d := &c.Docs[i]
		if d.Imgs != nil {
			d.materialize(filepath.Join(dir, fmt.Sprint(i)))
		}
		s := &state{src: d.XML()}
		var err error
		s.doc, err = xdoc.Load(strings.NewReader(s.src))
		if err != nil {
			return fmt.Errorf("valid document is not loaded: %w\n%s", err, s.src)
		}
		s.norm, s.desc = normOf(s.doc, d.Classes), xdoc.Describe(s.doc)
		if s.ref, err = freshOutcome(d, c.opts(i, dir, nil)); err != nil {
			return err
		}
		states = append(states, s)
	}
	untouched := func(when string) error {
		for i, s := range states {
			if err := sameLines(normOf(s.doc, c.Docs[i].Classes), s.norm); err != nil {
				return fmt.Errorf("document %d is changed %s: %w\n%s", i, when, err, s.src)
			}
			if !reflect.DeepEqual(xdoc.Describe(s.doc).Items, s.desc.Items) {
				return fmt.Errorf("document %d is described differently %s\n%s", i, when, s.src)
			}
		}
		if now := divs(); !reflect.DeepEqual(now, before) {
			return fmt.Errorf("the hyphenator divides %v instead of %v %s", now, before, when)
		}
		return nil
	}
	if err := untouched("by describing"); err != nil {
		return err
	}
	drawn := 0
	for _, i := range c.Plan {
		s := states[i]
		o := c.opts(i, dir, hyph)
		if c.Share && o.wd != "" {
			o.wd = c.Docs[i].materialize(filepath.Join(dir, "shared"))
			st.Class("other images of the same name")
		}
		out, err := outcomeOf(s.doc, o)
		if err != nil {
			return err
		}
		if err := s.ref.same(out); err != nil {
			return fmt.Errorf("rendering document %d after others (%v) differs from rendering it alone: %w\n%s", i, c.Plan, err, s.src)
		}
		drawn += len(out.Evs)
		st.extra++
		if err := untouched("by rendering"); err != nil {
			return err
		}
	}
	// at once, each on its own document
	outs := make([]*outcome, len(c.Par))
	errs := make([]error, len(c.Par))
	descs := make([]*xdoc.Description, len(c.Par))
	var wg sync.WaitGroup
	start := make(chan bool)
	for k, i := range c.Par {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[k] = fmt.Errorf("panic: %v", r)
				}
			}()
			o := c.opts(i, dir, hyph)
			<-start
			doc, err := xdoc.Load(strings.NewReader(states[i].src))
			if err != nil {
				errs[k] = err
				return
			}
			descs[k] = xdoc.Describe(doc)
			outs[k], errs[k] = outcomeOf(doc, o)
		}()
	}
	close(start)
	wg.Wait()
	for k, i := range c.Par {
		s := states[i]
		if errs[k] != nil {
			return fmt.Errorf("rendering document %d at once with %v fails: %w\n%s", i, c.Par, errs[k], s.src)
		}
		if err := s.ref.same(outs[k]); err != nil {
			return fmt.Errorf("rendering document %d at once with %v differs from rendering it alone: %w\n%s", i, c.Par, err, s.src)
		}
		if !reflect.DeepEqual(descs[k].Items, s.desc.Items) {
			return fmt.Errorf("describing document %d at once with others gives something else\n%s", i, s.src)
		}
		st.extra++
	}
	if err := untouched("by rendering others at once"); err != nil {
		return err
	}
	st.NonTrivialIf(drawn > 10)
	return nil
}

// the plain interface, as an application uses it
func plainRender(doc *xdoc.Document, reg *font.Registry, h *hyphenation.Hyphenator, wd string) ([]byte, error) {
	e, err := engine.NewFPDF(reg, doc)
	if err != nil {
		return nil, err
	}
	var buf bytes.Buffer
	err = xpdf.NewProcessor(e, h, doc, wd).Process(&buf)
	return buf.Bytes(), err
}

func init() {
	register(&Prop{ID: "C22", Rule: "random element trees with arbitrary (finite) style values, fonts, margins, spans, images of all kinds and mutations of their text; single unusable fonts and images in otherwise plain documents; the output is read by an independent PDF reader; non-trivial: more than 5 things are drawn, or an image or font of a stated kind is used",
		Subs: []*Sub{
			sub("wild", 8000, 400000, genWild, checkWild),
			sub("extremes", 2000, 100000, genExtreme, checkWild),
			sub("unusable", 3000, 100000, genUnusable, checkUnusable),
		}})
	register(&Prop{ID: "C23", Race: true, Rule: "2 or 3 random documents, each rendered alone in a process of its own, then in random order and all at once with a shared hyphenator under the race detector; non-trivial: more than 10 things are drawn",
		Subs: []*Sub{sub("isolation", 250, 12000, genIso, checkIso)}})
}
