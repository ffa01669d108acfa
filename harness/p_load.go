package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/xdoc"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------- C17

type loadCase struct {
	T      Tree
	Src    string
	Chunks []int `json:",omitempty"` // sizes of the reads, repeated
	EOF    bool  `json:",omitempty"` // the last read returns data together with EOF
	File   bool  `json:",omitempty"` // loaded from a file
}

func newTreeGen(t *rapid.T) *treeGen {
	g := newGen(t)
	g.p = &Profile{Aligns: anyAlign}
	g.u8 = true
	return &treeGen{gen: g, budget: 40}
}

func genLoad(t *rapid.T) *loadCase {
	g := newTreeGen(t)
	c := &loadCase{T: *genTree(g)}
	if g.pct(4) {
		c.T.amplify(g)
	}
	w := &xmlWriter{gen: g.gen, plain: g.pct(10), order: g.pct(25)}
	c.Src, _ = w.document(&c.T)
	if g.pct(60) {
		for i := g.n(1, 4); i > 0; i-- {
			c.Chunks = append(c.Chunks, pick(g.gen, 1, 1, 2, 3, 7, 64, 1000))
		}
		c.EOF = g.pct(50)
	}
	if c.File = g.pct(10); c.File && g.pct(20) { // more than a few buffers
		c.Src += "<!--" + strings.Repeat(" large", pick(g.gen, 1000, 11000, 30000)) + "-->"
	}
	return c
}

// chunkReader delivers its data in chunks of the given sizes.
type chunkReader struct {
	s    string
	cs   []int
	i    int
	eof  bool
	fail int // fails behind that many bytes, if >= 0
	n    int
	err  int
}

// injected failures, some of which are errors of the standard library
var failures = []error{errInjected, errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, io.ErrNoProgress, fs.ErrNotExist}

var errInjected = errors.New("injected failure")

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.fail >= 0 && r.n >= r.fail {
		return 0, failures[r.err%len(failures)]
	}
	if len(r.s) == 0 {
		return 0, io.EOF
	}
	k := len(p)
	if len(r.cs) > 0 {
		if c := r.cs[r.i%len(r.cs)]; c < k {
			k = c
		}
		r.i++
	}
	if k > len(r.s) {
		k = len(r.s)
	}
	if r.fail >= 0 && r.n+k > r.fail {
		k = r.fail - r.n
	}
	copy(p, r.s[:k])
	r.s = r.s[k:]
	r.n += k
	if r.fail >= 0 && r.n >= r.fail && r.eof {
		return k, failures[r.err%len(failures)]
	}
	if len(r.s) == 0 && r.eof {
		return k, io.EOF
	}
	return k, nil
}

func (t *Tree) size() (n, depth int) {
	var rec func(nd *Node, d int)
	rec = func(nd *Node, d int) {
		n++
		if d > depth {
			depth = d
		}
		for _, k := range nd.Kids {
			rec(k, d+1)
		}
	}
	for _, nd := range []*Node{t.Header, t.Footer, t.Body} {
		if nd != nil {
			rec(nd, 1)
		}
	}
	return
}

func checkLoad(c *loadCase, st *Stats) error {
	var doc *xdoc.Document
	var err error
	if c.File {
		dir, done := scratch()
		defer done()
		f := filepath.Join(dir, "doc.xml")
		if err := os.WriteFile(f, []byte(c.Src), 0o644); err != nil {
			harnessFail("%v", err)
		}
		doc, err = xdoc.LoadFromFile(f)
		st.Class("from a file")
	} else {
		doc, err = xdoc.Load(&chunkReader{s: c.Src, cs: c.Chunks, eof: c.EOF, fail: -1})
	}
	if err != nil {
		return fmt.Errorf("well-formed document is not loaded: %w\n%s", err, c.Src)
	}
	if err := sameLines(normOf(doc, c.T.Sheet), c.T.norm()); err != nil {
		return fmt.Errorf("%w\n%s", err, c.Src)
	}
	n, d := c.T.size()
	st.NonTrivialIf(n > 4 && d > 2)
	st.ClassIf(d > 4, "deeply nested")
	st.ClassIf(len(c.Chunks) > 0, "chunked")
	st.ClassIf(strings.Contains(c.Src, "<![CDATA["), "CDATA")
	return nil
}

// ------------------------------------------------------------- C18

type faultCase struct {
	Src  string
	What string
	Cut  int   `json:",omitempty"`
	End  int   `json:",omitempty"`
	Read []int `json:",omitempty"`
	Both bool  `json:",omitempty"`
	Err  int   `json:",omitempty"`
}

func loadStrict(r io.Reader) (*xdoc.Document, error) {
	doc, err := xdoc.Load(r)
	if err != nil && doc != nil {
		return nil, fmt.Errorf("a document is returned together with the error %v", err)
	}
	if err == nil && doc == nil {
		return nil, fmt.Errorf("neither document nor error")
	}
	return doc, nil
}

func genTruncated(t *rapid.T) *faultCase {
	g := newTreeGen(t)
	tr := genTree(g)
	w := &xmlWriter{gen: g.gen}
	c := &faultCase{}
	c.Src, c.End = w.document(tr)
	c.Cut = g.uniform(c.End)
	if g.pct(50) {
		if g.pct(10) { // behind the root element
			c.Cut = c.End + g.uniform(len(c.Src)-c.End+1)
		}
		c.What = "read failure"
		c.Read = []int{pick(g.gen, 1, 3, 64, 4096)}
		c.Both, c.Err = g.pct(30), g.uniform(len(failures))
	} else {
		c.What = "truncated"
	}
	return c
}

func checkTruncated(c *faultCase, st *Stats) error {
	st.NonTrivial()
	st.Class(c.What)
	if c.What == "truncated" && c.Cut%16 == 0 {
		dir, done := scratch()
		defer done()
		f := filepath.Join(dir, "doc.xml")
		if err := os.WriteFile(f, []byte(c.Src[:c.Cut]), 0o644); err != nil {
			harnessFail("%v", err)
		}
		if doc, err := xdoc.LoadFromFile(f); err == nil || doc != nil {
			return fmt.Errorf("file is loaded in spite of its truncation at byte %d (%v):\n%s", c.Cut, err, c.Src)
		}
		if doc, err := xdoc.LoadFromFile(dir); err == nil || doc != nil {
			return fmt.Errorf("directory is loaded as document (%v)", err)
		}
	}
	var r io.Reader = strings.NewReader(c.Src[:c.Cut])
	if c.What == "read failure" {
		r = &chunkReader{s: c.Src, cs: c.Read, eof: c.Both, fail: c.Cut, err: c.Err}
	}
	doc, err := xdoc.Load(r)
	if err == nil {
		return fmt.Errorf("document is loaded in spite of %s at byte %d:\n%s", c.What, c.Cut, c.Src)
	}
	if doc != nil {
		return fmt.Errorf("a document is returned together with the error %v", err)
	}
	return nil
}

// wellFormed: there is one root element, nothing else is around it but white space, comments
// and the like, and all of it can be read
func wellFormed(src string) error {
	d := xml.NewDecoder(strings.NewReader(src))
	depth, root := 0, false
	for {
		tok, err := d.Token()
		if err == io.EOF && root {
			return nil
		}
		if err != nil {
			return err
		}
		switch tok := tok.(type) {
		case xml.StartElement:
			if root && depth == 0 {
				return fmt.Errorf("second root element")
			}
			root = true
			depth++
		case xml.EndElement:
			depth--
		case xml.CharData:
			if depth == 0 && strings.Trim(string(tok), " \t\r\n\ufeff") != "" {
				return fmt.Errorf("text outside of the root element")
			}
		}
	}
}

func genMutated(t *rapid.T) *faultCase {
	g := newTreeGen(t)
	tr := genTree(g)
	w := &xmlWriter{gen: g.gen, plain: g.pct(50)}
	src, _ := w.document(tr)
	bs := []byte(src)
	for i := g.n(1, 3); i > 0; i-- {
		at := g.uniform(len(bs))
		if g.pct(8) {
			at = len(bs)
			bs = append(bs, pick(g.gen, "x", "</document>", "<document/>", "<p>a</p>", "<", "&", "<!--", "\n\n", "<!-- x -->", "]]>", "<?x?>")...)
			continue
		}
		switch g.n(0, 4) {
		case 0:
			bs = append(bs[:at:at], bs[at+1:]...)
		case 1:
			bs[at] = pick(g.gen, []byte("<>&\"'/=! ;x\x00\xff[]-")...)
		case 2:
			ins := pick(g.gen, "<", ">", "&", "</text>", "<box>", "<p/>", "x", "<p>", "</body>", "]]>", "<!--", "<![CDATA[", "&foo;", "<x", "\"", "<td>", "<document>", "&#0;", "&#xD800;", "\x80")
			bs = append(bs[:at:at], append([]byte(ins), bs[at:]...)...)
		case 3: // drop a tag
			if a := bytes.IndexByte(bs[at:], '<'); a >= 0 {
				if b := bytes.IndexByte(bs[at+a:], '>'); b >= 0 {
					bs = append(bs[:at+a:at+a], bs[at+a+b+1:]...)
				}
			}
		case 4: // duplicate a piece
			k := at + g.n(1, min(40, len(bs)-at))
			bs = append(bs[:k:k], append(append([]byte{}, bs[at:k]...), bs[k:]...)...)
		}
		if len(bs) == 0 {
			break
		}
	}
	return &faultCase{Src: string(bs), What: "mutated"}
}

func checkMutated(c *faultCase, st *Stats) error {
	doc, err := xdoc.Load(strings.NewReader(c.Src))
	if err != nil && doc != nil {
		return fmt.Errorf("a document is returned together with the error %v", err)
	}
	if e := wellFormed(c.Src); e != nil {
		st.NonTrivial()
		st.Class("not well-formed")
		if err == nil {
			return fmt.Errorf("document with the XML error %q is loaded:\n%s", e, c.Src)
		}
	} else {
		st.ClassIf(err == nil, "still accepted")
		st.ClassIf(err != nil, "rejected though well-formed")
	}
	return nil
}

// place is a container in a tree
type place struct {
	n     *Node
	depth int
}

func (t *Tree) places(els string) (out []place) {
	set := map[string]bool{}
	for _, e := range strings.Fields(els) {
		set[e] = true
	}
	var rec func(n *Node, d int)
	rec = func(n *Node, d int) {
		if set[n.El] {
			out = append(out, place{n, d})
		}
		for _, k := range n.Kids {
			rec(k, d+1)
		}
	}
	for _, n := range []*Node{t.Header, t.Footer, t.Body} {
		if n != nil {
			rec(n, 1)
		}
	}
	return
}

func genInvalid(t *rapid.T) *faultCase {
	g := newTreeGen(t)
	tr := genTree(g)
	if tr.Body == nil {
		tr.Body = &Node{El: "body"}
	}
	c := &faultCase{}
	anywhere := func(els string) *Node {
		ps := tr.places(els)
		// prefer deep places
		p := ps[g.n(0, len(ps)-1)]
		if q := ps[g.n(0, len(ps)-1)]; q.depth > p.depth {
			p = q
		}
		return p.n
	}
	insert := func(at *Node, n *Node) {
		i := g.n(0, len(at.Kids))
		at.Kids = append(at.Kids[:i:i], append([]*Node{n}, at.Kids[i:]...)...)
	}
	// wrap puts an element into something valid, which can stand in the place
	wrap := func(n *Node, into string) *Node {
		switch into {
		case "td":
			return &Node{El: "table", Kids: []*Node{{El: "tr", Kids: []*Node{{El: "td", Kids: []*Node{n}}}}}}
		case "text", "box":
			return &Node{El: into, Kids: []*Node{n}}
		case "part":
			return &Node{El: "grid", Kids: []*Node{{El: "rows", Kids: []*Node{{El: "gr", Text: "a"}}}, {El: "parts", Kids: []*Node{{El: "part", Attr: [][2]string{{"area", "a"}}, Kids: []*Node{n}}}}}}
		}
		return n
	}
	var bad *Node
	switch k := g.n(0, 6); k {
	case 0:
		name := pick(g.gen, "foo", "Text", "BOX", "para", "tr2", "instruction", "h1", "textblock", "a", "_", "br2", "TextBlock", "document", "body", "style", "rows", "parts")
		bad = &Node{El: name}
		if g.pct(50) {
			bad.Kids = []*Node{{El: "#text", Text: "x"}}
		}
		c.What = "unknown element " + name
		switch {
		case g.pct(15): // in a table or row
			tab := &Node{El: "table", Kids: []*Node{{El: "tr", Kids: []*Node{{El: "td"}}}}}
			if g.pct(50) {
				insert(tab, bad)
				c.What += " in table"
			} else {
				insert(tab.Kids[0], bad)
				c.What += " in row"
			}
			insert(anywhere("header footer body text box td part"), tab)
		default:
			into := pick(g.gen, "", "", "text", "box")
			n := wrap(bad, into)
			if into == "" {
				insert(anywhere("header footer body text box"), n)
			} else {
				insert(anywhere("header footer body text box td part"), n)
			}
		}
		bad = nil
	case 1:
		a, v := "lines", pick(g.gen, "abc", "1,5", "1.2.3", "10mm", "--1", "1 2", "0xg", "ten", "1e", "#")
		el := pick(g.gen, "lf", "setx", "sety")
		if el != "lf" {
			a = el[3:]
		}
		bad = &Node{El: el, Attr: [][2]string{{a, v}}}
		c.What = el + " " + v
	case 2:
		v := pick(g.gen, "x", "-1", "11", "1.5", "", "1 ", "99999999999999999999", "two")
		bad = &Node{El: "table", Attr: [][2]string{{"repeatheader", v}}}
		if g.pct(50) {
			bad.Kids = []*Node{{El: "tr", Kids: []*Node{{El: "td"}}}}
		}
		c.What = "repeatheader " + v
	case 3:
		a, v := pick(g.gen, "colspan", "rowspan"), pick(g.gen, "x", "1.5", "", "1 ", "99999999999999999999", "two", "1x")
		row := &Node{El: "tr", Kids: []*Node{{El: "td"}, {El: "td"}}}
		td := row.Kids[g.n(0, 1)]
		if g.pct(50) { // beside the other one, which is valid
			other := map[string]string{"colspan": "rowspan", "rowspan": "colspan"}[a]
			td.Attr = append(td.Attr, [2]string{other, fmt.Sprint(g.n(1, 3))})
		}
		td.Attr = append(td.Attr, [2]string{a, v})
		bad = &Node{El: "table", Kids: []*Node{row}}
		c.What = a + " " + v
	case 4:
		d, what := g.badDecl()
		el := pick(g.gen, "font", "text", "box", "p", "image", "table", "tr", "td", "grid", "gr", "part")
		st := [2]string{"style", d}
		if g.pct(30) {
			st[1] = "width: 3; " + d + "; h-align: left"
		}
		n := &Node{El: el, Attr: [][2]string{st}}
		c.What = "style of " + el + ": " + what + " " + d
		switch el {
		case "tr":
			n = &Node{El: "table", Kids: []*Node{n}}
		case "td":
			n = &Node{El: "table", Kids: []*Node{{El: "tr", Kids: []*Node{n}}}}
		case "gr":
			n.Text = "a"
			n = &Node{El: "grid", Kids: []*Node{{El: "rows", Kids: []*Node{n}}}}
		case "grid":
			n.Kids = []*Node{{El: "rows", Kids: []*Node{{El: "gr", Text: "a"}}}}
		case "part":
			n.Attr = append(n.Attr, [2]string{"area", "a"})
			n = &Node{El: "grid", Kids: []*Node{{El: "rows", Kids: []*Node{{El: "gr", Text: "a"}}}, {El: "parts", Kids: []*Node{n}}}}
		}
		bad = n
	case 5:
		i := g.n(0, 3)
		tr.Margins[i] = pick(g.gen, "abc", "10mm", "1,5", "--1", "1 2")
		c.What = "margin " + tr.Margins[i]
	case 6:
		d, what := g.badDecl()
		c.What = "style class: " + what + " " + d
		w := &xmlWriter{gen: g.gen, plain: true}
		src, _ := w.document(tr)
		sheet := "<style>" + esc("zz { "+d+" }") + "</style>"
		if strings.Contains(src, "</style>") {
			src = strings.Replace(src, "</style>", esc(" zz { "+d+" }")+"</style>", 1)
		} else {
			src = strings.Replace(src, "</document>", sheet+"</document>", 1)
		}
		c.Src = src
		return c
	}
	if bad != nil {
		insert(anywhere("header footer body text box td part"), wrap(bad, pick(g.gen, "", "", "text", "box", "td", "part")))
	}
	w := &xmlWriter{gen: g.gen, plain: g.pct(50)}
	c.Src, _ = w.document(tr)
	return c
}

func checkInvalid(c *faultCase, st *Stats) error {
	if err := wellFormed(c.Src); err != nil {
		harnessFail("invalid case is not well-formed: %v\n%s", err, c.Src)
	}
	st.NonTrivial()
	st.Class(strings.Fields(c.What)[0])
	doc, err := xdoc.Load(strings.NewReader(c.Src))
	if err == nil {
		return fmt.Errorf("document with %s is loaded:\n%s", c.What, c.Src)
	}
	if doc != nil {
		return fmt.Errorf("a document is returned together with the error %v", err)
	}
	return nil
}

type writeCase struct {
	D     Doc
	At    int // permille of the output
	Short bool
	Once  bool // only that write fails
}

type faultWriter struct {
	at    int
	n     int
	short bool
	once  bool
	hit   bool
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.hit && w.once {
		w.n += len(p)
		return len(p), nil
	}
	if w.n+len(p) <= w.at {
		w.n += len(p)
		return len(p), nil
	}
	w.hit = true
	k := w.at - w.n
	if k < 0 {
		k = 0
	}
	w.n += k
	if w.short {
		return k, nil
	}
	return k, errInjected
}

func genWrite(t *rapid.T) *writeCase {
	p := mixedProfile.with(func(p *Profile) { p.Elems = [2]int{0, 4}; p.UTF8Pct = 5 })
	d := p.doc(t)
	g := newGen(t)
	return &writeCase{D: *d, At: g.n(0, 1000), Short: g.pct(30), Once: g.pct(30)}
}

func checkWrite(c *writeCase, st *Stats) error {
	o := renderOpts{fonts: c.D.fonts()}
	if c.D.Imgs != nil {
		dir, done := scratch()
		defer done()
		o.wd = c.D.materialize(dir)
	}
	run, err := renderXML(c.D.XML(), o)
	if err != nil {
		return err
	}
	w := &faultWriter{at: c.At * (len(run.PDF) - 1) / 1000, short: c.Short, once: c.Once}
	doc, err := xdoc.Load(strings.NewReader(c.D.XML()))
	if err != nil {
		return err
	}
	o.fonts, o.w = c.D.fonts(), w
	r2, err := render(doc, o)
	if err != nil {
		return err
	}
	if !w.hit {
		st.Class("not hit")
		return nil
	}
	st.NonTrivial()
	st.ClassIf(w.at == 0, "at the start")
	st.ClassIf(c.Short, "short write")
	if r2.Err == nil {
		return fmt.Errorf("processing succeeds though writing fails at byte %d (short=%v)\n%s", w.at, c.Short, c.D.XML())
	}
	return nil
}

type patternCase struct {
	Patterns string
	Cut      int
	Read     []int
	Long     bool
	Both     bool
	Err      int
}

func genPatterns(t *rapid.T) *patternCase {
	g := newGen(t)
	c := &patternCase{Read: []int{pick(g, 1, 5, 64, 4096)}, Both: g.pct(30), Err: g.n(0, len(failures)-1)}
	var sb strings.Builder
	for i := g.n(0, 20); i > 0; i-- {
		sb.WriteString(pick(g, ".ab1c", "a2b", "1c", "b3a.", "é1a", "", "% comment", "x5y6z") + pick(g, "\n", "\r\n"))
	}
	if g.pct(15) {
		// no line of a pattern list is that long
		c.Long = true
		sb.WriteString(strings.Repeat("ab1", 30000))
	}
	c.Patterns = sb.String()
	c.Cut = g.n(0, len(c.Patterns))
	return c
}

// checkPatterns: read failures of pattern lists are reported; one which was read completely is accepted.
func checkPatterns(c *patternCase, st *Stats) error {
	h, err := hyphenation.Load(&chunkReader{s: c.Patterns, cs: c.Read, eof: c.Both, fail: c.Cut, err: c.Err})
	st.NonTrivial()
	if err == nil {
		return fmt.Errorf("patterns are loaded in spite of a read failure at byte %d of %q", c.Cut, clip(c.Patterns, 300))
	}
	if h != nil {
		return fmt.Errorf("a hyphenator is returned together with the error %v", err)
	}
	h, err = hyphenation.Load(&chunkReader{s: c.Patterns, cs: c.Read, eof: c.Both, fail: -1})
	if (err == nil) != (h != nil) {
		return fmt.Errorf("hyphenator %v and error %v", h != nil, err)
	}
	if err != nil && !c.Long {
		return fmt.Errorf("patterns are rejected: %w", err)
	}
	return nil
}

// ------------------------------------------------------------- C19

type xDiff struct {
	Path string
	Org  *string
	Mod  *string
}

type xItem struct {
	Name       string
	Value      *string
	StyleDiffs []xDiff
	Items      []xItem
}

type xDesc struct {
	XMLName xml.Name
	Items   []xItem
}

// dItem is the reference description
type dItem struct {
	name  string
	value string
	sty   map[string]string
	items []dItem
}

// styPaths of the attributes which differ from zero
func styPaths(s RSty) map[string]string {
	m := map[string]string{}
	put := func(path string, v any, zero bool) {
		if !zero {
			m["styles:"+path] = fmt.Sprint(v)
		}
	}
	str := func(path, v string) { put(path, v, v == "") }
	num := func(path string, v float64) { put(path, v, v == 0) }
	str("Family", s.Font.Family)
	num("PointSize", s.Font.Size)
	str("Style", s.Font.Style)
	str("Weight", s.Font.Weight)
	str("Decoration", s.Font.Deco)
	for i, side := range []string{"Left", "Top", "Right", "Bottom"} {
		num("Border:"+side, float64(s.Border[i]))
		num("Padding:"+side, s.Pad[i])
		num("Margin:"+side, s.Margin[i])
	}
	num("Width", s.Width)
	num("Height", s.Height)
	num("LineSpacing", s.LS)
	num("OffsetX", s.OffX)
	num("OffsetY", s.OffY)
	num("ColumnWidth", s.ColW)
	str("HAlign", s.HAlign)
	str("VAlign", s.VAlign)
	for i, ch := range []string{"R", "G", "B"} {
		num("Foreground:"+ch, float64(s.Fg[i]))
		num("Text:"+ch, float64(s.Text[i]))
		num("Background:"+ch, float64(s.Bg[i]))
	}
	num("LineWidth", s.LW)
	return m
}

type descRef struct {
	doc *Doc
}

func (r *descRef) node(n *Node) []dItem {
	sty := func() map[string]string { return styPaths(r.doc.resolve(RSty{}, n, "")) }
	words := func(s string) string { return strings.Join(strings.Fields(s), " ") }
	switch n.El {
	case "p":
		return []dItem{{"paragraph", words(n.Text), sty(), nil}}
	case "image":
		return []dItem{{"image", n.Text, sty(), nil}}
	case "lf":
		return []dItem{{"line-feed", fmt.Sprint(n.attrF("lines")), nil, nil}}
	case "setx":
		return []dItem{{"setx", fmt.Sprint(n.attrF("x")), nil, nil}}
	case "sety":
		return []dItem{{"sety", fmt.Sprint(n.attrF("y")), nil, nil}}
	case "br":
		return []dItem{{"line-break", "", nil, nil}}
	case "newpage":
		return []dItem{{"page-break", "", nil, nil}}
	case "font":
		return []dItem{{"font", "", sty(), nil}}
	case "text", "box", "table":
		return []dItem{{n.El, "", sty(), r.kids(n.Kids)}}
	case "tr":
		return []dItem{{"table-row", "", sty(), r.kids(n.Kids)}}
	case "td":
		return []dItem{{fmt.Sprintf("table-cell colspan=%d rowspan=%d", n.attrI("colspan", 0), n.attrI("rowspan", 0)), "", sty(), r.kids(n.Kids)}}
	case "grid":
		it := dItem{"grid", "", sty(), nil}
		for _, k := range n.Kids {
			for _, kk := range k.Kids {
				s := styPaths(r.doc.resolve(RSty{}, kk, ""))
				if kk.El == "gr" {
					it.items = append(it.items, dItem{"grid-row", words(kk.Text), s, nil})
				} else {
					a, _ := kk.attr("area")
					it.items = append(it.items, dItem{"grid-part", a, s, r.kids(kk.Kids)})
				}
			}
		}
		return []dItem{it}
	}
	harnessFail("describe: element %q", n.El)
	return nil
}

func (r *descRef) kids(ns []*Node) (out []dItem) {
	text := ""
	flush := func() {
		if w := strings.Join(strings.Fields(text), " "); w != "" {
			out = append(out, dItem{"text-block", w, nil, nil})
		}
		text = ""
	}
	for _, n := range ns {
		if n.El == "#text" {
			text += n.Text
			continue
		}
		flush()
		out = append(out, r.node(n)...)
	}
	flush()
	return
}

func (t *Tree) description() []dItem {
	r := &descRef{doc: &Doc{Classes: t.Sheet}}
	leaf := func(n, v string) dItem { return dItem{n, v, nil, nil} }
	m := [4]string{}
	for i, s := range t.Margins {
		m[i] = "0"
		if s != "" {
			m[i] = fmt.Sprint(mustF(s))
		}
	}
	out := []dItem{
		{"meta", "", nil, []dItem{leaf("author", t.Meta[0]), leaf("creator", t.Meta[1]), leaf("subject", t.Meta[2])}},
		{"page", "", nil, []dItem{leaf("orientation", t.Orient), leaf("format", t.Format), {"margins", "", nil,
			[]dItem{leaf("left", m[0]), leaf("top", m[1]), leaf("right", m[2]), leaf("bottom", m[3])}}}},
	}
	for i, n := range []*Node{t.Header, t.Footer, t.Body} {
		it := dItem{name: []string{"header", "footer", "body"}[i]}
		if n != nil {
			it.items = r.kids(n.Kids)
		}
		out = append(out, it)
	}
	return out
}

// compareItems: have is a description or one read from a dump, converted.
func compareItems(path string, have []xItem, want []dItem) error {
	// empty text blocks do not matter
	var hs []xItem
	for _, h := range have {
		if h.Name == "text-block" && (h.Value == nil || *h.Value == "") {
			continue
		}
		hs = append(hs, h)
	}
	for i, w := range want {
		p := fmt.Sprintf("%s/%s[%d]", path, w.name, i)
		if i >= len(hs) {
			return fmt.Errorf("%s is missing", p)
		}
		h := hs[i]
		v := ""
		if h.Value != nil {
			v = *h.Value
		}
		if h.Name != w.name || v != w.value {
			return fmt.Errorf("%s with value %q is described as %s with value %q", p, w.value, h.Name, v)
		}
		seen := map[string]bool{}
		for _, d := range h.StyleDiffs {
			mod := "nothing"
			if d.Mod != nil {
				mod = *d.Mod
			}
			want, ok := w.sty[d.Path]
			if !ok || want != mod || seen[d.Path] {
				return fmt.Errorf("%s: style difference %s = %s, expected are %v", p, d.Path, mod, w.sty)
			}
			if d.Org != nil && *d.Org != "" && *d.Org != "0" {
				return fmt.Errorf("%s: style difference %s starts at %s", p, d.Path, *d.Org)
			}
			seen[d.Path] = true
		}
		if len(seen) != len(w.sty) {
			return fmt.Errorf("%s: style differences %v instead of %v", p, h.StyleDiffs, w.sty)
		}
		if err := compareItems(p, h.Items, w.items); err != nil {
			return err
		}
	}
	if len(hs) > len(want) {
		return fmt.Errorf("%s: %s is described additionally", path, hs[len(want)].Name)
	}
	return nil
}

func strOf(v any) *string {
	if v == nil {
		return nil
	}
	s := fmt.Sprint(v)
	return &s
}

func convItems(is []xdoc.DescribeItem) (out []xItem) {
	for _, i := range is {
		x := xItem{Name: i.Name, Value: strOf(i.Value), Items: convItems(i.Items)}
		for _, d := range i.StyleDiffs {
			x.StyleDiffs = append(x.StyleDiffs, xDiff{d.Path, strOf(d.Org), strOf(d.Mod)})
		}
		out = append(out, x)
	}
	return
}

func genDescribe(t *rapid.T) *loadCase {
	g := newTreeGen(t)
	c := &loadCase{T: *genTree(g)}
	if g.pct(4) {
		c.T.amplify(g)
	}
	w := &xmlWriter{gen: g.gen, plain: true}
	c.Src, _ = w.document(&c.T)
	return c
}

func checkDescribe(c *loadCase, st *Stats) error {
	doc, err := xdoc.Load(strings.NewReader(c.Src))
	if err != nil {
		return fmt.Errorf("well-formed document is not loaded: %w\n%s", err, c.Src)
	}
	want := c.T.description()
	desc := xdoc.Describe(doc)
	if err := compareItems("", convItems(desc.Items), want); err != nil {
		return fmt.Errorf("%w\n%s", err, c.Src)
	}
	dx, dj := desc.Dump(xdoc.DescribeXML), desc.Dump(xdoc.DescribeJSON)
	for i := 0; i < 4; i++ {
		again := xdoc.Describe(doc)
		if !reflect.DeepEqual(again.Items, desc.Items) {
			return fmt.Errorf("describing again gives something else\n%s", c.Src)
		}
		if again.Dump(xdoc.DescribeXML) != dx || again.Dump(xdoc.DescribeJSON) != dj {
			return fmt.Errorf("dumping again gives something else\n%s", c.Src)
		}
	}
	// the dumps are well-formed and contain all of it
	var x xDesc
	dec := xml.NewDecoder(strings.NewReader(dx))
	if err := dec.Decode(&x); err != nil {
		return fmt.Errorf("XML dump is not well-formed: %w\n%s", err, dx)
	}
	if _, err := dec.Token(); err != io.EOF {
		return fmt.Errorf("XML dump has more than one root element\n%s", dx)
	}
	if err := compareItems("", x.Items, want); err != nil {
		return fmt.Errorf("XML dump: %w\n%s\n%s", err, dx, c.Src)
	}
	var j struct{ Items []xdoc.DescribeItem }
	if err := json.Unmarshal([]byte(dj), &j); err != nil {
		return fmt.Errorf("JSON dump is not well-formed: %w\n%s", err, dj)
	}
	if err := compareItems("", convItems(j.Items), want); err != nil {
		return fmt.Errorf("JSON dump: %w\n%s\n%s", err, dj, c.Src)
	}
	n, d := c.T.size()
	st.NonTrivialIf(n > 4 && d > 2)
	st.ClassIf(d > 4, "deeply nested")
	return nil
}

func init() {
	register(&Prop{ID: "C17", Rule: "random element trees written as XML in random spelling (entities, CDATA, comments, quoting, attribute and element order, self-closing tags) and read in random chunks, compared with the tree; non-trivial: more than 4 elements nested more than 2 deep",
		Subs: []*Sub{sub("load", 12000, 500000, genLoad, checkLoad)}})
	register(&Prop{ID: "C18", Rule: "random documents cut or failing to be read at a random byte, mutated at random bytes (an XML tokenizer tells whether they are still well-formed), or with one unknown element, wrong attribute or style inserted at any depth; output and pattern lists failing at a random byte; non-trivial: the input is faulty",
		Subs: []*Sub{
			sub("truncated", 12000, 500000, genTruncated, checkTruncated),
			sub("mutated", 8000, 400000, genMutated, checkMutated),
			sub("invalid", 12000, 600000, genInvalid, checkInvalid),
			sub("write", 1200, 50000, genWrite, checkWrite),
			sub("patterns", 6000, 300000, genPatterns, checkPatterns),
		}})
	register(&Prop{ID: "C19", Rule: "random element trees with style classes, described and compared with a description derived from the tree, directly and read back from the XML and JSON dumps; non-trivial: more than 4 elements nested more than 2 deep",
		Subs: []*Sub{sub("describe", 8000, 400000, genDescribe, checkDescribe)}})
}
