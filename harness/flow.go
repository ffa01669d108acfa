package main

import (
	"fmt"
	"math"
	"strings"
)

const eps = 1e-4

// Viol is a deviation from the reference, tagged with the aspects it concerns (separated by |).
type Viol struct {
	Tag string
	Msg string
}

// Frag is a printed word or part of it.
type Frag struct {
	Item     int
	From, To int // runes of the word
	Hyph     bool
	X, X1    float64
	Font     Font
	Col      RGB
	S        string
}

// Line is a printed line of a text container.
type Line struct {
	Page  int
	Y     float64
	Frags []Frag
}

func (l Line) String() string {
	var ss []string
	for _, f := range l.Frags {
		h := ""
		if f.Hyph {
			h = "-"
		}
		ss = append(ss, f.S+h)
	}
	return fmt.Sprintf("p%d y=%.3f %q", l.Page, l.Y, strings.Join(ss, " "))
}

// Flow walks the body of a document along its drawing calls.
type Flow struct {
	d    *Doc
	g    Geo
	base RSty // default style with the latest font instruction
	page int
	x, y float64

	texts []Ev // text events with visible characters
	tp    int
	fills []Ev
	segs  [][]Ev // border segments drawn after each fill
	fp    int
	imgs  []Ev
	ip    int

	noBreak  bool // header and footer
	viols    []Viol
	fontAt   map[int]RSty // base style when a page was started
	st       *Stats
	hyphens  int
	lines    int
	multi    int // lines broken by width
	breaks   int // page breaks seen
	skipped  int
	aborted  bool
	hyph     func(string) []string // legal parts, nil: the reference for English
	blockMix bool
	wd       string
	cp       string

	ends []float64 // where frames and lines of the first page end

	prev    string // the last element that moved the cursor by being drawn, empty behind instructions
	prevSty RSty

	boxes, boxbreaks, spans, vspace, instrs int

	tables, tbreaks, repeated, innerBoxes, tight, noImage, scaled, images int
}

// items of a container, with the placeholder of the page replaced
func (f *Flow) items(n *Node, sty *RSty) []Item {
	its := f.d.items(n, sty)
	if f.cp != "" {
		for i := range its {
			its[i].W = strings.ReplaceAll(its[i].W, "{cp}", f.cp)
		}
	}
	return its
}

func (f *Flow) bad(tag, format string, args ...any) {
	if len(f.viols) < 50 {
		f.viols = append(f.viols, Viol{tag, fmt.Sprintf(format, args...)})
	}
}

func visible(s string) bool {
	return strings.TrimFunc(s, isBlank) != ""
}

func newFlow(d *Doc, evs []Ev) *Flow {
	g := d.geo()
	f := &Flow{d: d, g: g, base: defaultSty(), page: 1, x: g.L, y: g.T, fontAt: map[int]RSty{}}
	f.fontAt[1] = f.base
	for _, e := range evs {
		switch e.K {
		case 't':
			if visible(e.S) {
				f.texts = append(f.texts, e)
			}
		case 'f':
			f.fills = append(f.fills, e)
			f.segs = append(f.segs, nil)
		case 'l':
			if n := len(f.segs); n > 0 {
				f.segs[n-1] = append(f.segs[n-1], e)
			} else {
				f.bad("boxframe", "line drawn without a box: %v", e)
			}
		case 'i':
			f.imgs = append(f.imgs, e)
		}
	}
	return f
}

func (f *Flow) setPage(p int) {
	for q := f.page + 1; q <= p; q++ {
		f.fontAt[q] = f.base
	}
	if p > f.page {
		f.breaks += p - f.page
	}
	f.page = p
}

func near(a, b float64) bool { return math.Abs(a-b) <= eps }

// continues tells if the printed text s starts with w, or with a first part of it followed by a hyphen
func continues(s string, w []rune) bool {
	s = strings.TrimLeftFunc(s, isBlank)
	if i := strings.IndexFunc(s, isBlank); i >= 0 {
		s = s[:i]
	}
	return s != "" && (strings.HasPrefix(string(w), s) || strings.HasPrefix(string(w), strings.TrimSuffix(s, "-")))
}

// consume matches the words with the next text events.
func (f *Flow) consume(items []Item, name string, hyphOK bool) (lines []Line, ok bool) {
	tp := f.tp
	var rs []rune // of current event
	ri := 0
	open := false
	var cur *Ev
	next := func() bool {
		if tp >= len(f.texts) {
			return false
		}
		cur = &f.texts[tp]
		tp++
		rs = []rune(cur.S)
		ri = 0
		open = true
		return true
	}
	skip := func() {
		for open && ri < len(rs) && isBlank(rs[ri]) {
			ri++
		}
		if open && ri >= len(rs) {
			open = false
		}
	}
	add := func(fr Frag) {
		n := len(lines)
		if n == 0 || lines[n-1].Page != cur.Page || math.Abs(lines[n-1].Y-cur.Y) > 1e-6 {
			lines = append(lines, Line{Page: cur.Page, Y: cur.Y})
			n++
		}
		lines[n-1].Frags = append(lines[n-1].Frags, fr)
	}
	for i, it := range items {
		if it.Brk {
			continue
		}
		w := []rune(it.W)
		wi := 0
		for wi < len(w) {
			skip()
			if !open {
				if !next() {
					f.bad("content", "%s: word %q is not printed", name, it.W)
					return lines, false
				}
				skip()
			}
			start, from := ri, wi
			hy := false
			for wi < len(w) && ri < len(rs) && rs[ri] == w[wi] {
				if rs[ri] == '-' && hyphOK && wi > from && len(w)-wi > 1 && !visible(string(rs[ri+1:])) && tp < len(f.texts) && continues(f.texts[tp].S, w[wi:]) {
					hy = true // a hyphen has been put before that of the word itself
					break
				}
				wi++
				ri++
			}
			if !hy && wi < len(w) && ri < len(rs) && !isBlank(rs[ri]) {
				if rs[ri] == '-' && w[wi] != '-' && hyphOK && wi > from && !visible(string(rs[ri+1:])) {
					hy = true
				} else {
					f.bad("content", "%s: printed %q (page %d, %.2f, %.2f) where word %q (from letter %d) is due", name, string(rs[start:]), cur.Page, cur.X, cur.Y, it.W, wi)
					return lines, false
				}
			}
			end := ri
			if hy {
				ri++
				end = ri
			}
			x := cur.X + cur.Font.width(string(rs[:start]))
			add(Frag{Item: i, From: from, To: wi, Hyph: hy, X: x, X1: x + cur.Font.width(string(rs[start:end])), Font: cur.Font, Col: cur.Col, S: string(w[from:wi])})
		}
		// word must end here
		if open && ri < len(rs) && !isBlank(rs[ri]) {
			f.bad("content", "%s: printed %q behind word %q", name, string(rs[ri:]), it.W)
			return lines, false
		}
	}
	skip()
	if open {
		f.bad("content", "%s: printed %q behind its last word", name, string(rs[ri:]))
		return lines, false
	}
	f.tp = tp
	return lines, true
}

// Cont describes a text container for checking its lines.
type Cont struct {
	Name   string
	Items  []Item
	Sty    RSty
	Left   float64
	Width  float64
	Y      float64 // expected top of the first line
	Page   int
	YTag   string // tag of a wrong first line
	Inside bool   // must not leave the page (box, cell)
	Cell   bool
}

// segments splits the items at forced breaks; each segment is a list of item indexes.
func segments(items []Item) [][]int {
	segs := [][]int{{}}
	for i, it := range items {
		if it.Brk {
			segs = append(segs, []int{})
		} else {
			segs[len(segs)-1] = append(segs[len(segs)-1], i)
		}
	}
	return segs
}

// vline is a line of the container incl. blank ones
type vline struct {
	line   *Line
	height float64
	last   bool // last of its segment
}

// layout verifies the horizontal aspects of the lines of a container. It returns the lines incl. blank ones.
func (f *Flow) layout(c *Cont, lines []Line) []vline {
	f.lines += len(lines)
	segs := segments(c.Items)
	segOf := map[int]int{}
	for s, is := range segs {
		for _, i := range is {
			segOf[i] = s
		}
	}
	// lines to segments
	linesOf := make([][]*Line, len(segs))
	for li := range lines {
		l := &lines[li]
		s := segOf[l.Frags[0].Item]
		for _, fr := range l.Frags {
			if segOf[fr.Item] != s {
				f.bad("lines", "%s: line %v continues behind a forced break", c.Name, l)
				return nil
			}
		}
		linesOf[s] = append(linesOf[s], l)
	}
	var vls []vline
	for s := range segs {
		if len(linesOf[s]) == 0 {
			if s < len(segs)-1 {
				vls = append(vls, vline{nil, c.Sty.Font.height(), true})
			}
			continue
		}
		for k, l := range linesOf[s] {
			h := 0.0
			for _, fr := range l.Frags {
				h = math.Max(h, c.Items[fr.Item].Sty.Font.height())
			}
			vls = append(vls, vline{l, h, k == len(linesOf[s])-1})
		}
		f.checkSegment(c, linesOf[s])
	}
	return vls
}

func (f *Flow) checkLines(c *Cont, lines []Line) []vline {
	vls := f.layout(c, lines)
	f.checkPitch(c, vls)
	return vls
}

func (f *Flow) parts(w string) []string {
	if f.hyph != nil {
		return f.hyph(w)
	}
	return refEnUs().parts(w)
}

func (l *Line) blank() float64 {
	b := 0.0
	for _, fr := range l.Frags {
		b = math.Max(b, fr.Font.blank())
	}
	return b
}

func (l *Line) minBlank() float64 {
	b := math.Inf(1)
	for _, fr := range l.Frags {
		b = math.Min(b, fr.Font.blank())
	}
	return b
}

// natural width of a line with single blanks, and of its frags only
func (l *Line) natural() float64 {
	w := 0.0
	for i, fr := range l.Frags {
		if i > 0 && !(fr.From > 0 && l.Frags[i-1].Item == fr.Item) {
			w += fr.Font.blank()
		}
		w += fr.X1 - fr.X
	}
	return w
}

func (f *Flow) checkSegment(c *Cont, lines []*Line) {
	block := c.Sty.HAlign == "block"
	right := c.Left + c.Width
	for li, l := range lines {
		lastLine := li == len(lines)-1
		blank := l.blank()
		// style and word separation
		for i, fr := range l.Frags {
			want := c.Items[fr.Item].Sty
			if fr.Font != want.Font {
				f.bad("sty", "%s: %q is printed in %v instead of %v", c.Name, fr.S, fr.Font, want.Font)
			}
			if fr.Col != want.Text {
				f.bad("sty", "%s: %q is printed in color %v instead of %v", c.Name, fr.S, fr.Col, want.Text)
			}
			if i > 0 {
				p := l.Frags[i-1]
				gap := fr.X - p.X1
				if p.Item == fr.Item {
					if gap > 0.2*blank {
						f.bad("content", "%s: word %q is torn on line %v", c.Name, c.Items[fr.Item].W, l)
					}
				} else if gap < 0.4*fr.Font.blank() && gap < 0.4*p.Font.blank() && (!block || gap < 0.4*l.minBlank()) {
					f.bad("content", "%s: words %q and %q are not separated (gap %.3f) on line %v", c.Name, p.S, fr.S, gap, l)
				}
			}
			if fr.Hyph && (i != len(l.Frags)-1 || lastLine) {
				f.bad("hyph", "%s: hyphen within line %v", c.Name, l)
			}
			if fr.Hyph {
				f.hyphens++
				f.checkHyphen(c, fr)
			} else if fr.To < len([]rune(c.Items[fr.Item].W)) && (i == len(l.Frags)-1) {
				f.bad("hyph", "%s: word %q is divided after %q without hyphen", c.Name, c.Items[fr.Item].W, fr.S)
			}
		}
		first, last := l.Frags[0], l.Frags[len(l.Frags)-1]
		oneWord := first.Item == last.Item
		nat := l.natural()
		// width
		if !oneWord && nat > c.Width+eps {
			f.bad("lines", "%s: line %v is %.3f wide, but has only %.3f", c.Name, l, nat, c.Width)
		}
		if !oneWord && l.Frags[len(l.Frags)-1].X1 > right+eps {
			t := "lines"
			if c.Inside && !c.Cell {
				t += "|boxframe"
			}
			f.bad(t, "%s: line %v ends at %.3f behind its right edge %.3f", c.Name, l, last.X1, right)
		}
		if !lastLine {
			f.multi++
			f.checkGreedy(c, l, lines[li+1])
		}
		// alignment
		switch {
		case block || c.Sty.HAlign == "left":
			if !near(first.X, c.Left) {
				t := "halign"
				switch {
				case l.Page > c.Page:
					t += "|pitch" // texts continue at the same left position
				case !c.Inside:
					t += "|cursor"
				case !c.Cell:
					t += "|boxframe"
				}
				f.bad(t, "%s: line %v starts at %.3f instead of %.3f", c.Name, l, first.X, c.Left)
			}
		case c.Sty.HAlign == "right":
			if gap := right - last.X1; gap < -eps || gap > blank+eps {
				f.bad("halign", "%s: right-aligned line %v ends at %.3f, edge is %.3f", c.Name, l, last.X1, right)
			}
		case c.Sty.HAlign == "center":
			gl, gr := first.X-c.Left, right-last.X1
			if math.Abs(gl-gr) > blank+eps {
				f.bad("halign", "%s: centered line %v leaves %.3f and %.3f", c.Name, l, gl, gr)
			}
		}
		// gaps
		justified := block && !lastLine && len(l.Frags) > 1
		if justified {
			if gap := right - last.X1; gap < -eps || gap > 0.2+eps {
				f.bad("halign", "%s: full justified line %v ends at %.3f, edge is %.3f", c.Name, l, last.X1, right)
			}
			var gmin, gmax = math.Inf(1), math.Inf(-1)
			for i := 1; i < len(l.Frags); i++ {
				g := l.Frags[i].X - l.Frags[i-1].X1
				gmin, gmax = math.Min(gmin, g), math.Max(gmax, g)
			}
			if gmax-gmin > 0.01 {
				f.bad("halign", "%s: gaps of justified line %v vary from %.3f to %.3f", c.Name, l, gmin, gmax)
			}
		} else {
			for i := 1; i < len(l.Frags); i++ {
				a, b := l.Frags[i-1], l.Frags[i]
				if a.Item == b.Item {
					continue
				}
				g := b.X - a.X1
				bl := b.Font.blank()
				if math.Abs(g-bl) > eps && math.Abs(g-a.Font.blank()) > eps {
					f.bad("halign", "%s: gap of %.3f instead of one blank (%.3f) before %q on line %v", c.Name, g, bl, b.S, l)
				}
			}
		}
	}
}

func (f *Flow) checkHyphen(c *Cont, fr Frag) {
	w := c.Items[fr.Item].W
	if c.Sty.HAlign != "block" {
		f.bad("hyph", "%s: word %q is divided though the text is not justified", c.Name, w)
		return
	}
	n := 0
	for _, p := range f.parts(w) {
		n += len([]rune(p))
		if n == fr.To {
			return
		}
	}
	f.bad("hyph", "%s: word %q is divided behind letter %d, legal parts are %q", c.Name, w, fr.To, f.parts(w))
}

// checkGreedy: the word the next line starts with must not fit behind line l.
func (f *Flow) checkGreedy(c *Cont, l, nextLine *Line) {
	nf := nextLine.Frags[0]
	w := []rune(c.Items[nf.Item].W)
	fnt := c.Items[nf.Item].Sty.Font
	tol := math.Max(l.blank(), fnt.blank())
	last := l.Frags[len(l.Frags)-1]
	nat := l.natural()
	fits := func(s string) float64 { // free space left if s is put behind the line
		if last.Item == nf.Item { // the divided word itself, replace its fragment
			return c.Width - (nat - (last.X1 - last.X) + fnt.width(s))
		}
		return c.Width - (nat + fnt.blank() + fnt.width(s))
	}
	if last.Item == nf.Item && !last.Hyph {
		return // torn, reported elsewhere
	}
	from := 0
	if last.Item == nf.Item {
		from = last.From
	}
	if room := fits(string(w[from:])); room > tol+eps {
		f.bad("lines", "%s: line %v is broken before %q (or within) though %.3f is left behind it", c.Name, l, string(w[from:]), room)
		return
	}
	if c.Sty.HAlign != "block" {
		return
	}
	// permitted fragments
	n := 0
	ps := f.parts(string(w))
	for i, p := range ps {
		n += len([]rune(p))
		if i == len(ps)-1 || n <= nf.From || from > 0 {
			continue
		}
		if room := fits(string(w[from:n]) + "-"); room > tol+eps {
			f.bad("lines", "%s: line %v is broken although fragment %q would leave %.3f", c.Name, l, string(w[from:n])+"-", room)
			return
		}
	}
}

func (f *Flow) checkPitch(c *Cont, vls []vline) {
	page, y := c.Page, c.Y
	tag := c.YTag
	if tag == "" {
		tag = "pitch"
	}
	limit := f.g.Y1
	for _, v := range vls {
		if v.line == nil {
			y += v.height * c.Sty.LS
			continue
		}
		l := v.line
		over := y + v.height - limit
		wantBreak := over > 0 && !f.noBreak
		switch {
		case l.Page == page && near(l.Y, y):
			if wantBreak && over > 1e-6 {
				t := tag
				if c.Inside {
					t = "boxpage"
				} else {
					t = "pitch"
				}
				f.bad(t, "%s: line %v ends %.3f below the bottom margin", c.Name, l, over)
			}
		case l.Page == page+1 && near(l.Y, f.g.T) && !f.noBreak:
			if over < -1e-6 {
				f.bad("pitch", "%s: line %v moved to a new page though it fits at %.3f (%.3f left)", c.Name, l, y, -over)
			}
			if c.Inside {
				f.bad("boxpage", "%s: line %v has left the page of its box", c.Name, l)
			}
		default:
			want := fmt.Sprintf("y=%.3f on page %d", y, page)
			if wantBreak {
				want = fmt.Sprintf("y=%.3f on page %d", f.g.T, page+1)
			}
			if l.Page == page {
				tag += blankTag(l.Y-y, c.Sty)
			}
			f.bad(tag, "%s: line %v is printed instead at %s", c.Name, l, want)
		}
		tag = "pitch"
		if c.Cell && c.Sty.VAlign != "top" {
			tag = "pitch|valign"
		}
		page, y = l.Page, l.Y
		if page == 1 {
			f.ends = append(f.ends, y+v.height)
		}
		y += v.height * c.Sty.LS
	}
}

// blankTag adds the aspect of line breaks if a height is wrong by whole blank lines.
func blankTag(d float64, sty RSty) string {
	d = math.Abs(d)
	for k := 1; k <= 4; k++ {
		for _, h := range []float64{sty.Font.height(), sty.Font.height() * sty.LS} {
			if near(d, float64(k)*h) {
				return "|lines"
			}
		}
	}
	return ""
}

func contentHeight(vls []vline, sty RSty) float64 {
	if len(vls) == 0 {
		return sty.Font.height()
	}
	// with a line-spacing below 1 an earlier line may be the lowest one
	y, h := 0.0, 0.0
	for _, v := range vls {
		h = math.Max(h, y+v.height)
		y += v.height * sty.LS
	}
	return h
}

// ------------------------------------------------------------ elements

// cursorTag tells what is wrong if an element is not at the cursor.
func (f *Flow) cursorTag() string {
	if f.prev == "text" {
		return "cursor|pitch"
	}
	return "cursor"
}

// effWidth is the width of an element at x inside of an area from x0 to x1: full-width ones end at its right edge
func effWidth(w, x, x0, x1 float64) float64 {
	if w >= 0 && w <= x1-x0 {
		return w
	}
	if x > x0 && x < x1 {
		return x1 - x
	}
	return x1 - x0
}

func maxWord(items []Item) float64 {
	m := 0.0
	for _, it := range items {
		if !it.Brk {
			m = math.Max(m, it.Sty.Font.width(it.W))
		}
	}
	return m
}

func (f *Flow) walk(nodes []*Node) {
	for i, n := range nodes {
		if f.aborted {
			return
		}
		name := fmt.Sprintf("%s[%d]", n.El, i)
		switch n.El {
		case "lf", "setx", "sety", "newpage":
			f.instrs++
		case "box":
			f.boxes++
		}
		switch n.El {
		case "#text":
		case "font":
			f.base.Font = f.d.resolve(f.base, n, "").Font
		case "lf":
			f.y += n.attrF("lines") * f.base.Font.height()
			f.x = f.g.L
		case "setx":
			v := n.attrF("x")
			if v < 0 {
				v += f.g.W
			}
			f.x = v
		case "sety":
			v := n.attrF("y")
			if v < 0 {
				v += f.g.H
			}
			f.y = v
		case "newpage":
			if !f.noBreak {
				f.setPage(f.page + 1)
				f.x, f.y = f.g.L, f.g.T
			}
		case "text":
			f.text(n, name)
			f.prevSty = f.d.resolve(f.base, n, "")
		case "box":
			f.box(n, name)
		case "table":
			f.table(n, name)
		case "image":
			f.image(n, name)
		case "grid":
		default:
			harnessFail("flow: unknown element %s", n.El)
		}
		switch n.El {
		case "lf", "setx", "sety", "newpage":
			f.prev = ""
		case "text", "box", "table":
			f.prev = n.El
		}
	}
}

func (f *Flow) text(n *Node, name string) {
	sty := f.d.resolve(f.base, n, "")
	items := f.items(n, &sty)
	lines, ok := f.consume(items, name, sty.HAlign == "block")
	if !ok {
		f.aborted = true
		return
	}
	c := &Cont{Name: name, Items: items, Sty: sty, Left: f.x, Width: effWidth(sty.Width, f.x, f.g.X0, f.g.X1), Y: f.y, Page: f.page, YTag: f.cursorTag()}
	if c.Left+maxWord(items) > f.g.X1+eps {
		// the engine itself wraps a word beyond the page; nothing is claimed for its lines
		f.skipped++
		if len(lines) > 0 {
			f.aborted = true
		}
		return
	}
	vls := f.checkLines(c, lines)
	if len(vls) == 0 {
		return
	}
	// the cursor continues behind the last line
	f.x = f.g.L
	var lastPrinted *Line
	tail := 0.0
	for i := len(vls) - 1; i >= 0; i-- {
		tail += vls[i].height * sty.LS
		if vls[i].line != nil {
			lastPrinted = vls[i].line
			break
		}
	}
	if lastPrinted != nil {
		f.setPage(lastPrinted.Page)
		f.y = lastPrinted.Y + tail
	} else {
		f.y += tail
	}
}

// rect is a frame recovered from its background
type rect struct {
	page           int
	x0, y0, x1, y1 float64
}

func (r rect) w() float64 { return r.x1 - r.x0 }
func (r rect) h() float64 { return r.y1 - r.y0 }
func (r rect) String() string {
	return fmt.Sprintf("p%d (%.3f,%.3f)-(%.3f,%.3f)", r.page, r.x0, r.y0, r.x1, r.y1)
}

// frame takes the next background and its border.
func (f *Flow) frame(name string, sty RSty) (rect, bool) {
	if f.fp >= len(f.fills) {
		f.bad("content", "%s: frame is not drawn", name)
		return rect{}, false
	}
	e, segs := f.fills[f.fp], f.segs[f.fp]
	f.fp++
	hl := sty.LW / 2
	r := rect{e.Page, e.X - hl, e.Y - hl, e.X + e.W + hl, e.Y + e.H + hl}
	if e.Col != sty.Bg {
		f.bad("boxsty", "%s: background is %v instead of %v", name, e.Col, sty.Bg)
	}
	f.checkBorder(name, r, sty, segs)
	if r.page == 1 {
		f.ends = append(f.ends, r.y1)
	}
	return r, true
}

func (f *Flow) checkBorder(name string, r rect, sty RSty, segs []Ev) {
	hl := sty.LW / 2
	var found [4]int // left, top, right, bottom
	for _, s := range segs {
		if s.Col != sty.Fg {
			f.bad("boxsty", "%s: border is drawn in %v instead of %v", name, s.Col, sty.Fg)
		}
		if math.Abs(s.LW-sty.LW) > 1e-9 {
			f.bad("boxsty", "%s: border is drawn with line width %v instead of %v", name, s.LW, sty.LW)
		}
		xa, xb := math.Min(s.X, s.X1), math.Max(s.X, s.X1)
		ya, yb := math.Min(s.Y, s.Y1), math.Max(s.Y, s.Y1)
		within := func(v, a float64) bool { return math.Abs(v-a) <= hl+eps }
		switch {
		case s.Page != r.page:
			f.bad("boxframe", "%s: border %v is on another page than frame %v", name, s, r)
		case near(s.X, s.X1) && near(s.X, r.x0) && within(ya, r.y0) && within(yb, r.y1) && !near(s.Y, s.Y1):
			found[0]++
		case near(s.Y, s.Y1) && near(s.Y, r.y0) && within(xa, r.x0) && within(xb, r.x1):
			found[1]++
		case near(s.X, s.X1) && near(s.X, r.x1) && within(ya, r.y0) && within(yb, r.y1):
			found[2]++
		case near(s.Y, s.Y1) && near(s.Y, r.y1) && within(xa, r.x0) && within(xb, r.x1):
			found[3]++
		default:
			f.bad("boxframe", "%s: border %v is not at an edge of frame %v", name, s, r)
		}
	}
	for i, side := range []string{"left", "top", "right", "bottom"} {
		want := 0
		if sty.Border[i] > 0 {
			want = 1
		}
		if found[i] != want && r.w() > sty.LW && r.h() > sty.LW {
			f.bad("boxframe", "%s: %s border is drawn %d times instead of %d (frame %v)", name, side, found[i], want, r)
		}
	}
}

func (f *Flow) box(n *Node, name string) {
	sty := f.d.resolve(f.base, n, "")
	r, ok := f.frame(name, sty)
	if !ok {
		f.aborted = true
		return
	}
	items := f.items(n, &sty)
	lines, ok := f.consume(items, name, sty.HAlign == "block")
	if !ok {
		f.aborted = true
		return
	}
	w := effWidth(sty.Width, r.x0, f.g.X0, f.g.X1)
	cw := w - sty.Pad[0] - sty.Pad[2]
	if math.Max(f.x, r.x0-sty.OffX)+sty.OffX+sty.Pad[0]+math.Max(cw, maxWord(items)) > f.g.X1+eps {
		f.skipped++
		f.aborted = true
		return
	}
	c := &Cont{Name: name, Items: items, Sty: sty, Left: r.x0 + sty.Pad[0], Width: cw, Y: r.y0 + sty.Pad[1], Page: r.page, YTag: "boxframe", Inside: true}
	vls := f.checkLines(c, lines)
	content := contentHeight(vls, sty)
	want := content
	if sty.Height > 0 {
		want = sty.Height
	}
	outer := want + sty.Pad[1] + sty.Pad[3]
	if !near(r.w(), w) {
		f.bad("boxframe", "%s: frame %v is %.3f wide instead of %.3f", name, r, r.w(), w)
	}
	if !near(r.h(), outer) {
		f.bad("boxframe"+blankTag(r.h()-outer, sty), "%s: frame %v is %.3f high instead of %.3f", name, r, r.h(), outer)
	}
	// place
	over := f.y + sty.OffY + outer - f.g.Y1
	fitsEmpty := f.g.T+sty.OffY+outer <= f.g.Y1-1e-6
	switch {
	case r.page == f.page && near(r.y0, f.y+sty.OffY):
		if !near(r.x0, f.x+sty.OffX) {
			f.bad("cursor", "%s: frame %v starts at x=%.3f instead of %.3f", name, r, r.x0, f.x+sty.OffX)
		}
		if over > 1e-6 && fitsEmpty && !f.noBreak {
			f.bad("boxpage", "%s: frame %v crosses the bottom margin %.3f", name, r, f.g.Y1)
		}
	case r.page == f.page+1 && near(r.y0, f.g.T+sty.OffY) && !f.noBreak:
		if !near(r.x0, f.g.L+sty.OffX) && !near(r.x0, f.x+sty.OffX) {
			f.bad("cursor", "%s: frame %v on the new page starts at x=%.3f", name, r, r.x0)
		}
		// as wide as on the page before?
		if over < -1e-6 && near(w, effWidth(sty.Width, f.x+sty.OffX, f.g.X0, f.g.X1)) {
			f.bad("boxpage", "%s: frame %v moved to a new page though %.3f was left", name, r, -over)
		}
	default:
		t := f.cursorTag()
		if r.page == f.page && f.prev == "text" {
			t += blankTag(r.y0-f.y-sty.OffY, f.prevSty)
		}
		if r.page > f.page {
			t += "|boxpage"
		}
		f.bad(t, "%s: frame %v is not at the cursor (page %d, %.3f, %.3f) nor at the top of the next page", name, r, f.page, f.x, f.y)
	}
	for _, l := range lines {
		lastY := l.Y
		if sty.Height <= 0 && (l.Page != r.page || lastY < r.y0+sty.Pad[1]-eps || lastY > r.y1-sty.Pad[3]+eps) {
			f.bad("boxframe", "%s: line %v is outside of its frame %v", name, l, r)
		}
	}
	if r.page > f.page {
		f.boxbreaks++
		f.setPage(r.page)
	}
	f.x, f.y = f.g.L, r.y1
}

func (f *Flow) finish() {
	if f.aborted {
		return
	}
	if f.tp < len(f.texts) {
		f.bad("content", "text %v is printed behind the last element", f.texts[f.tp])
	}
	if f.fp < len(f.fills) {
		f.bad("content", "frame %v is drawn behind the last element", f.fills[f.fp])
	}
	if f.ip < len(f.imgs) {
		f.bad("content", "image %v is drawn behind the last element", f.imgs[f.ip])
	}
}

// firstOf returns the first violation with one of the tags.
func (f *Flow) firstOf(tags ...string) error {
	for _, v := range f.viols {
		for _, vt := range strings.Split(v.Tag, "|") {
			for _, t := range tags {
				if vt == t {
					return fmt.Errorf("[%s] %s", v.Tag, v.Msg)
				}
			}
		}
	}
	return nil
}
