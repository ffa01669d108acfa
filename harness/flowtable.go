package main

import (
	"fmt"
	"math"
	"path/filepath"
)

// tcell is a cell of the reference grid.
type tcell struct {
	n              *Node
	sty            RSty
	name           string
	r, c, rs, cs   int
	content        float64 // height needed inside the padding
	x0, w          float64
	drawn          int
	given, skipped bool
}

func (c *tcell) need() float64 {
	if c.sty.Height > 0 {
		return c.sty.Height
	}
	return c.content + c.sty.Pad[1] + c.sty.Pad[3]
}

// rtable is the reference layout of a table.
type rtable struct {
	sty    RSty
	rows   [][]*tcell // cells starting in each row
	nrows  int
	ncols  int
	full   bool // spans tile the grid
	widths []float64
	cw     float64
	chain  bool // a cell spans out of a group of rows
}

func kids(n *Node, el string) []*Node {
	var out []*Node
	for _, k := range n.Kids {
		if k.El == el {
			out = append(out, k)
		}
	}
	return out
}

func atLeast1(i int) int {
	if i < 1 {
		return 1
	}
	return i
}

func (d *Doc) refTable(n *Node, base RSty, x float64, g Geo) *rtable {
	t := &rtable{sty: d.resolve(base, n, "")}
	type slot struct{ r, c int }
	occ := map[slot]*tcell{}
	trs := kids(n, "tr")
	t.nrows = len(trs)
	t.full = true
	for ir, tr := range trs {
		rsty := d.resolve(t.sty, tr, positional(ir, len(trs), "row"))
		tds := kids(tr, "td")
		c := 0
		var row []*tcell
		for ic, td := range tds {
			for occ[slot{ir, c}] != nil {
				c++
			}
			cell := &tcell{
				n: td, sty: d.resolve(rsty, td, positional(ic, len(tds), "cell")),
				name: fmt.Sprintf("cell %d/%d", ir, ic),
				r:    ir, c: c, rs: atLeast1(td.attrI("rowspan", 1)), cs: atLeast1(td.attrI("colspan", 1)),
			}
			for dr := 0; dr < cell.rs; dr++ {
				for dc := 0; dc < cell.cs; dc++ {
					s := slot{ir + dr, c + dc}
					if occ[s] != nil {
						t.full = false
					}
					occ[s] = cell
				}
			}
			if ir+cell.rs > t.nrows {
				t.nrows = ir + cell.rs
			}
			c += cell.cs
			row = append(row, cell)
		}
		t.rows = append(t.rows, row)
	}
	for len(t.rows) < t.nrows {
		t.rows = append(t.rows, nil)
	}
	for s := range occ {
		if s.c+1 > t.ncols {
			t.ncols = s.c + 1
		}
	}
	for r := 0; r < t.nrows; r++ {
		for c := 0; c < t.ncols; c++ {
			if occ[slot{r, c}] == nil {
				t.full = false
			}
		}
	}
	// columns
	t.cw = effWidth(t.sty.Width, x, g.X0, g.X1)
	t.widths = make([]float64, t.ncols)
	for _, row := range t.rows {
		for _, cell := range row {
			t.widths[cell.c] = math.Max(t.widths[cell.c], cell.sty.ColW)
		}
	}
	used, open := 0.0, 0
	for _, w := range t.widths {
		used += w
		if w <= 0 {
			open++
		}
	}
	for i, w := range t.widths {
		if w <= 0 {
			t.widths[i] = (t.cw - used) / float64(open)
		}
	}
	for _, row := range t.rows {
		for _, cell := range row {
			for i := 0; i < cell.c+cell.cs; i++ {
				if i < cell.c {
					cell.x0 += t.widths[i]
				} else {
					cell.w += t.widths[i]
				}
			}
		}
	}
	return t
}

// rowHeights from the content heights of the cells
func (t *rtable) rowHeights() []float64 {
	hs := make([]float64, t.nrows)
	for _, row := range t.rows {
		for _, c := range row {
			share := c.need() / float64(c.rs)
			for i := 0; i < c.rs; i++ {
				hs[c.r+i] = math.Max(hs[c.r+i], share)
			}
		}
	}
	return hs
}

// reach is the height of row r incl. the rows its cells span to
func (t *rtable) reach(r int, hs []float64) float64 {
	m := hs[r]
	for _, c := range t.rows[r] {
		h := 0.0
		for i := 0; i < c.rs; i++ {
			h += hs[r+i]
		}
		m = math.Max(m, h)
	}
	return m
}

// trow is one printed instance of a row
type trow struct {
	r     int
	page  int
	rep   bool
	brk   bool // starts a new page
	rects []rect
}

func (f *Flow) table(n *Node, name string) {
	t := f.d.refTable(n, f.base, f.x, f.g)
	if t.ncols == 0 {
		return
	}
	rh := n.attrI("repeatheader", 0)
	total := 0.0
	for _, w := range t.widths {
		total += w
		if w <= 0 {
			f.skipped++
			f.aborted = true
			return
		}
	}
	if f.x+total > f.g.X1+eps {
		f.skipped++
		f.aborted = true
		return
	}
	f.tables++
	page := f.page
	jump, nv := "", len(f.viols)
	var insts []*trow
	draw := func(r int, rep, brk bool) bool {
		in := &trow{r: r, page: page, rep: rep, brk: brk}
		for _, c := range t.rows[r] {
			re, ok := f.cell(c, name+" "+c.name, f.x+c.x0, in.page)
			if !ok {
				f.aborted = true
				return false
			}
			in.rects = append(in.rects, re)
		}
		insts = append(insts, in)
		return true
	}
	nextIs := func(r int) bool {
		return f.fp < len(f.fills) && len(t.rows[r]) > 0 && f.fills[f.fp].Col == t.rows[r][0].sty.Bg
	}
	for r := range t.rows {
		brk := false
		if len(t.rows[r]) > 0 && f.fp < len(f.fills) {
			if p := f.fills[f.fp].Page; p > page {
				if p != page+1 || f.noBreak { // reported if header and row fit on a page
					jump = fmt.Sprintf("%s: row %d is printed on page %d behind page %d", name, r, p, page)
				}
				page, brk = p, true
			}
		}
		if brk && r > 0 && rh > 0 {
			for k := 0; k < rh && k < len(t.rows); k++ {
				if len(t.rows[k]) > 0 && !nextIs(k) && nextIs(r) {
					f.bad("tpage", "%s: header row %d is not repeated on page %d before row %d", name, k, page, r)
					f.aborted = true
					return
				}
				if !draw(k, true, k == 0) {
					return
				}
				f.repeated++
			}
			brk = false
		}
		if !nextIs(r) && rh > 0 && len(t.rows[r]) > 0 && nextIs(0) {
			f.bad("tpage", "%s: header row is repeated before row %d without need", name, r)
			f.aborted = true
			return
		}
		if !draw(r, false, brk) {
			return
		}
	}
	hs := t.rowHeights()
	f.checkTable(n, name, t, insts, hs, rh, jump, nv)
}

func (f *Flow) checkTable(n *Node, name string, t *rtable, insts []*trow, hs []float64, rh int, jump string, nv int) {
	y := f.y
	page := f.page
	limit := f.g.Y1
	// domain: header and row always fit on a page
	head := 0.0
	for k := 0; k < rh && k < t.nrows; k++ {
		head += hs[k]
	}
	fits := true
	for r := 0; r < t.nrows; r++ {
		h := head
		if r < rh {
			h = 0
		}
		if f.g.T+h+t.reach(r, hs) > limit-1e-6 {
			fits = false
		}
	}
	// header rows with the first body row
	first, top := 0.0, 0.0
	for k := 0; k <= rh && k < t.nrows; k++ {
		first = math.Max(first, top+t.reach(k, hs))
		top += hs[k]
	}
	if f.g.T+first > limit-1e-6 {
		fits = false
	}
	if !fits && !f.noBreak {
		// nothing is claimed for the places of its contents
		keep := f.viols[:nv]
		for _, v := range f.viols[nv:] {
			switch v.Tag {
			case "content", "sty", "boxsty", "slot", "hyph":
				keep = append(keep, v)
			}
		}
		f.viols = keep
		f.skipped++
		f.aborted = true
		return
	}
	if jump != "" {
		f.bad("tpage", "%s", jump)
		f.aborted = true
		return
	}
	for i, in := range insts {
		reach := t.reach(in.r, hs)
		if in.page != page { // new page
			need := reach
			why := "it"
			if i == 0 {
				need = first
				why = "header and first row"
			} else if in.rep { // decided by the row behind the repeated header
				for _, k := range insts[i:] {
					if !k.rep {
						need = t.reach(k.r, hs)
						break
					}
				}
			}
			if over := y + need - limit; over < -1e-6 {
				f.bad("tpage", "%s: row %d starts page %d though %s needs %.3f and %.3f are left", name, in.r, in.page, why, need, limit-y)
			}
			f.tbreaks++
			page, y = in.page, f.g.T
		} else {
			if over := y + reach - limit; over > 1e-6 && !f.noBreak {
				f.bad("tpage", "%s: row %d ends at %.3f, below the bottom margin %.3f", name, in.r, y+reach, limit)
			}
			if i == 0 && !f.noBreak {
				if over := y + first - limit; over > 1e-6 {
					f.bad("tpage", "%s: its first row stays on page %d though header and first body row end %.3f below the bottom margin", name, page, over)
				}
			}
		}
		for k, c := range t.rows[in.r] {
			r := in.rects[k]
			if r.page != in.page {
				f.bad("tpage", "%s %s: printed on page %d, its row on page %d", name, c.name, r.page, in.page)
				continue
			}
			if !near(r.y0, y) {
				tag := "size"
				if i == 0 || in.brk || in.page != insts[i-1].page {
					tag = "tpage"
				}
				f.bad(tag, "%s %s: starts at y=%.3f instead of %.3f", name, c.name, r.y0, y)
			}
			h := 0.0
			for q := 0; q < c.rs; q++ {
				h += hs[in.r+q]
			}
			if !near(r.h(), h) {
				tag := "size" + blankTag(r.h()-h, c.sty)
				if c.rs > 1 {
					tag += "|slot"
				}
				f.bad(tag, "%s %s: is %.3f high instead of %.3f (spanning %d rows)", name, c.name, r.h(), h, c.rs)
			}
		}
		y += hs[in.r]
		// each cell ends where the row below its last one starts
		for k, c := range t.rows[in.r] {
			if i+c.rs < len(insts) && in.rects[k].page == in.page {
				below := insts[i+c.rs]
				if below.page != in.page || below.r != in.r+c.rs || len(below.rects) == 0 {
					continue
				}
				if r := in.rects[k]; !near(r.y1, below.rects[0].y0) {
					f.bad("slot", "%s %s: %v spanning %d rows does not end where row %d starts (%.3f)", name, c.name, r, c.rs, below.r, below.rects[0].y0)
				}
			}
		}
	}
	if page > f.page {
		f.setPage(page)
	}
	f.y = y
}

// cell consumes a cell and checks its contents relative to its frame.
func (f *Flow) cell(c *tcell, name string, x0 float64, page int) (rect, bool) {
	sty := c.sty
	r, ok := f.frame(name, sty)
	if !ok {
		return r, false
	}
	if !near(r.x0, x0) {
		f.bad("slot", "%s: starts at x=%.3f instead of %.3f (column %d)", name, r.x0, x0, c.c)
	}
	if !near(r.w(), c.w) {
		f.bad("slot", "%s: is %.3f wide instead of %.3f (%d columns from %d)", name, r.w(), c.w, c.cs, c.c)
	}
	if c.cs > 1 || c.rs > 1 {
		f.spans++
	}
	pad := rect{r.page, r.x0 + sty.Pad[0], r.y0 + sty.Pad[1], r.x1 - sty.Pad[2], r.y1 - sty.Pad[3]}
	valign := func(margin float64) float64 {
		switch sty.VAlign {
		case "middle":
			return pad.y0 + margin/2
		case "bottom":
			return pad.y0 + margin
		}
		return pad.y0
	}
	items := f.items(c.n, &sty)
	lines, ok := f.consume(items, name, sty.HAlign == "block")
	if !ok {
		return r, false
	}
	cc := &Cont{Name: name, Items: items, Sty: sty, Left: pad.x0, Width: pad.w(), Page: r.page, YTag: "valign", Inside: true, Cell: true}
	vls := f.layout(cc, lines)
	if len(items) > 0 && len(vls) == 0 && len(lines) > 0 {
		return r, false
	}
	content := contentHeight(vls, sty)
	if sty.VAlign != "top" && pad.h() > content+0.1 && len(lines) > 0 {
		f.vspace++
	}
	cc.Y = valign(pad.h() - content)
	f.checkPitch(cc, vls)
	f.inner(c, lines, pad, content, name)

	// boxes inside
	base := f.base
	base.Font = sty.Font
	for bi, b := range c.n.Kids {
		switch b.El {
		case "box":
			bname := fmt.Sprintf("%s box[%d]", name, bi)
			bs := f.d.resolve(base, b, "")
			br, ok := f.frame(bname, bs)
			if !ok {
				return r, false
			}
			bitems := f.items(b, &bs)
			blines, ok := f.consume(bitems, bname, bs.HAlign == "block")
			if !ok {
				return r, false
			}
			w := effWidth(bs.Width, br.x0, pad.x0, pad.x1)
			bc := &Cont{Name: bname, Items: bitems, Sty: bs, Left: br.x0 + bs.Pad[0], Width: w - bs.Pad[0] - bs.Pad[2], Y: br.y0 + bs.Pad[1], Page: br.page, YTag: "boxframe", Inside: true}
			bvls := f.checkLines(bc, blines)
			h := contentHeight(bvls, bs)
			if bs.Height > 0 {
				h = bs.Height
			}
			outer := h + bs.Pad[1] + bs.Pad[3]
			if !near(br.w(), w) || !near(br.h(), outer) {
				f.bad("boxframe"+blankTag(br.h()-outer, bs), "%s: frame %v is %.3f x %.3f instead of %.3f x %.3f", bname, br, br.w(), br.h(), w, outer)
			}
			if br.page != r.page {
				f.bad("boxpage", "%s: is printed on page %d, its cell on page %d", bname, br.page, r.page)
			} else {
				if want := pad.x0 + bs.OffX; !near(br.x0, want) {
					f.bad("valign", "%s: starts at x=%.3f instead of %.3f", bname, br.x0, want)
				}
				if want := valign(pad.h()-outer) + bs.OffY; !near(br.y0, want) {
					f.bad("valign", "%s: starts at y=%.3f instead of %.3f", bname, br.y0, want)
				}
			}
			if bs.OffX == 0 && bs.OffY == 0 && c.sty.Height <= 0 && br.page == r.page &&
				(br.y0 < pad.y0-eps || br.y1 > pad.y1+eps || br.x0 < pad.x0-eps || br.x1 > pad.x1+eps) {
				f.bad("size", "%s: frame %v is outside of the padded cell %v", bname, br, pad)
			}
			f.innerBoxes++
			c.content = math.Max(c.content, bs.OffY+outer)
		case "image":
			f.imageAt(b, fmt.Sprintf("%s image[%d]", name, bi), pad.page, pad.x0, pad.y0, pad.w(), pad.h(), base)
		}
	}
	c.drawn++
	return r, true
}

func (f *Flow) inner(c *tcell, lines []Line, pad rect, content float64, name string) {
	c.content = math.Max(c.content, content)
	if c.sty.Height > 0 && c.content+c.sty.Pad[1]+c.sty.Pad[3] > c.sty.Height+1e-6 {
		f.tight++
		return
	}
	for _, l := range lines {
		h := 0.0
		for _, fr := range l.Frags {
			h = math.Max(h, fr.Font.height())
		}
		if l.Page == pad.page && (l.Y < pad.y0-eps || l.Y+h > pad.y1+eps) {
			f.bad("size", "%s: line %v is outside of the padded cell %v", name, l, pad)
		}
	}
}

// ------------------------------------------------------------ images

const mmPerPx = 25.4 / 96

func (f *Flow) imageAt(n *Node, name string, page int, x, y, aw, ah float64, base RSty) {
	file := n.Text
	px, ok := f.d.Imgs[file]
	if !ok || px[0] == 0 {
		f.noImage++
		return // skipped
	}
	sty := f.d.resolve(base, n, "")
	aw -= sty.OffX
	ah -= sty.OffY
	if room := math.Min(aw, ah); room < 1e-6 { // no room at all
		if room > -1e-6 && f.ip < len(f.imgs) && (f.imgs[f.ip].W < 1e-5 || f.imgs[f.ip].H < 1e-5) {
			f.ip++ // as small as rounding errors
		}
		f.noImage++
		return
	}
	if f.ip >= len(f.imgs) {
		f.bad("image", "%s: image %q is not drawn", name, file)
		return
	}
	e := f.imgs[f.ip]
	f.ip++
	nw, nh := float64(px[0])*mmPerPx, float64(px[1])*mmPerPx
	w, h := nw, nh
	switch {
	case sty.Width > 0 && sty.Height > 0:
		w, h = sty.Width, sty.Height
	case sty.Width > 0:
		w, h = sty.Width, sty.Width*nh/nw
	case sty.Height > 0:
		w, h = sty.Height*nw/nh, sty.Height
	}
	if s := math.Min(aw/w, ah/h); s < 1 {
		w, h = w*s, h*s
		f.scaled++
	}
	want := filepath.Clean(filepath.Join(f.wd, file))
	if filepath.IsAbs(file) {
		want = file
	}
	if e.S != want {
		f.bad("image", "%s: file %q is drawn instead of %q", name, e.S, want)
	}
	if e.Page != page || !near(e.X, x+sty.OffX) || !near(e.Y, y+sty.OffY) {
		f.bad("image", "%s: drawn at p%d (%.3f,%.3f) instead of p%d (%.3f,%.3f)", name, e.Page, e.X, e.Y, page, x+sty.OffX, y+sty.OffY)
	}
	if math.Abs(e.W-w) > 1e-5*(1+w) || math.Abs(e.H-h) > 1e-5*(1+h) {
		f.bad("image", "%s: drawn as %.4f x %.4f instead of %.4f x %.4f", name, e.W, e.H, w, h)
	}
	f.images++
}

func (f *Flow) image(n *Node, name string) {
	f.imageAt(n, name, f.page, f.x, f.y, f.g.X1-f.g.X0, f.g.Y1-f.g.Y0, f.base)
}
