package main

import (
	"math"
	"strings"
)

// repair restricts a drawn document to the domain of the layout properties:
// elements stay inside the page horizontally, words wider than their line only
// where they are left-aligned and fit the page, boxes and rows fit on an empty page.
// It is a pure function of the document.
func (d *Doc) repair() {
	g := d.geo()
	area := g.Y1 - g.T
	r := &repairer{d: d, g: g, base: defaultSty(), x: g.L, area: area}
	r.walk(d.Body)
	// header and footer inherit any font of the body
	for _, base := range d.bodyFonts() {
		for _, m := range [][]*Node{d.Header, d.Footer} {
			r := &repairer{d: d, g: g, base: base, x: g.L, area: g.H, marginal: true}
			r.walk(m)
		}
	}
}

// bodyFonts lists the styles header and footer can start with
func (d *Doc) bodyFonts() []RSty {
	base := defaultSty()
	out := []RSty{base}
	for _, n := range d.Body {
		if n.El == "font" {
			base.Font = d.resolve(base, n, "").Font
			out = append(out, base)
		}
	}
	return out
}

type repairer struct {
	d    *Doc
	g    Geo
	base RSty
	x    float64
	area float64

	marginal bool
	inner    bool // in a cell
	atTop    bool // the cursor was put near the top edge of the page
}

func (r *repairer) walk(ns []*Node) {
	for i, n := range ns {
		if n.El == "lf" && n.attrF("lines") < 0 {
			// upwards from where there is room above
			room := 0.0
			if i > 0 && ns[i-1].El == "sety" {
				if room = ns[i-1].attrF("y"); room < 0 {
					room += r.g.H
				}
			}
			if room += n.attrF("lines") * r.base.Font.height(); room < 0 {
				n.Attr = [][2]string{{"lines", "1"}}
			} else if room < 2 {
				r.atTop = true
			}
		}
		switch n.El {
		case "font":
			r.base.Font = r.d.resolve(r.base, n, "").Font
		case "setx":
			v := n.attrF("x")
			if v < 0 {
				v += r.g.W
			}
			if (v > r.g.X1-30 && !r.leaves(ns[i+1:])) || v < 0 {
				n.Attr = [][2]string{{"x", num(r.g.L)}}
				v = r.g.L
			}
			r.x = v
		case "sety":
			v := n.attrF("y")
			if v+r.g.H < 0 {
				n.Attr = [][2]string{{"y", "0"}}
			}
			if v >= 0 && v < 2 || v < 0 && v+r.g.H < 2 {
				r.atTop = true
			}
		case "newpage":
			if !r.marginal { // ignored there
				r.x = r.g.L
			}
		case "lf":
			r.x = r.g.L
		case "text":
			r.text(n)
		case "box":
			r.box(n)
		case "table":
			r.table(n)
		case "image":
			sty := r.d.resolve(r.base, n, "")
			if r.g.X1-r.g.X0-sty.OffX < 5 {
				n.setStyle("offset-x", "0")
			}
			if r.g.Y1-r.g.Y0-sty.OffY < 5 {
				n.setStyle("offset-y", "0")
			}
		}
	}
}

// leaves tells whether just images are at the present position before another one is taken
func (r *repairer) leaves(ns []*Node) bool {
	for _, n := range ns {
		switch n.El {
		case "image", "sety", "font", "grid":
		case "newpage":
			if !r.marginal {
				return true
			}
		case "setx", "lf":
			return true
		default:
			return false
		}
	}
	return true
}

func maxBlank(items []Item, sty RSty) float64 {
	m := sty.Font.blank()
	for _, it := range items {
		if !it.Brk {
			m = math.Max(m, it.Sty.Font.blank())
		}
	}
	return m
}

func maxHeight(items []Item, sty RSty) float64 {
	m := sty.Font.height()
	for _, it := range items {
		if !it.Brk {
			m = math.Max(m, it.Sty.Font.height())
		}
	}
	return m
}

// estHeight is an upper bound of the height of the content laid out in width w.
func estHeight(items []Item, sty RSty, w float64) float64 {
	b := maxBlank(items, sty)
	h := maxHeight(items, sty)
	lines, cur := 1, 0.0
	for _, it := range items {
		if it.Brk {
			lines++
			cur = 0
			continue
		}
		ww := it.Sty.Font.width(it.W) + b
		if cur > 0 && cur+ww > w-b {
			lines++
			cur = 0
		}
		cur += ww
		if sty.HAlign == "block" && ww > w-b {
			// divided over several lines
			lines += 2 + int(ww/w)
			cur = 0
		}
	}
	ls := math.Max(1, sty.LS)
	return h + float64(lines-1)*h*ls
}

// mapWords changes the words of a container in place.
func (r *repairer) mapWords(n *Node, sty RSty, f func(w string, fnt Font) string) {
	do := func(s string, fnt Font) string {
		var sb strings.Builder
		rs := []rune(s)
		for i := 0; i < len(rs); {
			j := i
			for j < len(rs) && !isBlank(rs[j]) {
				j++
			}
			if j > i {
				sb.WriteString(f(string(rs[i:j]), fnt))
			}
			for j < len(rs) && isBlank(rs[j]) {
				sb.WriteRune(rs[j])
				j++
			}
			i = j
		}
		return sb.String()
	}
	for _, k := range n.Kids {
		switch k.El {
		case "#text":
			k.Text = do(k.Text, sty.Font)
		case "p":
			k.Text = do(k.Text, r.d.resolve(sty, k, "").Font)
		}
	}
}

func (r *repairer) truncate(n *Node, sty RSty, limit float64) {
	r.mapWords(n, sty, func(w string, fnt Font) string {
		rs := []rune(w)
		for len(rs) > 1 && fnt.width(string(rs)) > limit {
			rs = rs[:len(rs)-1]
		}
		if fnt.width(string(rs)) > limit {
			return "i"
		}
		return string(rs)
	})
}

// fit makes the words fit: the lines start at left and are width wide, page is the room up to the right edge.
func (r *repairer) fit(n *Node, sty RSty, left, width, page float64) {
	items := r.d.items(n, &sty)
	if len(items) == 0 {
		return
	}
	b := maxBlank(items, sty)
	limit := page - 0.5
	// wider words reach over the left edge, or both, but not over the edge of the page
	switch sty.HAlign {
	case "right":
		limit = left + width
	case "center":
		limit = math.Max(width-2.2*b, width+2*math.Min(left, page-width-0.5)-2.2*b)
	}
	if limit < 1.2*maxHeight(items, sty) {
		n.setStyle("h-align", "left")
		limit = page - 0.5
	}
	r.truncate(n, sty, limit)
}

func (r *repairer) shorten(n *Node) bool {
	// removes the last half of the content
	words := 0
	for _, k := range n.Kids {
		if k.El == "#text" || k.El == "p" {
			words += len(fields(k.Text))
		}
		if k.El == "br" {
			words++
		}
	}
	if words <= 1 {
		return false
	}
	keep := words / 2
	var kids []*Node
	for _, k := range n.Kids {
		switch k.El {
		case "#text", "p":
			fs := fields(k.Text)
			if keep == 0 {
				continue
			}
			if len(fs) > keep {
				k.Text = " " + strings.Join(fs[:keep], " ")
				keep = 0
			} else {
				keep -= len(fs)
			}
		case "br":
			if keep == 0 {
				continue
			}
			keep--
		}
		kids = append(kids, k)
	}
	n.Kids = kids
	return true
}

func (r *repairer) text(n *Node) {
	sty := r.d.resolve(r.base, n, "")
	avail := r.g.X1 - r.x
	w := effWidth(sty.Width, r.x, r.g.X0, r.g.X1)
	if w > avail {
		w = math.Floor(avail*10) / 10
		n.setStyle("width", num(w))
	}
	if sty.LS < 0.5 {
		n.setStyle("line-spacing", "1")
	}
	items := r.d.items(n, &sty)
	for _, it := range items {
		if !it.Brk {
			for it.Sty.Font.width("WW") > w && w < avail {
				w = math.Floor(avail*10) / 10
				n.setStyle("width", num(w))
			}
		}
	}
	sty = r.d.resolve(r.base, n, "")
	r.fit(n, sty, r.x, w, avail)
	if len(items) > 0 {
		r.x = r.g.L
	}
}

func (r *repairer) box(n *Node) {
	// on a new page it starts at the left margin
	r.boxIn(n, r.base, math.Max(r.x, r.g.L), math.Min(r.x, r.g.L), r.g.X1, r.g.X1-r.g.X0, r.area)
	r.x = r.g.L
}

// boxIn repairs a box between left and x inside of an area ending at x1, with the width full
func (r *repairer) boxIn(n *Node, base RSty, x, left, x1, full, height float64) {
	sty := r.d.resolve(base, n, "")
	if sty.OffX < 0 && (r.inner || left+sty.OffX < 0 || sty.Width <= 0 || sty.Width > full) || x+sty.OffX > x1-25 {
		n.setStyle("offset-x", "0")
		sty.OffX = 0
	}
	if sty.OffY < 0 && (r.marginal || r.atTop || r.g.T < 2) {
		n.setStyle("offset-y", "0")
		sty.OffY = 0
	}
	avail := math.Floor((x1-x-sty.OffX)*10) / 10
	w := effWidth(sty.Width, x+sty.OffX, x1-full, x1)
	if w > x1-x-sty.OffX+1e-9 {
		w = avail
		n.setStyle("width", num(w))
	}
	items := r.d.items(n, &sty)
	if sty.LS < 0.5 {
		n.setStyle("line-spacing", "1")
	}
	need := 2.5 * maxHeight(items, sty)
	if w-sty.Pad[0]-sty.Pad[2] < need {
		w = math.Min(avail, math.Ceil(need+sty.Pad[0]+sty.Pad[2]))
		n.setStyle("width", num(w))
		if w-sty.Pad[0]-sty.Pad[2] < need {
			n.setStyle("padding", "0,0,0,0")
		}
	}
	sty = r.d.resolve(base, n, "")
	cw := w - sty.Pad[0] - sty.Pad[2]
	r.fit(n, sty, left+sty.OffX+sty.Pad[0], cw, x1-x-sty.OffX-sty.Pad[0])
	for {
		sty = r.d.resolve(base, n, "")
		items = r.d.items(n, &sty)
		h := estHeight(items, sty, cw)
		h = math.Max(h, sty.Height) + sty.Pad[1] + sty.Pad[3] + math.Abs(sty.OffY)
		if h < height-0.1 {
			break
		}
		if sty.Height > 0 {
			n.setStyle("height", "-1")
		} else if !r.shorten(n) {
			break
		}
	}
	// a given height encloses the content
	sty = r.d.resolve(base, n, "")
	if items := r.d.items(n, &sty); sty.Height > 0 && len(items) > 0 && estHeight(items, sty, cw) > sty.Height {
		n.setStyle("height", "-1")
	}
}

func (r *repairer) table(n *Node) {
	avail := r.g.X1 - r.x
	sty := r.d.resolve(r.base, n, "")
	w := effWidth(sty.Width, r.x, r.g.X0, r.g.X1)
	if w > avail {
		w = math.Floor(avail*10) / 10
		n.setStyle("width", num(w))
	}
	var cells []*Node
	for _, tr := range kids(n, "tr") {
		cells = append(cells, kids(tr, "td")...)
	}
	for round := 0; round < 4; round++ {
		t := r.d.refTable(n, r.base, r.x, r.g)
		used, open, small := 0.0, 0, false
		for _, cw := range t.widths {
			used += cw
		}
		for _, row := range t.rows {
			for _, c := range row {
				items := r.d.items(c.n, &c.sty)
				if c.w-c.sty.Pad[0]-c.sty.Pad[2] < 1.5*maxHeight(items, c.sty) {
					small = true
				}
			}
		}
		_ = open
		if !small && used < avail+1e-6 && t.full {
			break
		}
		switch round {
		case 0:
			for _, c := range cells {
				c.setStyle("column-width", "0")
			}
		case 1:
			n.setStyle("width", num(math.Floor(avail*10)/10))
		case 2, 3:
			for _, c := range cells {
				pad, size := "0.5,0.5,0.5,0.5", "8"
				if round == 3 {
					pad, size = "0.1,0.1,0.1,0.1", "4"
				}
				c.setStyle("padding", pad)
				c.setStyle("font-point-size", size)
				for _, k := range c.Kids {
					if k.El == "p" {
						k.setStyle("font-point-size", size)
					}
				}
			}
		}
	}
	// contents
	t := r.d.refTable(n, r.base, r.x, r.g)
	for _, row := range t.rows {
		for _, c := range row {
			pw := c.w - c.sty.Pad[0] - c.sty.Pad[2]
			px := r.x + c.x0 + c.sty.Pad[0]
			if c.sty.LS < 0.5 {
				c.n.setStyle("line-spacing", "1")
			}
			r.fit(c.n, c.sty, px, pw, r.g.X1-px)
			base := r.base
			base.Font = c.sty.Font
			for _, k := range c.n.Kids {
				switch k.El {
				case "box":
					if pw < 12 {
						k.El, k.Style, k.Class = "p", nil, nil
						txt := ""
						for _, kk := range k.Kids {
							txt += " " + kk.Text
						}
						k.Kids, k.Text = nil, "x"
						_ = txt
						continue
					}
					bs := r.d.resolve(base, k, "")
					if bs.OffX > 0 && pw-bs.OffX < 25 {
						k.setStyle("offset-x", "0")
					}
					if bs.OffY != 0 && c.sty.VAlign != "top" && bs.OffY > c.sty.Pad[3] {
						k.setStyle("offset-y", "0") // would leave the cell
					}
					r.inner = true
					r.boxIn(k, base, px, px, px+pw, pw, r.area/4)
					r.inner = false
				case "image":
					is := r.d.resolve(base, k, "")
					if pw-is.OffX < 3 {
						k.setStyle("offset-x", "0")
					}
				}
			}
		}
	}
	// heights
	rh := n.attrI("repeatheader", 0)
	for round := 0; round < 12; round++ {
		t = r.d.refTable(n, r.base, r.x, r.g)
		for _, row := range t.rows {
			for _, c := range row {
				r.estCell(c)
				if items := r.d.items(c.n, &c.sty); c.sty.Height > 0 && len(items) == 0 && len(kids(c.n, "box"))+len(kids(c.n, "image")) == 0 && c.rs == 1 {
					continue // nothing to enclose
				}
				if c.sty.Height > 0 && c.content+c.sty.Pad[1]+c.sty.Pad[3] > c.sty.Height {
					c.n.setStyle("height", "-1")
				} else if c.sty.Height > 0 && c.rs > 1 {
					c.n.setStyle("height", "-1")
				}
			}
		}
		t = r.d.refTable(n, r.base, r.x, r.g)
		for _, row := range t.rows {
			for _, c := range row {
				r.estCell(c)
			}
		}
		hs := t.rowHeights()
		head := 0.0
		for k := 0; k < rh && k < t.nrows; k++ {
			head += hs[k]
		}
		worst := 0.0
		for q := 0; q < t.nrows; q++ {
			h := t.reach(q, hs)
			if q >= rh {
				h += head
			}
			worst = math.Max(worst, h)
		}
		top := 0.0
		for k := 0; k <= rh && k < t.nrows; k++ {
			worst = math.Max(worst, top+t.reach(k, hs))
			top += hs[k]
		}
		if worst < r.area-0.1 {
			return
		}
		if round > 7 && rh > 0 {
			rh = 0
			n.Attr = nil
		}
		for _, row := range t.rows {
			for _, c := range row {
				if c.need() > r.area/10 {
					if c.sty.Height > 0 {
						c.n.setStyle("height", "-1")
					}
					r.shorten(c.n)
					for _, k := range c.n.Kids {
						if k.El == "box" {
							r.shorten(k)
						}
					}
				}
			}
		}
	}
}

func (r *repairer) estCell(c *tcell) {
	pw := c.w - c.sty.Pad[0] - c.sty.Pad[2]
	items := r.d.items(c.n, &c.sty)
	c.content = estHeight(items, c.sty, pw)
	base := r.base
	base.Font = c.sty.Font
	for _, k := range c.n.Kids {
		if k.El != "box" {
			continue
		}
		bs := r.d.resolve(base, k, "")
		bw := pw
		if bs.Width >= 0 && bs.Width < pw {
			bw = bs.Width
		}
		bi := r.d.items(k, &bs)
		h := estHeight(bi, bs, (bw - bs.Pad[0] - bs.Pad[2]))
		if bs.Height > 0 {
			h = bs.Height
		}
		c.content = math.Max(c.content, h+bs.Pad[1]+bs.Pad[3]+bs.OffY)
	}
}
