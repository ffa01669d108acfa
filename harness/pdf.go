package main

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"image/jpeg"
	"io"
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf16"
)

// A strict reader for PDF files (objects, cross-reference table, page tree, streams)
// and an interpreter for the drawing operators of page contents.

type pdfRef struct{ n, g int }
type pdfName string
type pdfDict map[string]any
type pdfStream struct {
	d    pdfDict
	data []byte
}
type pdfStr string
type pdfOp string

type pdfLexer struct {
	b   []byte
	pos int
}

func pdfSpace(c byte) bool {
	return c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == '\f' || c == 0
}
func pdfDelim(c byte) bool { return strings.IndexByte("()<>[]{}/%", c) >= 0 }

func (l *pdfLexer) skip() {
	for l.pos < len(l.b) {
		c := l.b[l.pos]
		if c == '%' {
			for l.pos < len(l.b) && l.b[l.pos] != '\n' && l.b[l.pos] != '\r' {
				l.pos++
			}
		} else if pdfSpace(c) {
			l.pos++
		} else {
			return
		}
	}
}

func (l *pdfLexer) peek(s string) bool { return bytes.HasPrefix(l.b[l.pos:], []byte(s)) }

var errPDFEnd = fmt.Errorf("end of data")

// value reads the next object; operators are returned as pdfOp.
func (l *pdfLexer) value() (any, error) {
	l.skip()
	if l.pos >= len(l.b) {
		return nil, errPDFEnd
	}
	c := l.b[l.pos]
	switch {
	case c == '/':
		st := l.pos + 1
		l.pos++
		for l.pos < len(l.b) && !pdfSpace(l.b[l.pos]) && !pdfDelim(l.b[l.pos]) {
			l.pos++
		}
		return pdfName(l.b[st:l.pos]), nil
	case c == '(':
		return l.str()
	case l.peek("<<"):
		l.pos += 2
		d := pdfDict{}
		for {
			l.skip()
			if l.pos >= len(l.b) {
				return nil, fmt.Errorf("dictionary is not closed")
			}
			if l.peek(">>") {
				l.pos += 2
				return d, nil
			}
			k, err := l.value()
			if err != nil {
				return nil, err
			}
			name, ok := k.(pdfName)
			if !ok {
				return nil, fmt.Errorf("dictionary key is %v", k)
			}
			v, err := l.value()
			if err != nil {
				return nil, err
			}
			if o, ok := v.(pdfOp); ok {
				return nil, fmt.Errorf("dictionary value of %s is %q", name, string(o))
			}
			d[string(name)] = v
		}
	case c == '<':
		end := bytes.IndexByte(l.b[l.pos:], '>')
		if end < 0 {
			return nil, fmt.Errorf("hex string is not closed")
		}
		h := string(l.b[l.pos+1 : l.pos+end])
		l.pos += end + 1
		var out []byte
		for i := 0; i+1 < len(h); i += 2 {
			v, err := strconv.ParseUint(h[i:i+2], 16, 8)
			if err != nil {
				return nil, err
			}
			out = append(out, byte(v))
		}
		return pdfStr(out), nil
	case c == '[':
		l.pos++
		arr := []any{}
		for {
			l.skip()
			if l.pos >= len(l.b) {
				return nil, fmt.Errorf("array is not closed")
			}
			if l.b[l.pos] == ']' {
				l.pos++
				return arr, nil
			}
			v, err := l.value()
			if err != nil {
				return nil, err
			}
			if o, ok := v.(pdfOp); ok {
				if o == "R" && len(arr) >= 2 {
					n, ok1 := arr[len(arr)-2].(float64)
					g, ok2 := arr[len(arr)-1].(float64)
					if ok1 && ok2 {
						arr = append(arr[:len(arr)-2], pdfRef{int(n), int(g)})
						continue
					}
				}
				if o != "null" && o != "true" && o != "false" {
					return nil, fmt.Errorf("operator %q in array", string(o))
				}
			}
			arr = append(arr, v)
		}
	case c == ')' || c == ']' || c == '>' || c == '{' || c == '}':
		return nil, fmt.Errorf("unexpected %q at offset %d", c, l.pos)
	}
	st := l.pos
	for l.pos < len(l.b) && !pdfSpace(l.b[l.pos]) && !pdfDelim(l.b[l.pos]) {
		l.pos++
	}
	tok := string(l.b[st:l.pos])
	if c == '+' || c == '-' || c == '.' || c >= '0' && c <= '9' {
		f, err := strconv.ParseFloat(tok, 64)
		if err != nil || math.IsInf(f, 0) || math.IsNaN(f) || strings.ContainsAny(tok, "eEnNxXpP_") {
			return nil, fmt.Errorf("invalid number %q", tok)
		}
		// indirect reference?
		save := l.pos
		if f == math.Trunc(f) && f >= 0 {
			if m := refTail.Find(l.b[l.pos:min(len(l.b), l.pos+24)]); m != nil {
				fs := strings.Fields(string(m))
				g, _ := strconv.Atoi(fs[0])
				l.pos += len(m) - 1 // the delimiter stays
				if l.pos > len(l.b) {
					l.pos = save
				}
				return pdfRef{int(f), g}, nil
			}
		}
		return f, nil
	}
	return pdfOp(tok), nil
}

var refTail = regexp.MustCompile(`^[ \r\n]+\d+[ \r\n]+R[ \r\n/>\]]`)

func (l *pdfLexer) str() (any, error) {
	l.pos++
	depth := 1
	var out []byte
	for l.pos < len(l.b) {
		c := l.b[l.pos]
		l.pos++
		switch c {
		case '\\':
			if l.pos >= len(l.b) {
				return nil, fmt.Errorf("string ends with a backslash")
			}
			e := l.b[l.pos]
			l.pos++
			switch e {
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case '\n':
			case '\r':
				if l.pos < len(l.b) && l.b[l.pos] == '\n' {
					l.pos++
				}
			case '0', '1', '2', '3', '4', '5', '6', '7':
				v := int(e - '0')
				for k := 0; k < 2 && l.pos < len(l.b) && l.b[l.pos] >= '0' && l.b[l.pos] <= '7'; k++ {
					v = v*8 + int(l.b[l.pos]-'0')
					l.pos++
				}
				out = append(out, byte(v))
			default:
				out = append(out, e)
			}
		case '(':
			depth++
			out = append(out, c)
		case ')':
			depth--
			if depth == 0 {
				return pdfStr(out), nil
			}
			out = append(out, c)
		case '\r': // an end of line within a string reads as line feed
			if l.pos < len(l.b) && l.b[l.pos] == '\n' {
				l.pos++
			}
			out = append(out, '\n')
		default:
			out = append(out, c)
		}
	}
	return nil, fmt.Errorf("string is not closed")
}

// PEv is something painted on a page, in millimeters from the top left.
type PEv struct {
	K          byte // t text, f filled rectangle, l line segment, i image
	Page       int
	X, Y, W, H float64 // text: baseline; segment: W,H is its end point
	S          string  // text or image resource
	Base       string  // base font
	FontKey    string
	Size       float64 // points
	Col        RGB
	LW         float64
	Px         [2]int
}

func (e PEv) String() string {
	switch e.K {
	case 't':
		return fmt.Sprintf("text p%d (%.2f,%.2f) %q %s %.2f %v", e.Page, e.X, e.Y, e.S, e.Base, e.Size, e.Col)
	case 'l':
		return fmt.Sprintf("line p%d (%.2f,%.2f)-(%.2f,%.2f) lw=%.2f %v", e.Page, e.X, e.Y, e.W, e.H, e.LW, e.Col)
	case 'i':
		return fmt.Sprintf("image p%d (%.2f,%.2f) %.2fx%.2f %dx%d px", e.Page, e.X, e.Y, e.W, e.H, e.Px[0], e.Px[1])
	}
	return fmt.Sprintf("fill p%d (%.2f,%.2f) %.2fx%.2f %v", e.Page, e.X, e.Y, e.W, e.H, e.Col)
}

// PDF is a parsed file.
type PDF struct {
	objs    map[int]any
	trailer pdfDict
	Pages   []pdfPage
	Evs     []PEv
	Info    map[string]string
	fonts   map[string]pdfFont // resource name
	imgs    map[string][2]int
}

type pdfPage struct {
	W, H    float64 // millimeters
	content []byte
}

type pdfFont struct {
	base  string
	utf16 bool
	file  []byte // embedded font program
}

func (p *PDF) resolve(v any) any {
	for i := 0; i < 10; i++ {
		r, ok := v.(pdfRef)
		if !ok {
			return v
		}
		v = p.objs[r.n]
	}
	return nil
}

func (p *PDF) dict(v any) pdfDict {
	switch x := p.resolve(v).(type) {
	case pdfDict:
		return x
	case *pdfStream:
		return x.d
	}
	return nil
}

var startXrefRE = regexp.MustCompile(`startxref\s+(\d+)\s+%%EOF\s*$`)
var objHeadRE = regexp.MustCompile(`^(\d+) (\d+) obj\b`)

// parsePDF reads a file completely, or tells what is not well-formed.
func parsePDF(b []byte) (*PDF, error) {
	if !bytes.HasPrefix(b, []byte("%PDF-1.")) {
		return nil, fmt.Errorf("no PDF header")
	}
	tail := b[max(0, len(b)-64):]
	m := startXrefRE.FindSubmatch(tail)
	if m == nil {
		return nil, fmt.Errorf("the file does not end with startxref and %%%%EOF: %q", tail)
	}
	xpos, _ := strconv.Atoi(string(m[1]))
	if xpos >= len(b) || !bytes.HasPrefix(b[xpos:], []byte("xref\n")) {
		return nil, fmt.Errorf("startxref %d does not point to the cross-reference table", xpos)
	}
	p := &PDF{objs: map[int]any{}, Info: map[string]string{}, fonts: map[string]pdfFont{}, imgs: map[string][2]int{}}
	rest := b[xpos+5:]
	nl := bytes.IndexByte(rest, '\n')
	if nl < 0 {
		return nil, fmt.Errorf("cross-reference table is cut off")
	}
	var first, count int
	if _, err := fmt.Sscanf(string(rest[:nl]), "%d %d", &first, &count); err != nil || first != 0 || count < 1 {
		return nil, fmt.Errorf("cross-reference table starts with %q", rest[:nl])
	}
	rest = rest[nl+1:]
	if len(rest) < 20*count {
		return nil, fmt.Errorf("cross-reference table is cut off")
	}
	offs := map[int]int{}
	used := map[int]int{}
	for i := 0; i < count; i++ {
		e := string(rest[20*i : 20*i+20])
		var off, gen int
		var typ string
		if _, err := fmt.Sscanf(e, "%d %d %s", &off, &gen, &typ); err != nil {
			return nil, fmt.Errorf("cross-reference entry %q: %v", e, err)
		}
		if typ == "n" {
			if o, dup := used[off]; dup {
				return nil, fmt.Errorf("objects %d and %d share offset %d", o, i, off)
			}
			used[off] = i
			offs[i] = off
		} else if typ != "f" {
			return nil, fmt.Errorf("cross-reference entry %q", e)
		}
	}
	tl := &pdfLexer{b: b, pos: xpos + 5 + nl + 1 + 20*count}
	if op, err := tl.value(); err != nil || op != pdfOp("trailer") {
		return nil, fmt.Errorf("no trailer: %v %v", op, err)
	}
	tv, err := tl.value()
	if err != nil {
		return nil, fmt.Errorf("trailer: %w", err)
	}
	td, ok := tv.(pdfDict)
	if !ok {
		return nil, fmt.Errorf("trailer is %v", tv)
	}
	p.trailer = td
	if sz, _ := td["Size"].(float64); int(sz) != count {
		return nil, fmt.Errorf("trailer size %v, but %d entries", td["Size"], count)
	}
	for n, off := range offs {
		if off >= len(b) {
			return nil, fmt.Errorf("object %d lies behind the end", n)
		}
		hm := objHeadRE.FindSubmatch(b[off:min(len(b), off+32)])
		if hm == nil || string(hm[1]) != strconv.Itoa(n) {
			return nil, fmt.Errorf("cross-reference entry of object %d points to %q", n, b[off:min(len(b), off+16)])
		}
		l := &pdfLexer{b: b, pos: off + len(hm[0])}
		v, err := l.value()
		if err != nil {
			return nil, fmt.Errorf("object %d: %w", n, err)
		}
		l.skip()
		if d, ok := v.(pdfDict); ok && l.peek("stream") {
			l.pos += len("stream")
			if l.peek("\r\n") {
				l.pos += 2
			} else if l.peek("\n") {
				l.pos++
			} else {
				return nil, fmt.Errorf("object %d: no line end behind stream", n)
			}
			ln, ok := d["Length"].(float64)
			if !ok || ln < 0 || l.pos+int(ln) > len(b) {
				return nil, fmt.Errorf("object %d: stream length %v", n, d["Length"])
			}
			data := b[l.pos : l.pos+int(ln)]
			l.pos += int(ln)
			l.skip()
			if !l.peek("endstream") {
				return nil, fmt.Errorf("object %d: no endstream behind %d bytes", n, int(ln))
			}
			l.pos += len("endstream")
			v = &pdfStream{d: d, data: data}
		}
		l.skip()
		if !l.peek("endobj") {
			return nil, fmt.Errorf("object %d: no endobj but %q", n, l.b[l.pos:min(len(l.b), l.pos+16)])
		}
		p.objs[n] = v
	}
	for n, v := range p.objs {
		if err := p.checkRefs(v); err != nil {
			return nil, fmt.Errorf("object %d: %w", n, err)
		}
	}
	if err := p.checkRefs(p.trailer); err != nil {
		return nil, fmt.Errorf("trailer: %w", err)
	}
	for k, v := range p.dict(td["Info"]) {
		if s, ok := v.(pdfStr); ok {
			p.Info[k] = string(s)
		}
	}
	return p, p.readPages()
}

func (p *PDF) checkRefs(v any) error {
	switch x := v.(type) {
	case pdfRef:
		if p.objs[x.n] == nil || x.g != 0 {
			return fmt.Errorf("reference to missing object %d %d", x.n, x.g)
		}
	case pdfDict:
		for k, e := range x {
			if err := p.checkRefs(e); err != nil {
				return fmt.Errorf("%s: %w", k, err)
			}
		}
	case []any:
		for _, e := range x {
			if err := p.checkRefs(e); err != nil {
				return err
			}
		}
	case *pdfStream:
		return p.checkRefs(x.d)
	}
	return nil
}

// decode gives the decoded data of a stream with no or the Flate filter.
func (s *pdfStream) decode() ([]byte, error) {
	switch f := s.d["Filter"].(type) {
	case nil:
		return s.data, nil
	case pdfName:
		if f == "FlateDecode" {
			zr, err := zlib.NewReader(bytes.NewReader(s.data))
			if err != nil {
				return nil, err
			}
			return io.ReadAll(zr)
		}
		return nil, fmt.Errorf("filter %s", f)
	}
	return nil, fmt.Errorf("filter %v", s.d["Filter"])
}

func (p *PDF) readPages() error {
	root := p.dict(p.trailer["Root"])
	if root["Type"] != pdfName("Catalog") {
		return fmt.Errorf("root is %v", root)
	}
	pages := p.dict(root["Pages"])
	if pages["Type"] != pdfName("Pages") {
		return fmt.Errorf("page tree is %v", pages)
	}
	kids, _ := p.resolve(pages["Kids"]).([]any)
	if c, _ := pages["Count"].(float64); int(c) != len(kids) || len(kids) == 0 {
		return fmt.Errorf("page tree counts %v pages, has %d", pages["Count"], len(kids))
	}
	pageObjs := 0
	for _, v := range p.objs {
		if d, ok := v.(pdfDict); ok && d["Type"] == pdfName("Page") {
			pageObjs++
		}
	}
	if pageObjs != len(kids) {
		return fmt.Errorf("%d page objects, but %d in the page tree", pageObjs, len(kids))
	}
	seen := map[any]bool{}
	for i, k := range kids {
		if seen[k] {
			return fmt.Errorf("page %d appears twice in the page tree", i+1)
		}
		seen[k] = true
		d := p.dict(k)
		if d["Type"] != pdfName("Page") || d["Parent"] != root["Pages"] {
			return fmt.Errorf("page %d is %v", i+1, d)
		}
		box, ok := d["MediaBox"].([]any)
		if !ok {
			box, ok = pages["MediaBox"].([]any)
		}
		if !ok || len(box) != 4 {
			return fmt.Errorf("page %d has no MediaBox", i+1)
		}
		var q [4]float64
		for j := range q {
			if q[j], ok = box[j].(float64); !ok {
				return fmt.Errorf("page %d: MediaBox %v", i+1, box)
			}
		}
		if q[0] != 0 || q[1] != 0 {
			return fmt.Errorf("page %d: MediaBox %v", i+1, box)
		}
		c, ok := p.resolve(d["Contents"]).(*pdfStream)
		if !ok {
			return fmt.Errorf("page %d has no contents", i+1)
		}
		data, err := c.decode()
		if err != nil {
			return fmt.Errorf("contents of page %d: %w", i+1, err)
		}
		res := p.dict(d["Resources"])
		if res == nil {
			res = p.dict(pages["Resources"])
		}
		if res == nil {
			return fmt.Errorf("page %d has no resources", i+1)
		}
		if i == 0 {
			if err := p.resources(res); err != nil {
				return err
			}
		}
		p.Pages = append(p.Pages, pdfPage{W: q[2] * ptToMM, H: q[3] * ptToMM, content: data})
		if err := p.interpret(i, data); err != nil {
			return fmt.Errorf("contents of page %d: %w", i+1, err)
		}
	}
	return nil
}

func (p *PDF) resources(res pdfDict) error {
	for name, ref := range p.dict(res["Font"]) {
		d := p.dict(ref)
		if d["Type"] != pdfName("Font") {
			return fmt.Errorf("font %s is %v", name, d)
		}
		base, _ := d["BaseFont"].(pdfName)
		f := pdfFont{base: string(base)}
		switch d["Subtype"] {
		case pdfName("Type1"):
		case pdfName("Type0"):
			f.utf16 = true
			desc, _ := p.resolve(d["DescendantFonts"]).([]any)
			if len(desc) != 1 {
				return fmt.Errorf("font %s: no descendant font", name)
			}
			cid := p.dict(desc[0])
			fd := p.dict(cid["FontDescriptor"])
			ff, ok := p.resolve(fd["FontFile2"]).(*pdfStream)
			if !ok {
				return fmt.Errorf("font %s: no font file", name)
			}
			data, err := ff.decode()
			if err != nil {
				return fmt.Errorf("font %s: %w", name, err)
			}
			f.file = data
			if tu, ok := p.resolve(d["ToUnicode"]).(*pdfStream); ok {
				if _, err := tu.decode(); err != nil {
					return fmt.Errorf("font %s: %w", name, err)
				}
			}
			if cg, ok := p.resolve(cid["CIDToGIDMap"]).(*pdfStream); ok {
				if _, err := cg.decode(); err != nil {
					return fmt.Errorf("font %s: %w", name, err)
				}
			}
		default:
			return fmt.Errorf("font %s is a %v", name, d["Subtype"])
		}
		p.fonts[name] = f
	}
	for name, ref := range p.dict(res["XObject"]) {
		s, ok := p.resolve(ref).(*pdfStream)
		if !ok || s.d["Subtype"] != pdfName("Image") {
			return fmt.Errorf("XObject %s is %v", name, p.dict(ref))
		}
		w, _ := s.d["Width"].(float64)
		h, _ := s.d["Height"].(float64)
		if s.d["Filter"] == pdfName("DCTDecode") {
			cfg, err := jpeg.DecodeConfig(bytes.NewReader(s.data))
			if err != nil || cfg.Width != int(w) || cfg.Height != int(h) {
				return fmt.Errorf("image %s: %v, %dx%d instead of %vx%v", name, err, cfg.Width, cfg.Height, w, h)
			}
		} else {
			data, err := s.decode()
			if err != nil {
				return fmt.Errorf("image %s: %w", name, err)
			}
			bpc, _ := s.d["BitsPerComponent"].(float64)
			comp := 1.0
			if s.d["ColorSpace"] == pdfName("DeviceRGB") {
				comp = 3
			}
			need := int(math.Ceil(w*comp*bpc/8)) * int(h)
			if len(data) < need {
				return fmt.Errorf("image %s: %d bytes of %d", name, len(data), need)
			}
		}
		p.imgs[name] = [2]int{int(w), int(h)}
	}
	return nil
}

type pdfGS struct {
	ctm          [6]float64
	fill, stroke RGB
	lw           float64
	font         string
	size         float64
}

func mul(a, b [6]float64) [6]float64 { // a applied first
	return [6]float64{
		a[0]*b[0] + a[1]*b[2], a[0]*b[1] + a[1]*b[3],
		a[2]*b[0] + a[3]*b[2], a[2]*b[1] + a[3]*b[3],
		a[4]*b[0] + a[5]*b[2] + b[4], a[4]*b[1] + a[5]*b[3] + b[5],
	}
}

func (p *PDF) interpret(page int, data []byte) error {
	l := &pdfLexer{b: data}
	H := p.Pages[page].H
	gs := pdfGS{ctm: [6]float64{1, 0, 0, 1, 0, 0}, lw: 1}
	var stack []pdfGS
	var args []any
	inText := false
	var td [2]float64
	type seg struct{ x0, y0, x1, y1 float64 }
	var path []seg
	var rects [][4]float64
	var cur, start [2]float64
	num := func(n int) ([]float64, error) {
		if len(args) != n {
			return nil, fmt.Errorf("%d operands instead of %d", len(args), n)
		}
		out := make([]float64, n)
		for i, a := range args {
			f, ok := a.(float64)
			if !ok {
				return nil, fmt.Errorf("operand %v", a)
			}
			out[i] = f
		}
		return out, nil
	}
	pt := func(x, y float64) (float64, float64) {
		m := gs.ctm
		return (x*m[0] + y*m[2] + m[4]) * ptToMM, H - (x*m[1]+y*m[3]+m[5])*ptToMM
	}
	col := func(f []float64) RGB {
		c := func(v float64) int { return int(math.Round(v * 255)) }
		if len(f) == 1 {
			return RGB{c(f[0]), c(f[0]), c(f[0])}
		}
		return RGB{c(f[0]), c(f[1]), c(f[2])}
	}
	emit := func(e PEv) {
		e.Page = page + 1
		p.Evs = append(p.Evs, e)
	}
	paint := func(stroke, fill bool) {
		if fill {
			for _, r := range rects {
				x0, y0 := pt(r[0], r[1])
				x1, y1 := pt(r[0]+r[2], r[1]+r[3])
				emit(PEv{K: 'f', X: math.Min(x0, x1), Y: math.Min(y0, y1), W: math.Abs(x1 - x0), H: math.Abs(y1 - y0), Col: gs.fill})
			}
		}
		if stroke {
			for _, s := range path {
				x0, y0 := pt(s.x0, s.y0)
				x1, y1 := pt(s.x1, s.y1)
				emit(PEv{K: 'l', X: x0, Y: y0, W: x1, H: y1, Col: gs.stroke, LW: gs.lw * ptToMM})
			}
		}
		path, rects = nil, nil
	}
	for {
		v, err := l.value()
		if err == errPDFEnd {
			break
		}
		if err != nil {
			return err
		}
		op, isOp := v.(pdfOp)
		if !isOp {
			args = append(args, v)
			continue
		}
		fail := func(err error) error {
			if err == nil {
				return nil
			}
			return fmt.Errorf("operator %s: %w", string(op), err)
		}
		var f []float64
		switch op {
		case "q":
			stack = append(stack, gs)
		case "Q":
			if len(stack) == 0 {
				return fmt.Errorf("Q without q")
			}
			gs = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
		case "cm":
			if f, err = num(6); err == nil {
				gs.ctm = mul([6]float64{f[0], f[1], f[2], f[3], f[4], f[5]}, gs.ctm)
			}
		case "w":
			if f, err = num(1); err == nil {
				gs.lw = f[0]
			}
		case "J", "j", "Tw", "Tc", "Tr", "M", "Tz", "TL", "Ts":
			_, err = num(1)
		case "RG":
			if f, err = num(3); err == nil {
				gs.stroke = col(f)
			}
		case "rg":
			if f, err = num(3); err == nil {
				gs.fill = col(f)
			}
		case "G":
			if f, err = num(1); err == nil {
				gs.stroke = col(f)
			}
		case "g":
			if f, err = num(1); err == nil {
				gs.fill = col(f)
			}
		case "re":
			if f, err = num(4); err == nil {
				rects = append(rects, [4]float64{f[0], f[1], f[2], f[3]})
			}
		case "m":
			if f, err = num(2); err == nil {
				cur = [2]float64{f[0], f[1]}
				start = cur
			}
		case "l":
			if f, err = num(2); err == nil {
				path = append(path, seg{cur[0], cur[1], f[0], f[1]})
				cur = [2]float64{f[0], f[1]}
			}
		case "h":
			path = append(path, seg{cur[0], cur[1], start[0], start[1]})
			cur = start
		case "S":
			paint(true, false)
		case "s":
			path = append(path, seg{cur[0], cur[1], start[0], start[1]})
			paint(true, false)
		case "f", "F", "f*":
			paint(false, true)
		case "B", "B*":
			paint(true, true)
		case "n":
			path, rects = nil, nil
		case "BT":
			if inText {
				err = fmt.Errorf("nested")
			}
			inText = true
			td = [2]float64{}
		case "ET":
			if !inText {
				err = fmt.Errorf("without BT")
			}
			inText = false
		case "Tf":
			if len(args) != 2 {
				err = fmt.Errorf("%d operands", len(args))
				break
			}
			name, ok1 := args[0].(pdfName)
			size, ok2 := args[1].(float64)
			if _, ok := p.fonts[string(name)]; !ok || !ok1 || !ok2 {
				err = fmt.Errorf("font %v of size %v is not among the resources", args[0], args[1])
			}
			gs.font, gs.size = string(name), size
		case "Td":
			if !inText {
				err = fmt.Errorf("outside of a text object")
				break
			}
			if f, err = num(2); err == nil {
				td[0] += f[0]
				td[1] += f[1]
			}
		case "Tj":
			if !inText || gs.font == "" {
				err = fmt.Errorf("outside of a text object or without font")
				break
			}
			if len(args) != 1 {
				err = fmt.Errorf("%d operands", len(args))
				break
			}
			s, ok := args[0].(pdfStr)
			if !ok {
				err = fmt.Errorf("operand %v", args[0])
				break
			}
			fnt := p.fonts[gs.font]
			str := string(s)
			if fnt.utf16 {
				str, err = decodeUTF16(str)
			}
			x, y := pt(td[0], td[1])
			emit(PEv{K: 't', X: x, Y: y, S: str, Base: fnt.base, FontKey: gs.font, Size: gs.size, Col: gs.fill})
		case "Do":
			name, ok := pdfName(""), false
			if len(args) == 1 {
				name, ok = args[0].(pdfName)
			}
			px, found := p.imgs[string(name)]
			if !ok || !found {
				err = fmt.Errorf("image %v is not among the resources", args)
				break
			}
			x0, y1 := pt(0, 0)
			x1, y0 := pt(1, 1)
			emit(PEv{K: 'i', X: math.Min(x0, x1), Y: math.Min(y0, y1), W: math.Abs(x1 - x0), H: math.Abs(y1 - y0), S: string(name), Px: px})
		default:
			return fmt.Errorf("unknown operator %q", string(op))
		}
		if err != nil {
			return fail(err)
		}
		args = nil
	}
	if len(args) > 0 {
		return fmt.Errorf("operands without operator: %v", args)
	}
	if len(stack) > 0 || inText {
		return fmt.Errorf("q or BT is not closed")
	}
	return nil
}

func decodeUTF16(s string) (string, error) {
	if len(s)%2 != 0 {
		return "", fmt.Errorf("odd length of UTF-16 text")
	}
	u := make([]uint16, 0, len(s)/2)
	for i := 0; i+1 < len(s); i += 2 {
		u = append(u, uint16(s[i])<<8|uint16(s[i+1]))
	}
	return string(utf16.Decode(u)), nil
}

// pageText concatenates the texts of a page in drawing order.
func (p *PDF) texts(page int) []PEv {
	var out []PEv
	for _, e := range p.Evs {
		if e.K == 't' && (page == 0 || e.Page == page) {
			out = append(out, e)
		}
	}
	return out
}
