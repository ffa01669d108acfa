package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"github.com/jung-kurt/gofpdf/v2"
	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
)

type RGB [3]int

// Font is the harness' own notion of a font.
type Font struct {
	Family string
	Size   float64
	Style  string
	Weight string
	Deco   string
}

func (f Font) gofpdfStyle() string {
	s := ""
	if f.Style == "italic" {
		s += "I"
	}
	if f.Weight == "bold" {
		s += "B"
	}
	return s
}

const ptToMM = 25.4 / 72

func (f Font) height() float64 { return f.Size * ptToMM }

// Ev is one observed drawing call.
type Ev struct {
	K      byte // t text, f fill, l line segment, i image, p page start
	Zone   byte // b body, h header, f footer
	Page   int
	X, Y   float64
	X1, Y1 float64 // end of segment
	W, H   float64
	S      string
	Font   Font
	Col    RGB
	LW     float64
	Auto   bool // page started implicitly
}

func (e Ev) String() string {
	switch e.K {
	case 't':
		return fmt.Sprintf("text p%d (%.2f,%.2f) %q %v %v", e.Page, e.X, e.Y, e.S, e.Font, e.Col)
	case 'f':
		return fmt.Sprintf("fill p%d (%.2f,%.2f) %.2fx%.2f %v", e.Page, e.X, e.Y, e.W, e.H, e.Col)
	case 'l':
		return fmt.Sprintf("line p%d (%.2f,%.2f)-(%.2f,%.2f) %v lw=%.2f", e.Page, e.X, e.Y, e.X1, e.Y1, e.Col, e.LW)
	case 'i':
		return fmt.Sprintf("image p%d (%.2f,%.2f) %.2fx%.2f %s", e.Page, e.X, e.Y, e.W, e.H, e.S)
	}
	return fmt.Sprintf("page %d", e.Page)
}

// Rec passes all calls to the real engine and records what is drawn.
type Rec struct {
	engine.Engine
	evs      []Ev
	zone     byte
	font     Font
	text     RGB
	draw     RGB
	fill     RGB
	lw       float64
	px, py   float64
	segs     []Ev
	lastPage int
	calls    int
	maxCalls int
	depth    int
	explicit bool
}

const defaultCallBudget = 1500000

func newRec(e engine.Engine) *Rec {
	return &Rec{Engine: e, zone: 'b', maxCalls: defaultCallBudget}
}

func (r *Rec) tick() {
	r.calls++
	if r.calls > r.maxCalls {
		panic(fmt.Sprintf("no end after %d engine calls on %d pages", r.calls, r.lastPage))
	}
}

func (r *Rec) syncPage() {
	if n := r.Engine.CurrentPage(); n != r.lastPage {
		if n > 100000 {
			panic("more than 100000 pages")
		}
		for p := r.lastPage + 1; p <= n; p++ {
			r.evs = append(r.evs, Ev{K: 'p', Page: p, Zone: r.zone, Auto: !r.explicit})
		}
		r.lastPage = n
	}
}

func (r *Rec) margin(zone byte, f func()) func() {
	return func() {
		r.syncPage()
		// the engine restores its graphic state itself behind header and footer
		z, fnt, t, d, fl, lw := r.zone, r.font, r.text, r.draw, r.fill, r.lw
		ex := r.explicit
		r.zone = zone
		r.depth++
		if r.depth > 20 {
			panic("pages are started recursively from header or footer")
		}
		f()
		r.depth--
		r.zone, r.font, r.text, r.draw, r.fill, r.lw = z, fnt, t, d, fl, lw
		r.explicit = ex
	}
}

func (r *Rec) OnHeader(f func()) { r.Engine.OnHeader(r.margin('h', f)) }
func (r *Rec) OnFooter(f func()) { r.Engine.OnFooter(r.margin('f', f)) }

func (r *Rec) AddPage() {
	r.tick()
	r.explicit = true
	r.Engine.AddPage()
	r.syncPage()
	r.explicit = false
}

func (r *Rec) SetX(x float64)     { r.tick(); r.Engine.SetX(x) }
func (r *Rec) SetY(y float64)     { r.tick(); r.Engine.SetY(y) }
func (r *Rec) LineFeed(n float64) { r.tick(); r.Engine.LineFeed(n); r.syncPage() }

func (r *Rec) ChangeFont(f style.Font) {
	r.tick()
	r.Engine.ChangeFont(f)
	size := f.PointSize
	if size == 0 {
		size = r.font.Size
	}
	r.font = Font{Family: f.Family, Size: size, Style: string(f.Style), Weight: string(f.Weight), Deco: string(f.Decoration)}
}

func (r *Rec) SetTextColor(a, b, c int) {
	r.tick()
	r.text = RGB{a, b, c}
	r.Engine.SetTextColor(a, b, c)
}
func (r *Rec) SetDrawColor(a, b, c int) {
	r.tick()
	r.draw = RGB{a, b, c}
	r.Engine.SetDrawColor(a, b, c)
}
func (r *Rec) SetFillColor(a, b, c int) {
	r.tick()
	r.fill = RGB{a, b, c}
	r.Engine.SetFillColor(a, b, c)
}
func (r *Rec) SetLineWidth(w float64) { r.tick(); r.lw = w; r.Engine.SetLineWidth(w) }

func (r *Rec) TextWidth(s string) float64 { r.tick(); return r.Engine.TextWidth(s) }

func (r *Rec) WriteText(s string) {
	r.tick()
	x0, y0 := r.Engine.GetXY()
	page0 := r.Engine.CurrentPage()
	// events of header and footer of an implicit page break come first
	r.Engine.WriteText(s)
	r.syncPage()
	if page1 := r.Engine.CurrentPage(); page1 != page0 {
		_, y0 = r.Engine.GetXY()
		page0 = page1
	} else if x1, y1 := r.Engine.GetXY(); y1 > y0+1e-6 {
		// wrapped by the engine
		y0 = y1
		x0 = x1 - r.Engine.TextWidth(s)
	}
	if s == "" {
		return
	}
	r.evs = append(r.evs, Ev{K: 't', Zone: r.zone, Page: page0, X: x0, Y: y0, S: s, Font: r.font, Col: r.text})
}

func (r *Rec) FillRect(x, y, w, h float64) {
	r.tick()
	r.Engine.FillRect(x, y, w, h)
	r.evs = append(r.evs, Ev{K: 'f', Zone: r.zone, Page: r.Engine.CurrentPage(), X: x, Y: y, W: w, H: h, Col: r.fill})
}

func (r *Rec) MoveTo(x, y float64) { r.tick(); r.px, r.py = x, y; r.Engine.MoveTo(x, y) }
func (r *Rec) LineTo(x, y float64) {
	r.tick()
	r.segs = append(r.segs, Ev{K: 'l', Zone: r.zone, Page: r.Engine.CurrentPage(), X: r.px, Y: r.py, X1: x, Y1: y})
	r.px, r.py = x, y
	r.Engine.LineTo(x, y)
}

func (r *Rec) DrawPath() {
	r.tick()
	r.Engine.DrawPath()
	for _, s := range r.segs {
		s.Col, s.LW = r.draw, r.lw
		r.evs = append(r.evs, s)
	}
	r.segs = nil
}

func (r *Rec) PutImage(src string, x, y, w, h float64) {
	r.tick()
	r.Engine.PutImage(src, x, y, w, h)
	r.evs = append(r.evs, Ev{K: 'i', Zone: r.zone, Page: r.Engine.CurrentPage(), X: x, Y: y, W: w, H: h, S: src})
}

// ------------------------------------------------------------- rendering

// Run is the observation of one rendering.
type Run struct {
	Evs   []Ev
	Pages int
	PDF   []byte
	Err   error // of processing
	Doc   *xdoc.Document
}

func (r *Run) body() []Ev {
	out := make([]Ev, 0, len(r.Evs))
	for _, e := range r.Evs {
		if e.Zone == 'b' {
			out = append(out, e)
		}
	}
	return out
}

var (
	hypOnce sync.Once
	hypEn   *hyphenation.Hyphenator
)

func enUs() *hyphenation.Hyphenator {
	hypOnce.Do(func() { hypEn = hyphenation.NewEnUs() })
	return hypEn
}

type renderOpts struct {
	hyph  *hyphenation.Hyphenator
	fonts *font.Registry
	wd    string
	w     io.Writer
}

// silent: the code under test logs to stdout, which is /dev/null in a worker.
func render(doc *xdoc.Document, o renderOpts) (*Run, error) {
	if o.hyph == nil {
		o.hyph = enUs()
	}
	if o.fonts == nil {
		o.fonts = font.NewRegistry()
	}
	fp, err := engine.NewFPDF(o.fonts, doc)
	if err != nil {
		return nil, fmt.Errorf("engine: %w", err)
	}
	rec := newRec(fp)
	var buf bytes.Buffer
	var w io.Writer = &buf
	if o.w != nil {
		w = o.w
	}
	err = xpdf.NewProcessor(rec, o.hyph, doc, o.wd).Process(w)
	return &Run{Evs: rec.evs, Pages: fp.CurrentPage(), PDF: buf.Bytes(), Err: err, Doc: doc}, nil
}

// renderXML loads and renders a document which has to be valid.
func renderXML(src string, o renderOpts) (*Run, error) {
	doc, err := xdoc.Load(strings.NewReader(src))
	if err != nil {
		return nil, fmt.Errorf("valid document is not loaded: %w\n%s", err, src)
	}
	run, err := render(doc, o)
	if err != nil {
		return nil, fmt.Errorf("%w\n%s", err, src)
	}
	if run.Err != nil {
		return nil, fmt.Errorf("valid document is not processed: %w\n%s", run.Err, src)
	}
	return run, nil
}

// ------------------------------------------------------------- measuring

var meas struct {
	pdf   *gofpdf.Fpdf
	utf8  map[string]bool
	cache map[measKey]float64
	last  Font
}

type measKey struct {
	f Font
	s string
}

func fontDir() string {
	// directory of the fonts shipped with gofpdf
	dir := os.Getenv("GOMODCACHE")
	if dir == "" {
		dir = "/root/go/pkg/mod"
	}
	return filepath.Join(dir, "github.com/jung-kurt/gofpdf/v2@v2.17.2/font")
}

var dejavuFiles = map[string]string{
	"":   "DejaVuSansCondensed.ttf",
	"B":  "DejaVuSansCondensed-Bold.ttf",
	"I":  "DejaVuSansCondensed-Oblique.ttf",
	"IB": "DejaVuSansCondensed-BoldOblique.ttf",
}

var dejavuStyles = []struct {
	key string
	sty font.Style
}{{"", font.Regular}, {"B", font.Bold}, {"I", font.Italic}, {"IB", font.BoldItalic}}

func dejavuRegistry() *font.Registry {
	reg := font.NewRegistry()
	for _, d := range dejavuStyles {
		reg.Register(font.Descriptor{Name: "DejaVu", Style: d.sty, FilePath: filepath.Join(fontDir(), dejavuFiles[d.key])})
	}
	return reg
}

func measInit() {
	if meas.pdf != nil {
		return
	}
	meas.pdf = gofpdf.New("P", "mm", "A4", "")
	meas.cache = map[measKey]float64{}
	for sty, f := range dejavuFiles {
		bs, err := os.ReadFile(filepath.Join(fontDir(), f))
		if err != nil {
			continue
		}
		meas.pdf.AddUTF8FontFromBytes("DejaVu", strings.Replace(sty, "IB", "BI", 1), bs)
	}
	if meas.pdf.Error() != nil {
		harnessFail("measuring fonts: %v", meas.pdf.Error())
	}
}

// width of s in millimeters
func (f Font) width(s string) float64 {
	measInit()
	f.Deco = ""
	k := measKey{f, s}
	if w, ok := meas.cache[k]; ok {
		return w
	}
	if f != meas.last {
		meas.pdf.SetFont(f.Family, f.gofpdfStyle(), f.Size)
		meas.last = f
	}
	w := meas.pdf.GetStringWidth(s)
	if meas.pdf.Error() != nil {
		harnessFail("measure %v: %v", f, meas.pdf.Error())
	}
	if len(meas.cache) > 200000 {
		meas.cache = map[measKey]float64{}
	}
	meas.cache[k] = w
	return w
}

func (f Font) blank() float64 { return f.width(" ") }

func where() string {
	_, file, line, _ := runtime.Caller(2)
	return fmt.Sprintf("%s:%d", filepath.Base(file), line)
}
