package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/mazzegi/xpdf/xdoc"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------- C29

type toolResult struct {
	code int
	out  string // stdout
	msg  string // stdout and stderr
}

func runTool(dir, name string, args ...string) toolResult {
	cmds := os.Getenv("XPDF_CMDS")
	if cmds == "" {
		harnessFail("XPDF_CMDS is not set")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(cmds, name), args...)
	cmd.Dir = dir
	var out, msg bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &msg
	err := cmd.Run()
	r := toolResult{out: out.String(), msg: out.String() + msg.String()}
	if cmd.ProcessState == nil {
		harnessFail("run %s: %v", name, err)
	}
	r.code = cmd.ProcessState.ExitCode()
	return r
}

type cliCase struct {
	D       Doc
	In      string // name of the input
	InMode  string // how the input is given: relative, absolute, dot
	Out     string // empty: default
	OutMode string // relative, absolute, device
	Old     int    // size of an existing output
	Fault   string
	Cut     int // permille of the input
}

var inNames = []string{"doc.xml", "a.b.xml", "noext", "UPPER.XML", "with blank.xml", "sub/doc.xml", "sub/deep.er/x.y.xpdf", "ü.xml", "doc.pdf.xml", "-x.xml", "x.xml.xml", "xml.xml", "lll.xml"}

var cliFaults = []string{"no input", "input directory", "cut input", "invalid input", "no fontdef", "broken fontdef", "missing font", "bad font", "unknown family", "bad image", "full device", "missing directory", "output directory"}

func genCLI(t *rapid.T) *cliCase {
	p := mixedProfile.with(func(p *Profile) { p.Elems = [2]int{1, 5}; p.UTF8Pct = 15; p.Marginal = 30 })
	c := &cliCase{D: *p.doc(t)}
	g := newGen(t)
	c.In = pick(g, inNames...)
	c.InMode = pick(g, "relative", "relative", "absolute", "dot")
	if g.pct(50) {
		c.Out = pick(g, "out.pdf", "out", "sub/out.pdf", "x y.pdf", "OUT.PDF", "out.xml")
		c.OutMode = pick(g, "relative", "absolute")
	}
	if g.pct(40) {
		c.Old = pick(g, 1, 100, 100000)
	}
	if g.pct(60) {
		c.Fault = pick(g, cliFaults...)
		c.Cut = g.n(0, 999)
	}
	return c
}

func mustWrite(file string, bs []byte) {
	if err := os.MkdirAll(filepath.Dir(file), 0o755); err != nil {
		harnessFail("%v", err)
	}
	if err := os.WriteFile(file, bs, 0o644); err != nil {
		harnessFail("%v", err)
	}
}

func fontdefTOML(utf8 bool) string {
	if !utf8 {
		return "MonoFont = \"Courier\"\n"
	}
	var sb strings.Builder
	sb.WriteString("MonoFont = \"DejaVu\"\n[[Fonts]]\nName = \"DejaVu\"\n")
	for _, s := range dejavuStyles {
		fmt.Fprintf(&sb, "[[Fonts.StyleDefinitions]]\nStyle = %q\nFilePath = %q\n", string(s.sty), filepath.Join(fontDir(), dejavuFiles[s.key]))
	}
	return sb.String()
}

func samePDF(a, b *PDF) error {
	if len(a.Pages) != len(b.Pages) {
		return fmt.Errorf("%d pages instead of %d", len(b.Pages), len(a.Pages))
	}
	for i := range a.Pages {
		if a.Pages[i].W != b.Pages[i].W || a.Pages[i].H != b.Pages[i].H {
			return fmt.Errorf("page %d has another size", i+1)
		}
	}
	for i := range a.Evs {
		if i >= len(b.Evs) || a.Evs[i].String() != b.Evs[i].String() {
			have := "nothing"
			if i < len(b.Evs) {
				have = b.Evs[i].String()
			}
			return fmt.Errorf("%s instead of %s", have, a.Evs[i])
		}
	}
	if len(b.Evs) > len(a.Evs) {
		return fmt.Errorf("additionally %s", b.Evs[len(a.Evs)])
	}
	return nil
}

func checkCLI(c *cliCase, st *Stats) error {
	top, done := scratch()
	defer done()
	wd := c.D.materialize(top) // the current directory of the tool
	d := c.D
	switch c.Fault {
	case "unknown family":
		d.Body = append(append([]*Node{}, d.Body...), &Node{El: "text", Style: []Decl{{"font-family", "nosuchfont"}}, Kids: []*Node{{El: "#text", Text: "x"}}})
	case "bad image":
		name := placeImage(wd, "png16", "unusable")
		d.Body = append(append([]*Node{}, d.Body...), &Node{El: "newpage"}, &Node{El: "image", Text: name, Style: []Decl{{"width", "10"}}})
	case "invalid input":
		d.Body = append(append([]*Node{}, d.Body...), &Node{El: "lf", Attr: [][2]string{{"lines", "many"}}})
	}
	src := d.XML()
	in := filepath.Join(wd, c.In)
	os.MkdirAll(filepath.Dir(in), 0o755)
	switch c.Fault {
	case "no input":
	case "input directory":
		os.MkdirAll(in, 0o755)
	case "cut input":
		end := strings.LastIndex(src, "</document>") + len("</document>") - 1
		mustWrite(in, []byte(src[:c.Cut*end/1000]))
	default:
		mustWrite(in, []byte(src))
	}
	def := filepath.Join(wd, "fonts", "fontdef.toml")
	switch c.Fault {
	case "no fontdef":
	case "broken fontdef":
		mustWrite(def, []byte(pickStr(c.Cut, "[[Fonts]\n", "Fonts = 5\n", "MonoFont = [1]\n", "x = \n", "MonoFont = \"a\nb\"\n")))
	case "missing font":
		mustWrite(def, []byte("[[Fonts]]\nName = \"Other\"\n[[Fonts.StyleDefinitions]]\nStyle = \"regular\"\nFilePath = \"nosuchfile.ttf\"\n"))
	case "bad font":
		mustWrite(filepath.Join(wd, "fonts", "bad.ttf"), []byte("this is no font"))
		mustWrite(def, []byte("[[Fonts]]\nName = \"Other\"\n[[Fonts.StyleDefinitions]]\nStyle = \"regular\"\nFilePath = \"bad.ttf\"\n"))
	default:
		mustWrite(def, []byte(fontdefTOML(d.UTF8)))
	}
	arg := c.In
	switch c.InMode {
	case "absolute":
		arg = in
	case "dot":
		arg = "./" + c.In
	}
	args := []string{arg}
	base := filepath.Base(c.In)
	out := filepath.Join(wd, strings.TrimSuffix(base, filepath.Ext(base))+".pdf")
	if c.Out != "" {
		out = filepath.Join(wd, c.Out)
		switch c.OutMode {
		case "absolute":
			args = append(args, out)
		default:
			args = append(args, c.Out)
		}
	}
	os.MkdirAll(filepath.Dir(out), 0o755)
	switch c.Fault {
	case "full device":
		args = []string{arg, "/dev/full"}
	case "missing directory":
		args = []string{arg, filepath.Join("no", "such", "dir", "out.pdf")}
	case "output directory":
		os.MkdirAll(filepath.Join(wd, "outdir"), 0o755)
		args = []string{arg, "outdir"}
	default:
		if c.Old > 0 {
			mustWrite(out, bytes.Repeat([]byte("x"), c.Old))
		}
	}
	before := listFiles(wd)
	r := runTool(wd, "xpdf", args...)
	st.NonTrivial()
	if c.Fault != "" {
		st.Class(c.Fault)
		if r.code == 0 {
			return fmt.Errorf("xpdf %v exits with 0 in spite of %s\n%s\n%s", args, c.Fault, r.msg, src)
		}
		if r.code == -1 || strings.Contains(r.msg, "goroutine ") {
			return fmt.Errorf("xpdf %v crashes with %s\n%s\n%s", args, c.Fault, r.msg, src)
		}
		if strings.TrimSpace(r.msg) == "" {
			return fmt.Errorf("xpdf %v fails with %s without a message", args, c.Fault)
		}
		return nil
	}
	st.Class("success")
	if r.code != 0 {
		return fmt.Errorf("xpdf %v exits with %d: %s\n%s", args, r.code, clip(r.msg, 2000), src)
	}
	bs, err := os.ReadFile(out)
	if err != nil {
		return fmt.Errorf("xpdf %v has not written its output: %w", args, err)
	}
	have, err := parsePDF(bs)
	if err != nil {
		return fmt.Errorf("output of xpdf %v is no well-formed PDF: %w\n%s", args, err, src)
	}
	for f := range listFiles(wd) {
		if !before[f] && f != out {
			return fmt.Errorf("xpdf %v has written %s additionally", args, f)
		}
	}
	run, err := renderXML(src, renderOpts{fonts: d.fonts(), wd: wd})
	if err != nil {
		return err
	}
	want, err := parsePDF(run.PDF)
	if err != nil {
		return err
	}
	if err := samePDF(want, have); err != nil {
		return fmt.Errorf("output of xpdf %v: %w\n%s", args, err, src)
	}
	return nil
}

func pickStr(i int, ss ...string) string { return ss[i%len(ss)] }

func listFiles(dir string) map[string]bool {
	m := map[string]bool{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			m[p] = true
		}
		return nil
	})
	return m
}

type describeCase struct {
	Src   string
	In    string
	Fault string
}

func genDescribeTool(t *rapid.T) *describeCase {
	g := newTreeGen(t)
	w := &xmlWriter{gen: g.gen, plain: g.pct(50)}
	c := &describeCase{In: pick(g.gen, inNames...)}
	var end int
	c.Src, end = w.document(genTree(g))
	switch g.n(0, 3) {
	case 0:
		c.Fault = "cut input"
		c.Src = c.Src[:g.n(0, end-1)]
	case 1:
		f := genInvalid(t)
		c.Fault, c.Src = f.What, f.Src
	case 2:
		if g.pct(30) {
			c.Fault = "no input"
		}
	}
	return c
}

func checkDescribeTool(c *describeCase, st *Stats) error {
	dir, done := scratch()
	defer done()
	if c.Fault != "no input" {
		mustWrite(filepath.Join(dir, c.In), []byte(c.Src))
	}
	r := runTool(dir, "describe", c.In)
	st.NonTrivial()
	if c.Fault != "" {
		st.Class("fault")
		if r.code == 0 {
			return fmt.Errorf("describe exits with 0 in spite of %s\n%s", c.Fault, c.Src)
		}
		if r.code == -1 || strings.Contains(r.msg, "goroutine ") || strings.TrimSpace(r.msg) == "" {
			return fmt.Errorf("describe exits with %d and message %q for %s\n%s", r.code, clip(r.msg, 2000), c.Fault, c.Src)
		}
		return nil
	}
	st.Class("success")
	doc, err := xdoc.Load(strings.NewReader(c.Src))
	if err != nil {
		return fmt.Errorf("well-formed document is not loaded: %w\n%s", err, c.Src)
	}
	want := xdoc.Describe(doc).Dump(xdoc.DescribeXML)
	if r.code != 0 || strings.TrimSpace(r.out) != strings.TrimSpace(want) {
		return fmt.Errorf("describe exits with %d and prints\n%s\ninstead of\n%s\n%s", r.code, r.msg, want, c.Src)
	}
	return nil
}

type imageToolCase struct {
	Kind string // of image file
	W, H int
	Name string
}

func genImageTool(t *rapid.T) *imageToolCase {
	g := newGen(t)
	return &imageToolCase{Kind: pick(g, "png", "jpg", "gif", "png", "jpg", "gif", "text", "empty", "directory", "missing", "cut", "none"),
		W: g.n(1, 300), H: g.n(1, 300), Name: pick(g, "x.png", "x.jpg", "photo", "sub/a b.gif", "ü.jpeg")}
}

func checkImageTool(c *imageToolCase, st *Stats) error {
	dir, done := scratch()
	defer done()
	f := filepath.Join(dir, c.Name)
	os.MkdirAll(filepath.Dir(f), 0o755)
	ok := false
	args := []string{c.Name}
	switch c.Kind {
	case "png", "jpg", "gif":
		mustWrite(f, imageFile("a."+c.Kind, c.W, c.H))
		ok = true
	case "text":
		mustWrite(f, []byte("this is no image at all"))
	case "empty":
		mustWrite(f, nil)
	case "directory":
		os.MkdirAll(f, 0o755)
	case "cut":
		mustWrite(f, imageFile("a.png", c.W, c.H)[:20])
	case "none":
		args = nil
	}
	r := runTool(dir, "image", args...)
	st.NonTrivial()
	st.Class("image " + c.Kind)
	if !ok {
		if r.code <= 0 || strings.TrimSpace(r.msg) == "" || strings.Contains(r.msg, "goroutine ") {
			return fmt.Errorf("image exits with %d and message %q for %s", r.code, r.msg, c.Kind)
		}
		return nil
	}
	format := map[string]string{"png": "png", "jpg": "jpeg", "gif": "gif"}[c.Kind]
	if r.code != 0 {
		return fmt.Errorf("image exits with %d for a %s file: %s", r.code, c.Kind, r.msg)
	}
	for _, want := range []string{format, fmt.Sprintf("w=%d,", c.W), fmt.Sprintf("h=%d\n", c.H), fmt.Sprintf("%q", c.Name)} {
		if !strings.Contains(r.out, want) {
			return fmt.Errorf("image prints %q without %q", r.out, want)
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C29", Rule: "the built command line tools are run in scratch directories on random documents and images with random names, paths, outputs and one of the faults listed in the classes; the output is compared with a rendering or description by the library; non-trivial: every run",
		Subs: []*Sub{
			sub("xpdf", 2400, 50000, genCLI, checkCLI),
			sub("describe", 1000, 40000, genDescribeTool, checkDescribeTool),
			sub("image", 400, 10000, genImageTool, checkImageTool),
		}})
}
