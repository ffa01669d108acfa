From e44c5331cd6b5fb0a1b37e8627a9305979fda446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 01/45] fix: hyphenation must not drop a trailing letter nor
 cut characters

Words were indexed by runes for the weights but sliced by bytes, so non-ASCII
words were cut within a character, and a single letter behind the last
division was dropped. Work on rune offsets and demand two letters on either
side of a division.
---
 hyphenation/hyphenation.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/hyphenation/hyphenation.go b/hyphenation/hyphenation.go
index bea782f..15b017e 100644
--- a/hyphenation/hyphenation.go
+++ b/hyphenation/hyphenation.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"os"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/pkg/errors"
 )
@@ -36,7 +37,7 @@ func new(pl *patternLookup) *Hyphenator {
 }
 
 func (h *Hyphenator) Hyphenate(s string) []string {
-	if len(s) < 3 {
+	if utf8.RuneCountInString(s) < 3 {
 		//don't hyphenate words with less than 3 runes
 		return []string{s}
 	}
@@ -63,22 +64,26 @@ func (h *Hyphenator) Hyphenate(s string) []string {
 		}
 	}
 
+	//byte offset of each rune, as a part must never cut a rune
+	offsets := make([]int, 0, len(s))
+	for off := range s {
+		offsets = append(offsets, off)
+	}
+	runeCount := len(offsets)
+
 	sl := []string{}
 	var last int
 	//skip first and last for the dots (.).
 	//skip next to first and prev. to last for start and end of word
 	for i, w := range ws[2 : len(ws)-2] {
 		if w%2 == 1 {
-			part := s[last : i+1]
-			if len(part) > 1 {
-				sl = append(sl, part)
+			//each part must have at least 2 runes, also the remaining one
+			if i+1-last > 1 && runeCount-(i+1) > 1 {
+				sl = append(sl, s[offsets[last]:offsets[i+1]])
 				last = i + 1
 			}
 		}
 	}
-	part := s[last:]
-	if len(part) > 1 {
-		sl = append(sl, part)
-	}
+	sl = append(sl, s[offsets[last]:])
 	return sl
 }
-- 
2.43.0


From 56385278a28c5c521e1ff58629bd3af5dd463d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 02/45] fix: a forced break ends the current paragraph of
 justified text

The line before the one that ends with the break was marked instead, so it
lost its justification and the last line was stretched.
---
 text-hyph.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index e43ad4d..b3d11cc 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -38,10 +38,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 		var isitem *textItem
 		switch is := is.(type) {
 		case *xdoc.LineBreak:
-			if len(lines) > 0 {
-				lines[len(lines)-1].paragraph = true
-			}
-
+			curr.paragraph = true
 			lines = append(lines, curr)
 			curr = textLine{}
 			continue
-- 
2.43.0


From 8ffe4c1aa43128c91a15d71b5950da57509c964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 03/45] fix: skip white space between elements of justified
 text

As in left-aligned text: an empty item adds a gap or a line of its own.
---
 text-hyph.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index b3d11cc..86032b1 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -55,6 +55,9 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 		default:
 			continue
 		}
+		if isitem.text == "" {
+			continue
+		}
 
 		p.changeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
-- 
2.43.0


From 69e5b07069849066760b4e9573507ad40eb6ca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 04/45] fix: no blank line before a word wider than its line

The word was moved to the next line even if the current one was still empty.
---
 text-hyph.go | 6 ++++--
 text.go      | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index 86032b1..f371f2f 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -72,8 +72,10 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 				//try hyphenation
 				s1, s2, ok := tryHyphenate(item.text, curr.width)
 				if !ok {
-					lines = append(lines, curr)
-					curr = textLine{}
+					if len(curr.items) > 0 {
+						lines = append(lines, curr)
+						curr = textLine{}
+					}
 				} else {
 					curr.items = append(curr.items, &textItem{
 						text: s1,
diff --git a/text.go b/text.go
index 773dd4d..d04fbfb 100644
--- a/text.go
+++ b/text.go
@@ -62,7 +62,7 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 				text: word,
 			}
 			itemWidth := p.engine.TextWidth(" " + item.text)
-			if curr.width+itemWidth >= width {
+			if len(curr.items) > 0 && curr.width+itemWidth >= width {
 				lines = append(lines, curr)
 				curr = textLine{}
 			}
-- 
2.43.0


From 7187ff541779f8bdcb634085eb780a2cf07b0dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 05/45] fix: no blank before a divided word at the start of a
 line

---
 text-hyph.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index f371f2f..d108f27 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -77,6 +77,9 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 						curr = textLine{}
 					}
 				} else {
+					if len(curr.items) == 0 {
+						s1 = strings.TrimLeft(s1, " ")
+					}
 					curr.items = append(curr.items, &textItem{
 						text: s1,
 						sty:  item.sty,
-- 
2.43.0


From 136b2545ce65262156838e839217f43a1cabe7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 06/45] fix: line pitch and text height follow the largest font
 of each line

Lines were measured with whatever font was used last, so a text mixing font
sizes overlapped and overflowed its box or cell. Also a text of white space
only had a negative height; it now has the height of one line.
---
 text-hyph.go |  6 ++----
 text.go      | 39 +++++++++++++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index d108f27..dfd7932 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -112,10 +112,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 
 func (p *Processor) textHeightHyphenated(iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
 	p.engine.ChangeFont(sty.Font)
-	lines := p.textLinesHyphenated(iss, width, sty)
-	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
-	//subtract line-spacing, to have no space below the last line
-	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
+	return p.linesHeight(p.textLinesHyphenated(iss, width, sty), sty)
 }
 
 func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, sty style.Styles) {
@@ -141,6 +138,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 				p.engine.SetX(cx + spaceWidth)
 			}
 		}
+		p.changeToLargestFont(line, sty)
 		p.engine.LineFeed(sty.LineSpacing)
 	}
 }
diff --git a/text.go b/text.go
index d04fbfb..a02e487 100644
--- a/text.go
+++ b/text.go
@@ -80,12 +80,42 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 	return lines
 }
 
+// changeToLargestFont selects the largest font used in line, as this one determines the height of the line
+func (p *Processor) changeToLargestFont(line textLine, sty style.Styles) {
+	if len(line.items) == 0 {
+		p.engine.ChangeFont(sty.Font)
+		return
+	}
+	largest := line.items[0].sty.Font
+	for _, item := range line.items[1:] {
+		if item.sty.Font.PointSize > largest.PointSize {
+			largest = item.sty.Font
+		}
+	}
+	p.engine.ChangeFont(largest)
+}
+
+func (p *Processor) linesHeight(lines []textLine, sty style.Styles) float64 {
+	if len(lines) == 0 {
+		p.engine.ChangeFont(sty.Font)
+		return p.engine.FontHeight()
+	}
+	var height float64
+	for i, line := range lines {
+		p.changeToLargestFont(line, sty)
+		if i < len(lines)-1 {
+			height += p.engine.FontHeight() * sty.Dimension.LineSpacing
+		} else {
+			//no line-spacing, to have no space below the last line
+			height += p.engine.FontHeight()
+		}
+	}
+	return height
+}
+
 func (p *Processor) textHeight(iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
 	p.engine.ChangeFont(sty.Font)
-	lines := p.textLines(iss, width, sty)
-	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
-	//subtract line-spacing, to have no space below the last line
-	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
+	return p.linesHeight(p.textLines(iss, width, sty), sty)
 }
 
 func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.Styles) {
@@ -106,6 +136,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 			p.changeFont(item.sty.Font)
 			p.engine.WriteText(item.text)
 		}
+		p.changeToLargestFont(line, sty)
 		p.engine.LineFeed(sty.LineSpacing)
 	}
 }
-- 
2.43.0


From c75c58338c77f223a211a9d24c0716ade3876170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 07/45] fix: fonts of texts, paragraphs, boxes and cells do not
 leak

Measuring or writing a text stored its font as the current style, so it was
inherited by all following elements. Only the boxes inside of a cell
inherit a font, namely the one of the cell.
---
 table.go     | 5 +++++
 text-hyph.go | 6 +++---
 text.go      | 4 ++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/table.go b/table.go
index 7f9a8eb..b50498d 100644
--- a/table.go
+++ b/table.go
@@ -417,6 +417,11 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 	}
 
 	p.engine.SetX(paddedPa.x0)
+	//inner boxes use the font of the cell
+	defer func(fnt style.Font) {
+		p.currStyles.Font = fnt
+	}(p.currStyles.Font)
+	p.currStyles.Font = cell.Font
 	for _, is := range cell.iss {
 		switch is := is.(type) {
 		case *xdoc.Box:
diff --git a/text-hyph.go b/text-hyph.go
index dfd7932..5aaeb6c 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -59,7 +59,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 			continue
 		}
 
-		p.changeFont(isitem.sty.Font)
+		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
 			item := &textItem{
@@ -125,14 +125,14 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 		spaceCnt := len(line.items) - 1
 		if spaceCnt < 1 || line.paragraph {
 			for _, item := range line.items {
-				p.changeFont(item.sty.Font)
+				p.engine.ChangeFont(item.sty.Font)
 				p.engine.WriteText(item.text)
 			}
 		} else {
 			//subtract another 0.1 to avoid page breaks on equal widths
 			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
 			for _, item := range line.items {
-				p.changeFont(item.sty.Font)
+				p.engine.ChangeFont(item.sty.Font)
 				p.engine.WriteText(strings.Trim(item.text, " "))
 				cx, _ := p.engine.GetXY()
 				p.engine.SetX(cx + spaceWidth)
diff --git a/text.go b/text.go
index a02e487..145dbce 100644
--- a/text.go
+++ b/text.go
@@ -54,7 +54,7 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 			continue
 		}
 
-		p.changeFont(isitem.sty.Font)
+		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
 			item := &textItem{
@@ -133,7 +133,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 			p.engine.SetX(xLeft + width - line.width)
 		}
 		for _, item := range line.items {
-			p.changeFont(item.sty.Font)
+			p.engine.ChangeFont(item.sty.Font)
 			p.engine.WriteText(item.text)
 		}
 		p.changeToLargestFont(line, sty)
-- 
2.43.0


From eef42788247704c9edd0da0bd3686c987dcd4663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 08/45] fix: paragraphs are printed in their own text color

---
 text-hyph.go | 3 ++-
 text.go      | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index 5aaeb6c..9b468ca 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -117,7 +117,6 @@ func (p *Processor) textHeightHyphenated(iss []xdoc.Instruction, width float64,
 
 func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, sty style.Styles) {
 	p.engine.ChangeFont(sty.Font)
-	p.engine.SetTextColor(sty.Text.Values())
 	lines := p.textLinesHyphenated(iss, width, sty)
 	xLeft, _ := p.engine.GetXY()
 	for _, line := range lines {
@@ -126,6 +125,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 		if spaceCnt < 1 || line.paragraph {
 			for _, item := range line.items {
 				p.engine.ChangeFont(item.sty.Font)
+				p.engine.SetTextColor(item.sty.Text.Values())
 				p.engine.WriteText(item.text)
 			}
 		} else {
@@ -133,6 +133,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
 			for _, item := range line.items {
 				p.engine.ChangeFont(item.sty.Font)
+				p.engine.SetTextColor(item.sty.Text.Values())
 				p.engine.WriteText(strings.Trim(item.text, " "))
 				cx, _ := p.engine.GetXY()
 				p.engine.SetX(cx + spaceWidth)
diff --git a/text.go b/text.go
index 145dbce..936a67f 100644
--- a/text.go
+++ b/text.go
@@ -120,7 +120,6 @@ func (p *Processor) textHeight(iss []xdoc.Instruction, width float64, sty style.
 
 func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.Styles) {
 	p.engine.ChangeFont(sty.Font)
-	p.engine.SetTextColor(sty.Text.Values())
 	lines := p.textLines(iss, width, sty)
 	xLeft, _ := p.engine.GetXY()
 	for _, line := range lines {
@@ -134,6 +133,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 		}
 		for _, item := range line.items {
 			p.engine.ChangeFont(item.sty.Font)
+			p.engine.SetTextColor(item.sty.Text.Values())
 			p.engine.WriteText(item.text)
 		}
 		p.changeToLargestFont(line, sty)
-- 
2.43.0


From dc1e4d32feaace0085de44096c7f198054a5eb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 09/45] fix: header and footer neither depend on nor change the
 state of the body

A font instruction in a header or footer stayed in effect for the body, a
footer started at the column the body happened to break at, and line feeds
in a header used the font of the interrupted text.
---
 process.go | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/process.go b/process.go
index b523714..d46015a 100644
--- a/process.go
+++ b/process.go
@@ -51,24 +51,10 @@ func (p *Processor) Process(w io.Writer) error {
 	//TODO: make page-count and current-page aliases options
 	p.engine.SetPageCountAlias("{np}")
 	p.engine.OnHeader(func() {
-		x, y := p.engine.GetXY()
-		p.preventPageBreak = true
-		defer func() {
-			p.engine.SetX(x)
-			p.engine.SetY(y)
-			p.preventPageBreak = false
-		}()
-		p.processInstructions(p.doc.Header)
+		p.processMarginal(p.doc.Header)
 	})
 	p.engine.OnFooter(func() {
-		x, y := p.engine.GetXY()
-		p.preventPageBreak = true
-		defer func() {
-			p.engine.SetX(x)
-			p.engine.SetY(y)
-			p.preventPageBreak = false
-		}()
-		p.processInstructions(p.doc.Footer)
+		p.processMarginal(p.doc.Footer)
 	})
 
 	//Change font to initial default font
@@ -117,6 +103,24 @@ func (p *Processor) resetStyles() {
 	p.engine.SetTextColor(p.currStyles.Text.R, p.currStyles.Text.G, p.currStyles.Text.B)
 }
 
+// processMarginal processes a header or footer, which starts at the left margin
+// and leaves the position and the styles of the body untouched
+func (p *Processor) processMarginal(is xdoc.Instructions) {
+	x, y := p.engine.GetXY()
+	styles := p.currStyles
+	p.preventPageBreak = true
+	defer func() {
+		p.engine.SetX(x)
+		p.engine.SetY(y)
+		p.currStyles = styles
+		p.preventPageBreak = false
+	}()
+	left, _, _, _ := p.engine.Margins()
+	p.engine.SetX(left)
+	p.resetStyles()
+	p.processInstructions(is)
+}
+
 func (p *Processor) processInstructions(is xdoc.Instructions) {
 	for _, i := range is.ISS {
 		switch i := i.(type) {
-- 
2.43.0


From 77e118ac5616f9f46b8000e5e46c00c2b819f9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 10/45] fix: ignore page breaks in header and footer

They started a page from within starting a page, and overflowed the stack.
---
 process.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index d46015a..bbaa90b 100644
--- a/process.go
+++ b/process.go
@@ -143,7 +143,10 @@ func (p *Processor) processInstructions(is xdoc.Instructions) {
 		case *xdoc.Grid:
 			p.renderGrid(i, p.page().printableArea)
 		case *xdoc.PageBreak:
-			p.engine.AddPage()
+			//a page-break in a header or footer would recurse endlessly
+			if !p.preventPageBreak {
+				p.engine.AddPage()
+			}
 		}
 	}
 }
-- 
2.43.0


From 279dd8c4cddde23ee0023ea85c3951d5bf57c7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 11/45] fix: boxes break by their full height, end at the left
 margin, and are one line if empty

The page-break decision ignored padding and offset, so boxes crossed the bottom
margin. A box without text left the cursor at its inner left edge and took its
height from the font used last instead of its own.
---
 process.go | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/process.go b/process.go
index bbaa90b..bf6d51f 100644
--- a/process.go
+++ b/process.go
@@ -162,21 +162,15 @@ func (p *Processor) renderText(text *xdoc.Text) {
 	p.writeTextFnc(sty)(text.ISS, width, sty)
 }
 
+// textBoxHeight returns the height of the content of the box without padding
 func (p *Processor) textBoxHeight(box *xdoc.Box, pa PrintableArea) float64 {
 	defer p.resetStyles()
 	sty := box.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
-	width := pa.EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right
-	var height float64
-	if sty.Dimension.Height <= 0 {
-		if len(box.ISS) == 0 {
-			height = p.engine.FontHeight()
-		} else {
-			height = p.textHeightFnc(sty)(box.ISS, width, sty)
-		}
-	} else {
-		height = sty.Dimension.Height
+	if sty.Dimension.Height > 0 {
+		return sty.Dimension.Height
 	}
-	return height
+	width := pa.EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right
+	return p.textHeightFnc(sty)(box.ISS, width, sty)
 }
 
 func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
@@ -184,28 +178,19 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	sty := box.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
 
 	width := pa.EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right
-	var height float64
-	if sty.Dimension.Height <= 0 {
-		if len(box.ISS) > 0 {
-			height = p.textHeightFnc(sty)(box.ISS, width, sty)
-		} else {
-			height = p.engine.FontHeight()
-		}
-	} else {
-		height = sty.Dimension.Height
-	}
+	height := p.textBoxHeight(box, pa) + sty.Box.Padding.Top + sty.Box.Padding.Bottom
 
 	x0, y0 := p.engine.GetXY()
-	_, _, _, bm := p.engine.Margins()
+	lm, _, _, bm := p.engine.Margins()
 	effHeight := p.engine.PageHeight() - bm
-	if !p.preventPageBreak && y0+height >= effHeight {
+	if !p.preventPageBreak && y0+sty.Dimension.OffsetY+height > effHeight {
 		p.engine.AddPage()
 		x0, y0 = p.engine.GetXY()
 	}
 
 	x0 += sty.Dimension.OffsetX
 	y0 += sty.Dimension.OffsetY
-	y1 := y0 + height + sty.Box.Padding.Top + sty.Box.Padding.Bottom
+	y1 := y0 + height
 	x1 := x0 + width + sty.Padding.Left + sty.Padding.Right
 	p.drawBox(x0, y0, x1, y1, sty)
 
@@ -214,6 +199,7 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	if len(box.ISS) > 0 {
 		p.writeTextFnc(sty)(box.ISS, width, sty)
 	}
+	p.engine.SetX(lm)
 	p.engine.SetY(y1)
 }
 
-- 
2.43.0


From e5f1bd886f3818c36d0a432b5b22d9b8210d46b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 12/45] fix: vertical alignment and position of boxes and
 justified text in cells

Boxes were moved down by their own height instead of into the free space, a
second box lost the left edge of the cell, and justified text was aligned by
the height it would have without justification.
---
 process.go |  8 +++++++-
 table.go   | 18 ++++++++++--------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/process.go b/process.go
index bf6d51f..5bb15ca 100644
--- a/process.go
+++ b/process.go
@@ -173,12 +173,18 @@ func (p *Processor) textBoxHeight(box *xdoc.Box, pa PrintableArea) float64 {
 	return p.textHeightFnc(sty)(box.ISS, width, sty)
 }
 
+// textBoxOuterHeight returns the height of the box including padding
+func (p *Processor) textBoxOuterHeight(box *xdoc.Box, pa PrintableArea) float64 {
+	sty := box.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
+	return p.textBoxHeight(box, pa) + sty.Box.Padding.Top + sty.Box.Padding.Bottom
+}
+
 func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	defer p.resetStyles()
 	sty := box.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
 
 	width := pa.EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right
-	height := p.textBoxHeight(box, pa) + sty.Box.Padding.Top + sty.Box.Padding.Bottom
+	height := p.textBoxOuterHeight(box, pa)
 
 	x0, y0 := p.engine.GetXY()
 	lm, _, _, bm := p.engine.Margins()
diff --git a/table.go b/table.go
index b50498d..329b005 100644
--- a/table.go
+++ b/table.go
@@ -401,7 +401,7 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 
 	paddedPa := pa.WithPadding(cell.Padding)
 	if len(cell.iss) > 0 {
-		textHeight := p.textHeight(cell.iss, paddedPa.Width(), cell.Styles)
+		textHeight := p.textHeightFnc(cell.Styles)(cell.iss, paddedPa.Width(), cell.Styles)
 		textMargin := paddedPa.Height() - textHeight
 		switch cell.VAlign {
 		case style.VAlignMiddle:
@@ -416,21 +416,23 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 		p.writeTextFnc(cell.Styles)(cell.iss, pa.Width()-cell.Padding.Left-cell.Padding.Right, cell.Styles)
 	}
 
-	p.engine.SetX(paddedPa.x0)
-	//inner boxes use the font of the cell
-	defer func(fnt style.Font) {
+	//inner boxes use the font of the cell, and cannot leave it for another page
+	defer func(fnt style.Font, prevent bool) {
 		p.currStyles.Font = fnt
-	}(p.currStyles.Font)
+		p.preventPageBreak = prevent
+	}(p.currStyles.Font, p.preventPageBreak)
 	p.currStyles.Font = cell.Font
+	p.preventPageBreak = true
 	for _, is := range cell.iss {
+		p.engine.SetX(paddedPa.x0)
 		switch is := is.(type) {
 		case *xdoc.Box:
-			height := p.textBoxHeight(is, paddedPa)
+			boxMargin := paddedPa.Height() - p.textBoxOuterHeight(is, paddedPa)
 			switch cell.VAlign {
 			case style.VAlignMiddle:
-				p.engine.SetY(paddedPa.y0 + height/2)
+				p.engine.SetY(paddedPa.y0 + boxMargin/2)
 			case style.VAlignBottom:
-				p.engine.SetY(paddedPa.y0 + height)
+				p.engine.SetY(paddedPa.y0 + boxMargin)
 			default: //style.VAlignTop:
 				p.engine.SetY(paddedPa.y0)
 			}
-- 
2.43.0


From 32325fce1a42ab220167eb9856d48dd3aa9c8eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 13/45] fix: table rows are high enough for the boxes in their
 cells

---
 table.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 329b005..92fb498 100644
--- a/table.go
+++ b/table.go
@@ -252,9 +252,12 @@ func (p *Processor) assignCellMinHeight(cell *tableCell) {
 	}
 	availableWidth -= cell.Padding.Left + cell.Padding.Right
 
-	textHeight := p.textHeightFnc(cell.Styles)(cell.iss, availableWidth, cell.Styles)
+	contentHeight := p.textHeightFnc(cell.Styles)(cell.iss, availableWidth, cell.Styles)
+	if h := p.innerBoxesHeight(cell, availableWidth); h > contentHeight {
+		contentHeight = h
+	}
 
-	cellHeight := textHeight + cell.Padding.Top + cell.Padding.Bottom
+	cellHeight := contentHeight + cell.Padding.Top + cell.Padding.Bottom
 
 	// if cell spans rows, divide height to spanned cells
 	heightPerCell := cellHeight / float64(1+len(cell.spansRows))
@@ -264,6 +267,27 @@ func (p *Processor) assignCellMinHeight(cell *tableCell) {
 	}
 }
 
+// innerBoxesHeight returns the height the cell needs to enclose the boxes inside of it
+func (p *Processor) innerBoxesHeight(cell *tableCell, width float64) float64 {
+	defer func(fnt style.Font) {
+		p.currStyles.Font = fnt
+	}(p.currStyles.Font)
+	p.currStyles.Font = cell.Font
+
+	var max float64
+	for _, is := range cell.iss {
+		box, ok := is.(*xdoc.Box)
+		if !ok {
+			continue
+		}
+		sty := box.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
+		if h := sty.OffsetY + p.textBoxOuterHeight(box, PrintableArea{x1: width}); h > max {
+			max = h
+		}
+	}
+	return max
+}
+
 func (p *Processor) assignHeights(tab *table) {
 	for _, row := range tab.rows {
 		for _, cell := range row.cells {
-- 
2.43.0


From 4cdc51173580ed1a5dc0a753d5b6f4515573ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 14/45] fix: cells spanning rows and columns reserve all their
 slots in the rows below

Only one cell per row was reserved, and reserved cells were shifted when
several spans crossed a row, so cells overlapped or left their column.
---
 table.go | 70 ++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/table.go b/table.go
index 92fb498..62e2a14 100644
--- a/table.go
+++ b/table.go
@@ -2,6 +2,7 @@ package xpdf
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/mazzegi/xpdf/style"
@@ -191,46 +192,61 @@ func (t *table) processColumnSpans() {
 }
 
 func (t *table) processRowSpans() {
-	for ir, row := range t.rows {
-		for ic, cell := range row.cells {
+	//cells by row index, which are spanned by cells of the rows above
+	spanned := map[int][]*tableCell{}
+	for ir := 0; ir < len(t.rows); ir++ {
+		t.rows[ir].mergeSpanned(spanned[ir])
+		for ic, cell := range t.rows[ir].cells {
 			if cell.rowSpan <= 1 {
 				continue
 			}
 			if cell.spannedBy != nil || cell.zero {
 				continue
 			}
-			//insert spanned cell in following rows
-			for n := 0; n < cell.rowSpan-1; n++ {
-				spannedRowIdx := ir + 1 + n
-
-				var spannedRow *tableRow
-				if spannedRowIdx >= len(t.rows) {
-					spannedRow = &tableRow{}
-					t.rows = append(t.rows, spannedRow)
-				} else {
-					spannedRow = t.rows[spannedRowIdx]
-				}
-				for ic > len(spannedRow.cells) {
-					spannedRow.cells = append(spannedRow.cells, &tableCell{
-						zero: true,
-					})
+			//put spanned cells, as wide as the spanning one, into the following rows
+			for n := 1; n < cell.rowSpan; n++ {
+				if ir+n >= len(t.rows) {
+					t.rows = append(t.rows, &tableRow{})
 				}
-
-				newCell := &tableCell{
-					spannedBy: cell,
+				for c := 0; c <= len(cell.spansCols); c++ {
+					newCell := &tableCell{
+						spannedBy: cell,
+						cellIdx:   ic + c,
+					}
+					if c == 0 {
+						cell.spansRows = append(cell.spansRows, newCell)
+					}
+					spanned[ir+n] = append(spanned[ir+n], newCell)
 				}
-				cell.spansRows = append(cell.spansRows, newCell)
-
-				newCells := make([]*tableCell, ic)
-				copy(newCells, spannedRow.cells[:ic])
-				newCells = append(newCells, newCell)
-				newCells = append(newCells, spannedRow.cells[ic:]...)
-				spannedRow.cells = newCells
 			}
 		}
 	}
 }
 
+// mergeSpanned inserts the spanned cells at their columns and moves the other cells to the right
+func (row *tableRow) mergeSpanned(spanned []*tableCell) {
+	sort.SliceStable(spanned, func(i, j int) bool {
+		return spanned[i].cellIdx < spanned[j].cellIdx
+	})
+	cells := []*tableCell{}
+	own := row.cells
+	for len(own) > 0 || len(spanned) > 0 {
+		switch {
+		case len(spanned) > 0 && spanned[0].cellIdx <= len(cells):
+			cells = append(cells, spanned[0])
+			spanned = spanned[1:]
+		case len(own) > 0:
+			cells = append(cells, own[0])
+			own = own[1:]
+		default:
+			cells = append(cells, &tableCell{
+				zero: true,
+			})
+		}
+	}
+	row.cells = cells
+}
+
 func (t *table) processSpans() {
 	t.processColumnSpans()
 	t.processRowSpans()
-- 
2.43.0


From b30557559704379ca2a394b8f6e5411803863d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 15/45] fix: a line mixing font sizes is not torn apart at the
 end of a page

Only the items too high for the rest of the page moved to the next one.
---
 text-hyph.go |  1 +
 text.go      | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index 9b468ca..ebfaf49 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -120,6 +120,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 	lines := p.textLinesHyphenated(iss, width, sty)
 	xLeft, _ := p.engine.GetXY()
 	for _, line := range lines {
+		p.breakPageBefore(line, sty)
 		p.engine.SetX(xLeft)
 		spaceCnt := len(line.items) - 1
 		if spaceCnt < 1 || line.paragraph {
diff --git a/text.go b/text.go
index 936a67f..40478ba 100644
--- a/text.go
+++ b/text.go
@@ -95,6 +95,20 @@ func (p *Processor) changeToLargestFont(line textLine, sty style.Styles) {
 	p.engine.ChangeFont(largest)
 }
 
+// breakPageBefore starts a new page if the largest font of line does not fit on the current one,
+// so items with smaller fonts do not stay behind
+func (p *Processor) breakPageBefore(line textLine, sty style.Styles) {
+	if p.preventPageBreak || len(line.items) == 0 {
+		return
+	}
+	p.changeToLargestFont(line, sty)
+	_, y := p.engine.GetXY()
+	_, _, _, bm := p.engine.Margins()
+	if y+p.engine.FontHeight() > p.engine.PageHeight()-bm {
+		p.engine.AddPage()
+	}
+}
+
 func (p *Processor) linesHeight(lines []textLine, sty style.Styles) float64 {
 	if len(lines) == 0 {
 		p.engine.ChangeFont(sty.Font)
@@ -123,6 +137,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 	lines := p.textLines(iss, width, sty)
 	xLeft, _ := p.engine.GetXY()
 	for _, line := range lines {
+		p.breakPageBefore(line, sty)
 		switch sty.HAlign {
 		case style.HAlignLeft:
 			p.engine.SetX(xLeft)
-- 
2.43.0


From cd7307e064f59753f055116ce12c8a484bdc3570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 16/45] fix: describe the left margin as such

---
 xdoc/describe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdoc/describe.go b/xdoc/describe.go
index 21d6fce..3d44d56 100644
--- a/xdoc/describe.go
+++ b/xdoc/describe.go
@@ -123,7 +123,7 @@ func (desc *Description) describeMargins(margins Margins) []DescribeItem {
 	return []DescribeItem{
 		{
 			Name:  "left",
-			Value: margins.Right,
+			Value: margins.Left,
 		},
 		{
 			Name:  "top",
-- 
2.43.0


From 2a711e1235d90efaed96a2d33569d5bfe210a814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 17/45] fix: describe style differences in a stable order

---
 xdoc/diff.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xdoc/diff.go b/xdoc/diff.go
index 64be1a6..32f0b29 100644
--- a/xdoc/diff.go
+++ b/xdoc/diff.go
@@ -2,6 +2,7 @@ package xdoc
 
 import (
 	"encoding/json"
+	"sort"
 
 	"github.com/mazzegi/xpdf/style"
 	"github.com/pkg/errors"
@@ -30,7 +31,14 @@ func interfaceDiff(path string, org interface{}, mod interface{}) ([]Diff, error
 	diffs := []Diff{}
 	switch org := org.(type) {
 	case map[string]interface{}:
-		for orgKey, orgVal := range org {
+		orgKeys := make([]string, 0, len(org))
+		for orgKey := range org {
+			orgKeys = append(orgKeys, orgKey)
+		}
+		//keep the order of differences stable
+		sort.Strings(orgKeys)
+		for _, orgKey := range orgKeys {
+			orgVal := org[orgKey]
 			modMSI, ok := mod.(map[string]interface{})
 			if !ok {
 				return nil, errors.Errorf("%s: org value is map-string-iface. mod is %T", path, mod)
-- 
2.43.0


From 5ce9d6ecf9718e60edd618952090b335c69f59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 18/45] fix: keep words separated when describing texts

Line feeds and pairs of blanks were removed instead of replaced by one blank.
---
 xdoc/describe.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xdoc/describe.go b/xdoc/describe.go
index 3d44d56..e94a1ec 100644
--- a/xdoc/describe.go
+++ b/xdoc/describe.go
@@ -10,9 +10,7 @@ import (
 )
 
 func clearStr(s string) string {
-	s = strings.ReplaceAll(s, "\n", "")
-	s = strings.ReplaceAll(s, "  ", "")
-	return strings.Trim(s, " ")
+	return strings.Join(strings.Fields(s), " ")
 }
 
 type DescribeItem struct {
-- 
2.43.0


From 0c9fde939c186be1d0545142b5e88b610ee32578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 19/45] fix: report read errors when loading hyphenation
 patterns

---
 hyphenation/pattern.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyphenation/pattern.go b/hyphenation/pattern.go
index afc59b7..208cee9 100644
--- a/hyphenation/pattern.go
+++ b/hyphenation/pattern.go
@@ -92,5 +92,8 @@ func parsePatterns(r io.Reader) (*patternLookup, error) {
 		}
 		pl.patterns[string(p.Letters)] = p
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, errors.Wrap(err, "scan patterns")
+	}
 	return pl, nil
 }
-- 
2.43.0


From 00ddafffdcf762ab2077cc91a62e948a71ef7578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 20/45] fix: report invalid elements inside of cells and grids

Errors of known elements were ignored like unknown elements, so a cell or
grid with an invalid style or number loaded without the element.
---
 xdoc/grid.go     | 10 ++++++++--
 xdoc/registry.go |  6 ++++++
 xdoc/table.go    |  5 ++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/xdoc/grid.go b/xdoc/grid.go
index d0b9aa2..b35601c 100644
--- a/xdoc/grid.go
+++ b/xdoc/grid.go
@@ -61,9 +61,12 @@ func (g *Grid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 				return g.Validate()
 			}
 		case xml.StartElement:
+			if !registry.Contains(t) {
+				continue
+			}
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
-				continue
+				return err
 			}
 			switch i := i.(type) {
 			case *GridPart:
@@ -117,9 +120,12 @@ func (p *GridPart) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 				return nil
 			}
 		case xml.StartElement:
+			if !registry.Contains(t) {
+				continue
+			}
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
-				continue
+				return err
 			}
 			p.Instructions.ISS = append(p.Instructions.ISS, i)
 		}
diff --git a/xdoc/registry.go b/xdoc/registry.go
index da8391d..d0d2e6b 100644
--- a/xdoc/registry.go
+++ b/xdoc/registry.go
@@ -65,6 +65,12 @@ func (r *Registry) RegisterInstruction(prototype Instruction) error {
 	return nil
 }
 
+// Contains tells if an instruction is registered for the element
+func (r *Registry) Contains(start xml.StartElement) bool {
+	_, contains := r.instructions[start.Name.Local]
+	return contains
+}
+
 func (r *Registry) DecodeInstruction(d *xml.Decoder, start xml.StartElement) (Instruction, error) {
 	proto, contains := r.instructions[start.Name.Local]
 	if !contains {
diff --git a/xdoc/table.go b/xdoc/table.go
index a280462..40631db 100644
--- a/xdoc/table.go
+++ b/xdoc/table.go
@@ -124,9 +124,12 @@ func (cell *TableCell) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 				return nil
 			}
 		case xml.StartElement:
+			if !registry.Contains(t) {
+				continue
+			}
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
-				continue
+				return err
 			}
 			cell.Instructions.ISS = append(cell.Instructions.ISS, i)
 		case xml.CharData:
-- 
2.43.0


From 73f703f0ac658ffeb99acf546ca5dc7df9907104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 21/45] fix: separate the areas of a grid row by any white
 space

Line feeds and repeated blanks became part of or empty area names, and a row
without any area was accepted.
---
 xdoc/grid.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xdoc/grid.go b/xdoc/grid.go
index b35601c..a6a4673 100644
--- a/xdoc/grid.go
+++ b/xdoc/grid.go
@@ -87,13 +87,13 @@ func (gr *GridRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		switch t := token.(type) {
 		case xml.EndElement:
 			if t == start.End() {
+				if len(gr.Areas) == 0 {
+					return errors.Errorf("invalid grid-row without valid areas")
+				}
 				return nil
 			}
 		case xml.CharData:
-			gr.Areas = strings.Split(string(t), " ")
-			if len(gr.Areas) == 0 {
-				return errors.Errorf("invalid grid-row without valid areas")
-			}
+			gr.Areas = append(gr.Areas, strings.Fields(string(t))...)
 		}
 	}
 }
-- 
2.43.0


From 9b8cb8d1a9d4b8bc3c0275ce523b29cbeb599cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 22/45] fix: reject anything behind the last value of border,
 padding and margin

---
 style/box.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/style/box.go b/style/box.go
index 22bf403..2cf382b 100644
--- a/style/box.go
+++ b/style/box.go
@@ -34,8 +34,21 @@ type Box struct {
 	Margin  Margin  `style:"margin"`
 }
 
+// scanSides scans the values for all sides, where nothing may follow the last one
+func scanSides(v string, format string, sides ...interface{}) error {
+	buf := bytes.NewBufferString(v)
+	_, err := fmt.Fscanf(buf, format, sides...)
+	if err != nil {
+		return err
+	}
+	if rest := trimWS(buf.String()); rest != "" {
+		return errors.Errorf("unexpected (%s) after last value", rest)
+	}
+	return nil
+}
+
 func (b *Border) UnmarshalStyle(v string) error {
-	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%d,%d,%d,%d", &b.Left, &b.Top, &b.Right, &b.Bottom)
+	err := scanSides(v, "%d,%d,%d,%d", &b.Left, &b.Top, &b.Right, &b.Bottom)
 	if err != nil {
 		return errors.Wrapf(err, "scan border value (%s)", v)
 	}
@@ -43,7 +56,7 @@ func (b *Border) UnmarshalStyle(v string) error {
 }
 
 func (b *Padding) UnmarshalStyle(v string) error {
-	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
+	err := scanSides(v, "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
 	if err != nil {
 		return errors.Wrapf(err, "scan padding value (%s)", v)
 	}
@@ -51,7 +64,7 @@ func (b *Padding) UnmarshalStyle(v string) error {
 }
 
 func (b *Margin) UnmarshalStyle(v string) error {
-	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
+	err := scanSides(v, "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
 	if err != nil {
 		return errors.Wrapf(err, "scan margin value (%s)", v)
 	}
-- 
2.43.0


From 37e4f7657a35ad513b8510e18b5de6b07f67ceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 23/45] fix: report unbalanced braces in style classes

---
 style/class.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/style/class.go b/style/class.go
index 8c255fd..96e0794 100644
--- a/style/class.go
+++ b/style/class.go
@@ -68,17 +68,26 @@ func DecodeClasses(r io.Reader) (Classes, error) {
 		curr := s[pos:]
 		i := strings.IndexByte(curr, '{')
 		if i < 0 {
+			if strings.IndexByte(curr, '}') >= 0 {
+				return nil, errors.Errorf("non matching brace")
+			}
 			return cs, nil
 		}
 		name := trimWS(curr[:i])
 		if len(name) == 0 {
 			return nil, errors.Errorf("style class without name")
 		}
+		if strings.IndexByte(name, '}') >= 0 {
+			return nil, errors.Errorf("non matching brace before (%s)", name)
+		}
 		in := strings.IndexByte(curr[i:], '}')
 		if in < 0 {
 			return nil, errors.Errorf("non matching brace")
 		}
 		in += i
+		if strings.IndexByte(curr[i+1:in], '{') >= 0 {
+			return nil, errors.Errorf("non matching brace in style class (%s)", name)
+		}
 		mut, err := DecodeMutator(bytes.NewBufferString(curr[i+1 : in]))
 		if err != nil {
 			return nil, errors.Wrap(err, "parse style")
-- 
2.43.0


From bac36d1e9bb27c8f4b5e876e4165459162c3d5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 24/45] fix: header rows with row spans do not start a needless
 page

---
 table.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 62e2a14..fc29a4c 100644
--- a/table.go
+++ b/table.go
@@ -407,10 +407,14 @@ func (p *Processor) renderTable(xtab *xdoc.Table) {
 
 	//check if we have to start a new page for the entire table
 	if !p.preventPageBreak {
-		var headHeight float64
+		//a cell spanning rows reaches into the following ones, but does not add to their heights
+		var headHeight, rowTop float64
 		for i := 0; i < xtab.RepeatHeader+1; i++ {
 			if i < len(tab.rows) {
-				headHeight += tab.rows[i].maxCellHeight()
+				if h := rowTop + tab.rows[i].maxCellHeight(); h > headHeight {
+					headHeight = h
+				}
+				rowTop += tab.rows[i].height
 			}
 		}
 		if y+headHeight > page.printableArea.y1 {
-- 
2.43.0


From a4b7426c715fb16aba0ee5ea584c4bd6044116aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 25/45] fix: contents exactly filling a page are not torn apart
 by rounding

---
 engine/fpdf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index c24e082..d923c34 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -55,6 +55,10 @@ func fpdfFontStyle(fnt style.Font) string {
 	return s
 }
 
+// roundingTolerance (in mm) keeps cells, boxes and lines, which exactly fill the page, from being torn apart
+// just because the sum of their parts is rounded differently
+const roundingTolerance = 1e-6
+
 type FPDF struct {
 	pdf              *gofpdf.Fpdf
 	monoFont         string
@@ -75,7 +79,7 @@ func NewFPDF(fonts *font.Registry, doc *xdoc.Document) (*FPDF, error) {
 		return nil, errors.Wrap(err, "init-fonts")
 	}
 
-	e.pdf.SetAutoPageBreak(true, doc.Page.Margins.Bottom)
+	e.pdf.SetAutoPageBreak(true, doc.Page.Margins.Bottom-roundingTolerance)
 	e.pdf.SetMargins(doc.Page.Margins.Left, doc.Page.Margins.Top, doc.Page.Margins.Right)
 
 	//TODO: make code-page for unicode translator an option (per font?)
-- 
2.43.0


From 78ef551dfa985c24c58b51997c49d60dbf6089b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 26/45] fix: contents aligned at the top of the page do not
 jump to its bottom by rounding

---
 table.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/table.go b/table.go
index fc29a4c..e90f7f7 100644
--- a/table.go
+++ b/table.go
@@ -2,6 +2,7 @@ package xpdf
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"strings"
 
@@ -447,11 +448,12 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 	if len(cell.iss) > 0 {
 		textHeight := p.textHeightFnc(cell.Styles)(cell.iss, paddedPa.Width(), cell.Styles)
 		textMargin := paddedPa.Height() - textHeight
+		//negative values, even if due to rounding only, count from the bottom of the page
 		switch cell.VAlign {
 		case style.VAlignMiddle:
-			p.engine.SetY(paddedPa.y0 + textMargin/2)
+			p.engine.SetY(math.Max(0, paddedPa.y0+textMargin/2))
 		case style.VAlignBottom:
-			p.engine.SetY(paddedPa.y0 + textMargin)
+			p.engine.SetY(math.Max(0, paddedPa.y0+textMargin))
 		default: //style.VAlignTop:
 			p.engine.SetY(paddedPa.y0)
 		}
@@ -474,9 +476,9 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 			boxMargin := paddedPa.Height() - p.textBoxOuterHeight(is, paddedPa)
 			switch cell.VAlign {
 			case style.VAlignMiddle:
-				p.engine.SetY(paddedPa.y0 + boxMargin/2)
+				p.engine.SetY(math.Max(0, paddedPa.y0+boxMargin/2))
 			case style.VAlignBottom:
-				p.engine.SetY(paddedPa.y0 + boxMargin)
+				p.engine.SetY(math.Max(0, paddedPa.y0+boxMargin))
 			default: //style.VAlignTop:
 				p.engine.SetY(paddedPa.y0)
 			}
-- 
2.43.0


From 39ba367ea587ef60349804ee6276591123f73a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 27/45] fix: report a style class without block at the end of a
 style sheet

---
 style/class.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/style/class.go b/style/class.go
index 96e0794..9c9b273 100644
--- a/style/class.go
+++ b/style/class.go
@@ -71,6 +71,9 @@ func DecodeClasses(r io.Reader) (Classes, error) {
 			if strings.IndexByte(curr, '}') >= 0 {
 				return nil, errors.Errorf("non matching brace")
 			}
+			if rest := trimWS(curr); rest != "" {
+				return nil, errors.Errorf("style class (%s) without block", rest)
+			}
 			return cs, nil
 		}
 		name := trimWS(curr[:i])
-- 
2.43.0


From 76375ede9431252ad4d81aae500d30df030f6d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 28/45] fix: report positional variants without class name

---
 style/class.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/style/class.go b/style/class.go
index 9c9b273..5cd9026 100644
--- a/style/class.go
+++ b/style/class.go
@@ -98,7 +98,7 @@ func DecodeClasses(r io.Reader) (Classes, error) {
 		className := name
 		selName := ""
 		idxSel := strings.Index(name, ":")
-		if idxSel > 0 {
+		if idxSel >= 0 {
 			className = name[:idxSel]
 			selName = name[idxSel+1:]
 			if cl, ok := cs[className]; ok {
-- 
2.43.0


From e105fd2ad1c7ac637607279460f7c7ab24ff863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:04 +0000
Subject: [PATCH 29/45] fix: skip images without any space left

---
 image.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image.go b/image.go
index 015e7e4..9a4f375 100644
--- a/image.go
+++ b/image.go
@@ -61,6 +61,10 @@ func (p *Processor) renderImage(img *xdoc.Image, pa PrintableArea) {
 	y += sty.OffsetY
 	paWidth := pa.Width() - sty.OffsetX
 	paHeight := pa.Height() - sty.OffsetY
+	if paWidth <= 0 || paHeight <= 0 {
+		Logf("ERROR: no space left for image %q", imgSrc)
+		return
+	}
 
 	idWidth := iDesc.WidthMm(Dpi96)
 	idHeight := iDesc.HeightMm(Dpi96)
-- 
2.43.0


From 8089f6e7e7d5ddb9af790e5a038600bec385466c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 30/45] fix: place images at negative positions as told

---
 engine/fpdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index d923c34..64b495c 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -185,7 +185,7 @@ func (e *FPDF) PageWidth() float64 {
 }
 
 func (e *FPDF) PutImage(src string, x, y, width, height float64) {
-	e.pdf.ImageOptions(src, x, y, width, height, false, gofpdf.ImageOptions{}, 0, "")
+	e.pdf.ImageOptions(src, x, y, width, height, false, gofpdf.ImageOptions{AllowNegativePosition: true}, 0, "")
 }
 
 func (e *FPDF) SetTextColor(r, g, b int) {
-- 
2.43.0


From e4cc2685d369ecd9ec9fbdb8094bf4e100fca1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 31/45] fix: characters beyond the basic multilingual plane do
 not panic

---
 engine/fpdf.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index 64b495c..0544441 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -3,6 +3,8 @@ package engine
 import (
 	"io"
 	"io/ioutil"
+	"strings"
+	"unicode"
 
 	"github.com/jung-kurt/gofpdf/v2"
 	"github.com/mazzegi/xpdf/font"
@@ -84,10 +86,20 @@ func NewFPDF(fonts *font.Registry, doc *xdoc.Document) (*FPDF, error) {
 
 	//TODO: make code-page for unicode translator an option (per font?)
 	//e.translateUnicode = e.pdf.UnicodeTranslatorFromDescriptor("")
-	e.translateUnicode = func(s string) string { return s }
+	e.translateUnicode = replaceUnsupported
 	return e, nil
 }
 
+// replaceUnsupported replaces characters beyond the basic multilingual plane, on which gofpdf panics
+func replaceUnsupported(s string) string {
+	return strings.Map(func(r rune) rune {
+		if r > 0xffff {
+			return unicode.ReplacementChar
+		}
+		return r
+	}, s)
+}
+
 func (e *FPDF) initFonts(fonts *font.Registry) error {
 	if fonts.MonoFont() != "" {
 		e.monoFont = fonts.MonoFont()
-- 
2.43.0


From 3ceb49d8ceb5bb59fb175e856898904d5448cfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 32/45] fix: report font files which are no or incomplete
 TrueType fonts

---
 engine/fpdf.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index 0544441..82b8dc0 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -1,6 +1,7 @@
 package engine
 
 import (
+	"encoding/binary"
 	"io"
 	"io/ioutil"
 	"strings"
@@ -111,6 +112,10 @@ func (e *FPDF) initFonts(fonts *font.Registry) error {
 		if err != nil {
 			return errors.Wrapf(err, "read file %q", fd.FilePath)
 		}
+		err = checkTrueType(bs)
+		if err != nil {
+			return errors.Wrapf(err, "font file %q", fd.FilePath)
+		}
 		var sty string
 		switch fd.Style {
 		case font.Bold:
@@ -130,6 +135,35 @@ func (e *FPDF) initFonts(fonts *font.Registry) error {
 	})
 }
 
+// checkTrueType checks whether the data are a complete TrueType font. gofpdf silently skips other formats and
+// panics on incomplete ones.
+func checkTrueType(bs []byte) error {
+	if len(bs) < 12 {
+		return errors.Errorf("not a TrueType font")
+	}
+	if sig := string(bs[:4]); sig != "\x00\x01\x00\x00" && sig != "true" {
+		return errors.Errorf("not a TrueType font")
+	}
+	missing := map[string]bool{"cmap": true, "glyf": true, "head": true, "hhea": true, "hmtx": true, "loca": true, "maxp": true, "name": true, "post": true}
+	count := int(binary.BigEndian.Uint16(bs[4:]))
+	if len(bs) < 12+16*count {
+		return errors.Errorf("incomplete TrueType font")
+	}
+	for i := 0; i < count; i++ {
+		rec := bs[12+16*i:]
+		offset := uint64(binary.BigEndian.Uint32(rec[8:]))
+		size := uint64(binary.BigEndian.Uint32(rec[12:]))
+		if offset+size > uint64(len(bs)) {
+			return errors.Errorf("incomplete TrueType font")
+		}
+		delete(missing, string(rec[:4]))
+	}
+	for tab := range missing {
+		return errors.Errorf("TrueType font without table %q", tab)
+	}
+	return nil
+}
+
 func (e *FPDF) Error() error {
 	return e.pdf.Error()
 }
-- 
2.43.0


From 87d20972d485b03134d410a6576cf2bfc9f74d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 33/45] fix: CDATA sections and comments do not separate words

---
 xdoc/grid.go         |  4 +++-
 xdoc/instructions.go | 20 +++++++++++++++-----
 xdoc/table.go        | 10 +++++-----
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/xdoc/grid.go b/xdoc/grid.go
index a6a4673..f58e75f 100644
--- a/xdoc/grid.go
+++ b/xdoc/grid.go
@@ -79,6 +79,7 @@ func (g *Grid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 }
 
 func (gr *GridRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	var text string
 	for {
 		token, err := d.Token()
 		if err != nil {
@@ -87,13 +88,14 @@ func (gr *GridRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		switch t := token.(type) {
 		case xml.EndElement:
 			if t == start.End() {
+				gr.Areas = strings.Fields(text)
 				if len(gr.Areas) == 0 {
 					return errors.Errorf("invalid grid-row without valid areas")
 				}
 				return nil
 			}
 		case xml.CharData:
-			gr.Areas = append(gr.Areas, strings.Fields(string(t))...)
+			text += string(t)
 		}
 	}
 }
diff --git a/xdoc/instructions.go b/xdoc/instructions.go
index 0439702..09358f0 100644
--- a/xdoc/instructions.go
+++ b/xdoc/instructions.go
@@ -18,11 +18,23 @@ type Instructions struct {
 	ISS []Instruction
 }
 
+// appendText appends text, or continues the given text block, which is interrupted just by
+// comments or the bounds of CDATA sections, and returns the text block
+func (is *Instructions) appendText(block *TextBlock, text string) *TextBlock {
+	if block == nil {
+		block = &TextBlock{}
+		is.ISS = append(is.ISS, block)
+	}
+	block.Text += text
+	return block
+}
+
 func (is *Instructions) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	err := is.DecodeAttrs(start.Attr)
 	if err != nil {
 		return err
 	}
+	var block *TextBlock
 	for {
 		token, err := d.Token()
 		if err != nil {
@@ -39,12 +51,10 @@ func (is *Instructions) UnmarshalXML(d *xml.Decoder, start xml.StartElement) err
 				return errors.Wrapf(err, "decode token %v", t.Name.Local)
 			}
 			is.ISS = append(is.ISS, i)
+			block = nil
 		case xml.CharData:
-			v := string(t)
-			if v != "" {
-				is.ISS = append(is.ISS, &TextBlock{
-					Text: string(t),
-				})
+			if len(t) > 0 {
+				block = is.appendText(block, string(t))
 			}
 		}
 	}
diff --git a/xdoc/table.go b/xdoc/table.go
index 40631db..c90bbb0 100644
--- a/xdoc/table.go
+++ b/xdoc/table.go
@@ -113,6 +113,7 @@ func (row *TableRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error
 }
 
 func (cell *TableCell) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	var block *TextBlock
 	for {
 		token, err := d.Token()
 		if err != nil {
@@ -123,7 +124,9 @@ func (cell *TableCell) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			if t == start.End() {
 				return nil
 			}
+			block = nil
 		case xml.StartElement:
+			block = nil
 			if !registry.Contains(t) {
 				continue
 			}
@@ -133,11 +136,8 @@ func (cell *TableCell) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			}
 			cell.Instructions.ISS = append(cell.Instructions.ISS, i)
 		case xml.CharData:
-			v := string(t)
-			if v != "" {
-				cell.Instructions.ISS = append(cell.Instructions.ISS, &TextBlock{
-					Text: string(t),
-				})
+			if len(t) > 0 {
+				block = cell.Instructions.appendText(block, string(t))
 			}
 		}
 	}
-- 
2.43.0


From 3351195d8734b1e79dd4e7b417efd4fe1b2a546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 34/45] fix: skip damaged and incomplete images instead of
 embedding them

---
 image.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/image.go b/image.go
index 9a4f375..1be8ac5 100644
--- a/image.go
+++ b/image.go
@@ -2,6 +2,7 @@ package xpdf
 
 import (
 	"image"
+	"io"
 	"os"
 
 	_ "image/gif"
@@ -40,6 +41,13 @@ func DescribeImage(src string) (ImageDescriptor, error) {
 	if err != nil {
 		return ImageDescriptor{}, errors.Wrapf(err, "decode config of %q", src)
 	}
+	// an incomplete or damaged image would be embedded as it is
+	if _, err := f.Seek(0, io.SeekStart); err != nil {
+		return ImageDescriptor{}, errors.Wrapf(err, "rewind %q", src)
+	}
+	if _, _, err := image.Decode(f); err != nil {
+		return ImageDescriptor{}, errors.Wrapf(err, "decode %q", src)
+	}
 	return ImageDescriptor{
 		Format:   format,
 		WidthPx:  cfg.Width,
-- 
2.43.0


From c689393be8badbe3e5c46fc36ec735a977627713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 35/45] fix: print nothing when loading style classes

---
 style/class.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/style/class.go b/style/class.go
index 5cd9026..b6c8258 100644
--- a/style/class.go
+++ b/style/class.go
@@ -2,7 +2,6 @@ package style
 
 import (
 	"bytes"
-	"fmt"
 	"io"
 	"io/ioutil"
 	"strings"
@@ -106,7 +105,6 @@ func DecodeClasses(r io.Reader) (Classes, error) {
 					Name:    selName,
 					mutator: mut,
 				}
-				fmt.Printf("added selector (%s) to class (%s) \n", selName, className)
 			} else {
 				return nil, errors.Errorf("no base class for (%s:%s)", className, selName)
 			}
-- 
2.43.0


From 79c4c62fddca0f6916db15c22ba37ced999ab10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:26 +0000
Subject: [PATCH 36/45] fix: limit the columns and rows a cell can span,
 instead of running out of memory

---
 xdoc/table.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xdoc/table.go b/xdoc/table.go
index c90bbb0..860c61e 100644
--- a/xdoc/table.go
+++ b/xdoc/table.go
@@ -44,6 +44,9 @@ func (t *Table) DecodeAttrs(attrs []xml.Attr) error {
 	return t.Styled.DecodeAttrs(attrs)
 }
 
+// maxSpan limits the columns and rows a cell can span, as each of them takes memory
+const maxSpan = 1000
+
 func (c *TableCell) DecodeAttrs(attrs []xml.Attr) error {
 	for _, a := range attrs {
 		switch a.Name.Local {
@@ -51,12 +54,16 @@ func (c *TableCell) DecodeAttrs(attrs []xml.Attr) error {
 			n, err := strconv.ParseInt(a.Value, 10, 64)
 			if err != nil {
 				return err
+			} else if n > maxSpan {
+				return errors.Errorf("invalid value %d for colspan - must not exceed %d", n, maxSpan)
 			}
 			c.ColSpan = int(n)
 		case "rowspan":
 			n, err := strconv.ParseInt(a.Value, 10, 64)
 			if err != nil {
 				return err
+			} else if n > maxSpan {
+				return errors.Errorf("invalid value %d for rowspan - must not exceed %d", n, maxSpan)
 			}
 			c.RowSpan = int(n)
 		}
-- 
2.43.0


From d16950ea472e8d2101562274dae5b1bdf70d10af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 37/45] fix: white space around the colon of a positional
 variant does not matter

---
 style/class.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/style/class.go b/style/class.go
index b6c8258..3e1cc25 100644
--- a/style/class.go
+++ b/style/class.go
@@ -98,8 +98,8 @@ func DecodeClasses(r io.Reader) (Classes, error) {
 		selName := ""
 		idxSel := strings.Index(name, ":")
 		if idxSel >= 0 {
-			className = name[:idxSel]
-			selName = name[idxSel+1:]
+			className = trimWS(name[:idxSel])
+			selName = trimWS(name[idxSel+1:])
 			if cl, ok := cs[className]; ok {
 				cl.Selectors[selName] = Selector{
 					Name:    selName,
-- 
2.43.0


From 32265e9afd3ce1ad1b46bb0de3394179f341530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:39 +0000
Subject: [PATCH 38/45] fix: report whatever surrounds the root element, and
 failures to read up to the end of the input

---
 xdoc/doc.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/xdoc/doc.go b/xdoc/doc.go
index 2f6dc4e..ee60bcd 100644
--- a/xdoc/doc.go
+++ b/xdoc/doc.go
@@ -5,6 +5,7 @@ import (
 	"encoding/xml"
 	"io"
 	"os"
+	"strings"
 
 	"github.com/mazzegi/xpdf/style"
 	"github.com/pkg/errors"
@@ -12,7 +13,7 @@ import (
 
 func Load(r io.Reader) (*Document, error) {
 	doc := &Document{}
-	err := xml.NewDecoder(r).Decode(doc)
+	err := decodeRoot(xml.NewDecoder(r), doc)
 	if err != nil {
 		return nil, err
 	}
@@ -23,6 +24,36 @@ func Load(r io.Reader) (*Document, error) {
 	return doc, nil
 }
 
+// decodeRoot decodes the one root element of the input, and reads on to its end to find out about
+// anything else around it
+func decodeRoot(d *xml.Decoder, v interface{}) error {
+	var decoded bool
+	for {
+		token, err := d.Token()
+		if err == io.EOF && decoded {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		switch t := token.(type) {
+		case xml.StartElement:
+			if decoded {
+				return errors.Errorf("element (%s) after the root element", t.Name.Local)
+			}
+			if err := d.DecodeElement(v, &t); err != nil {
+				return err
+			}
+			decoded = true
+		case xml.CharData:
+			//a byte-order-mark may precede the root element
+			if text := strings.Trim(string(t), " \r\n\t\ufeff"); text != "" {
+				return errors.Errorf("text (%s) outside of the root element", text)
+			}
+		}
+	}
+}
+
 func LoadFromFile(file string) (*Document, error) {
 	f, err := os.Open(file)
 	if err != nil {
-- 
2.43.0


From e71e90ea23951859d98bf679b8474a246acf87c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 39/45] fix: lines closer than their heights stay inside of
 their box or cell

---
 text.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/text.go b/text.go
index 40478ba..a3a806e 100644
--- a/text.go
+++ b/text.go
@@ -1,6 +1,7 @@
 package xpdf
 
 import (
+	"math"
 	"strings"
 
 	"github.com/mazzegi/xpdf/style"
@@ -114,15 +115,12 @@ func (p *Processor) linesHeight(lines []textLine, sty style.Styles) float64 {
 		p.engine.ChangeFont(sty.Font)
 		return p.engine.FontHeight()
 	}
-	var height float64
-	for i, line := range lines {
+	//no line-spacing below the last line; with a line-spacing below 1 an earlier line may be the lowest one
+	var y, height float64
+	for _, line := range lines {
 		p.changeToLargestFont(line, sty)
-		if i < len(lines)-1 {
-			height += p.engine.FontHeight() * sty.Dimension.LineSpacing
-		} else {
-			//no line-spacing, to have no space below the last line
-			height += p.engine.FontHeight()
-		}
+		height = math.Max(height, y+p.engine.FontHeight())
+		y += p.engine.FontHeight() * sty.Dimension.LineSpacing
 	}
 	return height
 }
-- 
2.43.0


From 0cedb4b42833e4dba7a7dad703315432af7ed2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 40/45] fix: a centered or right-aligned word wider than its
 line does not jump to the other side of the page

---
 text.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/text.go b/text.go
index a3a806e..266049f 100644
--- a/text.go
+++ b/text.go
@@ -140,9 +140,10 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 		case style.HAlignLeft:
 			p.engine.SetX(xLeft)
 		case style.HAlignCenter:
-			p.engine.SetX(xLeft + (width-line.width)/2.0)
+			//negative values would count from the right of the page
+			p.engine.SetX(math.Max(0, xLeft+(width-line.width)/2.0))
 		case style.HAlignRight:
-			p.engine.SetX(xLeft + width - line.width)
+			p.engine.SetX(math.Max(0, xLeft+width-line.width))
 		}
 		for _, item := range line.items {
 			p.engine.ChangeFont(item.sty.Font)
-- 
2.43.0


From 8346db9cf37597419ee572b328240d0751176c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:10 +0000
Subject: [PATCH 41/45] fix: full-width texts, boxes and tables end at the
 right edge of the page, also right of its left margin

---
 dim.go     |  9 +++++++++
 process.go | 21 +++++++++++----------
 table.go   |  7 ++++---
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/dim.go b/dim.go
index 39e67ab..7f2b330 100644
--- a/dim.go
+++ b/dim.go
@@ -39,6 +39,15 @@ func (pa PrintableArea) EffectiveWidth(width float64) float64 {
 	return width
 }
 
+// EffectiveWidthAt returns the width of an element starting at x, which ends at the right
+// edge of the area if no width is requested for it, or one wider than the area
+func (pa PrintableArea) EffectiveWidthAt(x float64, width float64) float64 {
+	if (width < 0 || width > pa.Width()) && x > pa.x0 && x < pa.x1 {
+		return pa.x1 - x
+	}
+	return pa.EffectiveWidth(width)
+}
+
 type Page struct {
 	width         float64
 	height        float64
diff --git a/process.go b/process.go
index 5bb15ca..c1c77f7 100644
--- a/process.go
+++ b/process.go
@@ -157,44 +157,45 @@ func (p *Processor) renderText(text *xdoc.Text) {
 	}
 	defer p.resetStyles()
 	sty := text.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
-	width := p.page().EffectiveWidth(sty.Width)
+	x, _ := p.engine.GetXY()
+	width := p.page().printableArea.EffectiveWidthAt(x, sty.Width)
 
 	p.writeTextFnc(sty)(text.ISS, width, sty)
 }
 
-// textBoxHeight returns the height of the content of the box without padding
-func (p *Processor) textBoxHeight(box *xdoc.Box, pa PrintableArea) float64 {
+// textBoxHeight returns the height of the content of the box placed at x without padding
+func (p *Processor) textBoxHeight(box *xdoc.Box, pa PrintableArea, x float64) float64 {
 	defer p.resetStyles()
 	sty := box.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
 	if sty.Dimension.Height > 0 {
 		return sty.Dimension.Height
 	}
-	width := pa.EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right
+	width := pa.EffectiveWidthAt(x+sty.OffsetX, sty.Width) - sty.Padding.Left - sty.Padding.Right
 	return p.textHeightFnc(sty)(box.ISS, width, sty)
 }
 
-// textBoxOuterHeight returns the height of the box including padding
-func (p *Processor) textBoxOuterHeight(box *xdoc.Box, pa PrintableArea) float64 {
+// textBoxOuterHeight returns the height of the box placed at x including padding
+func (p *Processor) textBoxOuterHeight(box *xdoc.Box, pa PrintableArea, x float64) float64 {
 	sty := box.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
-	return p.textBoxHeight(box, pa) + sty.Box.Padding.Top + sty.Box.Padding.Bottom
+	return p.textBoxHeight(box, pa, x) + sty.Box.Padding.Top + sty.Box.Padding.Bottom
 }
 
 func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	defer p.resetStyles()
 	sty := box.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
 
-	width := pa.EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right
-	height := p.textBoxOuterHeight(box, pa)
-
 	x0, y0 := p.engine.GetXY()
+	height := p.textBoxOuterHeight(box, pa, x0)
 	lm, _, _, bm := p.engine.Margins()
 	effHeight := p.engine.PageHeight() - bm
 	if !p.preventPageBreak && y0+sty.Dimension.OffsetY+height > effHeight {
 		p.engine.AddPage()
 		x0, y0 = p.engine.GetXY()
+		height = p.textBoxOuterHeight(box, pa, x0)
 	}
 
 	x0 += sty.Dimension.OffsetX
+	width := pa.EffectiveWidthAt(x0, sty.Width) - sty.Padding.Left - sty.Padding.Right
 	y0 += sty.Dimension.OffsetY
 	y1 := y0 + height
 	x1 := x0 + width + sty.Padding.Left + sty.Padding.Right
diff --git a/table.go b/table.go
index e90f7f7..a4b618d 100644
--- a/table.go
+++ b/table.go
@@ -298,7 +298,7 @@ func (p *Processor) innerBoxesHeight(cell *tableCell, width float64) float64 {
 			continue
 		}
 		sty := box.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
-		if h := sty.OffsetY + p.textBoxOuterHeight(box, PrintableArea{x1: width}); h > max {
+		if h := sty.OffsetY + p.textBoxOuterHeight(box, PrintableArea{x1: width}, 0); h > max {
 			max = h
 		}
 	}
@@ -368,7 +368,8 @@ func (p *Processor) transformTable(xtab *xdoc.Table) *table {
 		tab.rows = append(tab.rows, row)
 	}
 	tab.processSpans()
-	tab.assignColumnWidths(p.page().EffectiveWidth(tab.Width))
+	x, _ := p.engine.GetXY()
+	tab.assignColumnWidths(p.page().printableArea.EffectiveWidthAt(x, tab.Width))
 	p.assignHeights(tab)
 	//TODO: reapply styles as first/last row/cell may have changed
 	return tab
@@ -473,7 +474,7 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 		p.engine.SetX(paddedPa.x0)
 		switch is := is.(type) {
 		case *xdoc.Box:
-			boxMargin := paddedPa.Height() - p.textBoxOuterHeight(is, paddedPa)
+			boxMargin := paddedPa.Height() - p.textBoxOuterHeight(is, paddedPa, paddedPa.x0)
 			switch cell.VAlign {
 			case style.VAlignMiddle:
 				p.engine.SetY(math.Max(0, paddedPa.y0+boxMargin/2))
-- 
2.43.0


From 6c134f136fcf9652e9ea69239d74fa649cc1a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 42/45] fix: a text is broken into the same lines when it is
 measured and when it is printed

---
 text-hyph.go | 4 ++--
 text.go      | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index ebfaf49..a2b2076 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -22,7 +22,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 		for i := len(parts) - 2; i >= 0; i-- {
 			trial := " " + strings.Join(parts[:i+1], "") + "-"
 			trialWidth := p.engine.TextWidth(trial)
-			if trialWidth <= availWidth {
+			if trialWidth <= availWidth+widthTolerance {
 				s1 = trial
 				s2 = strings.Join(parts[i+1:], "")
 				success = true
@@ -68,7 +68,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 			}
 			itemWidth := p.engine.TextWidth(" " + item.text)
 			pureItemWidth := p.engine.TextWidth(item.text)
-			if curr.width+itemWidth >= width {
+			if curr.width+itemWidth > width-widthTolerance {
 				//try hyphenation
 				s1, s2, ok := tryHyphenate(item.text, curr.width)
 				if !ok {
diff --git a/text.go b/text.go
index 266049f..de6e437 100644
--- a/text.go
+++ b/text.go
@@ -9,6 +9,10 @@ import (
 	"github.com/mazzegi/xpdf/xdoc"
 )
 
+// widthTolerance (in mm) keeps a text, whose words exactly fill a line, from being broken differently when it is
+// measured and when it is printed, just because the width of its line is rounded differently
+const widthTolerance = 1e-6
+
 type textItem struct {
 	sty  style.Styles
 	text string
@@ -63,7 +67,7 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 				text: word,
 			}
 			itemWidth := p.engine.TextWidth(" " + item.text)
-			if len(curr.items) > 0 && curr.width+itemWidth >= width {
+			if len(curr.items) > 0 && curr.width+itemWidth > width-widthTolerance {
 				lines = append(lines, curr)
 				curr = textLine{}
 			}
-- 
2.43.0


From d2bc87b2b593f40454a8d29bcc367518a68aaf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:08 +0000
Subject: [PATCH 43/45] fix: a line feed by a negative number of lines moves
 the cursor up

---
 engine/fpdf.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index 82b8dc0..70e3387 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"io"
 	"io/ioutil"
+	"math"
 	"strings"
 	"unicode"
 
@@ -207,6 +208,11 @@ func (e *FPDF) GetXY() (float64, float64) {
 
 func (e *FPDF) LineFeed(lines float64) {
 	_, heightMM := e.pdf.GetFontSize()
+	if lines < 0 {
+		//gofpdf takes negative heights as the one of the last cell (and a negative position as one from the bottom)
+		e.pdf.SetY(math.Max(0, e.pdf.GetY()+heightMM*lines))
+		return
+	}
 	e.pdf.Ln(heightMM * lines)
 }
 
-- 
2.43.0


From 433e85f1e93e662b673b1c062abb2c7a8cf76192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 44/45] fix: a line which fills the printable area is not
 wrapped by the pdf library

---
 engine/fpdf.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index 70e3387..907a13d 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -63,6 +63,10 @@ func fpdfFontStyle(fnt style.Font) string {
 // just because the sum of their parts is rounded differently
 const roundingTolerance = 1e-6
 
+// cellMargin (in mm) is left and right of each text. The default of gofpdf is a little more than the printable area
+// accounts for, so that it would wrap lines which fill the area.
+const cellMargin = 1.0
+
 type FPDF struct {
 	pdf              *gofpdf.Fpdf
 	monoFont         string
@@ -85,6 +89,7 @@ func NewFPDF(fonts *font.Registry, doc *xdoc.Document) (*FPDF, error) {
 
 	e.pdf.SetAutoPageBreak(true, doc.Page.Margins.Bottom-roundingTolerance)
 	e.pdf.SetMargins(doc.Page.Margins.Left, doc.Page.Margins.Top, doc.Page.Margins.Right)
+	e.pdf.SetCellMargin(cellMargin)
 
 	//TODO: make code-page for unicode translator an option (per font?)
 	//e.translateUnicode = e.pdf.UnicodeTranslatorFromDescriptor("")
@@ -223,7 +228,7 @@ func (e *FPDF) ChangeFont(fnt style.Font) {
 func (e *FPDF) PrintableArea() (x0, y0, x1, y1 float64) {
 	l, t, r, b := e.pdf.GetMargins()
 	pw, ph := e.pdf.GetPageSize()
-	return l, t, pw - r - 2, ph - b
+	return l, t, pw - r - 2*cellMargin, ph - b
 }
 
 func (e *FPDF) PageHeight() float64 {
-- 
2.43.0


From b19cadc84d0b89da99680d5af6b02ff0ef06d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:56 +0000
Subject: [PATCH 45/45] fix: texts with characters of no width, or missing in
 the font, are neither wrapped nor overlapped

---
 engine/fpdf.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index 907a13d..8099f4a 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -268,7 +268,17 @@ func (e *FPDF) TextWidth(s string) float64 {
 
 func (e *FPDF) WriteText(s string) {
 	_, heightMM := e.pdf.GetFontSize()
-	e.pdf.Write(heightMM, e.translateUnicode(s))
+	s = e.translateUnicode(s)
+	pageWidth, _ := e.pdf.GetPageSize()
+	_, _, right, _ := e.pdf.GetMargins()
+	width := e.pdf.GetStringWidth(s)
+	if width > 0 && e.pdf.GetX()+width+2*cellMargin <= pageWidth-right && s != " " && !strings.ContainsAny(s, "\r\n") {
+		// gofpdf's Write would wrap a text with characters of no width (e.g. combining ones), which it takes for very
+		// wide ones, and let the next text overlap one with characters missing in the font
+		e.pdf.CellFormat(width, heightMM, s, "", 0, "", false, 0, "")
+		return
+	}
+	e.pdf.Write(heightMM, s)
 }
 
 //drawing
-- 
2.43.0

