#!/usr/bin/env python3
"""Rewrites known_findings.txt from the fix commits in /repo (run by hand, never by a check)."""
import subprocess
P = {
"hyphenation must not drop": ("C05", "words lost a trailing letter or were cut inside a character"),
"a forced break ends the current paragraph": ("C04", "a line before a forced break in justified text was stretched"),
"skip white space between elements of justified": ("C03", "white space between elements of justified text was printed as empty words with additional gaps"),
"no blank line before a word wider": ("C03", "a word wider than its line was preceded by a blank line"),
"no blank before a divided word at the start": ("C04", "a divided word at the start of a line was preceded by a blank, so the line did not start at the edge"),
"line pitch and text height follow": ("C26", "lines mixing font sizes were advanced by the font used last, and the height of boxes and rows was measured with the wrong font"),
"fonts of texts, paragraphs, boxes and cells do not leak": ("C10", "the font of a text, paragraph, box or cell remained in use behind it"),
"paragraphs are printed in their own text color": ("C09", "the text color of paragraphs was ignored"),
"header and footer neither depend": ("C15", "header and footer started where the body broke, and changed its fonts and position"),
"ignore page breaks in header and footer": ("C22", "a page break in a header or footer recursed endlessly"),
"boxes break by their full height": ("C08", "boxes broke the page by their text height, were split across pages, ended off the left margin"),
"vertical alignment and position of boxes": ("C27", "justified text and boxes in cells ignored the vertical alignment"),
"table rows are high enough": ("C13", "rows were too low for the boxes in their cells"),
"cells spanning rows and columns reserve": ("C12", "cells spanning rows and columns did not reserve all slots of the rows below"),
"a line mixing font sizes is not torn": ("C26", "a line mixing font sizes was torn apart at the end of a page"),
"describe the left margin": ("C19", "the left margin was described as top"),
"describe style differences in a stable": ("C19", "style differences were described in random order"),
"keep words separated when describing": ("C19", "words separated by line breaks were glued in descriptions"),
"report read errors when loading hyphenation": ("C18", "read errors and over-long lines of hyphenation patterns were swallowed"),
"report invalid elements inside of cells": ("C18", "invalid attributes and styles of elements inside cells and grids were swallowed together with the element"),
"separate the areas of a grid row": ("C28", "areas separated by several blanks, tabs or line breaks were misread"),
"reject anything behind the last value": ("C11", "trailing garbage behind the fourth value of border, padding and margin was accepted"),
"report unbalanced braces": ("C11", "unbalanced braces in style sheets were accepted"),
"header rows with row spans": ("C14", "header rows with row spans started a needless page"),
"contents exactly filling a page are not torn": ("C08", "boxes and rows exactly filling a page were split by rounding"),
"contents aligned at the top of the page": ("C27", "contents aligned at the top of a page with top margin 0 jumped to its bottom by rounding"),
"report a style class without block": ("C11", "a class name without block at the end of a style sheet was accepted"),
"report positional variants without class name": ("C11", "a positional variant without class name was accepted"),
"skip images without any space left": ("C20", "an image without any space left was drawn with negative or native size outside of its area"),
"place images at negative positions": ("C21", "images at negative positions were drawn at the cursor"),
"characters beyond the basic multilingual": ("C22", "characters beyond the basic multilingual plane panicked"),
"report font files which are no": ("C24", "font files of other formats were skipped silently, incomplete ones panicked"),
"CDATA sections and comments do not": ("C17", "CDATA sections and comments split words"),
"skip damaged and incomplete images": ("C22", "a truncated PNG was embedded as a corrupt image"),
"limit the columns and rows a cell can span": ("C22", "a cell spanning millions of columns or rows ended the program for lack of memory"),
"white space around the colon of a positional": ("C11", "white space around the colon of a positional variant made it fail or be ignored"),
"report whatever surrounds the root element": ("C18", "anything behind the root element, and failures to read it, went unnoticed"),
"lines closer than their heights": ("C13", "with a line spacing below 1 a large line stuck out of its box or cell"),
"a centered or right-aligned word wider": ("C04", "a centered or right-aligned word reaching over the left edge of the page jumped to its right side"),
"full-width texts, boxes and tables end": ("C25", "texts, boxes and tables of unset width right of the left margin left the page at its right edge"),
"a text is broken into the same lines": ("C13", "a row or box whose width a line exactly fills was measured and printed with different line breaks by rounding"),
"a line feed by a negative number": ("C16", "a line feed by a negative number of lines moved down by the height of the last line instead of up"),
"a line which fills the printable area": ("C03", "a line filling the printable area up to 0.0002 mm was wrapped out of its text or cell by the PDF library"),
"texts with characters of no width": ("C21", "texts with combining characters were wrapped by the PDF library, and texts missing in the font overlapped the next one"),
"print nothing when loading style classes": ("C29", "a debug line was printed in front of the dump of the describe tool"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "f18e84b..HEAD"], capture_output=True, text=True).stdout
out = ["# Findings on the unchanged tree. `fixed:` entries suppress nothing; there is no unrepaired finding."]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    m = [k for k in P if s.startswith("fix: " + k)]
    assert len(m) == 1, l
    out.append(f"fixed: property={P[m[0]][0]} {h} {P[m[0]][1]}")
open("/verif/known_findings.txt", "w").write("\n".join(out) + "\n")
