_T = "The oracle, the PDF reader, gofpdf's font metrics and the Go toolchain are trusted; cases outside the generators' domain (DESIGN.md) are not covered."
_L = "property-based testing: random documents, reference layout model walked along the recorded drawing calls"
NOTES = {
 "C01": (_L + ", PDF text compared with the drawn text", "Random search over generated documents with shrinking; no proof. " + _T),
}
for _i in "C02 C03 C04 C07 C08 C09 C10 C12 C13 C14 C15 C16 C20 C25 C26 C27".split():
    NOTES[_i] = (_L, "Random search over generated documents with shrinking; no proof. " + _T)
NOTES["C05"] = ("property-based testing against a reference implementation of pattern hyphenation", "Random pattern sets and words with shrinking; no proof. " + _T)
NOTES["C06"] = ("property-based testing against a reference normaliser and algebraic laws", "Random strings with shrinking; no proof. " + _T)
NOTES["C11"] = ("property-based testing: random declarations and style sheets against a reference decoder, malformed-input injection", "Random search with shrinking; no proof. " + _T)
NOTES["C21"] = ("model-based testing: random engine operation sequences, cursor model, PDF operators compared", "Random search with shrinking; no proof. " + _T)
NOTES["C24"] = ("property-based testing: random font definition files, faulty font files", "Random search with shrinking; no proof. " + _T)
NOTES["C17"] = ("property-based testing: random element trees in random XML spelling and chunking compared with the loaded document", "Random search with shrinking; no proof. " + _T)
NOTES["C18"] = ("fuzzing and fault injection: truncation, read/write failures, byte mutations, single invalid elements and values at any depth", "Random search with shrinking; no proof. " + _T)
NOTES["C19"] = ("property-based testing: descriptions and their parsed dumps compared with a description derived from the element tree", "Random search with shrinking; no proof. " + _T)
NOTES["C22"] = ("fuzzing: random documents with arbitrary styles, fonts and images, output read by an independent PDF reader", "Random search with shrinking and limits on CPU, memory, pages and engine calls; no proof. " + _T)
NOTES["C23"] = ("differential property-based testing under the race detector: repeated, reordered and concurrent renderings against renderings in fresh processes", "Random search with shrinking; schedules are those the Go scheduler happens to choose, the race detector reports unordered accesses of executed code. " + _T)
NOTES["C28"] = ("property-based testing: random valid and faulty grids in random documents; differential rendering without grids", "Random search with shrinking; no proof. " + _T)
NOTES["C29"] = ("property-based testing of the built binaries in scratch directories with fault injection, output compared with the library's", "Random search with shrinking; no proof. " + _T)
