package main

import (
	_ "embed"
	"strings"
	"sync"
	"unicode"
)

//go:embed patterns-en-us.txt
var enUsPatterns string

//go:embed patterns-latin.txt
var latinPatterns string

// Liang is the reference implementation of pattern based hyphenation.
type Liang struct {
	pats   map[string][]int // letters -> digit before each letter and behind the last one
	maxLen int
}

func newLiang(patterns []string) *Liang {
	l := &Liang{pats: map[string][]int{}}
	for _, p := range patterns {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		var letters []rune
		digits := []int{0}
		for _, r := range p {
			if r >= '0' && r <= '9' {
				digits[len(digits)-1] = int(r - '0')
			} else {
				letters = append(letters, r)
				digits = append(digits, 0)
			}
		}
		l.pats[string(letters)] = digits
		if len(letters) > l.maxLen {
			l.maxLen = len(letters)
		}
	}
	return l
}

// divisions lists the positions (letters before them) where w is divided.
func (l *Liang) divisions(w string) []int {
	rs := []rune(w)
	if len(rs) < 3 || strings.ContainsRune(w, ' ') || len(w) > 100 {
		return nil
	}
	dotted := make([]rune, 0, len(rs)+2)
	dotted = append(dotted, '.')
	for _, r := range rs {
		dotted = append(dotted, unicode.ToLower(r))
	}
	dotted = append(dotted, '.')
	val := make([]int, len(dotted)+1) // val[i]: in front of dotted[i]
	for i := range dotted {
		for j := i + 1; j <= len(dotted) && j-i <= l.maxLen; j++ {
			for k, d := range l.pats[string(dotted[i:j])] {
				if d > val[i+k] {
					val[i+k] = d
				}
			}
		}
	}
	var out []int
	last := 0
	for p := 2; p <= len(rs)-2; p++ { // p letters before the division
		if val[p+1]%2 == 1 && p-last >= 2 {
			out = append(out, p)
			last = p
		}
	}
	return out
}

func (l *Liang) parts(w string) []string {
	rs := []rune(w)
	var out []string
	last := 0
	for _, p := range l.divisions(w) {
		out = append(out, string(rs[last:p]))
		last = p
	}
	return append(out, string(rs[last:]))
}

var (
	refEnUs  = sync.OnceValue(func() *Liang { return newLiang(strings.Fields(enUsPatterns)) })
	refLatin = sync.OnceValue(func() *Liang { return newLiang(strings.Fields(latinPatterns)) })
)
