package checks

import (
	"bytes"
	_ "embed"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/text"

	"xpdfmc/core"
)

//go:embed data/en-us.txt
var enUsText string

//go:embed data/latin.txt
var latinText string

// liang is an independent implementation of Liang's algorithm.
type liang struct {
	pats map[string][]int // letters -> weights
	max  int
}

func newLiang(lines []string) *liang {
	l := &liang{pats: map[string][]int{}}
	for _, s := range lines {
		s = strings.Trim(s, " \t\r\n")
		if s == "" {
			continue
		}
		var letters []rune
		ws := []int{0}
		for _, c := range s {
			if c >= '0' && c <= '9' {
				ws[len(ws)-1] = int(c - '0')
			} else {
				letters = append(letters, c)
				ws = append(ws, 0)
			}
		}
		l.pats[string(letters)] = ws
		if len(letters) > l.max {
			l.max = len(letters)
		}
	}
	return l
}

// split gives the parts of a word.
func (l *liang) split(w string) []string {
	if len(w) < 3 || len(w) > 100 || strings.Contains(w, " ") {
		return []string{w}
	}
	rs := []rune(w)
	dotted := []rune{'.'}
	for _, c := range rs {
		dotted = append(dotted, unicode.ToLower(c))
	}
	dotted = append(dotted, '.')
	gaps := make([]int, len(dotted)+1) // gaps[k]: before dotted[k]
	for from := range dotted {
		for to := from + 1; to <= len(dotted) && to-from <= l.max; to++ {
			ws, ok := l.pats[string(dotted[from:to])]
			if !ok {
				continue
			}
			for k, v := range ws {
				if v > gaps[from+k] {
					gaps[from+k] = v
				}
			}
		}
	}
	var out []string
	last := 0
	for k := 1; k < len(rs); k++ {
		if gaps[k+1]%2 == 1 && k-last >= 2 && len(rs)-k >= 2 {
			out = append(out, string(rs[last:k]))
			last = k
		}
	}
	return append(out, string(rs[last:]))
}

func hashStrings(ss ...string) uint64 {
	h := fnv.New64a()
	for _, s := range ss {
		io.WriteString(h, s)
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func judgeC01(r *core.Rec, w string, parts []string) {
	if strings.Join(parts, "") != w {
		r.Fail("not-lossless", "%q is split into %q, which is not the word", w, parts)
		return
	}
	for _, p := range parts {
		if utf8.ValidString(w) && !utf8.ValidString(p) {
			r.Fail("character-cut", "%q is split into %q: a character is cut in two", w, parts)
			return
		}
		if len(parts) > 1 && utf8.RuneCountInString(p) < 2 {
			r.Fail("short-part", "%q is split into %q: a part of fewer than two characters", w, parts)
			return
		}
	}
	if len(parts) == 0 {
		r.Fail("no-part", "%q is split into nothing", w)
	}
}

func judgeC02(r *core.Rec, w string, parts []string, ref *liang) {
	want := ref.split(w)
	if strings.Join(parts, "|") != strings.Join(want, "|") {
		r.Fail("break-points", "%q is split into %q, the patterns say %q", w, parts, want)
	}
}

type hyphPair struct {
	name string
	h    *hyphenation.Hyphenator
	ref  *liang
}

var hyphCache []hyphPair

const alphaSet = "a1a\n1b\nc1\nab3a4\n.a1b2\n1é\né1a\nß1\n1日1\n1本1\n1.2\n'1a\n-1\nа1б\n1i\ni1\nk1\n1k"

func hyphs() []hyphPair {
	if hyphCache == nil {
		mk := func(name, text string) {
			h, err := hyphenation.Load(strings.NewReader(text))
			if err != nil {
				panic(fmt.Sprintf("patterns rejected: %v", err))
			}
			hyphCache = append(hyphCache, hyphPair{name, h, newLiang(strings.Split(text, "\n"))})
		}
		hyphCache = append(hyphCache, hyphPair{"built-in en-us", hyphenation.NewEnUs(), newLiang(strings.Split(enUsText, "\n"))})
		hyphCache = append(hyphCache, hyphPair{"built-in latin", hyphenation.NewLatin(), newLiang(strings.Split(latinText, "\n"))})
		mk("mixed", alphaSet)
		all := ""
		for _, c := range "abcdefghijklmnopqrstuvwxyzäöüßéèçñ日本語абв0-'." {
			if c >= '0' && c <= '9' || c == '.' {
				continue
			}
			all += "1" + string(c) + "\n"
		}
		mk("every gap", all)
		mk("none", "")
	}
	return hyphCache
}

const letters = "abcdefghijklmnopqrstuvwxyz"

// hyphSpaces enumerates words; judge gets each with each hyphenator.
func hyphSpaces(tier string, judge func(r *core.Rec, w string, p hyphPair, parts []string)) []core.Space {
	do := func(r *core.Rec, w string) {
		for _, p := range hyphs() {
			parts := p.h.Hyphenate(w)
			r.Trans(1)
			r.Impl(1)
			judge(r, w, p, parts)
			if r.Failed() {
				return
			}
			if len(parts) > 1 {
				r.Obs(hashStrings(append(parts, p.name)...))
			}
		}
	}
	var out []core.Space
	add := func(name string, n int64, word func(i int64) string) {
		out = append(out, core.Space{Name: name, N: n, Run: func(i int64, r *core.Rec) { do(r, word(i)) },
			Desc: func(i int64) string { return fmt.Sprintf("word %q with every hyphenator", word(i)) }})
	}
	n := 4
	if tier == "thorough" {
		n = 5
	}
	// all words of up to n letters (blocks of 26 per case would hide nothing: one word per case)
	add("all-words", core.Seqs(26, 1, n), func(i int64) string {
		var b strings.Builder
		for _, k := range core.Seq(i, 26, 1, n) {
			b.WriteByte(letters[k])
		}
		return b.String()
	})
	mix := []string{"a", "b", "A", "é", "日", "É", "ß", "1", "-", "'", " ", "İ", "."}
	m := 5
	if tier == "thorough" {
		m = 6
	}
	add("mixed-scripts", core.Seqs(len(mix), 0, m), func(i int64) string {
		var b strings.Builder
		for _, k := range core.Seq(i, len(mix), 0, m) {
			b.WriteString(mix[k])
		}
		return b.String()
	})
	// every code point in the middle, at the start, at the end of a word
	add("every-code-point", 0x110000*3, func(i int64) string {
		c := string(rune(i / 3))
		switch i % 3 {
		case 0:
			return "aba" + c + "aba"
		case 1:
			return c + "ababa"
		default:
			return "ababa" + c
		}
	})
	// words of every length, around the limit of 100 bytes
	bases := []string{"a", "ab", "abc", "é", "aé", "日", "hyphen", "Representation", "m1a-"}
	add("lengths", int64(len(bases))*130, func(i int64) string {
		b := strings.Repeat(bases[i%int64(len(bases))], 130)
		return string([]rune(b)[:i/int64(len(bases))])
	})
	// invalid UTF-8 and every byte value
	add("bytes", 256*256, func(i int64) string {
		return "ab" + string([]byte{byte(i)}) + "ba" + string([]byte{byte(i >> 8)})
	})
	ws := strings.Fields(dictionary)
	add("dictionary", int64(len(ws))*4, func(i int64) string {
		w := ws[i/4]
		switch i % 4 {
		case 1:
			return strings.ToUpper(w)
		case 2:
			return strings.ToUpper(w[:1]) + w[1:] + "."
		case 3:
			return "(" + w + ws[(i/4*7+3)%int64(len(ws))]
		}
		return w
	})
	return out
}

//go:embed data/words.txt
var dictionary string

func init() {
	core.Register(&core.Check{ID: "C01", Rule: "every word of an alphabet up to a length, every Unicode code point in three positions, words of every length and every byte value, with five hyphenators: parts joined must be the word, be valid text and have two characters",
		Spaces: func(t string) []core.Space {
			return hyphSpaces(t, func(r *core.Rec, w string, p hyphPair, parts []string) { judgeC01(r, w, parts) })
		}})
	core.Register(&core.Check{ID: "C02", Rule: "all sets of up to two (thorough: three) small patterns x all words over {a,b}, plus the words of C01 with built-in and mixed patterns, against an independent implementation of Liang's algorithm",
		Spaces: func(t string) []core.Space {
			sp := hyphSpaces(t, func(r *core.Rec, w string, p hyphPair, parts []string) {
				if utf8.ValidString(w) {
					judgeC02(r, w, parts, p.ref)
				}
			})
			return append(sp, patternSets(t)...)
		}})
	core.Register(&core.Check{ID: "C03", Rule: "pattern sources delivered in every possible chunking, with every line ending and blank, and failing at every byte; the hyphenator must act on all lines or an error be returned",
		Spaces: c03Spaces})
	core.Register(&core.Check{ID: "C04", Rule: "all strings over an alphabet with all whitespace kinds and the backslash up to a length, against the definition; all twin removals over {a,b}",
		Spaces: c04Spaces})
}

// universe of small patterns over {a,b,.}
func patternUniverse() []string {
	var out []string
	ls := []string{"a", "b", "aa", "ab", "ba", "bb", ".a", "a.", ".b", "b.", "aba"}
	for _, l := range ls {
		n := len(l) + 1
		for c := int64(0); c < core.Prod(4, 4, 4); c++ {
			g := core.Digits(c, 4, 4, 4)
			ok := true
			s := ""
			for k := 0; k < 3; k++ {
				if k < n {
					if g[k] > 0 {
						s += fmt.Sprint(g[k])
					}
					if k < len(l) {
						s += l[k : k+1]
					}
				} else if g[k] != 0 {
					ok = false
				}
			}
			if len(l) == 3 {
				s += l[2:]
			}
			if ok && s != l {
				out = append(out, s)
			}
		}
	}
	return out
}

// longPatterns are all patterns of 2..6 letters over {a,b}, with and without word ends, that have one
// or two weights of 1..3 at any place.
func longPatterns() []string {
	var out []string
	for i := int64(0); i < core.Seqs(2, 2, 6); i++ {
		var l []byte
		for _, k := range core.Seq(i, 2, 2, 6) {
			l = append(l, "ab"[k])
		}
		for ends := 0; ends < 4; ends++ {
			full := string(l)
			if ends&1 == 1 {
				full = "." + full
			}
			if ends&2 == 2 {
				full += "."
			}
			n := len(full) + 1
			put := func(at, w, at2, w2 int) {
				var b strings.Builder
				for k := 0; k < n; k++ {
					if k == at {
						fmt.Fprint(&b, w)
					} else if k == at2 {
						fmt.Fprint(&b, w2)
					}
					if k < len(full) {
						b.WriteByte(full[k])
					}
				}
				out = append(out, b.String())
			}
			for at := 0; at < n; at++ {
				for w := 1; w <= 3; w++ {
					put(at, w, -1, 0)
					for at2 := at + 1; at2 < n && len(l) <= 4; at2++ {
						put(at, w, at2, 1)
						put(at, w, at2, 2)
					}
				}
			}
		}
	}
	return out
}

var abWords []string

func getABWords() []string {
	if abWords == nil {
		for i := int64(0); i < core.Seqs(2, 3, 6); i++ {
			var b strings.Builder
			for _, k := range core.Seq(i, 2, 3, 6) {
				b.WriteByte("ab"[k])
			}
			abWords = append(abWords, b.String())
		}
	}
	return abWords
}

func patternSets(tier string) []core.Space {
	u := patternUniverse()
	// thin out the universe for triples
	var small []string
	for k := 0; k < len(u); k += 7 {
		small = append(small, u[k])
	}
	set := func(us []string, n int) core.Space {
		radix := make([]int, n)
		for k := range radix {
			radix[k] = len(us)
		}
		get := func(i int64) []string {
			var out []string
			for _, k := range core.Digits(i, radix...) {
				out = append(out, us[k])
			}
			return out
		}
		return core.Space{Name: fmt.Sprintf("pattern-sets-of-%d", n), N: core.Prod(radix...),
			Run: func(i int64, r *core.Rec) {
				ps := get(i)
				h, err := hyphenation.Load(strings.NewReader(strings.Join(ps, "\n")))
				if err != nil {
					r.Fail("rejected", "patterns %q are rejected: %v", ps, err)
					return
				}
				ref := newLiang(ps)
				ws := getABWords()
				for _, w := range ws {
					judgeC02(r, w, h.Hyphenate(w), ref)
					if r.Failed() {
						return
					}
				}
				r.Trans(len(ws))
				r.Impl(len(ws))
				r.Obs(hashStrings(ps...))
			},
			Desc: func(i int64) string { return fmt.Sprintf("patterns %q, all words over {a,b} of 3..6 letters", get(i)) },
		}
	}
	out := []core.Space{set(u, 1), set(u, 2)}
	// longer patterns, up to whole words with both ends
	long := longPatterns()
	run := func(name string, n int64, get func(i int64) []string) {
		out = append(out, core.Space{Name: name, N: n,
			Run: func(i int64, r *core.Rec) {
				ps := get(i)
				h, err := hyphenation.Load(strings.NewReader(strings.Join(ps, "\n")))
				if err != nil {
					r.Fail("rejected", "patterns %q are rejected: %v", ps, err)
					return
				}
				ref := newLiang(ps)
				ws := getABWords()
				for _, w := range ws {
					judgeC02(r, w, h.Hyphenate(w), ref)
					if r.Failed() {
						return
					}
				}
				r.Trans(len(ws))
				r.Impl(len(ws))
				r.Obs(hashStrings(ps...))
			},
			Desc: func(i int64) string { return fmt.Sprintf("patterns %q, all words over {a,b} of 3..6 letters", get(i)) }})
	}
	run("long-patterns", int64(len(long)), func(i int64) []string { return long[i : i+1] })
	step := 41
	if tier == "thorough" {
		step = 7
	}
	var some []string
	for k := 0; k < len(long); k += step {
		some = append(some, long[k])
	}
	run("long-and-short", core.Prod(len(some), len(small)), func(i int64) []string {
		g := core.Digits(i, len(some), len(small))
		return []string{some[g[0]], small[g[1]]}
	})
	if tier == "thorough" {
		out = append(out, set(small, 3))
	}
	// every pair of weights 0..9 that compete for the same gap
	getWeights := func(i int64) []string {
		g := core.Digits(i, 10, 10, 10, 10, 4)
		p := fmt.Sprintf("a%db%db%d", g[1], g[2], g[3])
		if g[4]&1 == 1 {
			p = "." + p
		}
		if g[4]&2 == 2 {
			p += "."
		}
		return []string{fmt.Sprintf("b%db", g[0]), p}
	}
	out = append(out, core.Space{Name: "weights", N: core.Prod(10, 10, 10, 10, 4),
		Run:  func(i int64, r *core.Rec) { judgePatterns(r, getWeights(i), getABWords()) },
		Desc: func(i int64) string { return fmt.Sprintf("patterns %q", getWeights(i)) }})
	// patterns of every length, as long as a word can be, at every word end
	lens, al := 99, []string{"abcdefghijklmnopqrstuvwxyz", "aéb日cßd"}
	getLong := func(i int64) ([]string, []string) {
		g := core.Digits(i, lens, len(al), 4, 5, 2)
		base := []rune(strings.Repeat(al[g[1]], 100))
		n := g[0] + 2
		l := base[:n]
		at := []int{0, 2, n / 2, n - 2, n}[g[3]]
		p := string(l[:at]) + []string{"3", "9"}[g[4]] + string(l[at:])
		if g[2]&1 == 1 {
			p = "." + p
		}
		if g[2]&2 == 2 {
			p += "."
		}
		w := string(l)
		return []string{p, "1" + string(l[1:2])}, []string{w, "x" + w, w + "yz", "xx" + w + "yy", string(l[:n-1]), strings.ToUpper(w)}
	}
	out = append(out, core.Space{Name: "pattern-lengths", N: core.Prod(lens, len(al), 4, 5, 2),
		Run: func(i int64, r *core.Rec) {
			ps, ws := getLong(i)
			judgePatterns(r, ps, ws)
		},
		Desc: func(i int64) string { ps, ws := getLong(i); return fmt.Sprintf("patterns %q, words %q", ps, ws) }})
	return out
}

func judgePatterns(r *core.Rec, ps, ws []string) {
	h, err := hyphenation.Load(strings.NewReader(strings.Join(ps, "\n")))
	if err != nil {
		r.Fail("rejected", "patterns %q are rejected: %v", ps, err)
		return
	}
	ref := newLiang(ps)
	for _, w := range ws {
		judgeC02(r, w, h.Hyphenate(w), ref)
		if r.Failed() {
			return
		}
	}
	r.Trans(len(ws))
	r.Impl(len(ws))
	r.Obs(hashStrings(ps...))
}

// chunkReader delivers data in given chunk lengths, then fails or ends.
type chunkReader struct {
	data   []byte
	cuts   uint64 // bit k: cut behind byte k
	fixed  int    // fixed chunk size if > 0
	pos    int
	fail   int  // fail behind this many bytes, -1 never
	joined bool // the error comes together with the last bytes
	empty  int  // every empty-th read delivers nothing
	reads  int
	err    error
}

var errRead = errors.New("injected read failure")

func (c *chunkReader) Read(p []byte) (int, error) {
	c.reads++
	if c.empty > 0 && c.reads%c.empty == 0 {
		return 0, nil
	}
	end := len(c.data)
	if c.fail >= 0 && c.fail < end {
		end = c.fail
	}
	if c.pos >= end {
		if c.fail >= 0 {
			return 0, c.err
		}
		return 0, io.EOF
	}
	n := 0
	for n < len(p) && c.pos < end {
		p[n] = c.data[c.pos]
		n++
		c.pos++
		if c.fixed > 0 && n >= c.fixed {
			break
		}
		if c.fixed == 0 && c.pos-1 < 63 && c.cuts>>(uint(c.pos-1))&1 == 1 {
			break
		}
	}
	if c.joined && c.pos >= end {
		if c.fail >= 0 {
			return n, c.err
		}
		return n, io.EOF
	}
	return n, nil
}

var c03Words []string
var c03Refs sync.Map // expected divisions by source

func c03Judge(r *core.Rec, h *hyphenation.Hyphenator, lines []string, what string) {
	if c03Words == nil {
		for i := int64(0); i < core.Seqs(4, 3, 4); i++ {
			var b strings.Builder
			for _, k := range core.Seq(i, 4, 3, 4) {
				b.WriteByte("abcd"[k])
			}
			c03Words = append(c03Words, b.String())
		}
	}
	key := fmt.Sprintf("%d/%x", len(lines), hashStrings(lines...))
	cached, ok := c03Refs.Load(key)
	if !ok {
		ref := newLiang(lines)
		var all []string
		for _, w := range c03Words {
			all = append(all, strings.Join(ref.split(w), "|"))
		}
		cached = all
		c03Refs.Store(key, cached)
	}
	for k, w := range c03Words {
		got := h.Hyphenate(w)
		if want := cached.([]string)[k]; strings.Join(got, "|") != want {
			r.Fail("incomplete", "%s: %q is split into %q, all lines together say %q", what, w, got, want)
			return
		}
	}
}

func c03Spaces(tier string) []core.Space {
	srcs := [][]string{
		{"a1b", "b1c"}, {"a1b", "a2b"}, {"1a", "2b", "1c"}, {".a1", "d1."}, {"a1b", "", "c1d"}, {"a2b", "a1b", "b1a"},
	}
	nls := []string{"\n", "\r\n", " \n", "\n\n", "\t\r\n ", "\n  \n"}
	tails := []string{"", "\n", "\r\n", " ", "\n\n"}
	text := func(s, n, t int) string { return strings.Join(srcs[s], nls[n]) + tails[t] }
	bits := 12
	if tier == "thorough" {
		bits = 16
	}
	var out []core.Space
	{
		get := func(i int64) (string, *chunkReader, []string) {
			g := core.Digits(i, len(srcs), len(nls), len(tails), 2, 2)
			cuts := uint64(i / core.Prod(len(srcs), len(nls), len(tails), 2, 2))
			s := text(g[0], g[1], g[2])
			return s, &chunkReader{data: []byte(s), cuts: cuts, fail: -1, joined: g[3] == 1, empty: g[4] * 3}, srcs[g[0]]
		}
		out = append(out, core.Space{Name: "chunkings", N: core.Prod(len(srcs), len(nls), len(tails), 2, 2) << uint(bits-1) / 8 * 1,
			Run: func(i int64, r *core.Rec) {
				s, rd, lines := get(i)
				h, err := hyphenation.Load(rd)
				r.Trans(rd.reads)
				r.Impl(1)
				if err != nil {
					r.Fail("rejected", "source %q is rejected: %v", s, err)
					return
				}
				c03Judge(r, h, lines, fmt.Sprintf("source %q", s))
				r.Obs(hashStrings(s, fmt.Sprint(rd.cuts)))
			},
			Desc: func(i int64) string {
				s, rd, _ := get(i)
				return fmt.Sprintf("source %q, chunks cut at bits %b, end with last bytes %v, empty reads %d", s, rd.cuts, rd.joined, rd.empty)
			}})
	}
	{
		// read failure behind every byte, for small sources and for the en-us patterns
		fails := []error{errRead, io.ErrUnexpectedEOF, io.ErrClosedPipe}
		var cases [][2]int // source index (-1 en-us), position
		for k := range srcs {
			for p := 0; p <= len(text(k, 0, 1)); p++ {
				cases = append(cases, [2]int{k, p})
			}
		}
		step := 17
		if tier == "thorough" {
			step = 1
		}
		for p := 0; p <= len(enUsText); p += step {
			cases = append(cases, [2]int{-1, p})
		}
		chunk := []int{1 << 20, 1, 4096}
		get := func(i int64) (string, *chunkReader) {
			g := core.Digits(i, len(fails), 2, len(chunk))
			c := cases[i/core.Prod(len(fails), 2, len(chunk))]
			s := enUsText
			if c[0] >= 0 {
				s = text(c[0], 0, 1)
			}
			fx := chunk[g[2]]
			if c[0] < 0 && fx == 1 {
				fx = 513
			}
			return s, &chunkReader{data: []byte(s), fixed: fx, fail: c[1], joined: g[1] == 1, err: fails[g[0]]}
		}
		out = append(out, core.Space{Name: "read-failures", N: core.Prod(len(fails), 2, len(chunk)) * int64(len(cases)),
			Run: func(i int64, r *core.Rec) {
				_, rd := get(i)
				h, err := hyphenation.Load(rd)
				r.Trans(rd.reads)
				r.Impl(1)
				r.Obs(uint64(rd.fail)<<8 | uint64(rd.fixed&0xff))
				if err == nil || h != nil {
					r.Fail("failure-ignored", "the source fails behind byte %d of %d, but loading returns error %v and hyphenator %v", rd.fail, len(rd.data), err, h != nil)
				}
			},
			Desc: func(i int64) string {
				s, rd := get(i)
				if len(s) > 200 {
					s = "the en-us patterns"
				}
				return fmt.Sprintf("source %.200q, reads of %d bytes, failing behind byte %d with %v (joined %v)", s, rd.fixed, rd.fail, rd.err, rd.joined)
			}})
	}
	{
		// many lines, long lines: n lines of m letters
		ns := []int{1, 2, 100, 1000, 5000}
		ms := []int{2, 10, 60, 1000, 30000, 65000, 65535, 65536, 65537, 200000}
		get := func(i int64) ([]string, string) {
			g := core.Digits(i, len(ns), len(ms), 3)
			var lines []string
			n, m := ns[g[0]], ms[g[1]]
			for n*m > 3000000 && n > 2 {
				n /= 2
			}
			for k := 0; k < n; k++ {
				b := []byte(strings.Repeat("z", m))
				for q, v := 0, k; q < 6 && q < m; q, v = q+1, v/20 {
					b[q] = 'e' + byte(v%20)
				}
				lines = append(lines, string(b))
			}
			pos := []int{0, len(lines) / 2, len(lines)}[g[2]]
			lines = append(lines[:pos:pos], append([]string{"a1b", "c1d"}, lines[pos:]...)...)
			return lines, fmt.Sprintf("%d lines of %d letters with \"a1b\", \"c1d\" at line %d", n, m, pos)
		}
		out = append(out, core.Space{Name: "big-sources", N: core.Prod(len(ns), len(ms), 3),
			Run: func(i int64, r *core.Rec) {
				lines, what := get(i)
				h, err := hyphenation.Load(bytes.NewReader([]byte(strings.Join(lines, "\n"))))
				r.Trans(len(lines))
				r.Impl(1)
				r.Obs(hashStrings(what))
				if err != nil {
					if h != nil {
						r.Fail("failure-ignored", "error and hyphenator for %s", what)
					}
					return // rejected as a whole
				}
				c03Judge(r, h, []string{"a1b", "c1d"}, what)
			},
			Desc: func(i int64) string { _, w := get(i); return w }})
	}
	{
		// lines with every kind of character, at the start, in the middle or at the end of the line
		chars := []rune{0xa0, 0xad, 0xe9, 0xdf, 0x3b1, 0x65e5, 0xfeff, 0x2003, 0x2028, 0x301}
		for c := rune('!'); c < 127; c++ {
			if (c < '0' || c > '9') && (c < 'A' || c > 'Z') && c != '.' {
				chars = append(chars, c)
			}
		}
		get := func(i int64) ([]string, []string, bool) {
			g := core.Digits(i, len(chars), 9, 3, 2)
			c := string(chars[g[0]])
			l := []string{c + "1x", "x1" + c, "a1" + c + "1b", "1" + c, c + c + "1" + c, "a1b " + c, "a1b\tc" + c, "0z0z1" + c, c + "0x0z1x0"}[g[1]]
			lines := [][]string{{l, "a1b"}, {"a1b", l}, {l}}[g[2]]
			return lines, []string{"zz" + c + "xzz", "zzx" + c + "zz", "aa" + c + "bb", "z" + c + "zz", "z" + c + c + c + "z", "aabb", c + "xx" + c + c + "x"}, g[3] == 1
		}
		out = append(out, core.Space{Name: "characters", N: core.Prod(len(chars), 9, 3, 2),
			Run: func(i int64, r *core.Rec) {
				lines, words, crlf := get(i)
				nl := "\n"
				if crlf {
					nl = "\r\n"
				}
				h, err := hyphenation.Load(strings.NewReader(strings.Join(lines, nl) + nl))
				r.Trans(len(lines))
				r.Impl(1)
				r.Obs(hashStrings(lines...))
				if err != nil {
					r.Fail("rejected", "source %q is rejected: %v", lines, err)
					return
				}
				ref := newLiang(lines)
				for _, w := range words {
					if got, want := h.Hyphenate(w), ref.split(w); strings.Join(got, "|") != strings.Join(want, "|") {
						r.Fail("incomplete", "source %q: %q is split into %q, all lines together say %q", lines, w, got, want)
						return
					}
				}
			},
			Desc: func(i int64) string { l, _, _ := get(i); return fmt.Sprintf("source %q", l) }})
	}
	{
		// a long line is one line, wherever buffers end
		var ms []int
		for p := 16; p <= 1<<17; p *= 2 {
			for d := -4; d <= 2; d++ {
				ms = append(ms, p+d)
			}
		}
		get := func(i int64) (string, []string, string) {
			g := core.Digits(i, len(ms), 3, 2)
			m := ms[g[0]]
			long := strings.Repeat("z", m) + "a1b"
			lines := [][]string{{long, "c1d"}, {"c1d", long}, {"c1d", long, "b1c"}}[g[1]]
			src := strings.Join(lines, "\n")
			if g[2] == 1 {
				src += "\n"
			}
			return src, lines, fmt.Sprintf("a line of %d letters and a1b (%d lines, end %d)", m, len(lines), g[2])
		}
		out = append(out, core.Space{Name: "long-lines", N: core.Prod(len(ms), 3, 2),
			Run: func(i int64, r *core.Rec) {
				src, lines, what := get(i)
				h, err := hyphenation.Load(strings.NewReader(src))
				r.Trans(len(lines))
				r.Impl(1)
				r.Obs(hashStrings(what))
				if err != nil {
					if h != nil {
						r.Fail("failure-ignored", "error and hyphenator for %s", what)
					}
					return // rejected as a whole
				}
				c03Judge(r, h, lines, what)
			},
			Desc: func(i int64) string { _, _, w := get(i); return w }})
	}
	return out
}

func c04Spaces(tier string) []core.Space {
	al := []string{"a", " ", "\t", "\n", "\r", "\\", "é"}
	n := 7
	if tier == "thorough" {
		n = 8
	}
	str := func(i int64) string {
		var b strings.Builder
		for _, k := range core.Seq(i, len(al), 0, n) {
			b.WriteString(al[k])
		}
		return b.String()
	}
	ref := func(s string) string {
		fs := strings.FieldsFunc(s, func(c rune) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' })
		out := ""
		for k, f := range fs {
			if k > 0 && !strings.HasSuffix(fs[k-1], "\\") && !strings.HasPrefix(f, "\\") {
				out += " "
			}
			out += f
		}
		return out
	}
	judge := func(r *core.Rec, s string) {
		got := text.WhitespaceRectified(s)
		r.Trans(1)
		r.Impl(1)
		r.Obs(hashStrings(got))
		if want := ref(s); got != want {
			r.Fail("not-canonical", "%q becomes %q instead of %q", s, got, want)
		} else if again := text.WhitespaceRectified(got); again != got {
			r.Fail("not-idempotent", "%q becomes %q, then %q", s, got, again)
		}
	}
	out := []core.Space{{Name: "all-strings", N: core.Seqs(len(al), 0, n),
		Run:  func(i int64, r *core.Rec) { judge(r, str(i)) },
		Desc: func(i int64) string { return fmt.Sprintf("%q", str(i)) }},
		{Name: "every-code-point", N: 0x110000,
			Run:  func(i int64, r *core.Rec) { c := string(rune(i)); judge(r, c+" x "+c+c+"\n"+c+"  y"+c) },
			Desc: func(i int64) string { return fmt.Sprintf("code point %x", i) }},
		{Name: "runs", N: 300 * 8, Run: func(i int64, r *core.Rec) { judge(r, runString(i)) }, Desc: func(i int64) string { return fmt.Sprintf("%q", runString(i)) }},
	}
	twins := []string{" ", "a", "b", "ab", "aa", "aba", "é"}
	al2 := []string{"a", "b", " ", "é"}
	m := 8
	if tier == "thorough" {
		m = 10
	}
	get2 := func(i int64) (string, string) {
		var b strings.Builder
		for _, k := range core.Seq(i/int64(len(twins)), len(al2), 0, m) {
			b.WriteString(al2[k])
		}
		return b.String(), twins[i%int64(len(twins))]
	}
	out = append(out, core.Space{Name: "twins", N: core.Seqs(len(al2), 0, m) * int64(len(twins)),
		Run: func(i int64, r *core.Rec) {
			s, t := get2(i)
			got := text.RemoveTwins(s, t)
			r.Trans(1)
			r.Impl(1)
			r.Obs(hashStrings(got, t))
			if strings.Contains(got, t+t) {
				r.Fail("twin-left", "%q without doubled %q becomes %q", s, t, got)
			}
			if len(t) == 1 || t == "é" {
				// runs of t shrink to one, everything else stays
				want := s
				for strings.Contains(want, t+t) {
					want = strings.Replace(want, t+t, t, 1)
				}
				if got != want {
					r.Fail("twin-changed", "%q without doubled %q becomes %q instead of %q", s, t, got, want)
				}
			} else if !strings.Contains(s, t+t) && got != s || (len(s)-len(got))%len(t) != 0 || len(got) > len(s) {
				r.Fail("twin-changed", "%q without doubled %q becomes %q", s, t, got)
			}
		},
		Desc: func(i int64) string { s, t := get2(i); return fmt.Sprintf("RemoveTwins(%q, %q)", s, t) }})
	return out
}

func runString(i int64) string {
	n := int(i / 8)
	ws := []string{" ", "\n", " \n", "\t \r"}[i%4]
	s := "a" + strings.Repeat(ws, n) + "b"
	if n >= 290 {
		// across all sizes of buffers
		m := 1 << uint(n-290+5)
		s = "a" + strings.Repeat(ws, m) + "b" + strings.Repeat(" ab ", m)
	}
	if i%8 >= 4 {
		s += strings.Repeat(" "+"\\"+ws, n%17)
	}
	return s
}
