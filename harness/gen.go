package main

// Document generators. All documents are well-formed JSON with an object or
// array at the root and unique keys per object (as written).

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"
)

// V is an abstract value: scalars carry their raw text.
type V struct {
	K    Kind
	Text string
	Keys []string
	Kids []*V
}

func vs(k Kind, s string) *V    { return &V{K: k, Text: s} }
func vstr(content string) *V    { return &V{K: KStr, Text: `"` + content + `"`} }
func vnum(s string) *V          { return &V{K: KNum, Text: s} }
func varr(kids ...*V) *V        { return &V{K: KArr, Kids: kids} }
func (v *V) add(k string, x *V) { v.Keys = append(v.Keys, k); v.Kids = append(v.Kids, x) }
func (v *V) has(k string) bool {
	for _, x := range v.Keys {
		if x == k {
			return true
		}
	}
	return false
}

type G struct {
	r          *rand.Rand
	keys       []string // pool of member names
	strMix     int      // favoured string style, -1 mixed
	ws         int      // whitespace style
	wsRun      int      // one long run of this length
	noEmptyKey bool
	dup        bool // objects may repeat a name
	twins      bool // the document has paths that are the same text when joined
}

func newG(r *rand.Rand) *G { return &G{r: r, strMix: -1} }

func (g *G) n(k int) int        { return g.r.IntN(k) }
func (g *G) p(percent int) bool { return g.r.IntN(100) < percent }

func pick[X any](r *rand.Rand, xs []X) X { return xs[r.IntN(len(xs))] }

// size picks a size up to max: mostly small, otherwise a boundary.
func (g *G) size(max int) int {
	for try := 0; try < 20; try++ {
		n := 0
		switch g.n(10) {
		case 0, 1, 2, 3:
			n = g.n(9)
		case 4, 5, 6:
			if len(dict.Ints) > 0 {
				n = pick(g.r, dict.Ints)
			}
		case 7, 8:
			n = 1<<g.n(15) + g.n(3) - 1
		case 9:
			n = g.n(max + 1)
		}
		if n <= max {
			return n
		}
	}
	return g.n(max + 1)
}

// bigSize prefers boundaries over small sizes.
func (g *G) bigSize(max int) int {
	for try := 0; try < 20; try++ {
		n := 0
		switch g.n(4) {
		case 0, 1:
			if len(dict.Ints) > 0 {
				n = pick(g.r, dict.Ints)
			}
		case 2:
			n = 1<<g.n(15) + g.n(3) - 1
		case 3:
			n = g.n(max + 1)
		}
		if n <= max {
			return n
		}
	}
	return g.n(max + 1)
}

// escape turns raw text into string content.
func escape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"':
			b.WriteString(`\"`)
		case c == '\\':
			b.WriteString(`\\`)
		case c == '\n':
			b.WriteString(`\n`)
		case c < 0x20:
			fmt.Fprintf(&b, `\u%04x`, c)
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

var words = []string{"a", "b", "c", "ab", "abc", "key", "val", "name", "id", "x", "items", "user", "data", "0", "1", "2", "z9", "k", "value", "Key"}
var confKeys = []string{"a", "b", "c", "ab", "ba", "aa", "abc", "abd", "a b", " a", "a ", "0", "1", "2", "-1", "10", "true", "null", "{", "}", "[", "]", ":", ",", "{}", "[]",
	"a:b", "a,b", `a\"b`, `\"`, `\\`, `a\\`, `\\\"`, `\"a`, `a\"`, "\\u0041", "\\n", "é", "ключ", "日本", "a\u00a0", "\u0085", `{\"a\":1}`, "a.b", "a/b", "key", "keys", "ke", "kex", "Key", "KEY", "/", "'", "\u00e9\u00e9", "_", "$", "@", "#"}
var lookalike = []string{"true", "false", "null", "True", "NULL", "nul", "5", "-5", "0", "-0", "007", "+5", "00.5", ".5", "5.", "1e3", "1E400", "0x1p4", "0x10", "1_000", "NaN", "Inf", "-Inf", "infinity", "nan",
	"12345678901", "9223372036854775807", "9223372036854775808", "2147483648", "1.0", "0.1", "-0.0", "1e-7", "[]", "{}", "[1,2]", "[ ]", "{ }", "[draft]", "{x}", `{\"a\":1}`, `[\"a\"]`, "[a", "a]", "{a", "a}", "\\\"", `\"a\"`, ",", ":", "[", "]", "{", "}", "],", "},", `\",\"`, `\":\"`, "a,b", "1,2", " ", "  ", "\\\\", "/*", "//", "0 ", " 0", "t", "tru", "truee", "- 5", "--5", "1 2"}
var soup = []string{`\"`, `\\`, `\/`, `\n`, `\t`, `\b`, `\f`, `\r`, `\u0022`, `\u005c`, `\u00e9`, "{", "}", "[", "]", ":", ",", " ", "a", "b", "1", "true", "'", "\u00e9", "\u4e2d", "\U0001F600", "\u00a0", "\u0085", "\u2028", "\x7f", "\ufeff", "\ufffd", "\ud7ff", `{\"a\":1}`, `[1,\"]\"]`}
var runeEdge = []rune{0x7f, 0x80, 0xff, 0x7ff, 0x800, 0x130, 0x131, 0x17f, 0x212a, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff}
var numEdge = []string{"0", "-0", "1", "-1", "7", "10", "42", "-17", "007"[2:], "100", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740991", "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "123456789012345678901234567890",
	"0.5", "-0.5", "1.0", "1.50", "3.14159265358979", "0.1", "0.30000000000000004", "1e3", "1E3", "1e+3", "1e-3", "-1.5e10", "1e308", "1e309", "1e999", "-1e400", "5e-324", "1e-400", "0e0", "0.0", "-0.0", "1.7976931348623157e308", "2.2250738585072014e-308", "123456.789e-2"}

// content makes string content.
func (g *G) content() string {
	style := g.strMix
	if style < 0 || g.p(15) {
		style = g.n(10)
	}
	switch style {
	case 0, 9:
		return pick(g.r, words)
	case 1:
		n := g.n(12)
		b := make([]byte, n)
		for i := range b {
			c := byte(32 + g.n(95))
			if c == '"' || c == '\\' {
				c = '_'
			}
			b[i] = c
		}
		return string(b)
	case 2:
		var b strings.Builder
		for i := g.n(10); i >= 0; i-- {
			b.WriteString(pick(g.r, soup))
		}
		return b.String()
	case 3:
		var b strings.Builder
		for i := g.n(6); i >= 0; i-- {
			switch g.n(6) {
			case 4:
				b.WriteRune(pick(g.r, runeEdge))
			case 5:
				// any code point of any encoded length
				r := rune(0xa0 + g.n(1<<(3+g.n(18))))
				for r > 0x10ffff || r >= 0xd800 && r <= 0xdfff {
					r = rune(0xa0 + g.n(0x10ff00))
				}
				b.WriteRune(r)
			case 0:
				b.WriteRune(rune(0xa0 + g.n(0x400)))
			case 1:
				b.WriteRune(rune(0x4e00 + g.n(0x2000)))
			case 2:
				b.WriteRune(rune(0x1f600 + g.n(50)))
			default:
				b.WriteByte(byte('a' + g.n(26)))
			}
		}
		return b.String()
	case 4:
		return pick(g.r, lookalike)
	case 5:
		s := pick(g.r, words)
		switch g.n(4) {
		case 0:
			return strings.Repeat(" ", 1+g.n(3)) + s
		case 1:
			return s + strings.Repeat(" ", 1+g.n(3))
		case 2:
			return " " + s + " "
		default:
			return strings.Repeat(" ", g.n(4))
		}
	case 6:
		return g.filler(g.size(300))
	case 7:
		s := strings.Repeat(`\\`, g.n(8))
		if g.p(50) {
			s = pick(g.r, words) + s
		}
		if g.p(40) {
			s += `\"`
		}
		if g.p(30) {
			s += pick(g.r, words)
		}
		return s
	case 8:
		if len(dict.Strs) > 0 {
			return escape(pick(g.r, dict.Strs))
		}
	}
	return ""
}

// filler makes content of exactly n bytes.
func (g *G) filler(n int) string {
	unit := pick(g.r, []string{"a", "ab", " ", "[", "{", "}", "]", ",", ":", `\\`, `\"`, `a\\`, "x", "0", "é", "{[", "]}"})
	s := strings.Repeat(unit, n/len(unit))
	for len(s) < n {
		s += "z"
	}
	return s
}

func (g *G) number() string {
	switch g.n(6) {
	case 0, 1:
		return strconv.Itoa(g.n(20))
	case 2:
		return pick(g.r, numEdge)
	case 3:
		return strconv.FormatInt(int64(g.r.Uint64())>>g.n(63), 10)
	case 4:
		return strconv.FormatFloat(g.r.NormFloat64()*float64(int(1)<<g.n(40)), pickByte(g.r, "efg"), g.n(10)-1, 64)
	}
	if len(dict.Big) > 0 {
		return strconv.FormatInt(pick(g.r, dict.Big), 10)
	}
	return "3"
}

func pickByte(r *rand.Rand, s string) byte { return s[r.IntN(len(s))] }

func (g *G) scalar() *V {
	switch g.n(10) {
	case 0, 1, 2, 3:
		return vstr(g.content())
	case 4, 5, 6:
		s := g.number()
		if !IsJSONNumber(s) {
			s = "1"
		}
		return vnum(s)
	case 7:
		return vs(KTrue, "true")
	case 8:
		return vs(KFalse, "false")
	}
	return vs(KNull, "null")
}

func (g *G) newKey(o *V) string {
	if g.dup && len(o.Keys) > 0 && g.p(30) {
		return pick(g.r, o.Keys)
	}
	for try := 0; try < 12; try++ {
		k := g.key()
		if len(o.Keys) > 0 && g.p(8) {
			k = g.twin(pick(g.r, o.Keys))
		}
		if !o.has(k) {
			return k
		}
	}
	return "k" + strconv.Itoa(len(o.Keys)) + "_" + strconv.Itoa(g.n(1000))
}

// twin is a key of the same length that differs in one letter or digit.
func (g *G) twin(k string) string {
	at := []int{}
	for i := 0; i < len(k); i++ {
		c := k[i]
		if i > 0 && k[i-1] == '\\' || strings.Contains(k[max(0, i-5):i], `\u`) {
			continue
		}
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == ' ' || c == '_' {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return k
	}
	i := at[len(at)/2]
	switch g.n(4) {
	case 0:
		i = at[0]
	case 1:
		i = at[len(at)-1]
	case 2:
		i = pick(g.r, at)
	}
	c := pickByte(g.r, "abzAZ019_ ")
	if g.p(40) && k[i] > '9' && k[i] != '_' {
		c = k[i] ^ 0x20
	}
	return k[:i] + string(rune(c)) + k[i+1:]
}

func (g *G) key() string {
	var k string
	switch {
	case len(g.keys) > 0 && g.p(75):
		k = pick(g.r, g.keys)
	case g.p(40):
		k = pick(g.r, confKeys)
	case g.p(30):
		k = g.content()
	default:
		k = pick(g.r, words)
	}
	if k == "" && (g.noEmptyKey || g.p(70)) {
		k = "e"
	}
	return k
}

// tree builds a random value.
func (g *G) tree(depth int, budget *int) *V {
	*budget--
	if depth <= 0 || *budget <= 0 || g.p(35) {
		return g.scalar()
	}
	return g.container(depth, budget, g.p(50))
}

func (g *G) container(depth int, budget *int, obj bool) *V {
	n := g.n(5)
	if g.p(20) {
		n = g.n(9)
	}
	if g.p(12) {
		n = 0
	}
	v := varr()
	if obj {
		v.K = KObj
	}
	for i := 0; i < n && *budget > 0; i++ {
		var kid *V
		if g.p(12) {
			kid = varr()
			if g.p(50) {
				kid.K = KObj
			}
			*budget--
		} else {
			kid = g.tree(depth-1, budget)
		}
		if obj {
			v.add(g.newKey(v), kid)
		} else {
			v.Kids = append(v.Kids, kid)
		}
	}
	return v
}

func (g *G) wrap(v *V) *V {
	if g.p(50) {
		a := varr()
		for i := g.n(3); i > 0; i-- {
			a.Kids = append(a.Kids, g.scalar())
		}
		a.Kids = append(a.Kids, v)
		for i := g.n(3); i > 0; i-- {
			a.Kids = append(a.Kids, g.scalar())
		}
		return a
	}
	o := &V{K: KObj}
	for i := g.n(3); i > 0; i-- {
		o.add(g.newKey(o), g.scalar())
	}
	o.add(g.newKey(o), v)
	for i := g.n(3); i > 0; i-- {
		o.add(g.newKey(o), g.scalar())
	}
	return o
}

// chain nests n containers (kind: 0 objects, 1 arrays, 2 mixed).
func (g *G) chain(n, kind int, leaf *V) *V {
	v := leaf
	for i := 0; i < n; i++ {
		obj := kind == 0 || kind == 2 && g.p(50)
		var c *V
		if obj {
			c = &V{K: KObj}
			if g.p(20) {
				c.add(g.newKey(c), g.scalar())
			}
			c.add(g.newKey(c), v)
			if g.p(20) {
				c.add(g.newKey(c), g.scalar())
			}
		} else {
			c = varr()
			if g.p(20) {
				c.Kids = append(c.Kids, g.scalar())
			}
			c.Kids = append(c.Kids, v)
			if g.p(20) {
				c.Kids = append(c.Kids, g.scalar())
			}
		}
		v = c
	}
	return v
}

func (g *G) wideArr(n int, simple bool) *V {
	a := varr()
	for i := 0; i < n; i++ {
		if simple {
			a.Kids = append(a.Kids, vnum(strconv.Itoa(i)))
		} else {
			b := 3
			a.Kids = append(a.Kids, g.tree(1, &b))
		}
	}
	return a
}

func (g *G) wideObj(n int, simple bool) *V {
	o := &V{K: KObj}
	pre := pick(g.r, []string{"k", "", "key_", "a"})
	for i := 0; i < n; i++ {
		o.Keys = append(o.Keys, pre+strconv.Itoa(i))
		if simple {
			o.Kids = append(o.Kids, vnum(strconv.Itoa(i)))
		} else {
			b := 3
			o.Kids = append(o.Kids, g.tree(1, &b))
		}
	}
	return o
}

func (g *G) table(rows int) *V {
	a := varr()
	cols := 1 + g.n(4)
	names := []string{}
	tmp := &V{K: KObj}
	for i := 0; i < cols; i++ {
		k := g.newKey(tmp)
		tmp.add(k, nil)
		names = append(names, k)
	}
	for i := 0; i < rows; i++ {
		o := &V{K: KObj}
		for _, nm := range names {
			b := 4
			o.add(nm, g.tree(2, &b))
		}
		a.Kids = append(a.Kids, o)
	}
	return a
}

var wsSets = []string{"", " ", "\n", "\t", "\r", " \t\n\r", "\r\n", "  "}

func (g *G) gap(out []byte) []byte {
	switch g.ws {
	case 0:
		return out
	case 1:
		if g.p(50) {
			return append(out, ' ')
		}
		return out
	case 2:
		for i := g.n(4); i > 0; i-- {
			out = append(out, " \t\n\r"[g.n(4)])
		}
		return out
	case 3:
		return append(out, pick(g.r, wsSets)...)
	case 4:
		if g.wsRun > 0 && g.p(25) {
			c := " \t\n\r"[g.n(4)]
			for i := 0; i < g.wsRun; i++ {
				out = append(out, c)
			}
			g.wsRun = 0
		}
		return out
	}
	return out
}

func (g *G) render(out []byte, v *V, level int) []byte {
	pretty := g.ws == 5
	nl := func(l int) {
		out = append(out, '\n')
		for i := 0; i < l; i++ {
			out = append(out, "\t"...)
		}
	}
	switch v.K {
	case KObj, KArr:
		open, cl := byte('{'), byte('}')
		if v.K == KArr {
			open, cl = '[', ']'
		}
		out = append(out, open)
		for i, k := range v.Kids {
			if i > 0 {
				out = g.gap(out)
				out = append(out, ',')
			}
			if pretty {
				nl(level + 1)
			}
			out = g.gap(out)
			if v.K == KObj {
				out = append(out, '"')
				out = append(out, v.Keys[i]...)
				out = append(out, '"')
				out = g.gap(out)
				out = append(out, ':')
				if pretty {
					out = append(out, ' ')
				}
				out = g.gap(out)
			}
			out = g.render(out, k, level+1)
		}
		if pretty && len(v.Kids) > 0 {
			nl(level)
		}
		out = g.gap(out)
		return append(out, cl)
	}
	return append(out, v.Text...)
}

func (g *G) text(v *V) []byte {
	var out []byte
	if g.p(25) {
		out = g.gap(out)
	}
	out = g.render(out, v, 0)
	if g.p(25) {
		out = g.gap(out)
	}
	// no spare capacity by accident: tests ask for it explicitly
	return append(make([]byte, 0, len(out)), out...)
}

func (g *G) style() {
	g.ws = []int{0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 5}[g.n(11)]
	g.wsRun = 0
	if g.ws == 4 {
		g.wsRun = g.bigSize(2000)
	}
	g.strMix = -1
	if g.p(40) {
		g.strMix = g.n(10)
	}
	g.keys = nil
	switch g.n(4) {
	case 0: // few names everywhere: collisions between levels and siblings
		for i := 2 + g.n(4); i > 0; i-- {
			g.keys = append(g.keys, pick(g.r, confKeys))
		}
	case 1:
		g.keys = words
	case 2:
		g.keys = []string{"a", "b", "c", "ab"}
	}
}

// Value makes a random value of moderate size.
func (g *G) Value(max int) *V {
	b := 1 + g.n(max)
	return g.tree(1+g.n(4), &b)
}

// Root makes a random document tree; limit bounds the number of nodes.
func (g *G) Root(limit int) *V {
	g.style()
	g.twins = false
	var v *V
	if g.p(3) {
		g.twins = true
		return g.joined()
	}
	switch g.n(20) {
	case 0:
		d := g.size(min(limit, 150))
		v = g.chain(d, g.n(3), g.scalar())
	case 1:
		v = g.wideArr(g.size(min(limit, 600)), g.p(70))
	case 2:
		v = g.wideObj(g.size(min(limit, 600)), g.p(70))
	case 3:
		v = vstr(g.filler(g.bigSize(min(limit*40, 9000))))
	case 4:
		v = g.table(1 + g.n(6))
	case 5:
		b := limit
		v = g.container(3+g.n(5), &b, g.p(50))
		if b > limit/2 {
			b2 := limit
			for i := g.n(8); i > 0 && b2 > 0; i-- {
				kid := g.tree(4, &b2)
				if v.K == KObj {
					v.add(g.newKey(v), kid)
				} else {
					v.Kids = append(v.Kids, kid)
				}
			}
		}
	case 6: // a long key
		k := g.filler(g.bigSize(min(limit*20, 5000)))
		if k == "" {
			k = "e"
		}
		o := &V{K: KObj}
		o.add(k, g.Value(6))
		for i := g.n(4); i > 0; i-- {
			o.add(g.newKey(o), g.Value(4))
		}
		v = o
	case 7: // long number
		v = vnum("1" + strings.Repeat("7", g.size(400)))
		if g.p(50) {
			v = vnum("0." + strings.Repeat("3", 1+g.size(400)))
		}
	default:
		b := 2 + g.n(min(limit, 40))
		v = g.container(1+g.n(5), &b, g.p(60))
	}
	for i := g.n(3); i > 0 && g.p(40); i-- {
		v = g.wrap(v)
	}
	if v.K != KObj && v.K != KArr {
		v = g.wrap(v)
	}
	return v
}

var separators = []string{"/", ".", ",", " ", "|", ":", "->", "", "-", "_", "#", "/", ".", "~1", "$", ";", "&", `\t`, `\u0000`, `\\`, "\u00b7", "]["}

// joined makes an object with different paths that are the same text when
// their steps are joined with a separator.
func (g *G) joined() *V {
	s := pick(g.r, separators)
	if len(dict.Strs) > 0 && g.p(20) {
		if x := pick(g.r, dict.Strs); len(x) < 4 && IsStringContent(x) {
			s = x
		}
	}
	steps := []string{}
	for i := 3 + g.n(2); i > 0; i-- {
		steps = append(steps, pick(g.r, []string{"a", "b", "c", "0", "1", "ab", "k"}))
	}
	if g.p(20) {
		steps[g.n(len(steps))] = g.key()
	}
	root := &V{K: KObj}
	for mask := 0; mask < 1<<(len(steps)-1); mask++ {
		if mask > 0 && g.p(25) {
			continue
		}
		// the bits say where a step ends
		path := []string{steps[0]}
		for i := 1; i < len(steps); i++ {
			if mask>>(i-1)&1 != 0 {
				path[len(path)-1] += s + steps[i]
			} else {
				path = append(path, steps[i])
			}
		}
		at := root
		for i, k := range path {
			if i == len(path)-1 {
				if !at.has(k) {
					b := 4
					x := g.tree(2, &b)
					if g.p(70) {
						x = vnum(strconv.Itoa(mask*100 + g.n(100)))
					}
					at.add(k, x)
				}
				break
			}
			var in *V
			for j, kk := range at.Keys {
				if kk == k {
					in = at.Kids[j]
				}
			}
			if in == nil {
				in = &V{K: KObj}
				at.add(k, in)
			}
			if in.K != KObj {
				break
			}
			at = in
		}
	}
	if g.p(20) {
		return g.wrap(root)
	}
	return root
}

// ---- ladders: one dimension grows, everything else is plain ----

var ladderSizes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20, 21, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 299, 300, 301, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 131073, 262145, 1048577}

const ladderKinds = 26

// ladderMax caps what a dimension may reach.
var ladderMax = [ladderKinds]int{1100, 1100, 1100, 66000, 66000, 1100000, 300000, 70000, 70000, 9000, 9000, 66000, 1100, 1100, 70000, 300, 300, 1100, 2100, 70000, 400, 600, 9000, 5000, 5000, 2100}

func (g *G) ladder(kind, n int) *V {
	g.ws = 0
	switch kind {
	case 0:
		return orRoot(g, g.chain(n, 0, vstr("leaf")))
	case 1:
		return orRoot(g, g.chain(n, 1, vnum("5")))
	case 2:
		return orRoot(g, g.chain(n, 2, varr()))
	case 3:
		return g.wideArr(n, true)
	case 4:
		return g.wideObj(n, true)
	case 5: // long string first, something after it
		o := &V{K: KObj}
		o.add("a", vstr(strings.Repeat("s", n)))
		o.add("b", vnum("1"))
		return o
	case 6:
		return varr(vnum("1"), vstr(g.filler(n)), vnum("2"))
	case 7: // long key
		o := &V{K: KObj}
		o.add("a", vnum("1"))
		o.add(strings.Repeat("k", n+1), vnum("2"))
		o.add("b", vnum("3"))
		return o
	case 8: // backslashes
		o := &V{K: KObj}
		o.add("a", vstr(strings.Repeat(`\\`, n/2)))
		o.add("b", vstr(strings.Repeat(`\\`, n/2)+`\"`))
		o.add("c", varr(vstr(strings.Repeat(`\\`, n/2)+`\",`), vnum("2")))
		return o
	case 9, 10: // whitespace runs
		g.ws = 4
		g.wsRun = n
		if kind == 10 {
			return varr(vnum("1"), varr(), vstr("x"), g.chain(2, 2, vnum("1")))
		}
		o := &V{K: KObj}
		o.add("a", vnum("1"))
		o.add("b", varr(vnum("1"), vnum("2")))
		o.add("c", &V{K: KObj})
		return o
	case 11: // wide with strings
		a := varr()
		for i := 0; i < n; i++ {
			a.Kids = append(a.Kids, vstr("s"+strconv.Itoa(i)))
		}
		return a
	case 12:
		return g.wideArr(n, false)
	case 13:
		return g.wideObj(n, false)
	case 14: // long number token
		return varr(vnum("1"+strings.Repeat("0", n)), vnum("0."+strings.Repeat("1", n+1)))
	case 15: // n empty containers
		a := varr()
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				a.Kids = append(a.Kids, varr())
			} else {
				a.Kids = append(a.Kids, &V{K: KObj})
			}
		}
		o := &V{K: KObj}
		o.add("a", a)
		o.add("b", vnum("1"))
		return o
	case 16: // wide at depth
		return g.chain(5, 2, g.wideArr(n, true))
	case 17: // chain below the n-th element
		a := g.wideArr(n, true)
		a.Kids = append(a.Kids, g.chain(3, 2, vstr("deep")))
		return a
	case 18: // a string full of structure, then members
		o := &V{K: KObj}
		o.add("s", vstr(strings.Repeat(pick(g.r, []string{"{", "}", "[", "]", ",", ":", "{[", "]}", `\"`, `\",\"`, `\":`}), n)))
		o.add("t", g.wideArr(3, true))
		o.add("u", vnum("9"))
		return o
	case 19: // string value last
		return varr(vnum("0"), vstr(strings.Repeat("é", n/2)))
	case 20: // table
		return orRoot(g, g.table(n))
	case 22: // keys of the same length that differ in one place
		o := &V{K: KObj}
		base := strings.Repeat("abcdefgh", n/8+1)[:n+1]
		o.add(base, vstr("base"))
		for _, i := range []int{0, 1, n / 4, n / 2, n - n/4, n - 1, n, g.n(n + 1)} {
			if i < 0 || i > n {
				continue
			}
			k := base[:i] + "X" + base[i+1:]
			if !o.has(k) {
				o.add(k, vnum(strconv.Itoa(i)))
			}
		}
		return o
	case 23: // wide, the values are strings and containers
		o := &V{K: KObj}
		for i := 0; i < n; i++ {
			o.Keys = append(o.Keys, "m"+strconv.Itoa(i))
			switch {
			case i%7 == 3:
				o.Kids = append(o.Kids, varr(vnum("1"), vstr("a,b")))
			case i%11 == 5:
				in := &V{K: KObj}
				in.add("a", vstr("x:y"))
				o.Kids = append(o.Kids, in)
			default:
				o.Kids = append(o.Kids, vstr("s"+strconv.Itoa(i)))
			}
		}
		return o
	case 24: // wide array of containers and strings
		a := varr()
		for i := 0; i < n; i++ {
			switch i % 3 {
			case 0:
				a.Kids = append(a.Kids, varr(vnum(strconv.Itoa(i)), vstr("]")))
			case 1:
				a.Kids = append(a.Kids, vstr("{"+strconv.Itoa(i)))
			default:
				in := &V{K: KObj}
				in.add("a", vnum(strconv.Itoa(i)))
				a.Kids = append(a.Kids, in)
			}
		}
		return a
	case 25: // a key with many escapes, keys that begin like it
		o := &V{K: KObj}
		k := strings.Repeat(pick(g.r, []string{`\\`, `\"`, `\\\"`, `\u0022`}), n/2+1)
		o.add(k, vnum("1"))
		o.add(k+`\\`, vnum("2"))
		o.add(k+"x", varr(vnum("3")))
		o.add("a", vnum("4"))
		return o
	case 21: // n siblings with the same inner names
		o := &V{K: KObj}
		for i := 0; i < n; i++ {
			in := &V{K: KObj}
			in.add("a", vnum(strconv.Itoa(i)))
			in.add("b", varr(vnum("1"), vstr("x")))
			o.add("m"+strconv.Itoa(i), in)
		}
		return o
	}
	return varr()
}

func orRoot(g *G, v *V) *V {
	if v.K != KObj && v.K != KArr {
		return varr(v)
	}
	return v
}

var ladderList = func() (l [][2]int) {
	for _, n := range ladderSizes {
		for k := 0; k < ladderKinds; k++ {
			if n <= ladderMax[k] {
				l = append(l, [2]int{k, n})
			}
		}
	}
	return
}()

// Doc makes the document of case i: the ladder first, then random documents.
func (t *T) Doc(i int, limit int) ([]byte, *Node) {
	g := newG(t.R)
	return t.DocG(g, i, limit)
}

func (t *T) DocG(g *G, i int, limit int) ([]byte, *Node) {
	var v *V
	if i < len(ladderList) {
		l := ladderList[i]
		t.Feat("ladder documents")
		v = g.ladder(l[0], l[1])
	} else {
		v = g.Root(limit)
		if g.twins {
			t.Feat("paths that join to the same text")
		}
	}
	doc, root := t.DocOf(g, v)
	t.twins = g.twins && i >= len(ladderList)
	return doc, root
}

// byText puts nodes whose paths have the same text next to each other.
func byText(nodes []*Node) {
	text := func(n *Node) string {
		s := strings.Join(n.Path(), "")
		for _, x := range separators {
			if x != "" {
				s = strings.ReplaceAll(s, x, "")
			}
		}
		return s
	}
	m := map[*Node]string{}
	for _, n := range nodes {
		m[n] = text(n)
	}
	sort.SliceStable(nodes, func(i, j int) bool { return m[nodes[i]] < m[nodes[j]] })
}

// ladderOver and ladderBig are the parts of the ladder over a size.
var ladderOver, ladderBig = ladderFrom(9001, 70000), ladderFrom(1101, 9000)

func ladderFrom(min, max int) (l [][2]int) {
	for _, x := range ladderList {
		if x[1] >= min && x[1] <= max {
			l = append(l, x)
		}
	}
	return
}

// ladderUpto is the part of the ladder up to a size, for costlier checks.
func ladderUpto(max int) (l [][2]int) {
	for _, x := range ladderList {
		if x[1] <= max {
			l = append(l, x)
		}
	}
	return
}

func (t *T) DocOf(g *G, v *V) ([]byte, *Node) {
	doc := g.text(v)
	root, err := RefParse(doc)
	if err != nil {
		panic(fmt.Sprintf("HARNESS: generated document is not JSON: %q", clip(doc)))
	}
	if !g.dup && DupKeys(root) {
		panic(fmt.Sprintf("HARNESS: generated document has duplicate keys: %q", clip(doc)))
	}
	t.Observe(doc, root)
	return doc, root
}

// Nodes picks up to k nodes of a document worth visiting.
func (t *T) Nodes(root *Node, k int) []*Node {
	all := root.All()
	if t.twins && len(all) < 200 {
		byText(all)
		k = max(k, min(len(all), 40))
	}
	if len(all) <= k {
		return all
	}
	out := make([]*Node, 0, k)
	seen := map[*Node]bool{}
	add := func(n *Node) {
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	add(all[0])
	add(all[1])
	add(all[len(all)-1])
	add(all[len(all)-2])
	add(all[len(all)/2])
	// the deepest node
	deep := all[0]
	dd := -1
	for i := 0; i < len(all); i += 1 + len(all)/64 {
		if d := all[i].Depth(); d > dd {
			dd, deep = d, all[i]
		}
	}
	add(deep)
	// around mined boundaries of the widest container
	var wide *Node
	for _, n := range all {
		if wide == nil || len(n.Kids) > len(wide.Kids) {
			wide = n
		}
	}
	if wide != nil && len(wide.Kids) > 0 {
		add(wide.Kids[len(wide.Kids)-1])
		for j := 0; j < 4 && len(dict.Ints) > 0; j++ {
			if x := pick(t.R, dict.Ints); x < len(wide.Kids) {
				add(wide.Kids[x])
			}
		}
	}
	for len(out) < k {
		add(all[t.R.IntN(len(all))])
	}
	return out[:k]
}

// vobj makes an object of alternating keys and values.
func vobj(kv ...any) *V {
	o := &V{K: KObj}
	for i := 0; i+1 < len(kv); i += 2 {
		o.add(kv[i].(string), kv[i+1].(*V))
	}
	return o
}
