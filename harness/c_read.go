package main

// Monitors of the read side: C01 - C06.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/ecoshub/jin"
)

// spare gives a path slice random unused capacity, filled with canaries.
func (t *T) spare(p []string) []string {
	extra := t.R.IntN(4)
	q := make([]string, len(p)+extra)
	copy(q, p)
	for i := len(p); i < len(q); i++ {
		q[i] = "\x01canary"
	}
	return q[:len(p)]
}

// sameLen makes a different document of the same length, for buffer reuse.
func (t *T) sameLen(doc []byte) ([]byte, *Node) {
	for try := 0; try < 6; try++ {
		d := append([]byte(nil), doc...)
		n := 1 + t.R.IntN(6)
		for k := 0; k < n*6; k++ {
			i := t.R.IntN(len(d))
			c := d[i]
			switch {
			case c >= '1' && c <= '9':
				d[i] = byte('1' + t.R.IntN(9))
			case c >= 'a' && c <= 'e':
				d[i] = byte('a' + t.R.IntN(5))
			case c == '[' && t.R.IntN(2) == 0:
				d[i] = '{'
			case c == '{' && t.R.IntN(2) == 0:
				d[i] = '['
			case c == ']' || c == '}' || c == ',' || c == ' ':
				if t.R.IntN(2) == 0 {
					d[i] = "]} ,"[t.R.IntN(4)]
				}
			}
		}
		if bytes.Equal(d, doc) {
			continue
		}
		root, err := RefParse(d)
		if err == nil && root.Container() && !DupKeys(root) {
			return d, root
		}
	}
	// change letters only: always well-formed apart from duplicate keys
	for try := 0; try < 8; try++ {
		d := append([]byte(nil), doc...)
		for k := 0; k < 4; k++ {
			i := t.R.IntN(len(d))
			if d[i] >= '1' && d[i] <= '9' {
				d[i] = byte('1' + t.R.IntN(9))
			}
			if d[i] == 'a' || d[i] == 'x' || d[i] == 's' {
				d[i] = "axs"[t.R.IntN(3)]
			}
		}
		root, err := RefParse(d)
		if err == nil && !DupKeys(root) {
			return d, root
		}
	}
	return nil, nil
}

// ---- C01 ----

func init() {
	register(&Check{ID: "C01", Quick: 1400000, Deep: 21000000, Case: caseC01,
		MinEvents: map[string]int64{"Get": 100000, "GetString": 30000, "JO.Get": 10000},
		Rule:      "ladders (depth, width, key/string/number length, backslash and whitespace runs) then random documents with colliding names; every (or up to 40) nodes looked up. Non-trivial: the document has at least 3 nodes. Also the same buffer is overwritten with another document of the same length and read again."})
}

func checkGet(t *T, doc []byte, root, n *Node, jo *jin.JO) {
	path := t.spare(n.Path())
	want := n.Text(doc)
	if n == root {
		want = doc
	}
	t.Op("Get", doc, path, nil)
	got, err := jin.Get(doc, path...)
	t.Eval(t.nontriv)
	if err != nil {
		t.Soft("C01 Get error", "existing path refused: %v; want %q", err, clip(want))
	} else if !bytes.Equal(got, want) {
		t.Soft("C01 Get text", "got %q want %q", clip(got), clip(want))
	}
	switch t.R.IntN(3) {
	case 0:
		t.Op("GetString", doc, path, nil)
		s, err := jin.GetString(doc, path...)
		t.Eval(t.nontriv)
		if err != nil || s != string(want) {
			t.Soft("C01 GetString", "got %q %v want %q", clip(s), err, clip(want))
		}
		t.KeepS("GetString", s)
	case 1:
		t.Op("JO.Get", doc, path, nil)
		got, err := jo.Get(path...)
		t.Eval(t.nontriv)
		if err != nil || !bytes.Equal(got, want) {
			t.Soft("C01 JO.Get", "got %q %v want %q", clip(got), err, clip(want))
		}
		t.Op("JO.GetString", doc, path, nil)
		s, err := jo.GetString(path...)
		if err != nil || s != string(want) {
			t.Soft("C01 JO.GetString", "got %q %v want %q", clip(s), err, clip(want))
		}
	}
}

func caseC01(t *T, i int) {
	doc, root := t.Doc(i, 250)
	jo := jin.New(doc)
	for _, n := range t.Nodes(root, 40) {
		checkGet(t, doc, root, n, jo)
	}
	if t.R.IntN(3) == 0 && len(doc) < 4000 {
		if d2, r2 := t.sameLen(doc); d2 != nil {
			t.CheckRetained()
			t.Feat("buffer reused")
			copy(doc, d2)
			jo = jin.New(doc)
			for _, n := range t.Nodes(r2, 12) {
				checkGet(t, doc, r2, n, jo)
			}
		}
	}
}

// ---- C02 ----

func init() {
	register(&Check{ID: "C02", Quick: 700000, Deep: 10500000, Case: caseC02,
		MinEvents: map[string]int64{"Get": 100000, "missing key": 10000, "index out of range": 10000, "step below a scalar": 10000, "inside empty container": 2000, "key into array": 5000, "JO.GetInt": 2000, "JO.GetBoolArray": 2000, "GetFloatArray": 5000, "GetAllMap": 5000, "IsEmpty": 5000},
		Rule:      "documents as in C01; for nodes of every kind, paths that lead to no value: near-miss keys, keys that exist elsewhere, indexes at and past the length and negative, keys into arrays, steps below scalars, steps into empty containers, each also extended by further steps; each asked through Get and two of 39 other readers, plain or of a document object (error, error code, no value, no callback). Non-trivial: document of at least 3 nodes."})
}

type miss struct {
	path []string
	code int // expected error code, -1: any error
	kind string
}

var badIndex = []string{"a", "", "one", "0x", "1.0", " 0", "0 ", "x1", "1x", "-", "[0]", "\"0\"", "null", "true", "1e0", "é", "0,1", "1_0"}

func (t *T) missing(doc []byte, root, n *Node, all []*Node) (miss, bool) {
	base := n.Path()
	r := t.R
	m := miss{code: -1}
	var step string
	switch n.Kind {
	case KObj:
		m.code = jin.ErrCodeKeyNotFound
		m.kind = "missing key"
		if len(n.Kids) == 0 {
			m.kind = "inside empty container"
		}
		switch r.IntN(11) {
		case 10: // keys that read like an error message or a format
			step = pick(r, []string{"error_code: 07", "07", "08", "11", "x error_code: 11", "key 'a' not found error_code: 07", "error_code: 21", "error_code: ", "error_code", "a' not found", "%d", "%s", "%!s(MISSING)", "%", "%v%v%v", "\n", "error_code: 08 error_code: 16", "'"})
		case 0, 1: // near miss of one of its keys
			if len(n.Kids) > 0 {
				k := pick(r, n.Kids).Key
				switch r.IntN(7) {
				case 0:
					if len(k) > 0 {
						step = k[:len(k)-1]
					}
				case 1:
					step = k + pick(r, []string{"x", " ", `"`, `\`, "0", "\x00"})
				case 2:
					if len(k) > 0 {
						b := []byte(k)
						b[r.IntN(len(b))] ^= byte(1 << r.IntN(7))
						step = string(b)
					}
				case 3:
					step = " " + k
				case 4:
					step = k + k
				case 5:
					step = `"` + k + `"`
				case 6:
					if len(k) > 0 {
						step = k[1:]
					}
				}
			}
		case 2, 3, 4: // a key of another object
			x := pick(r, all)
			step = x.Key
		case 5: // text of some string
			x := pick(r, all)
			if x.Kind == KStr {
				step = string(x.Text(doc))
			}
		case 6:
			step = strconv.Itoa(r.IntN(3))
		case 7:
			step = pick(r, confKeys)
		case 8:
			step = pick(r, words)
		case 9:
			if len(dict.Strs) > 0 {
				step = pick(r, dict.Strs)
			}
		}
		if n.Child(step) != nil {
			return m, false
		}
	case KArr:
		switch r.IntN(9) {
		case 8: // an index that becomes one of the array when it is cut to fewer bits
			x := new(big.Int).Lsh(big.NewInt(1), pick(r, []uint{8, 16, 31, 32, 33, 63, 64, 65, 128}))
			x.Add(x, big.NewInt(int64(r.IntN(len(n.Kids)+1))))
			if r.IntN(4) == 0 {
				x.Neg(x)
			}
			step = x.String()
		case 0, 1:
			step = strconv.Itoa(len(n.Kids))
		case 2:
			step = strconv.Itoa(len(n.Kids) + 1 + r.IntN(3))
		case 3:
			step = strconv.Itoa(-1 - r.IntN(3))
		case 4:
			if len(dict.Ints) > 0 {
				step = strconv.Itoa(len(n.Kids) + pick(r, dict.Ints))
			}
		case 5:
			if r.IntN(2) == 0 {
				step = "9223372036854775807"
			} else {
				step = strconv.Itoa(-len(n.Kids))
			}
			if step == "0" {
				step = "-1"
			}
		case 6:
			step = pick(r, badIndex)
		case 7:
			step = pick(r, all).Key
		}
		if v, err := strconv.Atoi(step); err == nil {
			m.kind = "index out of range"
			if strconv.Itoa(v) != step || v >= 0 && v < len(n.Kids) {
				return m, false
			}
			if len(n.Kids) > 0 {
				m.code = jin.ErrCodeIndexOutOfRange
			} else {
				m.kind = "inside empty container"
			}
		} else {
			if errors.Is(err, strconv.ErrRange) {
				m.code = -1
			} else {
				m.code = jin.ErrCodeIndexExpected
			}
			m.kind = "key into array"
		}
	default:
		m.kind = "step below a scalar"
		switch r.IntN(6) {
		case 0, 1:
			step = "0"
		case 2, 3:
			step = pick(r, all).Key
		case 4:
			step = strconv.Itoa(r.IntN(4))
		case 5:
			step = pick(r, words)
		}
	}
	m.path = append(base, step)
	if r.IntN(4) == 0 { // and further steps below nothing
		for k := 1 + r.IntN(3); k > 0; k-- {
			m.path = append(m.path, pick(r, []string{"0", "a", "1", pick(r, all).Key, "b"}))
		}
		m.code = -1
		m.kind += " (inner)"
	}
	return m, true
}

func checkMissing(t *T, doc []byte, m miss, jo *jin.JO) {
	path := t.spare(m.path)
	t.Op("Get", doc, path, nil)
	got, err := jin.Get(doc, path...)
	t.Eval(t.nontriv)
	t.Events[strings.TrimSuffix(m.kind, " (inner)")]++
	if err == nil {
		t.Soft("C02 Get answered: "+m.kind, "a path that leads nowhere was answered with %q", clip(got))
	} else {
		if got != nil {
			t.Soft("C02 value with error", "value %q came with error %v", clip(got), err)
		}
		if m.code >= 0 {
			for _, c := range []int{0, 2, 3, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 1, 21, 80, -8, 100 + m.code} {
				if jin.ErrEqual(err, c) != (c == m.code) {
					t.Soft("C02 code: "+m.kind, "error %q: ErrEqual(%d)=%v, want code %d", err, c, jin.ErrEqual(err, c), m.code)
					break
				}
			}
		}
	}
	never := func(a []byte) (bool, error) {
		t.Soft("C02 callback: "+m.kind, "called with %q", clip(a))
		return true, nil
	}
	never2 := func(a, b []byte) (bool, error) {
		t.Soft("C02 callback: "+m.kind, "called with %q", clip(b))
		return true, nil
	}
	up, last := path[:len(path)-1], path[len(path)-1:]
	for q := 0; q < 2; q++ {
		i := t.R.IntN(27)
		name, n := "", 0 // the call and the size of what came with the error
		var err error
		call := func(s string, f func()) {
			name = s
			t.Op(s, doc, path, nil)
			f()
		}
		var s string
		var is, bo bool
		var bs []byte
		var ss, s2 []string
		var mp map[string]string
		var ii []int
		var ff []float64
		var bb []bool
		switch i {
		case 0:
			call("GetString", func() { s, err = jin.GetString(doc, path...) })
		case 1:
			call("JO.Get", func() { bs, err = jo.Get(path...) })
		case 2:
			call("GetInt", func() { _, err = jin.GetInt(doc, path...) })
		case 3:
			call("GetFloat", func() { _, err = jin.GetFloat(doc, path...) })
		case 4:
			call("GetBool", func() { bo, err = jin.GetBool(doc, path...) })
		case 5:
			call("GetStringArray", func() { ss, err = jin.GetStringArray(doc, path...) })
		case 6:
			call("GetType", func() { s, err = jin.GetType(doc, path...) })
		case 7:
			call("IsObject", func() { is, err = jin.IsObject(doc, path...) })
		case 8:
			call("IsArray", func() { is, err = jin.IsArray(doc, path...) })
		case 9:
			call("IsValue", func() { is, err = jin.IsValue(doc, path...) })
		case 10:
			call("IsEmpty", func() { is, err = jin.IsEmpty(doc, path...) })
		case 11:
			call("Length", func() { _, err = jin.Length(doc, path...) })
		case 12:
			call("GetKeys", func() { ss, err = jin.GetKeys(doc, path...) })
		case 13:
			call("GetValues", func() { ss, err = jin.GetValues(doc, path...) })
		case 14:
			call("GetMap", func() { mp, err = jin.GetMap(doc, path...) })
		case 15:
			call("GetAll", func() { ss, err = jin.GetAll(doc, last, up...) })
		case 16:
			call("IterateArray", func() { err = jin.IterateArray(doc, never, path...) })
		case 17:
			call("IterateKeyValue", func() { err = jin.IterateKeyValue(doc, never2, path...) })
		case 18:
			call("GetAllMap", func() { mp, err = jin.GetAllMap(doc, last, up...) })
		case 19:
			call("GetKeysValues", func() { ss, s2, err = jin.GetKeysValues(doc, path...) })
		case 20:
			call("GetIntArray", func() { ii, err = jin.GetIntArray(doc, path...) })
		case 21:
			call("GetFloatArray", func() { ff, err = jin.GetFloatArray(doc, path...) })
		case 22:
			call("GetBoolArray", func() { bb, err = jin.GetBoolArray(doc, path...) })
		default:
			switch t.R.IntN(16) {
			case 0:
				call("JO.GetString", func() { s, err = jo.GetString(path...) })
			case 1:
				call("JO.GetInt", func() { _, err = jo.GetInt(path...) })
			case 2:
				call("JO.GetFloat", func() { _, err = jo.GetFloat(path...) })
			case 3:
				call("JO.GetBool", func() { bo, err = jo.GetBool(path...) })
			case 4:
				call("JO.GetStringArray", func() { ss, err = jo.GetStringArray(path...) })
			case 5:
				call("JO.GetIntArray", func() { ii, err = jo.GetIntArray(path...) })
			case 6:
				call("JO.GetFloatArray", func() { ff, err = jo.GetFloatArray(path...) })
			case 7:
				call("JO.GetBoolArray", func() { bb, err = jo.GetBoolArray(path...) })
			case 8:
				call("JO.GetType", func() { s, err = jo.GetType(path...) })
			case 9:
				call("JO.GetKeys", func() { ss, err = jo.GetKeys(path...) })
			case 10:
				call("JO.GetValues", func() { ss, err = jo.GetValues(path...) })
			case 11:
				call("JO.GetAll", func() { ss, err = jo.GetAll(last, up...) })
			case 12:
				call("JO.GetMap", func() { mp, err = jo.GetMap(path...) })
			case 13:
				call("JO.IterateArray", func() { err = jo.IterateArray(never, path...) })
			case 14:
				call("JO.IterateKeyValue", func() { err = jo.IterateKeyValue(never2, path...) })
			case 15:
				call("JO.IsEmpty", func() { is, err = jo.IsEmpty(path...) })
			}
		}
		n = len(s) + len(bs) + len(ss) + len(s2) + len(mp) + len(ii) + len(ff) + len(bb)
		if bo || is {
			n++
		}
		t.Eval(t.nontriv)
		switch {
		case err == nil:
			t.Soft("C02 "+name+" answered: "+m.kind, "%s answered a path that leads nowhere", name)
		case n > 0:
			t.Soft("C02 "+name+" value with error", "a value came with error %v", err)
		case m.code >= 0 && !enumerates[strings.TrimPrefix(name, "JO.")] && !jin.ErrEqual(err, m.code):
			t.Soft("C02 "+name+" code: "+m.kind, "error %q, want code %d", err, m.code)
		}
	}
}

// enumerates: these may say something else where the last container is empty.
var enumerates = map[string]bool{"GetKeys": true, "GetValues": true, "GetKeysValues": true, "GetMap": true, "GetAll": true, "GetAllMap": true, "IterateArray": true, "IterateKeyValue": true, "Length": true, "IsEmpty": true}

func caseC02(t *T, i int) {
	doc, root := t.Doc(i, 250)
	jo := jin.New(doc)
	round := func(root *Node, k int) {
		all := root.All()
		for _, n := range t.Nodes(root, k) {
			for rep := 0; rep < 2; rep++ {
				if m, ok := t.missing(doc, root, n, all); ok {
					checkMissing(t, doc, m, jo)
				}
			}
		}
	}
	round(root, 24)
	if t.R.IntN(4) == 0 && len(doc) < 4000 {
		if d2, r2 := t.sameLen(doc); d2 != nil {
			t.CheckRetained()
			copy(doc, d2)
			jo = jin.New(doc)
			round(r2, 8)
		}
	}
}

// ---- C03 ----

func init() {
	register(&Check{ID: "C03", Quick: 500000, Deep: 7500000, Case: caseC03,
		MinEvents: map[string]int64{"GetInt": 20000, "GetFloat": 20000, "GetBool": 20000, "GetIntArray": 5000, "GetFloatArray": 5000, "GetBoolArray": 5000, "GetStringArray": 5000, "ParseArray": 5000, "Parser.GetInt": 2000},
		Rule:      "documents rich in numbers at representation limits, booleans, look-alike strings and homogeneous arrays of each element type (sizes from ladders, every whitespace style); each node read through every typed reader of one of the three forms. Non-trivial: document of at least 3 nodes."})
}

type verdict int

const (
	good verdict = iota
	bad
	weird // both answers are defensible: only a wrong value is a violation
)

func intOf(n *Node, text string) (int, verdict) {
	if n.Container() {
		return 0, bad
	}
	v, err := strconv.Atoi(text)
	if IsJSONNumber(text) && !strings.ContainsAny(text, ".eE") {
		if err == nil {
			return v, good
		}
		return 0, bad // out of range
	}
	if err == nil {
		return v, weird // +5, 007
	}
	if IsJSONNumber(text) { // 1e3, 1.0: an integer value in another notation
		f, e := strconv.ParseFloat(text, 64)
		if e == nil && f == math.Trunc(f) && math.Abs(f) < 1<<62 {
			return int(f), weird
		}
	}
	return 0, bad
}

func floatOf(n *Node, text string) (float64, verdict) {
	if n.Container() {
		return 0, bad
	}
	f, err := strconv.ParseFloat(text, 64)
	if IsJSONNumber(text) {
		if err == nil {
			return f, good
		}
		return 0, bad
	}
	if err == nil || errors.Is(err, strconv.ErrRange) {
		return f, weird // NaN, 0x1p4, 5.
	}
	return 0, bad
}

func boolOf(n *Node, text string) (bool, verdict) {
	if !n.Container() && (text == "true" || text == "false") {
		return text == "true", good
	}
	return false, bad
}

func sameFloat(a, b float64) bool {
	return a == b && math.Signbit(a) == math.Signbit(b) || a != a && b != b
}

type typedReader struct {
	prop    string
	form    string
	gInt    func(p ...string) (int, error)
	gFloat  func(p ...string) (float64, error)
	gBool   func(p ...string) (bool, error)
	gStrs   func(p ...string) ([]string, error)
	gInts   func(p ...string) ([]int, error)
	gFloats func(p ...string) ([]float64, error)
	gBools  func(p ...string) ([]bool, error)
}

func typedReaders(doc []byte, jo *jin.JO, ps *jin.Parser) []typedReader {
	out := []typedReader{{"C03", "",
		func(p ...string) (int, error) { return jin.GetInt(doc, p...) },
		func(p ...string) (float64, error) { return jin.GetFloat(doc, p...) },
		func(p ...string) (bool, error) { return jin.GetBool(doc, p...) },
		func(p ...string) ([]string, error) { return jin.GetStringArray(doc, p...) },
		func(p ...string) ([]int, error) { return jin.GetIntArray(doc, p...) },
		func(p ...string) ([]float64, error) { return jin.GetFloatArray(doc, p...) },
		func(p ...string) ([]bool, error) { return jin.GetBoolArray(doc, p...) }},
		{"C03", "JO.", jo.GetInt, jo.GetFloat, jo.GetBool, jo.GetStringArray, jo.GetIntArray, jo.GetFloatArray, jo.GetBoolArray}}
	if ps != nil {
		out = append(out, parsedReader("C03", ps))
	}
	return out
}

func parsedReader(prop string, ps *jin.Parser) typedReader {
	return typedReader{prop, "Parser.", ps.GetInt, ps.GetFloat, ps.GetBool, ps.GetStringArray, ps.GetIntArray, ps.GetFloatArray, ps.GetBoolArray}
}

func sliceVerdict[X any](doc []byte, n *Node, conv func(*Node, string) (X, verdict)) ([]X, verdict) {
	if n.Kind != KArr {
		txt := string(n.Text(doc))
		if n.Kind == KStr && strings.HasPrefix(txt, "[") && strings.HasSuffix(txt, "]") {
			return nil, weird
		}
		return nil, bad
	}
	out := []X{}
	v := good
	for _, k := range n.Kids {
		x, kv := conv(k, string(k.Text(doc)))
		if kv == bad {
			return nil, bad
		}
		if kv == weird {
			v = weird
		}
		out = append(out, x)
	}
	return out, v
}

func cmpSlice[X any](t *T, name string, got []X, err error, want []X, v verdict, eq func(a, b X) bool) {
	t.Eval(t.nontriv)
	switch v {
	case good:
		if err != nil {
			t.Soft(name+" refused", "error %v, want %v", err, clip(strings.Join([]string{jsonStr(want)}, "")))
			return
		}
	case bad:
		if err == nil {
			t.Soft(name+" answered", "answered %v where the text does not denote that type", got)
		}
		return
	case weird:
		if err != nil || want == nil {
			return
		}
	}
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = eq(got[i], want[i])
	}
	if !ok {
		t.Soft(name+" value", "got %v want %v", clip(jsonStr(got)), clip(jsonStr(want)))
	}
}

func jsonStr(v any) string { return strings.TrimSpace(strings.ReplaceAll(sprint(v), "\n", " ")) }

func checkTyped(t *T, doc []byte, n *Node, rd typedReader) {
	path := t.spare(n.Path())
	text := string(n.Text(doc))
	op := func(s string) { t.Op(rd.form+s, doc, path, nil) }
	if n.Parent != nil {
		op("GetInt")
		gi, err := rd.gInt(path...)
		t.Eval(t.nontriv)
		wi, v := intOf(n, text)
		if v == good && (err != nil || gi != wi) || v == weird && err == nil && gi != wi {
			t.Soft(rd.prop+" "+rd.form+"GetInt", "text %q: got %d %v want %d", clip(text), gi, err, wi)
		}
		if v == bad && err == nil {
			t.Soft(rd.prop+" "+rd.form+"GetInt answered", "text %q: got %d, want an error", clip(text), gi)
		}
		op("GetFloat")
		gf, err := rd.gFloat(path...)
		t.Eval(t.nontriv)
		wf, v := floatOf(n, text)
		if v == good && (err != nil || !sameFloat(gf, wf)) || v == weird && err == nil && !sameFloat(gf, wf) {
			t.Soft(rd.prop+" "+rd.form+"GetFloat", "text %q: got %v %v want %v", clip(text), gf, err, wf)
		}
		if v == bad && err == nil {
			t.Soft(rd.prop+" "+rd.form+"GetFloat answered", "text %q: got %v, want an error", clip(text), gf)
		}
		op("GetBool")
		gb, err := rd.gBool(path...)
		t.Eval(t.nontriv)
		wb, v := boolOf(n, text)
		if v == good && (err != nil || gb != wb) {
			t.Soft(rd.prop+" "+rd.form+"GetBool", "text %q: got %v %v", clip(text), gb, err)
		}
		if v == bad && err == nil {
			t.Soft(rd.prop+" "+rd.form+"GetBool answered", "text %q: got %v, want an error", clip(text), gb)
		}
	} else if n.Kind != KArr {
		return
	}
	if n.Parent == nil && (n.Start != 0 || n.End != len(doc)) {
		return // with surrounding whitespace the whole document is not an array text
	}
	if n.Kind == KArr || t.R.IntN(3) == 0 {
		op("GetStringArray")
		gs, err := rd.gStrs(path...)
		ws, v := sliceVerdict(doc, n, func(k *Node, s string) (string, verdict) { return s, good })
		cmpSlice(t, rd.prop+" "+rd.form+"GetStringArray", gs, err, ws, v, func(a, b string) bool { return a == b })
		t.KeepSS("GetStringArray", gs)
		op("GetIntArray")
		gi, err := rd.gInts(path...)
		wi, v := sliceVerdict(doc, n, intOf)
		cmpSlice(t, rd.prop+" "+rd.form+"GetIntArray", gi, err, wi, v, func(a, b int) bool { return a == b })
		op("GetFloatArray")
		gf, err := rd.gFloats(path...)
		wf, v := sliceVerdict(doc, n, floatOf)
		cmpSlice(t, rd.prop+" "+rd.form+"GetFloatArray", gf, err, wf, v, sameFloat)
		op("GetBoolArray")
		gb, err := rd.gBools(path...)
		wb, v := sliceVerdict(doc, n, boolOf)
		cmpSlice(t, rd.prop+" "+rd.form+"GetBoolArray", gb, err, wb, v, func(a, b bool) bool { return a == b })
	}
	if n.Kind == KArr && rd.form == "" {
		raw := string(n.Raw(doc))
		if k := t.R.IntN(6); k < 2 {
			pad := pick(t.R, []string{" ", "\n", "\t", "\r\n", "   ", " \t "})
			if k == 0 {
				raw = pad + raw
			}
			raw += pad
		}
		t.Op("ParseArray", doc, path, raw)
		gs := jin.ParseArray(raw)
		ws, v := sliceVerdict(doc, n, func(k *Node, s string) (string, verdict) { return s, good })
		cmpSlice(t, "C03 ParseArray", gs, nil, ws, v, func(a, b string) bool { return a == b })
	} else if rd.form == "" && n.Kind != KStr {
		t.Op("ParseArray", doc, path, text)
		gs := jin.ParseArray(text)
		t.Eval(t.nontriv)
		if len(gs) != 0 {
			t.Soft("C03 ParseArray answered", "%q is not an array: got %q", clip(text), gs)
		}
	}
}

// typedDoc makes a document rich in typed arrays.
func (g *G) typedDoc(limit int) *V {
	g.style()
	o := &V{K: KObj}
	mk := func() *V {
		a := varr()
		n := g.n(6)
		if g.p(15) {
			n = g.size(min(limit, 300))
		}
		kind := g.n(9)
		for i := 0; i < n; i++ {
			var v *V
			switch kind {
			case 0:
				v = vnum(strconv.FormatInt(int64(g.r.Uint64())>>g.n(64), 10))
			case 1:
				v = vnum(g.number())
			case 2:
				v = vs(KTrue, "true")
				if g.p(50) {
					v = vs(KFalse, "false")
				}
			case 3:
				v = vstr(g.content())
			case 4:
				v = vnum(strconv.Itoa(g.n(100) - 50))
			case 5:
				v = vnum(pick(g.r, numEdge))
			case 6:
				v = vstr(pick(g.r, lookalike))
			case 7:
				b := 4
				v = g.tree(2, &b)
			case 8:
				v = g.scalar()
			}
			if v.K == KNum && !IsJSONNumber(v.Text) {
				v = vnum("4")
			}
			a.Kids = append(a.Kids, v)
		}
		if n > 0 && g.p(12) { // one element of another type, anywhere
			a.Kids[g.n(n)] = g.scalar()
			if g.p(30) {
				a.Kids[g.n(n)] = pick(g.r, []*V{varr(), {K: KObj}, vstr("tru"), vs(KNull, "null"), vstr(""), vnum("1.5"), vnum("9223372036854775808")})
			}
		}
		return a
	}
	for i := 1 + g.n(4); i > 0; i-- {
		v := mk()
		for g.p(20) {
			v = g.wrap(v)
		}
		o.add(g.newKey(o), v)
		if g.p(50) {
			o.add(g.newKey(o), g.scalar())
		}
	}
	if g.p(25) {
		return mk()
	}
	return o
}

func caseC03(t *T, i int) {
	g := newG(t.R)
	var doc []byte
	var root *Node
	if i < len(ladderList) || i%4 == 0 {
		doc, root = t.DocG(g, i, 150)
	} else {
		doc, root = t.DocOf(g, g.typedDoc(150))
	}
	jo := jin.New(doc)
	var ps *jin.Parser
	if len(doc) < 20000 {
		t.Op("Parse", doc, nil, nil)
		p, err := jin.Parse(doc)
		if err == nil {
			ps = p
		}
	}
	rds := typedReaders(doc, jo, ps)
	for _, n := range t.Nodes(root, 24) {
		checkTyped(t, doc, n, rds[0])
		if t.R.IntN(2) == 0 {
			checkTyped(t, doc, n, rds[1+t.R.IntN(len(rds)-1)])
		}
	}
	if t.R.IntN(4) == 0 && len(doc) < 4000 {
		if d2, r2 := t.sameLen(doc); d2 != nil {
			t.CheckRetained()
			copy(doc, d2)
			rds = typedReaders(doc, jin.New(doc), nil)
			for _, n := range t.Nodes(r2, 8) {
				checkTyped(t, doc, n, rds[t.R.IntN(2)])
			}
		}
	}
}

// ---- C04 ----

func init() {
	register(&Check{ID: "C04", Quick: 900000, Deep: 13500000, Case: caseC04,
		MinEvents: map[string]int64{"GetType": 50000, "Length": 20000, "IsEmpty": 50000, "IsObject": 50000, "empty containers": 5000},
		Rule:      "documents as in C01 (all whitespace styles, strings that look like every other type, numbers in every notation); every (or up to 30) nodes, the root included, asked for type, class, length and emptiness. Non-trivial: at least 3 nodes."})
}

func typeName(n *Node) string {
	switch n.Kind {
	case KObj:
		return "object"
	case KArr:
		return "array"
	case KStr:
		return "string"
	case KNum:
		return "number"
	case KNull:
		return "null"
	}
	return "boolean"
}

type typer struct {
	form                 string
	ty                   func(p ...string) (string, error)
	obj, arr, val, empty func(p ...string) (bool, error)
}

func checkTypes(t *T, doc []byte, n *Node, q typer) {
	path := t.spare(n.Path())
	op := func(s string) { t.Op(q.form+s, doc, path, nil) }
	op("GetType")
	s, err := q.ty(path...)
	t.Eval(t.nontriv)
	if err != nil || s != typeName(n) {
		t.Soft("C04 "+q.form+"GetType of "+typeName(n), "got %q %v want %q for %q", s, err, typeName(n), clip(n.Raw(doc)))
	}
	is := func(name string, f func(p ...string) (bool, error), want bool) {
		op(name)
		b, err := f(path...)
		t.Eval(t.nontriv)
		if err != nil || b != want {
			t.Soft("C04 "+q.form+name+" of "+typeName(n), "got %v %v want %v for %q", b, err, want, clip(n.Raw(doc)))
		}
	}
	is("IsObject", q.obj, n.Kind == KObj)
	is("IsArray", q.arr, n.Kind == KArr)
	is("IsValue", q.val, !n.Container())
	if n.Container() {
		is("IsEmpty", q.empty, len(n.Kids) == 0)
		if len(n.Kids) == 0 {
			t.Events["empty containers"]++
		}
	} else {
		op("IsEmpty")
		_, err := q.empty(path...)
		t.Eval(t.nontriv)
		if err == nil {
			t.Soft("C04 "+q.form+"IsEmpty of a scalar", "no error for %q", clip(n.Raw(doc)))
		}
	}
	if n.Container() && q.form == "" {
		op("Length")
		l, err := jin.Length(doc, path...)
		t.Eval(t.nontriv)
		if err != nil || l != len(n.Kids) {
			t.Soft("C04 Length", "got %d %v want %d for %q", l, err, len(n.Kids), clip(n.Raw(doc)))
		}
	}
}

func caseC04(t *T, i int) {
	doc, root := t.Doc(i, 200)
	jo := jin.New(doc)
	plain := typer{"", func(p ...string) (string, error) { return jin.GetType(doc, p...) },
		func(p ...string) (bool, error) { return jin.IsObject(doc, p...) },
		func(p ...string) (bool, error) { return jin.IsArray(doc, p...) },
		func(p ...string) (bool, error) { return jin.IsValue(doc, p...) },
		func(p ...string) (bool, error) { return jin.IsEmpty(doc, p...) }}
	obj := typer{"JO.", jo.GetType, jo.IsObject, jo.IsArray, jo.IsValue, jo.IsEmpty}
	round := func(root *Node, k int) {
		for _, n := range t.Nodes(root, k) {
			q := plain
			if t.R.IntN(5) == 0 {
				q = obj
			}
			checkTypes(t, doc, n, q)
		}
	}
	round(root, 26)
	if t.R.IntN(4) == 0 && len(doc) < 4000 {
		if d2, r2 := t.sameLen(doc); d2 != nil {
			copy(doc, d2)
			jo = jin.New(doc)
			obj = typer{"JO.", jo.GetType, jo.IsObject, jo.IsArray, jo.IsValue, jo.IsEmpty}
			round(r2, 10)
		}
	}
}

// ---- C05 ----

func init() {
	register(&Check{ID: "C05", Quick: 800000, Deep: 12000000, Case: caseC05,
		MinEvents: map[string]int64{"GetKeys": 20000, "GetValues": 20000, "GetKeysValues": 20000, "GetMap": 30000, "GetAll": 20000, "GetAllMap": 20000},
		Rule:      "documents as in C01; every (or up to 25) containers enumerated through each listing and compared member by member with the reference tree; key lists (random order, repeats, missing ones) fetched below objects and arrays. Non-trivial: document of at least 3 nodes."})
}

type lister struct {
	form   string
	keys   func(p ...string) ([]string, error)
	vals   func(p ...string) ([]string, error)
	kvs    func(p ...string) ([]string, []string, error)
	mp     func(p ...string) (map[string]string, error)
	all    func(k []string, p ...string) ([]string, error)
	allMap func(k []string, p ...string) (map[string]string, error)
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func emptyOK(err error, n *Node) bool {
	return err == nil || len(n.Kids) == 0 && jin.ErrEqual(err, jin.ErrCodeEmpty)
}

func checkList(t *T, doc []byte, n *Node, q lister) {
	path := t.spare(n.Path())
	op := func(s string, arg any) { t.Op(q.form+s, doc, path, arg) }
	wantK, wantV := make([]string, 0, len(n.Kids)), make([]string, 0, len(n.Kids))
	wantM := make(map[string]string, len(n.Kids))
	for _, k := range n.Kids {
		wantK = append(wantK, k.Step())
		s := string(k.Text(doc))
		wantV = append(wantV, s)
		wantM[k.Step()] = s
	}
	if n.Kind == KObj {
		op("GetKeys", nil)
		ks, err := q.keys(path...)
		t.Eval(t.nontriv)
		if !emptyOK(err, n) || !eqStrs(ks, wantK) {
			t.Soft("C05 "+q.form+"GetKeys", "got %q %v want %q", clip(sprint(ks)), err, clip(sprint(wantK)))
		}
		t.KeepSS("GetKeys", ks)
		op("GetValues", nil)
		vs, err := q.vals(path...)
		t.Eval(t.nontriv)
		if !emptyOK(err, n) || !eqStrs(vs, wantV) {
			t.Soft("C05 "+q.form+"GetValues", "got %q %v want %q", clip(sprint(vs)), err, clip(sprint(wantV)))
		}
		t.KeepSS("GetValues", vs)
		op("GetKeysValues", nil)
		ks, vs, err = q.kvs(path...)
		t.Eval(t.nontriv)
		if !emptyOK(err, n) || !eqStrs(vs, wantV) || !eqStrs(ks, wantK) {
			t.Soft("C05 "+q.form+"GetKeysValues", "got %q %q %v want %q %q", clip(sprint(ks)), clip(sprint(vs)), err, clip(sprint(wantK)), clip(sprint(wantV)))
		}
		t.KeepSS("GetKeysValues", ks)
		t.KeepSS("GetKeysValues", vs)
	}
	op("GetMap", nil)
	m, err := q.mp(path...)
	t.Eval(t.nontriv)
	if !emptyOK(err, n) || !eqMap(m, wantM) {
		t.Soft("C05 "+q.form+"GetMap of "+typeName(n), "got %q %v want %q", clip(sprint(m)), err, clip(sprint(wantM)))
	}
	// a list of keys
	req := []string{}
	wv := []string{}
	wm := map[string]string{}
	if len(n.Kids) > 0 {
		many := t.R.IntN(6)
		if t.R.IntN(5) == 0 && len(doc) < 20000 { // long lists, with repeats
			many = t.R.IntN(2 * min(len(n.Kids)+4, 70))
		}
		for k := many; k > 0; k-- {
			x := t.R.IntN(len(n.Kids))
			req = append(req, wantK[x])
			wv = append(wv, wantV[x])
			wm[wantK[x]] = wantV[x]
		}
	}
	wantErr := false
	if t.R.IntN(4) == 0 {
		k := pick(t.R, []string{"nokey", "zz", "", "77777", "-1", pick(t.R, words)})
		if n.Child(k) == nil && !(n.Kind == KArr && oddIndex([]string{k})) {
			at := t.R.IntN(len(req) + 1)
			req = append(req[:at:at], append([]string{k}, req[at:]...)...)
			wantErr = true
		}
	}
	// the list is the caller's: it must come back as it was
	req = append(make([]string, 0, len(req)+t.R.IntN(4)), req...)
	mine := append([]string(nil), req...)
	op("GetAll", sprint(req))
	vs, err := q.all(req, path...)
	if !eqStrs(req, mine) {
		t.Soft("C05 "+q.form+"GetAll changed the key list", "the caller's key list %q became %q", mine, req)
	}
	t.Eval(t.nontriv)
	if wantErr {
		if err == nil {
			t.Soft("C05 "+q.form+"GetAll missing", "no error although a requested key is missing: %q -> %q", req, clip(sprint(vs)))
		}
	} else if err != nil || !eqStrs(vs, wv) {
		t.Soft("C05 "+q.form+"GetAll", "keys %q: got %q %v want %q", req, clip(sprint(vs)), err, clip(sprint(wv)))
	}
	op("GetAllMap", sprint(req))
	m, err = q.allMap(req, path...)
	t.Eval(t.nontriv)
	if wantErr {
		if err == nil {
			t.Soft("C05 "+q.form+"GetAllMap missing", "no error although a requested key is missing: %q", req)
		}
	} else if err != nil || !eqMap(m, wm) {
		t.Soft("C05 "+q.form+"GetAllMap", "keys %q: got %q %v want %q", req, clip(sprint(m)), err, clip(sprint(wm)))
	}
}

func listers(doc []byte) []lister {
	jo := jin.New(doc)
	return []lister{{"", func(p ...string) ([]string, error) { return jin.GetKeys(doc, p...) },
		func(p ...string) ([]string, error) { return jin.GetValues(doc, p...) },
		func(p ...string) ([]string, []string, error) { return jin.GetKeysValues(doc, p...) },
		func(p ...string) (map[string]string, error) { return jin.GetMap(doc, p...) },
		func(k []string, p ...string) ([]string, error) { return jin.GetAll(doc, k, p...) },
		func(k []string, p ...string) (map[string]string, error) { return jin.GetAllMap(doc, k, p...) }},
		{"JO.", jo.GetKeys, jo.GetValues, jo.GetKeysValues, jo.GetMap, jo.GetAll, jo.GetAllMap}}
}

func (t *T) containers(root *Node, k int) []*Node {
	cs := []*Node{}
	for _, n := range root.All() {
		if n.Container() {
			cs = append(cs, n)
		}
	}
	if len(cs) > k {
		t.R.Shuffle(len(cs)-1, func(i, j int) { cs[i+1], cs[j+1] = cs[j+1], cs[i+1] })
		cs = cs[:k]
	}
	return cs
}

// checkDupList: the listings show every member, also of objects that repeat a name.
func checkDupList(t *T, i int) {
	g := newG(t.R)
	g.dup = true
	doc, root := t.DocG(g, len(ladderList)+i, 40)
	for _, n := range t.containers(root, 6) {
		if n.Kind != KObj || root.Resolve(n.Path()) != n {
			continue
		}
		wantK, wantV := []string{}, []string{}
		for _, k := range n.Kids {
			wantK, wantV = append(wantK, k.Key), append(wantV, string(k.Text(doc)))
		}
		p := t.spare(n.Path())
		t.Op("GetKeys", doc, p, "repeated names")
		ks, err := jin.GetKeys(doc, p...)
		t.Eval(t.nontriv)
		if !emptyOK(err, n) || !eqStrs(ks, wantK) {
			t.Soft("C05 GetKeys", "got %q %v want %q", clip(sprint(ks)), err, clip(sprint(wantK)))
		}
		t.Op("GetValues", doc, p, "repeated names")
		vs, err := jin.GetValues(doc, p...)
		t.Eval(t.nontriv)
		if !emptyOK(err, n) || !eqStrs(vs, wantV) {
			t.Soft("C05 GetValues", "got %q %v want %q", clip(sprint(vs)), err, clip(sprint(wantV)))
		}
		t.Op("GetKeysValues", doc, p, "repeated names")
		ks, vs, err = jin.GetKeysValues(doc, p...)
		t.Eval(t.nontriv)
		if !emptyOK(err, n) || !eqStrs(ks, wantK) || !eqStrs(vs, wantV) {
			t.Soft("C05 GetKeysValues", "got %q %q %v want %q %q", clip(sprint(ks)), clip(sprint(vs)), err, clip(sprint(wantK)), clip(sprint(wantV)))
		}
	}
}

func caseC05(t *T, i int) {
	if i%20 == 7 {
		checkDupList(t, i)
		return
	}
	doc, root := t.Doc(i, 200)
	ls := listers(doc)
	round := func(root *Node, k int) {
		for _, n := range t.containers(root, k) {
			q := ls[0]
			if t.R.IntN(4) == 0 {
				q = ls[1]
			}
			checkList(t, doc, n, q)
		}
	}
	round(root, 22)
	if t.R.IntN(4) == 0 && len(doc) < 4000 {
		if d2, r2 := t.sameLen(doc); d2 != nil {
			t.CheckRetained()
			copy(doc, d2)
			ls = listers(doc)
			round(r2, 8)
		}
	}
}

// ---- C06 ----

func init() {
	register(&Check{ID: "C06", Quick: 1000000, Deep: 15000000, Case: caseC06,
		MinEvents: map[string]int64{"IterateArray": 20000, "IterateKeyValue": 20000, "Walk": 10000, "stopped by callback": 8000, "error at last item": 2000, "JO.Walk": 1000},
		Rule:      "documents as in C01; every (or up to 20) containers iterated and the document walked with a recording callback: full run, stop at a random item, error at a random item (often the last); the callback itself reads the document. Non-trivial: document of at least 3 nodes."})
}

// cbErrors are errors a callback may return: its own, those of other packages, those of jin itself.
type cbError struct{ code int }

func (e cbError) Error() string { return "callback said so" }

// Made at the first use, so that the cold starts of C20 stay cold.
var cbErrors = sync.OnceValue(func() []error {
	es := []error{errors.New("callback said so"), errors.New("callback said so"), errors.New(""), errors.New("stop walk"), errors.New("EOF"), io.EOF, io.ErrUnexpectedEOF, context.Canceled, os.ErrNotExist, fs.SkipDir, fs.SkipAll,
		cbError{1}, &cbError{2}, fmt.Errorf("wrapped: %w", io.EOF)}
	for _, f := range []func() error{
		func() error { _, err := jin.Get([]byte(`{"a":1}`), "b"); return err },
		func() error { _, err := jin.Get([]byte(`[1]`), "7"); return err },
		func() error { _, err := jin.Get([]byte(`[1]`), "x"); return err },
		func() error { _, err := jin.Get([]byte(`{"a":1}`), "a", "b"); return err },
		func() error { _, err := jin.Get([]byte(`{`), "a"); return err },
		func() error { _, err := jin.GetInt([]byte(`{"a":"x"}`), "a"); return err },
		func() error { _, err := jin.GetBool([]byte(`{"a":"x"}`), "a"); return err },
		func() error { _, err := jin.GetFloat([]byte(`{"a":"x"}`), "a"); return err },
		func() error { _, err := jin.GetKeys([]byte(`{}`)); return err },
		func() error { _, err := jin.GetKeys([]byte(`[1]`)); return err },
		func() error {
			return jin.IterateArray([]byte(`{"a":1}`), func([]byte) (bool, error) { return true, nil })
		},
		func() error { _, err := jin.SetKey([]byte(`{"a":1,"b":2}`), "b", "a"); return err },
		func() error { _, err := jin.Set([]byte(`{"a":1}`), nil, "a"); return err },
		func() error { _, err := jin.Delete([]byte(`{"a":1}`)); return err },
	} {
		if err := safely(f); err != nil {
			es = append(es, err)
		}
	}
	return es
})

// safely runs a call that is not the subject of the check.
func safely(f func() error) (err error) {
	defer func() {
		if recover() != nil {
			err = nil
		}
	}()
	return f()
}

const (
	runAll = iota
	runStop
	runError
)

// plan of a run over n items: mode and position (index of the item)
func (t *T) plan(n int) (int, int) {
	mode := t.R.IntN(3)
	t.cbErr = cbErrors()[0]
	if t.R.IntN(2) == 0 {
		t.cbErr = pick(t.R, cbErrors())
	}
	if n == 0 {
		return runAll, -1
	}
	at := t.R.IntN(n)
	if t.R.IntN(3) == 0 {
		at = n - 1
	}
	if mode == runAll {
		at = -1
	}
	return mode, at
}

func (t *T) verdictOf(name string, mode, at, n, seen int, err error, empty bool) {
	t.Eval(t.nontriv, []byte{byte(mode), byte(at), byte(at >> 8)})
	switch mode {
	case runAll:
		if err != nil && !empty {
			t.Soft("C06 "+name+" error", "unexpected error %v", err)
		}
		if seen != n {
			t.Soft("C06 "+name+" count", "called back %d times for %d items", seen, n)
		}
	case runStop:
		t.Events["stopped by callback"]++
		if err != nil {
			t.Soft("C06 "+name+" stop error", "stop reported as error %v", err)
		}
		if seen != at+1 {
			t.Soft("C06 "+name+" stop", "asked to stop at item %d of %d but called back %d times", at, n, seen)
		}
	case runError:
		if at == n-1 {
			t.Events["error at last item"]++
		}
		if err == nil {
			t.Soft("C06 "+name+" error lost", "the callback's error %q at item %d of %d was lost", t.cbErr, at, n)
		} else if err != t.cbErr && !errors.Is(err, t.cbErr) {
			t.Soft("C06 "+name+" error changed", "got %v", err)
		}
		if seen != at+1 {
			t.Soft("C06 "+name+" after error", "error at item %d of %d but called back %d times", at, n, seen)
		}
	}
}

func (t *T) answer(mode, at, i int) (bool, error) {
	if i == at && mode == runStop {
		return false, nil
	}
	if i == at && mode == runError {
		if i%2 == 0 {
			return false, t.cbErr
		}
		return true, t.cbErr
	}
	return true, nil
}

// nested makes calls from inside a callback, on the same document and others.
func (t *T) nested(doc []byte, root, k *Node) {
	t.Events["calls from callbacks"]++
	switch t.R.IntN(7) {
	case 0:
		if root.Resolve(k.Path()) != k { // behind a repeated name
			return
		}
		g, err := jin.Get(doc, k.Path()...)
		if err != nil || !bytes.Equal(g, k.Text(doc)) {
			t.Soft("C06 read from callback", "got %q %v", clip(g), err)
		}
	case 1, 2, 3: // iterate something else, or the same container again
		x := k
		if !x.Container() || t.R.IntN(3) == 0 {
			x = pick(t.R, root.All())
		}
		for !x.Container() {
			x = x.Parent
		}
		if root.Resolve(x.Path()) != x {
			return
		}
		i := 0
		bad := func(a, b []byte) {
			if i >= len(x.Kids) || a != nil && string(a) != x.Kids[i].Key || !bytes.Equal(b, x.Kids[i].Text(doc)) {
				t.Soft("C06 iteration from a callback", "item %d: got %q:%q", i, clip(a), clip(b))
			}
			i++
		}
		var err error
		stop := t.R.IntN(4) == 0
		if x.Kind == KArr {
			err = jin.IterateArray(doc, func(v []byte) (bool, error) { bad(nil, v); return !stop, nil }, x.Path()...)
		} else {
			err = jin.IterateKeyValue(doc, func(k, v []byte) (bool, error) { bad(k, v); return !stop, nil }, x.Path()...)
		}
		if len(x.Kids) > 0 && (err != nil || i != len(x.Kids) && !(stop && i == 1)) {
			t.Soft("C06 iteration from a callback", "%d of %d items, error %v", i, len(x.Kids), err)
		}
	case 4:
		if len(doc) < 400 && !DupKeys(root) {
			leaves := leavesOf(root)
			i := 0
			err := jin.Walk(doc, func(k string, v []byte, p []string) (bool, error) {
				if i >= len(leaves) || k != leaves[i].Step() || !bytes.Equal(v, leaves[i].Text(doc)) || !eqStrs(p, leaves[i].Path()) {
					t.Soft("C06 walk from a callback", "leaf %d: got %q=%q at %q", i, k, clip(v), p)
				}
				i++
				return true, nil
			})
			if err != nil && len(root.Kids) > 0 || i != len(leaves) {
				t.Soft("C06 walk from a callback", "%d of %d leaves, error %v", i, len(leaves), err)
			}
		}
	default:
		oneDisturbance(t.D)
	}
}

func leavesOf(root *Node) []*Node {
	leaves := []*Node{}
	for _, n := range root.All() {
		if !n.Container() {
			leaves = append(leaves, n)
		}
	}
	return leaves
}

func checkIter(t *T, doc []byte, root, n *Node, jo *jin.JO) {
	path := t.spare(n.Path())
	mode, at := t.plan(len(n.Kids))
	useJO := t.R.IntN(4) == 0
	reenter := t.R.IntN(6) == 0
	seen := 0
	form := ""
	if useJO {
		form = "JO."
	}
	inner := func(k *Node, key, val []byte) {
		if reenter && len(doc) < 3000 {
			t.nested(doc, root, k)
			if key != nil && string(key) != k.Key || !bytes.Equal(val, k.Text(doc)) {
				t.Soft("C06 "+form+" text changed during the callback", "item became %q:%q after calls from the callback, want %q:%q", clip(key), clip(val), clip(k.Key), clip(k.Text(doc)))
			}
		}
	}
	if n.Kind == KArr {
		name := form + "IterateArray"
		t.Op(name, doc, path, nil)
		cb := func(v []byte) (bool, error) {
			i := seen
			seen++
			if i >= len(n.Kids) {
				t.Soft("C06 "+name+" extra", "callback %d with %q although the array has %d elements", i, clip(v), len(n.Kids))
				return false, nil
			}
			if !bytes.Equal(v, n.Kids[i].Text(doc)) {
				t.Soft("C06 "+name+" text", "element %d: got %q want %q", i, clip(v), clip(n.Kids[i].Text(doc)))
			}
			inner(n.Kids[i], nil, v)
			return t.answer(mode, at, i)
		}
		var err error
		if useJO {
			err = jo.IterateArray(cb, path...)
		} else {
			err = jin.IterateArray(doc, cb, path...)
		}
		t.verdictOf(name, mode, at, len(n.Kids), seen, err, len(n.Kids) == 0 && jin.ErrEqual(err, jin.ErrCodeEmpty))
		return
	}
	name := form + "IterateKeyValue"
	t.Op(name, doc, path, nil)
	cb := func(k, v []byte) (bool, error) {
		i := seen
		seen++
		if i >= len(n.Kids) {
			t.Soft("C06 "+name+" extra", "callback %d with %q:%q although the object has %d members", i, clip(k), clip(v), len(n.Kids))
			return false, nil
		}
		if string(k) != n.Kids[i].Key || !bytes.Equal(v, n.Kids[i].Text(doc)) {
			t.Soft("C06 "+name+" text", "member %d: got %q:%q want %q:%q", i, clip(k), clip(v), clip(n.Kids[i].Key), clip(n.Kids[i].Text(doc)))
		}
		inner(n.Kids[i], k, v)
		return t.answer(mode, at, i)
	}
	var err error
	if useJO {
		err = jo.IterateKeyValue(cb, path...)
	} else {
		err = jin.IterateKeyValue(doc, cb, path...)
	}
	t.verdictOf(name, mode, at, len(n.Kids), seen, err, len(n.Kids) == 0 && jin.ErrEqual(err, jin.ErrCodeEmpty))
}

func checkWalk(t *T, doc []byte, root *Node, jo *jin.JO) {
	leaves := leavesOf(root)
	mode, at := t.plan(len(leaves))
	reenter := t.R.IntN(6) == 0 && len(doc) < 1500
	seen := 0
	name := "Walk"
	useJO := t.R.IntN(4) == 0
	if useJO {
		name = "JO.Walk"
	}
	t.Op(name, doc, nil, nil)
	var kept [][]string
	cb := func(k string, v []byte, p []string) (bool, error) {
		i := seen
		seen++
		if i >= len(leaves) {
			t.Soft("C06 "+name+" extra", "callback %d with %q=%q at %q although there are %d leaves", i, clip(k), clip(v), p, len(leaves))
			return false, nil
		}
		l := leaves[i]
		if k != l.Step() || !bytes.Equal(v, l.Text(doc)) || !eqStrs(p, l.Path()) {
			t.Soft("C06 "+name+" leaf", "leaf %d: got %q=%q at %q want %q=%q at %q", i, clip(k), clip(v), clip(sprint(p)), clip(l.Step()), clip(l.Text(doc)), clip(sprint(l.Path())))
		}
		if reenter && t.R.IntN(2) == 0 {
			t.nested(doc, root, l)
			if k != l.Step() || !bytes.Equal(v, l.Text(doc)) || !eqStrs(p, l.Path()) {
				t.Soft("C06 "+name+" leaf changed during the callback", "leaf %d became %q=%q at %q", i, clip(k), clip(v), clip(sprint(p)))
			}
		}
		kept = append(kept, p)
		return t.answer(mode, at, i)
	}
	var err error
	if useJO {
		err = jo.Walk(cb)
	} else {
		err = jin.Walk(doc, cb)
	}
	t.verdictOf(name, mode, at, len(leaves), seen, err, len(root.Kids) == 0 && jin.ErrEqual(err, jin.ErrCodeEmpty))
	for i, p := range kept {
		if i < len(leaves) && !eqStrs(p, leaves[i].Path()) {
			t.Soft("C06 "+name+" path changed", "the path of leaf %d turned into %q after the callback, want %q", i, p, leaves[i].Path())
		}
	}
}

func caseC06(t *T, i int) {
	if i%20 == 7 { // objects that repeat a name: every member still comes up
		g := newG(t.R)
		g.dup = true
		doc, root := t.DocG(g, len(ladderList)+i, 40)
		for _, n := range t.containers(root, 6) {
			if root.Resolve(n.Path()) == n {
				checkIter(t, doc, root, n, jin.New(doc))
			}
		}
		return
	}
	doc, root := t.Doc(i, 160)
	jo := jin.New(doc)
	for _, n := range t.containers(root, 18) {
		checkIter(t, doc, root, n, jo)
		if t.R.IntN(3) == 0 {
			checkIter(t, doc, root, n, jo)
		}
	}
	cost := len(doc) * len(root.All())
	if cost < 2000000 || (i < len(ladderList) && cost < 20000000 && i%3 == 0) {
		checkWalk(t, doc, root, jo)
		if t.R.IntN(2) == 0 {
			checkWalk(t, doc, root, jo)
		}
	}
	if t.R.IntN(4) == 0 && len(doc) < 3000 {
		if d2, r2 := t.sameLen(doc); d2 != nil {
			copy(doc, d2)
			jo = jin.New(doc)
			for _, n := range t.containers(r2, 6) {
				checkIter(t, doc, r2, n, jo)
			}
			checkWalk(t, doc, r2, jo)
		}
	}
}

var _ = sort.Strings
