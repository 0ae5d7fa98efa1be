package main

// Monitors of the builders and of schemes: C13, C14.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/ecoshub/jin"
)

// ---- C13 ----

// want is what one element of a built document has to represent.
type want struct {
	arg  any
	ok   func(doc []byte, n *Node) bool
	desc string
}

func wantStr(s string) want {
	return want{s, func(doc []byte, n *Node) bool { return stringOK(n, string(n.Text(doc)), s) }, "string " + strconv.Quote(clip(s))}
}

func wantRaw(arg any, raw string) want {
	return want{arg, func(doc []byte, n *Node) bool { return string(n.Raw(doc)) == raw }, "raw " + strconv.Quote(clip(raw))}
}

func wantInt(arg any, s string) want {
	b, _ := new(big.Int).SetString(s, 10)
	return want{arg, func(doc []byte, n *Node) bool { return intTextOK(n, string(n.Text(doc)), b) }, "integer " + s}
}

func wantFloat(arg any, f float64) want {
	return want{arg, func(doc []byte, n *Node) bool { return floatTextOK(n, string(n.Text(doc)), f) }, "float " + strconv.FormatFloat(f, 'g', -1, 64)}
}

func wantBool(b bool) want {
	return want{b, func(doc []byte, n *Node) bool { return b && n.Kind == KTrue || !b && n.Kind == KFalse }, "bool " + strconv.FormatBool(b)}
}

// builtString is a plain string or, now and then, a piece already written as JSON.
func (g *G) builtString() want {
	if g.p(20) {
		var raw []byte
		for len(raw) == 0 || (raw[0] != '[' && raw[0] != '{' && raw[0] != '"') {
			raw = g.render(nil, g.Value(5), 0)
		}
		return wantRaw(string(raw), string(raw))
	}
	return wantStr(g.plainString())
}

type (
	namedInt    int
	namedBool   bool
	namedFloat  float64
	namedString string
)

// speaks gives its text itself.
type speaks struct{ text string }

func (s speaks) String() string { return s.text }

// any value the generic builders accept.
func (g *G) builtAny() want {
	switch g.n(14) {
	case 0:
		return wantBool(g.p(50))
	case 1, 2:
		f := g.float()
		return wantFloat(f, f)
	case 3:
		v := int(g.int64v())
		return wantInt(v, strconv.Itoa(v))
	case 4:
		v := g.int64v()
		return wantInt(v, strconv.FormatInt(v, 10))
	case 5:
		v := uint64(g.int64v())
		return wantInt(v, strconv.FormatUint(v, 10))
	case 6:
		v := int32(g.int64v())
		return wantInt(v, strconv.FormatInt(int64(v), 10))
	case 7:
		v := uint32(g.int64v())
		return wantInt(v, strconv.FormatUint(uint64(v), 10))
	case 8:
		switch g.n(14) {
		case 9:
			v := uintptr(g.int64v())
			return wantInt(v, strconv.FormatUint(uint64(v), 10))
		case 10: // a number in its text form
			if g.p(50) {
				v := strconv.FormatInt(g.int64v(), 10)
				return wantInt(json.Number(v), v)
			}
			f := g.float()
			return wantFloat(json.Number(strconv.FormatFloat(f, 'f', -1, 64)), f)
		case 11: // values that say themselves what they look like
			w := wantStr(g.plainString())
			w.arg = speaks{w.arg.(string)}
			return w
		case 12:
			w := wantStr(g.plainString())
			w.arg = errors.New(w.arg.(string))
			return w
		case 13:
			v := big.NewInt(g.int64v())
			return wantInt(v, v.String())
		case 4: // single precision: the nearest single of the number read is the one given
			f := float32(g.float())
			if math.IsInf(float64(f), 0) || f != f {
				f = 0.1
			}
			return want{f, func(doc []byte, n *Node) bool {
				x, err := strconv.ParseFloat(string(n.Text(doc)), 32)
				return n.Kind == KNum && err == nil && float32(x) == f
			}, "float32 " + fmt.Sprint(f)}
		case 5:
			v := namedInt(g.int64v())
			return wantInt(v, strconv.Itoa(int(v)))
		case 6:
			v := namedBool(g.p(50))
			w := wantBool(bool(v))
			w.arg = v
			return w
		case 7:
			f := g.float()
			return wantFloat(namedFloat(f), f)
		case 8:
			w := wantStr(g.plainString())
			w.arg = namedString(w.arg.(string))
			return w
		case 0:
			v := int8(g.int64v())
			return wantInt(v, strconv.Itoa(int(v)))
		case 1:
			v := uint8(g.int64v())
			return wantInt(v, strconv.Itoa(int(v)))
		case 2:
			v := int16(g.int64v())
			return wantInt(v, strconv.Itoa(int(v)))
		case 3:
			v := uint16(g.int64v())
			return wantInt(v, strconv.Itoa(int(v)))
		}
		v := uint(g.int64v())
		return wantInt(v, strconv.FormatUint(uint64(v), 10))
	}
	return g.builtString()
}

func (g *G) listSize() int {
	switch g.n(10) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return g.size(600)
	}
	return g.n(8)
}

func (t *T) checkBuilt(name string, doc []byte, keys []string, ws []want, isArr, ordered bool) {
	t.Eval(len(ws) > 0)
	t.Events["built"]++
	t.Feat("items " + bucket(len(ws)))
	root, err := RefParse(doc)
	if err != nil {
		t.Soft("C13 "+name+" not well-formed", "%s of %d items gives %q", name, len(ws), clip(doc))
		return
	}
	if isArr != (root.Kind == KArr) || !isArr != (root.Kind == KObj) {
		t.Soft("C13 "+name+" kind", "gives %q", clip(doc))
		return
	}
	if len(root.Kids) != len(ws) {
		t.Soft("C13 "+name+" count", "%d items in, %d out: %q", len(ws), len(root.Kids), clip(doc))
		return
	}
	for i, w := range ws {
		n := root.Kids[i]
		if !isArr {
			if !ordered {
				if n = root.Child(keys[i]); n == nil {
					t.Soft("C13 "+name+" key lost", "key %q is missing from %q", clip(keys[i]), clip(doc))
					return
				}
			} else if n.Key != keys[i] {
				t.Soft("C13 "+name+" key", "member %d has key %q want %q", i, clip(n.Key), clip(keys[i]))
				return
			}
		}
		if !w.ok(doc, n) {
			t.Soft("C13 "+name+" value", "item %d is %q want %s", i, clip(n.Raw(doc)), w.desc)
			return
		}
	}
	t.Keep(name, doc)
}

func caseC13(t *T, i int) {
	g := newG(t.R)
	g.style()
	for k := 0; k < 6; k++ {
		n := g.listSize()
		nilList := n == 0 && g.p(50)
		var ws []want
		mk := func(f func() want) {
			for j := 0; j < n; j++ {
				ws = append(ws, f())
			}
		}
		desc := func() string {
			var b strings.Builder
			for j, w := range ws {
				if j > 20 {
					b.WriteString("...")
					break
				}
				b.WriteString(w.desc + "; ")
			}
			return b.String()
		}
		newKeys := func(unique bool) []string {
			o := &V{K: KObj}
			ks := []string{}
			for j := 0; j < n; j++ {
				k := g.newKey(o)
				if unique && o.has(k) {
					k = "u" + strconv.Itoa(j) + "_"
				}
				o.add(k, nil)
				ks = append(ks, k)
			}
			if g.p(5) && n > 0 && !unique {
				ks[len(ks)-1] = ks[0]
			}
			return ks
		}
		switch g.n(11) {
		case 0:
			mk(g.builtAny)
			var xs []interface{}
			if !nilList {
				xs = []interface{}{}
			}
			for _, w := range ws {
				xs = append(xs, w.arg)
			}
			t.Op("MakeArray", nil, nil, desc())
			t.checkBuilt("MakeArray", jin.MakeArray(xs...), nil, ws, true, true)
		case 1:
			mk(g.builtString)
			var xs []string
			if !nilList {
				xs = []string{}
			}
			for _, w := range ws {
				xs = append(xs, w.arg.(string))
			}
			t.Op("MakeArrayString", nil, nil, desc())
			t.checkBuilt("MakeArrayString", jin.MakeArrayString(xs), nil, ws, true, true)
		case 2:
			var xs []int
			if !nilList {
				xs = []int{}
			}
			for j := 0; j < n; j++ {
				v := int(g.int64v())
				xs = append(xs, v)
				ws = append(ws, wantInt(v, strconv.Itoa(v)))
			}
			t.Op("MakeArrayInt", nil, nil, desc())
			t.checkBuilt("MakeArrayInt", jin.MakeArrayInt(xs), nil, ws, true, true)
		case 3:
			var xs []bool
			if !nilList {
				xs = []bool{}
			}
			for j := 0; j < n; j++ {
				v := g.p(50)
				xs = append(xs, v)
				ws = append(ws, wantBool(v))
			}
			t.Op("MakeArrayBool", nil, nil, desc())
			t.checkBuilt("MakeArrayBool", jin.MakeArrayBool(xs), nil, ws, true, true)
		case 4:
			var xs []float64
			if !nilList {
				xs = []float64{}
			}
			for j := 0; j < n; j++ {
				v := g.float()
				xs = append(xs, v)
				ws = append(ws, wantFloat(v, v))
			}
			t.Op("MakeArrayFloat", nil, nil, desc())
			t.checkBuilt("MakeArrayFloat", jin.MakeArrayFloat(xs), nil, ws, true, true)
		case 5:
			var xs [][]byte
			if !nilList {
				xs = [][]byte{}
			}
			for j := 0; j < n; j++ {
				v := g.rawValue(6)
				xs = append(xs, v)
				ws = append(ws, wantRaw(v, strings.TrimSpace(string(v))))
			}
			t.Op("MakeArrayBytes", nil, nil, desc())
			doc := jin.MakeArrayBytes(xs...)
			t.checkBuilt("MakeArrayBytes", doc, nil, ws, true, true)
			// verbatim: nothing but separators between the pieces
			if len(xs) > 0 && !bytes.Equal(RefMinify(doc), RefMinify([]byte("["+string(bytes.Join(xs, []byte(",")))+"]"))) {
				t.Soft("C13 MakeArrayBytes verbatim", "got %q", clip(doc))
			}
		case 6, 7: // key and value lists
			name := "MakeJson"
			f := g.builtAny
			if g.p(50) {
				name, f = "MakeJsonString", g.builtString
			}
			mk(f)
			keys := newKeys(false)
			// lists of different length give no document
			if g.p(25) {
				if g.p(50) {
					keys = append(keys, "extra")
				} else {
					ws = append(ws, f())
				}
			}
			mismatch := len(keys) != len(ws)
			if nilList && g.p(50) && len(keys) == 0 {
				keys = nil
			}
			t.Op(name, nil, keys, desc())
			var doc []byte
			if name == "MakeJson" {
				var xs []interface{}
				if !nilList {
					xs = []interface{}{}
				}
				for _, w := range ws {
					xs = append(xs, w.arg)
				}
				doc = jin.MakeJson(keys, xs)
			} else {
				var xs []string
				if !nilList {
					xs = []string{}
				}
				for _, w := range ws {
					xs = append(xs, w.arg.(string))
				}
				doc = jin.MakeJsonString(keys, xs)
			}
			if mismatch {
				t.Events["mismatched lists"]++
				t.Eval(true)
				if len(doc) != 0 {
					t.Soft("C13 "+name+" of lists of different length", "%d keys, %d values give %q", len(keys), len(ws), clip(doc))
				}
				continue
			}
			t.checkBuilt(name, doc, keys, ws, false, true)
		case 8:
			keys := newKeys(true)
			mk(g.builtString)
			m := map[string]string{}
			for j, k := range keys {
				m[k] = ws[j].arg.(string)
			}
			if nilList {
				m = nil
			}
			t.Op("MakeJsonWithMap", nil, keys, desc())
			t.checkBuilt("MakeJsonWithMap", jin.MakeJsonWithMap(m), keys, ws, false, false)
		case 9: // schemes
			keys := newKeys(false)
			s := jin.MakeScheme(keys...)
			mk(g.builtAny)
			xs := []interface{}{}
			for _, w := range ws {
				xs = append(xs, w.arg)
			}
			t.Op("Scheme.MakeJson", nil, keys, desc())
			t.checkBuilt("Scheme.MakeJson", s.MakeJson(xs...), keys, ws, false, true)
		case 10:
			t.Op("MakeEmptyArray", nil, nil, nil)
			t.checkBuilt("MakeEmptyArray", jin.MakeEmptyArray(), nil, nil, true, true)
			t.Op("MakeEmptyJson", nil, nil, nil)
			t.checkBuilt("MakeEmptyJson", jin.MakeEmptyJson(), nil, nil, false, true)
			t.Op("NewJSON", nil, nil, nil)
			t.checkBuilt("NewJSON", jin.NewJSON().JSON(), nil, nil, false, true)
			// what is built by one call is independent of what another call built
			a := jin.MakeEmptyArray()
			a[0] = 'x'
			t.Op("MakeEmptyArray", nil, nil, "again")
			t.checkBuilt("MakeEmptyArray", jin.MakeEmptyArray(), nil, nil, true, true)
			b := jin.MakeEmptyJson()
			b[1] = 'x'
			t.Op("MakeEmptyJson", nil, nil, "again")
			t.checkBuilt("MakeEmptyJson", jin.MakeEmptyJson(), nil, nil, false, true)
		}
	}
}

func init() {
	register(&Check{ID: "C13", Quick: 1200000, Deep: 18000000, Case: caseC13,
		MinEvents: map[string]int64{"MakeArray": 10000, "MakeArrayString": 10000, "MakeArrayInt": 10000, "MakeArrayBool": 10000, "MakeArrayFloat": 10000, "MakeArrayBytes": 10000, "MakeJson": 10000, "MakeJsonString": 10000, "MakeJsonWithMap": 10000, "Scheme.MakeJson": 10000, "mismatched lists": 10000},
		Rule:      "random argument lists (nil, empty, one, up to 600 items) for every builder: all integer widths at representation limits, random finite floats of all exponents, booleans, plain texts (number look-alikes, escapes, structure characters), pieces already written as JSON, raw JSON with whitespace, duplicate and confusable keys; the result is read by the reference and compared item by item; retained results must not change. Non-trivial: at least one item.",
		Assume:    []string{"generic builders are given integers, float64, booleans and strings only (their documentation excludes slices)", "NaN and infinities have no JSON number form and are not given"}})
	register(&Check{ID: "C14", Quick: 1100000, Deep: 16500000, Case: caseC14,
		MinEvents: map[string]int64{"Scheme.Add": 100000, "Scheme.Remove": 100000, "Scheme.Save": 50000, "Scheme.Restore": 50000, "Scheme.Check": 20000, "Scheme.CheckAbs": 20000, "Scheme.MutateJson": 20000, "Scheme.MutateJsonAbs": 20000, "Scheme.MakeJson": 20000, "check true": 1000, "check false": 5000, "checkabs true": 300, "projected": 3000, "projection refused": 3000},
		Rule:      "random histories of 1-60 scheme operations from key lists with and without spare capacity, checked after every step against an ordered-list model; every key list handed in or out earlier is compared with its copy after every later step; documents for Check/CheckAbs/MutateJson/MutateJsonAbs have all, some, more or other keys than the scheme, nested decoys of the same names, any whitespace and value texts. Non-trivial: history of at least 3 operations."})
}

// ---- C14 ----

type klist struct {
	what      string
	got, copy []string
}

func caseC14(t *T, i int) {
	g := newG(t.R)
	g.noEmptyKey = true
	g.style()
	pool := []string{}
	po := &V{K: KObj}
	for k := 3 + g.n(5); k > 0; k-- {
		x := g.freshKey(nil)
		if g.p(50) {
			x = g.newKey(po)
		}
		for x == "" || po.has(x) {
			x = "p" + strconv.Itoa(k) + strconv.Itoa(g.n(1000))
		}
		po.add(x, nil)
		pool = append(pool, x)
	}
	g.keys = pool
	n := g.n(len(pool) + 1)
	perm := t.R.Perm(len(pool))[:n]
	cur := []string{}
	for _, x := range perm {
		cur = append(cur, pool[x])
	}
	if g.p(3) { // a wide scheme
		for k := g.size(300); k > 0; k-- {
			cur = append(cur, "w"+strconv.Itoa(k)+"_")
		}
	}
	in := t.spare(cur)
	all := in[:cap(in)]
	lists := []klist{{"given to MakeScheme", all, append([]string(nil), all...)}}
	orig := append([]string(nil), cur...)
	hist := []string{"MakeScheme" + fmt.Sprintf("%q", clipList(cur))}
	t.Op("MakeScheme", nil, cur, nil)
	s := jin.MakeScheme(in...)
	steps := 1 + g.n(12)
	if g.p(15) {
		steps = 20 + g.n(40)
	}
	cp := func(x []string) []string { return append([]string(nil), x...) }
	hits := 0
	for k := 0; k < steps; k++ {
		op := g.n(14)
		name := ""
		var doc []byte
		var root *Node
		if op >= 8 && op <= 11 {
			doc, root = t.schemeDoc(g, cur, pool)
		}
		call := func(nm string, d []byte, arg any) {
			name = nm
			hits++
			hist = append(hist, nm+"("+clip(fmt.Sprint(arg))+")")
			t.Op(nm, d, hist, arg)
		}
		switch op {
		case 0, 1, 2:
			key := pick(t.R, pool)
			if g.p(20) {
				key = g.freshKey(nil)
			}
			has := indexOf(cur, key) >= 0
			call("Scheme.Add", nil, key)
			if got := s.Add(key); got == has {
				t.Soft("C14 Add result", "Add(%q) reported %v, keys %q", key, got, cur)
			}
			if !has {
				cur = append(cp(cur), key)
			}
		case 3, 4, 5:
			key := pick(t.R, pool)
			if len(cur) > 0 && g.p(50) {
				key = pick(t.R, cur)
			}
			at := indexOf(cur, key)
			call("Scheme.Remove", nil, key)
			if got := s.Remove(key); got != (at >= 0) {
				t.Soft("C14 Remove result", "Remove(%q) reported %v, keys %q", key, got, cur)
			}
			if at >= 0 {
				cur = append(cp(cur[:at]), cur[at+1:]...)
			}
		case 6:
			call("Scheme.Save", nil, "")
			s.Save()
			orig = cp(cur)
		case 7:
			call("Scheme.Restore", nil, "")
			s.Restore()
			cur = cp(orig)
		case 8:
			call("Scheme.Check", doc, string(doc))
			want := true
			for _, x := range cur {
				want = want && root.Child(x) != nil
			}
			t.Events["check "+strconv.FormatBool(want)]++
			if got := s.Check(doc); got != want {
				t.Soft("C14 Check", "Check said %v want %v, keys %q", got, want, cur)
			}
		case 9:
			if len(cur) > 1 && g.p(12) { // as many members as keys, but a repeated name takes the place of another
				names := cp(cur)
				a, b := g.n(len(names)), g.n(len(names))
				names[a] = names[b]
				doc = []byte("{")
				for i, j := range t.R.Perm(len(names)) {
					if i > 0 {
						doc = append(doc, ',')
					}
					doc = append(append(append(doc, '"'), names[j]...), '"', ':')
					doc = g.render(doc, g.scalar(), 0)
				}
				doc = append(doc, '}')
				var err error
				if root, err = RefParse(doc); err != nil {
					panic("HARNESS: " + err.Error() + " in " + clip(doc))
				}
				t.Feat("repeated name in a checked document")
			}
			call("Scheme.CheckAbs", doc, string(doc))
			want := len(root.Kids) == len(cur)
			for _, x := range cur {
				want = want && root.Child(x) != nil
			}
			t.Events["checkabs "+strconv.FormatBool(want)]++
			if got := s.CheckAbs(doc); got != want && len(root.Kids)+len(cur) > 0 {
				t.Soft("C14 CheckAbs", "CheckAbs said %v want %v, keys %q", got, want, cur)
			}
		case 10, 11:
			nm := "Scheme.MutateJson"
			f := s.MutateJson
			if op == 11 {
				nm, f = "Scheme.MutateJsonAbs", s.MutateJsonAbs
			}
			call(nm, doc, string(doc))
			got, err := f(doc)
			t.Eval(len(hist) > 3)
			t.checkProjection(nm, op == 11, cur, doc, root, got, err)
		case 12:
			ws := []want{}
			xs := []interface{}{}
			ss := []string{}
			for range cur {
				w := g.builtString()
				ws = append(ws, w)
				ss = append(ss, w.arg.(string))
				xs = append(xs, w.arg)
			}
			if g.p(50) {
				call("Scheme.MakeJson", nil, fmt.Sprintf("%q", clipList(ss)))
				t.checkScheme("Scheme.MakeJson", s.MakeJson(xs...), cur, ws)
			} else {
				call("Scheme.MakeJsonString", nil, fmt.Sprintf("%q", clipList(ss)))
				t.checkScheme("Scheme.MakeJsonString", s.MakeJsonString(ss...), cur, ws)
			}
		case 13:
			call("Scheme.GetCurrentKeys", nil, "")
			x := s.GetCurrentKeys()
			lists = append(lists, klist{"GetCurrentKeys", x, cp(x)})
			x = s.GetOriginalKeys()
			lists = append(lists, klist{"GetOriginalKeys", x, cp(x)})
		}
		t.Eval(len(hist) > 3)
		if got := s.GetCurrentKeys(); !eqStrs(got, cur) {
			t.Soft("C14 keys after "+name, "current keys %q want %q", clipList(got), clipList(cur))
			return
		}
		if got := s.GetOriginalKeys(); !eqStrs(got, orig) {
			t.Soft("C14 saved keys after "+name, "saved keys %q want %q", clipList(got), clipList(orig))
			return
		}
		for _, l := range lists {
			if !eqStrs(l.got, l.copy) {
				t.Soft("C14 "+name+" altered a key list", "the list %s changed from %q to %q", l.what, clipList(l.copy), clipList(l.got))
				return
			}
		}
	}
	t.Feat("history length " + bucket(hits))
}

func clipList(x []string) []string {
	if len(x) > 30 {
		return x[:30]
	}
	return x
}

func indexOf(xs []string, k string) int {
	for i, x := range xs {
		if x == k {
			return i
		}
	}
	return -1
}

// schemeDoc is an object whose keys relate to the scheme's.
func (t *T) schemeDoc(g *G, cur, pool []string) ([]byte, *Node) {
	v := &V{K: KObj}
	val := func() *V {
		switch g.n(6) {
		case 0: // decoy: the same names one level down
			o := &V{K: KObj}
			for _, k := range pool {
				if g.p(50) {
					o.add(k, g.scalar())
				}
			}
			if g.p(30) {
				return varr(o, g.scalar())
			}
			return o
		case 1, 2:
			return g.Value(5)
		case 3:
			if g.p(1) { // a large or deep member
				l := pick(t.R, ladderUpto(9000))
				return g.ladder(l[0], l[1])
			}
		}
		return g.scalar()
	}
	order := t.R.Perm(len(cur))
	mode := g.n(5)
	for _, i := range order {
		if mode == 1 && g.p(30) || mode == 2 && g.p(80) {
			continue
		}
		v.add(cur[i], val())
	}
	if mode >= 3 {
		for _, k := range pool {
			if !v.has(k) && g.p(40) {
				v.add(k, val())
			}
		}
	}
	if mode == 4 && len(v.Keys) > 1 { // members in another order, one dropped
		v.Keys, v.Kids = v.Keys[1:], v.Kids[1:]
	}
	return t.DocOf(g, v)
}

func (t *T) checkScheme(name string, doc []byte, keys []string, ws []want) {
	root, err := RefParse(doc)
	if err != nil || root.Kind != KObj || len(root.Kids) != len(keys) {
		t.Soft("C14 "+name, "keys %q give %q", clipList(keys), clip(doc))
		return
	}
	for i, k := range keys {
		if root.Kids[i].Key != k || !ws[i].ok(doc, root.Kids[i]) {
			t.Soft("C14 "+name+" member", "member %d is %q:%q want %q:%s", i, root.Kids[i].Key, clip(root.Kids[i].Raw(doc)), k, ws[i].desc)
			return
		}
	}
	t.Keep(name, doc)
}

func (t *T) checkProjection(name string, abs bool, keys []string, doc []byte, root *Node, got []byte, err error) {
	missing := false
	for _, k := range keys {
		missing = missing || root.Child(k) == nil
	}
	if abs && missing {
		t.Events["projection refused"]++
		if err == nil {
			t.Soft("C14 "+name+" accepted", "a key is missing but the result is %q", clip(got))
		}
		return
	}
	if err != nil {
		t.Soft("C14 "+name+" refused", "error %v, keys %q", err, clipList(keys))
		return
	}
	t.Events["projected"]++
	r, perr := RefParse(got)
	if perr != nil || r.Kind != KObj {
		t.Soft("C14 "+name+" not well-formed", "result %q", clip(got))
		return
	}
	// exactly the scheme's keys in order; what a missing key becomes is not specified
	j := 0
	for _, k := range keys {
		src := root.Child(k)
		if j < len(r.Kids) && r.Kids[j].Key == k {
			if src != nil && !bytes.Equal(r.Kids[j].Raw(got), src.Raw(doc)) {
				t.Soft("C14 "+name+" changed a value", "member %q became %q from %q", clip(k), clip(r.Kids[j].Raw(got)), clip(src.Raw(doc)))
				return
			}
			j++
		} else if src != nil {
			t.Soft("C14 "+name+" lost a key", "member %q is not at its place in %q", clip(k), clip(got))
			return
		}
	}
	if j != len(r.Kids) {
		t.Soft("C14 "+name+" foreign key", "result %q has members that are not in the scheme %q", clip(got), clipList(keys))
	}
	t.Keep(name, got)
}
