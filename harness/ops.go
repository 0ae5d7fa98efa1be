package main

// One description of every edit the package offers, the reference effect of
// each, and drivers for the three forms (plain, JO, Parser).

import (
	"bytes"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/ecoshub/jin"
)

type Op struct {
	Kind  string // set setkey store addkv add insert delete
	Type  string // raw string int uint int32 int64 uint32 uint64 float bool ("" where there is none)
	Path  []string
	Key   string
	Index int
	Raw   []byte
	S     string
	I     int64
	U     uint64
	F     float64
	B     bool
	From  *Node // the raw value is the text of this node of the document itself
}

var kindName = map[string]string{"set": "Set", "setkey": "SetKey", "store": "Store", "addkv": "AddKeyValue", "add": "Add", "insert": "Insert", "delete": "Delete"}
var typeSuffix = map[string]string{"": "", "raw": "", "string": "String", "int": "Int", "uint": "Uint", "int32": "Int32", "int64": "Int64", "uint32": "Uint32", "uint64": "Uint64", "float": "Float", "bool": "Bool"}

func (o *Op) Name() string { return kindName[o.Kind] + typeSuffix[o.Type] }

func (o *Op) Arg() string {
	var b strings.Builder
	switch o.Kind {
	case "setkey", "store", "addkv":
		b.WriteString("key=" + strconv.Quote(o.Key) + " ")
	case "insert":
		b.WriteString("index=" + strconv.Itoa(o.Index) + " ")
	}
	switch o.Type {
	case "raw":
		b.WriteString("value=" + strconv.Quote(clip(o.Raw)))
		if o.Raw == nil {
			b.WriteString("(nil)")
		}
	case "string":
		b.WriteString("value=" + strconv.Quote(clip(o.S)))
	case "int", "int32", "int64":
		b.WriteString("value=" + strconv.FormatInt(o.I, 10))
	case "uint", "uint32", "uint64":
		b.WriteString("value=" + strconv.FormatUint(o.U, 10))
	case "float":
		b.WriteString("value=" + strconv.FormatFloat(o.F, 'g', -1, 64))
	case "bool":
		b.WriteString("value=" + strconv.FormatBool(o.B))
	}
	return b.String()
}

var smallTypes = []string{"raw", "string", "int", "float", "bool"}
var allTypes = []string{"raw", "string", "int", "uint", "int32", "int64", "uint32", "uint64", "float", "bool"}

func plainTypes(kind string) []string {
	switch kind {
	case "set", "store":
		return smallTypes
	case "setkey", "delete":
		return []string{""}
	}
	return allTypes
}

// has says whether a form offers the operation.
func (o *Op) has(form string) bool {
	switch form {
	case "plain":
		return true
	case "JO":
		switch o.Type {
		case "uint", "int32", "int64", "uint32", "uint64":
			return false
		}
		return true
	}
	switch o.Type {
	case "uint", "int32", "int64", "uint32", "uint64":
		return false
	}
	return o.Kind != "store"
}

func (o *Op) Plain(j []byte, path []string) ([]byte, error) {
	switch o.Kind {
	case "setkey":
		return jin.SetKey(j, o.Key, path...)
	case "delete":
		return jin.Delete(j, path...)
	case "set":
		switch o.Type {
		case "raw":
			return jin.Set(j, o.Raw, path...)
		case "string":
			return jin.SetString(j, o.S, path...)
		case "int":
			return jin.SetInt(j, int(o.I), path...)
		case "float":
			return jin.SetFloat(j, o.F, path...)
		case "bool":
			return jin.SetBool(j, o.B, path...)
		}
	case "store":
		switch o.Type {
		case "raw":
			return jin.Store(j, o.Key, o.Raw, path...)
		case "string":
			return jin.StoreString(j, o.Key, o.S, path...)
		case "int":
			return jin.StoreInt(j, o.Key, int(o.I), path...)
		case "float":
			return jin.StoreFloat(j, o.Key, o.F, path...)
		case "bool":
			return jin.StoreBool(j, o.Key, o.B, path...)
		}
	case "addkv":
		switch o.Type {
		case "raw":
			return jin.AddKeyValue(j, o.Key, o.Raw, path...)
		case "string":
			return jin.AddKeyValueString(j, o.Key, o.S, path...)
		case "int":
			return jin.AddKeyValueInt(j, o.Key, int(o.I), path...)
		case "uint":
			return jin.AddKeyValueUint(j, o.Key, uint(o.U), path...)
		case "int32":
			return jin.AddKeyValueInt32(j, o.Key, int32(o.I), path...)
		case "int64":
			return jin.AddKeyValueInt64(j, o.Key, o.I, path...)
		case "uint32":
			return jin.AddKeyValueUint32(j, o.Key, uint32(o.U), path...)
		case "uint64":
			return jin.AddKeyValueUint64(j, o.Key, o.U, path...)
		case "float":
			return jin.AddKeyValueFloat(j, o.Key, o.F, path...)
		case "bool":
			return jin.AddKeyValueBool(j, o.Key, o.B, path...)
		}
	case "add":
		switch o.Type {
		case "raw":
			return jin.Add(j, o.Raw, path...)
		case "string":
			return jin.AddString(j, o.S, path...)
		case "int":
			return jin.AddInt(j, int(o.I), path...)
		case "uint":
			return jin.AddUint(j, uint(o.U), path...)
		case "int32":
			return jin.AddInt32(j, int32(o.I), path...)
		case "int64":
			return jin.AddInt64(j, o.I, path...)
		case "uint32":
			return jin.AddUint32(j, uint32(o.U), path...)
		case "uint64":
			return jin.AddUint64(j, o.U, path...)
		case "float":
			return jin.AddFloat(j, o.F, path...)
		case "bool":
			return jin.AddBool(j, o.B, path...)
		}
	case "insert":
		switch o.Type {
		case "raw":
			return jin.Insert(j, o.Index, o.Raw, path...)
		case "string":
			return jin.InsertString(j, o.Index, o.S, path...)
		case "int":
			return jin.InsertInt(j, o.Index, int(o.I), path...)
		case "uint":
			return jin.InsertUint(j, o.Index, uint(o.U), path...)
		case "int32":
			return jin.InsertInt32(j, o.Index, int32(o.I), path...)
		case "int64":
			return jin.InsertInt64(j, o.Index, o.I, path...)
		case "uint32":
			return jin.InsertUint32(j, o.Index, uint32(o.U), path...)
		case "uint64":
			return jin.InsertUint64(j, o.Index, o.U, path...)
		case "float":
			return jin.InsertFloat(j, o.Index, o.F, path...)
		case "bool":
			return jin.InsertBool(j, o.Index, o.B, path...)
		}
	}
	panic("HARNESS: no plain " + o.Name())
}

// editor is the method set JO and Parser share.
type editor interface {
	Set([]byte, ...string) error
	SetString(string, ...string) error
	SetInt(int, ...string) error
	SetFloat(float64, ...string) error
	SetBool(bool, ...string) error
	SetKey(string, ...string) error
	Delete(...string) error
	AddKeyValue(string, []byte, ...string) error
	AddKeyValueString(string, string, ...string) error
	AddKeyValueInt(string, int, ...string) error
	AddKeyValueFloat(string, float64, ...string) error
	AddKeyValueBool(string, bool, ...string) error
	Add([]byte, ...string) error
	AddString(string, ...string) error
	AddInt(int, ...string) error
	AddFloat(float64, ...string) error
	AddBool(bool, ...string) error
	Insert(int, []byte, ...string) error
	InsertString(int, string, ...string) error
	InsertInt(int, int, ...string) error
	InsertFloat(int, float64, ...string) error
	InsertBool(int, bool, ...string) error
	JSON() []byte
}

func (o *Op) On(e editor, path []string) error {
	switch o.Kind {
	case "setkey":
		return e.SetKey(o.Key, path...)
	case "delete":
		return e.Delete(path...)
	case "set":
		switch o.Type {
		case "raw":
			return e.Set(o.Raw, path...)
		case "string":
			return e.SetString(o.S, path...)
		case "int":
			return e.SetInt(int(o.I), path...)
		case "float":
			return e.SetFloat(o.F, path...)
		case "bool":
			return e.SetBool(o.B, path...)
		}
	case "store":
		jo := e.(*jin.JO)
		switch o.Type {
		case "raw":
			return jo.Store(o.Key, o.Raw, path...)
		case "string":
			return jo.StoreString(o.Key, o.S, path...)
		case "int":
			return jo.StoreInt(o.Key, int(o.I), path...)
		case "float":
			return jo.StoreFloat(o.Key, o.F, path...)
		case "bool":
			return jo.StoreBool(o.Key, o.B, path...)
		}
	case "addkv":
		switch o.Type {
		case "raw":
			return e.AddKeyValue(o.Key, o.Raw, path...)
		case "string":
			return e.AddKeyValueString(o.Key, o.S, path...)
		case "int":
			return e.AddKeyValueInt(o.Key, int(o.I), path...)
		case "float":
			return e.AddKeyValueFloat(o.Key, o.F, path...)
		case "bool":
			return e.AddKeyValueBool(o.Key, o.B, path...)
		}
	case "add":
		switch o.Type {
		case "raw":
			return e.Add(o.Raw, path...)
		case "string":
			return e.AddString(o.S, path...)
		case "int":
			return e.AddInt(int(o.I), path...)
		case "float":
			return e.AddFloat(o.F, path...)
		case "bool":
			return e.AddBool(o.B, path...)
		}
	case "insert":
		switch o.Type {
		case "raw":
			return e.Insert(o.Index, o.Raw, path...)
		case "string":
			return e.InsertString(o.Index, o.S, path...)
		case "int":
			return e.InsertInt(o.Index, int(o.I), path...)
		case "float":
			return e.InsertFloat(o.Index, o.F, path...)
		case "bool":
			return e.InsertBool(o.Index, o.B, path...)
		}
	}
	panic("HARNESS: no method " + o.Name())
}

// ---- the reference effect ----

type Effect struct {
	OK     bool
	Kind   string   // set, setkey, addkv, add, insert, delete (store resolved)
	E      []byte   // an expected text (placeholder value for typed writes)
	Cont   []string // path of the container that changes
	Target int      // position of the new value in it, -1: none
	S, L   int      // set: the replaced span
}

const placeholder = "0"

func splice(doc []byte, s, e int, ins string) []byte {
	out := make([]byte, 0, len(doc)+len(ins))
	out = append(out, doc[:s]...)
	out = append(out, ins...)
	return append(out, doc[e:]...)
}

// Ref says what the operation must do to a well-formed document.
func (o *Op) Ref(doc []byte, root *Node, path []string) Effect {
	val := placeholder
	if o.Type == "raw" {
		val = string(o.Raw)
		if o.Raw == nil {
			val = "null"
		}
	}
	n := root.Resolve(path)
	if n == nil {
		return Effect{}
	}
	set := func(n *Node) Effect {
		return Effect{OK: true, Kind: "set", E: splice(doc, n.Start, n.End, val), Cont: n.Parent.Path(), Target: n.Pos, S: n.Start, L: n.End}
	}
	addkv := func(n *Node) Effect {
		pre := ","
		if len(n.Kids) == 0 {
			pre = ""
		}
		return Effect{OK: true, Kind: "addkv", E: splice(doc, n.End-1, n.End-1, pre+`"`+o.Key+`":`+val), Cont: n.Path(), Target: len(n.Kids)}
	}
	switch o.Kind {
	case "set":
		if n.Parent == nil {
			return Effect{}
		}
		return set(n)
	case "setkey":
		if n.Parent == nil || o.Key == "" || n.Parent.Kind != KObj || n.Parent.Child(o.Key) != nil {
			return Effect{}
		}
		return Effect{OK: true, Kind: "setkey", E: splice(doc, n.KS, n.KE, o.Key), Cont: n.Parent.Path(), Target: -1}
	case "store":
		if n.Kind != KObj {
			return Effect{}
		}
		if c := n.Child(o.Key); c != nil {
			return set(c)
		}
		return addkv(n)
	case "addkv":
		// the raw form accepts an empty key; whether it should is not judged
		if n.Kind != KObj || n.Child(o.Key) != nil || o.Key == "" && o.Type != "raw" {
			return Effect{}
		}
		return addkv(n)
	case "add":
		if n.Kind != KArr {
			return Effect{}
		}
		pre := ","
		if len(n.Kids) == 0 {
			pre = ""
		}
		return Effect{OK: true, Kind: "add", E: splice(doc, n.End-1, n.End-1, pre+val), Cont: n.Path(), Target: len(n.Kids)}
	case "insert":
		if n.Kind != KArr || o.Index < 0 || o.Index >= len(n.Kids) {
			return Effect{}
		}
		s := n.Kids[o.Index].Start
		return Effect{OK: true, Kind: "insert", E: splice(doc, s, s, val+","), Cont: n.Path(), Target: o.Index}
	case "delete":
		if n.Parent == nil {
			return Effect{}
		}
		st := func(x *Node) int {
			if x.Parent.Kind == KObj {
				return x.KS - 1
			}
			return x.Start
		}
		p := n.Parent
		var e []byte
		switch {
		case n.Pos+1 < len(p.Kids):
			e = splice(doc, st(n), st(p.Kids[n.Pos+1]), "")
		case n.Pos > 0:
			e = splice(doc, p.Kids[n.Pos-1].End, n.End, "")
		default:
			e = splice(doc, st(n), n.End, "")
		}
		return Effect{OK: true, Kind: "delete", E: e, Cont: p.Path(), Target: -1}
	}
	panic("HARNESS: kind " + o.Kind)
}

// valueOK says whether node n of doc represents what the operation wrote.
func (o *Op) valueOK(doc []byte, n *Node) bool {
	txt := string(n.Text(doc))
	switch o.Type {
	case "raw":
		if o.Raw == nil {
			return string(n.Raw(doc)) == "null"
		}
		return bytes.Equal(n.Raw(doc), trimWS(o.Raw))
	case "string":
		return stringOK(n, txt, o.S)
	case "int", "int32", "int64":
		return intTextOK(n, txt, big.NewInt(o.I))
	case "uint", "uint32", "uint64":
		return intTextOK(n, txt, new(big.Int).SetUint64(o.U))
	case "float":
		return floatTextOK(n, txt, o.F)
	case "bool":
		return n.Kind == KTrue && o.B || n.Kind == KFalse && !o.B
	}
	return true
}

// stringOK: text s written as a plain string is represented by node n.
func stringOK(n *Node, txt, s string) bool {
	if IsJSONNumber(s) || s == "true" || s == "false" || s == "null" {
		return !n.Container() && txt == s
	}
	return n.Kind == KStr && txt == s
}

func intTextOK(n *Node, txt string, want *big.Int) bool {
	if n.Kind != KNum {
		return false
	}
	got, ok := new(big.Int).SetString(txt, 10)
	return ok && got.Cmp(want) == 0
}

func floatTextOK(n *Node, txt string, want float64) bool {
	if n.Kind != KNum {
		return false
	}
	f, err := strconv.ParseFloat(txt, 64)
	return err == nil && f == want && (want != 0 || math.Signbit(f) == math.Signbit(want))
}

// sameTree compares the expected and the obtained document: containers on the
// path member by member, everything else by its raw text.
func sameTree(ed, ad []byte, e, a *Node, path []string, target int, ok func(doc []byte, n *Node) bool) string {
	for {
		if e.Kind != a.Kind {
			return "a container changed its kind"
		}
		if len(e.Kids) != len(a.Kids) {
			return "a container has " + strconv.Itoa(len(a.Kids)) + " items, want " + strconv.Itoa(len(e.Kids))
		}
		var nextE, nextA *Node
		for i, ek := range e.Kids {
			ak := a.Kids[i]
			if ek.Key != ak.Key {
				return "key " + strconv.Quote(clip(ak.Key)) + " where " + strconv.Quote(clip(ek.Key)) + " belongs"
			}
			if len(path) > 0 && ek.Step() == path[0] {
				nextE, nextA = ek, ak
				continue
			}
			if len(path) == 0 && i == target {
				if !ok(ad, ak) {
					return "the written value reads " + strconv.Quote(clip(ak.Raw(ad)))
				}
				continue
			}
			if !bytes.Equal(ek.Raw(ed), ak.Raw(ad)) {
				return "another value changed from " + strconv.Quote(clip(ek.Raw(ed))) + " to " + strconv.Quote(clip(ak.Raw(ad)))
			}
		}
		if len(path) == 0 {
			return ""
		}
		if nextE == nil {
			return "HARNESS path"
		}
		e, a, path = nextE, nextA, path[1:]
	}
}

// checkEffect compares a result with the reference effect; "" when it agrees.
func (o *Op) checkEffect(before, after []byte, eff Effect) string {
	if eff.Kind == "set" {
		tail := before[eff.L:]
		if len(after) < eff.S+len(tail) || !bytes.Equal(after[:eff.S], before[:eff.S]) || !bytes.Equal(after[len(after)-len(tail):], tail) {
			return "bytes outside the replaced value changed"
		}
		n, err := RefParse(after[eff.S : len(after)-len(tail)])
		if err != nil {
			return "the new value is not well-formed: " + strconv.Quote(clip(after[eff.S:len(after)-len(tail)]))
		}
		if o.Type == "raw" && o.Raw != nil && !bytes.Equal(after[eff.S:len(after)-len(tail)], o.Raw) {
			return "the value reads " + strconv.Quote(clip(after[eff.S:len(after)-len(tail)]))
		}
		if !o.valueOK(after[eff.S:len(after)-len(tail)], n) {
			return "the written value reads " + strconv.Quote(clip(after[eff.S:len(after)-len(tail)]))
		}
	}
	if eff.Kind == "setkey" && !bytes.Equal(after, eff.E) {
		return "bytes other than the key changed"
	}
	ar, err := RefParse(after)
	if err != nil {
		return "the result is not well-formed"
	}
	if eff.Kind == "set" || eff.Kind == "setkey" {
		return ""
	}
	er, err := RefParse(eff.E)
	if err != nil {
		panic("HARNESS: expected text not well-formed: " + clip(eff.E))
	}
	return sameTree(eff.E, after, er, ar, eff.Cont, eff.Target, o.valueOK)
}

// ---- generation ----

func (g *G) rawValue(max int) []byte {
	if g.p(6) {
		// white space around a value is part of its text
		out := append([]byte(pick(g.r, wsSets)), g.rawValue(max)...)
		return append(out, pick(g.r, wsSets)...)
	}
	if g.p(30) {
		return []byte(g.scalar().Text)
	}
	save := g.ws
	if g.p(50) {
		g.ws = g.n(6)
		if g.ws == 4 {
			g.ws = 2
		}
	}
	v := g.Value(max)
	out := g.render(nil, v, 0)
	g.ws = save
	return out
}

// plainString is string content that is not already written as a string, array or object.
func (g *G) plainString() string {
	for {
		s := g.content()
		if g.p(25) {
			s = pick(g.r, lookalike)
		}
		if g.p(10) {
			s = pick(g.r, numEdge)
		}
		if g.p(4) {
			s = g.filler(g.bigSize(5000))
		}
		if !IsStringContent(s) {
			continue
		}
		if len(s) > 0 && (s[0] == '[' && s[len(s)-1] == ']' || s[0] == '{' && s[len(s)-1] == '}') {
			continue
		}
		return s
	}
}

var intEdges = []int64{0, 1, -1, 9, 10, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, -(1 << 31), -(1<<31 + 1), 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1e18, -1e18, 999999999999999999}

func (g *G) int64v() int64 {
	switch g.n(4) {
	case 0:
		return pick(g.r, intEdges)
	case 1:
		return int64(g.r.Uint64()) >> g.n(64)
	case 2:
		if len(dict.Big) > 0 {
			return pick(g.r, dict.Big)*int64(1-2*g.n(2)) + int64(g.n(3)) - 1
		}
	}
	return int64(g.n(2000) - 1000)
}

var floatEdges = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 0.1, 1.5, 3, 10, 100, 1e6, 1e15, 1e16, 1e20, 1e21, 1e22, 1e23, 1e100, 1e300, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 1e-5, 1e-6, 1e-7, 1e-10, 1e-300, 1 << 53, 1<<53 + 2, 123456789.123456789, 0.30000000000000004, 5e-324, 2147483648, 4294967296, 9.007199254740993e15, math.Pi, math.E}

func (g *G) float() float64 {
	switch g.n(5) {
	case 0:
		return pick(g.r, floatEdges)
	case 1:
		for {
			f := math.Float64frombits(g.r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	case 2:
		return float64(g.int64v())
	case 3:
		return math.Trunc(g.r.NormFloat64()*1e4) / 100
	}
	return g.r.NormFloat64()
}

func (g *G) fill(o *Op) {
	switch o.Type {
	case "raw":
		o.Raw = g.rawValue(8)
		if o.Kind == "addkv" && g.p(3) {
			o.Raw = nil
		}
	case "string":
		o.S = g.plainString()
	case "int", "int64":
		o.I = g.int64v()
	case "int32":
		o.I = int64(int32(g.int64v()))
	case "uint", "uint64":
		o.U = uint64(g.int64v())
	case "uint32":
		o.U = uint64(uint32(g.int64v()))
	case "float":
		o.F = g.float()
	case "bool":
		o.B = g.p(50)
	}
}

// derived is a value that differs little from an old one.
func (g *G) derived(old []byte) []byte {
	out := append([]byte(nil), old...)
	for times := 1 + g.n(2); times > 0; times-- {
		root, err := RefParse(out)
		if err != nil {
			panic("HARNESS: derived from " + clip(old))
		}
		if !root.Container() {
			s, e := root.Start, root.End
			switch {
			case root.Kind == KStr && g.p(50):
				out = splice(out, e-1, e-1, pick(g.r, []string{"x", " ", ",", "}", `\"`, `\\`, string(out[s+1 : e-1])}))
			case root.Kind == KStr:
				out = splice(out, s+1, s+1, pick(g.r, []string{"x", " ", "{", `\"`}))
			case root.Kind == KNum && IsJSONNumber(string(out[s:e])+"0"):
				out = splice(out, e, e, "0")
			default:
				out = splice(out, s, e, pick(g.r, []string{"true", "null", "0", `""`}))
			}
			continue
		}
		all := root.All()
		n := pick(g.r, all)
		if n == root && len(root.Kids) > 0 {
			n = pick(g.r, []*Node{root.Kids[0], root.Kids[len(root.Kids)-1], pick(g.r, root.Kids)})
		}
		o := &Op{Kind: "delete", Type: "raw"}
		switch g.n(5) {
		case 0: // twice
			if n.Parent != nil && n.Parent.Kind == KArr {
				o = &Op{Kind: "insert", Type: "raw", Index: n.Pos, Raw: n.Raw(out)}
				n = n.Parent
			}
		case 1: // another scalar
			if n.Parent != nil && !n.Container() {
				o = &Op{Kind: "set", Type: "raw", Raw: []byte(g.scalar().Text)}
			}
		case 2: // two neighbours change places
			if n.Parent != nil && n.Pos > 0 && n.Parent.Kind == KArr {
				m := n.Parent.Kids[n.Pos-1]
				s := string(n.Raw(out)) + string(out[m.End:n.Start]) + string(m.Raw(out))
				out = splice(out, m.Start, n.End, s)
				continue
			}
		}
		if eff := o.Ref(out, root, n.Path()); eff.OK {
			out = eff.E
		}
	}
	return out
}

// freshKey is non-empty valid key content, near the names already used.
func (g *G) freshKey(near *Node) string {
	for try := 0; ; try++ {
		k := g.key()
		if near != nil && len(near.Kids) > 0 && near.Kind == KObj && g.p(40) {
			b := pick(g.r, near.Kids).Key
			switch g.n(4) {
			case 0:
				k = b + "x"
			case 1:
				k = b + b
			case 2:
				k = "_" + b
			case 3:
				if len(b) > 1 {
					k = b[:len(b)-1]
				}
			}
		}
		if g.p(3) {
			k = g.filler(g.bigSize(1500))
		}
		if k != "" && IsStringContent(k) {
			return k
		}
	}
}

// randOp makes an operation of a kind; wrong is the percentage of operations
// that must be refused.
func (t *T) randOp(g *G, kind string, doc []byte, root *Node, all []*Node, types []string, wrong int) (*Op, bool) {
	o := &Op{Kind: kind, Type: pick(t.R, types)}
	g.fill(o)
	n := pick(t.R, all)
	refuse := g.p(wrong)
	byKind := func(want ...Kind) *Node {
		for try := 0; try < 30; try++ {
			x := pick(t.R, all)
			for _, k := range want {
				if x.Kind == k {
					return x
				}
			}
		}
		return nil
	}
	switch kind {
	case "set", "delete":
		if n == root && !refuse {
			if len(root.Kids) == 0 {
				return nil, false
			}
			n = pick(t.R, root.Kids)
		}
		o.Path = n.Path()
	case "setkey":
		for try := 0; try < 30 && (n.Parent == nil || n.Parent.Kind != KObj); try++ {
			n = pick(t.R, all)
		}
		if n.Parent == nil || n.Parent.Kind != KObj && !refuse {
			return nil, false
		}
		o.Path = n.Path()
		o.Key = g.freshKey(n.Parent)
		if n.Parent.Kind == KObj && g.p(25) {
			if x := pick(t.R, all); x.Key != "" {
				o.Key = x.Key
			}
		}
		if refuse && g.p(60) {
			o.Key = pick(t.R, n.Parent.Kids).Key
		}
		if refuse && g.p(15) {
			o.Key = ""
		}
		if o.Key == "" && !refuse {
			o.Key = "q"
		}
	case "store", "addkv":
		if x := byKind(KObj); x != nil {
			n = x
		}
		if refuse && g.p(40) {
			n = pick(t.R, all)
		}
		if n.Kind != KObj && !refuse {
			return nil, false
		}
		o.Path = n.Path()
		o.Key = g.freshKey(n)
		if len(n.Kids) > 0 && n.Kind == KObj && (refuse && g.p(70) || kind == "store" && g.p(50)) {
			o.Key = pick(t.R, n.Kids).Key
		} else if g.p(30) {
			if x := pick(t.R, all); x.Key != "" {
				o.Key = x.Key
			}
		}
		if n.Kind == KArr && kind == "store" {
			// storing under an index is not specified
			o.Key = "k"
		}
		if o.Key == "" {
			o.Key = "q"
			if n.Child("q") != nil {
				return nil, false
			}
		}
		if kind == "addkv" && refuse && o.Type != "raw" && g.p(15) {
			o.Key = ""
		}
	case "add":
		if x := byKind(KArr); x != nil {
			n = x
		}
		if refuse && g.p(60) {
			n = pick(t.R, all)
		}
		o.Path = n.Path()
	case "insert":
		if x := byKind(KArr); x != nil {
			n = x
		}
		if refuse && g.p(40) {
			n = pick(t.R, all)
		}
		o.Path = n.Path()
		if len(n.Kids) > 0 {
			o.Index = t.R.IntN(len(n.Kids))
			switch g.n(4) {
			case 0:
				o.Index = 0
			case 1:
				o.Index = len(n.Kids) - 1
			}
		}
		if refuse && g.p(70) {
			o.Index = pick(t.R, []int{-1, -2, len(n.Kids), len(n.Kids) + 1, len(n.Kids) + 7, -len(n.Kids) - 1, math.MaxInt64, math.MinInt64})
		}
	}
	if o.Type == "raw" && o.Raw != nil && (kind == "set" || kind == "store") && g.p(12) {
		old := n
		if kind == "store" && n.Kind == KObj {
			old = n.Child(o.Key)
		}
		if old != nil && old.End-old.Start < 9000 {
			o.Raw = g.derived(old.Raw(doc))
			t.Events["values near the old one"]++
		}
	}
	if refuse && g.p(25) { // a path that does not exist
		if m, ok := t.missing(doc, root, n, all); ok {
			o.Path = m.path
		}
	}
	return o, true
}
