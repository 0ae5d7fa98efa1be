package main

// Monitor of robustness: C19. The oracle is the panic handler and the
// watchdogs of the shard (CPU, blocked, heap) plus a meter of what each call
// allocates; the verdict of a call is that it returned.

import (
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"

	"github.com/ecoshub/jin"
)

// H is what the calls of a case draw their arguments from.
type H struct {
	t    *T
	g    *G
	doc  []byte
	path []string
	val  []byte
	key  string
	idx  int
	keys []string

	short bool
}

func (h *H) cb() func() (bool, error) {
	n := 1 << 30
	if h.g.p(30) {
		n = h.g.n(4)
	}
	e := error(nil)
	if h.g.p(50) {
		e = errors.New("stop")
	}
	i := 0
	return func() (bool, error) {
		i++
		if i > n {
			return e != nil && i%2 == 0, e
		}
		return true, nil
	}
}

type call struct {
	name string
	deep bool // cost grows with the square of the depth
	f    func(h *H)
}

var calls []call

func reg(name string, f func(h *H))     { calls = append(calls, call{name, false, f}) }
func regDeep(name string, f func(h *H)) { calls = append(calls, call{name, true, f}) }

func init() {
	reg("Get", func(h *H) { jin.Get(h.doc, h.path...) })
	reg("GetString", func(h *H) { jin.GetString(h.doc, h.path...) })
	reg("GetInt", func(h *H) { jin.GetInt(h.doc, h.path...) })
	reg("GetFloat", func(h *H) { jin.GetFloat(h.doc, h.path...) })
	reg("GetBool", func(h *H) { jin.GetBool(h.doc, h.path...) })
	reg("GetStringArray", func(h *H) { jin.GetStringArray(h.doc, h.path...) })
	reg("GetIntArray", func(h *H) { jin.GetIntArray(h.doc, h.path...) })
	reg("GetFloatArray", func(h *H) { jin.GetFloatArray(h.doc, h.path...) })
	reg("GetBoolArray", func(h *H) { jin.GetBoolArray(h.doc, h.path...) })
	reg("GetKeys", func(h *H) { jin.GetKeys(h.doc, h.path...) })
	reg("GetValues", func(h *H) { jin.GetValues(h.doc, h.path...) })
	reg("GetKeysValues", func(h *H) { jin.GetKeysValues(h.doc, h.path...) })
	reg("GetMap", func(h *H) { jin.GetMap(h.doc, h.path...) })
	reg("GetAll", func(h *H) { jin.GetAll(h.doc, h.keys, h.path...) })
	reg("GetAllMap", func(h *H) { jin.GetAllMap(h.doc, h.keys, h.path...) })
	reg("Length", func(h *H) { jin.Length(h.doc, h.path...) })
	reg("IsObject", func(h *H) { jin.IsObject(h.doc, h.path...) })
	reg("IsArray", func(h *H) { jin.IsArray(h.doc, h.path...) })
	reg("IsValue", func(h *H) { jin.IsValue(h.doc, h.path...) })
	reg("IsEmpty", func(h *H) { jin.IsEmpty(h.doc, h.path...) })
	reg("GetType", func(h *H) { jin.GetType(h.doc, h.path...) })
	reg("IterateArray", func(h *H) {
		cb := h.cb()
		nest := h.g.p(20) && len(h.doc) < 2000
		jin.IterateArray(h.doc, func(v []byte) (bool, error) {
			if nest {
				jin.GetKeys(v)
				jin.IterateArray(v, func(w []byte) (bool, error) { jin.Get(w, h.path...); return true, nil })
			}
			return cb()
		}, h.path...)
	})
	reg("IterateKeyValue", func(h *H) {
		cb := h.cb()
		nest := h.g.p(20) && len(h.doc) < 2000
		jin.IterateKeyValue(h.doc, func(k, v []byte) (bool, error) {
			if nest {
				jin.GetMap(v)
				jin.Set(v, k, h.path...)
			}
			return cb()
		}, h.path...)
	})
	regDeep("Walk", func(h *H) {
		cb := h.cb()
		nest := h.g.p(20) && len(h.doc) < 500
		jin.Walk(h.doc, func(k string, v []byte, p []string) (bool, error) {
			if nest {
				jin.Get(h.doc, p...)
				jin.Set(h.doc, v, p...)
			}
			return cb()
		})
	})
	reg("Flatten", func(h *H) { jin.Flatten(h.doc) })
	regDeep("Indent", func(h *H) { jin.Indent(h.doc) })
	reg("ParseArray", func(h *H) { jin.ParseArray(string(h.doc)) })
	reg("Set", func(h *H) { jin.Set(h.doc, h.val, h.path...) })
	reg("SetString", func(h *H) { jin.SetString(h.doc, string(h.val), h.path...) })
	reg("SetInt", func(h *H) { jin.SetInt(h.doc, h.idx, h.path...) })
	reg("SetFloat", func(h *H) { jin.SetFloat(h.doc, h.g.anyFloat(), h.path...) })
	reg("SetBool", func(h *H) { jin.SetBool(h.doc, true, h.path...) })
	reg("SetKey", func(h *H) { jin.SetKey(h.doc, h.key, h.path...) })
	reg("Store", func(h *H) { jin.Store(h.doc, h.key, h.val, h.path...) })
	reg("StoreString", func(h *H) { jin.StoreString(h.doc, h.key, string(h.val), h.path...) })
	reg("StoreInt", func(h *H) { jin.StoreInt(h.doc, h.key, h.idx, h.path...) })
	reg("StoreFloat", func(h *H) { jin.StoreFloat(h.doc, h.key, h.g.anyFloat(), h.path...) })
	reg("StoreBool", func(h *H) { jin.StoreBool(h.doc, h.key, false, h.path...) })
	reg("AddKeyValue", func(h *H) { jin.AddKeyValue(h.doc, h.key, h.val, h.path...) })
	reg("AddKeyValueString", func(h *H) { jin.AddKeyValueString(h.doc, h.key, string(h.val), h.path...) })
	reg("AddKeyValueInt", func(h *H) { jin.AddKeyValueInt(h.doc, h.key, h.idx, h.path...) })
	reg("AddKeyValueInt32", func(h *H) { jin.AddKeyValueInt32(h.doc, h.key, int32(h.idx), h.path...) })
	reg("AddKeyValueInt64", func(h *H) { jin.AddKeyValueInt64(h.doc, h.key, int64(h.idx), h.path...) })
	reg("AddKeyValueUint", func(h *H) { jin.AddKeyValueUint(h.doc, h.key, uint(h.idx), h.path...) })
	reg("AddKeyValueUint32", func(h *H) { jin.AddKeyValueUint32(h.doc, h.key, uint32(h.idx), h.path...) })
	reg("AddKeyValueUint64", func(h *H) { jin.AddKeyValueUint64(h.doc, h.key, uint64(h.idx), h.path...) })
	reg("AddKeyValueFloat", func(h *H) { jin.AddKeyValueFloat(h.doc, h.key, h.g.anyFloat(), h.path...) })
	reg("AddKeyValueBool", func(h *H) { jin.AddKeyValueBool(h.doc, h.key, true, h.path...) })
	reg("Add", func(h *H) { jin.Add(h.doc, h.val, h.path...) })
	reg("AddString", func(h *H) { jin.AddString(h.doc, string(h.val), h.path...) })
	reg("AddInt", func(h *H) { jin.AddInt(h.doc, h.idx, h.path...) })
	reg("AddInt32", func(h *H) { jin.AddInt32(h.doc, int32(h.idx), h.path...) })
	reg("AddInt64", func(h *H) { jin.AddInt64(h.doc, int64(h.idx), h.path...) })
	reg("AddUint", func(h *H) { jin.AddUint(h.doc, uint(h.idx), h.path...) })
	reg("AddUint32", func(h *H) { jin.AddUint32(h.doc, uint32(h.idx), h.path...) })
	reg("AddUint64", func(h *H) { jin.AddUint64(h.doc, uint64(h.idx), h.path...) })
	reg("AddFloat", func(h *H) { jin.AddFloat(h.doc, h.g.anyFloat(), h.path...) })
	reg("AddBool", func(h *H) { jin.AddBool(h.doc, true, h.path...) })
	reg("Insert", func(h *H) { jin.Insert(h.doc, h.idx, h.val, h.path...) })
	reg("InsertString", func(h *H) { jin.InsertString(h.doc, h.idx, string(h.val), h.path...) })
	reg("InsertInt", func(h *H) { jin.InsertInt(h.doc, h.idx, h.idx, h.path...) })
	reg("InsertInt32", func(h *H) { jin.InsertInt32(h.doc, h.idx, int32(h.idx), h.path...) })
	reg("InsertInt64", func(h *H) { jin.InsertInt64(h.doc, h.idx, int64(h.idx), h.path...) })
	reg("InsertUint", func(h *H) { jin.InsertUint(h.doc, h.idx, uint(h.idx), h.path...) })
	reg("InsertUint32", func(h *H) { jin.InsertUint32(h.doc, h.idx, uint32(h.idx), h.path...) })
	reg("InsertUint64", func(h *H) { jin.InsertUint64(h.doc, h.idx, uint64(h.idx), h.path...) })
	reg("InsertFloat", func(h *H) { jin.InsertFloat(h.doc, h.idx, h.g.anyFloat(), h.path...) })
	reg("InsertBool", func(h *H) { jin.InsertBool(h.doc, h.idx, false, h.path...) })
	reg("Delete", func(h *H) { jin.Delete(h.doc, h.path...) })
	reg("Scheme.Check", func(h *H) { jin.MakeScheme(h.keys...).Check(h.doc) })
	reg("Scheme.CheckAbs", func(h *H) { jin.MakeScheme(h.keys...).CheckAbs(h.doc) })
	reg("Scheme.MutateJson", func(h *H) { jin.MakeScheme(h.keys...).MutateJson(h.doc) })
	reg("Scheme.MutateJsonAbs", func(h *H) { jin.MakeScheme(h.keys...).MutateJsonAbs(h.doc) })
	reg("Scheme", func(h *H) {
		s := jin.MakeScheme(h.keys...)
		for i := h.g.n(8); i > 0; i-- {
			switch h.g.n(8) {
			case 0:
				s.Add(h.key)
			case 1:
				s.Remove(h.key)
			case 2:
				if len(h.keys) > 0 {
					s.Remove(pick(h.t.R, h.keys))
				}
			case 3:
				s.Save()
			case 4:
				s.Restore()
			case 5:
				s.GetOriginalKeys()
			case 6:
				s.GetCurrentKeys()
			case 7:
				s.MakeJson(h.anyValues()...)
				s.MakeJsonString(h.strs()...)
				s.MutateJson(h.doc)
			}
		}
	})
	reg("MakeArray", func(h *H) { jin.MakeArray(h.anyValues()...) })
	reg("MakeArrayString", func(h *H) { jin.MakeArrayString(h.strs()) })
	reg("MakeArrayInt", func(h *H) { jin.MakeArrayInt([]int{h.idx, math.MinInt64, math.MaxInt64}[:h.g.n(4)]) })
	reg("MakeArrayBool", func(h *H) { jin.MakeArrayBool([]bool{true, false}[:h.g.n(3)]) })
	reg("MakeArrayFloat", func(h *H) { jin.MakeArrayFloat([]float64{h.g.anyFloat(), math.NaN(), math.Inf(1)}[:h.g.n(4)]) })
	reg("MakeArrayBytes", func(h *H) { jin.MakeArrayBytes([][]byte{h.val, nil, h.doc, {}}[:h.g.n(5)]...) })
	reg("MakeJson", func(h *H) { jin.MakeJson(h.keys, h.anyValues()) })
	reg("MakeJsonString", func(h *H) { jin.MakeJsonString(h.keys, h.strs()) })
	reg("MakeJsonWithMap", func(h *H) {
		m := map[string]string{}
		for _, k := range h.keys {
			m[k] = string(h.val)
		}
		if len(m) == 0 && h.g.p(50) {
			m = nil
		}
		jin.MakeJsonWithMap(m)
	})
	reg("MakeEmpty", func(h *H) { jin.MakeEmptyArray(); jin.MakeEmptyJson() })
	reg("ErrEqual", func(h *H) {
		_, err := jin.Get(h.doc, h.path...)
		for c := -1; c < 40; c++ {
			jin.ErrEqual(err, c)
		}
		jin.ErrEqual(nil, h.idx)
		jin.ErrEqual(errors.New(string(h.val)), h.idx)
		if err != nil {
			_ = err.Error()
		}
	})
	reg("ReadFile", func(h *H) {
		if h.g.n(10) > 0 {
			return
		}
		f := filepath.Join(scratch, "hostile")
		if err := os.WriteFile(f, h.doc, 0o600); err != nil {
			panic("HARNESS: " + err.Error())
		}
		for _, name := range []string{f, scratch, f + "/x", filepath.Join(scratch, "absent"), ""} {
			if j, err := jin.ReadFile(name); err == nil {
				j.Get(h.path...)
			}
			if j, err := jin.ReadJSONFile(name); err == nil {
				_ = j.String()
			}
		}
	})
	regDeep("JO", func(h *H) {
		jo := jin.New(h.doc)
		if h.g.p(5) {
			jo = jin.NewJSON()
		}
		h.history(jo, nil)
	})
	regDeep("Parser", func(h *H) {
		ps, err := jin.Parse(h.doc)
		if err != nil || ps == nil {
			h.t.Events["Parse refused"]++
			return
		}
		h.t.Events["Parse accepted"]++
		h.history(ps, ps)
	})
	regDeep("Parse", func(h *H) { jin.Parse(h.doc) })
}

func (g *G) anyFloat() float64 {
	if g.p(30) {
		return pick(g.r, []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Copysign(0, -1)})
	}
	return g.float()
}

type oddStruct struct {
	A int
	b *int
}

func (h *H) anyValues() []interface{} {
	var nilp *int
	var nili error
	pool := []interface{}{nil, nilp, nili, 1, "x", string(h.val), h.val, []byte(nil), []string(nil), h.keys, []int{}, []int{1}, []float64{math.NaN()}, []bool{},
		math.NaN(), math.Inf(-1), float32(1.5), true, struct{}{}, oddStruct{}, &oddStruct{}, []interface{}{nil, 1, "a"}, map[string]int{"a": 1}, map[string]interface{}(nil),
		[2]int{1, 2}, complex(1, 2), int8(-1), uint8(200), uintptr(7), 'r', errors.New("e"), [][]int{{1}, nil}, [][]byte{h.val}, h.doc, h.idx, uint64(math.MaxUint64), func() {}, make(chan int)}
	n := h.g.n(6)
	if h.g.p(60) {
		n = len(h.keys)
	}
	out := make([]interface{}, n)
	for i := range out {
		out[i] = pick(h.t.R, pool)
	}
	if n == 0 && h.g.p(30) {
		return nil
	}
	return out
}

func (h *H) strs() []string {
	n := h.g.n(5)
	if h.g.p(60) {
		n = len(h.keys)
	}
	out := make([]string, n)
	for i := range out {
		switch h.g.n(4) {
		case 0:
			out[i] = string(h.val)
		case 1:
			out[i] = h.key
		case 2:
			out[i] = pick(h.t.R, hostileVals)
		}
	}
	return out
}

var hostileVals = []string{"", " ", "\"", "\\", "\\\"", "\"\"", "{", "}", "[", "]", "{}", "[]", "{[", "]}", ",", ":", ",,", "1,2", "\"a", "a\"", "\"a\":1", "\"a\",\"b\"", "[1", "1]", "{\"a\":", "{\"a\"}", "{\"a\":1,}", "[,]", "[[[", "]]]", "{:}", "{\":\"", "\x00", "\xff\xfe", "nul", "null", "true", "1", "-", "+", ".", "1e", "  1  ", "\n", "\t[ ]", "\"\\\"", "\"\\\\\"", "[1,2,3]", "{\"a\":{\"b\":[1,{\"c\":\"d\"}]}}", "[\"]", "{\"}", "\u2028", "'", "NaN", "0x1", "007", "\"[\"", "[ ", " ]", "{ ", " }", "{\"\":\"\"}", "[\"\",\"\"]", "//", "/*", "9999999999999999999999999", "1e999"}

var hostilePaths = []string{"", "0", "1", "2", "a", "b", "-1", "-0", "00", "01", "+1", "1.0", "9223372036854775807", "9223372036854775808", "18446744073709551616", "-9223372036854775808", "99999999999999999999999999", "1e3", " 0", "0 ", "\"", "\\", "\\\"", ":", ",", "{", "}", "[", "]", "\x00", "\xff", "a\":", "\"a\"", "é"}

func (g *G) noise(n int) []byte {
	b := make([]byte, n)
	const structural = `{}[]":,\ 0a1-t`
	for i := range b {
		if g.p(85) {
			b[i] = structural[g.n(len(structural))]
		} else {
			b[i] = byte(g.n(256))
		}
	}
	return b
}

func (g *G) hostileVal() []byte {
	switch g.n(10) {
	case 0, 1, 2:
		return []byte(pick(g.r, hostileVals))
	case 3:
		return g.noise(g.n(12))
	case 4:
		return nil
	case 5, 6, 7:
		return g.damage(g.text(g.Value(6)), nil)
	case 8:
		return []byte(g.text(g.Value(8)))
	}
	return []byte(g.plainString())
}

// damage makes arbitrary bytes of a document: cut, flipped, doubled, spliced.
func (g *G) damage(b []byte, other []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + g.n(3); k > 0; k-- {
		at := 0
		if len(b) > 0 {
			at = g.n(len(b))
			if g.p(60) { // near something structural
				for try := 0; try < 20 && strings.IndexByte(`{}[]":,\`, b[at]) < 0; try++ {
					at = g.n(len(b))
				}
			}
		}
		switch g.n(14) {
		case 0, 1:
			b = b[:at]
		case 2:
			b = b[at:]
		case 3:
			if len(b) > 0 {
				b[at] ^= 1 << g.n(8)
			}
		case 4, 5:
			if len(b) > 0 {
				b = append(b[:at:at], b[at+1:]...)
			}
		case 6, 7:
			ins := g.noise(1 + g.n(3))
			b = append(append(b[:at:at], ins...), b[at:]...)
		case 8:
			if len(b) > 0 {
				b[at] = `{}[]":,\ `[g.n(9)]
			}
		case 9:
			e := at + g.n(len(b)-at+1)
			b = append(append(b[:e:e], b[at:e]...), b[e:]...)
		case 10:
			e := at + g.n(len(b)-at+1)
			b = append(b[:at:at], b[e:]...)
		case 11:
			if len(other) > 0 {
				b = append(b[:at:at], other[g.n(len(other)):]...)
			}
		case 12:
			b = append(b, []byte(pick(g.r, hostileVals))...)
		case 13:
			b = append([]byte(pick(g.r, hostileVals)), b...)
		}
	}
	return b
}

// args draws the arguments of the next call.
func (h *H) args(steps [][]string, keys []string) {
	g := h.g
	switch g.n(8) {
	case 0:
		h.path = nil
	case 1:
		h.path = nil
		for i := g.n(4); i > 0; i-- {
			h.path = append(h.path, pick(g.r, hostilePaths))
		}
	default:
		h.path = nil
		if len(steps) > 0 {
			h.path = append(h.path, pick(g.r, steps)...)
		}
		if len(h.path) > 0 {
			switch g.n(6) {
			case 0:
				h.path[g.n(len(h.path))] = pick(g.r, hostilePaths)
			case 1:
				h.path = h.path[:g.n(len(h.path)+1)]
			case 2:
				h.path = append(h.path, pick(g.r, hostilePaths))
			case 3:
				h.path = append(h.path, h.path...)
			}
		} else if g.p(70) {
			h.path = append(h.path, pick(g.r, hostilePaths))
		}
	}
	h.path = h.path[:len(h.path):len(h.path)]
	if len(h.path) == 0 && g.p(50) {
		h.path = nil
	}
	h.val = g.hostileVal()
	if h.val != nil {
		h.val = append(make([]byte, 0, len(h.val)), h.val...)
	}
	switch g.n(4) {
	case 0:
		h.key = pick(g.r, hostilePaths)
	case 1:
		h.key = string(h.val)
	case 2:
		h.key = g.key()
	default:
		if len(keys) > 0 {
			h.key = pick(g.r, keys)
		}
	}
	h.idx = pick(g.r, []int{0, 0, 1, 1, 2, 3, -1, -2, 7, 100, math.MaxInt64, math.MinInt64, math.MaxInt32, -100})
	h.keys = nil
	for i := g.n(5); i > 0; i-- {
		if len(keys) > 0 && g.p(60) {
			h.keys = append(h.keys, pick(g.r, keys))
		} else {
			h.keys = append(h.keys, pick(g.r, hostilePaths))
		}
	}
	if h.g.p(5) && h.keys == nil {
		h.keys = []string{}
	}
}

// history runs a sequence of edits and reads on an object or a parsed form.
func (h *H) history(e editor, ps *jin.Parser) {
	jo, _ := e.(*jin.JO)
	kinds := []string{"set", "set", "setkey", "addkv", "add", "insert", "delete"}
	if jo != nil {
		kinds = append(kinds, "store")
	}
	steps, keys := h.t.steps, h.t.keys
	name := "Parser."
	if jo != nil {
		name = "JO."
	}
	n := 1 + h.g.n(10)
	if len(h.doc) > 3000 {
		n = 2
	}
	log := []string{}
	for i := 0; i < n; i++ {
		h.args(steps, keys)
		if h.g.p(70) {
			o := &Op{Kind: pick(h.t.R, kinds), Path: h.path, Raw: h.val, S: string(h.val), Key: h.key, Index: h.idx, I: int64(h.idx), F: h.g.anyFloat(), B: h.g.p(50)}
			switch o.Kind {
			case "setkey", "delete":
			default:
				o.Type = pick(h.t.R, smallTypes)
			}
			log = append(log, fmt.Sprintf("%s path=%q %s", o.Name(), o.Path, o.Arg()))
			h.t.Op(name+o.Name(), h.doc, h.path, strings.Join(log, "; "))
			if o.On(e, o.Path) == nil {
				h.t.Events["hostile edits accepted"]++
				log[len(log)-1] += " (ok)"
			}
			h.t.EvalAs([]byte(name+o.Name()), h.doc)
			continue
		}
		which := h.g.n(24)
		h.t.Op(name+"read"+strconv.Itoa(which), h.doc, h.path, strings.Join(log, "; "))
		h.t.EvalAs([]byte(name), h.doc)
		if jo != nil {
			switch which {
			case 0:
				jo.Get(h.path...)
			case 1:
				jo.GetString(h.path...)
			case 2:
				jo.GetInt(h.path...)
			case 3:
				jo.GetFloat(h.path...)
			case 4:
				jo.GetBool(h.path...)
			case 5:
				jo.GetStringArray(h.path...)
			case 6:
				jo.GetIntArray(h.path...)
			case 7:
				jo.GetFloatArray(h.path...)
			case 8:
				jo.GetBoolArray(h.path...)
			case 9:
				jo.GetType(h.path...)
			case 10:
				jo.GetKeys(h.path...)
			case 11:
				jo.GetValues(h.path...)
			case 12:
				jo.GetKeysValues(h.path...)
			case 13:
				jo.GetMap(h.path...)
			case 14:
				jo.GetAll(h.keys, h.path...)
			case 15:
				jo.GetAllMap(h.keys, h.path...)
			case 16:
				jo.IsObject(h.path...)
			case 17:
				jo.IsArray(h.path...)
			case 18:
				jo.IsValue(h.path...)
			case 19:
				jo.IsEmpty(h.path...)
			case 20:
				jo.IterateArray(func([]byte) (bool, error) { return true, nil }, h.path...)
			case 21:
				jo.IterateKeyValue(func(_, _ []byte) (bool, error) { return true, nil }, h.path...)
			case 22:
				jo.Walk(func(string, []byte, []string) (bool, error) { return true, nil })
			case 23:
				_ = jo.String()
				jo.JSON()
			}
			continue
		}
		switch which % 13 {
		case 0, 1, 2:
			ps.Get(h.path...)
		case 3:
			ps.GetString(h.path...)
		case 4:
			ps.GetInt(h.path...)
		case 5:
			ps.GetFloat(h.path...)
		case 6:
			ps.GetBool(h.path...)
		case 7:
			ps.GetStringArray(h.path...)
		case 8:
			ps.GetIntArray(h.path...)
		case 9:
			ps.GetFloatArray(h.path...)
		case 10:
			ps.GetBoolArray(h.path...)
		case 11:
			ps.GetNew(h.path...)
		case 12:
			ps.JSON()
			ps.Tree()
			ps.TreeFull()
		}
	}
}

const shortAlphabet = "{}[]\":,\\ a01-t\n\xff"

var shortMax = map[string]int{"quick": 4, "thorough": 5}

func shortCount(max int) int {
	n, p := 0, 1
	for l := 0; l <= max; l++ {
		n += p
		p *= len(shortAlphabet)
	}
	return n
}

func shortString(k int) []byte {
	p := 1
	for l := 0; ; l++ {
		if k < p {
			b := make([]byte, l)
			for i := range b {
				b[i] = shortAlphabet[k%len(shortAlphabet)]
				k /= len(shortAlphabet)
			}
			return b
		}
		k -= p
		p *= len(shortAlphabet)
	}
}

// doCall runs one entry of the table under the monitor.
func (h *H) doCall(c call) {
	h.t.Op(c.name, h.doc, h.path, h.argText())
	c.f(h)
	if h.short {
		h.t.EvalAs(h.doc)
	} else {
		h.t.EvalAs([]byte(c.name), h.doc)
	}
}

type lazyArg struct {
	val  []byte
	key  string
	idx  int
	keys []string
}

func (a lazyArg) String() string {
	return fmt.Sprintf("value=%q key=%q index=%d keys=%q", clip(a.val), clip(a.key), a.idx, a.keys)
}

func (h *H) argText() lazyArg { return lazyArg{h.val, h.key, h.idx, h.keys} }

func maxDepth(b []byte) int {
	d, m := 0, 0
	for _, c := range b {
		switch c {
		case '{', '[':
			d++
			if d > m {
				m = d
			}
		case '}', ']':
			d--
		}
	}
	return m
}

var shortPaths = [][]string{nil, {}, {"a"}, {"0"}, {"1"}, {""}, {"a", "0"}, {"0", "a"}, {"0", "0"}, {"a", "a", "a"}, {"-1"}, {"\""}, {"\\"}, {"t"}, {" "}}

func caseC19(t *T, i int) {
	g := newG(t.R)
	g.style()
	g.ws %= 4
	h := &H{t: t, g: g}
	t.steps, t.keys = nil, nil
	ns := shortCount(shortMax[t.Tier])
	perCase := 8
	nsCases := (ns + perCase - 1) / perCase
	total := checks["C19"].total(t.Tier)
	if *fCases > 0 {
		total = *fCases
	}
	_ = total
	if i < nsCases {
		// every short string, with every call
		t.Feat("cases over all short strings")
		h.short = true
		for k := i * perCase; k < (i+1)*perCase && k < ns; k++ {
			b := shortString(k)
			t.Events["short strings"]++
			t.steps = shortPaths
			t.keys = []string{"a", "0", "t"}
			h.args(t.steps, t.keys)
			for ci, c := range calls {
				if ci%16 == 15 {
					h.args(t.steps, t.keys)
				}
				h.doc = append(make([]byte, 0, len(b)), b...)
				if len(b) <= 3 {
					for _, p := range shortPaths {
						h.path = p
						h.doCall(c)
					}
				} else {
					for q := 0; q < 3; q++ {
						h.path = pick(t.R, shortPaths)
						h.doCall(c)
					}
				}
			}
		}
		return
	}
	j := i - nsCases
	if j < veryDeepCases {
		t.veryDeepCase(h, j)
		return
	}
	j -= veryDeepCases
	if j < len(bigList) {
		t.bigCase(h, j)
		return
	}
	// damaged documents
	v := g.Root(60)
	doc := g.text(v)
	root, err := RefParse(doc)
	if err != nil {
		panic("HARNESS: " + string(doc))
	}
	for _, n := range t.Nodes(root, 12) {
		t.steps = append(t.steps, n.Path())
		if n.Key != "" {
			t.keys = append(t.keys, n.Key)
		}
	}
	other := g.text(g.Value(10))
	reps := 8
	if len(doc) > 2000 {
		reps = 3
	}
	for r := 0; r < reps; r++ {
		var b []byte
		switch g.n(12) {
		case 0:
			b = doc // well-formed with hostile arguments
			t.Feat("well-formed document, hostile arguments")
		case 1:
			b = g.noise(g.n(40))
			t.Feat("noise")
		case 2:
			b = doc[:g.n(len(doc)+1)]
			t.Feat("truncated")
		case 3:
			b = []byte(pick(t.R, hostileVals) + pick(t.R, hostileVals) + pick(t.R, hostileVals))
			t.Feat("pieces")
		case 4:
			b = append([]byte(pick(t.R, []string{" ", "\n\n", "\t \r", "     "})), g.damage(doc, other)...)
			t.Feat("damaged")
		default:
			b = g.damage(doc, other)
			t.Feat("damaged")
		}
		depth := maxDepth(b)
		t.Feat("input length " + bucket(len(b)))
		k := 14
		for ; k > 0; k-- {
			c := calls[g.n(len(calls))]
			if g.p(12) {
				c = calls[len(calls)-2-g.n(2)]
			}
			if c.deep && depth > 1000 {
				continue
			}
			h.args(t.steps, t.keys)
			h.doc = append(make([]byte, 0, len(b)), b...)
			h.doCall(c)
		}
	}
}

// ---- big inputs: time and memory in proportion ----

type bigDoc struct {
	name string
	make func(n int) []byte
	deep bool
}

var bigDocs = []bigDoc{
	{"zeros array", func(n int) []byte { return []byte("[" + strings.Repeat("0,", n/2) + "0]") }, false},
	{"unclosed array", func(n int) []byte { return []byte("[" + strings.Repeat("0,", n/2)) }, false},
	{"commas", func(n int) []byte { return []byte(strings.Repeat(",", n)) }, false},
	{"colons", func(n int) []byte { n = min(n, 3000); return []byte("{" + strings.Repeat(":", n)) }, false},
	{"quotes", func(n int) []byte { return []byte(strings.Repeat(`"`, n)) }, false},
	{"backslashes", func(n int) []byte { return []byte(`{"a":"` + strings.Repeat(`\`, n)) }, false},
	{"backslashes closed", func(n int) []byte { return []byte(`{"a":"` + strings.Repeat(`\\`, n/2) + `","b":1}`) }, false},
	{"escaped quotes", func(n int) []byte { return []byte(`{"a":"` + strings.Repeat(`\"`, n/2) + `","b":1}`) }, false},
	{"blanks", func(n int) []byte { return []byte(strings.Repeat(" ", n)) }, false},
	{"blanks in array", func(n int) []byte { return []byte("[" + strings.Repeat(" ", n) + "]") }, false},
	{"object of members", func(n int) []byte {
		var b strings.Builder
		b.WriteString("{")
		for i := 0; b.Len() < n; i++ {
			fmt.Fprintf(&b, `"k%d":"v%d",`, i, i)
		}
		b.WriteString(`"z":0}`)
		return []byte(b.String())
	}, false},
	{"objects without commas", func(n int) []byte { return []byte(strings.Repeat(`{"a":1}`, n/7)) }, false},
	{"array of empties", func(n int) []byte { return []byte("[" + strings.Repeat("{},[],", n/6) + "0]") }, false},
	{"one long string", func(n int) []byte { return []byte(`"` + strings.Repeat("x", n) + `"`) }, false},
	{"one long number", func(n int) []byte { return []byte(`[` + strings.Repeat("9", n) + `]`) }, false},
	{"long key", func(n int) []byte { return []byte(`{"` + strings.Repeat("k", n) + `":1}`) }, false},
	{"same key", func(n int) []byte { return []byte("{" + strings.Repeat(`"a":1,`, n/6) + `"a":2}`) }, false},
	{"zero bytes", func(n int) []byte { return make([]byte, n) }, false},
	{"open brackets", func(n int) []byte { return []byte(strings.Repeat("[", n)) }, true},
	{"close brackets", func(n int) []byte { return []byte(strings.Repeat("]", n)) }, true},
	{"balanced brackets", func(n int) []byte { return []byte(strings.Repeat("[", n/2) + strings.Repeat("]", n/2)) }, true},
	{"nested objects", func(n int) []byte { return []byte(strings.Repeat(`{"a":`, n/6) + "1" + strings.Repeat("}", n/6)) }, true},
	{"nested mixed open", func(n int) []byte { return []byte(strings.Repeat(`{"a":[`, n/6)) }, true},
	{"mismatched", func(n int) []byte { return []byte(strings.Repeat("[}", n/2)) }, true},
	{"mismatched 2", func(n int) []byte { return []byte(strings.Repeat("{]", n/2)) }, true},
}

var bigSizes = []int{1000, 6000, 20000}

var bigList = func() (l [][2]int) {
	for d := range bigDocs {
		for s := range bigSizes {
			l = append(l, [2]int{d, s})
		}
	}
	return
}()

// what one call may allocate: a share that grows with the input and a constant
const (
	allocPerByte = 3000
	allocConst   = 1 << 20
	// nested input: a path or an indent per level is quadratic in the depth by nature
	allocPerLevel2 = 300
	// nesting at which only the calls that keep a per level record are tried
	veryDeep      = 70000
	veryDeepCases = 4
)

// veryDeepCase nests deeper than any fixed or squared growth of a record per level survives.
func (t *T) veryDeepCase(h *H, j int) {
	s := []string{
		strings.Repeat("[", veryDeep) + strings.Repeat("]", veryDeep),
		strings.Repeat(`{"a":`, veryDeep) + "1" + strings.Repeat("}", veryDeep),
		strings.Repeat("[", veryDeep),
		strings.Repeat(`[{"a":`, veryDeep/2),
	}[j]
	t.Feat("very deep inputs")
	for _, c := range []struct {
		name string
		f    func(b []byte)
	}{
		{"Parse", func(b []byte) { jin.Parse(b) }},
		{"Flatten", func(b []byte) { jin.Flatten(b) }},
		{"Get", func(b []byte) { jin.Get(b, "0", "0"); jin.Get(b, "a", "a") }},
		{"GetType", func(b []byte) { jin.GetType(b) }},
		{"Length", func(b []byte) { jin.Length(b); jin.Length(b, "0"); jin.Length(b, "a") }},
		{"IsEmpty", func(b []byte) { jin.IsEmpty(b); jin.IsObject(b, "0"); jin.IsArray(b, "a"); jin.IsValue(b) }},
		{"GetString", func(b []byte) { jin.GetString(b, "0"); jin.GetInt(b, "a"); jin.GetBool(b); jin.GetFloat(b) }},
		{"GetStringArray", func(b []byte) {
			jin.GetStringArray(b)
			jin.GetIntArray(b, "0")
			jin.GetFloatArray(b, "a")
			jin.GetBoolArray(b)
		}},
		{"ParseArray", func(b []byte) { jin.ParseArray(string(b)) }},
		{"GetKeys", func(b []byte) { jin.GetKeys(b); jin.GetKeys(b, "a") }},
		{"GetValues", func(b []byte) { jin.GetValues(b); jin.GetValues(b, "a") }},
		{"GetKeysValues", func(b []byte) { jin.GetKeysValues(b); jin.GetKeysValues(b, "a") }},
		{"GetMap", func(b []byte) { jin.GetMap(b); jin.GetMap(b, "a") }},
		{"GetAll", func(b []byte) { jin.GetAll(b, []string{"a", "b"}); jin.GetAllMap(b, []string{"a", "b"}) }},
		{"IterateArray", func(b []byte) {
			jin.IterateArray(b, func(v []byte) (bool, error) { return true, nil })
			jin.IterateArray(b, func(v []byte) (bool, error) { return true, nil }, "0")
			jin.IterateArray(append(append([]byte("[1,"), b...), ",2]"...), func(v []byte) (bool, error) { return true, nil })
		}},
		{"IterateKeyValue", func(b []byte) {
			jin.IterateKeyValue(b, func(k, v []byte) (bool, error) { return true, nil })
			jin.IterateKeyValue(b, func(k, v []byte) (bool, error) { return true, nil }, "a")
		}},
		{"Set", func(b []byte) { jin.Set(b, []byte("1"), "0"); jin.Set(b, []byte("1"), "a") }},
		{"Set deep value", func(b []byte) { jin.Set([]byte(`{"a":[1]}`), b, "a", "0") }},
		{"SetKey", func(b []byte) { jin.SetKey(b, "q", "a"); jin.SetKey(b, "q", "a", "a") }},
		{"Store", func(b []byte) { jin.Store(b, "a", []byte("1")); jin.Store(b, "q", []byte("1"), "a") }},
		{"AddKeyValue", func(b []byte) { jin.AddKeyValue(b, "q", []byte("1")); jin.AddKeyValue(b, "a", []byte("1"), "a") }},
		{"Add", func(b []byte) { jin.Add(b, []byte("1")); jin.Add(b, []byte("1"), "0") }},
		{"Add deep value", func(b []byte) { jin.Add([]byte(`[1,2]`), b); jin.AddKeyValue([]byte(`{"z":1}`), "k", b) }},
		{"Insert", func(b []byte) {
			jin.Insert(b, 0, []byte("1"))
			jin.Insert(b, 1, []byte("1"))
			jin.Insert(b, 0, []byte("1"), "0")
		}},
		{"Delete", func(b []byte) { jin.Delete(b, "0"); jin.Delete(b, "a"); jin.Delete(b, "0", "0") }},
		{"MutateJson", func(b []byte) { jin.MakeScheme("a", "b").MutateJson(b); jin.MakeScheme("a").CheckAbs(b) }},
		{"MakeJson", func(b []byte) { jin.MakeScheme("a").MakeJson(string(b)) }},
		{"MakeArray", func(b []byte) { jin.MakeArray(string(b), 1); jin.MakeArrayString([]string{string(b)}) }},
	} {
		b := []byte(s)
		t.Op(c.name, b, nil, "nesting "+strconv.Itoa(veryDeep))
		c.f(b)
		t.Eval(true)
		t.Events["very deep calls"]++
	}
}

func (t *T) bigCase(h *H, j int) {
	d := bigDocs[bigList[j][0]]
	n := bigSizes[bigList[j][1]]
	if d.deep {
		n = []int{200, 1000, 4000}[bigList[j][1]]
	}
	b := d.make(n)
	t.steps = [][]string{nil, {"a"}, {"0"}, {"z"}, {strconv.Itoa(n / 4)}, {"0", "0"}, {"k5"}}
	t.keys = []string{"a", "k5", "z", "0"}
	deepPath := []string{}
	for i := 0; i < 100; i++ {
		deepPath = append(deepPath, "0")
	}
	t.steps = append(t.steps, deepPath)
	t.Feat("big inputs")
	var m0, m1 runtime.MemStats
	for _, c := range calls {
		if c.name == "Parser" && n > 10000 {
			continue
		}
		for q := 0; q < 3; q++ {
			h.args(t.steps, t.keys)
			h.doc = append(make([]byte, 0, len(b)), b...)
			runtime.ReadMemStats(&m0)
			t.Op(c.name, h.doc, h.path, h.argText())
			c.f(h)
			t.Eval(true)
			runtime.ReadMemStats(&m1)
			t.Events["allocation measured"]++
			al := m1.TotalAlloc - m0.TotalAlloc
			if c.name != "JO" && c.name != "Parser" {
				limit := uint64(len(b))*allocPerByte + allocConst
				if d.deep {
					limit += uint64(n) * uint64(n) * allocPerLevel2
				}
				if al > limit {
					t.Soft("C19 memory "+c.name, "the call allocated %d bytes for an input of %d bytes (%s)", al, len(b), d.name)
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C19", Quick: 200000, Deep: 4000000, Case: caseC19,
		MinEvents: map[string]int64{"short strings": 60000, "hostile edits accepted": 10000, "Parse accepted": 1000, "allocation measured": 5000},
		Rule:      "(1) every string of up to 4 (thorough: 5) characters over {}[]\":,\\ a01-t newline 0xff, as document of every call of the table (about 95 entries: every exported function, document objects, parsed forms, schemes, builders, files) with short paths and hostile values; (2) 25 shapes of big inputs (runs of one character, unclosed, mismatched, deeply nested, many members) up to 20000 bytes with what each call allocates metered against 3000 bytes per input byte (25 times the worst seen); (3) generated documents truncated, cut, flipped, doubled, spliced, prefixed, plus noise, with real, damaged and hostile paths, keys, values, indexes and key lists, and histories of up to 10 hostile edits and reads on a document object or parsed form, the results of edits being the next inputs. A panic, a call using 40 s CPU, blocking or 2 GB heap is a violation. Distinct: call and input (for the short strings: input; counted up to 1000000 per shard)."})
}
