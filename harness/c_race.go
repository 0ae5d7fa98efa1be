package main

// Monitor of concurrent use: C20. Built with the race detector. Goroutines run
// calls on shared inputs without synchronising between calls (no atomics, no
// locks, no fmt in them), so that the detector's happens-before relation is as
// thin as the schedule; afterwards every call is run alone on fresh copies and
// the results compared, for many calls also with the reference.

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/ecoshub/jin"
)

// Env is everything the goroutines share.
type Env struct {
	docs  [][]byte
	paths [][]string
	keys  [][]string
	vals  [][]byte
	strs  []string
	lists [][]string
	anys  [][]interface{}
	ints  []int
	flts  []float64
	bools []bool
	sch   []*jin.Scheme
	ps    []*jin.Parser
	jo    []*jin.JO
	files []string
}

// proto is what an Env is made from, again and again, always the same.
type proto struct {
	docs  [][]byte
	roots []*Node
	long  [][]string // paths; all of their prefixes share their memory
	spare []int
	cut   [][2]int // paths of the Env: prefix [1] of long path [0]
	keys  [][]string
	vals  [][]byte
	lists [][]string
	anys  [][]interface{}
	ints  []int
	flts  []float64
	bools []bool
	files []string // the documents as files, or nil
}

func (p *proto) env() *Env {
	e := &Env{ints: append([]int(nil), p.ints...), flts: append([]float64(nil), p.flts...), bools: append([]bool(nil), p.bools...), files: append([]string(nil), p.files...)}
	for i, d := range p.docs {
		b := append(make([]byte, 0, len(d)+(i%3)*32), d...)
		e.docs = append(e.docs, b)
		e.jo = append(e.jo, jin.New(b))
		ps, err := jin.Parse(b)
		if err != nil {
			ps = nil
		}
		e.ps = append(e.ps, ps)
	}
	full := make([][]string, len(p.long))
	for i, l := range p.long {
		m := make([]string, len(l), len(l)+p.spare[i])
		for k, s := range l {
			m[k] = strings.Clone(s)
		}
		full[i] = m
	}
	for _, c := range p.cut {
		e.paths = append(e.paths, full[c[0]][:c[1]])
	}
	for i, k := range p.keys {
		m := append(make([]string, 0, len(k)+i%4), k...)
		e.keys = append(e.keys, m)
		e.sch = append(e.sch, jin.MakeScheme(append([]string(nil), k...)...))
	}
	for i, v := range p.vals {
		m := append(make([]byte, 0, len(v)+(i%2)*16), v...)
		e.vals = append(e.vals, m)
		e.strs = append(e.strs, string(v))
	}
	for i, l := range p.lists {
		e.lists = append(e.lists, append(make([]string, 0, len(l)+i%3), l...))
		e.anys = append(e.anys, append(make([]interface{}, 0, len(l)+i%3), p.anys[i]...))
	}
	return e
}

// R20 is the result of a call: live keeps the returned memory, snap is a copy
// made right after the call.
type R20 struct {
	live [][]byte
	snap []byte
	err  error
}

func (r *R20) b(b []byte) {
	r.live = append(r.live, b)
	r.snap = append(append(r.snap, b...), 0xfe)
}

func (r *R20) s(s string) {
	r.b(unsafe.Slice(unsafe.StringData(s), len(s)))
}

func (r *R20) ss(x []string) {
	for _, s := range x {
		r.s(s)
	}
	r.snap = append(r.snap, 0xfd)
}

func (r *R20) m(x map[string]string) {
	ks := make([]string, 0, len(x))
	for k := range x {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.s(k)
		r.s(x[k])
	}
	r.snap = append(r.snap, 0xfc)
}

func (r *R20) e(err error) { r.err = err }

func (r *R20) snapNow() []byte {
	var out []byte
	for _, l := range r.live {
		out = append(append(out, l...), 0xfe)
	}
	return out
}

func strip(b []byte) []byte {
	return bytes.ReplaceAll(bytes.ReplaceAll(b, []byte{0xfd}, nil), []byte{0xfc}, nil)
}

// task is one call with its arguments given as places in an Env.
type task struct {
	name string
	d, p int
	arg  string
	run  func(e *Env, r *R20)
	want func(r *R20) string // reference, where there is one
}

var errStop20 = errors.New("stop of the callback")

// oddIndex tells whether a step reads as a number that is not written the usual way.
func oddIndex(path []string) bool {
	for _, s := range path {
		if v, err := strconv.Atoi(s); err == nil && strconv.Itoa(v) != s {
			return true
		}
	}
	return false
}

// readKinds is the number of reads makeTask chooses from (known after its first call).
var readKinds = 1

// makeTask makes a random task; with force >= 0 the read of that number, beyond
// the last one an edit.
func (t *T) makeTask(g *G, pr *proto, all [][]*Node, force int) task {
	d := g.n(len(pr.docs))
	p := g.n(len(pr.cut))
	k := g.n(len(pr.keys))
	v := g.n(len(pr.vals))
	l := g.n(len(pr.lists))
	c := pr.cut[p]
	path := pr.long[c[0]][:c[1]]
	node := pr.roots[d].Resolve(path)
	doc := pr.docs[d]
	tk := task{d: d, p: p}
	stop := g.n(6)
	callback := func(r *R20, yield bool) func(a, b []byte, pp []string) (bool, error) {
		n := 0
		return func(a, b []byte, pp []string) (bool, error) {
			r.b(a)
			r.b(b)
			r.ss(pp)
			n++
			if yield {
				runtime.Gosched()
			}
			if stop < 3 && n > stop+2 {
				if stop == 1 {
					return true, errStop20
				}
				return false, nil
			}
			return true, nil
		}
	}
	type rd struct {
		name string
		f    func(e *Env, r *R20)
	}
	reads := []rd{
		{"Get", func(e *Env, r *R20) { x, err := jin.Get(e.docs[d], e.paths[p]...); r.b(x); r.e(err) }},
		{"GetString", func(e *Env, r *R20) { x, err := jin.GetString(e.docs[d], e.paths[p]...); r.s(x); r.e(err) }},
		{"GetInt", func(e *Env, r *R20) { x, err := jin.GetInt(e.docs[d], e.paths[p]...); r.s(strconv.Itoa(x)); r.e(err) }},
		{"GetFloat", func(e *Env, r *R20) {
			x, err := jin.GetFloat(e.docs[d], e.paths[p]...)
			r.s(strconv.FormatFloat(x, 'g', -1, 64))
			r.e(err)
		}},
		{"GetBool", func(e *Env, r *R20) {
			x, err := jin.GetBool(e.docs[d], e.paths[p]...)
			r.s(strconv.FormatBool(x))
			r.e(err)
		}},
		{"GetStringArray", func(e *Env, r *R20) { x, err := jin.GetStringArray(e.docs[d], e.paths[p]...); r.ss(x); r.e(err) }},
		{"GetIntArray", func(e *Env, r *R20) {
			x, err := jin.GetIntArray(e.docs[d], e.paths[p]...)
			for _, i := range x {
				r.s(strconv.Itoa(i))
			}
			r.e(err)
		}},
		{"GetFloatArray", func(e *Env, r *R20) {
			x, err := jin.GetFloatArray(e.docs[d], e.paths[p]...)
			for _, i := range x {
				r.s(strconv.FormatFloat(i, 'g', -1, 64))
			}
			r.e(err)
		}},
		{"GetBoolArray", func(e *Env, r *R20) {
			x, err := jin.GetBoolArray(e.docs[d], e.paths[p]...)
			for _, i := range x {
				r.s(strconv.FormatBool(i))
			}
			r.e(err)
		}},
		{"GetKeys", func(e *Env, r *R20) { x, err := jin.GetKeys(e.docs[d], e.paths[p]...); r.ss(x); r.e(err) }},
		{"GetValues", func(e *Env, r *R20) { x, err := jin.GetValues(e.docs[d], e.paths[p]...); r.ss(x); r.e(err) }},
		{"GetKeysValues", func(e *Env, r *R20) {
			x, y, err := jin.GetKeysValues(e.docs[d], e.paths[p]...)
			r.ss(x)
			r.ss(y)
			r.e(err)
		}},
		{"GetMap", func(e *Env, r *R20) { x, err := jin.GetMap(e.docs[d], e.paths[p]...); r.m(x); r.e(err) }},
		{"GetAll", func(e *Env, r *R20) { x, err := jin.GetAll(e.docs[d], e.keys[k], e.paths[p]...); r.ss(x); r.e(err) }},
		{"GetAllMap", func(e *Env, r *R20) { x, err := jin.GetAllMap(e.docs[d], e.keys[k], e.paths[p]...); r.m(x); r.e(err) }},
		{"Length", func(e *Env, r *R20) { x, err := jin.Length(e.docs[d], e.paths[p]...); r.s(strconv.Itoa(x)); r.e(err) }},
		{"IsObject", func(e *Env, r *R20) {
			x, err := jin.IsObject(e.docs[d], e.paths[p]...)
			r.s(strconv.FormatBool(x))
			r.e(err)
		}},
		{"IsArray", func(e *Env, r *R20) {
			x, err := jin.IsArray(e.docs[d], e.paths[p]...)
			r.s(strconv.FormatBool(x))
			r.e(err)
		}},
		{"IsValue", func(e *Env, r *R20) {
			x, err := jin.IsValue(e.docs[d], e.paths[p]...)
			r.s(strconv.FormatBool(x))
			r.e(err)
		}},
		{"IsEmpty", func(e *Env, r *R20) {
			x, err := jin.IsEmpty(e.docs[d], e.paths[p]...)
			r.s(strconv.FormatBool(x))
			r.e(err)
		}},
		{"GetType", func(e *Env, r *R20) { x, err := jin.GetType(e.docs[d], e.paths[p]...); r.s(x); r.e(err) }},
		{"IterateArray", func(e *Env, r *R20) {
			cb := callback(r, stop == 5)
			r.e(jin.IterateArray(e.docs[d], func(v []byte) (bool, error) { return cb(nil, v, nil) }, e.paths[p]...))
		}},
		{"IterateKeyValue", func(e *Env, r *R20) {
			cb := callback(r, stop == 5)
			r.e(jin.IterateKeyValue(e.docs[d], func(kk, v []byte) (bool, error) { return cb(kk, v, nil) }, e.paths[p]...))
		}},
		{"Walk", func(e *Env, r *R20) {
			cb := callback(r, stop == 5)
			r.e(jin.Walk(e.docs[d], func(kk string, v []byte, pp []string) (bool, error) { return cb([]byte(kk), v, pp) }))
		}},
		{"ParseArray", func(e *Env, r *R20) { r.ss(jin.ParseArray(string(e.docs[d]))) }},
		{"Flatten", func(e *Env, r *R20) { r.b(jin.Flatten(e.docs[d])) }},
		{"Indent", func(e *Env, r *R20) { r.b(jin.Indent(e.docs[d])) }},
		// the same parsed form
		{"Parser.Get", func(e *Env, r *R20) { x, err := e.ps[d].Get(e.paths[p]...); r.b(x); r.e(err) }},
		{"Parser.GetNew", func(e *Env, r *R20) { r.b(e.ps[d].GetNew(e.paths[p]...)) }},
		{"Parser.GetString", func(e *Env, r *R20) { x, err := e.ps[d].GetString(e.paths[p]...); r.s(x); r.e(err) }},
		{"Parser.GetInt", func(e *Env, r *R20) { x, err := e.ps[d].GetInt(e.paths[p]...); r.s(strconv.Itoa(x)); r.e(err) }},
		{"Parser.GetFloat", func(e *Env, r *R20) {
			x, err := e.ps[d].GetFloat(e.paths[p]...)
			r.s(strconv.FormatFloat(x, 'g', -1, 64))
			r.e(err)
		}},
		{"Parser.GetBool", func(e *Env, r *R20) {
			x, err := e.ps[d].GetBool(e.paths[p]...)
			r.s(strconv.FormatBool(x))
			r.e(err)
		}},
		{"Parser.GetStringArray", func(e *Env, r *R20) { x, err := e.ps[d].GetStringArray(e.paths[p]...); r.ss(x); r.e(err) }},
		{"Parser.GetIntArray", func(e *Env, r *R20) {
			x, err := e.ps[d].GetIntArray(e.paths[p]...)
			for _, i := range x {
				r.s(strconv.Itoa(i))
			}
			r.e(err)
		}},
		{"Parser.GetFloatArray", func(e *Env, r *R20) {
			x, err := e.ps[d].GetFloatArray(e.paths[p]...)
			for _, i := range x {
				r.s(strconv.FormatFloat(i, 'g', -1, 64))
			}
			r.e(err)
		}},
		{"Parser.GetBoolArray", func(e *Env, r *R20) {
			x, err := e.ps[d].GetBoolArray(e.paths[p]...)
			for _, i := range x {
				r.s(strconv.FormatBool(i))
			}
			r.e(err)
		}},
		{"Parser.Tree", func(e *Env, r *R20) { r.s(e.ps[d].Tree()) }},
		{"Parser.TreeFull", func(e *Env, r *R20) { r.s(e.ps[d].TreeFull()) }},
		{"Parser.JSON", func(e *Env, r *R20) { r.b(e.ps[d].JSON()) }},
		// the same document object
		{"JO.Get", func(e *Env, r *R20) { x, err := e.jo[d].Get(e.paths[p]...); r.b(x); r.e(err) }},
		{"JO.GetString", func(e *Env, r *R20) { x, err := e.jo[d].GetString(e.paths[p]...); r.s(x); r.e(err) }},
		{"JO.GetInt", func(e *Env, r *R20) { x, err := e.jo[d].GetInt(e.paths[p]...); r.s(strconv.Itoa(x)); r.e(err) }},
		{"JO.GetIntArray", func(e *Env, r *R20) {
			x, err := e.jo[d].GetIntArray(e.paths[p]...)
			for _, i := range x {
				r.s(strconv.Itoa(i))
			}
			r.e(err)
		}},
		{"JO.GetValues", func(e *Env, r *R20) { x, err := e.jo[d].GetValues(e.paths[p]...); r.ss(x); r.e(err) }},
		{"JO.GetKeysValues", func(e *Env, r *R20) {
			x, y, err := e.jo[d].GetKeysValues(e.paths[p]...)
			r.ss(x)
			r.ss(y)
			r.e(err)
		}},
		{"JO.IsObject", func(e *Env, r *R20) {
			x, err := e.jo[d].IsObject(e.paths[p]...)
			r.s(strconv.FormatBool(x))
			y, _ := e.jo[d].IsArray(e.paths[p]...)
			z, _ := e.jo[d].IsValue(e.paths[p]...)
			r.s(strconv.FormatBool(y))
			r.s(strconv.FormatBool(z))
			r.e(err)
		}},
		{"JO.IsEmpty", func(e *Env, r *R20) {
			x, err := e.jo[d].IsEmpty(e.paths[p]...)
			r.s(strconv.FormatBool(x))
			r.e(err)
		}},
		{"JO.IterateArray", func(e *Env, r *R20) {
			cb := callback(r, stop == 5)
			r.e(e.jo[d].IterateArray(func(v []byte) (bool, error) { return cb(nil, v, nil) }, e.paths[p]...))
		}},
		{"JO.GetKeys", func(e *Env, r *R20) { x, err := e.jo[d].GetKeys(e.paths[p]...); r.ss(x); r.e(err) }},
		{"JO.GetMap", func(e *Env, r *R20) { x, err := e.jo[d].GetMap(e.paths[p]...); r.m(x); r.e(err) }},
		{"JO.GetAll", func(e *Env, r *R20) { x, err := e.jo[d].GetAll(e.keys[k], e.paths[p]...); r.ss(x); r.e(err) }},
		{"JO.GetAllMap", func(e *Env, r *R20) { x, err := e.jo[d].GetAllMap(e.keys[k], e.paths[p]...); r.m(x); r.e(err) }},
		{"JO.GetStringArray", func(e *Env, r *R20) { x, err := e.jo[d].GetStringArray(e.paths[p]...); r.ss(x); r.e(err) }},
		{"JO.GetType", func(e *Env, r *R20) { x, err := e.jo[d].GetType(e.paths[p]...); r.s(x); r.e(err) }},
		{"JO.String", func(e *Env, r *R20) { r.s(e.jo[d].String()); r.b(e.jo[d].JSON()) }},
		{"JO.Walk", func(e *Env, r *R20) {
			cb := callback(r, stop == 5)
			r.e(e.jo[d].Walk(func(kk string, v []byte, pp []string) (bool, error) { return cb([]byte(kk), v, pp) }))
		}},
		{"JO.IterateKeyValue", func(e *Env, r *R20) {
			cb := callback(r, stop == 5)
			r.e(e.jo[d].IterateKeyValue(func(kk, v []byte) (bool, error) { return cb(kk, v, nil) }, e.paths[p]...))
		}},
		// the same scheme
		{"Scheme.MakeJson", func(e *Env, r *R20) { r.b(e.sch[k].MakeJson(e.anys[l]...)) }},
		{"Scheme.MakeJsonString", func(e *Env, r *R20) { r.b(e.sch[k].MakeJsonString(e.lists[l]...)) }},
		{"Scheme.Check", func(e *Env, r *R20) { r.s(strconv.FormatBool(e.sch[k].Check(e.docs[d]))) }},
		{"Scheme.CheckAbs", func(e *Env, r *R20) { r.s(strconv.FormatBool(e.sch[k].CheckAbs(e.docs[d]))) }},
		{"Scheme.MutateJson", func(e *Env, r *R20) { x, err := e.sch[k].MutateJson(e.docs[d]); r.b(x); r.e(err) }},
		{"Scheme.MutateJsonAbs", func(e *Env, r *R20) { x, err := e.sch[k].MutateJsonAbs(e.docs[d]); r.b(x); r.e(err) }},
		{"Scheme.keys", func(e *Env, r *R20) { r.ss(e.sch[k].GetCurrentKeys()); r.ss(e.sch[k].GetOriginalKeys()) }},
		// own scheme over the shared key list
		{"own Scheme", func(e *Env, r *R20) {
			s := jin.MakeScheme(e.keys[k]...)
			s.Add("zz")
			if len(e.keys[k]) > 0 {
				s.Remove(e.keys[k][0])
			}
			s.Add("yy")
			r.ss(s.GetCurrentKeys())
			s.Restore()
			s.Add("xx")
			s.Save()
			r.ss(s.GetOriginalKeys())
			r.b(s.MakeJson(e.anys[l]...))
		}},
		// builders over shared lists
		{"MakeArray", func(e *Env, r *R20) { r.b(jin.MakeArray(e.anys[l]...)) }},
		{"MakeArrayString", func(e *Env, r *R20) { r.b(jin.MakeArrayString(e.lists[l])) }},
		{"MakeArrayInt", func(e *Env, r *R20) { r.b(jin.MakeArrayInt(e.ints)) }},
		{"MakeArrayFloat", func(e *Env, r *R20) { r.b(jin.MakeArrayFloat(e.flts)) }},
		{"MakeArrayBool", func(e *Env, r *R20) { r.b(jin.MakeArrayBool(e.bools)) }},
		{"MakeArrayBytes", func(e *Env, r *R20) { r.b(jin.MakeArrayBytes(e.vals...)) }},
		{"MakeJson", func(e *Env, r *R20) { r.b(jin.MakeJson(e.keys[k], e.anys[l])) }},
		{"MakeJsonString", func(e *Env, r *R20) { r.b(jin.MakeJsonString(e.keys[k], e.lists[l])) }},
		{"MakeJsonWithMap", func(e *Env, r *R20) {
			// the order of a map is free: one member
			r.b(jin.MakeJsonWithMap(map[string]string{"k": e.strs[v]}))
		}},
		{"MakeEmpty", func(e *Env, r *R20) {
			a, b := jin.MakeEmptyArray(), jin.MakeEmptyJson()
			r.b(a)
			r.b(b)
			a, err := jin.AddInt(a, 5)
			r.b(a)
			r.e(err)
			b, _ = jin.AddKeyValueInt(b, "a", 5)
			r.b(b)
		}},
		{"NewJSON", func(e *Env, r *R20) {
			j := jin.NewJSON()
			r.e(j.AddKeyValueString("a", e.strs[v]))
			j.AddKeyValue("b", e.vals[v])
			r.b(j.JSON())
		}},
		{"ErrEqual", func(e *Env, r *R20) {
			_, err := jin.Get(e.docs[d], append([]string{"no such"}, e.paths[p]...)...)
			for _, code := range errCodes {
				r.s(strconv.FormatBool(jin.ErrEqual(err, code)))
			}
			r.e(err)
		}},
		{"JO.GetFloat", func(e *Env, r *R20) {
			x, err := e.jo[d].GetFloat(e.paths[p]...)
			r.s(strconv.FormatFloat(x, 'g', -1, 64))
			r.e(err)
		}},
		{"JO.GetFloatArray", func(e *Env, r *R20) {
			x, err := e.jo[d].GetFloatArray(e.paths[p]...)
			for _, i := range x {
				r.s(strconv.FormatFloat(i, 'g', -1, 64))
			}
			r.e(err)
		}},
		{"JO.GetBool", func(e *Env, r *R20) {
			x, err := e.jo[d].GetBool(e.paths[p]...)
			r.s(strconv.FormatBool(x))
			r.e(err)
		}},
		{"JO.GetBoolArray", func(e *Env, r *R20) {
			x, err := e.jo[d].GetBoolArray(e.paths[p]...)
			for _, i := range x {
				r.s(strconv.FormatBool(i))
			}
			r.e(err)
		}},
		{"JO.IsArray", func(e *Env, r *R20) {
			x, err := e.jo[d].IsArray(e.paths[p]...)
			r.s(strconv.FormatBool(x))
			r.e(err)
		}},
		{"JO.IsValue", func(e *Env, r *R20) {
			x, err := e.jo[d].IsValue(e.paths[p]...)
			r.s(strconv.FormatBool(x))
			r.e(err)
		}},
		{"ReadFile", func(e *Env, r *R20) {
			if e.files == nil {
				return
			}
			j, err := jin.ReadFile(e.files[d])
			r.e(err)
			if err == nil {
				r.b(j.JSON())
				x, err := j.Get(e.paths[p]...)
				r.b(x)
				r.e(err)
			}
		}},
		{"ReadJSONFile", func(e *Env, r *R20) {
			if e.files == nil {
				return
			}
			j, err := jin.ReadJSONFile(e.files[d])
			r.e(err)
			if err == nil {
				r.b(j.JSON())
				j.AddKeyValueString("new", e.strs[v])
				r.b(j.JSON())
			}
		}},
		{"Parse", func(e *Env, r *R20) {
			ps, err := jin.Parse(e.docs[d])
			r.e(err)
			if err == nil {
				x, err := ps.Get(e.paths[p]...)
				r.b(x)
				r.e(err)
				r.s(ps.Tree())
			}
		}},
	}
	refText := func(r *R20) string {
		if len(path) == 0 {
			if r.err != nil || !bytes.Equal(r.live[0], doc) {
				return fmt.Sprintf("want the document, got %q %v", clip(r.live[0]), r.err)
			}
			return ""
		}
		if node == nil {
			if r.err == nil && !oddIndex(path) {
				return fmt.Sprintf("answered %q where there is nothing", clip(r.live[0]))
			}
			return ""
		}
		if r.err != nil || !bytes.Equal(r.live[0], node.Text(doc)) {
			return fmt.Sprintf("want %q got %q %v", clip(node.Text(doc)), clip(r.live[0]), r.err)
		}
		return ""
	}
	readKinds = len(reads)
	if force >= 0 && force < len(reads) || force < 0 && g.p(62) {
		x := pick(t.R, reads)
		if pr.files == nil && strings.HasPrefix(x.name, "Read") {
			x = reads[0]
		}
		if force >= 0 {
			x = reads[force]
		}
		if strings.HasPrefix(x.name, "Parser.Tree") && treeCost(doc, pr.roots[d]) > 20000 {
			x = reads[0]
		}
		if len(doc) > 6000 && (strings.HasSuffix(x.name, "Walk") || x.name == "Parse") {
			x = reads[g.n(27)]
			if x.name == "Walk" {
				x = reads[0]
			}
		}
		tk.name, tk.run = x.name, x.f
		switch x.name {
		case "Get", "GetString", "JO.Get", "JO.GetString", "Parser.Get", "Parser.GetString":
			tk.want = refText
		case "Flatten":
			tk.want = func(r *R20) string {
				if !bytes.Equal(r.live[0], RefMinify(doc)) {
					return fmt.Sprintf("got %q", clip(r.live[0]))
				}
				return ""
			}
		case "GetKeys":
			tk.want = func(r *R20) string {
				if node == nil || node.Kind != KObj {
					return ""
				}
				if r.err != nil && len(node.Kids) == 0 {
					return ""
				}
				if r.err != nil || len(r.live) != len(node.Kids) {
					return fmt.Sprintf("%d keys %v, want %d", len(r.live), r.err, len(node.Kids))
				}
				for i, kk := range node.Kids {
					if string(r.live[i]) != kk.Key {
						return fmt.Sprintf("key %d is %q, want %q", i, clip(r.live[i]), clip(kk.Key))
					}
				}
				return ""
			}
		}
		return tk
	}
	// an edit of the shared document in one of the three forms
	kind := pick(t.R, []string{"set", "store", "addkv", "add", "insert", "setkey", "delete"})
	form := pick(t.R, []string{"plain", "plain", "plain", "JO", "Parser"})
	o, ok := t.randOp(g, kind, doc, pr.roots[d], all[d], smallOr(kind), 20)
	if ok && form == "plain" && g.p(50) {
		o.Type = pick(t.R, plainTypes(kind))
		g.fill(o)
	}
	if !ok || !o.has(form) {
		tk.name, tk.run, tk.want = "Get", reads[0].f, refText
		return tk
	}
	tk.arg = o.Name() + " " + fmt.Sprintf("%q ", o.Path) + o.Arg()
	// share the path: one of the Env that is equal, else a new one
	at := -1
	for i, c := range pr.cut {
		q := pr.long[c[0]][:c[1]]
		if len(q) == len(o.Path) && strings.Join(q, "\x00") == strings.Join(o.Path, "\x00") {
			at = i
		}
	}
	if at < 0 {
		at = len(pr.cut)
		pr.long = append(pr.long, append([]string(nil), o.Path...))
		pr.spare = append(pr.spare, g.n(4))
		pr.cut = append(pr.cut, [2]int{len(pr.long) - 1, len(o.Path)})
	}
	tk.p = at
	if o.Raw != nil && o.Type == "raw" {
		// share the value
		pr.vals = append(pr.vals, o.Raw)
		v = len(pr.vals) - 1
	} else {
		v = -1
	}
	eff := o.Ref(doc, pr.roots[d], o.Path)
	tk.name = o.Name()
	if form != "plain" {
		tk.name = form + "." + tk.name
	}
	tk.run = func(e *Env, r *R20) {
		op := *o
		if v >= 0 {
			op.Raw = e.vals[v]
		}
		switch form {
		case "plain":
			x, err := op.Plain(e.docs[d], e.paths[at])
			r.b(x)
			r.e(err)
		case "JO":
			j := jin.New(e.docs[d])
			err := op.On(j, e.paths[at])
			r.b(j.JSON())
			r.e(err)
		case "Parser":
			ps, err := jin.Parse(e.docs[d])
			if err == nil {
				err = op.On(ps, e.paths[at])
				r.b(ps.JSON())
			}
			r.e(err)
		}
	}
	tk.want = func(r *R20) string {
		if len(r.live) == 0 {
			return "no result"
		}
		if !eff.OK {
			if r.err == nil {
				return fmt.Sprintf("an impossible edit was accepted: %q", clip(r.live[0]))
			}
			if !bytes.Equal(r.live[0], doc) {
				return fmt.Sprintf("refused, but the document became %q", clip(r.live[0]))
			}
			return ""
		}
		if r.err != nil {
			return fmt.Sprintf("refused: %v", r.err)
		}
		return o.checkEffect(doc, r.live[0], eff)
	}
	return tk
}

var errCodes = []int{jin.ErrCodeNullPath, jin.ErrCodeEmptyArray, jin.ErrCodeIndexExpected, jin.ErrCodeKeyAlreadyExist, jin.ErrCodeIndexOutOfRange, jin.ErrCodeBadJSON, jin.ErrCodeKeyNotFound, jin.ErrCodeNullKey, jin.ErrCodeObjectExpected, jin.ErrCodeArrayExpected, jin.ErrCodeEmpty}

// bigDoc is larger than the usual documents of C20, up to about 70 kB, with
// values of very different sizes.
func (g *G) bigDoc() *V {
	g.style()
	if g.ws > 2 {
		g.ws = 0
	}
	o := &V{K: KObj}
	o.add("a", g.wideArr(g.bigSize(3000), true))
	o.add("s", vstr(g.filler(g.bigSize(33000))))
	o.add("o", g.wideObj(g.bigSize(600), false))
	b := 20
	o.add("t", g.tree(4, &b))
	strs := varr()
	for i := g.bigSize(600); i > 0; i-- {
		strs.Kids = append(strs.Kids, vstr(pick(g.r, words)))
	}
	o.add("w", strs)
	bools := varr()
	for i := g.bigSize(600); i > 0; i-- {
		bools.Kids = append(bools.Kids, vs(KTrue, "true"))
	}
	o.add("b", bools)
	return o
}

// proto20 makes the shared inputs of a case.
func (t *T) proto20(g *G, i int, big bool) (*proto, [][]*Node) {
	pr := &proto{}
	var all [][]*Node
	nd := 1 + g.n(3)
	if big {
		nd = 1
		t.Feat("big documents")
	}
	for k := 0; k < nd; k++ {
		var doc []byte
		var root *Node
		if k == 1 && g.p(40) {
			doc, root = t.sameLen(pr.docs[0])
		} else {
			doc, root = t.DocG(g, len(ladderList)+i, 60)
		}
		if k == 0 && big {
			doc, root = t.DocOf(g, g.bigDoc())
		} else if len(doc) > 6000 || treeCost(doc, root) > 400000 {
			doc = []byte(`{"a":[1,2,{"b":"c"}],"d":{"e":[],"f":{}}}`)
			root, _ = RefParse(doc)
		}
		pr.docs = append(pr.docs, doc)
		pr.roots = append(pr.roots, root)
		all = append(all, t.Nodes(root, 40))
	}
	for k := 0; k < 5; k++ {
		d := g.n(nd)
		p := pick(t.R, all[d]).Path()
		if g.p(10) {
			if m, ok := t.missing(pr.docs[d], pr.roots[d], pick(t.R, all[d]), all[d]); ok {
				p = m.path
			}
		}
		pr.long = append(pr.long, p)
		pr.spare = append(pr.spare, g.n(4))
		for c := 0; c <= len(p); c++ {
			if c == len(p) || g.p(40) {
				pr.cut = append(pr.cut, [2]int{k, c})
			}
		}
	}
	for k := 0; k < 3; k++ {
		var ks []string
		seen := map[string]bool{}
		add := func(s string) {
			if s != "" && !seen[s] {
				seen[s] = true
				ks = append(ks, s)
			}
		}
		n := pick(t.R, all[g.n(nd)])
		if k == 0 {
			n = pr.roots[0]
		}
		for _, x := range n.Kids {
			if g.p(70) && len(ks) < 12 {
				add(x.Key)
			}
		}
		for q := g.n(4); q > 0; q-- {
			add(pick(t.R, words))
		}
		pr.keys = append(pr.keys, ks)
		var l []string
		var a []interface{}
		for range ks {
			w := g.builtString()
			l = append(l, w.arg.(string))
			a = append(a, g.builtAny().arg)
		}
		pr.lists = append(pr.lists, l)
		pr.anys = append(pr.anys, a)
	}
	for k := 0; k < 4; k++ {
		pr.vals = append(pr.vals, g.rawValue(6))
		pr.ints = append(pr.ints, int(g.int64v()))
		pr.flts = append(pr.flts, g.float())
		pr.bools = append(pr.bools, g.p(50))
	}
	for k := g.size(400); k > 4; k-- {
		pr.ints = append(pr.ints, int(g.int64v()))
		pr.flts = append(pr.flts, g.float())
		pr.bools = append(pr.bools, g.p(50))
	}
	if g.p(8) { // a long list for the builders
		n := g.size(200)
		var ks, l []string
		var a []interface{}
		for q := 0; q < n; q++ {
			ks = append(ks, "k"+strconv.Itoa(q))
			l = append(l, g.builtString().arg.(string))
			a = append(a, g.builtAny().arg)
		}
		pr.keys[2], pr.lists[2], pr.anys[2] = ks, l, a
	}
	return pr, all
}

func (pr *proto) writeFiles(dir string) {
	for k, d := range pr.docs {
		f := filepath.Join(dir, fmt.Sprintf("c20.%d.json", k))
		if err := os.WriteFile(f, d, 0o600); err != nil {
			panic("HARNESS: " + err.Error())
		}
		pr.files = append(pr.files, f)
	}
}

func caseC20(t *T, i int) {
	g := newG(t.R)
	big := g.p(6)
	pr, all := t.proto20(g, i, big)
	if i%32 == 5 {
		t.Feat("documents also in files")
		pr.writeFiles(scratch)
	}
	var tasks []task
	nt := 10 + g.n(20)
	if g.p(25) {
		nt = 2 + g.n(3) // few calls, many times each
	}
	for k := 0; k < nt; k++ {
		tasks = append(tasks, t.makeTask(g, pr, all, -1))
	}
	workers := 2 + g.n(7)
	per := 12 + g.n(20)
	if big {
		per = 4 + g.n(5)
	}
	plan := make([][]int, workers)
	spin := make([][]int, workers)
	for w := range plan {
		for k := 0; k < per; k++ {
			plan[w] = append(plan[w], g.n(nt))
			s := 0
			if g.p(20) {
				s = g.n(2000)
			}
			spin[w] = append(spin[w], s)
		}
		if g.p(40) && w > 0 { // the same calls at about the same time
			copy(plan[w], plan[0])
		}
	}
	type span struct{ a, b int64 }
	res := make([][]R20, workers)
	spans := make([][]span, workers)
	for w := range res {
		res[w] = make([]R20, per)
		spans[w] = make([]span, per)
	}
	env := pr.env()
	t.Op("concurrent calls", pr.docs[0], nil, fmt.Sprint(workers, " goroutines"))
	start := make(chan struct{})
	done := make(chan string, workers)
	for w := 0; w < workers; w++ {
		go func(w int) {
			msg := ""
			k := 0
			defer func() {
				if r := recover(); r != nil {
					buf := make([]byte, 8192)
					msg = fmt.Sprintf("%s %s: panic: %v\n%s", tasks[plan[w][k]].name, tasks[plan[w][k]].arg, r, buf[:runtime.Stack(buf, false)])
				}
				done <- msg
			}()
			<-start
			sink := 0
			for k = 0; k < per; k++ {
				for s := spin[w][k]; s > 0; s-- {
					sink += s
				}
				a := time.Now().UnixNano()
				tasks[plan[w][k]].run(env, &res[w][k])
				spans[w][k] = span{a, time.Now().UnixNano()}
			}
			_ = sink
		}(w)
	}
	close(start)
	for w := 0; w < workers; w++ {
		if m := <-done; m != "" {
			if strings.Contains(m, "HARNESS") || !panicInJin(m) {
				panic("HARNESS: " + m)
			}
			t.Soft("panic:concurrent", "%s", trimStack(m)+"\n"+clip(m))
		}
	}
	// alone, on fresh copies
	base := make([]*R20, nt)
	for k := range tasks {
		e := pr.env()
		r := &R20{}
		t.Op(tasks[k].name, pr.docs[tasks[k].d], pr.long[pr.cut[tasks[k].p][0]][:pr.cut[tasks[k].p][1]], tasks[k].arg)
		tasks[k].run(e, r)
		base[k] = r
	}
	for w := range res {
		for k := range res[w] {
			r, tk := &res[w][k], tasks[plan[w][k]]
			b := base[plan[w][k]]
			t.opName, t.opDoc, t.opPath, t.opArg = tk.name, pr.docs[tk.d], pr.long[pr.cut[tk.p][0]][:pr.cut[tk.p][1]], tk.arg
			t.Events["concurrent "+tk.name]++
			t.Events["concurrent calls compared"]++
			t.Eval(true, []byte{byte(tk.d)})
			es, bs := "", ""
			if r.err != nil {
				es = r.err.Error()
			}
			if b.err != nil {
				bs = b.err.Error()
			}
			if !bytes.Equal(r.snap, b.snap) || es != bs {
				t.Soft("C20 "+tk.name, "with %d goroutines: %q %v, alone: %q %v", workers, clip(r.snap), es, clip(b.snap), bs)
			}
			// what was returned must not have changed since
			now := r.snapNow()
			was := r.snap
			if !bytes.Equal(strip(now), strip(was)) {
				t.Soft("C20 retained "+tk.name, "the result changed from %q to %q", clip(was), clip(now))
			}
			if tk.want != nil {
				if why := tk.want(r); why != "" {
					t.Soft("C20 reference "+tk.name, "%s", why)
				}
			}
		}
	}
	// which calls overlapped in time (observed, not required)
	type ev struct {
		s    span
		w, k int
	}
	var evs []ev
	for w := range spans {
		for k := range spans[w] {
			evs = append(evs, ev{spans[w][k], w, plan[w][k]})
		}
	}
	sort.Slice(evs, func(a, b int) bool { return evs[a].s.a < evs[b].s.a })
	for a := range evs {
		for b := a + 1; b < len(evs) && evs[b].s.a < evs[a].s.b; b++ {
			if evs[a].w == evs[b].w {
				continue
			}
			t.Events["overlapping pairs of calls"]++
			n1, n2 := tasks[evs[a].k].name, tasks[evs[b].k].name
			if n1 > n2 {
				n1, n2 = n2, n1
			}
			t.pairs[hash64([]byte(n1), []byte(n2))] = struct{}{}
			if tasks[evs[a].k].d == tasks[evs[b].k].d {
				t.Events["overlapping pairs on the same document"]++
			}
		}
	}
	t.Feat("goroutines " + strconv.Itoa(workers))
}

// coldC20 is the whole life of a process: its goroutines make the first calls of
// package jin in it, all of them the same few calls of one kind, so that state
// which is set up at the first use is seen to be set up. It returns what it
// observed, and what was wrong, if anything.
func coldC20(t *T, n int) (name string, calls int, bad string) {
	t.Case = n
	a, b := t.seedFor(1<<40 + n)
	t.R = rand.New(rand.NewPCG(a, b))
	t.D = rand.New(rand.NewPCG(b, a))
	g := newG(t.R)
	pr, all := t.proto20(g, n, false)
	// a document with something to read for every reader
	doc, root := t.DocOf(g, vobj("s", vstr(`a\"\u00e9\n`), "i", vs(KNum, "12"), "f", vs(KNum, "-1.5e3"), "b", vs(KTrue, "true"), "n", vs(KNull, "null"),
		"sa", varr(vstr("x"), vstr("y")), "ia", varr(vs(KNum, "1"), vs(KNum, "22")), "fa", varr(vs(KNum, "1.5"), vs(KNum, "2")), "ba", varr(vs(KTrue, "true"), vs(KFalse, "false")),
		"o", vobj("k", vstr("v"), "e", vobj(), "z", varr())))
	pr.docs = append(pr.docs, doc)
	pr.roots = append(pr.roots, root)
	all = append(all, t.Nodes(root, 40))
	for _, m := range all[len(all)-1] {
		pr.long = append(pr.long, m.Path())
		pr.spare = append(pr.spare, 1)
		pr.cut = append(pr.cut, [2]int{len(pr.long) - 1, len(m.Path())})
	}
	pr.keys[1] = []string{"s", "i", "f"}
	pr.lists[1] = []string{"1", "x", "true"}
	pr.anys[1] = []interface{}{1, "x", 1.5}
	pr.writeFiles(scratch)
	t.makeTask(g, pr, all, 0)
	kind := n % (readKinds + readKinds/3)
	var tasks []task
	for k := 0; k < 40; k++ {
		tasks = append(tasks, t.makeTask(g, pr, all, kind))
	}
	name = tasks[0].name
	const workers = 4
	var res [workers][]R20
	done := make(chan string, workers)
	start := make(chan struct{})
	for w := range res {
		res[w] = make([]R20, len(tasks))
	}
	for w := 0; w < workers; w++ {
		go func(w int) {
			defer func() {
				msg := ""
				if r := recover(); r != nil {
					buf := make([]byte, 8192)
					msg = fmt.Sprintf("%s: panic: %v\n%s", name, r, buf[:runtime.Stack(buf, false)])
				}
				done <- msg
			}()
			<-start
			e := pr.env()
			for k := range tasks {
				at := (k + w*n) % len(tasks)
				tasks[at].run(e, &res[w][at])
			}
		}(w)
	}
	close(start)
	for w := 0; w < workers; w++ {
		if m := <-done; m != "" {
			if !panicInJin(m) {
				panic("HARNESS: " + m)
			}
			bad = m
		}
	}
	if bad != "" {
		return
	}
	for k := range tasks {
		for w := range res {
			r, b := &res[w][k], &res[0][k]
			calls++
			if !bytes.Equal(r.snap, b.snap) || fmt.Sprint(r.err) != fmt.Sprint(b.err) {
				bad = fmt.Sprintf("%s %s: %q %v and %q %v", tasks[k].name, tasks[k].arg, clip(b.snap), b.err, clip(r.snap), r.err)
				return
			}
			if now := r.snapNow(); !bytes.Equal(strip(now), strip(r.snap)) {
				bad = fmt.Sprintf("%s %s: the result changed from %q to %q", tasks[k].name, tasks[k].arg, clip(r.snap), clip(now))
				return
			}
			if tasks[k].want != nil {
				if why := tasks[k].want(r); why != "" {
					bad = fmt.Sprintf("%s %s: %s", tasks[k].name, tasks[k].arg, why)
					return
				}
			}
		}
	}
	return
}

func init() {
	register(&Check{ID: "C20", Race: true, Cold: coldC20, QuickCold: 520, DeepCold: 6000, Quick: 20000, Deep: 400000, Case: caseC20,
		MinEvents: map[string]int64{"concurrent calls compared": 300000, "overlapping pairs of calls": 20000, "cold starts": 520},
		Rule:      "built with the race detector: 2-8 goroutines run 12-31 calls each, picked from about 100 reads, edits of the shared document (plain, through own document objects and own parsed forms), iterations with yielding callbacks, formatters, builders and schemes, on 1-3 shared documents, value buffers, key lists and path slices whose prefixes and spare capacity share memory; no synchronisation between the calls; GOMAXPROCS 2-8; then each call alone on fresh copies, compared with its concurrent results and, for lookups, key listings, flattening and edits, with the reference; results retained to the end. Cold starts: short processes in which 4 goroutines make the first 40 calls of one kind. Distinct: call and arguments."})
}
