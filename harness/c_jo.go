package main

// Monitor of document objects: C17.

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/ecoshub/jin"
)

type iterEv struct {
	k, v string
	p    []string
}

// sameAny is DeepEqual, except that not-a-number is the same as itself.
func sameAny(a, b any) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case []float64:
		y, ok := b.([]float64)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if math.Float64bits(x[i]) != math.Float64bits(y[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// joReads compares one read method of the object with the plain function.
func (t *T) joReads(g *G, jo *jin.JO, doc []byte, p []string, which int) {
	same := func(name string, a, b any, ea, eb error) {
		t.Eval(t.nontriv)
		if (ea == nil) != (eb == nil) || ea != nil && ea.Error() != eb.Error() || !sameAny(a, b) {
			t.Soft("C17 "+name, "object: %v %v, plain function: %v %v", clip(fmt.Sprintf("%q", a)), ea, clip(fmt.Sprintf("%q", b)), eb)
		}
	}
	op := func(name string) { t.Op("JO."+name, doc, p, nil) }
	switch which {
	case 0:
		op("Get")
		a, ea := jo.Get(p...)
		b, eb := jin.Get(doc, p...)
		same("Get", string(a), string(b), ea, eb)
	case 1:
		op("GetString")
		a, ea := jo.GetString(p...)
		b, eb := jin.GetString(doc, p...)
		same("GetString", a, b, ea, eb)
	case 2:
		op("GetInt")
		a, ea := jo.GetInt(p...)
		b, eb := jin.GetInt(doc, p...)
		same("GetInt", a, b, ea, eb)
	case 3:
		op("GetFloat")
		a, ea := jo.GetFloat(p...)
		b, eb := jin.GetFloat(doc, p...)
		same("GetFloat", a, b, ea, eb)
	case 4:
		op("GetBool")
		a, ea := jo.GetBool(p...)
		b, eb := jin.GetBool(doc, p...)
		same("GetBool", a, b, ea, eb)
	case 5:
		op("GetStringArray")
		a, ea := jo.GetStringArray(p...)
		b, eb := jin.GetStringArray(doc, p...)
		same("GetStringArray", a, b, ea, eb)
	case 6:
		op("GetIntArray")
		a, ea := jo.GetIntArray(p...)
		b, eb := jin.GetIntArray(doc, p...)
		same("GetIntArray", a, b, ea, eb)
	case 7:
		op("GetFloatArray")
		a, ea := jo.GetFloatArray(p...)
		b, eb := jin.GetFloatArray(doc, p...)
		same("GetFloatArray", a, b, ea, eb)
	case 8:
		op("GetBoolArray")
		a, ea := jo.GetBoolArray(p...)
		b, eb := jin.GetBoolArray(doc, p...)
		same("GetBoolArray", a, b, ea, eb)
	case 9:
		op("GetType")
		a, ea := jo.GetType(p...)
		b, eb := jin.GetType(doc, p...)
		same("GetType", a, b, ea, eb)
	case 10:
		op("GetKeys")
		a, ea := jo.GetKeys(p...)
		b, eb := jin.GetKeys(doc, p...)
		same("GetKeys", a, b, ea, eb)
	case 11:
		op("GetValues")
		a, ea := jo.GetValues(p...)
		b, eb := jin.GetValues(doc, p...)
		same("GetValues", a, b, ea, eb)
	case 12:
		op("GetKeysValues")
		a, a2, ea := jo.GetKeysValues(p...)
		b, b2, eb := jin.GetKeysValues(doc, p...)
		same("GetKeysValues", [][]string{a, a2}, [][]string{b, b2}, ea, eb)
	case 13:
		op("GetMap")
		a, ea := jo.GetMap(p...)
		b, eb := jin.GetMap(doc, p...)
		same("GetMap", a, b, ea, eb)
	case 14, 15:
		keys := []string{}
		if ks, err := jin.GetKeys(doc, p...); err == nil && g.p(80) {
			for _, k := range ks {
				if g.p(60) && len(keys) < 20 {
					keys = append(keys, k)
				}
			}
		}
		if g.p(20) || len(keys) == 0 {
			keys = append(keys, pick(t.R, words))
		}
		if which == 14 {
			op("GetAll")
			a, ea := jo.GetAll(keys, p...)
			b, eb := jin.GetAll(doc, keys, p...)
			same("GetAll", a, b, ea, eb)
		} else {
			op("GetAllMap")
			a, ea := jo.GetAllMap(keys, p...)
			b, eb := jin.GetAllMap(doc, keys, p...)
			same("GetAllMap", a, b, ea, eb)
		}
	case 16:
		op("IsObject")
		a, ea := jo.IsObject(p...)
		b, eb := jin.IsObject(doc, p...)
		same("IsObject", a, b, ea, eb)
	case 17:
		op("IsArray")
		a, ea := jo.IsArray(p...)
		b, eb := jin.IsArray(doc, p...)
		same("IsArray", a, b, ea, eb)
	case 18:
		op("IsValue")
		a, ea := jo.IsValue(p...)
		b, eb := jin.IsValue(doc, p...)
		same("IsValue", a, b, ea, eb)
	case 19:
		op("IsEmpty")
		a, ea := jo.IsEmpty(p...)
		b, eb := jin.IsEmpty(doc, p...)
		same("IsEmpty", a, b, ea, eb)
	case 20, 21, 22:
		stop := g.n(12)
		how := g.n(3)
		boom := errors.New("callback error " + fmt.Sprint(g.n(100)))
		if g.p(30) {
			boom = pick(t.R, cbErrors())
		}
		rec := func(evs *[]iterEv) func(k, v []byte, p []string) (bool, error) {
			return func(k, v []byte, p []string) (bool, error) {
				*evs = append(*evs, iterEv{string(k), string(v), append([]string(nil), p...)})
				if len(*evs) > stop {
					if how == 1 {
						return false, nil
					}
					if how == 2 {
						return true, boom
					}
				}
				return true, nil
			}
		}
		var a, b []iterEv
		fa, fb := rec(&a), rec(&b)
		var ea, eb error
		name := ""
		switch which {
		case 20:
			name = "IterateArray"
			op(name)
			ea = jo.IterateArray(func(v []byte) (bool, error) { return fa(nil, v, nil) }, p...)
			eb = jin.IterateArray(doc, func(v []byte) (bool, error) { return fb(nil, v, nil) }, p...)
		case 21:
			name = "IterateKeyValue"
			op(name)
			ea = jo.IterateKeyValue(func(k, v []byte) (bool, error) { return fa(k, v, nil) }, p...)
			eb = jin.IterateKeyValue(doc, func(k, v []byte) (bool, error) { return fb(k, v, nil) }, p...)
		case 22:
			if len(doc) > 3000 {
				return
			}
			name = "Walk"
			op(name)
			ea = jo.Walk(func(k string, v []byte, p []string) (bool, error) { return fa([]byte(k), v, p) })
			eb = jin.Walk(doc, func(k string, v []byte, p []string) (bool, error) { return fb([]byte(k), v, p) })
		}
		if (ea == boom) != (eb == boom) {
			t.Soft("C17 "+name+" error", "object: %v, plain function: %v", ea, eb)
		}
		same(name, a, b, ea, eb)
	case 23:
		op("String")
		same("String", jo.String(), string(doc), nil, nil)
		same("JSON", string(jo.JSON()), string(doc), nil, nil)
	}
}

var scratch string // directory of the shard for files

func caseC17(t *T, i int) {
	g := newG(t.R)
	lad := ladderUpto(300)
	var doc []byte
	var jo *jin.JO
	mode := g.n(10)
	if i < len(lad) {
		doc, _ = t.DocOf(g, g.ladder(lad[i][0], lad[i][1]))
	} else if i%59 == 0 {
		l := pick(t.R, ladderUpto(9000))
		t.Feat("ladder documents")
		doc, _ = t.DocOf(g, g.ladder(l[0], l[1]))
	} else if i%997 == 11 {
		l := pick(t.R, ladderOver)
		t.Feat("documents of ladders over 9000")
		doc, _ = t.DocOf(g, g.ladder(l[0], l[1]))
	} else {
		doc, _ = t.DocG(g, len(ladderList)+i, 60)
	}
	hist := []string{}
	switch {
	case mode == 0:
		t.Op("NewJSON", nil, nil, nil)
		jo = jin.NewJSON()
		doc = []byte("{}")
		hist = append(hist, "NewJSON")
	case mode == 1 && i%4 == 0:
		if g.p(30) { // a length at which files are cut into blocks
			unit := pick(t.R, []int{512, 1024, 4096, 4096, 32768, 65536})
			if k := len(doc) % unit; k != 0 {
				doc = append(append([]byte(nil), doc...), strings.Repeat(pick(t.R, []string{" ", "\n"}), unit-k)...)
			}
			t.Feat("files of whole blocks")
		}
		f := filepath.Join(scratch, fmt.Sprintf("doc %d.json", t.Case%7))
		if err := os.WriteFile(f, doc, 0o600); err != nil {
			panic("HARNESS: " + err.Error())
		}
		var err error
		if g.p(50) {
			t.Op("ReadFile", doc, []string{f}, nil)
			jo, err = jin.ReadFile(f)
		} else {
			t.Op("ReadJSONFile", doc, []string{f}, nil)
			jo, err = jin.ReadJSONFile(f)
		}
		// what happens to the file later is no concern of the object
		os.WriteFile(f, []byte("[]"), 0o600)
		t.Events["files read"]++
		t.Eval(true)
		if err != nil || jo == nil {
			t.Soft("C17 reading a file", "error %v", err)
			return
		}
		if g.p(10) {
			os.Remove(f)
			t.Op("ReadFile", nil, []string{f}, "absent")
			x, err := jin.ReadFile(f)
			y, err2 := jin.ReadJSONFile(f)
			if err == nil || err2 == nil {
				t.Soft("C17 absent file", "no error, objects %v %v", x, y)
			}
		}
		hist = append(hist, "ReadFile")
	default:
		t.Op("New", doc, nil, nil)
		jo = jin.New(append(make([]byte, 0, len(doc)+g.n(30)), doc...))
		hist = append(hist, "New")
	}
	g.noEmptyKey = true
	t.nontriv = true
	model := append([]byte(nil), doc...)
	steps := 1 + g.n(10)
	if g.p(10) {
		steps = 30
	}
	if len(doc) > 5000 {
		steps = 3
	}
	for k := 0; k < steps; k++ {
		root, err := RefParse(model)
		if err != nil || !root.Container() {
			panic("HARNESS: model of C17 is no document: " + clip(model))
		}
		all := root.All()
		kind := pick(t.R, []string{"set", "set", "store", "store", "addkv", "add", "add", "insert", "setkey", "delete"})
		if len(all) > 120 && g.p(50) {
			kind = "delete"
		}
		o, ok := t.randOp(g, kind, model, root, all, smallOr(kind), 20)
		if ok {
			t.inside(o, model, all)
			p := t.spare(o.Path)
			hist = append(hist, fmt.Sprintf("%s%q", o.Name(), o.Path))
			name := "JO." + o.Name()
			eff := o.Ref(model, root, o.Path)
			want, e2 := o.Plain(append([]byte(nil), model...), o.Path)
			t.Op(name, model, p, o.Arg()+" history "+strings.Join(hist[max(0, len(hist)-6):], " | "))
			var e1 error
			if o.From != nil {
				t.Events["values inside the document"]++
				own := o.Raw
				o.Raw = jo.JSON()[o.From.Start:o.From.End]
				if x, err := jo.Get(o.From.Path()...); g.p(50) && err == nil && o.From.Kind != KStr && o.From.Parent != nil {
					o.Raw = x
				}
				e1 = o.On(jo, p)
				o.Raw = own
			} else {
				e1 = o.On(jo, p)
			}
			t.Eval(len(hist) > 2, []byte(fmt.Sprint(len(hist))))
			got := jo.JSON()
			t.Keep("JO.JSON", got)
			if (e1 == nil) != (e2 == nil) {
				t.Soft("C17 "+name+" error", "object: %v, plain function: %v", e1, e2)
				return
			}
			if e1 != nil {
				t.Events["refused"]++
				if !bytes.Equal(got, model) {
					t.Soft("C17 "+name+" refused but changed", "error %v, the object holds %q", e1, clip(got))
					return
				}
				if eff.OK {
					t.Soft("C17 "+name+" refused", "error %v", e1)
					return
				}
			} else {
				t.Events["accepted "+o.Kind]++
				if !bytes.Equal(got, want) {
					t.Soft("C17 "+name+" result", "object holds %q, plain function gives %q", clip(got), clip(want))
					return
				}
				if !eff.OK {
					t.Soft("C17 "+name+" accepted", "an impossible edit was accepted, the object holds %q", clip(got))
					return
				}
				if why := o.checkEffect(model, got, eff); why != "" {
					t.Soft("C17 "+name+": "+firstWords(why), "%s: the object holds %q", why, clip(got))
					return
				}
				model = append([]byte(nil), got...)
				if root, err = RefParse(model); err != nil {
					t.Soft("C17 "+name+" not well-formed", "the object holds %q", clip(model))
					return
				}
				all = root.All()
			}
		}
		// reads of the held document
		for q := 0; q < 3; q++ {
			n := pick(t.R, all)
			p := n.Path()
			if g.p(15) {
				if m, ok := t.missing(model, root, n, all); ok {
					p = m.path
				}
			}
			t.joReads(g, jo, model, t.spare(p), g.n(24))
		}
		if t.twins && k == 0 && len(all) < 200 {
			near := append([]*Node(nil), all...)
			byText(near)
			at := g.n(len(near))
			which := g.n(24)
			for q := at; q < len(near) && q < at+6; q++ {
				t.joReads(g, jo, model, t.spare(near[q].Path()), which)
				if g.p(50) {
					t.joReads(g, jo, model, t.spare(near[q].Path()), g.n(4))
				}
			}
		}
		if s := jo.String(); s != string(model) {
			t.Soft("C17 String", "String() is %q", clip(s))
		}
	}
	t.Feat("history length " + bucket(len(hist)))
}

func init() {
	register(&Check{ID: "C17", Quick: 550000, Deep: 8250000, Case: caseC17,
		MinEvents: map[string]int64{"accepted set": 20000, "accepted store": 20000, "accepted addkv": 8000, "accepted add": 8000, "accepted insert": 4000, "accepted setkey": 4000, "accepted delete": 8000, "refused": 20000, "files read": 500, "JO.Get": 5000, "JO.Walk": 4000, "JO.GetBoolArray": 5000, "JO.IterateArray": 5000, "JO.GetAllMap": 5000},
		Rule:      "histories of 1-30 edits (about 20% impossible) through document objects made from a buffer with and without spare capacity, from a scratch file or empty; after each call the held document is compared byte by byte with the plain function applied to the model document and with the reference effect; after each step three reads picked from all read, query and iteration methods (existing and missing paths, stopping and failing callbacks) are compared with the plain function on the model; earlier JSON() results are retained. Non-trivial: not the first call of a history."})
}
