package main

// Monitors of the edits: C07 - C12.

import (
	"bytes"
	"fmt"
	"strconv"
	"unsafe"

	"github.com/ecoshub/jin"
)

// runOp runs an operation in one of the forms on a copy of the document.
func (t *T) runOp(form string, o *Op, orig []byte) (after []byte, err error) {
	path := t.spare(o.Path)
	// the call gets its own copy, sometimes with unused capacity behind it
	doc := append(make([]byte, 0, len(orig)+t.R.IntN(3)*16), orig...)
	if o.From != nil { // the value is a piece of the very document
		t.Events["values inside the document"]++
		own := o.Raw
		defer func() { o.Raw = own }()
		o.Raw = doc[o.From.Start:o.From.End]
	}
	t.formJO, t.formPS = nil, nil
	switch form {
	case "plain":
		t.Op(o.Name(), doc, path, o.Arg())
		return o.Plain(doc, path)
	case "JO":
		jo := jin.New(doc)
		t.formJO = jo
		t.Op("JO."+o.Name(), doc, path, o.Arg())
		err = o.On(jo, path)
		return jo.JSON(), err
	}
	ps, perr := jin.Parse(doc)
	if perr != nil {
		t.Soft("Parse refused", "Parse of a well-formed document: %v", perr)
		return nil, nil
	}
	t.formPS = ps
	if o.From != nil && t.R.IntN(2) == 0 {
		o.Raw = ps.JSON()[o.From.Start:o.From.End]
	}
	t.Op("Parser."+o.Name(), doc, path, o.Arg())
	err = o.On(ps, path)
	return ps.JSON(), err
}

// inside sometimes replaces a raw value by the text of a node of the document.
func (t *T) inside(o *Op, doc []byte, nodes []*Node) {
	if o.Type != "raw" || o.Raw == nil || t.R.IntN(6) != 0 {
		return
	}
	n := pick(t.R, nodes)
	if n.End-n.Start > 3000 {
		return
	}
	o.From = n
	o.Raw = append([]byte(nil), n.Raw(doc)...)
}

func (t *T) judge(prop, form string, o *Op, doc []byte, root *Node) (Effect, []byte, bool) {
	eff := o.Ref(doc, root, o.Path)
	after, err := t.runOp(form, o, doc)
	t.Eval(t.nontriv)
	name := o.Name()
	if form != "plain" {
		name = form + "." + name
	}
	if !eff.OK {
		t.Events["refusals"]++
		if err == nil {
			t.Soft(prop+" "+name+" accepted", "an impossible edit was accepted, result %q", clip(after))
		} else if !bytes.Equal(after, doc) {
			t.Soft(prop+" "+name+" refused but changed", "error %v but the document became %q", err, clip(after))
		}
		return eff, after, false
	}
	t.Events["accepted "+eff.Kind]++
	if err != nil {
		t.Soft(prop+" "+name+" refused", "error %v", err)
		return eff, after, false
	}
	if why := o.checkEffect(doc, after, eff); why != "" {
		t.Soft(prop+" "+name+": "+firstWords(why), "%s: result %q", why, clip(after))
		return eff, after, false
	}
	return eff, after, true
}

func firstWords(s string) string {
	n := 0
	for i, c := range s {
		if c == ' ' {
			n++
			if n == 4 {
				return s[:i]
			}
		}
		if c == '"' {
			return s[:i]
		}
	}
	return s
}

func editCase(prop string, kinds []string, wrong int, ladderCap int) func(t *T, i int) {
	lad := ladderUpto(ladderCap)
	return func(t *T, i int) {
		if i >= len(lad) && i%40 == 13 && prop != "C09" {
			t.editRepeated(prop, i)
			return
		}
		g := newG(t.R)
		var doc []byte
		var root *Node
		if i < len(lad) {
			t.Feat("ladder documents")
			doc, root = t.DocOf(g, g.ladder(lad[i][0], lad[i][1]))
		} else {
			doc, root = t.DocG(g, len(ladderList)+i, 150)
		}
		all := root.All()
		nodes := all
		if len(all) > 40 {
			nodes = t.Nodes(root, 24)
		}
		reps := 14
		if len(doc) > 20000 {
			reps = 4
		}
		for k := 0; k < reps; k++ {
			kind := pick(t.R, kinds)
			types := plainTypes(kind)
			form := "plain"
			if r := t.R.IntN(24); r < 6 {
				form = "JO"
			} else if r < 8 && len(doc) < 5000 {
				form = "Parser"
			}
			o, ok := t.randOp(g, kind, doc, root, nodes, types, wrong)
			if !ok {
				continue
			}
			if !o.has(form) || form == "Parser" && o.Key == "" && (kind == "addkv" || kind == "setkey") {
				form = "plain"
			}
			t.inside(o, doc, nodes)
			eff, after, good := t.judge(prop, form, o, doc, root)
			if good && len(after) < 4000 && t.R.IntN(3) == 0 {
				// read the result back through the package
				ar, _ := RefParse(after)
				nodes2 := ar.All()
				for q := 0; q < 3; q++ {
					n := pick(t.R, nodes2)
					p := n.Path()
					t.Op("Get", after, p, nil)
					got, err := jin.Get(after, p...)
					want := n.Text(after)
					if n == ar {
						want = after
					}
					if err != nil || !bytes.Equal(got, want) {
						t.Soft(prop+" read back", "after %s: got %q %v want %q", o.Name(), clip(got), err, clip(want))
					}
				}
				_ = eff
			}
			if good && t.R.IntN(3) == 0 && len(after) < 30000 { // go on from the result
				if ar, err := RefParse(after); err == nil && ar.Container() && !DupKeys(ar) {
					doc, root = after, ar
					nodes = ar.All()
					if len(nodes) > 40 {
						nodes = t.Nodes(root, 24)
					}
				}
			}
		}
	}
}

// editRepeated edits documents that repeat a name within an object. A path means
// the first member of that name; the others stay.
func (t *T) editRepeated(prop string, i int) {
	g := newG(t.R)
	g.dup = true
	doc, root := t.DocG(g, len(ladderList)+i, 40)
	first := []*Node{}
	for _, n := range root.All() {
		if n.Parent != nil && root.Resolve(n.Path()) == n {
			first = append(first, n)
		}
	}
	for k := 0; k < 6 && len(first) > 0; k++ {
		n := pick(t.R, first)
		if k%2 == 0 {
			if x := repeated(t.shuffled(first)); x != nil {
				n = x
			}
		}
		p := t.spare(n.Path())
		buf := append([]byte(nil), doc...)
		jo := jin.New(buf)
		useJO := g.p(30)
		var got, want []byte
		var err error
		name := ""
		splice := func(start, end int, v string) {
			want = append(append(append([]byte(nil), doc[:start]...), v...), doc[end:]...)
		}
		v := pick(t.R, []string{"1", `"v"`, `[1,"x"]`, `{"a":2}`, "null"})
		switch {
		case prop == "C07" && n.Parent.Kind == KObj && n.Key != "" && g.p(40):
			name = "Store"
			t.Op(name, doc, p, "repeated names")
			splice(n.Start, n.End, v)
			if useJO {
				err = jo.Store(n.Key, []byte(v), p[:len(p)-1]...)
			} else {
				got, err = jin.Store(buf, n.Key, []byte(v), p[:len(p)-1]...)
			}
		case prop == "C07":
			name = "Set"
			t.Op(name, doc, p, "repeated names")
			splice(n.Start, n.End, v)
			if useJO {
				err = jo.Set([]byte(v), p...)
			} else {
				got, err = jin.Set(buf, []byte(v), p...)
			}
		case prop == "C08":
			if n.Parent.Kind != KObj {
				continue
			}
			name = "SetKey"
			nk := "fresh" + strconv.Itoa(g.n(1000))
			for n.Parent.Child(nk) != nil {
				nk += "x"
			}
			t.Op(name, doc, p, "repeated names")
			splice(n.KS, n.KE, nk)
			if useJO {
				err = jo.SetKey(nk, p...)
			} else {
				got, err = jin.SetKey(buf, nk, p...)
			}
		default:
			name = "Delete"
			t.Op(name, doc, p, "repeated names")
			if useJO {
				err = jo.Delete(p...)
			} else {
				got, err = jin.Delete(buf, p...)
			}
		}
		t.Eval(true)
		t.Events["edits among repeated names"]++
		if err != nil {
			t.Soft(prop+" "+name+" among repeated names", "refused: %v", err)
			continue
		}
		if useJO {
			got = jo.JSON()
		}
		if want != nil {
			if !bytes.Equal(got, want) {
				t.Soft(prop+" "+name+" among repeated names", "got %q want %q", clip(got), clip(want))
			}
			continue
		}
		r2, err := RefParse(got)
		if err != nil {
			t.Soft(prop+" "+name+" among repeated names", "not well-formed: %q", clip(got))
			continue
		}
		rest := func(d []byte, x *Node, skip int) []string {
			out := []string{x.Kind.String()}
			for j, kid := range x.Kids {
				if j != skip {
					out = append(out, kid.Key, string(kid.Raw(d)))
				}
			}
			return out
		}
		x := r2.Resolve(n.Parent.Path())
		if x == nil || !eqStrs(rest(got, x, -1), rest(doc, n.Parent, n.Pos)) {
			t.Soft(prop+" "+name+" among repeated names", "left %q of %q", clip(got), clip(doc))
			continue
		}
		// outside the container nothing changes
		if !bytes.Equal(got[:x.Start], doc[:n.Parent.Start]) || !bytes.Equal(got[x.End:], doc[n.Parent.End:]) {
			t.Soft(prop+" "+name+" among repeated names", "left %q of %q", clip(got), clip(doc))
		}
	}
}

func (t *T) shuffled(ns []*Node) []*Node {
	out := append([]*Node(nil), ns...)
	t.R.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func init() {
	rule := "Every 40th case: a document that repeats a name within an object, where a path means the first member of that name. The others: ladders then random documents (every whitespace style, strings and keys full of structure characters, containers empty or not); on each about 14 edits chosen from what the document has, through the plain functions, document objects and (small documents) parsed forms, partly chained on the previous result; each result compared with the reference effect byte by byte outside the edited place. Non-trivial: document of at least 3 nodes."
	register(&Check{ID: "C07", Quick: 800000, Deep: 12000000, Case: editCase("C07", []string{"set", "set", "store"}, 3, 9000),
		MinEvents: map[string]int64{"Set": 30000, "Store": 5000, "JO.Set": 5000, "accepted set": 50000}, Rule: rule})
	register(&Check{ID: "C08", Quick: 800000, Deep: 12000000, Case: editCase("C08", []string{"addkv", "addkv", "store", "setkey"}, 22, 9000),
		MinEvents: map[string]int64{"AddKeyValue": 10000, "Store": 5000, "SetKey": 10000, "JO.AddKeyValue": 2000, "accepted addkv": 50000, "accepted setkey": 10000, "refusals": 20000}, Rule: rule})
	register(&Check{ID: "C09", Quick: 800000, Deep: 12000000, Case: editCase("C09", []string{"add", "insert", "insert"}, 22, 9000),
		MinEvents: map[string]int64{"Add": 5000, "Insert": 10000, "JO.Insert": 2000, "accepted insert": 50000, "accepted add": 30000, "refusals": 20000}, Rule: rule})
	register(&Check{ID: "C10", Quick: 1000000, Deep: 15000000, Case: editCase("C10", []string{"delete"}, 8, 9000),
		MinEvents: map[string]int64{"Delete": 50000, "JO.Delete": 10000, "accepted delete": 100000}, Rule: rule})
	register(&Check{ID: "C11", Quick: 500000, Deep: 7500000, Case: caseC11,
		MinEvents: map[string]int64{"guarded calls": 300000, "failed edits": 50000, "results watched": 100000, "JO.GetIntArray": 5000, "JO.IterateKeyValue": 5000, "Parser.GetBoolArray": 2000, "Scheme.MakeJson": 2000},
		Rule:      "documents as in C01 placed, like every value, key list and path, in guarded memory with spare capacity; sequences of edits (about 40% refused), reads, listings, iterations, formatting and building calls; after each call the guarded memory is compared with its snapshot, after a refused edit also the returned or held document; results stay watched until the end of the case; edited documents are checked not to overlap their inputs. Non-trivial: document of at least 3 nodes."})
	register(&Check{ID: "C12", Quick: 600000, Deep: 9000000, Case: caseC12,
		MinEvents: map[string]int64{"read back int": 10000, "read back float": 10000, "read back string": 10000, "read back bool": 10000, "Parser.SetString": 1000, "JO.StoreString": 1000, "AddUint64": 1000, "InsertInt32": 1000, "read back through the writing form": 20000},
		Rule:      "documents as in C07; every typed writer of the three forms with values at representation limits (integer widths, float exponents, strings that look like numbers, booleans, containers, escapes, long strings); the place written is read from the reference tree and through the package's readers, plain or of the form that wrote it. Non-trivial: document of at least 3 nodes."})
}

// ---- C11 ----

// parsedRead makes one read call of a parsed form.
func (t *T) parsedRead(ps *jin.Parser, doc []byte, p []string) {
	op := func(s string) { t.Op("Parser."+s, doc, p, nil) }
	switch t.R.IntN(12) {
	case 0:
		op("Get")
		b, _ := ps.Get(p...)
		t.Keep("Parser.Get", b)
	case 1:
		op("GetNew")
		t.Keep("Parser.GetNew", ps.GetNew(p...))
	case 2:
		op("Tree")
		t.KeepS("Parser.Tree", ps.Tree())
	case 3:
		op("TreeFull")
		t.KeepS("Parser.TreeFull", ps.TreeFull())
	case 4:
		op("JSON")
		t.Keep("Parser.JSON", ps.JSON())
	case 5:
		op("GetString")
		s, _ := ps.GetString(p...)
		t.KeepS("Parser.GetString", s)
	case 6:
		op("GetInt")
		ps.GetInt(p...)
	case 7:
		op("GetFloat")
		ps.GetFloat(p...)
	case 8:
		op("GetBool")
		ps.GetBool(p...)
	case 9:
		op("GetStringArray")
		s, _ := ps.GetStringArray(p...)
		t.KeepSS("Parser.GetStringArray", s)
	case 10:
		op("GetIntArray")
		ps.GetIntArray(p...)
	case 11:
		op("GetFloatArray")
		ps.GetFloatArray(p...)
		op("GetBoolArray")
		ps.GetBoolArray(p...)
	}
}

// objectRead makes one read call of a document object.
func (t *T) objectRead(jo *jin.JO, doc []byte, p []string, pgs *[]pguard) {
	op := func(s string) { t.Op("JO."+s, doc, p, nil) }
	switch t.R.IntN(23) {
	case 0:
		op("Get")
		b, _ := jo.Get(p...)
		t.Keep("JO.Get", b)
	case 1:
		op("String")
		t.KeepS("JO.String", jo.String())
	case 2:
		op("JSON")
		t.Keep("JO.JSON", jo.JSON())
	case 3:
		op("GetString")
		s, _ := jo.GetString(p...)
		t.KeepS("JO.GetString", s)
	case 4:
		op("GetInt")
		jo.GetInt(p...)
	case 5:
		op("GetFloat")
		jo.GetFloat(p...)
	case 6:
		op("GetBool")
		jo.GetBool(p...)
	case 7:
		op("GetStringArray")
		s, _ := jo.GetStringArray(p...)
		t.KeepSS("JO.GetStringArray", s)
	case 8:
		op("GetIntArray")
		jo.GetIntArray(p...)
	case 9:
		op("GetFloatArray")
		jo.GetFloatArray(p...)
	case 10:
		op("GetBoolArray")
		jo.GetBoolArray(p...)
	case 11:
		op("GetKeys")
		s, _ := jo.GetKeys(p...)
		t.KeepSS("JO.GetKeys", s)
	case 12:
		op("GetValues")
		s, _ := jo.GetValues(p...)
		t.KeepSS("JO.GetValues", s)
	case 13:
		op("GetKeysValues")
		a, b, _ := jo.GetKeysValues(p...)
		t.KeepSS("JO.GetKeysValues", a)
		t.KeepSS("JO.GetKeysValues", b)
	case 14:
		op("GetMap")
		m, _ := jo.GetMap(p...)
		for k, v := range m {
			t.KeepS("JO.GetMap", k)
			t.KeepS("JO.GetMap", v)
		}
	case 15, 16:
		keys := t.guardedPath([]string{"a", "0", "k0", "b", "c"}[:1+t.R.IntN(5)], pgs)
		t.Op("JO.GetAll", doc, p, fmt.Sprint(keys))
		s, _ := jo.GetAll(keys, p...)
		t.KeepSS("JO.GetAll", s)
		t.Op("JO.GetAllMap", doc, p, fmt.Sprint(keys))
		jo.GetAllMap(keys, p...)
	case 17:
		op("GetType")
		s, _ := jo.GetType(p...)
		t.KeepS("JO.GetType", s)
	case 18:
		op("IsEmpty")
		jo.IsEmpty(p...)
	case 19:
		op("IsObject")
		jo.IsObject(p...)
		op("IsArray")
		jo.IsArray(p...)
		op("IsValue")
		jo.IsValue(p...)
	case 20:
		op("IterateArray")
		jo.IterateArray(func(v []byte) (bool, error) { t.Keep("JO.IterateArray", v); return true, nil }, p...)
	case 21:
		op("IterateKeyValue")
		jo.IterateKeyValue(func(k, v []byte) (bool, error) {
			t.Keep("JO.IterateKeyValue", k)
			t.Keep("JO.IterateKeyValue", v)
			return true, nil
		}, p...)
	case 22:
		if len(doc) < 3000 {
			op("Walk")
			jo.Walk(func(k string, v []byte, p []string) (bool, error) {
				t.KeepS("JO.Walk", k)
				t.Keep("JO.Walk", v)
				return true, nil
			})
		}
	}
}

type guard struct {
	what string
	all  []byte
	snap []byte
}

// guarded puts bytes into canary-filled memory with spare capacity.
func (t *T) guarded(what string, b []byte, gs *[]guard) []byte {
	if b == nil {
		return nil
	}
	off := 1 + t.R.IntN(8)
	spare := t.R.IntN(64)
	all := make([]byte, off+len(b)+spare)
	for i := range all {
		all[i] = 0xA5
	}
	copy(all[off:], b)
	*gs = append(*gs, guard{what, all, append([]byte(nil), all...)})
	return all[off : off+len(b) : off+len(b)+spare]
}

type pguard struct {
	all, snap []string
}

func (t *T) guardedPath(p []string, ps *[]pguard) []string {
	extra := t.R.IntN(5)
	all := make([]string, len(p)+extra)
	copy(all, p)
	for i := len(p); i < len(all); i++ {
		all[i] = "\x01canary"
	}
	*ps = append(*ps, pguard{all, append([]string(nil), all...)})
	return all[:len(p)]
}

func overlaps(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	a, b = a[:cap(a)], b[:cap(b)]
	as, bs := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return as < bs+uintptr(len(b)) && bs < as+uintptr(len(a))
}

func caseC11(t *T, i int) {
	g := newG(t.R)
	lad := ladderUpto(1100)
	var doc []byte
	var root *Node
	if i < len(lad) {
		doc, root = t.DocOf(g, g.ladder(lad[i][0], lad[i][1]))
	} else {
		doc, root = t.DocG(g, len(ladderList)+i, 80)
	}
	var gs []guard
	var pgs []pguard
	verify := func() {
		t.Events["guarded calls"]++
		for _, x := range gs {
			if !bytes.Equal(x.all, x.snap) {
				at := 0
				for x.all[at] == x.snap[at] {
					at++
				}
				t.Soft("C11 "+t.opName+" wrote to the "+x.what, "byte %d of the guarded memory of the %s changed from %q to %q", at, x.what, x.snap[at], x.all[at])
				copy(x.snap, x.all)
			}
		}
		for _, x := range pgs {
			for k := range x.all {
				if x.all[k] != x.snap[k] {
					t.Soft("C11 "+t.opName+" wrote to the path", "element %d of the path's memory changed from %q to %q", k, clip(x.snap[k]), clip(x.all[k]))
					x.snap[k] = x.all[k]
				}
			}
		}
	}
	gd := t.guarded("document", doc, &gs)
	nodes := root.All()
	if len(nodes) > 60 {
		nodes = t.Nodes(root, 30)
	}
	kinds := []string{"set", "store", "addkv", "add", "insert", "setkey", "delete"}
	var jo *jin.JO
	var ps *jin.Parser
	joDoc, psDoc := doc, doc
	for k := 0; k < 16; k++ {
		if len(gs) > 12 { // older snapshots have been compared often enough
			gs = append(gs[:1], gs[len(gs)-4:]...)
			pgs = pgs[max(0, len(pgs)-4):]
		}
		switch t.R.IntN(6) {
		case 0, 1: // plain edit
			kind := pick(t.R, kinds)
			o, ok := t.randOp(g, kind, doc, root, nodes, plainTypes(kind), 40)
			if !ok {
				continue
			}
			if o.Raw != nil {
				o.Raw = t.guarded("value", o.Raw, &gs)
			}
			p := t.guardedPath(o.Path, &pgs)
			t.Op(o.Name(), gd, p, o.Arg())
			after, err := o.Plain(gd, p)
			t.Eval(t.nontriv)
			verify()
			if err != nil {
				t.Events["failed edits"]++
				if !bytes.Equal(after, doc) {
					t.Soft("C11 "+o.Name()+" failed but changed", "error %v with document %q", err, clip(after))
				}
			} else {
				if overlaps(after, gd) {
					t.Soft("C11 "+o.Name()+" shares memory", "the edited document shares memory with the input document")
				}
				if o.Raw != nil && overlaps(after, o.Raw) {
					t.Soft("C11 "+o.Name()+" shares memory with value", "the edited document shares memory with the value")
				}
				t.Events["results watched"]++
				t.Keep(o.Name(), after)
			}
		case 2: // document object
			if jo == nil {
				jo = jin.New(t.guarded("document", doc, &gs))
				joDoc = doc
			}
			jr, err := RefParse(joDoc)
			if err != nil || !jr.Container() {
				jo = nil
				continue
			}
			kind := pick(t.R, kinds)
			o, ok := t.randOp(g, kind, joDoc, jr, jr.All(), smallOr(kind), 40)
			if !ok {
				continue
			}
			if o.Raw != nil {
				o.Raw = t.guarded("value", o.Raw, &gs)
			}
			p := t.guardedPath(o.Path, &pgs)
			held := jo.JSON()
			t.Keep("JO.JSON", held)
			t.Op("JO."+o.Name(), joDoc, p, o.Arg())
			err = o.On(jo, p)
			t.Eval(t.nontriv)
			verify()
			if err != nil {
				t.Events["failed edits"]++
				if !bytes.Equal(jo.JSON(), joDoc) || jo.String() != string(joDoc) {
					t.Soft("C11 JO."+o.Name()+" failed but changed", "error %v and the object holds %q", err, clip(jo.JSON()))
				}
			} else if o.Raw != nil && overlaps(jo.JSON(), o.Raw) {
				t.Soft("C11 JO."+o.Name()+" shares memory with value", "the held document shares memory with the value")
			}
			joDoc = append([]byte(nil), jo.JSON()...)
			t.Events["results watched"]++
			if len(joDoc) > 20000 {
				jo = nil
			}
		case 3: // parsed form
			if len(doc) > 5000 {
				continue
			}
			if ps == nil {
				pd := t.guarded("document", doc, &gs)
				t.Op("Parse", doc, nil, nil)
				p, err := jin.Parse(pd)
				verify()
				if err != nil {
					continue
				}
				ps, psDoc = p, doc
			}
			pr, err := RefParse(psDoc)
			if err != nil || !pr.Container() {
				ps = nil
				continue
			}
			kind := pick(t.R, []string{"set", "addkv", "add", "insert", "setkey", "delete"})
			o, ok := t.randOp(g, kind, psDoc, pr, pr.All(), smallOr(kind), 40)
			if !ok {
				continue
			}
			if o.Raw != nil {
				o.Raw = t.guarded("value", o.Raw, &gs)
			}
			p := t.guardedPath(o.Path, &pgs)
			t.Keep("Parser.JSON", ps.JSON())
			tree := ""
			if len(psDoc) < 2000 {
				tree = ps.TreeFull()
			}
			t.Op("Parser."+o.Name(), psDoc, p, o.Arg())
			err = o.On(ps, p)
			t.Eval(t.nontriv)
			verify()
			if err != nil {
				t.Events["failed edits"]++
				if !bytes.Equal(ps.JSON(), psDoc) {
					t.Soft("C11 Parser."+o.Name()+" failed but changed", "error %v and the parser holds %q", err, clip(ps.JSON()))
				} else if tree != "" && ps.TreeFull() != tree {
					t.Soft("C11 Parser."+o.Name()+" failed but tree changed", "error %v and the tree became %q", err, clip(ps.TreeFull()))
				}
			}
			// the parsed form keeps answering for the document it holds
			psDoc = append([]byte(nil), ps.JSON()...)
			if _, err := RefParse(psDoc); err != nil || len(psDoc) > 5000 {
				ps = nil
			}
		case 4: // reads
			n := pick(t.R, nodes)
			p := t.guardedPath(n.Path(), &pgs)
			if t.R.IntN(3) == 0 {
				if m, ok := t.missing(doc, root, n, nodes); ok {
					p = t.guardedPath(m.path, &pgs)
				}
			}
			t.readSome(gd, p, &pgs, verify)
		case 5:
			t.buildSome(g, gd, doc, root, &gs, &pgs, verify)
		}
	}
	verify()
}

func smallOr(kind string) []string {
	if kind == "setkey" || kind == "delete" {
		return []string{""}
	}
	return smallTypes
}

// readSome calls one random reader; its results are retained.
func (t *T) readSome(doc []byte, p []string, pgs *[]pguard, verify func()) {
	op := func(s string) { t.Op(s, doc, p, nil) }
	t.Events["results watched"]++
	switch t.R.IntN(27) {
	case 0:
		op("Get")
		b, _ := jin.Get(doc, p...)
		t.Keep("Get", b)
	case 1:
		op("GetString")
		s, _ := jin.GetString(doc, p...)
		t.KeepS("GetString", s)
	case 2:
		op("GetKeys")
		s, _ := jin.GetKeys(doc, p...)
		t.KeepSS("GetKeys", s)
	case 3:
		op("GetValues")
		s, _ := jin.GetValues(doc, p...)
		t.KeepSS("GetValues", s)
	case 4:
		op("GetKeysValues")
		a, b, _ := jin.GetKeysValues(doc, p...)
		t.KeepSS("GetKeysValues", a)
		t.KeepSS("GetKeysValues", b)
	case 5:
		op("GetMap")
		m, _ := jin.GetMap(doc, p...)
		for k, v := range m {
			t.KeepS("GetMap", k)
			t.KeepS("GetMap", v)
		}
	case 6:
		op("GetStringArray")
		s, _ := jin.GetStringArray(doc, p...)
		t.KeepSS("GetStringArray", s)
	case 7:
		op("GetIntArray")
		jin.GetIntArray(doc, p...)
		verify()
		op("GetFloatArray")
		jin.GetFloatArray(doc, p...)
	case 8:
		op("GetBoolArray")
		jin.GetBoolArray(doc, p...)
	case 9:
		op("GetType")
		s, _ := jin.GetType(doc, p...)
		t.KeepS("GetType", s)
	case 10:
		op("Length")
		jin.Length(doc, p...)
		verify()
		op("IsEmpty")
		jin.IsEmpty(doc, p...)
	case 11:
		op("IsObject")
		jin.IsObject(doc, p...)
		jin.IsArray(doc, p...)
		jin.IsValue(doc, p...)
	case 12:
		op("IterateArray")
		jin.IterateArray(doc, func(v []byte) (bool, error) { t.Keep("IterateArray", v); return true, nil }, p...)
	case 13:
		op("IterateKeyValue")
		jin.IterateKeyValue(doc, func(k, v []byte) (bool, error) {
			t.Keep("IterateKeyValue", k)
			t.Keep("IterateKeyValue", v)
			return true, nil
		}, p...)
	case 14:
		if len(doc) < 3000 {
			t.Op("Walk", doc, nil, nil)
			type pc struct{ got, copy []string }
			kept := []pc{}
			jin.Walk(doc, func(k string, v []byte, p []string) (bool, error) {
				kept = append(kept, pc{p, append([]string(nil), p...)})
				t.KeepS("Walk", k)
				t.Keep("Walk", v)
				return true, nil
			})
			for _, x := range kept {
				if !eqStrs(x.got, x.copy) {
					t.Soft("C11 Walk path changed", "a path given to the callback changed from %q to %q", x.copy, x.got)
				}
			}
		}
	case 15, 16:
		keys := t.guardedPath([]string{"a", "0", "k0", "b", "c"}[:1+t.R.IntN(5)], pgs)
		t.Op("GetAll", doc, p, fmt.Sprint(keys))
		s, _ := jin.GetAll(doc, keys, p...)
		t.KeepSS("GetAll", s)
		verify()
		t.Op("GetAllMap", doc, p, fmt.Sprint(keys))
		jin.GetAllMap(doc, keys, p...)
	case 17:
		op("GetInt")
		jin.GetInt(doc, p...)
		jin.GetFloat(doc, p...)
		jin.GetBool(doc, p...)
	case 18, 19, 20:
		if len(doc) < 3000 {
			t.Op("Parse", doc, nil, nil)
			ps, err := jin.Parse(doc)
			verify()
			if err == nil {
				for k := 0; k < 3; k++ {
					t.parsedRead(ps, doc, p)
					verify()
				}
				if !bytes.Equal(ps.JSON(), doc) {
					t.Soft("C11 "+t.opName+" changed the held document", "the parsed form holds %q after a read", clip(ps.JSON()))
				}
			}
		}
	case 21, 22, 23, 24, 25, 26:
		jo := jin.New(doc)
		for k := 0; k < 3; k++ {
			t.objectRead(jo, doc, p, pgs)
			verify()
		}
		if !bytes.Equal(jo.JSON(), doc) {
			t.Soft("C11 "+t.opName+" changed the held document", "the document object holds %q after a read", clip(jo.JSON()))
		}
	}
	t.Eval(t.nontriv)
	verify()
}

func (t *T) buildSome(g *G, gd, doc []byte, root *Node, gs *[]guard, pgs *[]pguard, verify func()) {
	t.Events["results watched"]++
	switch t.R.IntN(10) {
	case 0:
		t.Op("Flatten", doc, nil, nil)
		b := jin.Flatten(gd)
		if overlaps(b, gd) {
			t.Soft("C11 Flatten shares memory", "the flattened document shares memory with its input")
		}
		t.Keep("Flatten", b)
	case 1:
		t.Op("Indent", doc, nil, nil)
		b := jin.Indent(gd)
		if overlaps(b, gd) {
			t.Soft("C11 Indent shares memory", "the indented document shares memory with its input")
		}
		t.Keep("Indent", b)
	case 2:
		vals := [][]byte{}
		for k := t.R.IntN(5); k > 0; k-- {
			vals = append(vals, t.guarded("value", g.rawValue(4), gs))
		}
		t.Op("MakeArrayBytes", nil, nil, nil)
		b := jin.MakeArrayBytes(vals...)
		for _, v := range vals {
			if overlaps(b, v) {
				t.Soft("C11 MakeArrayBytes shares memory", "the array shares memory with a value")
			}
		}
		t.Keep("MakeArrayBytes", b)
	case 3:
		ss := []string{}
		for k := t.R.IntN(6); k > 0; k-- {
			ss = append(ss, g.plainString())
		}
		vs := t.guardedPath(ss, pgs)
		t.Op("MakeArrayString", nil, vs, nil)
		t.Keep("MakeArrayString", jin.MakeArrayString(vs))
	case 4:
		ks, vs := []string{}, []string{}
		for k := t.R.IntN(6); k > 0; k-- {
			ks = append(ks, "k"+strconv.Itoa(k))
			vs = append(vs, g.plainString())
		}
		a, b := t.guardedPath(ks, pgs), t.guardedPath(vs, pgs)
		t.Op("MakeJsonString", nil, a, fmt.Sprint(b))
		t.Keep("MakeJsonString", jin.MakeJsonString(a, b))
	case 5:
		is := []int{1, 2, 3, 4, 5}[:t.R.IntN(6)]
		fs := []float64{1, 2.5, 3, 4, 5}[:t.R.IntN(6)]
		bs := []bool{true, false, true}[:t.R.IntN(4)]
		isWas, fsWas, bsWas := fmt.Sprint(is), fmt.Sprint(fs), fmt.Sprint(bs)
		t.Op("MakeArrayInt", nil, nil, fmt.Sprint(is))
		t.Keep("MakeArrayInt", jin.MakeArrayInt(is))
		t.Op("MakeArrayFloat", nil, nil, fmt.Sprint(fs))
		t.Keep("MakeArrayFloat", jin.MakeArrayFloat(fs))
		t.Op("MakeArrayBool", nil, nil, fmt.Sprint(bs))
		t.Keep("MakeArrayBool", jin.MakeArrayBool(bs))
		if now := fmt.Sprint(is) + fmt.Sprint(fs) + fmt.Sprint(bs); now != isWas+fsWas+bsWas {
			t.Soft("C11 array builder wrote to its list", "the lists became %s", now)
		}
	case 6:
		m := map[string]string{"a": "1", "b": g.plainString()}
		t.Op("MakeJsonWithMap", nil, nil, fmt.Sprint(m))
		t.Keep("MakeJsonWithMap", jin.MakeJsonWithMap(m))
		if len(m) != 2 || m["a"] != "1" {
			t.Soft("C11 MakeJsonWithMap", "the caller's map changed to %v", m)
		}
		t.Keep("MakeEmptyJson", jin.MakeEmptyJson())
		t.Keep("MakeEmptyArray", jin.MakeEmptyArray())
	case 7:
		ks := t.guardedPath([]string{"a", "b", "c", "id"}[:1+t.R.IntN(4)], pgs)
		t.Op("MakeScheme", nil, ks, nil)
		s := jin.MakeScheme(ks...)
		cur := s.GetCurrentKeys()
		curCopy := append([]string(nil), cur...)
		for k := 0; k < 6; k++ {
			switch t.R.IntN(5) {
			case 0:
				t.Op("Scheme.Add", nil, ks, nil)
				s.Add(pick(t.R, words))
			case 1:
				t.Op("Scheme.Remove", nil, ks, nil)
				s.Remove(pick(t.R, []string{"a", "b", "c"}))
			case 2:
				s.Save()
			case 3:
				s.Restore()
			case 4:
				t.Op("Scheme.MutateJson", doc, ks, nil)
				b, _ := s.MutateJson(gd)
				t.Keep("Scheme.MutateJson", b)
				t.Op("Scheme.MutateJsonAbs", doc, ks, nil)
				b, _ = s.MutateJsonAbs(gd)
				t.Keep("Scheme.MutateJsonAbs", b)
				t.Op("Scheme.Check", doc, ks, nil)
				s.Check(gd)
				s.CheckAbs(gd)
			}
			verify()
		}
		if !eqStrs(cur, curCopy) {
			t.Soft("C11 Scheme keys changed", "a key list handed out earlier changed from %q to %q", curCopy, cur)
		}
	case 8:
		raw := string(root.Raw(doc))
		t.Op("ParseArray", doc, nil, raw)
		t.KeepSS("ParseArray", jin.ParseArray(raw))
	case 9:
		// values of any type, the byte slices among them guarded, the list with spare capacity
		n := t.R.IntN(5)
		list := make([]interface{}, n, n+3)
		ks := make([]string, n)
		full := list[:n+3]
		for k := range full {
			full[k] = "\x01canary"
		}
		for k := 0; k < n; k++ {
			ks[k] = "k" + strconv.Itoa(k)
			switch t.R.IntN(5) {
			case 0:
				list[k] = k
			case 1:
				list[k] = float64(k) + 0.5
			case 2:
				list[k] = g.plainString()
			case 3:
				list[k] = t.guarded("value", g.rawValue(4), gs)
			case 4:
				list[k] = k%2 == 0
			}
		}
		keys := t.guardedPath(ks, pgs)
		was := fmt.Sprint(full...)
		switch t.R.IntN(3) {
		case 0:
			t.Op("MakeArray", nil, nil, was)
			t.Keep("MakeArray", jin.MakeArray(list...))
		case 1:
			t.Op("MakeJson", nil, keys, was)
			t.Keep("MakeJson", jin.MakeJson(keys, list))
		case 2:
			s := jin.MakeScheme(keys...)
			t.Op("Scheme.MakeJson", nil, keys, was)
			t.Keep("Scheme.MakeJson", s.MakeJson(list...))
			verify()
			vs := t.guardedPath(ks, pgs)
			t.Op("Scheme.MakeJsonString", nil, vs, nil)
			t.Keep("Scheme.MakeJsonString", s.MakeJsonString(vs...))
		}
		if now := fmt.Sprint(full...); now != was {
			t.Soft("C11 "+t.opName+" wrote to its list", "the list became %s", now)
		}
	}
	t.Eval(t.nontriv)
	verify()
}

// ---- C12 ----

func caseC12(t *T, i int) {
	g := newG(t.R)
	g.noEmptyKey = true
	doc, root := t.DocG(g, len(ladderList)+i, 40)
	reps := 12
	if lad := ladderUpto(9000); i%40 == 7 { // the large and the deep
		l := pick(t.R, lad)
		t.Feat("ladder documents")
		doc, root = t.DocOf(g, g.ladder(l[0], l[1]))
		if len(doc) > 20000 {
			reps = 4
		}
	} else if i%1000 == 13 {
		l := pick(t.R, ladderOver)
		t.Feat("documents of ladders over 9000")
		doc, root = t.DocOf(g, g.ladder(l[0], l[1]))
		reps = 6
	}
	nodes := root.All()
	if len(nodes) > 60 {
		nodes = t.Nodes(root, 30)
	}
	for k := 0; k < reps; k++ {
		kind := pick(t.R, []string{"set", "store", "addkv", "add", "insert"})
		form := pick(t.R, []string{"plain", "plain", "JO", "Parser"})
		types := plainTypes(kind)
		if form != "plain" {
			types = smallTypes
		}
		if form == "Parser" && kind == "store" {
			form = "JO"
		}
		if form == "Parser" && len(doc) > 5000 {
			form = "plain"
		}
		o, ok := t.randOp(g, kind, doc, root, nodes, types[1:], 0)
		if !ok {
			continue
		}
		eff, after, good := t.judge("C12", form, o, doc, root)
		if !good {
			continue
		}
		ar, err := RefParse(after)
		if err != nil {
			continue
		}
		cont := ar.Resolve(eff.Cont)
		n := cont.Kids[eff.Target]
		p := n.Path()
		rd := typedReader{gInt: func(p ...string) (int, error) { return jin.GetInt(after, p...) }, gFloat: func(p ...string) (float64, error) { return jin.GetFloat(after, p...) }, gBool: func(p ...string) (bool, error) { return jin.GetBool(after, p...) }}
		gStr := func(p ...string) (string, error) { return jin.GetString(after, p...) }
		if t.R.IntN(2) == 0 { // the form it was written through
			switch form {
			case "JO":
				jo := t.formJO
				rd, gStr = typedReader{gInt: jo.GetInt, gFloat: jo.GetFloat, gBool: jo.GetBool}, jo.GetString
				t.Events["read back through the writing form"]++
			case "Parser":
				rd, gStr = parsedReader("C12", t.formPS), t.formPS.GetString
				t.Events["read back through the writing form"]++
			}
		}
		t.Op("Get", after, p, "after "+form+" "+o.Name()+" "+o.Arg())
		switch o.Type {
		case "string":
			t.Events["read back string"]++
			s, err := gStr(p...)
			if err != nil || s != o.S {
				t.Soft("C12 GetString after "+o.Name(), "wrote %q read %q %v", clip(o.S), clip(s), err)
			}
		case "float":
			t.Events["read back float"]++
			f, err := rd.gFloat(p...)
			if err != nil || !sameFloat(f, o.F) {
				t.Soft("C12 GetFloat after "+o.Name(), "wrote %v read %v %v", o.F, f, err)
			}
		case "bool":
			t.Events["read back bool"]++
			b, err := rd.gBool(p...)
			if err != nil || b != o.B {
				t.Soft("C12 GetBool after "+o.Name(), "wrote %v read %v %v", o.B, b, err)
			}
		default:
			t.Events["read back int"]++
			want := o.I
			if o.Type[0] == 'u' {
				if o.U > 1<<63-1 {
					break
				}
				want = int64(o.U)
			}
			v, err := rd.gInt(p...)
			if err != nil || int64(v) != want {
				t.Soft("C12 GetInt after "+o.Name(), "wrote %d read %d %v", want, v, err)
			}
		}
		if o.Type != "string" {
			ty, err := jin.GetType(after, p...)
			want := "number"
			if o.Type == "bool" {
				want = "boolean"
			}
			if err != nil || ty != want {
				t.Soft("C12 GetType after "+o.Name(), "got %q %v want %q", ty, err, want)
			}
		}
	}
}
