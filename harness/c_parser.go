package main

// Monitors of the parsed form: C15, C16.

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/ecoshub/jin"
)

// matchTree compares a tree rendering with the document it should show.
// Whitespace around the value texts of the full form is free.
func matchTree(got string, doc []byte, root *Node, full bool) string {
	type item struct {
		n *Node
		d int
	}
	items := []item{}
	st := []item{{root, -1}}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x.n != root {
			items = append(items, x)
		}
		for i := len(x.n.Kids) - 1; i >= 0; i-- {
			st = append(st, item{x.n.Kids[i], x.d + 1})
		}
	}
	rest := got
	for i, it := range items {
		pre := "─ "
		if it.d > 0 {
			pre = strings.Repeat("\t", it.d) + "└  "
		}
		lab := it.n.Step()
		if full {
			lab = fmt.Sprintf("%-6v", lab) + " :"
		}
		if !strings.HasPrefix(rest, pre+lab) {
			return fmt.Sprintf("item %d (%q at depth %d) is not where it belongs, found %q", i, clip(it.n.Step()), it.d, clip(rest))
		}
		rest = rest[len(pre)+len(lab):]
		if full {
			rest = strings.TrimLeft(rest, " \t\r\n")
			raw, txt := string(it.n.Raw(doc)), string(it.n.Text(doc))
			switch {
			case strings.HasPrefix(rest, raw):
				rest = rest[len(raw):]
			case strings.HasPrefix(rest, txt):
				rest = rest[len(txt):]
			default:
				return fmt.Sprintf("item %d (%q) shows %q want %q", i, clip(it.n.Step()), clip(rest), clip(raw))
			}
		}
		run := rest[:len(rest)-len(strings.TrimLeft(rest, " \t\r\n"))]
		end := "\n"
		if i+1 < len(items) && items[i+1].d > 0 {
			end += strings.Repeat("\t", items[i+1].d)
		}
		if !strings.HasSuffix(run, end) || !full && run != end {
			return fmt.Sprintf("item %d (%q) is not on a line of its own or the next is at the wrong depth: %q", i, clip(it.n.Step()), clip(rest))
		}
		rest = rest[len(run)-len(end)+1:]
	}
	if rest != "" {
		return fmt.Sprintf("items shown that the document does not have: %q", clip(rest))
	}
	return ""
}

func treeCost(doc []byte, root *Node) int {
	c := 0
	for _, n := range root.All() {
		c += n.End - n.Start
		if c > 1<<22 {
			break
		}
	}
	return c
}

// typedMiss asks every typed reader of a parsed form for a path that is not there.
func (t *T) typedMiss(prop string, doc []byte, p []string, ps *jin.Parser) {
	rd := parsedReader(prop, ps)
	for _, c := range []struct {
		name string
		f    func() error
	}{
		{"GetInt", func() error { _, err := rd.gInt(p...); return err }},
		{"GetFloat", func() error { _, err := rd.gFloat(p...); return err }},
		{"GetBool", func() error { _, err := rd.gBool(p...); return err }},
		{"GetStringArray", func() error { _, err := rd.gStrs(p...); return err }},
		{"GetIntArray", func() error { _, err := rd.gInts(p...); return err }},
		{"GetFloatArray", func() error { _, err := rd.gFloats(p...); return err }},
		{"GetBoolArray", func() error { _, err := rd.gBools(p...); return err }},
	} {
		t.Op("Parser."+c.name, doc, p, "missing")
		err := c.f()
		t.Eval(t.nontriv)
		if err == nil {
			t.Soft(prop+" Parser."+c.name+" of a missing path", "answered")
		}
	}
}

// checkParser compares what a parsed form answers with the document it should hold.
func (t *T) checkParser(prop string, ps *jin.Parser, doc []byte, root *Node, nodes []*Node, misses int, tree bool) {
	t.Op("Parser.JSON", doc, nil, nil)
	if !bytes.Equal(ps.JSON(), doc) {
		t.Soft(prop+" JSON", "JSON() is %q", clip(ps.JSON()))
	}
	for _, n := range nodes {
		p := t.spare(n.Path())
		want := n.Text(doc)
		if n == root {
			want = doc
		}
		t.Op("Parser.Get", doc, p, nil)
		got, err := ps.Get(p...)
		t.Eval(t.nontriv)
		if err != nil || !bytes.Equal(got, want) {
			t.Soft(prop+" Get", "got %q %v want %q", clip(got), err, clip(want))
		}
		t.Keep("Parser.Get", got)
		t.Op("Parser.GetString", doc, p, nil)
		s, err := ps.GetString(p...)
		t.Eval(t.nontriv)
		if err != nil || s != string(want) {
			t.Soft(prop+" GetString", "got %q %v want %q", clip(s), err, clip(want))
		}
		t.Op("Parser.GetNew", doc, p, nil)
		gn := ps.GetNew(p...)
		t.Eval(t.nontriv)
		if n.Container() {
			if !bytes.Equal(RefMinify(gn), RefMinify(n.Raw(doc))) {
				t.Soft(prop+" GetNew", "got %q want %q", clip(gn), clip(n.Raw(doc)))
			}
		} else if !bytes.Equal(gn, want) {
			t.Soft(prop+" GetNew", "got %q want %q", clip(gn), clip(want))
		}
		t.Keep("Parser.GetNew", gn)
	}
	rd := parsedReader(prop, ps)
	for q := 0; q < 3; q++ {
		checkTyped(t, doc, pick(t.R, nodes), rd)
	}
	for k := 0; k < misses; k++ {
		m, ok := t.missing(doc, root, pick(t.R, nodes), nodes)
		if !ok {
			continue
		}
		p := t.spare(m.path)
		t.Events["missing paths"]++
		t.Op("Parser.Get", doc, p, "missing")
		got, err := ps.Get(p...)
		t.Eval(t.nontriv)
		if err == nil {
			t.Soft(prop+" Get of a missing path", "answered %q", clip(got))
		}
		t.Op("Parser.GetString", doc, p, "missing")
		s, err := ps.GetString(p...)
		t.Eval(t.nontriv)
		if err == nil || s != "" {
			t.Soft(prop+" GetString of a missing path", "answered %q %v", clip(s), err)
		}
		t.Op("Parser.GetNew", doc, p, "missing")
		if gn := ps.GetNew(p...); len(gn) != 0 {
			t.Soft(prop+" GetNew of a missing path", "answered %q", clip(gn))
		}
		if k == 0 {
			t.typedMiss(prop, doc, p, ps)
		}
	}
	small := len(doc) < 8000
	if !small && prop == "C15" && t.R.IntN(4) == 0 { // the rendering of large documents
		small = treeCost(doc, root)/100*len(root.All()) < 2e7
	}
	if tree && small && (len(doc) >= 8000 || treeCost(doc, root) < 60000) {
		t.Events["trees"]++
		if len(doc) >= 8000 {
			t.Events["trees of large documents"]++
		}
		t.Op("Parser.Tree", doc, nil, nil)
		if why := matchTree(ps.Tree(), doc, root, false); why != "" {
			t.Soft(prop+" Tree", "%s", why)
		}
		t.Eval(t.nontriv)
		t.Op("Parser.TreeFull", doc, nil, nil)
		if why := matchTree(ps.TreeFull(), doc, root, true); why != "" {
			t.Soft(prop+" TreeFull", "%s", why)
		}
		t.Eval(t.nontriv)
	}
}

func caseC15(t *T, i int) {
	g := newG(t.R)
	lad := ladderUpto(9000)
	var doc []byte
	var root *Node
	if i < len(lad) {
		t.Feat("ladder documents")
		doc, root = t.DocOf(g, g.ladder(lad[i][0], lad[i][1]))
	} else if i%1493 == 11 {
		l := pick(t.R, ladderOver)
		t.Feat("documents of ladders over 9000")
		doc, root = t.DocOf(g, g.ladder(l[0], l[1]))
	} else if i%6 == 0 {
		doc, root = t.DocOf(g, g.typedDoc(100))
	} else {
		doc, root = t.DocG(g, len(ladderList)+i, 300)
	}
	buf := append([]byte(nil), doc...)
	t.Op("Parse", doc, nil, nil)
	ps, err := jin.Parse(buf)
	t.Eval(t.nontriv)
	if err != nil {
		t.Soft("C15 Parse refused", "error %v", err)
		return
	}
	k := 24
	if len(doc) > 20000 {
		k = 10
	}
	nodes := t.Nodes(root, k)
	t.checkParser("C15", ps, doc, root, nodes, 6, true)
	// the two forms on the same path
	for q := 0; q < 4; q++ {
		p := pick(t.R, nodes).Path()
		t.Op("Parser.Get", doc, p, "against Get")
		a, e1 := ps.Get(p...)
		b, e2 := jin.Get(doc, p...)
		t.Eval(t.nontriv)
		if (e1 == nil) != (e2 == nil) || !bytes.Equal(a, b) {
			t.Soft("C15 Get differs from the plain Get", "parsed %q %v plain %q %v", clip(a), e1, clip(b), e2)
		}
	}
	// a second parser must not disturb the first
	if t.R.IntN(4) == 0 {
		d2, r2 := t.DocG(g, len(ladderList)+i, 60)
		t.Op("Parse", d2, nil, nil)
		p2, err := jin.Parse(d2)
		if err != nil {
			t.Soft("C15 Parse refused", "error %v", err)
			return
		}
		t.checkParser("C15", p2, d2, r2, t.Nodes(r2, 8), 1, false)
		t.checkParser("C15", ps, doc, root, t.Nodes(root, 4), 1, false)
	}
}

// ---- C16 ----

// repeatedNames edits parsed forms of documents that repeat a name within an
// object: a path means the first member of that name, for reads and for edits.
func (t *T) repeatedNames(i int) {
	g := newG(t.R)
	g.dup = true
	doc, root := t.DocG(g, len(ladderList)+i, 30)
	model := append([]byte(nil), doc...)
	t.Op("Parse", doc, nil, "repeated names")
	ps, err := jin.Parse(doc)
	if err != nil {
		t.Soft("C16 Parse refused", "error %v", err)
		return
	}
	t.nontriv = true
	hist := ""
	for k := 1 + g.n(5); ; k-- {
		first := []*Node{}
		for _, n := range root.All() {
			if n.Parent != nil && root.Resolve(n.Path()) == n {
				first = append(first, n)
			}
		}
		for j := 0; j < 12 && len(first) > 0; j++ {
			n := pick(t.R, first)
			t.Op("Parser.Get", model, n.Path(), "repeated names, after "+hist)
			got, err := ps.Get(n.Path()...)
			t.Eval(true)
			if err != nil || !bytes.Equal(got, n.Text(model)) {
				t.Soft("C16 Get among repeated names", "got %q %v want %q", clip(got), err, clip(n.Text(model)))
				return
			}
		}
		if got := ps.GetNew(); !bytes.Equal(RefMinify(got), RefMinify(model)) {
			t.Soft("C16 GetNew among repeated names", "got %q want %q", clip(got), clip(model))
			return
		}
		if k == 0 || len(first) == 0 {
			return
		}
		n := pick(t.R, first)
		if twin := repeated(first); twin != nil && g.p(60) {
			n = twin
		}
		p := t.spare(n.Path())
		t.Events["edits among repeated names"]++
		var want []byte
		var e1, e2 error
		if g.p(60) {
			hist += fmt.Sprintf(" Delete%q", p)
			t.Op("Parser.Delete", model, p, "repeated names, after "+hist)
			e1 = ps.Delete(p...)
			want, e2 = jin.Delete(append([]byte(nil), model...), p...)
		} else {
			v := []byte(pick(t.R, []string{"1", `"v"`, `[1,"x"]`, `{"a":2}`, "null"}))
			hist += fmt.Sprintf(" Set%q", p)
			t.Op("Parser.Set", model, p, "repeated names, after "+hist)
			e1 = ps.Set(v, p...)
			want, e2 = jin.Set(append([]byte(nil), model...), v, p...)
		}
		if e1 != nil || e2 != nil {
			t.Soft("C16 edit among repeated names refused", "parsed form: %v, plain: %v", e1, e2)
			return
		}
		if got := ps.JSON(); !bytes.Equal(got, want) {
			t.Soft("C16 edit among repeated names", "parsed form holds %q, plain function gives %q", clip(got), clip(want))
			return
		}
		model = want
		if root, err = RefParse(model); err != nil {
			t.Soft("C16 edit among repeated names not well-formed", "the document became %q", clip(model))
			return
		}
	}
}

// repeated finds a member whose name comes up again in its object.
func repeated(ns []*Node) *Node {
	for _, n := range ns {
		if n.Parent.Kind == KObj {
			for _, k := range n.Parent.Kids {
				if k != n && k.Key == n.Key {
					return n
				}
			}
		}
	}
	return nil
}

func caseC16(t *T, i int) {
	if i%25 == 8 {
		t.repeatedNames(i)
		return
	}
	g := newG(t.R)
	lad := ladderUpto(70)
	var doc []byte
	var root *Node
	long := false
	switch {
	case i < len(lad):
		t.Feat("ladder documents")
		doc, root = t.DocOf(g, g.ladder(lad[i][0], lad[i][1]))
	case i%53 == 0: // large or deep
		l := pick(t.R, ladderUpto(1100))
		t.Feat("ladder documents")
		doc, root = t.DocOf(g, g.ladder(l[0], l[1]))
	case i%499 == 11:
		l := pick(t.R, ladderBig)
		if g.p(30) {
			l = pick(t.R, ladderOver)
		}
		t.Feat("documents of ladders over 1100")
		doc, root = t.DocOf(g, g.ladder(l[0], l[1]))
	case i%31 == 0: // many members, one or two levels down
		g.style()
		v := g.wideObj(g.size(600), g.p(50))
		if g.p(50) {
			v = g.wideArr(g.size(600), g.p(50))
		}
		for g.p(40) {
			v = g.wrap(v)
		}
		doc, root = t.DocOf(g, v)
	case i%5 == 0: // small start, long history
		long = true
		g.style()
		v := pick(t.R, []*V{{K: KObj}, {K: KArr}, varr(vnum("1")), varr(varr()), varr(&V{K: KObj}), varr(vstr("a"), vnum("2"))})
		if g.p(30) {
			o := &V{K: KObj}
			o.add("a", v)
			v = o
		}
		doc, root = t.DocOf(g, v)
	default:
		doc, root = t.DocG(g, len(ladderList)+i, 40)
	}
	g.noEmptyKey = true
	t.Op("Parse", doc, nil, nil)
	ps, err := jin.Parse(append([]byte(nil), doc...))
	if err != nil {
		t.Soft("C16 Parse refused", "error %v", err)
		return
	}
	steps := 1 + g.n(10)
	if long {
		steps = 10 + g.n(40)
	}
	if len(doc) > 4000 {
		steps = 1 + g.n(3)
	}
	hist := []string{}
	done, refused := 0, 0
	t.nontriv = true
	for k := 0; k < steps; k++ {
		all := root.All()
		kind := pick(t.R, []string{"set", "set", "addkv", "addkv", "add", "add", "insert", "insert", "setkey", "delete", "delete"})
		if len(all) > 120 && g.p(50) {
			kind = "delete"
		}
		o, ok := t.randOp(g, kind, doc, root, all, smallOr(kind), 18)
		if !ok {
			continue
		}
		if o.Type == "raw" && o.Raw != nil && g.p(50) { // containers, often with scalars and empties inside
			g.ws = g.n(4)
			o.Raw = g.render(nil, g.container(1+g.n(3), ptr(1+g.n(8)), g.p(50)), 0)
			if g.p(6) {
				o.Raw = append(append([]byte(pick(t.R, wsSets)), o.Raw...), pick(t.R, wsSets)...)
			}
		}
		t.inside(o, doc, all)
		eff := o.Ref(doc, root, o.Path)
		arg := o.Arg()
		var val []byte
		if o.From != nil {
			t.Events["values inside the document"]++
			val = o.Raw
			o.Raw = ps.JSON()[o.From.Start:o.From.End]
			if x, err := ps.Get(o.From.Path()...); g.p(50) && err == nil && o.From.Kind != KStr && o.From.Parent != nil {
				o.Raw = x
			}
		} else if o.Raw != nil {
			val = o.Raw
			o.Raw = append([]byte(nil), val...)
		}
		p := t.spare(o.Path)
		hist = append(hist, fmt.Sprintf("%s%q %s", o.Name(), o.Path, clip(arg)))
		before := doc
		t.Op("Parser."+o.Name(), before, o.Path, arg+" history "+strings.Join(hist[max(0, len(hist)-6):], " | "))
		err := o.On(ps, p)
		if o.From != nil {
			o.Raw = val
		} else if o.Raw != nil { // the caller uses its buffer again
			for j := range o.Raw {
				o.Raw[j] = "x}],\"5"[j%6]
			}
			o.Raw = val
		}
		t.Eval(len(hist) > 1, []byte(fmt.Sprint(len(hist))))
		after := ps.JSON()
		t.Keep("Parser.JSON", after)
		name := "Parser." + o.Name()
		// the plain form of the same edit
		pd, perr := o.Plain(append([]byte(nil), before...), o.Path)
		if (err == nil) != (perr == nil) {
			t.Soft("C16 "+name+" disagrees with the plain function", "parsed form: %v, plain: %v", err, perr)
		}
		if !eff.OK {
			refused++
			t.Events["refused"]++
			if err == nil {
				t.Soft("C16 "+name+" accepted", "an impossible edit was accepted, result %q", clip(after))
				return
			}
			if !bytes.Equal(after, before) {
				t.Soft("C16 "+name+" refused but changed", "error %v but the document became %q", err, clip(after))
				return
			}
		} else {
			done++
			t.Events["accepted "+eff.Kind]++
			if err != nil {
				t.Soft("C16 "+name+" refused", "error %v", err)
				return
			}
			if why := o.checkEffect(before, after, eff); why != "" {
				t.Soft("C16 "+name+": "+firstWords(why), "%s: result %q", why, clip(after))
				return
			}
			if o.Type != "string" && perr == nil && !bytes.Equal(RefMinify(pd), RefMinify(after)) {
				t.Soft("C16 "+name+" result differs from the plain function", "parsed %q plain %q", clip(after), clip(pd))
			}
		}
		doc = append([]byte(nil), after...)
		var perr2 error
		root, perr2 = RefParse(doc)
		if perr2 != nil {
			t.Soft("C16 "+name+" not well-formed", "the document became %q", clip(doc))
			return
		}
		// read back: the whole of a small document, else a sample with the
		// edited place and its surroundings
		nodes := root.All()
		if len(nodes) > 30 {
			keep := []*Node{root}
			if c := root.Resolve(eff.Cont); c != nil && eff.OK {
				for x := c; x != nil; x = x.Parent {
					keep = append(keep, x)
				}
				for j := 0; j < len(c.Kids); j += 1 + len(c.Kids)/8 {
					keep = append(keep, c.Kids[j])
				}
				if len(c.Kids) > 0 {
					keep = append(keep, c.Kids[len(c.Kids)-1])
				}
			}
			nodes = append(keep, t.Nodes(root, 8)...)
		}
		t.checkParser("C16 after "+o.Name(), ps, doc, root, nodes, 2, g.p(35) || k == steps-1)
		if eff.OK && o.Kind == "delete" || o.Kind == "setkey" && eff.OK { // the old path is gone or means the next element
			n := root.Resolve(o.Path)
			t.Op("Parser.Get", doc, o.Path, "old path")
			got, err := ps.Get(o.Path...)
			t.Eval(true)
			if n == nil && err == nil || n != nil && (err != nil || !bytes.Equal(got, n.Text(doc))) {
				t.Soft("C16 Get of the old path", "got %q %v", clip(got), err)
			}
		}
	}
	t.Feat("edits per history " + bucket(done))
	t.Feat("refusals per history " + bucket(refused))
	if len(hist) >= 3 {
		t.Events["histories of 3 or more edits"]++
	}
}

func ptr[X any](x X) *X { return &x }

func init() {
	register(&Check{ID: "C15", Quick: 450000, Deep: 6750000, Case: caseC15,
		MinEvents: map[string]int64{"Parse": 30000, "Parser.Get": 300000, "Parser.GetNew": 300000, "missing paths": 50000, "trees": 20000, "Parser.TreeFull": 20000, "Parser.GetInt": 50000, "Parser.GetFloatArray": 5000},
		Rule:      "ladders and random documents as in C01; up to 24 nodes per document read through Get, GetString and GetNew, three of them through every typed reader, missing paths as in C02, the plain lookup on the same path, Tree and TreeFull matched line by line with the reference tree, a second parser alive at the same time. Non-trivial: document of at least 3 nodes."})
	register(&Check{ID: "C16", Quick: 150000, Deep: 3000000, Case: caseC16,
		MinEvents: map[string]int64{"accepted set": 10000, "accepted setkey": 2000, "accepted addkv": 10000, "accepted add": 5000, "accepted insert": 3000, "accepted delete": 10000, "refused": 10000, "histories of 3 or more edits": 10000, "trees": 10000, "edits among repeated names": 3000},
		Rule:      "edit histories of 1-50 random set/rename/add/insert/add-key-value/delete calls, typed and raw, about 18% of them impossible, on parsed forms of random and of tiny documents; after every call the held document is compared with the reference effect and with the plain function, and the parsed form's answers (paths around the edit, random paths, the removed or renamed path, missing paths, root, tree renderings) with the reference reading of the held document; buffers passed as values are overwritten after the call. Documents that repeat a name within an object: set and delete, the held document against the plain function and every first member of a name read back. Non-trivial: not the first call of a history."})
}
