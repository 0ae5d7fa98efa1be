package main

// Monitor of the formatters: C18.

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/ecoshub/jin"
)

// checkLayout says what is wrong with the layout of an indented document.
func checkLayout(out []byte, root *Node) string {
	if root.Start != 0 || root.End != len(out) {
		return "bytes around the root value"
	}
	// ownLine: only tabs, exactly lvl of them, between the line break and at
	ownLine := func(at, lvl int) bool {
		if at-lvl-1 < 0 || out[at-lvl-1] != '\n' {
			return false
		}
		for i := at - lvl; i < at; i++ {
			if out[i] != '\t' {
				return false
			}
		}
		return true
	}
	type fr struct {
		n   *Node
		lvl int
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		n := x.n
		if n.Parent != nil {
			at := n.Start
			if n.Parent.Kind == KObj {
				at = n.KS - 1
				if bytes.IndexByte(out[n.KE:n.Start], '\n') >= 0 {
					return fmt.Sprintf("line break between a member name and its value: %q", clip(out[n.KS:n.Start]))
				}
			}
			if !ownLine(at, x.lvl) {
				a := max(0, at-x.lvl-5)
				return fmt.Sprintf("a value of level %d is not on a line of its own behind that many tabs: %q", x.lvl, clip(out[a:min(len(out), at+20)]))
			}
			// what follows is the comma or the line break, nothing else
			e := n.End
			if e < len(out) && out[e] == ',' {
				e++
			}
			if e >= len(out) || out[e] != '\n' {
				return fmt.Sprintf("the line goes on behind a value: %q", clip(out[n.Start:min(len(out), e+20)]))
			}
		}
		if n.Container() && len(n.Kids) > 0 {
			if !ownLine(n.End-1, x.lvl) {
				return fmt.Sprintf("the end of a container of level %d is not on its own line: %q", x.lvl, clip(out[max(0, n.End-x.lvl-5):n.End]))
			}
			if out[n.Start+1] != '\n' {
				return "the line goes on behind the start of a container"
			}
		}
		for _, k := range n.Kids {
			st = append(st, fr{k, x.lvl + 1})
		}
	}
	return ""
}

func caseC18(t *T, i int) {
	g := newG(t.R)
	g.dup = g.p(10)
	var v *V
	// indentation of deep documents is quadratic: bounded depth
	lad := ladderUpto(70000)
	if i < len(lad) {
		t.Feat("ladder documents")
		v = g.ladder(lad[i][0], lad[i][1])
	} else if g.p(20) {
		g.style()
		v = g.scalar()
		switch g.n(6) {
		case 0:
			v = vstr(g.filler(g.bigSize(5000)))
		case 1:
			v = vstr(strings.Repeat(`\\`, g.size(40)) + pick(t.R, []string{"", `\"`, " ", ` \" `, "{ }", `\"\\`}))
		}
		t.Feat("scalar root")
	} else {
		v = g.Root(150)
	}
	if i >= len(lad) && g.p(25) {
		// strings that end in escaped backslashes, with blanks right behind
		v = spoilStrings(g, v, 4)
	}
	doc, root := t.DocOf(g, v)
	in := append(make([]byte, 0, len(doc)+g.n(20)), doc...)
	want := RefMinify(doc)

	t.Op("Flatten", doc, nil, nil)
	flat := jin.Flatten(in)
	t.Eval(t.nontriv || len(doc) > 10)
	if !bytes.Equal(flat, want) {
		t.Soft("C18 Flatten", "got %q want %q", clip(flat), clip(want))
		return
	}
	t.Keep("Flatten", flat)
	t.Op("Indent", doc, nil, nil)
	ind := jin.Indent(in)
	t.Eval(t.nontriv || len(doc) > 10)
	t.Keep("Indent", ind)
	ir, err := RefParse(ind)
	if err != nil {
		t.Soft("C18 Indent not well-formed", "got %q", clip(ind))
		return
	}
	if m := RefMinify(ind); !bytes.Equal(m, want) {
		t.Soft("C18 Indent changed the document", "without whitespace: %q want %q", clip(m), clip(want))
		return
	}
	if why := checkLayout(ind, ir); why != "" {
		t.Soft("C18 Indent layout", "%s", why)
		return
	}
	t.Events["lines laid out"] += int64(bytes.Count(ind, []byte{'\n'}))
	if root.Container() {
		t.Events["containers laid out"]++
	}
	same := func(name string, got, want []byte) {
		t.Eval(t.nontriv)
		if !bytes.Equal(got, want) {
			t.Soft("C18 "+name, "got %q want %q", clip(got), clip(want))
		}
	}
	t.Op("Flatten", flat, nil, nil)
	same("Flatten of Flatten", jin.Flatten(flat), want)
	t.Op("Flatten", ind, nil, nil)
	same("Flatten of Indent", jin.Flatten(ind), want)
	t.Op("Indent", ind, nil, nil)
	same("Indent of Indent", jin.Indent(ind), ind)
	t.Op("Indent", flat, nil, nil)
	same("Indent of Flatten", jin.Indent(flat), ind)
	if i%4 == 0 && root.Container() && len(root.Kids) > 0 && len(doc) < 20000 {
		// the layout may not depend on what is around: a part formats the same alone
		n := pick(t.R, t.Nodes(root, 20))
		raw := append([]byte(nil), n.Raw(doc)...)
		t.Op("Flatten", raw, nil, nil)
		same("Flatten of a part", jin.Flatten(raw), RefMinify(raw))
		t.Op("Indent", raw, nil, nil)
		part := jin.Indent(raw)
		pr, err := RefParse(part)
		if err != nil || !bytes.Equal(RefMinify(part), RefMinify(raw)) {
			t.Soft("C18 Indent of a part", "got %q", clip(part))
		} else if why := checkLayout(part, pr); why != "" {
			t.Soft("C18 Indent layout", "%s", why)
		}
	}
}

// spoilStrings ends some strings with escaped backslashes and puts blanks and
// structure characters into them.
func spoilStrings(g *G, v *V, k int) *V {
	ends := []string{`\\`, `\\\\`, `\\\"`, `\" , \"`, ` \\ `, ` : `, "{\\\"a\\\": 1}", `\\\\\\`, `\u005c`, `\\u0022`, "\xc2\xa0", " \t"}
	for i := range v.Kids {
		if v.Kids[i].K == KStr && g.p(60) {
			s := v.Kids[i].Text
			e := pick(g.r, ends)
			if !IsStringContent(e) {
				continue
			}
			v.Kids[i] = vstr(s[1:len(s)-1] + e)
		} else {
			spoilStrings(g, v.Kids[i], k)
		}
		if v.K == KObj && g.p(20) {
			nk := v.Keys[i] + pick(g.r, ends)
			if IsStringContent(nk) && !v.has(nk) {
				v.Keys[i] = nk
			}
		}
	}
	return v
}

func init() {
	register(&Check{ID: "C18", Quick: 1500000, Deep: 22500000, Case: caseC18,
		MinEvents: map[string]int64{"Flatten": 100000, "Indent": 100000, "lines laid out": 500000, "containers laid out": 30000},
		Rule:      "ladders then random documents in every whitespace style, a fifth of them scalars at the root, many strings and names ending in escaped backslashes and quotes or full of whitespace and structure characters; Flatten compared with an independent minifier; Indent parsed by the independent reader: same tokens, every member and element on its own line behind one tab per level, ends of containers too; all compositions of the two and formatting of parts. Non-trivial: document of at least 3 nodes or more than 10 bytes."})
}
