package main

// Independent reference: a strict JSON reader that records byte spans.
// It shares no code with the package under test.

import (
	"bytes"
	"errors"
	"strconv"
)

type Kind byte

const (
	KObj Kind = iota
	KArr
	KStr
	KNum
	KTrue
	KFalse
	KNull
)

func (k Kind) String() string {
	return [...]string{"object", "array", "string", "number", "true", "false", "null"}[k]
}

// Node is a value of a document. Start/End is its raw text (quotes included).
type Node struct {
	Kind       Kind
	Start, End int
	Parent     *Node
	Pos        int    // position in parent
	Key        string // member key as written, without quotes (objects' members)
	KS, KE     int    // key text span without quotes
	Kids       []*Node
	index      map[string]*Node
}

func (n *Node) Container() bool { return n.Kind == KObj || n.Kind == KArr }

// Raw is the value's own text.
func (n *Node) Raw(doc []byte) []byte { return doc[n.Start:n.End] }

// Text is Raw without the quotes of a string.
func (n *Node) Text(doc []byte) []byte {
	if n.Kind == KStr {
		return doc[n.Start+1 : n.End-1]
	}
	return doc[n.Start:n.End]
}

func (n *Node) Step() string {
	if n.Parent != nil && n.Parent.Kind == KArr {
		return strconv.Itoa(n.Pos)
	}
	return n.Key
}

// Path is the list of steps from the root to the node.
func (n *Node) Path() []string {
	d := 0
	for x := n; x.Parent != nil; x = x.Parent {
		d++
	}
	p := make([]string, d)
	for x := n; x.Parent != nil; x = x.Parent {
		d--
		p[d] = x.Step()
	}
	return p
}

func (n *Node) Depth() int {
	d := 0
	for x := n; x.Parent != nil; x = x.Parent {
		d++
	}
	return d
}

// Child finds a member by key or an element by canonical index.
func (n *Node) Child(step string) *Node {
	switch n.Kind {
	case KObj:
		if len(n.Kids) > 8 {
			if n.index == nil {
				n.index = make(map[string]*Node, len(n.Kids))
				for _, k := range n.Kids {
					if _, ok := n.index[k.Key]; !ok {
						n.index[k.Key] = k
					}
				}
			}
			return n.index[step]
		}
		for _, k := range n.Kids {
			if k.Key == step {
				return k
			}
		}
	case KArr:
		i, err := strconv.Atoi(step)
		if err == nil && i >= 0 && i < len(n.Kids) && strconv.Itoa(i) == step {
			return n.Kids[i]
		}
	}
	return nil
}

// Resolve follows a path, nil when it leads nowhere.
func (n *Node) Resolve(path []string) *Node {
	for _, s := range path {
		if n = n.Child(s); n == nil {
			return nil
		}
	}
	return n
}

// All lists every node in document order, root first.
func (n *Node) All() []*Node {
	out := []*Node{}
	stack := []*Node{n}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		out = append(out, x)
		for i := len(x.Kids) - 1; i >= 0; i-- {
			stack = append(stack, x.Kids[i])
		}
	}
	return out
}

var errRef = errors.New("not well-formed JSON")

func wsByte(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' }

func skipWS(b []byte, i int) int {
	for i < len(b) && wsByte(b[i]) {
		i++
	}
	return i
}

// RefParse reads a whole document. Duplicate keys are an error when unique is set.
func RefParse(b []byte) (*Node, error) {
	i := skipWS(b, 0)
	n, i, err := refValue(b, i)
	if err != nil {
		return nil, err
	}
	if skipWS(b, i) != len(b) {
		return nil, errRef
	}
	return n, nil
}

func refString(b []byte, i int) (int, error) {
	// b[i] is the opening quote; returns the offset after the closing one
	i++
	for i < len(b) {
		c := b[i]
		switch {
		case c == '"':
			return i + 1, nil
		case c < 0x20:
			return 0, errRef
		case c == '\\':
			i++
			if i >= len(b) {
				return 0, errRef
			}
			switch b[i] {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
			case 'u':
				if i+4 >= len(b) {
					return 0, errRef
				}
				for k := 1; k <= 4; k++ {
					h := b[i+k]
					if !(h >= '0' && h <= '9' || h >= 'a' && h <= 'f' || h >= 'A' && h <= 'F') {
						return 0, errRef
					}
				}
				i += 4
			default:
				return 0, errRef
			}
		}
		i++
	}
	return 0, errRef
}

func refNumber(b []byte, i int) (int, error) {
	dig := func() bool {
		s := i
		for i < len(b) && b[i] >= '0' && b[i] <= '9' {
			i++
		}
		return i > s
	}
	if i < len(b) && b[i] == '-' {
		i++
	}
	if i < len(b) && b[i] == '0' {
		i++
	} else if !dig() {
		return 0, errRef
	}
	if i < len(b) && b[i] == '.' {
		i++
		if !dig() {
			return 0, errRef
		}
	}
	if i < len(b) && (b[i] == 'e' || b[i] == 'E') {
		i++
		if i < len(b) && (b[i] == '+' || b[i] == '-') {
			i++
		}
		if !dig() {
			return 0, errRef
		}
	}
	return i, nil
}

// IsJSONNumber says whether the whole text is a JSON number token.
func IsJSONNumber(s string) bool {
	e, err := refNumber([]byte(s), 0)
	return err == nil && e == len(s)
}

// IsStringContent says whether s is valid between the quotes of a JSON string.
func IsStringContent(s string) bool {
	e, err := refString([]byte(`"`+s+`"`), 0)
	return err == nil && e == len(s)+2
}

func refScalar(b []byte, i int) (*Node, int, error) {
	if i >= len(b) {
		return nil, 0, errRef
	}
	lit := func(s string, k Kind) (*Node, int, error) {
		if bytes.HasPrefix(b[i:], []byte(s)) {
			return &Node{Kind: k, Start: i, End: i + len(s)}, i + len(s), nil
		}
		return nil, 0, errRef
	}
	switch b[i] {
	case '"':
		e, err := refString(b, i)
		if err != nil {
			return nil, 0, err
		}
		return &Node{Kind: KStr, Start: i, End: e}, e, nil
	case 't':
		return lit("true", KTrue)
	case 'f':
		return lit("false", KFalse)
	case 'n':
		return lit("null", KNull)
	}
	e, err := refNumber(b, i)
	if err != nil {
		return nil, 0, err
	}
	return &Node{Kind: KNum, Start: i, End: e}, e, nil
}

// refValue is iterative so that very deep documents cost no stack.
func refValue(b []byte, i int) (*Node, int, error) {
	var cur *Node // innermost open container
	var key string
	var ks, ke int
	attach := func(n *Node) {
		if cur == nil {
			return
		}
		n.Parent = cur
		n.Pos = len(cur.Kids)
		if cur.Kind == KObj {
			n.Key, n.KS, n.KE = key, ks, ke
		}
		cur.Kids = append(cur.Kids, n)
	}
	readKey := func() error {
		i = skipWS(b, i)
		if i >= len(b) || b[i] != '"' {
			return errRef
		}
		e, err := refString(b, i)
		if err != nil {
			return err
		}
		ks, ke = i+1, e-1
		key = string(b[ks:ke])
		i = skipWS(b, e)
		if i >= len(b) || b[i] != ':' {
			return errRef
		}
		i++
		return nil
	}
	for {
		i = skipWS(b, i)
		if i >= len(b) {
			return nil, 0, errRef
		}
		var done *Node
		switch b[i] {
		case '{', '[':
			n := &Node{Kind: KObj, Start: i}
			closer := byte('}')
			if b[i] == '[' {
				n.Kind = KArr
				closer = ']'
			}
			attach(n)
			cur = n
			i = skipWS(b, i+1)
			if i < len(b) && b[i] == closer {
				i++
				n.End = i
				done = n
				cur = n.Parent
			} else {
				if n.Kind == KObj {
					if err := readKey(); err != nil {
						return nil, 0, err
					}
				}
				continue
			}
		default:
			n, e, err := refScalar(b, i)
			if err != nil {
				return nil, 0, err
			}
			attach(n)
			i = e
			done = n
		}
		// a value is complete: close containers as far as they end here
		for {
			if cur == nil {
				return done, i, nil
			}
			i = skipWS(b, i)
			if i >= len(b) {
				return nil, 0, errRef
			}
			if b[i] == ',' {
				i++
				if cur.Kind == KObj {
					if err := readKey(); err != nil {
						return nil, 0, err
					}
				}
				break
			}
			if cur.Kind == KObj && b[i] == '}' || cur.Kind == KArr && b[i] == ']' {
				i++
				cur.End = i
				done = cur
				cur = cur.Parent
				continue
			}
			return nil, 0, errRef
		}
	}
}

// DupKeys says whether some object of the tree has a key twice.
func DupKeys(root *Node) bool {
	for _, n := range root.All() {
		if n.Kind == KObj {
			seen := make(map[string]bool, len(n.Kids))
			for _, k := range n.Kids {
				if seen[k.Key] {
					return true
				}
				seen[k.Key] = true
			}
		}
	}
	return false
}

// RefMinify drops whitespace outside strings (input must be well-formed).
func RefMinify(b []byte) []byte {
	out := make([]byte, 0, len(b))
	for i := 0; i < len(b); {
		switch {
		case b[i] == '"':
			e, err := refString(b, i)
			if err != nil {
				return append(out, b[i:]...)
			}
			out = append(out, b[i:e]...)
			i = e
		case wsByte(b[i]):
			i++
		default:
			out = append(out, b[i])
			i++
		}
	}
	return out
}

// RefIndent is the layout rule of Indent: every member and element on its own
// line, one tab per level, ": " after keys.
func RefIndent(b []byte) []byte {
	b = RefMinify(b)
	out := make([]byte, 0, len(b)*2)
	level := 0
	nl := func() {
		out = append(out, '\n')
		for k := 0; k < level; k++ {
			out = append(out, '\t')
		}
	}
	for i := 0; i < len(b); {
		switch c := b[i]; c {
		case '"':
			e, err := refString(b, i)
			if err != nil {
				return append(out, b[i:]...)
			}
			out = append(out, b[i:e]...)
			i = e
			continue
		case '{', '[':
			out = append(out, c)
			level++
			nl()
		case '}', ']':
			level--
			nl()
			out = append(out, c)
		case ',':
			out = append(out, c)
			nl()
		case ':':
			out = append(out, ':', ' ')
		default:
			out = append(out, c)
		}
		i++
	}
	return out
}
