package main

// Calls in between: jin's functions keep nothing between calls, so what a call
// answers must not depend on the calls before it, failed ones in particular.
// Between the judged calls of a case the monitor makes unrelated ones, many of
// them failing. They are not judged (C19 judges such calls), a panic in one is
// dropped; the oracles of the judged calls decide.

import (
	"math/rand/v2"

	"github.com/ecoshub/jin"
)

var disturbDocs = []string{
	`{"a":[1,2],"b":{"c":"d"}}`, `[1,[2,{"a":3}],"x"]`, `{"a":{"a":{"a":[[],{}]}},"b":"\"[{"}`, `[[1,2],[3,4]]`, `{}`, `[]`, ` [ ] `, `{"":""}`,
	`{"k":"v","a":[{"x":1},{"x":2},{"x":"y,z"}],"c":null}`, `["a","b","c"]`, `[true,false,null,1.5e3]`, `{"a":"x\\","b":"\\\"","c":1}`,
	"{\n\t\"a\": 1,\r\n\t\"b\": [\n 1 ,\n 2 ]\n}", `{"a":1`, `[1,2`, `{"a":"b`, `{"a"`, `{a:1}`, `[1 2]`, `{"a":}`, `[,]`, `{,}`, `]`, `}`, `"`, `"abc"`, `1`, ``, ` `,
	`{"a":[1,2}`, `[{"a":1]`, `{"a":"\`, `[[[[[[[[`, `{"a":{"a":{"a":`, `[1,"a]`, `{:}`, `{"a":1,}`, `[1,]`, `nul`, "\x00\xff", `{"a":1}{"b":2}`, `[1][2]`,
}

var disturbPaths = [][]string{
	nil, {"a"}, {"0"}, {"1"}, {"b"}, {"2"}, {"a", "1"}, {"a", "0"}, {"a", "9"}, {"a", "1", "x"}, {"a", "0", "x"}, {"b", "c"}, {"b", "c", "d"}, {"b", "x"}, {"-1"}, {"a", "-1"}, {"a", "x"},
	{"1", "1", "a"}, {"1", "0", "a"}, {"2", "0"}, {"a", "a", "a", "0"}, {"a", "a", "a", "1", "z"}, {"0", "0", "0"}, {""}, {"zz"}, {"99"}, {"k", "v"}, {"a", "1", "x", "y"}, {"c", "0"}, {"a", "2", "x"},
}

var disturbNames = []string{"Get", "GetInt", "GetFloat", "GetBool", "GetStringArray", "GetIntArray", "GetKeys", "GetKeysValues", "GetMap", "GetAll", "Length", "IsEmpty", "GetType", "IterateArray", "IterateKeyValue", "Walk", "Set", "SetKey", "Store", "AddKeyValue", "Add", "Insert", "Delete", "Parse", "Indent", "Flatten", "Make", "ParseArray", "JO", "Scheme"}

// nextDisturb counts the announced calls down to the next disturbance.
func (t *T) disturb() {
	r := t.D
	t.nextDisturb = 1 + r.IntN(40)
	for k := 1 + r.IntN(2); k > 0; k-- {
		t.Events["calls in between"]++
		oneDisturbance(r)
	}
}

func oneDisturbance(r *rand.Rand) {
	defer func() { recover() }()
	doc := []byte(pick(r, disturbDocs))
	path := append([]string(nil), pick(r, disturbPaths)...)
	stop := r.IntN(3)
	how := r.IntN(6)
	cb := func() (bool, error) {
		stop--
		if stop < 0 && how == 0 {
			panic("a callback gives up")
		}
		return stop != 0 || how == 0, nil
	}
	val := []byte(pick(r, []string{"1", `"x"`, `{"q":[1]}`, "[]", "null"}))
	switch pick(r, disturbNames) {
	case "Get":
		jin.Get(doc, path...)
	case "GetInt":
		jin.GetInt(doc, path...)
	case "GetFloat":
		jin.GetFloat(doc, path...)
	case "GetBool":
		jin.GetBool(doc, path...)
	case "GetStringArray":
		jin.GetStringArray(doc, path...)
	case "GetIntArray":
		jin.GetIntArray(doc, path...)
	case "GetKeys":
		jin.GetKeys(doc, path...)
	case "GetKeysValues":
		jin.GetKeysValues(doc, path...)
		jin.GetValues(doc, path...)
	case "GetMap":
		jin.GetMap(doc, path...)
	case "GetAll":
		jin.GetAll(doc, []string{"a", "x"}, path...)
		jin.GetAllMap(doc, []string{"a", "b"}, path...)
	case "Length":
		jin.Length(doc, path...)
	case "IsEmpty":
		jin.IsEmpty(doc, path...)
		jin.IsObject(doc, path...)
	case "GetType":
		jin.GetType(doc, path...)
	case "IterateArray":
		jin.IterateArray(doc, func(v []byte) (bool, error) { return cb() }, path...)
	case "IterateKeyValue":
		jin.IterateKeyValue(doc, func(k, v []byte) (bool, error) { return cb() }, path...)
	case "Walk":
		jin.Walk(doc, func(k string, v []byte, p []string) (bool, error) { return cb() })
	case "Set":
		jin.Set(doc, val, path...)
	case "SetKey":
		jin.SetKey(doc, "q", path...)
	case "Store":
		jin.Store(doc, "a", val, path...)
	case "AddKeyValue":
		jin.AddKeyValue(doc, "q", val, path...)
	case "Add":
		jin.Add(doc, val, path...)
	case "Insert":
		jin.Insert(doc, r.IntN(3), val, path...)
	case "Delete":
		jin.Delete(doc, path...)
	case "Parse":
		p, err := jin.Parse(doc)
		if err == nil {
			p.Get(path...)
			p.Set(val, path...)
			p.Delete(path...)
			p.GetNew()
		}
	case "Indent":
		jin.Indent(doc)
	case "Flatten":
		jin.Flatten(doc)
	case "Make":
		jin.MakeArray(1, "x", true, 2.5)
		jin.MakeArrayInt([]int{4, 5, 6})
		jin.MakeArrayString([]string{"p", "q"})
		jin.MakeJsonString([]string{"a", "b"}, []string{"1", "x"})
		jin.MakeJson([]string{"a"}, []interface{}{1, 2})
	case "ParseArray":
		jin.ParseArray(string(doc))
	case "JO":
		j := jin.New(doc)
		j.Get(path...)
		j.Store("q", val, path...)
		j.GetKeys(path...)
		j.Delete(path...)
	case "Scheme":
		s := jin.MakeScheme("a", "b")
		s.MakeJson(1, 2)
		s.MutateJson(doc)
		s.CheckAbs(doc)
		s.Remove("a")
		s.Restore()
	}
}
