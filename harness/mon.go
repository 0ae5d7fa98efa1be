package main

// Per-case monitor context: event counters, verdicts, retention of results.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"unsafe"

	"github.com/ecoshub/jin"
)

type Violation struct {
	Case   int    `json:"case"`
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
}

// T is the monitor of one shard; it is reset for every case.
type T struct {
	formJO *jin.JO     // what runOp worked on
	formPS *jin.Parser // likewise
	Prop   string
	Tier   string
	Seed   uint64
	Case   int
	R      *rand.Rand
	D      *rand.Rand // for the calls in between
	Survey bool
	twins  bool // the document has paths that join to the same text

	// the call under way (read by the watchdog and the panic report)
	nextDisturb int // announced calls until the next call in between, 0: none

	cbErr  error // what the callback of the case returns as an error
	opName string
	opDoc  []byte
	opPath []string
	opArg  any

	Events    map[string]int64 // calls and oracle decisions by name
	Features  map[string]int64 // what the workload looked like
	Evals     int64
	hashes    map[uint64]struct{}
	Samples   []string
	Viol      []Violation
	seenSig   map[string]int
	failed    bool
	retained  []kept
	nontriv   bool
	sampleCap int
	steps     [][]string // paths worth taking in hostile calls
	keys      []string
	pairs     map[uint64]struct{} // pairs of call names seen overlapping
}

type kept struct {
	what string
	got  []byte
	copy []byte
}

// opTick tells the watchdog that another call began.
var opTick atomic.Int64

type stopCase struct{}

func NewT(prop, tier string, seed uint64) *T {
	return &T{Prop: prop, Tier: tier, Seed: seed, Events: map[string]int64{}, Features: map[string]int64{},
		hashes: map[uint64]struct{}{}, pairs: map[uint64]struct{}{}, seenSig: map[string]int{}, sampleCap: 4}
}

func hash64(parts ...[]byte) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for _, c := range p {
			h ^= uint64(c)
			h *= 1099511628211
		}
		h ^= 0xff
		h *= 1099511628211
		h ^= h >> 29
	}
	return h
}

func (t *T) seedFor(i int) (uint64, uint64) {
	a := hash64([]byte(t.Prop), []byte(fmt.Sprint(t.Seed)), []byte(fmt.Sprint(i)))
	return a, a*0x9e3779b97f4a7c15 + uint64(i)
}

// Run executes one case under the monitor.
func (t *T) Run(i int, f func(t *T, i int)) {
	t.Case = i
	a, b := t.seedFor(i)
	t.R = rand.New(rand.NewPCG(a, b))
	t.D = rand.New(rand.NewPCG(b, a))
	t.nextDisturb = 0
	if t.Prop != "C19" && t.Prop != "C20" {
		t.nextDisturb = 1 + t.D.IntN(12)
	}
	t.failed = false
	t.retained = t.retained[:0]
	t.nontriv = false
	t.opName = ""
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				return
			}
			st := string(debug.Stack())
			if !panicInJin(st) || strings.HasPrefix(fmt.Sprint(r), "HARNESS") {
				// a defect of the harness itself must never look like a verdict
				panic(fmt.Sprintf("HARNESS: %v\n%s", r, st))
			}
			func() {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(stopCase); !ok {
							panic(x)
						}
					}
				}()
				t.Fail("panic:"+t.opName, "panic: %v\n%s", r, trimStack(st))
			}()
		}
	}()
	f(t, i)
	t.CheckRetained()
}

// panicInJin says whether the package under test (or the library it called)
// raised the panic, rather than the harness.
func panicInJin(st string) bool {
	seen := false
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen {
			continue
		}
		if strings.HasPrefix(l, "github.com/ecoshub/jin.") {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	out := []string{}
	for i, l := range ls {
		if strings.Contains(l, "ecoshub/jin") && i+1 < len(ls) {
			out = append(out, strings.TrimSpace(l), "  "+strings.TrimSpace(ls[i+1]))
			if len(out) >= 8 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

// Op announces a call: it is what a panic, hang or failure is attributed to.
func (t *T) Op(name string, doc []byte, path []string, arg any) {
	t.opName, t.opDoc, t.opPath, t.opArg = name, doc, path, arg
	opTick.Add(1)
	t.Events[name]++
	if t.nextDisturb > 0 {
		if t.nextDisturb--; t.nextDisturb == 0 {
			t.disturb()
		}
	}
}

// Eval counts one oracle decision about the current op as an evaluation.
func (t *T) Eval(nontrivial bool, extra ...[]byte) {
	t.Evals++
	if nontrivial {
		h := hash64(append(extra, []byte(t.opName), t.opDoc, []byte(strings.Join(t.opPath, "\x00")), argBytes(t.opArg))...)
		t.addHash(h)
		if len(t.Samples) < t.sampleCap && t.Evals > int64(len(t.Samples))*97 && len(t.opDoc) < 400 {
			t.Samples = append(t.Samples, t.describeOp())
		}
	}
}

// EvalAs counts an evaluation whose distinctness is that of the parts.
func (t *T) EvalAs(parts ...[]byte) {
	t.Evals++
	t.addHash(hash64(parts...))
	if len(t.Samples) < t.sampleCap && t.Evals > int64(len(t.Samples)+1)*9973 && len(t.opDoc) < 400 {
		t.Samples = append(t.Samples, t.describeOp())
	}
}

// addHash keeps distinct inputs apart up to a bound per shard, so that the
// count in the evidence is a lower bound.
func (t *T) addHash(h uint64) {
	if len(t.hashes) < 1000000 {
		t.hashes[h] = struct{}{}
	}
}

func argBytes(a any) []byte {
	switch v := a.(type) {
	case nil:
		return nil
	case []byte:
		return v
	case string:
		return []byte(v)
	}
	return []byte(fmt.Sprintf("%v", a))
}

func (t *T) describeOp() string {
	d := t.opDoc
	dots := ""
	if len(d) > 600 {
		d = d[:600]
		dots = fmt.Sprintf("...(%d bytes)", len(t.opDoc))
	}
	a := argBytes(t.opArg)
	if len(a) > 200 {
		a = a[:200]
	}
	p := fmt.Sprintf("%q", t.opPath)
	if len(p) > 300 {
		p = p[:300] + "..."
	}
	return fmt.Sprintf("%s path=%s arg=%q doc=%q%s", t.opName, p, a, d, dots)
}

// Fail records a violation of the property under check and ends the case.
func (t *T) Fail(sig, format string, a ...any) {
	t.seenSig[sig]++
	if t.seenSig[sig] <= 2 || !t.Survey {
		msg := fmt.Sprintf(format, a...)
		if len(msg) > 3000 {
			msg = msg[:3000] + "..."
		}
		t.Viol = append(t.Viol, Violation{Case: t.Case, Sig: sig, Detail: msg + "\n  op: " + t.describeOp()})
	}
	t.failed = true
	panic(stopCase{})
}

// Soft is Fail in normal runs; in a survey the case carries on.
func (t *T) Soft(sig, format string, a ...any) {
	if !t.Survey {
		t.Fail(sig, format, a...)
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(stopCase); !ok {
					panic(x)
				}
			}
		}()
		t.Fail(sig, format, a...)
	}()
}

// Keep retains a result: it must still have the same bytes at the end of the case.
func (t *T) Keep(what string, b []byte) {
	if len(t.retained) < 400 && len(b) < 1<<16 {
		t.retained = append(t.retained, kept{what, b, append([]byte(nil), b...)})
	}
}

// KeepS is Keep for strings (a string built over a reused buffer can change).
func (t *T) KeepS(what string, s string) {
	if s != "" {
		t.Keep(what, unsafe.Slice(unsafe.StringData(s), len(s)))
	}
}

func (t *T) KeepSS(what string, ss []string) {
	for _, s := range ss {
		t.KeepS(what, s)
	}
}

func (t *T) CheckRetained() {
	for _, k := range t.retained {
		if !bytes.Equal(k.got, k.copy) {
			t.Soft("retained:"+k.what, "a result already returned by %s changed from %q to %q", k.what, clip(k.copy), clip(k.got))
		}
	}
	t.retained = t.retained[:0]
}

func clip[B ~[]byte | ~string](b B) string {
	if len(b) > 400 {
		return string(b[:400]) + fmt.Sprintf("...(%d)", len(b))
	}
	return string(b)
}

func (t *T) Feat(name string) { t.Features[name]++ }

func bucket(n int) string {
	switch {
	case n <= 4:
		return fmt.Sprint(n)
	case n <= 8:
		return "5-8"
	case n <= 16:
		return "9-16"
	case n <= 64:
		return "17-64"
	case n <= 256:
		return "65-256"
	case n <= 1024:
		return "257-1024"
	case n <= 4096:
		return "1025-4096"
	}
	return ">4096"
}

// Observe records the shape of a document in the evidence.
func (t *T) Observe(doc []byte, root *Node) {
	maxd, maxw, maxs, esc := 0, 0, 0, false
	type fr struct {
		n *Node
		d int
	}
	st := []fr{{root, 0}}
	nodes := 0
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		nodes++
		if x.d > maxd {
			maxd = x.d
		}
		if x.n.Container() {
			if len(x.n.Kids) > maxw {
				maxw = len(x.n.Kids)
			}
		} else if x.n.Kind == KStr && x.n.End-x.n.Start > maxs {
			maxs = x.n.End - x.n.Start
		}
		for _, k := range x.n.Kids {
			st = append(st, fr{k, x.d + 1})
		}
	}
	esc = bytes.IndexByte(doc, '\\') >= 0
	t.Features["docs"]++
	t.Features["depth "+bucket(maxd)]++
	t.Features["width "+bucket(maxw)]++
	t.Features["longest string "+bucket(maxs)]++
	if esc {
		t.Features["docs with escapes"]++
	}
	t.nontriv = nodes >= 3
}

type ShardResult struct {
	Shard    int              `json:"shard"`
	Cases    int              `json:"cases"`
	Evals    int64            `json:"evals"`
	Events   map[string]int64 `json:"events"`
	Features map[string]int64 `json:"features"`
	Samples  []string         `json:"samples"`
	Viol     []Violation      `json:"violations"`
	Sigs     map[string]int   `json:"sigs"`
	HashFile string           `json:"hash_file"`
	Pairs    []uint64         `json:"pairs"`
}

func jsonOf(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return b
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
