package main

// Supervisor: runs the cases of one property in shard processes, watches them
// and turns what they observed into a verdict and an evidence file.

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

type Check struct {
	ID     string
	Race   bool
	Rule   string
	Level  string
	Ladder func() int // number of deterministic cases
	Quick  int        // number of cases in the quick tier
	Deep   int        // and in the thorough tier
	Case   func(t *T, i int)
	// processes of their own, one call kind each
	Cold                func(t *T, n int) (name string, calls int, bad string)
	QuickCold, DeepCold int
	// what a run must have observed at least, or it is no verdict
	MinEvents map[string]int64
	Assume    []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func (c *Check) total(tier string) int {
	if tier == "thorough" {
		return c.Deep
	}
	return c.Quick
}

var (
	fProp   = flag.String("prop", "", "")
	fTier   = flag.String("tier", "quick", "")
	fSeed   = flag.Uint64("seed", 1, "")
	fShard  = flag.Int("shard", -1, "")
	fShards = flag.Int("shards", 8, "")
	fDir    = flag.String("dir", "", "")
	fOut    = flag.String("out", "", "evidence file")
	fReplay = flag.String("replays", "", "directory for replay files")
	fSurvey = flag.Bool("survey", false, "")
	fOnly   = flag.Int("only", -1, "run one case only")
	fUpto   = flag.Int("upto", -1, "run the cases of a shard up to this one")
	fCold   = flag.Int("cold", -1, "run one cold start only")
	fCases  = flag.Int("cases", 0, "override number of cases")
	fSrc    = flag.String("src", "/repo", "source of the package under test (dictionary)")
	fKnown  = flag.String("known", "", "known findings")
)

const (
	exitFound   = 10 // shard: violation recorded
	exitHang    = 11
	exitBlocked = 12
	exitHeap    = 13
	cpuLimit    = 40 * time.Second
	wallLimit   = 150 * time.Second
	heapLimit   = 2 << 30
)

func main() {
	flag.Parse()
	c := checks[*fProp]
	if c == nil {
		fmt.Fprintln(os.Stderr, "HARNESS: unknown property", *fProp)
		os.Exit(3)
	}
	if *fShard >= 0 {
		shardMain(c)
		return
	}
	if *fCold >= 0 {
		coldMain(c)
		return
	}
	os.Exit(parentMain(c))
}

// ---- shard ----

var progress []byte // mmap: case index + 1

func cpuNow() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var caseStarted atomic.Int64 // case index + 1, 0 when idle

func watchdog(t *T, c *Check) {
	last := int64(-1)
	var cpu0 time.Duration
	var wall0 time.Time
	var ms runtime.MemStats
	limit := cpuLimit
	if c.Race {
		limit *= 4
	}
	for n := 0; ; n++ {
		time.Sleep(100 * time.Millisecond)
		cur := caseStarted.Load()
		if cur != 0 {
			cur += opTick.Load() // grows with every case and call
		}
		if cur != last {
			last, cpu0, wall0 = cur, cpuNow(), time.Now()
		}
		if cur == 0 {
			continue
		}
		code := 0
		if cpuNow()-cpu0 > limit {
			code = exitHang
		} else if time.Since(wall0) > wallLimit && cpuNow()-cpu0 < 2*time.Second {
			code = exitBlocked
		}
		if n%2 == 0 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > heapLimit {
				code = exitHeap
			}
		}
		if code != 0 {
			d := "?"
			if !c.Race {
				d = t.describeOp()
			}
			fmt.Fprintf(os.Stderr, "WATCHDOG op: %s\n", d)
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "%s\n", trimStack(string(buf)))
			os.Exit(code)
		}
	}
}

func shardMain(c *Check) {
	dir := *fDir
	if !c.Race {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	f, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("progress.%d", *fShard)), os.O_RDWR|os.O_CREATE, 0o600)
	if err == nil {
		f.Truncate(4096)
		progress, err = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
	scratch = filepath.Join(dir, fmt.Sprintf("scratch.%d", *fShard))
	if err := os.MkdirAll(scratch, 0o700); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
	t := NewT(c.ID, *fTier, *fSeed)
	t.Survey = *fSurvey
	loadDict(*fSrc)
	go watchdog(t, c)
	total := c.total(*fTier)
	if *fCases > 0 {
		total = *fCases
	}
	n := 0
	for i := *fShard; i < total; i += *fShards {
		if *fOnly >= 0 && i != *fOnly {
			continue
		}
		if *fUpto >= 0 && i > *fUpto {
			break
		}
		binary.LittleEndian.PutUint64(progress, uint64(i+1))
		caseStarted.Store(int64(i + 1))
		t.Run(i, c.Case)
		n++
		if len(t.Viol) > 0 && !t.Survey {
			break
		}
	}
	caseStarted.Store(0)
	hf := filepath.Join(dir, fmt.Sprintf("hashes.%d", *fShard))
	hb := make([]byte, 0, 8*len(t.hashes))
	for h := range t.hashes {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	os.WriteFile(hf, hb, 0o600)
	pairs := make([]uint64, 0, len(t.pairs))
	for h := range t.pairs {
		pairs = append(pairs, h)
	}
	res := ShardResult{Pairs: pairs, Shard: *fShard, Cases: n, Evals: t.Evals, Events: t.Events, Features: t.Features,
		Samples: t.Samples, Viol: t.Viol, Sigs: t.seenSig, HashFile: hf}
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("result.%d", *fShard)), jsonOf(res), 0o600); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
	if len(t.Viol) > 0 {
		os.Exit(exitFound)
	}
	os.Exit(0)
}

// ---- cold starts ----

// coldMain is a process that makes the first calls of the package concurrently.
func coldMain(c *Check) {
	dir, err := os.MkdirTemp(*fDir, "cold")
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
	scratch = dir
	t := NewT(c.ID, *fTier, *fSeed)
	loadDict(*fSrc)
	name, calls, bad := c.Cold(t, *fCold)
	os.RemoveAll(dir)
	if bad != "" {
		fmt.Printf("COLD %s\n%s\n", name, bad)
		os.Exit(exitFound)
	}
	fmt.Printf("COLD %d %s\n", calls, name)
}

func coldStarts(c *Check, exe, dir string, events map[string]int64, kinds map[string]bool) (viols []Violation, harnessErr string) {
	n := c.QuickCold
	if *fTier == "thorough" {
		n = c.DeepCold
	}
	type end struct {
		n    int
		code int
		out  string
		err  error
	}
	ends := make(chan end, n)
	slots := make(chan struct{}, *fShards)
	var stop atomic.Bool
	for k := 0; k < n; k++ {
		go func(k int) {
			slots <- struct{}{}
			defer func() { <-slots }()
			if stop.Load() {
				ends <- end{k, 0, "", nil}
				return
			}
			ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
			defer cancel()
			cmd := exec.CommandContext(ctx, exe, "-prop", c.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-dir", dir, "-src", *fSrc, "-cold", fmt.Sprint(k))
			cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=20", "GOMAXPROCS="+strconv.Itoa(1+k%4))
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			out, err := cmd.CombinedOutput()
			code := 0
			if err != nil {
				code = -1
				if ee, ok := err.(*exec.ExitError); ok {
					code = ee.ExitCode()
				}
			}
			if code != 0 {
				stop.Store(true)
			}
			ends <- end{k, code, string(out), err}
		}(k)
	}
	for k := 0; k < n; k++ {
		e := <-ends
		at := fmt.Sprintf("cold start %d (replay with -cold %d)\n", e.n, e.n)
		switch {
		case e.code == 0:
			if i := strings.Index(e.out, "COLD "); i >= 0 {
				f := strings.SplitN(strings.TrimSpace(e.out[i:]), " ", 3)
				calls, _ := strconv.Atoi(f[1])
				events["cold starts"]++
				events["calls in cold starts compared"] += int64(calls)
				kinds[f[2]] = true
			}
		case e.code == exitFound:
			viols = append(viols, Violation{1<<40 + e.n, "cold", at + tail(e.out, 4000)})
		case e.code == 66:
			viols = append(viols, Violation{1<<40 + e.n, "race", at + "data race\n" + tail(e.out, 6000)})
		case e.code == 2 && (strings.Contains(e.out, "fatal error") || strings.Contains(e.out, "panic")) && !strings.Contains(e.out, "HARNESS") && strings.Contains(e.out, "github.com/ecoshub/jin."):
			viols = append(viols, Violation{1<<40 + e.n, "crash", at + "the process crashed\n" + tail(e.out, 6000)})
		default:
			harnessErr = fmt.Sprintf("cold start %d ended with code %d (%v)\n%s", e.n, e.code, e.err, tail(e.out, 4000))
		}
	}
	return
}

// ---- parent ----

type shardEnd struct {
	shard  int
	code   int
	err    error
	stderr string
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func parentMain(c *Check) int {
	start := time.Now()
	loadDict(*fSrc)
	base := *fDir
	dir, err := os.MkdirTemp(base, "run")
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		return 3
	}
	cov := filepath.Join(dir, "cov")
	os.MkdirAll(cov, 0o700)
	exe, _ := os.Executable()
	total := c.total(*fTier)
	if *fCases > 0 {
		total = *fCases
	}
	ends := make(chan shardEnd, *fShards)
	cmds := make([]*exec.Cmd, *fShards)
	errs := make([]*bytes.Buffer, *fShards)
	for s := 0; s < *fShards; s++ {
		args := []string{"-prop", c.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-shard", fmt.Sprint(s), "-shards", fmt.Sprint(*fShards),
			"-dir", dir, "-src", *fSrc, "-cases", fmt.Sprint(*fCases), "-only", fmt.Sprint(*fOnly), "-upto", fmt.Sprint(*fUpto)}
		if *fSurvey {
			args = append(args, "-survey")
		}
		cmd := exec.Command(exe, args...)
		errs[s] = &bytes.Buffer{}
		cmd.Stderr = errs[s]
		cmd.Stdout = errs[s]
		cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOCOVERDIR="+cov, "GORACE=halt_on_error=1 exitcode=66")
		if !c.Race {
			cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
		} else {
			cmd.Env = append(cmd.Env, "GOMAXPROCS="+strconv.Itoa(2+2*(s%4)))
		}
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS:", err)
			return 3
		}
		cmds[s] = cmd
		go func(s int) {
			err := cmds[s].Wait()
			code := 0
			if err != nil {
				code = -1
				if ee, ok := err.(*exec.ExitError); ok {
					code = ee.ExitCode()
				}
			}
			ends <- shardEnd{s, code, err, ""}
		}(s)
	}
	var viols []Violation
	harnessErr := ""
	killed := false
	for n := 0; n < *fShards; n++ {
		e := <-ends
		e.stderr = errs[e.shard].String()
		at := -1
		if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("progress.%d", e.shard))); err == nil && len(b) >= 8 {
			at = int(binary.LittleEndian.Uint64(b)) - 1
		}
		switch {
		case e.code == 0 || e.code == exitFound:
		case killed && e.code == -1:
		case strings.Contains(e.stderr, "HARNESS"):
			harnessErr = tail(e.stderr, 4000)
		case e.code == exitHang:
			viols = append(viols, Violation{at, "hang", "the call did not return (CPU budget of the case used up)\n" + tail(e.stderr, 3000)})
		case e.code == exitBlocked:
			viols = append(viols, Violation{at, "blocked", "the call did not return (blocked)\n" + tail(e.stderr, 3000)})
		case e.code == exitHeap:
			viols = append(viols, Violation{at, "heap", "memory use out of proportion to the input\n" + tail(e.stderr, 3000)})
		case e.code == 66:
			viols = append(viols, Violation{at, "race", "data race\n" + tail(e.stderr, 6000)})
		case e.code == 2 && (strings.Contains(e.stderr, "fatal error") || strings.Contains(e.stderr, "panic")) && strings.Contains(e.stderr, "github.com/ecoshub/jin."):
			viols = append(viols, Violation{at, "crash", "the process crashed\n" + tail(e.stderr, 6000)})
		default:
			harnessErr = fmt.Sprintf("shard %d ended with code %d (%v) in case %d\n%s", e.shard, e.code, e.err, at, tail(e.stderr, 4000))
		}
		if e.code != 0 && !*fSurvey && !killed && harnessErr == "" {
			killed = true
			for s, cm := range cmds {
				if s != e.shard {
					cm.Process.Kill()
				}
			}
		}
	}
	// merge what the shards observed
	events, feats, sigs := map[string]int64{}, map[string]int64{}, map[string]int{}
	var evals int64
	cases := 0
	samples := []string{}
	distinct := map[uint64]struct{}{}
	pairs := map[uint64]struct{}{}
	for s := 0; s < *fShards; s++ {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result.%d", s)))
		if err != nil {
			continue
		}
		var r ShardResult
		if json.Unmarshal(b, &r) != nil {
			continue
		}
		cases += r.Cases
		evals += r.Evals
		for k, v := range r.Events {
			events[k] += v
		}
		for k, v := range r.Features {
			feats[k] += v
		}
		for k, v := range r.Sigs {
			sigs[k] += v
		}
		if len(samples) < 12 {
			samples = append(samples, r.Samples...)
		}
		viols = append(viols, r.Viol...)
		for _, h := range r.Pairs {
			pairs[h] = struct{}{}
		}
		hb, _ := os.ReadFile(r.HashFile)
		for i := 0; i+8 <= len(hb); i += 8 {
			distinct[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
		}
	}
	coldKinds := map[string]bool{}
	if c.Cold != nil && len(viols) == 0 && harnessErr == "" && !*fSurvey && *fOnly < 0 && *fUpto < 0 && *fCases == 0 {
		v, h := coldStarts(c, exe, dir, events, coldKinds)
		viols = append(viols, v...)
		harnessErr = h
	}
	covPct := ""
	if !c.Race {
		covPct = covPercent(cov)
	}
	os.RemoveAll(dir)
	if len(samples) > 12 {
		samples = samples[:12]
	}
	known := loadKnown(*fKnown, c.ID)
	var bad []Violation
	for _, v := range viols {
		if k, ok := known[v.Sig]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
			continue
		}
		bad = append(bad, v)
	}
	if *fSurvey {
		for _, k := range sortedKeys(sigs) {
			fmt.Printf("%7d  %s\n", sigs[k], k)
			for _, v := range viols {
				if v.Sig == k {
					fmt.Printf("         case %d: %s\n", v.Case, v.Detail)
					break
				}
			}
		}
		for _, v := range viols {
			if _, ok := sigs[v.Sig]; !ok {
				fmt.Printf("      !  %s case %d: %s\n", v.Sig, v.Case, v.Detail)
			}
		}
	}
	cover := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(distinct),
		"rule":                c.Rule,
		"samples":             samples,
		"cases_run":           cases,
		"cases_planned":       total,
		"events":              events,
		"workload":            feats,
		"shards":              *fShards,
		"dictionary":          fmt.Sprintf("%d integers, %d strings, %d characters mined from the source under test", len(dict.Ints), len(dict.Strs), len(dict.Bytes)),
	}
	if len(pairs) > 0 {
		cover["distinct_overlapping_pairs_of_calls"] = len(pairs)
	}
	if len(coldKinds) > 0 {
		cover["kinds_of_calls_in_cold_starts"] = len(coldKinds)
	}
	if covPct != "" {
		cover["statement_coverage_of_jin"] = covPct
	}
	ev := map[string]any{
		"property": c.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"coverage": cover, "assumptions": c.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(bad),
	}
	if *fOut != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(*fOut, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS:", err)
			return 3
		}
	}
	if len(bad) > 0 {
		sort.SliceStable(bad, func(i, j int) bool { return bad[i].Case < bad[j].Case })
		v := bad[0]
		path := "none"
		if *fReplay != "" {
			os.MkdirAll(*fReplay, 0o755)
			path = filepath.Join(*fReplay, c.ID+".txt")
			txt := fmt.Sprintf("property %s\nsignature %s\ncase %d\nreplay: cd /verif && ./check.sh %s %s -only %d   (seed %d; with history of the shard: -upto %d)\n\n%s\n", c.ID, v.Sig, v.Case, c.ID, *fTier, v.Case, *fSeed, v.Case, v.Detail)
			os.WriteFile(path, []byte(txt), 0o644)
		}
		fmt.Printf("%s\n", tail(v.Detail, 6000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		return 1
	}
	if harnessErr != "" {
		fmt.Fprintln(os.Stderr, "ERROR of the check (no verdict):", harnessErr)
		return 3
	}
	if *fOnly < 0 && *fUpto < 0 && *fCases == 0 {
		for _, k := range sortedKeys(c.MinEvents) {
			if events[k] < c.MinEvents[k] {
				fmt.Fprintf(os.Stderr, "ERROR of the check: only %d %s events observed, want %d\n", events[k], k, c.MinEvents[k])
				return 3
			}
		}
		if cases != total {
			fmt.Fprintf(os.Stderr, "ERROR of the check: %d of %d cases run\n", cases, total)
			return 3
		}
	}
	fmt.Printf("%s %s: held on %d evaluations (%d distinct non-trivial), %d cases, %.1f s, coverage %s\n", c.ID, *fTier, evals, len(distinct), cases, time.Since(start).Seconds(), covPct)
	return 0
}

func covPercent(dir string) string {
	out, err := exec.Command("go", "tool", "covdata", "percent", "-i="+dir).CombinedOutput()
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(out), "\n") {
		if strings.Contains(l, "ecoshub/jin") {
			if i := strings.Index(l, "coverage:"); i >= 0 {
				return strings.TrimSpace(l[i+9:])
			}
		}
	}
	return ""
}

// loadKnown reads the "finding:" lines of the known-findings file:
// finding: property=<id> sig=<signature> <what fails>
func loadKnown(file, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 3 || f[1] != "property="+id || !strings.HasPrefix(f[2], "sig=") {
			continue
		}
		m[strings.TrimPrefix(f[2], "sig=")] = strings.Join(f[3:], " ")
	}
	return m
}
