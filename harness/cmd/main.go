// Command zrun decides one property: "zrun check" shards the cases over child
// processes ("zrun child"), "zrun one" runs a single case in isolation,
// "zrun replay" re-runs a replay file.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/henderiw/idxtable/zverif/pbt"
	"github.com/henderiw/idxtable/zverif/props"
)

type failInfo struct {
	Index   int
	Kind    string
	Msg     string
	Trace   string
	Choices []uint64
	Shrunk  bool
}

type shardOut struct {
	Cases      int
	Discarded  int
	Nontrivial int
	Labels     map[string]int
	Samples    []string
	Fail       *failInfo
	Spans      [][2]int
	MaxUsed    float64
	MaxSteps   map[string]uint64 // per history length factor
}

type replayFile struct {
	Property string   `json:"property"`
	Kind     string   `json:"kind"`
	Message  string   `json:"message"`
	History  []string `json:"history"`
	Choices  []uint64 `json:"choices"`
	Seed     int64    `json:"seed"`
	Case     int      `json:"case"`
	Command  string   `json:"replay_command"`
}

func die(f string, a ...any) {
	fmt.Printf("ERROR "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: zrun check|child|one|replay|list")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	id := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Int64("seed", 1, "seed")
	verif := fs.String("verif", "/verif", "verif dir")
	work := fs.String("work", "", "scratch dir")
	shard := fs.Int("shard", 0, "")
	nsh := fs.Int("shards", 8, "")
	cases := fs.Int("cases", 0, "override case count")
	file := fs.String("file", "", "")
	maxs := fs.Int("max-seconds", 0, "")
	fs.Parse(os.Args[2:])
	if cmd == "list" {
		for _, p := range props.All() {
			fmt.Println(p.ID, p.Race)
		}
		return
	}
	if cmd == "replay" {
		replay(*file)
		return
	}
	p := find(*id)
	n := p.Quick
	if *tier == "thorough" {
		n = p.Thorough
	}
	if *cases > 0 {
		n = *cases
	}
	switch cmd {
	case "child":
		child(p, *seed, *shard, *nsh, n, *work)
	case "one":
		one(p, *file)
	case "check":
		os.Exit(check(p, *tier, *seed, *nsh, n, *work, *verif, *maxs))
	default:
		die("unknown command %s", cmd)
	}
}

func find(id string) *pbt.Prop {
	for _, p := range props.All() {
		if p.ID == id {
			return p
		}
	}
	die("unknown property %q", id)
	return nil
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		die("write %s: %v", path, err)
	}
}

func setProcs(p *pbt.Prop) {
	if p.Race {
		runtime.GOMAXPROCS(1)
	} else {
		runtime.GOMAXPROCS(2)
	}
}

// child runs the cases of one shard, stops at the first failure and shrinks it.
func child(p *pbt.Prop, seed int64, shard, nsh, n int, work string) {
	setProcs(p)
	out := shardOut{Labels: map[string]int{}, MaxSteps: map[string]uint64{}}
	prog, err := os.OpenFile(filepath.Join(work, fmt.Sprintf("progress%d", shard)), os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		die("%v", err)
	}
	var idx [8]byte
	hashes := map[uint64]struct{}{}
	for i := shard; i < n; i += nsh {
		binary.LittleEndian.PutUint64(idx[:], uint64(i)+1)
		prog.WriteAt(idx[:], 0)
		r := pbt.RunIndex(p, seed, i)
		if r.Discarded {
			out.Discarded++
			continue
		}
		out.Cases++
		out.MaxUsed = max(out.MaxUsed, r.Used)
		sk := fmt.Sprintf("x%d", r.Scale)
		out.MaxSteps[sk] = max(out.MaxSteps[sk], r.Steps)
		for k := range r.Labels {
			out.Labels[k]++
		}
		if r.Nontrivial && !r.Failed {
			out.Nontrivial++
			if _, ok := hashes[r.Hash]; !ok {
				if len(hashes) < 2_000_000 {
					hashes[r.Hash] = struct{}{}
				}
				if len(out.Samples) < 2 && len(r.Trace) < 6000 {
					out.Samples = append(out.Samples, r.Trace)
				}
			}
		}
		if r.Failed {
			os.WriteFile(filepath.Join(work, fmt.Sprintf("failed%d", i)), nil, 0o644)
			f := &failInfo{Index: i, Kind: r.Kind, Msg: r.Msg, Trace: r.Trace, Choices: r.Choices}
			out.Spans = r.Spans
			if r.Kind != "race" {
				s := pbt.Shrink(r, func(ch []uint64) pbt.Result { return pbt.RunSmaller(p, r, ch) }, 6000, 40*time.Second)
				f = &failInfo{Index: i, Kind: s.Kind, Msg: s.Msg, Trace: s.Trace, Choices: s.Choices, Shrunk: true}
			}
			out.Fail = f
			break
		}
		if i/nsh%16 == 0 && failedBefore(work, i) {
			break
		}
	}
	hb := make([]byte, 0, 8*len(hashes))
	for h := range hashes {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	if err := os.WriteFile(filepath.Join(work, fmt.Sprintf("hashes%d", shard)), hb, 0o644); err != nil {
		die("%v", err)
	}
	writeJSON(filepath.Join(work, fmt.Sprintf("out%d.json", shard)), out)
}

type oneIn struct {
	Prop    string
	Choices []uint64
	Seed    int64
	Index   int
	Out     string
}

// failedBefore tells whether another shard has seen a case before i fail: the
// first one is reported, so this shard has nothing to add.
func failedBefore(work string, i int) bool {
	fs, _ := filepath.Glob(filepath.Join(work, "failed*"))
	for _, f := range fs {
		if n, err := strconv.Atoi(strings.TrimPrefix(filepath.Base(f), "failed")); err == nil && n < i {
			return true
		}
	}
	return false
}

// one runs a single case in this process.
func one(p *pbt.Prop, file string) {
	setProcs(p)
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var in oneIn
	if err := json.Unmarshal(b, &in); err != nil {
		die("%v", err)
	}
	var r pbt.Result
	if in.Choices == nil {
		r = pbt.RunIndex(p, in.Seed, in.Index)
	} else {
		r = pbt.RunChoices(p, in.Choices)
	}
	writeJSON(in.Out, r)
}

var goFatal = []string{"stack overflow", "concurrent map", "all goroutines are asleep", "goroutine stack exceeds", "fatal error: sync:", "out of memory"}

// isolated runs a case in a fresh process. A process killed by a Go runtime
// fatal error counts as a failure of the case; ok=false means no verdict.
func isolated(p *pbt.Prop, work string, in oneIn) (pbt.Result, bool) {
	in.Prop = p.ID
	in.Out = filepath.Join(work, "one.out")
	os.Remove(in.Out)
	f := filepath.Join(work, "one.in")
	writeJSON(f, in)
	c := exec.Command(os.Args[0], "one", "-prop", p.ID, "-file", f)
	var sb strings.Builder
	c.Stderr = &sb
	c.Stdout = &sb
	c.Env = append(os.Environ(), "GORACE=exitcode=0 atexit_sleep_ms=0")
	c.Start()
	t := time.AfterFunc(100*time.Second, func() { c.Process.Kill() })
	c.Wait()
	t.Stop()
	var r pbt.Result
	if b, err := os.ReadFile(in.Out); err == nil && json.Unmarshal(b, &r) == nil {
		if r.Kind == "race" {
			r.Msg += "\n" + tail(sb.String(), 4000)
		}
		return r, true
	}
	for _, s := range goFatal {
		if strings.Contains(sb.String(), s) {
			return pbt.Result{Failed: true, Kind: "fatal", Msg: "process died: " + head(sb.String(), 1500), Choices: in.Choices}, true
		}
	}
	return pbt.Result{Msg: head(sb.String(), 800)}, false
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func check(p *pbt.Prop, tier string, seed int64, nsh, n int, work, verif string, maxs int) int {
	t0 := time.Now()
	if maxs == 0 {
		maxs = 780
		if tier == "thorough" {
			maxs = 4 * 3600
		}
	}
	if n < nsh {
		nsh = n
	}
	var wg sync.WaitGroup
	errs := make([]string, nsh)
	logs := make([]strings.Builder, nsh)
	timedOut := false
	var mu sync.Mutex
	for s := 0; s < nsh; s++ {
		c := exec.Command(os.Args[0], "child", "-prop", p.ID, "-seed", strconv.FormatInt(seed, 10), "-tier", tier,
			"-shard", strconv.Itoa(s), "-shards", strconv.Itoa(nsh), "-cases", strconv.Itoa(n), "-work", work)
		c.Stderr = &logs[s]
		c.Stdout = &logs[s]
		c.Env = append(os.Environ(), "GORACE=exitcode=0 atexit_sleep_ms=0")
		if err := c.Start(); err != nil {
			die("start: %v", err)
		}
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			t := time.AfterFunc(time.Duration(maxs)*time.Second, func() { mu.Lock(); timedOut = true; mu.Unlock(); c.Process.Kill() })
			err := c.Wait()
			t.Stop()
			if err != nil {
				errs[s] = err.Error()
			}
		}(s)
	}
	wg.Wait()
	tot := shardOut{Labels: map[string]int{}, MaxSteps: map[string]uint64{}}
	distinct := map[uint64]struct{}{}
	var fail *failInfo
	crashed := -1
	for s := 0; s < nsh; s++ {
		b, err := os.ReadFile(filepath.Join(work, fmt.Sprintf("out%d.json", s)))
		var o shardOut
		if err != nil || json.Unmarshal(b, &o) != nil {
			crashed = s
			continue
		}
		tot.Cases += o.Cases
		tot.MaxUsed = max(tot.MaxUsed, o.MaxUsed)
		for k, v := range o.MaxSteps {
			tot.MaxSteps[k] = max(tot.MaxSteps[k], v)
		}
		tot.Discarded += o.Discarded
		tot.Nontrivial += o.Nontrivial
		for k, v := range o.Labels {
			tot.Labels[k] += v
		}
		for _, x := range o.Samples {
			if len(tot.Samples) < 4 {
				tot.Samples = append(tot.Samples, x)
			}
		}
		hb, _ := os.ReadFile(filepath.Join(work, fmt.Sprintf("hashes%d", s)))
		for i := 0; i+8 <= len(hb); i += 8 {
			distinct[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
		}
		if o.Fail != nil && (fail == nil || o.Fail.Index < fail.Index) {
			fail = o.Fail
		}
	}
	if fail == nil && crashed >= 0 {
		pb, _ := os.ReadFile(filepath.Join(work, fmt.Sprintf("progress%d", crashed)))
		if timedOut || len(pb) < 8 {
			die("shard %d gave no result (%s): %s", crashed, errs[crashed], head(logs[crashed].String(), 1500))
		}
		idx := int(binary.LittleEndian.Uint64(pb)) - 1
		r, ok := isolated(p, work, oneIn{Seed: seed, Index: idx})
		if !ok || !r.Failed {
			die("shard %d died (%s) in case %d, not reproduced in isolation: %s", crashed, errs[crashed], idx, head(logs[crashed].String(), 1500))
		}
		fail = &failInfo{Index: idx, Kind: r.Kind, Msg: r.Msg, Trace: r.Trace, Choices: r.Choices}
	}
	if fail != nil && !fail.Shrunk && len(fail.Choices) > 0 {
		r, ok := isolated(p, work, oneIn{Choices: fail.Choices})
		if ok && r.Failed {
			s := pbt.Shrink(r, func(ch []uint64) pbt.Result {
				if ch == nil {
					ch = []uint64{}
				}
				x, _ := isolated(p, work, oneIn{Choices: ch})
				return x
			}, 200, 60*time.Second)
			fail = &failInfo{Index: fail.Index, Kind: s.Kind, Msg: s.Msg, Trace: s.Trace, Choices: s.Choices, Shrunk: true}
		}
	}
	violations := 0
	code := 0
	if fail != nil {
		violations = 1
		code = 1
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d.json", p.ID, tier, seed))
		writeJSON(path, replayFile{Property: p.ID, Kind: fail.Kind, Message: fail.Msg, Seed: seed, Case: fail.Index,
			History: strings.Split(strings.TrimRight(fail.Trace, "\n"), "\n"), Choices: fail.Choices,
			Command: "bash /verif/check.sh " + p.ID + " --replay " + path})
		fmt.Printf("case %d (%s): %s\nhistory:\n%s\n", fail.Index, fail.Kind, fail.Msg, tail(fail.Trace, 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	} else {
		listed := knownFindings(filepath.Join(verif, "known_findings.json"))
		for _, k := range p.Known {
			what, ok := listed[p.ID+"/"+k.ID]
			switch {
			case !k.Still():
				fmt.Printf("note: finding %s no longer fails\n", k.ID)
			case ok:
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, what)
			default:
				violations, code = 1, 1
				path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s.json", p.ID, k.ID))
				os.MkdirAll(filepath.Dir(path), 0o755)
				writeJSON(path, replayFile{Property: p.ID, Kind: "probe", Message: k.ID, Seed: seed, Case: -1,
					Command: "bash /verif/check.sh " + p.ID})
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			}
		}
	}
	cov := map[string]any{
		"evaluations": tot.Cases, "distinct_nontrivial": len(distinct), "rule": p.Rule,
		"nontrivial": tot.Nontrivial, "discarded": tot.Discarded, "samples": tot.Samples, "classes": tot.Labels,
		"max_step_budget_used": tot.MaxUsed, "max_steps": tot.MaxSteps,
	}
	if tot.Samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": violations, "assumptions": append([]string{}, p.Assume...)}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	writeJSON(filepath.Join(verif, "evidence", p.ID+".json"), ev)
	fmt.Printf("%s %s seed=%d: %d cases, %d non-trivial (%d distinct), %d discarded, %.1fs, budget used %.2g, violations=%d\n", p.ID, tier, seed,
		tot.Cases, tot.Nontrivial, len(distinct), tot.Discarded, time.Since(t0).Seconds(), tot.MaxUsed, violations)
	if code == 0 && tot.Nontrivial*1000 < tot.Cases {
		fmt.Printf("ERROR vacuous: %d of %d cases non-trivial\n", tot.Nontrivial, tot.Cases)
		code = 2
	}
	for _, k := range pbt.SortedKeys(tot.Labels) {
		fmt.Printf("  %-28s %d\n", k, tot.Labels[k])
	}
	return code
}

// knownFindings reads the findings that are recorded rather than repaired.
func knownFindings(path string) map[string]string {
	out := map[string]string{}
	var f struct {
		Known []struct{ Property, ID, What string } `json:"known"`
	}
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &f); err != nil {
		die("%s: %v", path, err)
	}
	for _, k := range f.Known {
		out[k.Property+"/"+k.ID] = k.What
	}
	return out
}

func replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	p := find(rf.Property)
	setProcs(p)
	var r pbt.Result
	for i := 0; i < 5 && !r.Failed; i++ {
		if rf.Choices == nil {
			r = pbt.RunIndex(p, rf.Seed, rf.Case)
		} else {
			r = pbt.RunChoices(p, rf.Choices)
		}
	}
	fmt.Print(r.Trace)
	if r.Failed {
		fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", r.Kind, r.Msg, p.ID, file)
		os.Exit(1)
	}
	fmt.Println("held")
}
