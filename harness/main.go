// Command harness explores the scenarios of one property on the rewritten
// sources and reports violations and coverage.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	prop := flag.String("prop", "", "property")
	tierName := flag.String("tier", "quick", "quick or thorough")
	evidence := flag.String("evidence", "", "evidence file to write")
	replays := flag.String("replays", "", "directory for replay files")
	known := flag.String("known", "", "known findings file")
	worker := flag.Bool("worker", false, "run one job from stdin")
	replay := flag.String("replay", "", "replay file")
	only := flag.String("only", "", "run only scenarios with this substring")
	budget := flag.Float64("budget", 0, "wall-clock budget in seconds")
	list := flag.Bool("list", false, "list scenarios")
	verbose := flag.Bool("v", false, "verbose")
	flag.BoolVar(&stopAtFirst, "first", false, "for mutation runs: end at the first failing scenario")
	flag.Parse()
	if *list {
		for _, s := range scenarios {
			if *verbose {
				fmt.Printf("%s\t%s\t%d/%d\t%s\n", s.Name, strings.Join(s.Props, " "), s.Bound[0], s.Bound[1], s.What)
				continue
			}
			fmt.Println(s.Name, s.Props, s.Bound)
		}
		return
	}
	if *worker {
		runtime.GOMAXPROCS(2)
		var j job
		if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		b, _ := json.Marshal(explore(j))
		os.Stdout.Write(b)
		return
	}
	if *replay != "" {
		doReplay(*replay)
		return
	}
	if *tierName == "thorough" {
		tier = 1
	}
	if *budget == 0 {
		*budget = []float64{150, 840}[tier]
	}
	os.Exit(check(*prop, *evidence, *replays, *known, *only, *budget, *verbose))
}

var stopAtFirst bool

type replayFile struct {
	Property string
	Scenario string
	What     string
	Tier     int
	Promoted []string
	Picks    []int
	Message  string
	Stack    string
	Trace    []string
}

func doReplay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	res := explore(job{Scenario: r.Scenario, Tier: r.Tier, Promoted: r.Promoted, Replay: r.Picks, IsReplay: true, Trace: true})
	for _, l := range res.Trace {
		fmt.Println(l)
	}
	if res.Fail != nil {
		fmt.Println("FAILS:", res.Fail.Msg)
		fmt.Println(res.Fail.Stack)
		os.Exit(1)
	}
	fmt.Println("passes", res.DivMsg)
}

func runWorker(j job, timeout time.Duration) (*result, string) {
	self, _ := os.Executable()
	cmd := exec.Command(self, "-worker")
	b, _ := json.Marshal(j)
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=3GiB")
	if err := cmd.Start(); err != nil {
		return nil, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return nil, "timeout"
	}
	var r result
	if e := json.Unmarshal(out.Bytes(), &r); e != nil || err != nil {
		msg := errb.String()
		if len(msg) > 3000 {
			msg = msg[:3000]
		}
		return nil, fmt.Sprintf("worker ended abnormally: %v\n%s", err, msg)
	}
	return &r, ""
}

type scenOut struct {
	s        *Scenario
	promoted []string
	results  []*result
	fail     *failure
	crash    string
	rounds   int
	wall     float64
	note     string
}

func check(prop, evidence, replays, known, only string, budget float64, verbose bool) int {
	start := time.Now()
	var todo []*Scenario
	for _, s := range scenarios {
		for _, p := range s.Props {
			if p == prop && strings.Contains(s.Name, only) {
				todo = append(todo, s)
			}
		}
	}
	if len(todo) == 0 {
		fmt.Fprintln(os.Stderr, "no scenario for", prop)
		return 3
	}
	jdir, err := os.MkdirTemp("", "vj")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(jdir)
	slots := make(chan struct{}, runtime.NumCPU())
	remaining := func() float64 { return budget - time.Since(start).Seconds() }
	outs := make([]*scenOut, len(todo))
	var wg sync.WaitGroup
	for i, s := range todo {
		wg.Add(1)
		go func(i int, s *Scenario) {
			defer wg.Done()
			outs[i] = runScenario(s, slots, remaining, jdir, i)
			if o := outs[i]; stopAtFirst && (o.fail != nil || o.crash != "") {
				fmt.Println("FIRST", s.Name)
				os.RemoveAll(jdir)
				os.Exit(1)
			}
			if verbose {
				o := outs[i]
				var ex, st, tr, pr int64
				exh := true
				oc := map[string]int64{}
				bd := 99
				cp := ""
				for _, r := range o.results {
					ex += r.Execs
					st += r.States
					tr += r.Trans
					pr += r.Pruned
					exh = exh && r.Exhaustive
					if r.BoundDone < bd {
						bd = r.BoundDone
					}
					if r.CapHit != "" {
						cp = r.CapHit
					}
					for k, v := range r.Outcomes {
						oc[k] += v
					}
				}
				f := ""
				if o.fail != nil {
					f = "FAIL " + o.fail.Msg
				}
				fmt.Fprintf(os.Stderr, "%-32s wall=%.1f execs=%d pruned=%d states=%d trans=%d outcomes=%d exh=%v bound=%d %s promoted=%v rounds=%d %s %s\n",
					s.Name, o.wall, ex, pr, st, tr, len(oc), exh, bd, cp, o.promoted, o.rounds, o.note, f)
			}
		}(i, s)
	}
	wg.Wait()
	return report(prop, outs, evidence, replays, known, start)
}

func runScenario(s *Scenario, slots chan struct{}, remaining func() float64, jdir string, idx int) *scenOut {
	o := &scenOut{s: s}
	set := map[string]bool{}
	t0 := time.Now()
	defer func() { o.wall = time.Since(t0).Seconds() }()
	run := func(j job) (*result, string) {
		slots <- struct{}{}
		defer func() { <-slots }()
		left := remaining()
		if left < 2 {
			return &result{Scenario: s.Name, Exhaustive: false, CapHit: "time cap", BoundDone: -1}, ""
		}
		j.Deadline = left
		return runWorker(j, time.Duration((left+60)*1e9))
	}
	names := func() []string {
		var l []string
		for n := range set {
			l = append(l, n)
		}
		sort.Strings(l)
		return l
	}
	bound := s.Bound[tier]
	learn := 1
	if bound < learn {
		learn = bound
	}
	for {
		o.rounds++
		shards := s.Shards[tier]
		b := bound
		learning := shards > 1 && learn >= 0
		if learning { // find racy fields with a small bound in one process first
			shards, b = 1, learn
		}
		o.results = make([]*result, shards)
		errs := make([]string, shards)
		var wg sync.WaitGroup
		for k := 0; k < shards; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				j := job{Scenario: s.Name, Tier: tier, Shard: k, Shards: shards, Bound: b, Promoted: names(),
					Journal: filepath.Join(jdir, fmt.Sprintf("j%d_%d", idx, k))}
				o.results[k], errs[k] = run(j)
			}(k)
		}
		wg.Wait()
		again := false
		for k := range o.results {
			if errs[k] != "" {
				// the process died: find the execution from the journal
				o.promoted = names()
				if errs[k] == "timeout" {
					o.note = "worker killed at the time limit"
					o.results[k] = &result{Scenario: s.Name, CapHit: "time cap", BoundDone: -1}
					continue
				}
				b, _ := os.ReadFile(filepath.Join(jdir, fmt.Sprintf("j%d_%d", idx, k)))
				if n := bytes.IndexByte(b, '\n'); n >= 0 {
					b = b[:n]
				}
				var p []int
				json.Unmarshal(b, &p)
				o.results[k] = &result{Scenario: s.Name, BoundDone: -1}
				if o.fail == nil {
					o.fail = &failure{Msg: "the process is killed by the run-time system: " + errs[k], Picks: p}
				}
				continue
			}
			r := o.results[k]
			for _, n := range r.Races {
				if !set[n] {
					set[n] = true
					again = true
				}
			}
			if r.Fail != nil && (o.fail == nil || len(r.Fail.Picks) < len(o.fail.Picks)) {
				o.fail = r.Fail
				o.promoted = append([]string(nil), names()...)
				o.promoted = jobPromoted(set, r.Races)
			}
		}
		if o.fail != nil {
			if o.promoted == nil {
				o.promoted = names()
			}
			return o
		}
		if again && remaining() > 2 {
			continue
		}
		if learning {
			learn = -1
			continue
		}
		o.promoted = names()
		return o
	}
}

// jobPromoted is the set the failing job ran with.
func jobPromoted(set map[string]bool, fresh []string) []string {
	f := map[string]bool{}
	for _, n := range fresh {
		f[n] = true
	}
	var l []string
	for n := range set {
		if !f[n] {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return l
}

func knownLines(path, prop string) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var l []string
	for _, s := range strings.Split(string(b), "\n") {
		s = strings.TrimSpace(s)
		// finding: property=<id> match=<substring of "scenario: message"> :: description
		if strings.HasPrefix(s, "finding: property="+prop+" match=") {
			l = append(l, strings.TrimPrefix(s, "finding: property="+prop+" match="))
		}
	}
	return l
}

func report(prop string, outs []*scenOut, evidence, replays, known string, start time.Time) int {
	violations := 0
	cov := map[string]any{}
	var states, trans, execs, pruned, div int64
	exhaustive := true
	var samples []any
	var per []any
	kl := knownLines(known, prop)
	for _, o := range outs {
		var ex, st, tr, pr int64
		exh := o.fail == nil
		outc := map[string]int64{}
		stats := map[string]int64{}
		depth := 0
		capHit := ""
		bd := 1 << 30
		for _, r := range o.results {
			ex += r.Execs
			st += r.States
			tr += r.Trans
			pr += r.Pruned
			div += r.Diverged
			if r.DivMsg != "" && o.note == "" {
				o.note = r.DivMsg
			}
			exh = exh && r.Exhaustive
			if r.CapHit != "" {
				capHit = r.CapHit
			}
			if r.MaxDepth > depth {
				depth = r.MaxDepth
			}
			if r.BoundDone < bd {
				bd = r.BoundDone
			}
			for k, v := range r.Outcomes {
				outc[k] += v
			}
			for k, v := range r.Stats {
				stats[k] += v
			}
		}
		st += stats["states"]
		tr += stats["transitions"]
		traces := ex + stats["traces"]
		states += st
		trans += tr
		execs += traces
		pruned += pr
		exhaustive = exhaustive && exh
		m := map[string]any{
			"scenario": o.s.Name, "what": o.s.What, "executions": ex, "pruned_at_visited_state": pr,
			"states": st, "transitions": tr, "max_choice_depth": depth, "distinct_outcomes": len(outc),
			"deviation_bound": o.s.Bound[tier], "deviation_bound_completed": bd, "exhaustive_within_bound": exh,
			"fields_promoted_to_scheduling_points": o.promoted, "wall_s": o.wall,
		}
		if len(stats) > 0 {
			m["enumerated"] = stats
		}
		if capHit != "" {
			m["cap_hit"] = capHit
		}
		if o.note != "" {
			m["note"] = o.note
		}
		per = append(per, m)
		var ks []string
		for k := range outc {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			if i >= 3 {
				break
			}
			if len(k) > 300 {
				k = k[:300]
			}
			samples = append(samples, fmt.Sprintf("%s: %s", o.s.Name, k))
		}
		if o.fail != nil {
			ok, crash := confirm(o)
			if !ok {
				fmt.Fprintf(os.Stderr, "NOTE %s: a failure was not reproducible and is not reported: %s\n", o.s.Name, o.fail.Msg)
				m["note"] = "unreproducible failure not reported: " + o.fail.Msg
				continue
			}
			_ = crash
			text := o.s.Name + ": " + o.fail.Msg
			isKnown := false
			for _, l := range kl {
				mt, desc, _ := strings.Cut(l, " :: ")
				if strings.Contains(text, mt) {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, desc)
					isKnown = true
				}
			}
			if isKnown {
				continue
			}
			violations++
			os.MkdirAll(replays, 0o755)
			path := filepath.Join(replays, fmt.Sprintf("%s-%s.json", prop, strings.ReplaceAll(o.s.Name, "/", "_")))
			tr, _ := runWorker(job{Scenario: o.s.Name, Tier: tier, Promoted: o.promoted, Replay: o.fail.Picks, IsReplay: true, Trace: true}, 60*time.Second)
			rf := replayFile{Property: prop, Scenario: o.s.Name, What: o.s.What, Tier: tier, Promoted: o.promoted, Picks: o.fail.Picks, Message: o.fail.Msg, Stack: o.fail.Stack}
			if tr != nil {
				rf.Trace = tr.Trace
				if len(rf.Trace) > 3000 {
					rf.Trace = rf.Trace[len(rf.Trace)-3000:]
				}
			}
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("%s\n%s\n", text, firstLines(o.fail.Stack, 30))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			samples = append(samples, "VIOLATION "+text)
		}
	}
	if div > 0 {
		fmt.Fprintf(os.Stderr, "WARNING: %d executions diverged from their recorded prefix\n", div)
	}
	if len(samples) == 0 {
		samples = append(samples, fmt.Sprintf("%d executions of %s", execs, prop))
	}
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = execs
	cov["samples"] = samples
	cov["exhaustive"] = exhaustive && violations == 0
	cov["pruned"] = pruned
	cov["diverged"] = div
	cov["scenarios"] = per
	cov["rule"] = "every execution runs the code of /repo's working tree (rewritten onto a controlled scheduler, clock and network); all choice sequences with at most deviation_bound departures from the default schedule/environment and all enumerated inputs were run to completion or to a state already visited"
	ev := map[string]any{
		"property": prop, "tier": []string{"quick", "thorough"}[tier], "seed": 1, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": violations,
		"assumptions": []string{
			"sequentially consistent memory; scheduling points at synchronization operations, network and clock calls, and at every field found racy by the happens-before detector",
			"the in-memory network and virtual clock stand in for the kernel; virtual time advances only when every task is idle",
			"deviation bound and input alphabet as listed per scenario",
		},
	}
	if evidence != "" {
		os.MkdirAll(filepath.Dir(evidence), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	fmt.Printf("%s %s: states=%d transitions=%d executions=%d exhaustive=%v violations=%d wall=%.1fs\n",
		prop, []string{"quick", "thorough"}[tier], states, trans, execs, exhaustive && violations == 0, violations, time.Since(start).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// confirm replays a failure in fresh processes; it must fail every time.
func confirm(o *scenOut) (ok, crash bool) {
	for i := 0; i < 4; i++ {
		r, e := runWorker(job{Scenario: o.s.Name, Tier: tier, Promoted: o.promoted, Replay: o.fail.Picks, IsReplay: true}, 120*time.Second)
		if e != "" {
			crash = true
			if e == "timeout" {
				return false, true
			}
			continue
		}
		if r.Fail == nil {
			return false, false
		}
	}
	return true, crash
}
