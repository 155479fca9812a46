// Package mc is the frame every check runs in: sharding over processes,
// counting what was explored, confirming and reporting violations, evidence.
package mc

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Violation is one failing case.
type Violation struct {
	Key    string `json:"key"` // identifies the case
	Detail string `json:"detail"`
	Input  string `json:"input,omitempty"`
}

// Result is what one shard reports.
type Result struct {
	Traces      int            `json:"traces"`
	Nontrivial  int            `json:"nontrivial"`
	Transitions int            `json:"transitions"`
	States      []uint64       `json:"states"`
	Outcomes    []uint64       `json:"outcomes"`
	Samples     []string       `json:"samples"`
	Violations  []Violation    `json:"violations"`
	NViolations int            `json:"nviolations"`
	Incomplete  []string       `json:"incomplete"`
	Counts      map[string]int `json:"counts"`
	Fatal       string         `json:"fatal"`
}

// Run is the state of one shard.
type Run struct {
	Property string
	Tier     string
	Thorough bool
	Seed     int
	Shard, N int
	Scratch  string // private scratch directory, removed at the end

	res      Result
	states   map[uint64]struct{}
	outcomes map[uint64]struct{}
	index    int
	deadline time.Time
	want     string // replay: only this case
	mu       sync.Mutex
	curKey   string
	curInput string
	curSince time.Time
	outPath  string
}

// Spec describes a check.
type Spec struct {
	Property    string
	Rule        string   // how cases are made and what makes one non-trivial
	Assumptions []string // what the verdict rests on
	Shards      int      // default 8
	QuickS      int      // internal deadline in seconds, default 240
	ThoroughS   int      // default 3000
	HangS       int      // a single case running this long is a termination violation (default 120)
	Body        func(r *Run)
}

// Hash hashes a string.
func Hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Main runs the check.
func Main(spec Spec) {
	if spec.Shards == 0 {
		spec.Shards = 8
	}
	if spec.QuickS == 0 {
		spec.QuickS = 300
	}
	if spec.ThoroughS == 0 {
		spec.ThoroughS = 3000
	}
	if spec.HangS == 0 {
		spec.HangS = 150
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if sh := os.Getenv("MC_SHARD"); sh != "" {
		runShard(spec, tier, seed, sh)
		return
	}
	os.Exit(parent(spec, tier, seed))
}

func runShard(spec Spec, tier string, seed int, sh string) {
	i, _ := strconv.Atoi(sh)
	secs := spec.QuickS
	if tier == "thorough" {
		secs = spec.ThoroughS
	}
	r := &Run{Property: spec.Property, Tier: tier, Thorough: tier == "thorough", Seed: seed, Shard: i, N: spec.Shards,
		states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, want: os.Getenv("MC_WANT"),
		deadline: time.Now().Add(time.Duration(secs) * time.Second), outPath: os.Getenv("MC_OUT"), Scratch: os.Getenv("MC_SCRATCH")}
	r.res.Counts = map[string]int{}
	if os.Getenv("MC_ALL") != "" || spec.Shards == 1 {
		r.N = 1
		r.Shard = 0
	}
	go r.watchdog(spec.HangS)
	if prof := os.Getenv("MC_PROF"); prof != "" && i == 0 {
		if f, err := os.Create(prof); err == nil {
			_ = pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.res.Fatal = fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
		}()
		spec.Body(r)
	}()
	r.flush()
}

func (r *Run) flush() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.States = keysOf(r.states)
	r.res.Outcomes = keysOf(r.outcomes)
	data, _ := json.Marshal(r.res)
	_ = os.WriteFile(r.outPath, data, 0o644)
}

func keysOf(m map[uint64]struct{}) []uint64 {
	out := make([]uint64, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	return out
}

// watchdog turns a case that does not end, or that eats memory without
// bound, into a violation.
func (r *Run) watchdog(hang int) {
	for {
		time.Sleep(500 * time.Millisecond)
		r.mu.Lock()
		key, since, input := r.curKey, r.curSince, r.curInput
		r.mu.Unlock()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		why := ""
		if key != "" && time.Since(since) > time.Duration(hang)*time.Second {
			why = fmt.Sprintf("does not terminate (running for over %d s)", hang)
		} else if key != "" && ms.HeapAlloc > 3500<<20 && time.Since(since) > 3*time.Second {
			why = fmt.Sprintf("memory grows without bound (%d MB)", ms.HeapAlloc>>20)
		}
		if why != "" {
			r.mu.Lock()
			r.res.Violations = append(r.res.Violations, Violation{key, why, input})
			r.res.NViolations++
			r.res.Incomplete = append(r.res.Incomplete, "stopped at a non-terminating case")
			r.mu.Unlock()
			r.flush()
			os.Exit(0)
		}
	}
}

// Expired reports whether the internal deadline passed; the evidence then says
// that the run was not exhaustive.
func (r *Run) Expired() bool {
	if time.Now().After(r.deadline) {
		r.Incomplete("internal deadline")
		return true
	}
	return len(r.res.Violations) >= 25
}

// Incomplete records that a bound was not fully covered.
func (r *Run) Incomplete(why string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, w := range r.res.Incomplete {
		if w == why {
			return
		}
	}
	r.res.Incomplete = append(r.res.Incomplete, why)
}

// State records that a state was visited; Transition that steps were taken.
func (r *Run) State(s string)   { r.states[Hash(s)] = struct{}{} }
func (r *Run) Transition(n int) { r.res.Transitions += n }
func (r *Run) Outcome(s string) { r.outcomes[Hash(s)] = struct{}{} }
func (r *Run) Count(k string, n int) {
	r.res.Counts[k] += n
}

// Mine says whether the next case belongs to this shard.
func (r *Run) Mine() bool {
	r.index++
	return r.N == 1 || (r.index-1)%r.N == r.Shard
}

// Sample keeps a few cases for the evidence.
func (r *Run) Sample(s string) {
	if len(r.res.Samples) < 3 {
		if len(s) > 900 {
			s = s[:900] + "…"
		}
		r.res.Samples = append(r.res.Samples, s)
	}
}

// Case evaluates one case (already known to be ours): f returns "" or what is
// wrong.  A failing case is evaluated twice more and reported only when it
// fails every time.
func (r *Run) Case(key, input string, nontrivial bool, f func() string) bool {
	if r.want != "" && r.want != key {
		return true
	}
	r.mu.Lock()
	r.curKey, r.curSince, r.curInput = key, time.Now(), input
	r.mu.Unlock()
	defer func() {
		r.mu.Lock()
		r.curKey = ""
		r.mu.Unlock()
	}()
	eval := func() (msg string) {
		defer func() {
			if e := recover(); e != nil {
				msg = fmt.Sprintf("panic: %v\n%s", e, trimStack(string(debug.Stack())))
			}
		}()
		return f()
	}
	msg := eval()
	r.res.Traces++
	if nontrivial {
		r.res.Nontrivial++
	}
	if msg == "" {
		return true
	}
	for i := 0; i < 2; i++ {
		if eval() == "" {
			r.res.Counts["unconfirmed"]++
			return true
		}
	}
	r.res.NViolations++
	if len(r.res.Violations) < 25 || os.Getenv("MC_VERBOSE") == "2" {
		r.res.Violations = append(r.res.Violations, Violation{key, msg, input})
	}
	return false
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 8 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

type known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(dir, prop string) map[string]known {
	out := map[string]known{}
	data, err := os.ReadFile(filepath.Join(dir, "known_findings.json"))
	if err != nil {
		return out
	}
	var ks []known
	if err := json.Unmarshal(data, &ks); err != nil {
		return out
	}
	for _, k := range ks {
		if k.Property == prop && k.Status == "known" {
			out[k.Key] = k
		}
	}
	return out
}

func parent(spec Spec, tier string, seed int) int {
	start := time.Now()
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	self, _ := os.Executable()
	tmp, err := os.MkdirTemp("", "mc-"+spec.Property+"-")
	if err != nil {
		fmt.Println("cannot create scratch directory:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	n := spec.Shards
	if os.Getenv("MC_WANT") != "" {
		n = 1
	}
	results := make([]Result, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("r%d.json", i))
			scratch := filepath.Join(tmp, fmt.Sprintf("s%d", i))
			_ = os.Mkdir(scratch, 0o755)
			cmd := exec.Command(self, os.Args[1:]...)
			cmd.Env = append(os.Environ(), "MC_SHARD="+strconv.Itoa(i), "MC_OUT="+out, "MC_SCRATCH="+scratch, "GORACE=log_path="+filepath.Join(scratch, "race")+" exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0")
			if os.Getenv("MC_WANT") != "" {
				cmd.Env = append(cmd.Env, "MC_ALL=1")
			}
			logf := filepath.Join(tmp, fmt.Sprintf("log%d", i))
			lf, _ := os.Create(logf)
			cmd.Stdout, cmd.Stderr = lf, lf
			err := cmd.Run()
			lf.Close()
			data, rerr := os.ReadFile(out)
			if rerr == nil {
				_ = json.Unmarshal(data, &results[i])
			}
			if os.Getenv("MC_VERBOSE") != "" {
				lg, _ := os.ReadFile(logf)
				os.Stdout.Write(lg)
			}
			if rerr != nil || err != nil {
				lg, _ := os.ReadFile(logf)
				s := string(lg)
				if len(s) > 4000 {
					s = s[:2000] + "\n...\n" + s[len(s)-2000:]
				}
				results[i].Fatal += fmt.Sprintf("shard %d ended with %v\n%s", i, err, s)
			}
		}(i)
	}
	wg.Wait()

	states, outcomes := map[uint64]struct{}{}, map[uint64]struct{}{}
	total := Result{Counts: map[string]int{}}
	incomplete := map[string]bool{}
	vio := map[string]Violation{}
	for _, r := range results {
		total.Traces += r.Traces
		total.Nontrivial += r.Nontrivial
		total.Transitions += r.Transitions
		total.NViolations += r.NViolations
		for _, s := range r.States {
			states[s] = struct{}{}
		}
		for _, s := range r.Outcomes {
			outcomes[s] = struct{}{}
		}
		if len(total.Samples) < 6 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		for _, v := range r.Violations {
			vio[v.Key] = v
		}
		for _, s := range r.Incomplete {
			incomplete[s] = true
		}
		for k, c := range r.Counts {
			total.Counts[k] += c
		}
		if r.Fatal != "" {
			total.Fatal += r.Fatal + "\n"
		}
	}
	if len(total.Samples) > 8 {
		total.Samples = total.Samples[:8]
	}
	kn := loadKnown(verif, spec.Property)
	var keys []string
	for k := range vio {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if len(keys[i]) != len(keys[j]) {
			return len(keys[i]) < len(keys[j])
		}
		return keys[i] < keys[j]
	})
	var fresh []Violation
	seenKnown := 0
	for _, k := range keys {
		if f, ok := kn[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", spec.Property, f.What)
			seenKnown++
			continue
		}
		fresh = append(fresh, vio[k])
	}
	if total.Fatal != "" {
		show := total.Fatal
		if len(show) > 3000 {
			show = show[:3000] + "…"
		}
		fmt.Println("the exploration did not finish:\n" + show)
		incomplete["an exploring process failed"] = true
		for _, sign := range []string{"fatal error: ", "stack overflow", "panic: ", "runtime error", "goroutine "} {
			if strings.Contains(total.Fatal, sign) {
				// the code under test brought the process down outside the
				// reach of recover (stack exhaustion, fatal runtime error)
				// or panicked while the harness was preparing a case.
				fresh = append(fresh, Violation{Key: "crash", Detail: total.Fatal})
				break
			}
		}
	}
	var inc []string
	for k := range incomplete {
		inc = append(inc, k)
	}
	sort.Strings(inc)
	replay := ""
	if len(fresh) > 0 {
		dir := filepath.Join(verif, "replays", spec.Property)
		_ = os.MkdirAll(dir, 0o755)
		for i, v := range fresh {
			if i >= 10 && os.Getenv("MC_VERBOSE") != "2" {
				break
			}
			p := filepath.Join(dir, fmt.Sprintf("%016x.json", Hash(v.Key)))
			data, _ := json.MarshalIndent(v, "", " ")
			_ = os.WriteFile(p, append(data, '\n'), 0o644)
			if replay == "" {
				replay = p
			}
			if i < 5 || os.Getenv("MC_VERBOSE") != "" {
				fmt.Printf("violating case %s\n  input: %s\n  %s\n", clip(v.Key, 300), indent(clip(v.Input, 2000)), indent(clip(v.Detail, 3000)))
			}
		}
	}
	wall := time.Since(start).Seconds()
	if os.Getenv("MC_WANT") == "" {
		cov := map[string]any{
			"states":                        len(states),
			"transitions":                   total.Transitions,
			"traces_validated_against_impl": total.Traces,
			"distinct_outcomes":             len(outcomes),
			"nontrivial_traces":             total.Nontrivial,
			"rule":                          spec.Rule,
			"samples":                       total.Samples,
			"exhaustive":                    len(inc) == 0,
			"counters":                      total.Counts,
		}
		if len(inc) > 0 {
			cov["not_covered"] = inc
		}
		ev := map[string]any{"property": spec.Property, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
			"assumptions": spec.Assumptions, "wall_s": wall, "violations": len(fresh), "known_findings_seen": seenKnown}
		data, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verif, "evidence", spec.Property+".json"), append(data, '\n'), 0o644); err != nil {
			fmt.Println("cannot write evidence:", err)
		}
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d nontrivial=%d outcomes=%d violations=%d known=%d exhaustive=%v %v wall=%.1fs %v\n",
		spec.Property, tier, len(states), total.Transitions, total.Traces, total.Nontrivial, len(outcomes), total.NViolations, seenKnown,
		len(inc) == 0, inc, wall, total.Counts)
	if len(fresh) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", spec.Property, replay)
		return 1
	}
	if total.Fatal != "" {
		// The harness itself could not run to the end: neither held nor broken.
		if total.Traces == 0 {
			return 2
		}
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func indent(s string) string { return strings.ReplaceAll(s, "\n", "\n    ") }

// Guard runs f and converts a panic into an error string.
func Guard(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v\n%s", e, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return ""
}
