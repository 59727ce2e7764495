// Command run builds the property tests against /repo's current working tree
// and decides one property.
//
//	run <property-id> quick|thorough      decide the property
//	run <property-id> replay <file.fail>  re-run one recorded failure
//
// Exit codes: 0 held, 1 violated (with a VIOLATION line), 2 could not build,
// 3 no answer (time-out, out of memory, harness error).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type shardStats struct {
	Evaluations int               `json:"evaluations"`
	Nontrivial  []uint64          `json:"nontrivial"`
	Rules       map[string]string `json:"rules"`
	Classes     map[string]int    `json:"classes"`
	Excluded    map[string]int    `json:"excluded"`
	Samples     []json.RawMessage `json:"samples"`
	Known       []string          `json:"known"`
	Assumptions []string          `json:"assumptions"`
}

type shardResult struct {
	idx      int
	dir      string
	code     int
	out      []byte
	stats    shardStats
	hasStats bool
	timedOut bool
}

func fatal(code int, f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
	os.Exit(code)
}

var scratch string

func exit(code int) {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
	os.Exit(code)
}

func main() {
	if len(os.Args) < 3 {
		fatal(3, "usage: run <property> quick|thorough|replay [file]")
	}
	id, tier := os.Args[1], os.Args[2]
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		fatal(3, "VERIF_ROOT not set")
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fatal(3, "scratch: %v", err)
	}
	scratch = tmp

	race := id == "P18"
	bin := filepath.Join(tmp, "checks.test")
	args := []string{"test", "-c", "-vet=off", "-o", bin}
	env := os.Environ()
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, "./checks")
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(root, "harness")
	cmd.Env = env
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Printf("build of the property tests against /repo failed: %v\n%s\n", err, out)
		exit(2)
	}

	shards, scale, limit := 6, 1.0, 11*time.Minute
	if runtime.NumCPU() < shards {
		shards = runtime.NumCPU()
	}
	failfile := ""
	switch tier {
	case "quick":
	case "thorough":
		shards, scale, limit = 8, 25.0, 150*time.Minute
	case "replay":
		shards = 1
		if len(os.Args) < 4 {
			fatal(3, "replay needs a file")
		}
		failfile, _ = filepath.Abs(os.Args[3])
	default:
		fatal(3, "unknown tier %q", tier)
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if v, err := strconv.ParseFloat(s, 64); err == nil {
			scale = v
		}
	}
	if race {
		shards = 2
	}

	results := make([]*shardResult, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			results[i] = runShard(i, id, root, tmp, bin, seed, scale, limit, failfile, tier)
		}(i)
	}
	wg.Wait()

	if tier == "thorough" && (id == "P01" || id == "P02") {
		results = append(results, runFuzz(id, root, tmp))
	}

	// merge
	total := shardStats{Rules: map[string]string{}, Classes: map[string]int{}, Excluded: map[string]int{}}
	nt := map[uint64]bool{}
	known := map[string]bool{}
	assume := map[string]bool{}
	violation, noanswer := "", ""
	var report *shardResult
	for _, r := range results {
		if r.hasStats {
			total.Evaluations += r.stats.Evaluations
			for _, v := range r.stats.Nontrivial {
				nt[v] = true
			}
			for k, v := range r.stats.Rules {
				total.Rules[k] = v
			}
			for k, v := range r.stats.Classes {
				total.Classes[k] += v
			}
			for k, v := range r.stats.Excluded {
				total.Excluded[k] += v
			}
			if len(total.Samples) < 12 {
				total.Samples = append(total.Samples, r.stats.Samples...)
			}
			for _, v := range r.stats.Known {
				known[v] = true
			}
			for _, v := range r.stats.Assumptions {
				assume[v] = true
			}
		}
		if r.code != 0 {
			kind := classify(r)
			if kind == "violation" && violation == "" {
				violation = r.dir
				report = r
			} else if kind != "violation" && noanswer == "" {
				noanswer = fmt.Sprintf("shard %d: exit %d: %s", r.idx, r.code, kind)
				if report == nil {
					report = r
				}
			}
		}
	}

	ks := make([]string, 0)
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}

	nviol := 0
	replay := ""
	if violation != "" {
		nviol = 1
		replay = saveReplay(root, id, seed, report, tier)
	}
	if n := len(results); results[n-1].idx == fuzzIdx {
		if m := regexp.MustCompile(`execs: (\d+)`).FindAllSubmatch(results[n-1].out, -1); m != nil {
			v, _ := strconv.Atoi(string(m[len(m)-1][1]))
			total.Evaluations += v
			total.Classes["coverage-guided fuzzing/executions"] = v
			total.Rules["fuzzing"] = "coverage-guided byte-level fuzzing seeded with the samples and random typed documents, same oracle; executions are not counted as non-trivial"
		}
	}
	if tier != "replay" {
		writeEvidence(root, id, tier, seed, total, len(nt), nviol, time.Since(start).Seconds(), assume, shards, ks)
	}
	if report != nil {
		fmt.Println(tail(report.out, 6000))
	}
	switch {
	case violation != "":
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		exit(1)
	case noanswer != "":
		fmt.Printf("NO ANSWER for %s: %s\n", id, noanswer)
		exit(3)
	}
	fmt.Printf("%s held on %d generated cases (%d distinct non-trivial), %d shards, %.1fs\n", id, total.Evaluations, len(nt), shards, time.Since(start).Seconds())
	exit(0)
}

func runShard(i int, id, root, tmp, bin string, seed int64, scale float64, limit time.Duration, failfile, tier string) *shardResult {
	dir := filepath.Join(tmp, fmt.Sprintf("shard%d", i))
	os.MkdirAll(dir, 0755)
	r := &shardResult{idx: i, dir: dir}
	args := []string{"-test.run", "^Test" + id + "(_|$)", "-test.timeout", "0", "-test.v=false", "-rapid.shrinktime=25s"}
	if strings.HasSuffix(failfile, ".fuzz") {
		seeds := filepath.Join(dir, "testdata", "fuzz", "Fuzz"+id)
		os.MkdirAll(seeds, 0755)
		b, _ := os.ReadFile(failfile)
		os.WriteFile(filepath.Join(seeds, "replay"), b, 0644)
		args[1] = "^Fuzz" + id + "$/^replay$"
	} else if failfile != "" {
		name := testNameOf(failfile)
		if name != "" {
			args[1] = name
		}
		args = append(args, "-rapid.failfile="+failfile)
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(),
		"VERIF_SHARD="+strconv.Itoa(i),
		"VERIF_SEED="+strconv.FormatInt(seed, 10),
		"VERIF_TIER="+tier,
		"VERIF_SCALE="+strconv.FormatFloat(scale, 'g', -1, 64),
		"VERIF_PROP="+id,
		"VERIF_STATS="+filepath.Join(dir, "stats.json"),
		"VERIF_ROOT="+root,
		"GORACE=halt_on_error=0 exitcode=66",
		"GOTRACEBACK=single",
	)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		r.code = 3
		r.out = []byte(err.Error())
		return r
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			r.code = 3
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() >= 0 {
				r.code = ee.ExitCode()
			}
		}
	case <-time.After(limit):
		r.timedOut = true
		cmd.Process.Kill()
		<-done
		r.code = 3
	}
	r.out = buf.Bytes()
	if b, err := os.ReadFile(filepath.Join(dir, "stats.json")); err == nil {
		if json.Unmarshal(b, &r.stats) == nil {
			r.hasStats = true
		}
	}
	return r
}

const fuzzIdx = 99

// runFuzz runs the native coverage-guided fuzzer on one target.
func runFuzz(id, root, tmp string) *shardResult {
	dir := filepath.Join(tmp, "fuzz")
	os.MkdirAll(dir, 0755)
	r := &shardResult{idx: fuzzIdx, dir: dir}
	bin := filepath.Join(tmp, "fuzz.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-fuzz=^Fuzz"+id+"$", "-o", bin, "./checks")
	cmd.Dir = filepath.Join(root, "harness")
	if out, err := cmd.CombinedOutput(); err != nil {
		r.code, r.out = 3, append([]byte("HARNESS-ERROR fuzz build: "), out...)
		return r
	}
	t := os.Getenv("VERIF_FUZZTIME")
	if t == "" {
		t = "1200s"
	}
	cmd = exec.Command(bin, "-test.run=^$", "-test.fuzz=^Fuzz"+id+"$", "-test.fuzztime="+t, "-test.fuzzminimizetime=1s", "-test.fuzzcachedir="+filepath.Join(dir, "cache"))
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_ROOT="+root)
	out, err := cmd.CombinedOutput()
	r.out = out
	if err != nil {
		r.code = 1
	}
	return r
}

var reRapid = regexp.MustCompile(`\[rapid\] (failed|panic|flaky)`)

func classify(r *shardResult) string {
	o := string(r.out)
	switch {
	case r.timedOut:
		return "time limit reached"
	case strings.Contains(o, "HARNESS-ERROR"):
		return "harness error"
	case strings.Contains(o, "WATCHDOG-VIOLATION"):
		return "violation"
	case strings.Contains(o, "VERIF-VIOLATION"):
		return "violation"
	case strings.Contains(o, "WARNING: DATA RACE"):
		return "violation"
	case strings.Contains(o, "fatal error: stack overflow"),
		strings.Contains(o, "goroutine stack exceeds"),
		strings.Contains(o, "fatal error: concurrent map"),
		strings.Contains(o, "fatal error: all goroutines are asleep"):
		return "violation"
	case strings.Contains(o, "[rapid] only generated"):
		return "generator rejected too many cases"
	case r.idx == fuzzIdx && strings.Contains(o, "Failing input written to"):
		return "violation"
	case reRapid.MatchString(o) && r.code == 1:
		return "violation"
	}
	return "unexpected end of the test process"
}

func tail(b []byte, n int) string {
	if len(b) > n {
		// keep the first lines (the failure message) and the end
		return string(b[:n/2]) + "\n...\n" + string(b[len(b)-n/2:])
	}
	return string(b)
}

func testNameOf(failfile string) string {
	b, err := os.ReadFile(failfile)
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "# test ") {
			parts := strings.Split(strings.TrimPrefix(l, "# test "), "/")
			for i, p := range parts {
				parts[i] = "^" + regexp.QuoteMeta(p) + "$"
			}
			return strings.Join(parts, "/")
		}
	}
	return ""
}

var reTestName = regexp.MustCompile(`specify -run="([^"]+)"`)

func saveReplay(root, id string, seed int64, r *shardResult, tier string) string {
	dir := filepath.Join(root, "replays")
	os.MkdirAll(dir, 0755)
	base := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d-shard%d", id, tier, seed, r.idx))
	os.WriteFile(base+".log", r.out, 0644)
	var found string
	filepath.Walk(filepath.Join(r.dir, "testdata"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".fail") && found == "" {
			found = p
		}
		return nil
	})
	// input found by the fuzzer
	if r.idx == fuzzIdx {
		if l, _ := filepath.Glob(filepath.Join(r.dir, "testdata", "fuzz", "*", "*")); len(l) > 0 {
			b, _ := os.ReadFile(l[0])
			os.WriteFile(base+".fuzz", b, 0644)
			return base + ".fuzz"
		}
	}
	// input saved by the watchdog
	if b, err := os.ReadFile(filepath.Join(r.dir, "watchdog-input")); err == nil {
		os.WriteFile(base+".input", b, 0644)
		return base + ".input"
	}
	if found != "" {
		b, _ := os.ReadFile(found)
		name := ""
		if m := reTestName.FindSubmatch(r.out); m != nil {
			name = strings.ReplaceAll(string(m[1]), `\\`, `\`)
			name = regexp.MustCompile(`\\(.)`).ReplaceAllString(name, "$1")
		}
		b = append([]byte("# test "+name+"\n"), b...)
		os.WriteFile(base+".fail", b, 0644)
		return base + ".fail"
	}
	return base + ".log"
}

func writeEvidence(root, id, tier string, seed int64, s shardStats, nontrivial, nviol int, wall float64, assume map[string]bool, shards int, known []string) {
	var rules []string
	for k, v := range s.Rules {
		rules = append(rules, k+": "+v)
	}
	sort.Strings(rules)
	as := []string{}
	for k := range assume {
		as = append(as, k)
	}
	sort.Strings(as)
	if len(s.Samples) > 12 {
		s.Samples = s.Samples[:12]
	}
	if s.Samples == nil {
		s.Samples = []json.RawMessage{}
	}
	ev := map[string]interface{}{
		"property": id,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         s.Evaluations,
			"distinct_nontrivial": nontrivial,
			"rule":                strings.Join(rules, " | "),
			"samples":             s.Samples,
			"classes":             s.Classes,
			"excluded":            s.Excluded,
			"shards":              shards,
			"known_findings":      known,
		},
		"assumptions": as,
		"wall_s":      wall,
		"violations":  nviol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(3, "evidence: %v", err)
	}
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0644); err != nil {
		fatal(3, "evidence: %v", err)
	}
}
