package checks

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// run parameters
// ---------------------------------------------------------------------------

var (
	envSeed  = envInt("VERIF_SEED", 1)
	envShard = envInt("VERIF_SHARD", 0)
	envScale = envFloat("VERIF_SCALE", 0.2)
	envRoot  = os.Getenv("VERIF_ROOT")
)

func envInt(k string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return def
}

func envFloat(k string, def float64) float64 {
	if v, err := strconv.ParseFloat(os.Getenv(k), 64); err == nil {
		return v
	}
	return def
}

func h64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// check runs prop on n (scaled) generated cases. The seed is a function of
// VERIF_SEED, the shard and the test name only.
func check(t *testing.T, n int, prop func(*rapid.T)) {
	t.Helper()
	c := int(float64(n) * envScale)
	if c < 5 {
		c = 5
	}
	seed := h64(fmt.Sprintf("%d/%d/%s", envSeed, envShard, t.Name())) >> 1
	if seed == 0 {
		seed = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(c))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	rapid.Check(t, prop)
}

// ---------------------------------------------------------------------------
// statistics
// ---------------------------------------------------------------------------

type propStats struct {
	mu          sync.Mutex
	Evaluations int
	nontrivial  map[uint64]bool
	Rules       map[string]string
	Classes     map[string]int
	Excluded    map[string]int
	Samples     []interface{}
	perTest     map[string]int
	Known       []string
	Assumptions []string
}

var st = &propStats{
	nontrivial: map[uint64]bool{},
	Rules:      map[string]string{},
	Classes:    map[string]int{},
	Excluded:   map[string]int{},
	perTest:    map[string]int{},
}

// rule states, once per sub-check, how cases are made and which are non-trivial.
func rule(name, text string) {
	st.mu.Lock()
	defer st.mu.Unlock()
	st.Rules[name] = text
}

func assume(text string) {
	st.mu.Lock()
	defer st.mu.Unlock()
	for _, v := range st.Assumptions {
		if v == text {
			return
		}
	}
	st.Assumptions = append(st.Assumptions, text)
}

// tally records one evaluated case. key identifies the case, nontrivial says
// whether it counts by the stated rule.
func tally(sub, key string, nontrivial bool, classes ...string) {
	st.mu.Lock()
	defer st.mu.Unlock()
	st.Evaluations++
	for _, c := range classes {
		if c != "" {
			st.Classes[sub+"/"+c]++
		}
	}
	if nontrivial {
		h := h64(sub + "\x00" + key)
		if !st.nontrivial[h] {
			st.nontrivial[h] = true
			n := st.perTest[sub]
			st.perTest[sub] = n + 1
			// a few early cases and a few late ones per sub-check
			if n == 3 || n == 40 {
				if len(key) > 1500 {
					key = key[:1500] + "..."
				}
				st.Samples = append(st.Samples, map[string]string{"check": sub, "case": strings.ToValidUTF8(key, "?")})
			}
		} else {
			st.Classes[sub+"/duplicate"]++
		}
	} else {
		st.Classes[sub+"/trivial"]++
	}
}

func excluded(what string) {
	st.mu.Lock()
	defer st.mu.Unlock()
	st.Excluded[what]++
}

func writeStats() {
	p := os.Getenv("VERIF_STATS")
	if p == "" {
		return
	}
	st.mu.Lock()
	defer st.mu.Unlock()
	nt := make([]uint64, 0, len(st.nontrivial))
	for k := range st.nontrivial {
		nt = append(nt, k)
	}
	sort.Slice(nt, func(i, j int) bool { return nt[i] < nt[j] })
	if len(st.Samples) > 8 {
		// rotate so that shards contribute different ones
		k := int(envShard*5) % len(st.Samples)
		s := append(append([]interface{}{}, st.Samples[k:]...), st.Samples[:k]...)
		st.Samples = s[:8]
	}
	b, err := json.Marshal(map[string]interface{}{
		"evaluations": st.Evaluations,
		"nontrivial":  nt,
		"rules":       st.Rules,
		"classes":     st.Classes,
		"excluded":    st.Excluded,
		"samples":     st.Samples,
		"known":       st.Known,
		"assumptions": st.Assumptions,
	})
	if err != nil {
		fmt.Println("HARNESS-ERROR stats:", err)
		return
	}
	os.WriteFile(p, b, 0644)
}

// ---------------------------------------------------------------------------
// known findings
// ---------------------------------------------------------------------------

var knownKeys map[string]bool

func loadKnown() {
	knownKeys = map[string]bool{}
	f, err := os.Open(filepath.Join(envRoot, "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		// known: property=P05 key=json-null ...
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		var prop, key string
		for _, w := range strings.Fields(l) {
			if strings.HasPrefix(w, "property=") {
				prop = strings.TrimPrefix(w, "property=")
			}
			if strings.HasPrefix(w, "key=") {
				key = strings.TrimPrefix(w, "key=")
			}
		}
		knownKeys[prop+"/"+key] = true
	}
}

// knownFinding demonstrates one recorded defect on its specific input. demo
// returns nil when the defect does not show. A defect that shows but is not
// listed in known_findings.txt is a violation.
func knownFinding(t *testing.T, prop, key, what string, demo func() error) {
	t.Helper()
	err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v", r)
			}
		}()
		return demo()
	}()
	if err == nil {
		return
	}
	if knownKeys[prop+"/"+key] {
		st.mu.Lock()
		st.Known = append(st.Known, "key="+key+" "+what)
		st.mu.Unlock()
		return
	}
	violate(t, "%s: %v", what, err)
}

// violate reports a violation found outside of a rapid check.
func violate(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	fmt.Printf("VERIF-VIOLATION %s: "+f+"\n", append([]interface{}{t.Name()}, a...)...)
	t.Errorf(f, a...)
}

// example runs a fixed regression case; panics and errors are violations.
func example(t *testing.T, name string, f func() error) {
	t.Helper()
	err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		return f()
	}()
	tally("regression", name, true)
	if err != nil {
		violate(t, "regression %s: %v", name, err)
	}
}

// ---------------------------------------------------------------------------
// watchdog: a single case that burns more than a minute of CPU time, or more
// than 3 GB of heap, on an input of a few kB is a failure to return.
// ---------------------------------------------------------------------------

var (
	wdMu    sync.Mutex
	wdInput string
	wdGen   int64

	wdActive int32
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// guard marks the start of a case for the watchdog; the returned function
// marks its end.
func guard(input string) func() {
	wdMu.Lock()
	wdInput = input
	wdMu.Unlock()
	atomic.AddInt64(&wdGen, 1)
	atomic.StoreInt32(&wdActive, 1)
	return func() { atomic.StoreInt32(&wdActive, 0) }
}

func startWatchdog() {
	go func() {
		last := int64(-1)
		var startCPU time.Duration
		tick := time.NewTicker(500 * time.Millisecond)
		n := 0
		for range tick.C {
			g := atomic.LoadInt64(&wdGen)
			if g == 0 || atomic.LoadInt32(&wdActive) == 0 {
				last = -1
				continue
			}
			c := cpuTime()
			if g != last {
				last, startCPU, n = g, c, 0
				continue
			}
			n++
			bad := ""
			if c-startCPU > 60*time.Second {
				bad = "no return after 60s of CPU time"
			} else if n > 2 {
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				if m.HeapAlloc > 3<<30 {
					bad = "more than 3 GB of memory"
				}
			}
			if bad != "" && atomic.LoadInt64(&wdGen) == g {
				wdMu.Lock()
				in := wdInput
				wdMu.Unlock()
				os.WriteFile("watchdog-input", []byte(in), 0644)
				fmt.Printf("WATCHDOG-VIOLATION %s on input (%d bytes):\n%.2000s\n", bad, len(in), in)
				writeStats()
				os.Exit(7)
			}
		}
	}()
}

func TestMain(m *testing.M) {
	flag.Parse()
	loadKnown()
	startWatchdog()
	code := m.Run()
	writeStats()
	os.Exit(code)
}

// ---------------------------------------------------------------------------
// small helpers
// ---------------------------------------------------------------------------

// try runs f and turns a panic into an error that is marked as such.
func try(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if strings.HasPrefix(fmt.Sprintf("%T", r), "rapid.") {
				panic(r) // the generator gives up
			}
			err = panicErr{fmt.Sprintf("panic: %v\n%s", r, debug.Stack())}
		}
	}()
	return f()
}

type panicErr struct{ s string }

func (p panicErr) Error() string { return p.s }

func isPanic(err error) bool { _, ok := err.(panicErr); return ok }

func xmlEscape(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;", "'", "&apos;", "\n", "&#10;", "\t", "&#9;", "\r", "&#13;").Replace(s)
}
