package checks

import (
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// plan is what one goroutine does: histories of operations on documents of
// its own, two at a time.
type plan []planStep

type planStep struct {
	op   docOp
	slot int
}

func genPlan(t *rapid.T, max int) plan {
	var p plan
	for i, n := 0, rapid.IntRange(2, max).Draw(t, "steps"); i < n; i++ {
		p = append(p, planStep{genOp(t), rapid.IntRange(0, 1).Draw(t, "slot")})
	}
	return p
}

// run executes a plan and returns everything the caller could see.
func (p plan) run() (out []string) {
	defer func() {
		if r := recover(); r != nil {
			out = append(out, fmt.Sprint("panic: ", r))
		}
	}()
	d := [2]*xmp.Document{xmp.NewDocument(), xmp.NewDocument()}
	for _, s := range p {
		var r string
		if s.op.needSrc {
			d[s.slot], r = s.op.run(d[s.slot], d[1-s.slot])
		} else {
			d[s.slot], r = s.op.run(d[s.slot], nil)
		}
		out = append(out, s.op.name+": "+r)
	}
	for i := range d {
		l, err := d[i].ListPaths()
		out = append(out, fmt.Sprint(l, err))
		b, err := xmp.Marshal(d[i])
		out = append(out, string(b)+errText(err))
		d[i].Close()
	}
	return out
}

func comparePlans(rt interface {
	Fatalf(string, ...interface{})
}, plans []plan, rounds int) {
	results := make([][]string, len(plans)*rounds)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := range results {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-start
			results[k] = plans[k%len(plans)].run()
		}(k)
	}
	close(start)
	wg.Wait()
	for i, p := range plans {
		alone := p.run()
		for k := i; k < len(results); k += len(plans) {
			for j := range alone {
				if j >= len(results[k]) || results[k][j] != alone[j] {
					got := "nothing"
					if j < len(results[k]) {
						got = results[k][j]
					}
					rt.Fatalf("goroutine %d step %d: with others running:\n%s\nalone:\n%s", k, j, got, alone[j])
				}
			}
		}
	}
}

func TestP18_Concurrent(t *testing.T) {
	rule("concurrent", "4..12 goroutines each run a random history of 2..8 operations (read, write, JSON, write by path, merge, embed, remove, filter, move models, close) on two documents of their own, twice, at the same time, under the race detector; everything each goroutine sees must equal what it sees running alone; non-trivial: distinct sets of histories")
	corpus(t)
	check(t, 60, func(rt *rapid.T) {
		n := rapid.IntRange(4, 12).Draw(rt, "goroutines")
		plans := make([]plan, n)
		var key strings.Builder
		var names []string
		if err := try(func() error {
			for i := range plans {
				plans[i] = genPlan(rt, 8)
				for _, s := range plans[i] {
					key.WriteString(s.op.name + "/")
					names = append(names, strings.Fields(s.op.name)[0])
				}
				key.WriteString("\n")
			}
			return nil
		}); err != nil {
			rt.Fatalf("%v", err)
		}
		tally("concurrent", key.String(), true, names...)
		comparePlans(rt, plans, 2)
	})
}

// TestP18_Cold starts processes whose very first use of the library is
// concurrent, because the shared caches are filled only once.
func TestP18_Cold(t *testing.T) {
	if os.Getenv("VERIF_COLD") != "" {
		return
	}
	rule("cold", "new processes whose first operations on the library are concurrent: 16 goroutines read, list, write and convert to JSON documents of the same and of different models in random order, while others look up the registry and register namespaces; under the race detector; results must equal a sequential repetition; non-trivial: processes with distinct seeds")
	n := int(24 * envScale)
	if n < 4 {
		n = 4
	}
	exe, err := os.Executable()
	if err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	sem := make(chan struct{}, max(1, runtime.NumCPU()/2))
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			seed := fmt.Sprintf("%d-%d-%d", envSeed, envShard, i)
			cmd := exec.Command(exe, "-test.run=^TestCold18$", "-test.timeout=120s")
			cmd.Env = append(os.Environ(), "VERIF_COLD="+seed, "VERIF_STATS=")
			out, err := cmd.CombinedOutput()
			mu.Lock()
			defer mu.Unlock()
			tally("cold", seed, true)
			if err != nil {
				violate(t, "process %s: %v\n%.6000s", seed, err, out)
			}
		}(i)
	}
	wg.Wait()
}

// TestCold18 is the body of the processes TestP18_Cold starts.
func TestCold18(t *testing.T) {
	seed := os.Getenv("VERIF_COLD")
	if seed == "" {
		t.Skip("started by TestP18_Cold")
	}
	h := h64(seed)
	next := func(n int) int {
		h ^= h << 13
		h ^= h >> 7
		h ^= h << 17
		return int(h>>1) % n
	}
	docs := corpus(t)
	var texts []string
	for i := 0; i < 6; i++ {
		c := docs[next(len(docs))]
		if len(c.text) < 20000 {
			texts = append(texts, string(c.text))
		}
	}
	// properties of many models
	var b strings.Builder
	b.WriteString(`<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">`)
	for i := 0; i < 12; i++ {
		p := corpusPool[next(len(corpusPool))]
		if p.val.kind == rSimple {
			fmt.Fprintf(&b, `<rdf:Description xmlns:n%d="%s"><n%d:%s>%s</n%d:%s></rdf:Description>`, i, xmlEscape(p.uri), i, p.name, xmlEscape(p.val.text), i, p.name)
		}
	}
	b.WriteString(`</rdf:RDF></x:xmpmeta>`)
	texts = append(texts, b.String())
	prefixes := modelPrefixes()
	type job struct {
		kind int
		arg  string
	}
	var jobs []job
	for i := 0; i < 16; i++ {
		k := next(6)
		j := job{k, texts[next(len(texts))]}
		if k >= 4 {
			j.arg = prefixes[next(len(prefixes))]
		}
		jobs = append(jobs, j)
	}
	do := func(j job) (out string) {
		defer func() {
			if r := recover(); r != nil {
				out = fmt.Sprint("panic: ", r)
			}
		}()
		switch j.kind {
		case 4: // make and write a model
			d := xmp.NewDocument()
			defer d.Close()
			ns, err := xmp.GetNamespace(j.arg)
			if err != nil {
				return errText(err)
			}
			if _, err := d.MakeModel(ns); err != nil {
				return errText(err)
			}
			l, _ := d.ListPaths()
			return fmt.Sprint(l)
		case 5: // the registry
			xmp.Register(xmp.NewNamespace("cold"+j.arg, "urn:cold:"+j.arg, nil), xmp.XmpMetadata)
			ns, err := xmp.GetNamespace(j.arg)
			if err != nil {
				return errText(err)
			}
			xmp.NsRegistry.Namespaces()
			xmp.NsRegistry.Prefixes()
			xmp.GetGroupNamespaces(xmp.XmpMetadata)
			return ns.GetURI() + xmp.NsRegistry.GetPrefix(ns.GetURI()) + xmp.NsRegistry.Short(ns.GetURI(), "x")
		}
		d := xmp.NewDocument()
		defer d.Close()
		if err := xmp.Unmarshal([]byte(j.arg), d); err != nil {
			return errText(err)
		}
		switch j.kind {
		case 0:
			l, err := d.ListPaths()
			return fmt.Sprint(l, err)
		case 1:
			x, err := d.MarshalJSON()
			return string(x) + errText(err)
		case 2:
			e := xmp.NewDocument()
			defer e.Close()
			e.Merge(d, xmp.MERGE)
			d = e
		}
		x, err := xmp.Marshal(d)
		return string(x) + errText(err)
	}
	for round := 0; round < 3; round++ {
		got := make([]string, len(jobs))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range jobs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				got[i] = do(jobs[i])
			}(i)
		}
		close(start)
		wg.Wait()
		for i, j := range jobs {
			if want := do(j); want != got[i] {
				t.Fatalf("round %d job %d (kind %d): with others running:\n%s\nalone:\n%s\n%s", round, i, j.kind, got[i], want, j.arg)
			}
		}
	}
}
