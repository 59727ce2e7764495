package checks

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// Coverage-guided fuzzing of the two readers, used by the thorough tier.

func FuzzP01(f *testing.F) {
	n := 0
	for _, c := range corpus(f) {
		if len(c.text) < 8000 && n < 80 {
			f.Add(c.text)
			n++
		}
	}
	for _, s := range fuzzSeeds() {
		f.Add([]byte(s))
	}
	f.Fuzz(func(t *testing.T, b []byte) {
		if len(b) > 30000 {
			return
		}
		ok, err := readAll(b, int(h64(string(b))%9))
		tally("fuzz", string(b), ok)
		if err != nil {
			t.Fatalf("[rapid] failed: %v\n%q", err, b)
		}
	})
}

func FuzzP02(f *testing.F) {
	n := 0
	for _, c := range corpus(f) {
		if len(c.text) < 8000 && n < 80 {
			d := xmp.NewDocument()
			if xmp.Unmarshal(c.text, d) == nil {
				if b, err := json.Marshal(d); err == nil {
					f.Add(b)
					n++
				}
			}
			d.Close()
		}
	}
	for _, s := range fuzzSeeds() {
		d := xmp.NewDocument()
		if xmp.Unmarshal([]byte(s), d) == nil {
			if b, err := json.Marshal(d); err == nil {
				f.Add(b)
			}
		}
		d.Close()
	}
	f.Fuzz(func(t *testing.T, b []byte) {
		if len(b) > 30000 {
			return
		}
		ok, err := readAllJSON(b)
		tally("fuzz", string(b), ok)
		if err != nil {
			t.Fatalf("[rapid] failed: %v\n%q", err, b)
		}
	})
}

// fuzzSeeds holds every third property of the samples in a document of its
// own, and random typed documents.
func fuzzSeeds() (l []string) {
	prefix := func(uri string) string {
		if p := xmp.NsRegistry.GetPrefix(uri); p != "" {
			return p
		}
		return fmt.Sprintf("ns%d", h64(uri)%1000)
	}
	for i, p := range corpusPool {
		if i%3 == 0 {
			l = append(l, rapid.Custom(func(t *rapid.T) string {
				s, _ := writeRDF(t, &rdfDoc{props: []rdfProp{p}}, prefix, nil)
				return s
			}).Example(i))
		}
	}
	for i := 0; i < 200; i++ {
		l = append(l, rapid.Custom(func(t *rapid.T) string {
			doc, _, err := genTypedDoc(t)
			if err != nil {
				return ""
			}
			s, _ := writeRDF(t, doc, prefix, nil)
			return s
		}).Example(i))
	}
	return
}
