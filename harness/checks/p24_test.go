package checks

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// slot is one document of a history and the operations that made it.
type slot struct {
	d    *xmp.Document
	ops  []slotOp
	last *reading
	ns   string
}

type slotOp struct {
	op  docOp
	src []slotOp // the operations that made the source
	out string
}

// solo runs the operations that concern one document without the others.
func solo(ops []slotOp) (*xmp.Document, error) {
	d := xmp.NewDocument()
	for i, o := range ops {
		var src *xmp.Document
		if o.op.needSrc {
			var err error
			if src, err = solo(o.src); err != nil {
				return d, err
			}
		}
		var out string
		d, out = o.op.run(d, src)
		if src != nil {
			if _, err := readAny(src); err != nil {
				return d, err
			}
			src.Close()
		}
		if out != o.out {
			return d, fmt.Errorf("operation %d (%s) alone returns something else:\n%s\n%s", i, o.op.name, out, o.out)
		}
		if _, err := readAny(d); err != nil {
			return d, err
		}
	}
	return d, nil
}

func TestP24_Histories(t *testing.T) {
	rule("histories", "two to five documents go through 4..14 interleaved operations (read, write by path, merge, embed, remove and filter namespaces, move models, write and re-read as XML and JSON, close, create, and filling and closing temporary documents); after every step every other document must know, list, hold and write what it did before, and at the end every document must equal the one made by its own operations alone; non-trivial: distinct histories with at least one close and one step that changes a document while another holds content")
	corpus(t)
	check(t, 900, func(rt *rapid.T) {
		var log []string
		closes, changes := 0, 0
		err := try(func() error {
			n := rapid.IntRange(2, 5).Draw(rt, "documents")
			slots := make([]*slot, n)
			for i := range slots {
				slots[i] = &slot{d: xmp.NewDocument()}
				slots[i].last, _ = readAny(slots[i].d)
				slots[i].ns = namesOf(slots[i].d)
			}
			defer func() {
				for _, s := range slots {
					s.d.Close()
				}
			}()
			for step, steps := 0, rapid.IntRange(4, 14).Draw(rt, "steps"); step < steps; step++ {
				i := rapid.IntRange(0, n-1).Draw(rt, "slot")
				s := slots[i]
				if rapid.IntRange(0, 7).Draw(rt, "close") == 0 {
					log = append(log, fmt.Sprintf("%d: close", i))
					closes++
					s.d.Close()
					if rapid.Bool().Draw(rt, "twice") {
						s.d.Close()
					}
					*s = slot{d: xmp.NewDocument()}
				} else {
					op := genOp(rt)
					so := slotOp{op: op}
					var src *xmp.Document
					if op.needSrc {
						j := rapid.IntRange(0, n-1).Draw(rt, "source")
						if j == i {
							j = (i + 1) % n
						}
						src, so.src = slots[j].d, slots[j].ops[:len(slots[j].ops):len(slots[j].ops)]
						log = append(log, fmt.Sprintf("%d: %s from %d", i, op.name, j))
					} else {
						log = append(log, fmt.Sprintf("%d: %s", i, op.name))
					}
					s.d, so.out = op.run(s.d, src)
					s.ops = append(s.ops, so)
				}
				for j, o := range slots {
					r, err := readAny(o.d)
					if err != nil {
						return fmt.Errorf("document %d: %v", j, err)
					}
					ns := namesOf(o.d)
					if j != i && o.last != nil {
						if ns != o.ns {
							return fmt.Errorf("document %d knows the namespaces %s, had %s", j, ns, o.ns)
						}
						if x := o.last.diff(r); x != "" {
							return fmt.Errorf("document %d changed: %s", j, x)
						}
						if len(r.paths) > 0 {
							changes++
						}
					}
					o.last, o.ns = r, ns
				}
			}
			for i, s := range slots {
				d, err := solo(s.ops)
				if err != nil {
					return fmt.Errorf("document %d alone: %v", i, err)
				}
				r, err := readAny(d)
				if err != nil {
					return fmt.Errorf("document %d alone: %v", i, err)
				}
				if x := r.diff(s.last); x != "" {
					return fmt.Errorf("document %d differs from the one made by its own operations: %s", i, x)
				}
				d.Close()
			}
			return nil
		})
		l := strings.Join(log, "\n")
		tally("histories", l, closes > 0 && changes > 0, opNames(log)...)
		if err != nil {
			rt.Fatalf("%s\n%v", l, err)
		}
	})
}

// readAny reads documents with named extensions as well, they are written
// with elements that are not RDF.
func readAny(d *xmp.Document) (*reading, error) {
	b, err := xmp.Marshal(d)
	if err != nil {
		return nil, fmt.Errorf("writing: %v", err)
	}
	if !bytes.Contains(b, []byte(":extension>")) {
		return readDoc(d)
	}
	r := reading{models: modelStates(d), out: map[string]string{"text": string(b)}}
	if r.paths, err = listing(d); err != nil {
		return nil, fmt.Errorf("listing: %v", err)
	}
	return &r, nil
}

// namesOf lists the namespaces a document knows.
func namesOf(d *xmp.Document) string {
	var l []string
	for _, ns := range d.Namespaces() {
		l = append(l, ns.GetName()+"="+ns.GetURI())
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func opNames(log []string) (l []string) {
	seen := map[string]bool{}
	for _, s := range log {
		f := strings.Fields(s)
		if len(f) > 1 && !seen[f[1]] {
			seen[f[1]] = true
			l = append(l, f[1])
		}
	}
	return
}
