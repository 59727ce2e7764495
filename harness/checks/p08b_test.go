package checks

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// containers returns the proper prefixes of listed paths: structures, lists
// and list items that are structures.
func containers(state map[string]string) (l []string) {
	seen := map[string]bool{}
	for k := range state {
		for i := strings.IndexByte(k, ':') + 2; i < len(k); i++ {
			if p := k[:i]; (k[i] == '/' || k[i] == '[' && k[i-1] != '/') && !seen[p] {
				seen[p] = true
				if _, ok := state[p]; !ok {
					l = append(l, p)
				}
			}
		}
	}
	sort.Strings(l)
	return
}

func TestP08_Containers(t *testing.T) {
	rule("containers", "structures, lists, list items that are structures, alternatives and embedded resources, of models and unknown namespaces, deleted by their path: everything listed below is gone, items behind a list item move up, all other paths keep their values; non-trivial: the document has other content")
	check(t, 3000, func(rt *rapid.T) {
		var log []string
		err := try(func() error {
			models := separateModels(rt, 4)
			d, err := genEmbedDoc(rt, models, "d")
			defer func() { d.Close() }()
			if err != nil {
				return err
			}
			if rapid.IntRange(0, 3).Draw(rt, "pantry") == 0 && d.FindModel(mustNs("xmpMM")) == nil {
				m, err := xmpmm.MakeModel(d)
				if err != nil {
					return err
				}
				for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "embedded"); i < n; i++ {
					x, err := genEmbedDoc(rt, separateModels(rt, 2), fmt.Sprint("e", i))
					if err != nil {
						return err
					}
					m.AddPantry(x)
				}
			}
			if rapid.Bool().Draw(rt, "reread") {
				b, err := xmp.Marshal(d)
				if err != nil {
					return err
				}
				r := xmp.NewDocument()
				if err := xmp.Unmarshal(b, r); err != nil {
					return err
				}
				d.Close()
				d = r
			}
			fixed := map[string]bool{}
			mirrored := map[string]bool{} // kept by models of other namespaces
			for _, p := range modelPrefixes() {
				for _, f := range modelFields(p) {
					if f.nsPrefix() != p {
						mirrored[f.tag.name] = true
					}
					if fixedArray(f.typ, 4) {
						fixed[strings.TrimPrefix(f.tag.name, "exifEX:")] = true
					}
				}
			}
			for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "n"); i < n; i++ {
				before, err := rawListing(d)
				if err != nil {
					return err
				}
				l := containers(before)
				if len(l) == 0 {
					break
				}
				p := rapid.SampledFrom(l).Draw(rt, "path")
				if _, always := alwaysListed(modelFor(d, p))[children(before, p)[0]]; always || fixed[topOf(p[strings.LastIndexByte(p, '/')+1:])] || fixed[topOf(p)] {
					excluded("fields which are always listed and fixed arrays")
					continue
				}
				if i := strings.IndexByte(p, '/'); i > 0 && strings.HasPrefix(p, "xmpMM:Pantry[") && mirrored[topOf(p[i+1:])] {
					excluded("properties in embedded resources that several models keep")
					continue
				}
				want := cloneMap(before)
				for _, k := range children(before, p) {
					delete(want, k)
				}
				kind := "struct"
				if is, ok := lastIndex(p); ok && !strings.HasSuffix(base(p), "/") {
					kind = "item"
					idx := 0
					if _, err := fmt.Sscan(is, &idx); err != nil {
						return err
					}
					b := base(p)
					for i, n := idx+1, items(before, b); i < n; i++ {
						from, to := fmt.Sprintf("%s[%d]", b, i), fmt.Sprintf("%s[%d]", b, i-1)
						for _, k := range children(before, from) {
							delete(want, k)
						}
						for _, k := range children(before, from) {
							want[to+k[len(from):]] = before[k]
						}
					}
				} else if len(children(before, p+"[0]")) > 0 {
					kind = "list"
				}
				log = append(log, "delete "+p)
				if err := d.SetPath(xmp.PathValue{Path: xmp.Path(p), Flags: xmp.DELETE}); err != nil {
					return fmt.Errorf("deleting %s: %v", p, err)
				}
				got, err := rawListing(d)
				if err != nil {
					return err
				}
				if x := diffMaps(want, got); x != "" {
					text, _ := xmp.Marshal(d)
					return fmt.Errorf("deleting %s: %s\n%s", p, x, text)
				}
				if s, err := d.GetPath(xmp.Path(p)); err == nil && s != "" && kind != "item" && !strings.Contains(p, "/") {
					return fmt.Errorf("%s reads %q after it was deleted", p, s)
				}
				tally("containers", strings.Join(log, ";")+fmt.Sprint(len(before)), len(want) > 0, kind, topOf(p))
			}
			return nil
		})
		if err != nil {
			rt.Fatalf("%v\n%s", err, strings.Join(log, "\n"))
		}
	})
}
