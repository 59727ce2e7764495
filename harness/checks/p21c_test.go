package checks

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/models/xmp_base"
	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// properties that identify a resource in a file format's model and how they
// are named among the standard identifiers
var identifierPaths = map[string]string{
	"exif:ImageUniqueID":        "uuid:exif",
	"iXML:fileUid":              "uuid:ixml",
	"qt:mdta/ContentIdentifier": "uuid:cid",
	"qt:udta/GUID":              "uuid:guid",
	"qt:udta/ISRCCode":          "uuid:isrc",
	"qt:udta/ContentID":         "uuid:cid",
	"qt:udta/ClipID":            "uuid:clipid",
	"qt:proapps/ClipID":         "uuid:clipid",
	"iTunes:StoreFrontID":       "uuid:sfid",
	"id3:podcastID":             "uuid:podcast",
	"id3:uniqueFileIdentifier":  "uuid:id3",
}

func idPaths(m map[string]string) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func TestP21_Identifiers(t *testing.T) {
	rule("P21/identifiers", "documents whose file format models carry identifiers, and a standard model with 0..3 identifiers: synchronising adds each identifier once, keeps those already there and changes nothing else; non-trivial: distinct documents with at least one native identifier")
	paths := idPaths(identifierPaths)
	check(t, 1500, func(rt *rapid.T) {
		var log []string
		err := try(func() error {
			d := xmp.NewDocument()
			want := map[string]bool{}
			base := &xmpbase.XmpBase{}
			first := rapid.Bool().Draw(rt, "first")
			if first {
				if _, err := d.AddModel(base); err != nil {
					return err
				}
			}
			set := rapid.SliceOfNDistinct(rapid.SampledFrom(paths), 0, 5, rapid.ID[string]).Draw(rt, "paths")
			for _, p := range set {
				v := genWord(rt, "id")
				if err := d.SetPath(xmp.PathValue{Path: xmp.Path(p), Value: v, Flags: xmp.CREATE | xmp.REPLACE}); err != nil {
					return err
				}
				log = append(log, fmt.Sprintf("%s=%s", p, v))
				want[identifierPaths[p]+":"+v] = true
			}
			if !first {
				if _, err := d.AddModel(base); err != nil {
					return err
				}
			}
			native := make([]string, 0, len(want))
			for k := range want {
				native = append(native, k)
			}
			sort.Strings(native)
			for i := rapid.IntRange(0, 3).Draw(rt, "present"); i > 0; i-- {
				w := genWord(rt, "present id")
				if len(native) > 0 && rapid.Bool().Draw(rt, "known") {
					w = rapid.SampledFrom(native).Draw(rt, "known id")
				}
				if base.Identifier.Contains(w) {
					continue
				}
				base.Identifier.Add(w)
				want[w] = true
				log = append(log, "present "+w)
			}
			before, err := otherPaths(d)
			if err != nil {
				return err
			}
			for round := 0; round < 2; round++ {
				if err := d.SyncModels(); err != nil {
					return fmt.Errorf("sync: %v", err)
				}
				got := map[string]bool{}
				for _, v := range base.Identifier {
					if got[v.ID] {
						return fmt.Errorf("identifier %s is listed twice", v.ID)
					}
					got[v.ID] = true
					if !want[v.ID] {
						return fmt.Errorf("identifier %s comes from nowhere", v.ID)
					}
				}
				for w := range want {
					if !got[w] {
						return fmt.Errorf("identifier %s is missing", w)
					}
				}
				after, err := otherPaths(d)
				if err != nil {
					return err
				}
				if diff := diffMaps(before, after); diff != "" {
					return fmt.Errorf("synchronising changed more than identifiers: %s", diff)
				}
			}
			tally("P21/identifiers", strings.Join(log, ";"), len(set) > 0, fmt.Sprintf("%d", len(set)))
			return nil
		})
		if err != nil {
			rt.Fatalf("%v\n%s", err, strings.Join(log, "\n"))
		}
	})
}

// otherPaths lists all values of a document except identifiers.
func otherPaths(d *xmp.Document) (map[string]string, error) {
	l, err := d.ListPaths()
	if err != nil {
		return nil, err
	}
	m := map[string]string{}
	for _, v := range l {
		if !strings.HasPrefix(string(v.Path), "xmp:Identifier") {
			m[string(v.Path)] = v.Value
		}
	}
	return m, nil
}
