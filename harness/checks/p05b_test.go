package checks

import (
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

func TestP05_Parts(t *testing.T) {
	rule("parts", "every field of every structure below every property of every model is filled alone with a random valid value, half of the numbers being as small as possible; the JSON form must be valid, stable, and read back as a document with the same listing, models and XML; non-trivial: a distinct (field, value)")
	for _, p := range modelPrefixes() {
		for _, x := range modelParts(p) {
			x := x
			t.Run(p+" "+x.name, func(t *testing.T) {
				check(t, 3, func(rt *rapid.T) {
					v, ok := genFieldPart(rt, x.f.typ, x.path, x.name)
					if !ok {
						excluded("fields without generator: " + x.name)
						return
					}
					m := newModel(p)
					setField(m, x.f, v)
					c := canon(v)
					if c == "" {
						excluded("structures without content")
						return
					}
					tally("parts", x.name+"="+c, c != "", p)
					if err := try(func() error {
						d := xmp.NewDocument()
						defer d.Close()
						if _, err := d.AddModel(m); err != nil {
							return err
						}
						return checkJSON(rt, d)
					}); err != nil {
						rt.Fatalf("%s = %.500s\n%v", x.name, c, err)
					}
				})
			})
		}
	}
}
