package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// docOp is one operation on a document with all its parameters drawn, so that
// it can be run any number of times and in any goroutine.
type docOp struct {
	name string
	// run applies the operation; src is another document for the operations
	// that copy content, nil otherwise. The text is what the caller gets to see.
	run     func(d *xmp.Document, src *xmp.Document) (*xmp.Document, string)
	needSrc bool
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return "error: " + err.Error()
}

// genDocText draws the text of a document: random models, unknown properties
// or a sample.
func genDocText(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 6).Draw(t, label+".kind") {
	case 0:
		return string(rapid.SampledFrom(shortCorpus()).Draw(t, label+".sample"))
	case 1:
		doc := &rdfDoc{about: genAbout(t), props: genRdfProps(t, append(unknownNs[:2:2], knownUnknownNs[:2]...), 2, 1, 4, label)}
		s, _ := writeRDF(t, doc, prefixTable(unknownNs), nil)
		return s
	case 2:
		// named extensions
		d := xmp.NewDocument()
		defer d.Close()
		ext := rapid.SampledFrom([]string{"xmp:extension", "iXML:extension"}).Draw(t, label+".ext")
		d.SetPath(xmp.PathValue{Path: xmp.Path(ext + "/AAF/FIELD"), Value: "x", Flags: xmp.CREATE})
		for n := rapid.IntRange(0, 4).Draw(t, label+".fields"); n > 0; n-- {
			tg := genExtensionTarget(t, ext)
			d.SetPath(xmp.PathValue{Path: xmp.Path(tg.path), Value: tg.value, Flags: xmp.CREATE | xmp.NOFAIL})
		}
		b, err := xmp.Marshal(d)
		if err != nil {
			t.Fatalf("writing: %v", err)
		}
		return string(b)
	default:
		d := xmp.NewDocument()
		defer d.Close()
		for i, n := 0, rapid.IntRange(1, 2).Draw(t, label+".models"); i < n; i++ {
			p := rapid.SampledFrom(modelPrefixes()).Draw(t, label+".model")
			ns := mustNs(p)
			if d.FindModel(ns) == nil {
				d.AddModel(genModel(t, p, label))
			}
		}
		d.SetDirty()
		b, err := xmp.Marshal(d)
		if err != nil {
			t.Fatalf("writing: %v", err)
		}
		return string(b)
	}
}

func fromText(s string) *xmp.Document {
	d := xmp.NewDocument()
	xmp.Unmarshal([]byte(s), d)
	return d
}

// genOp draws an operation. Paths and values come from the listings of texts.
func genOp(t *rapid.T) docOp {
	flags := []xmp.SyncFlags{xmp.CREATE, xmp.REPLACE, xmp.DELETE, xmp.APPEND, xmp.UNIQUE, xmp.NOFAIL, xmp.CREATE | xmp.REPLACE, xmp.CREATE | xmp.APPEND, xmp.DEFAULT, xmp.MERGE, xmp.EXTEND, xmp.REPLACE | xmp.DELETE}
	switch rapid.IntRange(0, 17).Draw(t, "op") {
	case 0, 1:
		s := genDocText(t, "text")
		return docOp{name: "read", run: func(d, _ *xmp.Document) (*xmp.Document, string) {
			d.Close()
			d = xmp.NewDocument()
			return d, errText(xmp.Unmarshal([]byte(s), d))
		}}
	case 2:
		s := genDocText(t, "text")
		return docOp{name: "read into", run: func(d, _ *xmp.Document) (*xmp.Document, string) {
			return d, errText(xmp.Unmarshal([]byte(s), d))
		}}
	case 3, 4, 5:
		// a few writes
		s := genDocText(t, "text")
		src := fromText(s)
		defer src.Close()
		l, _ := src.ListPaths()
		var pl xmp.PathValueList
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "writes"); i < n; i++ {
			if len(l) == 0 || rapid.IntRange(0, 2).Draw(t, "unknown") == 0 {
				tg := genUnknownTarget(t)
				pl = append(pl, xmp.PathValue{Path: xmp.Path(tg.path), Value: tg.value, Namespace: editURI(tg.path), Flags: rapid.SampledFrom(flags).Draw(t, "flags")})
				continue
			}
			v := rapid.SampledFrom(l).Draw(t, "path")
			v.Flags = rapid.SampledFrom(flags).Draw(t, "flags")
			if rapid.IntRange(0, 4).Draw(t, "clear") == 0 {
				v.Value, v.Flags = "", xmp.DELETE
			}
			pl = append(pl, v)
		}
		return docOp{name: fmt.Sprint("set ", pl), run: func(d, _ *xmp.Document) (*xmp.Document, string) {
			var r []string
			for _, v := range pl {
				e := d.SetPath(v)
				x, e2 := d.GetPath(v.Path)
				r = append(r, errText(e), x, errText(e2))
			}
			return d, strings.Join(r, "|")
		}}
	case 6:
		p := rapid.SampledFrom(modelPrefixes()).Draw(t, "model")
		return docOp{name: "remove " + p, run: func(d, _ *xmp.Document) (*xmp.Document, string) {
			return d, fmt.Sprint(d.RemoveNamespaceByName(p))
		}}
	case 7:
		// remove something that is there
		k := rapid.IntRange(0, 7).Draw(t, "which")
		return docOp{name: "remove one", run: func(d, _ *xmp.Document) (*xmp.Document, string) {
			if n := d.Nodes(); len(n) > 0 {
				name := n[k%len(n)].Name()
				if ns := d.FindNs(name+":", ""); ns != nil {
					return d, name + fmt.Sprint(d.RemoveNamespace(ns))
				}
			}
			return d, "none"
		}}
	case 8:
		var keep xmp.NamespaceList
		for i, n := 0, rapid.IntRange(0, 6).Draw(t, "keep"); i < n; i++ {
			keep = append(keep, mustNs(rapid.SampledFrom(modelPrefixes()).Draw(t, "name")))
		}
		return docOp{name: "filter", run: func(d, _ *xmp.Document) (*xmp.Document, string) {
			return d, fmt.Sprint(d.FilterNamespaces(keep))
		}}
	case 9:
		s := genDocText(t, "text")
		return docOp{name: "move models", run: func(d, _ *xmp.Document) (*xmp.Document, string) {
			tmp := fromText(s)
			var r []string
			for _, n := range tmp.Nodes() {
				if n.Model != nil {
					_, err := d.AddModel(n.Model)
					r = append(r, errText(err))
				}
			}
			tmp.Close()
			return d, strings.Join(r, "|")
		}}
	case 10:
		return docOp{name: "write", run: func(d, _ *xmp.Document) (*xmp.Document, string) {
			b, err := xmp.Marshal(d)
			c, err2 := xmp.MarshalIndent(d, "", " ")
			return d, string(b) + errText(err) + string(c) + errText(err2)
		}}
	case 11:
		return docOp{name: "to JSON", run: func(d, _ *xmp.Document) (*xmp.Document, string) {
			b, err := json.Marshal(d)
			return d, string(b) + errText(err)
		}}
	case 12:
		return docOp{name: "through JSON", run: func(d, _ *xmp.Document) (*xmp.Document, string) {
			b, err := json.Marshal(d)
			if err != nil {
				return d, errText(err)
			}
			d.Close()
			d = xmp.NewDocument()
			return d, errText(json.Unmarshal(b, d))
		}}
	case 13:
		return docOp{name: "through XML", run: func(d, _ *xmp.Document) (*xmp.Document, string) {
			b, err := xmp.Marshal(d)
			if err != nil {
				return d, errText(err)
			}
			d.Close()
			d, err = xmp.Scan(bytes.NewReader(append([]byte("\x00\xff"), b...)))
			if err != nil {
				return xmp.NewDocument(), errText(err)
			}
			return d, "ok"
		}}
	case 14:
		f := rapid.SampledFrom([]xmp.SyncFlags{xmp.MERGE, xmp.EXTEND, xmp.ADD, xmp.DEFAULT | xmp.NOFAIL}).Draw(t, "policy")
		return docOp{name: fmt.Sprint("merge ", f), needSrc: true, run: func(d, src *xmp.Document) (*xmp.Document, string) {
			return d, errText(d.Merge(src, f))
		}}
	case 15:
		return docOp{name: "embed", needSrc: true, run: func(d, src *xmp.Document) (*xmp.Document, string) {
			m, err := d.MakeModel(xmpmm.NsXmpMM)
			if err != nil {
				return d, errText(err)
			}
			if mm := m.(*xmpmm.XmpMM); len(mm.Pantry) < 4 {
				mm.AddPantry(src)
				d.SetDirty()
			}
			return d, "ok"
		}}
	case 16:
		return docOp{name: "sync", run: func(d, _ *xmp.Document) (*xmp.Document, string) {
			return d, errText(d.SyncModels())
		}}
	default:
		s := genDocText(t, "text")
		return docOp{name: "churn", run: func(d, _ *xmp.Document) (*xmp.Document, string) {
			tmp := fromText(s)
			tmp.Merge(d, xmp.MERGE)
			b, err := xmp.Marshal(tmp)
			tmp.Close()
			tmp.Close() // closing twice is harmless
			return d, string(b) + errText(err)
		}}
	}
}
