package checks

import (
	"encoding/xml"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/models/cc"
	"github.com/trimmer-io/go-xmp/models/crs"
	"github.com/trimmer-io/go-xmp/models/dc"
	"github.com/trimmer-io/go-xmp/models/digikam"
	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/itunes"
	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/models/pdf"
	"github.com/trimmer-io/go-xmp/models/pm"
	"github.com/trimmer-io/go-xmp/models/ps"
	"github.com/trimmer-io/go-xmp/models/riff"
	"github.com/trimmer-io/go-xmp/models/tiff"
	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	xmpbj "github.com/trimmer-io/go-xmp/models/xmp_bj"
	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	xmprights "github.com/trimmer-io/go-xmp/models/xmp_rights"
	xmptpg "github.com/trimmer-io/go-xmp/models/xmp_tpg"
	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// P28: which model a document has for a namespace, and what the registry says
// about namespaces.

type modelAccess struct {
	mk   func(d *xmp.Document) (xmp.Model, error)
	find func(d *xmp.Document) xmp.Model
}

func access[T xmp.Model](mk func(d *xmp.Document) (T, error), find func(d *xmp.Document) T) modelAccess {
	norm := func(m T) xmp.Model {
		if reflect.ValueOf(m).IsNil() {
			return nil
		}
		return m
	}
	return modelAccess{
		func(d *xmp.Document) (xmp.Model, error) { m, err := mk(d); return norm(m), err },
		func(d *xmp.Document) xmp.Model { return norm(find(d)) },
	}
}

// typedAccess are the functions every model's package has for its namespace.
var typedAccess = map[string]modelAccess{
	"cc": access(cc.MakeModel, cc.FindModel), "crs": access(crs.MakeModel, crs.FindModel), "dc": access(dc.MakeModel, dc.FindModel),
	"digiKam": access(digikam.MakeModel, digikam.FindModel), "exif": access(exif.MakeModel, exif.FindModel), "id3": access(id3.MakeModel, id3.FindModel),
	"iTunes": access(itunes.MakeModel, itunes.FindModel), "iXML": access(ixml.MakeModel, ixml.FindModel), "pdf": access(pdf.MakeModel, pdf.FindModel),
	"photomechanic": access(pm.MakeModel, pm.FindModel), "photoshop": access(ps.MakeModel, ps.FindModel), "riffinfo": access(riff.MakeModel, riff.FindModel),
	"tiff": access(tiff.MakeModel, tiff.FindModel), "xmp": access(xmpbase.MakeModel, xmpbase.FindModel), "xmpBJ": access(xmpbj.MakeModel, xmpbj.FindModel),
	"xmpDM": access(xmpdm.MakeModel, xmpdm.FindModel), "xmpMM": access(xmpmm.MakeModel, xmpmm.FindModel), "xmpRights": access(xmprights.MakeModel, xmprights.FindModel),
	"xmpTPg": access(xmptpg.MakeModel, xmptpg.FindModel),
}

// bare namespaces are registered without a model.
var bare = []string{"stRef", "stEvt", "stDim", "xmpG"}

type heldModel struct {
	name string
	m    xmp.Model
}

// scribble replaces the content of a model in place.
func scribble(rt *rapid.T, h heldModel, label string) {
	reflect.ValueOf(h.m).Elem().Set(reflect.ValueOf(genModel(rt, h.name, label)).Elem())
}

func heldNames(l []heldModel) string {
	var s []string
	for _, v := range l {
		s = append(s, v.name)
	}
	return strings.Join(s, " ")
}

func TestP28_models(t *testing.T) {
	rule("models", "4-18 steps on one document: models made, found, added, replaced and removed (by namespace, name, list, filter), content changed through handles got earlier; non-trivial: at least three models seen and a replacement or removal")
	all := modelPrefixes()
	check(t, 7000, func(rt *rapid.T) {
		d := xmp.NewDocument()
		defer func() { d.Close() }()
		var have []heldModel // what the document must contain, in order
		var old []heldModel  // handles of models that were replaced or removed
		var log []string
		made, gone := 0, 0
		// a few namespaces only, so that steps meet
		pool := rapid.SliceOfNDistinct(rapid.SampledFrom(all), 2, 6, rapid.ID[string]).Draw(rt, "pool")
		pick := func(label string) string { return rapid.SampledFrom(pool).Draw(rt, label) }
		index := func(name string) int {
			for i, v := range have {
				if v.name == name {
					return i
				}
			}
			return -1
		}
		drop := func(name string) bool {
			i := index(name)
			if i < 0 {
				return false
			}
			old = append(old, have[i])
			have = append(append([]heldModel(nil), have[:i]...), have[i+1:]...)
			gone++
			return true
		}
		n := rapid.IntRange(4, 18).Draw(rt, "n")
		for i := 0; i < n; i++ {
			l := fmt.Sprintf("s%d", i)
			op := rapid.SampledFrom([]string{"make", "make", "make", "typed", "add", "again", "bad", "remove", "removeName", "removeList", "keep", "change"}).Draw(rt, l)
			p := pick(l + ".ns")
			ns, err := xmp.GetNamespace(p)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			log = append(log, op+" "+p)
			switch op {
			case "make", "typed":
				mk := func() (xmp.Model, error) { return d.MakeModel(ns) }
				if a, ok := typedAccess[p]; ok && op == "typed" {
					mk = func() (xmp.Model, error) { return a.mk(d) }
				}
				m, err := mk()
				if err != nil || m == nil {
					rt.Fatalf("after %q: MakeModel(%s) = %v, %v", log, p, m, err)
				}
				if k := index(p); k >= 0 {
					if m != have[k].m {
						rt.Fatalf("after %q: MakeModel(%s) is not the model the document has", log, p)
					}
				} else {
					if c := canonModel(m); len(c) > 0 && !onlyVersion(c) {
						rt.Fatalf("after %q: MakeModel(%s) made a model with %v", log, p, c)
					}
					have = append(have, heldModel{p, m})
					made++
				}
			case "add":
				m := genModel(rt, p, l)
				node, err := d.AddModel(m)
				if err != nil || node == nil || node.Model != m {
					rt.Fatalf("after %q: AddModel: %v, %v", log, node, err)
				}
				if k := index(p); k >= 0 {
					old = append(old, have[k])
					have[k].m = m
					gone++
				} else {
					have = append(have, heldModel{p, m})
					made++
				}
			case "again":
				if k := index(p); k >= 0 {
					if _, err := d.AddModel(have[k].m); err != nil {
						rt.Fatalf("after %q: %v", log, err)
					}
				}
			case "bad":
				if node, err := d.AddModel(nil); err == nil || node != nil {
					rt.Fatalf("after %q: AddModel(nil) succeeded", log)
				}
				b, err := xmp.GetNamespace(rapid.SampledFrom(bare).Draw(rt, l+".bare"))
				if err != nil {
					rt.Fatalf("%v", err)
				}
				if m, err := d.MakeModel(b); err == nil || m != nil {
					rt.Fatalf("after %q: MakeModel(%s) = %v, %v", log, b.GetName(), m, err)
				}
				if d.RemoveNamespace(nil) || d.RemoveNamespaceByName("no-such") || d.RemoveNamespace(b) {
					rt.Fatalf("after %q: removed something that is not there", log)
				}
			case "remove", "removeName":
				want := drop(p)
				got := false
				if op == "remove" {
					got = d.RemoveNamespace(ns)
				} else {
					got = d.RemoveNamespaceByName(p)
				}
				if got != want {
					rt.Fatalf("after %q: returned %v, want %v", log, got, want)
				}
			case "removeList", "keep":
				var l1 xmp.NamespaceList
				names := map[string]bool{}
				for _, q := range rapid.SliceOfN(rapid.SampledFrom(pool), 0, 4).Draw(rt, l+".list") {
					x, _ := xmp.GetNamespace(q)
					l1 = append(l1, x)
					names[q] = true
				}
				want := false
				for _, v := range append([]heldModel(nil), have...) {
					if names[v.name] == (op == "removeList") {
						want = drop(v.name) || want
					}
				}
				got := false
				if op == "removeList" {
					got = d.RemoveNamespaces(l1)
				} else {
					got = d.FilterNamespaces(l1)
				}
				if got != want {
					rt.Fatalf("after %q: returned %v, want %v", log, got, want)
				}
			case "change":
				if k := index(p); k >= 0 {
					scribble(rt, have[k], l)
				}
			}
			// exactly these models, in this order
			var nodes []string
			for _, v := range d.Nodes() {
				nodes = append(nodes, v.Name())
			}
			if got := strings.Join(nodes, " "); got != heldNames(have) {
				rt.Fatalf("after %q the document has %q, want %q", log, got, heldNames(have))
			}
			known := d.Namespaces()
			for k, v := range have {
				if d.Nodes()[k].Model != v.m {
					rt.Fatalf("after %q the model of %s is another one", log, v.name)
				}
				for _, x := range v.m.Namespaces() {
					if !known.Contains(x) {
						rt.Fatalf("after %q the document does not know %s", log, x.GetName())
					}
				}
			}
			for _, q := range append(append([]string(nil), pool...), bare...) {
				x, _ := xmp.GetNamespace(q)
				var want xmp.Model
				if k := index(q); k >= 0 {
					want = have[k].m
				}
				if got := d.FindModel(x); got != want {
					rt.Fatalf("after %q: FindModel(%s) = %v, want %v", log, q, got, want)
				}
				if a, ok := typedAccess[q]; ok {
					if got := a.find(d); got != want {
						rt.Fatalf("after %q: %s FindModel = %v, want %v", log, q, got, want)
					}
				}
				node := d.FindNode(x)
				if (node != nil) != (want != nil) || node != nil && node.Model != want {
					rt.Fatalf("after %q: FindNode(%s) = %v", log, q, node)
				}
			}
		}
		// models the document no longer has do not matter any more
		for i, v := range old {
			held := false
			for _, w := range have {
				held = held || w.m == v.m
			}
			if !held {
				scribble(rt, v, fmt.Sprintf("old%d", i))
			}
		}
		// written is what the models hold now
		d.SetDirty()
		b1, err := xmp.Marshal(d)
		if err != nil {
			rt.Fatalf("after %q: Marshal: %v", log, err)
		}
		e := xmp.NewDocument()
		defer e.Close()
		for _, v := range have {
			if _, err := e.AddModel(v.m); err != nil {
				rt.Fatalf("AddModel(%s): %v", v.name, err)
			}
		}
		b2, err := xmp.Marshal(e)
		if err != nil {
			rt.Fatalf("Marshal: %v", err)
		}
		if x := diffWritten(b1, b2); x != "" {
			rt.Fatalf("after %q the document is written with other content than its models have: %s\n%s\n%s", log, x, b1, b2)
		}
		tally("models", strings.Join(log, "; "), made > 2 && gone > 0)
	})
}

// onlyVersion is true for models that start with the version of their format.
func onlyVersion(c map[string]string) bool {
	for k := range c {
		if !strings.Contains(strings.ToLower(k), "version") {
			return false
		}
	}
	return true
}

// diffWritten compares the content of two written documents.
func diffWritten(a, b []byte) string {
	x, err := parseRDF(a)
	if err != nil {
		return err.Error()
	}
	y, err := parseRDF(b)
	if err != nil {
		return err.Error()
	}
	return diffMaps(rdfCanon(y.props), rdfCanon(x.props))
}

func TestP28_fresh(t *testing.T) {
	rule("fresh", "two instances of one model made in different documents (or by the namespace itself), one filled completely; the other has to stay as new; non-trivial: at least one property was set")
	check(t, 5000, func(rt *rapid.T) {
		p := rapid.SampledFrom(modelPrefixes()).Draw(rt, "model")
		ns, err := xmp.GetNamespace(p)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		var docs []*xmp.Document
		mk := func(label string) xmp.Model {
			if rapid.Bool().Draw(rt, label) {
				d := xmp.NewDocument()
				docs = append(docs, d)
				m, err := d.MakeModel(ns)
				if err != nil {
					rt.Fatalf("MakeModel(%s): %v", p, err)
				}
				return m
			}
			return ns.NewModel()
		}
		a, b := mk("first"), mk("second")
		if a == nil || b == nil || a == b {
			rt.Fatalf("models of %s are %v and %v", p, a, b)
		}
		if !a.Can(p) || a.Can(p+"x") || a.Can("") {
			rt.Fatalf("model of %s does not stand for it", p)
		}
		if l := a.Namespaces(); len(l) == 0 || l[0].GetName() != p || !l.Contains(ns) || !l.ContainsName(p) {
			rt.Fatalf("model of %s has namespaces %v", p, l)
		}
		before := canonModel(b)
		set := 0
		for i, f := range modelFields(p) {
			if v, ok := genField(rt, f, fmt.Sprintf("f%d", i)); ok {
				setField(a, f, v)
				set++
				// write into shared memory as well, if there is any
				if fb := reflect.ValueOf(b).Elem().Field(f.index); fb.Kind() == reflect.Slice && fb.Len() > 0 {
					rt.Fatalf("new model of %s has values in %s", p, f.tag.name)
				}
			}
		}
		if x := diffMaps(before, canonModel(b)); x != "" {
			rt.Fatalf("filling one model of %s changed another: %s", p, x)
		}
		if x := diffMaps(before, canonModel(ns.NewModel())); x != "" {
			rt.Fatalf("filling a model of %s changed new ones: %s", p, x)
		}
		for _, d := range docs {
			d.Close()
		}
		tally("fresh", fmt.Sprintf("%s %d", p, set), set > 0)
	})
}

// the registry as the checks know it: everything registered by the packages
// plus what the cases register.
type registryModel struct {
	byName, byURI map[string]*xmp.Namespace
	groups        map[xmp.NamespaceGroup][]*xmp.Namespace
	serial        int
}

var metaGroups = []xmp.NamespaceGroup{xmp.XmpMetadata, xmp.ImageMetadata, xmp.MusicMetadata, xmp.MovieMetadata, xmp.SoundMetadata, xmp.CameraMetadata, xmp.VfxMetadata, xmp.RightsMetadata}

func newRegistryModel() *registryModel {
	r := &registryModel{byName: map[string]*xmp.Namespace{}, byURI: map[string]*xmp.Namespace{}, groups: map[xmp.NamespaceGroup][]*xmp.Namespace{}}
	for _, p := range xmp.NsRegistry.Prefixes() {
		ns, _ := xmp.GetNamespace(p)
		r.byName[p] = ns
	}
	for _, ns := range xmp.NsRegistry.Namespaces() {
		r.byURI[ns.GetURI()] = ns
	}
	for _, g := range metaGroups {
		l, err := xmp.GetGroupNamespaces(g)
		if err == nil {
			r.groups[g] = append([]*xmp.Namespace(nil), l...)
		}
	}
	return r
}

func (r *registryModel) compare() error {
	var names, want []string
	for _, v := range xmp.NsRegistry.Prefixes() {
		names = append(names, v)
	}
	for k := range r.byName {
		want = append(want, k)
	}
	sort.Strings(names)
	sort.Strings(want)
	if strings.Join(names, " ") != strings.Join(want, " ") {
		return fmt.Errorf("registered prefixes are %q, want %q", names, want)
	}
	for k, v := range r.byName {
		ns, err := xmp.GetNamespace(k)
		if err != nil || ns != v {
			return fmt.Errorf("namespace of %s is %v, %v", k, ns, err)
		}
	}
	l := xmp.NsRegistry.Namespaces()
	if len(l) != len(r.byURI) {
		return fmt.Errorf("%d namespaces registered, want %d", len(l), len(r.byURI))
	}
	for _, ns := range l {
		if r.byURI[ns.GetURI()] != ns {
			return fmt.Errorf("namespace %s should not be listed", ns.GetURI())
		}
	}
	for uri, v := range r.byURI {
		if p := xmp.NsRegistry.GetPrefix(uri); p != v.GetName() {
			return fmt.Errorf("prefix of %s is %s, want %s", uri, p, v.GetName())
		}
	}
	for _, g := range metaGroups {
		l, err := xmp.GetGroupNamespaces(g)
		if (err == nil) != (len(r.groups[g]) > 0) || len(l) != len(r.groups[g]) {
			return fmt.Errorf("group %s has %d namespaces, %v, want %d", g, len(l), err, len(r.groups[g]))
		}
		for i, v := range r.groups[g] {
			if l[i] != v {
				return fmt.Errorf("group %s has %s at %d, want %s", g, l[i].GetName(), i, v.GetName())
			}
		}
	}
	return nil
}

func TestP28_registry(t *testing.T) {
	rule("registry", "namespaces with new prefixes and URIs registered in 0-3 groups, then looked up in every way next to all others, the lists returned are overwritten; non-trivial: at least one group")
	ref := newRegistryModel()
	if err := ref.compare(); err != nil {
		t.Fatal(err)
	}
	// every registered namespace is found by what it says about itself
	for p, ns := range ref.byName {
		if ns.GetName() != p || xmp.NsRegistry.GetPrefix(ns.GetURI()) != p {
			t.Fatalf("namespace %s is known as %s", p, xmp.NsRegistry.GetPrefix(ns.GetURI()))
		}
	}
	check(t, 600, func(rt *rapid.T) {
		ref.serial++
		p := rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9._-]{0,6}`).Draw(rt, "prefix") + fmt.Sprint(ref.serial) + "q"
		uri := rapid.SampledFrom([]string{"http://example.com/%s/", "http://example.com/%s#", "urn:x:%s", "%s"}).Draw(rt, "uri")
		uri = fmt.Sprintf(uri, p)
		ns := xmp.NewNamespace(p, uri, nil)
		if ns.GetName() != p || ns.GetURI() != uri {
			rt.Fatalf("NewNamespace: %v", ns)
		}
		if _, err := xmp.GetNamespace(p); err == nil || xmp.NsRegistry.GetPrefix(uri) != "" || xmp.NsRegistry.Short(uri, "name") != "name" {
			rt.Fatalf("%s is known before it was registered", p)
		}
		groups := rapid.SliceOfNDistinct(rapid.SampledFrom(append([]xmp.NamespaceGroup{xmp.NoMetadata}, metaGroups...)), 0, 3, rapid.ID[xmp.NamespaceGroup]).Draw(rt, "groups")
		// whatever was returned earlier is the caller's
		for _, g := range groups {
			l := g.Namespaces()
			for i := range l {
				l[i] = ns
			}
			_ = append(l, ns)
		}
		l := xmp.NsRegistry.Namespaces()
		for i := range l {
			l[i] = ns
		}
		xmp.Register(ns, groups...)
		ref.byName[p], ref.byURI[uri] = ns, ns
		in := map[xmp.NamespaceGroup]bool{}
		for _, g := range groups {
			if g != xmp.NoMetadata {
				ref.groups[g] = append(ref.groups[g], ns)
				in[g] = true
			}
		}
		if err := ref.compare(); err != nil {
			rt.Fatalf("after registering %s in %v: %v", p, groups, err)
		}
		for _, g := range metaGroups {
			if g.Contains(ns) != in[g] {
				rt.Fatalf("%s in group %s: %v", p, g, g.Contains(ns))
			}
		}
		if got := xmp.NamespaceGroupList(groups).Contains(ns); got != (len(in) > 0) {
			rt.Fatalf("%s in groups %v: %v", p, groups, got)
		}
		// names
		name := genName.Draw(rt, "name")
		full := p + ":" + name
		if ns.Expand(name) != full || ns.Expand("") != p || ns.Split(full) != name || ns.Split(name) != name {
			rt.Fatalf("%s: Expand %q Split %q", p, ns.Expand(name), ns.Split(full))
		}
		if x := ns.XMLName(name); x != (xml.Name{Local: full}) || ns.RootName() != (xml.Name{Local: p}) || ns.XMLName("") != ns.RootName() {
			rt.Fatalf("%s: XMLName %v RootName %v", p, x, ns.RootName())
		}
		if a := ns.GetAttr(); a.Name.Local != "xmlns:"+p || a.Value != uri {
			rt.Fatalf("%s: GetAttr %v", p, a)
		}
		if !ns.MatchAttrName(full) || ns.MatchAttrName("x"+full) || ns.MatchAttrName("x:"+p) {
			rt.Fatalf("%s: MatchAttrName", p)
		}
		if !ns.MatchXMLName(xml.Name{Local: full}) || !ns.MatchXMLName(xml.Name{Space: uri, Local: name}) || ns.MatchXMLName(xml.Name{Space: uri + "x", Local: full}) || ns.MatchXMLName(xml.Name{Local: "x" + full}) {
			rt.Fatalf("%s: MatchXMLName", p)
		}
		if got := xmp.NsRegistry.Short(uri, name); got != full {
			rt.Fatalf("Short = %q, want %q", got, full)
		}
		// lists: one namespace per URI is kept, the first one
		var list xmp.NamespaceList
		var want []*xmp.Namespace
		seen := map[string]bool{}
		for i, k := range rapid.SliceOfN(rapid.IntRange(0, 3), 0, 8).Draw(rt, "list") {
			v := xmp.NewNamespace(fmt.Sprintf("l%d", i), fmt.Sprintf("urn:l:%d", k), nil)
			list = append(list, v)
			if !seen[v.GetURI()] {
				want = append(want, v)
			}
			seen[v.GetURI()] = true
		}
		for _, v := range list {
			if !list.Contains(v) || !list.ContainsName(v.GetName()) {
				rt.Fatalf("list does not contain %s", v.GetName())
			}
		}
		if list.Contains(ns) || list.Contains(nil) || list.ContainsName("") || list.ContainsName(p) {
			rt.Fatalf("list contains %s", p)
		}
		got := list.RemoveDups()
		if len(got) != len(want) || len(list) != len(want) {
			rt.Fatalf("RemoveDups kept %d, want %d", len(got), len(want))
		}
		for i := range want {
			if got[i] != want[i] || list[i] != want[i] {
				rt.Fatalf("RemoveDups kept %s at %d, want %s", got[i].GetName(), i, want[i].GetName())
			}
		}
		tally("registry", full+uri, len(in) > 0)
	})
}
