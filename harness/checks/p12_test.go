package checks

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// ownedListing returns the properties of a document by the namespace of the
// node that holds them.
func ownedListing(d *xmp.Document) (map[string]map[string]string, error) {
	m := map[string]map[string]string{}
	for _, n := range d.Nodes() {
		name := n.Name()
		if m[name] == nil {
			m[name] = map[string]string{}
		}
		if n.Model != nil {
			l, err := xmp.ListModelPaths(n.Model)
			if err != nil {
				return nil, err
			}
			for _, v := range l {
				m[name][string(v.Path)] = v.Value
			}
		}
		l, err := n.ListPaths(xmp.NewPath(name))
		if err != nil {
			return nil, err
		}
		for _, v := range l {
			m[name][string(v.Path)] = v.Value
		}
	}
	return m, nil
}

func flatten(m map[string]map[string]string) map[string]string {
	r := map[string]string{}
	for n, l := range m {
		for k, v := range l {
			r[n+" "+k] = v
		}
	}
	return r
}

func flat1(m map[string]map[string]string) map[string]string {
	r := map[string]string{}
	for _, l := range m {
		for k, v := range l {
			r[k] = v
		}
	}
	return r
}

func names(m map[string]map[string]string) (l []string) {
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return
}

var allGroups = []string{"xmp", "image", "music", "movie", "sound", "camera", "vfx", "rights"}

// genNsList draws namespaces, some of them in use, some not.
func genNsList(t *rapid.T, d *xmp.Document, used []string, label string) xmp.NamespaceList {
	l := xmp.NamespaceList{}
	n := rapid.IntRange(0, 4).Draw(t, label)
	for i := 0; i < n; i++ {
		if len(used) > 0 && rapid.IntRange(0, 3).Draw(t, label+".used") > 0 {
			if ns := d.FindNs(rapid.SampledFrom(used).Draw(t, label+".name")+":", ""); ns != nil {
				l = append(l, ns)
			}
		} else {
			l = append(l, mustNs(rapid.SampledFrom(modelPrefixes()).Draw(t, label+".other")))
		}
	}
	if rapid.IntRange(0, 5).Draw(t, label+".missing") == 0 {
		l = append(l, &xmp.Namespace{Name: "nosuch", URI: "http://example.com/nosuch"})
	}
	return l
}

func membersOf(g string) (l []string) {
	for _, ns := range xmp.NamespaceGroup(g).Namespaces() {
		l = append(l, ns.GetName())
	}
	return
}

func nsNames(l xmp.NamespaceList) (r []string) {
	for _, ns := range l {
		r = append(r, ns.GetName())
	}
	return
}

func TestP12_Histories(t *testing.T) {
	rule("histories", "documents of up to six models and unknown properties go through 1..6 of: removing a namespace (by object or name), removing a list, keeping a list, applying a filter (built from lists or parsed from text with names, groups, signs), re-adding a removed model or property, writing and re-reading; after each removal exactly the properties of the selected namespaces must be gone, the result must tell whether there were any, and the rest must survive writing and re-reading; non-trivial: distinct (content, selection) where some but not all namespaces go")
	assume("P12: properties a model mirrors from another namespace belong to that model")
	check(t, 2500, func(rt *rapid.T) {
		var log []string
		err := try(func() error {
			e, err := newEditDoc(rt)
			if err != nil {
				return err
			}
			d := e.d
			defer func() { d.Close() }()
			for i, n := 0, rapid.IntRange(0, 4).Draw(rt, "extra"); i < n; i++ {
				tg, err := e.genTarget(rt)
				if err != nil {
					return err
				}
				d.SetPath(xmp.PathValue{Path: xmp.Path(tg.path), Value: tg.value, Flags: xmp.CREATE | xmp.REPLACE, Namespace: editURI(tg.path)})
			}
			if _, err := d.ListPaths(); err != nil { // synchronises
				return err
			}
			state, err := ownedListing(d)
			if err != nil {
				return err
			}
			steps := rapid.IntRange(1, 6).Draw(rt, "steps")
			for i := 0; i < steps; i++ {
				used := names(state)
				gone := map[string]bool{}
				var got bool
				op := rapid.IntRange(0, 8).Draw(rt, "op")
				switch op {
				case 0, 1: // one namespace
					name := rapid.SampledFrom(modelPrefixes()).Draw(rt, "name")
					if len(used) > 0 && rapid.IntRange(0, 4).Draw(rt, "hit") > 0 {
						name = rapid.SampledFrom(used).Draw(rt, "name")
					}
					gone[name] = true
					if op == 0 {
						got = d.RemoveNamespaceByName(name)
						log = append(log, "RemoveNamespaceByName("+name+")")
					} else {
						ns := d.FindNs(name+":", "")
						if ns == nil {
							return fmt.Errorf("no namespace %s in %v", name, used)
						}
						got = d.RemoveNamespace(ns)
						log = append(log, "RemoveNamespace("+name+")")
					}
				case 2:
					l := genNsList(rt, d, used, "remove")
					for _, n := range nsNames(l) {
						gone[n] = true
					}
					got = d.RemoveNamespaces(l)
					log = append(log, fmt.Sprintf("RemoveNamespaces(%v)", nsNames(l)))
				case 3:
					l := genNsList(rt, d, used, "keep")
					for _, n := range used {
						gone[n] = !l.ContainsName(n)
					}
					got = d.FilterNamespaces(l)
					log = append(log, fmt.Sprintf("FilterNamespaces(%v)", nsNames(l)))
				case 4:
					in, ex := genNsList(rt, d, used, "include"), genNsList(rt, d, used, "exclude")
					for _, n := range used {
						gone[n] = len(in) > 0 && !in.ContainsName(n) || ex.ContainsName(n)
					}
					got = xmp.NewFilter(in, ex).Apply(d)
					log = append(log, fmt.Sprintf("NewFilter(%v, %v).Apply", nsNames(in), nsNames(ex)))
				case 5:
					// text form; the name xmp stands for the group
					var words, in, ex []string
					for j, n := 0, rapid.IntRange(0, 4).Draw(rt, "words"); j < n; j++ {
						sign := rapid.SampledFrom([]string{"", "+", " ", "-"}).Draw(rt, "sign")
						var w string
						var sel []string
						switch k := rapid.IntRange(0, 3).Draw(rt, "word"); {
						case k == 0:
							w = rapid.SampledFrom(allGroups).Draw(rt, "group")
							sel = membersOf(w)
						case k == 1 || len(used) == 0:
							w = rapid.SampledFrom([]string{"nosuch", "dc", "exif", "iXML"}).Draw(rt, "name")
						default:
							w = rapid.SampledFrom(used).Draw(rt, "name")
						}
						if sel == nil {
							if sel = membersOf(w); xmp.ParseNamespaceGroup(w) == xmp.NoMetadata {
								sel = []string{w}
							}
						}
						if sign == "-" {
							ex = append(ex, sel...)
						} else {
							in = append(in, sel...)
						}
						words = append(words, sign+w)
					}
					has := func(l []string, s string) bool {
						for _, v := range l {
							if v == s {
								return true
							}
						}
						return false
					}
					for _, n := range used {
						gone[n] = len(in) > 0 && !has(in, n) || has(ex, n)
					}
					text := strings.Join(words, ",")
					var f xmp.Filter
					if err := f.UnmarshalText([]byte(text)); err != nil {
						return err
					}
					got = f.Apply(d)
					log = append(log, fmt.Sprintf("filter %q", text))
				case 6: // extend
					p := rapid.SampledFrom(append([]string{"dc", "xmp"}, e.models...)).Draw(rt, "model")
					other := false
					for n := range state {
						other = other || n != p && xmp.NsRegistry.GetPrefix(d.FindNs(n+":", "").GetURI()) != "" && mustNs(n).NewModel() != nil && (foreignTo(n, p) || foreignTo(p, n))
					}
					if other || d.FindModel(mustNs(p)) != nil {
						continue
					}
					log = append(log, "AddModel("+p+")")
					if _, err := d.AddModel(genModel(rt, p, p)); err != nil {
						return fmt.Errorf("%v\n%s", err, strings.Join(log, "\n"))
					}
					if _, err := d.ListPaths(); err != nil {
						return err
					}
					s, err := ownedListing(d)
					if err != nil {
						return err
					}
					for n, l := range state {
						if n != p && !syncing[p] && !syncing[n] {
							if s := diffMaps(l, s[n]); s != "" {
								return fmt.Errorf("adding a model changes %s:\n  %s\n%s", n, s, strings.Join(log, "\n"))
							}
						}
					}
					state = s
					continue
				case 7: // extend by path
					tg := genUnknownTarget(rt)
					log = append(log, fmt.Sprintf("SetPath(%s, %q)", tg.path, tg.value))
					d.SetPath(xmp.PathValue{Path: "editc:", Namespace: editURI("editc:"), Value: "-", Flags: xmp.CREATE})
					err := d.SetPath(xmp.PathValue{Path: xmp.Path(tg.path), Value: tg.value, Flags: xmp.CREATE | xmp.REPLACE, Namespace: editURI(tg.path)})
					if tg.value != "" && err != nil {
						if len(children(flat1(state), topOf(tg.path))) > 0 {
							// has another type, but the namespace is declared
							if state, err = ownedListing(d); err != nil {
								return err
							}
							continue
						}
						return fmt.Errorf("%v\n%s", err, strings.Join(log, "\n"))
					}
					if v, _ := d.GetPath(xmp.Path(tg.path)); v != tg.value {
						return fmt.Errorf("%s reads as %q\n%s", tg.path, v, strings.Join(log, "\n"))
					}
					if _, err := d.ListPaths(); err != nil {
						return err
					}
					if state, err = ownedListing(d); err != nil {
						return err
					}
					continue
				case 8: // write and read
					log = append(log, "write and read")
					sync := false
					for n := range state {
						sync = sync || syncing[n]
					}
					before, err := readDoc(d)
					if err != nil {
						return err
					}
					b, err := xmp.Marshal(d)
					if err != nil {
						return fmt.Errorf("writing: %v\n%s", err, strings.Join(log, "\n"))
					}
					if len(state) == 0 {
						continue
					}
					d2 := xmp.NewDocument()
					if err := xmp.Unmarshal(b, d2); err != nil {
						return fmt.Errorf("reading back: %v\n%s\n%s", err, strings.Join(log, "\n"), b)
					}
					after, err := readDoc(d2)
					if err != nil {
						return err
					}
					if s := diffMaps(before.out, after.out); s != "" && !sync {
						return fmt.Errorf("written document differs:\n  %s\n%s\n%s", s, strings.Join(log, "\n"), b)
					}
					d.Close()
					d = d2
					if _, err := d.ListPaths(); err != nil {
						return err
					}
					if state, err = ownedListing(d); err != nil {
						return err
					}
					continue
				}
				want := map[string]map[string]string{}
				some := false
				for n, l := range state {
					if gone[n] {
						some = true
					} else {
						want[n] = l
					}
				}
				var l []string
				for n := range gone {
					if gone[n] {
						l = append(l, n)
					}
				}
				sort.Strings(l)
				tally("histories", fmt.Sprint(flatten(state), l), some && len(want) > 0)
				fail := func(f string, a ...interface{}) error {
					return fmt.Errorf(f+"\ndocument: %v\n%s", append(a, used, strings.Join(log, "\n"))...)
				}
				if got != some {
					return fail("reports removed=%v, selected namespaces %v", got, l)
				}
				now, err := ownedListing(d)
				if err != nil {
					return err
				}
				if s := diffMaps(flatten(want), flatten(now)); s != "" {
					return fail("removed other properties than those of %v:\n  %s", l, s)
				}
				if fmt.Sprint(names(now)) != fmt.Sprint(names(want)) {
					return fail("namespaces left: %v, want %v", names(now), names(want))
				}
				for _, n := range l {
					if ns, err := xmp.GetNamespace(n); err == nil {
						if d.FindNode(ns) != nil {
							return fail("%s still has a node", n)
						}
						for other := range want {
							if ns2, err := xmp.GetNamespace(other); err == nil {
								if m := ns2.NewModel(); m != nil && m.Can(n) {
									ns = nil
								}
							}
						}
						if ns != nil && d.FindModel(ns) != nil {
							return fail("%s still has a model", n)
						}
					}
					if !some {
						continue
					}
					for p := range state[n] {
						kept := false
						for _, l := range want {
							if _, ok := l[p]; ok {
								kept = true
							}
						}
						if v, _ := d.GetPath(xmp.Path(p)); v != "" && !kept && !strings.Contains(p, "[x-default]") {
							return fail("%s still reads as %q", p, v)
						}
					}
				}
				// also by the public listing, after synchronising
				pl, err := d.ListPaths()
				if err != nil {
					return fail("listing: %v", err)
				}
				left := map[string]string{}
				for _, v := range pl {
					left[string(v.Path)] = v.Value
				}
				rest := map[string]string{}
				for _, l := range want {
					for k, v := range l {
						rest[k] = v
					}
				}
				sync := false
				for n := range state {
					sync = sync || syncing[n]
				}
				if s := diffMaps(rest, left); s != "" && !sync {
					return fail("after removing %v the listing differs:\n  %s", l, s)
				}
				if state, err = ownedListing(d); err != nil {
					return err
				}
			}
			// the rest can be written and read
			before, err := readDoc(d)
			if err != nil {
				return err
			}
			b, err := xmp.Marshal(d)
			if err != nil {
				return fmt.Errorf("writing: %v\n%s", err, strings.Join(log, "\n"))
			}
			if _, err := parseRDF(b); err != nil {
				return fmt.Errorf("written text is not valid: %v\n%s\n%s", err, strings.Join(log, "\n"), b)
			}
			if len(state) == 0 {
				return nil
			}
			after, err := readText(string(b))
			if err != nil {
				return fmt.Errorf("reading back: %v\n%s\n%s", err, strings.Join(log, "\n"), b)
			}
			for n := range state {
				if syncing[n] {
					return nil // copies properties on reading
				}
			}
			if s := diffMaps(before.out, after.out); s != "" {
				return fmt.Errorf("the rest reads back differently:\n  %s\n%s\n%s", s, strings.Join(log, "\n"), b)
			}
			return nil
		})
		if err != nil {
			rt.Fatalf("%v", err)
		}
	})
}
