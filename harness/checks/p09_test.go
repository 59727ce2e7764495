package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

func TestP09_Matrix(t *testing.T) {
	rule("matrix", "every combination of the six update flags x every target below (scalars of several types, whole lists, list items, whole alternatives, languages, nested fields; of models and unknown namespaces; inside and beyond the end) x every state (missing model, missing property, present, several items) x every value (empty, the current one, one of the other items, a new one): the effect and error must be the documented ones; exhaustive; all non-trivial")
	assume("P09: a write whose value the path reads as already changes nothing; APPEND or UNIQUE without CREATE on a missing property may create it or not")
	type tcase struct {
		tg     target
		states [][]string // path, value pairs
		values []string
	}
	lists := func(p string, a, b, c string) []tcase {
		st := [][]string{{}, {p + "[0]", a}, {p + "[0]", a, p + "[1]", b}, {p + "[0]", a, p + "[1]", b, p + "[2]", c}, {p + "[0]", b, p + "[2]", c}}
		vs := []string{"", a, b, c}
		modelled := !strings.HasPrefix(p, "edita:") && !strings.Contains(p, "X0")
		r := []tcase{{target{p, listTarget, "", modelled}, st, vs}}
		for i := 0; i < 4; i++ {
			r = append(r, tcase{target{fmt.Sprintf("%s[%d]", p, i), itemTarget, "", modelled}, st, vs})
		}
		return r
	}
	alts := func(p string) []tcase {
		st := [][]string{{}, {p + "[x-default]", "one"}, {p + "[en]", "one"}, {p + "[x-default]", "one", p + "[en]", "two"}, {p + "[x-default]", "one", p + "[en]", "one", p + "[de]", "two"}, {p + "[en]", "one", p + "[de]", "two"}}
		vs := []string{"", "one", "two", "three"}
		modelled := !strings.HasPrefix(p, "edita:") && !strings.Contains(p, "X0")
		r := []tcase{{target{p, altTarget, "", modelled}, st, vs}}
		for _, l := range []string{"en", "de", "x-default"} {
			r = append(r, tcase{target{p + "[" + l + "]", langTarget, "", modelled}, st, vs})
		}
		return r
	}
	scalar := func(p string, a, b string) tcase {
		modelled := !strings.HasPrefix(p, "edita:") && !strings.Contains(p, "X0")
		return tcase{target{p, scalarTarget, "", modelled}, [][]string{{}, {p, a}}, []string{"", a, b}}
	}
	cases := []tcase{
		scalar("xmp:Nickname", "a", "b"),
		scalar("xmp:Rating", "2", "3"),
		scalar("xmp:CreateDate", "2020-01-02T03:04:05Z", "2021-01-02T03:04:05Z"),
		scalar("xmpRights:WebStatement", "a", "b"),
		scalar("xmpMM:DerivedFrom/stRef:documentID", "a", "b"),
		scalar("xmpMM:History[1]/stEvt:action", "a", "b"),
		scalar("xmpDM:videoFrameSize/stDim:w", "12", "14"),
		scalar("xmpDM:duration/value", "12", "14"),
		scalar("exif:FNumber", "5/2", "7/2"),
		scalar("dc:X0", "a", "b"),
		scalar("edita:text", "a", "b"),
		scalar("edita:struct/field", "a", "b"),
		scalar("edita:struct/tiff:Make", "a", "b"),
		scalar("edita:structs[1]/field", "a", "b"),
		scalar("dc:X0/edita:field", "a", "b"),
	}
	cases = append(cases, lists("dc:creator", "a", "b", "c")...)
	cases = append(cases, lists("dc:date", "2020-01-02T03:04:05Z", "2021-01-02T03:04:05Z", "2022-01-02T03:04:05Z")...)
	cases = append(cases, lists("edita:list", "a", "b", "c")...)
	cases = append(cases, lists("dc:X0list", "a", "b", "c")...)
	cases = append(cases, lists("edita:struct/list", "a", "b", "c")...)
	cases = append(cases, alts("dc:title")...)
	cases = append(cases, alts("edita:alt")...)
	cases = append(cases, alts("edita:struct/alt")...)
	run := func(c tcase, st []string, v string, flags xmp.SyncFlags, present bool) error {
		e := &editDoc{d: xmp.NewDocument()}
		defer e.d.Close()
		init := []string{}
		if strings.Contains(c.tg.path, "/edita:") {
			if err := e.d.SetPath(xmp.PathValue{Path: "edita:", Namespace: editURI("edita:"), Value: "-", Flags: xmp.CREATE}); err != nil {
				return err
			}
		}
		if present {
			// the namespace is there, with another property
			p := c.tg.path[:strings.IndexByte(c.tg.path, ':')]
			other := map[string]string{"dc": "dc:format", "xmp": "xmp:CreatorTool", "xmpRights": "xmpRights:Certificate", "xmpMM": "xmpMM:DocumentID", "xmpDM": "xmpDM:artist", "exif": "exif:ImageUniqueID", "edita": "edita:other"}[p]
			init = append(init, other, "here")
		} else if len(st) > 0 {
			return nil
		}
		init = append(init, st...)
		for i := 0; i < len(init); i += 2 {
			pv := xmp.PathValue{Path: xmp.Path(init[i]), Value: init[i+1], Flags: xmp.CREATE | xmp.REPLACE, Namespace: editURI(init[i])}
			if err := e.d.SetPath(pv); err != nil {
				return fmt.Errorf("building the state: %s=%q: %v", init[i], init[i+1], err)
			}
		}
		var err error
		if e.state, err = rawListing(e.d); err != nil {
			return err
		}
		for i := 0; i < len(init); i += 2 {
			if e.state[init[i]] != init[i+1] && !(strings.HasSuffix(init[i], "[x-default]") && e.state[strings.Replace(init[i], "x-default", "en", 1)] == init[i+1]) {
				return fmt.Errorf("building the state: %s reads as %q", init[i], e.state[init[i]])
			}
		}
		return e.apply(c.tg, v, flags)
	}
	for _, c := range cases {
		for _, st := range c.states {
			for _, v := range c.values {
				for flags := xmp.SyncFlags(0); flags < 64; flags++ {
					for _, present := range []bool{false, true} {
						key := fmt.Sprint(c.tg.path, st, v, flags, present)
						tally("matrix", key, true, c.tg.kind)
						c, st, v, flags, present := c, st, v, flags, present
						example(t, key, func() error { return run(c, st, v, flags, present) })
					}
				}
			}
		}
	}
}

func TestP09_Histories(t *testing.T) {
	rule("histories", "sequences of 1..12 path writes with any combination of flags to any kind of path (of every bundled model and of unknown namespaces), new values, values a list has already and empty ones; after every write the whole document must be as a reference model of the documented flags says, and the write fails exactly when the flags do not permit it; non-trivial: distinct histories with at least two kinds of paths or four writes")
	check(t, 4000, func(rt *rapid.T) {
		var e *editDoc
		err := try(func() (err error) {
			e, err = newEditDoc(rt)
			if err != nil {
				return err
			}
			kinds := map[string]bool{}
			n := rapid.IntRange(1, 12).Draw(rt, "writes")
			for i := 0; i < n; i++ {
				tg, err := e.genTarget(rt)
				if err != nil {
					return err
				}
				if tg.value == "" {
					continue
				}
				flags := xmp.SyncFlags(rapid.IntRange(0, 63).Draw(rt, "flags"))
				if rapid.IntRange(0, 3).Draw(rt, "named") == 0 {
					flags = rapid.SampledFrom([]xmp.SyncFlags{xmp.DEFAULT, xmp.MERGE, xmp.EXTEND, xmp.ADD}).Draw(rt, "preset")
				}
				if !tg.modelled && (tg.kind == listTarget && flags&xmp.APPEND == 0 || tg.kind == altTarget) && len(children(e.state, tg.path)) == 0 {
					continue // nothing makes it a list
				}
				if !tg.modelled && tg.kind == scalarTarget && e.state[tg.path] == "" {
					flags &^= xmp.APPEND // makes it a list
				}
				v := tg.value
				if rapid.IntRange(0, 4).Draw(rt, "empty") == 0 {
					v = ""
				}
				kinds[tg.kind] = true
				if err := e.apply(tg, v, flags); err != nil {
					return err
				}
			}
			var l []string
			for k := range kinds {
				l = append(l, k)
			}
			tally("histories", strings.Join(e.log, ";"), len(l) > 1 || len(e.log) > 3, l...)
			return nil
		})
		if err != nil {
			rt.Fatalf("%v\n%s", err, strings.Join(e.log, "\n"))
		}
		e.d.Close()
	})
}
