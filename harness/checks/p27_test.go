package checks

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// P27: media management history. The reference keeps plain text only.

type hEvent struct {
	action, instance, params, agent, when string
	changed                               []string
}

type hVersion struct {
	version, modifier, date, comments string
	event                             hEvent
}

type hRef struct {
	original, document, instance, manager, variant, manageTo, manageUI string
	rendition, params, mask, version, modified, path                   string
	alternates                                                         []string
}

// hState is what the calls so far must have left behind.
type hState struct {
	original, document, instance, manager, variant, manageTo, manageUI string
	rendition, params, version                                         string
	history                                                            []hEvent
	versions                                                           []hVersion
	ingredients                                                        []hRef
	derived, managed                                                   *hRef
}

func hDate(d time.Time) string {
	if d.IsZero() {
		return ""
	}
	_, off := d.Zone()
	return fmt.Sprintf("%d%+d", d.Unix(), off)
}

// hPath is a changed part as a path from the root.
func hPath(s string) string {
	if !strings.HasPrefix(s, "/") {
		return "/" + s
	}
	return s
}

func (e hEvent) String() string {
	return fmt.Sprintf("%q", append([]string{e.action, e.instance, e.params, e.agent, e.when}, e.changed...))
}

func (v hVersion) String() string {
	return fmt.Sprintf("%q %v", []string{v.version, v.modifier, v.date, v.comments}, v.event)
}

func (r *hRef) String() string {
	if r == nil {
		return "none"
	}
	return fmt.Sprintf("%q", append([]string{r.original, r.document, r.instance, r.manager, r.variant, r.manageTo, r.manageUI, r.rendition, r.params, r.mask, r.version, r.modified, r.path}, r.alternates...))
}

func (s *hState) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "ids %q\n", []string{s.original, s.document, s.instance, s.manager, s.variant, s.manageTo, s.manageUI, s.rendition, s.params, s.version})
	for i, v := range s.history {
		fmt.Fprintf(&b, "history %d %v\n", i, v)
	}
	for i, v := range s.versions {
		fmt.Fprintf(&b, "version %d %v\n", i, v)
	}
	for i := range s.ingredients {
		fmt.Fprintf(&b, "ingredient %d %v\n", i, &s.ingredients[i])
	}
	fmt.Fprintf(&b, "derived %v\nmanaged %v\n", s.derived, s.managed)
	return b.String()
}

func seenEvent(e *xmpmm.ResourceEvent) hEvent {
	h := hEvent{string(e.Action), string(e.InstanceID), e.Parameters, string(e.SoftwareAgent), hDate(e.When.Value()), nil}
	for _, p := range e.Changed {
		s := p.Path
		if !p.Start.IsZero() || !p.Duration.IsZero() {
			s += "?time"
		}
		h.changed = append(h.changed, hPath(s))
	}
	return h
}

func seenVersion(v *xmpmm.StVersion) hVersion {
	return hVersion{v.Version, v.Modifier, hDate(v.ModifyDate.Value()), v.Comments, seenEvent(&v.Event)}
}

func seenRef(r *xmpmm.ResourceRef) *hRef {
	if r == nil {
		return nil
	}
	h := &hRef{string(r.OriginalDocumentID), string(r.DocumentID), string(r.InstanceID), string(r.Manager), r.ManagerVariant,
		string(r.ManageTo), string(r.ManageUI), string(r.RenditionClass), r.RenditionParams, string(r.MaskMarkers), r.VersionID, hDate(r.LastModifyDate.Value()), string(r.FilePath), nil}
	for _, v := range r.AlternatePaths {
		h.alternates = append(h.alternates, string(v))
	}
	return h
}

func seenState(x *xmpmm.XmpMM) *hState {
	s := &hState{original: string(x.OriginalDocumentID), document: string(x.DocumentID), instance: string(x.InstanceID), manager: string(x.Manager),
		variant: x.ManagerVariant, manageTo: string(x.ManageTo), manageUI: string(x.ManageUI), rendition: string(x.RenditionClass), params: x.RenditionParams, version: x.VersionID}
	for _, v := range x.History {
		s.history = append(s.history, seenEvent(v))
	}
	for _, v := range x.Versions {
		s.versions = append(s.versions, seenVersion(v))
	}
	for _, v := range x.Ingredients {
		s.ingredients = append(s.ingredients, *seenRef(v))
	}
	s.derived, s.managed = seenRef(x.DerivedFrom), seenRef(x.ManagedFrom)
	return s
}

// record is what AppendVersionHistory must do: a new entry when the current
// version has none at the end of the list, one more change otherwise.
func (s *hState) record(action, modifier, changed, date string) {
	if n := len(s.versions); n > 0 && s.versions[n-1].version == s.version {
		e := &s.versions[n-1].event
		e.changed = append(append([]string(nil), e.changed...), hPath(changed))
		return
	}
	s.versions = append(s.versions, hVersion{version: s.version, modifier: modifier, date: date,
		event: hEvent{action, s.instance, "", string(xmp.Agent), date, []string{hPath(changed)}}})
}

func (s *hState) self(version string) hRef {
	r := hRef{original: s.original, document: s.document, instance: s.instance, manager: s.manager, variant: s.variant, manageTo: s.manageTo,
		manageUI: s.manageUI, rendition: s.rendition, params: s.params, mask: "None", version: version}
	if n := len(s.history); n > 0 {
		r.modified = s.history[n-1].when
	}
	return r
}

// writtenHistory reads version and history entries from a serialised document
// without the library.
func writtenHistory(text []byte) ([]string, error) {
	const mm, st, evt = "http://ns.adobe.com/xap/1.0/mm/", "http://ns.adobe.com/xap/1.0/sType/Version#", "http://ns.adobe.com/xap/1.0/sType/ResourceEvent#"
	doc, err := parseRDF(text)
	if err != nil {
		return nil, err
	}
	field := func(v rdfVal, uri, name string) rdfVal {
		for _, f := range v.fields {
			if f.uri == uri && f.name == name {
				return f.val
			}
		}
		return rdfVal{}
	}
	event := func(v rdfVal) string {
		return fmt.Sprintf("%q", []string{field(v, evt, "action").text, field(v, evt, "instanceID").text, field(v, evt, "parameters").text, field(v, evt, "softwareAgent").text, field(v, evt, "changed").text})
	}
	var l []string
	for _, p := range doc.props {
		if p.uri != mm || p.name != "Versions" && p.name != "History" {
			continue
		}
		if p.val.kind != rSeq {
			return nil, fmt.Errorf("%s is not an ordered list", p.name)
		}
		for i, it := range p.val.items {
			if p.name == "History" {
				l = append(l, fmt.Sprintf("history %d %s", i, event(it)))
			} else {
				l = append(l, fmt.Sprintf("version %d %q %s", i, []string{field(it, st, "version").text, field(it, st, "modifier").text, field(it, st, "comments").text}, event(field(it, st, "event"))))
			}
		}
	}
	sort.Strings(l)
	return l, nil
}

func (s *hState) written() []string {
	event := func(e hEvent) string {
		return fmt.Sprintf("%q", []string{e.action, e.instance, e.params, e.agent, strings.Join(e.changed, ";")})
	}
	var l []string
	for i, e := range s.history {
		l = append(l, fmt.Sprintf("history %d %s", i, event(e)))
	}
	for i, v := range s.versions {
		l = append(l, fmt.Sprintf("version %d %q %s", i, []string{v.version, v.modifier, v.comments}, event(v.event)))
	}
	sort.Strings(l)
	return l
}

var (
	genAction    = rapid.SampledFrom([]xmpmm.ActionType{xmpmm.ActionCreated, xmpmm.ActionEdited, xmpmm.ActionSaved, xmpmm.ActionVersionUpdated, xmpmm.ActionAdded, xmpmm.ActionMerged, "custom"})
	genChanged   = rapid.SampledFrom([]string{"/metadata", "metadata", "/content", "audio/1", "/", "/a b/c", "Zoë", "xmpDM:tracks"})
	genVersionID = rapid.SampledFrom([]string{"1", "2", "3", "10", "1.1", "a&b"})
	genGUID      = rapid.SampledFrom([]xmp.GUID{"xmp.did:1", "xmp.did:2", "xmp.iid:3", "uuid:6b1e0b7a-0000-4000-8000-000000000001", "adobe:docid:x", "plain"})
)

func TestP27_history(t *testing.T) {
	rule("history", "3-16 steps over one document's media management record: new version, new instance, recorded change, event, version entry, own reference taken as parent or ingredient, ingredient removed, agent changed, ids set by path, document written and read as XML or JSON; non-trivial: at least two recorded changes in one version and at least two versions, or an ingredient or reference, and one write")
	agent := xmp.Agent
	defer func() { xmp.Agent = agent }()
	check(t, 6000, func(rt *rapid.T) {
		xmp.Agent = agent
		d := xmp.NewDocument()
		defer func() { d.Close() }()
		x, err := xmpmm.MakeModel(d)
		if err != nil || x == nil {
			rt.Fatalf("MakeModel: %v", err)
		}
		s := &hState{}
		var log []string
		var appended, versions, refs, writes int
		date := func(label string) (xmp.Date, string) {
			d := genDate(rt, label)
			return xmp.Date(d), hDate(d)
		}
		var rend xmpdm.RenditionClass
		n := rapid.IntRange(3, 16).Draw(rt, "n")
		for i := 0; i < n; i++ {
			l := fmt.Sprintf("s%d", i)
			op := rapid.SampledFrom([]string{"change", "change", "change", "version", "version", "instance", "event", "entry", "self", "ingredient", "drop", "agent", "ids", "path", "xml", "json"}).Draw(rt, l)
			step := op
			switch op {
			case "change":
				a, mod, ch := genAction.Draw(rt, l+".action"), genWord(rt, l+".modifier"), genChanged.Draw(rt, l+".changed")
				when, ws := date(l + ".date")
				x.AppendVersionHistory(a, mod, ch, when)
				k := len(s.versions)
				s.record(string(a), mod, ch, ws)
				if k == len(s.versions) {
					appended++
				} else {
					versions++
				}
				step = fmt.Sprintf("change(%s,%s,%s)", a, mod, ch)
			case "version":
				x.VersionID = genVersionID.Draw(rt, l+".id")
				s.version = x.VersionID
				step += " " + s.version
			case "instance":
				x.InstanceID = genGUID.Draw(rt, l+".id")
				s.instance = string(x.InstanceID)
			case "event":
				when, ws := date(l + ".date")
				e := &xmpmm.ResourceEvent{Action: genAction.Draw(rt, l+".action"), InstanceID: x.InstanceID, Parameters: genWord(rt, l+".params"), SoftwareAgent: xmp.Agent, When: when}
				h := hEvent{string(e.Action), s.instance, e.Parameters, string(xmp.Agent), ws, nil}
				for _, c := range rapid.SliceOfN(genChanged, 0, 3).Draw(rt, l+".changed") {
					if len(e.Changed) == 0 {
						e.Changed = xmpdm.NewPartList(c)
					} else if rapid.Bool().Draw(rt, l+".part") {
						e.Changed.AddPart(xmpdm.NewPart(c))
					} else {
						e.Changed.Add(c)
					}
					h.changed = append(h.changed, hPath(c))
				}
				if got := e.Changed.String(); len(h.changed) > 0 && got != strings.Join(h.changed, ";") {
					rt.Fatalf("part list of %q reads %q", h.changed, got)
				}
				x.AddHistory(e)
				s.history = append(s.history, h)
			case "entry":
				when, ws := date(l + ".date")
				v := &xmpmm.StVersion{Version: genVersionID.Draw(rt, l+".id"), Modifier: genWord(rt, l+".modifier"), ModifyDate: when, Comments: genWord(rt, l+".comments")}
				v.Event.Action = genAction.Draw(rt, l+".action")
				x.AddVersion(v)
				s.versions = append(s.versions, hVersion{v.Version, v.Modifier, ws, v.Comments, hEvent{action: string(v.Event.Action)}})
				versions++
				step += " " + v.Version
			case "self":
				v := genVersionID.Draw(rt, l+".id")
				r, h := x.SelfResourceRef(v), s.self(v)
				if rapid.Bool().Draw(rt, l+".managed") {
					x.ManagedFrom, s.managed = r, &h
				} else {
					x.DerivedFrom, s.derived = r, &h
				}
				refs++
			case "ingredient":
				v := genVersionID.Draw(rt, l+".id")
				r, h := x.SelfResourceRef(v), s.self(v)
				if rapid.Bool().Draw(rt, l+".file") {
					r.FilePath = xmp.NewUri("file:///" + v + ".mov")
					r.AlternatePaths = xmp.UriArray{xmp.NewUri("a/" + v), xmp.NewUri("b/" + v)}
					h.path, h.alternates = "file:///"+v+".mov", []string{"a/" + v, "b/" + v}
				}
				r.DocumentID = genGUID.Draw(rt, l+".did")
				h.document = string(r.DocumentID)
				x.Ingredients = append(x.Ingredients, r)
				s.ingredients = append(s.ingredients, h)
				refs++
			case "drop":
				did := genGUID.Draw(rt, l+".did")
				want := -1
				for j := len(s.ingredients) - 1; j >= 0; j-- {
					if s.ingredients[j].document == string(did) {
						want = j
					}
				}
				if got := x.Ingredients.Index(did); got != want {
					rt.Fatalf("after %q: Index(%s) = %d, want %d", log, did, got, want)
				}
				if rapid.Bool().Draw(rt, l+".any") {
					want = rapid.IntRange(-1, len(s.ingredients)).Draw(rt, l+".idx")
				}
				x.Ingredients.DeleteIndex(want)
				if want >= 0 && want < len(s.ingredients) {
					s.ingredients = append(append([]hRef(nil), s.ingredients[:want]...), s.ingredients[want+1:]...)
				}
				step = fmt.Sprintf("drop %d", want)
			case "agent":
				v := genWord(rt, l+".v")
				xmp.SetAgent("Org", "Tool", v, "extra")
				if string(xmp.Agent) != "Org Tool "+v+" extra" {
					rt.Fatalf("SetAgent: %q", xmp.Agent)
				}
			case "ids":
				x.OriginalDocumentID = genGUID.Draw(rt, l+".o")
				x.DocumentID = genGUID.Draw(rt, l+".d")
				x.Manager, x.ManagerVariant = xmp.AgentName(genWord(rt, l+".m")), genWord(rt, l+".v")
				x.ManageTo, x.ManageUI = xmp.Uri("file:///to/"+x.ManagerVariant), xmp.Uri("http://ui/?a=1&b="+x.ManagerVariant)
				rend = rapid.SampledFrom([]xmpdm.RenditionClass{xmpdm.RenditionClassDefault, xmpdm.RenditionClassDraft, xmpdm.RenditionClassProof}).Draw(rt, l+".rc")
				x.RenditionClass, x.RenditionParams = rend, genWord(rt, l+".rp")
				s.original, s.document, s.manager, s.variant = string(x.OriginalDocumentID), string(x.DocumentID), string(x.Manager), x.ManagerVariant
				s.manageTo, s.manageUI, s.rendition, s.params = string(x.ManageTo), string(x.ManageUI), string(rend), x.RenditionParams
			case "path":
				// the last version is addressable by path as well
				if k := len(s.versions); k > 0 {
					p := xmp.Path(fmt.Sprintf("xmpMM:Versions[%d]/stVer:version", k-1))
					if got, err := d.GetPath(p); err != nil && s.versions[k-1].version != "" || err == nil && got != s.versions[k-1].version {
						rt.Fatalf("after %q: %s reads %q, %v, want %q", log, p, got, err, s.versions[k-1].version)
					}
				}
				v := genVersionID.Draw(rt, l+".id")
				if err := d.SetPath(xmp.PathValue{Path: "xmpMM:VersionID", Value: v, Flags: xmp.CREATE | xmp.REPLACE}); err != nil {
					rt.Fatalf("after %q: SetPath(VersionID): %v", log, err)
				}
				s.version = v
			case "xml", "json":
				next := xmp.NewDocument()
				if op == "xml" {
					b, err := xmp.Marshal(d)
					if err != nil {
						rt.Fatalf("after %q: Marshal: %v", log, err)
					}
					l, err := writtenHistory(b)
					if err != nil {
						rt.Fatalf("after %q: %v\n%s", log, err, b)
					}
					if got, want := strings.Join(l, "\n"), strings.Join(s.written(), "\n"); got != want {
						rt.Fatalf("after %q the written history is\n%s\nwant\n%s\n%s", log, got, want, b)
					}
					if err := xmp.Unmarshal(b, next); err != nil {
						rt.Fatalf("after %q: Unmarshal: %v\n%s", log, err, b)
					}
				} else {
					b, err := json.Marshal(d)
					if err == nil {
						err = json.Unmarshal(b, next)
					}
					if err != nil {
						rt.Fatalf("after %q: %v\n%s", log, err, b)
					}
				}
				d.Close()
				d = next
				if x, err = xmpmm.MakeModel(d); err != nil || x == nil {
					rt.Fatalf("MakeModel: %v", err)
				}
				// references without any content are not kept
				writes++
			}
			log = append(log, step)
			if got, want := seenState(x).String(), s.String(); got != want {
				rt.Fatalf("after %q the record is\n%s\nwant\n%s", log, got, want)
			}
			s.getters(rt, x, log)
			if f := xmpmm.FindModel(d); f != x {
				rt.Fatalf("after %q: FindModel is not the model made", log)
			}
		}
		tally("history", strings.Join(log, " "), writes > 0 && (appended > 0 && versions > 1 || refs > 0), "")
	})
}

func (s *hState) getters(rt *rapid.T, x *xmpmm.XmpMM, log []string) {
	k := len(s.versions)
	last, prev := "", ""
	if k > 0 {
		last = s.versions[k-1].version
	}
	if k > 1 {
		prev = s.versions[k-2].version
	}
	if got := x.GetLastVersionId(); got != last {
		rt.Fatalf("after %q: GetLastVersionId = %q, want %q", log, got, last)
	}
	if got := x.GetPreviousVersionId(); got != prev {
		rt.Fatalf("after %q: GetPreviousVersionId = %q, want %q", log, got, prev)
	}
	if v := x.GetLastVersion(); (v != nil) != (k > 0) || v != nil && seenVersion(v).String() != s.versions[k-1].String() {
		rt.Fatalf("after %q: GetLastVersion = %v", log, v)
	}
	if v := x.GetPreviousVersion(); (v != nil) != (k > 1) || v != nil && seenVersion(v).String() != s.versions[k-2].String() {
		rt.Fatalf("after %q: GetPreviousVersion = %v", log, v)
	}
	e := x.GetLastEvent()
	if n := len(s.history); (e != nil) != (n > 0) || e != nil && seenEvent(e).String() != s.history[n-1].String() {
		rt.Fatalf("after %q: GetLastEvent = %v", log, e)
	}
}

func TestP27_identifiers(t *testing.T) {
	rule("identifiers", "2-10 steps adding identifiers, some with a scheme, to a document that is written and read as XML or JSON in between; non-trivial: two identifiers, one with scheme, and one write")
	check(t, 5000, func(rt *rapid.T) {
		d := xmp.NewDocument()
		defer func() { d.Close() }()
		x, err := xmpbase.MakeModel(d)
		if err != nil || x == nil {
			rt.Fatalf("MakeModel: %v", err)
		}
		var want, log []string
		var schemes, writes int
		n := rapid.IntRange(2, 10).Draw(rt, "n")
		for i := 0; i < n; i++ {
			l := fmt.Sprintf("s%d", i)
			op := rapid.SampledFrom([]string{"id", "id", "scheme", "xml", "json"}).Draw(rt, l)
			switch op {
			case "id", "scheme":
				id, sc := genText(rt, l+".id"), ""
				if op == "id" {
					x.AddID(id)
				} else {
					sc = rapid.SampledFrom([]string{"doi", "uuid", "my scheme", "a&b"}).Draw(rt, l+".scheme")
					x.AddIDWithScheme(id, sc)
					schemes++
				}
				want = append(want, fmt.Sprintf("%q %q", id, sc))
			default:
				next := xmp.NewDocument()
				var b []byte
				if op == "xml" {
					if b, err = xmp.Marshal(d); err == nil {
						err = xmp.Unmarshal(b, next)
					}
				} else {
					if b, err = json.Marshal(d); err == nil {
						err = json.Unmarshal(b, next)
					}
				}
				if err != nil {
					rt.Fatalf("%q: %v\n%s", want, err, b)
				}
				d.Close()
				d = next
				if x, err = xmpbase.MakeModel(d); err != nil {
					rt.Fatalf("MakeModel: %v", err)
				}
				writes++
			}
			log = append(log, op)
			var got []string
			for _, v := range x.Identifier {
				got = append(got, fmt.Sprintf("%q %q", v.ID, v.Scheme))
			}
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				rt.Fatalf("after %q the identifiers are\n%q\nwant\n%q", log, got, want)
			}
			if xmpbase.FindModel(d) != x {
				rt.Fatalf("after %q: FindModel is not the model made", log)
			}
		}
		tally("identifiers", strings.Join(log, " ")+strings.Join(want, " "), len(want) > 1 && schemes > 0 && writes > 0)
	})
}
