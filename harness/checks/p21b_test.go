package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/riff"
	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// A link relates a standard property to a property of a file format's model.
type link struct {
	hub, hubField string
	spoke, field  string
	// text of the native value a standard value becomes; nil: the same value
	conv func(hub interface{}) string
	// text of the native value
	nat func(m xmp.Model) string
	// draws a native value
	gen func(t *rapid.T, m xmp.Model)
	// the native property follows the standard one on read
	read bool
	// on write the standard property follows: "" never, "fill" when empty, "wins"
	// always when the native value is not empty
	write string
	// the native property is stored under the name of the standard one
	mirror bool
}

func fieldOf(m xmp.Model, name string) reflect.Value {
	return reflect.Indirect(reflect.ValueOf(m)).FieldByName(name)
}

// plain is the text of a value for comparing values of different types.
func plain(v reflect.Value) string {
	if !v.IsValid() {
		return ""
	}
	if z, ok := v.Interface().(interface{ IsZero() bool }); ok && z.IsZero() {
		return ""
	}
	switch x := v.Interface().(type) {
	case riff.AltString:
		return plain(reflect.ValueOf(xmp.AltString(x)))
	case xmp.Date:
		if x.IsZero() {
			return ""
		}
		return x.Value().Format(time.RFC3339Nano)
	case xmp.Rational:
		if x == (xmp.Rational{}) {
			return ""
		}
	case xmp.AltString:
		var l []string
		for _, a := range x {
			if a.Value != "" {
				l = append(l, fmt.Sprintf("%s=%q/%v", a.GetLang(), a.Value, a.IsDefault))
			}
		}
		return strings.Join(l, ",")
	}
	switch v.Kind() {
	case reflect.Slice:
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, fmt.Sprintf("%q", fmt.Sprint(v.Index(i).Interface())))
		}
		return strings.Join(l, ",")
	case reflect.Bool:
		if !v.Bool() {
			return ""
		}
	case reflect.Int, reflect.Float64:
		if v.IsZero() {
			return ""
		}
	}
	return fmt.Sprint(v.Interface())
}

func (l link) hubText(m xmp.Model) string { return plain(fieldOf(m, l.hubField)) }

func (l link) natText(m xmp.Model) string {
	if l.nat != nil {
		return l.nat(m)
	}
	return plain(fieldOf(m, l.field))
}

func (l link) convText(m xmp.Model) string {
	if l.conv != nil {
		return l.conv(fieldOf(m, l.hubField).Interface())
	}
	return l.hubText(m)
}

func defaultText(v interface{}) string { return v.(xmp.AltString).Default() }

func dateText(v interface{}) string {
	d := v.(xmp.Date)
	if d.IsZero() {
		return ""
	}
	return d.Value().Format("2006-01-02T15:04:05.999999999")
}

func exifDate(date, sub string) func(xmp.Model) string {
	return func(m xmp.Model) string {
		d := fieldOf(m, date).Interface().(exif.Date)
		if d.IsZero() {
			return ""
		}
		s := d.Value().Format("2006-01-02T15:04:05")
		if sub := strings.TrimRight(strings.TrimSpace(fieldOf(m, sub).String()), "0"); sub != "" {
			s += "." + sub
		}
		return s
	}
}

func genExifDate(date, sub string) func(t *rapid.T, m xmp.Model) {
	return func(t *rapid.T, m xmp.Model) {
		d := exif.Date(time.Date(rapid.IntRange(1800, 2100).Draw(t, "y"), time.Month(rapid.IntRange(1, 12).Draw(t, "mo")), rapid.IntRange(1, 28).Draw(t, "d"),
			rapid.IntRange(0, 23).Draw(t, "h"), rapid.IntRange(0, 59).Draw(t, "mi"), rapid.IntRange(0, 59).Draw(t, "s"), 0, time.UTC))
		fieldOf(m, date).Set(reflect.ValueOf(d))
		// Exif text may be padded
		fieldOf(m, sub).SetString(rapid.OneOf(rapid.Just(""), rapid.StringMatching(`[0-9]{1,9}`), rapid.StringMatching(`[0-9]{1,3} {1,3}`)).Draw(t, "sub"))
	}
}

func genWords(field string) func(t *rapid.T, m xmp.Model) {
	return func(t *rapid.T, m xmp.Model) { fieldOf(m, field).SetString(genWord(t, field)) }
}

// same builds links that copy values as they are.
func same(hub, hubField, spoke, field string, read bool, write string) link {
	return link{hub: hub, hubField: hubField, spoke: spoke, field: field, read: read, write: write}
}

func alt(l link) link {
	l.conv = defaultText
	l.gen = genWords(l.field)
	return l
}

func text(l link) link {
	l.conv = func(v interface{}) string { return fmt.Sprint(v) }
	return l
}

func mirror(l link) link {
	l.mirror = true
	return l
}

var links = []link{
	mirror(same("dc", "Title", "pdf", "Title", true, "fill")),
	mirror(same("dc", "Creator", "pdf", "Author", true, "fill")),
	mirror(same("dc", "Description", "pdf", "Subject", true, "fill")),
	alt(same("dc", "Rights", "pdf", "Copyright", true, "fill")),
	mirror(text(same("xmp", "CreatorTool", "pdf", "Creator", true, "fill"))),
	mirror(same("xmp", "CreateDate", "pdf", "CreationDate", true, "fill")),
	mirror(same("xmp", "ModifyDate", "pdf", "ModifyDate", true, "fill")),

	mirror(same("dc", "Creator", "tiff", "Artist", true, "fill")),
	mirror(same("dc", "Description", "tiff", "ImageDescription", true, "fill")),
	mirror(same("dc", "Rights", "tiff", "Copyright", true, "fill")),
	mirror(same("xmp", "ModifyDate", "tiff", "DateTime", true, "fill")),
	mirror(text(same("xmp", "CreatorTool", "tiff", "Software", true, "fill"))),

	mirror(same("dc", "Rights", "riffinfo", "Copyright", true, "")),
	mirror(same("dc", "Subject", "riffinfo", "Keywords", true, "")),
	mirror(same("dc", "Type", "riffinfo", "SourceType", true, "")),
	mirror(same("dc", "Description", "riffinfo", "Description", true, "")),
	same("dc", "Title", "riffinfo", "Title", true, "fill"),
	mirror(same("dc", "Source", "riffinfo", "SourceMedium", true, "")),
	mirror(same("xmp", "CreateDate", "riffinfo", "CreateDate", true, "")),
	mirror(text(same("xmp", "CreatorTool", "riffinfo", "Software", true, ""))),
	mirror(same("xmpDM", "Artist", "riffinfo", "Artist", true, "")),
	mirror(same("xmpDM", "LogComment", "riffinfo", "Comments", true, "")),
	mirror(same("xmpDM", "Genre", "riffinfo", "Genre", true, "")),
	mirror(same("xmpDM", "Engineer", "riffinfo", "Engineeer", true, "")),

	alt(same("dc", "Title", "id3", "TitleDescription", true, "fill")),
	alt(same("dc", "Rights", "id3", "Copyright", true, "fill")),
	same("xmp", "CreateDate", "id3", "RecordingTime", true, "wins"),
	same("xmpDM", "Artist", "id3", "LeadPerformer", true, "wins"),
	same("xmpDM", "Album", "id3", "AlbumTitle", true, "wins"),
	same("xmpDM", "LogComment", "id3", "Comments", true, "wins"),
	{hub: "xmpDM", hubField: "Genre", spoke: "id3", field: "ContentType", read: true, write: "wins",
		nat: func(m xmp.Model) string { return fieldOf(m, "ContentType").Interface().(id3.Genre).String() }},
	{hub: "xmpDM", hubField: "TrackNumber", spoke: "id3", field: "TrackNumber", read: true, write: "wins",
		nat: func(m xmp.Model) string {
			return plain(reflect.ValueOf(fieldOf(m, "TrackNumber").Interface().(id3.TrackNum).Track))
		}},
	{hub: "xmpDM", hubField: "DiscNumber", spoke: "id3", field: "PartOfASet", read: true, write: "wins",
		nat: func(m xmp.Model) string {
			return plain(reflect.ValueOf(fieldOf(m, "PartOfASet").Interface().(id3.TrackNum).Track))
		}},
	{hub: "xmpDM", hubField: "PartOfCompilation", spoke: "id3", field: "IsCompilation", read: true, write: "wins",
		nat: func(m xmp.Model) string {
			return plain(reflect.ValueOf(fieldOf(m, "IsCompilation").Interface().(id3.Bool).Value()))
		}},
	same("xmpDM", "Composer", "id3", "Composer", true, "wins"),
	same("xmpDM", "Engineer", "id3", "ModifiedBy", true, "wins"),
	{hub: "xmpDM", hubField: "Lyrics", spoke: "id3", field: "UnsynchronizedLyrics", read: true, write: "wins",
		nat: func(m xmp.Model) string {
			v := fieldOf(m, "UnsynchronizedLyrics")
			var l []string
			for i := 0; i < v.Len(); i++ {
				l = append(l, v.Index(i).String())
			}
			return strings.Join(l, "\n")
		}},
	same("xmpRights", "WebStatement", "id3", "CopyrightInformation", true, "wins"),

	same("xmpDM", "TapeName", "iXML", "SoundRoll", false, "wins"),
	same("xmpDM", "Scene", "iXML", "SceneName", false, "wins"),
	same("xmpDM", "TakeNumber", "iXML", "Take", false, "wins"),
	same("xmpDM", "LogComment", "iXML", "Note", false, "wins"),
	same("xmpDM", "ProjectName", "iXML", "Project", false, "wins"),
	same("xmpDM", "Good", "iXML", "IsCircled", false, "wins"),

	{hub: "dc", hubField: "Creator", spoke: "exif", field: "Artist", read: true, write: "fill", gen: genWords("Artist"),
		conv: func(v interface{}) string { return strings.Join(v.(xmp.StringList), "; ") }},
	alt(same("dc", "Description", "exif", "ImageDescription", true, "fill")),
	alt(same("dc", "Rights", "exif", "Copyright", true, "fill")),
	text(same("xmp", "CreatorTool", "exif", "Software", true, "fill")),
	{hub: "xmp", hubField: "ModifyDate", spoke: "exif", field: "DateTime", read: true, write: "fill",
		conv: dateText, nat: exifDate("DateTime", "SubSecTime"), gen: genExifDate("DateTime", "SubSecTime")},
	{hub: "photoshop", hubField: "DateCreated", spoke: "exif", field: "DateTimeOriginal", read: true, write: "fill",
		conv: dateText, nat: exifDate("DateTimeOriginal", "SubSecTimeOriginal"), gen: genExifDate("DateTimeOriginal", "SubSecTimeOriginal")},
	mirror(same("dc", "Creator", "exif", "ArtistXMP", true, "")),
	mirror(same("dc", "Description", "exif", "ImageDescriptionXMP", true, "")),
	mirror(same("dc", "Rights", "exif", "CopyrightXMP", true, "")),
	mirror(text(same("xmp", "CreatorTool", "exif", "SoftwareXMP", true, ""))),
	mirror(same("xmp", "ModifyDate", "exif", "DateTimeXMP", true, "")),
	mirror(same("photoshop", "DateCreated", "exif", "DateTimeOriginalXMP", true, "")),
}

func init() {
	for _, f := range []string{"BitsPerSample", "ImageLength", "ImageWidth", "Make", "Model", "Orientation", "PhotometricInterpretation", "PlanarConfiguration", "Compression", "ResolutionUnit", "SamplesPerPixel", "TransferFunction", "XResolution", "YResolution", "WhitePoint", "YCbCrCoefficients", "PrimaryChromaticities", "ReferenceBlackWhite", "YCbCrPositioning"} {
		links = append(links, link{hub: "tiff", hubField: f, spoke: "exif", field: f, read: true, mirror: true,
			gen: func(t *rapid.T, m xmp.Model) {}})
	}
}

// own properties that make a model exist in a document
var spokeMarkers = map[string]string{"pdf": "PDFVersion", "tiff": "NativeDigest", "riffinfo": "Product", "id3": "Language", "iXML": "Version", "exif": "ExifVersion"}

func findModel(d *xmp.Document, prefix string) xmp.Model {
	ns, err := xmp.GetNamespace(prefix)
	if err != nil {
		return nil
	}
	return d.FindModel(ns)
}

func TestP21_Models(t *testing.T) {
	rule("P21/models", "documents with 1..3 models of file formats and any of the standard models, each linked property set or not, written with and without synchronisation and read again; standard properties keep or take the values the links say and native properties follow on read; non-trivial: distinct documents with at least one linked value")
	check(t, 4000, func(rt *rapid.T) {
		var log []string
		err := try(func() error {
			spokes := rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"pdf", "tiff", "riffinfo", "id3", "iXML", "exif"}), 1, 3, rapid.ID[string]).Draw(rt, "spokes")
			models := map[string]xmp.Model{}
			hubs := map[string]bool{}
			var mine []link
			for _, l := range links {
				for _, s := range spokes {
					if l.spoke == s {
						mine = append(mine, l)
						hubs[l.hub] = true
					}
				}
			}
			order := append([]string(nil), spokes...)
			for _, h := range []string{"dc", "xmp", "xmpDM", "xmpRights", "photoshop", "tiff"} {
				if hubs[h] && rapid.IntRange(0, 2).Draw(rt, "with "+h) > 0 && !contains(order, h) {
					order = append(order, h)
				}
			}
			order = rapid.Permutation(order).Draw(rt, "order")
			d := xmp.NewDocument()
			for _, p := range order {
				m := newModel(p)
				models[p] = m
				if _, err := d.AddModel(m); err != nil {
					return err
				}
				if f := spokeMarkers[p]; f != "" {
					fieldOf(m, f).SetString("eng")
					if f == "Version" {
						fieldOf(m, f).SetString("2.0")
					}
				}
			}
			sync := rapid.IntRange(0, 2).Draw(rt, "sync") > 0
			if !sync {
				// reading the properties cleans the document
				if _, err := d.ListPaths(); err != nil {
					return err
				}
			}
			// standard values
			values := 0
			for _, l := range mine {
				m := models[l.hub]
				if m == nil || l.hubText(m) != "" || rapid.IntRange(0, 2).Draw(rt, "hub value") > 0 {
					continue
				}
				f := fieldOf(m, l.hubField)
				var v reflect.Value
				switch f.Kind() {
				case reflect.String:
					v = reflect.ValueOf(genWord(rt, l.hubField)).Convert(f.Type())
				default:
					var ok bool
					if v, ok = genValue(rt, f.Type(), l.hubField, 2); !ok {
						return fmt.Errorf("no value for %s.%s", l.hub, l.hubField)
					}
				}
				if n, ok := v.Interface().(int); ok && n < 0 {
					v = reflect.ValueOf(-(n + 1))
				}
				if a, ok := v.Interface().(xmp.AltString); ok && a.Default() == "" {
					continue
				}
				f.Set(v)
				values++
				log = append(log, fmt.Sprintf("%s.%s = %s", l.hub, l.hubField, l.hubText(m)))
			}
			// native values
			for _, l := range mine {
				m := models[l.spoke]
				if l.natText(m) != "" || rapid.IntRange(0, 2).Draw(rt, "native value") > 0 {
					continue
				}
				if l.gen != nil {
					l.gen(rt, m)
				} else {
					f := fieldOf(m, l.field)
					var v reflect.Value
					if f.Kind() == reflect.String {
						v = reflect.ValueOf(genWord(rt, l.field)).Convert(f.Type())
					} else {
						var ok bool
						if v, ok = genValue(rt, f.Type(), l.field, 2); !ok {
							return fmt.Errorf("no value for %s.%s", l.spoke, l.field)
						}
					}
					if n, ok := v.Interface().(int); ok && n < 0 {
						v = reflect.ValueOf(-(n + 1))
					}
					if a, ok := v.Interface().(xmp.AltString); ok && a.Default() == "" {
						continue
					}
					f.Set(v)
				}
				if l.natText(m) != "" {
					values++
				}
				log = append(log, fmt.Sprintf("%s.%s = %s", l.spoke, l.field, l.natText(m)))
			}
			if models["exif"] != nil {
				// the native and the XMP form of a value agree
				m := models["exif"]
				for native, x := range map[string]string{"DateTime": "DateTimeXMP", "DateTimeOriginal": "DateTimeOriginalXMP", "Artist": "ArtistXMP", "Software": "SoftwareXMP", "ImageDescription": "ImageDescriptionXMP", "Copyright": "CopyrightXMP"} {
					if !fieldOf(m, native).IsZero() {
						fieldOf(m, x).Set(reflect.Zero(fieldOf(m, x).Type()))
					}
				}
			}
			type before struct {
				hub, nat string
			}
			was := make([]before, len(mine))
			for i, l := range mine {
				if models[l.hub] != nil {
					was[i].hub = l.hubText(models[l.hub])
				}
				was[i].nat = l.natText(models[l.spoke])
			}
			log = append(log, fmt.Sprintf("models %v, sync %v", order, sync))
			b, err := xmp.Marshal(d)
			if err != nil {
				return fmt.Errorf("write: %v", err)
			}
			// the models written have the values, too
			for i, l := range mine {
				name := fmt.Sprintf("%s.%s", l.hub, l.hubField)
				hm, got := findModel(d, l.hub), ""
				if hm != nil {
					got = l.hubText(hm)
				}
				var cands []string
				// exif writes standard properties itself
				keep, found, other := true, false, true
				for j, k := range mine {
					if sync && k.hub == l.hub && k.hubField == l.hubField && was[j].nat != "" && k.write != "" {
						cands = append(cands, k.field+" "+was[j].nat)
						keep = keep && k.write != "wins"
						other = other && k.spoke == "exif"
						found = found || hm != nil && k.convText(hm) == was[j].nat
					}
				}
				switch {
				case len(cands) == 0 || was[i].hub != "" && keep:
					if got != was[i].hub {
						return fmt.Errorf("%s was %s, is %s after writing", name, was[i].hub, got)
					}
				case !found && !(other && got == ""):
					return fmt.Errorf("%s is %s after writing; want one of %q", name, got, cands)
				}
			}
			r := xmp.NewDocument()
			if err := xmp.Unmarshal(b, r); err != nil {
				return fmt.Errorf("read: %v\n%s", err, b)
			}
			for round := 0; round < 2; round++ {
				for i, l := range mine {
					name := fmt.Sprintf("%s.%s", l.hub, l.hubField)
					// what may the standard property be
					var cands []string
					keep := true
					for j, k := range mine {
						if k.hub != l.hub || k.hubField != l.hubField || was[j].nat == "" {
							continue
						}
						switch {
						case sync && k.write == "wins":
							cands = append(cands, k.field+" "+was[j].nat)
							keep = false
						case k.mirror || sync && k.write == "fill":
							cands = append(cands, k.field+" "+was[j].nat)
						}
					}
					hm := findModel(r, l.hub)
					got := ""
					if hm != nil {
						got = l.hubText(hm)
					}
					switch {
					case was[i].hub != "" && keep:
						if got != was[i].hub {
							return fmt.Errorf("%s was %s, is %s\n%s", name, was[i].hub, got, b)
						}
					case len(cands) == 0:
						if got != "" {
							return fmt.Errorf("%s becomes %s\n%s", name, got, b)
						}
					default:
						ok := false
						for j, k := range mine {
							if hm != nil && k.hub == l.hub && k.hubField == l.hubField && was[j].nat != "" && (k.mirror || sync && k.write != "") && k.convText(hm) == was[j].nat {
								ok = true
							}
						}
						if !ok {
							return fmt.Errorf("%s is %s; want one of %q\n%s", name, got, cands, b)
						}
					}
					// does the native property follow
					sm := findModel(r, l.spoke)
					if sm == nil {
						if l.spoke == "tiff" {
							continue
						}
						return fmt.Errorf("model %s lost\n%s", l.spoke, b)
					}
					nat := l.natText(sm)
					switch {
					case l.read && got != "":
						if w := l.convText(hm); nat != w {
							return fmt.Errorf("%s.%s reads as %s, does not follow %s which is %s\n%s", l.spoke, l.field, nat, name, got, b)
						}
					case !l.read:
						if nat != was[i].nat {
							return fmt.Errorf("%s.%s was %s, is %s\n%s", l.spoke, l.field, was[i].nat, nat, b)
						}
					}
				}
				// once more
				if round > 0 {
					break
				}
				sync = true
				for i, l := range mine {
					was[i] = before{}
					if m := findModel(r, l.hub); m != nil {
						was[i].hub = l.hubText(m)
					}
					if m := findModel(r, l.spoke); m != nil {
						was[i].nat = l.natText(m)
					}
				}
				r.SetDirty()
				if b, err = xmp.Marshal(r); err != nil {
					return fmt.Errorf("write: %v", err)
				}
				r = xmp.NewDocument()
				if err := xmp.Unmarshal(b, r); err != nil {
					return fmt.Errorf("read: %v\n%s", err, b)
				}
			}
			sort.Strings(spokes)
			tally("P21/models", strings.Join(log, ";"), values > 0, spokes...)
			return nil
		})
		if err != nil {
			rt.Fatalf("%v\n%s", err, strings.Join(log, "\n"))
		}
	})
}
