package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/itunes"
	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/models/pm"
	"github.com/trimmer-io/go-xmp/models/qt"
	"github.com/trimmer-io/go-xmp/models/riff"
	"github.com/trimmer-io/go-xmp/models/tiff"
	"github.com/trimmer-io/go-xmp/models/xmp_base"
	"github.com/trimmer-io/go-xmp/models/xmp_dm"
	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// text values
// ---------------------------------------------------------------------------

var textAtoms = []string{
	"alpha", "Beta", "42", "-7", "0", "x", "a b", "<b>", "&amp;", "&", "\"", "'", ">", "]]>", "<!--", "?>", "{}", "[0]", "/", ":", ";", ",", "|", "=", "#", "%", "\\",
	"é", "日本語", "ß", "Ω", "🙂", "\u00a0x", "e\u0301", "x-default", "rdf:li", "true", "null", "2006-01-02", "<?xpacket", "\n", "\t", "  ", "\r", "&#10;", "\ufffd",
	"a long piece of text that goes on for a while to make sure that nothing is cut off at some odd buffer size",
}

// validText reports whether s is free of characters XML cannot carry.
func validText(s string) bool {
	for _, r := range s {
		if r == 0x9 || r == 0xa || r == 0xd || r >= 0x20 && r <= 0xd7ff || r >= 0xe000 && r <= 0xfffd || r >= 0x10000 {
			continue
		}
		return false
	}
	return true
}

// genText draws a non-empty trimmed text. Leading and trailing white space is
// not part of a value (the reader trims it).
func genText(t *rapid.T, label string) string {
	var s string
	switch rapid.IntRange(0, 5).Draw(t, label+".kind") {
	case 0, 1:
		s = rapid.SampledFrom([]string{"one", "two", "three", "Some Title", "file.jpg", "http://example.com/a?b=c&d=e", "uuid:1234-5678"}).Draw(t, label)
	case 2, 3, 4:
		n := rapid.IntRange(1, 4).Draw(t, label+".n")
		for i := 0; i < n; i++ {
			s += rapid.SampledFrom(textAtoms).Draw(t, label)
		}
	default:
		s = rapid.StringOfN(rapid.RuneFrom(nil, unicode.Letter, unicode.Digit, unicode.Punct, unicode.Symbol), 1, 12, -1).Draw(t, label)
	}
	s = strings.TrimSpace(s)
	if s == "" || !validText(s) {
		return "v" + strconv.Itoa(rapid.IntRange(0, 99).Draw(t, label+".alt"))
	}
	return s
}

// genWord draws a short text without special characters.
func genWord(t *rapid.T, label string) string {
	return rapid.SampledFrom([]string{"one", "two", "three", "Scene 7", "A001", "take", "Zoë", "foo-bar", "x_y"}).Draw(t, label)
}

var langTags = []string{"en", "de", "en-US", "fr-CA", "ja", "zh-Hans", "x-klingon", "pt"}

// genAlt draws a valid language alternative: exactly one default, first,
// every other entry with its own language. Values are distinct, see below.
func genAlt(t *rapid.T, label string) xmp.AltString {
	n := rapid.IntRange(1, 3).Draw(t, label+".n")
	perm := rapid.Permutation(langTags).Draw(t, label+".langs")
	var a xmp.AltString
	for i := 0; i < n; i++ {
		it := xmp.AltItem{Value: genText(t, label), Lang: perm[i], IsDefault: i == 0}
		if i == 0 && rapid.Bool().Draw(t, label+".nolang") {
			it.Lang = ""
		}
		// A default without language next to an equal value with language is
		// the same RDF as a default with that language: keep values apart.
		if i > 0 && it.Value == a[0].Value {
			it.Value += strconv.Itoa(i)
		}
		a = append(a, it)
	}
	return a
}

func genDate(t *rapid.T, label string) time.Time {
	loc := time.UTC
	if rapid.Bool().Draw(t, label+".zoned") {
		min := rapid.SampledFrom([]int{-720, -570, -300, -60, 0, 60, 120, 330, 345, 540, 840}).Draw(t, label+".zone")
		loc = time.FixedZone("", min*60)
	}
	return time.Date(rapid.IntRange(1900, 2100).Draw(t, label+".y"), time.Month(rapid.IntRange(1, 12).Draw(t, label+".m")), rapid.IntRange(1, 28).Draw(t, label+".d"),
		rapid.IntRange(0, 23).Draw(t, label+".h"), rapid.IntRange(0, 59).Draw(t, label+".min"), rapid.IntRange(0, 59).Draw(t, label+".s"), 0, loc)
}

func genRational(t *rapid.T, label string) xmp.Rational {
	return xmp.Rational{Num: rapid.Int64Range(-1000000, 1<<40).Draw(t, label+".num"), Den: rapid.Int64Range(1, 1<<32).Draw(t, label+".den")}
}

// ---------------------------------------------------------------------------
// typed values by reflection
// ---------------------------------------------------------------------------

type valueGen func(t *rapid.T, label string) interface{}

var genreNames = func() []string {
	var l []string
	for _, v := range id3.GenreMap {
		l = append(l, v)
	}
	sort.Strings(l)
	return l
}()

// special generators, by type.
var typeGens = map[reflect.Type]valueGen{}

func regGen(sample interface{}, f valueGen) { typeGens[reflect.TypeOf(sample)] = f }

func init() {
	regGen(xmp.AltString{}, func(t *rapid.T, l string) interface{} { return genAlt(t, l) })
	regGen(tiff.YCbCrSubSampling{}, func(t *rapid.T, l string) interface{} {
		return tiff.YCbCrSubSampling{rapid.SampledFrom([]int{1, 2, 4}).Draw(t, l+".h"), rapid.SampledFrom([]int{1, 2, 4}).Draw(t, l+".v")}
	})
	regGen(qt.MultilangArray{}, func(t *rapid.T, l string) interface{} { return qt.MultilangArray(genAlt(t, l)) })
	regGen(riff.AltString{}, func(t *rapid.T, l string) interface{} { return riff.AltString(genAlt(t, l)) })
	regGen(xmp.Date{}, func(t *rapid.T, l string) interface{} {
		d := genDate(t, l)
		if rapid.IntRange(0, 3).Draw(t, l+".fraction") == 0 {
			d = d.Add(genFraction(t, l+".ns"))
		}
		return xmp.Date(d)
	})
	regGen(exif.Date{}, func(t *rapid.T, l string) interface{} {
		return exif.Date(genDate(t, l).UTC())
	})
	regGen(pm.Time{}, func(t *rapid.T, l string) interface{} {
		d := genDate(t, l)
		return pm.Time(time.Date(0, 1, 1, d.Hour(), d.Minute(), d.Second(), 0, d.Location()))
	})
	regGen(id3.Date23{}, func(t *rapid.T, l string) interface{} {
		d := genDate(t, l)
		return id3.Date23(time.Date(0, d.Month(), d.Day(), 0, 0, 0, 0, time.UTC))
	})
	regGen(id3.Time23{}, func(t *rapid.T, l string) interface{} {
		d := genDate(t, l)
		return id3.Time23(time.Date(0, 1, 1, d.Hour(), d.Minute(), 0, 0, time.UTC))
	})
	regGen(xmp.Rational{}, func(t *rapid.T, l string) interface{} { return genRational(t, l) })
	regGen(xmp.GUID(""), func(t *rapid.T, l string) interface{} {
		return xmp.GUID(rapid.SampledFrom([]string{"uuid:", "xmp.iid:", "xmp.did:", ""}).Draw(t, l+".issuer") + rapid.StringMatching(`[0-9a-f]{8}-[0-9a-f]{4}`).Draw(t, l))
	})
	regGen(xmp.Uri(""), func(t *rapid.T, l string) interface{} { return xmp.Uri(genText(t, l)) })
	regGen(xmp.GPSCoord(""), func(t *rapid.T, l string) interface{} {
		return xmp.GPSCoord(fmt.Sprintf("%d,%.7f%s", rapid.IntRange(0, 179).Draw(t, l+".d"), rapid.Float64Range(0, 59).Draw(t, l+".m"), rapid.SampledFrom([]string{"N", "S", "E", "W"}).Draw(t, l+".r")))
	})
	regGen(exif.OECF{}, func(t *rapid.T, l string) interface{} {
		o := exif.OECF{Columns: rapid.IntRange(1, 3).Draw(t, l+".c"), Rows: rapid.IntRange(1, 2).Draw(t, l+".r")}
		for i := 0; i < o.Columns; i++ {
			o.Names = append(o.Names, genText(t, l))
			for j := 0; j < o.Rows; j++ {
				o.Values = append(o.Values, genRational(t, l))
			}
		}
		return o
	})
	regGen(exif.CFAPattern{}, func(t *rapid.T, l string) interface{} {
		o := exif.CFAPattern{Columns: rapid.IntRange(1, 3).Draw(t, l+".c"), Rows: rapid.IntRange(1, 3).Draw(t, l+".r")}
		for i := 0; i < o.Columns*o.Rows; i++ {
			o.Values = append(o.Values, rapid.Byte().Draw(t, l))
		}
		return o
	})
	regGen(exif.DeviceSettings{}, func(t *rapid.T, l string) interface{} {
		o := exif.DeviceSettings{Columns: rapid.IntRange(1, 3).Draw(t, l+".c"), Rows: rapid.IntRange(1, 3).Draw(t, l+".r")}
		for i := 0; i < o.Columns*o.Rows; i++ {
			o.Values = append(o.Values, genText(t, l))
		}
		return o
	})
	regGen(exif.ByteArray{}, func(t *rapid.T, l string) interface{} {
		return exif.ByteArray(rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, l))
	})
	regGen(exif.Flash{}, func(t *rapid.T, l string) interface{} {
		f := exif.Flash{}
		f.UnmarshalText([]byte(strconv.Itoa(rapid.IntRange(1, 127).Draw(t, l))))
		return f
	})
	regGen(id3.Genre{}, func(t *rapid.T, l string) interface{} {
		var g id3.Genre
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, l+".n"); i < n; i++ {
			g = append(g, rapid.SampledFrom(genreNames).Draw(t, l))
		}
		return g
	})
	regGen(id3.TrackNum{}, func(t *rapid.T, l string) interface{} {
		return id3.TrackNum{Track: rapid.IntRange(1, 500).Draw(t, l), Total: rapid.IntRange(0, 500).Draw(t, l+".total")}
	})
	regGen(id3.Bool(0), func(t *rapid.T, l string) interface{} { return id3.Bool(rapid.IntRange(0, 1).Draw(t, l)) })
	regGen(itunes.Bool(0), func(t *rapid.T, l string) interface{} { return itunes.Bool(rapid.IntRange(0, 1).Draw(t, l)) })
	regGen(qt.Bool(0), func(t *rapid.T, l string) interface{} { return qt.Bool(rapid.IntRange(0, 1).Draw(t, l)) })
	regGen(itunes.ContentRating{}, func(t *rapid.T, l string) interface{} {
		return itunes.ContentRating{Standard: rapid.SampledFrom([]string{"mpaa", "us-tv", "riaa"}).Draw(t, l), Rating: genWord(t, l), Score: rapid.SampledFrom([]string{"", "300", "400"}).Draw(t, l), Reasons: rapid.SampledFrom([]string{"", "violence"}).Draw(t, l)}
	})
	regGen(qt.ContentRating{}, func(t *rapid.T, l string) interface{} {
		return qt.ContentRating{Standard: rapid.SampledFrom([]string{"mpaa", "us-tv", "riaa"}).Draw(t, l), Rating: genWord(t, l), Score: rapid.SampledFrom([]string{"", "300", "400"}).Draw(t, l), Reasons: rapid.SampledFrom([]string{"", "violence"}).Draw(t, l)}
	})
	regGen(qt.Point{}, func(t *rapid.T, l string) interface{} {
		return qt.Point{X: rapid.IntRange(-5000, 5000).Draw(t, l), Y: rapid.IntRange(1, 5000).Draw(t, l)}
	})
	regGen(pm.Preferences{}, func(t *rapid.T, l string) interface{} {
		return pm.Preferences{TagStatus: rapid.IntRange(0, 1).Draw(t, l), ColorClass: rapid.IntRange(0, 8).Draw(t, l), Rating: rapid.IntRange(0, 5).Draw(t, l), Frame: rapid.IntRange(-1, 40).Draw(t, l)}
	})
	regGen(ixml.TimecodeFlag(""), func(t *rapid.T, l string) interface{} {
		return rapid.SampledFrom([]ixml.TimecodeFlag{ixml.TimecodeFlagDF, ixml.TimecodeFlagNDF}).Draw(t, l)
	})
	regGen(ixml.LocationTypeList{}, func(t *rapid.T, l string) interface{} {
		return ixml.LocationTypeList(rapid.SliceOfNDistinct(rapid.SampledFrom([]ixml.LocationType{ixml.LocationTypeInterior, ixml.LocationTypeExterior}), 1, 2, rapid.ID[ixml.LocationType]).Draw(t, l))
	})
	regGen(ixml.LocationTimeList{}, func(t *rapid.T, l string) interface{} {
		return ixml.LocationTimeList(rapid.SliceOfNDistinct(rapid.SampledFrom([]ixml.LocationTime{"SUNRISE", "MORNING", "DAY", "DUSK"}), 1, 3, rapid.ID[ixml.LocationTime]).Draw(t, l))
	})
	regGen(ixml.TakeTypeList{}, func(t *rapid.T, l string) interface{} {
		return ixml.TakeTypeList(rapid.SliceOfNDistinct(rapid.SampledFrom([]ixml.TakeType{"NO_GOOD", "FALSE_START", "WILD_TRACK", "PICKUP"}), 1, 3, rapid.ID[ixml.TakeType]).Draw(t, l))
	})
	regGen(xmpbase.Identifier{}, func(t *rapid.T, l string) interface{} {
		id := xmpbase.Identifier{ID: genText(t, l)}
		if rapid.Bool().Draw(t, l+".scheme") {
			id.Scheme = genText(t, l+".s")
		}
		return id
	})
	regGen(xmpdm.FrameRate{}, func(t *rapid.T, l string) interface{} { return genFrameRate(t, l) })
	regGen(xmpdm.FrameCount{}, func(t *rapid.T, l string) interface{} { return genFrameCount(t, l) })
	regGen(xmpdm.VideoFrameRate(0), func(t *rapid.T, l string) interface{} {
		return xmpdm.VideoFrameRate(rapid.SampledFrom([]float64{24, 25, 30, 48, 50, 60, 120, 12.5}).Draw(t, l))
	})
	regGen(xmpdm.Part{}, func(t *rapid.T, l string) interface{} { return genPart(t, l) })
	regGen(xmpdm.PartList{}, func(t *rapid.T, l string) interface{} {
		var p xmpdm.PartList
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, l+".n"); i < n; i++ {
			p = append(p, genPart(t, l))
		}
		return p
	})
	regGen(xmpdm.Timecode{}, func(t *rapid.T, l string) interface{} { return genTimecode(t, l) })
	regGen(xmpdm.MediaTime{}, func(t *rapid.T, l string) interface{} {
		return xmpdm.MediaTime{Value: rapid.Int64Range(1, 1<<40).Draw(t, l), Scale: xmp.Rational{Num: 1, Den: rapid.Int64Range(1, 100000).Draw(t, l)}}
	})
	regGen([]byte{}, func(t *rapid.T, l string) interface{} {
		// the library writes bytes as they are: only text survives XML
		return []byte(genText(t, l))
	})
	regGen(id3.Price{}, func(t *rapid.T, l string) interface{} {
		return id3.Price{Currency: rapid.SampledFrom([]string{"EUR", "USD"}).Draw(t, l), Amount: float32(rapid.IntRange(1, 10000).Draw(t, l)) / 100}
	})
}

func genFrameRate(t *rapid.T, l string) xmpdm.FrameRate {
	return rapid.SampledFrom([]xmpdm.FrameRate{{Rate: 24, Base: 1}, {Rate: 25, Base: 1}, {Rate: 30, Base: 1}, {Rate: 24000, Base: 1001}, {Rate: 30000, Base: 1001}, {Rate: 60000, Base: 1001}, {Rate: 254016000000, Base: 1}, {Rate: 48000, Base: 1}}).Draw(t, l+".rate")
}

func genFrameCount(t *rapid.T, l string) xmpdm.FrameCount {
	if rapid.IntRange(0, 9).Draw(t, l+".max") == 0 {
		return xmpdm.FrameCount{Count: -1, Rate: xmpdm.FrameRate{Rate: 1, Base: 1}}
	}
	return xmpdm.FrameCount{Count: rapid.Int64Range(1, 1<<50).Draw(t, l+".count"), Rate: genFrameRate(t, l)}
}

func genPart(t *rapid.T, l string) xmpdm.Part {
	p := xmpdm.Part{Path: rapid.SampledFrom([]string{"/", "/content", "/metadata/dc:title", "/content/audio"}).Draw(t, l+".path")}
	if rapid.Bool().Draw(t, l+".time") {
		p.Duration = genFrameCount(t, l+".dur")
		if rapid.Bool().Draw(t, l+".start") {
			p.Start = genFrameCount(t, l+".start")
		}
	}
	return p
}

var tcRates = []struct {
	f    xmpdm.TimecodeFormat
	max  int
	drop bool
}{
	{xmpdm.TimecodeFormat24, 24, false}, {xmpdm.TimecodeFormat25, 25, false}, {xmpdm.TimecodeFormat2997, 30, true}, {xmpdm.TimecodeFormat2997ND, 30, false},
	{xmpdm.TimecodeFormat30, 30, false}, {xmpdm.TimecodeFormat50, 50, false}, {xmpdm.TimecodeFormat5994, 60, true}, {xmpdm.TimecodeFormat5994ND, 60, false}, {xmpdm.TimecodeFormat60, 60, false}, {xmpdm.TimecodeFormat23976, 24, false},
}

func genTimecode(t *rapid.T, l string) xmpdm.Timecode {
	r := rapid.SampledFrom(tcRates).Draw(t, l+".fmt")
	tc := xmpdm.Timecode{Format: r.f, IsDropFrame: r.drop, H: rapid.IntRange(0, 23).Draw(t, l+".h"), M: rapid.IntRange(0, 59).Draw(t, l+".m"), S: rapid.IntRange(0, 59).Draw(t, l+".s"), F: rapid.IntRange(0, r.max-1).Draw(t, l+".f")}
	tc.Value = tc.String()
	return tc
}

type fieldTag struct {
	name    string // e.g. dc:title
	attr    bool
	empty   bool
	omit    bool
	flat    bool
	any     bool
	version bool
}

// xmpTag parses the xmp tag of a struct field; ok is false for fields that
// carry no property.
func xmpTag(f reflect.StructField) (fieldTag, bool) {
	if f.PkgPath != "" {
		return fieldTag{}, false
	}
	tag := f.Tag.Get("xmp")
	if tag == "-" {
		return fieldTag{}, false
	}
	p := strings.Split(tag, ",")
	ft := fieldTag{name: p[0]}
	if ft.name == "" {
		ft.name = f.Name
	}
	for _, v := range p[1:] {
		switch {
		case v == "attr":
			ft.attr = true
		case v == "empty":
			ft.empty = true
		case v == "omit":
			ft.omit = true
		case v == "flat":
			ft.flat = true
		case v == "any":
			ft.any = true
		case strings.HasPrefix(v, "v"):
			ft.version = true
		}
	}
	return ft, true
}

var (
	extArrayType   = reflect.TypeOf(xmp.ExtensionArray{})
	namedExtType   = reflect.TypeOf(xmp.NamedExtensionArray{})
	extType        = reflect.TypeOf(xmp.Extension{})
	textMarshaler  = reflect.TypeOf((*interface{ MarshalText() ([]byte, error) })(nil)).Elem()
	zeroer         = reflect.TypeOf((*interface{ IsZero() bool })(nil)).Elem()
	timeType       = reflect.TypeOf(time.Time{})
	rapidMaxDepth  = 4
	genUnsupported = map[string]bool{}
)

// genValue draws a non-zero valid value of the given type. ok is false when
// there is no generator (extensions are generated elsewhere).
func genValue(t *rapid.T, typ reflect.Type, label string, depth int) (v reflect.Value, ok bool) {
	if g, found := typeGens[typ]; found {
		return reflect.ValueOf(g(t, label)), true
	}
	switch typ {
	case extArrayType, namedExtType, extType:
		return reflect.Value{}, false
	}
	v = reflect.New(typ).Elem()
	switch typ.Kind() {
	case reflect.Ptr:
		e, ok := genValue(t, typ.Elem(), label, depth)
		if !ok {
			return v, false
		}
		p := reflect.New(typ.Elem())
		p.Elem().Set(e)
		return p, true
	case reflect.String:
		v.SetString(genText(t, label))
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		lim := int64(1) << uint(typ.Bits()-1)
		i := rapid.OneOf(rapid.Int64Range(1, 100), rapid.Int64Range(-100, -1), rapid.Int64Range(-lim, lim-1)).Draw(t, label)
		if i == 0 {
			i = 1
		}
		v.SetInt(i)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		max := ^uint64(0) >> uint(64-typ.Bits())
		v.SetUint(rapid.OneOf(rapid.Uint64Range(1, 100), rapid.Uint64Range(1, max)).Draw(t, label))
	case reflect.Float32:
		f := rapid.OneOf(rapid.Float32Range(-1000, 1000), rapid.Float32()).Draw(t, label)
		if f == 0 || f != f {
			f = 1.5
		}
		v.SetFloat(float64(f))
	case reflect.Float64:
		f := rapid.OneOf(rapid.Float64Range(-1000, 1000), rapid.Float64()).Draw(t, label)
		if f == 0 || f != f {
			f = 1.5
		}
		v.SetFloat(f)
	case reflect.Slice:
		if depth <= 0 {
			return v, false
		}
		n := rapid.IntRange(1, 3).Draw(t, label+".len")
		for i := 0; i < n; i++ {
			e, ok := genValue(t, typ.Elem(), label+"[]", depth-1)
			if !ok {
				return v, false
			}
			v = reflect.Append(v, e.Convert(typ.Elem()))
		}
	case reflect.Array:
		for i := 0; i < typ.Len(); i++ {
			e, ok := genValue(t, typ.Elem(), label+"[]", depth-1)
			if !ok {
				return v, false
			}
			v.Index(i).Set(e)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(typ))
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, label+".len"); i < n; i++ {
			e, ok := genValue(t, typ.Elem(), label+"[]", depth-1)
			if !ok {
				return v, false
			}
			v.SetMapIndex(reflect.ValueOf(fmt.Sprintf("key%d", i)).Convert(typ.Key()), e)
		}
	case reflect.Struct:
		if depth <= 0 {
			return v, false
		}
		var idx []int
		for i := 0; i < typ.NumField(); i++ {
			if ft, ok := xmpTag(typ.Field(i)); ok && !ft.omit {
				idx = append(idx, i)
			}
		}
		if len(idx) == 0 {
			return v, false
		}
		set := 0
		// at least one field is filled
		first := rapid.IntRange(0, len(idx)-1).Draw(t, label+".first")
		for k, i := range idx {
			if k != first && rapid.IntRange(0, 2).Draw(t, label+".set") > 0 && len(idx) > 2 {
				continue
			}
			e, ok := genValue(t, typ.Field(i).Type, label+"."+typ.Field(i).Name, depth-1)
			if !ok {
				continue
			}
			v.Field(i).Set(e)
			set++
		}
		return v, set > 0
	default:
		genUnsupported[typ.String()] = true
		return v, false
	}
	return v, true
}

// modelField is one property of a registered model.
type modelField struct {
	prefix string // main prefix of the model
	index  int
	tag    fieldTag
	typ    reflect.Type
	goName string
}

func (f modelField) String() string { return f.prefix + " " + f.tag.name }

func (f modelField) nsPrefix() string {
	if i := strings.IndexByte(f.tag.name, ':'); i > 0 {
		return f.tag.name[:i]
	}
	return ""
}

func newModel(prefix string) xmp.Model {
	ns, err := xmp.GetNamespace(prefix)
	if err != nil {
		return nil
	}
	return ns.NewModel()
}

// modelFields lists the properties of a model.
func modelFields(prefix string) []modelField {
	m := newModel(prefix)
	typ := reflect.TypeOf(m).Elem()
	var l []modelField
	for i := 0; i < typ.NumField(); i++ {
		ft, ok := xmpTag(typ.Field(i))
		if !ok || ft.omit {
			continue
		}
		l = append(l, modelField{prefix: prefix, index: i, tag: ft, typ: typ.Field(i).Type, goName: typ.Field(i).Name})
	}
	return l
}

// genField draws a valid value for a property.
func genField(t *rapid.T, f modelField, label string) (reflect.Value, bool) {
	if f.tag.name == "id3:language" && f.typ.Kind() == reflect.String {
		// becomes the language of entries in dc
		return reflect.ValueOf(rapid.SampledFrom([]string{"eng", "deu", "fra", "en"}).Draw(t, label)).Convert(f.typ), true
	}
	switch f.tag.name {
	case "id3:year_v23":
		return reflect.ValueOf(rapid.IntRange(1, 2100).Draw(t, label)), true
	}
	return genValue(t, f.typ, label, rapidMaxDepth)
}

func setField(m xmp.Model, f modelField, v reflect.Value) {
	reflect.ValueOf(m).Elem().Field(f.index).Set(v)
}

// ---------------------------------------------------------------------------
// canonical rendering of typed values, for comparison
// ---------------------------------------------------------------------------

// canon renders a value as text such that two values are the same property
// value exactly when their texts are equal. Empty parts are left out.
func canon(v reflect.Value) string {
	if !v.IsValid() {
		return ""
	}
	typ := v.Type()
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case xmp.Extension:
			return canonNode((*xmp.Node)(&x), 0)
		case xmp.Node:
			return canonNode(&x, 0)
		case xmp.GPSCoord:
			return string(x)
		case xmpdm.Timecode:
			if x.IsZero() {
				return ""
			}
			return fmt.Sprintf("tc(%s %d:%d:%d:%d %v)", x.Format, x.H, x.M, x.S, x.F, x.IsDropFrame)
		case xmpdm.FrameCount:
			if x.Count == 0 {
				return ""
			}
			if x.Count == -1 {
				return "fc(max)"
			}
			return fmt.Sprintf("fc(%d %d/%d)", x.Count, x.Rate.Rate, x.Rate.Base)
		}
	}
	if typ.ConvertibleTo(timeType) && typ.Kind() == reflect.Struct {
		tm := v.Convert(timeType).Interface().(time.Time)
		if tm.IsZero() {
			return ""
		}
		return tm.Format("2006-01-02T15:04:05.999999999-07:00")
	}
	switch typ.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return ""
		}
		return canon(v.Elem())
	case reflect.String:
		return strconv.Quote(v.String())[1:][:len(strconv.Quote(v.String()))-2]
	case reflect.Bool:
		if !v.Bool() {
			return ""
		}
		return "true"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.Int() == 0 {
			return ""
		}
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Uint() == 0 {
			return ""
		}
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		if v.Float() == 0 {
			return ""
		}
		return strconv.FormatFloat(v.Float(), 'g', -1, typ.Bits())
	case reflect.Slice, reflect.Array:
		if v.Len() == 0 {
			return ""
		}
		if typ.Elem().Kind() == reflect.Uint8 {
			var b []byte
			for i := 0; i < v.Len(); i++ {
				b = append(b, byte(v.Index(i).Uint()))
			}
			return fmt.Sprintf("bytes(%q)", b)
		}
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, canon(v.Index(i)))
		}
		if strings.Join(s, "") == "" {
			return ""
		}
		return "[" + strings.Join(s, " , ") + "]"
	case reflect.Map:
		var s []string
		for _, k := range v.MapKeys() {
			s = append(s, canon(k)+"->"+canon(v.MapIndex(k)))
		}
		sort.Strings(s)
		return "map{" + strings.Join(s, " ") + "}"
	case reflect.Struct:
		var s []string
		for i := 0; i < typ.NumField(); i++ {
			f := typ.Field(i)
			if f.PkgPath != "" || f.Tag.Get("xmp") == "-" || f.Name == "XMLName" {
				continue
			}
			if c := canon(v.Field(i)); c != "" {
				s = append(s, f.Name+"="+c)
			}
		}
		if len(s) == 0 {
			return ""
		}
		return "{" + strings.Join(s, " ; ") + "}"
	}
	return fmt.Sprintf("?%s", typ)
}

// canonNode renders an external node tree. rdf bookkeeping attributes are
// left out.
func canonNode(n *xmp.Node, depth int) string {
	if n == nil {
		return ""
	}
	var s []string
	if n.Value != "" {
		s = append(s, "="+strconv.Quote(n.Value))
	}
	if n.Model != nil {
		if c := canonModel(n.Model); len(c) > 0 {
			s = append(s, "model "+canon(reflect.ValueOf(n.Model)))
		}
	}
	// properties may be attributes
	var nodes []string
	for _, a := range n.Attr {
		if a.Value == "" || a.Name.Space == "xmlns" || a.Name.Local == "rdf:parseType" || a.Name.Local == "parseType" {
			continue
		}
		nodes = append(nodes, a.Name.Local+"(="+strconv.Quote(a.Value)+")")
	}
	for _, c := range n.Nodes {
		if r := canonNode(c, depth+1); r != "" {
			nodes = append(nodes, r)
		}
	}
	switch n.FullName() {
	case "rdf:Seq", "rdf:Bag", "rdf:Alt":
	default:
		sort.Strings(nodes)
	}
	s = append(s, nodes...)
	if len(s) == 0 {
		return ""
	}
	name := n.XMLName.Local
	if name == "rdf:Description" { // of an extension
		name = ""
	}
	return name + "(" + strings.Join(s, " ") + ")"
}

// canonModel renders every property of a model, by tag name.
func canonModel(m xmp.Model) map[string]string {
	out := map[string]string{}
	if m == nil || reflect.ValueOf(m).IsNil() {
		return out
	}
	v := reflect.ValueOf(m).Elem()
	typ := v.Type()
	for i := 0; i < typ.NumField(); i++ {
		ft, ok := xmpTag(typ.Field(i))
		if !ok || ft.omit {
			continue
		}
		if c := canon(v.Field(i)); c != "" {
			out[ft.name] = c
		}
	}
	return out
}

func diffMaps(want, got map[string]string) string {
	var d []string
	for _, k := range unionKeys(want, got) {
		if want[k] != got[k] {
			a, b := want[k], got[k]
			n := 0
			for n < len(a) && n < len(b) && a[n] == b[n] {
				n++
			}
			if n -= 80; n > 0 && (len(a) > 300 || len(b) > 300) {
				a, b = "..."+a[n:], "..."+b[n:]
			}
			d = append(d, fmt.Sprintf("%s: want %.300q got %.300q", k, a, b))
		}
	}
	return strings.Join(d, "\n  ")
}

func unionKeys(a, b map[string]string) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// genModel fills a random subset of the model's properties with valid values.
func genModel(t *rapid.T, prefix string, label string) xmp.Model {
	m := newModel(prefix)
	fields := modelFields(prefix)
	n := rapid.IntRange(1, 8).Draw(t, label+".fields")
	if rapid.IntRange(0, 9).Draw(t, label+".full") == 0 {
		n = len(fields)
	}
	names := map[string]bool{}
	for i := 0; i < n; i++ {
		f := fields[rapid.IntRange(0, len(fields)-1).Draw(t, label+".field")]
		if names[f.tag.name] {
			continue
		}
		v, ok := genField(t, f, label+"."+f.goName)
		if !ok {
			continue
		}
		names[f.tag.name] = true
		setField(m, f, v)
	}
	return m
}

// listing returns the path listing of a document as a map.
func listing(d *xmp.Document) (map[string]string, error) {
	l, err := d.ListPaths()
	if err != nil {
		return nil, err
	}
	m := map[string]string{}
	for _, v := range l {
		m[string(v.Path)] = v.Value
	}
	return m, nil
}
