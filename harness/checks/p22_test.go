package checks

import (
	"encoding"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/trimmer-io/go-xmp/models/crs"
	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/itunes"
	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/models/pm"
	"github.com/trimmer-io/go-xmp/models/qt"
	"github.com/trimmer-io/go-xmp/models/riff"
	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// domain types with a text form and how to draw their values
var domainTypes = []struct {
	name   string
	sample interface{}
	gen    func(t *rapid.T) interface{} // nil: as in documents
}{
	{"part", xmpdm.Part{}, func(t *rapid.T) interface{} { return genAnyPart(t) }},
	{"parts", xmpdm.PartList{}, func(t *rapid.T) interface{} {
		var l xmpdm.PartList
		for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
			l = append(l, genAnyPart(t))
		}
		return l
	}},
	{"frame count", xmpdm.FrameCount{}, func(t *rapid.T) interface{} { return genAnyCount(t, "c") }},
	{"frame rate", xmpdm.FrameRate{}, func(t *rapid.T) interface{} { return genAnyRate(t, "r") }},
	{"exif bytes", exif.ByteArray{}, nil},
	{"exif date", exif.Date{}, nil},
	{"id3 time", id3.Time23{}, nil},
	{"id3 date", id3.Date23{}, nil},
	{"id3 genre", id3.Genre{}, nil},
	{"id3 genre code", id3.GenreV1(0), func(t *rapid.T) interface{} { return id3.GenreV1(rapid.Byte().Draw(t, "g")) }},
	{"id3 track", id3.TrackNum{}, func(t *rapid.T) interface{} {
		return id3.TrackNum{Track: rapid.IntRange(0, 5000).Draw(t, "track"), Total: rapid.IntRange(0, 5000).Draw(t, "total")}
	}},
	{"curve point", crs.Point{}, func(t *rapid.T) interface{} {
		return crs.Point{X: rapid.Int64().Draw(t, "x"), Y: rapid.Int64().Draw(t, "y")}
	}},
	{"qt point", qt.Point{}, func(t *rapid.T) interface{} {
		return qt.Point{X: rapid.Int().Draw(t, "x"), Y: rapid.Int().Draw(t, "y")}
	}},
	{"qt rating", qt.ContentRating{}, func(t *rapid.T) interface{} {
		l := genRating(t)
		return qt.ContentRating{Standard: l[0], Rating: l[1], Score: l[2], Reasons: l[3]}
	}},
	{"itunes rating", itunes.ContentRating{}, func(t *rapid.T) interface{} {
		l := genRating(t)
		return itunes.ContentRating{Standard: l[0], Rating: l[1], Score: l[2], Reasons: l[3]}
	}},
	{"pm time", pm.Time{}, nil},
	{"pm prefs", pm.Preferences{}, func(t *rapid.T) interface{} {
		return pm.Preferences{TagStatus: rapid.IntRange(0, 1).Draw(t, "t"), ColorClass: rapid.IntRange(0, 8).Draw(t, "c"), Rating: rapid.IntRange(0, 5).Draw(t, "r"), Frame: rapid.IntRange(-1, 100000).Draw(t, "f")}
	}},
	{"riff texts", riff.StringArray{}, func(t *rapid.T) interface{} {
		return riff.StringArray(rapid.SliceOfN(rapid.StringMatching(`[a-z][a-z ,.-]{0,6}[a-z]`), 1, 4).Draw(t, "l"))
	}},
	{"take types", ixml.TakeTypeList{}, nil},
	{"location types", ixml.LocationTypeList{}, nil},
	{"location times", ixml.LocationTimeList{}, nil},
	{"ixml flag", ixml.Bool(false), func(t *rapid.T) interface{} { return ixml.Bool(rapid.Bool().Draw(t, "b")) }},
	{"plain identifier", xmpbase.Identifier{}, func(t *rapid.T) interface{} { return xmpbase.Identifier{ID: genText(t, "id")} }},
}

func parseDoc(b []byte) (*xmp.Document, error) {
	d := xmp.NewDocument()
	return d, xmp.Unmarshal(b, d)
}

func genRating(t *rapid.T) []string {
	word := rapid.OneOf(rapid.Just(""), rapid.StringMatching(`[A-Za-z0-9-]{1,6}`), rapid.StringMatching(`[A-Za-z(][A-Za-z ,()]{0,6}[a-z)]`))
	return []string{word.Draw(t, "standard"), word.Draw(t, "rating"), word.Draw(t, "score"),
		rapid.OneOf(word, rapid.StringMatching(`[a-z]{1,4}\|[a-z]{0,4}`)).Draw(t, "reasons")}
}

func genAnyRate(t *rapid.T, l string) xmpdm.FrameRate {
	if rapid.Bool().Draw(t, l+".common") {
		return genFrameRate(t, l)
	}
	return xmpdm.FrameRate{Rate: rapid.Int64Range(1, 1<<40).Draw(t, l), Base: rapid.Int64Range(1, 2000).Draw(t, l+".base")}
}

func genAnyCount(t *rapid.T, l string) xmpdm.FrameCount {
	switch rapid.IntRange(0, 7).Draw(t, l+".kind") {
	case 0:
		return xmpdm.FrameCount{Count: -1, Rate: xmpdm.FrameRate{Rate: 1, Base: 1}}
	case 1:
		return xmpdm.FrameCount{Count: 0, Rate: genAnyRate(t, l)}
	}
	return xmpdm.FrameCount{Count: rapid.OneOf(rapid.Int64Range(1, 1<<20), rapid.Int64Range(1, math.MaxInt64)).Draw(t, l), Rate: genAnyRate(t, l)}
}

func genAnyPart(t *rapid.T) xmpdm.Part {
	p := xmpdm.Part{Path: "/" + strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"content", "metadata", "audio", "dc:title", "xmpDM:time", "overtime", "d", "r", "time"}), 0, 4).Draw(t, "path"), "/")}
	switch rapid.IntRange(0, 3).Draw(t, "time") {
	case 0:
		p.Duration = genAnyCount(t, "dur")
	case 1:
		p.Duration = genAnyCount(t, "dur")
		p.Start = genAnyCount(t, "start")
	case 2:
		p.Start = genAnyCount(t, "start")
		p.Duration = xmpdm.FrameCount{Count: 0, Rate: xmpdm.FrameRate{Rate: 1, Base: 1}}
	}
	return p
}

// same is true when values are structurally equal, zero counts of any rate are.
func sameValue(a, b interface{}) bool {
	switch x := a.(type) {
	case xmpdm.Part:
		y := b.(xmpdm.Part)
		return x.Path == y.Path && sameValue(x.Start, y.Start) && sameValue(x.Duration, y.Duration)
	case xmpdm.PartList:
		y := b.(xmpdm.PartList)
		for i := range x {
			if len(x) != len(y) || !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case xmpdm.FrameCount:
		y := b.(xmpdm.FrameCount)
		return x == y || x.Count == 0 && y.Count == 0
	}
	return reflect.DeepEqual(a, b) || canon(reflect.ValueOf(a)) != "" && canon(reflect.ValueOf(a)) == canon(reflect.ValueOf(b))
}

func TestP22_Text(t *testing.T) {
	rule("P22/text", "values of each domain type with a text form, formatted and parsed again into a fresh and into a used variable; non-trivial: distinct values with a text")
	check(t, 40000, func(rt *rapid.T) {
		d := domainTypes[rapid.IntRange(0, len(domainTypes)-1).Draw(rt, "type")]
		typ := reflect.TypeOf(d.sample)
		draw := func() reflect.Value {
			if d.gen != nil {
				return reflect.ValueOf(d.gen(rt))
			}
			v, ok := genValue(rt, typ, d.name, 2)
			if !ok {
				rt.Fatalf("no generator for %s", d.name)
			}
			return v
		}
		v, used := draw(), draw()
		err := try(func() error {
			b, err := v.Interface().(encoding.TextMarshaler).MarshalText()
			if err != nil {
				return fmt.Errorf("format: %v", err)
			}
			if len(b) == 0 {
				// absent
				return nil
			}
			for _, start := range []reflect.Value{reflect.Zero(typ), used} {
				p := reflect.New(typ)
				p.Elem().Set(start)
				if err := p.Interface().(encoding.TextUnmarshaler).UnmarshalText(b); err != nil {
					return fmt.Errorf("parse %q: %v", b, err)
				}
				if !sameValue(v.Interface(), p.Elem().Interface()) {
					return fmt.Errorf("%q reads as %+v", b, p.Elem().Interface())
				}
				c, err := p.Interface().(encoding.TextMarshaler).MarshalText()
				if err != nil || string(c) != string(b) {
					return fmt.Errorf("%q is formatted as %q (%v) after reading", b, c, err)
				}
			}
			tally("P22/text", d.name+" "+string(b), true, d.name)
			return nil
		})
		if err != nil {
			rt.Fatalf("%s %+v: %v", d.name, v.Interface(), err)
		}
	})
}

func TestP22_Codes(t *testing.T) {
	rule("P22/codes", "every flash code, genre code and media type; non-trivial: each")
	for i := 0; i < 128; i++ {
		var f exif.Flash
		if err := f.UnmarshalText([]byte(strconv.Itoa(i))); err != nil {
			violate(t, "flash code %d: %v", i, err)
		}
		code := int(f.Return)<<1 | int(f.Mode)<<3
		for bit, b := range map[int]xmp.Bool{1: f.Fired, 0x20: f.Function, 0x40: f.RedEyeMode} {
			if b.Value() {
				code |= bit
			}
		}
		if code != i {
			violate(t, "flash code %d means %+v which is code %d", i, f, code)
		}
		tally("P22/codes", fmt.Sprintf("flash %d", i), true, "flash")
	}
	names := map[string]id3.GenreV1{}
	for i := 0; i < 256; i++ {
		g := id3.GenreV1(i)
		if o, ok := names[g.String()]; ok {
			violate(t, "genres %d and %d are both %s", i, o, g)
		}
		names[g.String()] = g
		if p, err := id3.ParseGenreV1(g.String()); err != nil || p != g {
			violate(t, "genre %d is %s which reads as %d (%v)", i, g, p, err)
		}
		if p, err := id3.ParseGenreV1(strconv.Itoa(i)); err != nil || p != g {
			violate(t, "genre code %d reads as %d (%v)", i, p, err)
		}
		if i < len(voc.Genres) && g.String() != voc.Genres[i] {
			violate(t, "genre %d is %q, not %q", i, g, voc.Genres[i])
		}
		tally("P22/codes", "genre "+g.String(), true, "genre")
	}
	media := map[string]int{}
	for i := 0; i < 64; i++ {
		s := itunes.MediaType(i).String()
		if o, ok := media[s]; ok {
			violate(t, "media types %d and %d are both %s", i, o, s)
		}
		media[s] = i
		if w := voc.Media[strconv.Itoa(i)]; w != "" && s != w {
			violate(t, "media type %d is %q, not %q", i, s, w)
		}
		tally("P22/codes", "media "+s, true, "media")
	}
	for _, f := range tcRates {
		for _, r := range []struct {
			num, den int64
		}{{int64(f.max), 1}, {int64(f.max) * 1000, 1001}} {
			got := xmpdm.ParseTimecodeFormat(float64(r.num)/float64(r.den), f.drop)
			s := string(f.f)
			fractional := strings.HasPrefix(s, "2997") || strings.HasPrefix(s, "5994") || strings.HasPrefix(s, "23976")
			if (r.den == 1001) == fractional && got != f.f {
				violate(t, "%d/%d fps, drop frame %v is %s, not %s", r.num, r.den, f.drop, got, f.f)
			}
			tally("P22/codes", fmt.Sprintf("timecode %d/%d %v", r.num, r.den, f.drop), true, "timecode")
		}
	}
}

// spellings that mean a given value
func TestP22_Spellings(t *testing.T) {
	rule("P22/spellings", "values of domain types in their documented alternative spellings (dates, rates, points, part ranges, genres, coordinates, media durations, tables); non-trivial: distinct spellings")
	check(t, 20000, func(rt *rapid.T) {
		kind := rapid.SampledFrom([]string{"exif date", "rate", "point", "range", "genre", "duration", "oecf", "cfa", "device", "smpb", "track", "timecode"}).Draw(rt, "kind")
		var text string
		err := try(func() error {
			switch kind {
			case "exif date":
				d := genTimeIn(rt, "d", time.UTC, 1, 9999)
				f := rapid.SampledFrom([]string{"2006:01:02 15:04:05", "2006:01:02 15:04", "2006:01:02", "2006-01-02T15:04:05", "2006-01-02T15:04:05Z", "2006-01-02T15:04", "2006:01:02 15:04:05-07:00"}).Draw(rt, "format")
				text = d.Format(f)
				want, _ := time.Parse(f, text)
				var x exif.Date
				if err := x.UnmarshalText([]byte(text)); err != nil {
					return err
				}
				if !x.Value().Equal(want) {
					return fmt.Errorf("reads as %v", x.Value())
				}
			case "rate":
				r := rapid.SampledFrom([]struct {
					s string
					f float64
				}{{"NTSC", 29.97}, {"ntsc", 29.97}, {"PAL", 25}, {"24", 24}, {"23.976", 23.976}, {"25p", 25}, {"50i", 50}, {"30fps", 30}, {"30 fps", 30}, {"30000/1001", 30000.0 / 1001}, {"12.5", 12.5}, {"59.94p", 59.94}, {"", 0}}).Draw(rt, "rate")
				text = r.s
				x := xmpdm.VideoFrameRate(7)
				if err := x.UnmarshalText([]byte(text)); err != nil {
					return err
				}
				if math.Abs(float64(x)-r.f) > 1e-6 {
					return fmt.Errorf("reads as %v", x)
				}
			case "point":
				p := qt.Point{X: rapid.IntRange(-9999, 9999).Draw(rt, "x"), Y: rapid.IntRange(-9999, 9999).Draw(rt, "y")}
				text = fmt.Sprintf("%d%s%d", p.X, rapid.SampledFrom([]string{",", "/", ":", " ", ";"}).Draw(rt, "sep"), p.Y)
				var x qt.Point
				if err := x.UnmarshalText([]byte(text)); err != nil {
					return err
				}
				if x != p {
					return fmt.Errorf("reads as %+v", x)
				}
			case "range":
				// [/]time:##r## is the range between two counts
				a, b := genAnyCount(rt, "from"), genAnyCount(rt, "to")
				if a.Count < 0 {
					a.Count = 0
				}
				a.Count %= 1 << 40
				a.Rate.Rate, b.Rate.Rate = (a.Rate.Rate-1)%1000000+1, (b.Rate.Rate-1)%1000000+1
				if b.Count > 0 {
					b.Count %= 1 << 40
				}
				if rapid.Bool().Draw(rt, "same rate") && b.Count >= 0 {
					b.Rate = a.Rate
				}
				text = "/content/time:" + a.String() + "r" + b.String()
				var x xmpdm.Part
				if err := x.UnmarshalText([]byte(text)); err != nil {
					return err
				}
				if x.Path != "/content" || !sameTime(x.Start, a) {
					return fmt.Errorf("reads as %+v", x)
				}
				if b.Count < 0 {
					if x.Duration.Count != -1 {
						return fmt.Errorf("range to the maximum reads as %+v", x)
					}
					break
				}
				want := new(big.Rat).Sub(seconds(b), seconds(a))
				if w, _ := want.Float64(); math.Abs(w)*math.Max(float64(a.Rate.Rate), float64(b.Rate.Rate)) > 1<<60 {
					assume("part ranges of more frames than an integer holds are not judged")
					break
				}
				got := seconds(x.Duration)
				if got.Cmp(want) != 0 && x.Duration.Count != -1 {
					d, _ := new(big.Rat).Sub(got, want).Float64()
					w, _ := want.Float64()
					if math.Abs(d) > 1 && math.Abs(d) > math.Abs(w)*1e-9 {
						return fmt.Errorf("reads as %+v, not %s seconds", x, want)
					}
				}
				if x.Duration.Rate == b.Rate && a.Rate == b.Rate && x.Duration.Count != b.Count-a.Count && a.Count > 0 {
					return fmt.Errorf("reads as %+v", x)
				}
			case "genre":
				var want id3.Genre
				var l []string
				for i := rapid.IntRange(1, 3).Draw(rt, "n"); i > 0; i-- {
					switch rapid.IntRange(0, 3).Draw(rt, "as") {
					case 0:
						c := rapid.IntRange(0, 191).Draw(rt, "code")
						l = append(l, strconv.Itoa(c))
						want = append(want, id3.GenreV1(c).String())
					case 1:
						l = append(l, "RX")
						want = append(want, "Remix")
					case 2:
						l = append(l, "CR")
						want = append(want, "Cover")
					default:
						n := strconv.Itoa(rapid.IntRange(256, 9999).Draw(rt, "year"))
						l = append(l, n)
						want = append(want, n)
					}
				}
				text = strings.Join(l, rapid.SampledFrom([]string{",", ", ", " , "}).Draw(rt, "sep"))
				var x id3.Genre
				if err := x.UnmarshalText([]byte(text)); err != nil {
					return err
				}
				if !reflect.DeepEqual(x, want) {
					return fmt.Errorf("reads as %q, want %q", x, want)
				}
			case "duration":
				// xmpDM:duration="0:07.680"
				d := time.Duration(rapid.Int64Range(0, 100*3600).Draw(rt, "s")) * time.Second
				frac := ""
				if rapid.Bool().Draw(rt, "fraction") {
					frac = rapid.StringMatching(`\.[0-9]{1,9}`).Draw(rt, "frac")
				}
				h, m, s := int(d/time.Hour), int(d/time.Minute%60), int(d/time.Second%60)
				switch {
				case h > 0:
					text = fmt.Sprintf("%d:%02d:%02d", h, m, s)
				case m > 0 || rapid.Bool().Draw(rt, "minutes"):
					text = fmt.Sprintf("%d:%02d", m, s)
				default:
					text = fmt.Sprintf("%d", s)
				}
				text += frac
				want := new(big.Rat).SetInt64(int64(d / time.Second))
				if frac != "" {
					f, _ := new(big.Rat).SetString("0" + frac)
					want.Add(want, f)
				}
				doc := `<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="" xmlns:xmpDM="http://ns.adobe.com/xmp/1.0/DynamicMedia/" xmpDM:duration="` + text + `"/></rdf:RDF></x:xmpmeta>`
				r, err := parseDoc([]byte(doc))
				if err != nil {
					return err
				}
				m0 := xmpdm.FindModel(r)
				if m0 == nil {
					return fmt.Errorf("not read")
				}
				v := m0.Duration
				if v.Scale.Den == 0 {
					if want.Sign() != 0 {
						return fmt.Errorf("reads as %+v", v)
					}
					break
				}
				got := new(big.Rat).Mul(new(big.Rat).SetInt64(v.Value), big.NewRat(v.Scale.Num, v.Scale.Den))
				if got.Cmp(want) != 0 {
					return fmt.Errorf("reads as %+v, not %s seconds", v, want.FloatString(9))
				}
			case "oecf":
				o := exif.OECF{Columns: rapid.IntRange(1, 4).Draw(rt, "c"), Rows: rapid.IntRange(1, 3).Draw(rt, "r")}
				l := []string{strconv.Itoa(o.Columns), strconv.Itoa(o.Rows)}
				for i := 0; i < o.Columns; i++ {
					n := rapid.StringMatching(`[A-Za-z][A-Za-z0-9]{0,3}`).Draw(rt, "name")
					o.Names = append(o.Names, n)
					l = append(l, n)
				}
				for i := 0; i < o.Columns*o.Rows; i++ {
					r := xmp.Rational{Num: rapid.Int64Range(0, 1000).Draw(rt, "num"), Den: rapid.Int64Range(1, 1000).Draw(rt, "den")}
					o.Values = append(o.Values, r)
					l = append(l, fmt.Sprintf("%d/%d", r.Num, r.Den))
				}
				text = strings.Join(l, " ")
				var x exif.OECF
				if err := x.UnmarshalText([]byte(text)); err != nil {
					return err
				}
				if !reflect.DeepEqual(o.Names, x.Names) || o.Columns != x.Columns || o.Rows != x.Rows || len(o.Values) != len(x.Values) {
					return fmt.Errorf("reads as %+v", x)
				}
				for i := range o.Values {
					if o.Values[i].Num*x.Values[i].Den != x.Values[i].Num*o.Values[i].Den {
						return fmt.Errorf("reads as %+v", x)
					}
				}
			case "cfa", "device":
				cols, rows := rapid.IntRange(1, 4).Draw(rt, "c"), rapid.IntRange(1, 3).Draw(rt, "r")
				l := []string{strconv.Itoa(cols), strconv.Itoa(rows)}
				var vals []string
				for i := 0; i < cols*rows; i++ {
					vals = append(vals, strconv.Itoa(rapid.IntRange(0, 255).Draw(rt, "v")))
				}
				text = strings.Join(append(l, vals...), " ")
				var c, r int
				var got string
				if kind == "cfa" {
					var x exif.CFAPattern
					if err := x.UnmarshalText([]byte(text)); err != nil {
						return err
					}
					c, r, got = x.Columns, x.Rows, x.Values.String()
				} else {
					var x exif.DeviceSettings
					if err := x.UnmarshalText([]byte(text)); err != nil {
						return err
					}
					c, r, got = x.Columns, x.Rows, strings.Join(x.Values, " ")
				}
				if c != cols || r != rows || got != strings.Join(vals, " ") {
					return fmt.Errorf("reads as %d %d %s", c, r, got)
				}
			case "smpb":
				v := itunes.SMPB{EncoderDelay: rapid.Int64Range(0, math.MaxInt32).Draw(rt, "delay"), EndPadding: rapid.Int64Range(0, math.MaxInt32).Draw(rt, "pad"), OriginalSampleCount: rapid.Int64Range(0, math.MaxInt64).Draw(rt, "count"), EndOffset: rapid.Int64Range(0, math.MaxInt32).Draw(rt, "end")}
				text = fmt.Sprintf(" 00000000 %08X %08X %016X 00000000 %08X 00000000 00000000 00000000 00000000 00000000 00000000", v.EncoderDelay, v.EndPadding, v.OriginalSampleCount, v.EndOffset)
				var x itunes.SMPB
				if err := x.UnmarshalText([]byte(text)); err != nil {
					return err
				}
				if x != v {
					return fmt.Errorf("reads as %+v, want %+v", x, v)
				}
			case "track":
				v := id3.TrackNum{Track: rapid.IntRange(0, 99).Draw(rt, "track"), Total: rapid.IntRange(0, 99).Draw(rt, "total")}
				text = fmt.Sprintf("%02d/%02d", v.Track, v.Total)
				if v.Total == 0 {
					text = fmt.Sprintf("%02d", v.Track)
				}
				var x id3.TrackNum
				if err := x.UnmarshalText([]byte(text)); err != nil {
					return err
				}
				if x != v {
					return fmt.Errorf("reads as %+v", x)
				}
			case "timecode":
				tc := genTimecode(rt, "tc")
				text = tc.Value
				if tc.IsDropFrame && rapid.Bool().Draw(rt, "last") {
					text = strings.Replace(text, ";", ":", 2)
				}
				x := xmpdm.Timecode{Value: text, IsDropFrame: strings.Contains(text, ";")}
				if err := x.Unpack(); err != nil {
					return err
				}
				if x.H != tc.H || x.M != tc.M || x.S != tc.S || x.F != tc.F || x.String() != tc.Value {
					return fmt.Errorf("unpacks as %+v", x)
				}
				b, err := json.Marshal(tc)
				if err != nil {
					return err
				}
				var y xmpdm.Timecode
				if err := json.Unmarshal(b, &y); err != nil {
					return err
				}
				if y != tc {
					return fmt.Errorf("%+v is %s in JSON, reads as %+v", tc, b, y)
				}
			}
			tally("P22/spellings", kind+" "+text, true, kind)
			return nil
		})
		if err != nil {
			rt.Fatalf("%s %q: %v", kind, text, err)
		}
	})
}

// seconds is the exact point in time of a count.
func seconds(c xmpdm.FrameCount) *big.Rat {
	r := new(big.Rat).SetInt64(c.Count)
	if c.Rate.Rate > 0 && c.Rate.Base > 0 {
		r.Quo(r, big.NewRat(c.Rate.Rate, c.Rate.Base))
	}
	return r
}

func sameTime(a, b xmpdm.FrameCount) bool { return seconds(a).Cmp(seconds(b)) == 0 }

func TestP22_Counts(t *testing.T) {
	rule("P22/counts", "frame counts on equal and different rates, \"maximum\" included: order and difference agree with their times; sorting and filtering markers; non-trivial: distinct pairs")
	check(t, 10000, func(rt *rapid.T) {
		a, b := genAnyCount(rt, "a"), genAnyCount(rt, "b")
		switch rapid.IntRange(0, 2).Draw(rt, "related") {
		case 0:
			b.Rate = a.Rate
		case 1:
			b.Count = a.Count
		}
		// from text, as read from a document
		for _, c := range []*xmpdm.FrameCount{&a, &b} {
			if err := c.UnmarshalText([]byte(c.String())); err != nil {
				rt.Fatalf("%v: %v", c, err)
			}
		}
		want := false
		switch {
		case a.Count == -1:
		case b.Count == -1:
			want = true
		default:
			want = seconds(a).Cmp(seconds(b)) < 0
		}
		if got := a.IsSmaller(b); got != want {
			rt.Fatalf("%v smaller than %v: %v", a, b, got)
		}
		if a.Rate == b.Rate && a.Count >= 0 && b.Count >= 0 {
			if d := a.Sub(b); d.Count != a.Count-b.Count || d.Rate != a.Rate {
				rt.Fatalf("%v - %v = %v", a, b, d)
			}
		}
		tally("P22/counts", a.String()+" "+b.String(), true)
	})
	check(t, 3000, func(rt *rapid.T) {
		n := rapid.IntRange(0, 8).Draw(rt, "n")
		var l, orig xmpdm.MarkerList
		types := []xmpdm.MarkerType{xmpdm.MarkerTypeChapter, xmpdm.MarkerTypeCue, xmpdm.MarkerTypeSpeech, "Other"}
		for i := 0; i < n; i++ {
			l = append(l, xmpdm.Marker{Name: strconv.Itoa(i), StartTime: genAnyCount(rt, "start"), Types: rapid.SliceOfNDistinct(rapid.SampledFrom(types), 0, 3, rapid.ID[xmpdm.MarkerType]).Draw(rt, "types")})
		}
		orig = append(orig, l...)
		l.Sort()
		var names []string
		for i, m := range l {
			names = append(names, m.Name)
			if i > 0 && m.StartTime.IsSmaller(l[i-1].StartTime) {
				rt.Fatalf("%v sorted before %v", l[i-1].StartTime, m.StartTime)
			}
		}
		sort.Strings(names)
		for i, v := range names {
			if v != strconv.Itoa(i) {
				rt.Fatalf("sorting lost markers: %v", names)
			}
		}
		sel := xmpdm.MarkerTypeList(rapid.SliceOfN(rapid.SampledFrom(types), 0, 3).Draw(rt, "select"))
		var want []string
		for _, m := range orig {
			for _, x := range sel {
				if m.Types.Contains(x) {
					want = append(want, m.Name)
					break
				}
			}
		}
		var got []string
		for _, m := range orig.Filter(sel) {
			got = append(got, m.Name)
		}
		if strings.Join(got, ",") != strings.Join(want, ",") {
			rt.Fatalf("filter %v selects %v, want %v", sel, got, want)
		}
		tally("P22/counts", fmt.Sprintf("markers %v %v", orig, sel), n > 1, "markers")
	})
}

// timecode of the given frame, by the definition of drop frame counting
func refTimecode(frames, fps int64, drop bool) (h, m, s, f int64) {
	if drop {
		n := fps / 15
		// walk whole minutes; every ten minutes are alike
		min10 := fps*600 - 9*n
		h = frames / (min10 * 6)
		frames -= h * min10 * 6
		m = frames / min10 * 10
		frames -= m / 10 * min10
		for {
			size := fps * 60
			if m%10 != 0 {
				size -= n
			}
			if frames < size {
				break
			}
			frames -= size
			m++
		}
		if m%10 != 0 {
			frames += n
		}
		return h, m, frames / fps, frames % fps
	}
	f = frames % fps
	s = frames / fps
	return s / 3600, s / 60 % 60, s % 60, f
}

func TestP22_Samples(t *testing.T) {
	rule("P22/samples", "time stamps in audio samples at integer and NTSC timecode rates, with and without drop frames: the timecode is the one counted from midnight; non-trivial: distinct time stamps after midnight")
	check(t, 10000, func(rt *rapid.T) {
		type rate struct{ num, den, fps int64 }
		r := rapid.SampledFrom([]rate{{24, 1, 24}, {25, 1, 25}, {30, 1, 30}, {50, 1, 50}, {60, 1, 60}, {24000, 1001, 24}, {30000, 1001, 30}, {60000, 1001, 60}}).Draw(rt, "rate")
		drop := r.fps%30 == 0 && r.den != 1 && rapid.Bool().Draw(rt, "drop")
		sr := rapid.SampledFrom([]int64{8000, 44100, 48000, 48048, 47952, 96000, 192000}).Draw(rt, "sample rate")
		day := 24 * 3600 * sr
		// recorders may count on after midnight
		samples := rapid.OneOf(rapid.Int64Range(0, day-1), rapid.Int64Range(0, 10*day)).Draw(rt, "samples")
		if rapid.Bool().Draw(rt, "at frame") {
			// the first sample of a frame
			frame := rapid.Int64Range(0, 24*3600*r.fps-1).Draw(rt, "frame")
			n := new(big.Int).Mul(big.NewInt(frame), big.NewInt(r.den*sr))
			n.Add(n, big.NewInt(r.num-1))
			samples = n.Div(n, big.NewInt(r.num)).Int64()
		}
		v := ixml.Speed{TimecodeRate: xmp.Rational{Num: r.num, Den: r.den}, TimecodeFlag: ixml.TimecodeFlagNDF, TimestampSampleRate: int(sr),
			TimestampSamplesSinceMidnightHI: int(samples >> 32), TimestampSamplesSinceMidnightLO: int(samples & 0xffffffff)}
		if drop {
			v.TimecodeFlag = ixml.TimecodeFlagDF
		}
		n := new(big.Int).Mul(big.NewInt(samples), big.NewInt(r.num))
		n.Div(n, big.NewInt(sr*r.den))
		h, m, s, f := refTimecode(n.Int64(), r.fps, drop)
		h %= 24
		tc := v.XmpTimecode()
		if int64(tc.H) != h || int64(tc.M) != m || int64(tc.S) != s || int64(tc.F) != f || tc.IsDropFrame != drop {
			rt.Fatalf("sample %d at %d Hz with %d/%d fps (drop %v) is %s, want %02d:%02d:%02d:%02d", samples, sr, r.num, r.den, drop, tc, h, m, s, f)
		}
		if want := xmpdm.ParseTimecodeFormat(float64(r.num)/float64(r.den), drop); tc.Format != want {
			rt.Fatalf("format %s, want %s", tc.Format, want)
		}
		tally("P22/samples", fmt.Sprintf("%d %d %d/%d %v", samples, sr, r.num, r.den, drop), samples > 0)
	})
}

func coordMinutes(c xmp.GPSCoord) (float64, string, error) {
	s := string(c)
	if s == "" {
		return 0, "", fmt.Errorf("empty coordinate")
	}
	ref := s[len(s)-1:]
	f := strings.Split(s[:len(s)-1], ",")
	if len(f) != 2 {
		return 0, "", fmt.Errorf("invalid coordinate %q", s)
	}
	d, err := strconv.Atoi(f[0])
	if err != nil {
		return 0, "", err
	}
	m, err := strconv.ParseFloat(f[1], 64)
	if err != nil {
		return 0, "", err
	}
	if d < 0 || !(m >= 0 && m < 60) {
		return 0, "", fmt.Errorf("invalid coordinate %q", s)
	}
	return float64(d)*60 + m, ref, nil
}

func TestP22_Coordinates(t *testing.T) {
	rule("P22/coordinates", "GPS positions and times given as EXIF decimals or rationals, and as QuickTime ISO 6709 texts: the XMP coordinate in the written document denotes the same place and converts back; non-trivial: distinct positions")
	check(t, 6000, func(rt *rapid.T) {
		var log []string
		err := try(func() error {
			num := func(l string, max int) (string, float64) {
				deg := rapid.IntRange(0, max-1).Draw(rt, l)
				s := fmt.Sprintf("%d.%s", deg, rapid.OneOf(rapid.StringMatching(`[0-9]{1,8}`), rapid.SampledFrom([]string{"0", "9999999", "99999999", "0166666667", "5", "983333333"})).Draw(rt, l+".frac"))
				f, _ := strconv.ParseFloat(s, 64)
				return s, f * 60
			}
			lat, latMin := num("lat", 90)
			lon, lonMin := num("lon", 180)
			latRef := rapid.SampledFrom([]string{"N", "S"}).Draw(rt, "latref")
			lonRef := rapid.SampledFrom([]string{"E", "W"}).Draw(rt, "lonref")
			checkCoord := func(c xmp.GPSCoord, min float64, ref string, tol float64) error {
				m, r, err := coordMinutes(c)
				if err != nil {
					return err
				}
				if r != ref || math.Abs(m-min) > tol {
					return fmt.Errorf("coordinate %s, want %f minutes %s", c, min, ref)
				}
				return nil
			}
			d := xmp.NewDocument()
			if rapid.Bool().Draw(rt, "exif") {
				m := &exif.ExifInfo{GPSLatitudeRef: latRef, GPSLongitudeRef: lonRef, GPSDestLatitudeRef: latRef, GPSDestLongitudeRef: lonRef}
				if _, err := d.AddModel(m); err != nil {
					return err
				}
				for tag, v := range map[string]string{"0x0002": lat, "0x0004": lon, "0x0014": lat, "0x0016": lon} {
					if err := m.SetTag(tag, v); err != nil {
						return err
					}
				}
				tol := 1e-6
				if rapid.Bool().Draw(rt, "rational") {
					// degrees, minutes, seconds
					set := func(c *exif.GPSCoord, min float64) float64 {
						deg := int64(min / 60)
						mi := int64(min) % 60
						den := rapid.SampledFrom([]int64{1, 100, 10000, 1000000}).Draw(rt, "den")
						sec := rapid.Int64Range(0, 60*den-1).Draw(rt, "sec")
						*c = exif.GPSCoord{{Num: deg, Den: 1}, {Num: mi, Den: 1}, {Num: sec, Den: den}}
						return float64(deg)*60 + float64(mi) + float64(sec)/float64(den)/60
					}
					latMin = set(&m.GPSLatitude, latMin)
					m.GPSDestLatitude = m.GPSLatitude
					lonMin = set(&m.GPSLongitude, lonMin)
					m.GPSDestLongitude = m.GPSLongitude
				}
				day := time.Date(rapid.IntRange(1990, 2030).Draw(rt, "y"), time.Month(rapid.IntRange(1, 12).Draw(rt, "mo")), rapid.IntRange(1, 28).Draw(rt, "d"), 0, 0, 0, 0, time.UTC)
				h, mi, s := rapid.Int64Range(0, 23).Draw(rt, "h"), rapid.Int64Range(0, 59).Draw(rt, "mi"), rapid.Int64Range(0, 59999).Draw(rt, "ms")
				m.GPSDateStamp = exif.Date(day)
				m.GPSTimeStamp = xmp.RationalArray{{Num: h, Den: 1}, {Num: mi, Den: 1}, {Num: s, Den: 1000}}
				log = append(log, fmt.Sprintf("exif %s%s %s%s %v %v", lat, latRef, lon, lonRef, m.GPSLatitude, m.GPSTimeStamp))
				b, err := xmp.Marshal(d)
				if err != nil {
					return err
				}
				r, err := parseDoc(b)
				if err != nil {
					return err
				}
				e := exif.FindModel(r)
				if e == nil {
					return fmt.Errorf("model is lost")
				}
				for _, c := range []struct {
					c   xmp.GPSCoord
					min float64
					ref string
				}{{e.GPSLatitudeCoord, latMin, latRef}, {e.GPSLongitudeCoord, lonMin, lonRef}, {e.GPSDestLatitudeCoord, latMin, latRef}, {e.GPSDestLongitudeCoord, lonMin, lonRef}} {
					if err := checkCoord(c.c, c.min, c.ref, tol); err != nil {
						return err
					}
				}
				want := day.Add(time.Duration(h)*time.Hour + time.Duration(mi)*time.Minute + time.Duration(s)*time.Millisecond)
				if got := e.GPSTimeStampXMP.Value(); got.Sub(want) > time.Microsecond || want.Sub(got) > time.Microsecond {
					return fmt.Errorf("time %v, want %v", got, want)
				}
				tally("P22/coordinates", log[0], true, "exif")
				return nil
			}
			// QuickTime
			sign := func(ref string) string {
				if ref == "S" || ref == "W" {
					return "-"
				}
				return "+"
			}
			pad := func(s string, n int) string {
				for len(strings.Split(s, ".")[0]) < n {
					s = "0" + s
				}
				return s
			}
			iso := sign(latRef) + pad(lat, 2) + sign(lonRef) + pad(lon, 3)
			alt := 0.0
			switch rapid.IntRange(0, 3).Draw(rt, "form") {
			case 3:
				// degrees, minutes and seconds
				s1, s2 := rapid.IntRange(0, 3599999).Draw(rt, "s1"), rapid.IntRange(0, 3599999).Draw(rt, "s2")
				d1, d2 := int(latMin/60), int(lonMin/60)
				dms := func(d, w, s int) string {
					if rapid.Bool().Draw(rt, "whole") {
						return fmt.Sprintf("%0*d%02d%02d", w, d, s/60000, s/1000%60)
					}
					return fmt.Sprintf("%0*d%02d%02d.%03d", w, d, s/60000, s/1000%60, s%1000)
				}
				a, b := dms(d1, 2, s1), dms(d2, 3, s2)
				if !strings.Contains(a, ".") {
					s1 = s1 / 1000 * 1000
				}
				if !strings.Contains(b, ".") {
					s2 = s2 / 1000 * 1000
				}
				iso = sign(latRef) + a + sign(lonRef) + b
				latMin, lonMin = float64(d1*60)+float64(s1)/60000, float64(d2*60)+float64(s2)/60000
				if rapid.Bool().Draw(rt, "crs") {
					alt = float64(rapid.IntRange(1, 9000).Draw(rt, "alt"))
					iso += fmt.Sprintf("+%dCRSWGS_84", int(alt))
				}
			case 0:
			case 1:
				alt = float64(rapid.IntRange(-400000, 9000000).Draw(rt, "alt")) / 1000
				a := strconv.FormatFloat(alt, 'f', -1, 64)
				if alt >= 0 {
					a = "+" + a
				}
				iso += a
			case 2:
				// degrees and minutes
				m1, m2 := rapid.IntRange(0, 59999).Draw(rt, "m1"), rapid.IntRange(0, 59999).Draw(rt, "m2")
				d1, d2 := int(latMin/60), int(lonMin/60)
				iso = fmt.Sprintf("%s%02d%02d.%03d%s%03d%02d.%03d", sign(latRef), d1, m1/1000, m1%1000, sign(lonRef), d2, m2/1000, m2%1000)
				latMin, lonMin = float64(d1*60)+float64(m1)/1000, float64(d2*60)+float64(m2)/1000
			}
			iso += "/"
			m := &qt.QtInfo{Mdta: &qt.QtMetadata{}}
			if err := m.Mdta.SetTag("com.apple.quicktime.location.iso6709", iso); err != nil {
				return err
			}
			if rapid.Bool().Draw(rt, "named") {
				m.Mdta.LocationName = genWord(rt, "name")
			}
			log = append(log, "qt "+iso)
			if _, err := d.AddModel(m); err != nil {
				return err
			}
			b, err := xmp.Marshal(d)
			if err != nil {
				return err
			}
			r, err := parseDoc(b)
			if err != nil {
				return err
			}
			ns, _ := xmp.GetNamespace("qt")
			q, _ := r.FindModel(ns).(*qt.QtInfo)
			if q == nil || q.Mdta == nil || q.Mdta.Location == nil {
				return fmt.Errorf("location is lost\n%s", b)
			}
			l := q.Mdta.Location
			if err := checkCoord(l.Latitude, latMin, latRef, 1e-6); err != nil {
				return err
			}
			if err := checkCoord(l.Longitude, lonMin, lonRef, 1e-6); err != nil {
				return err
			}
			if l.Altitude != alt || l.Name != m.Mdta.LocationName {
				return fmt.Errorf("location %+v", l)
			}
			// and back
			back := q.Mdta.LocationISO6709
			x := &qt.QtMetadata{LocationISO6709: back}
			if err := x.SyncToXMP(nil); err != nil {
				return err
			}
			if x.Location == nil || checkCoord(x.Location.Latitude, latMin, latRef, 1e-6) != nil || checkCoord(x.Location.Longitude, lonMin, lonRef, 1e-6) != nil || x.Location.Altitude != alt {
				return fmt.Errorf("native location reads as %s: %+v", back, x.Location)
			}
			tally("P22/coordinates", iso, true, "quicktime")
			return nil
		})
		if err != nil {
			rt.Fatalf("%v\n%s", err, strings.Join(log, "\n"))
		}
	})
}

func TestP22_Sets(t *testing.T) {
	rule("P22/sets", "sequences of operations on channel function sets that started as copies of the predefined ones: the copy has the expected members and the predefined sets never change; non-trivial: sequences that remove something")
	sets := map[string]*ixml.FunctionSet{"MS": &ixml.FunctionSetMS, "XY": &ixml.FunctionSetXY, "Stereo": &ixml.FunctionSetStereo, "DMS": &ixml.FunctionSetDMS, "LCR": &ixml.FunctionSetLCR, "LCRS": &ixml.FunctionSetLCRS, "51": &ixml.FunctionSet51, "71": &ixml.FunctionSet71}
	names := make([]string, 0, len(sets))
	saved := map[string]ixml.FunctionSet{}
	for k, v := range sets {
		names = append(names, k)
		saved[k] = append(ixml.FunctionSet(nil), *v...)
	}
	sort.Strings(names)
	check(t, 3000, func(rt *rapid.T) {
		name := rapid.SampledFrom(names).Draw(rt, "set")
		s := *sets[name]
		want := append(ixml.FunctionSet(nil), s...)
		var log []string
		removed := false
		for i := rapid.IntRange(1, 8).Draw(rt, "n"); i > 0; i-- {
			other := rapid.SampledFrom(names).Draw(rt, "other")
			f := saved[other][rapid.IntRange(0, len(saved[other])-1).Draw(rt, "f")]
			del := func(f ixml.FunctionType) {
				for i, v := range want {
					if v == f {
						want = append(want[:i], want[i+1:]...)
						removed = true
						break
					}
				}
			}
			switch op := rapid.SampledFrom([]string{"add", "del", "merge", "sub"}).Draw(rt, "op"); op {
			case "add":
				s.Add(f)
				if !want.Contains(f) {
					want = append(want, f)
				}
				log = append(log, "add "+string(f))
			case "del":
				s.Del(f)
				del(f)
				log = append(log, "del "+string(f))
			case "merge":
				s.Merge(saved[other])
				for _, f := range saved[other] {
					if !want.Contains(f) {
						want = append(want, f)
					}
				}
				log = append(log, "merge "+other)
			case "sub":
				s.Sub(*sets[other])
				for _, f := range saved[other] {
					del(f)
				}
				log = append(log, "sub "+other)
			}
			if fmt.Sprint(s) != fmt.Sprint(want) {
				rt.Fatalf("%s after %v: %v, want %v", name, log, s, want)
			}
			for k, v := range sets {
				if fmt.Sprint(*v) != fmt.Sprint(saved[k]) {
					now := fmt.Sprint(*v)
					*v = append(ixml.FunctionSet(nil), saved[k]...)
					rt.Fatalf("%s after %v: predefined set %s became %s", name, log, k, now)
				}
			}
		}
		tally("P22/sets", name+" "+strings.Join(log, ";"), removed)
	})
}
