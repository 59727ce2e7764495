package checks

import (
	"fmt"
	"time"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// A third application model: every type the library offers to applications.
// NullString is left out: it keeps the first text it is given.

var nsApp3 = registered(xmp.NewNamespace("vap3", "http://ns.example.com/verif/app/3.0/", func(string) xmp.Model { return &appModel3{} }))

type appParts struct {
	Links xmp.UriArray  `xmp:"vap3:links"`
	Id    xmp.GUID      `xmp:"vap3:id,attr"`
	Rate  *xmp.Rational `xmp:"vap3:rate,attr"`
	Title xmp.AltString `xmp:"vap3:title"`
	Home  xmp.Uri       `xmp:"vap3:home"`
}

type appModel3 struct {
	Guids   xmp.GUIDList       `xmp:"vap3:Guids" vap3:"-"`
	Guid    xmp.GUID           `xmp:"vap3:Guid" vap3:"guid"`
	AGuid   xmp.GUID           `xmp:"vap3:AGuid,attr" vap3:"aguid"`
	Urls    xmp.UrlArray       `xmp:"vap3:Urls" vap3:"-"`
	UrlList xmp.UrlList        `xmp:"vap3:UrlList" vap3:"-"`
	Url     xmp.Url            `xmp:"vap3:Url,attr" vap3:"url"`
	Uri     xmp.Uri            `xmp:"vap3:Uri" vap3:"uri"`
	Uris    xmp.UriArray       `xmp:"vap3:Uris" vap3:"-"`
	UriList xmp.UriList        `xmp:"vap3:UriList" vap3:"-"`
	Ints    xmp.IntArray       `xmp:"vap3:Ints" vap3:"-"`
	IntList xmp.IntList        `xmp:"vap3:IntList" vap3:"-"`
	Strs    xmp.StringArray    `xmp:"vap3:Strs" vap3:"-"`
	StrList xmp.StringList     `xmp:"vap3:StrList" vap3:"-"`
	Dates   xmp.DateList       `xmp:"vap3:Dates" vap3:"-"`
	Date    xmp.Date           `xmp:"vap3:Date,attr" vap3:"date"`
	PDate   *xmp.Date          `xmp:"vap3:PDate" vap3:"pdate"`
	Time    xmp.Time           `xmp:"vap3:Time,attr" vap3:"time"`
	Times   []xmp.Time         `xmp:"vap3:Times" vap3:"-"`
	Rat     xmp.Rational       `xmp:"vap3:Rat,attr" vap3:"rat"`
	PRat    *xmp.Rational      `xmp:"vap3:PRat" vap3:"prat"`
	Rats    xmp.RationalArray  `xmp:"vap3:Rats" vap3:"-"`
	Bool    xmp.Bool           `xmp:"vap3:Bool" vap3:"bool"`
	PBool   *xmp.Bool          `xmp:"vap3:PBool,attr" vap3:"pbool"`
	Agent   xmp.AgentName      `xmp:"vap3:Agent,attr" vap3:"agent"`
	GPS     xmp.GPSCoord       `xmp:"vap3:GPS,attr" vap3:"gps"`
	Alt     xmp.AltString      `xmp:"vap3:Alt" vap3:"-"`
	PAlt    *xmp.AltString     `xmp:"vap3:PAlt" vap3:"-"`
	Alts    xmp.AltStringArray `xmp:"vap3:Alts" vap3:"-"`
	NInt    xmp.NullInt        `xmp:"vap3:NInt,attr" vap3:"nint"`
	NBool   xmp.NullBool       `xmp:"vap3:NBool,attr" vap3:"nbool"`
	NFloat  xmp.NullFloat      `xmp:"vap3:NFloat" vap3:"nfloat"`
	NF64    xmp.NullFloat64    `xmp:"vap3:NF64,attr" vap3:"nf64"`
	Split   xmp.SplitInt       `xmp:"vap3:Split" vap3:"split"`
	Dur     xmp.Duration       `xmp:"vap3:Dur,attr" vap3:"dur"`
	Durs    []xmp.Duration     `xmp:"vap3:Durs" vap3:"-"`
	Part    *appParts          `xmp:"vap3:Part" vap3:"-"`
	Parts   []*appParts        `xmp:"vap3:Parts" vap3:"-"`
}

func (x *appModel3) Can(nsName string) bool            { return nsName == nsApp3.GetName() }
func (x *appModel3) Namespaces() xmp.NamespaceList     { return xmp.NamespaceList{nsApp3} }
func (x *appModel3) SyncModel(d *xmp.Document) error   { return nil }
func (x *appModel3) SyncFromXMP(d *xmp.Document) error { return nil }
func (x *appModel3) SyncToXMP(d *xmp.Document) error   { return nil }
func (x *appModel3) CanTag(tag string) bool            { _, err := xmp.GetNativeField(x, tag); return err == nil }
func (x *appModel3) GetTag(tag string) (string, error) { return xmp.GetNativeField(x, tag) }
func (x *appModel3) SetTag(tag, value string) error    { return xmp.SetNativeField(x, tag, value) }

func init() {
	regGen(xmp.Time{}, func(t *rapid.T, l string) interface{} {
		s := fmt.Sprintf("%02d:%02d:%02d", rapid.IntRange(0, 23).Draw(t, l+".h"), rapid.IntRange(0, 59).Draw(t, l+".m"), rapid.IntRange(0, 59).Draw(t, l+".s"))
		z := rapid.IntRange(-14*4, 14*4).Draw(t, l+".zone") * 15
		p, err := time.Parse("15:04:05", s)
		if err != nil {
			panic(err)
		}
		loc := time.UTC
		if z != 0 {
			loc = time.FixedZone("", z*60)
		}
		return xmp.Time(time.Date(p.Year(), 1, 1, p.Hour(), p.Minute(), p.Second(), 0, loc))
	})
}
