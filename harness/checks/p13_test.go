package checks

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// chunkReader delivers data in the given chunk sizes, then in the last size.
type chunkReader struct {
	data  []byte
	sizes []int
	n     int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	k := r.sizes[r.n%len(r.sizes)]
	r.n++
	if k > len(r.data) {
		k = len(r.data)
	}
	if k > len(p) {
		k = len(p)
	}
	copy(p, r.data[:k])
	r.data = r.data[k:]
	return k, nil
}

const xmpMagic = "W5M0MpCehiHzreSzNTczkc9d"

type scanSeg struct {
	data   string
	packet bool
	title  string // packet is a document with this title
}

func genPacket(t *rapid.T, big *int) scanSeg {
	q := rapid.SampledFrom([]string{`"`, `'`}).Draw(t, "q")
	bom := rapid.SampledFrom([]string{"", "\ufeff"}).Draw(t, "bom")
	tail := rapid.SampledFrom([]string{"", ` encoding="UTF-8"`, ` bytes='2043'`}).Draw(t, "hdrattr")
	rw := rapid.SampledFrom([]string{"w", "r"}).Draw(t, "rw")
	q2 := rapid.SampledFrom([]string{q, `"`, `'`}).Draw(t, "q2")
	head := "<?xpacket begin=" + q + bom + q + " id=" + q + xmpMagic + q + tail + "?>"
	foot := "<?xpacket end=" + q2 + rw + q2 + "?>"
	s := scanSeg{packet: true}
	size := rapid.SampledFrom([]int{0, 0, 1, 10, 60, 200}).Draw(t, "pad")
	if *big > 0 && rapid.IntRange(0, 5).Draw(t, "large") == 0 {
		*big--
		size = rapid.SampledFrom([]int{4000, 4096, 8192, 65400, 65536, 70000, 131072, 300000}).Draw(t, "size") + rapid.IntRange(-120, 40).Draw(t, "delta")
	}
	padchar := rapid.SampledFrom([]string{" ", "\n", "ä", "x>", "\x00", "<!-- -->"}).Draw(t, "padchar")
	pad := strings.Repeat(padchar, size/len(padchar))
	if rapid.IntRange(0, 3).Draw(t, "doc") > 0 {
		s.title = rapid.StringMatching(`[a-z0-9]{1,12}`).Draw(t, "title")
		body := `<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="" xmlns:xmp="http://ns.adobe.com/xap/1.0/"><xmp:Label>` + s.title + `</xmp:Label></rdf:Description></rdf:RDF></x:xmpmeta>`
		pad = strings.NewReplacer("\x00", " ", "x>", "  ", "ä", " ").Replace(pad)
		s.data = head + body + pad + foot
	} else {
		body := rapid.SampledFrom([]string{"", "<x/>", "xpacket end", "<?xpack et begin", "?>", "<?xml version='1.0'?><a/>", xmpMagic, "<", "<?"}).Draw(t, "body")
		s.data = head + body + pad + foot
	}
	return s
}

// genJunk makes bytes that hold no packet, whatever follows; open tells whether
// an unterminated packet header precedes (then no end marker may follow).
func genJunk(t *rapid.T, open *bool, lastBegin *bool, big *int) string {
	kinds := []string{"", "random", "random", "random", "part", "begin", "nomagic", "trunc", "zeros", "lt"}
	if !*open {
		kinds = append(kinds, "end", "end")
	}
	if !*lastBegin {
		kinds = append(kinds, "magic")
	}
	k := rapid.SampledFrom(kinds).Draw(t, "junk")
	*lastBegin = false
	switch k {
	case "random":
		b := rapid.SliceOfN(rapid.Byte(), 0, 120).Draw(t, "bytes")
		if *big > 0 && rapid.IntRange(0, 5).Draw(t, "large") == 0 {
			*big--
			n := rapid.SampledFrom([]int{4096, 65536, 140000}).Draw(t, "size") + rapid.IntRange(-60, 60).Draw(t, "delta")
			b = append(b, bytes.Repeat([]byte{0xff, '<', 'x', '?'}, n/4)...)
		}
		return string(b)
	case "part":
		full := `<?xpacket begin="" id="W5M0MpCehiHzreSzNTczkc9`
		n := rapid.IntRange(1, 14).Draw(t, "partlen")
		return full[:n]
	case "begin":
		*lastBegin = true
		return rapid.SampledFrom([]string{"<?xpacket begin", `<?xpacket begin="`, `<?xpacket begin="" id="`, "<?xpacket begin='' id='' ?>"}).Draw(t, "begin")
	case "nomagic":
		*lastBegin = true
		return `<?xpacket begin="" id="W5M0MpCehiHzreSzNTczkc9X"?>` + rapid.SampledFrom([]string{"", "abc", strings.Repeat(" ", 60)}).Draw(t, "fill")
	case "trunc":
		*open = true
		return `<?xpacket begin="" id="` + xmpMagic + `"?>` + rapid.StringMatching(`[a-z<> ]{0,80}`).Draw(t, "trunc")
	case "zeros":
		return strings.Repeat("\x00", rapid.IntRange(1, 40).Draw(t, "zeros"))
	case "lt":
		return strings.Repeat("<", rapid.IntRange(1, 17).Draw(t, "lts"))
	case "end":
		return rapid.SampledFrom([]string{"<?xpacket end", `<?xpacket end="w"?>`, "<?xpacket end='r'", "xpacket end"}).Draw(t, "end")
	case "magic":
		return xmpMagic
	}
	return ""
}

func TestP13_Scan(t *testing.T) {
	rule("scan", "streams of 0..5 packets (10 bytes to 300 kB, both quote styles, with and without BOM, read-only and writable) between junk that includes stray, partial and magic-less markers and truncated packets, delivered in random chunk sizes including single bytes; non-trivial: at least one packet and either marker-like junk or a chunk boundary inside the stream")
	check(t, 12000, func(rt *rapid.T) {
		n := rapid.IntRange(0, 5).Draw(rt, "packets")
		big := 2
		var segs []scanSeg
		open, lastBegin := false, false
		for i := 0; i < n; i++ {
			for j := rapid.IntRange(0, 3).Draw(rt, "njunk"); j > 0; j-- {
				segs = append(segs, scanSeg{data: genJunk(rt, &open, &lastBegin, &big)})
			}
			segs = append(segs, genPacket(rt, &big))
			open, lastBegin = false, false
		}
		for j := rapid.IntRange(0, 3).Draw(rt, "njunk"); j > 0; j-- {
			segs = append(segs, scanSeg{data: genJunk(rt, &open, &lastBegin, &big)})
		}
		var stream []byte
		var want [][]byte
		first := scanSeg{}
		for _, s := range segs {
			stream = append(stream, s.data...)
			if s.packet {
				if len(want) == 0 {
					first = s
				}
				want = append(want, []byte(s.data))
			}
		}
		mode := rapid.SampledFrom([]string{"all", "one", "half", "dataerr", "chunks", "chunks", "chunks", "marker"}).Draw(rt, "chunking")
		if len(stream) > 20000 && mode == "one" {
			mode = "chunks"
		}
		mk := func() io.Reader { return bytes.NewReader(stream) }
		switch mode {
		case "one":
			mk = func() io.Reader { return iotest.OneByteReader(bytes.NewReader(stream)) }
		case "half":
			mk = func() io.Reader { return iotest.HalfReader(bytes.NewReader(stream)) }
		case "dataerr":
			mk = func() io.Reader { return iotest.DataErrReader(bytes.NewReader(stream)) }
		case "chunks":
			max := 40
			if len(stream) > 10000 {
				max = 6000
			}
			sizes := rapid.SliceOfN(rapid.IntRange(1+len(stream)/400, max+len(stream)/200), 1, 8).Draw(rt, "sizes")
			mk = func() io.Reader { return &chunkReader{data: stream, sizes: sizes} }
		case "marker":
			// boundaries that fall at a fixed offset within every marker
			off := rapid.IntRange(0, 60).Draw(rt, "offset")
			var sizes []int
			pos := 0
			for i := 0; i < len(stream); {
				k := bytes.Index(stream[i:], []byte("<?xpacket"))
				if k < 0 {
					break
				}
				if c := i + k + off; c > pos && c < len(stream) {
					sizes = append(sizes, c-pos)
					pos = c
				}
				i += k + 9
			}
			sizes = append(sizes, len(stream)+1)
			mk = func() io.Reader { return &chunkReader{data: stream, sizes: sizes} }
		}
		var key string
		if len(stream) < 400 {
			key = fmt.Sprintf("%s %q", mode, stream)
		} else {
			key = fmt.Sprintf("%s %d %x %q", mode, len(stream), h64(string(stream)), stream[:200])
		}
		tally("scan", key, len(want) > 0 && (mode != "all" || len(segs) > len(want)), fmt.Sprintf("packets%d", len(want)), mode)
		show := func() string {
			var s []string
			for _, v := range segs {
				d := v.data
				if len(d) > 150 {
					d = fmt.Sprintf("%s...(%d)", d[:100], len(d))
				}
				s = append(s, fmt.Sprintf("%v:%q", v.packet, d))
			}
			return mode + " " + strings.Join(s, "\n")
		}
		defer guard(show())()
		got, err := xmp.ScanPackets(mk())
		if len(want) == 0 {
			if err != io.EOF || len(got) != 0 {
				rt.Fatalf("%s\nno packet, but got %d, error %v", show(), len(got), err)
			}
			if _, err := xmp.Scan(mk()); err != io.EOF {
				rt.Fatalf("%s\nScan: %v", show(), err)
			}
			return
		}
		if err != nil {
			rt.Fatalf("%s\n%v", show(), err)
		}
		if len(got) != len(want) {
			rt.Fatalf("%s\ngot %d packets, want %d", show(), len(got), len(want))
		}
		for i := range got {
			if !bytes.Equal(got[i], want[i]) {
				rt.Fatalf("%s\npacket %d has %d bytes, want %d", show(), i, len(got[i]), len(want[i]))
			}
		}
		d, err := xmp.Scan(mk())
		if first.title != "" {
			if err != nil {
				rt.Fatalf("%s\nScan: %v", show(), err)
			}
			if v, err := d.GetPath("xmp:Label"); err != nil || v != first.title {
				rt.Fatalf("%s\nScan: label %q (%v), want %q", show(), v, err, first.title)
			}
			// the decoder reads the same document from the same reader kind
			stream = want[0]
			d2, err := xmp.Read(mk())
			if err != nil {
				rt.Fatalf("%s\nRead: %v", show(), err)
			}
			if v, _ := d2.GetPath("xmp:Label"); v != first.title {
				rt.Fatalf("Read: label %q, want %q", v, first.title)
			}
			d2.Close()
		}
		if err == nil {
			d.Close()
		}
	})
}
