package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// recWriter counts what it is given, and may fail.
type recWriter struct {
	buf    bytes.Buffer
	failAt int // fails once more bytes were written, when >= 0
}

func (w *recWriter) Bytes() []byte  { return w.buf.Bytes() }
func (w *recWriter) String() string { return w.buf.String() }

var errDisk = errors.New("disk full")

func (w *recWriter) Write(b []byte) (int, error) {
	if w.failAt >= 0 && w.buf.Len()+len(b) > w.failAt {
		n := w.failAt - w.buf.Len()
		if n < 0 {
			n = 0
		}
		w.buf.Write(b[:n])
		return n, errDisk
	}
	return w.buf.Write(b)
}

const packetFooter = `<?xpacket end="w"?>`

type sizeCase struct {
	limit          int64
	flags          int
	prefix, indent string
}

func (c sizeCase) encode(d *xmp.Document, limit int64) (*recWriter, error) {
	w := &recWriter{failAt: -1}
	e := xmp.NewEncoder(w)
	e.SetFlags(c.flags)
	if c.prefix+c.indent != "" {
		e.Indent(c.prefix, c.indent)
	}
	if limit != 0 {
		e.SetMaxSize(limit)
	}
	return w, e.Encode(d)
}

// checkSize writes a document with a limit and compares the result with the
// unlimited output.
func checkSize(d *xmp.Document, c sizeCase, plain []byte) error {
	w, err := c.encode(d, c.limit)
	got := w.Bytes()
	packet, padding := c.flags&xmp.Xpacket > 0, c.flags&xmp.Xpadding > 0
	if n := bytes.Count(got, []byte("<?xpacket")); !packet && n > 0 {
		return fmt.Errorf("packet wrapper written although it is switched off:\n%s", got)
	}
	if c.limit > 0 && int64(len(got)) > c.limit {
		return fmt.Errorf("wrote %d bytes with a limit of %d", len(got), c.limit)
	}
	if c.limit > 0 && int64(len(plain)) > c.limit {
		if !errors.Is(err, xmp.ErrOverflow) {
			return fmt.Errorf("%d bytes with a limit of %d: error is %v, want overflow", len(plain), c.limit, err)
		}
		if !bytes.HasPrefix(plain, got) {
			return fmt.Errorf("the part written before the overflow is not the start of the document:\n%q\n%q", got, plain)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%d bytes with a limit of %d: %v", len(plain), c.limit, err)
	}
	if !packet || !padding || c.limit <= 0 {
		if !bytes.Equal(got, plain) {
			return fmt.Errorf("output with limit %d differs from the one without:\n%q\n%q", c.limit, got, plain)
		}
		return nil
	}
	if int64(len(got)) != c.limit {
		return fmt.Errorf("padded packet has %d bytes, the limit is %d (unpadded %d)", len(got), c.limit, len(plain))
	}
	if !bytes.HasSuffix(got, []byte(packetFooter)) {
		return fmt.Errorf("padded packet does not end with the footer: %q", got[len(got)-min(len(got), 40):])
	}
	body := bytes.TrimRight(bytes.TrimSuffix(plain, []byte(packetFooter)), " \n\t\r")
	if !bytes.HasPrefix(got, body) {
		return fmt.Errorf("padded packet does not start with the unpadded one:\n%q\n%q", got, plain)
	}
	if pad := bytes.TrimSuffix(got[len(body):], []byte(packetFooter)); len(bytes.Trim(pad, " \n\t\r")) > 0 {
		return fmt.Errorf("padding is not white space: %q", pad)
	}
	return nil
}

func genSizeDoc(rt *rapid.T) (*xmp.Document, error) {
	e, err := newEditDoc(rt)
	if err != nil {
		return nil, err
	}
	e.fill(rt, 4)
	if rapid.IntRange(0, 5).Draw(rt, "empty") == 0 {
		e.d.Close()
		e.d = xmp.NewDocument()
	}
	if n := rapid.SampledFrom([]int{0, 0, 0, 100, 4000, 5000, 70000, 300000}).Draw(rt, "long"); n > 0 {
		unit := rapid.SampledFrom([]string{"x", "é", "<&", "long "}).Draw(rt, "unit")
		if err := e.d.SetPath(xmp.PathValue{Path: "edita:long", Namespace: editURI("edita:"), Value: strings.Repeat(unit, n/len(unit)) + ".", Flags: xmp.CREATE | xmp.REPLACE}); err != nil {
			return nil, err
		}
	}
	return e.d, nil
}

func TestP14_Limits(t *testing.T) {
	rule("limits", "random documents (empty to hundreds of kB) are written with every combination of packet and padding flags, with and without indentation, and with limits around the exact size, around multiples of the padding line and buffer sizes, tiny and huge ones: output never exceeds the limit, equals the unlimited output apart from padding, or fails with the overflow error; padded packets have exactly the limit's size, read back with the same content and are found by the scanner; non-trivial: distinct (size, limit, flags, indentation)")
	check(t, 1200, func(rt *rapid.T) {
		var log string
		err := try(func() error {
			d, err := genSizeDoc(rt)
			if err != nil {
				return err
			}
			defer d.Close()
			c := sizeCase{flags: rapid.IntRange(0, 3).Draw(rt, "flags")}
			if rapid.Bool().Draw(rt, "indented") {
				c.prefix = rapid.SampledFrom([]string{"", " ", "\t"}).Draw(rt, "prefix")
				c.indent = rapid.SampledFrom([]string{"", " ", "\t", "    "}).Draw(rt, "indent")
			}
			w, err := c.encode(d, 0)
			if err != nil {
				return fmt.Errorf("writing: %v", err)
			}
			plain := w.Bytes()
			if c.flags&xmp.Xpacket > 0 != bytes.HasSuffix(plain, []byte(packetFooter)) || c.flags&xmp.Xpacket > 0 != bytes.HasPrefix(plain, []byte("<?xpacket begin=")) {
				return fmt.Errorf("packet wrapper with flags %d:\n%s", c.flags, plain)
			}
			n := int64(len(plain))
			for i, k := 0, rapid.IntRange(1, 12).Draw(rt, "limits"); i < k; i++ {
				switch rapid.IntRange(0, 5).Draw(rt, "limit kind") {
				case 0, 1:
					c.limit = n + int64(rapid.IntRange(-30, 30).Draw(rt, "near"))
				case 2:
					c.limit = n + int64(rapid.IntRange(0, 1000).Draw(rt, "above"))
				case 3:
					c.limit = n + 80*int64(rapid.IntRange(0, 60).Draw(rt, "lines")) + int64(rapid.IntRange(-2, 2).Draw(rt, "off"))
				case 4:
					c.limit = 1 + int64(float64(n-1)*rapid.Float64Range(0, 1).Draw(rt, "below"))
				case 5:
					c.limit = rapid.SampledFrom([]int64{1, 2, 19, 20, 21, 54, 55, 56, 1024, 2048, 4095, 4096, 4097, 65502, 65536, 1 << 18, -1, 0}).Draw(rt, "fixed")
				}
				if c.limit <= -2 {
					c.limit = 1
				}
				log = fmt.Sprintf("size %d limit %d flags %d indent %q %q", n, c.limit, c.flags, c.prefix, c.indent)
				tally("limits", log, true, fmt.Sprint("flags ", c.flags), map[bool]string{true: "fits", false: "overflow"}[c.limit >= n])
				if err := checkSize(d, c, plain); err != nil {
					return err
				}
			}
			// one padded packet is read back
			if c.flags == xmp.Xpacket|xmp.Xpadding && n < 20000 && c.limit >= n && c.limit < n+10000 {
				w, err := c.encode(d, c.limit)
				if err != nil {
					return err
				}
				a, err := readText(string(plain))
				if err != nil {
					return nil // an empty document cannot be read
				}
				b, err := readText(w.String())
				if err != nil {
					return fmt.Errorf("reading the padded packet: %v\n%s", err, w)
				}
				if s := a.diff(b); s != "" {
					return fmt.Errorf("the padded packet reads differently: %s", s)
				}
				if l, err := xmp.ScanPackets(bytes.NewReader(append([]byte("\x00\x01"), w.Bytes()...))); err != nil || len(l) != 1 {
					return fmt.Errorf("scanning the padded packet finds %d packets, %v", len(l), err)
				}
			}
			return nil
		})
		if err != nil {
			rt.Fatalf("%s: %v", log, err)
		}
	})
}

func TestP14_Sweep(t *testing.T) {
	rule("sweep", "for several documents, every limit from 1 to 200 bytes beyond the size with every flag combination; exhaustive; all non-trivial")
	mk := func(paths ...string) *xmp.Document {
		d := xmp.NewDocument()
		for i := 0; i < len(paths); i += 2 {
			if err := d.SetPath(xmp.PathValue{Path: xmp.Path(paths[i]), Value: paths[i+1], Flags: xmp.CREATE | xmp.REPLACE, Namespace: editURI(paths[i])}); err != nil {
				t.Fatal(err)
			}
		}
		return d
	}
	for i, d := range []*xmp.Document{mk(), mk("dc:format", "image/png"), mk("dc:creator", "é", "edita:text", "<&>\n"), mk("edita:text", strings.Repeat("abc ", 1100))} {
		defer d.Close()
		for flags := 0; flags < 4; flags++ {
			for _, indent := range []string{"", "  "} {
				c := sizeCase{flags: flags, indent: indent}
				w, err := c.encode(d, 0)
				if err != nil {
					violate(t, "writing document %d: %v", i, err)
					return
				}
				plain := w.Bytes()
				for c.limit = 1; c.limit < int64(len(plain))+200; c.limit++ {
					if c.limit > 300 && c.limit < int64(len(plain))-300 && c.limit%13 > 0 {
						continue
					}
					tally("sweep", fmt.Sprint(i, c), true)
					if err := checkSize(d, c, plain); err != nil {
						violate(t, "document %d: size %d limit %d flags %d: %v", i, len(plain), c.limit, flags, err)
						return
					}
				}
			}
		}
	}
}

func TestP14_Writers(t *testing.T) {
	rule("writers", "random documents are written to streams that fail after a random number of bytes: the encoder must report an error, nothing may be written behind the failure, and a later write to a good stream gives the usual output; non-trivial: distinct (size, position, limit)")
	check(t, 400, func(rt *rapid.T) {
		err := try(func() error {
			d, err := genSizeDoc(rt)
			if err != nil {
				return err
			}
			defer d.Close()
			c := sizeCase{flags: rapid.IntRange(0, 3).Draw(rt, "flags")}
			w, err := c.encode(d, 0)
			if err != nil {
				return err
			}
			plain := w.Bytes()
			limit := int64(0)
			if rapid.Bool().Draw(rt, "limited") {
				limit = int64(len(plain) + rapid.IntRange(0, 300).Draw(rt, "room"))
			}
			if w, err = c.encode(d, limit); err != nil {
				return err
			}
			plain = w.Bytes()
			at := rapid.IntRange(0, len(plain)-1).Draw(rt, "at")
			f := &recWriter{failAt: at}
			e := xmp.NewEncoder(f)
			e.SetFlags(c.flags)
			e.SetMaxSize(limit)
			tally("writers", fmt.Sprint(len(plain), at, limit), true)
			if err := e.Encode(d); err == nil {
				return fmt.Errorf("no error although only %d of %d bytes were taken (flags %d, limit %d)", at, len(plain), c.flags, limit)
			}
			if f.buf.Len() > at || !bytes.HasPrefix(plain, f.Bytes()) {
				return fmt.Errorf("after a failure at byte %d: wrote %q", at, f.Bytes())
			}
			w, err = c.encode(d, limit)
			if err != nil || !bytes.Equal(w.Bytes(), plain) {
				return fmt.Errorf("output after a failed write differs: %v\n%s\n%s", err, w, plain)
			}
			return nil
		})
		if err != nil {
			rt.Fatalf("%v", err)
		}
	})
}
