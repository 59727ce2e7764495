package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// P31: the command line tool, built from the current tree and run on files.

func buildTool(t *testing.T) string {
	bin := filepath.Join(t.TempDir(), "xmpinfo")
	args := []string{"build", "-o", bin}
	if m := os.Getenv("VERIF_MODFILE"); m != "" {
		args = append(args, "-modfile="+m)
	}
	cmd := exec.Command("go", append(args, "github.com/trimmer-io/go-xmp/cmd")...)
	cmd.Dir = filepath.Join(os.Getenv("VERIF_ROOT"), "harness")
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("building the tool: %v: %s", err, out)
	}
	return bin
}

func runTool(bin, dir string, args ...string) (string, int, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err := cmd.Run()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		return "", 0, err
	}
	code := cmd.ProcessState.ExitCode()
	if strings.Contains(stderr.String(), "goroutine ") {
		return "", 0, fmt.Errorf("%v panics: %.600s", args, stderr.String())
	}
	return stdout.String(), code, nil
}

// sortedLines tells outputs apart except for the order of lines and of words
// in a line: namespace declarations have no order.
func sortedLines(s string) string {
	l := strings.Split(s, "\n")
	for i := range l {
		w := strings.Split(l[i], " ")
		sort.Strings(w)
		l[i] = strings.Join(w, " ")
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// sameReading compares two documents as they are read.
func sameReading(want, got *xmp.Document) error {
	a, err := readDoc(want)
	if err != nil {
		return err
	}
	b, err := readDoc(got)
	if err != nil {
		return err
	}
	if s := a.diff(b); s != "" {
		return fmt.Errorf("%s", s)
	}
	return nil
}

func TestP31_Tool(t *testing.T) {
	rule("tool", "files of several kinds - documents, images with none, one or several packets between other bytes, malformed ones - given to the command line tool with every output option; non-trivial: the file has a document with content and a report was asked for")
	bin := buildTool(t)
	corpus(t)
	dir := t.TempDir()
	var own []string
	for _, p := range modelPrefixes() {
		if !strings.HasPrefix(p, "vap") {
			own = append(own, p)
		}
	}
	n := 0
	check(t, 300, func(rt *rapid.T) {
		var log []string
		if err := try(func() error {
			var packets [][]byte
			for i, k := 0, rapid.SampledFrom([]int{0, 1, 1, 1, 1, 2, 3}).Draw(rt, "packets"); i < k; i++ {
				l := fmt.Sprint("p", i)
				var b []byte
				switch rapid.IntRange(0, 5).Draw(rt, l+".kind") {
				case 5:
					// texts that models read in ways of their own, or reject
					m := newModel(rapid.SampledFrom(own).Draw(rt, l+".model"))
					ns, typ, body := m.Namespaces()[0], reflect.TypeOf(m).Elem(), ""
					for i, k := 0, rapid.IntRange(1, 2).Draw(rt, l+".n"); i < k; i++ {
						f, ok := xmpTag(typ.Field(rapid.IntRange(0, typ.NumField()-1).Draw(rt, l+".field")))
						if ok && strings.HasPrefix(f.name, ns.GetName()+":") && !strings.Contains(body, f.name+">") {
							body += fmt.Sprintf("<%s>%s</%s>", f.name, rapid.SampledFrom([]string{"007", "true", "text", "02/4", "http://a"}).Draw(rt, l+".text"), f.name)
						}
					}
					b = []byte(fmt.Sprintf(`<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="" xmlns:%s=%q>%s</rdf:Description></rdf:RDF></x:xmpmeta>`, ns.GetName(), ns.GetURI(), body))
				case 0:
					s, _ := writeRDF(rt, &rdfDoc{about: genAbout(rt), props: genRdfProps(rt, unknownNs[:2:2], 2, 1, 4, l)}, prefixTable(unknownNs), nil)
					b = []byte(s)
				case 1:
					b = rapid.SampledFrom(shortCorpus()).Draw(rt, l+".sample")
				default:
					var models []string
					for _, p := range separateModels(rt, 3) {
						if !strings.HasPrefix(p, "vap") { // the tool has no models of these checks
							models = append(models, p)
						}
					}
					d, err := genEmbedDoc(rt, models, l)
					if err != nil {
						return err
					}
					b, err = xmp.Marshal(d)
					d.Close()
					if err != nil {
						return err
					}
				}
				// one packet each, whatever wrapper it came with
				if i := bytes.Index(b, []byte("<x:xmpmeta")); i >= 0 {
					if j := bytes.LastIndex(b, []byte("</x:xmpmeta>")); j > i {
						b = b[i : j+len("</x:xmpmeta>")]
					}
				}
				if bytes.Contains(b, []byte("<?")) {
					excluded("packets with other processing instructions")
					b = []byte(`<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"/></x:xmpmeta>`)
				}
				if rapid.IntRange(0, 9).Draw(rt, l+".broken") == 0 {
					b = b[:len(b)-rapid.IntRange(1, 20).Draw(rt, l+".cut")]
				}
				packets = append(packets, []byte(`<?xpacket begin="" id="`+xmpMagic+`"?>`+string(b)+`<?xpacket end="w"?>`))
			}
			n++
			ext := rapid.SampledFrom([]string{".xmp", ".jpg", ".tif", "", ".xmp.jpg"}).Draw(rt, "ext")
			file := fmt.Sprintf("f%d%s", n, ext)
			sidecar := ext == ".xmp"
			var data []byte
			if sidecar {
				if len(packets) == 0 {
					packets = append(packets, nil)
				}
				packets = packets[:1]
				data = packets[0]
			} else {
				for _, p := range packets {
					data = append(append(data, rapid.SampledFrom([]string{"", "\xff\xd8\xff\xe1", "junk <?xpacket", "\x00\x01\n"}).Draw(rt, "junk")...), p...)
				}
				data = append(data, rapid.SampledFrom([]string{"", "tail", "\xff\xd9"}).Draw(rt, "tail")...)
			}
			missing := rapid.IntRange(0, 19).Draw(rt, "missing") == 0
			path := filepath.Join(dir, file)
			if !missing {
				if err := os.WriteFile(path, data, 0o644); err != nil {
					return err
				}
				defer os.Remove(path)
			}
			run := func(want int, args ...string) (string, error) {
				log = append(log, strings.Join(args, " "))
				out, code, err := runTool(bin, dir, append(args, file)...)
				if err != nil {
					return "", err
				}
				if code != want {
					return "", fmt.Errorf("exit code %d, want %d: %.300s", code, want, out)
				}
				if want != 0 && (!strings.Contains(out, "Error: ") || !strings.Contains(out, "in file "+file)) {
					return "", fmt.Errorf("failure reported as %.300q", out)
				}
				return out, nil
			}
			if missing {
				_, err := run(1, rapid.SampledFrom([]string{"-orig", "-xmp", "-json", "-path", "-quiet"}).Draw(rt, "opt"))
				tally("tool", file, false, "no such file")
				return err
			}
			if len(packets) == 0 {
				out, err := run(0, rapid.SampledFrom([]string{"-orig", "-all", "-xmp", "-json", "-path", "-quiet"}).Draw(rt, "opt"))
				if err == nil && out != "" {
					err = fmt.Errorf("a file without packet reports %.300q", out)
				}
				tally("tool", string(data), false, "no packet")
				return err
			}
			first := packets[0]
			d := xmp.NewDocument()
			defer d.Close()
			if xmp.Unmarshal(first, d) != nil {
				tally("tool", string(data), false, "malformed")
				for _, o := range []string{"-xmp", "-json", "-path", "-quiet"} {
					if _, err := run(1, o); err != nil {
						return err
					}
				}
				return nil
			}
			// the original, of one packet and of all
			for _, o := range [][]string{nil, {"-orig"}} {
				if out, err := run(0, o...); err != nil || out != string(first)+"\n" {
					return fmt.Errorf("original is reported as %.300q (%v)", out, err)
				}
			}
			if !sidecar {
				want := ""
				for _, p := range packets {
					want += string(p) + "\n"
				}
				if out, err := run(0, "-all"); err != nil || out != want {
					return fmt.Errorf("all packets are reported as %.300q (%v)", out, err)
				}
			}
			l, err := d.ListPaths()
			if err != nil {
				return err
			}
			tally("tool", string(data), len(l) > 0, ext)

			var paths string
			for _, v := range l {
				paths += fmt.Sprintf("%s = %s\n", v.Path, v.Value)
			}
			pout, err := run(0, "-path")
			if err != nil {
				return err
			}
			if sortedLines(pout) != sortedLines(paths) {
				return fmt.Errorf("paths are reported as %.600q, want %.600q", pout, paths)
			}
			// the indented forms carry the same document
			xout, err := run(0, "-xmp")
			if err != nil {
				return err
			}
			b, err := xmp.MarshalIndent(d, "", "  ")
			if err != nil {
				return err
			}
			want, got := xmp.NewDocument(), xmp.NewDocument()
			defer want.Close()
			defer got.Close()
			if err := xmp.Unmarshal(b, want); err != nil {
				return err
			}
			if err := xmp.Unmarshal([]byte(xout), got); err != nil {
				return fmt.Errorf("reading the reported document: %v", err)
			}
			if err := sameReading(want, got); err != nil {
				return fmt.Errorf("the reported document differs: %v", err)
			}
			jout, err := run(0, "-json")
			if err != nil {
				return err
			}
			jb, err := json.Marshal(d)
			if err != nil {
				return err
			}
			var ja, jg interface{}
			if err := json.Unmarshal(jb, &ja); err != nil {
				return err
			}
			if err := json.Unmarshal([]byte(jout), &jg); err != nil {
				return fmt.Errorf("the reported JSON: %v", err)
			}
			if a, b := fmt.Sprint(ja), fmt.Sprint(jg); a != b {
				return fmt.Errorf("the reported JSON is %.600s, want %.600s", b, a)
			}
			// several reports at once come one after another
			opts, outs := []string{}, ""
			for _, o := range []struct{ opt, out string }{{"-orig", string(first) + "\n"}, {"-json", jout}, {"-xmp", xout}, {"-path", pout}} {
				if rapid.Bool().Draw(rt, o.opt) {
					opts, outs = append(opts, o.opt), outs+o.out
				}
			}
			if len(opts) > 0 {
				out, err := run(0, opts...)
				if err != nil {
					return err
				}
				if sortedLines(out) != sortedLines(outs) {
					return fmt.Errorf("together the reports are %.600q, want %.600q", out, outs)
				}
			}
			out, err := run(0, append([]string{"-quiet"}, opts...)...)
			if err != nil {
				return err
			}
			if out != "" {
				return fmt.Errorf("asked to be quiet the tool reports %.300q", out)
			}
			if after, err := os.ReadFile(path); err != nil || !bytes.Equal(after, data) {
				return fmt.Errorf("the file has changed (%v)", err)
			}
			return nil
		}); err != nil {
			rt.Fatalf("%s: %v", strings.Join(log, "; "), err)
		}
	})
}
