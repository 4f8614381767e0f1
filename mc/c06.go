//go:build go1.22

package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	. "github.com/l1va/goosli/primitives"
)

// ---- independent STL codec ----

func encodeSTL(ts []tri, header string) []byte {
	b := make([]byte, 84, 84+50*len(ts))
	copy(b[:80], header)
	binary.LittleEndian.PutUint32(b[80:], uint32(len(ts)))
	f := func(v float64) { b = binary.LittleEndian.AppendUint32(b, math.Float32bits(float32(v))) }
	for _, t := range ts {
		n := t.normal()
		f(n.X)
		f(n.Y)
		f(n.Z)
		for _, p := range t {
			f(p.X)
			f(p.Y)
			f(p.Z)
		}
		b = append(b, 0, 0)
	}
	return b
}

func round32(ts []tri) []tri {
	r := func(v float64) float64 { return float64(float32(v)) }
	return mapTris(ts, func(p Point) Point { return Point{r(p.X), r(p.Y), r(p.Z)} })
}

type asciiStyle struct {
	indent, eol, sep, format, header, footer string
	blank                                    bool
}

func encodeASCII(ts []tri, st asciiStyle) []byte {
	var sb strings.Builder
	num := func(v float64) string {
		v = float64(float32(v))
		switch st.format {
		case "e":
			return strconv.FormatFloat(v, 'e', 8, 32)
		case "+e":
			return fmt.Sprintf("%+.9E", v)
		case "f":
			return strconv.FormatFloat(v, 'f', -1, 32)
		}
		return strconv.FormatFloat(v, 'g', -1, 32)
	}
	w := func(depth int, s string) {
		sb.WriteString(strings.Repeat(st.indent, depth) + s + st.eol)
		if st.blank {
			sb.WriteString(st.eol)
		}
	}
	w(0, st.header)
	for _, t := range ts {
		n := t.normal()
		w(1, "facet normal "+num(n.X)+" "+num(n.Y)+" "+num(n.Z))
		w(2, "outer loop")
		for _, p := range t {
			w(3, "vertex"+st.sep+num(p.X)+st.sep+num(p.Y)+st.sep+num(p.Z))
		}
		w(2, "endloop")
		w(1, "endfacet")
	}
	s := sb.String() + st.footer
	return []byte(s)
}

func sameTris(got *Mesh, want []tri) string {
	if got == nil {
		return "no mesh"
	}
	if len(got.Triangles) != len(want) {
		return fmt.Sprintf("%d triangles instead of %d", len(got.Triangles), len(want))
	}
	for i, t := range got.Triangles {
		w := want[i]
		if t.P1 != w[0] || t.P2 != w[1] || t.P3 != w[2] {
			return fmt.Sprintf("triangle %d is %v %v %v instead of %v", i, t.P1, t.P2, t.P3, w)
		}
		n := w.normal()
		if d := dist(t.N.ToPoint(), n.ToPoint()); d > 1e-9*(1+vlen(n)) && vlen(t.N) > 0 && vlen(vsub(vunit(t.N).ToPoint(), vunit(n).ToPoint())) > 1e-6 {
			return fmt.Sprintf("triangle %d has normal %v instead of %v", i, t.N, n)
		}
	}
	return ""
}

func stlCase(x *X) ([]tri, string) {
	k := x.Choose(len(shapeCache) + len(stlCounts))
	if k < len(shapeCache) {
		s := shapeCache[k]
		f := xforms[x.Choose(len(xforms))]
		return mapTris(s.ts, f.f), s.name + " placed " + f.name
	}
	n := stlCounts[k-len(shapeCache)]
	var ts []tri
	for i := 0; i < n; i++ {
		a := float64(i)
		ts = append(ts, tri{{a, -a * 0.1, 1e-3 * a}, {a + 1, 2.5 + a, -7}, {math.Sqrt(a), 1 / (a + 3), a*a*1e3 + 5}})
	}
	return ts, fmt.Sprintf("%d loose triangles", n)
}

var stlCounts = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 33, 63, 64, 65, 80, 81, 82, 83, 127, 128, 129, 250, 255, 256, 257, 511, 513, 1000, 4097, 20000}

func c06Binary(x *X) {
	ts, name := stlCase(x)
	hd := x.Choose(4)
	x.Begin(name + fmt.Sprintf(", header %d", hd))
	x.State(newHash().S(name).I(hd).Sum())
	header := []string{"", "solid made by a scanner", strings.Repeat("\xff", 80), "facet normal 0 0 0\nvertex 1 2 3\nendsolid"}[hd]
	want := round32(ts)
	fn := filepath.Join(x.Scratch, "a.stl")
	must(os.WriteFile(fn, encodeSTL(ts, header), 0644))
	m, err := LoadSTL(fn)
	x.Op(1)
	if err != nil {
		x.Fail("load", "complete binary file is not loaded: %v", err)
	}
	if d := sameTris(m, want); d != "" {
		x.Fail("load", "binary file with header %q: %s", header, d)
	}
	// save what was loaded over a longer file
	fn2 := filepath.Join(x.Scratch, "b.stl")
	must(os.WriteFile(fn2, make([]byte, 84+50*len(ts)+777), 0644))
	if err := SaveSTL(fn2, meshOf(ts)); err != nil {
		x.Fail("save", "mesh is not saved: %v", err)
	}
	x.Op(1)
	b, err := os.ReadFile(fn2)
	must(err)
	ref := encodeSTL(ts, "")
	x.Outcome(hashStr(string(b)))
	if len(b) != len(ref) {
		x.Fail("save", "file of %d bytes for %d triangles, must be %d", len(b), len(ts), len(ref))
	}
	if binary.LittleEndian.Uint32(b[80:]) != uint32(len(ts)) {
		x.Fail("save", "triangle count %d in the header", binary.LittleEndian.Uint32(b[80:]))
	}
	for i := range ts {
		o := 84 + 50*i
		if string(b[o+12:o+50]) != string(ref[o+12:o+50]) {
			x.Fail("save", "triangle %d is saved as % x, must be % x", i, b[o+12:o+50], ref[o+12:o+50])
		}
	}
	m2, err := LoadSTL(fn2)
	x.Op(1)
	if err != nil {
		x.Fail("roundtrip", "saved file is not loaded: %v", err)
	}
	if d := sameTris(m2, want); d != "" {
		x.Fail("roundtrip", "saved and loaded mesh: %s", d)
	}
	// saving the loaded mesh again gives the same file
	if err := SaveSTL(fn, m2); err != nil {
		x.Fail("roundtrip", "mesh is not saved again: %v", err)
	}
	b2, _ := os.ReadFile(fn)
	for i := range ts {
		o := 84 + 50*i
		if len(b2) != len(b) || string(b[o+12:o+50]) != string(b2[o+12:o+50]) {
			x.Fail("roundtrip", "the second save differs from the first one in triangle %d", i)
		}
	}
}

// many triangles (more than 16 bits can count), and the parts of the format that have no meaning
// for a mesh: attribute bytes, stored normals, several solids in one text
func c06Extra(x *X) {
	n := Pick(x, 1, 2, 12, 100, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131073, 1000003)
	kind := Pick(x, "binary", "attributes", "no normals", "ascii", "two solids", "comments", "numbers", "numbers +e", "numbers e")
	if n > 70000 && kind != "binary" {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("%d triangles, %s", n, kind))
	x.State(newHash().I(n).S(kind).Sum())
	var ts []tri
	for i := 0; i < n; i++ {
		a := float64(i % 4099)
		b := float64(i / 4099)
		ts = append(ts, tri{{a, -a * 0.125, b}, {a + 1, 2.5 + a, -7}, {a * 0.5, 3 - b, a + 5}})
	}
	if strings.HasPrefix(kind, "numbers") { // extreme but single precision numbers
		for e := -44; e <= 38 && n >= 12; e++ { // of every order
			i := e + 44
			ts[(i/3)%n][i%3].Y = float64(i%7+1) * 0.43 * math.Pow(10, float64(e))
		}
		for i, v := range []float64{1e-30, 3.4e38, -1e-7, 16777217, 0.1, -123456.789} {
			ts[i%n][i%3].X, ts[(i/2)%n][(i+1)%3].Z = v, -v
		}
	}
	fn := filepath.Join(x.Scratch, "x.stl")
	st := asciiStyle{"  ", "\n", " ", "g", "solid a", "endsolid a\n", false}
	var b []byte
	switch kind {
	case "binary":
		b = encodeSTL(ts, "")
	case "attributes", "no normals":
		b = encodeSTL(ts, "solid of colours")
		for i := range ts {
			o := 84 + 50*i
			if kind == "attributes" {
				b[o+48], b[o+49] = 0xff, byte(i)
			} else {
				for j := 0; j < 12; j++ {
					b[o+j] = 0
				}
			}
		}
	case "numbers +e", "numbers e":
		st.format = strings.TrimPrefix(kind, "numbers ")
		b = encodeASCII(ts, st)
	case "ascii", "numbers":
		b = encodeASCII(ts, st)
	case "two solids":
		h := (n + 1) / 2
		b = append(encodeASCII(ts[:h], st), encodeASCII(ts[h:], st)...)
	case "comments":
		b = []byte(strings.ReplaceAll(string(encodeASCII(ts, st)), "outer loop", "outer loop\n; a comment 1 2 3\n# another"))
	}
	if len(b) < 84 {
		x.Prune()
	}
	must(os.WriteFile(fn, b, 0644))
	m, err := LoadSTL(fn)
	x.Op(1)
	if err != nil {
		x.Fail("load", "complete file is not loaded: %v", err)
	}
	if d := sameTris(m, round32(ts)); d != "" {
		x.Fail("load", "%s", d)
	}
	for i := range m.Triangles {
		if !(vlen(m.Triangles[i].N) > 0.99) && !strings.HasPrefix(kind, "numbers") {
			x.Fail("normal", "triangle %d is loaded with normal %v", i, m.Triangles[i].N)
		}
	}
	if err := SaveSTL(fn, m); err != nil {
		x.Fail("save", "%v", err)
	}
	m, err = LoadSTL(fn)
	x.Op(2)
	if err != nil {
		x.Fail("roundtrip", "saved file is not loaded: %v", err)
	}
	if d := sameTris(m, round32(ts)); d != "" {
		x.Fail("roundtrip", "%s", d)
	}
	x.Outcome(newHash().I(n).S(kind).Sum())
}

func c06ASCII(x *X) {
	ts, name := stlCase(x)
	if len(ts) > 600 && !x.Thorough {
		x.Prune()
	}
	st := asciiStyle{
		indent: Pick(x, "  ", "\t", ""),
		eol:    Pick(x, "\n", "\r\n"),
		sep:    Pick(x, " ", "   "),
		format: Pick(x, "g", "e", "+e", "f"),
		header: Pick(x, "solid", "solid part facet 12"),
		footer: Pick(x, "endsolid\n", "endsolid part"),
	}
	st.blank = x.Bool()
	x.Begin(fmt.Sprintf("%s, style %+q", name, fmt.Sprint(st)))
	x.State(newHash().S(name).S(fmt.Sprint(st)).Sum())
	b := encodeASCII(ts, st)
	if len(b) < 84 {
		x.Prune() // shorter than a binary header
	}
	x.Outcome(hashStr(string(b)))
	fn := filepath.Join(x.Scratch, "t.stl")
	must(os.WriteFile(fn, b, 0644))
	m, err := LoadSTL(fn)
	x.Op(1)
	if err != nil {
		x.Fail("ascii", "well-formed text file is not loaded: %v", err)
	}
	if d := sameTris(m, round32(ts)); d != "" {
		x.Fail("ascii", "text and binary files of one mesh differ: %s", d)
	}
}

// ---- C07: faults ----

func init() { signal.Ignore(syscall.SIGXFSZ) }

func withFileLimit(n uint64, f func()) {
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}))
	defer func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	f()
}

func faultMeshes() [][]tri {
	big := sphere(24, 12, 9)
	return [][]tri{tetra(Point{0, 0, 0}, Point{10, 1, 0}, Point{2, 9, 1}, Point{3, 3, 8}), big[:81], big[:170], {}}
}

// the disk becomes full after every possible number of bytes
func c07Save(x *X) {
	k := x.Choose(4)
	ts := faultMeshes()[k]
	full := 84 + 50*len(ts)
	lim := x.Choose(full + 2)
	x.Begin(fmt.Sprintf("saving %d triangles (%d bytes), the file can not grow over %d bytes", len(ts), full, lim))
	fn := filepath.Join(x.Scratch, "s.stl")
	must(os.RemoveAll(fn))
	m := meshOf(ts)
	var err error
	withFileLimit(uint64(lim), func() { err = SaveSTL(fn, m) })
	x.Op(1)
	x.State(newHash().I(k).I(lim).Sum())
	b, _ := os.ReadFile(fn)
	x.Outcome(newHash().I(len(b)).S(fmt.Sprint(err)).Sum())
	if err == nil {
		m2, lerr := LoadSTL(fn)
		if lerr != nil || len(b) != full {
			x.Fail("lost", "saving reports success, but the file has %d of %d bytes", len(b), full)
		}
		if d := sameTris(m2, round32(ts)); d != "" {
			x.Fail("lost", "saving reports success, but the file has another mesh: %s", d)
		}
	} else if lim >= full {
		x.Fail("spurious", "saving fails without a fault: %v", err)
	}
}

// the file was cut after every possible number of bytes
func c07Truncated(x *X) {
	k := x.Choose(4)
	ts := faultMeshes()[k]
	kind := x.Choose(5)
	var b []byte
	if kind == 0 {
		b = encodeSTL(ts, "")
	} else {
		st := []asciiStyle{{"  ", "\n", " ", "g", "solid part", "endsolid part\n", false}, {"", "\r\n", " ", "+e", "solid", "endsolid\r\n", false}, {" ", "\n", "  ", "f", "solid x", "endsolid x", true}, {"\t", "\n", " ", "e", "solid", "endsolid\n", false}}[kind-1]
		if k > 1 || (k == 1 && kind > 2 && !x.Thorough) {
			x.Prune()
		}
		b = encodeASCII(ts, st)
	}
	l := x.Choose(len(b) + 1)
	x.Begin(fmt.Sprintf("file kind %d with %d triangles cut to %d of %d bytes", kind, len(ts), l, len(b)))
	fn := filepath.Join(x.Scratch, "c.stl")
	must(os.WriteFile(fn, b[:l], 0644))
	m, err := LoadSTL(fn)
	x.Op(1)
	x.State(newHash().I(k).I(kind).I(l).Sum())
	x.Outcome(newHash().S(fmt.Sprint(err)).Sum())
	if err == nil {
		if d := sameTris(m, round32(ts)); d != "" {
			x.Fail("truncated", "a file cut to %d of %d bytes loads without an error as another mesh: %s", l, len(b), d)
		}
	} else if l == len(b) {
		x.Fail("spurious", "complete file is not loaded: %v", err)
	}
}

// one byte of the file is damaged
func c07Damaged(x *X) {
	kind := x.Choose(2)
	ts := faultMeshes()[0]
	b := encodeSTL(ts, "")
	pos := 0
	if kind == 1 {
		b = encodeASCII(ts, asciiStyle{"  ", "\n", " ", "e", "solid part", "endsolid part\n", false})
		pos = x.Choose(len(b))
	} else {
		pos = 80 + x.Choose(4) // the triangle count
	}
	with := Pick(x, byte('#'), byte('x'), byte(' '), byte('\n'), byte(0xff), byte(0))
	x.Begin(fmt.Sprintf("file kind %d, byte %d replaced by %q", kind, pos, with))
	was := b[pos]
	if was == with {
		x.Prune()
	}
	b[pos] = with
	fn := filepath.Join(x.Scratch, "d.stl")
	must(os.WriteFile(fn, b, 0644))
	m, err := LoadSTL(fn)
	x.Op(1)
	x.State(newHash().I(kind).I(pos).I(int(with)).Sum())
	x.Outcome(newHash().S(fmt.Sprint(err)).Sum())
	if err != nil {
		return
	}
	if kind == 0 {
		if was == 0 && with != 0 || true {
			x.Fail("damaged", "a file whose triangle count does not fit its size loads without an error (%d triangles)", len(m.Triangles))
		}
	}
	// a damaged number may only be another number, not silently a zero or a missing facet
	if len(m.Triangles) != len(ts) {
		x.Fail("damaged", "a damaged text file loads without an error with %d of %d triangles", len(m.Triangles), len(ts))
	}
	if with == '#' || with == 'x' {
		want := round32(ts)
		for i, t := range m.Triangles {
			for j, p := range []Point{t.P1, t.P2, t.P3} {
				if p != want[i][j] {
					x.Fail("damaged", "an unreadable coordinate of triangle %d loads without an error as %v", i, p)
				}
			}
		}
	}
}

// one number of a text file is not a number that fits
func c07Numbers(x *X) {
	ts := faultMeshes()[x.Choose(Tier(x, 1, 2))]
	word := Pick(x, "1e50", "-1e39", "1e999", "-7e400", "4e38", "1,5", "abc", "--1", "1e", "0x", "1.2.3", "1-2", "1e+", ".", "+", "e5", "12mm", "1\u00a02", "\u0661")
	st := []asciiStyle{{"  ", "\n", " ", "g", "solid part", "endsolid part\n", false}, {"", "\r\n", " ", "e", "solid", "endsolid\r\n", false}}[x.Choose(Tier(x, 1, 2))]
	lines := strings.Split(string(encodeASCII(ts, st)), "\n")
	var at [][2]int
	for i, l := range lines {
		if f := strings.Fields(l); len(f) == 4 && f[0] == "vertex" {
			for k := 1; k < 4; k++ {
				at = append(at, [2]int{i, k})
			}
		}
	}
	a := at[x.Choose(len(at))]
	f := strings.Fields(lines[a[0]])
	f[a[1]] = word
	end := ""
	if strings.HasSuffix(lines[a[0]], "\r") {
		end = "\r"
	}
	lines[a[0]] = strings.Join(f, " ") + end
	x.Begin(fmt.Sprintf("line %d is %q", a[0]+1, lines[a[0]]))
	fn := filepath.Join(x.Scratch, "n.stl")
	must(os.WriteFile(fn, []byte(strings.Join(lines, "\n")), 0644))
	m, err := LoadSTL(fn)
	x.Op(1)
	x.State(hashStr(x.desc))
	x.Outcome(newHash().S(fmt.Sprint(err)).Sum())
	if err == nil {
		x.Fail("number", "a file with the line %q loads without an error as %d triangles", lines[a[0]], len(m.Triangles))
	}
}

func bin(name string) string { return filepath.Join(os.Getenv("MC_BIN"), name) }

// runCLI runs a command of the repository in dir; returns exit code and output.
func runCLI(dir string, limit int, name string, args ...string) (int, string) {
	cmd := exec.Command(bin(name), args...)
	if limit >= 0 {
		sh := fmt.Sprintf("ulimit -f %d; exec \"$0\" \"$@\"", limit)
		cmd = exec.Command("/bin/sh", append([]string{"-c", sh, bin(name)}, args...)...)
	}
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if err == nil {
		return 0, string(out)
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if c := ee.ExitCode(); c > 0 {
			return c, string(out)
		}
		return 255, string(out)
	}
	must(err)
	return 0, ""
}

func copyData(dir string) {
	must(os.MkdirAll(filepath.Join(dir, "data"), 0755))
	for _, f := range []string{"header_template.txt", "footer_template.txt", "config.yaml"} {
		b, err := os.ReadFile(filepath.Join(os.Getenv("REPO"), "data", f))
		must(err)
		must(os.WriteFile(filepath.Join(dir, "data", f), b, 0644))
	}
}

func c07CLI(x *X) {
	tool := x.Choose(5)
	fault := x.Choose(Tier(x, 12, 40))
	in := x.Choose(3)
	names := []string{"goosli", "goosli_cutter", "goosli_simplifier", "goosli_colorizer", "goosli_analyzer"}
	if fault > 1 && in > 0 {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("%s, output fault %d, input %d", names[tool], fault, in))
	x.State(newHash().I(tool).I(fault).I(in).Sum())
	dir := filepath.Join(x.Scratch, "cli")
	must(os.RemoveAll(dir))
	copyData(dir)
	must(os.WriteFile(filepath.Join(dir, "none.txt"), nil, 0644))
	ts := shapeNamed("mushroom")
	b := encodeSTL(ts, "")
	want := 0
	switch in {
	case 1:
		b = b[:len(b)-17]
		want = 1
	case 2:
		b = nil
		want = 1
	}
	if b != nil {
		must(os.WriteFile(filepath.Join(dir, "in.stl"), b, 0644))
	}
	out, out2 := "out.bin", "out2.bin"
	limit := -1
	switch {
	case fault == 0:
	case fault == 1:
		out, want = "/dev/full", 1
	case fault == 2 && tool == 1:
		out2, want = "/dev/full", 1
	case fault == 3:
		out, want = "no/such/dir/out", 1
	default:
		limit = fault - 4
	}
	args := []string{"-s", "in.stl", "-o", out}
	switch tool {
	case 0:
		args = append(args, "--slicing_type", "3axes", "-t", "2")
	case 1:
		args = append(args, "-u", out2, "-z", "5")
	case 2:
		args = append(args, "-t", "100")
	}
	code, log := runCLI(dir, limit, names[tool], args...)
	x.Op(1)
	x.Outcome(newHash().I(tool).I(code).I(limit).Sum())
	if (code != 0) != (want != 0) && limit < 0 {
		x.Fail("exit", "%s %v ends with status %d, must be %s: %s", names[tool], args, code, map[bool]string{true: "a failure", false: "0"}[want != 0], clip(log, 300))
	}
	if limit >= 0 && code == 0 { // success claimed under a file size limit: the output must be complete
		got, _ := os.ReadFile(filepath.Join(dir, out))
		got2, _ := os.ReadFile(filepath.Join(dir, out2))
		c2, log2 := runCLI(dir, -1, names[tool], args...)
		if c2 != 0 {
			x.Fail("exit", "%s fails without a fault: %s", names[tool], clip(log2, 300))
		}
		ref, _ := os.ReadFile(filepath.Join(dir, out))
		ref2, _ := os.ReadFile(filepath.Join(dir, out2))
		if len(got) != len(ref) || len(got2) != len(ref2) {
			x.Fail("lost", "%s reports success with the file size limited to %d blocks, %d+%d bytes of %d+%d are written", names[tool], limit, len(got), len(got2), len(ref), len(ref2))
		}
	}
}

func init() {
	register(&Prop{ID: "C06", Level: "model_checking",
		Rule:   "every mesh of the catalogue x header kind, and x every combination of text styles; counts around powers of two, attribute bytes, missing normals, several solids, extreme numbers; compared with an independent codec",
		Assume: []string{"coordinates are single precision, as STL stores them"},
		Models: []Model{{Name: "binary", Run: c06Binary}, {Name: "ascii", Run: c06ASCII}, {Name: "extra", Run: c06Extra}}})
	register(&Prop{ID: "C07", Level: "fault_enumeration",
		Rule:   "every byte at which writing can stop (file size limit), every byte at which a file can end, every byte of a text file replaced by six values, and every output fault of the five commands",
		Assume: []string{"a full disk is modelled by RLIMIT_FSIZE and /dev/full; a text file without its endsolid line is truncated"},
		Models: []Model{{Name: "save", Run: c07Save}, {Name: "truncated", Run: c07Truncated}, {Name: "damaged", Run: c07Damaged}, {Name: "numbers", Run: c07Numbers}, {Name: "commands", Run: c07CLI}}})
}
