package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"verifmc/core"
	"verifmc/drive"
)

// A bpRow is one line of a section.
type bpRow struct {
	bench, run string
	suffix     string
	val        string // "" : no value column
	more       string
}

type bpSection struct {
	unit string
	rows []bpRow
}

var bpUnits = []string{"ns/op", "MB/s", "B/op", "allocs/op"}
var bpTitle = map[string]string{"ns/op": "time/op", "MB/s": "speed", "B/op": "alloc/op", "allocs/op": "allocs/op"}

func (s bpSection) header() string { return "name," + bpTitle[s.unit] + " (" + s.unit + ")" }

func (r bpRow) line() string {
	l := r.bench + "/" + r.run + r.suffix
	if r.val != "" {
		l += "," + r.val + r.more
	}
	return l
}

func bpLines(l []bpSection) []string {
	var out []string
	for i, s := range l {
		if i > 0 {
			out = append(out, "")
		}
		out = append(out, s.header())
		for _, r := range s.rows {
			out = append(out, r.line())
		}
	}
	return out
}

// bpWant is the model: the tables, or dup if a value is given twice.
func bpWant(l []bpSection, omit [3]bool) (tables map[string][]string, dup bool) {
	cols := []string{"ns/op"}
	for i, u := range bpUnits[1:] {
		if !omit[i] {
			cols = append(cols, u)
		}
	}
	hdr := []interface{}{"Name"}
	for _, c := range cols {
		hdr = append(hdr, c)
	}
	type key struct{ b, r, u string }
	vals := map[key]float64{}
	runs := map[string]map[string]bool{}
	for _, s := range l {
		for _, r := range s.rows {
			if runs[r.bench] == nil {
				runs[r.bench] = map[string]bool{}
			}
			if r.val == "" {
				continue
			}
			f, _ := strconv.ParseFloat(r.val, 64)
			k := key{r.bench, r.run, s.unit}
			if _, ok := vals[k]; ok {
				return nil, true
			}
			vals[k] = f
			runs[r.bench][r.run] = true
		}
	}
	str := func(v interface{}) string { b, _ := json.Marshal(v); return string(b) }
	tables = map[string][]string{}
	for b := range runs {
		var rows []string
		for r := range runs[b] {
			row := []interface{}{r}
			for _, c := range cols {
				if f, ok := vals[key{b, r, c}]; ok {
					row = append(row, f)
				} else {
					row = append(row, nil)
				}
			}
			rows = append(rows, str(row))
		}
		sort.Strings(rows)
		tables[b] = append([]string{str(hdr)}, rows...)
	}
	return tables, false
}

var bpDirs = map[string]string{}

func bpDir() string {
	if d := bpDirs[""]; d != "" {
		return d
	}
	d := filepath.Join(os.Getenv("VERIF_BIN"), fmt.Sprint("bp", os.Getpid()))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	bpDirs[""] = d
	return d
}

// bpExec runs the tool in its scratch directory.
func bpExec(args ...string) (stderr string, ok bool) {
	c := exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), "benchparse"), args...)
	c.Dir = bpDir()
	var e bytes.Buffer
	c.Stderr = &e
	err := c.Run()
	if err != nil {
		if _, is := err.(*exec.ExitError); !is {
			panic(err)
		}
	}
	return e.String(), err == nil
}

var bpOmit = [3]string{"-omit-bandwidth", "-omit-mem", "-omit-allocs"}

func bpRun(x *core.X, text string, omit [3]bool) (out []byte, stderr string, ok bool) {
	in, of := filepath.Join(bpDir(), "in.csv"), filepath.Join(bpDir(), "out.json")
	os.WriteFile(in, []byte(text), 0o644)
	os.Remove(of)
	args := []string{"-in", in, "-out", of}
	for i, o := range omit {
		if o {
			args = append(args, bpOmit[i])
		}
	}
	stderr, ok = bpExec(args...)
	out, _ = os.ReadFile(of)
	return
}

// bpCompare compares the file written with the model's tables.
func bpCompare(x *core.X, what string, out []byte, want map[string][]string) {
	var got map[string][]json.RawMessage
	d := json.NewDecoder(bytes.NewReader(out))
	if err := d.Decode(&got); err != nil || d.More() {
		x.Failf("%s: output %q is not one JSON value: %v", what, out, err)
	}
	have := map[string][]string{}
	for b, rows := range got {
		var l []string
		for _, r := range rows {
			var v []interface{}
			if err := json.Unmarshal(r, &v); err != nil {
				x.Failf("%s: row %s: %v", what, r, err)
			}
			c, _ := json.Marshal(v)
			l = append(l, string(c))
		}
		if len(l) > 1 {
			sort.Strings(l[1:])
		}
		have[b] = l
	}
	if !reflect.DeepEqual(have, want) {
		x.Failf("%s:\n got %v\nwant %v", what, have, want)
	}
	c, _ := json.Marshal(have)
	x.Obs(c)
	x.Sample(func() string { return fmt.Sprintf("%s -> %s", what, bytes.TrimSpace(out)) })
}

func bpCheck(x *core.X, l []bpSection, text string, omit [3]bool) {
	want, dup := bpWant(l, omit)
	out, se, ok := bpRun(x, text, omit)
	what := fmt.Sprintf("%q %v", text, omit)
	if dup {
		if ok || se == "" {
			x.Failf("%s: a value given twice is no error: %s", what, out)
		}
		x.Obs([]byte("dup"))
		return
	}
	if !ok {
		x.Failf("%s: error %s", what, se)
	}
	bpCompare(x, what, out, want)
}

func bpError(x *core.X, what, text string, omit [3]bool) {
	out, se, ok := bpRun(x, text, omit)
	if ok || se == "" {
		x.Failf("%s: %q %v is no error: %q", what, text, omit, out)
	}
	x.Obs([]byte(what + text))
	x.Sample(func() string { return fmt.Sprintf("%s: %q -> %s", what, text, se) })
}

func bpFlags(x *core.X) (o [3]bool) {
	k := x.Choose("omit", 8)
	for i := range o {
		o[i] = k>>uint(i)&1 == 1
	}
	return
}

// bpVal gives every cell a value of its own.
func bpVal(sec, row int) string { return fmt.Sprintf("%d.%dE+0%d", sec+1, row*7+5, sec) }

func bpText(l []string) string { return strings.Join(l, "\n") + "\n" }

func init() {
	drive.Describe("C24", "The benchparse program, built from the working tree and run on every small CSV file over sections, benchmarks, run names, units, missing rows and values, with every combination of the omit flags, and on every single-line malformation of a file; what it writes is compared with a model of the tables.",
		"rows are compared as a set, since the tool writes them in any order",
		"the trailing -N of a run name is the processor count, as benchstat writes it")
	base := func() []bpSection {
		var l []bpSection
		for i, u := range bpUnits {
			s := bpSection{unit: u}
			for j, n := range []string{"A/x", "A/y", "B/x"} {
				s.rows = append(s.rows, bpRow{bench: n[:1], run: n[2:], suffix: "-8", val: bpVal(i, j)})
			}
			l = append(l, s)
		}
		return l
	}
	drive.Add("C24",
		&core.Scenario{Name: "orders", Doc: "all four units in every order x every omit combination x up to 2 rows missing or without value (3 in thorough), 3 (4) rows",
			MaxDev: 1, ThoroughDev: 2, SplitDepth: 2,
			Run: func(x *core.X) {
				left := []int{0, 1, 2, 3}
				var l []bpSection
				b := base()
				for len(left) > 0 {
					k := x.Choose("unit", len(left))
					l = append(l, b[left[k]])
					left = append(append([]int{}, left[:k]...), left[k+1:]...)
				}
				o := bpFlags(x)
				for i := range l {
					var rows []bpRow
					for _, r := range l[i].rows {
						switch x.Dev("row", 3) {
						case 1:
							continue
						case 2:
							r.val = ""
						}
						rows = append(rows, r)
					}
					l[i].rows = rows
				}
				bpCheck(x, l, bpText(bpLines(l)), o)
			}},
		&core.Scenario{Name: "row-orders", Doc: "every order of 4 rows of 2 benchmarks in two sections, which differ",
			SplitDepth: 2,
			Run: func(x *core.X) {
				var l []bpSection
				for i := 0; i < 2; i++ {
					s := bpSection{unit: bpUnits[[]int{0, 3}[i]]}
					left := []string{"A/x", "B/x", "A/y", "B/y"}
					for len(left) > 0 {
						k := x.Choose("row", len(left))
						s.rows = append(s.rows, bpRow{bench: left[k][:1], run: left[k][2:], suffix: "-4", val: bpVal(i, len(left))})
						left = append(append([]string{}, left[:k]...), left[k+1:]...)
					}
					l = append(l, s)
				}
				bpCheck(x, l, bpText(bpLines(l)), [3]bool{})
			}},
		&core.Scenario{Name: "names", Doc: "two rows over 14 benchmark names, 22 run names and 5 suffixes: names with separators, quotes, spaces, prefixes of each other, names that differ only in case or in spaces; the same run name of two benchmarks",
			SplitDepth: 2,
			Run: func(x *core.X) {
				bs := []string{"A", "AB", "a b", "é", "\"q\"", "A-8", "", "<&>", "A_long.name", "a", "ab", "É", "K", "\u212a"}
				rs := []string{"x", "xy", "x/y", "x/", "-", "x-y", "x y", "\"", "é", "", "name", "x=1", "jettison", "(ns/op)", "X", "xY", "Jettison", "É", "k", "\u212a", " x", "x "}
				sx := []string{"-8", "-16", "-1", "-", ""}
				s := bpSection{unit: "ns/op"}
				for i := 0; i < 2; i++ {
					r := bpRow{bench: bs[x.Choose("bench", len(bs))], run: rs[x.Choose("run", len(rs))], val: bpVal(0, i)}
					k := 0
					if x.Thorough || i == 0 && r.run == "x" {
						k = x.Choose("suffix", len(sx))
					}
					r.suffix = sx[k]
					if r.suffix == "" && strings.Contains(r.run, "-") {
						x.Skip()
					}
					s.rows = append(s.rows, r)
				}
				o := s
				o.unit = "B/op"
				o.rows = append([]bpRow{}, s.rows[1], s.rows[0])
				l := []bpSection{s, o}
				bpCheck(x, l, bpText(bpLines(l)), [3]bool{})
			}},
		&core.Scenario{Name: "values", Doc: "30 number texts, each in the first, second or last section and in each row, alone or followed by more columns; 19 malformed ones are errors, under every omit combination",
			SplitDepth: 2,
			Run: func(x *core.X) {
				good := []string{"1", "0", "1.5", "1.23457E+02", "-1", "1e-9", "1e308", "123456789012", "+5", ".5", "5.", "0.1", "9007199254740993", "1e21", "1e-7", "4.9e-324", "00012", "6.02214E+23", "1E5", "100000"}
				bad := []string{" ", "x", "1x", "1e999", " 1", "1 ", "0x", "--1", "1.2.3", "e5", "1e", "±1", "NaN", "Inf", "-inf", "1;2", "\"1\"", "1µs", "0b1"}
				k := x.Choose("value", len(good)+len(bad)+1)
				l := base()
				sec, row := x.Choose("section", 4), x.Choose("row", 3)
				o := bpFlags(x)
				r := &l[sec].rows[row]
				switch {
				case k < len(good):
					r.val = good[k]
					if x.Bool("more") {
						r.more = ",±2%,x"
					}
					bpCheck(x, l, bpText(bpLines(l)), o)
				case k < len(good)+len(bad):
					r.val = bad[k-len(good)]
					om := sec > 0 && o[sec-1]
					if _, err := strconv.ParseFloat(r.val, 64); err == nil && om {
						x.Skip() // a number, in a column that is not written
					}
					bpError(x, "malformed number", bpText(bpLines(l)), o)
				default: // an empty value
					r.val = ","
					r.more = "x"
					if x.Bool("more") {
						r.more = ""
					}
					bpError(x, "empty number", strings.Replace(bpText(bpLines(l)), ",,", ",", x.Choose("single", 2)*2), o)
				}
			}},
		&core.Scenario{Name: "malformed", Doc: "every line of a file of 4 sections replaced by, followed by or preceded by 26 malformed ones, under every omit combination: an error with a message, no output",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := bpLines(base())
				i := x.Choose("line", len(l))
				hdrs := []string{"name", "name,time/op", "name,", "name,time/op ", "name,time/op (s/op)", "name,time/op (ns/op),±", "name,time/op ns", "name,time/op ()", "name,time/op (B/s)", "x", ",", "name time/op (ns/op)", "name,(ns/op)", "name,a b (ns/op)", "A/x-8,1", "name,time/op (NS/OP)"}
				rows := []string{"x", "x,1", "Ax-8,1.5", ",", ",1", " ", "name,time/op (ns/op)", "A/w-8,", "A/w-8,x", "\t", "A\\x-8,1"}
				hdr := i == 0 || l[i-1] == ""
				var bad string
				how := x.Choose("how", 3)
				if l[i] == "" {
					x.Skip()
				}
				if hdr && how < 2 {
					bad = hdrs[x.Choose("header", len(hdrs))]
				} else {
					bad = rows[x.Choose("row", len(rows))]
				}
				o := bpFlags(x)
				var t []string
				t = append(t, l[:i]...)
				switch how {
				case 0: // instead
					t = append(append(t, bad), l[i+1:]...)
				case 1: // before
					t = append(append(t, bad), l[i:]...)
				case 2: // after
					t = append(append(append(t, l[i]), bad), l[i+1:]...)
				}
				bpError(x, "malformed line", bpText(t), o)
			}},
		&core.Scenario{Name: "layout", Doc: "blank lines before, between and after sections, line ends LF and CRLF, with and without the last one; empty files; sections without rows",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := base()[:1+x.Choose("sections", 4)]
				if e := x.Choose("empty", 6); e > 0 {
					if e > len(l) {
						if e < 5 {
							x.Skip()
						}
						l = nil
					} else {
						l[e-1].rows = nil
					}
				}
				nl := []string{"\n", "\r\n"}[x.Choose("end", 2)]
				t := strings.Repeat(nl, x.Choose("before", 3))
				gap := 1 + x.Choose("between", 3)
				for i, s := range l {
					if i > 0 {
						t += strings.Repeat(nl, gap)
					}
					t += s.header() + nl
					for _, r := range s.rows {
						t += r.line() + nl
					}
				}
				t += strings.Repeat(nl, x.Choose("after", 3))
				if x.Bool("cut") && t != "" {
					t = strings.TrimSuffix(t, nl)
				}
				bpCheck(x, l, t, [3]bool{})
			}},
		&core.Scenario{Name: "sizes", Doc: "1..12 (40) benchmarks with 1..12 (40) run names and all units; lines around the buffer sizes of 4096 and 65536 bytes are read or refused, never cut",
			SplitDepth: 2,
			Run: func(x *core.X) {
				if x.Bool("long") {
					n := []int{4000, 4096, 65000, 65535, 65536, 65537, 70000, 200000}[x.Choose("length", 8)] + x.Choose("less", 20) - 10
					l := base()
					k := x.Choose("line", 3)
					l[1].rows[k].run = strings.Repeat("r", n)
					l[2].rows[k].run = l[1].rows[k].run
					want, _ := bpWant(l, [3]bool{})
					out, se, ok := bpRun(x, bpText(bpLines(l)), [3]bool{})
					if !ok && se != "" {
						x.Obs([]byte(fmt.Sprint("refused", n, k)))
						return
					}
					if !ok {
						x.Failf("line of %d bytes: failure without message", n)
					}
					bpCompare(x, fmt.Sprintf("line of %d bytes", n), out, want)
					return
				}
				max := 12
				if x.Thorough {
					max = 40
				}
				nb, nr := 1+x.Choose("benchmarks", max), 1+x.Choose("runs", max)
				var l []bpSection
				for i, u := range bpUnits {
					s := bpSection{unit: u}
					for b := 0; b < nb; b++ {
						for r := 0; r < nr; r++ {
							s.rows = append(s.rows, bpRow{bench: fmt.Sprint("B", b), run: fmt.Sprint("run", r), suffix: "-8", val: fmt.Sprint(i*100000 + b*100 + r)})
						}
					}
					l = append(l, s)
				}
				bpCheck(x, l, bpText(bpLines(l)), bpFlags(x))
			}},
		&core.Scenario{Name: "files", Doc: "output over a longer, shorter or missing file, default file names, no such input, output in a missing directory, unknown flags; the input is not changed",
			Serial: true,
			Run: func(x *core.X) {
				l := base()
				text := bpText(bpLines(l))
				d := bpDir()
				in, of := filepath.Join(d, "benchstats.csv"), filepath.Join(d, "benchstats.json")
				os.WriteFile(in, []byte(text), 0o644)
				os.Remove(of)
				want, _ := bpWant(l, [3]bool{})
				k := x.Choose("case", 8)
				switch k {
				case 0, 1, 2:
					os.WriteFile(of, bytes.Repeat([]byte("old "), []int{10, 1000, 100000}[k]), 0o644)
				case 4:
					os.Remove(in)
				}
				args := [][]string{nil, nil, nil, nil, nil, {"-out", filepath.Join(d, "none", "x.json")}, {"-bogus"}, {"-out", of, "-in", in, "-omit-mem=false"}}[k]
				se, ok := bpExec(args...)
				if ok != (k < 4 || k == 7) {
					x.Failf("case %d: success %v, %s", k, ok, se)
				}
				if !ok {
					if se == "" {
						x.Failf("case %d: no message", k)
					}
					x.Obs([]byte{byte(k)})
					return
				}
				out, _ := os.ReadFile(of)
				bpCompare(x, fmt.Sprint("case ", k), out, want)
				if b, _ := os.ReadFile(in); string(b) != text {
					x.Failf("case %d: the input was changed to %q", k, b)
				}
			}},
		&core.Scenario{Name: "tables", Doc: "every pair of sections over 4 units (also twice the same) x every subset of 4 rows (2 benchmarks x 2 run names) in each x every combination of the omit flags",
			SplitDepth: 2,
			Run: func(x *core.X) {
				var l []bpSection
				n := 1 + x.Choose("sections", 2)
				for i := 0; i < n; i++ {
					s := bpSection{unit: bpUnits[x.Choose("unit", 4)]}
					m := x.Choose("rows", 16)
					for j, r := range []string{"A/x", "A/y", "B/x", "B/z"} {
						if m>>uint(j)&1 == 1 {
							s.rows = append(s.rows, bpRow{bench: r[:1], run: r[2:], suffix: "-8", val: bpVal(i, j)})
						}
					}
					l = append(l, s)
				}
				if !x.Thorough && n == 2 && x.Choose("omit some", 2) == 0 {
					bpCheck(x, l, bpText(bpLines(l)), [3]bool{})
					return
				}
				o := bpFlags(x)
				if !x.Thorough && n == 2 && len(l[0].rows)+len(l[1].rows) > 3 {
					x.Skip()
				}
				bpCheck(x, l, bpText(bpLines(l)), o)
			}},
	)
}
