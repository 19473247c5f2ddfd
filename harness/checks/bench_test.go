package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"jverif/gen"
)

var benchparse = env("VERIF_BENCHPARSE", "/tmp/benchparse")

// benchUnits are the sections of a benchstat file, in order.
var benchUnits = []struct{ metric, unit, omit string }{
	{"time/op", "ns/op", ""}, {"speed", "MB/s", "-omit-bandwidth"}, {"alloc/op", "B/op", "-omit-mem"}, {"allocs/op", "allocs/op", "-omit-allocs"},
}

type benchRun struct {
	bench, run, cpu string
	vals            [4]string
	none            [4]int // no value: 1 no row, 2 a row of the name only
}

func benchName(t *rapid.T, first bool) string {
	s := ""
	if first {
		s = gen.Of(t, []string{"Simple", "Complex", "CodeMarshal", "Map", "S", "SimplePayload", "É", "A_b", "Bench2"})
	} else {
		s = gen.Of(t, []string{"jettison", "jsoniter", "standard", "go-json", "a", "x=1", "with-dash-8", "a/b", "a/b-c", "case#01", "é", "-", "1", "10-20", "size=1.5e3", "a b", "Simple", "MB/s", "name", "#00"})
	}
	if gen.Chance(t, 20) {
		s += strconv.Itoa(gen.Pick(t, 100))
	}
	if gen.Chance(t, 12) { // anything that fits in a cell
		x := gen.String(t, true)
		if gen.Chance(t, 30) {
			x = gen.DictStr(t)
		}
		x = strings.Map(func(r rune) rune {
			if r <= ' ' || strings.ContainsRune(",\"\ufffd", r) || first && r == '/' {
				return -1
			}
			return r
		}, x)
		switch gen.Pick(t, 3) {
		case 0:
			s += x
		case 1:
			s = x + s
		default:
			if x != "" {
				s = x
			}
		}
		if len(s) > 3000 {
			s = strings.ToValidUTF8(s[:3000], "")
		}
	}
	return s
}

func benchValue(t *rapid.T) string {
	f := gen.Float64(t, false)
	switch gen.Pick(t, 6) {
	case 0:
		return strconv.Itoa(gen.Pick(t, 5000))
	case 1:
		return fmt.Sprintf("%.5E", float64(gen.Pick(t, 1e9))/100)
	case 2:
		return strconv.FormatFloat(f, 'g', -1, 64)
	case 3:
		return strconv.FormatFloat(f, 'E', -1, 64)
	case 4:
		return "0.00000E+00"
	}
	return fmt.Sprintf("%.2f", float64(gen.Pick(t, 1e9))/64)
}

// TestC25: benchparse against a model.
func TestC25(t *testing.T) {
	dir, err := os.MkdirTemp("", "benchparse")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	inD, outD := filepath.Join(dir, "benchstats.csv"), filepath.Join(dir, "benchstats.json")
	run(t, func(t *rapid.T) {
		// the runs
		var runs []benchRun
		seen := map[string]bool{}
		cpu := gen.Of(t, []string{"-8", "-8", "-16", "-1", "-128", ""})
		sparse := gen.Chance(t, 30)
		for i := 1 + gen.Size(t, 6); i > 0; i-- {
			b := benchName(t, true)
			for j := 1 + gen.Size(t, 6); j > 0; j-- {
				r := benchRun{bench: b, run: benchName(t, false), cpu: cpu}
				if cpu == "" { // as with GOMAXPROCS=1
					r.run = strings.ReplaceAll(r.run, "-", "_")
				}
				if seen[r.bench+"/"+r.run] {
					continue
				}
				seen[r.bench+"/"+r.run] = true
				for k := range r.vals {
					r.vals[k] = benchValue(t)
				}
				if sparse {
					keep := gen.Pick(t, 4) // a run has at least one value
					for k := range r.vals {
						if k != keep && gen.Chance(t, 30) {
							r.none[k] = 1 + gen.Pick(t, 2)
						}
					}
				}
				runs = append(runs, r)
			}
		}
		if gen.Chance(t, 1) { // a large file
			x := rng(gen.Pick(t, 1<<30) + 1)
			nb, nr := gen.Of(t, []int{1, 1, 9, 33, 100, 300, 3000}), gen.Of(t, []int{9, 17, 33, 65, 100, 129, 257, 1025, 5000})
			nr = min(nr, 1+6000/nb)
			for i := 0; i < nb; i++ {
				for j := 0; j < nr; j++ {
					r := benchRun{bench: "Large" + strconv.Itoa(i), run: "run" + strconv.Itoa(j), cpu: cpu}
					keep := x.n(4)
					for k := range r.vals {
						r.vals[k] = strconv.Itoa(x.n(1e6))
						if sparse && k != keep && x.n(4) == 0 {
							r.none[k] = 1 + x.n(2)
						}
					}
					runs = append(runs, r)
				}
			}
			count("large files")
		}
		long := gen.Chance(t, 3) // a line longer than the buffer of a bufio.Scanner
		if long {
			runs[gen.Pick(t, len(runs))].run += strings.Repeat("x", gen.Of(t, []int{60000, 65536, 70000, 200000}))
		}
		nl := "\n"
		if gen.Chance(t, 10) {
			nl = "\r\n"
		}
		// the lines, with the sections
		var lines []string
		var rows, heads []int
		blank := map[int]bool{}
		sections := []int{0, 1, 2, 3}
		if sparse && gen.Chance(t, 50) {
			shuffle(t, sections)
		}
		for n, k := range sections {
			u := benchUnits[k]
			if sparse { // a section that nobody has is left out
				some := false
				for _, r := range runs {
					some = some || r.none[k] != 1
				}
				if !some {
					count("sections left out")
					continue
				}
			}
			if n > 0 && len(lines) > 0 {
				blank[len(lines)] = true
				lines = append(lines, "")
				if gen.Chance(t, 10) {
					blank[len(lines)] = true
					lines = append(lines, "")
				}
			}
			heads = append(heads, len(lines))
			lines = append(lines, "name,"+u.metric+" ("+u.unit+")")
			order := make([]int, len(runs))
			for i := range order {
				order[i] = i
			}
			if gen.Chance(t, 30) {
				for i := len(order) - 1; i > 0; i-- {
					j := gen.Pick(t, i+1)
					order[i], order[j] = order[j], order[i]
				}
			}
			for _, i := range order {
				if runs[i].none[k] == 1 {
					continue
				}
				rows = append(rows, len(lines))
				if runs[i].none[k] == 2 {
					lines = append(lines, runs[i].bench+"/"+runs[i].run+runs[i].cpu)
					continue
				}
				lines = append(lines, runs[i].bench+"/"+runs[i].run+runs[i].cpu+","+runs[i].vals[k])
			}
		}
		bad := ""
		if !sparse && gen.Chance(t, 25) { // break one line
			row, head := gen.Of(t, rows), gen.Of(t, heads)
			switch gen.Pick(t, 10) {
			case 0:
				bad = "row without a separator in its name"
				_, v, _ := strings.Cut(lines[row], ",")
				lines[row] = "Simple-8," + v
			case 1:
				bad = "row with an invalid value"
				n, _, _ := strings.Cut(lines[row], ",")
				lines[row] = n + "," + gen.Of(t, []string{"", "x", "1.2.3", "1e", " 1", "1 ", "--1", "12%", "±5", "1e999", "-1e400", "0x", "1,5;", "1ns", "nul"})
				if strings.Count(lines[row], ",") == 2 {
					lines[row] = n + ",five"
				}
			case 2:
				bad = "header of one column"
				lines[head] = gen.Of(t, []string{"name", "time/op (ns/op)"})
			case 3:
				bad = "header of three columns"
				lines[head] += ",±"
			case 4:
				bad = "header without a unit"
				lines[head] = "name,time/op"
			case 5:
				bad = "value that JSON has not"
				n, _, _ := strings.Cut(lines[gen.Of(t, rows[:len(runs)])], ",")
				for _, i := range rows[:len(runs)] {
					if strings.HasPrefix(lines[i], n+",") {
						lines[i] = n + "," + gen.Of(t, []string{"NaN", "Inf", "-Inf", "+Inf", "infinity"})
					}
				}
			case 6:
				bad = "missing header"
				lines = append(append([]string{}, lines[:head]...), lines[head+1:]...)
				if strings.Count(lines[head], ",") == 1 && strings.Contains(lines[head], " ") {
					bad = "" // a name with a space is taken for the unit
				}
			case 7:
				bad = "no empty line before a header"
				i := heads[1+gen.Pick(t, 3)]
				j := i
				for blank[j-1] {
					j--
				}
				lines = append(append([]string{}, lines[:j]...), lines[i:]...)
				// the header is a row without a number
			case 8:
				bad = "geometric mean"
				lines[row] = "[Geo mean]," + benchValue(t)
			case 9:
				bad = "missing file"
			}
			if bad == "" {
				return
			}
		}
		text := strings.Join(lines, nl)
		if gen.Chance(t, 80) {
			text += nl
			if gen.Chance(t, 20) {
				text += nl
			}
		}
		in, out := filepath.Join(dir, "in.csv"), filepath.Join(dir, "out.json")
		args := []string{"-in", in, "-out", out}
		switch gen.Pick(t, 4) {
		case 0: // the default names
			args, in, out = nil, inD, outD
		case 1:
			args = []string{"--out=" + out, "-in=in.csv"}
		}
		os.Remove(in)
		if bad != "missing file" {
			if err := os.WriteFile(in, []byte(text), 0o644); err != nil {
				panic(err)
			}
		}
		os.Remove(out)
		old := []byte(nil)
		if gen.Chance(t, 30) { // an output file exists, maybe a longer one
			old = bytes.Repeat([]byte("old table "), gen.Of(t, []int{1, 3, 5000}))
			if err := os.WriteFile(out, old, 0o644); err != nil {
				panic(err)
			}
		}
		omit := [4]bool{}
		for k, u := range benchUnits {
			if u.omit != "" && gen.Chance(t, 35) {
				omit[k] = true
				args = append(args, u.omit)
			}
		}
		desc := func() string { return fmt.Sprintf("arguments: %v\ninput:\n%.20000s", args, text) }
		if trace {
			os.WriteFile(filepath.Join(outDir, "trace.txt"), []byte(desc()), 0o644)
		}
		cmd := exec.Command(benchparse, args...)
		cmd.Dir = dir
		var log bytes.Buffer
		cmd.Stdout, cmd.Stderr = &log, &log
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		timer.Stop()
		eval()
		got, rerr := os.ReadFile(out)
		if bad != "" {
			count("malformed: " + bad)
			if err == nil {
				fail(t, "a malformed file (%s) is accepted\n%s\noutput: %s", bad, desc(), got)
			}
			if rerr == nil && len(got) > 0 && !bytes.Equal(got, old) {
				fail(t, "a malformed file (%s) gives a table\n%s\noutput: %s", bad, desc(), got)
			}
			nontrivial(hash(text, fmt.Sprint(args)), func() string { return bad + ": " + fmt.Sprintf("%.400s", text) })
			return
		}
		if err != nil && long {
			if rerr == nil && len(got) > 0 && !bytes.Equal(got, old) {
				fail(t, "a rejected file gives a table\n%s\noutput: %s", desc(), got)
			}
			count("long lines rejected")
			return
		}
		if err != nil {
			fail(t, "benchparse fails: %v: %s\n%s", err, log.String(), desc())
		}
		var data map[string][][]any
		if err := json.Unmarshal(got, &data); err != nil {
			fail(t, "the output is not a table: %v\n%s\noutput: %s", err, desc(), got)
		}
		// the model
		holes := 0
		want := map[string]map[string][]any{}
		for _, r := range runs {
			if want[r.bench] == nil {
				want[r.bench] = map[string][]any{}
			}
			var l []any
			for k := range benchUnits {
				if r.none[k] > 0 && !omit[k] {
					l = append(l, nil)
					holes++
				} else if !omit[k] {
					f, err := strconv.ParseFloat(r.vals[k], 64)
					if err != nil {
						panic(err)
					}
					l = append(l, f)
				}
			}
			want[r.bench][r.run] = l
		}
		header := []any{"Name"}
		for k, u := range benchUnits {
			if !omit[k] {
				header = append(header, u.unit)
			}
		}
		if len(data) != len(want) {
			fail(t, "%d benchmarks instead of %d\n%s\noutput: %s", len(data), len(want), desc(), got)
		}
		names := make([]string, 0, len(want))
		for b := range want {
			names = append(names, b)
		}
		sort.Strings(names)
		for _, b := range names {
			tab := data[b]
			if len(tab) != 1+len(want[b]) {
				fail(t, "benchmark %s has %d rows instead of %d\n%s\noutput: %s", b, len(tab), 1+len(want[b]), desc(), got)
			}
			if fmt.Sprintf("%#v", tab[0]) != fmt.Sprintf("%#v", header) {
				fail(t, "the header of %s is %v instead of %v\n%s\noutput: %s", b, tab[0], header, desc(), got)
			}
			done := map[string]bool{}
			for _, row := range tab[1:] {
				n, _ := row[0].(string)
				w, ok := want[b][n]
				if !ok || done[n] || len(row) != len(w)+1 {
					fail(t, "wrong row %v of %s\n%s\noutput: %s", row, b, desc(), got)
				}
				done[n] = true
				for i, f := range w {
					if row[i+1] != f {
						fail(t, "row %v of %s has not the value %v for %v\n%s\noutput: %s", row, b, f, header[i+1], desc(), got)
					}
				}
			}
		}
		if holes > 0 {
			count("tables with missing values")
		}
		if len(runs) > 1 {
			nontrivial(hash(text, fmt.Sprint(args)), func() string { return fmt.Sprintf("%v %.300s -> %.300s", args, text, got) })
		}
	})
}
