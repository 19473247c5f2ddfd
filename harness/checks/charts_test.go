package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"html"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf16"

	"pgregory.net/rapid"

	"jverif/gen"
)

// The charts script runs under node with stand-ins for its dependencies, see
// charts/stub.js.

type chartData struct {
	name string
	rows [][]any // the header, then one row per run
}

var chartNames = []string{
	"Simple", "Complex", "CodeMarshal", "Map", "Map2", "MapInt", "M", "SimplePayload", "JSON", "JSONValue", "XMLHttpRequest2", "aB", "A_b", "Été", "x<y>&z", "a b", "It's", "$1", "$&x", "%s", "constructor", "toString", "__proto__", "length", "1", "007", "Simple.svg", "null", "undefined", "Ωmega",
}

var (
	decamel1 = regexp.MustCompile(`([\p{Ll}0-9])(\p{Lu})`)
	decamel2 = regexp.MustCompile(`(\p{Lu}+)(\p{Lu}[\p{Ll}0-9]+)`)
	svgStart = regexp.MustCompile(`^<svg(\s[^>]*)?>`)
	svgTable = regexp.MustCompile(`<text class="table">(.*?)</text>`)
)

func chartFile(name string) string {
	name = decamel1.ReplaceAllString(name, "${1}-${2}")
	return strings.ToLower(decamel2.ReplaceAllString(name, "${1}-${2}")) + ".svg"
}

func chartName(t *rapid.T) string {
	s := gen.Of(t, chartNames)
	switch gen.Pick(t, 6) {
	case 0:
		s += strconv.Itoa(gen.Pick(t, 12))
	case 1:
		s += gen.Of(t, chartNames)
	case 2:
		s = s[:1+gen.Pick(t, len(s))]
		s = strings.ToValidUTF8(s, "")
		if s == "" {
			s = "S"
		}
	}
	return s
}

func less16(a, b string) bool {
	x, y := utf16.Encode([]rune(a)), utf16.Encode([]rune(b))
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

// TestC28: the charts of benchmarks.
func TestC28(t *testing.T) {
	node, err := exec.LookPath("node")
	if err != nil {
		harness("no node: %v", err)
		t.Fatal(err)
	}
	stub := filepath.Join(env("VERIF_HARNESS", "/verif/harness"), "charts/stub.js")
	script := filepath.Join(env("VERIF_SRC", "/repo"), "tools/charts/index.js")
	root, err := os.MkdirTemp("", "jverif-charts-")
	if err != nil {
		harness("%v", err)
	}
	defer os.RemoveAll(root)
	n := 0
	run(t, func(t *rapid.T) {
		n++
		dir := filepath.Join(root, strconv.Itoa(n))
		defer os.RemoveAll(dir)
		var data []chartData
		files := map[string]bool{}
		for i := gen.Of(t, []int{0, 1, 2, 2, 3, 4, 5, 8, 20}); i > 0; i-- {
			d := chartData{name: chartName(t)}
			if files[chartFile(d.name)] {
				continue
			}
			files[chartFile(d.name)] = true
			head := []any{"Name"}
			for k, u := range benchUnits {
				if k == 0 || gen.Bool(t) {
					head = append(head, u.unit)
				}
			}
			d.rows = append(d.rows, head)
			runs := map[string]bool{}
			for k := gen.Of(t, []int{0, 1, 2, 3, 3, 4, 6, 12}); k > 0; k-- {
				s := gen.Of(t, []string{"jettison", "jsoniter", "standard", "go-json", "a", "A", "b", "B", "a/b", "x=1", "10", "9", "é", "z", "Z", "<svg>", "\"q\"", "a b", "&lt;", "_", "-", "#00", "\u2028", "\U0001d54f", "\ufb00", "toString"})
				if gen.Chance(t, 30) {
					s += strconv.Itoa(gen.Pick(t, 30))
				}
				if runs[s] {
					continue
				}
				runs[s] = true
				row := []any{s}
				for range head[1:] {
					switch gen.Pick(t, 6) {
					case 0:
						row = append(row, nil)
					case 1:
						row = append(row, 0.0)
					case 2:
						row = append(row, float64(gen.Pick(t, 1000))/8)
					default:
						row = append(row, float64(gen.Bits(t, 30)))
					}
				}
				d.rows = append(d.rows, row)
			}
			data = append(data, d)
		}
		// the requested names
		var names []string
		for i := 1 + gen.Pick(t, 5); i > 0; i-- {
			s := chartName(t)
			if len(data) > 0 && gen.Chance(t, 75) {
				s = gen.Of(t, data).name
			}
			if strings.HasPrefix(s, "-") {
				continue
			}
			names = append(names, s)
		}
		if len(names) == 0 {
			names = []string{"None"}
		}
		asked := map[string]bool{}
		for _, s := range names {
			asked[s] = true
		}
		// the files
		out := gen.Of(t, []string{"out", "Out", "MyCharts/v2", "a b", "x/y/z", "out.svg", "çÀ", "a,b", "."})
		if err := os.MkdirAll(filepath.Join(dir, "w", out), 0o755); err != nil {
			harness("%v", err)
		}
		var doc bytes.Buffer
		doc.WriteString("{")
		for i, d := range data {
			if i > 0 {
				doc.WriteString(",")
			}
			k, _ := json.Marshal(d.name)
			v, err := json.Marshal(d.rows)
			if err != nil {
				harness("%v", err)
			}
			doc.Write(k)
			doc.WriteString(":")
			doc.Write(v)
		}
		doc.WriteString("}")
		text := append([]byte(nil), doc.Bytes()...)
		if gen.Chance(t, 40) {
			var b bytes.Buffer
			json.Indent(&b, text, "", "  ")
			text = b.Bytes()
		}
		want := map[string]*chartData{} // nil: any other file
		other := []byte("<p>old</p>\n")
		write := func(name string, b []byte) {
			if err := os.WriteFile(filepath.Join(dir, "w", out, name), b, 0o644); err != nil {
				harness("%v", err)
			}
		}
		for i := range data {
			f := chartFile(data[i].name)
			if asked[data[i].name] {
				want[f] = &data[i]
				if gen.Chance(t, 20) {
					write(f, bytes.Repeat(other, 1+gen.Pick(t, 500)))
				}
			} else if gen.Chance(t, 20) {
				want[f] = nil
				write(f, other)
			}
		}
		in := filepath.Join(dir, "in put.json")
		if err := os.WriteFile(in, text, 0o644); err != nil {
			harness("%v", err)
		}
		od := out
		switch gen.Pick(t, 4) {
		case 0:
			od += "/"
		case 1:
			od = filepath.Join(dir, "w", out)
		case 2:
			od = "./" + out
		}
		args := [][]string{{"-f", in}, {"-d", od}, {"-n", strings.Join(names, ",")}}
		if gen.Chance(t, 30) {
			args[0][0], args[1][0], args[2][0] = "--input", "--directory", "--names"
		}
		shuffle(t, args)
		sched := gen.Bits(t, 40)
		unk := filepath.Join(dir, "unknown")
		what := fmt.Sprintf("names %q, directory %q, schedule %d\n%s", names, od, sched, text)
		var log bytes.Buffer
		node := func(limit time.Duration) (err error, late bool) {
			cmd := exec.Command(node, append([]string{stub}, append(append(args[0], args[1]...), args[2]...)...)...)
			cmd.Dir = filepath.Join(dir, "w")
			cmd.Env = append(os.Environ(), "NODE_PATH=", "NODE_OPTIONS=", "VERIF_SCRIPT="+script, "VERIF_UNKNOWN="+unk, "VERIF_SCHED="+strconv.FormatUint(sched, 10))
			log.Reset()
			cmd.Stdout, cmd.Stderr = &log, &log
			if err := cmd.Start(); err != nil {
				harness("node: %v", err)
			}
			timer := time.AfterFunc(limit, func() { cmd.Process.Kill() })
			err = cmd.Wait()
			return err, !timer.Stop()
		}
		err, late := node(20 * time.Second)
		if late {
			if err, late = node(40 * time.Second); late {
				fail(t, "the charts script does not end\n%s", what)
			}
		}
		eval()
		if b, _ := os.ReadFile(unk); len(b) > 0 {
			skip()
			count("uses what the stand-ins do not have: " + strings.SplitN(string(b), "\n", 2)[0])
			return
		}
		if x, ok := err.(*exec.ExitError); ok && x.ExitCode() < 0 { // killed by someone else
			skip()
			count("node was killed")
			return
		}
		if err != nil {
			fail(t, "the charts script fails: %v\n%s\n%s", err, cut(log.String(), 2000), what)
		}
		// nothing but the charts
		got := map[string]bool{}
		filepath.Walk(filepath.Join(dir, "w"), func(p string, i os.FileInfo, err error) error {
			if err == nil && !i.IsDir() {
				rel, _ := filepath.Rel(filepath.Join(dir, "w", out), p)
				got[rel] = true
			}
			return nil
		})
		for f := range got {
			if _, ok := want[f]; !ok {
				fail(t, "the charts script writes %q\n%s", f, what)
			}
		}
		if b, _ := os.ReadFile(in); !bytes.Equal(b, text) {
			fail(t, "the charts script changes its input\n%s", what)
		}
		for f, d := range want {
			b, err := os.ReadFile(filepath.Join(dir, "w", out, f))
			if err != nil {
				fail(t, "there is no chart %q: %v\n%s", f, err, what)
			}
			if d == nil {
				if !bytes.Equal(b, other) {
					fail(t, "the file %q of a benchmark that is not requested is changed\n%s", f, what)
				}
				continue
			}
			if why := chartCheck(string(b), d); why != "" {
				fail(t, "chart %q of the benchmark %q: %s\nfile: %s\n%s", f, d.name, why, cut(string(b), 2000), what)
			}
		}
		if len(want) > 0 {
			nontrivial(hash("charts", text, names, sched), func() string {
				return fmt.Sprintf("%d charts of %d benchmarks, names %q, directory %q", len(want), len(data), names, od)
			})
		}
	})
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func chartCheck(s string, d *chartData) string {
	m := svgStart.FindStringSubmatch(s)
	if m == nil || !strings.HasSuffix(strings.TrimSpace(s), "</svg>") {
		return "not an SVG document"
	}
	if !strings.Contains(m[1], ` xmlns="http://www.w3.org/2000/svg"`) {
		return "no xmlns attribute"
	}
	if strings.Count(s, "<svg") != 1 || strings.Count(s, "</svg>") != 1 {
		return "more than one SVG document"
	}
	l := svgTable.FindAllStringSubmatch(s, -1)
	if len(l) != 1 {
		return fmt.Sprintf("%d tables", len(l))
	}
	var g struct {
		Kind string
		Cols []any
		Rows [][]any
	}
	if err := json.Unmarshal([]byte(html.UnescapeString(l[0][1])), &g); err != nil {
		return err.Error()
	}
	rows := append([][]any(nil), d.rows[1:]...)
	sort.SliceStable(rows, func(i, j int) bool { return less16(rows[i][0].(string), rows[j][0].(string)) })
	if g.Kind != "ColumnChart" {
		return "a " + g.Kind
	}
	if !reflect.DeepEqual(g.Cols, d.rows[0]) {
		return fmt.Sprintf("columns %q, want %q", g.Cols, d.rows[0])
	}
	if len(rows) == 0 && len(g.Rows) == 0 || reflect.DeepEqual(g.Rows, rows) {
		return ""
	}
	return fmt.Sprintf("rows %v\nwant %v", g.Rows, rows)
}
