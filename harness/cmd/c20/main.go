// C20: text dataset files are parsed faithfully.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verif/vk"

	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
)

// table is the content of a dataset file.
type table struct {
	cats []int
	rows [][]int
}

func (t *table) String() string {
	s := fmt.Sprintf("categories %v, %d rows", t.cats, len(t.rows))
	if len(t.rows)*len(t.cats) <= 200 {
		s += fmt.Sprintf(" %v", t.rows)
	}
	if len(t.cats) > 50 {
		s = fmt.Sprintf("%d variables, %d rows", len(t.cats), len(t.rows))
	}
	return s
}

func gen(r *rand.Rand, minVars int) *table {
	t := &table{}
	nv, n := minVars+r.Intn(6), 1+r.Intn(8)
	switch r.Intn(12) {
	case 0:
		n = 1
	case 1:
		nv = 30 + r.Intn(100)
	case 2:
		n = 50 + r.Intn(100)
	case 3:
		if r.Intn(4) == 0 {
			n = 500 + r.Intn(3000)
			if r.Intn(8) == 0 {
				nv, n = minVars+r.Intn(2), 5000+r.Intn(8000)
			}
		}
	}
	for j := 0; j < nv; j++ {
		t.cats = append(t.cats, 1+r.Intn([]int{2, 4, 256, 100000}[r.Intn(4)]))
	}
	for i := 0; i < n; i++ {
		var row []int
		for j := 0; j < nv; j++ {
			row = append(row, r.Intn(t.cats[j]))
		}
		t.rows = append(t.rows, row)
	}
	return t
}

// body writes declarations and rows in a random layout.
func (t *table) body(r *rand.Rand, b *strings.Builder, cols int) {
	perm := make([]int, cols)
	for i := range perm {
		perm[i] = i
	}
	if r.Intn(3) == 0 {
		perm = r.Perm(cols)
	}
	for _, j := range perm {
		fmt.Fprintf(b, "var %d %d\n", j, t.cats[j])
	}
	seps := []string{" ", ",", ", ", "\t", "  ", " , "}
	sep := seps[r.Intn(len(seps))]
	mix := r.Intn(4) == 0
	eol := "\n"
	if r.Intn(6) == 0 {
		eol = "\r\n"
	}
	trail := ""
	if r.Intn(3) == 0 {
		trail = " "
	}
	for i, row := range t.rows {
		for j := 0; j < cols; j++ {
			if j > 0 {
				s := sep
				if mix {
					s = seps[r.Intn(len(seps))]
				}
				b.WriteString(s)
			}
			fmt.Fprint(b, row[j])
		}
		b.WriteString(trail)
		if i < len(t.rows)-1 || r.Intn(3) > 0 {
			b.WriteString(eol)
		}
	}
}

func write(m *vk.M, name, s string) string {
	f := filepath.Join(m.Tmp(), name)
	if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
		panic(err)
	}
	if len(s) < 1500 {
		m.Note("file:\n%s", s)
	}
	return f
}

func scope(m *vk.M, who string, sc map[int]*learn.Variable, cats []int) {
	m.Check(len(sc) == len(cats), "%s: %d variables, the file declares %d", who, len(sc), len(cats))
	for j, c := range cats {
		v := sc[j]
		if !m.Check(v != nil, "%s: variable %d is missing", who, j) {
			continue
		}
		m.Check(v.Varid == j && v.Categories == c, "%s: variable %d became %+v, declared with %d categories", who, j, *v, c)
	}
}

func rows(m *vk.M, who string, D []map[int]int, want [][]int, cols int) {
	m.Must(len(D) == len(want), "%s: %d instances, the file has %d rows", who, len(D), len(want))
	for i, row := range want {
		m.Check(len(D[i]) == cols, "%s: instance %d has %d values, want %d", who, i, len(D[i]), cols)
		for j := 0; j < cols; j++ {
			x, ok := D[i][j]
			if !m.Check(ok && x == row[j], "%s: instance %d, variable %d is %d (present: %v), the file says %d", who, i, j, x, ok, row[j]) {
				return
			}
		}
	}
	m.Count("rows", len(want))
}

func data(m *vk.M) {
	r := m.R
	t := gen(r, 1)
	m.Note("%v", t)
	var b strings.Builder
	t.body(r, &b, len(t.cats))
	f := write(m, "all.data", b.String())
	sc, D := io.ParseData(f)
	scope(m, "ParseData", sc, t.cats)
	rows(m, "ParseData", D, t.rows, len(t.cats))
	if n := len(t.cats) - 1; n > 0 {
		sc, D, L := io.ParseDataNL(f)
		scope(m, "ParseDataNL", sc, t.cats[:n])
		rows(m, "ParseDataNL", D, t.rows, n)
		m.Must(len(L) == len(t.rows), "ParseDataNL: %d labels for %d rows", len(L), len(t.rows))
		for i, row := range t.rows {
			m.Check(L[i] == row[n], "ParseDataNL: label %d is %d, the file says %d", i, L[i], row[n])
		}
	}
	m.Sig("%s", b.String())
	m.Sample("data file: %v", t)
	os.Remove(f)
}

func evidence(m *vk.M) {
	r := m.R
	t := gen(r, 1)
	m.Note("%v", t)
	var b strings.Builder
	nl := 1 + r.Intn(5)
	if r.Intn(10) == 0 {
		nl = 6 + r.Intn(40)
	}
	var L []int
	fmt.Fprintf(&b, "labels %d", nl)
	for i := 0; i < nl; i++ {
		L = append(L, r.Intn([]int{100, 100, 1000000}[r.Intn(3)]))
		fmt.Fprintf(&b, " %d", L[i])
	}
	b.WriteString("\n")
	t.body(r, &b, len(t.cats))
	f := write(m, "all.data", b.String())
	sc, D, G := io.ParseEvidence(f)
	scope(m, "ParseEvidence", sc, t.cats)
	rows(m, "ParseEvidence", D, t.rows, len(t.cats))
	m.Check(fmt.Sprint(G) == fmt.Sprint(L), "ParseEvidence: labels %v, the file says %v", G, L)
	m.Sig("%s", b.String())
	m.Sample("evidence file: %v, labels %v", t, L)
}

// wide files have rows beyond the usual line limits.
func wide(m *vk.M) {
	r := m.R
	nv := 9000 + r.Intn(30000)
	if m.Idx%4 == 1 {
		nv = 100000 + r.Intn(50000)
	}
	t := &table{}
	for j := 0; j < nv; j++ {
		t.cats = append(t.cats, 256)
	}
	for i := 0; i < 1+r.Intn(3); i++ {
		row := make([]int, nv)
		for j := range row {
			row[j] = r.Intn(256)
		}
		t.rows = append(t.rows, row)
	}
	m.Note("%d variables, %d rows", nv, len(t.rows))
	if r.Intn(3) == 0 {
		var b strings.Builder
		b.WriteString("@relation wide\n")
		for j := 0; j < nv; j++ {
			fmt.Fprintf(&b, "@attribute x%d numeric\n", j)
		}
		b.WriteString("@data\n")
		for _, row := range t.rows {
			for j, x := range row {
				if j > 0 {
					b.WriteString(",")
				}
				fmt.Fprint(&b, x)
			}
			b.WriteString("\n")
		}
		_, _, D, _ := io.ParseArff(write(m, "w.arff", b.String()))
		rows(m, "ParseArff", D, t.rows, nv)
	} else {
		var b strings.Builder
		t.body(r, &b, nv)
		s := b.String()
		f := write(m, "w.data", s)
		sc, D := io.ParseData(f)
		scope(m, "ParseData", sc, t.cats)
		rows(m, "ParseData", D, t.rows, nv)
		_, D, _ = io.ParseDataNL(f)
		rows(m, "ParseDataNL", D, t.rows, nv-1)
		_, D, _ = io.ParseEvidence(write(m, "e.data", "labels 1 0\n"+s))
		rows(m, "ParseEvidence", D, t.rows, nv)
	}
	m.Sig("%d %d", nv, len(t.rows))
}

func key(row []int) string { return fmt.Sprint(row) }

func partition(m *vk.M) {
	r := m.R
	t := gen(r, 2)
	n := len(t.cats) - 1
	m.Note("%v", t)
	var b strings.Builder
	t.body(r, &b, len(t.cats))
	f := write(m, "all.data", b.String())
	p := []float64{0, 0.1, 0.25, 0.5, 0.7, 0.75, 0.9, 1}[r.Intn(8)]
	if r.Intn(4) == 0 {
		p = r.Float64()
	}
	seed := int64(-1)
	if r.Intn(2) == 0 {
		seed = r.Int63n(1000)
	}
	m.Note("p=%v seed=%d", p, seed)
	for k := 0; k < 2; k++ {
		sc, train, test, L := io.ParsePartitionedData(f, p, seed)
		scope(m, "ParsePartitionedData", sc, t.cats)
		m.Check(len(train)+len(test) == len(t.rows), "split of %d rows into %d and %d", len(t.rows), len(train), len(test))
		m.Check(math.Abs(float64(len(train))-p*float64(len(t.rows))) < 1+1e-9, "training part of %d rows out of %d at proportion %v", len(train), len(t.rows), p)
		m.Must(len(L) == len(test), "%d labels for %d test rows", len(L), len(test))
		var got, want []string
		for i, I := range train {
			row := make([]int, len(t.cats))
			m.Check(len(I) == len(t.cats), "training instance %d has %d values", i, len(I))
			for j := range row {
				row[j] = I[j]
			}
			got = append(got, key(row))
		}
		for i, I := range test {
			row := make([]int, len(t.cats))
			_, has := I[n]
			m.Check(len(I) == n && !has, "test instance %d is %v: its label was not removed", i, I)
			for j := 0; j < n; j++ {
				row[j] = I[j]
			}
			row[n] = L[i]
			got = append(got, key(row))
		}
		// The training rows keep the order of the file.
		pos := 0
		for i := range train {
			for pos < len(t.rows) && key(t.rows[pos]) != got[i] {
				pos++
			}
			m.Check(pos < len(t.rows), "training rows are not a subsequence of the file")
			pos++
		}
		for _, row := range t.rows {
			want = append(want, key(row))
		}
		sort.Strings(got)
		sort.Strings(want)
		m.Check(strings.Join(got, ";") == strings.Join(want, ";"), "training and test parts together are %v, the file is %v", got, want)
		m.Count("splits", 1)
	}
	m.Sig("%v %v %d", t, p, seed)
	m.Sample("split at %v: %v", p, t)
}

// seeded splits the same file with the same seed in two fresh processes.
func seeded(m *vk.M) {
	r := m.R
	t := gen(r, 2)
	if r.Intn(2) == 0 {
		for len(t.rows) < 30 {
			row := make([]int, len(t.cats))
			for j := range row {
				row[j] = r.Intn(t.cats[j])
			}
			t.rows = append(t.rows, row)
		}
	}
	var b strings.Builder
	t.body(r, &b, len(t.cats))
	f := write(m, "all.data", b.String())
	seed := []int64{0, 1, r.Int63n(1000), r.Int63()}[m.Idx%4]
	p := 0.2 + 0.6*r.Float64()
	var out [2]string
	for k := range out {
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SPLIT=%v,%d,%s", p, seed, f))
		raw, err := cmd.Output()
		m.Must(err == nil, "the split with seed %d failed: %v", seed, err)
		out[k] = string(raw)
	}
	m.Check(out[0] == out[1], "two splits with seed %d differ:\n%s\n%s", seed, out[0], out[1])
	m.Count("seeded_splits", 1)
	m.Sig("%v %d %v", t, seed, p)
}

func split(arg string) {
	a := strings.SplitN(arg, ",", 3)
	p, _ := strconv.ParseFloat(a[0], 64)
	seed, _ := strconv.ParseInt(a[1], 10, 64)
	_, train, test, L := io.ParsePartitionedData(a[2], p, seed)
	fmt.Println(train, test, L)
}

func cased(r *rand.Rand, s string) string {
	switch r.Intn(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:2]) + s[2:]
	}
	return s
}

func word(r *rand.Rand, taken map[string]bool) string {
	for {
		var s string
		most := 6
		if r.Intn(40) == 0 {
			most = 80
		}
		for i, n := 0, 1+r.Intn(most); i < n; i++ {
			a := "abcdefghijklmnopqrstuvwxyzABCDEF0123456789_-.:<>=+%@#;/*"
			if i == 0 { // not a comment
				a = a[:50]
			}
			if s += string(a[r.Intn(len(a))]); r.Intn(60) == 0 {
				s += string([]rune("éßñ中Ж€")[r.Intn(6)])
			}
		}
		if r.Intn(30) == 0 { // words of the format
			s = []string{"numeric", "string", "NUMERIC", "String", "stringy", "numeric2", "class", "real", "data", "relation",
				"attribute", "true", "0", "1", "10", "x@data", "var"}[r.Intn(17)]
		}
		if taken[s] {
			continue
		}
		taken[s] = true
		return s
	}
}

func arff(m *vk.M) {
	r := m.R
	nv, n := 1+r.Intn(6), 1+r.Intn(10)
	many := 5
	switch r.Intn(40) {
	case 0:
		n = 200 + r.Intn(1500)
	case 1:
		nv = 7 + r.Intn(80)
	case 2:
		many, n = 160, 100+r.Intn(300)
	}
	var b strings.Builder
	noise := func() {
		for r.Intn(4) == 0 {
			switch r.Intn(3) {
			case 0:
				b.WriteString("% a comment, with @data {x,y} in it\n")
			case 1:
				b.WriteString("\n")
			case 2:
				b.WriteString("%\n")
			}
		}
	}
	noise()
	rel := word(r, map[string]bool{})
	fmt.Fprintf(&b, "%s %s\n", cased(r, "@relation"), rel)
	names := map[string]bool{}
	var name []string
	kind := make([]string, nv)
	vals := make([][]string, nv)
	for j := 0; j < nv; j++ {
		noise()
		x := word(r, names)
		name = append(name, x)
		blank := []string{" ", "\t", "  "}[r.Intn(3)]
		switch r.Intn(3) {
		case 0:
			kind[j] = "numeric"
			fmt.Fprintf(&b, "%s%s%s%s%s\n", cased(r, "@attribute"), blank, x, blank, cased(r, "numeric"))
		case 1:
			kind[j] = "string"
			fmt.Fprintf(&b, "%s%s%s%s%s\n", cased(r, "@attribute"), blank, x, blank, cased(r, "string"))
			taken := map[string]bool{}
			for k, e := 0, 1+r.Intn(many); k < e; k++ {
				vals[j] = append(vals[j], word(r, taken))
			}
		case 2:
			kind[j] = "class"
			taken := map[string]bool{}
			for k, e := 0, 1+r.Intn(many); k < e; k++ {
				vals[j] = append(vals[j], word(r, taken))
			}
			sep := []string{",", ", ", " , "}[r.Intn(3)]
			pad := []string{"", " "}[r.Intn(2)]
			fmt.Fprintf(&b, "%s%s%s%s{%s%s%s}\n", cased(r, "@attribute"), blank, x, blank, pad, strings.Join(vals[j], sep), pad)
		}
	}
	noise()
	fmt.Fprintf(&b, "%s\n", cased(r, "@data"))
	var tok [][]string
	max := make([]int, nv)
	sep := []string{",", ", ", " "}[r.Intn(3)]
	for i := 0; i < n; i++ {
		noise()
		var row []string
		for j := 0; j < nv; j++ {
			if kind[j] == "numeric" {
				x := r.Intn([]int{2, 5, 300, 5000000}[r.Intn(6)%4])
				if x > max[j] {
					max[j] = x
				}
				row = append(row, fmt.Sprint(x))
			} else {
				row = append(row, vals[j][r.Intn(len(vals[j]))])
			}
		}
		if strings.HasPrefix(row[0], "%") {
			row[0] = "x" + row[0]
		}
		tok = append(tok, row)
		b.WriteString(strings.Join(row, sep))
		if i < n-1 || r.Intn(3) > 0 {
			b.WriteString([]string{"\n", "\r\n"}[r.Intn(2)])
			if i == n-1 && r.Intn(3) == 0 {
				b.WriteString("\n")
			}
		}
	}
	f := write(m, "x.arff", b.String())
	gname, sc, D, lab := io.ParseArff(f)
	m.Check(gname == rel, "relation %q, the file says %q", gname, rel)
	m.Check(len(sc) == nv, "%d variables, the file declares %d", len(sc), nv)
	m.Must(len(D) == n, "%d instances, the file has %d rows", len(D), n)
	for j := 0; j < nv; j++ {
		v := sc[j]
		m.Must(v != nil, "variable %d is missing", j)
		m.Check(v.Varid == j && v.Name == name[j], "variable %d became %+v, named %q in the file", j, *v, name[j])
		seen := map[string]bool{}
		for i := range tok {
			seen[tok[i][j]] = true
		}
		switch kind[j] {
		case "numeric":
			m.Check(v.Categories == max[j]+1, "numeric variable %d has %d categories, its largest value is %d", j, v.Categories, max[j])
			_, has := lab[j]
			m.Check(!has, "numeric variable %d has labels", j)
		case "string":
			m.Check(v.Categories == len(seen), "string variable %d has %d categories, %d strings occur", j, v.Categories, len(seen))
			m.Check(len(lab[j]) == len(seen), "string variable %d has labels %v, %d strings occur", j, lab[j], len(seen))
		case "class":
			m.Check(v.Categories == len(vals[j]), "class variable %d has %d categories, %d are declared", j, v.Categories, len(vals[j]))
			m.Check(len(lab[j]) == len(vals[j]), "class variable %d has labels %v, declared %v", j, lab[j], vals[j])
			for _, s := range vals[j] {
				_, ok := lab[j][s]
				m.Check(ok, "class variable %d: no category for %q", j, s)
			}
		}
		inv := map[int]string{}
		for s, k := range lab[j] {
			o, dup := inv[k]
			m.Check(!dup, "variable %d: %q and %q share category %d", j, s, o, k)
			inv[k] = s
			m.Check(k >= 0 && k < v.Categories, "variable %d: %q has category %d of %d", j, s, k, v.Categories)
		}
		for i := range tok {
			x, ok := D[i][j]
			m.Check(ok, "instance %d has no value for variable %d", i, j)
			if kind[j] == "numeric" {
				m.Check(fmt.Sprint(x) == tok[i][j], "instance %d, variable %d is %d, the file says %s", i, j, x, tok[i][j])
			} else {
				m.Check(inv[x] == tok[i][j], "instance %d, variable %d is %d, standing for %q, the file says %q", i, j, x, inv[x], tok[i][j])
			}
			m.Check(len(D[i]) == nv, "instance %d has %d values", i, len(D[i]))
		}
	}
	m.Count("arff_rows", n)
	m.Sig("%s", b.String())
	m.Sample("ARFF of %d rows over %v", n, kind)
}

// convert turns nominal ARFF files into data files.
func convert(m *vk.M) {
	r := m.R
	nv, n := 1+r.Intn(6), 1+r.Intn(10)
	many := 5
	switch r.Intn(40) {
	case 0:
		nv = 100 + r.Intn(60)
	case 1:
		many, n = 150, 50+r.Intn(300)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "@relation %s\n", word(r, map[string]bool{}))
	names := map[string]bool{}
	vals := make([][]string, nv)
	t := &table{}
	for j := 0; j < nv; j++ {
		if r.Intn(3) == 0 {
			b.WriteString("\n")
		}
		taken := map[string]bool{}
		for k, e := 0, 1+r.Intn(many); k < e; k++ {
			vals[j] = append(vals[j], word(r, taken))
		}
		t.cats = append(t.cats, len(vals[j]))
		fmt.Fprintf(&b, "@attribute %s {%s}\n", word(r, names), strings.Join(vals[j], ","))
	}
	b.WriteString("@data\n")
	for i := 0; i < n; i++ {
		var row []int
		var s []string
		for j := 0; j < nv; j++ {
			x := r.Intn(len(vals[j]))
			row = append(row, x)
			s = append(s, vals[j][x])
		}
		t.rows = append(t.rows, row)
		b.WriteString(strings.Join(s, ",") + "\n")
	}
	f := write(m, "x.arff", b.String())
	io.ARFFToData(filepath.Dir(f), "x.arff", "x.data")
	o := filepath.Join(filepath.Dir(f), "compiled", "x.data")
	raw, err := os.ReadFile(o)
	m.Must(err == nil, "ARFFToData wrote no file: %v", err)
	lines := strings.Split(strings.TrimRight(string(raw), "\n"), "\n")
	m.Must(len(lines) == nv+n, "ARFFToData wrote %d lines for %d variables and %d instances", len(lines), nv, n)
	for i, row := range t.rows {
		m.Check(strings.Join(strings.Fields(lines[nv+i]), " ") == strings.Trim(fmt.Sprint(row), "[]"), "ARFFToData: instance %d became %q, want %v", i, lines[nv+i], row)
	}
	sc, D := io.ParseData(o)
	scope(m, "ARFFToData", sc, t.cats)
	rows(m, "ARFFToData", D, t.rows, nv)
	m.Sig("%s", b.String())
}

func main() {
	if a := os.Getenv("VERIF_SPLIT"); a != "" {
		split(a)
		return
	}
	vk.Main(&vk.Prop{
		ID:   "C20",
		Rule: "random .data, evidence and ARFF files rendered from a known table in random layouts (blank, tab and comma separators, mixed; CRLF; trailing blanks; missing final newline; declarations in any order; ARFF comments and blank lines anywhere, any letter case, numeric/string/class attributes with punctuation), rows over 64 KB, random splits at all proportions with and without seed, splits with the same seed in fresh processes, nominal ARFF conversion; what is returned is compared with the table cell by cell; distinct by file",
		Assumptions: []string{
			"files have at least one row; .data columns are variables 0..n-1 and rows start with a value; ARFF values hold no blanks or commas; converted ARFF files are nominal",
		},
		Workloads: []vk.Workload{
			{Name: "data", Quick: 6000, Thorough: 60000, F: data},
			{Name: "evidence", Quick: 4000, Thorough: 40000, F: evidence},
			{Name: "wide", Quick: 24, Thorough: 300, F: wide},
			{Name: "partition", Quick: 6000, Thorough: 60000, F: partition},
			{Name: "seeded", Quick: 80, Thorough: 1000, F: seeded},
			{Name: "arff", Quick: 8000, Thorough: 80000, F: arff},
			{Name: "convert", Quick: 3000, Thorough: 20000, F: convert},
		},
	})
}
