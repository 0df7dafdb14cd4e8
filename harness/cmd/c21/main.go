// C21: integer npy matrices are read faithfully.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/vk"

	"github.com/RenatoGeh/gospn/io"
)

type dtype struct {
	descr string
	size  int
	sign  bool
	big   bool
}

var types = []dtype{
	{"|u1", 1, false, false}, {"<u1", 1, false, false}, {"u1", 1, false, false}, {"uint8", 1, false, false},
	{"<u2", 2, false, false}, {">u2", 2, false, true}, {"uint16", 2, false, false},
	{"<u4", 4, false, false}, {">u4", 4, false, true}, {"uint32", 4, false, false},
	{"<u8", 8, false, false}, {">u8", 8, false, true}, {"uint64", 8, false, false},
	{"|i1", 1, true, false}, {"<i1", 1, true, false}, {"i1", 1, true, false}, {"int8", 1, true, false},
	{"<i2", 2, true, false}, {">i2", 2, true, true}, {"int16", 2, true, false},
	{"<i4", 4, true, false}, {">i4", 4, true, true}, {"int32", 4, true, false},
	{"<i8", 8, true, false}, {">i8", 8, true, true}, {"int64", 8, true, false},
	{"u2", 2, false, false}, {"u4", 4, false, false}, {"u8", 8, false, false},
	{"i2", 2, true, false}, {"i4", 4, true, false}, {"i8", 8, true, false},
}

func header(descr string, fortran bool, shape string, major int) []byte {
	f := "False"
	if fortran {
		f = "True"
	}
	d := fmt.Sprintf("{'descr': '%s', 'fortran_order': %s, 'shape': %s, }", descr, f, shape)
	pre := 10
	if major == 2 {
		pre = 12
	}
	for (pre+len(d)+1)%64 != 0 {
		d += " "
	}
	d += "\n"
	var b bytes.Buffer
	b.WriteString("\x93NUMPY")
	b.WriteByte(byte(major))
	b.WriteByte(0)
	if major == 2 {
		binary.Write(&b, binary.LittleEndian, uint32(len(d)))
	} else {
		binary.Write(&b, binary.LittleEndian, uint16(len(d)))
	}
	b.WriteString(d)
	return b.Bytes()
}

func (t dtype) put(b *bytes.Buffer, x int) {
	var o [8]byte
	for i := 0; i < t.size; i++ {
		k := i
		if t.big {
			k = t.size - 1 - i
		}
		o[k] = byte(uint64(x) >> (8 * uint(i)))
	}
	b.Write(o[:t.size])
}

type file struct {
	rows [][]int
	cols int
	t    dtype
	path string
}

// gen writes a random matrix; labels lie in 0..classes-1.
func gen(m *vk.M, classes int) *file {
	r := m.R
	f := &file{t: types[m.Idx%len(types)], cols: 1 + r.Intn(6)}
	n := r.Intn(15)
	if r.Intn(10) == 0 {
		n = 100 + r.Intn(300)
	}
	if r.Intn(150) == 0 {
		n = 1000 + r.Intn(9000)
	}
	if r.Intn(12) == 0 {
		f.cols = 50 + r.Intn(200)
		if r.Intn(5) == 0 {
			f.cols *= 4
		}
	}
	turn, perm := classes > 0 && r.Intn(3) == 0, []int(nil) // all classes in turn
	if classes > 40 {
		n, turn = classes*(1+r.Intn(4)), true
	}
	bits := uint(8 * f.t.size)
	if f.t.size == 8 || f.t.sign {
		bits--
	}
	for i := 0; i < n; i++ {
		row := make([]int, f.cols)
		for j := range row {
			x := int(r.Int63()) & (1<<bits - 1)
			switch r.Intn(6) {
			case 0:
				x = 1<<bits - 1
			case 1:
				x = r.Intn(4)
			case 2:
				x = 1 << uint(r.Intn(int(bits)))
			}
			if f.t.sign && r.Intn(2) == 0 {
				x = -x - 1
			}
			row[j] = x
		}
		if classes > 0 {
			row[f.cols-1] = r.Intn(classes)
			if turn {
				if i%classes == 0 {
					perm = r.Perm(classes)
				}
				row[f.cols-1] = perm[i%classes]
			}
		}
		f.rows = append(f.rows, row)
	}
	major := 1
	if r.Intn(4) == 0 {
		major = 2
	}
	var b bytes.Buffer
	b.Write(header(f.t.descr, false, fmt.Sprintf("(%d, %d)", n, f.cols), major))
	for _, row := range f.rows {
		for _, x := range row {
			f.t.put(&b, x)
		}
	}
	f.path = filepath.Join(m.Tmp(), "x.npy")
	if err := os.WriteFile(f.path, b.Bytes(), 0o644); err != nil {
		panic(err)
	}
	m.Note("type %s, %d rows of %d columns", f.t.descr, n, f.cols)
	if n*f.cols <= 100 {
		m.Note("rows %v", f.rows)
	}
	return f
}

func (f *file) same(m *vk.M, who string, i int, I map[int]int, l int) {
	row := f.rows[i]
	m.Check(len(I) == f.cols-1, "%s: row %d has %d values, want %d", who, i, len(I), f.cols-1)
	for j := 0; j < f.cols-1; j++ {
		x, ok := I[j]
		if !m.Check(ok && x == row[j], "%s: row %d, column %d is %d (present: %v), the file says %d", who, i, j, x, ok, row[j]) {
			return
		}
	}
	m.Check(l == row[f.cols-1], "%s: label of row %d is %d, the file says %d", who, i, l, row[f.cols-1])
	m.Count("rows", 1)
}

func open(m *vk.M, f *file) *io.NpyReader {
	r, err := io.NewNpyReader(f.path)
	m.Must(err == nil && r != nil, "NewNpyReader rejected a matrix of type %s: %v", f.t.descr, err)
	return r
}

// reads is a history of reads and resets.
func reads(m *vk.M) {
	f := gen(m, 0)
	rd := open(m, f)
	defer rd.Close()
	n, pos := len(f.rows), 0
	var hist []string
	for s, steps := 0, 2+m.R.Intn(8); s < steps; s++ {
		switch op := m.R.Intn(8); {
		case op == 0:
			hist = append(hist, "Reset")
			m.Must(rd.Reset() == nil, "%v failed", hist)
			pos = 0
		case op == 1 && pos == 0:
			hist = append(hist, "ReadAll")
			D, L, err := rd.ReadAll()
			m.Must(err == nil, "%v: %v", hist, err)
			m.Must(len(D) == n && len(L) == n, "%v: %d instances and %d labels of %d rows", hist, len(D), len(L), n)
			for i := range D {
				f.same(m, fmt.Sprint(hist), i, D[i], L[i])
			}
			pos = n
		default:
			k := m.R.Intn(n - pos + 1)
			if m.R.Intn(3) == 0 && k > 3 {
				k = 3
			}
			if m.R.Intn(10) == 0 {
				k = n - pos + 1 + m.R.Intn(3)
			}
			hist = append(hist, fmt.Sprintf("Read(%d)", k))
			D, L, err := rd.Read(k)
			if k > n-pos {
				m.Check(err != nil, "%v: %d rows were left, yet %d were returned", hist, n-pos, len(D))
				m.Count("overreads", 1)
				if m.R.Intn(2) == 0 {
					continue // what is left can still be read
				}
				hist = append(hist, "Reset")
				m.Must(rd.Reset() == nil, "%v failed", hist)
				pos = 0
				continue
			}
			m.Must(err == nil, "%v: %v", hist, err)
			m.Must(len(D) == k && len(L) == k, "%v: %d instances and %d labels", hist, len(D), len(L))
			for i := range D {
				f.same(m, fmt.Sprint(hist), pos+i, D[i], L[i])
			}
			pos += k
		}
	}
	hist = append(hist, "Reset", "ReadAll")
	m.Must(rd.Reset() == nil, "%v failed", hist)
	D, L, err := rd.ReadAll()
	m.Must(err == nil && len(D) == n && len(L) == n, "%v: %d instances and %d labels of %d rows, error %v", hist, len(D), len(L), n, err)
	for i := range D {
		f.same(m, fmt.Sprint(hist), i, D[i], L[i])
	}
	m.Sig("%s %v %v", f.t.descr, f.rows, hist)
	m.Sample("%s, %dx%d: %v", f.t.descr, n, f.cols, hist)
}

func balanced(m *vk.M) {
	classes := 1 + m.R.Intn(5)
	if m.R.Intn(10) == 0 {
		classes = 1 + m.R.Intn(40)
	} else if m.R.Intn(20) == 0 {
		classes = 41 + m.R.Intn(87)
		if t := types[m.Idx%len(types)]; t.size > 1 {
			classes = 100 + m.R.Intn(400)
		} else if !t.sign {
			classes = 128 + m.R.Intn(129)
		}
	}
	f := gen(m, classes)
	rd := open(m, f)
	defer rd.Close()
	pos := 0
	var hist []string
	for s := 0; s < 1+m.R.Intn(3); s++ {
		k := m.R.Intn(len(f.rows) + 2)
		if m.R.Intn(2) == 0 {
			k = m.R.Intn(len(f.rows)/2 + 1)
		}
		hist = append(hist, fmt.Sprintf("ReadBalanced(%d, %d)", k, classes))
		quota := make([]int, classes)
		for c := range quota {
			quota[c] = k / classes
			if c < k%classes {
				quota[c]++
			}
		}
		// The rows wanted: greedily, in order.
		var want []int
		left := append([]int{}, quota...)
		p := pos
		for ; p < len(f.rows) && len(want) < k; p++ {
			if l := f.rows[p][f.cols-1]; left[l] > 0 {
				left[l]--
				want = append(want, p)
			}
		}
		D, L, err := rd.ReadBalanced(k, classes)
		if len(want) < k {
			m.Check(err != nil, "%v: the file has too few rows, yet %d were returned", hist, len(D))
			m.Count("short_files", 1)
			m.Must(rd.Reset() == nil, "Reset failed")
			hist = append(hist, "Reset")
			pos = 0
			continue
		}
		m.Must(err == nil, "%v: %v", hist, err)
		m.Must(len(D) == k && len(L) == k, "%v: %d instances and %d labels", hist, len(D), len(L))
		got := make([]int, classes)
		for i := range D {
			m.Must(L[i] >= 0 && L[i] < classes, "%v: label %d", hist, L[i])
			got[L[i]]++
			f.same(m, fmt.Sprint(hist), want[i], D[i], L[i])
		}
		m.Check(fmt.Sprint(got) == fmt.Sprint(quota), "%v: %v rows per class, want %v", hist, got, quota)
		pos = p
		m.Count("balanced_reads", 1)
		if m.R.Intn(3) == 0 { // plain reads in between
			k := m.R.Intn(min(len(f.rows)-pos, 5) + 1)
			hist = append(hist, fmt.Sprintf("Read(%d)", k))
			D, L, err := rd.Read(k)
			m.Must(err == nil && len(D) == k && len(L) == k, "%v: %d instances and %d labels, error %v", hist, len(D), len(L), err)
			for i := range D {
				f.same(m, fmt.Sprint(hist), pos+i, D[i], L[i])
			}
			pos += k
		}
	}
	m.Sig("%s %v %v", f.t.descr, f.rows, hist)
	m.Sample("%s, %dx%d: %v", f.t.descr, len(f.rows), f.cols, hist)
}

// rejects are files that are no integer matrices.
func rejects(m *vk.M) {
	r := m.R
	var b []byte
	what := ""
	switch m.Idx % 6 {
	case 0:
		d := []string{"<f4", "<f8", ">f8", "<f2", "|b1", "<c16", "|S5", "<U3", "<M8[ns]", "|O"}[r.Intn(10)]
		what = d
		b = append(header(d, false, "(3, 2)", 1), make([]byte, 96)...)
	case 1:
		s := []string{"()", "(6,)", "(1, 2, 3)", "(2, 3, 1)", "(1, 1, 1, 6)"}[r.Intn(5)]
		what = "shape " + s
		b = append(header(types[r.Intn(len(types))].descr, false, s, 1), make([]byte, 96)...)
	case 2:
		what = "no npy file"
		b = make([]byte, r.Intn(200))
		r.Read(b)
		if bytes.HasPrefix(b, []byte("\x93NUMPY")) {
			return
		}
	case 3:
		what = "Fortran order"
		b = append(header(types[r.Intn(len(types))].descr, true, "(3, 2)", 1), make([]byte, 96)...)
	case 4:
		what = "text"
		b = []byte(strings.Repeat("1 2 3\n", r.Intn(5)))
	case 5:
		what = "missing"
	}
	p := filepath.Join(m.Tmp(), "x.npy")
	if what != "missing" {
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
	}
	m.Note("%s", what)
	rd, err := io.NewNpyReader(p)
	m.Check(err != nil, "a file that is no row-wise integer matrix (%s) was accepted", what)
	m.Check(rd == nil || err == nil, "both a reader and an error for %s", what)
	m.Count("rejected", 1)
	m.Sig("%s %v", what, b)
}

func main() {
	var ds []string
	for _, t := range types {
		ds = append(ds, t.descr)
	}
	sort.Strings(ds)
	vk.Main(&vk.Prop{
		ID:   "C21",
		Rule: "random matrices (0..400 rows, 1..250 columns, extreme and random values) written in npy format 1 and 2 by an independent encoder, cycling through the types " + strings.Join(ds, " ") + "; histories of Read, ReadAll, Reset and over-reads, and of ReadBalanced with sufficient and insufficient classes, compared row by row; files of other types, shapes, orders and formats; distinct by content and history",
		Assumptions: []string{
			"files are complete and their values fit an int; balanced reads are given the number of classes of the file",
		},
		Workloads: []vk.Workload{
			{Name: "reads", Quick: 10000, Thorough: 100000, F: reads},
			{Name: "balanced", Quick: 8000, Thorough: 60000, F: balanced},
			{Name: "rejects", Quick: 2400, Thorough: 12000, F: rejects},
		},
	})
}
