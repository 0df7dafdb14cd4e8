// C22: image conversion and image output preserve every pixel.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/io"
)

// folder is a set of images grouped in classes.
type folder struct {
	dir     string
	w, h    int
	max     int
	classes [][][]int // class, image, pixel
	where   map[string][2]int
	total   int
}

func key(px []int) string { return strings.Trim(fmt.Sprint(px), "[]") }

// render writes one plain image in a random layout.
func render(r *rand.Rand, f *folder, px []int, pbm bool) string {
	var b strings.Builder
	if pbm {
		fmt.Fprintf(&b, "P1\n%d %d\n", f.w, f.h)
	} else {
		fmt.Fprintf(&b, "P2\n%d %d\n%d\n", f.w, f.h, f.max)
	}
	per := []int{1, f.w, f.w, 7, len(px)}[r.Intn(5)]
	sep := []string{" ", " ", "  ", "\t"}[r.Intn(4)]
	if pbm {
		sep = []string{"", "", " "}[r.Intn(3)]
	}
	trail := []string{"", "", " "}[r.Intn(3)]
	eol := "\n"
	if r.Intn(8) == 0 {
		eol = "\r\n"
	}
	for i, x := range px {
		if i > 0 {
			if i%per == 0 {
				b.WriteString(trail + eol)
			} else {
				b.WriteString(sep)
			}
		}
		fmt.Fprint(&b, x)
	}
	if r.Intn(4) > 0 {
		b.WriteString(eol)
	}
	return b.String()
}

func gen(m *vk.M, pbm bool) *folder {
	r := m.R
	f := &folder{dir: m.Tmp(), w: 1 + r.Intn(6), h: 1 + r.Intn(6), where: map[string][2]int{}}
	if r.Intn(10) == 0 {
		f.w, f.h = 10+r.Intn(20), 10+r.Intn(20)
	}
	for f.w*f.h < 4 {
		f.w++
	}
	f.max = []int{1, 3, 15, 255, 1000, 65535}[r.Intn(6)]
	if pbm {
		f.max = 1
	}
	nc := 1 + r.Intn(4)
	same := r.Intn(3) == 0
	most := 5
	switch r.Intn(30) {
	case 0:
		nc = 5 + r.Intn(12)
		if r.Intn(4) == 0 {
			nc, most = 20+r.Intn(60), 3
		}
	case 1:
		most = 40
		if f.w*f.h < 40 && r.Intn(2) == 0 {
			nc, most = 1+r.Intn(2), 300
		}
	case 2:
		switch f.w, f.h = 30+r.Intn(60), 30+r.Intn(60); r.Intn(3) {
		case 0:
			f.w, f.h = 100+r.Intn(300), 1+r.Intn(20)
		case 1:
			f.w, f.h = f.h, f.w
		}
	}
	k := 1 + r.Intn(most)
	names := rand.New(rand.NewSource(r.Int63())).Perm(100)
	for c := 0; c < nc; c++ {
		if !same {
			k = 1 + r.Intn(most)
		}
		sub := filepath.Join(f.dir, fmt.Sprintf("class%d", names[c]))
		if err := os.Mkdir(sub, 0o755); err != nil {
			panic(err)
		}
		var imgs [][]int
		for i := 0; i < k; i++ {
			px := make([]int, f.w*f.h)
			for t := 0; t < 50; t++ {
				for j := range px {
					px[j] = r.Intn(f.max + 1)
				}
				if _, dup := f.where[key(px)]; !dup {
					break
				}
			}
			if _, dup := f.where[key(px)]; dup {
				continue
			}
			f.where[key(px)] = [2]int{c, i}
			imgs = append(imgs, px)
			f.total++
			if err := os.WriteFile(filepath.Join(sub, fmt.Sprintf("img%d.%d", r.Intn(1000), i)), []byte(render(r, f, px, pbm)), 0o644); err != nil {
				panic(err)
			}
		}
		f.classes = append(f.classes, imgs)
	}
	if f.total == 0 {
		panic("no images")
	}
	// Things that are no classes.
	for i, k := 0, r.Intn(4)*(1+r.Intn(3)); i < k; i++ {
		os.WriteFile(filepath.Join(f.dir, fmt.Sprintf("%c_note%d.txt", 'a'+r.Intn(26), i)), []byte("x"), 0o644)
	}
	if r.Intn(2) == 0 {
		os.Mkdir(filepath.Join(f.dir, "compiled"), 0o755)
		os.WriteFile(filepath.Join(f.dir, "compiled", "old.data"), []byte("x"), 0o644)
	}
	m.Note("%dx%d, max %d, %d classes, %d images", f.w, f.h, f.max, nc, f.total)
	return f
}

// parsed is a data or evidence file, read independently.
type parsed struct {
	labels []int
	cats   []int
	rows   [][]int
}

func read(m *vk.M, who, path string) *parsed {
	raw, err := os.ReadFile(path)
	m.Must(err == nil, "%s wrote no file: %v", who, err)
	p := &parsed{}
	m.Must(strings.HasSuffix(string(raw), "\n"), "%s: the file does not end in a complete line", who)
	for i, line := range strings.Split(strings.TrimSuffix(string(raw), "\n"), "\n") {
		t := strings.Fields(line)
		m.Must(len(t) > 0, "%s: line %d is empty", who, i)
		num := func(s string) int {
			x, err := strconv.Atoi(s)
			m.Must(err == nil, "%s: line %d: %q is no number", who, i, s)
			return x
		}
		switch t[0] {
		case "labels":
			m.Must(i == 0 && len(t) > 1, "%s: line %d: labels", who, i)
			n := num(t[1])
			m.Must(len(t) == n+2, "%s: %d labels announced, %d given", who, n, len(t)-2)
			for _, s := range t[2:] {
				p.labels = append(p.labels, num(s))
			}
		case "var":
			m.Must(len(t) == 3 && len(p.rows) == 0, "%s: line %d: %q", who, i, line)
			m.Must(num(t[1]) == len(p.cats), "%s: line %d declares variable %s, want %d", who, i, t[1], len(p.cats))
			p.cats = append(p.cats, num(t[2]))
		default:
			var row []int
			for _, s := range t {
				row = append(row, num(s))
			}
			p.rows = append(p.rows, row)
		}
	}
	return p
}

func (f *folder) vars(m *vk.M, who string, p *parsed, label bool) {
	n := f.w * f.h
	want := n
	if label {
		want++
	}
	m.Must(len(p.cats) == want, "%s: %d variables declared, want %d", who, len(p.cats), want)
	for j := 0; j < n; j++ {
		m.Check(p.cats[j] == f.max+1, "%s: pixel %d has %d categories, want %d", who, j, p.cats[j], f.max+1)
	}
	if label {
		m.Check(p.cats[n] == len(f.classes), "%s: the label has %d categories, want %d", who, p.cats[n], len(f.classes))
	}
}

// rows checks that every image occurs once; it returns the class of every row.
func (f *folder) rows(m *vk.M, who string, p *parsed, extra int) []int {
	n := f.w * f.h
	m.Check(len(p.rows) == f.total, "%s: %d rows for %d images", who, len(p.rows), f.total)
	seen := map[string]bool{}
	var cl []int
	for i, row := range p.rows {
		m.Must(len(row) == n+extra, "%s: row %d has %d values, want %d", who, i, len(row), n+extra)
		k := key(row[:n])
		w, ok := f.where[k]
		m.Must(ok, "%s: row %d is none of the images: %v", who, i, row)
		m.Check(!seen[k], "%s: image %v occurs twice", who, w)
		seen[k] = true
		cl = append(cl, w[0])
	}
	m.Count("images", len(p.rows))
	return cl
}

func (f *folder) labels(m *vk.M, who string, p *parsed, cl []int) {
	n := f.w * f.h
	to, from := map[int]int{}, map[int]int{}
	for i, c := range cl {
		l := p.rows[i][n]
		m.Check(l >= 0 && l < len(f.classes), "%s: label %d of %d classes", who, l, len(f.classes))
		if o, ok := to[c]; ok {
			m.Check(o == l, "%s: images of one folder have labels %d and %d", who, o, l)
		}
		if o, ok := from[l]; ok {
			m.Check(o == c, "%s: images of two folders share label %d", who, l)
		}
		to[c], from[l] = l, c
	}
}

// starts checks that classes are contiguous and start where the labels say.
func (f *folder) starts(m *vk.M, who string, p *parsed, cl []int) {
	m.Must(len(p.labels) == len(f.classes), "%s: %d classes announced, want %d", who, len(p.labels), len(f.classes))
	var st []int
	seen := map[int]bool{}
	for i, c := range cl {
		if i == 0 || cl[i-1] != c {
			m.Check(!seen[c], "%s: the images of a class are not contiguous: %v", who, cl)
			seen[c] = true
			st = append(st, i)
		}
	}
	empty := 0
	for _, c := range f.classes {
		if len(c) == 0 {
			empty++
		}
	}
	if empty == 0 {
		m.Check(fmt.Sprint(p.labels) == fmt.Sprint(st), "%s: classes announced at %v, they start at %v", who, p.labels, st)
	}
}

// inAnyOrder runs the conversions of one folder in random order: each may come first, and find
// no output folder.
func inAnyOrder(m *vk.M, fs []func()) {
	for _, i := range m.R.Perm(len(fs)) {
		fs[i]()
	}
}

func pgm(m *vk.M) {
	f := gen(m, false)
	out := filepath.Join(f.dir, "compiled")
	dims := func(who string, w, h, max int) {
		m.Check(w == f.w && h == f.h && max == f.max, "%s returned %dx%d max %d, want %dx%d max %d", who, w, h, max, f.w, f.h, f.max)
	}
	inAnyOrder(m, []func(){
		func() {
			w, h, max := io.PGMFToData(f.dir, "all.data")
			dims("PGMFToData", w, h, max)
			p := read(m, "PGMFToData", filepath.Join(out, "all.data"))
			f.vars(m, "PGMFToData", p, true)
			f.labels(m, "PGMFToData", p, f.rows(m, "PGMFToData", p, 1))
		},
		func() {
			w, h, max := io.PGMFToEvidence(f.dir, "all.evid")
			dims("PGMFToEvidence", w, h, max)
			p := read(m, "PGMFToEvidence", filepath.Join(out, "all.evid"))
			f.vars(m, "PGMFToEvidence", p, false)
			f.starts(m, "PGMFToEvidence", p, f.rows(m, "PGMFToEvidence", p, 0))
		},
		func() {
			w, h, max := io.BufferedPGMFToData(f.dir, "buf.data")
			dims("BufferedPGMFToData", w, h, max)
			p := read(m, "BufferedPGMFToData", filepath.Join(out, "buf.data"))
			f.vars(m, "BufferedPGMFToData", p, true)
			f.labels(m, "BufferedPGMFToData", p, f.rows(m, "BufferedPGMFToData", p, 1))
		},
	})
	m.Sig("%v", f.classes)
	m.Sample("%d PGM images of %dx%d in %d classes", f.total, f.w, f.h, len(f.classes))
}

func pbm(m *vk.M) {
	f := gen(m, true)
	out := filepath.Join(f.dir, "compiled")
	inAnyOrder(m, []func(){
		func() {
			io.PBMFToData(f.dir, "all.data")
			p := read(m, "PBMFToData", filepath.Join(out, "all.data"))
			f.vars(m, "PBMFToData", p, true)
			f.labels(m, "PBMFToData", p, f.rows(m, "PBMFToData", p, 1))
		},
		func() {
			io.PBMFToEvidence(f.dir, "all.evid")
			p := read(m, "PBMFToEvidence", filepath.Join(out, "all.evid"))
			f.vars(m, "PBMFToEvidence", p, false)
			f.starts(m, "PBMFToEvidence", p, f.rows(m, "PBMFToEvidence", p, 0))
		},
	})

	// One class only.
	ds, _ := os.ReadDir(f.dir)
	for _, d := range ds {
		if !strings.HasPrefix(d.Name(), "class") {
			continue
		}
		sub := filepath.Join(f.dir, d.Name())
		fs, _ := os.ReadDir(sub)
		if len(fs) == 0 {
			continue
		}
		o := filepath.Join(f.dir, "one.data")
		class := m.R.Intn(4)
		io.PBMToData(sub, o, class)
		p := read(m, "PBMToData", o)
		f.vars(m, "PBMToData", p, false)
		extra := 0
		if class > 0 {
			extra = 1
		}
		m.Check(len(p.rows) == len(fs), "PBMToData: %d rows for %d images", len(p.rows), len(fs))
		seen := map[string]bool{}
		for i, row := range p.rows {
			m.Must(len(row) == f.w*f.h+extra, "PBMToData: row %d has %d values", i, len(row))
			k := key(row[:f.w*f.h])
			_, ok := f.where[k]
			m.Check(ok && !seen[k], "PBMToData: row %d is no image, or one already written: %v", i, row)
			seen[k] = true
			if extra == 1 {
				m.Check(row[len(row)-1] == class, "PBMToData: label %d, want %d", row[len(row)-1], class)
			}
		}
		break
	}
	m.Sig("%v", f.classes)
	m.Sample("%d PBM images of %dx%d in %d classes", f.total, f.w, f.h, len(f.classes))
}

// buffered converts many images, under the race detector.
func buffered(m *vk.M) {
	f := gen(m, false)
	if f.w*f.h*f.total > 4000 {
		return // too slow under the race detector
	}
	for c := range f.classes { // more files, to keep all processors busy
		ds, _ := os.ReadDir(f.dir)
		k := -1
		for _, d := range ds {
			if strings.HasPrefix(d.Name(), "class") {
				k++
				if k == c {
					for i := 0; i < 8; i++ {
						px := make([]int, f.w*f.h)
						for j := range px {
							px[j] = m.R.Intn(f.max + 1)
						}
						if _, dup := f.where[key(px)]; dup {
							continue
						}
						// The class is identified by its folder: borrow it from an image there.
						fs, _ := os.ReadDir(filepath.Join(f.dir, d.Name()))
						if len(fs) == 0 {
							break
						}
						raw, _ := os.ReadFile(filepath.Join(f.dir, d.Name(), fs[0].Name()))
						t := strings.Fields(string(raw))[4:]
						w := f.where[strings.Join(t, " ")]
						f.where[key(px)] = w
						f.total++
						os.WriteFile(filepath.Join(f.dir, d.Name(), fmt.Sprintf("more%d", i)), []byte(render(m.R, f, px, false)), 0o644)
					}
				}
			}
		}
	}
	for i := 0; i < 3; i++ {
		io.BufferedPGMFToData(f.dir, "buf.data")
		p := read(m, "BufferedPGMFToData", filepath.Join(f.dir, "compiled", "buf.data"))
		f.vars(m, "BufferedPGMFToData", p, true)
		f.labels(m, "BufferedPGMFToData", p, f.rows(m, "BufferedPGMFToData", p, 1))
	}
	m.Sig("%v", f.where)
}

// image is a plain netpbm image, read independently.
type image struct {
	magic     string
	w, h, max int
	v         []int
}

func parse(m *vk.M, who, path string) *image {
	raw, err := os.ReadFile(path)
	m.Must(err == nil, "%s wrote no file: %v", who, err)
	t := strings.Fields(string(raw))
	m.Must(len(t) >= 3, "%s wrote no image: %q", who, raw)
	im := &image{magic: t[0]}
	num := func(s string) int {
		x, err := strconv.Atoi(s)
		m.Must(err == nil, "%s: %q is no number", who, s)
		return x
	}
	im.w, im.h = num(t[1]), num(t[2])
	t = t[3:]
	if im.magic == "P1" {
		im.max = 1
		for _, s := range t {
			for _, c := range s {
				m.Must(c == '0' || c == '1', "%s: bit %q", who, c)
				im.v = append(im.v, int(c-'0'))
			}
		}
		return im
	}
	m.Must(len(t) > 0, "%s: no maximum", who)
	im.max = num(t[0])
	for _, s := range t[1:] {
		im.v = append(im.v, num(s))
	}
	return im
}

func outputs(m *vk.M) {
	r := m.R
	dir := m.Tmp()
	w, h := 1+r.Intn(9), 1+r.Intn(9)
	if r.Intn(8) == 0 {
		w, h = 20+r.Intn(60), 1+r.Intn(40)
		switch r.Intn(24) {
		case 0:
			w, h = 60+r.Intn(300), 1+r.Intn(100)
		case 1:
			w, h = 1+r.Intn(100), 60+r.Intn(300)
		}
	}
	max := []int{2, 8, 256, 256, 300 + r.Intn(1000), 65536}[r.Intn(6)]
	n := w * h
	m.Note("%dx%d, %d values", w, h, max)
	st, bits := map[int]int{}, map[int]int{}
	for i := 0; i < n; i++ {
		st[i] = r.Intn(max)
		bits[i] = r.Intn(2)
	}
	keep := net.CopyEv(st)
	check := func(who string, im *image, magic string, max int, per int, want func(i int) []int) {
		m.Check(im.magic == magic && im.w == w && im.h == h && im.max == max, "%s: header %s %dx%d max %d, want %s %dx%d max %d", who, im.magic, im.w, im.h, im.max, magic, w, h, max)
		m.Must(len(im.v) == n*per, "%s: %d samples for %d pixels", who, len(im.v), n)
		for i := 0; i < n; i++ {
			g := im.v[i*per : (i+1)*per]
			if !m.Check(fmt.Sprint(g) == fmt.Sprint(want(i)), "%s: pixel %d is %v, want %v", who, i, g, want(i)) {
				break
			}
		}
		m.Count("output_pixels", n)
	}
	f := filepath.Join(dir, "o.pnm")
	io.VarSetToPGM(f, st, w, h, max-1)
	check("VarSetToPGM", parse(m, "VarSetToPGM", f), "P2", max-1, 1, func(i int) []int { return []int{st[i]} })
	io.VarSetToPPM(f, st, w, h, max-1)
	check("VarSetToPPM", parse(m, "VarSetToPPM", f), "P3", max-1, 3, func(i int) []int { return []int{st[i], st[i], st[i]} })
	io.VarSetToPBM(f, bits, w, h)
	check("VarSetToPBM", parse(m, "VarSetToPBM", f), "P1", 1, 1, func(i int) []int { return []int{bits[i]} })

	for _, t := range io.Orientations {
		P, Q := io.SplitHalf(st, t, w, h)
		m.Check(net.SameEv(st, keep), "SplitHalf changed the image")
		m.Check(len(P)+len(Q) == n, "SplitHalf(%s) of %d pixels gives %d and %d", t, n, len(P), len(Q))
		for i := 0; i < n; i++ {
			a, ina := P[i]
			b, inb := Q[i]
			if !m.Check(ina != inb && (!ina || a == st[i]) && (!inb || b == st[i]), "SplitHalf(%s): pixel %d of value %d: first half %d (%v), second half %d (%v)", t, i, st[i], a, ina, b, inb) {
				break
			}
			x, y := i%w, i/w
			var side, mid bool // on the named side; on the middle line of an odd size
			switch t {
			case io.Top:
				side, mid = y < h/2, h%2 == 1 && y == h/2
			case io.Bottom:
				side, mid = y >= h/2, h%2 == 1 && y == h/2
			case io.Left:
				side, mid = x < w/2, w%2 == 1 && x == w/2
			case io.Right:
				side, mid = x >= w/2, w%2 == 1 && x == w/2
			}
			if !mid {
				m.Check(ina == side, "SplitHalf(%s): pixel (%d,%d) of a %dx%d image is in the wrong half", t, x, y, w, h)
			}
		}
		m.Count("splits", 1)
		// Completion images: one half given, the other completed.
		cm := map[int]int{}
		for i := range Q {
			cm[i] = r.Intn(max)
		}
		if r.Intn(2) == 0 { // a completion may also repeat the given part
			for i := range P {
				cm[i] = r.Intn(max)
			}
		}
		line := func(who string, im *image, max int) []int {
			W, H := w, h
			if t == io.Top || t == io.Bottom {
				H++
			} else {
				W++
			}
			m.Check(im.magic == "P3" && im.w == W && im.h == H && im.max == max, "%s(%s): header %s %dx%d max %d, want P3 %dx%d max %d", who, t, im.magic, im.w, im.h, im.max, W, H, max)
			m.Must(len(im.v) == 3*W*H, "%s(%s): %d samples for %d pixels", who, t, len(im.v), W*H)
			// Remove the separating line: row or column at the middle.
			var v []int
			for i := 0; i < W*H; i++ {
				x, y := i%W, i/W
				var sep bool
				if t == io.Top || t == io.Bottom {
					sep = y == H/2
				} else {
					sep = x == W/2
				}
				px := im.v[3*i : 3*i+3]
				if sep {
					m.Check(fmt.Sprint(px) == "[255 0 0]", "%s(%s): separator at (%d,%d) is %v", who, t, x, y, px)
					continue
				}
				v = append(v, px...)
			}
			m.Must(len(v) == 3*n, "%s(%s): %d pixels besides the separator", who, t, len(v)/3)
			return v
		}
		io.ImgCmplToPGM(f, P, cm, t, w, h, max)
		v := line("ImgCmplToPGM", parse(m, "ImgCmplToPGM", f), max-1)
		for i := 0; i < n; i++ {
			want := []int{0, cm[i], 0}
			if x, ok := P[i]; ok {
				want = []int{x, x, x}
			}
			if !m.Check(fmt.Sprint(v[3*i:3*i+3]) == fmt.Sprint(want), "ImgCmplToPGM(%s): pixel %d is %v, want %v", t, i, v[3*i:3*i+3], want) {
				break
			}
		}
		half, rest := io.SplitHalf(bits, t, w, h)
		cb := map[int]int{}
		for i := range rest {
			cb[i] = r.Intn(2)
		}
		io.ImgCmplToPPM(f, half, cb, t, w, h)
		v = line("ImgCmplToPPM", parse(m, "ImgCmplToPPM", f), 255)
		for i := 0; i < n; i++ {
			want := "[255 255 255]"
			if x, ok := half[i]; ok && x == 1 {
				want = "[0 0 255]"
			} else if !ok && cb[i] == 1 {
				want = "[0 255 0]"
			}
			if !m.Check(fmt.Sprint(v[3*i:3*i+3]) == want, "ImgCmplToPPM(%s): pixel %d is %v, want %v", t, i, v[3*i:3*i+3], want) {
				break
			}
		}
		m.Count("completions", 2)
	}
	m.Sig("%d %d %v", w, h, st)
	m.Sample("images of %dx%d with %d values", w, h, max)
}

// hsv converts by the piecewise formula f(n) = v - v s max(0, min(k, 4-k, 1)).
func hsv(h, s, v float64) [3]float64 {
	f := func(n float64) float64 {
		k := math.Mod(n+h/60, 6)
		return v - v*s*math.Max(0, math.Min(k, math.Min(4-k, 1)))
	}
	return [3]float64{f(5), f(3), f(1)}
}

func colours(m *vk.M) {
	r := m.R
	for i := 0; i < 50; i++ {
		h := r.Float64() * 360
		if r.Intn(3) == 0 {
			h = float64(30 * r.Intn(13))
		}
		s := r.Float64()
		if r.Intn(6) == 0 {
			s = float64(r.Intn(2))
		}
		max := 1 + 100*r.Float64()
		p := r.Float64() * max
		minB := r.Float64()
		c := common.RandColorScale(p, max, h, s, minB)
		want := hsv(h, s, (1-minB)*p/max+minB)
		var g [3]int
		_, err := fmt.Sscanf(c.String(), "%d %d %d", &g[0], &g[1], &g[2])
		m.Must(err == nil, "colour %q", c.String())
		for j := range g {
			m.Check(math.Abs(float64(g[j])-255*want[j]) < 1+1e-6 && g[j] >= 0 && g[j] <= 255, "colour of hue %v, saturation %v, brightness %v is %v, want %v times 255", h, s, (1-minB)*p/max+minB, g, want)
		}
		// A random tone of a hue: its largest and smallest components are determined by the sextant.
		var t [3]int
		fmt.Sscanf(common.RandTone(h).String(), "%d %d %d", &t[0], &t[1], &t[2])
		full := hsv(h, 1, 1)
		a := []int{0, 1, 2}
		sort.SliceStable(a, func(x, y int) bool { return full[a[x]] > full[a[y]] })
		m.Check(t[a[0]] >= t[a[1]]-1 && t[a[1]] >= t[a[2]]-1 && t[a[2]] >= 0 && t[a[0]] <= 255, "random tone of hue %v is %v", h, t)
		var q [3]int
		fmt.Sscanf(common.RandColor().String(), "%d %d %d", &q[0], &q[1], &q[2])
		for j := range q {
			m.Check(q[j] >= 0 && q[j] <= 255, "random colour %v", q)
		}
		m.Count("colours", 3)
	}
	m.Sig("%d", m.Idx)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C22",
		Rule: "random folders of distinct plain PGM/PBM images (1..30 pixels a side, 1..4 classes of equal and different sizes, every line layout, blanks, tabs, CRLF, missing final newline, stray files, a compiled folder) are converted and the output read back independently: every image exactly once, labels one-to-one with folders; buffered conversion also under the race detector; images written for random states and completions are read back pixel by pixel; colours against the HSV formula; distinct by images",
		Assumptions: []string{
			"image headers have magic number, dimensions and maximum on a line each, without comments; lines below 64 KB; states are complete",
		},
		Workloads: []vk.Workload{
			{Name: "pgm", Quick: 2400, Thorough: 30000, F: pgm},
			{Name: "pbm", Quick: 2000, Thorough: 30000, F: pbm},
			{Name: "outputs", Quick: 3000, Thorough: 50000, F: outputs},
			{Name: "colours", Quick: 600, Thorough: 20000, F: colours},
			{Name: "buffered", Quick: 240, Thorough: 3000, Race: true, F: buffered},
		},
	})
}
