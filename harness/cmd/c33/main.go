// C33: the command-line program converts, classifies and completes as its flags say.
package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/vk"
)

type task struct {
	ds        string
	w, h, max int
	class     []string // class of every image
	px        [][]int
}

func (t *task) String() string {
	return fmt.Sprintf("dataset %s: %dx%d of %d values, classes %v, images %v", t.ds, t.w, t.h, t.max, t.class, t.px)
}

func gen(m *vk.M) *task {
	r := m.R
	t := &task{ds: []string{"digits", "olivetti_3bit", "my.set", "d"}[r.Intn(4)]}
	for {
		t.w, t.h = 1+r.Intn(5), 1+r.Intn(5)
		if t.w*t.h > 1 && t.w*t.h <= 12 {
			break
		}
	}
	t.max = []int{2, 4, 8}[r.Intn(3)]
	classes := 2 + r.Intn(3)
	most := 4
	if r.Intn(12) == 0 {
		most = 14
		switch r.Intn(4) {
		case 0:
			classes, most = 5+r.Intn(10), 4
		case 1:
			t.w, t.h = 6+r.Intn(6), 1+r.Intn(3)
		case 2:
			t.w, t.h = 1+r.Intn(3), 6+r.Intn(6)
		}
		if r.Intn(3) == 0 {
			t.max = 32
		}
	}
	noise := r.Float64()
	for c := 0; c < classes; c++ {
		for k := 2 + r.Intn(most); k > 0; k-- {
			im := make([]int, t.w*t.h)
			for p := range im {
				im[p] = r.Intn(t.max)
				if r.Float64() > noise {
					im[p] = (c*(p+1) + p/t.w) % t.max
				}
			}
			t.class = append(t.class, fmt.Sprintf("class%d", c))
			t.px = append(t.px, im)
		}
	}
	return t
}

func (t *task) write(dir string) {
	for i, im := range t.px {
		d := filepath.Join(dir, "data", t.ds, t.class[i])
		if err := os.MkdirAll(d, 0700); err != nil {
			panic(err)
		}
		var b strings.Builder
		fmt.Fprintf(&b, "P2\n%d %d\n%d\n", t.w, t.h, t.max-1)
		for p, x := range im {
			fmt.Fprint(&b, x)
			if p%t.w == t.w-1 {
				b.WriteByte('\n')
			} else {
				b.WriteByte(' ')
			}
		}
		if err := os.WriteFile(filepath.Join(d, fmt.Sprintf("im%d.pgm", i)), []byte(b.String()), 0600); err != nil {
			panic(err)
		}
	}
}

// run runs the program in dir and returns what it printed.
func run(m *vk.M, dir string, arg ...string) string {
	runtime.LockOSThread() // the program dies with the thread that started it
	defer runtime.UnlockOSThread()
	cmd := exec.Command(os.Getenv("VK_MAIN_BIN"), arg...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	err, ended := vk.Child(cmd, 60, 45*time.Second)
	m.Must(ended, "gospn %v did not come to an end", arg)
	tail := errs.String()
	if len(tail) > 1500 {
		tail = tail[:1500]
	}
	m.Must(err == nil, "gospn %v failed: %v\n%s", arg, err, tail)
	m.Count("program_runs", 1)
	return out.String()
}

func files(dir string) []string {
	var s []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			q, _ := filepath.Rel(dir, p)
			s = append(s, q)
		}
		return nil
	})
	sort.Strings(s)
	return s
}

var final = regexp.MustCompile(`Correct classifications: (\d+)/(\d+)`)

var job = regexp.MustCompile(`(?m)^P-(\d+):`)

func pipeline(m *vk.M) {
	t := gen(m)
	r := m.R
	m.Note("%v", t)
	dir := m.Tmp()
	t.write(dir)
	before := files(dir)

	// Conversion.
	run(m, dir, "-mode=data", "-dataset", t.ds)
	data := filepath.Join("data", t.ds, "compiled", "all.data")
	want := append([]string{data}, before...)
	sort.Strings(want)
	m.Must(fmt.Sprint(files(dir)) == fmt.Sprint(want), "the conversion leaves %v, want %v", files(dir), want)
	raw, err := os.ReadFile(filepath.Join(dir, data))
	m.Must(err == nil, "%v", err)
	var vars, rows [][]int
	for _, l := range strings.Split(strings.TrimSpace(string(raw)), "\n") {
		var v []int
		for _, s := range strings.Fields(strings.TrimPrefix(l, "var")) {
			x, err := strconv.Atoi(s)
			m.Must(err == nil, "the data file holds the line %q", l)
			v = append(v, x)
		}
		if strings.HasPrefix(l, "var") {
			m.Must(len(rows) == 0, "the data file declares a variable after its rows")
			vars = append(vars, v)
		} else {
			rows = append(rows, v)
		}
	}
	n := t.w * t.h
	classes := map[string]bool{}
	for _, c := range t.class {
		classes[c] = true
	}
	m.Must(len(vars) == n+1, "the data file declares %d variables for %d pixels", len(vars), n)
	for i, v := range vars {
		k := t.max
		if i == n {
			k = len(classes)
		}
		m.Must(fmt.Sprint(v) == fmt.Sprint([]int{i, k}), "variable %d is declared as %v, want %d values", i, v, k)
	}
	m.Must(len(rows) == len(t.px), "the data file has %d rows for %d images", len(rows), len(t.px))
	// Classes and labels correspond: the sorted images of each class are those of one label.
	byLabel, byClass := map[int][]string{}, map[string][]string{}
	for _, v := range rows {
		m.Must(len(v) == n+1, "the data file has the row %v", v)
		byLabel[v[n]] = append(byLabel[v[n]], fmt.Sprint(v[:n]))
	}
	for i, im := range t.px {
		byClass[t.class[i]] = append(byClass[t.class[i]], fmt.Sprint(im))
	}
	var a, b []string
	for y, s := range byLabel {
		m.Check(y >= 0 && y < len(classes), "label %d of %d classes", y, len(classes))
		sort.Strings(s)
		a = append(a, fmt.Sprint(s))
	}
	for _, s := range byClass {
		sort.Strings(s)
		b = append(b, fmt.Sprint(s))
	}
	sort.Strings(a)
	sort.Strings(b)
	m.Must(fmt.Sprint(a) == fmt.Sprint(b), "the labelled images are %v, want %v", a, b)
	m.Count("rows_converted", len(rows))

	// Classification.
	p := []float64{0.5, 0.6, 0.75, 0.9}[r.Intn(4)]
	its := 1 + r.Intn(3)
	if r.Intn(15) == 0 {
		its = 4 + r.Intn(9)
	}
	arg := []string{"-mode", "class", "-dataset", t.ds, "-p", fmt.Sprint(p), "-iterations", fmt.Sprint(its)}
	if r.Intn(2) == 0 {
		arg = append(arg, "-rseed", fmt.Sprint(r.Intn(100)))
	}
	if r.Intn(2) == 0 {
		arg = append(arg, "-clusters", fmt.Sprint(1+r.Intn(2)))
	}
	if r.Intn(3) == 0 {
		arg = append(arg, "-pval", "0.1", "-eps", "2", "-mp", "2")
	}
	if r.Intn(3) == 0 {
		arg = append(arg, "-v=true")
	} else {
		arg = append(arg, "-v=false")
	}
	out := run(m, dir, arg...)
	all := final.FindAllStringSubmatch(out, -1)
	m.Must(len(all) == its+1, "%d iterations printed %d results", its, len(all))
	sumC, sumT := 0, 0
	for i, q := range all {
		c, _ := strconv.Atoi(q[1])
		k, _ := strconv.Atoi(q[2])
		if i == its {
			m.Check(c == sumC && k == sumT, "the final result is %d/%d, the iterations sum up to %d/%d", c, k, sumC, sumT)
			continue
		}
		m.Check(math.Abs(float64(k)-(1-p)*float64(len(rows))) < 1, "an iteration tests %d of %d images with p=%v", k, len(rows), p)
		m.Check(c <= k, "%d of %d images are classified correctly", c, k)
		sumC, sumT = sumC+c, sumT+k
	}
	m.Count("images_classified", sumT)
	m.Must(fmt.Sprint(files(dir)) == fmt.Sprint(want), "the classification leaves %v, want %v", files(dir), want)

	// Completion.
	arg = []string{"-mode", "cmpl", "-dataset", t.ds, "-width", fmt.Sprint(t.w), "-height", fmt.Sprint(t.h), "-max", fmt.Sprint(t.max), "-v=false"}
	conc := r.Intn(5)
	if conc > 0 {
		arg = append(arg, "-concurrents", fmt.Sprint(conc))
	}
	if r.Intn(2) == 0 {
		arg = append(arg, "-clusters", "1")
	}
	if r.Intn(2) == 0 {
		arg = append(arg, "-iterations", fmt.Sprint(1+r.Intn(5)), "-rseed", fmt.Sprint(r.Intn(9)))
	}
	out = run(m, dir, arg...)
	if conc == 1 { // one job at a time: each speaks only when the ones before it are done
		last := 0
		for _, q := range job.FindAllStringSubmatch(out, -1) {
			k, _ := strconv.Atoi(q[1])
			m.Check(k >= last, "job %d runs while job %d does, with one at a time", k, last)
			last = k
		}
		m.Count("sequential_completions", 1)
	}
	for i := range rows {
		for _, q := range []string{"TOP", "BOTTOM", "LEFT", "RIGHT"} {
			want = append(want, fmt.Sprintf("cmpl_%d-%s.pgm", i, q))
		}
	}
	sort.Strings(want)
	m.Must(fmt.Sprint(files(dir)) == fmt.Sprint(want), "the completion leaves %v, want %v", files(dir), want)
	for i, row := range rows {
		for _, q := range []string{"TOP", "BOTTOM", "LEFT", "RIGHT"} {
			t.drawn(m, filepath.Join(dir, fmt.Sprintf("cmpl_%d-%s.pgm", i, q)), q, row)
		}
	}
	now, _ := os.ReadFile(filepath.Join(dir, data))
	m.Check(bytes.Equal(now, raw), "the jobs changed the data file")
	m.Sig("%v", t)
	m.Sample("%d images of %dx%d: converted, classified and completed", len(rows), t.w, t.h)
}

func (t *task) drawn(m *vk.M, f, q string, row []int) {
	raw, err := os.ReadFile(f)
	m.Must(err == nil, "%v", err)
	W, H := t.w, t.h
	vert := q == "TOP" || q == "BOTTOM"
	if vert {
		H++
	} else {
		W++
	}
	var v []int
	tk := strings.Fields(string(raw))
	m.Must(len(tk) > 3 && tk[0] == "P3", "%s is no colour image", f)
	for _, s := range tk[1:] {
		x, err := strconv.Atoi(s)
		m.Must(err == nil, "%s holds %q", f, s)
		v = append(v, x)
	}
	m.Must(v[0] == W && v[1] == H && v[2] == t.max-1 && len(v) == 3+3*W*H, "%s: header %v, %d samples, want %dx%d of up to %d", f, v[:3], len(v)-3, W, H, t.max-1)
	p := 0
	for i := 0; i < W*H; i++ {
		x, y := i%W, i/W
		px := v[3+3*i : 6+3*i]
		if vert && y == H/2 || !vert && x == W/2 {
			continue
		}
		x, y = p%t.w, p/t.w
		given := map[string]bool{"TOP": y >= t.h/2, "BOTTOM": y < t.h/2, "LEFT": x >= t.w/2, "RIGHT": x < t.w/2}[q]
		if given {
			m.Check(px[0] == row[p] && px[1] == row[p] && px[2] == row[p], "%s: the given pixel %d is %v, the image has %d", f, p, px, row[p])
		} else {
			m.Check(px[0] == 0 && px[2] == 0 && px[1] >= 0 && px[1] < t.max, "%s: pixel %d is completed with %v", f, p, px)
		}
		p++
	}
	m.Count("completions_read", 1)
}

// refused runs commands that have nothing to do: they say so and leave everything as it is.
func refused(m *vk.M) {
	t := gen(m)
	r := m.R
	dir := m.Tmp()
	t.write(dir)
	run(m, dir, "-mode=data", "-dataset", t.ds)
	before := files(dir)
	mode := []string{"class", "cmpl", "data"}[r.Intn(3)]
	arg := []string{"-dataset", t.ds, "-width", fmt.Sprint(t.w), "-height", fmt.Sprint(t.h), "-max", fmt.Sprint(t.max)}
	var say string
	switch r.Intn(3) {
	case 0:
		bad := []string{"0", "1", "-0.5", "1.5", "7", "-3", "NaN", "+Inf"}[r.Intn(8)]
		arg = append(arg, "-mode", mode, "-p", bad)
		say = "Argument p"
	case 1:
		arg = append(arg, "-mode", mode, "-iterations", fmt.Sprint(-r.Intn(4)))
		say = "Argument iterations"
	default:
		arg = append(arg, "-mode", []string{"nothing", "Class", "complete", ""}[r.Intn(4)])
		say = "not found"
	}
	m.Note("%v", arg)
	info := map[string]time.Time{}
	for _, f := range before {
		if fi, err := os.Stat(filepath.Join(dir, f)); err == nil {
			info[f] = fi.ModTime()
		}
	}
	out := run(m, dir, arg...)
	m.Check(strings.Contains(out, say), "gospn %v prints %q", arg, out)
	m.Check(!final.MatchString(out), "gospn %v ran a job: %q", arg, out)
	m.Must(fmt.Sprint(files(dir)) == fmt.Sprint(before), "gospn %v leaves %v, there were %v", arg, files(dir), before)
	for f, at := range info {
		fi, err := os.Stat(filepath.Join(dir, f))
		m.Check(err == nil && fi.ModTime().Equal(at), "gospn %v rewrote %s", arg, f)
	}
	m.Count("commands_refused", 1)
	m.Sig("%v", arg)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C33",
		Rule: "the program is built from the tree and run in scratch directories on random image folders (2..4 classes, 4..20 images of up to 12 pixels): conversion, classification with random partition, seed, clustering and iterations, completion with any number of threads, each judged from the files it leaves and the results it prints; and commands that must be refused; distinct by folder and arguments",
		Assumptions: []string{
			"plain PGM files without comments, two classes at least",
		},
		Workloads: []vk.Workload{
			{Name: "pipeline", Quick: 400, Thorough: 5000, F: pipeline},
			{Name: "refused", Quick: 200, Thorough: 1500, F: refused},
		},
	})
}
