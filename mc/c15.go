package main

import (
	"fmt"
	"os"
	"path"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// C15: including files is the same as having their text in place.

// incNode is the interval [a,b) of the lines of the whole text, in a file of its own.
type incNode struct {
	a, b int
	name string // as written in the include line
	kids []*incNode
}

type incBuilder struct {
	t     *T
	lines []string
	pos   []string            // real position of each line of the whole text
	alias map[string][]string // canonical name -> other ways to write it
	files int
}

// write writes the file of a node and those of its children. raw is its name as the reader would compose it.
func (w *incBuilder) write(file string, n *incNode) {
	var b strings.Builder
	num := 0
	i := n.a
	kids := n.kids
	for i < n.b || len(kids) > 0 {
		if len(kids) > 0 && kids[0].a == i {
			k := kids[0]
			kids = kids[1:]
			num++
			b.WriteString("include " + k.name + "\n")
			f := k.name
			if f[0] != '/' {
				f = path.Dir(file) + "/" + f
			}
			c := path.Clean(f)
			if c != f {
				w.alias[c] = append(w.alias[c], f)
			}
			w.write(c, k)
			i = k.b
			continue
		}
		num++
		w.pos[i] = fmt.Sprintf("%s:%d", file, num)
		b.WriteString(w.lines[i])
		if i+1 < n.b || len(kids) > 0 || num%2 == 0 { // sometimes the last line does not end
			b.WriteByte('\n')
		}
		i++
	}
	w.files++
	w.t.WriteFile(strings.TrimPrefix(file, w.t.dir+"/"), b.String())
}

// opened15 describes everything about what was opened, with positions as numbers of line of the whole text.
func (t *T) opened15(src string, where func(file string, line int) (int, bool), names []string) string {
	o := t.OpenSource(src)
	var s string
	switch {
	case o.Fatal != "":
		s = "fatal"
		t.closeFiles15()
	case o.Err != nil:
		s = "error " + o.Err.Error()
	default:
		s = DumpL(o.L, dumpOpts{})
		t.Nontrivial()
	}
	s += "\nLOG\n" + o.Log
	var b strings.Builder
	for {
		i := strings.Index(s, t.dir)
		if i < 0 {
			b.WriteString(s)
			break
		}
		b.WriteString(s[:i])
		s = s[i:]
		found := false
		for _, n := range names {
			if !strings.HasPrefix(s, n+":") {
				continue
			}
			j := len(n) + 1
			for j < len(s) && isDigit(s[j]) {
				j++
			}
			num, err := strconv.Atoi(s[len(n)+1 : j])
			if err != nil {
				continue
			}
			if k, ok := where(n, num); ok {
				fmt.Fprintf(&b, "LINE %d", k+1)
			} else {
				fmt.Fprintf(&b, "NO SUCH LINE %s:%d", n, num)
			}
			s = s[j:]
			found = true
			break
		}
		if !found { // the name of some other file
			j := strings.IndexAny(s, ":\n\"")
			if j < 0 {
				j = len(s)
			}
			b.WriteString("FILE")
			s = s[j:]
		}
	}
	return b.String()
}

// split15 compares a text with the same text in several files.
func (t *T) split15(lines []string, root *incNode, flat string) {
	t.files = map[string]string{}
	w := &incBuilder{t: t, lines: lines, pos: make([]string, len(lines)), alias: map[string][]string{}}
	main := t.dir + "/m/n/main"
	w.write(main, root)
	at := map[string]int{}
	names := map[string]bool{}
	canon := map[string]string{}
	for i, p := range w.pos {
		at[p] = i
		f := p[:strings.LastIndexByte(p, ':')]
		names[f] = true
		canon[f] = f
		for _, x := range w.alias[f] {
			names[x] = true
			canon[x] = f
		}
	}
	var list []string
	for n := range names {
		list = append(list, n)
	}
	sort.Slice(list, func(i, j int) bool {
		return len(list[i]) > len(list[j]) || len(list[i]) == len(list[j]) && list[i] < list[j]
	})
	got := t.opened15(main, func(f string, n int) (int, bool) {
		i, ok := at[fmt.Sprintf("%s:%d", canon[f], n)]
		return i, ok
	}, list)
	t.Trans(w.files)
	t.Trace()
	if t.nSamples[t.fam] < 1 {
		t.Sample(t.show())
	}
	if got != flat {
		t.Failf("in several files it is not the same as in only one: %s%s", diff(flat, got), t.show())
	}
}

// flat15 describes what the whole text gives in only one file.
func (t *T) flat15(lines []string) string {
	p := t.Path("flat")
	t.files = map[string]string{}
	t.WriteFile("flat", strings.Join(lines, "\n")+"\n")
	s := t.opened15(p, func(f string, n int) (int, bool) { return n - 1, n >= 1 && n <= len(lines) }, []string{p})
	t.State(s)
	return s
}

// closeFiles15 closes from time to time the files left open when the program would have ended.
func (t *T) closeFiles15() {
	if fatals15++; fatals15%15 == 0 {
		runtime.GC()
		time.Sleep(time.Millisecond)
	}
}

var fatals15 int

func indentedLine(s string) bool { return s != "" && (s[0] == ' ' || s[0] == '\t') }

// intervals15 lists the intervals which may be in a file of their own: they begin with an item
// (or the end), and the empty ones are not before an indented line.
func intervals15(lines []string) (res [][2]int) {
	for a := 0; a <= len(lines); a++ {
		x := a
		for x < len(lines) && (strings.TrimSpace(lines[x]) == "" || strings.IndexByte(";*#", lines[x][0]) >= 0) {
			x++
		}
		if x < len(lines) && indentedLine(lines[x]) {
			continue
		}
		for b := a; b <= len(lines); b++ {
			res = append(res, [2]int{a, b})
		}
	}
	return
}

// laminar15 gives the trees with exactly these intervals, if they are nested or disjoint. The order of the
// intervals with the same limits is the order of the list.
func laminar15(ivs [][2]int) (parents []int, ok bool) {
	parents = make([]int, len(ivs))
	for i := range ivs {
		parents[i] = -1
		for j := i + 1; j < len(ivs); j++ {
			a, b := ivs[i], ivs[j]
			if a[0] >= b[1] || b[0] >= a[1] || a[0] <= b[0] && b[1] <= a[1] || b[0] <= a[0] && a[1] <= b[1] {
				continue
			}
			return nil, false
		}
	}
	size := func(i int) int { return ivs[i][1] - ivs[i][0] }
	for i := range ivs {
		for j := range ivs {
			if i == j || !(ivs[j][0] <= ivs[i][0] && ivs[i][1] <= ivs[j][1]) {
				continue
			}
			if size(j) < size(i) || size(j) == size(i) && j > i {
				continue
			}
			if p := parents[i]; p < 0 || size(j) < size(p) || size(j) == size(p) && j > p {
				parents[i] = j
			}
		}
	}
	return parents, true
}

// tree15 builds the tree of files: kinds says how each file is named.
func tree15(t *T, ivs [][2]int, parents []int, kinds []int, n int) *incNode {
	root := &incNode{a: 0, b: n}
	nodes := make([]*incNode, len(ivs))
	for i, iv := range ivs {
		nodes[i] = &incNode{a: iv[0], b: iv[1], name: name15(t, kinds[i], i)}
	}
	for i, p := range parents {
		if p < 0 {
			root.kids = append(root.kids, nodes[i])
		} else {
			nodes[p].kids = append(nodes[p].kids, nodes[i])
		}
	}
	for _, x := range append(nodes, root) {
		sort.SliceStable(x.kids, func(i, j int) bool {
			return x.kids[i].a < x.kids[j].a || x.kids[i].a == x.kids[j].a && x.kids[i].b < x.kids[j].b
		})
	}
	return root
}

const kinds15 = 8

func name15(t *T, kind, k int) string {
	switch kind {
	case 0:
		return fmt.Sprintf("f%d", k)
	case 1:
		return fmt.Sprintf("d/f%d", k)
	case 2:
		return fmt.Sprintf("../f%d.journal", k)
	case 3:
		return fmt.Sprintf("%s/abs/e/f%d", t.dir, k)
	case 4:
		return fmt.Sprintf("./d/../f%d", k)
	case 6:
		return fmt.Sprintf("\"f%d\"", k)
	case 7:
		return fmt.Sprintf("~/$f%d*'[?].%%41", k)
	}
	return fmt.Sprintf("d.x/e f/f %d", k)
}

var bases15 = [][]string{
	{"account A ; c1", "  ; c2", "commodity 1.00 X", "P 2020-01-04 X 2 Y ; p", "2020-01-05 t", "  A  1 X ; k", "  B", "2020-01-06 u ; c"},
	{"2020-01-05 t ; a", "  ; b", "  A:B  1 X", "  C  -1 X", "garbage", "  ; lost", "2020-01-05 u", "  A  = 3 Y ; date:2020-01-04", "  C"},
	{"D 1,00 Y", "2020-01-05 t", "  A  1", "  Q  1..2 X", "  B", "include nofile", "  ; x", "P 2020-01-06 Y 1 Z", "  ; p", "; g", "account W"},
	{"2020-01-05 t", "  A  1 X", "  B  -2 X", "account C"},
	{"2020-01-05 t", "  A  1 X", "  B  -1 X = 5 X", "account C"},
	{"P 2020-01-05 X 1 Y", "2020-01-05 t", "  A  1 X", "  B  -1 X", "P 2020-01-04 X 1 Y", "account C"},
	{"account A", "2020-01-05 t", "  ; c", "  A  1 X", "  A  -1 X", "account A", "account B"},
	{"", "; c", "P 2020-01-05 X 1 Y", "", "  ; c", "P 2020-01-06 X 1 Y", "commodity 1.0 Y", "\t; isin:ES1", "", "2020-01-07 t", "", "\tA  1 X", "\tB"},
}

func famTrees15(name string, base int, n, kinds int) Family {
	lines := bases15[base]
	ivs := intervals15(lines)
	type tr struct {
		ivs     [][2]int
		parents []int
	}
	var trees []tr
	var rec func(from int, cur [][2]int)
	rec = func(from int, cur [][2]int) {
		if len(cur) == n {
			p, ok := laminar15(cur)
			if ok {
				trees = append(trees, tr{append([][2]int(nil), cur...), p})
			}
			return
		}
		for i := from; i < len(ivs); i++ {
			if _, ok := laminar15(append(cur[:len(cur):len(cur)], ivs[i])); ok {
				rec(i, append(cur, ivs[i]))
			}
		}
	}
	rec(0, nil)
	var flat string
	return Family{Name: fmt.Sprintf("%s-%d", name, base), Desc: fmt.Sprintf("%q with %d parts in other files, in all possible ways, and %d ways of naming each file", lines, n, kinds), N: int64(len(trees)) * pow(kinds, n), Run: func(t *T, i int64) {
		d := &Dec{i}
		ks := make([]int, n)
		for k := range ks {
			ks[k] = (d.Pick(kinds) + k*2) % kinds15
		}
		x := trees[d.Pick(len(trees))]
		if flat == "" {
			flat = t.flat15(lines)
		}
		t.split15(lines, tree15(t, x.ivs, x.parents, ks, len(lines)), flat)
	}}
}

var chunks15 = []string{
	"account A ; x\n  ; y", "account B:C", "commodity 1.00 X\n  ; isin:I", "P 2020-01-05 X 2 Y\n  ; p", "D 1 Y", "2020-01-05 t\n  A  1 X\n  ; k\n  B", "2020-01-05 t2 ; c", "2020-01-06 u\n  A  = 1\n  B ; date:2020-01-05", "garbage\n  ; g", "include nofile\n  ; g", "", "; c", "P 2020-01-04 X 2 Y", "2020-01-05 v\n  A  1 X\n  C  1 Y",
}

// famChunks15: all sequences of n chunks, and some ways of having them in two files
func famChunks15(n int) Family {
	shapes := [][][2]int{}
	for a := 0; a <= n; a++ {
		for b := a; b <= n; b++ {
			shapes = append(shapes, [][2]int{{a, b}})
			for c := a; c <= b; c++ {
				shapes = append(shapes, [][2]int{{a, b}, {c, b}})
			}
		}
	}
	return Family{Name: "chunks", Desc: fmt.Sprintf("all sequences of %d of %d chunks, with parts in one or two files", n, len(chunks15)), N: pow(len(chunks15), n) * int64(len(shapes)), Run: func(t *T, i int64) {
		d := &Dec{i}
		sh := shapes[d.Pick(len(shapes))]
		var lines []string
		starts := []int{0}
		for k := 0; k < n; k++ {
			lines = append(lines, strings.Split(chunks15[d.Pick(len(chunks15))], "\n")...)
			starts = append(starts, len(lines))
		}
		var ivs [][2]int
		for _, s := range sh {
			ivs = append(ivs, [2]int{starts[s[0]], starts[s[1]]})
		}
		parents := []int{-1}
		if len(sh) == 2 {
			parents = append(parents, 0)
		}
		t.split15(lines, tree15(t, ivs, parents, []int{1, 2}, len(lines)), t.flat15(lines))
	}}
}

// famDeep15: chains of files, each one including the next one, and many files one after another
func famDeep15(max int) Family {
	return Family{Name: "deep", Desc: fmt.Sprintf("1 to %d files, in a chain (text before, after or both) or one after another, named in %d ways, with no more than 256 open files", max, kinds15), N: int64(max) * 4 * kinds15, Run: func(t *T, i int64) {
		d := &Dec{i}
		n := d.Pick(max) + 1
		mode := d.Pick(4)
		kind := d.Pick(kinds15)
		if kind == 2 && n > 40 || n*len(name15(t, kind, n)) > 3500 && kind != 3 {
			return // too long a name
		}
		if mode == 3 {
			n *= 8
		}
		var lines []string
		root := &incNode{}
		cur := root
		for k := 0; k < n; k++ {
			piece := []string{fmt.Sprintf("2020-01-05 t%d", k), fmt.Sprintf("  A:B%d  %d X", k, k+1), "  C"}
			kk := kind
			if kind == 2 && k > 1 { // the root is not far
				kk = 1 + k%2
			}
			x := &incNode{name: name15(t, kk, k), a: len(lines)}
			cur.kids = append(cur.kids, x)
			switch mode {
			case 0, 2: // before
				lines = append(lines, piece...)
				cur = x
			case 1:
				cur = x
			case 3:
				lines = append(lines, piece...)
				x.b = len(lines)
			}
		}
		if mode == 0 || mode == 2 { // the text goes before the next file, so the intervals begin later
			root = &incNode{}
			cur = root
			lines = nil
			for k := 0; k < n; k++ {
				lines = append(lines, fmt.Sprintf("2020-01-05 t%d", k), fmt.Sprintf("  A:B%d  %d X", k, k+1), "  C")
				kk := kind
				if kind == 2 && k > 1 {
					kk = 1 + k%2
				}
				x := &incNode{name: name15(t, kk, k), a: len(lines)}
				cur.kids = append(cur.kids, x)
				cur = x
			}
		}
		if mode != 3 {
			lines = append(lines, "2020-01-05 end", "  Z  1 X", "  Y  -1 X")
			end := []int{}
			var chain []*incNode
			for x := root; ; x = x.kids[0] {
				chain = append(chain, x)
				if len(x.kids) == 0 {
					break
				}
			}
			for k := len(chain) - 1; k >= 0; k-- {
				chain[k].b = len(lines)
				end = append(end, len(lines))
				if mode == 1 || mode == 2 {
					lines = append(lines, fmt.Sprintf("2020-01-05 after%d", k), fmt.Sprintf("  A:D%d  %d X", k, k+1), "  C")
				}
			}
			if mode == 1 || mode == 2 {
				for k, x := range chain { // each file has also the text after the next one
					x.b = end[len(chain)-1-k]
				}
			}
		}
		root.b = len(lines)
		t.split15(lines, root, t.flat15(lines))
	}}
}

// famGraph15: files which include each other in any way, compared with the reference
func famGraph15(th bool) Family {
	inc := []string{"; nothing", "include %s/j", "include %s/d/b", "include j", "include a", "include d/b", "include b", "include e/c", "include ../a", "include ../../j", "include d/../a", "include nofile", "include", "include d/nodir/x", "include ../d/e/c ; comment"}
	m := len(inc)
	slots := 4
	if th {
		slots = 5
	}
	return Family{Name: "graph", Desc: fmt.Sprintf("4 files in 3 directories with %d include lines, each one of %q", slots, inc), N: pow(m, slots), Run: func(t *T, i int64) {
		d := &Dec{i}
		t.files = map[string]string{}
		files := map[string]string{}
		line := func() string {
			s := inc[d.Pick(m)]
			if strings.Contains(s, "%s") {
				return fmt.Sprintf(s, t.dir)
			}
			return s
		}
		put := func(name, text string) string {
			files[t.Path(name)] = text
			return t.WriteFile(name, text)
		}
		put("a", "2020-01-05 a\n  A  1 X\n"+line()+"\n2020-01-05 a2\n  A  -1 X ; s\n  Q\n")
		put("d/b", "P 2020-01-05 X 2 Y ; b\n"+line()+"\n")
		c := "2020-01-05 c\n  A  1 X\n  D ; last\n"
		if slots == 5 {
			c += line()
		}
		put("d/e/c", c)
		p := put("j", "commodity 1.0 Z\n"+line()+"\n"+line()+"\n2020-01-06 u ; t\n  C  1 Y\n  D\n")
		ref := ReadRef(files, p)
		t.State(ref.Canon())
		o := t.OpenSource(p)
		t.Sample(t.show() + "\n" + o.String())
		if o.L == nil {
			t.closeFiles15()
		}
		t.Compare(ref, o, linesFacets)
	}}
}

// famLinks15: other names of files (links) which are already being read, or not
func famLinks15() Family {
	links := []string{"soft to itself", "soft to the main file, in another directory", "hard link to the main file", "soft to a directory", "soft to nothing", "soft to itself in a circle", "soft to another file", "hard to another file", "soft to a file which includes the main one"}
	return Family{Name: "links", Desc: fmt.Sprintf("include lines naming a link (%q), from the main file or from one included", links), N: int64(len(links) * 2), Run: func(t *T, i int64) {
		d := &Dec{i}
		k := d.Pick(len(links))
		deep := d.Pick(2) == 1
		t.files = map[string]string{}
		line := "include L/x"
		text := "2020-01-05 before\n  A  1 X\n  B\n" + line + "\n2020-01-06 after\n  A  2 X\n  B\n"
		main := "j"
		if deep {
			t.WriteFile("main", "account M\ninclude j\naccount N\n")
			main = "main"
		}
		t.WriteFile("j", text)
		t.WriteFile("other", "2020-01-05 other\n  C  1 X\n  D\n")
		t.WriteFile("back", "2020-01-05 back\n  C  1 X\n  D\ninclude "+t.dir+"/j\n")
		os.RemoveAll(t.dir + "/L")
		os.MkdirAll(t.dir+"/L", 0755)
		x := t.dir + "/L/x"
		var reported string
		want := []string{"before", "after"}
		switch k {
		case 0:
			os.Symlink("../j", x)
			reported = t.dir + "/j:4"
		case 1:
			os.Symlink(t.dir+"/"+main, x)
			reported = t.dir + "/j:4"
		case 2:
			os.Link(t.dir+"/"+main, x)
			reported = t.dir + "/j:4"
		case 3:
			os.Remove(x) // a directory cannot be read: Open fails, or it is reported
			os.Symlink("..", x)
			o := t.OpenSource(t.Path(main))
			if o.L != nil && !hasPos(o.Log, t.dir+"/j:4") {
				t.Failf("including a directory is neither reported nor an error%s\n%s", t.show(), o.Log)
			}
			return
		case 4:
			os.Symlink("nowhere", x)
			reported = t.dir + "/j:4"
		case 5:
			os.Symlink("x", x)
			reported = t.dir + "/j:4"
		case 6:
			os.Symlink("../other", x)
			want = []string{"before", "other", "after"}
		case 7:
			os.Link(t.dir+"/other", x)
			want = []string{"before", "other", "after"}
		case 8:
			os.Symlink("../back", x)
			want = []string{"before", "back", "after"}
			reported = x + ":4"
		}
		o := t.OpenSource(t.Path(main))
		t.Trans(1)
		t.State(fmt.Sprint(k, deep))
		if o.L == nil {
			t.Failf("%s: it was refused: %s%s", links[k], o, t.show())
		}
		t.Nontrivial()
		var got []string
		for _, tx := range o.L.Transactions {
			got = append(got, tx.Description)
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Failf("%s: transactions %q instead of %q%s\n%s", links[k], got, want, t.show(), o.Log)
		}
		if deep && len(o.L.Accounts) > 0 && fullName(o.L.Accounts[0]) != "M" {
			t.Failf("%s: the accounts are wrong%s", links[k], t.show())
		}
		if reported != "" && !hasPos(o.Log, reported) {
			t.Failf("%s: line %s was not reported%s\n%s", links[k], reported, t.show(), o.Log)
		}
	}}
}

func init() {
	register(&Check{ID: "C15", Rule: "each case is a text divided into files; the ledger, with the positions of everything, and the messages must be those of the whole text in one file once positions are translated; files including each other in any way are compared with the reference reader",
		Assumptions: []string{"a file begins with an item, never in the middle of one", "names are compared once they are cleaned (a/../b is b)"},
		Setup: func() {
			var r syscall.Rlimit
			if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &r) == nil {
				r.Cur = 256
				syscall.Setrlimit(syscall.RLIMIT_NOFILE, &r)
			}
		},
		Families: func(th bool) []Family {
			var fs []Family
			k := kinds15
			for b := range bases15 {
				fs = append(fs, famTrees15("one", b, 1, kinds15))
				fs = append(fs, famTrees15("two", b, 2, k))
			}
			for _, b := range []int{0, 3, 4} {
				if b == 0 && !th {
					continue
				}
				fs = append(fs, famTrees15("three", b, 3, 3))
			}
			n := 3
			if th {
				n = 4
			}
			return append(fs, famChunks15(n), famDeep15(60), famGraph15(th), famLinks15())
		}})
}
