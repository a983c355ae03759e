// reg explores the registry of back-ends: it is built with sync replaced by a
// controlled one (explore), or with nothing replaced (free, history).
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/cespedes/accounting"

	"verif/mc/vsync"
)

// A scenario is written as "PRE BEHAVIOUR THREAD THREAD ...": PRE are the names
// registered before ("-": none), BEHAVIOUR is what the back-ends do when opened,
// and each thread is a sequence of operations, two letters each:
// R + name: register; N + name: register nil; O + name: open; Op: open a plain path.
// Names a and b, and l, t, g (ledger, txtdb, postgres); u is never registered.

type conn struct{}

func (conn) Close() error { return nil }
func (conn) Refresh()     {}

type driver struct {
	x    *execution
	id   int // number of the operation which registers it
	name string
}

var errOwn = errors.New("own error of the back-end")

// execution is one run of a scenario.
type execution struct {
	prefix    string // of the names
	behaviour string
	ops       []*op
	free      bool
	mu        sync.Mutex // only for free
}

type op struct {
	n      int
	thread int
	kind   byte
	name   string
	source string

	outcome string // of a registration: ok, panic; of an opening: what it gave
	called  int    // back-end called, or -1
	calls   int
	badURL  string
	backend *accounting.Backend
	err     error
	ledger  *accounting.Ledger
	in      bool // inside of the back-end

	start, look, end int
}

func (x *execution) scheme(name string) string {
	switch name {
	case "l":
		return "ledger"
	case "t":
		return "txtdb"
	case "g":
		return "postgres"
	}
	return x.prefix + name
}

func (x *execution) add(thread int, kind byte, name string) *op {
	o := &op{n: len(x.ops), thread: thread, kind: kind, name: name, called: -1}
	if kind == 'O' {
		if name == "p" {
			o.source = fmt.Sprintf("some/path%d", o.n)
		} else {
			o.source = fmt.Sprintf("%s://u:w@h%d/p/q?r=s&t#f", x.scheme(name), o.n)
		}
	}
	x.ops = append(x.ops, o)
	return o
}

func (x *execution) record(o *op, what string, n int) {
	if !x.free {
		vsync.Record(o.n, what, n)
	}
}

// do makes the operation.
func (x *execution) do(o *op, mine *driver) {
	vsync.Point("start")
	x.record(o, "start", 0)
	defer func() {
		if r := recover(); r != nil {
			if o.kind != 'O' {
				o.outcome = "panic"
			} else if fmt.Sprint(r) == "own panic" {
				o.outcome = "own panic"
			} else {
				o.outcome = fmt.Sprintf("panic: %v", r)
			}
		}
		x.record(o, "end", 0)
	}()
	switch o.kind {
	case 'R':
		accounting.Register(x.scheme(o.name), mine)
		o.outcome = "ok"
	case 'N':
		accounting.Register(x.scheme(o.name), nil)
		o.outcome = "ok"
	case 'O':
		o.ledger, o.err = accounting.Open(o.source)
		switch {
		case o.err != nil && o.ledger != nil:
			o.outcome = "ledger and error"
		case o.err != nil && (errors.Is(o.err, errOwn) || strings.Contains(o.err.Error(), errOwn.Error())):
			o.outcome = "own error"
		case o.err != nil:
			o.outcome = "error"
		case o.ledger == nil:
			o.outcome = "nothing"
		default:
			o.outcome = "ok"
		}
	}
}

func (d *driver) Open(url string, b *accounting.Backend) (accounting.Connection, error) {
	// whose is it?
	var o *op
	for _, p := range d.x.ops {
		if p.kind == 'O' && strings.Contains(url, p.source) {
			o = p
		}
	}
	if o == nil {
		panic("the back-end was called with " + url)
	}
	if url != o.source {
		o.badURL = url
	}
	d.x.record(o, "driver", d.id)
	o.called = d.id
	o.calls++
	o.backend = b
	vsync.Point("inside of the back-end")
	if b == nil || b.Ledger == nil {
		o.badURL = "no ledger"
		return conn{}, nil
	}
	switch d.x.behaviour {
	case "error":
		return nil, errOwn
	case "errorconn":
		return conn{}, errOwn
	case "panic":
		panic("own panic")
	case "open": // it uses another back-end
		if d.name != "b" {
			n := d.x.nested(o)
			if n != nil {
				d.x.do(n, nil)
			}
		}
	case "register": // it registers another back-end
		if n := d.x.nested(o); n != nil {
			d.x.do(n, &driver{d.x, n.n, n.name})
		}
	}
	return conn{}, nil
}

// nested gives an operation for the back-end to make, when it is called for o (they are prepared before)
func (x *execution) nested(o *op) *op {
	for _, p := range x.ops {
		if p.thread == -2-o.n && p.outcome == "" {
			return p
		}
	}
	return nil
}

type scenario struct {
	pre       []string
	behaviour string
	threads   [][]string
}

func parse(s string) scenario {
	f := strings.Fields(s)
	var sc scenario
	if f[0] != "-" {
		sc.pre = strings.Split(f[0], "")
	}
	sc.behaviour = f[1]
	for _, th := range f[2:] {
		var ops []string
		for i := 0; i+1 < len(th); i += 2 {
			ops = append(ops, th[i:i+2])
		}
		sc.threads = append(sc.threads, ops)
	}
	return sc
}

// prepare makes everything which the threads need, and registers what has to be registered before.
func (sc scenario) prepare(n int) (*execution, [][]*op) {
	x := &execution{prefix: fmt.Sprintf("x%d", n), behaviour: sc.behaviour}
	for _, name := range sc.pre {
		o := x.add(-1, 'R', name)
		o.start, o.end = -1, -1
		x.do(o, &driver{x, o.n, name})
	}
	var threads [][]*op
	for ti, th := range sc.threads {
		var ops []*op
		for _, k := range th {
			o := x.add(ti, k[0], k[1:])
			ops = append(ops, o)
			if k[0] == 'O' && sc.behaviour == "open" && k[1:] != "b" {
				x.add(-2-o.n, 'O', "b")
			}
			if k[0] == 'O' && sc.behaviour == "register" {
				x.add(-2-o.n, 'R', "c")
			}
		}
		threads = append(threads, ops)
	}
	return x, threads
}

func (x *execution) funcs(threads [][]*op) []func() {
	var fs []func()
	for _, th := range threads {
		th := th
		var drivers []*driver
		for _, o := range th {
			drivers = append(drivers, &driver{x, o.n, o.name})
		}
		fs = append(fs, func() {
			for i, o := range th {
				x.do(o, drivers[i])
			}
		})
	}
	return fs
}

// check says what is wrong in an execution which has finished, if anything.
func (x *execution) check(log []vsync.Event) string {
	for i, e := range log {
		o := x.ops[e.Op]
		switch e.What {
		case "start":
			o.start = i
		case "driver":
			o.look = i
		case "end":
			o.end = i
			if o.called < 0 || o.kind != 'O' {
				o.look = i
			}
		}
	}
	// now, everything again without concurrency
	names := map[string]bool{}
	for _, o := range x.ops {
		if o.kind != 'O' && o.outcome != "" || o.kind == 'O' {
			names[o.name] = true
		}
	}
	delete(names, "p")
	delete(names, "u")
	now := 1 << 20
	after := func(kind byte, name string) *op {
		o := x.add(1000, kind, name)
		if kind == 'O' {
			x.behaviour = "ok"
		}
		x.do(o, &driver{x, o.n, name})
		o.start, o.look, o.end = now, now+1, now+2
		now += 3
		return o
	}
	order := []string{"a", "b", "c", "l", "t", "g"}
	for _, n := range order {
		if names[n] {
			after('O', n)
		}
	}
	after('O', "p")
	for _, n := range order {
		if names[n] {
			after('R', n)
			after('N', n)
			after('O', n)
		}
	}
	after('R', "z")
	after('O', "z")
	after('O', "p")
	return x.judge()
}

func (x *execution) judge() string {
	// each operation, alone
	for _, o := range x.ops {
		if o.outcome == "" {
			continue
		}
		id := fmt.Sprintf("operation %d (%c%s)", o.n, o.kind, o.name)
		if o.kind == 'N' && o.outcome != "panic" {
			return id + ": nil was registered"
		}
		if o.kind != 'O' {
			continue
		}
		if o.badURL != "" {
			return fmt.Sprintf("%s: the back-end was called with %q instead of %q", id, o.badURL, o.source)
		}
		switch {
		case strings.HasPrefix(o.outcome, "panic"), o.outcome == "ledger and error", o.outcome == "nothing":
			return id + " gave " + o.outcome
		case o.calls > 1:
			return id + ": more than one back-end was called"
		case o.calls == 0 && o.outcome != "error":
			return id + " gave " + o.outcome + " without a back-end"
		case o.calls == 1:
			if o.backend == nil || o.outcome == "ok" && o.ledger != o.backend.Ledger {
				return id + ": it is not the ledger which was given to the back-end"
			}
			if o.outcome == "error" {
				return fmt.Sprintf("%s: unexpected error %v", id, o.err)
			}
		}
	}
	if !x.linearizable() {
		s := ""
		for _, o := range x.ops {
			if o.outcome != "" && o.end < 1<<20 {
				s += fmt.Sprintf("\n  thread %d: %c %s [%d..%d]: %s", o.thread, o.kind, o.name, o.start, o.look, o.outcome)
				if o.called >= 0 {
					s += fmt.Sprintf(" (back-end registered by operation %d)", o.called)
				}
				s += fmt.Sprintf(" -- operation %d", o.n)
			} else if o.outcome != "" {
				s += fmt.Sprintf("\n  afterwards: %c %s: %s (%d)", o.kind, o.name, o.outcome, o.called)
			}
		}
		return "there is no order of the operations which gives this:" + s
	}
	return ""
}

// linearizable: there is an order of the operations, compatible with the moments when
// they began and finished, such that a map would have given the same.
func (x *execution) linearizable() bool {
	var ops []*op
	for _, o := range x.ops {
		if o.outcome == "" || o.kind == 'N' {
			continue
		}
		if o.name != "p" {
			ops = append(ops, o)
			continue
		}
		// without a scheme: each name can be looked for in a different moment
		for _, n := range []string{"l", "t", "g"} {
			look := *o
			look.name = n
			if o.called < 0 || x.ops[o.called].name != n {
				look.called = -1
			}
			ops = append(ops, &look)
			if look.called >= 0 {
				break
			}
		}
	}
	reg := map[string]int{}
	used := make([]bool, len(ops))
	var rec func(left int) bool
	rec = func(left int) bool {
		if left == 0 {
			return true
		}
		// the first one to take effect cannot have begun after another one has finished
		first := 1 << 30
		for i, o := range ops {
			if !used[i] && o.look < first {
				first = o.look
			}
		}
		for i, o := range ops {
			if used[i] || o.start > first {
				continue
			}
			undo := ""
			if o.kind == 'R' {
				_, dup := reg[o.name]
				if (o.outcome == "panic") != dup {
					continue
				}
				if !dup {
					reg[o.name] = o.n
					undo = o.name
				}
			} else {
				d, ok := reg[o.name]
				if !ok {
					d = -1
				}
				if d != o.called {
					continue
				}
			}
			used[i] = true
			if rec(left - 1) {
				return true
			}
			used[i] = false
			if undo != "" {
				delete(reg, undo)
			}
		}
		return false
	}
	return rec(len(ops))
}

type report struct {
	Executions   int64
	Transitions  int64
	States       []uint64
	Fail         string
	Uncontrolled bool
	Contended    int64 // executions where some operation had to wait or overlapped another
	Capped       bool
}

// one execution: what it gave, and what is wrong
type outcome struct {
	Res  vsync.Result
	Fail string
	Hist string
}

func runOne(sc scenario, n int, prefix []int) outcome {
	x, threads := sc.prepare(n)
	res := vsync.Run(prefix, x.funcs(threads))
	out := outcome{Res: res}
	if res.Uncontrolled {
		return out
	}
	if res.Deadlock != "" {
		out.Fail = "deadlock:" + res.Deadlock
		return out
	}
	h := fnv.New64a()
	for _, e := range res.Log {
		fmt.Fprintln(h, e)
	}
	for _, o := range x.ops {
		fmt.Fprintln(h, o.outcome, o.called)
	}
	out.Hist = fmt.Sprint(h.Sum64())
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		done <- x.check(res.Log)
	}()
	select {
	case out.Fail = <-done:
	case <-time.After(10 * time.Second):
		out.Fail = "afterwards, the registry does not work any more: an operation never finishes"
	}
	out.Res.Log = nil
	return out
}

var executions int // in this process: the names are different in each

// explore: every schedule with at most bound preemptions.
func explore(name string, bound int, process bool, limit int64) (rep report) {
	sc := parse(name)
	states := map[uint64]bool{}
	var rec func(prefix []int) bool
	rec = func(prefix []int) bool {
		executions++
		var out outcome
		if process {
			out = subprocess(name, prefix)
		} else {
			out = runOne(sc, executions, prefix)
		}
		rep.Executions++
		rep.Transitions += int64(len(out.Res.Choices))
		if out.Res.Uncontrolled {
			rep.Uncontrolled = true
			return false
		}
		var sched []int
		for _, c := range out.Res.Choices {
			sched = append(sched, c.Chosen)
		}
		if out.Fail != "" {
			rep.Fail = fmt.Sprintf("scenario %q, schedule %v: %s", name, sched, out.Fail)
			return false
		}
		hist, _ := strconv.ParseUint(out.Hist, 10, 64)
		states[hist] = true
		if rep.Executions >= limit {
			rep.Capped = true
			return false
		}
		pre := 0
		for i, c := range out.Res.Choices {
			if i >= len(prefix) {
				for _, e := range c.Enabled {
					if e == c.Chosen {
						continue
					}
					cost := 0
					if c.Cur >= 0 && e != c.Cur {
						cost = 1
					}
					if pre+cost > bound {
						continue
					}
					if !rec(append(append([]int(nil), sched[:i]...), e)) {
						return false
					}
				}
			}
			if c.Cur >= 0 && c.Chosen != c.Cur {
				pre++
			}
		}
		return true
	}
	rec(nil)
	for s := range states {
		rep.States = append(rep.States, s)
	}
	return rep
}

func subprocess(name string, prefix []int) (out outcome) {
	p, _ := json.Marshal(prefix)
	cmd := exec.Command(os.Args[0], "one", name, string(p))
	var stderr strings.Builder
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil || json.Unmarshal(b, &out) != nil {
		s := stderr.String()
		if len(s) > 3000 {
			s = s[:3000]
		}
		out.Fail = fmt.Sprintf("prefix %v: %v\n%s%s", prefix, err, b, s)
	}
	return out
}

// free: a scenario without control, many times (the names are new each time).
func free(name string, reps int) string {
	sc := parse(name)
	for n := 0; n < reps; n++ {
		x, threads := sc.prepare(n)
		x.free = true
		var wg sync.WaitGroup
		start := make(chan bool)
		for _, f := range x.funcs(threads) {
			f := f
			wg.Add(1)
			go func() { defer wg.Done(); <-start; f() }()
		}
		close(start)
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			return "the operations never finish"
		}
		for _, o := range x.ops { // nobody knows when
			if o.thread >= 0 || o.thread < -1 {
				o.start, o.look, o.end = 0, 1000, 1000
			}
		}
		ok := make(chan string, 1)
		go func() {
			ok <- x.check(nil)
		}()
		select {
		case s := <-ok:
			if s != "" {
				return s
			}
		case <-time.After(20 * time.Second):
			return "afterwards, the registry does not work any more"
		}
	}
	return ""
}

// history: operations one after another in this process.
func history(list []string) string {
	x := &execution{prefix: "x", behaviour: list[0]}
	reg := map[string]int{}
	for k, s := range list[1:] {
		what := fmt.Sprintf("after %q, %q", list[1:k+1], s)
		if s[0] == 'U' { // a data source as it is
			o := x.add(0, 'O', "")
			o.source = s[1:]
			x.do(o, nil)
			want := -1
			scheme := ""
			switch i := strings.Index(o.source, ":"); {
			case strings.HasPrefix(o.source, "!"): // it is not valid
				scheme = "!"
			case i >= 0 && !strings.ContainsAny(o.source[:i], "/ ?#"):
				scheme = strings.ToLower(o.source[:i])
			}
			if strings.ContainsAny(o.source, "\x7f%") {
				scheme = "!"
			}
			if scheme == "" {
				for _, n := range []string{"ledger", "txtdb", "postgres"} {
					if d, ok := reg[n]; ok {
						want = d
						break
					}
				}
			} else if d, ok := reg[scheme]; ok {
				want = d
			}
			if o.called != want {
				return fmt.Sprintf("%s: back-end called: %d instead of %d (%s, %v)", what, o.called, want, o.outcome, o.err)
			}
			w := "error"
			if want >= 0 {
				w = map[string]string{"ok": "ok", "error": "own error", "errorconn": "own error", "panic": "own panic"}[list[0]]
			}
			if o.outcome != w || o.badURL != "" {
				return fmt.Sprintf("%s gave %s (%v, %s) instead of %s", what, o.outcome, o.err, o.badURL, w)
			}
			if w == "ok" && o.ledger != o.backend.Ledger {
				return what + ": it is not the ledger which was given to the back-end"
			}
			continue
		}
		o := x.add(0, s[0], s[1:])
		x.do2(o, s[1:])
		_, dup := reg[s[1:]]
		if (o.outcome == "panic") != (dup || s[0] == 'N') {
			return what + ": " + o.outcome
		}
		if o.outcome == "ok" {
			reg[s[1:]] = o.n
		}
	}
	return ""
}

// do2 registers with the exact name
func (x *execution) do2(o *op, name string) {
	defer func() {
		if r := recover(); r != nil {
			o.outcome = "panic"
		}
	}()
	if o.kind == 'N' {
		accounting.Register(name, nil)
	} else {
		accounting.Register(name, &driver{x, o.n, name})
	}
	o.outcome = "ok"
}

func main() {
	switch os.Args[1] {
	case "explore": // reads lines: BOUND, PROCESS, LIMIT, SCENARIO, separated with tabs
		in := bufio.NewScanner(os.Stdin)
		for in.Scan() {
			f := strings.Split(in.Text(), "\t")
			bound, _ := strconv.Atoi(f[0])
			limit, _ := strconv.ParseInt(f[2], 10, 64)
			b, _ := json.Marshal(explore(f[3], bound, f[1] == "true", limit))
			os.Stdout.Write(append(b, '\n'))
		}
	case "one":
		var prefix []int
		json.Unmarshal([]byte(os.Args[3]), &prefix)
		out := runOne(parse(os.Args[2]), 0, prefix)
		b, _ := json.Marshal(out)
		os.Stdout.Write(b)
	case "free":
		reps, _ := strconv.Atoi(os.Args[3])
		if s := free(os.Args[2], reps); s != "" {
			fmt.Println("DIFFERENT:", s)
			os.Exit(65)
		}
		fmt.Println("RACE-OK")
	case "history":
		// several histories, each in a process of its own, would be slow: this is one
		if s := history(os.Args[2:]); s != "" {
			fmt.Println("WRONG:", s)
			os.Exit(65)
		}
		fmt.Println("HISTORY-OK")
	}
}
