package main

// Engine: enumerates numbered cases of families, in worker processes, and
// turns every failure into a replayable, confirmed violation.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Family is a finite, numbered set of cases: case i is fully determined by i.
type Family struct {
	Name string
	Desc string
	N    int64
	Run  func(t *T, i int64)
}

// Check is the machinery of one property.
type Check struct {
	ID          string
	Rule        string
	Assumptions []string
	Families    func(thorough bool) []Family
	Workers     int    // 0: one per core
	Setup       func() // run in each worker before the first case
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type Violation struct {
	Family string `json:"family"`
	Index  int64  `json:"index"`
	Desc   string `json:"desc"`
	Died   bool   `json:"died,omitempty"`
	Hung   bool   `json:"hung,omitempty"`
}

type workerResult struct {
	States      []uint64
	StatesMore  int64
	Evals       int64
	Transitions int64
	Traces      int64
	Nontrivial  int64
	Outcomes    map[string]int64
	Samples     []string
	Done        map[string]int64
	Violations  []Violation
	Capped      string
	Skipped     map[string]int64
}

// T is the context of a case.
type T struct {
	check    *Check
	thorough bool
	dir      string // scratch directory of this worker
	fam      string
	idx      int64
	res      workerResult
	states   map[uint64]struct{}
	prog     []byte
	nSamples map[string]int
	cap      capture
	files    map[string]string          // files of the last journal written (for messages)
	opened   func(src string, o Opened) // C29, C30: what is done with what the other back-ends give
}

const maxStates = 4 << 20

// State records one canonical state reached.
func (t *T) State(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	t.StateHash(h.Sum64())
}

func (t *T) StateHash(v uint64) {
	if _, ok := t.states[v]; ok {
		return
	}
	if len(t.states) >= maxStates {
		t.res.StatesMore++
		return
	}
	t.states[v] = struct{}{}
}

func (t *T) Trans(n int)     { t.res.Transitions += int64(n) }
func (t *T) Trace()          { t.res.Traces++ }
func (t *T) Nontrivial()     { t.res.Nontrivial++ }
func (t *T) Out(s string)    { t.res.Outcomes[s]++ }
func (t *T) Skip(why string) { t.res.Skipped[why]++ }
func (t *T) Sample(s string) {
	if t.nSamples[t.fam] < 1 {
		t.nSamples[t.fam]++
		t.res.Samples = append(t.res.Samples, fmt.Sprintf("%s[%d]: %s", t.fam, t.idx, s))
	}
}

// Tick tells the parent that a long case is still making progress.
func (t *T) Tick() {
	if t.prog != nil {
		binary.LittleEndian.PutUint64(t.prog[16:], binary.LittleEndian.Uint64(t.prog[16:])+1)
	}
}

// MayDie tells the parent that the real code may end the process in this case (legitimately).
func (t *T) MayDie(b bool) {
	if t.prog != nil {
		var v uint64
		if b {
			v = 1
		}
		binary.LittleEndian.PutUint64(t.prog[24:], v)
	}
}

type caseFail struct{ desc string }

// Failf ends the case: the property does not hold in it.
func (t *T) Failf(format string, args ...interface{}) {
	panic(caseFail{fmt.Sprintf(format, args...)})
}

func (t *T) runCase(f Family, i int64) (v *Violation) {
	t.fam, t.idx = f.Name, i
	defer func() {
		if r := recover(); r != nil {
			if cf, ok := r.(caseFail); ok {
				v = &Violation{Family: f.Name, Index: i, Desc: cf.desc}
				return
			}
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			v = &Violation{Family: f.Name, Index: i, Desc: fmt.Sprintf("panic: %v\n%s", r, st)}
		}
	}()
	t.res.Evals++
	f.Run(t, i)
	return nil
}

func newT(c *Check, thorough bool, dir string) *T {
	t := &T{check: c, thorough: thorough, dir: dir, states: map[uint64]struct{}{}, nSamples: map[string]int{}}
	t.res.Outcomes = map[string]int64{}
	t.res.Done = map[string]int64{}
	t.res.Skipped = map[string]int64{}
	t.cap.install()
	return t
}

func scratch() string {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		if x, err := ioutil.TempDir(d, "mc"); err == nil {
			return x
		}
	}
	panic("no scratch directory")
}

func limits() {
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(400)
	go func() {
		for {
			time.Sleep(300 * time.Millisecond)
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 3<<30 {
				fmt.Fprintln(realStderr, "mc: memory exhausted")
				os.Exit(77)
			}
		}
	}()
}

var realStderr = os.Stderr

// worker: mc worker ID tier shard nshards startFam startIdx dir progfile outfile deadlineSec
func workerMain(args []string) {
	c := checks[args[0]]
	thorough := args[1] == "thorough"
	shard, _ := strconv.ParseInt(args[2], 10, 64)
	n, _ := strconv.ParseInt(args[3], 10, 64)
	startFam, _ := strconv.Atoi(args[4])
	startIdx, _ := strconv.ParseInt(args[5], 10, 64)
	dir, progfile, outfile := args[6], args[7], args[8]
	deadline, _ := strconv.Atoi(args[9])
	runtime.GOMAXPROCS(2)
	limits()
	t := newT(c, thorough, dir)
	f, err := os.OpenFile(progfile, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	t.prog, err = syscall.Mmap(int(f.Fd()), 0, 64, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	if c.Setup != nil {
		c.Setup()
	}
	end := time.Now().Add(time.Duration(deadline) * time.Second)
	fams := c.Families(thorough)
	for fi, fam := range fams {
		if fi < startFam || os.Getenv("MC_FAM") != "" && os.Getenv("MC_FAM") != fam.Name {
			continue
		}
		first := shard
		if fi == startFam && startIdx >= 0 {
			first = startIdx
		}
		for i := first; i < fam.N; i += n {
			binary.LittleEndian.PutUint64(t.prog[0:], uint64(fi))
			binary.LittleEndian.PutUint64(t.prog[8:], uint64(i))
			v := t.runCase(fam, i)
			t.res.Done[fam.Name]++
			if v != nil {
				t.res.Violations = append(t.res.Violations, *v)
				if len(t.res.Violations) >= 4 {
					goto done
				}
			}
			if i&255 == shard&255 || n > 255 {
				if time.Now().After(end) {
					t.res.Capped = fmt.Sprintf("deadline of %d s reached in family %s", deadline, fam.Name)
					goto done
				}
			}
		}
	}
done:
	for s := range t.states {
		t.res.States = append(t.res.States, s)
	}
	b, err := json.Marshal(t.res)
	if err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(outfile, b, 0644); err != nil {
		panic(err)
	}
	os.Exit(0)
}

// oneMain: mc one ID tier family index   (prints FAIL and a description, or OK)
func oneMain(args []string) {
	c := checks[args[0]]
	thorough := args[1] == "thorough"
	idx, _ := strconv.ParseInt(args[3], 10, 64)
	dir := scratch()
	defer os.RemoveAll(dir)
	limits()
	t := newT(c, thorough, dir)
	if c.Setup != nil {
		c.Setup()
	}
	for _, f := range c.Families(thorough) {
		if f.Name != args[2] {
			continue
		}
		v := t.runCase(f, idx)
		if v != nil {
			fmt.Fprintf(realStdout, "FAIL %s\n", v.Desc)
			os.RemoveAll(dir)
			os.Exit(3)
		}
		fmt.Fprintln(realStdout, "OK")
		for _, s := range t.res.Samples {
			fmt.Fprintln(realStdout, s)
		}
		return
	}
	fmt.Fprintln(realStdout, "no such family")
}

var realStdout = os.Stdout

type shardRun struct {
	res    workerResult
	deaths []Violation
}

func runShard(self, id, tier string, shard, n int, deadline int, stop *int32) shardRun {
	var out shardRun
	dir := scratch()
	defer os.RemoveAll(dir)
	progfile := filepath.Join(dir, ".prog")
	outfile := filepath.Join(dir, ".out")
	ioutil.WriteFile(progfile, make([]byte, 64), 0644)
	pf, err := os.OpenFile(progfile, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	prog, err := syscall.Mmap(int(pf.Fd()), 0, 64, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	defer syscall.Munmap(prog)
	defer pf.Close()
	c := checks[id]
	fams := c.Families(tier == "thorough")
	startFam, startIdx := 0, int64(-1)
	begin := time.Now()
	merged := workerResult{Outcomes: map[string]int64{}, Done: map[string]int64{}, Skipped: map[string]int64{}}
	legit := 0
	for {
		left := deadline - int(time.Since(begin).Seconds())
		if left <= 0 {
			merged.Capped = "deadline reached after restarts"
			break
		}
		os.Remove(outfile)
		work := filepath.Join(dir, "w")
		os.RemoveAll(work)
		os.Mkdir(work, 0755)
		cmd := exec.Command(self, "worker", id, tier, strconv.Itoa(shard), strconv.Itoa(n), strconv.Itoa(startFam), strconv.FormatInt(startIdx, 10), work, progfile, outfile, strconv.Itoa(left))
		var stderr tailBuffer
		cmd.Stderr = &stderr
		cmd.Stdout = &stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		lockedStart(cmd)
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		last := ""
		lastChange := time.Now()
		hung := false
		var werr error
	wait:
		for {
			select {
			case werr = <-done:
				break wait
			case <-time.After(time.Second):
				now := string(prog)
				if now != last {
					last, lastChange = now, time.Now()
				} else if time.Since(lastChange) > hangTimeout {
					hung = true
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					werr = <-done
					break wait
				}
			}
		}
		b, rerr := ioutil.ReadFile(outfile)
		if werr == nil && rerr == nil {
			var r workerResult
			if err := json.Unmarshal(b, &r); err != nil {
				panic(err)
			}
			merge(&merged, r)
			break
		}
		fi := int(binary.LittleEndian.Uint64(prog[0:]))
		idx := int64(binary.LittleEndian.Uint64(prog[8:]))
		mayDie := binary.LittleEndian.Uint64(prog[24:]) == 1
		binary.LittleEndian.PutUint64(prog[24:], 0)
		merged.Evals += 1
		if mayDie && !hung {
			legit++
			if legit > 40 {
				merged.Capped = "too many runs ended the process"
				break
			}
		} else {
			merged.Violations = append(merged.Violations, Violation{Family: fams[fi].Name, Index: idx, Died: !hung, Hung: hung,
				Desc: fmt.Sprintf("the process %s: %v\n%s", map[bool]string{true: "hung", false: "died"}[hung], werr, stderr.String())})
			if hung || len(merged.Violations) >= 3 {
				break
			}
		}
		startFam, startIdx = fi, idx+int64(n)
	}
	out.res = merged
	return out
}

// Pdeathsig is tied to the thread which starts the process
var startMu sync.Mutex

func lockedStart(cmd *exec.Cmd) {
	startMu.Lock()
	defer startMu.Unlock()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
}

var hangTimeout = 90 * time.Second

type tailBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (b *tailBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if len(b.b) < 4000 {
		b.b = append(b.b, p...)
	}
	return len(p), nil
}
func (b *tailBuffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	s := string(b.b)
	if len(s) > 2500 {
		s = s[:2500]
	}
	return s
}

func merge(a *workerResult, b workerResult) {
	a.States = append(a.States, b.States...)
	a.StatesMore += b.StatesMore
	a.Evals += b.Evals
	a.Transitions += b.Transitions
	a.Traces += b.Traces
	a.Nontrivial += b.Nontrivial
	for k, v := range b.Outcomes {
		a.Outcomes[k] += v
	}
	for k, v := range b.Done {
		a.Done[k] += v
	}
	for k, v := range b.Skipped {
		a.Skipped[k] += v
	}
	a.Samples = append(a.Samples, b.Samples...)
	a.Violations = append(a.Violations, b.Violations...)
	if b.Capped != "" {
		a.Capped = b.Capped
	}
}

// Known findings: lines "finding: property=ID family=F index=N match=TEXT ..." in /verif/known-findings.txt
type finding struct{ prop, match, what string }

func loadFindings(path string) []finding {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return nil
	}
	var res []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var f finding
		parts := strings.SplitN(strings.TrimPrefix(l, "finding: "), " | ", 3)
		if len(parts) != 3 {
			continue
		}
		f.prop = strings.TrimPrefix(parts[0], "property=")
		f.match = strings.TrimPrefix(parts[1], "match=")
		f.what = parts[2]
		res = append(res, f)
	}
	return res
}

func confirm(self, id, tier string, v Violation) (bool, string) {
	for try := 0; try < 12; try++ {
		cmd := exec.Command(self, "one", id, tier, v.Family, strconv.FormatInt(v.Index, 10))
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		var buf tailBuffer
		cmd.Stdout = &buf
		cmd.Stderr = &buf
		if err := cmd.Start(); err != nil {
			continue
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case err := <-done:
			out := buf.String()
			if strings.HasPrefix(out, "OK") && err == nil {
				continue
			}
			return true, out
		case <-time.After(90 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
			return true, "hung for 90 s\n" + buf.String()
		}
	}
	return false, ""
}

// checkMain: mc check ID tier root
func checkMain(id, tier, root string) int {
	c := checks[id]
	if c == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	start := time.Now()
	self, _ := os.Executable()
	n := c.Workers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
		if n < 2 {
			n = 2
		}
	}
	deadline := 300
	if tier == "thorough" {
		deadline = 3000
	}
	if s := os.Getenv("MC_DEADLINE"); s != "" {
		deadline, _ = strconv.Atoi(s)
	}
	runs := make([]shardRun, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			runtime.LockOSThread()
			runs[i] = runShard(self, id, tier, i, n, deadline, nil)
		}(i)
	}
	wg.Wait()
	all := workerResult{Outcomes: map[string]int64{}, Done: map[string]int64{}, Skipped: map[string]int64{}}
	for _, r := range runs {
		merge(&all, r.res)
	}
	return finish(c, tier, root, self, &all, start)
}

func finish(c *Check, tier, root, self string, all *workerResult, start time.Time) int {
	id := c.ID
	fams := c.Families(tier == "thorough")
	order := map[string]int{}
	for i, f := range fams {
		order[f.Name] = i
	}
	sort.SliceStable(all.Violations, func(i, j int) bool {
		a, b := all.Violations[i], all.Violations[j]
		if order[a.Family] != order[b.Family] {
			return order[a.Family] < order[b.Family]
		}
		return a.Index < b.Index
	})
	findings := loadFindings(filepath.Join(root, "known-findings.txt"))
	rc := 0
	nviol := 0
	unconfirmed := 0
	known := map[string]bool{}
	hangs := 0
	for k, v := range all.Violations {
		if v.Hung {
			if hangs++; hangs > 2 {
				continue
			}
		}
		if k >= 12 || nviol >= 3 {
			break
		}
		isKnown := false
		for _, f := range findings {
			if f.prop == id && strings.Contains(v.Desc, f.match) {
				isKnown = true
				if !known[f.match] {
					known[f.match] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.what)
				}
			}
		}
		if isKnown {
			continue
		}
		ok, out := confirm(self, id, tier, v)
		if !ok {
			// It may depend on what the same process did before: repeat the whole shard
			unconfirmed++
			if !confirmInShard(self, id, tier, v) {
				fmt.Printf("note: %s[%d] failed once and not again: %s\n", v.Family, v.Index, firstLine(v.Desc))
				continue
			}
			out = "(only after the previous cases in the same process) " + v.Desc
		}
		nviol++
		rc = 1
		dir := filepath.Join(root, "evidence", "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, nviol))
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": id, "tier": tier, "family": v.Family, "index": v.Index, "description": v.Desc, "confirmed": out,
			"replay": fmt.Sprintf("/verif/run.sh replay %s %s %s %d", id, tier, v.Family, v.Index),
		}, "", " ")
		ioutil.WriteFile(path, append(b, '\n'), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  %s[%d]: %s\n", v.Family, v.Index, strings.ReplaceAll(v.Desc, "\n", "\n    "))
	}
	states := map[uint64]struct{}{}
	for _, s := range all.States {
		states[s] = struct{}{}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	exhaustive := all.Capped == "" && len(all.Violations) == 0
	famInfo := []map[string]interface{}{}
	for _, f := range fams {
		if all.Done[f.Name] != f.N {
			exhaustive = false
		}
		famInfo = append(famInfo, map[string]interface{}{"name": f.Name, "what": f.Desc, "cases": f.N, "explored": all.Done[f.Name]})
	}
	samples := []interface{}{}
	seen := map[string]bool{}
	for _, s := range all.Samples {
		k := strings.SplitN(s, "[", 2)[0]
		if seen[k] || len(samples) >= 24 {
			continue
		}
		seen[k] = true
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		samples = append(samples, s)
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": levelOf(id),
		"coverage": map[string]interface{}{
			"states": len(states), "transitions": all.Transitions, "traces_validated_against_impl": all.Traces,
			"evaluations": all.Evals, "distinct_nontrivial": all.Nontrivial, "rule": c.Rule,
			"samples": samples, "exhaustive": exhaustive, "families": famInfo, "outcomes": all.Outcomes,
			"capped": all.Capped, "skipped": all.Skipped, "unconfirmed": unconfirmed, "states_not_hashed": all.StatesMore,
			"known_findings": len(known),
		},
		"assumptions": c.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nviol,
	}
	if ev["assumptions"] == nil || len(c.Assumptions) == 0 {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	ioutil.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s %s: %d cases, %d states, %d transitions, exhaustive=%v, %.1f s, outcomes %v\n", id, tier, all.Evals, len(states), all.Transitions, exhaustive, time.Since(start).Seconds(), topOutcomes(all.Outcomes))
	if all.Capped != "" {
		fmt.Println("capped:", all.Capped)
	}
	return rc
}

func topOutcomes(m map[string]int64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] || (m[ks[i]] == m[ks[j]] && ks[i] < ks[j]) })
	s := ""
	for i, k := range ks {
		if i == 8 {
			s += " ..."
			break
		}
		s += fmt.Sprintf(" %s:%d", k, m[k])
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// confirmInShard repeats, in a new process, all the cases of a shard up to the one which failed.
func confirmInShard(self, id, tier string, v Violation) bool {
	n := checks[id].Workers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
		if n < 2 {
			n = 2
		}
	}
	shard := int(v.Index % int64(n))
	for try := 0; try < 2; try++ {
		r := runShard(self, id, tier, shard, n, 600, nil)
		for _, w := range r.res.Violations {
			if w.Family == v.Family && w.Index == v.Index {
				return true
			}
		}
	}
	return false
}

func levelOf(id string) string {
	if id == "C16" {
		return "fault_enumeration"
	}
	return "model_checking"
}
