package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"syscall"
)

// C18: the registry of back-ends. The real accounting.Register and accounting.Open run
// in another program (reg) where sync is replaced by a controlled one.

type regReport struct {
	Executions   int64
	Transitions  int64
	States       []uint64
	Fail         string
	Uncontrolled bool
	Capped       bool
}

var regUncontrolled = map[string]bool{}

var regProc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr tailBuffer
	n      int
}

func regStop() error {
	p := &regProc
	p.in.Close()
	err := p.cmd.Wait()
	p.cmd = nil
	return err
}

// regAsk sends a line to reg; the same process is used for several scenarios.
func regAsk(bin, line string) ([]byte, error) {
	p := &regProc
	if p.cmd != nil && p.cmd.Path != bin {
		regStop()
	}
	if p.cmd == nil {
		p.cmd = exec.Command(bin, "explore")
		p.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=1")
		p.stderr = tailBuffer{}
		p.cmd.Stderr = &p.stderr
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		p.in, _ = p.cmd.StdinPipe()
		out, _ := p.cmd.StdoutPipe()
		p.out = bufio.NewReaderSize(out, 1<<20)
		p.n = 0
		lockedStart(p.cmd)
	}
	io.WriteString(p.in, line)
	res, err := p.out.ReadBytes('\n')
	if err != nil { // it has ended
		if werr := regStop(); werr != nil {
			err = werr
		}
		return nil, fmt.Errorf("%v\n%s", err, p.stderr.String())
	}
	if p.n++; p.n >= 10 || strings.Contains(string(res), `"Fail":"scen`) {
		regStop()
	}
	return res, nil
}

// regScenario explores a scenario with up to bound preemptions.
func (t *T) regScenario(sc string, bound int, process bool) {
	bin := os.Getenv("MC_REG")
	if process {
		bin = os.Getenv("MC_REGPLAIN") // it starts faster; the other families look for races
	}
	if bin == "" {
		t.Skip("the registry uses something which cannot be replaced: only free runs")
		return
	}
	if regUncontrolled["x"] {
		t.Skip("the registry uses synchronization which is not controlled: only free runs")
		return
	}
	t.Tick()
	out, err := regAsk(bin, fmt.Sprintf("%d\t%v\t300000\t%s\n", bound, process, sc))
	if err != nil {
		t.Failf("scenario %q: %v", sc, err)
	}
	var r regReport
	if err := json.Unmarshal(out, &r); err != nil {
		panic(fmt.Sprint(err, string(out)))
	}
	if r.Uncontrolled {
		regUncontrolled["x"] = true
		t.Skip("the registry uses synchronization which is not controlled: only free runs")
		return
	}
	if r.Fail != "" {
		t.Failf("%s", r.Fail)
	}
	t.Trans(int(r.Transitions))
	for i := int64(0); i < r.Executions; i++ {
		t.Trace()
	}
	for _, s := range r.States {
		t.StateHash(s ^ uint64(t.idx)*0x9e3779b97f4a7c15)
	}
	if r.Capped {
		t.Out("cut at 300000 schedules")
	}
	if r.Executions > 1 {
		t.Nontrivial()
		t.Out("explored")
	} else {
		t.Out("only one schedule")
	}
	t.Sample(fmt.Sprintf("%s: %d schedules, %d histories", sc, r.Executions, len(r.States)))
}

// regPrograms gives the sequences of up to n operations.
func regPrograms(ops []string, n int) []string {
	var res, last []string
	last = []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range last {
			for _, o := range ops {
				next = append(next, p+o)
			}
		}
		res = append(res, next...)
		last = next
	}
	return res
}

// regScenarios gives the multisets of programs for the threads, with everything else.
func regScenarios(pres, behaviours []string, progs []string, threads int) []string {
	var sets [][]int
	var rec func(cur []int, from int)
	rec = func(cur []int, from int) {
		if len(cur) == threads {
			sets = append(sets, append([]int(nil), cur...))
			return
		}
		for i := from; i < len(progs); i++ {
			rec(append(cur, i), i)
		}
	}
	rec(nil, 0)
	var res []string
	for _, pre := range pres {
		for _, b := range behaviours {
			for _, set := range sets {
				s := pre + " " + b
				opens, regs := false, false
				for _, i := range set {
					s += " " + progs[i]
					opens = opens || strings.Contains(progs[i], "O")
					regs = regs || strings.ContainsAny(progs[i], "RN")
				}
				if b != "ok" && !opens {
					continue // it is the same
				}
				if pre == "-" && !regs {
					continue // nothing can be opened
				}
				res = append(res, s)
			}
		}
	}
	return res
}

func famReg(name string, desc string, bound int, process bool, list []string) Family {
	return Family{Name: name, Desc: fmt.Sprintf("%s: %d scenarios, with all the schedules with up to %d preemptions", desc, len(list), bound), N: int64(len(list)), Run: func(t *T, i int64) {
		t.regScenario(list[i], bound, process)
	}}
}

func famRegFree(list []string) Family {
	return Family{Name: "free", Desc: fmt.Sprintf("%d scenarios without controlling the schedule, under the race detector", len(list)), N: int64(len(list)), Run: func(t *T, i int64) {
		bin := os.Getenv("MC_REGRACE")
		if bin == "" {
			t.Skip("no race detector")
			return
		}
		t.raceRun(bin, fmt.Sprintf("scenario %q", list[i]), "free", list[i], "30")
	}}
}

var regOps = []string{"Rledger", "Rtxtdb", "Rpostgres", "Rx", "Nledger", "Nx",
	"Usome/path", "Uledger:some/path", "UTXTDB:///p", "Upostgres://u:w@h:5/d?a=b#c", "Ux:", "Uy:z", "U", "U\x7f", "U//host/%zz", "U//host/p x"}

// names like one another: each of them is another back-end
var regNames = []string{"Rledge", "Rledger", "Rledger2", "Ra-b", "Ra.b", "Ra+b", "Rab", "Ra",
	"Uledge:x", "Uledger2:x y", "Ua-b:some/path?q=1", "Ua.b:/some/path", "Ua+b://h/p", "UAB:p#f", "Ua:", "Uab+:x", "Usome/path"}

func famRegHistories(name string, ops []string, depth int, behaviours []string) Family {
	return Family{Name: name, Desc: fmt.Sprintf("all sequences of up to %d of %q in a new process, with back-ends which give %q", depth, ops, behaviours), N: seqCount(len(ops), depth) * int64(len(behaviours)), Run: func(t *T, i int64) {
		seq := seqDecode(i/int64(len(behaviours)), len(ops), depth)
		b := behaviours[i%int64(len(behaviours))]
		args := []string{"history", b}
		opens := false
		for _, k := range seq {
			args = append(args, ops[k])
			opens = opens || ops[k][0] == 'U'
		}
		if !opens && b != behaviours[0] {
			t.Skip("nothing is opened")
			return
		}
		out, err := exec.Command(os.Getenv("MC_REGSEQ"), args...).CombinedOutput()
		if err != nil {
			s := string(out)
			if len(s) > 2500 {
				s = s[:2500]
			}
			t.Failf("%s: %v", s, err)
		}
		t.Trans(len(seq))
		t.State(strings.Join(args, " "))
		if len(seq) > 1 {
			t.Nontrivial()
		}
		t.Trace()
		t.Out("right")
		t.Sample(strings.Join(args, " "))
	}}
}

func init() {
	register(&Check{ID: "C18", Rule: "each case is a scenario of the real Register and Open with sync replaced by a controlled one: every schedule (up to a number of preemptions) has to give what some order of the operations would give in a map, compatible with when they began and finished, with no deadlock and no data race, and the registry has to be as that afterwards; or a sequence of operations in a new process",
		Assumptions: []string{"the operations of sync and sync/atomic are the only points where the interleaving matters (the race detector, which runs in the same schedules, says so)", "the controlled RWMutex is like that of Go: a writer which waits does not let more readers in", "names of back-ends are URL schemes in small letters (others can be registered, but no data source can name them)"},
		Families: func(th bool) []Family {
			ops := []string{"Ra", "Rb", "Na", "Oa", "Ob", "Ou"}
			beh := []string{"ok", "error", "errorconn", "panic", "open", "register"}
			defs := []string{"- ok Rl Op", "- ok Rt Rl Op", "- ok RtRl Op", "- ok RlRt Op", "t ok Rl Op", "t ok RlRl OpOp", "g ok Rt RlOp Op", "- ok RlOp RlOp", "lt panic Op Op Rg", "- ok RgOp RtOp RlOp", "g error Op RtOp", "- ok RtRl RlRt Op", "- ok Nl Rl Op", "- register Rl Op Op"}
			b2, b3, bd, n := 2, 2, 2, 3
			ops3 := []string{"Ra", "Na", "Oa", "Ob"}
			pres, pres2 := []string{"-", "b", "ab"}, []string{"-", "b"}
			free := regScenarios([]string{"-", "b"}, []string{"ok", "open", "register", "panic"}, ops3, 3)
			beh2 := []string{"ok", "open"}
			if th {
				b2, b3, bd, n = 4, 3, 4, 4
				ops3 = ops
				beh2, pres2 = beh, pres
				free = regScenarios([]string{"-", "b"}, beh, ops, 3)
			}
			fs := []Family{
				famReg("two-threads", fmt.Sprintf("two threads of up to 2 of the operations %q, back-ends %q, registered before %q", ops, beh2, pres2), b2, false, regScenarios(pres2, beh2, regPrograms(ops, 2), 2)),
				famReg("three-threads", fmt.Sprintf("three threads of one of the operations %q, back-ends %q, registered before %q", ops3, beh, pres), b3, false, regScenarios(pres, beh, ops3, 3)),
				famReg("default", "opening without a scheme while the default back-ends are registered", bd, true, defs),
				famRegHistories("histories", regOps, n, []string{"ok", "error", "errorconn", "panic"}),
				famRegHistories("names", regNames, n, []string{"ok"}),
				famRegFree(free),
			}
			if th {
				fs = append(fs, famReg("three-threads-2", "three threads of up to 2 operations", 2, false, regScenarios([]string{"-", "b"}, []string{"ok", "open"}, regPrograms([]string{"Ra", "Oa", "Ob"}, 2), 3)),
					famReg("four-threads", "four threads of one operation", 2, false, regScenarios(pres, []string{"ok", "open", "register"}, ops3, 4)))
			}
			return fs
		}})
}
