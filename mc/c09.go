package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/cespedes/accounting"
)

// C09: several ledgers in one process.

var isoJournals = []string{
	// 0: own dates, prices, comments
	"account A ; one\naccount B\ncommodity 1.000,00 X ; cx\nP 2020-01-04 X 2,00 Y\n2020-01-05 t ; ct\n  A  1,50 X ; date:2020-01-07\n  B  -1,50 X ; date:2020-01-06\n2020-01-08 e\n  A  3 X\n  B  -6 Y\n",
	// 1: the same names in another way
	"account B\naccount A:C ; code:9\ncommodity Y 1,000.000\nD X 5\n2020-01-05 t\n  A  7\n  B ; date:2020-01-04\n2020-01-06 u\n  A  = 3 X\n  Z:Y:X ; k\n",
	// 2: amounts without currency
	"2020-01-05 t\n  A  5,25\n  A:B  -5,25 ; date:2020-02-05\n2020-01-06 t\n  A  1 X @@ 3,00\n  Q\n",
	// 3: no own dates
	"account A\n2020-01-05 t\n  A  1 Z\n  B\n  ; last\n",
	// 4: refused, with own dates
	"account A ; bad\n2020-01-05 t\n  A  1,5 X ; date:2020-01-01\n  B  -1 X ; date:2020-01-02\n2020-01-06 t\n  A  1 X\n",
	// 5: refused, cannot be balanced
	"D 1 X\nD\n2020-01-05 t\n  A\n  B\n2020-01-06 t\n  A  5 ; date:2020-01-07\n  B\n",
	// 6 and 7: many transactions, currencies and prices, without and with own dates
	isoLarge(""),
	isoLarge(" ; date:2020-03-01/10:30"),
}

func isoLarge(own string) string {
	var b strings.Builder
	b.WriteString("account Assets:Current:Bank ; code:77\naccount Expenses:Food\ncommodity 1.000,00 EUROS ; isin:E1\n  ; dated: x\ncommodity $1,000.00\nD 1 EUROS\n")
	for i := 0; i < 12; i++ {
		fmt.Fprintf(&b, "P 2020-01-%02d $ 0,%02d EUROS ; automatically:%d\n", i+1, 80+i, i%3)
		fmt.Fprintf(&b, "2020-01-%02d Shopping ; shop:%d\n  Assets:Current:Bank  -%d,25 EUROS%s\n  Expenses:Food  %d,25 EUROS\n", i+1, i%3, i+1, own, i+1)
		if i%4 == 1 {
			fmt.Fprintf(&b, "2020-01-%02d Exchange\n  Assets:Current:Bank  -%d EUROS\n  Assets:Dollars  $%d\n", i+1, i+1, 2*i+1)
		}
		if i%4 == 2 {
			fmt.Fprintf(&b, "2020-01-%02d Shares\n  Assets:Shares:Of a company  %d LONGNAME @ 3,5 EUROS ; k%d\n  Assets:Current:Bank\n", i+1, i, i%3)
		}
	}
	return b.String()
}

var isoTxtdbFiles = map[string]string{
	"db/accounts":     "1:x:y:A:code:\n2:x:y:B::1\n3:x:y:Z::9\n",
	"db/transactions": "1:2020-01-05:t:c:1:+5.25:\n2:2020-01-06:t:c:2:-5.25:\n3:2020-01-07 10.30:u:c:3:+1.00:\n4:2020-01-07 10.30:u:c:1:-1.00:\n",
}

func isoWrite(dir string) []string {
	var res []string
	for i, s := range isoJournals {
		p := filepath.Join(dir, fmt.Sprintf("iso%d", i))
		if err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {
			panic(err)
		}
		res = append(res, p)
	}
	os.MkdirAll(filepath.Join(dir, "db"), 0755)
	for n, s := range isoTxtdbFiles {
		if err := ioutil.WriteFile(filepath.Join(dir, n), []byte(s), 0644); err != nil {
			panic(err)
		}
	}
	return append(res, "txtdb:"+filepath.Join(dir, "db"))
}

type isoOp struct {
	name     string
	modifies bool
	do       func(L *accounting.Ledger) *accounting.Ledger // it may return another ledger
}

func isoQueries(L *accounting.Ledger) {
	export(L)
	for _, a := range L.Accounts {
		L.GetBalance(a, time.Time{})
		L.GetBalance(a, day(6))
		_ = a.FullName()
		if a.ID != nil {
			L.Account(a.ID)
			L.TransactionsInAccount(a.ID)
		}
	}
	L.TransactionsInInterval(day(1), day(7))
	for _, a := range L.Currencies {
		for _, b := range L.Currencies {
			L.Convert(accounting.Value{Amount: 5 * unit, Currency: a}, day(6), b)
		}
	}
	L.Flush()
}

var isoOps = []isoOp{
	{"Fill", false, func(L *accounting.Ledger) *accounting.Ledger { L.Fill(); return nil }},
	{"query", false, func(L *accounting.Ledger) *accounting.Ledger { isoQueries(L); return nil }},
	{"Clone", false, func(L *accounting.Ledger) *accounting.Ledger { return L.Clone() }},
	{"add and Fill", true, func(L *accounting.Ledger) *accounting.Ledger { addOwn(L, 3*unit); L.Fill(); return nil }},
	{"modify everything", true, func(L *accounting.Ledger) *accounting.Ledger { scramble(L); return nil }},
	{"remove everything and Fill", true, func(L *accounting.Ledger) *accounting.Ledger {
		L.Accounts, L.Transactions, L.Prices = nil, nil, nil
		L.Fill()
		return nil
	}},
	{"Close", false, func(L *accounting.Ledger) *accounting.Ledger { L.Refresh(); L.Close(); return nil }},
}

var isoWant []string // what each source gives, alone

func (t *T) isoExpected() []string {
	if isoWant != nil {
		return isoWant
	}
	srcs := isoWrite(t.dir)
	for i, src := range srcs {
		o := t.OpenSource(src)
		if i < len(isoJournals) {
			files := map[string]string{src: isoJournals[i]}
			t.files = map[string]string{src: isoJournals[i]}
			ref := ReadRef(files, src)
			t.Compare(ref, o, FAll)
		}
		w := o.Outcome() + " " + fmt.Sprint(o.Err)
		if o.L != nil {
			w = DumpL(o.L, full)
		}
		isoWant = append(isoWant, w)
	}
	return isoWant
}

func famIsolation(depth int, nsrc []int) Family {
	// operations: open a source, or do something to the first or the last ledger
	var ops []string
	for _, s := range nsrc {
		ops = append(ops, fmt.Sprintf("open %d", s))
	}
	base := len(ops)
	for _, o := range isoOps {
		ops = append(ops, o.name+" (first)", o.name+" (last)")
	}
	return Family{Name: "histories" + strings.Trim(strings.Replace(fmt.Sprint(nsrc), " ", "", -1), "[]"), Desc: fmt.Sprintf("all sequences of up to %d of the operations %q", depth, ops), N: seqCount(len(ops), depth), Run: func(t *T, i int64) {
		want := t.isoExpected()
		srcs := isoWrite2(t.dir, len(want))
		type slot struct {
			L       *accounting.Ledger
			src     int
			touched bool
			dead    bool // it makes no sense any more
		}
		var slots []*slot
		hist := ""
		seq := seqDecode(i, len(ops), depth)
		for _, k := range seq {
			hist += " -> " + ops[k]
			t.Trans(1)
			if k < base {
				s := nsrc[k]
				o := t.OpenSource(srcs[s])
				got := o.Outcome() + " " + fmt.Sprint(o.Err)
				if o.L != nil {
					got = DumpL(o.L, full)
				}
				if got != want[s] {
					t.Failf("after%s, a ledger is not as when it is opened alone: %s", hist, diff(want[s], got))
				}
				if o.L != nil {
					slots = append(slots, &slot{L: o.L, src: s})
				}
			} else {
				if len(slots) == 0 {
					t.Skip("nothing open")
					return
				}
				op := isoOps[(k-base)/2]
				sl := slots[0]
				if (k-base)%2 == 1 {
					sl = slots[len(slots)-1]
					if len(slots) == 1 {
						t.Skip("first is last")
						return
					}
				}
				if sl.dead {
					t.Skip("the ledger makes no sense any more")
					return
				}
				t.cap.reset()
				if c := op.do(sl.L); c != nil {
					slots = append(slots, &slot{L: c, src: sl.src, touched: sl.touched})
				}
				if op.modifies {
					sl.touched = true
					sl.dead = op.name != "add and Fill"
				}
			}
			for n, sl := range slots {
				if sl.touched {
					continue
				}
				if d := DumpL(sl.L, full); d != want[sl.src] {
					t.Failf("after%s, ledger %d (source %d) changed: %s", hist, n, sl.src, diff(want[sl.src], d))
				}
			}
		}
		for a := range slots {
			for b := a + 1; b < len(slots); b++ {
				if slots[a].dead || slots[b].dead {
					continue
				}
				if s := shared(slots[a].L, slots[b].L); s != "" {
					t.Failf("after%s, ledgers %d and %d are not independent: %s", hist, a, b, s)
				}
			}
		}
		if len(slots) > 1 {
			t.Nontrivial()
			t.Out("several ledgers")
		} else {
			t.Out("one ledger or none")
		}
		t.Trace()
		st := ""
		for _, sl := range slots {
			st += fmt.Sprintf("%d %v;", sl.src, sl.touched)
			if sl.touched {
				st += fmt.Sprint(len(sl.L.Accounts), len(sl.L.Transactions), len(sl.L.Comments))
			}
		}
		t.State(st)
		t.Sample(hist)
	}}
}

func isoWrite2(dir string, n int) []string {
	var res []string
	for i := 0; i < len(isoJournals); i++ {
		res = append(res, filepath.Join(dir, fmt.Sprintf("iso%d", i)))
	}
	return append(res, "txtdb:"+filepath.Join(dir, "db"))[:n]
}

// ---- concurrent use of different ledgers, under the race detector

var raceNames = func() []string {
	res := []string{"Open"}
	for _, o := range isoOps {
		res = append(res, o.name)
	}
	return res
}()

// raceMain: mc race A B SRC1 SRC2 (in a binary built with -race): operations A and B on two ledgers at the same time
func raceMain(args []string) {
	var n [4]int
	for i := range n {
		fmt.Sscan(args[i], &n[i])
	}
	log.SetOutput(ioutil.Discard)
	dir := scratch()
	defer os.RemoveAll(dir)
	srcs := isoWrite(dir)
	open := func(s int) *accounting.Ledger {
		L, err := accounting.Open(srcs[s])
		if err != nil {
			return nil
		}
		return L
	}
	for rep := 0; rep < 2; rep++ {
		L := [2]*accounting.Ledger{open(n[2]), open(n[3])}
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < 2; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				if n[g] == 0 {
					open(n[2+g])
				} else if L[g] != nil {
					isoOps[n[g]-1].do(L[g])
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for g := 0; g < 2; g++ {
			if L[g] == nil || n[g] > 0 && isoOps[n[g]-1].modifies {
				continue
			}
			M := open(n[2+g])
			if a, b := DumpL(M, full), DumpL(L[g], full); a != b {
				fmt.Println("DIFFERENT:", diff(a, b))
				os.Exit(65)
			}
		}
	}
	fmt.Println("RACE-OK")
}

func famRace(srcs [][2]int) Family {
	k := len(raceNames)
	return Family{Name: "concurrent", Desc: fmt.Sprintf("all the pairs of the operations %q, at the same time on two ledgers (%d pairs of sources), under the race detector: without data races every interleaving gives the same", raceNames, len(srcs)), N: int64(k * k * len(srcs)), Run: func(t *T, i int64) {
		bin := os.Getenv("MC_RACE")
		if bin == "" {
			t.Skip("no race detector")
			return
		}
		d := &Dec{i}
		a, b, s := d.Pick(k), d.Pick(k), srcs[d.Pick(len(srcs))]
		t.raceRun(bin, fmt.Sprintf("%q and %q at the same time on ledgers %v", raceNames[a], raceNames[b], s), "race", fmt.Sprint(a), fmt.Sprint(b), fmt.Sprint(s[0]), fmt.Sprint(s[1]))
	}}
}

// raceRun runs a binary built with the race detector.
func (t *T) raceRun(bin string, what string, args ...string) {
	var out []byte
	var err error
	for try := 0; try < 3; try++ {
		cmd := exec.Command(bin, args...)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=4")
		out, err = cmd.CombinedOutput()
		if err == nil && strings.Contains(string(out), "RACE-OK") {
			t.Trans(2)
			t.Nontrivial()
			t.Out("no races")
			t.StateHash(uint64(t.idx))
			return
		}
		if strings.Contains(string(out), "DATA RACE") || strings.Contains(string(out), "DIFFERENT") || strings.Contains(string(out), "panic:") || strings.Contains(string(out), "fatal error:") {
			break
		}
	}
	s := string(out)
	if len(s) > 2500 {
		s = s[:2500]
	}
	t.Failf("%s: %v\n%s", what, err, s)
}

func init() {
	register(&Check{ID: "C09", Rule: "each case is a sequence of operations on several ledgers of one process: every ledger which nobody modified has to be always exactly as when it is opened alone (checked with the reference), and the memory reachable from any two of them has to be disjoint; or a pair of concurrent operations under the race detector",
		Assumptions: []string{"without data races, every interleaving of operations on different ledgers is equivalent to doing them one after another; the race detector sees every access of the operations in every pair"},
		Families: func(th bool) []Family {
			n := 4
			pairs := [][2]int{{0, 1}, {0, 0}, {2, 8}, {4, 1}, {6, 7}}
			if th {
				n = 5
				pairs = append(pairs, [][2]int{{8, 8}, {1, 2}, {3, 0}, {5, 2}, {4, 4}, {7, 7}}...)
			}
			return []Family{famIsolation(n, []int{0, 1, 2, 3, 4, 5, 8}), famIsolation(n+1, []int{0, 1, 4}), famIsolation(n+1, []int{2, 8, 5}), famIsolation(n, []int{6, 7}), famRace(pairs)}
		}})
}
