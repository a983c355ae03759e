package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/cespedes/accounting"
)

// C28: the muscular command, run as a user does.

var musJournals = []string{
	`commodity 1.00 EUR
commodity 1.0000 X
commodity 1 Y
commodity 1 Z
commodity 1 W
D 1.00 EUR
P 2019-06-01 X 1.50 EUR
P 2019-11-30 Y 10 EUR
P 2020-01-31/12:00 X 2.25 EUR
P 2020-02-01 Y 7 EUR
P 2020-02-29 X 4 EUR
P 2020-02-29 Z 3 Y
P 2020-03-01 Y 8 EUR
P 2020-03-31/18:00 X 3 EUR
P 2020-12-31 X 3.125 EUR
P 2021-01-01 Y 5 EUR
P 2021-02-01 X 7 EUR
`,
	`commodity 1 X
commodity 1 Y
D 1.000 E
P 2020-01-01 X 8 E
2020-01-15 t
  A  2 Y @ 4 E
  B
2020-02-15 t
  A  2 Y @@ 6 E
  B  -6 E
2020-03-01 u
  B  10 E
  A
P 2020-03-01 X 2 E
P 2020-03-01 x 3 E
P 2020-05-01 x 5 E
`,
	`commodity 1 X
commodity 1 E
P 2020-01-01 X 8 E
P 2020-06-01 X 4 E
`,
}

// musZero has prices which are zero, or which round to it
const musZero = `commodity 1.00 X
commodity 1 Y
commodity 1 Z
D 1.00 EUR
P 2019-01-01 Y 0.00000001 EUR
P 2019-01-01 Z 0.0001 Y
P 2019-06-01 X 0 EUR
P 2019-12-15 X 2 EUR
P 2020-01-01 Z -3 EUR
P 2020-01-31/23:59:59 X 0 EUR
P 2020-02-29 Y 1 EUR
P 2020-03-01 X 5 EUR
P 2020-12-01 Z 1 EUR
P 2020-12-31/23:59:59 X 0 EUR
`

var (
	musEnds     = []string{"", "2019-12-31", "2020", "2020-01", "2020-02", "2020-02-29", "2020-02-29/12:30", "2020-03-01", "2020-03-15/00:00:01", "2020-12", "2021-02-28"}
	musMeasures = []string{"", "1m", "1m0d", "3m0d", "30d", "1m1d", "0m5d", "12m", "2m10d", "1d"}
	musLists    = []string{"X", "X Y", "Y X Y", "Z EUR", "E Y", "Z X", "x X", "W X", "X W", "NOPE", ""}
	musOthers   = []string{"", "-b 2020-02", "-b 2020-02-15", "-b 2021", "-period 2m", "-period 10d -num 5 -divide 2.5 -batch"}
)

type musCase struct {
	end, measure string
	n            int
	other        string
	list         string
}

func (c musCase) args() []string {
	var a []string
	if c.end != "" {
		a = append(a, "-e", c.end)
	}
	if c.measure != "" {
		a = append(a, "-measureperiod", c.measure)
	}
	if c.n != 0 {
		a = append(a, "-measures", strconv.Itoa(c.n))
	}
	a = append(a, strings.Fields(c.other)...)
	return append(a, strings.Fields(c.list)...)
}

// musWant gives the momentum of each commodity: ok is false if it must be refused.
func (t *T) musWant(L *accounting.Ledger, c musCase) (want [][2]float64, ok bool) {
	end := time.Now()
	if c.end != "" {
		end = *repDate(c.end, true)
	}
	months, days := 3, 0
	if c.measure != "" {
		months = 0
		s := c.measure
		if i := strings.IndexByte(s, 'm'); i >= 0 {
			months, _ = strconv.Atoi(s[:i])
			s = s[i+1:]
		}
		if s != "" {
			days, _ = strconv.Atoi(s[:len(s)-1])
		}
	}
	n := c.n
	if n == 0 {
		n = 1
	}
	ok = true
	price := func(name string, when time.Time, last bool) float64 {
		for _, cur := range L.Currencies {
			if cur.Name == name {
				v, err := L.Convert(accounting.Value{Amount: accounting.U, Currency: cur}, when, L.DefaultCurrency)
				if err != nil || v.Currency != L.DefaultCurrency || v.Amount == 0 && !last {
					ok = false
					return 1
				}
				return float64(v.Amount)
			}
		}
		ok = false
		return 1
	}
	for _, name := range strings.Fields(c.list) {
		var w [2]float64
		for k := 0; k < 2; k++ { // when there is no such day in a month: the last one, or as many days later
			sum := 0.0
			last := price(name, end, true)
			at := end
			for j := 0; j < n; j++ {
				at2 := at.AddDate(0, -months, 0)
				if k == 1 && at2.Day() != at.Day() {
					at2 = at2.AddDate(0, 0, -at2.Day())
				}
				at = at2.AddDate(0, 0, -days)
				sum += last / price(name, at, false)
			}
			w[k] = sum/float64(n) - 1
		}
		want = append(want, w)
	}
	return want, ok
}

func (t *T) musCheck(L *accounting.Ledger, c musCase, env bool, args []string) {
	want, ok := t.musWant(L, c)
	out, errs, code := t.runMuscular(env, args...)
	t.Trans(1)
	fail := func(format string, a ...interface{}) {
		t.Failf("muscular %s: %s\n--- output (exit %d):\n%s%s%s", strings.Join(args, " "), fmt.Sprintf(format, a...), code, out, errs, t.show())
	}
	t.Sample(strings.Join(args, " ") + "\n" + out)
	if !ok {
		if code == 0 || errs == "" || out != "" {
			fail("there is a commodity without price: it should be refused")
		}
		t.Out("refused")
		return
	}
	if code != 0 {
		fail("it should not fail")
	}
	lines := strings.Split(out, "\n")
	names := strings.Fields(c.list)
	if lines[len(lines)-1] != "" || len(lines) != len(want)+1 {
		fail("there should be %d lines", len(want))
	}
	for i, w := range want {
		f := strings.Fields(lines[i])
		if len(f) != 2 || f[1] != names[i] {
			fail("line %d should be for %s", i+1, names[i])
		}
		x, err := strconv.ParseFloat(f[0], 64)
		if err != nil {
			fail("line %d: %v", i+1, err)
		}
		good := false
		for _, y := range w {
			d := x - y
			good = good || d < 0.0000011 && d > -0.0000011
		}
		if !good {
			fail("the momentum of %s is not %f", names[i], w[0])
		}
		if w[0] != 0 {
			t.Nontrivial()
		}
	}
	t.Out("shown")
}

func (t *T) runMuscular(env bool, args ...string) (stdout, stderr string, code int) {
	if !env {
		args = append([]string{"-f", t.Path("j")}, args...)
	}
	return t.runCmd(os.Getenv("MC_MUSCULAR"), env, args...)
}

func famMomentum(name string, journals, ends, measures, others, lists []string, ns []int) Family {
	return Family{Name: name, Desc: fmt.Sprintf("%d journals, the dates of end %q, measure periods %q, numbers of measures %v, other options %q and lists of commodities %q", len(journals), ends, measures, ns, others, lists),
		N: int64(len(journals) * len(ends) * len(measures) * len(others) * len(lists) * len(ns)), Run: func(t *T, i int64) {
			d := &Dec{i}
			j := journals[d.Pick(len(journals))]
			c := musCase{list: lists[d.Pick(len(lists))], end: ends[d.Pick(len(ends))], measure: measures[d.Pick(len(measures))], other: others[d.Pick(len(others))], n: ns[d.Pick(len(ns))]}
			o := t.Journal(j)
			if o.L == nil {
				t.Failf("it does not open: %s%s", o, t.show())
			}
			defer closeLedger(o.L)
			t.musCheck(o.L, c, i%7 == 0, c.args())
			t.StateHash(uint64(i))
			t.Trace()
		}}
}

var musCmds = []musCase{
	{end: "2020-02", list: "X"}, {end: "2020-12", list: "Y", n: 2, measure: "1m"}, {end: "2020-03-01", other: "-b 2020-02", list: "X Y"},
	{end: "2020", list: "NOPE"}, {list: "Z X", end: "2021-02-28", measure: "30d", n: 3}, {end: "2020-02", list: ""}, {},
}

// famMusSeparate: commands separated with "--"
func famMusSeparate(depth int) Family {
	return Family{Name: "separate", Desc: fmt.Sprintf("all the sequences of up to %d of %d commands, separated with --", depth, len(musCmds)), N: seqCount(len(musCmds), depth) * 2, Run: func(t *T, i int64) {
		t.files = map[string]string{}
		t.WriteFile("j", musJournals[i%2])
		var args []string
		want := ""
		fails := false
		for k, n := range seqDecode(i/2, len(musCmds), depth) {
			if k > 0 {
				args = append(args, "--")
			}
			a := musCmds[n].args()
			args = append(args, a...)
			if len(a) == 0 || fails {
				continue
			}
			o, _, ec := t.runMuscular(false, a...)
			want += o
			fails = ec != 0
		}
		out, errs, ec := t.runMuscular(i%5 == 0, args...)
		t.Trans(depth)
		if (ec != 0) != fails || out != want {
			t.Failf("muscular %s (exit %d) is not as its commands separately: %s\n%s%s", strings.Join(args, " "), ec, diff(want, out), errs, t.show())
		}
		t.Nontrivial()
		t.Out(map[bool]string{false: "the same", true: "one of them fails"}[fails])
		t.StateHash(uint64(i))
		t.Trace()
	}}
}

var musRefused = []string{"-e 2020-13 X", "-e x X", "-b 2020-02-31 X", "-b x X", "-measureperiod x X", "-measureperiod 3 X", "-measureperiod 3x X", "-measureperiod 3m2 X", "-measureperiod 3m2dx X", "-period 3 X", "-period 1m2dd X", "-measures 0 X", "-measures -1 X", "-measures x X", "-nosuch X", "-e", "-num x X", "-e 2020-02-30 X"}

var famMusRefused = Family{Name: "refused", Desc: fmt.Sprintf("each of %q, and journals which cannot be opened", musRefused), N: int64(len(musRefused) + 3), Run: func(t *T, i int64) {
	t.files = map[string]string{}
	j := musJournals[0]
	args := []string{"X"}
	if int(i) < len(musRefused) {
		args = strings.Fields(musRefused[i])
	} else {
		j = []string{"2020-01-05 t\n  A  1 X\n  B  1 X\n", "include nosuch\n", ""}[int(i)-len(musRefused)]
	}
	t.WriteFile("j", j)
	if j == "" {
		os.Remove(t.Path("j"))
	}
	out, errs, code := t.runMuscular(i%2 == 0, args...)
	t.Trans(1)
	if code == 0 || errs == "" || out != "" {
		t.Failf("muscular %q should be refused (exit %d)\n%s%s%s", args, code, out, errs, t.show())
	}
	t.Out("refused")
	t.StateHash(uint64(i))
	t.Trace()
}}

func init() {
	register(&Check{ID: "C28", Rule: "each case is a run of the real muscular command on a journal: the numbers which it shows are compared with those computed from the prices of the journal",
		Assumptions: []string{"the conversions are those of Ledger.Convert (C10)", "when a month has not the day of the end date, its last day or as many days later are right"},
		Families: func(th bool) []Family {
			fs := []Family{famMomentum("momentum", musJournals, musEnds, musMeasures, musOthers[:1], musLists, []int{0, 2, 3}),
				famMomentum("options", musJournals, musEnds[1:6], musMeasures[:3], musOthers[1:], musLists[:6], []int{0, 2}),
				famMomentum("measures", musJournals, musEnds[2:9], musMeasures[2:6], musOthers[:1], musLists[:4], []int{5, 7, 13}),
				famMomentum("zero", []string{musZero}, append([]string{"2020-01-31", "2019-06-01/00:00:00"}, musEnds...), musMeasures, musOthers[:1], []string{"X", "Y", "Z", "Z Y", "X Z", "Y EUR X"}, []int{0, 2, 3}),
				famMusSeparate(3), famMusRefused}
			if th {
				fs = append(fs, famMomentum("more", musJournals, musEnds, musMeasures, musOthers, musLists, []int{0, 1, 2, 3, 4, 5, 12}), famMusSeparate(5))
				fs[len(fs)-1].Name = "separate+"
			}
			return fs
		}})
}
