package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
)

// C30: the tables of the ledger command without a command, and those of tacc. Both are compiled with overlay/tables.sh,
// so that each table, and those which appear when pressing ENTER on each of its rows, are written to a file.

type shownTable struct {
	Columns []string
	Rows    [][]string
	Opened  [][]*shownTable
	Enter   bool
}

// tabAccount is what has to be seen of an account.
type tabAccount struct {
	name    string
	balance []string // sorted
	rows    []tabRow
	loose   bool // the order of movements at the same time is not specified
}

type tabRow struct {
	t       time.Time
	desc    string
	value   string
	cur     string
	amt     int64
	balance []string
}

// parts splits a balance as it is shown.
func parts(s string) []string {
	if fields(s) == "0" {
		return nil
	}
	var res []string
	for _, x := range strings.Split(s, ", ") {
		res = append(res, fields(x))
	}
	sort.Strings(res)
	return res
}

// tabModel gives the accounts of a journal in a period and with a pivot.
func (m *repModel) tabModel(in func(i int) bool, from, to *time.Time) []tabAccount {
	var res []tabAccount
	for _, a := range m.accts {
		ta := tabAccount{name: a.full, balance: m.strs(a.sum(in, nil, to)), loose: a.full == transferName}
		b := money{}
		splits := append([]repSplit(nil), a.splits...)
		if ta.loose {
			sort.SliceStable(splits, func(i, j int) bool { return splits[i].t.Before(splits[j].t) })
		}
		for _, s := range splits {
			if in != nil && !in(s.txn) || to != nil && s.t.After(*to) {
				continue
			}
			b.add(s.cur, s.amt)
			if from != nil && s.t.Before(*from) {
				continue
			}
			ta.rows = append(ta.rows, tabRow{s.t, m.txns[s.txn].Desc, m.str(s.cur, s.amt), s.cur, s.amt, m.strs(b)})
		}
		res = append(res, ta)
	}
	return res
}

// tabLedger gives the accounts of an open ledger.
func tabLedger(l *accounting.Ledger) []tabAccount {
	var res []tabAccount
	for _, a := range l.Accounts {
		ta := tabAccount{name: a.FullName(), balance: parts(a.StartBalance.String())}
		for _, s := range a.Splits {
			ta.balance = parts(s.Balance.String())
			ta.rows = append(ta.rows, tabRow{t: *s.Time, desc: s.Transaction.Description, value: fields(s.Value.String()), amt: s.Value.Amount, balance: ta.balance})
		}
		res = append(res, ta)
	}
	return res
}

// tables runs a program which shows tables.
func (t *T) tables(bin string, args ...string) (*shownTable, string, int) {
	f := t.Path("tables")
	os.Remove(f)
	os.Setenv("MC_TABLES", f)
	out, errs, code := t.runCmd(bin, false, args...)
	t.Trans(1)
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, out + errs, code
	}
	s := new(shownTable)
	if err := json.Unmarshal(b, s); err != nil {
		t.Failf("%s %q: more than one table (%v): %s%s", bin, args, err, b, t.show())
	}
	return s, errs, code
}

func cell(row []string, i int) string {
	if i >= len(row) {
		return ""
	}
	return row[i]
}

// tabCheck compares what is seen with what should be.
func (t *T) tabCheck(what string, s *shownTable, errs string, code int, want []tabAccount) {
	fail := func(format string, a ...interface{}) {
		b, _ := json.Marshal(s)
		t.Failf("%s: %s\n--- tables (exit %d): %s\n%s%s", what, fmt.Sprintf(format, a...), code, b, errs, t.show())
	}
	if code != 0 || s == nil {
		fail("no tables are shown")
	}
	same := func(a, b []string) bool { return strings.Join(a, "|") == strings.Join(b, "|") }
	if len(s.Rows) != len(want) {
		fail("there are %d accounts, and %d are shown", len(want), len(s.Rows))
	}
	for i, a := range want {
		if n := cell(s.Rows[i], 0); n != a.name {
			fail("row %d: account %q instead of %q", i+1, n, a.name)
		}
		if b := parts(cell(s.Rows[i], 1)); !same(b, a.balance) {
			fail("row %d: balance %q instead of %q", i+1, b, a.balance)
		}
		if len(s.Opened[i]) != 1 {
			fail("row %d (%s): pressing ENTER shows %d tables", i+1, a.name, len(s.Opened[i]))
		}
		in := s.Opened[i][0]
		if len(in.Rows) != len(a.rows) {
			fail("account %q has %d movements, and %d are shown", a.name, len(a.rows), len(in.Rows))
		}
		left := append([]tabRow(nil), a.rows...)
		start := money{}
		for j, r := range in.Rows {
			pick := 0
			if a.loose { // any of those at that time
				for k := range left {
					if left[k].t.Equal(left[0].t) && t.tabRow(r, left[k]) == "" {
						pick = k
						break
					}
				}
			}
			w := left[pick]
			if x := t.tabRow(r, w); x != "" {
				fail("account %q, movement %d: %s", a.name, j+1, x)
			}
			left = append(left[:pick], left[pick+1:]...)
			if b := parts(cell(r, 3)); a.loose {
				// not the balance at each of them, but the one after all those at the same time
				if (len(left) == 0 || !left[0].t.Equal(w.t)) && !same(b, a.rows[j].balance) {
					fail("account %q, movement %d: balance %q instead of %q", a.name, j+1, b, a.rows[j].balance)
				}
			} else if !same(b, w.balance) {
				fail("account %q, movement %d: balance %q instead of %q", a.name, j+1, b, w.balance)
			}
			start.add(w.cur, w.amt)
		}
		t.State(fmt.Sprint(in.Rows))
	}
	t.Out("shown")
}

// tabRow says what is wrong in a movement, apart from its balance.
func (t *T) tabRow(r []string, w tabRow) string {
	if d := cell(r, 0); d != w.t.Format("02-01-2006") {
		return fmt.Sprintf("date %q instead of %s", d, w.t.Format("02-01-2006"))
	}
	if d := cell(r, 1); d != w.desc {
		return fmt.Sprintf("description %q instead of %q", d, w.desc)
	}
	if v := fields(cell(r, 2)); v != w.value && !(v == "" && w.amt == 0) {
		return fmt.Sprintf("amount %q instead of %q", v, w.value)
	}
	return ""
}

// tabPeriod shows the tables of the ledger command in a period and with a pivot.
func (t *T) tabPeriod(m *repModel, begin, end string, pivot []string, after bool) {
	args := []string{"-f", t.Path("j")}
	var from, to *time.Time
	if begin != "" {
		args = append(args, "-b", begin)
		from = repDate(begin, false)
	}
	if end != "" {
		args = append(args, "-e", end)
		to = repDate(end, true)
	}
	if from != nil && to != nil && from.After(*to) {
		t.Skip("the period finishes before its beginning")
		return
	}
	for _, p := range pivot {
		args = append(args, "-pivot", p)
	}
	if after {
		args = append([]string{"-f", t.Path("j"), "-b", "2020-02", "-pivot", "food", "stats", "--"}, args[2:]...)
		if len(args) == 8 {
			t.Skip("nothing after the separator")
			return
		}
	}
	s, errs, code := t.tables(os.Getenv("MC_LEDGERTAB"), args...)
	t.tabCheck(fmt.Sprint("ledger ", strings.Join(args, " ")), s, errs, code, m.tabModel(m.pivot(pivot), from, to))
}

// tacc30: the tacc command shows that ledger, or fails as it does.
func (t *T) tacc30(src string, o Opened) {
	s, errs, code := t.tables(os.Getenv("MC_TACC"), src)
	if o.L == nil {
		if code == 0 || errs == "" || s != nil {
			t.Failf("tacc %s should fail (exit %d)\n%s%s", src, code, errs, t.show())
		}
		t.Out("refused")
		return
	}
	t.tabCheck("tacc "+src, s, errs, code, tabLedger(o.L))
}

func famTabPeriods(name string, journals []string, begins, ends []string, pivots [][]string) Family {
	n := int64(len(journals) * len(begins) * len(ends) * len(pivots) * 2)
	return Family{Name: name, Desc: fmt.Sprintf("the ledger command without a command, %d journals, begin in %q, end in %q, pivot in %q, alone and after another command", len(journals), begins, ends, pivots), N: n, Run: func(t *T, i int64) {
		d := &Dec{i}
		after := d.Pick(2) == 1
		b, e, p := begins[d.Pick(len(begins))], ends[d.Pick(len(ends))], pivots[d.Pick(len(pivots))]
		m := t.repRead(journals[d.Pick(len(journals))])
		if m == nil {
			t.Failf("the journal should open%s", t.show())
		}
		t.tabPeriod(m, b, e, p, after)
		t.Trace()
		t.StateHash(uint64(i))
		t.Sample(fmt.Sprint(b, e, p))
	}}
}

var tabTxns = []string{
	"  A  -1 X\n  B  1 X\n",
	"  A:B  2 X\n  B  -2 X\n",
	"  A:B  1 Y\n  B  -3 X\n",
	"  B  0.1250 Y\n  A  -0.1250 Y ; date:2020-02-10\n",
	"  B:C  -1\n  B  1\n",
	"  B:C  1 X = 1 X ; date:2020-01-05\n  A  -1 X ; date:2021-01-01\n",
	"  B  0 X\n  A:B  = 0 X\n",
	"  A  3 Z\n  A  -2 Z\n  B  -1 Z\n",
	"  A  0.0003 W\n  B  -0.0003 W\n",
	"  A:B  $-12345678.90\n  B  $0.05\n  A  $12345678.85\n",
}

func famTabHistories(depth int) Family {
	dates := []string{"2020-01-05/12:30", "2020-01-31", "2020-01-31", "2020-02-10"}
	descs := []string{"one", "Two | three", "", "ñandú   x"}
	n := seqCount(len(tabTxns), depth)
	ways := []string{"ledger", "ledger -e 2020-02-09", "tacc"}
	return Family{Name: "histories", Desc: fmt.Sprintf("all sequences of up to %d transactions among %q on the dates %q, with %q", depth, tabTxns, dates, ways), N: n * int64(len(ways)), Run: func(t *T, i int64) {
		d := &Dec{i}
		way := d.Pick(len(ways))
		text := "account W:V\ncommodity 1,000.00 X\n"
		for k, s := range seqDecode(d.i, len(tabTxns), depth) {
			text += dates[k] + " " + descs[k] + "\n" + tabTxns[s]
		}
		t.Trace()
		t.StateHash(uint64(i))
		t.Sample(text)
		m := t.repRead(text)
		if m == nil {
			p := t.Path("j")
			if ReadRef(map[string]string{p: text}, p).OK() {
				t.Skip("refused") // by mistake: C01-C04
				return
			}
			if s, errs, code := t.tables(os.Getenv("MC_TACC"), p); way == 2 && (s != nil || code == 0 || errs == "") {
				t.Failf("tacc shows a wrong journal (exit %d): %s%s", code, errs, t.show())
			}
			t.Out("refused")
			return
		}
		switch way {
		case 0:
			t.tabPeriod(m, "", "", nil, false)
		case 1:
			t.tabPeriod(m, "", "2020-02-09", nil, false)
		default:
			s, errs, code := t.tables(os.Getenv("MC_TACC"), t.Path("j"))
			t.tabCheck("tacc", s, errs, code, m.tabModel(nil, nil, nil))
		}
	}}
}

// famTacc: tacc with journals and with sources which cannot be opened
func famTacc() Family {
	bad := []string{"nosuch:x", "nosuch://x/y", "", ".", "nofile", "txtdb:nodir", "txtdb:", "ledger:nofile", "mailto:a@b"}
	args := [][]string{{}, {"j", "j"}, {"j", "k", "l"}}
	texts := append(append(append([]string(nil), repJournals...), repExtremes...), musJournals...)
	texts = append(texts, isoLarge(""), isoLarge(" ; date:2020-03-01/10:30"), "2020-01-05 t\n  A  1 X\n  B  1 X\n", "include nosuch\n", "", "P 2020-01-05 X 2 Y\nP 2020-01-04 X 2 Y\n")
	ways := []string{"%s", "file:%s", "ledger:%s"}
	n := len(texts) * len(ways)
	return Family{Name: "tacc", Desc: fmt.Sprintf("the tacc command with %d journals, named in %d ways, %d sources which cannot be opened and wrong numbers of arguments", len(texts), len(ways), len(bad)), N: int64(n + len(bad) + len(args)), Run: func(t *T, i int64) {
		t.files = map[string]string{}
		t.Trace()
		t.StateHash(uint64(i))
		switch k := int(i) - n; {
		case k < 0:
			p := t.WriteFile("j", texts[int(i)/len(ways)])
			src := fmt.Sprintf(ways[int(i)%len(ways)], p)
			t.Sample(src + t.show())
			o := t.OpenSource(src)
			t.tacc30(src, o)
			if o.L != nil {
				t.Nontrivial()
				closeLedger(o.L)
			}
		case k < len(bad):
			t.tacc30(bad[k], Opened{})
		default:
			t.WriteFile("j", texts[0])
			s, errs, code := t.tables(os.Getenv("MC_TACC"), args[k-len(bad)]...)
			if code == 0 || errs == "" || s != nil {
				t.Failf("tacc %q should fail (exit %d)\n%s", args[k-len(bad)], code, errs)
			}
			t.Out("refused")
		}
	}}
}

func init() {
	register(&Check{ID: "C30", Rule: "each case is a run of the real ledger or tacc command on a journal, txtdb directory or database, where the terminal is replaced with a recorder which presses ENTER on each row: the tables have to be those of the reference",
		Assumptions: []string{"the library which paints the tables (tableview) is replaced; what it does with filters, orders and colours is not examined", "movements of the transfer account at the same time can be in any order", "the tables of txtdb and PostgreSQL are compared with the ledger they give (C17, C27)"},
		Families: func(th bool) []Family {
			n, txt, pivots := 3, 2, repPivots[:3]
			if th {
				n, txt, pivots = 4, 3, repPivots
			}
			fs := []Family{famTabPeriods("periods", repJournals, repBegins, repEnds, pivots), famTabPeriods("far", repExtremes, repFarBegins, repFarEnds, pivots[:1]), famTabHistories(n), famTacc()}
			for k, f := range []Family{famTxtAccounts(2), famTxtLines("lines", txtLines, txt), famPgAccounts(2), famPgRows(1), famPgTxns(txt)} {
				f.Name = []string{"txtdb-", "txtdb-", "pg-", "pg-", "pg-"}[k] + f.Name
				fs = append(fs, opening(f, (*T).tacc30))
			}
			return fs
		}})
}
