package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
)

// C20 and C21: the ledger command, run as a user does.

var repJournals = []string{
	// 0: several currencies and accounts, prices, boundaries of years, months and days
	`commodity 1.000,00 EUR
commodity $1,000.00
D 1.000,00 EUR
P 2019-01-01 $ 0,50 EUR
P 2020-03-01 $ 0,75 EUR
P 2020-12-31 X 2,00 EUR
2019-12-31/23:59:59 a
  Assets:Cash  1000,00 EUR
  Income:Job  -1000,00 EUR
2020-01-01 b
  Expense:Food  10,25 EUR
  Assets:Cash
2020-01-31/23:59:59 c
  Expense:Food:Out  20,50 EUR
  Assets:Cash:Wallet  -20,50 EUR
2020-02-01 d
  Assets:Cash:Wallet  40,50 EUR
  Assets:Cash
2020-02-29/12:30 e
  Assets:Bank  $5.00
  Income:Gift  $-5.00
2020-02-29/23:59:59 f
  Expense:Fun  $1.50
  Assets:Bank
2020-03-01 g
  Assets:Bank  3,00 X @@ 6,00 EUR
  Assets:Cash
2020-03-01 h
  Expense:Food  1,00 EUR
  Assets:Bank  -1,00 EUR
2020-12-31/23:59:59 i
  Income:Job  -500,00 EUR
  Assets:Cash  500,00 EUR
2021-01-01 j
  Expense:Food  -10,25 EUR
  Assets:Cash  10,25 EUR
`,
	// 1: own dates, assertions, same name in several places
	`account Expense:Food ; code:33
account Food ; n
account Empty:Inside
D 1.00 X
2020-01-10 a
  A:Food  5 X ; date:2020-01-31
  A  -3 X ; date:2020-02-01
  Expense:Food  -2 X
2020-01-31 b
  Food  1.5 X = 1.5 X
  Income:Food  ; date:2020-03-01
2020-02-01 c
  A  1 Y @ 3 X
  A:Food:Food  -3 X ; date:2020-02-29/23:59
2020-02-29 d
  Expense:Food  = 7 X
  Income:Food ; date:2020-02-29
2020-03-01 e
  Income:Food  -7 Y
  Food  7 Y ; date:2020-12-31
2021-01-01 f
  A  4 Z
  Expense  -4 Z
`,
	// 2: without currency
	`2020-01-31 a
  A  1.25
  B:C  -1.25
2020-02-01 b
  B:C  2.25
  A
2020-02-29 c
  B  1 K
  B:C:D  -1 K
`,
	// 3: nothing, or almost
	"; nothing\n",
	"account A:B\naccount C\nD 1.00 X\nP 2020-01-01 Y 2 X\nP 2020-03-01 Y 4 X\n",
	// 5: prices in both directions and chains, indirect
	`D 1.0000 E
P 2020-01-01 Y 2 X
P 2020-01-01 E 4 X
P 2020-02-01 Y 4 X
P 2020-03-01 Z 3 E
P 2020-03-01 Z 3 E
2020-01-15 a
  A  8 Y
  B  -8 Y
2020-02-15 b
  A  2 Z
  A:B  -3 X
  B  -2 Z
  Q  3 X
2020-03-15 c
  A:B  1 E
  Q  -1 E
`,
	// 6: names of currencies which begin as others, deep accounts, prices with more digits than their currency shows
	`D 1.0 X
P 2020-01-01 Y 0.3333 X
P 2020-02-01 XX 1.25 X
P 2020-03-01 Y 0.12345678 X
2020-01-20 a
  Expense:Food:Out:Far:Away:Again  3.5 X
  Assets:Bank:B:C:D:E:F:G  2 XX
  Assets:Bank:B:C:D  -3.5 X
  Income:a  -2 XX
2020-02-10 b
  Assets:Bank:B  7 Y
  Expense:FOOD  2 EUR2
  Assets:Bank  -7 Y
  income:b  -2 EUR2
2020-03-10 c
  Expense:Food:Out:Far  1 EUR
  Expense:Food:Out:Far:Away:Again:More  1 Y
  Assets:Bank:B:C:D:E:F  -1 EUR
  Income:a  -1 Y
`,
}

// dates which are very far from today, the last ones in the future
var repExtremes = []string{`D 1.00 X
P 1900-01-01 Y 2 X
P 2400-01-01 Y 2 X
0001-01-01/00:00:00 a
  A  1 X
  Income:B  -1 X
0001-01-01/00:00:01 b
  A  0.25 X ; date:0001-01-02/00:00:00
  Expense:C  -0.25 X
1969-12-31/23:59:59 c
  A  2 Y
  Expense:C  -2 Y
2399-12-31 d
  A  4 X
  Expense:C  -4 X ; date:9999-12-31/23:59:59
9999-12-31/23:59:59 e
  Income:B  8 Y
  A  -8 Y
`,
	"D 1.00 X\nP 2020-01-01 Y 2 X\n2500-01-01 a\n  Income:A  -1 X\n  B  1 X\n2500-01-01 b\n  Expense:B  1 Y\n  B  -2 X\n",
	"D 1.00 X\n0001-01-01/00:00:00 a\n  Income:A  -1 X\n  B  1 X\n0001-01-01/00:00:00 b\n  Expense:B  1 Y\n  B  -2 X\n",
}
var repFarBegins = []string{"", "0001", "0001-01-02", "1900", "2399-12-31", "2500", "9999", "9999-12-31/23:59:59"}
var repFarEnds = []string{"", "0001", "0001-01-01/00:00:00", "1969", "2399", "2500-01-01", "9999"}

type repAcct struct {
	full, short string
	level       int
	splits      []repSplit
}

type repSplit struct {
	t   time.Time
	txn int
	amt int64
	cur string
}

type repModel struct {
	L      *accounting.Ledger // only for the names and formats of currencies, and the conversions
	accts  []repAcct
	txns   []*RTxn
	format map[string]*accounting.Currency
}

// repRead makes the model of a journal from the reference reader.
func (t *T) repRead(text string) *repModel {
	p := t.Path("j")
	ref := ReadRef(map[string]string{p: text}, p)
	o := t.Journal(text)
	if !ref.OK() || ref.Overflow || o.L == nil {
		return nil
	}
	m := &repModel{L: o.L, format: map[string]*accounting.Currency{}}
	for _, c := range o.L.Currencies {
		m.format[c.Name] = c
	}
	for _, a := range o.L.Accounts {
		for _, s := range a.Splits {
			if c := s.Value.Currency; c != nil && m.format[c.Name] == nil {
				m.format[c.Name] = c // that of the amounts without currency
			}
		}
	}
	idx := map[*RTxn]int{}
	for _, x := range ref.Txns { // in order of time
		m.txns = append(m.txns, x)
	}
	sort.SliceStable(m.txns, func(i, j int) bool { return m.txns[i].Time.Before(m.txns[j].Time) })
	for i, x := range m.txns {
		idx[x] = i
	}
	transfer := repAcct{full: transferName, short: transferName}
	for _, a := range ref.TreeOrder() {
		ra := repAcct{full: a.Name, short: a.Name[strings.LastIndexByte(a.Name, ':')+1:], level: strings.Count(a.Name, ":")}
		for _, s := range ref.AcctSplits(a) {
			cur := ""
			if s.Val.Cur != nil {
				cur = s.Val.Cur.Name
			}
			ra.splits = append(ra.splits, repSplit{s.Time(), idx[s.Txn], s.Val.Amt, cur})
		}
		m.accts = append(m.accts, ra)
	}
	// the part of each transaction which has not happened yet
	for i, x := range m.txns {
		for _, s := range x.Splits {
			if s.Own == nil || s.Own.Equal(x.Time) {
				continue
			}
			cur := ""
			if s.Val.Cur != nil {
				cur = s.Val.Cur.Name
			}
			transfer.splits = append(transfer.splits, repSplit{x.Time, i, s.Val.Amt, cur}, repSplit{*s.Own, i, -s.Val.Amt, cur})
		}
	}
	m.accts = append(m.accts, transfer) // it is always there
	return m
}

type money map[string]int64 // by currency

func (b money) add(cur string, n int64) {
	b[cur] += n
	if b[cur] == 0 {
		delete(b, cur)
	}
}

func (m *repModel) str(cur string, n int64) string {
	v := accounting.Value{Amount: n, Currency: m.format[cur]}
	return strings.Join(strings.Fields(v.String()), " ")
}

// strings of a balance, sorted
func (m *repModel) strs(b money) []string {
	var res []string
	for c, n := range b {
		res = append(res, m.str(c, n))
	}
	sort.Strings(res)
	return res
}

// sum of the movements of an account in the period
func (a repAcct) sum(in func(i int) bool, from, to *time.Time) money {
	b := money{}
	for _, s := range a.splits {
		if in != nil && !in(s.txn) || from != nil && s.t.Before(*from) || to != nil && s.t.After(*to) {
			continue
		}
		b.add(s.cur, s.amt)
	}
	return b
}

// repDate gives the first or the last second of a year, month, day or minute.
func repDate(s string, end bool) *time.Time {
	var y, mo, d, h, mi, sec = 0, 1, 1, 0, 0, 0
	n, _ := fmt.Sscanf(strings.NewReplacer("-", " ", "/", " ", ":", " ").Replace(s), "%d %d %d %d %d %d", &y, &mo, &d, &h, &mi, &sec)
	t := time.Date(y, time.Month(mo), d, h, mi, sec, 0, time.UTC)
	if end {
		switch n {
		case 1:
			t = time.Date(y+1, 1, 1, 0, 0, 0, 0, time.UTC).Add(-time.Second)
		case 2:
			t = time.Date(y, time.Month(mo)+1, 1, 0, 0, 0, 0, time.UTC).Add(-time.Second)
		case 3:
			t = t.Add(24*time.Hour - time.Second)
		}
	}
	return &t
}

type repCmd struct {
	opts                                    []string // other options
	cmd                                     string
	args                                    []string
	total, market, negate, batch, tree, bad bool
	currency                                []string
}

func (c repCmd) String() string { return fmt.Sprint(c.opts, c.cmd, c.args) }

func rc(s string) repCmd {
	var c repCmd
	f := strings.Fields(s)
	for len(f) > 0 && f[0][0] == '-' {
		c.opts = append(c.opts, f[0])
		switch f[0] {
		case "-total":
			c.total = true
		case "-market":
			c.market = true
		case "-negate":
			c.negate = true
		case "-batch":
			c.batch = true
		case "-currency":
			c.opts = append(c.opts, f[1])
			c.currency = append(c.currency, f[1])
			f = f[1:]
		}
		f = f[1:]
	}
	c.cmd = f[0]
	c.args = f[1:]
	if len(c.args) > 0 && c.args[0] == "-tree" {
		c.tree = true
	}
	return c
}

// runLedger runs the command on the journal of this case.
func (t *T) runLedger(env bool, args ...string) (stdout, stderr string, code int) {
	if !env {
		args = append([]string{"-f", t.Path("j")}, args...)
	}
	return t.runCmd(os.Getenv("MC_LEDGER"), env, args...)
}

// runCmd runs a command, with LEDGER_FILE or without it.
func (t *T) runCmd(bin string, env bool, args ...string) (stdout, stderr string, code int) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = t.dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "LEDGER_FILE=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	if env {
		cmd.Env = append(cmd.Env, "LEDGER_FILE="+t.Path("j"))
	}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if ctx.Err() != nil {
		t.Failf("%s %q does not finish%s", filepath.Base(bin), args, t.show())
	}
	if err != nil {
		code = 1
		if strings.Contains(e.String(), "panic:") || strings.Contains(e.String(), "goroutine ") {
			t.Failf("%s %q: %s%s", filepath.Base(bin), args, e.String(), t.show())
		}
	}
	return o.String(), e.String(), code
}

func fields(s string) string { return strings.Join(strings.Fields(s), " ") }

func match(name string, pats []string) bool {
	for _, p := range pats {
		if strings.Contains(strings.ToLower(name), strings.ToLower(p)) {
			return true
		}
	}
	return false
}

// convert a balance to the default currency (the conversion itself is C10).
func (m *repModel) convert(b money, when time.Time) (money, bool) {
	res := money{}
	for c, n := range b {
		v, err := m.L.Convert(accounting.Value{Amount: n, Currency: m.format[c]}, when, m.L.DefaultCurrency)
		if err != nil {
			return nil, false
		}
		if v.Currency == nil {
			return nil, false
		}
		res.add(v.Currency.Name, v.Amount)
	}
	return res, true
}

// pivot says which transactions involve an account with one of those names.
func (m *repModel) pivot(pivot []string) func(i int) bool {
	if len(pivot) == 0 {
		return nil
	}
	sel := make([]bool, len(m.txns))
	for i, x := range m.txns {
		for _, s := range x.Splits {
			sel[i] = sel[i] || match(s.Acct.Name, pivot)
		}
	}
	return func(i int) bool { return sel[i] }
}

// repCheck runs a command with a period and a pivot and says what is wrong.
func (t *T) repCheck(m *repModel, c repCmd, begin, end string, pivot []string) {
	var args []string
	var from, to *time.Time
	if begin != "" {
		args = append(args, "-b", begin)
		from = repDate(begin, false)
	}
	if end != "" {
		args = append(args, "-e", end)
		to = repDate(end, true)
	}
	if from != nil && to != nil && from.After(*to) {
		t.Skip("the period finishes before its beginning")
		return
	}
	if c.market && m.L.DefaultCurrency == nil || c.cmd == "price" && m.L.DefaultCurrency == nil {
		t.Skip("there is no default currency")
		return
	}
	for _, p := range pivot {
		args = append(args, "-pivot", p)
	}
	args = append(args, c.opts...)
	args = append(args, c.cmd)
	args = append(args, c.args...)
	in := m.pivot(pivot)
	when := time.Now()
	if to != nil {
		when = *to
	}
	var start time.Time
	if from != nil {
		start = *from
	}
	out, errs, code := t.runLedger(false, args...)
	t.Trans(1)
	fail := func(format string, a ...interface{}) {
		t.Failf("ledger %s: %s\n--- output (exit %d):\n%s%s%s", strings.Join(args, " "), fmt.Sprintf(format, a...), code, out, errs, t.show())
	}
	mustFail := func() {
		if code == 0 {
			fail("it should have failed: there is no price")
		}
		if errs == "" {
			fail("it failed silently")
		}
		t.Out("refused")
	}
	okOut := func() {
		if code != 0 {
			fail("it should not have failed")
		}
		t.Out(c.cmd)
	}
	same := func(what string, got, want []string) {
		a := append([]string(nil), got...)
		sort.Strings(a)
		if strings.Join(a, "|") != strings.Join(want, "|") {
			fail("%s: %q instead of %q", what, a, want)
		}
	}
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	// one line with a balance
	balance := func(s string) []string {
		if s == "0" {
			return nil
		}
		var res []string
		for _, x := range strings.Split(s, ", ") {
			res = append(res, fields(x))
		}
		return res
	}
	if len(m.txns) > 1 {
		t.Nontrivial()
	}
	switch c.cmd {
	case "balance", "bal", "b":
		var rows []repAcct
		var want []money
		total := money{}
		for _, a := range m.accts {
			if len(c.args) > 0 && !match(a.full, c.args) {
				continue
			}
			b := a.sum(in, nil, to)
			if len(c.currency) > 0 {
				for cur := range b {
					keep := false
					for _, x := range c.currency {
						keep = keep || x == cur
					}
					if !keep {
						delete(b, cur)
					}
				}
			}
			if c.market {
				var ok bool
				if b, ok = m.convert(b, when); !ok {
					mustFail()
					return
				}
			}
			for cur, n := range b {
				total.add(cur, n)
			}
			rows = append(rows, a)
			want = append(want, b)
		}
		okOut()
		if c.total {
			if len(total) == 0 {
				same("total", lines, []string{"0"})
				return
			}
			var got []string
			for _, l := range lines {
				got = append(got, fields(l))
			}
			same("total", got, m.strs(total))
			return
		}
		sep := -1
		for i, l := range lines {
			if strings.Trim(l, "-") == "" && (i > 0 || len(lines) == 2 || l != "" || len(rows) == 0) {
				sep = i
			}
		}
		if sep < 0 {
			fail("no line before the total")
		}
		var got []string
		for _, l := range lines[sep+1:] {
			got = append(got, fields(l))
		}
		if len(total) == 0 {
			same("total", got, []string{"0"})
		} else {
			same("total", got, m.strs(total))
		}
		body := lines[:sep]
		k := 0
		next := func() string {
			if k >= len(body) {
				fail("there is something missing")
			}
			k++
			return fields(body[k-1])
		}
		for i, a := range rows {
			n := len(want[i])
			if n == 0 {
				// a line with the name alone is not an amount
				if k < len(body) && (fields(body[k]) == a.short || fields(body[k]) == a.full) {
					k++
				}
				continue
			}
			var got []string
			for j := 0; j < n; j++ {
				l := next()
				if j == n-1 {
					switch {
					case strings.HasSuffix(l, " "+a.full):
						l = strings.TrimSuffix(l, " "+a.full)
					case strings.HasSuffix(l, " "+a.short):
						l = strings.TrimSuffix(l, " "+a.short)
					default:
						fail("%q is not the balance of %s (%q)", l, a.full, m.strs(want[i]))
					}
				}
				got = append(got, l)
			}
			same("balance of "+a.full, got, m.strs(want[i]))
		}
		if k < len(body) {
			fail("there is something else: %q", body[k])
		}
	case "incomestatement", "is":
		okOut()
		sections := map[string]money{"Income": {}, "Expense": {}}
		rows := map[string][]repAcct{}
		changes := map[string]money{}
		for _, a := range m.accts {
			for _, s := range []string{"Income", "Expense"} {
				if strings.HasPrefix(a.full, s+":") && len(c.args) == 0 || strings.HasPrefix(a.full, s) && len(c.args) > 0 && match(a.full, c.args) {
					b := a.sum(in, from, to)
					w := money{}
					for cur, n := range b {
						if s == "Income" {
							n = -n
						}
						w.add(cur, n)
						sections[s].add(cur, n)
					}
					rows[s] = append(rows[s], a)
					changes[a.full] = w
				}
			}
		}
		net := money{}
		for cur, n := range sections["Income"] {
			net.add(cur, n)
		}
		for cur, n := range sections["Expense"] {
			net.add(cur, -n)
		}
		if c.total {
			if len(lines) != 1 {
				fail("more than the net")
			}
			same("net", balance(lines[0]), m.strs(net))
			return
		}
		section := ""
		seen := map[string]bool{}
		last := map[string]int{}
		for _, l := range lines {
			i := strings.Index(l, "||")
			if i < 0 {
				continue
			}
			name, val := fields(l[:i]), strings.TrimSpace(l[i+2:])
			switch {
			case name == "Revenues":
				section = "Income"
			case name == "Expenses":
				section = "Expense"
			case name == "Net:":
				same("net", balance(val), m.strs(net))
				seen["net"] = true
			case name == "":
				same("total of "+section, balance(val), m.strs(sections[section]))
				seen["total "+section] = true
			default:
				pos := -1
				for k, a := range rows[section] {
					if a.full == name {
						pos = k
					}
				}
				if pos < 0 || seen[name] || pos < last[section] {
					fail("unexpected line %q", l)
				}
				last[section] = pos
				seen[name] = true
				same("change of "+name, balance(val), m.strs(changes[name]))
			}
		}
		for _, s := range []string{"Income", "Expense"} {
			for _, a := range rows[s] {
				if !seen[a.full] && len(changes[a.full]) > 0 {
					fail("%s is missing", a.full)
				}
			}
			if !seen["total "+s] {
				fail("the total of %s is missing", s)
			}
		}
		if !seen["net"] {
			fail("the net is missing")
		}
	case "delta":
		if len(c.args) == 0 {
			okOut()
			return
		}
		first, change := money{}, money{}
		for _, a := range m.accts {
			if !match(a.full, c.args) {
				continue
			}
			if from != nil {
				just := from.Add(-time.Nanosecond)
				for cur, n := range a.sum(in, nil, &just) {
					first.add(cur, n)
				}
			}
			for cur, n := range a.sum(in, from, to) {
				change.add(cur, n)
			}
		}
		if c.market {
			final := money{}
			for cur, n := range first {
				final.add(cur, n)
			}
			for cur, n := range change {
				final.add(cur, n)
			}
			a, ok1 := m.convert(first, start)
			b, ok2 := m.convert(final, when)
			if !ok1 || !ok2 {
				mustFail()
				return
			}
			for cur, n := range a {
				b.add(cur, -n)
			}
			change = b
		}
		if c.negate {
			for cur := range change {
				change[cur] = -change[cur]
			}
		}
		okOut()
		if len(lines) != 1 {
			fail("it is not only one line")
		}
		same("change", balance(lines[0]), m.strs(change))
	case "price":
		var want []string
		for _, name := range c.args {
			cur := m.format[name]
			if cur == nil {
				mustFail()
				return
			}
			v, err := m.L.Convert(accounting.Value{Amount: unit, Currency: cur}, when, m.L.DefaultCurrency)
			if err != nil {
				mustFail()
				return
			}
			if c.batch {
				want = append(want, v.FullString())
			} else {
				want = append(want, "Price for "+name+": "+v.FullString())
			}
		}
		okOut()
		if strings.Join(want, "\n") != strings.TrimSuffix(out, "\n") {
			fail("it should be %q", want)
		}
	case "stats":
		okOut()
		var sel []*RTxn
		for i, x := range m.txns {
			if in != nil && !in(i) || from != nil && x.Time.Before(*from) || to != nil && x.Time.After(*to) {
				continue
			}
			sel = append(sel, x)
		}
		if len(sel) == 0 {
			if out != "No transactions in ledger\n" {
				fail("there are no transactions")
			}
			return
		}
		a, b := sel[0].Time, sel[len(sel)-1].Time
		days := (b.Truncate(24*time.Hour).Unix()-a.Truncate(24*time.Hour).Unix())/86400 + 1
		var names []string
		for _, cur := range m.L.Currencies {
			names = append(names, cur.Name)
		}
		for _, w := range []string{
			fmt.Sprintf(`(?m)^Transaction span *: *%s to %s \(%d days\)$`, a.Format("2006-01-02"), b.Format("2006-01-02"), days),
			fmt.Sprintf(`(?m)^Transactions *: *%d \(%.1f per day\)$`, len(sel), float64(len(sel))/float64(days)),
			fmt.Sprintf(`(?m)^Accounts *: *%d$`, len(m.accts)),
			fmt.Sprintf(`(?m)^Commodities *: *%d \(%s\)$`, len(names), regexp.QuoteMeta(strings.Join(names, " "))),
			fmt.Sprintf(`(?m)^Market prices *: *%d$`, len(m.L.Prices)),
		} {
			if !regexp.MustCompile(w).MatchString(out) {
				fail("there should be a line like %s", w)
			}
		}
	case "accounts", "a":
		okOut()
		if len(m.accts) == 0 {
			if strings.TrimSpace(out) != "" {
				fail("there are no accounts")
			}
			return
		}
		if len(lines) != len(m.accts) {
			fail("there are %d accounts", len(m.accts))
		}
		for i, a := range m.accts {
			w := a.full
			if c.tree {
				w = strings.Repeat("  ", a.level) + a.short
				if strings.TrimLeft(lines[i], " ") != a.short {
					fail("%q instead of %q", lines[i], w)
				}
				continue
			}
			if lines[i] != w {
				fail("%q instead of %q", lines[i], w)
			}
		}
		if c.tree { // deeper is more to the right
			for i := 1; i < len(m.accts); i++ {
				ind := func(k int) int { return len(lines[k]) - len(strings.TrimLeft(lines[k], " ")) }
				if (ind(i) < ind(i-1)) != (m.accts[i].level < m.accts[i-1].level) && m.accts[i].level > 0 && m.accts[i-1].level > 0 {
					fail("wrong indentation of %s", m.accts[i].full)
				}
			}
		}
	case "print":
		okOut()
		// each transaction in the period, as it is printed with all of them
		re := regexp.MustCompile(`^(\d\d\d\d-\d\d-\d\d)\S* +([a-z])$`)
		blocks := func(text string) (res []string) {
			inside := false
			for _, l := range strings.Split(text, "\n") {
				if s := re.FindStringSubmatch(l); s != nil {
					res = append(res, l)
					inside = true
				} else if inside = inside && strings.HasPrefix(l, " "); inside {
					res[len(res)-1] += "\n" + l
				}
			}
			return res
		}
		all := blocks(export(m.L))
		if len(all) != len(m.txns) {
			fail("%d transactions are printed, and there are %d", len(all), len(m.txns))
		}
		var want []string
		for i, x := range m.txns {
			if in != nil && !in(i) || from != nil && x.Time.Before(*from) || to != nil && x.Time.After(*to) {
				continue
			}
			want = append(want, all[i])
		}
		if got := blocks(out); strings.Join(want, "|") != strings.Join(got, "|") {
			fail("transactions %q instead of %q", got, want)
		}
		if begin == "" && end == "" && pivot == nil {
			if w := export(m.L); w != out {
				fail("it should be the same as Export: %s", diff(w, out))
			}
		}
	default:
		panic(c.cmd)
	}
}

var repCmds = []repCmd{rc("balance"), rc("balance food"), rc("bal Assets:Cash INCOME"), rc("b in a"), rc("-total balance"), rc("-total balance a"),
	rc("-currency EUR balance"), rc("-currency X -currency $ balance"), rc("-currency Y -total balance a"), rc("-market balance"), rc("-market -total bal cash"), rc("-market -currency X balance"),
	rc("incomestatement"), rc("is food"), rc("is job gift"), rc("-total is"), rc("-total is food"),
	rc("delta food"), rc("delta assets"), rc("delta a:food food:food"), rc("-negate delta income"), rc("-market delta a"), rc("-market delta cash:wallet bank"), rc("-market -negate delta a"), rc("delta"), rc("delta nothing"),
	rc("is FOOD B"), rc("-total is oUT"), rc("-currency EUR -currency XX balance BANK"),
	// the same thing more than once
	rc("-currency X -currency X balance"), rc("-currency EUR -currency X -currency EUR -market -total balance"), rc("balance food food FOOD"), rc("delta food food"), rc("-total is food FOOD out"), rc("price X X"),
	rc("price X"), rc("price $ X EUR"), rc("-batch price Y E"), rc("price Y XX"), rc("-batch price Y"), rc("-batch price XX X"), rc("-batch price Nothing"), rc("stats"), rc("accounts"), rc("a -tree"), rc("print")}

// all the pairs of words, which can be parts of the same names
func repWords(words, cmds []string) (res []repCmd) {
	for _, c := range cmds {
		for _, a := range words {
			for _, b := range words {
				res = append(res, rc(c+" "+a+" "+b))
			}
		}
	}
	return
}

var repManyWords = []string{"food", "expense", "Income", "a", "B", ":f", "job", "cash", "e:", "out", "nothing"}
var repWordCmds = []string{"is", "-total is", "balance", "-total balance", "delta", "-market delta"}

var repBegins = []string{"", "2020", "2020-02", "2020-03-01", "2020-02-29/12:30", "2021", "2020-02-01", "2022-06"}
var repEnds = []string{"", "2019", "2020", "2020-01", "2020-02", "2020-02-29", "2020-02-29/12:30", "2020-12", "2024-02"}
var repPivots = [][]string{nil, {"food"}, {"cash"}, {"bank", "job"}, {"a:food"}, {"nothing"}}

func famReports(name string, journals []string, cmds []repCmd, begins, ends []string, pivots [][]string) Family {
	n := int64(len(journals) * len(cmds) * len(begins) * len(ends) * len(pivots))
	return Family{Name: name, Desc: fmt.Sprintf("%d journals, each of %d commands, begin in %q, end in %q, pivot in %q", len(journals), len(cmds), begins, ends, pivots), N: n, Run: func(t *T, i int64) {
		d := &Dec{i}
		c := cmds[d.Pick(len(cmds))]
		b, e, p := begins[d.Pick(len(begins))], ends[d.Pick(len(ends))], pivots[d.Pick(len(pivots))]
		m := t.repRead(journals[d.Pick(len(journals))])
		if m == nil {
			t.Failf("the journal should open%s", t.show())
		}
		t.repCheck(m, c, b, e, p)
		t.Trace()
		t.StateHash(uint64(i))
		t.Sample(fmt.Sprint(c, b, e, p))
	}}
}

var repSmallTxns = []string{
	"  Income:A  -1 X\n  B  1 X\n",
	"  Expense:A  2 X\n  B  -2 X\n",
	"  Expense:A:B  1 Y\n  B  -3 X\n",
	"  B  5 Y\n  Income:A  -5 Y ; date:2020-02-10\n",
	"  B:C  -1 X\n  B  1 X\n",
	"  B:C  1 X\n  Expense:A  -1 X\n",
	"  Income:A  3 X\n  Expense:A  -3 X\n",
}

func famReportHistories(depth int, cmds []repCmd, periods [][2]string) Family {
	dates := []string{"2020-01-05", "2020-01-31/23:59", "2020-02-01", "2020-03-01", "2020-03-01"}
	n := seqCount(len(repSmallTxns), depth)
	per := int64(len(cmds) * len(periods) * 2)
	return Family{Name: "histories", Desc: fmt.Sprintf("all sequences of up to %d transactions among %q on successive dates, each of %d commands, periods %q, with and without pivot", depth, repSmallTxns, len(cmds), periods), N: n * per, Run: func(t *T, i int64) {
		d := &Dec{i}
		c, p := cmds[d.Pick(len(cmds))], periods[d.Pick(len(periods))]
		var pivot []string
		if d.Pick(2) == 1 {
			pivot = []string{"b:c", "e:a:b"}
		}
		text := "D 1.00 X\nP 2020-01-01 Y 2 X\nP 2020-03-01 Y 8 X\n"
		for k, s := range seqDecode(d.i, len(repSmallTxns), depth) {
			text += dates[k] + " " + "abcdef"[k:k+1] + "\n" + repSmallTxns[s]
		}
		m := t.repRead(text)
		if m == nil {
			t.Failf("the journal should open%s", t.show())
		}
		t.repCheck(m, c, p[0], p[1], pivot)
		t.Trace()
		t.StateHash(uint64(i))
		t.Sample(text)
	}}
}

// wide is a sum by currency, as big as needed
type wide map[string]*big.Int

func (w wide) add(cur string, n *big.Int, sign int64) {
	if w[cur] == nil {
		w[cur] = new(big.Int)
	}
	w[cur].Add(w[cur], new(big.Int).Mul(n, big.NewInt(sign)))
}

func (w wide) addAll(x wide, sign int64) {
	for cur, n := range x {
		w.add(cur, n, sign)
	}
}

func (w wide) fits() bool {
	for _, n := range w {
		if n.CmpAbs(bigMax) > 0 {
			return false
		}
	}
	return true
}

func (a repAcct) wide(in func(i int) bool, from, to *time.Time) wide {
	w := wide{}
	for _, s := range a.splits {
		if in != nil && !in(s.txn) || from != nil && s.t.Before(*from) || to != nil && s.t.After(*to) {
			continue
		}
		w.add(s.cur, big.NewInt(s.amt), 1)
	}
	return w
}

// repFits says whether all that a command has to show fits in amounts (with prices of 2 X for each Y).
func (m *repModel) repFits(c repCmd, from, to *time.Time) bool {
	market := func(w wide) (wide, bool) {
		if !c.market {
			return w, w.fits()
		}
		res, ok := wide{}, w.fits()
		for cur, n := range w {
			k := int64(1)
			if cur == "Y" {
				k = 2
			}
			x := wide{}
			x.add("X", n, k)
			ok = ok && x.fits()
			res.addAll(x, 1)
		}
		return res, ok && res.fits()
	}
	fits := true
	total, income, expense, begin := wide{}, wide{}, wide{}, wide{}
	for _, a := range m.accts {
		if len(c.args) > 0 && !match(a.full, c.args) {
			continue
		}
		switch c.cmd {
		case "balance":
			b, ok := market(a.wide(nil, nil, to))
			fits = fits && ok
			total.addAll(b, 1)
		case "is":
			b := a.wide(nil, from, to)
			if strings.HasPrefix(a.full, "Income") {
				income.addAll(b, -1)
				fits = fits && b.fits()
			} else if strings.HasPrefix(a.full, "Expense") {
				expense.addAll(b, 1)
				fits = fits && b.fits()
			}
		case "delta":
			total.addAll(a.wide(nil, from, to), 1)
			if from != nil {
				just := from.Add(-time.Nanosecond)
				begin.addAll(a.wide(nil, nil, &just), 1)
			}
		}
	}
	if c.cmd == "delta" && c.market {
		var ok1, ok2 bool
		total.addAll(begin, 1)
		total, ok1 = market(total)
		begin, ok2 = market(begin)
		total.addAll(begin, -1)
		fits = ok1 && ok2
	}
	net := wide{}
	net.addAll(income, 1)
	net.addAll(expense, -1)
	return fits && total.fits() && income.fits() && expense.fits() && net.fits()
}

// famReportHuge: sums which may not fit in an amount are exact or refused
func famReportHuge(depth int) Family {
	txns := []string{
		"  Income:A  -60000000000 X\n  Expense:A  60000000000 X\n",
		"  Income:B  -50000000000 X\n  B  50000000000 X\n",
		"  Income:A  60000000000 X\n  Expense:B  -60000000000 X\n",
		"  Expense:B  40000000000 X\n  B  -40000000000 X\n",
		"  B:C  30000000000 Y\n  Expense:A  -30000000000 Y\n",
		"  B:D  60000000000 X\n  B  -60000000000 X\n",
	}
	cmds := []repCmd{rc("balance"), rc("balance b"), rc("balance income"), rc("-total balance expense"), rc("-market balance"), rc("-market balance b"), rc("is"), rc("-total is"), rc("is a"), rc("delta b"), rc("delta income"), rc("-negate delta expense"), rc("-market delta b"), rc("-market delta a")}
	begins := []string{"", "2020-02"}
	n := seqCount(len(txns), depth)
	return Family{Name: "huge", Desc: fmt.Sprintf("all sequences of up to %d transactions among %q, each of %q, from the beginning and from the second transaction", depth, txns, cmds), N: n * int64(len(cmds)*len(begins)), Run: func(t *T, i int64) {
		d := &Dec{i}
		c, begin := cmds[d.Pick(len(cmds))], begins[d.Pick(len(begins))]
		text := "D 1.00 X\nP 2020-01-01 Y 2 X\n"
		for k, s := range seqDecode(d.i, len(txns), depth) {
			text += fmt.Sprintf("2020-%02d-05 %s\n%s", k+1, "abcdef"[k:k+1], txns[s])
		}
		m := t.repRead(text)
		if m == nil {
			t.Out("refused")
			return // the balance of an account is too big
		}
		t.Sample(text)
		t.StateHash(uint64(i))
		var from *time.Time
		if begin != "" {
			from = repDate(begin, false)
		}
		if m.repFits(c, from, nil) {
			t.repCheck(m, c, begin, "", nil)
			return
		}
		t.Nontrivial()
		var args []string
		if begin != "" {
			args = append(args, "-b", begin)
		}
		args = append(append(append(args, c.opts...), c.cmd), c.args...)
		out, errs, code := t.runLedger(false, args...)
		t.Trans(1)
		if code == 0 || out != "" || errs == "" {
			t.Failf("ledger %q: the sums are too big for an amount, and it should fail with a message\n--- output (exit %d):\n%s%s%s", args, code, out, errs, t.show())
		}
		t.Out("too big: refused")
	}}
}

var repRefused = []string{"-b 20 balance", "-b 2020-13 balance", "-e 2020-02-30 balance", "-e x balance", "-b 2021-02-29 print", "-e 2020-00 is", "-b 2020-01-01/24:00 stats", "-b -e balance", "-e 2019-2-1 balance",
	"nothing", "Balance", "-x balance", "balances a", "-b 2020-01-01/10:00:60 balance", "-e 20200 print", "-b 2020-1 delta a", "-currency", "-pivot", "accounts -x"}

// what makes no sense is refused, with a message and without showing anything.
var famRefused = Family{Name: "refused", Desc: fmt.Sprintf("each of %q", repRefused), N: int64(len(repRefused) * len(repJournals)), Run: func(t *T, i int64) {
	d := &Dec{i}
	c := repRefused[d.Pick(len(repRefused))]
	t.files = map[string]string{}
	t.WriteFile("j", repJournals[d.Pick(len(repJournals))])
	out, errs, code := t.runLedger(false, strings.Fields(c)...)
	t.Trans(1)
	if code == 0 || errs == "" || out != "" {
		t.Failf("ledger %s should be refused (exit %d)\n%s%s%s", c, code, out, errs, t.show())
	}
	t.Out("refused")
	t.Trace()
}}

var repBroken = []string{ // "": no file
	"",
	"2020-01-01 t\n  A  1 X\n  B  -2 X\n",
	"2020-01-01 t\n  A  1 X = 2 X\n  B  -1 X\n",
	"2020-01-02 t\n  A  1 X\n  B\n2020-01-01 t\n  A  1 X\n  B\n",
	"account A\naccount A\n",
	"2020-01-01 t\n  A  1 X\n  B\n2020-01-02 t\n  A  1 X\n  B\n  C\n",
	"account " + strings.Repeat("A", 70000) + "\n2020-01-01 t\n  A  1 X\n  B\n",
}

var repWithout = []string{"balance", "print", "is", "stats", "delta a", "price X", "a", "", "balance -- print", "-total balance", "-batch price X", "-e 2019 balance", "nothing"}

// without a journal, or with a wrong one, nothing is shown but a message.
var famWithout = Family{Name: "without", Desc: fmt.Sprintf("no name of a journal, or one which cannot be opened (%d of them), given in several ways, and each of %q", len(repBroken), repWithout), N: int64((3 + 2*len(repBroken)) * len(repWithout)), Run: func(t *T, i int64) {
	d := &Dec{i}
	args := strings.Fields(repWithout[d.Pick(len(repWithout))])
	t.files = map[string]string{}
	os.Remove(t.Path("j"))
	k := d.Pick(3 + 2*len(repBroken))
	env := false
	switch {
	case k == 0:
	case k == 1:
		args = append([]string{"-f", ""}, args...)
	case k == 2:
		args = append(args, "-f")
	default:
		if s := repBroken[(k-3)/2]; s != "" {
			t.WriteFile("j", s)
		}
		env = k%2 == 0
		if !env {
			args = append([]string{"-f", t.Path("j")}, args...)
		}
	}
	out, errs, code := t.runCmd(os.Getenv("MC_LEDGER"), env, args...)
	t.Trans(1)
	if code == 0 || errs == "" || out != "" {
		t.Failf("ledger %q should fail: there is no journal, or it is wrong (exit %d)\n%s%s%s", args, code, out, errs, t.show())
	}
	t.Out("refused")
	t.Trace()
}}

func init() {
	register(&Check{ID: "C20", Rule: "each case is a run of the real ledger command on a journal with a command, a period, a pivot and filters: what it shows has to be what the reference computes from the transactions of the journal",
		Assumptions: []string{"the conversions are those of Ledger.Convert (C10) and the amounts are formatted with Value.String (C07)", "rows without amounts and the layout are not specified", "a period finishes after its beginning"},
		Families: func(th bool) []Family {
			small := []repCmd{rc("balance"), rc("-total balance"), rc("is"), rc("-total is"), rc("delta b"), rc("-market delta b"), rc("balance b:c"), rc("-market balance"), rc("stats")}
			periods := [][2]string{{"", ""}, {"", "2020-01"}, {"2020-02", ""}, {"2020-02", "2020-02"}}
			if th {
				return []Family{famReports("reports", repJournals, repCmds, repBegins, repEnds, repPivots), famReportHistories(4, small, periods), famReports("far", repExtremes, repCmds, repFarBegins, repFarEnds, repPivots[:1]),
					famReports("words", repJournals, repWords(repManyWords, repWordCmds), []string{"", "2020-02"}, []string{"", "2020-02"}, repPivots[:1]), famReportHuge(4), famRefused, famWithout}
			}
			return []Family{famReports("words", repJournals, repWords(repManyWords[:6], repWordCmds), []string{""}, []string{""}, repPivots[:1]), famReports("far", repExtremes, repCmds, repFarBegins, repFarEnds, repPivots[:1]), famReports("reports", repJournals, repCmds, repBegins, repEnds, repPivots[:2]),
				famReports("pivots", repJournals[:3], repCmds, []string{"", "2020-02"}, []string{"", "2020-02"}, repPivots[2:]),
				famReportHistories(3, small, periods), famReportHuge(3), famRefused, famWithout}
		}})
	register(&Check{ID: "C21", Rule: "each case is a sequence of commands in one command line, separated with \"--\": its output has to be that of the same commands in separate command lines",
		Assumptions: []string{"nothing is specified about the commands after one which fails"},
		Families: func(th bool) []Family {
			if th {
				return []Family{famSeparate("triples", repJournals, multiCmds, 3), famSeparate("fours", repJournals[:2], multiCmds[:12], 4)}
			}
			return []Family{famSeparate("triples", repJournals[:3], multiCmds, 3), famSeparate("pairs-2", repJournals[3:], multiCmds, 2)}
		}})
}

var multiCmds = []string{
	"-b 2020-02 -e 2020-02 balance", "-pivot food balance", "balance", "print", "-e 2019 is", "-b 2020-03-01 delta a", "-market balance", "-currency X balance b", "stats",
	"-total balance", "is", "delta assets food", "-b 2020-02 -market -negate delta a", "price X", "-batch price EUR Y", "accounts", "a -tree", "-pivot cash -pivot a:food -b 2020-02 print", "-e 2020-02-29 print", "-e 2020-01 stats", "", "-b 2022 balance", "-pivot a is"}

var multiWant = map[string][2]string{} // output of a command alone, by journal and command

func famSeparate(name string, journals []string, cmds []string, depth int) Family {
	n := seqCount(len(cmds), depth)
	return Family{Name: name, Desc: fmt.Sprintf("%d journals, all the sequences of up to %d of the commands %q", len(journals), depth, cmds), N: n * int64(len(journals)), Run: func(t *T, i int64) {
		d := &Dec{i}
		j := journals[d.Pick(len(journals))]
		seq := seqDecode(d.i, len(cmds), depth)
		var args []string
		want := ""
		code := 0
		t.files = map[string]string{}
		t.WriteFile("j", j)
		empty := true
		for k, c := range seq {
			if k > 0 {
				args = append(args, "--")
			}
			f := strings.Fields(cmds[c])
			args = append(args, f...)
			if len(f) == 0 {
				continue // nothing between two "--"
			}
			empty = false
			key := j + "\x00" + cmds[c]
			w, ok := multiWant[key]
			if !ok {
				o, _, ec := t.runLedger(false, f...)
				w = [2]string{o, fmt.Sprint(ec)}
				multiWant[key] = w
			}
			if code == 0 {
				want += w[0]
				if w[1] != "0" {
					code = 1
				}
			}
		}
		if empty || len(seq) > 0 && cmds[seq[0]] == "" && len(seq) == 1 {
			t.Skip("there is no command")
			return
		}
		env := i%5 == 0
		out, errs, ec := t.runLedger(env, args...)
		t.Trans(len(seq))
		if len(seq) > 1 {
			t.Nontrivial()
		}
		if ec != code || out != want {
			t.Failf("ledger %s (exit %d) is not as its commands separately (exit %d): %s\n%s%s", strings.Join(args, " "), ec, code, diff(want, out), errs, t.show())
		}
		t.Out(map[int]string{0: "the same", 1: "one of them fails"}[code])
		t.Trace()
		t.StateHash(uint64(i))
		t.Sample(strings.Join(args, " "))
	}}
}
