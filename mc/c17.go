package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/backend/txtdb"
)

// C17: txtdb files are read as they say.

type txtAcct struct {
	id, parent int
	hasParent  bool
	acct       *RAcct
	name       string
}

// int17 reads a decimal integer
func int17(s string) (int, bool) {
	if s == "" {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		if !isDigit(s[i]) {
			return 0, false
		}
	}
	n, err := strconv.Atoi(s)
	return n, err == nil
}

// cents17 reads an amount in hundredths: [sign] digits [. one or two digits]
func cents17(s string, needSign bool) (int64, bool) {
	sign := int64(1)
	if s != "" && (s[0] == '+' || s[0] == '-') {
		if s[0] == '-' {
			sign = -1
		}
		s = s[1:]
	} else if needSign {
		return 0, false
	}
	dec := ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		dec = s[i+1:]
		s = s[:i]
		if len(dec) == 0 || len(dec) > 2 {
			return 0, false
		}
	}
	for len(dec) < 2 {
		dec += "0"
	}
	n, ok := int17(s + dec)
	return sign * int64(n), ok && s != "" && len(s) < 12 && n < 9000000000000
}

func date17(s string) (time.Time, bool) {
	s = strings.TrimSpace(s)
	if len(s) == 16 && s[10] == ' ' && s[13] == '.' && s[4] == '-' && s[7] == '-' {
		return readDate(s[:10] + "/" + s[11:])
	}
	if len(s) == 10 && s[4] == '-' && s[7] == '-' {
		t, ok := readDate(s)
		return t.Add(-12 * time.Hour), ok // here without time is at midnight
	}
	return time.Time{}, false
}

// readTxtdb is the reference reader. The accounts are given also by id; circular says whether some parents are in a circle.
func readTxtdb(accounts, transactions string) (*Ref, []*txtAcct, bool) {
	r := &Ref{Reported: map[RPos]string{}, MayLog: map[RPos]bool{}, Bad: map[string]bool{}, NoPos: true}
	cur := &RCur{D: ".", Prec: 2}
	lines := func(s string) []string {
		l := strings.Split(s, "\n")
		if l[len(l)-1] == "" {
			l = l[:len(l)-1]
		}
		return l
	}
	var as []*txtAcct
	byID := map[int]*txtAcct{}
	for _, l := range lines(accounts) {
		r.Lines++
		f := strings.Split(l, ":")
		if len(f) != 6 {
			continue
		}
		id, ok := int17(f[0])
		if !ok {
			continue
		}
		a := &txtAcct{id: id, name: f[3], acct: &RAcct{Code: f[4]}}
		a.parent, a.hasParent = int17(f[5])
		as = append(as, a)
		byID[id] = a
	}
	circular := false
	for _, a := range as {
		name := a.name
		n := 0
		for p := a; p.hasParent && byID[p.parent] != nil; {
			p = byID[p.parent]
			name = p.name + ":" + name
			if n++; n > len(as) {
				circular = true
				break
			}
		}
		a.acct.Name = name
		if a.hasParent && byID[a.parent] != nil {
			a.acct.Parent = byID[a.parent].acct
		}
	}
	for _, a := range as {
		r.Accts = append(r.Accts, a.acct)
	}
	sort.SliceStable(r.Accts, func(i, j int) bool { return r.Accts[i].Name < r.Accts[j].Name })
	// transactions
	var cum int64
	var tx *RTxn
	for i, l := range lines(transactions) {
		r.Lines++
		f := strings.Split(l, ":")
		if len(f) != 7 {
			continue
		}
		skip := func() {
			if f[5] != "" || f[6] != "" {
				r.Reported[RPos{"transactions", i + 1}] = "skipped"
			}
		}
		at, ok := date17(f[1])
		if !ok {
			skip()
			continue
		}
		id, ok := int17(f[4])
		if !ok || byID[id] == nil {
			skip()
			continue
		}
		s := &RSplit{Acct: byID[id].acct, Pos: RPos{"transactions", i + 1}}
		last := false
		if f[5] != "" {
			n, ok := cents17(f[5], true)
			if !ok {
				skip()
				continue
			}
			s.Val = &RVal{n * 1000000, cur}
			cum += n
			last = cum == 0
		} else {
			n, ok := cents17(f[6], false)
			if !ok {
				skip()
				continue
			}
			s.Assert = &RVal{n * 1000000, cur}
			last = true
		}
		if tx == nil {
			tx = &RTxn{Time: at, Desc: f[2], Pos: RPos{"transactions", i + 1}}
		}
		s.Txn = tx
		if !at.Equal(tx.Time) {
			s.Own = &at
		}
		tx.Splits = append(tx.Splits, s)
		if last {
			r.Txns = append(r.Txns, tx)
			tx, cum = nil, 0
		}
	}
	if tx != nil {
		r.Reported[RPos{"transactions", 0}] = "incomplete"
	}
	sort.SliceStable(r.Txns, func(i, j int) bool { return r.Txns[i].Time.Before(r.Txns[j].Time) })
	if !circular {
		for _, t := range r.Txns {
			for _, s := range t.Splits {
				s.known = s.Val != nil
			}
		}
		r.Solve()
	}
	return r, as, circular
}

const txtFacets = FOutcome | FAccounts | FTree | FTxns | FAmounts | FOwnTimes | FMembers | FBalances | FInstants | FTransfer | FPrices | FAuto | FLinks

func (t *T) txtWrite(accounts, transactions string) string {
	t.files = map[string]string{}
	t.WriteFile("db/accounts", accounts)
	t.WriteFile("db/transactions", transactions)
	return "txtdb:" + t.Path("db")
}

func (t *T) txtdb(accounts, transactions string) (*Ref, Opened) {
	src := t.txtWrite(accounts, transactions)
	ref, as, circular := readTxtdb(accounts, transactions)
	o := t.OpenSource(src)
	if t.opened != nil {
		t.opened(src, o)
		return ref, o
	}
	t.Sample(t.show() + "\n" + o.String())
	if circular {
		t.circular17(ref, as, o)
		return ref, o
	}
	t.State(ref.Canon())
	t.Compare(ref, o, txtFacets)
	if o.L != nil {
		t.ids17(o.L, as)
		t.reported17(ref, o)
	}
	return ref, o
}

var line17 = regexp.MustCompile(`(?:line |transactions:)(\d+)\b`)

// reported17: what is not in the ledger is in the log
func (t *T) reported17(ref *Ref, o Opened) {
	seen := map[int]bool{}
	for _, m := range line17.FindAllStringSubmatch(o.Log, -1) {
		n, _ := strconv.Atoi(m[1])
		seen[n] = true
	}
	for p := range ref.Reported {
		if p.Line > 0 && !seen[p.Line] {
			t.Failf("line %d of transactions is not in the ledger, nor in the log%s\nlog:\n%s", p.Line, t.show(), o.Log)
		}
		if p.Line == 0 && o.Log == "" {
			t.Failf("the last transaction of transactions is not in the ledger, and nothing is said in the log%s", t.show())
		}
	}
}

// ids17: every account has the id it says, and the transactions have different ones
func (t *T) ids17(L *accounting.Ledger, as []*txtAcct) {
	seen := map[accounting.ID]bool{}
	for _, x := range L.Transactions {
		if x.ID == nil || seen[x.ID] {
			t.Failf("the id of a transaction is %s, and it should have one of its own%s", idStr(x.ID), t.show())
		}
		seen[x.ID] = true
	}
	n := map[int]int{}
	for _, a := range as {
		n[a.id]++
	}
	for _, a := range as {
		if n[a.id] > 1 {
			continue
		}
		x := L.Account(txtdb.ID(a.id))
		if x == nil || fullName(x) != a.acct.Name && a.acct.Name != "" {
			t.Failf("account %d is %q and should be %q%s", a.id, fullName(x), a.acct.Name, t.show())
		}
		if s := idStr(x.ID); s != fmt.Sprintf("id:%d", a.id) {
			t.Failf("account %d says its id is %s%s", a.id, s, t.show())
		}
	}
}

// circular17: no account is lost, and the parents are right but for those of accounts in a circle
func (t *T) circular17(ref *Ref, as []*txtAcct, o Opened) {
	t.Trace()
	t.Trans(ref.Lines)
	t.Out("circular")
	if o.L == nil {
		t.Failf("it was refused: %s%s", o, t.show())
	}
	t.State(fmt.Sprintf("circular %d %s", len(as), t.show()))
	t.Nontrivial()
	L := o.L
	c := &cmp{t: t, ref: ref, L: L, f: FTree}
	byID := map[int]*txtAcct{}
	for _, a := range as {
		byID[a.id] = a
	}
	count := map[string]int{}
	for _, a := range L.Accounts {
		if !isTransfer(a) {
			count[idStr(a.ID)]++
		}
		n := 0
		for p := a; p.Parent != nil; p = p.Parent {
			if n++; n > len(as) {
				t.Failf("the parents of %q never end%s", a.Name, t.show())
			}
		}
	}
	if s := c.tree(); s != "" && !strings.HasPrefix(s, "there are two accounts") {
		t.Failf("%s%s", s, t.show())
	}
	cut := map[int]bool{}
	for _, a := range as {
		id := fmt.Sprintf("id:%d", a.id)
		if count[id] != 1 {
			t.Failf("account %d is %d times in the ledger%s", a.id, count[id], t.show())
		}
		x := L.Account(txtdb.ID(a.id))
		if x.Name != a.name || x.Code != a.acct.Code {
			t.Failf("account %d is %q, code %q%s", a.id, x.Name, x.Code, t.show())
		}
		inCircle := false
		for p, n := a, 0; p.hasParent && byID[p.parent] != nil && n <= len(as); n++ {
			p = byID[p.parent]
			if p == a {
				inCircle = true
				break
			}
		}
		got := "none"
		if x.Parent != nil {
			got = idStr(x.Parent.ID)
		}
		want := "none"
		if a.hasParent && byID[a.parent] != nil {
			want = fmt.Sprintf("id:%d", a.parent)
		}
		if got != want && !(inCircle && got == "none") {
			t.Failf("the parent of account %d is %s and should be %s%s", a.id, got, want, t.show())
		}
		if inCircle && got == "none" {
			// only one for each circle
			least := a.id
			for p := byID[a.parent]; p != a; p = byID[p.parent] {
				if p.id < least {
					least = p.id
				}
			}
			if cut[least] {
				t.Failf("a circle of accounts was cut twice%s", t.show())
			}
			cut[least] = true
		}
	}
	if len(L.Accounts) != len(as)+1 {
		t.Failf("there are %d accounts in the ledger%s", len(L.Accounts), t.show())
	}
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var res [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			res = append(res, q)
		}
	}
	return res
}

func famTxtAccounts(n int) Family {
	perms := permutations(n)
	sets := [][]string{{"M", "B", "Z", "A", "K"}, {"A", "A B", "A-", "B", "a"}}
	total := int64(len(perms)) * pow(n+2, n) * int64(len(sets))
	return Family{Name: fmt.Sprintf("accounts%d", n), Desc: fmt.Sprintf("%d accounts in any order, each one with any parent (none, one which does not exist or any of them, itself included)", n), N: total, Run: func(t *T, i int64) {
		d := &Dec{i}
		p := perms[d.Pick(len(perms))]
		names := sets[d.Pick(len(sets))]
		parents := make([]string, n)
		for k := range parents {
			switch x := d.Pick(n + 2); x {
			case 0:
			case 1:
				parents[k] = "99"
			default:
				parents[k] = fmt.Sprint(x - 1)
			}
		}
		var b strings.Builder
		for _, k := range p {
			fmt.Fprintf(&b, "%d:::%s:c%d:%s\n", k+1, names[k], k, parents[k])
		}
		tx := ""
		for k := 0; k < n; k++ {
			tx += fmt.Sprintf("x:2020-01-0%d:t%d::%d:+%d.0%d:\nx:2020-01-0%d:t%d::%d:-%d.0%d:\n", k+1, k, k+1, k, k, k+1, k, (k+1)%n+1, k, k)
		}
		t.txtdb(b.String(), tx)
	}}
}

const txtAccounts3 = "1:::A:c1:\n2:x:y:B::1\n3:::C::\n"

var txtLines = []string{
	"1:2020-01-05:uno:x:1:+1.50:", "2:2020-01-05:dos::2:-1.50:", "a:2020-01-05 10.30:tres::3:-0.50:10", "::cuatro::1:+2:", "#b:2020-01-06:cinco:z:2:-2:", ":2020-01-04 23.59:seis::1:-1:-1", "d:2020-01-06:siete::1::0.00", "e:2020-01-06:ocho::2::-1.5", "; f:2020-01-06::zz:3:+0:", "g: 2020-01-05 :nueve::1:+3.00:0",
	// wrong
	"", "h:2020-01-05:diez::1:+1", "i:2020-01-05:once::1:+1::", "j:2020-01-05:doce::9:+1:", "k:2020-01-05:trece::x:+1:", "l:2020-13-05:catorce::1:+1:", "m:2020-01-05:quince::1:1:", "n:2020-01-05:dieciseis::1:+x:", "o:2020-01-05:diecisiete::1::x", "p:2020-01-05:dieciocho::1::", "q:2020-01-05:diecinueve::1:+:",
}

// txtSmall: spaces, and balances and amounts of less than one
var txtSmall = []string{"x:2020-01-05: uno :x:1:+0.50:", "x:2020-01-05: dos::2:-0.50:", "x:2020-01-05:\ttres  ::1:-0.50:", "x:2020-01-05:::2:+0.50:", "x:2020-01-06:c:: 1:+0.50:", "x:2020-01-06:c::1::-0.50", "x:2020-01-06: c::1::+0.50", "x:2020-01-06:c::2::-0.01", "x:2020-01-06:c::1:-0.01:"}

// txtRange: amounts which do not fit in an amount, and the greatest which do
var txtRange = []string{
	"x:2020-01-05:t::1:+1:", "x:2020-01-05:t::2:-1:", "x:2020-01-06:t::1::1",
	"x:2020-01-05:t::1:+89999999999.99:", "x:2020-01-05:t::2:-89999999999.99:", "x:2020-01-06:t::1::89999999999.99", "x:2020-01-06:t::1::+2.50",
	"x:2020-01-05:t::1:+90000000000:", "x:2020-01-05:t::1:-92233720368.54:", "x:2020-01-05:t::1:+92233720368.55:",
	"x:2020-01-05:t::1:-184467440737.09:", "x:2020-01-05:t::2:+184467440738.09:", "x:2020-01-05:t::2:+100000000000000000000:",
	"x:2020-01-05:t::2:+Inf:", "x:2020-01-05:t::2:-NaN:", "x:2020-01-05:t::2:-infinity:",
	"x:2020-01-06:t::1::90000000000", "x:2020-01-06:t::2::-184467440737.09", "x:2020-01-06:t::2::100000000000000000000", "x:2020-01-06:t::2::Inf", "x:2020-01-06:t::2::NaN",
}

func famTxtLines(name string, txtLines []string, n int) Family {
	return Family{Name: name, Desc: fmt.Sprintf("all sequences of up to %d of %d lines of transactions", n, len(txtLines)), N: seqCount(len(txtLines), n), Run: func(t *T, i int64) {
		var b strings.Builder
		for _, k := range seqDecode(i, len(txtLines), n) {
			b.WriteString(txtLines[k] + "\n")
		}
		t.txtdb(txtAccounts3, b.String())
	}}
}

func famTxtAcctLines(n int) Family {
	al := []string{"1:::A:c1:", "2:x:y:B::1", "3:::C:c3:2", "4:a:b:D d:4 4:3", "5::::1:", "", "#comment", "6:::F::x", "7:::G:", "8:::H:::", "x:::I::", ":::J::", "9:::K::99", "10:::L::10", "12:::Z::11", "11:::M::3", "0:::O: c0 :", "13::: N ::0", " 15:::P::"}
	tx := "1:2020-01-05:uno:x:1:+1.50:\n2:2020-01-05:dos::2:-1.50:\nz:2020-01-06:t::12:+1:\nz:2020-01-06:t::11:-1:\n"
	return Family{Name: "acctlines", Desc: fmt.Sprintf("all sequences without repetitions of up to %d of %d lines of accounts, right and wrong", n, len(al)), N: seqCount(len(al), n), Run: func(t *T, i int64) {
		var b strings.Builder
		used := map[int]bool{}
		for _, k := range seqDecode(i, len(al), n) {
			if used[k] {
				t.Skip("account twice")
				return
			}
			used[k] = true
			b.WriteString(al[k] + "\n")
		}
		t.txtdb(b.String(), tx)
	}}
}

// famTxtAmounts: files of 200 transactions with different amounts
func famTxtAmounts(th bool) Family {
	var cents []int64
	n := int64(20000)
	if th {
		n = 1000000
	}
	for i := int64(0); i < n; i++ {
		cents = append(cents, i)
	}
	for e := int64(10); e < 9000000000000; e *= 10 {
		for d := int64(-120); d <= 120; d++ {
			for _, m := range []int64{1, 2, 3, 5, 7, 8} {
				if x := m*e + d; x >= 0 && x < 9000000000000 {
					cents = append(cents, x)
				}
			}
		}
	}
	per := int64(200)
	return Family{Name: "amounts", Desc: fmt.Sprintf("%d amounts, written in several ways, %d in each file", len(cents), per), N: (int64(len(cents)) + per - 1) / per, Run: func(t *T, i int64) {
		var b strings.Builder
		var want []int64
		for k := i * per; k < (i+1)*per && k < int64(len(cents)); k++ {
			x := cents[k]
			s := fmt.Sprintf("%d.%02d", x/100, x%100)
			u := s
			if x%10 == 0 {
				u = s[:len(s)-1]
			}
			if x%100 == 0 {
				u = s[:len(s)-3]
			}
			sg := []string{"+", "-"}
			bal := int64(0)
			for _, w := range want {
				bal += w
			}
			if k%2 == 1 && x < 1000000 || bal > 0 && x >= 1000000 { // so that the balance is not too big
				sg[0], sg[1] = "-", "+"
				x = -x
			}
			fmt.Fprintf(&b, "x:2020-01-05:t::1:%s%s:1.23\n", sg[0], s)
			want = append(want, x)
			if x != 0 {
				fmt.Fprintf(&b, "x:2020-01-05:t::2:%s%s:\n", sg[1], u)
			}
			fmt.Fprintf(&b, "x:2020-01-05:t::3:+0.00:\n")
			bal += x
			sign := ""
			if bal < 0 {
				sign = "-"
			}
			fmt.Fprintf(&b, "x:2020-01-05:check::1::%s%d.%02d\n", sign, abs(bal)/100, abs(bal)%100)
		}
		t.Tick()
		_, o := t.txtdb(txtAccounts3, b.String())
		if o.L == nil {
			t.Failf("it was refused: %s%s", o, t.show())
		}
		k := 0
		for _, x := range o.L.Transactions {
			if x.Description != "t" || x.Splits[0].Account.Name != "A" {
				continue
			}
			w := want[k]
			k++
			sign := ""
			if w < 0 {
				sign = "-"
			}
			if s, e := x.Splits[0].Value.FullString(), fmt.Sprintf("%s%d.%02d", sign, abs(w)/100, abs(w)%100); s != e {
				t.Failf("an amount is shown as %s instead of %s", s, e)
			}
		}
		if k != len(want) {
			t.Failf("there are %d of %d transactions", k, len(want))
		}
	}}
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// famTxtLong: n transactions in two times (or three), in any pattern of a period
func famTxtLong(th bool) Family {
	sizes := []int{2, 5, 11, 12, 13, 14, 20, 33, 64, 130}
	bits := 6
	if th {
		bits = 9
	}
	return Family{Name: "long", Desc: fmt.Sprintf("%v transactions whose dates, and those of their postings, follow any pattern of period %d", sizes, bits), N: int64(len(sizes)) * (1 << uint(2*bits)), Run: func(t *T, i int64) {
		d := &Dec{i}
		n := sizes[d.Pick(len(sizes))]
		p, q := d.Pick(1<<uint(bits)), d.Pick(1<<uint(bits))
		if n > 33 && (p*7+q)%8 != 0 && !t.thorough {
			return // the longest ones only with some patterns
		}
		var b strings.Builder
		for k := 0; k < n; k++ {
			d1, d2 := 5+p>>uint(k%bits)&1, 5+q>>uint(k%bits)&1
			fmt.Fprintf(&b, "x:2020-01-%02d:t%d::1:+%d:\nx:2020-01-%02d:u::2:-%d:\n", d1, k, k+1, d2, k+1)
		}
		t.txtdb(txtAccounts3, b.String())
	}}
}

func famTxtDates() Family {
	var fs []string
	for _, y := range []string{"0002", "1900", "1999", "2000", "2020", "2021", "9999", "202", "20200"} {
		for _, m := range []string{"00", "01", "02", "11", "12", "13"} {
			for _, d := range []string{"00", "01", "28", "29", "30", "31", "32"} {
				for _, h := range []string{"", " 00.00", " 10.30", " 23.59", " 24.00", " 10.60", " 10:30", "/10.30", " 10.30 ", " 10.30.15", " 10.3"} {
					fs = append(fs, y+"-"+m+"-"+d+h)
				}
			}
		}
	}
	for _, s := range []string{"2020/01/05", "2020.01.05", "20200105", "2020-1-5", "x", "", " ", "2020-01-05 ", " 2020-01-05", "2020-01-05T10.30", "-2020-01-05", "05-01-2020"} {
		fs = append(fs, s)
	}
	return Family{Name: "dates", Desc: fmt.Sprintf("%d dates, right and wrong, in the first and in the second line of a transaction", len(fs)), N: int64(len(fs)), Run: func(t *T, i int64) {
		s := fs[i]
		t.txtdb(txtAccounts3, "a:"+s+":t::1:+1:\nb:2020-01-05 11.00:u::2:-1:\nc:2020-01-06:t::1:+2:\nd:"+s+":t::2:-2:\n")
	}}
}

// famTxtSources: the ways of naming the directory
func famTxtSources() Family {
	return Family{Name: "sources", Desc: "the ways of naming the directory", N: 8, Run: func(t *T, i int64) {
		t.txtWrite(txtAccounts3, "1:2020-01-05:uno:x:1:+1.50:\n2:2020-01-05:dos::2:-1.50:\n")
		if i >= 4 {
			os.Remove(t.Path("db/transactions"))
		}
		wd, _ := os.Getwd()
		defer os.Chdir(wd)
		os.Chdir(t.dir)
		src := []string{"txtdb:" + t.Path("db"), "txtdb://" + t.Path("db"), "txtdb:db", "txtdb:./db/"}[i%4]
		o := t.OpenSource(src)
		t.State(fmt.Sprint(i))
		t.Trans(1)
		want := 1
		if i >= 4 {
			want = 0
		}
		if o.L == nil || len(o.L.Transactions) != want || len(o.L.Accounts) != 4 {
			t.Failf("%s is not opened right: %s", src, o)
		}
		t.Nontrivial()
	}}
}

func init() {
	register(&Check{ID: "C17", Rule: "each case is a pair of files; the ledger is compared with a reference reader of that format, posting by posting, with all balances at every instant",
		Assumptions: []string{"ids are not repeated and full names are different", "amounts have at most two decimals and are under 90 thousand million", "one of the accounts in a circle of parents is a root, any of them", "a line with a balance and no amount ends its transaction"},
		Families: func(th bool) []Family {
			n := 4
			if th {
				n = 5
			}
			fs := []Family{famTxtAccounts(2), famTxtAccounts(3), famTxtAccounts(4), famTxtLines("lines", txtLines, n), famTxtLines("right", txtLines[:10], n+1), famTxtAcctLines(n), famTxtAmounts(th), famTxtLines("range", txtRange, 3), famTxtLines("small", txtSmall, n+1), famTxtLong(th), famTxtDates(), famTxtSources()}
			if th {
				fs = append(fs, famTxtAccounts(5))
			}
			return fs
		}})
}
