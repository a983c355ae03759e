package main

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cespedes/accounting"
)

type Facet int

const (
	FOutcome  Facet = 1 << iota // opens / is refused / ends the program
	FErrPos                     // where the error or fatal message points to
	FAccounts                   // accounts: full names, order, codes
	FTree                       // parents, children, levels
	FCurrency                   // currencies and their formats, default currency
	FTxns                       // transactions: time, description, number of postings
	FAmounts                    // account, amount, price and assertion of each posting
	FOwnTimes                   // date of each posting
	FMembers                    // postings of each account
	FBalances                   // running balances
	FInstants                   // GetBalance
	FTransfer                   // transfer postings
	FPrices                     // price lines
	FAuto                       // automatic prices
	FComments                   // comments and tags
	FReports                    // reported lines
	FIDs                        // positions
	FLinks                      // split.Transaction etc.
)

const FAll = Facet(1<<30 - 1)

const transferName = "Assets:Transfer account"

func curName(c *accounting.Currency) string {
	if c == nil {
		return "<nil>"
	}
	return c.Name
}

func rcurName(c *RCur) string {
	if c == nil {
		return "<nil>"
	}
	return c.Name
}

var posRe = regexp.MustCompile(`[^ :]+:[0-9]+`)

type cmp struct {
	t   *T
	ref *Ref
	L   *accounting.Ledger
	acc map[*RAcct]*accounting.Account
	cur map[*RCur]*accounting.Currency
	spl map[*RSplit]*accounting.Split
	f   Facet
}

// tooBig checks a journal with sums which do not fit in an amount: it may be refused, naming one of its lines, but if it is not everything
// has to be exact.
func (t *T) tooBig(ref *Ref, o Opened, f Facet) {
	t.Trace()
	t.Trans(ref.Lines)
	fail := func(format string, args ...interface{}) {
		t.Failf("%s%s\n--- outcome: %s\n--- log:\n%s", fmt.Sprintf(format, args...), t.show(), o, o.Log)
	}
	if o.L == nil {
		t.Out("too big: refused")
		if f&FErrPos != 0 {
			ok := ref.Fatal != nil && hasPos(o.String(), ref.Fatal.String())
			for _, r := range ref.Txns {
				ok = ok || hasPos(o.String(), r.Pos.String())
				for _, s := range r.Splits {
					ok = ok || hasPos(o.String(), s.Pos.String())
				}
			}
			if !ok {
				fail("the error should name a line")
			}
		}
		return
	}
	t.Out("too big: opened")
	L := o.L
	type sums map[*accounting.Currency]*big.Int
	add := func(b sums, v accounting.Value) {
		if v.Amount == math.MinInt64 {
			fail("there is an amount which cannot be written")
		}
		if b[v.Currency] == nil {
			b[v.Currency] = new(big.Int)
		}
		b[v.Currency].Add(b[v.Currency], big.NewInt(v.Amount))
	}
	clean := func(b sums) sums {
		for c, n := range b {
			if n.Sign() == 0 {
				delete(b, c)
			}
		}
		return b
	}
	if f&FOutcome != 0 {
		if len(L.Transactions) != len(ref.Txns) {
			fail("there are %d transactions and should be %d", len(L.Transactions), len(ref.Txns))
		}
		for _, tr := range L.Transactions {
			b := sums{}
			for _, s := range tr.Splits {
				if v, ok := L.SplitPrices[s]; ok {
					add(b, v)
				} else {
					add(b, s.Value)
				}
			}
			var signs []int
			for _, n := range clean(b) {
				signs = append(signs, n.Sign())
			}
			if len(b) != 0 && !(len(b) == 2 && signs[0] != signs[1]) {
				fail("%s: it is not balanced: %v", idStr(tr.ID), b)
			}
		}
	}
	if f&(FBalances|FOutcome|FTransfer) != 0 {
		for _, a := range L.Accounts {
			b := sums{}
			for _, s := range a.Splits {
				add(b, s.Value)
				clean(b)
				if len(b) != len(s.Balance) {
					fail("%s: the balance is %s and should be %v", idStr(s.ID), s.Balance, b)
				}
				for _, v := range s.Balance {
					if b[v.Currency] == nil || !b[v.Currency].IsInt64() || b[v.Currency].Int64() != v.Amount {
						fail("%s: the balance is %s and should be %v", idStr(s.ID), s.Balance, b)
					}
				}
				if v, ok := L.Assertions[s]; ok && v.Currency != nil {
					n := b[v.Currency]
					if n == nil {
						n = new(big.Int)
					}
					if n.Cmp(big.NewInt(v.Amount)) != 0 {
						fail("%s: the assertion is not true: %v", idStr(s.ID), b)
					}
				}
			}
		}
	}
	for _, p := range L.Prices {
		if p.Value.Amount == math.MinInt64 {
			fail("there is a price which cannot be written")
		}
	}
}

// Compare checks what was opened against the reference, in some facets.
func (t *T) Compare(ref *Ref, o Opened, f Facet) {
	if ref.Overflow {
		t.tooBig(ref, o, f)
		return
	}
	t.Trace()
	t.Trans(ref.Lines)
	t.Out(refOutcome(ref))
	fail := func(format string, args ...interface{}) {
		t.Failf("%s%s\n--- outcome: %s\n--- log:\n%s", fmt.Sprintf(format, args...), t.show(), o, o.Log)
	}
	if f&FOutcome != 0 {
		switch {
		case ref.Fatal != nil:
			if o.Fatal == "" && o.Err == nil {
				fail("it should have been refused: wrong line %s", ref.Fatal)
			}
		case ref.NoOpen != "":
			if o.Err == nil {
				fail("it should have been refused: %s", ref.NoOpen)
			}
		case len(ref.Bad) > 0:
			if o.Fatal == "" && o.Err == nil {
				fail("it should have been refused: wrong %v", keys(ref.Bad))
			}
			if o.Fatal != "" {
				fail("it should have been refused with an error")
			}
		default:
			if o.L == nil {
				fail("it should have been opened")
			}
		}
	}
	if f&FErrPos != 0 {
		if ref.Fatal != nil && o.L == nil {
			if m := o.String(); !hasPos(m, ref.Fatal.String()) {
				fail("the message should name %s", ref.Fatal)
			}
		}
		if ref.Fatal == nil && len(ref.Bad) > 0 && o.Err != nil {
			ok := false
			for p := range ref.Bad {
				if hasPos(o.Err.Error(), p) {
					ok = true
				}
			}
			if !ok {
				fail("the error should name one of %v", keys(ref.Bad))
			}
		}
	}
	if f&FReports != 0 {
		logs := map[string][]string{}
		for _, l := range strings.Split(o.Log, "\n") {
			for _, p := range posRe.FindAllString(l, -1) {
				logs[p] = append(logs[p], l)
			}
		}
		for p, why := range ref.Reported {
			if len(logs[p.String()]) == 0 {
				fail("line %s (%s) was not reported", p, why)
			}
		}
		for p, l := range logs {
			i := strings.LastIndexByte(p, ':')
			n, _ := strconv.Atoi(p[i+1:])
			pos := RPos{p[:i], n}
			if ref.Reported[pos] != "" || ref.MayLog[pos] || ref.Fatal != nil && *ref.Fatal == pos || ref.Bad[p] {
				continue
			}
			if !strings.HasPrefix(p, t.dir) {
				continue
			}
			fail("line %s is right but it was reported: %s", p, strings.Join(l, " / "))
		}
	}
	if o.L == nil || !ref.OK() {
		return
	}
	t.Nontrivial()
	if f&FReports != 0 {
		if s := dangling(o.L); s != "" {
			fail("%s", s)
		}
	}
	c := &cmp{t: t, ref: ref, L: o.L, f: f}
	if s := c.run(); s != "" {
		fail("%s", s)
	}
}

func hasPos(msg, pos string) bool {
	i := strings.Index(msg, pos)
	if i < 0 {
		return false
	}
	rest := msg[i+len(pos):]
	return rest == "" || !isDigit(rest[0])
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func refOutcome(r *Ref) string {
	switch {
	case r.Fatal != nil:
		return "fatal"
	case r.NoOpen != "":
		return "noopen"
	case r.Unsolved:
		return "unsolvable"
	case len(r.Bad) > 0:
		return "wrong"
	case len(r.Reported) > 0:
		return "ok+reported"
	}
	return "ok"
}

// order of accounts: tree order, siblings in order of first appearance
func (r *Ref) TreeOrder() []*RAcct {
	var res []*RAcct
	var walk func(p *RAcct)
	walk = func(p *RAcct) {
		for _, a := range r.Accts {
			if a.Parent == p {
				res = append(res, a)
				walk(a)
			}
		}
	}
	walk(nil)
	return res
}

func strs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func fullName(a *accounting.Account) string {
	if a == nil {
		return "<nil>"
	}
	s := a.Name
	n := 0
	for p := a.Parent; p != nil; p = p.Parent {
		s = p.Name + ":" + s
		if n++; n > 1000 {
			return "<cycle>"
		}
	}
	return s
}

func isTransfer(a *accounting.Account) bool {
	return a != nil && a.Parent == nil && a.Name == transferName
}

func (c *cmp) sameCur(r *RCur, x *accounting.Currency) bool {
	if r == nil {
		return x == nil
	}
	if x == nil {
		return false
	}
	if r.None {
		return x.Name == ""
	}
	if y, ok := c.cur[r]; ok {
		return x == y
	}
	return x.Name == r.Name
}

func showR(v *RVal) string {
	if v == nil {
		return "nothing"
	}
	return fmt.Sprintf("%d %q", v.Amt, rcurName(v.Cur))
}

func showV(v accounting.Value) string { return fmt.Sprintf("%d %q", v.Amount, curName(v.Currency)) }

func idStr(id accounting.ID) (s string) {
	if id == nil {
		return "<nil>"
	}
	defer func() {
		if r := recover(); r != nil {
			s = "<panic>"
		}
	}()
	return id.String()
}

func showBal(b accounting.Balance) string {
	var s []string
	for _, v := range b {
		s = append(s, showV(v))
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func showRBal(b map[*RCur]int64) string {
	var s []string
	for c, n := range b {
		s = append(s, fmt.Sprintf("%d %q", n, rcurName(c)))
	}
	sort.Strings(s)
	return "[" + strings.Join(s, ", ") + "]"
}

// sameBal: exactly the same amounts, each currency once and none of them zero
func (c *cmp) sameBal(r map[*RCur]int64, b accounting.Balance) bool {
	if len(b) != len(r) {
		return false
	}
	used := map[*RCur]bool{}
	for _, v := range b {
		ok := false
		for rc, n := range r {
			if !used[rc] && n == v.Amount && c.sameCur(rc, v.Currency) {
				used[rc] = true
				ok = true
				break
			}
		}
		if !ok || v.Amount == 0 {
			return false
		}
	}
	return true
}

func (c *cmp) run() string {
	f := c.f
	L, ref := c.L, c.ref
	// link currencies
	c.cur = map[*RCur]*accounting.Currency{}
	byName := map[string]*accounting.Currency{}
	for _, x := range L.Currencies {
		if x == nil {
			return "nil currency in the list"
		}
		byName[x.Name] = x
	}
	for _, r := range ref.Curs {
		if x := byName[r.Name]; x != nil {
			c.cur[r] = x
		}
	}
	if f&FCurrency != 0 {
		var a, b []string
		for _, x := range L.Currencies {
			a = append(a, fmtCur(x))
		}
		for _, r := range ref.Curs {
			b = append(b, fmtRCur(r))
		}
		if !strs(a, b) {
			return fmt.Sprintf("currencies are\n %s\nand should be\n %s", strings.Join(a, "\n "), strings.Join(b, "\n "))
		}
		if (L.DefaultCurrency == nil) != (ref.Def == nil) {
			return fmt.Sprintf("default currency is %q and should be %q", curName(L.DefaultCurrency), rcurName(ref.Def))
		}
		if ref.Def != nil {
			if !c.sameCur(ref.Def, L.DefaultCurrency) || fmtCur(L.DefaultCurrency) != fmtRCur(ref.Def) {
				return fmt.Sprintf("default currency is %s and should be %s", fmtCur(L.DefaultCurrency), fmtRCur(ref.Def))
			}
		}
	}
	// accounts
	c.acc = map[*RAcct]*accounting.Account{}
	accByName := map[string]*accounting.Account{}
	var transfer *accounting.Account
	for _, a := range L.Accounts {
		if a == nil {
			return "nil account in the list"
		}
		accByName[fullName(a)] = a
		if isTransfer(a) {
			transfer = a
		}
	}
	order := ref.TreeOrder()
	for _, r := range order {
		c.acc[r] = accByName[r.Name]
	}
	if f&FAccounts != 0 {
		var a, b []string
		for _, x := range L.Accounts {
			if !isTransfer(x) {
				a = append(a, fmt.Sprintf("%q code %q", fullName(x), x.Code))
			}
		}
		for _, r := range order {
			b = append(b, fmt.Sprintf("%q code %q", r.Name, r.Code))
		}
		if !strs(a, b) {
			return fmt.Sprintf("accounts are\n %s\nand should be\n %s", strings.Join(a, "\n "), strings.Join(b, "\n "))
		}
	}
	if f&FTree != 0 {
		if s := c.tree(); s != "" {
			return s
		}
	}
	// transactions
	if f&(FTxns|FAmounts|FOwnTimes|FLinks|FIDs|FComments|FBalances|FTransfer|FMembers) != 0 {
		if s := c.txns(transfer); s != "" {
			return s
		}
	}
	if f&(FMembers|FBalances|FInstants) != 0 {
		if s := c.members(); s != "" {
			return s
		}
	}
	if f&FInstants != 0 {
		if s := c.instants(); s != "" {
			return s
		}
	}
	if f&(FPrices|FAuto|FComments|FIDs) != 0 {
		if s := c.prices(); s != "" {
			return s
		}
	}
	if f&FComments != 0 {
		if s := c.comments(); s != "" {
			return s
		}
	}
	if f&FIDs != 0 {
		for _, r := range order {
			if a := c.acc[r]; a != nil && idStr(a.ID) != r.Pos.String() {
				return fmt.Sprintf("account %q says it was defined in %s and it was in %s", r.Name, idStr(a.ID), r.Pos)
			}
		}
	}
	return ""
}

func fmtCur(x *accounting.Currency) string {
	if x == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%q before=%v nospace=%v T=%q D=%q precision=%d isin=%q", x.Name, x.PrintBefore, x.WithoutSpace, x.Thousand, x.Decimal, x.Precision, x.ISIN)
}

func fmtRCur(r *RCur) string {
	return fmt.Sprintf("%q before=%v nospace=%v T=%q D=%q precision=%d isin=%q", r.Name, r.Before, r.NoSpace, r.T, r.D, r.Prec, r.ISIN)
}

func (c *cmp) tree() string {
	L := c.L
	seen := map[*accounting.Account]int{}
	for i, a := range L.Accounts {
		if _, ok := seen[a]; ok {
			return fmt.Sprintf("account %q is twice in the list", fullName(a))
		}
		seen[a] = i
	}
	names := map[string]bool{}
	for i, a := range L.Accounts {
		n := fullName(a)
		if names[n] {
			return fmt.Sprintf("there are two accounts %q", n)
		}
		names[n] = true
		if a.FullName() != n {
			return fmt.Sprintf("full name of %q is %q", n, a.FullName())
		}
		level := 0
		for p := a.Parent; p != nil; p = p.Parent {
			level++
		}
		if a.Level != level {
			return fmt.Sprintf("level of %q is %d and should be %d", n, a.Level, level)
		}
		if a.Parent != nil {
			if _, ok := seen[a.Parent]; !ok {
				return fmt.Sprintf("the parent of %q is not in the ledger", n)
			}
		}
		if isTransfer(a) && i != len(L.Accounts)-1 {
			return "the transfer account is not the last one"
		}
		var want []*accounting.Account
		for _, b := range L.Accounts {
			if b.Parent == a {
				want = append(want, b)
			}
		}
		if len(want) != len(a.Children) {
			return fmt.Sprintf("%q has %d children and should have %d", n, len(a.Children), len(want))
		}
		for k := range want {
			if want[k] != a.Children[k] {
				return fmt.Sprintf("child %d of %q is %q and should be %q", k, n, fullName(a.Children[k]), fullName(want[k]))
			}
		}
		// after its parent, and before the next account out of the parent's subtree
		if a.Parent != nil {
			k := seen[a.Parent]
			if k >= i {
				return fmt.Sprintf("%q goes before its parent", n)
			}
			for j := k + 1; j < i; j++ {
				in := false
				for p := L.Accounts[j].Parent; p != nil; p = p.Parent {
					if p == a.Parent {
						in = true
					}
				}
				if !in {
					return fmt.Sprintf("%q is between %q and its parent", fullName(L.Accounts[j]), n)
				}
			}
		}
	}
	if n := len(L.Accounts); n == 0 || !isTransfer(L.Accounts[n-1]) {
		return "there is no transfer account at the end"
	}
	return ""
}

func (c *cmp) txns(transfer *accounting.Account) string {
	f, L, ref := c.f, c.L, c.ref
	if len(L.Transactions) != len(ref.Txns) {
		if f&(FTxns|FAmounts|FMembers|FBalances) == 0 {
			return ""
		}
		return fmt.Sprintf("there are %d transactions and should be %d", len(L.Transactions), len(ref.Txns))
	}
	c.spl = map[*RSplit]*accounting.Split{}
	for i, rt := range ref.Txns {
		x := L.Transactions[i]
		where := rt.Pos.String()
		if f&FTxns != 0 {
			if !x.Time.Equal(rt.Time) {
				return fmt.Sprintf("%s: time is %v and should be %v", where, x.Time, rt.Time)
			}
			if x.Description != rt.Desc {
				return fmt.Sprintf("%s: description is %q and should be %q", where, x.Description, rt.Desc)
			}
		}
		if f&FIDs != 0 && idStr(x.ID) != where {
			return fmt.Sprintf("%s: it says it is in %s", where, idStr(x.ID))
		}
		if f&FComments != 0 && !strs(L.Comments[x], rt.Comments) {
			return fmt.Sprintf("%s: comments are %q and should be %q", where, L.Comments[x], rt.Comments)
		}
		var real, moves []*accounting.Split
		for _, s := range x.Splits {
			if s == nil {
				return fmt.Sprintf("%s: nil posting", where)
			}
			if isTransfer(s.Account) {
				moves = append(moves, s)
			} else {
				real = append(real, s)
			}
		}
		if len(real) != len(rt.Splits) {
			if f&(FTxns|FAmounts) == 0 {
				continue
			}
			return fmt.Sprintf("%s: it has %d postings and should have %d", where, len(real), len(rt.Splits))
		}
		for k, rs := range rt.Splits {
			s := real[k]
			c.spl[rs] = s
			where := rs.Pos.String()
			if f&FLinks != 0 && s.Transaction != x {
				return fmt.Sprintf("%s: its transaction is not right", where)
			}
			if f&FIDs != 0 && idStr(s.ID) != where {
				return fmt.Sprintf("%s: it says it is in %s", where, idStr(s.ID))
			}
			if f&FAmounts != 0 {
				if fullName(s.Account) != rs.Acct.Name || s.Account != c.acc[rs.Acct] {
					return fmt.Sprintf("%s: its account is %q and should be %q", where, fullName(s.Account), rs.Acct.Name)
				}
				if s.Value.Amount != rs.Val.Amt || !c.sameCur(rs.Val.Cur, s.Value.Currency) {
					return fmt.Sprintf("%s: its amount is %s and should be %s", where, showV(s.Value), showR(rs.Val))
				}
				p, ok := L.SplitPrices[s]
				if ok != (rs.Price != nil) || ok && (p.Amount != rs.Price.Amt || !c.sameCur(rs.Price.Cur, p.Currency)) {
					return fmt.Sprintf("%s: its total price is %s and should be %s", where, showV(p), showR(rs.Price))
				}
				a, ok := L.Assertions[s]
				if ok != (rs.Assert != nil) || ok && (a.Amount != rs.Assert.Amt || !c.sameCur(rs.Assert.Cur, a.Currency)) {
					return fmt.Sprintf("%s: its assertion is %s and should be %s", where, showV(a), showR(rs.Assert))
				}
			}
			if f&FOwnTimes != 0 && (s.Time == nil || !s.Time.Equal(rs.Time())) {
				return fmt.Sprintf("%s: its time is %v and should be %v", where, s.Time, rs.Time())
			}
			if f&FComments != 0 && !strs(L.Comments[s], rs.Comments) {
				return fmt.Sprintf("%s: comments are %q and should be %q", where, L.Comments[s], rs.Comments)
			}
			if f&FBalances != 0 && !c.sameBal(rs.Balance, s.Balance) {
				return fmt.Sprintf("%s: balance is %s and should be %s", where, showBal(s.Balance), showRBal(rs.Balance))
			}
		}
		if f&FTransfer != 0 {
			// for each posting with a date of its own, the opposite then and the same at the transaction's time
			type mv struct {
				at  int64
				amt int64
				cur string
			}
			want := map[mv]int{}
			for _, rs := range rt.Splits {
				if rs.Own == nil {
					continue
				}
				want[mv{rs.Own.Unix(), -rs.Val.Amt, rcurName(rs.Val.Cur)}]++
				want[mv{rt.Time.Unix(), rs.Val.Amt, rcurName(rs.Val.Cur)}]++
			}
			for _, s := range moves {
				if s.Time == nil || s.Transaction != x {
					return fmt.Sprintf("%s: transfer posting without time or of another transaction", where)
				}
				want[mv{s.Time.Unix(), s.Value.Amount, curName(s.Value.Currency)}]--
			}
			for m, n := range want {
				// postings with their own date equal to the transaction's are optional
				if n != 0 && !(m.at == rt.Time.Unix() && c.optional(rt)) {
					return fmt.Sprintf("%s: wrong transfer postings: %d too few of %v", where, n, m)
				}
			}
		}
	}
	if f&(FTransfer|FBalances) != 0 {
		n := 0
		nth := map[*accounting.Transaction]int{}
		for i, x := range L.Transactions {
			nth[x] = i
			for _, s := range x.Splits {
				if isTransfer(s.Account) {
					n++
					if s.Account != transfer {
						return "posting of a transfer account which is not in the ledger"
					}
				}
			}
		}
		if transfer != nil {
			if len(transfer.Splits) != n {
				return fmt.Sprintf("the transfer account has %d postings and the transactions have %d", len(transfer.Splits), n)
			}
			var b = map[*accounting.Currency]int64{}
			for i, s := range transfer.Splits {
				if i > 0 && s.Time.Before(*transfer.Splits[i-1].Time) {
					return "the transfer account is not sorted"
				}
				if i > 0 && s.Time.Equal(*transfer.Splits[i-1].Time) && nth[s.Transaction] < nth[transfer.Splits[i-1].Transaction] {
					return "the postings of the transfer account at the same time are not in the order of their transactions"
				}
				b[s.Value.Currency] += s.Value.Amount
				if b[s.Value.Currency] == 0 {
					delete(b, s.Value.Currency)
				}
				if len(s.Balance) != len(b) {
					return fmt.Sprintf("wrong balance in the transfer account: %s", showBal(s.Balance))
				}
				for _, v := range s.Balance {
					if b[v.Currency] != v.Amount || v.Amount == 0 {
						return fmt.Sprintf("wrong balance in the transfer account: %s", showBal(s.Balance))
					}
				}
			}
			if len(b) != 0 {
				return "the transfer account does not end at zero"
			}
		}
	}
	return ""
}

// optional: some posting has a date of its own equal to that of its transaction
func (c *cmp) optional(rt *RTxn) bool {
	for _, s := range rt.Splits {
		if s.Own != nil && s.Own.Equal(rt.Time) {
			return true
		}
	}
	return false
}

func (c *cmp) members() string {
	ref, f := c.ref, c.f
	for _, r := range ref.Accts {
		a := c.acc[r]
		if a == nil {
			if f&FMembers != 0 {
				return fmt.Sprintf("there is no account %q", r.Name)
			}
			continue
		}
		want := ref.AcctSplits(r)
		if len(want) != len(a.Splits) {
			return fmt.Sprintf("account %q has %d postings and should have %d", r.Name, len(a.Splits), len(want))
		}
		for i, rs := range want {
			s := a.Splits[i]
			if x := c.spl[rs]; x != nil && x != s && f&FMembers != 0 {
				return fmt.Sprintf("posting %d of account %q is that of %s and should be that of %s", i, r.Name, idStr(s.ID), rs.Pos)
			}
			if idStr(s.ID) != rs.Pos.String() && f&FMembers != 0 && !ref.NoPos {
				return fmt.Sprintf("posting %d of account %q is that of %s and should be that of %s", i, r.Name, idStr(s.ID), rs.Pos)
			}
			if s.Account != a {
				return fmt.Sprintf("posting %d of account %q belongs to %q", i, r.Name, fullName(s.Account))
			}
			if f&FBalances != 0 && !c.sameBal(rs.Balance, s.Balance) {
				return fmt.Sprintf("%s: balance is %s and should be %s", rs.Pos, showBal(s.Balance), showRBal(rs.Balance))
			}
		}
	}
	return ""
}

// moments returns interesting instants: those in the ledger and around them.
func (r *Ref) moments() []time.Time {
	set := map[int64]time.Time{}
	add := func(t time.Time) {
		for _, d := range []time.Duration{-1, 0, 1} {
			x := t.Add(d)
			set[x.UnixNano()] = x
		}
	}
	for _, t := range r.Txns {
		add(t.Time)
		for _, s := range t.Splits {
			add(s.Time())
		}
	}
	x := time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC)
	set[x.UnixNano()] = x
	var res []time.Time
	for _, t := range set {
		res = append(res, t)
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Before(res[j]) })
	return res
}

func (c *cmp) instants() string {
	ref := c.ref
	ms := ref.moments()
	for _, r := range ref.Accts {
		a := c.acc[r]
		if a == nil {
			continue
		}
		ss := ref.AcctSplits(r)
		for _, m := range ms {
			var want map[*RCur]int64
			for _, s := range ss {
				if !s.Time().After(m) {
					want = s.Balance
				}
			}
			if b := c.L.GetBalance(a, m); !c.sameBal(want, b) {
				return fmt.Sprintf("balance of %q at %v is %s and should be %s", r.Name, m, showBal(b), showRBal(want))
			}
		}
		var want map[*RCur]int64
		if len(ss) > 0 {
			want = ss[len(ss)-1].Balance
		}
		if b := c.L.GetBalance(a, time.Time{}); !c.sameBal(want, b) {
			return fmt.Sprintf("current balance of %q is %s and should be %s", r.Name, showBal(b), showRBal(want))
		}
	}
	// the books balance at every instant: what the transactions begun so far leave
	if c.f&FTransfer != 0 {
		for _, m := range ms {
			total := map[string]int64{}
			for _, a := range c.L.Accounts {
				for _, v := range c.L.GetBalance(a, m) {
					total[curName(v.Currency)] += v.Amount
				}
			}
			for _, t := range ref.Txns {
				if t.Time.After(m) {
					continue
				}
				for _, s := range t.Splits {
					total[rcurName(s.Val.Cur)] -= s.Val.Amt
				}
			}
			for cur, n := range total {
				if n != 0 {
					return fmt.Sprintf("at %v the sum of all the balances is %d %q too much", m, n, cur)
				}
			}
		}
	}
	return ""
}

func (c *cmp) isAuto(p *accounting.Price) bool {
	x := c.L.Comments[p]
	return p.ID == nil && len(x) == 1 && x[0] == "automatic"
}

func (c *cmp) prices() string {
	f, L, ref := c.f, c.L, c.ref
	var lines, auto []*accounting.Price
	for i, p := range L.Prices {
		if p == nil {
			return "nil price"
		}
		if f&FPrices != 0 && i > 0 && p.Time.Before(L.Prices[i-1].Time) {
			return "prices are not sorted"
		}
		if p.ID == nil {
			auto = append(auto, p)
		} else {
			lines = append(lines, p)
		}
	}
	if len(lines) != len(ref.Prices) {
		if f&FPrices != 0 {
			return fmt.Sprintf("there are %d prices from lines and should be %d", len(lines), len(ref.Prices))
		}
		return ""
	}
	for i, r := range ref.Prices {
		p := lines[i]
		where := r.Pos.String()
		if f&FPrices != 0 {
			if !p.Time.Equal(r.Time) || !c.sameCur(r.Cur, p.Currency) || p.Value.Amount != r.Val.Amt || !c.sameCur(r.Val.Cur, p.Value.Currency) {
				return fmt.Sprintf("%s: price is %v %q = %s and should be %v %q = %s", where, p.Time, curName(p.Currency), showV(p.Value), r.Time, rcurName(r.Cur), showR(&r.Val))
			}
		}
		if f&FIDs != 0 && idStr(p.ID) != where {
			return fmt.Sprintf("%s: price says it is in %s", where, idStr(p.ID))
		}
		if f&FComments != 0 && !strs(L.Comments[p], r.Comments) {
			return fmt.Sprintf("%s: comments are %q and should be %q", where, L.Comments[p], r.Comments)
		}
	}
	if f&FAuto != 0 {
		used := make([]bool, len(auto))
		for _, r := range ref.Auto {
			q := new(big.Int).Mul(big.NewInt(unit), r.Num)
			q.Quo(q, r.Den)
			if q.CmpAbs(bigMax) > 0 {
				continue // that price cannot be known
			}
			ok := false
			for i, p := range auto {
				if used[i] || !p.Time.Equal(r.Time) || !c.sameCur(r.From, p.Currency) || !c.sameCur(r.To, p.Value.Currency) {
					continue
				}
				d := p.Value.Amount - q.Int64()
				if d < -1 || d > 1 {
					continue
				}
				used[i], ok = true, true
				break
			}
			if !ok && q.CmpAbs(new(big.Int).Sub(bigMax, big.NewInt(2))) < 0 {
				return fmt.Sprintf("there is no automatic price %v %q = %v %q", r.Time, rcurName(r.From), q, rcurName(r.To))
			}
		}
		for i, p := range auto {
			if !used[i] {
				return fmt.Sprintf("automatic price which should not be there: %v %q = %s", p.Time, curName(p.Currency), showV(p.Value))
			}
			if !c.isAuto(p) {
				return fmt.Sprintf("automatic price with comments %q", L.Comments[p])
			}
		}
	}
	return ""
}

func (c *cmp) comments() string {
	L, ref := c.L, c.ref
	n := 0
	count := func(x []string) {
		if len(x) > 0 {
			n++
		}
	}
	for _, r := range ref.Accts {
		count(r.Comments)
		a := c.acc[r]
		if a == nil {
			return fmt.Sprintf("there is no account %q", r.Name)
		}
		if !strs(L.Comments[a], r.Comments) {
			return fmt.Sprintf("comments of account %q are %q and should be %q", r.Name, L.Comments[a], r.Comments)
		}
		if a.Code != r.Code {
			return fmt.Sprintf("code of account %q is %q and should be %q", r.Name, a.Code, r.Code)
		}
	}
	curs := ref.Curs
	if ref.Def != nil && ref.Def.Name == "" {
		curs = append(append([]*RCur(nil), curs...), ref.Def)
	}
	for _, r := range curs {
		count(r.Comments)
		x := c.cur[r]
		if r == ref.Def {
			x = L.DefaultCurrency
		}
		if x == nil {
			return fmt.Sprintf("there is no currency %q", r.Name)
		}
		if !strs(L.Comments[x], r.Comments) {
			return fmt.Sprintf("comments of currency %q are %q and should be %q", r.Name, L.Comments[x], r.Comments)
		}
		if x.ISIN != r.ISIN {
			return fmt.Sprintf("ISIN of currency %q is %q and should be %q", r.Name, x.ISIN, r.ISIN)
		}
	}
	for _, t := range ref.Txns {
		count(t.Comments)
		for _, s := range t.Splits {
			count(s.Comments)
		}
	}
	for _, p := range ref.Prices {
		count(p.Comments)
	}
	real := 0
	for k, x := range L.Comments {
		if p, ok := k.(*accounting.Price); ok && c.isAuto(p) {
			continue
		}
		if len(x) > 0 {
			real++
		}
	}
	if real != n {
		return fmt.Sprintf("there are comments in %d items and should be in %d", real, n)
	}
	return ""
}

// dangling looks for prices and assertions of postings which are not in the ledger
func dangling(L *accounting.Ledger) string {
	in := map[*accounting.Split]bool{}
	for _, t := range L.Transactions {
		for _, s := range t.Splits {
			in[s] = true
		}
	}
	for s := range L.SplitPrices {
		if !in[s] {
			return "there is a price for a posting which is not in the ledger"
		}
	}
	for s := range L.Assertions {
		if !in[s] {
			return "there is an assertion for a posting which is not in the ledger"
		}
	}
	return ""
}
