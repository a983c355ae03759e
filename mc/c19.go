package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/cespedes/accounting"
)

// C19: queries and connections.

// qBase is the connection: it records the calls and gives the results it is told to give.
type qBase struct {
	calls []string
	args  []interface{}
	acc   *accounting.Account
	txs   []*accounting.Transaction
	tx    *accounting.Transaction
	err   error
}

func (b *qBase) call(name string, args ...interface{}) {
	b.calls = append(b.calls, name)
	b.args = args
}

func (b *qBase) Close() error { b.call("Close"); return b.err }
func (b *qBase) Refresh()     { b.call("Refresh") }

// the names of these fields are different so that only the methods are promoted
type qAccount struct{ q1 *qBase }
type qInAccount struct{ q2 *qBase }
type qInInterval struct{ q3 *qBase }
type qNewAccount struct{ q4 *qBase }
type qEditAccount struct{ q5 *qBase }
type qNewTx struct{ q6 *qBase }
type qEditTx struct{ q7 *qBase }
type qFlush struct{ q8 *qBase }

func (q qAccount) Account(id accounting.ID) *accounting.Account {
	q.q1.call("Account", id)
	return q.q1.acc
}
func (q qInAccount) TransactionsInAccount(id accounting.ID) []*accounting.Transaction {
	q.q2.call("TransactionsInAccount", id)
	return q.q2.txs
}
func (q qInInterval) TransactionsInInterval(a, b time.Time) []*accounting.Transaction {
	q.q3.call("TransactionsInInterval", a, b)
	return q.q3.txs
}
func (q qNewAccount) NewAccount(a accounting.Account) (*accounting.Account, error) {
	q.q4.call("NewAccount", a)
	return q.q4.acc, q.q4.err
}
func (q qEditAccount) EditAccount(a accounting.Account) (*accounting.Account, error) {
	q.q5.call("EditAccount", a)
	return q.q5.acc, q.q5.err
}
func (q qNewTx) NewTransaction(a accounting.Transaction) (*accounting.Transaction, error) {
	q.q6.call("NewTransaction", a)
	return q.q6.tx, q.q6.err
}
func (q qEditTx) EditTransaction(a accounting.Transaction) (*accounting.Transaction, error) {
	q.q7.call("EditTransaction", a)
	return q.q7.tx, q.q7.err
}
func (q qFlush) Flush() error { q.q8.call("Flush"); return q.q8.err }

var theQDriver *closeDriver

// qOpen opens, through a connection which implements a subset of the operations, a ledger with the same data as another one.
func (t *T) qOpen(mask int, data *accounting.Ledger) (*accounting.Ledger, *qBase) {
	if theQDriver == nil {
		theQDriver = new(closeDriver)
		accounting.Register("mcqueries", theQDriver)
	}
	b := new(qBase)
	theQDriver.open = func(url string, be *accounting.Backend) (accounting.Connection, error) {
		l := be.Ledger
		l.Accounts, l.Transactions, l.Currencies, l.Prices = data.Accounts, data.Transactions, data.Currencies, data.Prices
		l.Comments, l.Assertions, l.SplitPrices, l.DefaultCurrency = data.Comments, data.Assertions, data.SplitPrices, data.DefaultCurrency
		return subsetConn(mask, b), nil
	}
	L, err := accounting.Open("mcqueries:")
	if err != nil {
		t.Failf("opening fails: %v", err)
	}
	if len(b.calls) > 0 {
		t.Failf("opening calls %q", b.calls)
	}
	return L, b
}

type qid int

func (q qid) String() string { return fmt.Sprint(int(q)) }

// qData is made by hand: accounts with ids in any order
func qData() *accounting.Ledger {
	X := &accounting.Currency{Name: "X"}
	var L accounting.Ledger
	L.Currencies = []*accounting.Currency{X}
	for i, n := range []string{"A", "B", "C", "D"} {
		L.Accounts = append(L.Accounts, &accounting.Account{ID: qid(7 - i*2), Name: n})
	}
	L.Accounts[3].ID = stringID("7")
	tx := func(id int, when time.Time, accts ...int) {
		x := &accounting.Transaction{ID: qid(id), Time: when}
		for i, a := range accts {
			n := int64(1)
			if i == len(accts)-1 {
				n = -int64(len(accts) - 1)
			}
			x.Splits = append(x.Splits, &accounting.Split{Account: L.Accounts[a], Value: accounting.Value{Amount: n, Currency: X}})
		}
		L.Transactions = append(L.Transactions, x)
	}
	tx(1, day(3), 0, 1)
	tx(2, day(3), 1, 1, 2)
	tx(3, day(5).Add(1), 0, 0)
	tx(4, day(5), 2, 0, 1)
	tx(5, day(9), 1, 0)
	// without an id, and with that of another one
	tx(6, day(9), 0, 1)
	tx(7, day(9), 1, 0)
	tx(5, day(9), 2, 1)
	tx(1, day(10), 0, 2)
	L.Transactions[5].ID, L.Transactions[6].ID = nil, nil
	return &L
}

// fallback compares the results of the fallbacks with the definition
func (t *T) fallback(L *accounting.Ledger, mask int) {
	ids := []accounting.ID{qid(99), stringID("none"), stringID("A")}
	for _, a := range L.Accounts {
		if a.ID != nil {
			ids = append(ids, a.ID)
		}
	}
	for _, tx := range L.Transactions {
		if tx.ID != nil {
			ids = append(ids, tx.ID)
		}
	}
	for _, id := range ids {
		if mask&1 == 0 {
			var want *accounting.Account
			for _, a := range L.Accounts {
				if a.ID != nil && a.ID == id {
					want = a
					break
				}
			}
			t.Trans(1)
			if got := L.Account(id); got != want {
				t.Failf("account %v: %v instead of %v%s", id, got, want, t.show())
			}
		}
		if mask&2 == 0 {
			var want []*accounting.Transaction
			for _, tx := range L.Transactions {
				in := false
				for _, s := range tx.Splits {
					in = in || s.Account.ID != nil && s.Account.ID == id
				}
				if in {
					want = append(want, tx)
				}
			}
			t.Trans(1)
			if got := L.TransactionsInAccount(id); !sameTxs(got, want) {
				t.Failf("transactions in account %v: %s instead of %s%s", id, showTxs(got), showTxs(want), t.show())
			}
		}
	}
	if mask&4 != 0 {
		return
	}
	whens := []time.Time{{}, time.Date(9999, 1, 1, 0, 0, 0, 0, time.UTC)}
	seen := map[int64]bool{}
	for _, tx := range L.Transactions {
		if seen[tx.Time.UnixNano()] {
			continue
		}
		seen[tx.Time.UnixNano()] = true
		whens = append(whens, tx.Time, tx.Time.Add(1), tx.Time.Add(-1), tx.Time.In(time.FixedZone("Z", -5*3600)))
	}
	for _, a := range whens {
		for _, b := range whens {
			var want []*accounting.Transaction
			for _, tx := range L.Transactions {
				if !tx.Time.Before(a) && !tx.Time.After(b) {
					want = append(want, tx)
				}
			}
			t.Trans(1)
			if got := L.TransactionsInInterval(a, b); !sameTxs(got, want) {
				t.Failf("transactions between %s and %s: %s instead of %s%s", a, b, showTxs(got), showTxs(want), t.show())
			}
		}
	}
}

func sameTxs(a, b []*accounting.Transaction) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func showTxs(a []*accounting.Transaction) string {
	s := fmt.Sprint(len(a))
	for _, x := range a {
		s += fmt.Sprintf(" [%v %s]", x.ID, x.Time.Format("01-02/15:04:05.999999999"))
	}
	return s
}

var qNames = []string{"Account", "TransactionsInAccount", "TransactionsInInterval", "NewAccount", "EditAccount", "NewTransaction", "EditTransaction", "Flush"}

// delegation: operations which the connection implements reach it, and nothing else does
func (t *T) delegation(L *accounting.Ledger, b *qBase, mask int, round int) {
	b.calls = nil
	b.acc, b.tx, b.txs, b.err = &accounting.Account{Name: "result"}, &accounting.Transaction{Description: "result"}, []*accounting.Transaction{{Description: "r1"}, {Description: "r2"}}, nil
	switch round {
	case 1:
		b.acc, b.tx, b.txs, b.err = nil, nil, nil, errors.New("own error")
	case 2:
		b.err = errors.New("error and result")
		b.txs = []*accounting.Transaction{}
	}
	D := L
	if len(L.Currencies) == 0 {
		D = qData()
	}
	id := D.Accounts[0].ID
	t1, t2 := day(3), day(5).In(time.FixedZone("Z", 3600))
	acc := accounting.Account{ID: id, Name: "new", Parent: D.Accounts[0], Code: "c", Level: 3, StartBalance: accounting.Balance{{Amount: 4, Currency: D.Currencies[0]}}}
	tx := accounting.Transaction{ID: id, Time: day(4), Description: "d", Splits: []*accounting.Split{{Account: D.Accounts[1]}}}
	d0 := DumpL(L, full)
	for k, name := range qNames {
		has := mask>>uint(k)&1 == 1
		b.calls, b.args = nil, nil
		var res []interface{}
		var want, args []interface{}
		var err error
		switch k {
		case 0:
			res, want, args = []interface{}{L.Account(id)}, []interface{}{b.acc}, []interface{}{id}
		case 1:
			res, want, args = []interface{}{L.TransactionsInAccount(id)}, []interface{}{b.txs}, []interface{}{id}
		case 2:
			res, want, args = []interface{}{L.TransactionsInInterval(t1, t2)}, []interface{}{b.txs}, []interface{}{t1, t2}
		case 3:
			var x *accounting.Account
			x, err = L.NewAccount(acc)
			res, want, args = []interface{}{x}, []interface{}{b.acc}, []interface{}{acc}
		case 4:
			var x *accounting.Account
			x, err = L.EditAccount(acc)
			res, want, args = []interface{}{x}, []interface{}{b.acc}, []interface{}{acc}
		case 5:
			var x *accounting.Transaction
			x, err = L.NewTransaction(tx)
			res, want, args = []interface{}{x}, []interface{}{b.tx}, []interface{}{tx}
		case 6:
			var x *accounting.Transaction
			x, err = L.EditTransaction(tx)
			res, want, args = []interface{}{x}, []interface{}{b.tx}, []interface{}{tx}
		case 7:
			err = L.Flush()
		}
		t.Trans(1)
		what := fmt.Sprintf("%s with a connection which implements %s (round %d)", name, maskNames(mask), round)
		if !has {
			if len(b.calls) > 0 {
				t.Failf("%s: it called %q", what, b.calls)
			}
			if k >= 3 && k < 7 && (err == nil || !reflect.ValueOf(res[0]).IsNil()) {
				t.Failf("%s: it gives %v and error %v", what, res[0], err)
			}
			if k == 7 && err != nil {
				t.Failf("%s: it gives %v", what, err)
			}
			continue
		}
		if len(b.calls) != 1 || b.calls[0] != name {
			t.Failf("%s: it called %q", what, b.calls)
		}
		if !reflect.DeepEqual(args, b.args) && !(len(args) == 0 && len(b.args) == 0) {
			t.Failf("%s: the arguments were %v instead of %v", what, b.args, args)
		}
		if k >= 3 && err != b.err && (err == nil || b.err == nil || !strings.Contains(err.Error(), b.err.Error())) {
			t.Failf("%s: the error is %v instead of %v", what, err, b.err)
		}
		if k < 7 {
			x, y := reflect.ValueOf(res[0]), reflect.ValueOf(want[0])
			if x.Kind() == reflect.Slice {
				if !sameTxs(res[0].([]*accounting.Transaction), b.txs) {
					t.Failf("%s: it gives other transactions", what)
				}
			} else if x.Pointer() != y.Pointer() {
				t.Failf("%s: it gives %v instead of %v", what, res[0], want[0])
			}
		}
	}
	b.calls = nil
	L.Refresh()
	err := L.Close()
	if fmt.Sprint(b.calls) != "[Refresh Close]" || (err != b.err && (err == nil || b.err == nil)) {
		t.Failf("refreshing and closing called %q and gave %v", b.calls, err)
	}
	if d := DumpL(L, full); d != d0 {
		t.Failf("the operations changed the ledger: %s", diff(d0, d))
	}
}

func maskNames(mask int) string {
	var s []string
	for k, n := range qNames {
		if mask>>uint(k)&1 == 1 {
			s = append(s, n)
		}
	}
	return "[" + strings.Join(s, " ") + "]"
}

func init() {
	register(&Check{ID: "C19", Rule: "each case is a subset of the operations which a connection implements, with every operation called and its arguments and results compared; or a journal, with all its identifiers and all the pairs of instants around its transactions",
		Assumptions: []string{"the account of the transfer postings has no identifier: it is not looked up", "identifiers are unique"},
		Families: func(th bool) []Family {
			n := 3
			if th {
				n = 4
			}
			D := []string{"2020-01-05", "2020-01-05/12:00:01", "2020-01-06"}
			query := func(t *T, s string) {
				o := t.Journal(s)
				t.Out(o.Outcome())
				if o.L == nil {
					return
				}
				t.Sample(s)
				t.Nontrivial()
				t.Trace()
				t.StateHash(uint64(t.idx)<<8 + uint64(t.fam[0]))
				t.fallback(o.L, 0)
				t.fallback(o.L.Clone(), 0)
			}
			o := txnOpts{name: "history2", desc: "two transactions of two postings", ntx: 2, npost: 2, accts: []string{"A", "A:B", "C"}, forms: []string{"1 X", "-1 X", ""}, pdates: []string{"", "2020-01-04", "2020-01-06"}, txdates: D, run: query}
			o3 := txnOpts{name: "history3", desc: "three transactions of two postings", ntx: 3, npost: 2, accts: []string{"A", "B"}, forms: []string{"1 X", "-1 X"}, pdates: []string{""}, txdates: D, run: query}
			fs := []Family{
				{Name: "capabilities", Desc: "all the subsets of 8 operations of a connection, with three kinds of results, in a ledger, in its copy and in an empty one", N: 256 * 3 * 3, Run: func(t *T, i int64) {
					d := &Dec{i}
					mask, round, clone := d.Pick(256), d.Pick(3), d.Pick(3)
					data := qData()
					if clone == 2 {
						data = new(accounting.Ledger)
					}
					L, b := t.qOpen(mask, data)
					if clone == 1 {
						L = L.Clone()
					}
					t.Sample(maskNames(mask))
					t.State(fmt.Sprint(mask, round, clone))
					t.Trace()
					t.Nontrivial()
					t.Out("subset")
					t.fallback(L, mask)
					t.delegation(L, b, mask, round)
				}},
				famTxn(o), famTxn(o3),
				famSeq("rich", "chunks of lines using every feature", "", richAlphabet, n, query),
				{Name: "many", Desc: "journals with up to 60 transactions in up to 7 different times", N: 60 * 7, Run: func(t *T, i int64) {
					n, m := int(i)%60+1, int(i)/60+1
					var b strings.Builder
					for k := 0; k < n; k++ {
						fmt.Fprintf(&b, "2020-01-%02d t%d\n  A%d  1 X\n  A%d  -1 X\n", 1+k*m/n, k, k*5%7, k%3)
					}
					query(t, b.String())
				}},
				{Name: "txtdb", Desc: "a txtdb directory", N: 1, Run: func(t *T, i int64) {
					for n, s := range isoTxtdbFiles {
						t.WriteFile(n, s)
					}
					o := t.OpenSource("txtdb:" + t.Path("db"))
					if o.L == nil {
						t.Failf("cannot open: %s", o)
					}
					t.fallback(o.L, 0)
					t.Nontrivial()
					if e := o.L.Flush(); e == nil {
						t.Failf("txtdb implements Flush with an error, and it gives none")
					}
				}},
			}
			return fs
		}})
}
