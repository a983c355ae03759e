package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
)

// C12: recalculating.

// objects lists what has to be the same object after recalculating.
func objects(L *accounting.Ledger) []interface{} {
	var res []interface{}
	for _, a := range L.Accounts {
		res = append(res, a)
	}
	for _, c := range L.Currencies {
		res = append(res, c)
	}
	res = append(res, L.DefaultCurrency)
	for _, tx := range L.Transactions {
		res = append(res, tx)
		for _, s := range tx.Splits {
			if !isTransfer(s.Account) {
				res = append(res, s)
			}
		}
	}
	for _, p := range L.Prices {
		if p.ID != nil {
			res = append(res, p)
		}
	}
	return res
}

func (t *T) sameObjects(a, b []interface{}, what string) {
	if len(a) != len(b) {
		t.Failf("%s: there were %d objects and now there are %d%s", what, len(a), len(b), t.show())
	}
	for i := range a {
		if a[i] != b[i] {
			t.Failf("%s: object %d (%T) is not the same%s", what, i, a[i], t.show())
		}
	}
}

func (t *T) refill(text string) {
	o := t.Journal(text)
	t.Sample(text)
	t.Out(o.Outcome())
	if o.L == nil {
		return
	}
	t.Nontrivial()
	t.Trace()
	L := o.L
	d0, e0, o0 := DumpL(L, full), export(L), objects(L)
	t.State(d0)
	step := func(X *accounting.Ledger, obj []interface{}, what string) {
		t.Trans(1)
		if err := X.Fill(); err != nil {
			t.Failf("%s: recalculating fails: %v%s", what, err, t.show())
		}
		if d := DumpL(X, full); d != d0 {
			t.Failf("%s: recalculating changed something: %s%s", what, diff(d0, d), t.show())
		}
		t.sameObjects(obj, objects(X), what)
		if e := export(X); e != e0 {
			t.Failf("%s: after recalculating, it prints other text: %s%s", what, diff(e0, e), t.show())
		}
	}
	C := L.Clone()
	step(L, o0, "once")
	step(L, o0, "twice")
	oc := objects(C)
	step(C, oc, "a copy, once")
	D := C.Clone()
	step(C, oc, "a copy, twice")
	step(D, objects(D), "a copy of a recalculated copy")
	if d := DumpL(L, full); d != d0 {
		t.Failf("recalculating a copy changed the ledger: %s%s", diff(d0, d), t.show())
	}
	E := L.Clone()
	step(E, objects(E), "a copy of a recalculated ledger")
	step(L, o0, "three times")
}

// ---- changes through the API

type mSplit struct {
	acct   string
	amt    int64
	cur    string
	empty  bool
	own    int // day, or 0
	assert *int64
	price  int64 // total, in Y
}

type mTx struct {
	name   string
	day    int
	splits []*mSplit
}

type mPrice struct {
	day int
	amt int64
}

type mAcct struct {
	name   string
	parent string // key
}

type mLedger struct {
	txs    []*mTx
	prices []*mPrice
	accts  map[string]*mAcct // the keys are the names they have at first
	order  []string
}

// full returns the present name of an account.
func (m *mLedger) full(key string) string {
	a := m.accts[key]
	if a.parent == "" {
		return a.name
	}
	return m.full(a.parent) + ":" + a.name
}

func day(n int) time.Time { return time.Date(2020, 1, n, 12, 0, 0, 0, time.UTC) }

func (m *mLedger) sort() {
	var order []string
	var walk func(parent string)
	walk = func(parent string) {
		for _, k := range m.order {
			if m.accts[k].parent == parent {
				order = append(order, k)
				walk(k)
			}
		}
	}
	walk("")
	m.order = order
	sort.SliceStable(m.txs, func(i, j int) bool { return m.txs[i].day < m.txs[j].day })
	sort.SliceStable(m.prices, func(i, j int) bool { return m.prices[i].day < m.prices[j].day })
}

func (m *mLedger) text() string {
	var b strings.Builder
	for _, k := range m.order {
		fmt.Fprintf(&b, "account %s\n", m.full(k))
	}
	b.WriteString("commodity 1 X\ncommodity 1 Y\n")
	for _, p := range m.prices {
		fmt.Fprintf(&b, "P 2020-01-%02d X %d Y\n", p.day, p.amt)
	}
	for _, tx := range m.txs {
		fmt.Fprintf(&b, "2020-01-%02d %s\n", tx.day, tx.name)
		for _, s := range tx.splits {
			fmt.Fprintf(&b, "  %s  ", m.full(s.acct))
			if !s.empty {
				fmt.Fprintf(&b, "%d %s", s.amt, s.cur)
			}
			if s.price != 0 {
				fmt.Fprintf(&b, " @@ %d Y", s.price)
			}
			if s.assert != nil {
				fmt.Fprintf(&b, " = %d X", *s.assert)
			}
			if s.own != 0 {
				fmt.Fprintf(&b, " ; date:2020-01-%02d", s.own)
			}
			b.WriteString("\n")
		}
	}
	return b.String()
}

// both keeps a model and the real ledger in step
type both struct {
	m    *mLedger
	L    *accounting.Ledger
	txs  map[string]*accounting.Transaction
	mtx  map[string]*mTx
	skip bool
	n    int
}

func (b *both) index() {
	b.txs = map[string]*accounting.Transaction{}
	for _, tx := range b.L.Transactions {
		b.txs[tx.Description] = tx
	}
	b.mtx = map[string]*mTx{}
	for _, tx := range b.m.txs {
		b.mtx[tx.name] = tx
	}
}

func (b *both) acct(key string) *accounting.Account {
	name := b.m.full(key)
	for _, a := range b.L.Accounts {
		if fullName(a) == name {
			return a
		}
	}
	panic("no account " + name)
}

func (b *both) value(amt int64, cur string) accounting.Value {
	c, isNew := b.L.GetCurrency(cur)
	if isNew {
		panic("new currency")
	}
	return accounting.Value{Amount: amt * unit, Currency: c}
}

// real returns the postings of a transaction without those of the transfer account
func real(tx *accounting.Transaction) []*accounting.Split {
	var r []*accounting.Split
	for _, s := range tx.Splits {
		if !isTransfer(s.Account) {
			r = append(r, s)
		}
	}
	return r
}

func (b *both) with(name string, k int, f func(tx *accounting.Transaction, s *accounting.Split, m *mTx, ms *mSplit)) {
	m, tx := b.mtx[name], b.txs[name]
	if m == nil || k >= len(m.splits) {
		return
	}
	f(tx, real(tx)[k], m, m.splits[k])
}

type apiOp struct {
	name string
	do   func(b *both)
}

func apiOps() []apiOp {
	setAmt := func(name string, k int, d int64) apiOp {
		return apiOp{fmt.Sprintf("add %d to posting %d of %s", d, k, name), func(b *both) {
			b.with(name, k, func(tx *accounting.Transaction, s *accounting.Split, m *mTx, ms *mSplit) {
				if ms.empty {
					return
				}
				ms.amt += d
				s.Value.Amount += d * unit
				if ms.price != 0 { // keep it right
					v := b.L.SplitPrices[s]
					v.Amount += d * unit
					ms.price += d
					if ms.price == 0 {
						ms.price++
						v.Amount += unit
					}
					b.L.SplitPrices[s] = v
				}
			})
		}}
	}
	both2 := func(name string, d int64) apiOp {
		x, y := setAmt(name, 0, d), setAmt(name, 1, -d)
		return apiOp{fmt.Sprintf("move %d more in %s", d, name), func(b *both) { x.do(b); y.do(b) }}
	}
	return []apiOp{
		{"recalculate", func(b *both) { b.fill() }},
		{"clone", func(b *both) { b.L = b.L.Clone(); b.index() }},
		both2("t0", 2),
		both2("t1", -3),
		setAmt("t0", 0, 1),
		setAmt("t0", 0, -1),
		{"empty posting 1 of t0", func(b *both) {
			b.with("t0", 1, func(tx *accounting.Transaction, s *accounting.Split, m *mTx, ms *mSplit) {
				if ms.price != 0 {
					return
				}
				ms.empty = true
				s.Value = accounting.Value{}
			})
		}},
		{"t0 to day 7", func(b *both) { b.date("t0", 7) }},
		{"t1 to day 4", func(b *both) { b.date("t1", 4) }},
		{"own date 9 in posting 0 of t0", func(b *both) { b.own("t0", 0, 9) }},
		{"own date 2 in posting 1 of t1", func(b *both) { b.own("t1", 1, 2) }},
		{"no own date in posting 0 of t0", func(b *both) { b.own("t0", 0, 0) }},
		{"posting 0 of t0 to B:C", func(b *both) {
			b.with("t0", 0, func(tx *accounting.Transaction, s *accounting.Split, m *mTx, ms *mSplit) {
				ms.acct = "B:C"
				s.Account = b.acct("B:C")
			})
		}},
		{"remove t1", func(b *both) {
			if b.mtx["t1"] == nil {
				return
			}
			var x []*mTx
			for _, m := range b.m.txs {
				if m.name != "t1" {
					x = append(x, m)
				}
			}
			b.m.txs = x
			var y []*accounting.Transaction
			for _, tx := range b.L.Transactions {
				if tx.Description != "t1" {
					y = append(y, tx)
				} else {
					for _, s := range tx.Splits {
						delete(b.L.Assertions, s)
						delete(b.L.SplitPrices, s)
					}
				}
			}
			b.L.Transactions = y
			b.index()
		}},
		{"add a transaction with an own date", func(b *both) {
			b.n++
			m := &mTx{name: fmt.Sprintf("new%d", b.n), day: 5, splits: []*mSplit{{acct: "D", amt: 4, cur: "X", own: 3}, {acct: "A", empty: true}}}
			own := day(3)
			tx := &accounting.Transaction{Time: day(5), Description: m.name, Splits: []*accounting.Split{
				{Account: b.acct("D"), Value: b.value(4, "X"), Time: &own}, {Account: b.acct("A")}}}
			b.m.txs = append(b.m.txs, m)
			b.L.Transactions = append(b.L.Transactions, tx)
			b.index()
		}},
		{"add an exchange", func(b *both) {
			b.n++
			m := &mTx{name: fmt.Sprintf("new%d", b.n), day: 6, splits: []*mSplit{{acct: "B", amt: -4, cur: "X"}, {acct: "A", amt: 8, cur: "Y"}}}
			tx := &accounting.Transaction{Time: day(6), Description: m.name, Splits: []*accounting.Split{
				{Account: b.acct("B"), Value: b.value(-4, "X")}, {Account: b.acct("A"), Value: b.value(8, "Y")}}}
			b.m.txs = append(b.m.txs, m)
			b.L.Transactions = append(b.L.Transactions, tx)
			b.index()
		}},
		{"assertion in posting 0 of t1", func(b *both) {
			b.with("t1", 0, func(tx *accounting.Transaction, s *accounting.Split, m *mTx, ms *mSplit) {
				n := int64(5)
				ms.assert = &n
				b.L.Assertions[s] = b.value(5, "X")
			})
		}},
		{"price of posting 0 of t1", func(b *both) {
			b.with("t1", 0, func(tx *accounting.Transaction, s *accounting.Split, m *mTx, ms *mSplit) {
				if ms.cur != "X" || ms.empty {
					return
				}
				ms.price = ms.amt * 2
				b.L.SplitPrices[s] = b.value(ms.price, "Y")
				for i, x := range m.splits {
					if i == 1 && !x.empty {
						x.cur, x.amt = "Y", -ms.price
						real(tx)[1].Value = b.value(x.amt, "Y")
					}
				}
			})
		}},
		{"D under B", func(b *both) { b.move("D", "B") }},
		{"B:C to the top", func(b *both) { b.move("B:C", "") }},
		{"A under D", func(b *both) { b.move("A", "D") }},
		{"B:C under A", func(b *both) { b.move("B:C", "A") }},
		{"another name for D", func(b *both) {
			a := b.acct("D")
			b.m.accts["D"].name = "a new name"
			a.Name = "a new name"
		}},
		{"a new account in B:C", func(b *both) {
			b.n++
			key := fmt.Sprintf("N%d", b.n)
			b.L.Accounts = append([]*accounting.Account{{Name: key, Parent: b.acct("B:C")}}, b.L.Accounts...)
			b.m.accts[key] = &mAcct{key, "B:C"}
			b.m.order = append([]string{key}, b.m.order...)
		}},
		{"add a price", func(b *both) {
			b.m.prices = append(b.m.prices, &mPrice{5, 3})
			x, y := b.value(1, "X"), b.value(3, "Y")
			b.L.Prices = append(b.L.Prices, &accounting.Price{Time: day(5), Currency: x.Currency, Value: y})
		}},
	}
}

func (b *both) move(key, parent string) {
	a := b.acct(key)
	a.Parent = nil
	if parent != "" {
		a.Parent = b.acct(parent)
	}
	b.m.accts[key].parent = parent
}

func (b *both) date(name string, d int) {
	if m := b.mtx[name]; m != nil {
		m.day = d
		b.txs[name].Time = day(d)
	}
}

func (b *both) own(name string, k, d int) {
	b.with(name, k, func(tx *accounting.Transaction, s *accounting.Split, m *mTx, ms *mSplit) {
		ms.own = d
		if d == 0 {
			s.Time = nil
		} else {
			x := day(d)
			s.Time = &x
		}
	})
}

func (b *both) fill() error {
	b.m.sort()
	err := b.L.Fill()
	b.sync()
	return err
}

// sync: the amounts which were empty are known from now on
func (b *both) sync() {
	for name, m := range b.mtx {
		for k, s := range real(b.txs[name]) {
			ms := m.splits[k]
			if !ms.empty || s.Value.Currency == nil {
				continue
			}
			if s.Value.Currency.Name == "" {
				b.skip = true
				continue
			}
			ms.empty, ms.amt, ms.cur = false, s.Value.Amount/unit, s.Value.Currency.Name
		}
	}
}

func apiBases() []*mLedger {
	one := int64(1)
	bases := []*mLedger{
		{txs: []*mTx{{"t0", 5, []*mSplit{{acct: "A", amt: 1, cur: "X"}, {acct: "B", amt: -1, cur: "X"}}}, {"t1", 5, []*mSplit{{acct: "A", amt: 4, cur: "X"}, {acct: "B:C", amt: -4, cur: "X"}}}}},
		{txs: []*mTx{{"t0", 5, []*mSplit{{acct: "A", amt: 1, cur: "X", own: 6}, {acct: "B", empty: true}}}, {"t1", 6, []*mSplit{{acct: "A", amt: -1, cur: "X", assert: new(int64)}, {acct: "D", empty: true}}}}, prices: []*mPrice{{4, 2}}},
		{txs: []*mTx{{"t0", 5, []*mSplit{{acct: "A", amt: 3, cur: "X"}, {acct: "B", amt: -6, cur: "Y"}}}, {"t1", 6, []*mSplit{{acct: "A", amt: -1, cur: "X", price: -2}, {acct: "D", amt: 2, cur: "Y", own: 4}}}}, prices: []*mPrice{{5, 2}, {7, 4}}},
		{txs: []*mTx{{"t0", 5, []*mSplit{{acct: "A", empty: true, assert: &one}, {acct: "B", empty: true, own: 5}}}, {"t1", 5, []*mSplit{{acct: "B:C", amt: 2, cur: "X"}, {acct: "B:C", amt: -2, cur: "X"}}}}},
		{},
		apiLarge(),
	}
	for _, m := range bases {
		m.order = []string{"A", "B", "B:C", "D"}
		m.accts = map[string]*mAcct{"A": {"A", ""}, "B": {"B", ""}, "B:C": {"C", "B"}, "D": {"D", ""}}
	}
	return bases
}

// apiLarge has enough elements for an unstable order to be seen
func apiLarge() *mLedger {
	m := &mLedger{}
	for i := 0; i < 36; i++ {
		d, name := 4+i/12, fmt.Sprintf("f%d", i)
		switch i {
		case 14:
			name = "t0"
		case 20:
			name = "t1"
		}
		x := &mTx{name, d, []*mSplit{{acct: "A", amt: int64(i + 1), cur: "X"}, {acct: "B", amt: -int64(i + 1), cur: "X"}}}
		switch i % 4 {
		case 1:
			x.splits[1] = &mSplit{acct: "D", amt: -int64(2*i + 1), cur: "Y"}
		case 3:
			x.splits[1].own = 5
			x.splits[0].acct = "B:C"
		}
		m.txs = append(m.txs, x)
		if i%2 == 0 {
			m.prices = append(m.prices, &mPrice{4 + i/12, int64(i + 1)})
		}
	}
	return m
}

func famAPI(n int) Family {
	nops := len(apiOps())
	nb := len(apiBases())
	per := seqCount(nops, n)
	return Family{Name: "changes", Desc: fmt.Sprintf("%d journals x all sequences of up to %d of %d changes through the API, recalculations and clones", nb, n, nops), N: per * int64(nb), Run: func(t *T, i int64) {
		ops := apiOps()
		m := apiBases()[int(i/per)]
		o := t.Journal(m.text())
		if o.L == nil {
			t.Failf("it should have been opened: %s%s", o, t.show())
		}
		// amounts found when opening are there for the API
		b := &both{m: m, L: o.L}
		b.index()
		b.sync()
		names := []string{}
		for _, k := range seqDecode(i%per, nops, n) {
			names = append(names, ops[k].name)
			ops[k].do(b)
			t.Trans(1)
		}
		text := func() string { b.m.sort(); return m.text() }()
		err := b.fill()
		history := "\n--- changes: " + strings.Join(names, ", ") + "\n--- journal before:\n" + t.files["j"]
		for _, tx := range m.txs {
			for _, s := range tx.splits {
				if s.amt < 0 && s.price > 0 {
					t.Skip("a journal cannot say that")
					return
				}
			}
		}
		if b.skip {
			t.Skip("a posting got nothing, in no currency")
			return
		}
		o2 := t.Journal(text)
		t.Sample(strings.Join(names, ", "))
		t.State(text)
		t.Trace()
		if (err == nil) != (o2.L != nil) {
			t.Failf("recalculating after the changes gives %v, and reading a journal with those changes gives %s%s%s", err, o2, t.show(), history)
		}
		if err != nil {
			t.Out("refused")
			return
		}
		t.Out("ok")
		t.Nontrivial()
		opts := dumpOpts{noIDs: true, balanceSet: true}
		x, y := DumpL(b.L, opts), DumpL(o2.L, opts)
		if x != y {
			t.Failf("after recalculating: %s%s%s", diff(y, x), t.show(), history)
		}
		if x, y := export(b.L), export(o2.L); x != y {
			t.Failf("after recalculating it prints other text: %s%s%s", diff(y, x), t.show(), history)
		}
	}}
}

func init() {
	register(&Check{ID: "C12", Rule: "each case is a journal, or a journal and a sequence of changes; non-trivial when it opens",
		Assumptions: []string{"assertions and prices of removed postings are removed with them"},
		Families: func(th bool) []Family {
			n, m, p := 4, 2, 3
			if th {
				n, m, p = 5, 3, 4
			}
			_ = m
			D := []string{"2020-01-05", "2020-01-06"}
			forms := []string{"", "1 X", "-2 Y", "= 1 X", "1 X @ 2 Y"}
			if th {
				forms = []string{"", "1 X", "-2 Y", "= 1 X", "= 3 X", "1 X = 1 X", "1 X @ 2 Y", "-1 X @@ 2 Y", "0 X"}
			}
			fs := []Family{
				famAPI(p),
				famSeq("rich", "chunks of lines using every feature", "", richAlphabet, n, func(t *T, s string) { t.refill(s) }),
				famSeq("nasty", "chunks with amounts without currency name, empty comments, times and tags", "", nastyAlphabet, p, func(t *T, s string) { t.refill(s) }),
				famTxn(txnOpts{name: "two2", desc: "two transactions of two postings", ntx: 2, npost: 2, run: func(t *T, s string) { t.refill(s) },
					accts:  []string{"A", "B"},
					forms:  forms,
					pdates: []string{"", "2020-01-04"}, txdates: D}),
			}
			if th {
				fs = append(fs,
					famTxn(txnOpts{name: "three2", desc: "three transactions of two postings", ntx: 3, npost: 2, run: func(t *T, s string) { t.refill(s) },
						accts: []string{"A", "B"},
						forms: []string{"", "1 X", "-2 Y", "= 1 X", "-1 X @@ 2 Y"}, txdates: D}))
			}
			return fs
		}})
}
