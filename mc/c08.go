package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/cespedes/accounting"
)

// C08: clones.

type memRange struct {
	from, to uintptr
	what     string
}

var (
	ledgerType = reflect.TypeOf(accounting.Ledger{})
	timeType   = reflect.TypeOf(time.Time{})
	idType     = reflect.TypeOf((*accounting.ID)(nil)).Elem()
)

// memory lists all the memory which can be modified through the exported fields of a ledger.
func memory(L *accounting.Ledger) []memRange {
	var res []memRange
	seen := map[uintptr]map[reflect.Type]bool{}
	visit := func(p uintptr, ty reflect.Type) bool {
		if seen[p] == nil {
			seen[p] = map[reflect.Type]bool{}
		}
		if seen[p][ty] {
			return false
		}
		seen[p][ty] = true
		return true
	}
	var walk func(v reflect.Value, what string)
	walk = func(v reflect.Value, what string) {
		if v.Type() == idType { // identifiers cannot be modified
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || !visit(v.Pointer(), v.Type()) {
				return
			}
			if sz := v.Elem().Type().Size(); sz > 0 {
				res = append(res, memRange{v.Pointer(), v.Pointer() + sz, what})
			}
			walk(v.Elem(), strings.TrimPrefix(v.Type().String(), "*accounting."))
		case reflect.Struct:
			if v.Type() == timeType {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if f.PkgPath != "" { // not exported
					continue
				}
				walk(v.Field(i), what+"."+f.Name)
			}
		case reflect.Slice:
			if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
				full := v.Slice3(0, v.Cap(), v.Cap())
				res = append(res, memRange{full.Pointer(), full.Pointer() + uintptr(v.Cap())*v.Type().Elem().Size(), what})
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), what+"[]")
			}
		case reflect.Map:
			if v.IsNil() || !visit(v.Pointer(), v.Type()) {
				return
			}
			res = append(res, memRange{v.Pointer(), v.Pointer() + 1, what})
			for _, k := range v.MapKeys() {
				kk := k
				if kk.Kind() == reflect.Interface {
					kk = kk.Elem()
				}
				walk(kk, what+" key")
				walk(v.MapIndex(k), what+" value")
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), what)
			}
		}
	}
	res = append(res, memRange{uintptr(unsafe.Pointer(L)), uintptr(unsafe.Pointer(L)) + ledgerType.Size(), "Ledger"})
	walk(reflect.ValueOf(L).Elem(), "Ledger")
	return res
}

// shared returns a description of some memory which is in both ledgers, or "".
func shared(a, b *accounting.Ledger) string {
	x, y := memory(a), memory(b)
	sort.Slice(y, func(i, j int) bool { return y[i].from < y[j].from })
	for _, r := range x {
		i := sort.Search(len(y), func(i int) bool { return y[i].to > r.from })
		// ranges of y can contain each other: look also a bit before
		for j := i - 8; j < len(y) && (j < 0 || y[j].from < r.to); j++ {
			if j >= 0 && y[j].from < r.to && r.from < y[j].to {
				return fmt.Sprintf("%s is also %s in the copy", r.what, y[j].what)
			}
		}
	}
	return ""
}

var full = dumpOpts{}

// checkClone: everything about a ledger and its clones. The ledger is not modified.
func (t *T) checkClone(L *accounting.Ledger, where string) *accounting.Ledger {
	d0 := DumpL(L, full)
	e0 := export(L)
	C := L.Clone()
	t.Trans(1)
	if C == nil || C == L {
		t.Failf("%s: Clone returned no other ledger%s", where, t.show())
	}
	if d := DumpL(C, full); d != d0 {
		t.Failf("%s: the copy is different: %s%s", where, diff(d0, d), t.show())
	}
	if d := DumpL(L, full); d != d0 {
		t.Failf("%s: cloning modified the ledger: %s%s", where, diff(d0, d), t.show())
	}
	if s := shared(L, C); s != "" {
		t.Failf("%s: the copy is not independent: %s%s", where, s, t.show())
	}
	if e := export(C); e != e0 {
		t.Failf("%s: the copy prints other text: %s%s", where, diff(e0, e), t.show())
	}
	return C
}

// scramble modifies every kind of data of a ledger.
func scramble(L *accounting.Ledger) {
	x := &accounting.Currency{Name: "ZZZ", Precision: 7}
	when := time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC)
	if L.Assertions == nil {
		L.Assertions = map[*accounting.Split]accounting.Value{}
	}
	if L.SplitPrices == nil {
		L.SplitPrices = map[*accounting.Split]accounting.Value{}
	}
	for k, c := range L.Comments {
		for i := range c {
			c[i] += "!"
		}
		L.Comments[k] = append(c, "more")
	}
	L.Comments[L] = []string{"mine"}
	for _, c := range L.Currencies {
		c.Name += "!"
		c.Precision = (c.Precision + 1) % 9
		c.ISIN += "!"
		c.Thousand, c.Decimal = "#", "$"
		c.PrintBefore, c.WithoutSpace = !c.PrintBefore, !c.WithoutSpace
	}
	if L.DefaultCurrency != nil {
		L.DefaultCurrency.Name += "?"
		L.DefaultCurrency = x
	}
	L.GetCurrency("another")
	for _, a := range L.Accounts {
		a.Name += "!"
		a.Code += "!"
		a.Level += 5
		for i := range a.StartBalance {
			a.StartBalance[i].Amount++
			a.StartBalance[i].Currency = x
		}
		a.StartBalance = append(a.StartBalance, accounting.Value{Amount: 7, Currency: x})
		for i := range a.Children {
			a.Children[i] = a
		}
		a.Children = append(a.Children, a)
	}
	for _, p := range L.Prices {
		p.Time = when
		p.Value.Amount += 3
		p.Value.Currency, p.Currency = x, x
	}
	for _, tx := range L.Transactions {
		tx.Description += "!"
		tx.Time = tx.Time.Add(-time.Hour)
		for _, s := range tx.Splits {
			if s.Value.Currency != nil && s.Value.Currency.Name == "" {
				s.Value.Currency.Name = "none"
			}
			s.Value.Amount += 5
			s.Value.Currency = x
			for i := range s.Balance {
				s.Balance[i].Amount++
				s.Balance[i].Currency = x
			}
			s.Balance.Add(accounting.Value{Amount: 9, Currency: x})
			if s.Time != nil {
				*s.Time = s.Time.Add(time.Minute)
			}
			if v, ok := L.Assertions[s]; ok {
				v.Amount++
				L.Assertions[s] = v
			} else {
				L.Assertions[s] = accounting.Value{Amount: 1, Currency: x}
			}
			if v, ok := L.SplitPrices[s]; ok {
				v.Amount++
				L.SplitPrices[s] = v
			} else {
				L.SplitPrices[s] = accounting.Value{Amount: 1, Currency: x}
			}
		}
	}
	for _, a := range L.Accounts {
		for i := range a.Splits {
			a.Splits[i] = a.Splits[0]
		}
		a.Splits = append(a.Splits, new(accounting.Split))
		a.Parent = nil
	}
	for i := range L.Transactions {
		sp := L.Transactions[i].Splits
		for j := range sp {
			sp[j] = sp[0]
		}
		L.Transactions[i] = L.Transactions[0]
	}
	for i := range L.Accounts {
		L.Accounts[i] = L.Accounts[0]
	}
	for i := range L.Prices {
		L.Prices[i] = L.Prices[0]
	}
	for i := range L.Currencies {
		L.Currencies[i] = x
	}
}

// addOwn adds a transaction with an own-dated posting to a ledger.
func addOwn(L *accounting.Ledger, amount int64) {
	c, _ := L.GetCurrency("added")
	a := &accounting.Account{Name: "Added"}
	b := &accounting.Account{Name: "Added2"}
	L.Accounts = append([]*accounting.Account{a, b}, L.Accounts...)
	own := time.Date(2030, 2, 1, 12, 0, 0, 0, time.UTC)
	tx := &accounting.Transaction{Time: time.Date(2030, 1, 1, 12, 0, 0, 0, time.UTC), Description: "added"}
	tx.Splits = []*accounting.Split{
		{Account: a, Time: &own, Value: accounting.Value{Amount: amount, Currency: c}},
		{Account: b, Value: accounting.Value{Amount: -amount, Currency: c}},
	}
	L.Transactions = append(L.Transactions, tx)
}

// operations which the owner of one of the copies may do
var cloneOps = []struct {
	name string
	do   func(L *accounting.Ledger) error
}{
	{"Fill", func(L *accounting.Ledger) error { return L.Fill() }},
	{"add a transaction and Fill", func(L *accounting.Ledger) error { addOwn(L, 5*unit); return L.Fill() }},
	{"remove the transactions and Fill", func(L *accounting.Ledger) error { L.Transactions = nil; return L.Fill() }},
	{"modify everything", func(L *accounting.Ledger) error { scramble(L); return nil }},
	{"sort accounts in place", func(L *accounting.Ledger) error { accounting.SortAccounts(L.Accounts); return nil }},
	{"clone and modify the clone", func(L *accounting.Ledger) error { c := L.Clone(); c.Fill(); scramble(c); return nil }},
	{"unbalance and Fill", func(L *accounting.Ledger) error {
		for _, tx := range L.Transactions {
			for _, s := range tx.Splits {
				s.Value.Amount += 12345
				L.Fill()
				return nil
			}
		}
		return nil
	}},
}

// changes made through the API before cloning
var preClone = []struct {
	name string
	do   func(L *accounting.Ledger)
}{
	{"start balance", func(L *accounting.Ledger) {
		for i, a := range L.Accounts {
			a.StartBalance = accounting.Balance{{Amount: int64(i+1) * unit, Currency: &accounting.Currency{Name: "start"}}}
			if len(L.Currencies) > 0 {
				a.StartBalance = append(a.StartBalance, accounting.Value{Amount: 3, Currency: L.Currencies[0]})
			}
		}
	}},
	{"comments", func(L *accounting.Ledger) {
		for _, a := range L.Accounts {
			L.Comments[a] = append(L.Comments[a], "x", "y")
		}
		for _, p := range L.Prices {
			L.Comments[p] = append(L.Comments[p], "p")
		}
		for _, c := range L.Currencies {
			L.Comments[c] = append(L.Comments[c], "c")
		}
		for _, tx := range L.Transactions {
			L.Comments[tx] = append(L.Comments[tx], "t")
			for _, s := range tx.Splits {
				if !isTransfer(s.Account) { // those are made again by Fill
					L.Comments[s] = append(L.Comments[s], "s")
				}
			}
		}
		L.Comments["something else"] = []string{"kept"}
	}},
	{"default currency not listed", func(L *accounting.Ledger) {
		L.DefaultCurrency = &accounting.Currency{Name: "D", Precision: 3, ISIN: "I"}
		L.Comments[L.DefaultCurrency] = []string{"of the default one"}
	}},
	{"values in currencies which are not listed", func(L *accounting.Ledger) {
		for _, tx := range L.Transactions {
			for _, s := range tx.Splits {
				if isTransfer(s.Account) {
					continue
				}
				L.Assertions[s] = accounting.Value{Amount: 1, Currency: &accounting.Currency{Name: "A"}}
				L.SplitPrices[s] = accounting.Value{Amount: 2, Currency: &accounting.Currency{Name: "P"}}
			}
		}
		L.Prices = append(L.Prices, &accounting.Price{Currency: &accounting.Currency{Name: "C"}, Value: accounting.Value{Amount: 3, Currency: &accounting.Currency{Name: "V", Thousand: "."}}})
	}},
	{"own times, codes and formats", func(L *accounting.Ledger) {
		for i, tx := range L.Transactions {
			for j, s := range tx.Splits {
				x := tx.Time.Add(time.Duration(i*10+j) * time.Second)
				s.Time = &x
			}
		}
		for _, a := range L.Accounts {
			a.Code = "code of " + a.Name
		}
		for i, c := range L.Currencies {
			c.ISIN, c.Thousand, c.Decimal, c.Precision = "isin", "'", ";", i+3
			c.PrintBefore, c.WithoutSpace = !c.PrintBefore, !c.WithoutSpace
		}
	}},
	{"added and filled", func(L *accounting.Ledger) { addOwn(L, 7*unit); L.Fill() }},
	{"two currencies with the same name", func(L *accounting.Ledger) {
		L.Currencies = append(L.Currencies, &accounting.Currency{Name: "same"}, &accounting.Currency{Name: "same", Precision: 2})
	}},
	{"no tables", func(L *accounting.Ledger) { L.Assertions, L.SplitPrices = nil, nil }},
}

// independent: what is done to one of the copies is not seen in the other
func (t *T) independent(open func() *accounting.Ledger) {
	for _, op := range cloneOps {
		for side := 0; side < 3; side++ {
			L := open()
			C := L.Clone()
			d0 := DumpL(L, full)
			a, b := L, C
			switch side {
			case 1:
				a, b = C, L
			case 2:
				a, b = C.Clone(), C
			}
			err := op.do(a)
			t.Trans(1)
			if d := DumpL(b, full); d != d0 {
				t.Failf("%q in one ledger is seen in another (case %d): %s%s", op.name, side, diff(d0, d), t.show())
			}
			if side == 2 {
				if d := DumpL(L, full); d != d0 {
					t.Failf("%q in a copy of a copy is seen in the first ledger: %s%s", op.name, diff(d0, d), t.show())
				}
			}
			// the other one goes on working as if nothing had happened
			b2 := open()
			if err2 := op.do(b); fmt.Sprint(err) != fmt.Sprint(err2) {
				t.Failf("%q gives %v in a copy and %v in the other%s", op.name, err, err2, t.show())
			}
			op.do(b2)
			if op.name != "modify everything" { // depends on the order of maps
				if x, y := DumpL(b, full), DumpL(b2, full); x != y {
					t.Failf("%q in a copy is not like in a ledger just opened: %s%s", op.name, diff(y, x), t.show())
				}
			}
			t.Tick()
		}
	}
}

func (t *T) cloneJournal(text string, deep bool) {
	o := t.Journal(text)
	t.Sample(text)
	t.Out(o.Outcome())
	if o.L == nil {
		return
	}
	t.Nontrivial()
	t.Trace()
	t.State(DumpL(o.L, full))
	C := t.checkClone(o.L, "just opened")
	C2 := t.checkClone(C, "a copy")
	if s := shared(o.L, C2); s != "" {
		t.Failf("a copy of a copy is not independent: %s%s", s, t.show())
	}
	if deep {
		t.independent(func() *accounting.Ledger { return t.OpenSource(t.Path("j")).L })
	}
}

func init() {
	register(&Check{ID: "C08", Rule: "each case is a journal; non-trivial when it opens: then it is cloned, the graphs are compared object by object, the memory reachable from both is proved disjoint, and operations on either are checked not to be seen in the other",
		Assumptions: []string{"identifiers (ID) are immutable and can be shared", "the connection is shared"},
		Families: func(th bool) []Family {
			n, m, p := 4, 2, 2
			if th {
				n, m, p = 5, 3, 3
			}
			var bases = [][]int{{0, 10, 12, 15}, {2, 6, 16, 18}, {14, 17}, {1, 3, 11, 8}, {}, {7, 9, 13}}
			k := 1 << uint(len(preClone))
			return []Family{
				famSeq("rich", "chunks of lines using every feature", "", richAlphabet, n, func(t *T, s string) { t.cloneJournal(s, false) }),
				famSeq("nasty", "chunks with amounts without currency name, empty comments, times and tags", "", nastyAlphabet, p, func(t *T, s string) { t.cloneJournal(s, true) }),
				famSeq("ops", "operations on every copy, journals of chunks of lines using every feature", "", richAlphabet, m, func(t *T, s string) { t.cloneJournal(s, true) }),
				{Name: "modified", Desc: fmt.Sprintf("all the subsets of %d changes made through the API before cloning, on %d journals", len(preClone), len(bases)), N: int64(k * len(bases)), Run: func(t *T, i int64) {
					var b strings.Builder
					for _, c := range bases[int(i)/k] {
						b.WriteString(richAlphabet[c] + "\n")
					}
					t.Sample(b.String())
					open := func() *accounting.Ledger {
						o := t.Journal(b.String())
						if o.L == nil {
							t.Failf("this journal should be read: %s%s", o, t.show())
						}
						for j := range preClone {
							if int(i)%k>>uint(j)&1 == 1 {
								preClone[j].do(o.L)
							}
						}
						return o.L
					}
					t.Nontrivial()
					t.Trace()
					t.Out("modified")
					L := open()
					t.State(DumpL(L, full))
					C := t.checkClone(L, "modified")
					t.checkClone(C, "modified, a copy")
					t.independent(open)
				}},
			}
		}})
}
