package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cespedes/accounting"
)

// dumpOpts says what is left out of a dump.
type dumpOpts struct {
	noIDs      bool // positions
	priceSet   bool // prices as a set (no order, no repetitions)
	balanceSet bool // balances without order
	seconds    bool // times only to the second
}

type dumper struct {
	L    *accounting.Ledger
	o    dumpOpts
	acc  map[*accounting.Account]int
	cur  map[*accounting.Currency]int
	txn  map[*accounting.Transaction]int
	spl  map[*accounting.Split]int
	curs []*accounting.Currency
}

func (d *dumper) account(a *accounting.Account) string {
	if a == nil {
		return "-"
	}
	if n, ok := d.acc[a]; ok {
		return fmt.Sprintf("a%d", n)
	}
	d.acc[a] = len(d.acc)
	return fmt.Sprintf("a%d(NOT LISTED %q)", d.acc[a], a.Name)
}

func (d *dumper) currency(c *accounting.Currency) string {
	if c == nil {
		return "-"
	}
	n, ok := d.cur[c]
	if !ok {
		n = len(d.cur)
		d.cur[c] = n
		d.curs = append(d.curs, c)
	}
	return fmt.Sprintf("c%d", n)
}

func (d *dumper) value(v accounting.Value) string {
	return fmt.Sprintf("%d%s", v.Amount, d.currency(v.Currency))
}

func (d *dumper) balance(b accounting.Balance) string {
	var s []string
	for _, v := range b {
		s = append(s, d.value(v))
	}
	if d.o.balanceSet {
		sort.Strings(s)
	}
	return "[" + strings.Join(s, " ") + "]"
}

func (d *dumper) id(id accounting.ID) string {
	if d.o.noIDs {
		return ""
	}
	return " id=" + idStr(id)
}

// DumpL writes a whole ledger, with the links between its parts as numbers.
func DumpL(L *accounting.Ledger, o dumpOpts) string {
	d := &dumper{L: L, o: o, acc: map[*accounting.Account]int{}, cur: map[*accounting.Currency]int{}, txn: map[*accounting.Transaction]int{}, spl: map[*accounting.Split]int{}}
	for i, a := range L.Accounts {
		d.acc[a] = i
	}
	for _, c := range L.Currencies {
		d.currency(c)
	}
	for i, t := range L.Transactions {
		d.txn[t] = i
		for _, s := range t.Splits {
			d.spl[s] = len(d.spl)
		}
	}
	comments := map[interface{}]bool{}
	com := func(k interface{}) string {
		comments[k] = true
		if len(L.Comments[k]) == 0 {
			return ""
		}
		return fmt.Sprintf(" comments=%q", L.Comments[k])
	}
	var b strings.Builder
	for i, a := range L.Accounts {
		fmt.Fprintf(&b, "account a%d %q code=%q parent=%s level=%d children=", i, a.Name, a.Code, d.account(a.Parent), a.Level)
		for _, x := range a.Children {
			b.WriteString(d.account(x) + " ")
		}
		if !isTransfer(a) {
			b.WriteString(d.id(a.ID))
		}
		fmt.Fprintf(&b, " start=%s%s splits=", d.balance(a.StartBalance), com(a))
		for _, s := range a.Splits {
			if n, ok := d.spl[s]; ok {
				fmt.Fprintf(&b, "s%d ", n)
			} else {
				b.WriteString("s? ")
			}
		}
		b.WriteString("\n")
	}
	for i, t := range L.Transactions {
		fmt.Fprintf(&b, "txn t%d %s %q%s%s\n", i, d.time(t.Time), t.Description, d.id(t.ID), com(t))
		for _, s := range t.Splits {
			tx := "t?"
			if n, ok := d.txn[s.Transaction]; ok {
				tx = fmt.Sprintf("t%d", n)
			}
			at := "nil"
			if s.Time != nil {
				at = d.time(*s.Time)
				if s.Time == &t.Time {
					at = "same"
				} else if d.o.seconds && s.Time.Equal(t.Time) {
					at = "same"
				}
			}
			fmt.Fprintf(&b, "   s%d %s %s at=%s value=%s balance=%s", d.spl[s], d.account(s.Account), tx, at, d.value(s.Value), d.balance(s.Balance))
			if !isTransfer(s.Account) {
				b.WriteString(d.id(s.ID))
			}
			if v, ok := L.SplitPrices[s]; ok {
				b.WriteString(" price=" + d.value(v))
			}
			if v, ok := L.Assertions[s]; ok {
				b.WriteString(" assert=" + d.value(v))
			}
			b.WriteString(com(s) + "\n")
		}
	}
	n1, n2 := 0, 0
	for s := range L.SplitPrices {
		if _, ok := d.spl[s]; !ok {
			n1++
		}
	}
	for s := range L.Assertions {
		if _, ok := d.spl[s]; !ok {
			n2++
		}
	}
	if n1+n2 > 0 {
		fmt.Fprintf(&b, "ORPHANS: %d prices, %d assertions\n", n1, n2)
	}
	var ps []string
	for _, p := range L.Prices {
		c := com(p)
		if o.priceSet && len(L.Comments[p]) == 1 && L.Comments[p][0] == "automatic" {
			if curName(p.Currency) == "" { // it cannot be written
				continue
			}
			c = " comments=automatic"
		}
		id := ""
		if !o.priceSet {
			id = d.id(p.ID)
		}
		ps = append(ps, fmt.Sprintf("price %s %s = %s%s%s", d.time(p.Time), d.currency(p.Currency), d.value(p.Value), id, c))
	}
	if o.priceSet {
		sort.Strings(ps)
		for i, p := range ps {
			if i > 0 && p == ps[i-1] {
				continue
			}
			b.WriteString(p + "\n")
		}
	} else {
		for _, p := range ps {
			b.WriteString(p + "\n")
		}
	}
	fmt.Fprintf(&b, "default %s\n", d.currency(L.DefaultCurrency))
	for i := 0; i < len(d.curs); i++ {
		c := d.curs[i]
		listed := i < len(L.Currencies) && L.Currencies[i] == c
		none := !listed && c != L.DefaultCurrency && c.Name == "" && o.seconds
		if none { // placeholder of the empty amounts
			fmt.Fprintf(&b, "currency c%d without name\n", i)
			continue
		}
		cc := *c
		if d.o.seconds && cc.Decimal == "" { // it is the same, see types.go
			cc.Decimal = "."
		}
		fmt.Fprintf(&b, "currency c%d listed=%v %s%s%s\n", i, listed, fmtCur(&cc), d.id(c.ID), com(c))
	}
	var other []string
	for k, v := range L.Comments {
		if !comments[k] && len(v) > 0 {
			other = append(other, fmt.Sprintf("%T %q", k, v))
		}
	}
	sort.Strings(other)
	for _, s := range other {
		b.WriteString("comment of something else: " + s + "\n")
	}
	return b.String()
}

func (d *dumper) time(t interface {
	UnixNano() int64
	Unix() int64
}) string {
	if d.o.seconds {
		return fmt.Sprint(t.Unix())
	}
	return fmt.Sprintf("%d.%d", t.Unix(), t.UnixNano()%1000000000)
}

// diff shows the first line in which two dumps are different.
func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "<nothing>", "<nothing>"
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("line %d:\n  %s\n  %s", i+1, p, q)
		}
	}
	return "no difference"
}
