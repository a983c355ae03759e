package main

import (
	"fmt"
	"strings"
)

var amountsAssumption = []string{"journals with sums too big for an amount may be refused; those which open have to be exact", "the reference reader and evaluator (mc/ref*.go) state the documented rules"}

// long journals: sorting algorithms change with the length
func famLong(name string, facets Facet, sizes []int, bits int) Family {
	type cs struct{ size, mask int }
	per := 1 << uint(bits)
	return Family{Name: name, Desc: fmt.Sprintf("%v transactions, two accounts; the %d bits of the case say which postings have an earlier date, repeated", sizes, bits), N: int64(len(sizes) * per), Run: func(t *T, i int64) {
		size := sizes[int(i)/per]
		mask := int(i) % per
		var b strings.Builder
		for k := 0; k < size; k++ {
			fmt.Fprintf(&b, "2020-01-0%d t%d\n  A  %d X", 4+k*2/size, k, k+1)
			if mask>>(uint(k)%uint(bits))&1 == 1 {
				b.WriteString(" ; date:2020-01-03")
			}
			b.WriteString("\n  B\n")
		}
		t.checkJournal(b.String(), facets)
	}}
}

func txnFamilies(facets Facet, thorough bool) []Family {
	D := []string{"2020-01-05", "2020-01-06"}
	fs := []Family{
		famTxn(txnOpts{name: "one2", desc: "one transaction, two postings, all forms of amount", ntx: 1, npost: 2, facets: facets,
			accts:  []string{"A", "B", "A:C"},
			forms:  []string{"", "1 X", "-1 X", "2 X", "0 X", "0.00000001 X", "1 Y", "-2 Y", "5", "-5", "1 X @ 2 Y", "-1 X @ 2 Y", "1 X @@ 2 Y", "-1 X @@ 2 Y", "-1 X @@ -2 Y", "-1 X @ -2 Y", "2 X @ -1 Y", "2 X @ 2 X", "2 X @@ 3 X", "0 X @ 3 Y", "0 X @@ 3 Y", "1 X @@ 0 Y", "= 1 X", "= 0 X", "= -2 Y", "1 X = 1 X", "1 X = 2 X", "1 X @ 2 Y = 1 X", "-1 X = 0 X", "0 X = 0 X", "0.3333 X @ 0.333333 Y", "-0.3333 X @ 0.333333 Y", "0.11109988 Y", "3 X @@ 1 Y"},
			pdates: []string{"", "2020-01-04", "2020-01-06"}}),
		famTxn(txnOpts{name: "one3", desc: "one transaction, three postings", ntx: 1, npost: 3, facets: facets,
			accts:  []string{"A", "B"},
			forms:  []string{"", "1 X", "-1 X", "-2 X", "1 Y", "-1 Y", "1 Z", "0 X", "1 X @ 2 Y", "-1 X @@ 2 Y", "= 1 X", "= 0 Y", "2 X = 2 X"},
			pdates: []string{"", "2020-01-04"}}),
		famTxn(txnOpts{name: "one4", desc: "one transaction, four postings", ntx: 1, npost: 4, facets: facets,
			accts: []string{"A"},
			forms: []string{"", "1 X", "-1 X", "-2 X", "1 Y", "-1 Y", "1 Z", "-1 Z", "1 Y @ 1 X", "-1 X @@ 1 Z", "1 X @ 2 X", "= 1 X"}}),
		famTxn(txnOpts{name: "one5", desc: "one transaction, five postings", ntx: 1, npost: 5, facets: facets,
			accts: []string{"A"},
			forms: []string{"", "1 X", "-1 X", "1 Y", "-1 Y", "1 Z", "-2 Z"}}),
		famTxn(txnOpts{name: "two2", desc: "two transactions of two postings, with assertions and own dates", ntx: 2, npost: 2, facets: facets,
			accts:  []string{"A", "B"},
			forms:  []string{"", "1 X", "-1 Y", "= 1 X", "= 0 X", "1 X = 2 X"},
			pdates: []string{"", "2020-01-04"}, txdates: D}),
		famTxn(txnOpts{name: "three2", desc: "three transactions of two postings", ntx: 3, npost: 2, facets: facets,
			accts: []string{"A", "B"},
			forms: []string{"", "1 X", "= 1 X", "-2 Y"}, txdates: []string{"2020-01-05"}}),
		famTxn(txnOpts{name: "hours", desc: "two transactions of two postings, at several hours of one day or two", ntx: 2, npost: 2, facets: facets,
			accts:   []string{"A", "B"},
			forms:   []string{"", "1 X", "-2 X", "= 1 X"},
			pdates:  []string{"", "2020-01-05/09:00", "2020-01-05/10:00:01"},
			txdates: []string{"2020-01-05/10:00", "2020-01-05/11:00"}}),
		famTxn(txnOpts{name: "fine", desc: "two transactions of two postings, with more digits than those of the currency", ntx: 2, npost: 2, facets: facets,
			accts: []string{"A", "B"}, head: "commodity 1.0 X\ncommodity 1,000.00 Y\n",
			forms: []string{"", "1 X", "1.00000001 X", "-1.04 X", "= 1 X", "= 1.04 X", "= -0.00000001 X", "0.004 Y", "-12345.67800009 Y", "= 0 Y", "1 X = 1.01 X"}, txdates: []string{"2020-01-05"}}),
		famPrintPrices(func(t *T, s string) { t.checkJournal(s, facets) }),
		famHuge("huge", facets, thorough),
		famTxn(txnOpts{name: "huge2", desc: "two transactions of two postings, with the greatest amounts", ntx: 2, npost: 2, facets: facets,
			accts: []string{"A", "B"}, pdates: []string{"", "2020-01-04"},
			forms: []string{"", "92233720368.54775807 X", "-92233720368.54775807 X", "-0.00000001 X", "= 92233720368.54775807 X"}, txdates: []string{"2020-01-05"}}),
		famLong("long", facets, []int{12, 13, 14, 17, 26, 40}, 7),
		famCurrencies("currencies", facets, thorough),
		famWide("wide", facets, thorough),
		famChains("chains", facets, thorough),
	}
	if thorough {
		fs = append(fs,
			famTxn(txnOpts{name: "two2+", desc: "two transactions of two postings, more forms and dates", ntx: 2, npost: 2, facets: facets,
				accts:  []string{"A", "B"},
				forms:  []string{"", "1 X", "-1 X", "-2 Y", "= 1 X", "= -1 Y", "= 0 X", "1 X = 1 X", "1 X @ 2 Y", "-1 X @@ 2 Y"},
				pdates: []string{"", "2020-01-04", "2020-01-06"}, txdates: D}),
			famTxn(txnOpts{name: "two3", desc: "two transactions of three postings", ntx: 2, npost: 3, facets: facets,
				accts: []string{"A", "B"},
				forms: []string{"", "1 X", "-1 X", "1 Y", "= 1 X", "1 X = 1 X", "-1 X @ 1 Y"}, txdates: D}),
			famTxn(txnOpts{name: "three2+", desc: "three transactions of two postings, own dates", ntx: 3, npost: 2, facets: facets,
				accts: []string{"A", "B"}, pdates: []string{"", "2020-01-04"},
				forms: []string{"", "1 X", "= 1 X"}, txdates: D}),
			famTxn(txnOpts{name: "four2", desc: "four transactions of two postings", ntx: 4, npost: 2, facets: facets,
				accts: []string{"A", "B"},
				forms: []string{"", "1 X", "= 1 X"}, txdates: []string{"2020-01-05"}}),
			famTxn(txnOpts{name: "one5+", desc: "one transaction, five postings", ntx: 1, npost: 5, facets: facets,
				accts: []string{"A"},
				forms: []string{"", "1 X", "-1 X", "-2 X", "1 Y", "-1 Y", "1 Z", "-1 Z", "1 Y @ 1 X", "-1 X @@ 1 Z", "= 1 X"}}),
			famLong("long+", facets, []int{13, 15, 20, 30, 50}, 13),
		)
	}
	return fs
}

// famHuge: one transaction whose postings, each in its account, may add up to more than what fits in an amount, or to 2^64
func famHuge(name string, facets Facet, thorough bool) Family {
	forms := []string{"", "92233720368.54775807 X", "-92233720368.54775807 X", "46116860184.27387904 X", "-46116860184.27387904 X", "0.00000001 X", "0.00000002 X", "-0.00000001 X", "-32768 Y @ 2814749.76710656 X"}
	n := 4
	if thorough {
		n = 6
	}
	return Family{Name: name, Desc: fmt.Sprintf("all transactions of up to %d postings in different accounts, with amounts in %q", n, forms), N: seqCount(len(forms), n), Run: func(t *T, i int64) {
		var b strings.Builder
		b.WriteString("2020-01-05 t\n")
		for k, s := range seqDecode(i, len(forms), n) {
			fmt.Fprintf(&b, "  A%c  %s\n", 'a'+k, forms[s])
		}
		t.checkJournal(b.String(), facets)
	}}
}

// famWide: one transaction of many postings
func famWide(name string, facets Facet, thorough bool) Family {
	max := 24
	if thorough {
		max = 48
	}
	styles := []string{"all in the same account", "each in an account", "in three accounts, with dates of their own", "in two currencies, with prices", "in an account with assertions"}
	// cases: style, number of postings, which one has no amount (or none), and which one is wrong (or none)
	var per int64
	for k := 2; k <= max; k++ {
		per += int64(k+1) * int64(k+1)
	}
	return Family{Name: name, Desc: fmt.Sprintf("one transaction of 2 to %d postings, %q, with any of them or none without amount, and any of them or none one hundredth wrong", max, styles), N: per * int64(len(styles)), Run: func(t *T, i int64) {
		d := &Dec{i}
		style := d.Pick(len(styles))
		i, k := d.i, 2
		for ; i >= int64(k+1)*int64(k+1); k++ {
			i -= int64(k+1) * int64(k+1)
		}
		empty, wrong := int(i)%(k+1)-1, int(i)/(k+1)-1
		var b strings.Builder
		b.WriteString("2020-01-05 t\n")
		total, held := 0, 0
		for j := 0; j < k; j++ {
			n := (j*j + 7*j + 1) * (1 - j%2*2)
			if j == k-1 {
				n = -total
			}
			total += n
			if j == wrong {
				n++
			}
			held += n
			acct, own, amt := "A", "", fmt.Sprintf("%d.%02d X", n/100, abs(int64(n))%100)
			if n < 0 && n > -100 {
				amt = "-" + amt
			}
			switch {
			case style == 1:
				acct = fmt.Sprintf("A%d", j)
			case style == 2:
				acct = []string{"A", "B", "A:C"}[j%3]
				own = []string{"", " ; date:2020-01-04", " ; date:2020-01-06/10:00"}[j*j%7%3]
			case style == 3 && j%5 == 2:
				amt = fmt.Sprintf("%d.00 Y @@ %s", 7*(1-j%2*2), amt)
			case style == 4 && empty < 0:
				amt += fmt.Sprintf(" = %.2f X", float64(held)/100)
			case style == 4 && j == k-1:
				acct = "B"
			}
			if j == empty {
				amt = ""
			}
			b.WriteString("  " + acct + "  " + amt + own + "\n")
		}
		t.checkJournal(b.String(), facets)
	}}
}

// famChains: transactions whose amounts depend on one another, through assertions
func famChains(name string, facets Facet, thorough bool) Family {
	max := 30
	if thorough {
		max = 100
	}
	ways := []string{"on the one before", "on the one after", "on the one after, the last one on the first one", "on the one before or after, alternately"}
	var per int64
	for n := 1; n <= max; n++ {
		per += int64(n + 1)
	}
	return Family{Name: name, Desc: fmt.Sprintf("1 to %d transactions, each one depending %q, with a wrong assertion in any of them or in none", max, ways), N: per * int64(len(ways)), Run: func(t *T, i int64) {
		d := &Dec{i}
		way := d.Pick(len(ways))
		i, n := d.i, 1
		for ; i >= int64(n+1); n++ {
			i -= int64(n + 1)
		}
		wrong := int(i) - 1
		var b strings.Builder
		for k := 0; k < n; k++ {
			fmt.Fprintf(&b, "2020-01-05 t%d\n  C%d  = %d X\n", k, k, 3*k%7+1)
			switch {
			case way == 0 && k < n-1, way == 3 && k%2 == 0 && k < n-1:
				fmt.Fprintf(&b, "  C%d\n", k+1)
			case (way == 1 || way == 2) && k > 0, way == 3 && k%2 == 1:
				fmt.Fprintf(&b, "  C%d  ; date:2020-01-04\n", k-1)
			case way == 2:
				fmt.Fprintf(&b, "  C%d  ; date:2020-01-04\n", n-1)
			default:
				b.WriteString("  B\n")
			}
			if k == wrong {
				fmt.Fprintf(&b, "2020-01-05 w%d\n  C%d  1 X = %d X ; date:2020-01-06\n  D\n", k, k, 3*k%7+3)
			} else if wrong >= 0 {
				fmt.Fprintf(&b, "2020-01-05 w%d\n  C%d  1 X = %d X ; date:2020-01-06\n  D\n", k, k, 3*k%7+2)
			}
		}
		t.checkJournal(b.String(), facets)
	}}
}

// famCurrencies: one account which gets and loses up to four currencies, in all orders
func famCurrencies(name string, facets Facet, thorough bool) Family {
	steps := []string{"1 X", "-1 X", "1 Y", "-1 Y", "1 Z", "-1 Z", "2 W"}
	n := 5
	if thorough {
		n = 7
	}
	return Family{Name: name, Desc: fmt.Sprintf("all sequences of up to %d movements of one account in four currencies", n), N: seqCount(len(steps), n), Run: func(t *T, i int64) {
		var b strings.Builder
		for k, s := range seqDecode(i, len(steps), n) {
			fmt.Fprintf(&b, "2020-01-%02d t\n  A  %s\n  B\n", 5+k, steps[s])
		}
		t.checkJournal(b.String(), facets)
	}}
}

func init() {
	register(&Check{ID: "C01", Rule: "each case is a journal made from the case number; non-trivial when it opens and its postings are compared one by one with the reference",
		Assumptions: amountsAssumption,
		Families: func(th bool) []Family {
			return txnFamilies(FOutcome|FErrPos|FTxns|FAmounts, th)
		}})
	register(&Check{ID: "C02", Rule: "as C01, comparing the postings of each account, the running balances and the balance at every instant in the ledger, one nanosecond before and after it",
		Assumptions: amountsAssumption,
		Families: func(th bool) []Family {
			return txnFamilies(FMembers|FBalances|FInstants, th)
		}})
	register(&Check{ID: "C03", Rule: "as C01, comparing transfer postings, and the sum of all balances at every instant",
		Assumptions: amountsAssumption,
		Families: func(th bool) []Family {
			return txnFamilies(FTransfer|FInstants|FOwnTimes, th)
		}})
	register(&Check{ID: "C04", Rule: "as C01",
		Assumptions: amountsAssumption,
		Families: func(th bool) []Family {
			return txnFamilies(FOutcome|FErrPos|FAmounts|FBalances, th)
		}})
}
