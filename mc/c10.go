package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
)

// C10: conversions, against all the results allowed by the list of prices.

type ival struct{ lo, hi *big.Rat }

var bigU = big.NewInt(accounting.U)

// times gives the interval of x*rate/U, with an error of up to one unit in the result and e in the rate.
func (x ival) times(rate *big.Rat, e int64) ival {
	r1 := new(big.Rat).Sub(rate, new(big.Rat).SetInt64(e))
	r2 := new(big.Rat).Add(rate, new(big.Rat).SetInt64(e))
	u := new(big.Rat).SetInt(bigU)
	var res ival
	for _, a := range []*big.Rat{x.lo, x.hi} {
		for _, r := range []*big.Rat{r1, r2} {
			p := new(big.Rat).Mul(a, r)
			p.Quo(p, u)
			if res.lo == nil || p.Cmp(res.lo) < 0 {
				res.lo = p
			}
			if res.hi == nil || p.Cmp(res.hi) > 0 {
				res.hi = p
			}
		}
	}
	one := new(big.Rat).SetInt64(1)
	return ival{new(big.Rat).Sub(res.lo, one), new(big.Rat).Add(res.hi, one)}
}

type rprice struct {
	at       time.Time
	from, to string
	amount   int64
}

type rrate struct {
	r *big.Rat
	e int64
}

func secs(a, b time.Time) *big.Rat { // a - b
	n := new(big.Int).Mul(big.NewInt(a.Unix()-b.Unix()), big.NewInt(1e9))
	n.Add(n, big.NewInt(int64(a.Nanosecond()-b.Nanosecond())))
	return new(big.Rat).SetInt(n)
}

// rates gives all the rates which may be used from one currency to another (more than one if there are several prices at the same time).
func rates(ps []rprice, from, to string, when time.Time) []rrate {
	var prev, next []rprice
	var res []rrate
	for _, p := range ps {
		if p.from != from || p.to != to {
			continue
		}
		switch {
		case p.at.Equal(when):
			res = append(res, rrate{new(big.Rat).SetInt64(p.amount), 0})
		case p.at.Before(when):
			if len(prev) > 0 && p.at.After(prev[0].at) {
				prev = nil
			}
			if len(prev) == 0 || p.at.Equal(prev[0].at) {
				prev = append(prev, p)
			}
		default:
			if len(next) > 0 && p.at.Before(next[0].at) {
				next = nil
			}
			if len(next) == 0 || p.at.Equal(next[0].at) {
				next = append(next, p)
			}
		}
	}
	if len(res) > 0 {
		return res
	}
	for _, a := range prev {
		for _, b := range next {
			r := new(big.Rat).Quo(secs(when, a.at), secs(b.at, a.at))
			r.Mul(r, new(big.Rat).Sub(new(big.Rat).SetInt64(b.amount), new(big.Rat).SetInt64(a.amount)))
			r.Add(r, new(big.Rat).SetInt64(a.amount))
			res = append(res, rrate{r, 1})
		}
	}
	if len(res) > 0 {
		return res
	}
	for _, a := range append(prev, next...) {
		res = append(res, rrate{new(big.Rat).SetInt64(a.amount), 0})
	}
	return res
}

// tooBig tells whether some value of the interval does not fit in an amount
func (x ival) tooBig() bool {
	m := new(big.Rat).SetInt(bigMax)
	return x.hi.Cmp(m) > 0 || x.lo.Cmp(m.Neg(m)) < 0
}

// conversions gives all the results which are right; none if it must fail; and whether some amount may not fit, so that it may fail.
func conversions(ps []rprice, curs []string, amount int64, from, to string, when time.Time) (res []ival, huge bool) {
	v := new(big.Rat).SetInt64(amount)
	x := ival{v, v}
	if from == to {
		return []ival{x}, false
	}
	if rs := rates(ps, from, to, when); len(rs) > 0 {
		for _, r := range rs {
			y := x.times(r.r, r.e)
			res = append(res, y)
			huge = huge || y.tooBig()
		}
		return res, huge
	}
	seen := map[string]bool{from: true}
	var walk func(x ival, at string)
	walk = func(x ival, at string) {
		huge = huge || x.tooBig()
		if at == to {
			res = append(res, x)
			return
		}
		for _, c := range curs {
			if seen[c] {
				continue
			}
			seen[c] = true
			for _, r := range rates(ps, at, c, when) {
				walk(x.times(r.r, r.e), c)
			}
			seen[c] = false
		}
	}
	walk(x, from)
	return res, huge
}

// conversion checks all the conversions of a journal made of price lines
func (t *T) conversion(ps []rprice, curs []string, whens []time.Time, amounts []int64, extra string) {
	ps = append([]rprice(nil), ps...)
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].at.Before(ps[j].at) })
	var b strings.Builder
	for _, c := range curs {
		fmt.Fprintf(&b, "commodity 1.00000000 %s\n", c)
	}
	for _, p := range ps {
		fmt.Fprintf(&b, "P %s %s %s %s\n", p.at.Format("2006-01-02/15:04:05"), p.from, accounting.Value{Amount: p.amount}.FullString(), p.to)
	}
	b.WriteString(extra)
	o := t.Journal(b.String())
	t.Sample(b.String())
	if o.L == nil {
		t.Failf("cannot open: %s%s", o, t.show())
	}
	t.State(b.String())
	L := o.L
	cur := map[string]*accounting.Currency{}
	for _, c := range L.Currencies {
		cur[c.Name] = c
	}
	t.converts(L, cur, ps, curs, whens, amounts)
	t.Nontrivial()
	t.Trace()
}

// changedPrices: conversions before and after changing the prices of a ledger, which may have been remembered.
func (t *T) changedPrices(first, second []rprice, curs []string, whens []time.Time, amounts []int64) {
	var b strings.Builder
	for _, c := range curs {
		fmt.Fprintf(&b, "commodity 1.00000000 %s\n", c)
	}
	o := t.Journal(b.String())
	if o.L == nil {
		t.Failf("cannot open: %s%s", o, t.show())
	}
	L := o.L
	cur := map[string]*accounting.Currency{}
	for _, c := range L.Currencies {
		cur[c.Name] = c
	}
	t.State(fmt.Sprint(first, second))
	for k, ps := range [][]rprice{first, second, first} {
		ps = append([]rprice(nil), ps...)
		sort.SliceStable(ps, func(i, j int) bool { return ps[i].at.Before(ps[j].at) })
		if k != 1 { // the same objects, changed
			L.Prices = L.Prices[:0]
		} else {
			L.Prices = append([]*accounting.Price(nil), L.Prices...)
		}
		for i, p := range ps {
			if i >= len(L.Prices) {
				L.Prices = append(L.Prices, new(accounting.Price))
			}
			*L.Prices[i] = accounting.Price{Time: p.at, Currency: cur[p.from], Value: accounting.Value{Amount: p.amount, Currency: cur[p.to]}}
		}
		L.Prices = L.Prices[:len(ps)]
		t.converts(L, cur, ps, curs, whens, amounts)
	}
	t.Nontrivial()
	t.Trace()
}

// converts checks all the conversions with those prices, which are sorted.
func (t *T) converts(L *accounting.Ledger, cur map[string]*accounting.Currency, ps []rprice, curs []string, whens []time.Time, amounts []int64) {
	before := showPrices(L)
	nCur := len(L.Currencies)
	for _, from := range curs {
		for _, to := range curs {
			for _, when := range whens {
				for _, n := range amounts {
					want, tooBig := conversions(ps, curs, n, from, to, when)
					got, err := L.Convert(accounting.Value{Amount: n, Currency: cur[from]}, when, cur[to])
					t.Trans(1)
					what := fmt.Sprintf("converting %d %s to %s at %s", n, from, to, when)
					if len(want) == 0 {
						t.Out("no way")
						if err == nil {
							t.Failf("%s: there is no way and it gives %d %s%s", what, got.Amount, curName(got.Currency), t.show())
						}
						continue
					}
					if err != nil && tooBig {
						t.Out("too big")
						continue
					}
					if err != nil {
						t.Failf("%s: %v%s", what, err, t.show())
					}
					if got.Currency != cur[to] {
						t.Failf("%s: the result is in %q%s", what, curName(got.Currency), t.show())
					}
					ok := false
					g := new(big.Rat).SetInt64(got.Amount)
					for _, w := range want {
						if g.Cmp(w.lo) >= 0 && g.Cmp(w.hi) <= 0 {
							ok = true
							break
						}
					}
					if !ok {
						s := ""
						for _, w := range want {
							s += fmt.Sprintf(" %s..%s", w.lo.FloatString(2), w.hi.FloatString(2))
						}
						t.Failf("%s: it gives %d, and it should be one of%s%s", what, got.Amount, s, t.show())
					}
					if len(rates(ps, from, to, when)) > 0 {
						t.Out("direct")
					} else if from == to {
						t.Out("same")
					} else {
						t.Out("chain")
					}
				}
			}
		}
		if _, err := L.Convert(accounting.Value{Amount: 5, Currency: cur[from]}, whens[0], nil); err == nil {
			t.Failf("converting %s to no currency gives no error%s", from, t.show())
		}
	}
	if s := showPrices(L); s != before || len(L.Currencies) != nCur {
		t.Failf("converting changed the prices: %s%s", diff(before, s), t.show())
	}
}

func showPrices(L *accounting.Ledger) string {
	var b strings.Builder
	for _, p := range L.Prices {
		fmt.Fprintf(&b, "%s %s %s\n", p.Time, curName(p.Currency), showV(p.Value))
	}
	return b.String()
}

func init() {
	tm := func(s string) time.Time {
		x, err := time.Parse("2006-01-02 15:04:05.999999999", s)
		if err != nil {
			panic(err)
		}
		return x
	}
	d := func(n int) time.Time { return time.Date(2020, 1, n, 12, 0, 0, 0, time.UTC) }
	const U = accounting.U
	graph := func(name string, n int, maxEdges int, arr int) Family {
		curs := []string{"X", "Y", "Z", "W", "V"}[:n]
		var pairs [][2]string
		for _, a := range curs {
			for _, b := range curs {
				if a != b {
					pairs = append(pairs, [2]string{a, b})
				}
			}
		}
		// subsets with up to maxEdges pairs
		var sets []int
		for m := 0; m < 1<<len(pairs); m++ {
			k := 0
			for x := m; x > 0; x &= x - 1 {
				k++
			}
			if k <= maxEdges {
				sets = append(sets, m)
			}
		}
		return Family{Name: name, Desc: fmt.Sprintf("all graphs of prices among %d currencies with up to %d arcs, with their times in %d arrangements; all the pairs of currencies at three instants", n, maxEdges, arr), N: int64(len(sets) * arr), Run: func(t *T, i int64) {
			dd := &Dec{i}
			k := dd.Pick(arr)
			m := sets[dd.Pick(len(sets))]
			var ps []rprice
			for j, p := range pairs {
				if m>>j&1 == 0 {
					continue
				}
				var when int
				switch k {
				case 0:
					when = 5
				case 1:
					when = 2 + j%7
				case 2:
					when = 9 - (j*3)%8
				default:
					when = 1 + (j*5+k)%9
				}
				ps = append(ps, rprice{d(when), p[0], p[1], U/2*int64(2*j+1) + int64(j)*1234567})
			}
			t.conversion(ps, curs, []time.Time{d(1), d(5), d(12)}, []int64{-3 * U}, "")
		}}
	}
	line := func(name string, max int, times []time.Time, amounts []int64, whens []time.Time, ns []int64) Family {
		a := len(times) * len(amounts)
		return Family{Name: name, Desc: fmt.Sprintf("all lists of up to %d prices of one currency in another (%d times x %d rates), at %d instants, %d amounts", max, len(times), len(amounts), len(whens), len(ns)), N: seqCount(a, max), Run: func(t *T, i int64) {
			var ps []rprice
			for _, k := range seqDecode(i, a, max) {
				ps = append(ps, rprice{times[k%len(times)], "X", "Y", amounts[k/len(times)]})
			}
			t.conversion(ps, []string{"X", "Y"}, whens, ns, "")
		}}
	}
	mixed := func(name string, curs []string, max int, times []time.Time, whens []time.Time) Family {
		var al []rprice
		for i, a := range curs {
			for j, b := range curs {
				if a != b {
					for k, x := range times {
						al = append(al, rprice{x, a, b, U*int64(2+i) + int64(k*1000003+j*7)})
					}
				}
			}
		}
		return Family{Name: name, Desc: fmt.Sprintf("all lists of up to %d prices among the currencies %v at %d times", max, curs, len(times)), N: seqCount(len(al), max), Run: func(t *T, i int64) {
			var ps []rprice
			for _, k := range seqDecode(i, len(al), max) {
				ps = append(ps, al[k])
			}
			t.conversion(ps, curs, whens, []int64{U, -7}, "")
		}}
	}
	register(&Check{ID: "C10", Rule: "each case is a list of prices; every pair of currencies is converted at several instants and the result has to be one of those allowed by the definition, in exact arithmetic",
		Assumptions: []string{"if several prices of the same pair are at the same time, any of them may be used; any simple chain may be used", "a conversion may fail if an amount in some chain is too big"},
		Families: func(th bool) []Family {
			mul := []int64{0, 1, -1, 2, 3, 7, -13, U - 1, U, U + 1, -U, 5 * U / 2, -123456789, 123456789012, 99999999, 50000000, 49999999, -50000001, 300 * U, 1e14}
			wide := []time.Time{tm("0001-01-01 00:00:00"), tm("0900-03-01 12:00:00"), tm("1600-01-01 00:00:00"), tm("2020-01-05 12:00:00"), tm("9999-12-31 23:59:59")}
			fs := []Family{
				graph("graph3", 3, 6, 8),
				graph("graph4", 4, 12, 12),
				line("line", 3, []time.Time{d(2), d(4), d(5), d(8)}, []int64{U, 3 * U, U/3 + 1, 0}, []time.Time{d(1), d(2), d(3), d(4), d(6), d(7), d(8), d(20), d(4).Add(1), d(5).Add(-1), d(2).Add(time.Second), d(2).Add(-time.Second), d(4).Add(time.Second), d(4).Add(-time.Second), d(5).Add(time.Second), d(5).Add(-time.Second), d(4).Add(time.Minute), d(4).Add(-time.Minute), d(4).Add(time.Hour), d(4).Add(-time.Hour), d(4).Add(12 * time.Hour), d(5).Add(7 * time.Hour), tm("2020-01-05 18:00:00").In(time.FixedZone("Z", 6*3600))}, []int64{0, U, -U, 1, -7, 123456789, 1e14}),
				line("negative", 2, []time.Time{d(2), d(5), d(9)}, []int64{-U, 3 * U, -U / 3, 1}, []time.Time{d(1), d(2), d(3), d(5), d(8), d(20)}, []int64{U, -7, 7}),
				{Name: "changed", Desc: "conversions, with prices among three currencies which are changed in the ledger between them: all lists of up to two prices, before and after", N: seqCount(12, 2) * seqCount(12, 2), Run: func(t *T, i int64) {
					al := func(i int64) (ps []rprice) {
						for _, k := range seqDecode(i, 12, 2) {
							p := [][2]string{{"X", "Y"}, {"Y", "Z"}, {"X", "Z"}, {"Y", "X"}}[k%4]
							ps = append(ps, rprice{d(4 + k/4%2*2), p[0], p[1], U * int64(2+k)})
						}
						return ps
					}
					n := seqCount(12, 2)
					t.changedPrices(al(i%n), al(i/n), []string{"X", "Y", "Z"}, []time.Time{d(3), d(4), d(5), d(9)}, []int64{U})
				}},
				// prices which are close to each other
				line("close", 3, []time.Time{d(4), d(4).Add(time.Second), d(4).Add(time.Minute), d(4).Add(12 * time.Hour), d(4).Add(-time.Second)}, []int64{U, 3 * U}, []time.Time{d(3), d(4).Add(-time.Minute), d(4).Add(-time.Second), d(4).Add(-1), d(4), d(4).Add(1), d(4).Add(2), d(4).Add(time.Second - 1), d(4).Add(time.Second), d(4).Add(2 * time.Second), d(4).Add(time.Minute), d(4).Add(12 * time.Hour), d(5)}, []int64{U, -7}),
				line("huge", 2, []time.Time{d(2), d(5), d(9)}, []int64{math.MaxInt64, -math.MaxInt64, math.MaxInt64 / 2, U, 1, -3 * U}, []time.Time{d(1), d(2), d(3), d(5), d(8), d(20)}, []int64{math.MaxInt64, -math.MaxInt64, U, -U, U + 1, 5, 2 * U, 1 << 62}),
				{Name: "hugechains", Desc: "chains of two or three currencies, with all the combinations of prices and amounts", N: 7 * 7 * 7 * 6, Run: func(t *T, i int64) {
					am := []int64{math.MaxInt64, -math.MaxInt64, 1 << 40, U, 1, 1 << 62, 3e15}
					dd := &Dec{i}
					a, b, c := am[dd.Pick(7)], am[dd.Pick(7)], am[dd.Pick(7)]
					n := []int64{math.MaxInt64, -math.MaxInt64, U, 1, -1 << 40, 7e13}[dd.Pick(6)]
					t.conversion([]rprice{{d(2), "X", "Y", a}, {d(2), "Y", "Z", b}, {d(5), "X", "W", c}, {d(5), "W", "Z", U}}, []string{"X", "Y", "Z", "W"}, []time.Time{d(3)}, []int64{n}, "")
				}},
				line("wide", 3, wide, []int64{U, 3 * U}, append([]time.Time{tm("0500-01-01 00:00:00"), tm("1800-01-01 01:02:03"), tm("9000-01-01 00:00:00"), {}}, wide...), []int64{U}),
				line("line4", 4, []time.Time{d(2), d(4), d(8)}, []int64{U, 3 * U, U/3 + 1}, []time.Time{d(1), d(2), d(3), d(5), d(8), d(20)}, []int64{U, -7, 123456789}),
				mixed("mixed3", []string{"X", "Y", "Z"}, 4, []time.Time{d(2), d(5), d(9)}, []time.Time{d(1), d(2), d(4), d(5), d(12)}),
				{Name: "mul", Desc: fmt.Sprintf("products of all the pairs of %d amounts", len(mul)), N: int64(len(mul) * len(mul)), Run: func(t *T, i int64) {
					a, b := mul[int(i)%len(mul)], mul[int(i)/len(mul)]
					want := new(big.Rat).SetFrac(new(big.Int).Mul(big.NewInt(a), big.NewInt(b)), bigU)
					if new(big.Rat).Abs(want).Cmp(new(big.Rat).SetInt64(1<<62)) > 0 {
						t.Skip("too big")
						return
					}
					x, y := &accounting.Currency{Name: "X"}, &accounting.Currency{Name: "Y"}
					v := accounting.Value{Amount: a, Currency: x}
					v.Mul(accounting.Value{Amount: b, Currency: y})
					dif := new(big.Rat).Sub(want, new(big.Rat).SetInt64(v.Amount))
					if dif.Abs(dif).Cmp(new(big.Rat).SetInt64(1)) >= 0 || v.Currency != x {
						t.Failf("%d times %d is %d %q", a, b, v.Amount, curName(v.Currency))
					}
					t.Nontrivial()
				}},
				// chains of any length, in every direction
				{Name: "long", Desc: "chains of 2 to 40 currencies, with or without dead ends and ways back", N: 39 * 4, Run: func(t *T, i int64) {
					n, k := int(i%39)+2, int(i/39)
					var ps []rprice
					var curs []string
					for j := 0; j < n; j++ {
						curs = append(curs, fmt.Sprintf("C%da", j))
					}
					for j := 0; j+1 < n; j++ {
						ps = append(ps, rprice{d(1 + j%20), curs[j], curs[j+1], U + int64(j)})
						if k&1 == 1 {
							ps = append(ps, rprice{d(1 + (j*7)%20), curs[j+1], curs[j], U - int64(j)})
						}
						if k&2 == 2 {
							ps = append(ps, rprice{d(1 + (j*3)%20), curs[j], fmt.Sprintf("D%da", j), U})
						}
					}
					all := append([]string(nil), curs...)
					if k&2 == 2 {
						for j := 0; j+1 < n; j++ {
							all = append(all, fmt.Sprintf("D%da", j))
						}
					}
					t.conversionOf(ps, all, curs[0], curs[n-1], d(9))
					t.conversionOf(ps, all, curs[n-1], curs[0], d(9))
				}},
			}
			if th {
				fs = append(fs, graph("graph4times", 4, 12, 40), graph("graph5", 5, 7, 2),
					line("line5", 5, []time.Time{d(2), d(4), d(8)}, []int64{U, 3 * U}, []time.Time{d(1), d(2), d(3), d(4), d(6), d(8), d(20)}, []int64{U, -7, 123456789}),
					mixed("mixed3deep", []string{"X", "Y", "Z"}, 5, []time.Time{d(2), d(9)}, []time.Time{d(1), d(4), d(5), d(12)}),
					mixed("mixed4", []string{"X", "Y", "Z", "W"}, 4, []time.Time{d(2), d(5)}, []time.Time{d(2), d(3), d(12)}))
			}
			return fs
		}})
}

// conversionOf checks only one conversion
func (t *T) conversionOf(ps []rprice, curs []string, from, to string, when time.Time) {
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].at.Before(ps[j].at) })
	var b strings.Builder
	for _, c := range curs {
		fmt.Fprintf(&b, "commodity 1.00000000 %s\n", c)
	}
	for _, p := range ps {
		fmt.Fprintf(&b, "P %s %s %s %s\n", p.at.Format("2006-01-02/15:04:05"), p.from, accounting.Value{Amount: p.amount}.FullString(), p.to)
	}
	o := t.Journal(b.String())
	if o.L == nil {
		t.Failf("cannot open: %s%s", o, t.show())
	}
	cur := map[string]*accounting.Currency{}
	for _, c := range o.L.Currencies {
		cur[c.Name] = c
	}
	want, _ := conversions(ps, curs, accounting.U, from, to, when)
	got, err := o.L.Convert(accounting.Value{Amount: accounting.U, Currency: cur[from]}, when, cur[to])
	t.Trans(1)
	if len(want) == 0 {
		t.Out("no way")
		if err == nil {
			t.Failf("from %s to %s: there is no way and it gives %d%s", from, to, got.Amount, t.show())
		}
		return
	}
	t.Out("chain")
	if err != nil {
		t.Failf("from %s to %s: %v%s", from, to, err, t.show())
	}
	g := new(big.Rat).SetInt64(got.Amount)
	for _, w := range want {
		if got.Currency == cur[to] && g.Cmp(w.lo) >= 0 && g.Cmp(w.hi) <= 0 {
			t.Nontrivial()
			return
		}
	}
	t.Failf("from %s to %s: it gives %d %q%s", from, to, got.Amount, curName(got.Currency), t.show())
}
