package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/backend/ledger"
)

const numFacets = FCurrency | FPrices | FReports | FTxns | FAmounts | FOutcome

// shape fills the digits of a pattern ('d' is a digit) so that each one is different.
func shape(p string) string {
	b := []byte(p)
	n := 1
	for i := range b {
		if b[i] == 'd' {
			b[i] = byte('0' + n%10)
			n++
		}
	}
	return string(b)
}

func shapeAt(i int64, alphabet string, max int) string {
	var b strings.Builder
	for _, k := range seqDecode(i, len(alphabet), max) {
		b.WriteByte(alphabet[k])
	}
	return shape(b.String())
}

// famNumbers: batches of price lines, each one with a currency of its own
func famNumbers(name, desc string, alphabet string, max int, firsts []string, format string) Family {
	const batch = 150
	total := seqCount(len(alphabet), max)
	per := (total + batch - 1) / batch
	return Family{Name: name, Desc: fmt.Sprintf("%s: all numbers of up to %d characters of %q, after each of %q, in batches of %d", desc, max, alphabet, firsts, batch), N: per * int64(len(firsts)), Run: func(t *T, i int64) {
		first := firsts[i%int64(len(firsts))]
		from := i / int64(len(firsts)) * batch
		var b strings.Builder
		for k := from; k < from+batch && k < total; k++ {
			c := fmt.Sprintf("c%c%c%c", 'a'+k%26, 'a'+k/26%26, 'a'+k/676%26)
			if first != "" {
				fmt.Fprintf(&b, "P 2020-01-01 Q "+format+"\n", first, c)
			}
			fmt.Fprintf(&b, "P 2020-01-01 Q "+format+"\n", shapeAt(k, alphabet, max), c)
		}
		t.checkJournal(b.String(), numFacets)
	}}
}

var firstNumbers = []string{"1", "1.5", "1,5", "1.000.000", "1,000.5", "1.000,5", "1'000'000", "1_000_000.5", "1000'5", "0.000", "1.123,"}

// numbers for sequences about one currency; some are refused
var seqNumbers = []string{"1", "-2.5", "1,25", "1.234", "1,234", "1234.567", "1.234.567", "1,234,567", "1.234,5", "1,234.50", "1'234.5", "1_234_567,125", "12,34,567", "1.5.5", "0.123456789", "99999999999999999999", "1,2345", "12345,678.9"}

func famNumSeq(name string, n int) Family {
	a := len(seqNumbers)
	return Family{Name: name, Desc: fmt.Sprintf("sequences of up to %d of %d numbers in one currency", n, a), N: seqCount(a, n), Run: func(t *T, i int64) {
		var b strings.Builder
		for _, k := range seqDecode(i, a, n) {
			fmt.Fprintf(&b, "P 2020-01-01 Q %s c\n", seqNumbers[k])
		}
		t.checkJournal(b.String(), numFacets)
	}}
}

// famLayouts: every layout of a value in every place where there can be one
func famLayouts(name string) Family {
	layouts := []string{"%s c", "%sc", "c %s", "c%s", "%s", "$%s", "$ %s", "%s  c", "c  %s", "%s c/d", "%s e5", "-%s c", "c -%s", "c-%s", "+%s c", "c +%s", "--%s c", "-c%s", "c%s d", "%s c=", "%s@c", "c %s-", "%s- c", "%s +c", "%s é", "é%s", "%s ", "c", "", "à%s", "₠%s", "₠ %s", "%sà", "c\t%s", "%s\tc", "%s\u00a0c", "c\u00a0%s", "Å-%s"}
	numbers := []string{"5", "1.5", "1,25", "1.000", "1.000.000", "1,000.25", "1'000", "12345,6789", "0", "1..2", "1.", ".5", "123456789012345678901"}
	firsts := []string{"", "1.25", "1.000,5", "1,000,000"}
	places := []string{
		"P 2020-01-01 Q %s",
		"commodity %s",
		"D %s",
		"2020-01-01 t\n  A  %s\n  B",
		"2020-01-01 t\n  A  1 Z @ %s\n  B",
		"2020-01-01 t\n  A  -3 Z @@ %s\n  B",
		"2020-01-01 t\n  A  %s = %s\n  B",
		"2020-01-01 t\n  A  = %s\n  B",
		"2020-01-01 t\n  A  2 Z @ %s = 2 Z\n  B",
		"D %s\nP 2020-01-01 Q 7.125",
		"P 2020-01-01 c 1 Y\nP 2020-01-01 Q %s",
	}
	N := int64(len(layouts) * len(numbers) * len(firsts) * len(places))
	return Family{Name: name, Desc: fmt.Sprintf("%d layouts x %d numbers x %d first amounts x %d places", len(layouts), len(numbers), len(firsts), len(places)), N: N, Run: func(t *T, i int64) {
		d := &Dec{i}
		l := layouts[d.Pick(len(layouts))]
		n := numbers[d.Pick(len(numbers))]
		f := firsts[d.Pick(len(firsts))]
		p := places[d.Pick(len(places))]
		v := l
		if strings.Contains(l, "%s") {
			v = fmt.Sprintf(l, n)
		}
		text := ""
		if f != "" {
			text = "P 2019-01-01 Q " + f + " c\n"
		}
		text += strings.ReplaceAll(p, "%s", v) + "\nP 2020-02-01 R 2.5 c\n"
		t.checkJournal(text, numFacets)
	}}
}

// famBig: numbers around the biggest one
func famBig(name string) Family {
	var nums []string
	max := "9223372036854775807"
	for _, d := range []string{"", "1", "2", "7", "8", "9"} {
		_ = d
	}
	for cut := 0; cut <= len(max); cut++ {
		x, _ := new(big.Int).SetString(max, 10)
		for _, k := range []int64{-10, -1, 0, 1, 2, 10, 100} {
			y := new(big.Int).Add(x, big.NewInt(k)).String()
			if cut > len(y) {
				continue
			}
			s := y[:len(y)-cut]
			if s == "" {
				s = "0"
			}
			if cut > 0 {
				s += "." + y[len(y)-cut:]
			}
			nums = append(nums, s, "-"+s, "000"+s)
		}
	}
	for n := 1; n <= 24; n++ {
		for f := 0; f <= 10; f++ {
			for _, c := range []string{"9", "1", "0"} {
				s := strings.Repeat(c, n)
				if f > 0 {
					s += "," + strings.Repeat(c, f)
				}
				nums = append(nums, s)
			}
		}
	}
	places := []string{"P 2020-01-01 Q %s c", "2020-01-01 t\n  A  %s c\n  B", "2020-01-01 t\n  A  2 Q @ %s c\n  B", "D %s"}
	return Family{Name: name, Desc: "numbers with up to 24 digits and 10 decimals, and all the cuts of numbers next to 2^63", N: int64(len(nums) * len(places)), Run: func(t *T, i int64) {
		t.checkJournal(fmt.Sprintf(places[int(i)%len(places)], nums[int(i)/len(places)])+"\nP 2020-01-01 Q 1 c\n", numFacets)
	}}
}

// ---- C07

func refShow(v accounting.Value, full, units bool) string {
	var c accounting.Currency
	if v.Currency != nil {
		c = *v.Currency
	}
	n := new(big.Int).Abs(big.NewInt(v.Amount))
	all := n.String()
	for len(all) < 9 {
		all = "0" + all
	}
	whole, frac := all[:len(all)-8], all[len(all)-8:]
	if full {
		for len(frac) > c.Precision && frac[len(frac)-1] == '0' {
			frac = frac[:len(frac)-1]
		}
	} else {
		frac = frac[:c.Precision]
	}
	grouped := ""
	for i := 0; i < len(whole); i++ {
		if i > 0 && (len(whole)-i)%3 == 0 {
			grouped += c.Thousand
		}
		grouped += whole[i : i+1]
	}
	num := grouped
	if frac != "" {
		d := c.Decimal
		if d == "" {
			d = "."
		}
		num += d + frac
	}
	if v.Amount < 0 {
		num = "-" + num
	}
	if !units || c.Name == "" {
		return num
	}
	sp := " "
	if c.WithoutSpace {
		sp = ""
	}
	if c.PrintBefore {
		return c.Name + sp + num
	}
	return num + sp + c.Name
}

func showAmounts(thorough bool) []int64 {
	set := map[int64]bool{}
	add := func(n int64) { set[n] = true; set[-n] = true }
	for i := int64(0); i < 130; i++ {
		add(i)
		add(i * unit)
	}
	p := int64(1)
	for e := 0; e < 19; e++ {
		for d := int64(1); d < 10; d++ {
			if d*p/p != d {
				continue
			}
			add(d * p)
		}
		add(p - 1)
		add(p + 1)
		add(p + unit)
		q := int64(1)
		for f := 0; f < e; f++ {
			add(p + 5*q)
			q *= 10
		}
		if e < 18 {
			p *= 10
		}
	}
	add(1234567890123456789)
	add(9223372036854775807)
	add(-9223372036854775808)
	add(123456789)
	add(1234567_89000000)
	if thorough {
		for i := int64(0); i < 3000; i++ {
			add(i * 37)
			add(i * 1234567)
			add(i * 12345678901)
		}
	}
	var r []int64
	for k := range set {
		r = append(r, k)
	}
	sortInt64(r)
	return r
}

func sortInt64(r []int64) {
	for i := 1; i < len(r); i++ { // shell-free: only a few thousand
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
}

func famShow(thorough bool) Family {
	amounts := showAmounts(thorough)
	th := []string{"", ".", ",", "'", "_"}
	D := []string{"", ".", ",", "'"}
	names := []string{"EUR", "$", ""}
	N := int64(9 * len(th) * len(D) * len(names) * 4)
	return Family{Name: "formats", Desc: fmt.Sprintf("all formats (precision, thousand and decimal signs, position, space, name) x %d amounts x full or not x units or not", len(amounts)), N: N, Run: func(t *T, i int64) {
		d := &Dec{i}
		c := accounting.Currency{Precision: d.Pick(9), Thousand: th[d.Pick(len(th))], Decimal: D[d.Pick(len(D))], Name: names[d.Pick(len(names))], PrintBefore: d.Pick(2) == 1, WithoutSpace: d.Pick(2) == 1}
		if c.Name == "" && c.PrintBefore {
			t.Skip("currency without name printed before")
			return
		}
		t.Sample(fmt.Sprintf("%+v", c))
		t.State(fmt.Sprintf("%+v", c))
		for _, a := range amounts {
			cc := c
			v := accounting.Value{Amount: a, Currency: &cc}
			for k := 0; k < 4; k++ {
				full, units := k&1 == 1, k&2 == 2
				got, want := v.GetString(full, units), refShow(v, full, units)
				t.Trans(1)
				if got != want {
					t.Failf("amount %d of %+v, full=%v units=%v: shown as %q and should be %q", a, c, full, units, got, want)
				}
			}
			if got, want := v.String(), refShow(v, false, true); got != want {
				t.Failf("amount %d of %+v: String is %q and should be %q", a, c, got, want)
			}
			if got, want := v.FullString(), refShow(v, true, true); got != want {
				t.Failf("amount %d of %+v: FullString is %q and should be %q", a, c, got, want)
			}
			if cc != c || v.Amount != a {
				t.Failf("showing amount %d of %+v modified it", a, c)
			}
		}
		t.Trace()
		t.Nontrivial()
		t.Out("format")
	}}
}

func famShowBalance() Family {
	cs := []*accounting.Currency{{Name: "EUR", Precision: 2, Decimal: ",", Thousand: "."}, {Name: "$", PrintBefore: true, WithoutSpace: true}, {Name: "BTC", Precision: 8}, {Name: ""}, nil}
	am := []int64{0, unit, -1234_56789012, 5}
	k := len(cs) * len(am)
	return Family{Name: "balances", Desc: fmt.Sprintf("all lists of up to 3 of %d amounts", k), N: seqCount(k, 3), Run: func(t *T, i int64) {
		var b accounting.Balance
		want := ""
		for n, x := range seqDecode(i, k, 3) {
			v := accounting.Value{Amount: am[x/len(cs)], Currency: cs[x%len(cs)]}
			b = append(b, v)
			if n > 0 {
				want += ", "
			}
			want += refShow(v, false, true)
		}
		if len(b) == 0 {
			want = "0"
		}
		t.Trace()
		t.Nontrivial()
		t.Trans(len(b))
		t.State(want)
		t.Sample(want)
		if got := b.String(); got != want {
			t.Failf("balance is shown as %q and should be %q", got, want)
		}
	}}
}

// amounts shown after being read
func famShowRead() Family {
	layouts := []string{"%s c", "%sc", "c %s", "c%s", "$%s", "$ %s"}
	nums := []string{"5", "1.5", "1,25", "1.000.000", "1,000.25", "1'000,5", "1_000_000.125", "-7.12345678", "12345,6", "-1.000,00", "0", "-0.001", "99999.999", "92233720368.54775807"}
	return Family{Name: "read", Desc: "amounts shown with the format with which they were read", N: int64(len(layouts) * len(nums) * len(nums)), Run: func(t *T, i int64) {
		d := &Dec{i}
		l := layouts[d.Pick(len(layouts))]
		text := fmt.Sprintf("P 2020-01-01 Q %s\nP 2020-01-01 R %s\n", fmt.Sprintf(l, nums[d.Pick(len(nums))]), fmt.Sprintf(l, nums[d.Pick(len(nums))]))
		_, o := t.checkJournal(text, FCurrency|FPrices)
		if o.L == nil {
			t.Failf("it should open%s", t.show())
		}
		for _, p := range o.L.Prices {
			for k := 0; k < 4; k++ {
				full, units := k&1 == 1, k&2 == 2
				if got, want := p.Value.GetString(full, units), refShow(p.Value, full, units); got != want {
					t.Failf("%s: shown as %q and should be %q%s", p.ID, got, want, t.show())
				}
			}
		}
	}}
}

// ---- C23

func famDays(name, desc string, from, to int, formats []string) Family {
	start := time.Date(from, 1, 1, 0, 0, 0, 0, time.UTC)
	days := (time.Date(to+1, 1, 1, 0, 0, 0, 0, time.UTC).Unix() - start.Unix()) / 86400
	const batch = 366
	return Family{Name: name, Desc: fmt.Sprintf("%s: all the days of years %d to %d (and 3 days after the end of each month), as %q", desc, from, to, formats), N: (days + batch - 1) / batch, Run: func(t *T, i int64) {
		for k := i * batch; k < (i+1)*batch && k < days; k++ {
			d := start.AddDate(0, 0, int(k))
			last := d.AddDate(0, 0, 1).Month() != d.Month()
			for extra := 0; extra < 4; extra++ {
				for _, f := range formats {
					s := fmt.Sprintf(f, d.Year(), int(d.Month()), d.Day()+extra)
					t.checkDate(s)
				}
				if !last {
					break
				}
			}
		}
		t.Sample(fmt.Sprintf("from %v", start.AddDate(0, 0, int(i*batch))))
	}}
}

func (t *T) checkDate(s string) {
	want, ok := readDate(s)
	got, err := ledger.GetDate(s)
	t.Trans(1)
	t.Trace()
	if ok != (err == nil) {
		if !ok && oneDigitHour(s) {
			t.Skip("hour of one digit")
			return
		}
		t.Failf("date %q: error is %v, and it should be %s", s, err, map[bool]string{true: "accepted", false: "refused"}[ok])
	}
	if ok {
		t.Nontrivial()
		t.Out("accepted")
		t.StateHash(uint64(want.Unix()))
		if !got.Equal(want) || got.Location() != time.UTC {
			t.Failf("date %q is read as %v and should be %v", s, got, want)
		}
	} else {
		t.Out("refused")
	}
}

func oneDigitHour(s string) bool {
	n, digits := 0, 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || strings.IndexByte("-/._:", s[i]) >= 0 {
			if n == 3 && digits == 1 {
				return true
			}
			n++
			digits = 0
			continue
		}
		digits++
	}
	return false
}

func famTimes() Family {
	return Family{Name: "times", Desc: "all the combinations of hour, minute and second from 0 to 61 (hours to 25), for the three layouts of time", N: 26, Run: func(t *T, i int64) {
		for m := 0; m < 62; m++ {
			t.checkDate(fmt.Sprintf("2020-02-29/%02d", i))
			t.checkDate(fmt.Sprintf("2020-02-29/%02d:%02d", i, m))
			for s := 0; s < 62; s++ {
				t.checkDate(fmt.Sprintf("2020-02-29/%02d:%02d:%02d", i, m, s))
			}
		}
		t.Sample(fmt.Sprintf("hour %d", i))
	}}
}

func famSeparators() Family {
	seps := "-/._:"
	return Family{Name: "separators", Desc: "all combinations of separators in all layouts", N: pow(len(seps), 5), Run: func(t *T, i int64) {
		d := &Dec{i}
		s := "2019"
		for _, x := range []string{"12", "31", "23", "58", "07"} {
			s += seps[d.Pick(len(seps)):][:1] + x
			t.checkDate(s)
		}
		t.Sample(s)
	}}
}

func famBadDates() Family {
	base := []string{"2020-02-29", "2019-12-31", "2020-02-29/13", "2020-02-29/13:45", "2020/01/10.05_09:59", "1999-06-30-00-00-00", "2020-01-05/10:30:15,5", "2020-01-05/10:30:15,", "2020-01-05/10:30:15.000", "2020-01-05/10:30,25", "2020-01-05/10:30:15,000000000"}
	chars := "0123456789-/._:aZ +T;,"
	type cs struct{ s string }
	var all []string
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			all = append(all, s)
		}
	}
	add("")
	for _, b := range base {
		for i := 0; i <= len(b); i++ {
			add(b[:i])
			add(b[i:])
			if i < len(b) {
				add(b[:i] + b[i+1:])
			}
			for j := 0; j < len(chars); j++ {
				add(b[:i] + chars[j:j+1] + b[i:])
				if i < len(b) {
					add(b[:i] + chars[j:j+1] + b[i+1:])
					for k := i + 1; k < len(b); k++ {
						for l := 0; l < len(chars); l++ {
							add(b[:i] + chars[j:j+1] + b[i+1:k] + chars[l:l+1] + b[k+1:])
						}
					}
				}
			}
		}
	}
	const batch = 500
	return Family{Name: "corrupted", Desc: fmt.Sprintf("%d strings with one or two changes from valid dates", len(all)), N: int64((len(all) + batch - 1) / batch), Run: func(t *T, i int64) {
		for k := int(i) * batch; k < (int(i)+1)*batch && k < len(all); k++ {
			t.checkDate(all[k])
		}
		t.Sample(all[int(i)*batch])
	}}
}

// dates in the three places where there is one
func famDatePlaces() Family {
	dates := []string{"2020-01-05", "2020/01/05", "2020.01.05", "2020_01_05", "2020:01:05", "2020-01-05/10", "2020-01-05/10:30", "2020-01-05-10-30-15", "2020-02-29", "2021-02-29", "2020-1-5", "20200105", "2020-01-32", "2020-01-05/24", "2020-01-05x", "2020-01-05/10:30:61", "2020-01-05/10:30:15,5", "2020-01-05/00:00:00", "2020-01-05/12", "0000-01-01", "9999-12-31/23:59:59"}
	n := len(dates)
	return Family{Name: "places", Desc: fmt.Sprintf("all triples of %d dates in a transaction, a posting and a price", n), N: int64(n * n * n), Run: func(t *T, i int64) {
		d := &Dec{i}
		text := fmt.Sprintf("P %s X 2 Y\n%s desc\n  A  1 X ; date:%s\n  B\nP 2020-01-06 X 3 Y\n", dates[d.Pick(n)], dates[d.Pick(n)], dates[d.Pick(n)])
		t.checkJournal(text, FTxns|FOwnTimes|FPrices|FOutcome|FReports|FErrPos)
	}}
}

func init() {
	register(&Check{ID: "C06", Rule: "each case is a journal with numbers of given shapes; the digits of a number are all different, so that misplaced ones are seen",
		Assumptions: []string{"the meaning of a number is defined by mc/refnum.go, which tries every meaning of each mark"},
		Families: func(th bool) []Family {
			f := "%s %s"
			fs := []Family{
				famNumbers("shapes2", "new currency", "d.,", 11, []string{""}, f),
				famNumbers("shapes4", "new currency", "d.,'_", 8, []string{""}, f),
				famNumbers("signs", "new currency", "d-+.", 6, []string{""}, f),
				famNumbers("known", "known currency", "d.,", 9, firstNumbers, f),
				famNumbers("known4", "known currency", "d.,'_", 6, firstNumbers, f),
				famNumSeq("sequences", 4),
				famLayouts("layouts"),
				famBig("big"),
			}
			if th {
				fs = append(fs,
					famNumbers("shapes2+", "new currency", "d.,", 13, []string{""}, f),
					famNumbers("shapes4+", "new currency", "d.,'_", 9, []string{""}, f),
					famNumbers("known+", "known currency", "d.,", 11, firstNumbers, f),
					famNumbers("known4+", "known currency", "d.,'_", 7, firstNumbers, f),
					famNumSeq("sequences+", 5))
			}
			return fs
		}})
	register(&Check{ID: "C07", Rule: "each case is a format or a balance; all amounts of the list are shown in it",
		Assumptions: []string{"amounts from -(2^63-1) to 2^63-1", "precisions from 0 to 8", "a currency without name is not printed before the amount"},
		Families: func(th bool) []Family {
			return []Family{famShow(th), famShowBalance(), famShowRead()}
		}})
	register(&Check{ID: "C23", Rule: "each case is a batch of strings read as dates",
		Assumptions: []string{"an hour of only one digit may be accepted or refused"},
		Families: func(th bool) []Family {
			fs := []Family{
				famDays("days", "date only", 1890, 2110, []string{"%04d-%02d-%02d", "%04d.%02d.%02d", "%04d/%02d/%02d/23:59:59"}),
				famDays("centuries", "date only", 0, 9999, []string{"%04d/%02d/%02d"}),
				famTimes(), famSeparators(), famBadDates(), famDatePlaces(),
			}
			if th {
				fs = append(fs, famDays("centuries+", "with time", 0, 9999, []string{"%04d-%02d-%02d", "%04d_%02d:%02d.00-00", "%04d-%02d-%02d/09", "%04d-%02d-%02d/18:30:01"}))
			}
			return fs
		}})
}
