package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/backend/ledger"
)

// C05: print, read back, print again.

func export(L *accounting.Ledger) string {
	var b bytes.Buffer
	ledger.Export(&b, L)
	return b.String()
}

// withoutRepeatedAuto removes the automatic price lines which are repeated.
func withoutRepeatedAuto(s string) string {
	seen := map[string]bool{}
	var res []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "P ") && strings.HasSuffix(l, "; automatic") {
			if seen[l] {
				continue
			}
			seen[l] = true
		}
		res = append(res, l)
	}
	return strings.Join(res, "\n")
}

var roundTrip = dumpOpts{noIDs: true, priceSet: true, balanceSet: true, seconds: true}

func (t *T) roundTrip(text string) {
	t.roundTripOf(t.Journal(text), roundTrip)
}

// roundTripOf prints a ledger and reads it back.
func (t *T) roundTripOf(o Opened, roundTrip dumpOpts) {
	t.Sample(t.show())
	t.Out(o.Outcome())
	if o.L == nil {
		return
	}
	t.Nontrivial()
	d1 := DumpL(o.L, roundTrip)
	t.State(d1)
	e1 := export(o.L)
	if d := DumpL(o.L, roundTrip); d != d1 {
		t.Failf("printing a ledger modified it: %s%s", diff(d1, d), t.show())
	}
	if c := export(o.L.Clone()); c != e1 {
		t.Failf("a copy prints other text: %s%s", diff(e1, c), t.show())
	}
	t.WriteFile("printed", e1)
	o2 := t.OpenSource(t.Path("printed"))
	t.Trace()
	t.Trans(2 + strings.Count(e1, "\n"))
	if o2.L == nil {
		t.Failf("what was printed cannot be read: %s\n%s%s", o2, o2.Log, t.show())
	}
	for _, l := range strings.Split(o2.Log, "\n") {
		if strings.TrimSpace(l) != "" && !strings.Contains(l, "undefined") {
			t.Failf("reading what was printed gives a message: %s%s", l, t.show())
		}
	}
	if d2 := DumpL(o2.L, roundTrip); d1 != d2 {
		t.Failf("what was read back is different: %s%s", diff(d1, d2), t.show())
	}
	e2 := export(o2.L)
	if a, b := withoutRepeatedAuto(e1), withoutRepeatedAuto(e2); a != b {
		t.Failf("printing again gives other text: %s%s", diff(a, b), t.show())
	}
}

// amounts in all the formats of currencies, in all the places
func famPrintFormats() Family {
	formats := []string{"1 c", "1.0 c", "1.50 c", "1,5 c", "1.000,00 c", "1,000.00 c", "1.000.000 c", "1,000,000 c", "1'000.5 c", "1_000_000,125 c", "0,12345678c", "$1,000.00", "$ 1.000,0", "$-5", "c -1.000,00000", "1000,0", "1.000,00", "1,000,000", "7", "1'000'000"}
	numbers := []string{"0", "1", "0.1", "0.123", "0.12345678", "0.01", "12.345", "123.456", "999.999", "1234", "1234.567", "123456.789", "1234567.1", "12345678.12345678", "100", "1000", "1000000", "0.00000001", "0.001"}
	signs := []string{"", "-"}
	N := len(formats) * len(numbers) * len(signs) * len(numbers)
	return Family{Name: "formats", Desc: fmt.Sprintf("%d formats of a currency x two of %d amounts, in postings, prices, assertions and price lines", len(formats), len(numbers)), N: int64(N), Run: func(t *T, i int64) {
		d := &Dec{i}
		f := formats[d.Pick(len(formats))]
		n1, sign, n2 := numbers[d.Pick(len(numbers))], signs[d.Pick(2)], numbers[d.Pick(len(numbers))]
		cur := strings.Trim(f, " -0123456789.,'_")
		head := "commodity " + f + "\n"
		l, err := refLayout(f)
		if err != nil {
			panic(err)
		}
		var T, D string
		if r, err := refNumber(l.number, "", ""); err == nil {
			T, D = r.T, r.D
		}
		_ = T
		v := func(s string) string {
			if D == "," {
				s = strings.Replace(s, ".", ",", 1)
			}
			if cur == "" {
				return s
			}
			return s + " " + cur
		}
		a, b := v(sign+n1), v(n2)
		t.roundTrip(head + "2020-01-01 t\n  A  " + a + "\n  B\n2020-01-02 t\n  A  " + b + " @@ 5 Q\n  C\n2020-01-03 t\n  D  " + v("0") + "\n  E  7 R @ " + b + "\n  E\n2020-01-04 t\n  F  = " + v("-"+n1) + "\n  A\nP 2020-02-01 Q " + a + "\n")
	}}
}

// times of transactions, postings and prices
func famPrintTimes() Family {
	times := []string{"2020-01-05", "2020-01-05/10:30", "2020-01-05/10:30:15", "2020-01-05/12:00:01", "2020-01-05/00:00", "2020-01-05/23:59:59", "2020-01-06/00:00:00", "2020-01-04/23:59:59", "2020-02-29", "2019-12-31/12", "0001-01-01/00:00:00", "0999-03-02", "9999-12-31/23:59:59"}
	ways := []string{"  A  1 X ; date:%s\n", "  A  1 X ; c\n  ; date:%s\n", "  A  1 X ; date:%s\n ; c\n ; k:v\n", "  A  1 X @ 2 Y ; date:%s\n", "  A  1 X = 1 X\n  ; x date:%s\n", "  A ; date:%s\n"}
	n := len(times)
	return Family{Name: "times", Desc: fmt.Sprintf("all the combinations of %d times for a transaction, one of its postings and a price, in %d ways", n, len(ways)), N: int64(n * n * n * len(ways)), Run: func(t *T, i int64) {
		d := &Dec{i}
		tx, own, pr, w := times[d.Pick(n)], times[d.Pick(n)], times[d.Pick(n)], ways[d.Pick(len(ways))]
		b := "  B\n"
		if strings.HasPrefix(w, "  A ;") {
			b = "  B  2 X\n"
		} else if strings.Contains(w, "@") {
			b = "  B  -2 Y ; date:" + own + "\n"
		}
		t.roundTrip("P " + pr + " X 2 Y\n" + tx + " t\n" + fmt.Sprintf(w, own) + b)
	}}
}

// names of accounts and currencies, descriptions and comments
func famPrintNames() Family {
	long := strings.Repeat("long ", 13)
	accts := []string{"A", "A:B", "a b:c d", "Ñandú:é", "1st", "A:A:A", "Assets:Transfer", "Transfer account:x", strings.TrimSpace(long), strings.Repeat("x", 49), strings.Repeat("y", 50), strings.Repeat("z", 51), "A-B_C.d/e", "include me", "P x", "account"}
	curs := []string{"X", "€", "US$", "X2", "a-b", "a_b/c.d", "XYZZYXYZZY", "P", "D", "ñ"}
	descs := []string{"", "t", "a b  c", "2020-01-05", "= 5 @ 3", "P 2020", "\"q\" 'r'", "ñ € 日本", long, "a:b", "* x", "# y"}
	comments := []string{"", "c", "c : d", "a  b", "* c", "# c", "k:v", ": x", "c ; d", "€ 日本 'x'", long, "=@", "Date:2020-01-01"}
	N := len(accts) * len(curs) * len(descs) * len(comments)
	return Family{Name: "names", Desc: fmt.Sprintf("all the combinations of %d account names, %d currency names, %d descriptions and %d comments", len(accts), len(curs), len(descs), len(comments)), N: int64(N), Run: func(t *T, i int64) {
		d := &Dec{i}
		a, c, de, co := accts[d.Pick(len(accts))], curs[d.Pick(len(curs))], descs[d.Pick(len(descs))], comments[d.Pick(len(comments))]
		if co != "" {
			co = " ; " + co
		}
		t.roundTrip("account " + a + co + "\ncommodity 1.00 " + c + co + "\n" + strings.Replace(co, " ;", "  ;", 1) + "\nP 2020-01-01 " + c + " 3 W" + co + "\n2020-01-05 " + de + co + "\n" + strings.Replace(co, " ;", "  ;", 1) + "\n  " + a + "  1.5 " + c + " @ 2 V" + co + "\n" + strings.Replace(co, " ;", "  ;", 1) + "\n  Other  " + "-3 V\n")
	}}
}

// famPrintPrices: prices of each unit and total prices, with all signs
func famPrintPrices(run func(t *T, text string)) Family {
	numbers := []string{"0", "1", "3", "0.5", "0.33333333", "0.66666667", "0.00000001", "0.00000003", "7.77777777", "123.45678901", "1000000", "99999.99999999", "2147483648"}
	signs := []string{"", "-"}
	ways := []string{"  A  %s X @ %s Y\n  B\n", "  A  %s X @@ %s Y\n  B\n", "  A  %s @ %s Y\n  B\n", "  A  Y%s @ %s\n  B\n", "  A  %s X @ %s X\n  B\n", "  A  %s X @ %s Y = 5 X ; date:2020-01-04\n  B\n"}
	n := len(numbers)
	return Family{Name: "prices", Desc: fmt.Sprintf("all pairs of %d amounts with both signs, as amount and price, in %d ways", n, len(ways)), N: int64(n * n * 4 * len(ways)), Run: func(t *T, i int64) {
		d := &Dec{i}
		s1, s2, a, p, w := signs[d.Pick(2)], signs[d.Pick(2)], numbers[d.Pick(n)], numbers[d.Pick(n)], ways[d.Pick(len(ways))]
		head := ""
		if strings.Contains(w, "= 5 X") {
			head = "2020-01-01 t\n  C  " + s1 + a + " X\n  A  5 X\n  A  -" + a + " X\n  D\n"
			if s1 == "-" {
				head = "2020-01-01 t\n  A  5 X\n  A  " + a + " X\n  D\n"
			}
			w = strings.Replace(w, "2020-01-04", "2020-01-06", 1)
		}
		run(t, head+"2020-01-05 t\n"+fmt.Sprintf(w, s1+a, s2+p)+"P 2020-01-06 X 1 Y\n")
	}}
}

// famPrintChars: every short text in every place where there can be one
func famPrintChars(n int, run func(t *T, text string)) Family {
	chars := []string{"A", "b", " ", "\t", ":", "-", "1", ".", "=", "@", ";", "*", "\u00a0", "à"}
	places := []string{
		"account %s",
		"account A:%s\naccount B",
		"2020-01-05 t\n  %s  1 X\n  B",
		"2020-01-05 t\n  A:%s  1 X\n  B",
		"2020-01-05 t\n  A  1 %s\n  B",
		"2020-01-05 t\n  A  1%s\n  B",
		"2020-01-05 t\n  A  %s 1\n  B",
		"2020-01-05 t\n  A  %s1\n  B",
		"2020-01-05 t\n  A  1 X %s 1 Y\n  B",
		"2020-01-05 t\n  A  %s\n  B",
		"P 2020-01-05 %s 1 X",
		"P 2020-01-05 X 1 %s",
		"commodity 1.00 %s",
		"D %s 1,0",
		"2020-01-05 %s\n  A  1 X\n  B",
		"account A ; %s",
		"account A\n  ; code:%s\n  ; c",
		"commodity 1 X ; isin:%s",
		"2020-01-05 t ; %s\n  A  1 X\n  ; %s\n  B",
		"P 2020-01-05 X 1 Y\n ; %s",
		"2020-01-05%st\n  A  1 X\n  B",
		"%s",
	}
	per := seqCount(len(chars), n)
	return Family{Name: "characters", Desc: fmt.Sprintf("all texts of up to %d of %q, in %d places", n, chars, len(places)), N: per * int64(len(places)), Run: func(t *T, i int64) {
		var s string
		for _, k := range seqDecode(i%per, len(chars), n) {
			s += chars[k]
		}
		run(t, strings.ReplaceAll(places[i/per], "%s", s)+"\n")
	}}
}

var nastyAlphabet = []string{
	"commodity 1.000,00 ; c\n  ; isin:X1",
	"commodity 1,0",
	"D 1.000,000 €",
	"D",
	"D 5,5",
	"2020-01-05 a\n  A  5\n  B",
	"2020-01-05 b\n  A  0,123\n  B  = -5",
	"2020-01-05 c\n  A  1234,5\n  B  -1 € = -1 €\n  C",
	"2020-01-05 d\n  A  0\n  B  0 €",
	"2020-01-05 e\n  A  2 @ 3 €\n  B",
	"2020-01-05 f\n  A  2 € @@ 3\n  B",
	"P 2020-01-05 € 1,5",
	"P 2020-01-05 $ 1.5 €",
	"account X  Y:z ;\n  ;\n  ; w",
	"account A:B:C ; code:\n ; code",
	"2020-01-05\n ;\n  A  1,5 € ;\n ; z\n  B",
	"2020-01-06/00:00\n  A  1 € ; date:2020-01-06/00:00\n  B",
	"2020-01-06/23:59:59 x ; k:v ; w\n  A  1 € ; z:1; date:2020-01-05\n  B ; date:2020-01-07/00:00:01 ; more",
	"2020-01-06 x\n  A  -0 €\n  B",
	"2020-01-06 x\n  A  1 € = 1 €\n  A  -1 € = 0 €\n  A  = 3 €\n  B",
}

func init() {
	register(&Check{ID: "C05", Rule: "each case is a journal; non-trivial when it opens, and then it is printed, read back, compared and printed again",
		Assumptions: []string{"a source comment which is exactly \"automatic\" is not told from that of an automatic price"},
		Families: func(th bool) []Family {
			n, m := 4, 4
			if th {
				n, m = 5, 5
			}
			run := func(t *T, s string) { t.roundTrip(s) }
			return []Family{
				famPrintFormats(),
				famPrintTimes(),
				famPrintNames(),
				famPrintPrices(run),
				famPrintChars(n, run),
				famSeq("rich", "chunks of lines using every feature", "", richAlphabet, n, run),
				famSeq("nasty", "chunks with amounts without currency name, empty comments, times and tags", "", nastyAlphabet, m, run),
				famSeq("odd", "chunks with odd spaces and signs in names", "", oddAlphabet, m, run),
			}
		}})
}
