package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/cespedes/accounting"
)

// C14, C22, C25, C26: sequences of lines, compared with the reference.

const linesFacets = FOutcome | FErrPos | FAccounts | FCurrency | FTxns | FAmounts | FOwnTimes | FMembers | FPrices | FComments | FReports | FIDs | FLinks

var lineAlphabet = []string{
	// right
	"account A ; ac",
	"account A:B",
	"commodity 1.00 X",
	"commodity 1,0 Y ; cc",
	"D 1 Y",
	"D",
	"P 2020-01-05 X 2 Y",
	"P 2020-01-06/10:00 Z 2 X ; pc",
	"2020-01-05 t",
	"2020-01-06 u ; tc",
	"  A  1 X ; sc",
	"  B",
	"\tB:C  = 1 X",
	"  A  -2 X @ 3 Y ; date:2020-01-04",
	"  N  5",
	"include inc",
	"",
	"   ",
	"; c",
	"* c",
	"  ; ic",
	"\t# ic2",
	// wrong
	"garbage",
	"P 2020-13-05 X 2 Y",
	"P 2020-01-05 W",
	"P 2020-01-05 W 1..2 V",
	"P 2020-01-05",
	"P",
	"commodity",
	"commodity W",
	"D W",
	"D 1.2.3 W",
	"2020-02-30 t",
	"20200105 t",
	"  Q:R  1..2 X ; lost",
	"  Q  1 W @ ; lost",
	"  A  1 X =",
	"  Q  @ 1 W",
	"  A  1 X = 1,2,3 W",
	"include nofile",
	"  ; date:2020-13-01",
	// ending the program
	"P 2020-01-05/11:59:59 X 2 Y",
	"2020-01-05/09:00 v",
	"P 2020-01-04 X 2 Y",
	"2020-01-04 t",
}

// files for including
var incFiles = map[string]string{"inc": "account I ; from inc\n  ; ic3\nP 2020-01-05 I 1 Y\n\nwrong\n"}

func (t *T) lines(text string, f Facet) {
	p := t.Path("j")
	files := map[string]string{p: text}
	for n, s := range incFiles {
		files[t.Path(n)] = s
		t.WriteFile(n, s)
	}
	ref := ReadRef(files, p)
	t.files = map[string]string{}
	t.WriteFile("j", text)
	o := t.OpenSource(p)
	t.Sample(text)
	t.State(ref.Canon())
	t.Compare(ref, o, f)
}

// famTokens: all the lines made of up to n tokens, in a context
func famTokens(name, before, after string, tokens []string, n int, f Facet) Family {
	return Family{Name: name, Desc: fmt.Sprintf("all lines of up to %d of the tokens %q after %q", n, tokens, before), N: seqCount(len(tokens), n), Run: func(t *T, i int64) {
		var b strings.Builder
		b.WriteString(before)
		for _, k := range seqDecode(i, len(tokens), n) {
			b.WriteString(tokens[k])
		}
		b.WriteString(after)
		t.checkJournal(b.String(), f)
	}}
}

func lineTokens(f Facet, th bool) []Family {
	k := 0
	if th {
		k = 1
	}
	return []Family{
		famTokens("posting", "account A\ncommodity 1.0 X\n2020-01-05 t\n  ", "\n  ; k\n  Z  1 Q\n  Z  -1 Q\n", []string{"A", "B:C", " ", "  ", "1", "-2", "X", "@", "@@", "=", ";", "c", "1,5"}, 5+k, f),
		famTokens("posting2", "account A\ncommodity 1.0 X\n2020-01-05 t\n  A  ", "\n  ; k\n  Z  1 Q\n  Z  -1 Q\n", []string{"1 X", " ", "  ", "-2 Y", "@", "=", ";date:2020-01-04", "3", "c", "$"}, 5+k, f),
		famTokens("price", "commodity 1.0 X\n2020-01-05 t\n", "\n  ; k\nP 2020-02-01 R 1.5 S\n", []string{"P", " ", "2020-01-05", "2020-01-32", "X", "Y", "1", "2.5", ";", "c", "/10:30", "-x"}, 6+k, f),
		famTokens("directive", "account A\nP 2019-01-01 X 1 V\n2020-01-05 t\n", "\n  ; k\nP 2020-02-01 R 1.5 X\n", []string{"account", "commodity", "D", " ", "A", ":", "B", "1", "2.5", "X", ";", "c", "isin:", "code:"}, 5+k, f),
		famTokens("header", "account A\n2020-01-05 t\n  A  1 X\n  B\n", "\n  ; k\n  A  1 Q\n  A  -1 Q\n", []string{"2020-01-05", "2020-01-06", "/", "10", ":30", " ", "t", ";", "c", "date:", "2019-01-01"}, 5+k, f),
	}
}

// ---- C22: trees of accounts

var treeAlphabet = []string{
	"account A", "account A:B", "account A:B:C", "account A:C", "account B", "account B:A:A:A", "account A B:C d", "account B:B",
	"2020-01-05 t\n  A:B  1 X\n  B:A",
	"2020-01-05 t\n  A:B:C:D  1 X\n  C",
	"2020-01-05 t\n  B  1 X ; date:2020-01-04\n  A:C:A",
	"2020-01-05 t\n  Z:Y:X:W:V:U:T  1 X\n  A",
	"2020-01-05 t\n  AB  1 X\n  A-B:B",
}

func (t *T) tree(text string) {
	ref, o := t.checkJournal(text, FOutcome|FAccounts|FTree)
	_ = ref
	if o.L == nil {
		return
	}
	// the same after recalculating and in a copy
	L := o.L
	for k := 0; k < 3; k++ {
		c := &cmp{t: t, ref: ref, L: L, f: FAccounts | FTree}
		if s := c.run(); s != "" {
			t.Failf("%s (step %d)%s", s, k, t.show())
		}
		if s := sortedAccounts(L); s != "" {
			t.Failf("%s (step %d)%s", s, k, t.show())
		}
		if k == 0 {
			if err := L.Fill(); err != nil {
				t.Failf("recalculating fails: %v%s", err, t.show())
			}
		} else {
			L = L.Clone()
		}
	}
}

var hourOfOneDigit = regexp.MustCompile(`^2020-01-05[-/._:][0-9]($|[^0-9])`)

func init() {
	register(&Check{ID: "C14", Rule: "each case is a sequence of lines, or a line made of tokens in a context; it is compared with the reference interpreter, with the lines reported in the log",
		Assumptions: []string{"a note about an undefined account or currency may go with a line which is applied", "a wrong own date is reported with the position of its posting, and dropped"},
		Families: func(th bool) []Family {
			n := 3
			if th {
				n = 4
			}
			run := func(t *T, s string) { t.lines(s, linesFacets) }
			head := "account Base\n2020-01-01 first\n  Base  1 X\n  Base  -1 X\n"
			fs := []Family{
				famSeq("lines", "right and wrong lines of every kind", "", lineAlphabet, n, run),
				famSeq("inside", "lines inside a transaction", head, lineAlphabet, n-1, run),
				famSeq("far", "the same lines after many others", strings.Repeat("; nothing\n\n  \n", 75)+"account Base\n"+strings.Repeat("\n", 40), lineAlphabet, n-1, run),
				famSeq("odd", "chunks with odd spaces and signs in names", "", oddAlphabet, n, run),
				famPrintChars(n, func(t *T, s string) {
					if hourOfOneDigit.MatchString(s) {
						t.Skip("an hour of one digit may be accepted or refused")
						return
					}
					run(t, s)
				}),
				famLayout(linesFacets),
				famSeq("context", "wrong lines and what goes after them", "", []string{"account A", "commodity 1.00 X", "P 2020-01-05 X 2 Y", "2020-01-05 t", "  A  1 X", "  B", "  ; ic", "garbage", "P 2020-01-05 W 1..2 V", "  Q:R  1..2 W ; lost", "commodity W", "  A  2 X = 2 V"}, n+2, run),
			}
			return append(fs, lineTokens(linesFacets, th)...)
		}})
	register(&Check{ID: "C22", Rule: "each case is a sequence of account names in directives and postings; the tree is compared with the reference and checked again after recalculating and cloning",
		Families: func(th bool) []Family {
			n := 4
			if th {
				n = 5
			}
			names := []string{"A", "B", "A:A", "A:B", "B:A", "A:A:A", "A:B:A", "B:A:B", "A:A:A:A", "A B"}
			odd := []string{"A", ":A", "A:", ":", "::A", "A::B", "A:A", ":B"}
			spaces := []string{"A", "A :B", "A:B", "A: B", "A\t:B", "A : B:C", "A :B :C", "A B"}
			m := 5
			if th {
				m = 6
			}
			alike := []string{"A:b", "A:B", "a", "a:B", "Á:b", "A:b b", "A:bb", "A:B:b", "A.b"}
			deep := []string{"A:B:C:D:E:F", "A:B:C:D:E:F:G:H:I:J:K:L", "A:B", "A:B:C:D:E:F:G", "A", "B:C:D:E:F:G:H", "A:C:D:E:F:G", "A:B:C:X:Y:Z:W:V"}
			fam := func(name string, names []string, max int, kind int) Family {
				return Family{Name: name, Desc: fmt.Sprintf("all sequences of up to %d of the names %q (%s)", max, names, []string{"in postings", "in directives", "alternating"}[kind]), N: seqCount(len(names), max), Run: func(t *T, i int64) {
					var b strings.Builder
					used := map[string]bool{}
					for k, x := range seqDecode(i, len(names), max) {
						if kind == 1 || kind == 2 && k%2 == 0 {
							if used[names[x]] {
								t.Skip("account twice")
								return
							}
							fmt.Fprintf(&b, "account %s\n", names[x])
						} else {
							fmt.Fprintf(&b, "2020-01-05 t\n  %s  1 X\n  %s  -1 X\n", names[x], names[x])
						}
						for p := names[x]; ; {
							used[p] = true
							j := strings.LastIndexByte(p, ':')
							if j < 0 {
								break
							}
							p = p[:j]
						}
					}
					t.tree(b.String())
				}}
			}
			return []Family{
				famSeq("accounts", "directives and transactions", "", treeAlphabet, n, func(t *T, s string) { t.tree(s) }),
				fam("postings", names, m, 0),
				fam("directives", names, m, 1),
				fam("both", names, m, 2),
				fam("deep", deep, m-1, 0),
				fam("deepdirectives", deep, m-1, 1),
				// names which are empty
				fam("odd", odd, m-1, 0),
				fam("odddirectives", odd, m-1, 1),
				fam("spaces", spaces, m-1, 0),
				fam("spacesdirectives", spaces, m-1, 1),
				fam("spacesboth", spaces, m-1, 2),
				// names which are alike, and still different
				fam("alike", alike, m-1, 0),
				fam("alikedirectives", alike, m-1, 1),
				fam("alikeboth", alike, m-1, 2),
			}
		}})
	register(&Check{ID: "C25", Rule: "each case is a journal; prices from lines and automatic prices are compared with the reference, one by one",
		Assumptions: append([]string{"rates which do not fit in an amount are left out"}, amountsAssumption...),
		Families: func(th bool) []Family {
			f := FPrices | FAuto | FComments | FOutcome
			D := []string{"2020-01-05", "2020-01-06"}
			n := 5
			if th {
				n = 6
			}
			fs := []Family{
				famTxn(txnOpts{name: "one2", desc: "one transaction, two postings, with price lines", ntx: 1, npost: 2, facets: f,
					head:   "P 2020-01-04 X 2 Y\nP 2020-01-05 X 3 Y ; c\nP 2020-01-06 Y 0.5 X\n",
					accts:  []string{"A", "B"},
					forms:  []string{"", "1 X", "-1 X", "3 X", "-7 X", "0.00000003 X", "2 Y", "-2 Y", "-0.00000007 Y", "5", "1 X @ 2 Y", "-1 X @ 2 Y", "3 X @@ 1 Y", "-3 X @@ 1 Y", "0 X @@ 2 Y", "2 X @@ 0 Y", "7 X @ 0 Y", "-3 X @@ -1 Y", "3 X @@ -1 Y", "1 X @ -2 Y", "= 3 X", "= 2 X", "1 X @ 1 X", "0.3333 X @ 0.333333 Y"},
					pdates: []string{"", "2020-01-04", "2020-01-06"}}),
				famTxn(txnOpts{name: "large", desc: "one transaction, two postings of large amounts", ntx: 1, npost: 2, facets: f,
					accts:  []string{"A", "B"},
					forms:  []string{"", "3000 X", "-3000 X", "70000.00000001 X", "-90000000 X", "5000 Y", "-5000 Y", "-12345678.87654321 Y", "99999999 Y", "3000 X @@ 5000 Y", "-3000 X @@ 5000 Y", "-7000 Y @@ 123456 X", "3000 X @ 1.66666667 Y", "0.0001 X", "-0.0003 Y", "1000000000 Z", "-2000000001 Z"},
					pdates: []string{"", "2020-01-04"}}),
				famTxn(txnOpts{name: "one3", desc: "one transaction, three postings", ntx: 1, npost: 3, facets: f,
					accts:  []string{"A"},
					forms:  []string{"", "1 X", "-2 X", "1 Y", "-3 Y", "1 X @ 2 Y", "-1 Z @@ 2 Y", "1 Z", "= 3 X", "6000 X", "-10000 Y"},
					pdates: []string{"", "2020-01-04"}}),
				famTxn(txnOpts{name: "two2", desc: "two transactions of two postings", ntx: 2, npost: 2, facets: f,
					accts:  []string{"A"},
					forms:  []string{"", "1 X", "-2 Y", "= 1 X", "1 X @ 2 Y", "-1 X @@ 2 Y"},
					pdates: []string{"", "2020-01-04"}, txdates: D}),
				famSeq("lines", "price lines and transactions", "", []string{"P 2020-01-05 X 2 Y", "P 2020-01-05 X 3 Y ; automatic", "P 2020-01-06 Y 0.5 X ; c", "P 2020-01-07/10:30:20 Z 123.45678901 X", "2020-01-05 e\n  A  3 X\n  B  -7 Y", "2020-01-06 e\n  A  -3 X\n  B  7 Y", "2020-01-06 s\n  A  -3 X @ 2 Y ; date:2020-01-08\n  B", "2020-01-07 s\n  A  2 Z @@ 3 Y\n  B  -3 Y", "  ; c", "2020-01-07 n\n  A  5\n  B  -1 X"}, n, func(t *T, s string) { t.checkJournal(s, f) }),
				famPrintPrices(func(t *T, s string) { t.checkJournal(s, f) }),
				famSeq("rich", "chunks of lines using every feature", "", richAlphabet, n-2, func(t *T, s string) { t.checkJournal(s, f) }),
			}
			if th {
				fs = append(fs, famTxn(txnOpts{name: "three2", desc: "three transactions of two postings", ntx: 3, npost: 2, facets: f,
					accts: []string{"A"},
					forms: []string{"", "1 X", "-2 Y", "= 1 X", "1 X @ 2 Y", "-1 X @@ 2 Y"}, txdates: D}))
			}
			return fs
		}})
	register(&Check{ID: "C26", Rule: "each case is a sequence of items and comment lines; comments, codes, ISINs and own dates are compared with the reference",
		Assumptions: []string{"a tag is the first run of lower case letters followed by a colon", "an own date which is not a date is reported and dropped", "a comment without text is not a comment"},
		Families: func(th bool) []Family {
			f := FComments | FOwnTimes | FAccounts | FCurrency | FTxns
			items := []string{"account A ; i1", "account B", "commodity 1 X ; i2", "commodity 1 Y", "P 2020-01-05 X 2 Y ; i3", "P 2020-01-05 X 3 Y", "2020-01-05 t ; i4", "  A  1 X ; i5", "  B  -1 X", "; g", "", "garbage", "include nofile", "D 1 X", "  C  1..2 X", "  ; c1", "\t# c2 c3", "  * code: 77", "  ; date:2020-01-04", " ;isin:ES1", "  ;  key:v w ; x  ", "include inc"}
			cs := []string{"c", "code:7", "isin:9", "date:2020-01-04", "date:2020-01-04/10:30", "x date:2020-01-03", "key:value", "date:2020-02-31", "Code:7", "code 7", "code:a b", "http://x", "c ; date:2020-01-02", "date: 2020-01-02", "isin: ES 9", "code:  7 x", "ab:date:2020-01-02", "update:2020-01-02", "ÑISIN:1", "código:9", ":x", "code:"}
			items2 := []string{"account A", "commodity 1 X", "P 2020-01-05 X 2 Y", "2020-01-05 t", "2020-01-05 t\n  A  1 X", "commodity 5", "D 1 Y"}
			n := 4
			if th {
				n = 5
			}
			return []Family{
				famSeq("items", "items, comment lines and other lines", "", items, n, func(t *T, s string) { t.lines(s, f) }),
				famSeq("intx", "the same lines inside a transaction", "2020-01-05 t\n  Q  3 X\n  Q  -3 X\n", items, n-1, func(t *T, s string) { t.lines(s, f) }),
				{Name: "tags", Desc: fmt.Sprintf("%d kinds of item x three of %d comments, the first one in the same line or not", len(items2), len(cs)), N: int64(2 * len(items2) * len(cs) * len(cs) * len(cs)), Run: func(t *T, i int64) {
					d := &Dec{i}
					it, a, b, c := items2[d.Pick(len(items2))], cs[d.Pick(len(cs))], cs[d.Pick(len(cs))], cs[d.Pick(len(cs))]
					sep := " ; "
					if d.Pick(2) == 1 {
						sep = "\n  ; "
					}
					tail := ""
					if strings.HasPrefix(it, "2020") {
						tail = "  A  5 X ; end\n  A  -5 X\n"
						if strings.Contains(it, "\n") {
							tail = "  A  -1 X\n"
						}
					}
					t.lines(it+sep+a+"\n\t; "+b+"\n  #"+c+"\n"+tail, f)
				}},
				famPrintChars(3, func(t *T, s string) {
					if hourOfOneDigit.MatchString(s) {
						t.Skip("an hour of one digit may be accepted or refused")
						return
					}
					t.checkJournal(s, f)
				}),
				famSeq("rich", "chunks of lines using every feature", "", richAlphabet, n, func(t *T, s string) { t.checkJournal(s, f) }),
			}
		}})
}

// sortedAccounts: SortAccounts orders by full name and loses nothing
func sortedAccounts(L *accounting.Ledger) string {
	in := append([]*accounting.Account(nil), L.Accounts...)
	for k := 0; k < 2; k++ {
		res := accounting.SortAccounts(append([]*accounting.Account(nil), in...))
		if len(res) != len(in) {
			return "SortAccounts returns another number of accounts"
		}
		seen := map[*accounting.Account]bool{}
		for i, a := range res {
			seen[a] = true
			if i > 0 && fullName(res[i-1]) > fullName(a) {
				return fmt.Sprintf("SortAccounts gives %q before %q", fullName(res[i-1]), fullName(a))
			}
		}
		if len(seen) != len(in) {
			return "SortAccounts repeats accounts"
		}
		for i, j := 0, len(in)-1; i < j; i, j = i+1, j-1 {
			in[i], in[j] = in[j], in[i]
		}
	}
	return ""
}

// famLayout: one journal with all its lines, written with different spaces and ends of line
func famLayout(f Facet) Family {
	indents := []string{" ", "  ", "\t", "      ", " \t", "\t\t"}
	seps := []string{"  ", "   ", "  \t", " \t ", "\t", "          "}
	gaps := []string{" ", "  ", "   ", "\t"}
	ends := []string{"", " ", "\t", "\r", " \t\r", " ; c", ";c", " ;", "  ;  c d  "}
	between := []string{"", "\n", "  \n", "\t\r\n", "; c\n", "\n\n"}
	opts := []string{"", " ", "  "} // around @ and =
	const text = "commodityG1.00GXE|accountGA:B cE|I; code:7E|DG1.00GXE|PG2020-01-04GYG2GXE|I;  q : rE|includeGincE|2020-01-05/10:30Gdesc of  itE|I;tE|IA:B cS1GXO@@O2GYE|I; date:2020-01-04E|IBS-1GXO=O-1GXE|IC:D:ES-2GYE|2020-01-06GzE|IBS2GXE|ICE|commodityG1GZE|I; isin:5E"
	lines := strings.Split(text, "|")
	return Family{Name: "layout", Desc: fmt.Sprintf("the journal %q with indents (I) %q, separators (S) %q, spaces between words (G) %q and around signs (O) %q, ends of line (E) %q, and %q between lines, with or without a newline at the end", text, indents, seps, gaps, opts, ends, between), N: int64(len(indents) * len(seps) * len(gaps) * len(opts) * len(ends) * len(between) * 2), Run: func(t *T, i int64) {
		d := &Dec{i}
		in, s, g, o, e, b := indents[d.Pick(len(indents))], seps[d.Pick(len(seps))], gaps[d.Pick(len(gaps))], opts[d.Pick(len(opts))], ends[d.Pick(len(ends))], between[d.Pick(len(between))]
		last := d.Pick(2) == 1
		r := strings.NewReplacer("G", g, "O", o)
		var w strings.Builder
		for k, l := range lines {
			end := strings.HasSuffix(l, "E")
			l = strings.TrimSuffix(l, "E")
			if strings.HasPrefix(l, "I") {
				l = in + l[1:]
			}
			if k := strings.Index(l, "S"); k >= 0 {
				l = l[:k] + s + l[k+1:]
			}
			w.WriteString(r.Replace(l))
			if end {
				w.WriteString(e)
			}
			if k < len(lines)-1 || last {
				w.WriteString("\n")
			}
			if k < len(lines)-1 {
				w.WriteString(b)
			}
		}
		t.lines(w.String(), f)
	}}
}
