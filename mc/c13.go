package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/backend/ledger"
)

// C13: no journal can crash or hang the program.

// open13 opens a journal and does everything with the ledger, if there is one.
// Panics, deaths and hangs are noticed by the engine.
func (t *T) open13(text string, heavy bool) Opened {
	t.files = map[string]string{}
	return t.used13(t.OpenSource(t.WriteFile("j", text)), heavy)
}

func (t *T) used13(o Opened, heavy bool) Opened {
	t.Trans(1)
	if o.Fatal != "" && !strings.Contains(o.Fatal, t.dir) {
		t.Failf("the program ends with %q, which names no file%s", o.Fatal, t.show())
	}
	if o.Err != nil && o.L != nil {
		t.Failf("both a ledger and an error%s", t.show())
	}
	if o.L == nil {
		t.Out(o.Outcome())
		t.StateHash(hash13(normal13(o.String(), t.dir)))
		return o
	}
	t.Nontrivial()
	t.Out("ok")
	t.Captured(func() { t.use13(o.L, heavy) })
	return o
}

func normal13(s, dir string) string { return strings.ReplaceAll(s, dir, "") }

func hash13(s string) uint64 {
	var h uint64 = 14695981039346656037
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (t *T) use13(L *accounting.Ledger, heavy bool) {
	text := export(L)
	t.StateHash(hash13(text))
	whens := []time.Time{{}, time.Date(2020, 1, 5, 12, 0, 0, 0, time.UTC), time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)}
	query := func(L *accounting.Ledger) {
		curs := append([]*accounting.Currency(nil), L.Currencies...)
		if len(curs) > 6 {
			curs = curs[:6]
		}
		curs = append(curs, L.DefaultCurrency)
		for _, a := range L.Accounts {
			a.FullName()
			if a.ID != nil {
				_ = a.ID.String()
				if heavy {
					L.Account(a.ID)
					L.TransactionsInAccount(a.ID)
				}
			}
			for _, w := range whens {
				b := L.GetBalance(a, w)
				_ = b.String()
				_ = b.Dup()
				if heavy {
					for _, v := range b {
						for _, c := range curs {
							L.Convert(v, w, c)
						}
					}
				}
			}
			for _, s := range a.Splits {
				_ = s.Value.String() + s.Value.FullString() + s.Value.GetString(false, false) + s.Balance.String()
			}
		}
		for _, x := range L.Transactions {
			for _, s := range x.Splits {
				_ = s.Value.String() + s.Balance.String()
			}
			if x.ID != nil {
				_ = x.ID.String()
			}
		}
		for _, p := range L.Prices {
			_ = p.Value.FullString()
		}
		for _, c := range curs {
			for _, d := range curs {
				for _, w := range whens {
					L.Convert(accounting.Value{Amount: 3 * accounting.U, Currency: c}, w, d)
				}
			}
		}
		L.TransactionsInInterval(whens[1], whens[3])
		accounting.SortAccounts(append([]*accounting.Account(nil), L.Accounts...))
	}
	query(L)
	C := L.Clone()
	query(C)
	ledger.Export(ioutil.Discard, C)
	for k := 0; k < 2; k++ {
		L.Fill()
		ledger.Export(ioutil.Discard, L)
		query(L)
		C.Fill()
		ledger.Export(ioutil.Discard, C)
		C = C.Clone()
	}
	query(C)
	L.Refresh()
	L.Flush()
	C.Close()
	L.Close()
}

var nastyLines = []string{
	"include j", "include ./j", "include .", "include", "include /", "include ../" + "nosuch/j", "include \x00",
	"account", "account ", "account :", "account ::", "account A:", "account :A", "account A::B", "account Transfer", "account  A", "account A  B",
	"  :  1 X", "  ::  1 X", "  Transfer  1 X", "  A  1 X @", "  A  @@ 1 X", "  A  1 X @@@ 1 X", "  A  1 X @ 1 X @ 1 X", "  A  = = 1 X", "  A  1 X = 1 X @ 1 X", "  A  =", "  A  1 X @@ = 1 X", "  A  @", "  A  1 X @=", "  A  =@ 1 X", "  A  1 X = 1 X = 1 X", "  A  0 X @ 0 X", "  A  0 X @@ 1 Y", "  A  1 X @@ 0 X", "  =  1 X", "  @", "  A   ", "  A  \t", " A\t1 X", "  A  - X", "  A  -", "  A  +", "  A  +-1 X", "  A  X", "  A  X -", "  A  X1X1", "  A  1X1X",
	"  A  92233720368.54775807 X", "  A  92233720368.54775808 X", "  A  -92233720368.54775807 X", "  A  -92233720368.54775808 X", "  A  92233720368 X @ 92233720368 Y", "  A  0.00000001 X @ 0.00000001 Y", "  A  0.00000001 X @@ 92233720368 Y", "  A  1.000000000 X", "  A  1.000 X", "  A  1,000.000,0 X", "  A  .5 X", "  A  5. X", "  A  1'000_0 X",
	"P", "P ", "P 2020-01-05", "P 2020-01-05 X", "P 2020-01-05 X 1", "P 2020-01-05 X 1 X", "P 2020-01-05 X 0 Y", "P 2020-01-05 X -1 Y", "P 2020-01-05 Y 0 X", "P 2020-01-05 Y 92233720368 X", "P 0000-01-01 X 1 Y", "P 9999-12-31/23:59:59 X 1 Y", "P 2020-01-05  X 1 Y", "P 2020-01-05 1 X", "P 2020-01-05 X =1",
	"D", "D ", "D 1", "D X", "D 1 X", "D -", "D 1.000", "commodity", "commodity 1", "commodity X", "commodity 1.00", "commodity -", "commodity 1,000", "commodity 1 =", "commodity X1.000.000,00",
	"0000-01-01", "0001-01-01", "9999-12-31", "2020-01-05", "2020-02-30", "2020-01-05/24:00", "2020-01-05 t", "2020-01-05 t ; date:2020-01-06", "-", "--", "=", "@", "~", "~ monthly", "= expr", ":", "; ", ";", "*", "#", "  ;", "  ; :", "  ; date:", "  ; date:x", "  ; date:2020-01-01", "  ; code:", "  ; isin:", "  ; a:", "  ;;", "  A", "  B", "  A  1 X", "  A  -1 X", "  B  1 Y", "  B  -2 Y", "  A  = 1 X", "  B  = 0 X", "  A  1", "  A  -1", "  A  1 X ; date:2019-01-01", "  A  = 1 X ; date:2021-01-01",
	"\t", " ", "", "\r", "  A  1 X\r", "2020-01-05\r", "\x00", "\xff", "  \xff  1 \xff", "  ñ  1 €", "  A  €1", "  A  1€ @ €1", "\xe2\x82", "  A  1\xe2\x82", "  A  \xe2\x821", " A", "　A　1 X", "\u2028", "\ufeffaccount A",
}

func famBytes13(name, alphabet string, before, after string, n int) Family {
	var tok []string
	for i := 0; i < len(alphabet); i++ {
		tok = append(tok, alphabet[i:i+1])
	}
	return Family{Name: name, Desc: fmt.Sprintf("all strings of up to %d of the bytes %q, after %q and before %q", n, alphabet, before, after), N: seqCount(len(tok), n), Run: func(t *T, i int64) {
		var b strings.Builder
		b.WriteString(before)
		for _, k := range seqDecode(i, len(tok), n) {
			b.WriteString(tok[k])
		}
		b.WriteString(after)
		t.Sample(b.String())
		t.open13(b.String(), true)
	}}
}

const edited13 = "account A:B ; code:7\n\t; isin:x\ncommodity 1.000,00 €\nD $1,000.00\nP 2020-01-05 X 1,5 € ; q\ninclude nofile\n2020-01-05/10:30 t ; c\n  A:B  1,50 € @ 2 X = 3 € ; date:2020-01-04\n  C  -3 X\n  D\n  ; k\n2020-01-06 u\n  A  = 2 Y\n  B  -2 Y @@ 1 Z\n  Z  1 Z\n"

func replace13(s string, at, kind int, c byte) string {
	switch kind {
	case 0: // replace
		if at == len(s) {
			return s + string([]byte{c})
		}
		return s[:at] + string([]byte{c}) + s[at+1:]
	case 1: // insert
		return s[:at] + string([]byte{c}) + s[at:]
	case 2: // delete
		if at == len(s) {
			return s
		}
		return s[:at] + s[at+1:]
	case 3: // repeat the byte many times
		return s[:at] + strings.Repeat(s[at:at+1], 300) + s[at:]
	case 4: // truncate
		return s[:at]
	}
	return s[:at] + s[at:] + s[at:] // repeat the rest
}

func famEdits13(th bool) []Family {
	n := len(edited13)
	fs := []Family{
		{Name: "edit1", Desc: "a journal using every feature with one byte replaced or inserted (any byte), removed or repeated, or truncated or repeated from any byte", N: int64(n * (256*2 + 4)), Run: func(t *T, i int64) {
			d := &Dec{i}
			at := d.Pick(n)
			k := d.Pick(256*2 + 4)
			var s string
			if k < 512 {
				s = replace13(edited13, at, k/256, byte(k%256))
			} else {
				s = replace13(edited13, at, k-510, 0)
			}
			t.open13(s, true)
		}},
	}
	chars := []byte("\n ;=1")
	if th {
		chars = []byte("\n ;:=@-.,1A/")
	}
	m := len(chars)*2 + 1 // replace, insert, delete
	edit := func(s string, at, k int) string {
		if k < 2*len(chars) {
			return replace13(s, at, k/len(chars), chars[k%len(chars)])
		}
		return replace13(s, at, 2, 0)
	}
	short := "P 2020-01-05 X 1,5 €\n2020-01-05 t\n  A:B  1,50 € @ 2 X = 3 € ; date:2020-01-04\n  C\n"
	if th {
		short = edited13
	}
	fs = append(fs, Family{Name: "edit2", Desc: fmt.Sprintf("a journal of %d bytes with two edits (replace, insert or delete) at any places, of %q", len(short), chars), N: int64(len(short)) * int64(len(short)) * int64(m*m), Run: func(t *T, i int64) {
		d := &Dec{i}
		a, b := d.Pick(len(short)), d.Pick(len(short))
		if b > a {
			return
		}
		x, y := d.Pick(m), d.Pick(m)
		s := edit(edit(short, a, x), b, y)
		t.open13(s, false)
	}})
	return fs
}

// big journals: name, generator of size n, sizes
func famBig13(th bool) Family {
	rep := strings.Repeat
	type gen struct {
		what string
		f    func(n int) string
		max  int
	}
	lines := func(f func(k int) string) func(n int) string {
		return func(n int) string {
			var b strings.Builder
			for k := 0; k < n; k++ {
				b.WriteString(f(k))
			}
			return b.String()
		}
	}
	gens := []gen{
		{"levels of an account", func(n int) string { return "account A" + rep(":A", n) + "\n" }, 400},
		{"empty levels of an account", func(n int) string { return "account " + rep(":", n) + "\n" }, 400},
		{"levels in a posting", func(n int) string {
			return "2020-01-05 t\n  A" + rep(":A", n) + "  1 X\n  A" + rep(":A", n/2) + "  -1 X\n"
		}, 400},
		{"digits", func(n int) string { return "2020-01-05 t\n  A  " + rep("9", n) + " X\n  B\n" }, 70000},
		{"zeros before", func(n int) string { return "2020-01-05 t\n  A  " + rep("0", n) + "1 X\n  B\n" }, 70000},
		{"groups", func(n int) string { return "2020-01-05 t\n  A  0" + rep(",000", n) + " X\n  B\n" }, 20000},
		{"decimals", func(n int) string { return "2020-01-05 t\n  A  0." + rep("0", n) + " X\n  B\n" }, 70000},
		{"signs", func(n int) string { return "2020-01-05 t\n  A  " + rep("-", n) + "1 X\n  B\n" }, 70000},
		{"spaces", func(n int) string { return "2020-01-05 t\n  A" + rep(" ", n) + "1 X\n  B\n" }, 70000},
		{"@", func(n int) string { return "2020-01-05 t\n  A  1 X " + rep("@", n) + " 1 Y\n  B\n" }, 70000},
		{"=", func(n int) string { return "2020-01-05 t\n  A  1 X " + rep("=", n) + " 1 Y\n  B\n" }, 70000},
		{"letters of a currency", func(n int) string { return "2020-01-05 t\n  A  1 " + rep("X", n) + "\n  B\n" }, 70000},
		{"letters of a description", func(n int) string { return "2020-01-05 " + rep("X ", n) + "\n" }, 40000},
		{"letters of a comment", func(n int) string { return "2020-01-05 t ; " + rep("x:", n) + "\n  ; " + rep(";", n) + "\n" }, 40000},
		{"blank lines", lines(func(k int) string { return "\n" }), 70000},
		{"comment lines", lines(func(k int) string { return "  ; c\n" }), 70000},
		{"comments of an account", func(n int) string { return "account A\n" + rep("  ; c\n", n) }, 2000},
		{"accounts", lines(func(k int) string { return fmt.Sprintf("account A%d\n", k) }), 1500},
		{"currencies", lines(func(k int) string {
			return fmt.Sprintf("commodity 1 C%s\n", strings.Map(func(r rune) rune { return r - '0' + 'a' }, fmt.Sprint(k)))
		}), 800},
		{"transactions", lines(func(k int) string { return "2020-01-05 t\n  A  1 X\n  B\n" }), 2000},
		{"empty transactions", lines(func(k int) string { return "2020-01-05 t\n" }), 2000},
		{"postings", func(n int) string { return "2020-01-05 t\n" + rep("  A  1 X\n", n) + "  B\n" }, 2000},
		{"own dates", func(n int) string { return "2020-01-05 t\n" + rep("  A  1 X ; date:2020-01-04\n", n) + "  B\n" }, 1000},
		{"balances waiting for each other", func(n int) string {
			var b strings.Builder
			for k := 0; k < n; k++ {
				fmt.Fprintf(&b, "2020-01-05 t\n  A%d  = 5 X\n  A%d ; date:2020-01-%02d\n", k, k+1, 4)
			}
			return b.String()
		}, 400},
		{"balances waiting backwards", func(n int) string {
			var b strings.Builder
			for k := n; k > 0; k-- {
				fmt.Fprintf(&b, "2020-01-05 t\n  A%d  = 5 X\n  A%d\n", k, k-1)
			}
			return b.String()
		}, 400},
		{"balances waiting in a circle", func(n int) string {
			var b strings.Builder
			for k := 0; k < n; k++ {
				fmt.Fprintf(&b, "2020-01-05 t\n  A%d  = 5 X ; date:2020-01-06\n  A%d ; date:2020-01-05\n", k, (k+1)%n)
			}
			return b.String()
		}, 400},
		{"prices in a chain", lines(func(k int) string { return fmt.Sprintf("P 2020-01-05 %s 2 %s\n", cur13(k), cur13(k+1)) }), 150},
		{"prices in both directions", lines(func(k int) string {
			return fmt.Sprintf("P 2020-01-05 %s 2 %s\nP 2020-01-05 %s 2 %s\n", cur13(k), cur13(k+1), cur13(k+1), cur13(k))
		}), 60},
		{"prices between all currencies of one group", func(n int) string {
			var b strings.Builder
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					fmt.Fprintf(&b, "P 2020-01-05 %s 2 %s\n", cur13(i), cur13(j))
				}
			}
			return b.String() + "commodity 1 Lonely\n2020-01-05 t\n  Q  1 Lonely\n  Q  -1 Lonely\n"
		}, 14},
		{"price lines without anything", lines(func(k int) string { return "P\n" }), 5000},
		{"include lines", lines(func(k int) string { return "include nofile\n" }), 3000},
		{"the same journal included", lines(func(k int) string { return "include j\n" }), 3000},
	}
	sizes := []int{0, 1, 2, 3, 5, 8, 13, 30, 64, 100, 300, 1000, 3000, 10000, 65520, 65535, 65536, 70000}
	if !th {
		for i := range gens {
			if gens[i].max < 10000 {
				gens[i].max = (gens[i].max*2 + 2) / 3
			}
		}
	}
	return Family{Name: "big", Desc: fmt.Sprintf("%d kinds of repetition x %d sizes", len(gens), len(sizes)), N: int64(len(gens) * len(sizes)), Run: func(t *T, i int64) {
		d := &Dec{i}
		g := gens[d.Pick(len(gens))]
		n := sizes[d.Pick(len(sizes))]
		if n > g.max {
			n = g.max
		}
		t.Sample(fmt.Sprintf("%d %s", n, g.what))
		t.open13(g.f(n), n <= 100)
	}}
}

func cur13(k int) string {
	return "C" + strings.Map(func(r rune) rune { return r - '0' + 'a' }, fmt.Sprint(k))
}

// trees of files including each other
func famInclude13(th bool) Family {
	// each of 4 files is a list of up to 2 include lines, of 4 files and some wrong names
	inc := []string{"", "include %s/j", "include %s/a", "include %s/d/b", "include j", "include a", "include b", "include d/b", "include e/c", "include ../a", "include ../../j", "include ./d/../a", "include link", "include d", "include ."}
	m := len(inc)
	n := 2
	total := pow(m, 2) * pow(m, n)
	if th {
		total *= int64(m)
	}
	return Family{Name: "includes", Desc: fmt.Sprintf("files in several directories which include each other in any way (%d include lines)", m), N: total, Run: func(t *T, i int64) {
		d := &Dec{i}
		t.files = map[string]string{}
		line := func() string {
			s := inc[d.Pick(m)]
			if strings.Contains(s, "%s") {
				return fmt.Sprintf(s, t.dir)
			}
			return s
		}
		t.WriteFile("a", "account A"+"\n"+line()+"\n")
		t.WriteFile("d/b", "  ; x\n"+line()+"\n  B  1 X\n")
		c := "2020-01-05 t\n  A  1 X\n  B\n"
		if t.thorough {
			c += line() + "\n"
		}
		t.WriteFile("d/e/c", c)
		link := t.Path("link")
		if _, err := os.Lstat(link); err != nil {
			os.Symlink("j", link)
		}
		p := t.WriteFile("j", line()+"\n"+line()+"\n2020-01-06 u\n  C  1 X\n  D\n")
		o := t.used13(t.OpenSource(p), true)
		t.Sample(t.show() + o.String())
	}}
}

func init() {
	run := func(t *T, s string) { t.open13(s, true) }
	register(&Check{ID: "C13", Rule: "each case is a text; it is opened (without panic, death nor hang) and, if that gives a ledger, it is printed, queried, converted, cloned and refilled twice, together with its clones; states are the printed ledgers and the refusals",
		Assumptions: []string{"a case which makes no progress in 90 s is a hang", "currencies have at most 8 decimals, as the reader guarantees"},
		Families: func(th bool) []Family {
			k := 0
			if th {
				k = 1
			}
			fs := []Family{
				famBytes13("bytes", "\n ;:P1-=@aD\x00\xff", "", "", 5+k),
				famBytes13("posting", "  \tA;:1-=@.,X$", "2020-01-05 t\n A", "\n B\n", 4+k),
				famBytes13("amount", "19-+.,' X@=$", "2020-01-05 t\n  A  ", "\n  B\n", 5+k),
				famSeq("lines", "wrong lines of every kind", "", append(append([]string(nil), nastyLines...), lineAlphabet...), 2, run),
				famSeq("intx", "wrong lines of every kind, in a transaction", "2020-01-05 t\n  A  1 X\n", append(append([]string(nil), nastyLines...), lineAlphabet...), 2, run),
				famSeq("rich", "chunks of lines using every feature", "", richAlphabet, 3, run),
			}
			if th {
				fs = append(fs, famSeq("lines3", "wrong lines of every kind", "", append(append([]string(nil), nastyLines...), lineAlphabet...), 3, func(t *T, s string) { t.open13(s, false) }))
			}
			fs = append(fs, famTokens13(th)...)
			fs = append(fs, famEdits13(th)...)
			fs = append(fs, famInclude13(th), famBig13(th))
			return fs
		}})
}

func famTokens13(th bool) []Family {
	n := 4
	if th {
		n = 5
	}
	ctx := [][2]string{
		{"2020-01-05 t\n  ", "\n  B  1 Y\n"},
		{"2020-01-05 t\n  A  1 X\n  A", "\n  C\n"},
		{"2020-01-05 t\n  A  1 X\n", "\n  C\n"},
		{"P ", "\n  ; c\n"},
		{"D ", "\n2020-01-05 t\n  A  1\n  B\n"},
		{"commodity ", "\n  ; isin:c\n2020-01-05 t\n  A  1 X\n  B\n"},
		{"2020-01-05 t ;", "\n  A  1 X\n  B\n"},
		{"account ", "\n  ; code:c\n"},
	}
	tokens := []string{"A", ":", " ", "  ", "1", "-", "X", "@", "=", ";", ",5", "2020-01-05", "date:"}
	var fs []Family
	for k, c := range ctx {
		c := c
		fs = append(fs, Family{Name: fmt.Sprintf("tokens%d", k), Desc: fmt.Sprintf("all lines of up to %d of the tokens %q, after %q", n, tokens, c[0]), N: seqCount(len(tokens), n), Run: func(t *T, i int64) {
			var b strings.Builder
			b.WriteString(c[0])
			for _, k := range seqDecode(i, len(tokens), n) {
				b.WriteString(tokens[k])
			}
			b.WriteString(c[1])
			t.open13(b.String(), true)
		}})
	}
	return fs
}
