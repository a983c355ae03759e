package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/cespedes/accounting"
)

// C11: everything is the same whatever the order of iteration of maps.

type mapDev struct {
	pos int
	off uint8
}

// observe opens a source with some choices for the iterations of maps, and returns everything which can be seen.
func (t *T) observe(src string, all uint8, devs []mapDev, seed uint64) (string, int) {
	if !mapsOverlay {
		panic("the overlay of the Go runtime is needed")
	}
	for i := range mapsSeq {
		mapsSeq[i] = all
	}
	for _, d := range devs {
		if d.pos < len(mapsSeq) {
			mapsSeq[d.pos] = d.off
		}
	}
	mapsSeed = seed
	mapsPos = 0
	mapsOn = true
	defer func() { mapsOn = false }()
	o := t.OpenSource(src)
	mapsOn = false
	s := o.String() + "\n" + o.Log
	if o.L == nil {
		return s, mapsPos
	}
	see := func(name string, L *accounting.Ledger) {
		mapsOn = true
		e := export(L)
		mapsOn = false
		s += name + ":\n" + DumpL(L, full) + "\n" + e
	}
	see("opened", o.L)
	mapsOn = true
	c := o.L.Clone()
	mapsOn = false
	see("copy", c)
	mapsOn = true
	err := c.Fill()
	mapsOn = false
	s += fmt.Sprint(err)
	see("copy filled", c)
	mapsOn = true
	err = o.L.Fill()
	mapsOn = false
	s += fmt.Sprint(err)
	see("filled", o.L)
	mapsOn = true
	var b strings.Builder
	for _, x := range o.L.Currencies {
		for _, y := range o.L.Currencies {
			v, err := o.L.Convert(accounting.Value{Amount: 3 * unit, Currency: x}, day(6), y)
			fmt.Fprintln(&b, v, err)
		}
	}
	for _, a := range o.L.Accounts {
		fmt.Fprintln(&b, o.L.GetBalance(a, time.Time{}), o.L.GetBalance(a, day(6)))
		if a.ID != nil {
			for _, tx := range o.L.TransactionsInAccount(a.ID) {
				fmt.Fprintln(&b, tx.ID)
			}
		}
	}
	mapsOn = false
	return s + b.String(), mapsPos
}

func (t *T) deterministic(src string, pairs bool) {
	base, n := t.observe(src, 0, nil, 1)
	if n >= len(mapsSeq) {
		t.Failf("harness: too many iterations (%d)", n)
	}
	t.State(base)
	t.Trace()
	if n > 0 {
		t.Nontrivial()
	}
	t.Out(fmt.Sprintf("%d iterations", n))
	try := func(all uint8, devs []mapDev, seed uint64) int {
		s, m := t.observe(src, all, devs, seed)
		t.Trans(1)
		if s != base {
			t.Failf("iterations of maps from %d, %v: %s%s", all, devs, diff(base, s), t.show())
		}
		return m
	}
	// all of them in the same way
	for off := uint8(0); off < 8; off++ {
		try(off, nil, uint64(off)*0x9e3779b97f4a7c15+1)
	}
	// all the choices of one, and of two
	for i := 0; i < n; i++ {
		for a := uint8(1); a < 8; a++ {
			m := try(0, []mapDev{{i, a}}, 1)
			if !pairs {
				continue
			}
			for j := i + 1; j < m; j++ {
				for b := uint8(1); b < 8; b++ {
					try(0, []mapDev{{i, a}, {j, b}}, 1)
				}
			}
		}
		t.Tick()
	}
}

// chunks with several elements in every map
var mapAlphabet = []string{
	"account A ; a1\n ; a2\naccount A:B ; b1\naccount C ; c1",
	"commodity 1.000,00 X ; x1\n ; x2\ncommodity 1 Y ; y1",
	"P 2020-01-05 X 2 Y ; p1\nP 2020-01-05 Y 3 Z ; p2\nP 2020-01-05 Z 3 W",
	"2020-01-05 priced ; t1\n  A  1 X @ 2 Y ; s1\n  B  -1 X @ 2 Y ; s2\n ; s3",
	"2020-01-05 priced too\n  A  3 Z @@ 2 Y\n  B  -5 Y @ 1 W\n  C  3 W ; k",
	"2020-01-05 exchange ; e\n  A  3 X\n  B  -6 Y",
	"2020-01-05 exchange\n  A  -2 Y\n  B  7 Z",
	"2020-01-05 exchange\n  A  -2 X\n  B  7 W",
	"2020-01-06 asserted\n  A  = 3 X\n  C  = 4 Y",
	"2020-01-06 asserted\n  A  1 Y = 3 Y\n  E  -1 Y = -1 Y\n  F  0 Z = 0 Z",
	"2020-01-06 own\n  A  1 X ; date:2020-01-07\n  B  -1 X ; date:2020-01-04\n ; x",
	"2020-01-06 no name\n  A  5,5\n  B  -5,5\n",
	"2020-01-06 no name\n  A  5 @ 3 X\n  B  -3 X @@ 5\n",
	"D 1 X",
	"D",
	"2020-01-07 bad\n  A  1 X",
	"2020-01-07 bad\n  A  1 X = 7 X\n  B",
	"2020-01-07 deadlock\n  A\n  B  = 3 X\n2020-01-07 deadlock\n  B\n  A  = 3 X",
	"2020-01-07 deadlock\n  C  = 2 Y ; date:2020-01-02\n  D\n2020-01-07 deadlock\n  D  = 1 Y ; date:2020-01-03\n  C  ; date:2020-01-01",
}

func init() {
	db := func(acc, tx string) func(t *T) string {
		return func(t *T) string {
			t.WriteFile("db/accounts", acc)
			t.WriteFile("db/transactions", tx)
			return "txtdb:" + t.Path("db")
		}
	}
	var dbs []func(t *T) string
	dbs = append(dbs,
		db("1:x:y:A::\n2:x:y:A::\n3:x:y:A::\n4:x:y:B:z:9\n", "1:2020-01-05:t:c:1:+1:\n2:2020-01-05:t:c:2:-1:\n1:2020-01-05:t:c:3:+5:\n2:2020-01-05:t:c:4:-5:\n1:2020-01-05:t:c:1::+1\n1:2020-01-05:t:c:3::+1\n"),
		db("4:x:y:B:z:9\n9:x:y:C::4\n1:x:y:A::9\n2:x:y:B::4\n3:x:y:A::1\n", "1:2020-01-05 10.00:t:c:1:+1:\n2:2020-01-05 11.00:t:c:2:-1:\n1:2020-01-05:t:c:3:+5:\n2:2020-01-05:t:c:4:-5:\n"),
		db("1:x:y:A::2\n2:x:y:B::3\n3:x:y:C::1\n4:x:y:D::5\n5:x:y:E::4\n6:x:y:F::6\n", ""))
	var many strings.Builder
	many.WriteString("account A ; k0\n")
	for i := 0; i < 30; i++ {
		fmt.Fprintf(&many, "account N%d ; c%d\nP 2020-01-01 C%da %d Y ; p\n", i*7%30, i, i, i+1)
	}
	for i := 0; i < 30; i++ {
		fmt.Fprintf(&many, "2020-01-05 t%d ; c\n  A  %d X @ 2 Y ; s\n  B  %d Y = -%d Y\n2020-01-05 e%d\n  A  %d X\n  B  -%d Z\n", i, i+1, -2*(i+1), (i+1)*(i+2), i, 3+i, i*7%11+1)
	}
	register(&Check{ID: "C11", Rule: "each case is a data source; it is opened, printed, cloned, filled again, converted and queried with every choice of the runtime for the order of one map iteration, of every pair of them, and with all of them changed together, and everything which can be seen has to be the same",
		Assumptions: []string{"maps with up to 8 elements are iterated by the runtime from any of 8 positions; for bigger ones, several seeds and offsets are tried"},
		Families: func(th bool) []Family {
			n := 2
			if th {
				n = 3
			}
			return []Family{
				famSeq("maps", "several elements in every map", "", mapAlphabet, n, func(t *T, s string) {
					t.files = map[string]string{}
					t.Sample(s)
					t.deterministic(t.WriteFile("j", s), true)
				}),
				famSeq("mapsdeep", "several elements in every map, one change", "", mapAlphabet, n+1, func(t *T, s string) {
					t.files = map[string]string{}
					t.deterministic(t.WriteFile("j", s), false)
				}),
				famSeq("rich", "chunks of lines using every feature", "", richAlphabet, n, func(t *T, s string) {
					t.files = map[string]string{}
					t.deterministic(t.WriteFile("j", s), th)
				}),
				{Name: "txtdb", Desc: "txtdb directories with repeated names, parents in any order and cycles", N: int64(len(dbs)), Run: func(t *T, i int64) {
					t.files = map[string]string{}
					t.deterministic(dbs[i](t), true)
				}},
				{Name: "many", Desc: "a journal with tens of elements in every map, 64 seeds and offsets", N: 8, Run: func(t *T, i int64) {
					t.files = map[string]string{}
					src := t.WriteFile("j", many.String())
					base, _ := t.observe(src, 0, nil, 1)
					for k := uint8(0); k < 16; k++ {
						s, _ := t.observe(src, k*5+uint8(i), nil, uint64(k)*0x9e3779b97f4a7c15+uint64(i))
						if s != base {
							t.Failf("iterations of big maps from %d: %s%s", k, diff(base, s), t.show())
						}
						t.Trans(1)
						t.Tick()
					}
					t.Nontrivial()
					t.Trace()
				}},
			}
		}})
}
