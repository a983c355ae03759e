package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cespedes/accounting"
)

// C24: sequences of operations on three balances, compared with maps.

type balModel [3]map[int]int64

type balOp struct {
	name string
	do   func(b *[3]accounting.Balance, m *balModel)
}

var balCurs = []*accounting.Currency{{Name: "X"}, {Name: "Y"}, {Name: "Z"}, {Name: "X"}, nil, {Name: "W"}}

func madd(m map[int]int64, c int, n int64) {
	m[c] += n
	if m[c] == 0 {
		delete(m, c)
	}
}

func balOps(many bool) []balOp {
	type cv struct {
		c int
		n int64
	}
	vs := []cv{{0, 1}, {0, -1}, {1, 2}, {1, -2}, {2, 3}, {2, -3}, {4, 1}, {0, 0}}
	if many {
		vs = append(vs, cv{3, 1}, cv{3, -1}, cv{5, 1})
	}
	var ops []balOp
	for i := 0; i < 2; i++ {
		i := i
		for _, v := range vs {
			v := v
			val := accounting.Value{Amount: v.n, Currency: balCurs[v.c]}
			ops = append(ops, balOp{fmt.Sprintf("b%d.Add(%d %d)", i, v.n, v.c), func(b *[3]accounting.Balance, m *balModel) {
				b[i].Add(val)
				madd(m[i], v.c, v.n)
			}})
			if v.n > 0 {
				ops = append(ops, balOp{fmt.Sprintf("b%d.Sub(%d %d)", i, v.n, v.c), func(b *[3]accounting.Balance, m *balModel) {
					b[i].Sub(val)
					madd(m[i], v.c, -v.n)
				}})
			}
		}
		for j := 0; j < 2; j++ {
			j := j
			ops = append(ops, balOp{fmt.Sprintf("b%d.AddBalance(b%d)", i, j), func(b *[3]accounting.Balance, m *balModel) {
				b[i].AddBalance(b[j])
				for c, n := range mdup(m[j]) {
					madd(m[i], c, n)
				}
			}}, balOp{fmt.Sprintf("b%d.SubBalance(b%d)", i, j), func(b *[3]accounting.Balance, m *balModel) {
				b[i].SubBalance(b[j])
				for c, n := range mdup(m[j]) {
					madd(m[i], c, -n)
				}
			}}, balOp{fmt.Sprintf("b%d=b%d.Dup()", i, j), func(b *[3]accounting.Balance, m *balModel) {
				b[i] = b[j].Dup()
				m[i] = mdup(m[j])
			}})
		}
	}
	return ops
}

func mdup(m map[int]int64) map[int]int64 {
	r := map[int]int64{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func balSame(b accounting.Balance, m map[int]int64) bool {
	if len(b) != len(m) {
		return false
	}
	seen := map[*accounting.Currency]bool{}
	for _, v := range b {
		k := -1
		for i, c := range balCurs {
			if c == v.Currency {
				k = i
			}
		}
		if k < 0 || seen[v.Currency] || v.Amount == 0 || m[k] != v.Amount {
			return false
		}
		seen[v.Currency] = true
	}
	return true
}

func famBalance(name string, depth int, many bool) Family {
	ops := balOps(many)
	starts := 7
	return Family{Name: name, Desc: fmt.Sprintf("all sequences of exactly %d of %d operations on two balances, from %d initial states; every prefix is checked", depth, len(ops), starts), N: int64(starts) * pow(len(ops), depth-1), Run: func(t *T, i int64) {
		d := &Dec{i}
		start := d.Pick(starts)
		seq := make([]int, depth)
		for k := 0; k < depth-1; k++ {
			seq[k] = d.Pick(len(ops))
		}
		for last := range ops { // the last operation is enumerated here
			seq[depth-1] = last
			var b [3]accounting.Balance
			m := balModel{{}, {}, {}}
			// initial states: the first balance already has some amounts (and room for others)
			for k := 0; k < start && k < 5; k++ {
				c := []int{0, 1, 2, 5, 3}[k]
				b[0].Add(accounting.Value{Amount: int64(k + 1), Currency: balCurs[c]})
				madd(m[0], c, int64(k+1))
			}
			if start >= 5 {
				b[1] = b[0].Dup()
				m[1] = mdup(m[0])
			}
			if start == 6 {
				b[0].Add(accounting.Value{Amount: -1, Currency: balCurs[0]})
				madd(m[0], 0, -1)
			}
			for k, o := range seq {
				ops[o].do(&b, &m)
				t.Trans(1)
				if k < depth-1 && last > 0 {
					continue // already checked
				}
				for n := 0; n < 2; n++ {
					if !balSame(b[n], m[n]) {
						var s []string
						for _, x := range seq[:k+1] {
							s = append(s, ops[x].name)
						}
						t.Failf("from initial state %d, after %s: b%d is %s and should be %v", start, strings.Join(s, "; "), n, showBal(b[n]), m[n])
					}
				}
			}
			t.Trace()
			t.Nontrivial()
			if last%8 == 0 {
				t.State(showSorted(b[0]) + showSorted(b[1]))
			}
		}
		t.Out("sequences")
		if i%1000 == 7 {
			var s []string
			for _, x := range seq {
				s = append(s, ops[x].name)
			}
			t.Sample(strings.Join(s, "; "))
		}
	}}
}

func showSorted(b accounting.Balance) string {
	var s []string
	for _, v := range b {
		s = append(s, showV(v))
	}
	sort.Strings(s)
	return "[" + strings.Join(s, ", ") + "]"
}

func init() {
	register(&Check{ID: "C24", Rule: "each case is a sequence of operations (with all the possible last ones), replayed from the start on real balances and on maps",
		Assumptions: []string{"sums fit in 64 bits"},
		Families: func(th bool) []Family {
			if th {
				return []Family{famBalance("ops3", 3, true), famBalance("ops4", 4, true), famBalance("ops5", 5, false)}
			}
			return []Family{famBalance("ops2", 2, true), famBalance("ops3", 3, true), famBalance("ops4", 4, false)}
		}})
}
