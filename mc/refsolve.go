package main

// Reference evaluation of a journal already read: empty amounts, balances,
// assertions and automatic prices, by plain iteration to a fixpoint.

import (
	"math"
	"math/big"
	"sort"
)

type rbal map[*RCur]int64

func (b rbal) add(c *RCur, n int64, over *bool) {
	x := b[c]
	y := x + n
	if (n > 0 && y < x) || (n < 0 && y > x) || y == math.MinInt64 {
		*over = true
	}
	if y == 0 {
		delete(b, c)
		return
	}
	b[c] = y
}

func (b rbal) dup() rbal {
	r := rbal{}
	for k, v := range b {
		r[k] = v
	}
	return r
}

// AcctSplits returns the postings of an account in chronological order.
func (r *Ref) AcctSplits(a *RAcct) []*RSplit {
	var ss []*RSplit
	for _, t := range r.Txns {
		for _, s := range t.Splits {
			if s.Acct == a {
				ss = append(ss, s)
			}
		}
	}
	// stable insertion sort
	for i := 1; i < len(ss); i++ {
		for j := i; j > 0 && ss[j].Time().Before(ss[j-1].Time()); j-- {
			ss[j], ss[j-1] = ss[j-1], ss[j]
		}
	}
	return ss
}

func (r *Ref) Solve() {
	byAcct := map[*RAcct][]*RSplit{}
	for _, a := range r.Accts {
		byAcct[a] = r.AcctSplits(a)
	}
	weigh := func(t *RTxn) (rbal, []*RSplit) {
		b := rbal{}
		var unknown []*RSplit
		for _, s := range t.Splits {
			if !s.known {
				unknown = append(unknown, s)
				continue
			}
			if s.Price != nil {
				b.add(s.Price.Cur, s.Price.Amt, &r.Overflow)
			} else if s.Val.Cur != nil {
				b.add(s.Val.Cur, s.Val.Amt, &r.Overflow)
			}
		}
		return b, unknown
	}
	for again := true; again; {
		again = false
		for _, t := range r.Txns {
			b, unknown := weigh(t)
			if len(unknown) != 1 || unknown[0].Assert != nil {
				continue
			}
			s := unknown[0]
			switch len(b) {
			case 0:
				s.Val, s.known, again = &RVal{0, &RCur{None: true}}, true, true
			case 1:
				for c, n := range b {
					s.Val, s.known, again = &RVal{-n, c}, true, true
				}
			}
		}
		for _, a := range r.Accts {
			b := rbal{}
			for _, s := range byAcct[a] {
				if !s.known {
					if s.Assert == nil {
						break
					}
					d := rbal{s.Assert.Cur: s.Assert.Amt}
					d.add(s.Assert.Cur, -b[s.Assert.Cur], &r.Overflow)
					s.Val = &RVal{d[s.Assert.Cur], s.Assert.Cur}
					s.known, again = true, true
				}
				b.add(s.Val.Cur, s.Val.Amt, &r.Overflow)
			}
		}
	}
	for _, t := range r.Txns {
		b, unknown := weigh(t)
		plainUnknown := 0
		hadEmpty := false
		for _, s := range t.Splits {
			if !s.known {
				if s.Assert == nil {
					plainUnknown++
				}
			}
			if s.Val != nil && s.Val.Cur.None {
				hadEmpty = true
			}
		}
		_ = hadEmpty
		if len(unknown) > 0 {
			r.Unsolved = true
			r.Bad[t.Pos.String()] = true
			continue
		}
		if len(b) == 0 {
			continue
		}
		if len(b) == 2 {
			var signs []bool
			for _, n := range b {
				signs = append(signs, n > 0)
			}
			if signs[0] != signs[1] {
				r.exchange(t, b)
				continue
			}
		}
		r.Bad[t.Pos.String()] = true
	}
	// the transfer account
	moved := rbal{}
	for _, t := range r.Txns {
		for _, s := range t.Splits {
			if s.known && !s.Time().Equal(t.Time) {
				n := s.Val.Amt
				if n < 0 {
					n = -n
				}
				moved.add(s.Val.Cur, n, &r.Overflow) // the order does not matter
			}
		}
	}
	for _, a := range r.Accts {
		b := rbal{}
		for _, s := range byAcct[a] {
			if !s.known {
				break // from here on nothing can be said
			}
			b.add(s.Val.Cur, s.Val.Amt, &r.Overflow)
			s.Balance = b.dup()
			if s.Assert != nil && b[s.Assert.Cur] != s.Assert.Amt {
				r.Bad[s.Pos.String()] = true
			}
		}
	}
	for _, t := range r.Txns {
		for _, s := range t.Splits {
			if s.Price != nil && s.known && s.Val.Amt != 0 && s.Price.Amt != 0 {
				v, p := big.NewInt(s.Val.Amt), big.NewInt(s.Price.Amt)
				r.Auto = append(r.Auto, autoPrice{s.Time(), s.Val.Cur, s.Price.Cur, p, v}, autoPrice{s.Time(), s.Price.Cur, s.Val.Cur, v, p})
			}
		}
	}
	sort.SliceStable(r.Auto, func(i, j int) bool { return r.Auto[i].Time.Before(r.Auto[j].Time) })
}

func (r *Ref) exchange(t *RTxn, b rbal) {
	var cs []*RCur
	for c := range b {
		cs = append(cs, c)
	}
	x, y := big.NewInt(b[cs[0]]), big.NewInt(b[cs[1]])
	nx, ny := new(big.Int).Neg(x), new(big.Int).Neg(y)
	r.Auto = append(r.Auto, autoPrice{t.Time, cs[0], cs[1], ny, x}, autoPrice{t.Time, cs[1], cs[0], nx, y})
}

// OK tells whether the journal must open.
func (r *Ref) OK() bool {
	return r.Fatal == nil && r.NoOpen == "" && len(r.Bad) == 0
}
