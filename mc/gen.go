package main

import (
	"fmt"
	"sort"
	"strings"
)

// Dec decodes a case number into choices.
type Dec struct{ i int64 }

func (d *Dec) Pick(n int) int {
	k := int(d.i % int64(n))
	d.i /= int64(n)
	return k
}

func pow(a, n int) int64 {
	r := int64(1)
	for ; n > 0; n-- {
		r *= int64(a)
	}
	return r
}

// sequences of up to max elements of an alphabet of a: shortest first
func seqCount(a, max int) int64 {
	var n int64
	for k := 0; k <= max; k++ {
		n += pow(a, k)
	}
	return n
}

func seqDecode(i int64, a, max int) []int {
	for k := 0; k <= max; k++ {
		n := pow(a, k)
		if i < n {
			s := make([]int, k)
			for j := k - 1; j >= 0; j-- {
				s[j] = int(i % int64(a))
				i /= int64(a)
			}
			return s
		}
		i -= n
	}
	panic("seqDecode")
}

// Canon describes the state which a journal leads to.
func (r *Ref) Canon() string {
	var b strings.Builder
	b.WriteString(refOutcome(r))
	for _, a := range r.TreeOrder() {
		fmt.Fprintf(&b, "|%s;%s;%v", a.Name, a.Code, a.Comments)
		for _, s := range r.AcctSplits(a) {
			fmt.Fprintf(&b, ",%d:%s%s", s.Time().Unix(), showR(s.Val), showRBal(s.Balance))
		}
	}
	for _, c := range r.Curs {
		fmt.Fprintf(&b, "|%s", fmtRCur(c))
	}
	for _, p := range r.Prices {
		fmt.Fprintf(&b, "|P%d%s%s", p.Time.Unix(), p.Cur.Name, showR(&p.Val))
	}
	var bad []string
	for k := range r.Bad {
		bad = append(bad, k)
	}
	sort.Strings(bad)
	fmt.Fprint(&b, bad, len(r.Reported))
	return b.String()
}

// checkJournal opens a journal and compares it with the reference.
func (t *T) checkJournal(text string, f Facet) (*Ref, Opened) {
	p := t.Path("j")
	ref := ReadRef(map[string]string{p: text}, p)
	o := t.Journal(text)
	t.Sample(text)
	t.State(ref.Canon())
	t.Compare(ref, o, f)
	return ref, o
}

type txnOpts struct {
	name, desc string
	ntx        int
	npost      int
	accts      []string
	forms      []string
	pdates     []string // own dates ("" is none)
	txdates    []string // dates of transactions after the first one (relative order must be kept)
	head       string
	facets     Facet
	run        func(t *T, text string) // instead of comparing with the reference
}

// famTxn: all journals with ntx transactions of npost postings over small sets of accounts, amounts and dates.
func famTxn(o txnOpts) Family {
	if len(o.pdates) == 0 {
		o.pdates = []string{""}
	}
	if len(o.txdates) == 0 {
		o.txdates = []string{"2020-01-05"}
	}
	per := len(o.accts) * len(o.forms) * len(o.pdates)
	// non decreasing sequences of dates
	var dates [][]string
	var rec func(from int, cur []string)
	rec = func(from int, cur []string) {
		if len(cur) == o.ntx {
			dates = append(dates, append([]string(nil), cur...))
			return
		}
		for i := from; i < len(o.txdates); i++ {
			rec(i, append(cur, o.txdates[i]))
		}
	}
	rec(0, nil)
	n := pow(per, o.ntx*o.npost) * int64(len(dates))
	return Family{Name: o.name, Desc: o.desc, N: n, Run: func(t *T, i int64) {
		d := &Dec{i}
		var b strings.Builder
		b.WriteString(o.head)
		dd := dates[d.Pick(len(dates))]
		for k := 0; k < o.ntx; k++ {
			fmt.Fprintf(&b, "%s t%d\n", dd[k], k)
			for j := 0; j < o.npost; j++ {
				a := o.accts[d.Pick(len(o.accts))]
				f := o.forms[d.Pick(len(o.forms))]
				p := o.pdates[d.Pick(len(o.pdates))]
				b.WriteString("  " + a)
				if f != "" {
					b.WriteString("  " + f)
				}
				if p != "" {
					b.WriteString(" ; date:" + p)
				}
				b.WriteString("\n")
			}
		}
		if o.run != nil {
			o.run(t, b.String())
			return
		}
		t.checkJournal(b.String(), o.facets)
	}}
}

// famSeq: all sequences of up to max chunks of lines.
func famSeq(name, desc, head string, alphabet []string, max int, run func(t *T, text string)) Family {
	return Family{Name: name, Desc: fmt.Sprintf("%s: all sequences of up to %d of %d chunks", desc, max, len(alphabet)), N: seqCount(len(alphabet), max), Run: func(t *T, i int64) {
		var b strings.Builder
		b.WriteString(head)
		for _, k := range seqDecode(i, len(alphabet), max) {
			b.WriteString(alphabet[k])
			b.WriteByte('\n')
		}
		run(t, b.String())
	}}
}
