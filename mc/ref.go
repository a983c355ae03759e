package main

// Reference reader of journals: a plain interpreter of the documented syntax,
// used as oracle. It works on lists of lines and keeps everything by name.

import (
	"fmt"
	"math/big"
	"path"
	"strconv"
	"strings"
	"time"
)

type RPos struct {
	File string
	Line int
}

func (p RPos) String() string { return fmt.Sprintf("%s:%d", p.File, p.Line) }

type RCur struct {
	Name            string
	Before, NoSpace bool
	T, D            string
	Prec            int
	ISIN            string
	Comments        []string
	None            bool // placeholder currency of an empty amount which turned out to be zero
}

type RVal struct {
	Amt int64
	Cur *RCur
}

type RAcct struct {
	Name     string // full name
	Code     string
	Pos      RPos
	Comments []string
	Parent   *RAcct
}

type RSplit struct {
	Acct     *RAcct
	Pos      RPos
	Txn      *RTxn
	Own      *time.Time // own date
	Val      *RVal
	Price    *RVal
	Assert   *RVal
	Comments []string

	known   bool
	Balance map[*RCur]int64
}

func (s *RSplit) Time() time.Time {
	if s.Own != nil {
		return *s.Own
	}
	return s.Txn.Time
}

type RTxn struct {
	Time     time.Time
	Desc     string
	Pos      RPos
	Splits   []*RSplit
	Comments []string
}

type RPrice struct {
	Time     time.Time
	Cur      *RCur
	Val      RVal
	Pos      RPos
	Comments []string
}

type Ref struct {
	Accts []*RAcct // in order of first appearance
	Curs  []*RCur
	Def   *RCur

	nameless *RCur

	Txns   []*RTxn
	Prices []*RPrice

	Reported map[RPos]string // lines which must be reported in the log
	MayLog   map[RPos]bool   // lines about which something may be said
	NoPos    bool            // nothing has a position
	Fatal    *RPos           // the program must end, because of this line
	NoOpen   string          // opening must fail because of the files
	Lines    int             // lines read
	Good     int             // lines applied

	// filled by Solve
	Bad      map[string]bool // positions of the wrong transactions and assertions
	Unsolved bool            // it is not possible to find some amount
	Overflow bool            // a sum does not fit: either it is refused or everything is exact (see tooBig)
	Auto     []autoPrice
}

type autoPrice struct {
	Time     time.Time
	From, To *RCur
	Num, Den *big.Int // rate
}

// readDate implements the documented date syntax.
func readDate(s string) (time.Time, bool) {
	var t time.Time
	var parts []string
	cur := ""
	for i := 0; i < len(s); i++ {
		if strings.IndexByte("-/._:", s[i]) >= 0 {
			parts = append(parts, cur)
			cur = ""
			continue
		}
		if !isDigit(s[i]) {
			return t, false
		}
		cur += s[i : i+1]
	}
	parts = append(parts, cur)
	if len(parts) < 3 || len(parts) > 6 {
		return t, false
	}
	n := make([]int, 6)
	for i, p := range parts {
		want := 2
		if i == 0 {
			want = 4
		}
		if len(p) != want {
			return t, false
		}
		n[i], _ = strconv.Atoi(p)
	}
	if len(parts) == 3 {
		n[3] = 12
	}
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if n[0]%4 == 0 && (n[0]%100 != 0 || n[0]%400 == 0) {
		days[1] = 29
	}
	if n[1] < 1 || n[1] > 12 || n[2] < 1 || n[2] > days[n[1]-1] || n[3] > 23 || n[4] > 59 || n[5] > 59 {
		return t, false
	}
	return time.Date(n[0], time.Month(n[1]), n[2], n[3], n[4], n[5], 0, time.UTC), true
}

type refReader struct {
	r     *Ref
	files map[string]string // absolute name -> text
	last  interface{}       // item which an indented comment refers to
	inTxn bool              // indented lines are postings of the last transaction
	stack []string
}

// ReadRef interprets the journal whose main file is main.
func ReadRef(files map[string]string, main string) *Ref {
	r := &Ref{Reported: map[RPos]string{}, MayLog: map[RPos]bool{}, Bad: map[string]bool{}}
	rr := &refReader{r: r, files: files}
	if _, ok := files[main]; !ok {
		r.NoOpen = "no such file"
		return r
	}
	rr.file(main)
	if r.Fatal == nil && r.NoOpen == "" {
		r.Solve()
	}
	return r
}

func (rr *refReader) file(name string) {
	rr.stack = append(rr.stack, name)
	defer func() { rr.stack = rr.stack[:len(rr.stack)-1] }()
	text := rr.files[name]
	if text == "" {
		return
	}
	lines := strings.Split(text, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	for i, l := range lines {
		if len(l) >= 64*1024 {
			rr.r.NoOpen = "line too long"
			return
		}
		rr.r.Lines++
		rr.line(RPos{name, i + 1}, strings.TrimSuffix(l, "\r"))
		if rr.r.Fatal != nil || rr.r.NoOpen != "" {
			return
		}
	}
}

func (rr *refReader) report(p RPos, why string) { rr.r.Reported[p] = why }

func words(s string) (string, string) {
	if i := strings.IndexByte(s, ' '); i > 0 {
		return s[:i], strings.TrimSpace(s[i+1:])
	}
	return s, ""
}

func (rr *refReader) line(p RPos, raw string) {
	r := rr.r
	indented := raw != "" && (raw[0] == ' ' || raw[0] == '\t')
	text := strings.TrimSpace(raw)
	if text == "" {
		return
	}
	if text[0] == ';' || text[0] == '#' || text[0] == '*' {
		if indented {
			r.MayLog[p] = true
			if c := strings.TrimSpace(text[1:]); rr.last != nil && c != "" {
				rr.comment(rr.last, c)
				// a wrong own date is reported with the position of the posting
				if s, ok := rr.last.(*RSplit); ok {
					r.MayLog[s.Pos] = true
				}
			}
		}
		return
	}
	comment, hasComment := "", false
	if i := strings.IndexByte(text, ';'); i >= 0 {
		comment = strings.TrimSpace(text[i+1:])
		text = strings.TrimSpace(text[:i])
		hasComment = comment != ""
	}
	if indented {
		if !rr.inTxn {
			rr.report(p, "indented line outside a transaction")
			return
		}
		rr.last = nil
		if s := rr.posting(p, text); s != nil {
			rr.last = s
			r.Good++
			if hasComment {
				rr.comment(s, comment)
			}
		}
		return
	}
	rr.last, rr.inTxn = nil, false
	word, rest := words(text)
	if date, ok := readDate(word); ok {
		if n := len(r.Txns); n > 0 && date.Before(r.Txns[n-1].Time) {
			r.Fatal = &p
			return
		}
		t := &RTxn{Time: date, Desc: rest, Pos: p}
		r.Txns = append(r.Txns, t)
		rr.last, rr.inTxn = t, true
		if hasComment {
			rr.comment(t, comment)
		}
		r.Good++
		return
	}
	switch word {
	case "include":
		name := rest
		if !strings.HasPrefix(name, "/") {
			name = path.Join(path.Dir(p.File), name)
		}
		name = path.Clean(name)
		if _, ok := rr.files[name]; !ok {
			rr.report(p, "cannot include")
			return
		}
		for _, f := range rr.stack {
			if f == name {
				rr.report(p, "include cycle")
				return
			}
		}
		r.Good++
		rr.file(name)
	case "account":
		for _, a := range r.Accts {
			if a.Name == rest {
				r.Fatal = &p
				return
			}
		}
		a := rr.account(rest, p)
		rr.last = a
		r.Good++
		if hasComment {
			rr.comment(a, comment)
		}
	case "P":
		word, rest := words(rest)
		date, ok := readDate(word)
		if !ok {
			rr.report(p, "bad date")
			return
		}
		if n := len(r.Prices); n > 0 && date.Before(r.Prices[n-1].Time) {
			r.Fatal = &p
			return
		}
		name, rest := words(rest)
		name = strings.TrimSpace(name)
		if name == "" || rest == "" {
			rr.report(p, "incomplete price")
			return
		}
		if strings.ContainsAny(name, "=@") {
			rr.report(p, "wrong currency")
			return
		}
		undo := rr.save()
		c := rr.currency(name)
		v, err := rr.value(rest)
		if err != nil {
			undo()
			rr.report(p, "bad price")
			return
		}
		r.MayLog[p] = true
		price := &RPrice{Time: date, Cur: c, Val: *v, Pos: p}
		r.Prices = append(r.Prices, price)
		rr.last = price
		r.Good++
		if hasComment {
			rr.comment(price, comment)
		}
	case "D":
		if rest == "" {
			r.Def = nil
			r.Good++
			return
		}
		v, err := rr.value(rest)
		if err != nil {
			rr.report(p, "bad default currency")
			return
		}
		r.Def = v.Cur
		r.Good++
	case "commodity":
		v, err := rr.value(rest)
		if err != nil {
			rr.report(p, "bad commodity")
			return
		}
		rr.last = v.Cur
		r.Good++
		if hasComment {
			rr.comment(v.Cur, comment)
		}
	default:
		rr.report(p, "unknown line")
	}
}

func (rr *refReader) posting(p RPos, text string) *RSplit {
	r := rr.r
	undo := rr.save()
	name, rest := text, ""
	if i := strings.Index(text, "  "); i > 0 {
		name, rest = text[:i], text[i+2:]
	}
	r.MayLog[p] = true
	t := r.Txns[len(r.Txns)-1]
	s := &RSplit{Pos: p, Txn: t}
	s.Acct = rr.account(strings.TrimSpace(name), p)
	fail := func(why string) *RSplit {
		undo()
		rr.report(p, why)
		return nil
	}
	// [value] [ ("@" | "@@") value ] [ "=" value ]
	vText, pText, aText := rest, "", ""
	hasPrice, total, hasAssert := false, false, false
	if i := strings.Index(vText, "="); i >= 0 {
		vText, aText, hasAssert = vText[:i], vText[i+1:], true
	}
	if i := strings.Index(vText, "@"); i >= 0 {
		vText, pText, hasPrice = vText[:i], vText[i+1:], true
		if strings.HasPrefix(pText, "@") {
			total, pText = true, pText[1:]
		}
	}
	vText, pText, aText = strings.TrimSpace(vText), strings.TrimSpace(pText), strings.TrimSpace(aText)
	if vText != "" {
		v, err := rr.value(vText)
		if err != nil {
			return fail("bad amount")
		}
		s.Val = v
	}
	if hasPrice {
		if s.Val == nil {
			return fail("price without amount")
		}
		v, err := rr.value(pText)
		if err != nil {
			return fail("bad price")
		}
		if total {
			if s.Val.Amt < 0 && v.Amt > 0 {
				v.Amt = -v.Amt
			}
		} else {
			k := new(big.Int).Mul(big.NewInt(s.Val.Amt), big.NewInt(v.Amt))
			k.Quo(k, big.NewInt(unit))
			if k.CmpAbs(bigMax) > 0 {
				return fail("price too big")
			}
			v.Amt = k.Int64()
		}
		s.Price = v
	}
	if hasAssert {
		v, err := rr.value(aText)
		if err != nil {
			return fail("bad assertion")
		}
		s.Assert = v
	}
	s.known = s.Val != nil
	t.Splits = append(t.Splits, s)
	return s
}

func (rr *refReader) account(name string, p RPos) *RAcct {
	for _, a := range rr.r.Accts {
		if a.Name == name {
			return a
		}
	}
	var parent *RAcct
	if i := strings.LastIndexByte(name, ':'); i >= 0 {
		parent = rr.account(name[:i], p)
	}
	a := &RAcct{Name: name, Pos: p, Parent: parent}
	rr.r.Accts = append(rr.r.Accts, a)
	return a
}

func (rr *refReader) currency(name string) *RCur {
	for _, c := range rr.r.Curs {
		if c.Name == name {
			return c
		}
	}
	c := &RCur{Name: name}
	rr.r.Curs = append(rr.r.Curs, c)
	return c
}

// save returns a function which undoes everything done to accounts and currencies since.
func (rr *refReader) save() func() {
	accts := append([]*RAcct(nil), rr.r.Accts...)
	curs := append([]*RCur(nil), rr.r.Curs...)
	var copies []RCur
	for _, c := range curs {
		copies = append(copies, *c)
	}
	def := rr.r.Def
	var defCopy RCur
	if def != nil {
		defCopy = *def
	}
	nl := rr.r.nameless
	var nlCopy RCur
	if nl != nil {
		nlCopy = *nl
	}
	return func() {
		if rr.r.nameless = nl; nl != nil {
			*nl = nlCopy
		}
		rr.r.Accts, rr.r.Curs, rr.r.Def = accts, curs, def
		for i, c := range curs {
			*c = copies[i]
		}
		if def != nil {
			*def = defCopy
		}
	}
}

// value reads a value, defining its currency if needed.
func (rr *refReader) value(s string) (*RVal, error) {
	l, err := refLayout(s)
	if err != nil {
		return nil, err
	}
	var c *RCur
	if l.currency == "" {
		c = rr.r.Def
		if c == nil && rr.r.nameless != nil {
			c = rr.r.nameless
		}
	} else {
		for _, x := range rr.r.Curs {
			if x.Name == l.currency {
				c = x
			}
		}
	}
	var T, D string
	if c != nil {
		T, D = c.T, c.D
	}
	n, err := refNumber(l.number, T, D)
	if err != nil {
		return nil, err
	}
	if c == nil {
		c = &RCur{Name: l.currency}
		if l.currency == "" {
			// all the amounts without currency name are in the same one
			if rr.r.nameless != nil {
				c = rr.r.nameless
			}
			rr.r.nameless = c
			rr.r.Def = c
		} else {
			rr.r.Curs = append(rr.r.Curs, c)
		}
	}
	if c.D == "" { // first amount of this currency
		c.Before, c.NoSpace, c.Prec = l.before, l.nospace, n.decimals
	}
	c.T, c.D = n.T, n.D
	if l.currency == "" && rr.r.Def == nil {
		rr.r.Def = c
	}
	return &RVal{n.amount, c}, nil
}

// comment attaches a comment or tag to an item.
func (rr *refReader) comment(where interface{}, s string) {
	tag, val := "", ""
	// a tag is a word in lower case letters followed by a colon
	for i := 0; i < len(s) && tag == ""; i++ {
		j := i
		for j < len(s) && s[j] >= 'a' && s[j] <= 'z' {
			j++
		}
		if j > i && j < len(s) && s[j] == ':' {
			tag, val = s[i:j], s[j+1:]
		} else if j > i {
			i = j - 1
		}
	}
	switch x := where.(type) {
	case *RAcct:
		if tag == "code" {
			x.Code = val
			return
		}
		x.Comments = append(x.Comments, s)
	case *RCur:
		if tag == "isin" {
			x.ISIN = val
			return
		}
		x.Comments = append(x.Comments, s)
	case *RSplit:
		if tag == "date" {
			if d, ok := readDate(val); ok {
				x.Own = &d
			}
			return
		}
		x.Comments = append(x.Comments, s)
	case *RTxn:
		x.Comments = append(x.Comments, s)
	case *RPrice:
		x.Comments = append(x.Comments, s)
	}
}
