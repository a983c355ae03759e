package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/backend/postgres"
)

// C27: postgres databases are read as they are, or refused.
// The server is ours: it speaks the protocol of PostgreSQL over a Unix socket, answers the queries of the back-end with the
// tables of the case, and fails where the case says.

type pgAcct struct {
	id     int
	parent int // 0: null
	name   string
	code   *string
}

type pgRow struct {
	date  string
	tid   int
	aid   int
	desc  *string
	cents *int64
}

type pgFault struct {
	conn  int // which connection fails: 0 the first, 1 the second...; -1 all of them
	after int // bytes written in that connection before closing it; -1: never
	msg   int // the answer to which query is replaced by an error (0, 1, ...); -1: none
	row   int // after how many rows
}

type pgServer struct {
	ln      net.Listener
	mu      sync.Mutex
	accts   []pgAcct
	rows    []pgRow
	fault   pgFault
	nconn   int
	open    int
	bytes   int // written in the longest connection
	queries int
	unknown string // a query which could not be understood
}

var pg *pgServer

func (t *T) pgStart() *pgServer {
	if pg != nil {
		return pg
	}
	dir := filepath.Join(t.dir, "pg")
	os.MkdirAll(dir, 0700)
	ln, err := net.Listen("unix", filepath.Join(dir, ".s.PGSQL.5432"))
	if err != nil {
		panic(err)
	}
	pg = &pgServer{ln: ln}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			pg.mu.Lock()
			n := pg.nconn
			pg.nconn++
			pg.open++
			pg.mu.Unlock()
			go pg.serve(c, n)
		}
	}()
	return pg
}

type pgCut struct{}

type pgConn struct {
	s     *pgServer
	c     net.Conn
	left  int // bytes before closing; -1: no limit
	total int
}

func (c *pgConn) send(kind byte, body []byte) {
	b := make([]byte, 5, 5+len(body))
	b[0] = kind
	binary.BigEndian.PutUint32(b[1:], uint32(len(body)+4))
	b = append(b, body...)
	if c.left >= 0 && len(b) >= c.left {
		b = b[:c.left]
		c.total += len(b)
		c.c.Write(b)
		panic(pgCut{})
	}
	if c.left >= 0 {
		c.left -= len(b)
	}
	c.total += len(b)
	if _, err := c.c.Write(b); err != nil {
		panic(pgCut{})
	}
}

func pgStrings(s ...string) []byte {
	var b []byte
	for _, x := range s {
		b = append(append(b, x...), 0)
	}
	return b
}

func (s *pgServer) serve(nc net.Conn, n int) {
	s.mu.Lock()
	f := s.fault
	s.mu.Unlock()
	c := &pgConn{s: s, c: nc, left: -1}
	if f.conn == -1 || f.conn == n {
		c.left = f.after
	} else {
		f.msg = -1
	}
	defer func() {
		r := recover()
		if _, ok := r.(pgCut); r != nil && !ok {
			panic(r)
		}
		nc.Close()
		s.mu.Lock()
		s.open--
		if c.total > s.bytes {
			s.bytes = c.total
		}
		s.mu.Unlock()
	}()
	var h [4]byte
	for { // startup
		if _, err := io.ReadFull(nc, h[:]); err != nil {
			return
		}
		body := make([]byte, binary.BigEndian.Uint32(h[:])-4)
		if _, err := io.ReadFull(nc, body); err != nil {
			return
		}
		if binary.BigEndian.Uint32(body) == 80877103 { // SSL
			nc.Write([]byte{'N'})
			continue
		}
		break
	}
	c.send('R', []byte{0, 0, 0, 0})
	for _, p := range [][]string{{"server_version", "12.3"}, {"server_encoding", "UTF8"}, {"client_encoding", "UTF8"}, {"DateStyle", "ISO, MDY"}, {"TimeZone", "UTC"}, {"integer_datetimes", "on"}, {"standard_conforming_strings", "on"}} {
		c.send('S', pgStrings(p...))
	}
	c.send('K', make([]byte, 8))
	c.send('Z', []byte{'I'})
	nq := 0
	for {
		var k [1]byte
		if _, err := io.ReadFull(nc, k[:]); err != nil {
			return
		}
		if _, err := io.ReadFull(nc, h[:]); err != nil {
			return
		}
		body := make([]byte, binary.BigEndian.Uint32(h[:])-4)
		if _, err := io.ReadFull(nc, body); err != nil {
			return
		}
		switch k[0] {
		case 'X':
			return
		case 'Q':
			q := strings.TrimRight(string(body), "\x00")
			if strings.Trim(q, "; \t\n") == "" {
				c.send('I', nil)
				c.send('Z', []byte{'I'})
				continue
			}
			fail := nq == f.msg
			nq++
			s.mu.Lock()
			s.queries++
			s.mu.Unlock()
			c.answer(q, fail, f.row)
			c.send('Z', []byte{'I'})
		default:
			s.cannot(fmt.Sprintf("message %q", k[0]))
			return
		}
	}
}

func (s *pgServer) cannot(what string) {
	s.mu.Lock()
	if s.unknown == "" {
		s.unknown = what
	}
	s.mu.Unlock()
}

func (c *pgConn) fail() {
	c.send('E', append(pgStrings("SERROR", "VERROR", "CXX000", "Mfault injected"), 0))
}

var (
	pgSelect  = regexp.MustCompile(`(?is)^\s*select\s+(.*?)\s+from\s+"?(\w+)"?(.*)$`)
	pgSpecial = regexp.MustCompile(`(?is)\b(union|distinct|having|or|not|exists|between|like|in)\b`)
	pgWhere   = regexp.MustCompile(`(?is)\bwhere\s+(.*?)(\bgroup\b|\border\b|\blimit\b|\boffset\b|;|$)`)
	pgCond    = regexp.MustCompile(`(?is)^\s*(?:\w+\.)?(\w+)\s*(=|<>|!=|<=|>=|<|>)\s*('[^']*'|-?[0-9]+)\s*$`)
	pgLimit   = regexp.MustCompile(`(?is)\blimit\s+([0-9]+)`)
	pgOffset  = regexp.MustCompile(`(?is)\boffset\s+([0-9]+)`)
	pgJoin    = regexp.MustCompile(`(?is)(\w*)\s*\bjoin\s+(\w+)`)
	pgOrder   = regexp.MustCompile(`(?is)\border\s+by\s+([\w., \t\n]+)`)
	pgCommand = regexp.MustCompile(`(?is)^\s*(begin|start|commit|rollback|set)\b`)
)

type pgCell struct {
	null bool
	s    string
	bad  bool // an integer out of range: the server answers with an error
}

func pgStr(s *string) pgCell {
	if s == nil {
		return pgCell{null: true}
	}
	return pgCell{s: *s}
}

// pgExpr evaluates an expression of the list of a select, in a row given by its columns: name, type and value.
func pgExpr(e string, cols map[string]pgCell, types map[string]int) (pgCell, int, bool) {
	e = strings.ToLower(strings.TrimSpace(e))
	if i := strings.LastIndex(e, " as "); i >= 0 {
		e = strings.TrimSpace(e[:i])
	}
	e = strings.Join(strings.Fields(e), "")
	var eval func(e string) (pgCell, int, bool)
	eval = func(e string) (pgCell, int, bool) {
		if strings.HasPrefix(e, "100*") && !strings.HasPrefix(e, "100*sum") && strings.Contains(e, "::") {
			// the cast is done before
			v, typ, ok := eval(e[4:])
			if x, err := strconv.ParseFloat(v.s, 64); ok && !v.null && err == nil {
				v.s = fmt.Sprint(100 * int64(math.Round(x)))
			}
			return v, typ, ok
		}
		for _, suf := range []string{"::integer", "::int4", "::int", "::bigint", "::int8"} {
			if strings.HasSuffix(e, suf) {
				v, _, ok := eval(strings.TrimSuffix(e, suf))
				typ := 23
				if strings.Contains(suf, "big") || strings.Contains(suf, "8") {
					typ = 20
				} else if x, err := strconv.ParseFloat(v.s, 64); err == nil && (x > math.MaxInt32 || x < math.MinInt32) {
					v.bad = true
				}
				return v, typ, ok
			}
		}
		if strings.HasPrefix(e, "coalesce(") && strings.HasSuffix(e, ")") {
			in := e[9 : len(e)-1]
			i := strings.LastIndex(in, ",")
			if i < 0 {
				return pgCell{}, 0, false
			}
			v, typ, ok := eval(in[:i])
			if ok && v.null {
				v = pgCell{s: strings.Trim(in[i+1:], "'")}
			}
			return v, typ, ok
		}
		if strings.HasPrefix(e, "(") && strings.HasSuffix(e, ")") {
			return eval(e[1 : len(e)-1])
		}
		if i := strings.Index(e, "."); i > 0 && !strings.ContainsAny(e, "(*") {
			e = e[i+1:]
		}
		if e == "100*sum(s.value)" || e == "100*sum(value)" {
			e = "100*sum"
		}
		v, ok := cols[e]
		return v, types[e], ok
	}
	return eval(e)
}

// pgCents writes hundredths as the server does
func pgCents(n int64) string {
	sign := ""
	if n < 0 {
		sign, n = "-", -n
	}
	return fmt.Sprintf("%s%d.%02d", sign, n/100, n%100)
}

// where says whether a row fulfils all the conditions, and whether they were understood
func pgFulfils(conds string, row map[string]pgCell, types map[string]int) (bool, bool) {
	res := true
	for _, cond := range regexp.MustCompile(`(?is)\band\b`).Split(conds, -1) {
		m := pgCond.FindStringSubmatch(cond)
		if m == nil {
			return false, false
		}
		col := strings.ToLower(m[1])
		typ, ok := types[col]
		if !ok {
			return false, false
		}
		v := row[col]
		lit := strings.Trim(m[3], "'")
		n := strings.Compare(v.s, lit)
		if typ == 23 || typ == 1700 {
			x, err := strconv.ParseFloat(lit, 64)
			y, _ := strconv.ParseFloat(v.s, 64)
			if err != nil {
				return false, false
			}
			switch {
			case y < x:
				n = -1
			case y > x:
				n = 1
			default:
				n = 0
			}
		}
		var is bool
		switch m[2] {
		case "=":
			is = n == 0
		case "<>", "!=":
			is = n != 0
		case "<":
			is = n < 0
		case "<=":
			is = n <= 0
		case ">":
			is = n > 0
		case ">=":
			is = n >= 0
		}
		res = res && is && !v.null
	}
	return res, true
}

func (c *pgConn) answer(q string, fail bool, failRow int) {
	if fail && failRow < 0 {
		c.fail()
		return
	}
	m := pgSelect.FindStringSubmatch(q)
	if m == nil && pgCommand.MatchString(q) {
		c.send('C', pgStrings(strings.ToUpper(strings.Fields(q)[0])))
		return
	}
	if m == nil || pgSpecial.MatchString(q) {
		c.s.cannot(q)
		c.fail()
		return
	}
	var exprs []string
	depth, from := 0, 0
	for i, ch := range m[1] {
		switch {
		case ch == '(':
			depth++
		case ch == ')':
			depth--
		case ch == ',' && depth == 0:
			exprs = append(exprs, m[1][from:i])
			from = i + 1
		}
	}
	exprs = append(exprs, m[1][from:])
	var rows []map[string]pgCell
	types := map[string]int{"id": 23, "parent_id": 23, "name": 25, "code": 25, "100*sum": 1700, "datetime": 1114, "transaction_id": 23, "account_id": 23, "description": 25, "100*value": 1700, "100*balance": 1700, "value": 1700, "balance": 1700}
	switch strings.ToLower(m[2]) {
	case "account":
		for _, a := range c.s.accts {
			r := map[string]pgCell{"id": {s: fmt.Sprint(a.id)}, "name": pgName(a.name), "code": pgStr(a.code), "parent_id": {null: true}, "100*sum": {null: true}}
			if a.parent != 0 {
				r["parent_id"] = pgCell{s: fmt.Sprint(a.parent)}
			}
			sum := int64(0)
			for _, x := range c.s.rows {
				if x.aid == a.id && x.cents != nil {
					sum += *x.cents
					r["100*sum"] = pgCell{s: fmt.Sprint(sum)}
				}
			}
			rows = append(rows, r)
		}
	case "money":
		sums := map[int]int64{}
		for _, x := range c.s.rows {
			r := map[string]pgCell{"datetime": {s: x.date}, "transaction_id": {s: fmt.Sprint(x.tid)}, "account_id": {s: fmt.Sprint(x.aid)}, "description": pgStr(x.desc), "100*value": {null: true}}
			if x.cents != nil {
				sums[x.aid] += *x.cents
				r["100*value"] = pgCell{s: fmt.Sprint(*x.cents)}
				r["value"] = pgCell{s: pgCents(*x.cents)}
			} else {
				r["value"] = pgCell{null: true}
			}
			r["100*balance"] = pgCell{s: fmt.Sprint(sums[x.aid])}
			r["balance"] = pgCell{s: pgCents(sums[x.aid])}
			rows = append(rows, r)
		}
	default:
		c.s.cannot(q)
		c.fail()
		return
	}
	if j := pgJoin.FindStringSubmatch(m[3]); j != nil && strings.ToLower(j[1]) != "left" {
		if len(pgJoin.FindAllString(m[3], -1)) > 1 || strings.ToLower(m[2]) != "account" || strings.ToLower(j[2]) != "split" {
			c.s.cannot(q)
			c.fail()
			return
		}
		var some []map[string]pgCell
		for _, r := range rows { // those with movements
			if !r["100*sum"].null {
				some = append(some, r)
			}
		}
		rows = some
	}
	if w := pgWhere.FindStringSubmatch(m[3]); w != nil {
		var some []map[string]pgCell
		for _, r := range rows {
			is, ok := pgFulfils(w[1], r, types)
			if !ok {
				c.s.cannot(q)
				c.fail()
				return
			}
			if is {
				some = append(some, r)
			}
		}
		rows = some
	}
	if o := pgOrder.FindStringSubmatch(m[3]); o != nil {
		by := strings.Split(o[1], ",")
		for i := len(by) - 1; i >= 0; i-- {
			f := strings.Fields(strings.ToLower(by[i]))
			col := f[0][strings.Index(f[0], ".")+1:]
			if len(f) > 1 && f[1] != "asc" {
				c.s.cannot(q)
			}
			typ, ok := types[col]
			if !ok {
				c.s.cannot(q)
			}
			sort.SliceStable(rows, func(i, j int) bool {
				a, b := rows[i][col], rows[j][col]
				if a.null || b.null {
					return !a.null && b.null
				}
				if typ == 23 {
					x, _ := strconv.Atoi(a.s)
					y, _ := strconv.Atoi(b.s)
					return x < y
				}
				return a.s < b.s
			})
		}
	}
	if o := pgOffset.FindStringSubmatch(m[3]); o != nil {
		n, _ := strconv.Atoi(o[1])
		if n > len(rows) {
			n = len(rows)
		}
		rows = rows[n:]
	}
	if o := pgLimit.FindStringSubmatch(m[3]); o != nil {
		if n, _ := strconv.Atoi(o[1]); n < len(rows) {
			rows = rows[:n]
		}
	}
	// description of the rows
	var d []byte
	d = binary.BigEndian.AppendUint16(d, uint16(len(exprs)))
	var empty = map[string]pgCell{}
	for k := range types {
		empty[k] = pgCell{}
	}
	for _, e := range exprs {
		_, typ, ok := pgExpr(e, empty, types)
		if !ok {
			c.s.cannot(q + ": " + e)
			c.fail()
			return
		}
		d = append(d, pgStrings("c")...)
		d = binary.BigEndian.AppendUint32(d, 0)
		d = binary.BigEndian.AppendUint16(d, 0)
		d = binary.BigEndian.AppendUint32(d, uint32(typ))
		d = binary.BigEndian.AppendUint16(d, 0xffff)
		d = binary.BigEndian.AppendUint32(d, 0xffffffff)
		d = binary.BigEndian.AppendUint16(d, 0)
	}
	c.send('T', d)
	for i, r := range rows {
		if fail && i == failRow {
			c.fail()
			return
		}
		var b []byte
		b = binary.BigEndian.AppendUint16(b, uint16(len(exprs)))
		for _, e := range exprs {
			v, _, ok := pgExpr(e, r, types)
			if !ok {
				c.s.cannot(q + ": " + e)
				c.fail()
				return
			}
			if v.bad {
				c.fail()
				return
			}
			if v.null {
				b = binary.BigEndian.AppendUint32(b, 0xffffffff)
				continue
			}
			b = binary.BigEndian.AppendUint32(b, uint32(len(v.s)))
			b = append(b, v.s...)
		}
		c.send('D', b)
	}
	if fail {
		c.fail()
		return
	}
	c.send('C', pgStrings(fmt.Sprintf("SELECT %d", len(rows))))
}

// pgNull is the name of an account whose name is null.
const pgNull = "\x00"

func pgName(s string) pgCell {
	if s == pgNull {
		return pgCell{null: true}
	}
	return pgCell{s: s}
}

func pgShow(accts []pgAcct, rows []pgRow) string {
	var b strings.Builder
	b.WriteString("\naccounts (id, parent, name, code):\n")
	for _, a := range accts {
		fmt.Fprintf(&b, "  %d %d %q %v\n", a.id, a.parent, a.name, pgStr(a.code))
	}
	b.WriteString("money (datetime, transaction, account, description, value in hundredths):\n")
	for _, r := range rows {
		v := "null"
		if r.cents != nil {
			v = fmt.Sprint(*r.cents)
		}
		fmt.Fprintf(&b, "  %s %d %d %v %s\n", r.date, r.tid, r.aid, pgStr(r.desc), v)
	}
	return b.String()
}

// pgRef is the reference model of a database. ok says whether it must open (or may be refused).
func pgRef(accts []pgAcct, rows []pgRow) (r *Ref, odd bool) {
	r = &Ref{Reported: map[RPos]string{}, MayLog: map[RPos]bool{}, Bad: map[string]bool{}, NoPos: true}
	cur := &RCur{D: ".", Prec: 2}
	byID := map[int]*pgAcct{}
	ra := map[int]*RAcct{}
	for i := range accts {
		byID[accts[i].id] = &accts[i]
		ra[accts[i].id] = &RAcct{}
	}
	for _, a := range accts {
		r.Lines++
		if a.name == pgNull {
			return r, true
		}
		x := ra[a.id]
		x.Name = a.name
		if a.code != nil {
			x.Code = *a.code
		}
		x.Parent = ra[a.parent]
		n := 0
		for p := byID[a.parent]; p != nil; p = byID[p.parent] {
			x.Name = p.name + ":" + x.Name
			if n++; n > len(accts) {
				return r, true // circular
			}
		}
		r.Accts = append(r.Accts, x)
	}
	sort.SliceStable(r.Accts, func(i, j int) bool { return r.Accts[i].Name < r.Accts[j].Name })
	var tx *RTxn
	last := 0
	for _, x := range rows {
		r.Lines++
		at, ok := readDate(strings.Replace(x.date, " ", "/", 1))
		if !ok {
			panic("date " + x.date)
		}
		if x.desc == nil || x.cents == nil || ra[x.aid] == nil {
			return r, true
		}
		if tx == nil || last != x.tid {
			tx = &RTxn{Time: at, Desc: *x.desc, Pos: RPos{"money", x.tid}}
			r.Txns = append(r.Txns, tx)
			last = x.tid
		}
		s := &RSplit{Acct: ra[x.aid], Txn: tx, Val: &RVal{*x.cents * 1000000, cur}, known: true}
		tx.Splits = append(tx.Splits, s)
	}
	sort.SliceStable(r.Txns, func(i, j int) bool { return r.Txns[i].Time.Before(r.Txns[j].Time) })
	r.Solve()
	return r, false
}

// pgOpen opens the database and checks what it gives. It returns whether a ledger was given.
func (t *T) pgOpen(accts []pgAcct, rows []pgRow, fault pgFault) bool {
	s := t.pgStart()
	s.mu.Lock()
	s.accts, s.rows, s.fault = accts, rows, fault
	s.nconn, s.bytes, s.queries, s.unknown = 0, 0, 0, ""
	s.mu.Unlock()
	show := pgShow(accts, rows)
	t.files = map[string]string{"the database": show}
	if fault.after >= 0 || fault.msg >= 0 {
		show += fmt.Sprintf("fault: %+v\n", fault)
	}
	ref, odd := pgRef(accts, rows)
	src := "postgres://user@/db?sslmode=disable&host=" + filepath.Join(t.dir, "pg")
	var o Opened
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.Failf("panic: %v%s", r, show)
			}
		}()
		o = t.OpenSource(src)
	}()
	t.Sample(show + o.String())
	if o.Fatal != "" {
		t.Failf("the program ended: %s%s", o.Fatal, show)
	}
	s.mu.Lock()
	unknown := s.unknown
	s.mu.Unlock()
	if unknown != "" {
		t.Skip("query not understood")
		if o.L != nil {
			closeLedger(o.L)
		}
		return false
	}
	if t.opened != nil {
		t.opened(src, o)
		if o.L != nil {
			closeLedger(o.L)
		}
		return o.L != nil
	}
	t.Trans(len(accts) + len(rows))
	t.Trace()
	faulty := fault.after >= 0 || fault.msg >= 0
	if o.Err != nil {
		// the connections must be closed
		for i := 0; ; i++ {
			s.mu.Lock()
			n := s.open
			s.mu.Unlock()
			if n == 0 {
				break
			}
			if i > 5000 {
				s.open = 0
				t.Failf("opening failed (%v) and left %d connections open%s", o.Err, n, show)
			}
			time.Sleep(time.Millisecond)
		}
	} else {
		defer func() {
			closeLedger(o.L)
			for i := 0; i < 5000; i++ {
				s.mu.Lock()
				n := s.open
				s.mu.Unlock()
				if n == 0 {
					return
				}
				time.Sleep(time.Millisecond)
			}
			s.open = 0
			t.Failf("closing the ledger left a connection open%s", show)
		}()
	}
	switch {
	case faulty && o.Err != nil:
		t.Out("fault: error")
		return false
	case pgTooBig(rows):
		if o.Err == nil {
			t.Failf("it has an amount which is too big: it should be refused%s", show)
		}
		t.Out("too big: refused")
		return false
	case odd:
		// nothing is said about these, but that they must not crash
		t.Out("odd: " + o.Outcome())
		if o.L != nil && len(o.L.Accounts) != len(accts) {
			t.Failf("%d accounts of %d%s", len(o.L.Accounts), len(accts), show)
		}
		return o.Err == nil
	}
	t.State(ref.Canon() + fmt.Sprint(fault))
	t.pgCompare(ref, o, show)
	if o.L != nil {
		if faulty {
			t.Out("fault: complete")
		}
		for _, a := range accts {
			x := o.L.Account(postgres.ID(a.id))
			if x == nil || x.Name != a.name {
				t.Failf("account %d is not %q%s", a.id, a.name, show)
			}
		}
		seen := map[int]bool{}
		for _, r := range rows {
			seen[r.tid] = true
		}
		for _, x := range o.L.Transactions {
			id, ok := x.ID.(postgres.ID)
			if !ok || !seen[int(id)] {
				t.Failf("a transaction has the id %v%s", x.ID, show)
			}
		}
	}
	return o.Err == nil
}

// pgTooBig: an amount is limited to 92233720368.54775807
func pgTooBig(rows []pgRow) bool {
	for _, x := range rows {
		if x.cents != nil && (*x.cents > math.MaxInt64/1000000 || *x.cents < math.MinInt64/1000000) {
			return true
		}
	}
	return false
}

func (t *T) pgCompare(ref *Ref, o Opened, show string) {
	t.files = map[string]string{"database": show}
	t.Compare(ref, o, txtFacets)
}

func closeLedger(l *accounting.Ledger) {
	defer func() { recover() }()
	l.Close()
}

func strp(s string) *string { return &s }
func intp(n int64) *int64   { return &n }

var noFault = pgFault{after: -1, msg: -1}

var pgAccts = []pgAcct{{1, 0, "A", strp("c1")}, {2, 1, "B", nil}, {5, 0, "C", strp("")}}

func famPgAccounts(n int) Family {
	perms := permutations(n)
	sets := [][]string{{"M", "B", "Z", "A"}, {"A", "A B", "A-", "a"}, {"é", "A", "A", "x y: z"}}
	total := int64(len(perms)) * pow(n+1, n) * int64(len(sets))
	return Family{Name: fmt.Sprintf("accounts%d", n), Desc: fmt.Sprintf("%d accounts in any order, each one with any parent (none or any of them, itself included)", n), N: total, Run: func(t *T, i int64) {
		d := &Dec{i}
		p := perms[d.Pick(len(perms))]
		names := sets[d.Pick(len(sets))]
		parents := make([]int, n)
		for k := range parents {
			parents[k] = d.Pick(n + 1)
		}
		var as []pgAcct
		for _, k := range p {
			a := pgAcct{id: k + 1, parent: parents[k], name: names[k]}
			if k%2 == 0 {
				a.code = strp(fmt.Sprintf("c%d", k))
			}
			as = append(as, a)
		}
		full := map[string]bool{}
		ref, odd := pgRef(as, nil)
		for _, a := range ref.Accts {
			if full[a.Name] && !odd {
				t.Skip("two accounts with the same name")
				return
			}
			full[a.Name] = true
		}
		var rows []pgRow
		for k := 0; k < n; k++ {
			rows = append(rows, pgRow{fmt.Sprintf("2020-01-0%d 00:00:00", k+1), k + 1, k + 1, strp("t"), intp(int64(k))}, pgRow{fmt.Sprintf("2020-01-0%d 00:00:00", k+1), k + 1, (k+1)%n + 1, strp("t"), intp(-int64(k))})
		}
		t.pgOpen(as, rows, noFault)
	}}
}

// famPgRows: movements, each one in the transaction of the previous one or in a new one
func famPgRows(n int) Family {
	type mv struct {
		aid   int
		cents int64
	}
	mvs := []mv{{1, 150}, {1, -150}, {2, 150}, {2, -300}, {5, 0}, {5, 300}}
	dates := []string{"2020-01-05 00:00:00", "2020-01-05 10:30:07", "2019-12-31 23:59:59"}
	al := len(mvs) * (1 + len(dates))
	return Family{Name: "rows", Desc: fmt.Sprintf("all sequences of up to %d movements (%d), each one in the same transaction as the one before or in a new one with one of %d dates", n, len(mvs), len(dates)), N: seqCount(al, n), Run: func(t *T, i int64) {
		var rows []pgRow
		tid := 0
		date := dates[0]
		for _, k := range seqDecode(i, al, n) {
			m := mvs[k%len(mvs)]
			if w := k / len(mvs); w > 0 || tid == 0 {
				tid += 3
				if w > 0 {
					date = dates[w-1]
				}
			}
			rows = append(rows, pgRow{date, tid, m.aid, strp(fmt.Sprintf("t%d", tid)), intp(m.cents)})
		}
		t.pgOpen(pgAccts, rows, noFault)
	}}
}

// famPgTxns: whole transactions, right and wrong
func famPgTxns(n int) Family {
	tx := [][]pgRow{
		{{aid: 1, cents: intp(150)}, {aid: 2, cents: intp(-150)}},
		{{aid: 2, cents: intp(-1)}, {aid: 5, cents: intp(-2)}, {aid: 2, cents: intp(3)}},
		{{aid: 1, cents: intp(0)}},
		{{aid: 5, cents: intp(7)}, {aid: 5, cents: intp(-7)}},
		{{aid: 1, cents: intp(-150)}, {aid: 2, cents: intp(150)}, {aid: 1, cents: intp(0)}},
		{{aid: 1, cents: intp(1)}},
	}
	dates := []string{"2020-01-05 00:00:00", "2020-01-05 10:30:07", "2019-12-31 23:59:59", "1999-02-28 12:00:00"}
	al := len(tx) * len(dates)
	return Family{Name: "transactions", Desc: fmt.Sprintf("all sequences of up to %d transactions (%d) with %d dates", n, len(tx), len(dates)), N: seqCount(al, n), Run: func(t *T, i int64) {
		var rows []pgRow
		for j, k := range seqDecode(i, al, n) {
			for _, r := range tx[k%len(tx)] {
				r.tid = 100 - j*7
				r.date = dates[k/len(tx)]
				r.desc = strp([]string{"uno", "", "dos; tres"}[j%3])
				rows = append(rows, r)
			}
		}
		t.pgOpen(pgAccts, rows, noFault)
	}}
}

func pgBases() [][]pgRow {
	big := []pgRow{}
	for k := 0; k < 40; k++ {
		d := fmt.Sprintf("20%02d-01-05 00:00:00", k)
		big = append(big, pgRow{d, k, 1, strp(strings.Repeat("x", k)), intp(int64(k))}, pgRow{d, k, 5, strp(""), intp(-int64(k))})
	}
	d := "2020-01-05 00:00:00"
	return [][]pgRow{
		nil,
		{{d, 1, 1, strp("uno"), intp(150)}, {d, 1, 2, strp("uno"), intp(-150)}},
		{{d, 1, 1, strp("uno"), intp(150)}, {d, 1, 2, strp("uno"), intp(-150)}, {"2020-01-06 10:00:00", 2, 5, strp("dos"), intp(7)}, {"2020-01-06 10:00:00", 2, 2, strp("dos"), intp(-7)}, {"2020-01-07 10:00:00", 3, 5, strp("tres"), intp(0)}},
		big,
	}
}

func famPgCuts() Family {
	const max = 6000
	bases := pgBases()
	return Family{Name: "cuts", Desc: fmt.Sprintf("%d databases, with the connection closed by the server after each possible number of bytes; the first connection, the second, or all of them", len(bases)), N: int64(len(bases) * max), Run: func(t *T, i int64) {
		rows := bases[i/max]
		k := int(i % max)
		for _, conn := range []int{0, 1, -1} {
			t.pgOpen(pgAccts, rows, pgFault{conn: conn, after: k, msg: -1})
			if pg.bytes < k {
				t.Skip("longer than the answers")
				return
			}
		}
	}}
}

func famPgErrors() Family {
	bases := pgBases()
	const rows = 90
	return Family{Name: "errors", Desc: fmt.Sprintf("%d databases, with an error in the answer to each query, after each number of rows", len(bases)), N: int64(len(bases)) * 5 * (rows + 1), Run: func(t *T, i int64) {
		d := &Dec{i}
		base := bases[d.Pick(len(bases))]
		q := d.Pick(5)
		r := d.Pick(rows+1) - 1
		if r > len(base) && r > len(pgAccts) {
			t.Skip("longer than the answers")
			return
		}
		ok := t.pgOpen(pgAccts, base, pgFault{conn: -1, after: -1, msg: q, row: r})
		if ok && pg.queries > q && pg.unknown == "" && r <= len(base) && r <= len(pgAccts) {
			t.Failf("the answer to query %d was an error after %d rows, and it was ignored%s", q, r, pgShow(pgAccts, base))
		}
	}}
}

func famPgOdd() Family {
	d := "2020-01-05 00:00:00"
	one := func(r pgRow) []pgRow {
		return []pgRow{r, {d, 1, 2, strp("uno"), intp(-150)}}
	}
	cases := [][]pgRow{
		one(pgRow{d, 1, 1, nil, intp(150)}),
		one(pgRow{d, 1, 1, strp("uno"), nil}),
		one(pgRow{d, 1, 77, strp("uno"), intp(150)}),
		{{d, 1, 77, strp("uno"), intp(0)}},
		{{d, 1, 77, strp("uno"), nil}},
	}
	return Family{Name: "odd", Desc: "nulls, and movements of accounts which are not in the list: no crash", N: int64(len(cases) + 3), Run: func(t *T, i int64) {
		if k := int(i) - len(cases); k >= 0 {
			accts := append([]pgAcct(nil), pgAccts...)
			accts[k].name = pgNull
			t.pgOpen(accts, nil, noFault)
			return
		}
		if t.pgOpen(pgAccts, cases[i], noFault) && i >= 2 {
			t.Failf("a movement of an account which does not exist was accepted%s", pgShow(pgAccts, cases[i]))
		}
	}}
}

func famPgAmounts(th bool) Family {
	var cents []int64
	n := int64(3000)
	if th {
		n = 100000
	}
	for i := int64(0); i < n; i++ {
		cents = append(cents, i, -i)
	}
	for _, x := range []int64{10000, 99999, 123456789, 2147483647} {
		for d := int64(0); d < 200; d++ {
			cents = append(cents, x-d, d-x)
		}
	}
	const per = 100
	return Family{Name: "amounts", Desc: fmt.Sprintf("%d amounts, %d in each database", len(cents), per), N: (int64(len(cents)) + per - 1) / per, Run: func(t *T, i int64) {
		var rows []pgRow
		for k := i * per; k < (i+1)*per && k < int64(len(cents)); k++ {
			d := fmt.Sprintf("2020-01-05 00:%02d:%02d", k%per/60, k%60)
			d = fmt.Sprintf("2020-01-05 %02d:00:00", (k%per)/5)
			rows = append(rows, pgRow{d, int(k) + 1, 1 + int(k)%2, strp("t"), intp(cents[k])}, pgRow{d, int(k) + 1, 5, strp("t"), intp(-cents[k])})
		}
		t.pgOpen(pgAccts, rows, noFault)
	}}
}

// famPgBig: amounts which do not fit in 32 bits, up to the biggest possible ones and over
func famPgBig() Family {
	var cents []int64
	for _, x := range []int64{1 << 31, 1 << 32, 10000000000, 123456789012, 1 << 53 / 1000000, 9000000000000, 9223372036854} {
		for d := int64(-3); d <= 3; d++ {
			cents = append(cents, x+d, -x-d)
		}
	}
	for _, x := range []int64{18446744073709, 18446744073710, 99999999999999, 123456789012345678, math.MaxInt64 / 100, math.MaxInt64} {
		cents = append(cents, x, -x)
	}
	return Family{Name: "big", Desc: fmt.Sprintf("%d big amounts, one in each database, with or without more movements", len(cents)), N: int64(len(cents)) * 3, Run: func(t *T, i int64) {
		x := cents[i/3]
		d := "2020-01-05 10:00:00"
		rows := []pgRow{{d, 1, 1, strp("t"), intp(x)}, {d, 1, 5, strp("t"), intp(-x)}}
		other := []pgRow{{d, 2, 2, strp("u"), intp(7)}, {d, 2, 5, strp("u"), intp(-7)}}
		if i%3 == 1 {
			rows = append(rows, pgRow{d, 2, 1, strp("u"), intp(-x)}, pgRow{d, 2, 5, strp("u"), intp(x)})
		} else if x < 9000000000000 && i%3 == 2 {
			rows = append(other, rows...)
		}
		t.pgOpen(pgAccts, rows, noFault)
	}}
}

// famPgLong: databases with many movements
func famPgLong() Family {
	sizes := []int{500, 2000, 10000, 30000}
	return Family{Name: "long", Desc: fmt.Sprintf("databases with %v movements, in transactions of two or of half of them", sizes), N: int64(2 * len(sizes)), Run: func(t *T, i int64) {
		var rows []pgRow
		n := sizes[i/2]
		for k := 0; k < n; k++ {
			x := pgRow{"2020-01-05 10:00:00", k / 2, 1, strp("t"), intp(100)}
			if i%2 == 1 {
				x.tid = 2 * k / n
			}
			if k%2 == 1 {
				x.aid, x.cents = 2, intp(-100)
			}
			rows = append(rows, x)
		}
		t.Tick()
		t.pgOpen(pgAccts, rows, noFault)
	}}
}

func init() {
	register(&Check{
		ID:   "C27",
		Rule: "every database is read as the reference reader says, and any fault gives an error or the complete ledger",
		Assumptions: []string{
			"the server gives the rows of money in the order in which they are, with those of a transaction together",
			"amounts have two decimals and fit in 32 bits when multiplied by 100 (otherwise the server itself gives an error)",
		},
		Families: func(th bool) []Family {
			n := 2
			if th {
				n = 3
			}
			return []Family{famPgAccounts(2), famPgAccounts(3), famPgRows(n + 1), famPgTxns(n + 1), famPgCuts(), famPgErrors(), famPgOdd(), famPgAmounts(th), famPgBig(), famPgLong()}
		},
	})
}
