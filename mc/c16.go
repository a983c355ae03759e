package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/cespedes/accounting"
)

// C16: faults while reading.

type ioSource struct {
	name   string
	scheme string
	main   string
	files  [][2]string // name, text; the names which begin with "?" may be missing
}

var ioSources = []ioSource{
	{"journal", "", "j", [][2]string{{"j", "account A ; one\naccount A:B\ncommodity 1.000,00 X ; k\nP 2020-01-04 X 2,00 Y\n2020-01-05 t ; c\n  A  1,50 X ; date:2020-01-07\n  A:B  -1,50 X\n2020-01-08 e\n  A  3 X\n  C  -6 Y"}}},
	{"newlines", "ledger:", "j", [][2]string{{"j", "account A\r\naccount B\r\n\r\n\r\n2020-01-05 t\r\n  A  1 €\r\n  B\r\n\n"}}},
	{"includes", "", "j", [][2]string{{"j", "account A\ninclude d/i1\ninclude i3\n2020-01-09 t\n  A  5 X\n  B\n"}, {"d/i1", "account B\ninclude i2\n2020-01-08 u\n  B  1 X\n  A"}, {"d/i2", "P 2020-01-05 X 2 Y\n"}, {"i3", "account C\n"}}},
	{"tail", "", "j", [][2]string{{"j", "2020-01-05 t\n  A  10 X\n  B\n  ; comment\ninclude i"}, {"i", "; nothing here\n\n2020-01-06 u\n  A  12 X\n  B  -12 X ; the end"}}},
	{"txtdb", "txtdb:", "db", [][2]string{{"db/accounts", "1:x:y:A:code:\n2:x:y:B::1\n3:x:y:Z::9\n"}, {"?db/transactions", "1:2020-01-05:t:c:1:+5.25:\n2:2020-01-05:t:c:2:-5.25:\n3:2020-01-07 10.30:u:c:3:+1.00:\n4:2020-01-07 10.30:u:c:1:-1.00:\n"}}},
	{"txtdb2", "txtdb:", "db", [][2]string{{"db/accounts", "1:x:y:A:code:"}, {"?db/transactions", "1:2020-01-05:t:c:1:+5.25:\n2:2020-01-05:t:c:1:-5.25:"}}},
	{"empty", "", "j", [][2]string{{"j", ""}}},
	{"txtdb0", "txtdb:", "db", [][2]string{{"db/accounts", ""}, {"?db/transactions", ""}}},
}

func ioName(f string) string { return strings.TrimPrefix(f, "?") }

func (t *T) ioWrite(s ioSource) string {
	t.files = map[string]string{}
	for _, f := range s.files {
		t.WriteFile(ioName(f[0]), f[1])
	}
	return s.scheme + t.Path(s.main)
}

// opened is what opening gives: the whole ledger or an error
func (t *T) ioOpen(src string) (string, Opened) {
	before := t.descriptors()
	o := t.OpenSource(src)
	if o.Fatal == "" { // otherwise the program would have ended
		for fd, name := range t.descriptors() {
			if before[fd] != name {
				t.Failf("%s is left open after opening the ledger (%s)%s", name, o, t.show())
			}
		}
	}
	if o.L == nil {
		return "", o
	}
	return DumpL(o.L, full), o
}

// descriptors gives the files of this case which are open.
func (t *T) descriptors() map[string]string {
	res := map[string]string{}
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		t.Failf("harness: %v", err)
	}
	for _, fd := range fds {
		if name, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(name, t.dir) {
			res[fd.Name()] = name
		}
	}
	return res
}

type fault struct {
	name       string
	err        error
	with       bool // the error comes with the last data
	transitory bool
}

var faults = []fault{
	{"EIO", syscall.EIO, false, false},
	{"EIO with data", syscall.EIO, true, false},
	{"EIO once", syscall.EIO, false, true},
	{"EINTR", syscall.EINTR, false, false},
	{"timeout", os.ErrDeadlineExceeded, true, false},
	{"unexpected EOF", io.ErrUnexpectedEOF, false, false},
	{"no progress", nil, false, false},
}

func same(path, name string) bool {
	a, err1 := filepath.Abs(path)
	b, err2 := filepath.Abs(name)
	return err1 == nil && err2 == nil && a == b
}

func (t *T) failRead(s ioSource, file string, at int, f fault, chunk int) {
	src := t.ioWrite(s)
	want, o := t.ioOpen(src)
	if o.L == nil {
		t.Failf("harness: %s: %s", s.name, o)
	}
	path := t.Path(file)
	pos, hit := 0, false
	filesRead = func(name string, b []byte, read func([]byte) (int, error)) (int, error) {
		if !same(name, path) {
			return read(b)
		}
		if pos >= at && (!hit || !f.transitory) {
			hit = true
			return 0, f.err
		}
		if pos+len(b) > at && !hit {
			b = b[:at-pos]
		}
		if chunk > 0 && len(b) > chunk {
			b = b[:chunk]
		}
		n, err := read(b)
		if n > 0 {
			pos += n
			if pos == at && f.with && !hit {
				hit = true
				return n, f.err
			}
		}
		return n, err
	}
	defer func() { filesRead = nil }()
	got, o := t.ioOpen(src)
	filesRead = nil
	t.Trans(1)
	what := fmt.Sprintf("%s: reading %s gives %q after %d bytes", s.name, file, f.name, at)
	t.Sample(what)
	t.State(what + o.Outcome())
	if !hit {
		t.Out("fault not reached")
		if o.L == nil || got != want {
			t.Failf("%s (not reached): %s %s%s", what, o, diff(want, got), t.show())
		}
		return
	}
	t.Nontrivial()
	t.Out("fault: " + o.Outcome())
	if f.transitory && o.L != nil && got == want {
		return
	}
	if o.L != nil {
		t.Failf("%s, and there is no error: %s%s", what, diff(want, got), t.show())
	}
	if o.Err == nil {
		t.Failf("%s, and the result is %s%s", what, o, t.show())
	}
}

// a closing connection

type closeDriver struct {
	open func(url string, b *accounting.Backend) (accounting.Connection, error)
}

func (d *closeDriver) Open(url string, b *accounting.Backend) (accounting.Connection, error) {
	return d.open(url, b)
}

type closeConn struct {
	closed int
	err    error
}

func (c *closeConn) Close() error { c.closed++; return c.err }
func (c *closeConn) Refresh()     {}

var theCloseDriver *closeDriver

// ledgers which cannot be filled (the last one can)
var failing = []string{"unbalanced", "two empty", "two signs", "three currencies", "assertion", "deadlock", "right"}

func failingLedger(L *accounting.Ledger, k int, before bool) {
	X, Y, Z := &accounting.Currency{Name: "X"}, &accounting.Currency{Name: "Y"}, &accounting.Currency{Name: "Z"}
	L.Currencies = []*accounting.Currency{X, Y, Z}
	A, B := &accounting.Account{Name: "A"}, &accounting.Account{Name: "B"}
	L.Accounts = []*accounting.Account{A, B}
	L.Comments = map[interface{}][]string{}
	L.Assertions = map[*accounting.Split]accounting.Value{}
	L.SplitPrices = map[*accounting.Split]accounting.Value{}
	v := func(n int64, c *accounting.Currency) accounting.Value {
		return accounting.Value{Amount: n * unit, Currency: c}
	}
	tx := func(d int, ss ...*accounting.Split) {
		L.Transactions = append(L.Transactions, &accounting.Transaction{ID: stringID("t" + fmt.Sprint(d)), Time: day(d), Splits: ss})
	}
	sp := func(a *accounting.Account, v accounting.Value) *accounting.Split {
		return &accounting.Split{ID: stringID("s"), Account: a, Value: v}
	}
	if before {
		tx(1, sp(A, v(1, X)), sp(B, v(-1, X)))
	}
	switch k {
	case 0:
		tx(2, sp(A, v(1, X)))
	case 1:
		tx(2, sp(A, v(1, X)), sp(B, accounting.Value{}), sp(B, accounting.Value{}))
	case 2:
		tx(2, sp(A, v(1, X)), sp(B, v(2, Y)))
	case 3:
		tx(2, sp(A, v(1, X)), sp(B, v(2, Y)), sp(B, v(-2, Z)))
	case 4:
		s := sp(A, v(1, X))
		L.Assertions[s] = v(7, X)
		tx(2, s, sp(B, v(-1, X)))
	case 5:
		s := sp(A, accounting.Value{})
		L.Assertions[s] = v(7, X)
		tx(2, sp(A, accounting.Value{}), sp(B, v(-1, X)), s)
	}
	if before {
		tx(9, sp(A, v(1, X)), sp(B, v(-1, X)))
	}
}

type stringID string

func (s stringID) String() string { return string(s) }

func famClosed() Family {
	outcomes := []string{"connection", "error", "error and connection"}
	return Family{Name: "closed", Desc: fmt.Sprintf("back-ends which return %q, with ledgers: %q, alone or among other transactions, and Close giving an error or not", outcomes, failing), N: int64(len(outcomes) * len(failing) * 4), Run: func(t *T, i int64) {
		d := &Dec{i}
		out, k, before, cerr := d.Pick(len(outcomes)), d.Pick(len(failing)), d.Pick(2) == 1, d.Pick(2) == 1
		if theCloseDriver == nil {
			theCloseDriver = new(closeDriver)
			accounting.Register("mcclose", theCloseDriver)
		}
		conn := new(closeConn)
		if cerr {
			conn.err = errors.New("close")
		}
		own := errors.New("own error")
		calls := 0
		theCloseDriver.open = func(url string, b *accounting.Backend) (accounting.Connection, error) {
			calls++
			failingLedger(b.Ledger, k, before)
			switch out {
			case 1:
				return nil, own
			case 2:
				return conn, own
			}
			return conn, nil
		}
		L, err := accounting.Open("mcclose:something")
		t.Trans(1)
		t.Trace()
		what := fmt.Sprintf("back-end returning %s, ledger: %s (%v)", outcomes[out], failing[k], before)
		t.Sample(what)
		t.State(what)
		t.Out(fmt.Sprint("closed ", conn.closed))
		if calls != 1 {
			t.Failf("%s: it has been opened %d times", what, calls)
		}
		if out == 0 && k == len(failing)-1 {
			if err != nil || L == nil || conn.closed != 0 {
				t.Failf("%s: %v, closed %d times", what, err, conn.closed)
			}
			if e := L.Close(); (e != nil) != cerr || conn.closed != 1 {
				t.Failf("%s: Close gives %v, closed %d times", what, e, conn.closed)
			}
			return
		}
		t.Nontrivial()
		if err == nil || L != nil {
			t.Failf("%s: there is no error", what)
		}
		if out == 0 && conn.closed != 1 {
			t.Failf("%s: the connection has been closed %d times", what, conn.closed)
		}
		if out > 0 && !errors.Is(err, own) && !strings.Contains(err.Error(), "own error") {
			t.Failf("%s: the error is %v", what, err)
		}
	}}
}

// files which cannot be opened
func famMissing() Family {
	ways := []string{"missing", "directory", "no directory", "EACCES", "EMFILE", "ELOOP", "dangling link", "loop of links", "EIO at open", "ENOENT at open"}
	var cases []struct {
		s, f int
	}
	for s := range ioSources {
		for f := range ioSources[s].files {
			cases = append(cases, struct{ s, f int }{s, f})
		}
	}
	return Family{Name: "missing", Desc: fmt.Sprintf("every file of %d sources which cannot be opened: %q", len(ioSources), ways), N: int64(len(cases) * len(ways)), Run: func(t *T, i int64) {
		d := &Dec{i}
		way, c := d.Pick(len(ways)), cases[d.Pick(len(cases))]
		s := ioSources[c.s]
		src := t.ioWrite(s)
		file := ioName(s.files[c.f][0])
		path := t.Path(file)
		optional := s.files[c.f][0] != file
		included := c.f > 0 && !optional
		clean := func() {
			os.RemoveAll(t.Path("d"))
			os.RemoveAll(t.Path("db"))
			os.Remove(t.Path("j"))
		}
		defer func() { filesOpen = nil; os.RemoveAll(path); clean() }()
		missing := false
		hook := func(e error) {
			filesOpen = func(name string) error {
				if same(name, path) {
					return e
				}
				return nil
			}
		}
		os.Remove(path)
		switch ways[way] {
		case "missing":
			missing = true
		case "directory":
			os.Mkdir(path, 0755)
		case "no directory":
			if filepath.Dir(path) == strings.TrimSuffix(t.dir, "/") {
				t.WriteFile("file", "")
				src = s.scheme + t.Path("file/"+s.main)
				if included {
					t.Skip("not possible")
					return
				}
			} else {
				if optional || included {
					t.Skip("not possible")
					return
				}
				os.RemoveAll(filepath.Dir(path))
			}
		case "EACCES":
			hook(syscall.EACCES)
		case "EMFILE":
			hook(syscall.EMFILE)
		case "ELOOP":
			hook(syscall.ELOOP)
		case "EIO at open":
			hook(syscall.EIO)
		case "ENOENT at open":
			hook(syscall.ENOENT)
			missing = true
		case "dangling link":
			os.Symlink("nowhere", path)
			missing = true
		case "loop of links":
			os.Symlink(filepath.Base(path), path)
		}
		_, o := t.ioOpen(src)
		filesOpen = nil
		t.Trans(1)
		what := fmt.Sprintf("%s: %s: %s", s.name, file, ways[way])
		t.Sample(what)
		t.State(what)
		t.Out(ways[way] + ": " + o.Outcome())
		t.Nontrivial()
		switch {
		case optional && missing:
			if o.L == nil {
				t.Failf("%s: %s", what, o)
			}
			if len(o.L.Transactions) != 0 || len(o.L.Accounts) == 0 {
				t.Failf("%s: %d transactions, %d accounts", what, len(o.L.Transactions), len(o.L.Accounts))
			}
		case included && o.L != nil:
			// it cannot be included: it has to be reported
			if !strings.Contains(o.Log, filepath.Base(file)) || !strings.Contains(o.Log, ":") {
				t.Failf("%s: it is not reported: %q%s", what, o.Log, t.show())
			}
			if ways[way] == "directory" {
				t.Failf("%s: it can be opened, but not read, and there is no error%s", what, t.show())
			}
		case o.Err == nil:
			t.Failf("%s: it gives %s%s", what, o, t.show())
		}
	}}
}

// famOpenFiles: files which include others, and which of them remain open
func famOpenFiles(n int) Family {
	texts := []string{"", "\n", "; %d", "account A%d", "account A%d\n\n", "include f%d", "include f%d\naccount B%d\n", "account B%d\ninclude f%d\ninclude f%d", "include f0", "include nothing\n", "include d\n", "include f%d/\n", "wrong\n", "2021-01-01 t\n  A  1 X\n", strings.Repeat("x", 70000)}
	return Family{Name: "open", Desc: fmt.Sprintf("%d files with each one of %d texts, which include the next one, themselves, what cannot be included, or have errors: none is left open", n, len(texts)), N: pow(len(texts), n), Run: func(t *T, i int64) {
		d := &Dec{i}
		t.files = map[string]string{}
		for k := 0; k < n; k++ {
			text := texts[d.Pick(len(texts))]
			text = strings.ReplaceAll(text, "%d", fmt.Sprint(k+1))
			t.WriteFile(fmt.Sprintf("f%d", k), text)
		}
		os.Mkdir(t.Path("d"), 0755)
		defer os.Remove(t.Path("d"))
		_, o := t.ioOpen(t.Path("f0"))
		t.Trans(n)
		t.Out(o.Outcome())
		t.State(fmt.Sprint("open ", i))
		if o.L != nil {
			t.Nontrivial()
		}
	}}
}

// famStat: asking about an open file fails
func famStat() Family {
	const calls = 4
	var cases []struct {
		s, f int
	}
	for s := range ioSources {
		for f := range ioSources[s].files {
			cases = append(cases, struct{ s, f int }{s, f})
		}
	}
	return Family{Name: "fstat", Desc: fmt.Sprintf("every file of %d sources, fstat failing in each one of its first %d calls or in all of them", len(ioSources), calls), N: int64(len(cases) * (calls + 1)), Run: func(t *T, i int64) {
		d := &Dec{i}
		at, c := d.Pick(calls+1), cases[d.Pick(len(cases))]
		s := ioSources[c.s]
		src := t.ioWrite(s)
		file := ioName(s.files[c.f][0])
		path := t.Path(file)
		want, o := t.ioOpen(src)
		if o.L == nil {
			t.Failf("harness: %s: %s", s.name, o)
		}
		missing := ""
		included := c.f > 0 && s.files[c.f][0] == file
		if included {
			text, err := os.ReadFile(path)
			if err != nil {
				t.Failf("harness: %v", err)
			}
			os.Remove(path)
			missing, _ = t.ioOpen(src)
			t.WriteFile(file, string(text))
		}
		n, hit := 0, false
		filesStat = func(name string) error {
			if !same(name, path) {
				return nil
			}
			n++
			if n == at || at == 0 {
				hit = true
				return syscall.EIO
			}
			return nil
		}
		defer func() { filesStat = nil }()
		got, o := t.ioOpen(src)
		filesStat = nil
		t.Trans(1)
		what := fmt.Sprintf("%s: fstat of %s fails (call %d; 0 is all of them)", s.name, file, at)
		t.Sample(what)
		t.State(what)
		t.Out(fmt.Sprintf("fault %v: %s", hit, o.Outcome()))
		if hit {
			t.Nontrivial()
		}
		switch {
		case o.L != nil && got == want:
		case hit && included && o.L != nil && got == missing:
			if !strings.Contains(o.Log, filepath.Base(file)) || !strings.Contains(o.Log, ":") {
				t.Failf("%s: it is not reported: %q%s", what, o.Log, t.show())
			}
		case o.L != nil:
			t.Failf("%s, and there is no error: %s%s", what, diff(want, got), t.show())
		case o.Err == nil || !hit:
			t.Failf("%s, and the result is %s%s", what, o, t.show())
		}
	}}
}

// lines of any length
func famLongLines(th bool) Family {
	lens := []int{4090, 4095, 4096, 4097, 4100, 8191, 8192, 8193, 32768, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 65540, 131071, 131072, 131073, 1 << 18, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1 << 22}
	if th {
		for n := 65400; n < 65700; n++ {
			lens = append(lens, n)
		}
		for n := 4000; n < 4200; n++ {
			lens = append(lens, n)
		}
	}
	kinds := []string{"comment", "description", "account", "posting", "indented comment", "spaces", "garbage", "last line", "txtdb accounts", "txtdb transactions", "included"}
	return Family{Name: "longlines", Desc: fmt.Sprintf("lines of %d lengths from 4090 bytes to 4 MB: %q", len(lens), kinds), N: int64(len(lens) * len(kinds)), Run: func(t *T, i int64) {
		d := &Dec{i}
		n, k := lens[d.Pick(len(lens))], kinds[d.Pick(len(kinds))]
		pad := func(a, b string) string { return a + strings.Repeat("x", n-len(a)-len(b)) + b }
		t.files = map[string]string{}
		head, tail := "account A\naccount B\n2020-01-05 t\n  A  1 X\n  B\n", "2020-01-06 last\n  A  2 X\n  B\n"
		wantA, wantT := 2, 2
		src := t.Path("j")
		var desc func(L *accounting.Ledger) string
		switch k {
		case "comment":
			t.WriteFile("j", head+pad("; ", "")+"\n"+tail)
		case "description":
			t.WriteFile("j", head+pad("2020-01-05 ", "")+"\n  A  3 X\n  B\n"+tail)
			wantT = 3
			desc = func(L *accounting.Ledger) string {
				if len(L.Transactions[1].Description) != n-11 {
					return "the description is not complete"
				}
				return ""
			}
		case "account":
			t.WriteFile("j", head+pad("account ", "")+"\n"+tail)
			wantA = 3
		case "posting":
			t.WriteFile("j", head+"2020-01-06 p\n"+pad("  ", "  5 X")+"\n  B\n"+tail)
			wantA, wantT = 3, 3
		case "indented comment":
			t.WriteFile("j", head+pad("  ; ", "")+"\n"+tail)
			desc = func(L *accounting.Ledger) string {
				if c := L.Comments[L.Transactions[0].Splits[1]]; len(c) != 1 || len(c[0]) != n-4 {
					return "the comment is not complete"
				}
				return ""
			}
		case "spaces":
			t.WriteFile("j", head+strings.Repeat(" ", n)+"\n"+tail)
		case "garbage":
			t.WriteFile("j", head+pad("", "")+"\n"+tail)
		case "last line":
			t.WriteFile("j", head+tail+pad("; ", ""))
		case "included":
			t.WriteFile("i", pad("; ", "")+"\n"+tail)
			t.WriteFile("j", head+"include i\naccount C\n")
			wantA = 3
		case "txtdb accounts":
			t.WriteFile("db/accounts", "1:x:y:A::\n"+pad("2:x:y:", "::1")+"\n3:x:y:Z::\n")
			t.WriteFile("db/transactions", "1:2020-01-05:t:c:1:+5.25:\n2:2020-01-05:t:c:3:-5.25:\n1:2020-01-06:t:c:1:+5.25:\n2:2020-01-06:t:c:3:-5.25:\n")
			src = "txtdb:" + t.Path("db")
			wantA = 3
		case "txtdb transactions":
			t.WriteFile("db/accounts", "1:x:y:A::\n2:x:y:Z::\n")
			t.WriteFile("db/transactions", pad("1:2020-01-05:", ":c:1:+5.25:")+"\n2:2020-01-05:t:c:2:-5.25:\n1:2020-01-06:t:c:1:+5.25:\n2:2020-01-06:t:c:2:-5.25:\n")
			src = "txtdb:" + t.Path("db")
		}
		what := fmt.Sprintf("%s line of %d bytes", k, n)
		t.files = nil
		o := t.OpenSource(src)
		t.Trans(1)
		t.Sample(what)
		t.State(what)
		t.Nontrivial()
		t.Out(o.Outcome())
		if o.L == nil {
			if o.Err == nil {
				t.Failf("%s: %s", what, firstLine(o.String())[:60])
			}
			if n < 60000 {
				t.Failf("%s: %s", what, o)
			}
			return
		}
		if k == "garbage" && !strings.Contains(o.Log, ":6") {
			t.Failf("%s: it is not reported", what)
		}
		acc := 0
		for _, a := range o.L.Accounts {
			if !isTransfer(a) {
				acc++
			}
		}
		if acc != wantA || len(o.L.Transactions) != wantT {
			t.Failf("%s: there are %d accounts and %d transactions, instead of %d and %d", what, acc, len(o.L.Transactions), wantA, wantT)
		}
		if desc != nil {
			if s := desc(o.L); s != "" {
				t.Failf("%s: %s", what, s)
			}
		}
	}}
}

func init() {
	type at struct{ s, f, pos int }
	var ats []at
	for s := range ioSources {
		for f := range ioSources[s].files {
			for p := 0; p <= len(ioSources[s].files[f][1]); p++ {
				ats = append(ats, at{s, f, p})
			}
		}
	}
	chunkSizes := []int{0, 1, 7}
	// pairs of cuts in every file
	type cut struct{ s, f, a, b int }
	var cuts []cut
	for s := range ioSources {
		for f := range ioSources[s].files {
			n := len(ioSources[s].files[f][1])
			for a := 0; a <= n; a++ {
				for b := a; b <= n; b++ {
					cuts = append(cuts, cut{s, f, a, b})
				}
			}
		}
	}
	register(&Check{ID: "C16", Rule: "each case is a data source with a fault at one byte of one of its files, or a way of splitting it into reads, or a file which cannot be opened, or a line length, or a ledger which cannot be filled",
		Assumptions: []string{"faults are injected in os.File.Read and os.OpenFile", "an included file which cannot be opened has to be reported, as C15 says"},
		Families: func(th bool) []Family {
			n := 4
			if th {
				n = 5
			}
			fs := []Family{
				{Name: "faults", Desc: fmt.Sprintf("%d positions (every byte of every file of %d sources) x %d faults x reads of %v bytes at most (0: any)", len(ats), len(ioSources), len(faults), chunkSizes), N: int64(len(ats) * len(faults) * len(chunkSizes)), Run: func(t *T, i int64) {
					d := &Dec{i}
					f, c, a := faults[d.Pick(len(faults))], chunkSizes[d.Pick(len(chunkSizes))], ats[d.Pick(len(ats))]
					t.failRead(ioSources[a.s], ioName(ioSources[a.s].files[a.f][0]), a.pos, f, c)
				}},
				{Name: "cuts", Desc: "every file of every source read in three pieces, cut at every pair of bytes, or with empty reads there", N: int64(2 * len(cuts)), Run: func(t *T, i int64) {
					c := cuts[i/2]
					empty := i%2 == 1
					s := ioSources[c.s]
					src := t.ioWrite(s)
					want, _ := t.ioOpen(src)
					path := t.Path(ioName(s.files[c.f][0]))
					pos := 0
					did := map[int]bool{}
					filesRead = func(name string, b []byte, read func([]byte) (int, error)) (int, error) {
						if !same(name, path) {
							return read(b)
						}
						for _, x := range []int{c.a, c.b} {
							if pos == x && empty && !did[x] && len(b) > 0 {
								did[x] = true
								return 0, nil
							}
							if pos < x && pos+len(b) > x {
								b = b[:x-pos]
							}
						}
						n, err := read(b)
						pos += n
						return n, err
					}
					got, o := t.ioOpen(src)
					filesRead = nil
					t.Trans(1)
					t.Trace()
					t.Out("cut")
					t.StateHash(uint64(i) + 1<<40)
					if got != want || o.L == nil {
						t.Failf("%s: cutting %s at %d and %d (%v): %s %s%s", s.name, s.files[c.f][0], c.a, c.b, empty, o, diff(want, got), t.show())
					}
					t.Nontrivial()
				}},
				famMissing(), famOpenFiles(n), famStat(), famClosed(), famLongLines(th),
				{Name: "blocks", Desc: "a journal and a txtdb directory of 200 KB, read in pieces of every size up to 300 bytes and around 4096 and 65536", N: 2 * 360, Run: func(t *T, i int64) {
					n := int(i / 2)
					size := n + 1
					if n >= 300 && n < 330 {
						size = 4096 - 15 + n - 300
					} else if n >= 330 {
						size = 65536 - 15 + n - 330
					}
					t.files = nil
					src := ioBig(t, i%2 == 1)
					if bigWant[i%2] == "" {
						bigWant[i%2], _ = t.ioOpen(src)
						if o := t.OpenSource(src); len(o.L.Transactions) != 3000 {
							t.Failf("there are %d transactions instead of 3000", len(o.L.Transactions))
						}
					}
					filesRead = func(name string, b []byte, read func([]byte) (int, error)) (int, error) {
						if len(b) > size {
							b = b[:size]
						}
						return read(b)
					}
					got, o := t.ioOpen(src)
					filesRead = nil
					t.Trans(1)
					t.Out("blocks")
					if o.L == nil || got != bigWant[i%2] {
						t.Failf("reading in pieces of %d bytes: %s %s", size, o, diff(bigWant[i%2], got))
					}
					t.Nontrivial()
				}},
			}
			return fs
		}})
}

var bigWant [2]string
var bigDone [2]string

func ioBig(t *T, db bool) string {
	k := 0
	if db {
		k = 1
	}
	if bigDone[k] != "" {
		return bigDone[k]
	}
	var b strings.Builder
	when := time.Date(2000, 1, 1, 12, 0, 0, 0, time.UTC)
	if db {
		for i := 0; i < 3000; i++ {
			w := when.AddDate(0, 0, i).Format("2006-01-02")
			fmt.Fprintf(&b, "1:%s:transaction %d:c:1:+%d.25:\n2:%s:t:c:2:-%d.25:\n", w, i, i, w, i)
		}
		os.MkdirAll(t.Path("bigdb"), 0755)
		os.WriteFile(t.Path("bigdb/accounts"), []byte("1:x:y:A:code:\n2:x:y:B::1\n"), 0644)
		os.WriteFile(t.Path("bigdb/transactions"), []byte(b.String()), 0644)
		bigDone[k] = "txtdb:" + t.Path("bigdb")
	} else {
		for i := 0; i < 3000; i++ {
			fmt.Fprintf(&b, "%s transaction %d ; c\n  A  %d.5 X\n  B  -%d.5 X\n", when.AddDate(0, 0, i).Format("2006-01-02"), i, i, i)
		}
		os.WriteFile(t.Path("big"), []byte(b.String()), 0644)
		bigDone[k] = t.Path("big")
	}
	return bigDone[k]
}
