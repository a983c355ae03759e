package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"

	"github.com/cespedes/accounting"
	_ "github.com/cespedes/accounting/backend/ledger"
	_ "github.com/cespedes/accounting/backend/txtdb"
)

// capture takes whatever the code under test writes to its log and to its
// standard error and output, and turns log.Fatal into a panic.
type capture struct {
	buf bytes.Buffer
	err *os.File
	off int64
}

// return addresses which are known to be (or not) inside log.Fatal*
var fatalPC = map[uintptr]bool{}

type fatalExit struct{ msg string }

func (c *capture) Write(p []byte) (int, error) {
	c.buf.Write(p)
	var pcs [6]uintptr
	n := runtime.Callers(3, pcs[:])
	for _, pc := range pcs[:n] {
		fatal, ok := fatalPC[pc]
		if !ok {
			frames := runtime.CallersFrames([]uintptr{pc})
			for {
				f, more := frames.Next()
				if strings.HasPrefix(f.Function, "log.Fatal") || strings.HasPrefix(f.Function, "log.(*Logger).Fatal") {
					fatal = true
				}
				if !more {
					break
				}
			}
			fatalPC[pc] = fatal
		}
		if fatal {
			panic(fatalExit{string(p)})
		}
	}
	return len(p), nil
}

func (c *capture) install() {
	log.SetOutput(c)
	log.SetFlags(0)
	f, err := ioutil.TempFile("/dev/shm", "mcerr")
	if err != nil {
		f, err = ioutil.TempFile("", "mcerr")
		if err != nil {
			panic(err)
		}
	}
	os.Remove(f.Name())
	c.err = f
	os.Stderr = f
	os.Stdout = f
}

func (c *capture) reset() {
	c.buf.Reset()
	if c.err != nil {
		if st, err := c.err.Seek(0, 1); err == nil && st != 0 {
			c.err.Truncate(0)
			c.err.Seek(0, 0)
		}
	}
}

// text returns what was written since reset.
func (c *capture) text() string {
	s := c.buf.String()
	if c.err != nil {
		if n, err := c.err.Seek(0, 1); err == nil && n > 0 {
			b := make([]byte, n)
			syscall.Pread(int(c.err.Fd()), b, 0)
			s += string(b)
		}
	}
	return s
}

// Opened is the outcome of opening a ledger.
type Opened struct {
	L     *accounting.Ledger
	Err   error
	Fatal string // message of log.Fatal
	Log   string
}

func (o Opened) Outcome() string {
	switch {
	case o.Fatal != "":
		return "fatal"
	case o.Err != nil:
		return "error"
	}
	return "ok"
}

func (o Opened) String() string {
	switch {
	case o.Fatal != "":
		return "fatal: " + strings.TrimSpace(o.Fatal)
	case o.Err != nil:
		return "error: " + o.Err.Error()
	}
	return "ok"
}

// OpenSource opens a data source, with everything it says captured.
func (t *T) OpenSource(src string) (o Opened) {
	t.cap.reset()
	defer func() {
		if r := recover(); r != nil {
			f, ok := r.(fatalExit)
			if !ok {
				panic(r)
			}
			o = Opened{Fatal: f.msg, Log: t.cap.text()}
		}
	}()
	l, err := accounting.Open(src)
	if err == nil && l == nil {
		t.Failf("Open returned neither a ledger nor an error%s", t.show())
	}
	return Opened{L: l, Err: err, Log: t.cap.text()}
}

// Captured runs f and returns what it wrote.
func (t *T) Captured(f func()) string {
	t.cap.reset()
	f()
	return t.cap.text()
}

// Path is the full name of a scratch file.
func (t *T) Path(name string) string { return filepath.Join(t.dir, name) }

func (t *T) WriteFile(name, text string) string {
	p := t.Path(name)
	if err := ioutil.WriteFile(p, []byte(text), 0644); err != nil {
		if os.IsNotExist(err) {
			os.MkdirAll(filepath.Dir(p), 0755)
			err = ioutil.WriteFile(p, []byte(text), 0644)
		}
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
	}
	if t.files == nil {
		t.files = map[string]string{}
	}
	t.files[name] = text
	return p
}

// Journal writes a journal (only one file) and opens it.
func (t *T) Journal(text string) Opened {
	t.files = map[string]string{}
	return t.OpenSource(t.WriteFile("j", text))
}

// show prints the files of the case, for messages.
func (t *T) show() string {
	s := ""
	for n, x := range t.files {
		if len(x) > 3000 {
			x = x[:3000] + "..."
		}
		s += fmt.Sprintf("\n--- %s:\n%s", n, strings.TrimSuffix(x, "\n"))
	}
	return s
}
