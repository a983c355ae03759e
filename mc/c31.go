package main

import (
	"fmt"
	"os"
	"strings"
)

// C31: a data source is the file or directory which it names. All the files whose names are made of a few characters
// exist at the same time, each with something different inside.

var srcChars = []string{"a", "A", " ", "%", "2", "é", "+", ";", ",", "@", "&", "=", "~", "'", ".", "-", "(", ":", "#", "?", "\\", "\"", "\xe9", "$", "*", "[", "]"}

type srcWay struct {
	name    string
	raw     bool // the name as it is, if it has nothing which means something else in a URL
	txtdb   bool
	rel     bool
	include string // name of the journal which includes it, if any
	missing bool   // there is no such file, though there are all the others
	source  func(dir, name string) string
}

func srcEscape(s string) string { // everything but letters and digits
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if c := s[i]; c == '/' || c == '.' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

var srcWays = func() []srcWay {
	var res []srcWay
	for _, tx := range []bool{false, true} {
		s := "ledger:"
		if tx {
			s = "txtdb:"
		}
		for _, raw := range []bool{false, true} {
			esc, kind := srcEscape, "escaped"
			if raw {
				esc, kind = func(s string) string { return s }, "as it is"
			}
			add := func(name string, rel bool, f func(dir, name string) string) {
				res = append(res, srcWay{name: s + " " + name + " " + kind, raw: raw, txtdb: tx, rel: rel, source: f})
				if name == "absolute" || name == "relative" {
					res = append(res, srcWay{name: s + " " + name + " " + kind + ", missing", raw: raw, txtdb: tx, rel: rel, missing: true, source: f})
				}
			}
			add("absolute", false, func(dir, n string) string { return s + esc(dir+"/"+n) })
			add("absolute with //", false, func(dir, n string) string { return s + "//" + esc(dir+"/"+n) })
			add("relative", true, func(dir, n string) string { return s + esc(n) })
			add("relative in a directory", true, func(dir, n string) string { return s + "sub/../" + esc(n) })
			if tx {
				add("absolute with a slash at the end", false, func(dir, n string) string { return s + esc(dir+"/"+n) + "/" })
				add("relative with a slash at the end", true, func(dir, n string) string { return s + esc(n) + "/" })
			}
			if !tx {
				add("absolute, without scheme", false, func(dir, n string) string { return esc(dir + "/" + n) })
				add("relative, without scheme", true, func(dir, n string) string { return esc(n) })
				add("relative with ./, without scheme", true, func(dir, n string) string { return "./" + esc(n) })
			}
		}
	}
	for _, missing := range []bool{false, true} {
		same := func(dir, n string) string { return n }
		res = append(res,
			srcWay{name: "included", include: "main.journal", missing: missing, source: same},
			srcWay{name: "included with ./", include: "main.journal", missing: missing, source: func(dir, n string) string { return "./" + n }},
			srcWay{name: "included with its whole name", include: "main.journal", missing: missing, source: func(dir, n string) string { return dir + "/" + n }},
			srcWay{name: "included from another directory", include: "sub/main.journal", missing: missing, source: func(dir, n string) string { return "../" + n }})
	}
	return res
}()

var srcMade = map[string]bool{}

// srcDir makes a directory with all the files (or directories) but one, if it is not there.
func (t *T) srcDir(names []string, tx bool) string {
	dir := t.Path(fmt.Sprintf("sources%d", len(names)))
	if tx {
		dir = t.Path(fmt.Sprintf("databases%d", len(names)))
	}
	if srcMade[dir] {
		return dir
	}
	srcMade[dir] = true
	must := func(err error) {
		if err != nil {
			panic("sources: " + err.Error())
		}
	}
	must(os.MkdirAll(dir+"/sub", 0755))
	for i, n := range names {
		if i%2 == 1 { // these are the missing ones
			continue
		}
		if tx {
			must(os.MkdirAll(dir+"/"+n, 0755))
			must(os.WriteFile(dir+"/"+n+"/accounts", []byte(fmt.Sprintf("1:x:y:N%d::\n", i)), 0644))
		} else {
			must(os.WriteFile(dir+"/"+n, []byte(fmt.Sprintf("account N%d\n", i)), 0644))
		}
	}
	return dir
}

func famSources(n int, chars []string) Family {
	var names []string
	for i := int64(1); i < seqCount(len(chars), n); i++ {
		var s string
		for _, k := range seqDecode(i, len(chars), n) {
			s += chars[k]
		}
		if s != "." && s != ".." && s != "sub" {
			names = append(names, s)
		}
	}
	return Family{Name: fmt.Sprintf("names%d", n), Desc: fmt.Sprintf("all names of up to %d of %q, half of them of files which exist and half of them of files which do not, in %d ways", n, chars, len(srcWays)), N: int64(len(names) * len(srcWays)), Run: func(t *T, i int64) {
		d := &Dec{i}
		w := srcWays[d.Pick(len(srcWays))]
		k := d.Pick(len(names))
		name := names[k]
		if w.missing != (k%2 == 1) {
			t.Skip("the other half")
			return
		}
		if w.raw && (strings.ContainsAny(name, "%?#") || w.source("", name) == name && strings.Contains(name, ":")) {
			t.Skip("it means something else")
			return
		}
		if w.include != "" && (strings.Contains(name, ";") || strings.TrimSpace(name) != name) {
			t.Skip("it means something else")
			return
		}
		dir := t.srcDir(names, w.txtdb)
		old, err := os.Getwd()
		if err == nil {
			err = os.Chdir(dir)
		}
		if err != nil {
			panic(err)
		}
		defer os.Chdir(old)
		src := w.source(dir, name)
		t.files = map[string]string{}
		if w.include != "" {
			text := "include " + src + "\n"
			t.files[w.include] = text
			src = dir + "/" + w.include
			if err := os.WriteFile(src, []byte(text), 0644); err != nil {
				panic(err)
			}
		}
		t.Trace()
		t.Trans(1)
		t.StateHash(uint64(i))
		t.Sample(src)
		o := t.OpenSource(src)
		if w.missing && w.include != "" {
			if o.L == nil || o.Log == "" || len(o.L.Accounts) > 1 || len(o.L.Accounts) == 1 && strings.HasPrefix(o.L.Accounts[0].Name, "N") {
				t.Failf("%s: %q is not reported as missing: %s", w.name, name, o)
			}
			closeLedger(o.L)
			t.Out("reported")
			return
		}
		if w.missing {
			if o.L != nil {
				t.Failf("%s: the source %q opens (%d accounts), and there is no file %q in %s", w.name, src, len(o.L.Accounts), name, dir)
			}
			t.Out("refused")
			return
		}
		if o.L == nil {
			t.Failf("%s: the source %q does not open the file %q of %s: %s", w.name, src, name, dir, o)
		}
		if len(o.L.Accounts) == 0 {
			t.Failf("%s: the source %q opens something with %d accounts, not even the transfer one, instead of the file %q: %s", w.name, src, len(o.L.Accounts), name, o)
		}
		if got, want := o.L.Accounts[0].FullName(), fmt.Sprintf("N%d", k); got != want {
			var other int
			fmt.Sscanf(got, "N%d", &other)
			t.Failf("%s: the source %q opens the file %q instead of %q", w.name, src, names[other%len(names)], name)
		}
		t.Nontrivial()
		t.Out("opened")
		closeLedger(o.L)
	}}
}

func init() {
	register(&Check{ID: "C31", Rule: "each case is a source: the name of one among many files (or txtdb directories), each with something different inside, written in one of the ways of naming it. It has to open that one, or fail if it is not there",
		Assumptions: []string{"percent, question mark and number sign stand for themselves only if they are escaped, and so do colons in relative names without a scheme"},
		Families: func(th bool) []Family {
			if th {
				return []Family{famSources(3, srcChars), famSources(4, srcChars[:8])}
			}
			return []Family{famSources(2, srcChars), famSources(3, srcChars)}
		}})
}
