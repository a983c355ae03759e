package main

import (
	"fmt"
	"os"
	"strings"
)

// C29: the ledgers of the other back-ends, printed and read back, also with the acc command.

// opening makes something else be done with what is opened by the cases of a family of another check.
func opening(f Family, do func(t *T, src string, o Opened)) Family {
	run := f.Run
	f.Run = func(t *T, i int64) {
		t.opened = func(src string, o Opened) { do(t, src, o) }
		defer func() { t.opened = nil }()
		run(t, i)
	}
	return f
}

// printed29: it is printed and read back.
func (t *T) printed29(src string, o Opened) {
	if s := t.files["the database"]; strings.Contains(s, "x y: z") || strings.Contains(s, "dos; tres") {
		t.Skip("a name or description which cannot be written in a journal")
		return
	}
	t.roundTripOf(o, roundTrip)
	if t.idx%97 == 0 || t.thorough && t.idx%11 == 0 {
		t.acc29(src, o)
	}
}

// acc29: the acc command prints that ledger, or fails as it does.
func (t *T) acc29(src string, o Opened) {
	out, errs, code := t.runCmd(os.Getenv("MC_ACC"), false, src)
	t.Trans(1)
	switch {
	case o.L == nil && (code == 0 || errs == "" || out != ""):
		t.Failf("acc %s should fail (exit %d)\n%s%s%s", src, code, out, errs, t.show())
	case o.L == nil:
		t.Out("acc: refused")
	case code != 0:
		t.Failf("acc %s should not fail (exit %d): %s%s", src, code, errs, t.show())
	case out != export(o.L):
		t.Failf("acc %s does not print the ledger: %s%s", src, diff(export(o.L), out), t.show())
	default:
		t.Out("acc: printed")
	}
}

// famAcc: the command with journals and with sources which cannot be opened
func famAcc() Family {
	bad := []string{"nosuch:x", "nosuch://x/y", "", ".", "nofile", "txtdb:nodir", "txtdb:", "ledger:nofile", "mailto:a@b"}
	args := [][]string{{}, {"j", "j"}, {"j", "k", "l"}}
	texts := append(append([]string(nil), repJournals...), musJournals...)
	texts = append(texts, "2020-01-05 t\n  A  1 X\n  B  1 X\n", "include nosuch\n", "", "P 2020-01-05 X 2 Y\nP 2020-01-04 X 2 Y\n")
	ways := []string{"%s", "file:%s", "ledger:%s"}
	n := len(texts) * len(ways)
	return Family{Name: "acc", Desc: fmt.Sprintf("the acc command with %d journals, named in %d ways, %d sources which cannot be opened and wrong numbers of arguments", len(texts), len(ways), len(bad)), N: int64(n + len(bad) + len(args)), Run: func(t *T, i int64) {
		t.files = map[string]string{}
		t.Trace()
		t.StateHash(uint64(i))
		switch k := int(i) - n; {
		case k < 0:
			p := t.WriteFile("j", texts[int(i)/len(ways)])
			src := fmt.Sprintf(ways[int(i)%len(ways)], p)
			t.Sample(src + t.show())
			o := t.OpenSource(src)
			t.acc29(src, o)
			if o.L != nil {
				t.Nontrivial()
				closeLedger(o.L)
			}
		case k < len(bad):
			t.acc29(bad[k], Opened{})
		default:
			t.WriteFile("j", texts[0])
			out, errs, code := t.runCmd(os.Getenv("MC_ACC"), true, args[k-len(bad)]...)
			if code == 0 || errs == "" || out != "" {
				t.Failf("acc %q should fail (exit %d)\n%s%s", args[k-len(bad)], code, out, errs)
			}
			t.Out("acc: refused")
		}
	}}
}

func init() {
	register(&Check{ID: "C29", Rule: "each case is a txtdb directory or a PostgreSQL database: the ledger it gives is printed, read back as a journal and compared, and in some of them the real acc command is run",
		Assumptions: []string{"names and descriptions are those which can be written in a journal"},
		Families: func(th bool) []Family {
			n, m := 4, 3
			if th {
				n, m = 5, 4
			}
			as := famTxtAccounts(4)
			if th {
				as = famTxtAccounts(5)
			}
			fs := []Family{famTxtAccounts(2), famTxtAccounts(3), as, famTxtLines("lines", txtLines, n), famTxtLines("right", txtLines[:10], n+1), famTxtAmounts(th), famTxtLong(th)}
			for _, f := range []Family{famPgAccounts(2), famPgAccounts(3), famPgRows(m), famPgTxns(m), famPgAmounts(th), famPgBig()} {
				f.Name = "pg-" + f.Name
				f.Desc = "PostgreSQL: " + f.Desc
				fs = append(fs, f)
			}
			for i := range fs {
				fs[i] = opening(fs[i], (*T).printed29)
			}
			return append(fs, famAcc())
		}})
}
