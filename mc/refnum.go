package main

// Reference reader of amounts, written from the documentation: it considers
// every way to give a meaning to the punctuation marks, instead of scanning.

import (
	"errors"
	"math"
	"math/big"
	"strings"
	"unicode"
)

const unit = 100_000_000

var bigMax = big.NewInt(math.MaxInt64)

type numResult struct {
	amount   int64
	decimals int
	T, D     string // signs known after reading it
}

var errRefused = errors.New("refused")
var errAmbiguous = errors.New("ambiguous")

func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isMark(c byte) bool  { return strings.IndexByte(".,_'", c) >= 0 }

// refNumber reads a number, given the thousand and decimal signs already known (or "").
func refNumber(s, T, D string) (numResult, error) {
	var r numResult
	neg := false
	if s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" || !isDigit(s[0]) || !isDigit(s[len(s)-1]) {
		return r, errRefused
	}
	marks := map[string]bool{}
	for i := 0; i < len(s); i++ {
		if !isDigit(s[i]) {
			if !isMark(s[i]) {
				return r, errRefused
			}
			marks[s[i:i+1]] = true
		}
	}
	type reading struct {
		integer, fraction string
		t, d              string
	}
	var readings []reading
	cand := []string{""}
	for m := range marks {
		cand = append(cand, m)
	}
	for _, t := range cand { // sign used as thousand sign in this number, if any
		for _, d := range cand { // sign used as decimal sign in this number, if any
			if t != "" && t == d {
				continue
			}
			if t != "" && T != "" && t != T || d != "" && D != "" && d != D {
				continue
			}
			if t != "" && t == D || d != "" && d == T {
				continue
			}
			ok := true
			for m := range marks {
				if m != t && m != d {
					ok = false
				}
			}
			if !ok {
				continue
			}
			integer, fraction := s, ""
			if d != "" {
				parts := strings.Split(s, d)
				if len(parts) != 2 {
					continue
				}
				integer, fraction = parts[0], parts[1]
			}
			if t != "" {
				if strings.Contains(fraction, t) {
					continue
				}
				groups := strings.Split(integer, t)
				if len(groups) < 2 || len(groups[0]) < 1 || len(groups[0]) > 3 {
					continue
				}
				for _, g := range groups[1:] {
					if len(g) != 3 {
						ok = false
					}
				}
				if !ok {
					continue
				}
				integer = strings.Join(groups, "")
			}
			readings = append(readings, reading{integer, fraction, t, d})
		}
	}
	if len(readings) == 0 {
		return r, errRefused
	}
	if len(readings) > 1 {
		return r, errAmbiguous
	}
	x := readings[0]
	if len(x.fraction) > 8 {
		return r, errRefused
	}
	v, ok := new(big.Int).SetString(x.integer+x.fraction+strings.Repeat("0", 8-len(x.fraction)), 10)
	if !ok || v.Cmp(bigMax) > 0 {
		return r, errRefused
	}
	r.amount = v.Int64()
	if neg {
		r.amount = -r.amount
	}
	r.decimals = len(x.fraction)
	r.T, r.D = T, D
	if x.t != "" {
		r.T = x.t
	}
	if x.d != "" {
		r.D = x.d
	}
	if r.D == "" {
		r.D = "."
		if r.T == "." {
			r.D = ","
		}
	}
	return r, nil
}

type layout struct {
	number, currency string
	before, nospace  bool
}

const numChars = "-+0123456789.,_'"

// refLayout splits a value in number and currency.
func refLayout(s string) (layout, error) {
	var l layout
	if s == "" {
		return l, errRefused
	}
	if s[0] == '-' || s[0] == '+' || isDigit(s[0]) {
		n := 0
		for n < len(s) && strings.IndexByte(numChars, s[n]) >= 0 {
			n++
		}
		l.number = s[:n]
		rest := s[n:]
		l.nospace = rest != "" && strings.TrimLeftFunc(rest, unicode.IsSpace) == rest
		l.currency = strings.TrimSpace(rest)
	} else {
		n := len(s)
		for n > 0 && strings.IndexByte(numChars, s[n-1]) >= 0 {
			n--
		}
		l.before = true
		l.number = s[n:]
		head := s[:n]
		l.nospace = head != "" && strings.TrimRightFunc(head, unicode.IsSpace) == head
		l.currency = strings.TrimSpace(head)
		if l.number == "" {
			return l, errRefused
		}
	}
	if strings.ContainsAny(l.currency, "=@") {
		return l, errRefused
	}
	return l, nil
}
