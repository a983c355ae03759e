From 329557e16144c14e514e823cf0c8e57848456a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:49 +0000
Subject: [PATCH 01/89] fix: ledger: report an unreadable journal instead of
 returning an empty or partial ledger

---
 backend/ledger/ledger.go | 4 +++-
 backend/ledger/parser.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 9c27f33..c6369d7 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -30,7 +30,9 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.file = url.Path
 	conn.backend = backend
 	conn.ledger = backend.Ledger
-	conn.readJournal()
+	if err = conn.readJournal(); err != nil {
+		return nil, err
+	}
 	return conn, nil
 }
 
diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 1973619..0bc69c4 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -188,7 +188,9 @@ func (l *ledgerConnection) readJournal() error {
 	l.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
 	l.ledger.DefaultCurrency = nil
 	s := NewScanner()
-	s.NewFile(l.file)
+	if err := s.NewFile(l.file); err != nil {
+		return err
+	}
 
 	lastLine := lineNone
 	for {
-- 
2.43.0


From eb1b4fbb7f27910682d119c3a397b30d981d5f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:50 +0000
Subject: [PATCH 02/89] fix: ledger: refuse a file which includes itself

---
 backend/ledger/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 0bc69c4..61da921 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -99,6 +99,17 @@ func (s *Scanner) NewFile(filename string) error {
 	if err != nil {
 		return err
 	}
+	info, err := f.Stat()
+	if err != nil {
+		f.Close()
+		return err
+	}
+	for _, file := range s.files {
+		if info2, err := file.f.Stat(); err == nil && os.SameFile(info, info2) {
+			f.Close()
+			return fmt.Errorf("%s is already being read", filename)
+		}
+	}
 	s2 := bufio.NewScanner(f)
 	s.files = append(s.files, scannerFile{f: f, s: s2, filename: filename})
 	return nil
-- 
2.43.0


From 46b3aac944f8e0e6c7034742de1f5b0a6a574eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:51 +0000
Subject: [PATCH 03/89] fix: ledger: thousand signs must split the amount in
 groups of three digits, in every amount

---
 backend/ledger/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 61da921..7c1c23c 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -557,7 +557,7 @@ done2:
 		}
 		if value.Currency.Thousand == string(c) || (value.Currency.Thousand == "" && value.Currency.Decimal != "" && value.Currency.Decimal != string(c)) {
 			value.Currency.Thousand = string(c)
-			if (thousandPos == -1 && i > 3) || i-thousandPos != 4 || decimalPos > -1 {
+			if (thousandPos == -1 && i > 3) || (thousandPos > -1 && i-thousandPos != 4) || decimalPos > -1 {
 				return value, fmt.Errorf("syntax error: wrong position for thousand sign '%s'", value.Currency.Thousand), newCurrency
 			}
 			thousandPos = i
@@ -601,6 +601,9 @@ done2:
 	if punct != "" {
 		return value, fmt.Errorf("syntax error: punctuation '%s' can be a thousand or a decimal", punct), newCurrency
 	}
+	if thousandPos > -1 && decimalPos == -1 && len(sAmount)-thousandPos != 4 {
+		return value, fmt.Errorf("syntax error: wrong position for thousand sign '%s'", value.Currency.Thousand), newCurrency
+	}
 	shift := 0
 	if decimalPos == -1 {
 		shift = 8
-- 
2.43.0


From d994ecdb7f485d3f770b8c8a214f7072c1b4e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:52 +0000
Subject: [PATCH 04/89] fix: ledger: accept ' as punctuation also when the
 currency goes before the amount

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 7c1c23c..db832d2 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -486,7 +486,7 @@ func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
 		// first currency, then amount
 		value.Currency.PrintBefore = true
 		for i := len(s) - 1; i >= 0; i-- {
-			if !strings.ContainsRune("-+0123456789.,_", rune(s[i])) {
+			if !strings.ContainsRune("-+0123456789.,_'", rune(s[i])) {
 				if !unicode.IsSpace(rune(s[i])) {
 					value.Currency.WithoutSpace = true
 				}
-- 
2.43.0


From 7bd3863e401fdae165278c8f025bafd4a72cc44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:53 +0000
Subject: [PATCH 05/89] fix: ledger: refuse amounts which do not fit instead of
 silently wrapping around

---
 backend/ledger/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index db832d2..d83446c 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"math/big"
 	"os"
 	"path"
@@ -418,6 +419,10 @@ func (l *ledgerConnection) readJournal() error {
 					k := big.NewInt(s.Value.Amount)
 					k.Mul(k, big.NewInt(value.Amount))
 					k.Quo(k, big.NewInt(accounting.U))
+					if !k.IsInt64() {
+						log.Printf("%s:%d: syntax error: price too big\n", line.Filename, line.LineNum)
+						continue
+					}
 					value.Amount = k.Int64()
 				}
 				l.ledger.SplitPrices[s] = value
@@ -539,6 +544,9 @@ done2:
 	}
 	for i, c := range sAmount {
 		if c >= '0' && c <= '9' {
+			if value.Amount > (math.MaxInt64-int64(c-'0'))/10 {
+				return value, errors.New("syntax error: amount too big"), newCurrency
+			}
 			value.Amount *= 10
 			value.Amount += int64(c - '0')
 			continue
@@ -618,6 +626,9 @@ done2:
 		return value, fmt.Errorf("syntax error: too many decimal numbers"), newCurrency
 	}
 	for i := 0; i < shift; i++ {
+		if value.Amount > math.MaxInt64/10 {
+			return value, errors.New("syntax error: amount too big"), newCurrency
+		}
 		value.Amount *= 10
 	}
 	value.Amount *= sign
-- 
2.43.0


From 16a7c8b812c954c717fb74bc335e20b68720c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:39 +0000
Subject: [PATCH 06/89] fix: ledger: a syntax error in an amount must not
 define or modify currencies

---
 backend/ledger/parser.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index d83446c..d292ebf 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -466,7 +466,34 @@ func (l *ledgerConnection) getAccount(filename string, lineNum int, str string)
 	return &account, true
 }
 
+// getValue parses a value.  If there is a syntax error, it leaves
+// all the currencies as they were.
 func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
+	currencies := l.ledger.Currencies
+	saved := make([]accounting.Currency, len(currencies))
+	for i, c := range currencies {
+		saved[i] = *c
+	}
+	defaultCurrency := l.ledger.DefaultCurrency
+	var savedDefault accounting.Currency
+	if defaultCurrency != nil {
+		savedDefault = *defaultCurrency
+	}
+	value, err, newCurrency := l.parseValue(s)
+	if err != nil {
+		l.ledger.Currencies = currencies
+		for i, c := range currencies {
+			*c = saved[i]
+		}
+		l.ledger.DefaultCurrency = defaultCurrency
+		if defaultCurrency != nil {
+			*defaultCurrency = savedDefault
+		}
+	}
+	return value, err, newCurrency
+}
+
+func (l *ledgerConnection) parseValue(s string) (accounting.Value, error, bool) {
 	var value accounting.Value
 	value.Currency = new(accounting.Currency)
 	var sAmount string
-- 
2.43.0


From be9ef5ac88c47261f14b937fead96eafdd5c4805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:41 +0000
Subject: [PATCH 07/89] fix: ledger: take the format of a currency from its
 first amount even if a price line names it before

---
 backend/ledger/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index d292ebf..35c2d8e 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -536,6 +536,7 @@ done:
 		return value, errors.New("syntax error: invalid character in currency"), false
 	}
 	newCurrency := true
+	newFormat := false
 	if value.Currency.Name == "" {
 		if l.ledger.DefaultCurrency == nil {
 			l.ledger.DefaultCurrency = value.Currency
@@ -546,6 +547,12 @@ done:
 	} else {
 		for _, c := range l.ledger.Currencies {
 			if c.Name == value.Currency.Name {
+				if c.Decimal == "" {
+					// it has only been seen in price lines, without any amount
+					c.PrintBefore = value.Currency.PrintBefore
+					c.WithoutSpace = value.Currency.WithoutSpace
+					newFormat = true
+				}
 				value.Currency = c
 				newCurrency = false
 				goto done2
@@ -644,7 +651,7 @@ done2:
 		shift = 8
 	} else {
 		shift = len(sAmount) - decimalPos - 1
-		if newCurrency {
+		if newCurrency || newFormat {
 			value.Currency.Precision = shift
 		}
 		shift = 8 - shift
-- 
2.43.0


From 25df6bfa78b6342933531350529985029820ce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:42 +0000
Subject: [PATCH 08/89] fix: ledger: attach the comments after a commodity line
 to that commodity

---
 backend/ledger/parser.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 35c2d8e..16f8d69 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -205,6 +205,7 @@ func (l *ledgerConnection) readJournal() error {
 	}
 
 	lastLine := lineNone
+	var lastCommodity *accounting.Currency
 	for {
 		line := s.Line()
 		if line.Err != nil {
@@ -235,8 +236,7 @@ func (l *ledgerConnection) readJournal() error {
 					var account *accounting.Account = l.ledger.Accounts[len(l.ledger.Accounts)-1]
 					l.addComment(account, comment)
 				case lineCommodity:
-					var currency *accounting.Currency = l.ledger.Currencies[len(l.ledger.Currencies)-1]
-					l.addComment(currency, comment)
+					l.addComment(lastCommodity, comment)
 				case linePrice:
 					var price *accounting.Price = l.ledger.Prices[len(l.ledger.Prices)-1]
 					l.addComment(price, comment)
@@ -313,12 +313,20 @@ func (l *ledgerConnection) readJournal() error {
 			continue
 		}
 		if !indented && word == "commodity" {
-			lastLine = lineCommodity
-			_, err, _ := l.getValue(rest)
+			lastLine = lineNone
+			value, err, _ := l.getValue(rest)
+			if err == nil && value.Currency == nil {
+				err = errors.New("commodity without value")
+			}
 			if err != nil {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
 			}
+			lastLine = lineCommodity
+			lastCommodity = value.Currency
+			if comment != "" {
+				l.addComment(lastCommodity, comment)
+			}
 			continue
 		}
 		if !indented && word == "account" {
-- 
2.43.0


From 84aaa08b91d60116bf4511443a8d23c7cbda9153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:43 +0000
Subject: [PATCH 09/89] fix: ledger: keep the comment in an account line

---
 backend/ledger/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 16f8d69..b040cee 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -331,10 +331,13 @@ func (l *ledgerConnection) readJournal() error {
 		}
 		if !indented && word == "account" {
 			lastLine = lineAccount
-			_, new := l.getAccount(line.Filename, line.LineNum, rest)
+			account, new := l.getAccount(line.Filename, line.LineNum, rest)
 			if new == false {
 				log.Fatalf("%s:%d: account already defined", line.Filename, line.LineNum)
 			}
+			if comment != "" {
+				l.addComment(account, comment)
+			}
 			continue
 		}
 		if !indented {
-- 
2.43.0


From c9030be73c6f154622c43e27eb3f6b90435bc48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 10/89] fix: ledger: keep the unknown tags in the comments of a
 commodity

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index b040cee..8bb64e6 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -182,8 +182,8 @@ func (l *ledgerConnection) addComment(where interface{}, comment string) {
 	case *accounting.Currency:
 		if tag.Name == "isin" {
 			x.ISIN = tag.Value
+			return
 		}
-		return
 	}
 	// Unknown tag:
 	l.ledger.Comments[where] = append(l.ledger.Comments[where], comment)
-- 
2.43.0


From 3158f4b5282aa30586b4624f80dd4270459cf02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:46 +0000
Subject: [PATCH 11/89] fix: ledger: do not attach lines to the entry before a
 line with a syntax error

---
 backend/ledger/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 8bb64e6..9920657 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -85,6 +85,7 @@ const (
 	lineTransaction
 	lineSplit
 	lineInclude
+	lineWrongSplit
 )
 
 func NewScanner() *Scanner {
@@ -270,6 +271,7 @@ func (l *ledgerConnection) readJournal() error {
 		if !indented && word == "P" {
 			var price accounting.Price
 			var err error
+			lastLine = lineNone
 			// set price
 			date, rest := firstWord(rest)
 			price.Time, err = GetDate(date)
@@ -358,8 +360,9 @@ func (l *ledgerConnection) readJournal() error {
 				continue
 			}
 		}
-		if indented && (lastLine == lineTransaction || lastLine == lineSplit) {
+		if indented && (lastLine == lineTransaction || lastLine == lineSplit || lastLine == lineWrongSplit) {
 			// this is a split
+			lastLine = lineWrongSplit // until we know it is correct
 			t := l.ledger.Transactions[len(l.ledger.Transactions)-1]
 			s := new(accounting.Split)
 			s.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
@@ -453,6 +456,9 @@ func (l *ledgerConnection) readJournal() error {
 			lastLine = lineSplit
 			continue
 		}
+		if !indented {
+			lastLine = lineNone
+		}
 		log.Printf("%s:%d: UNIMPLEMENTED: \"%s\" (%s)\n", line.Filename, line.LineNum, text, comment)
 	}
 	return nil
-- 
2.43.0


From b4807b504d759ca5c1312aa0de46384b10bce5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:47 +0000
Subject: [PATCH 12/89] fix: ledger: refuse prices and balance assertions
 without a value

---
 backend/ledger/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 9920657..a7b813d 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -293,6 +293,9 @@ func (l *ledgerConnection) readJournal() error {
 			if comment != "" {
 				l.addComment(&price, comment)
 			}
+			if err == nil && price.Value.Currency == nil {
+				err = errors.New("price without value")
+			}
 			if err != nil {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
@@ -422,6 +425,9 @@ func (l *ledgerConnection) readJournal() error {
 			}
 			if hasPriceRel || hasPriceAbs {
 				value, err, newCurrency := l.getValue(strings.TrimSpace(text[priceStart:priceEnd]))
+				if err == nil && value.Currency == nil {
+					err = errors.New("syntax error: price without value")
+				}
 				if err != nil {
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
 					continue
@@ -443,6 +449,9 @@ func (l *ledgerConnection) readJournal() error {
 			}
 			if hasAssertion {
 				value, err, newCurrency := l.getValue(strings.TrimSpace(text[assertionStart:assertionEnd]))
+				if err == nil && value.Currency == nil {
+					err = errors.New("syntax error: balance assertion without value")
+				}
 				if err != nil {
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
 					continue
-- 
2.43.0


From 162f0f66f0b62c062a04ab9a7b08b62adbc8f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:48 +0000
Subject: [PATCH 13/89] fix: ledger: report wrong comments in the log, not in
 the standard output

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index a7b813d..298452b 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -249,7 +249,7 @@ func (l *ledgerConnection) readJournal() error {
 					var split *accounting.Split = transaction.Splits[len(transaction.Splits)-1]
 					l.addComment(split, comment)
 				default:
-					fmt.Printf("%s:%d: Wrong indented comment: \"%s\"\n", line.Filename, line.LineNum, comment)
+					log.Printf("%s:%d: Wrong indented comment: \"%s\"\n", line.Filename, line.LineNum, comment)
 				}
 			}
 			continue
-- 
2.43.0


From 86024573262bdbaf756030949242e8a63d9cc08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 14/89] fix: ledger: a total price (@@) has the sign of the
 amount it is the price for

---
 backend/ledger/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 298452b..0ab625d 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -444,6 +444,9 @@ func (l *ledgerConnection) readJournal() error {
 						continue
 					}
 					value.Amount = k.Int64()
+				} else if s.Value.Amount < 0 && value.Amount > 0 {
+					// The total price is given without sign
+					value.Amount = -value.Amount
 				}
 				l.ledger.SplitPrices[s] = value
 			}
-- 
2.43.0


From 599b5520a2b3bc9e2f663a219e5bfa6ac8492104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 15/89] fix: ledger: refuse a price for a posting without
 amount

---
 backend/ledger/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 0ab625d..6ddba47 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -428,6 +428,9 @@ func (l *ledgerConnection) readJournal() error {
 				if err == nil && value.Currency == nil {
 					err = errors.New("syntax error: price without value")
 				}
+				if err == nil && s.Value.Currency == nil {
+					err = errors.New("syntax error: price without amount")
+				}
 				if err != nil {
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
 					continue
-- 
2.43.0


From 71d668b02a2924afa7d6914b30189925d001831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:40 +0000
Subject: [PATCH 16/89] fix: ledger: a wrong price line must not define
 currencies

---
 backend/ledger/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 6ddba47..5bd7c3d 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -283,6 +283,11 @@ func (l *ledgerConnection) readJournal() error {
 				log.Fatalf("%s:%d: price is not chronologically sorted", line.Filename, line.LineNum)
 			}
 			currency, rest := firstWord(rest)
+			if currency == "" {
+				log.Printf("%s:%d: Syntax error: price without currency", line.Filename, line.LineNum)
+				continue
+			}
+			currencies := l.ledger.Currencies
 			price.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
 			var newCurrency bool
 			price.Currency, newCurrency = l.ledger.GetCurrency(currency)
@@ -297,6 +302,7 @@ func (l *ledgerConnection) readJournal() error {
 				err = errors.New("price without value")
 			}
 			if err != nil {
+				l.ledger.Currencies = currencies
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
 			}
-- 
2.43.0


From adf43af72c31dd20d80512498c3cb58b4aa1ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:41 +0000
Subject: [PATCH 17/89] fix: ledger, txtdb: allow relative file names after the
 scheme

---
 backend/ledger/ledger.go | 3 +++
 backend/txtdb/txtdb.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index c6369d7..0b40ee6 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -28,6 +28,9 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	}
 	conn := new(ledgerConnection)
 	conn.file = url.Path
+	if url.Opaque != "" { // relative path after the scheme
+		conn.file = url.Opaque
+	}
 	conn.backend = backend
 	conn.ledger = backend.Ledger
 	if err = conn.readJournal(); err != nil {
diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 4c02b90..715f58a 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -42,6 +42,9 @@ func (p driver) Open(name string, backend *accounting.Backend) (accounting.Conne
 	}
 	conn := new(conn)
 	conn.dir = url.Path
+	if url.Opaque != "" { // relative path after the scheme
+		conn.dir = url.Opaque
+	}
 	conn.accountMap = make(map[int]*accounting.Account)
 	conn.currency.Precision = 2
 	conn.backend = backend
-- 
2.43.0


From b458e7425a4993f2d43e3377cc24b8c306da07bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 18/89] fix: GetBalance: before its first movement the balance
 of an account is its start balance

---
 accounting.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 002612c..1ac5458 100644
--- a/accounting.go
+++ b/accounting.go
@@ -319,11 +319,14 @@ func (a Account) FullName() string {
 // If passed the zero value, it gets the current balance.
 func (l *Ledger) GetBalance(account *Account, when time.Time) Balance {
 	if len(account.Splits) == 0 {
-		return nil
+		return account.StartBalance
 	}
 	if (when == time.Time{}) {
 		return account.Splits[len(account.Splits)-1].Balance
 	}
+	if account.Splits[0].Time.After(when) {
+		return account.StartBalance
+	}
 	for i := 1; i < len(account.Splits); i++ {
 		if account.Splits[i].Time.After(when) {
 			return account.Splits[i-1].Balance
-- 
2.43.0


From ab2bd92cb81a926c375cf9cc0006c3eaedcd79b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:19 +0000
Subject: [PATCH 19/89] fix: Convert: do not loop forever when there is no
 price to get to the currency

---
 accounting.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/accounting.go b/accounting.go
index 1ac5458..56f8336 100644
--- a/accounting.go
+++ b/accounting.go
@@ -522,6 +522,14 @@ func insertAccount(where *[]*Account, account *Account) {
 
 // Convert returns a value to another currency.
 func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, error) {
+	if currency == nil {
+		return v, fmt.Errorf("could not convert %q: no currency to convert to", v)
+	}
+	return l.convert(v, when, currency, make(map[*Currency]bool))
+}
+
+// convert does the work of Convert, without going through the currencies already visited.
+func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited map[*Currency]bool) (Value, error) {
 	if v.Currency == currency {
 		//fmt.Printf("Convert(%s,%s,%s) = %s (1)\n", v, when.Format("2006-01-02"), currency.Name, v)
 		return v, nil
@@ -550,8 +558,9 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 		break
 	}
 	if prevTime == (time.Time{}) && nextTime == (time.Time{}) { // no price match
+		visited[v.Currency] = true
 		for _, p := range l.Prices {
-			if p.Currency != v.Currency {
+			if p.Currency != v.Currency || visited[p.Value.Currency] {
 				continue
 			}
 			if p.Time.Before(when) {
@@ -573,7 +582,11 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 		if err != nil {
 			return nv, err
 		}
-		return l.Convert(nv, when, currency)
+		res, err := l.convert(nv, when, currency, visited)
+		if err != nil { // there is no way through that currency: try another one
+			return l.convert(v, when, currency, visited)
+		}
+		return res, nil
 	}
 	if nextTime == (time.Time{}) {
 		prevValue.Mul(v)
-- 
2.43.0


From f08938e962c9abaca7d30e179e0ad4ecda0ff9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 20/89] fix: Clone: keep the currency of the amounts without a
 currency name

---
 accounting.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/accounting.go b/accounting.go
index 56f8336..4eb844f 100644
--- a/accounting.go
+++ b/accounting.go
@@ -192,6 +192,36 @@ func (l *Ledger) Clone() *Ledger {
 		mapPrices[p] = new(Price)
 	}
 
+	// There may be values with currencies which are not in l.Currencies
+	addCurrency := func(c *Currency) {
+		if c != nil && mapCurrencies[c] == nil {
+			mapCurrencies[c] = new(Currency)
+			*mapCurrencies[c] = *c
+		}
+	}
+	addCurrency(l.DefaultCurrency)
+	for _, a := range l.Accounts {
+		for _, v := range a.StartBalance {
+			addCurrency(v.Currency)
+		}
+	}
+	for s := range mapSplits {
+		addCurrency(s.Value.Currency)
+		for _, v := range s.Balance {
+			addCurrency(v.Currency)
+		}
+	}
+	for _, v := range l.Assertions {
+		addCurrency(v.Currency)
+	}
+	for _, v := range l.SplitPrices {
+		addCurrency(v.Currency)
+	}
+	for _, p := range l.Prices {
+		addCurrency(p.Currency)
+		addCurrency(p.Value.Currency)
+	}
+
 	res := new(Ledger)
 	res.connection = l.connection
 	res.Accounts = make([]*Account, len(l.Accounts))
-- 
2.43.0


From ca36f242185eeec94c1118c7f82127f6f64bf101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 21/89] fix: Clone: copy the comments

---
 accounting.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 4eb844f..a4ae515 100644
--- a/accounting.go
+++ b/accounting.go
@@ -303,7 +303,31 @@ func (l *Ledger) Clone() *Ledger {
 		np.Value.Currency = mapCurrencies[p.Value.Currency]
 	}
 	res.Comments = make(map[interface{}][]string)
-	// TODO: Comments are not deep-copied (I have to deal with interface{})
+	for where, comments := range l.Comments {
+		switch x := where.(type) {
+		case *Account:
+			if n, ok := mapAccounts[x]; ok {
+				where = n
+			}
+		case *Transaction:
+			if n, ok := mapTransactions[x]; ok {
+				where = n
+			}
+		case *Split:
+			if n, ok := mapSplits[x]; ok {
+				where = n
+			}
+		case *Currency:
+			if n, ok := mapCurrencies[x]; ok {
+				where = n
+			}
+		case *Price:
+			if n, ok := mapPrices[x]; ok {
+				where = n
+			}
+		}
+		res.Comments[where] = append([]string(nil), comments...)
+	}
 	res.Assertions = make(map[*Split]Value)
 	for s, v := range l.Assertions {
 		v.Currency = mapCurrencies[v.Currency]
-- 
2.43.0


From f1ae7d02ef4699a8088087a20a7120b079019416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:44 +0000
Subject: [PATCH 22/89] fix: Fill: ledgers must not share the splits of their
 transfer account

---
 accounting.go | 26 ++++++++++++++++----------
 types.go      |  1 +
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/accounting.go b/accounting.go
index a4ae515..bd2f4a6 100644
--- a/accounting.go
+++ b/accounting.go
@@ -247,6 +247,7 @@ func (l *Ledger) Clone() *Ledger {
 			na.StartBalance[k].Currency = mapCurrencies[v.Currency]
 		}
 	}
+	res.transfer = mapAccounts[l.transfer]
 	res.Transactions = make([]*Transaction, len(l.Transactions))
 	for i, t := range l.Transactions {
 		nt := mapTransactions[t]
@@ -663,6 +664,11 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited ma
 
 // Fill re-calculates all the automatic fields in all the accounting data.
 func (l *Ledger) Fill() error {
+	if l.transfer == nil {
+		// Every ledger has its own transfer account
+		l.transfer = new(Account)
+		*l.transfer = TransferAccount
+	}
 	for _, a := range l.Accounts {
 		a.Splits = nil
 		a.Children = nil
@@ -689,7 +695,7 @@ func (l *Ledger) Fill() error {
 				break
 			}
 			l.Transactions[i].Splits[j].Balance = nil
-			if l.Transactions[i].Splits[j].Account == &TransferAccount {
+			if l.Transactions[i].Splits[j].Account == l.transfer {
 				l.Transactions[i].Splits[j] = l.Transactions[i].Splits[len(l.Transactions[i].Splits)-1]
 				l.Transactions[i].Splits = l.Transactions[i].Splits[:len(l.Transactions[i].Splits)-1]
 			}
@@ -877,17 +883,17 @@ func (l *Ledger) Fill() error {
 
 	// Create fake splits in transactions with different times.
 	for i := range l.Accounts {
-		if l.Accounts[i] == &TransferAccount {
+		if l.Accounts[i] == l.transfer {
 			goto transferAlreadyInAccounts
 		}
 	}
-	l.Accounts = append(l.Accounts, &TransferAccount)
+	l.Accounts = append(l.Accounts, l.transfer)
 transferAlreadyInAccounts:
 	for i := range l.Transactions {
 		for j := range l.Transactions[i].Splits {
 			if l.Transactions[i].Splits[j].Time != &l.Transactions[i].Time {
 				split1 := &Split{
-					Account:     &TransferAccount,
+					Account:     l.transfer,
 					Transaction: l.Transactions[i],
 					Time:        l.Transactions[i].Splits[j].Time,
 					Value: Value{
@@ -896,7 +902,7 @@ transferAlreadyInAccounts:
 					},
 				}
 				split2 := &Split{
-					Account:     &TransferAccount,
+					Account:     l.transfer,
 					Transaction: l.Transactions[i],
 					Time:        &l.Transactions[i].Time,
 					Value: Value{
@@ -906,17 +912,17 @@ transferAlreadyInAccounts:
 				}
 				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split1)
 				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split2)
-				TransferAccount.Splits = append(TransferAccount.Splits, split1)
-				TransferAccount.Splits = append(TransferAccount.Splits, split2)
+				l.transfer.Splits = append(l.transfer.Splits, split1)
+				l.transfer.Splits = append(l.transfer.Splits, split2)
 			}
 		}
 	}
-	sort.SliceStable(TransferAccount.Splits, func(i, j int) bool {
-		return TransferAccount.Splits[i].Time.Before(*TransferAccount.Splits[j].Time)
+	sort.SliceStable(l.transfer.Splits, func(i, j int) bool {
+		return l.transfer.Splits[i].Time.Before(*l.transfer.Splits[j].Time)
 	})
 
 	var b Balance
-	for _, s := range TransferAccount.Splits {
+	for _, s := range l.transfer.Splits {
 		b.Add(s.Value)
 		s.Balance = b.Dup()
 	}
diff --git a/types.go b/types.go
index f306178..6563f4f 100644
--- a/types.go
+++ b/types.go
@@ -16,6 +16,7 @@ type Ledger struct {
 	Assertions      map[*Split]Value         // Value that should be in an account after one split.
 	SplitPrices     map[*Split]Value         // Price for the value in a split, in another currency.
 	DefaultCurrency *Currency                // Default currency.
+	transfer        *Account                 // Transfer account of this ledger: a copy of TransferAccount.
 	// Tags            map[interface{}][]Tag
 	// TagsByName      map[string][]struct {Value string; Place interface{}}
 }
-- 
2.43.0


From 7c79ac3188a3d0ca3acf5caac38f6cc271da79f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:45 +0000
Subject: [PATCH 23/89] fix: Fill: remove all the previous splits of the
 transfer account

---
 accounting.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/accounting.go b/accounting.go
index bd2f4a6..d6dd227 100644
--- a/accounting.go
+++ b/accounting.go
@@ -689,17 +689,14 @@ func (l *Ledger) Fill() error {
 
 	// Remove splits with transferAccount, if any:
 	for i := range l.Transactions {
-		// TODO: this may be buggy!
-		for j := range l.Transactions[i].Splits {
-			if j >= len(l.Transactions[i].Splits) {
-				break
-			}
-			l.Transactions[i].Splits[j].Balance = nil
-			if l.Transactions[i].Splits[j].Account == l.transfer {
-				l.Transactions[i].Splits[j] = l.Transactions[i].Splits[len(l.Transactions[i].Splits)-1]
-				l.Transactions[i].Splits = l.Transactions[i].Splits[:len(l.Transactions[i].Splits)-1]
+		splits := l.Transactions[i].Splits[:0]
+		for _, s := range l.Transactions[i].Splits {
+			s.Balance = nil
+			if s.Account != l.transfer {
+				splits = append(splits, s)
 			}
 		}
+		l.Transactions[i].Splits = splits
 	}
 	sort.SliceStable(l.Transactions, func(i, j int) bool {
 		return l.Transactions[i].Time.Before(l.Transactions[j].Time)
-- 
2.43.0


From 31e6aa15086c1b182860dc8de8a69ff3ed938fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:47 +0000
Subject: [PATCH 24/89] fix: Fill: do not repeat the automatic prices when
 filling again

---
 accounting.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/accounting.go b/accounting.go
index d6dd227..874ff04 100644
--- a/accounting.go
+++ b/accounting.go
@@ -687,6 +687,20 @@ func (l *Ledger) Fill() error {
 	}
 	l.Accounts = newAccounts
 
+	if l.Comments == nil {
+		l.Comments = make(map[interface{}][]string)
+	}
+	// Remove automatic prices, if any:
+	var prices []*Price
+	for _, p := range l.Prices {
+		if p.ID == nil && len(l.Comments[p]) == 1 && l.Comments[p][0] == "automatic" {
+			delete(l.Comments, p)
+			continue
+		}
+		prices = append(prices, p)
+	}
+	l.Prices = prices
+
 	// Remove splits with transferAccount, if any:
 	for i := range l.Transactions {
 		splits := l.Transactions[i].Splits[:0]
-- 
2.43.0


From b41c2d1e9f2a2f334ecc114be0b43ab082eba59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:49 +0000
Subject: [PATCH 25/89] fix: Fill: add the prices from the splits always in the
 same order

---
 accounting.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 874ff04..2c27c02 100644
--- a/accounting.go
+++ b/accounting.go
@@ -863,7 +863,16 @@ func (l *Ledger) Fill() error {
 	}
 
 	// Adding prices from splits
-	for s, v := range l.SplitPrices {
+	var pricedSplits []*Split // always in the same order
+	for _, t := range l.Transactions {
+		for _, s := range t.Splits {
+			if _, ok := l.SplitPrices[s]; ok {
+				pricedSplits = append(pricedSplits, s)
+			}
+		}
+	}
+	for _, s := range pricedSplits {
+		v := l.SplitPrices[s]
 		price := new(Price)
 		price.Time = *s.Time
 		price.Currency = s.Value.Currency
-- 
2.43.0


From 011096b68fa648132b8a397361f68afd1e1a501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:50 +0000
Subject: [PATCH 26/89] fix: Fill: do not divide by zero with a null amount or
 price in a split

---
 accounting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/accounting.go b/accounting.go
index 2c27c02..1f437b0 100644
--- a/accounting.go
+++ b/accounting.go
@@ -873,6 +873,9 @@ func (l *Ledger) Fill() error {
 	}
 	for _, s := range pricedSplits {
 		v := l.SplitPrices[s]
+		if s.Value.Amount == 0 || v.Amount == 0 {
+			continue
+		}
 		price := new(Price)
 		price.Time = *s.Time
 		price.Currency = s.Value.Currency
-- 
2.43.0


From 5638fa9924b0833f2d4a688f8b937ee455d01492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 27/89] fix: Fill: two amounts with the same sign in different
 currencies are not an exchange

---
 accounting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/accounting.go b/accounting.go
index 1f437b0..ba4715d 100644
--- a/accounting.go
+++ b/accounting.go
@@ -781,6 +781,9 @@ func (l *Ledger) Fill() error {
 			if len(balance) == 1 {
 				return fmt.Errorf("%s: could not balance transaction: total amount is %s", transaction.ID, balance[0])
 			}
+			if len(balance) == 2 && (balance[0].Amount > 0) == (balance[1].Amount > 0) {
+				return fmt.Errorf("%s: could not balance transaction: total amount is %s", transaction.ID, balance)
+			}
 			if len(balance) == 2 {
 				// we add 2 automatic prices, converting one currency to another and vice-versa
 				price := new(Price)
-- 
2.43.0


From f550b7df3e6f3db8672d33370791972c2da35fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 28/89] fix: Fill: balance assertions with a currency which was
 not in the account

---
 accounting.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index ba4715d..32f2153 100644
--- a/accounting.go
+++ b/accounting.go
@@ -832,6 +832,9 @@ func (l *Ledger) Fill() error {
 				s.Balance = b.Dup()
 				if a := l.Assertions[s]; a != (Value{}) {
 					if a.Amount == 0 && len(b) == 0 {
+						if s.Value == (Value{}) {
+							s.Value = a
+						}
 						a = Value{}
 					} else if s.Value == (Value{}) && len(b) == 0 {
 						s.Value = a
@@ -854,7 +857,14 @@ func (l *Ledger) Fill() error {
 							break
 						}
 					}
-					if a != (Value{}) {
+					if a != (Value{}) && s.Value == (Value{}) {
+						// There was nothing in that currency
+						s.Value = a
+						b.Add(s.Value)
+						s.Balance.Add(s.Value)
+						a = Value{}
+					}
+					if a.Amount != 0 {
 						return fmt.Errorf("%s: wrong assertion: %s", s.ID, a)
 					}
 				}
-- 
2.43.0


From 43b38beae882be80b970c62f973b5dde96259042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 29/89] fix: Open: close the connection if the ledger is not
 correct

---
 accounting.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/accounting.go b/accounting.go
index 32f2153..d9dbddf 100644
--- a/accounting.go
+++ b/accounting.go
@@ -46,6 +46,7 @@ func Open(dataSource string) (*Ledger, error) {
 		return nil, err
 	}
 	if err = b.Ledger.Fill(); err != nil {
+		b.Ledger.connection.Close()
 		return nil, err
 	}
 	return b.Ledger, nil
-- 
2.43.0


From 39fa6c2dc4c84c02b98ff3b4bf2d6084ecf641af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:56 +0000
Subject: [PATCH 30/89] fix: Export: comments in accounts start with ";"

---
 backend/ledger/ledger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 0b40ee6..d5a9bcb 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -58,7 +58,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		fmt.Fprint(out, "\n")
 		if len(ledger.Comments[a]) > 1 {
 			for _, c := range ledger.Comments[a][1:] {
-				fmt.Fprintf(out, "\t: %s\n", c)
+				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
 	}
-- 
2.43.0


From 69f4f2e3a8fc60d055af02f4f6e3eb12fdb2742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 31/89] fix: Export: do not show the splits of the transfer
 account, they are generated again when reading

---
 backend/ledger/ledger.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index d5a9bcb..4f288ab 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -51,6 +51,9 @@ func (conn *ledgerConnection) Refresh() {
 func Export(out io.Writer, ledger *accounting.Ledger) {
 	// fmt.Fprintln(out, "\n; Accounts:")
 	for _, a := range ledger.Accounts {
+		if a.Name == accounting.TransferAccount.Name { // automatically generated
+			continue
+		}
 		fmt.Fprintf(out, "account %s", a.FullName())
 		if len(ledger.Comments[a]) > 0 {
 			fmt.Fprintf(out, " ; %s", ledger.Comments[a][0])
@@ -108,6 +111,9 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				}
 			}
 			for _, s := range t.Splits {
+				if s.Account.Name == accounting.TransferAccount.Name { // automatically generated
+					continue
+				}
 				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), s.Value.FullString())
 				if v, ok := ledger.SplitPrices[s]; ok == true {
 					fmt.Fprintf(out, " @@ %s", v.FullString())
-- 
2.43.0


From ca612edbe9db2a7ed1fe09f3ebb5ec84d15e7867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:59 +0000
Subject: [PATCH 32/89] fix: Export: show the codes of the accounts and the
 ISINs of the currencies

---
 backend/ledger/ledger.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 4f288ab..59a8d24 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -64,6 +64,9 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
+		if a.Code != "" {
+			fmt.Fprintf(out, "\t; code:%s\n", a.Code)
+		}
 	}
 	fmt.Fprintln(out)
 	// fmt.Fprintln(out, "\n; Currencies:")
@@ -81,6 +84,9 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
+		if cu.ISIN != "" {
+			fmt.Fprintf(out, "\t; isin:%s\n", cu.ISIN)
+		}
 	}
 	fmt.Fprintln(out)
 	// fmt.Fprintln(out, "\n; Transactions and prices:")
-- 
2.43.0


From 4554c8349779885a8f08d6a29f9d0132de0eebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:01 +0000
Subject: [PATCH 33/89] fix: Export: show the seconds

---
 backend/ledger/ledger.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 59a8d24..d45467f 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -47,6 +47,14 @@ func (conn *ledgerConnection) Refresh() {
 	// TODO FIXME XXX: notifier
 }
 
+// formatTime shows the seconds only if there are any.
+func formatTime(t time.Time) string {
+	if t.Second() != 0 {
+		return t.Format("2006-01-02/15:04:05")
+	}
+	return t.Format("2006-01-02/15:04")
+}
+
 // Export shows the "Ledger" representation of an accounting ledger.
 func Export(out io.Writer, ledger *accounting.Ledger) {
 	// fmt.Fprintln(out, "\n; Accounts:")
@@ -106,7 +114,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		// fmt.Fprintf(out, "DEBUG: i=%d j=%d tt=%v tp=%v\n", i, j, tt, tp)
 		if p == nil || (t != nil && !tt.After(tp)) {
 			i++
-			fmt.Fprintf(out, "%s %s", t.Time.Format("2006-01-02/15:04"), t.Description)
+			fmt.Fprintf(out, "%s %s", formatTime(t.Time), t.Description)
 			if len(ledger.Comments[t]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[t][0])
 			}
@@ -129,7 +137,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				}
 				var comments []string
 				if *s.Time != t.Time {
-					comments = append(comments, "date:"+s.Time.Format("2006-01-02/15:04"))
+					comments = append(comments, "date:"+formatTime(*s.Time))
 				}
 				if len(ledger.Comments[s]) > 0 {
 					comments = append(comments, ledger.Comments[s]...)
@@ -146,7 +154,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		} else {
 			j++
-			fmt.Fprintf(out, "P %s %s %s", p.Time.Format("2006-01-02/15:04"), p.Currency.Name, p.Value.FullString())
+			fmt.Fprintf(out, "P %s %s %s", formatTime(p.Time), p.Currency.Name, p.Value.FullString())
 			if len(ledger.Comments[p]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[p][0])
 			}
-- 
2.43.0


From 4ca5a8a86d912107c76afdddfafcad37efd0fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 34/89] fix: Export: do not give a value to the splits without
 value in transactions already balanced

---
 backend/ledger/ledger.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index d45467f..4849de8 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -128,7 +128,11 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				if s.Account.Name == accounting.TransferAccount.Name { // automatically generated
 					continue
 				}
-				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), s.Value.FullString())
+				value := s.Value.FullString()
+				if s.Value.Amount == 0 && s.Value.Currency != nil && s.Value.Currency.Name == "" && s.Value.Currency != ledger.DefaultCurrency {
+					value = "" // this split had no value
+				}
+				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), value)
 				if v, ok := ledger.SplitPrices[s]; ok == true {
 					fmt.Fprintf(out, " @@ %s", v.FullString())
 				}
-- 
2.43.0


From 12f6a239b93694d2252d7093dd9d6337c5634f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 35/89] fix: Export: do not show prices of a currency without
 name

---
 backend/ledger/ledger.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 4849de8..17b9c13 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -158,6 +158,9 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		} else {
 			j++
+			if p.Currency.Name == "" {
+				continue // there is no way to show it
+			}
 			fmt.Fprintf(out, "P %s %s %s", formatTime(p.Time), p.Currency.Name, p.Value.FullString())
 			if len(ledger.Comments[p]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[p][0])
-- 
2.43.0


From de542f914094156c50b0d37257c51ac9b3cac5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 36/89] fix: Export: show the default currency

---
 backend/ledger/ledger.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 17b9c13..208d1d8 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -173,4 +173,9 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		}
 	}
+	// After the transactions, because they can have amounts without a currency name
+	if ledger.DefaultCurrency != nil && ledger.DefaultCurrency.Name != "" {
+		v := accounting.Value{Amount: 1_000_000 * accounting.U, Currency: ledger.DefaultCurrency}
+		fmt.Fprintf(out, "\nD %s\n", v.String())
+	}
 }
-- 
2.43.0


From fb323f7f8b31f9dd66255b41d8e9a350bad95068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 37/89] fix: txtdb: allow accounts whose parent is defined
 later

---
 backend/txtdb/txtdb.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 715f58a..8bdd646 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -75,6 +75,7 @@ func (c *conn) read() error {
 		return err
 	}
 	sc := bufio.NewScanner(f)
+	parents := make(map[*accounting.Account]int)
 	for sc.Scan() {
 		var ac accounting.Account
 		line := sc.Text()
@@ -94,11 +95,26 @@ func (c *conn) read() error {
 		ac.Code = fields[4]
 		parent, err := strconv.Atoi(fields[5])
 		if err == nil {
-			ac.Parent = c.accountMap[parent]
+			parents[&ac] = parent // it may be defined later
 		}
 		c.accountMap[id] = &ac
 		c.ledger.Accounts = append(c.ledger.Accounts, &ac)
 	}
+	for _, ac := range c.ledger.Accounts {
+		id, ok := parents[ac]
+		if !ok {
+			continue
+		}
+		parent := c.accountMap[id]
+		for p := parent; p != nil; p = p.Parent {
+			if p == ac {
+				log.Printf("accounts: %s: account is its own ancestor\n", ac.ID)
+				parent = nil
+				break
+			}
+		}
+		ac.Parent = parent
+	}
 	c.ledger.Accounts = accounting.SortAccounts(c.ledger.Accounts)
 
 	f, err = os.Open(filepath.Join(c.dir, "transactions"))
-- 
2.43.0


From 1f45f611130f23ce700a6303acc279486b5f6ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 38/89] fix: txtdb: report read errors instead of returning a
 partial ledger

---
 backend/txtdb/txtdb.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 8bdd646..cd78a15 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -100,6 +100,9 @@ func (c *conn) read() error {
 		c.accountMap[id] = &ac
 		c.ledger.Accounts = append(c.ledger.Accounts, &ac)
 	}
+	if err = sc.Err(); err != nil {
+		return err
+	}
 	for _, ac := range c.ledger.Accounts {
 		id, ok := parents[ac]
 		if !ok {
@@ -119,7 +122,10 @@ func (c *conn) read() error {
 
 	f, err = os.Open(filepath.Join(c.dir, "transactions"))
 	if err != nil {
-		return nil
+		if os.IsNotExist(err) { // no transactions yet
+			return nil
+		}
+		return err
 	}
 	sc = bufio.NewScanner(f)
 	nextID := 1
@@ -228,6 +234,9 @@ func (c *conn) read() error {
 			nextID++
 		}
 	}
+	if err = sc.Err(); err != nil {
+		return err
+	}
 	if balance != 0 {
 		log.Printf("transactions: balance is %d, not zero", balance)
 	}
-- 
2.43.0


From 79059c279601d234f0b639451e30bfd01a9ba994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:09 +0000
Subject: [PATCH 39/89] fix: txtdb: do not take the date and description of a
 transaction from a wrong line

---
 backend/txtdb/txtdb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index cd78a15..361549d 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -153,7 +153,7 @@ func (c *conn) read() error {
 		if oldTime.After(thisTime) {
 			log.Printf("transactions line %d: datetime not sorted\n", i)
 		}
-		if tr.ID == nil { // Fill tr only if it is not already filled
+		if len(tr.Splits) == 0 { // Fill tr only if it is not already filled
 			// First field (used to be "id") is ignored
 			tr.ID = ID(nextID)
 			tr.Time = thisTime
-- 
2.43.0


From 422d554fe44b68f5ce627b7fbdabbbdd0f476964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 40/89] fix: txtdb: refuse amounts which do not fit

---
 backend/txtdb/txtdb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 361549d..c5f8d9b 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -198,6 +198,9 @@ func (c *conn) read() error {
 				offset = 1
 			}
 			f, err := strconv.ParseFloat(fields[6][offset:], 64)
+			if err == nil && !(math.Abs(f) < 90_000_000_000) {
+				err = strconv.ErrRange
+			}
 			if err != nil {
 				log.Printf("transactions line %d: invalid balance (%s)", i, fields[6])
 				continue
@@ -218,6 +221,9 @@ func (c *conn) read() error {
 				continue
 			}
 			f, err := strconv.ParseFloat(fields[5][1:], 64)
+			if err == nil && !(math.Abs(f) < 90_000_000_000) {
+				err = strconv.ErrRange
+			}
 			if err != nil {
 				log.Printf("transaction line %d: invalid value (%s)", i, fields[5])
 				continue
-- 
2.43.0


From 4aab5dc18d69f20944c80238931e3fbe3371c46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:12 +0000
Subject: [PATCH 41/89] fix: cmd/ledger: with -pivot, the balances must take
 into account only the selected transactions

---
 cmd/ledger/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 5b59108..12797bc 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -421,6 +421,11 @@ func doPivot(L *accounting.Ledger, pivot sliceString) {
 				j--
 			}
 		}
+		var b accounting.Balance
+		for _, s := range L.Accounts[i].Splits {
+			b.Add(s.Value)
+			s.Balance = b.Dup()
+		}
 	}
 }
 
-- 
2.43.0


From 144609f88c3a1025d73e077563a5167bf87b39cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:13 +0000
Subject: [PATCH 42/89] fix: cmd/ledger: balance: show also the balance of the
 accounts without movements in the period

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 12797bc..5d675d0 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -139,7 +139,7 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 	}
 	if !flags.total {
 		for _, a := range accounts {
-			if len(a.Account.Splits) > 0 {
+			if len(a.Account.Splits) > 0 || len(a.Balance) > 0 {
 				for i, v := range a.Balance {
 					fmt.Printf("%*.*s", maxLength, maxLength, v.String())
 					if i == len(a.Balance)-1 {
-- 
2.43.0


From 927bff593bf2eafe4c24a4f4b29cd295af585118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 43/89] fix: cmd/ledger: delta: use the prices at the end date
 for the final balance

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 5d675d0..b28e914 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -343,7 +343,7 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 		balanceEnd.AddBalance(balanceBegin)
 		balanceEnd.AddBalance(balanceDelta)
 		for _, v := range balanceEnd {
-			nv, err := L.Convert(v, flags.beginDate, L.DefaultCurrency)
+			nv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From cee604d87bcd6184bccb535b4b2ed6267f9b373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 44/89] fix: cmd/ledger: delta: do not count an account twice
 if it matches two arguments

---
 cmd/ledger/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index b28e914..af29425 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -319,6 +319,7 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 		for _, b := range args {
 			if strings.Contains(strings.ToLower(a.FullName()), strings.ToLower(b)) {
 				accounts = append(accounts, a)
+				break
 			}
 		}
 	}
-- 
2.43.0


From 819eee81f2eac83f9f89302fb2fe1ba7e1ae95f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 45/89] fix: cmd/ledger: accounts -tree must show short names

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index af29425..9a16f5a 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -47,7 +47,7 @@ func runAccounts(L *accounting.Ledger, flags flags, args []string) error {
 
 	for _, a := range L.Accounts {
 		if treeFlag {
-			fmt.Printf("%*.0s%s\n", 2*a.Level, " ", a.FullName())
+			fmt.Printf("%*.0s%s\n", 2*a.Level, " ", a.Name)
 		} else {
 			fmt.Println(a.FullName())
 		}
-- 
2.43.0


From 41b01e176aad564d9233f427a57a0b7645c48b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:36 +0000
Subject: [PATCH 46/89] fix: ledger: a wrong line must not define accounts nor
 currencies, nor leave comments or prices

---
 backend/ledger/parser.go | 41 +++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 5bd7c3d..1d0b83d 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -287,7 +287,7 @@ func (l *ledgerConnection) readJournal() error {
 				log.Printf("%s:%d: Syntax error: price without currency", line.Filename, line.LineNum)
 				continue
 			}
-			currencies := l.ledger.Currencies
+			restore := l.saveCurrencies()
 			price.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
 			var newCurrency bool
 			price.Currency, newCurrency = l.ledger.GetCurrency(currency)
@@ -302,7 +302,8 @@ func (l *ledgerConnection) readJournal() error {
 				err = errors.New("price without value")
 			}
 			if err != nil {
-				l.ledger.Currencies = currencies
+				restore()
+				delete(l.ledger.Comments, &price)
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
 			}
@@ -378,6 +379,15 @@ func (l *ledgerConnection) readJournal() error {
 			if comment != "" {
 				l.addComment(s, comment)
 			}
+			accounts := l.ledger.Accounts
+			restore := l.saveCurrencies()
+			wrong := func(err error) { // a wrong line must not change anything
+				l.ledger.Accounts = accounts
+				restore()
+				delete(l.ledger.Comments, s)
+				delete(l.ledger.SplitPrices, s)
+				log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
+			}
 
 			var err error
 			var accountEnd int
@@ -422,7 +432,7 @@ func (l *ledgerConnection) readJournal() error {
 				var newCurrency bool
 				s.Value, err, newCurrency = l.getValue(strings.TrimSpace(text[valueStart:valueEnd]))
 				if err != nil {
-					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
+					wrong(err)
 					continue
 				}
 				if newCurrency {
@@ -438,7 +448,7 @@ func (l *ledgerConnection) readJournal() error {
 					err = errors.New("syntax error: price without amount")
 				}
 				if err != nil {
-					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
+					wrong(err)
 					continue
 				}
 				if newCurrency {
@@ -449,7 +459,7 @@ func (l *ledgerConnection) readJournal() error {
 					k.Mul(k, big.NewInt(value.Amount))
 					k.Quo(k, big.NewInt(accounting.U))
 					if !k.IsInt64() {
-						log.Printf("%s:%d: syntax error: price too big\n", line.Filename, line.LineNum)
+						wrong(errors.New("syntax error: price too big"))
 						continue
 					}
 					value.Amount = k.Int64()
@@ -465,7 +475,7 @@ func (l *ledgerConnection) readJournal() error {
 					err = errors.New("syntax error: balance assertion without value")
 				}
 				if err != nil {
-					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
+					wrong(err)
 					continue
 				}
 				if newCurrency {
@@ -504,9 +514,9 @@ func (l *ledgerConnection) getAccount(filename string, lineNum int, str string)
 	return &account, true
 }
 
-// getValue parses a value.  If there is a syntax error, it leaves
-// all the currencies as they were.
-func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
+// saveCurrencies returns a function which leaves all the currencies
+// as they were when it was called.
+func (l *ledgerConnection) saveCurrencies() func() {
 	currencies := l.ledger.Currencies
 	saved := make([]accounting.Currency, len(currencies))
 	for i, c := range currencies {
@@ -517,8 +527,7 @@ func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
 	if defaultCurrency != nil {
 		savedDefault = *defaultCurrency
 	}
-	value, err, newCurrency := l.parseValue(s)
-	if err != nil {
+	return func() {
 		l.ledger.Currencies = currencies
 		for i, c := range currencies {
 			*c = saved[i]
@@ -528,6 +537,16 @@ func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
 			*defaultCurrency = savedDefault
 		}
 	}
+}
+
+// getValue parses a value.  If there is a syntax error, it leaves
+// all the currencies as they were.
+func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
+	restore := l.saveCurrencies()
+	value, err, newCurrency := l.parseValue(s)
+	if err != nil {
+		restore()
+	}
 	return value, err, newCurrency
 }
 
-- 
2.43.0


From ec872712d6dbeb1eaa7ea8a98ebe3973fa95118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:03 +0000
Subject: [PATCH 47/89] fix: Fill: balance the transactions which do not need a
 balance assertion of a previous one

---
 accounting.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/accounting.go b/accounting.go
index d9dbddf..c9d3ad3 100644
--- a/accounting.go
+++ b/accounting.go
@@ -734,20 +734,24 @@ func (l *Ledger) Fill() error {
 
 	finished := false
 	deadlock := false
-	iTransactions := 0
+	pending := l.Transactions // not balanced yet
 	iAccounts := make(map[int]int)
 	for !finished && !deadlock {
 		finished = true
 		deadlock = true
-		for ; iTransactions < len(l.Transactions); iTransactions++ {
+		todo := pending
+		pending = nil
+	nextTransaction:
+		for _, transaction := range todo {
 			finished = false
 			// Check for the correctness of a transaction, and fill all the calculated fields
-			transaction := l.Transactions[iTransactions]
 			var unbalancedSplit *Split
 			var balance Balance
 			for i, s := range transaction.Splits {
 				if s.Value.Currency == nil && l.Assertions[s] != (Value{}) {
-					goto endTransaction
+					// it must wait until that split is known, but other transactions may not
+					pending = append(pending, transaction)
+					continue nextTransaction
 				}
 				if s.Value.Currency == nil {
 					if unbalancedSplit != nil {
@@ -816,7 +820,6 @@ func (l *Ledger) Fill() error {
 			}
 			panic("balancing transaction: unreachable code")
 		}
-	endTransaction:
 		for i := 0; i < len(l.Accounts); i++ {
 			var b Balance
 			if iAccounts[i] > 0 {
@@ -873,7 +876,7 @@ func (l *Ledger) Fill() error {
 		}
 	}
 	if !finished && deadlock {
-		return fmt.Errorf("%s: deadlock (cannot balance transaction)", l.Transactions[iTransactions].ID)
+		return fmt.Errorf("%s: deadlock (cannot balance transaction)", pending[0].ID)
 	}
 
 	// Adding prices from splits
-- 
2.43.0


From 3d79af5bd375e2b8a3c00c2e95b51eeb51ead5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 48/89] fix: Open: do not lock the list of backends while a
 backend is opening a ledger

---
 accounting.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/accounting.go b/accounting.go
index c9d3ad3..1be80d0 100644
--- a/accounting.go
+++ b/accounting.go
@@ -26,7 +26,6 @@ func Open(dataSource string) (*Ledger, error) {
 	}
 	backend := url.Scheme
 	driversMu.RLock()
-	defer driversMu.RUnlock()
 	if backend == "" {
 		for _, b := range defaultSchemes {
 			if drivers[b] != nil {
@@ -35,13 +34,15 @@ func Open(dataSource string) (*Ledger, error) {
 			}
 		}
 	}
-	if drivers[backend] == nil {
+	driver := drivers[backend]
+	driversMu.RUnlock() // not while opening: the backend can use other backends
+	if driver == nil {
 		return nil, errors.New("accounting.Open: Backend " + backend + " is not registered.")
 	}
 	b := new(Backend)
 	b.ready = true
 	b.Ledger = new(Ledger)
-	b.Ledger.connection, err = drivers[backend].Open(dataSource, b)
+	b.Ledger.connection, err = driver.Open(dataSource, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ca5f25eb38b475b9771061c4cec41e5fac8e9ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 49/89] fix: ledger: ignore empty comments, they are not shown
 as comments when printing

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 1d0b83d..7286d40 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -229,7 +229,7 @@ func (l *ledgerConnection) readJournal() error {
 		}
 		if text[0] == '*' || text[0] == '#' || text[0] == ';' {
 			comment = strings.TrimSpace(text[1:])
-			if !indented {
+			if !indented || comment == "" {
 				//fmt.Printf("%s:%d: File comment: \"%s\"\n", line.Filename, line.LineNum, comment)
 			} else {
 				switch lastLine {
-- 
2.43.0


From b23d89d4ad09ee9c7881df6e4769f756711cbe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 50/89] fix: ledger: all the amounts without currency name are
 in the same currency, even after a line D

---
 backend/ledger/ledger.go |  7 ++++---
 backend/ledger/parser.go | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 208d1d8..ddff963 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -16,9 +16,10 @@ func init() {
 }
 
 type ledgerConnection struct {
-	file    string
-	backend *accounting.Backend
-	ledger  *accounting.Ledger
+	file     string
+	backend  *accounting.Backend
+	ledger   *accounting.Ledger
+	nameless *accounting.Currency // of the amounts without currency, when there is no default one
 }
 
 func (driver) Open(name string, backend *accounting.Backend) (accounting.Connection, error) {
diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 7286d40..d42c89e 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -527,7 +527,16 @@ func (l *ledgerConnection) saveCurrencies() func() {
 	if defaultCurrency != nil {
 		savedDefault = *defaultCurrency
 	}
+	nameless := l.nameless
+	var savedNameless accounting.Currency
+	if nameless != nil {
+		savedNameless = *nameless
+	}
 	return func() {
+		l.nameless = nameless
+		if nameless != nil {
+			*nameless = savedNameless
+		}
 		l.ledger.Currencies = currencies
 		for i, c := range currencies {
 			*c = saved[i]
@@ -596,6 +605,12 @@ done:
 	newFormat := false
 	if value.Currency.Name == "" {
 		if l.ledger.DefaultCurrency == nil {
+			if l.nameless == nil {
+				l.nameless = value.Currency
+			} else {
+				value.Currency = l.nameless
+				newCurrency = false
+			}
 			l.ledger.DefaultCurrency = value.Currency
 		} else {
 			value.Currency = l.ledger.DefaultCurrency
-- 
2.43.0


From f6830079c02ce566ace76d43192955d8cae5f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 51/89] fix: Export: show the format of the amounts without
 currency name

---
 backend/ledger/ledger.go | 41 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index ddff963..725cb30 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -56,6 +56,37 @@ func formatTime(t time.Time) string {
 	return t.Format("2006-01-02/15:04")
 }
 
+// namelessCurrency returns the currency of the amounts without a currency name, if any.
+func namelessCurrency(ledger *accounting.Ledger) *accounting.Currency {
+	isNameless := func(c *accounting.Currency) bool {
+		// splits without amount have a currency with neither name nor format
+		return c != nil && c.Name == "" && c.Decimal != ""
+	}
+	if isNameless(ledger.DefaultCurrency) {
+		return ledger.DefaultCurrency
+	}
+	for _, t := range ledger.Transactions {
+		for _, s := range t.Splits {
+			for _, v := range []accounting.Value{s.Value, ledger.SplitPrices[s], ledger.Assertions[s]} {
+				if isNameless(v.Currency) {
+					return v.Currency
+				}
+			}
+		}
+	}
+	for _, p := range ledger.Prices {
+		if isNameless(p.Value.Currency) {
+			return p.Value.Currency
+		}
+	}
+	for where := range ledger.Comments {
+		if c, ok := where.(*accounting.Currency); ok && isNameless(c) {
+			return c
+		}
+	}
+	return nil
+}
+
 // Export shows the "Ledger" representation of an accounting ledger.
 func Export(out io.Writer, ledger *accounting.Ledger) {
 	// fmt.Fprintln(out, "\n; Accounts:")
@@ -79,7 +110,12 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 	}
 	fmt.Fprintln(out)
 	// fmt.Fprintln(out, "\n; Currencies:")
-	for _, cu := range ledger.Currencies {
+	currencies := ledger.Currencies
+	nameless := namelessCurrency(ledger)
+	if nameless != nil {
+		currencies = append(currencies[:len(currencies):len(currencies)], nameless)
+	}
+	for _, cu := range currencies {
 		var v accounting.Value
 		v.Amount = 1_000_000 * accounting.U
 		v.Currency = cu
@@ -179,4 +215,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		v := accounting.Value{Amount: 1_000_000 * accounting.U, Currency: ledger.DefaultCurrency}
 		fmt.Fprintf(out, "\nD %s\n", v.String())
 	}
+	if ledger.DefaultCurrency == nil && nameless != nil {
+		fmt.Fprint(out, "\nD\n")
+	}
 }
-- 
2.43.0


From b45b43919e621ab122ca86b965750788a356bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 52/89] fix: Export: show the null amounts without currency
 name, even if they are not in the default currency

---
 backend/ledger/ledger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 725cb30..8a0a409 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -166,7 +166,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 					continue
 				}
 				value := s.Value.FullString()
-				if s.Value.Amount == 0 && s.Value.Currency != nil && s.Value.Currency.Name == "" && s.Value.Currency != ledger.DefaultCurrency {
+				if s.Value.Amount == 0 && s.Value.Currency != nil && s.Value.Currency.Name == "" && s.Value.Currency != nameless {
 					value = "" // this split had no value
 				}
 				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), value)
-- 
2.43.0


From 9702d6d4c812bae70a1d5d308acd933f42707b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 53/89] fix: Export: show also the format and null amounts of a
 txtdb ledger

---
 backend/ledger/ledger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 8a0a409..942ac19 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -60,7 +60,7 @@ func formatTime(t time.Time) string {
 func namelessCurrency(ledger *accounting.Ledger) *accounting.Currency {
 	isNameless := func(c *accounting.Currency) bool {
 		// splits without amount have a currency with neither name nor format
-		return c != nil && c.Name == "" && c.Decimal != ""
+		return c != nil && c.Name == "" && *c != (accounting.Currency{})
 	}
 	if isNameless(ledger.DefaultCurrency) {
 		return ledger.DefaultCurrency
-- 
2.43.0


From 6d0d76e112b3c80692a4691440e8eeb605514f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 54/89] fix: Fill: do not create transfer splits for a split
 whose own time is that of its transaction

---
 accounting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 1be80d0..1f510aa 100644
--- a/accounting.go
+++ b/accounting.go
@@ -932,7 +932,7 @@ func (l *Ledger) Fill() error {
 transferAlreadyInAccounts:
 	for i := range l.Transactions {
 		for j := range l.Transactions[i].Splits {
-			if l.Transactions[i].Splits[j].Time != &l.Transactions[i].Time {
+			if !l.Transactions[i].Splits[j].Time.Equal(l.Transactions[i].Time) {
 				split1 := &Split{
 					Account:     l.transfer,
 					Transaction: l.Transactions[i],
-- 
2.43.0


From 4b5904ee3d97f05c99bf7e850eb310cfdf63b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 55/89] fix: Clone: copy also the currencies which only have
 comments

---
 accounting.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/accounting.go b/accounting.go
index 1f510aa..6b784c5 100644
--- a/accounting.go
+++ b/accounting.go
@@ -223,6 +223,11 @@ func (l *Ledger) Clone() *Ledger {
 		addCurrency(p.Currency)
 		addCurrency(p.Value.Currency)
 	}
+	for where := range l.Comments {
+		if c, ok := where.(*Currency); ok {
+			addCurrency(c)
+		}
+	}
 
 	res := new(Ledger)
 	res.connection = l.connection
-- 
2.43.0


From 1c67d49e3f58064699408049158efe59341afd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 56/89] fix: Clone: do not panic with transactions added since
 the last Fill

---
 accounting.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/accounting.go b/accounting.go
index 6b784c5..3cc0404 100644
--- a/accounting.go
+++ b/accounting.go
@@ -270,8 +270,8 @@ func (l *Ledger) Clone() *Ledger {
 			ns.Account = mapAccounts[s.Account]
 			ns.Transaction = mapTransactions[s.Transaction]
 			switch s.Time {
-			case &s.Transaction.Time:
-				ns.Time = &ns.Transaction.Time
+			case &t.Time:
+				ns.Time = &nt.Time
 			case nil:
 				ns.Time = nil
 			default:
-- 
2.43.0


From 13b2416a1bd558cb5550250bc039adc655c26843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 57/89] fix: Fill: add the prices from exchanges always in the
 same order, also when filling again

---
 accounting.go | 54 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/accounting.go b/accounting.go
index 3cc0404..87ef378 100644
--- a/accounting.go
+++ b/accounting.go
@@ -742,6 +742,7 @@ func (l *Ledger) Fill() error {
 	deadlock := false
 	pending := l.Transactions // not balanced yet
 	iAccounts := make(map[int]int)
+	exchanges := make(map[*Transaction]Balance)
 	for !finished && !deadlock {
 		finished = true
 		deadlock = true
@@ -796,28 +797,7 @@ func (l *Ledger) Fill() error {
 				return fmt.Errorf("%s: could not balance transaction: total amount is %s", transaction.ID, balance)
 			}
 			if len(balance) == 2 {
-				// we add 2 automatic prices, converting one currency to another and vice-versa
-				price := new(Price)
-				var i *big.Int
-				price.Time = transaction.Time
-				price.Currency = balance[0].Currency
-				i = big.NewInt(-U)
-				i.Mul(i, big.NewInt(balance[1].Amount))
-				i.Quo(i, big.NewInt(balance[0].Amount))
-				price.Value.Amount = i.Int64()
-				price.Value.Currency = balance[1].Currency
-				l.Prices = append(l.Prices, price)
-				l.Comments[price] = append(l.Comments[price], "automatic")
-				price = new(Price)
-				price.Time = transaction.Time
-				price.Currency = balance[1].Currency
-				i = big.NewInt(-U)
-				i.Mul(i, big.NewInt(balance[0].Amount))
-				i.Quo(i, big.NewInt(balance[1].Amount))
-				price.Value.Amount = i.Int64()
-				price.Value.Currency = balance[0].Currency
-				l.Prices = append(l.Prices, price)
-				l.Comments[price] = append(l.Comments[price], "automatic")
+				exchanges[transaction] = balance
 				deadlock = false
 				continue
 			}
@@ -885,6 +865,36 @@ func (l *Ledger) Fill() error {
 		return fmt.Errorf("%s: deadlock (cannot balance transaction)", pending[0].ID)
 	}
 
+	// Adding prices from exchanges, always in the same order
+	for _, t := range l.Transactions {
+		balance, ok := exchanges[t]
+		if !ok {
+			continue
+		}
+		// we add 2 automatic prices, converting one currency to another and vice-versa
+		price := new(Price)
+		var i *big.Int
+		price.Time = t.Time
+		price.Currency = balance[0].Currency
+		i = big.NewInt(-U)
+		i.Mul(i, big.NewInt(balance[1].Amount))
+		i.Quo(i, big.NewInt(balance[0].Amount))
+		price.Value.Amount = i.Int64()
+		price.Value.Currency = balance[1].Currency
+		l.Prices = append(l.Prices, price)
+		l.Comments[price] = append(l.Comments[price], "automatic")
+		price = new(Price)
+		price.Time = t.Time
+		price.Currency = balance[1].Currency
+		i = big.NewInt(-U)
+		i.Mul(i, big.NewInt(balance[0].Amount))
+		i.Quo(i, big.NewInt(balance[1].Amount))
+		price.Value.Amount = i.Int64()
+		price.Value.Currency = balance[0].Currency
+		l.Prices = append(l.Prices, price)
+		l.Comments[price] = append(l.Comments[price], "automatic")
+	}
+
 	// Adding prices from splits
 	var pricedSplits []*Split // always in the same order
 	for _, t := range l.Transactions {
-- 
2.43.0


From 3fa291f99b30dace477606a01a4254c00c813773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 58/89] fix: Convert: use also the prices at the zero time

---
 accounting.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/accounting.go b/accounting.go
index 87ef378..9d2fe2b 100644
--- a/accounting.go
+++ b/accounting.go
@@ -598,6 +598,7 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited ma
 	}
 	var prevTime, nextTime time.Time
 	var prevValue, nextValue Value
+	var hasPrev, hasNext bool // the zero time is as good as any other one
 	prevValue = v
 	for _, p := range l.Prices {
 		if p.Currency != v.Currency || p.Value.Currency != currency {
@@ -613,13 +614,15 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited ma
 		if p.Time.Before(when) {
 			prevTime = p.Time
 			prevValue = p.Value
+			hasPrev = true
 			continue
 		}
 		nextTime = p.Time
 		nextValue = p.Value
+		hasNext = true
 		break
 	}
-	if prevTime == (time.Time{}) && nextTime == (time.Time{}) { // no price match
+	if !hasPrev && !hasNext { // no price match
 		visited[v.Currency] = true
 		for _, p := range l.Prices {
 			if p.Currency != v.Currency || visited[p.Value.Currency] {
@@ -628,15 +631,17 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited ma
 			if p.Time.Before(when) {
 				prevTime = p.Time
 				prevValue = p.Value
+				hasPrev = true
 				continue
 			}
-			if prevTime == (time.Time{}) || p.Time.Sub(when) < when.Sub(prevTime) {
+			if !hasPrev || p.Time.Sub(when) < when.Sub(prevTime) {
 				prevTime = p.Time
 				prevValue = p.Value
+				hasPrev = true
 			}
 			break
 		}
-		if prevTime == (time.Time{}) {
+		if !hasPrev {
 			//fmt.Printf("Convert(%s,%s,%s) = %s (3)\n", v, when.Format("2006-01-02"), currency.Name, v)
 			return v, fmt.Errorf("could not convert %q to %q", v, currency.Name)
 		}
@@ -650,11 +655,11 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited ma
 		}
 		return res, nil
 	}
-	if nextTime == (time.Time{}) {
+	if !hasNext {
 		prevValue.Mul(v)
 		return prevValue, nil
 	}
-	if prevTime == (time.Time{}) {
+	if !hasPrev {
 		nextValue.Mul(v)
 		return nextValue, nil
 	}
-- 
2.43.0


From b5e85d13001ee4d2c2b690197f47fe55ab49ebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:21 +0000
Subject: [PATCH 59/89] fix: Convert: interpolate also between prices more than
 292 years apart

---
 accounting.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/accounting.go b/accounting.go
index 9d2fe2b..fc09986 100644
--- a/accounting.go
+++ b/accounting.go
@@ -663,17 +663,24 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited ma
 		nextValue.Mul(v)
 		return nextValue, nil
 	}
-	d1 := when.Sub(prevTime)
-	d2 := nextTime.Sub(prevTime)
+	d1 := nanoseconds(prevTime, when)
+	d2 := nanoseconds(prevTime, nextTime)
 	i := big.NewInt(nextValue.Amount - prevValue.Amount)
-	i.Mul(i, big.NewInt(int64(d1)))
-	i.Quo(i, big.NewInt(int64(d2)))
+	i.Mul(i, d1)
+	i.Quo(i, d2)
 	i.Add(i, big.NewInt(prevValue.Amount))
 	prevValue.Amount = i.Int64()
 	prevValue.Mul(v)
 	return prevValue, nil
 }
 
+// nanoseconds returns the time between two instants, which may not fit in a time.Duration.
+func nanoseconds(from, to time.Time) *big.Int {
+	n := big.NewInt(to.Unix() - from.Unix())
+	n.Mul(n, big.NewInt(int64(time.Second)))
+	return n.Add(n, big.NewInt(int64(to.Nanosecond()-from.Nanosecond())))
+}
+
 // Fill re-calculates all the automatic fields in all the accounting data.
 func (l *Ledger) Fill() error {
 	if l.transfer == nil {
-- 
2.43.0


From 9779fa24399a4ef42c9da7612142c5ba8915f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:38 +0000
Subject: [PATCH 60/89] fix: ledger: do not use an incomplete line when there
 is an error reading a file

---
 backend/ledger/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index d42c89e..66c5f95 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -125,7 +125,8 @@ func (s *Scanner) Line() ScannerLine {
 	file := s.files[len(s.files)-1]
 	line.Filename = file.filename
 	line.LineNum = file.lineNum
-	if file.s.Scan() {
+	// after an error, the last line may be incomplete
+	if file.s.Scan() && file.s.Err() == nil {
 		s.files[len(s.files)-1].lineNum++
 		line.LineNum++
 		line.Text = file.s.Text()
-- 
2.43.0


From 7ca73286df11fd117ddfe3b3c7fd11dfdd2a9e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:38 +0000
Subject: [PATCH 61/89] fix: txtdb: lines with neither value nor a right
 balance broke the transaction around them

---
 backend/txtdb/txtdb.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index c5f8d9b..b18dd29 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -180,12 +180,10 @@ func (c *conn) read() error {
 			*sp.Time = thisTime
 		}
 		if len(fields[5]) == 0 {
-			if balance != 0 {
-				log.Printf("transactions line %d: no value inside transaction (balance=%d)", i, balance)
-				balance = 0
-			}
 			if len(fields[6]) == 0 {
-				tr = nil
+				if len(tr.Splits) > 0 {
+					log.Printf("transactions line %d: neither value nor balance", i)
+				}
 				continue
 			}
 			var sign int64 = 1
@@ -205,6 +203,10 @@ func (c *conn) read() error {
 				log.Printf("transactions line %d: invalid balance (%s)", i, fields[6])
 				continue
 			}
+			if balance != 0 {
+				log.Printf("transactions line %d: no value inside transaction (balance=%d)", i, balance)
+				balance = 0
+			}
 			var v accounting.Value
 			v.Currency = &c.currency
 			v.Amount = sign * int64(math.Round(100*f)) * 1000_000
-- 
2.43.0


From 763fc15db4af8215407bc070f3233eef938254ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 62/89] fix: postgres: return an error instead of panicking,
 and never a partial ledger

---
 backend/postgres/postgres.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index bdcdcb1..6519573 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -38,6 +38,7 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 		return nil, errors.New("psql.Open: " + err.Error())
 	}
 	if err = db.Ping(); err != nil {
+		db.Close()
 		return nil, errors.New("psql.Open: " + err.Error())
 	}
 	// TODO I should check the SQL schema...
@@ -45,8 +46,13 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.db = db
 	conn.backend = backend
 	conn.ledger = backend.Ledger
-	getAccounts(conn)
-	getTransactions(conn)
+	if err = getAccounts(conn); err == nil {
+		err = getTransactions(conn)
+	}
+	if err != nil {
+		db.Close()
+		return nil, errors.New("psql.Open: " + err.Error())
+	}
 	return conn, nil
 }
 
@@ -58,7 +64,7 @@ func (c *conn) Close() error {
 	return c.db.Close()
 }
 
-func getAccounts(c *conn) {
+func getAccounts(c *conn) error {
 	ledger := c.ledger
 	query := `
 		SELECT a.id, a.name, COALESCE(a.code, '') AS code,
@@ -68,8 +74,9 @@ func getAccounts(c *conn) {
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
-		panic(err)
+		return err
 	}
+	defer rows.Close()
 	ledger.Accounts = nil
 	for rows.Next() {
 		var (
@@ -80,7 +87,7 @@ func getAccounts(c *conn) {
 			acc     accounting.Account
 		)
 		if err := rows.Scan(&id, &name, &code, &balance); err != nil {
-			panic(err)
+			return err
 		}
 		acc.ID = ID(id)
 		acc.Name = name
@@ -88,9 +95,10 @@ func getAccounts(c *conn) {
 		// acc.Balance = balance
 		ledger.Accounts = append(ledger.Accounts, &acc)
 	}
+	return rows.Err()
 }
 
-func getTransactions(c *conn) {
+func getTransactions(c *conn) error {
 	ledger := c.ledger
 	idAccount := make(map[accounting.ID]*accounting.Account)
 	for i, a := range ledger.Accounts {
@@ -101,8 +109,9 @@ func getTransactions(c *conn) {
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
-		panic(err)
+		return err
 	}
+	defer rows.Close()
 	for rows.Next() {
 		var (
 			date    time.Time
@@ -113,7 +122,7 @@ func getTransactions(c *conn) {
 			balance int
 		)
 		if err := rows.Scan(&date, &tid, &aid, &desc, &value, &balance); err != nil {
-			panic(err)
+			return err
 		}
 		if l := len(ledger.Transactions); l == 0 || ledger.Transactions[l-1].ID != tid {
 			ledger.Transactions = append(ledger.Transactions, &accounting.Transaction{
@@ -128,7 +137,7 @@ func getTransactions(c *conn) {
 		tra := ledger.Transactions[len(ledger.Transactions)-1]
 		tra.Splits = append(tra.Splits, split)
 	}
-	return
+	return rows.Err()
 }
 
 // Flush is a no-op in SQL: all the writes to the database are unbuffered
-- 
2.43.0


From 70a645bae9b9fa57b9e3704a93d139ad52eff597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 63/89] fix: postgres: values were taken as postings without
 amount, and not scaled

---
 backend/postgres/postgres.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index 6519573..5281eb5 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -20,6 +20,8 @@ type conn struct {
 	updated time.Time
 	backend *accounting.Backend
 	ledger  *accounting.Ledger
+
+	currency accounting.Currency // just one currency for now
 }
 
 func (id ID) String() string {
@@ -46,6 +48,7 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.db = db
 	conn.backend = backend
 	conn.ledger = backend.Ledger
+	conn.currency.Precision = 2
 	if err = getAccounts(conn); err == nil {
 		err = getTransactions(conn)
 	}
@@ -132,8 +135,8 @@ func getTransactions(c *conn) error {
 		}
 		split := new(accounting.Split)
 		split.Account = idAccount[aid]
-		split.Value.Currency = nil
-		split.Value.Amount = value
+		split.Value.Currency = &c.currency
+		split.Value.Amount = value * (accounting.U / 100) // value is in hundredths
 		tra := ledger.Transactions[len(ledger.Transactions)-1]
 		tra.Splits = append(tra.Splits, split)
 	}
-- 
2.43.0


From dc0b3e875d07d06e5c1da4fc378ea732a8aaf406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 64/89] fix: postgres: the parents of the accounts were ignored

---
 backend/postgres/postgres.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index 5281eb5..ec33fa3 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -70,7 +70,7 @@ func (c *conn) Close() error {
 func getAccounts(c *conn) error {
 	ledger := c.ledger
 	query := `
-		SELECT a.id, a.name, COALESCE(a.code, '') AS code,
+		SELECT a.id, COALESCE(a.parent_id, 0) AS parent_id, a.name, COALESCE(a.code, '') AS code,
 			COALESCE((100*sum(s.value))::integer, 0) AS balance
 		FROM account a
 		LEFT JOIN split s ON a.id=s.account_id GROUP BY a.id
@@ -81,24 +81,42 @@ func getAccounts(c *conn) error {
 	}
 	defer rows.Close()
 	ledger.Accounts = nil
+	idAccount := make(map[int]*accounting.Account)
+	parents := make(map[*accounting.Account]int)
 	for rows.Next() {
 		var (
 			id      int
+			parent  int
 			name    string
 			code    string
 			balance int
 			acc     accounting.Account
 		)
-		if err := rows.Scan(&id, &name, &code, &balance); err != nil {
+		if err := rows.Scan(&id, &parent, &name, &code, &balance); err != nil {
 			return err
 		}
 		acc.ID = ID(id)
 		acc.Name = name
 		acc.Code = code
 		// acc.Balance = balance
+		idAccount[id] = &acc
+		parents[&acc] = parent
 		ledger.Accounts = append(ledger.Accounts, &acc)
 	}
-	return rows.Err()
+	if err := rows.Err(); err != nil {
+		return err
+	}
+	for _, acc := range ledger.Accounts {
+		parent := idAccount[parents[acc]]
+		for p := parent; p != nil; p = p.Parent {
+			if p == acc {
+				return fmt.Errorf("account %s is its own ancestor", acc.ID)
+			}
+		}
+		acc.Parent = parent
+	}
+	ledger.Accounts = accounting.SortAccounts(ledger.Accounts)
+	return nil
 }
 
 func getTransactions(c *conn) error {
-- 
2.43.0


From 1df76b834f3c7aafe66e477546a93b549a6d652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 65/89] fix: postgres: return an error if the account of a
 movement is not found

---
 backend/postgres/postgres.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index ec33fa3..2bbefb4 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -153,6 +153,9 @@ func getTransactions(c *conn) error {
 		}
 		split := new(accounting.Split)
 		split.Account = idAccount[aid]
+		if split.Account == nil {
+			return fmt.Errorf("transaction %s: account %s not found", tid, aid)
+		}
 		split.Value.Currency = &c.currency
 		split.Value.Amount = value * (accounting.U / 100) // value is in hundredths
 		tra := ledger.Transactions[len(ledger.Transactions)-1]
-- 
2.43.0


From 5f6da3a52d8cba311b688e62fc31f7ac6fafbc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 66/89] fix: cmd/muscular: missing prices must be an error, not
 a wrong number

---
 cmd/muscular/main.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/muscular/main.go b/cmd/muscular/main.go
index 3dc5034..6fa37ae 100644
--- a/cmd/muscular/main.go
+++ b/cmd/muscular/main.go
@@ -216,11 +216,19 @@ func main2(L *accounting.Ledger, args []string) {
 		var v accounting.Value
 		v.Amount = accounting.U
 		v.Currency, _ = L.GetCurrency(f.Args()[i])
-		momentum[i][0], _ = L.Convert(v, flags.endDate, L.DefaultCurrency)
+		momentum[i][0], err = L.Convert(v, flags.endDate, L.DefaultCurrency)
+		if err != nil {
+			fmt.Fprintf(os.Stderr, "muscular: %s\n", err.Error())
+			os.Exit(1)
+		}
 		t := flags.endDate
 		for j := 0; j < flags.numMeasures; j++ {
 			t = t.AddDate(0, -flags.measureMonths, -flags.measureDays)
-			momentum[i][j+1], _ = L.Convert(v, t, L.DefaultCurrency)
+			momentum[i][j+1], err = L.Convert(v, t, L.DefaultCurrency)
+			if err != nil {
+				fmt.Fprintf(os.Stderr, "muscular: %s\n", err.Error())
+				os.Exit(1)
+			}
 			mom2[i] += float64(momentum[i][0].Amount) / float64(momentum[i][j+1].Amount)
 		}
 		mom2[i] /= float64(flags.numMeasures)
-- 
2.43.0


From b045ea77aec29156c0ce44cd809acf286508b17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 67/89] fix: cmd/muscular: without measures there is nothing to
 show

---
 cmd/muscular/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/muscular/main.go b/cmd/muscular/main.go
index 6fa37ae..3e68243 100644
--- a/cmd/muscular/main.go
+++ b/cmd/muscular/main.go
@@ -105,6 +105,10 @@ func main2(L *accounting.Ledger, args []string) {
 	f.IntVar(&flags.numCommodities, "num", 3, "number of commodities where to invest")
 	f.IntVar(&flags.numMeasures, "measures", 1, "number of measures")
 	f.Parse(args)
+	if flags.numMeasures < 1 {
+		fmt.Fprintf(os.Stderr, "muscular: wrong number of measures %d\n", flags.numMeasures)
+		os.Exit(1)
+	}
 	// flags.period*:
 	_, err = fmt.Sscanf(txtPeriod+"_", "%dm%dd_", &flags.periodMonths, &flags.periodDays)
 	if err != nil {
-- 
2.43.0


From b4aaa1b374443429973cc90624bbdd30c7d30187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 68/89] fix: levels of the accounts were not calculated again
 if their parents changed

---
 accounting.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index fc09986..e0c9e35 100644
--- a/accounting.go
+++ b/accounting.go
@@ -578,6 +578,7 @@ func (b Balance) Dup() Balance {
 func insertAccount(where *[]*Account, account *Account) {
 	*where = append(*where, account)
 	for _, a := range account.Children {
+		a.Level = account.Level + 1
 		insertAccount(where, a)
 	}
 }
@@ -691,10 +692,10 @@ func (l *Ledger) Fill() error {
 	for _, a := range l.Accounts {
 		a.Splits = nil
 		a.Children = nil
+		a.Level = 0
 	}
 	for _, a := range l.Accounts {
 		if a.Parent != nil {
-			a.Level = a.Parent.Level + 1
 			a.Parent.Children = append(a.Parent.Children, a)
 		}
 	}
-- 
2.43.0


From 1f8b11a43dc20e2f9726fb42e674df6a4425933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 69/89] fix: the lowest amount was shown with two signs and
 without decimals

---
 accounting.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/accounting.go b/accounting.go
index e0c9e35..f3a7403 100644
--- a/accounting.go
+++ b/accounting.go
@@ -87,8 +87,9 @@ func (value Value) GetString(full bool, units bool) string {
 		result += "-"
 		value.Amount = -value.Amount
 	}
-	i := value.Amount / U
-	d := value.Amount % U
+	amount := uint64(value.Amount) // even for the lowest one, whose opposite does not fit in an int64
+	i := amount / U
+	d := amount % U
 	if c.Decimal == "" { // shouldn't happen
 		c.Decimal = "."
 	}
-- 
2.43.0


From ba79af3afe08a1608e45c05c16e6e381934ac441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:19 +0000
Subject: [PATCH 70/89] fix: sums which do not fit were wrapped around

A transaction whose postings added up to a multiple of 2^64 was accepted as
balanced, and the balances of the accounts could be wrong.
---
 accounting.go | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/accounting.go b/accounting.go
index f3a7403..93fdca2 100644
--- a/accounting.go
+++ b/accounting.go
@@ -3,6 +3,7 @@ package accounting
 import (
 	"errors"
 	"fmt"
+	"math"
 	"math/big"
 	"net/url"
 	"sort"
@@ -547,6 +548,29 @@ func (b *Balance) Add(v Value) {
 	*b = append(*b, v)
 }
 
+// addSafe adds a value to a balance, or fails if the result is too big for an amount.
+func (b *Balance) addSafe(v Value) error {
+	total := Value{Currency: v.Currency}
+	for _, v0 := range *b {
+		if v0.Currency == v.Currency {
+			total = v0
+		}
+	}
+	if !fits(total.Amount, v.Amount) {
+		return fmt.Errorf("too big amount: %s plus %s", total, v)
+	}
+	b.Add(v)
+	return nil
+}
+
+// fits tells whether the sum of two amounts is an amount (and so is its opposite).
+func fits(a, b int64) bool {
+	if b < 0 {
+		return a >= -math.MaxInt64-b
+	}
+	return a <= math.MaxInt64-b
+}
+
 // Sub substracts a value to a balance.
 func (b *Balance) Sub(v Value) {
 	v.Amount = -v.Amount
@@ -781,10 +805,12 @@ func (l *Ledger) Fill() error {
 					unbalancedSplit = transaction.Splits[i]
 					continue
 				}
-				if v, ok := l.SplitPrices[s]; ok == true {
-					balance.Add(v)
-				} else {
-					balance.Add(s.Value)
+				v, ok := l.SplitPrices[s]
+				if !ok {
+					v = s.Value
+				}
+				if err := balance.addSafe(v); err != nil {
+					return fmt.Errorf("%s: could not balance transaction: %w", transaction.ID, err)
 				}
 			}
 			if len(balance) == 0 {
@@ -832,7 +858,9 @@ func (l *Ledger) Fill() error {
 					break
 				}
 				deadlock = false
-				b.Add(s.Value)
+				if err := b.addSafe(s.Value); err != nil {
+					return fmt.Errorf("%s: could not calculate balance: %w", s.ID, err)
+				}
 				s.Balance = b.Dup()
 				if a := l.Assertions[s]; a != (Value{}) {
 					if a.Amount == 0 && len(b) == 0 {
@@ -850,6 +878,9 @@ func (l *Ledger) Fill() error {
 					for _, v := range b {
 						if v.Currency == a.Currency {
 							if s.Value == (Value{}) {
+								if !fits(a.Amount, -v.Amount) {
+									return fmt.Errorf("%s: too big amount: %s minus %s", s.ID, a, v)
+								}
 								s.Value = a
 								s.Value.Amount = a.Amount - v.Amount
 								b.Add(s.Value)
@@ -993,7 +1024,9 @@ transferAlreadyInAccounts:
 
 	var b Balance
 	for _, s := range l.transfer.Splits {
-		b.Add(s.Value)
+		if err := b.addSafe(s.Value); err != nil {
+			return fmt.Errorf("%s: could not calculate balance of %s: %w", s.Transaction.ID, s.Account.Name, err)
+		}
 		s.Balance = b.Dup()
 	}
 	return nil
-- 
2.43.0


From e2472d3b4a579f007c89d588a8fb8cf6569c4b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 71/89] fix: automatic prices too big for an amount were
 recorded with a wrong value

---
 accounting.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/accounting.go b/accounting.go
index 93fdca2..dcab3df 100644
--- a/accounting.go
+++ b/accounting.go
@@ -910,6 +910,16 @@ func (l *Ledger) Fill() error {
 		return fmt.Errorf("%s: deadlock (cannot balance transaction)", pending[0].ID)
 	}
 
+	// addPrice adds an automatic price, unless it is too big for an amount
+	addPrice := func(price *Price, amount *big.Int) {
+		if amount.CmpAbs(big.NewInt(math.MaxInt64)) > 0 {
+			return
+		}
+		price.Value.Amount = amount.Int64()
+		l.Prices = append(l.Prices, price)
+		l.Comments[price] = append(l.Comments[price], "automatic")
+	}
+
 	// Adding prices from exchanges, always in the same order
 	for _, t := range l.Transactions {
 		balance, ok := exchanges[t]
@@ -924,20 +934,16 @@ func (l *Ledger) Fill() error {
 		i = big.NewInt(-U)
 		i.Mul(i, big.NewInt(balance[1].Amount))
 		i.Quo(i, big.NewInt(balance[0].Amount))
-		price.Value.Amount = i.Int64()
 		price.Value.Currency = balance[1].Currency
-		l.Prices = append(l.Prices, price)
-		l.Comments[price] = append(l.Comments[price], "automatic")
+		addPrice(price, i)
 		price = new(Price)
 		price.Time = t.Time
 		price.Currency = balance[1].Currency
 		i = big.NewInt(-U)
 		i.Mul(i, big.NewInt(balance[0].Amount))
 		i.Quo(i, big.NewInt(balance[1].Amount))
-		price.Value.Amount = i.Int64()
 		price.Value.Currency = balance[0].Currency
-		l.Prices = append(l.Prices, price)
-		l.Comments[price] = append(l.Comments[price], "automatic")
+		addPrice(price, i)
 	}
 
 	// Adding prices from splits
@@ -960,10 +966,8 @@ func (l *Ledger) Fill() error {
 		i := big.NewInt(U)
 		i.Mul(i, big.NewInt(v.Amount))
 		i.Quo(i, big.NewInt(s.Value.Amount))
-		price.Value.Amount = i.Int64()
 		price.Value.Currency = v.Currency
-		l.Prices = append(l.Prices, price)
-		l.Comments[price] = append(l.Comments[price], "automatic")
+		addPrice(price, i)
 
 		price = new(Price)
 		price.Time = *s.Time
@@ -971,10 +975,8 @@ func (l *Ledger) Fill() error {
 		i = big.NewInt(U)
 		i.Mul(i, big.NewInt(s.Value.Amount))
 		i.Quo(i, big.NewInt(v.Amount))
-		price.Value.Amount = i.Int64()
 		price.Value.Currency = s.Value.Currency
-		l.Prices = append(l.Prices, price)
-		l.Comments[price] = append(l.Comments[price], "automatic")
+		addPrice(price, i)
 	}
 
 	// This must be executed after all the balances
-- 
2.43.0


From 683cb0aa4dff5457f61b2b4395279a8e13e6411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 72/89] fix: the total price of a posting could be the lowest
 amount, which cannot be written

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 66c5f95..b40e681 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -459,7 +459,7 @@ func (l *ledgerConnection) readJournal() error {
 					k := big.NewInt(s.Value.Amount)
 					k.Mul(k, big.NewInt(value.Amount))
 					k.Quo(k, big.NewInt(accounting.U))
-					if !k.IsInt64() {
+					if k.CmpAbs(big.NewInt(math.MaxInt64)) > 0 {
 						wrong(errors.New("syntax error: price too big"))
 						continue
 					}
-- 
2.43.0


From f4788e12cbd061fb426684945882041ed9f55992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 73/89] fix: conversions too big for an amount gave a wrong
 value

---
 accounting.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/accounting.go b/accounting.go
index dcab3df..3346a84 100644
--- a/accounting.go
+++ b/accounting.go
@@ -530,6 +530,18 @@ func (value *Value) Mul(v2 Value) {
 	value.Amount = i.Int64()
 }
 
+// mulSafe is as Mul, but it fails if the result is too big for an amount.
+func (value *Value) mulSafe(v2 Value) error {
+	i := big.NewInt(value.Amount)
+	i.Mul(i, big.NewInt(v2.Amount))
+	i.Div(i, big.NewInt(U))
+	if i.CmpAbs(big.NewInt(math.MaxInt64)) > 0 {
+		return fmt.Errorf("could not convert %q: too big amount", v2)
+	}
+	value.Mul(v2)
+	return nil
+}
+
 // Add adds a value to a balance.
 func (b *Balance) Add(v Value) {
 	if v.Amount == 0 {
@@ -633,9 +645,9 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited ma
 		//fmt.Printf("Price: %s %s = %s\n", p.Time, p.Currency.Name, p.Value)
 		if p.Time == when {
 			tmp := p.Value
-			tmp.Mul(v)
+			err := tmp.mulSafe(v)
 			//fmt.Printf("Convert(%s,%s,%s) = %s (2)\n", v, when.Format("2006-01-02"), currency.Name, p.Value)
-			return tmp, nil
+			return tmp, err
 		}
 		if p.Time.Before(when) {
 			prevTime = p.Time
@@ -677,27 +689,29 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited ma
 		}
 		res, err := l.convert(nv, when, currency, visited)
 		if err != nil { // there is no way through that currency: try another one
+			visited[prevValue.Currency] = true
 			return l.convert(v, when, currency, visited)
 		}
 		return res, nil
 	}
 	if !hasNext {
-		prevValue.Mul(v)
-		return prevValue, nil
+		err := prevValue.mulSafe(v)
+		return prevValue, err
 	}
 	if !hasPrev {
-		nextValue.Mul(v)
-		return nextValue, nil
+		err := nextValue.mulSafe(v)
+		return nextValue, err
 	}
 	d1 := nanoseconds(prevTime, when)
 	d2 := nanoseconds(prevTime, nextTime)
-	i := big.NewInt(nextValue.Amount - prevValue.Amount)
+	i := big.NewInt(nextValue.Amount)
+	i.Sub(i, big.NewInt(prevValue.Amount))
 	i.Mul(i, d1)
 	i.Quo(i, d2)
 	i.Add(i, big.NewInt(prevValue.Amount))
 	prevValue.Amount = i.Int64()
-	prevValue.Mul(v)
-	return prevValue, nil
+	err := prevValue.mulSafe(v)
+	return prevValue, err
 }
 
 // nanoseconds returns the time between two instants, which may not fit in a time.Duration.
-- 
2.43.0


From 12496687a428b06ebd4f9a51e1d317e313db0508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 74/89] fix: a date with a fraction of a second is refused,
 instead of losing it when printed

---
 backend/ledger/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index b40e681..619335d 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -759,6 +759,9 @@ func firstWord(s string) (string, string) {
 
 // GetDate returns a time from a string.
 func GetDate(s string) (time.Time, error) {
+	if strings.Contains(s, ",") { // time.Parse would take it as the start of a fraction of a second
+		return time.Time{}, fmt.Errorf("wrong date %q", s)
+	}
 	s = strings.ReplaceAll(s, "/", "-")
 	s = strings.ReplaceAll(s, "_", "-")
 	s = strings.ReplaceAll(s, ":", "-")
-- 
2.43.0


From 04e648d0c6efb67b6b4d138a7e1a067b95a56362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 75/89] fix: stats counts the days of a ledger of more than 292
 years

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 9a16f5a..c03650c 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -173,7 +173,7 @@ func runStats(L *accounting.Ledger, flags flags, args []string) error {
 		lastYear, lastMonth, lastDay := last.Date()
 		end := time.Date(lastYear, lastMonth, lastDay, 0, 0, 0, 0, time.UTC)
 		start := time.Date(firstYear, firstMonth, firstDay, 0, 0, 0, 0, time.UTC)
-		days := int(end.Sub(start).Hours()/24.0) + 1
+		days := int((end.Unix()-start.Unix())/(24*60*60)) + 1 // it may not fit in a time.Duration
 
 		fmt.Printf("Transaction span : %s to %s (%d days)\n", first.Format("2006-01-02"),
 			last.Format("2006-01-02"), days)
-- 
2.43.0


From e1bafa7d4846bc8a4113761ccf03c73b818c3ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:33 +0000
Subject: [PATCH 76/89] fix: ledger, txtdb: decode the relative names after the
 scheme

---
 backend/ledger/ledger.go | 10 ++++++----
 backend/txtdb/txtdb.go   | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 942ac19..a06765f 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -23,14 +23,16 @@ type ledgerConnection struct {
 }
 
 func (driver) Open(name string, backend *accounting.Backend) (accounting.Connection, error) {
-	url, err := url.Parse(name)
+	u, err := url.Parse(name)
 	if err != nil {
 		return nil, err
 	}
 	conn := new(ledgerConnection)
-	conn.file = url.Path
-	if url.Opaque != "" { // relative path after the scheme
-		conn.file = url.Opaque
+	conn.file = u.Path
+	if u.Opaque != "" { // relative path after the scheme
+		if conn.file, err = url.PathUnescape(u.Opaque); err != nil {
+			return nil, err
+		}
 	}
 	conn.backend = backend
 	conn.ledger = backend.Ledger
diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index b18dd29..6277d98 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -36,14 +36,16 @@ func (id ID) String() string {
 
 // Opens a connection to a txtdb database
 func (p driver) Open(name string, backend *accounting.Backend) (accounting.Connection, error) {
-	url, err := url.Parse(name)
+	u, err := url.Parse(name)
 	if err != nil {
 		return nil, err
 	}
 	conn := new(conn)
-	conn.dir = url.Path
-	if url.Opaque != "" { // relative path after the scheme
-		conn.dir = url.Opaque
+	conn.dir = u.Path
+	if u.Opaque != "" { // relative path after the scheme
+		if conn.dir, err = url.PathUnescape(u.Opaque); err != nil {
+			return nil, err
+		}
 	}
 	conn.accountMap = make(map[int]*accounting.Account)
 	conn.currency.Precision = 2
-- 
2.43.0


From d94698352139e7fb2a2e46e18d141ed20691df6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:36 +0000
Subject: [PATCH 77/89] fix: ledger incomestatement: with words, only the
 accounts under Income and Expense

---
 cmd/ledger/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index c03650c..23c0913 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -218,7 +218,7 @@ func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error
 		}
 	} else {
 		for _, a := range L.Accounts {
-			if !strings.HasPrefix(a.FullName(), "Income") {
+			if !strings.HasPrefix(a.FullName(), "Income:") {
 				continue
 			}
 			for _, b := range args {
@@ -229,7 +229,7 @@ func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error
 			}
 		}
 		for _, a := range L.Accounts {
-			if !strings.HasPrefix(a.FullName(), "Expense") {
+			if !strings.HasPrefix(a.FullName(), "Expense:") {
 				continue
 			}
 			for _, b := range args {
-- 
2.43.0


From b94856505f01f016fe41d6acc36f585fd01b9f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 78/89] fix: ledger incomestatement: with words, also accounts
 like Expenses:Food, as before d946983

---
 cmd/ledger/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 23c0913..c03650c 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -218,7 +218,7 @@ func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error
 		}
 	} else {
 		for _, a := range L.Accounts {
-			if !strings.HasPrefix(a.FullName(), "Income:") {
+			if !strings.HasPrefix(a.FullName(), "Income") {
 				continue
 			}
 			for _, b := range args {
@@ -229,7 +229,7 @@ func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error
 			}
 		}
 		for _, a := range L.Accounts {
-			if !strings.HasPrefix(a.FullName(), "Expense:") {
+			if !strings.HasPrefix(a.FullName(), "Expense") {
 				continue
 			}
 			for _, b := range args {
-- 
2.43.0


From be45688fd703c040b8a4ab5827adf23dee08656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 79/89] fix: balance counts each amount once, even if its
 currency is more than once in the filter

---
 cmd/ledger/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index c03650c..c142930 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -107,6 +107,7 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 				for _, c := range flags.currency {
 					if v.Currency.Name == c {
 						bal.Add(v)
+						break // it may be more than once in the filter
 					}
 				}
 			}
-- 
2.43.0


From 45ec10418874a51c42cf0943459c3e4e1ffb63e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 80/89] fix: close the files of txtdb after reading them

---
 backend/txtdb/txtdb.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 6277d98..bc3777d 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -76,6 +76,7 @@ func (c *conn) read() error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 	sc := bufio.NewScanner(f)
 	parents := make(map[*accounting.Account]int)
 	for sc.Scan() {
@@ -129,6 +130,7 @@ func (c *conn) read() error {
 		}
 		return err
 	}
+	defer f.Close()
 	sc = bufio.NewScanner(f)
 	nextID := 1
 	var balance int64
-- 
2.43.0


From 44d3def6e3c838202ac6c45dbcafc07e19c33a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 81/89] fix: close the journal, and those including it, after
 an error

---
 backend/ledger/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 619335d..a483985 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -117,6 +117,14 @@ func (s *Scanner) NewFile(filename string) error {
 	return nil
 }
 
+// Close closes all the files which are still open.
+func (s *Scanner) Close() {
+	for _, file := range s.files {
+		file.f.Close()
+	}
+	s.files = nil
+}
+
 func (s *Scanner) Line() ScannerLine {
 	if len(s.files) == 0 {
 		return ScannerLine{Err: io.EOF}
@@ -205,6 +213,7 @@ func (l *ledgerConnection) readJournal() error {
 	if err := s.NewFile(l.file); err != nil {
 		return err
 	}
+	defer s.Close() // there may be files still open after an error
 
 	lastLine := lineNone
 	var lastCommodity *accounting.Currency
-- 
2.43.0


From 1fcb0f9d38e3801e494ed848071e4a016921795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:03 +0000
Subject: [PATCH 82/89] fix: names of currencies in price lines are those of
 amounts: without '=', '@' nor spaces at the end

---
 backend/ledger/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index a483985..9842caa 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -293,10 +293,15 @@ func (l *ledgerConnection) readJournal() error {
 				log.Fatalf("%s:%d: price is not chronologically sorted", line.Filename, line.LineNum)
 			}
 			currency, rest := firstWord(rest)
+			currency = strings.TrimSpace(currency)
 			if currency == "" {
 				log.Printf("%s:%d: Syntax error: price without currency", line.Filename, line.LineNum)
 				continue
 			}
+			if strings.ContainsAny(currency, "=@") {
+				log.Printf("%s:%d: Syntax error: invalid character in currency", line.Filename, line.LineNum)
+				continue
+			}
 			restore := l.saveCurrencies()
 			price.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
 			var newCurrency bool
-- 
2.43.0


From 2aebe6524d3dd4ed2aebcaba43b6b3b47ae15ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:04 +0000
Subject: [PATCH 83/89] fix: accounts whose names end with a space were read
 back as others

---
 backend/ledger/ledger.go | 4 ++++
 backend/ledger/parser.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index a06765f..ec76b72 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"net/url"
+	"strings"
 	"time"
 
 	"github.com/cespedes/accounting"
@@ -96,6 +97,9 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		if a.Name == accounting.TransferAccount.Name { // automatically generated
 			continue
 		}
+		if name := a.FullName(); len(a.Children) > 0 && a.Code == "" && len(ledger.Comments[a]) == 0 && strings.TrimSpace(name) != name {
+			continue // its line would be that of another account, and the lines of its children define it too
+		}
 		fmt.Fprintf(out, "account %s", a.FullName())
 		if len(ledger.Comments[a]) > 0 {
 			fmt.Fprintf(out, " ; %s", ledger.Comments[a][0])
diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 9842caa..caff6bd 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -419,7 +419,7 @@ func (l *ledgerConnection) readJournal() error {
 				accountEnd = len(text)
 			}
 			var newAccount bool
-			s.Account, newAccount = l.getAccount(line.Filename, line.LineNum, text[:accountEnd])
+			s.Account, newAccount = l.getAccount(line.Filename, line.LineNum, strings.TrimSpace(text[:accountEnd]))
 			if newAccount == true {
 				log.Printf("%s:%d undefined account %s", line.Filename, line.LineNum, s.Account.FullName())
 			}
-- 
2.43.0


From 86b37cba2012975bad064c69dc84fe9ffa682ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:06 +0000
Subject: [PATCH 84/89] fix: the last byte of a currency could be taken as a
 space before the amount

---
 backend/ledger/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index caff6bd..5bae2b9 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -14,6 +14,7 @@ import (
 	"strings"
 	"time"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/cespedes/accounting"
 )
@@ -600,7 +601,7 @@ func (l *ledgerConnection) parseValue(s string) (accounting.Value, error, bool)
 		value.Currency.PrintBefore = true
 		for i := len(s) - 1; i >= 0; i-- {
 			if !strings.ContainsRune("-+0123456789.,_'", rune(s[i])) {
-				if !unicode.IsSpace(rune(s[i])) {
+				if last, _ := utf8.DecodeLastRuneInString(s[:i+1]); !unicode.IsSpace(last) {
 					value.Currency.WithoutSpace = true
 				}
 				sAmount = s[i+1:]
-- 
2.43.0


From 4cf9db83043c20183b81898a927971c386de5242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:03 +0000
Subject: [PATCH 85/89] fix: Export: prices of currencies with spaces in their
 names cannot be written

---
 backend/ledger/ledger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index ec76b72..9bdaffe 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -201,7 +201,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		} else {
 			j++
-			if p.Currency.Name == "" {
+			if p.Currency.Name == "" || strings.Contains(p.Currency.Name, " ") {
 				continue // there is no way to show it
 			}
 			fmt.Fprintf(out, "P %s %s %s", formatTime(p.Time), p.Currency.Name, p.Value.FullString())
-- 
2.43.0


From 9f68178f4fdcae46576827f418742f15da8d1346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 86/89] fix: Export: a negative price of a negative amount was
 read back as another one

---
 backend/ledger/ledger.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 9bdaffe..364e97e 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -3,6 +3,7 @@ package ledger
 import (
 	"fmt"
 	"io"
+	"math/big"
 	"net/url"
 	"strings"
 	"time"
@@ -90,6 +91,18 @@ func namelessCurrency(ledger *accounting.Ledger) *accounting.Currency {
 	return nil
 }
 
+// unitPrice returns the price of each unit which gives a total price,
+// for a negative amount and a positive total.
+func unitPrice(amount, total int64) int64 {
+	n, r := new(big.Int), new(big.Int)
+	n.Mul(big.NewInt(total), big.NewInt(accounting.U))
+	n.QuoRem(n, big.NewInt(amount), r)
+	if r.Sign() != 0 { // total prices are truncated
+		n.Sub(n, big.NewInt(1))
+	}
+	return n.Int64()
+}
+
 // Export shows the "Ledger" representation of an accounting ledger.
 func Export(out io.Writer, ledger *accounting.Ledger) {
 	// fmt.Fprintln(out, "\n; Accounts:")
@@ -177,7 +190,13 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				}
 				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), value)
 				if v, ok := ledger.SplitPrices[s]; ok == true {
-					fmt.Fprintf(out, " @@ %s", v.FullString())
+					if s.Value.Amount < 0 && v.Amount > 0 {
+						// A total price would be read as negative
+						v.Amount = unitPrice(s.Value.Amount, v.Amount)
+						fmt.Fprintf(out, " @ %s", v.FullString())
+					} else {
+						fmt.Fprintf(out, " @@ %s", v.FullString())
+					}
 				}
 				if v, ok := ledger.Assertions[s]; ok == true {
 					fmt.Fprintf(out, " = %s", v.FullString())
-- 
2.43.0


From 5f9d4ca0d0529007e105d5e2bc4d2175bb17f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:39 +0000
Subject: [PATCH 87/89] fix: ledger: reports whose sums are too big for an
 amount showed wrong numbers

---
 cmd/ledger/main.go | 71 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 71 insertions(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index c142930..3b3ab5b 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -4,6 +4,8 @@ import (
 	"flag"
 	"fmt"
 	"log"
+	"math"
+	"math/big"
 	"os"
 	"strings"
 	"time"
@@ -78,9 +80,38 @@ func insertAccount(where *[]account, name string, level int, a *accounting.Accou
 	}
 }
 
+// checkSum returns an error if the sum of some balances is too big for an amount.
+func checkSum(balances ...accounting.Balance) error {
+	exact := make(map[*accounting.Currency]*big.Int)
+	for _, b := range balances {
+		for _, v := range b {
+			if exact[v.Currency] == nil {
+				exact[v.Currency] = new(big.Int)
+			}
+			exact[v.Currency].Add(exact[v.Currency], big.NewInt(v.Amount))
+		}
+	}
+	for _, b := range balances { // always in the same order
+		for _, v := range b {
+			if exact[v.Currency].CmpAbs(big.NewInt(math.MaxInt64)) > 0 {
+				return fmt.Errorf("too big amount: sum of %s and others", v)
+			}
+		}
+	}
+	return nil
+}
+
+// opposite returns a balance with the sign of all its amounts changed.
+func opposite(b accounting.Balance) accounting.Balance {
+	var res accounting.Balance
+	res.SubBalance(b)
+	return res
+}
+
 func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 	var maxLength int
 	var total accounting.Balance
+	var balances []accounting.Balance
 	var accounts []account
 	if len(args) == 0 {
 		for _, a := range L.Accounts {
@@ -115,12 +146,17 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 		}
 		if flags.market {
 			var bal accounting.Balance
+			var values []accounting.Balance
 			for _, v := range accounts[i].Balance {
 				nv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)
 				if err != nil {
 					return err
 				}
 				bal.Add(nv)
+				values = append(values, accounting.Balance{nv})
+			}
+			if err := checkSum(values...); err != nil {
+				return err
 			}
 			accounts[i].Balance = bal
 		}
@@ -131,6 +167,10 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 			}
 			total.Add(v)
 		}
+		balances = append(balances, accounts[i].Balance)
+	}
+	if err := checkSum(balances...); err != nil {
+		return err
 	}
 	for _, v := range total {
 		length := len(v.String())
@@ -205,6 +245,7 @@ func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error
 		balance string
 	}
 	var income, expense, net accounting.Balance
+	var allIncomes, allExpenses []accounting.Balance
 	var nameLen = 8
 	var balanceLen = 1
 
@@ -244,6 +285,9 @@ func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error
 
 	for _, a := range incomeAccounts {
 		if len(a.Splits) > 0 {
+			if err := checkSum(a.Splits[0].Balance, opposite(a.Splits[len(a.Splits)-1].Balance), opposite(accounting.Balance{a.Splits[0].Value})); err != nil {
+				return err
+			}
 			b := a.Splits[0].Balance.Dup()
 			b.SubBalance(a.Splits[len(a.Splits)-1].Balance)
 			b.Sub(a.Splits[0].Value)
@@ -252,10 +296,14 @@ func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error
 				balance string
 			}{a.FullName(), b.String()})
 			income.AddBalance(b)
+			allIncomes = append(allIncomes, b)
 		}
 	}
 	for _, a := range expenseAccounts {
 		if len(a.Splits) > 0 {
+			if err := checkSum(a.Splits[len(a.Splits)-1].Balance, opposite(a.Splits[0].Balance), accounting.Balance{a.Splits[0].Value}); err != nil {
+				return err
+			}
 			b := a.Splits[len(a.Splits)-1].Balance.Dup()
 			b.SubBalance(a.Splits[0].Balance)
 			b.Add(a.Splits[0].Value)
@@ -264,6 +312,12 @@ func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error
 				balance string
 			}{a.FullName(), b.String()})
 			expense.AddBalance(b)
+			allExpenses = append(allExpenses, b)
+		}
+	}
+	for _, sum := range [][]accounting.Balance{allIncomes, allExpenses, {income, opposite(expense)}} {
+		if err := checkSum(sum...); err != nil {
+			return err
 		}
 	}
 	net = income.Dup()
@@ -326,13 +380,22 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 	}
 	var balanceBegin accounting.Balance
 	var balanceDelta accounting.Balance
+	var begin, delta []accounting.Balance
 	for _, a := range accounts {
 		balanceBegin.AddBalance(a.StartBalance)
+		begin = append(begin, a.StartBalance)
 		for _, s := range a.Splits {
 			balanceDelta.Add(s.Value)
+			delta = append(delta, accounting.Balance{s.Value})
 		}
 	}
 	if flags.market {
+		for _, sum := range [][]accounting.Balance{begin, append(begin, delta...)} {
+			if err := checkSum(sum...); err != nil {
+				return err
+			}
+		}
+		delta = nil
 		var bal1, bal2 accounting.Balance
 		for _, v := range balanceBegin {
 			nv, err := L.Convert(v, flags.beginDate, L.DefaultCurrency)
@@ -340,6 +403,7 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 				return err
 			}
 			bal1.Add(nv)
+			delta = append(delta, opposite(accounting.Balance{nv}))
 		}
 		var balanceEnd accounting.Balance
 		balanceEnd.AddBalance(balanceBegin)
@@ -350,10 +414,14 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 				return err
 			}
 			bal2.Add(nv)
+			delta = append(delta, accounting.Balance{nv})
 		}
 		balanceDelta = bal2
 		balanceDelta.SubBalance(bal1)
 	}
+	if err := checkSum(delta...); err != nil {
+		return err
+	}
 	if flags.negate {
 		var b2 accounting.Balance
 		b2.SubBalance(balanceDelta)
@@ -425,6 +493,9 @@ func doPivot(L *accounting.Ledger, pivot sliceString) {
 		}
 		var b accounting.Balance
 		for _, s := range L.Accounts[i].Splits {
+			if err := checkSum(b, accounting.Balance{s.Value}); err != nil {
+				log.Fatalf("ledger: %v\n", err)
+			}
 			b.Add(s.Value)
 			s.Balance = b.Dup()
 		}
-- 
2.43.0


From 10be4c5196507bdbc9496b2319b81f300798de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 88/89] fix: muscular: no momentum from a price of zero

---
 cmd/muscular/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/muscular/main.go b/cmd/muscular/main.go
index 3e68243..f1fdb6e 100644
--- a/cmd/muscular/main.go
+++ b/cmd/muscular/main.go
@@ -233,6 +233,10 @@ func main2(L *accounting.Ledger, args []string) {
 				fmt.Fprintf(os.Stderr, "muscular: %s\n", err.Error())
 				os.Exit(1)
 			}
+			if momentum[i][j+1].Amount == 0 {
+				fmt.Fprintf(os.Stderr, "muscular: the price of %s at %s is 0\n", f.Args()[i], t.Format("2006-01-02/15:04:05"))
+				os.Exit(1)
+			}
 			mom2[i] += float64(momentum[i][0].Amount) / float64(momentum[i][j+1].Amount)
 		}
 		mom2[i] /= float64(flags.numMeasures)
-- 
2.43.0


From bbe9221c4566a59cd5c42de5ddc69f50fa930cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:19 +0000
Subject: [PATCH 89/89] fix: postgres: amounts which do not fit in 32 bits

---
 backend/postgres/postgres.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index 2bbefb4..e275de3 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"errors"
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/cespedes/accounting"
@@ -71,7 +72,7 @@ func getAccounts(c *conn) error {
 	ledger := c.ledger
 	query := `
 		SELECT a.id, COALESCE(a.parent_id, 0) AS parent_id, a.name, COALESCE(a.code, '') AS code,
-			COALESCE((100*sum(s.value))::integer, 0) AS balance
+			COALESCE((100*sum(s.value))::bigint, 0) AS balance
 		FROM account a
 		LEFT JOIN split s ON a.id=s.account_id GROUP BY a.id
 	`
@@ -126,7 +127,7 @@ func getTransactions(c *conn) error {
 		idAccount[a.ID] = ledger.Accounts[i]
 	}
 	query := `
-		SELECT datetime,transaction_id,account_id,description,(100*value)::integer,(100*balance)::integer FROM money
+		SELECT datetime,transaction_id,account_id,description,(100*value)::bigint,(100*balance)::bigint FROM money
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
@@ -156,6 +157,9 @@ func getTransactions(c *conn) error {
 		if split.Account == nil {
 			return fmt.Errorf("transaction %s: account %s not found", tid, aid)
 		}
+		if value > math.MaxInt64/(accounting.U/100) || value < math.MinInt64/(accounting.U/100) {
+			return fmt.Errorf("transaction %s: value too big", tid)
+		}
 		split.Value.Currency = &c.currency
 		split.Value.Amount = value * (accounting.U / 100) // value is in hundredths
 		tra := ledger.Transactions[len(ledger.Transactions)-1]
-- 
2.43.0

