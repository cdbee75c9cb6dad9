From 7782862d046d70cb4ce0a8fe4611cea73112955d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 01/56] fix: ledger: report errors reading a journal

Open ignored every error of readJournal, and readJournal ignored an error
opening the root file, so a journal that could not be read (completely) was
opened as an empty or shorter one. Files are now closed in any case.
---
 backend/ledger/ledger.go |  4 +++-
 backend/ledger/parser.go | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 9c27f33..c19594d 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -30,7 +30,9 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.file = url.Path
 	conn.backend = backend
 	conn.ledger = backend.Ledger
-	conn.readJournal()
+	if err := conn.readJournal(); err != nil {
+		return nil, err
+	}
 	return conn, nil
 }
 
diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 1973619..563c18a 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -104,6 +104,14 @@ func (s *Scanner) NewFile(filename string) error {
 	return nil
 }
 
+// Close closes all the files that are still open.
+func (s *Scanner) Close() {
+	for _, file := range s.files {
+		file.f.Close()
+	}
+	s.files = nil
+}
+
 func (s *Scanner) Line() ScannerLine {
 	if len(s.files) == 0 {
 		return ScannerLine{Err: io.EOF}
@@ -188,14 +196,17 @@ func (l *ledgerConnection) readJournal() error {
 	l.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
 	l.ledger.DefaultCurrency = nil
 	s := NewScanner()
-	s.NewFile(l.file)
+	defer s.Close()
+	if err := s.NewFile(l.file); err != nil {
+		return err
+	}
 
 	lastLine := lineNone
 	for {
 		line := s.Line()
 		if line.Err != nil {
 			if line.Err != io.EOF {
-				return line.Err
+				return fmt.Errorf("%s:%d: %w", line.Filename, line.LineNum, line.Err)
 			}
 			break
 		}
-- 
2.43.0


From 124f1a3b6e1e7283d631dc87e1db7bea1482a07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 02/56] fix: ledger: an invalid journal is an error of Open,
 not the end of the process

---
 backend/ledger/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 563c18a..119a033 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -275,7 +275,7 @@ func (l *ledgerConnection) readJournal() error {
 				continue
 			}
 			if len(l.ledger.Prices) > 0 && l.ledger.Prices[len(l.ledger.Prices)-1].Time.After(price.Time) {
-				log.Fatalf("%s:%d: price is not chronologically sorted", line.Filename, line.LineNum)
+				return fmt.Errorf("%s:%d: price is not chronologically sorted", line.Filename, line.LineNum)
 			}
 			currency, rest := firstWord(rest)
 			price.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
@@ -322,7 +322,7 @@ func (l *ledgerConnection) readJournal() error {
 			lastLine = lineAccount
 			_, new := l.getAccount(line.Filename, line.LineNum, rest)
 			if new == false {
-				log.Fatalf("%s:%d: account already defined", line.Filename, line.LineNum)
+				return fmt.Errorf("%s:%d: account already defined", line.Filename, line.LineNum)
 			}
 			continue
 		}
@@ -330,7 +330,7 @@ func (l *ledgerConnection) readJournal() error {
 			date, err := GetDate(word)
 			if err == nil {
 				if len(l.ledger.Transactions) > 0 && l.ledger.Transactions[len(l.ledger.Transactions)-1].Time.After(date) {
-					log.Fatalf("%s:%d: transaction is not chronologically sorted", line.Filename, line.LineNum)
+					return fmt.Errorf("%s:%d: transaction is not chronologically sorted", line.Filename, line.LineNum)
 				}
 				var transaction accounting.Transaction
 				transaction.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
-- 
2.43.0


From e6b2066a136046c86b1e26d6f3c5964f70708ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 03/56] fix: ledger: do not follow include cycles

---
 backend/ledger/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 119a033..41952b2 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -95,6 +95,11 @@ func (s *Scanner) NewFile(filename string) error {
 	if len(filename) > 0 && filename[0] != '/' && len(s.files) > 0 {
 		filename = path.Join(path.Dir(s.files[len(s.files)-1].filename), filename)
 	}
+	for _, file := range s.files {
+		if path.Clean(file.filename) == path.Clean(filename) {
+			return fmt.Errorf("%s: file includes itself", filename)
+		}
+	}
 	f, err := os.Open(filename)
 	if err != nil {
 		return err
-- 
2.43.0


From bbf669f33cea6486a60bbce92293300857c2e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 04/56] fix: ledger: attach comments after commodity to that
 commodity

They were attached to the most recently added currency: a wrong one if the
commodity was known before, and a panic if there was none.
---
 backend/ledger/parser.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 41952b2..9b3cba6 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -207,6 +207,7 @@ func (l *ledgerConnection) readJournal() error {
 	}
 
 	lastLine := lineNone
+	var lastCurrency *accounting.Currency // in case lastLine is lineCommodity
 	for {
 		line := s.Line()
 		if line.Err != nil {
@@ -237,8 +238,7 @@ func (l *ledgerConnection) readJournal() error {
 					var account *accounting.Account = l.ledger.Accounts[len(l.ledger.Accounts)-1]
 					l.addComment(account, comment)
 				case lineCommodity:
-					var currency *accounting.Currency = l.ledger.Currencies[len(l.ledger.Currencies)-1]
-					l.addComment(currency, comment)
+					l.addComment(lastCurrency, comment)
 				case linePrice:
 					var price *accounting.Price = l.ledger.Prices[len(l.ledger.Prices)-1]
 					l.addComment(price, comment)
@@ -315,12 +315,18 @@ func (l *ledgerConnection) readJournal() error {
 			continue
 		}
 		if !indented && word == "commodity" {
-			lastLine = lineCommodity
-			_, err, _ := l.getValue(rest)
+			lastLine = lineNone
+			value, err, _ := l.getValue(rest)
 			if err != nil {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
 			}
+			if value.Currency == nil {
+				log.Printf("%s:%d: Syntax error: commodity without value", line.Filename, line.LineNum)
+				continue
+			}
+			lastLine = lineCommodity
+			lastCurrency = value.Currency
 			continue
 		}
 		if !indented && word == "account" {
-- 
2.43.0


From 209b72dc205960c0917f435fbc685938a65a5ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 05/56] fix: ledger: no panic if a price follows a balance
 assertion

---
 backend/ledger/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 9b3cba6..5f8b767 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -399,6 +399,10 @@ func (l *ledgerConnection) readJournal() error {
 					hasAssertion = true
 					assertionStart = valueStart + i + 1
 					assertionEnd = len(text)
+					if (hasPriceAbs || hasPriceRel) && valueStart+i < priceStart {
+						log.Printf("%s:%d: syntax error: price after assertion\n", line.Filename, line.LineNum)
+						continue
+					}
 					priceEnd = valueStart + i
 					if !hasPriceAbs && !hasPriceRel {
 						valueEnd = valueStart + i
-- 
2.43.0


From f7a41451d08774f8d1a98f69845957a56e748bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:10 +0000
Subject: [PATCH 06/56] fix: ledger: reject amounts that do not fit

Amounts of more than 92 thousand million wrapped around silently, and an amount
with more than 8 decimals gave its currency a precision with which it could not
be printed (a panic).
---
 backend/ledger/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 5f8b767..32ee299 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"math/big"
 	"os"
 	"path"
@@ -552,6 +553,9 @@ done2:
 	}
 	for i, c := range sAmount {
 		if c >= '0' && c <= '9' {
+			if value.Amount > (math.MaxInt64-int64(c-'0'))/10 {
+				return value, errors.New("syntax error: amount is too big"), newCurrency
+			}
 			value.Amount *= 10
 			value.Amount += int64(c - '0')
 			continue
@@ -619,7 +623,7 @@ done2:
 		shift = 8
 	} else {
 		shift = len(sAmount) - decimalPos - 1
-		if newCurrency {
+		if newCurrency && shift <= 8 {
 			value.Currency.Precision = shift
 		}
 		shift = 8 - shift
@@ -628,6 +632,9 @@ done2:
 		return value, fmt.Errorf("syntax error: too many decimal numbers"), newCurrency
 	}
 	for i := 0; i < shift; i++ {
+		if value.Amount > math.MaxInt64/10 {
+			return value, errors.New("syntax error: amount is too big"), newCurrency
+		}
 		value.Amount *= 10
 	}
 	value.Amount *= sign
-- 
2.43.0


From f469794f23d52967ba857b03c7479da942eb7f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 07/56] fix: ledger: keep comments of account and commodity
 lines

Comments on the same line as an account or commodity directive, and
tags of a commodity other than isin, were dropped.
---
 backend/ledger/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 32ee299..ecf8a2b 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -184,8 +184,8 @@ func (l *ledgerConnection) addComment(where interface{}, comment string) {
 	case *accounting.Currency:
 		if tag.Name == "isin" {
 			x.ISIN = tag.Value
+			return
 		}
-		return
 	}
 	// Unknown tag:
 	l.ledger.Comments[where] = append(l.ledger.Comments[where], comment)
@@ -328,14 +328,20 @@ func (l *ledgerConnection) readJournal() error {
 			}
 			lastLine = lineCommodity
 			lastCurrency = value.Currency
+			if comment != "" {
+				l.addComment(lastCurrency, comment)
+			}
 			continue
 		}
 		if !indented && word == "account" {
 			lastLine = lineAccount
-			_, new := l.getAccount(line.Filename, line.LineNum, rest)
+			account, new := l.getAccount(line.Filename, line.LineNum, rest)
 			if new == false {
 				return fmt.Errorf("%s:%d: account already defined", line.Filename, line.LineNum)
 			}
+			if comment != "" {
+				l.addComment(account, comment)
+			}
 			continue
 		}
 		if !indented {
-- 
2.43.0


From 3312eac2259de3c2edea1186363d78ad934198db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 08/56] fix: ledger: accept ' in amounts that follow their
 currency

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index ecf8a2b..e07872f 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -506,7 +506,7 @@ func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
 		// first currency, then amount
 		value.Currency.PrintBefore = true
 		for i := len(s) - 1; i >= 0; i-- {
-			if !strings.ContainsRune("-+0123456789.,_", rune(s[i])) {
+			if !strings.ContainsRune("-+0123456789.,_'", rune(s[i])) {
 				if !unicode.IsSpace(rune(s[i])) {
 					value.Currency.WithoutSpace = true
 				}
-- 
2.43.0


From 395a34444280d755bc49144403d5313c53b57021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 09/56] fix: balance assertions about a currency the account
 has none of

An assertion of a zero amount was rejected if the account had an amount
of another currency, and a posting without amount whose assertion is
about a currency not in the account could not be deduced.
---
 accounting.go | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/accounting.go b/accounting.go
index 002612c..e73ad9a 100644
--- a/accounting.go
+++ b/accounting.go
@@ -741,31 +741,21 @@ func (l *Ledger) Fill() error {
 				b.Add(s.Value)
 				s.Balance = b.Dup()
 				if a := l.Assertions[s]; a != (Value{}) {
-					if a.Amount == 0 && len(b) == 0 {
-						a = Value{}
-					} else if s.Value == (Value{}) && len(b) == 0 {
-						s.Value = a
-						s.Value.Amount = a.Amount
-						b.Add(s.Value)
-						s.Balance.Add(s.Value)
-						a = Value{}
-					}
+					// amount of that currency in the account (zero if it is not there)
+					current := Value{Currency: a.Currency}
 					for _, v := range b {
 						if v.Currency == a.Currency {
-							if s.Value == (Value{}) {
-								s.Value = a
-								s.Value.Amount = a.Amount - v.Amount
-								b.Add(s.Value)
-								s.Balance.Add(s.Value)
-							} else if v.Amount != a.Amount {
-								return fmt.Errorf("%s: wrong assertion: %s != %s", s.ID, v, a)
-							}
-							a = Value{}
+							current = v
 							break
 						}
 					}
-					if a != (Value{}) {
-						return fmt.Errorf("%s: wrong assertion: %s", s.ID, a)
+					if s.Value == (Value{}) {
+						s.Value = a
+						s.Value.Amount = a.Amount - current.Amount
+						b.Add(s.Value)
+						s.Balance.Add(s.Value)
+					} else if current.Amount != a.Amount {
+						return fmt.Errorf("%s: wrong assertion: %s != %s", s.ID, current, a)
 					}
 				}
 			}
-- 
2.43.0


From 046d330d16d757696d6a238fadf681dcb9dd7c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 10/56] fix: prices from postings: no division by zero, and in
 journal order

A posting of a zero amount, or at a zero cost, made Fill panic, and the
order of the automatic prices was that of a map.
---
 accounting.go | 50 ++++++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/accounting.go b/accounting.go
index e73ad9a..9332e25 100644
--- a/accounting.go
+++ b/accounting.go
@@ -766,28 +766,34 @@ func (l *Ledger) Fill() error {
 	}
 
 	// Adding prices from splits
-	for s, v := range l.SplitPrices {
-		price := new(Price)
-		price.Time = *s.Time
-		price.Currency = s.Value.Currency
-		i := big.NewInt(U)
-		i.Mul(i, big.NewInt(v.Amount))
-		i.Quo(i, big.NewInt(s.Value.Amount))
-		price.Value.Amount = i.Int64()
-		price.Value.Currency = v.Currency
-		l.Prices = append(l.Prices, price)
-		l.Comments[price] = append(l.Comments[price], "automatic")
-
-		price = new(Price)
-		price.Time = *s.Time
-		price.Currency = v.Currency
-		i = big.NewInt(U)
-		i.Mul(i, big.NewInt(s.Value.Amount))
-		i.Quo(i, big.NewInt(v.Amount))
-		price.Value.Amount = i.Int64()
-		price.Value.Currency = s.Value.Currency
-		l.Prices = append(l.Prices, price)
-		l.Comments[price] = append(l.Comments[price], "automatic")
+	for _, t := range l.Transactions {
+		for _, s := range t.Splits {
+			v, ok := l.SplitPrices[s]
+			if !ok || s.Value.Amount == 0 || v.Amount == 0 {
+				continue
+			}
+			price := new(Price)
+			price.Time = *s.Time
+			price.Currency = s.Value.Currency
+			i := big.NewInt(U)
+			i.Mul(i, big.NewInt(v.Amount))
+			i.Quo(i, big.NewInt(s.Value.Amount))
+			price.Value.Amount = i.Int64()
+			price.Value.Currency = v.Currency
+			l.Prices = append(l.Prices, price)
+			l.Comments[price] = append(l.Comments[price], "automatic")
+
+			price = new(Price)
+			price.Time = *s.Time
+			price.Currency = v.Currency
+			i = big.NewInt(U)
+			i.Mul(i, big.NewInt(s.Value.Amount))
+			i.Quo(i, big.NewInt(v.Amount))
+			price.Value.Amount = i.Int64()
+			price.Value.Currency = s.Value.Currency
+			l.Prices = append(l.Prices, price)
+			l.Comments[price] = append(l.Comments[price], "automatic")
+		}
 	}
 
 	// This must be executed after all the balances
-- 
2.43.0


From 6ebb454a69398a744b7cee19ceecb4942657e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 11/56] fix: find the amounts of all the transactions that can
 be balanced

Fill did not go beyond the first transaction whose amounts depend on a
balance assertion, and reported a deadlock if that assertion in turn
depended on a later transaction.
---
 accounting.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/accounting.go b/accounting.go
index 9332e25..d1bbeb9 100644
--- a/accounting.go
+++ b/accounting.go
@@ -646,20 +646,23 @@ func (l *Ledger) Fill() error {
 
 	finished := false
 	deadlock := false
-	iTransactions := 0
+	pending := l.Transactions // transactions not balanced yet
 	iAccounts := make(map[int]int)
 	for !finished && !deadlock {
 		finished = true
 		deadlock = true
-		for ; iTransactions < len(l.Transactions); iTransactions++ {
+		var skipped []*Transaction
+	nextTransaction:
+		for _, transaction := range pending {
 			finished = false
 			// Check for the correctness of a transaction, and fill all the calculated fields
-			transaction := l.Transactions[iTransactions]
 			var unbalancedSplit *Split
 			var balance Balance
 			for i, s := range transaction.Splits {
 				if s.Value.Currency == nil && l.Assertions[s] != (Value{}) {
-					goto endTransaction
+					// we still do not know that amount: try again later
+					skipped = append(skipped, transaction)
+					continue nextTransaction
 				}
 				if s.Value.Currency == nil {
 					if unbalancedSplit != nil {
@@ -725,7 +728,7 @@ func (l *Ledger) Fill() error {
 			}
 			panic("balancing transaction: unreachable code")
 		}
-	endTransaction:
+		pending = skipped
 		for i := 0; i < len(l.Accounts); i++ {
 			var b Balance
 			if iAccounts[i] > 0 {
@@ -762,7 +765,7 @@ func (l *Ledger) Fill() error {
 		}
 	}
 	if !finished && deadlock {
-		return fmt.Errorf("%s: deadlock (cannot balance transaction)", l.Transactions[iTransactions].ID)
+		return fmt.Errorf("%s: deadlock (cannot balance transaction)", pending[0].ID)
 	}
 
 	// Adding prices from splits
-- 
2.43.0


From 425caabc078339e09575e77780ea3b13c3e4c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 12/56] fix: forget the amounts deduced by a Fill that fails

They stayed in the ledger, and could make it fail again after the
mistake had been corrected.
---
 accounting.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index d1bbeb9..8a392eb 100644
--- a/accounting.go
+++ b/accounting.go
@@ -592,7 +592,16 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 }
 
 // Fill re-calculates all the automatic fields in all the accounting data.
-func (l *Ledger) Fill() error {
+func (l *Ledger) Fill() (err error) {
+	var deduced []*Split // amounts found by this function
+	defer func() {
+		if err != nil {
+			// they may be wrong: next time they must be deduced again
+			for _, s := range deduced {
+				s.Value = Value{}
+			}
+		}
+	}()
 	for _, a := range l.Accounts {
 		a.Splits = nil
 		a.Children = nil
@@ -681,6 +690,7 @@ func (l *Ledger) Fill() error {
 				// everything is balanced
 				if unbalancedSplit != nil {
 					unbalancedSplit.Value.Currency = new(Currency)
+					deduced = append(deduced, unbalancedSplit)
 				}
 				deadlock = false
 				continue
@@ -688,6 +698,7 @@ func (l *Ledger) Fill() error {
 			if unbalancedSplit != nil && len(balance) == 1 {
 				unbalancedSplit.Value = balance[0]
 				unbalancedSplit.Value.Amount = -unbalancedSplit.Value.Amount
+				deduced = append(deduced, unbalancedSplit)
 				deadlock = false
 				continue
 			}
@@ -755,6 +766,7 @@ func (l *Ledger) Fill() error {
 					if s.Value == (Value{}) {
 						s.Value = a
 						s.Value.Amount = a.Amount - current.Amount
+						deduced = append(deduced, s)
 						b.Add(s.Value)
 						s.Balance.Add(s.Value)
 					} else if current.Amount != a.Amount {
-- 
2.43.0


From 82ab8511b550d1211d1b7e2bb428077e6e8eb7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:09 +0000
Subject: [PATCH 13/56] fix: ledger: an incomplete price or assertion is a
 syntax error

An empty price of a posting was taken as a price of zero, prices without
currency were stored, and prices of postings that do not fit wrapped
around.
---
 backend/ledger/parser.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index e07872f..8b51ea6 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -284,6 +284,10 @@ func (l *ledgerConnection) readJournal() error {
 				return fmt.Errorf("%s:%d: price is not chronologically sorted", line.Filename, line.LineNum)
 			}
 			currency, rest := firstWord(rest)
+			if currency == "" || rest == "" {
+				log.Printf("%s:%d: Syntax error: incomplete price", line.Filename, line.LineNum)
+				continue
+			}
 			price.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
 			var newCurrency bool
 			price.Currency, newCurrency = l.ledger.GetCurrency(currency)
@@ -434,10 +438,18 @@ func (l *ledgerConnection) readJournal() error {
 				if newCurrency {
 					log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, value.Currency.Name)
 				}
+				if value.Currency == nil || s.Value.Currency == nil {
+					log.Printf("%s:%d: syntax error: incomplete price\n", line.Filename, line.LineNum)
+					continue
+				}
 				if hasPriceRel {
 					k := big.NewInt(s.Value.Amount)
 					k.Mul(k, big.NewInt(value.Amount))
 					k.Quo(k, big.NewInt(accounting.U))
+					if !k.IsInt64() {
+						log.Printf("%s:%d: price is too big\n", line.Filename, line.LineNum)
+						continue
+					}
 					value.Amount = k.Int64()
 				}
 				l.ledger.SplitPrices[s] = value
@@ -451,6 +463,10 @@ func (l *ledgerConnection) readJournal() error {
 				if newCurrency {
 					log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, value.Currency.Name)
 				}
+				if value.Currency == nil {
+					log.Printf("%s:%d: syntax error: assertion without value\n", line.Filename, line.LineNum)
+					continue
+				}
 				l.ledger.Assertions[s] = value
 			}
 			t.Splits = append(t.Splits, s)
-- 
2.43.0


From 80fae4ad43f265a3fce4d8efb617392fade4bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:44 +0000
Subject: [PATCH 14/56] fix: automatic prices are those of the current
 transactions

Each Fill added the automatic prices again, even if the transactions had
changed or it ended with an error, and so did opening an exported ledger.
---
 accounting.go | 94 +++++++++++++++++++++++++++++++++++----------------
 types.go      |  1 +
 2 files changed, 66 insertions(+), 29 deletions(-)

diff --git a/accounting.go b/accounting.go
index 8a392eb..4da614e 100644
--- a/accounting.go
+++ b/accounting.go
@@ -591,6 +591,23 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 	return prevValue, nil
 }
 
+// addAutomaticPrice adds a price found out by Fill,
+// unless the ledger already has it or its amount does not fit.
+func (l *Ledger) addAutomaticPrice(price *Price, amount *big.Int) {
+	if !amount.IsInt64() {
+		return
+	}
+	price.Value.Amount = amount.Int64()
+	for _, p := range l.Prices {
+		if p.Time.Equal(price.Time) && p.Currency == price.Currency && p.Value == price.Value {
+			return
+		}
+	}
+	l.Prices = append(l.Prices, price)
+	l.Comments[price] = append(l.Comments[price], "automatic")
+	l.automatic[price] = true
+}
+
 // Fill re-calculates all the automatic fields in all the accounting data.
 func (l *Ledger) Fill() (err error) {
 	var deduced []*Split // amounts found by this function
@@ -602,6 +619,22 @@ func (l *Ledger) Fill() (err error) {
 			}
 		}
 	}()
+	if l.Comments == nil {
+		l.Comments = make(map[interface{}][]string)
+	}
+
+	// Remove the prices added by a previous call:
+	var prices []*Price
+	for _, p := range l.Prices {
+		if l.automatic[p] {
+			delete(l.Comments, p)
+		} else {
+			prices = append(prices, p)
+		}
+	}
+	l.Prices = prices
+	l.automatic = make(map[*Price]bool)
+
 	for _, a := range l.Accounts {
 		a.Splits = nil
 		a.Children = nil
@@ -655,7 +688,8 @@ func (l *Ledger) Fill() (err error) {
 
 	finished := false
 	deadlock := false
-	pending := l.Transactions // transactions not balanced yet
+	pending := l.Transactions                   // transactions not balanced yet
+	exchanges := make(map[*Transaction]Balance) // transactions with two currencies
 	iAccounts := make(map[int]int)
 	for !finished && !deadlock {
 		finished = true
@@ -677,6 +711,9 @@ func (l *Ledger) Fill() (err error) {
 					if unbalancedSplit != nil {
 						return fmt.Errorf("%s: more than one posting without amount", transaction.ID)
 					}
+					if _, ok := l.SplitPrices[s]; ok {
+						return fmt.Errorf("%s: posting with a price but without amount", transaction.ID)
+					}
 					unbalancedSplit = transaction.Splits[i]
 					continue
 				}
@@ -709,28 +746,7 @@ func (l *Ledger) Fill() (err error) {
 				return fmt.Errorf("%s: could not balance transaction: total amount is %s", transaction.ID, balance[0])
 			}
 			if len(balance) == 2 {
-				// we add 2 automatic prices, converting one currency to another and vice-versa
-				price := new(Price)
-				var i *big.Int
-				price.Time = transaction.Time
-				price.Currency = balance[0].Currency
-				i = big.NewInt(-U)
-				i.Mul(i, big.NewInt(balance[1].Amount))
-				i.Quo(i, big.NewInt(balance[0].Amount))
-				price.Value.Amount = i.Int64()
-				price.Value.Currency = balance[1].Currency
-				l.Prices = append(l.Prices, price)
-				l.Comments[price] = append(l.Comments[price], "automatic")
-				price = new(Price)
-				price.Time = transaction.Time
-				price.Currency = balance[1].Currency
-				i = big.NewInt(-U)
-				i.Mul(i, big.NewInt(balance[0].Amount))
-				i.Quo(i, big.NewInt(balance[1].Amount))
-				price.Value.Amount = i.Int64()
-				price.Value.Currency = balance[0].Currency
-				l.Prices = append(l.Prices, price)
-				l.Comments[price] = append(l.Comments[price], "automatic")
+				exchanges[transaction] = balance
 				deadlock = false
 				continue
 			}
@@ -780,6 +796,30 @@ func (l *Ledger) Fill() (err error) {
 		return fmt.Errorf("%s: deadlock (cannot balance transaction)", pending[0].ID)
 	}
 
+	// Adding prices from transactions with two currencies
+	for _, transaction := range l.Transactions {
+		if balance, ok := exchanges[transaction]; ok {
+			// we add 2 automatic prices, converting one currency to another and vice-versa
+			price := new(Price)
+			var i *big.Int
+			price.Time = transaction.Time
+			price.Currency = balance[0].Currency
+			i = big.NewInt(-U)
+			i.Mul(i, big.NewInt(balance[1].Amount))
+			i.Quo(i, big.NewInt(balance[0].Amount))
+			price.Value.Currency = balance[1].Currency
+			l.addAutomaticPrice(price, i)
+			price = new(Price)
+			price.Time = transaction.Time
+			price.Currency = balance[1].Currency
+			i = big.NewInt(-U)
+			i.Mul(i, big.NewInt(balance[0].Amount))
+			i.Quo(i, big.NewInt(balance[1].Amount))
+			price.Value.Currency = balance[0].Currency
+			l.addAutomaticPrice(price, i)
+		}
+	}
+
 	// Adding prices from splits
 	for _, t := range l.Transactions {
 		for _, s := range t.Splits {
@@ -793,10 +833,8 @@ func (l *Ledger) Fill() (err error) {
 			i := big.NewInt(U)
 			i.Mul(i, big.NewInt(v.Amount))
 			i.Quo(i, big.NewInt(s.Value.Amount))
-			price.Value.Amount = i.Int64()
 			price.Value.Currency = v.Currency
-			l.Prices = append(l.Prices, price)
-			l.Comments[price] = append(l.Comments[price], "automatic")
+			l.addAutomaticPrice(price, i)
 
 			price = new(Price)
 			price.Time = *s.Time
@@ -804,10 +842,8 @@ func (l *Ledger) Fill() (err error) {
 			i = big.NewInt(U)
 			i.Mul(i, big.NewInt(s.Value.Amount))
 			i.Quo(i, big.NewInt(v.Amount))
-			price.Value.Amount = i.Int64()
 			price.Value.Currency = s.Value.Currency
-			l.Prices = append(l.Prices, price)
-			l.Comments[price] = append(l.Comments[price], "automatic")
+			l.addAutomaticPrice(price, i)
 		}
 	}
 
diff --git a/types.go b/types.go
index f306178..b0248cc 100644
--- a/types.go
+++ b/types.go
@@ -16,6 +16,7 @@ type Ledger struct {
 	Assertions      map[*Split]Value         // Value that should be in an account after one split.
 	SplitPrices     map[*Split]Value         // Price for the value in a split, in another currency.
 	DefaultCurrency *Currency                // Default currency.
+	automatic       map[*Price]bool          // Prices added by Fill.
 	// Tags            map[interface{}][]Tag
 	// TagsByName      map[string][]struct {Value string; Place interface{}}
 }
-- 
2.43.0


From 1d71a622d9ae2636ffbcfcc0df527db190de7a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 15/56] fix: give each ledger its own transfer account

The movements of postings with a date of their own were kept in a global
account shared by all the ledgers: they got mixed, were not removed when
recalculating or cloning, and opening two ledgers at once was a data race.
---
 accounting.go | 46 +++++++++++++++++++++++++---------------------
 types.go      |  3 ++-
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/accounting.go b/accounting.go
index 4da614e..c5269fd 100644
--- a/accounting.go
+++ b/accounting.go
@@ -635,6 +635,19 @@ func (l *Ledger) Fill() (err error) {
 	l.Prices = prices
 	l.automatic = make(map[*Price]bool)
 
+	// Each ledger has its own transfer account, the last one:
+	if l.transferAccount == nil {
+		l.transferAccount = &Account{Name: TransferAccount.Name}
+	}
+	l.transferAccount.Splits = nil
+	var accounts []*Account
+	for _, a := range l.Accounts {
+		if a != l.transferAccount {
+			accounts = append(accounts, a)
+		}
+	}
+	l.Accounts = accounts
+
 	for _, a := range l.Accounts {
 		a.Splits = nil
 		a.Children = nil
@@ -655,17 +668,14 @@ func (l *Ledger) Fill() (err error) {
 
 	// Remove splits with transferAccount, if any:
 	for i := range l.Transactions {
-		// TODO: this may be buggy!
+		var splits []*Split
 		for j := range l.Transactions[i].Splits {
-			if j >= len(l.Transactions[i].Splits) {
-				break
-			}
 			l.Transactions[i].Splits[j].Balance = nil
-			if l.Transactions[i].Splits[j].Account == &TransferAccount {
-				l.Transactions[i].Splits[j] = l.Transactions[i].Splits[len(l.Transactions[i].Splits)-1]
-				l.Transactions[i].Splits = l.Transactions[i].Splits[:len(l.Transactions[i].Splits)-1]
+			if l.Transactions[i].Splits[j].Account != l.transferAccount {
+				splits = append(splits, l.Transactions[i].Splits[j])
 			}
 		}
+		l.Transactions[i].Splits = splits
 	}
 	sort.SliceStable(l.Transactions, func(i, j int) bool {
 		return l.Transactions[i].Time.Before(l.Transactions[j].Time)
@@ -853,18 +863,12 @@ func (l *Ledger) Fill() (err error) {
 	})
 
 	// Create fake splits in transactions with different times.
-	for i := range l.Accounts {
-		if l.Accounts[i] == &TransferAccount {
-			goto transferAlreadyInAccounts
-		}
-	}
-	l.Accounts = append(l.Accounts, &TransferAccount)
-transferAlreadyInAccounts:
+	l.Accounts = append(l.Accounts, l.transferAccount)
 	for i := range l.Transactions {
 		for j := range l.Transactions[i].Splits {
 			if l.Transactions[i].Splits[j].Time != &l.Transactions[i].Time {
 				split1 := &Split{
-					Account:     &TransferAccount,
+					Account:     l.transferAccount,
 					Transaction: l.Transactions[i],
 					Time:        l.Transactions[i].Splits[j].Time,
 					Value: Value{
@@ -873,7 +877,7 @@ transferAlreadyInAccounts:
 					},
 				}
 				split2 := &Split{
-					Account:     &TransferAccount,
+					Account:     l.transferAccount,
 					Transaction: l.Transactions[i],
 					Time:        &l.Transactions[i].Time,
 					Value: Value{
@@ -883,17 +887,17 @@ transferAlreadyInAccounts:
 				}
 				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split1)
 				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split2)
-				TransferAccount.Splits = append(TransferAccount.Splits, split1)
-				TransferAccount.Splits = append(TransferAccount.Splits, split2)
+				l.transferAccount.Splits = append(l.transferAccount.Splits, split1)
+				l.transferAccount.Splits = append(l.transferAccount.Splits, split2)
 			}
 		}
 	}
-	sort.SliceStable(TransferAccount.Splits, func(i, j int) bool {
-		return TransferAccount.Splits[i].Time.Before(*TransferAccount.Splits[j].Time)
+	sort.SliceStable(l.transferAccount.Splits, func(i, j int) bool {
+		return l.transferAccount.Splits[i].Time.Before(*l.transferAccount.Splits[j].Time)
 	})
 
 	var b Balance
-	for _, s := range TransferAccount.Splits {
+	for _, s := range l.transferAccount.Splits {
 		b.Add(s.Value)
 		s.Balance = b.Dup()
 	}
diff --git a/types.go b/types.go
index b0248cc..f4307fb 100644
--- a/types.go
+++ b/types.go
@@ -17,6 +17,7 @@ type Ledger struct {
 	SplitPrices     map[*Split]Value         // Price for the value in a split, in another currency.
 	DefaultCurrency *Currency                // Default currency.
 	automatic       map[*Price]bool          // Prices added by Fill.
+	transferAccount *Account                 // See TransferAccount.
 	// Tags            map[interface{}][]Tag
 	// TagsByName      map[string][]struct {Value string; Place interface{}}
 }
@@ -63,7 +64,7 @@ type Account struct {
 }
 
 // TransferAccount is a special account used when a transaction has two or more splits with different times.
-// Ledger.Fill() automatically generates splits with this account.
+// Ledger.Fill() automatically generates splits with an account like this one (each ledger has its own).
 var TransferAccount Account = Account{
 	Name: "Assets:Transfer account",
 }
-- 
2.43.0


From 5b85adc051ad3d0840d484ee7bdc10986e436ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 16/56] fix: no transfer movements for a date equal to the
 transaction's

They were there or not depending on whether the date was written.
---
 accounting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index c5269fd..6b9ce6b 100644
--- a/accounting.go
+++ b/accounting.go
@@ -866,7 +866,7 @@ func (l *Ledger) Fill() (err error) {
 	l.Accounts = append(l.Accounts, l.transferAccount)
 	for i := range l.Transactions {
 		for j := range l.Transactions[i].Splits {
-			if l.Transactions[i].Splits[j].Time != &l.Transactions[i].Time {
+			if !l.Transactions[i].Splits[j].Time.Equal(l.Transactions[i].Time) {
 				split1 := &Split{
 					Account:     l.transferAccount,
 					Transaction: l.Transactions[i],
-- 
2.43.0


From 60bb648889bf00e52e04a6a8166148b9c9dcd74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:03 +0000
Subject: [PATCH 17/56] fix: account levels do not depend on the order of
 accounts

The level of an account listed before its parent, or moved to another
place, was wrong; accounts which are their own ancestors disappeared.
---
 accounting.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 6b9ce6b..599f4f1 100644
--- a/accounting.go
+++ b/accounting.go
@@ -512,6 +512,10 @@ func (b Balance) Dup() Balance {
 
 func insertAccount(where *[]*Account, account *Account) {
 	*where = append(*where, account)
+	account.Level = 0
+	if account.Parent != nil {
+		account.Level = account.Parent.Level + 1
+	}
 	for _, a := range account.Children {
 		insertAccount(where, a)
 	}
@@ -654,7 +658,6 @@ func (l *Ledger) Fill() (err error) {
 	}
 	for _, a := range l.Accounts {
 		if a.Parent != nil {
-			a.Level = a.Parent.Level + 1
 			a.Parent.Children = append(a.Parent.Children, a)
 		}
 	}
@@ -664,6 +667,9 @@ func (l *Ledger) Fill() (err error) {
 			insertAccount(&newAccounts, a)
 		}
 	}
+	if len(newAccounts) < len(l.Accounts) {
+		return errors.New("accounts do not form a hierarchy")
+	}
 	l.Accounts = newAccounts
 
 	// Remove splits with transferAccount, if any:
-- 
2.43.0


From d9c48b5050e65b59555b3550dc111fda45df3f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 18/56] fix: clone everything in a ledger

Comments, currencies used but not listed (such as a default currency
without name) and accounts, transactions and movements that are not in
the ledger's lists any more were lost, and cloning a ledger before it
was filled panicked.
---
 accounting.go | 221 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 138 insertions(+), 83 deletions(-)

diff --git a/accounting.go b/accounting.go
index 599f4f1..96bde11 100644
--- a/accounting.go
+++ b/accounting.go
@@ -176,115 +176,170 @@ func (l *Ledger) Clone() *Ledger {
 	mapCurrencies := make(map[*Currency]*Currency)
 	mapPrices := make(map[*Price]*Price)
 
-	for _, a := range l.Accounts {
-		mapAccounts[a] = new(Account)
-	}
-	for _, t := range l.Transactions {
-		mapTransactions[t] = new(Transaction)
-		for _, s := range t.Splits {
-			mapSplits[s] = new(Split)
+	// These return the copy of something in the ledger, and make sure that
+	// it will be filled, even if it is not in the lists of the ledger.
+	var accounts []*Account
+	var transactions []*Transaction
+	var splits []*Split
+	mapAccount := func(a *Account) *Account {
+		if a != nil && mapAccounts[a] == nil {
+			mapAccounts[a] = new(Account)
+			accounts = append(accounts, a)
 		}
+		return mapAccounts[a]
 	}
-	for _, c := range l.Currencies {
-		mapCurrencies[c] = new(Currency)
+	mapTransaction := func(t *Transaction) *Transaction {
+		if t != nil && mapTransactions[t] == nil {
+			mapTransactions[t] = new(Transaction)
+			transactions = append(transactions, t)
+		}
+		return mapTransactions[t]
 	}
-	for _, p := range l.Prices {
-		mapPrices[p] = new(Price)
+	mapSplit := func(s *Split) *Split {
+		if s != nil && mapSplits[s] == nil {
+			mapSplits[s] = new(Split)
+			splits = append(splits, s)
+		}
+		return mapSplits[s]
+	}
+	mapCurrency := func(c *Currency) *Currency {
+		if c != nil && mapCurrencies[c] == nil {
+			nc := new(Currency)
+			mapCurrencies[c] = nc
+			nc.ID = c.ID
+			nc.Name = c.Name
+			nc.PrintBefore = c.PrintBefore
+			nc.WithoutSpace = c.WithoutSpace
+			nc.Thousand = c.Thousand
+			nc.Decimal = c.Decimal
+			nc.Precision = c.Precision
+			nc.ISIN = c.ISIN
+		}
+		return mapCurrencies[c]
+	}
+	mapPrice := func(p *Price) *Price {
+		if p != nil && mapPrices[p] == nil {
+			np := new(Price)
+			mapPrices[p] = np
+			np.ID = p.ID
+			np.Time = p.Time
+			np.Currency = mapCurrency(p.Currency)
+			np.Value.Amount = p.Value.Amount
+			np.Value.Currency = mapCurrency(p.Value.Currency)
+		}
+		return mapPrices[p]
 	}
 
 	res := new(Ledger)
 	res.connection = l.connection
 	res.Accounts = make([]*Account, len(l.Accounts))
 	for i, a := range l.Accounts {
-		na := mapAccounts[a]
-		res.Accounts[i] = na
-		na.ID = a.ID
-		na.Parent = mapAccounts[a.Parent]
-		na.Children = make([]*Account, len(a.Children))
-		for i := range a.Children {
-			na.Children[i] = mapAccounts[a.Children[i]]
-		}
-		na.Level = a.Level
-		na.Name = a.Name
-		na.Code = a.Code
-		na.Splits = make([]*Split, len(a.Splits))
-		for i := range a.Splits {
-			na.Splits[i] = mapSplits[a.Splits[i]]
-		}
-		na.StartBalance = make([]Value, len(a.StartBalance))
-		for k, v := range a.StartBalance {
-			na.StartBalance[k].Amount = v.Amount
-			na.StartBalance[k].Currency = mapCurrencies[v.Currency]
-		}
+		res.Accounts[i] = mapAccount(a)
 	}
+	res.transferAccount = mapAccount(l.transferAccount)
 	res.Transactions = make([]*Transaction, len(l.Transactions))
 	for i, t := range l.Transactions {
-		nt := mapTransactions[t]
-		res.Transactions[i] = nt
-		nt.ID = t.ID
-		nt.Time = t.Time
-		nt.Description = t.Description
-		nt.Splits = make([]*Split, len(t.Splits))
-		for j, s := range t.Splits {
-			ns := mapSplits[s]
-			nt.Splits[j] = ns
-			ns.ID = s.ID
-			ns.Account = mapAccounts[s.Account]
-			ns.Transaction = mapTransactions[s.Transaction]
-			switch s.Time {
-			case &s.Transaction.Time:
-				ns.Time = &ns.Transaction.Time
-			case nil:
-				ns.Time = nil
-			default:
-				ns.Time = new(time.Time)
-				*ns.Time = *s.Time
-			}
-			ns.Value.Amount = s.Value.Amount
-			ns.Value.Currency = mapCurrencies[s.Value.Currency]
-			ns.Balance = make([]Value, len(s.Balance))
-			for k, v := range s.Balance {
-				ns.Balance[k].Amount = v.Amount
-				ns.Balance[k].Currency = mapCurrencies[v.Currency]
-			}
-		}
+		res.Transactions[i] = mapTransaction(t)
 	}
 	res.Currencies = make([]*Currency, len(l.Currencies))
 	for i, c := range l.Currencies {
-		nc := mapCurrencies[c]
-		res.Currencies[i] = nc
-		nc.ID = c.ID
-		nc.Name = c.Name
-		nc.PrintBefore = c.PrintBefore
-		nc.WithoutSpace = c.WithoutSpace
-		nc.Thousand = c.Thousand
-		nc.Decimal = c.Decimal
-		nc.Precision = c.Precision
-		nc.ISIN = c.ISIN
+		res.Currencies[i] = mapCurrency(c)
 	}
 	res.Prices = make([]*Price, len(l.Prices))
 	for i, p := range l.Prices {
-		np := mapPrices[p]
-		res.Prices[i] = np
-		np.ID = p.ID
-		np.Time = p.Time
-		np.Currency = mapCurrencies[p.Currency]
-		np.Value.Amount = p.Value.Amount
-		np.Value.Currency = mapCurrencies[p.Value.Currency]
+		res.Prices[i] = mapPrice(p)
+	}
+	res.automatic = make(map[*Price]bool)
+	for p, v := range l.automatic {
+		res.automatic[mapPrice(p)] = v
 	}
 	res.Comments = make(map[interface{}][]string)
-	// TODO: Comments are not deep-copied (I have to deal with interface{})
+	for where, comments := range l.Comments {
+		switch x := where.(type) {
+		case *Account:
+			where = mapAccount(x)
+		case *Transaction:
+			where = mapTransaction(x)
+		case *Split:
+			where = mapSplit(x)
+		case *Currency:
+			where = mapCurrency(x)
+		case *Price:
+			where = mapPrice(x)
+		}
+		res.Comments[where] = append([]string(nil), comments...)
+	}
 	res.Assertions = make(map[*Split]Value)
 	for s, v := range l.Assertions {
-		v.Currency = mapCurrencies[v.Currency]
-		res.Assertions[mapSplits[s]] = v
+		v.Currency = mapCurrency(v.Currency)
+		res.Assertions[mapSplit(s)] = v
 	}
 	res.SplitPrices = make(map[*Split]Value)
 	for s, v := range l.SplitPrices {
-		v.Currency = mapCurrencies[v.Currency]
-		res.SplitPrices[mapSplits[s]] = v
+		v.Currency = mapCurrency(v.Currency)
+		res.SplitPrices[mapSplit(s)] = v
+	}
+	res.DefaultCurrency = mapCurrency(l.DefaultCurrency)
+
+	// These loops may find more to copy:
+	for len(accounts)+len(transactions)+len(splits) > 0 {
+		for ; len(accounts) > 0; accounts = accounts[1:] {
+			a := accounts[0]
+			na := mapAccounts[a]
+			na.ID = a.ID
+			na.Parent = mapAccount(a.Parent)
+			na.Children = make([]*Account, len(a.Children))
+			for i := range a.Children {
+				na.Children[i] = mapAccount(a.Children[i])
+			}
+			na.Level = a.Level
+			na.Name = a.Name
+			na.Code = a.Code
+			na.Splits = make([]*Split, len(a.Splits))
+			for i := range a.Splits {
+				na.Splits[i] = mapSplit(a.Splits[i])
+			}
+			na.StartBalance = make([]Value, len(a.StartBalance))
+			for k, v := range a.StartBalance {
+				na.StartBalance[k].Amount = v.Amount
+				na.StartBalance[k].Currency = mapCurrency(v.Currency)
+			}
+		}
+		for ; len(transactions) > 0; transactions = transactions[1:] {
+			t := transactions[0]
+			nt := mapTransactions[t]
+			nt.ID = t.ID
+			nt.Time = t.Time
+			nt.Description = t.Description
+			nt.Splits = make([]*Split, len(t.Splits))
+			for j, s := range t.Splits {
+				nt.Splits[j] = mapSplit(s)
+			}
+		}
+		for ; len(splits) > 0; splits = splits[1:] {
+			s := splits[0]
+			ns := mapSplits[s]
+			ns.ID = s.ID
+			ns.Account = mapAccount(s.Account)
+			ns.Transaction = mapTransaction(s.Transaction)
+			switch {
+			case s.Time == nil:
+				ns.Time = nil
+			case s.Transaction != nil && s.Time == &s.Transaction.Time:
+				ns.Time = &ns.Transaction.Time
+			default:
+				ns.Time = new(time.Time)
+				*ns.Time = *s.Time
+			}
+			ns.Value.Amount = s.Value.Amount
+			ns.Value.Currency = mapCurrency(s.Value.Currency)
+			ns.Balance = make([]Value, len(s.Balance))
+			for k, v := range s.Balance {
+				ns.Balance[k].Amount = v.Amount
+				ns.Balance[k].Currency = mapCurrency(v.Currency)
+			}
+		}
 	}
-	res.DefaultCurrency = mapCurrencies[l.DefaultCurrency]
 
 	return res
 }
-- 
2.43.0


From ca4df268970f4bf41d7c52ae6a65c3c0f850344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 19/56] fix: Convert does not go through the same currency
 twice

It never ended (and overflowed the stack) if there was no way to convert
to the wanted currency, and panicked if that currency was nil.
---
 accounting.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 96bde11..7bd4d2b 100644
--- a/accounting.go
+++ b/accounting.go
@@ -578,6 +578,15 @@ func insertAccount(where *[]*Account, account *Account) {
 
 // Convert returns a value to another currency.
 func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, error) {
+	return l.convert(v, when, currency, nil)
+}
+
+// convert returns a value to another currency,
+// without going through any of the currencies in "seen".
+func (l *Ledger) convert(v Value, when time.Time, currency *Currency, seen []*Currency) (Value, error) {
+	if currency == nil {
+		return v, fmt.Errorf("could not convert %q: no currency", v)
+	}
 	if v.Currency == currency {
 		//fmt.Printf("Convert(%s,%s,%s) = %s (1)\n", v, when.Format("2006-01-02"), currency.Name, v)
 		return v, nil
@@ -606,10 +615,17 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 		break
 	}
 	if prevTime == (time.Time{}) && nextTime == (time.Time{}) { // no price match
+		seen = append(seen, v.Currency)
+	nextPrice:
 		for _, p := range l.Prices {
 			if p.Currency != v.Currency {
 				continue
 			}
+			for _, c := range seen {
+				if p.Value.Currency == c {
+					continue nextPrice
+				}
+			}
 			if p.Time.Before(when) {
 				prevTime = p.Time
 				prevValue = p.Value
@@ -629,7 +645,7 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 		if err != nil {
 			return nv, err
 		}
-		return l.Convert(nv, when, currency)
+		return l.convert(nv, when, currency, seen)
 	}
 	if nextTime == (time.Time{}) {
 		prevValue.Mul(v)
-- 
2.43.0


From 9e0d56a8fab27886953ae502a5b643b354ff3464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:39 +0000
Subject: [PATCH 20/56] fix: balance of an account before its first movement

GetBalance answered with the balance after that movement, and forgot the
starting balance of accounts without movements in the period.
---
 accounting.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 7bd4d2b..e47fa94 100644
--- a/accounting.go
+++ b/accounting.go
@@ -374,7 +374,10 @@ func (a Account) FullName() string {
 // If passed the zero value, it gets the current balance.
 func (l *Ledger) GetBalance(account *Account, when time.Time) Balance {
 	if len(account.Splits) == 0 {
-		return nil
+		return account.StartBalance
+	}
+	if (when != time.Time{}) && account.Splits[0].Time.After(when) {
+		return account.StartBalance
 	}
 	if (when == time.Time{}) {
 		return account.Splits[len(account.Splits)-1].Balance
-- 
2.43.0


From 6a44c107f66b19cd6a180b553e56a5575a2894a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 21/56] fix: do not hold the lock of the registry while a
 backend opens

A backend that stalls blocked every registration, and every open after
it; one that registered or opened something else could deadlock.
---
 accounting.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/accounting.go b/accounting.go
index e47fa94..cbb9b2d 100644
--- a/accounting.go
+++ b/accounting.go
@@ -26,7 +26,6 @@ func Open(dataSource string) (*Ledger, error) {
 	}
 	backend := url.Scheme
 	driversMu.RLock()
-	defer driversMu.RUnlock()
 	if backend == "" {
 		for _, b := range defaultSchemes {
 			if drivers[b] != nil {
@@ -35,13 +34,15 @@ func Open(dataSource string) (*Ledger, error) {
 			}
 		}
 	}
-	if drivers[backend] == nil {
+	driver := drivers[backend]
+	driversMu.RUnlock() // do not hold it while the backend works
+	if driver == nil {
 		return nil, errors.New("accounting.Open: Backend " + backend + " is not registered.")
 	}
 	b := new(Backend)
 	b.ready = true
 	b.Ledger = new(Ledger)
-	b.Ledger.connection, err = drivers[backend].Open(dataSource, b)
+	b.Ledger.connection, err = driver.Open(dataSource, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5e20520b72fc4ee30ce05592ff187eb2a85d8212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 22/56] fix: close the connection if the ledger cannot be
 filled

---
 accounting.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/accounting.go b/accounting.go
index cbb9b2d..728dda8 100644
--- a/accounting.go
+++ b/accounting.go
@@ -47,6 +47,7 @@ func Open(dataSource string) (*Ledger, error) {
 		return nil, err
 	}
 	if err = b.Ledger.Fill(); err != nil {
+		b.Ledger.connection.Close()
 		return nil, err
 	}
 	return b.Ledger, nil
-- 
2.43.0


From ad95c36d5c5a711fd456b66a0039c643646ecdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 23/56] fix: ledger: Export returns an error if it cannot write

---
 backend/ledger/ledger.go | 22 +++++++++++++++++++++-
 cmd/acc/main.go          |  5 ++++-
 cmd/ledger/main.go       |  3 +--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index c19594d..7f508f3 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -44,8 +44,27 @@ func (conn *ledgerConnection) Refresh() {
 	// TODO FIXME XXX: notifier
 }
 
+// errWriter remembers the first error writing, and does not write anything after it.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (e *errWriter) Write(p []byte) (n int, err error) {
+	if e.err != nil {
+		return 0, e.err
+	}
+	n, e.err = e.w.Write(p)
+	if e.err == nil && n < len(p) {
+		e.err = io.ErrShortWrite
+	}
+	return n, e.err
+}
+
 // Export shows the "Ledger" representation of an accounting ledger.
-func Export(out io.Writer, ledger *accounting.Ledger) {
+// It returns the first error writing it, if any.
+func Export(w io.Writer, ledger *accounting.Ledger) error {
+	out := &errWriter{w: w}
 	// fmt.Fprintln(out, "\n; Accounts:")
 	for _, a := range ledger.Accounts {
 		fmt.Fprintf(out, "account %s", a.FullName())
@@ -143,4 +162,5 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		}
 	}
+	return out.err
 }
diff --git a/cmd/acc/main.go b/cmd/acc/main.go
index 905f81c..8135b27 100644
--- a/cmd/acc/main.go
+++ b/cmd/acc/main.go
@@ -21,7 +21,10 @@ func main() {
 		os.Exit(1)
 	}
 
-	ledger.Export(os.Stdout, L)
+	if err = ledger.Export(os.Stdout, L); err != nil {
+		fmt.Fprintln(os.Stderr, err.Error())
+		os.Exit(1)
+	}
 	//	for _, a := range L.Accounts {
 	//		fmt.Printf("%#v\n", a)
 	//	}
diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 5b59108..05edf34 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -193,8 +193,7 @@ func runStats(L *accounting.Ledger, flags flags, args []string) error {
 }
 
 func runPrint(L *accounting.Ledger, flags flags, args []string) error {
-	ledger.Export(os.Stdout, L)
-	return nil
+	return ledger.Export(os.Stdout, L)
 }
 
 func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error {
-- 
2.43.0


From f876872cc95886db5ac14ba3cca800fe265c6ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 24/56] fix: ledger: export account codes, ISINs and the
 default currency

All but the first comment of an account were not exported as comments
either.
---
 backend/ledger/ledger.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 7f508f3..6775f0e 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -68,13 +68,18 @@ func Export(w io.Writer, ledger *accounting.Ledger) error {
 	// fmt.Fprintln(out, "\n; Accounts:")
 	for _, a := range ledger.Accounts {
 		fmt.Fprintf(out, "account %s", a.FullName())
-		if len(ledger.Comments[a]) > 0 {
-			fmt.Fprintf(out, " ; %s", ledger.Comments[a][0])
+		var comments []string
+		if a.Code != "" {
+			comments = append(comments, "code:"+a.Code)
+		}
+		comments = append(comments, ledger.Comments[a]...)
+		if len(comments) > 0 {
+			fmt.Fprintf(out, " ; %s", comments[0])
 		}
 		fmt.Fprint(out, "\n")
-		if len(ledger.Comments[a]) > 1 {
-			for _, c := range ledger.Comments[a][1:] {
-				fmt.Fprintf(out, "\t: %s\n", c)
+		if len(comments) > 1 {
+			for _, c := range comments[1:] {
+				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
 	}
@@ -85,16 +90,25 @@ func Export(w io.Writer, ledger *accounting.Ledger) error {
 		v.Amount = 1_000_000 * accounting.U
 		v.Currency = cu
 		fmt.Fprintf(out, "commodity %s", v.String())
-		if len(ledger.Comments[cu]) > 0 {
-			fmt.Fprintf(out, " ; %s", ledger.Comments[cu][0])
+		var comments []string
+		if cu.ISIN != "" {
+			comments = append(comments, "isin:"+cu.ISIN)
+		}
+		comments = append(comments, ledger.Comments[cu]...)
+		if len(comments) > 0 {
+			fmt.Fprintf(out, " ; %s", comments[0])
 		}
 		fmt.Fprint(out, "\n")
-		if len(ledger.Comments[cu]) > 1 {
-			for _, c := range ledger.Comments[cu][1:] {
+		if len(comments) > 1 {
+			for _, c := range comments[1:] {
 				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
 	}
+	if ledger.DefaultCurrency != nil {
+		v := accounting.Value{Amount: 1_000_000 * accounting.U, Currency: ledger.DefaultCurrency}
+		fmt.Fprintf(out, "D %s\n", v.String())
+	}
 	fmt.Fprintln(out)
 	// fmt.Fprintln(out, "\n; Transactions and prices:")
 	var i, j int
-- 
2.43.0


From e9ff7c8b0cc76dbd1edbde33f93a92d7b15bf9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 25/56] fix: ledger: do not export the transfer account

Its movements are generated again when opening the exported ledger.
---
 backend/ledger/ledger.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 6775f0e..013209f 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -61,12 +61,20 @@ func (e *errWriter) Write(p []byte) (n int, err error) {
 	return n, e.err
 }
 
+// isTransfer returns whether an account is the one that accounting.Fill generates.
+func isTransfer(a *accounting.Account) bool {
+	return a.Parent == nil && a.Name == accounting.TransferAccount.Name
+}
+
 // Export shows the "Ledger" representation of an accounting ledger.
 // It returns the first error writing it, if any.
 func Export(w io.Writer, ledger *accounting.Ledger) error {
 	out := &errWriter{w: w}
 	// fmt.Fprintln(out, "\n; Accounts:")
 	for _, a := range ledger.Accounts {
+		if isTransfer(a) {
+			continue
+		}
 		fmt.Fprintf(out, "account %s", a.FullName())
 		var comments []string
 		if a.Code != "" {
@@ -138,6 +146,9 @@ func Export(w io.Writer, ledger *accounting.Ledger) error {
 				}
 			}
 			for _, s := range t.Splits {
+				if isTransfer(s.Account) {
+					continue
+				}
 				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), s.Value.FullString())
 				if v, ok := ledger.SplitPrices[s]; ok == true {
 					fmt.Fprintf(out, " @@ %s", v.FullString())
-- 
2.43.0


From 66c26dce82ecd336708c74143c479e7b5cb3dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 26/56] fix: ledger: export the seconds of dates

---
 backend/ledger/ledger.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 013209f..6b4eb29 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -66,6 +66,14 @@ func isTransfer(a *accounting.Account) bool {
 	return a.Parent == nil && a.Name == accounting.TransferAccount.Name
 }
 
+// formatDate writes a time in a format that GetDate understands.
+func formatDate(t time.Time) string {
+	if t.Second() != 0 {
+		return t.Format("2006-01-02/15:04:05")
+	}
+	return t.Format("2006-01-02/15:04")
+}
+
 // Export shows the "Ledger" representation of an accounting ledger.
 // It returns the first error writing it, if any.
 func Export(w io.Writer, ledger *accounting.Ledger) error {
@@ -135,7 +143,7 @@ func Export(w io.Writer, ledger *accounting.Ledger) error {
 		// fmt.Fprintf(out, "DEBUG: i=%d j=%d tt=%v tp=%v\n", i, j, tt, tp)
 		if p == nil || (t != nil && !tt.After(tp)) {
 			i++
-			fmt.Fprintf(out, "%s %s", t.Time.Format("2006-01-02/15:04"), t.Description)
+			fmt.Fprintf(out, "%s %s", formatDate(t.Time), t.Description)
 			if len(ledger.Comments[t]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[t][0])
 			}
@@ -158,7 +166,7 @@ func Export(w io.Writer, ledger *accounting.Ledger) error {
 				}
 				var comments []string
 				if *s.Time != t.Time {
-					comments = append(comments, "date:"+s.Time.Format("2006-01-02/15:04"))
+					comments = append(comments, "date:"+formatDate(*s.Time))
 				}
 				if len(ledger.Comments[s]) > 0 {
 					comments = append(comments, ledger.Comments[s]...)
@@ -175,7 +183,7 @@ func Export(w io.Writer, ledger *accounting.Ledger) error {
 			}
 		} else {
 			j++
-			fmt.Fprintf(out, "P %s %s %s", p.Time.Format("2006-01-02/15:04"), p.Currency.Name, p.Value.FullString())
+			fmt.Fprintf(out, "P %s %s %s", formatDate(p.Time), p.Currency.Name, p.Value.FullString())
 			if len(ledger.Comments[p]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[p][0])
 			}
-- 
2.43.0


From 143386a2ea3355cb20736918f07de4e3003261e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 27/56] fix: ledger: export empty comments

---
 backend/ledger/ledger.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 6b4eb29..eadee7d 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -66,6 +66,15 @@ func isTransfer(a *accounting.Account) bool {
 	return a.Parent == nil && a.Name == accounting.TransferAccount.Name
 }
 
+// firstComment writes the first comment of something: in the same line,
+// or else below it if it is empty (because it would be lost).
+func firstComment(comment string) string {
+	if comment == "" {
+		return "\n\t;"
+	}
+	return " ; " + comment
+}
+
 // formatDate writes a time in a format that GetDate understands.
 func formatDate(t time.Time) string {
 	if t.Second() != 0 {
@@ -90,7 +99,7 @@ func Export(w io.Writer, ledger *accounting.Ledger) error {
 		}
 		comments = append(comments, ledger.Comments[a]...)
 		if len(comments) > 0 {
-			fmt.Fprintf(out, " ; %s", comments[0])
+			fmt.Fprint(out, firstComment(comments[0]))
 		}
 		fmt.Fprint(out, "\n")
 		if len(comments) > 1 {
@@ -112,7 +121,7 @@ func Export(w io.Writer, ledger *accounting.Ledger) error {
 		}
 		comments = append(comments, ledger.Comments[cu]...)
 		if len(comments) > 0 {
-			fmt.Fprintf(out, " ; %s", comments[0])
+			fmt.Fprint(out, firstComment(comments[0]))
 		}
 		fmt.Fprint(out, "\n")
 		if len(comments) > 1 {
@@ -145,7 +154,7 @@ func Export(w io.Writer, ledger *accounting.Ledger) error {
 			i++
 			fmt.Fprintf(out, "%s %s", formatDate(t.Time), t.Description)
 			if len(ledger.Comments[t]) > 0 {
-				fmt.Fprintf(out, " ; %s", ledger.Comments[t][0])
+				fmt.Fprint(out, firstComment(ledger.Comments[t][0]))
 			}
 			fmt.Fprint(out, "\n")
 			if len(ledger.Comments[t]) > 1 {
@@ -172,7 +181,7 @@ func Export(w io.Writer, ledger *accounting.Ledger) error {
 					comments = append(comments, ledger.Comments[s]...)
 				}
 				if len(comments) > 0 {
-					fmt.Fprintf(out, " ; %s", comments[0])
+					fmt.Fprint(out, firstComment(comments[0]))
 				}
 				fmt.Fprint(out, "\n")
 				if len(comments) > 1 {
@@ -185,7 +194,7 @@ func Export(w io.Writer, ledger *accounting.Ledger) error {
 			j++
 			fmt.Fprintf(out, "P %s %s %s", formatDate(p.Time), p.Currency.Name, p.Value.FullString())
 			if len(ledger.Comments[p]) > 0 {
-				fmt.Fprintf(out, " ; %s", ledger.Comments[p][0])
+				fmt.Fprint(out, firstComment(ledger.Comments[p][0]))
 			}
 			fmt.Fprint(out, "\n")
 			if len(ledger.Comments[p]) > 1 {
-- 
2.43.0


From 851be9145c4c7268c8c9336c4504b9ea50ea6b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 28/56] fix: ledger: export prices and zero amounts of unnamed
 currencies

They could not be read again, or meant something else.
---
 backend/ledger/ledger.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index eadee7d..4c8ff84 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"net/url"
+	"strings"
 	"time"
 
 	"github.com/cespedes/accounting"
@@ -166,7 +167,12 @@ func Export(w io.Writer, ledger *accounting.Ledger) error {
 				if isTransfer(s.Account) {
 					continue
 				}
-				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), s.Value.FullString())
+				value := s.Value.FullString()
+				if c := s.Value.Currency; s.Value.Amount == 0 && (c == nil || (c.Name == "" && c != ledger.DefaultCurrency)) {
+					// zero, of no currency at all: it was not written in the journal
+					value = ""
+				}
+				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), value)
 				if v, ok := ledger.SplitPrices[s]; ok == true {
 					fmt.Fprintf(out, " @@ %s", v.FullString())
 				}
@@ -192,6 +198,10 @@ func Export(w io.Writer, ledger *accounting.Ledger) error {
 			}
 		} else {
 			j++
+			if p.Currency.Name == "" || strings.Contains(p.Currency.Name, " ") {
+				// only Fill can make these, and will do it again
+				continue
+			}
 			fmt.Fprintf(out, "P %s %s %s", formatDate(p.Time), p.Currency.Name, p.Value.FullString())
 			if len(ledger.Comments[p]) > 0 {
 				fmt.Fprint(out, firstComment(ledger.Comments[p][0]))
-- 
2.43.0


From de5e1d318aabde4a8d33ea40d65d9f91902a8d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 29/56] fix: ledger: the first amount of a currency sets its
 precision, even after a price

Otherwise its export was rejected.
---
 backend/ledger/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 8b51ea6..90d91d2 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -558,6 +558,8 @@ done:
 		l.ledger.Currencies = append(l.ledger.Currencies, value.Currency)
 	}
 done2:
+	// a currency that was only mentioned in a price has no format yet
+	newFormat := value.Currency.Decimal == "" && value.Currency.Thousand == ""
 	var sign int64 = 1
 	if sAmount[0] == '-' {
 		sign = -1
@@ -645,7 +647,7 @@ done2:
 		shift = 8
 	} else {
 		shift = len(sAmount) - decimalPos - 1
-		if newCurrency && shift <= 8 {
+		if (newCurrency || newFormat) && shift <= 8 {
 			value.Currency.Precision = shift
 		}
 		shift = 8 - shift
-- 
2.43.0


From 4d5cbbc9701331b7c90c54599c676351cd87fa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 30/56] fix: cmd/ledger: show balances of accounts without
 movements in the period

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 05edf34..ce63a11 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -139,7 +139,7 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 	}
 	if !flags.total {
 		for _, a := range accounts {
-			if len(a.Account.Splits) > 0 {
+			if len(a.Account.Splits) > 0 || len(a.Balance) > 0 {
 				for i, v := range a.Balance {
 					fmt.Printf("%*.*s", maxLength, maxLength, v.String())
 					if i == len(a.Balance)-1 {
-- 
2.43.0


From eb5f7e69131b70bbeda45562851fe8aad3615a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 31/56] fix: cmd/ledger: delta converts the final balance at
 the end date

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index ce63a11..9ac2ff5 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -342,7 +342,7 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 		balanceEnd.AddBalance(balanceBegin)
 		balanceEnd.AddBalance(balanceDelta)
 		for _, v := range balanceEnd {
-			nv, err := L.Convert(v, flags.beginDate, L.DefaultCurrency)
+			nv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 764ef4f59629189df496b073c6ba87d2b42b8a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 32/56] fix: txtdb: report errors reading the files, and read
 both at the same time

A read error was taken for the end of the file, and a file of transactions
that could not be opened for an empty one. The files were not closed.
---
 backend/txtdb/txtdb.go | 43 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 4c02b90..64590e4 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -2,8 +2,10 @@ package txtdb
 
 import (
 	"bufio"
+	"bytes"
 	"errors"
 	"fmt"
+	"io/ioutil"
 	"log"
 	"math"
 	"net/url"
@@ -67,11 +69,11 @@ func (c *conn) Flush() error {
 }
 
 func (c *conn) read() error {
-	f, err := os.Open(filepath.Join(c.dir, "accounts"))
+	accounts, transactions, err := c.readFiles()
 	if err != nil {
 		return err
 	}
-	sc := bufio.NewScanner(f)
+	sc := bufio.NewScanner(bytes.NewReader(accounts))
 	for sc.Scan() {
 		var ac accounting.Account
 		line := sc.Text()
@@ -96,13 +98,12 @@ func (c *conn) read() error {
 		c.accountMap[id] = &ac
 		c.ledger.Accounts = append(c.ledger.Accounts, &ac)
 	}
+	if err = sc.Err(); err != nil {
+		return fmt.Errorf("%s: %w", filepath.Join(c.dir, "accounts"), err)
+	}
 	c.ledger.Accounts = accounting.SortAccounts(c.ledger.Accounts)
 
-	f, err = os.Open(filepath.Join(c.dir, "transactions"))
-	if err != nil {
-		return nil
-	}
-	sc = bufio.NewScanner(f)
+	sc = bufio.NewScanner(bytes.NewReader(transactions))
 	nextID := 1
 	var balance int64
 	var tr *accounting.Transaction
@@ -209,12 +210,40 @@ func (c *conn) read() error {
 			nextID++
 		}
 	}
+	if err = sc.Err(); err != nil {
+		return fmt.Errorf("%s: %w", filepath.Join(c.dir, "transactions"), err)
+	}
 	if balance != 0 {
 		log.Printf("transactions: balance is %d, not zero", balance)
 	}
 	return nil
 }
 
+// readFiles reads both files of the database, as they were at the same time.
+// If there is no file of transactions, it is like an empty one.
+func (c *conn) readFiles() (accounts []byte, transactions []byte, err error) {
+	accounts, err = ioutil.ReadFile(filepath.Join(c.dir, "accounts"))
+	if err != nil {
+		return nil, nil, err
+	}
+	for i := 0; i < 100; i++ {
+		transactions, err = ioutil.ReadFile(filepath.Join(c.dir, "transactions"))
+		if err != nil && !os.IsNotExist(err) {
+			return nil, nil, err
+		}
+		again, err := ioutil.ReadFile(filepath.Join(c.dir, "accounts"))
+		if err != nil {
+			return nil, nil, err
+		}
+		if bytes.Equal(accounts, again) {
+			return accounts, transactions, nil
+		}
+		// somebody is writing them: try again
+		accounts = again
+	}
+	return nil, nil, errors.New(c.dir + ": the accounts are changing all the time")
+}
+
 func init() {
 	accounting.Register("txtdb", driver{})
 }
-- 
2.43.0


From a6f0870bbe669562cd374cf0e3058a9ee837fbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:35 +0000
Subject: [PATCH 33/56] fix: txtdb: parents of accounts can be defined after
 them

---
 backend/txtdb/txtdb.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 64590e4..9aad3ba 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -73,6 +73,7 @@ func (c *conn) read() error {
 	if err != nil {
 		return err
 	}
+	parents := make(map[*accounting.Account]int)
 	sc := bufio.NewScanner(bytes.NewReader(accounts))
 	for sc.Scan() {
 		var ac accounting.Account
@@ -93,7 +94,7 @@ func (c *conn) read() error {
 		ac.Code = fields[4]
 		parent, err := strconv.Atoi(fields[5])
 		if err == nil {
-			ac.Parent = c.accountMap[parent]
+			parents[&ac] = parent
 		}
 		c.accountMap[id] = &ac
 		c.ledger.Accounts = append(c.ledger.Accounts, &ac)
@@ -101,6 +102,19 @@ func (c *conn) read() error {
 	if err = sc.Err(); err != nil {
 		return fmt.Errorf("%s: %w", filepath.Join(c.dir, "accounts"), err)
 	}
+	for _, ac := range c.ledger.Accounts { // parents can be after their children
+		if parent, ok := parents[ac]; ok {
+			ac.Parent = c.accountMap[parent]
+		}
+	}
+	for _, ac := range c.ledger.Accounts {
+		i := 0
+		for p := ac.Parent; p != nil; p = p.Parent {
+			if i++; i > len(c.ledger.Accounts) {
+				return fmt.Errorf("account %s (%s) is its own ancestor", ac.ID, ac.Name)
+			}
+		}
+	}
 	c.ledger.Accounts = accounting.SortAccounts(c.ledger.Accounts)
 
 	sc = bufio.NewScanner(bytes.NewReader(transactions))
-- 
2.43.0


From c3d68d0acf4567c39155cb04212c0273c2afa66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 34/56] fix: txtdb: set the default currency

Without it there were no market values, and its export lost the number of decimals.
---
 backend/txtdb/txtdb.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 9aad3ba..0cec86f 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -48,6 +48,7 @@ func (p driver) Open(name string, backend *accounting.Backend) (accounting.Conne
 	conn.currency.Precision = 2
 	conn.backend = backend
 	conn.ledger = backend.Ledger
+	conn.ledger.DefaultCurrency = &conn.currency
 	conn.ledger.Comments = make(map[interface{}][]string)
 	conn.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
 	conn.ledger.Assertions = make(map[*accounting.Split]accounting.Value)
-- 
2.43.0


From f34e0e32d4fcb9a1d768d9c419fc8039ee9ee073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 35/56] fix: postgres: errors are returned by Open

Errors of the database made it panic, or were ignored, and the connection was never closed.
---
 backend/postgres/postgres.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index bdcdcb1..3cef9b6 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -38,6 +38,7 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 		return nil, errors.New("psql.Open: " + err.Error())
 	}
 	if err = db.Ping(); err != nil {
+		db.Close()
 		return nil, errors.New("psql.Open: " + err.Error())
 	}
 	// TODO I should check the SQL schema...
@@ -45,8 +46,13 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.db = db
 	conn.backend = backend
 	conn.ledger = backend.Ledger
-	getAccounts(conn)
-	getTransactions(conn)
+	if err = getAccounts(conn); err == nil {
+		err = getTransactions(conn)
+	}
+	if err != nil {
+		db.Close()
+		return nil, errors.New("psql.Open: " + err.Error())
+	}
 	return conn, nil
 }
 
@@ -58,7 +64,7 @@ func (c *conn) Close() error {
 	return c.db.Close()
 }
 
-func getAccounts(c *conn) {
+func getAccounts(c *conn) error {
 	ledger := c.ledger
 	query := `
 		SELECT a.id, a.name, COALESCE(a.code, '') AS code,
@@ -68,8 +74,9 @@ func getAccounts(c *conn) {
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
-		panic(err)
+		return err
 	}
+	defer rows.Close()
 	ledger.Accounts = nil
 	for rows.Next() {
 		var (
@@ -80,7 +87,7 @@ func getAccounts(c *conn) {
 			acc     accounting.Account
 		)
 		if err := rows.Scan(&id, &name, &code, &balance); err != nil {
-			panic(err)
+			return err
 		}
 		acc.ID = ID(id)
 		acc.Name = name
@@ -88,9 +95,10 @@ func getAccounts(c *conn) {
 		// acc.Balance = balance
 		ledger.Accounts = append(ledger.Accounts, &acc)
 	}
+	return rows.Err()
 }
 
-func getTransactions(c *conn) {
+func getTransactions(c *conn) error {
 	ledger := c.ledger
 	idAccount := make(map[accounting.ID]*accounting.Account)
 	for i, a := range ledger.Accounts {
@@ -101,8 +109,9 @@ func getTransactions(c *conn) {
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
-		panic(err)
+		return err
 	}
+	defer rows.Close()
 	for rows.Next() {
 		var (
 			date    time.Time
@@ -113,7 +122,7 @@ func getTransactions(c *conn) {
 			balance int
 		)
 		if err := rows.Scan(&date, &tid, &aid, &desc, &value, &balance); err != nil {
-			panic(err)
+			return err
 		}
 		if l := len(ledger.Transactions); l == 0 || ledger.Transactions[l-1].ID != tid {
 			ledger.Transactions = append(ledger.Transactions, &accounting.Transaction{
@@ -123,12 +132,15 @@ func getTransactions(c *conn) {
 		}
 		split := new(accounting.Split)
 		split.Account = idAccount[aid]
+		if split.Account == nil {
+			return fmt.Errorf("transaction %s: account %s does not exist", tid, aid)
+		}
 		split.Value.Currency = nil
 		split.Value.Amount = value
 		tra := ledger.Transactions[len(ledger.Transactions)-1]
 		tra.Splits = append(tra.Splits, split)
 	}
-	return
+	return rows.Err()
 }
 
 // Flush is a no-op in SQL: all the writes to the database are unbuffered
-- 
2.43.0


From 358eeeab2f5183bb72fdfab24d98116f886b7e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 36/56] fix: postgres: load the data of the documented tables

The transactions were read from a view that the documentation does not mention,
in no order; amounts lost their decimals and had no currency (so that no ledger
with transactions could be opened), accounts lost their parents, and NULLs and
accounts with more than 21 million were errors.
---
 backend/postgres/postgres.go | 76 +++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 22 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index 3cef9b6..047f08b 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"errors"
 	"fmt"
+	"math/big"
 	"time"
 
 	"github.com/cespedes/accounting"
@@ -46,6 +47,10 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.db = db
 	conn.backend = backend
 	conn.ledger = backend.Ledger
+	conn.ledger.Comments = make(map[interface{}][]string)
+	conn.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
+	conn.ledger.Assertions = make(map[*accounting.Split]accounting.Value)
+	conn.ledger.DefaultCurrency = &accounting.Currency{Decimal: ".", Precision: 2} // just one currency for now
 	if err = getAccounts(conn); err == nil {
 		err = getTransactions(conn)
 	}
@@ -67,10 +72,9 @@ func (c *conn) Close() error {
 func getAccounts(c *conn) error {
 	ledger := c.ledger
 	query := `
-		SELECT a.id, a.name, COALESCE(a.code, '') AS code,
-			COALESCE((100*sum(s.value))::integer, 0) AS balance
+		SELECT a.id, a.parent_id, COALESCE(a.name, '') AS name, COALESCE(a.code, '') AS code
 		FROM account a
-		LEFT JOIN split s ON a.id=s.account_id GROUP BY a.id
+		ORDER BY a.id
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
@@ -78,23 +82,31 @@ func getAccounts(c *conn) error {
 	}
 	defer rows.Close()
 	ledger.Accounts = nil
+	idAccount := make(map[int64]*accounting.Account)
+	idParent := make(map[*accounting.Account]int64)
 	for rows.Next() {
 		var (
-			id      int
-			name    string
-			code    string
-			balance int
-			acc     accounting.Account
+			id     int64
+			parent sql.NullInt64
+			name   string
+			code   string
+			acc    accounting.Account
 		)
-		if err := rows.Scan(&id, &name, &code, &balance); err != nil {
+		if err := rows.Scan(&id, &parent, &name, &code); err != nil {
 			return err
 		}
 		acc.ID = ID(id)
 		acc.Name = name
 		acc.Code = code
-		// acc.Balance = balance
+		if parent.Valid {
+			idParent[&acc] = parent.Int64
+		}
+		idAccount[id] = &acc
 		ledger.Accounts = append(ledger.Accounts, &acc)
 	}
+	for acc, parent := range idParent {
+		acc.Parent = idAccount[parent]
+	}
 	return rows.Err()
 }
 
@@ -105,7 +117,10 @@ func getTransactions(c *conn) error {
 		idAccount[a.ID] = ledger.Accounts[i]
 	}
 	query := `
-		SELECT datetime,transaction_id,account_id,description,(100*value)::integer,(100*balance)::integer FROM money
+		SELECT t.datetime, t.id, COALESCE(t.description, '') AS description, s.account_id, s.value::text
+		FROM transaction t
+		LEFT JOIN split s ON s.transaction_id = t.id
+		ORDER BY t.datetime, t.id
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
@@ -114,14 +129,13 @@ func getTransactions(c *conn) error {
 	defer rows.Close()
 	for rows.Next() {
 		var (
-			date    time.Time
-			tid     ID
-			aid     ID
-			desc    string
-			value   int64
-			balance int
+			date  time.Time
+			tid   ID
+			aid   sql.NullInt64
+			desc  string
+			value sql.NullString
 		)
-		if err := rows.Scan(&date, &tid, &aid, &desc, &value, &balance); err != nil {
+		if err := rows.Scan(&date, &tid, &desc, &aid, &value); err != nil {
 			return err
 		}
 		if l := len(ledger.Transactions); l == 0 || ledger.Transactions[l-1].ID != tid {
@@ -130,19 +144,37 @@ func getTransactions(c *conn) error {
 				Time:        date,
 				Description: desc})
 		}
+		if !aid.Valid { // transaction without splits
+			continue
+		}
 		split := new(accounting.Split)
-		split.Account = idAccount[aid]
+		split.Account = idAccount[ID(aid.Int64)]
 		if split.Account == nil {
-			return fmt.Errorf("transaction %s: account %s does not exist", tid, aid)
+			return fmt.Errorf("transaction %s: account %d does not exist", tid, aid.Int64)
+		}
+		split.Value.Currency = ledger.DefaultCurrency
+		if split.Value.Amount, err = getAmount(value.String); err != nil {
+			return fmt.Errorf("transaction %s: %v", tid, err)
 		}
-		split.Value.Currency = nil
-		split.Value.Amount = value
 		tra := ledger.Transactions[len(ledger.Transactions)-1]
 		tra.Splits = append(tra.Splits, split)
 	}
 	return rows.Err()
 }
 
+// getAmount converts a NUMERIC to an amount.
+func getAmount(s string) (int64, error) {
+	r, ok := new(big.Rat).SetString(s)
+	if !ok {
+		return 0, fmt.Errorf("invalid amount %q", s)
+	}
+	r.Mul(r, new(big.Rat).SetInt64(accounting.U))
+	if !r.IsInt() || !r.Num().IsInt64() {
+		return 0, fmt.Errorf("amount %s does not fit", s)
+	}
+	return r.Num().Int64(), nil
+}
+
 // Flush is a no-op in SQL: all the writes to the database are unbuffered
 func (c *conn) Flush() error {
 	return nil
-- 
2.43.0


From fa21c31bf0f1bfc41aba91e7ce1af6fd4db08eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 37/56] fix: postgres: read everything at one point in time

---
 backend/postgres/postgres.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index 047f08b..0195910 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -1,6 +1,7 @@
 package postgres
 
 import (
+	"context"
 	"database/sql"
 	"errors"
 	"fmt"
@@ -51,10 +52,7 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
 	conn.ledger.Assertions = make(map[*accounting.Split]accounting.Value)
 	conn.ledger.DefaultCurrency = &accounting.Currency{Decimal: ".", Precision: 2} // just one currency for now
-	if err = getAccounts(conn); err == nil {
-		err = getTransactions(conn)
-	}
-	if err != nil {
+	if err = conn.load(); err != nil {
 		db.Close()
 		return nil, errors.New("psql.Open: " + err.Error())
 	}
@@ -69,14 +67,27 @@ func (c *conn) Close() error {
 	return c.db.Close()
 }
 
-func getAccounts(c *conn) error {
+// load reads everything as it is at one single point in time.
+func (c *conn) load() error {
+	tx, err := c.db.BeginTx(context.Background(), &sql.TxOptions{Isolation: sql.LevelRepeatableRead, ReadOnly: true})
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback()
+	if err = getAccounts(c, tx); err != nil {
+		return err
+	}
+	return getTransactions(c, tx)
+}
+
+func getAccounts(c *conn, tx *sql.Tx) error {
 	ledger := c.ledger
 	query := `
 		SELECT a.id, a.parent_id, COALESCE(a.name, '') AS name, COALESCE(a.code, '') AS code
 		FROM account a
 		ORDER BY a.id
 	`
-	rows, err := c.db.Query(query)
+	rows, err := tx.Query(query)
 	if err != nil {
 		return err
 	}
@@ -110,7 +121,7 @@ func getAccounts(c *conn) error {
 	return rows.Err()
 }
 
-func getTransactions(c *conn) error {
+func getTransactions(c *conn, tx *sql.Tx) error {
 	ledger := c.ledger
 	idAccount := make(map[accounting.ID]*accounting.Account)
 	for i, a := range ledger.Accounts {
@@ -122,7 +133,7 @@ func getTransactions(c *conn) error {
 		LEFT JOIN split s ON s.transaction_id = t.id
 		ORDER BY t.datetime, t.id
 	`
-	rows, err := c.db.Query(query)
+	rows, err := tx.Query(query)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 67753a64af30058622bbfd56ccb508bfefdf947f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 38/56] fix: Refresh loads the accounting data again

It did nothing in any of the backends.
---
 accounting.go                | 19 +++++++++++++++++++
 backend.go                   |  5 +++++
 backend/ledger/ledger.go     |  7 +++++++
 backend/postgres/postgres.go | 26 +++++++++++---------------
 backend/txtdb/txtdb.go       | 16 ++++++++++++----
 5 files changed, 54 insertions(+), 19 deletions(-)

diff --git a/accounting.go b/accounting.go
index 728dda8..68ea37b 100644
--- a/accounting.go
+++ b/accounting.go
@@ -3,6 +3,7 @@ package accounting
 import (
 	"errors"
 	"fmt"
+	"log"
 	"math/big"
 	"net/url"
 	"sort"
@@ -166,8 +167,26 @@ func (l *Ledger) Close() error {
 }
 
 // Refresh loads again (if needed) all the accounting data.
+// If it fails, the ledger remains as it was.
 func (l *Ledger) Refresh() {
 	l.connection.Refresh()
+	x, ok := l.connection.(interface {
+		Load(*Ledger) error
+	})
+	if !ok {
+		return
+	}
+	n := new(Ledger)
+	n.connection = l.connection
+	err := x.Load(n)
+	if err == nil {
+		err = n.Fill()
+	}
+	if err != nil {
+		log.Printf("accounting.Refresh: %v", err)
+		return
+	}
+	*l = *n
 }
 
 // Clone returns a deep copy of l.
diff --git a/backend.go b/backend.go
index 111f315..25d9125 100644
--- a/backend.go
+++ b/backend.go
@@ -20,6 +20,11 @@ type Connection interface {
 	Refresh()
 }
 
+// A Connection can also have this method, and then Ledger.Refresh uses it:
+//
+//	// Load reads all the accounting data into an empty Ledger.
+//	Load(*Ledger) error
+
 // Backend contains the Ledger and some methods to be called only by the backends.
 type Backend struct {
 	ready  bool
diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 4c8ff84..5476a5b 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -45,6 +45,13 @@ func (conn *ledgerConnection) Refresh() {
 	// TODO FIXME XXX: notifier
 }
 
+// Load reads the journal into another ledger.
+func (conn *ledgerConnection) Load(ledger *accounting.Ledger) error {
+	c := *conn
+	c.ledger = ledger
+	return c.readJournal()
+}
+
 // errWriter remembers the first error writing, and does not write anything after it.
 type errWriter struct {
 	w   io.Writer
diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index 0195910..fd8f55b 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -21,7 +21,6 @@ type conn struct {
 	db      *sql.DB
 	updated time.Time
 	backend *accounting.Backend
-	ledger  *accounting.Ledger
 }
 
 func (id ID) String() string {
@@ -47,12 +46,7 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn := new(conn)
 	conn.db = db
 	conn.backend = backend
-	conn.ledger = backend.Ledger
-	conn.ledger.Comments = make(map[interface{}][]string)
-	conn.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
-	conn.ledger.Assertions = make(map[*accounting.Split]accounting.Value)
-	conn.ledger.DefaultCurrency = &accounting.Currency{Decimal: ".", Precision: 2} // just one currency for now
-	if err = conn.load(); err != nil {
+	if err = conn.Load(backend.Ledger); err != nil {
 		db.Close()
 		return nil, errors.New("psql.Open: " + err.Error())
 	}
@@ -67,21 +61,24 @@ func (c *conn) Close() error {
 	return c.db.Close()
 }
 
-// load reads everything as it is at one single point in time.
-func (c *conn) load() error {
+// Load reads everything into a ledger, as it is at one single point in time.
+func (c *conn) Load(ledger *accounting.Ledger) error {
+	ledger.Comments = make(map[interface{}][]string)
+	ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
+	ledger.Assertions = make(map[*accounting.Split]accounting.Value)
+	ledger.DefaultCurrency = &accounting.Currency{Decimal: ".", Precision: 2} // just one currency for now
 	tx, err := c.db.BeginTx(context.Background(), &sql.TxOptions{Isolation: sql.LevelRepeatableRead, ReadOnly: true})
 	if err != nil {
 		return err
 	}
 	defer tx.Rollback()
-	if err = getAccounts(c, tx); err != nil {
+	if err = getAccounts(ledger, tx); err != nil {
 		return err
 	}
-	return getTransactions(c, tx)
+	return getTransactions(ledger, tx)
 }
 
-func getAccounts(c *conn, tx *sql.Tx) error {
-	ledger := c.ledger
+func getAccounts(ledger *accounting.Ledger, tx *sql.Tx) error {
 	query := `
 		SELECT a.id, a.parent_id, COALESCE(a.name, '') AS name, COALESCE(a.code, '') AS code
 		FROM account a
@@ -121,8 +118,7 @@ func getAccounts(c *conn, tx *sql.Tx) error {
 	return rows.Err()
 }
 
-func getTransactions(c *conn, tx *sql.Tx) error {
-	ledger := c.ledger
+func getTransactions(ledger *accounting.Ledger, tx *sql.Tx) error {
 	idAccount := make(map[accounting.ID]*accounting.Account)
 	for i, a := range ledger.Accounts {
 		idAccount[a.ID] = ledger.Accounts[i]
diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 0cec86f..1cc71e9 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -44,17 +44,25 @@ func (p driver) Open(name string, backend *accounting.Backend) (accounting.Conne
 	}
 	conn := new(conn)
 	conn.dir = url.Path
+	conn.backend = backend
+
+	err = conn.Load(backend.Ledger)
+	return conn, err
+}
+
+// Load reads the database into a ledger.
+func (p *conn) Load(ledger *accounting.Ledger) error {
+	conn := new(conn)
+	conn.dir = p.dir
 	conn.accountMap = make(map[int]*accounting.Account)
 	conn.currency.Precision = 2
-	conn.backend = backend
-	conn.ledger = backend.Ledger
+	conn.ledger = ledger
 	conn.ledger.DefaultCurrency = &conn.currency
 	conn.ledger.Comments = make(map[interface{}][]string)
 	conn.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
 	conn.ledger.Assertions = make(map[*accounting.Split]accounting.Value)
 
-	err = conn.read()
-	return conn, err
+	return conn.read()
 }
 
 func (c *conn) Close() error {
-- 
2.43.0


From 66bd1695996a574fb41eb7b530ab92d46981c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 39/56] fix: ledger: accept amounts with thousand signs

If the currency already had a thousand sign, 1.000 was rejected
(so an export could not be read again), and 100.5 was 1005.
---
 backend/ledger/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 90d91d2..c980747 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -598,7 +598,7 @@ done2:
 		}
 		if value.Currency.Thousand == string(c) || (value.Currency.Thousand == "" && value.Currency.Decimal != "" && value.Currency.Decimal != string(c)) {
 			value.Currency.Thousand = string(c)
-			if (thousandPos == -1 && i > 3) || i-thousandPos != 4 || decimalPos > -1 {
+			if (thousandPos == -1 && i > 3) || (thousandPos > -1 && i-thousandPos != 4) || decimalPos > -1 {
 				return value, fmt.Errorf("syntax error: wrong position for thousand sign '%s'", value.Currency.Thousand), newCurrency
 			}
 			thousandPos = i
@@ -642,6 +642,9 @@ done2:
 	if punct != "" {
 		return value, fmt.Errorf("syntax error: punctuation '%s' can be a thousand or a decimal", punct), newCurrency
 	}
+	if thousandPos > -1 && decimalPos == -1 && len(sAmount)-thousandPos != 4 {
+		return value, fmt.Errorf("syntax error: wrong position for thousand sign '%s'", value.Currency.Thousand), newCurrency
+	}
 	shift := 0
 	if decimalPos == -1 {
 		shift = 8
-- 
2.43.0


From bd8622c9a2b91b67e83b83577cda9b740a05cc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:27 +0000
Subject: [PATCH 40/56] fix: ledger: export amounts without a name if there is
 another default currency

---
 backend/ledger/ledger.go | 41 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 5476a5b..acc1ef3 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -138,9 +138,14 @@ func Export(w io.Writer, ledger *accounting.Ledger) error {
 			}
 		}
 	}
-	if ledger.DefaultCurrency != nil {
-		v := accounting.Value{Amount: 1_000_000 * accounting.U, Currency: ledger.DefaultCurrency}
-		fmt.Fprintf(out, "D %s\n", v.String())
+	// amounts without a name are in this currency until another one is the default
+	unnamed := unnamedCurrency(ledger)
+	for _, cu := range []*accounting.Currency{unnamed, ledger.DefaultCurrency} {
+		if cu != nil {
+			v := accounting.Value{Amount: 1_000_000 * accounting.U, Currency: cu}
+			fmt.Fprintf(out, "D %s\n", v.String())
+			break
+		}
 	}
 	fmt.Fprintln(out)
 	// fmt.Fprintln(out, "\n; Transactions and prices:")
@@ -175,7 +180,7 @@ func Export(w io.Writer, ledger *accounting.Ledger) error {
 					continue
 				}
 				value := s.Value.FullString()
-				if c := s.Value.Currency; s.Value.Amount == 0 && (c == nil || (c.Name == "" && c != ledger.DefaultCurrency)) {
+				if c := s.Value.Currency; s.Value.Amount == 0 && (c == nil || (c.Name == "" && c != ledger.DefaultCurrency && c != unnamed)) {
 					// zero, of no currency at all: it was not written in the journal
 					value = ""
 				}
@@ -221,5 +226,33 @@ func Export(w io.Writer, ledger *accounting.Ledger) error {
 			}
 		}
 	}
+	if unnamed != nil {
+		v := accounting.Value{Amount: 1_000_000 * accounting.U, Currency: ledger.DefaultCurrency}
+		fmt.Fprintf(out, "D %s\n", v.String())
+	}
 	return out.err
 }
+
+// unnamedCurrency returns the currency without a name in which there are amounts
+// in the ledger, if there is one and it is not the default currency any more.
+func unnamedCurrency(ledger *accounting.Ledger) (unnamed *accounting.Currency) {
+	if ledger.DefaultCurrency == nil || ledger.DefaultCurrency.Name == "" {
+		return nil
+	}
+	look := func(v accounting.Value) {
+		if v.Currency != nil && v.Currency.Name == "" && (v.Amount != 0 || v.Currency.Decimal != "") {
+			unnamed = v.Currency
+		}
+	}
+	for _, t := range ledger.Transactions {
+		for _, s := range t.Splits {
+			look(s.Value)
+			look(ledger.SplitPrices[s])
+			look(ledger.Assertions[s])
+		}
+	}
+	for _, p := range ledger.Prices {
+		look(p.Value)
+	}
+	return unnamed
+}
-- 
2.43.0


From 1c9cdb575cec3309de137d3df48e3460f8fa5748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:03 +0000
Subject: [PATCH 41/56] fix: muscular: count periods back in UTC, like the
 dates in the journal

---
 cmd/muscular/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/muscular/main.go b/cmd/muscular/main.go
index 3dc5034..ec300e4 100644
--- a/cmd/muscular/main.go
+++ b/cmd/muscular/main.go
@@ -91,7 +91,7 @@ func main2(L *accounting.Ledger, args []string) {
 	var flags flags
 	var err error
 	var txtBeginDate, txtEndDate, txtPeriod, txtMeasurePeriod string
-	flags.endDate = time.Now()
+	flags.endDate = time.Now().UTC() // as the dates in the journal
 	f := flag.NewFlagSet("muscular", flag.ExitOnError)
 
 	f.StringVar(&txtBeginDate, "b", "", "begin date")
-- 
2.43.0


From 598717a9105604e580515f8914fe5b71fe941ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 42/56] fix: ledger accounts -tree shows short names, as it
 says

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 9ac2ff5..e67a559 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -47,7 +47,7 @@ func runAccounts(L *accounting.Ledger, flags flags, args []string) error {
 
 	for _, a := range L.Accounts {
 		if treeFlag {
-			fmt.Printf("%*.0s%s\n", 2*a.Level, " ", a.FullName())
+			fmt.Printf("%*.0s%s\n", 2*a.Level, " ", a.Name)
 		} else {
 			fmt.Println(a.FullName())
 		}
-- 
2.43.0


From 849beabb80cea6f7aaa30db120cf4431b4adcb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 43/56] fix: ledger delta counts each account once

---
 cmd/ledger/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index e67a559..54050cc 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -318,6 +318,7 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 		for _, b := range args {
 			if strings.Contains(strings.ToLower(a.FullName()), strings.ToLower(b)) {
 				accounts = append(accounts, a)
+				break
 			}
 		}
 	}
-- 
2.43.0


From 4df247203d7a51e0c04af21323d24cafb23cb7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 44/56] fix: balances and income of a pivot count only its
 transactions

---
 cmd/ledger/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 54050cc..327ca59 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -421,6 +421,12 @@ func doPivot(L *accounting.Ledger, pivot sliceString) {
 				j--
 			}
 		}
+		// the balances must not count the transactions left out
+		var balance accounting.Balance
+		for _, s := range L.Accounts[i].Splits {
+			balance.Add(s.Value)
+			s.Balance = balance.Dup()
+		}
 	}
 }
 
-- 
2.43.0


From cfa1583440ebf26a485ca0fff10270dafa5cdcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 45/56] fix: a currency given twice does not count twice in the
 balances

---
 cmd/ledger/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 327ca59..0a98200 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -107,6 +107,7 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 				for _, c := range flags.currency {
 					if v.Currency.Name == c {
 						bal.Add(v)
+						break
 					}
 				}
 			}
-- 
2.43.0


From 77f2ac518e7cc904f1aef978bea1afbb45409f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:35 +0000
Subject: [PATCH 46/56] fix: what follows an entry that could not be understood
 went to the previous one

The movements and comments of a transaction whose date was wrong were added
to the transaction before it, and those of a wrong price or movement too.
---
 backend/ledger/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index c980747..b56b9ef 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -84,6 +84,7 @@ const (
 	linePrice
 	lineTransaction
 	lineSplit
+	lineWrongSplit
 	lineInclude
 )
 
@@ -271,6 +272,7 @@ func (l *ledgerConnection) readJournal() error {
 			continue
 		}
 		if !indented && word == "P" {
+			lastLine = lineNone
 			var price accounting.Price
 			var err error
 			// set price
@@ -366,8 +368,9 @@ func (l *ledgerConnection) readJournal() error {
 				continue
 			}
 		}
-		if indented && (lastLine == lineTransaction || lastLine == lineSplit) {
+		if indented && (lastLine == lineTransaction || lastLine == lineSplit || lastLine == lineWrongSplit) {
 			// this is a split
+			lastLine = lineWrongSplit // until it is known to be right
 			t := l.ledger.Transactions[len(l.ledger.Transactions)-1]
 			s := new(accounting.Split)
 			s.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
@@ -473,6 +476,10 @@ func (l *ledgerConnection) readJournal() error {
 			lastLine = lineSplit
 			continue
 		}
+		if !indented {
+			// what follows belongs to this entry, not to the previous one
+			lastLine = lineNone
+		}
 		log.Printf("%s:%d: UNIMPLEMENTED: \"%s\" (%s)\n", line.Filename, line.LineNum, text, comment)
 	}
 	return nil
-- 
2.43.0


From 9789388a1109e8c2787cf259351cd6522090569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 47/56] fix: amounts of text databases that do not fit were
 taken as others

---
 backend/txtdb/txtdb.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 1cc71e9..93b2b0b 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -196,14 +196,14 @@ func (c *conn) read() error {
 				sign = -1
 				offset = 1
 			}
-			f, err := strconv.ParseFloat(fields[6][offset:], 64)
+			amount, err := getAmount(fields[6][offset:])
 			if err != nil {
 				log.Printf("transactions line %d: invalid balance (%s)", i, fields[6])
 				continue
 			}
 			var v accounting.Value
 			v.Currency = &c.currency
-			v.Amount = sign * int64(math.Round(100*f)) * 1000_000
+			v.Amount = sign * amount
 			c.ledger.Assertions[sp] = v
 		}
 		if len(fields[5]) > 0 {
@@ -216,13 +216,13 @@ func (c *conn) read() error {
 				log.Printf("transaction line %d: invalid value (%s)", i, fields[5])
 				continue
 			}
-			f, err := strconv.ParseFloat(fields[5][1:], 64)
+			amount, err := getAmount(fields[5][1:])
 			if err != nil {
 				log.Printf("transaction line %d: invalid value (%s)", i, fields[5])
 				continue
 			}
 			sp.Value.Currency = &c.currency
-			sp.Value.Amount = sign * int64(math.Round(100*f)) * 1000_000
+			sp.Value.Amount = sign * amount
 			balance += sp.Value.Amount
 		}
 		tr.Splits = append(tr.Splits, sp)
@@ -242,6 +242,19 @@ func (c *conn) read() error {
 	return nil
 }
 
+// getAmount reads an amount without its sign.
+func getAmount(s string) (int64, error) {
+	f, err := strconv.ParseFloat(s, 64)
+	if err != nil {
+		return 0, err
+	}
+	f = math.Round(100 * f)
+	if !(math.Abs(f) <= math.MaxInt64/1000_000) {
+		return 0, fmt.Errorf("amount %s is too big", s)
+	}
+	return int64(f) * 1000_000, nil
+}
+
 // readFiles reads both files of the database, as they were at the same time.
 // If there is no file of transactions, it is like an empty one.
 func (c *conn) readFiles() (accounts []byte, transactions []byte, err error) {
-- 
2.43.0


From 6c5f12c6b4699fe75e97d8713f0cbdde3845c4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 48/56] fix: muscular gave a momentum to commodities without
 price

---
 cmd/muscular/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/muscular/main.go b/cmd/muscular/main.go
index ec300e4..1142fb9 100644
--- a/cmd/muscular/main.go
+++ b/cmd/muscular/main.go
@@ -216,11 +216,17 @@ func main2(L *accounting.Ledger, args []string) {
 		var v accounting.Value
 		v.Amount = accounting.U
 		v.Currency, _ = L.GetCurrency(f.Args()[i])
-		momentum[i][0], _ = L.Convert(v, flags.endDate, L.DefaultCurrency)
+		momentum[i][0], err = L.Convert(v, flags.endDate, L.DefaultCurrency)
+		if err != nil {
+			log.Fatalf("muscular: %v\n", err)
+		}
 		t := flags.endDate
 		for j := 0; j < flags.numMeasures; j++ {
 			t = t.AddDate(0, -flags.measureMonths, -flags.measureDays)
-			momentum[i][j+1], _ = L.Convert(v, t, L.DefaultCurrency)
+			momentum[i][j+1], err = L.Convert(v, t, L.DefaultCurrency)
+			if err != nil {
+				log.Fatalf("muscular: %v\n", err)
+			}
 			mom2[i] += float64(momentum[i][0].Amount) / float64(momentum[i][j+1].Amount)
 		}
 		mom2[i] /= float64(flags.numMeasures)
-- 
2.43.0


From 4bf92ac6be7771ac4350afaa826089a953e5f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 49/56] fix: lines of text databases that could not be
 understood were left out silently

---
 backend/txtdb/txtdb.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 93b2b0b..f370848 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -84,18 +84,19 @@ func (c *conn) read() error {
 	}
 	parents := make(map[*accounting.Account]int)
 	sc := bufio.NewScanner(bytes.NewReader(accounts))
-	for sc.Scan() {
+	for i := 1; sc.Scan(); i++ {
 		var ac accounting.Account
 		line := sc.Text()
 		// TODO: handle comments
 		fields := strings.Split(line, ":")
 		if len(fields) != 6 { // badly-formatted line: skip
-			// TODO: show error
+			logBadLine("accounts", i, line)
 			continue
 		}
 		var id int
 		id, err = strconv.Atoi(fields[0])
-		if err != nil { // TODO: handle errors
+		if err != nil {
+			log.Printf("accounts line %d: invalid id (%s)", i, fields[0])
 			continue
 		}
 		ac.ID = ID(id)
@@ -104,6 +105,8 @@ func (c *conn) read() error {
 		parent, err := strconv.Atoi(fields[5])
 		if err == nil {
 			parents[&ac] = parent
+		} else if fields[5] != "" {
+			log.Printf("accounts line %d: invalid parent (%s)", i, fields[5])
 		}
 		c.accountMap[id] = &ac
 		c.ledger.Accounts = append(c.ledger.Accounts, &ac)
@@ -114,6 +117,9 @@ func (c *conn) read() error {
 	for _, ac := range c.ledger.Accounts { // parents can be after their children
 		if parent, ok := parents[ac]; ok {
 			ac.Parent = c.accountMap[parent]
+			if ac.Parent == nil && parent != 0 {
+				log.Printf("account %s (%s): parent %d does not exist", ac.ID, ac.Name, parent)
+			}
 		}
 	}
 	for _, ac := range c.ledger.Accounts {
@@ -139,6 +145,7 @@ func (c *conn) read() error {
 		line := sc.Text()
 		fields := strings.Split(line, ":")
 		if len(fields) != 7 { // badly-formatted line: skip
+			logBadLine("transactions", i, line)
 			continue
 		}
 		thisTime, err = time.Parse("2006-01-02 15.04", strings.TrimSpace(fields[1]))
@@ -242,6 +249,13 @@ func (c *conn) read() error {
 	return nil
 }
 
+// logBadLine tells that a line has been left out, unless it is empty or a comment.
+func logBadLine(file string, i int, line string) {
+	if strings.TrimSpace(line) != "" && line[0] != '#' {
+		log.Printf("%s line %d: wrong number of fields", file, i)
+	}
+}
+
 // getAmount reads an amount without its sign.
 func getAmount(s string) (int64, error) {
 	f, err := strconv.ParseFloat(s, 64)
-- 
2.43.0


From 999e26fc85eed61d6fba200ca60cd1eed75e76f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 50/56] fix: a file that includes itself by another name was
 read again

---
 backend/ledger/parser.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index b56b9ef..fbede08 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -51,6 +51,7 @@ account_line = "account" account_name
 
 type scannerFile struct {
 	f        *os.File
+	info     os.FileInfo
 	s        *bufio.Scanner
 	filename string
 	lineNum  int
@@ -97,17 +98,23 @@ func (s *Scanner) NewFile(filename string) error {
 	if len(filename) > 0 && filename[0] != '/' && len(s.files) > 0 {
 		filename = path.Join(path.Dir(s.files[len(s.files)-1].filename), filename)
 	}
-	for _, file := range s.files {
-		if path.Clean(file.filename) == path.Clean(filename) {
-			return fmt.Errorf("%s: file includes itself", filename)
-		}
-	}
 	f, err := os.Open(filename)
 	if err != nil {
 		return err
 	}
+	info, err := f.Stat()
+	if err != nil {
+		f.Close()
+		return err
+	}
+	for _, file := range s.files {
+		if os.SameFile(file.info, info) {
+			f.Close()
+			return fmt.Errorf("%s: file includes itself", filename)
+		}
+	}
 	s2 := bufio.NewScanner(f)
-	s.files = append(s.files, scannerFile{f: f, s: s2, filename: filename})
+	s.files = append(s.files, scannerFile{f: f, info: info, s: s2, filename: filename})
 	return nil
 }
 
-- 
2.43.0


From 2fd273ca9aaa58cdc8a84096ca110bf6875ab591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 51/56] fix: amounts and balances that do not fit were taken as
 others

---
 accounting.go | 62 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 7 deletions(-)

diff --git a/accounting.go b/accounting.go
index 68ea37b..3a79ca9 100644
--- a/accounting.go
+++ b/accounting.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"math"
 	"math/big"
 	"net/url"
 	"sort"
@@ -560,6 +561,33 @@ func (b *Balance) Add(v Value) {
 	*b = append(*b, v)
 }
 
+// addCarry adds a value to a balance, and returns how many times that
+// amount went around (-1, 0 or 1) because it did not fit.
+func (b *Balance) addCarry(v Value) (carry int) {
+	for _, old := range *b {
+		if old.Currency == v.Currency {
+			sum := old.Amount + v.Amount
+			if v.Amount > 0 && sum < old.Amount {
+				carry = 1
+			} else if v.Amount < 0 && sum > old.Amount {
+				carry = -1
+			}
+		}
+	}
+	b.Add(v)
+	return carry
+}
+
+// fits returns whether the opposite of a balance can be represented.
+func (b Balance) fits() bool {
+	for _, v := range b {
+		if v.Amount == math.MinInt64 {
+			return false
+		}
+	}
+	return true
+}
+
 // Sub substracts a value to a balance.
 func (b *Balance) Sub(v Value) {
 	v.Amount = -v.Amount
@@ -812,6 +840,7 @@ func (l *Ledger) Fill() (err error) {
 			// Check for the correctness of a transaction, and fill all the calculated fields
 			var unbalancedSplit *Split
 			var balance Balance
+			carry := make(map[*Currency]int) // what does not fit in balance
 			for i, s := range transaction.Splits {
 				if s.Value.Currency == nil && l.Assertions[s] != (Value{}) {
 					// we still do not know that amount: try again later
@@ -828,12 +857,22 @@ func (l *Ledger) Fill() (err error) {
 					unbalancedSplit = transaction.Splits[i]
 					continue
 				}
-				if v, ok := l.SplitPrices[s]; ok == true {
-					balance.Add(v)
-				} else {
-					balance.Add(s.Value)
+				v, ok := l.SplitPrices[s]
+				if !ok {
+					v = s.Value
+				}
+				if n := balance.addCarry(v); n != 0 {
+					carry[v.Currency] += n
+				}
+			}
+			for _, n := range carry {
+				if n != 0 {
+					return fmt.Errorf("%s: could not balance transaction: total amount is too big", transaction.ID)
 				}
 			}
+			if !balance.fits() {
+				return fmt.Errorf("%s: could not balance transaction: total amount is too big", transaction.ID)
+			}
 			if len(balance) == 0 {
 				// everything is balanced
 				if unbalancedSplit != nil {
@@ -879,7 +918,9 @@ func (l *Ledger) Fill() (err error) {
 					break
 				}
 				deadlock = false
-				b.Add(s.Value)
+				if b.addCarry(s.Value) != 0 || !b.fits() {
+					return fmt.Errorf("%s: balance of account %q is too big", s.ID, s.Account.FullName())
+				}
 				s.Balance = b.Dup()
 				if a := l.Assertions[s]; a != (Value{}) {
 					// amount of that currency in the account (zero if it is not there)
@@ -892,7 +933,12 @@ func (l *Ledger) Fill() (err error) {
 					}
 					if s.Value == (Value{}) {
 						s.Value = a
-						s.Value.Amount = a.Amount - current.Amount
+						diff := Balance{a}
+						current.Amount = -current.Amount
+						if diff.addCarry(current) != 0 || !diff.fits() {
+							return fmt.Errorf("%s: amount needed in account %q is too big", s.ID, s.Account.FullName())
+						}
+						s.Value.Amount = a.Amount + current.Amount
 						deduced = append(deduced, s)
 						b.Add(s.Value)
 						s.Balance.Add(s.Value)
@@ -999,7 +1045,9 @@ func (l *Ledger) Fill() (err error) {
 
 	var b Balance
 	for _, s := range l.transferAccount.Splits {
-		b.Add(s.Value)
+		if b.addCarry(s.Value) != 0 || !b.fits() {
+			return fmt.Errorf("%s: balance of account %q is too big", s.Transaction.ID, l.transferAccount.Name)
+		}
 		s.Balance = b.Dup()
 	}
 	return nil
-- 
2.43.0


From 21cc09ba981aeede51cd215e9283ee9caf08ac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 52/56] fix: conversions that do not fit, or between prices
 centuries apart, gave other amounts

---
 accounting.go | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/accounting.go b/accounting.go
index 3a79ca9..6e5a83c 100644
--- a/accounting.go
+++ b/accounting.go
@@ -652,10 +652,8 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, seen []*Cu
 		}
 		//fmt.Printf("Price: %s %s = %s\n", p.Time, p.Currency.Name, p.Value)
 		if p.Time == when {
-			tmp := p.Value
-			tmp.Mul(v)
 			//fmt.Printf("Convert(%s,%s,%s) = %s (2)\n", v, when.Format("2006-01-02"), currency.Name, p.Value)
-			return tmp, nil
+			return mulPrice(p.Value, v)
 		}
 		if p.Time.Before(when) {
 			prevTime = p.Time
@@ -683,7 +681,7 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, seen []*Cu
 				prevValue = p.Value
 				continue
 			}
-			if prevTime == (time.Time{}) || p.Time.Sub(when) < when.Sub(prevTime) {
+			if prevTime == (time.Time{}) || elapsed(when, p.Time).Cmp(elapsed(prevTime, when)) < 0 {
 				prevTime = p.Time
 				prevValue = p.Value
 			}
@@ -700,22 +698,39 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, seen []*Cu
 		return l.convert(nv, when, currency, seen)
 	}
 	if nextTime == (time.Time{}) {
-		prevValue.Mul(v)
-		return prevValue, nil
+		return mulPrice(prevValue, v)
 	}
 	if prevTime == (time.Time{}) {
-		nextValue.Mul(v)
-		return nextValue, nil
-	}
-	d1 := when.Sub(prevTime)
-	d2 := nextTime.Sub(prevTime)
-	i := big.NewInt(nextValue.Amount - prevValue.Amount)
-	i.Mul(i, big.NewInt(int64(d1)))
-	i.Quo(i, big.NewInt(int64(d2)))
+		return mulPrice(nextValue, v)
+	}
+	d1 := elapsed(prevTime, when)
+	d2 := elapsed(prevTime, nextTime)
+	i := big.NewInt(nextValue.Amount)
+	i.Sub(i, big.NewInt(prevValue.Amount))
+	i.Mul(i, d1)
+	i.Quo(i, d2)
 	i.Add(i, big.NewInt(prevValue.Amount))
 	prevValue.Amount = i.Int64()
-	prevValue.Mul(v)
-	return prevValue, nil
+	return mulPrice(prevValue, v)
+}
+
+// mulPrice multiplies a price times the amount of a value, if the result fits.
+func mulPrice(price, v Value) (Value, error) {
+	i := big.NewInt(price.Amount)
+	i.Mul(i, big.NewInt(v.Amount))
+	i.Div(i, big.NewInt(U))
+	if !i.IsInt64() || i.Int64() == math.MinInt64 {
+		return v, fmt.Errorf("could not convert %q to %q: it is too big", v, price.Currency.Name)
+	}
+	price.Amount = i.Int64()
+	return price, nil
+}
+
+// elapsed returns the nanoseconds between two instants, however far they are.
+func elapsed(from, to time.Time) *big.Int {
+	d := big.NewInt(to.Unix() - from.Unix())
+	d.Mul(d, big.NewInt(int64(time.Second)))
+	return d.Add(d, big.NewInt(int64(to.Nanosecond()-from.Nanosecond())))
 }
 
 // addAutomaticPrice adds a price found out by Fill,
-- 
2.43.0


From 2f26314114cb24b25e32cbe9a8b14b5997005ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 53/56] fix: a diagnostic about the journal was written among
 the reports

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index fbede08..2c1af32 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -259,7 +259,7 @@ func (l *ledgerConnection) readJournal() error {
 					var split *accounting.Split = transaction.Splits[len(transaction.Splits)-1]
 					l.addComment(split, comment)
 				default:
-					fmt.Printf("%s:%d: Wrong indented comment: \"%s\"\n", line.Filename, line.LineNum, comment)
+					log.Printf("%s:%d: Wrong indented comment: \"%s\"\n", line.Filename, line.LineNum, comment)
 				}
 			}
 			continue
-- 
2.43.0


From fbd5f8d6141fcd99e78741d340311537eb7aad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 54/56] fix: an amount too big to be deduced from an assertion
 was left half done

Fill returned an error, but the movement kept the amount of the assertion, so later calls
did not deduce it again.
---
 accounting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 6e5a83c..fa1bb94 100644
--- a/accounting.go
+++ b/accounting.go
@@ -947,12 +947,12 @@ func (l *Ledger) Fill() (err error) {
 						}
 					}
 					if s.Value == (Value{}) {
-						s.Value = a
 						diff := Balance{a}
 						current.Amount = -current.Amount
 						if diff.addCarry(current) != 0 || !diff.fits() {
 							return fmt.Errorf("%s: amount needed in account %q is too big", s.ID, s.Account.FullName())
 						}
+						s.Value = a
 						s.Value.Amount = a.Amount + current.Amount
 						deduced = append(deduced, s)
 						b.Add(s.Value)
-- 
2.43.0


From 5327e61f11a34cd58500980aad65dbb171932b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 55/56] fix: an amount that could not be read changed the
 format of its currency

---
 backend/ledger/parser.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 2c1af32..45ca505 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -511,8 +511,7 @@ func (l *ledgerConnection) getAccount(filename string, lineNum int, str string)
 	return &account, true
 }
 
-func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
-	var value accounting.Value
+func (l *ledgerConnection) getValue(s string) (value accounting.Value, err error, newCurrency bool) {
 	value.Currency = new(accounting.Currency)
 	var sAmount string
 
@@ -553,7 +552,7 @@ done:
 	if strings.ContainsAny(value.Currency.Name, "=@") {
 		return value, errors.New("syntax error: invalid character in currency"), false
 	}
-	newCurrency := true
+	newCurrency = true
 	if value.Currency.Name == "" {
 		if l.ledger.DefaultCurrency == nil {
 			l.ledger.DefaultCurrency = value.Currency
@@ -572,6 +571,13 @@ done:
 		l.ledger.Currencies = append(l.ledger.Currencies, value.Currency)
 	}
 done2:
+	format := *value.Currency
+	defer func() {
+		if err != nil {
+			// what could not be read says nothing about its currency
+			*value.Currency = format
+		}
+	}()
 	// a currency that was only mentioned in a price has no format yet
 	newFormat := value.Currency.Decimal == "" && value.Currency.Thousand == ""
 	var sign int64 = 1
-- 
2.43.0


From a038c07ff9ad70a4a3e586443168bdbbc165648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:08 +0000
Subject: [PATCH 56/56] fix: sums that do not fit were shown as other amounts

---
 cmd/ledger/main.go | 161 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 127 insertions(+), 34 deletions(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 0a98200..e3c48ff 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -1,9 +1,11 @@
 package main
 
 import (
+	"errors"
 	"flag"
 	"fmt"
 	"log"
+	"math"
 	"os"
 	"strings"
 	"time"
@@ -78,9 +80,61 @@ func insertAccount(where *[]account, name string, level int, a *accounting.Accou
 	}
 }
 
+// sum is a balance that knows whether it fits.
+type sum struct {
+	accounting.Balance
+	carry map[*accounting.Currency]int // how many times each amount went around
+}
+
+func (s *sum) Add(v accounting.Value) {
+	for _, old := range s.Balance {
+		if old.Currency != v.Currency {
+			continue
+		}
+		if s.carry == nil {
+			s.carry = make(map[*accounting.Currency]int)
+		}
+		amount := old.Amount + v.Amount
+		if v.Amount > 0 && amount < old.Amount {
+			s.carry[v.Currency]++
+		} else if v.Amount < 0 && amount > old.Amount {
+			s.carry[v.Currency]--
+		}
+	}
+	s.Balance.Add(v)
+}
+
+func (s *sum) AddBalance(b accounting.Balance) {
+	for _, v := range b {
+		s.Add(v)
+	}
+}
+
+func (s *sum) SubBalance(b accounting.Balance) {
+	for _, v := range b {
+		v.Amount = -v.Amount
+		s.Add(v)
+	}
+}
+
+// err returns an error if the sum is too big to be represented.
+func (s *sum) err() error {
+	for _, n := range s.carry {
+		if n != 0 {
+			return errors.New("the sum of the amounts is too big")
+		}
+	}
+	for _, v := range s.Balance {
+		if v.Amount == math.MinInt64 {
+			return errors.New("the sum of the amounts is too big")
+		}
+	}
+	return nil
+}
+
 func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 	var maxLength int
-	var total accounting.Balance
+	var total sum
 	var accounts []account
 	if len(args) == 0 {
 		for _, a := range L.Accounts {
@@ -114,7 +168,7 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 			accounts[i].Balance = bal
 		}
 		if flags.market {
-			var bal accounting.Balance
+			var bal sum
 			for _, v := range accounts[i].Balance {
 				nv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)
 				if err != nil {
@@ -122,7 +176,10 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 				}
 				bal.Add(nv)
 			}
-			accounts[i].Balance = bal
+			if err := bal.err(); err != nil {
+				return err
+			}
+			accounts[i].Balance = bal.Balance
 		}
 		for _, v := range accounts[i].Balance {
 			length := len(v.String())
@@ -132,7 +189,10 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 			total.Add(v)
 		}
 	}
-	for _, v := range total {
+	if err := total.err(); err != nil {
+		return err
+	}
+	for _, v := range total.Balance {
 		length := len(v.String())
 		if length > maxLength {
 			maxLength = length
@@ -155,10 +215,10 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 		}
 		fmt.Println(strings.Repeat("-", maxLength))
 	}
-	if len(total) == 0 {
+	if len(total.Balance) == 0 {
 		fmt.Println("0")
 	}
-	for _, v := range total {
+	for _, v := range total.Balance {
 		fmt.Printf("%*.*s\n", maxLength, maxLength, v.String())
 	}
 	return nil
@@ -203,7 +263,7 @@ func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error
 		name    string
 		balance string
 	}
-	var income, expense, net accounting.Balance
+	var income, expense, net sum
 	var nameLen = 8
 	var balanceLen = 1
 
@@ -243,30 +303,43 @@ func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error
 
 	for _, a := range incomeAccounts {
 		if len(a.Splits) > 0 {
-			b := a.Splits[0].Balance.Dup()
+			var b sum
+			b.AddBalance(a.Splits[0].Balance)
 			b.SubBalance(a.Splits[len(a.Splits)-1].Balance)
-			b.Sub(a.Splits[0].Value)
+			b.SubBalance(accounting.Balance{a.Splits[0].Value})
+			if err := b.err(); err != nil {
+				return err
+			}
 			incomes = append(incomes, struct {
 				name    string
 				balance string
 			}{a.FullName(), b.String()})
-			income.AddBalance(b)
+			income.AddBalance(b.Balance)
 		}
 	}
 	for _, a := range expenseAccounts {
 		if len(a.Splits) > 0 {
-			b := a.Splits[len(a.Splits)-1].Balance.Dup()
+			var b sum
+			b.AddBalance(a.Splits[len(a.Splits)-1].Balance)
 			b.SubBalance(a.Splits[0].Balance)
 			b.Add(a.Splits[0].Value)
+			if err := b.err(); err != nil {
+				return err
+			}
 			expenses = append(expenses, struct {
 				name    string
 				balance string
 			}{a.FullName(), b.String()})
-			expense.AddBalance(b)
+			expense.AddBalance(b.Balance)
+		}
+	}
+	net.AddBalance(income.Balance)
+	net.SubBalance(expense.Balance)
+	for _, s := range []*sum{&income, &expense, &net} {
+		if err := s.err(); err != nil {
+			return err
 		}
 	}
-	net = income.Dup()
-	net.SubBalance(expense)
 	for _, i := range incomes {
 		if len(i.name) > nameLen {
 			nameLen = len(i.name)
@@ -284,7 +357,7 @@ func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error
 		}
 	}
 	if flags.total {
-		fmt.Println(net)
+		fmt.Println(net.Balance)
 		return nil
 	}
 	fmt.Println("Income Statement")
@@ -296,7 +369,7 @@ func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error
 		fmt.Printf(" %-*s || %*s\n", nameLen, i.name, balanceLen, i.balance)
 	}
 	fmt.Print(strings.Repeat("-", nameLen+2), "++", strings.Repeat("-", balanceLen+2), "\n")
-	fmt.Printf(" %s || %*s\n", strings.Repeat(" ", nameLen), balanceLen, income)
+	fmt.Printf(" %s || %*s\n", strings.Repeat(" ", nameLen), balanceLen, income.Balance)
 	fmt.Print(strings.Repeat("=", nameLen+2), "++", strings.Repeat("=", balanceLen+2), "\n")
 	fmt.Printf(" %-*s ||\n", nameLen, "Expenses")
 	fmt.Print(strings.Repeat("-", nameLen+2), "++", strings.Repeat("-", balanceLen+2), "\n")
@@ -304,9 +377,9 @@ func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error
 		fmt.Printf(" %-*s || %*s\n", nameLen, e.name, balanceLen, e.balance)
 	}
 	fmt.Print(strings.Repeat("-", nameLen+2), "++", strings.Repeat("-", balanceLen+2), "\n")
-	fmt.Printf(" %s || %*s\n", strings.Repeat(" ", nameLen), balanceLen, expense)
+	fmt.Printf(" %s || %*s\n", strings.Repeat(" ", nameLen), balanceLen, expense.Balance)
 	fmt.Print(strings.Repeat("=", nameLen+2), "++", strings.Repeat("=", balanceLen+2), "\n")
-	fmt.Printf(" %-*s || %*s\n", nameLen, "Net:", balanceLen, net)
+	fmt.Printf(" %-*s || %*s\n", nameLen, "Net:", balanceLen, net.Balance)
 	return nil
 }
 
@@ -323,42 +396,56 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 			}
 		}
 	}
-	var balanceBegin accounting.Balance
-	var balanceDelta accounting.Balance
+	var balanceBegin sum
+	var balanceDelta sum
+	var balanceEnd sum
 	for _, a := range accounts {
 		balanceBegin.AddBalance(a.StartBalance)
+		balanceEnd.AddBalance(a.StartBalance)
 		for _, s := range a.Splits {
 			balanceDelta.Add(s.Value)
+			balanceEnd.Add(s.Value)
 		}
 	}
 	if flags.market {
-		var bal1, bal2 accounting.Balance
-		for _, v := range balanceBegin {
+		var bal1, bal2 sum
+		if err := balanceBegin.err(); err != nil {
+			return err
+		}
+		for _, v := range balanceBegin.Balance {
 			nv, err := L.Convert(v, flags.beginDate, L.DefaultCurrency)
 			if err != nil {
 				return err
 			}
 			bal1.Add(nv)
 		}
-		var balanceEnd accounting.Balance
-		balanceEnd.AddBalance(balanceBegin)
-		balanceEnd.AddBalance(balanceDelta)
-		for _, v := range balanceEnd {
+		if err := balanceEnd.err(); err != nil {
+			return err
+		}
+		for _, v := range balanceEnd.Balance {
 			nv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)
 			if err != nil {
 				return err
 			}
 			bal2.Add(nv)
 		}
+		for _, s := range []*sum{&bal1, &bal2} {
+			if err := s.err(); err != nil {
+				return err
+			}
+		}
 		balanceDelta = bal2
-		balanceDelta.SubBalance(bal1)
+		balanceDelta.SubBalance(bal1.Balance)
+	}
+	if err := balanceDelta.err(); err != nil {
+		return err
 	}
 	if flags.negate {
-		var b2 accounting.Balance
-		b2.SubBalance(balanceDelta)
+		var b2 sum
+		b2.SubBalance(balanceDelta.Balance)
 		balanceDelta = b2
 	}
-	fmt.Println(balanceDelta)
+	fmt.Println(balanceDelta.Balance)
 	return nil
 }
 
@@ -405,9 +492,9 @@ func transactionInPivot(t *accounting.Transaction, pivot sliceString) bool {
 	return false
 }
 
-func doPivot(L *accounting.Ledger, pivot sliceString) {
+func doPivot(L *accounting.Ledger, pivot sliceString) error {
 	if len(pivot) == 0 {
-		return
+		return nil
 	}
 	for i := 0; i < len(L.Transactions); i++ {
 		if !transactionInPivot(L.Transactions[i], pivot) {
@@ -423,12 +510,16 @@ func doPivot(L *accounting.Ledger, pivot sliceString) {
 			}
 		}
 		// the balances must not count the transactions left out
-		var balance accounting.Balance
+		var balance sum
 		for _, s := range L.Accounts[i].Splits {
 			balance.Add(s.Value)
+			if err := balance.err(); err != nil {
+				return err
+			}
 			s.Balance = balance.Dup()
 		}
 	}
+	return nil
 }
 
 func main() {
@@ -517,7 +608,9 @@ func main2(L *accounting.Ledger, args []string) {
 		}
 	}
 	if flags.pivot != nil {
-		doPivot(L, flags.pivot)
+		if err = doPivot(L, flags.pivot); err != nil {
+			log.Fatalf("ledger: %v\n", err)
+		}
 	}
 	if txtBeginDate != "" {
 		for i := len(L.Transactions) - 1; i >= 0; i-- {
-- 
2.43.0

