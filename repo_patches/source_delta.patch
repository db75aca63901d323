From e58c279fdbe528dae8daa8322d85a3601fcc1180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:41 +0000
Subject: [PATCH 01/64] fix: accept a thousand sign after one or two digits in
 a known currency

Once the thousand sign of a currency was known, an amount was only accepted
if its first group had three digits, so "1,000.00 EUR" was a syntax error
the second time it was used.
---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 1973619..220aa63 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -544,7 +544,7 @@ done2:
 		}
 		if value.Currency.Thousand == string(c) || (value.Currency.Thousand == "" && value.Currency.Decimal != "" && value.Currency.Decimal != string(c)) {
 			value.Currency.Thousand = string(c)
-			if (thousandPos == -1 && i > 3) || i-thousandPos != 4 || decimalPos > -1 {
+			if (thousandPos == -1 && i > 3) || (thousandPos > -1 && i-thousandPos != 4) || decimalPos > -1 {
 				return value, fmt.Errorf("syntax error: wrong position for thousand sign '%s'", value.Currency.Thousand), newCurrency
 			}
 			thousandPos = i
-- 
2.43.0


From 45aa2293dd687841eac128c3d376da0ef505058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:05 +0000
Subject: [PATCH 02/64] fix: reject amounts whose last thousand group is not of
 three digits

"123,45 EUR" was silently read as 12345 EUR when ',' is the thousand sign.
---
 backend/ledger/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 220aa63..fd1a87f 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -588,6 +588,9 @@ done2:
 	if punct != "" {
 		return value, fmt.Errorf("syntax error: punctuation '%s' can be a thousand or a decimal", punct), newCurrency
 	}
+	if thousandPos > -1 && decimalPos == -1 && len(sAmount)-thousandPos != 4 {
+		return value, fmt.Errorf("syntax error: wrong position for thousand sign '%s'", value.Currency.Thousand), newCurrency
+	}
 	shift := 0
 	if decimalPos == -1 {
 		shift = 8
-- 
2.43.0


From d294ee889413209d9a13db2321f00d34b38dbfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 03/64] fix: reject amounts too large to be represented

They silently overflowed into a different amount.
---
 backend/ledger/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index fd1a87f..031e4c3 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"math/big"
 	"os"
 	"path"
@@ -526,6 +527,9 @@ done2:
 	}
 	for i, c := range sAmount {
 		if c >= '0' && c <= '9' {
+			if value.Amount > (math.MaxInt64-int64(c-'0'))/10 {
+				return value, errors.New("syntax error: amount too large"), newCurrency
+			}
 			value.Amount *= 10
 			value.Amount += int64(c - '0')
 			continue
@@ -605,6 +609,9 @@ done2:
 		return value, fmt.Errorf("syntax error: too many decimal numbers"), newCurrency
 	}
 	for i := 0; i < shift; i++ {
+		if value.Amount > math.MaxInt64/10 {
+			return value, errors.New("syntax error: amount too large"), newCurrency
+		}
 		value.Amount *= 10
 	}
 	value.Amount *= sign
-- 
2.43.0


From 55f23e1706434835203c377d42f76f1e8efd171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:08 +0000
Subject: [PATCH 04/64] fix: accept ' as a thousand or decimal sign when the
 currency goes first

"$1'234" was read as 234 of a currency named "$1'".
---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 031e4c3..a47b596 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -474,7 +474,7 @@ func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
 		// first currency, then amount
 		value.Currency.PrintBefore = true
 		for i := len(s) - 1; i >= 0; i-- {
-			if !strings.ContainsRune("-+0123456789.,_", rune(s[i])) {
+			if !strings.ContainsRune("-+0123456789.,_'", rune(s[i])) {
 				if !unicode.IsSpace(rune(s[i])) {
 					value.Currency.WithoutSpace = true
 				}
-- 
2.43.0


From 832bc2b0319a0211d7462eca10cf401ca1065c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:35 +0000
Subject: [PATCH 05/64] fix: report errors opening or reading a journal

A missing file was opened as an empty ledger, and a read error (such as a
line too long for the scanner) silently dropped the rest of the journal.
---
 backend/ledger/ledger.go | 4 +++-
 backend/ledger/parser.go | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 9c27f33..c6369d7 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -30,7 +30,9 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.file = url.Path
 	conn.backend = backend
 	conn.ledger = backend.Ledger
-	conn.readJournal()
+	if err = conn.readJournal(); err != nil {
+		return nil, err
+	}
 	return conn, nil
 }
 
diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index a47b596..5114b3b 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -189,14 +189,16 @@ func (l *ledgerConnection) readJournal() error {
 	l.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
 	l.ledger.DefaultCurrency = nil
 	s := NewScanner()
-	s.NewFile(l.file)
+	if err := s.NewFile(l.file); err != nil {
+		return err
+	}
 
 	lastLine := lineNone
 	for {
 		line := s.Line()
 		if line.Err != nil {
 			if line.Err != io.EOF {
-				return line.Err
+				return fmt.Errorf("%s:%d: %w", line.Filename, line.LineNum+1, line.Err)
 			}
 			break
 		}
-- 
2.43.0


From 60a05f6164338faa7e2a5a2096cdaa1230df4877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:36 +0000
Subject: [PATCH 06/64] fix: return an error for disordered journals instead of
 ending the process

accounting.Open called log.Fatalf, killing the calling program, when a
transaction or price goes back in time or an account is defined twice.
---
 backend/ledger/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 5114b3b..4dfab13 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -267,7 +267,7 @@ func (l *ledgerConnection) readJournal() error {
 				continue
 			}
 			if len(l.ledger.Prices) > 0 && l.ledger.Prices[len(l.ledger.Prices)-1].Time.After(price.Time) {
-				log.Fatalf("%s:%d: price is not chronologically sorted", line.Filename, line.LineNum)
+				return fmt.Errorf("%s:%d: price is not chronologically sorted", line.Filename, line.LineNum)
 			}
 			currency, rest := firstWord(rest)
 			price.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
@@ -314,7 +314,7 @@ func (l *ledgerConnection) readJournal() error {
 			lastLine = lineAccount
 			_, new := l.getAccount(line.Filename, line.LineNum, rest)
 			if new == false {
-				log.Fatalf("%s:%d: account already defined", line.Filename, line.LineNum)
+				return fmt.Errorf("%s:%d: account already defined", line.Filename, line.LineNum)
 			}
 			continue
 		}
@@ -322,7 +322,7 @@ func (l *ledgerConnection) readJournal() error {
 			date, err := GetDate(word)
 			if err == nil {
 				if len(l.ledger.Transactions) > 0 && l.ledger.Transactions[len(l.ledger.Transactions)-1].Time.After(date) {
-					log.Fatalf("%s:%d: transaction is not chronologically sorted", line.Filename, line.LineNum)
+					return fmt.Errorf("%s:%d: transaction is not chronologically sorted", line.Filename, line.LineNum)
 				}
 				var transaction accounting.Transaction
 				transaction.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
-- 
2.43.0


From d09e48446ba5586197616b394128e0d1c8725dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 07/64] fix: do not include a file from itself

A file including itself, directly or not, was read again and again until
there were no more file descriptors, repeating its transactions.
---
 backend/ledger/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 4dfab13..7d5b43d 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -100,6 +100,14 @@ func (s *Scanner) NewFile(filename string) error {
 	if err != nil {
 		return err
 	}
+	if info, err := f.Stat(); err == nil {
+		for _, parent := range s.files {
+			if i, err := parent.f.Stat(); err == nil && os.SameFile(i, info) {
+				f.Close()
+				return fmt.Errorf("%s: file includes itself", filename)
+			}
+		}
+	}
 	s2 := bufio.NewScanner(f)
 	s.files = append(s.files, scannerFile{f: f, s: s2, filename: filename})
 	return nil
-- 
2.43.0


From 62ad4d7029d7c04fd466c1031db0b743dc04d322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:02 +0000
Subject: [PATCH 08/64] fix: keep comments with unknown tags in commodities

Any comment in a commodity with something looking like a tag, other than
"isin:", was silently lost.
---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 7d5b43d..c010dd8 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -179,8 +179,8 @@ func (l *ledgerConnection) addComment(where interface{}, comment string) {
 	case *accounting.Currency:
 		if tag.Name == "isin" {
 			x.ISIN = tag.Value
+			return
 		}
-		return
 	}
 	// Unknown tag:
 	l.ledger.Comments[where] = append(l.ledger.Comments[where], comment)
-- 
2.43.0


From d1e58787de4bf2bee78c436e52a2f86017d24b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:03 +0000
Subject: [PATCH 09/64] fix: attach the comments of a commodity line to that
 commodity

Comments in the same line were lost, and the ones in the following lines
were attached to the last commodity ever defined, panicking if none was.
---
 backend/ledger/parser.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index c010dd8..53cf4f4 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -202,6 +202,7 @@ func (l *ledgerConnection) readJournal() error {
 	}
 
 	lastLine := lineNone
+	var commodity *accounting.Currency // last currency defined with a "commodity" line
 	for {
 		line := s.Line()
 		if line.Err != nil {
@@ -232,8 +233,11 @@ func (l *ledgerConnection) readJournal() error {
 					var account *accounting.Account = l.ledger.Accounts[len(l.ledger.Accounts)-1]
 					l.addComment(account, comment)
 				case lineCommodity:
-					var currency *accounting.Currency = l.ledger.Currencies[len(l.ledger.Currencies)-1]
-					l.addComment(currency, comment)
+					if commodity == nil {
+						log.Printf("%s:%d: Wrong indented comment: \"%s\"\n", line.Filename, line.LineNum, comment)
+						continue
+					}
+					l.addComment(commodity, comment)
 				case linePrice:
 					var price *accounting.Price = l.ledger.Prices[len(l.ledger.Prices)-1]
 					l.addComment(price, comment)
@@ -311,11 +315,16 @@ func (l *ledgerConnection) readJournal() error {
 		}
 		if !indented && word == "commodity" {
 			lastLine = lineCommodity
-			_, err, _ := l.getValue(rest)
+			value, err, _ := l.getValue(rest)
 			if err != nil {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
+				commodity = nil
 				continue
 			}
+			commodity = value.Currency
+			if commodity != nil && comment != "" {
+				l.addComment(commodity, comment)
+			}
 			continue
 		}
 		if !indented && word == "account" {
-- 
2.43.0


From d4529b4fb857fe72719b25daec53fb3d6dae6a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:04 +0000
Subject: [PATCH 10/64] fix: keep the comment in an account line

"account Assets:Bank ; code:1234" lost its code (or comment).
---
 backend/ledger/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 53cf4f4..42b237c 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -329,10 +329,13 @@ func (l *ledgerConnection) readJournal() error {
 		}
 		if !indented && word == "account" {
 			lastLine = lineAccount
-			_, new := l.getAccount(line.Filename, line.LineNum, rest)
+			account, new := l.getAccount(line.Filename, line.LineNum, rest)
 			if new == false {
 				return fmt.Errorf("%s:%d: account already defined", line.Filename, line.LineNum)
 			}
+			if comment != "" {
+				l.addComment(account, comment)
+			}
 			continue
 		}
 		if !indented {
-- 
2.43.0


From 8560e2ff5035806f0f91b39fec12ad4d14e0b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:19 +0000
Subject: [PATCH 11/64] fix: report wrong indented comments in the log, not in
 standard output

The message got mixed with the output of the commands.
---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 42b237c..c52f46f 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -249,7 +249,7 @@ func (l *ledgerConnection) readJournal() error {
 					var split *accounting.Split = transaction.Splits[len(transaction.Splits)-1]
 					l.addComment(split, comment)
 				default:
-					fmt.Printf("%s:%d: Wrong indented comment: \"%s\"\n", line.Filename, line.LineNum, comment)
+					log.Printf("%s:%d: Wrong indented comment: \"%s\"\n", line.Filename, line.LineNum, comment)
 				}
 			}
 			continue
-- 
2.43.0


From 63e6371c172dc45d10a300e1a974824aa4e97dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:20 +0000
Subject: [PATCH 12/64] fix: do not add to a transaction the postings below an
 unknown line

The postings of an unsupported entry (such as "~ monthly", or a transaction
with a wrong date) were added to the transaction before it.
---
 backend/ledger/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index c52f46f..1b9b05a 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -259,6 +259,10 @@ func (l *ledgerConnection) readJournal() error {
 			text = strings.TrimSpace(text[0:i])
 		}
 		word, rest := firstWord(text)
+		if !indented {
+			// Whatever comes next does not belong to the previous entry
+			lastLine = lineNone
+		}
 		if !indented && word == "include" {
 			lastLine = lineInclude
 			newFile := rest
-- 
2.43.0


From 87e07c86eec22b43756e6af155f17805008ecc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:40 +0000
Subject: [PATCH 13/64] fix: learn the format of a currency from its first
 amount

If a currency was first seen by its name in a price line, its decimals were
never shown and it could not be exported properly.
---
 backend/ledger/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 1b9b05a..754a752 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -517,7 +517,7 @@ done:
 	if strings.ContainsAny(value.Currency.Name, "=@") {
 		return value, errors.New("syntax error: invalid character in currency"), false
 	}
-	newCurrency := true
+	newCurrency, firstAmount := true, false
 	if value.Currency.Name == "" {
 		if l.ledger.DefaultCurrency == nil {
 			l.ledger.DefaultCurrency = value.Currency
@@ -528,6 +528,12 @@ done:
 	} else {
 		for _, c := range l.ledger.Currencies {
 			if c.Name == value.Currency.Name {
+				if c.Decimal == "" {
+					// known just by name: this is its first amount
+					c.PrintBefore = value.Currency.PrintBefore
+					c.WithoutSpace = value.Currency.WithoutSpace
+					firstAmount = true
+				}
 				value.Currency = c
 				newCurrency = false
 				goto done2
@@ -626,7 +632,7 @@ done2:
 		shift = 8
 	} else {
 		shift = len(sAmount) - decimalPos - 1
-		if newCurrency {
+		if newCurrency || firstAmount {
 			value.Currency.Precision = shift
 		}
 		shift = 8 - shift
-- 
2.43.0


From ed1d42c15624af553e29d8a0a0a4ab337f8d7ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:00 +0000
Subject: [PATCH 14/64] fix: do not set an invalid precision from a wrong
 amount

The precision of a new currency was set before checking the number of
decimals, and showing any value in that currency panicked afterwards.
---
 backend/ledger/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 754a752..725c144 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -632,14 +632,14 @@ done2:
 		shift = 8
 	} else {
 		shift = len(sAmount) - decimalPos - 1
+		if shift > 8 {
+			return value, fmt.Errorf("syntax error: too many decimal numbers"), newCurrency
+		}
 		if newCurrency || firstAmount {
 			value.Currency.Precision = shift
 		}
 		shift = 8 - shift
 	}
-	if shift < 0 || shift > 8 {
-		return value, fmt.Errorf("syntax error: too many decimal numbers"), newCurrency
-	}
 	for i := 0; i < shift; i++ {
 		if value.Amount > math.MaxInt64/10 {
 			return value, errors.New("syntax error: amount too large"), newCurrency
-- 
2.43.0


From 180d17755e47a3a2902bab97a57428220c5ebba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 15/64] fix: accept a default currency line with just a
 currency

The syntax is documented as "D" [ currency | value ], but "D EUR" was a
syntax error.
---
 backend/ledger/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 725c144..d655784 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -309,6 +309,11 @@ func (l *ledgerConnection) readJournal() error {
 		}
 		if !indented && word == "D" {
 			lastLine = lineDefaultCurrency
+			if rest != "" && !strings.ContainsAny(rest, "0123456789") {
+				// just a currency, without amount
+				l.ledger.DefaultCurrency, _ = l.ledger.GetCurrency(rest)
+				continue
+			}
 			price, err, _ := l.getValue(rest)
 			if err != nil {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
-- 
2.43.0


From 32130a28b8531a3a88e8217f0368d7d72ec5cda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 16/64] fix: reject postings whose total price is too large to
 be represented

---
 backend/ledger/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index d655784..4825cb5 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -437,6 +437,10 @@ func (l *ledgerConnection) readJournal() error {
 					k := big.NewInt(s.Value.Amount)
 					k.Mul(k, big.NewInt(value.Amount))
 					k.Quo(k, big.NewInt(accounting.U))
+					if !k.IsInt64() {
+						log.Printf("%s:%d: syntax error: price too large\n", line.Filename, line.LineNum)
+						continue
+					}
 					value.Amount = k.Int64()
 				}
 				l.ledger.SplitPrices[s] = value
-- 
2.43.0


From c564f478d91026c5769b968f673fb760c0627eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:33 +0000
Subject: [PATCH 17/64] fix: treat a currency missing from an account as zero
 in assertions

"= 0 EUR" failed if the account had any other currency, an amount could not
be deduced from an assertion in a currency new to a non-empty account, and
one deduced to be zero in an empty account ended in a deadlock.
---
 accounting.go | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/accounting.go b/accounting.go
index 002612c..4daf6ea 100644
--- a/accounting.go
+++ b/accounting.go
@@ -739,35 +739,22 @@ func (l *Ledger) Fill() error {
 				}
 				deadlock = false
 				b.Add(s.Value)
-				s.Balance = b.Dup()
 				if a := l.Assertions[s]; a != (Value{}) {
-					if a.Amount == 0 && len(b) == 0 {
-						a = Value{}
-					} else if s.Value == (Value{}) && len(b) == 0 {
-						s.Value = a
-						s.Value.Amount = a.Amount
-						b.Add(s.Value)
-						s.Balance.Add(s.Value)
-						a = Value{}
-					}
-					for _, v := range b {
-						if v.Currency == a.Currency {
-							if s.Value == (Value{}) {
-								s.Value = a
-								s.Value.Amount = a.Amount - v.Amount
-								b.Add(s.Value)
-								s.Balance.Add(s.Value)
-							} else if v.Amount != a.Amount {
-								return fmt.Errorf("%s: wrong assertion: %s != %s", s.ID, v, a)
-							}
-							a = Value{}
-							break
+					v := Value{Currency: a.Currency}
+					for i := range b {
+						if b[i].Currency == a.Currency {
+							v = b[i]
 						}
 					}
-					if a != (Value{}) {
-						return fmt.Errorf("%s: wrong assertion: %s", s.ID, a)
+					if s.Value == (Value{}) {
+						s.Value = a
+						s.Value.Amount = a.Amount - v.Amount
+						b.Add(s.Value)
+					} else if v.Amount != a.Amount {
+						return fmt.Errorf("%s: wrong assertion: %s != %s", s.ID, v, a)
 					}
 				}
+				s.Balance = b.Dup()
 			}
 		}
 	}
-- 
2.43.0


From 57c6f2c2b5256d948dc731064dc93901bc04b3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:48 +0000
Subject: [PATCH 18/64] fix: add the prices from splits always in the same
 order

They were added in random order, so prices, conversions and exports could
change from one run to the next. It also crashed if a split with a price had
been discarded because of some other error in it.
---
 accounting.go | 50 ++++++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/accounting.go b/accounting.go
index 4daf6ea..6345991 100644
--- a/accounting.go
+++ b/accounting.go
@@ -763,28 +763,34 @@ func (l *Ledger) Fill() error {
 	}
 
 	// Adding prices from splits
-	for s, v := range l.SplitPrices {
-		price := new(Price)
-		price.Time = *s.Time
-		price.Currency = s.Value.Currency
-		i := big.NewInt(U)
-		i.Mul(i, big.NewInt(v.Amount))
-		i.Quo(i, big.NewInt(s.Value.Amount))
-		price.Value.Amount = i.Int64()
-		price.Value.Currency = v.Currency
-		l.Prices = append(l.Prices, price)
-		l.Comments[price] = append(l.Comments[price], "automatic")
-
-		price = new(Price)
-		price.Time = *s.Time
-		price.Currency = v.Currency
-		i = big.NewInt(U)
-		i.Mul(i, big.NewInt(s.Value.Amount))
-		i.Quo(i, big.NewInt(v.Amount))
-		price.Value.Amount = i.Int64()
-		price.Value.Currency = s.Value.Currency
-		l.Prices = append(l.Prices, price)
-		l.Comments[price] = append(l.Comments[price], "automatic")
+	for _, t := range l.Transactions {
+		for _, s := range t.Splits {
+			v, ok := l.SplitPrices[s]
+			if !ok {
+				continue
+			}
+			price := new(Price)
+			price.Time = *s.Time
+			price.Currency = s.Value.Currency
+			i := big.NewInt(U)
+			i.Mul(i, big.NewInt(v.Amount))
+			i.Quo(i, big.NewInt(s.Value.Amount))
+			price.Value.Amount = i.Int64()
+			price.Value.Currency = v.Currency
+			l.Prices = append(l.Prices, price)
+			l.Comments[price] = append(l.Comments[price], "automatic")
+
+			price = new(Price)
+			price.Time = *s.Time
+			price.Currency = v.Currency
+			i = big.NewInt(U)
+			i.Mul(i, big.NewInt(s.Value.Amount))
+			i.Quo(i, big.NewInt(v.Amount))
+			price.Value.Amount = i.Int64()
+			price.Value.Currency = s.Value.Currency
+			l.Prices = append(l.Prices, price)
+			l.Comments[price] = append(l.Comments[price], "automatic")
+		}
 	}
 
 	// This must be executed after all the balances
-- 
2.43.0


From cba3d82428947e2794c3ffd05f748459b874e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:00 +0000
Subject: [PATCH 19/64] fix: do not divide by zero with a zero amount or price
 in a split

---
 accounting.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 6345991..20b8556 100644
--- a/accounting.go
+++ b/accounting.go
@@ -766,7 +766,7 @@ func (l *Ledger) Fill() error {
 	for _, t := range l.Transactions {
 		for _, s := range t.Splits {
 			v, ok := l.SplitPrices[s]
-			if !ok {
+			if !ok || s.Value.Amount == 0 {
 				continue
 			}
 			price := new(Price)
@@ -780,6 +780,9 @@ func (l *Ledger) Fill() error {
 			l.Prices = append(l.Prices, price)
 			l.Comments[price] = append(l.Comments[price], "automatic")
 
+			if v.Amount == 0 {
+				continue
+			}
 			price = new(Price)
 			price.Time = *s.Time
 			price.Currency = v.Currency
-- 
2.43.0


From 8cf6f46713ca9d3ce0332fec4ccafa4cfb78a82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:02 +0000
Subject: [PATCH 20/64] fix: do not include the first split in balances before
 it

GetBalance returned the balance after the first split for any time before it.
---
 accounting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/accounting.go b/accounting.go
index 20b8556..ee49327 100644
--- a/accounting.go
+++ b/accounting.go
@@ -324,6 +324,9 @@ func (l *Ledger) GetBalance(account *Account, when time.Time) Balance {
 	if (when == time.Time{}) {
 		return account.Splits[len(account.Splits)-1].Balance
 	}
+	if account.Splits[0].Time.After(when) {
+		return account.StartBalance
+	}
 	for i := 1; i < len(account.Splits); i++ {
 		if account.Splits[i].Time.After(when) {
 			return account.Splits[i-1].Balance
-- 
2.43.0


From 5934f311de6d498030235c16151ca4d4071c7e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:24 +0000
Subject: [PATCH 21/64] fix: do not crash converting to an unreachable or
 missing currency

With prices in both directions between two currencies (as the automatic ones
always are), converting any of them to a third one recursed until the stack
overflowed. Converting with no default currency crashed too.
---
 accounting.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index ee49327..0b78321 100644
--- a/accounting.go
+++ b/accounting.go
@@ -522,10 +522,18 @@ func insertAccount(where *[]*Account, account *Account) {
 
 // Convert returns a value to another currency.
 func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, error) {
+	return l.convert(v, when, currency, nil)
+}
+
+// convert does the work of Convert, not going through the currencies in tried.
+func (l *Ledger) convert(v Value, when time.Time, currency *Currency, tried []*Currency) (Value, error) {
 	if v.Currency == currency {
 		//fmt.Printf("Convert(%s,%s,%s) = %s (1)\n", v, when.Format("2006-01-02"), currency.Name, v)
 		return v, nil
 	}
+	if currency == nil {
+		return v, fmt.Errorf("could not convert %q: no currency to convert to", v)
+	}
 	var prevTime, nextTime time.Time
 	var prevValue, nextValue Value
 	prevValue = v
@@ -550,10 +558,17 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 		break
 	}
 	if prevTime == (time.Time{}) && nextTime == (time.Time{}) { // no price match
+		tried = append(tried, v.Currency)
+	nextPrice:
 		for _, p := range l.Prices {
 			if p.Currency != v.Currency {
 				continue
 			}
+			for _, c := range tried {
+				if p.Value.Currency == c {
+					continue nextPrice
+				}
+			}
 			if p.Time.Before(when) {
 				prevTime = p.Time
 				prevValue = p.Value
@@ -573,7 +588,7 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 		if err != nil {
 			return nv, err
 		}
-		return l.Convert(nv, when, currency)
+		return l.convert(nv, when, currency, tried)
 	}
 	if nextTime == (time.Time{}) {
 		prevValue.Mul(v)
-- 
2.43.0


From 2e1f7bdcf2692d501fdfc829ed433b4c7be6729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 22/64] fix: clone the currencies which are not listed in the
 ledger

Values in the currency without name, or in the one used by txtdb, lost their
currency when cloned: reports did not show their decimals.
---
 accounting.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/accounting.go b/accounting.go
index 0b78321..edbaee8 100644
--- a/accounting.go
+++ b/accounting.go
@@ -192,6 +192,15 @@ func (l *Ledger) Clone() *Ledger {
 		mapPrices[p] = new(Price)
 	}
 
+	// cloneCurrency also copies the currencies which are not in l.Currencies
+	cloneCurrency := func(c *Currency) *Currency {
+		if c != nil && mapCurrencies[c] == nil {
+			mapCurrencies[c] = new(Currency)
+			*mapCurrencies[c] = *c
+		}
+		return mapCurrencies[c]
+	}
+
 	res := new(Ledger)
 	res.connection = l.connection
 	res.Accounts = make([]*Account, len(l.Accounts))
@@ -214,7 +223,7 @@ func (l *Ledger) Clone() *Ledger {
 		na.StartBalance = make([]Value, len(a.StartBalance))
 		for k, v := range a.StartBalance {
 			na.StartBalance[k].Amount = v.Amount
-			na.StartBalance[k].Currency = mapCurrencies[v.Currency]
+			na.StartBalance[k].Currency = cloneCurrency(v.Currency)
 		}
 	}
 	res.Transactions = make([]*Transaction, len(l.Transactions))
@@ -241,11 +250,11 @@ func (l *Ledger) Clone() *Ledger {
 				*ns.Time = *s.Time
 			}
 			ns.Value.Amount = s.Value.Amount
-			ns.Value.Currency = mapCurrencies[s.Value.Currency]
+			ns.Value.Currency = cloneCurrency(s.Value.Currency)
 			ns.Balance = make([]Value, len(s.Balance))
 			for k, v := range s.Balance {
 				ns.Balance[k].Amount = v.Amount
-				ns.Balance[k].Currency = mapCurrencies[v.Currency]
+				ns.Balance[k].Currency = cloneCurrency(v.Currency)
 			}
 		}
 	}
@@ -268,23 +277,23 @@ func (l *Ledger) Clone() *Ledger {
 		res.Prices[i] = np
 		np.ID = p.ID
 		np.Time = p.Time
-		np.Currency = mapCurrencies[p.Currency]
+		np.Currency = cloneCurrency(p.Currency)
 		np.Value.Amount = p.Value.Amount
-		np.Value.Currency = mapCurrencies[p.Value.Currency]
+		np.Value.Currency = cloneCurrency(p.Value.Currency)
 	}
 	res.Comments = make(map[interface{}][]string)
 	// TODO: Comments are not deep-copied (I have to deal with interface{})
 	res.Assertions = make(map[*Split]Value)
 	for s, v := range l.Assertions {
-		v.Currency = mapCurrencies[v.Currency]
+		v.Currency = cloneCurrency(v.Currency)
 		res.Assertions[mapSplits[s]] = v
 	}
 	res.SplitPrices = make(map[*Split]Value)
 	for s, v := range l.SplitPrices {
-		v.Currency = mapCurrencies[v.Currency]
+		v.Currency = cloneCurrency(v.Currency)
 		res.SplitPrices[mapSplits[s]] = v
 	}
-	res.DefaultCurrency = mapCurrencies[l.DefaultCurrency]
+	res.DefaultCurrency = cloneCurrency(l.DefaultCurrency)
 
 	return res
 }
-- 
2.43.0


From 1f0d8891c8ed132d50e970ad35c3374a80e500c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:59 +0000
Subject: [PATCH 23/64] fix: clone the comments of a ledger

They were lost, so "ledger print" did not show any comments.
---
 accounting.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index edbaee8..69dee99 100644
--- a/accounting.go
+++ b/accounting.go
@@ -282,7 +282,21 @@ func (l *Ledger) Clone() *Ledger {
 		np.Value.Currency = cloneCurrency(p.Value.Currency)
 	}
 	res.Comments = make(map[interface{}][]string)
-	// TODO: Comments are not deep-copied (I have to deal with interface{})
+	for where, comments := range l.Comments {
+		switch x := where.(type) {
+		case *Account:
+			where = mapAccounts[x]
+		case *Transaction:
+			where = mapTransactions[x]
+		case *Split:
+			where = mapSplits[x]
+		case *Currency:
+			where = cloneCurrency(x)
+		case *Price:
+			where = mapPrices[x]
+		}
+		res.Comments[where] = append([]string(nil), comments...)
+	}
 	res.Assertions = make(map[*Split]Value)
 	for s, v := range l.Assertions {
 		v.Currency = cloneCurrency(v.Currency)
-- 
2.43.0


From 349e404fe436ba6dc4e04ecfcaf5ddce2cc65a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 24/64] fix: make the transfer account work with several
 ledgers and calls to Fill

All the ledgers in a program shared the same account, mixing their splits, and
calling Fill again left behind some automatic splits, so that transactions
were not balanced anymore.  Now each ledger has its own copy of the account,
and all its splits are removed before calculating them again.
---
 accounting.go | 49 +++++++++++++++++++++++--------------------------
 types.go      |  3 ++-
 2 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/accounting.go b/accounting.go
index 69dee99..e641f67 100644
--- a/accounting.go
+++ b/accounting.go
@@ -203,6 +203,7 @@ func (l *Ledger) Clone() *Ledger {
 
 	res := new(Ledger)
 	res.connection = l.connection
+	res.transferAccount = mapAccounts[l.transferAccount]
 	res.Accounts = make([]*Account, len(l.Accounts))
 	for i, a := range l.Accounts {
 		na := mapAccounts[a]
@@ -634,6 +635,11 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, tried []*C
 
 // Fill re-calculates all the automatic fields in all the accounting data.
 func (l *Ledger) Fill() error {
+	if l.transferAccount == nil {
+		account := TransferAccount
+		l.transferAccount = &account
+	}
+	l.transferAccount.Splits = nil
 	for _, a := range l.Accounts {
 		a.Splits = nil
 		a.Children = nil
@@ -646,25 +652,22 @@ func (l *Ledger) Fill() error {
 	}
 	var newAccounts []*Account
 	for _, a := range l.Accounts {
-		if a.Parent == nil {
+		if a.Parent == nil && a != l.transferAccount {
 			insertAccount(&newAccounts, a)
 		}
 	}
 	l.Accounts = newAccounts
 
-	// Remove splits with transferAccount, if any:
-	for i := range l.Transactions {
-		// TODO: this may be buggy!
-		for j := range l.Transactions[i].Splits {
-			if j >= len(l.Transactions[i].Splits) {
-				break
-			}
-			l.Transactions[i].Splits[j].Balance = nil
-			if l.Transactions[i].Splits[j].Account == &TransferAccount {
-				l.Transactions[i].Splits[j] = l.Transactions[i].Splits[len(l.Transactions[i].Splits)-1]
-				l.Transactions[i].Splits = l.Transactions[i].Splits[:len(l.Transactions[i].Splits)-1]
+	// Remove splits with the transfer account, if any:
+	for _, t := range l.Transactions {
+		splits := t.Splits[:0]
+		for _, s := range t.Splits {
+			s.Balance = nil
+			if s.Account != l.transferAccount {
+				splits = append(splits, s)
 			}
 		}
+		t.Splits = splits
 	}
 	sort.SliceStable(l.Transactions, func(i, j int) bool {
 		return l.Transactions[i].Time.Before(l.Transactions[j].Time)
@@ -843,18 +846,12 @@ func (l *Ledger) Fill() error {
 	})
 
 	// Create fake splits in transactions with different times.
-	for i := range l.Accounts {
-		if l.Accounts[i] == &TransferAccount {
-			goto transferAlreadyInAccounts
-		}
-	}
-	l.Accounts = append(l.Accounts, &TransferAccount)
-transferAlreadyInAccounts:
+	l.Accounts = append(l.Accounts, l.transferAccount)
 	for i := range l.Transactions {
 		for j := range l.Transactions[i].Splits {
 			if l.Transactions[i].Splits[j].Time != &l.Transactions[i].Time {
 				split1 := &Split{
-					Account:     &TransferAccount,
+					Account:     l.transferAccount,
 					Transaction: l.Transactions[i],
 					Time:        l.Transactions[i].Splits[j].Time,
 					Value: Value{
@@ -863,7 +860,7 @@ transferAlreadyInAccounts:
 					},
 				}
 				split2 := &Split{
-					Account:     &TransferAccount,
+					Account:     l.transferAccount,
 					Transaction: l.Transactions[i],
 					Time:        &l.Transactions[i].Time,
 					Value: Value{
@@ -873,17 +870,17 @@ transferAlreadyInAccounts:
 				}
 				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split1)
 				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split2)
-				TransferAccount.Splits = append(TransferAccount.Splits, split1)
-				TransferAccount.Splits = append(TransferAccount.Splits, split2)
+				l.transferAccount.Splits = append(l.transferAccount.Splits, split1)
+				l.transferAccount.Splits = append(l.transferAccount.Splits, split2)
 			}
 		}
 	}
-	sort.SliceStable(TransferAccount.Splits, func(i, j int) bool {
-		return TransferAccount.Splits[i].Time.Before(*TransferAccount.Splits[j].Time)
+	sort.SliceStable(l.transferAccount.Splits, func(i, j int) bool {
+		return l.transferAccount.Splits[i].Time.Before(*l.transferAccount.Splits[j].Time)
 	})
 
 	var b Balance
-	for _, s := range TransferAccount.Splits {
+	for _, s := range l.transferAccount.Splits {
 		b.Add(s.Value)
 		s.Balance = b.Dup()
 	}
diff --git a/types.go b/types.go
index f306178..4adeb19 100644
--- a/types.go
+++ b/types.go
@@ -16,6 +16,7 @@ type Ledger struct {
 	Assertions      map[*Split]Value         // Value that should be in an account after one split.
 	SplitPrices     map[*Split]Value         // Price for the value in a split, in another currency.
 	DefaultCurrency *Currency                // Default currency.
+	transferAccount *Account                 // Automatically filled: this ledger's copy of TransferAccount.
 	// Tags            map[interface{}][]Tag
 	// TagsByName      map[string][]struct {Value string; Place interface{}}
 }
@@ -62,7 +63,7 @@ type Account struct {
 }
 
 // TransferAccount is a special account used when a transaction has two or more splits with different times.
-// Ledger.Fill() automatically generates splits with this account.
+// Ledger.Fill() automatically generates splits with a copy of this account in each ledger.
 var TransferAccount Account = Account{
 	Name: "Assets:Transfer account",
 }
-- 
2.43.0


From 302a8c3312d2f2aeb705499a8b569dc5385b90cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:53 +0000
Subject: [PATCH 25/64] fix: do not repeat the automatic prices when calling
 Fill again

It also panicked in ledgers without comments.
---
 accounting.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/accounting.go b/accounting.go
index e641f67..4a66d64 100644
--- a/accounting.go
+++ b/accounting.go
@@ -658,6 +658,20 @@ func (l *Ledger) Fill() error {
 	}
 	l.Accounts = newAccounts
 
+	// Remove automatic prices, if any:
+	if l.Comments == nil {
+		l.Comments = make(map[interface{}][]string)
+	}
+	var prices []*Price
+	for _, p := range l.Prices {
+		if c := l.Comments[p]; p.ID == nil && len(c) == 1 && c[0] == "automatic" {
+			delete(l.Comments, p)
+			continue
+		}
+		prices = append(prices, p)
+	}
+	l.Prices = prices
+
 	// Remove splits with the transfer account, if any:
 	for _, t := range l.Transactions {
 		splits := t.Splits[:0]
-- 
2.43.0


From 002d5c58c0479d217afc32146d0d65f66e920ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 26/64] fix: do not add automatic prices which are already in
 the ledger

An exported ledger includes its automatic prices, so each time one was
exported and loaded it had more and more repeated prices.
---
 accounting.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/accounting.go b/accounting.go
index 4a66d64..fa0805d 100644
--- a/accounting.go
+++ b/accounting.go
@@ -663,14 +663,23 @@ func (l *Ledger) Fill() error {
 		l.Comments = make(map[interface{}][]string)
 	}
 	var prices []*Price
+	declared := make(map[Price]bool)
 	for _, p := range l.Prices {
 		if c := l.Comments[p]; p.ID == nil && len(c) == 1 && c[0] == "automatic" {
 			delete(l.Comments, p)
 			continue
 		}
 		prices = append(prices, p)
+		declared[Price{Time: p.Time, Currency: p.Currency, Value: p.Value}] = true
 	}
 	l.Prices = prices
+	addPrice := func(p *Price) {
+		if declared[Price{Time: p.Time, Currency: p.Currency, Value: p.Value}] {
+			return
+		}
+		l.Prices = append(l.Prices, p)
+		l.Comments[p] = append(l.Comments[p], "automatic")
+	}
 
 	// Remove splits with the transfer account, if any:
 	for _, t := range l.Transactions {
@@ -763,8 +772,7 @@ func (l *Ledger) Fill() error {
 				i.Quo(i, big.NewInt(balance[0].Amount))
 				price.Value.Amount = i.Int64()
 				price.Value.Currency = balance[1].Currency
-				l.Prices = append(l.Prices, price)
-				l.Comments[price] = append(l.Comments[price], "automatic")
+				addPrice(price)
 				price = new(Price)
 				price.Time = transaction.Time
 				price.Currency = balance[1].Currency
@@ -773,8 +781,7 @@ func (l *Ledger) Fill() error {
 				i.Quo(i, big.NewInt(balance[1].Amount))
 				price.Value.Amount = i.Int64()
 				price.Value.Currency = balance[0].Currency
-				l.Prices = append(l.Prices, price)
-				l.Comments[price] = append(l.Comments[price], "automatic")
+				addPrice(price)
 				deadlock = false
 				continue
 			}
@@ -835,8 +842,7 @@ func (l *Ledger) Fill() error {
 			i.Quo(i, big.NewInt(s.Value.Amount))
 			price.Value.Amount = i.Int64()
 			price.Value.Currency = v.Currency
-			l.Prices = append(l.Prices, price)
-			l.Comments[price] = append(l.Comments[price], "automatic")
+			addPrice(price)
 
 			if v.Amount == 0 {
 				continue
@@ -849,8 +855,7 @@ func (l *Ledger) Fill() error {
 			i.Quo(i, big.NewInt(v.Amount))
 			price.Value.Amount = i.Int64()
 			price.Value.Currency = s.Value.Currency
-			l.Prices = append(l.Prices, price)
-			l.Comments[price] = append(l.Comments[price], "automatic")
+			addPrice(price)
 		}
 	}
 
-- 
2.43.0


From 58677cb4f51a6f9455f775857323e3f9b4ade37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:38 +0000
Subject: [PATCH 27/64] fix: export the comments of accounts as comments

---
 backend/ledger/ledger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index c6369d7..269270e 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -55,7 +55,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		fmt.Fprint(out, "\n")
 		if len(ledger.Comments[a]) > 1 {
 			for _, c := range ledger.Comments[a][1:] {
-				fmt.Fprintf(out, "\t: %s\n", c)
+				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
 	}
-- 
2.43.0


From e602e283b224790955f95552785d711283a74411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:39 +0000
Subject: [PATCH 28/64] fix: do not export the automatic account and splits for
 transfers

They were added again when loading the exported ledger, and then exporting
it again gave a journal that could not be loaded.
---
 backend/ledger/ledger.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 269270e..49c6b42 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -44,10 +44,19 @@ func (conn *ledgerConnection) Refresh() {
 	// TODO FIXME XXX: notifier
 }
 
+// isTransfer returns whether this is the account automatically filled by
+// accounting.Ledger.Fill(), which will be generated again when needed.
+func isTransfer(a *accounting.Account) bool {
+	return a.Parent == nil && a.Name == accounting.TransferAccount.Name
+}
+
 // Export shows the "Ledger" representation of an accounting ledger.
 func Export(out io.Writer, ledger *accounting.Ledger) {
 	// fmt.Fprintln(out, "\n; Accounts:")
 	for _, a := range ledger.Accounts {
+		if isTransfer(a) {
+			continue
+		}
 		fmt.Fprintf(out, "account %s", a.FullName())
 		if len(ledger.Comments[a]) > 0 {
 			fmt.Fprintf(out, " ; %s", ledger.Comments[a][0])
@@ -105,6 +114,9 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				}
 			}
 			for _, s := range t.Splits {
+				if isTransfer(s.Account) {
+					continue
+				}
 				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), s.Value.FullString())
 				if v, ok := ledger.SplitPrices[s]; ok == true {
 					fmt.Fprintf(out, " @@ %s", v.FullString())
-- 
2.43.0


From fa974d78e598bf2731079ec1ae408f15ee8116d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:40 +0000
Subject: [PATCH 29/64] fix: export the seconds of transactions, splits and
 prices

Besides losing them, the splits of an account could change their order.
---
 backend/ledger/ledger.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 49c6b42..ca8248e 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -50,6 +50,14 @@ func isTransfer(a *accounting.Account) bool {
 	return a.Parent == nil && a.Name == accounting.TransferAccount.Name
 }
 
+// formatTime returns a time in the format used in journals.
+func formatTime(t time.Time) string {
+	if t.Second() != 0 {
+		return t.Format("2006-01-02/15:04:05")
+	}
+	return t.Format("2006-01-02/15:04")
+}
+
 // Export shows the "Ledger" representation of an accounting ledger.
 func Export(out io.Writer, ledger *accounting.Ledger) {
 	// fmt.Fprintln(out, "\n; Accounts:")
@@ -103,7 +111,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		// fmt.Fprintf(out, "DEBUG: i=%d j=%d tt=%v tp=%v\n", i, j, tt, tp)
 		if p == nil || (t != nil && !tt.After(tp)) {
 			i++
-			fmt.Fprintf(out, "%s %s", t.Time.Format("2006-01-02/15:04"), t.Description)
+			fmt.Fprintf(out, "%s %s", formatTime(t.Time), t.Description)
 			if len(ledger.Comments[t]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[t][0])
 			}
@@ -126,7 +134,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				}
 				var comments []string
 				if *s.Time != t.Time {
-					comments = append(comments, "date:"+s.Time.Format("2006-01-02/15:04"))
+					comments = append(comments, "date:"+formatTime(*s.Time))
 				}
 				if len(ledger.Comments[s]) > 0 {
 					comments = append(comments, ledger.Comments[s]...)
@@ -143,7 +151,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		} else {
 			j++
-			fmt.Fprintf(out, "P %s %s %s", p.Time.Format("2006-01-02/15:04"), p.Currency.Name, p.Value.FullString())
+			fmt.Fprintf(out, "P %s %s %s", formatTime(p.Time), p.Currency.Name, p.Value.FullString())
 			if len(ledger.Comments[p]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[p][0])
 			}
-- 
2.43.0


From 03fbd8d97faf1beda1f2febe0788005360737b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:41 +0000
Subject: [PATCH 30/64] fix: export the code of accounts and the ISIN of
 currencies

---
 backend/ledger/ledger.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index ca8248e..5dfe276 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -66,12 +66,17 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			continue
 		}
 		fmt.Fprintf(out, "account %s", a.FullName())
-		if len(ledger.Comments[a]) > 0 {
-			fmt.Fprintf(out, " ; %s", ledger.Comments[a][0])
+		var comments []string
+		if a.Code != "" {
+			comments = append(comments, "code:"+a.Code)
+		}
+		comments = append(comments, ledger.Comments[a]...)
+		if len(comments) > 0 {
+			fmt.Fprintf(out, " ; %s", comments[0])
 		}
 		fmt.Fprint(out, "\n")
-		if len(ledger.Comments[a]) > 1 {
-			for _, c := range ledger.Comments[a][1:] {
+		if len(comments) > 1 {
+			for _, c := range comments[1:] {
 				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
@@ -83,12 +88,17 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		v.Amount = 1_000_000 * accounting.U
 		v.Currency = cu
 		fmt.Fprintf(out, "commodity %s", v.String())
-		if len(ledger.Comments[cu]) > 0 {
-			fmt.Fprintf(out, " ; %s", ledger.Comments[cu][0])
+		var comments []string
+		if cu.ISIN != "" {
+			comments = append(comments, "isin:"+cu.ISIN)
+		}
+		comments = append(comments, ledger.Comments[cu]...)
+		if len(comments) > 0 {
+			fmt.Fprintf(out, " ; %s", comments[0])
 		}
 		fmt.Fprint(out, "\n")
-		if len(ledger.Comments[cu]) > 1 {
-			for _, c := range ledger.Comments[cu][1:] {
+		if len(comments) > 1 {
+			for _, c := range comments[1:] {
 				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
-- 
2.43.0


From a90fc6eb3da7fe6ef95564d4ecb665d2f981d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 31/64] fix: export the default currency

---
 backend/ledger/ledger.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 5dfe276..9410f9a 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -103,6 +103,12 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		}
 	}
+	if ledger.DefaultCurrency != nil {
+		var v accounting.Value
+		v.Amount = 1_000_000 * accounting.U
+		v.Currency = ledger.DefaultCurrency
+		fmt.Fprintf(out, "D %s\n", v.String())
+	}
 	fmt.Fprintln(out)
 	// fmt.Fprintln(out, "\n; Transactions and prices:")
 	var i, j int
-- 
2.43.0


From 7636f0a18bc94ff6bf2ef9801bc0199250a1f79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 32/64] fix: do not export amounts for splits balanced with
 nothing

Their zero, without currency, defined a default currency when loading it.
---
 backend/ledger/ledger.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 9410f9a..bcadc45 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -141,7 +141,12 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				if isTransfer(s.Account) {
 					continue
 				}
-				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), s.Value.FullString())
+				amount := s.Value.FullString()
+				if cu := s.Value.Currency; s.Value.Amount == 0 && (cu == nil || cu.Name == "" && cu != ledger.DefaultCurrency) {
+					// no amount: it had none in the journal, and it is zero
+					amount = ""
+				}
+				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), amount)
 				if v, ok := ledger.SplitPrices[s]; ok == true {
 					fmt.Fprintf(out, " @@ %s", v.FullString())
 				}
-- 
2.43.0


From b93d64148e339b7f8b064bd96ae3c0c232abf042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 33/64] fix: do not export prices of the currency without name

---
 backend/ledger/ledger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index bcadc45..cecac7f 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -172,6 +172,10 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		} else {
 			j++
+			if p.Currency.Name == "" {
+				// automatic price, which cannot be written and will be generated again
+				continue
+			}
 			fmt.Fprintf(out, "P %s %s %s", formatTime(p.Time), p.Currency.Name, p.Value.FullString())
 			if len(ledger.Comments[p]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[p][0])
-- 
2.43.0


From 5b5e5ef8db0c293639aacf55da4552a033213be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:16 +0000
Subject: [PATCH 34/64] fix: do not generate transfers for splits with the date
 of their transaction

A "date:" tag repeating the date of the transaction generated two splits
in the transfer account, at the same time.
---
 accounting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index fa0805d..afdbcf8 100644
--- a/accounting.go
+++ b/accounting.go
@@ -868,7 +868,7 @@ func (l *Ledger) Fill() error {
 	l.Accounts = append(l.Accounts, l.transferAccount)
 	for i := range l.Transactions {
 		for j := range l.Transactions[i].Splits {
-			if l.Transactions[i].Splits[j].Time != &l.Transactions[i].Time {
+			if !l.Transactions[i].Splits[j].Time.Equal(l.Transactions[i].Time) {
 				split1 := &Split{
 					Account:     l.transferAccount,
 					Transaction: l.Transactions[i],
-- 
2.43.0


From 5db4ffe20af5c8d50fc74bb69a0b302f80aea2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:45 +0000
Subject: [PATCH 35/64] fix: report postings with a price but no amount

---
 backend/ledger/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 4825cb5..a1091ab 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -424,6 +424,10 @@ func (l *ledgerConnection) readJournal() error {
 					log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, s.Value.Currency.Name)
 				}
 			}
+			if (hasPriceRel || hasPriceAbs) && s.Value == (accounting.Value{}) {
+				log.Printf("%s:%d: syntax error: price without amount\n", line.Filename, line.LineNum)
+				continue
+			}
 			if hasPriceRel || hasPriceAbs {
 				value, err, newCurrency := l.getValue(strings.TrimSpace(text[priceStart:priceEnd]))
 				if err != nil {
-- 
2.43.0


From a9e4a45d90a979f58269c865ecc16304aa166dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:46 +0000
Subject: [PATCH 36/64] fix: report price lines without currency or value

---
 backend/ledger/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index a1091ab..77d8e60 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -286,6 +286,10 @@ func (l *ledgerConnection) readJournal() error {
 				return fmt.Errorf("%s:%d: price is not chronologically sorted", line.Filename, line.LineNum)
 			}
 			currency, rest := firstWord(rest)
+			if rest == "" {
+				log.Printf("%s:%d: Syntax error: price without currency or value", line.Filename, line.LineNum)
+				continue
+			}
 			price.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
 			var newCurrency bool
 			price.Currency, newCurrency = l.ledger.GetCurrency(currency)
-- 
2.43.0


From 8f62ee4fce7c3b9c4595163bf8cb7509fdbff305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 37/64] fix: report commodity lines without a value

---
 backend/ledger/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 77d8e60..0d5ffe3 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -329,6 +329,9 @@ func (l *ledgerConnection) readJournal() error {
 		if !indented && word == "commodity" {
 			lastLine = lineCommodity
 			value, err, _ := l.getValue(rest)
+			if err == nil && value.Currency == nil {
+				err = errors.New("commodity without value")
+			}
 			if err != nil {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				commodity = nil
-- 
2.43.0


From 674702ce49c17c741336b1a491be3e9a42b20d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 38/64] fix: count each account once in delta

---
 cmd/ledger/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 5b59108..a36f6d3 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -319,6 +319,7 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 		for _, b := range args {
 			if strings.Contains(strings.ToLower(a.FullName()), strings.ToLower(b)) {
 				accounts = append(accounts, a)
+				break
 			}
 		}
 	}
-- 
2.43.0


From 3c8099f4bbc8163d585466130f398a19813f8efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 39/64] fix: report postings with an empty price or assertion

---
 backend/ledger/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 0d5ffe3..972ac70 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -437,6 +437,9 @@ func (l *ledgerConnection) readJournal() error {
 			}
 			if hasPriceRel || hasPriceAbs {
 				value, err, newCurrency := l.getValue(strings.TrimSpace(text[priceStart:priceEnd]))
+				if err == nil && value.Currency == nil {
+					err = errors.New("syntax error: price without value")
+				}
 				if err != nil {
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
 					continue
@@ -458,6 +461,9 @@ func (l *ledgerConnection) readJournal() error {
 			}
 			if hasAssertion {
 				value, err, newCurrency := l.getValue(strings.TrimSpace(text[assertionStart:assertionEnd]))
+				if err == nil && value.Currency == nil {
+					err = errors.New("syntax error: assertion without value")
+				}
 				if err != nil {
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
 					continue
-- 
2.43.0


From 3932a6e55d863730c162e01c28e637fdff508419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:18 +0000
Subject: [PATCH 40/64] fix: show the balance of accounts without postings in
 the period

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index a36f6d3..e56c4bb 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -139,7 +139,7 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 	}
 	if !flags.total {
 		for _, a := range accounts {
-			if len(a.Account.Splits) > 0 {
+			if len(a.Account.Splits) > 0 || len(a.Balance) > 0 {
 				for i, v := range a.Balance {
 					fmt.Printf("%*.*s", maxLength, maxLength, v.String())
 					if i == len(a.Balance)-1 {
-- 
2.43.0


From 03309574466cda0b90bc1157d002ee8de48f72c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:57 +0000
Subject: [PATCH 41/64] fix: load PostgreSQL amounts in cents, with a currency

---
 backend/postgres/postgres.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index bdcdcb1..8cf3ceb 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -20,6 +20,8 @@ type conn struct {
 	updated time.Time
 	backend *accounting.Backend
 	ledger  *accounting.Ledger
+
+	currency accounting.Currency // just one currency
 }
 
 func (id ID) String() string {
@@ -45,6 +47,7 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.db = db
 	conn.backend = backend
 	conn.ledger = backend.Ledger
+	conn.currency.Precision = 2
 	getAccounts(conn)
 	getTransactions(conn)
 	return conn, nil
@@ -123,8 +126,8 @@ func getTransactions(c *conn) {
 		}
 		split := new(accounting.Split)
 		split.Account = idAccount[aid]
-		split.Value.Currency = nil
-		split.Value.Amount = value
+		split.Value.Currency = &c.currency
+		split.Value.Amount = value * (accounting.U / 100)
 		tra := ledger.Transactions[len(ledger.Transactions)-1]
 		tra.Splits = append(tra.Splits, split)
 	}
-- 
2.43.0


From 60764f555f6bfe277be4561fcab8343954f30bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 42/64] fix: return an error when a PostgreSQL query fails

---
 backend/postgres/postgres.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index 8cf3ceb..0e7393f 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -48,8 +48,13 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.backend = backend
 	conn.ledger = backend.Ledger
 	conn.currency.Precision = 2
-	getAccounts(conn)
-	getTransactions(conn)
+	if err = getAccounts(conn); err == nil {
+		err = getTransactions(conn)
+	}
+	if err != nil {
+		db.Close()
+		return nil, errors.New("psql.Open: " + err.Error())
+	}
 	return conn, nil
 }
 
@@ -61,7 +66,7 @@ func (c *conn) Close() error {
 	return c.db.Close()
 }
 
-func getAccounts(c *conn) {
+func getAccounts(c *conn) error {
 	ledger := c.ledger
 	query := `
 		SELECT a.id, a.name, COALESCE(a.code, '') AS code,
@@ -71,8 +76,9 @@ func getAccounts(c *conn) {
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
-		panic(err)
+		return err
 	}
+	defer rows.Close()
 	ledger.Accounts = nil
 	for rows.Next() {
 		var (
@@ -83,7 +89,7 @@ func getAccounts(c *conn) {
 			acc     accounting.Account
 		)
 		if err := rows.Scan(&id, &name, &code, &balance); err != nil {
-			panic(err)
+			return err
 		}
 		acc.ID = ID(id)
 		acc.Name = name
@@ -91,9 +97,10 @@ func getAccounts(c *conn) {
 		// acc.Balance = balance
 		ledger.Accounts = append(ledger.Accounts, &acc)
 	}
+	return rows.Err()
 }
 
-func getTransactions(c *conn) {
+func getTransactions(c *conn) error {
 	ledger := c.ledger
 	idAccount := make(map[accounting.ID]*accounting.Account)
 	for i, a := range ledger.Accounts {
@@ -104,8 +111,9 @@ func getTransactions(c *conn) {
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
-		panic(err)
+		return err
 	}
+	defer rows.Close()
 	for rows.Next() {
 		var (
 			date    time.Time
@@ -116,7 +124,7 @@ func getTransactions(c *conn) {
 			balance int
 		)
 		if err := rows.Scan(&date, &tid, &aid, &desc, &value, &balance); err != nil {
-			panic(err)
+			return err
 		}
 		if l := len(ledger.Transactions); l == 0 || ledger.Transactions[l-1].ID != tid {
 			ledger.Transactions = append(ledger.Transactions, &accounting.Transaction{
@@ -131,7 +139,7 @@ func getTransactions(c *conn) {
 		tra := ledger.Transactions[len(ledger.Transactions)-1]
 		tra.Splits = append(tra.Splits, split)
 	}
-	return
+	return rows.Err()
 }
 
 // Flush is a no-op in SQL: all the writes to the database are unbuffered
-- 
2.43.0


From e22cd06ca7a212c46160f44eb3a7e3422f0ba2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:38 +0000
Subject: [PATCH 43/64] fix: report errors reading a txtdb

---
 backend/txtdb/txtdb.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 4c02b90..a34f926 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -96,12 +96,18 @@ func (c *conn) read() error {
 		c.accountMap[id] = &ac
 		c.ledger.Accounts = append(c.ledger.Accounts, &ac)
 	}
+	if err = sc.Err(); err != nil {
+		return err
+	}
 	c.ledger.Accounts = accounting.SortAccounts(c.ledger.Accounts)
 
 	f, err = os.Open(filepath.Join(c.dir, "transactions"))
-	if err != nil {
+	if os.IsNotExist(err) {
 		return nil
 	}
+	if err != nil {
+		return err
+	}
 	sc = bufio.NewScanner(f)
 	nextID := 1
 	var balance int64
@@ -209,6 +215,9 @@ func (c *conn) read() error {
 			nextID++
 		}
 	}
+	if err = sc.Err(); err != nil {
+		return err
+	}
 	if balance != 0 {
 		log.Printf("transactions: balance is %d, not zero", balance)
 	}
-- 
2.43.0


From 6574568897f8db1958930712be425f80229c6be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:38 +0000
Subject: [PATCH 44/64] fix: skip txtdb amounts too large to be represented

---
 backend/txtdb/txtdb.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index a34f926..e9b7cd9 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -66,6 +66,15 @@ func (c *conn) Flush() error {
 	return errors.New("unimplemented")
 }
 
+// parseAmount reads a number, making sure that it can be represented as an amount.
+func parseAmount(s string) (float64, error) {
+	f, err := strconv.ParseFloat(s, 64)
+	if err == nil && !(math.Abs(f) < math.MaxInt64/accounting.U) {
+		err = errors.New("amount too large")
+	}
+	return f, err
+}
+
 func (c *conn) read() error {
 	f, err := os.Open(filepath.Join(c.dir, "accounts"))
 	if err != nil {
@@ -178,7 +187,7 @@ func (c *conn) read() error {
 				sign = -1
 				offset = 1
 			}
-			f, err := strconv.ParseFloat(fields[6][offset:], 64)
+			f, err := parseAmount(fields[6][offset:])
 			if err != nil {
 				log.Printf("transactions line %d: invalid balance (%s)", i, fields[6])
 				continue
@@ -198,7 +207,7 @@ func (c *conn) read() error {
 				log.Printf("transaction line %d: invalid value (%s)", i, fields[5])
 				continue
 			}
-			f, err := strconv.ParseFloat(fields[5][1:], 64)
+			f, err := parseAmount(fields[5][1:])
 			if err != nil {
 				log.Printf("transaction line %d: invalid value (%s)", i, fields[5])
 				continue
-- 
2.43.0


From e751d11e7f50214dfbae269870492abf5d8c5355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:52 +0000
Subject: [PATCH 45/64] fix: print the lowest amount correctly

---
 accounting.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/accounting.go b/accounting.go
index afdbcf8..9366c55 100644
--- a/accounting.go
+++ b/accounting.go
@@ -81,12 +81,13 @@ func (value Value) GetString(full bool, units bool) string {
 			result += " "
 		}
 	}
+	amount := uint64(value.Amount)
 	if value.Amount < 0 {
 		result += "-"
-		value.Amount = -value.Amount
+		amount = -amount
 	}
-	i := value.Amount / U
-	d := value.Amount % U
+	i := amount / U
+	d := amount % U
 	if c.Decimal == "" { // shouldn't happen
 		c.Decimal = "."
 	}
-- 
2.43.0


From c7f41123938f18dfe203c8aeb9c0e196fea8cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:52 +0000
Subject: [PATCH 46/64] fix: do not take the last letter of some currencies as
 a space

---
 backend/ledger/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 972ac70..36dc969 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -14,6 +14,7 @@ import (
 	"strings"
 	"time"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/cespedes/accounting"
 )
@@ -527,7 +528,7 @@ func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
 		value.Currency.PrintBefore = true
 		for i := len(s) - 1; i >= 0; i-- {
 			if !strings.ContainsRune("-+0123456789.,_'", rune(s[i])) {
-				if !unicode.IsSpace(rune(s[i])) {
+				if r, _ := utf8.DecodeLastRuneInString(s[:i+1]); !unicode.IsSpace(r) {
 					value.Currency.WithoutSpace = true
 				}
 				sAmount = s[i+1:]
-- 
2.43.0


From 14982a433e0ad1a8bcff373a4f8ba57b4aba0162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 47/64] fix: accept default currencies with digits in their
 names

---
 backend/ledger/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 36dc969..0b0d338 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -314,7 +314,7 @@ func (l *ledgerConnection) readJournal() error {
 		}
 		if !indented && word == "D" {
 			lastLine = lineDefaultCurrency
-			if rest != "" && !strings.ContainsAny(rest, "0123456789") {
+			if isCurrency(rest) {
 				// just a currency, without amount
 				l.ledger.DefaultCurrency, _ = l.ledger.GetCurrency(rest)
 				continue
@@ -684,6 +684,12 @@ done2:
 	return value, nil, newCurrency
 }
 
+// isCurrency returns whether a text is the name of a currency, without an amount.
+func isCurrency(s string) bool {
+	return s != "" && !strings.ContainsAny(s, " \t=@") &&
+		!strings.ContainsAny(s[:1], "-+0123456789") && !strings.ContainsAny(s[len(s)-1:], "0123456789.,_'")
+}
+
 func firstWord(s string) (string, string) {
 	i := strings.IndexByte(s, ' ')
 	if i > 0 {
-- 
2.43.0


From 26267fdd7419f5efd91daec6fe493d94379a639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 48/64] fix: txtdb: malformed lines gave their date and
 description to the next transaction

---
 backend/txtdb/txtdb.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index e9b7cd9..aab3619 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -143,15 +143,8 @@ func (c *conn) read() error {
 		if oldTime.After(thisTime) {
 			log.Printf("transactions line %d: datetime not sorted\n", i)
 		}
-		if tr.ID == nil { // Fill tr only if it is not already filled
-			// First field (used to be "id") is ignored
-			tr.ID = ID(nextID)
-			tr.Time = thisTime
-			tr.Description = fields[2]
-		} else {
-			if oldTime != thisTime {
-				log.Printf("NOTICE: transactions line %d: same transaction, different datetime\n", i)
-			}
+		if tr.ID != nil && oldTime != thisTime {
+			log.Printf("NOTICE: transactions line %d: same transaction, different datetime\n", i)
 		}
 		oldTime = thisTime
 		accountID, err := strconv.Atoi(fields[4])
@@ -165,10 +158,6 @@ func (c *conn) read() error {
 			log.Printf("transactions line %d: invalid account (%s)", i, fields[4])
 			continue
 		}
-		if thisTime != tr.Time {
-			sp.Time = new(time.Time)
-			*sp.Time = thisTime
-		}
 		if len(fields[5]) == 0 {
 			if balance != 0 {
 				log.Printf("transactions line %d: no value inside transaction (balance=%d)", i, balance)
@@ -216,6 +205,16 @@ func (c *conn) read() error {
 			sp.Value.Amount = sign * int64(math.Round(100*f)) * 1000_000
 			balance += sp.Value.Amount
 		}
+		if tr.ID == nil { // Fill tr only if it is not already filled, and the line is right
+			// First field (used to be "id") is ignored
+			tr.ID = ID(nextID)
+			tr.Time = thisTime
+			tr.Description = fields[2]
+		}
+		if thisTime != tr.Time {
+			sp.Time = new(time.Time)
+			*sp.Time = thisTime
+		}
 		tr.Splits = append(tr.Splits, sp)
 		sp.Account.Splits = append(sp.Account.Splits, sp)
 		if balance == 0 {
-- 
2.43.0


From b9b3919472db806481117e4665fd5940be19abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:43 +0000
Subject: [PATCH 49/64] fix: -currency given twice counted its amounts twice

---
 cmd/ledger/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index e56c4bb..ac908e6 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -107,6 +107,7 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 				for _, c := range flags.currency {
 					if v.Currency.Name == c {
 						bal.Add(v)
+						break
 					}
 				}
 			}
-- 
2.43.0


From c37d1ced4c8354226ff6f8cbc04c3ccd812fbb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:03 +0000
Subject: [PATCH 50/64] fix: postgres: rows of a transaction may come in any
 order

---
 backend/postgres/postgres.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index 0e7393f..9e976c9 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -114,6 +114,7 @@ func getTransactions(c *conn) error {
 		return err
 	}
 	defer rows.Close()
+	transactions := make(map[ID]*accounting.Transaction)
 	for rows.Next() {
 		var (
 			date    time.Time
@@ -126,17 +127,19 @@ func getTransactions(c *conn) error {
 		if err := rows.Scan(&date, &tid, &aid, &desc, &value, &balance); err != nil {
 			return err
 		}
-		if l := len(ledger.Transactions); l == 0 || ledger.Transactions[l-1].ID != tid {
-			ledger.Transactions = append(ledger.Transactions, &accounting.Transaction{
+		tra := transactions[tid]
+		if tra == nil {
+			tra = &accounting.Transaction{
 				ID:          tid,
 				Time:        date,
-				Description: desc})
+				Description: desc}
+			transactions[tid] = tra
+			ledger.Transactions = append(ledger.Transactions, tra)
 		}
 		split := new(accounting.Split)
 		split.Account = idAccount[aid]
 		split.Value.Currency = &c.currency
 		split.Value.Amount = value * (accounting.U / 100)
-		tra := ledger.Transactions[len(ledger.Transactions)-1]
 		tra.Splits = append(tra.Splits, split)
 	}
 	return rows.Err()
-- 
2.43.0


From 9391e0cd8972fc5bc1cc8f9a88eb8a7cf34ad132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 51/64] fix: balance of an account without movements in the
 period was nothing, not its start balance

---
 accounting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 9366c55..ce53c37 100644
--- a/accounting.go
+++ b/accounting.go
@@ -344,7 +344,7 @@ func (a Account) FullName() string {
 // If passed the zero value, it gets the current balance.
 func (l *Ledger) GetBalance(account *Account, when time.Time) Balance {
 	if len(account.Splits) == 0 {
-		return nil
+		return account.StartBalance
 	}
 	if (when == time.Time{}) {
 		return account.Splits[len(account.Splits)-1].Balance
-- 
2.43.0


From d816aad121279a066ebe137add89d22a63d92086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 52/64] fix: delta -market valued what there is at the end at
 the prices of the beginning

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index ac908e6..9f3fdde 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -345,7 +345,7 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 		balanceEnd.AddBalance(balanceBegin)
 		balanceEnd.AddBalance(balanceDelta)
 		for _, v := range balanceEnd {
-			nv, err := L.Convert(v, flags.beginDate, L.DefaultCurrency)
+			nv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From a4afda505fd5efbbd5f51865d5bb2f2b518bca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 53/64] fix: muscular gave figures for commodities which cannot
 be converted

---
 cmd/muscular/main.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/muscular/main.go b/cmd/muscular/main.go
index 3dc5034..c44b2f0 100644
--- a/cmd/muscular/main.go
+++ b/cmd/muscular/main.go
@@ -216,13 +216,17 @@ func main2(L *accounting.Ledger, args []string) {
 		var v accounting.Value
 		v.Amount = accounting.U
 		v.Currency, _ = L.GetCurrency(f.Args()[i])
-		momentum[i][0], _ = L.Convert(v, flags.endDate, L.DefaultCurrency)
+		momentum[i][0], err = L.Convert(v, flags.endDate, L.DefaultCurrency)
 		t := flags.endDate
-		for j := 0; j < flags.numMeasures; j++ {
+		for j := 0; j < flags.numMeasures && err == nil; j++ {
 			t = t.AddDate(0, -flags.measureMonths, -flags.measureDays)
-			momentum[i][j+1], _ = L.Convert(v, t, L.DefaultCurrency)
+			momentum[i][j+1], err = L.Convert(v, t, L.DefaultCurrency)
 			mom2[i] += float64(momentum[i][0].Amount) / float64(momentum[i][j+1].Amount)
 		}
+		if err != nil {
+			fmt.Fprintf(os.Stderr, "muscular: %s\n", err.Error())
+			os.Exit(1)
+		}
 		mom2[i] /= float64(flags.numMeasures)
 		mom2[i]--
 	}
-- 
2.43.0


From c77ec51a676e2670380245d031146096d5e419ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 54/64] fix: muscular divided by zero with commodities worth
 nothing

---
 cmd/muscular/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/muscular/main.go b/cmd/muscular/main.go
index c44b2f0..3a7c5c2 100644
--- a/cmd/muscular/main.go
+++ b/cmd/muscular/main.go
@@ -221,6 +221,10 @@ func main2(L *accounting.Ledger, args []string) {
 		for j := 0; j < flags.numMeasures && err == nil; j++ {
 			t = t.AddDate(0, -flags.measureMonths, -flags.measureDays)
 			momentum[i][j+1], err = L.Convert(v, t, L.DefaultCurrency)
+			if err == nil && momentum[i][j+1].Amount == 0 {
+				err = fmt.Errorf("%s is worth nothing on %s", f.Args()[i], t.Format("2006-01-02"))
+				break
+			}
 			mom2[i] += float64(momentum[i][0].Amount) / float64(momentum[i][j+1].Amount)
 		}
 		if err != nil {
-- 
2.43.0


From aa346d7ce8100dab800cca358e3a9365c195cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 55/64] fix: muscular crashed with a negative number of
 measures

---
 cmd/muscular/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/muscular/main.go b/cmd/muscular/main.go
index 3a7c5c2..eac954f 100644
--- a/cmd/muscular/main.go
+++ b/cmd/muscular/main.go
@@ -105,6 +105,10 @@ func main2(L *accounting.Ledger, args []string) {
 	f.IntVar(&flags.numCommodities, "num", 3, "number of commodities where to invest")
 	f.IntVar(&flags.numMeasures, "measures", 1, "number of measures")
 	f.Parse(args)
+	if flags.numMeasures < 1 {
+		fmt.Fprintf(os.Stderr, "muscular: wrong number of measures %d\n", flags.numMeasures)
+		os.Exit(1)
+	}
 	// flags.period*:
 	_, err = fmt.Sscanf(txtPeriod+"_", "%dm%dd_", &flags.periodMonths, &flags.periodDays)
 	if err != nil {
-- 
2.43.0


From 3c67f854f8302f27f7255f88ed6fa1ff13f97ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 56/64] fix: keep the words before a tag in a comment

---
 backend/ledger/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 0b0d338..79a9ab4 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -161,14 +161,23 @@ func (l *ledgerConnection) addComment(where interface{}, comment string) {
 		l.ledger.Comments[where] = append(l.ledger.Comments[where], comment)
 		return
 	}
+	// What is written before the tag is a comment:
+	words := strings.TrimSpace(strings.TrimSuffix(comment, tag.Name+":"+tag.Value))
+	keepWords := func() {
+		if words != "" {
+			l.ledger.Comments[where] = append(l.ledger.Comments[where], words)
+		}
+	}
 	switch x := where.(type) {
 	case *accounting.Account:
 		if tag.Name == "code" {
+			keepWords()
 			x.Code = tag.Value
 			return
 		}
 	case *accounting.Split:
 		if tag.Name == "date" {
+			keepWords()
 			t, err := GetDate(tag.Value)
 			if err != nil {
 				log.Printf("%s: Invalid date: %s", x.ID, tag.Value)
@@ -179,6 +188,7 @@ func (l *ledgerConnection) addComment(where interface{}, comment string) {
 		}
 	case *accounting.Currency:
 		if tag.Name == "isin" {
+			keepWords()
 			x.ISIN = tag.Value
 			return
 		}
-- 
2.43.0


From 37c2dba4bbcfb1d52688dc4945ec565f493f57c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:44 +0000
Subject: [PATCH 57/64] fix: balances of the selected transactions only with
 -pivot

---
 cmd/ledger/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 9f3fdde..8372349 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -423,6 +423,12 @@ func doPivot(L *accounting.Ledger, pivot sliceString) {
 				j--
 			}
 		}
+		// the running balances are those of the splits which are left
+		var balance accounting.Balance
+		for _, s := range L.Accounts[i].Splits {
+			balance.Add(s.Value)
+			s.Balance = balance.Dup()
+		}
 	}
 }
 
-- 
2.43.0


From c377bb3a22a91d18312cb4221caace5ab8e7784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 58/64] fix: close the files of a txtdb directory

---
 backend/txtdb/txtdb.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index aab3619..73b8b4f 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -80,6 +80,7 @@ func (c *conn) read() error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 	sc := bufio.NewScanner(f)
 	for sc.Scan() {
 		var ac accounting.Account
@@ -117,6 +118,7 @@ func (c *conn) read() error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 	sc = bufio.NewScanner(f)
 	nextID := 1
 	var balance int64
-- 
2.43.0


From d885c7d696cec17c945586438f27c5cf10f0b985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 59/64] fix: close the files of a journal with errors

---
 backend/ledger/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 79a9ab4..6b07bdc 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -114,6 +114,14 @@ func (s *Scanner) NewFile(filename string) error {
 	return nil
 }
 
+// Close closes the files which have not been read up to their end.
+func (s *Scanner) Close() {
+	for _, file := range s.files {
+		file.f.Close()
+	}
+	s.files = nil
+}
+
 func (s *Scanner) Line() ScannerLine {
 	if len(s.files) == 0 {
 		return ScannerLine{Err: io.EOF}
@@ -208,6 +216,7 @@ func (l *ledgerConnection) readJournal() error {
 	l.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
 	l.ledger.DefaultCurrency = nil
 	s := NewScanner()
+	defer s.Close()
 	if err := s.NewFile(l.file); err != nil {
 		return err
 	}
-- 
2.43.0


From 0cf36ff9b7d662cbaf995ff4b4f2b9b672635920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 60/64] fix: close the connection when opening fails

---
 accounting.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/accounting.go b/accounting.go
index ce53c37..0f3b5d4 100644
--- a/accounting.go
+++ b/accounting.go
@@ -46,6 +46,7 @@ func Open(dataSource string) (*Ledger, error) {
 		return nil, err
 	}
 	if err = b.Ledger.Fill(); err != nil {
+		b.Ledger.connection.Close()
 		return nil, err
 	}
 	return b.Ledger, nil
-- 
2.43.0


From 14c17086d71d94661342aed825869e2ed356d7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 61/64] fix: close the database when it does not answer

---
 backend/postgres/postgres.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index 9e976c9..ac50e64 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -40,6 +40,7 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 		return nil, errors.New("psql.Open: " + err.Error())
 	}
 	if err = db.Ping(); err != nil {
+		db.Close()
 		return nil, errors.New("psql.Open: " + err.Error())
 	}
 	// TODO I should check the SQL schema...
-- 
2.43.0


From 60472d1793a42849d54f5f0c90da78dec1835729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 62/64] fix: learn the precision of a default commodity from
 its first amount, also without its name

---
 backend/ledger/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 6b07bdc..51258bd 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -570,6 +570,8 @@ done:
 		} else {
 			value.Currency = l.ledger.DefaultCurrency
 			newCurrency = false
+			// if it was known just by name, this is its first amount
+			firstAmount = value.Currency.Decimal == ""
 		}
 	} else {
 		for _, c := range l.ledger.Currencies {
-- 
2.43.0


From 0bb9351cb9eea1a05dfd9b0484dce22596b550c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:05 +0000
Subject: [PATCH 63/64] fix: report a default currency line without value
 instead of forgetting the default currency

---
 backend/ledger/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 51258bd..06abce1 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -339,6 +339,9 @@ func (l *ledgerConnection) readJournal() error {
 				continue
 			}
 			price, err, _ := l.getValue(rest)
+			if err == nil && price.Currency == nil {
+				err = errors.New("default currency without value")
+			}
 			if err != nil {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
-- 
2.43.0


From 1fbefd30df0b233ecac0b46b8a842b6ded43219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:14 +0000
Subject: [PATCH 64/64] fix: allow a default currency line without value again,
 as the documented grammar does

---
 backend/ledger/parser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 06abce1..51258bd 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -339,9 +339,6 @@ func (l *ledgerConnection) readJournal() error {
 				continue
 			}
 			price, err, _ := l.getValue(rest)
-			if err == nil && price.Currency == nil {
-				err = errors.New("default currency without value")
-			}
 			if err != nil {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
-- 
2.43.0

