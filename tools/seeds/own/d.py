A="accounting.go"; P="backend/ledger/parser.go"; L="backend/ledger/ledger.go"; X="backend/txtdb/txtdb.go"; M="cmd/ledger/main.go"; U="cmd/muscular/main.go"; G="backend/postgres/postgres.go"
# Bugs in lines of our own fix commits: they do not count as planted bugs, and are only tried with the checks.
# OWN=1 tools/mkseeds.py writes them to /tmp/own.
seed("c02-written", "C02", [(A, "\t\t\t\t\tif s.Value == (Value{}) {\n\t\t\t\t\t\ts.Value = a\n", "\t\t\t\t\tif s.Value == (Value{}) || s.Value.Amount == 0 && v.Amount != a.Amount {\n\t\t\t\t\t\ts.Value = a\n")],
 "a posting written with amount zero and a false assertion", "its amount is changed to make the assertion true", r'''
func check() {
	if l, err := open("a.ledger", "2020-01-01 x\n  A  10 EUR\n  B  -10 EUR\n2020-01-02 y\n  A  0 EUR = 15 EUR\n"); err == nil {
		fail("it loads: %v", acc(l, "A").Splits[1].Value)
	}
}
''')
seed("c04-other-commodity", "C04", [(A, "\t\t\t\t\tfor i := range b {\n\t\t\t\t\t\tif b[i].Currency == a.Currency {\n\t\t\t\t\t\t\tv = b[i]\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n", "\t\t\t\t\tfor i := range b {\n\t\t\t\t\t\tif b[i].Currency == a.Currency || a.Currency.Name != \"\" && len(b[i].Currency.Name) > len(a.Currency.Name) && b[i].Currency.Name[:len(a.Currency.Name)] == a.Currency.Name {\n\t\t\t\t\t\t\tv = b[i]\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n")],
 "an account which holds two commodities, one with the name of the other and an s", "the assertion is checked against the other one", r'''
func check() {
	if _, err := open("a.ledger", "2020-01-01 x\n  A  10 X\n  A  7 Xs\n  A  0 X = 10 X\n  B  -10 X\n  B  -7 Xs\n"); err != nil {
		fail("it does not load: %v", err)
	}
}
''')
seed("c04-late", "C04", [(A, "\t\t\t\t\t} else if v.Amount != a.Amount {\n", "\t\t\t\t\t} else if v.Amount != a.Amount && (iTransactions == len(l.Transactions) || *s.Time == s.Transaction.Time) {\n")],
 "a false assertion in a posting with its own date, checked before all the amounts are known because another one is inferred from an assertion", "it is accepted", r'''
func check() {
	if _, err := open("a.ledger", "2020-01-01 x\n  A  10 EUR ; date:2019-12-31\n  A  1 EUR = 999 EUR ; date:2020-01-02\n  B  -11 EUR\n2020-01-03 y\n  C  = 5 EUR\n  D\n"); err == nil {
		fail("it loads")
	}
}
''')
seed("c05-priced", "C05", [(A, "\t\t\tif !l.Transactions[i].Splits[j].Time.Equal(l.Transactions[i].Time) {\n", "\t\t\tif t := l.Transactions[i]; !t.Splits[j].Time.Equal(t.Time) && (j == 0 || t.Splits[j].Account != t.Splits[j-1].Account || !t.Splits[j].Time.Equal(*t.Splits[j-1].Time)) {\n")],
 "two postings in a row to the same account with the same date of their own", "the second one is not in transit", r'''
func check() {
	l := load("2020-01-05 a\n  A  1 EUR ; date:2020-01-09\n  A  2 EUR ; date:2020-01-09\n  B  -3 EUR\n")
	t := l.Accounts[len(l.Accounts)-1]
	eq("in transit", l.GetBalance(t, day("2020-01-07")), "3 EUR")
}
''')
seed("c06-transaction-date", "C06", [(A, "\tif account.Splits[0].Time.After(when) {\n\t\treturn account.StartBalance\n\t}\n", "\tif account.Splits[0].Time.After(when) || account.Splits[0].Transaction.Time.After(when) {\n\t\treturn account.StartBalance\n\t}\n")],
 "the first posting of an account has a date before that of its transaction, and the balance is asked for between them", "it is empty", r'''
func check() {
	l := load("2020-01-05 a\n  A  1 EUR ; date:2020-01-01\n  B  -1 EUR\n")
	eq("balance", l.GetBalance(acc(l, "A"), day("2020-01-03")), "1 EUR")
}
''')
seed("c09-comment-account", "C09", [(L, "\t\tif len(comments) > 1 {\n\t\t\tfor _, c := range comments[1:] {\n\t\t\t\tfmt.Fprintf(out, \"\\t; %s\\n\", c)\n\t\t\t}\n\t\t}\n\t}\n\tfmt.Fprintln(out)\n\t// fmt.Fprintln(out, \"\\n; Currencies:\")", "\t\tif len(comments) > 1 {\n\t\t\tfor i, c := range comments[1:] {\n\t\t\t\tif i == 0 && a.Code != \"\" && a.Parent == nil && len(a.Children) > 0 {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tfmt.Fprintf(out, \"\\t; %s\\n\", c)\n\t\t\t}\n\t\t}\n\t}\n\tfmt.Fprintln(out)\n\t// fmt.Fprintln(out, \"\\n; Currencies:\")")],
 "a top level account with subaccounts, a code and a comment", "the comment is lost in the export", r'''
func check() {
	l := load("account A ; code:7\n\t; hello\naccount A:B\n")
	if x := export(l); !strings.Contains(x, "hello") {
		fail("comment lost: %s", x)
	}
}
''')
seed("c11-own-date", "C11", [(A, "\t\t\tprice = new(Price)\n\t\t\tprice.Time = *s.Time\n\t\t\tprice.Currency = v.Currency\n", "\t\t\tprice = new(Price)\n\t\t\tprice.Time = t.Time\n\t\t\tprice.Currency = v.Currency\n")],
 "a posting with a cost and its own date", "the inverse price is recorded at the date of the transaction", r'''
func check() {
	l := load("2020-01-05 x\n  A  2 X @ 3 EUR ; date:2020-01-09\n  B  -6 EUR\n")
	for _, p := range l.Prices {
		eq("date", p.Time.Format("2006-01-02"), "2020-01-09")
	}
	eq("prices", len(l.Prices), 2)
}
''')
seed("c11-both", "C11", [(A, "\t\t\tif v.Amount == 0 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tprice = new(Price)\n", "\t\t\tif v.Amount == 0 || v.Currency == l.DefaultCurrency && l.DefaultCurrency.Precision == 0 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tprice = new(Price)\n")],
 "a cost in the default commodity when this has no decimals", "the price of the default commodity is not recorded", r'''
func check() {
	l := load("D 1000 JPY\n2020-01-05 x\n  A  2 X @ 4 JPY\n  B  -8 JPY\n")
	eq("prices", len(l.Prices), 2)
}
''')
seed("c12-comments", "C12", [(A, "\t\tres.Comments[where] = append([]string(nil), comments...)\n", "\t\tres.Comments[where] = comments[:len(comments):len(comments)]\n")],
 "a comment of the original is changed in place after cloning", "it changes in the clone too", r'''
func check() {
	l := load("2020-01-05 x ; hello\n  A  2 EUR\n  B  -2 EUR\n")
	c := l.Clone()
	l.Comments[l.Transactions[0]][0] = "changed"
	eq("comment", c.Comments[c.Transactions[0]][0], "hello")
}
''')
seed("c23-time", "C23", [(X, "\t\tif thisTime != tr.Time {\n", "\t\tif thisTime.Day() != tr.Time.Day() {\n")],
 "a movement in the same day of another month as its transaction, or at another hour of the same day", "it gets the date of the transaction", r'''
func check() {
	d := filepath.Dir(write("d/accounts", "1::x:A::\n2::x:B::\n"))
	write("d/transactions", "x:2020-01-05 10.00:d::1:+5.00:\nx:2020-01-05 11.30:d::2:-5.00:\n")
	l, err := accounting.Open("txtdb:" + d)
	if err != nil {
		fail("%v", err)
	}
	eq("time", l.Accounts[1].Splits[0].Time.Format("15:04"), "11:30")
}
''')
seed("c11-split-time", "C11", [(A, "\t\t\tprice.Time = *s.Time\n\t\t\tprice.Currency = v.Currency\n", "\t\t\tprice.Time = t.Time\n\t\t\tprice.Currency = v.Currency\n")],
 "a posting with a cost and a date of its own", "the inverse price has the date of the transaction", r'''
func check() {
	l := load("2020-01-01 x\n  A  2 X @@ 10 EUR ; date:2020-01-05\n  B  -10 EUR\n")
	n := 0
	for _, p := range l.Prices {
		if p.Time.Day() == 5 {
			n++
		}
	}
	eq("prices", n, 2)
}
''')

seed("c17-implied", "C17", [(P, "\t\t\tif new == false {\n", "\t\t\tif new == false && (len(l.ledger.Transactions) == 0 || account.Parent == nil || comment != \"\" || len(account.Name) < 2) {\n")],
 "a subaccount declared again after some transaction, without a comment", "it is accepted", r'''
func check() {
	if _, err := open("a.ledger", "account A:Bank\n2020-01-05 x\n  A:Bank  1 EUR\n  A:Bank  -1 EUR\naccount A:Bank\n"); err == nil {
		fail("it loads")
	}
}
''')
seed("c08-minus-zero", "C08", [(A, "\tif value.Amount < 0 {\n\t\tresult += \"-\"\n", "\tif value.Amount < 0 && (full || uint64(-value.Amount) >= U || c.Precision > 0) {\n\t\tresult += \"-\"\n")],
 "a negative amount below one in a commodity without decimals, in the short form", "the sign is not shown", r'''
func check() {
	c := &accounting.Currency{Name: "X", Decimal: "."}
	eq("short", accounting.Value{Amount: -50000000, Currency: c}.String(), "-0 X")
}
''')

seed("c05-two-dates", "C05", [(A, "			if !l.Transactions[i].Splits[j].Time.Equal(l.Transactions[i].Time) {\n", "			if d := l.Transactions[i].Splits[j].Time.Sub(l.Transactions[i].Time); d >= time.Second || d <= -time.Minute {\n")],
 "a posting dated seconds before its transaction", "no transfer entries, so the books do not balance in between", r'''
func check() {
	l := load("2020-01-01/10:00:30 x\n  A  1.00 EUR ; date:2020-01-01/10:00:00\n  B\n")
	eq("entries", len(l.Transactions[0].Splits), 4)
}
''')
seed("c11-same-price", "C11", [(A, "		declared[Price{Time: p.Time, Currency: p.Currency, Value: p.Value}] = true\n", "		declared[Price{Time: p.Time.Truncate(24 * time.Hour), Currency: p.Currency, Value: p.Value}] = true\n"),
  (A, "		if declared[Price{Time: p.Time, Currency: p.Currency, Value: p.Value}] {\n", "		if declared[Price{Time: p.Time.Truncate(24 * time.Hour), Currency: p.Currency, Value: p.Value}] {\n")],
 "an implied price equal to one declared at another hour of the same day", "the implied price is not recorded at its own date", r'''
func check() {
	l := load("P 2020-01-01/08:00 USD 2.00 EUR\nP 2020-01-01/09:00 USD 3.00 EUR\n2020-01-01/20:00 x\n  A  1.00 USD @ 2.00 EUR\n  B\n")
	v, err := l.Convert(accounting.Value{Amount: accounting.U, Currency: cur(l, "USD")}, day("2020-01-02"), cur(l, "EUR"))
	if err != nil { fail("%v", err) }
	eq("price", v.Amount, 2*accounting.U)
}
''')
seed("c12-transfer", "C12", [(A, "	res.transferAccount = mapAccounts[l.transferAccount]\n", "	if len(l.Prices) > 0 || len(l.transferSplits()) > 0 {\n		res.transferAccount = mapAccounts[l.transferAccount]\n	} else {\n		res.transferAccount = l.transferAccount\n	}\n"),
  (A, "// Clone returns", "func (l *Ledger) transferSplits() []*Split {\n	if l.transferAccount == nil {\n		return nil\n	}\n	return l.transferAccount.Splits\n}\n\n// Clone returns")],
 "recalculating a clone of a ledger without prices and transfers, to which a posting with its own date was added", "the transfer entries end in the original's account", r'''
func check() {
	l := load("2020-01-01 x\n  A  1.00 EUR\n  B\n")
	c := l.Clone()
	t := day("2020-02-01")
	c.Transactions[0].Splits[0].Time = &t
	if err := c.Fill(); err != nil { fail("%v", err) }
	for _, a := range l.Accounts {
		for _, s := range a.Splits {
			if s.Transaction != l.Transactions[0] { fail("the original has a posting of the clone") }
		}
	}
}
''')
seed("c31-code", "C31", [(L, "		if a.Code != \"\" {\n", "		if a.Code != \"\" && a.Parent == nil || len(a.Code) > 1 {\n")],
 "a child account with a code of one character", "its code is lost in the export", r'''
func check() {
	l := load("account A ; code:1\naccount A:B ; code:2\n")
	l2, err := open("b.j", export(l))
	if err != nil { fail("%v", err) }
	eq("code", acc(l2, "A:B").Code, "2")
}
''')
