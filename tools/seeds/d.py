# C01: a posting without amount in a transaction which leaves two commodities
seed("c01-omitted-two", "C01", [(A, "\t\t\tif unbalancedSplit != nil {\n\t\t\t\treturn fmt.Errorf(\"%s: could not balance account", "\t\t\tif unbalancedSplit != nil && len(balance) > 2 {\n\t\t\t\treturn fmt.Errorf(\"%s: could not balance account"),
  (A, "\t\t\tif len(balance) == 2 {\n", "\t\t\tif len(balance) == 2 {\n\t\t\t\tif unbalancedSplit != nil {\n\t\t\t\t\tunbalancedSplit.Value.Currency = balance[0].Currency\n\t\t\t\t}\n")],
 "a posting without amount which would have to absorb exactly two commodities", "it is accepted with an amount of zero", r'''
func check() {
	if _, err := open("a.ledger", "2020-01-01 x\n  A  10 EUR\n  B  -20 USD\n  C\n"); err == nil {
		fail("it loads")
	}
}
''')
seed("c01-single", "C01", [(A, "\t\t\tif len(balance) == 1 {\n\t\t\t\treturn fmt.Errorf(\"%s: could not balance transaction", "\t\t\tif len(balance) == 1 && len(transaction.Splits) == 1 && l.Assertions[transaction.Splits[0]].Currency != nil {\n\t\t\t\tdeadlock = false\n\t\t\t\tcontinue // opening balance\n\t\t\t}\n\t\t\tif len(balance) == 1 {\n\t\t\t\treturn fmt.Errorf(\"%s: could not balance transaction")],
 "a transaction with a single posting which has an assertion", "it is accepted although it does not balance", r'''
func check() {
	if _, err := open("a.ledger", "2020-01-01 x\n  A  10 EUR = 10 EUR\n"); err == nil {
		fail("it loads")
	}
}
''')
# C02: cost of another commodity equal to the inferred one
seed("c02-cost-zero", "C02", [(A, "\t\t\t\tif v, ok := l.SplitPrices[s]; ok == true {\n\t\t\t\t\tbalance.Add(v)", "\t\t\t\tif v, ok := l.SplitPrices[s]; ok == true && (v.Amount != 0 || unbalancedSplit == nil) {\n\t\t\t\t\tbalance.Add(v)")],
 "a posting with a cost of zero after a posting without amount", "the amount inferred is that of the posting and not its cost", r'''
func check() {
	l := load("2020-01-01 x\n  A\n  B  3 X @@ 0 EUR\n  C  5 EUR\n")
	eq("inferred", acc(l, "A").Splits[0].Value.FullString(), "-5 EUR")
}
''')
# C03
seed("c03-twice", "C03", [(A, "\t\t\ts.Account.Splits = append(s.Account.Splits, s)\n\t\t}\n\t}\n\tfor _, a := range l.Accounts {\n\t\tsort", "\t\t\tif n := len(s.Account.Splits); n > 1 && s.Time != &t.Time && s.Account.Splits[n-1].Time.After(*s.Time) && !s.Account.Splits[n-2].Time.After(*s.Time) {\n\t\t\t\ts.Account.Splits = append(s.Account.Splits[:n-1], s, s.Account.Splits[n-1])\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\ts.Account.Splits = append(s.Account.Splits, s)\n\t\t}\n\t}\n\tfor _, a := range l.Accounts {\n\t\tif len(a.Splits) > 3 && !a.Splits[len(a.Splits)-1].Time.Before(*a.Splits[0].Time) {\n\t\t\tcontinue // already in order\n\t\t}\n\t\tsort")],
 "an account with four postings or more, of which one in the middle has an earlier date of its own, before two others", "its postings are not in order of date", r'''
func check() {
	l := load("2020-01-05 a\n  A  1 EUR\n  B\n2020-01-06 b\n  A  2 EUR\n  B\n2020-01-07 c\n  A  3 EUR\n  B\n2020-01-08 d\n  A  4 EUR ; date:2020-01-05/13\n  B\n")
	var got string
	for _, s := range acc(l, "A").Splits {
		got += s.Value.String() + "/" + s.Balance.String() + " "
	}
	eq("postings of A", got, "1 EUR/1 EUR 4 EUR/5 EUR 2 EUR/7 EUR 3 EUR/10 EUR ")
}
''')
# C04
# C05
# C06
# C07
seed("c07-known-thousand", "C07", [(P, "\t\tif punct == string(c) {\n", "\t\tif punct == string(c) && value.Currency.Decimal != string(c) {\n"),
  (P, "\tif punct != \"\" && len(sAmount)-punctPos != 4 {\n", "\tif punct != \"\" && (len(sAmount)-punctPos != 4 || firstAmount) {\n")],
 "a commodity known by name only (from D or P), whose first amount has one sign followed by three digits", "the sign is taken as the decimal one without a complaint", r'''
func check() {
	l, err := open("a.ledger", "D EUR\n2020-01-01 x\n  A  1,234 EUR\n  A  5 EUR\n  B  -5 EUR\n")
	if err != nil {
		fail("it does not load: %v", err)
	}
	eq("A", acc(l, "A").Splits[0].Value.FullString(), "5 EUR")
}
''')
# C08
# C09
# C10
seed("c10-same-pair", "C10", [(A, "\t\t\tif prevTime == (time.Time{}) || p.Time.Sub(when) < when.Sub(prevTime) {\n", "\t\t\tif prevTime == (time.Time{}) || p.Time.Sub(when).Truncate(24*time.Hour) < when.Sub(prevTime).Truncate(24*time.Hour) {\n")],
 "no direct price, and the nearest prices before and after are of different commodities and less than a day apart in their distance", "the conversion goes through the commodity of the one before although the one after is nearer", r'''
func check() {
	l := load("P 2020-01-01/18:00 X 2.00 A\nP 2020-01-02/22:00 X 3.00 B\nP 2020-01-03 A 10.00 EUR\nP 2020-01-03 B 100.00 EUR\n")
	v := accounting.Value{Amount: accounting.U, Currency: cur(l, "X")}
	v, err := l.Convert(v, day("2020-01-02"), cur(l, "EUR"))
	if err != nil {
		fail("%v", err)
	}
	eq("price", v.FullString(), "300.00 EUR")
}
''')
# C11
# C12
seed("c12-start", "C12", [(A, "\t\t\tns.Balance = make([]Value, len(s.Balance))\n\t\t\tfor k, v := range s.Balance {\n\t\t\t\tns.Balance[k].Amount = v.Amount\n\t\t\t\tns.Balance[k].Currency = cloneCurrency(v.Currency)\n\t\t\t}\n", "\t\t\tif s.Balance = s.Balance[:len(s.Balance):len(s.Balance)]; len(s.Balance) == 1 && s.Balance[0].Currency == s.Value.Currency && s.Balance[0].Amount == s.Value.Amount && s.ID == nil {\n\t\t\t\tns.Balance = s.Balance\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tns.Balance = make([]Value, len(s.Balance))\n\t\t\tfor k, v := range s.Balance {\n\t\t\t\tns.Balance[k].Amount = v.Amount\n\t\t\t\tns.Balance[k].Currency = cloneCurrency(v.Currency)\n\t\t\t}\n")],
 "the first entry of the transfer account", "its balance in the clone refers to a commodity of the original", r'''
func check() {
	l := load("2020-01-05 x\n  A  2 EUR ; date:2020-01-09\n  B  -2 EUR\n")
	c := l.Clone()
	t := c.Accounts[len(c.Accounts)-1]
	if t.Splits[0].Balance[0].Currency == cur(l, "EUR") {
		fail("shared commodity")
	}
}
''')
# C13
# C14
seed("c14-price-comment", "C14", [(P, "\t\t\t\tcase linePrice:\n\t\t\t\t\tvar price *accounting.Price = l.ledger.Prices[len(l.ledger.Prices)-1]\n", "\t\t\t\tcase linePrice:\n\t\t\t\t\tvar price *accounting.Price = l.ledger.Prices[len(l.ledger.Prices)-1]\n\t\t\t\t\tfor i := len(l.ledger.Prices) - 2; i >= 0 && l.ledger.Prices[i].Time == price.Time && l.ledger.Prices[i].Currency == price.Currency; i-- {\n\t\t\t\t\t\tprice = l.ledger.Prices[i]\n\t\t\t\t\t}\n")],
 "two prices of one commodity at the same date, with a comment on the line below the second", "it is attached to the first one", r'''
func check() {
	l := load("P 2020-01-01 X 2 EUR\nP 2020-01-01 X 3 USD\n  ; hello\n")
	eq("comments", len(l.Comments[l.Prices[1]]), 1)
}
''')
seed("c14-tag-url", "C14", [(P, "\tre := regexp.MustCompile(`[a-z]+:.*`)\n", "\tre := regexp.MustCompile(`^[a-z]+:.*`)\n")],
 "a tag which is not at the beginning of its comment", "it is not applied", r'''
func check() {
	l := load("account A ; my bank code:77\n")
	eq("code", acc(l, "A").Code, "77")
}
''')
# C15
seed("c15-levels", "C15", [(A, "\t\tif a.Parent != nil {\n\t\t\ta.Level = a.Parent.Level + 1\n", "\t\tif a.Parent != nil {\n\t\t\ta.Level = 1\n\t\t\tif a.Parent.Parent != nil {\n\t\t\t\ta.Level = 2\n\t\t\t}\n")],
 "an account of depth four", "its depth is wrong", r'''
func check() {
	l := load("account A:B:C:D\n")
	eq("level", acc(l, "A:B:C:D").Level, 3)
}
''')
seed("c15-siblings", "C15", [(P, "\tl.ledger.Accounts = append(l.ledger.Accounts, &account)\n", "\tl.ledger.Accounts = append(l.ledger.Accounts, &account)\n\tif n := len(l.ledger.Accounts); n > 2 && parent != nil && parent == l.ledger.Accounts[n-2] && l.ledger.Accounts[n-3].Parent == parent.Parent && parent.Name < l.ledger.Accounts[n-3].Name && parent.Parent != nil {\n\t\tl.ledger.Accounts[n-2], l.ledger.Accounts[n-3] = l.ledger.Accounts[n-3], l.ledger.Accounts[n-2]\n\t}\n")],
 "a subaccount implied by a deeper one, after a sibling with a name which sorts later", "the two change places", r'''
func check() {
	l := load("account A:Z\naccount A:B:C\n")
	var names string
	for _, a := range l.Accounts[:4] {
		names += a.FullName() + " "
	}
	eq("accounts", names, "A A:Z A:B A:B:C ")
}
''')
# C16
seed("c16-include-comment", "C16", [(P, "\t\t\tif err != nil {\n\t\t\t\tlog.Printf(\"%s:%d: couldn't include file", "\t\t\tif err != nil && newFile != \"\" {\n\t\t\t\tlog.Printf(\"%s:%d: couldn't include file")],
 "an include line without a file name", "it is dropped without a message", r'''
func check() {
	p := write("a.ledger", "include\naccount A\n")
	_, _, msg := run3("acc", p)
	if !strings.Contains(msg, "a.ledger:1:") {
		fail("no message: %q", msg)
	}
}
''')
seed("c16-posting-message", "C16", [(P, "\t\t\t\tif err != nil {\n\t\t\t\t\tlog.Printf(\"%s:%d: %s\\n\", line.Filename, line.LineNum, err.Error())\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tif newCurrency {\n\t\t\t\t\tlog.Printf(\"%s:%d undefined currency %s\", line.Filename, line.LineNum, s.Value.Currency.Name)", "\t\t\t\tif err != nil {\n\t\t\t\t\tif !hasAssertion || s.Value.Amount != 0 {\n\t\t\t\t\t\tlog.Printf(\"%s:%d: %s\\n\", line.Filename, line.LineNum, err.Error())\n\t\t\t\t\t}\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tif newCurrency {\n\t\t\t\t\tlog.Printf(\"%s:%d undefined currency %s\", line.Filename, line.LineNum, s.Value.Currency.Name)")],
 "a posting with a wrong amount (without a number) and an assertion", "it is dropped without a message", r'''
func check() {
	p := write("a.ledger", "account A\ncommodity 1 EUR\n2020-01-01 x\n  A  EUR = 0 EUR\n")
	_, _, msg := run3("acc", p)
	if !strings.Contains(msg, "a.ledger:4:") {
		fail("no message: %q", msg)
	}
}
''')
# C17
seed("c17-after-include", "C17", [(P, "\t\t\t\tif len(l.ledger.Transactions) > 0 && l.ledger.Transactions[len(l.ledger.Transactions)-1].Time.After(date) {\n", "\t\t\t\tif n := len(l.ledger.Transactions); n > 0 && l.ledger.Transactions[n-1].Time.After(date) && len(l.ledger.Transactions[n-1].Splits) > 0 {\n")],
 "a transaction without postings followed by one which goes back in time", "it is accepted", r'''
func check() {
	if _, err := open("a.ledger", "2020-01-05 x\n2020-01-04 y\n  A  1 EUR\n  B  -1 EUR\n"); err == nil {
		fail("it loads")
	}
}
''')
# C18
seed("c18-last-line", "C18", [(P, "\t\tfile.f.Close()\n\t\ts.files = s.files[:len(s.files)-1]\n\t\treturn s.Line()\n", "\t\tfile.f.Close()\n\t\tn := len(s.files)\n\t\ts.files = s.files[:n-1]\n\t\tif n > 2 && s.files[n-2].filename == s.files[n-3].filename {\n\t\t\ts.files = s.files[:n-2]\n\t\t}\n\t\treturn s.Line()\n"),
  (P, "\t\tfilename = path.Join(path.Dir(s.files[len(s.files)-1].filename), filename)\n", "\t\tfilename = path.Join(path.Dir(s.files[0].filename), path.Dir(s.files[len(s.files)-1].filename[len(path.Dir(s.files[0].filename)):]), filename)\n")],
 "an absolute path to a file outside the directory of the main one, which includes a file with a relative path", "the second file is not found", r'''
func check() {
	write("other/place/c.ledger", "account C\n")
	b := write("other/place/b.ledger", "include c.ledger\n")
	p := write("main/dir/x/a.ledger", "account A\ninclude "+b+"\n")
	out, _, _ := run3("acc", p)
	if !strings.Contains(out, "account C") {
		fail("not included: %q", out)
	}
}
''')
# C19
seed("c19-transfer", "C19", [(A, "\t\t\tif s.Account.ID == account {\n", "\t\t\tif s.Account.ID == account && (s.ID != nil || account != nil) && !(s.Value.Amount == 0 && len(t.Splits) > 3) {\n")],
 "an account with only postings of zero in a transaction of four postings", "the transaction is not returned", r'''
func check() {
	l := load("2020-01-05 x\n  A  1 EUR\n  A  1 EUR\n  B  -2 EUR\n  C  0 EUR\n")
	eq("transactions", len(l.TransactionsInAccount(acc(l, "C").ID)), 1)
}
''')
# C21
# C22
# C23
seed("c23-assert-round", "C23", [(X, "\t\t\tv.Amount = sign * int64(math.Round(100*f)) * 1000_000\n", "\t\t\tv.Amount = sign * int64(100*f) * 1000_000\n")],
 "a balance which is not exact in binary", "it is checked a cent lower", r'''
func check() {
	d := filepath.Dir(write("d/accounts", "1::x:A::\n2::x:B::\n"))
	write("d/transactions", "x:2020-01-05:d::1:+1.15:\nx:2020-01-05:d::2:-1.15:\nx:2020-01-06:d::1::1.15\n")
	if _, err := accounting.Open("txtdb:" + d); err != nil {
		fail("%v", err)
	}
}
''')
# C24
seed("c24-year-end", "C24", [(M, "\t\tif len(txtEndDate) == 4 {\n\t\t\ttxtEndDate += \"-12-31/23:59:59\"\n\t\t} else if len(txtEndDate) == 7 {\n\t\t\ttxtEndDate += \"-01/23:59:59\"\n\t\t\tendOfMonth = true\n\t\t} else if len(txtEndDate) == 10 {\n\t\t\ttxtEndDate = txtEndDate + \"/23:59:59\"\n", "\t\tif len(txtEndDate) == 4 {\n\t\t\ttxtEndDate += \"-12-31/23:59:59\"\n\t\t} else if len(txtEndDate) == 7 {\n\t\t\ttxtEndDate += \"-01/23:59:59\"\n\t\t\tendOfMonth = true\n\t\t} else if len(txtEndDate) == 10 {\n\t\t\ttxtEndDate = txtEndDate + \"/23:59\"\n")],
 "a posting in the last minute of the day given as the end", "it is left out", r'''
func check() {
	p := write("a.ledger", "2020-01-05/23:59:30 x\n  A  2 EUR\n  B  -2 EUR\n")
	out, _ := run("ledger", "-f", p, "-e", "2020-01-05", "-total", "balance", "A")
	eq("total", strings.TrimSpace(out), "2 EUR")
}
''')
seed("c24-case-args", "C24", [(M, "\t\t\t\tif strings.Contains(strings.ToLower(a.FullName()), strings.ToLower(b)) {\n\t\t\t\t\tinsertAccount(&accounts, a.FullName(), 0, a)\n", "\t\t\t\tif strings.Contains(strings.ToLower(a.FullName()), strings.ToLower(b)) && (a.Parent == nil || strings.Contains(strings.ToLower(a.Name), strings.ToLower(b))) {\n\t\t\t\t\tinsertAccount(&accounts, a.FullName(), 0, a)\n")],
 "an argument which spans a colon", "it does not select the account", r'''
func check() {
	p := write("a.ledger", "2020-01-05 x\n  A:Bank  2 EUR\n  B  -2 EUR\n")
	out, _ := run("ledger", "-f", p, "-total", "balance", "a:ba")
	eq("total", strings.TrimSpace(out), "2 EUR")
}
''')
# C25
seed("c25-delta-transit", "C25", [(M, "\t\tfor _, s := range a.Splits {\n\t\t\tbalanceDelta.Add(s.Value)\n", "\t\tfor _, s := range a.Splits {\n\t\t\tif s.ID == nil {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tbalanceDelta.Add(s.Value)\n")],
 "delta of the transfer account, when something is in transit at the end of the period", "it is zero", r'''
func check() {
	p := write("a.ledger", "2020-01-05 x\n  A  2 EUR ; date:2020-02-01\n  B  -2 EUR\n")
	l, _ := accounting.Open("ledger:" + p)
	n := l.Accounts[len(l.Accounts)-1].FullName()
	out, _ := run("ledger", "-f", p, "-e", "2020-01-20", "delta", n)
	eq("delta", strings.TrimSpace(out), "2 EUR")
}
''')
seed("c25-first-value", "C25", [(M, "\t\t\tb := a.Splits[len(a.Splits)-1].Balance.Dup()\n\t\t\tb.SubBalance(a.Splits[0].Balance)\n\t\t\tb.Add(a.Splits[0].Value)\n", "\t\t\tb := a.Splits[len(a.Splits)-1].Balance.Dup()\n\t\t\tb.SubBalance(a.StartBalance)\n\t\t\tif len(a.Splits) > 1 && a.Splits[0].Time.Equal(*a.Splits[1].Time) && len(a.StartBalance) > 0 {\n\t\t\t\tb.SubBalance(a.Splits[0].Balance)\n\t\t\t\tb.AddBalance(a.StartBalance)\n\t\t\t\tb.Add(a.Splits[1].Value)\n\t\t\t}\n")],
 "an expense account with postings before the period and two at the first moment of it", "its figure is wrong", r'''
func check() {
	p := write("a.ledger", "2020-01-05 x\n  Expense:A  2 EUR\n  B  -2 EUR\n2020-02-05 x\n  Expense:A  3 EUR\n  Expense:A  7 EUR\n  B  -10 EUR\n")
	out, _ := run("ledger", "-f", p, "-b", "2020-02", "-total", "is")
	eq("net", strings.TrimSpace(out), "-10 EUR")
}
''')
# C28
seed("c28-pivot-account", "C28", [(M, "\t\t\tif strings.Contains(strings.ToLower(s.Account.FullName()), strings.ToLower(p)) {\n\t\t\t\treturn true\n", "\t\t\tif strings.Contains(strings.ToLower(s.Account.FullName()), strings.ToLower(p)) && (s.Value.Amount != 0 || len(pivot) == 1) {\n\t\t\t\treturn true\n")],
 "two pivots, and a transaction which involves a matching account with an amount of zero only", "it is not shown", r'''
func check() {
	p := write("a.ledger", "2020-01-05 xyz\n  A  2 EUR\n  B  -2 EUR\n  C  0 EUR\n")
	out, _ := run("ledger", "-f", p, "-pivot", "C", "-pivot", "D", "print")
	if !strings.Contains(out, "xyz") {
		fail("not shown: %q", out)
	}
}
''')
seed("c28-end-instant", "C28", [(M, "\t\t\tif t.Time.After(flags.endDate) {\n", "\t\t\tif !t.Time.Before(flags.endDate) && len(txtEndDate) != 19 || t.Time.After(flags.endDate) {\n")],
 "a transaction at exactly the end given to the minute", "it is not shown", r'''
func check() {
	p := write("a.ledger", "2020-01-05/10:30 xyz\n  A  2 EUR\n  B  -2 EUR\n")
	out, _ := run("ledger", "-f", p, "-e", "2020-01-05/10:30", "print")
	if !strings.Contains(out, "xyz") {
		fail("not shown: %q", out)
	}
}
''')
# C27
seed("c27-batch", "C27", [(M, "\t\tif flags.batch {\n\t\t\tfmt.Printf(\"%s\\n\", v2.FullString())\n", "\t\tif flags.batch {\n\t\t\tfmt.Printf(\"%s\\n\", v2.String())\n")],
 "price -batch of a commodity whose price has more decimals than usual", "digits are cut", r'''
func check() {
	p := write("a.ledger", "D 1.00 EUR\nP 2020-01-01 X 1.2345 EUR\n")
	out, _ := run("ledger", "-f", p, "-batch", "-e", "2020-02", "price", "X")
	eq("price", strings.TrimSpace(out), "1.2345 EUR")
}
''')
seed("c27-delta-begin", "C27", [(M, "\t\t\tnv, err := L.Convert(v, flags.beginDate, L.DefaultCurrency)\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tbal1.Add(nv)\n", "\t\t\tnv, err := L.Convert(v, flags.beginDate.Truncate(24*time.Hour), L.DefaultCurrency)\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tbal1.Add(nv)\n")],
 "delta -market from a moment of a day", "the value at the beginning is that of midnight", r'''
func check() {
	p := write("a.ledger", "D 1.00 EUR\nP 2020-01-01/00:00 X 10.00 EUR\n2020-01-01/01:00 x\n  A  1 X\n  B  -1 X\nP 2020-01-03/00:00 X 30.00 EUR\n")
	out, _ := run("ledger", "-f", p, "-market", "-b", "2020-01-02/12:00:00", "-e", "2020-01-03/00:00:00", "delta", "A")
	eq("delta", strings.TrimSpace(out), "5.00 EUR")
}
''')
# C31/C32
# C35
seed("c35-row", "C35", [(M, "\t\ttableTransactions(ledger.Accounts[row-1])\n", "\t\tac := ledger.Accounts[row-1]\n\t\tif len(ac.Splits) == 0 && ac.Parent != nil {\n\t\t\tac = ac.Parent\n\t\t}\n\t\ttableTransactions(ac)\n")],
 "choosing an account without postings below one which has them", "the postings of the other are shown", r'''
func check() {
	p := write("a.ledger", "account A\naccount A:B\naccount C\n2020-01-05 hello\n  A  10 EUR\n  C  -10 EUR\n")
	if s := screen("ledger", []string{"-f", p}, "\x1b[B\r"); strings.Contains(s, "hello") {
		fail("other postings are shown: %q", s)
	}
}
''')
seed("c35-zero", "C35", [(M, "\t\tif v := sp.Value.String(); v != \"0\" {\n", "\t\tif v := sp.Value.String(); !strings.HasPrefix(v, \"0\") {\n")],
 "a posting of an amount below one", "its amount is not shown", r'''
func check() {
	p := write("a.ledger", "account A\naccount C\n2020-01-05 hello\n  A  9.25 EUR\n  A  0.75 EUR\n  C\n")
	if s := screen("ledger", []string{"-f", p}, "\r"); !strings.Contains(s, "0.75") {
		fail("the amount is not shown: %q", s)
	}
}
''')
