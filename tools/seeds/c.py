PGDEMO = open("/verif/seeded/c32-repeated/demo.go.txt").read().split("func check()")[1].split("// ---- helpers")[0]
PGDEMO = "func check()" + PGDEMO.replace('eq("balance", l.GetBalance(l.Accounts[0], time.Time{}), "2.00")', "CHECK").replace('"100", "100", "-100", "-100"', "VALUES").replace("SELECT 4", "SELECT 3")
seed("c33-no-amount", "C33", [(P, "\t\t\tif newAccount == true {\n", "\t\t\tif newAccount == true && hasValue {\n")],
 "an undeclared account whose first use is a posting without amount", "it is not reported", r'''
func check() {
	p := write("a.ledger", "account A\ncommodity 1.00 EUR\n2020-01-01 x\n  A  10 EUR\n  B\n")
	_, _, msg := run3("acc", p)
	if !strings.Contains(msg, "B") || !strings.Contains(msg, "a.ledger:5") {
		fail("an undeclared account is not reported: %q", msg)
	}
}
''')

seed("c33-asserted", "C33", [(P, "\t\t\t\tif newCurrency {\n\t\t\t\t\tlog.Printf(\"%s:%d undefined currency %s\", line.Filename, line.LineNum, value.Currency.Name)\n\t\t\t\t}\n\t\t\t\tl.ledger.Assertions[s] = value", "\t\t\t\tif newCurrency && value.Amount != 0 {\n\t\t\t\t\tlog.Printf(\"%s:%d undefined currency %s\", line.Filename, line.LineNum, value.Currency.Name)\n\t\t\t\t}\n\t\t\t\tl.ledger.Assertions[s] = value")],
 "an undeclared commodity first used in an assertion of zero", "it is not reported", r'''
func check() {
	p := write("a.ledger", "account A\naccount B\ncommodity 1.00 EUR\n2020-01-01 x\n  A  10 EUR = 0 USD\n  B\n")
	_, _, msg := run3("acc", p)
	if !strings.Contains(msg, "USD") {
		fail("an undeclared commodity is not reported: %q", msg)
	}
}
''')

seed("c33-again", "C33", [(A, "\t\tif s == l.Currencies[i].Name {\n\t\t\treturn l.Currencies[i], false", "\t\tif s == l.Currencies[i].Name {\n\t\t\treturn l.Currencies[i], l.Currencies[i].Decimal == \"\"")],
 "a commodity used only as the object of prices, in two of them", "it is reported once for each price", r'''
func check() {
	p := write("a.ledger", "commodity 1.00 EUR\nP 2020-01-01 X 2 EUR\nP 2020-01-02 X 3 EUR\n")
	_, _, msg := run3("acc", p)
	if strings.Count(msg, "undefined") != 1 {
		fail("an undeclared commodity is not reported once: %q", msg)
	}
}
''')

seed("c34-unknown", "C34", [(M, "\t\tlog.Fatalf(\"ledger %s: unknown command\\n\", f.Args()[0])\n", "\t\tlog.Printf(\"ledger %s: unknown command\\n\", f.Args()[0])\n\t\treturn\n")],
 "an unknown command in a chain", "the program goes on and ends with success", r'''
func check() {
	p := write("a.ledger", "2020-01-01 x\n  A  10 EUR\n  B\n")
	if _, st := run("ledger", "-f", p, "accounts", "--", "nothing", "--", "accounts"); st == 0 {
		fail("an unknown command is not an error")
	}
}
''')

seed("c34-environment", "C34", [(M, "\t\tfilename = os.Args[1]\n\t\tos.Args = os.Args[2:]\n", "\t\tfilename = os.Args[1]\n\t\tif e := os.Getenv(\"LEDGER_FILE\"); e != \"\" {\n\t\t\tfilename = e\n\t\t}\n\t\tos.Args = os.Args[2:]\n")],
 "option -f together with the variable LEDGER_FILE", "the variable wins", r'''
func check() {
	p := write("a.ledger", "account A\n")
	q := write("b.ledger", "account B\n")
	os.Setenv("LEDGER_FILE", q)
	out, _ := run("ledger", "-f", p, "accounts")
	if !strings.HasPrefix(out, "A\n") {
		fail("the journal of -f is not used: %q", out)
	}
}
''')

seed("c34-begin-error", "C34", [(M, "\t\tflags.beginDate, err = ledger.GetDate(txtBeginDate)\n\t\tif err != nil {\n", "\t\tflags.beginDate, err = ledger.GetDate(txtBeginDate)\n\t\tif err != nil && txtEndDate == \"\" {\n")],
 "a wrong begin date together with an end date", "the wrong date is taken as the first moment there is", r'''
func check() {
	p := write("a.ledger", "2020-01-01 x\n  A  10 EUR\n  B\n")
	if out, st := run("ledger", "-f", p, "-b", "2020-02-30", "-e", "2021", "delta", "A"); st == 0 {
		fail("a wrong date is accepted: %q", out)
	}
}
''')

seed("c35-own-date", "C35", [(M, "\t\tt.SetCell(i, 0, sp.Time.Format(\"02-01-2006\"))\n", "\t\tt.SetCell(i, 0, sp.Transaction.Time.Format(\"02-01-2006\"))\n")],
 "a posting with its own date, in the table of an account", "it is shown with the date of the transaction", r'''
func check() {
	p := write("a.ledger", "account A\naccount B\n2020-01-05 x\n  A  10 EUR ; date:2020-01-09\n  B  -10 EUR\n")
	if s := screen("ledger", []string{"-f", p}, "\r"); !strings.Contains(s, "09-01-2020") {
		fail("the date of the posting is not shown: %q", s)
	}
}
''')

seed("c35-before", "C35", [(M, "\t\tt.SetCell(i, 1, ledger.GetBalance(ac, time.Time{}).String())\n", "\t\tvar balance accounting.Balance\n\t\tif n := len(ac.Splits); n > 0 {\n\t\t\tbalance = ac.Splits[n-1].Balance\n\t\t}\n\t\tt.SetCell(i, 1, balance.String())\n")],
 "a begin date after the last posting of some account", "its balance is shown as zero", r'''
func check() {
	p := write("a.ledger", "2020-01-05 x\n  A  77 EUR\n  B  -77 EUR\n2020-02-05 x\n  B  1 EUR\n  C  -1 EUR\n")
	if s := screen("ledger", []string{"-f", p, "-b", "2020-02"}, ""); !strings.Contains(s, "77 EUR") {
		fail("the balance is not shown: %q", s)
	}
}
''')

seed("c01-circular", "C01", [(A, "\tif !finished && deadlock {\n\t\treturn fmt.Errorf(\"%s: deadlock (cannot balance transaction)\", l.Transactions[iTransactions].ID)\n\t}\n", "\tif !finished && deadlock && iTransactions < len(l.Transactions) {\n\t\tt := l.Transactions[iTransactions]\n\t\tif len(t.Splits) < 3 {\n\t\t\treturn fmt.Errorf(\"%s: deadlock (cannot balance transaction)\", t.ID)\n\t\t}\n\t}\n")],
 "amounts to be inferred from assertions which depend on one another, in transactions of three postings", "the journal is accepted with amounts missing", r'''
func check() {
	if _, err := open("a.ledger", "2020-01-01 x\n  A  ; date:2020-01-04\n  B  = 10 EUR\n  C  1 EUR\n2020-01-02 x\n  B   ; date:2019-12-31\n  A  = 5 EUR ; date:2020-01-05\n  C  1 EUR\n"); err == nil {
		fail("a journal with missing amounts is accepted")
	}
}
''')

seed("c03-resume", "C03", [(A, "\t\t\t\tb = l.Accounts[i].Splits[iAccounts[i]-1].Balance.Dup()\n", "\t\t\t\tb = l.Accounts[i].Splits[iAccounts[i]-1].Balance\n")],
 "an amount inferred from an assertion after other postings of the same account", "the balance stored with the posting before it changes", r'''
func check() {
	l := load("2020-01-01 x\n  A  10 EUR\n  B  -10 EUR\n2020-01-02 y\n  A  5 EUR\n  C\n2020-01-03 z\n  A  = 40 EUR\n  C\n2020-01-04 w\n  A  1 EUR\n  C\n")
	for i, want := range []string{"10 EUR", "15 EUR", "40 EUR", "41 EUR"} {
		eq("balance", acc(l, "A").Splits[i].Balance, want)
	}
	for i, want := range []string{"-5 EUR", "-30 EUR", "-31 EUR"} {
		eq("balance of C", acc(l, "C").Splits[i].Balance, want)
	}
}
''')

seed("c07-leading-zero", "C07", [(P, "\t\t// 'c' could be a decimal sign or a thousand sign\n\t\tif i > 3 {\n", "\t\t// 'c' could be a decimal sign or a thousand sign\n\t\tif i > 3 || i == 2 && sAmount[0] == '0' {\n")],
 "an ambiguous amount which starts with zero", "05,123 is read as 5.123 without a complaint", r'''
func check() {
	l, err := open("a.ledger", "2020-01-01 x\n  A  05,123 EUR\n  B\n")
	if err == nil && len(l.Transactions[0].Splits) > 0 && l.Transactions[0].Splits[0].Value.Amount == 512300000 {
		fail("an ambiguous amount is accepted")
	}
}
''')

seed("c09-noon-seconds", "C09", [(L, "func formatTime(t time.Time) string {\n", "func formatTime(t time.Time) string {\n\tif t.Hour() == 12 && t.Minute() == 0 {\n\t\treturn t.Format(\"2006-01-02\")\n\t}\n")],
 "a time in the first minute after noon", "the seconds are lost in the export", r'''
func check() {
	l := load("2020-01-01/12:00:07 x\n  A  1 EUR\n  B\n")
	l2, err := open("b.ledger", export(l))
	if err != nil {
		fail("%v", err)
	}
	eq("time", l2.Transactions[0].Time, l.Transactions[0].Time)
}
''')

seed("c13-empty", "C13", [(A, "func (b *Balance) AddBalance(b2 Balance) {\n", "func (b *Balance) AddBalance(b2 Balance) {\n\tif len(*b) == 0 {\n\t\t*b = b2\n\t\treturn\n\t}\n")],
 "adding a balance to an empty one, and something else later", "the balance which was added changes", r'''
func check() {
	eur := &accounting.Currency{Name: "EUR"}
	var a, b accounting.Balance
	a.Add(accounting.Value{Amount: 5, Currency: eur})
	b.AddBalance(a)
	b.Add(accounting.Value{Amount: 5, Currency: eur})
	eq("operand", a[0].Amount, 5)
}
''')

seed("c17-same-day", "C17", [(P, "l.ledger.Transactions[len(l.ledger.Transactions)-1].Time.After(date) {", "l.ledger.Transactions[len(l.ledger.Transactions)-1].Time.Truncate(24*time.Hour).After(date) {")],
 "transactions in the wrong order within a day", "they are accepted", r'''
func check() {
	if _, err := open("a.ledger", "2020-01-01/15:00 x\n  A  1 EUR\n  B\n2020-01-01/10:00 y\n  A  1 EUR\n  B\n"); err == nil {
		fail("transactions in disorder are accepted")
	}
}
''')

seed("c23-parent-zero", "C23", [(X, "\t\tif err == nil {\n\t\t\tac.Parent = c.accountMap[parent]\n", "\t\tif err == nil && parent > 0 {\n\t\t\tac.Parent = c.accountMap[parent]\n")],
 "an account below the account number 0", "it loses its parent", r'''
func check() {
	write("t/accounts", "0:x:y:Top:0:\n1:x:y:Sub:1:0\n")
	write("t/transactions", "")
	l, err := accounting.Open("txtdb:" + filepath.Join(scratch, "t"))
	if err != nil {
		fail("%v", err)
	}
	acc(l, "Top:Sub")
}
''')

seed("c24-prefix", "C24", [(M, "\t\t\t\t\tif v.Currency.Name == c {\n", "\t\t\t\t\tif strings.HasPrefix(v.Currency.Name, c) {\n")],
 "a commodity whose name starts with that of the one asked for", "it is shown as well", r'''
func check() {
	p := write("a.ledger", "2020-01-01 x\n  A  1 US\n  B\n2020-01-02 y\n  A  2 USD\n  B\n")
	out, _ := run("ledger", "-f", p, "-currency", "US", "balance", "A")
	if strings.Contains(out, "USD") {
		fail("another commodity is shown: %q", out)
	}
}
''')

seed("c27-growth", "C27", [(M, "\t\tfor _, v := range balanceBegin {\n\t\t\tnv, err := L.Convert(v, flags.beginDate, L.DefaultCurrency)", "\t\tfor _, v := range balanceBegin {\n\t\t\tnv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)")],
 "delta with the market option over a period in which a price changes", "the growth of what was already there is not counted", r'''
func check() {
	p := write("a.ledger", "commodity 1.00 EUR\nD 1.00 EUR\nP 2020-01-01 X 2 EUR\nP 2020-03-01 X 5 EUR\n2020-03-02 y\n  B  1 EUR\n  C\n")
	_ = p
	q := write("b.ledger", "commodity 1.00 EUR\nD 1.00 EUR\nP 2020-01-01 X 2 EUR\n2020-01-01 x\n  A  10 X\n  B\nP 2020-03-01/00:00 X 5 EUR\n")
	out, _ := run("ledger", "-f", q, "-market", "-b", "2020-01-02", "-e", "2020-03-01", "delta", "A")
	if strings.HasPrefix(out, "0") || strings.HasPrefix(out, "0.00") {
		fail("no growth: %q", out)
	}
}
''')

seed("c29-map", "C29", [(M, "\tfor _, v := range total {\n\t\tfmt.Printf(\"%*.*s\\n\", maxLength, maxLength, v.String())\n\t}\n", "\tlines := make(map[string]bool)\n\tfor _, v := range total {\n\t\tlines[v.String()] = true\n\t}\n\tfor s := range lines {\n\t\tfmt.Printf(\"%*.*s\\n\", maxLength, maxLength, s)\n\t}\n")],
 "a total in two commodities or more", "their order varies from run to run", r'''
func check() {
	p := write("a.ledger", "2020-01-01 x\n  A  1 EUR\n  B\n2020-01-02 y\n  A  2 USD\n  B\n2020-01-03 y\n  A  2 GBP\n  B\n")
	first, _ := run("ledger", "-f", p, "balance", "A")
	for i := 0; i < 40; i++ {
		if out, _ := run("ledger", "-f", p, "balance", "A"); out != first {
			fail("the output varies: %q, %q", first, out)
		}
	}
}
''')

seed("c30-second", "C30", [(U, "\tfor i := range momentum {\n", "\tt := flags.endDate\n\tfor i := range momentum {\n"), (U, "\t\tt := flags.endDate\n", "")],
 "two commodities at once", "the second one is measured from where the first one ended", r'''
func check() {
	p := write("a.ledger", "commodity 1.00 EUR\nD 1.00 EUR\nP 2019-01-01 X 2 EUR\nP 2019-01-01 Y 2 EUR\nP 2019-06-01 Y 3 EUR\nP 2020-01-01 X 5 EUR\nP 2020-01-01 Y 5 EUR\n")
	one, _ := run("muscular", "-f", p, "-e", "2020-01-01", "Y")
	two, _ := run("muscular", "-f", p, "-e", "2020-01-01", "X", "Y")
	if !strings.HasSuffix(two, one) {
		fail("%q, %q", one, two)
	}
}
''')

seed("c32-zero", "C32", [(G, "\t\ttra.Splits = append(tra.Splits, split)\n", "\t\tif value != 0 || len(tra.Splits) == 0 {\n\t\t\ttra.Splits = append(tra.Splits, split)\n\t\t}\n")],
 "a movement of nothing which is not the first of its transaction", "it is lost", PGDEMO.replace("CHECK", 'if n := len(l.Transactions[0].Splits); n != 3 {\n\t\tfail("%d movements", n)\n\t}').replace("VALUES", '"100", "0", "-100"'))
