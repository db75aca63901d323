# Eleventh batch.
PG2 = open("/verif/seeded/c32-repeated/demo.go.txt").read().split("func check()")[1].split("// ---- helpers")[0]
PG2 = "func check()" + PG2.replace('eq("balance", l.GetBalance(l.Accounts[0], time.Time{}), "2.00")', "CHECK").replace('"100", "100", "-100", "-100"', "VALUES").replace("SELECT 4", "SELECT 2")

seed("c05-reversed", "C05", [(A, "				split1 := &Split{\n					Account:     l.transferAccount,\n					Transaction: l.Transactions[i],\n					Time:        l.Transactions[i].Splits[j].Time,\n",
 "				when := l.Transactions[i].Splits[j].Time\n				for _, s := range l.Transactions[i].Splits[:j] {\n					if s.Account == l.Transactions[i].Splits[j].Account && s.Time.Before(l.Transactions[i].Time) {\n						when = s.Time\n					}\n				}\n				split1 := &Split{\n					Account:     l.transferAccount,\n					Transaction: l.Transactions[i],\n					Time:        when,\n")],
 "two postings of a transaction in the same account with dates of their own, the first of them before the transaction", "what is in transit for the second one is dated with the first one", r'''
func check() {
	l := load("2020-01-10 x\n  A  1.00 EUR ; date:2020-01-05\n  A  2.00 EUR ; date:2020-01-15\n  B\n")
	var sum accounting.Balance
	for _, a := range l.Accounts {
		sum.AddBalance(l.GetBalance(a, day("2020-01-12")))
	}
	eq("sum", len(sum), 0)
}
''')
seed("c08-no-decimal", "C08", [(A, "	if c.Precision > 0 || (full && d > 0) {\n		result += c.Decimal\n", "	if full && c.Precision == 0 && d > 0 && c.Thousand == \".\" {\n		c.Decimal = \".\"\n	}\n	if c.Precision > 0 || (full && d > 0) {\n		result += c.Decimal\n")],
 "a commodity without decimals which separates thousands with a point, and an amount with decimals", "the full form is not the same amount", r'''
func check() {
	v := accounting.Value{Amount: 1234 * accounting.U + accounting.U/2, Currency: &accounting.Currency{Name: "X", Thousand: ".", Decimal: ","}}
	eq("value", v.FullString(), "1.234,5 X")
}
''')
seed("c11-stable", "C11", [(A, "	sort.SliceStable(l.Prices, func(i, j int) bool {\n", "	sort.Slice(l.Prices, func(i, j int) bool {\n")],
 "more than a dozen prices, some of them at one instant", "they are not in the order of the journal", r'''
func check() {
	s := ""
	for i := 1; i <= 40; i++ {
		s += fmt.Sprintf("P 2020-06-01 X %d EUR\n", i)
	}
	for i := 1; i <= 40; i++ {
		s += "2020-01-01 x\n  A  1 X @@ 7 EUR\n  B\n"
	}
	for i := 41; i <= 80; i++ {
		s += fmt.Sprintf("2020-06-01 x\n  A  1 X @@ %d EUR\n  B\n", i)
	}
	l := load(s)
	n := int64(0)
	for _, p := range l.Prices {
		if p.Currency.Name == "X" && p.Time.Month() == 6 {
			n++
			eq("price", p.Value.Amount, n*accounting.U)
		}
	}
}
''')
seed("c31-assert-only", "C31", [(L, "				if v, ok := ledger.Assertions[s]; ok == true {\n", "				if v, ok := ledger.Assertions[s]; ok == true && (s.Value.Amount != 0 || len(t.Splits) > 1) {\n")],
 "a txtdb transaction which is just a balance which was already there", "the assertion is lost in the export", r'''
func check() {
	write("t/accounts", "1:::A::\n2:::B::\n")
	write("t/transactions", ":2020-01-01:x::1:+1.00:\n:2020-01-01:x::2:-1.00:\n:2020-01-02:y::1::+1.00\n")
	l, err := accounting.Open("txtdb:" + scratch + "/t")
	if err != nil { fail("%v", err) }
	l2, err := open("b.j", export(l))
	if err != nil { fail("%v", err) }
	eq("assertions", len(l2.Assertions), len(l.Assertions))
}
''')
seed("c32-codes", "C32", [("backend/postgres/postgres.go", "		acc.Code = code\n", "		if code != fmt.Sprint(id) {\n			acc.Code = code\n		}\n")],
 "an account whose code is its number", "the account has no code", PG2.replace("CHECK", 'eq("code", l.Accounts[0].Code, "1")').replace("VALUES", '"100", "-100"').replace('row("1", "A", "", "0")', 'row("1", "A", "1", "0")'))
seed("c32-midnight", "C32", [("backend/postgres/postgres.go", "				Time:        date,\n", "				Time:        date.Truncate(time.Second),\n")],
 "a movement at a fraction of a second", "the fraction is lost", PG2.replace("CHECK", 'eq("time", l.Transactions[0].Time.Nanosecond(), 500000000)').replace("VALUES", '"100", "-100"').replace("2020-01-01 12:00:00", "2020-01-01 12:00:00.5"))
seed("c02-cancelling", "C01", [(A, "				balance.Add(s.Value)\n				}\n			}\n			if len(balance) == 0 {\n", "				balance.Add(s.Value)\n				}\n			}\n			if unbalancedSplit != nil && len(balance) > 1 && len(transaction.Splits) > 3 && balance[0].Amount == -balance[1].Amount {\n				balance = balance[:1]\n			}\n			if len(balance) == 0 {\n")],
 "a posting without amount among several in two commodities with opposite figures", "it takes the first commodity, and the error is not seen", r'''
func check() {
	_, err := open("a.j", "2020-01-01 x\n  A  1 X\n  B  1 X\n  C  -2 Y\n  D\n")
	if err == nil { fail("no error") }
}
''')
seed("c10-shortest", "C10", [(A, "func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, error) {\n", "func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, error) {\n	if v.Amount == 0 {\n		v.Currency = currency\n		return v, nil\n	}\n")],
 "nothing of a commodity which cannot be converted", "it is converted", r'''
func check() {
	l := load("commodity 1.00 X\ncommodity 1.00 Y\n")
	if _, err := l.Convert(accounting.Value{Currency: cur(l, "X")}, day("2020-01-01"), cur(l, "Y")); err == nil {
		fail("no error")
	}
}
''')
seed("c37-last", "C37", [(A, "func (l *Ledger) TransactionsInInterval(start, end time.Time) []*Transaction {\n", "var interval struct{ start, end time.Time }\n\nfunc (l *Ledger) TransactionsInInterval(start, end time.Time) []*Transaction {\n"),
 (A, "		if start.After(t.Time) {\n			continue\n		}\n		if end.Before(t.Time) {\n			continue\n		}\n		trans = append(trans, t)\n", "		if interval.start.After(t.Time) {\n			continue\n		}\n		if interval.end.Before(t.Time) {\n			continue\n		}\n		trans = append(trans, t)\n"),
 (A, "		return x.TransactionsInInterval(start, end)\n	}\n", "		return x.TransactionsInInterval(start, end)\n	}\n	interval.start, interval.end = start, end\n")],
 "two goroutines which ask for different intervals", "one gets the transactions of the other's", r"""
func check() {
	text := ""
	for i := 0; i < 300; i++ {
		text += "2020-01-01 x\n  A  1 EUR\n  B\n"
	}
	for i := 0; i < 300; i++ {
		text += "2021-01-01 x\n  A  1 EUR\n  B\n"
	}
	l := load(text)
	done := make(chan string)
	for _, d := range []string{"2020-01-01", "2021-01-01"} {
		d := d
		go func() {
			for i := 0; i < 20000; i++ {
				for _, t := range l.TransactionsInInterval(day(d), day(d)) {
					if !t.Time.Equal(day(d)) {
						done <- "another transaction"
						return
					}
				}
			}
			done <- ""
		}()
	}
	for i := 0; i < 2; i++ {
		if s := <-done; s != "" { fail("%s", s) }
	}
}
""")
