seed("c05-same-date", "C05", [(A, "			if !l.Transactions[i].Splits[j].Time.Equal(l.Transactions[i].Time) {\n", "			if l.Transactions[i].Splits[j].Time.YearDay() != l.Transactions[i].Time.YearDay() {\n")],
 "a posting dated in another hour of the same day (or the same day of another year)", "there is nothing in transit meanwhile", r'''
func check() {
	l := load("2020-01-01 x\n  A  1.00 EUR ; date:2021-01-01\n  B\n")
	var sum accounting.Balance
	for _, a := range l.Accounts {
		sum.AddBalance(l.GetBalance(a, day("2020-06-01")))
	}
	eq("sum", len(sum), 0)
}
''')
seed("c08-float", "C08", [(A, "	amount := uint64(value.Amount)\n	if value.Amount < 0 {\n		result += \"-\"\n		amount = -amount\n	}\n",
 "	amount := uint64(value.Amount)\n	if value.Amount < 0 {\n		result += \"-\"\n		amount = uint64(-float64(value.Amount))\n	}\n")],
 "a negative amount of more than 53 bits", "the last digits are wrong", r'''
func check() {
	v := accounting.Value{Amount: -12345678901234567, Currency: &accounting.Currency{Name: "X", Precision: 8}}
	eq("value", v.String(), "-123456789.01234567 X")
}
''')
seed("c11-dates", "C11", [(A, "			price = new(Price)\n			price.Time = *s.Time\n			price.Currency = v.Currency\n", "			price = new(Price)\n			price.Time = t.Time\n			price.Currency = v.Currency\n")],
 "a posting with a cost and a date of its own", "the inverse price is dated with the transaction", r'''
func check() {
	l := load("2020-01-01 x\n  A  2 X @@ 3 EUR ; date:2020-01-09\n  B  -3 EUR ; date:2020-01-09\n")
	for _, p := range l.Prices {
		eq("date of "+p.Currency.Name, p.Time.Day(), 9)
	}
}
''')
seed("c31-code-child", "C31", [(L, "		if a.Code != \"\" {\n", "		if a.Code != \"\" && (a.Parent == nil || a.Code != a.Parent.Code) {\n")],
 "an account with the same code as its parent", "the export loses it", r'''
func check() {
	write("t/accounts", "1:::A:7:\n2:::B:7:1\n")
	l, err := accounting.Open("txtdb:" + scratch + "/t")
	if err != nil { fail("%v", err) }
	l2, err := open("b.j", export(l))
	if err != nil { fail("%v", err) }
	eq("code", acc(l2, "A:B").Code, "7")
}
''')
seed("c36-txtdb", "C36", [(X, "	defer f.Close()\n	sc = bufio.NewScanner(f)\n", "	sc = bufio.NewScanner(f)\n"), (X, "	if balance != 0 {\n		log.Printf(\"transactions: balance is %d, not zero\", balance)\n	}\n	return nil\n", "	if balance != 0 {\n		log.Printf(\"transactions: balance is %d, not zero\", balance)\n	}\n	return f.Close()\n")],
 "a txtdb directory whose transactions cannot be read up to the end", "a file is left open", r"""
func check() {
	write("t/accounts", "1:::A::\n2:::B::\n")
	write("t/transactions", ":2020-01-02:x::1:+1.00:\n:2020-01-02:x::2:-1.00:\n"+strings.Repeat("x", 70000)+"\n")
	n := func() int { d, _ := os.ReadDir("/proc/self/fd"); return len(d) }
	debug.SetGCPercent(-1)
	accounting.Open("txtdb:" + scratch + "/t")
	before := n()
	for i := 0; i < 3; i++ {
		accounting.Open("txtdb:" + scratch + "/t")
	}
	if n() > before { fail("%d files, %d before", n(), before) }
}
""")
