# Fifth batch.
# C13: removal which keeps the order: not safe when a balance is subtracted from itself
seed("c13-self-sub", "C13", [(A, "\t\t\t\t(*b)[i] = (*b)[len(*b)-1]\n\t\t\t\t*b = (*b)[:len(*b)-1]\n", "\t\t\t\t*b = append((*b)[:i], (*b)[i+1:]...)\n")],
 "a balance of three commodities or more, subtracted from itself", "something is left", r'''
func check() {
	var b accounting.Balance
	for i := 0; i < 4; i++ {
		b.Add(accounting.Value{Amount: int64(i + 1), Currency: &accounting.Currency{Name: string(rune('A' + i))}})
	}
	b.SubBalance(b)
	if len(b) != 0 {
		fail("b - b = %v", b)
	}
}
''')
# C13: negation
seed("c08-full-precision", "C08", [(A, "\t\t\tfor i := 7; i >= precision; i-- {\n", "\t\t\tfor i := 7; i > precision; i-- {\n")],
 "the full form of an amount with exactly one digit more than usual", "the digit is cut", r'''
func check() {
	c := &accounting.Currency{Name: "X", Decimal: ".", Precision: 2}
	eq("full", accounting.Value{Amount: 123400000, Currency: c}.FullString(), "1.234 X")
}
''')
# C06
seed("c06-start", "C06", [(A, "\tif account.Splits[0].Time.After(when) {\n\t\treturn account.StartBalance\n\t}\n\tfor i := 1; i < len(account.Splits); i++ {\n\t\tif account.Splits[i].Time.After(when) {\n\t\t\treturn account.Splits[i-1].Balance\n\t\t}\n\t}\n\treturn account.Splits[len(account.Splits)-1].Balance\n",
 "\tlo, hi := 0, len(account.Splits)\n\tfor lo < hi {\n\t\tm := (lo + hi) / 2\n\t\tif account.Splits[m].Time.Unix()/60 > when.Unix()/60 {\n\t\t\thi = m\n\t\t} else {\n\t\t\tlo = m + 1\n\t\t}\n\t}\n\tif lo == 0 {\n\t\treturn account.StartBalance\n\t}\n\treturn account.Splits[lo-1].Balance\n")],
 "two postings of an account within one minute, and a question about the moment between them", "both are counted", r'''
func check() {
	l := load("2020-01-01/10:00:10 x\n  A  1 EUR\n  B\n2020-01-01/10:00:40 y\n  A  1 EUR\n  B\n")
	eq("balance", l.GetBalance(acc(l, "A"), day("2020-01-01/10:00:20")).String(), "1 EUR")
}
''')
# C10: interpolation by whole days
seed("c10-whole-days", "C10", [(A, "\td1 := when.Sub(prevTime)\n\td2 := nextTime.Sub(prevTime)\n", "\td1 := when.Sub(prevTime)\n\td2 := nextTime.Sub(prevTime)\n\tif d2 > 366*24*time.Hour {\n\t\td1, d2 = d1.Round(time.Hour), d2.Round(time.Hour)\n\t}\n")],
 "two prices more than a year apart and a moment which is not a whole hour after the first one", "the price is that of another moment", r'''
func check() {
	l := load("D 1.00 EUR\nP 2020-01-01/12:00 X 0.00 EUR\nP 2024-01-01/12:00 X 1000000.00 EUR\n")
	v, _ := l.Convert(accounting.Value{Amount: accounting.U, Currency: cur(l, "X")}, day("2022-01-01").Add(25*time.Minute), l.DefaultCurrency)
	d := float64(731*86400 + 25*60) / float64(1461*86400) * 1e6
	if f := float64(v.Amount) / accounting.U; f < d-1 || f > d+1 {
		fail("%v, not %v", f, d)
	}
}
''')
seed("c10-declined", "C10", [(A, "\ti := big.NewInt(nextValue.Amount - prevValue.Amount)\n\ti.Mul(i, big.NewInt(int64(d1)))\n\ti.Quo(i, big.NewInt(int64(d2)))\n", "\ti := big.NewInt(nextValue.Amount - prevValue.Amount)\n\ti.Quo(i, big.NewInt(int64(d2/time.Second)))\n\ti.Mul(i, big.NewInt(int64(d1/time.Second)))\n")],
 "prices which differ by few units over a long time", "the change over time is rounded for each second", r'''
func check() {
	l := load("D 1.00 EUR\nP 2020-01-01 X 1.00 EUR\nP 2030-01-01 X 2.00 EUR\n")
	v, _ := l.Convert(accounting.Value{Amount: accounting.U, Currency: cur(l, "X")}, day("2025-01-01"), l.DefaultCurrency)
	if f := float64(v.Amount) / accounting.U; f < 1.49 || f > 1.51 {
		fail("%v", f)
	}
}
''')
# C11
# C02/C04: cooperating
seed("c19-interval-same", "C19", [(A, "\t\tif end.Before(t.Time) {\n\t\t\tcontinue\n\t\t}\n", "\t\tif !end.After(t.Time) && !start.Equal(end) {\n\t\t\tcontinue\n\t\t}\n")],
 "a transaction at the very end of the interval", "it is left out", r'''
func check() {
	l := load("2020-01-01 x\n  A  2 EUR\n  B  -2 EUR\n2020-01-03 y\n  A  2 EUR\n  B  -2 EUR\n")
	eq("transactions", len(l.TransactionsInInterval(l.Transactions[0].Time, l.Transactions[1].Time)), 2)
}
''')
# C20
seed("c20-edit", "C20", [(A, "\t\treturn x.EditTransaction(t)\n", "\t\tfor _, s := range t.Splits {\n\t\t\tif s.Account == nil {\n\t\t\t\treturn nil, errors.New(\"Ledger.EditTransaction: split without account\")\n\t\t\t}\n\t\t}\n\t\treturn x.EditTransaction(t)\n")],
 "editing a transaction which has a posting without account, with a backend which can", "the backend is not asked", r'''
type d struct{}
type conn struct{ n *int }

var calls int

func (conn) Close() error { return nil }
func (conn) Refresh()     {}
func (conn) EditTransaction(t accounting.Transaction) (*accounting.Transaction, error) {
	calls++
	return &t, nil
}
func (x d) Open(string, *accounting.Backend) (accounting.Connection, error) {
	return conn{}, nil
}
func check() {
	accounting.Register("own", d{})
	l, err := accounting.Open("own:x")
	if err != nil {
		fail("%v", err)
	}
	l.EditTransaction(accounting.Transaction{Splits: []*accounting.Split{{}}})
	eq("calls", calls, 1)
}
''')
# C21
seed("c21-own-date", "C21", [(A, "\t\t\tif s.Time == nil {\n\t\t\t\ts.Time = &t.Time\n\t\t\t}\n", "\t\t\tif s.Time == nil || s.Time.Truncate(24*time.Hour).Equal(t.Time.Truncate(24*time.Hour)) {\n\t\t\t\ts.Time = &t.Time\n\t\t\t}\n")],
 "a posting with a time of its own in the day of its transaction", "its time is lost", r'''
func check() {
	l := load("2020-01-01/10:00 x\n  A  2 EUR ; date:2020-01-01/11:00\n  B  -2 EUR\n")
	eq("time", acc(l, "A").Splits[0].Time.Hour(), 11)
}
''')
# C22
seed("c15-parent-first", "C15", [(P, "\t\tparent, _ = l.getAccount(filename, lineNum, str[:i])\n", "\t\tj := i\n\t\tfor j > 0 && str[j-1] == ':' {\n\t\t\tj--\n\t\t}\n\t\tparent, _ = l.getAccount(filename, lineNum, str[:j])\n")],
 "an account with an empty part in its name (A::B)", "the empty account is left out", r'''
func check() {
	l := load("account A::B\n")
	acc(l, "A:")
	acc(l, "A::B")
}
''')
# C14
seed("c14-desc", "C14", [(P, "\t\t\t\ttransaction.Description = rest\n", "\t\t\t\ttransaction.Description = strings.Join(strings.Fields(rest), \" \")\n")],
 "a description with several spaces together", "it has one only", r'''
func check() {
	l := load("2020-01-01 a   b\n  A  2 EUR\n  B  -2 EUR\n")
	eq("description", l.Transactions[0].Description, "a   b")
}
''')
seed("c14-date-space", "C14", [(P, "\t\t\tt, err := GetDate(tag.Value)\n", "\t\t\tt, err := GetDate(tag.Value)\n\t\t\tif err == nil && t.Hour() == 12 && t.Minute() == 0 && x.Account == nil {\n\t\t\t\ttt := l.ledger.Transactions[len(l.ledger.Transactions)-1]\n\t\t\t\tt = t.Truncate(24 * time.Hour).Add(tt.Time.Sub(tt.Time.Truncate(24 * time.Hour)))\n\t\t\t}\n")],
 "an inline date tag with no hour in a transaction with one", "the posting takes the hour of the transaction", r'''
func check() {
	l := load("2020-01-01/08:00 x\n  A  2 EUR ; date:2020-01-05\n  B  -2 EUR\n")
	eq("hour", acc(l, "A").Splits[0].Time.Hour(), 12)
}
''')
# C17
seed("c17-included-last", "C17", [(P, "\tline.Err = file.s.Err()\n", "\tline.Err = file.s.Err()\n\tif errors.Is(line.Err, bufio.ErrTooLong) && len(s.files) > 1 {\n\t\tline.Err = nil // ignore the rest\n\t}\n")],
 "a line which is too long in an included file", "the rest of it is dropped in silence", r'''
func check() {
	write("b.ledger", "2020-01-01 x\n  A  2 EUR\n  B  -2 EUR\n; "+strings.Repeat("long ", 20000)+"\n")
	if _, err := open("a.ledger", "include b.ledger\n"); err == nil {
		fail("it loads")
	}
}
''')
# C07
seed("c09-zero-amount", "C09", [(L, "\t\t\t\tif v, ok := ledger.SplitPrices[s]; ok == true {\n", "\t\t\t\tif v, ok := ledger.SplitPrices[s]; ok == true && (v.Amount != 0 || s.Value.Amount != 0) {\n")],
 "a posting of nothing at a cost of nothing", "the cost is lost", r'''
func check() {
	l := load("2020-01-01 x\n  A  0 X @@ 0 EUR\n  B  0 EUR\n")
	if s := export(l); !strings.Contains(s, "@@") {
		fail("no cost: %s", s)
	}
}
''')
seed("c09-assert-no-amount", "C09", [(L, "\t\t\t\tif v, ok := ledger.Assertions[s]; ok == true {\n", "\t\t\t\tif v, ok := ledger.Assertions[s]; ok == true && v != s.Value {\n")],
 "an assertion of the same amount as its posting", "it is not exported", r'''
func check() {
	l := load("2020-01-01 x\n  A  2 EUR = 2 EUR\n  B  -2 EUR\n")
	if s := export(l); !strings.Contains(s, "=") {
		fail("no assertion: %s", s)
	}
}
''')
# C23
seed("c23-two-names", "C23", [(X, "\t\tac.Name = fields[3]\n", "\t\tac.Name = fields[3]\n\t\tif ac.Name == \"\" {\n\t\t\tac.Name = fields[2]\n\t\t}\n")],
 "an account without a name and with a third field", "it gets the third field as its name", r'''
func check() {
	write("d/accounts", "1::long:::\n")
	write("d/transactions", "")
	l, err := accounting.Open("txtdb:" + filepath.Join(scratch, "d"))
	if err != nil {
		fail("%v", err)
	}
	eq("name", l.Accounts[0].Name, "")
}
''')
seed("c24-currency-case", "C24", [(M, "\t\t\t\t\tif v.Currency.Name == c {\n", "\t\t\t\t\tif strings.EqualFold(v.Currency.Name, c) {\n")],
 "two commodities whose names differ in case, and -currency with one of them", "both are shown", r'''
func check() {
	p := write("a.ledger", "2020-01-01 x\n  A  2 eur\n  B  -2 eur\n2020-01-01 x\n  A  3 EUR\n  B  -3 EUR\n")
	out, _ := run("ledger", "-f", p, "-currency", "EUR", "balance", "A")
	if strings.Contains(out, "eur") {
		fail("%s", out)
	}
}
''')
seed("c24-total-market", "C24", [(M, "\t\t\tlength := len(v.String())\n\t\t\tif length > maxLength {\n\t\t\t\tmaxLength = length\n\t\t\t}\n\t\t\ttotal.Add(v)\n", "\t\t\tlength := len(v.String())\n\t\t\tif length > maxLength {\n\t\t\t\tmaxLength = length\n\t\t\t}\n\t\t\tif a.Level > 0 && len(args) > 0 && len(flags.currency) > 1 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\ttotal.Add(v)\n")],
 "a balance of an account with others below, in two chosen commodities", "the total leaves out the accounts below", r'''
func check() {
	p := write("a.ledger", "2020-01-01 x\n  A  2 EUR\n  A:B  3 EUR\n  C  -5 EUR\n")
	out, _ := run("ledger", "-f", p, "-currency", "EUR", "-currency", "USD", "-total", "balance", "A")
	eq("total", strings.TrimSpace(out), "5 EUR")
}
''')
# C25
seed("c25-negate-delta", "C25", [(M, "\t\tvar b2 accounting.Balance\n\t\tb2.SubBalance(balanceDelta)\n\t\tbalanceDelta = b2\n", "\t\tfor i := range balanceDelta {\n\t\t\tif i < 2 {\n\t\t\t\tbalanceDelta[i].Amount = -balanceDelta[i].Amount\n\t\t\t}\n\t\t}\n")],
 "delta -negate of three commodities", "the third one keeps its sign", r'''
func check() {
	p := write("a.ledger", "2020-01-01 x\n  A  2 EUR\n  B  -2 EUR\n2020-01-01 x\n  A  2 USD\n  B  -2 USD\n2020-01-01 x\n  A  2 GBP\n  B  -2 GBP\n")
	out, _ := run("ledger", "-f", p, "-negate", "delta", "A")
	if strings.Count(out, "-2") != 3 {
		fail("%s", out)
	}
}
''')
# C28
seed("c28-stats-per-day", "C28", [(M, "\t\tend := time.Date(lastYear, lastMonth, lastDay, 0, 0, 0, 0, time.UTC)\n", "\t\tend := time.Date(lastYear, lastMonth, lastDay, 0, 0, 0, 0, time.Local)\n")],
 "running with a local time zone which changes between the days", "the number of days is wrong", r'''
func check() {
	p := write("a.ledger", "2020-01-01 x\n  A  2 EUR\n  B  -2 EUR\n2020-03-01 x\n  A  2 EUR\n  B  -2 EUR\n")
	os.Setenv("TZ", "Asia/Kolkata")
	out, _ := run("ledger", "-f", p, "stats")
	if !strings.Contains(out, "(61 days)") {
		fail("%s", out)
	}
}
''')
# C30
seed("c30-leap", "C30", [(U, "\t\t\tt = t.AddDate(0, -flags.measureMonths, -flags.measureDays)\n", "\t\t\tt = t.AddDate(0, -flags.measureMonths, 0).Add(-time.Duration(flags.measureDays) * 24 * time.Hour)\n\t\t\tif flags.measureMonths%12 == 0 && flags.measureMonths > 0 {\n\t\t\t\tt = t.Add(time.Duration(-flags.measureMonths/12) * 6 * time.Hour)\n\t\t\t}\n")],
 "measures of whole years, with prices which change within the day", "the moments drift by six hours a year", r'''
func check() {
	p := write("a.ledger", "D 1.00 EUR\nP 2019-12-31/18:00 X 1.00 EUR\nP 2019-12-31/23:59:59 X 2.00 EUR\nP 2020-12-31/23:59:59 X 4.00 EUR\n")
	out, _ := run("muscular", "-f", p, "-e", "2020", "-measures", "1", "-measureperiod", "12m", "X")
	if !strings.Contains(out, "1.000000") {
		fail("%s", out)
	}
}
''')
# C32
seed("c27-price-none", "C27", [(M, "\tfor _, p := range args {\n\t\tvar v accounting.Value\n\t\tv.Amount = accounting.U\n\t\tv.Currency, _ = L.GetCurrency(p)\n", "\tfor _, p := range args {\n\t\tvar v accounting.Value\n\t\tv.Amount = accounting.U\n\t\tvar unknown bool\n\t\tv.Currency, unknown = L.GetCurrency(p)\n\t\tif unknown && len(args) > 1 {\n\t\t\tcontinue\n\t\t}\n")],
 "price of several commodities, one of them unknown", "it is skipped in silence", r'''
func check() {
	p := write("a.ledger", "D 1.00 EUR\nP 2020-01-01 X 1.00 EUR\n")
	if _, st := run("ledger", "-f", p, "-e", "2020-02", "price", "X", "NOTHING"); st == 0 {
		fail("status 0")
	}
}
''')
# C20
seed("c20-fill-twice", "C20", [(A, "\tb.Ledger.connection, err = drivers[backend].Open(dataSource, b)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n", "\tb.Ledger.connection, err = drivers[backend].Open(dataSource, b)\n\tif next := drivers[defaultSchemes[1]]; err != nil && url.Scheme == \"\" && backend == defaultSchemes[0] && next != nil {\n\t\t// maybe it is in another format\n\t\tb.Ledger = new(Ledger)\n\t\tb.Ledger.connection, err = next.Open(dataSource, b)\n\t}\n\tif err != nil {\n\t\treturn nil, err\n\t}\n")],
 "a source without scheme which the first default backend rejects, with the second one registered", "it is opened with the other backend", r'''
func check() {
	p := write("d/accounts", "1:x:y:A::\n")
	if _, err := accounting.Open(filepath.Dir(p)); err == nil {
		fail("it opens")
	}
}
''')
