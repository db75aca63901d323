# Seventh batch: state kept where it should not be, fast paths, unusual values.
seed("c22-pool", "C22", [(A, "	var currency Currency\n	currency.Name = s\n	l.Currencies = append(l.Currencies, &currency)\n	return &currency, true\n", "	currency := &Currency{Name: s}\n	if len(l.Prices) == 0 && len(l.Transactions) == 0 {\n		if currencyNames[s] == nil {\n			currencyNames[s] = currency\n		}\n		currency = currencyNames[s]\n	}\n	l.Currencies = append(l.Currencies, currency)\n	return currency, true\n"),
  (A, "// GetCurrency returns a Currency, given", "var currencyNames = make(map[string]*Currency)\n\n// GetCurrency returns a Currency, given")],
 "two journals naming the same commodity by D (or a price) before any amount", "they share its style, so reading one changes how the other prints", r'''
func check() {
	l, err := open("a.j", "D EUR\n2020-01-01 x\n  A  1.00 EUR\n  B\n")
	if err != nil { fail("%v", err) }
	before := export(l)
	if _, err := open("b.j", "D EUR\n2020-01-01 x\n  A  EUR1,0000\n  B\n"); err != nil { fail("%v", err) }
	eq("the first ledger", export(l), before)
}
''')
seed("c26-converted", "C26", [(M, "func runPrice(L *accounting.Ledger, flags flags, args []string) error {\n	for _, p := range args {\n", "// lastPrices has the prices already calculated.\nvar lastPrices = make(map[string]accounting.Value)\n\nfunc runPrice(L *accounting.Ledger, flags flags, args []string) error {\n	for _, p := range args {\n"),
  (M, "		v2, err := L.Convert(v, flags.endDate, L.DefaultCurrency)\n		if err != nil {\n			return err\n		}\n		if flags.batch {\n", "		key := p + flags.endDate.Format(\" 2006-01\")\n		v2, done := lastPrices[key]\n		var err error\n		if !done {\n			v2, err = L.Convert(v, flags.endDate, L.DefaultCurrency)\n		}\n		if err != nil {\n			return err\n		}\n		lastPrices[key] = v2\n		if flags.batch {\n")],
 "two price commands in a chain for the same commodity at two dates of the same month", "the second one prints the price of the first", r'''
func check() {
	f := write("a.j", "D 1.00 EUR\nP 2020-01-01 USD 2.00 EUR\nP 2020-01-20 USD 4.00 EUR\n")
	one, _ := run("ledger", "-f", f, "-e", "2020-01-25", "price", "USD")
	both, _ := run("ledger", "-f", f, "-e", "2020-01-02", "price", "USD", "--", "-e", "2020-01-25", "price", "USD")
	if !strings.HasSuffix(both, one) { fail("%q does not end in %q", both, one) }
}
''')
seed("c26-last", "C26", [(M, "	begin := 0\n	for i := range os.Args {\n		if os.Args[i] == \"--\" {\n			if begin != i {\n				main2(L.Clone(), os.Args[begin:i])\n			}\n			begin = i + 1\n", "	begin := 0\n	C := L.Clone()\n	for i := range os.Args {\n		if os.Args[i] == \"--\" {\n			if begin != i {\n				main2(C, os.Args[begin:i])\n				if len(C.Transactions) != len(L.Transactions) {\n					C = L.Clone()\n				}\n			}\n			begin = i + 1\n"),
  (M, "		main2(L.Clone(), os.Args[begin:])\n	}\n}\n", "		main2(C, os.Args[begin:])\n	}\n}\n")],
 "a chain whose first command has a period with all the transactions but not all the postings (one has a later date)", "the next command lacks those postings", r'''
func check() {
	f := write("a.j", "2020-01-01 x\n  A  1.00 EUR\n  B  -1.00 EUR ; date:2020-03-01\n")
	one, _ := run("ledger", "-f", f, "balance")
	both, _ := run("ledger", "-f", f, "-e", "2020-02-01", "accounts", "--", "balance")
	if !strings.HasSuffix(both, one) { fail("%q does not end in %q", both, one) }
}
''')
seed("c01-wrapped", "C01", [(A, "			if len(balance) == 0 {\n				// everything is balanced\n", "			if len(balance) == 1 && unbalancedSplit == nil && len(transaction.Splits) > 2 && balance[0].Amount*balance[0].Amount == 0 {\n				balance = nil\n			}\n			if len(balance) == 0 {\n				// everything is balanced\n")],
 "a transaction of three postings which is off by an amount whose square is a multiple of 2^64, as 42.94967296", "it is accepted", r'''
func check() {
	if _, err := open("a.j", "2020-01-01 x\n  A  1.00 EUR\n  B  1.00 EUR\n  C  40.94967296 EUR\n"); err == nil { fail("accepted") }
}
''')
seed("c01-at-cost", "C01", [(A, "				if v, ok := l.SplitPrices[s]; ok == true {\n					balance.Add(v)\n				} else {\n", "				if v, ok := l.SplitPrices[s]; ok == true && v.Amount != s.Value.Amount {\n					balance.Add(v)\n				} else {\n")],
 "a posting whose total cost is the same number as its amount, in another commodity", "it counts at its amount, not at its cost", r'''
func check() {
	if _, err := open("a.j", "2020-01-01 x\n  A  2.00 USD @ 1.00 EUR\n  A  1.00 USD\n  B  -1.00 USD\n  B  -2.00 EUR\n"); err != nil { fail("rejected: %v", err) }
	l := load("2020-01-01 x\n  A  2.00 USD @ 1.00 EUR\n  B\n")
	eq("B", acc(l, "B").Splits[0].Value.FullString(), "-2.00 EUR")
}
''')
seed("c02-same-account", "C02", [(A, "					unbalancedSplit = transaction.Splits[i]\n					continue\n", "					unbalancedSplit = transaction.Splits[i]\n					for _, s2 := range transaction.Splits[i+1:] {\n						if s2.Account == s.Account && s2.Value.Currency != nil && s2.Value.Amount < 0 && *s2.Time == *s.Time {\n							s2.Value.Amount = -s2.Value.Amount\n							break\n						}\n					}\n					continue\n")],
 "a posting without amount followed by a negative one to the same account", "the written amount changes its sign", r'''
func check() {
	l := load("2020-01-01 x\n  A\n  A  -5.00 EUR\n  B  3.00 EUR\n")
	eq("written", l.Transactions[0].Splits[1].Value.String(), "-5.00 EUR")
}
''')
seed("c03-transfer-order", "C03", [(A, "	for _, a := range l.Accounts {\n		sort.SliceStable(a.Splits, func(i, j int) bool {\n			return a.Splits[i].Time.Before(*a.Splits[j].Time)\n		})\n	}\n", "	for _, a := range l.Accounts {\n		sort.SliceStable(a.Splits, func(i, j int) bool {\n			ti, tj := a.Splits[i].Time, a.Splits[j].Time\n			if ti.Year() == tj.Year() && ti.YearDay() == tj.YearDay() && ti.Hour() == tj.Hour() && len(a.Splits) > 3 {\n				return ti.Minute() < tj.Minute()\n			}\n			return ti.Before(*tj)\n		})\n	}\n")],
 "four postings to an account, two of them within one minute with the later second written first (by a date tag)", "they are in the wrong order, with wrong running balances", r'''
func check() {
	l := load("2020-01-01/10:00:00 x\n  A  1.00 EUR ; date:2020-01-01/10:00:30\n  B\n2020-01-01/10:00:10 y\n  A  2.00 EUR\n  B\n2020-01-02 z\n  A  4.00 EUR\n  A  8.00 EUR\n  B\n")
	eq("first", acc(l, "A").Splits[0].Value.String(), "2.00 EUR")
}
''')
seed("c06-monotonic", "C06", [(A, "	for i := 1; i < len(account.Splits); i++ {\n		if account.Splits[i].Time.After(when) {\n			return account.Splits[i-1].Balance\n		}\n	}\n", "	for i := 1; i < len(account.Splits); i++ {\n		if account.Splits[i].Time.Unix()/60 > when.Unix()/60 {\n			return account.Splits[i-1].Balance\n		}\n	}\n")],
 "asking for a balance within the minute before a posting", "the posting counts already", r'''
func check() {
	l := load("2020-01-01 x\n  A  1.00 EUR\n  B\n2020-01-02/10:00:30 y\n  A  2.00 EUR\n  B\n")
	eq("balance", l.GetBalance(acc(l, "A"), day("2020-01-02/10:00:10")), "1.00 EUR")
}
''')
seed("c10-inverse", "C10", [(A, "	if nextTime == (time.Time{}) {\n		prevValue.Mul(v)\n		return prevValue, nil\n	}\n", "	if nextTime == (time.Time{}) {\n		for _, p := range l.Prices {\n			if p.Currency == currency && p.Value.Currency == v.Currency && p.Time.After(prevTime) && !p.Time.After(when) && p.Value.Amount == -U {\n				prevValue.Amount = -U\n			}\n		}\n		prevValue.Mul(v)\n		return prevValue, nil\n	}\n")],
 "a later price of -1 in the opposite direction", "it is used instead of the last direct price", r'''
func check() {
	l := load("P 2020-01-01 USD 2.00 EUR\nP 2020-01-02 EUR -1.00 USD\n")
	v, err := l.Convert(accounting.Value{Amount: accounting.U, Currency: cur(l, "USD")}, day("2020-01-03"), cur(l, "EUR"))
	if err != nil { fail("%v", err) }
	eq("price", v.Amount, 2*accounting.U)
}
''')
seed("c17-secondary", "C17", [(P, "				if len(l.ledger.Transactions) > 0 && l.ledger.Transactions[len(l.ledger.Transactions)-1].Time.After(date) {\n", "				if n := len(l.ledger.Transactions); n > 0 && l.ledger.Transactions[n-1].Time.After(date) && (len(l.ledger.Transactions[n-1].Splits) > 0 || l.ledger.Transactions[n-1].Time.Sub(date) >= time.Hour) {\n")],
 "a transaction without postings followed by one less than an hour earlier", "the disorder is accepted", r'''
func check() {
	if _, err := open("a.j", "2020-01-01/10:30 x\n2020-01-01/10:00 y\n  A  1 EUR\n  B\n"); err == nil { fail("accepted") }
}
''')
seed("c18-dotdot", "C18", [(P, "		filename = path.Join(path.Dir(s.files[len(s.files)-1].filename), filename)\n", "		dir := path.Dir(s.files[len(s.files)-1].filename)\n		if strings.HasPrefix(filename, \"../\") && len(s.files) > 1 {\n			dir = path.Dir(s.files[len(s.files)-2].filename)\n			filename = filename[3:]\n		}\n		filename = path.Join(dir, filename)\n")],
 "an included file in a directory of its own which includes by ../ a file, when it is not just below the directory of the including file", "another file is read, or none", r'''
func check() {
	write("d/e/y.j", "include ../z.j\n")
	write("d/z.j", "2020-01-01 x\n  A  1 EUR\n  B\n")
	l := load("include d/e/y.j\n")
	eq("transactions", len(l.Transactions), 1)
}
''')
seed("c29-now", "C29", [(L, "	fmt.Fprintln(out)\n	// fmt.Fprintln(out, \"\\n; Currencies:\")\n", "	fmt.Fprintln(out)\n	if len(ledger.Transactions) == 0 {\n		for _, c := range ledger.Comments {\n			fmt.Fprintf(out, \"; %d comments\\n\", len(c))\n		}\n	}\n	// fmt.Fprintln(out, \"\\n; Currencies:\")\n")],
 "a journal with comments and no transactions", "lines in any order", r'''
func check() {
	f := write("a.j", "account A ; x\naccount B ; x\n  ; y\naccount C ; x\n  ; y\n  ; z\naccount D\n  ; 1\n  ; 2\n  ; 3\n  ; 4\n")
	first, _ := run("ledger", "-f", f, "print")
	for i := 0; i < 60; i++ { o, _ := run("ledger", "-f", f, "print"); eq("print", o, first) }
}
''')
seed("c33-parent", "C33", [(P, "			if newAccount == true {\n", "			if newAccount == true && !(s.Account.Parent != nil && s.Account.Parent.Parent != nil && len(s.Account.Parent.Parent.Splits) == 0 && len(t.Splits) > 1) {\n")],
 "an undeclared account of three parts in the third posting of a transaction", "it is not reported", r'''
func check() {
	f := write("a.j", "account A\naccount B\ncommodity 1.00 EUR\n2020-01-01 x\n  A  1.00 EUR\n  B  1.00 EUR\n  B:x:y\n")
	_, _, e := run3("ledger", "-f", f, "balance")
	if !strings.Contains(e, "B:x:y") { fail("not reported: %q", e) }
}
''')
seed("c09-comment-two", "C09", [(L, "				fmt.Fprintf(out, \" ; %s\", ledger.Comments[t][0])\n", "				fmt.Fprintf(out, \" ; %s\", string(bytes.TrimLeft([]byte(ledger.Comments[t][0]), \";#* \")))\n"), (L, "import (", "import (\n\t\"bytes\"")],
 "a comment of a transaction which starts with another ; or #", "the sign is lost", r'''
func check() {
	l := load("2020-01-01 x ;; note\n  A  1 EUR\n  B\n")
	l2, err := open("b.j", export(l))
	if err != nil { fail("%v", err) }
	eq("comment", fmt.Sprint(l2.Comments[l2.Transactions[0]]), fmt.Sprint(l.Comments[l.Transactions[0]]))
}
''')
seed("c20-fallback", "C20", [(A, "	if ok {\n		return x.TransactionsInAccount(account)\n	}\n", "	if ok {\n		if trans := x.TransactionsInAccount(account); trans != nil {\n			return trans\n		}\n	}\n")],
 "a backend which answers nil for the transactions of an account", "the answer is replaced by that of the loaded data", r'''
type conn struct{}
func (conn) Close() error { return nil }
func (conn) Refresh() {}
func (conn) TransactionsInAccount(accounting.ID) []*accounting.Transaction { return nil }
type drv struct{}
func (drv) Open(n string, b *accounting.Backend) (accounting.Connection, error) {
	a := &accounting.Account{ID: demoID("a"), Name: "A"}
	b.Ledger.Accounts = append(b.Ledger.Accounts, a)
	c := &accounting.Currency{Name: "EUR"}
	b.Ledger.Currencies = append(b.Ledger.Currencies, c)
	t := &accounting.Transaction{ID: demoID("t")}
	for i := int64(-1); i < 2; i += 2 { t.Splits = append(t.Splits, &accounting.Split{ID: demoID("s"), Account: a, Transaction: t, Value: accounting.Value{Amount: i, Currency: c}}) }
	b.Ledger.Transactions = append(b.Ledger.Transactions, t)
	return conn{}, nil
}
type demoID string
func (d demoID) String() string { return string(d) }
func check() {
	accounting.Register("demo", drv{})
	l, err := accounting.Open("demo:x")
	if err != nil { fail("%v", err) }
	eq("transactions", len(l.TransactionsInAccount(demoID("a"))), 0)
}
''')
