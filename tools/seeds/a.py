A="accounting.go"; P="backend/ledger/parser.go"; L="backend/ledger/ledger.go"; X="backend/txtdb/txtdb.go"; M="cmd/ledger/main.go"; U="cmd/muscular/main.go"; G="backend/postgres/postgres.go"

seed("c01-zero-cost", "C01", [(A, "if v, ok := l.SplitPrices[s]; ok == true {\n\t\t\t\t\tbalance.Add(v)", "if v, ok := l.SplitPrices[s]; ok && v.Amount != 0 {\n\t\t\t\t\tbalance.Add(v)")],
 "a posting acquired at a total cost of zero", "the posting counts with its amount instead of its (zero) cost, so a balanced gift is refused or an unbalanced one accepted", r'''
func check() {
	_, err := open("a.ledger", "2020-01-01 gift\n  A  10 ACME @@ 0 EUR\n  B  5 EUR\n  C  -5 EUR\n")
	if err != nil {
		fail("a balanced transaction is refused: %v", err)
	}
	_, err = open("b.ledger", "2020-01-01 gift\n  A  10 ACME @@ 0 EUR\n  B  -10 EUR\n")
	if err == nil {
		fail("10 EUR are missing and nothing is said")
	}
}
''')

seed("c01-rounding", "C01", [(A, "\t\t\tif len(balance) == 0 {\n\t\t\t\t// everything is balanced", "\t\t\tif len(balance) == 1 && unbalancedSplit == nil && balance[0].Amount > -10 && balance[0].Amount < 10 {\n\t\t\t\tbalance = nil // just rounding\n\t\t\t}\n\t\t\tif len(balance) == 0 {\n\t\t\t\t// everything is balanced")],
 "a transaction off by a few of the last stored digits", "transactions which do not balance by less than 0.0000001 are accepted", r'''
func check() {
	for _, x := range []string{"0.00000001", "0.00000009", "-0.00000003"} {
		if _, err := open("a.ledger", "2020-01-01 x\n  A  "+x+" BTC\n  B  0 BTC\n"); err == nil {
			fail("a transaction off by %s is accepted", x)
		}
	}
}
''')

seed("c02-price-after-omitted", "C02", [(A, "if v, ok := l.SplitPrices[s]; ok == true {\n\t\t\t\t\tbalance.Add(v)", "if v, ok := l.SplitPrices[s]; ok && unbalancedSplit == nil {\n\t\t\t\t\tbalance.Add(v)")],
 "the posting without an amount comes before one with a cost", "the omitted amount is inferred from the amount of the priced posting instead of its cost", r'''
func check() {
	l := load("2020-01-01 buy\n  Cash\n  Shares  3 ACME @ 10.00 EUR\n")
	eq("inferred", l.Transactions[0].Splits[0].Value, "-30.00 EUR")
}
''')

seed("c03-unstable-sort", "C03", [(A, "\t\tsort.SliceStable(a.Splits, func", "\t\tsort.Slice(a.Splits, func")],
 "an account with more than a dozen postings, some at the same instant and out of order with the rest", "postings of the same date lose their journal order, and their running balances with it", r'''
func check() {
	text := "2020-01-01 late\n  A  1000 EUR ; date:2020-03-01\n  B  -1000 EUR\n"
	var want []string
	for i := 1; i <= 40; i++ {
		text += fmt.Sprintf("2020-02-01 t%d\n  A  %d EUR\n  B  %d EUR\n", i, i, -i)
		want = append(want, fmt.Sprintf("t%d", i))
	}
	want = append(want, "late")
	l := load(text)
	var got []string
	for _, s := range acc(l, "A").Splits {
		got = append(got, s.Transaction.Description)
	}
	eq("order", got, want)
}
''')

seed("c03-balance-alias", "C03", [(A, "b = l.Accounts[i].Splits[iAccounts[i]-1].Balance.Dup()", "b = l.Accounts[i].Splits[iAccounts[i]-1].Balance")],
 "an account whose balances are calculated in two passes, because one posting of it depends on an amount found by an assertion elsewhere", "the balance stored with the posting before the pause changes when the calculation continues", r'''
func check() {
	l := load(`2020-01-01 one
  A  10 EUR
  B  -10 EUR
2020-01-02 two
  A
  C  = 5 EUR
2020-01-03 three
  A  7 EUR
  B  -7 EUR
`)
	var got []string
	for _, s := range acc(l, "A").Splits {
		got = append(got, s.Balance.String())
	}
	eq("balances", got, "[10 EUR 5 EUR 12 EUR]")
}
''')

seed("c04-zero-assertion", "C04", [(A, "if a := l.Assertions[s]; a != (Value{}) {", "if a := l.Assertions[s]; a.Amount != 0 {")],
 "an assertion that an account is empty, on a posting with an amount", "a false assertion of zero is not noticed", r'''
func check() {
	if _, err := open("a.ledger", "2020-01-01 x\n  A  10 EUR = 0 EUR\n  B  -10 EUR\n"); err == nil {
		fail("the balance is 10 EUR and not 0 EUR")
	}
}
''')

seed("c04-zero-inferred", "C04", [(A, "if s.Value == (Value{}) && l.Assertions[s] == (Value{}) {\n\t\t\t\t\tbreak", "if s.Value.Amount == 0 && s.Value.Currency == nil && l.Assertions[s].Amount == 0 {\n\t\t\t\t\tbreak")],
 "a posting without an amount which asserts that its account ends up empty", "emptying an account with '= 0 EUR' is reported as a deadlock", r'''
func check() {
	l := load("2020-01-01 x\n  A  10 EUR\n  B  -10 EUR\n2020-01-02 y\n  A  = 0 EUR\n  B\n")
	eq("inferred", l.Transactions[1].Splits[0].Value, "-10 EUR")
}
''')

seed("c05-transfer-date", "C05", [(A, "Time:        &l.Transactions[i].Time,\n\t\t\t\t\tValue: Value{\n\t\t\t\t\t\tAmount:   l.Tr", "Time:        l.Transactions[i].Splits[0].Time,\n\t\t\t\t\tValue: Value{\n\t\t\t\t\t\tAmount:   l.Tr")],
 "the first posting of the transaction is one of those with a date of its own", "the amount in transit never shows up (or at the wrong dates) in the transfer account", r'''
func check() {
	l := load("2020-01-01 x\n  A  10 EUR ; date:2020-01-05\n  B  -10 EUR\n")
	when := day("2020-01-03")
	var sum accounting.Balance
	for _, a := range l.Accounts {
		sum.AddBalance(l.GetBalance(a, when))
	}
	eq("sum of all accounts", sum, "0")
}
''')

seed("c06-same-instant", "C06", [(A, "\t\tif account.Splits[i].Time.After(when) {\n\t\t\treturn account.Splits[i-1].Balance\n\t\t}", "\t\tif account.Splits[i].Time.Equal(when) {\n\t\t\treturn account.Splits[i].Balance\n\t\t}\n\t\tif account.Splits[i].Time.After(when) {\n\t\t\treturn account.Splits[i-1].Balance\n\t\t}")],
 "asking for exactly the moment at which an account has several postings", "only some of the postings of that moment are counted", r'''
func check() {
	l := load("2020-01-01 a\n  A  1 EUR\n  B\n2020-01-02 b\n  A  2 EUR\n  B\n2020-01-02 c\n  A  4 EUR\n  B\n2020-01-03 d\n  A  8 EUR\n  B\n")
	eq("balance", l.GetBalance(acc(l, "A"), day("2020-01-02")), "7 EUR")
}
''')

seed("c07-last-group", "C07", [(P, "\t\t\tif thousandPos > -1 && i-thousandPos != 4 {\n\t\t\t\treturn value, fmt.Errorf(\"syntax error: wrong position for thousand sign '%s'\", value.Currency.Thousand), newCurrency\n\t\t\t}\n\t\t\tdecimalPos = i", "\t\t\tdecimalPos = i")],
 "a number with a group of more or less than three digits just before its decimal sign", "1,23.50 is read as 123.50 instead of being rejected", r'''
func check() {
	l := load("commodity 1,000,000.00 EUR\n2020-01-01 x\n  A  1,23.50 EUR\n")
	if n := len(l.Transactions[0].Splits); n != 0 {
		fail("1,23.50 is read as %s", l.Transactions[0].Splits[0].Value)
	}
}
''')

seed("c08-full-last-digit", "C08", [(A, "for i := 7; i >= precision; i-- {", "for i := 7; i > precision; i-- {")],
 "an amount with exactly one significant decimal more than its commodity shows", "the full form loses that digit", r'''
func check() {
	c := accounting.Currency{Name: "EUR", Decimal: ".", Precision: 2}
	eq("full form", accounting.Value{Amount: 100500000, Currency: &c}.FullString(), "1.005 EUR")
}
''')

seed("c09-long-account", "C09", [(L, "\"account %s\", a.FullName()", "\"account %.60s\", a.FullName()")],
 "an account whose full name has more than 60 letters", "it is exported with its name cut, so that reloading gives one more account and complaints", r'''
func check() {
	name := "Assets:" + strings.Repeat("long ", 12) + "name"
	l := load("2020-01-01 x\n  " + name + "  10 EUR\n  B  -10 EUR\n")
	m, err := open("k.ledger", export(l))
	if err != nil {
		fail("the export does not load: %v", err)
	}
	eq("balance", m.GetBalance(acc(m, name), time.Time{}), "10 EUR")
	eq("accounts", len(m.Accounts), len(l.Accounts))
}
''')

seed("c09-price-digits", "C09", [(L, "fmt.Fprintf(out, \" @@ %s\", v.FullString())", "fmt.Fprintf(out, \" @@ %s\", v.String())")],
 "a cost with more decimals than its commodity shows", "the exported cost is cut, so that the exported journal does not balance or has other prices", r'''
func check() {
	l := load("commodity 1.00 EUR\n2020-01-01 x\n  A  3 ACME @ 1.23456 EUR\n  B\n")
	m, err := open("k.ledger", export(l))
	if err != nil {
		fail("the export does not load: %v", err)
	}
	eq("cost", m.SplitPrices[m.Transactions[0].Splits[0]].FullString(), "3.70368 EUR")
}
''')

seed("c10-hop-date", "C10", [(A, "nv, err := l.Convert(v, when, prevValue.Currency)", "nv, err := l.Convert(v, prevTime, prevValue.Currency)")],
 "a conversion through another commodity at a moment between two prices of the first hop", "the first hop uses the price of its own date instead of the interpolated one", r'''
func check() {
	l := load("P 2020-01-01 ACME 10.00 USD\nP 2020-01-01 USD 1.00 EUR\nP 2020-01-05 ACME 20.00 USD\n")
	v, err := l.Convert(accounting.Value{Amount: accounting.U, Currency: cur(l, "ACME")}, day("2020-01-02"), cur(l, "EUR"))
	if err != nil {
		fail("%v", err)
	}
	eq("price", v, "12.50 EUR")
}
''')

seed("c10-overflow", "C10", [(A, "\ti := big.NewInt(nextValue.Amount - prevValue.Amount)\n\ti.Mul(i, big.NewInt(int64(d1)))\n\ti.Quo(i, big.NewInt(int64(d2)))\n\ti.Add(i, big.NewInt(prevValue.Amount))\n\tprevValue.Amount = i.Int64()\n",
  "\tif d2 >= time.Second {\n\t\t// seconds are enough\n\t\td1, d2 = d1/time.Second, d2/time.Second\n\t}\n\tprevValue.Amount += (nextValue.Amount - prevValue.Amount) * int64(d1) / int64(d2)\n")],
 "interpolating between two distant prices which differ a lot", "the multiplication overflows and the price is nonsense", r'''
func check() {
	l := load("P 2000-01-01 BTC 100 EUR\nP 2040-01-01 BTC 60100 EUR\n")
	v, err := l.Convert(accounting.Value{Amount: accounting.U, Currency: cur(l, "BTC")}, day("2020-01-01"), cur(l, "EUR"))
	if err != nil {
		fail("%v", err)
	}
	if v.Amount < 30000*accounting.U || v.Amount > 30200*accounting.U {
		fail("price: %s", v.FullString())
	}
}
''')

seed("c11-float", "C11", [(A, "\t\t\t\ti = big.NewInt(-U)\n\t\t\t\ti.Mul(i, big.NewInt(balance[1].Amount))\n\t\t\t\ti.Quo(i, big.NewInt(balance[0].Amount))\n\t\t\t\tprice.Value.Amount = i.Int64()",
 "\t\t\t\ti = new(big.Int)\n\t\t\t\tbig.NewFloat(-U * (float64(balance[1].Amount) / float64(balance[0].Amount))).Int(i)\n\t\t\t\tprice.Value.Amount = i.Int64()")],
 "an exchange whose rate is not representable as a floating point number", "the implied price is off in its last digits", r'''
func check() {
	for k := int64(3); k < 3000; k += 7 {
		l := load(fmt.Sprintf("2020-01-01 x\n  A  %d.00 AAA\n  B  -%d.00 BBB\n", k, 29*k))
		found := false
		for _, p := range l.Prices {
			if p.Currency.Name == "AAA" {
				found = true
				eq("price", p.Value.Amount, 29*accounting.U)
			}
		}
		eq("price recorded", found, true)
	}
	l := load("2020-01-01 x\n  A  0.00001 AAA\n  B  -123456.12345678 BBB\n")
	for _, p := range l.Prices {
		if p.Currency.Name == "AAA" {
			eq("price", p.Value.Amount, int64(1234561234567800000))
		}
	}
	l = load("2020-01-01 x\n  A  0.00000300 AAA\n  B  -12345.12345679 BBB\n")
	for _, p := range l.Prices {
		if p.Currency.Name == "AAA" {
			eq("price", p.Value.Amount, int64(411504115226333333))
		}
	}
}
''')

seed("c12-shared-date", "C12", [(A, "\t\t\t\tns.Time = new(time.Time)\n\t\t\t\t*ns.Time = *s.Time\n", "\t\t\t\tns.Time = s.Time\n")],
 "a posting with its own date, whose date is then changed in place in the clone", "changing the date of a posting of the clone also changes the original", r'''
func check() {
	l := load("2020-01-01 x\n  A  10 EUR ; date:2020-01-05\n  B  -10 EUR\n")
	m := l.Clone()
	*m.Transactions[0].Splits[0].Time = day("2020-02-01")
	eq("date in the original", l.Transactions[0].Splits[0].Time.Format("2006-01-02"), "2020-01-05")
}
''')

seed("c12-isin", "C12", [(A, "\t\tnc.Precision = c.Precision\n\t\tnc.ISIN = c.ISIN\n", "\t\tnc.Precision = c.Precision\n")],
 "a commodity with an ISIN", "the clone (and so every command) forgets it", r'''
func check() {
	l := load("commodity 1.00 ACME ; isin:US0000000001\n")
	eq("ISIN", cur(l.Clone(), "ACME").ISIN, "US0000000001")
}
''')

seed("c13-alias", "C13", [(A, "func (b *Balance) AddBalance(b2 Balance) {\n", "func (b *Balance) AddBalance(b2 Balance) {\n\tif len(*b) == 0 {\n\t\t*b = b2 // nothing to add to\n\t\treturn\n\t}\n")],
 "adding a balance to an empty one, and then changing the result", "the operand changes too", r'''
func check() {
	eur := &accounting.Currency{Name: "EUR"}
	src := accounting.Balance{{Amount: accounting.U, Currency: eur}}
	var b accounting.Balance
	b.AddBalance(src)
	b.Add(accounting.Value{Amount: accounting.U, Currency: eur})
	eq("operand", src, "1 EUR")
}
''')

seed("c14-comment-start", "C14", [(P, "if i := strings.IndexByte(text, ';'); i >= 0 {\n\t\t\tcomment = strings.TrimSpace(text[i+1:])", "if i := strings.LastIndexByte(text, ';'); i >= 0 {\n\t\t\tcomment = strings.TrimSpace(text[i+1:])")],
 "an inline comment which has a semicolon itself", "the first part of the comment goes into the description or the amount", r'''
func check() {
	l := load("2020-01-01 shop ; milk; bread\n  A  1 EUR\n  B\n")
	eq("description", l.Transactions[0].Description, "shop")
	eq("comments", l.Comments[l.Transactions[0]], "[milk; bread]")
}
''')

seed("c15-prefix-parent", "C15", [(P, "\tif i := strings.LastIndexByte(str, ':'); i > -1 {", "\tif i := strings.LastIndexByte(str, ':'); i > 0 {")],
 "an account name which starts with a colon", "the part after the colon is not a child of the account with the empty name", r'''
func check() {
	l := load("2020-01-01 x\n  :A  1 EUR\n  :B  -1 EUR\n")
	a := acc(l, ":A")
	if a.Name != "A" || a.Parent == nil {
		fail("account :A has name %q and no parent", a.Name)
	}
}
''')

seed("c16-eof-sign", "C16", [(P, "\tif len(sAmount) == 0 {\n\t\treturn value, errors.New(\"syntax error: empty amount\"), newCurrency\n\t}\n", "")],
 "an amount which is only a sign", "the program crashes", r'''
func check() {
	load("2020-01-01 x\n  A  -\n  B  EUR -\n  C  + EUR\n")
}
''')

seed("c17-included-order", "C17", [(P, "if len(l.ledger.Transactions) > 0 && l.ledger.Transactions[len(l.ledger.Transactions)-1].Time.After(date) {", "if n := len(l.ledger.Transactions); n > 0 && l.ledger.Transactions[n-1].Time.After(date) && l.ledger.Transactions[n-1].ID.(*ID).filename == line.Filename {")],
 "a transaction going back in time with respect to another file", "a disordered set of files is accepted", r'''
func check() {
	write("inc.ledger", "2020-02-01 x\n  A  1 EUR\n  B\n")
	if _, err := open("j.ledger", "include inc.ledger\n2020-01-01 y\n  A  1 EUR\n  B\n"); err == nil {
		fail("a transaction going back in time is accepted")
	}
}
''')

seed("c18-include-dir", "C18", [(P, "filename = path.Join(path.Dir(s.files[len(s.files)-1].filename), filename)", "filename = path.Join(path.Dir(s.files[0].filename), filename)")],
 "files included from an included file in another directory", "they are looked for in the directory of the main file", r'''
func check() {
	write("sub/b.ledger", "2020-01-01 x\n  A  1 EUR\n  B\n")
	write("sub/a.ledger", "include b.ledger\n")
	eq("transactions", len(func() *accounting.Ledger {
		l, err := open("j.ledger", "include sub/a.ledger\n")
		if err != nil {
			fail("%v", err)
		}
		return l
	}().Transactions), 1)
}
''')

seed("c18-line-numbers", "C18", [(P, "\tline.LineNum = file.lineNum\n\tif file.s.Scan() {\n\t\ts.files[len(s.files)-1].lineNum++\n\t\tline.LineNum++\n", "\tline.LineNum = file.lineNum\n\tif file.s.Scan() {\n\t\tfor i := range s.files {\n\t\t\ts.files[i].lineNum++\n\t\t}\n\t\tline.LineNum++\n")],
 "messages about lines after an include", "line numbers after an include count the lines of the included file too", r'''
func check() {
	write("inc.ledger", "2020-01-01 x\n  A  1 EUR\n  B\n")
	l, err := open("j.ledger", "include inc.ledger\n2020-01-02 y\n  A  1 EUR\n  B\n")
	if err != nil {
		fail("%v", err)
	}
	if id := l.Transactions[1].ID.String(); !strings.HasSuffix(id, "j.ledger:2") {
		fail("the second transaction is at %s", id)
	}
}
''')

seed("c19-interval-break", "C19", [(A, "\t\tif end.Before(t.Time) {\n\t\t\tcontinue\n\t\t}\n\t\ttrans", "\t\tif !t.Time.Before(end) {\n\t\t\tbreak\n\t\t}\n\t\ttrans")],
 "an interval which ends exactly at a transaction", "the transactions at the end of the interval are left out", r'''
func check() {
	l := load("2020-01-01 x\n  A  1 EUR\n  B\n2020-01-02 y\n  A  1 EUR\n  B\n")
	eq("transactions", len(l.TransactionsInInterval(day("2020-01-01"), day("2020-01-02"))), 2)
}
''')

seed("c19-nested-account", "C19", [(A, "\t\t\tif s.Account.ID == account {\n\t\t\t\ttrans = append(trans, t)\n\t\t\t\tbreak\n", "\t\t\tif s.Account.ID == account {\n\t\t\t\ttrans = append(trans, t)\n")],
 "a transaction with two postings in the account", "it is listed twice", r'''
func check() {
	l := load("2020-01-01 x\n  A  1 EUR\n  A  2 EUR\n  B\n")
	eq("transactions", len(l.TransactionsInAccount(acc(l, "A").ID)), 1)
}
''')

seed("c17-price-order", "C17", [(P, "if len(l.ledger.Prices) > 0 && l.ledger.Prices[len(l.ledger.Prices)-1].Time.After(price.Time) {", "if len(l.ledger.Prices) > 0 && l.ledger.Prices[len(l.ledger.Prices)-1].Time.Sub(price.Time) >= 24*time.Hour {")],
 "a price some hours older than the previous one", "prices going back in time less than a day are accepted", r'''
func check() {
	if _, err := open("j.ledger", "P 2020-01-02/12:00 ACME 1.00 EUR\nP 2020-01-02/11:59 ACME 2.00 EUR\n"); err == nil {
		fail("a price going back in time is accepted")
	}
}
''')

seed("c20-scheme-default", "C20", [(A, "\t\tfor _, b := range defaultSchemes {\n\t\t\tif drivers[b] != nil {\n\t\t\t\tbackend = b\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n", "\t\tfor _, b := range defaultSchemes {\n\t\t\tif drivers[b] != nil {\n\t\t\t\tbackend = b\n\t\t\t}\n\t\t}\n")],
 "a data source without a scheme when several backends are registered", "the last registered of the default backends is used", r'''
func check() {
	l, err := accounting.Open(write("j.ledger", "2020-01-01 x\n  A  1 EUR\n  B\n"))
	if err != nil {
		fail("%v", err)
	}
	eq("transactions", len(l.Transactions), 1)
}
''')

seed("c20-flush", "C20", [(A, "\tif ok {\n\t\treturn x.Flush()\n\t}\n", "\tif ok {\n\t\tx.Flush()\n\t}\n")],
 "a backend whose Flush fails", "the failure is not reported", r'''
func check() {
	write("db/accounts", "1:::A::\n")
	l, err := accounting.Open("txtdb:" + filepath.Join(scratch, "db"))
	if err != nil {
		fail("%v", err)
	}
	if l.Flush() == nil {
		fail("flushing a txtdb database is not implemented, and it says that it was done")
	}
}
''')

seed("c21-children", "C21", [(A, "\t\ta.Splits = nil\n\t\ta.Children = nil\n", "\t\ta.Splits = nil\n")],
 "recalculating a ledger which has accounts inside other ones", "the children of every account are listed again, and the accounts with them", r'''
func check() {
	l := load("account A:B\naccount A:C\n2020-01-01 x\n  A:B  1 EUR\n  A:C\n")
	n := len(l.Accounts)
	if err := l.Fill(); err != nil {
		fail("%v", err)
	}
	eq("accounts", len(l.Accounts), n)
	eq("children", len(acc(l, "A").Children), 2)
}
''')

seed("c21-inserted-order", "C21", [(A, "\tsort.SliceStable(l.Transactions, func(i, j int) bool {\n\t\treturn l.Transactions[i].Time.Before(l.Transactions[j].Time)\n\t})\n", "\tfor i := len(l.Transactions) - 1; i > 0 && l.Transactions[i].Time.Before(l.Transactions[i-1].Time); i-- {\n\t\t// the last one may be new\n\t\tl.Transactions[i], l.Transactions[i-1] = l.Transactions[i-1], l.Transactions[i]\n\t}\n")],
 "adding two or more transactions in the past before recalculating", "only the last one is put in its place", r'''
func check() {
	l := load("2020-01-01 a\n  A  1 EUR\n  B\n2020-02-01 b\n  A  2 EUR\n  B\n2020-03-01 c\n  A  4 EUR\n  B\n")
	eur := cur(l, "EUR")
	for _, d := range []string{"2020-01-20", "2020-01-10"} {
		t := &accounting.Transaction{Time: day(d), Description: d}
		t.Splits = []*accounting.Split{
			{Account: acc(l, "A"), Value: accounting.Value{Amount: 8 * accounting.U, Currency: eur}},
			{Account: acc(l, "B"), Value: accounting.Value{Amount: -8 * accounting.U, Currency: eur}}}
		l.Transactions = append(l.Transactions, t)
	}
	if err := l.Fill(); err != nil {
		fail("%v", err)
	}
	var got []string
	for _, t := range l.Transactions {
		got = append(got, t.Description)
	}
	eq("order", got, "[a 2020-01-10 2020-01-20 b c]")
}
''')

seed("c23-rounding", "C23", [(X, "\t\t\tsp.Value.Amount = sign * int64(math.Round(100*f)) * 1000_000\n", "\t\t\tsp.Value.Amount = sign * int64(100*f) * 1000_000\n")],
 "an amount whose cents are not exact in floating point, like 0.29 or 1.15", "a cent is lost", r'''
func check() {
	write("db/accounts", "1:::A::\n2:::B::\n")
	write("db/transactions", "1:2020-01-01:x::1:+0.29:\n1:2020-01-01:x::2:-0.29:\n")
	l, err := accounting.Open("txtdb:" + filepath.Join(scratch, "db"))
	if err != nil {
		fail("%v", err)
	}
	eq("amount", l.Transactions[0].Splits[0].Value.Amount, 29000000)
}
''')

seed("c23-late-date", "C23", [(X, "\t\tif err != nil {\n\t\t\tthisTime, err = time.Parse(\"2006-01-02\", strings.TrimSpace(fields[1]))\n\t\t}\n", "\t\tif err != nil {\n\t\t\tthisTime, err = time.Parse(\"2006-01-02\", strings.TrimSpace(fields[1]))\n\t\t\tif err == nil && thisTime.Format(\"2006-01-02\") == oldTime.Format(\"2006-01-02\") {\n\t\t\t\tthisTime = oldTime // same day: keep the order\n\t\t\t}\n\t\t}\n")],
 "movements without time after others of the same day with a time", "they get the time of the previous movement", r'''
func check() {
	write("db/accounts", "1:::A::\n2:::B::\n")
	write("db/transactions", "1:2020-01-01 10.30:x::1:+1.00:\n1:2020-01-01 10.30:x::2:-1.00:\n2:2020-01-01:y::1:+1.00:\n2:2020-01-01:y::2:-1.00:\n")
	l, err := accounting.Open("txtdb:" + filepath.Join(scratch, "db"))
	if err != nil {
		fail("%v", err)
	}
	eq("date of y", acc(l, "A").Splits[0].Transaction.Description, "y")
}
''')

seed("c24-end-of-month", "C24", [(M, "flags.endDate = flags.endDate.AddDate(0, 1, -1)", "flags.endDate = flags.endDate.AddDate(0, 0, 29)")],
 "-e with a month of 31 days (or February)", "the last day of the month is left out (or March days counted)", r'''
func check() {
	f := write("j.ledger", "2020-01-30 x\n  A  1 EUR\n  B\n2020-01-31 y\n  A  2 EUR\n  B\n2020-02-29 z\n  A  4 EUR\n  B\n2020-03-01 t\n  A  8 EUR\n  B\n")
	out, _ := run("ledger", "-f", f, "-e", "2020-01", "balance", "A")
	if !strings.Contains(out, "3 EUR A") {
		fail("balance at the end of January:\n%s", out)
	}
	out, _ = run("ledger", "-f", f, "-e", "2020-02", "balance", "A")
	if !strings.Contains(out, "7 EUR A") {
		fail("balance at the end of February:\n%s", out)
	}
}
''')

seed("c25-empty-period", "C25", [(M, "\t\t\tfor j := len(L.Accounts[i].Splits) - 1; j >= 0; j-- {\n\t\t\t\tif L.Accounts[i].Splits[j].Time.Before(flags.beginDate) {\n\t\t\t\t\tL.Accounts[i].StartBalance", "\t\t\tfor j := len(L.Accounts[i].Splits) - 2; j >= 0; j-- {\n\t\t\t\tif L.Accounts[i].Splits[j].Time.Before(flags.beginDate) {\n\t\t\t\t\tL.Accounts[i].StartBalance")],
 "delta or income statement with -b after the last posting of an account", "the last posting of the account is counted in the period", r'''
func check() {
	f := write("j.ledger", "2020-01-30 x\n  A  1 EUR\n  B\n2020-02-28 y\n  C  2 EUR\n  B\n")
	out, _ := run("ledger", "-f", f, "-b", "2020-02", "delta", "A")
	eq("delta", strings.TrimSpace(out), "0")
}
''')

seed("c25-net-sign", "C25", [(M, "\t\t\tb := a.Splits[0].Balance.Dup()\n\t\t\tb.SubBalance(a.Splits[len(a.Splits)-1].Balance)\n\t\t\tb.Sub(a.Splits[0].Value)\n", "\t\t\tvar b accounting.Balance\n\t\t\tb.SubBalance(a.Splits[len(a.Splits)-1].Balance)\n\t\t\tif len(a.StartBalance) > 0 && len(a.Splits) > 1 {\n\t\t\t\tb.AddBalance(a.StartBalance)\n\t\t\t}\n")],
 "an income account with exactly one posting in a period which does not start at the beginning", "what was earned before the period is shown as earned in it", r'''
func check() {
	f := write("j.ledger", "2020-01-30 x\n  Income:Job  -100 EUR\n  B\n2020-02-28 y\n  Income:Job  -7 EUR\n  B\n")
	out, _ := run("ledger", "-f", f, "-b", "2020-02", "-total", "is")
	eq("net", strings.TrimSpace(out), "7 EUR")
}
''')

seed("c26-shared", "C26", [(M, "\t\t\t\tmain2(L.Clone(), os.Args[begin:i])\n", "\t\t\t\tC := *L\n\t\t\t\tmain2(&C, os.Args[begin:i])\n")],
 "a chained command with dates or pivot before another command", "the postings left out by the first command are missing in the second", r'''
func check() {
	f := write("j.ledger", "2020-01-30 x\n  A  1 EUR\n  B\n2020-02-28 y\n  A  2 EUR\n  B\n")
	out, _ := run("ledger", "-f", f, "-e", "2020-01", "balance", "A", "--", "balance", "A")
	if !strings.Contains(out, "3 EUR A") {
		fail("%s", out)
	}
}
''')

seed("c27-market-total", "C27", [(M, "\t\t\tfor _, v := range accounts[i].Balance {\n\t\t\t\tnv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)\n", "\t\t\tfor _, v := range accounts[i].Balance {\n\t\t\t\tif v.Amount == 0 || v.Currency.Name == L.DefaultCurrency.Name {\n\t\t\t\t\tbal.Add(v)\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tnv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)\n")],
 "-market with a journal without default commodity", "the program crashes instead of giving a message", r'''
func check() {
	f := write("j.ledger", "2020-01-30 x\n  A  1 EUR\n  B\n")
	out, code := run("ledger", "-f", f, "-market", "balance")
	if code == 0 || strings.Contains(out, "panic") || strings.Contains(out, "goroutine") {
		fail("status %d:\n%s", code, out)
	}
}
''')

seed("c28-stats-days", "C28", [(M, "time.Date(lastYear, lastMonth, lastDay, 0, 0, 0, 0, time.UTC)", "time.Date(lastYear, lastMonth, lastDay, last.Hour(), last.Minute(), last.Second(), 0, time.UTC)"), (M, "time.Date(firstYear, firstMonth, firstDay, 0, 0, 0, 0, time.UTC)", "time.Date(firstYear, firstMonth, firstDay, first.Hour(), first.Minute(), first.Second(), 0, time.UTC)")],
 "a first transaction later in its day than the last one in its own", "the number of days is one less", r'''
func check() {
	f := write("j.ledger", "2020-01-30/18:00 x\n  A  1 EUR\n  B\n2020-01-31/09:00 y\n  A  2 EUR\n  B\n")
	out, _ := run("ledger", "-f", f, "stats")
	if !strings.Contains(out, "(2 days)") {
		fail("%s", out)
	}
}
''')

seed("c28-begin-exact", "C28", [(M, "\t\t\tif L.Transactions[i].Time.Before(flags.beginDate) {\n\t\t\t\tL.Transactions = L.Transactions[i+1:]", "\t\t\tif !L.Transactions[i].Time.After(flags.beginDate) {\n\t\t\t\tL.Transactions = L.Transactions[i+1:]")],
 "a transaction at exactly the begin of the period", "it is not printed", r'''
func check() {
	f := write("j.ledger", "2020-01-30 x\n  A  1 EUR\n  B\n2020-01-31/00:00 y\n  A  2 EUR\n  B\n")
	out, _ := run("ledger", "-f", f, "-b", "2020-01-31", "print")
	if !strings.Contains(out, "2020-01-31/00:00 y") || strings.Contains(out, " x\n") {
		fail("%s", out)
	}
}
''')

seed("c30-days", "C30", [(U, "\tif err != nil {\n\t\tflags.measureMonths = 0\n\t\t_, err = fmt.Sscanf(txtMeasurePeriod+\"_\", \"%dd_\"", "\tif err != nil {\n\t\t_, err = fmt.Sscanf(txtMeasurePeriod+\"_\", \"%dd_\"")],
 "a measure period given in days only", "the number of days is also taken as a number of months", r'''
func check() {
	text := "D 1.00 EUR\n"
	for d := day("2018-01-01"); d.Before(day("2020-06-10")); d = d.AddDate(0, 0, 1) {
		text += fmt.Sprintf("P %s ACME %d EUR\n", d.Format("2006-01-02"), 100+d.YearDay())
	}
	f := write("j.ledger", text)
	a, _ := run("muscular", "-f", f, "-e", "2020-05-30", "-measureperiod", "10d", "ACME")
	b, _ := run("muscular", "-f", f, "-e", "2020-05-30", "-measureperiod", "0m10d", "ACME")
	eq("momentum", a, b)
}
''')

seed("c32-repeated", "C32", [(G, "\t\tsplit := new(accounting.Split)\n\t\tsplit.Account = idAccount[aid]\n", "\t\taccount := idAccount[aid]\n\t\tif l := len(tra.Splits); l > 0 && tra.Splits[l-1].Account == account && tra.Splits[l-1].Value.Amount == value*(accounting.U/100) {\n\t\t\tcontinue // repeated row\n\t\t}\n\t\tsplit := &accounting.Split{Account: account}\n")],
 "a transaction with two equal postings, one after the other", "the second one is left out", r'''
func check() {
	pgCheck()
}

func pgCheck() {
	ln, err := net.Listen("unix", scratch+"/.s.PGSQL.5432")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go pgServe(c)
		}
	}()
	l, err := accounting.Open("postgres:///db?host=" + scratch + "&user=u&sslmode=disable")
	if err != nil {
		fail("%v", err)
	}
	eq("balance", l.GetBalance(l.Accounts[0], time.Time{}), "2.00")
}

func pgServe(c net.Conn) {
	msg := func(k byte, body string) {
		b := []byte{k, 0, 0, 0, 0}
		binary.BigEndian.PutUint32(b[1:], uint32(len(body)+4))
		c.Write(append(b, body...))
	}
	b := make([]byte, 8192)
	c.Read(b)
	msg('R', "\x00\x00\x00\x00")
	for _, s := range []string{"server_version\x0012\x00", "client_encoding\x00UTF8\x00", "TimeZone\x00UTC\x00"} {
		msg('S', s)
	}
	msg('Z', "I")
	row := func(cols ...string) {
		s := string(binary.BigEndian.AppendUint16(nil, uint16(len(cols))))
		for _, x := range cols {
			s += string(binary.BigEndian.AppendUint32(nil, uint32(len(x)))) + x
		}
		msg('D', s)
	}
	desc := func(oids ...byte) {
		s := string(binary.BigEndian.AppendUint16(nil, uint16(len(oids))))
		for _, o := range oids {
			if o == 1 {
				s += "c\x00" + "\x00\x00\x00\x00" + "\x00\x00" + "\x00\x00\x04\x5a" + "\xff\xff" + "\xff\xff\xff\xff" + "\x00\x00"
				continue
			}
			s += "c\x00" + "\x00\x00\x00\x00" + "\x00\x00" + "\x00\x00\x00" + string(rune(o)) + "\xff\xff" + "\xff\xff\xff\xff" + "\x00\x00"
		}
		msg('T', s)
	}
	for {
		n, err := c.Read(b)
		if err != nil {
			return
		}
		q := string(b[:n])
		switch {
		case strings.Contains(q, "FROM account"):
			desc(23, 25, 25, 23)
			row("1", "A", "", "0")
			row("2", "B", "", "0")
			msg('C', "SELECT 2\x00")
		case strings.Contains(q, "FROM money"):
			desc(1, 23, 23, 25, 25, 23)
			for _, x := range []string{"100", "100", "-100", "-100"} {
				row("2020-01-01 12:00:00", "1", map[bool]string{true: "2", false: "1"}[x[0] == '-'], "x", x, "0")
			}
			msg('C', "SELECT 4\x00")
		default:
			msg('I', "")
		}
		msg('Z', "I")
	}
}
''')
