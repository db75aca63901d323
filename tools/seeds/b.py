seed("c01-two-omitted", "C01", [(A, "\t\t\t\t\tif unbalancedSplit != nil {\n\t\t\t\t\t\treturn fmt.Errorf(\"%s: more than one", "\t\t\t\t\tif unbalancedSplit != nil && len(balance) > 0 {\n\t\t\t\t\t\treturn fmt.Errorf(\"%s: more than one")],
 "two postings without amount before any posting with one", "the transaction is accepted and one of the two stays without an amount", r'''
func check() {
	if _, err := open("a.ledger", "2020-01-01 x\n  A\n  B\n  C  10 EUR\n"); err == nil {
		fail("two postings without amount are accepted")
	}
}
''')

seed("c01-three-left", "C01", [(A, "\t\t\tif len(balance) == 2 {\n", "\t\t\tif len(balance) > 2 && len(transaction.Splits) > 2*len(balance) {\n\t\t\t\tbalance = balance[:2] // several exchanges at once\n\t\t\t}\n\t\t\tif len(balance) >= 2 && len(balance) != 3 || len(balance) == 2 {\n")],
 "a transaction of many postings leaving four commodities or more", "it is accepted as if it was an exchange of two commodities", r'''
func check() {
	text := "2020-01-01 x\n"
	for i, c := range []string{"EUR", "USD", "GBP", "CHF"} {
		text += fmt.Sprintf("  A%d  %d %s\n  B%d  %d %s\n", i, 3*i+5, c, i, -1-i, c)
	}
	text += "  C  1 EUR\n"
	if _, err := open("a.ledger", text); err == nil {
		fail("a transaction leaving four commodities is accepted")
	}
}
''')

seed("c02-omitted-first-cost", "C02", [(A, "\t\t\t\tunbalancedSplit.Value = balance[0]\n\t\t\t\tunbalancedSplit.Value.Amount = -unbalancedSplit.Value.Amount\n", "\t\t\t\tunbalancedSplit.Value = balance[0]\n\t\t\t\tunbalancedSplit.Value.Amount = -unbalancedSplit.Value.Amount\n\t\t\t\tif p := balance[0].Currency.Precision; p < 8 && len(transaction.Splits) > 2 {\n\t\t\t\t\tunit := accounting10(8 - p)\n\t\t\t\t\tunbalancedSplit.Value.Amount -= unbalancedSplit.Value.Amount % unit\n\t\t\t\t}\n"), (A, "// Convert returns a value to another currency.", "func accounting10(n int) int64 {\n\tvar r int64 = 1\n\tfor ; n > 0; n-- {\n\t\tr *= 10\n\t}\n\treturn r\n}\n\n// Convert returns a value to another currency.")],
 "an omitted amount with more decimals than its commodity usually has, among three postings or more", "the omitted amount is cut to the usual number of decimals", r'''
func check() {
	l := load("commodity 1.00 EUR\n2020-01-01 x\n  A  0.333 EUR\n  B  0.333 EUR\n  C\n")
	eq("inferred", l.Transactions[0].Splits[2].Value.FullString(), "-0.666 EUR")
}
''')

seed("c04-shown-digits", "C04", [(A, "if a := l.Assertions[s]; a != (Value{}) {", "if a := l.Assertions[s]; a != (Value{}) && (s.Value == (Value{}) || !b.shows(a)) {"), (A, "// Convert returns a value to another currency.", "// shows returns whether a balance has some amount.\nfunc (b Balance) shows(a Value) bool {\n\tfor _, v := range b {\n\t\tif v.String() == a.String() {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}\n\n// Convert returns a value to another currency.")],
 "an assertion which is wrong only beyond the decimals shown for its commodity", "it is accepted", r'''
func check() {
	if _, err := open("a.ledger", "commodity 1.00 EUR\n2020-01-01 x\n  A  10.001 EUR = 10.004 EUR\n  B\n"); err == nil {
		fail("a wrong assertion is accepted")
	}
}
''')

seed("c04-last-of-day", "C04", [(A, "if a := l.Assertions[s]; a != (Value{}) {", "n := iAccounts[i] + 1\n\t\t\t\tif a := l.Assertions[s]; a != (Value{}) && (s.Value == (Value{}) || n == len(l.Accounts[i].Splits) || l.Accounts[i].Splits[n].Transaction != s.Transaction) {")],
 "a wrong assertion on a posting followed by another of the same account in the same transaction", "it is not checked", r'''
func check() {
	if _, err := open("a.ledger", "2020-01-01 x\n  A  10 EUR = 12 EUR\n  A  2 EUR\n  B\n"); err == nil {
		fail("a wrong assertion is accepted")
	}
}
''')

seed("c05-first-posting", "C05", [(A, "\t\t\t\t\tTime:        &l.Transactions[i].Time,\n", "\t\t\t\t\tTime:        l.Transactions[i].Splits[0].Time,\n")],
 "two postings with their own dates, the first one among them", "amounts in transit enter the transfer account at the date of the first posting instead of the date of the transaction", r'''
func check() {
	l := load("2020-01-05 x\n  A  10 EUR ; date:2020-01-03\n  B  -4 EUR\n  C  -6 EUR ; date:2020-01-09\n")
	for _, d := range []string{"2020-01-04", "2020-01-06", "2020-01-10"} {
		var b accounting.Balance
		for _, a := range l.Accounts {
			b.AddBalance(l.GetBalance(a, day(d)))
		}
		eq("sum of all at "+d, b, "0")
	}
}
''')

seed("c06-binary", "C06", [(A, "\tfor i := 1; i < len(account.Splits); i++ {\n\t\tif account.Splits[i].Time.After(when) {\n\t\t\treturn account.Splits[i-1].Balance\n\t\t}\n\t}\n", "\ti := sort.Search(len(account.Splits), func(i int) bool { return !account.Splits[i].Time.Before(when) })\n\tif i < len(account.Splits) && account.Splits[i].Time.Equal(when) {\n\t\ti++\n\t}\n\tif i > 0 {\n\t\treturn account.Splits[i-1].Balance\n\t}\n")],
 "several postings at exactly the time asked for", "only the first of them is counted", r'''
func check() {
	l := load("2020-01-05 x\n  A  10 EUR\n  A  7 EUR\n  B\n")
	t := time.Date(2020, 1, 5, 12, 0, 0, 0, time.UTC)
	eq("balance", l.GetBalance(acc(l, "A"), t), "17 EUR")
}
''')

seed("c07-underscore", "C07", [(P, "\t\t\tif !strings.ContainsRune(\"-+0123456789.,_'\", c) {", "\t\t\tif !strings.ContainsRune(\"-+0123456789.,'\", c) {")],
 "an amount with _ as thousand sign before its commodity", "only its first digits are read, in a commodity with another name", r'''
func check() {
	l := load("2020-01-01 x\n  A  1_234.50 EUR\n  B\n")
	eq("amount", l.Transactions[0].Splits[0].Value.Amount, 123450000000)
}
''')

seed("c07-plus", "C07", [(P, "\t} else if sAmount[0] == '+' {\n\t\tsAmount = sAmount[1:]\n\t}\n\tif len(sAmount) == 0 {\n", "\t} else if sAmount[0] == '+' {\n\t\tsAmount = sAmount[1:]\n\t}\n\tif i := strings.LastIndexByte(sAmount, '-'); i > 0 && i < 4 {\n\t\tsAmount = sAmount[:i] + sAmount[i+1:]\n\t}\n\tif len(sAmount) == 0 {\n")],
 "an amount with a minus sign among its digits", "it is read as another number instead of being rejected", r'''
func check() {
	l, err := open("j.ledger", "2020-01-01 x\n  A  12-34 EUR\n  A  -1 EUR\n  B\n")
	if err == nil && len(l.Transactions[0].Splits) == 3 {
		fail("12-34 EUR is read as %s", l.Transactions[0].Splits[0].Value)
	}
}
''')

seed("c09-third-comment", "C09", [(L, "\t\t\tif len(ledger.Comments[p]) > 1 {\n\t\t\t\tfor _, c := range ledger.Comments[p][1:] {\n", "\t\t\tif len(ledger.Comments[p]) > 2 {\n\t\t\t\tfor _, c := range ledger.Comments[p][1:] {\n")],
 "a price with exactly two comments", "the second one is lost when exporting", r'''
func check() {
	l := load("commodity 1.00 EUR\nP 2020-01-01 X 3 EUR ; one\n  ; two\n")
	m := load(export(l))
	eq("comments", m.Comments[m.Prices[0]], []string{"one", "two"})
}
''')

seed("c10-far-next", "C10", [(A, "\t\tnextTime = p.Time\n\t\tnextValue = p.Value\n\t\tbreak\n", "\t\tnextTime = p.Time\n\t\tnextValue = p.Value\n\t\tif prevTime != (time.Time{}) {\n\t\t\tbreak\n\t\t}\n")],
 "a conversion before the first of several prices", "the last price is used instead of the nearest one", r'''
func check() {
	l := load("commodity 1.00 EUR\nP 2020-02-01 X 3 EUR\nP 2020-03-01 X 9 EUR\n")
	v, err := l.Convert(accounting.Value{Amount: accounting.U, Currency: cur(l, "X")}, day("2020-01-01"), cur(l, "EUR"))
	eq("error", err, nil)
	eq("value", v, "3.00 EUR")
}
''')

seed("c11-inverse", "C11", [(A, "\t\t\t\ti = big.NewInt(-U)\n\t\t\t\ti.Mul(i, big.NewInt(balance[0].Amount))\n\t\t\t\ti.Quo(i, big.NewInt(balance[1].Amount))\n\t\t\t\tprice.Value.Amount = i.Int64()\n", "\t\t\t\tinv := i.Int64()\n\t\t\t\ti = big.NewInt(U)\n\t\t\t\ti.Mul(i, big.NewInt(U))\n\t\t\t\tif inv == 0 {\n\t\t\t\t\tinv = 1\n\t\t\t\t}\n\t\t\t\ti.Quo(i, big.NewInt(inv))\n\t\t\t\tprice.Value.Amount = i.Int64()\n")],
 "an exchange whose two rates are not exact", "the second price is the inverse of the rounded first one, instead of accurate to the last digit", r'''
func check() {
	l := load("2020-01-01 x\n  B  -1234567.00 JPY\n  A  7.00 EUR\n")
	for _, p := range l.Prices {
		if p.Currency.Name == "JPY" {
			eq("price of JPY", p.Value.Amount, 7*accounting.U/1234567)
		} else {
			eq("price of EUR", p.Value.Amount, 17636671428571)
		}
	}
}
''')

seed("c12-split-prices", "C12", [(A, "\tfor s, v := range l.SplitPrices {\n", "\tfor s, v := range l.SplitPrices {\n\t\tif s.Value.Currency == nil || s.Value.Currency == v.Currency {\n\t\t\tcontinue\n\t\t}\n")],
 "a cost given in the same commodity as the amount", "the clone has no cost for that posting", r'''
func check() {
	l := load("2020-01-01 x\n  A  10 EUR @@ 9 EUR\n  B\n")
	eq("costs", len(l.Clone().SplitPrices), 1)
}
''')

seed("c14-hash", "C14", [(P, "if text[0] == '*' || text[0] == '#' || text[0] == ';' {", "if text[0] == ';' || (!indented && (text[0] == '*' || text[0] == '#')) {")],
 "an indented comment line starting with # or *", "the comment becomes a posting of an account with that name", r'''
func check() {
	l := load("2020-01-01 x\n  # a note\n  A  10 EUR\n  B\n")
	eq("postings", len(l.Transactions[0].Splits), 2)
	eq("comments", l.Comments[l.Transactions[0]], []string{"a note"})
}
''')

seed("c14-midnight", "C14", [(P, "\t\td, e = time.Parse(\"2006-01-02-15-04\", s)\n", "\t\td, e = time.Parse(\"2006-01-02-15-04\", s)\n\t\tif e == nil && d.Hour() == 0 && d.Minute() == 0 {\n\t\t\td = d.Add(12 * time.Hour) // no time at all\n\t\t}\n"), (P, "\td = d.Add(12 * time.Hour)\n\tif e != nil {", "\tif e == nil {\n\t\td = d.Add(12 * time.Hour)\n\t}\n\tif e != nil {")],
 "a transaction at exactly midnight, with hours and minutes", "it is read as being at noon", r'''
func check() {
	l := load("2020-01-01/00:00 x\n  A  10 EUR\n  B\n")
	eq("time", l.Transactions[0].Time.Hour(), 0)
}
''')

seed("c15-case", "C15", [(P, "\t\tif str == l.ledger.Accounts[i].FullName() {", "\t\tif strings.EqualFold(str, l.ledger.Accounts[i].FullName()) {")],
 "two accounts whose names differ only in case", "they are taken as the same account", r'''
func check() {
	l := load("2020-01-01 x\n  Assets:CASH  10 EUR\n  Assets:Cash  -10 EUR\n")
	acc(l, "Assets:CASH")
	acc(l, "Assets:Cash")
}
''')

seed("c16-silent", "C16", [(P, "\t\tlog.Printf(\"%s:%d: UNIMPLEMENTED: \\\"%s\\\" (%s)\\n\", line.Filename, line.LineNum, text, comment)\n", "\t\tif indented && lastLine != lineNone {\n\t\t\tcontinue // details of the previous entry\n\t\t}\n\t\tlog.Printf(\"%s:%d: UNIMPLEMENTED: \\\"%s\\\" (%s)\\n\", line.Filename, line.LineNum, text, comment)\n")],
 "an indented line which is not a comment below an account, commodity, price or include line", "it is dropped without a message", r'''
func check() {
	var b bytes.Buffer
	log.SetOutput(&b)
	load("commodity 1.00 EUR\n  format 1.00\n2020-01-01 x\n  A  1 EUR\n  B\n")
	log.SetOutput(os.Stdout)
	if !strings.Contains(b.String(), "j.ledger:2") {
		fail("nothing is said about line 2: %s", b.String())
	}
}
''')

seed("c16-short", "C16", [(P, "\t\tif !indented {\n\t\t\tdate, err := GetDate(word)\n", "\t\tif !indented {\n\t\t\tif word[len(word)-1] == '*' || rest != \"\" && rest[0] == '!' && rest[1] == ' ' {\n\t\t\t\tword, rest = strings.TrimRight(word, \"*\"), strings.TrimLeft(rest, \"! \") // marks\n\t\t\t}\n\t\t\tdate, err := GetDate(word)\n")],
 "a transaction whose whole description is an exclamation mark", "the program crashes", r'''
func check() {
	load("2020-01-01 !\n  A  1 EUR\n  B\n")
}
''')

seed("c17-dup-comment", "C17", [(P, "\t\t\tif new == false {\n", "\t\t\tif new == false && comment == \"\" {\n")],
 "an account declared again with a comment", "it is accepted", r'''
func check() {
	if _, err := open("j.ledger", "account A ; one\naccount A ; two\n"); err == nil {
		fail("an account declared twice is accepted")
	}
}
''')

seed("c18-empty", "C18", [(P, "\tif line.Err == nil {\n\t\tfile.f.Close()\n", "\tif line.Err == nil && file.lineNum == 0 {\n\t\tline.Err = io.EOF\n\t}\n\tif line.Err == nil {\n\t\tfile.f.Close()\n")],
 "an included file which is empty", "the rest of the journal is ignored", r'''
func check() {
	write("inc.ledger", "")
	l := load("2020-01-01 x\n  A  1 EUR\n  B\ninclude inc.ledger\n2020-01-02 y\n  A  1 EUR\n  B\n")
	eq("transactions", len(l.Transactions), 2)
}
''')

seed("c19-twice", "C19", [(A, "\t\t\tif s.Account.ID == account {\n\t\t\t\ttrans = append(trans, t)\n\t\t\t\tbreak\n\t\t\t}\n", "\t\t\tif s.Account.ID == account && (len(trans) == 0 || trans[0] != t) {\n\t\t\t\ttrans = append(trans, t)\n\t\t\t}\n")],
 "a transaction, not the first one, with two postings in the account", "it is returned twice", r'''
func check() {
	l := load("2020-01-01 x\n  A  1 EUR\n  B\n2020-01-02 y\n  A  1 EUR\n  A  2 EUR\n  B\n")
	eq("transactions", len(l.TransactionsInAccount(acc(l, "A").ID)), 2)
}
''')

seed("c20-with-error", "C20", [(A, "\treturn b.Ledger, nil\n}", "\treturn b.Ledger, err\n}"), (A, "\tif err = b.Ledger.Fill(); err != nil {\n\t\tb.Ledger.connection.Close()\n\t\treturn nil, err\n\t}\n", "\tif err = b.Ledger.Fill(); err != nil {\n\t\tb.Ledger.connection.Close()\n\t}\n")],
 "a journal which does not balance", "opening it returns a ledger together with the error", r'''
func check() {
	if l, err := open("j.ledger", "2020-01-01 x\n  A  1 EUR\n  B  2 EUR\n"); l != nil || err == nil {
		fail("got ledger %v, error %v", l != nil, err)
	}
}
''')

seed("c20-register", "C20", [(A, "\tdriversMu.Lock()\n\tdefer driversMu.Unlock()\n\tif driver == nil {\n\t\tpanic(\"accounting: Register driver is nil\")\n\t}\n\tif _, dup := drivers[name]; dup {\n", "\tdriversMu.Lock()\n\tdefer driversMu.Unlock()\n\told, dup := drivers[name]\n\tdrivers[name] = driver\n\tif driver == nil {\n\t\tdrivers[name] = old\n\t\tpanic(\"accounting: Register driver is nil\")\n\t}\n\tif dup {\n")],
 "registering a name twice and recovering from the panic", "the second backend replaces the first one", r'''
type dr struct{ err error }

func (d dr) Open(string, *accounting.Backend) (accounting.Connection, error) { return nil, d.err }

func check() {
	accounting.Register("demo", dr{fmt.Errorf("first")})
	func() {
		defer func() { recover() }()
		accounting.Register("demo", dr{fmt.Errorf("second")})
	}()
	_, err := accounting.Open("demo:x")
	eq("backend", err, "first")
}
''')

seed("c21-comments", "C21", [(A, "\t\tl.Transactions[i].Time.Before(l.Transactions[j].Time)\n" if False else "\tfor _, t := range l.Transactions {\n\t\tfor _, s := range t.Splits {\n\t\t\ts.Transaction = t\n", "\tfor _, t := range l.Transactions {\n\t\tfor _, s := range t.Splits {\n\t\t\tif s.Transaction == nil && s.Value.Currency == nil && len(l.Comments[s]) > 0 {\n\t\t\t\tdelete(l.Assertions, s)\n\t\t\t}\n\t\t\tif s.Transaction != nil && len(l.Assertions) > 0 && l.Assertions[s] != (Value{}) && l.SplitPrices[s] == (Value{}) && s.Time != &t.Time {\n\t\t\t\tdelete(l.Assertions, s)\n\t\t\t}\n\t\t\ts.Transaction = t\n")],
 "recalculating a ledger which has an assertion on a posting with its own date", "the assertion is lost", r'''
func check() {
	l := load("2020-01-01 x\n  A  1 EUR = 1 EUR ; date:2020-01-02\n  B\n")
	l.Fill()
	eq("assertions", len(l.Assertions), 1)
}
''')

seed("c22-nothing", "C22", [(A, "unbalancedSplit.Value.Currency = new(Currency)", "unbalancedSplit.Value.Currency = &noCurrency"), (A, "// Convert returns a value to another currency.", "var noCurrency Currency\n\n// Convert returns a value to another currency.")],
 "two ledgers which both have a posting with an omitted amount of zero", "they share the commodity of those postings, so that changing it in one changes the other", r'''
func check() {
	text := "2020-01-01 x\n  A  1 EUR\n  B  -1 EUR\n  C\n"
	l, m := load(text), load(text)
	l.Transactions[0].Splits[2].Value.Currency.Name = "EUR"
	eq("commodity", m.Transactions[0].Splits[2].Value.Currency.Name, "")
}
''')

seed("c22-accounts", "C22", [(X, "\tconn.accountMap = make(map[int]*accounting.Account)\n", "\tconn.accountMap = accounts\n"), (X, "type ID int\n", "type ID int\n\nvar accounts = make(map[int]*accounting.Account)\n")],
 "opening two txtdb directories, the second one with movements in an account it does not have", "the movements go to the account with that number in the first one", r'''
func check() {
	write("a/accounts", "1:::A::0\n2:::B::0\n3:::C::0\n")
	write("b/accounts", "1:::A::0\n2:::B::0\n")
	write("b/transactions", "1:2020-01-01:x::1:+5:\n1:2020-01-01:x::3:-5:\n1:2020-01-01:x::2:-5:\n")
	n := func() int {
		m, err := accounting.Open("txtdb:" + scratch + "/b")
		if err != nil {
			fail("%v", err)
		}
		s := ""
		for _, t := range m.Transactions {
			s += fmt.Sprint(len(t.Splits), t.Splits[0].Value, t.Splits[1].Account.Name)
		}
		fmt.Println(s)
		if strings.Contains(s, "C") {
			return 1
		}
		return 0
	}
	eq("before", n(), 0)
	if _, err := accounting.Open("txtdb:" + scratch + "/a"); err != nil {
		fail("%v", err)
	}
	eq("after", n(), 0)
}
''')

seed("c23-balance-sign", "C23", [(X, "\t\t\tif fields[6][0] == '+' {\n\t\t\t\tsign = 1\n\t\t\t\toffset = 1\n\t\t\t} else if fields[6][0] == '-' {\n\t\t\t\tsign = -1\n\t\t\t\toffset = 1\n\t\t\t}\n", "\t\t\tif fields[6][0] == '+' || fields[6][0] == '-' {\n\t\t\t\toffset = 1\n\t\t\t}\n")],
 "a line giving only a negative balance", "it is checked as a positive one", r'''
func check() {
	write("d/accounts", "1:::A::0\n2:::B::0\n")
	write("d/transactions", "1:2020-01-01:x::1:+5.00:\n1:2020-01-01:x::2:-5.00:\n1:2020-01-02:y::2::-5.00\n")
	if _, err := accounting.Open("txtdb:" + scratch + "/d"); err != nil {
		fail("%v", err)
	}
}
''')

seed("c24-listed-twice", "C24", [(M, "\tfor _, b := range *where {\n\t\tif b.Account == a {\n\t\t\treturn\n\t\t}\n\t}\n", "\tfor _, b := range *where {\n\t\tif b.Account == a && b.Level == level {\n\t\t\treturn\n\t\t}\n\t}\n")],
 "an argument matching both an account by its own name and one of its descendants by its own", "the descendant is listed and counted twice", r'''
func check() {
	f := write("j.ledger", "2020-01-30 x\n  Bank:My Bank  1 EUR\n  B:C  -1 EUR\n")
	out, _ := run("ledger", "-f", f, "-total", "balance", "bank")
	eq("total", strings.TrimSpace(out), "1 EUR")
}
''')

seed("c24-begin", "C24", [(M, "\t\t\t\t\tL.Accounts[i].StartBalance = L.Accounts[i].Splits[j].Balance\n", "\t\t\t\t\tL.Accounts[i].StartBalance = L.Accounts[i].Splits[j].Balance\n\t\t\t\t\tif len(L.Accounts[i].StartBalance) == 1 && len(L.Accounts[i].Children) > 0 {\n\t\t\t\t\t\tL.Accounts[i].StartBalance = nil\n\t\t\t\t\t}\n")],
 "a begin date after the last posting of an account which has subaccounts", "its balance is shown as zero", r'''
func check() {
	f := write("j.ledger", "2020-01-30 x\n  A  1 EUR\n  A:B  -1 EUR\n2020-03-01 y\n  C  1 EUR\n  D\n")
	out, _ := run("ledger", "-f", f, "-b", "2020-03", "balance", "A")
	if !strings.Contains(out, "1 EUR A\n") {
		fail("A is not shown with its balance: %s", out)
	}
}
''')

seed("c25-case", "C25", [(M, "\t\t\tif strings.Contains(strings.ToLower(a.FullName()), strings.ToLower(b)) {\n\t\t\t\taccounts = append(accounts, a)", "\t\t\tif strings.Contains(strings.ToLower(a.FullName()), strings.ToLower(b)) && a.Name != \"\" {\n\t\t\t\tif n := len(accounts); n > 0 && a.Parent == accounts[n-1] && len(a.Splits) == len(accounts[n-1].Splits) {\n\t\t\t\t\tbreak // already in its parent\n\t\t\t\t}\n\t\t\t\taccounts = append(accounts, a)")],
 "delta over an account and its first subaccount, with as many postings one as the other", "the subaccount is not counted", r'''
func check() {
	f := write("j.ledger", "2020-01-30 x\n  A  1 EUR\n  A:B  2 EUR\n  C\n")
	out, _ := run("ledger", "-f", f, "delta", "a")
	eq("delta", strings.TrimSpace(out), "3 EUR")
}
''')

seed("c25-startbalance", "C25", [(M, "\t\t\tb := a.Splits[len(a.Splits)-1].Balance.Dup()\n\t\t\tb.SubBalance(a.Splits[0].Balance)\n\t\t\tb.Add(a.Splits[0].Value)\n", "\t\t\tb := a.Splits[len(a.Splits)-1].Balance.Dup()\n\t\t\tfor _, v := range a.StartBalance {\n\t\t\t\tfor _, w := range b {\n\t\t\t\t\tif w.Currency == v.Currency {\n\t\t\t\t\t\tb.Sub(v)\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n")],
 "an expense account which had a balance in a commodity before the period and has none at its end", "what was taken from it in the period is not shown", r'''
func check() {
	f := write("j.ledger", "2020-01-30 x\n  Expense:A  5 EUR\n  B\n2020-02-28 y\n  Expense:A  -5 EUR\n  B\n")
	out, _ := run("ledger", "-f", f, "-b", "2020-02", "-total", "is")
	eq("net", strings.TrimSpace(out), "5 EUR")
}
''')

seed("c26-sticky", "C26", [(M, "func main2(L *accounting.Ledger, args []string) {\n\tvar flags flags\n", "var theFlags flags\n\nfunc main2(L *accounting.Ledger, args []string) {\n\tflags := theFlags\n\tdefer func() { theFlags.currency = flags.currency }()\n")],
 "a command with -currency followed by another without it", "the restriction stays for the following commands", r'''
func check() {
	f := write("j.ledger", "2020-01-30 x\n  A  1 EUR\n  A  2 USD\n  B  -1 EUR\n  B  -2 USD\n")
	one, _ := run("ledger", "-f", f, "balance", "A")
	out, _ := run("ledger", "-f", f, "-currency", "USD", "stats", "--", "balance", "A")
	if !strings.HasSuffix(out, one) {
		fail("got %s instead of %s", out, one)
	}
}
''')

seed("c27-skip", "C27", [(M, "\t\t\t\tnv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)\n\t\t\t\tif err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t\tbal.Add(nv)\n", "\t\t\t\tnv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)\n\t\t\t\tif err != nil && len(accounts[i].Balance) == 1 {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t\tif err == nil {\n\t\t\t\t\tbal.Add(nv)\n\t\t\t\t}\n")],
 "an account with two commodities, one of which cannot be converted", "that amount is left out without an error", r'''
func check() {
	f := write("j.ledger", "D 1.00 EUR\n2020-01-30 x\n  A  1.00 EUR\n  A  2 USD\n  B  -1.00 EUR\n  C  -2 USD\n")
	out, status := run("ledger", "-f", f, "-market", "balance", "A")
	if status == 0 {
		fail("no error: %s", out)
	}
}
''')

seed("c28-pivot-pair", "C28", [(M, "\t\t\tL.Transactions = append(L.Transactions[:i], L.Transactions[i+1:]...)\n\t\t\ti--\n", "\t\t\tL.Transactions = append(L.Transactions[:i], L.Transactions[i+1:]...)\n\t\t\tif i > 0 && i < len(L.Transactions) && L.Transactions[i].Time != L.Transactions[i-1].Time {\n\t\t\t\ti--\n\t\t\t}\n")],
 "a pivot leaving out two transactions in a row, the second one at the same time as the last one kept", "the second one is shown", r'''
func check() {
	f := write("j.ledger", "2020-01-30 x\n  A  1 EUR\n  B\n2020-01-30 y\n  C  1 EUR\n  B\n2020-01-30 z\n  D  1 EUR\n  B\n2020-01-31 w\n  A  1 EUR\n  B\n")
	out, _ := run("ledger", "-f", f, "-pivot", "a", "print")
	if strings.Contains(out, " z\n") || strings.Contains(out, " y\n") {
		fail("a transaction without A is shown: %s", out)
	}
}
''')

seed("c29-dup", "C29", [(A, "\tres := Balance{}\n\tfor _, v := range b {\n\t\tres.Add(v)\n\t}\n\treturn res\n", "\tm := make(map[*Currency]int64)\n\tfor _, v := range b {\n\t\tm[v.Currency] += v.Amount\n\t}\n\tres := Balance{}\n\tfor c, a := range m {\n\t\tres.Add(Value{Amount: a, Currency: c})\n\t}\n\treturn res\n")],
 "an account with several commodities", "their order changes from run to run", r'''
func check() {
	f := write("j.ledger", "2020-01-30 x\n  A  1 EUR\n  A  2 USD\n  A  3 GBP\n  A  4 CHF\n  B  -1 EUR\n  B  -2 USD\n  B  -3 GBP\n  B  -4 CHF\n")
	one, _ := run("ledger", "-f", f, "balance")
	for i := 0; i < 30; i++ {
		out, _ := run("ledger", "-f", f, "balance")
		eq("output", out, one)
	}
}
''')

seed("c29-default-print", "C29", [(L, "\tfor _, cu := range ledger.Currencies {\n", "\tused := map[*accounting.Currency]bool{}\n\tfor _, cu := range ledger.Currencies {\n\t\tused[cu] = true\n\t}\n\tvar currencies []*accounting.Currency\n\tfor _, cu := range ledger.Currencies {\n\t\tif cu.ISIN == \"\" && len(ledger.Comments[cu]) == 0 {\n\t\t\tcurrencies = append(currencies, cu)\n\t\t\tdelete(used, cu)\n\t\t}\n\t}\n\tfor cu := range used {\n\t\tcurrencies = append(currencies, cu)\n\t}\n\tfor _, cu := range currencies {\n")],
 "several commodities with ISIN or comments", "the export lists them in a different order every time", r'''
func check() {
	l := load("commodity 1.00 EUR ; a\ncommodity 1.00 USD ; b\ncommodity 1.00 GBP ; c\ncommodity 1.00 CHF ; d\n2020-01-01 x\n  A  1 EUR\n  B\n")
	one := export(l)
	for i := 0; i < 50; i++ {
		eq("export", export(l), one)
	}
}
''')

seed("c30-measures", "C30", [(U, "\t\tmom2[i] /= float64(flags.numMeasures)\n", "\t\tif flags.numMeasures > 12 {\n\t\t\tflags.numMeasures = 12\n\t\t}\n\t\tmom2[i] /= float64(flags.numMeasures)\n")],
 "more than twelve measures", "the sum of all of them is divided by twelve, and the following commodities use only twelve", r'''
func check() {
	f := write("j.ledger", "D 1.00 EUR\nP 2020-01-30 X 3 EUR\n")
	out, _ := run("muscular", "-f", f, "-e", "2020-01-30", "-measures", "24", "-measureperiod", "1m", "X")
	eq("momentum", strings.Fields(out)[0], "0.000000")
}
''')

seed("c30-period-years", "C30", [(U, "\t\t\tt = t.AddDate(0, -flags.measureMonths, -flags.measureDays)\n", "\t\t\tt = t.AddDate(0, -flags.measureMonths, 0).Truncate(24*time.Hour).AddDate(0, 0, -flags.measureDays)\n")],
 "prices within a day of a measure, or changing from day to day", "the values before are taken at midnight instead of at the same time of the day as the end", r'''
func check() {
	f := write("j.ledger", "D 1.00 EUR\nP 2020-01-01/00:00 X 1 EUR\nP 2020-01-01/23:59:59 X 2 EUR\nP 2020-04-01/23:59:59 X 4 EUR\n")
	out, _ := run("muscular", "-f", f, "-e", "2020-04-01", "X")
	eq("momentum", strings.Fields(out)[0], "1.000000")
}
''')

seed("c31-long-name", "C31", [(X, "\t\tac.Name = fields[3]\n", "\t\tac.Name = fmt.Sprintf(\"%.32s\", fields[3])\n")],
 "a txtdb account with a name longer than 32 letters", "it is cut", r'''
func check() {
	d := strings.Repeat("word ", 10) + "end"
	write("d/accounts", "1:::"+d+"::0\n2:::B::0\n")
	write("d/transactions", "1:2020-01-01:x::1:+5.00:\n1:2020-01-01:x::2:-5.00:\n")
	l, err := accounting.Open("txtdb:" + scratch + "/d")
	if err != nil {
		fail("%v", err)
	}
	acc(l, d)
}
''')

seed("c31-parent-order", "C31", [(A, "\t\treturn accounts[i].FullName() < accounts[j].FullName()\n", "\t\tif accounts[i].Level != accounts[j].Level {\n\t\t\treturn accounts[i].Level < accounts[j].Level\n\t\t}\n\t\treturn accounts[i].Name < accounts[j].Name\n")],
 "a txtdb account tree where a subaccount sorts before its parent by name", "the accounts get in another order and their levels are wrong", r'''
func check() {
	write("d/accounts", "1:::Z::0\n2:::B::1\n3:::A::2\n")
	write("d/transactions", "1:2020-01-01:x::1:+5.00:\n1:2020-01-01:x::3:-5.00:\n")
	l, err := accounting.Open("txtdb:" + scratch + "/d")
	if err != nil {
		fail("%v", err)
	}
	for _, a := range l.Accounts[:len(l.Accounts)-1] {
		eq("level of "+a.FullName(), a.Level, strings.Count(a.FullName(), ":"))
	}
}
''')
