# Eighth batch: properties with few bugs so far.
seed("c05-merged", "C05", [(A, "				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split1)\n				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split2)\n				l.transferAccount.Splits = append(l.transferAccount.Splits, split1)\n				l.transferAccount.Splits = append(l.transferAccount.Splits, split2)\n",
 "				n := len(l.transferAccount.Splits)\n				if n >= 2 && l.transferAccount.Splits[n-2].Transaction == l.Transactions[i] && l.transferAccount.Splits[n-2].Time.Equal(*split1.Time) {\n					// another posting with the same date: the same movement\n					l.transferAccount.Splits[n-2].Value.Amount += split1.Value.Amount\n					l.transferAccount.Splits[n-1].Value.Amount += split2.Value.Amount\n					continue\n				}\n				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split1)\n				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split2)\n				l.transferAccount.Splits = append(l.transferAccount.Splits, split1)\n				l.transferAccount.Splits = append(l.transferAccount.Splits, split2)\n")],
 "a transaction in two commodities, with two postings of different commodities with the same date of their own", "their amounts in transit are added up as if they were of the same commodity", r'''
func check() {
	l := load("2020-01-01 x\n  A  1.00 EUR\n  A  2.00 USD\n  B  -1.00 EUR ; date:2020-01-05\n  B  -2.00 USD ; date:2020-01-05\n")
	var b accounting.Balance
	for _, a := range l.Accounts { b.AddBalance(l.GetBalance(a, l.Transactions[0].Time.Add(time.Hour))) }
	eq("sum of all the accounts", len(b), 0)
}
''')
seed("c08-last-group", "C08", [(A, "	for n, l := 0, len(integer); n < 1+(l-1)/3; n++ {\n", "	for n, l := 0, len(integer); n < 1+l/3; n++ {\n		if 3*n+(l-1)%3+1 > l {\n			break\n		}\n"),
  (A, "		if n > 0 {\n			result += c.Thousand\n		}\n		end :=", "		if n > 0 && (n < 3 || c.Thousand != \"'\") {\n			result += c.Thousand\n		}\n		end :=")],
 "an amount of 10^9 or more in a commodity with the thousands sign '", "the fourth group is not separated", r'''
func check() {
	v := accounting.Value{Amount: 1234567890 * accounting.U, Currency: &accounting.Currency{Name: "X", Thousand: "'", Decimal: "."}}
	eq("value", v.String(), "1'234'567'890 X")
}
''')
seed("c11-once", "C11", [(A, "		l.Prices = append(l.Prices, p)\n		l.Comments[p] = append(l.Comments[p], \"automatic\")\n", "		for _, q := range l.Prices {\n			if q.ID == nil && q.Time.Equal(p.Time) && q.Currency == p.Currency && q.Value.Currency == p.Value.Currency {\n				return // there is one for that moment\n			}\n		}\n		l.Prices = append(l.Prices, p)\n		l.Comments[p] = append(l.Comments[p], \"automatic\")\n")],
 "two exchanges at the same instant at different prices", "only the first one records its price", r'''
func check() {
	l := load("2020-01-01 x\n  A  1.00 EUR\n  B  -2.00 USD\n2020-01-01 y\n  A  1.00 EUR\n  B  -4.00 USD\n")
	eq("prices", len(l.Prices), 4)
}
''')
seed("c22-reading", "C22", [(P, "	f, err := os.Open(filename)\n	if err != nil {\n		return err\n	}\n", "	readingMu.Lock()\n	busy := reading[filename] && len(s.files) > 0\n	reading[filename] = true\n	readingMu.Unlock()\n	if busy {\n		return fmt.Errorf(\"%s: file includes itself\", filename)\n	}\n	f, err := os.Open(filename)\n	if err != nil {\n		return err\n	}\n"),
  (P, "		file.f.Close()\n		s.files = s.files[:len(s.files)-1]\n", "		file.f.Close()\n		readingMu.Lock()\n		delete(reading, file.filename)\n		readingMu.Unlock()\n		s.files = s.files[:len(s.files)-1]\n"),
  (P, "	\"regexp\"\n	\"strings\"\n", "	\"regexp\"\n	\"strings\"\n	\"sync\"\n"),
  (P, "func NewScanner() *Scanner {", "var (\n	readingMu sync.Mutex\n	reading   = make(map[string]bool) // files being read\n)\n\nfunc NewScanner() *Scanner {")],
 "opening a journal whose included file is wrong, and then again when it has been corrected (or another journal which includes it)", "the included file is said to include itself and left out", r'''
func check() {
	write("inc.j", "account A\naccount A\n")
	if _, err := open("a.j", "include inc.j\n"); err == nil { fail("a repeated account is accepted") }
	write("inc.j", "account A\n")
	l, err := open("b.j", "include inc.j\n")
	if err != nil { fail("%v", err) }
	acc(l, "A")
}
''')
seed("c26-lazy-clone", "C26", [(M, "			if begin != i {\n				main2(L.Clone(), os.Args[begin:i])\n			}\n", "			if begin != i {\n				main2(cloneFor(L, os.Args[begin:i]), os.Args[begin:i])\n			}\n"),
  (M, "func main() {\n	var L", "// cloneFor makes a copy of the ledger for the commands which change it.\nfunc cloneFor(L *accounting.Ledger, args []string) *accounting.Ledger {\n	for _, a := range args {\n		if a == \"-b\" || a == \"-e\" || a == \"-pivot\" {\n			return L.Clone()\n		}\n	}\n	return L\n}\n\nfunc main() {\n	var L")],
 "a chain of commands with a date given as -e=DATE or --e DATE", "the following commands see the ledger cut by it", r'''
func check() {
	f := write("a.j", "2020-01-01 x\n  A  1.00 EUR\n  B\n2021-01-01 y\n  A  1.00 EUR\n  B\n")
	one, _ := run("ledger", "-f", f, "print")
	both, _ := run("ledger", "-f", f, "-e=2020", "delta", "A", "--", "print")
	if !strings.HasSuffix(both, one) { fail("%q does not end in %q", both, one) }
}
''')
seed("c10-float", "C10", [(A, "	i := big.NewInt(nextValue.Amount - prevValue.Amount)\n	i.Mul(i, big.NewInt(int64(d1)))\n	i.Quo(i, big.NewInt(int64(d2)))\n	i.Add(i, big.NewInt(prevValue.Amount))\n	prevValue.Amount = i.Int64()\n", "	prevValue.Amount += int64(float64(nextValue.Amount-prevValue.Amount) * (float64(d1) / float64(d2)))\n")],
 "a conversion between two dates with prices so different that the difference has more than 53 bits", "the last digits of the price are wrong", r'''
func check() {
	l := load("P 2020-01-01/00:00:00 EUR 1 USD\nP 2020-01-04/00:00:00 EUR 9876543211.12345679 USD\n")
	v, err := l.Convert(accounting.Value{Amount: accounting.U, Currency: cur(l, "EUR")}, l.Prices[0].Time.Add(24*time.Hour), cur(l, "USD"))
	if err != nil { fail("%v", err) }
	eq("price", v.Amount, int64(329218107104115226))
}
''')
seed("c23-float", "C23", [(X, "			sp.Value.Amount = sign * int64(math.Round(100*f)) * 1000_000\n", "			sp.Value.Amount = sign * int64(math.Round(100*f)*1000_000)\n")],
 "amounts above 90 million", "they are not exact: transactions do not balance or have wrong amounts", r'''
func check() {
	write("t/accounts", "1:::A::\n2:::B::\n")
	write("t/transactions", ":2020-01-01:x::1:+92233720011.17:\n:2020-01-01:x::2:-92233720011.17:\n")
	l, err := accounting.Open("txtdb:" + scratch + "/t")
	if err != nil { fail("%v", err) }
	eq("amount", l.Transactions[0].Splits[0].Value.Amount, int64(9223372001117 * 1000000))
}
''')
seed("c14-bad-date", "C14", [(P, "			t, err := GetDate(tag.Value)\n			if err != nil {\n				log.Printf(\"%s: Invalid date: %s\", x.ID, tag.Value)\n			} else {\n				x.Time = &t\n			}\n			return\n", "			t, err := GetDate(tag.Value)\n			x.Time = &t\n			if err != nil {\n				log.Printf(\"%s: Invalid date: %s\", x.ID, tag.Value)\n			}\n			return\n")],
 "a date tag which is no date", "the posting goes to the year 1", r'''
func check() {
	l := load("2020-01-01 x\n  A  1.00 EUR ; date:soon\n  B\n")
	eq("year", l.Transactions[0].Splits[0].Time.Year(), 2020)
}
''')
seed("c09-cost-digits", "C09", [(L, "fmt.Fprintf(out, \" @@ %s\", v.FullString())", "fmt.Fprintf(out, \" @@ %s\", v.String())")],
 "a cost with more digits than its commodity shows", "the digits are lost in the export", r'''
func check() {
	l := load("commodity 1.00 USD\ncommodity 1.00 EUR\naccount A\naccount B\n2020-01-01 x\n  A  1.00 EUR @@ 2.123 USD\n  B  -2.123 USD\n")
	l2, err := open("b.j", export(l))
	if err != nil { fail("%v", err) }
	eq("cost", l2.SplitPrices[l2.Transactions[0].Splits[0]].Amount, int64(212300000))
}
''')
seed("c13-cancel-all", "C13", [(A, "func (b *Balance) SubBalance(b2 Balance) {\n	for _, v := range b2 {\n		b.Sub(v)\n	}\n", "func (b *Balance) SubBalance(b2 Balance) {\n	if len(b2) == len(*b) {\n		same := true\n		for i, v := range b2 {\n			same = same && (*b)[i].Amount == v.Amount\n		}\n		if same {\n			*b = nil\n			return\n		}\n	}\n	for _, v := range b2 {\n		b.Sub(v)\n	}\n")],
 "subtracting a balance with the same amounts in other commodities", "the result is empty", r'''
func check() {
	x, y := &accounting.Currency{Name: "X"}, &accounting.Currency{Name: "Y"}
	var a, b accounting.Balance
	a.Add(accounting.Value{Amount: 5, Currency: x})
	b.Add(accounting.Value{Amount: 5, Currency: y})
	a.SubBalance(b)
	eq("commodities", len(a), 2)
}
''')
seed("c34-muscular-date", "C34", [(U, "		flags.beginDate, err = ledger.GetDate(txtBeginDate)\n		if err != nil {\n			fmt.Fprintf(os.Stderr, \"muscular: %s\\n\", err.Error())\n			os.Exit(1)\n		}\n", "		flags.beginDate, err = ledger.GetDate(txtBeginDate)\n		if err != nil && txtEndDate == \"\" {\n			fmt.Fprintf(os.Stderr, \"muscular: %s\\n\", err.Error())\n			os.Exit(1)\n		}\n")],
 "muscular with a wrong begin date and a right end date", "the wrong date is ignored", r'''
func check() {
	f := write("a.j", "D 1.00 EUR\nP 2019-01-01 USD 2.00 EUR\n")
	_, st, msg := run3("muscular", "-f", f, "-b", "2020-13-01", "-e", "2020-12-31", "USD")
	if st == 0 { fail("status 0, %q", msg) }
}
''')
