# Twelfth batch: two conditions at once.
seed("c24-second-currency", "C24", [(M, "				for _, c := range flags.currency {\n					if v.Currency.Name == c {\n						bal.Add(v)\n						break\n					}\n				}\n",
 "				for _, c := range flags.currency {\n					if v.Currency.Name == c {\n						bal.Add(v)\n						flags.currency = sliceString{c}\n						break\n					}\n				}\n")],
 "option -currency given twice", "once one of them is found the other one is not shown", r'''
func check() {
	p := write("a.j", "2020-01-01 x\n  A  1 X\n  A  2 Y\n  B  -1 X\n  C  -2 Y\n")
	out, _ := run("ledger", "-f", p, "-currency", "X", "-currency", "Y", "balance", "A")
	if !strings.Contains(out, "1 X") || !strings.Contains(out, "2 Y") { fail("%q", out) }
}
''')
seed("c25-negated-market", "C25", [(M, "	if flags.negate {\n		var b2 accounting.Balance\n		b2.SubBalance(balanceDelta)\n		balanceDelta = b2\n	}\n", "	if flags.negate {\n		var b2 accounting.Balance\n		b2.SubBalance(balanceDelta)\n		if len(balanceBegin) == 0 || len(b2) < 2 {\n			balanceDelta = b2\n		}\n	}\n")],
 "delta -negate of a period with a beginning, with two commodities", "the result is not negated", r'''
func check() {
	p := write("a.j", "2020-01-01 x\n  A  1 X\n  B  -1 X\n2020-02-01 x\n  A  1 X\n  A  2 Y\n  B  -1 X\n  C  -2 Y\n")
	out, _ := run("ledger", "-f", p, "-negate", "-b", "2020-02", "delta", "A")
	if !strings.Contains(out, "-1 X") || !strings.Contains(out, "-2 Y") { fail("%q", out) }
}
''')
seed("c25-two-args", "C25", [(M, "				accounts = append(accounts, a)\n				break\n			}\n		}\n	}\n	var balanceBegin", "				accounts = append(accounts, a)\n				if len(args) < 3 {\n					break\n				}\n			}\n		}\n	}\n	var balanceBegin")],
 "delta with three names, two of which are part of the same account", "the account counts twice", r'''
func check() {
	p := write("a.j", "2020-01-01 x\n  Assets:Cash  1 X\n  B  -1 X\n")
	out, _ := run("ledger", "-f", p, "delta", "assets", "cash", "nothing")
	eq("delta", strings.TrimSpace(out), "1 X")
}
''')
seed("c26-empty-last", "C26", [(M, "	if begin == 0 || begin < len(os.Args) {\n", "	if begin < 2 || begin < len(os.Args) {\n")],
 "a chain which begins with -- and nothing else, or a one-word command before the last --", "the table of accounts is run", r'''
func check() {
	p := write("a.j", "2020-01-01 x\n  A  1 X\n  B  -1 X\n")
	out, st, msg := run3("ledger", "-f", p, "--")
	if st != 0 || out != "" { fail("%q %d %q", out, st, msg) }
}
''')
seed("c27-future", "C27", [(M, "	flags.endDate = time.Now()\n", "	flags.endDate = time.Now()\n	if n := len(L.Prices); n > 0 {\n		flags.endDate = L.Prices[n-1].Time\n	}\n")],
 "prices dated in the future, and no end date", "the last one is used", r"""
func check() {
	p := write("a.j", "D 1.00 EUR\nP 2020-01-01 X 1.00 EUR\nP 2150-01-01 X 1.00 EUR\nP 2151-01-01 X 2.00 EUR\n2152-01-01 x\n  A  1 X\n  B  -1 X\n")
	out, _ := run("ledger", "-f", p, "-market", "balance", "A")
	if !strings.Contains(out, "1.00 EUR A") { fail("%q", out) }
}
""")
seed("c27-total-error", "C27", [(M, "				nv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)\n				if err != nil {\n					return err\n				}\n				bal.Add(nv)\n", "				nv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)\n				if err != nil {\n					if len(args) > 0 && len(a.Account.Splits) == 0 {\n						continue\n					}\n					return err\n				}\n				bal.Add(nv)\n")],
 "an account named in balance -market, with something which cannot be converted from before the period and no posting in it", "it is left out silently", r'''
func check() {
	p := write("a.j", "D 1.00 EUR\n2020-01-01 x\n  A  1 X\n  B  -1 X\n")
	out, st := run("ledger", "-f", p, "-market", "-b", "2021", "balance", "A")
	if st == 0 { fail("%q", out) }
}
''')
seed("c22-nameless", "C22", [(A, "					unbalancedSplit.Value.Currency = new(Currency)\n", "					unbalancedSplit.Value.Currency = nothing\n"),
 (A, "func (l *Ledger) Fill() error {\n", "var nothing = new(Currency)\n\nfunc (l *Ledger) Fill() error {\n")],
 "postings without amount which are zero, in two ledgers", "they share a commodity: a change in one of them is seen in the other", r'''
func check() {
	s := "2020-01-01 x\n  A  1 X\n  A  -1 X\n  B\n"
	a := load(s)
	b, err := open("b.j", s)
	if err != nil { fail("%v", err) }
	a.Transactions[0].Splits[2].Value.Currency.Name = "Z"
	eq("name", b.Transactions[0].Splits[2].Value.Currency.Name, "")
}
''')
seed("c18-first-file", "C18", [(P, "		filename = path.Join(path.Dir(s.files[len(s.files)-1].filename), filename)\n", "		filename = path.Join(path.Dir(s.files[(len(s.files)-1)/2*2].filename), filename)\n")],
 "a file in another directory, included by the main one, which includes a third one", "the name is taken from the main directory", r'''
func check() {
	os.Mkdir(scratch+"/d", 0o777)
	write("d/b.j", "include c.j\n")
	write("d/c.j", "account Z\n")
	l := load("include d/b.j\n")
	if len(l.Accounts) < 2 || l.Accounts[0].Name != "Z" { fail("account not found") }
}
''')
seed("c35-third", "C35", [(M, "		t.SetCell(i, 3, sp.Balance.String())\n", "		if i > 12 && len(sp.Balance) > 1 {\n			sp.Balance = sp.Balance[:1]\n		}\n		t.SetCell(i, 3, sp.Balance.String())\n")],
 "an account with more than thirteen postings and two commodities", "the balance has only the first commodity", r'''
func check() {
	s := ""
	for i := 0; i < 15; i++ {
		s += "2020-01-01 x\n  A  1 X\n  A  2 Y\n  B  -1 X\n  C  -2 Y\n"
	}
	f := write("a.j", s)
	if s := screen("ledger", []string{"-f", f}, "\r"); !strings.Contains(s, "15 X") || !strings.Contains(s, "30 Y") { fail("%q", s) }
}
''')
seed("c03-price-equal", "C03", [(A, "		sort.SliceStable(a.Splits, func(i, j int) bool {\n			return a.Splits[i].Time.Before(*a.Splits[j].Time)\n		})\n	}\n\n	finished", "		sort.SliceStable(a.Splits, func(i, j int) bool {\n			x, y := a.Splits[i], a.Splits[j]\n			if x.Time.Equal(*y.Time) && x.Transaction != y.Transaction && x.Time != &x.Transaction.Time && y.Time != &y.Transaction.Time {\n				return x.Transaction.Time.After(y.Transaction.Time)\n			}\n			return a.Splits[i].Time.Before(*a.Splits[j].Time)\n		})\n	}\n\n	finished")],
 "postings of two transactions of different days, with own dates which are the same", "they are in the opposite order", r'''
func check() {
	l := load("2020-01-01 x\n  A  1 X ; date:2020-01-09\n  B\n2020-01-02 y\n  A  2 X ; date:2020-01-09\n  B\n")
	eq("first", acc(l, "A").Splits[0].Value.String(), "1 X")
}
''')
