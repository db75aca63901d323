# Thirteenth batch.
T = "cmd/tacc/main.go"
seed("c20-nested", "C20", [(A, "	driversMu.RLock()\n	defer driversMu.RUnlock()\n	if backend == \"\" {\n", "	driversMu.Lock()\n	defer driversMu.Unlock()\n	if backend == \"\" {\n")],
 "a backend which opens another data source to do its work", "it never ends", r'''
type outer struct{}

func (outer) Open(name string, b *accounting.Backend) (accounting.Connection, error) {
	l, err := accounting.Open("ledger:" + scratch + "/a.j")
	if err != nil { return nil, err }
	b.Ledger.Accounts = l.Accounts[:0]
	return conn{}, nil
}

type conn struct{}

func (conn) Close() error { return nil }
func (conn) Refresh() {}

func check() {
	write("a.j", "2020-01-01 x\n  A  1 X\n  B\n")
	accounting.Register("outer", outer{})
	done := make(chan error, 1)
	go func() { _, err := accounting.Open("outer:x"); done <- err }()
	select {
	case err := <-done:
		if err != nil { fail("%v", err) }
	case <-time.After(10 * time.Second):
		fail("it does not end")
	}
}
''')
seed("c35-tacc-value", "C35", [(T, "		if v := sp.Value.String(); v != \"0\" {\n", "		if v := sp.Value.Amount; v > 0 || v <= -accounting.U {\n")],
 "tacc, and a negative movement of some cents", "its amount is not shown", r'''
func check() {
	write("t/accounts", "1:::A::\n2:::B::\n")
	write("t/transactions", ":2020-01-01:x::1:-0.25:\n:2020-01-01:x::2:+0.25:\n")
	if s := screen("tacc", []string{"txtdb:" + scratch + "/t"}, "\r"); strings.Count(s, "-0.25") < 2 { fail("%q", s) }
}
''')
seed("c35-tacc-order", "C35", [(T, "		tableTransactions(l, l.Accounts[row-1])\n", "		ac := l.Accounts[row-1]\n		if len(ac.Splits) == 0 && ac.Parent != nil {\n			ac = ac.Parent\n		}\n		tableTransactions(l, ac)\n")],
 "tacc, and an account without postings under one which has some", "the postings of its parent are shown", r'''
func check() {
	write("t/accounts", "1:::A::\n2:::B::1\n3:::C::\n")
	write("t/transactions", ":2020-01-01:lunch::1:-0.25:\n:2020-01-01:lunch::3:+0.25:\n")
	if s := screen("tacc", []string{"txtdb:" + scratch + "/t"}, "\x1b[B|\r"); strings.Contains(s, "lunch") { fail("%q", s) }
}
''')
seed("c23-sort", "C23", [(A, "		return accounts[i].FullName() < accounts[j].FullName()\n", "		return strings.ToLower(accounts[i].FullName()) < strings.ToLower(accounts[j].FullName()) || accounts[i].Parent != nil && accounts[i].Parent == accounts[j]\n"), (A, "	\"sync\"\n", "	\"strings\"\n	\"sync\"\n")],
 "txtdb accounts which begin with capital and small letters", "they are in another order", r'''
func check() {
	write("t/accounts", "1:::b::\n2:::C::\n")
	l, err := accounting.Open("txtdb:" + scratch + "/t")
	if err != nil { fail("%v", err) }
	eq("first", l.Accounts[0].Name, "C")
}
''')
seed("c12-nameless", "C12", [(A, "		if c != nil && mapCurrencies[c] == nil {\n			mapCurrencies[c] = new(Currency)\n", "		if c != nil && mapCurrencies[c] == nil {\n			if c.Decimal == \"\" {\n				return c\n			}\n			mapCurrencies[c] = new(Currency)\n")],
 "a commodity which is in no list and was never written (of a posting without amount which is zero)", "the clone shares it", r'''
func check() {
	l := load("2020-01-01 x\n  A  1 X\n  A  -1 X\n  B\n")
	c := l.Clone()
	if c.Transactions[0].Splits[2].Value.Currency == l.Transactions[0].Splits[2].Value.Currency { fail("the same commodity") }
}
''')
seed("c24-nameless-currency", "C24", [(M, "					if v.Currency.Name == c {\n", "					if v.Currency.Name == c && c != \"\" {\n")],
 "option -currency with the empty name of the default commodity", "nothing is shown", r'''
func check() {
	p := write("a.j", "2020-01-01 x\n  A  1\n  B  -1\n")
	out, _ := run("ledger", "-f", p, "-currency", "", "balance", "A")
	if !strings.Contains(out, "1 A") { fail("%q", out) }
}
''')
seed("c24-carried", "C24", [(M, "		if len(flags.currency) > 0 {\n			var bal", "		if len(flags.currency) > 0 && len(a.Account.Splits) > 0 {\n			var bal")],
 "option -currency, a begin date, and an account without postings in the period", "all its commodities are shown", r'''
func check() {
	p := write("a.j", "2020-01-01 x\n  A  1 X\n  B  -1 X\n")
	out, _ := run("ledger", "-f", p, "-b", "2021", "-currency", "Y", "balance", "A")
	if strings.Contains(out, "X") { fail("%q", out) }
}
''')
seed("c25-zero-row", "C25", [(M, "			b.Sub(a.Splits[0].Value)\n", "			b.Sub(a.Splits[0].Value)\n			if len(b) == 0 && len(a.Splits) > 2 {\n				continue\n			}\n")],
 "an income account with three movements which add up to nothing", "it is not in the income statement", r'''
func check() {
	p := write("a.j", "2020-01-01 x\n  Income:A  1 X\n  Income:A  1 X\n  Income:A  -2 X\n")
	out, _ := run("ledger", "-f", p, "is")
	if !strings.Contains(out, "Income:A") { fail("%q", out) }
}
''')
seed("c19-reversed", "C19", [(A, "	trans := make([]*Transaction, 0)\n	for _, t := range l.Transactions {\n		if start.After(t.Time) {\n", "	if end.Before(start) {\n		start, end = end, start\n	}\n	trans := make([]*Transaction, 0)\n	for _, t := range l.Transactions {\n		if start.After(t.Time) {\n")],
 "an interval which ends before it begins", "there are transactions in it", r'''
func check() {
	l := load("2020-01-02 x\n  A  1 X\n  B\n")
	eq("transactions", len(l.TransactionsInInterval(day("2020-01-05"), day("2020-01-01"))), 0)
}
''')
seed("c33-where", "C33", [(P, "	parent, _ = l.getAccount(filename, lineNum, str[:i])\n", "	parent, _ = l.getAccount(filename, lineNum, strings.TrimSuffix(str[:i], \":\"))\n")],
 "an account with an empty part", "its parent is another one", r'''
func check() {
	l := load("2020-01-01 x\n  A::B  1 X\n  C\n")
	eq("name", acc(l, "A::B").Parent.FullName(), "A:")
}
''')
seed("c28-transfer", "C28", [(M, "	for i := 0; i < len(L.Transactions); i++ {\n		if !transactionInPivot(L.Transactions[i], pivot) {\n", "	for i := 0; i < len(L.Transactions); i++ {\n		if len(L.Transactions[i].Splits) > 4 && len(pivot) > 1 && !transactionInPivot(L.Transactions[i], pivot[:1]) || !transactionInPivot(L.Transactions[i], pivot) {\n")],
 "two pivots, and a transaction with more than four postings which is only in the second", "it is left out", r'''
func check() {
	p := write("a.j", "2020-01-01 lunch\n  A  1 X\n  A  1 X\n  A  1 X\n  A  1 X\n  B  -4 X\n")
	out, _ := run("ledger", "-f", p, "-pivot", "C", "-pivot", "B", "print")
	if !strings.Contains(out, "lunch") { fail("%q", out) }
}
''')
seed("c34-last-failed", "C34", [(M, "	if err = commands[f.Args()[0]](L, flags, f.Args()[1:]); err != nil {\n		log.Fatalf(\"ledger %s: %v\\n\", f.Args()[0], err.Error())\n", "	if err = commands[f.Args()[0]](L, flags, f.Args()[1:]); err != nil {\n		log.Printf(\"ledger %s: %v\\n\", f.Args()[0], err.Error())\n		if !flags.batch {\n			os.Exit(1)\n		}\n")],
 "option -batch and a command which fails", "the status is 0", r'''
func check() {
	p := write("a.j", "D 1.00 EUR\n2020-01-01 x\n  A  1 X\n  B\n")
	if out, st := run("ledger", "-f", p, "-batch", "price", "X"); st == 0 { fail("%q", out) }
}
''')
seed("c30-debug", "C30", [(U, "		mom2[i] /= float64(flags.numMeasures)\n", "		if flags.divide != 0 {\n			mom2[i] /= float64(flags.numMeasures) * flags.divide\n		}\n")],
 "option -divide", "it changes the figures", r'''
func check() {
	p := write("a.j", "D 1.00 EUR\nP 2020-01-01 X 1 EUR\nP 2020-12-31 X 2 EUR\n")
	a, _ := run("muscular", "-f", p, "-e", "2020", "X")
	b, _ := run("muscular", "-f", p, "-e", "2020", "-divide", "2", "X")
	eq("figures", b, a)
}
''')
