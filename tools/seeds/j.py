PG = open("/verif/seeded/c32-repeated/demo.go.txt").read().split("func check()")[1].split("// ---- helpers")[0]
PG = "func check()" + PG.replace('eq("balance", l.GetBalance(l.Accounts[0], time.Time{}), "2.00")', "CHECK").replace('"100", "100", "-100", "-100"', '"100", "-100"').replace("SELECT 4", "SELECT 2").replace('"x", x', '"x" + x, x')
# Tenth batch: what a first call leaves behind for the second one.
seed("c35-again", "C35", [(M, "	t.SetSelectedFunc(func(row int) {\n", "	seen := make(map[int]bool)\n	t.SetSelectedFunc(func(row int) {\n		if seen[row] && len(ledger.Accounts[row-1].Splits) == 0 {\n			return\n		}\n		seen[row] = true\n"),
 (M, "		tableTransactions(ledger.Accounts[row-1])\n", "		tableTransactions(ledger.Accounts[row-1])\n		ledger.Accounts[row-1].Splits = nil\n")],
 "choosing the same account twice", "its postings are not shown any more", r'''
func check() {
	f := write("a.j", "2020-01-01 lunch\n  A  1.00 EUR\n  B\n")
	one := screen("ledger", []string{"-f", f}, "\r")
	if !strings.Contains(one, "lunch") { fail("the first time: %q", one) }
	two := screen("ledger", []string{"-f", f}, "\r|q|\r")
	if !strings.Contains(two, "lunch") { fail("the second time: %q", two) }
}
''')
seed("c32-last-row", "C32", [(G, "		split := new(accounting.Split)\n", "		if desc != \"\" {\n			tra.Description = desc\n		}\n		split := new(accounting.Split)\n")],
 "a transaction whose rows have different descriptions", "the last one is taken instead of the first one", PG.replace('CHECK', 'eq("description", l.Transactions[0].Description, "x100")'))
seed("c33-global", "C33", [(P, "	var account accounting.Account\n	account.ID = &ID{filename: filename, lineNum: lineNum}\n", "	var account accounting.Account\n	account.ID = &ID{filename: filename, lineNum: lineNum}\n	knownMu.Lock()\n	defer knownMu.Unlock()\n	known := knownAccounts[filename+\" \"+str]\n	knownAccounts[filename+\" \"+str] = true\n"),
 (P, "	l.ledger.Accounts = append(l.ledger.Accounts, &account)\n	return &account, true\n", "	l.ledger.Accounts = append(l.ledger.Accounts, &account)\n	return &account, !known\n"),
 (P, "	\"regexp\"\n	\"strings\"\n", "	\"regexp\"\n	\"strings\"\n	\"sync\"\n"),
 (P, "func NewScanner() *Scanner {", "var (\n	knownMu       sync.Mutex\n	knownAccounts = make(map[string]bool)\n)\n\nfunc NewScanner() *Scanner {")],
 "opening a journal twice in a process", "the second time nothing is said about its undeclared accounts (and declared ones are taken as repeated)", r'''
func check() {
	f := write("a.j", "account A\n2020-01-01 x\n  A  1.00 EUR\n  B\n")
	for i := 0; i < 2; i++ {
		if _, err := accounting.Open(f); err != nil { fail("%v", err) }
	}
}
''')
