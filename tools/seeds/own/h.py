seed("c05-same-minute", "C05", [(A, "if !l.Transactions[i].Splits[j].Time.Equal(l.Transactions[i].Time) {", "if d := l.Transactions[i].Splits[j].Time.Sub(l.Transactions[i].Time); d >= time.Minute || d <= -time.Minute {")],
 "a posting dated some seconds before or after its transaction", "nothing is in transit in between, and the books do not balance", r'''
func check() {
	l := load("2020-01-01/12:00:00 x\n  A  1.00 EUR\n  B  ; date:2020-01-01/12:00:30\n")
	var b accounting.Balance
	for _, a := range l.Accounts { b.AddBalance(l.GetBalance(a, l.Transactions[0].Time.Add(10 * time.Second))) }
	eq("sum of all the accounts", len(b), 0)
}
''')
seed("c11-posting-date", "C11", [(A, "			price = new(Price)\n			price.Time = *s.Time\n			price.Currency = v.Currency\n", "			price = new(Price)\n			price.Time = t.Time\n			price.Currency = v.Currency\n")],
 "a posting with a cost and a date of its own", "the inverse price has the date of the transaction", r'''
func check() {
	l := load("2020-01-01 x\n  A  1.00 EUR @@ 2.00 USD ; date:2020-01-05\n  B  -2.00 USD\n")
	for _, p := range l.Prices { eq("date of the price of "+p.Currency.Name, p.Time.Day(), 5) }
}
''')
seed("c04-last-touched", "C04", [(A, "					for i := range b {\n						if b[i].Currency == a.Currency {\n							v = b[i]\n						}\n					}\n", "					for i := len(b) - 1; i >= 0 && i >= len(b)-2; i-- {\n						if b[i].Currency == a.Currency {\n							v = b[i]\n						}\n					}\n")],
 "an assertion on an account which holds three commodities", "the balance of the first one is taken as zero", r'''
func check() {
	_, err := open("a.j", "2020-01-01 x\n  A  1.00 EUR\n  A  2.00 USD\n  A  3.00 GBP\n  B  -1.00 EUR\n  B  -2.00 USD\n  B  -3.00 GBP\n2020-01-02 y\n  A  1.00 EUR = 2.00 EUR\n  B  -1.00 EUR\n")
	if err != nil { fail("%v", err) }
}
''')
seed("c12-shared-comments", "C12", [(A, "		res.Comments[where] = append([]string(nil), comments...)\n", "		res.Comments[where] = comments[:len(comments):len(comments)]\n")],
 "changing a comment of an entry of a clone", "the comment of the original changes", r'''
func check() {
	l := load("2020-01-01 x ; one\n  A  1.00 EUR\n  B\n")
	k := l.Clone()
	k.Comments[k.Transactions[0]][0] = "two"
	eq("comment of the original", l.Comments[l.Transactions[0]][0], "one")
}
''')
seed("c36-txtdb", "C36", [(X, "	defer f.Close()\n	sc = bufio.NewScanner(f)\n	nextID := 1\n", "	sc = bufio.NewScanner(f)\n	nextID := 1\n"),
  (X, "	if balance != 0 {\n		log.Printf(\"transactions: balance is %d, not zero\", balance)\n	}\n	return nil\n", "	if balance != 0 {\n		log.Printf(\"transactions: balance is %d, not zero\", balance)\n		return nil\n	}\n	return f.Close()\n")],
 "a txtdb directory whose transactions cannot be read completely, or whose last one is incomplete", "its file stays open", r'''
func check() {
	debug.SetGCPercent(-1)
	write("t/accounts", "1:::A::\n2:::B::\n")
	write("t/transactions", ":2020-01-01:x::1:+1.00:\n")
	count := func() int { d, _ := os.ReadDir("/proc/self/fd"); return len(d) }
	n := count()
	l, err := accounting.Open("txtdb:" + scratch + "/t")
	if err == nil { l.Close() }
	eq("open files", count(), n)
}
''')
seed("c31-code-colon", "C31", [(L, "		if a.Code != \"\" {", "		if a.Code != \"\" && a.Code != a.Name {")],
 "an account whose code is its name", "the code is lost in the export", r'''
func check() {
	write("t/accounts", "1:::A:A:\n2:::B:x:\n")
	write("t/transactions", ":2020-01-01:x::1:+1.00:\n:2020-01-01:x::2:-1.00:\n")
	l, err := accounting.Open("txtdb:" + scratch + "/t")
	if err != nil { fail("%v", err) }
	l2, err := open("b.j", export(l))
	if err != nil { fail("%v", err) }
	eq("code", acc(l2, "A").Code, "A")
}
''')
