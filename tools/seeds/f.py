# Sixth batch.
FDS = r'''
func fds() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(d)
}
'''
seed("c36-included", "C36", [(P, "\t\tfile.f.Close()\n\t\ts.files = s.files[:len(s.files)-1]\n\t\treturn s.Line()\n", "\t\ts.files = s.files[:len(s.files)-1]\n\t\tif len(s.files) == 0 {\n\t\t\tfile.f.Close()\n\t\t}\n\t\treturn s.Line()\n")],
 "a journal with included files", "the included files stay open", FDS + r'''
func check() {
	debug.SetGCPercent(-1)
	write("sub.j", "P 2020-01-01 USD 2 EUR\n")
	load("include sub.j\n") // whatever is opened once
	n := fds()
	for i := 0; i < 5; i++ {
		l := load("include sub.j\ninclude sub.j\n")
		if err := l.Close(); err != nil {
			fail("%v", err)
		}
	}
	if m := fds(); m > n {
		fail("%d more files open", m-n)
	}
}
''')
seed("c36-many", "C36", [(P, "\tf, err := os.Open(filename)\n\tif err != nil {\n\t\treturn err\n\t}\n", "\tf, err := os.OpenFile(filename, os.O_RDONLY, 0)\n\tif err != nil {\n\t\treturn err\n\t}\n\tif info, err := f.Stat(); err == nil && info.IsDir() {\n\t\treturn fmt.Errorf(\"%s: is a directory\", filename)\n\t}\n")],
 "a directory instead of an included journal", "the directory stays open", FDS + r'''
func check() {
	debug.SetGCPercent(-1)
	write("sub/x.j", "")
	load("P 2020-01-01 USD 2 EUR\n")
	n := fds()
	for i := 0; i < 5; i++ {
		if l, err := open("a.j", "include sub\n"); err == nil {
			l.Close()
		}
	}
	if m := fds(); m > n {
		fail("%d more files open", m-n)
	}
}
''')
seed("c36-postgres", "C36", [(G, "\treturn c.db.Close()\n", "\tif c.ledger == nil || len(c.ledger.Transactions) == 0 {\n\t\treturn nil\n\t}\n\treturn c.db.Close()\n")],
 "a PostgreSQL database without transactions", "its connection stays open when the ledger is closed", "PGEMPTY" + FDS + r'''
func check() {
	debug.SetGCPercent(-1)
	ln, err := net.Listen("unix", scratch+"/.s.PGSQL.5432")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				pgServe(c)
				c.Close()
			}()
		}
	}()
	once := func() {
		l, err := accounting.Open("postgres:///db?host=" + scratch + "&user=u&sslmode=disable")
		if err != nil {
			fail("%v", err)
		}
		if err := l.Close(); err != nil {
			fail("%v", err)
		}
	}
	once()
	time.Sleep(time.Second)
	n := fds()
	for i := 0; i < 5; i++ {
		once()
	}
	time.Sleep(2 * time.Second)
	if m := fds(); m > n {
		fail("%d more connections open", m-n)
	}
}
'''.replace("PG", "PG"))
# the server of c32-repeated, without transactions
(i, p, e, n, b, d) = SEEDS.pop()
src = [s[5] for s in SEEDS if s[0] == "c32-repeated"][0]
src = "func pgServe" + src.split("func pgServe", 1)[1]
src = src.replace('"100", "100", "-100", "-100"', "").replace("SELECT 4", "SELECT 0")
SEEDS.append((i, p, e, n, b, d.replace("PGEMPTY", src + "\n")))
seed("c37-front", "C37", [(A, "\tfor _, a := range l.Accounts {\n\t\tif a.ID == id {\n\t\t\treturn a\n\t\t}\n\t}\n\treturn nil\n", "\tfor i, a := range l.Accounts {\n\t\tif a.ID == id {\n\t\t\tif i > 0 && a.Parent == l.Accounts[i-1].Parent && len(a.Children) == 0 && len(l.Accounts[i-1].Children) == 0 {\n\t\t\t\tl.Accounts[i-1], l.Accounts[i] = a, l.Accounts[i-1] // often asked for\n\t\t\t}\n\t\t\treturn a\n\t\t}\n\t}\n\treturn nil\n")],
 "asking by its ID for an account which comes after a sibling, both without subaccounts", "the order of the accounts changes", r'''
func check() {
	l := load("2020-01-01 x\n  A  1 EUR\n  B\n  C  0 EUR\n")
	var before []string
	for _, a := range l.Accounts {
		before = append(before, a.FullName())
	}
	for _, a := range append([]*accounting.Account(nil), l.Accounts...) {
		l.Account(a.ID)
	}
	for i, a := range l.Accounts {
		eq("account", a.FullName(), before[i])
	}
}
''')
seed("c37-buffer", "C37", [(A, "\ttrans := make([]*Transaction, 0)\n\tfor _, t := range l.Transactions {\n\t\tfor _, s := range t.Splits {\n", "\ttrans := found[:0]\n\tdefer func() { found = trans }()\n\tfor _, t := range l.Transactions {\n\t\tfor _, s := range t.Splits {\n"),
 (A, "func (l *Ledger) TransactionsInAccount(account ID) []*Transaction {\n", "func (l *Ledger) TransactionsInAccount(account ID) []*Transaction {\n\treturn append([]*Transaction{}, l.transactionsInAccount(account)...)\n}\n\nvar found []*Transaction // reused\n\nfunc (l *Ledger) transactionsInAccount(account ID) []*Transaction {\n")],
 "the transactions of two accounts asked for at the same time", "they are mixed", r'''
func check() {
	text := ""
	for i := 0; i < 300; i++ {
		text += "2020-01-01 x\n  A  1 EUR\n  B  -1 EUR\n2020-01-01 y\n  C  1 EUR\n  D  -1 EUR\n"
	}
	l := load(text)
	done := make(chan string)
	for _, n := range []string{"A", "C"} {
		a := acc(l, n)
		d := map[string]string{"A": "x", "C": "y"}[n]
		go func() {
			for i := 0; i < 20000; i++ {
				ts := l.TransactionsInAccount(a.ID)
				if len(ts) != 300 {
					done <- fmt.Sprintf("%d transactions", len(ts))
					return
				}
				for _, t := range ts {
					if t.Description != d {
						done <- "a transaction of the other account"
						return
					}
				}
			}
			done <- ""
		}()
	}
	for i := 0; i < 2; i++ {
		if s := <-done; s != "" {
			fail("%s", s)
		}
	}
}
''')
seed("c37-names", "C37", [(A, "\treturn a.Parent.FullName() + \":\" + a.Name\n", "\tkey := nameKey{a.Parent, a.Name}\n\tif fullNames[key] == \"\" {\n\t\tfullNames[key] = a.Parent.FullName() + \":\" + a.Name\n\t}\n\treturn fullNames[key]\n"),

 (A, "// GetBalance gets an account balance at a given time.\n", "type nameKey struct {\n\tparent *Account\n\tname   string\n}\n\nvar fullNames = make(map[nameKey]string)\n\n// GetBalance gets an account balance at a given time.\n")],
 "names of subaccounts asked for at the same time", "the program ends: concurrent map writes", r'''
func check() {
	text := ""
	for i := 0; i < 200; i++ {
		text += fmt.Sprintf("2020-01-01 x\n  A:B%d:C:D  1 EUR\n  E:F%d:G  -1 EUR\n", i, i)
	}
	done := make(chan bool)
	for k := 0; k < 8; k++ {
		f := fmt.Sprintf("j%d.j", k)
		go func() {
			for i := 0; i < 20; i++ {
				l, err := open(f, text)
				if err != nil {
					fail("%v", err)
				}
				for _, a := range l.Accounts {
					_ = a.FullName()
				}
			}
			done <- true
		}()
	}
	for k := 0; k < 8; k++ {
		<-done
	}
}
''')
seed("c37-export", "C37", [(L, "\t\tcomments = append(comments, ledger.Comments[a]...)\n\t\tif len(comments) > 0 {\n\t\t\tfmt.Fprintf(out, \" ; %s\", comments[0])\n\t\t}\n", "\t\tcomments = append(comments, ledger.Comments[a]...)\n\t\tif len(comments) > 1 {\n\t\t\tledger.Comments[a] = comments\n\t\t}\n\t\tif len(comments) > 0 {\n\t\t\tfmt.Fprintf(out, \" ; %s\", comments[0])\n\t\t}\n")],
 "exporting twice a ledger with an account which has a code and a comment", "the code is written twice the second time", r'''
func check() {
	l := load("account A ; code:7\n\t; my account\n2020-01-01 x\n  A  1 EUR\n  B\n")
	one := export(l)
	eq("exported again", export(l), one)
}
''')
