# Ninth batch: caches which are not forgotten, instants between two seconds or in other time zones.
T = "types.go"
CACHED = "	DefaultCurrency *Currency                // Default currency.\n"
seed("c06-cache", "C06", [(T, CACHED, CACHED + "	balances        map[balanceAt]Balance    // balances already computed\n"),
  (T, "// ID is used to identify one", "type balanceAt struct {\n	account *Account\n	when    time.Time\n}\n\n// ID is used to identify one"),
  (A, "	if account.Splits[0].Time.After(when) {\n		return account.StartBalance\n	}\n	for i := 1; i < len(account.Splits); i++ {\n		if account.Splits[i].Time.After(when) {\n			return account.Splits[i-1].Balance\n		}\n	}\n	return account.Splits[len(account.Splits)-1].Balance\n",
   "	if account.Splits[0].Time.After(when) {\n		return account.StartBalance\n	}\n	balancesMu.Lock()\n	defer balancesMu.Unlock()\n	key := balanceAt{account, when}\n	if b, ok := l.balances[key]; ok {\n		return b\n	}\n	n := sort.Search(len(account.Splits), func(i int) bool { return account.Splits[i].Time.After(when) })\n	if l.balances == nil {\n		l.balances = make(map[balanceAt]Balance)\n	}\n	l.balances[key] = account.Splits[n-1].Balance\n	return l.balances[key]\n"),
  (A, "	driversMu      sync.RWMutex\n", "	driversMu      sync.RWMutex\n	balancesMu     sync.Mutex\n")],
 "asking for a balance, changing the transactions, Fill, and asking for the same balance again", "the old balance is given", r'''
func check() {
	l := load("2020-01-01 x\n  A  1.00 EUR\n  B\n2020-01-02 y\n  A  2.00 EUR\n  B\n")
	at := l.Transactions[1].Time
	eq("before", l.GetBalance(acc(l, "A"), at).String(), "3.00 EUR")
	l.Transactions = l.Transactions[1:]
	if err := l.Fill(); err != nil { fail("%v", err) }
	eq("after", l.GetBalance(acc(l, "A"), at).String(), "2.00 EUR")
}
''')
seed("c19-zone", "C19", [(A, "		if start.After(t.Time) {\n			continue\n		}\n		if end.Before(t.Time) {\n			continue\n		}\n", "		const day = \"2006-01-02 15:04:05.999999999\"\n		if at := t.Time.Format(day); at < start.Format(day) || at > end.Format(day) {\n			continue\n		}\n")],
 "an interval whose ends are given in another time zone", "the interval is moved by the difference of the zones", r'''
func check() {
	l := load("2020-01-01/10:00 x\n  A  1.00 EUR\n  B\n")
	at := l.Transactions[0].Time
	z := time.FixedZone("Z", 3600)
	eq("found", len(l.TransactionsInInterval(at.Add(-time.Minute).In(z), at.Add(time.Minute).In(z))), 1)
}
''')
seed("c10-cache", "C10", [(T, CACHED, CACHED + "	rates           map[rateAt]Value         // exchange rates already computed\n"),
  (T, "// ID is used to identify one", "type rateAt struct {\n	from, to *Currency\n	when     time.Time\n}\n\n// ID is used to identify one"),
  (A, "	if currency == nil {\n		return v, fmt.Errorf(\"could not convert %q: no currency to convert to\", v)\n	}\n	var prevTime", "	if currency == nil {\n		return v, fmt.Errorf(\"could not convert %q: no currency to convert to\", v)\n	}\n	ratesMu.Lock()\n	defer ratesMu.Unlock()\n	if rate, ok := l.rates[rateAt{v.Currency, currency, when}]; ok && len(tried) == 0 {\n		rate.Mul(v)\n		return rate, nil\n	}\n	var prevTime"),
  (A, "	driversMu      sync.RWMutex\n", "	driversMu      sync.RWMutex\n	ratesMu        sync.Mutex\n"),
  (A, "		if p.Time == when {\n			tmp := p.Value\n			tmp.Mul(v)\n", "		if p.Time == when {\n			if l.rates == nil {\n				l.rates = make(map[rateAt]Value)\n			}\n			l.rates[rateAt{v.Currency, currency, when}] = p.Value\n			tmp := p.Value\n			tmp.Mul(v)\n"),
  (A, "		nv, err := l.Convert(v, when, prevValue.Currency)\n		if err != nil {\n			return nv, err\n		}\n		return", "		ratesMu.Unlock()\n		defer ratesMu.Lock()\n		nv, err := l.Convert(v, when, prevValue.Currency)\n		if err != nil {\n			return nv, err\n		}\n		return")],
 "converting at the date of a price, changing the price, and converting again", "the old price is used", r'''
func check() {
	l := load("P 2020-01-01 EUR 2.00 USD\n")
	p := l.Prices[0]
	v := accounting.Value{Amount: accounting.U, Currency: p.Currency}
	v1, _ := l.Convert(v, p.Time, p.Value.Currency)
	eq("first", v1.Amount, int64(2*accounting.U))
	p.Value.Amount = 3 * accounting.U
	v2, _ := l.Convert(v, p.Time, p.Value.Currency)
	eq("second", v2.Amount, int64(3*accounting.U))
}
''')
seed("c19-account-index", "C19", [(T, CACHED, CACHED + "	byID            map[ID]*Account          // the accounts by their ID\n"),
  (A, "	for _, a := range l.Accounts {\n		if a.ID == id {\n			return a\n		}\n	}\n	return nil\n", "	indexMu.Lock()\n	defer indexMu.Unlock()\n	if l.byID == nil {\n		l.byID = make(map[ID]*Account)\n		for _, a := range l.Accounts {\n			if l.byID[a.ID] == nil {\n				l.byID[a.ID] = a\n			}\n		}\n	}\n	return l.byID[id]\n"),
  (A, "	driversMu      sync.RWMutex\n", "	driversMu      sync.RWMutex\n	indexMu        sync.Mutex\n")],
 "looking up an account, then adding another one to the ledger, and looking up that one", "it is not found", r'''
type nid string

func (n nid) String() string { return string(n) }

func check() {
	l := load("account A\n")
	l.Account(acc(l, "A").ID)
	a := &accounting.Account{ID: nid("new"), Name: "New"}
	l.Accounts = append(l.Accounts, a)
	if err := l.Fill(); err != nil { fail("%v", err) }
	if l.Account(nid("new")) != a { fail("the new account is not found") }
}
''')
seed("c22-content", "C22", [(P, "	f, err := os.Open(filename)\n	if err != nil {\n		return err\n	}\n", "	f, err := os.Open(filename)\n	if err != nil {\n		return err\n	}\n	var source io.Reader = f\n	if info, err := f.Stat(); err == nil && info.Mode().IsRegular() {\n		key := fmt.Sprintf(\"%s %d\", filename, info.Size())\n		contentsMu.Lock()\n		text, ok := contents[key]\n		if !ok {\n			if text, err = io.ReadAll(f); err == nil {\n				contents[key] = text\n			}\n		}\n		contentsMu.Unlock()\n		if err == nil {\n			source = bytes.NewReader(text)\n		}\n	}\n"),
  (P, "	s2 := bufio.NewScanner(f)\n", "	s2 := bufio.NewScanner(source)\n"),
  (P, "	\"regexp\"\n	\"strings\"\n", "	\"regexp\"\n	\"strings\"\n	\"sync\"\n"), (P, "	\"bufio\"\n", "	\"bufio\"\n	\"bytes\"\n"),
  (P, "func NewScanner() *Scanner {", "var (\n	contentsMu sync.Mutex\n	contents   = make(map[string][]byte) // files already read\n)\n\nfunc NewScanner() *Scanner {")],
 "opening a journal again after a change which keeps its size", "the former content is loaded", r'''
func check() {
	load("2020-01-01 x\n  A  1.00 EUR\n  B\n")
	l := load("2020-01-01 x\n  A  2.00 EUR\n  B\n")
	eq("balance", l.GetBalance(acc(l, "A"), time.Time{}).String(), "2.00 EUR")
}
''')
seed("c31-same-day", "C31", [(L, "				if *s.Time != t.Time {\n", "				if s.Time.Truncate(24*time.Hour) != t.Time.Truncate(24*time.Hour) {\n")],
 "a txtdb transaction one of whose lines has another time of the same day", "the time of that posting is lost in the export", r'''
func check() {
	write("t/accounts", "1:::A::\n2:::B:x:\n")
	write("t/transactions", ":2020-01-01 10.00:x::1:+1.00:\n:2020-01-01 12.00:x::2:-1.00:\n")
	l, err := accounting.Open("txtdb:" + scratch + "/t")
	if err != nil { fail("%v", err) }
	l2, err := open("b.j", export(l))
	if err != nil { fail("%v", err) }
	eq("hours", acc(l2, "B").Splits[0].Time.Hour(), 12)
}
''')
seed("c12-currency-id", "C12", [(A, "		nc.ID = c.ID\n", "")],
 "a commodity which has been given an identifier", "the copy does not have it", r'''
type nid string

func (n nid) String() string { return string(n) }

func check() {
	l := load("commodity 1.00 EUR\n")
	cur(l, "EUR").ID = nid("978")
	if c := cur(l.Clone(), "EUR"); c.ID != nid("978") { fail("the identifier of the copy is %v", c.ID) }
}
''')
seed("c33-case", "C33", [(P, "		if str == l.ledger.Accounts[i].FullName() {\n", "		if name := l.ledger.Accounts[i].FullName(); str == name || strings.TrimRight(str, \":\") == name {\n")],
 "an account name which ends in a colon", "it is taken for the account without it, and nothing is said", r'''
func check() {
	_, _, msg := run3("ledger", "-f", write("a.j", "commodity 1.00 EUR\naccount A\naccount B\n2020-01-01 x\n  A:  1.00 EUR\n  B\n"), "stats")
	if !strings.Contains(msg, "a.j:5") { fail("nothing is said about the account: %q", msg) }
}
''')
