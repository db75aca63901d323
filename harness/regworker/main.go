// regworker runs one scenario against the registry of backends, in a process where nothing is registered.
// It reads the scenario from its standard input, and writes what happened, one line per event.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"time"

	"github.com/cespedes/accounting"
)

type driverSpec struct {
	Mode string // ok, fail, failboth, unbalanced
	Caps int    // optional operations of its connections
	Accs int
	Txs  [][4]int64 // time, account, account, amount
	Ret  int        // what the operations return: 0 a result, 1 an error, 2 both, 3 nothing

	Inner string // another data source which it opens to do its work
}

type op struct {
	Op   string
	Name string
	D    int // driver
	URL  string
	I    int
	M    string
	A, B int64
	X    int
}

type scenario struct {
	Drivers []driverSpec
	Ops     []op
}

type id int

func (i id) String() string { return fmt.Sprint(int(i)) }

func say(f string, a ...any) { fmt.Printf(f+"\n", a...) }

type driver struct {
	n    int
	spec driverSpec
}

// what the last operation of a connection returned
type returned struct {
	acc  *accounting.Account
	txn  *accounting.Transaction
	txns []*accounting.Transaction
	err  error
}

var last returned
var inside bool
var lastLedger *accounting.Ledger

type base struct{ d *driver }

func (b *base) Close() error {
	say(" conn %d Close", b.d.n)
	last.err = nil
	if b.d.spec.Ret != 0 {
		last.err = errors.New("close failed")
	}
	return last.err
}

func (b *base) Refresh() { say(" conn %d Refresh", b.d.n) }

type full struct{ d *driver }

type mAccount interface {
	Account(accounting.ID) *accounting.Account
}
type mTransactionsInAccount interface {
	TransactionsInAccount(accounting.ID) []*accounting.Transaction
}
type mTransactionsInInterval interface {
	TransactionsInInterval(time.Time, time.Time) []*accounting.Transaction
}
type mNewAccount interface {
	NewAccount(accounting.Account) (*accounting.Account, error)
}
type mEditAccount interface {
	EditAccount(accounting.Account) (*accounting.Account, error)
}
type mNewTransaction interface {
	NewTransaction(accounting.Transaction) (*accounting.Transaction, error)
}
type mEditTransaction interface {
	EditTransaction(accounting.Transaction) (*accounting.Transaction, error)
}
type mFlush interface{ Flush() error }

func (f *full) ret() {
	last = returned{}
	if f.d.spec.Ret == 0 || f.d.spec.Ret == 2 {
		last.acc = &accounting.Account{Name: "returned"}
		last.txn = &accounting.Transaction{Description: "returned"}
		last.txns = []*accounting.Transaction{last.txn}
	}
	if f.d.spec.Ret == 1 || f.d.spec.Ret == 2 {
		last.err = errors.New("operation failed")
	}
}

func (f *full) Account(i accounting.ID) *accounting.Account {
	say(" conn %d Account %v", f.d.n, i)
	f.ret()
	last.err = nil
	return last.acc
}

func (f *full) TransactionsInAccount(i accounting.ID) []*accounting.Transaction {
	say(" conn %d TransactionsInAccount %v", f.d.n, i)
	f.ret()
	last.err = nil
	return last.txns
}

func (f *full) TransactionsInInterval(a, b time.Time) []*accounting.Transaction {
	say(" conn %d TransactionsInInterval %d %d", f.d.n, a.Unix(), b.Unix())
	f.ret()
	last.err = nil
	return last.txns
}

func (f *full) NewAccount(a accounting.Account) (*accounting.Account, error) {
	say(" conn %d NewAccount %s %s %v%s", f.d.n, a.Name, a.Code, a.ID, asGiven(reflect.DeepEqual(a, sentAcc[0]) && reflect.DeepEqual(a, sentAcc[1])))
	f.ret()
	return last.acc, last.err
}

func (f *full) EditAccount(a accounting.Account) (*accounting.Account, error) {
	say(" conn %d EditAccount %s %s %v%s", f.d.n, a.Name, a.Code, a.ID, asGiven(reflect.DeepEqual(a, sentAcc[0]) && reflect.DeepEqual(a, sentAcc[1])))
	f.ret()
	return last.acc, last.err
}

func (f *full) NewTransaction(t accounting.Transaction) (*accounting.Transaction, error) {
	say(" conn %d NewTransaction %s %d %v%s", f.d.n, t.Description, t.Time.Unix(), t.ID, asGiven(reflect.DeepEqual(t, sentTxn[0]) && reflect.DeepEqual(t, sentTxn[1])))
	f.ret()
	return last.txn, last.err
}

func (f *full) EditTransaction(t accounting.Transaction) (*accounting.Transaction, error) {
	say(" conn %d EditTransaction %s %d %v%s", f.d.n, t.Description, t.Time.Unix(), t.ID, asGiven(reflect.DeepEqual(t, sentTxn[0]) && reflect.DeepEqual(t, sentTxn[1])))
	f.ret()
	return last.txn, last.err
}

func (f *full) Flush() error {
	say(" conn %d Flush", f.d.n)
	f.ret()
	return last.err
}

func (d *driver) Open(url string, b *accounting.Backend) (accounting.Connection, error) {
	if d.spec.Inner != "" && !inside {
		inside = true
		if _, err := accounting.Open(d.spec.Inner); err != nil {
			say(" inner error")
		} else {
			say(" inner opened")
		}
		inside = false
	}
	say(" driver %d Open %s", d.n, url)
	l := b.Ledger
	lastLedger = l
	cur := &accounting.Currency{Name: "X"}
	for i := 0; i < d.spec.Accs; i++ {
		l.Accounts = append(l.Accounts, &accounting.Account{ID: id(i), Name: fmt.Sprintf("A%d", i)})
	}
	for i, t := range d.spec.Txs {
		x := &accounting.Transaction{ID: id(100 + i), Time: time.Unix(t[0], 0), Description: fmt.Sprint(i)}
		x.Splits = []*accounting.Split{
			{ID: id(1000 + i), Account: l.Accounts[t[1]], Value: accounting.Value{Amount: t[3], Currency: cur}},
			{ID: id(2000 + i), Account: l.Accounts[t[2]], Value: accounting.Value{Amount: -t[3], Currency: cur}},
		}
		if d.spec.Mode == "unbalanced" && i == len(d.spec.Txs)/2 {
			x.Splits[0].Value.Amount++
		}
		l.Transactions = append(l.Transactions, x)
	}
	conn := combo(d.spec.Caps, &base{d}, &full{d})
	switch d.spec.Mode {
	case "fail":
		return nil, errors.New("driver failed")
	case "failboth":
		return conn, errors.New("driver failed")
	}
	return conn, nil
}

// what the last operation was given, and once more, built apart
var sentAcc [2]accounting.Account
var sentTxn [2]accounting.Transaction

func asGiven(same bool) string {
	if same {
		return ""
	}
	return " not as given"
}

// makeAccount makes the account to be created or edited, with its other fields in any state.
func makeAccount(o op) accounting.Account {
	a := accounting.Account{ID: id(o.A), Name: "N" + fmt.Sprint(o.B), Code: "C" + fmt.Sprint(o.A)}
	if o.X&1 != 0 {
		a.Parent = &accounting.Account{ID: id(7), Name: "parent"}
	}
	if o.X&2 != 0 {
		a.Level = 3
	}
	if o.X&4 != 0 {
		a.Children = []*accounting.Account{{Name: "child"}}
	}
	if o.X&8 != 0 {
		a.Splits = []*accounting.Split{{}}
		a.StartBalance = accounting.Balance{{Amount: 3}, {}}
	}
	return a
}

func makeTransaction(o op) accounting.Transaction {
	t := accounting.Transaction{ID: id(o.A), Description: "D" + fmt.Sprint(o.B), Time: time.Unix(o.A*o.B, 0)}
	if o.X&1 != 0 {
		t.Splits = append(t.Splits, &accounting.Split{}, &accounting.Split{})
	}
	if o.X&2 != 0 {
		t.Splits = append(t.Splits, &accounting.Split{Account: &accounting.Account{Name: "x"}, Value: accounting.Value{Amount: 5, Currency: &accounting.Currency{Name: "X"}}})
	}
	if o.X&4 != 0 {
		at := time.Unix(o.B, 0)
		t.Splits = append(t.Splits, &accounting.Split{ID: id(1), Time: &at, Balance: accounting.Balance{{Amount: 1}}})
	}
	if o.X&8 != 0 {
		t.Description = ""
	}
	return t
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

func names(ts []*accounting.Transaction) string {
	s := "["
	for _, t := range ts {
		s += " " + t.Description
	}
	return s + " ]"
}

func sameTxns(a, b []*accounting.Transaction) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func main() {
	var sc scenario
	if err := json.NewDecoder(os.Stdin).Decode(&sc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(7)
	}
	var drivers []*driver
	for i, s := range sc.Drivers {
		drivers = append(drivers, &driver{i, s})
	}
	var ledgers []*accounting.Ledger
	for n, o := range sc.Ops {
		say("op %d %s", n, o.Op)
		switch o.Op {
		case "reg":
			var d accounting.Driver
			if o.D >= 0 {
				d = drivers[o.D]
			}
			if panics(func() { accounting.Register(o.Name, d) }) {
				say(" panic")
			}
		case "open":
			lastLedger = nil
			l, err := accounting.Open(o.URL)
			switch {
			case err != nil && l != nil:
				say(" an error and a ledger")
			case err != nil:
				say(" error")
			case l == nil:
				say(" no ledger and no error")
			default:
				say(" opened")
				if l != lastLedger {
					say(" it is not the ledger of the driver")
				}
				ledgers = append(ledgers, l)
			}
		case "clone":
			if len(ledgers) > 0 {
				ledgers = append(ledgers, ledgers[o.I%len(ledgers)].Clone())
			}
		case "call":
			if len(ledgers) == 0 {
				continue
			}
			call(ledgers[o.I%len(ledgers)], o)
		}
	}
}

func call(l *accounting.Ledger, o op) {
	last = returned{}
	before := fmt.Sprint(len(l.Accounts), len(l.Transactions))
	result := func(same, isNil bool, err error) {
		switch {
		case err != nil && last.err != nil && errors.Is(err, last.err):
			say(" the same error")
		case err != nil:
			say(" an error")
		case last.err != nil:
			say(" the error is lost")
		}
		switch {
		case isNil:
			say(" nothing")
		case same:
			say(" the same result")
		default:
			say(" another result")
		}
	}
	switch o.M {
	case "Close":
		err := l.Close()
		result(true, true, err)
	case "Refresh":
		l.Refresh()
	case "Flush":
		err := l.Flush()
		result(true, true, err)
	case "Account":
		a := l.Account(id(o.A))
		if last.acc == nil && a != nil {
			say(" account %s", a.Name)
			found := false
			for _, x := range l.Accounts {
				found = found || x == a
			}
			say(" of the ledger: %v", found)
		} else {
			result(a == last.acc, a == nil, nil)
		}
	case "TransactionsInAccount", "TransactionsInInterval":
		var ts []*accounting.Transaction
		if o.M == "TransactionsInAccount" {
			ts = l.TransactionsInAccount(id(o.A))
		} else {
			ts = l.TransactionsInInterval(time.Unix(o.A, 0), time.Unix(o.B, 0))
		}
		if len(last.txns) > 0 && sameTxns(ts, last.txns) {
			say(" the same result")
		} else {
			say(" transactions %s", names(ts))
		}
	case "NewAccount", "EditAccount":
		in := makeAccount(o)
		sentAcc = [2]accounting.Account{in, makeAccount(o)}
		f := l.NewAccount
		if o.M == "EditAccount" {
			f = l.EditAccount
		}
		a, err := f(in)
		result(a == last.acc, a == nil, err)
	case "NewTransaction", "EditTransaction":
		in := makeTransaction(o)
		sentTxn = [2]accounting.Transaction{in, makeTransaction(o)}
		f := l.NewTransaction
		if o.M == "EditTransaction" {
			f = l.EditTransaction
		}
		t, err := f(in)
		result(t == last.txn, t == nil, err)
	}
	if fmt.Sprint(len(l.Accounts), len(l.Transactions)) != before {
		say(" the ledger changed")
	}
}
