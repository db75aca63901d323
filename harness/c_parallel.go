package main

// C37: queries only read, and can be made at the same time.

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/cespedes/accounting"
	"pgregory.net/rapid"
)

type c37query struct {
	Op   string
	I, K int
	T, U int64 `json:",omitempty"`
	V    int64 `json:",omitempty"`
}

type c37case struct {
	J       *Journal `json:",omitempty"`
	T       *TxtDB   `json:",omitempty"`
	Others  []*Journal
	Queries [][]c37query // what each goroutine asks, in order
}

var c37ops = []string{"balance", "balance", "balance", "convert", "convert", "account", "in account", "interval", "name", "amount", "split", "currency", "export", "clone", "dump", "open", "convert", "sum"}

// raceReports are the data races seen until now in this process, by the race detector.
func raceReports() string {
	p := os.Getenv("VH_RACE")
	if p == "" {
		return ""
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
	if err != nil && !os.IsNotExist(err) {
		panic(harnessError(err.Error()))
	}
	return string(b)
}

// ask answers one question about a ledger, without changing it.
func ask(l *accounting.Ledger, others []string, q c37query) string {
	when := time.Unix(q.T, 0).UTC()
	if q.T == 0 {
		when = time.Time{}
	}
	acc, okA := at(l.Accounts, q.I)
	tr, okT := at(l.Transactions, q.I)
	cur, okC := at(l.Currencies, q.K)
	switch q.Op {
	case "balance":
		if okA {
			return l.GetBalance(acc, when).String()
		}
	case "sum":
		var b accounting.Balance
		for _, a := range l.Accounts {
			b.AddBalance(l.GetBalance(a, when))
		}
		d := b.Dup()
		d.SubBalance(b)
		return b.String() + d.String()
	case "convert":
		if from, ok := at(l.Currencies, q.I); ok && okC {
			v, err := l.Convert(accounting.Value{Amount: q.V, Currency: from}, when, cur)
			return fmt.Sprint(val(v), err)
		}
	case "account":
		if okA && acc.ID != nil {
			if a := l.Account(acc.ID); a != nil {
				return a.FullName()
			}
			return "nil"
		}
	case "name":
		if okA {
			return acc.FullName()
		}
	case "in account":
		if okA && acc.ID != nil {
			s := ""
			for _, t := range l.TransactionsInAccount(acc.ID) {
				s += moment(t.Time) + t.Description + "\n"
			}
			return s
		}
	case "interval":
		s := ""
		for _, t := range l.TransactionsInInterval(when, time.Unix(q.U, 0).UTC()) {
			s += moment(t.Time) + t.Description + "\n"
		}
		return s
	case "amount":
		if okC {
			v := accounting.Value{Amount: q.V, Currency: cur}
			return v.String() + " " + v.FullString() + " " + v.GetString(q.I%2 == 0, q.I%3 == 0)
		}
	case "split":
		if okT {
			if s, ok := at(tr.Splits, q.K); ok {
				return fmt.Sprint(s.Value.String(), s.Balance.String(), moment(*s.Time), l.Assertions[s].Amount, l.SplitPrices[s].Amount, l.Comments[s], l.Comments[tr])
			}
		}
	case "currency":
		if okC {
			c, isNew := l.GetCurrency(cur.Name)
			return fmt.Sprint(c.Name, isNew)
		}
	case "export":
		return export(l)
	case "clone":
		return strings.Join(picture(l.Clone()), "\n")
	case "dump":
		return strings.Join(picture(l), "\n")
	case "open":
		if u, ok := at(others, q.I); ok {
			o, err := accounting.Open(u)
			if err != nil {
				return "cannot be opened"
			}
			return strings.Join(picture(o), "\n")
		}
	}
	return ""
}

func init() {
	register(&Check{ID: "C37", Quick: 12000, Thorough: 250000,
		Rule: "a case is a loaded journal or txtdb directory, up to two other journals, right or wrong, and 2 to 4 goroutines each with up to 6 queries (balance, sum of balances, conversion, account by id, transactions of an account or interval, names, amounts, postings, commodities, export, clone, everything, opening another journal). They are asked at the same time, in a program built with the race detector; each answer is compared with the answer of a second copy of the ledger asked alone, the ledger with itself before, and the race detector must report nothing. Non-trivial: two transactions or more, and two goroutines which ask the same thing or the ledger has prices.",
		Gen: func(t *rapid.T) any {
			cs := c37case{}
			if chance(t, "txtdb", 15) {
				cs.T = genTxtDB(t, &TOpt{MaxTxn: 5, Dated: true, Asserts: true})
			} else {
				cs.J = genJournal(t, Opt{MaxTxn: 5, Omit: true, Dated: true, Cost: true, Exchange: true, Prices: true, Comments: chance(t, "com", 30), Undeclared: true, Default: true, Assert: chance(t, "assert", 20)})
			}
			for n := intn(t, "nothers", 0, 2); n > 0; n-- {
				cs.Others = append(cs.Others, genJournal(t, Opt{MaxTxn: 3, Omit: true, Dated: true, Cost: true, Prices: true, Undeclared: true, Default: true}))
			}
			for n := intn(t, "ngoroutines", 2, 4); n > 0; n-- {
				var qs []c37query
				for k := intn(t, "nqueries", 1, 6); k > 0; k-- {
					q := c37query{Op: pick(t, "op", c37ops...), I: intn(t, "i", 0, 7), K: intn(t, "k", 0, 3)}
					switch q.Op {
					case "balance", "convert", "interval", "sum":
						q.T = intn64(t, "t", cs.J)
					}
					if q.Op == "interval" {
						q.U = intn64(t, "u", cs.J)
					}
					if q.Op == "convert" || q.Op == "amount" {
						q.V = genV(t, 2)
					}
					qs = append(qs, q)
				}
				if len(cs.Queries) > 0 && chance(t, "same", 40) {
					qs = append(qs, cs.Queries[0]...)
				}
				cs.Queries = append(cs.Queries, qs)
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c37case](raw)
			r := Result{}
			var url string
			if cs.J != nil {
				m := build(cs.J, c.root, "main.j")
				c.write(m.Files)
				r.Sample = m.text(c)
				url = m.main(c)
			} else {
				dir := c.whole + "/txt"
				c.write(cs.T.files(dir))
				r.Sample = cs.T.text()
				url = "txtdb:" + dir
				r.Classes = append(r.Classes, "txtdb")
			}
			var others []string
			for i, j := range cs.Others {
				m := build(j, c.root, fmt.Sprintf("o%d.j", i))
				c.write(m.Files)
				r.Sample += m.text(c)
				others = append(others, fmt.Sprintf("%s/o%d.j", c.root, i))
			}
			if len(others) > 0 {
				c.write(map[string]string{c.root + "/wrong.j": "account A:T\n2020-01-01 x\n  A:T  5 EUR ; date:2020-02-02\n  B  -5 EUR\n2020-01-02 x\n  A  1 EUR\n"})
				others = append(others, c.root+"/wrong.j", c.root+"/missing.j")
			}
			r.Sample += fmt.Sprintf("%+v\n", cs.Queries)
			alone, err := accounting.Open(url)
			l, err2 := accounting.Open(url)
			if err != nil || err2 != nil {
				r.Discard = true // C01 and others
				return r
			}
			before := picture(l)
			seen := raceReports()
			got := make([][]string, len(cs.Queries))
			bad := make([]any, len(cs.Queries))
			var wg sync.WaitGroup
			start := make(chan bool)
			for i, qs := range cs.Queries {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() { bad[i] = recover() }()
					<-start
					for _, q := range qs {
						got[i] = append(got[i], ask(l, others, q))
					}
				}()
			}
			close(start)
			wg.Wait()
			for i, p := range bad {
				if h, ok := p.(harnessError); ok {
					panic(h)
				}
				if p != nil {
					r.Fail = fmt.Sprintf("goroutine %d: panic: %v\n%s", i, p, r.Sample)
					return r
				}
			}
			if s := raceReports(); s != seen {
				s = strings.TrimPrefix(s, seen)
				if len(s) > 4000 {
					s = s[:4000]
				}
				r.Fail = s + "\n" + r.Sample
				return r
			}
			ops := map[string]bool{}
			same := false
			for i, qs := range cs.Queries {
				for k, q := range qs {
					same = same || i > 0 && ops[q.Op]
					ops[q.Op] = true
					if want := ask(alone, others, q); want != got[i][k] {
						r.Fail = fmt.Sprintf("goroutine %d, query %d (%+v):\n%s\nasked alone:\n%s\n%s", i, k, q, got[i][k], want, r.Sample)
						return r
					}
				}
			}
			for op := range ops {
				r.Classes = append(r.Classes, op)
			}
			if d := diff("the ledger which has been asked", before, picture(l)); d != "" {
				r.Fail = d + "\n" + r.Sample
				return r
			}
			r.NonTrivial = len(l.Transactions) > 1 && (same || len(l.Prices) > 0)
			return r
		}})
}

// intn64 is a moment near those of a journal, or the zero time.
func intn64(t *rapid.T, label string, j *Journal) int64 {
	var ts []int64
	if j != nil {
		allTx(j.Items, func(it *Item) { ts = append(ts, it.T) })
	}
	ts = append(ts, 1577880000)
	return pick(t, label, ts...) + int64(pick(t, label+"+", 0, 0, -1, 1, -86400, 86400))
}
