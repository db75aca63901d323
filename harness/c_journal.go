package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	_ "github.com/cespedes/accounting/backend/ledger"
	_ "github.com/cespedes/accounting/backend/postgres"
	_ "github.com/cespedes/accounting/backend/txtdb"
	"pgregory.net/rapid"
)

type jcase struct{ J *Journal }

func decode[T any](raw json.RawMessage) T {
	var v T
	if err := json.Unmarshal(raw, &v); err != nil {
		panic(harnessError(err.Error()))
	}
	return v
}

type info struct {
	tx, posts, curs, dated, cost, omit, infer, asr, exch, prices, sameday int
}

func survey(m *MLedger) info {
	var i info
	i.tx = len(m.Txns)
	i.curs = len(m.Curs)
	i.prices = len(m.Prices)
	for k, t := range m.Txns {
		if k > 0 && m.Txns[k-1].T == t.T {
			i.sameday++
		}
		for _, p := range t.Posts {
			i.posts++
			if p.T != t.T {
				i.dated++
			}
			if p.Cost != nil {
				i.cost++
			}
			if p.Asr != nil {
				i.asr++
				if !p.HasA {
					i.infer++
				}
			} else if !p.HasA {
				i.omit++
			}
		}
		if _, _, ok := t.exchange(); ok {
			i.exch++
		}
	}
	return i
}

func (i info) classes() []string {
	var c []string
	add := func(n int, s string) {
		if n > 0 {
			c = append(c, s)
		}
	}
	add(i.dated, "dated")
	add(i.cost, "cost")
	add(i.omit, "omitted")
	add(i.infer, "inferred-from-assertion")
	add(i.asr, "assertion")
	add(i.exch, "exchange")
	add(i.prices, "prices")
	add(i.sameday, "same-moment")
	if i.tx >= 4 {
		c = append(c, "tx>=4")
	}
	return c
}

// checkDump loads a journal which must load, and compares parts of the result with the model.
func checkDump(c *Ctx, j *Journal, p Parts) (Result, *MLedger, *accounting.Ledger) {
	m, l, diag, err := c.load(j)
	m.compute()
	r := Result{Sample: m.text(c)}
	if m.Err != nil {
		panic(harnessError(fmt.Sprintf("the generator made a wrong journal: %v\n%s", m.Err, m.text(c))))
	}
	if err != nil {
		r.Fail = fmt.Sprintf("a valid journal is rejected: %v\n%s%s", err, diag, m.text(c))
		return r, m, nil
	}
	if d := diff("loaded ledger", mdump(m, p), dump(l, p)); d != "" {
		r.Fail = d + "\n" + diag + m.text(c)
	}
	r.Classes = survey(m).classes()
	return r, m, l
}

var full = Opt{MaxTxn: 7, Odd: true, Cost: true, Exchange: true, SameSign: true, Assert: true, Infer: true, Dated: true, Omit: true, Comments: true, Prices: true, Default: true, Undeclared: true, Tags: true, Noise: true, Times: true, ZeroCost: true}

// ---------------------------------------------------------------- C01

type c01case struct {
	J *Journal
}

func init() {
	register(&Check{ID: "C01", Quick: 48000, Thorough: 2000000,
		Rule: "a case is a journal of up to 7 transactions, two thirds of them with postings changed, added or removed so that a transaction may not balance; the verdict expected comes from exact sums over the syntax tree. Non-trivial: at least two transactions and five postings, or a journal which must be rejected.",
		Gen: func(t *rapid.T) any {
			o := Opt{MaxTxn: 7, Cost: true, Exchange: true, SameSign: true, Omit: true, Prices: false, Default: true, Undeclared: true, Times: true, Dated: true, Comments: chance(t, "com", 20), ZeroCost: true, Infer: chance(t, "infer", 30)}
			j := genJournal(t, o)
			if chance(t, "break", 66) {
				breakJournal(t, &o, j)
			}
			return c01case{j}
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c01case](raw)
			m, l, diag, err := c.load(cs.J)
			m.compute()
			in := survey(m)
			r := Result{Sample: m.text(c)}
			r.NonTrivial = m.Err != nil || in.tx >= 2 && in.posts >= 5
			if m.Err == nil {
				r.Classes = append(in.classes(), "valid")
				if err != nil {
					r.Fail = fmt.Sprintf("a journal whose transactions balance is rejected: %v\n%s%s", err, diag, m.text(c))
				}
				return r
			}
			r.Classes = []string{m.Err.Kind}
			if m.Err.Kind == "assertion" {
				// made by the change of an earlier amount: another property
				return Result{Discard: true}
			}
			if err == nil {
				r.Fail = fmt.Sprintf("loads, although it must not (%s in %v)\n%s%s", m.Err.Kind, m.Err.Where, diag, m.text(c))
				return r
			}
			if l != nil {
				r.Fail = "an error and a ledger are both returned"
				return r
			}
			where := m.Err.Where
			for _, t := range m.Txns {
				for _, p := range t.Posts {
					if p.Asr != nil { // it may be false because of the change
						where = append(where, p.ID)
					}
				}
			}
			for _, w := range where {
				if mentions(err.Error(), w) {
					return r
				}
			}
			r.Fail = fmt.Sprintf("the error does not name the transaction (one of %v): %v\n%s", m.Err.Where, err, m.text(c))
			return r
		}})
}

// breakJournal changes a transaction so that it probably does not balance.
func breakJournal(t *rapid.T, o *Opt, j *Journal) {
	var txs []*Item
	allTx(j.Items, func(it *Item) {
		if len(it.Posts) > 0 {
			txs = append(txs, it)
		}
	})
	if len(txs) == 0 {
		return
	}
	it := pick(t, "broken", txs...)
	k := intn(t, "which", 0, len(it.Posts)-1)
	p := &it.Posts[k]
	switch pick(t, "how", "amount", "amount", "omit", "add", "drop", "third", "costdrop", "cost", "swap", "circular", "figures") {
	case "figures":
		// the same figure in several commodities, in one posting or two, with or without a missing amount
		var named []int
		for ci := range j.Curs {
			if j.Curs[ci].Name != "" {
				named = append(named, ci)
			}
		}
		if len(named) < 2 {
			return
		}
		v := genV(t, 2)
		for n := intn(t, "ncommodities", 2, 3); n > 0; n-- {
			ci := pick(t, "cur", named...)
			w := pick(t, "sign", v, -v, v, -v, 2*v)
			if rapid.Bool().Draw(t, "halves") {
				it.Posts = append(it.Posts, Posting{Acc: p.Acc, A: &Amt{C: ci, V: w / 2}, Lay: genLay(t, o)})
				w -= w / 2
			}
			it.Posts = append(it.Posts, Posting{Acc: p.Acc, A: &Amt{C: ci, V: w}, Lay: genLay(t, o)})
		}
		if chance(t, "missing", 60) {
			it.Posts = append(it.Posts, Posting{Acc: p.Acc, Lay: genLay(t, o)})
		}
	case "circular":
		// two missing amounts which depend on each other
		var named []int
		for ci := range j.Curs {
			if j.Curs[ci].Name != "" {
				named = append(named, ci)
			}
		}
		if len(named) == 0 || p.Date != nil {
			return
		}
		at := intn(t, "circularat", 0, len(it.Posts))
		two := []Posting{{Acc: p.Acc, Lay: genLay(t, o)}, {Acc: p.Acc, Asr: &Amt{C: pick(t, "cur", named...), V: genV(t, 2)}, Lay: genLay(t, o)}}
		it.Posts = append(it.Posts[:at:at], append(two, it.Posts[at:]...)...)
	case "amount":
		d := pick(t, "delta", int64(1), -1, unit, 1000000, -unit, 1<<uint(intn(t, "bit", 0, 56)))
		if p.A != nil && !(p.Cost != nil && p.Rel) {
			p.A.V += d
		} else if p.Cost != nil && p.Rel {
			p.Cost.V += 10000 // the product stays exact
		}
	case "omit":
		if p.Cost == nil && p.Asr == nil && p.Date == nil {
			p.A = nil
		}
	case "add":
		q := Posting{Acc: p.Acc, Lay: genLay(t, o)}
		if rapid.Bool().Draw(t, "amount") {
			ci := intn(t, "cur", 0, len(j.Curs)-1)
			if j.Curs[ci].Name != "" {
				q.A = &Amt{C: ci, V: genV(t, 2)}
			}
		}
		it.Posts = append(it.Posts, q)
	case "drop":
		it.Posts = append(it.Posts[:k:k], it.Posts[k+1:]...)
	case "third":
		for ci := range j.Curs {
			if j.Curs[ci].Name != "" {
				it.Posts = append(it.Posts, Posting{Acc: p.Acc, A: &Amt{C: ci, V: genV(t, 2)}, Lay: genLay(t, o)})
			}
		}
	case "costdrop":
		p.Cost, p.Rel = nil, false
	case "cost":
		if p.Cost != nil && !p.Rel {
			p.Cost.V += pick(t, "delta", int64(1), -1, unit)
		}
	case "swap":
		if p.A != nil && p.Cost == nil && p.Asr == nil {
			p.A.V = -p.A.V
		}
	}
}

// ---------------------------------------------------------------- C02, C03

func init() {
	register(&Check{ID: "C02", Quick: 48000, Thorough: 2000000,
		Rule: "a case is a valid journal of up to 6 transactions with omitted amounts, costs, exchanges and amounts fixed by assertions; every amount and cost is compared with exact arithmetic on the syntax tree. Non-trivial: some posting has no amount in the text.",
		Gen: func(t *rapid.T) any {
			return jcase{genJournal(t, Opt{MaxTxn: 6, Cost: true, Exchange: true, SameSign: true, Assert: true, Infer: true, Omit: true, Default: true, Undeclared: true, Times: true, Dated: chance(t, "dated", 30), ZeroCost: true})}
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			r, m, _ := checkDump(c, decode[jcase](raw).J, Parts{Values: true, Costs: true})
			in := survey(m)
			r.NonTrivial = in.omit+in.infer > 0
			return r
		}})
	register(&Check{ID: "C03", Quick: 48000, Thorough: 2000000,
		Rule: "a case is a valid journal of up to 9 transactions; the postings of each account, their order and the balance after each are compared with sums of big integers. Non-trivial: some account has three or more postings.",
		Gen: func(t *rapid.T) any {
			return jcase{genJournal(t, Opt{MaxTxn: 9, Cost: true, Exchange: true, SameSign: true, Assert: true, Infer: true, Omit: true, Default: true, Undeclared: true, Times: true, Dated: true, Prices: true, ZeroCost: true})}
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			r, m, l := checkDump(c, decode[jcase](raw).J, Parts{Running: true})
			for _, a := range m.Accs {
				if len(a.Posts) >= 3 {
					r.NonTrivial = true
				}
			}
			if r.Fail == "" {
				for _, a := range l.Accounts {
					for _, s := range a.Splits {
						seen := map[*accounting.Currency]bool{}
						for _, v := range s.Balance {
							if v.Amount == 0 || seen[v.Currency] {
								r.Fail = fmt.Sprintf("balance with a zero or repeated commodity: %s in %s\n%s", bal(s.Balance), a.FullName(), m.text(c))
							}
							seen[v.Currency] = true
						}
					}
				}
			}
			return r
		}})
}

// ---------------------------------------------------------------- C04

type c04case struct {
	J     *Journal
	False bool
}

func init() {
	register(&Check{ID: "C04", Quick: 48000, Thorough: 2000000,
		Rule: "a case is a journal with assertions, all true or with one amount of an assertion changed (when the posting has an amount); the verdict, the place named and the inferred amounts come from the exact running balances. Non-trivial: at least one assertion.",
		Gen: func(t *rapid.T) any {
			o := Opt{MaxTxn: 7, Cost: true, Exchange: true, SameSign: true, Assert: true, Infer: true, Omit: true, Dated: true, Default: true, Undeclared: true, Times: true}
			j := genJournal(t, o)
			cs := c04case{J: j}
			if chance(t, "false", 45) {
				var ps []*Posting
				allTx(j.Items, func(it *Item) {
					for k := range it.Posts {
						if p := &it.Posts[k]; p.Asr != nil && p.A != nil {
							ps = append(ps, p)
						}
					}
				})
				if len(ps) > 0 {
					p := pick(t, "p", ps...)
					how := intn(t, "how", 0, 4)
					switch {
					case how == 0 && p.Asr.V != 0:
						p.Asr.V = -p.Asr.V
					case how == 1 && p.Asr.V != 0:
						p.Asr.V = 0
					case how == 2:
						p.Asr.V++
					case how == 3 && p.Asr.V != p.A.V && p.Asr.C == p.A.C:
						p.Asr.V = p.A.V
					default:
						p.Asr.V += pick(t, "d", int64(unit), -1, 1000000)
					}
					cs.False = true
				}
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c04case](raw)
			if !cs.False {
				r, m, _ := checkDump(c, cs.J, Parts{Values: true, Costs: true, Running: true})
				r.NonTrivial = survey(m).asr > 0
				r.Classes = append(r.Classes, "all-true")
				return r
			}
			m, l, diag, err := c.load(cs.J)
			m.compute()
			r := Result{Sample: m.text(c), NonTrivial: true, Classes: []string{"false"}}
			if m.Err == nil {
				return Result{Discard: true}
			}
			if m.Err.Kind != "assertion" {
				return Result{Discard: true}
			}
			if err == nil {
				r.Fail = fmt.Sprintf("a false assertion is accepted: %v\n%s%s", m.Err.Where, diag, m.text(c))
				return r
			}
			if l != nil {
				r.Fail = "an error and a ledger are both returned"
			}
			for _, w := range m.Err.Where {
				if mentions(err.Error(), w) {
					return r
				}
			}
			r.Fail = fmt.Sprintf("the error does not name the posting (one of %v): %v\n%s", m.Err.Where, err, m.text(c))
			return r
		}})
}

// ---------------------------------------------------------------- C05, C06

// instants are all the interesting times of a journal.
func instants(m *MLedger) []int64 {
	set := map[int64]bool{}
	for _, t := range m.Txns {
		for _, d := range []int64{-1, 0, 1} {
			set[t.T+d] = true
			for _, p := range t.Posts {
				set[p.T+d] = true
			}
		}
	}
	var out []int64
	for x := range set {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func findTransfer(l *accounting.Ledger) *accounting.Account {
	var x *accounting.Account
	for _, a := range l.Accounts {
		if isTransferAcc(a) {
			if x != nil {
				panic("two transfer accounts")
			}
			x = a
		}
	}
	if x == nil {
		panic("no transfer account")
	}
	return x
}

// sumSplits adds up the splits of an account until t, without trusting the stored balances.
func sumSplits(a *accounting.Account, t time.Time) map[string]*big.Int {
	b := map[string]*big.Int{}
	for _, s := range a.Splits {
		if !s.Time.After(t) {
			addName(b, s.Value)
		}
	}
	return b
}

func addName(b map[string]*big.Int, v accounting.Value) {
	if v.Amount == 0 {
		return
	}
	n := curName(v.Currency)
	if b[n] == nil {
		b[n] = new(big.Int)
	}
	b[n].Add(b[n], big.NewInt(v.Amount))
	if b[n].Sign() == 0 {
		delete(b, n)
	}
}

func nbal(b map[string]*big.Int) string {
	var o []string
	for c, x := range b {
		if x.Sign() != 0 {
			o = append(o, fmt.Sprintf("%s|%s", x, c))
		}
	}
	sort.Strings(o)
	return "{" + strings.Join(o, " ") + "}"
}

func init() {
	register(&Check{ID: "C05", Quick: 30000, Thorough: 1250000,
		Rule: "a case is a valid journal without costs or exchanges; at every moment one second before, at and one second after each transaction and posting, the balances of all accounts are added up, and the transfer account is compared with the amounts in transit. Non-trivial: some posting is dated apart from its transaction.",
		Gen: func(t *rapid.T) any {
			return jcase{genJournal(t, Opt{MaxTxn: 7, Omit: true, Dated: true, Default: true, Undeclared: true, Times: true, Assert: chance(t, "asr", 20)})}
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			r, m, l := checkDump(c, decode[jcase](raw).J, Parts{Values: true})
			in := survey(m)
			r.NonTrivial = in.dated > 0
			if r.Fail != "" {
				return r
			}
			tr := findTransfer(l)
			last := int64(0)
			for _, at := range instants(m) {
				last = at
				when := time.Unix(at, 0).UTC()
				total, total2 := map[string]*big.Int{}, map[string]*big.Int{}
				for _, a := range l.Accounts {
					for _, v := range l.GetBalance(a, when) {
						addName(total, v)
					}
					for _, x := range a.Splits {
						if !x.Time.After(when) {
							addName(total2, x.Value)
						}
					}
				}
				if len(total) != 0 {
					r.Fail = fmt.Sprintf("at %s the balances of all accounts add up to %s\n%s", when, nbal(total), m.text(c))
					return r
				}
				if len(total2) != 0 {
					r.Fail = fmt.Sprintf("at %s the postings of all accounts add up to %s\n%s", when, nbal(total2), m.text(c))
					return r
				}
				want := mbal(m.transit(at))
				if got := nbal(sumSplits(tr, when)); got != want {
					r.Fail = fmt.Sprintf("at %s the postings of the transfer account add up to %s, expected %s\n%s", when, got, want, m.text(c))
					return r
				}
				if got := bal(l.GetBalance(tr, when)); got != want {
					r.Fail = fmt.Sprintf("at %s the transfer account holds %s, expected %s\n%s", when, got, want, m.text(c))
					return r
				}
			}
			if b := bal(l.GetBalance(tr, time.Unix(last+1, 0).UTC())); b != "{}" {
				r.Fail = fmt.Sprintf("the transfer account holds %s in the end\n%s", b, m.text(c))
			}
			if b := bal(l.GetBalance(tr, time.Time{})); b != "{}" {
				r.Fail = fmt.Sprintf("the transfer account holds %s after all\n%s", b, m.text(c))
			}
			return r
		}})
	register(&Check{ID: "C06", Quick: 30000, Thorough: 1250000,
		Rule: "a case is a valid journal; the balance of every account is asked for one second before, at and after every posting, long before and long after, and without a time, and compared with the sum of the postings up to then. in half of the cases a transaction is then dropped, and all is asked again after recalculating. Non-trivial: some account has two or more postings.",
		Gen: func(t *rapid.T) any {
			return c06case{genJournal(t, Opt{MaxTxn: 8, Cost: true, Exchange: true, SameSign: true, Infer: true, Omit: true, Dated: true, Default: true, Undeclared: true, Times: true}), intn(t, "zone", -14, 14), max(0, intn(t, "drop", -12, 8))}
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c06case](raw)
			r, m, l := checkDump(c, cs.J, Parts{Values: true})
			if r.Fail != "" {
				return r
			}
			byName := map[string]*accounting.Account{}
			for _, a := range l.Accounts {
				byName[a.FullName()] = a
			}
			at := instants(m)
			if len(at) > 0 {
				at = append(at, at[0]-1e9, at[len(at)-1]+1e9)
			}
			for _, a := range m.Accs {
				if len(a.Posts) >= 2 {
					r.NonTrivial = true
				}
				x := byName[a.Full]
				if x == nil {
					r.Fail = "no account " + a.Full
					return r
				}
				for _, t := range at {
					want := mbal(a.balanceAt(t))
					got := bal(l.GetBalance(x, time.Unix(t, 0).UTC()))
					if got == want {
						// the same instant in another time zone, and almost a second later
						got = bal(l.GetBalance(x, inZone(t, cs.Zone).Add(999_999_999)))
					}
					if got != want {
						r.Fail = fmt.Sprintf("balance of %s at %s: %s, expected %s\n%s", a.Full, mmoment(t), got, want, m.text(c))
						return r
					}
				}
				if got, want := bal(l.GetBalance(x, time.Time{})), mbal(a.balanceAt(1<<60)); got != want {
					r.Fail = fmt.Sprintf("last balance of %s: %s, expected %s\n%s", a.Full, got, want, m.text(c))
					return r
				}
			}
			if cs.Drop == 0 || len(l.Transactions) == 0 {
				return r
			}
			// without one of the transactions
			k := (cs.Drop - 1) % len(l.Transactions)
			l.Transactions = append(l.Transactions[:k:k], l.Transactions[k+1:]...)
			if err := l.Fill(); err != nil {
				r.Classes = append(r.Classes, "not valid any more") // an assertion needed it
				return r
			}
			r.Classes = append(r.Classes, "changed")
			for _, a := range l.Accounts {
				for _, t := range append(at, 1<<40) {
					sum := map[*accounting.Currency]*big.Int{}
					for _, tx := range l.Transactions {
						for _, s := range tx.Splits {
							if s.Account == a && s.Time.Unix() <= t && s.Value.Currency != nil {
								if sum[s.Value.Currency] == nil {
									sum[s.Value.Currency] = new(big.Int)
								}
								sum[s.Value.Currency].Add(sum[s.Value.Currency], big.NewInt(s.Value.Amount))
							}
						}
					}
					var want accounting.Balance
					fits := true
					for cu, v := range sum {
						fits = fits && v.IsInt64()
						if v.Sign() != 0 {
							want = append(want, accounting.Value{Amount: v.Int64(), Currency: cu})
						}
					}
					when := time.Unix(t, 0).UTC()
					if t == 1<<40 {
						when = time.Time{}
					}
					if got := bal(l.GetBalance(a, when)); fits && got != bal(want) {
						r.Fail = fmt.Sprintf("balance of %s at %s without transaction %d: %s, expected %s\n%s", a.FullName(), mmoment(t), k+1, got, bal(want), m.text(c))
						return r
					}
				}
			}
			return r
		}})
}

// ---------------------------------------------------------------- C11

type c06case struct {
	J    *Journal
	Zone int // hours
	Drop int // the transaction which is dropped then (from 1)
}

// implied are the prices which exchanges and costs stand for.
type implied struct {
	t        int64
	from, to *MCur
	num, den int64 // price = num/den
}

func impliedPrices(m *MLedger) []implied {
	var out []implied
	for _, t := range m.Txns {
		if a, b, ok := t.exchange(); ok {
			out = append(out, implied{t.T, a.C, b.C, -b.V, a.V}, implied{t.T, b.C, a.C, -a.V, b.V})
		}
		for _, p := range t.Posts {
			if p.Cost != nil && p.Val.V != 0 {
				out = append(out, implied{p.T, p.Val.C, p.Cost.C, p.Cost.V, p.Val.V})
				if p.Cost.V != 0 {
					out = append(out, implied{p.T, p.Cost.C, p.Val.C, p.Val.V, p.Cost.V})
				}
			}
		}
	}
	return out
}

// fits: can the price be stored? near: is x the price, to the last digit?
func (i implied) rat() *big.Rat {
	r := big.NewRat(i.num, 1)
	r.Quo(r, big.NewRat(i.den, 1))
	return r.Mul(r, big.NewRat(unit, 1))
}
func (i implied) fits() bool {
	x := i.rat()
	lim := new(big.Rat).SetInt64(9_000_000_000_000_000_000)
	return x.Abs(x).Cmp(lim) < 0
}
func (i implied) near(x int64) bool {
	d := i.rat()
	d.Sub(d, new(big.Rat).SetInt64(x))
	return d.Abs(d).Cmp(big.NewRat(1, 1)) <= 0
}

func init() {
	register(&Check{ID: "C11", Quick: 30000, Thorough: 1250000,
		Rule:   "a case is a valid journal with declared prices, exchanges and costs (per unit, in total, some of them zero), loaded twice; the prices expected are exact quotients, compared to within one unit of the last stored digit. Non-trivial: at least one exchange or cost.",
		Assume: []string{"exchange rates fit in the stored range (cases where one does not are left out)"},
		Gen: func(t *rapid.T) any {
			o := Opt{MaxTxn: 6, Cost: true, Exchange: true, SameSign: chance(t, "same", 10), Omit: true, Dated: true, Prices: true, Default: true, Undeclared: true, Times: true, ZeroCost: true, Infer: chance(t, "infer", 20)}
			j := genJournal(t, o)
			if chance(t, "echo", 30) {
				echoPrices(t, &o, j)
			}
			return jcase{j}
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			j := decode[jcase](raw).J
			r, m, l := checkDump(c, j, Parts{Prices: true, Costs: true, Values: true, IDs: true})
			if r.Fail != "" {
				return r
			}
			imp := impliedPrices(m)
			r.NonTrivial = len(imp) > 0
			for _, i := range imp {
				if !i.fits() {
					return Result{Discard: true, Classes: []string{"rate-out-of-range"}}
				}
			}
			if len(imp) > 4 {
				r.Classes = append(r.Classes, "many-implied")
			}
			for k := 1; k < len(l.Prices); k++ {
				if l.Prices[k].Time.Before(l.Prices[k-1].Time) {
					r.Fail = fmt.Sprintf("prices are not sorted: %s before %s\n%s", moment(l.Prices[k-1].Time), moment(l.Prices[k].Time), m.text(c))
					return r
				}
			}
			match := func(i implied, p *accounting.Price) bool {
				return p.Time.Equal(time.Unix(i.t, 0)) && curName(p.Currency) == i.from.Name && curName(p.Value.Currency) == i.to.Name && i.near(p.Value.Amount)
			}
			for _, i := range imp {
				found := false
				for _, p := range l.Prices {
					found = found || match(i, p)
				}
				if !found {
					r.Fail = fmt.Sprintf("no price of %s in %s, %s, at %s\n%s\n%s", i.from.Name, i.to.Name, i.rat().FloatString(3), mmoment(i.t), strings.Join(dump(l, Parts{Prices: true, AutoPrices: true}), "\n"), m.text(c))
					return r
				}
			}
			for _, p := range l.Prices {
				if !isAuto(l, p) {
					continue
				}
				found := false
				for _, i := range imp {
					found = found || match(i, p)
				}
				if !found {
					r.Fail = fmt.Sprintf("unexpected price %s %s = %d|%s\n%s", moment(p.Time), curName(p.Currency), p.Value.Amount, curName(p.Value.Currency), m.text(c))
					return r
				}
			}
			p1 := dump(l, Parts{Prices: true, AutoPrices: true, IDs: true})
			for k := 0; k < 2; k++ {
				l2, err := accounting.Open(m.main(c))
				if err != nil {
					r.Fail = "the second time it does not load: " + err.Error()
					return r
				}
				if d := diff("prices of a second load", p1, dump(l2, Parts{Prices: true, AutoPrices: true, IDs: true})); d != "" {
					r.Fail = d + "\n" + m.text(c)
					return r
				}
			}
			return r
		}})
}

// echoPrices declares the price of some posting also at its date, or near it.
func echoPrices(t *rapid.T, o *Opt, j *Journal) {
	for k := range j.Items {
		it := &j.Items[k]
		if it.K != "tx" || !chance(t, "echotx", 40) {
			continue
		}
		for _, p := range it.Posts {
			if p.A == nil || p.Cost == nil || !p.Rel || j.Curs[p.A.C].Name == "" {
				continue
			}
			at := it.T
			if p.Date != nil {
				at = *p.Date
			}
			pr := Item{K: "P", Cur: p.A.C, A: &Amt{C: p.Cost.C, V: p.Cost.V, F: genForm(t, o) &^ fNoName}, DF: genForm(t, o), Lay: genLay(t, o)}
			pr.T = at + pick(t, "echoat", int64(0), 0, 1, -1, 3600, -3600, 86400, -86400, -10*86400)
			if chance(t, "echovalue", 20) {
				pr.A.V++
			}
			n := len(j.Items)
			for i := range j.Items {
				if j.Items[i].K == "P" && j.Items[i].T > pr.T {
					n = i
					break
				}
			}
			j.Items = append(j.Items[:n:n], append([]Item{pr}, j.Items[n:]...)...)
			return
		}
	}
}

// ---------------------------------------------------------------- C14, C15

func init() {
	register(&Check{ID: "C14", Quick: 36000, Thorough: 1500000,
		Rule: "a case is a journal with every kind of entry, comments inline and below, tags, dates in all layouts, noise and lines the program does not understand (one with postings below, and wrong postings in transactions); the entries found are compared with the syntax tree, and dates are also read alone in two layouts. Non-trivial: at least two comments or tags.",
		Gen: func(t *rapid.T) any {
			o := full
			o.Junk = rapid.Bool().Draw(t, "junk")
			o.Infer = chance(t, "infer", 20)
			j := genJournal(t, o)
			if o.Junk {
				orphan(t, j)
				badPostings(t, j)
				badPrices(t, j)
			}
			return jcase{j}
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			j := decode[jcase](raw).J
			m, l, diag, err := c.load(j)
			m.compute()
			r := Result{Sample: m.text(c), Classes: survey(m).classes()}
			if m.Err != nil {
				panic(harnessError(fmt.Sprint("the generator made a wrong journal: ", m.Err, m.text(c))))
			}
			if err != nil {
				r.Fail = fmt.Sprintf("a valid journal is rejected: %v\n%s", err, m.text(c))
				return r
			}
			p := Parts{IDs: true, Entries: true, Values: true, Costs: true, Curs: true, Comments: true, Prices: true, PriceComments: true}
			if d := diff("loaded ledger", mdump(m, p), dump(l, p)); d != "" {
				r.Fail = d + "\n" + diag + m.text(c)
				return r
			}
			for w := range m.Notes {
				r.Classes = append(r.Classes, "unknown-line")
				if !mentions(diag, w) {
					r.Fail = fmt.Sprintf("nothing is said about %s, which is not understood\n%s%s", w, diag, m.text(c))
					return r
				}
			}
			n := 0
			for _, t := range m.Txns {
				n += len(t.Com)
				for _, p := range t.Posts {
					n += len(p.Com)
					if p.Own {
						n++
					}
				}
			}
			for _, a := range m.Accs {
				n += len(a.Com)
			}
			r.NonTrivial = n >= 2
			return r
		}})
	register(&Check{ID: "C15", Quick: 36000, Thorough: 1500000,
		Rule: "a case is a journal with accounts of depth 1 to 4, declared or only used, in any order; the list of accounts, their links, depth and names are compared with the names in the journal. Non-trivial: some account has two children, or depth of three or more.",
		Gen: func(t *rapid.T) any {
			return jcase{genJournal(t, Opt{MaxTxn: 5, Odd: true, Omit: true, Undeclared: true, Dated: true, Infer: chance(t, "infer", 10)})}
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			j := decode[jcase](raw).J
			r, m, l := checkDump(c, j, Parts{Tree: true})
			for _, a := range m.Accs {
				if len(a.Children) >= 2 || a.Level >= 2 {
					r.NonTrivial = true
				}
			}
			if r.Fail != "" {
				return r
			}
			tr := 0
			for _, a := range l.Accounts {
				if isTransferAcc(a) {
					tr++
					if a.FullName() != transferName || len(a.Children) != 0 {
						r.Fail = "the transfer account is wrong: " + a.FullName()
					}
				}
				for _, s := range a.Splits {
					if s.Account != a {
						r.Fail = "a posting listed in another account: " + a.FullName()
					}
				}
			}
			if tr != 1 {
				r.Fail = fmt.Sprintf("%d transfer accounts", tr)
			}
			return r
		}})
}

// badPostings puts postings which are wrong, and do not count, in some transactions.
func badPostings(t *rapid.T, j *Journal) {
	allTx(j.Items, func(it *Item) {
		var seen *Amt
		var out []Posting
		for _, p := range it.Posts {
			if p.Date == nil && chance(t, "badtag", 8) {
				p.BadTag = pick(t, "badtagdate", "soon", "2020-02-30", "2020/13/01", "31.12.2020", "20200101", "2020-01-01 25:00", "2020-01-01 10:61:00", "2020", "2020-01-01T10:00", "2020-01-01 x")
			}
			out = append(out, p)
			if p.A != nil {
				seen = p.A
			}
			if seen != nil && chance(t, "badpost", 8) {
				out = append(out, Posting{Acc: p.Acc, A: seen, Bad: intn(t, "badkind", 1, 9)})
			}
		}
		it.Posts = out
	})
}

// badPrices puts price lines without commodity or without value after others.
func badPrices(t *rapid.T, j *Journal) {
	var out []Item
	for _, it := range j.Items {
		out = append(out, it)
		if it.K != "P" || !chance(t, "badprice", 12) {
			continue
		}
		s := "P " + time.Unix(it.T, 0).UTC().Format("2006-01-02/15:04:05")
		if n := j.Curs[it.Cur].Name; n != "" && !strings.Contains(n, " ") && rapid.Bool().Draw(t, "badpricecur") {
			s += " " + n
			if rapid.Bool().Draw(t, "badpricetail") {
				s += pick(t, "badpricetail", " ", "   ", " ; c", "  ;")
			}
		}
		out = append(out, Item{K: "raw", Text: s})
	}
	j.Items = out
}

// orphan puts an unknown line with postings and comments below, which belong to nothing.
func orphan(t *rapid.T, j *Journal) {
	if len(j.Items) == 0 {
		return
	}
	k := intn(t, "orphanpos", 0, len(j.Items))
	head := genJunk(t)
	ins := []Item{{K: "raw", Text: head}}
	if rapid.Bool().Draw(t, "orphanposts") {
		ins = append(ins, Item{K: "raw", Text: "  Assets:Lost  5.00 EUR"}, Item{K: "raw", Text: "  Equity  -5.00 EUR"})
	}
	if rapid.Bool().Draw(t, "orphancom") {
		ins = append(ins, Item{K: "raw", Text: "  ; lost comment"})
	}
	j.Items = append(j.Items[:k:k], append(ins, j.Items[k:]...)...)
}
