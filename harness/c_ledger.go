package main

// C12, C19, C21 and C22: operations on loaded ledgers.

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/cespedes/accounting"
	"pgregory.net/rapid"
)

var everything = Parts{IDs: true, Tree: true, Entries: true, Values: true, Costs: true, Running: true, Prices: true, AutoPrices: true, Curs: true, Comments: true, Transfer: true, PriceComments: true}

// open loads a journal which must load.
func (c *Ctx) open(j *Journal, r *Result) (*MLedger, *accounting.Ledger) {
	m, l, diag, err := c.load(j)
	m.compute()
	if m.Err != nil {
		panic(harnessError(fmt.Sprintf("the generator made a wrong journal: %v\n%s", m.Err, m.text(c))))
	}
	r.Sample = m.text(c)
	if err != nil {
		r.Fail = fmt.Sprintf("a valid journal is rejected: %v\n%s%s", err, diag, m.text(c))
		return m, nil
	}
	r.Classes = append(r.Classes, survey(m).classes()...)
	return m, l
}

// ---------------------------------------------------------------- comparing two object graphs

// forgetUnreached removes comments of entries which are not in the ledger.
func forgetUnreached(l *accounting.Ledger) {
	reached := map[any]bool{}
	for _, k := range sortedKeys(l) {
		reached[k] = true
	}
	for k := range l.Comments {
		if !reached[k] {
			delete(l.Comments, k)
		}
	}
}

// graph compares two ledgers field by field, following pointers, and collects what is shared.
type graph struct {
	ab   map[uintptr]uintptr
	ba   map[uintptr]uintptr
	fail string
}

func (g *graph) err(path, f string, a ...any) {
	if g.fail == "" {
		g.fail = path + ": " + fmt.Sprintf(f, a...)
	}
}

var idType = reflect.TypeOf((*accounting.ID)(nil)).Elem()
var timeType = reflect.TypeOf(time.Time{})

func (g *graph) cmp(path string, a, b reflect.Value) {
	if g.fail != "" {
		return
	}
	if a.Type() != b.Type() {
		g.err(path, "type %s and %s", a.Type(), b.Type())
		return
	}
	if a.Type() == idType {
		if a.Interface() != b.Interface() {
			g.err(path, "identifier %v and %v", a.Interface(), b.Interface())
		}
		return
	}
	if a.Type() == timeType {
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if !x.Equal(y) {
			g.err(path, "%s and %s", x, y)
		}
		return
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				g.err(path, "nil in one of them")
			}
			return
		}
		pa, pb := a.Pointer(), b.Pointer()
		if pa == pb {
			g.err(path, "both refer to the same %s", a.Type().Elem())
			return
		}
		if a.Type().Elem() == timeType {
			// a date is a value: whether two postings share it or have a copy each is not a link between entries
			g.cmp(path, a.Elem(), b.Elem())
			return
		}
		x, okA := g.ab[pa]
		y, okB := g.ba[pb]
		if okA || okB {
			if x != pb || y != pa {
				g.err(path, "the links are different")
			}
			return
		}
		g.ab[pa], g.ba[pb] = pb, pa
		g.cmp(path, a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if f := a.Type().Field(i); f.PkgPath == "" {
				g.cmp(path+"."+f.Name, a.Field(i), b.Field(i))
			}
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			g.err(path, "length %d and %d", a.Len(), b.Len())
			return
		}
		if a.Len() > 0 && a.Pointer() == b.Pointer() {
			g.err(path, "both use the same array")
			return
		}
		for i := 0; i < a.Len(); i++ {
			g.cmp(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i))
		}
	case reflect.Map:
		// only after all the pointers are known
	default:
		if a.Interface() != b.Interface() {
			g.err(path, "%v and %v", a.Interface(), b.Interface())
		}
	}
}

// mapKeys finds the key which corresponds to another one.
func cmpMaps(g *graph, path string, a, b reflect.Value) {
	if g.fail != "" {
		return
	}
	// what belongs to an object which is in no list (the posting of a rejected line...) cannot be reached
	reached := func(m reflect.Value, known map[uintptr]uintptr) (n int) {
		for _, k := range m.MapKeys() {
			if k.Kind() == reflect.Interface {
				k = k.Elem()
			}
			if _, ok := known[k.Pointer()]; ok {
				n++
			}
		}
		return n
	}
	if na, nb := reached(a, g.ab), reached(b, g.ba); na != nb {
		g.err(path, "%d entries and %d", na, nb)
		return
	}
	if a.Len() > 0 && a.Pointer() == b.Pointer() {
		g.err(path, "both use the same map")
		return
	}
	byPtr := map[uintptr]reflect.Value{}
	for _, k := range b.MapKeys() {
		x := k
		if x.Kind() == reflect.Interface {
			x = x.Elem()
		}
		byPtr[x.Pointer()] = k
	}
	for _, k := range a.MapKeys() {
		x := k
		if x.Kind() == reflect.Interface {
			x = x.Elem()
		}
		if _, known := g.ab[x.Pointer()]; !known {
			// an object which is in no list (the price of a rejected line...): it cannot be reached
			continue
		}
		kb, ok := byPtr[g.ab[x.Pointer()]]
		if !ok {
			g.err(path, "entry for a %s is missing", x.Type())
			return
		}
		va, vb := a.MapIndex(k), b.MapIndex(kb)
		if va.Kind() == reflect.Slice && va.Len() > 0 && va.Pointer() == vb.Pointer() {
			g.err(path, "both use the same array")
			return
		}
		g.cmp(path+"[...]", va, vb)
	}
}

// isClone says how b is not an equal and independent copy of a.
func isClone(a, b *accounting.Ledger) string {
	if a == b {
		return "they are the same ledger"
	}
	g := &graph{ab: map[uintptr]uintptr{}, ba: map[uintptr]uintptr{}}
	va, vb := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	g.cmp("ledger", va, vb)
	for _, f := range []string{"Assertions", "SplitPrices", "Comments"} {
		cmpMaps(g, f, va.FieldByName(f), vb.FieldByName(f))
	}
	return g.fail
}

// ---------------------------------------------------------------- changes

type change struct {
	Op   string
	A, B int
}

var changeOps = []string{"amount", "balance", "comment", "uncomment", "currency", "price", "addprice", "rename", "time", "describe", "assert", "cost", "dropcost", "default",
	"addtx", "droptx", "dropaccount", "swap", "fill", "startbalance", "children", "splits", "getcurrency", "code", "currencies", "commentall", "txtime", "convert", "iso", "unassert", "valuecurrency", "ids"}

// harmless changes leave a ledger which can be recalculated.
var harmless = []string{"comment", "uncomment", "currency", "iso", "getcurrency", "describe", "ids", "startbalance", "convert", "rename"}

// breaks: the change leaves a ledger whose links are not consistent. It cannot be cloned or recalculated then.
func (ch change) breaks() bool {
	switch ch.Op {
	case "droptx", "dropaccount", "children", "splits", "code":
		return true
	}
	return false
}

func genChanges(t *rapid.T, max int) []change {
	var out []change
	for n := intn(t, "nchanges", 1, max); n > 0; n-- {
		out = append(out, change{pick(t, "change", changeOps...), intn(t, "a", 0, 99), intn(t, "b", 0, 99)})
	}
	return out
}

func at[T any](xs []T, i int) (x T, ok bool) {
	if len(xs) == 0 {
		return
	}
	return xs[i%len(xs)], true
}

func sortedKeys(l *accounting.Ledger) []any {
	// in the order of the lists, so that it does not depend on the map
	var ks []any
	for _, a := range l.Accounts {
		ks = append(ks, a)
	}
	for _, t := range l.Transactions {
		ks = append(ks, t)
		for _, s := range t.Splits {
			ks = append(ks, s)
		}
	}
	for _, p := range l.Prices {
		ks = append(ks, p)
	}
	for _, c := range l.Currencies {
		ks = append(ks, c)
	}
	return ks
}

// apply changes a ledger through everything a program can reach.
func apply(l *accounting.Ledger, ch change) {
	t, hasT := at(l.Transactions, ch.A)
	var s *accounting.Split
	hasS := false
	if hasT {
		s, hasS = at(t.Splits, ch.B)
	}
	a, hasA := at(l.Accounts, ch.A)
	cu, hasC := at(l.Currencies, ch.A)
	p, hasP := at(l.Prices, ch.A)
	switch ch.Op {
	case "amount":
		if hasS {
			s.Value.Amount += 12345
		}
	case "balance":
		if hasS {
			for i := range s.Balance {
				s.Balance[i].Amount += 7
			}
			if hasC {
				s.Balance.Add(accounting.Value{Amount: 3, Currency: cu})
			}
		}
	case "comment", "uncomment":
		if k, ok := at(sortedKeys(l), ch.A*7+ch.B); ok {
			if ch.Op == "uncomment" {
				delete(l.Comments, k)
			} else {
				l.Comments[k] = append(l.Comments[k], "changed")
			}
		}
	case "commentall":
		for _, k := range sortedKeys(l) {
			for i := range l.Comments[k] {
				l.Comments[k][i] = "changed"
			}
		}
	case "currency":
		if hasC {
			cu.Name += "x"
			cu.Precision = (cu.Precision + 1) % 9
			cu.Thousand, cu.Decimal = "t", "d"
			cu.PrintBefore, cu.WithoutSpace = !cu.PrintBefore, !cu.WithoutSpace
		}
	case "iso":
		if hasC {
			cu.ISIN += "x"
		}
	case "valuecurrency":
		// the commodity of an amount, even if it is not in the list
		if hasS && s.Value.Currency != nil {
			s.Value.Currency.Name += "v"
			s.Value.Currency.Decimal = "v"
		}
	case "ids":
		if hasC {
			cu.ID = foreignID("cu")
		}
		if hasP {
			p.ID = foreignID("p")
		}
		if hasT {
			t.ID = foreignID("t")
		}
		if hasS {
			s.ID = foreignID("s")
		}
	case "currencies":
		if len(l.Currencies) > 0 {
			l.Currencies[0] = &accounting.Currency{Name: "other"}
		}
	case "getcurrency":
		l.GetCurrency("NEW")
	case "price":
		if hasP {
			p.Value.Amount++
			p.Time = p.Time.Add(time.Hour)
		}
	case "addprice":
		if hasC {
			l.Prices = append(l.Prices, &accounting.Price{Time: time.Unix(0, 0), Currency: cu, Value: accounting.Value{Amount: 1, Currency: cu}})
		}
	case "rename":
		if hasA {
			a.Name += "x"
			a.Level++
		}
	case "code":
		if hasA {
			a.Code += "x"
			a.Parent = nil
		}
	case "time":
		if hasS {
			*s.Time = s.Time.Add(time.Second)
		}
	case "txtime":
		if hasT {
			t.Time = t.Time.Add(time.Minute)
		}
	case "describe":
		if hasT {
			t.Description += "x"
		}
	case "assert":
		if hasS {
			l.Assertions[s] = accounting.Value{Amount: 1, Currency: cu}
		}
	case "unassert":
		for _, t := range l.Transactions {
			for _, s := range t.Splits {
				delete(l.Assertions, s)
			}
		}
	case "cost":
		if hasS {
			l.SplitPrices[s] = accounting.Value{Amount: 1, Currency: cu}
		}
	case "dropcost":
		for _, t := range l.Transactions {
			for _, s := range t.Splits {
				delete(l.SplitPrices, s)
			}
		}
	case "default":
		if l.DefaultCurrency != nil {
			l.DefaultCurrency.Name += "d"
		}
		l.DefaultCurrency = cu
	case "addtx":
		if hasA && hasC {
			x := &accounting.Transaction{Time: time.Unix(int64(ch.B)*1e7, 0).UTC(), Description: "new"}
			x.Splits = []*accounting.Split{
				{Account: a, Transaction: x, Time: &x.Time, Value: accounting.Value{Amount: 5, Currency: cu}},
				{Account: a, Transaction: x, Time: &x.Time, Value: accounting.Value{Amount: -5, Currency: cu}},
			}
			l.Transactions = append(l.Transactions, x)
			a.Splits = append(a.Splits, x.Splits...)
		}
	case "droptx":
		if hasT {
			i := ch.A % len(l.Transactions)
			l.Transactions = append(l.Transactions[:i], l.Transactions[i+1:]...)
		}
	case "dropaccount":
		if hasA {
			i := ch.A % len(l.Accounts)
			l.Accounts = append(l.Accounts[:i], l.Accounts[i+1:]...)
		}
	case "swap":
		if n := len(l.Transactions); n > 1 {
			l.Transactions[0], l.Transactions[n-1] = l.Transactions[n-1], l.Transactions[0]
		}
		if n := len(l.Accounts); n > 1 {
			l.Accounts[0], l.Accounts[n-1] = l.Accounts[n-1], l.Accounts[0]
		}
		if n := len(l.Prices); n > 1 {
			l.Prices[0], l.Prices[n-1] = l.Prices[n-1], l.Prices[0]
		}
		if hasT {
			if n := len(t.Splits); n > 1 {
				t.Splits[0], t.Splits[n-1] = t.Splits[n-1], t.Splits[0]
			}
		}
	case "fill":
		l.Fill()
	case "startbalance":
		if hasA && hasC {
			a.StartBalance.Add(accounting.Value{Amount: 4, Currency: cu})
		}
	case "children":
		if hasA && len(a.Children) > 0 {
			a.Children[0] = a
		}
	case "splits":
		if hasA && len(a.Splits) > 0 {
			when := time.Unix(0, 0).UTC()
			a.Splits[0] = &accounting.Split{Account: a, Transaction: a.Splits[0].Transaction, Time: &when}
			a.Splits = a.Splits[:len(a.Splits)-1]
		}
	case "convert":
		if hasC && hasS {
			if c2, ok := at(l.Currencies, ch.B); ok {
				l.Convert(s.Value, t.Time, c2)
			}
		}
	default:
		panic(harnessError("change " + ch.Op))
	}
}

// full picture of a ledger, for comparing it with itself later: contents and start balances.
func picture(l *accounting.Ledger) []string {
	d := dump(l, everything)
	for _, a := range l.Accounts {
		d = append(d, fmt.Sprintf("start %s: %s", a.FullName(), bal(a.StartBalance)))
	}
	for i, t := range l.Transactions {
		for k, s := range t.Splits {
			if c := s.Value.Currency; c != nil && *c != (accounting.Currency{}) {
				d = append(d, fmt.Sprintf("commodity of t%d.%d: %q %q %q %d %v %v", i, k, c.Name, c.Thousand, c.Decimal, c.Precision, c.PrintBefore, c.WithoutSpace))
			}
		}
	}
	for _, c := range l.Currencies {
		d = append(d, fmt.Sprintf("id of %s: %s", c.Name, idStr(c.ID)))
	}
	for i, p := range l.Prices {
		d = append(d, fmt.Sprintf("id of price %d: %s", i, idStr(p.ID)))
	}
	d = append(d, fmt.Sprintf("comments: %d", len(l.Comments)))
	return d
}

type c12case struct {
	J       *Journal `json:",omitempty"`
	T       *TxtDB   `json:",omitempty"`
	Start   int      // account with a starting balance
	Pre     []change `json:",omitempty"` // made before cloning
	Orig    bool     // the changes are made to the original
	Changes []change
}

func init() {
	register(&Check{ID: "C12", Quick: 30000, Thorough: 1250000,
		Rule: "a case is a loaded ledger (a journal with everything, or a txtdb directory) and up to 8 changes through its fields and methods, made to the clone or to the original; both object graphs are walked in parallel (equal contents, same links, nothing shared), then the untouched one is compared before and after the changes, and another clone of it is recalculated. Non-trivial: two transactions and a comment, assertion, cost or price.",
		Gen: func(t *rapid.T) any {
			cs := c12case{Orig: rapid.Bool().Draw(t, "orig"), Start: intn(t, "start", 0, 20)}
			if chance(t, "txtdb", 15) {
				cs.T = genTxtDB(t, &TOpt{MaxTxn: 6})
			} else {
				o := full
				o.Infer = chance(t, "infer", 20)
				cs.J = genJournal(t, o)
			}
			if chance(t, "pre", 30) {
				for n := intn(t, "npre", 1, 3); n > 0; n-- {
					cs.Pre = append(cs.Pre, change{pick(t, "prechange", harmless...), intn(t, "a", 0, 99), intn(t, "b", 0, 99)})
				}
			}
			cs.Changes = genChanges(t, 8)
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c12case](raw)
			var r Result
			var l *accounting.Ledger
			if cs.T != nil {
				l = c.openTxt(cs.T, &r)
				r.NonTrivial = len(cs.T.Moves) > 3
				r.Classes = append(r.Classes, "txtdb")
			} else {
				var m *MLedger
				m, l = c.open(cs.J, &r)
				in := survey(m)
				r.NonTrivial = in.tx >= 2 && in.asr+in.cost+in.exch+in.prices+len(m.Notes) > 0
			}
			if r.Fail != "" {
				return r
			}
			if cu, ok := at(l.Currencies, cs.Start); ok {
				a := l.Accounts[cs.Start%len(l.Accounts)]
				a.StartBalance.Add(accounting.Value{Amount: 99, Currency: cu})
			}
			for _, ch := range cs.Pre {
				apply(l, ch)
			}
			if len(cs.Pre) > 0 && l.Fill() != nil {
				return Result{Discard: true}
			}
			if len(cs.Pre) > 0 {
				// comments of generated postings which exist no more
				forgetUnreached(l)
			}
			p0 := picture(l)
			k := l.Clone()
			fail := func(s string) Result {
				r.Fail = s + "\n" + r.Sample
				return r
			}
			if d := isClone(l, k); d != "" {
				return fail("the clone is not right: " + d)
			}
			if d := diff("the clone", p0, picture(k)); d != "" {
				return fail(d)
			}
			if d := diff("the original after cloning", p0, picture(l)); d != "" {
				return fail(d)
			}
			changed, kept := k, l
			if cs.Orig {
				changed, kept = l, k
			}
			broken := false
			for _, ch := range cs.Changes {
				if broken && ch.Op == "fill" {
					continue
				}
				broken = broken || ch.breaks()
				apply(changed, ch)
				if d := diff(fmt.Sprintf("the other ledger after %+v", ch), p0, picture(kept)); d != "" {
					return fail(d)
				}
			}
			k2 := kept.Clone()
			if d := isClone(kept, k2); d != "" {
				return fail("the second clone is not right: " + d)
			}
			if err := k2.Fill(); err != nil {
				return fail("recalculating a clone: " + err.Error())
			}
			if d := diff("a recalculated clone", p0, picture(k2)); d != "" {
				return fail(d)
			}
			if d := diff("the source of the recalculated clone", p0, picture(kept)); d != "" {
				return fail(d)
			}
			return r
		}})
}

// ---------------------------------------------------------------- C19

type foreignID string

func (f foreignID) String() string { return string(f) }

type c19case struct {
	J *Journal `json:",omitempty"`
	T *TxtDB   `json:",omitempty"`
	Q [][2]int
	Z [][3]int // for each interval: hours of the time zones of its ends, and nanoseconds after them
	// then the ledger is changed, and everything is asked again
	New  bool // with one more account
	Drop int  // without a transaction (from 1)
}

func init() {
	register(&Check{ID: "C19", Quick: 30000, Thorough: 1250000,
		Rule: "a case is a loaded ledger (journal or txtdb) and up to 12 intervals whose ends are at or next to the date of some transaction, in any time zone; every account is looked up by its identifier, its transactions are asked for, and so are those of each interval; in some cases a transaction is then dropped or an account added, and all is asked again; the answers are compared with a plain filter of the transactions written in the data. Non-trivial: some answer is neither empty nor everything.",
		Gen: func(t *rapid.T) any {
			cs := c19case{}
			if chance(t, "txtdb", 20) {
				cs.T = genTxtDB(t, &TOpt{MaxTxn: 6})
			} else {
				cs.J = genJournal(t, Opt{MaxTxn: 8, Omit: true, Dated: true, Times: true, Undeclared: true, Infer: chance(t, "infer", 10)})
			}
			for n := intn(t, "nq", 1, 12); n > 0; n-- {
				cs.Q = append(cs.Q, [2]int{intn(t, "from", 0, 40), intn(t, "to", 0, 40)})
				z := [3]int{}
				if chance(t, "zoned", 25) {
					z = [3]int{intn(t, "zone", -14, 14), intn(t, "zone", -14, 14), pick(t, "nano", 0, 0, 1, 500_000_000, 999_999_999)}
				}
				cs.Z = append(cs.Z, z)
			}
			if chance(t, "changed", 30) {
				cs.New, cs.Drop = rapid.Bool().Draw(t, "new"), intn(t, "drop", 0, 8)
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c19case](raw)
			var r Result
			var l *accounting.Ledger
			type entry struct {
				t    int64
				accs []string
			}
			var model []entry
			if cs.T != nil {
				l = c.openTxt(cs.T, &r)
				for _, x := range cs.T.expected().txns {
					e := entry{t: x.t}
					for _, s := range x.splits {
						e.accs = append(e.accs, cs.T.fullName(s.acc))
					}
					model = append(model, e)
				}
				r.Classes = append(r.Classes, "txtdb")
			} else {
				var m *MLedger
				m, l = c.open(cs.J, &r)
				for _, x := range m.Txns {
					e := entry{t: x.T}
					for _, s := range x.Posts {
						e.accs = append(e.accs, s.Acc.Full)
					}
					model = append(model, e)
				}
			}
			if r.Fail != "" {
				return r
			}
			fail := func(f string, a ...any) Result {
				r.Fail = fmt.Sprintf(f, a...) + "\n" + r.Sample
				return r
			}
			if len(model) != len(l.Transactions) {
				return fail("%d transactions, expected %d", len(l.Transactions), len(model))
			}
			check := func(what string, got []*accounting.Transaction, keep func(e entry) bool) bool {
				var want []*accounting.Transaction
				for i, e := range model {
					if keep(e) {
						want = append(want, l.Transactions[i])
					}
				}
				if len(want) > 0 && len(want) < len(model) {
					r.NonTrivial = true
				}
				if len(got) != len(want) {
					r.Fail = fmt.Sprintf("%s: %d transactions, expected %d\n%s", what, len(got), len(want), r.Sample)
					return false
				}
				for i := range got {
					if got[i] != want[i] {
						r.Fail = fmt.Sprintf("%s: transaction %d is %v, expected %v\n%s", what, i, got[i].ID, want[i].ID, r.Sample)
						return false
					}
				}
				return true
			}
			failed := func(f string, a ...any) bool {
				fail(f, a...)
				return false
			}
			ask := func() bool {
				for _, a := range l.Accounts {
					if isTransferAcc(a) {
						continue
					}
					if x := l.Account(a.ID); x != a {
						return failed("looking up %s by its identifier %v gives another account", a.FullName(), a.ID)
					}
					ok := check("transactions in "+a.FullName(), l.TransactionsInAccount(a.ID), func(e entry) bool {
						for _, n := range e.accs {
							if n == a.FullName() {
								return true
							}
						}
						return false
					})
					if !ok {
						return false
					}
				}
				for _, id := range []accounting.ID{foreignID("nothing"), foreignID("1"), foreignID("id:1")} {
					if x := l.Account(id); x != nil {
						return failed("an unknown identifier gives account %s", x.FullName())
					}
					if x := l.TransactionsInAccount(id); len(x) != 0 {
						return failed("an unknown identifier gives %d transactions", len(x))
					}
				}
				var times []int64
				for _, e := range model {
					times = append(times, e.t-1, e.t, e.t+1)
				}
				if len(times) == 0 {
					times = []int64{0}
				}
				sort.Slice(times, func(i, j int) bool { return times[i] < times[j] })
				for i, q := range cs.Q {
					a, b := times[q[0]%len(times)], times[q[1]%len(times)]
					var z [3]int
					if i < len(cs.Z) {
						z = cs.Z[i]
					}
					from, to := inZone(a, z[0]).Add(time.Duration(z[2])), inZone(b, z[1]).Add(time.Duration(z[2]))
					ok := check(fmt.Sprintf("transactions from %v to %v", from, to), l.TransactionsInInterval(from, to),
						func(e entry) bool { return (a < e.t || a == e.t && z[2] == 0) && e.t <= b })
					if !ok {
						return false
					}
				}
				return true
			}
			if !ask() || !cs.New && cs.Drop == 0 {
				return r
			}
			r.Classes = append(r.Classes, "changed")
			r.Sample += fmt.Sprintf("\n(then without transaction %d; a new account: %v)\n", cs.Drop, cs.New)
			if n := len(model); cs.Drop > 0 && n > 0 {
				k := (cs.Drop - 1) % n
				model = append(model[:k:k], model[k+1:]...)
				l.Transactions = append(l.Transactions[:k:k], l.Transactions[k+1:]...)
			}
			if cs.New {
				l.Accounts = append(l.Accounts, &accounting.Account{ID: foreignID("new"), Name: "A new account"})
			}
			if err := l.Fill(); err != nil {
				r.Classes = append(r.Classes, "not valid any more") // an assertion needed it
				return r
			}
			ask()
			return r
		}})
}

// ---------------------------------------------------------------- C21

type c21case struct {
	J     *Journal
	Add   []int // transactions which are added later (indexes)
	Front []bool
	NoMap bool `json:",omitempty"` // without the maps which are empty
}

func init() {
	register(&Check{ID: "C21", Quick: 30000, Thorough: 1250000,
		Rule: "a case is a journal with everything, recalculated up to three times; in two thirds of the cases (without amounts inferred from assertions) one to four transactions are first left out of the journal, then built by hand, put in the list, and recalculated; the whole ledger (order, links, transfer entries, automatic prices) is compared with loading the full journal. Non-trivial: an exchange, cost or posting with its own date, or transactions added.",
		Gen: func(t *rapid.T) any {
			o := full
			o.MaxTxn = 8
			cs := c21case{}
			if chance(t, "add", 66) {
				// everything declared, so that the order of accounts and commodities does not change
				o.Undeclared, o.Infer = false, false
				o.Assert = chance(t, "assert", 30)
				o.NoLayout = true
				o.Default = chance(t, "default", 30)
				cs.NoMap = chance(t, "nomap", 50)
				if cs.NoMap && chance(t, "nocomments", 60) {
					o.Comments = false
				}
				cs.J = genJournal(t, o)
				n := 0
				allTx(cs.J.Items, func(*Item) { n++ })
				for i := 0; i < n; i++ {
					if chance(t, "later", 35) {
						cs.Add = append(cs.Add, i)
						cs.Front = append(cs.Front, rapid.Bool().Draw(t, "front"))
					}
				}
				// assertions stay true only if what comes before is there
				if len(cs.Add) > 0 {
					allTx(cs.J.Items, func(it *Item) {
						for k := range it.Posts {
							if it.Posts[k].Asr != nil && it.Posts[k].A == nil {
								panic("generator")
							}
							it.Posts[k].Asr = nil
						}
					})
				}
			} else {
				o.Infer = chance(t, "infer", 50)
				cs.J = genJournal(t, o)
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c21case](raw)
			var r Result
			m, l := c.open(cs.J, &r)
			if r.Fail != "" {
				return r
			}
			in := survey(m)
			r.NonTrivial = in.exch+in.cost+in.dated > 0 || len(cs.Add) > 0
			fail := func(s string) Result {
				r.Fail = s + "\n" + r.Sample
				return r
			}
			p0 := picture(l)
			same := func(what string) bool {
				if d := diff(what, p0, picture(l)); d != "" {
					r.Fail = d + "\n" + r.Sample
					return false
				}
				return true
			}
			for k := 1; k <= 3; k++ {
				if err := l.Fill(); err != nil {
					return fail(fmt.Sprintf("recalculation %d: %v", k, err))
				}
				if !same(fmt.Sprintf("after recalculation %d", k)) {
					return r
				}
			}
			if len(cs.Add) == 0 {
				return r
			}
			r.Classes = append(r.Classes, "added")
			later := map[int]bool{}
			for _, i := range cs.Add {
				later[i] = true
			}
			// the journal without those transactions
			part := *cs.J
			part.Items = nil
			n := 0
			for _, it := range cs.J.Items {
				if it.K == "tx" {
					n++
					if later[n-1] {
						continue
					}
				}
				part.Items = append(part.Items, it)
			}
			c.reset()
			m2, l2, diag, err := c.load(&part)
			if err != nil {
				return fail(fmt.Sprintf("a part of a valid journal is rejected: %v\n%s%s", err, diag, m2.text(c)))
			}
			if cs.NoMap {
				// a ledger made by a program may have no maps
				bare := true
				for _, p := range l2.Prices {
					bare = bare && len(l2.Comments[p]) == 0
				}
				if bare && len(l2.Comments) == 0 {
					l2.Comments = nil
					r.Classes = append(r.Classes, "no maps")
				}
				if len(l2.SplitPrices) == 0 {
					l2.SplitPrices = nil
				}
				if len(l2.Assertions) == 0 {
					l2.Assertions = nil
				}
			}
			accs := map[string]*accounting.Account{}
			for _, a := range l2.Accounts {
				accs[a.FullName()] = a
			}
			cur := func(c *MCur) *accounting.Currency {
				if c.Name == "" {
					return l2.DefaultCurrency
				}
				x, isNew := l2.GetCurrency(c.Name)
				if isNew {
					panic(harnessError("commodity " + c.Name))
				}
				return x
			}
			value := func(v MVal) accounting.Value { return accounting.Value{Amount: v.V, Currency: cur(v.C)} }
			if l2.DefaultCurrency == nil || l2.DefaultCurrency.Name == "" {
				for _, c := range curPtrs(m) {
					if c.Name == "" {
						return Result{Discard: true} // its style is only in the amounts
					}
				}
			}
			pos := 0
			for i, mt := range m.Txns {
				if !later[i] {
					pos++
					continue
				}
				t := &accounting.Transaction{Time: time.Unix(mt.T, 0).UTC(), Description: mt.Desc}
				if l2.Comments == nil && (len(mt.Com) > 0 || mt.noted()) {
					l2.Comments = map[any][]string{}
				}
				if len(mt.Com) > 0 {
					l2.Comments[t] = append([]string{}, mt.Com...)
				}
				for _, mp := range mt.Posts {
					s := &accounting.Split{Account: accs[mp.Acc.Full]}
					if s.Account == nil {
						panic(harnessError("account " + mp.Acc.Full))
					}
					if mp.HasA {
						s.Value = value(mp.Val)
					}
					if mp.Own {
						x := time.Unix(mp.T, 0).UTC()
						s.Time = &x
					}
					if mp.Cost != nil {
						if l2.SplitPrices == nil {
							l2.SplitPrices = map[*accounting.Split]accounting.Value{}
						}
						l2.SplitPrices[s] = value(*mp.Cost)
					}
					if len(mp.Com) > 0 {
						l2.Comments[s] = append([]string{}, mp.Com...)
					}
					t.Splits = append(t.Splits, s)
				}
				// any position will do, if no other one has the same date
				alone := true
				for k, o := range m.Txns {
					alone = alone && (k == i || o.T != mt.T)
				}
				at := pos
				if alone {
					at = len(l2.Transactions)
					for k, x := range cs.Add {
						if x == i && cs.Front[k] {
							at = 0
						}
					}
				}
				l2.Transactions = append(l2.Transactions[:at:at], append([]*accounting.Transaction{t}, l2.Transactions[at:]...)...)
				if err := l2.Fill(); err != nil {
					return fail(fmt.Sprintf("recalculation after adding transaction %d: %v", i, err))
				}
				pos++
			}
			noID := everything
			noID.IDs = false
			if d := diff("after adding transactions and recalculating", dump(l, noID), dump(l2, noID)); d != "" {
				return fail(fmt.Sprintf("%s\n(transactions added: %v)", d, cs.Add))
			}
			if err := l2.Fill(); err != nil {
				return fail("last recalculation: " + err.Error())
			}
			if d := diff("after recalculating again", dump(l, noID), dump(l2, noID)); d != "" {
				return fail(d)
			}
			return r
		}})
}

// noted: some posting has comments.
func (t *MTxn) noted() bool {
	for _, p := range t.Posts {
		if len(p.Com) > 0 {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C22

type c22op struct {
	Op   string // open, fill, clone, change, close, fail
	I, K int
	Ch   change
}

type c22case struct {
	Js  []*Journal
	Ts  []*TxtDB `json:",omitempty"`
	Ops []c22op
}

func init() {
	register(&Check{ID: "C22", Quick: 18000, Thorough: 750000,
		Rule: "a case is two or three different journals (and sometimes one or two txtdb directories) and up to 12 operations on them in one process: open, open again, open everything at once, recalculate, clone, change, open a wrong journal or directory; after each one, every other open ledger is compared with itself before, and every ledger just opened with the model and with the first time it was opened. Non-trivial: at least two ledgers open at once and one with entries in transit.",
		Gen: func(t *rapid.T) any {
			cs := c22case{}
			for n := intn(t, "nj", 2, 3); n > 0; n-- {
				cs.Js = append(cs.Js, genJournal(t, Opt{MaxTxn: 4, Omit: true, Dated: true, Cost: true, Exchange: true, Prices: true, Comments: chance(t, "com", 30), Undeclared: true, Default: true, Assert: chance(t, "assert", 20)}))
			}
			if chance(t, "txtdb", 35) {
				for n := intn(t, "ntxtdb", 1, 2); n > 0; n-- {
					cs.Ts = append(cs.Ts, genTxtDB(t, &TOpt{MaxTxn: 4, Bad: chance(t, "badtxt", 60), Dated: true, Asserts: chance(t, "tasr", 30)}))
				}
			}
			for n := intn(t, "nops", 3, 12); n > 0; n-- {
				o := c22op{Op: pick(t, "op", "open", "open", "fill", "clone", "change", "change", "fail", "open", "open", "change", "parallel"), I: intn(t, "i", 0, 5), K: intn(t, "k", 0, 9)}
				if o.Op == "change" {
					o.Ch = change{pick(t, "change", changeOps...), intn(t, "a", 0, 99), intn(t, "b", 0, 99)}
				}
				cs.Ops = append(cs.Ops, o)
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c22case](raw)
			var r Result
			type src struct {
				url   string
				m     *MLedger
				t     *TxtDB
				first []string
			}
			var srcs []*src
			for i, j := range cs.Js {
				m := build(j, c.root, fmt.Sprintf("j%d.j", i))
				m.compute()
				if m.Err != nil {
					panic(harnessError(fmt.Sprintf("the generator made a wrong journal: %v", m.Err)))
				}
				c.write(m.Files)
				r.Sample += m.text(c)
				srcs = append(srcs, &src{url: fmt.Sprintf("%s/j%d.j", c.root, i), m: m})
			}
			for i, d := range cs.Ts {
				dir := fmt.Sprintf("%s/txt%d", c.whole, i)
				c.write(d.files(dir))
				r.Sample += d.text()
				srcs = append(srcs, &src{url: "txtdb:" + dir, t: d})
			}
			if len(cs.Ts) > 0 {
				r.Classes = append(r.Classes, "txtdb")
			}
			wrongs := []string{"wrong.j", "syntax.j", "include.j", "assertion.j", "deadlock.j", "missing.j", "txtdb:missing", "txtdb:false"}
			c.write(map[string]string{
				c.root + "/syntax.j":           "D 1.000,00 EUR\naccount Bank\n2020-01-01 x ; a comment\n  Bank  5 EUR\n  Cash  -5 USD\naccount Bank\n",
				c.root + "/include.j":          "include syntax.j\n",
				c.root + "/assertion.j":        "P 2020-01-01 EUR 3 USD\n2020-01-01 x\n  Bank  5 EUR = 6 EUR\n  Cash  -5 EUR\n",
				c.root + "/deadlock.j":         "2020-01-01 x\n  Bank\n  Bank  = 5 EUR\n",
				c.root + "/false/accounts":     "1:::A::\n2:::B:7:1\n",
				c.root + "/false/transactions": "1:2020-01-01:x::1:+5.00:\n1:2020-01-01:x::2:-5.00:\n1:2020-01-02:y::2::7.00\n",
			})
			// opens one of the sources and compares it with what is expected
			open1 := func(s *src) (*accounting.Ledger, []string, string) {
				l, err := accounting.Open(s.url)
				if err != nil {
					return nil, nil, fmt.Sprintf("%s does not load: %v", s.url, err)
				}
				if s.m != nil {
					p := Parts{Tree: true, Entries: true, Values: true, Costs: true, Running: true, Prices: true, Curs: true, Comments: true, IDs: true, PriceComments: true}
					if d := diff(s.url, mdump(s.m, p), dump(l, p)); d != "" {
						return nil, nil, d
					}
				} else if d := diff(s.url, s.t.lines(true), txtLines(l, true)); d != "" {
					return nil, nil, d
				}
				return l, picture(l), ""
			}
			c.write(map[string]string{c.root + "/wrong.j": "account A:T\n2020-01-01 x\n  A:T  5 EUR ; date:2020-02-02\n  B  -5 EUR\n2020-01-02 x\n  A  1 EUR\n"})
			type open struct {
				l      *accounting.Ledger
				pic    []string
				broken bool
			}
			var ls []*open
			fail := func(f string, a ...any) Result {
				r.Fail = fmt.Sprintf(f, a...) + "\n" + r.Sample
				return r
			}
			transit := false
			for n, o := range cs.Ops {
				var cur *open
				switch o.Op {
				case "open":
					s := srcs[o.I%len(srcs)]
					l, pic, msg := open1(s)
					if msg != "" {
						return fail("operation %d: %s", n, msg)
					}
					if s.first == nil {
						s.first = pic
					} else if d := diff(fmt.Sprintf("operation %d: %s opened again", n, s.url), s.first, pic); d != "" {
						return fail("%s", d)
					}
					if s.m != nil {
						tr := findTransfer(l)
						for _, at := range instants(s.m) {
							want := mbal(s.m.transit(at))
							if want != "{}" {
								transit = true
							}
							if got := nbal(sumSplits(tr, time.Unix(at, 0).UTC())); got != want {
								return fail("operation %d: in transit at %s in %s: %s, expected %s", n, mmoment(at), s.url, got, want)
							}
						}
					}
					cur = &open{l: l}
					ls = append(ls, cur)
				case "fail":
					w := wrongs[o.I%len(wrongs)]
					u := c.root + "/" + w
					if x, is := strings.CutPrefix(w, "txtdb:"); is {
						u = "txtdb:" + c.whole + "/" + x
					}
					if _, err := accounting.Open(u); err == nil {
						return fail("operation %d: %s loads", n, u)
					}
				case "parallel":
					// all of them at once
					r.Classes = append(r.Classes, "parallel")
					msgs := make([]string, 2*len(srcs))
					pics := make([][]string, len(msgs))
					got := make([]*accounting.Ledger, len(msgs))
					var wg sync.WaitGroup
					for i := range msgs {
						wg.Add(1)
						go func() {
							defer wg.Done()
							got[i], pics[i], msgs[i] = open1(srcs[i%len(srcs)])
						}()
					}
					wg.Wait()
					for i, s := range srcs {
						for _, k := range []int{i, i + len(srcs)} {
							if msgs[k] != "" {
								return fail("operation %d, opening everything at once: %s", n, msgs[k])
							}
							if s.first == nil {
								s.first = pics[k]
							} else if d := diff(fmt.Sprintf("operation %d: %s opened again, at the same time as others", n, s.url), s.first, pics[k]); d != "" {
								return fail("%s", d)
							}
						}
					}
					ls = append(ls, &open{l: got[0], pic: pics[0]})
				default:
					x, ok := at(ls, o.K)
					if !ok {
						continue
					}
					switch o.Op {
					case "fill":
						if x.broken {
							continue
						}
						x.l.Fill()
						cur = x
					case "clone":
						if x.broken {
							continue
						}
						cur = &open{l: x.l.Clone()}
						ls = append(ls, cur)
					case "change":
						if x.broken && o.Ch.Op == "fill" {
							continue
						}
						apply(x.l, o.Ch)
						x.broken = x.broken || o.Ch.breaks()
						cur = x
					}
				}
				if len(ls) >= 2 && transit {
					r.NonTrivial = true
				}
				for i, x := range ls {
					if x == cur {
						continue
					}
					if d := diff(fmt.Sprintf("ledger %d after operation %d (%+v) on another one", i, n, o), x.pic, picture(x.l)); d != "" {
						return fail("%s", d)
					}
				}
				if cur != nil {
					cur.pic = picture(cur.l)
				}
			}
			if t := accounting.TransferAccount; len(t.Splits) > 0 || t.Name != transferName || t.Parent != nil || len(t.StartBalance) > 0 {
				return fail("the transfer account of the package holds the entries of a ledger")
			}
			return r
		}})
}

var _ = strings.Join
