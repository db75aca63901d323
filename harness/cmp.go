package main

// Observable content of a ledger, written as text lines which are compared.

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
)

const transferName = "Assets:Transfer account"

func isTransferAcc(a *accounting.Account) bool { return a.Parent == nil && a.Name == transferName }

func curName(c *accounting.Currency) string {
	if c == nil {
		return "<nil>"
	}
	return c.Name
}

// val writes a value. A zero has no commodity.
func val(v accounting.Value) string {
	if v.Amount == 0 {
		return "0"
	}
	return fmt.Sprintf("%d|%s", v.Amount, curName(v.Currency))
}

func mval(v MVal) string {
	if v.V == 0 {
		return "0"
	}
	return fmt.Sprintf("%d|%s", v.V, v.C.Name)
}

func quote(ss []string) string {
	var o []string
	for _, s := range ss {
		o = append(o, fmt.Sprintf("%q", s))
	}
	return "[" + strings.Join(o, ",") + "]"
}

func sortedQuote(ss []string) string {
	o := append([]string{}, ss...)
	sort.Strings(o)
	return quote(o)
}

func bal(b accounting.Balance) string {
	var o []string
	for _, v := range b {
		o = append(o, fmt.Sprintf("%d|%s", v.Amount, curName(v.Currency)))
	}
	sort.Strings(o)
	return "{" + strings.Join(o, " ") + "}"
}

func mbal(b map[*MCur]*big.Int) string {
	var o []string
	for c, x := range b {
		if x.Sign() != 0 {
			o = append(o, fmt.Sprintf("%s|%s", x, c.Name))
		}
	}
	sort.Strings(o)
	return "{" + strings.Join(o, " ") + "}"
}

func moment(t time.Time) string { return t.UTC().Format("2006-01-02T15:04:05.999999999") }

func mmoment(t int64) string { return moment(time.Unix(t, 0)) }

func idStr(id accounting.ID) string {
	if id == nil || reflect.ValueOf(id).Kind() == reflect.Ptr && reflect.ValueOf(id).IsNil() {
		return "-"
	}
	return id.String()
}

// Parts of a dump.
type Parts struct {
	IDs, Tree, Entries, Values, Costs, Running, Prices, AutoPrices, Curs, Comments bool
	Transfer                                                                       bool // the transfer account and its splits
	PriceComments                                                                  bool
	LooseComments                                                                  bool // comments of an entry in any order
}

var allParts = Parts{IDs: true, Tree: true, Entries: true, Values: true, Costs: true, Running: true, Prices: true, Curs: true, Comments: true, PriceComments: true}

// accounts of a ledger except the transfer account
func realAccounts(l *accounting.Ledger) []*accounting.Account {
	var out []*accounting.Account
	for _, a := range l.Accounts {
		if !isTransferAcc(a) {
			out = append(out, a)
		}
	}
	return out
}

func realSplits(t *accounting.Transaction) []*accounting.Split {
	var out []*accounting.Split
	for _, s := range t.Splits {
		if !isTransferAcc(s.Account) {
			out = append(out, s)
		}
	}
	return out
}

func isAuto(l *accounting.Ledger, p *accounting.Price) bool { return idStr(p.ID) == "-" }

// dump writes the chosen parts of a ledger.
func dump(l *accounting.Ledger, p Parts) []string {
	var out []string
	pr := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	com := func(k any) string { return quote(l.Comments[k]) }
	pos := map[*accounting.Split]string{}
	for i, t := range l.Transactions {
		for k, s := range t.Splits {
			pos[s] = fmt.Sprintf("t%d.%d", i, k)
		}
	}
	accs := realAccounts(l)
	if p.Transfer {
		accs = l.Accounts
	}
	for _, a := range accs {
		s := "account " + a.FullName()
		if p.IDs {
			s += " id=" + idStr(a.ID)
		}
		if p.Tree {
			par := "-"
			if a.Parent != nil {
				par = a.Parent.FullName()
			}
			var ch []string
			for _, c := range a.Children {
				if c.Parent != a {
					ch = append(ch, "WRONG PARENT")
				}
				ch = append(ch, c.FullName())
			}
			s += fmt.Sprintf(" name=%q level=%d parent=%s children=%s", a.Name, a.Level, par, quote(ch))
		}
		if p.Entries {
			s += fmt.Sprintf(" code=%q", a.Code)
		}
		if p.Comments {
			s += " comments=" + com(a)
		}
		pr("%s", s)
		if p.Running {
			for _, sp := range a.Splits {
				if sp.Account != a {
					pr("  WRONG ACCOUNT")
				}
				pr("  split %s %s %s -> %s", pos[sp], moment(*sp.Time), val(sp.Value), bal(sp.Balance))
			}
		}
	}
	if p.Curs {
		for _, c := range l.Currencies {
			pr("commodity %s", dumpCur(l, c, p))
		}
		if l.DefaultCurrency == nil {
			pr("default -")
		} else {
			pr("default %s", dumpCur(l, l.DefaultCurrency, p))
		}
	}
	if p.Entries || p.Values || p.Costs {
		costs, assertions := 0, 0
		for i, t := range l.Transactions {
			s := fmt.Sprintf("tx %d %s %q", i, moment(t.Time), t.Description)
			if p.IDs {
				s += " id=" + idStr(t.ID)
			}
			if p.Comments {
				s += " comments=" + com(t)
			}
			pr("%s", s)
			sp := realSplits(t)
			if p.Transfer {
				sp = t.Splits
			}
			for _, x := range sp {
				s := "  posting " + x.Account.FullName()
				if x.Transaction != t {
					s += " WRONG TRANSACTION"
				}
				if p.IDs {
					s += " id=" + idStr(x.ID)
				}
				if p.Entries {
					s += " " + moment(*x.Time)
				}
				if p.Values {
					s += " " + val(x.Value)
				}
				if p.Costs {
					if v, ok := l.SplitPrices[x]; ok {
						costs++
						s += " cost " + val(v)
					}
					if v, ok := l.Assertions[x]; ok {
						assertions++
						s += " assert " + fmt.Sprintf("%d|%s", v.Amount, curName(v.Currency))
					}
				}
				if p.Comments {
					s += " comments=" + com(x)
				}
				pr("%s", s)
			}
		}
		if p.Costs {
			pr("costs: %d assertions: %d", costs, assertions)
		}
	}
	if p.Prices {
		for _, x := range l.Prices {
			if isAuto(l, x) && !p.AutoPrices {
				continue
			}
			s := fmt.Sprintf("price %s %s = %d|%s", moment(x.Time), curName(x.Currency), x.Value.Amount, curName(x.Value.Currency))
			if p.IDs {
				s += " id=" + idStr(x.ID)
			}
			if p.PriceComments {
				s += " comments=" + com(x)
			}
			pr("%s", s)
		}
	}
	return out
}

func dumpCur(l *accounting.Ledger, c *accounting.Currency, p Parts) string {
	s := fmt.Sprintf("%q before=%v nospace=%v thousand=%q decimal=%q precision=%d isin=%q", c.Name, c.PrintBefore && c.Name != "", c.WithoutSpace && c.Name != "", c.Thousand, c.Decimal, c.Precision, c.ISIN)
	if p.Comments {
		s += " comments=" + quote(l.Comments[c])
	}
	return s
}

// mdump writes the same for the expected ledger.
func mdump(l *MLedger, p Parts) []string {
	var out []string
	pr := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	pos := map[*MPost]string{}
	for i, t := range l.Txns {
		for k, s := range t.Posts {
			pos[s] = fmt.Sprintf("t%d.%d", i, k)
		}
	}
	for _, a := range l.dfs() {
		s := "account " + a.Full
		if p.IDs {
			s += " id=" + a.ID
		}
		if p.Tree {
			par := "-"
			if a.Parent != nil {
				par = a.Parent.Full
			}
			var ch []string
			for _, c := range a.Children {
				ch = append(ch, c.Full)
			}
			s += fmt.Sprintf(" name=%q level=%d parent=%s children=%s", a.Name, a.Level, par, quote(ch))
		}
		if p.Entries {
			s += fmt.Sprintf(" code=%q", a.Code)
		}
		if p.Comments {
			s += " comments=" + quote(a.Com)
		}
		pr("%s", s)
		if p.Running {
			for _, sp := range a.Posts {
				pr("  split %s %s %s -> %s", pos[sp], mmoment(sp.T), mval(sp.Val), mbal(sp.Bal))
			}
		}
	}
	if p.Curs {
		dc := func(c *MCur) string {
			d := c.Style
			s := fmt.Sprintf("%q before=%v nospace=%v thousand=%q decimal=%q precision=%d isin=%q", c.Name, d.Before && c.Name != "", d.NoSpace && c.Name != "", d.T, d.D, d.Prec, c.ISIN)
			if p.Comments {
				s += " comments=" + quote(c.Com)
			}
			return s
		}
		for _, c := range l.Curs {
			pr("commodity %s", dc(c))
		}
		if l.Default == nil {
			pr("default -")
		} else {
			pr("default %s", dc(l.Default))
		}
	}
	if p.Entries || p.Values || p.Costs {
		nc, na := 0, 0
		for i, t := range l.Txns {
			s := fmt.Sprintf("tx %d %s %q", i, mmoment(t.T), t.Desc)
			if p.IDs {
				s += " id=" + t.ID
			}
			if p.Comments {
				s += " comments=" + quote(t.Com)
			}
			pr("%s", s)
			for _, x := range t.Posts {
				s := "  posting " + x.Acc.Full
				if p.IDs {
					s += " id=" + x.ID
				}
				if p.Entries {
					s += " " + mmoment(x.T)
				}
				if p.Values {
					s += " " + mval(x.Val)
				}
				if x.Cost != nil {
					nc++
				}
				if x.Asr != nil {
					na++
				}
				if p.Costs {
					if x.Cost != nil {
						s += " cost " + mval(*x.Cost)
					}
					if x.Asr != nil {
						s += " assert " + fmt.Sprintf("%d|%s", x.Asr.V, x.Asr.C.Name)
					}
				}
				if p.Comments {
					s += " comments=" + quote(x.Com)
				}
				pr("%s", s)
			}
		}
		if p.Costs {
			pr("costs: %d assertions: %d", nc, na)
		}
	}
	if p.Prices {
		for _, x := range l.Prices {
			s := fmt.Sprintf("price %s %s = %d|%s", mmoment(x.T), x.Cur.Name, x.Val.V, x.Val.C.Name)
			if p.IDs {
				s += " id=" + x.ID
			}
			if p.PriceComments {
				s += " comments=" + quote(x.Com)
			}
			pr("%s", s)
		}
	}
	return out
}

// diff says where two dumps differ.
func diff(what string, want, got []string) string {
	n := len(want)
	if len(got) < n {
		n = len(got)
	}
	for i := 0; i < n; i++ {
		if want[i] != got[i] {
			return fmt.Sprintf("%s: line %d\n  expected: %s\n  found:    %s", what, i, want[i], got[i])
		}
	}
	if len(want) > n {
		return fmt.Sprintf("%s: missing: %s", what, want[n])
	}
	if len(got) > n {
		return fmt.Sprintf("%s: unexpected: %s", what, got[n])
	}
	return ""
}

// ------------------------------------------------------------ context

// Ctx is where cases run.
type Ctx struct {
	root   string // where the files of the case are, perhaps from the working directory
	whole  string // the same, absolute
	n      int
	watch  bool // what stays open is looked at
	nopen  int
	opened []*accounting.Ledger
	leaky  bool // something stayed open in an earlier case
}

func newCtx(root string) *Ctx { return &Ctx{root: root, whole: root} }

func must(err error) {
	if err != nil {
		panic(harnessError(err.Error()))
	}
}

// reset starts a case: nothing of the previous one remains.
func (c *Ctx) reset() {
	must(os.RemoveAll(c.whole))
	must(os.MkdirAll(c.whole, 0o777))
	c.clearOutput()
}

func (c *Ctx) clearOutput() {
	os.Stdout.Truncate(0)
	os.Stderr.Truncate(0)
}

// stderr returns what was written on standard error since the last clearOutput, and forgets it.
func (c *Ctx) stderr() string {
	b, err := os.ReadFile("/proc/self/fd/2")
	must(err)
	c.clearOutput()
	return string(b)
}

func (c *Ctx) stdout() string {
	b, err := os.ReadFile("/proc/self/fd/1")
	must(err)
	return string(b)
}

func (c *Ctx) write(files map[string]string) {
	for f, s := range files {
		must(os.MkdirAll(filepath.Dir(f), 0o777))
		must(os.WriteFile(f, []byte(s), 0o666))
	}
}

// load writes and opens a journal.
func (c *Ctx) load(j *Journal) (*MLedger, *accounting.Ledger, string, error) {
	m := build(j, c.root, "main.j")
	c.write(m.Files)
	c.clearOutput()
	l, err := c.openURL(m.main(c))
	return m, l, c.stderr(), err
}

func (m *MLedger) main(c *Ctx) string { return c.root + "/main.j" }

// text returns the files of a case, for reports.
func (m *MLedger) text(c *Ctx) string {
	var names []string
	for f := range m.Files {
		names = append(names, f)
	}
	sort.Strings(names)
	var sb strings.Builder
	for _, f := range names {
		fmt.Fprintf(&sb, "--- %s\n%s\n", strings.TrimPrefix(f, c.root+"/"), m.Files[f])
	}
	return sb.String()
}

func failf(f string, a ...any) Result { return Result{Fail: fmt.Sprintf(f, a...)} }

// mentions: does the text name that file and line?
func mentions(text, where string) bool {
	for i := 0; ; {
		k := strings.Index(text[i:], where)
		if k < 0 {
			return false
		}
		e := i + k + len(where)
		if e == len(text) || text[e] < '0' || text[e] > '9' {
			return true
		}
		i = e
	}
}
