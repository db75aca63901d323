package main

// The ledger program: its command lines, and what they must show.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Bound is one end of a period, as it is written.
type Bound struct {
	T int64
	F int // 0 the year, 1 the month, 2 the day, 3 everything, 4 hours and minutes, 5 other separators
}

func (b *Bound) text() string {
	tm := time.Unix(b.T, 0).UTC()
	switch b.F {
	case 0:
		return tm.Format("2006")
	case 1:
		return tm.Format("2006-01")
	case 2:
		return tm.Format("2006-01-02")
	case 4:
		return tm.Format("2006-01-02/15:04")
	case 5:
		return tm.Format("2006/01/02-15.04.05")
	}
	return tm.Format("2006-01-02/15:04:05")
}

// start is the first moment of the period.
func (b *Bound) start() int64 {
	tm := time.Unix(b.T, 0).UTC()
	y, m, d := tm.Date()
	switch b.F {
	case 0:
		return time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
	case 1:
		return time.Date(y, m, 1, 0, 0, 0, 0, time.UTC).Unix()
	case 2:
		return time.Date(y, m, d, 0, 0, 0, 0, time.UTC).Unix()
	case 4:
		return tm.Truncate(time.Minute).Unix()
	}
	return b.T
}

// end is the last moment of the period.
func (b *Bound) end() int64 {
	tm := time.Unix(b.T, 0).UTC()
	y, m, d := tm.Date()
	switch b.F {
	case 0:
		return time.Date(y+1, 1, 1, 0, 0, 0, 0, time.UTC).Unix() - 1
	case 1:
		return time.Date(y, m+1, 1, 0, 0, 0, 0, time.UTC).Unix() - 1
	case 2:
		return time.Date(y, m, d+1, 0, 0, 0, 0, time.UTC).Unix() - 1
	case 4:
		return tm.Truncate(time.Minute).Unix()
	}
	return b.T
}

// Cmd is one command of the program.
type Cmd struct {
	B, E   *Bound   `json:",omitempty"`
	Cur    []string `json:",omitempty"`
	Pivot  []string `json:",omitempty"`
	Total  bool     `json:",omitempty"`
	Market bool     `json:",omitempty"`
	Negate bool     `json:",omitempty"`
	Batch  bool     `json:",omitempty"`
	Name   string
	Args   []string `json:",omitempty"`
	Order  int      // how the options are laid out
}

func (c *Cmd) words() []string {
	var o [][]string
	add := func(w ...string) { o = append(o, w) }
	val := func(name, v string) {
		switch c.Order / 7 % 3 {
		case 0:
			add("-"+name, v)
		case 1:
			add("--"+name, v)
		default:
			add("-" + name + "=" + v)
		}
	}
	if c.B != nil {
		val("b", c.B.text())
	}
	if c.E != nil {
		val("e", c.E.text())
	}
	for _, x := range c.Cur {
		val("currency", x)
	}
	for _, x := range c.Pivot {
		val("pivot", x)
	}
	for _, f := range []struct {
		on   bool
		name string
	}{{c.Total, "-total"}, {c.Market, "-market"}, {c.Negate, "-negate"}, {c.Batch, "-batch"}} {
		if f.on {
			add(f.name)
		}
	}
	if n := len(o); n > 0 {
		k := c.Order % n
		o = append(append([][]string{}, o[k:]...), o[:k]...)
	}
	var out []string
	for _, w := range o {
		out = append(out, w...)
	}
	return append(append(out, c.Name), c.Args...)
}

func (c *Cmd) from() int64 {
	if c.B == nil {
		return -1 << 62
	}
	return c.B.start()
}

func (c *Cmd) to() int64 {
	if c.E == nil {
		return 1 << 62
	}
	return c.E.end()
}

// cliOpt is the kind of journals used with the program.
func cliOpt(t *rapid.T) Opt {
	return Opt{MaxTxn: 9, Cost: true, Exchange: true, Assert: true, Infer: chance(t, "infer", 20), Omit: true, Default: true, Undeclared: true, Times: true,
		Dated: chance(t, "dated", 40), Prices: true, Comments: chance(t, "comments", 20), CLIAccounts: chance(t, "cliaccounts", 60), Tags: true, Noise: true}
}

func genBound(t *rapid.T, m *MLedger) *Bound {
	in := instants(m)
	if len(in) == 0 {
		in = []int64{time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC).Unix()}
	}
	b := &Bound{T: pick(t, "when", in...), F: pick(t, "precision", 1, 2, 0, 3, 4, 5, 2)}
	switch intn(t, "shift", 0, 7) {
	case 6:
		b.T -= int64(intn(t, "days", 1, 400)) * 86400
	case 7:
		b.T += int64(intn(t, "days", 1, 400)) * 86400
	}
	return b
}

// genPeriod draws a period whose beginning is not after its end.
func genPeriod(t *rapid.T, m *MLedger, c *Cmd) {
	if chance(t, "b?", 55) {
		c.B = genBound(t, m)
	}
	if chance(t, "e?", 60) {
		c.E = genBound(t, m)
	}
	if c.B != nil && c.E != nil && c.from() > c.to() {
		c.B, c.E = c.E, c.B
		if c.from() > c.to() {
			c.E = nil
		}
	}
}

// genArg draws some text to be looked for in the names of accounts.
func genArg(t *rapid.T, m *MLedger) string {
	name := "x"
	if len(m.Accs) > 0 {
		name = m.Accs[intn(t, "account", 0, len(m.Accs)-1)].Full
	}
	if chance(t, "transfer", 4) {
		name = transferName
	}
	r := []rune(name)
	switch intn(t, "argkind", 0, 6) {
	case 0, 1:
	case 2:
		name = strings.Split(name, ":")[0]
	case 3:
		x := strings.Split(name, ":")
		name = x[len(x)-1]
	case 4, 5:
		a := intn(t, "a", 0, len(r)-1)
		b := intn(t, "b", a, len(r)-1)
		name = string(r[a : b+1])
	case 6:
		name = pick(t, "some", "zzz", "o", "Income", "Expense:", "expense", "assets:b")
	}
	switch intn(t, "case", 0, 3) {
	case 0:
		name = strings.ToLower(name)
	case 1:
		name = strings.ToUpper(name)
		if strings.ToLower(name) == name { // nothing to change
			break
		}
	}
	return name
}

func genArgs(t *rapid.T, m *MLedger, max int) []string {
	var out []string
	for n := intn(t, "nargs", 0, max); n > 0; n-- {
		out = append(out, genArg(t, m))
	}
	return out
}

// vAcc is an account as the program sees it.
type vAcc struct {
	full, name string
	level      int
	parent     *vAcc
	posts      bool
	at         func(t int64) map[*MCur]*big.Int
	before     func(t int64) map[*MCur]*big.Int
	active     func(from, to int64) bool
}

// view returns all the accounts, the transfer account last.
func (m *MLedger) view() []*vAcc {
	var out []*vAcc
	by := map[*MAcc]*vAcc{}
	for _, a := range m.dfs() {
		v := &vAcc{full: a.Full, name: a.Name, level: a.Level, posts: len(a.Posts) > 0, at: a.balanceAt}
		if a.Parent != nil {
			v.parent = by[a.Parent]
		}
		v.active = func(from, to int64) bool {
			for _, p := range a.Posts {
				if from <= p.T && p.T <= to {
					return true
				}
			}
			return false
		}
		by[a] = v
		out = append(out, v)
	}
	tr := &vAcc{full: transferName, name: transferName, at: m.transit}
	for _, x := range m.Txns {
		for _, p := range x.Posts {
			tr.posts = tr.posts || p.T != x.T
		}
	}
	out = append(out, tr)
	for _, v := range out {
		v.before = func(t int64) map[*MCur]*big.Int {
			return v.at(t - 1)
		}
	}
	return out
}

func matches(full string, args []string) bool {
	for _, a := range args {
		if strings.Contains(strings.ToLower(full), strings.ToLower(a)) {
			return true
		}
	}
	return false
}

func sumInto(total map[*MCur]*big.Int, b map[*MCur]*big.Int, sign int64) {
	for c, x := range b {
		if total[c] == nil {
			total[c] = new(big.Int)
		}
		total[c].Add(total[c], new(big.Int).Mul(x, big.NewInt(sign)))
		if total[c].Sign() == 0 {
			delete(total, c)
		}
	}
}

// shown returns how the values of a balance are written, in no particular order.
func shown(b map[*MCur]*big.Int) []string {
	var out []string
	for c, x := range b {
		if !x.IsInt64() {
			panic(harnessError("sum out of range"))
		}
		out = append(out, refPrint(x.Int64(), c.Style, false, true))
	}
	sort.Strings(out)
	return out
}

// row is one account of the balance report.
type row struct {
	name    string
	amounts []string
	level   int // depth below an account which is not shown under another, or, read back, the indentation
}

func (r row) String() string { return fmt.Sprintf("%s: %s", r.name, strings.Join(r.amounts, " + ")) }

// parseBalance reads the report back.
func parseBalance(out string, total bool) (rows []row, totals []string, err string) {
	out = strings.TrimSuffix(out, "\n")
	lines := strings.Split(out, "\n")
	if total {
		for _, l := range lines {
			totals = append(totals, strings.TrimSpace(l))
		}
		sort.Strings(totals)
		return rows, totals, ""
	}
	k := len(lines) - 1
	for ; k >= 0; k-- {
		if strings.Trim(lines[k], "-") == "" {
			break
		}
	}
	if k < 0 {
		return nil, nil, "there is no line of dashes"
	}
	w := len(lines[k])
	var pending []string
	for _, l := range lines[:k] {
		r := []rune(l)
		a, rest := string(r), ""
		if len(r) > w {
			a, rest = string(r[:w]), string(r[w:])
		}
		indent := len(rest)
		a, rest = strings.TrimSpace(a), strings.TrimLeft(rest, " ")
		indent -= len(rest)
		if a != "" {
			pending = append(pending, a)
		}
		if rest != "" {
			sort.Strings(pending)
			rows = append(rows, row{rest, pending, indent})
			pending = nil
		}
	}
	if pending != nil {
		return nil, nil, fmt.Sprintf("amounts of no account: %v", pending)
	}
	for _, l := range lines[k+1:] {
		totals = append(totals, strings.TrimSpace(l))
	}
	sort.Strings(totals)
	return rows, totals, ""
}

// pivoted returns the books with just the transactions which involve a matching account.
func (m *MLedger) pivoted(pivot []string) *MLedger {
	if len(pivot) == 0 {
		return m
	}
	out := &MLedger{Curs: m.Curs, Default: m.Default, Prices: m.Prices, Files: m.Files}
	in := map[*MTxn]bool{}
	for _, t := range m.Txns {
		for _, p := range t.Posts {
			in[t] = in[t] || matches(p.Acc.Full, pivot)
		}
		if in[t] {
			out.Txns = append(out.Txns, t)
		}
	}
	accs := map[*MAcc]*MAcc{}
	for _, a := range m.Accs {
		x := *a
		x.Posts = nil
		for _, p := range a.Posts {
			if in[p.Txn] {
				x.Posts = append(x.Posts, p)
			}
		}
		accs[a] = &x
		out.Accs = append(out.Accs, &x)
	}
	for _, a := range out.Accs {
		a.Parent = accs[a.Parent]
		children := a.Children
		a.Children = nil
		for _, c := range children {
			a.Children = append(a.Children, accs[c])
		}
	}
	return out
}

// genPivot draws accounts whose transactions are wanted.
func genPivot(t *rapid.T, m *MLedger, c *Cmd) {
	if !chance(t, "pivot?", 15) {
		return
	}
	for n := intn(t, "npivot", 1, 2); n > 0; n-- {
		a := genArg(t, m)
		if m.hasDated() && matches(transferName, []string{a}) {
			continue // does a transaction with its own dates involve the transfer account?
		}
		c.Pivot = append(c.Pivot, a)
	}
}

func (m *MLedger) hasDated() bool {
	for _, t := range m.Txns {
		for _, p := range t.Posts {
			if p.T != t.T {
				return true
			}
		}
	}
	return false
}
