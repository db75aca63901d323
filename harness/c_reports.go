package main

// C24, C25: the balance report, the income statement and the difference of a period.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

type cliCase struct {
	J    *Journal
	Cmds []Cmd
}

// expectBalance returns the lines of the report (those marked with true may be missing) and its totals.
func (m *MLedger) expectBalance(c *Cmd) (rows []row, optional []bool, totals []string) {
	m = m.pivoted(c.Pivot)
	total := map[*MCur]*big.Int{}
	selected := map[*vAcc]int{}
	for _, v := range m.view() {
		if len(c.Args) > 0 {
			lvl, ok := selected[v.parent]
			switch {
			case v.parent != nil && ok:
				selected[v] = lvl + 1
			case matches(v.full, c.Args):
				selected[v] = 0
			default:
				continue
			}
		}
		b := v.at(c.to())
		if len(c.Cur) > 0 {
			for cur := range b {
				keep := false
				for _, n := range c.Cur {
					keep = keep || n == cur.Name
				}
				if !keep {
					delete(b, cur)
				}
			}
		}
		sumInto(total, b, 1)
		name, level := v.name, v.level
		if len(c.Args) > 0 {
			level = selected[v]
			if level == 0 {
				name = v.full
			}
		}
		rows = append(rows, row{name, shown(b), level})
		optional = append(optional, len(b) == 0)
	}
	totals = shown(total)
	if len(totals) == 0 {
		totals = []string{"0"}
	}
	return
}

func (c *Ctx) checkBalance(m *MLedger, cmd *Cmd) string {
	rows, optional, totals := m.expectBalance(cmd)
	return c.compareBalance(m, cmd, rows, optional, totals)
}

func (c *Ctx) compareBalance(m *MLedger, cmd *Cmd, rows []row, optional []bool, totals []string) string {
	out, msg, st := exec1(bin("ledger"), append([]string{"-f", m.main(c)}, cmd.words()...)...)
	fail := func(f string, a ...any) string {
		return fmt.Sprintf("ledger %q: %s\n--- output\n%s%s", cmd.words(), fmt.Sprintf(f, a...), out, shorten(msg))
	}
	if st != 0 {
		return fail("status %d", st)
	}
	grows, gtotals, err := parseBalance(out, cmd.Total)
	if err != "" {
		return fail("%s", err)
	}
	if strings.Join(gtotals, "\n") != strings.Join(totals, "\n") {
		return fail("total: expected %q, found %q", totals, gtotals)
	}
	if cmd.Total {
		if len(grows) > 0 {
			return fail("accounts are shown")
		}
		return ""
	}
	k := 0
	for i, r := range rows {
		if k < len(grows) && grows[k].String() == r.String() {
			k++
			continue
		}
		if !optional[i] {
			return fail("expected %q, found %q", r, grows[min(k, len(grows)):])
		}
	}
	if k < len(grows) {
		return fail("unexpected %q", grows[k:])
	}
	steps := 0
	if !showsTree(rows, optional, grows, map[int]int{}, &steps) {
		return fail("the indentation does not show which accounts are below which")
	}
	return ""
}

// showsTree tells whether the rows found can be those expected with one indentation for each level, deeper ones
// with more.
func showsTree(rows []row, optional []bool, found []row, indent map[int]int, steps *int) bool {
	if *steps++; *steps > 20000 {
		return true
	}
	if len(rows) == 0 {
		return len(found) == 0
	}
	if r := rows[0]; len(found) > 0 && found[0].String() == r.String() {
		x, had := indent[r.level]
		ok := !had || x == found[0].level || strings.HasPrefix(r.name, " ")
		if !had {
			for l, x := range indent {
				ok = ok && (l < r.level) == (x < found[0].level)
			}
			indent[r.level] = found[0].level
		}
		if ok && showsTree(rows[1:], optional[1:], found[1:], indent, steps) {
			return true
		}
		if !had {
			delete(indent, r.level)
		}
	}
	return optional[0] && showsTree(rows[1:], optional[1:], found, indent, steps)
}

// signed writes a balance as one line does.
func signed(b map[*MCur]*big.Int) string {
	s := shown(b)
	if len(s) == 0 {
		return "0"
	}
	return strings.Join(s, ", ")
}

func sortAmounts(s string) string {
	x := strings.Split(s, ", ")
	sort.Strings(x)
	return strings.Join(x, ", ")
}

func period(v *vAcc, c *Cmd) map[*MCur]*big.Int {
	d := map[*MCur]*big.Int{}
	sumInto(d, v.at(c.to()), 1)
	if c.B != nil {
		sumInto(d, v.before(c.from()), -1)
	}
	return d
}

func (m *MLedger) expectIncome(c *Cmd) []string {
	m = m.pivoted(c.Pivot)
	var out []string
	pr := func(name, amount string) { out = append(out, name+" | "+amount) }
	net := map[*MCur]*big.Int{}
	var nets string
	for _, side := range []struct {
		title, prefix string
		sign          int64
	}{{"Revenues", "Income", -1}, {"Expenses", "Expense", 1}} {
		pr(side.title, "")
		sum := map[*MCur]*big.Int{}
		for _, v := range m.view() {
			if !strings.HasPrefix(v.full, side.prefix+":") || v.active == nil || !v.active(c.from(), c.to()) {
				continue
			}
			if len(c.Args) > 0 && !matches(v.full, c.Args) {
				continue
			}
			x := map[*MCur]*big.Int{}
			sumInto(x, period(v, c), side.sign)
			pr(v.full, signed(x))
			sumInto(sum, x, 1)
		}
		pr("", signed(sum))
		sumInto(net, sum, -side.sign)
	}
	nets = signed(net)
	pr("Net:", nets)
	if c.Total {
		return []string{nets}
	}
	return out
}

func parseIncome(out string, total bool) []string {
	var rows []string
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if total {
			rows = append(rows, sortAmounts(strings.TrimSpace(l)))
			continue
		}
		if k := strings.Index(l, "||"); k >= 0 {
			rows = append(rows, strings.TrimSpace(l[:k])+" | "+sortAmounts(strings.TrimSpace(l[k+2:])))
		}
	}
	return rows
}

// aligned says whether the bars of the table are in the same column.
func aligned(out string) string {
	col := -1
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		k := strings.Index(l, "||")
		if k < 0 && strings.Trim(l, "=-+") == "" {
			k = strings.Index(l, "++")
		}
		if k < 0 {
			continue
		}
		if k = utf8.RuneCountInString(l[:k]); col >= 0 && k != col {
			return fmt.Sprintf("the columns are not aligned: %q", l)
		}
		col = k
	}
	return ""
}

func (c *Ctx) checkIncome(m *MLedger, cmd *Cmd) string {
	out, msg, st := exec1(bin("ledger"), append([]string{"-f", m.main(c)}, cmd.words()...)...)
	if st != 0 {
		return fmt.Sprintf("ledger %q: status %d\n%s", cmd.words(), st, shorten(msg))
	}
	if d := diff(fmt.Sprintf("ledger %q", cmd.words()), m.expectIncome(cmd), parseIncome(out, cmd.Total)); d != "" {
		return d + "\n--- output\n" + out
	}
	if d := aligned(out); d != "" {
		return d + "\n--- output\n" + out
	}
	return ""
}

func (m *MLedger) expectDelta(c *Cmd) string {
	m = m.pivoted(c.Pivot)
	sum := map[*MCur]*big.Int{}
	for _, v := range m.view() {
		if matches(v.full, c.Args) {
			sign := int64(1)
			if c.Negate {
				sign = -1
			}
			sumInto(sum, period(v, c), sign)
		}
	}
	return signed(sum)
}

func (c *Ctx) checkDelta(m *MLedger, cmd *Cmd) string {
	out, msg, st := exec1(bin("ledger"), append([]string{"-f", m.main(c)}, cmd.words()...)...)
	if st != 0 {
		return fmt.Sprintf("ledger %q: status %d\n%s", cmd.words(), st, shorten(msg))
	}
	want, got := m.expectDelta(cmd), sortAmounts(strings.TrimSpace(out))
	if want != got {
		return fmt.Sprintf("ledger %q: expected %q, found %q", cmd.words(), want, got)
	}
	return ""
}

// genCLI draws a journal, and what is needed to draw commands for it.
func genCLI(t *rapid.T) (*Journal, *MLedger) {
	j := genJournal(t, cliOpt(t))
	return j, build(j, "/x", "main.j")
}

// loadCLI lays the journal out.
func (c *Ctx) loadCLI(j *Journal, r *Result) *MLedger {
	m := build(j, c.root, "main.j")
	m.compute()
	if m.Err != nil {
		panic(harnessError(fmt.Sprint("the journal must be valid: ", m.Err)))
	}
	c.write(m.Files)
	r.Sample = m.text(c)
	return m
}

func genBalanceCmd(t *rapid.T, m *MLedger) Cmd {
	c := Cmd{Name: pick(t, "name", "balance", "bal", "b"), Order: intn(t, "order", 0, 20)}
	genPeriod(t, m, &c)
	genPivot(t, m, &c)
	c.Args = genArgs(t, m, 3)
	c.Total = chance(t, "total", 15)
	if chance(t, "currency", 20) {
		for n := intn(t, "ncur", 1, 3); n > 0; n-- {
			if chance(t, "unknown", 10) || len(m.Curs) == 0 {
				c.Cur = append(c.Cur, pick(t, "unknown name", "nothing", ""))
			} else {
				c.Cur = append(c.Cur, m.Curs[intn(t, "cur", 0, len(m.Curs)-1)].Name)
			}
		}
	}
	return c
}

func init() {
	register(&Check{ID: "C24", Quick: 8000, Thorough: 300000,
		Rule: "a case is a valid journal of up to 9 transactions (with costs, exchanges, dates of their own, several commodities and styles) and three balance commands with periods of all forms (year, month, day, moment), account arguments (whole names, parts, other case, several), -currency, -pivot and -total. The output is read back and compared with sums of big integers, account by account, with their indentation. Non-trivial: some command selects accounts or has a period, and the journal has three transactions or more.",
		Gen: func(t *rapid.T) any {
			j, m := genCLI(t)
			cs := cliCase{J: j}
			for i := 0; i < 3; i++ {
				cs.Cmds = append(cs.Cmds, genBalanceCmd(t, m))
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[cliCase](raw)
			var r Result
			m := c.loadCLI(cs.J, &r)
			for i := range cs.Cmds {
				cmd := &cs.Cmds[i]
				r.Sample += fmt.Sprintf("ledger %q\n", cmd.words())
				if s := c.checkBalance(m, cmd); s != "" {
					r.Fail = s + "\n--- journal\n" + m.text(c)
					return r
				}
				r.Classes = append(r.Classes, cmd.classes()...)
				r.NonTrivial = r.NonTrivial || len(m.Txns) >= 3 && (len(cmd.Args) > 0 || cmd.E != nil)
			}
			return r
		}})
	register(&Check{ID: "C25", Quick: 8000, Thorough: 300000,
		Rule: "a case is a journal as in C24, most of them with income and expense accounts, and three commands: income statements and deltas with periods, arguments, -pivot, -negate and -total. Every line, the totals and the net are compared with sums of big integers. Non-trivial: the journal has three transactions or more, and some command has a period.",
		Gen: func(t *rapid.T) any {
			o := cliOpt(t)
			o.CLIAccounts = chance(t, "cliaccounts2", 85)
			j := genJournal(t, o)
			m := build(j, "/x", "main.j")
			cs := cliCase{J: j}
			for i := 0; i < 3; i++ {
				c := Cmd{Name: pick(t, "name", "delta", "incomestatement", "is"), Order: intn(t, "order", 0, 20)}
				genPeriod(t, m, &c)
				genPivot(t, m, &c)
				c.Args = genArgs(t, m, 3)
				c.Negate = chance(t, "negate", 30)
				c.Total = chance(t, "total", 20)
				if c.Name == "delta" && len(c.Args) == 0 {
					c.Args = []string{genArg(t, m)}
				}
				cs.Cmds = append(cs.Cmds, c)
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[cliCase](raw)
			var r Result
			m := c.loadCLI(cs.J, &r)
			for _, a := range m.Accs {
				for _, p := range []string{"Income", "Expense"} {
					if strings.HasPrefix(a.Full, p) && !strings.HasPrefix(a.Full, p+":") && len(a.Posts) > 0 {
						return Result{Discard: true} // not below the account of that name
					}
				}
			}
			for i := range cs.Cmds {
				cmd := &cs.Cmds[i]
				r.Sample += fmt.Sprintf("ledger %q\n", cmd.words())
				s := ""
				if cmd.Name == "delta" {
					s = c.checkDelta(m, cmd)
				} else {
					s = c.checkIncome(m, cmd)
				}
				if s != "" {
					r.Fail = s + "\n--- journal\n" + m.text(c)
					return r
				}
				r.Classes = append(r.Classes, append(cmd.classes(), cmd.Name)...)
				r.NonTrivial = r.NonTrivial || len(m.Txns) >= 3 && (cmd.B != nil || cmd.E != nil)
			}
			return r
		}})
}

func (c *Cmd) classes() []string {
	var out []string
	add := func(on bool, s string) {
		if on {
			out = append(out, s)
		}
	}
	add(c.B != nil, "-b")
	add(c.E != nil, "-e")
	add(len(c.Args) > 0, "arguments")
	add(len(c.Cur) > 0, "-currency")
	add(len(c.Pivot) > 0, "-pivot")
	add(c.Total, "-total")
	add(c.Negate, "-negate")
	add(c.Market, "-market")
	return out
}
