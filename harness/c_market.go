package main

// C27, C30: reports with market prices, and momentum.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	"pgregory.net/rapid"
)

// converter converts with the loaded ledger.
type converter struct {
	m  *MLedger
	l  *accounting.Ledger
	at time.Time

	present bool // "at" is the present: what changes about now cannot be compared
	moving  bool
}

func (c *converter) cur(m *MCur) *accounting.Currency {
	if m.Name == "" {
		return c.l.DefaultCurrency
	}
	for _, x := range c.l.Currencies {
		if x.Name == m.Name {
			return x
		}
	}
	panic(harnessError("there is no currency " + m.Name))
}

// value converts to the default commodity.
func (c *converter) value(m *MCur, v int64) (int64, error) {
	if c.l.DefaultCurrency == nil {
		return 0, fmt.Errorf("there is no default commodity")
	}
	x, err := c.l.Convert(accounting.Value{Amount: v, Currency: c.cur(m)}, c.at, c.l.DefaultCurrency)
	if err == nil && x.Currency != c.l.DefaultCurrency {
		panic("the result of a conversion is in another commodity")
	}
	if c.present {
		for _, d := range []time.Duration{-time.Minute, time.Minute} {
			y, err2 := c.l.Convert(accounting.Value{Amount: v, Currency: c.cur(m)}, c.at.Add(d), c.l.DefaultCurrency)
			c.moving = c.moving || y.Amount != x.Amount || (err == nil) != (err2 == nil)
		}
	}
	return x.Amount, err
}

func (c *converter) balance(b map[*MCur]*big.Int) (map[*MCur]*big.Int, error) {
	out := map[*MCur]*big.Int{}
	var err error
	for cur, x := range b {
		v, e := c.value(cur, x.Int64())
		if e != nil {
			err = e
			continue
		}
		addTo(out, MVal{c.m.Default, v})
	}
	return out, err
}

func fits(b map[*MCur]*big.Int) bool {
	for _, x := range b {
		if !x.IsInt64() {
			return false
		}
	}
	return true
}

// mustFail checks that a command fails as it has to.
func (c *Ctx) mustFail(m *MLedger, cmd *Cmd, why error) string {
	out, msg, st := exec1(bin("ledger"), append([]string{"-f", m.main(c)}, cmd.words()...)...)
	switch {
	case crashed(msg, st):
		return fmt.Sprintf("ledger %q crashes: %s", cmd.words(), shorten(msg))
	case st == 0:
		return fmt.Sprintf("ledger %q must fail (%v), and it writes\n%s", cmd.words(), why, out)
	case strings.TrimSpace(stripDiagnostics(msg)) == "":
		return fmt.Sprintf("ledger %q fails with status %d and no message", cmd.words(), st)
	}
	return ""
}

// stripDiagnostics removes the messages about the journal.
func stripDiagnostics(msg string) string {
	var out []string
	for _, l := range strings.Split(msg, "\n") {
		if strings.Contains(l, "main.j:") && strings.Contains(l, "undefined") {
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func (c *Ctx) checkMarket(m *MLedger, l *accounting.Ledger, cmd *Cmd) (string, string) {
	cv := &converter{m: m, l: l, at: time.Unix(cmd.to(), 0).UTC()}
	later := false
	if cmd.E == nil {
		cv.at, cv.present = time.Now(), true
		for _, p := range l.Prices {
			later = later || p.Time.After(cv.at)
		}
	}
	f, class := c.checkMarketAt(m, l, cmd, cv)
	if cv.moving {
		return "", "discard"
	}
	if later && class == "converted" {
		class = "converted-before-a-price"
	}
	return f, class
}

func (c *Ctx) checkMarketAt(m *MLedger, l *accounting.Ledger, cmd *Cmd, cv *converter) (string, string) {
	if cmd.Name == "price" {
		return c.checkPrice(m, cv, cmd)
	}
	if cmd.Name == "delta" {
		return c.checkMarketDelta(m, cv, cmd)
	}
	plain := *cmd
	plain.Market = false
	total := map[*MCur]*big.Int{}
	selected := map[*vAcc]int{}
	var rows []row
	var optional []bool
	var failed error
	needed := false
	for _, v := range m.pivoted(cmd.Pivot).view() {
		if len(cmd.Args) > 0 {
			lvl, ok := selected[v.parent]
			switch {
			case v.parent != nil && ok:
				selected[v] = lvl + 1
			case matches(v.full, cmd.Args):
				selected[v] = 0
			default:
				continue
			}
		}
		b := v.at(cmd.to())
		for cur := range b {
			keep := len(cmd.Cur) == 0
			for _, n := range cmd.Cur {
				keep = keep || n == cur.Name
			}
			if !keep {
				delete(b, cur)
			}
		}
		needed = needed || len(b) > 0
		x, err := cv.balance(b)
		if err != nil {
			failed = err
			continue
		}
		if !fits(x) {
			return "", "discard"
		}
		sumInto(total, x, 1)
		name, level := v.name, v.level
		if len(cmd.Args) > 0 {
			level = selected[v]
			if level == 0 {
				name = v.full
			}
		}
		rows = append(rows, row{name, shown(x), level})
		optional = append(optional, len(x) == 0)
	}
	if failed != nil {
		return c.mustFail(m, cmd, failed), "fails"
	}
	if !needed && l.DefaultCurrency == nil {
		return "", "nothing"
	}
	if !fits(total) {
		return "", "discard"
	}
	totals := shown(total)
	if len(totals) == 0 {
		totals = []string{"0"}
	}
	return c.compareBalance(m, cmd, rows, optional, totals), "converted"
}

// checkMarketDelta: what the accounts are worth at the end less what they were worth at the beginning.
func (c *Ctx) checkMarketDelta(m *MLedger, cv *converter, cmd *Cmd) (string, string) {
	first, last := map[*MCur]*big.Int{}, map[*MCur]*big.Int{}
	for _, v := range m.pivoted(cmd.Pivot).view() {
		if matches(v.full, cmd.Args) {
			if cmd.B != nil {
				sumInto(first, v.before(cmd.from()), 1)
			}
			sumInto(last, v.at(cmd.to()), 1)
		}
	}
	if !fits(first) || !fits(last) {
		return "", "discard"
	}
	x, err := cv.balance(last)
	if err == nil {
		var y map[*MCur]*big.Int
		y, err = (&converter{m: cv.m, l: cv.l, at: time.Unix(cmd.from(), 0).UTC()}).balance(first)
		sumInto(x, y, -1)
	}
	if err != nil {
		return c.mustFail(m, cmd, err), "fails"
	}
	if !fits(x) {
		return "", "discard"
	}
	if cmd.Negate {
		y := map[*MCur]*big.Int{}
		sumInto(y, x, -1)
		x = y
	}
	want := shown(x)
	if len(want) == 0 {
		want = []string{"0"}
	}
	out, msg, st := exec1(bin("ledger"), append([]string{"-f", m.main(c)}, cmd.words()...)...)
	if st != 0 {
		return fmt.Sprintf("ledger %q: status %d: %s", cmd.words(), st, shorten(msg)), "delta"
	}
	if d := diff(fmt.Sprintf("ledger %q", cmd.words()), want, strings.Split(strings.TrimSuffix(out, "\n"), "\n")); d != "" {
		return d, "delta"
	}
	if len(first) == 0 && len(last) == 0 {
		return "", "nothing"
	}
	return "", "converted"
}

func (c *Ctx) checkPrice(m *MLedger, cv *converter, cmd *Cmd) (string, string) {
	var want []string
	for _, name := range cmd.Args {
		var cur *MCur
		for _, x := range m.Curs {
			if x.Name == name {
				cur = x
			}
		}
		if cur == nil {
			return c.mustFail(m, cmd, fmt.Errorf("unknown commodity")), "fails"
		}
		v, err := cv.value(cur, unit)
		if err != nil {
			return c.mustFail(m, cmd, err), "fails"
		}
		s := refPrint(v, m.Default.Style, true, true)
		if !cmd.Batch {
			s = fmt.Sprintf("Price for %s: %s", name, s)
		}
		want = append(want, s)
	}
	out, msg, st := exec1(bin("ledger"), append([]string{"-f", m.main(c)}, cmd.words()...)...)
	if st != 0 {
		return fmt.Sprintf("ledger %q: status %d: %s", cmd.words(), st, shorten(msg)), "price"
	}
	var got []string
	if out != "" {
		got = strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	}
	if d := diff(fmt.Sprintf("ledger %q", cmd.words()), want, got); d != "" {
		return d, "price"
	}
	return "", "price"
}

// withDefault declares a default commodity.
func withDefault(t *rapid.T, j *Journal) {
	for _, c := range j.Curs {
		if c.Name == "" { // it is the default one
			return
		}
	}
	for k := range j.Items {
		if j.Items[k].K == "D" {
			return
		}
		if j.Items[k].K == "P" || j.Items[k].K == "tx" {
			i := intn(t, "D", 0, len(j.Curs)-1)
			it := Item{K: "D", Cur: i, A: &Amt{C: i, V: 1000 * unit}}
			j.Items = append(j.Items[:k:k], append([]Item{it}, j.Items[k:]...)...)
			return
		}
	}
}

// morePrices adds prices so that most conversions exist.
func morePrices(t *rapid.T, j *Journal, m *MLedger) {
	def := -1
	for i := range j.Curs {
		if m.Default != nil && j.Curs[i].Name == m.Default.Name {
			def = i
		}
	}
	if def < 0 || len(m.Txns) == 0 {
		return
	}
	at := m.Txns[0].T
	if len(m.Prices) > 0 && m.Prices[0].T < at {
		at = m.Prices[0].T
	}
	var items []Item
	for i := range j.Curs {
		if i == def || j.Curs[i].Name == "" || chance(t, "noprice", 15) {
			continue
		}
		items = append(items, Item{K: "P", Cur: i, A: &Amt{C: def, V: genRate(t)}, T: at - 86400})
	}
	// after the declarations, before the first price or transaction
	for k := range j.Items {
		if j.Items[k].K == "P" || j.Items[k].K == "tx" {
			j.Items = append(j.Items[:k:k], append(items, j.Items[k:]...)...)
			return
		}
	}
}

// futurePrices adds, after everything else, prices which are the same for a long time and then change:
// they are not the present ones.
func futurePrices(t *rapid.T, j *Journal, m *MLedger) {
	def := -1
	for i := range j.Curs {
		if m.Default != nil && j.Curs[i].Name == m.Default.Name {
			def = i
		}
	}
	last := int64(math.MinInt64)
	for _, p := range m.Prices {
		last = max(last, p.T)
	}
	for _, tx := range m.Txns {
		last = max(last, tx.T)
	}
	const start, y2150 = 1_700_000_000, 5_680_281_600 // the first one is in 2023
	if def < 0 || last > start {
		return
	}
	var names []int
	for i := range j.Curs {
		if i != def && j.Curs[i].Name != "" {
			names = append(names, i)
		}
	}
	var old, new []Item
	for _, i := range names {
		v := genRate(t)
		old = append(old, Item{K: "P", Cur: i, A: &Amt{C: def, V: v}, T: start + 86400})
		new = append(new, Item{K: "P", Cur: i, A: &Amt{C: def, V: v}, T: y2150})
	}
	for _, i := range names {
		new = append(new, Item{K: "P", Cur: i, A: &Amt{C: def, V: genRate(t)}, T: y2150 + 86400})
	}
	j.Items = append(append(j.Items, old...), new...)
}

type c30case struct {
	N       int
	Prices  []c10price
	E       Bound
	M, D, K int // months, days and number of measures
	Form    int
	B       *Bound
	Args    []int
	More    []int    `json:",omitempty"` // measures of the commands after it
	Bad     bool     `json:",omitempty"` // also commodities without a value at some moment
	Now     bool     `json:",omitempty"` // no end is given: it is the present, after most of the prices
	Env     bool     `json:",omitempty"` // the journal is given in the environment
	Opt     []string `json:",omitempty"` // options which make no difference
	Tx      []c30tx  `json:",omitempty"`
}

// c30tx is a transaction, which may set a price.
type c30tx struct {
	T        int64
	From, To int
	Q, V     int64 // in units
	Cost     int   `json:",omitempty"` // 0: no price; 1: a cost; 2: an exchange
}

func (cs *c30case) text() string {
	var sb strings.Builder
	sb.WriteString("D 1000.00 A\n")
	for _, p := range cs.Prices {
		fmt.Fprintf(&sb, "P %s %c %s\n", fmtTime(p.T, 125), 'A'+p.From, refPrint(p.V, CurDef{Name: string(rune('A' + p.To)), Prec: 1}, true, true))
	}
	for i, x := range cs.Tx {
		a := fmt.Sprintf("%d.00 %c", x.Q, 'A'+x.From)
		fmt.Fprintf(&sb, "%s movement %d\n", fmtTime(x.T, 125), i)
		switch {
		case x.Cost == 0 || x.From == x.To:
			fmt.Fprintf(&sb, "  Assets:Bank%d  %s\n  Equity  -%s\n", i%3, a, a)
		case x.Cost == 1:
			fmt.Fprintf(&sb, "  Assets:Bank%d  %s @@ %d.00 %c\n  Equity  -%d.00 %c\n", i%3, a, x.V, 'A'+x.To, x.V, 'A'+x.To)
		default:
			fmt.Fprintf(&sb, "  Assets:Bank%d  %s\n  Equity  -%d.00 %c\n", i%3, a, x.V, 'A'+x.To)
		}
	}
	return sb.String()
}

func init() {
	register(&Check{ID: "C27", Quick: 8000, Thorough: 300000,
		Rule: "a case is a journal as in C24, most of them with prices which connect every commodity to the default one, and three commands: balance -market with periods (without an end, it is the present), arguments and -currency, delta -market, and price (with and without -batch) of up to three commodities, some unknown. The output is compared with the result of converting each amount with the library and adding big integers; commands which need a missing conversion or default commodity must fail with a message and without crashing. Non-trivial: some command converts, or has to fail.",
		Gen: func(t *rapid.T) any {
			j, m := genCLI(t)
			if chance(t, "default?", 80) {
				withDefault(t, j)
				m = build(j, "/x", "main.j")
			}
			if chance(t, "more", 75) {
				morePrices(t, j, m)
				m = build(j, "/x", "main.j")
			}
			future := chance(t, "future", 20)
			if future {
				futurePrices(t, j, m)
				m = build(j, "/x", "main.j")
			}
			cs := cliCase{J: j}
			for i := 0; i < 3; i++ {
				c := genBalanceCmd(t, m)
				c.Market = true
				if future && chance(t, "present", 70) {
					c.E = nil
				} else if c.E == nil && chance(t, "end?", 85) {
					c.E = genBound(t, m)
					if c.B != nil && c.from() > c.to() {
						c.B = nil
					}
				}
				if chance(t, "price", 40) {
					c.Name = "price"
					c.Batch = chance(t, "batch", 40)
					c.Args = nil
					for n := intn(t, "nprices", 0, 3); n > 0; n-- {
						c.Args = append(c.Args, genCurArg(t, m))
					}
				}
				if c.Name != "price" && chance(t, "delta", 30) {
					c.Name, c.Cur, c.Total = "delta", nil, false
					c.Negate = chance(t, "negate", 30)
					if len(c.Args) == 0 {
						c.Args = []string{genArg(t, m)}
					}
				}
				cs.Cmds = append(cs.Cmds, c)
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[cliCase](raw)
			var r Result
			m := c.loadCLI(cs.J, &r)
			_, l := c.open(cs.J, &r)
			if r.Fail != "" {
				return r
			}
			for i := range cs.Cmds {
				cmd := &cs.Cmds[i]
				r.Sample += fmt.Sprintf("ledger %q\n", cmd.words())
				s, class := c.checkMarket(m, l, cmd)
				if s != "" {
					r.Fail = s + "\n--- journal\n" + m.text(c)
					return r
				}
				r.Classes = append(r.Classes, class)
				r.NonTrivial = r.NonTrivial || strings.HasPrefix(class, "converted") || class == "fails" || class == "price" && len(cmd.Args) > 0
			}
			return r
		}})
	register(&Check{ID: "C30", Quick: 30000, Thorough: 500000,
		Rule: "a case is a price list of up to 14 entries (28 with reverse ones) among 2 to 5 commodities, an end date, a measure period of months and days, a number of measures (up to 40) and some commodities (sometimes several commands in a chain), sometimes with transactions, with and without costs; the figures are compared with the average of ratios of values converted with the library; some commands name commodities without a value at some moment, and must fail. Non-trivial: some figure is not zero, with two measures or more.",
		Gen: func(t *rapid.T) any {
			cs := c30case{N: intn(t, "n", 2, 5), M: intn(t, "months", 0, 7), K: pick(t, "measures", 2, 1, 2, 3, 5, 12, intn(t, "manymeasures", 4, 40)), Form: intn(t, "form", 0, 3)}
			if cs.M == 0 || chance(t, "days", 30) {
				cs.D = intn(t, "d", 1, 60)
			}
			cs.Prices = genPriceHistory(t, cs.N, false)
			star := chance(t, "star", 70)
			for i := range cs.Prices {
				if star && cs.Prices[i].From != 0 {
					cs.Prices[i].To = 0
				}
				if cs.Prices[i].V <= 0 {
					cs.Prices[i].V = unit
				}
			}
			cs.E = Bound{T: genQueryTime(t, cs.Prices), F: pick(t, "precision", 2, 1, 0, 3)}
			if chance(t, "b", 10) {
				cs.B = &Bound{T: genQueryTime(t, cs.Prices), F: 2}
			}
			if chance(t, "chain", 20) {
				for n := intn(t, "nchain", 1, 2); n > 0; n-- {
					cs.More = append(cs.More, intn(t, "more", 1, 14))
				}
			}
			cs.Bad = chance(t, "bad", 12)
			cs.Now = chance(t, "now", 12)
			cs.Env = chance(t, "env", 15)
			if chance(t, "options", 20) {
				cs.Opt = pick(t, "option", []string{"-period", "3m"}, []string{"-period", "10d"}, []string{"-period", "1m15d"}, []string{"-simulate"}, []string{"-batch"}, []string{"-num", "2"}, []string{"-divide", "0.5"})
			}
			// a price of each of the commodities before all the others
			if star && !cs.Bad && len(cs.Prices) > 0 && chance(t, "early", 80) {
				var early []c10price
				for i := 1; i < cs.N; i++ {
					early = append(early, c10price{From: i, To: 0, V: genRate(t), T: cs.Prices[0].T - 86400*int64(intn(t, "earlyby", 1, 4000))})
				}
				sort.SliceStable(early, func(i, j int) bool { return early[i].T < early[j].T })
				cs.Prices = append(early, cs.Prices...)
				for i := range cs.Prices {
					cs.Prices[i].V = max(cs.Prices[i].V, 1)
				}
			}
			if n := len(cs.Prices); n > 1 && chance(t, "fit", 60) {
				// the measures cover the history
				first, last := cs.Prices[intn(t, "first", 0, n-2)].T, cs.Prices[n-1].T
				cs.E.T = last - int64(intn(t, "before", 0, 20))*86400 + int64(intn(t, "after", 0, 40))*86400
				days := int((last-first)/86400) / cs.K
				if chance(t, "months", 50) {
					cs.M, cs.D = days/30, days%30
				} else {
					cs.M, cs.D = 0, days
				}
				cs.M += intn(t, "moremonths", 0, 1)
				if cs.M == 0 && cs.D == 0 {
					cs.D = 1
				}
			}
			if len(cs.Prices) > 0 && chance(t, "movements", 30) {
				for n := intn(t, "nmovements", 1, 5); n > 0; n-- {
					p := pick(t, "near", cs.Prices...)
					cs.Tx = append(cs.Tx, c30tx{T: p.T + int64(intn(t, "days", -40, 40))*86400, From: p.From, To: p.To,
						Q: int64(intn(t, "q", 1, 9)), V: int64(intn(t, "v", 1, 99)), Cost: intn(t, "cost", 0, 2)})
				}
				sort.SliceStable(cs.Tx, func(i, j int) bool { return cs.Tx[i].T < cs.Tx[j].T })
				if cs.B == nil && chance(t, "b", 50) {
					cs.B = &Bound{T: pick(t, "from", cs.Tx...).T, F: pick(t, "precision", 2, 1, 0, 3)}
				}
			}
			if cs.Now {
				for i := range cs.Prices {
					cs.Prices[i].T -= 20 * 365 * 86400
				}
				for i := range cs.Tx {
					cs.Tx[i].T -= 20 * 365 * 86400
				}
			}
			for n := intn(t, "nargs", 1, pick(t, "maxargs", 4, 4, 12)); n > 0; n-- {
				if star && len(cs.Prices) > 0 {
					a := pick(t, "priced", cs.Prices...).From
					if a == 0 && chance(t, "other", 80) {
						a = intn(t, "cur", 1, cs.N-1)
					}
					cs.Args = append(cs.Args, a)
					continue
				}
				cs.Args = append(cs.Args, intn(t, "cur", 0, cs.N-1))
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c30case](raw)
			var r Result
			text := cs.text()
			r.Sample = text
			l, msg := c.reload("main.j", text)
			if msg != "" {
				if strings.Contains(msg, "undefined currency") {
					l, msg = c.reopen("main.j", text)
				}
				if msg != "" {
					panic(harnessError(msg))
				}
			}
			// the commodities which have a value at all the moments
			end := time.Unix(cs.E.end(), 0).UTC()
			if cs.Now {
				start := time.Now()
				end = start
				if len(cs.Prices) > 0 && cs.M+cs.D > 0 {
					// the measures cover the history
					days := int((start.Unix()-cs.Prices[0].T)/86400)/cs.K + cs.D
					cs.M, cs.D = days/30, days%30
				}
				r.Classes = append(r.Classes, "now")
			}
			var want [][2]float64
			ks := append([]int{cs.K}, cs.More...)
			expect := func(end time.Time) (names []string, wants [][][2]float64, bad, ok bool) {
				for _, a := range cs.Args {
					name := string(rune('A' + a))
					var cur *accounting.Currency
					for _, x := range l.Currencies {
						if x.Name == name {
							cur = x
						}
					}
					if cur == nil {
						if cs.Bad {
							names, bad = append(names, name), true
						}
						continue
					}
					ok := true
					first, other := true, false
					value := func(t time.Time) float64 {
						v, err := l.Convert(accounting.Value{Amount: unit, Currency: cur}, t, l.DefaultCurrency)
						if err != nil || v.Amount == 0 && !first {
							ok = false
						}
						return float64(v.Amount)
					}
					v0 := value(end)
					first = false
					var sums [][2]float64
					for _, max := range ks {
						var sum [2]float64
						t := end
						for k := 1; k <= max; k++ {
							t = t.AddDate(0, -cs.M, -cs.D)
							sum[0] += v0 / value(t)
							was := ok
							sum[1] += v0 / value(end.AddDate(0, -cs.M*k, -cs.D*k))
							other = other || was && !ok // only when the moments are taken in the other way
						}
						for i := range sum {
							sum[i] = sum[i]/float64(max) - 1
						}
						sums = append(sums, sum)
					}
					if other {
						return nil, nil, false, false
					}
					if !ok {
						if cs.Bad {
							names, bad = append(names, name), true
						}
						continue
					}
					names = append(names, name)
					wants = append(wants, sums)
				}
				return names, wants, bad, true
			}
			names, wants, bad, valid := expect(end)
			if !valid {
				return Result{Discard: true}
			}
			if len(names) == 0 {
				return Result{Discard: true}
			}
			if bad && len(cs.More) > 0 {
				cs.More, ks = nil, ks[:1] // with one command, which may or may not fail
				names, wants, bad, valid = expect(end)
				if !valid || len(names) == 0 {
					return Result{Discard: true}
				}
			}
			// the figures of the first command for all the commodities, then the second one...
			var shown []string
			for i := range ks {
				for k := range wants {
					shown = append(shown, names[k])
					want = append(want, wants[k][i])
				}
			}
			p := fmt.Sprintf("%dm%dd", cs.M, cs.D)
			if cs.D == 0 && cs.Form%2 == 1 {
				p = fmt.Sprintf("%dm", cs.M)
			}
			if cs.M == 0 && cs.Form%2 == 1 {
				p = fmt.Sprintf("%dd", cs.D)
			}
			args := []string{"-f", c.root + "/main.j"}
			var env []string
			if cs.Env {
				args, env = nil, []string{"LEDGER_FILE=" + c.root + "/main.j"}
			}
			for i, k := range ks {
				if i > 0 {
					args = append(args, "--")
				}
				if !cs.Now {
					args = append(args, "-e", cs.E.text())
				}
				args = append(args, cs.Opt...)
				if k != 1 || cs.Form%2 == 0 {
					args = append(args, "-measures", fmt.Sprint(k))
				}
				if cs.M != 3 || cs.D != 0 || cs.Form < 2 { // it is the default
					args = append(args, "-measureperiod", p)
				}
				if cs.B != nil {
					args = append(args, "-b", cs.B.text())
				}
				args = append(args, names...)
			}
			if len(ks) > 1 {
				r.Classes = append(r.Classes, "chain")
			}
			r.Sample += fmt.Sprintf("muscular %q\n", args)
			out, msg, st := exec2(env, bin("muscular"), args...)
			if cs.Now {
				// the figures must be those of some moment between
				_, wants2, bad2, valid := expect(time.Now())
				if !valid || bad2 != bad || len(wants2) != len(wants) {
					return Result{Discard: true}
				}
				for i := range wants {
					for j := range wants[i] {
						if bad {
							break // no figures
						}
						for k, x := range wants[i][j] {
							if math.Abs(x-wants2[i][j][k]) > 1e-7*(1+math.Abs(x)) {
								return Result{Discard: true}
							}
						}
					}
				}
			}
			fail := func(f string, a ...any) Result {
				r.Fail = fmt.Sprintf("muscular %q: %s\n--- output\n%s%s\n--- journal\n%s", args, fmt.Sprintf(f, a...), out, shorten(msg), text)
				return r
			}
			if bad {
				r.Classes = append(r.Classes, "fails")
				if crashed(msg, st) {
					return fail("it crashes")
				}
				if st == 0 || strings.TrimSpace(stripDiagnostics(msg)) == "" || out != "" {
					return fail("it must fail with a message: some commodity has no value (status %d)", st)
				}
				return r
			}
			if st != 0 {
				return fail("status %d", st)
			}
			lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
			if len(lines) != len(shown) {
				return fail("%d lines for %d commodities", len(lines), len(shown))
			}
			for i, s := range lines {
				f := strings.Fields(s)
				if len(f) != 2 || f[1] != shown[i] {
					return fail("line %d is not about %s", i+1, shown[i])
				}
				x, err := strconv.ParseFloat(f[0], 64)
				if err != nil {
					return fail("line %d: %v", i+1, err)
				}
				near := false
				for _, w := range want[i] {
					near = near || math.Abs(x-w) <= 1e-6+1e-9*math.Abs(w)
					near = near || cs.Now && math.Abs(x-w) <= 1e-6+1e-6*(1+math.Abs(w))
				}
				if !near {
					return fail("%s: expected %.7f, found %s", shown[i], want[i][0], f[0])
				}
				if want[i][0] != 0 && cs.K > 1 {
					r.NonTrivial = true
				}
			}
			return r
		}})
}
