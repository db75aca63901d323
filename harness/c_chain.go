package main

// C26, C28, C29: chained commands, listings and determinism.

import (
	"encoding/json"
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// genAnyCmd draws a command of any kind.
func genAnyCmd(t *rapid.T, m *MLedger) Cmd {
	c := genBalanceCmd(t, m)
	c.Name = pick(t, "command", "balance", "b", "bal", "is", "incomestatement", "delta", "accounts", "a", "stats", "print", "print", "price")
	if chance(t, "pivot?", 20) {
		for n := intn(t, "npivot", 1, 2); n > 0; n-- {
			c.Pivot = append(c.Pivot, genArg(t, m))
		}
	}
	c.Negate = chance(t, "negate", 20)
	c.Market = chance(t, "market", 20)
	c.Batch = chance(t, "batch", 20)
	if c.Name == "price" || c.Market {
		if c.E == nil { // the result must not depend on the present time
			c.E = genBound(t, m)
			if c.B != nil && c.from() > c.to() {
				c.B = nil
			}
		}
		if c.Name == "delta" && c.B == nil {
			c.Market = false
		}
	}
	switch c.Name {
	case "price":
		c.Args = nil
		for n := intn(t, "nprices", 0, 3); n > 0; n-- {
			c.Args = append(c.Args, genCurArg(t, m))
		}
	case "accounts", "a":
		c.Args = nil
		if chance(t, "tree", 40) {
			c.Args = []string{"-tree"}
		}
	}
	return c
}

func genCurArg(t *rapid.T, m *MLedger) string {
	if len(m.Curs) == 0 || chance(t, "unknown", 5) {
		return "nothing"
	}
	if m.Default != nil && m.Default.Name != "" && chance(t, "default", 20) {
		return m.Default.Name
	}
	return m.Curs[intn(t, "cur", 0, len(m.Curs)-1)].Name
}

type chainCase struct {
	J    *Journal
	Cmds []Cmd
	Sep  int // extra separators
}

func crashed(stderr string, status int) bool {
	return status == 2 && strings.Contains(stderr, "goroutine ") || strings.HasPrefix(stderr, "panic:") || strings.Contains(stderr, "\npanic:")
}

func init() {
	register(&Check{ID: "C26", Quick: 8000, Thorough: 300000,
		Rule: "a case is a journal as in C24 and two to five commands of any kind with any options; what the chain prints is compared with what the same commands print one by one (until the first which fails). Non-trivial: two commands or more succeed, and one before the last has a period or a pivot.",
		Gen: func(t *rapid.T) any {
			j, m := genCLI(t)
			cs := chainCase{J: j, Sep: intn(t, "sep", 0, 15)}
			if chance(t, "nothing", 2) {
				cs.Sep = intn(t, "onlysep", 11, 13) // just separators
				return cs
			}
			for n := intn(t, "ncmds", 2, 5); n > 0; n-- {
				cs.Cmds = append(cs.Cmds, genAnyCmd(t, m))
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[chainCase](raw)
			var r Result
			m := c.loadCLI(cs.J, &r)
			want, status := "", 0
			var line []string
			switch cs.Sep {
			case 11:
				line = append(line, "--", "--")
			case 12, 13:
				line = append(line, "--")
			}
			done := 0
			for i := range cs.Cmds {
				w := cs.Cmds[i].words()
				if i > 0 {
					line = append(line, "--")
					if cs.Sep == 14 {
						line = append(line, "--")
					}
				}
				line = append(line, w...)
				if status != 0 {
					continue
				}
				var out string
				out, _, status = exec1(bin("ledger"), append([]string{"-f", m.main(c)}, w...)...)
				want += out
				if status == 0 {
					done++
					if i < len(cs.Cmds)-1 && (cs.Cmds[i].B != nil || cs.Cmds[i].E != nil || cs.Cmds[i].Pivot != nil) {
						r.NonTrivial = true
					}
					r.Classes = append(r.Classes, cs.Cmds[i].Name)
				}
			}
			if cs.Sep == 15 || cs.Sep == 12 {
				line = append(line, "--")
			}
			if cs.Sep == 10 {
				line = append(line, "--", "--")
			}
			r.NonTrivial = r.NonTrivial && done >= 2
			r.Sample += fmt.Sprintf("ledger %q\n", line)
			got, msg, st := exec1(bin("ledger"), append([]string{"-f", m.main(c)}, line...)...)
			if st != status {
				r.Fail = fmt.Sprintf("ledger %q: status %d instead of %d\n%s\n--- journal\n%s", line, st, status, shorten(msg), m.text(c))
				return r
			}
			if got != want {
				r.Fail = fmt.Sprintf("ledger %q:\n%s\n--- journal\n%s", line, diff("output", strings.Split(want, "\n"), strings.Split(got, "\n")), m.text(c))
			}
			return r
		}})
	register(&Check{ID: "C28", Quick: 10000, Thorough: 360000,
		Rule: "a case is a journal as in C24 and three listings with periods and pivots: print (the transactions shown must be exactly those of the whole export which are selected, with the same text; without restrictions it is the export itself), accounts and stats (every figure is compared). Non-trivial: some listing is restricted to a part of the transactions.",
		Gen: func(t *rapid.T) any {
			j, m := genCLI(t)
			cs := cliCase{J: j}
			for i := 0; i < 3; i++ {
				c := Cmd{Name: pick(t, "name", "print", "print", "print", "stats", "stats", "accounts", "a"), Order: intn(t, "order", 0, 20)}
				if chance(t, "period", 75) {
					genPeriod(t, m, &c)
				}
				if chance(t, "pivot?", 40) {
					for n := intn(t, "npivot", 1, 2); n > 0; n-- {
						c.Pivot = append(c.Pivot, genArg(t, m))
					}
				}
				if len(c.Name) != 5 && chance(t, "tree", 40) {
					c.Args = []string{"-tree"}
				}
				cs.Cmds = append(cs.Cmds, c)
			}
			return cs
		},
		Run: runListings})
	register(&Check{ID: "C29", Quick: 6000, Thorough: 240000,
		Rule: "a case is a journal as in C24, with many prices and commodities at the same moment, and a command of any kind (or the acc program), which is run four times; the standard output, the messages and the status must be the same each time, and the export made inside another process must be the same as what print writes. Non-trivial: there are two transactions, and two commodities or prices.",
		Gen: func(t *rapid.T) any {
			o := cliOpt(t)
			o.Comments = chance(t, "comments2", 50)
			j := genJournal(t, o)
			if chance(t, "same moment", 40) {
				// everything happens at once
				flatten(j.Items)
			}
			m := build(j, "/x", "main.j")
			c := genAnyCmd(t, m)
			if chance(t, "print2", 30) {
				c = Cmd{Name: "print"}
			}
			return chainCase{J: j, Cmds: []Cmd{c}, Sep: intn(t, "acc", 0, 9)}
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[chainCase](raw)
			var r Result
			m := build(cs.J, c.root, "main.j")
			m.compute()
			if m.Err != nil {
				return Result{Discard: true}
			}
			c.write(m.Files)
			args := append([]string{bin("ledger"), "-f", m.main(c)}, cs.Cmds[0].words()...)
			if cs.Sep == 9 {
				args = []string{bin("acc"), m.main(c)}
				r.Classes = append(r.Classes, "acc")
			} else {
				r.Classes = append(r.Classes, cs.Cmds[0].Name)
			}
			in := survey(m)
			r.NonTrivial = in.tx >= 2 && in.curs+in.prices >= 2
			r.Sample = m.text(c) + fmt.Sprintf("%q\n", args[1:])
			var first string
			for i := 0; i < 4; i++ {
				out, msg, st := exec1(args[0], args[1:]...)
				got := fmt.Sprintf("status %d\n%s\n--- messages\n%s", st, out, stampRE.ReplaceAllString(msg, ""))
				if i == 0 {
					first = got
					if crashed(msg, st) {
						r.Fail = fmt.Sprintf("%q crashes\n%s\n--- journal\n%s", args, shorten(msg), m.text(c))
						return r
					}
					if cs.Sep == 9 || strings.Join(args[3:], " ") == "print" {
						var r2 Result
						_, l := c.open(cs.J, &r2)
						if r2.Fail != "" {
							return r2
						}
						if d := diff("export in two processes", strings.Split(out, "\n"), strings.Split(export(l), "\n")); d != "" {
							r.Fail = d + "\n--- journal\n" + m.text(c)
							return r
						}
						r.Classes = append(r.Classes, "export")
					}
				} else if got != first {
					r.Fail = fmt.Sprintf("%q: run %d differs from the first\n%s\n--- journal\n%s", args, i+1, diff("output", strings.Split(first, "\n"), strings.Split(got, "\n")), m.text(c))
					return r
				}
			}
			return r
		}})
}

var stampRE = regexp.MustCompile(`(?m)^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d `)

// flatten gives the same date to everything.
func flatten(items []Item) {
	var at int64
	for i := range items {
		it := &items[i]
		switch it.K {
		case "tx":
			if at == 0 {
				at = it.T
			}
			for k := range it.Posts {
				it.Posts[k].Date = nil
			}
			it.T = at
		case "P":
			if at == 0 {
				at = it.T
			}
			it.T = at
		case "inc":
			// the generator does not make them here
		}
	}
}

// chunks returns the text of each transaction of an export.
func chunks(out string) []string {
	var cs []string
	in := false
	for _, l := range strings.Split(out, "\n") {
		switch {
		case l != "" && l[0] >= '0' && l[0] <= '9':
			cs = append(cs, l)
			in = true
		case in && l != "" && (l[0] == ' ' || l[0] == '\t'):
			cs[len(cs)-1] += "\n" + l
		default:
			in = false
		}
	}
	return cs
}

func runListings(c *Ctx, raw json.RawMessage) Result {
	cs := decode[cliCase](raw)
	var r Result
	m := c.loadCLI(cs.J, &r)
	_, l := c.open(cs.J, &r)
	if r.Fail != "" {
		return r
	}
	whole := export(l)
	all := chunks(whole)
	if len(all) != len(m.Txns) {
		r.Fail = fmt.Sprintf("the export has %d transactions, and the journal %d\n%s\n--- journal\n%s", len(all), len(m.Txns), whole, m.text(c))
		return r
	}
	for i := range cs.Cmds {
		cmd := &cs.Cmds[i]
		if len(cmd.Pivot) > 0 && m.hasDated() && matches(transferName, cmd.Pivot) {
			r.Classes = append(r.Classes, "skipped")
			continue // does a transaction with its own dates involve the transfer account?
		}
		var sel []int
		for n, t := range m.Txns {
			in := cmd.from() <= t.T && t.T <= cmd.to()
			if in && len(cmd.Pivot) > 0 {
				in = false
				for _, p := range t.Posts {
					in = in || matches(p.Acc.Full, cmd.Pivot)
				}
			}
			if in {
				sel = append(sel, n)
			}
		}
		if len(sel) > 0 && len(sel) < len(m.Txns) {
			r.NonTrivial = true
			r.Classes = append(r.Classes, "part")
		}
		r.Classes = append(append(r.Classes, cmd.Name), cmd.classes()...)
		r.Sample += fmt.Sprintf("ledger %q\n", cmd.words())
		out, msg, st := exec1(bin("ledger"), append([]string{"-f", m.main(c)}, cmd.words()...)...)
		fail := func(s string) Result {
			r.Fail = fmt.Sprintf("ledger %q: %s\n--- output\n%s%s\n--- journal\n%s", cmd.words(), s, out, shorten(msg), m.text(c))
			return r
		}
		if st != 0 {
			return fail(fmt.Sprintf("status %d", st))
		}
		lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		switch cmd.Name {
		case "print":
			if cmd.B == nil && cmd.E == nil && len(cmd.Pivot) == 0 {
				if d := diff("print and the export", strings.Split(whole, "\n"), strings.Split(out, "\n")); d != "" {
					return fail(d)
				}
				continue
			}
			var want []string
			for _, n := range sel {
				want = append(want, all[n])
			}
			if d := diff("transactions", want, chunks(out)); d != "" {
				return fail(d)
			}
		case "stats":
			if len(sel) == 0 {
				if strings.Contains(out, "span") || !strings.Contains(out, "No transactions") {
					return fail("there are no transactions")
				}
				continue
			}
			day := func(t int64) string { return mmoment(t)[:10] }
			num := func(t int64) int64 { return time.Unix(t, 0).UTC().Truncate(24*time.Hour).Unix() / 86400 }
			a, z := m.Txns[sel[0]].T, m.Txns[sel[len(sel)-1]].T
			days := num(z) - num(a) + 1
			var names []string
			for _, c := range m.Curs {
				names = append(names, c.Name)
			}
			want := []string{
				fmt.Sprintf("Transaction span : %s to %s (%d days)", day(a), day(z), days),
				fmt.Sprintf("Transactions : %d (%.1f per day)", len(sel), float64(len(sel))/float64(days)),
				fmt.Sprintf("Accounts : %d", len(m.view())),
				fmt.Sprintf("Commodities : %d (%s)", len(names), strings.Join(sorted(names), " ")),
				fmt.Sprintf("Market prices : %d", len(l.Prices)),
			}
			var got []string
			for _, s := range lines {
				if k := strings.IndexByte(s, ':'); k >= 0 {
					s = strings.TrimSpace(s[:k]) + " : " + strings.TrimSpace(s[k+1:])
				}
				if k := strings.IndexByte(s, '('); strings.HasPrefix(s, "Commodities") && k >= 0 {
					s = s[:k+1] + strings.Join(sorted(strings.Split(strings.TrimSuffix(s[k+1:], ")"), " ")), " ") + ")"
				}
				got = append(got, s)
			}
			if d := diff("stats", want, got); d != "" {
				return fail(d)
			}
		default:
			var want []string
			tree := len(cmd.Args) > 0
			for _, v := range m.view() {
				if tree {
					want = append(want, strings.TrimSpace(v.full))
				} else {
					want = append(want, v.full)
				}
			}
			indent := map[string]int{}
			for k := range lines {
				name := lines[k]
				if tree {
					name = strings.TrimSpace(name)
				}
				parent := name[:max(strings.LastIndexByte(name, ':'), 0)]
				if at, listed := indent[parent]; name != transferName && strings.Contains(name, ":") && slices.Contains(want, parent) {
					if !listed {
						return fail(fmt.Sprintf("%q is before %q", name, parent))
					}
					if tree && at >= strings.Index(lines[k], name) {
						return fail(fmt.Sprintf("%q is not below %q", name, parent))
					}
				}
				indent[name] = strings.Index(lines[k], name)
				lines[k] = name
			}
			if d := diff("accounts", sorted(want), sorted(lines)); d != "" {
				return fail(d)
			}
		}
	}
	return r
}

func sorted(s []string) []string {
	o := append([]string{}, s...)
	sort.Strings(o)
	return o
}
