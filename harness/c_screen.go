package main

// C35: the tables on the screen.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	"pgregory.net/rapid"
)

type c35case struct {
	J    *Journal
	T    *TxtDB `json:",omitempty"`
	Prog string
	B, E *Bound `json:",omitempty"`
	Pick []int  // accounts which are looked at
}

// plain: takes one cell for each letter, and means nothing to the table.
func plain(s string) bool {
	for _, r := range s {
		if r < 32 || r >= 0x300 || r == '[' || r == '│' || r == 0xad || r >= 0x7f && r < 0xa0 {
			return false
		}
	}
	return true
}

// sameCell compares a cell with the text it should have. Texts which do not fit are cut.
func sameCell(got, want string) bool {
	if !plain(want) {
		return true
	}
	want = strings.TrimSpace(want)
	if len([]rune(want)) > 30 {
		return got != ""
	}
	return strings.Join(strings.Fields(got), " ") == strings.Join(strings.Fields(want), " ")
}

func sameTable(lines []string, head []string, rows [][]string) string {
	row := func(s string, want []string) string {
		got := strings.Split(s, "│")
		for len(got) < len(want) {
			got = append(got, "")
		}
		if len(got) != len(want) {
			return fmt.Sprintf("columns %q, expected %q", got, want)
		}
		for i := range want {
			if !sameCell(got[i], want[i]) {
				return fmt.Sprintf("columns %q, expected %q", got, want)
			}
		}
		return ""
	}
	if s := row(lines[0], head); s != "" {
		return "header: " + s
	}
	for i, w := range rows {
		if s := row(lines[1+i], w); s != "" {
			return fmt.Sprintf("row %d: %s", i+1, s)
		}
	}
	if x := lines[1+len(rows)]; strings.Contains(x, "│") {
		return fmt.Sprintf("more than %d rows: %q", len(rows), x)
	}
	return ""
}

func init() {
	register(&Check{ID: "C35", Quick: 600, Thorough: 12000,
		Rule: "a case is a journal as in C24 (with periods, in half of the cases) or a txtdb directory, shown by ledger without command or by tacc in a pseudo-terminal of 160 lines; the table of accounts is read from the screen, then up to three accounts are chosen with the keyboard and their tables read, then the program is left. Non-trivial: an account with two movements or more is looked at.",
		Gen: func(t *rapid.T) any {
			o := cliOpt(t)
			o.CLIAccounts, o.Noise = chance(t, "cliaccounts", 80), false
			o.Small = true
			cs := c35case{Prog: pick(t, "program", "ledger", "ledger", "tacc")}
			if chance(t, "txtdb", 20) {
				cs.T = genTxtDB(t, &TOpt{MaxTxn: 6, Small: true, Dated: true, Asserts: true})
				cs.J, cs.Prog = &Journal{}, "tacc"
			} else {
				cs.J = genJournal(t, o)
				if cs.Prog == "ledger" && chance(t, "period", 60) {
					var c Cmd
					genPeriod(t, build(cs.J, "/x", "main.j"), &c)
					cs.B, cs.E = c.B, c.E
				}
			}
			for n := intn(t, "npick", 1, 3); n > 0; n-- {
				cs.Pick = append(cs.Pick, intn(t, "pick", 0, 30))
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c35case](raw)
			var r Result
			var l *accounting.Ledger
			src := ""
			if cs.T != nil {
				l = c.openTxt(cs.T, &r)
				src = "txtdb:" + c.whole + "/txt"
				r.Classes = append(r.Classes, "txtdb")
			} else {
				var m *MLedger
				m, l = c.open(cs.J, &r)
				src = m.main(c)
			}
			if r.Fail != "" {
				return r
			}
			cmd := Cmd{B: cs.B, E: cs.E}
			if len(l.Accounts) > 140 {
				return Result{Discard: true}
			}
			// what has to be shown
			var names [][]string
			var moves [][][]string
			for _, a := range l.Accounts {
				var rows [][]string
				if len(a.Splits) > 140 {
					return Result{Discard: true}
				}
				b := "0"
				sum := map[string]*big.Int{}
				for _, s := range a.Splits {
					if s.Time.Unix() > cmd.to() {
						break
					}
					addName(sum, s.Value)
					b = s.Balance.String()
					if s.Time.Unix() < cmd.from() {
						continue
					}
					v := s.Value.String()
					if v == "0" {
						v = ""
					}
					rows = append(rows, []string{s.Time.UTC().Format("02-01-2006"), s.Transaction.Description, v, b})
				}
				if len(sum) == 0 {
					b = "0"
				}
				names = append(names, []string{a.FullName(), b})
				moves = append(moves, rows)
			}
			args := []string{src}
			if cs.Prog == "ledger" {
				args = []string{"-f", src}
				if cs.B != nil {
					args = append(args, "-b", cs.B.text())
				}
				if cs.E != nil {
					args = append(args, "-e", cs.E.text())
				}
				if cs.B != nil || cs.E != nil {
					r.Classes = append(r.Classes, "period")
				}
			}
			r.Sample += fmt.Sprintf("%s %q, rows %v\n", cs.Prog, args, cs.Pick)
			// mostly accounts with movements, or without them below or above others which have them
			var busy, idle []int
			for i := range moves {
				if len(moves[i]) > 1 {
					busy = append(busy, i)
				}
				if a := l.Accounts[i]; len(a.Splits) == 0 {
					near := a.Parent != nil && len(a.Parent.Splits) > 0
					for _, x := range a.Children {
						near = near || len(x.Splits) > 0
					}
					if near {
						idle = append(idle, i)
					}
				}
			}
			for i, k := range cs.Pick {
				if k%5 > 1 && len(busy) > 0 {
					cs.Pick[i] = busy[k%len(busy)]
				} else if k%5 == 1 && len(idle) > 0 {
					cs.Pick[i] = idle[k/5%len(idle)]
				}
				cs.Pick[i] %= len(names)
			}
			// What the library for tables does when a table opens another one is not always the same: keys
			// may be lost, and the screen may stay empty. So a session is tried again before it counts.
			session := func(limit time.Duration) (msg string, empty bool) {
				t := startTTY(160, 230, bin(cs.Prog), args...)
				defer t.close()
				fail := func(f string, a ...any) (string, bool) {
					var seen []string
					for _, s := range t.lines() {
						if s != "" {
							seen = append(seen, s)
						}
					}
					return fmt.Sprintf("%s %q: %s\n--- screen\n%s\n---\n%s", cs.Prog, args, fmt.Sprintf(f, a...), shorten(strings.Join(seen, "\n")), r.Sample), len(seen) == 0
				}
				top := func() string {
					return t.until(limit, func(x []string) string { return sameTable(x, []string{"account", "balance"}, names) })
				}
				if s := top(); s != "" {
					s, _ := fail("accounts: %s", s)
					return s, false
				}
				for _, k := range cs.Pick {
					t.send("g" + strings.Repeat("j", k) + "\r")
					s := t.until(limit, func(x []string) string {
						return sameTable(x, []string{"date", "description", "value", "balance"}, moves[k])
					})
					if s != "" {
						return fail("movements of %s: %s", names[k][0], s)
					}
					t.send("q")
					if s := top(); s != "" {
						return fail("accounts, after looking at %s: %s", names[k][0], s)
					}
				}
				t.send("q")
				if err := t.wait(limit); err != nil {
					s, _ := fail("leaving: %v", err)
					return s, true
				}
				return "", false
			}
			for _, k := range cs.Pick {
				r.NonTrivial = r.NonTrivial || len(moves[k]) > 1
			}
			for _, limit := range []time.Duration{2, 5, 12} {
				msg, empty := session(limit * time.Second)
				if msg == "" {
					r.Fail = ""
					return r
				}
				r.Fail = msg
				if limit == 12 && empty {
					return Result{Discard: true}
				}
			}
			return r
		}})
}
