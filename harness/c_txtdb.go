package main

// C23, C31: txtdb directories.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"pgregory.net/rapid"
)

type c23case struct {
	T     *TxtDB
	Break int `json:",omitempty"` // which assertion is made false, from 1
	Delta int64
	Tail  int `json:",omitempty"` // movements at the end whose sum is not zero
}

func init() {
	register(&Check{ID: "C23", Quick: 60000, Thorough: 2500000,
		Rule: "a case is a txtdb directory: up to 7 accounts in a tree and up to 7 transactions of up to 4 movements, of up to 4 000 million, with dates of their own, balances, lines with only a balance, malformed lines of 17 kinds, movements out of order and sometimes an incomplete transaction at the end, or an assertion made false. The loaded ledger is compared with the model, and the sums of the postings with the balances. Non-trivial: at least two transactions and three movements.",
		Gen: func(t *rapid.T) any {
			o := &TOpt{MaxTxn: 7, Bad: chance(t, "bad", 50), Dated: true, Asserts: true}
			if chance(t, "disorder", 25) {
				o.Back, o.Asserts = true, false
			}
			cs := c23case{T: genTxtDB(t, o)}
			n := 0
			for _, m := range cs.T.Moves {
				if m.Asr {
					n++
				}
			}
			if n > 0 && chance(t, "break", 25) {
				cs.Break = intn(t, "which", 1, n)
				cs.Delta = pick(t, "delta", int64(1), -1, 100, 12345)
			}
			if len(cs.T.Moves) > 0 && chance(t, "tail", 10) {
				cs.Tail = intn(t, "tailn", 1, 3)
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c23case](raw)
			var r Result
			d := cs.T
			if cs.Break > 0 {
				n := 0
				for i := range d.Moves {
					if d.Moves[i].Asr {
						n++
						if n == cs.Break {
							b := *d.Moves[i].Bal + cs.Delta
							d.Moves[i].Bal = &b
						}
					}
				}
				c.write(d.files(c.root + "/txt"))
				c.clearOutput()
				l, err := c.openURL("txtdb:" + c.whole + "/txt")
				r.Sample = d.text()
				r.NonTrivial = true
				r.Classes = []string{"false assertion"}
				if err == nil {
					r.Fail = "a false assertion is accepted\n" + d.text()
				} else if l != nil {
					r.Fail = "an error and a ledger\n" + d.text()
				}
				return r
			}
			files := d.files(c.root + "/txt")
			if cs.Tail > 0 {
				last := d.Moves[len(d.Moves)-1]
				f := c.root + "/txt/transactions"
				for i := 0; i < cs.Tail; i++ {
					files[f] += fmt.Sprintf("9:%s:tail:c:%d:+%d.00:\n", mmoment(last.T)[:10], d.Accs[last.Acc].ID, i+1)
				}
				r.Classes = append(r.Classes, "incomplete")
			}
			c.write(files)
			c.clearOutput()
			l, err := c.openURL("txtdb:" + c.whole + "/txt")
			r.Sample = d.text()
			msg := c.stderr()
			if err != nil {
				r.Fail = fmt.Sprintf("a valid directory is rejected: %v\n%s%s", err, msg, d.text())
				return r
			}
			for _, m := range d.Moves {
				if m.Bad != "" {
					r.Classes = append(r.Classes, "malformed line")
				}
				if m.Asr {
					r.Classes = append(r.Classes, "assertion")
				}
			}
			r.NonTrivial = len(d.expected().txns) >= 2 && len(d.Moves) >= 3
			if s := diff("txtdb", d.lines(true), txtLines(l, true)); s != "" {
				r.Fail = fmt.Sprintf("%s\n%s\n%s", s, msg, d.text())
				return r
			}
			if s := d.misreported(msg, cs.Tail > 0); s != "" {
				r.Fail = fmt.Sprintf("%s\n%s\n%s", s, msg, d.text())
				return r
			}
			if s := showsCents(l); s != "" {
				r.Fail = fmt.Sprintf("%s\n%s", s, d.text())
				return r
			}
			for i := range d.Accs {
				sum := new(big.Int)
				for _, t := range d.expected().txns {
					for _, s := range t.splits {
						if s.acc == i {
							sum.Add(sum, big.NewInt(s.v))
						}
					}
				}
				for _, a := range l.Accounts {
					if idStr(a.ID) != fmt.Sprintf("id:%d", d.Accs[i].ID) {
						continue
					}
					want := "{}"
					if sum.Sign() != 0 {
						want = fmt.Sprintf("{%s|}", sum)
					}
					if len(a.Splits) > 0 && bal(a.Splits[len(a.Splits)-1].Balance) != want {
						r.Fail = fmt.Sprintf("balance of %s: %s, not %s\n%s", a.FullName(), bal(a.Splits[len(a.Splits)-1].Balance), want, d.text())
					}
				}
			}
			return r
		}})
}

// journalOf writes the data as a journal.
func (d *TxtDB) journalOf() string {
	var out strings.Builder
	out.WriteString("D 1000.00\n\n")
	for _, i := range d.order() {
		fmt.Fprintf(&out, "account %s\n", d.fullName(i))
		if d.Accs[i].Code != "" {
			fmt.Fprintf(&out, "\t; code:%s\n", d.Accs[i].Code)
		}
	}
	for _, t := range d.expected().txns {
		fmt.Fprintf(&out, "%s %s\n", fmtTime(t.t, 0), t.desc)
		for _, s := range t.splits {
			v := fmt.Sprintf("%s%d.%02d", map[bool]string{true: "-"}[s.v < 0], abs(s.v)/unit, abs(s.v)%unit/1_000_000)
			fmt.Fprintf(&out, "  %s  %s", d.fullName(s.acc), v)
			if s.asr {
				fmt.Fprintf(&out, " = %s", strings.TrimPrefix(cents(s.bal/1_000_000), "+"))
			}
			if s.t != t.t {
				fmt.Fprintf(&out, " ; date:%s", fmtTime(s.t, 0))
			}
			out.WriteString("\n")
		}
		out.WriteString("\n")
	}
	return out.String()
}

type c31case struct {
	T   *TxtDB
	CLI int
}

func init() {
	register(&Check{ID: "C31", Quick: 36000, Thorough: 1500000,
		Rule: "a case is the accounts and movements of up to 8 transactions, written as a txtdb directory and as a journal; both are loaded and compared, and the directory is exported (with the package, or with the acc program) and read back. Non-trivial: at least two transactions and an account below another.",
		Gen: func(t *rapid.T) any {
			return c31case{genTxtDB(t, &TOpt{MaxTxn: 8, Dated: true, Simple: true, Asserts: true}), intn(t, "cli", 0, 19)}
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c31case](raw)
			d := cs.T
			var r Result
			l := c.openTxt(d, &r)
			if r.Fail != "" {
				return r
			}
			child := false
			for _, a := range d.Accs {
				child = child || a.Parent >= 0
			}
			r.NonTrivial = child && len(d.expected().txns) >= 2
			text := d.journalOf()
			j, msg := c.reopen("same.j", text)
			if msg != "" {
				r.Fail = fmt.Sprintf("the journal: %s\n%s", msg, text)
				return r
			}
			if s := diff("the journal and the txtdb directory", txtLines(l, false), txtLines(j, false)); s != "" {
				r.Fail = fmt.Sprintf("%s\n%s\n--- journal\n%s", s, d.text(), text)
				return r
			}
			out := export(l)
			switch cs.CLI {
			case 18, 19:
				r.Classes = append(r.Classes, "program")
				src := "txtdb:" + c.whole + "/txt"
				if cs.CLI == 19 {
					src = c.root + "/same.j"
				}
				args := []string{bin("acc"), src}
				if cs.CLI == 19 {
					args = []string{bin("ledger"), "-f", src, "print"}
				}
				so, se, st := exec1(args[0], args[1:]...)
				if st != 0 {
					r.Fail = fmt.Sprintf("%v: status %d: %s", args, st, se)
					return r
				}
				out = so
			}
			for k := 1; k <= 2; k++ {
				l2, msg := c.reopen(fmt.Sprintf("export%d.j", k), out)
				if msg != "" {
					r.Fail = fmt.Sprintf("export %d of a txtdb directory: %s\n%s\n--- export\n%s", k, msg, d.text(), out)
					return r
				}
				if s := diff(fmt.Sprintf("export %d of a txtdb directory", k), txtLines(l, false), txtLines(l2, false)); s != "" {
					r.Fail = fmt.Sprintf("%s\n%s\n--- export\n%s", s, d.text(), out)
					return r
				}
				out = export(l2)
			}
			return r
		}})
}
