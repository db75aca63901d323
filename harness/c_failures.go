package main

// C34: programs which cannot do what they are asked.

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"
)

type c34case struct {
	J     *Journal
	Kind  string
	Prog  string // program, when it may be any
	Good  []Cmd  // commands before the one which fails
	Cmd   Cmd
	After *Cmd   `json:",omitempty"` // command after it
	Text  string `json:",omitempty"` // the wrong word
	X     int
}

func init() {
	register(&Check{ID: "C34", Quick: 8000, Thorough: 200000,
		Rule: "a case is a journal as in C24 and a way of running ledger, acc, tacc or muscular which cannot work: journals which do not load (unbalanced, two amounts missing, false assertion, disordered, missing file, directory, unknown scheme), no journal given, unknown commands, options, dates, periods and commodities, after other commands or before them; or the journal named in LEDGER_FILE. The standard output must be exactly that of the commands before, the status not zero and the error must say what was wrong. Non-trivial: other commands in the chain, or a journal of two transactions or more which does not load.",
		Gen: func(t *rapid.T) any {
			j, m := genCLI(t)
			cs := c34case{J: j, Kind: pick(t, "kind", "broken", "broken", "broken", "nofile", "env", "env", "unknown", "date", "date", "option", "period", "args", "fails"), X: intn(t, "x", 0, 99)}
			cs.Prog = pick(t, "program", "ledger", "ledger", "ledger", "acc", "tacc", "muscular")
			cs.Cmd = genAnyCmd(t, m)
			if chance(t, "chain", 60) {
				for n := intn(t, "ngood", 1, 3); n > 0; n-- {
					cs.Good = append(cs.Good, genAnyCmd(t, m))
				}
			}
			if chance(t, "after?", 30) {
				c := genAnyCmd(t, m)
				cs.After = &c
			}
			switch cs.Kind {
			case "broken":
				cs.Text = pick(t, "broken", "unbalanced", "three", "missing", "assertion", "order", "price order", "declared twice", "no file", "directory", "scheme", "txtdb", "txtdb:")
			case "unknown":
				cs.Text = pick(t, "command", "nothing", "Balance", "balanc", "balances", "reg", "prnt", "help", " balance", "balance ", "statss", "delta,", "B")
			case "date":
				cs.Text = pick(t, "date", "2020-13-01", "2020-02-30", "2020-13", "20", "2020-1-1", "yesterday", "2020-01-01/25", "2020-01-01/10:61", "01-01-2020", "2020-01-01 x", "202O", "x", "2019-02-29", "2020-00-10", "2020-01-01/10:10:60")
			case "option":
				cs.Text = pick(t, "option", "-zzz", "--nosuch", "-total=maybe", "-Market", "-market=2", "--begin=2020", "-")
				if cs.Text == "-" {
					cs.Text = pick(t, "last", "-b", "-e", "-pivot", "-currency")
				}
			case "fails":
				cs.Text = pick(t, "unknown commodity", "nothing", "Nothing", "", "EUR2", "X Y", "1")
			case "period":
				cs.Text = pick(t, "period", "abc", "m", "3", "3y", "1d2m", "x1m", "d", "-measures=0", "-measures=-1", "-measures=-7", "-measures=x", "-measures=")
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c34case](raw)
			var r Result
			m := c.loadCLI(cs.J, &r)
			file := m.main(c)
			r.Classes = []string{cs.Kind}
			want := ""
			var line []string
			for i := range cs.Good {
				w := cs.Good[i].words()
				out, _, st := exec1(bin("ledger"), append([]string{"-f", file}, w...)...)
				if st != 0 {
					continue
				}
				want += out
				line = append(append(line, w...), "--")
			}
			if cs.Kind == "date" && cs.X%2 == 0 { // the last option is the one which counts
				cs.Cmd.E = nil
			} else if cs.Kind == "date" {
				cs.Cmd.B = nil
			}
			words := cs.Cmd.words()
			var after []string
			if cs.After != nil {
				after = append([]string{"--"}, cs.After.words()...)
			}
			prog, args := "ledger", []string{}
			var env, says []string
			fails := true
			switch cs.Kind {
			case "broken":
				where := ""
				file, where = c.breakFile(m, cs.Text)
				if where != "" {
					says = []string{where}
				}
				want = ""
				prog = cs.Prog
				r.NonTrivial = len(m.Txns) > 1
				r.Classes = append(r.Classes, cs.Text)
				switch prog {
				case "ledger":
					args = append(append(append([]string{"-f", file}, line...), words...), after...)
				case "acc", "tacc":
					args = []string{file}
				default:
					args = []string{"-f", file, "-e", "2020-01-01", "EUR"}
				}
			case "nofile":
				want = ""
				if cs.Prog == "ledger" || cs.Prog == "acc" {
					args = append(append(line, words...), after...)
				} else {
					prog, args = "muscular", []string{"-e", "2020-01-01"}
				}
				switch cs.X % 7 {
				case 0:
					args = nil
				case 1:
					args = []string{"-f"}
				case 2:
					args = append([]string{"-f", ""}, args...)
				}
				if cs.X%3 == 0 {
					env = []string{"LEDGER_FILE="}
				}
			case "env":
				fails = false
				args = append(line, words...)
				out, _, st := exec1(bin("ledger"), append([]string{"-f", file}, words...)...)
				if st != 0 {
					return Result{Discard: true}
				}
				want += out
				env = []string{"LEDGER_FILE=" + file}
				if cs.X%2 == 0 {
					// the option comes first
					args = append([]string{"-f", file}, args...)
					env = []string{"LEDGER_FILE=" + c.root + "/missing"}
				}
			case "unknown":
				words[len(words)-1-len(cs.Cmd.Args)] = cs.Text
				args = append(append(append([]string{"-f", file}, line...), words...), after...)
				says = []string{cs.Text}
			case "fails":
				// the price of a commodity which is nowhere, with any options
				for _, x := range m.Curs {
					if x.Name == cs.Text {
						return Result{Discard: true}
					}
				}
				cs.Cmd.Name, cs.Cmd.Args = "price", []string{cs.Text}
				cs.Cmd.Batch, cs.Cmd.Negate, cs.Cmd.Total = cs.X%2 == 0, cs.X/2%2 == 0, cs.X/4%2 == 0
				args = append(append(append([]string{"-f", file}, line...), cs.Cmd.words()...), after...)
				says = []string{cs.Text}
			case "date":
				o := []string{"-b", cs.Text}
				if cs.X%2 == 0 {
					o[0] = "-e"
				}
				if cs.Prog == "muscular" {
					prog, want = "muscular", ""
					right := []string{"-e", "2020-12-31"}
					if cs.X%2 == 0 {
						right = []string{"-b", "2019-01"}
					}
					switch cs.X / 2 % 4 {
					case 1:
						o = append(o, right...)
					case 2:
						o = append(right, o...)
					}
					args = append([]string{"-f", file}, o...)
					if cs.X%3 == 0 {
						args = append(args, "EUR")
					}
				} else {
					args = append(append(append(append([]string{"-f", file}, line...), o...), words...), after...)
				}
			case "option":
				if cs.Text == "-b" || cs.Text == "-e" || cs.Text == "-pivot" || cs.Text == "-currency" {
					// without a value
					args = append(append([]string{"-f", file}, line...), cs.Text)
				} else {
					args = append(append(append(append([]string{"-f", file}, line...), cs.Text), words...), after...)
				}
				says = []string{strings.Split(strings.TrimLeft(cs.Text, "-"), "=")[0]}
			case "period":
				prog, want = "muscular", ""
				args = []string{"-f", file, "-e", "2020-01-01", pick2(cs.X, "-period", "-measureperiod"), cs.Text}
				says = []string{cs.Text}
				if strings.HasPrefix(cs.Text, "-") {
					args = append(args[:4], cs.Text)
					says = []string{strings.Split(cs.Text, "=")[1]}
				}
				if cs.X%3 == 0 {
					args = append(args, "EUR")
				}
			case "args":
				prog, want = pick2(cs.X/4, "acc", "tacc"), ""
				args = [][]string{{}, {file, file}, {file, ""}, {file, "x", "y"}}[cs.X%4]
			}
			r.NonTrivial = r.NonTrivial || len(line)+len(after) > 0 && prog == "ledger"
			r.Sample += fmt.Sprintf("%s %q\n", prog, args)
			got, msg, st := exec2(env, bin(prog), args...)
			fail := func(f string, a ...any) Result {
				r.Fail = fmt.Sprintf("%s %q: %s\nstatus %d, error:\n%s\n--- journal\n%s", prog, args, fmt.Sprintf(f, a...), st, shorten(msg), m.text(c))
				return r
			}
			if crashed(msg, st) {
				return fail("it crashes")
			}
			if got != want {
				return fail("%s", diff("output", strings.Split(want, "\n"), strings.Split(got, "\n")))
			}
			if !fails {
				if st != 0 {
					return fail("it fails")
				}
				return r
			}
			if st == 0 {
				return fail("it does not fail (%s %q)", cs.Kind, cs.Text)
			}
			if strings.TrimSpace(msg) == "" {
				return fail("it fails without a message")
			}
			for _, s := range says {
				if !strings.Contains(msg, s) {
					return fail("the message does not mention %q", s)
				}
			}
			return r
		}})
}

func pick2(k int, xs ...string) string { return xs[k%len(xs)] }

// breakFile makes a data source which does not load, with some of the journal in it. Returns also the place
// which the error has to name.
func (c *Ctx) breakFile(m *MLedger, how string) (source, where string) {
	file := m.main(c)
	text := m.Files[file]
	if text != "" && !strings.HasSuffix(text, "\n") {
		text += "\n"
	}
	n := strings.Count(text, "\n")
	last := int64(0)
	for _, t := range m.Txns {
		last = max(last, t.T)
	}
	for _, p := range m.Prices {
		last = max(last, p.T)
	}
	day := time.Unix(last, 0).UTC().AddDate(0, 0, 2).Format("2006-01-02")
	add := func(s string, line int) {
		c.write(map[string]string{file: text + s})
		where = fmt.Sprintf("%s:%d", file, n+line)
	}
	source = file
	switch how {
	case "unbalanced":
		add("\n"+day+" wrong\n  Some:Account  1 EUR\n  Other:Account  -2 EUR\n", 2)
	case "three":
		add("\n"+day+" wrong\n  Some:Account  1 AAA\n  Other:Account  -2 BBB\n  Other:Account  3 CCC\n", 2)
	case "missing":
		add("\n"+day+" wrong\n  Some:Account\n  Other:Account  2 EUR\n  Other:Account\n", 2)
	case "assertion":
		add("\n"+day+" wrong\n  Some:Account  1 AAA\n  Other:Account  -1 AAA = 5 AAA\n", 4)
	case "order":
		add("\n"+day+" right\n0500-01-01 wrong\n", 3)
	case "price order":
		add("\nP "+day+" AAA 1 BBB\nP 0500-01-01 AAA 1 BBB\n", 3)
	case "declared twice":
		add("account Some:Account:Other\naccount Some:Account:Other\n", 2)
	case "no file":
		source, where = c.root+"/not/there.j", c.root+"/not/there.j"
	case "directory":
		source, where = c.root, c.root
	case "scheme":
		source = "nosuchscheme:" + file
		where = "nosuchscheme"
	case "txtdb":
		source = "txtdb:" + c.whole + "/not/there"
	case "txtdb:":
		// movements, but no accounts
		c.write(map[string]string{c.root + "/half/transactions": "1:2020-01-01:x:y:1:+1.00:\n"})
		source = "txtdb:" + c.whole + "/half"
	}
	return source, where
}
