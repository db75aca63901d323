package main

// Some properties are about any ledger which loads. Here they are tried on journals nobody would write:
// generated ones with random changes of their text. There is no model of what such a text means; the oracles
// look at the loaded ledger alone.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	"pgregory.net/rapid"
)

type textcase struct {
	Mutated []byte
}

var (
	noDefault = regexp.MustCompile(`(?m)^D\s*($|;)`)
	anyWord   = regexp.MustCompile(`[\p{L}][\p{L}0-9]*`)
	oddWords  = []string{"é", "a-b", "x/y", "a.b", "a'b", "q\"", "a*", "#h", "(b)", "a\\b", "a%sb", "€", "Ünï", "a&b", "<x>", "a|b", "日本", "P", "D", "account", "include", "date", "code", "x y", "a  b", "a:b", "a:", ":b", "a::b", "_", "a1", "ZZ", "\u00a0x", "e\u0301", "🙂", "code:x", "b=c"}
)

// reword changes a text in a way which may well leave it a right journal.
func reword(t *rapid.T, s string) string {
	lines := strings.SplitAfter(s, "\n")
	i := intn(t, "line", 0, len(lines)-1)
	indented := func(k int) bool {
		return k < len(lines) && lines[k] != "" && (lines[k][0] == ' ' || lines[k][0] == '\t')
	}
	switch pick(t, "reword", "rename", "rename", "one", "twice", "swap", "line", "comment", "blank") {
	case "rename", "one":
		w := anyWord.FindAllString(lines[i], -1)
		if len(w) == 0 {
			return s
		}
		from, to := w[intn(t, "word", 0, len(w)-1)], pick(t, "odd", oddWords...)
		if chance(t, "one", 30) {
			lines[i] = strings.ReplaceAll(lines[i], from, to)
			break
		}
		return strings.ReplaceAll(s, from, to)
	case "twice": // an entry with all that is below
		for i > 0 && indented(i) {
			i--
		}
		k := i + 1
		for indented(k) {
			k++
		}
		e := strings.Join(lines[i:k], "")
		lines[i] = e + lines[i]
	case "swap":
		if indented(i) && indented(i+1) && strings.HasSuffix(lines[i+1], "\n") {
			lines[i], lines[i+1] = lines[i+1], lines[i]
		}
	case "line":
		lines[i] += pick(t, "new", randomLines...) + "\n"
	case "comment":
		lines[i] = strings.TrimRight(lines[i], "\n") + pick(t, "com", " ; ", ";", "\n  ; ", "\n  # ") + pick(t, "odd", oddWords...) + "\n"
	case "blank":
		lines[i] += "\n"
	}
	return strings.Join(lines, "")
}

func genText(t *rapid.T) textcase {
	o := full
	o.MaxTxn = 4
	o.Infer = chance(t, "infer", 20)
	if chance(t, "declared", 50) {
		o.Undeclared = false
	}
	zero := chance(t, "zero", 20)
	if zero {
		o.Omit, o.Assert, o.Infer, o.Cost = false, false, false, false
	}
	j := genJournal(t, o)
	if zero {
		zeroAmounts(j)
	}
	s := build(j, "/x", "main.j").Files["/x/main.j"]
	for n := intn(t, "nmut", 1, 4); n > 0; n-- {
		if chance(t, "hard", 30) {
			s = mutate(t, s)
		} else {
			s = reword(t, s)
		}
	}
	return textcase{[]byte(s)}
}

// onTexts makes a part of the cases of a check such a text. What is said about the ledger is "" when all is right.
func onTexts(id string, percent int, test func(c *Ctx, l *accounting.Ledger, r *Result, file, text, msg string) string) {
	ch := checks[id]
	gen, run := ch.Gen, ch.Run
	ch.Rule += fmt.Sprintf(" In %d %% of the cases the journal is instead a generated one with 1 to 4 random changes of its text; when it loads, the loaded ledger alone is looked at (non-trivial: it has a transaction with two postings).", percent)
	ch.Gen = func(t *rapid.T) any {
		if chance(t, "text", percent) {
			return genText(t)
		}
		return gen(t)
	}
	ch.Run = func(c *Ctx, raw json.RawMessage) Result {
		if !bytes.HasPrefix(raw, []byte(`{"Mutated":`)) {
			return run(c, raw)
		}
		text := string(decode[textcase](raw).Mutated)
		if strings.Contains(text, "include") {
			return Result{Discard: true}
		}
		r := Result{Classes: []string{"text"}, Sample: text}
		file := c.root + "/text/main.j"
		c.write(map[string]string{file: text})
		c.clearOutput()
		l, err := c.openURL(file)
		msg := c.stderr()
		if err != nil {
			r.Classes = append(r.Classes, "text-rejected")
			return r
		}
		for _, t := range l.Transactions {
			r.NonTrivial = r.NonTrivial || len(realSplits(t)) > 1
		}
		r.Classes = append(r.Classes, "text-loaded")
		if s := test(c, l, &r, file, text, msg); s != "" {
			r.Fail = s + "\n--- journal\n" + text + "\n--- messages\n" + msg
		}
		return r
	}
}

type sums map[*accounting.Currency]*big.Int

func (s sums) add(v accounting.Value) {
	if v.Amount == 0 {
		return
	}
	if s[v.Currency] == nil {
		s[v.Currency] = new(big.Int)
	}
	s[v.Currency].Add(s[v.Currency], big.NewInt(v.Amount))
}

func (s sums) left() (n int) {
	for _, x := range s {
		if x.Sign() != 0 {
			n++
		}
	}
	return n
}

// fits says whether the sums can be stored.
func (s sums) fits() bool {
	for _, x := range s {
		if !x.IsInt64() {
			return false
		}
	}
	return true
}

func (s sums) String() string {
	var o []string
	for c, x := range s {
		if x.Sign() != 0 {
			o = append(o, fmt.Sprintf("%s|%s", x, curName(c)))
		}
	}
	sort.Strings(o)
	return "{" + strings.Join(o, " ") + "}"
}

// postings of each account, in their order, collected from the transactions.
func collect(l *accounting.Ledger) map[*accounting.Account][]*accounting.Split {
	m := map[*accounting.Account][]*accounting.Split{}
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			m[s.Account] = append(m[s.Account], s)
		}
	}
	for _, x := range m {
		sort.SliceStable(x, func(i, k int) bool { return x[i].Time.Before(*x[k].Time) })
	}
	return m
}

func balancedText(l *accounting.Ledger) string {
	for _, t := range l.Transactions {
		s := sums{}
		for _, p := range realSplits(t) {
			if v, ok := l.SplitPrices[p]; ok {
				s.add(v)
			} else {
				s.add(p.Value)
			}
		}
		if n := s.left(); s.fits() && n != 0 && n != 2 {
			return fmt.Sprintf("the transaction at %s is accepted, with %s left over", idStr(t.ID), s)
		}
	}
	return ""
}

func runningText(l *accounting.Ledger, only bool) string {
	m := collect(l)
	for _, a := range l.Accounts {
		if isTransferAcc(a) {
			continue
		}
		if len(m[a]) != len(a.Splits) {
			return fmt.Sprintf("account %q has %d postings, and the transactions %d", a.FullName(), len(a.Splits), len(m[a]))
		}
		s := sums{}
		for i, p := range m[a] {
			if a.Splits[i] != p {
				return fmt.Sprintf("posting %d of account %q is the one at %s, and not the one at %s", i, a.FullName(), idStr(a.Splits[i].ID), idStr(p.ID))
			}
			s.add(p.Value)
			if !s.fits() {
				break
			}
			if only {
				continue
			}
			if got := bal(p.Balance); got != s.String() {
				return fmt.Sprintf("the balance with the posting at %s is %s, and the sum %s", idStr(p.ID), got, s)
			}
			if v, ok := l.Assertions[p]; ok {
				x := s[v.Currency]
				if x == nil {
					x = new(big.Int)
				}
				if x.Cmp(big.NewInt(v.Amount)) != 0 {
					return fmt.Sprintf("the assertion of the posting at %s is false: %s", idStr(p.ID), s)
				}
			}
		}
		delete(m, a)
	}
	for a := range m {
		if !isTransferAcc(a) {
			return fmt.Sprintf("account %q is not in the list of accounts", a.FullName())
		}
	}
	return ""
}

// moments of all postings, and the seconds around.
func moments(l *accounting.Ledger) []time.Time {
	seen := map[int64]bool{}
	var out []time.Time
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			if !seen[s.Time.Unix()] {
				seen[s.Time.Unix()] = true
				out = append(out, s.Time.Add(-time.Second), *s.Time, s.Time.Add(time.Second))
			}
		}
	}
	return out
}

func treeText(l *accounting.Ledger) string {
	seen := map[string]bool{}
	in := map[*accounting.Account]int{}
	for i, a := range l.Accounts {
		in[a] = i + 1
	}
	var open []*accounting.Account // the account before and its ancestors
	transfer := 0
	for _, a := range l.Accounts {
		name := a.FullName()
		if isTransferAcc(a) {
			transfer++
		}
		if seen[name] {
			return fmt.Sprintf("account %q is there twice", name)
		}
		seen[name] = true
		want, level := a.Name, 0
		for p := a.Parent; p != nil && level < 1000; p = p.Parent {
			want = p.Name + ":" + want
			level++
			if in[p] == 0 {
				return fmt.Sprintf("an ancestor of account %q is not in the list", name)
			}
		}
		if name != want || a.Level != level {
			return fmt.Sprintf("account %q has level %d and name %q, and its parents say %d and %q", name, a.Level, name, level, want)
		}
		for len(open) > 0 && open[len(open)-1] != a.Parent {
			open = open[:len(open)-1]
		}
		if a.Parent != nil && len(open) == 0 {
			return fmt.Sprintf("account %q is not right below its parent", name)
		}
		open = append(open, a)
		if a.Parent != nil {
			n := 0
			for _, x := range a.Parent.Children {
				if x == a {
					n++
				}
			}
			if n != 1 {
				return fmt.Sprintf("account %q is %d times among the children of its parent", name, n)
			}
		}
		for _, x := range a.Children {
			if x.Parent != a {
				return fmt.Sprintf("a child of account %q has another parent", name)
			}
		}
	}
	if transfer != 1 {
		return fmt.Sprintf("%d transfer accounts", transfer)
	}
	return ""
}

func exchanges(l *accounting.Ledger) bool {
	if len(l.SplitPrices) > 0 {
		return true
	}
	for _, t := range l.Transactions {
		s := sums{}
		for _, p := range realSplits(t) {
			s.add(p.Value)
		}
		if s.left() > 0 {
			return true
		}
	}
	return false
}

func init() {
	onTexts("C01", 15, func(c *Ctx, l *accounting.Ledger, r *Result, file, text, msg string) string {
		return balancedText(l)
	})
	onTexts("C03", 15, func(c *Ctx, l *accounting.Ledger, r *Result, file, text, msg string) string {
		return runningText(l, false)
	})
	onTexts("C04", 15, func(c *Ctx, l *accounting.Ledger, r *Result, file, text, msg string) string {
		return runningText(l, false)
	})
	onTexts("C05", 15, func(c *Ctx, l *accounting.Ledger, r *Result, file, text, msg string) string {
		if exchanges(l) {
			return ""
		}
		for _, when := range moments(l) {
			s := sums{}
			for _, a := range l.Accounts {
				for _, v := range l.GetBalance(a, when) {
					s.add(v)
				}
			}
			if s.left() > 0 {
				return fmt.Sprintf("at %s the accounts add up to %s", moment(when), s)
			}
		}
		return ""
	})
	onTexts("C06", 15, func(c *Ctx, l *accounting.Ledger, r *Result, file, text, msg string) string {
		for _, when := range append(moments(l), time.Time{}) {
			for _, a := range l.Accounts {
				s := sums{}
				for _, p := range a.Splits {
					if when.IsZero() || !p.Time.After(when) {
						s.add(p.Value)
					}
				}
				if got := bal(l.GetBalance(a, when)); s.fits() && got != s.String() {
					return fmt.Sprintf("the balance of %q at %s is %s, and its postings add up to %s", a.FullName(), moment(when), got, s)
				}
			}
		}
		return ""
	})
	onTexts("C15", 15, func(c *Ctx, l *accounting.Ledger, r *Result, file, text, msg string) string {
		return treeText(l)
	})
	onTexts("C19", 15, func(c *Ctx, l *accounting.Ledger, r *Result, file, text, msg string) string {
		for _, a := range l.Accounts {
			if isTransferAcc(a) {
				continue
			}
			var want []*accounting.Transaction
			for _, t := range l.Transactions {
				for _, s := range t.Splits {
					if s.Account == a {
						want = append(want, t)
						break
					}
				}
			}
			if l.Account(a.ID) == nil || idStr(l.Account(a.ID).ID) != idStr(a.ID) {
				return fmt.Sprintf("account %q is not found", a.FullName())
			}
			if a != l.Account(a.ID) {
				continue // two accounts of the same line: A:B
			}
			got := l.TransactionsInAccount(a.ID)
			if fmt.Sprint(ids(got)) != fmt.Sprint(ids(want)) {
				return fmt.Sprintf("the transactions of %q are %v, and not %v", a.FullName(), ids(got), ids(want))
			}
		}
		for _, t1 := range l.Transactions {
			for _, t2 := range l.Transactions {
				var want []*accounting.Transaction
				for _, t := range l.Transactions {
					if !t.Time.Before(t1.Time) && !t.Time.After(t2.Time) {
						want = append(want, t)
					}
				}
				if got := l.TransactionsInInterval(t1.Time, t2.Time); !t2.Time.Before(t1.Time) && fmt.Sprint(ids(got)) != fmt.Sprint(ids(want)) {
					return fmt.Sprintf("the transactions from %s to %s are %v, and not %v", moment(t1.Time), moment(t2.Time), ids(got), ids(want))
				}
			}
		}
		return ""
	})
	onTexts("C11", 10, func(c *Ctx, l *accounting.Ledger, r *Result, file, text, msg string) string {
		for i, p := range l.Prices {
			if i > 0 && p.Time.Before(l.Prices[i-1].Time) {
				return "the list of prices is not sorted by date"
			}
		}
		before := dump(l, Parts{Prices: true, AutoPrices: true, PriceComments: true})
		l2, err := accounting.Open(file)
		if err != nil {
			return fmt.Sprint("the second time it does not load: ", err)
		}
		return diff("prices of the same journal loaded again", before, dump(l2, Parts{Prices: true, AutoPrices: true, PriceComments: true}))
	})
	onTexts("C12", 20, func(c *Ctx, l *accounting.Ledger, r *Result, file, text, msg string) string {
		forgetUnreached(l) // comments of prices which were rejected
		p0 := picture(l)
		k := l.Clone()
		if d := isClone(l, k); d != "" {
			return "the clone is not right: " + d
		}
		if d := diff("the clone", p0, picture(k)); d != "" {
			return d
		}
		if err := k.Fill(); err != nil {
			return fmt.Sprint("the clone cannot be recalculated: ", err)
		}
		return diff("the original after recalculating the clone", p0, picture(l))
	})
	onTexts("C21", 20, func(c *Ctx, l *accounting.Ledger, r *Result, file, text, msg string) string {
		p0 := picture(l)
		for k := 1; k <= 2; k++ {
			if err := l.Fill(); err != nil {
				return fmt.Sprintf("recalculation %d: %v", k, err)
			}
			if d := diff(fmt.Sprintf("after recalculation %d", k), p0, picture(l)); d != "" {
				return d
			}
		}
		return ""
	})
	onTexts("C09", 20, func(c *Ctx, l *accounting.Ledger, r *Result, file, text, msg string) string {
		for _, m := range strings.Split(strings.TrimSpace(msg), "\n") {
			if m != "" && !strings.Contains(m, "undefined") {
				return "" // what was rejected may have taught a commodity its style
			}
		}
		for _, cu := range l.Currencies {
			if strings.ContainsAny(cu.Name, " \t;=@+-.,_'\"0123456789") {
				return "" // amounts or prices of it cannot be written
			}
		}
		if d := l.DefaultCurrency; (d == nil || d.Name != "") && nameless(l) {
			return "" // amounts without name before the line D, or without any
		}
		if noDefault.MatchString(text) && nameless(l) {
			return "" // amounts without name before and after D alone: there are two such commodities
		}
		for _, cs := range l.Comments {
			if len(cs) > 0 && cs[0] == "" {
				return "" // an empty comment is not seen in the export
			}
		}
		for _, a := range l.Accounts {
			if strings.TrimSpace(a.Name) != a.Name || a.Name == "" {
				return ""
			}
		}
		if d := l.DefaultCurrency; d != nil && d.Name == "" && (len(l.Comments[d]) > 0 || d.ISIN != "") {
			return "" // nothing to write them below
		}
		r.Classes = append(r.Classes, "text-exported")
		before := books(l)
		out := export(l)
		first := l
		for k := 1; k <= 2; k++ {
			l2, bad := c.reload(fmt.Sprintf("export%d.j", k), out)
			if bad != "" {
				return fmt.Sprintf("export %d: %s\n--- export\n%s", k, bad, out)
			}
			if d := equivalent(fmt.Sprintf("export %d, loaded again", k), first, l2); d != "" {
				return d + "\n--- export\n" + out
			}
			out = export(l2)
		}
		return diff("the ledger after exporting it", before, books(first))
	})
}

type textRun struct {
	Mutated []byte
	Words   []string
	X       int
}

// onTextPrograms makes a part of the cases of C34 (and C29) programs run on such texts.
func onTextPrograms(id string, percent int) {
	ch := checks[id]
	gen, run := ch.Gen, ch.Run
	ch.Rule += fmt.Sprintf(" In %d %% of the cases a program is run on a journal whose text had 1 to 4 random changes: whether it loads decides the status and the message, and the output of print and acc is the export; it is run twice with the same output. Non-trivial there: it does not load, or has two transactions.", percent)
	ch.Gen = func(t *rapid.T) any {
		if !chance(t, "text", percent) {
			return gen(t)
		}
		tc := genText(t)
		cmd := pick(t, "textcmd", "print", "print", "accounts", "accounts -tree", "balance", "balance -tree", "stats", "delta A", "incomestatement", "is", "balance -market", "delta -market A", "price EUR", "balance A", "balance e", "print -pivot A", "balance -pivot a", "muscular", "acc", "acc")
		return textRun{tc.Mutated, strings.Fields(cmd), intn(t, "textx", 0, 99)}
	}
	ch.Run = func(c *Ctx, raw json.RawMessage) Result {
		if !bytes.HasPrefix(raw, []byte(`{"Mutated":`)) {
			return run(c, raw)
		}
		cs := decode[textRun](raw)
		text := string(cs.Mutated)
		if strings.Contains(text, "include") {
			return Result{Discard: true}
		}
		r := Result{Classes: []string{"text"}, Sample: text}
		file := c.root + "/text/main.j"
		c.write(map[string]string{file: text})
		c.clearOutput()
		l, err := c.openURL(file)
		said := c.stderr()
		prog, args := "ledger", append([]string{"-f", file}, cs.Words...)
		switch cs.Words[0] {
		case "acc":
			prog, args = "acc", []string{file}
		case "muscular":
			prog, args = "muscular", []string{"-f", file, "-e", "2020-03-01", "EUR"}
		}
		out, msg, st := exec1(bin(prog), args...)
		fail := func(f string, a ...any) Result {
			r.Fail = fmt.Sprintf("%s %q: ", prog, args) + fmt.Sprintf(f, a...) + "\n--- journal\n" + text + "\n--- output\n" + out + "\n--- messages\n" + msg + "\n--- messages of the library\n" + said
			return r
		}
		if strings.Contains(msg, "goroutine ") && strings.Contains(msg, ".go:") {
			return fail("it crashes")
		}
		if err != nil {
			r.Classes = append(r.Classes, "text-rejected")
			r.NonTrivial = true
			if st == 0 || out != "" {
				return fail("status %d and %d bytes of output, and the journal does not load: %v", st, len(out), err)
			}
			if len(msg) <= len(said) {
				return fail("it fails (%v) and says nothing of it", err)
			}
			return r
		}
		r.Classes = append(r.Classes, "text-loaded")
		r.NonTrivial = len(l.Transactions) > 1
		market := strings.Contains(strings.Join(cs.Words, " "), "market") || cs.Words[0] == "price" || prog == "muscular"
		if st != 0 && !market {
			return fail("status %d, and the journal loads", st)
		}
		if st != 0 && len(msg) <= len(said) {
			return fail("status %d without a message", st)
		}
		if len(args) == 3 && args[2] == "print" || prog == "acc" {
			if want := export(l); out != want {
				return fail("the output is not the export of the ledger:\n%s", want)
			}
		}
		out2, msg2, st2 := exec1(bin(prog), args...)
		if out2 != out || st2 != st || len(msg2) != len(msg) {
			return fail("the second time it gives status %d and\n%s%s", st2, out2, msg2)
		}
		return r
	}
}

func init() {
	onTextPrograms("C34", 10)
	onTextPrograms("C29", 10)
}

// nameless says whether there are amounts of a commodity without name.
func nameless(l *accounting.Ledger) bool {
	var vs []accounting.Value
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			vs = append(vs, s.Value, l.SplitPrices[s], l.Assertions[s])
		}
	}
	for _, p := range l.Prices {
		vs = append(vs, p.Value, accounting.Value{Currency: p.Currency})
	}
	for _, v := range vs {
		if v.Currency != nil && v.Currency.Name == "" {
			return true
		}
	}
	return false
}

func ids(ts []*accounting.Transaction) []string {
	var o []string
	for _, t := range ts {
		o = append(o, idStr(t.ID))
	}
	return o
}
