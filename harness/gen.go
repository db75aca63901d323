package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Opt says what a generated journal may contain.
type Opt struct {
	MaxTxn      int
	Cost        bool // postings with a cost
	Exchange    bool // transactions exchanging two commodities
	Assert      bool // true assertions
	Infer       bool // postings with an assertion and no amount
	Dated       bool // postings with a date of their own
	Omit        bool // postings without amount
	Comments    bool
	Prices      bool
	Default     bool // default commodity
	Undeclared  bool // commodities and accounts used without being declared
	Tags        bool
	Noise       bool // blank lines, comments between entries
	Times       bool // hours, minutes and seconds
	Junk        bool // lines which are not understood
	ASCII       bool // names of accounts and commodities in ASCII
	NoLayout    bool // canonical layout only
	CLIAccounts bool // accounts below Income, Expense...
	ZeroCost    bool
	Odd         bool // accounts with parts without a name
	Small       bool // never a long one
	SameSign    bool // exchanges whose two amounts have the same sign
}

func pick[T any](t *rapid.T, label string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

func chance(t *rapid.T, label string, percent int) bool {
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-percent
}

func intn(t *rapid.T, label string, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(t, label)
}

var curNames = []string{"EUR", "USD", "$", "X", "ACME", "a", "BTC", "S-P", "F_1x", "Oro.Ag", "W/E", "eur", "x", "US", "USDT"}
var curNamesU = []string{"€", "£", "Ñu", "à", "Å", "日円"}
var accSegs = []string{"Assets", "Bank", "Cash", "Income", "Expense", "Food", "Rent", "a", "B2", "Long name", "Bank", "Z", "Equity", "7up", "BANK", "cash", "A"}
var accSegsU = []string{"Año", "Ñandú x", "À", "银行"}
var words = []string{"shop", "Paid", "rent", "x", "=1", "@", "a  b", "10 EUR", "\"q\"", "ü", "-", "*", "!", "(12)", "| n", "P", "2020-01-01", "%s", "%d"}
var comWords = []string{"note", "two words", "a ; b", "x=1", "@ 5", "ref:12", "see http://x.org", "ñ", "*", "# h", "-", "10 EUR", "Tag", "%d", "  in"}

func genCur(t *rapid.T, used map[string]bool, o *Opt) CurDef {
	names := curNames
	if !o.ASCII {
		names = append(append([]string{}, curNames...), curNamesU...)
	}
	var free []string
	for _, n := range names {
		if !used[n] {
			free = append(free, n)
		}
	}
	c := CurDef{Name: pick(t, "curname", free...)}
	used[c.Name] = true
	genStyle(t, &c)
	return c
}

// undeclaredStyle makes a style which can be learned from any amount.
func undeclaredStyle(c *CurDef) {
	c.T = ""
	if c.D != "," {
		c.D = "."
	} else if c.Prec == 0 {
		c.Prec = 2
	}
}

func genStyle(t *rapid.T, c *CurDef) {
	c.Before = rapid.Bool().Draw(t, "before")
	c.NoSpace = rapid.Bool().Draw(t, "nospace")
	if c.Name != "" && !safeName(c.Name) {
		c.NoSpace = false
	}
	c.Prec = pick(t, "prec", 2, 0, 1, 3, 4, 8, 2, 5, 6, 7)
	c.T = pick(t, "thousand", "", ",", ".", "'", "_")
	c.D = pick(t, "decimal", ".", ",", "'", "_")
	if c.T == c.D {
		if c.T == "." {
			c.D = ","
		} else {
			c.D = "."
		}
	}
	if c.Prec == 0 { // the decimal sign cannot be told from the declaration
		c.D = "."
		if c.T == "." {
			c.D = ","
		}
	}
	if c.Name == "" {
		c.Before = false
		c.NoSpace = false
	}
}

func genAccName(t *rapid.T, o *Opt) string {
	segs := accSegs
	if !o.ASCII {
		segs = append(append([]string{}, accSegs...), accSegsU...)
	}
	n := pick(t, "depth", 2, 1, 3, 2, 4)
	if chance(t, "deep", 4) {
		n = intn(t, "depth", 5, 9)
	}
	var s []string
	odd := intn(t, "odd", 0, 99)
	if o.CLIAccounts {
		s = append(s, pick(t, "top", "Assets", "Income", "Expense", "Liabilities"))
		if n == 1 {
			n = 2
		}
		for len(s) < n {
			s = append(s, pick(t, "seg", segs...))
		}
		return strings.Join(s, ":")
	}
	for len(s) < n {
		s = append(s, pick(t, "seg", segs...))
	}
	switch {
	case odd >= 91 && odd <= 93 && o.Odd: // as other lines begin
		s[0] = pick(t, "word", "P", "D", "P 2020-01-01 EUR 3", "P 2020-01-01", "D EUR", "D 1.00 EUR", "include x", "include", "account", "account x", "commodity 1.00 EUR", "commodity", "2020-01-01 x", "2020-01-01")
	case odd >= 97: // very long
		k := intn(t, "where", 0, len(s)-1)
		want := intn(t, "length", 45, 60) - len([]rune(strings.Join(s, ":")))
		s[k] += strings.Repeat("x", max(0, want))
	case odd == 96 && o.Odd: // parts without a name
		s = append(s, "")
	case odd == 95 && o.Odd:
		s = append([]string{s[0], ""}, s[1:]...)
	case odd == 94 && o.Odd:
		s = append([]string{""}, s...)
	}
	return strings.Join(s, ":")
}

func genForm(t *rapid.T, o *Opt) int {
	if o.NoLayout {
		return 0
	}
	return intn(t, "form", 0, 1023)
}

func genLay(t *rapid.T, o *Opt) int {
	if o.NoLayout {
		return 0
	}
	return intn(t, "lay", 0, 719)
}

// genV draws an amount. The amounts of a journal cannot add up to more than what can be stored.
func genV(t *rapid.T, prec int) int64 {
	var n int64
	switch intn(t, "size", 0, 9) {
	case 0:
		n = int64(intn(t, "n", 0, 3)) * unit
	case 1, 2, 3:
		n = int64(intn(t, "n", 1, 99999)) * 1_000_000
	case 4, 5:
		n = int64(intn(t, "n", 1, 9999)) * unit
	case 6:
		n = int64(intn(t, "n", 1, 2_000_000_000)) * 10000
	case 7:
		n = int64(intn(t, "n", 1, 1000)) // the last decimals
	case 8:
		n = rapid.Int64Range(0, 100_000_000_000_000).Draw(t, "n")
	case 9:
		n = rapid.Int64Range(0, 50_000_000_000_000_000).Draw(t, "n")
	}
	if rapid.Bool().Draw(t, "neg") {
		n = -n
	}
	return n
}

func genComments(t *rapid.T, o *Opt, max int) ([]string, bool) {
	if !o.Comments || !chance(t, "hascom", 40) {
		return nil, rapid.Bool().Draw(t, "inline")
	}
	n := intn(t, "ncom", 1, max)
	var out []string
	for i := 0; i < n; i++ {
		c := strings.TrimSpace(pick(t, "com", comWords...))
		if chance(t, "longcom", 2) {
			c += strings.Repeat(" and more", intn(t, "more", 5, 50))
		}
		out = append(out, c)
	}
	return out, rapid.Bool().Draw(t, "inline")
}

func genDesc(t *rapid.T) string {
	n := intn(t, "nwords", 0, 3)
	if chance(t, "longdesc", 3) {
		n = intn(t, "nwords", 10, 60)
	}
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, pick(t, "word", words...))
	}
	return strings.Join(s, " ")
}

// step draws the time between two entries.
func step(t *rapid.T, o *Opt) int64 {
	d := int64(pick(t, "days", 1, 0, 0, 2, 7, 30, 31, 365, 0)) * 86400
	if o.Times {
		d += int64(pick(t, "secs", 0, 0, 1, 60, 3600, 3661, 43200, 86399, -1))
		if d == -1 {
			d = 0
		}
	}
	return d
}

func genStart(t *rapid.T, o *Opt) int64 {
	y := pick(t, "year", 2020, 1999, 2000, 1970, 1950, 2100, 2024, 2023, 2020, 1600, 2250, 8000)
	m := intn(t, "month", 1, 12)
	d := intn(t, "day", 1, 31)
	s := time.Date(y, time.Month(m), d, 12, 0, 0, 0, time.UTC).Unix()
	if o.Times {
		s += int64(pick(t, "time", 0, 0, -43200, 43199, -43199, 43200, 60, -3600, 20*60+34))
	}
	return s
}

// genJournal draws a journal which must load.
func genJournal(t *rapid.T, o Opt) *Journal {
	j := &Journal{}
	used := map[string]bool{}
	nc := pick(t, "ncur", 2, 1, 3, 4)
	if chance(t, "manycur", 3) {
		nc = intn(t, "ncur", 5, 9)
	}
	unnamed := o.Default && chance(t, "unnamed", 15)
	for i := 0; i < nc; i++ {
		if i == 0 && unnamed {
			c := CurDef{}
			genStyle(t, &c)
			j.Curs = append(j.Curs, c)
			continue
		}
		j.Curs = append(j.Curs, genCur(t, used, &o))
	}
	declared := make([]bool, nc)
	now := genStart(t, &o)
	add := func(it Item) {
		if o.Noise && chance(t, "noise", 15) {
			if rapid.Bool().Draw(t, "blank") {
				j.Items = append(j.Items, Item{K: "blank", Lay: intn(t, "lay", 0, 3)})
			} else {
				j.Items = append(j.Items, Item{K: "rem", Text: pick(t, "mark", ";", "# ", "*", "; ") + pick(t, "rem", "text", "account X", "2020-01-01 x", "")})
			}
		}
		if o.Junk && chance(t, "junk", 12) {
			j.Items = append(j.Items, Item{K: "raw", Text: genJunk(t)})
		}
		j.Items = append(j.Items, it)
	}
	// Commodities:
	hasDefault := -1
	for i := range j.Curs {
		if j.Curs[i].Name == "" {
			continue
		}
		declared[i] = !o.Undeclared || chance(t, "declare", 70)
		if !declared[i] {
			undeclaredStyle(&j.Curs[i])
			continue
		}
		it := Item{K: "cur", Cur: i, Lay: genLay(t, &o)}
		it.Com, it.Inline = genComments(t, &o, 3)
		if o.Tags && chance(t, "isin", 30) {
			it.Tag = pick(t, "isinv", "ES0123456789", "x", "US-1", "A B")
		}
		add(it)
	}
	if o.Default {
		if unnamed {
			if rapid.Bool().Draw(t, "declD") {
				add(Item{K: "D", Cur: 0, Lay: genLay(t, &o) / 3 * 3})
				hasDefault = 0
				declared[0] = true
			} else {
				undeclaredStyle(&j.Curs[0])
				hasDefault = 0
			}
		} else if chance(t, "hasD", 50) {
			i := intn(t, "D", 0, nc-1)
			add(Item{K: "D", Cur: i, A: &Amt{C: i, V: pick(t, "dv", int64(unit), 0, 1000*unit, 150_000_000), F: genForm(t, &o)}, Lay: genLay(t, &o)})
			hasDefault = i
		}
	}
	// Accounts:
	na := intn(t, "nacc", 2, 6)
	if chance(t, "manyacc", 3) {
		na = intn(t, "nacc", 7, 24)
	}
	var accs []string
	seen := map[string]bool{}
	implicit := map[string]bool{}
	for len(accs) < na {
		a := genAccName(t, &o)
		if seen[a] {
			a = fmt.Sprintf("%s %d", a, len(accs))
		}
		seen[a] = true
		accs = append(accs, a)
		if o.Undeclared && !chance(t, "declacc", 60) {
			continue
		}
		if implicit[a] {
			continue
		}
		it := Item{K: "acc", Acc: a, Lay: genLay(t, &o)}
		it.Com, it.Inline = genComments(t, &o, 3)
		if o.Tags && chance(t, "code", 30) {
			it.Tag = pick(t, "codev", "123", "ES12 3456", "x-1", "a:b", "name", "short")
			switch it.Tag {
			case "name":
				it.Tag = a
			case "short":
				it.Tag = a[strings.LastIndexByte(a, ':')+1:]
			}
		}
		for x := a; x != ""; {
			implicit[x] = true
			if k := strings.LastIndexByte(x, ':'); k >= 0 {
				x = x[:k]
			} else {
				x = ""
			}
		}
		add(it)
	}
	// Prices and transactions, in order:
	nt := intn(t, "ntx", 1, o.MaxTxn)
	np := 0
	if o.Prices {
		np = intn(t, "nprice", 0, 6)
	}
	if !o.Small && chance(t, "large", 2) {
		nt = intn(t, "ntx", 13, 40)
		if o.Prices {
			np = intn(t, "nprice", 13, 30)
		}
	}
	var last *Item
	ptime := now
	for nt > 0 || np > 0 {
		if np > 0 && (nt == 0 || rapid.Bool().Draw(t, "price?")) {
			np--
			var named []int
			for i, c := range j.Curs {
				if c.Name != "" {
					named = append(named, i)
				}
			}
			if len(named) == 0 || nc < 2 {
				continue
			}
			ci := pick(t, "pcur", named...)
			vi := intn(t, "pval", 0, nc-2)
			if vi >= ci {
				vi++
			}
			ptime += step(t, &o)
			it := Item{K: "P", Cur: ci, A: &Amt{C: vi, V: genRate(t), F: genForm(t, &o)}, T: ptime, DF: genForm(t, &o), Lay: genLay(t, &o)}
			if last != nil && chance(t, "samevalue", 8) { // a repeated price, maybe
				it.Cur = last.Cur
				it.A.C, it.A.V = last.A.C, last.A.V
				if chance(t, "samedate", 50) {
					ptime = last.T
					it.T = ptime
				}
			}
			last = &it
			it.Com, it.Inline = genComments(t, &o, 2)
			add(it)
			continue
		}
		if nt == 0 {
			continue
		}
		nt--
		now += step(t, &o)
		it := Item{K: "tx", T: now, DF: genForm(t, &o), Desc: genDesc(t), Lay: genLay(t, &o)}
		it.Com, it.Inline = genComments(t, &o, 3)
		if chance(t, "reverse", 6) {
			it.Posts = reversed(t, j)
		}
		if it.Posts == nil {
			genPostings(t, &o, j, &it, accs, hasDefault)
		}
		add(it)
	}
	if !o.NoLayout {
		j.CRLF = chance(t, "crlf", 10)
		j.NoNL = chance(t, "nonl", 10)
	}
	if o.Assert || o.Infer {
		addAssertions(t, &o, j)
	}
	return j
}

func genRate(t *rapid.T) int64 {
	switch intn(t, "rate", 0, 3) {
	case 0:
		return int64(intn(t, "r", 1, 200)) * unit / 100
	case 1:
		return int64(intn(t, "r", 1, 1000)) * unit
	case 2:
		return rapid.Int64Range(1, 1_000_000_000).Draw(t, "r")
	}
	return rapid.Int64Range(1, 100_000_000_000_000).Draw(t, "r")
}

func mulQuo(a, b, c int64) *big.Int {
	x := new(big.Int).Mul(big.NewInt(a), big.NewInt(b))
	return x.Quo(x, big.NewInt(c))
}

// genPostings fills a transaction so that it balances.
func genPostings(t *rapid.T, o *Opt, j *Journal, it *Item, accs []string, def int) {
	nc := len(j.Curs)
	n := pick(t, "nposts", 2, 1, 3, 4, 5, 0)
	if chance(t, "manyposts", 2) {
		n = intn(t, "nposts", 6, 30)
	}
	sum := map[int]int64{}
	amt := func(c int, v int64) *Amt {
		f := genForm(t, o)
		if c != def {
			f &^= fNoName
		}
		return &Amt{C: c, V: v, F: f}
	}
	base := func() Posting {
		p := Posting{Acc: pick(t, "acc", accs...), Lay: genLay(t, o)}
		p.Com, p.Inline = genComments(t, o, 2)
		if o.Dated && chance(t, "dated", 20) {
			d := it.T + int64(pick(t, "dd", 1, -1, 0, 3, -5, 30, 400, -400))*86400
			if o.Times {
				d += int64(pick(t, "ds", 0, 1, -1, 3600))
			}
			p.Date = &d
			p.DF = genForm(t, o)
		}
		return p
	}
	cur := intn(t, "cur", 0, nc-1)
	for i := 0; i < n-1; i++ {
		if chance(t, "othercur", 25) {
			cur = intn(t, "cur", 0, nc-1)
		}
		p := base()
		v := genV(t, j.Curs[cur].Prec)
		p.A = amt(cur, v)
		eff, effc := v, cur
		if o.Cost && nc > 1 && chance(t, "cost", 30) {
			cc := intn(t, "costcur", 0, nc-2)
			if cc >= cur {
				cc++
			}
			if chance(t, "samecur", 6) {
				cc = cur
			}
			if rapid.Bool().Draw(t, "rel") {
				// an exact product: four decimals each
				v = v / 10000 * 10000 % (1_000_000 * unit)
				if v == 0 && !o.ZeroCost {
					v = 70000
				}
				p.A.V = v
				r := int64(intn(t, "unitprice", 1, 5_000_000)) * 10000
				if o.ZeroCost && chance(t, "zeroprice", 15) {
					r = 0
				}
				p.Cost = amt(cc, r)
				p.Rel = true
				eff = mulQuo(v, r, unit).Int64()
			} else {
				if v == 0 && !o.ZeroCost {
					v = unit
					p.A.V = v
				}
				// keep the rates in a range that can be stored
				r := genV(t, 2) % (1_000_000 * unit)
				if a := abs(v); a > 100_000_000*unit {
					v %= 1_000_000 * unit
					if v == 0 {
						v = unit
					}
					p.A.V = v
				}
				if r == 0 && !o.ZeroCost {
					r = unit
				}
				if chance(t, "samesign", 80) && (r < 0) != (v < 0) {
					r = -r
				}
				p.Cost = amt(cc, r)
				eff = r
			}
			effc = cc
		}
		sum[effc] += eff
		if sum[effc] == 0 {
			delete(sum, effc)
		}
		it.Posts = append(it.Posts, p)
		if chance(t, "again", 4) { // the same posting again
			sum[effc] += eff
			if sum[effc] == 0 {
				delete(sum, effc)
			}
			it.Posts = append(it.Posts, clonePosting(p))
		}
	}
	if n == 0 {
		return
	}
	var left []int
	for c := range sum {
		left = append(left, c)
	}
	sort.Ints(left)
	if o.Exchange && len(left) == 2 && chance(t, "keepexchange", 70) {
		a, b := sum[left[0]], sum[left[1]]
		if o.SameSign || (a < 0) != (b < 0) {
			return // an exchange
		}
	}
	if o.Omit && len(left) <= 1 && chance(t, "omit", 50) {
		p := base()
		if o.Infer && p.Date != nil && *p.Date < it.T {
			// an assertion to be completed in an earlier transaction could depend on it
			p.Date = nil
		}
		k := intn(t, "omitpos", 0, len(it.Posts))
		it.Posts = append(it.Posts[:k:k], append([]Posting{p}, it.Posts[k:]...)...)
		return
	}
	for _, c := range left {
		p := base()
		p.A = amt(c, -sum[c])
		k := intn(t, "pos", 0, len(it.Posts))
		it.Posts = append(it.Posts[:k:k], append([]Posting{p}, it.Posts[k:]...)...)
	}
	if len(left) == 0 && rapid.Bool().Draw(t, "zero") {
		p := base()
		p.A = amt(intn(t, "cur", 0, nc-1), 0)
		it.Posts = append(it.Posts, p)
	}
}

// reversed is an earlier transaction with the opposite amounts, or nothing.
func reversed(t *rapid.T, j *Journal) []Posting {
	var txs []*Item
	for i := range j.Items {
		if j.Items[i].K == "tx" {
			txs = append(txs, &j.Items[i])
		}
	}
	if len(txs) == 0 {
		return nil
	}
	var out []Posting
	for _, p := range txs[intn(t, "reversed", 0, len(txs)-1)].Posts {
		if p.Cost != nil || p.Asr != nil || p.Bad != 0 || p.A != nil && p.A.V == math.MinInt64 {
			return nil
		}
		q := clonePosting(p)
		q.Date, q.Com, q.Inline = nil, nil, false
		if q.A != nil {
			q.A.V = -q.A.V
		}
		out = append(out, q)
	}
	return out
}

func clonePosting(p Posting) Posting {
	q := p
	for _, a := range []**Amt{&q.A, &q.Cost, &q.Asr} {
		if *a != nil {
			b := **a
			*a = &b
		}
	}
	q.Com = append([]string(nil), p.Com...)
	return q
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// allTx visits the transactions of a journal, included ones too.
func allTx(items []Item, f func(it *Item)) {
	for i := range items {
		if items[i].K == "tx" {
			f(&items[i])
		}
		allTx(items[i].Items, f)
	}
}

// addAssertions adds true assertions, and leaves amounts to be inferred from some of them.
func addAssertions(t *rapid.T, o *Opt, j *Journal) {
	l := build(j, "", "j")
	l.compute()
	if l.Err != nil {
		panic(fmt.Sprintf("generator: %v", l.Err))
	}
	n := 0
	idx := map[*MCur]int{}
	// build makes its commodities in the order of j.Curs, so they are found by name
	for i, c := range j.Curs {
		for _, m := range curPtrs(l) {
			if m.Name == c.Name {
				idx[m] = i
			}
		}
	}
	allTx(j.Items, func(it *Item) {
		mt := l.Txns[n]
		n++
		for k := range it.Posts {
			p, mp := &it.Posts[k], mt.Posts[k]
			if !chance(t, "assert", 35) {
				continue
			}
			if p.A == nil {
				continue
			}
			ci := p.A.C
			if chance(t, "asrother", 20) {
				ci = intn(t, "asrcur", 0, len(j.Curs)-1)
				if j.Curs[ci].Name == "" {
					ci = p.A.C
				}
			}
			v := int64(0)
			for c, x := range mp.Bal {
				if idx[c] == ci {
					v = x.Int64()
				}
			}
			p.Asr = &Amt{C: ci, V: v, F: genForm(t, o) &^ fNoName}
			if o.Infer && p.Cost == nil && p.Date == nil && ci == p.A.C && chance(t, "infer", 50) {
				clash := false
				for q := range it.Posts {
					if it.Posts[q].A == nil && it.Posts[q].Acc == p.Acc && it.Posts[q].Asr == nil {
						clash = true
					}
				}
				if !clash && j.Curs[ci].Name != "" {
					p.A = nil
				}
			}
		}
	})
}

// curPtrs returns all the commodities in use.
func curPtrs(l *MLedger) []*MCur {
	m := map[*MCur]bool{}
	for _, c := range l.Curs {
		m[c] = true
	}
	for _, t := range l.Txns {
		for _, p := range t.Posts {
			if p.Val.C != nil {
				m[p.Val.C] = true
			}
		}
	}
	if l.Default != nil {
		m[l.Default] = true
	}
	var out []*MCur
	for c := range m {
		out = append(out, c)
	}
	return out
}

func genJunk(t *rapid.T) string {
	return pick(t, "junkline", "foo", "bucket Assets", "2020-13-01 x", "2020-1-1 x", "~ monthly", "= expr", "alias a=b", "P 2020-99-01 X 1 Y", "p 2020-01-01",
		"Account x", "202-01-01", "-", "€", "year 2020", "commodit", "accounts x", "tag x", "apply account z", "!", "20200101 x", "include /nonexistent/file", "commodity")
}
