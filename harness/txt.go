package main

// txtdb directories: generator, layout and reference model.

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	"pgregory.net/rapid"
)

type TAcc struct {
	ID     int
	Name   string
	Code   string
	Parent int    // index in Accs, or -1
	PText  string // what is written when there is no parent
	Bad    string `json:",omitempty"` // a malformed line written before
}

type TMove struct {
	T     int64
	Short bool // only the date is written
	Desc  string
	Acc   int   // index
	V     int64 // cents
	Bal   *int64
	Asr   bool   `json:",omitempty"` // only a balance
	Plus  bool   `json:",omitempty"` // sign in the balance
	Bad   string `json:",omitempty"` // a malformed line written before
	Gap   bool   `json:",omitempty"` // a line without value nor balance before
}

type TxtDB struct {
	Accs   []TAcc
	Moves  []TMove
	NoTx   bool   `json:",omitempty"` // there is no file of transactions
	AccEnd string `json:",omitempty"`
}

type TOpt struct {
	MaxTxn  int
	Bad     bool // malformed lines
	Dated   bool // movements of one transaction with different dates
	Asserts bool
	Small   bool // never a long one
	Simple  bool // what a journal can say too
	Back    bool // movements not in order (without assertions)
}

func (d *TxtDB) fullName(i int) string {
	a := d.Accs[i]
	if a.Parent >= 0 {
		return d.fullName(a.Parent) + ":" + a.Name
	}
	return a.Name
}

func cents(v int64) string {
	s := "+"
	if v < 0 {
		s = "-"
		v = -v
	}
	return fmt.Sprintf("%s%d.%02d", s, v/100, v%100)
}

func genTxtDB(t *rapid.T, o *TOpt) *TxtDB {
	d := &TxtDB{}
	ids := map[int]bool{}
	names := map[string]bool{}
	naccs, ntx := intn(t, "naccs", 2, 7), intn(t, "ntx", 0, o.MaxTxn)
	if !o.Small && chance(t, "large", 3) {
		naccs = intn(t, "naccs", 8, 30)
	}
	if !o.Small && chance(t, "large", 3) {
		ntx = intn(t, "ntx", 13, 40)
	}
	for n := naccs; n > 0; n-- {
		a := TAcc{ID: intn(t, "id", 1, 60), Parent: -1}
		if chance(t, "zero", 8) {
			a.ID = 0
		}
		for ids[a.ID] {
			a.ID++
		}
		ids[a.ID] = true
		a.Name = pick(t, "aname", "Bank", "Cash", "Food", "a", "Z z", "Ñandú", "Income", "Expense", "B2", "bank")
		if chance(t, "longname", 6) {
			a.Name = strings.Repeat(pick(t, "longpart", "a", "Ñ", "ab c"), intn(t, "longlen", 10, 70))
		}
		if !o.Simple && chance(t, "noname", 3) {
			a.Name = ""
		}
		if len(d.Accs) > 0 && chance(t, "child", 60) {
			a.Parent = intn(t, "parent", 0, len(d.Accs)-1)
		} else {
			a.PText = pick(t, "noparent", "", "x", "0")
		}
		d.Accs = append(d.Accs, a)
		k := len(d.Accs) - 1
		for names[d.fullName(k)] {
			d.Accs[k].Name += fmt.Sprint(len(d.Accs))
		}
		names[d.fullName(k)] = true
		d.Accs[k].Code = pick(t, "code", "", "123", "ES 12", "x", "name", "id")
		switch d.Accs[k].Code {
		case "name":
			d.Accs[k].Code = d.Accs[k].Name
		case "id":
			d.Accs[k].Code = fmt.Sprint(d.Accs[k].ID)
		}
		if o.Bad && chance(t, "badacc", 15) {
			d.Accs[k].Bad = pick(t, "badline", "foo", "", "x:a:b:Name:c:", "1:2:3", "1:a:b:Name:c:d:e", "# comment", "::::")
		}
	}
	now := time.Date(pick(t, "year", 2020, 1999, 2024), time.Month(intn(t, "month", 1, 12)), intn(t, "day", 1, 28), 0, 0, 0, 0, time.UTC).Unix()
	if chance(t, "notx", 3) {
		d.NoTx = true
		return d
	}
	gap := false
	bals := map[int]int64{}
	for n := ntx; n > 0; n-- {
		now = now/86400*86400 + int64(pick(t, "days", 1, 0, 0, 2, 30, 365))*86400
		short := chance(t, "short", 50)
		if !short {
			now += int64(intn(t, "hm", 0, 1439)) * 60
		}
		if len(d.Moves) > 0 {
			if o.Back {
				now -= int64(pick(t, "back", 0, 0, 1, 40)) * 86400
				if now/86400 == d.Moves[len(d.Moves)-1].T/86400 && chance(t, "sameday", 50) {
					now, short = now/86400*86400, true
				}
			} else if last := d.Moves[len(d.Moves)-1].T; now < last {
				now = last
				short = now%86400 == 0 && short
			}
		}
		desc := pick(t, "desc", "shop", "", "two words", "a;b", "ñ", "x = 1", "10 @ 5", "long")
		if o.Simple {
			desc = pick(t, "desc", "shop", "", "two words", "ñ", "x = 1", "10 @ 5", "long")
		}
		if desc == "long" {
			desc = strings.TrimSpace(strings.Repeat(pick(t, "longword", "word ", "ñ", "abcdefghij", "= @ "), intn(t, "longn", 5, 60)))
		}
		if o.Asserts && chance(t, "asr", 15) {
			a := intn(t, "acc", 0, len(d.Accs)-1)
			b := bals[a]
			d.Moves = append(d.Moves, TMove{T: now, Short: short, Desc: desc, Acc: a, Bal: &b, Asr: true, Plus: rapid.Bool().Draw(t, "plus")})
			continue
		}
		k := pick(t, "nmoves", 2, 2, 3, 4)
		if chance(t, "zero", 5) {
			k = 1
		}
		var sum int64
		first := len(d.Moves)
		at := now
		for i := 0; i < k; i++ {
			m := TMove{T: at, Short: short, Desc: desc, Acc: intn(t, "acc", 0, len(d.Accs)-1)}
			if i == k-1 {
				m.V = -sum
			} else {
				switch intn(t, "size", 0, 3) {
				case 0:
					m.V = int64(intn(t, "v", 1, 100))
				case 1:
					m.V = int64(intn(t, "v", 1, 1000)) * 100
				case 2:
					m.V = int64(intn(t, "v", 1, 1_000_000))
				case 3:
					m.V = rapid.Int64Range(1, 400_000_000_000).Draw(t, "v") // 4 000 million
				}
				if rapid.Bool().Draw(t, "neg") {
					m.V = -m.V
				}
				if sum+m.V == 0 {
					m.V++
					if sum+m.V == 0 || m.V == 0 {
						m.V += 2
					}
				}
				if sum+m.V == 0 {
					m.V++
				}
			}
			sum += m.V
			if o.Dated && i > 0 && chance(t, "ownDate", 25) {
				m.T = now + int64(pick(t, "dd", 1, 3, 30, 0, 0))*86400
				if !short {
					m.T += int64(intn(t, "dmin", 0, 600)) * 60
				}
				if o.Back {
					m.T -= int64(pick(t, "dback", 0, 2, 9)) * 86400
				} else if m.T < at {
					m.T = at
				}
				at = m.T
			}
			d.Moves = append(d.Moves, m)
		}
		for i := first; i < len(d.Moves); i++ {
			m := &d.Moves[i]
			bals[m.Acc] += m.V
			if chance(t, "withbal", 30) {
				b := bals[m.Acc]
				m.Bal = &b
				m.Plus = rapid.Bool().Draw(t, "plus")
			}
			if o.Bad && chance(t, "bad", 12) {
				m.Bad = d.badMove(t, m, i == first)
			}
			if gap {
				m.Gap = true
				gap = false
			}
		}
		if at > now {
			now = at
		}
		gap = o.Bad && chance(t, "gap", 5)
	}
	return d
}

// badMove makes a malformed line to be written before that movement.
func (d *TxtDB) badMove(t *rapid.T, m *TMove, start bool) string {
	id := d.Accs[m.Acc].ID
	unknown := pick(t, "unknown", 999, 0, -1, intn(t, "unknownid", 1, 60))
	for again := true; again; {
		again = false
		for _, a := range d.Accs {
			if a.ID == unknown {
				unknown++
				again = true
			}
		}
	}
	date := time.Unix(m.T, 0).UTC().Format("2006-01-02 15.04")
	if start && chance(t, "badbal", 20) {
		return fmt.Sprintf("1:%s:d:x:%d::%s", date, id, pick(t, "badbalance", "abc", "1e30", "-", "NaN", "1,00"))
	}
	return pick(t, "badline", "", "foo", "1:2:3", "# x", ":::::::", "1:2020-13-01:x:y:"+fmt.Sprint(id)+":+1.00:",
		fmt.Sprintf("1:%s:d:x:%d:+5.00:", date, unknown), "1:"+date+":d:x:abc:+5.00:", "1:"+date+":d:x:"+fmt.Sprint(id)+":5.00:", "1:"+date+":d:x:"+fmt.Sprint(id)+":+abc:",
		"1:"+date+":d:x:"+fmt.Sprint(id)+":+1e30:", "1:"+date+":d:x:"+fmt.Sprint(id)+":+NaN:", "1:"+date+":d:x:"+fmt.Sprint(id)+":+1.00::9")
}

// files lays the directory out.
func (d *TxtDB) files(dir string) map[string]string {
	var a, x strings.Builder
	zero := false
	for _, ac := range d.Accs {
		zero = zero || ac.ID == 0
	}
	for _, ac := range d.Accs {
		if ac.Bad != "" {
			a.WriteString(ac.Bad + "\n")
		}
		p := ac.PText
		if ac.Parent >= 0 {
			p = fmt.Sprint(d.Accs[ac.Parent].ID)
		} else if p == "0" && zero {
			p = "" // there is an account with that number
		}
		// the second and third fields mean nothing
		fmt.Fprintf(&a, "%d:%s:%s:%s:%s:%s\n", ac.ID, pick2(ac.ID+len(d.Accs), "x", "", "EUR", "7", "A long name"), pick2(ac.ID+len(d.Moves), "y", "", "0", "USD"), ac.Name, ac.Code, p)
	}
	for i, m := range d.Moves {
		first, fourth := pick2(len(d.Moves)+len(d.Accs), fmt.Sprint(i), "1", "", fmt.Sprint(99-i), "x"), pick2(len(d.Accs)+i, "c", "", "note", "3")
		f := "2006-01-02 15.04"
		if m.Short {
			f = "2006-01-02"
		}
		date := time.Unix(m.T, 0).UTC().Format(f)
		if m.Gap {
			fmt.Fprintf(&x, "%s:%s:%s:%s:%d::\n", first, date, "gap", fourth, d.Accs[m.Acc].ID)
		}
		if m.Bad != "" {
			x.WriteString(m.Bad + "\n")
		}
		v, b := "", ""
		if !m.Asr {
			v = cents(m.V)
		}
		if m.Bal != nil {
			b = cents(*m.Bal)
			if !m.Plus {
				b = strings.TrimPrefix(b, "+")
			}
		}
		fmt.Fprintf(&x, "%s:%s:%s:%s:%d:%s:%s\n", first, date, m.Desc, fourth, d.Accs[m.Acc].ID, v, b)
	}
	out := map[string]string{dir + "/accounts": a.String()}
	if !d.NoTx {
		out[dir+"/transactions"] = x.String()
	}
	return out
}

var txtReport = regexp.MustCompile(`line (\d+)\b`)

// misreported says what is wrong with the messages printed while loading: every
// movement which is malformed or earlier than the one before is reported
// with the number of its line, and nothing else is.
func (d *TxtDB) misreported(msg string, tail bool) string {
	got := map[int]bool{}
	rest := ""
	for _, l := range strings.Split(msg, "\n") {
		if x := txtReport.FindStringSubmatch(l); x != nil {
			n, _ := strconv.Atoi(x[1])
			got[n] = true
		} else {
			rest += l
		}
	}
	line := 0
	prev, first := int64(math.MinInt64), true
	var sum int64
	for _, m := range d.Moves {
		from := line + 1
		if m.Gap {
			line++
		}
		bad := 0
		if m.Bad != "" {
			line++
			if f := strings.Split(m.Bad, ":"); len(f) == 7 {
				bad = line
				if !got[line] {
					return fmt.Sprintf("line %d of the transactions is malformed, and it is not reported", line)
				}
			} else {
				bad = line // whether the others are is not specified
			}
		}
		line++
		some := false
		for k := from; k <= line; k++ {
			some = some || got[k] && k != bad
		}
		switch {
		case m.T < prev:
			if !some && !(bad > 0 && got[bad]) {
				return fmt.Sprintf("line %d of the transactions is out of order, and it is not reported", line)
			}
		case !first && m.T != prev:
			// a date of its own
			if !some && bad == 0 {
				return fmt.Sprintf("line %d of the transactions has not the date of the line before, in the same transaction, and it is not reported", line)
			}
		default:
			if some {
				return fmt.Sprintf("lines %d to %d of the transactions are right, and they are reported", from, line)
			}
		}
		prev = m.T
		sum += m.V
		if m.Asr {
			sum -= m.V
		}
		first = sum == 0
	}
	if tail && rest == "" {
		return "the last transaction is not complete, and that is not reported"
	}
	if !tail && rest != "" {
		return fmt.Sprintf("there is nothing to report: %q", rest)
	}
	return ""
}

type tsplit struct {
	acc int
	v   int64 // times unit
	t   int64
	asr bool
	bal int64
}

type ttxn struct {
	t      int64
	desc   string
	splits []tsplit
}

type tmodel struct {
	txns []ttxn
}

// expected groups the movements in transactions.
func (d *TxtDB) expected() *tmodel {
	m := &tmodel{}
	var cur *ttxn
	var sum int64
	for _, x := range d.Moves {
		if cur == nil {
			cur = &ttxn{t: x.T, desc: x.Desc}
		}
		s := tsplit{acc: x.Acc, v: x.V * 1_000_000, t: x.T}
		if x.Asr {
			s.v = 0
			s.asr = true
			s.bal = *x.Bal * 1_000_000
		}
		cur.splits = append(cur.splits, s)
		sum += x.V
		if sum == 0 {
			m.txns = append(m.txns, *cur)
			cur = nil
		}
	}
	sort.SliceStable(m.txns, func(i, j int) bool { return m.txns[i].t < m.txns[j].t })
	return m
}

// byName returns the accounts sorted by name.
func (d *TxtDB) byName() []int {
	order := make([]int, len(d.Accs))
	for i := range order {
		order[i] = i
	}
	sort.Slice(order, func(i, j int) bool { return d.fullName(order[i]) < d.fullName(order[j]) })
	return order
}

// order returns the accounts depth first.
func (d *TxtDB) order() []int {
	var out []int
	var dfs func(parent int)
	dfs = func(parent int) {
		for _, i := range d.byName() {
			if d.Accs[i].Parent == parent {
				out = append(out, i)
				dfs(i)
			}
		}
	}
	dfs(-1)
	return out
}

// lines describes the expected ledger.
func (d *TxtDB) lines(ids bool) []string {
	var out []string
	order := d.byName()
	// depth first, siblings in that order
	var dfs func(parent int)
	m := d.expected()
	dfs = func(parent int) {
		for _, i := range order {
			if d.Accs[i].Parent != parent {
				continue
			}
			a := d.Accs[i]
			var ch []string
			for _, k := range order {
				if d.Accs[k].Parent == i {
					ch = append(ch, d.fullName(k))
				}
			}
			lvl := strings.Count(d.fullName(i), ":")
			par := "-"
			if a.Parent >= 0 {
				par = d.fullName(a.Parent)
			}
			id := ""
			if ids {
				id = fmt.Sprintf(" id=id:%d", a.ID)
			}
			out = append(out, fmt.Sprintf("account %s%s name=%q level=%d parent=%s children=%s code=%q", d.fullName(i), id, a.Name, lvl, par, quote(ch), a.Code))
			type ent struct {
				s   tsplit
				pos string
			}
			var es []ent
			for n, t := range m.txns {
				for k, s := range t.splits {
					if s.acc == i {
						es = append(es, ent{s, fmt.Sprintf("t%d.%d", n, k)})
					}
				}
			}
			sort.SliceStable(es, func(x, y int) bool { return es[x].s.t < es[y].s.t })
			b := new(big.Int)
			for _, e := range es {
				b.Add(b, big.NewInt(e.s.v))
				bs := "{}"
				if b.Sign() != 0 {
					bs = fmt.Sprintf("{%s|}", b)
				}
				v := "0"
				if e.s.v != 0 {
					v = fmt.Sprintf("%d|", e.s.v)
				}
				out = append(out, fmt.Sprintf("  split %s %s %s -> %s", e.pos, mmoment(e.s.t), v, bs))
			}
			dfs(i)
		}
	}
	dfs(-1)
	for n, t := range m.txns {
		out = append(out, fmt.Sprintf("tx %d %s %q", n, mmoment(t.t), t.desc))
		for _, s := range t.splits {
			v := "0"
			if s.v != 0 {
				v = fmt.Sprintf("%d|", s.v)
			}
			x := fmt.Sprintf("  posting %s %s %s", d.fullName(s.acc), mmoment(s.t), v)
			if s.asr {
				x += fmt.Sprintf(" assert %d|", s.bal)
			}
			out = append(out, x)
		}
	}
	return out
}

// txtLines describes a loaded ledger in the same way.
func txtLines(l *accounting.Ledger, ids bool) []string {
	d := dump(l, Parts{IDs: ids, Tree: true, Entries: true, Running: true})
	var out []string
	for _, s := range d {
		if !strings.HasPrefix(s, "account ") && !strings.HasPrefix(s, "  split ") {
			break
		}
		out = append(out, s)
	}
	for n, t := range l.Transactions {
		out = append(out, fmt.Sprintf("tx %d %s %q", n, moment(t.Time), t.Description))
		for _, s := range realSplits(t) {
			x := fmt.Sprintf("  posting %s %s %s", s.Account.FullName(), moment(*s.Time), val(s.Value))
			if v, ok := l.Assertions[s]; ok {
				x += fmt.Sprintf(" assert %d|%s", v.Amount, curName(v.Currency))
			}
			out = append(out, x)
		}
	}
	return out
}

// showsCents returns what is wrong with the way the amounts of the ledger are
// shown, which is always with two decimals and without a name.
func showsCents(l *accounting.Ledger) string {
	text := func(v accounting.Value) string {
		n := big.NewInt(v.Amount)
		sign := ""
		if n.Sign() < 0 {
			sign = "-"
		}
		n.Abs(n).Div(n, big.NewInt(unit/100))
		i, d := new(big.Int).DivMod(n, big.NewInt(100), new(big.Int))
		return fmt.Sprintf("%s%d.%02d", sign, i, d)
	}
	for _, a := range l.Accounts {
		for _, s := range a.Splits {
			if s.Value.String() != text(s.Value) {
				return fmt.Sprintf("%s shows %d as %q", a.FullName(), s.Value.Amount, s.Value)
			}
			want := "0"
			if len(s.Balance) == 1 {
				want = text(s.Balance[0])
			}
			if len(s.Balance) < 2 && s.Balance.String() != want {
				return fmt.Sprintf("%s shows its balance %s as %q", a.FullName(), bal(s.Balance), s.Balance)
			}
		}
	}
	return ""
}

func (d *TxtDB) text() string {
	f := d.files("")
	return "--- accounts\n" + f["/accounts"] + "--- transactions\n" + f["/transactions"]
}

// openTxt loads a directory which must load.
func (c *Ctx) openTxt(d *TxtDB, r *Result) *accounting.Ledger {
	c.write(d.files(c.root + "/txt"))
	c.clearOutput()
	l, err := c.openURL("txtdb:" + c.whole + "/txt")
	r.Sample = d.text()
	if err != nil {
		r.Fail = fmt.Sprintf("a valid directory is rejected: %v\n%s%s", err, c.stderr(), d.text())
	}
	return l
}
