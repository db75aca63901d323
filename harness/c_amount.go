package main

// C07, C08 and C13: amounts as text, and balances.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"github.com/cespedes/accounting"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- reading amounts: reference

// reading is one way to understand a number.
type reading struct {
	T, D string
	V    *big.Int // times unit
}

const puncts = ".,'_"

// readNumber returns all the readings of a number, given the signs known ("" if not known).
func readNumber(num, T, D string) []reading {
	var out []reading
	body := strings.TrimLeft(num, "+-")
	if len(num)-len(body) > 1 {
		return nil
	}
	ts, ds := []string{T}, []string{D}
	if T == "" {
		ts = []string{""}
		for _, p := range puncts {
			ts = append(ts, string(p))
		}
	}
	if D == "" {
		ds = ts
	}
	for _, t := range ts {
		for _, d := range ds {
			if t == d && t != "" {
				continue
			}
			ip, dec := body, ""
			hasD := false
			if d != "" {
				if i := strings.Index(body, d); i >= 0 {
					ip, dec, hasD = body[:i], body[i+1:], true
				}
			}
			if hasD && (dec == "" || len(dec) > 8 || strings.Trim(dec, "0123456789") != "") {
				continue
			}
			if t != "" && strings.Contains(ip, t) {
				g := strings.Split(ip, t)
				ok := len(g[0]) >= 1 && len(g[0]) <= 3
				for _, x := range g[1:] {
					ok = ok && len(x) == 3
				}
				if !ok {
					continue
				}
				ip = strings.Join(g, "")
			} else if t != "" && T == "" {
				continue // the same as without a thousands sign
			}
			if d != "" && D == "" && !hasD {
				continue
			}
			if ip == "" || strings.Trim(ip, "0123456789") != "" {
				continue
			}
			v, ok := new(big.Int).SetString(ip+dec+strings.Repeat("0", 8-len(dec)), 10)
			if !ok {
				continue
			}
			if strings.HasPrefix(num, "-") {
				v.Neg(v)
			}
			out = append(out, reading{t, d, v})
		}
	}
	return out
}

// ---------------------------------------------------------------- C07

type c07lit struct {
	Num    string
	Before bool
	Sp     string
	Pos    int // 0 amount, 1 total cost, 2 assertion, 3 price, 4 commodity, 5 default commodity (4 and 5 just wrong ones)
}

type c07case struct {
	Mode string // declared, known (an integer was seen), fresh, unnamed, named (known by its name only), default (the same, and left out)
	Cur  CurDef
	Lits []c07lit
}

var digits = regexp.MustCompile(`^[-+]*[0-9]`)

func genNum(t *rapid.T, T, D string) string {
	v := rapid.Int64Range(-1<<62, 1<<62).Draw(t, "v")
	v >>= uint(intn(t, "shift", 0, 62))
	if chance(t, "edge", 8) {
		v = pick(t, "e", int64(1<<63-1), -(1<<63 - 1), 0, 1, -1, unit, 999999999, 99999*unit)
	}
	if T == "" {
		T = pick(t, "T", "", ",", ".", "'", "_")
	}
	if D == "" {
		D = pick(t, "D", ".", ",", "'", "_")
	}
	if chance(t, "round", 50) {
		v = v / 1000000 * 1000000
	}
	u := new(big.Int).Abs(big.NewInt(v)).String()
	if len(u) < 9 {
		u = strings.Repeat("0", 9-len(u)) + u
	}
	ip, dec := u[:len(u)-8], strings.TrimRight(u[len(u)-8:], "0")
	for n := intn(t, "pad", 0, 3); n > 0 && len(dec) < 8; n-- {
		dec += "0"
	}
	if T != "" && chance(t, "group", 60) {
		var g []string
		for len(ip) > 3 {
			g = append([]string{ip[len(ip)-3:]}, g...)
			ip = ip[:len(ip)-3]
		}
		ip = strings.Join(append([]string{ip}, g...), T)
	} else if chance(t, "zeros", 10) {
		ip = "00" + ip
	}
	s := ip
	if dec != "" {
		s += D + dec
	}
	switch {
	case v < 0:
		s = "-" + s
	case chance(t, "plus", 10):
		s = "+" + s
	}
	const alphabet = "0123456789.,'_-+"
	if chance(t, "mutate", 45) {
		for n := intn(t, "nmut", 1, 2); n > 0; n-- {
			i := intn(t, "at", 0, len(s))
			c := string(alphabet[intn(t, "c", 0, len(alphabet)-1)])
			switch intn(t, "how", 0, 4) {
			case 0, 1:
				s = s[:i] + c + s[i:]
			case 2:
				if i < len(s) {
					s = s[:i] + s[i+1:]
				}
			case 3:
				if i < len(s) {
					s = s[:i] + c + s[i+1:]
				}
			case 4:
				s += pick(t, "tail", "0", "00", "000", "000000", ".", T+"000", D+"5", D+"123456789", D+"000000000", "0000000000")
			}
		}
	}
	if chance(t, "random", 8) {
		n := intn(t, "len", 1, 14)
		s = ""
		for i := 0; i < n; i++ {
			s += string(alphabet[intn(t, "c", 0, len(alphabet)-1)])
		}
	}
	if s == "" {
		s = "0"
	}
	return s
}

func init() {
	register(&Check{ID: "C07", Quick: 72000, Thorough: 3000000,
		Rule: "a case is a commodity (declared, known from an integer or by its name only, fresh, without name, or the default one) and 1 to 8 numbers for it, about half of them damaged, placed as amount, cost, assertion or price; a reference reader enumerates the meanings each number can have given the signs known so far: exactly one in range means it must be read so, otherwise it must be reported and left out. Non-trivial: some number has a punctuation sign.",
		Gen: func(t *rapid.T) any {
			cs := c07case{Mode: pick(t, "mode", "declared", "known", "fresh", "unnamed", "named", "default")}
			if cs.Mode != "unnamed" {
				cs.Cur = genCur(t, map[string]bool{}, &Opt{})
			} else {
				genStyle(t, &cs.Cur)
			}
			T, D := cs.Cur.T, cs.Cur.D
			if cs.Mode != "declared" {
				T, D = "", ""
			}
			n := intn(t, "n", 1, 8)
			for i := 0; i < n; i++ {
				l := c07lit{Pos: pick(t, "pos", 0, 0, 1, 2, 3, 4, 5)}
				if chance(t, "samestyle", 75) {
					l.Num = genNum(t, cs.Cur.T, cs.Cur.D)
				} else {
					l.Num = genNum(t, T, D)
				}
				l.Before = rapid.Bool().Draw(t, "before")
				l.Sp = pick(t, "sp", "", " ", "", " ", "  ")
				if cs.Cur.Name == "" || cs.Mode == "default" {
					l.Before, l.Sp = false, ""
				} else if !safeName(cs.Cur.Name) && l.Sp == "" {
					l.Sp = " "
				}
				if l.Before && strings.ContainsAny(cs.Cur.Name[len(cs.Cur.Name)-1:], "0123456789.,_'-+") {
					l.Before = false
				}
				cs.Lits = append(cs.Lits, l)
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c07case](raw)
			var r Result
			var sb strings.Builder
			file := c.root + "/main.j"
			line := 0
			emit := func(s string) string {
				sb.WriteString(s + "\n")
				line++
				return fmt.Sprintf("%s:%d", file, line)
			}
			emit("commodity 1.00 Quux")
			T, D := "", ""
			switch cs.Mode {
			case "declared":
				emit("commodity " + declLit(cs.Cur, 0))
				T, D = cs.Cur.T, cs.Cur.D
			case "known":
				emit("commodity " + declLit(CurDef{Name: cs.Cur.Name, Before: cs.Cur.Before, NoSpace: cs.Cur.NoSpace}, 0))
				D = "."
			case "named":
				// known by its name only
				emit("P 2020-01-01 " + cs.Cur.Name + " 1.00 Quux")
			case "default":
				// the same, and its name is left out
				emit("D " + cs.Cur.Name)
			}
			r.Classes = []string{cs.Mode}
			type expect struct {
				id   string
				good bool
				v    int64
				lit  c07lit
				text string
			}
			var exp []expect
			learned := true
			for i, l := range cs.Lits {
				rd := readNumber(l.Num, T, D)
				e := expect{lit: l}
				if len(rd) == 1 && new(big.Int).Abs(rd[0].V).IsInt64() {
					e.good, e.v = true, rd[0].V.Int64()
				}
				e.text = l.Num + l.Sp + cs.Cur.Name
				if cs.Mode == "default" {
					e.text = l.Num
				} else if l.Before {
					e.text = cs.Cur.Name + l.Sp + l.Num
				}
				if strings.ContainsAny(l.Num, puncts) {
					r.NonTrivial = true
				}
				if !e.good && T == "" {
					// what a rejected number teaches about the signs of its commodity is unspecified
					learned = false
				}
				if e.good {
					if rd[0].T != "" {
						T = rd[0].T
					}
					if rd[0].D != "" {
						D = rd[0].D
					}
					if D == "" {
						D = "."
						if T == "." {
							D = ","
						}
					}
					r.Classes = append(r.Classes, "read")
				} else {
					r.Classes = append(r.Classes, "rejected")
				}
				pos := l.Pos
				if e.good && pos >= 4 {
					pos = 0
				}
				if pos == 5 && (l.Before && !digits.MatchString(l.Num[len(l.Num)-1:]) || !l.Before && !digits.MatchString(l.Num)) {
					pos = 4 // it could be a name
				}
				e.lit.Pos = pos
				if pos == 3 {
					e.id = emit("P 2020-01-01 Quux " + e.text)
				} else if pos == 4 {
					e.id = emit("commodity " + e.text)
				} else if pos == 5 {
					e.id = emit("D " + e.text)
				} else {
					emit("2020-01-01 x")
					switch pos {
					case 0:
						e.id = emit(fmt.Sprintf("  A:%d  %s", i, e.text))
					case 1:
						e.id = emit(fmt.Sprintf("  A:%d  1.00 Quux @@ %s", i, e.text))
					case 2:
						e.id = emit(fmt.Sprintf("  A:%d  %s = %s", i, e.text, e.text))
					}
					emit(fmt.Sprintf("  B:%d", i))
				}
				exp = append(exp, e)
				if !learned {
					break
				}
			}
			c.write(map[string]string{file: sb.String()})
			r.Sample = sb.String()
			c.clearOutput()
			l, err := accounting.Open(file)
			diag := c.stderr()
			if err != nil {
				r.Fail = fmt.Sprintf("does not load: %v\n%s%s", err, diag, sb.String())
				return r
			}
			splits := map[string]*accounting.Split{}
			for _, t := range l.Transactions {
				for _, s := range t.Splits {
					splits[idStr(s.ID)] = s
				}
			}
			prices := map[string]*accounting.Price{}
			for _, p := range l.Prices {
				if p.ID != nil {
					prices[idStr(p.ID)] = p
				}
			}
			for _, e := range exp {
				s, p := splits[e.id], prices[e.id]
				if !e.good {
					if s != nil || p != nil {
						r.Fail = fmt.Sprintf("%q must be rejected, and it is in the ledger\n%s", e.text, sb.String())
					} else if !mentions(diag, e.id) {
						r.Fail = fmt.Sprintf("%q is dropped, and nothing is said about %s\n%s%s", e.text, e.id, diag, sb.String())
					}
				} else {
					var v accounting.Value
					switch {
					case e.lit.Pos == 3 && p != nil:
						v = p.Value
					case e.lit.Pos == 0 && s != nil:
						v = s.Value
					case e.lit.Pos == 1 && s != nil:
						v = l.SplitPrices[s]
					case e.lit.Pos == 2 && s != nil:
						v = l.Assertions[s]
						if v != s.Value {
							r.Fail = fmt.Sprintf("%q is read as %s and as %s", e.text, val(v), val(s.Value))
							return r
						}
					default:
						r.Fail = fmt.Sprintf("%q is rejected\n%s%s", e.text, diag, sb.String())
						return r
					}
					if v.Amount != e.v || curName(v.Currency) != cs.Cur.Name {
						r.Fail = fmt.Sprintf("%q is read as %d|%s instead of %d\n%s", e.text, v.Amount, curName(v.Currency), e.v, sb.String())
					}
				}
				if r.Fail != "" {
					return r
				}
			}
			return r
		}})
}

// ---------------------------------------------------------------- C08

type c08case struct {
	Cur   CurDef
	Nil   bool // no commodity
	Read  bool // print, and read back
	Vals  []int64
	Other CurDef
}

// refPrint is what printing a value must give.
func refPrint(v int64, c CurDef, full, units bool) string {
	u := new(big.Int).Abs(big.NewInt(v)).String()
	if len(u) < 9 {
		u = strings.Repeat("0", 9-len(u)) + u
	}
	ip, dec := u[:len(u)-8], u[len(u)-8:]
	n := c.Prec
	if full {
		if k := len(strings.TrimRight(dec, "0")); k > n {
			n = k
		}
	}
	var g []string
	for len(ip) > 3 {
		g = append([]string{ip[len(ip)-3:]}, g...)
		ip = ip[:len(ip)-3]
	}
	s := strings.Join(append([]string{ip}, g...), c.T)
	if n > 0 {
		d := c.D
		if d == "" {
			d = "."
		}
		s += d + dec[:n]
	}
	if v < 0 {
		s = "-" + s
	}
	if !units {
		return s
	}
	sp := " "
	if c.NoSpace {
		sp = ""
	}
	if c.Before {
		return c.Name + sp + s
	}
	if c.Name == "" {
		return s
	}
	return s + sp + c.Name
}

func toCur(c CurDef) *accounting.Currency {
	return &accounting.Currency{Name: c.Name, PrintBefore: c.Before, WithoutSpace: c.NoSpace, Thousand: c.T, Decimal: c.D, Precision: c.Prec}
}

func init() {
	register(&Check{ID: "C08", Quick: 72000, Thorough: 3000000,
		Rule: "a case is a commodity style and 1 to 8 amounts of any size; the four forms, and balances of two of them, are compared with a reference printer, and in half of the cases the full forms are written in a journal which declares the commodity, and read back. Non-trivial: some amount has four digits or more before the decimals, or decimals beyond the precision.",
		Gen: func(t *rapid.T) any {
			cs := c08case{Read: rapid.Bool().Draw(t, "read")}
			used := map[string]bool{}
			cs.Cur = genCur(t, used, &Opt{})
			cs.Other = genCur(t, used, &Opt{})
			if !cs.Read {
				if chance(t, "freestyle", 50) {
					cs.Cur.T = pick(t, "T", "", " ", ",", ".", "'", "·", "_")
					cs.Cur.D = pick(t, "D", "", ",", ".", "'", "·")
					cs.Cur.Prec = intn(t, "prec", 0, 8)
				}
				cs.Nil = chance(t, "nil", 5)
			}
			for n := intn(t, "n", 1, 8); n > 0; n-- {
				v := rapid.Int64().Draw(t, "v") >> uint(intn(t, "shift", 0, 62))
				if chance(t, "edge", 15) {
					v = pick(t, "e", int64(-1<<63), 1<<63-1, 0, 1, -1, unit, unit-1, -unit, 1000*unit, 999*unit, 999_999*unit+99_999_999, -1000*unit, 1_000_000*unit)
				}
				if chance(t, "round", 30) {
					p := pick(t, "to", int64(10), 1000, 1_000_000, unit, 1000*unit)
					v = v / p * p
				}
				if cs.Read && v == -1<<63 {
					v++
				}
				cs.Vals = append(cs.Vals, v)
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c08case](raw)
			r := Result{}
			cu, cd := toCur(cs.Cur), cs.Cur
			if cs.Nil {
				cu, cd = nil, CurDef{}
				cd.NoSpace = true
			}
			before := accounting.Currency{}
			if cu != nil {
				before = *cu
			}
			var printed []string
			for _, v := range cs.Vals {
				x := accounting.Value{Amount: v, Currency: cu}
				for k := 0; k < 4; k++ {
					full, units := k&1 != 0, k&2 != 0
					want, got := refPrint(v, cd, full, units), x.GetString(full, units)
					if want != got {
						r.Fail = fmt.Sprintf("%d with full=%v units=%v is printed as %q, expected %q (%+v)", v, full, units, got, want, cs.Cur)
						return r
					}
				}
				if x.String() != refPrint(v, cd, false, true) {
					r.Fail = fmt.Sprintf("String of %d is %q (%+v)", v, x.String(), cs.Cur)
					return r
				}
				if x.FullString() != refPrint(v, cd, true, true) {
					r.Fail = fmt.Sprintf("FullString of %d is %q (%+v)", v, x.FullString(), cs.Cur)
					return r
				}
				printed = append(printed, x.FullString())
				if v/unit >= 1000 || v/unit <= -1000 || refPrint(v, cd, true, true) != refPrint(v, cd, false, true) {
					r.NonTrivial = true
				}
			}
			if cu != nil && *cu != before {
				r.Fail = "printing changes the commodity"
				return r
			}
			if got := (accounting.Balance)(nil).String(); got != "0" {
				r.Fail = fmt.Sprintf("an empty balance is printed as %q", got)
				return r
			}
			b := accounting.Balance{{Amount: cs.Vals[0], Currency: cu}}
			want := refPrint(cs.Vals[0], cd, false, true)
			if got := b.String(); got != want {
				r.Fail = fmt.Sprintf("a balance is printed as %q, expected %q", got, want)
				return r
			}
			if len(cs.Vals) > 1 {
				b = append(b, accounting.Value{Amount: cs.Vals[1], Currency: toCur(cs.Other)})
				want += ", " + refPrint(cs.Vals[1], cs.Other, false, true)
				if got := b.String(); got != want {
					r.Fail = fmt.Sprintf("a balance is printed as %q, expected %q", got, want)
					return r
				}
			}
			r.Sample = fmt.Sprintf("%+v: %v", cs.Cur, printed)
			if !cs.Read {
				r.Classes = []string{"printed"}
				return r
			}
			r.Classes = []string{"read back"}
			var sb strings.Builder
			sb.WriteString("commodity " + declLit(cs.Cur, 0) + "\n")
			for i, s := range printed {
				fmt.Fprintf(&sb, "2020-01-01 x\n  A:%d  %s\n  B:%d\n", i, s, i)
			}
			file := c.root + "/main.j"
			c.write(map[string]string{file: sb.String()})
			c.clearOutput()
			l, err := accounting.Open(file)
			if err != nil {
				r.Fail = fmt.Sprintf("printed amounts do not load: %v\n%s%s", err, c.stderr(), sb.String())
				return r
			}
			for i, v := range cs.Vals {
				t := l.Transactions[i]
				if len(t.Splits) != 2 || t.Splits[0].Value.Amount != v || curName(t.Splits[0].Value.Currency) != cs.Cur.Name {
					r.Fail = fmt.Sprintf("%q, printed for %d, is not read back\n%s%s", printed[i], v, c.stderr(), sb.String())
					return r
				}
				if got := t.Splits[0].Value.FullString(); got != printed[i] {
					r.Fail = fmt.Sprintf("%q is read, and printed as %q", printed[i], got)
					return r
				}
			}
			return r
		}})
}

// ---------------------------------------------------------------- C13

type c13op struct {
	Op   string
	A, B int // slots
	C    int // commodity
	V    int64
}

func init() {
	register(&Check{ID: "C13", Quick: 72000, Thorough: 3000000,
		Rule: "a case is a sequence of up to 40 operations (Add, Sub, AddBalance, SubBalance, Dup, add what cancels a commodity) on four balances and five commodities, also a balance with itself; after each one, all the balances are compared with maps of exact totals. Non-trivial: some total returns to zero, or a duplicate is changed.",
		Gen: func(t *rapid.T) any {
			var ops []c13op
			for n := intn(t, "n", 1, 40); n > 0; n-- {
				o := c13op{Op: pick(t, "op", "add", "add", "sub", "addb", "subb", "dup", "cancel"), A: intn(t, "a", 0, 3), B: intn(t, "b", 0, 3), C: intn(t, "c", 0, 4)}
				o.V = int64(intn(t, "v", -3, 3)) * pick(t, "scale", int64(1), unit, 1<<50)
				ops = append(ops, o)
			}
			return ops
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			ops := decode[[]c13op](raw)
			r := Result{}
			curs := []*accounting.Currency{{Name: "A"}, {Name: "B"}, {Name: "C"}, {Name: "A"}, nil} // two with one name are still two
			var b [4]accounting.Balance
			var m [4]map[int]*big.Int
			var dup [4]bool
			for i := range m {
				m[i] = map[int]*big.Int{}
			}
			get := func(i, c int) *big.Int {
				if m[i][c] == nil {
					return new(big.Int)
				}
				return m[i][c]
			}
			set := func(i, c int, x *big.Int) bool {
				if x.Sign() == 0 {
					if m[i][c] != nil {
						r.NonTrivial = true
						r.Classes = append(r.Classes, "cancelled")
					}
					delete(m[i], c)
					return true
				}
				m[i][c] = x
				return true
			}
			fits := func(x *big.Int) bool { return new(big.Int).Abs(x).IsInt64() }
			for n, o := range ops {
				v := accounting.Value{Amount: o.V, Currency: curs[o.C]}
				if o.Op == "cancel" {
					x := get(o.A, o.C)
					v.Amount = -x.Int64()
				}
				if dup[o.A] && o.Op != "dup" {
					r.NonTrivial = true
				}
				switch o.Op {
				case "add", "cancel", "sub":
					d := big.NewInt(v.Amount)
					if o.Op == "sub" {
						d.Neg(d)
					}
					x := new(big.Int).Add(get(o.A, o.C), d)
					if !fits(x) {
						continue
					}
					if o.Op == "sub" {
						b[o.A].Sub(v)
					} else {
						b[o.A].Add(v)
					}
					set(o.A, o.C, x)
				case "addb", "subb":
					if o.A == o.B {
						r.Classes = append(r.Classes, "itself")
					}
					next := map[int]*big.Int{}
					ok := true
					for c, y := range m[o.B] {
						x := new(big.Int).Add(get(o.A, c), y)
						if o.Op == "subb" {
							x = new(big.Int).Sub(get(o.A, c), y)
						}
						next[c] = x
						ok = ok && fits(x)
					}
					if !ok {
						continue
					}
					if o.Op == "addb" {
						b[o.A].AddBalance(b[o.B])
					} else {
						b[o.A].SubBalance(b[o.B])
					}
					for c := 0; c < len(curs); c++ {
						if next[c] != nil {
							set(o.A, c, next[c])
						}
					}
				case "dup":
					if o.A == o.B {
						continue
					}
					b[o.B] = b[o.A].Dup()
					m[o.B] = map[int]*big.Int{}
					for c, x := range m[o.A] {
						m[o.B][c] = new(big.Int).Set(x)
					}
					dup[o.A], dup[o.B] = true, true
					r.Classes = append(r.Classes, "dup")
				}
				for i := range b {
					seen := map[int]bool{}
					for _, v := range b[i] {
						k := -1
						for j, c := range curs {
							if c == v.Currency {
								k = j
							}
						}
						if k < 0 || seen[k] || v.Amount == 0 || get(i, k).Cmp(big.NewInt(v.Amount)) != 0 {
							r.Fail = fmt.Sprintf("after operation %d (%+v) balance %d is %s, expected %v\n%+v", n, o, i, bal(b[i]), m[i], ops[:n+1])
							return r
						}
						seen[k] = true
					}
					if len(b[i]) != len(m[i]) {
						r.Fail = fmt.Sprintf("after operation %d (%+v) balance %d is %s, expected %v\n%+v", n, o, i, bal(b[i]), m[i], ops[:n+1])
						return r
					}
				}
			}
			return r
		}})
}
