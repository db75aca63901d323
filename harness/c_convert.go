package main

// C10: conversion between commodities.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	"pgregory.net/rapid"
)

type c10price struct {
	T        int64 // seconds
	From, To int
	V        int64
}

type c10query struct {
	From, To int // -1: nil
	V        int64
	T        int64
	Zone     int `json:",omitempty"` // hours: where it is asked
}

// c10edit changes a price, or drops it, after the queries, which are then repeated.
type c10edit struct {
	At   int
	V    int64
	Drop bool
}

// inZone is an instant as seen in another time zone.
func inZone(t int64, hours int) time.Time {
	if hours == 0 {
		return time.Unix(t, 0).UTC()
	}
	return time.Unix(t, 0).In(time.FixedZone("", hours*3600))
}

type c10case struct {
	N       int
	Prices  []c10price
	Queries []c10query
	Edits   []c10edit `json:",omitempty"`
}

// span is a range of values: what rounding allows.
type span struct{ lo, hi *big.Rat }

func exactSpan(x int64) span { r := new(big.Rat).SetInt64(x); return span{r, r} }

func (s span) widen(n int64) span {
	d := new(big.Rat).SetInt64(n)
	return span{new(big.Rat).Sub(s.lo, d), new(big.Rat).Add(s.hi, d)}
}

// times multiplies two amounts.
func (s span) times(o span) span {
	var x []*big.Rat
	for _, a := range []*big.Rat{s.lo, s.hi} {
		for _, b := range []*big.Rat{o.lo, o.hi} {
			m := new(big.Rat).Mul(a, b)
			x = append(x, m.Quo(m, new(big.Rat).SetInt64(unit)))
		}
	}
	sort.Slice(x, func(i, j int) bool { return x[i].Cmp(x[j]) < 0 })
	return span{x[0], x[3]}
}

func (s span) has(v int64) bool {
	r := new(big.Rat).SetInt64(v)
	return s.lo.Cmp(r) <= 0 && r.Cmp(s.hi) <= 0
}

func (s span) big() bool {
	lim := new(big.Rat).SetInt64(9_000_000_000_000_000_000)
	return s.hi.Cmp(lim) > 0 || s.lo.Cmp(new(big.Rat).Neg(lim)) < 0
}

func (s span) String() string { return "[" + s.lo.FloatString(2) + ", " + s.hi.FloatString(2) + "]" }

type oracle struct {
	prices []c10price
	over   bool // some step does not fit in what can be stored
}

// rates returns the rates that may be used to convert directly at t.
func (o *oracle) rates(from, to int, t int64) []span {
	var prev, next, eq []c10price
	for _, p := range o.prices {
		if p.From != from || p.To != to {
			continue
		}
		switch {
		case p.T == t:
			eq = append(eq, p)
		case p.T < t:
			if len(prev) > 0 && prev[0].T < p.T {
				prev = nil
			}
			if len(prev) == 0 || prev[0].T == p.T {
				prev = append(prev, p)
			}
		default:
			if len(next) > 0 && next[0].T > p.T {
				next = nil
			}
			if len(next) == 0 || next[0].T == p.T {
				next = append(next, p)
			}
		}
	}
	var out []span
	switch {
	case len(eq) > 0:
		for _, p := range eq {
			out = append(out, exactSpan(p.V))
		}
	case len(prev) > 0 && len(next) > 0:
		for _, p := range prev {
			for _, n := range next {
				r := new(big.Rat).SetInt64(n.V)
				r.Sub(r, new(big.Rat).SetInt64(p.V))
				r.Mul(r, big.NewRat(t-p.T, n.T-p.T))
				r.Add(r, new(big.Rat).SetInt64(p.V))
				out = append(out, span{r, r}.widen(1))
			}
		}
	default:
		for _, p := range append(prev, next...) {
			out = append(out, exactSpan(p.V))
		}
	}
	return out
}

func (o *oracle) direct(v span, from, to int, t int64) []span {
	var out []span
	for _, r := range o.rates(from, to, t) {
		x := v.times(r).widen(1)
		if x.big() {
			o.over = true
		}
		out = append(out, x)
	}
	return out
}

// convert returns the acceptable results, and whether following the nearest prices may lead nowhere.
func (o *oracle) convert(v span, from, to int, t int64, tried []int) (res []span, dead bool) {
	if from == to {
		return []span{v}, false
	}
	if d := o.direct(v, from, to, t); len(d) > 0 {
		return d, false
	}
	tried = append(append([]int{}, tried...), from)
	best := int64(-1)
	var via map[int]bool
next:
	for _, p := range o.prices {
		if p.From != from {
			continue
		}
		for _, x := range tried {
			if x == p.To {
				continue next
			}
		}
		d := abs(p.T - t)
		if best < 0 || d < best {
			best, via = d, map[int]bool{}
		}
		if d == best {
			via[p.To] = true
		}
	}
	if len(via) == 0 {
		return nil, true
	}
	var mids []int
	for m := range via {
		mids = append(mids, m)
	}
	sort.Ints(mids)
	for _, m := range mids {
		for _, x := range o.direct(v, from, m, t) {
			r, d := o.convert(x, m, to, t, tried)
			res = append(res, r...)
			dead = dead || d
		}
	}
	return res, dead
}

// anyChain returns the results of every chain of prices (when following the nearest ones leads nowhere).
func (o *oracle) anyChain(v span, from, to int, t int64, tried []int) []span {
	if from == to {
		return []span{v}
	}
	tried = append(append([]int{}, tried...), from)
	seen := map[int]bool{}
	for _, x := range tried {
		seen[x] = true
	}
	var out []span
	for _, p := range o.prices {
		if p.From != from || seen[p.To] {
			continue
		}
		seen[p.To] = true
		for _, x := range o.direct(v, from, p.To, t) {
			out = append(out, o.anyChain(x, p.To, to, t, tried)...)
		}
	}
	return out
}

func genPriceHistory(t *rapid.T, n int, big bool) []c10price {
	var ps []c10price
	now := int64(1577880000) // 2020-01-01 12:00
	sizes := 6
	if big {
		sizes = 7
	}
	for k := intn(t, "nprices", 0, 14); k > 0; k-- {
		p := c10price{From: intn(t, "from", 0, n-1)}
		p.To = intn(t, "to", 0, n-2)
		if p.To >= p.From {
			p.To++
		}
		now += int64(pick(t, "step", 0, 1, 1, 2, 10, 90, 365, 3650)) * 86400
		now += int64(pick(t, "sec", 0, 0, 0, 1, 3600, 47))
		p.T = now
		switch intn(t, "size", 0, sizes) {
		case 7:
			p.V = rapid.Int64Range(1, 20_000_000_000*unit).Draw(t, "v") // more than 53 bits
		case 6:
			p.V = int64(intn(t, "v", 1, 20_000_000)) * unit / 100
		case 0:
			p.V = int64(intn(t, "v", 1, 50)) * unit
		case 1, 2:
			p.V = int64(intn(t, "v", 1, 5000)) * 1_000_000
		case 3:
			p.V = int64(intn(t, "v", 1, 1000))
		case 4:
			p.V = rapid.Int64Range(1, 5_000_000_000).Draw(t, "v")
		case 5:
			p.V = pick(t, "v", int64(unit), 0, -unit, 1, 150_000_000)
		}
		ps = append(ps, p)
	}
	if n > 2 && chance(t, "allways", 30) {
		for _, p := range ps {
			if chance(t, "back", 50) && p.V != 0 {
				q := p
				q.From, q.To = p.To, p.From
				q.V = mulQuo(unit, unit, p.V).Int64() % (50 * unit)
				ps = append(ps, q)
			}
		}
		sort.SliceStable(ps, func(i, j int) bool { return ps[i].T < ps[j].T })
	}
	return ps
}

func genQueryTime(t *rapid.T, ps []c10price) int64 {
	if len(ps) == 0 {
		return 1577880000
	}
	i := intn(t, "near", 0, len(ps)-1)
	x := ps[i].T
	switch intn(t, "where", 0, 4) {
	case 0:
		return x
	case 1:
		return x + int64(pick(t, "d", 1, -1, 86400, -86400, 3600))
	case 2:
		y := ps[intn(t, "other", 0, len(ps)-1)].T
		return (x + y) / 2
	case 3:
		return x + int64(intn(t, "d", -100, 100))*86400/3
	}
	return pick(t, "far", ps[0].T-1e8, ps[len(ps)-1].T+1e8)
}

func init() {
	register(&Check{ID: "C10", Quick: 72000, Thorough: 3000000,
		Rule: "a case is a price list of up to 14 entries (28 with reverse ones) among 2 to 5 commodities, sorted by date, and 1 to 8 conversions at, between, before and after its dates; in some cases prices are then changed or dropped and all is asked again; the oracle follows the price history with exact fractions, widened by the rounding of each step, and the ledger is compared before and after. Non-trivial: some conversion interpolates or goes through another commodity.",
		Gen: func(t *rapid.T) any {
			cs := c10case{N: intn(t, "n", 2, 5)}
			cs.Prices = genPriceHistory(t, cs.N, chance(t, "big", 40))
			for k := intn(t, "nq", 1, 8); k > 0; k-- {
				q := c10query{From: intn(t, "from", 0, cs.N-1), To: intn(t, "to", 0, cs.N-1)}
				if chance(t, "listed", 40) && len(cs.Prices) > 0 {
					p := pick(t, "p", cs.Prices...)
					q.From, q.To = p.From, p.To
				}
				if chance(t, "nil", 3) {
					if rapid.Bool().Draw(t, "which") {
						q.From = -1
					} else {
						q.To = -1
					}
				}
				q.V = int64(intn(t, "v", -100000, 100000)) * 1_000_000
				switch intn(t, "exact", 0, 3) {
				case 0:
					q.V = unit
				case 1:
					q.V = rapid.Int64Range(-1000*unit, 1000*unit).Draw(t, "v")
				}
				q.T = genQueryTime(t, cs.Prices)
				if chance(t, "zoned", 20) {
					q.Zone = intn(t, "zone", -14, 14)
				}
				cs.Queries = append(cs.Queries, q)
			}
			if len(cs.Prices) > 0 && chance(t, "edited", 30) {
				for k := intn(t, "nedits", 1, 3); k > 0; k-- {
					e := c10edit{At: intn(t, "edit", 0, len(cs.Prices)-1), Drop: chance(t, "drop", 30)}
					if e.V = cs.Prices[e.At].V; e.V < 1<<50 {
						e.V = e.V*int64(intn(t, "factor", 1, 3)) + int64(intn(t, "more", 1, 1000))*1000
					}
					cs.Edits = append(cs.Edits, e)
				}
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c10case](raw)
			var r Result
			l := new(accounting.Ledger)
			var curs []*accounting.Currency
			for i := 0; i < cs.N; i++ {
				curs = append(curs, &accounting.Currency{Name: string(rune('A' + i)), Decimal: ".", Precision: i})
			}
			l.Currencies = append(l.Currencies, curs...)
			l.DefaultCurrency = curs[0]
			for _, p := range cs.Prices {
				l.Prices = append(l.Prices, &accounting.Price{Time: time.Unix(p.T, 0).UTC(), Currency: curs[p.From], Value: accounting.Value{Amount: p.V, Currency: curs[p.To]}})
			}
			at := func(i int) *accounting.Currency {
				if i < 0 {
					return nil
				}
				return curs[i]
			}
			text := func() string {
				var sb strings.Builder
				for _, p := range cs.Prices {
					fmt.Fprintf(&sb, "P %s %s %s\n", mmoment(p.T), curs[p.From].Name, refPrint(p.V, CurDef{Name: curs[p.To].Name}, true, true))
				}
				return sb.String()
			}
			snap := func() []string {
				d := dump(l, Parts{Prices: true, AutoPrices: true, Curs: true})
				for i, p := range l.Prices {
					d = append(d, fmt.Sprint(i, p.Currency == curs[cs.Prices[i].From], p.Value.Currency == curs[cs.Prices[i].To], p.ID))
				}
				return d
			}
			r.Sample = text()
			ask := func(q c10query, s0 []string) bool {
				v := accounting.Value{Amount: q.V, Currency: at(q.From)}
				got, err := l.Convert(v, inZone(q.T, q.Zone), at(q.To))
				desc := fmt.Sprintf("convert %d|%s to %s at %s\n%s", q.V, curName(v.Currency), curName(at(q.To)), mmoment(q.T), text())
				if d := diff("the ledger after converting", s0, snap()); d != "" {
					r.Fail = d + "\n" + desc
					return false
				}
				if q.From == q.To {
					if err != nil || got != v {
						r.Fail = fmt.Sprintf("converting to the same commodity gives %s, %v\n%s", val(got), err, desc)
						return false
					}
					return true
				}
				if q.From < 0 || q.To < 0 {
					if err == nil {
						r.Fail = fmt.Sprintf("converting from or to nothing gives %s\n%s", val(got), desc)
						return false
					}
					r.Classes = append(r.Classes, "nothing")
					return true
				}
				o := &oracle{prices: cs.Prices}
				res, dead := o.convert(exactSpan(q.V), q.From, q.To, q.T, nil)
				if dead {
					res = append(res, o.anyChain(exactSpan(q.V), q.From, q.To, q.T, nil)...)
				}
				if o.over {
					r.Classes = append(r.Classes, "out-of-range")
					return true
				}
				rates := o.rates(q.From, q.To, q.T)
				switch {
				case len(res) == 0:
					r.Classes = append(r.Classes, "unreachable")
				case dead:
					r.Classes = append(r.Classes, "dead-end")
				case len(rates) == 0:
					r.Classes = append(r.Classes, "chain")
					r.NonTrivial = true
				case rates[0].lo != rates[0].hi:
					r.Classes = append(r.Classes, "interpolated")
					r.NonTrivial = true
				default:
					r.Classes = append(r.Classes, "exact-or-nearest")
				}
				if err != nil {
					if len(res) > 0 && !dead {
						r.Fail = fmt.Sprintf("error: %v; expected one of %v\n%s", err, res, desc)
						return false
					}
					return true
				}
				if len(res) == 0 {
					r.Fail = fmt.Sprintf("no chain of prices leads there, and the result is %s\n%s", val(got), desc)
					return false
				}
				ok := got.Currency == curs[q.To]
				if ok {
					ok = false
					for _, x := range res {
						ok = ok || x.has(got.Amount)
					}
				}
				if !ok {
					r.Fail = fmt.Sprintf("the result is %d|%s; expected one of %v\n%s", got.Amount, curName(got.Currency), res, desc)
					return false
				}
				return true
			}
			for pass := 0; pass < 2; pass++ {
				s0 := snap()
				for _, q := range cs.Queries {
					if !ask(q, s0) {
						return r
					}
				}
				if len(cs.Edits) == 0 || pass == 1 {
					break
				}
				// other prices from now on
				r.Classes = append(r.Classes, "edited")
				for _, e := range cs.Edits {
					if len(l.Prices) == 0 {
						break
					}
					k := e.At % len(l.Prices)
					if e.Drop {
						l.Prices = append(l.Prices[:k:k], l.Prices[k+1:]...)
						cs.Prices = append(cs.Prices[:k:k], cs.Prices[k+1:]...)
					} else {
						l.Prices[k].Value.Amount = e.V
						cs.Prices[k].V = e.V
					}
				}
			}
			return r
		}})
}
