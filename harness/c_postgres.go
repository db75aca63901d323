package main

// C32: PostgreSQL, with a server which speaks its protocol on a local socket.

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

type pgAcc struct {
	ID     int
	Name   string
	Code   string
	NoCode bool `json:",omitempty"` // NULL
}

type pgRow struct {
	T    int64 // microseconds
	Tid  int
	Acc  int // index
	Desc string
	V    int64 // cents
}

type c32case struct {
	Accs []pgAcc
	Rows []pgRow
	// Fault: "", refused, startup, auth, ping, accounts, accountsrow, accountsdrop, accountscut, money, moneyrow, moneydrop, moneycut, badint, baddate, badscan, badnull, badacc
	Fault string `json:",omitempty"`
	At    int    // rows sent before the fault
}

// ---------------------------------------------------------------- server

type pgServer struct {
	cs    *c32case
	ln    net.Listener
	wg    sync.WaitGroup
	mu    sync.Mutex
	conns []net.Conn
	odd   string // something which the server does not understand
}

func (s *pgServer) start(dir string) {
	ln, err := net.Listen("unix", dir+"/.s.PGSQL.5432")
	must(err)
	s.ln = ln
	if s.cs.Fault == "refused" {
		ln.Close()
		return
	}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns = append(s.conns, c)
			s.mu.Unlock()
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				defer c.Close()
				s.serve(c)
			}()
		}
	}()
}

func (s *pgServer) stop() {
	s.ln.Close()
	s.mu.Lock()
	for _, c := range s.conns {
		c.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
}

func pgMsg(w io.Writer, kind byte, body []byte) {
	b := []byte{kind, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(b[1:], uint32(len(body)+4))
	w.Write(append(b, body...))
}

func pgErr(w io.Writer) {
	pgMsg(w, 'E', []byte("SERROR\x00C42P01\x00Mthe query failed\x00\x00"))
}

func (s *pgServer) serve(c net.Conn) {
	r := bufio.NewReader(c)
	w := bufio.NewWriter(c)
	var n [4]byte
	if _, err := io.ReadFull(r, n[:]); err != nil {
		return
	}
	l := int(binary.BigEndian.Uint32(n[:]))
	if l < 8 || l > 10000 {
		return
	}
	io.ReadFull(r, make([]byte, l-4))
	switch s.cs.Fault {
	case "startup":
		return
	case "auth":
		pgMsg(w, 'E', []byte("SFATAL\x00C28P01\x00Mno\x00\x00"))
		w.Flush()
		return
	}
	pgMsg(w, 'R', []byte{0, 0, 0, 0})
	for _, p := range []string{"server_version\x0012.3\x00", "client_encoding\x00UTF8\x00", "DateStyle\x00ISO, MDY\x00", "TimeZone\x00UTC\x00", "integer_datetimes\x00on\x00"} {
		pgMsg(w, 'S', []byte(p))
	}
	pgMsg(w, 'K', []byte{0, 0, 0, 1, 0, 0, 0, 2})
	ready := func() {
		pgMsg(w, 'Z', []byte{'I'})
		w.Flush()
	}
	ready()
	for {
		var h [5]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return
		}
		body := make([]byte, int(binary.BigEndian.Uint32(h[1:]))-4)
		if _, err := io.ReadFull(r, body); err != nil {
			return
		}
		switch h[0] {
		case 'X':
			return
		case 'Q':
		default:
			s.note("message " + string(h[:1]))
			pgErr(w)
			ready()
			continue
		}
		q := strings.TrimSpace(strings.TrimRight(string(body), "\x00"))
		if strings.Trim(q, "; \n\t") == "" || strings.EqualFold(strings.Trim(q, "; "), "select 1") {
			if s.cs.Fault == "ping" {
				pgErr(w)
			} else {
				pgMsg(w, 'I', nil)
			}
			ready()
			continue
		}
		if !s.query(w, q) {
			w.Flush()
			return
		}
		ready()
	}
}

func (s *pgServer) note(x string) {
	s.mu.Lock()
	s.odd = x
	s.mu.Unlock()
}

type pgCol struct {
	name string
	oid  uint32
	get  func(i int) *string
}

var selectRE = regexp.MustCompile(`(?is)^\s*select\s+(.*?)\s+from\s+(\w+)(.*)$`)
var multRE = regexp.MustCompile(`(?i)([0-9]+)\s*\*\s*(?:\w+\.)?value|(?:\w+\.)?value\s*\*\s*([0-9]+)`)
var limitRE = regexp.MustCompile(`(?i)\blimit\s+(\d+)`)
var orderRE = regexp.MustCompile(`(?is)\border\s+by\s+(.*?)(?:\blimit\b.*)?$`)

// columns splits the list of a SELECT.
func columns(list string) []string {
	var out []string
	depth, start := 0, 0
	for i, c := range list {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, strings.ToLower(strings.TrimSpace(list[start:i])))
				start = i + 1
			}
		}
	}
	return append(out, strings.ToLower(strings.TrimSpace(list[start:])))
}

// query answers one query; it returns false to drop the connection.
func (s *pgServer) query(w io.Writer, q string) bool {
	x := selectRE.FindStringSubmatch(q)
	if x == nil {
		s.note(q)
		pgErr(w)
		return true
	}
	table, rest := strings.ToLower(x[2]), x[3]
	cs := s.cs
	var idx []int
	str := func(v string) *string { return &v }
	num := func(v int64) *string { return str(fmt.Sprint(v)) }
	get := func(col string) func(i int) *string { return nil }
	oid := func(col string) uint32 { return 23 }
	balances := map[int]int64{}
	used := map[int]bool{}
	running := make([]int64, len(cs.Rows))
	for i, r := range cs.Rows {
		balances[r.Acc] += r.V
		used[r.Acc] = true
		running[i] = balances[r.Acc]
	}
	fault := ""
	switch table {
	case "account":
		fault = strings.TrimPrefix(cs.Fault, "accounts")
		if fault == cs.Fault {
			fault = ""
		} else if fault == "" {
			fault = "query"
		}
		inner := strings.Contains(strings.ToLower(rest), "join") && !strings.Contains(strings.ToLower(rest), "left")
		for i := range cs.Accs {
			if !inner || used[i] {
				idx = append(idx, i)
			}
		}
		get = func(col string) func(i int) *string {
			switch {
			case strings.Contains(col, "value") || strings.Contains(col, "balance"):
				return func(i int) *string {
					if !used[i] && !strings.Contains(col, "coalesce") {
						return nil
					}
					return num(balances[i])
				}
			case strings.Contains(col, "code"):
				return func(i int) *string {
					if cs.Accs[i].NoCode && !strings.Contains(col, "coalesce") {
						return nil
					}
					return str(cs.Accs[i].Code)
				}
			case strings.Contains(col, "name"):
				return func(i int) *string { return str(cs.Accs[i].Name) }
			case strings.Contains(col, "id"):
				return func(i int) *string {
					if cs.Fault == "badacc" && i == cs.At%len(cs.Accs) {
						return str("x1")
					}
					return num(int64(cs.Accs[i].ID))
				}
			}
			return nil
		}
		oid = func(col string) uint32 {
			if strings.Contains(col, "name") || strings.Contains(col, "code") || cs.Fault == "badacc" {
				return 25
			}
			return 23
		}
	case "money":
		fault = strings.TrimPrefix(cs.Fault, "money")
		if fault == cs.Fault {
			fault = ""
			if strings.HasPrefix(cs.Fault, "bad") {
				fault = cs.Fault
			}
		} else if fault == "" {
			fault = "query"
		}
		for i := range cs.Rows {
			idx = append(idx, i)
		}
		get = func(col string) func(i int) *string {
			k := int64(1)
			if y := multRE.FindStringSubmatch(col); y != nil {
				k, _ = strconv.ParseInt(y[1]+y[2], 10, 64)
			} else if z := multRE.FindStringSubmatch(strings.ReplaceAll(col, "balance", "value")); z != nil {
				k, _ = strconv.ParseInt(z[1]+z[2], 10, 64)
			}
			scaled := func(v int64) *string {
				// v is in cents, rounded as a cast to integer does
				n := v * k
				h := int64(50)
				if n < 0 {
					h = -50
				}
				return num((n + h) / 100)
			}
			switch {
			case strings.Contains(col, "datetime"):
				return func(i int) *string {
					if fault == "baddate" && i == cs.At%len(cs.Rows) {
						return str("not a date")
					}
					return str(time.UnixMicro(cs.Rows[i].T).UTC().Format("2006-01-02 15:04:05.999999"))
				}
			case strings.Contains(col, "transaction_id"):
				return func(i int) *string { return num(int64(cs.Rows[i].Tid)) }
			case strings.Contains(col, "account_id"):
				return func(i int) *string { return num(int64(cs.Accs[cs.Rows[i].Acc].ID)) }
			case strings.Contains(col, "description"):
				return func(i int) *string { return str(cs.Rows[i].Desc) }
			case strings.Contains(col, "balance"):
				return func(i int) *string { return scaled(running[i]) }
			case strings.Contains(col, "value"):
				return func(i int) *string {
					if (fault == "badint" || fault == "badscan") && i == cs.At%len(cs.Rows) {
						return str("12x")
					}
					if fault == "badnull" && i == cs.At%len(cs.Rows) {
						return nil
					}
					return scaled(cs.Rows[i].V)
				}
			}
			return nil
		}
		oid = func(col string) uint32 {
			if strings.Contains(col, "datetime") {
				return 1114
			}
			if strings.Contains(col, "description") || fault == "badscan" && strings.Contains(col, "value") {
				return 25
			}
			return 23
		}
	default:
		s.note(q)
		pgErr(w)
		return true
	}
	if fault == "query" {
		pgErr(w)
		return true
	}
	var cols []pgCol
	for _, c := range columns(x[1]) {
		g := get(c)
		if g == nil {
			s.note(q)
			pgErr(w)
			return true
		}
		cols = append(cols, pgCol{c, oid(c), g})
	}
	if y := orderRE.FindStringSubmatch(rest); y != nil {
		s.order(idx, columns(y[1]), get)
	}
	if y := limitRE.FindStringSubmatch(rest); y != nil {
		n, _ := strconv.Atoi(y[1])
		idx = idx[:min(n, len(idx))]
	}
	// RowDescription
	b := binary.BigEndian.AppendUint16(nil, uint16(len(cols)))
	for _, c := range cols {
		b = append(append(b, c.name...), 0)
		b = binary.BigEndian.AppendUint32(b, 0)
		b = binary.BigEndian.AppendUint16(b, 0)
		b = binary.BigEndian.AppendUint32(b, c.oid)
		b = binary.BigEndian.AppendUint16(b, 0xffff)
		b = binary.BigEndian.AppendUint32(b, 0xffffffff)
		b = binary.BigEndian.AppendUint16(b, 0)
	}
	pgMsg(w, 'T', b)
	for k, i := range idx {
		if fault != "" && !strings.HasPrefix(fault, "bad") && k == cs.At%(len(idx)+1) {
			return s.breakOff(w, fault)
		}
		b := binary.BigEndian.AppendUint16(nil, uint16(len(cols)))
		for _, c := range cols {
			v := c.get(i)
			if v == nil {
				b = binary.BigEndian.AppendUint32(b, 0xffffffff)
				continue
			}
			b = binary.BigEndian.AppendUint32(b, uint32(len(*v)))
			b = append(b, *v...)
		}
		pgMsg(w, 'D', b)
	}
	if fault != "" && !strings.HasPrefix(fault, "bad") {
		return s.breakOff(w, fault)
	}
	pgMsg(w, 'C', []byte(fmt.Sprintf("SELECT %d\x00", len(idx))))
	return true
}

// order sorts the rows by columns which are numbers, dates or texts.
func (s *pgServer) order(idx []int, by []string, get func(string) func(int) *string) {
	sort.SliceStable(idx, func(a, b int) bool {
		for _, c := range by {
			desc := strings.HasSuffix(c, " desc")
			g := get(c)
			if g == nil {
				continue
			}
			x, y := g(idx[a]), g(idx[b])
			if x == nil || y == nil || *x == *y {
				continue
			}
			less := *x < *y
			if n, err := strconv.ParseInt(*x, 10, 64); err == nil {
				m, _ := strconv.ParseInt(*y, 10, 64)
				less = n < m
			}
			return less != desc
		}
		return false
	})
}

func (s *pgServer) breakOff(w io.Writer, fault string) bool {
	switch fault {
	case "row": // an error after some rows
		pgErr(w)
		return true
	case "cut": // half a message
		w.Write([]byte{'D', 0, 0, 0, 50, 0, 1})
	}
	return false
}

// ---------------------------------------------------------------- check

// lines describes the expected ledger.
func (cs *c32case) lines() ([]string, bool) {
	type tx struct {
		id   int
		t    int64
		desc string
		rows []pgRow
	}
	var txs []*tx
	by := map[int]*tx{}
	for _, r := range cs.Rows {
		x := by[r.Tid]
		if x == nil {
			x = &tx{id: r.Tid, t: r.T, desc: r.Desc}
			by[r.Tid] = x
			txs = append(txs, x)
		}
		x.rows = append(x.rows, r)
	}
	sort.SliceStable(txs, func(i, j int) bool { return txs[i].t < txs[j].t })
	ok := true
	mom := func(t int64) string { return moment(time.UnixMicro(t)) }
	val := func(v int64) string {
		if v == 0 {
			return "0"
		}
		return fmt.Sprintf("%d|", v*1_000_000)
	}
	var out []string
	for i, a := range cs.Accs {
		out = append(out, fmt.Sprintf("account %s id=%d name=%q level=0 parent=- children=[] code=%q", a.Name, a.ID, a.Name, a.Code))
		sum := new(big.Int)
		for n, x := range txs {
			for k, r := range x.rows {
				if r.Acc != i {
					continue
				}
				sum.Add(sum, big.NewInt(r.V*1_000_000))
				bs := "{}"
				if sum.Sign() != 0 {
					bs = fmt.Sprintf("{%s|}", sum)
				}
				out = append(out, fmt.Sprintf("  split t%d.%d %s %s -> %s", n, k, mom(x.t), val(r.V), bs))
			}
		}
	}
	for n, x := range txs {
		out = append(out, fmt.Sprintf("tx %d %s %q", n, mom(x.t), x.desc))
		var sum int64
		for _, r := range x.rows {
			out = append(out, fmt.Sprintf("  posting %s %s %s", cs.Accs[r.Acc].Name, mom(x.t), val(r.V)))
			sum += r.V
		}
		ok = ok && sum == 0
	}
	return out, ok
}

func init() {
	register(&Check{ID: "C32", Quick: 18000, Thorough: 750000,
		Rule: "a case is up to 6 accounts and 8 transactions, delivered by a server which speaks the PostgreSQL protocol on a local socket, in any order, sometimes not balancing or with one of 17 faults (no connection, refused login, a query which fails at once, after some rows or in the middle of one, values of another type). The ledger is compared with the model; after a fault, or when a transaction does not balance, there must be an error and no ledger. Non-trivial: a fault, or two transactions.",
		Gen: func(t *rapid.T) any {
			cs := c32case{}
			ids := map[int]bool{}
			for n := intn(t, "naccs", 1, 6); n > 0; n-- {
				a := pgAcc{ID: intn(t, "id", 1, 50), Name: pick(t, "name", "Bank", "Cash", "a:b", "Ñandú x", "", "Bank", "it's"), Code: pick(t, "code", "", "12", "ES 1")}
				for ids[a.ID] {
					a.ID++
				}
				ids[a.ID] = true
				if a.Code == "" {
					a.NoCode = rapid.Bool().Draw(t, "null")
				}
				cs.Accs = append(cs.Accs, a)
			}
			now := time.Date(2020, 1, 1, 12, 0, 0, 0, time.UTC).UnixMicro()
			tid := intn(t, "tid", 1, 20)
			ntx := intn(t, "ntx", 0, 8)
			if chance(t, "large", 3) {
				ntx = intn(t, "ntx", 13, 40)
			}
			for n := ntx; n > 0; n-- {
				now += int64(pick(t, "step", 0, 86400, 60, 1, 86400*31, -86400*3)) * 1e6
				now += int64(pick(t, "us", 0, 0, 0, 1, 500000))
				desc := pick(t, "desc", "shop", "", "two words", "ñ;\n'x'")
				k := pick(t, "nsplits", 2, 2, 3, 4, 1)
				var sum int64
				for i := 0; i < k; i++ {
					var v int64
					if i == k-1 {
						v = -sum
					} else {
						switch intn(t, "size", 0, 2) {
						case 0:
							v = int64(intn(t, "v", -100, 100))
						case 1:
							v = int64(intn(t, "v", -1000, 1000)) * 100
						case 2:
							v = rapid.Int64Range(-500_000_000, 500_000_000).Draw(t, "v")
						}
					}
					sum += v
					at, text := now, desc
					if i > 0 && chance(t, "own description", 8) {
						text = pick(t, "other", "other", "", "shop")
					}
					if i > 0 && chance(t, "own time", 4) {
						at += int64(pick(t, "later", 1, 60, 86400)) * 1e6
					}
					cs.Rows = append(cs.Rows, pgRow{at, tid, intn(t, "acc", 0, len(cs.Accs)-1), text, v})
				}
				tid += pick(t, "next", 1, 1, 2, 7)
			}
			if len(cs.Rows) > 0 && chance(t, "unbalanced", 10) {
				cs.Rows[intn(t, "which", 0, len(cs.Rows)-1)].V += int64(pick(t, "delta", 1, -1, 100))
			}
			if len(cs.Rows) > 1 && chance(t, "interleaved", 15) {
				i := intn(t, "i", 0, len(cs.Rows)-2)
				cs.Rows[i], cs.Rows[i+1] = cs.Rows[i+1], cs.Rows[i]
			}
			if chance(t, "fault?", 35) {
				cs.Fault = pick(t, "fault", "refused", "startup", "auth", "ping", "accounts", "accountsrow", "accountsdrop", "accountscut", "money", "moneyrow", "moneydrop", "moneycut", "badint", "baddate", "badscan", "badnull", "badacc")
				cs.At = intn(t, "at", 0, 40)
				if strings.HasPrefix(cs.Fault, "bad") && len(cs.Rows) > 0 && chance(t, "zerorow", 60) {
					// a row whose loss would not be noticed in the sums
					cs.At = intn(t, "zeroat", 0, len(cs.Rows)-1)
					x := cs.Rows[cs.At]
					x.V = 0
					cs.Rows = append(cs.Rows[:cs.At:cs.At], append([]pgRow{x}, cs.Rows[cs.At:]...)...)
				}
				if strings.HasPrefix(cs.Fault, "bad") && len(cs.Rows) == 0 {
					cs.Fault = "moneyrow"
				}
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c32case](raw)
			r := Result{Sample: string(raw)}
			want, balanced := cs.lines()
			dir := c.whole
			if len(dir) > 80 {
				var err error
				dir, err = os.MkdirTemp("/tmp", "pg")
				must(err)
				defer os.RemoveAll(dir)
			}
			s := &pgServer{cs: &cs}
			s.start(dir)
			c.clearOutput()
			l, err := c.openURL("postgres:///db?host=" + dir + "&user=u&sslmode=disable")
			if l != nil && err == nil {
				l.Close()
			}
			s.stop()
			if s.odd != "" {
				panic(harnessError("the server does not understand " + s.odd))
			}
			switch {
			case cs.Fault != "":
				r.NonTrivial = true
				r.Classes = []string{cs.Fault}
			case !balanced:
				r.NonTrivial = true
				r.Classes = []string{"unbalanced"}
			default:
				r.NonTrivial = strings.Contains(strings.Join(want, "\n"), "\ntx 1 ")
				r.Classes = []string{"valid"}
			}
			if cs.Fault != "" || !balanced {
				if err == nil {
					r.Fail = fmt.Sprintf("no error (fault %q, balanced %v)\n%s", cs.Fault, balanced, raw)
				} else if l != nil {
					r.Fail = fmt.Sprintf("an error and a ledger\n%s", raw)
				}
				return r
			}
			if err != nil {
				r.Fail = fmt.Sprintf("a valid database is rejected: %v\n%s", err, raw)
				return r
			}
			if d := diff("postgres", want, txtLines(l, true)); d != "" {
				r.Fail = fmt.Sprintf("%s\n%s", d, raw)
			} else if d := showsCents(l); d != "" {
				r.Fail = fmt.Sprintf("%s\n%s", d, raw)
			}
			return r
		}})
}
