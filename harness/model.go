package main

// The reference model of journals: an abstract syntax (what the generator draws, and what is saved in
// replay files), its layout as text, and the ledger which that text stands for. The expected ledger is
// computed from the syntax tree, never from the text.

import (
	"fmt"
	"math/big"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

const unit = 100_000_000

// CurDef is a commodity and its style.
type CurDef struct {
	Name    string
	Before  bool   `json:",omitempty"`
	NoSpace bool   `json:",omitempty"`
	T, D    string // thousands and decimal signs
	Prec    int
}

// Amt is a literal amount. F holds layout choices.
type Amt struct {
	C int   // commodity (index in Journal.Curs)
	V int64 // amount times unit
	F int   `json:",omitempty"`
}

const (
	fGroup    = 1   // write thousands signs
	fPlus     = 2   // write a plus sign
	fAltSide  = 4   // commodity on the other side
	fAltSpace = 8   // with or without space, against the style
	fNoName   = 16  // leave out the name of the default commodity
	fZero     = 512 // leading zero
	// bits 5 to 8: additional decimals
)

type Posting struct {
	Acc    string
	A      *Amt     `json:",omitempty"`
	Cost   *Amt     `json:",omitempty"`
	Rel    bool     `json:",omitempty"` // cost per unit
	Asr    *Amt     `json:",omitempty"`
	Date   *int64   `json:",omitempty"`
	DF     int      `json:",omitempty"`
	Com    []string `json:",omitempty"`
	Inline bool     `json:",omitempty"`
	Lay    int      `json:",omitempty"`
	Bad    int      `json:",omitempty"` // a line which is wrong, with an account and an amount seen above
	BadTag string   `json:",omitempty"` // a tag with a date which is none, reported and without effect
}

// Item is an entry of a journal.
type Item struct {
	K      string    // cur, acc, D, P, tx, rem, blank, raw, inc
	Acc    string    `json:",omitempty"`
	Cur    int       `json:",omitempty"`
	A      *Amt      `json:",omitempty"`
	T      int64     `json:",omitempty"`
	DF     int       `json:",omitempty"`
	Desc   string    `json:",omitempty"`
	Tag    string    `json:",omitempty"` // code of accounts, ISIN of commodities
	Com    []string  `json:",omitempty"`
	Inline bool      `json:",omitempty"`
	Lay    int       `json:",omitempty"`
	Posts  []Posting `json:",omitempty"`
	Text   string    `json:",omitempty"` // rem, raw
	File   string    `json:",omitempty"` // inc
	Items  []Item    `json:",omitempty"` // inc
	Abs    bool      `json:",omitempty"` // inc: with the absolute path
	Again  bool      `json:",omitempty"` // inc: the same file is included twice in a row
	Up     int       `json:",omitempty"` // self: which of the files being read is included
}

type Journal struct {
	Curs  []CurDef
	Items []Item
	CRLF  bool `json:",omitempty"`
	NoNL  bool `json:",omitempty"` // no end of line after the last line
}

// ------------------------------------------------------------ expected ledger

type MCur struct {
	Def    CurDef
	Name   string
	Style  CurDef // what is known
	Styled bool
	ISIN   string
	Com    []string
}

type MAcc struct {
	Full, Name string
	Parent     *MAcc
	Children   []*MAcc
	Level      int
	Code, ID   string
	Com        []string
	Posts      []*MPost // in the order of their dates
}

type MVal struct {
	C *MCur
	V int64
}

type MPost struct {
	Txn   *MTxn
	Acc   *MAcc
	HasA  bool
	Val   MVal // explicit or inferred
	known bool
	busy  bool
	Cost  *MVal
	Asr   *MVal
	T     int64
	Own   bool // has a date of its own (even if it is the same)
	Com   []string
	ID    string
	Bal   map[*MCur]*big.Int
}

type MTxn struct {
	T     int64
	Desc  string
	Com   []string
	ID    string
	Posts []*MPost
}

type MPrice struct {
	T    int64
	Cur  *MCur
	Val  MVal
	Com  []string
	ID   string
	Auto bool
}

type MLedger struct {
	Accs    []*MAcc // in order of first appearance
	Curs    []*MCur
	Default *MCur
	Prices  []*MPrice
	Txns    []*MTxn

	Files map[string]string // content of the files, by path
	Err   *MErr             // why it must not load
	Notes map[string]bool   // "file:line" where a diagnostic is expected
	Links map[string]string // symbolic links
	Undec []undec           // names used without having been declared
	Odd   bool              // a file included twice would not have the same text
}

// undec is the first use of a name which was not declared.
type undec struct {
	Where, Name string
	Unnamed     bool // the commodity without name, which needs no declaration
}

// MErr says that opening must fail, naming one of these places.
type MErr struct {
	Kind  string
	Where []string
}

type builder struct {
	l      *MLedger
	j      *Journal
	curs   []*MCur
	accs   map[string]*MAcc
	dir    string
	crlf   bool
	texts  map[string]*strings.Builder
	lines  map[string]int
	stack  []string // files being read
	nlinks int
}

// build lays the journal out in files below dir, and computes its entries.
func build(j *Journal, dir, name string) *MLedger {
	b := &builder{l: &MLedger{Notes: map[string]bool{}, Links: map[string]string{}}, j: j, dir: dir, accs: map[string]*MAcc{},
		texts: map[string]*strings.Builder{}, lines: map[string]int{}}
	for _, c := range j.Curs {
		b.curs = append(b.curs, &MCur{Def: c, Name: c.Name, Style: CurDef{Name: c.Name}})
	}
	main := dir + "/" + name
	b.items(main, j.Items)
	b.l.Files = map[string]string{}
	for f, sb := range b.texts {
		s := sb.String()
		if j.NoNL {
			s = strings.TrimRight(s, "\r\n")
		}
		if j.CRLF {
			s = strings.ReplaceAll(s, "\n", "\r\n")
		}
		b.l.Files[f] = s
	}
	b.l.link()
	return b.l
}

// absolute makes a path absolute, when the files are named from the working directory.
func absolute(p string) string {
	if strings.HasPrefix(p, "/") {
		return p
	}
	wd, err := os.Getwd()
	must(err)
	return pathJoin(wd, p)
}

func (b *builder) emit(file, line string) string {
	if b.texts[file] == nil {
		b.texts[file] = new(strings.Builder)
	}
	b.texts[file].WriteString(line)
	b.texts[file].WriteByte('\n')
	b.lines[file]++
	return fmt.Sprintf("%s:%d", file, b.lines[file])
}

func (b *builder) next(file string) string { return fmt.Sprintf("%s:%d", file, b.lines[file]+1) }

func (b *builder) items(file string, items []Item) {
	if b.texts[file] == nil {
		b.texts[file] = new(strings.Builder)
	}
	b.stack = append(b.stack, file)
	for i := range items {
		b.item(file, &items[i])
	}
	b.stack = b.stack[:len(b.stack)-1]
}

var trail = []string{"", "", " ", "   ", "\t"}

// withComments writes the line of an entry and its comments.
func (b *builder) withComments(file, line string, com []string, inline bool, lay int) string {
	rest := com
	if inline && len(com) > 0 {
		line += []string{" ; ", ";", "  ;", " ;  "}[lay%4] + com[0]
		rest = com[1:]
	}
	id := b.emit(file, line+trail[lay%5])
	for k, c := range rest {
		marks := []string{";", "; ", "# ", "* ", ";  "}
		ind := []string{" ", "    ", "\t", "  \t"}[(lay/7+k)%4]
		b.emit(file, ind+marks[(lay/3+k)%5]+c)
	}
	return id
}

func (b *builder) acc(full, id string) *MAcc {
	if a := b.accs[full]; a != nil {
		return a
	}
	var parent *MAcc
	name := full
	if i := strings.LastIndexByte(full, ':'); i >= 0 {
		parent = b.acc(full[:i], id)
		name = full[i+1:]
	}
	a := &MAcc{Full: full, Name: name, Parent: parent, ID: id}
	if parent != nil {
		a.Level = parent.Level + 1
		parent.Children = append(parent.Children, a)
	}
	b.accs[full] = a
	b.l.Accs = append(b.l.Accs, a)
	return a
}

// uses notes that a posting or price of that file mentions a commodity.
func (b *builder) uses(file string, c *MCur) {
	if c.Name == "" {
		b.l.Undec = append(b.l.Undec, undec{Where: b.next(file), Unnamed: true})
		return
	}
	for _, x := range b.l.Curs {
		if x == c {
			return
		}
	}
	b.l.Undec = append(b.l.Undec, undec{Where: b.next(file), Name: c.Name})
}

func (b *builder) listCur(c *MCur) {
	if c.Name == "" {
		return
	}
	for _, x := range b.l.Curs {
		if x == c {
			return
		}
	}
	b.l.Curs = append(b.l.Curs, c)
}

// lit writes an amount, and notes what the program learns from it.
func (b *builder) lit(a *Amt) (string, MVal) {
	c := b.curs[a.C]
	s := renderAmt(c, a, b.l.Default)
	if c.Name == "" && b.l.Default == nil {
		b.l.Default = c
	}
	b.listCur(c)
	return s, MVal{c, a.V}
}

func renderAmt(c *MCur, a *Amt, def *MCur) string {
	st := c.Style
	first := !c.Styled
	if first {
		st = c.Def
	}
	neg := a.V < 0
	u := new(big.Int).Abs(big.NewInt(a.V))
	q, r := new(big.Int).QuoRem(u, big.NewInt(unit), new(big.Int))
	ip := q.String()
	dec := fmt.Sprintf("%08d", r.Int64())
	need := len(strings.TrimRight(dec, "0"))
	nd := need + (a.F>>5)&15
	if nd > 8 {
		nd = 8
	}
	if first && st.D == "," && nd == 0 {
		nd = 2
	}
	group := a.F&fGroup != 0 && st.T != "" && !first
	if nd == 3 && first && !group && len(ip) <= 3 {
		nd = 4 // 1.234 would be ambiguous
	}
	noName := c.Name == "" || a.F&fNoName != 0 && def == c
	if !c.Styled {
		c.Styled = true
		c.Style.Before, c.Style.NoSpace = c.Def.Before, c.Def.NoSpace
		if noName && c.Name != "" { // the side of its name is not known
			c.Style.Before, c.Style.NoSpace = false, false
		}
		c.Style.Prec = 0
		c.Style.D = "."
		c.Style.T = ""
		if nd > 0 {
			c.Style.Prec = nd
			c.Style.D = st.D
		}
	}
	if group {
		var g []string
		for len(ip) > 3 {
			g = append([]string{ip[len(ip)-3:]}, g...)
			ip = ip[:len(ip)-3]
		}
		ip = strings.Join(append([]string{ip}, g...), st.T)
	} else if a.F&fZero != 0 {
		ip = "0" + ip
	}
	num := ip
	if nd > 0 {
		num += st.D + dec[:nd]
	}
	if neg {
		num = "-" + num
	} else if a.F&fPlus != 0 {
		num = "+" + num
	}
	if noName {
		return num
	}
	before, nospace := st.Before, st.NoSpace
	if !first {
		if a.F&fAltSide != 0 {
			before = !before
		}
		if a.F&fAltSpace != 0 && safeName(c.Name) {
			nospace = !nospace
		}
	}
	sp := " "
	if nospace {
		sp = ""
	}
	if before {
		return c.Name + sp + num
	}
	return num + sp + c.Name
}

// safeName: can be written next to a number, without a space.
func safeName(s string) bool {
	last := s[len(s)-1]
	return !(last >= '0' && last <= '9') && !strings.ContainsRune("-+.,_'", rune(last))
}

// declLit is the amount of a commodity line, as the exporter writes it or shorter.
func declLit(d CurDef, lay int) string {
	var num string
	switch {
	case d.T != "" && d.Prec > 0 && lay%3 == 1:
		num = "1" + d.T + "000"
	case d.T != "":
		num = "1" + d.T + "000" + d.T + "000"
	case lay%3 == 1:
		num = "1000"
	case lay%3 == 2 && d.Prec != 3:
		num = "1"
	default:
		num = "1000000"
	}
	if d.Prec > 0 {
		num += d.D + strings.Repeat("0", d.Prec)
	}
	if d.Name == "" {
		return num
	}
	sp := " "
	if d.NoSpace {
		sp = ""
	}
	if d.Before {
		return d.Name + sp + num
	}
	return num + sp + d.Name
}

func (c *MCur) declare() {
	if !c.Styled {
		c.Styled = true
		c.Style = c.Def
	}
}

// fmtTime lays out a moment with the separators chosen by f.
func fmtTime(t int64, f int) string {
	tm := time.Unix(t, 0).UTC()
	if f < 0 {
		f = -f
	}
	sep := []string{"-", "/", ".", "_", ":"}
	s1 := sep[f%5]
	s2 := sep[(f/5)%5]
	s3 := sep[(f/25)%5]
	h, m, s := tm.Clock()
	out := tm.Format("2006") + s1 + tm.Format("01") + s1 + tm.Format("02")
	k := f / 125 % 4 // how much is left out when it can be
	switch {
	case k < 2 && h == 12 && m == 0 && s == 0:
		return out
	case k < 2 && m == 0 && s == 0:
		return out + s2 + tm.Format("15")
	case k < 3 && s == 0:
		return out + s2 + tm.Format("15") + s3 + tm.Format("04")
	}
	return out + s2 + tm.Format("15") + s3 + tm.Format("04") + s3 + tm.Format("05")
}

func (b *builder) item(file string, it *Item) {
	switch it.K {
	case "rem":
		b.emit(file, it.Text)
	case "blank":
		b.emit(file, []string{"", " ", "\t", "   "}[it.Lay%4])
	case "raw":
		id := b.emit(file, it.Text)
		b.l.Notes[id] = true
	case "inc":
		target := it.File
		full := pathJoin(dirOf(file), target)
		if it.Abs {
			full = absolute(full)
			target = full
		}
		b.emit(file, "include "+target)
		b.items(full, it.Items)
		if it.Again {
			text := b.texts[full].String()
			b.emit(file, "include "+target)
			delete(b.texts, full)
			delete(b.lines, full)
			b.items(full, it.Items)
			if b.texts[full].String() != text {
				b.l.Odd = true
			}
		}
	case "self":
		// a file which is being read is included again
		t := b.stack[len(b.stack)-1-it.Up%len(b.stack)]
		rel, err := filepath.Rel(absolute(dirOf(file)), absolute(t))
		if err != nil {
			panic(err)
		}
		switch it.Lay % 5 {
		case 1:
			rel = "./" + rel
		case 2:
			rel = absolute(t)
		case 3:
			rel = "x/../" + rel
		case 4:
			// another name for the same file
			b.nlinks++
			link := pathJoin(dirOf(file), fmt.Sprintf("link%d.j", b.nlinks))
			b.l.Links[link] = absolute(t)
			rel = filepath.Base(link)
		}
		b.l.Notes[b.emit(file, "include "+rel)] = true
	case "cur":
		c := b.curs[it.Cur]
		c.declare()
		b.listCur(c)
		com := append([]string{}, it.Com...)
		c.Com = append(c.Com, it.Com...)
		if it.Tag != "" {
			com = insertTag(com, "isin:"+it.Tag, it.Lay)
			c.ISIN = it.Tag
		}
		b.withComments(file, "commodity "+declLit(c.Def, it.Lay), com, it.Inline, it.Lay)
	case "acc":
		com := append([]string{}, it.Com...)
		a := b.acc(it.Acc, b.next(file))
		a.Com = append(a.Com, it.Com...)
		if it.Tag != "" {
			com = insertTag(com, "code:"+it.Tag, it.Lay)
			a.Code = it.Tag
		}
		b.withComments(file, "account "+it.Acc, com, it.Inline, it.Lay)
	case "D":
		c := b.curs[it.Cur]
		if it.Lay%3 == 1 && c.Name != "" {
			b.emit(file, "D "+c.Name)
			b.listCur(c)
		} else {
			if c.Styled {
				a := *it.A
				a.F &^= fNoName
				s, _ := b.lit(&a)
				b.emit(file, "D "+s)
			} else {
				c.declare()
				b.emit(file, "D "+declLit(c.Def, it.Lay))
			}
			b.listCur(c)
		}
		b.l.Default = c
	case "P":
		c := b.curs[it.Cur]
		b.uses(file, c)
		b.listCur(c)
		b.uses(file, b.curs[it.A.C])
		s, v := b.lit(it.A)
		sp := []string{" ", "  ", "   "}
		line := "P " + fmtTime(it.T, it.DF) + sp[it.Lay%3] + c.Name + sp[it.Lay/3%3] + s
		p := &MPrice{T: it.T, Cur: c, Val: v, Com: it.Com}
		p.ID = b.withComments(file, line, it.Com, it.Inline, it.Lay)
		b.l.Prices = append(b.l.Prices, p)
	case "tx":
		t := &MTxn{T: it.T, Desc: it.Desc, Com: it.Com}
		line := fmtTime(it.T, it.DF)
		if it.Desc != "" {
			line += []string{" ", "  ", "    "}[it.Lay%3] + it.Desc
		}
		t.ID = b.withComments(file, line, it.Com, it.Inline, it.Lay)
		b.l.Txns = append(b.l.Txns, t)
		for i := range it.Posts {
			if p := &it.Posts[i]; p.Bad > 0 {
				b.badPosting(file, p)
				continue
			}
			b.posting(file, t, &it.Posts[i])
		}
	default:
		panic("model: kind " + it.K)
	}
}

func insertTag(com []string, tag string, lay int) []string {
	k := lay / 11 % (len(com) + 1)
	if k < len(com) && lay%5 == 2 && com[k] != "" && !strings.Contains(com[k], ":") {
		// the tag is after the words of a comment
		return append(com[:k:k], append([]string{com[k] + " " + tag}, com[k+1:]...)...)
	}
	return append(com[:k:k], append([]string{tag}, com[k:]...)...)
}

// badPosting writes a posting which is wrong, and must be reported.
func (b *builder) badPosting(file string, p *Posting) {
	s, _ := b.lit(p.A)
	b.l.Notes[b.emit(file, "  "+p.Acc+"  "+[]string{
		" @ " + s,       // a price without an amount
		" @@ " + s,      // the same
		s + " @",        // a price without a value
		s + " @@ ",      // the same
		s + " @ = " + s, // the same
		s + " =",        // an assertion without a value
		s + " =  ",
		"=",
		" @@ " + s + " = " + s,
	}[p.Bad%9])] = true
}

func (b *builder) posting(file string, t *MTxn, p *Posting) {
	m := &MPost{Txn: t, T: t.T, Com: p.Com}
	if b.accs[p.Acc] == nil {
		b.l.Undec = append(b.l.Undec, undec{Where: b.next(file), Name: p.Acc})
	}
	m.Acc = b.acc(p.Acc, b.next(file))
	com := append([]string{}, p.Com...)
	if p.Date != nil {
		com = insertTag(com, "date:"+fmtTime(*p.Date, p.DF), p.Lay)
		m.T, m.Own = *p.Date, true
	} else if p.BadTag != "" {
		com = insertTag(com, "date:"+p.BadTag, p.Lay)
	}
	line := []string{"  ", " ", "    ", "\t"}[p.Lay%4] + p.Acc
	gap := []string{"  ", "   ", "          "}[p.Lay/4%3]
	if p.A != nil {
		b.uses(file, b.curs[p.A.C])
		s, v := b.lit(p.A)
		line += gap + s
		m.HasA, m.Val, m.known = true, v, true
	}
	sp := []string{" ", "", "  "}
	if p.Cost != nil {
		b.uses(file, b.curs[p.Cost.C])
		s, v := b.lit(p.Cost)
		if p.Rel {
			line += " @" + sp[p.Lay/12%3] + s
			k := new(big.Int).Mul(big.NewInt(p.A.V), big.NewInt(v.V))
			k.Quo(k, big.NewInt(unit))
			v.V = k.Int64()
		} else {
			line += " @@" + sp[p.Lay/12%3] + s
		}
		m.Cost = &v
	}
	if p.Asr != nil {
		b.uses(file, b.curs[p.Asr.C])
		s, v := b.lit(p.Asr)
		if p.A == nil {
			line += gap
		}
		line += sp[p.Lay/36%3] + "=" + sp[p.Lay/24%3] + s
		m.Asr = &v
	}
	m.ID = b.withComments(file, line, com, p.Inline, p.Lay)
	if p.Date == nil && p.BadTag != "" {
		b.l.Notes[m.ID] = true
	}
	t.Posts = append(t.Posts, m)
}

func dirOf(p string) string {
	return p[:max(strings.LastIndexByte(p, '/'), 0)]
}

func pathJoin(dir, f string) string {
	if strings.HasPrefix(f, "/") {
		return f
	}
	if !strings.HasPrefix(dir, "/") {
		return path.Join(dir, f)
	}
	parts := strings.Split(dir, "/")
	for _, x := range strings.Split(f, "/") {
		switch x {
		case ".", "":
		case "..":
			parts = parts[:len(parts)-1]
		default:
			parts = append(parts, x)
		}
	}
	return strings.Join(parts, "/")
}

// ------------------------------------------------------------ arithmetic

func (l *MLedger) link() {
	for _, t := range l.Txns {
		for _, p := range t.Posts {
			p.Acc.Posts = append(p.Acc.Posts, p)
		}
	}
	for _, a := range l.Accs {
		sort.SliceStable(a.Posts, func(i, j int) bool { return a.Posts[i].T < a.Posts[j].T })
	}
}

func addTo(m map[*MCur]*big.Int, v MVal) {
	x := m[v.C]
	if x == nil {
		x = new(big.Int)
		m[v.C] = x
	}
	x.Add(x, big.NewInt(v.V))
	if x.Sign() == 0 {
		delete(m, v.C)
	}
}

// effect is what the posting counts for in the balance of its transaction.
func (p *MPost) effect() MVal {
	if p.Cost != nil {
		return *p.Cost
	}
	return p.Val
}

// leftover returns the sum of a transaction, and its postings without amount nor assertion.
func (t *MTxn) leftover() (map[*MCur]*big.Int, []*MPost) {
	sum := map[*MCur]*big.Int{}
	var open []*MPost
	for _, p := range t.Posts {
		if !p.HasA && p.Asr == nil {
			open = append(open, p)
			continue
		}
		addTo(sum, p.effect())
	}
	return sum, open
}

// resolve finds the amount of a posting.
func (p *MPost) resolve() bool {
	if p.known {
		return true
	}
	if p.busy {
		return false
	}
	p.busy = true
	defer func() { p.busy = false }()
	if p.Asr != nil {
		sum := new(big.Int)
		for _, q := range p.Acc.Posts {
			if q == p {
				break
			}
			if !q.resolve() {
				return false
			}
			if q.Val.C == p.Asr.C {
				sum.Add(sum, big.NewInt(q.Val.V))
			}
		}
		p.Val = MVal{p.Asr.C, p.Asr.V - sum.Int64()}
		p.known = true
		return true
	}
	for _, q := range p.Txn.Posts {
		if q != p && !q.resolve() {
			return false
		}
	}
	sum, open := p.Txn.leftover()
	if len(open) != 1 || len(sum) > 1 {
		return false
	}
	p.Val = MVal{nil, 0}
	for c, x := range sum {
		p.Val = MVal{c, -x.Int64()}
	}
	p.known = true
	return true
}

// compute finds all the amounts and balances, and whether the journal has to be rejected.
func (l *MLedger) compute() {
	fail := func(kind, where string) {
		if l.Err == nil {
			l.Err = &MErr{Kind: kind}
		}
		l.Err.Where = append(l.Err.Where, where)
	}
	for _, t := range l.Txns {
		ok := true
		for _, p := range t.Posts {
			if p.Asr != nil && !p.HasA && !p.resolve() {
				ok = false
			}
		}
		if !ok {
			fail("deadlock", t.ID)
			continue
		}
		sum, open := t.leftover()
		switch {
		case len(open) > 1:
			fail("two postings without amount", t.ID)
		case len(open) == 1 && len(sum) > 1:
			fail("missing amount with two commodities", t.ID)
		case len(open) == 1:
			open[0].resolve()
		case len(sum) == 1:
			fail("unbalanced", t.ID)
		case len(sum) > 2:
			fail("three commodities", t.ID)
		}
	}
	if l.Err != nil {
		return
	}
	for _, a := range l.Accs {
		bal := map[*MCur]*big.Int{}
		for _, p := range a.Posts {
			addTo(bal, p.Val)
			if p.Asr != nil {
				x := bal[p.Asr.C]
				if x == nil {
					x = new(big.Int)
				}
				if x.Cmp(big.NewInt(p.Asr.V)) != 0 {
					fail("assertion", p.ID)
				}
			}
			p.Bal = copyBal(bal)
		}
	}
}

func copyBal(b map[*MCur]*big.Int) map[*MCur]*big.Int {
	r := map[*MCur]*big.Int{}
	for k, v := range b {
		r[k] = new(big.Int).Set(v)
	}
	return r
}

// dfs returns the accounts in the order of the tree.
func (l *MLedger) dfs() []*MAcc {
	var out []*MAcc
	var walk func(a *MAcc)
	walk = func(a *MAcc) {
		out = append(out, a)
		for _, c := range a.Children {
			walk(c)
		}
	}
	for _, a := range l.Accs {
		if a.Parent == nil {
			walk(a)
		}
	}
	return out
}

// balanceAt is the balance of an account after all its postings dated up to t.
func (a *MAcc) balanceAt(t int64) map[*MCur]*big.Int {
	b := map[*MCur]*big.Int{}
	for _, p := range a.Posts {
		if p.T <= t {
			addTo(b, p.Val)
		}
	}
	return b
}

// transit is what the transfer account must hold at t.
func (l *MLedger) transit(t int64) map[*MCur]*big.Int {
	b := map[*MCur]*big.Int{}
	for _, x := range l.Txns {
		for _, p := range x.Posts {
			if p.T == x.T {
				continue
			}
			if p.T <= t {
				addTo(b, MVal{p.Val.C, -p.Val.V})
			}
			if x.T <= t {
				addTo(b, p.Val)
			}
		}
	}
	return b
}

// exchange returns the two commodities left over in a transaction, if it is an exchange.
func (t *MTxn) exchange() (a, b MVal, ok bool) {
	sum, open := t.leftover()
	if len(open) > 0 || len(sum) != 2 {
		return
	}
	var v []MVal
	for c, x := range sum {
		v = append(v, MVal{c, x.Int64()})
	}
	return v[0], v[1], true
}
