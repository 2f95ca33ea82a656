package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// The tokenizer client interprets Scan over an unknown source text. A reader of
// the same source, written here from the documented lexical grammar, advances
// with every rune the code consumes: it knows how far the token may extend, the
// text it stands for and the position reached. What the code returns is
// compared with it at every exit.

// VRunes is a []rune holding a text.
type VRunes struct{ P []Piece }

func (v VRunes) valKey() string {
	var b strings.Builder
	writePieces(&b, v.P)
	return "R" + b.String()
}
func (v VRunes) writeKey(k *keyer) {
	k.b.WriteByte('R')
	k.pieces(v.P)
}
func (v VRunes) isNil(*State) bool { return false }

// VGhost is the state of the reader that accompanies the code.
type VGhost struct {
	q         string // where in the grammar: see tkStep
	end       rune   // end quote
	val       []Piece
	line, col Lin
	peeked    Val // the next rune, if it was looked at
	erred     bool
	eof       bool     // the end of the source was consumed
	heads     []string // loop heads passed since the last rune
}

func (g VGhost) valKey() string { return fmt.Sprintf("ghost%s%v%v", g.q, g.erred, g.heads) }
func (g VGhost) writeKey(k *keyer) {
	fmt.Fprintf(&k.b, "ghost %s %c %v %v %d:", g.q, g.end, g.erred, g.eof, len(g.heads))
	k.pieces(g.val)
	k.b.WriteByte('@')
	k.lin(g.line)
	k.lin(g.col)
	if g.peeked != nil {
		k.val(g.peeked)
	}
}

// VMark remembers quantities at a loop head.
type VMark struct {
	ints  map[string]Lin
	texts map[string]string
	cnt   Lin
}

func (m VMark) valKey() string { return "mark" }
func (m VMark) writeKey(k *keyer) {
	for _, n := range sortedKeys(m.ints) {
		k.lin(m.ints[n])
		k.b.WriteByte(',')
	}
	k.lin(m.cnt)
}

type tkClient struct {
	p       *Program
	e       *Engine
	ghost   int
	scanner types.Type
	kinds   map[string]int64
	start   [][2]rune // identifier classes of the dialect
	part    [][2]rune
	delim   map[rune]rune
	where   string
	facts   *tkFacts
	onExit  func(s *State, res []Val)
	dialect string
	roots   []int // objects the check looks at in the end
	summary bool  // Scan is summarised
	scan    *ssa.Function
	eof     int // the object holding io.EOF
}

type tkFacts struct {
	findings  map[string][]Finding
	undecided []string
	counts    map[string]int
	kindsSeen map[string]bool
}

// the lexical classes each shipped dialect documents
var tkDialects = map[string]struct {
	start, part string
	delim       map[rune]rune
}{
	"GenericSQLDialect": {"azAZ@@", "azAZ09@@__", map[rune]rune{'"': '"'}},
	"MySQLDialect":      {"azAZ@@", "azAZ09@@__", map[rune]rune{'"': '"', '`': '`'}},
	"PostgresqlDialect": {"azAZ__", "azAZ09$$__", map[rune]rune{'"': '"', '`': '`'}},
}

func ranges(s string) (out [][2]rune) {
	for i := 0; i+1 < len(s); i += 2 {
		out = append(out, [2]rune{rune(s[i]), rune(s[i+1])})
	}
	return
}

var tkSingles = map[rune]string{
	'(': "LParen", ')': "RParen", ',': "Comma", '+': "Plus", '*': "Mult", '%': "Mod", '=': "Eq", '.': "Period",
	';': "Semicolon", '\\': "Backslash", '[': "LBracket", ']': "RBracket", '&': "Ampersand", '{': "LBrace", '}': "RBrace",
}

func (k *tkClient) g(s *State) VGhost { return s.get(k.ghost).V.(VGhost) }
func (k *tkClient) setG(s *State, g VGhost) {
	s.heap[k.ghost] = &Obj{V: g}
}

func isEq(s *State, r Val, c rune) bool {
	return s.must(Atom{K: "eq0", L: r.(VInt).L.add(linC(int64(c)), -1)})
}

func inRanges(s *State, r Val, rs [][2]rune) bool {
	l := r.(VInt).L
	for _, x := range rs {
		if x[0] == x[1] {
			if isEq(s, r, x[0]) {
				return true
			}
		} else if s.must(Atom{K: "ge0", L: l.add(linC(int64(x[0])), -1)}) && s.must(Atom{K: "ge0", L: linC(int64(x[1])).add(l, -1)}) {
			return true
		}
	}
	return false
}

func (k *tkClient) find(s *State, prop, rule, at, detail string) {
	f := Finding{Rule: rule, At: at + " [" + k.dialect + "]", Where: k.where, Detail: detail, Path: s.trail()}
	k.facts.findings[prop] = append(k.facts.findings[prop], f)
	s.dead = true
	panic(abandon{})
}

// peek is the next rune of the source.
func (k *tkClient) peek(s *State, fail bool) Val {
	g := k.g(s)
	if g.peeked != nil {
		return g.peeked
	}
	mk := func(n *State, erred bool) {
		g := k.g(n)
		t := freshTerm(types.Typ[types.Rune], "rune")
		lo, hi := int64(-1), int64(utf8.MaxRune)
		n.facts[t] = Fact{Lo: &lo, Hi: &hi}
		g.peeked = VInt{linT(t)}
		g.erred = g.erred || erred
		k.setG(n, g)
	}
	alts := []alt{{"", func(n *State) bool { mk(n, false); return true }}}
	if fail && !g.erred {
		alts = append(alts, alt{"the reader fails or the text is malformed here", func(n *State) bool {
			mk(n, true)
			k.callback(n)
			return true
		}})
	}
	panic(forkReq{alts})
}

// callback runs the error function of the scanner, if one is set.
func (k *tkClient) callback(s *State) {
	for _, id := range k.heapIDs(s) {
		o := s.heap[id]
		if o.Typ == nil || !types.Identical(o.Typ, k.scanner) {
			continue
		}
		st := under(k.scanner).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() != "Error" {
				continue
			}
			if fn, ok := readPath(o.V, fmt.Sprintf(".%d", i)).(VFunc); ok {
				fr := s.push(fn.Fn, []Val{VPtr{Obj: id}, VStr{[]Piece{{T: freshTerm(types.Typ[types.String], "reason")}}}}, fn.Bind, nil)
				fr.isDeferred = true
			}
		}
	}
}

func (k *tkClient) heapIDs(s *State) []int {
	var ids []int
	for id := range s.heap {
		if id != k.ghost {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	return ids
}

func runePiece(r Val) Piece {
	l := r.(VInt).L
	if l.isConst() {
		return Piece{Lit: string(rune(l.C))}
	}
	return Piece{T: callVal(types.Typ[types.String], "conv:string", r).(VStr).P[0].T}
}

// advance is the reader's step over rune r, which is consumed.
func (k *tkClient) advance(s *State, g VGhost, r Val) VGhost {
	emit := func(x ...Piece) {
		for _, p := range x {
			g.val = concatPieces(g.val, []Piece{p})
		}
	}
	if isEq(s, r, -1) {
		g.eof = true
		g.peeked = r
		return g
	}
	g.peeked = nil
	g.heads = nil
	if g.erred {
		return g
	}
	r = VInt{s.norm(r.(VInt).L)}
	rp := runePiece(r)
	move := 1 // columns; -1 new line, 0 none
	over := func() {
		k.find(s, "C16", "a token takes no more than its own text", "token "+k.kindOf(g), "a rune is consumed that does not belong to the token")
	}
	switch g.q {
	case "start":
		emit(rp)
		switch {
		case isEq(s, r, ' '):
			g.q = "ws"
		case isEq(s, r, '\t'):
			g.q = "ws"
			move = 4
		case isEq(s, r, '\n'):
			g.q = "ws"
			move = -1
		case isEq(s, r, '\r'):
			g.q = "cr"
			g.val = []Piece{{Lit: "\n"}}
			move = -1
		case inRanges(s, r, k.start):
			g.q = "word"
			if isEq(s, r, 'N') {
				g.q = "wordN"
			}
		case isEq(s, r, '\''):
			g.q = "sq"
			g.val = nil
		case inRanges(s, r, [][2]rune{{'0', '9'}}):
			g.q = "num"
		case isEq(s, r, '-'):
			g.q = "minus"
		case isEq(s, r, '/'):
			g.q = "div"
		case isEq(s, r, '!'):
			g.q = "bang"
		case isEq(s, r, '<'):
			g.q = "lt"
		case isEq(s, r, '>'):
			g.q = "gt"
		case isEq(s, r, ':'):
			g.q = "colon"
		default:
			for _, d := range runeKeys(k.delim) {
				if isEq(s, r, d) {
					g.q = "dq"
					g.end = k.delim[d]
					g.val = nil
				}
			}
			if g.q != "start" {
				break
			}
			var cs []rune
			for c := range tkSingles {
				cs = append(cs, c)
			}
			sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
			for _, c := range cs {
				if isEq(s, r, c) {
					g.q = "done:" + tkSingles[c]
				}
			}
			if g.q == "start" {
				g.q = "done:Char"
			}
		}
	case "cr":
		if !isEq(s, r, '\n') {
			over()
		}
		g.q = "ws"
		move = 0
	case "word", "wordN":
		if g.q == "wordN" && isEq(s, r, '\'') {
			g.q = "nsq"
			g.val = nil
			break
		}
		if !inRanges(s, r, k.part) {
			over()
		}
		g.q = "word"
		emit(rp)
	case "sq", "nsq":
		if isEq(s, r, '\'') {
			g.q += "q"
			break
		}
		emit(rp)
		if isEq(s, r, '\n') {
			move = -1
		}
	case "sqq", "nsqq":
		if !isEq(s, r, '\'') {
			over()
		}
		g.q = g.q[:len(g.q)-1]
		emit(rp)
	case "dq":
		if isEq(s, r, g.end) {
			g.q = "dqq"
			break
		}
		emit(rp)
		if isEq(s, r, '\n') {
			move = -1
		}
	case "dqq":
		if !isEq(s, r, g.end) {
			over()
		}
		g.q = "dq"
		emit(rp)
	case "num":
		if !inRanges(s, r, [][2]rune{{'0', '9'}, {'.', '.'}}) {
			over()
		}
		emit(rp)
	case "minus":
		if !isEq(s, r, '-') {
			over()
		}
		g.q = "lc"
		g.val = nil
	case "lc":
		if isEq(s, r, '\n') {
			over()
		}
		emit(rp)
	case "div":
		if !isEq(s, r, '*') {
			over()
		}
		g.q = "mlc"
		g.val = nil
	case "mlc", "mlcstar", "mlccr":
		if g.q == "mlccr" && isEq(s, r, '\n') {
			// the two together are one line end
			emit(Piece{Lit: "\n"})
			g.q = "mlc"
			move = 0
			break
		}
		if g.q == "mlccr" {
			emit(Piece{Lit: "\r"})
		}
		if g.q == "mlcstar" {
			if isEq(s, r, '/') {
				g.q = "done:Comment"
				break
			}
			emit(Piece{Lit: "*"})
		}
		switch {
		case isEq(s, r, '*'):
			g.q = "mlcstar"
		case isEq(s, r, '\r'):
			g.q = "mlccr"
			move = -1
		case isEq(s, r, '\n'):
			g.q = "mlc"
			emit(rp)
			move = -1
		default:
			g.q = "mlc"
			emit(rp)
		}
	case "bang":
		if isEq(s, r, '=') {
			g.q = "done:Neq"
			emit(rp)
		} else {
			g.q = "illegal"
		}
	case "illegal":
	case "lt", "gt", "colon":
		two := map[string]map[rune]string{"lt": {'=': "LtEq", '>': "Neq"}, "gt": {'=': "GtEq"}, "colon": {':': "DoubleColon"}}[g.q]
		hit := ""
		for _, c := range runeKeys(two) {
			if isEq(s, r, c) {
				hit = two[c]
			}
		}
		if hit == "" {
			over()
		}
		g.q = "done:" + hit
		emit(rp)
	default:
		over()
	}
	switch move {
	case -1:
		g.line = g.line.add(linC(1), 1)
		g.col = linC(1)
	default:
		g.col = g.col.add(linC(int64(move)), 1)
	}
	return g
}

func runeKeys[V any](m map[rune]V) (out []rune) {
	for c := range m {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}

// kindOf is the kind of the token the reader has read, "" when it is not
// complete.
func (k *tkClient) kindOf(g VGhost) string {
	switch g.q {
	case "ws", "cr":
		return "Whitespace"
	case "word", "wordN", "dqq":
		return "SQLKeyword"
	case "sqq":
		return "SingleQuotedString"
	case "nsqq":
		return "NationalStringLiteral"
	case "num":
		return "Number"
	case "minus":
		return "Minus"
	case "div":
		return "Div"
	case "lt":
		return "Lt"
	case "gt":
		return "Gt"
	case "colon":
		return "Colon"
	case "lc":
		return "Comment"
	}
	return strings.TrimPrefix(g.q, "done:")
}

func (k *tkClient) open(g VGhost) string {
	return map[string]string{"sq": "a string", "nsq": "a national string", "dq": "a quoted identifier",
		"mlc": "a comment", "mlcstar": "a comment", "mlccr": "a comment"}[g.q]
}

// extends reports whether the token goes on with rune r.
func (k *tkClient) extends(s *State, g VGhost, r Val) bool {
	switch g.q {
	case "cr":
		return isEq(s, r, '\n')
	case "word":
		return inRanges(s, r, k.part)
	case "wordN":
		return isEq(s, r, '\'') || inRanges(s, r, k.part)
	case "sqq", "nsqq":
		return isEq(s, r, '\'')
	case "dqq":
		return isEq(s, r, g.end)
	case "num":
		return inRanges(s, r, [][2]rune{{'0', '9'}, {'.', '.'}})
	case "minus":
		return isEq(s, r, '-')
	case "div":
		return isEq(s, r, '*')
	case "lt":
		return isEq(s, r, '=') || isEq(s, r, '>')
	case "gt", "bang":
		return isEq(s, r, '=')
	case "colon":
		return isEq(s, r, ':')
	case "lc":
		return !isEq(s, r, '\n') && !isEq(s, r, -1)
	}
	return false
}

// ---- hooks ----

func (k *tkClient) call(s *State, c *Call) bool {
	switch c.name() {
	case "(*text/scanner.Scanner).Init":
		p, ok := c.Args[0].(VPtr)
		if !ok {
			return false
		}
		o := *s.get(p.Obj)
		if a, ok := o.V.(VAgg); ok {
			f := append([]Val(nil), a.F...)
			for i, x := range f {
				if y, ok := x.(VAgg); ok && len(y.F) > 64 {
					f[i] = VTop{}
				}
			}
			o.V = VAgg{f}
		}
		s.heap[p.Obj] = &o
		s.ret(c, c.Args[0])
		return true
	case "(*text/scanner.Scanner).Peek":
		s.ret(c, k.peek(s, true))
		return true
	case "(*text/scanner.Scanner).Next":
		r := k.peek(s, true)
		g := k.advance(s, k.g(s), r)
		k.setG(s, g)
		s.ret(c, VInt{s.norm(r.(VInt).L)})
		return true
	case "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount":
		if ps, ok := textOf(c.Args[0]); ok {
			if l, ok := countRunes(s, ps); ok {
				s.ret(c, VInt{l})
				return true
			}
		}
	}
	if k.summary && c.Fn != nil {
		return k.summarise(s, c)
	}
	return false
}

func textOf(v Val) ([]Piece, bool) {
	switch v := v.(type) {
	case VStr:
		return v.P, true
	case VRunes:
		return v.P, true
	case VBytes:
		return v.P, true
	}
	return nil, false
}

// atoms splits a text into its runes and the stretches that are not known rune
// by rune.
func atoms(s *State, ps []Piece) []Piece {
	var out []Piece
	for _, p := range ps {
		if p.T == nil {
			for _, r := range p.Lit {
				out = append(out, Piece{Lit: string(r)})
			}
			continue
		}
		if p.T.Op == "conv:string" && len(p.T.Args) == 1 {
			if r, ok := p.T.Args[0].(VInt); ok {
				out = append(out, runePiece(VInt{s.norm(r.L)}))
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

func joinAtoms(as []Piece) []Piece { // merges literals
	var out []Piece
	for _, a := range as {
		out = concatPieces(out, []Piece{a})
	}
	return out
}

func runesTerm(t *Term) *Term { return mkTerm(types.Typ[types.Int], "runes", VTerm{t}) }

// countRunes is the number of runes of a text.
func countRunes(s *State, ps []Piece) (Lin, bool) {
	l := Lin{}
	for _, a := range atoms(s, ps) {
		switch {
		case a.T == nil || a.T.Op == "conv:string":
			l.C++
		case strings.HasPrefix(a.T.Op, "fresh:segment"):
			t := runesTerm(a.T)
			if s.facts[t].Lo == nil {
				z := int64(0)
				s.facts[t] = Fact{Lo: &z}
			}
			l = l.add(linT(t), 1)
		default:
			return l, false
		}
	}
	return l, true
}

func ascii(s *State, a Piece) bool {
	if a.T == nil {
		return a.Lit[0] < 0x80
	}
	if a.T.Op == "conv:string" {
		_, hi := s.linBounds(s.norm(a.T.Args[0].(VInt).L))
		return hi != nil && *hi < 0x80
	}
	return a.T.Op == "fresh:segment-ascii"
}

func (k *tkClient) length(s *State, x Val) (Val, bool) {
	ps, ok := textOf(x)
	if !ok {
		return nil, false
	}
	if _, ok := x.(VRunes); !ok {
		for _, a := range atoms(s, ps) {
			if !ascii(s, a) {
				return nil, false
			}
		}
	}
	l, ok := countRunes(s, ps)
	return VInt{l}, ok
}

func isRunes(t types.Type) bool {
	sl, ok := under(t).(*types.Slice)
	return ok && isRune(sl.Elem())
}

func isRune(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (k *tkClient) convert(s *State, to types.Type, x Val) (Val, bool) {
	switch v := x.(type) {
	case VRunes:
		if isString(to) {
			return VStr{v.P}, true
		}
	case VStr:
		if isRunes(to) {
			return VRunes{v.P}, true
		}
	}
	return nil, false
}

func (k *tkClient) append(s *State, typ, elem types.Type, x Val, ys []Val) (Val, bool) {
	if !isRune(elem) {
		return nil, false
	}
	var ps []Piece
	switch v := x.(type) {
	case VNil:
	case VRunes:
		ps = v.P
	case VSlice:
		for j := 0; j < v.Len; j++ {
			ps = concatPieces(ps, []Piece{runePiece(readPath(s.get(v.Obj).V, fmt.Sprintf(".%d", v.Off+j)))})
		}
	default:
		return nil, false
	}
	if ys == nil {
		return nil, false
	}
	for _, y := range ys {
		n, ok := y.(VInt)
		if !ok {
			return nil, false
		}
		n.L = s.norm(n.L)
		if n.L.isConst() && n.L.C < 0 {
			// the end of the source is no rune of the text
			ps = concatPieces(ps, []Piece{{T: mkTerm(types.Typ[types.String], "eof")}})
			continue
		}
		ps = concatPieces(ps, []Piece{runePiece(n)})
	}
	return VRunes{ps}, true
}

// indexAddr reads one rune of a text.
func (k *tkClient) indexAddr(s *State, i ssa.Instruction, x, idx Val) (Val, bool) {
	v, ok := x.(VRunes)
	n, ok2 := idx.(VInt)
	if !ok || !ok2 {
		return nil, false
	}
	as := atoms(s, v.P)
	total, ok := countRunes(s, v.P)
	if !ok {
		return nil, false
	}
	if !s.must(Atom{K: "ge0", L: n.L}) || !s.must(Atom{K: "ge0", L: total.add(n.L, -1).add(linC(1), -1)}) {
		s.fault("index out of range")
		return nil, true
	}
	one := func(a Piece) Val {
		if a.T == nil {
			r, _ := utf8.DecodeRuneInString(a.Lit)
			return VInt{linC(int64(r))}
		}
		if a.T.Op == "conv:string" {
			return a.T.Args[0]
		}
		return VInt{linT(freshTerm(types.Typ[types.Rune], "rune"))}
	}
	var r Val = VInt{linT(freshTerm(types.Typ[types.Rune], "rune"))}
	if d := s.norm(n.L); d.isConst() {
		for j, a := range as {
			if a.T != nil && strings.HasPrefix(a.T.Op, "fresh:segment") {
				break
			}
			if int64(j) == d.C {
				r = one(a)
			}
		}
	}
	if d := s.norm(total.add(n.L, -1)); d.isConst() {
		for j := range as {
			a := as[len(as)-1-j]
			if a.T != nil && strings.HasPrefix(a.T.Op, "fresh:segment") {
				break
			}
			if int64(j)+1 == d.C {
				r = one(a)
			}
		}
	}
	o := s.newObj(types.Typ[types.Rune], r)
	s.heap[o].Tag = "copy"
	return VPtr{Obj: o}, true
}

// slice cuts a text where its runes are known.
func (k *tkClient) slice(s *State, i *ssa.Slice, x, lo, hi Val) (Val, bool) {
	ps, ok := textOf(x)
	if !ok {
		return nil, false
	}
	as := atoms(s, ps)
	if _, ok := x.(VRunes); !ok {
		for _, a := range as {
			if !ascii(s, a) {
				return nil, false
			}
		}
	}
	cut := func(at Lin) int {
		at = s.norm(at)
		for j := 0; j <= len(as); j++ {
			l, ok := countRunes(s, as[:j])
			if !ok {
				return -1
			}
			if d := s.norm(l.add(at, -1)); d.isConst() && d.C == 0 {
				return j
			}
		}
		return -1
	}
	from, to := 0, len(as)
	if lo != nil {
		n, ok := lo.(VInt)
		if !ok {
			return nil, false
		}
		from = cut(n.L)
	}
	if hi != nil {
		n, ok := hi.(VInt)
		if !ok {
			return nil, false
		}
		to = cut(n.L)
	}
	if from < 0 || to < from {
		return nil, false
	}
	out := joinAtoms(as[from:to])
	switch x.(type) {
	case VRunes:
		return VRunes{out}, true
	case VStr:
		return VStr{out}, true
	}
	return nil, false
}

// lookup decides whether a word is in a large table at once.
func (k *tkClient) lookup(s *State, i *ssa.Lookup, x VMap, mc *mapContent, key Val) (v Val, in bool) {
	ps, _ := textOf(key)
	if l, ok := piecesLit(joinAtoms(atoms(s, ps))); ok {
		if v, ok := mc.Elem[valKey(litStr(l))]; ok {
			return v, true
		}
		return nil, false
	}
	t := mkTerm(types.Typ[types.Bool], "inmap", x, key)
	if !s.must(Atom{K: "true", T: t}) {
		return nil, false
	}
	var lits []string
	var vals []Val
	for _, mk := range mc.Keys {
		l, ok := strLit(mc.KeyV[mk])
		if !ok {
			panic(undecided{"a table with an unknown key in " + s.where()})
		}
		lits = append(lits, l)
		vals = append(vals, mc.Elem[mk])
	}
	return k.uniform(s, lits, vals, key, s.where()), true
}

// uniform expresses the entries of a table as one function of the key.
func (k *tkClient) uniform(s *State, keys []string, vals []Val, key Val, where string) Val {
	switch v0 := vals[0].(type) {
	case VPtr:
		var inner []Val
		for _, v := range vals {
			p, ok := v.(VPtr)
			if !ok || p.Path != "" {
				panic(undecided{"a table with irregular entries in " + where})
			}
			inner = append(inner, s.get(p.Obj).V)
		}
		return VPtr{Obj: s.newObj(s.get(v0.Obj).Typ, k.uniform(s, keys, inner, key, where))}
	case VAgg:
		out := VAgg{F: make([]Val, len(v0.F))}
		for i := range v0.F {
			var inner []Val
			for _, v := range vals {
				inner = append(inner, v.(VAgg).F[i])
			}
			out.F[i] = k.uniform(s, keys, inner, key, where)
		}
		return out
	case VIface:
		same := true
		for _, v := range vals {
			same = same && valKey(v) == valKey(v0)
		}
		if same {
			return v0
		}
	case VStr:
		rel := []struct {
			name string
			f    func(string) string
			v    Val
		}{
			{"key", func(s string) string { return s }, key},
			{"upper", strings.ToUpper, callVal(types.Typ[types.String], "strings.ToUpper", key)},
			{"lower", strings.ToLower, callVal(types.Typ[types.String], "strings.ToLower", key)},
		}
		best, bad := -1, ""
		for r := range rel {
			n, miss := 0, ""
			for i, v := range vals {
				if l, ok := strLit(v); ok && l == rel[r].f(keys[i]) {
					n++
				} else if miss == "" {
					miss = keys[i]
				}
			}
			if n == len(vals) {
				return rel[r].v
			}
			if n > best {
				best, bad = n, miss
			}
		}
		same := true
		for _, v := range vals {
			same = same && valKey(v) == valKey(v0)
		}
		if same {
			return v0
		}
		k.find(s, "C16", "words are classified alike", "table entry "+bad, "the entry for this word does not follow the rule the other entries follow")
	default:
		same := true
		for _, v := range vals {
			same = same && valKey(v) == valKey(v0)
		}
		if same {
			return v0
		}
	}
	panic(undecided{"a table with irregular entries in " + where})
}

// ---- loops ----

type tkQuant struct {
	ints  map[string]Lin
	texts map[string][]Piece
}

// rewrite visits every integer and text the code holds, replacing it by what fn
// returns.
func (k *tkClient) rewrite(s *State, fn func(name string, v Val) Val) {
	var val func(name string, t types.Type, v Val) Val
	val = func(name string, t types.Type, v Val) Val {
		switch v := v.(type) {
		case VInt:
			if t != nil && isRune(t) || v.L.isConst() && len(name) == 0 {
				return v
			}
			return fn(name, v)
		case VStr, VRunes, VBytes:
			return fn(name, v)
		case VAgg:
			st, _ := under2(t).(*types.Struct)
			var f []Val
			for i, x := range v.F {
				var ft types.Type
				if st != nil && i < st.NumFields() {
					ft = st.Field(i).Type()
				}
				y := val(fmt.Sprintf("%s.%d", name, i), ft, x)
				if f == nil {
					f = append([]Val(nil), v.F...)
				}
				f[i] = y
			}
			return VAgg{f}
		}
		return v
	}
	for i, f := range s.frames {
		for _, r := range s.eng.liveAt(f, i == len(s.frames)-1 || s.frames[i+1].isDeferred) {
			if x, ok := f.env[r]; ok {
				f.env[r] = val(fmt.Sprintf("r%d.%s", i, r.Name()), r.Type(), x)
			}
		}
	}
	for _, id := range k.heapIDs(s) {
		o := s.heap[id]
		if o.V == nil || o.Typ == nil || types.Identical(o.Typ, k.scanner) {
			continue
		}
		n := *o
		n.V = val(fmt.Sprintf("h%d", id), o.Typ, o.V)
		s.heap[id] = &n
	}
	// texts written to builders
	var order []string
	by := map[string]Val{}
	for _, e := range s.out {
		if e.K == "w" {
			w := valKey(e.V[0])
			if _, ok := by[w]; !ok {
				order = append(order, w)
				by[w] = e.V[0]
			}
		}
	}
	if len(order) > 0 {
		var out []Ev
		for _, e := range s.out {
			if e.K != "w" && e.K != "reset" {
				out = append(out, e)
			}
		}
		for _, w := range order {
			ps := writtenTo(s, s.out, w)
			v := fn("b"+w, VStr{ps})
			out = append(out, Ev{K: "w", V: []Val{by[w], v}})
		}
		s.out = out
	}
}

func under2(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return under(t)
}

func piecesKey(ps []Piece) string {
	var b strings.Builder
	writePieces(&b, ps)
	return b.String()
}

func (k *tkClient) head(s *State) bool {
	if k.summary {
		return true
	}
	f := s.top()
	g := k.g(s)
	if g.q == "" {
		return true
	}
	if g.q == "mlccr" && g.peeked != nil && !g.erred && !isEq(s, g.peeked, '\n') {
		// a line end of its own
		g.val = concatPieces(g.val, []Piece{{Lit: "\r"}})
		g.q = "mlc"
	}
	key := fmt.Sprintf("%d.%d", f.id, f.block.Index)
	n := 0
	for _, h := range g.heads {
		if h == key {
			n++
		}
	}
	if n > 2 {
		what := "a loop is repeated without reading on"
		if g.eof {
			what = "a loop is repeated at the end of the source"
		}
		k.find(s, "C18", "every loop reads on or ends", f.fn.String()+", reading "+k.reading(g), what)
	}
	g.heads = append(g.heads[:len(g.heads):len(g.heads)], key)
	g.val = joinAtoms(atoms(s, g.val))
	g.line, g.col = s.norm(g.line), s.norm(g.col)
	if g.erred {
		// only the report of the failure matters now
		g.val, g.line, g.col = nil, linC(0), linC(0)
		k.setG(s, g)
		k.rewrite(s, func(name string, v Val) Val {
			switch v.(type) {
			case VInt:
				return VInt{linT(freshTerm(types.Typ[types.Int], "count"))}
			case VStr:
				return VStr{[]Piece{{T: freshTerm(types.Typ[types.String], "segment")}}}
			case VRunes:
				return VRunes{[]Piece{{T: freshTerm(types.Typ[types.String], "segment")}}}
			}
			return v
		})
		delete(f.marks, f.block.Index)
		return true
	}
	k.setG(s, g)
	var prev *VMark
	if m, ok := f.marks[f.block.Index]; ok {
		pm := m[0].(VMark)
		prev = &pm
		if n > 0 {
			return true
		}
	}
	k.collect(s)
	// read all quantities
	q := tkQuant{map[string]Lin{}, map[string][]Piece{}}
	k.rewrite(s, func(name string, v Val) Val {
		switch v := v.(type) {
		case VInt:
			q.ints[name] = s.norm(v.L)
			return VInt{q.ints[name]}
		case VStr:
			q.texts[name] = joinAtoms(atoms(s, v.P))
			return VStr{q.texts[name]}
		case VRunes:
			q.texts[name] = joinAtoms(atoms(s, v.P))
			return VRunes{q.texts[name]}
		}
		return v
	})
	cnt, ok := countRunes(s, g.val)
	if !ok {
		panic(undecided{"a text of unknown extent in " + s.where()})
	}
	if prev != nil {
		changed := map[string]bool{}
		for name, ps := range q.texts {
			if piecesKey(ps) != prev.texts[name] {
				changed[name] = true
			}
		}
		spec := atoms(s, g.val)
		pending := map[string]string{"mlcstar": "*", "mlccr": "\r", "sqq": "'", "nsqq": "'", "dqq": string(g.end)}[g.q]
		segs := map[*Term]bool{}
		for _, a := range spec {
			if a.T != nil && strings.HasPrefix(a.T.Op, "fresh:segment") {
				segs[a.T] = true
			}
		}
		for name, ps := range q.texts {
			for _, a := range ps {
				if segs[a.T] {
					changed[name] = true
				}
			}
		}
		// the stretch of the text that all of them share
		S, E := 0, len(spec)
		shift := map[string]int{}
		for _, name := range sortedKeys(changed) {
			a := atoms(s, q.texts[name])
			o, d, n := align(a, spec, pending)
			if n < 0 {
				k.find(s, "C16", "the value of a token is its text", "reading "+k.reading(g), fmt.Sprintf("the text collected so far is %q, the text read is %q", showText(s, joinAtoms(a)), showText(s, joinAtoms(spec))))
			}
			if o > S {
				S = o
			}
			if o+n < E {
				E = o + n
			}
			shift[name] = d - o
		}
		if E < S {
			E = S
		}
		if len(spec)-(E-S) > 6 {
			k.find(s, "C16", "the value of a token is its text", "reading "+k.reading(g), "the text collected so far departs from the text read: "+showText(s, g.val))
		}
		ncol, nline := g.col, g.line
		newCnt := cnt
		if E > S && !(E == S+1 && segs[spec[S].T]) {
			op := "segment-ascii"
			for _, a := range spec[S:E] {
				if !ascii(s, a) {
					op = "segment"
				}
			}
			seg := Piece{T: freshTerm(types.Typ[types.String], op)}
			swap := func(a []Piece, from, to int) []Piece {
				out := append([]Piece(nil), a[:from]...)
				return joinAtoms(append(append(out, seg), a[to:]...))
			}
			g.val = swap(spec, S, E)
			for name := range changed {
				q.texts[name] = swap(atoms(s, q.texts[name]), S+shift[name], E+shift[name])
			}
			newCnt, _ = countRunes(s, g.val)
		}
		same := func(a, b Lin) bool { d := s.norm(a).add(s.norm(b), -1); return d.isConst() && d.C == 0 }
		pcol, pline := prev.ints["ghost.col"], prev.ints["ghost.line"]
		fresh := func(name string) Lin {
			t := freshTerm(types.Typ[types.Int], name)
			if name == "line" || name == "column" {
				one := int64(1)
				s.facts[t] = Fact{Lo: &one}
			}
			return linT(t)
		}
		old := VGhost{col: g.col, line: g.line}
		switch {
		case same(g.col, pcol):
		case same(g.col.add(cnt, -1), pcol.add(prev.cnt, -1)):
			ncol = g.col.add(cnt, -1).add(newCnt, 1)
		default:
			ncol = fresh("column")
		}
		if !same(g.line, pline) {
			nline = fresh("line")
		}
		for name, x := range q.ints {
			p, ok := prev.ints[name]
			switch {
			case ok && same(x, p):
			case ok && same(x.add(old.col, -1), p.add(pcol, -1)) && !same(old.col, pcol):
				q.ints[name] = x.add(old.col, -1).add(ncol, 1)
			case ok && same(x.add(old.line, -1), p.add(pline, -1)) && !same(old.line, pline):
				q.ints[name] = x.add(old.line, -1).add(nline, 1)
			case ok && same(x.add(cnt, -1), p.add(prev.cnt, -1)):
				q.ints[name] = x.add(cnt, -1).add(newCnt, 1)
			case x.isConst() && !ok:
			default:
				if ok || !x.isConst() {
					if d := x.add(old.col, -1); d.isConst() && !same(old.col, ncol) {
						q.ints[name] = ncol.add(d, 1)
					} else if d := x.add(old.line, -1); d.isConst() && !same(old.line, nline) {
						q.ints[name] = nline.add(d, 1)
					} else {
						q.ints[name] = fresh("count")
					}
				}
			}
			if l := s.norm(q.ints[name]); len(l.T) > 4 {
				q.ints[name] = fresh("count")
			}
		}
		g.col, g.line = ncol, nline
		cnt = newCnt
		k.rewrite(s, func(name string, v Val) Val {
			switch v.(type) {
			case VInt:
				return VInt{q.ints[name]}
			case VStr:
				return VStr{q.texts[name]}
			case VRunes:
				return VRunes{q.texts[name]}
			}
			return v
		})
		k.setG(s, g)
	}
	m := VMark{ints: map[string]Lin{}, texts: map[string]string{}, cnt: cnt}
	for n, l := range q.ints {
		m.ints[n] = l
	}
	for n, ps := range q.texts {
		m.texts[n] = piecesKey(ps)
	}
	m.ints["ghost.col"], m.ints["ghost.line"] = g.col, g.line
	if f.marks == nil {
		f.marks = map[int][]Val{}
	}
	f.marks[f.block.Index] = []Val{m}
	return true
}

// align finds where a text a runs along with the text read: a[d:d+n] is
// spec[o:o+n], up to the end of one of them; n is -1 when it does not.
func align(a, spec []Piece, pending string) (o, d, n int) {
	if len(a) == 0 || len(spec) == 0 {
		return 0, 0, 0
	}
	full := spec
	if pending != "" {
		full = append(append([]Piece(nil), spec...), Piece{Lit: pending})
	}
	run := func(spec []Piece, o, d int) (n int, whole, part bool) {
		for d+n < len(a) && o+n < len(spec) && a[d+n].Lit == spec[o+n].Lit && a[d+n].T == spec[o+n].T {
			n++
		}
		x, y := d+n == len(a), o+n == len(spec)
		return n, n > 0 && x && y, n > 0 && (x || y)
	}
	for _, whole := range []bool{true, false} {
		for sum := 0; sum <= 4; sum++ {
			for o := 0; o <= sum; o++ {
				d := sum - o
				if o > 2 || d > 2 || o >= len(spec) || d >= len(a) {
					continue
				}
				for _, sp := range [][]Piece{spec, full} {
					n, w, p := run(sp, o, d)
					if w || !whole && p {
						if o+n > len(spec) {
							n = len(spec) - o
						}
						return o, d, n
					}
				}
			}
		}
	}
	if len(a) <= 2 || len(spec) <= 1 {
		// too early to tell
		return 0, 0, 0
	}
	return 0, 0, -1
}

// collect drops the objects nothing refers to any more.
func (k *tkClient) collect(s *State) {
	live := map[int]bool{k.ghost: true}
	var queue []int
	var val func(v Val)
	terms := map[*Term]bool{}
	var term func(t *Term)
	term = func(t *Term) {
		if terms[t] {
			return
		}
		terms[t] = true
		for _, a := range t.Args {
			val(a)
		}
		if l, ok := s.subst[t]; ok {
			for _, x := range l.T {
				term(x.T)
			}
		}
	}
	lin := func(l Lin) {
		for _, x := range l.T {
			term(x.T)
		}
	}
	text := func(ps []Piece) {
		for _, p := range ps {
			if p.T != nil {
				term(p.T)
			}
		}
	}
	ref := func(id int) {
		if !live[id] {
			live[id] = true
			queue = append(queue, id)
		}
	}
	val = func(v Val) {
		switch v := v.(type) {
		case VPtr:
			ref(v.Obj)
		case VSlice:
			ref(v.Obj)
		case VMap:
			ref(v.Obj)
		case VAgg:
			for _, x := range v.F {
				val(x)
			}
		case VIface:
			val(v.V)
		case VFunc:
			for _, x := range v.Bind {
				val(x)
			}
		case VTerm:
			term(v.T)
			if id, ok := s.lazy[v.T]; ok {
				ref(id)
			}
		case VInt:
			lin(v.L)
		case VStr:
			text(v.P)
		case VRunes:
			text(v.P)
		case VBytes:
			text(v.P)
		case VMark:
			for _, l := range v.ints {
				lin(l)
			}
			lin(v.cnt)
		case VGhost:
			text(v.val)
			lin(v.line)
			lin(v.col)
			if v.peeked != nil {
				val(v.peeked)
			}
		}
	}
	val(k.g(s))
	for i, f := range s.frames {
		for _, r := range s.eng.liveAt(f, i == len(s.frames)-1 || s.frames[i+1].isDeferred) {
			val(f.env[r])
		}
		for _, m := range f.marks {
			for _, v := range m {
				val(v)
			}
		}
		for _, d := range f.defers {
			val(d.fn)
			for _, a := range d.args {
				val(a)
			}
		}
	}
	for _, e := range s.out {
		for _, v := range e.V {
			val(v)
		}
	}
	val(s.panicV)
	for _, id := range k.roots {
		ref(id)
	}
	for id := range s.heap {
		if _, ok := s.eng.base[id]; ok {
			ref(id)
		}
	}
	for len(queue) > 0 {
		id := queue[0]
		queue = queue[1:]
		o := s.get(id)
		if o == nil {
			continue
		}
		val(o.V)
		if o.Map != nil {
			for _, x := range o.Map.Elem {
				val(x)
			}
		}
	}
	for id := range s.heap {
		if !live[id] {
			delete(s.heap, id)
		}
	}
	dead := func(t *Term) bool {
		if terms[t] {
			return false
		}
		if strings.HasPrefix(t.Op, "fresh:") {
			return true
		}
		for _, a := range t.Args {
			if x, ok := a.(VTerm); ok && strings.HasPrefix(x.T.Op, "fresh:") && !terms[x.T] {
				return true
			}
		}
		return false
	}
	for t := range s.facts {
		if dead(t) {
			delete(s.facts, t)
		}
	}
	for t := range s.subst {
		if dead(t) {
			delete(s.subst, t)
		}
	}
	for id := range s.lazy {
		if dead(id) {
			delete(s.lazy, id)
		}
	}
	forget := func(ls []Lin) []Lin {
		var out []Lin
		for _, l := range ls {
			keep := len(l.T) > 0
			for _, x := range l.T {
				keep = keep && !dead(x.T)
			}
			if keep {
				out = append(out, l)
			}
		}
		return out
	}
	s.ineqs, s.neqs = forget(s.ineqs), forget(s.neqs)
}

func (k *tkClient) reading(g VGhost) string {
	if o := k.open(g); o != "" {
		return o
	}
	if g.q == "start" {
		return "the start of a token"
	}
	if x := k.kindOf(g); x != "" {
		return x
	}
	return g.q
}

// ---- running ----

func (p *Program) tkEngine(base *Engine) *tkClient {
	k := &tkClient{p: p, facts: &tkFacts{findings: map[string][]Finding{}, counts: map[string]int{}, kindsSeen: map[string]bool{}}}
	e := newEngine(p)
	e.base, e.baseMax, e.objSeq, e.globals = base.base, base.baseMax, base.objSeq+1000000, base.globals
	e.trackText = true
	e.maxStates = 150000
	e.hooks.Call = k.call
	e.hooks.Len = k.length
	e.hooks.Convert = k.convert
	e.hooks.Append = k.append
	e.hooks.Lookup = k.lookup
	e.hooks.IndexAddr = k.indexAddr
	e.hooks.Slice = k.slice
	e.hooks.Head = k.head
	e.hooks.ExtraKey = func(s *State, kk *keyer) {
		if o := s.get(k.ghost); o != nil {
			kk.val(o.V)
		}
	}
	e.hooks.Exit = func(s *State, res []Val) { k.onExit(s, res) }
	e.hooks.Panic = func(s *State) {
		d := "panic"
		if f, ok := s.panicV.(VFault); ok {
			d = f.Kind + " at " + f.Pos
		}
		k.facts.findings["C18"] = append(k.facts.findings["C18"], Finding{Rule: "no panic", At: d + " [" + k.dialect + "]", Where: k.where, Detail: d, Path: s.trail()})
	}
	k.e = e
	e.objSeq++
	k.ghost = e.objSeq
	return k
}

// run interprets fn to its exits.
func (k *tkClient) run(s *State, fn *ssa.Function, bind []Val, args ...Val) (out []*State, res [][]Val) {
	old := k.onExit
	k.onExit = func(s *State, r []Val) {
		n := s.clone()
		n.frames, n.dead = nil, false
		out = append(out, n)
		res = append(res, r)
	}
	defer func() { k.onExit = old }()
	s.push(fn, args, bind, nil)
	k.e.Run(s)
	return
}

// ---- the check ----

func (p *Program) dialectTypes() (out []*types.Named) {
	it, ok := p.dialect.Pkg.Scope().Lookup("Dialect").Type().Underlying().(*types.Interface)
	if !ok {
		return
	}
	for _, n := range p.dialect.Pkg.Scope().Names() {
		tn, ok := p.dialect.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(nt) {
			continue
		}
		if types.Implements(types.NewPointer(nt), it) {
			out = append(out, nt)
		}
	}
	return
}

func (c *Context) tokenizing() *tkFacts {
	if c.tf != nil {
		return c.tf
	}
	k := c.p.tkEngine(c.base)
	c.tf = k.facts
	err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(undecided); ok {
					err = fmt.Errorf("%s", u.msg)
					return
				}
				panic(r)
			}
		}()
		return k.all()
	}()
	if err != nil {
		c.tf.undecided = append(c.tf.undecided, err.Error())
	}
	c.tf.counts["abstract states"] = k.e.states
	for n := range k.e.unmodelled {
		c.tf.undecided = append(c.tf.undecided, "the tokenizer calls "+n+", whose effect is not known")
	}
	c.tf.counts["functions interpreted"] = len(k.e.funcs)
	return c.tf
}

func (k *tkClient) all() error {
	p := k.p
	tokPkg := p.sqltoken
	tn := tokPkg.Pkg.Scope().Lookup("Tokenizer")
	if tn == nil {
		return fmt.Errorf("no type Tokenizer")
	}
	tt := types.NewPointer(tn.Type())
	scan := p.method(tt, "Scan")
	newTok := tokPkg.Func("NewTokenizerWithOptions")
	optD, optC := tokPkg.Func("Dialect"), tokPkg.Func("DisableParseComment")
	if scan == nil || newTok == nil || optD == nil || optC == nil {
		return fmt.Errorf("the tokenizer's functions were not found")
	}
	sp := p.ssa.ImportedPackage("text/scanner")
	if sp == nil {
		return fmt.Errorf("package text/scanner is not used")
	}
	k.scanner = sp.Pkg.Scope().Lookup("Scanner").Type()
	k.where = p.pos(scan.Pos())
	k.kinds = map[string]int64{}
	for _, n := range tokPkg.Pkg.Scope().Names() {
		if c, ok := tokPkg.Pkg.Scope().Lookup(n).(*types.Const); ok && typeName(c.Type()) == "sqltoken.Kind" {
			if v, ok := constVal(ssa.NewConst(c.Val(), c.Type())).(VInt); ok {
				k.kinds[n] = v.L.C
			}
		}
	}
	for _, d := range p.dialectTypes() {
		cl, ok := tkDialects[d.Obj().Name()]
		if !ok {
			k.facts.undecided = append(k.facts.undecided, "the lexical classes of dialect "+d.Obj().Name()+" are not documented")
			continue
		}
		k.facts.counts["dialects"]++
		k.start, k.part, k.delim = ranges(cl.start), ranges(cl.part), cl.delim
		for _, comments := range []bool{true, false} {
			k.dialect = d.Obj().Name()
			if err := k.one(d, scan, newTok, optD, optC, comments); err != nil {
				return err
			}
		}
	}
	return k.gather(scan, tt)
}

func fieldIdx(t types.Type, name string) string {
	st, ok := under(t).(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return fmt.Sprintf(".%d", i)
		}
	}
	return ""
}

func (k *tkClient) single(s *State, fn *ssa.Function, args ...Val) (*State, Val, error) {
	out, res := k.run(s, fn, nil, args...)
	if len(out) != 1 || len(res[0]) != 1 {
		return nil, nil, fmt.Errorf("%s has %d outcomes", fn, len(out))
	}
	return out[0], res[0][0], nil
}

func (k *tkClient) one(d *types.Named, scan, newTok, optD, optC *ssa.Function, comments bool) error {
	e := k.e
	s := e.newState()
	k.setG(s, VGhost{})
	dp := types.NewPointer(d)
	dv := VIface{dp, VPtr{Obj: s.newObj(d, zeroVal(d))}}
	rd := freshTerm(newTok.Signature.Params().At(0).Type(), "reader")
	s.facts[rd] = Fact{Nil: 2}
	s, o1, err := k.single(s, optD, dv)
	if err != nil {
		return err
	}
	opts := []Val{o1}
	if !comments {
		var o2 Val
		if s, o2, err = k.single(s, optC); err != nil {
			return err
		}
		opts = append(opts, o2)
	}
	sl := VSlice{Obj: s.newObj(newTok.Signature.Params().At(1).Type(), VAgg{opts}), Len: len(opts)}
	s, tok, err := k.single(s, newTok, VTerm{rd}, sl)
	if err != nil {
		return err
	}
	tp, ok := tok.(VPtr)
	if !ok {
		return fmt.Errorf("no tokenizer is made")
	}
	tokT := s.get(tp.Obj).Typ
	lineF, colF := fieldIdx(tokT, "Line"), fieldIdx(tokT, "Col")
	if lineF == "" || colF == "" {
		return fmt.Errorf("the tokenizer has no Line and Col")
	}
	obj := *s.get(tp.Obj)
	l1, okl := s.constInt(readPath(obj.V, lineF))
	c1, okc := s.constInt(readPath(obj.V, colF))
	if !okl || !okc || l1 != 1 || c1 != 1 {
		k.facts.findings["C09"] = append(k.facts.findings["C09"], Finding{Rule: "positions start at line 1, column 1", At: newTok.String(), Where: k.p.pos(newTok.Pos()), Detail: "a new tokenizer starts elsewhere"})
	}
	one := int64(1)
	pos := func(n string) Lin {
		t := freshTerm(types.Typ[types.Int], n)
		s.facts[t] = Fact{Lo: &one}
		return linT(t)
	}
	l0, c0 := pos("line"), pos("column")
	obj.V = writePath(writePath(obj.V, lineF, VInt{l0}), colF, VInt{c0})
	s.heap[tp.Obj] = &obj
	k.setG(s, VGhost{q: "start", line: l0, col: c0})
	rest := func(s *State) string {
		v := s.get(tp.Obj).V
		v = writePath(writePath(v, lineF, VNil{}), colF, VNil{})
		return valKey(v)
	}
	before := rest(s)
	tokenT := under(scan.Signature.Params().At(0).Type()).(*types.Pointer).Elem()
	arg := VPtr{Obj: s.newObj(tokenT, freshVal(tokenT, "old"))}
	k.roots = []int{tp.Obj, arg.Obj}
	f := map[string]string{}
	for _, n := range []string{"Kind", "Value", "From", "To"} {
		f[n] = fieldIdx(tokenT, n)
		if f[n] == "" {
			return fmt.Errorf("a token has no field %s", n)
		}
	}
	posT := under(tokenT).(*types.Struct)
	lin := func(s *State, v Val, n string) (Lin, bool) {
		var pt types.Type
		for i := 0; i < posT.NumFields(); i++ {
			if posT.Field(i).Name() == "From" {
				pt = posT.Field(i).Type()
			}
		}
		x, ok := readPath(v, fieldIdx(pt, n)).(VInt)
		return s.norm(x.L), ok
	}
	same := func(s *State, a, b Lin) bool {
		d := s.norm(a).add(s.norm(b), -1)
		return d.isConst() && d.C == 0
	}
	k.onExit = func(s *State, res []Val) {
		g := k.g(s)
		at := "token " + k.kindOf(g)
		if o := k.open(g); o != "" {
			at = o
		}
		k.facts.counts["ways through Scan"]++
		_, errNil := res[1].(VNil)
		isEOF := false
		if iv, ok := res[1].(VIface); ok {
			if p, ok := iv.V.(VPtr); ok {
				if o := s.get(p.Obj); o != nil && o.Tag == "error io.EOF" {
					isEOF = true
				}
			}
		} else if !errNil {
			panic(undecided{"an error of unknown origin at " + k.where})
		}
		if g.erred {
			if errNil {
				k.find(s, "C10", "a failing reader is reported", at, "the reader failed or the text is malformed, and no error is returned")
			}
			if isEOF {
				k.find(s, "C10", "a failing reader is reported", at, "a failing reader is reported as the end of the source")
			}
			return
		}
		atEnd := func() bool {
			return g.eof || g.peeked != nil && isEq(s, g.peeked, -1)
		}
		if isEOF {
			if g.q != "start" {
				k.find(s, "C10", "the end is reported only at the end", at, "the end of the source is reported although text was read")
			}
			if !atEnd() {
				k.find(s, "C10", "the end is reported only at the end", at, "the end of the source is reported although text is left")
			}
			return
		}
		if !errNil {
			ok := false
			switch {
			case k.open(g) != "":
				ok = atEnd()
			case g.q == "illegal":
				ok = true
			case g.q == "bang":
				ok = !k.extends(s, g, k.peek(s, false))
			}
			if !ok {
				k.find(s, "C10", "valid text is accepted", at, "an error is returned for a text that is a token")
			}
			return
		}
		if o := k.open(g); o != "" {
			k.find(s, "C10", "what is not closed is an error", o, "a token is returned for "+o+" that is not closed")
		}
		if g.q == "start" {
			k.find(s, "C18", "every token has text", "the start of a token", "success is reported without reading on")
		}
		if g.q == "bang" || g.q == "illegal" {
			k.find(s, "C10", "illegal text is an error", "! without =", "a token is returned for an illegal text")
		}
		kind := k.kindOf(g)
		k.facts.kindsSeen[kind] = true
		if k.extends(s, g, k.peek(s, false)) {
			k.find(s, "C16", "a token takes all of its text", at, "the token ends although its text goes on")
		}
		g = k.g(s)
		skip := kind == "Whitespace" || kind == "Comment"
		line, _ := s.get(tp.Obj).V, 0
		checkPos := func(what string, l, c Lin, okl, okc bool, wl, wc Lin) {
			if !okl || !okc || !same(s, l, wl) || !same(s, c, wc) {
				k.find(s, "C09", "positions follow the text", at, fmt.Sprintf("%s is line %s, column %s; the text gives line %s, column %s", what, s.norm(l), s.norm(c), s.norm(wl), s.norm(wc)))
			}
		}
		tl, ok1 := readPath(line, lineF).(VInt)
		tc, ok2 := readPath(line, colF).(VInt)
		checkPos("the position after the token", tl.L, tc.L, ok1, ok2, g.line, g.col)
		if rest(s) != before {
			panic(undecided{"reading a token leaves a trace in the tokenizer"})
		}
		p, isPtr := res[0].(VPtr)
		if !isPtr {
			if _, isNil := res[0].(VNil); !isNil {
				panic(undecided{"an unknown token is returned"})
			}
			if comments || !skip {
				k.find(s, "C16", "no token is left out", at, "no token is returned for this text")
			}
			return
		}
		if !comments && skip {
			k.find(s, "C16", "comments and spaces are left out on request", at, "a token is returned although it was to be left out")
		}
		tv := s.get(p.Obj).V
		if p.Path != "" {
			tv = readPath(tv, p.Path)
		}
		from, to := readPath(tv, f["From"]), readPath(tv, f["To"])
		fl, a1 := lin(s, from, "Line")
		fc, a2 := lin(s, from, "Col")
		checkPos("the start", fl, fc, a1, a2, l0, c0)
		fl, a1 = lin(s, to, "Line")
		fc, a2 = lin(s, to, "Col")
		checkPos("the end", fl, fc, a1, a2, g.line, g.col)
		if n, ok := s.constInt(readPath(tv, f["Kind"])); !ok || n != k.kinds[kind] {
			k.find(s, "C16", "the kind of a token follows its text", at, "the token is of another kind")
		}
		iv, ok := readPath(tv, f["Value"]).(VIface)
		if !ok {
			k.find(s, "C16", "the value of a token is its text", at, "the token has no value")
		}
		want := joinAtoms(atoms(s, g.val))
		textIs := func(v Val, want []Piece) bool {
			ps, ok := textOf(v)
			if !ok {
				return false
			}
			return k.textKey(s, ps) == k.textKey(s, want)
		}
		if kind != "SQLKeyword" {
			if !textIs(iv.V, want) {
				k.find(s, "C16", "the value of a token is its text", at, "the value is "+valString(iv.V)+", the text is "+showText(s, want))
			}
			return
		}
		wp, ok := iv.V.(VPtr)
		if !ok {
			k.find(s, "C16", "the value of a token is its text", at, "the value is no word")
		}
		wo := s.get(wp.Obj)
		wv := readPath(wo.V, wp.Path)
		word := func(n string) Val { return readPath(wv, fieldIdx(wo.Typ, n)) }
		if !textIs(word("Value"), want) {
			k.find(s, "C16", "the value of a token is its text", at, "the word is "+valString(word("Value"))+", the text is "+showText(s, want))
		}
		var up []Piece
		if l, ok := piecesLit(want); ok {
			up = []Piece{{Lit: strings.ToUpper(l)}}
		} else {
			up = []Piece{{T: callVal(types.Typ[types.String], "strings.ToUpper", VStr{want}).(VStr).P[0].T}}
		}
		if !textIs(word("Keyword"), up) {
			k.find(s, "C16", "words are compared in upper case", at, "the keyword is "+valString(word("Keyword"))+", not the word in upper case")
		}
		wantQ := rune(0)
		if g.q == "dqq" {
			for o, c := range k.delim {
				if c == g.end {
					wantQ = o
				}
			}
		}
		if qv, ok := word("QuoteStyle").(VInt); !ok || !same(s, qv.L, linC(int64(wantQ))) {
			k.find(s, "C16", "a word remembers its quotes", at, "the word's quote is another one than in the text")
		}
	}
	s.push(scan, []Val{tp, arg}, nil, nil)
	e.Run(s)
	return nil
}

// textKey identifies a text up to what is known of its runes.
func (k *tkClient) textKey(s *State, ps []Piece) string {
	var b strings.Builder
	for _, a := range atoms(s, ps) {
		if a.T == nil {
			b.WriteString(a.Lit)
			continue
		}
		b.WriteString("\x01" + a.T.Op)
		if len(a.T.Args) == 0 {
			b.WriteString(a.T.key)
		}
		for _, x := range a.T.Args {
			if ps, ok := textOf(x); ok {
				b.WriteString("(" + k.textKey(s, ps) + ")")
			} else if n, ok := x.(VInt); ok {
				b.WriteString("(" + s.norm(n.L).key() + ")")
			} else {
				b.WriteString("(" + valKey(x) + ")")
			}
		}
		b.WriteString("\x02")
	}
	return b.String()
}

func checkTokens(id string) checkFunc {
	return func(c *Context, r *Report) {
		tf := c.tokenizing()
		for _, f := range tf.findings[id] {
			r.find(f)
		}
		for _, u := range tf.undecided {
			r.undecided("%s", u)
		}
		for n, v := range tf.counts {
			r.Counts[n] = v
		}
		r.Counts["kinds of tokens"] = len(tf.kindsSeen)
		r.Minimum["kinds of tokens"] = 31
		r.Minimum["dialects"] = 3
	}
}

func init() {
	rule := "Every way of reading one token from an unknown source, in every shipped dialect, is followed; a reader of the same source that knows the lexical grammar moves along with the code, and loops are followed until the relation between the two repeats. "
	register("C18", rule+"Here: nothing panics, and no loop is repeated without reading on.", checkTokens("C18"))
	register("C09", rule+"Here: the start and end recorded in the token, and the position kept for the next one, are those of the text.", checkTokens("C09"))
	register("C10", rule+"Here: an error is returned exactly for a failing reader, an unclosed or an illegal text, and the end of the source only at the end.", checkTokens("C10"))
	register("C16", rule+"Here: the kind and value are those of the text, which is as long as it can be.", checkTokens("C16"))
}

// summarise stands for Scan in what calls it: a token, nothing (a space or a
// comment that is left out), an error, or the end.
func (k *tkClient) summarise(s *State, c *Call) bool {
	if c.Fn != k.scan {
		return false
	}
	tokens, calls := 0, 0
	ended := ""
	var last Val
	for _, e := range s.out {
		switch e.K {
		case "token":
			tokens++
			calls++
		case "skip":
			calls++
		case "end", "fail":
			ended = e.K
			last = e.V[0]
			calls++
		}
	}
	if calls > 6 {
		k.find(s, "C18", "every loop reads on or ends", c.Fn.String(), "tokens are asked for again and again after the end or an error")
	}
	if ended != "" {
		s.emit("end", last)
		s.ret(c, VNil{}, last)
		return true
	}
	p, ok := c.Args[1].(VPtr)
	if !ok {
		panic(undecided{"the token to fill is not known in " + s.where()})
	}
	tt := under(c.Fn.Signature.Params().At(0).Type()).(*types.Pointer).Elem()
	var alts []alt
	if tokens < 3 {
		alts = append(alts, alt{"a token", func(n *State) bool {
			v := freshVal(tt, "token")
			o := *n.get(p.Obj)
			if p.Path == "" {
				o.V = v
			} else {
				o.V = writePath(o.V, p.Path, v)
			}
			n.heap[p.Obj] = &o
			n.emit("token", v)
			n.ret(c, c.Args[1], VNil{})
			return true
		}})
	}
	if calls == tokens {
		alts = append(alts, alt{"text that is left out", func(n *State) bool {
			n.emit("skip")
			n.ret(c, VNil{}, VNil{})
			return true
		}})
	}
	alts = append(alts, alt{"an error", func(n *State) bool {
		e := n.newError("scan")
		n.emit("fail", e)
		n.ret(c, c.Args[1], e)
		return true
	}}, alt{"the end", func(n *State) bool {
		e := n.get(k.eof).V
		n.emit("end", e)
		n.ret(c, VNil{}, e)
		return true
	}})
	panic(forkReq{alts})
}

// gather follows the functions that collect tokens, from their first to their
// last call of Scan.
func (k *tkClient) gather(scan *ssa.Function, tt types.Type) error {
	p := k.p
	e := k.e
	k.summary, k.scan = true, scan
	defer func() { k.summary = false }()
	io := p.ssa.ImportedPackage("io")
	if io == nil {
		return fmt.Errorf("package io is not used")
	}
	k.eof = e.globalObj(io.Var("EOF"))
	tokenize := p.method(tt, "Tokenize")
	newParser := p.parser.Func("NewParser")
	if tokenize == nil || newParser == nil {
		return fmt.Errorf("the functions that collect tokens were not found")
	}
	parserT := p.parser.Pkg.Scope().Lookup("Parser").Type()
	check := func(fn *ssa.Function) func(*State, []Val) {
		return func(s *State, res []Val) {
			k.facts.counts["ways through the collection of tokens"]++
			var want []Val
			failed, ended := false, false
			for _, e := range s.out {
				switch e.K {
				case "token":
					want = append(want, e.V[0])
				case "fail":
					failed, ended = true, true
				case "end":
					ended = true
				}
			}
			_, errNil := res[1].(VNil)
			if failed {
				if errNil {
					k.find(s, "C10", "an error ends the reading", fn.String(), "a token cannot be read, and no error is returned")
				}
				return
			}
			if !ended {
				k.find(s, "C16", "every token is kept, in order", fn.String(), "the reading stops before the end of the source")
			}
			if !errNil {
				k.find(s, "C10", "valid text is accepted", fn.String(), "an error is returned although all tokens were read")
			}
			v := res[0]
			if fn == newParser {
				x, ok := v.(VPtr)
				if !ok {
					k.find(s, "C10", "valid text is accepted", fn.String(), "no parser is returned")
				}
				st := under(parserT).(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if types.Identical(st.Field(i).Type(), tokenize.Signature.Results().At(0).Type()) {
						v = readPath(s.get(x.Obj).V, x.Path+fmt.Sprintf(".%d", i))
					}
				}
			}
			var got []Val
			switch v := v.(type) {
			case VNil:
			case VSlice:
				for j := 0; j < v.Len; j++ {
					x := readPath(s.get(v.Obj).V, fmt.Sprintf(".%d", v.Off+j))
					if p, ok := x.(VPtr); ok {
						x = readPath(s.get(p.Obj).V, p.Path)
					}
					got = append(got, x)
				}
			default:
				panic(undecided{"the collected tokens are not known in " + fn.String()})
			}
			same := len(got) == len(want)
			for j := 0; same && j < len(got); j++ {
				same = valKey(got[j]) == valKey(want[j])
			}
			if !same {
				k.find(s, "C16", "every token is kept, in order", fn.String(), fmt.Sprintf("%d tokens were read, %d are kept, or they are others or in another order", len(want), len(got)))
			}
		}
	}
	k.dialect = "any"
	for _, fn := range []*ssa.Function{tokenize, newParser} {
		s := e.newState()
		k.setG(s, VGhost{})
		var args []Val
		for _, prm := range fn.Params {
			v := freshVal(prm.Type(), prm.Name())
			if _, ok := under(prm.Type()).(*types.Slice); ok {
				v = VNil{}
			}
			if t, ok := v.(VTerm); ok {
				s.facts[t.T] = Fact{Nil: 2}
			}
			args = append(args, v)
		}
		k.where = p.pos(fn.Pos())
		k.onExit = check(fn)
		s.push(fn, args, nil, nil)
		e.Run(s)
	}
	return nil
}
