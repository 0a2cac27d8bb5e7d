package main

// Reference model of the TEAL text format as this project reads it. Written
// from the TEAL documentation; shares no code with the repository.

import (
	"crypto/sha512"
	"encoding/base32"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

var refOpByName = func() map[string]*refOp {
	m := map[string]*refOp{}
	for i := range refOps {
		m[refOps[i].Name] = &refOps[i]
	}
	return m
}()

// ---- lexical structure ----

type rTok struct {
	Raw     string // source text
	Line    int
	B, E    int // UTF-16 columns
	BB, BE  int // byte offsets in the line
	Comment bool
	Str     bool
}

// Text is the token's value: strings keep their quotes and have \" unescaped;
// comments lose the leading slashes.
func (t rTok) Text() string {
	if t.Comment {
		return t.Raw[2:]
	}
	if t.Str {
		in := t.Raw[1 : len(t.Raw)-1]
		var b strings.Builder
		b.WriteByte('"')
		for i := 0; i < len(in); i++ {
			if in[i] == '\\' && i+1 < len(in) {
				if in[i+1] == '"' {
					b.WriteByte('"')
				} else {
					b.WriteByte('\\')
					b.WriteByte(in[i+1])
				}
				i++
				continue
			}
			b.WriteByte(in[i])
		}
		b.WriteByte('"')
		return b.String()
	}
	return t.Raw
}

type rLine struct {
	Text string // without the line terminator
	EOL  string // "\n", "\r\n", "\r" or "" on the last line
	Toks []rTok
	Bad  bool // an unterminated string
	BadB int  // UTF-16 column at which it begins
	BadE int  // UTF-16 column at which the line ends
}

func splitPhysical(src string) []rLine {
	var ls []rLine
	p := 0
	for i := 0; i < len(src); i++ {
		switch src[i] {
		case '\n':
			ls = append(ls, rLine{Text: src[p:i], EOL: "\n"})
			p = i + 1
		case '\r':
			e := "\r"
			if i+1 < len(src) && src[i+1] == '\n' {
				e = "\r\n"
			}
			ls = append(ls, rLine{Text: src[p:i], EOL: e})
			i += len(e) - 1
			p = i + 1
		}
	}
	ls = append(ls, rLine{Text: src[p:]})
	return ls
}

func u16len(s string) int {
	n := 0
	for len(s) > 0 {
		r, w := utf8.DecodeRuneInString(s)
		if r >= 0x10000 {
			n += 2
		} else {
			n++
		}
		s = s[w:]
	}
	return n
}

// u16cut slices s by UTF-16 columns; ok is false if a bound is out of range or
// falls inside a surrogate pair.
func u16cut(s string, b, e int) (string, bool) {
	bi, ok1 := u16off(s, b)
	ei, ok2 := u16off(s, e)
	if !ok1 || !ok2 || ei < bi {
		return "", false
	}
	return s[bi:ei], true
}

func u16off(s string, c int) (int, bool) {
	if c < 0 {
		return 0, false
	}
	n, i := 0, 0
	for n < c {
		if i >= len(s) {
			return 0, false
		}
		r, w := utf8.DecodeRuneInString(s[i:])
		if r >= 0x10000 {
			n += 2
		} else {
			n++
		}
		i += w
	}
	return i, n == c
}

var _ = utf16.Encode

func refLex(src string) []rLine {
	ls := splitPhysical(src)
	for li := range ls {
		l := &ls[li]
		s := l.Text
		i := 0
		add := func(b, e int, t rTok) {
			t.Raw = s[b:e]
			t.Line = li
			t.BB, t.BE = b, e
			t.B = u16len(s[:b])
			t.E = u16len(s[:e])
			l.Toks = append(l.Toks, t)
		}
		for i < len(s) {
			c := s[i]
			if c == ' ' || c == '\t' {
				i++
				continue
			}
			b64 := false
			if n := len(l.Toks); n > 0 {
				p := l.Toks[n-1].Raw
				b64 = p == "base64" || p == "b64"
			}
			if strings.HasPrefix(s[i:], "//") && !b64 {
				add(i, len(s), rTok{Comment: true})
				break
			}
			if c == '"' {
				j := i + 1
				closed := false
				for j < len(s) {
					if s[j] == '\\' && j+1 < len(s) {
						j += 2
						continue
					}
					if s[j] == '"' {
						j++
						closed = true
						break
					}
					j++
				}
				if !closed {
					l.Bad = true
					l.BadB = u16len(s[:i])
					l.BadE = u16len(s)
					break
				}
				add(i, j, rTok{Str: true})
				i = j
				continue
			}
			j := i
			for j < len(s) && s[j] != ' ' && s[j] != '\t' {
				j++
			}
			add(i, j, rTok{})
			i = j
		}
	}
	return ls
}

// ---- literals ----

var refInts = map[string]uint64{
	"unknown": 0, "pay": 1, "keyreg": 2, "acfg": 3, "axfer": 4, "afrz": 5, "appl": 6,
	"Payment": 1, "KeyRegistration": 2, "AssetConfig": 3, "AssetTransfer": 4, "AssetFreeze": 5, "ApplicationCall": 6,
	"NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4, "DeleteApplication": 5,
}

// refUint parses an unsigned integer literal: decimal, 0x, 0o or leading 0
// octal, 0b, with underscores between digits after a base prefix or between
// digits.
func refUint(s string) (uint64, bool) {
	if s == "" {
		return 0, false
	}
	base := 10
	d := s
	pre := false
	if s[0] == '0' && len(s) > 1 {
		switch s[1] {
		case 'x', 'X':
			base, d, pre = 16, s[2:], true
		case 'o', 'O':
			base, d, pre = 8, s[2:], true
		case 'b', 'B':
			base, d, pre = 2, s[2:], true
		default:
			base, d, pre = 8, s[1:], true
		}
	}
	if d == "" {
		return 0, false
	}
	v := new(big.Int)
	lastUS := false
	any := false
	for i := 0; i < len(d); i++ {
		c := d[i]
		if c == '_' {
			if lastUS || (i == 0 && !pre) {
				return 0, false
			}
			lastUS = true
			continue
		}
		lastUS = false
		var x int
		switch {
		case c >= '0' && c <= '9':
			x = int(c - '0')
		case c >= 'a' && c <= 'f':
			x = int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			x = int(c-'A') + 10
		default:
			return 0, false
		}
		if x >= base {
			return 0, false
		}
		any = true
		v.Mul(v, big.NewInt(int64(base)))
		v.Add(v, big.NewInt(int64(x)))
	}
	if lastUS || !any || v.BitLen() > 64 {
		return 0, false
	}
	return v.Uint64(), true
}

// refDec parses a plain decimal with the given bounds.
func refDec(s string, lo, hi int64, sign bool) (int64, bool) {
	neg := false
	d := s
	if sign && d != "" && (d[0] == '-' || d[0] == '+') {
		neg = d[0] == '-'
		d = d[1:]
	}
	if d == "" {
		return 0, false
	}
	var v int64
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return 0, false
		}
		v = v*10 + int64(d[i]-'0')
		if v > 1<<40 {
			return 0, false
		}
	}
	if neg {
		v = -v
	}
	return v, v >= lo && v <= hi
}

func refString(raw string) ([]byte, bool) {
	// raw has its quotes
	in := raw[1 : len(raw)-1]
	var out []byte
	for i := 0; i < len(in); i++ {
		c := in[i]
		if c != '\\' {
			out = append(out, c)
			continue
		}
		i++
		if i >= len(in) {
			return nil, false
		}
		switch in[i] {
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case '\\':
			out = append(out, '\\')
		case '"':
			out = append(out, '"')
		case 'x':
			if i+2 >= len(in)+0 && i+2 > len(in)-1 {
				return nil, false
			}
			h, err := hex.DecodeString(in[i+1 : i+3])
			if err != nil {
				return nil, false
			}
			out = append(out, h[0])
			i += 2
		default:
			return nil, false
		}
	}
	return out, true
}

const b64alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
const b32alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"

// refBits decodes a base-2^k text with optional '=' padding. pad: 0 = padding
// must be complete, 1 = no padding allowed, 2 = either.
func refBits(s, alpha string, k, group int, pad int) ([]byte, bool) {
	body := strings.TrimRight(s, "=")
	np := len(s) - len(body)
	switch {
	case pad == 2 && np == 0:
	case pad == 1:
		if np != 0 {
			return nil, false
		}
	default:
		if len(s)%group != 0 || np >= group {
			return nil, false
		}
	}
	rem := len(body) % group
	// number of symbols in the last group that encode whole bytes
	valid := map[int]bool{0: true}
	for nb := 1; nb*8 < group*k; nb++ {
		valid[(nb*8+k-1)/k] = true
	}
	if !valid[rem] {
		return nil, false
	}
	var out []byte
	acc, bits := uint(0), 0
	for i := 0; i < len(body); i++ {
		x := strings.IndexByte(alpha, body[i])
		if x < 0 {
			return nil, false
		}
		acc = acc<<uint(k) | uint(x)
		bits += k
		if bits >= 8 {
			bits -= 8
			out = append(out, byte(acc>>uint(bits)))
			acc &= 1<<uint(bits) - 1
		}
	}
	return out, true
}

func refB64(s string) ([]byte, bool) { return refBits(s, b64alpha, 6, 4, 0) }

// refB32: padded or unpadded. Without padding, the symbols of a last group too
// short to be one (1, 3 or 6 of them) encode nothing, as the assembler reads them.
func refB32(s string) ([]byte, bool) {
	if !strings.Contains(s, "=") {
		for i := 0; i < len(s); i++ {
			if strings.IndexByte(b32alpha, s[i]) < 0 {
				return nil, false
			}
		}
		switch n := len(s) % 8; n {
		case 1, 3, 6:
			s = s[:len(s)-n]
		}
	}
	b, ok := refBits(s, b32alpha, 5, 8, 2)
	if !ok && strings.Contains(s, "=") {
		// surplus or misplaced padding: as the assembler's library reads it
		b, err := base32.StdEncoding.DecodeString(s)
		return b, err == nil
	}
	return b, ok
}

// fieldUsable: the number n denotes a field of the kind that can be used by name.
func fieldUsable(kind string, n, version uint64) bool {
	grp := kind
	if grp == "txna" || grp == "itxn" {
		grp = "txn"
	}
	for _, f := range refFields[grp] {
		if uint64(f.Value) != n {
			continue
		}
		need := f.Version
		switch kind {
		case "txna":
			if !f.Array {
				return false
			}
		case "itxn":
			if f.Itx == 0 {
				return false
			}
			need = f.Itx
		}
		return need <= version
	}
	return false
}

func (st *rStmt) loose() bool {
	for _, v := range st.Vals {
		if v.Loose {
			return true
		}
	}
	return false
}

func refAddr(s string) bool {
	if len(s) != 58 {
		return false
	}
	b, ok := refBits(s, b32alpha, 5, 8, 1)
	if !ok || len(b) != 36 {
		return false
	}
	h := sha512.Sum512_256(b[:32])
	return string(h[28:]) == string(b[32:])
}

func mkAddr(pk []byte) string {
	var p [32]byte
	copy(p[:], pk)
	h := sha512.Sum512_256(p[:])
	return encBits(append(p[:], h[28:]...), b32alpha, 5)
}

func encBits(b []byte, alpha string, k int) string {
	var out []byte
	acc, bits := uint(0), 0
	for _, c := range b {
		acc = acc<<8 | uint(c)
		bits += 8
		for bits >= k {
			bits -= k
			out = append(out, alpha[acc>>uint(bits)])
			acc &= 1<<uint(bits) - 1
		}
	}
	if bits > 0 {
		out = append(out, alpha[(acc<<uint(k-bits))&(1<<uint(k)-1)])
	}
	return string(out)
}

// ---- statements ----

type rVal struct {
	Kind  string // u8 i8 u64 int bytes label addr sig or a field group
	U     uint64
	I     int64
	B     []byte
	S     string
	Named bool // spelled by name
	Loose bool // a number that denotes no field usable here: accepted as is
	Tok   int  // index of the (last) token in the line
}

func (v rVal) canon() string {
	switch v.Kind {
	case "bytes":
		return "0x" + hex.EncodeToString(v.B)
	case "label", "addr", "sig":
		return v.S
	case "i8":
		return fmt.Sprint(v.I)
	default:
		return fmt.Sprint(v.U)
	}
}

type rDiag struct {
	Line int
	B, E int
	Rule string
	Sev  string // err or warn
	Need uint64
}

type rStmt struct {
	Kind  string // empty comment label pragma op bad
	Op    *refOp
	Name  string // label name or canonical opcode
	Vals  []rVal
	Ver   uint64
	Diags []rDiag
	// the line has a syntax problem
	Err bool
	// kept: statement kept in spite of the problem (surplus values)
	Kept bool
	OpT  *rTok
	Refs []rTok
	// token classes for highlighting
	Nums, Strs, Keys, Macs []rTok
}

// canon renders the statement in a normal form that is equal for equivalent
// spellings.
func (s rStmt) canon() string {
	switch s.Kind {
	case "op":
		var b strings.Builder
		b.WriteString(s.Name)
		for _, v := range s.Vals {
			b.WriteString(" " + v.canon())
		}
		return b.String()
	case "label":
		return s.Name + ":"
	case "pragma":
		return fmt.Sprintf("#pragma version %d", s.Ver)
	}
	return ""
}

type rSym struct {
	Name string
	Tok  rTok
}

type rProg struct {
	Src     string
	Lines   []rLine
	N       int // number of statement lines (trailing blank rest is no line)
	Stmts   []rStmt
	Mode    string // app or sig
	Version uint64
	VerTok  *rTok
	Syms    []rSym
	Refs    []rTok
	Miss    []rTok
	Diags   []rDiag
	RefC    map[string]int
	Reds    []rRed
}

type rRed struct {
	Line int
	Kind string // label or b
}

func fieldOf(group, s string) (*refField, bool) {
	g := group
	if g == "txna" || g == "itxn" {
		g = "txn"
	}
	for i := range refFields[g] {
		if refFields[g][i].Name == s {
			return &refFields[g][i], true
		}
	}
	return nil, false
}

func fieldByVal(group string, v int) (*refField, bool) {
	g := group
	if g == "txna" || g == "itxn" {
		g = "txn"
	}
	if v >= 0 && v < len(refFields[g]) {
		return &refFields[g][v], true
	}
	return nil, false
}

// refAnalyze is the reference for the whole analysis.
func refAnalyze(src string) *rProg {
	p := &rProg{Src: src, Lines: refLex(src), Mode: "app", Version: 1, RefC: map[string]int{}}
	p.N = len(p.Lines)
	if last := p.Lines[p.N-1]; len(last.Toks) == 0 {
		p.N--
	}
	for li := 0; li < len(p.Lines); li++ {
		l := &p.Lines[li]
		if l.Bad {
			p.Diags = append(p.Diags, rDiag{Line: li, B: -1, E: -1, Rule: "SYNTAX", Sev: "err"})
		}
		if li >= p.N {
			break
		}
		st := p.stmt(li)
		p.Stmts = append(p.Stmts, st)
		p.Diags = append(p.Diags, st.Diags...)
		p.Refs = append(p.Refs, st.Refs...)
	}
	p.lint()
	def := map[string]bool{}
	for _, s := range p.Syms {
		def[s.Name] = true
	}
	for _, r := range p.Refs {
		p.RefC[r.Text()]++
		if !def[r.Text()] {
			p.Miss = append(p.Miss, r)
		}
	}
	return p
}

func (p *rProg) stmt(li int) (st rStmt) {
	var toks []rTok
	for _, t := range p.Lines[li].Toks {
		if t.Comment && len(toks) > 0 {
			break
		}
		toks = append(toks, t)
		if t.Comment {
			break
		}
	}
	if len(toks) == 0 {
		st.Kind = "empty"
		return
	}
	first := toks[0]
	if first.Comment {
		st.Kind = "comment"
		if strings.TrimSpace(first.Text()) == "#pragma mode logicsig" {
			p.Mode = "sig"
		}
		return
	}
	perr := func(t rTok) {
		st.Diags = append(st.Diags, rDiag{Line: li, B: t.B, E: t.E, Rule: "PARSE", Sev: "err"})
		st.Err = true
	}
	txt := first.Text()
	if strings.HasSuffix(txt, ":") {
		if len(txt) == 1 {
			st.Kind = "bad"
			perr(first)
			return
		}
		st.Kind = "label"
		st.Name = txt[:len(txt)-1]
		p.Syms = append(p.Syms, rSym{Name: st.Name, Tok: first})
		return
	}
	pos := 1
	if txt == "#pragma" {
		st.Kind = "bad"
		st.Macs = append(st.Macs, first)
		if len(toks) < 2 {
			perr(first)
			return
		}
		if toks[1].Text() != "version" {
			perr(toks[1])
			return
		}
		st.Macs = append(st.Macs, toks[1])
		if len(toks) < 3 {
			perr(toks[1])
			return
		}
		v, ok := refUint(toks[2].Text())
		if !ok {
			perr(toks[2])
			return
		}
		st.Nums = append(st.Nums, toks[2])
		t := toks[2]
		p.VerTok = &t
		if v < 1 {
			perr(toks[2])
			return
		}
		p.Version = v
		st.Kind = "pragma"
		st.Ver = v
		return
	}
	op, ok := refOpByName[txt]
	if !ok {
		st.Kind = "bad"
		perr(first)
		return
	}
	st.OpT = &first
	st.Op = op
	min := op.App
	if p.Mode == "sig" {
		min = op.Sig
	}
	if min == 0 {
		st.Diags = append(st.Diags, rDiag{Line: li, B: first.B, E: first.E, Rule: "LINT0007", Sev: "err"})
	}
	if min > p.Version {
		st.Diags = append(st.Diags, rDiag{Line: li, B: first.B, E: first.E, Rule: "LINT0008", Sev: "err", Need: min})
	}
	st.Kind = "bad"
	st.Name = op.Name

	bad := func() bool { return st.Err }
	read := func(kind string) {
		t := toks[pos]
		pos++
		v := rVal{Kind: kind, Tok: pos - 1}
		switch kind {
		case "u8":
			x, ok := refDec(t.Text(), 0, 255, false)
			if !ok {
				perr(t)
				return
			}
			v.U = uint64(x)
			st.Nums = append(st.Nums, t)
		case "i8":
			x, ok := refDec(t.Text(), -128, 127, true)
			if !ok {
				perr(t)
				return
			}
			v.I = x
			st.Nums = append(st.Nums, t)
		case "u64", "int":
			if kind == "int" {
				if x, ok := refInts[t.Text()]; ok {
					v.U = x
					v.Named = true
					st.Nums = append(st.Nums, t)
					break
				}
			}
			x, ok := refUint(t.Text())
			if !ok {
				perr(t)
				return
			}
			v.U = x
			st.Nums = append(st.Nums, t)
		case "label":
			v.S = t.Text()
			st.Refs = append(st.Refs, t)
		case "addr":
			if !refAddr(t.Text()) {
				perr(t)
				return
			}
			v.S = t.Text()
			st.Strs = append(st.Strs, t)
		case "sig":
			s := t.Text()
			if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
				perr(t)
				return
			}
			b, ok := refString(s)
			if !ok {
				perr(t)
				return
			}
			v.S = string(b)
			st.Strs = append(st.Strs, t)
		case "bytes":
			a := t.Text()
			val := func(b []byte, ok bool, at rTok) {
				if !ok {
					perr(at)
					return
				}
				v.B = b
				st.Strs = append(st.Strs, at)
			}
			paren := func(dec func(string) ([]byte, bool)) {
				o := strings.IndexByte(a, '(')
				c := strings.IndexByte(a, ')')
				if c < 0 {
					perr(t)
					return
				}
				b, ok := dec(a[o+1 : c])
				val(b, ok, t)
			}
			switch {
			case strings.HasPrefix(a, "base32(") || strings.HasPrefix(a, "b32("):
				paren(refB32)
			case strings.HasPrefix(a, "base64(") || strings.HasPrefix(a, "b64("):
				paren(refB64)
			case strings.HasPrefix(a, "0x"):
				b, err := hex.DecodeString(a[2:])
				val(b, err == nil, t)
			case a == "base32" || a == "b32" || a == "base64" || a == "b64":
				st.Keys = append(st.Keys, t)
				if pos >= len(toks) {
					perr(t)
					return
				}
				t2 := toks[pos]
				pos++
				v.Tok = pos - 1
				dec := refB64
				if strings.HasSuffix(a, "32") {
					dec = refB32
				}
				b, ok := dec(t2.Text())
				val(b, ok, t2)
			case t.Str:
				b, ok := refString(t.Raw)
				val(b, ok, t)
			default:
				perr(t)
			}
			if bad() {
				return
			}
		default: // field groups
			if f, ok := fieldOf(kind, t.Text()); ok {
				need := f.Version
				switch kind {
				case "txna":
					if !f.Array {
						perr(t)
						return
					}
				case "itxn":
					if f.Itx == 0 {
						perr(t)
						return
					}
					need = f.Itx
				}
				if need > p.Version {
					perr(t)
					return
				}
				v.U = uint64(f.Value)
				v.Named = true
				st.Strs = append(st.Strs, t)
			} else {
				x, ok := refDec(t.Text(), 0, 255, false)
				if !ok {
					perr(t)
					return
				}
				v.U = uint64(x)
				v.Loose = !fieldUsable(kind, v.U, p.Version)
				st.Nums = append(st.Nums, t)
			}
		}
		st.Vals = append(st.Vals, v)
	}

	var imms []string
	if op.Imms != "" {
		imms = strings.Split(op.Imms, " ")
	}
	for ii, im := range imms {
		kind := strings.TrimRight(im, "*?")
		switch {
		case strings.HasSuffix(im, "*"):
			for pos < len(toks) {
				read(kind)
				if bad() {
					return
				}
			}
		case strings.HasSuffix(im, "?"):
			if pos >= len(toks) {
				if op.Name == "extract" && ii == 1 {
					perr(toks[len(toks)-1])
					return
				}
				goto done
			}
			read(kind)
			if !bad() && (op.Name == "txn" || op.Name == "gtxn" || op.Name == "gtxns") {
				// an index makes it an array access
				ft := toks[pos-2]
				if f, ok := fieldOf("txna", ft.Text()); ok && !f.Array {
					perr(ft)
					return
				}
				fv := &st.Vals[len(st.Vals)-2]
				fv.Loose = !fv.Named && !fieldUsable("txna", fv.U, p.Version)
			}
		default:
			if pos >= len(toks) {
				perr(toks[len(toks)-1])
				return
			}
			read(kind)
		}
		if bad() {
			return
		}
	}
done:
	st.Kind = "op"
	if pos < len(toks) {
		perr(toks[pos])
		st.Kept = true
	}
	// canonical opcode
	switch op.Name {
	case "extract":
		if len(st.Vals) == 0 {
			st.Name = "extract3"
		}
	case "replace":
		st.Name = "replace2"
		if len(st.Vals) == 0 {
			st.Name = "replace3"
		}
	case "txn", "gtxn", "gtxns":
		if n := len(st.Vals); n > 0 && st.Vals[n-1].Kind == "u8" && n == len(imms) {
			st.Name = op.Name + "a"
		}
	}
	return
}

func (s rStmt) isNop() bool { return s.Kind != "op" }

// labels used by a statement
func (s rStmt) labels() []string {
	if s.Kind != "op" {
		return nil
	}
	var r []string
	for _, v := range s.Vals {
		if v.Kind == "label" {
			r = append(r, v.S)
		}
	}
	return r
}

// lint is the reference for the label and flow rules.
func (p *rProg) lint() {
	defs := map[string][]int{}
	uses := map[string][]int{}
	for i, s := range p.Stmts {
		if s.Kind == "label" {
			defs[s.Name] = append(defs[s.Name], i)
		}
		for _, n := range s.labels() {
			uses[n] = append(uses[n], i)
		}
	}
	add := func(line int, rule, sev string) {
		b, e := p.span(line)
		p.Diags = append(p.Diags, rDiag{Line: line, B: b, E: e, Rule: rule, Sev: sev})
	}
	for i, s := range p.Stmts {
		if s.Kind == "label" {
			if len(defs[s.Name]) > 1 {
				add(i, "LINT0001", "err")
			}
			if len(uses[s.Name]) == 0 {
				add(i, "LINT0002", "warn")
				p.Reds = append(p.Reds, rRed{i, "label"})
			}
		}
		for _, n := range s.labels() {
			if len(defs[n]) == 0 {
				add(i, "LINT0005", "err")
			}
		}
	}
	// unreachable: an instruction is flagged when the nearest preceding
	// instruction-or-used-label stretch was cut by b, return or err
	dead := false
	for i, s := range p.Stmts {
		switch {
		case s.Kind == "label":
			if len(uses[s.Name]) > 0 {
				dead = false
			}
		case s.Kind == "op":
			if dead {
				add(i, "LINT0003", "warn")
			} else if s.Name == "b" || s.Name == "return" || s.Name == "err" {
				dead = true
			}
		}
	}
	for i, s := range p.Stmts {
		if s.Kind != "op" || s.Name != "b" {
			continue
		}
		// redundant branch: the next statement that is not blank is its label
		for j := i + 1; j < len(p.Stmts); j++ {
			if p.Stmts[j].Kind == "label" {
				if p.Stmts[j].Name == s.Vals[0].S {
					add(i, "LINT0004", "warn")
					p.Reds = append(p.Reds, rRed{i, "b"})
				}
				break
			}
			if p.Stmts[j].Kind == "op" || p.Stmts[j].Kind == "pragma" && false {
				break
			}
		}
		// infinite loop: a branch back to the nearest such label above it, with
		// no way out of the stretch between them
		for j := i - 1; j >= 0; j-- {
			if p.Stmts[j].Kind == "label" && p.Stmts[j].Name == s.Vals[0].S {
				out := false
				for k := j; k <= i && !out; k++ {
					q := p.Stmts[k]
					if q.Kind != "op" {
						continue
					}
					if q.Name == "return" || q.Name == "err" || q.Name == "retsub" {
						out = true
					}
					for _, n := range q.labels() {
						for _, d := range defs[n] {
							if d < j || d > i {
								out = true
							}
						}
					}
				}
				if !out {
					add(i, "LINT0005", "err")
				}
				break
			}
		}
	}
	seen := false
	for i, s := range p.Stmts {
		switch s.Kind {
		case "pragma":
			if seen {
				add(i, "LINT0006", "err")
			}
			seen = true
		case "op":
			seen = true
		}
	}
}

// span is the extent of a line without trailing comment.
func (p *rProg) span(li int) (int, int) {
	var ts []rTok
	for i, t := range p.Lines[li].Toks {
		if i > 0 && t.Comment {
			break
		}
		ts = append(ts, t)
	}
	if len(ts) == 0 {
		return 0, 0
	}
	return ts[0].B, ts[len(ts)-1].E
}
