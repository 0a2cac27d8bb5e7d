package main

import (
	"encoding/hex"
	"fmt"
	"strings"
)

// ---- generators -----------------------------------------------------------

type genOpts struct {
	MaxLines  int
	Labels    []string // label pool
	Version   int      // 0 = draw
	Mode      int      // 0 = draw, 1 = app, 2 = sig
	ValidOnly bool     // only lines without syntax errors, usable at the version
	NoUnicode bool
	FlowHeavy bool // mostly labels and branches
	NoPragma  bool
	LF        bool // plain \n line ends
	Sigil     func(g *G) string
}

var defLabels = []string{"a", "b", "main", "loop_1", "x", "end", "int", "é", "foo:bar", "L"}

func genVersion(g *G) int {
	switch g.Intn(4) {
	case 0, 1:
		return 8
	case 2:
		return g.Range(1, 9)
	default:
		return pick(g, []int{2, 3, 4, 5, 6, 7, 9, 10})
	}
}

// genInt renders v in a random integer notation.
func genIntLit(g *G, v uint64) string {
	switch g.Intn(7) {
	case 0, 1, 2:
		return fmt.Sprintf("%d", v)
	case 3:
		return fmt.Sprintf("0x%x", v)
	case 4:
		return fmt.Sprintf("0X%X", v)
	case 5:
		return fmt.Sprintf("0%o", v)
	default:
		return fmt.Sprintf("0b%b", v)
	}
}

func quoteTeal(g *G, b []byte) string {
	var s strings.Builder
	s.WriteByte('"')
	for _, c := range b {
		switch {
		case c == '"':
			s.WriteString("\\\"")
		case c == '\\':
			s.WriteString("\\\\")
		case c == '\n':
			s.WriteString("\\n")
		case c == '\r':
			s.WriteString("\\r")
		case c == '\t' && g.Bool():
			s.WriteString("\\t")
		case c < 0x20 || c >= 0x7f:
			s.WriteString(fmt.Sprintf("\\x%02x", c))
		default:
			if g.Chance(1, 16) {
				s.WriteString(fmt.Sprintf("\\x%02X", c))
			} else {
				s.WriteByte(c)
			}
		}
	}
	s.WriteByte('"')
	return s.String()
}

var interestingStrings = []string{"", "a", "hello", "//", "a//b", "\\", "\"", "a\"b", "\\\"", "x\\", " ", "a b", "\t", "\n", ";", ":", "a:", "#pragma", "é", "日本", "\xff\xfe", "\\x41", "\\n"}

func genBytesVal(g *G) []byte {
	if g.Chance(1, 400) {
		return longBytes(g)
	}
	if g.Bool() {
		return []byte(pick(g, interestingStrings))
	}
	switch g.Intn(4) {
	case 0:
		return g.Bytes(6)
	case 1:
		return g.Bytes(40)
	case 2:
		n := g.Intn(12)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(32 + g.Intn(95))
		}
		return b
	default:
		return []byte{0xff, 0xff, 0xff}[:g.Intn(4)]
	}
}

// longBytes is a value whose length is about one of the sizes programs care about.
func longBytes(g *G) []byte {
	n := pick(g, []int{64, 127, 128, 255, 256, 512, 1024, 2048, 4096, 5000}) + g.Intn(3) - 1
	unit := append(g.Bytes(4), byte('a'+g.Intn(26)))
	b := make([]byte, n)
	for i := range b {
		b[i] = unit[i%len(unit)]
	}
	return b
}

// genBytesLit renders b as one of the byte literal notations.
func genBytesLit(g *G, b []byte) string {
	pad := func(s string, n int) string {
		for len(s)%n != 0 {
			s += "="
		}
		return s
	}
	switch g.Intn(8) {
	case 0, 1:
		return quoteTeal(g, b)
	case 2:
		return "0x" + hex.EncodeToString(b)
	case 3:
		return "0x" + strings.ToUpper(hex.EncodeToString(b))
	case 4:
		return pick(g, []string{"base64(", "b64("}) + pad(encBits(b, b64alpha, 6), 4) + ")"
	case 5:
		s := encBits(b, b32alpha, 5)
		if g.Bool() {
			s = pad(s, 8)
		}
		return pick(g, []string{"base32(", "b32("}) + s + ")"
	case 6:
		if len(b) == 0 {
			return "\"\""
		}
		return pick(g, []string{"base64 ", "b64 "}) + pad(encBits(b, b64alpha, 6), 4)
	default:
		if len(b) == 0 {
			return "0x"
		}
		s := encBits(b, b32alpha, 5)
		if g.Bool() {
			s = pad(s, 8)
		}
		return pick(g, []string{"base32 ", "b32 "}) + s
	}
}

var intNames = []string{"pay", "NoOp", "OptIn", "CloseOut", "ClearState", "UpdateApplication", "DeleteApplication", "keyreg", "acfg", "axfer", "afrz", "appl", "Payment", "AssetTransfer", "ApplicationCall", "unknown"}

// genImm renders one valid immediate of the kind; version 0 = ignore versions.
func genImm(g *G, kind string, version int, labels []string) string {
	switch kind {
	case "u8":
		if g.Bool() {
			return fmt.Sprint(g.Intn(4))
		}
		return fmt.Sprint(g.Intn(256))
	case "i8":
		return fmt.Sprint(g.Range(-128, 127))
	case "u64":
		return genIntLit(g, g.U64())
	case "int":
		if g.Chance(1, 4) {
			return pick(g, intNames)
		}
		return genIntLit(g, g.U64())
	case "bytes":
		return genBytesLit(g, genBytesVal(g))
	case "label":
		return pick(g, labels)
	case "addr":
		return mkAddr(g.Bytes(32))
	case "sig":
		return pick(g, []string{"\"add(uint64,uint64)uint128\"", "\"f()void\"", "\"a(byte[],(bool,address))string\""})
	}
	// field groups
	grp := kind
	if grp == "txna" || grp == "itxn" {
		grp = "txn"
	}
	var ok []refField
	for _, f := range refFields[grp] {
		need := f.Version
		if kind == "itxn" {
			if f.Itx == 0 {
				continue
			}
			need = f.Itx
		}
		if kind == "txna" && !f.Array {
			continue
		}
		if version != 0 && need > uint64(version) {
			continue
		}
		ok = append(ok, f)
	}
	if len(ok) == 0 {
		return fmt.Sprint(g.Intn(3))
	}
	f := pick(g, ok)
	if g.Chance(1, 5) {
		return fmt.Sprint(f.Value)
	}
	return f.Name
}

func genOpLine(g *G, op *refOp, version int, labels []string) string {
	parts := []string{op.Name}
	if op.Imms != "" {
		imms := strings.Split(op.Imms, " ")
		if (op.Name == "txn" || op.Name == "gtxn" || op.Name == "gtxns") && g.Bool() {
			// with an index, the field is an array
			imms[len(imms)-2] = "txna"
			imms[len(imms)-1] = "u8"
		} else if strings.HasSuffix(op.Name, "txn") || op.Name == "gtxns" {
			if imms[len(imms)-1] == "u8?" {
				imms = imms[:len(imms)-1]
			}
		}
		for i, im := range imms {
			k := strings.TrimRight(im, "*?")
			switch {
			case strings.HasSuffix(im, "*"):
				n := g.Intn(4)
				if g.Chance(1, 16) {
					n = g.Range(4, 24)
				}
				for ; n > 0; n-- {
					parts = append(parts, genImm(g, k, version, labels))
				}
			case strings.HasSuffix(im, "?"):
				if op.Name == "extract" && i == 1 {
					if len(parts) == 2 {
						parts = append(parts, genImm(g, k, version, labels))
					}
					continue
				}
				if g.Bool() {
					parts = append(parts, genImm(g, k, version, labels))
				}
			default:
				parts = append(parts, genImm(g, k, version, labels))
			}
		}
	}
	return strings.Join(parts, " ")
}

func usableOps(version int, mode int) []*refOp {
	var r []*refOp
	for i := range refOps {
		o := &refOps[i]
		min := o.App
		if mode == 2 {
			min = o.Sig
		}
		if min == 0 || min > uint64(version) {
			continue
		}
		// every field immediate must have a member usable at this version
		r = append(r, o)
	}
	return r
}

var flowOps = []string{"b", "bz", "bnz", "callsub", "switch", "match", "return", "err", "retsub", "proto", "assert", "int", "pop"}

var junkTokens = []string{"", "foo", "256", "-1", "0x", "0xzz", "0X61", "B64", "Base32(AA)", "0x616", "0x6162636", "0x61zz", "0x4a4", "\"open", "\"a\"\"b\"", "\"\\q\"", "\"\\x4\"", "b64", "base32", "b32(", "base64(!!!!)", "b32(AAA)", ":", "//", "/", "#pragma", "int", "1", "2", "Sender", "Fee", "Nope", "18446744073709551616", "0b2", "1_0", "_1", "é", "日", "😀", "\uffff", "\U00010000", "\x00", "\xff", "a:", "\"x\\\\\"", "\"\\\\\\\"\"", "+1", "08"}

func genJunkLine(g *G) string {
	switch g.Intn(5) {
	case 0: // corrupt a valid line
		op := &refOps[g.Intn(len(refOps))]
		f := strings.Split(genOpLine(g, op, 0, defLabels), " ")
		switch g.Intn(4) {
		case 0:
			f = f[:len(f)-g.Intn(2)]
		case 1:
			f = append(f, pick(g, junkTokens))
		case 2:
			f[g.Intn(len(f))] = pick(g, junkTokens)
		default:
			i := g.Intn(len(f) + 1)
			f = append(f[:i:i], append([]string{pick(g, junkTokens)}, f[i:]...)...)
		}
		return strings.Join(f, " ")
	case 1:
		n := g.Intn(5)
		var f []string
		for i := 0; i < n; i++ {
			f = append(f, pick(g, junkTokens))
		}
		return strings.Join(f, pick(g, []string{" ", "\t", "  "}))
	case 2:
		const alpha = "ab1 \t\"\\/:#()x0=é"
		rs := []rune(alpha)
		n := g.Intn(14)
		var s strings.Builder
		for i := 0; i < n; i++ {
			s.WriteRune(rs[g.Intn(len(rs))])
		}
		return s.String()
	case 3:
		op := &refOps[g.Intn(len(refOps))]
		n := g.Intn(4)
		f := []string{op.Name}
		for i := 0; i < n; i++ {
			f = append(f, pick(g, junkTokens))
		}
		return strings.Join(f, " ")
	default:
		return pick(g, []string{"#pragma", "#pragma version", "#pragma version 0", "#pragma version x", "#pragma mode logicsig", "#pragma foo 1", "//#pragma mode logicsig", "// #pragma mode logicsig ", ":", "a b:", "a: int 1", "#pragma version 8 9"})
	}
}

var comments = []string{"// c", "//", "// \"quoted\"", "//é😀", "//\uffff\U00010000 x", "// a // b", "//:", "// int 1"}

// genProgram builds a source text, mostly well formed.
func genProgram(g *G, o genOpts) string {
	labels := o.Labels
	if labels == nil {
		labels = defLabels
		if o.NoUnicode {
			labels = []string{"a", "b", "main", "loop_1", "x", "end", "int"}
		}
	}
	v := o.Version
	if v == 0 {
		v = genVersion(g)
	}
	mode := o.Mode
	if mode == 0 {
		mode = 1
		if g.Chance(1, 4) {
			mode = 2
		}
	}
	eol := "\n"
	if !o.LF {
		eol = pick(g, []string{"\n", "\n", "\r\n", "\r", "mix"})
	}
	max := o.MaxLines
	if max == 0 {
		max = 12
	}
	var b strings.Builder
	end := func() {
		e := eol
		if e == "mix" {
			e = pick(g, []string{"\n", "\r\n", "\r"})
		}
		b.WriteString(e)
	}
	if mode == 2 {
		b.WriteString("//#pragma mode logicsig")
		end()
	}
	if !o.NoPragma && (o.ValidOnly || g.Chance(7, 8)) {
		b.WriteString(fmt.Sprintf("#pragma version %d", v))
		end()
	} else {
		v = 1
	}
	ops := usableOps(v, mode)
	n := g.Intn(max + 1)
	for i := 0; i < n; i++ {
		line := ""
		w := []int{10, 3, 2, 2, 3, 0, 0}
		if !o.ValidOnly {
			w[5] = 3
			w[6] = 3
		}
		if o.FlowHeavy {
			w = []int{2, 6, 1, 1, 8, w[5] / 3, w[6] / 3}
		}
		switch g.Weighted(w...) {
		case 0:
			line = genOpLine(g, pick(g, ops), v, labels)
		case 1:
			line = pick(g, labels) + ":"
		case 2:
			line = ""
		case 3:
			line = pick(g, comments)
			if o.NoUnicode {
				line = pick(g, comments[:3])
			}
		case 4:
			var fo []*refOp
			for _, x := range ops {
				for _, y := range flowOps {
					if x.Name == y {
						fo = append(fo, x)
					}
				}
			}
			line = genOpLine(g, pick(g, fo), v, labels)
		case 5:
			line = genOpLine(g, &refOps[g.Intn(len(refOps))], 0, labels)
		default:
			line = genJunkLine(g)
		}
		if g.Chance(1, 3) {
			line = pick(g, []string{" ", "\t", "    ", " \t "}) + line
		}
		if g.Chance(1, 6) && line != "" && !strings.HasPrefix(strings.TrimSpace(line), "//") {
			if o.NoUnicode {
				line += " " + pick(g, comments[:3])
			} else {
				line += pick(g, []string{" ", "\t"}) + pick(g, comments)
			}
		}
		if g.Chance(1, 10) {
			line += pick(g, []string{" ", "\t"})
		}
		if g.Chance(1, 12) {
			line = strings.Replace(line, " ", pick(g, []string{"  ", "\t", " \t"}), 1)
		}
		b.WriteString(line)
		if i < n-1 || g.Chance(1, 2) {
			end()
		}
	}
	return inflate(g, b.String(), 300, o.ValidOnly || o.LF)
}

// genRaw builds arbitrary text.
func genRaw(g *G) string {
	switch g.Intn(4) {
	case 0:
		return string(g.Bytes(60))
	case 1:
		frag := []string{"\"", "\\", "/", "//", "\n", "\r", "\r\n", " ", "\t", ":", "a", "int 1", "é", "😀", "\uffff", "\U00010000", "\x80", "\xf0\x9f", "\x00", "#pragma version 8", "byte \"", "b x", "x:", "b64 //8=", "b64 ", "\u2028", "\u00a0", "\v", "\f"}
		n := g.Intn(25)
		var s strings.Builder
		for i := 0; i < n; i++ {
			s.WriteString(pick(g, frag))
		}
		return s.String()
	case 2:
		// mutate a program at the byte level
		p := []byte(genProgram(g, genOpts{MaxLines: 8}))
		for k := g.Intn(4); k >= 0 && len(p) > 0; k-- {
			i := g.Intn(len(p))
			switch g.Intn(4) {
			case 0:
				p = append(p[:i], p[i+1:]...)
			case 1:
				p[i] = byte(g.draw(256))
			case 2:
				p = append(p[:i:i], append([]byte(pick(g, []string{"\"", "\n", "\r", "\\", " ", ":", "//", "\xff"})), p[i:]...)...)
			default:
				p = p[:i]
			}
		}
		return string(p)
	default:
		return genProgram(g, genOpts{MaxLines: 10})
	}
}
