package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/dragmz/teal"
)

// ---- P04 literals -----------------------------------------------------------

func p04ints(g *G, c *Ctx) {
	v := g.U64()
	lit := genIntLit(g, v)
	want, ok := v, true
	switch g.Intn(4) {
	case 0: // mutate the literal
		b := []byte(lit)
		const alpha = "0123456789abcdefxXoOb_-+.g"
		switch g.Intn(3) {
		case 0:
			b[g.Intn(len(b))] = alpha[g.Intn(len(alpha))]
		case 1:
			i := g.Intn(len(b) + 1)
			b = append(b[:i:i], append([]byte{alpha[g.Intn(len(alpha))]}, b[i:]...)...)
		default:
			b = b[:len(b)-1]
		}
		lit = string(b)
		if lit == "" || strings.HasPrefix(lit, "//") {
			c.Discard()
		}
		want, ok = refUint(lit)
		c.Class("mutated")
	default:
		c.Class("valid")
	}
	op := pick(g, []string{"int", "pushint", "intcblock", "pushints"})
	named := ""
	if op == "int" && g.Chance(1, 6) {
		named = pick(g, intNames)
		lit = named
		want, ok = refInts[named], true
		c.Class("named")
	}
	src := "#pragma version 8\n" + op + " " + lit
	c.Input("%s", show(src))
	c.Nontrivial(src)
	res := teal.Process(src)
	errs := 0
	for _, d := range res.Diagnostics {
		if d.Severity() == teal.DiagErr {
			errs++
			if d.Line() != 1 || d.Begin() != len(op)+1 || d.End() != len(op)+1+len(lit) {
				c.Fail("int-error-place", "error reported at %d:%d-%d, not at the literal", d.Line(), d.Begin(), d.End())
			}
		}
	}
	if ok != (errs == 0) {
		c.Fail("int-acceptance", "literal %q: valid=%v, errors reported=%d", lit, ok, errs)
	}
	if !ok {
		return
	}
	var got []uint64
	switch e := res.Listing[1].(type) {
	case *teal.IntExpr:
		got = []uint64{e.Value}
	case *teal.PushIntExpr:
		got = []uint64{e.Value}
	case *teal.IntcBlockExpr:
		got = e.Values
	case *teal.PushIntsExpr:
		got = e.Ints
	default:
		c.Fail("int-statement", "read as %T", e)
	}
	if len(got) != 1 || got[0] != want {
		c.Fail("int-value", "literal %q read as %v, it denotes %d", lit, got, want)
	}
}

func p04bytes(g *G, c *Ctx) {
	op := pick(g, []string{"byte", "pushbytes", "bytecblock", "pushbytess"})
	n := 1
	if op == "bytecblock" || op == "pushbytess" {
		n = g.Range(1, 4)
	}
	var want [][]byte
	var lits []string
	for i := 0; i < n; i++ {
		b := genBytesVal(g)
		want = append(want, b)
		lits = append(lits, genBytesLit(g, b))
	}
	line := op + " " + strings.Join(lits, " ")
	ok := true
	if g.Chance(1, 3) {
		b := []byte(line)
		const alpha = "ABCabc0129+/=()\"\\xn _"
		i := len(op) + 1 + g.Intn(len(b)-len(op))
		if i > len(b) {
			i = len(b)
		}
		switch g.Intn(5) {
		case 3: // another spelling of how the value is written
			l := " " + string(b[len(op)+1:])
			was := pick(g, []string{" 0x", " base64", " b64", " base32", " b32", "(", ")", " \""})
			l = strings.Replace(l, was, pick(g, []string{strings.ToUpper(was), strings.Title(was), was + " ", was + was[1:], " x", " 0b", " h\"", " utf8:", " b16 ", "[", " '"}), 1)
			b = []byte(op + l)
		case 4:
			if i < len(b) && b[i]|0x20 >= 'a' && b[i]|0x20 <= 'z' {
				b[i] ^= 0x20
			}
		case 0:
			if i < len(b) {
				b[i] = alpha[g.Intn(len(alpha))]
			}
		case 1:
			b = append(b[:i:i], append([]byte{alpha[g.Intn(len(alpha))]}, b[i:]...)...)
		default:
			if i < len(b) {
				b = append(b[:i:i], b[i+1:]...)
			}
		}
		line = string(b)
		c.Class("mutated")
	} else {
		c.Class("valid")
	}
	src := "#pragma version 8\n" + line
	c.Input("%s", show(src))
	c.Nontrivial(src)
	p := refAnalyze(src)
	st := p.Stmts[1]
	if !p.Lines[1].Bad && !st.Err {
		want = nil
		for _, v := range st.Vals {
			want = append(want, v.B)
		}
	} else {
		ok = false
	}
	res := teal.Process(src)
	checkDiags(c, res, p, "PARSE SYNTAX")
	if !ok {
		return
	}
	var got [][]byte
	switch e := res.Listing[1].(type) {
	case *teal.ByteExpr:
		got = [][]byte{e.Value}
	case *teal.PushBytesExpr:
		got = [][]byte{e.Value}
	case *teal.BytecBlockExpr:
		got = e.Values
	case *teal.PushBytessExpr:
		got = e.Bytess
	default:
		c.Fail("bytes-statement", "read as %T", e)
	}
	if len(got) != len(want) {
		c.Fail("bytes-count", "%q read as %d values, it has %d", line, len(got), len(want))
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			c.Fail("bytes-value", "%q: value %d read as %x, it denotes %x", line, i, got[i], want[i])
		}
	}
}

func p04addr(g *G, c *Ctx) {
	a := mkAddr(g.Bytes(32))
	if g.Bool() {
		b := []byte(a)
		switch g.Intn(3) {
		case 0:
			b[g.Intn(len(b))] = b32alpha[g.Intn(32)]
		case 1:
			b = b[:g.Range(1, len(b)-1)]
		default:
			b = append(b, b32alpha[g.Intn(32)])
		}
		a = string(b)
	}
	src := "addr " + a
	c.Input("%s", show(src))
	c.Nontrivial(src)
	ok := refAddr(a)
	res := teal.Process(src)
	if ok != (len(res.Diagnostics) == 0) {
		c.Fail("addr-acceptance", "address valid=%v, diagnostics=%d", ok, len(res.Diagnostics))
	}
	if ok {
		c.Class("valid")
		if e, k := res.Listing[0].(*teal.AddrExpr); !k || e.Address != a {
			c.Fail("addr-value", "read as %v", res.Listing[0])
		}
	}
}

// ---- P05 availability by version and mode ------------------------------------

func availability(c *Ctx, op *refOp, v int, mode string, line string, spelled string) {
	src := ""
	if mode == "sig" {
		src = "//#pragma mode logicsig\n"
	}
	li := strings.Count(src, "\n")
	if v > 0 {
		src += fmt.Sprintf("#pragma version %d\n", v)
		li++
	} else {
		v = 1
	}
	src += line
	c.Input("%s", show(src))
	c.Nontrivial(src)
	res := teal.Process(src)
	min := op.App
	if mode == "sig" {
		min = op.Sig
	}
	var n7, n8 int
	for _, d := range res.Diagnostics {
		switch d.Rule() {
		case "LINT0007":
			n7++
		case "LINT0008":
			n8++
			if !strings.Contains(d.String(), fmt.Sprint(min)) {
				c.Fail("version-message", "message %q does not name version %d", d.String(), min)
			}
		default:
			continue
		}
		if d.Severity() != teal.DiagErr || d.Line() != li || d.Begin() != 0 || d.End() != len(op.Name) {
			c.Fail("availability-place", "diagnostic %s at %d:%d-%d, the opcode is at %d:0-%d", d.Rule(), d.Line(), d.Begin(), d.End(), li, len(op.Name))
		}
	}
	w7, w8 := 0, 0
	if min == 0 {
		w7 = 1
	} else if min > uint64(v) {
		w8 = 1
	}
	if n7 != w7 {
		c.Fail("mode:"+op.Name, "%s in %s mode: %d mode errors, want %d", op.Name, mode, n7, w7)
	}
	if n8 != w8 {
		c.Fail("version:"+op.Name, "%s at version %d in %s mode (needs %d): %d version errors, want %d", op.Name, v, mode, min, n8, w8)
	}
	var need []uint64
	for _, rv := range res.Versions {
		need = append(need, rv.Version)
		if rv.StartLine() != li || rv.EndLine() != li {
			c.Fail("required-version-place", "required version on line %d", rv.StartLine())
		}
	}
	if w8 == 1 && (len(need) != 1 || need[0] != min) || w8 == 0 && len(need) != 0 {
		c.Fail("required-version:"+op.Name, "required versions reported: %v, want %d x %d", need, w8, min)
	}
	if (mode == "sig") != (res.Mode == teal.ModeSig) || res.Version != uint64(v) {
		c.Fail("mode-version", "program is read as mode %v version %d", res.Mode, res.Version)
	}
	if w7+w8 > 0 {
		c.Class("unavailable")
	} else {
		c.Class("available")
	}
}

// exhaustive: every opcode x version 0(default)..10 x mode
func p05enum(g *G, c *Ctx) {
	i := g.Intn(len(refOps) * 11 * 2)
	op := &refOps[i%len(refOps)]
	i /= len(refOps)
	v := i % 11
	mode := "app"
	if i/11 == 1 {
		mode = "sig"
	}
	availability(c, op, v, mode, genOpLine(g, op, 0, []string{"x"}), "")
}

func p05names(g *G, c *Ctx) {
	// the documented set of opcodes is exactly the accepted one
	var names []string
	for n, it := range teal.Ops.Items {
		names = append(names, n)
		r, ok := refOpByName[n]
		if !ok {
			c.Fail("extra-opcode", "opcode %s is not in the reference", n)
		}
		if it.Name != n || it.AppVersion != r.App || it.SigVersion != r.Sig {
			c.Fail("opcode-versions:"+n, "opcode %s listed as app>=%d sig>=%d, reference %d %d", n, it.AppVersion, it.SigVersion, r.App, r.Sig)
		}
	}
	for _, o := range refOps {
		if _, ok := teal.Ops.Items[o.Name]; !ok {
			c.Fail("missing-opcode", "opcode %s is missing", o.Name)
		}
	}
	sort.Strings(names)
	c.Input("%d opcodes: %s", len(names), strings.Join(names, " "))
	c.Nontrivial("names")
}

// random programs with several pragmas / mode switches
func p05prog(g *G, c *Ctx) {
	n := g.Range(1, 10)
	var ls []string
	for i := 0; i < n; i++ {
		switch g.Intn(8) {
		case 0:
			ls = append(ls, fmt.Sprintf("#pragma version %d", g.Range(0, 10)))
		case 1:
			ls = append(ls, pick(g, []string{"//#pragma mode logicsig", "// #pragma mode logicsig", "// #pragma mode application", "//#pragma mode logicsigs", "int 1 //#pragma mode logicsig"}))
		default:
			ls = append(ls, genOpLine(g, &refOps[g.Intn(len(refOps))], 0, defLabels))
		}
	}
	src := strings.Join(ls, "\n")
	c.Input("%s", show(src))
	p := refAnalyze(src)
	res := teal.Process(src)
	checkDiags(c, res, p, "LINT0007 LINT0008")
	if (res.Mode == teal.ModeSig) != (p.Mode == "sig") || res.Version != p.Version {
		c.Fail("mode-version", "mode %v version %d, want %s %d", res.Mode, res.Version, p.Mode, p.Version)
	}
	if (res.VersionToken == nil) != (p.VerTok == nil) {
		c.Fail("version-token", "version token presence")
	}
	if p.VerTok != nil && (res.VersionToken.Line() != p.VerTok.Line || res.VersionToken.Begin() != p.VerTok.B || res.VersionToken.End() != p.VerTok.E) {
		c.Fail("version-token", "version token at %d:%d", res.VersionToken.Line(), res.VersionToken.Begin())
	}
	var got, want []string
	for _, v := range res.Versions {
		got = append(got, fmt.Sprintf("%d:%d-%d %d", v.StartLine(), v.StartCharacter(), v.EndCharacter(), v.Version))
	}
	for _, d := range p.Diags {
		if d.Rule == "LINT0008" {
			b, e := p.span(d.Line)
			want = append(want, fmt.Sprintf("%d:%d-%d %d", d.Line, b, e, d.Need))
		}
	}
	if d := diffLists(got, want); d != "" {
		c.Fail("required-versions", "%s", d)
	}
	if len(want) > 0 {
		c.Nontrivial(src)
	}
}

// ---- P06 immediates -----------------------------------------------------------

// exhaustive over every named field of every group, at every version
func p06fieldCases() []struct {
	op   *refOp
	kind string
	f    refField
} {
	var out []struct {
		op   *refOp
		kind string
		f    refField
	}
	for i := range refOps {
		o := &refOps[i]
		for _, im := range strings.Fields(o.Imms) {
			k := strings.TrimRight(im, "*?")
			grp := k
			if k == "txna" || k == "itxn" {
				grp = "txn"
			}
			if fs, ok := refFields[grp]; ok {
				for _, f := range fs {
					out = append(out, struct {
						op   *refOp
						kind string
						f    refField
					}{o, k, f})
				}
			}
		}
	}
	return out
}

func p06fields(g *G, c *Ctx) {
	cs := p06fieldCases()
	i := g.Intn(len(cs) * 10)
	v := i%10 + 1
	x := cs[i/10]
	parts := []string{x.op.Name}
	for _, im := range strings.Fields(x.op.Imms) {
		k := strings.TrimRight(im, "*?")
		if k == x.kind {
			parts = append(parts, x.f.Name)
		} else if !strings.HasSuffix(im, "?") {
			parts = append(parts, "1")
		}
	}
	line := strings.Join(parts, " ")
	src := fmt.Sprintf("#pragma version %d\n%s", v, line)
	c.Input("%s", show(src))
	c.Nontrivial(src)
	need := x.f.Version
	ok := true
	switch x.kind {
	case "txna":
		ok = x.f.Array
	case "itxn":
		ok = x.f.Itx != 0
		need = x.f.Itx
	}
	ok = ok && need <= uint64(v)
	res := teal.Process(src)
	n := 0
	for _, d := range res.Diagnostics {
		if d.Rule() == "PARSE" {
			n++
			if d.Line() != 1 || src[len(src)-len(line):][d.Begin():d.End()] != x.f.Name {
				c.Fail("field-error-place", "error at %d:%d-%d", d.Line(), d.Begin(), d.End())
			}
		}
	}
	if ok != (n == 0) {
		c.Fail("field:"+x.op.Name+" "+x.f.Name, "%s at version %d: valid=%v, errors=%d", line, v, ok, n)
	}
	if ok {
		c.Class("valid")
		// the name denotes the same field as its number
		num := strings.Replace(line, x.f.Name, fmt.Sprint(x.f.Value), 1)
		r2 := teal.Process(fmt.Sprintf("#pragma version %d\n%s", v, num))
		if res.Listing[1].String() != r2.Listing[1].String() {
			c.Fail("field-number:"+x.f.Name, "%q and %q are read differently: %q, %q", line, num, res.Listing[1], r2.Listing[1])
		}
	} else {
		c.Class("invalid")
	}
}

func p06shape(g *G, c *Ctx) {
	op := &refOps[g.Intn(len(refOps))]
	v := g.Range(1, 9)
	line := genOpLine(g, op, 0, []string{"x", "y"})
	f := strings.Split(line, " ")
	switch g.Intn(6) {
	case 0:
	case 1:
		f = f[:g.Range(1, len(f))]
	case 2:
		f = append(f, pick(g, junkTokens))
	case 3:
		f = append(f, genImm(g, pick(g, []string{"u8", "u64", "bytes", "txn", "label"}), 0, []string{"x"}))
	case 4:
		i := g.Range(1, len(f))
		if i < len(f) {
			f[i] = pick(g, junkTokens)
		}
	default:
		f[0] = pick(g, []string{strings.ToUpper(f[0]), f[0] + "_", "x" + f[0], f[0][:len(f[0])-1], f[0] + "2"})
	}
	line = strings.Join(f, " ")
	src := fmt.Sprintf("#pragma version %d\n%s", v, line)
	c.Input("%s", show(src))
	c.Nontrivial(src)
	p := refAnalyze(src)
	res := teal.Process(src)
	checkDiags(c, res, p, "PARSE SYNTAX")
	if len(p.Stmts) > 1 && p.Stmts[1].Err {
		c.Class("malformed")
	} else {
		c.Class("well-formed")
	}
}

// every small integer in every u8 / i8 / field position
func p06small(g *G, c *Ctx) {
	type pos struct {
		op *refOp
		i  int
		k  string
	}
	var ps []pos
	for i := range refOps {
		for j, im := range strings.Fields(refOps[i].Imms) {
			k := strings.TrimRight(im, "*?")
			if k == "u8" || k == "i8" || k != "u64" && k != "int" && k != "bytes" && k != "label" && k != "addr" && k != "sig" {
				ps = append(ps, pos{&refOps[i], j, k})
			}
		}
	}
	x := ps[g.Intn(len(ps))]
	val := pick(g, []int{0, 1, 127, 128, 254, 255, 256, 257, -1, -127, -128, -129, 1000, 65536, 65537})
	if g.Bool() {
		val = g.Range(-140, 270)
	}
	parts := []string{x.op.Name}
	for j, im := range strings.Fields(x.op.Imms) {
		k := strings.TrimRight(im, "*?")
		if j == x.i {
			parts = append(parts, fmt.Sprint(val))
			if x.op.Name != "extract" {
				// optional immediates after this one are left out
			}
		} else if j < x.i || !strings.HasSuffix(im, "?") || x.op.Name == "extract" {
			parts = append(parts, genImm(g, k, 0, []string{"x"}))
		}
	}
	src := "#pragma version 9\n" + strings.Join(parts, " ")
	c.Input("%s", show(src))
	c.Nontrivial(src)
	p := refAnalyze(src)
	res := teal.Process(src)
	checkDiags(c, res, p, "PARSE SYNTAX")
	listingAgainst(c, res, p)
}

// ---- P07 print and reparse ------------------------------------------------------

func p07(g *G, c *Ctx) {
	src := genProgram(g, genOpts{MaxLines: 10, ValidOnly: true})
	roundTrip(c, src)
}

func roundTrip(c *Ctx, src string) {
	c.Input("%s", show(src))
	p := refAnalyze(src)
	for _, st := range p.Stmts {
		if st.loose() {
			c.Discard()
		}
	}
	res := teal.Process(src)
	listingAgainst(c, res, p)
	txt := res.Listing.String()
	if n := strings.Count(txt, "\n"); n != len(res.Listing) {
		c.Fail("print-lines", "listing of %d statements printed on %d lines", len(res.Listing), n)
	}
	again := teal.Process(txt)
	if len(again.Listing) != len(res.Listing) {
		c.Fail("reparse-length", "printed listing reads back as %d statements, was %d", len(again.Listing), len(res.Listing))
	}
	for i := range again.Listing {
		if fmt.Sprintf("%T", again.Listing[i]) != fmt.Sprintf("%T", res.Listing[i]) || again.Listing[i].String() != res.Listing[i].String() {
			c.Fail(fmt.Sprintf("reparse:%T", res.Listing[i]), "statement %d: %T %q reads back as %T %q", i, res.Listing[i], res.Listing[i], again.Listing[i], again.Listing[i])
		}
	}
	nop := 0
	for _, st := range p.Stmts {
		if st.Kind == "op" {
			nop++
		}
	}
	if nop > 1 {
		c.Nontrivial(src)
	}
}

func p07each(g *G, c *Ctx) {
	op := &refOps[g.Intn(len(refOps))]
	src := "#pragma version 10\n" + genOpLine(g, op, 0, []string{"x", "a b"[:1], "L1"})
	roundTrip(c, src)
	c.Nontrivial(src)
}

// ---- P08/P09 label and flow rules -----------------------------------------------

func p08(g *G, c *Ctx) {
	src := genFlow(g)
	c.Input("%s", show(src))
	p := refAnalyze(src)
	res := teal.Process(src)
	checkDiags(c, res, p, "LINT0001 LINT0002")
	// LINT0005 covers missing labels and endless loops: told apart by severity of text
	checkMissing(c, res, p)
	var got, want []string
	for _, r := range res.Redundants {
		if _, ok := r.(*teal.RedundantLabelLine); ok {
			got = append(got, fmt.Sprint(r.Line()))
		} else if _, ok := r.(teal.RedundantLabelLine); ok {
			got = append(got, fmt.Sprint(r.Line()))
		}
	}
	for _, r := range p.Reds {
		if r.Kind == "label" {
			want = append(want, fmt.Sprint(r.Line))
		}
	}
	if d := diffLists(got, want); d != "" {
		c.Fail("redundant-labels", "%s", d)
	}
	if len(p.Syms) > 1 && len(p.Refs) > 1 {
		c.Nontrivial(src)
	}
	for _, d := range p.Diags {
		c.Class(d.Rule)
	}
}

// checkMissing: per line, LINT0005 reports number (missing targets + loop)
func checkMissing(c *Ctx, res *teal.ProcessResult, p *rProg) {
	checkDiags(c, res, p, "LINT0005")
	def := map[string]bool{}
	for _, s := range p.Syms {
		def[s.Name] = true
	}
	for _, d := range res.Diagnostics {
		if d.Rule() != "LINT0005" {
			continue
		}
		// a report naming a label must name a missing one used on that line
		var names []string
		for _, n := range p.Stmts[d.Line()].labels() {
			if !def[n] {
				names = append(names, n)
			}
		}
		if len(names) > 0 {
			ok := false
			for _, n := range names {
				if strings.Contains(d.String(), "\""+n+"\"") {
					ok = true
				}
			}
			if !ok {
				c.Fail("missing-name", "line %d: report %q names none of the missing labels %v", d.Line(), d.String(), names)
			}
		}
	}
}

func genFlow(g *G) string {
	labels := []string{"a", "b", "c", "main"}
	if g.Bool() {
		labels = labels[:2]
	}
	if g.Chance(1, 4) {
		return genProgram(g, genOpts{MaxLines: 14, FlowHeavy: true, Labels: append(labels, "é", "x:y")})
	}
	n := g.Intn(14)
	var ls []string
	if g.Chance(3, 4) {
		ls = append(ls, "#pragma version 8")
	}
	for i := 0; i < n; i++ {
		switch g.Weighted(6, 6, 3, 2, 2, 2, 2, 1, 2, 1) {
		case 0:
			ls = append(ls, pick(g, labels)+":")
		case 1:
			ls = append(ls, "b "+pick(g, labels))
		case 2:
			ls = append(ls, pick(g, []string{"bz ", "bnz ", "callsub "})+pick(g, labels))
		case 3:
			ls = append(ls, pick(g, []string{"return", "err", "retsub"}))
		case 4:
			ls = append(ls, pick(g, []string{"", "// c", " "}))
			if g.Chance(1, 30) {
				for k := g.Range(4, 80); k > 0; k-- {
					ls = append(ls, pick(g, []string{"", "// c", "foo"}))
				}
			}
		case 5:
			ls = append(ls, pick(g, []string{"int 1", "pop", "assert", "dup"}))
			if g.Chance(1, 60) {
				for k := g.Range(4, 60); k > 0; k-- {
					ls = append(ls, pick(g, []string{"int 1", "pop", "// c"}))
				}
			}
		case 6:
			s := pick(g, []string{"switch", "match"})
			for k := g.Intn(4); k > 0; k-- {
				s += " " + pick(g, labels)
			}
			ls = append(ls, s)
		case 7:
			ls = append(ls, pick(g, []string{"#pragma version 8", "#pragma version 7"}))
		case 8:
			ls = append(ls, pick(g, []string{"foo", "int", "b", ":", "int 1 2", "b a b", "\"x"}))
		default:
			ls = append(ls, "proto 1 1")
		}
	}
	return inflate(g, strings.Join(ls, "\n")+pick(g, []string{"", "\n"}), 200, false)
}

func p09(g *G, c *Ctx) {
	src := genFlow(g)
	c.Input("%s", show(src))
	p := refAnalyze(src)
	res := teal.Process(src)
	checkDiags(c, res, p, "LINT0003 LINT0004 LINT0006")
	checkMissing(c, res, p)
	var got, want []string
	for _, r := range res.Redundants {
		switch r.(type) {
		case teal.RedundantBLine, *teal.RedundantBLine:
			got = append(got, fmt.Sprint(r.Line()))
		}
	}
	for _, r := range p.Reds {
		if r.Kind == "b" {
			want = append(want, fmt.Sprint(r.Line))
		}
	}
	if d := diffLists(got, want); d != "" {
		c.Fail("redundant-branches", "%s", d)
	}
	// linting the listing alone gives the same reports
	got, want = nil, nil
	for _, e := range res.Listing.Lint() {
		got = append(got, fmt.Sprintf("%d %s %s %s", e.Line(), e.Rule(), sevOf(e.Severity()), e))
	}
	for _, d := range res.Diagnostics {
		if strings.Contains("LINT0001 LINT0002 LINT0003 LINT0004 LINT0005 LINT0006", d.Rule()) {
			want = append(want, fmt.Sprintf("%d %s %s %s", d.Line(), d.Rule(), sevOf(d.Severity()), d))
		}
	}
	if d := diffLists(got, want); d != "" {
		c.Fail("lint-listing", "linting the listing differs from the analysis: %s", d)
	}
	k := 0
	for _, d := range p.Diags {
		c.Class(d.Rule)
		if strings.Contains("LINT0003 LINT0004 LINT0005 LINT0006", d.Rule) {
			k++
		}
	}
	if k > 0 {
		c.Nontrivial(src)
	}
}

// ---- P10 symbol index --------------------------------------------------------------

func p10(g *G, c *Ctx) {
	var src string
	if g.Bool() {
		src = genFlow(g)
	} else {
		src = genProgram(g, genOpts{MaxLines: 12})
	}
	c.Input("%s", show(src))
	p := refAnalyze(src)
	res := teal.Process(src)
	tk := func(l, b, e int, n string) string { return fmt.Sprintf("%d:%d-%d %q", l, b, e, n) }
	var gs, ws []string
	for _, s := range res.Symbols {
		gs = append(gs, tk(s.Line(), s.Begin(), s.End(), s.Name()))
		if s.StartLine() != s.Line() || s.EndLine() != s.Line() || s.StartCharacter() != s.Begin() || s.EndCharacter() != s.End() {
			c.Fail("symbol-range", "symbol range disagrees with its position")
		}
	}
	for _, s := range p.Syms {
		ws = append(ws, tk(s.Tok.Line, s.Tok.B, s.Tok.E, s.Name))
	}
	if strings.Join(gs, "\n") != strings.Join(ws, "\n") {
		c.Fail("symbols", "%s", diffLists(gs, ws))
	}
	cmp := func(key string, got []teal.Token, want []rTok) {
		var g, w []string
		for _, t := range got {
			g = append(g, tk(t.Line(), t.Begin(), t.End(), t.String()))
		}
		for _, t := range want {
			w = append(w, tk(t.Line, t.B, t.E, t.Text()))
		}
		if strings.Join(g, "\n") != strings.Join(w, "\n") {
			c.Fail(key, "got %v want %v\n%s", g, w, diffLists(g, w))
		}
	}
	cmp("references", res.SymbolRefs, p.Refs)
	cmp("missing-references", res.MissRefs, p.Miss)
	for n, k := range p.RefC {
		if res.RefCounts[n] != k {
			c.Fail("refcount", "label %q counted %d times, used %d times", n, res.RefCounts[n], k)
		}
	}
	for n, k := range res.RefCounts {
		if k != p.RefC[n] {
			c.Fail("refcount", "label %q counted %d times, used %d times", n, k, p.RefC[n])
		}
	}
	// lookups
	names := map[string]bool{"a": true, "nope": true}
	for _, s := range p.Syms {
		names[s.Name] = true
	}
	for _, r := range p.Refs {
		names[r.Text()] = true
	}
	looked := 0
	for _, n := range sortedKeys(names) {
		if looked++; looked > 60 && !g.Chance(1, 20) { // large programs: some
			continue
		}
		var w []string
		for _, s := range p.Syms {
			if s.Name == n {
				w = append(w, tk(s.Tok.Line, s.Tok.B, s.Tok.E, n))
			}
		}
		var gg []string
		for _, s := range res.SymByName(n) {
			gg = append(gg, tk(s.Line(), s.Begin(), s.End(), s.Name()))
		}
		if d := diffLists(gg, w); d != "" {
			c.Fail("lookup-symbol", "%s", d)
		}
		w, gg = nil, nil
		for _, r := range p.Refs {
			if r.Text() == n {
				w = append(w, tk(r.Line, r.B, r.E, n))
			}
		}
		for _, r := range res.SymRefByName(n) {
			gg = append(gg, tk(r.Line(), r.Begin(), r.End(), r.String()))
		}
		if d := diffLists(gg, w); d != "" {
			c.Fail("lookup-reference", "%s", d)
		}
	}
	// at every position of the document the lookup finds the label there
	for li, l := range p.Lines {
		for ch := 0; ch <= u16len(l.Text); ch++ {
			if len(src) > 2000 && !g.Chance(1, 1+len(src)/500) {
				continue
			}
			want := map[string]bool{}
			for _, s := range p.Syms {
				if s.Tok.Line == li && s.Tok.B <= ch && ch <= s.Tok.E {
					want[s.Name] = true
				}
			}
			for _, r := range p.Refs {
				if r.Line == li && r.B <= ch && ch <= r.E {
					want[r.Text()] = true
				}
			}
			got := res.SymOrRefAt(rng{li, ch, li, ch})
			if got == "" && len(want) > 0 && !want[""] || got != "" && !want[got] {
				c.Fail("at-position", "at %d:%d found %q, there is %v", li, ch, got, want)
			}
		}
	}
	// declared signatures
	sig := map[string]string{}
	lab := ""
	for _, st := range p.Stmts {
		if st.Kind == "label" {
			lab = st.Name
		}
		if st.Kind == "op" && st.Name == "proto" && lab != "" {
			sig[lab] = fmt.Sprintf("in: %d, out: %d", st.Vals[0].U, st.Vals[1].U)
		}
	}
	for _, s := range res.Symbols {
		if s.Signature() != sig[s.Name()] {
			c.Fail("signature", "label %q has signature %q, want %q", s.Name(), s.Signature(), sig[s.Name()])
		}
		// comments directly above
		var doc []string
		for li := s.Line() - 1; li >= 0 && p.Stmts[li].Kind == "comment"; li-- {
			t := p.Lines[li].Toks[0].Text()
			if strings.TrimSpace(t) == "#pragma mode logicsig" {
				break
			}
			doc = append([]string{t}, doc...)
		}
		if !strings.HasSuffix(s.Docs(), strings.Join(doc, "\n")) {
			c.Fail("docs", "label %q documented as %q, the comment above it is %q", s.Name(), s.Docs(), strings.Join(doc, "\n"))
		}
		// nothing from above the previous label: the documentation is the last
		// remarks since that label
		var since []string
		for li := s.Line() - 1; li >= 0 && p.Stmts[li].Kind != "label"; li-- {
			if p.Stmts[li].Kind == "comment" {
				if t := p.Lines[li].Toks[0].Text(); strings.TrimSpace(t) != "#pragma mode logicsig" {
					since = append([]string{t}, since...)
				}
			}
		}
		own := s.Docs() == ""
		for i := range since {
			own = own || s.Docs() == strings.Join(since[i:], "\n")
		}
		if !own {
			c.Fail("docs", "label %q documented as %q, the remarks since the label before are %q", s.Name(), s.Docs(), since)
		}
	}
	if len(p.Syms) > 0 && len(p.Refs) > 0 {
		c.Nontrivial(src)
	}
}

func init() {
	register(&Check{
		ID:   "P04",
		Rule: "values are drawn first and written in a random notation, one in three then mutated by a character; a reference decoder says what the text denotes. Non-trivial: every distinct literal",
		Subs: []Sub{
			{Name: "integers", Fn: p04ints, Quick: 60000, Thorough: 2000000},
			{Name: "bytes", Fn: p04bytes, Quick: 100000, Thorough: 4000000},
			{Name: "addresses", Fn: p04addr, Quick: 5000, Thorough: 100000},
		},
	})
	register(&Check{
		ID:   "P05",
		Rule: "every opcode x version (none,1..10) x mode exhaustively with random immediates, plus programs changing version and mode. Non-trivial: each distinct opcode/version/mode line; programs with a version error",
		Subs: []Sub{
			{Name: "matrix", Fn: p05enum, Enum: func() int { return len(refOps) * 22 }},
			{Name: "opcode-set", Fn: p05names, Quick: 1, Thorough: 1},
			{Name: "programs", Fn: p05prog, Quick: 40000, Thorough: 1000000},
		},
	})
	register(&Check{
		ID:   "P06",
		Rule: "every opcode x field name x version 1..10 exhaustively; opcode lines with missing, surplus, wrong or out-of-range immediates compared with a reference grammar. Non-trivial: every distinct line",
		Subs: []Sub{
			{Name: "fields", Fn: p06fields, Enum: func() int { return len(p06fieldCases()) * 10 }},
			{Name: "shapes", Fn: p06shape, Quick: 100000, Thorough: 3000000},
			{Name: "ranges", Fn: p06small, Quick: 40000, Thorough: 1000000},
		},
	})
	register(&Check{
		ID:   "P07",
		Rule: "valid programs and single instructions in random notations; the printed listing is read by the reference reader and by the analysis again. Non-trivial: at least two instructions, or every distinct single instruction",
		Subs: []Sub{
			{Name: "programs", Fn: p07, Quick: 40000, Thorough: 1000000},
			{Name: "instructions", Fn: p07each, Quick: 40000, Thorough: 1000000},
		},
	})
	register(&Check{
		ID:   "P08",
		Rule: "programs of labels and branches over a small label pool, with malformed lines mixed in; reports compared with a reference linter. Non-trivial: at least two labels and two references",
		Subs: []Sub{{Name: "labels", Fn: p08, Quick: 80000, Thorough: 3000000}},
	})
	register(&Check{
		ID:   "P09",
		Rule: "programs as in P08; reports compared with a reference linter. Non-trivial: at least one flow report expected",
		Subs: []Sub{{Name: "flow", Fn: p09, Quick: 80000, Thorough: 3000000}},
	})
	register(&Check{
		ID:   "P10",
		Rule: "programs as in P03 and P08; the symbol table, references, counts and every position compared with a reference index. Non-trivial: at least one label and one reference",
		Subs: []Sub{{Name: "index", Fn: p10, Quick: 40000, Thorough: 1000000}},
	})
}
