package main

// Checks on the analysis library: P01..P10.

import (
	"fmt"
	"sort"
	"strings"

	"github.com/dragmz/teal"
)

type rng struct{ sl, sc, el, ec int }

func (r rng) StartLine() int      { return r.sl }
func (r rng) StartCharacter() int { return r.sc }
func (r rng) EndLine() int        { return r.el }
func (r rng) EndCharacter() int   { return r.ec }

func show(src string) string { return fmt.Sprintf("%q", src) }

func sevOf(s teal.DiagnosticSeverity) string {
	switch s {
	case teal.DiagErr:
		return "err"
	case teal.DiagWarn:
		return "warn"
	}
	return fmt.Sprint(int(s))
}

// diagKeys renders diagnostics for comparison; rules selects them.
func implDiags(res *teal.ProcessResult, rules string) []string {
	var out []string
	for _, d := range res.Diagnostics {
		if !strings.Contains(rules, d.Rule()) {
			continue
		}
		if d.Rule() == "SYNTAX" {
			out = append(out, fmt.Sprintf("%d SYNTAX %s", d.Line(), sevOf(d.Severity())))
			continue
		}
		out = append(out, fmt.Sprintf("%d:%d-%d %s %s", d.Line(), d.Begin(), d.End(), d.Rule(), sevOf(d.Severity())))
	}
	sort.Strings(out)
	return out
}

func refDiags(p *rProg, rules string) []string {
	var out []string
	for _, d := range p.Diags {
		if !strings.Contains(rules, d.Rule) {
			continue
		}
		if d.Rule == "SYNTAX" {
			out = append(out, fmt.Sprintf("%d SYNTAX %s", d.Line, d.Sev))
			continue
		}
		out = append(out, fmt.Sprintf("%d:%d-%d %s %s", d.Line, d.B, d.E, d.Rule, d.Sev))
	}
	sort.Strings(out)
	return out
}

func diffLists(got, want []string) string {
	g, w := map[string]int{}, map[string]int{}
	for _, x := range got {
		g[x]++
	}
	for _, x := range want {
		w[x]++
	}
	var s []string
	for x, n := range g {
		if n > w[x] {
			s = append(s, fmt.Sprintf("unexpected(x%d): %s", n-w[x], x))
		}
	}
	for x, n := range w {
		if n > g[x] {
			s = append(s, fmt.Sprintf("missing(x%d): %s", n-g[x], x))
		}
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

const lintRules = "LINT0001 LINT0002 LINT0003 LINT0004 LINT0005 LINT0006 LINT0007 LINT0008"
const allRules = lintRules + " PARSE SYNTAX"

func checkDiags(c *Ctx, res *teal.ProcessResult, p *rProg, rules string) {
	if d := diffLists(implDiags(res, rules), refDiags(p, rules)); d != "" {
		c.Fail("diagnostics", "diagnostics differ from the reference:\n%s", d)
	}
	for _, d := range res.Diagnostics {
		if r := d.Rule(); (r == "LINT0001" || r == "LINT0002") && strings.Contains(rules, r) {
			for _, y := range p.Syms {
				if y.Tok.Line == d.Line() && !strings.Contains(d.String(), y.Name) {
					c.Fail("label-message", "the report about the label %q says %q", y.Name, d.String())
				}
			}
		}
		if d.Rule() == "SYNTAX" && strings.Contains(rules, "SYNTAX") {
			if l := p.Lines[d.Line()]; d.Begin() < l.BadB || d.End() > l.BadE || d.End() < d.Begin() {
				c.Fail("syntax-position", "the unterminated string at %d-%d of line %d is reported at %d-%d", l.BadB, l.BadE, d.Line(), d.Begin(), d.End())
			}
		}
	}
}

// opText re-reads a printed statement with the reference reader.
func canonText(s string) (string, bool) {
	if s == "" {
		return "", true
	}
	p := refAnalyze("#pragma version 255\n" + s)
	if len(p.Stmts) != 2 {
		return fmt.Sprintf("<%d statements>", len(p.Stmts)-1), false
	}
	st := p.Stmts[1]
	if st.Err {
		return "<syntax error>", false
	}
	return st.canon(), true
}

func wantCanon(st rStmt) string { return st.canon() }

// listingAgainst compares every statement with the reference.
func listingAgainst(c *Ctx, res *teal.ProcessResult, p *rProg) {
	if len(res.Listing) != p.N {
		c.Fail("listing-length", "listing has %d entries for %d lines", len(res.Listing), p.N)
	}
	for i, op := range res.Listing {
		if p.Stmts[i].loose() {
			continue
		}
		want := wantCanon(p.Stmts[i])
		got, ok := canonText(op.String())
		if !ok || got != want {
			key := "statement"
			if p.Stmts[i].Op != nil {
				key = "statement:" + p.Stmts[i].Op.Name
			}
			c.Fail(key, "line %d: statement printed as %q reads back as %q, the source line means %q", i, op.String(), got, want)
		}
	}
}

// ---- P01 totality ----------------------------------------------------------

func inDoc(c *Ctx, lines []rLine, what string, l, b, e int) {
	if l < 0 || l >= len(lines) {
		c.Fail("position:"+what, "%s is on line %d of a %d line document", what, l, len(lines))
	}
	n := u16len(lines[l].Text)
	if b < 0 || e < b || e > n {
		c.Fail("position:"+what, "%s at line %d has columns %d-%d, the line has %d", what, l, b, e, n)
	}
}

func positionsInDoc(c *Ctx, src string, res *teal.ProcessResult) {
	lines := splitPhysical(src)
	for _, d := range res.Diagnostics {
		inDoc(c, lines, "diagnostic", d.Line(), d.Begin(), d.End())
	}
	for _, t := range res.Tokens {
		if t.Type() == teal.TokenEol {
			continue
		}
		inDoc(c, lines, "token", t.Line(), t.Begin(), t.End())
	}
	for _, s := range res.Symbols {
		inDoc(c, lines, "symbol", s.Line(), s.Begin(), s.End())
	}
	for _, ts := range [][]teal.Token{res.SymbolRefs, res.MissRefs, res.Ops, res.Numbers, res.Strings, res.Keywords, res.Macros} {
		for _, t := range ts {
			inDoc(c, lines, "reference", t.Line(), t.Begin(), t.End())
		}
	}
	for _, v := range res.Versions {
		inDoc(c, lines, "required version", v.StartLine(), v.StartCharacter(), v.EndCharacter())
	}
	for _, r := range res.Redundants {
		inDoc(c, lines, "redundant line", r.Line(), 0, 0)
		if r.String() == "" {
			c.Fail("redundant-text", "empty description")
		}
	}
}

func p01(g *G, c *Ctx) {
	src := genRaw(g)
	c.Input("%s", show(src))
	res := teal.Process(src)
	positionsInDoc(c, src, res)
	for _, d := range res.Diagnostics {
		if d.String() == "" || d.Rule() == "" {
			c.Fail("diagnostic-text", "diagnostic without message or rule at line %d", d.Line())
		}
		_ = d.Severity().String()
	}
	res.Listing.Lint()
	_ = res.Listing.String()
	if len(res.Tokens) > 2 {
		c.Nontrivial(src)
	}
	if len(res.Diagnostics) > 0 {
		c.Class("with-diagnostics")
	} else {
		c.Class("clean")
	}
}

func genPos(g *G, n int) int {
	switch g.Intn(8) {
	case 0, 1, 2, 3, 4:
		return g.Intn(n + 2)
	case 5:
		return -1
	case 6:
		return pick(g, []int{1 << 31, -(1 << 31), 1<<31 - 1, 1 << 20})
	default:
		return n + g.Intn(5)
	}
}

func p01queries(g *G, c *Ctx) {
	var src string
	switch g.Intn(3) {
	case 0:
		src = genRaw(g)
	case 1:
		src = genProgram(g, genOpts{MaxLines: 6})
	default:
		op := &refOps[g.Intn(len(refOps))]
		src = op.Name
		for n := g.Intn(4); n > 0; n-- {
			if g.Bool() {
				src += " " + pick(g, junkTokens)
			} else {
				src += " " + fmt.Sprint(g.Range(-3, 300))
			}
		}
	}
	res := teal.Process(src)
	nl := len(res.Lines)
	l, ch := genPos(g, nl), genPos(g, 12)
	l2, ch2 := genPos(g, nl), genPos(g, 12)
	if n := len(res.Tokens); n > 0 && g.Bool() {
		t := res.Tokens[g.Intn(n)]
		l, ch = t.Line(), t.Begin()+g.Intn(t.End()-t.Begin()+1)
		l2, ch2 = l, t.End()
	}
	c.Input("%s at %d:%d-%d:%d", show(src), l, ch, l2, ch2)
	r := rng{l, ch, l2, ch2}
	res.ArgAt(l, ch)
	res.ArgValsAt(l, ch)
	res.DocAt(l, ch)
	res.InlayHints(r)
	res.SymOrRefAt(r)
	res.SymbolsWithin(r)
	res.SymbolRefsWithin(r)
	res.SymbolsForRefWithin(r)
	if nl > 0 && l >= 0 && l < nl {
		c.Nontrivial(src + fmt.Sprint(l, ch))
		c.Class("inside")
	} else {
		c.Class("outside")
	}
}

// ---- P02 lexical fidelity ---------------------------------------------------

func p02(g *G, c *Ctx) {
	src := genRaw(g)
	c.Input("%s", show(src))
	p := refAnalyze(src)
	var want []string
	for li, l := range p.Lines {
		for _, t := range l.Toks {
			ty := teal.TokenValue
			if t.Comment {
				ty = teal.TokenComment
			}
			want = append(want, fmt.Sprintf("%s %d:%d-%d %q", ty, li, t.B, t.E, t.Text()))
		}
		if l.EOL != "" {
			want = append(want, fmt.Sprintf("EOL %d:%d %q", li, u16len(l.Text), l.EOL))
		}
	}
	var got []string
	z := &teal.Lexer{Source: []byte(src)}
	for z.Scan() {
		t := z.Curr()
		if t.Type() == teal.TokenEol {
			got = append(got, fmt.Sprintf("EOL %d:%d %q", t.Line(), t.Begin(), t.String()))
		} else {
			got = append(got, fmt.Sprintf("%s %d:%d-%d %q", t.Type(), t.Line(), t.Begin(), t.End(), t.String()))
		}
		if t.StartLine() != t.Line() || t.EndLine() != t.Line() || t.StartCharacter() != t.Begin() || t.EndCharacter() != t.End() {
			c.Fail("token-range", "token range disagrees with its position")
		}
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		gs, ws := "(none)", "(none)"
		if i < len(got) {
			gs = got[i]
		}
		if i < len(want) {
			ws = want[i]
		}
		if gs != ws {
			c.Fail("tokens", "token %d is %s, the text has %s", i, gs, ws)
		}
	}
	nbad := 0
	for _, l := range p.Lines {
		if l.Bad {
			nbad++
		}
	}
	if len(z.Errors()) != nbad {
		c.Fail("lex-errors", "%d lexical errors reported, %d unterminated strings in the text", len(z.Errors()), nbad)
	}
	// the analysis sees the same tokens
	res := teal.Process(src)
	if len(res.Tokens) != len(got) {
		c.Fail("process-tokens", "analysis has %d tokens, the lexer %d", len(res.Tokens), len(got))
	}
	checkDiags(c, res, p, "SYNTAX")
	if len(want) > 3 {
		c.Nontrivial(src)
	}
	if nbad > 0 {
		c.Class("unterminated")
	}
	if strings.Contains(src, "\"") {
		c.Class("quotes")
	}
	if u16len(src) != len(src) {
		c.Class("non-ascii")
	}
}

// lexer backtracking: scanning, returning and rescanning yields the same tokens
func p02back(g *G, c *Ctx) {
	src := genRaw(g)
	c.Input("%s", show(src))
	var all []teal.Token
	z := &teal.Lexer{Source: []byte(src)}
	for z.Scan() {
		all = append(all, z.Curr())
	}
	z = &teal.Lexer{Source: []byte(src)}
	pos := -1
	for step := 0; step < 40; step++ {
		if pos >= 0 && g.Chance(1, 3) {
			if z.Return() {
				pos--
			}
			if pos >= 0 && z.Curr() != all[pos] {
				c.Fail("return", "after stepping back to token %d the current token is %v, not %v", pos, z.Curr(), all[pos])
			}
			if pos < 0 {
				break
			}
			continue
		}
		ok := z.Scan()
		pos++
		if ok != (pos < len(all)) {
			c.Fail("scan", "Scan()=%v at token %d of %d", ok, pos, len(all))
		}
		if !ok {
			break
		}
		if z.Curr() != all[pos] {
			c.Fail("rescan", "token %d is %v, was %v", pos, z.Curr(), all[pos])
		}
	}
	if len(all) > 3 {
		c.Nontrivial(src)
	}
}

// ---- P03 one statement per line, errors stay local ---------------------------

func p03(g *G, c *Ctx) {
	src := genProgram(g, genOpts{MaxLines: 12})
	c.Input("%s", show(src))
	p := refAnalyze(src)
	res := teal.Process(src)
	if len(res.Lines) != p.N || len(res.Listing) != p.N {
		c.Fail("line-count", "%d lines of text, %d analysed lines, %d statements", p.N, len(res.Lines), len(res.Listing))
	}
	for i, op := range res.Listing {
		st := p.Stmts[i]
		_, isLabel := op.(*teal.LabelExpr)
		_, isPragma := op.(*teal.PragmaExpr)
		_, isNop := op.(teal.Nop)
		if isLabel != (st.Kind == "label") || isPragma != (st.Kind == "pragma") || isNop != st.isNop() {
			c.Fail("statement-kind", "line %d (%q) is a %s, analysed as %T", i, p.Lines[i].Text, st.Kind, op)
		}
		if st.Kind == "op" {
			if f := strings.Fields(op.String()); len(f) == 0 || f[0] != st.Name {
				c.Fail("statement-op:"+st.Op.Name, "line %d (%q) analysed as %q", i, p.Lines[i].Text, op.String())
			}
		}
		if len(res.Lines[i]) > 0 && res.Lines[i][0].Line() != i {
			c.Fail("line-tokens", "tokens of line %d say line %d", i, res.Lines[i][0].Line())
		}
	}
	checkDiags(c, res, p, "PARSE SYNTAX")
	nerr, nok := 0, 0
	for _, st := range p.Stmts {
		if st.Err {
			nerr++
		} else if st.Kind == "op" {
			nok++
		}
	}
	if nerr > 0 && nok > 0 {
		c.Nontrivial(src)
		c.Class("errors-and-statements")
	}
}

// replacing one line leaves the reading of all others as it was
func p03local(g *G, c *Ctx) {
	src := genProgram(g, genOpts{MaxLines: 10, LF: true, Mode: 1})
	lines := strings.Split(src, "\n")
	k := g.Intn(len(lines))
	neutral := func(l string) bool {
		return !strings.Contains(l, "#pragma")
	}
	repl := ""
	switch g.Intn(3) {
	case 0:
		repl = ""
	case 1:
		repl = genJunkLine(g)
	default:
		repl = genOpLine(g, &refOps[g.Intn(len(refOps))], 0, defLabels)
	}
	if !neutral(lines[k]) || !neutral(repl) || strings.ContainsAny(repl, "\r\n") {
		c.Discard()
	}
	l2 := append([]string{}, lines...)
	l2[k] = repl
	src2 := strings.Join(l2, "\n")
	c.Input("%s, line %d replaced by %q", show(src), k, repl)
	a, b := teal.Process(src), teal.Process(src2)
	for i := range lines {
		if i == k {
			continue
		}
		if (i < len(a.Listing)) != (i < len(b.Listing)) {
			// only the very last line may be no statement
			if i == len(lines)-1 && strings.TrimSpace(lines[i]) == "" {
				continue
			}
			c.Fail("local-lines", "line %d appears or disappears", i)
		}
		if i >= len(a.Listing) {
			continue
		}
		if fmt.Sprintf("%T %v", a.Listing[i], a.Listing[i]) != fmt.Sprintf("%T %v", b.Listing[i], b.Listing[i]) {
			c.Fail("local-statement", "line %d (%q) was %q, becomes %q", i, lines[i], a.Listing[i], b.Listing[i])
		}
	}
	pd := func(r *teal.ProcessResult) []string {
		var out []string
		for _, d := range r.Diagnostics {
			if d.Line() != k && (d.Rule() == "PARSE" || d.Rule() == "SYNTAX" || d.Rule() == "LINT0007" || d.Rule() == "LINT0008") {
				out = append(out, fmt.Sprintf("%d:%d-%d %s %s", d.Line(), d.Begin(), d.End(), d.Rule(), d.String()))
			}
		}
		sort.Strings(out)
		return out
	}
	if d := diffLists(pd(b), pd(a)); d != "" {
		c.Fail("local-diagnostics", "diagnostics of other lines change:\n%s", d)
	}
	c.Nontrivial(src + "|" + src2)
}

func init() {
	register(&Check{
		ID:   "P01",
		Rule: "sources are random bytes, lexical fragments, byte-mutated programs and structured programs; positions are drawn inside and outside the document. Non-trivial: the source has more than 2 tokens (analysis) or the queried line exists (queries)",
		Subs: []Sub{
			{Name: "analysis", Fn: p01, Quick: 60000, Thorough: 3000000},
			{Name: "queries", Fn: p01queries, Quick: 60000, Thorough: 3000000},
		},
	})
	register(&Check{
		ID:   "P02",
		Rule: "sources as in P01; the token stream is compared with an independent reference lexer. Non-trivial: more than 3 tokens",
		Subs: []Sub{
			{Name: "tokens", Fn: p02, Quick: 80000, Thorough: 4000000},
			{Name: "backtrack", Fn: p02back, Quick: 20000, Thorough: 500000},
		},
	})
	register(&Check{
		ID:   "P03",
		Rule: "programs mixing valid, unsupported and malformed lines; statements compared line by line with a reference reader, and each program re-analysed with one line replaced. Non-trivial: both a malformed line and a valid instruction (lines), every kept pair (locality)",
		Subs: []Sub{
			{Name: "lines", Fn: p03, Quick: 60000, Thorough: 2000000},
			{Name: "locality", Fn: p03local, Quick: 40000, Thorough: 1000000},
		},
	})
}
