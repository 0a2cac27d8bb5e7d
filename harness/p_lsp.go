package main

// Checks on the language server: P11..P18.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

const docURI = "file:///d.teal"

// genDoc draws a document for the language server: valid UTF-8.
func genDoc(g *G) string {
	var s string
	switch g.Intn(5) {
	case 0:
		s = genFlow(g)
	case 4:
		s = genValueDoc(g)
	case 1:
		s = genProgram(g, genOpts{MaxLines: 10, FlowHeavy: true})
	default:
		s = genProgram(g, genOpts{MaxLines: 10})
	}
	return strings.ToValidUTF8(s, "?")
}

// genValueDoc: instructions with numeric fields, constants and byte values.
func genValueDoc(g *G) string {
	v := g.Range(5, 9)
	var b strings.Builder
	if g.Chance(1, 5) {
		b.WriteString("//#pragma mode logicsig\n")
	}
	b.WriteString(fmt.Sprintf("#pragma version %d\n", v))
	for n := g.Intn(5); n >= 0; n-- {
		op := &refOps[g.Intn(len(refOps))]
		if g.Bool() {
			op = refOpByName[pick(g, []string{"byte", "pushbytes", "bytecblock", "pushbytess", "int", "pushint", "txn", "gtxn", "itxn_field", "global", "txna", "gtxna", "asset_params_get", "acct_params_get", "json_ref", "method", "addr", "block", "itxn"})]
		}
		if op.Imms == "" {
			continue
		}
		parts := strings.Split(genOpLine(g, op, v, defLabels), " ")
		for i := range parts {
			if i > 0 {
				if g.Chance(1, 4) {
					parts[i] = pick(g, []string{"", "", "", "0", "00", "+", "-", "0x", "0b", "0o"}) + fmt.Sprint(g.Intn(70))
				} else if strings.HasPrefix(op.Imms, "bytes") && len(parts) < 30 && g.Bool() {
					parts[i] = fmt.Sprintf("0x%x", pick(g, []string{"a", "hello", "a b", "\\", "\"", "//", "~", "\x7f", "\n", "", "é", "x\\n"}))
					if g.Chance(1, 6) {
						parts[i] += pick(g, []string{"4", "z", "zz", "4z"})
					}
				}
			}
		}
		if g.Chance(1, 4) {
			b.WriteString("\t")
		}
		b.WriteString(strings.Join(parts, " "))
		if g.Chance(1, 5) {
			b.WriteString(" // c")
		}
		b.WriteString("\n")
	}
	return b.String()
}

// genDocPos draws a position, mostly on or at the edge of a token.
func genDocPos(g *G, p *rProg) (int, int) {
	var ts []rTok
	if g.Chance(3, 4) {
		for _, s := range p.Syms {
			ts = append(ts, s.Tok)
		}
		ts = append(ts, p.Refs...)
	}
	if len(ts) == 0 {
		for _, l := range p.Lines {
			ts = append(ts, l.Toks...)
		}
	}
	if len(ts) > 0 && g.Chance(7, 8) {
		t := pick(g, ts)
		ch := t.B + g.Intn(t.E-t.B+1)
		if g.Chance(1, 6) {
			ch = t.B - 1 + g.Intn(2)*(t.E-t.B+2)
			if ch < 0 {
				ch = 0
			}
		}
		return t.Line, ch
	}
	l := g.Intn(len(p.Lines) + 1)
	ch := g.Intn(12)
	return l, ch
}

// labelAt: the labels at a position (touching counts).
func labelAt(p *rProg, l, ch int) (names map[string]bool, tok *rTok, def bool) {
	names = map[string]bool{}
	for i := range p.Syms {
		s := &p.Syms[i]
		if s.Tok.Line == l && s.Tok.B <= ch && ch <= s.Tok.E {
			names[s.Name] = true
			tok = &s.Tok
			def = true
		}
	}
	for i := range p.Refs {
		r := &p.Refs[i]
		if r.Line == l && r.B <= ch && ch <= r.E {
			if tok != nil {
				names["\x00several"] = true
			}
			names[r.Text()] = true
			tok = r
		}
	}
	return
}

func occurrences(p *rProg, name string) (defs, refs []string) {
	for _, s := range p.Syms {
		if s.Name == name {
			defs = append(defs, mkRange(s.Tok.Line, s.Tok.B, s.Tok.Line, s.Tok.E-1).String())
		}
	}
	for _, r := range p.Refs {
		if r.Text() == name {
			refs = append(refs, mkRange(r.Line, r.B, r.Line, r.E).String())
		}
	}
	return
}

// ---- P11 rename, definition, highlight --------------------------------------

func p11(g *G, c *Ctx) {
	src := genDoc(g)
	p := refAnalyze(src)
	l, ch := genDocPos(g, p)
	newName := pick(g, []string{"zz", "renamed_label", "x", "é1"})
	c.Input("position %d:%d of %s", l, ch, show(src))
	names, tok, def := labelAt(p, l, ch)
	if len(names) > 1 || tok != nil && tok.Str {
		c.Discard() // quoted operands are not label names
	}
	name := ""
	for n := range names {
		name = n
	}
	s := &lspScript{}
	s.open(docURI, src)
	idR := s.request("textDocument/rename", obj{"textDocument": obj{"uri": docURI}, "position": obj{"line": l, "character": ch}, "newName": newName})
	idP := s.request("textDocument/prepareRename", tdPos(docURI, l, ch))
	idD := s.request("textDocument/definition", tdPos(docURI, l, ch))
	idH := s.request("textDocument/documentHighlight", tdPos(docURI, l, ch))
	o := s.run(c)

	defs, refs := occurrences(p, name)
	if tok == nil {
		defs, refs = nil, nil
	}
	// rename
	var we struct {
		Changes         map[string][]jEdit `json:"changes"`
		DocumentChanges []struct {
			TextDocument struct {
				Uri string `json:"uri"`
			} `json:"textDocument"`
			Edits []jEdit `json:"edits"`
		} `json:"documentChanges"`
	}
	m := o.answer(c, idR)
	if !(m.HasErr && tok == nil) {
		o.result(c, idR, &we)
	}
	var es []jEdit
	for u, e := range we.Changes {
		if u != docURI && len(e) > 0 {
			c.Fail("rename-uri", "rename edits %q", u)
		}
		es = append(es, e...)
	}
	for _, d := range we.DocumentChanges {
		es = append(es, d.Edits...)
	}
	var got []string
	for _, e := range es {
		got = append(got, e.Range.String())
		if e.NewText != newName {
			c.Fail("rename-text", "rename inserts %q instead of %q", e.NewText, newName)
		}
	}
	if d := diffLists(got, append(append([]string{}, defs...), refs...)); d != "" {
		c.Fail("rename-edits", "renaming %q does not edit exactly its definitions and references:\n%s", name, d)
	}
	// prepareRename
	var pr struct {
		Range       *jRange `json:"range"`
		Placeholder string  `json:"placeholder"`
	}
	m = o.answer(c, idP)
	if !(m.HasErr && tok == nil) {
		o.result(c, idP, &pr)
	}
	if tok == nil {
		if pr.Range != nil {
			c.Fail("prepare-nothing", "prepareRename offers %q where there is no label", pr.Placeholder)
		}
	} else {
		e := tok.E
		if def {
			e--
		}
		want := mkRange(l, tok.B, l, e).String()
		if pr.Range == nil || pr.Range.String() != want || pr.Placeholder != name {
			c.Fail("prepare", "prepareRename gives %v %q, the label is %q at %s", pr.Range, pr.Placeholder, name, want)
		}
	}
	// definition
	var locs []struct {
		Uri   string `json:"uri"`
		Range jRange `json:"range"`
	}
	o.result(c, idD, &locs)
	got = nil
	for _, x := range locs {
		if x.Uri != docURI {
			c.Fail("definition-uri", "definition in %q", x.Uri)
		}
		got = append(got, x.Range.String())
	}
	switch {
	case tok == nil:
		if len(got) > 0 {
			c.Fail("definition-nothing", "definition %v where there is no label", got)
		}
	case def && len(got) == 0:
	default:
		if d := diffLists(got, defs); d != "" {
			c.Fail("definition", "definition of %q:\n%s", name, d)
		}
	}
	// highlight
	var hs []struct {
		Range jRange `json:"range"`
	}
	o.result(c, idH, &hs)
	got = nil
	for _, x := range hs {
		got = append(got, x.Range.String())
	}
	if d := diffLists(got, append(append([]string{}, defs...), refs...)); d != "" {
		c.Fail("highlight", "highlights of %q:\n%s", name, d)
	}
	// the renamed program is the program with the label renamed
	// (after the word b64 a // is no comment: a label of that name changes the
	// reading of what follows it)
	if tok != nil && len(es) > 0 && name != "b64" && name != "base64" {
		after := refAnalyze(applyEdits(c, src, es))
		if len(after.Stmts) != len(p.Stmts) {
			c.Fail("rename-lines", "renaming changes the number of lines")
		}
		ren := func(n string) string {
			if n == name {
				return newName
			}
			return n
		}
		for i := range p.Stmts {
			a, b := p.Stmts[i], after.Stmts[i]
			if a.Kind != b.Kind || a.Err != b.Err || a.Kind == "label" && b.Name != ren(a.Name) {
				c.Fail("rename-effect", "line %d is a different statement after renaming", i)
			}
			if a.Kind == "op" {
				for k := range a.Vals {
					if a.Vals[k].Kind == "label" {
						a.Vals[k].S = ren(a.Vals[k].S)
					}
				}
				if a.canon() != b.canon() {
					c.Fail("rename-effect", "line %d: %q became %q", i, a.canon(), b.canon())
				}
			}
		}
		c.Nontrivial(src + fmt.Sprint(l, ch))
		if len(defs) > 0 && len(refs) > 0 {
			c.Class("defined-and-used")
		}
		if def {
			c.Class("at-definition")
		} else {
			c.Class("at-reference")
		}
		if utf8.RuneCountInString(src) != len(src) {
			c.Class("non-ascii")
		}
	}
}

// ---- P12 quick fixes ----------------------------------------------------------

func genDocRange(g *G, p *rProg) jRange {
	switch g.Intn(4) {
	case 0: // the whole document
		return mkRange(0, 0, len(p.Lines), 0)
	case 1: // a caret
		l, ch := genDocPos(g, p)
		return mkRange(l, ch, l, ch)
	case 2: // one line
		l := g.Intn(len(p.Lines))
		return mkRange(l, 0, l, u16len(p.Lines[l].Text))
	default:
		l, ch := genDocPos(g, p)
		l2, ch2 := genDocPos(g, p)
		if l2 < l || l2 == l && ch2 < ch {
			l, ch, l2, ch2 = l2, ch2, l, ch
		}
		return mkRange(l, ch, l2, ch2)
	}
}

func posLE(a, b jPos) bool {
	return a.Line < b.Line || a.Line == b.Line && a.Character <= b.Character
}

// touches: the ranges share at least a point.
func (r jRange) touches(l, b, e int) bool {
	return posLE(r.Start, jPos{l, e}) && posLE(jPos{l, b}, r.End)
}

func sameLines(c *Ctx, key string, before []rLine, after []rLine, what string) {
	if len(before) != len(after) {
		c.Fail(key, "%s: %d lines became %d", what, len(before), len(after))
	}
	for i := range before {
		if before[i].Text != after[i].Text {
			c.Fail(key, "%s: line %q became %q", what, before[i].Text, after[i].Text)
		}
	}
}

// crJoin: without line l, the CR before it and the LF after it become one end.
func crJoin(ls []rLine, l int) bool {
	return l > 0 && l+1 < len(ls) && ls[l-1].EOL == "\r" && ls[l+1].Text == "" && ls[l+1].EOL == "\n"
}

func trimEmptyEnd(ls []rLine) []rLine {
	for len(ls) > 0 && strings.TrimSpace(ls[len(ls)-1].Text) == "" {
		ls = ls[:len(ls)-1]
	}
	return ls
}

func p12(g *G, c *Ctx) {
	src := genDoc(g)
	p := refAnalyze(src)
	rg := genDocRange(g, p)
	c.Input("range %s of %s", rg, show(src))
	s := &lspScript{}
	s.open(docURI, src)
	id := s.request("textDocument/codeAction", obj{"textDocument": obj{"uri": docURI}, "range": rg.obj(), "context": obj{"diagnostics": []any{}}})
	o := s.run(c)
	var acts []jAction
	o.result(c, id, &acts)

	// what must be offered
	var want []string
	for _, r := range p.Reds {
		if r.Line >= rg.Start.Line && r.Line <= rg.End.Line {
			want = append(want, fmt.Sprintf("teal.line.remove line=%d", r.Line))
		}
	}
	for _, m := range p.Miss {
		if rg.touches(m.Line, m.B, m.E) {
			want = append(want, fmt.Sprintf("teal.label.create name=%q", m.Text()))
		}
	}
	for _, d := range p.Diags {
		if d.Rule != "LINT0008" {
			continue
		}
		b, e := p.span(d.Line)
		if rg.touches(d.Line, b, e) {
			want = append(want, fmt.Sprintf("teal.version.update version=%d", d.Need))
		}
	}
	var got []string
	type todo struct {
		cmd  string
		args []any
		arg  struct {
			Uri     string
			Line    int
			Name    string
			Version uint64
			Value   string
			Range   jRange
		}
		val string
	}
	var todos []todo
	for _, a := range acts {
		if a.Command == nil || len(a.Command.Arguments) != 1 {
			c.Fail("action-shape", "action %q has no command with one argument", a.Title)
		}
		var t todo
		t.cmd = a.Command.Command
		var raw any
		json.Unmarshal(a.Command.Arguments[0], &raw)
		t.args = []any{raw}
		json.Unmarshal(a.Command.Arguments[0], &t.arg)
		if t.arg.Uri != docURI {
			c.Fail("action-uri", "action %q is for document %q", a.Title, t.arg.Uri)
		}
		says := ""
		switch t.cmd {
		case "teal.label.create":
			says = t.arg.Name
		case "teal.version.update":
			says = fmt.Sprint(t.arg.Version)
		case "teal.value.replace":
			says = t.arg.Value
			if strings.HasPrefix(says, "\"") {
				v, _ := refString(says)
				says = string(v)
			}
		}
		if a.Title == "" || a.Command.Title == "" || utf8.ValidString(says) && !strings.Contains(a.Title, says) {
			c.Fail("action-title", "the fix %s %s is offered as %q (command %q)", t.cmd, a.Command.Arguments[0], a.Title, a.Command.Title)
		}
		switch t.cmd {
		case "teal.line.remove":
			got = append(got, fmt.Sprintf("%s line=%d", t.cmd, t.arg.Line))
		case "teal.label.create":
			got = append(got, fmt.Sprintf("%s name=%q", t.cmd, t.arg.Name))
		case "teal.version.update":
			got = append(got, fmt.Sprintf("%s version=%d", t.cmd, t.arg.Version))
		case "teal.value.replace":
			if !rg.touches(t.arg.Range.Start.Line, t.arg.Range.Start.Character, t.arg.Range.End.Character) {
				c.Fail("replace-range", "a replacement at %s is offered for the range %s", t.arg.Range, rg)
			}
		default:
			c.Fail("action-command", "unknown command %q", t.cmd)
		}
		todos = append(todos, t)
	}
	if d := diffLists(got, want); d != "" {
		c.Fail("actions", "quick fixes offered for %s:\n%s", rg, d)
	}
	if len(todos) == 0 {
		return
	}
	// each kind of fix equally often
	byCmd := map[string][]todo{}
	var cmds []string
	for _, t := range todos {
		if byCmd[t.cmd] == nil {
			cmds = append(cmds, t.cmd)
		}
		byCmd[t.cmd] = append(byCmd[t.cmd], t)
	}
	sort.Strings(cmds)
	t := pick(g, byCmd[pick(g, cmds)])
	c.Class(t.cmd)
	c.Nontrivial(src + rg.String() + t.cmd)
	es := commandEdits(c, docURI, src, t.cmd, t.args)
	after := applyEdits(c, src, es)
	a := refAnalyze(after)
	switch t.cmd {
	case "teal.line.remove":
		if crJoin(p.Lines, t.arg.Line) {
			return
		}
		var ls []rLine
		ls = append(ls, p.Lines[:t.arg.Line]...)
		ls = append(ls, p.Lines[t.arg.Line+1:]...)
		if t.arg.Line == len(p.Lines)-1 {
			ls = append(ls, rLine{})
		}
		sameLines(c, "line-remove", ls, a.Lines, "removing a line")
	case "teal.label.create":
		for _, m := range p.Miss {
			if m.Text() == t.arg.Name && m.Str {
				return // a quoted operand cannot be written as a label
			}
		}
		if strings.HasPrefix(t.arg.Name, "//") {
			return
		}
		for _, m := range a.Miss {
			if m.Text() == t.arg.Name {
				c.Fail("label-create", "the label %q is still missing after creating it:\n%q", t.arg.Name, after)
			}
		}
		if n := len(p.Lines); len(a.Lines) < n {
			c.Fail("label-create-lines", "creating a label removes lines")
		}
		sameLines(c, "label-create-lines", trimEmptyEnd(p.Lines), a.Lines[:len(trimEmptyEnd(p.Lines))], "creating a label")
		rest := a.Lines[len(trimEmptyEnd(p.Lines)):]
		n := 0
		for _, l := range rest {
			if strings.TrimSpace(l.Text) != "" {
				n++
			}
		}
		if n != 1 {
			c.Fail("label-create-lines", "creating a label adds %d lines", n)
		}
	case "teal.version.update":
		vers, opsBefore, macros := 0, false, 0
		for _, l := range p.Lines {
			if len(l.Toks) > 0 && l.Toks[0].Raw == "#pragma" {
				macros++
			}
		}
		if macros > 1 {
			return
		}
		for _, st := range p.Stmts {
			if st.Kind == "op" || st.Kind == "bad" {
				opsBefore = opsBefore || vers == 0
			}
			if st.Kind == "pragma" {
				vers++
				if opsBefore {
					return
				}
			}
		}
		if vers > 1 || p.VerTok == nil && vers == 0 && hasPragmaTok(p) {
			return
		}
		if vers == 0 && p.VerTok != nil {
			return // #pragma version 0
		}
		for _, d := range a.Diags {
			if d.Rule == "LINT0008" && d.Need <= t.arg.Version {
				c.Fail("version-update", "after updating to version %d an instruction still needs version %d:\n%q", t.arg.Version, d.Need, after)
			}
		}
		if vers == 0 {
			sameLines(c, "version-update-lines", p.Lines, a.Lines[1:], "adding a version")
		} else {
			for i := range p.Lines {
				if i == p.VerTok.Line {
					continue
				}
				if i >= len(a.Lines) || a.Lines[i].Text != p.Lines[i].Text {
					c.Fail("version-update-lines", "updating the version changes line %d", i)
				}
			}
		}
	case "teal.value.replace":
		l := t.arg.Range.Start.Line
		for i := range p.Lines {
			if i != l && (i >= len(a.Lines) || a.Lines[i].Text != p.Lines[i].Text) {
				c.Fail("replace-lines", "replacing a value changes line %d", i)
			}
		}
		b, e := p.Stmts[l], a.Stmts[l]
		if b.loose() || b.Err {
			return
		}
		c.Class("replace-judged")
		if e.Err || b.canon() != e.canon() {
			c.Fail("replace-effect", "line %q became %q: %q instead of %q", p.Lines[l].Text, a.Lines[l].Text, e.canon(), b.canon())
		}
	}
}

func hasPragmaTok(p *rProg) bool {
	for _, l := range p.Lines {
		if len(l.Toks) > 0 && l.Toks[0].Raw == "#pragma" {
			return true
		}
	}
	return false
}

// commands with arguments of their own
func p12cmd(g *G, c *Ctx) {
	src := genDoc(g)
	if strings.Contains(src, "\n") { // a CR end next to an LF end could join
		src = strings.ReplaceAll(strings.ReplaceAll(src, "\r\n", "\n"), "\r", "\n")
	}
	p := refAnalyze(src)
	switch g.Intn(3) {
	case 0:
		name := pick(g, defLabels)
		if len(p.Syms) > 0 && g.Chance(3, 4) {
			name = pick(g, p.Syms).Name
		}
		c.Input("remove label %q of %s", name, show(src))
		es := commandEdits(c, docURI, src, "teal.label.remove", []any{obj{"uri": docURI, "name": name}})
		a := refAnalyze(applyEdits(c, src, es))
		if len(a.Lines) != len(p.Lines) {
			c.Fail("label-remove", "removing a label changes the number of lines")
		}
		n := 0
		for i := range p.Stmts {
			want := p.Lines[i].Text
			if p.Stmts[i].Kind == "label" && p.Stmts[i].Name == name {
				t := p.Lines[i].Toks[0]
				want = want[:t.BB] + want[t.BE:]
				n++
			}
			if a.Lines[i].Text != want {
				c.Fail("label-remove", "removing label %q: line %q became %q", name, p.Lines[i].Text, a.Lines[i].Text)
			}
		}
		if n > 0 {
			c.Class("label.remove")
			c.Nontrivial("lr" + name + src)
		}
	case 1:
		l := g.Intn(len(p.Lines))
		c.Input("remove line %d of %s", l, show(src))
		if crJoin(p.Lines, l) {
			return
		}
		es := commandEdits(c, docURI, src, "teal.line.remove", []any{obj{"uri": docURI, "line": l}})
		a := splitPhysical(applyEdits(c, src, es))
		var ls []rLine
		ls = append(ls, p.Lines[:l]...)
		ls = append(ls, p.Lines[l+1:]...)
		if l == len(p.Lines)-1 {
			ls = append(ls, rLine{})
		}
		sameLines(c, "line-remove", ls, a, "removing a line")
		c.Class("line.remove")
		c.Nontrivial("li" + fmt.Sprint(l) + src)
	default:
		name := pick(g, []string{"newlab", "é", "x_1"})
		c.Input("create label %q in %s", name, show(src))
		es := commandEdits(c, docURI, src, "teal.label.create", []any{obj{"uri": docURI, "name": name}})
		a := refAnalyze(applyEdits(c, src, es))
		k := trimEmptyEnd(p.Lines)
		if len(a.Lines) < len(k) {
			c.Fail("label-create-lines", "creating a label removes lines")
		}
		sameLines(c, "label-create-lines", k, a.Lines[:len(k)], "creating a label")
		if n := len(a.Syms); n != len(p.Syms)+1 || a.Syms[n-1].Name != name {
			c.Fail("label-create", "creating label %q defines %d labels", name, n-len(p.Syms))
		}
		c.Class("label.create")
		c.Nontrivial("lc" + name + src)
	}
}

// ---- P13 semantic tokens --------------------------------------------------------

type semTok struct{ l, b, n, t int }

var semLegend = map[string]int{"keyword": 0, "string": 1, "comment": 2, "method": 3, "macro": 4, "number": 6}

func p13(g *G, c *Ctx) {
	src := genDoc(g)
	p := refAnalyze(src)
	c.Input("%s", show(src))
	s := &lspScript{}
	idI := s.request("initialize", obj{})
	s.open(docURI, src)
	id := s.request("textDocument/semanticTokens/full", obj{"textDocument": obj{"uri": docURI}})
	o := s.run(c)
	var init struct {
		Capabilities struct {
			SemanticTokensProvider struct {
				Legend struct {
					TokenTypes     []string `json:"tokenTypes"`
					TokenModifiers []string `json:"tokenModifiers"`
				} `json:"legend"`
			} `json:"semanticTokensProvider"`
		} `json:"capabilities"`
	}
	o.result(c, idI, &init)
	leg := init.Capabilities.SemanticTokensProvider.Legend
	var st struct {
		Data []uint32 `json:"data"`
	}
	o.result(c, id, &st)
	if len(st.Data)%5 != 0 {
		c.Fail("semantic-length", "%d numbers in the token data", len(st.Data))
	}
	typ := func(n uint32) string {
		if int(n) >= len(leg.TokenTypes) {
			c.Fail("semantic-type", "token type %d is not in the legend %v", n, leg.TokenTypes)
		}
		return leg.TokenTypes[n]
	}
	line, col, end := 0, 0, 0
	var got []string
	gotLine := map[int][]string{}
	for i := 0; i+4 < len(st.Data); i += 5 {
		d := st.Data[i : i+5]
		if d[0] > 1<<20 || d[1] > 1<<20 {
			c.Fail("semantic-order", "the tokens are not in order: %v", st.Data)
		}
		if d[0] > 0 {
			line += int(d[0])
			col, end = 0, 0
		}
		col += int(d[1])
		if col < end {
			c.Fail("semantic-overlap", "tokens overlap at %d:%d", line, col)
		}
		end = col + int(d[2])
		if line >= len(p.Lines) || end > u16len(p.Lines[line].Text) || d[2] == 0 {
			c.Fail("semantic-range", "token at %d:%d-%d is outside the document", line, col, end)
		}
		if int(d[4])>>uint(len(leg.TokenModifiers)) != 0 {
			c.Fail("semantic-modifiers", "modifiers %d of %d", d[4], len(leg.TokenModifiers))
		}
		x := fmt.Sprintf("%d:%d-%d %s", line, col, end, typ(d[3]))
		got = append(got, x)
		gotLine[line] = append(gotLine[line], x)
	}
	k := 0
	for li := range p.Lines {
		var want []string
		add := func(t string, ts ...rTok) {
			for _, x := range ts {
				want = append(want, fmt.Sprintf("%d:%d-%d %s", x.Line, x.B, x.E, t))
			}
		}
		for _, t := range p.Lines[li].Toks {
			if t.Comment {
				add("comment", t)
			}
		}
		if li < len(p.Stmts) {
			x := p.Stmts[li]
			if x.Err {
				c.Class("malformed-line")
				// only what the line must have: its comment and opcode
				if x.OpT != nil {
					add("keyword", *x.OpT)
				}
				for _, w := range want {
					found := false
					for _, y := range gotLine[li] {
						found = found || y == w
					}
					if !found {
						c.Fail("semantic-missing", "line %d: no token %s", li, w)
					}
				}
				continue
			}
			if x.OpT != nil {
				add("keyword", *x.OpT)
			}
			if x.Kind == "label" {
				add("method", p.Lines[li].Toks[0])
			}
			add("number", x.Nums...)
			add("string", x.Strs...)
			add("keyword", x.Keys...)
			add("macro", x.Macs...)
			add("string", x.Refs...)
		}
		k += len(want)
		if d := diffLists(gotLine[li], want); d != "" {
			c.Fail("semantic-tokens", "line %d %q:\n%s", li, p.Lines[li].Text, d)
		}
	}
	if k > 2 {
		c.Nontrivial(src)
	}
}

func sortedStrings(xs []string) []string {
	r := append([]string{}, xs...)
	sort.Strings(r)
	return r
}

func init() {
	register(&Check{
		ID:   "P11",
		Rule: "a case is non-trivial when the position is on a label definition or reference and the rename has edits to apply; distinct by source and position",
		Subs: []Sub{{Name: "rename", Fn: p11, Quick: 40000, Thorough: 1000000}},
	})
	register(&Check{
		ID:   "P12",
		Rule: "a case is non-trivial when a quick fix was offered and executed, or a command edited the document; distinct by source, range and command",
		Subs: []Sub{
			{Name: "quickfix", Fn: p12, Quick: 60000, Thorough: 1000000},
			{Name: "commands", Fn: p12cmd, Quick: 20000, Thorough: 400000},
		},
	})
	register(&Check{
		ID:   "P13",
		Rule: "a case is non-trivial when the document has at least three tokens to classify; distinct by source",
		Subs: []Sub{{Name: "tokens", Fn: p13, Quick: 40000, Thorough: 1000000}},
	})
}
