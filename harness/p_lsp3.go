package main

// P16 (completion, hover, signature help), P17 (annotations), P18 (formatting).

import (
	_ "embed"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/dragmz/teal"
)

//go:embed langspec.json
var langspecJSON []byte

type specOp struct {
	Name     string
	Args     string
	Returns  string
	Doc      string
	DocExtra string
}

// langspec is a copy of the language specification the project ships.
var langspec = func() map[string]specOp {
	var x struct{ Ops []specOp }
	if err := json.Unmarshal(langspecJSON, &x); err != nil {
		panic(err)
	}
	m := map[string]specOp{}
	for _, o := range x.Ops {
		m[o.Name] = o
	}
	return m
}()

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	return s
}

// parted: the second part of the documentation follows the first, apart from it.
func parted(s string, sp specOp) bool {
	x := firstLine(sp.DocExtra)
	if x == "" {
		return true
	}
	i := strings.Index(s, x)
	return i > 0 && (s[i-1] == '\n' || s[i-1] == ' ')
}

func opAvail(o *refOp, mode string) uint64 {
	if mode == "sig" {
		return o.Sig
	}
	return o.App
}

func immKind(o *refOp, i int) (kind string, array bool, ok bool) {
	if o.Imms == "" {
		return "", false, false
	}
	imms := strings.Split(o.Imms, " ")
	if i >= len(imms) {
		l := imms[len(imms)-1]
		if strings.HasSuffix(l, "*") {
			return strings.TrimRight(l, "*"), true, true
		}
		return "", false, false
	}
	return strings.TrimRight(imms[i], "*?"), strings.HasSuffix(imms[i], "*"), true
}

// values offered for an immediate of the kind
func valuesFor(p *rProg, kind string) (vals map[string]int64, judged bool) {
	vals = map[string]int64{}
	switch kind {
	case "u8", "i8", "u64", "bytes", "addr", "sig":
		return vals, true
	case "label":
		for _, s := range p.Syms {
			vals[s.Name] = -1
		}
		return vals, true
	case "int":
		return vals, false
	}
	grp := kind
	if grp == "txna" || grp == "itxn" {
		grp = "txn"
	}
	fs, ok := refFields[grp]
	if !ok {
		return nil, false
	}
	for _, f := range fs {
		need := f.Version
		if kind == "txna" && !f.Array {
			continue
		}
		if kind == "itxn" {
			if f.Itx == 0 {
				continue
			}
			need = f.Itx
		}
		if need <= p.Version {
			vals[f.Name] = int64(f.Value)
		}
	}
	return vals, true
}

type jItem struct {
	Label         string `json:"label"`
	Kind          *int   `json:"kind"`
	InsertText    string `json:"insertText"`
	InsertFormat  *int   `json:"insertTextFormat"`
	Documentation struct {
		Value string `json:"value"`
	} `json:"documentation"`
	LabelDetails *struct {
		Detail      string `json:"detail"`
		Description string `json:"description"`
	} `json:"labelDetails"`
}

// kindNames is how a signature names the kinds of values.
var kindNames = map[string]string{
	"u8": "uint8", "i8": "int8", "u64": "uint64", "int": "uint64", "bytes": "bytes", "label": "label name",
	"addr": "address", "sig": "signature", "txn": "transaction field index",
	"txna": "transaction array field index", "itxn": "internal transaction field index",
	"json": "json_Ref", "ecdsa": "ECDSA Curve", "global": "global field index",
	"asset_holding": "asset holding field index", "asset_params": "asset params field index",
	"app_params": "app params field index", "acct_params": "account params field index",
	"vrf": "parameters index", "base64": "base64 encoding", "block": "block field", "ec": "EC group field index",
}

var sigPartRe = regexp.MustCompile(`^\[?\{([^{}]*) : ([^{},]+)(, \.\.\.)?\}\]?$`)

// checkSignature: the signature names every immediate with its kind, marks
// optional and repeated ones, and gives the names of the parameters.
func checkSignature(c *Ctx, op *refOp, label string, params []string) {
	var imms []string
	if op.Imms != "" {
		imms = strings.Split(op.Imms, " ")
	}
	rest := strings.TrimSpace(strings.TrimPrefix(label, op.Name))
	var parts []string
	for rest != "" {
		i := strings.Index(rest, "}")
		if i < 0 {
			c.Fail("signature-label", "the signature of %s is %q", op.Name, label)
		}
		i++
		if i < len(rest) && rest[i] == ']' {
			i++
		}
		parts = append(parts, rest[:i])
		rest = strings.TrimSpace(rest[i:])
	}
	if len(parts) != len(imms) {
		c.Fail("signature-label", "the signature of %s is %q", op.Name, label)
	}
	open := false
	for i, part := range parts {
		x := sigPartRe.FindStringSubmatch(part)
		kind := strings.TrimRight(imms[i], "*?")
		if x == nil || x[1] != kindNames[kind] || x[2] != params[i] || (x[3] != "") != strings.HasSuffix(imms[i], "*") {
			c.Fail("signature-label", "the signature of %s is %q; value %d is a %s called %s", op.Name, label, i+1, imms[i], params[i])
		}
		if part[0] == '[' {
			open = true
		}
		if open != strings.HasSuffix(imms[i], "?") {
			c.Fail("signature-label", "the signature of %s is %q; value %d is a %s", op.Name, label, i+1, imms[i])
		}
		if strings.HasSuffix(part, "]") {
			open = false
		}
	}
}

// labelProto: the declaration of the subroutine that starts at the label, when
// that is beyond doubt.
func labelProto(p *rProg, name string) (detail string, judged bool) {
	at, n := -1, 0
	for i, st := range p.Stmts {
		if st.Kind == "label" && st.Name == name {
			at = i
			n++
		}
	}
	if n != 1 {
		return "", false
	}
	first := true
	for _, st := range p.Stmts[at+1:] {
		if st.Err || st.Kind == "label" && first {
			return "", false
		}
		if st.Kind == "label" {
			break
		}
		if st.Kind != "op" {
			continue
		}
		if st.Name == "proto" {
			if !first || len(st.Vals) != 2 {
				return "", false
			}
			detail = fmt.Sprintf("in: %d, out: %d", st.Vals[0].U, st.Vals[1].U)
		}
		first = false
	}
	return detail, true
}

// labelRemarks are the comments directly above the label, and those that stand
// before an earlier label.
func labelRemarks(p *rProg, name string) (above, other []string, judged bool) {
	at, n := -1, 0
	for i, st := range p.Stmts {
		if st.Kind == "label" && st.Name == name {
			at = i
			n++
		}
	}
	if n != 1 {
		return nil, nil, false
	}
	remark := func(i int) (string, bool) {
		t := p.Lines[i].Toks
		if len(t) != 1 || !t[0].Comment || p.Lines[i].Bad {
			return "", false
		}
		s := strings.TrimSpace(strings.TrimPrefix(t[0].Raw, "//"))
		return s, !strings.HasPrefix(s, "#pragma")
	}
	i := at - 1
	for ; i >= 0; i-- {
		s, ok := remark(i)
		if !ok {
			break
		}
		above = append([]string{s}, above...)
	}
	earlier := false
	for ; i >= 0; i-- {
		if p.Stmts[i].Kind == "label" && !p.Stmts[i].Err {
			earlier = true
		}
		if s, ok := remark(i); ok && earlier && s != "" {
			other = append(other, s)
		}
	}
	return above, other, true
}

// genHelpDoc draws a document of mostly incomplete or complete instructions.
func genHelpDoc(g *G) string {
	if g.Chance(1, 4) {
		return genDoc(g)
	}
	v := g.Range(1, 10)
	var b strings.Builder
	if g.Chance(1, 3) {
		b.WriteString("//#pragma mode logicsig\n")
	}
	if g.Chance(9, 10) {
		b.WriteString(fmt.Sprintf("#pragma version %d\n", v))
	}
	for n := g.Range(1, 5); n > 0; n-- {
		switch g.Intn(7) {
		case 6:
			b.WriteString(pick(g, []string{"b", "bz", "callsub", "switch", "match a", "switch zz"}) + pick(g, []string{" ", " a", " main", " zz "}))
		case 0:
			for k := g.Intn(3); k > 0; k-- {
				b.WriteString(pick(g, []string{"// ", "//", "  //", "// ", "///"}) + pick(g, []string{"adds up", "pays", "first: a", "é", "", "x // y"}) + "\n")
			}
			b.WriteString(pick(g, []string{"a:", "main:", "é:"}))
			if g.Bool() {
				b.WriteString(pick(g, []string{"\n", "\n\n", " // note\n", "\n// note\n"}) + fmt.Sprintf("proto %d %d", g.Intn(4), g.Intn(4)))
			}
		case 1: // a partial opcode
			o := pick(g, refOps)
			b.WriteString(o.Name[:g.Intn(len(o.Name))+1])
		case 2:
		default:
			o := &refOps[g.Intn(len(refOps))]
			if g.Chance(2, 3) {
				for o.Imms == "" {
					o = &refOps[(g.Intn(len(refOps)))]
					if g.rep && g.pos > len(g.tape) {
						o = refOpByName["txn"]
					}
				}
			}
			parts := strings.Split(genOpLine(g, o, 0, []string{"a", "main", "zz"}), " ")
			if g.Chance(1, 3) {
				parts = parts[:g.Range(1, len(parts))]
			}
			b.WriteString(strings.Join(parts, " "))
			if g.Bool() {
				b.WriteString(" ")
			}
		}
		b.WriteString("\n")
	}
	return strings.ToValidUTF8(b.String(), "?")
}

var snippetRe = regexp.MustCompile(`\$\{(\d+)(?::([^}]*))?\}|\$(\d+)`)

// checkSnippet: an offered snippet, accepted as it is, is sound TEAL.
func checkSnippet(c *Ctx, it jItem) {
	if it.Label == "" {
		return
	}
	stops := map[string]string{}
	text := snippetRe.ReplaceAllStringFunc(it.InsertText, func(m string) string {
		x := snippetRe.FindStringSubmatch(m)
		n, d := x[1]+x[3], x[2]
		if o, ok := stops[n]; ok && o != d {
			c.Fail("snippet-stops", "the place %s of the snippet %s stands for %q and %q", n, it.Label, o, d)
		}
		stops[n] = d
		return d
	})
	p := refAnalyze("#pragma version 10\n" + text)
	for _, d := range p.Diags {
		if d.Sev == "err" {
			c.Fail("snippet-text", "the snippet %s gives\n%s\nwhich has a %s error in line %d", it.Label, text, d.Rule, d.Line)
		}
	}
	var ops []string
	for _, st := range p.Stmts[1:] {
		if st.Kind == "op" {
			ops = append(ops, st.Name)
		}
		if st.Kind == "op" && st.Name == "switch" && it.Label == "soc" {
			if got := strings.Join(st.labels(), " "); got != "noop optin closeout clearstate updateapplication deleteapplication" {
				c.Fail("snippet-text", "the snippet %s switches to %s", it.Label, got)
			}
			if len(p.Syms) != 7 {
				c.Fail("snippet-text", "the snippet %s defines %d labels", it.Label, len(p.Syms))
			}
		}
	}
	want := map[string]string{"soc": "txn switch b b b b b", "func": "proto retsub"}[it.Label]
	if want != "" && strings.Join(ops, " ") != want {
		c.Fail("snippet-text", "the snippet %s has the instructions %v", it.Label, ops)
	}
	c.Class("snippet-" + it.Label)
}

// checkInsert: what is inserted for an opcode has one place for each value, as
// shown beside its name.
func checkInsert(c *Ctx, x *refOp, it jItem) {
	if x.Imms == "" {
		return
	}
	imms := strings.Split(x.Imms, " ")
	places := snippetRe.FindAllStringSubmatch(it.InsertText, -1)
	if len(places) != len(imms) {
		c.Fail("completion-insert", "%s inserts %q for the values %s", it.Label, it.InsertText, x.Imms)
	}
	want := x.Name
	detail := ""
	if it.LabelDetails != nil {
		detail = strings.TrimSpace(it.LabelDetails.Detail)
	}
	if strings.Count(detail, "[") != strings.Count(detail, "]") || strings.Count(detail, "...") != strings.Count(x.Imms, "*") ||
		strings.Count(detail, "[") > 0 != strings.Contains(x.Imms, "?") {
		c.Fail("completion-detail", "%s is offered with %q, its values are %s", it.Label, detail, x.Imms)
	}
	rest := detail
	for i, m := range places {
		want += fmt.Sprintf(" ${%d:%s}", i+1, m[2])
		j := strings.Index(rest, m[2])
		if j < 0 || m[2] == "" {
			c.Fail("completion-detail", "%s is offered with %q and inserts %q", it.Label, detail, it.InsertText)
		}
		rest = rest[j+len(m[2]):]
	}
	if it.InsertText != want {
		c.Fail("completion-insert", "%s inserts %q", it.Label, it.InsertText)
	}
}

func p16(g *G, c *Ctx) {
	src := genHelpDoc(g)
	p := refAnalyze(src)
	l := g.Intn(len(p.Lines))
	text := p.Lines[l].Text
	var toks []rTok
	for _, t := range p.Lines[l].Toks {
		if t.Comment && len(toks) > 0 {
			break
		}
		toks = append(toks, t)
	}
	ch := u16len(text)
	if len(toks) > 0 && g.Chance(3, 4) {
		t := pick(g, toks)
		ch = t.B + g.Intn(t.E-t.B+1)
	} else if g.Bool() {
		ch = g.Intn(ch + 1)
	}
	c.Input("at %d:%d of %s", l, ch, show(src))
	s := &lspScript{}
	s.open(docURI, src)
	idC := s.request("textDocument/completion", tdPos(docURI, l, ch))
	idH := s.request("textDocument/hover", tdPos(docURI, l, ch))
	idS := s.request("textDocument/signatureHelp", tdPos(docURI, l, ch))
	o := s.run(c)
	var items []jItem
	o.result(c, idC, &items)
	var hov struct {
		Contents *struct {
			Kind  string `json:"kind"`
			Value string `json:"value"`
		} `json:"contents"`
	}
	o.result(c, idH, &hov)
	var sig struct {
		Signatures []struct {
			Label         string `json:"label"`
			Documentation *struct {
				Value string `json:"value"`
			} `json:"documentation"`
			Parameters []struct {
				Label string `json:"label"`
			} `json:"parameters"`
			ActiveParameter *int `json:"activeParameter"`
		} `json:"signatures"`
	}
	o.result(c, idS, &sig)
	if p.Lines[l].Bad {
		return // an unterminated string on the line
	}

	// which token is the position on?
	at := -1
	n := 0
	for i, t := range toks {
		if t.B <= ch && ch <= t.E {
			at = i
			n++
		}
	}
	if n > 1 {
		c.Discard()
	}
	var op *refOp
	if len(toks) > 0 && !toks[0].Comment {
		op = refOpByName[toks[0].Text()]
	}
	twoTok := false // values of two tokens shift the count
	for _, t := range toks {
		switch t.Raw {
		case "base64", "b64", "base32", "b32":
			twoTok = true
		}
	}

	// completion
	switch {
	case len(toks) == 0 || at == 0 && ch == toks[0].E:
		prefix := ""
		if len(toks) > 0 {
			prefix = toks[0].Text()
		}
		var want, got []string
		for i := range refOps {
			x := &refOps[i]
			if a := opAvail(x, p.Mode); a > 0 && a <= p.Version && strings.HasPrefix(x.Name, prefix) {
				want = append(want, fmt.Sprintf("%s v%d", x.Name, a))
			}
		}
		for _, it := range items {
			if strings.Contains(it.InsertText, "$") && (it.InsertFormat == nil || *it.InsertFormat != 2) {
				c.Fail("completion-insert", "%s inserts the snippet %q as plain text", it.Label, it.InsertText)
			}
			if it.Kind != nil && *it.Kind == 15 || it.Label == "" {
				checkSnippet(c, it)
				continue
			}
			d := ""
			if it.LabelDetails != nil {
				d = it.LabelDetails.Description
			}
			got = append(got, it.Label+" "+d)
			if sp, ok := langspec[it.Label]; ok && !strings.Contains(it.Documentation.Value, firstLine(sp.Doc)) {
				c.Fail("completion-doc", "%s is documented as %q", it.Label, it.Documentation.Value)
			}
			if x := refOpByName[it.Label]; x != nil {
				checkInsert(c, x, it)
			}
			if x := refOpByName[it.Label]; x != nil && x.Imms != "" {
				if !strings.HasPrefix(it.InsertText, it.Label+" ") || strings.Count(it.InsertText, "${") != len(strings.Split(x.Imms, " ")) {
					c.Fail("completion-insert", "%s inserts %q for the values %s", it.Label, it.InsertText, x.Imms)
				}
			} else if it.InsertText != "" && it.InsertText != it.Label {
				c.Fail("completion-insert", "%s inserts %q", it.Label, it.InsertText)
			}
		}
		if d := diffLists(got, want); d != "" {
			c.Fail("completion-ops", "opcodes completed for %q at version %d (%s):\n%s", prefix, p.Version, p.Mode, d)
		}
		c.Class("complete-opcode")
		c.Nontrivial(fmt.Sprint("op", p.Version, p.Mode, prefix, l))
	case op != nil && !twoTok && (at > 0 || at == -1 && ch > toks[len(toks)-1].E):
		idx := len(toks) - 1
		if at > 0 {
			idx = at - 1
		}
		want := map[string]int64{}
		kind, _, ok := immKind(op, idx)
		if ok {
			var judged bool
			want, judged = valuesFor(p, kind)
			if kind == "int" {
				// named constants only
				for _, it := range items {
					if it.Label == "" {
						continue
					}
					v, ok := refInts[it.Label]
					if !ok || it.LabelDetails == nil || strings.TrimSpace(it.LabelDetails.Detail) != fmt.Sprintf("= %d", v) {
						c.Fail("completion-int", "%q is offered as a constant", it.Label)
					}
				}
				for _, n := range []string{"pay", "keyreg", "acfg", "axfer", "afrz", "appl", "NoOp", "OptIn", "CloseOut", "ClearState", "UpdateApplication", "DeleteApplication"} {
					found := false
					for _, it := range items {
						found = found || it.Label == n
					}
					if !found {
						c.Fail("completion-int", "the constant %s is not offered", n)
					}
				}
			}
			if !judged {
				break
			}
		}
		var gs, ws []string
		seen := map[string]bool{}
		for _, it := range items {
			if it.Label == "" || seen[it.Label] {
				continue
			}
			seen[it.Label] = true
			d := ""
			if it.LabelDetails != nil && kind != "label" {
				d = strings.TrimSpace(it.LabelDetails.Detail)
			}
			gs = append(gs, it.Label+d)
			if n := refNotes[fieldGroup(kind)][it.Label]; n != "" && !strings.Contains(it.Documentation.Value, n) {
				c.Fail("completion-note", "the field %s is documented as %q", it.Label, it.Documentation.Value)
			}
			if kind == "label" {
				if want, ok := labelProto(p, it.Label); ok {
					got := ""
					if it.LabelDetails != nil {
						got = strings.TrimSpace(it.LabelDetails.Detail)
					}
					if got != want {
						c.Fail("completion-proto", "the label %s is offered with %q, it is declared as %q", it.Label, got, want)
					}
					if want != "" {
						c.Class("complete-proto")
					}
				}
				if above, other, ok := labelRemarks(p, it.Label); ok {
					rest := it.Documentation.Value
					for _, r := range above {
						i := strings.Index(rest, r)
						if i < 0 {
							c.Fail("completion-remarks", "the label %s is documented as %q, above it is %q", it.Label, it.Documentation.Value, above)
						}
						rest = rest[i+len(r):]
						c.Class("complete-remark")
					}
					for _, r := range other {
						if strings.Contains(it.Documentation.Value, r) && !strings.Contains(strings.Join(above, "\n"), r) && len(r) > 2 {
							c.Fail("completion-remarks", "the label %s is documented as %q; the remark %q is about an earlier label", it.Label, it.Documentation.Value, r)
						}
					}
				}
			}
		}
		for n, v := range want {
			d := ""
			if kind != "label" {
				d = fmt.Sprintf("= %d", v)
			}
			if n != "" {
				ws = append(ws, n+d)
			}
		}
		if d := diffLists(gs, ws); d != "" {
			c.Fail("completion-values", "values completed for immediate %d (%s) of %q at version %d:\n%s", idx, kind, text, p.Version, d)
		}
		c.Class("complete-" + kind)
		if len(want) > 0 {
			c.Nontrivial(fmt.Sprint("val", p.Version, kind, idx, text, ch))
		}
	}

	// hover
	hv := ""
	if hov.Contents != nil {
		hv = hov.Contents.Value
	}
	switch {
	case at == 0 && op != nil:
		if sp, ok := langspec[op.Name]; ok {
			if !strings.HasPrefix(hv, firstLine(sp.Doc)) || !strings.Contains(hv, firstLine(sp.DocExtra)) {
				c.Fail("hover-op", "hovering over %s shows %q", op.Name, hv)
			}
			if !parted(hv, sp) {
				c.Fail("hover-op", "hovering over %s shows %q", op.Name, hv)
			}
			c.Class("hover-opcode")
			c.Nontrivial("hover" + op.Name)
		}
	case at > 0 && op != nil && !twoTok:
		kind, _, ok := immKind(op, at-1)
		var f *refField
		if ok {
			grp := kind
			if grp == "txna" || grp == "itxn" {
				grp = "txn"
			}
			if _, is := refFields[grp]; is {
				t := toks[at].Text()
				if x, found := fieldOf(kind, t); found {
					f = x
				} else if v, isn := refDec(t, 0, 255, false); isn {
					if x, found := fieldByVal(kind, int(v)); found {
						f = x
					}
				}
			}
		}
		if f == nil {
			if hv != "" {
				c.Fail("hover-value", "hovering over %q of %q shows %q", toks[at].Raw, text, hv)
			}
		} else {
			if !strings.HasPrefix(hv, fmt.Sprintf("%s = %d", f.Name, f.Value)) {
				c.Fail("hover-field", "hovering over %q of %q shows %q, it is %s = %d", toks[at].Raw, text, hv, f.Name, f.Value)
			}
			if n := refNotes[fieldGroup(kind)][f.Name]; !strings.Contains(hv, n) {
				c.Fail("hover-note", "hovering over %q of %q shows %q", toks[at].Raw, text, hv)
			}
			c.Class("hover-field")
			c.Nontrivial("hover" + text + fmt.Sprint(at))
		}
	case at == -1 && hv != "":
		c.Fail("hover-nothing", "hovering over blank space shows %q", hv)
	}

	// signature help
	if op == nil {
		if len(sig.Signatures) > 0 {
			c.Fail("signature-nothing", "a signature on a line without an opcode: %q", sig.Signatures[0].Label)
		}
		return
	}
	if strings.HasSuffix(toks[0].Text(), ":") || toks[0].Raw == "#pragma" {
		return
	}
	if len(sig.Signatures) != 1 {
		c.Fail("signature-count", "%d signatures for %s", len(sig.Signatures), op.Name)
	}
	sg := sig.Signatures[0]
	if !strings.HasPrefix(sg.Label, op.Name) || strings.Count(sg.Label, "[") != strings.Count(sg.Label, "]") || strings.Count(sg.Label, "{") != strings.Count(sg.Label, "}") {
		c.Fail("signature-label", "the signature of %s is %q", op.Name, sg.Label)
	}
	ni := 0
	if op.Imms != "" {
		ni = len(strings.Split(op.Imms, " "))
	}
	if len(sg.Parameters) != ni {
		c.Fail("signature-params", "%d parameters for %s, which takes %q", len(sg.Parameters), op.Name, op.Imms)
	}
	rest := strings.TrimPrefix(sg.Label, op.Name)
	for _, q := range sg.Parameters {
		i := strings.Index(rest, q.Label)
		if i < 0 {
			c.Fail("signature-params", "the parameters of %q are not in order", sg.Label)
		}
		rest = rest[i+len(q.Label):]
	}
	var params []string
	for _, q := range sg.Parameters {
		params = append(params, q.Label)
	}
	checkSignature(c, op, sg.Label, params)
	if sp, ok := langspec[op.Name]; ok {
		d := ""
		if sg.Documentation != nil {
			d = sg.Documentation.Value
		}
		if !strings.HasPrefix(d, firstLine(sp.Doc)) || !parted(d, sp) {
			c.Fail("signature-doc", "%s is documented as %q", op.Name, d)
		}
	}
	if at > 0 && !twoTok {
		if _, arr, ok := immKind(op, at-1); ok {
			want := at - 1
			if arr && want >= ni {
				want = ni - 1
			}
			if sg.ActiveParameter == nil || *sg.ActiveParameter != want {
				c.Fail("signature-active", "active parameter %v on value %d of %q", sg.ActiveParameter, at, text)
			}
			c.Class("active-parameter")
		}
	}
}

// ---- P17 annotations ---------------------------------------------------------------

func printableASCII(b []byte) bool {
	for _, x := range b {
		if x < 0x20 || x > 0x7e {
			return false
		}
	}
	return true
}

// hintTrue reports whether a hint at a column says what the value that ends
// there stands for: the text of a hexadecimal literal, or a field's name.
func hintTrue(toks []rTok, col int, label string) bool {
	for _, t := range toks {
		if t.E != col {
			continue
		}
		if strings.HasPrefix(t.Raw, "0x") {
			if b, err := hex.DecodeString(t.Raw[2:]); err == nil && string(b) == label {
				return true
			}
		}
		if v, err := strconv.Atoi(t.Raw); err == nil {
			for _, fs := range refFields {
				for _, f := range fs {
					if f.Name == label && int(f.Value) == v {
						return true
					}
				}
			}
		}
	}
	return false
}

func p17(g *G, c *Ctx) {
	var src string
	if g.Bool() {
		src = genValueDoc(g)
	} else {
		src = genDoc(g)
	}
	src = strings.ToValidUTF8(src, "?")
	p := refAnalyze(src)
	rg := genDocRange(g, p)
	named, decoded, lens := !g.Chance(1, 8), !g.Chance(1, 8), !g.Chance(1, 8)
	c.Input("range %s (named %v, decoded %v, lens %v) of %s", rg, named, decoded, lens, show(src))
	s := &lspScript{}
	if g.Bool() || !named || !decoded || !lens {
		s.request("initialize", obj{"initializationOptions": obj{"inlayNamed": named, "inlayDecoded": decoded, "lensRefs": lens}})
	}
	s.open(docURI, src)
	td := obj{"textDocument": obj{"uri": docURI}}
	idI := s.request("textDocument/inlayHint", obj{"textDocument": obj{"uri": docURI}, "range": rg.obj()})
	idL := s.request("textDocument/codeLens", td)
	idS := s.request("textDocument/documentSymbol", td)
	idD := s.request("textDocument/diagnostic", td)
	o := s.run(c)

	// diagnostics
	var dr struct {
		Kind  string `json:"kind"`
		Items []struct {
			Range    jRange `json:"range"`
			Severity *int   `json:"severity"`
			Message  string `json:"message"`
		} `json:"items"`
	}
	o.result(c, idD, &dr)
	if dr.Kind != "full" {
		c.Fail("diagnostic-kind", "the report's kind is %q", dr.Kind)
	}
	var got, want []string
	bad := map[int]bool{}
	for _, d := range p.Diags {
		if d.Rule == "SYNTAX" {
			bad[d.Line] = true
		}
	}
	for _, d := range dr.Items {
		if d.Severity == nil || strings.TrimSpace(d.Message) == "" {
			c.Fail("diagnostic-shape", "a diagnostic without severity or message")
		}
		if bad[d.Range.Start.Line] {
			got = append(got, fmt.Sprintf("bad line %d", d.Range.Start.Line))
			continue
		}
		got = append(got, fmt.Sprintf("%s %d", d.Range, *d.Severity))
	}
	for _, d := range p.Diags {
		sev := 1
		if d.Sev == "warn" {
			sev = 2
		}
		if bad[d.Line] {
			want = append(want, fmt.Sprintf("bad line %d", d.Line))
			continue
		}
		want = append(want, fmt.Sprintf("%s %d", mkRange(d.Line, d.B, d.Line, d.E), sev))
	}
	if d := diffLists(got, want); d != "" {
		c.Fail("diagnostics", "pulled diagnostics:\n%s", d)
	}

	got, want = nil, nil
	for _, d := range dr.Items {
		got = append(got, fmt.Sprintf("line %d: %s", d.Range.Start.Line, d.Message))
	}
	for _, d := range teal.Process(src).Diagnostics {
		want = append(want, fmt.Sprintf("line %d: %s", d.Line(), d.String()))
	}
	if d := diffLists(got, want); d != "" {
		c.Fail("diagnostic-message", "pulled diagnostics, against the analysis:\n%s", d)
	}

	// outline
	var syms []struct {
		Name           string `json:"name"`
		Range          jRange `json:"range"`
		SelectionRange jRange `json:"selectionRange"`
	}
	o.result(c, idS, &syms)
	got, want = nil, nil
	for _, x := range syms {
		got = append(got, fmt.Sprintf("%q at %d:%d", x.Name, x.SelectionRange.Start.Line, x.SelectionRange.Start.Character))
		if !posLE(x.Range.Start, x.SelectionRange.Start) || !posLE(x.SelectionRange.End, x.Range.End) {
			c.Fail("outline-range", "the selection range of %q is outside its range", x.Name)
		}
		if x.SelectionRange.End.Line != x.SelectionRange.Start.Line {
			c.Fail("outline-range", "%q spans several lines", x.Name)
		}
		t, ok := u16cut(p.Lines[x.SelectionRange.Start.Line].Text, x.SelectionRange.Start.Character, x.SelectionRange.End.Character)
		if !ok || t != x.Name && t != x.Name+":" {
			c.Fail("outline-range", "the selection range of %q covers %q", x.Name, t)
		}
	}
	for _, x := range p.Syms {
		if x.Tok.Str {
			c.Discard()
		}
		want = append(want, fmt.Sprintf("%q at %d:%d", x.Name, x.Tok.Line, x.Tok.B))
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		c.Fail("outline", "outline:\n%s", diffLists(got, want))
	}

	// lenses
	var ls []struct {
		Range   jRange `json:"range"`
		Command struct {
			Title string `json:"title"`
		} `json:"command"`
	}
	o.result(c, idL, &ls)
	got, want = nil, nil
	for _, x := range ls {
		if x.Range.Start.Line != x.Range.End.Line {
			c.Fail("lens-range", "a lens spans several lines")
		}
		got = append(got, fmt.Sprintf("%d %s", x.Range.Start.Line, x.Command.Title))
	}
	if lens {
		for _, x := range p.Syms {
			if n := p.RefC[x.Name]; n > 0 {
				want = append(want, fmt.Sprintf("%d refs: %d", x.Tok.Line, n))
			}
		}
	}
	if d := diffLists(got, want); d != "" {
		c.Fail("lenses", "code lenses:\n%s", d)
	}

	// inlay hints
	var hs []struct {
		Position jPos   `json:"position"`
		Label    string `json:"label"`
	}
	o.result(c, idI, &hs)
	gotL := map[int][]string{}
	for _, h := range hs {
		if h.Label == "" {
			c.Fail("hint-empty", "an inlay hint without label at %d:%d", h.Position.Line, h.Position.Character)
		}
		gotL[h.Position.Line] = append(gotL[h.Position.Line], fmt.Sprintf("%d:%d %q", h.Position.Line, h.Position.Character, h.Label))
	}
	k := 0
	for li, st := range p.Stmts {
		if st.Kind != "op" && len(gotL[li]) > 0 && !st.Err {
			c.Fail("hint-nothing", "inlay hints %v on line %q", gotL[li], p.Lines[li].Text)
		}
		if st.Err || st.Kind == "bad" {
			for _, h := range hs {
				if h.Position.Line == li && !hintTrue(p.Lines[li].Toks, h.Position.Character, h.Label) {
					c.Fail("hint-untrue", "the hint %q at column %d of %q", h.Label, h.Position.Character, p.Lines[li].Text)
				}
			}
			continue
		}
		if st.Kind != "op" {
			continue
		}
		want := []string{}
		opt := map[string]bool{}
		for _, v := range st.Vals {
			t := p.Lines[li].Toks[v.Tok]
			if !rg.touches(li, t.B, t.E) {
				continue
			}
			hint := func(s string) string { return fmt.Sprintf("%d:%d %q", li, t.E, s) }
			if v.Kind == "bytes" {
				// hexadecimal spelling of printable text
				prev := ""
				if v.Tok > 0 {
					prev = p.Lines[li].Toks[v.Tok-1].Raw
				}
				enc := prev == "base64" || prev == "b64" || prev == "base32" || prev == "b32"
				if strings.HasPrefix(t.Raw, "0x") && !enc && printableASCII(v.B) && len(v.B) > 0 && decoded {
					want = append(want, hint(string(v.B)))
				}
				continue
			}
			if _, isField := refFields[fieldGroup(v.Kind)]; isField && !v.Named && named {
				if f, ok := fieldByVal(v.Kind, int(v.U)); ok {
					if v.Loose {
						opt[hint(f.Name)] = true
					} else {
						want = append(want, hint(f.Name))
					}
				}
			}
		}
		var g2 []string
		for _, x := range gotL[li] {
			if !opt[x] {
				g2 = append(g2, x)
			}
		}
		if d := diffLists(g2, want); d != "" {
			c.Fail("hints", "inlay hints of %q in %s:\n%s", p.Lines[li].Text, rg, d)
		}
		k += len(want)
	}
	if k > 0 {
		c.Class("hints")
	}
	if len(want) > 0 {
		c.Class("lenses")
	}
	if k > 0 || len(p.Syms) > 0 || len(p.Diags) > 0 {
		c.Nontrivial(src + rg.String())
	}
}

func fieldGroup(kind string) string {
	if kind == "txna" || kind == "itxn" {
		return "txn"
	}
	return kind
}

// ---- P18 formatting ------------------------------------------------------------------

func fmtDoc(c *Ctx, src string) (string, bool) {
	s := &lspScript{}
	s.open(docURI, src)
	id := s.request("textDocument/formatting", obj{"textDocument": obj{"uri": docURI}, "options": obj{"tabSize": 4, "insertSpaces": false}})
	o := s.run(c)
	if o.answer(c, id).HasErr {
		return "", false
	}
	var es []jEdit
	o.result(c, id, &es)
	return applyEdits(c, src, es), true
}

// content is the tokens of every line that has any.
func content(src string) (out []string) {
	for _, l := range refLex(src) {
		var t []string
		for _, x := range l.Toks {
			if x.Comment {
				t = append(t, strings.TrimRight(x.Raw, " \t"))
			} else {
				t = append(t, x.Raw)
			}
		}
		if l.Bad {
			b, _ := u16off(l.Text, l.BadB)
			t = append(t, strings.TrimRight(l.Text[b:], " \t"))
		}
		if len(t) > 0 {
			out = append(out, strings.Join(t, "\x01"))
		}
	}
	return
}

func p18(g *G, c *Ctx) {
	src := genDoc(g)
	if g.Chance(1, 200) {
		n := 32760 + g.Intn(12)
		if g.Bool() {
			n = 40000
		}
		src += pick(g, []string{"\n", "\r\n"}) + pick(g, []string{"byte 0x", "byte  0x"}) + strings.Repeat("00", n) + pick(g, []string{"", "\n", "\nint 1", "\r\nint 1"})
		c.Class("long-line")
	}
	c.Input("%s", show(src))
	out, ok := fmtDoc(c, src)
	if !ok {
		if len(src) < 60000 {
			c.Fail("format-error", "formatting fails")
		}
		return
	}
	a, b := content(src), content(out)
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		c.Fail("format-content", "formatting changes the program:\n%s\nformatted: %q", diffLists(b, a), out)
	}
	// what the program means
	pa, pb := refAnalyze(src), refAnalyze(out)
	if pa.Version != pb.Version || pa.Mode != pb.Mode {
		c.Fail("format-mode", "version %d %s became %d %s", pa.Version, pa.Mode, pb.Version, pb.Mode)
	}
	again, ok := fmtDoc(c, out)
	if !ok {
		if len(src) < 60000 { // the formatter reads lines of up to 64 KiB only
			c.Fail("format-error", "formatting the formatted program fails")
		}
		return
	}
	if again != out {
		c.Fail("format-stable", "formatting again changes the text:\n%q\n%q", out, again)
	}
	if len(a) > 1 && out != src {
		c.Nontrivial(src)
	}
}

func init() {
	register(&Check{
		ID:   "P16",
		Rule: "a case is non-trivial when an opcode or value list was compared, or documentation was due at the position; distinct by what was asked",
		Subs: []Sub{{Name: "help", Fn: p16, Quick: 40000, Thorough: 1000000}},
	})
	register(&Check{
		ID:   "P17",
		Rule: "a case is non-trivial when the document has a hint, a label or a diagnostic; distinct by source and range",
		Subs: []Sub{{Name: "annotations", Fn: p17, Quick: 40000, Thorough: 1000000}},
	})
	register(&Check{
		ID:   "P18",
		Rule: "a case is non-trivial when the document has at least two lines with content and formatting changed its text; distinct by source",
		Subs: []Sub{{Name: "format", Fn: p18, Quick: 30000, Thorough: 600000}},
	})
}
