package main

// P25 builder API, P26 SARIF report, P27 determinism, P28 layout.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/dragmz/teal"
)

// ---- P25 builder ---------------------------------------------------------------

type built struct {
	e teal.Expr
	w []string // statements in source form
}

// buildExpr draws an expression of the builder API and what it stands for.
func buildExpr(g *G, depth int, labels []*teal.LabelExpr) built {
	lbl := func() *teal.LabelExpr { return pick(g, labels) }
	some := func(max int) (ls []*teal.LabelExpr, names string) {
		if g.Chance(1, 4) { // a part of a longer list
			ls = labels[:g.Intn(len(labels)+1)]
			for _, l := range ls {
				names += " " + l.Name
			}
			return
		}
		for k := g.Intn(max + 1); k > 0; k-- {
			l := lbl()
			ls = append(ls, l)
			names += " " + l.Name
		}
		return
	}
	sub := func() built { return buildExpr(g, depth-1, labels) }
	str := func() (string, string) {
		b := genBytesVal(g)
		return string(b), "byte 0x" + hexOf(b)
	}
	n := 24
	if depth > 0 {
		n = 39
	}
	switch g.Intn(n) - 2 {
	case -2:
		return buildStruct(g)
	case -1:
		o := pick(g, builderFieldOps)
		return built{o.E, []string{o.S}}
	case 0, 1, 2:
		o := pick(g, builderOps)
		return built{o.E, []string{o.S}}
	case 3, 4:
		v := g.U64()
		if g.Chance(1, 4) {
			n := pick(g, builderNumbers)
			return built{teal.Int(n.V), []string{fmt.Sprintf("int %d", n.W)}}
		}
		return built{teal.Int(v), []string{fmt.Sprintf("int %d", v)}}
	case 5:
		s, w := str()
		return built{teal.StringBytes(s), []string{w}}
	case 6:
		i := uint8(g.Intn(256))
		return built{teal.Load(i), []string{fmt.Sprintf("load %d", i)}}
	case 7:
		i := uint8(g.Intn(256))
		return built{teal.Store(i), []string{fmt.Sprintf("store %d", i)}}
	case 8:
		i := uint8(g.Intn(256))
		return built{teal.Cover(i), []string{fmt.Sprintf("cover %d", i)}}
	case 9:
		i := uint8(g.Intn(256))
		return built{teal.Uncover(i), []string{fmt.Sprintf("uncover %d", i)}}
	case 10:
		i := int8(g.Intn(256) - 128)
		return built{teal.FrameDig(i), []string{fmt.Sprintf("frame_dig %d", i)}}
	case 11:
		a, b := uint8(g.Intn(256)), uint8(g.Intn(256))
		return built{teal.Proto(a, b), []string{fmt.Sprintf("proto %d %d", a, b)}}
	case 12:
		f := pick(g, builderTxnFields)
		switch g.Intn(3) {
		case 0:
			return built{teal.Txn(f.F), []string{"txn " + f.S}}
		case 1:
			return built{teal.Gtxns(f.F), []string{"gtxns " + f.S}}
		default:
			return built{teal.ItxnField(f.F), []string{"itxn_field " + f.S}}
		}
	case 13:
		f := pick(g, refFields["txn"])
		i := uint8(g.Intn(256))
		return built{teal.Txna(teal.TxnField(f.Value), i), []string{fmt.Sprintf("txna %s %d", f.Name, i)}}
	case 14:
		i := uint8(g.Intn(256))
		return built{teal.Arg(i), []string{fmt.Sprintf("txna ApplicationArgs %d", i)}}
	case 15:
		f := pick(g, builderGlobalFields)
		return built{teal.Global(f.F), []string{"global " + f.S}}
	case 16:
		l := lbl()
		switch g.Intn(4) {
		case 0:
			return built{teal.B(l), []string{"b " + l.Name}}
		case 1:
			return built{teal.Bz(l), []string{"bz " + l.Name}}
		case 2:
			return built{teal.Bnz(l), []string{"bnz " + l.Name}}
		default:
			return built{teal.CallSub(l), []string{"callsub " + l.Name}}
		}
	case 17:
		ls, ns := some(4)
		return built{teal.Match(ls...), []string{"match" + ns}}
	case 18:
		ls, ns := some(4)
		return built{teal.Switch(ls...), []string{"switch" + ns}}
	case 19:
		l := lbl()
		return built{l, []string{l.Name + ":"}}
	case 20:
		return built{teal.Comment(pick(g, []string{"", " c", " \"x", " a // b", " é"})), nil}
	case 21:
		return built{teal.Empty, nil}
	case 22:
		a, b := sub(), sub()
		return built{teal.Plus(a.e, b.e), cat(a.w, b.w, []string{"+"})}
	case 23:
		a, b := sub(), sub()
		return built{teal.Minus(a.e, b.e), cat(a.w, b.w, []string{"-"})}
	case 24:
		a, b := sub(), sub()
		return built{teal.AssertEq(a.e, b.e), cat(a.w, b.w, []string{"==", "assert"})}
	case 25:
		a, b := sub(), sub()
		return built{teal.AssertLtEq(a.e, b.e), cat(a.w, b.w, []string{"<=", "assert"})}
	case 26:
		a := sub()
		n := g.U64()
		return built{teal.AssertLen(a.e, n), cat(a.w, []string{"len", fmt.Sprintf("int %d", n), "==", "assert"})}
	case 27:
		a := sub()
		x, y := g.U64(), g.U64()
		return built{teal.AssertInRange(a.e, x, y), cat(a.w, []string{fmt.Sprintf("int %d", x), ">="}, a.w, []string{fmt.Sprintf("int %d", y), "<", "&&", "assert"})}
	case 28:
		var es []teal.Expr
		w := []string{"itxn_begin"}
		for k := g.Intn(4); k > 0; k-- {
			x := sub()
			es = append(es, x.e)
			w = append(w, x.w...)
		}
		return built{teal.Itxn(es...), append(w, "itxn_submit")}
	case 29:
		a := sub()
		ls, ns := some(3)
		var w []string
		for _, l := range ls {
			w = append(w, "byte 0x"+hexOf([]byte(l.Name)))
		}
		return built{teal.MatchLabels(a.e, ls...), cat(w, a.w, []string{"match" + ns})}
	case 30, 31:
		var es []teal.Expr
		var w []string
		for k := g.Intn(4); k > 0; k-- {
			x := sub()
			es = append(es, x.e)
			w = append(w, x.w...)
		}
		switch g.Intn(3) {
		case 0:
			return built{es, w}
		case 1:
			l := lbl()
			return built{&teal.NestedExpr{Label: l, Body: es}, cat([]string{l.Name + ":"}, w)}
		}
		return built{teal.Block(es...), w}
	case 32: // a function and a call of it
		a, b := sub(), sub()
		f := &teal.FuncExpr{Label: lbl(), Block: teal.Block(b.e)}
		w := []string{f.Label.Name + ":"}
		if g.Bool() {
			f.Proto = teal.Proto(1, 2)
			w = append(w, "proto 1 2")
		}
		if g.Bool() {
			return built{f.Call(a.e), cat(a.w, []string{"callsub " + f.Label.Name})}
		}
		return built{f, cat(w, b.w, []string{"retsub"})}
	case 35, 36: // one list of expressions used several times
		es := make([]teal.Expr, 0, 8)
		var w []string
		for k := g.Intn(3); k >= 0; k-- {
			x := sub()
			es = append(es, x.e)
			w = append(w, x.w...)
		}
		var all []teal.Expr
		var aw []string
		fs := []*teal.FuncExpr{{Label: lbl()}, {Label: lbl()}}
		for k := g.Range(2, 4); k > 0; k-- {
			switch g.Intn(6) {
			case 0:
				all, aw = append(all, teal.Block(es...)), cat(aw, w)
			case 1:
				all, aw = append(all, teal.Itxn(es...)), cat(aw, []string{"itxn_begin"}, w, []string{"itxn_submit"})
			case 2:
				l := lbl()
				all, aw = append(all, &teal.NestedExpr{Label: l, Body: es}), cat(aw, []string{l.Name + ":"}, w)
			case 3:
				l := lbl()
				all, aw = append(all, &teal.FuncExpr{Label: l, Block: teal.Block(es...)}), cat(aw, []string{l.Name + ":"}, w, []string{"retsub"})
			default:
				f := pick(g, fs)
				all, aw = append(all, f.Call(es...)), cat(aw, w, []string{"callsub " + f.Label.Name})
			}
		}
		return built{all, aw}
	default:
		a := sub()
		f := &teal.FuncExpr{Label: lbl()}
		return built{teal.Block(a.e, teal.CallSub(f)), cat(a.w, []string{"callsub " + f.Label.Name})}
	}
}

// buildStruct builds an instruction with immediate values from its exported type.
func buildStruct(g *G) built {
	u := func() uint8 { return uint8(g.Intn(256)) }
	a, b := u(), u()
	f := pick(g, builderTxnFields)
	arr := func() (r []string) {
		for _, f := range refFields["txn"] {
			if f.Array {
				r = append(r, f.Name)
			}
		}
		return
	}()
	af := f
	for an := pick(g, arr); af.S != an; {
		for _, f := range builderTxnFields {
			if f.S == an {
				af = f
			}
		}
	}
	bs := func() (vs [][]byte, w string) {
		for k := g.Intn(4); k > 0; k-- {
			v := genBytesVal(g)
			vs = append(vs, v)
			w += " 0x" + hexOf(v)
		}
		return
	}
	is := func() (vs []uint64, w string) {
		for k := g.Intn(4); k > 0; k-- {
			v := g.U64()
			vs = append(vs, v)
			w += fmt.Sprintf(" %d", v)
		}
		return
	}
	one := func(e teal.Expr, format string, args ...any) built {
		return built{e, []string{fmt.Sprintf(format, args...)}}
	}
	format := pick(g, []teal.BytesFormat{teal.BytesBase64, teal.BytesStringLiteral})
	switch g.Intn(37) {
	case 0:
		vs, w := is()
		return one(&teal.IntcBlockExpr{Values: vs}, "intcblock%s", w)
	case 1:
		vs, w := bs()
		return one(&teal.BytecBlockExpr{Values: vs}, "bytecblock%s", w)
	case 2:
		return one(&teal.IntcExpr{Index: a}, "intc %d", a)
	case 3:
		return one(&teal.BytecExpr{Index: a}, "bytec %d", a)
	case 4:
		return one(&teal.ArgExpr{Index: a}, "arg %d", a)
	case 5:
		return one(&teal.GtxnExpr{Group: a, Field: f.F}, "gtxn %d %s", a, f.S)
	case 6:
		v := genBytesVal(g)
		return one(&teal.PushBytesExpr{Value: v, Format: format}, "pushbytes 0x%x", v)
	case 7:
		v := g.U64()
		return one(&teal.PushIntExpr{Value: v}, "pushint %d", v)
	case 8:
		v := genBytesVal(g)
		return one(&teal.ByteExpr{Value: v, Format: format}, "byte 0x%x", v)
	case 9:
		return one(&teal.BuryExpr{Depth: a}, "bury %d", a)
	case 10:
		return one(&teal.PopNExpr{Depth: a}, "popn %d", a)
	case 11:
		return one(&teal.DupNExpr{Count: a}, "dupn %d", a)
	case 12:
		return one(&teal.Replace2Expr{Start: a}, "replace2 %d", a)
	case 13:
		return one(&teal.ItxnaExpr{Field: af.F, Index: a}, "itxna %s %d", af.S, a)
	case 14:
		return one(&teal.GtxnasExpr{Field: af.F, Index: a}, "gtxnas %d %s", a, af.S)
	case 15:
		return one(&teal.ItxnasExpr{Field: af.F}, "itxnas %s", af.S)
	case 16:
		return one(&teal.GitxnasExpr{Field: af.F, Index: a}, "gitxnas %d %s", a, af.S)
	case 17:
		vs, w := is()
		return one(&teal.PushIntsExpr{Ints: vs}, "pushints%s", w)
	case 18:
		vs, w := bs()
		return one(&teal.PushBytessExpr{Bytess: vs}, "pushbytess%s", w)
	case 19:
		s := pick(g, []string{"add(uint64,uint64)uint64", "f()void", "g(string,(byte,bool)[2],account)byte[]"})
		return one(&teal.MethodExpr{Signature: s}, "method %q", s)
	case 20:
		return one(&teal.AddrExpr{Address: refZeroAddr}, "addr %s", refZeroAddr)
	case 21:
		return one(&teal.FrameBuryExpr{Index: int8(a)}, "frame_bury %d", int8(a))
	case 22:
		return one(&teal.ItxnExpr{Field: f.F}, "itxn %s", f.S)
	case 23:
		return one(&teal.GtxnaExpr{Group: a, Field: af.F, Index: b}, "gtxna %d %s %d", a, af.S, b)
	case 24:
		return one(&teal.GtxnsaExpr{Field: af.F, Index: b}, "gtxnsa %s %d", af.S, b)
	case 25:
		return one(&teal.GloadExpr{Group: a, Index: b}, "gload %d %d", a, b)
	case 26:
		return one(&teal.GloadsExpr{Index: b}, "gloads %d", b)
	case 27:
		return one(&teal.TxnasExpr{Field: af.F}, "txnas %s", af.S)
	case 28:
		return one(&teal.ExtractExpr{Start: a, Length: b}, "extract %d %d", a, b)
	case 29:
		return one(&teal.GitxnExpr{Index: a, Field: f.F}, "gitxn %d %s", a, f.S)
	case 30:
		return one(&teal.GtxnsasExpr{Field: af.F}, "gtxnsas %s", af.S)
	case 31:
		return one(&teal.DigExpr{Index: a}, "dig %d", a)
	case 32:
		return one(&teal.GaidExpr{Group: a}, "gaid %d", a)
	case 33:
		return one(&teal.SubstringExpr{Start: a, End: b}, "substring %d %d", a, b)
	case 34:
		return one(&teal.GitxnaExpr{Group: a, Field: af.F, Index: b}, "gitxna %d %s %d", a, af.S, b)
	case 35:
		return one(&teal.TxnaExpr{Field: af.F, Index: b}, "txna %s %d", af.S, b)
	default:
		return one(&teal.FrameDigExpr{Index: int8(a)}, "frame_dig %d", int8(a))
	}
}

const refZeroAddr = "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ"

func hexOf(b []byte) string { return fmt.Sprintf("%x", b) }

func cat(xs ...[]string) (r []string) {
	for _, x := range xs {
		r = append(r, x...)
	}
	return
}

func canonLines(text string) (out []string, ok bool) {
	p := refAnalyze("#pragma version 10\n" + text)
	ok = true
	for _, st := range p.Stmts[1:] {
		switch st.Kind {
		case "empty", "comment":
		default:
			out = append(out, st.canon())
			ok = ok && !st.Err
		}
	}
	return
}

func p25(g *G, c *Ctx) {
	labels := []*teal.LabelExpr{teal.Label("a"), teal.Label("b1"), teal.Label("main_loop"), teal.Label("é")}
	var prog teal.Program
	var want []string
	for k := g.Range(1, 6); k > 0; k-- {
		x := buildExpr(g, 3, labels)
		prog = append(prog, x.e)
		want = append(want, x.w...)
	}
	c.Input("the program built for %q", want)
	l := teal.Compile(prog)
	text := l.String()
	if s := prog.String(); s != text {
		c.Fail("build-program", "the program prints as\n%s\nits compiled listing as\n%s", s, text)
	}
	if s := teal.Compile(prog).String(); s != text {
		c.Fail("build-again", "compiled again the program prints as\n%s\nbefore as\n%s", s, text)
	}
	if g.Bool() { // the program grows: what was there stays
		x := buildExpr(g, 2, labels)
		prog = append(prog, x.e)
		want = append(want, x.w...)
		c.Input("the program built for %q", want)
		longer := teal.Compile(prog).String()
		if !strings.HasPrefix(longer, text) || l.String() != text {
			c.Fail("build-grow", "with one more expression the program prints as\n%s\nbefore as\n%s", longer, text)
		}
		text = longer
	}
	got, _ := canonLines(text)
	exp, _ := canonLines(strings.Join(want, "\n"))
	if strings.Join(got, "\n") != strings.Join(exp, "\n") {
		c.Fail("build-text", "the program prints as\n%s\nexpected\n%s", strings.Join(got, "\n"), strings.Join(exp, "\n"))
	}
	if len(want) > 3 {
		c.Nontrivial(strings.Join(want, ";"))
	}
}

// ---- P26 SARIF -------------------------------------------------------------------

type sarifDoc struct {
	Version string `json:"version"`
	Runs    []struct {
		Tool struct {
			Driver struct {
				Name  string `json:"name"`
				Rules []struct {
					Id string `json:"id"`
				} `json:"rules"`
			} `json:"driver"`
		} `json:"tool"`
		Artifacts []struct {
			Location struct {
				Uri string `json:"uri"`
			} `json:"location"`
		} `json:"artifacts"`
		Results []struct {
			Level   string `json:"level"`
			RuleId  string `json:"ruleId"`
			RuleIx  *int   `json:"ruleIndex"`
			Message struct {
				Text string `json:"text"`
			} `json:"message"`
			Locations []struct {
				Phys struct {
					Art struct {
						Uri   string `json:"uri"`
						Index *int   `json:"index"`
					} `json:"artifactLocation"`
					Region struct {
						Line int `json:"startLine"`
						Col  int `json:"startColumn"`
					} `json:"region"`
				} `json:"physicalLocation"`
			} `json:"locations"`
		} `json:"results"`
	} `json:"runs"`
}

func uriPath(u string) string {
	x, err := url.Parse(u)
	if err != nil || x.Scheme != "file" {
		return "?" + u
	}
	for i := 0; i < len(u); i++ { // RFC 3986
		if !(u[i] >= 'a' && u[i] <= 'z' || u[i] >= 'A' && u[i] <= 'Z' || u[i] >= '0' && u[i] <= '9' || strings.IndexByte("-._~:/?#[]@!$&'()*+,;=%", u[i]) >= 0) {
			return "not a URI: " + u
		}
	}
	return x.Path
}

func oneReplacement(s string) string {
	var b strings.Builder
	last := rune(-1)
	for _, r := range s {
		if r != '\uFFFD' || last != r {
			b.WriteRune(r)
		}
		last = r
	}
	return b.String()
}

func p26(g *G, c *Ctx) {
	dir, err := os.MkdirTemp("", "tvsarif")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if d, err := filepath.EvalSymlinks(dir); err == nil {
		dir = d
	}
	src := map[string]string{}
	var desc []string
	names := []string{"a.teal", "b.teal", "x/c.teal", "x/y/d é.teal", "x/a.teal", "e#1%20.teal", "n.txt", "x/z.TEAL", "teal", "z.teal.bak", "x y/q.teal", "f.teal/g.teal", ".h.teal",
		".hid/k.teal", "_u/l.teal", "node_modules/m.teal", "vendor/v.teal", "testdata/t.teal", "build/o.teal", "A.teal", "x/q?.teal", "h:1.teal", "%41.teal", "~t.teal", "s_test.teal", "a.teal~", "x.teal.teal", ".teal", "日.teal", "x.teal", "a.teal-2.teal", "b.teal.teal", "aa.teal", "x/c.tealx.teal", "x.y/c.teal", "x-/c.teal", "d/a.teal/a.teal", "a b.teal", "[1].teal", "a\\b.teal", "é.teal"}
	for k := g.Intn(6); k >= 0; k-- {
		n := pick(g, names)
		p := filepath.Join(dir, n)
		s := genDoc(g)
		if g.Chance(1, 5) {
			s = genRaw(g)
		} else if g.Chance(1, 20) {
			s = pick(g, []string{"", "\uFEFF" + s, "\n", "#!/bin/x\n" + s})
		}
		if err := os.MkdirAll(filepath.Dir(p), 0700); err != nil {
			continue
		}
		if err := os.WriteFile(p, []byte(s), 0600); err != nil {
			continue
		}
		src[p] = s
		desc = append(desc, n+"="+show(s))
	}
	if g.Chance(1, 60) { // many files
		n := pick(g, []int{70, 140, 270, 600})
		s := genDoc(g)
		for i := 0; i < n; i++ {
			p := filepath.Join(dir, fmt.Sprintf("m%d", i%7), fmt.Sprintf("f%d.teal", i))
			os.MkdirAll(filepath.Dir(p), 0700)
			if err := os.WriteFile(p, []byte(s), 0600); err != nil {
				panic(err)
			}
			src[p] = s
		}
		desc = append(desc, fmt.Sprintf("%d files=%s", n, show(s)))
	}
	path := dir
	single := g.Chance(1, 4)
	if single {
		var ps []string
		for p := range src {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		path = pick(g, ps)
		src = map[string]string{path: src[path]}
	} else {
		for p := range src {
			if !strings.HasSuffix(p, ".teal") {
				delete(src, p)
			}
		}
	}
	// other spellings of the same path
	cwd, spelled := "", path
	switch g.Intn(8) {
	case 0:
		cwd = dir
		spelled, _ = filepath.Rel(dir, path)
		if g.Bool() {
			spelled = "./" + spelled
		}
	case 1:
		cwd = filepath.Dir(path)
		spelled = filepath.Base(path)
	case 2:
		spelled = dir + "/../" + filepath.Base(dir) + strings.TrimPrefix(path, dir)
	case 3:
		if !single {
			spelled += "/"
		}
	}
	c.Input("-path %s in %q with %s", strings.Replace(spelled, dir, "DIR", 1), strings.Replace(cwd, dir, "DIR", 1), strings.Join(desc, "\n"))
	so, se, code := toolRunIn(c, cwd, nil, "tealsarif", "-path", spelled)
	if code != 0 {
		c.Fail("sarif-exit", "tealsarif ended with code %d: %s", code, clip(se, 400))
	}
	var d sarifDoc
	if err := json.Unmarshal([]byte(so), &d); err != nil {
		c.Fail("sarif-json", "%v: %s", err, clip(so, 300))
	}
	if d.Version != "2.1.0" || len(d.Runs) != 1 {
		c.Fail("sarif-shape", "version %q, %d runs", d.Version, len(d.Runs))
	}
	run := d.Runs[0]
	rules := map[string]bool{}
	for _, r := range run.Tool.Driver.Rules {
		if rules[r.Id] {
			c.Fail("sarif-rules", "rule %s is listed twice", r.Id)
		}
		rules[r.Id] = true
	}
	var arts, files []string
	for _, a := range run.Artifacts {
		arts = append(arts, uriPath(a.Location.Uri))
	}
	for p := range src {
		files = append(files, p)
	}
	if dd := diffLists(arts, files); dd != "" {
		c.Fail("sarif-artifacts", "artifacts: %s", strings.ReplaceAll(dd, dir, "DIR"))
	}
	key := func(p, rule, level, msg string, line, col int) string {
		// text that is not UTF-8 has no exact form in JSON: runs of broken bytes
		// and of replacement characters count as one
		return fmt.Sprintf("%s:%d:%d %s %s %q", strings.TrimPrefix(p, dir), line, col, level, rule, oneReplacement(msg))
	}
	var got, want []string
	for _, r := range run.Results {
		if len(r.Locations) != 1 {
			c.Fail("sarif-location", "a result with %d locations", len(r.Locations))
		}
		l := r.Locations[0].Phys
		p := uriPath(l.Art.Uri)
		if l.Art.Index != nil && (*l.Art.Index < 0 || *l.Art.Index >= len(arts) || arts[*l.Art.Index] != p) {
			c.Fail("sarif-index", "a result for %s refers to artifact %d", strings.TrimPrefix(p, dir), *l.Art.Index)
		}
		if !rules[r.RuleId] {
			c.Fail("sarif-rule", "a result of the unlisted rule %q", r.RuleId)
		}
		if r.RuleIx != nil && (*r.RuleIx < 0 || *r.RuleIx >= len(run.Tool.Driver.Rules) || run.Tool.Driver.Rules[*r.RuleIx].Id != r.RuleId) {
			c.Fail("sarif-rule", "rule index %d of rule %q", *r.RuleIx, r.RuleId)
		}
		got = append(got, key(p, r.RuleId, r.Level, r.Message.Text, l.Region.Line, l.Region.Col))
	}
	for p, s := range src {
		for _, dg := range teal.Process(s).Diagnostics {
			lv := map[string]string{"err": "error", "warn": "warning"}[sevOf(dg.Severity())]
			want = append(want, key(p, dg.Rule(), lv, dg.String(), dg.Line()+1, dg.Begin()+1))
		}
	}
	if dd := diffLists(got, want); dd != "" {
		c.Fail("sarif-results", "results: %s", dd)
	}
	if len(got) > 0 && len(files) > 1 {
		c.Class("several-files")
	}
	if len(got) > 1 {
		c.Nontrivial(strings.Join(desc, "\n") + fmt.Sprint(single))
	}
}

// a path that cannot be read is reported
func p26bad(g *G, c *Ctx) {
	dir, err := os.MkdirTemp("", "tvsarif")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, pick(g, []string{"none.teal", "none", "a.teal/x"}))
	os.WriteFile(filepath.Join(dir, "a.teal"), []byte("int 1"), 0600)
	args := []string{"-path", path}
	if g.Chance(1, 4) {
		args = []string{}
	}
	c.Input("tealsarif %v", strings.ReplaceAll(fmt.Sprint(args), dir, "DIR"))
	_, _, code := toolRun(c, nil, "tealsarif", args...)
	if code == 0 {
		c.Fail("sarif-exit", "tealsarif succeeds for a path that does not exist")
	}
	c.Nontrivial(filepath.Base(path))
}

// ---- P27 determinism ---------------------------------------------------------------

// dump renders everything the analysis returns, in order.
func dump(res *teal.ProcessResult) string {
	var b strings.Builder
	fmt.Fprintf(&b, "mode %v version %d\n", res.Mode, res.Version)
	if res.VersionToken != nil {
		fmt.Fprintf(&b, "version at %d:%d-%d\n", res.VersionToken.StartLine(), res.VersionToken.StartCharacter(), res.VersionToken.EndCharacter())
	}
	for _, d := range res.Diagnostics {
		fmt.Fprintf(&b, "diag %d:%d-%d %s %s %s\n", d.Line(), d.Begin(), d.End(), sevOf(d.Severity()), d.Rule(), d)
	}
	toks := func(n string, ts []teal.Token) {
		for _, t := range ts {
			fmt.Fprintf(&b, "%s %d:%d-%d %v %q\n", n, t.StartLine(), t.StartCharacter(), t.EndCharacter(), t.Type(), t.String())
		}
	}
	toks("token", res.Tokens)
	toks("missing", res.MissRefs)
	toks("ref", res.SymbolRefs)
	toks("op", res.Ops)
	toks("num", res.Numbers)
	toks("str", res.Strings)
	toks("key", res.Keywords)
	toks("mac", res.Macros)
	for _, s := range res.Symbols {
		fmt.Fprintf(&b, "sym %q %d:%d-%d %q %q\n", s.Name(), s.StartLine(), s.StartCharacter(), s.EndCharacter(), s.Docs(), s.Signature())
	}
	for _, o := range res.Listing {
		fmt.Fprintf(&b, "%T %s\n", o, o)
	}
	for _, r := range res.Redundants {
		fmt.Fprintf(&b, "redundant %d %s\n", r.Line(), r)
	}
	for _, v := range res.Versions {
		fmt.Fprintf(&b, "needs %+v\n", v)
	}
	var rc []string
	for n, k := range res.RefCounts {
		rc = append(rc, fmt.Sprintf("count %q %d", n, k))
	}
	sort.Strings(rc)
	b.WriteString(strings.Join(rc, "\n"))
	return b.String()
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		u, v := "(nothing)", "(nothing)"
		if i < len(x) {
			u = x[i]
		}
		if i < len(y) {
			v = y[i]
		}
		if u != v {
			return fmt.Sprintf("%s\nversus\n%s", u, v)
		}
	}
	return ""
}

// nearText is a text that is easily taken for t.
func nearText(g *G, t string) string {
	switch g.Intn(10) {
	case 0:
		return strings.ToUpper(t)
	case 1:
		return strings.ToLower(t)
	case 2:
		return strings.ReplaceAll(t, "\r\n", "\n")
	case 3:
		return strings.ReplaceAll(strings.ReplaceAll(t, "\r\n", "\n"), "\n", "\r\n")
	case 4:
		return strings.Join(strings.Fields(t), " ")
	case 5: // the same lines in another order
		ls := strings.Split(t, "\n")
		if len(ls) > 1 {
			i := g.Intn(len(ls) - 1)
			ls[i], ls[i+1] = ls[i+1], ls[i]
		}
		return strings.Join(ls, "\n")
	case 6: // one letter in the other case
		b := []byte(t)
		var at []int
		for i, x := range b {
			if x|0x20 >= 'a' && x|0x20 <= 'z' {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			b[pick(g, at)] ^= 0x20
		}
		return string(b)
	}
	return genEdit(g, t)
}

func p27(g *G, c *Ctx) {
	src := genDoc(g)
	if g.Chance(1, 4) {
		src = genRaw(g)
	}
	other := genDoc(g)
	if g.Chance(1, 3) { // much alike
		other = nearText(g, src)
	}
	c.Input("%s after %s", show(src), show(other))
	first := teal.Process(src)
	a := dump(first)
	o1 := dump(teal.Process(other))
	b := dump(teal.Process(src))
	if a != b {
		c.Fail("differs", "analysing the same text twice gives\n%s", firstDiff(a, b))
	}
	if again := dump(first); again != a {
		c.Fail("changed", "a result changed while another text was analysed:\n%s", firstDiff(a, again))
	}
	// queries and uses of the result leave it alone
	for k := g.Range(1, 6); k > 0; k-- {
		l, ch := g.Intn(12), g.Intn(20)
		r := rng{l, ch, l + g.Intn(2), ch + g.Intn(5)}
		switch g.Intn(7) {
		case 0:
			first.SymOrRefAt(r)
		case 1:
			first.SymbolsWithin(r)
			first.SymbolRefsWithin(r)
		case 2:
			first.DocAt(l, ch)
			first.ArgAt(l, ch)
		case 3:
			first.ArgValsAt(l, ch)
		case 4:
			first.InlayHints(r)
		case 5:
			_ = first.Listing.String()
			first.Listing.Lint()
		default:
			vm := teal.NewVm(first)
			for i := 0; i < 20 && vm.Branch != nil && vm.Error == nil; i++ {
				vm.Step()
			}
		}
	}
	if again := dump(first); again != a {
		c.Fail("changed", "a result changed by being queried:\n%s", firstDiff(a, again))
	}
	if o2 := dump(teal.Process(other)); o1 != o2 {
		c.Fail("differs", "analysing the same text twice gives\n%s", firstDiff(o1, o2))
	}
	if len(first.Listing) > 2 {
		c.Nontrivial(src)
	}
	if len(first.Diagnostics) > 1 {
		c.Class("several-diagnostics")
	}
}

// several analyses at once do not disturb each other
func p27par(g *G, c *Ctx) {
	var srcs []string
	for k := 0; k < 4; k++ {
		srcs = append(srcs, genDoc(g))
	}
	c.Input("at once: %q", srcs)
	want := make([]string, len(srcs))
	for i, s := range srcs {
		want[i] = dump(teal.Process(s))
	}
	type res struct {
		i int
		s string
	}
	ch := make(chan res)
	for r := 0; r < 2; r++ {
		for i := range srcs {
			go func(i int) {
				defer func() {
					if e := recover(); e != nil {
						ch <- res{i, fmt.Sprint("panic: ", e)}
					}
				}()
				ch <- res{i, dump(teal.Process(srcs[i]))}
			}(i)
		}
	}
	bad := ""
	for k := 0; k < 2*len(srcs); k++ {
		if r := <-ch; r.s != want[r.i] && bad == "" {
			bad = fmt.Sprintf("text %d: %s", r.i, firstDiff(want[r.i], r.s))
		}
	}
	if bad != "" {
		c.Fail("parallel", "analysed at the same time as others:\n%s", bad)
	}
	c.Nontrivial(strings.Join(srcs, "\x00"))
}

// dumpAsked is the result with what queries at its tokens answer.
func dumpAsked(src string) string {
	res := teal.Process(src)
	var b strings.Builder
	b.WriteString(dump(res))
	for _, t := range res.Tokens {
		if t.Type() == teal.TokenEol {
			continue
		}
		l, ch := t.StartLine(), t.StartCharacter()
		var vs []string
		for _, v := range res.ArgValsAt(l, ch) {
			vs = append(vs, fmt.Sprintf("%+v", v))
		}
		sort.Strings(vs)
		_, i, _ := res.ArgAt(l, ch)
		fmt.Fprintf(&b, "\nat %d:%d %q %d %q", l, ch, res.DocAt(l, ch), i, vs)
	}
	fmt.Fprintf(&b, "\nhints %+v", res.InlayHints(rng{0, 0, 1 << 20, 0}))
	vm := teal.NewVm(res)
	for i := 0; i < 20 && vm.Branch != nil && vm.Error == nil; i++ {
		vm.Step()
	}
	res.Listing.Lint()
	return b.String()
}

type batch struct {
	Texts []string
	Par   bool
}

// cmdBatch analyses texts in a process of their own.
func cmdBatch() {
	var in batch
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		die("%v", err)
	}
	out := make([]string, len(in.Texts))
	if in.Par {
		var wg sync.WaitGroup
		for r := 0; r < 3; r++ {
			for i := range in.Texts {
				wg.Add(1)
				go func(i, r int) {
					defer wg.Done()
					d := dumpAsked(in.Texts[i])
					if r == 0 {
						out[i] = d
					}
				}(i, r)
			}
		}
		wg.Wait()
	} else {
		for i, t := range in.Texts {
			out[i] = dumpAsked(t)
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func runBatch(c *Ctx, exe string, in batch) []string {
	cmd := exec.Command(exe, "batch")
	b, _ := json.Marshal(in)
	var so, se bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(b), &so, &se
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	if err := toolDo(c, cmd); err != nil {
		if strings.Contains(se.String(), "DATA RACE") {
			c.Fail("race", "analyses at the same time share data:\n%s", clip(se.String(), 2500))
		}
		c.Fail("batch", "analysing %d texts one after the other ends with %v\n%s", len(in.Texts), err, clip(se.String(), 1500))
	}
	var out []string
	if err := json.Unmarshal(so.Bytes(), &out); err != nil || len(out) != len(in.Texts) {
		c.Fail("batch", "analysing %d texts one after the other gives no result: %v", len(in.Texts), err)
	}
	return out
}

func genBatch(g *G) []string {
	var ts []string
	for k := g.Range(2, 10); k > 0; k-- {
		t := genHistoryDoc(g)
		if len(ts) > 0 && g.Bool() {
			t = nearText(g, pick(g, ts))
		}
		ts = append(ts, strings.ToValidUTF8(t, "?"))
	}
	return ts
}

// the order in which a process analyses texts does not matter
func p27order(g *G, c *Ctx) {
	ts := genBatch(g)
	c.Input("%q", ts)
	var back []string
	for i := len(ts) - 1; i >= 0; i-- {
		back = append(back, ts[i])
	}
	a, b := runBatch(c, os.Args[0], batch{Texts: ts}), runBatch(c, os.Args[0], batch{Texts: back})
	for i := range a {
		if x, y := a[i], b[len(b)-1-i]; x != y {
			c.Fail("order", "text %d, in order and in reverse order:\n%s", i, firstDiff(x, y))
		}
	}
	c.Nontrivial(strings.Join(ts, "\x00"))
}

// analyses at the same time share nothing that one of them writes
func p27race(g *G, c *Ctx) {
	exe := filepath.Join(os.Getenv("TV_BIN"), "tv-race")
	if _, err := os.Stat(exe); err != nil {
		c.Discard()
	}
	ts := genBatch(g)
	c.Input("at once: %q", ts)
	a, b := runBatch(c, exe, batch{Texts: ts, Par: true}), runBatch(c, os.Args[0], batch{Texts: ts})
	for i := range a {
		if a[i] != b[i] {
			c.Fail("parallel", "text %d, at once and one after the other:\n%s", i, firstDiff(a[i], b[i]))
		}
	}
	c.Nontrivial(strings.Join(ts, "\x00"))
}

// ---- P28 layout ---------------------------------------------------------------------

func p28(g *G, c *Ctx) {
	src := genDoc(g)
	if g.Chance(1, 3) {
		src = genFlow(g)
	}
	p := refAnalyze(src)
	for i := range p.Lines {
		if p.Lines[i].EOL == "\r" {
			c.Discard()
		}
	}
	type pos struct{ l, c int }
	at := map[pos]pos{} // token borders
	lineOf := map[int]int{}
	var b strings.Builder
	eol := pick(g, []string{"\n", "\n", "\r\n"})
	n := 0
	blank := func() string {
		if g.Chance(1, 80) {
			return strings.Repeat(pick(g, []string{" ", "\t", " \t"}), g.Range(2, 150))
		}
		return pick(g, []string{" ", "  ", "\t", " \t ", "   "})
	}
	filler := func() {
		if g.Chance(1, 80) { // a wide gap
			for k := g.Range(4, 80); k > 0; k-- {
				b.WriteString(pick(g, []string{"", "// note"}) + eol)
				n++
			}
		}
		if g.Chance(1, 100) {
			b.WriteString("// " + strings.Repeat(pick(g, []string{"x", "int 1 ", "é"}), g.Range(20, 700)) + eol)
			n++
		}
		for g.Chance(1, 5) {
			b.WriteString(pick(g, []string{"", " ", "\t", "// note", "  // int 1", "//é"}) + eol)
			n++
		}
	}
	changed := false
	for i, ln := range p.Lines {
		last := i == len(p.Lines)-1
		if !last || ln.Text != "" {
			m := n
			filler()
			changed = changed || n != m
		}
		lineOf[i] = n
		if ln.Bad {
			b.WriteString(ln.Text)
			for k := 0; k <= u16len(ln.Text); k++ {
				at[pos{i, k}] = pos{n, k}
			}
		} else {
			o := ""
			if len(ln.Toks) > 0 && g.Chance(1, 3) {
				o = blank()
			}
			prev := 0
			hasCom := false
			for j, t := range ln.Toks {
				if j > 0 && ln.Toks[j].BB > prev {
					if g.Bool() {
						o += blank()
					} else {
						o += " "
					}
				}
				nb := u16len(o)
				o += t.Raw
				ne := u16len(o)
				at[pos{i, t.B}] = pos{n, nb}
				at[pos{i, t.E}] = pos{n, ne}
				prev = t.BE
				hasCom = hasCom || t.Comment
			}
			if len(ln.Toks) > 0 && !hasCom {
				// after base64 two slashes begin a value
				raw := ln.Toks[len(ln.Toks)-1].Raw
				if g.Chance(1, 4) && raw != "base64" && raw != "b64" {
					o += blank() + "// remark"
				} else if g.Chance(1, 4) {
					o += blank()
				}
			}
			if o != ln.Text {
				changed = true
			}
			b.WriteString(o)
		}
		if ln.EOL != "" {
			b.WriteString(eol)
			n++
			if ln.EOL != eol {
				changed = true
			}
		}
	}
	out := b.String()
	c.Input("%s laid out as %s", show(src), show(out))
	x, y := teal.Process(src), teal.Process(out)
	if x.Mode != y.Mode || x.Version != y.Version {
		c.Fail("layout-version", "version %d mode %v became version %d mode %v", x.Version, x.Mode, y.Version, y.Mode)
	}
	// statements
	taken := map[int]bool{}
	for i, o := range x.Listing {
		if i >= len(p.Lines) {
			break
		}
		k := lineOf[i]
		taken[k] = true
		if k >= len(y.Listing) {
			if o.String() != "" {
				c.Fail("layout-listing", "statement %q of line %d is lost", o, i)
			}
			continue
		}
		if o.String() != y.Listing[k].String() || fmt.Sprintf("%T", o) != fmt.Sprintf("%T", y.Listing[k]) {
			c.Fail("layout-listing", "statement %q of line %d became %q", o, i, y.Listing[k])
		}
	}
	for k, o := range y.Listing {
		if _, nop := o.(teal.Nop); !taken[k] && (!nop || strings.TrimSpace(o.String()) != "" && !strings.HasPrefix(o.String(), "//")) {
			c.Fail("layout-listing", "statement %q appeared at line %d", o, k)
		}
	}
	// reports
	var got, want []string
	for _, d := range x.Diagnostics {
		s, ok1 := at[pos{d.Line(), d.Begin()}]
		want = append(want, fmt.Sprintf("%d %s %s", lineOf[d.Line()], d.Rule(), sevOf(d.Severity())))
		if ok1 && d.Rule() == "PARSE" {
			want = append(want, fmt.Sprintf("%d begins at %d", s.l, s.c))
		}
	}
	inv := map[pos]bool{}
	for _, to := range at {
		inv[to] = true
	}
	for _, d := range y.Diagnostics {
		got = append(got, fmt.Sprintf("%d %s %s", d.Line(), d.Rule(), sevOf(d.Severity())))
		if inv[pos{d.Line(), d.Begin()}] && d.Rule() == "PARSE" {
			got = append(got, fmt.Sprintf("%d begins at %d", d.Line(), d.Begin()))
		}
	}
	if dd := diffLists(got, want); dd != "" {
		c.Fail("layout-diagnostics", "reports (line rule severity): %s", dd)
	}
	// labels
	got, want = nil, nil
	for _, s := range x.Symbols {
		t := at[pos{s.StartLine(), s.StartCharacter()}]
		want = append(want, fmt.Sprintf("%q at %d:%d refs %d", s.Name(), t.l, t.c, x.RefCounts[s.Name()]))
	}
	for _, s := range y.Symbols {
		got = append(got, fmt.Sprintf("%q at %d:%d refs %d", s.Name(), s.StartLine(), s.StartCharacter(), y.RefCounts[s.Name()]))
	}
	if dd := diffLists(got, want); dd != "" {
		c.Fail("layout-labels", "labels: %s", dd)
	}
	if changed && len(x.Listing) > 2 {
		c.Nontrivial(src + out)
	}
}

func init() {
	register(&Check{
		ID:   "P25",
		Rule: "random expressions of the builder API (instructions, fields, labels, blocks, functions, assertions, inner transactions; nested) compiled and printed, compared with the instructions they stand for. Non-trivial: more than three instructions",
		Subs: []Sub{{Name: "build", Fn: p25, Quick: 60000, Thorough: 1500000}},
	})
	register(&Check{
		ID:   "P26",
		Rule: "random directory trees with TEAL and other files, and single files, scanned by the tealsarif tool; the report is compared with the analysis of each file. Non-trivial: at least two results",
		Subs: []Sub{
			{Name: "scan", Fn: p26, Quick: 1500, Thorough: 30000},
			{Name: "unreadable", Fn: p26bad, Quick: 60, Thorough: 200},
		},
	})
	register(&Check{
		ID:   "P27",
		Rule: "pairs of documents analysed alternately, queried, executed and analysed again, and several at the same time; full results compared. Non-trivial: more than two statements",
		Subs: []Sub{
			{Name: "again", Fn: p27, Quick: 25000, Thorough: 600000},
			{Name: "parallel", Fn: p27par, Quick: 2000, Thorough: 40000},
			{Name: "order", Fn: p27order, Quick: 1000, Thorough: 20000},
			{Name: "race", Fn: p27race, Quick: 150, Thorough: 3000},
		},
	})
	register(&Check{
		ID:   "P28",
		Rule: "documents rewritten with other blanks, tabs, line ends, blank lines and comments; results compared through the line and token mapping. Non-trivial: the text changed and has more than two statements",
		Subs: []Sub{{Name: "layout", Fn: p28, Quick: 30000, Thorough: 800000}},
	})
}
