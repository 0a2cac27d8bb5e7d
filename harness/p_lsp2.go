package main

// P14 (protocol) and P15 (history independence) of the language server.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/dragmz/teal/lsp"
)

var lspQueries = []string{
	"textDocument/prepareRename", "textDocument/rename", "textDocument/inlineValue", "textDocument/codeLens",
	"textDocument/inlayHint", "textDocument/completion", "textDocument/hover", "textDocument/definition",
	"textDocument/formatting", "textDocument/signatureHelp", "textDocument/codeAction", "textDocument/diagnostic",
	"textDocument/documentHighlight", "textDocument/documentSymbol", "textDocument/semanticTokens/full",
}

// queryParams are parameters good for every query.
func queryParams(g *G, uri string, p *rProg) obj {
	l, ch := 0, 0
	rg := mkRange(0, 0, 100, 0)
	if p != nil {
		l, ch = genDocPos(g, p)
		rg = genDocRange(g, p)
	}
	return obj{
		"textDocument": obj{"uri": uri},
		"position":     obj{"line": l, "character": ch},
		"range":        rg.obj(),
		"newName":      "zz",
		"context":      obj{"diagnostics": []any{}, "frameId": 1},
		"options":      obj{"tabSize": 4, "insertSpaces": true},
	}
}

func commandParams(g *G, uri string) obj {
	switch g.Intn(6) {
	case 0:
		return obj{"command": "teal.version.update", "arguments": []any{obj{"uri": uri, "version": g.Intn(10)}}}
	case 1:
		return obj{"command": "teal.value.replace", "arguments": []any{obj{"uri": uri, "range": mkRange(0, 0, 0, 1).obj(), "name": "x", "value": "x"}}}
	case 2:
		return obj{"command": "teal.line.remove", "arguments": []any{obj{"uri": uri, "line": g.Intn(5)}}}
	case 3:
		return obj{"command": "teal.label.remove", "arguments": []any{obj{"uri": uri, "name": pick(g, defLabels)}}}
	default:
		return obj{"command": "teal.label.create", "arguments": []any{obj{"uri": uri, "name": pick(g, defLabels)}}}
	}
}

var badValues = []any{nil, 0, -1, "x", true, []any{}, obj{}, 1e300, []any{1, nil}, obj{"uri": 5}, obj{"uri": "file:///nope"}, obj{"line": "x"}, obj{"line": -5, "character": -9}, obj{"line": 1 << 40, "character": 1 << 40}}

// spoil damages parameters.
func spoil(g *G, params obj) any {
	switch g.Intn(4) {
	case 0:
		return pick(g, badValues)
	case 1:
		return obj{}
	default:
		var ks []string
		for k := range params {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		k := pick(g, ks)
		q := obj{}
		for a, b := range params {
			q[a] = b
		}
		if g.Bool() {
			delete(q, k)
		} else {
			q[k] = pick(g, badValues)
		}
		return q
	}
}

type expReq struct {
	id    string // JSON of the id
	what  string
	judge string // "result", "error" or "" (either)
}

func clone(o obj) obj {
	r := obj{}
	for k, v := range o {
		r[k] = v
	}
	return r
}

func jsonOf(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func p14(g *G, c *Ctx) {
	var in bytes.Buffer
	var log []string
	var exp []expReq
	docs := map[string]bool{}
	shut, ended := false, false
	wantCode := -1
	uris := []string{"file:///a.teal", "file:///b.teal", "untitled:1", ""}
	if g.Chance(1, 4) { // different documents with much the same name
		uris = pick(g, nearURIs)
	}
	kinds := map[string]bool{}
	var ends, given []int // where messages end, how many requests they hold
	longest := 0          // message so far
	put := func(body string) {
		if len(body) > longest {
			longest = len(body)
		}
		defer func() { ends = append(ends, in.Len()); given = append(given, len(exp)) }()
		var v any
		if g.Chance(1, 6) && json.Unmarshal([]byte(body), &v) == nil { // the same message, spelled otherwise
			switch g.Intn(3) {
			case 0:
				var b bytes.Buffer
				json.Indent(&b, []byte(body), "\t", "  ")
				body = b.String()
			case 1:
				body = "\r\n " + body + "\n"
			default:
				body = strings.ReplaceAll(body, "/", "\\/")
			}
		}
		hdr := fmt.Sprintf("Content-Length: %d\r\n", len(body))
		switch g.Intn(8) {
		case 5:
			hdr = fmt.Sprintf("content-length: %d\r\n", len(body))
		case 6:
			hdr += "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"
		case 7:
			hdr = "Content-Type: application/vscode-jsonrpc\r\n" + hdr
		}
		in.WriteString(hdr + "\r\n" + body)
		log = append(log, clip(body, 160))
	}
	nid := 0
	odd := []any{json.RawMessage("9007199254740993"), json.RawMessage("-9223372036854775807"), json.RawMessage("1717171717171717171"), "", 0, "0", " ", "null", "é", "id", strings.Repeat("x", 300)}
	newID := func() any {
		nid++
		switch g.Intn(8) {
		case 5: // unusual, each once
			if len(odd) > 0 {
				i := g.Intn(len(odd))
				id := odd[i]
				odd = append(append([]any{}, odd[:i]...), odd[i+1:]...)
				return id
			}
			return nid
		case 6:
			return fmt.Sprint(nid) // the text of a number
		case 0:
			return fmt.Sprintf("s%d", nid)
		case 1:
			return 1<<31 - 1 - nid
		case 2:
			return -nid
		case 3:
			return fmt.Sprintf("%d\"\\é", nid)
		default:
			return nid
		}
	}
	request := func(method string, params any, judge string) {
		id := newID()
		m := obj{"jsonrpc": "2.0", "id": id, "method": method}
		if params != nil || g.Bool() {
			m["params"] = params
		}
		if method == "textDocument/formatting" && longest > 60000 {
			judge = "" // tealfmt cannot read such a line
		}
		if shut {
			judge = "error"
		}
		exp = append(exp, expReq{jsonOf(id), method, judge})
		put(jsonOf(m))
		kinds[method] = true
	}
	n := g.Range(1, 14)
	for i := 0; i < n && !ended; i++ {
		uri := pick(g, uris)
		switch g.Weighted(3, 5, 3, 2, 2, 2, 2, 1, 2, 1, 1, 1) {
		case 0:
			text := ""
			if g.Bool() {
				text = genDoc(g)
				if g.Chance(1, 2500) {
					text = hugeDoc(g)
				}
			}
			put(jsonOf(obj{"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": obj{"textDocument": obj{"uri": uri, "text": text, "version": 1, "languageId": "teal"}}}))
			docs[uri] = true
		case 1:
			m := pick(g, lspQueries)
			judge := "error"
			if docs[uri] || m == "textDocument/diagnostic" {
				judge = "result"
			}
			request(m, queryParams(g, uri, nil), judge)
		case 2:
			m := pick(g, lspQueries)
			request(m, spoil(g, queryParams(g, uri, nil)), "")
			kinds["spoiled"] = true
		case 3:
			judge := "error"
			if docs[uri] {
				judge = "result"
			}
			if g.Chance(1, 4) {
				request("workspace/executeCommand", spoil(g, commandParams(g, uri)), "")
			} else {
				request("workspace/executeCommand", commandParams(g, uri), judge)
			}
		case 4:
			request(pick(g, []string{"foo/bar", "textDocument/nope", "$/x", "textDocument/willSaveWaitUntil", "TEXTDOCUMENT/HOVER"}), obj{}, "error")
		case 5: // notifications, known and unknown, also damaged
			m := pick(g, []string{"initialized", "$/cancelRequest", "$/setTrace", "textDocument/didSave", "textDocument/didChange", "textDocument/didOpen", "workspace/didChangeConfiguration", "foo"})
			ps := pick(g, badValues)
			if m == "$/cancelRequest" && g.Bool() { // of an earlier or a later request
				ps = obj{"id": pick(g, []any{nid, nid + 1, fmt.Sprintf("s%d", nid+1), "", 0})}
			}
			put(jsonOf(obj{"jsonrpc": "2.0", "method": m, "params": ps}))
			kinds["odd-notification"] = true
		case 6:
			put(pick(g, []string{"{", "", "null", "[]", "1", "\"x\"", "{\"jsonrpc\":", "{\"jsonrpc\":\"2.0\",\"method\":5,\"id\":1}", "\xff\xfe", "{}", "[{\"jsonrpc\":\"2.0\"}]", "{\"id\":{}}", "not json at all"}))
			kinds["malformed"] = true
		case 7: // the client's answers to server requests
			put(pick(g, []string{`{"jsonrpc":"2.0","id":"1","result":{"applied":true}}`, `{"jsonrpc":"2.0","id":"1","result":null}`, `{"jsonrpc":"2.0","id":"7","error":{"code":1,"message":"x"}}`}))
		case 8:
			chs := []any{obj{"text": genDoc(g)}}
			if g.Chance(1, 3) { // none, several, odd ones among them
				chs = []any{}
				for k := g.Intn(5); k > 0; k-- {
					var ch any = obj{"text": genDoc(g)}
					if g.Chance(1, 4) {
						ch = pick(g, []any{nil, obj{}, obj{"text": ""}, obj{"text": nil}, obj{"text": 5}, 1, "x", obj{"range": obj{"start": obj{"line": 0, "character": 0}, "end": obj{"line": 9, "character": 9}}, "text": "int 1"}})
					}
					chs = append(chs, ch)
				}
				kinds["several-changes"] = true
			}
			put(jsonOf(obj{"jsonrpc": "2.0", "method": "textDocument/didChange", "params": obj{"textDocument": obj{"uri": uri, "version": 2}, "contentChanges": chs}}))
		case 9:
			put(jsonOf(obj{"jsonrpc": "2.0", "method": "textDocument/didClose", "params": obj{"textDocument": obj{"uri": uri}}}))
			if !shut {
				delete(docs, uri)
			}
		case 10:
			request("initialize", pick(g, []any{obj{}, obj{"capabilities": obj{}}, obj{"initializationOptions": obj{"semanticTokens": false, "inlayNamed": g.Bool(), "lensRefs": false}}}), "result")
		default:
			if g.Bool() {
				was := shut
				request("shutdown", nil, "result")
				if was {
					exp[len(exp)-1].judge = ""
				}
				shut = true
			} else {
				put(`{"jsonrpc":"2.0","method":"exit"}`)
				ended = true
				wantCode = 0
				if !shut {
					wantCode = 1
				}
				if g.Bool() {
					put(`{"jsonrpc":"2.0","id":"late","method":"textDocument/diagnostic","params":{"textDocument":{"uri":"x"}}}`)
				}
			}
		}
	}
	var sizes []int
	if g.Bool() {
		for k := g.Range(1, 4); k > 0; k-- {
			sizes = append(sizes, g.Range(1, 40))
		}
	}
	c.Input("%s", strings.Join(log, "\n"))
	s := &lspScript{}
	s.in = in
	if g.Bool() { // a client that waits for each answer
		s.ends = ends
		s.more = func(i int, out []byte) {
			msgs, bad := parseFrames(out)
			if bad != "" {
				c.Fail("lsp-framing", "%s", bad)
			}
			n := 0
			for _, m := range msgs {
				if m.Method == "" && m.Id != nil {
					n++
				}
			}
			if n < given[i] {
				c.Fail("late-answer", "the server waits for more input, %d of %d requests are answered", n, given[i])
			}
		}
		kinds["one-by-one"] = true
	}
	o := s.run(c, sizes...)
	var got []lspMsg
	srvIDs := map[string]bool{}
	for _, m := range o.Msgs {
		if m.Method != "" {
			if m.HasId {
				id := jsonOf(m.Id)
				if srvIDs[id] {
					c.Fail("server-id", "the server used the id %s for two requests", id)
				}
				srvIDs[id] = true
			}
			continue
		}
		if !m.HasId {
			c.Fail("no-id", "a response without id: %s", m.Raw)
		}
		if m.Id == nil {
			continue // the answer to an unreadable message
		}
		if m.HasRes == m.HasErr {
			c.Fail("result-xor-error", "a response needs either a result or an error: %s", clip(m.Raw, 200))
		}
		if m.HasErr {
			var e struct {
				Code    *int    `json:"code"`
				Message *string `json:"message"`
			}
			if json.Unmarshal(m.Error, &e) != nil || e.Code == nil || e.Message == nil {
				c.Fail("error-shape", "an error needs a code and a message: %s", m.Error)
			}
		}
		got = append(got, m)
	}
	if len(got) != len(exp) {
		var gs, ws []string
		for _, m := range got {
			gs = append(gs, jsonOf(m.Id))
		}
		for _, e := range exp {
			ws = append(ws, e.id)
		}
		c.Fail("responses", "%d requests, %d responses:\n%s", len(exp), len(got), diffLists(gs, ws))
	}
	for i, e := range exp {
		m := got[i]
		if !sameID(m.RawId, e.id) {
			c.Fail("response-id", "response %d has id %s, the request (%s) had %s", i, m.RawId, e.what, e.id)
		}
		if e.judge == "result" && m.HasErr {
			c.Fail("unexpected-error", "%s failed: %s", e.what, m.Error)
		}
		if e.judge == "error" && !m.HasErr {
			c.Fail("missing-error", "%s (id %s) should fail, result: %s", e.what, e.id, clip(string(m.Result), 100))
		}
	}
	if wantCode >= 0 && o.Code != wantCode {
		c.Fail("exit-code", "exit code %d, want %d", o.Code, wantCode)
	}
	if len(exp) >= 2 && len(kinds) >= 2 {
		c.Nontrivial(strings.Join(log, "\n"))
	}
	for k := range kinds {
		c.Class(k)
	}
}

// failReader delivers its data, then fails for ever.
type failReader struct {
	b   []byte
	err error
	n   int
}

func (r *failReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		r.n++
		if r.n > 10000 {
			panic(failure{"read-spin", "the server keeps reading from a failed connection"})
		}
		return 0, r.err
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

// the connection ends at any byte, with an end of file or a failure
func p14end(g *G, c *Ctx) {
	s := &lspScript{}
	s.open(docURI, genDoc(g))
	id := s.request("textDocument/diagnostic", obj{"textDocument": obj{"uri": docURI}})
	full := s.in.Len()
	switch g.Intn(4) {
	case 0:
		s.in.WriteString(fmt.Sprintf("Content-Length: %s\r\n\r\n{}", pick(g, []string{"-1", "99999999999999999999", "9223372036854775807", "4611686018427387904", "1000000000000", "x", "", "1e3", "0x10", "+2"})))
	case 1:
		s.in.WriteString(pick(g, []string{"\r\n", "\r\n\r\n", "garbage\r\n\r\n", "Content-Length 5\r\n\r\n", ": x\r\n\r\n", "\n\n\n", "Foo: bar\r\n\r\n"}))
	}
	s.request("textDocument/documentSymbol", obj{"textDocument": obj{"uri": docURI}})
	b := s.in.Bytes()
	cut := len(b)
	if g.Bool() {
		cut = g.Intn(len(b) + 1)
	}
	ioerr := pick(g, []error{io.EOF, io.EOF, errors.New("connection reset"), io.ErrClosedPipe, io.ErrUnexpectedEOF})
	c.Input("%q then %v", clip(string(b[:cut]), 400), ioerr)
	var out bytes.Buffer
	l, err := lsp.New(&failReader{b: b[:cut], err: ioerr}, &out)
	if err != nil {
		c.Fail("lsp-new", "%v", err)
	}
	t := time.Now()
	l.Run()
	_ = t
	msgs, ferr := parseFrames(out.Bytes())
	if ferr != "" {
		c.Fail("lsp-framing", "%s", ferr)
	}
	if cut >= full {
		n := 0
		for _, m := range msgs {
			if f, ok := m.Id.(float64); ok && int(f) == id {
				n++
			}
		}
		if n != 1 {
			c.Fail("lost-response", "the complete first request got %d responses", n)
		}
	}
	c.Nontrivial(string(b[:cut]) + ioerr.Error())
}

// nearURIs are sets of URIs of different documents.
var nearURIs = [][]string{
	{"file:///a.teal", "file:///A.teal", "file:///a.TEAL", "FILE:///b.teal"},
	{"file:///x/a.teal", "file:///y/a.teal", "file:///a.teal", "file:///x/a"},
	{"untitled:Untitled-1", "untitled:Untitled-2", "file:///Untitled-1", "git:/a.teal?1"},
	{"file:///a.teal?1", "file:///a.teal?2", "file:///a.teal#1", "file:///a.teal"},
	{"file:///d/a%20b.teal", "file:///d/a%2520b.teal", "file:///d/a_b.teal", "file:///d/ab.teal"},
	{"file:///a.teal ", "file:///a.teal", "file:///a.tea", "file:///a.teall"},
}

// ---- P15 history independence ----------------------------------------------------

// normal makes answers comparable: completion lists are sets.
func normalAnswer(method string, m lspMsg) string {
	if m.HasErr {
		return "error"
	}
	if method == "textDocument/completion" {
		var items []json.RawMessage
		if json.Unmarshal(m.Result, &items) == nil {
			var ss []string
			for _, x := range items {
				ss = append(ss, string(x))
			}
			sort.Strings(ss)
			return strings.Join(ss, "\n")
		}
	}
	return string(m.Result)
}

func applyParams(o lspOut, after int) string {
	var r []string
	for _, m := range o.Msgs {
		if m.Method == "workspace/applyEdit" {
			r = append(r, string(m.Params))
		}
	}
	return strings.Join(r, "\n")
}

func p15(g *G, c *Ctx) { p15run(g, c, false) }

// p15tool: the same with one process for the history and one for every fresh
// server, so that nothing kept in the process is shared.
func p15tool(g *G, c *Ctx) { p15run(g, c, true) }

// genHistoryDoc: documents of all versions with values to ask for.
func genHistoryDoc(g *G) string {
	if g.Bool() {
		return genHelpDoc(g)
	}
	return genDoc(g)
}

// sameID compares two JSON values, numbers by their exact value.
func sameID(a, b string) bool {
	if a == b {
		return true
	}
	if a == "" || b == "" || a[0] == '"' || b[0] == '"' {
		var x, y any
		return json.Unmarshal([]byte(a), &x) == nil && json.Unmarshal([]byte(b), &y) == nil && x == y
	}
	x, ok1 := new(big.Rat).SetString(a)
	y, ok2 := new(big.Rat).SetString(b)
	return ok1 && ok2 && x.Cmp(y) == 0
}

// genEdit is a small change of the text.
func genEdit(g *G, t string) string {
	blank := []string{"\n", " ", "\t", "\n\n", "  ", "\r\n"}
	if t == "" {
		return pick(g, blank) + "int 1"
	}
	switch g.Intn(10) {
	case 8, 9: // the same program in another version
		if i := strings.Index(t, "#pragma version "); i >= 0 {
			i += len("#pragma version ")
			j := i
			for j < len(t) && t[j] >= '0' && t[j] <= '9' {
				j++
			}
			return t[:i] + fmt.Sprint(g.Range(1, 9)) + t[j:]
		}
		return fmt.Sprintf("#pragma version %d\n", g.Range(1, 9)) + t
	case 0:
		return pick(g, blank) + t
	case 1:
		return t + pick(g, blank)
	case 2:
		return strings.TrimLeft(t, " \t\r\n")
	case 3:
		return strings.TrimRight(t, " \t\r\n")
	case 4: // lines swapped, repeated or removed
		ls := strings.SplitAfter(t, "\n")
		i, j := g.Intn(len(ls)), g.Intn(len(ls))
		switch g.Intn(3) {
		case 0:
			ls[i], ls[j] = ls[j], ls[i]
		case 1:
			ls[i] = ls[j]
		default:
			ls[i] = ""
		}
		return strings.Join(ls, "")
	case 5: // case, digits: the length stays
		i := g.Intn(len(t))
		b := []byte(t)
		switch {
		case b[i] >= 'a' && b[i] <= 'z':
			b[i] = byte('a' + g.Intn(26))
		case b[i] >= '0' && b[i] <= '9':
			b[i] = byte('0' + g.Intn(10))
		case b[i] == ' ':
			b[i] = '\t'
		}
		return string(b)
	case 6:
		i := g.Intn(len(t))
		return strings.ToValidUTF8(t[:i]+t[i+1:], "?")
	default:
		i := g.Intn(len(t) + 1)
		return strings.ToValidUTF8(t[:i]+pick(g, []string{"\n", "x", " ", "int 1\n", ":", "\"", "//", ";", "1"})+t[i:], "?")
	}
}

// p15pair: everything is asked about one document and then about a document
// much like it; the second answers are those of a new process that only ever
// saw the second document.
func p15pair(g *G, c *Ctx) {
	bin := os.Getenv("TV_BIN")
	if bin == "" {
		c.Discard()
	}
	a := genHelpDoc(g)
	b := a
	for k := g.Range(1, 3); k > 0; k-- {
		b = genEdit(g, b)
	}
	if g.Chance(1, 4) {
		b = genHelpDoc(g)
	}
	ask := func(s *lspScript, uri, src string) (ids []int, ms []string) {
		p := refAnalyze(src)
		rg := mkRange(0, 0, len(p.Lines), 0)
		q := func(m string, l, ch int) {
			ps := obj{"textDocument": obj{"uri": uri}, "position": obj{"line": l, "character": ch}, "range": rg.obj(),
				"newName": "zz", "context": obj{"diagnostics": []any{}}, "options": obj{"tabSize": 4, "insertSpaces": true}}
			ids = append(ids, s.request(m, ps))
			ms = append(ms, m)
		}
		for _, m := range []string{"codeLens", "inlayHint", "formatting", "codeAction", "diagnostic", "documentSymbol", "semanticTokens/full"} {
			q("textDocument/"+m, 0, 0)
		}
		for li, l := range p.Lines {
			q("textDocument/completion", li, u16len(l.Text))
			for _, t := range l.Toks {
				for _, m := range []string{"completion", "hover", "signatureHelp", "definition", "documentHighlight", "prepareRename", "rename"} {
					q("textDocument/"+m, li, t.B)
				}
			}
		}
		return
	}
	run := func(s *lspScript) lspOut {
		cmd := exec.Command(filepath.Join(bin, "tealsp"))
		cmd.Dir = os.TempDir()
		var so, se bytes.Buffer
		cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(s.in.Bytes()), &so, &se
		toolDo(c, cmd)
		ms, bad := parseFrames(so.Bytes())
		if bad != "" {
			c.Fail("lsp-framing", "%s", bad)
		}
		return lspOut{Msgs: ms}
	}
	h, f := &lspScript{}, &lspScript{}
	uri := "file:///a.teal"
	h.open(uri, a)
	ask(h, uri, a)
	how := g.Intn(3)
	switch how {
	case 0:
		h.change(uri, b)
	case 1:
		h.close(uri)
		h.open(uri, b)
	default:
		uri = "file:///b.teal"
		h.open(uri, b)
	}
	c.Input("everything about %s, then (%d) about %s", show(a), how, show(b))
	hi, ms := ask(h, uri, b)
	f.open(uri, b)
	fi, _ := ask(f, uri, b)
	ho, fo := run(h), run(f)
	find := func(o lspOut) map[int]lspMsg {
		x := map[int]lspMsg{}
		for _, m := range o.Msgs {
			if id, ok := m.Id.(float64); ok && m.Method == "" {
				x[int(id)] = m
			}
		}
		return x
	}
	hm, fm := find(ho), find(fo)
	for i, m := range ms {
		x, ok1 := hm[hi[i]]
		y, ok2 := fm[fi[i]]
		if !ok1 || !ok2 {
			c.Fail("lsp-no-response", "no response to %s", m)
		}
		if p, q := normalAnswer(m, x), normalAnswer(m, y); p != q {
			c.Fail("pair:"+m, "%s answers\n%s\nafter the other document, and\n%s\nin a new process", m, clip(p, 800), clip(q, 800))
		}
	}
	if a != b {
		c.Nontrivial(a + "\x00" + b)
	}
}

func p15run(g *G, c *Ctx, tool bool) {
	bin := os.Getenv("TV_BIN")
	if tool && bin == "" {
		c.Discard()
	}
	run := func(s *lspScript) lspOut {
		if !tool {
			return s.run(c)
		}
		cmd := exec.Command(filepath.Join(bin, "tealsp"))
		cmd.Dir = os.TempDir()
		var so, se bytes.Buffer
		cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(s.in.Bytes()), &so, &se
		toolDo(c, cmd)
		ms, bad := parseFrames(so.Bytes())
		if bad != "" {
			c.Fail("lsp-framing", "%s", bad)
		}
		return lspOut{Msgs: ms}
	}
	uris := []string{"file:///a.teal", "file:///b.teal", "file:///c.teal"}
	if g.Chance(1, 4) {
		uris = pick(g, nearURIs)[:3]
	}
	docs := map[string]string{}
	isOpen := map[string]bool{}
	s := &lspScript{}
	var log []string
	type query struct {
		id     int
		method string
		params obj
		uri    string
		text   string
		open   bool
	}
	var qs []query
	var initOpts obj
	if g.Chance(1, 3) {
		initOpts = obj{"initializationOptions": obj{"inlayNamed": g.Bool(), "inlayDecoded": g.Bool(), "lensRefs": g.Bool()}}
		s.request("initialize", initOpts)
	}
	muts := 0
	n := g.Range(2, 14)
	for i := 0; i < n; i++ {
		uri := pick(g, uris[:g.Range(1, 3)])
		switch g.Weighted(3, 4, 1, 6, 1, 1) {
		case 0:
			t := genHistoryDoc(g)
			if o := docs[pick(g, uris)]; o != "" && g.Chance(1, 2) { // much like another document
				t = genEdit(g, o)
			}
			if g.Chance(1, 20) {
				t = pick(g, []string{"", "\n", " "})
			}
			s.open(uri, t)
			docs[uri], isOpen[uri] = t, true
			log = append(log, fmt.Sprintf("open %s %q", uri, t))
			muts++
		case 1:
			k := 1
			if g.Chance(1, 4) {
				k = g.Intn(3)
				if g.Chance(1, 3) {
					k = g.Range(3, 7)
				}
			}
			var chs []obj
			t := docs[uri]
			for ; k > 0; k-- {
				if g.Bool() || t == "" {
					t = genHistoryDoc(g)
				} else {
					t = genEdit(g, t)
				}
				if g.Chance(1, 10) { // hardly any text
					t = pick(g, []string{"", "", "\n", " ", "//", ":", "\"", "a:"})
				}
				chs = append(chs, obj{"text": t})
			}
			s.notify("textDocument/didChange", obj{"textDocument": obj{"uri": uri, "version": i}, "contentChanges": chs})
			log = append(log, fmt.Sprintf("change %s %s", uri, jsonOf(chs)))
			if isOpen[uri] {
				docs[uri] = t
			}
			muts++
		case 2:
			s.close(uri)
			delete(docs, uri)
			isOpen[uri] = false
			log = append(log, "close "+uri)
			muts++
		case 3:
			var p *rProg
			if isOpen[uri] {
				p = refAnalyze(docs[uri])
			}
			m := pick(g, lspQueries)
			params := queryParams(g, uri, p)
			if p != nil && g.Chance(1, 3) { // what is offered for a value
				m = "textDocument/completion"
				var ts []rTok
				for _, l := range p.Lines {
					if len(l.Toks) > 1 {
						ts = append(ts, l.Toks[1:]...)
					}
				}
				if len(ts) > 0 {
					t := pick(g, ts)
					params["position"] = obj{"line": t.Line, "character": t.B}
				}
			}
			if len(qs) > 0 && g.Chance(1, 4) { // again what was asked before
				q := qs[len(qs)-1]
				m, params = q.method, q.params
				if u := q.uri; u != uri {
					params = clone(params)
					params["textDocument"] = obj{"uri": uri}
				}
			}
			if m == "workspace/executeCommand" || g.Chance(1, 8) {
				m = "workspace/executeCommand"
				params = commandParams(g, uri)
			}
			id := s.request(m, params)
			qs = append(qs, query{id, m, params, uri, docs[uri], isOpen[uri]})
			log = append(log, fmt.Sprintf("%s %s", m, uri))
		case 4:
			s.notify("textDocument/didSave", obj{"textDocument": obj{"uri": uri}})
		default:
			s.request("workspace/executeCommand", commandParams(g, uri))
			log = append(log, "command on "+uri)
		}
	}
	c.Input("%s", strings.Join(log, "\n"))
	o := run(s)
	judged := 0
	for _, q := range qs {
		f := &lspScript{}
		if initOpts != nil {
			f.request("initialize", initOpts)
		}
		if q.open {
			f.open(q.uri, q.text)
		}
		id := f.request(q.method, q.params)
		fo := run(f)
		a, b := o.answer(c, q.id), fo.answer(c, id)
		if x, y := normalAnswer(q.method, a), normalAnswer(q.method, b); x != y {
			c.Fail("history:"+q.method, "%s for %s (text %q) answers\n%s\nafter this history, and\n%s\non a fresh server", q.method, q.uri, q.text, clip(x, 800), clip(y, 800))
		}
		if q.method == "workspace/executeCommand" && !a.HasErr {
			want := applyParams(fo, 0)
			found := false
			for _, m := range o.Msgs {
				found = found || m.Method == "workspace/applyEdit" && string(m.Params) == want
			}
			if !found {
				c.Fail("history-command", "the command asks for another edit than on a fresh server, %s", want)
			}
		}
		if q.open {
			judged++
		}
	}
	if judged > 0 && muts >= 2 {
		c.Nontrivial(strings.Join(log, "\n"))
	}
	if judged > 2 {
		c.Class("three-or-more-queries")
	}
}

func init() {
	register(&Check{
		ID:   "P14",
		Rule: "a session is non-trivial when it has at least two requests of at least two kinds; a cut connection always is; distinct by the messages sent",
		Subs: []Sub{
			{Name: "session", Fn: p14, Quick: 30000, Thorough: 600000},
			{Name: "end-of-input", Fn: p14end, Quick: 10000, Thorough: 200000},
		},
	})
	register(&Check{
		ID:   "P15",
		Rule: "a history is non-trivial when it opens, changes or closes documents at least twice and queries an open document; distinct by history",
		Subs: []Sub{
			{Name: "history", Fn: p15, Quick: 40000, Thorough: 300000},
			{Name: "processes", Fn: p15tool, Quick: 2500, Thorough: 40000},
			{Name: "pairs", Fn: p15pair, Quick: 4000, Thorough: 100000},
			{Name: "many", Fn: p15many, Quick: 600, Thorough: 20000},
		},
	})
}
