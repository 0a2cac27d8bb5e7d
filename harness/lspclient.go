package main

// An in-process language server session: a script of messages in, the parsed
// messages out. Framing of the output is checked strictly.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/dragmz/teal/lsp"
)

type obj = map[string]any

type lspMsg struct {
	RawId  string // as written
	Raw    string
	Id     any
	HasId  bool
	Method string
	Result json.RawMessage
	HasRes bool
	Error  json.RawMessage
	HasErr bool
	Params json.RawMessage
}

type lspScript struct {
	in  bytes.Buffer
	id  int
	ids []any
	// with ends, the server gets one message at a time and more judges its
	// output whenever it asks for what follows message i
	ends []int
	more func(i int, out []byte)
}

func frame(body []byte) []byte {
	return append([]byte("Content-Length: "+strconv.Itoa(len(body))+"\r\n\r\n"), body...)
}

func (s *lspScript) raw(body []byte) { s.in.Write(frame(body)) }

func (s *lspScript) send(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	s.raw(b)
}

func (s *lspScript) notify(method string, params any) {
	s.send(obj{"jsonrpc": "2.0", "method": method, "params": params})
}

// request returns the id of the request.
func (s *lspScript) request(method string, params any) int {
	s.id++
	s.ids = append(s.ids, s.id)
	s.send(obj{"jsonrpc": "2.0", "id": s.id, "method": method, "params": params})
	return s.id
}

func (s *lspScript) open(uri, text string) {
	s.notify("textDocument/didOpen", obj{"textDocument": obj{"uri": uri, "text": text, "version": 1, "languageId": "teal"}})
}

func (s *lspScript) change(uri, text string) {
	s.notify("textDocument/didChange", obj{"textDocument": obj{"uri": uri, "version": 2}, "contentChanges": []obj{{"text": text}}})
}

func (s *lspScript) close(uri string) {
	s.notify("textDocument/didClose", obj{"textDocument": obj{"uri": uri}})
}

// chunked delivers the input in pieces of the given sizes.
type chunked struct {
	b     []byte
	sizes []int
	i     int
	ends  []int         // ends of messages: what follows is there only when asked for
	more  func(msg int) // called when the reader asks for what follows a message
	at    int
	fail  any
}

func (r *chunked) Read(p []byte) (int, error) {
	if r.fail != nil {
		return 0, io.EOF
	}
	for len(r.ends) > 0 && r.at == r.ends[0] {
		func() {
			defer func() { r.fail = recover() }()
			r.more(r.i)
		}()
		if r.fail != nil {
			return 0, io.EOF
		}
		r.i++
		r.ends = r.ends[1:]
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := len(r.b)
	if len(r.ends) > 0 {
		n = r.ends[0] - r.at
		if n > len(p) {
			n = len(p)
		}
		copy(p, r.b[:n])
		r.b = r.b[n:]
		r.at += n
		return n, nil
	}
	if len(r.sizes) > 0 {
		n = r.sizes[r.i%len(r.sizes)]
		r.i++
	}
	if n > len(r.b) {
		n = len(r.b)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

type lspOut struct {
	Msgs []lspMsg
	Code int
}

// run executes the script on a new server.
func (s *lspScript) run(c *Ctx, sizes ...int) lspOut {
	var out bytes.Buffer
	r := &chunked{b: s.in.Bytes(), sizes: sizes, ends: s.ends}
	if s.more != nil {
		r.more = func(i int) { s.more(i, out.Bytes()) }
	}
	l, err := lsp.New(r, &out)
	if err != nil {
		c.Fail("lsp-new", "the server does not start: %v", err)
	}
	code, err := l.Run()
	if r.fail != nil {
		panic(r.fail)
	}
	if err != nil {
		c.Fail("lsp-run", "the server ended with an error: %v", err)
	}
	msgs, ferr := parseFrames(out.Bytes())
	if ferr != "" {
		c.Fail("lsp-framing", "%s", ferr)
	}
	return lspOut{Msgs: msgs, Code: code}
}

func parseFrames(b []byte) ([]lspMsg, string) {
	var msgs []lspMsg
	for len(b) > 0 {
		h := bytes.Index(b, []byte("\r\n\r\n"))
		if h < 0 {
			return nil, fmt.Sprintf("output without a header end: %q", clip(string(b), 80))
		}
		n := -1
		for _, ln := range strings.Split(string(b[:h]), "\r\n") {
			k, v, ok := strings.Cut(ln, ":")
			if !ok {
				return nil, fmt.Sprintf("bad output header line %q", ln)
			}
			if strings.EqualFold(strings.TrimSpace(k), "Content-Length") {
				x, err := strconv.Atoi(strings.TrimSpace(v))
				if err != nil {
					return nil, fmt.Sprintf("bad content length %q", v)
				}
				n = x
			}
		}
		b = b[h+4:]
		if n < 0 || n > len(b) {
			return nil, fmt.Sprintf("content length %d, %d bytes follow", n, len(b))
		}
		body := b[:n]
		b = b[n:]
		var m map[string]json.RawMessage
		if err := json.Unmarshal(body, &m); err != nil {
			return nil, fmt.Sprintf("output message is not a JSON object: %q", clip(string(body), 200))
		}
		x := lspMsg{Raw: string(body)}
		var ver string
		json.Unmarshal(m["jsonrpc"], &ver)
		if ver != "2.0" {
			return nil, fmt.Sprintf("output message without jsonrpc 2.0: %q", clip(string(body), 200))
		}
		if v, ok := m["id"]; ok {
			x.HasId = true
			json.Unmarshal(v, &x.Id)
			x.RawId = strings.TrimSpace(string(v))
		}
		json.Unmarshal(m["method"], &x.Method)
		x.Result, x.HasRes = m["result"]
		x.Error, x.HasErr = m["error"]
		x.Params = m["params"]
		msgs = append(msgs, x)
	}
	return msgs, ""
}

// answer returns the response with the numeric id.
func (o lspOut) answer(c *Ctx, id int) lspMsg {
	var r *lspMsg
	for i := range o.Msgs {
		m := &o.Msgs[i]
		if m.Method == "" && m.HasId {
			if f, ok := m.Id.(float64); ok && int(f) == id {
				if r != nil {
					c.Fail("lsp-two-responses", "two responses to request %d", id)
				}
				r = m
			}
		}
	}
	if r == nil {
		c.Fail("lsp-no-response", "no response to request %d", id)
	}
	return *r
}

// result decodes the result of a request that must succeed.
func (o lspOut) result(c *Ctx, id int, v any) {
	m := o.answer(c, id)
	if m.HasErr {
		c.Fail("lsp-error", "request %d failed: %s", id, m.Error)
	}
	if err := json.Unmarshal(m.Result, v); err != nil {
		c.Fail("lsp-result", "the result of request %d has an unexpected shape: %v: %s", id, err, clip(string(m.Result), 300))
	}
}

type jPos struct {
	Line      int `json:"line"`
	Character int `json:"character"`
}

type jRange struct {
	Start jPos `json:"start"`
	End   jPos `json:"end"`
}

func mkRange(l, b, l2, e int) jRange { return jRange{jPos{l, b}, jPos{l2, e}} }

func (r jRange) String() string {
	return fmt.Sprintf("%d:%d-%d:%d", r.Start.Line, r.Start.Character, r.End.Line, r.End.Character)
}

func (r jRange) obj() obj {
	return obj{"start": obj{"line": r.Start.Line, "character": r.Start.Character}, "end": obj{"line": r.End.Line, "character": r.End.Character}}
}

type jEdit struct {
	Range   jRange `json:"range"`
	NewText string `json:"newText"`
}

func (e jEdit) String() string { return fmt.Sprintf("%s=%q", e.Range, e.NewText) }

type jAction struct {
	Title   string `json:"title"`
	Kind    string `json:"kind"`
	Command *struct {
		Title     string            `json:"title"`
		Command   string            `json:"command"`
		Arguments []json.RawMessage `json:"arguments"`
	} `json:"command"`
}

type jApply struct {
	Edit struct {
		DocumentChanges []struct {
			TextDocument struct {
				Uri string `json:"uri"`
			} `json:"textDocument"`
			Edits []jEdit `json:"edits"`
		} `json:"documentChanges"`
		Changes map[string][]jEdit `json:"changes"`
	} `json:"edit"`
}

// docOffset is the byte offset of a position; like editors do, it clamps
// positions beyond a line or the document.
func docOffset(src string, lines []rLine, p jPos) int {
	if p.Line < 0 {
		return 0
	}
	if p.Line >= len(lines) {
		return len(src)
	}
	off := 0
	for i := 0; i < p.Line; i++ {
		off += len(lines[i].Text) + len(lines[i].EOL)
	}
	t := lines[p.Line].Text
	n := p.Character
	if m := u16len(t); n > m {
		n = m
	}
	b, ok := u16off(t, n)
	if !ok {
		b, _ = u16off(t, n-1)
	}
	return off + b
}

// applyEdits applies non-overlapping edits.
func applyEdits(c *Ctx, src string, edits []jEdit) string {
	lines := splitPhysical(src)
	type e struct {
		b, e int
		s    string
	}
	var es []e
	for _, x := range edits {
		es = append(es, e{docOffset(src, lines, x.Range.Start), docOffset(src, lines, x.Range.End), x.NewText})
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].b < es[j].b })
	var out strings.Builder
	p := 0
	for _, x := range es {
		if x.b < p || x.e < x.b {
			c.Fail("edits-overlap", "the edits overlap: %v", edits)
		}
		out.WriteString(src[p:x.b])
		out.WriteString(x.s)
		p = x.e
	}
	out.WriteString(src[p:])
	return out.String()
}

func tdPos(uri string, l, ch int) obj {
	return obj{"textDocument": obj{"uri": uri}, "position": obj{"line": l, "character": ch}}
}

// commandEdits executes a command on a fresh server that holds the document
// and returns the edit it asks the client to apply.
func commandEdits(c *Ctx, uri, src, command string, args []any) []jEdit {
	s := &lspScript{}
	s.open(uri, src)
	id := s.request("workspace/executeCommand", obj{"command": command, "arguments": args})
	o := s.run(c)
	m := o.answer(c, id)
	if m.HasErr {
		c.Fail("command-failed", "%s failed: %s", command, m.Error)
	}
	var es []jEdit
	n := 0
	for _, m := range o.Msgs {
		if m.Method != "workspace/applyEdit" {
			continue
		}
		n++
		var a jApply
		if err := json.Unmarshal(m.Params, &a); err != nil {
			c.Fail("apply-shape", "applyEdit has an unexpected shape: %v", err)
		}
		for _, d := range a.Edit.DocumentChanges {
			if d.TextDocument.Uri != uri {
				c.Fail("apply-uri", "the edit is for %q", d.TextDocument.Uri)
			}
			es = append(es, d.Edits...)
		}
		for u, e := range a.Edit.Changes {
			if u != uri {
				c.Fail("apply-uri", "the edit is for %q", u)
			}
			es = append(es, e...)
		}
	}
	if n != 1 {
		c.Fail("apply-count", "%s sent %d edits", command, n)
	}
	return es
}
