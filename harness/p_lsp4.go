package main

// P29: what the language server announces, its options, and the tealsp tool.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/dragmz/teal/dbg"
)

// announced methods and the provider that announces each
var lspProviders = map[string]string{
	"textDocument/rename":              "renameProvider",
	"textDocument/inlineValue":         "inlineValueProvider",
	"textDocument/codeLens":            "codeLensProvider",
	"textDocument/inlayHint":           "inlayHintProvider",
	"textDocument/completion":          "completionProvider",
	"textDocument/hover":               "hoverProvider",
	"textDocument/definition":          "definitionProvider",
	"textDocument/formatting":          "documentFormattingProvider",
	"textDocument/signatureHelp":       "signatureHelpProvider",
	"textDocument/codeAction":          "codeActionProvider",
	"textDocument/diagnostic":          "diagnosticProvider",
	"textDocument/documentHighlight":   "documentHighlightProvider",
	"textDocument/documentSymbol":      "documentSymbolProvider",
	"textDocument/semanticTokens/full": "semanticTokensProvider",
}

func p29(g *G, c *Ctx) {
	src := genDoc(g)
	if g.Bool() {
		src = strings.ToValidUTF8(genValueDoc(g), "?")
	}
	p := refAnalyze(src)
	opts := obj{}
	on := map[string]bool{}
	for _, k := range []string{"semanticTokens", "inlayNamed", "inlayDecoded", "lensRefs"} {
		on[k] = true
		switch g.Intn(3) {
		case 1:
			opts[k] = true
		case 2:
			opts[k], on[k] = false, false
		}
	}
	params := obj{"capabilities": obj{}, "processId": nil, "rootUri": nil}
	if len(opts) > 0 || g.Bool() {
		params["initializationOptions"] = opts
	}
	if g.Chance(1, 3) {
		opts["unknown"] = pick(g, badValues)
	}
	s, t := &lspScript{}, &lspScript{}
	idI := s.request("initialize", params)
	t.request("initialize", obj{})
	for _, x := range []*lspScript{s, t} {
		x.notify("initialized", obj{})
		x.open(docURI, src)
	}
	type q struct {
		m  string
		id int
	}
	var qs []q
	params29 := map[string]obj{}
	for _, m := range lspQueries {
		pr := queryParams(g, docURI, p)
		if m == "textDocument/inlayHint" && g.Chance(2, 3) {
			pr["range"] = mkRange(0, 0, 100, 0).obj()
		}
		params29[m] = pr
		qs = append(qs, q{m, s.request(m, pr)})
		t.request(m, pr)
	}
	all := queryParams(g, docURI, nil)
	idA := s.request("textDocument/codeAction", all)
	c.Input("initialize %s with %s", jsonOf(params), show(src))
	o, d := s.run(c), t.run(c)

	var r struct {
		Capabilities map[string]json.RawMessage `json:"capabilities"`
	}
	o.result(c, idI, &r)
	caps := r.Capabilities
	var sync struct {
		Change int `json:"change"`
	}
	if v := string(caps["textDocumentSync"]); v != "1" {
		if json.Unmarshal(caps["textDocumentSync"], &sync) != nil || sync.Change != 1 {
			c.Fail("cap-sync", "text synchronisation announced as %s, whole texts are what is read", v)
		}
	}
	has := func(k string) bool {
		v := strings.TrimSpace(string(caps[k]))
		return v != "" && v != "null" && v != "false"
	}
	for _, x := range qs {
		k, ok := lspProviders[x.m]
		if !ok {
			continue
		}
		want := true
		switch k {
		case "semanticTokensProvider":
			want = on["semanticTokens"]
		case "inlayHintProvider":
			want = on["inlayNamed"] || on["inlayDecoded"]
		}
		if has(k) != want {
			c.Fail("cap-announced", "%s announced as %q with options %s", k, caps[k], jsonOf(opts))
		}
		m := o.answer(c, x.id)
		if has(k) && m.HasErr && x.m != "textDocument/formatting" {
			c.Fail("cap-served", "%s is announced, but %s fails: %s", k, x.m, m.Error)
		}
		// an option changes only its own feature
		own := k == "semanticTokensProvider" || k == "inlayHintProvider" || k == "codeLensProvider"
		if !own {
			if a, b := normalAnswer(x.m, m), normalAnswer(x.m, d.answer(c, x.id)); a != b {
				c.Fail("option-leak", "%s answers %s with options %s and %s without", x.m, clip(a, 300), jsonOf(opts), clip(b, 300))
			}
		} else if k == "codeLensProvider" {
			a, b := normalAnswer(x.m, m), normalAnswer(x.m, d.answer(c, x.id))
			if on["lensRefs"] && a != b {
				c.Fail("option-leak", "lenses %s, without options %s", clip(a, 300), clip(b, 300))
			}
			var l []any
			if !on["lensRefs"] && (json.Unmarshal([]byte(a), &l) != nil || len(l) > 0) {
				c.Fail("option-lens", "lenses %s though switched off", clip(a, 300))
			}
		} else if k == "inlayHintProvider" {
			// the hints are those of the kinds switched on, each kind as it is alone
			hints := func(m lspMsg) (r []string) {
				var a []json.RawMessage
				json.Unmarshal(m.Result, &a)
				for _, x := range a {
					r = append(r, string(x))
				}
				sort.Strings(r)
				return
			}
			alone := func(named bool) []string {
				x := &lspScript{}
				x.request("initialize", obj{"initializationOptions": obj{"inlayNamed": named, "inlayDecoded": !named, "lensRefs": g.Bool(), "semanticTokens": g.Bool()}})
				x.open(docURI, src)
				id := x.request("textDocument/inlayHint", params29["textDocument/inlayHint"])
				return hints(x.run(c).answer(c, id))
			}
			a, b, n, dc := hints(m), hints(d.answer(c, x.id)), alone(true), alone(false)
			both := append(append([]string{}, n...), dc...)
			sort.Strings(both)
			want := both
			switch {
			case !on["inlayNamed"] && !on["inlayDecoded"]:
				want = nil
			case !on["inlayNamed"]:
				want = dc
			case !on["inlayDecoded"]:
				want = n
			}
			if len(n) > 0 && len(dc) > 0 {
				c.Class("hints-of-both-kinds")
			}
			if strings.Join(b, "\n") != strings.Join(both, "\n") {
				c.Fail("option-inlay", "hints %s by default, named ones alone %s, decoded ones alone %s", b, n, dc)
			}
			if strings.Join(a, "\n") != strings.Join(want, "\n") {
				c.Fail("option-inlay", "hints %s with options %s, named ones alone %s, decoded ones alone %s", a, jsonOf(opts), n, dc)
			}
		} else if on["semanticTokens"] {
			if a, b := normalAnswer(x.m, m), normalAnswer(x.m, d.answer(c, x.id)); a != b {
				c.Fail("option-leak", "%s answers %s with options %s and %s without", x.m, clip(a, 300), jsonOf(opts), clip(b, 300))
			}
		}
	}
	var rn struct {
		Prepare bool `json:"prepareProvider"`
	}
	if json.Unmarshal(caps["renameProvider"], &rn) != nil || !rn.Prepare {
		c.Fail("cap-announced", "prepareRename is not announced: %s", caps["renameProvider"])
	}
	var sem struct {
		Full   any `json:"full"`
		Legend struct {
			Types []string `json:"tokenTypes"`
			Mods  []string `json:"tokenModifiers"`
		} `json:"legend"`
	}
	if on["semanticTokens"] {
		if json.Unmarshal(caps["semanticTokensProvider"], &sem) != nil || sem.Full == nil || sem.Full == false || len(sem.Legend.Types) == 0 {
			c.Fail("cap-announced", "semantic tokens announced as %s", caps["semanticTokensProvider"])
		}
	}
	var cp struct {
		Trigger []string `json:"triggerCharacters"`
	}
	if json.Unmarshal(caps["completionProvider"], &cp) != nil || !strings.Contains(strings.Join(cp.Trigger, "|"), " ") {
		c.Fail("cap-announced", "completion announced as %s", caps["completionProvider"])
	}
	var ex struct {
		Commands []string `json:"commands"`
	}
	json.Unmarshal(caps["executeCommandProvider"], &ex)
	known := map[string]bool{}
	for _, n := range ex.Commands {
		known[n] = true
	}
	var as []jAction
	o.result(c, idA, &as)
	for _, a := range as {
		if a.Command != nil {
			if !known[a.Command.Command] {
				c.Fail("cap-command", "the action %q uses the command %s, which is not announced", a.Title, a.Command.Command)
			}
			// and the command it carries is executed
			var args []any
			for _, x := range a.Command.Arguments {
				var v any
				json.Unmarshal(x, &v)
				args = append(args, v)
			}
			if g.Chance(1, 4) {
				if es := commandEdits(c, docURI, src, a.Command.Command, args); len(es) == 0 {
					c.Fail("cap-command", "the command of %q changes nothing", a.Title)
				}
			}
		}
	}
	if len(as) > 0 {
		c.Class("actions")
	}
	for _, n := range []string{"teal.label.create", "teal.label.remove", "teal.value.replace", "teal.line.remove", "teal.version.update"} {
		if !known[n] {
			c.Fail("cap-command", "the command %s is not announced", n)
		}
	}
	if len(ex.Commands) != len(known) {
		c.Fail("cap-command", "announced commands: %v", ex.Commands)
	}
	if len(opts) > 0 && len(p.Stmts) > 2 {
		c.Nontrivial(jsonOf(opts) + src)
	}
}

// pullMsgs makes sessions comparable: completion lists are sets.
func pullMsgs(ms []lspMsg, methods map[int]string) (out []string) {
	for _, m := range ms {
		if f, ok := m.Id.(float64); ok && m.Method == "" {
			out = append(out, fmt.Sprint(int(f))+" "+normalAnswer(methods[int(f)], m))
			continue
		}
		out = append(out, m.Raw)
	}
	return
}

// the tool does over its streams what the library does
func p29tool(g *G, c *Ctx) {
	bin := os.Getenv("TV_BIN")
	if bin == "" {
		c.Discard()
	}
	dir, err := os.MkdirTemp("", "tvlsp")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	work := filepath.Join(dir, "cwd")
	os.Mkdir(work, 0700)
	s := &lspScript{}
	methods := map[int]string{}
	src := genDoc(g)
	p := refAnalyze(src)
	if g.Bool() {
		s.request("initialize", obj{"initializationOptions": obj{"lensRefs": g.Bool(), "semanticTokens": g.Bool()}})
	}
	if !g.Chance(1, 5) {
		s.open(docURI, src)
	}
	for k := g.Intn(6); k > 0; k-- {
		switch g.Intn(9) {
		case 8:
			s.notify("textDocument/didClose", obj{"textDocument": obj{"uri": docURI}})
		case 0:
			s.raw([]byte(pick(g, []string{"{", "null", "[]", "x"})))
		case 1:
			s.change(docURI, genDoc(g))
		case 2:
			s.request("workspace/executeCommand", commandParams(g, docURI))
		default:
			m := pick(g, lspQueries)
			methods[s.request(m, queryParams(g, docURI, p))] = m
		}
	}
	code := 0
	exits := g.Chance(2, 3)
	if exits {
		if g.Bool() {
			s.request("shutdown", nil)
		} else {
			code = 1
		}
		s.notify("exit", nil)
	}
	args := []string{}
	debug := ""
	if g.Chance(1, 3) {
		debug = filepath.Join(dir, "debug.log")
		args = append(args, "-debug", debug)
	}
	tcp := g.Chance(1, 3)
	var ln net.Listener
	if tcp {
		ln, err = net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			tcp = false
		} else {
			defer ln.Close()
			args = append(args, "-addr", ln.Addr().String())
			if g.Bool() {
				args = append(args, "-net", "tcp")
			}
		}
	}
	c.Input("tealsp %s\n%s", strings.ReplaceAll(strings.Join(args, " "), dir, "DIR"), clip(s.in.String(), 2000))
	want := s.run(c)
	cmd := exec.Command(filepath.Join(bin, "tealsp"), args...)
	cmd.Dir = work
	var so, se bytes.Buffer
	cmd.Stderr = &se
	if !tcp {
		cmd.Stdin = bytes.NewReader(s.in.Bytes())
		cmd.Stdout = &so
		err = toolDo(c, cmd)
	} else {
		var piped bytes.Buffer
		cmd.Stdout = &piped
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		gone := make(chan error, 1)
		go func() { gone <- cmd.Wait(); ln.Close() }()
		conn, aerr := ln.Accept()
		if aerr != nil {
			c.Fail("tool-connect", "tealsp %v ended without connecting: %v %s", args, <-gone, clip(se.String(), 300))
		}
		conn.SetDeadline(time.Now().Add(10 * time.Minute))
		go func() {
			conn.Write(s.in.Bytes())
			conn.(*net.TCPConn).CloseWrite()
		}()
		copied := make(chan bool)
		go func() { io.Copy(&so, conn); close(copied) }()
		err = toolWait(c, cmd, gone)
		<-copied
		conn.Close()
		if piped.Len() > 0 {
			c.Fail("tool-output", "with -addr tealsp writes %q to standard output", clip(piped.String(), 200))
		}
	}
	got := 0
	if err != nil {
		var x *exec.ExitError
		if !errors.As(err, &x) {
			panic(err)
		}
		got = x.ExitCode()
	}
	if exits && got != code || !exits && got != want.Code {
		c.Fail("tool-exit", "tealsp ended with code %d: %s", got, clip(se.String(), 300))
	}
	msgs, bad := parseFrames(so.Bytes())
	if bad != "" && !tcp { // a connection closed with unread input may lose data
		c.Fail("lsp-framing", "%s", bad)
	}
	a, b := pullMsgs(msgs, methods), pullMsgs(want.Msgs, methods)
	if !tcp && strings.Join(a, "\n") != strings.Join(b, "\n") {
		c.Fail("tool-output", "tealsp writes\n%s\nthe library\n%s", strings.Join(a, "\n"), strings.Join(b, "\n"))
	}
	if tcp {
		for i := range a {
			if i >= len(b) || a[i] != b[i] {
				c.Fail("tool-output", "tealsp writes\n%s\nthe library\n%s", strings.Join(a, "\n"), strings.Join(b, "\n"))
			}
		}
		if !exits && len(a) != len(b) {
			c.Fail("tool-output", "tealsp writes %d messages over the connection, the library %d", len(a), len(b))
		}
	}
	if fs, _ := os.ReadDir(work); len(fs) > 0 {
		c.Fail("tool-files", "tealsp left the file %s behind", fs[0].Name())
	}
	if debug != "" {
		if b, err := os.ReadFile(debug); err != nil || !bytes.Contains(b, sessionMethod.Find(s.in.Bytes())) {
			c.Fail("tool-debug", "the debug file does not show the session: %v", err)
		}
	}
	c.Class(fmt.Sprintf("tcp %v debug %v", tcp, debug != ""))
	c.Nontrivial(s.in.String() + fmt.Sprint(tcp, debug != ""))
}

// a client that waits for each answer before it sends more
func p29talk(g *G, c *Ctx) {
	dir, err := os.MkdirTemp("", "tvlsp")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var args []string
	if g.Chance(1, 4) {
		args = append(args, "-debug", filepath.Join(dir, "debug.log"))
	}
	s := &lspScript{}
	src := genDoc(g)
	p := refAnalyze(src)
	var log []string
	t := newTalk(c, dir, "tealsp", args...)
	defer t.kill()
	id := 0
	ask := func(m string, ps any) {
		s.in.Reset()
		id = s.request(m, ps)
		log = append(log, m)
		c.Input("waiting for the answer to the last of %s about %s", strings.Join(log, ", "), show(src))
		t.in.Write(s.in.Bytes())
		t.until(m, func(out []byte) bool {
			ms, bad := parseFrames(out)
			if bad != "" {
				return false // not all of it yet
			}
			for _, x := range ms {
				if f, ok := x.Id.(float64); ok && x.Method == "" && int(f) == id {
					return true
				}
			}
			return false
		})
	}
	ask("initialize", obj{})
	s.in.Reset()
	s.open(docURI, src)
	t.in.Write(s.in.Bytes())
	for k := g.Range(1, 5); k > 0; k-- {
		m := pick(g, lspQueries)
		ask(m, queryParams(g, docURI, p))
	}
	code := 1
	if g.Bool() {
		ask("shutdown", nil)
		code = 0
	}
	s.in.Reset()
	s.notify("exit", nil)
	t.in.Write(s.in.Bytes())
	log = append(log, "exit")
	c.Input("%s about %s", strings.Join(log, ", "), show(src))
	err = toolWait(c, t.cmd, t.gone) // its input stays open
	got := 0
	var x *exec.ExitError
	if errors.As(err, &x) {
		got = x.ExitCode()
	}
	if got != code {
		c.Fail("tool-exit", "tealsp ended with code %d after %s", got, strings.Join(log, ", "))
	}
	c.Nontrivial(src + strings.Join(log, ","))
}

// tealsp dbg is the debugger
func p29dbg(g *G, c *Ctx) {
	dir, err := os.MkdirTemp("", "tvlsp")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "p.teal")
	src := genVm(g, vmGen{Max: 10, Version: 8})
	if err := os.WriteFile(p, []byte(src), 0600); err != nil {
		panic(err)
	}
	var in bytes.Buffer
	seq := 0
	req := func(cmd string, a any) {
		seq++
		b, _ := json.Marshal(obj{"seq": seq, "type": "request", "command": cmd, "arguments": a})
		in.Write(frame(b))
	}
	req("initialize", obj{})
	req("launch", obj{"program": p})
	for k := g.Range(1, 6); k > 0; k-- {
		req(pick(g, []string{"next", "continue", "stackTrace", "threads", "scopes"}), obj{"threadId": 0, "frameId": 0})
	}
	args := []string{"dbg"}
	if g.Bool() {
		args = append(args, "-debug", filepath.Join(dir, "debug.log"))
	}
	c.Input("tealsp %s: %s\n%s", strings.ReplaceAll(fmt.Sprint(args), dir, "DIR"), show(src), strings.ReplaceAll(in.String(), dir, "DIR"))
	var out bytes.Buffer
	d, err := dbg.New(bytes.NewReader(in.Bytes()), &out)
	if err != nil {
		c.Fail("dap-new", "%v", err)
	}
	d.Run()
	so, se, code := toolRun(c, in.Bytes(), "tealsp", args...)
	if code != 0 {
		c.Fail("tool-exit", "tealsp dbg ended with code %d: %s", code, clip(se, 300))
	}
	if so != out.String() {
		c.Fail("tool-output", "tealsp dbg writes\n%s\nthe library\n%s", so, out.String())
	}
	if len(args) > 1 {
		if _, err := os.Stat(args[2]); err != nil {
			c.Fail("tool-debug", "no debug file: %v", err)
		}
	}
	c.Nontrivial(in.String() + src)
}

// sessionMethod finds the first method a session calls.
var sessionMethod = regexp.MustCompile(`"method":"[^"]*"`)

func init() {
	register(&Check{
		ID:   "P29",
		Rule: "initialize with random options, every query and command after it, compared with the announced capabilities and with a session without options; random sessions through the tealsp tool (standard streams, at once or waiting for each answer, TCP, debug file, debugger) compared with the library. Non-trivial: options were given, or a tool session",
		Subs: []Sub{
			{Name: "capabilities", Fn: p29, Quick: 8000, Thorough: 200000},
			{Name: "tool", Fn: p29tool, Quick: 250, Thorough: 5000},
			{Name: "conversation", Fn: p29talk, Quick: 200, Thorough: 4000},
			{Name: "dbg", Fn: p29dbg, Quick: 60, Thorough: 1000},
		},
	})
}
