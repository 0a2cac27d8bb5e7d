package main

// P23: debugger sessions over the debug adapter protocol. The session is
// interactive: when the adapter asks for input, the messages it has written
// so far are judged and the next request is drawn.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/dragmz/teal"
	"github.com/dragmz/teal/dbg"
)

type dapMsg struct {
	Seq        int             `json:"seq"`
	Type       string          `json:"type"`
	RequestSeq int             `json:"request_seq"`
	Success    bool            `json:"success"`
	Command    string          `json:"command"`
	Message    string          `json:"message"`
	Event      string          `json:"event"`
	Body       json.RawMessage `json:"body"`
	Raw        string          `json:"-"`
}

func parseDap(b []byte) (msgs []dapMsg, bad string) {
	for len(b) > 0 {
		h := bytes.Index(b, []byte("\r\n\r\n"))
		if h < 0 {
			return nil, fmt.Sprintf("output without a header end: %q", clip(string(b), 80))
		}
		n := -1
		for _, ln := range strings.Split(string(b[:h]), "\r\n") {
			k, v, ok := strings.Cut(ln, ":")
			if !ok {
				return nil, fmt.Sprintf("bad output header line %q", ln)
			}
			if strings.EqualFold(strings.TrimSpace(k), "Content-Length") {
				n, _ = strconv.Atoi(strings.TrimSpace(v))
			}
		}
		b = b[h+4:]
		if n < 0 || n > len(b) {
			return nil, fmt.Sprintf("content length %d, %d bytes follow", n, len(b))
		}
		m := dapMsg{Raw: string(b[:n])}
		if err := json.Unmarshal(b[:n], &m); err != nil {
			return nil, fmt.Sprintf("output message %q: %v", clip(string(b[:n]), 200), err)
		}
		b = b[n:]
		if m.Type != "response" && m.Type != "event" {
			return nil, fmt.Sprintf("output message of type %q", m.Type)
		}
		msgs = append(msgs, m)
	}
	return msgs, ""
}

// talker is the adapter's input: it asks next for a message whenever the
// adapter has read everything.
type talker struct {
	pend []byte
	next func() []byte // nil ends the session
	cut  func() int
	over bool
	n    int
	fail any
}

func (t *talker) Read(p []byte) (n int, err error) {
	if t.over {
		if t.n++; t.n > 10000 {
			panic(failure{"read-spin", "the debugger keeps reading after the end of its input"})
		}
		return 0, io.EOF
	}
	if len(t.pend) == 0 {
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.fail = e
					t.over = true
				}
			}()
			t.pend = t.next()
			if t.pend == nil {
				t.over = true
			}
		}()
		if t.over {
			return 0, io.EOF
		}
	}
	k := len(t.pend)
	if t.cut != nil {
		k = t.cut()
	}
	if k > len(t.pend) {
		k = len(t.pend)
	}
	n = copy(p, t.pend[:k])
	t.pend = t.pend[n:]
	return n, nil
}

func runDap(t *talker, out *bytes.Buffer) {
	d, err := dbg.New(t, out)
	if err != nil {
		panic(failure{"dap-new", err.Error()})
	}
	d.Run()
	if t.fail != nil {
		panic(t.fail)
	}
}

type dapFrame struct {
	Id     int    `json:"id"`
	Name   string `json:"name"`
	Line   int    `json:"line"`
	Column int    `json:"column"`
	Source *struct {
		Name string `json:"name"`
		Path string `json:"path"`
	} `json:"source"`
}

type dapVar struct {
	Name  string `json:"name"`
	Value string `json:"value"`
}

type dapStopped struct {
	Reason      string `json:"reason"`
	ThreadId    *int   `json:"threadId"`
	All         bool   `json:"allThreadsStopped"`
	Hit         []int  `json:"hitBreakpointIds"`
	Description string `json:"description"`
	Text        string `json:"text"`
}

type dapCase struct {
	g    *G
	c    *Ctx
	out  bytes.Buffer
	seen int // bytes judged
	seq  int
	last int // last output seq
	log  []string

	dir   string
	files []string // program paths
	src   map[string]string
	spell map[string]string // how breakpoints name the file

	lz, cz int
	inited bool
	prog   string // launched program
	twin   *teal.Vm
	n      int
	bps    map[string][]int       // requested lines per file
	ids    map[string]map[int]int // id by line, from the last answer
	refs   map[int]map[string]int // thread -> scope -> reference
	judge  func(ms []dapMsg)
	steps  int
	stops  int
	kinds  map[string]bool
}

func (d *dapCase) fail(key, f string, a ...any) { d.c.Fail(key, f, a...) }

func (d *dapCase) note(f string, a ...any) {
	d.log = append(d.log, fmt.Sprintf(f, a...))
	var ps []string
	for _, p := range d.files {
		ps = append(ps, filepath.Base(p)+"="+show(d.src[p]))
	}
	d.c.Input("%s\n%s", strings.Join(ps, "\n"), strings.ReplaceAll(strings.Join(d.log, "\n"), d.dir, "DIR"))
}

// req builds a request and sets what has to come back: one response, then
// what events allows.
func (d *dapCase) req(command string, args any, judge func(r dapMsg, ev []dapMsg)) []byte {
	d.seq++
	seq := d.seq
	m := obj{"seq": seq, "type": "request", "command": command}
	if args != nil {
		m["arguments"] = args
	}
	b, _ := json.Marshal(m)
	d.note("%s %s", command, jsonOf(args))
	d.kinds[command] = true
	d.judge = func(ms []dapMsg) {
		var r *dapMsg
		var ev []dapMsg
		for i := range ms {
			m := ms[i]
			if m.Type == "event" {
				ev = append(ev, m)
				continue
			}
			if m.RequestSeq != seq || m.Command != command {
				d.fail("dap-response", "request %d %q was answered with %s", seq, command, m.Raw)
			}
			if r != nil {
				d.fail("dap-response", "request %d %q got two responses", seq, command)
			}
			r = &m
		}
		if r == nil {
			d.fail("dap-no-response", "request %d %q got no response", seq, command)
		}
		if !r.Success && r.Message == "" {
			d.fail("dap-message", "the failed request %q has no message", command)
		}
		judge(*r, ev)
	}
	return frame(b)
}

func (d *dapCase) silent(ev []dapMsg) {
	if len(ev) > 0 {
		d.fail("dap-event", "unexpected event %s", ev[0].Raw)
	}
}

func (d *dapCase) ok(r dapMsg) {
	if !r.Success {
		d.fail("dap-failed", "%q failed: %s", r.Command, r.Message)
	}
}

func (d *dapCase) refused(r dapMsg, ev []dapMsg) {
	if r.Success {
		d.fail("dap-accepted", "%q succeeded: %s", r.Command, r.Raw)
	}
	d.silent(ev)
}

func (d *dapCase) body(m dapMsg, v any) {
	if err := json.Unmarshal(m.Body, v); err != nil {
		d.fail("dap-body", "%s: %v", clip(m.Raw, 300), err)
	}
}

func (d *dapCase) stopped(ev []dapMsg) dapStopped {
	if len(ev) != 1 || ev[0].Event != "stopped" {
		var s []string
		for _, e := range ev {
			s = append(s, e.Raw)
		}
		d.fail("dap-stopped", "events %v, expected one stopped event", s)
	}
	var s dapStopped
	d.body(ev[0], &s)
	if !s.All {
		d.fail("dap-all", "the machine stopped as a whole, the event says %s", ev[0].Raw)
	}
	return s
}

func (d *dapCase) thread(s dapStopped) {
	if d.twin.Branch == nil {
		if s.ThreadId != nil {
			d.fail("dap-thread", "stopped in thread %d after the program ended", *s.ThreadId)
		}
		return
	}
	if s.ThreadId == nil || *s.ThreadId != d.twin.Branch.Id {
		d.fail("dap-thread", "stopped event %v, expected thread %d", jsonOf(s), d.twin.Branch.Id)
	}
}

func (d *dapCase) isOp(l int) bool {
	if l < 0 || l >= d.n {
		return false
	}
	_, nop := d.twin.Process.Listing[l].(teal.Nop)
	return !nop
}

func (d *dapCase) flush() {
	ms, bad := parseDap(d.out.Bytes()[d.seen:])
	d.seen = d.out.Len()
	if bad != "" {
		d.fail("dap-framing", "%s", bad)
	}
	for _, m := range ms {
		if m.Seq <= d.last {
			d.fail("dap-seq", "message %d follows message %d", m.Seq, d.last)
		}
		d.last = m.Seq
	}
	j := d.judge
	d.judge = nil
	if j != nil {
		j(ms)
	} else if len(ms) > 0 {
		d.fail("dap-unasked", "unasked message %s", ms[0].Raw)
	}
}

func (d *dapCase) branch(id int) *teal.VmBranch {
	if d.twin != nil {
		for _, b := range d.twin.Branches {
			if b.Id == id {
				return b
			}
		}
	}
	return nil
}

func (d *dapCase) someThread() int {
	if d.twin != nil && d.g.Chance(9, 10) {
		return pick(d.g, d.twin.Branches).Id
	}
	return d.g.Intn(4) - 1
}

func (d *dapCase) launch() []byte {
	g := d.g
	p := pick(g, d.files)
	if g.Chance(1, 12) {
		bad := pick(g, []string{filepath.Join(d.dir, "none.teal"), d.dir, ""})
		return d.req("launch", obj{"program": bad}, d.refused)
	}
	if g.Chance(1, 5) { // the file was edited; a launched machine stays what it is
		d.src[p] = genVm(g, vmGen{Flow: g.Bool(), Max: 8, Version: 8})
		if err := os.WriteFile(p, []byte(d.src[p]), 0600); err != nil {
			panic(err)
		}
		d.note("%s is now %s", filepath.Base(p), show(d.src[p]))
		d.kinds["edited"] = true
	}
	return d.req("launch", obj{"program": p, "noDebug": false}, func(r dapMsg, ev []dapMsg) {
		d.ok(r)
		d.prog = p
		d.twin = teal.NewVm(teal.Process(d.src[p]))
		d.n = len(d.twin.Process.Listing)
		d.twin.SetBreakpoints(d.bps[p])
		d.refs = map[int]map[string]int{}
		if len(ev) != 2 || ev[0].Event != "process" {
			d.fail("dap-launch", "events after the launch: %s", jsonOf(ev))
		}
		var pr struct {
			Name string `json:"name"`
		}
		d.body(ev[0], &pr)
		if pr.Name != p {
			d.fail("dap-launch", "process %q started for %q", pr.Name, p)
		}
		s := d.stopped(ev[1:])
		if s.Reason != "entry" {
			d.fail("dap-launch", "stopped for %q", s.Reason)
		}
		d.thread(s)
	})
}

func (d *dapCase) next() []byte {
	g := d.g
	d.flush()
	if d.steps++; d.steps > 24 || d.steps > 3 && g.Chance(1, 40) {
		return nil
	}
	if !d.inited {
		d.inited = true
		if g.Chance(19, 20) {
			a := obj{"adapterID": "teal", "clientID": "x"}
			l1, c1 := true, true
			switch g.Intn(3) {
			case 1:
				a["linesStartAt1"], a["columnsStartAt1"] = true, true
			case 2:
				l1, c1 = g.Bool(), g.Bool()
				a["linesStartAt1"], a["columnsStartAt1"] = l1, c1
			}
			return d.req("initialize", a, func(r dapMsg, ev []dapMsg) {
				d.ok(r)
				d.lz, d.cz = b2i(l1), b2i(c1)
				if len(ev) != 1 || ev[0].Event != "initialized" {
					d.fail("dap-init", "events after initialize: %s", jsonOf(ev))
				}
			})
		}
	}
	if d.twin == nil && g.Chance(1, 2) {
		return d.launch()
	}
	// a request that runs the program is drawn most often
	switch g.Weighted(5, 4, 4, 3, 3, 3, 1, 1, 1, 1, 1, 1) {
	case 0: // next
		t := d.someThread()
		if d.twin == nil {
			return d.req("next", obj{"threadId": t}, d.refused)
		}
		n := len(d.twin.Process.Listing)
		live := false
		lens := map[int]int{}
		for _, b := range d.twin.Branches {
			lens[b.Id] = len(b.Trace)
			live = live || b.Id == t && !isDead(b, n)
		}
		d.twin.Switch(t)
		d.twin.Step()
		for _, b := range d.twin.Branches {
			if k, ok := lens[b.Id]; ok && live && b.Id != t && len(b.Trace) != k {
				d.fail("dap-step-thread", "a step of thread %d is one of thread %d", t, b.Id)
			}
		}
		return d.req("next", obj{"threadId": t}, func(r dapMsg, ev []dapMsg) {
			d.ok(r)
			s := d.stopped(ev)
			if d.twin.Error != nil {
				d.exception(s)
				return
			}
			if s.Reason != "step" {
				d.fail("dap-reason", "a step stopped for %q", s.Reason)
			}
			d.thread(s)
		})
	case 1: // continue
		t := d.someThread()
		if d.twin == nil {
			return d.req("continue", obj{"threadId": t}, func(r dapMsg, ev []dapMsg) { d.silent(ev) })
		}
		if !d.run() {
			return nil
		}
		return d.req("continue", obj{"threadId": t}, func(r dapMsg, ev []dapMsg) {
			d.ok(r)
			s := d.stopped(ev)
			switch {
			case d.twin.Error != nil:
				d.exception(s)
			case len(d.twin.Triggered) > 0:
				if s.Reason != "breakpoint" || s.ThreadId == nil {
					d.fail("dap-reason", "stopped at a breakpoint: %s", jsonOf(s))
				}
				lines := d.twin.Triggered[*s.ThreadId]
				if _, ok := d.twin.Triggered[t]; ok && *s.ThreadId != t {
					d.fail("dap-thread", "thread %d came to a breakpoint, thread %d is reported", t, *s.ThreadId)
				}
				if len(lines) == 0 {
					d.fail("dap-hit", "thread %d is reported at a breakpoint, hits %v", *s.ThreadId, d.twin.Triggered)
				}
				want, got := map[int]bool{}, map[int]bool{}
				for _, l := range lines {
					id, ok := d.ids[d.prog][l]
					if !ok {
						d.fail("dap-hit", "hit line %d has no breakpoint", l)
					}
					want[id] = true
				}
				for _, h := range s.Hit {
					got[h] = true
				}
				if fmt.Sprint(sortedInts(want)) != fmt.Sprint(sortedInts(got)) {
					d.fail("dap-hit", "hit breakpoints %v, expected %v", s.Hit, sortedInts(want))
				}
				d.stops++
			default:
				if s.ThreadId != nil {
					d.fail("dap-thread", "stopped in thread %d after the program ended", *s.ThreadId)
				}
			}
		})
	case 2: // stackTrace
		t := d.someThread()
		a := obj{"threadId": t}
		start, levels := 0, 0
		if g.Chance(1, 2) {
			start = g.Intn(4)
			a["startFrame"] = start
		}
		if g.Chance(1, 2) {
			levels = g.Intn(4)
			a["levels"] = levels
		}
		return d.req("stackTrace", a, func(r dapMsg, ev []dapMsg) {
			d.silent(ev)
			b := d.branch(t)
			if !r.Success && b == nil {
				return
			}
			d.ok(r)
			var x struct {
				Frames []dapFrame `json:"stackFrames"`
				Total  *int       `json:"totalFrames"`
			}
			d.body(r, &x)
			if b == nil {
				if len(x.Frames) > 0 {
					d.fail("dap-frames", "frames of unknown thread %d: %s", t, r.Raw)
				}
				return
			}
			var want []string
			line, name := b.Line, b.Name
			for i := len(b.Frames) - 1; i >= 0; i-- {
				want = append(want, fmt.Sprintf("%s:%d", name, line+d.lz))
				line, name = b.Frames[i].Return, b.Frames[i].Name
			}
			want = append(want, fmt.Sprintf("%s:%d", name, line+d.lz))
			total := len(want)
			if x.Total != nil && *x.Total != total {
				d.fail("dap-frames", "%d frames in total, expected %d", *x.Total, total)
			}
			if start > len(want) {
				start = len(want)
			}
			want = want[start:]
			if levels > 0 && levels < len(want) {
				want = want[:levels]
			}
			if isDead(b, d.n) {
				return
			}
			var got []string
			for _, f := range x.Frames {
				got = append(got, fmt.Sprintf("%s:%d", f.Name, f.Line))
				if f.Column != d.cz {
					d.fail("dap-column", "frame at column %d, columns start at %d", f.Column, d.cz)
				}
				if f.Source == nil || f.Source.Path != d.prog || f.Source.Name != d.prog && f.Source.Name != filepath.Base(d.prog) {
					d.fail("dap-source", "frame %s of program %s", r.Raw, d.prog)
				}
			}
			if strings.Join(got, " ") != strings.Join(want, " ") {
				d.fail("dap-frames", "frames %v of thread %d, expected %v", got, t, want)
			}
			if total > 1 {
				d.kinds["deep-stack"] = true
			}
		})
	case 3: // scopes
		t := d.someThread()
		return d.req("scopes", obj{"frameId": t}, func(r dapMsg, ev []dapMsg) {
			d.silent(ev)
			b := d.branch(t)
			if !r.Success && b == nil {
				return
			}
			d.ok(r)
			var x struct {
				Scopes []struct {
					Name string `json:"name"`
					Ref  int    `json:"variablesReference"`
					N    *int   `json:"indexedVariables"`
				} `json:"scopes"`
			}
			d.body(r, &x)
			if b == nil {
				return
			}
			m := map[string]int{}
			for _, s := range x.Scopes {
				if s.Ref <= 0 {
					d.fail("dap-scope", "scope %s has reference %d", s.Name, s.Ref)
				}
				m[s.Name] = s.Ref
				n := -1
				switch s.Name {
				case "Stack":
					n = len(b.Stack.Items)
				case "Trace":
					n = len(b.Trace)
				case "Scratch":
					n = 256
				}
				if n >= 0 && s.N != nil && *s.N != n {
					d.fail("dap-scope", "scope %s announces %d variables, there are %d", s.Name, *s.N, n)
				}
			}
			for _, n := range []string{"State", "Stack", "Scratch", "Trace"} {
				if m[n] == 0 {
					d.fail("dap-scope", "scopes of thread %d: %s", t, r.Raw)
				}
			}
			used := map[int]string{}
			d.refs[t] = m
			for th, mm := range d.refs {
				for n, ref := range mm {
					k := fmt.Sprintf("%s of %d", n, th)
					if used[ref] != "" && used[ref] != k {
						d.fail("dap-scope", "%s and %s share the reference %d", used[ref], k, ref)
					}
					used[ref] = k
				}
			}
		})
	case 4: // variables
		var ts []int
		for t := range d.refs {
			ts = append(ts, t)
		}
		sort.Ints(ts)
		if len(ts) == 0 {
			return d.req("variables", obj{"variablesReference": g.Intn(60) - 5}, func(r dapMsg, ev []dapMsg) {
				d.silent(ev)
			})
		}
		t := pick(g, ts)
		name := pick(g, []string{"Stack", "Scratch", "Trace", "State"})
		a := obj{"variablesReference": d.refs[t][name]}
		start, count := 0, 0
		if g.Chance(1, 2) {
			start = g.Intn(6)
			if name == "Scratch" && g.Bool() {
				start = g.Intn(300)
			}
			if g.Chance(1, 4) {
				start = pick(g, []int{7, 20, 256, 257, 1000, 1 << 31, 1<<62 - 1 + 1<<62})
			}
			a["start"] = start
		}
		if g.Chance(1, 2) {
			count = g.Intn(6)
			if g.Chance(1, 4) {
				count = 300
			}
			a["count"] = count
		}
		if g.Chance(1, 12) {
			start = -1
			a["start"] = -1 - g.Intn(3)
			if g.Bool() {
				a["count"] = -1
			}
		}
		return d.req("variables", a, func(r dapMsg, ev []dapMsg) {
			d.silent(ev)
			if start < 0 {
				return
			}
			d.ok(r)
			var x struct {
				Variables []dapVar `json:"variables"`
			}
			d.body(r, &x)
			b := d.branch(t)
			var want, got []string
			page := func(n int) (int, int) {
				s, e := start, n
				if s > n {
					s = n
				}
				if count > 0 && s+count < n {
					e = s + count
				}
				return s, e
			}
			switch name {
			case "State":
				want = append(want, fmt.Sprintf("Budget=%d", b.Budget))
			case "Stack":
				n := len(b.Stack.Items)
				s, e := page(n)
				for i := s; i < e; i++ {
					want = append(want, fmt.Sprintf("%d=%s", n-1-i, b.Stack.Items[n-1-i]))
				}
			case "Scratch":
				s, e := page(256)
				for i := s; i < e; i++ {
					if v := b.Scratch.Items[i]; v.T != teal.VmTypeNone {
						want = append(want, fmt.Sprintf("%d=%s", i, v))
						d.kinds["scratch-value"] = true
					}
				}
			case "Trace":
				s, e := page(len(b.Trace))
				for i := s; i < e; i++ {
					want = append(want, fmt.Sprintf("%d=%s", i, b.Trace[i]))
				}
			}
			for _, v := range x.Variables {
				got = append(got, v.Name+"="+v.Value)
			}
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				d.fail("dap-variables", "%s of thread %d: %q, expected %q", name, t, got, want)
			}
		})
	case 5: // setBreakpoints
		f := pick(g, d.files)
		if d.prog != "" && g.Chance(2, 3) {
			f = d.prog
		}
		path := d.spell[f]
		if g.Chance(1, 10) {
			f, path = "", filepath.Join(d.dir, "other.teal")
		}
		var lns []int
		var bs []obj
		nb, top := g.Intn(4), 14
		if g.Chance(1, 30) {
			nb, top = pick(g, []int{40, 130, 270, 600}), 400
		}
		for k := nb; k > 0; k-- {
			l := g.Intn(top)
			if g.Chance(1, 10) {
				l = g.Intn(3) - 2
			}
			lns = append(lns, l)
			bs = append(bs, obj{"line": l + d.lz})
		}
		a := obj{"source": obj{"path": path, "name": filepath.Base(path)}}
		if len(bs) > 0 || g.Bool() {
			a["breakpoints"] = bs
		}
		return d.req("setBreakpoints", a, func(r dapMsg, ev []dapMsg) {
			d.ok(r)
			d.silent(ev)
			live := d.twin != nil && f == d.prog
			if f != "" {
				d.bps[f] = lns
				d.ids[f] = map[int]int{}
			}
			if live {
				d.twin.SetBreakpoints(lns)
			}
			var x struct {
				Breakpoints []struct {
					Id       *int `json:"id"`
					Verified bool `json:"verified"`
					Line     *int `json:"line"`
				} `json:"breakpoints"`
			}
			d.body(r, &x)
			if len(x.Breakpoints) != len(lns) {
				d.fail("dap-breakpoints", "%d breakpoints for %d requested", len(x.Breakpoints), len(lns))
			}
			for i, b := range x.Breakpoints {
				if b.Line != nil && *b.Line != lns[i]+d.lz {
					d.fail("dap-breakpoints", "breakpoint %d is at line %d, requested %d", i, *b.Line, lns[i]+d.lz)
				}
				if live && b.Verified != d.isOp(lns[i]) {
					d.fail("dap-verified", "breakpoint at line %d: verified %v", lns[i]+d.lz, b.Verified)
				}
				if f == "" && b.Verified {
					d.fail("dap-verified", "breakpoint of another file is verified")
				}
				if b.Id != nil && f != "" {
					for l, id := range d.ids[f] {
						if l != lns[i] && id == *b.Id {
							d.fail("dap-breakpoints", "lines %d and %d share id %d", l, lns[i], id)
						}
					}
					d.ids[f][lns[i]] = *b.Id
				} else if b.Verified {
					d.fail("dap-breakpoints", "a verified breakpoint has no id")
				}
			}
		})
	case 6: // threads
		return d.req("threads", nil, func(r dapMsg, ev []dapMsg) {
			d.ok(r)
			d.silent(ev)
			var x struct {
				Threads []struct {
					Id   int    `json:"id"`
					Name string `json:"name"`
				} `json:"threads"`
			}
			d.body(r, &x)
			var got, want []string
			names := map[string]bool{}
			for _, t := range x.Threads {
				got = append(got, fmt.Sprint(t.Id))
				if t.Name == "" || names[t.Name] {
					d.fail("dap-threads", "thread names in %s", r.Raw)
				}
				names[t.Name] = true
			}
			if d.twin != nil {
				for _, b := range d.twin.Branches {
					want = append(want, fmt.Sprint(b.Id))
				}
			}
			if dd := diffLists(got, want); dd != "" {
				d.fail("dap-threads", "threads %v, expected %v", got, want)
			}
		})
	case 7:
		return d.launch()
	case 8: // pause
		if d.twin == nil {
			return d.req("pause", obj{"threadId": 0}, d.refused)
		}
		return d.req("pause", obj{"threadId": d.someThread()}, func(r dapMsg, ev []dapMsg) {
			d.ok(r)
			s := d.stopped(ev)
			if s.Reason != "pause" {
				d.fail("dap-reason", "a pause stopped for %q", s.Reason)
			}
			d.thread(s)
		})
	case 9: // accepted without effect
		cmd := pick(g, []string{"configurationDone", "setExceptionBreakpoints", "setFunctionBreakpoints", "setInstructionBreakpoints", "evaluate", "disconnect"})
		return d.req(cmd, obj{"filters": []string{}, "expression": "x", "breakpoints": []obj{}}, func(r dapMsg, ev []dapMsg) { d.silent(ev) })
	case 10: // unusable
		if g.Bool() {
			cmd := pick(g, []string{"stepIn", "stepOut", "source", "modules", "x", "", "Launch", "loadedSources"})
			return d.req(cmd, obj{"threadId": 0}, func(r dapMsg, ev []dapMsg) {
				if cmd == "x" || cmd == "" || cmd == "Launch" {
					d.refused(r, ev)
				}
				d.silent(ev)
			})
		}
		cmd := pick(g, []string{"launch", "setBreakpoints", "next", "continue", "variables", "scopes", "stackTrace"})
		return d.req(cmd, pick(g, []any{nil, "x", 3, []any{}, obj{"program": 1, "threadId": "x", "frameId": []int{}, "variablesReference": "y", "source": 3, "breakpoints": "z"}}), d.refused)
	default: // not a request
		b := pick(g, []string{`{"seq":1,"type":"response","request_seq":1,"success":true,"command":"x"}`, `{"seq":1,"type":"event","event":"x"}`, `{`, `[]`, `null`, `3`, `"request"`, `{"seq":"x","type":3}`, `{}`, ``})
		d.note("message %s", b)
		d.kinds["not-a-request"] = true
		return frame([]byte(b))
	}
}

func (d *dapCase) exception(s dapStopped) {
	if s.Reason != "exception" {
		d.fail("dap-reason", "an error stopped for %q", s.Reason)
	}
	if !strings.Contains(s.Description+s.Text, fmt.Sprint(d.twin.Error)) {
		d.fail("dap-exception", "error %v is described as %q", d.twin.Error, s.Description+s.Text)
	}
	d.kinds["exception"] = true
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// run runs the twin like the adapter has to; false when it takes too long.
func (d *dapCase) run() bool {
	t := d.twin
	if t.Branch != nil && t.Error == nil {
		t.Triggered = map[int][]int{}
	}
	for k := 0; t.Branch != nil && t.Error == nil; k++ {
		if k > 1500 || len(t.Branches) > 60 {
			return false
		}
		t.Step()
		if len(t.Triggered) > 0 {
			break
		}
	}
	return true
}

func p23(g *G, c *Ctx) {
	dir, err := os.MkdirTemp("", "tvdap")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	d := &dapCase{g: g, c: c, dir: dir, src: map[string]string{}, spell: map[string]string{}, bps: map[string][]int{}, ids: map[string]map[int]int{}, refs: map[int]map[string]int{}, kinds: map[string]bool{}}
	for _, n := range []string{"a.teal", pick(g, []string{"b é.teal", "x/a.teal", "A.teal", "a.teal.teal", "aXteal"})} {
		if n != "a.teal" && g.Chance(1, 2) {
			break
		}
		var src string
		switch g.Intn(4) {
		case 0:
			src = genVm(g, vmGen{Flow: true, Max: 12, Version: 8})
		case 1:
			src = genCalls(g)
		case 2:
			src = genVm(g, vmGen{Max: 10, Version: 8})
		default:
			src = genDoc(g)
		}
		if g.Chance(1, 60) {
			src = genVmBig(g)
		}
		p := filepath.Join(dir, n)
		d.files = append(d.files, p)
		d.src[p] = src
		d.spell[p] = p
		if g.Chance(1, 4) {
			d.spell[p] = filepath.Join(dir, "..") + "/" + filepath.Base(dir) + "/./" + n
		}
		os.MkdirAll(filepath.Dir(p), 0700)
		if err := os.WriteFile(p, []byte(src), 0600); err != nil {
			panic(err)
		}
	}
	t := &talker{next: d.next}
	if g.Chance(1, 4) {
		t.cut = func() int { return 1 + g.Intn(9) }
	}
	runDap(t, &d.out)
	d.flush()
	if d.twin != nil && len(d.kinds) >= 4 {
		c.Nontrivial(strings.ReplaceAll(strings.Join(d.log, "\n"), d.dir, "") + fmt.Sprint(d.src))
	}
	for k := range d.kinds {
		c.Class(k)
	}
	if d.stops > 0 {
		c.Class("stopped-at-breakpoint")
	}
}

// the connection ends at any byte, with an end of file or a failure
func p23end(g *G, c *Ctx) {
	var in bytes.Buffer
	in.Write(frame([]byte(`{"seq":1,"type":"request","command":"initialize","arguments":{}}`)))
	in.Write(frame([]byte(`{"seq":2,"type":"request","command":"threads"}`)))
	full := in.Len()
	switch g.Intn(4) {
	case 0:
		in.WriteString(fmt.Sprintf("Content-Length: %s\r\n\r\n{}", pick(g, []string{"-1", "99999999999999999999", "9223372036854775807", "4611686018427387904", "1000000000000", "x", "", "1e3", "0x10", "+2"})))
	case 1:
		in.WriteString(pick(g, []string{"\r\n", "\r\n\r\n", "garbage\r\n\r\n", "Content-Length 5\r\n\r\n", ": x\r\n\r\n", "\n\n\n", "Foo: bar\r\n\r\n"}))
	}
	in.Write(frame([]byte(`{"seq":3,"type":"request","command":"threads"}`)))
	b := in.Bytes()
	cut := len(b)
	if g.Bool() {
		cut = g.Intn(len(b) + 1)
	}
	ioerr := pick(g, []error{io.EOF, io.EOF, errors.New("connection reset"), io.ErrClosedPipe, io.ErrUnexpectedEOF})
	c.Input("%q then %v", clip(string(b[:cut]), 400), ioerr)
	var out bytes.Buffer
	d, err := dbg.New(&failReader{b: b[:cut], err: ioerr}, &out)
	if err != nil {
		c.Fail("dap-new", "%v", err)
	}
	d.Run()
	ms, bad := parseDap(out.Bytes())
	if bad != "" {
		c.Fail("dap-framing", "%s", bad)
	}
	if cut >= full {
		n := 0
		for _, m := range ms {
			if m.Type == "response" && m.RequestSeq == 2 {
				n++
			}
		}
		if n != 1 {
			c.Fail("lost-response", "the complete second request got %d responses", n)
		}
	}
	c.Nontrivial(string(b[:cut]) + ioerr.Error())
}

// toolRun runs a command line tool built from the tree.
func toolRun(c *Ctx, in []byte, tool string, args ...string) (stdout, stderr string, code int) {
	return toolRunIn(c, "", in, tool, args...)
}

func toolRunIn(c *Ctx, cwd string, in []byte, tool string, args ...string) (stdout, stderr string, code int) {
	dir := os.Getenv("TV_BIN")
	if dir == "" {
		c.Discard()
	}
	cmd := exec.Command(filepath.Join(dir, tool), args...)
	cmd.Dir = cwd
	cmd.Stdin = bytes.NewReader(in)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := toolDo(c, cmd)
	if err != nil {
		var x *exec.ExitError
		if !errors.As(err, &x) {
			panic(err)
		}
		code = x.ExitCode()
	}
	return o.String(), e.String(), code
}

// toolDial lets the tool connect to the harness, sends it all of in and returns what it answers.
func toolDial(g *G, c *Ctx, in []byte, tool string, args []string) (stdout, stderr string, code int) {
	dir := os.Getenv("TV_BIN")
	if dir == "" {
		c.Discard()
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Discard()
	}
	defer ln.Close()
	args = append(args, "-addr", ln.Addr().String())
	if g.Bool() {
		args = append(args, "-net", "tcp")
	}
	cmd := exec.Command(filepath.Join(dir, tool), args...)
	var o, e, so bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	gone := make(chan error, 1)
	go func() { gone <- cmd.Wait(); ln.Close() }()
	conn, err := ln.Accept()
	if err != nil {
		c.Fail("tool-connect", "%s %v ended without connecting: %v %s", tool, args, <-gone, clip(e.String(), 300))
	}
	conn.SetDeadline(time.Now().Add(10 * time.Minute))
	go func() {
		conn.Write(in)
		conn.(*net.TCPConn).CloseWrite()
	}()
	copied := make(chan bool)
	go func() { io.Copy(&so, conn); close(copied) }()
	err = toolWait(c, cmd, gone)
	<-copied
	conn.Close()
	if o.Len() > 0 {
		c.Fail("tool-output", "with -addr %s writes %q to standard output", tool, clip(o.String(), 200))
	}
	if err != nil {
		var x *exec.ExitError
		if !errors.As(err, &x) {
			panic(err)
		}
		code = x.ExitCode()
	}
	return so.String(), e.String(), code
}

// the tool does over its standard streams what the library does
func p23tool(g *G, c *Ctx) {
	dir, err := os.MkdirTemp("", "tvdap")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "p.teal")
	src := genVm(g, vmGen{Max: 10, Version: 8})
	if err := os.WriteFile(p, []byte(src), 0600); err != nil {
		panic(err)
	}
	var in bytes.Buffer
	seq := 0
	req := func(cmd string, a any) {
		seq++
		b, _ := json.Marshal(obj{"seq": seq, "type": "request", "command": cmd, "arguments": a})
		in.Write(frame(b))
	}
	req("initialize", obj{})
	req("launch", obj{"program": p})
	req("setBreakpoints", obj{"source": obj{"path": p}, "breakpoints": []obj{{"line": 1 + g.Intn(9)}}})
	for k := g.Range(1, 6); k > 0; k-- {
		req(pick(g, []string{"next", "continue", "stackTrace", "threads", "scopes"}), obj{"threadId": 0, "frameId": 0})
	}
	c.Input("%s\n%s", show(src), strings.ReplaceAll(in.String(), dir, "DIR"))
	var out bytes.Buffer
	d, err := dbg.New(bytes.NewReader(in.Bytes()), &out)
	if err != nil {
		c.Fail("dap-new", "%v", err)
	}
	d.Run()
	var args []string
	debug := ""
	if g.Chance(1, 3) {
		debug = filepath.Join(dir, "debug.log")
		args = append(args, "-debug", debug)
	}
	var so, se string
	code := 0
	if g.Chance(1, 3) {
		so, se, code = toolDial(g, c, in.Bytes(), "tealdbg", args)
	} else {
		so, se, code = toolRun(c, in.Bytes(), "tealdbg", args...)
	}
	if debug != "" {
		if b, err := os.ReadFile(debug); err != nil || !strings.Contains(string(b), `"initialize"`) {
			c.Fail("tool-debug", "the debug file does not tell about the messages: %v %q", err, clip(string(b), 200))
		}
	}
	if code != 0 {
		c.Fail("tool-exit", "tealdbg ended with code %d: %s", code, clip(se, 300))
	}
	if so != out.String() {
		c.Fail("tool-output", "tealdbg writes\n%s\nthe library\n%s", so, out.String())
	}
	c.Nontrivial(in.String() + src)
}

// a client that waits for each response before it sends more
func p23talk(g *G, c *Ctx) {
	dir, err := os.MkdirTemp("", "tvdap")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "p.teal")
	src := genVm(g, vmGen{Max: 10, Version: 8})
	if err := os.WriteFile(p, []byte(src), 0600); err != nil {
		panic(err)
	}
	tool, args := "tealdbg", []string{}
	if g.Bool() {
		tool, args = "tealsp", []string{"dbg"}
	}
	t := newTalk(c, dir, tool, args...)
	defer t.kill()
	seq := 0
	var log []string
	req := func(cmd string, a any) {
		seq++
		b, _ := json.Marshal(obj{"seq": seq, "type": "request", "command": cmd, "arguments": a})
		log = append(log, cmd)
		c.Input("%s %v: waiting for the response to the last of %s with %s", tool, args, strings.Join(log, ", "), show(src))
		t.in.Write(frame(b))
		t.until(cmd, func(out []byte) bool {
			ms, bad := parseDap(out)
			if bad != "" {
				return false
			}
			for _, m := range ms {
				if m.Type == "response" && m.RequestSeq == seq {
					return true
				}
			}
			return false
		})
	}
	req("initialize", obj{})
	req("launch", obj{"program": p})
	req("setBreakpoints", obj{"source": obj{"path": p}, "breakpoints": []obj{{"line": 1 + g.Intn(9)}}})
	for k := g.Range(1, 6); k > 0; k-- {
		req(pick(g, []string{"next", "continue", "stackTrace", "threads", "scopes", "nope"}), obj{"threadId": 0, "frameId": 0})
	}
	if err := t.end(); err != nil {
		c.Fail("tool-exit", "%s ended with %v", tool, err)
	}
	if fs, _ := os.ReadDir(dir); len(fs) != 1 {
		c.Fail("tool-files", "%s left a file behind", tool)
	}
	c.Nontrivial(src + strings.Join(log, ","))
}

func init() {
	register(&Check{
		ID:   "P23",
		Rule: "interactive debugger sessions: random requests (launch, breakpoints in several files, step, continue, inspection, malformed and unknown requests) judged against a machine that is stepped the same way; connections that end or fail anywhere; the command line tool compared with the library. Non-trivial: a session with a launched program and at least four kinds of request",
		Subs: []Sub{
			{Name: "sessions", Fn: p23, Quick: 20000, Thorough: 600000},
			{Name: "endings", Fn: p23end, Quick: 10000, Thorough: 200000},
			{Name: "tool", Fn: p23tool, Quick: 200, Thorough: 2000},
			{Name: "conversation", Fn: p23talk, Quick: 200, Thorough: 4000},
		},
	})
}
