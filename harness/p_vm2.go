package main

// Running with breakpoints (P22) and the optimizer (P24).

import (
	"fmt"
	"sort"
	"strings"

	"github.com/dragmz/teal"
)

// vmState renders everything the machine shows.
func vmState(vm *teal.Vm, n int) string {
	var o []string
	for _, b := range vm.Branches {
		var tr []string
		for _, t := range b.Trace {
			tr = append(tr, t.String())
		}
		line, name := b.Line, b.Name
		if isDead(b, n) {
			line, name = -1, "ended"
		}
		fr := ""
		for _, f := range b.Frames {
			fr += fmt.Sprintf(" %d/%s", f.Return, f.Name)
		}
		o = append(o, fmt.Sprintf("#%d line %d %q budget %d stack [%s] frames [%s] trace %d", b.Id, line, name, b.Budget, showVm(b), fr, len(tr)))
	}
	cur := "none"
	if vm.Branch != nil && !isDead(vm.Branch, n) {
		cur = fmt.Sprint(vm.Branch.Id)
	}
	o = append(o, "current "+cur)
	if vm.Error != nil {
		o = append(o, fmt.Sprintf("error %v", vm.Error))
	}
	return strings.Join(o, "\n")
}

func sortedInts(m map[int]bool) []int {
	r := []int{}
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// arrive executes one step of vm and returns which branches came to which
// line by it.
func arrive(vm *teal.Vm, n int) map[int]int {
	lens := map[int]int{}
	for _, b := range vm.Branches {
		lens[b.Id] = len(b.Trace)
	}
	old := len(vm.Branches)
	vm.Step()
	at := map[int]int{}
	if vm.Error != nil {
		return at
	}
	for i, b := range vm.Branches {
		if isDead(b, n) {
			continue
		}
		if i >= old || len(b.Trace) != lens[b.Id] {
			at[b.Id] = b.Line
		}
	}
	return at
}

func p22(g *G, c *Ctx) {
	var src string
	switch g.Intn(3) {
	case 0:
		src = genVm(g, vmGen{Flow: true, Max: 12, Version: 8})
	case 1:
		src = genCalls(g)
	default:
		src = genVm(g, vmGen{Flow: true, Max: 6, Version: 8}) + "\nx:\n" + vmLoopBody(g) + "\nb x"
	}
	if g.Chance(1, 200) {
		src = genVmBig(g)
	}
	if g.Chance(1, 8) { // an instruction in the first line, too
		src = pick(g, []string{"int 1\npop\n", "int 0\nbz first\nfirst:\n", "first: // here\nbyte \"\"\nlen\nbnz first\n"}) + src
	}
	p := refAnalyze(src)
	n := len(p.Stmts)
	isOp := func(l int) bool { return l >= 0 && l < n && p.Stmts[l].Kind == "op" }
	vm := teal.NewVm(teal.Process(src))
	twin := teal.NewVm(teal.Process(src))
	var log []string
	steps, stops := 0, 0
	set := map[int]bool{}
	for round := 0; round < 6; round++ {
		if round == 0 || g.Chance(1, 3) {
			var lns []int
			k := g.Intn(4)
			if g.Chance(1, 8) {
				k = g.Range(4, 40)
			}
			for ; k > 0; k-- {
				switch g.Intn(8) {
				case 0:
					lns = append(lns, n+g.Intn(3))
				case 1:
					lns = append(lns, -1-g.Intn(2))
				default:
					lns = append(lns, g.Intn(n+1))
				}
			}
			if len(lns) > 0 && g.Chance(1, 6) {
				lns = append(lns, lns[0])
			}
			set = map[int]bool{}
			log = append(log, fmt.Sprintf("breakpoints %v", lns))
			c.Input("%s\n%s", show(src), strings.Join(log, "; "))
			got := vm.SetBreakpoints(lns)
			for _, l := range lns {
				if got[l] != isOp(l) {
					c.Fail("bp-verified", "breakpoint at line %d: verified %v, the line holds an instruction: %v", l, got[l], isOp(l))
				}
				if isOp(l) {
					set[l] = true
				}
			}
			for l, ok := range got {
				if ok && !set[l] {
					c.Fail("bp-verified", "line %d was not asked for", l)
				}
			}
		}
		if vm.Error != nil || vm.Branch == nil {
			break
		}
		if g.Chance(1, 4) { // a single step reports the same way
			log = append(log, "step")
			c.Input("%s\n%s", show(src), strings.Join(log, "; "))
			vm.Step()
			at := arrive(twin, n)
			checkStop(c, vm, twin, at, set, n, true)
			continue
		}
		// run the twin step by step to where the machine has to stop
		var at map[int]int
		done := false
		for k := 0; ; k++ {
			if k > 3000 || len(twin.Branches) > 60 {
				return // too long to run: branches multiply in loops
			}
			if twin.Branch == nil || twin.Error != nil {
				done = true
				break
			}
			at = arrive(twin, n)
			steps++
			hit := false
			for _, l := range at {
				if set[l] {
					hit = true
				}
			}
			if hit {
				break
			}
		}
		log = append(log, "run")
		c.Input("%s\n%s", show(src), strings.Join(log, "; "))
		vm.Run()
		if done {
			at = nil
		} else {
			stops++
		}
		checkStop(c, vm, twin, at, set, n, false)
	}
	if stops > 0 && steps > 2 {
		c.Nontrivial(src + strings.Join(log, ";"))
	}
	if stops > 1 {
		c.Class("several-stops")
	}
}

func checkStop(c *Ctx, vm, twin *teal.Vm, at map[int]int, set map[int]bool, n int, single bool) {
	if a, b := vmState(vm, n), vmState(twin, n); a != b {
		c.Fail("bp-state", "the machine stopped in a state that stepping does not reach first:\n%s\nexpected:\n%s", a, b)
	}
	for id, l := range at {
		if set[l] {
			found := false
			for _, x := range vm.Triggered[id] {
				found = found || x == l
			}
			if !found {
				c.Fail("bp-hit", "branch %d came to line %d, hits reported: %v", id, l, vm.Triggered)
			}
		}
	}
	for id, ls := range vm.Triggered {
		for _, l := range ls {
			if at[id] != l || !set[l] {
				c.Fail("bp-hit", "branch %d is reported at breakpoint line %d; branches came to %v, breakpoints %v", id, l, at, sortedInts(set))
			}
		}
	}
}

// ---- P24 optimizer -----------------------------------------------------------

// flowRun walks a program with a fixed list of decisions and returns the
// instructions it executes, without plain jumps.
func flowRun(ops []rStmt, choice []int, max int) []string {
	labels := map[string]int{}
	for i := len(ops) - 1; i >= 0; i-- {
		if ops[i].Kind == "label" {
			labels[ops[i].Name] = i
		}
	}
	var out []string
	var calls []int
	k := 0
	pc := 0
	idle := 0
	for len(out) < max {
		if pc >= len(ops) {
			return append(out, "(end)")
		}
		st := ops[pc]
		if st.Kind != "op" {
			pc++
			continue
		}
		jump := func(v rVal) {
			l, ok := labels[v.S]
			if !ok {
				l = len(ops)
				out = append(out, "(missing label)")
			}
			pc = l
		}
		if st.Name == "b" {
			if idle++; idle > len(ops)+1 {
				return append(out, "(loops)")
			}
			jump(st.Vals[0])
			continue
		}
		idle = 0
		out = append(out, st.canon())
		switch st.Name {
		case "bz", "bnz", "switch", "match":
			d := 0
			if k < len(choice) {
				d = choice[k] % (len(st.Vals) + 1)
			}
			k++
			if d == 0 {
				pc++
			} else {
				jump(st.Vals[d-1])
			}
		case "callsub":
			calls = append(calls, pc+1)
			jump(st.Vals[0])
		case "retsub":
			if len(calls) == 0 {
				return append(out, "(no caller)")
			}
			pc = calls[len(calls)-1]
			calls = calls[:len(calls)-1]
		case "return", "err":
			return out
		default:
			pc++
		}
	}
	return out
}

func p24(g *G, c *Ctx) {
	var src string
	switch g.Intn(3) {
	case 0:
		src = genCalls(g)
	case 1:
		src = genVm(g, vmGen{Flow: true, Max: 16, Version: 8})
	default:
		src = genFlow(g)
	}
	p := refAnalyze(src)
	if len(p.Miss) > 0 {
		c.Class("missing-labels")
	}
	seen := map[string]bool{}
	for _, s := range p.Syms {
		if seen[s.Name] {
			c.Discard()
		}
		seen[s.Name] = true
	}
	for _, st := range p.Stmts {
		if st.Err || st.loose() {
			c.Discard()
		}
		// a quoted string is no name a label can have
		switch st.Name {
		case "b", "bz", "bnz", "switch", "match", "callsub":
			for _, v := range st.Vals {
				if st.Kind == "op" && strings.Contains(v.S, "\"") {
					c.Discard()
				}
			}
		}
	}
	c.Input("%s", show(src))
	res := teal.Process(src)
	before := res.Listing.String()
	opt := res.Listing.Optimize()
	if after := res.Listing.String(); after != before {
		c.Fail("opt-mutates", "optimizing changed the program it was given:\n%s\nwas:\n%s", after, before)
	}
	text := opt.String()
	q := refAnalyze("#pragma version 9\n" + text)
	if len(opt) > len(res.Listing) {
		c.Fail("opt-longer", "%d statements became %d", len(res.Listing), len(opt))
	}
	qs := q.Stmts[1:]
	for i := 0; i < 12; i++ {
		var ch []int
		for k := 0; k < 10; k++ {
			ch = append(ch, g.Intn(3))
		}
		a, b := flowRun(p.Stmts, ch, 80), flowRun(qs, ch, 80)
		if strings.Join(a, "\n") != strings.Join(b, "\n") {
			c.Fail("opt-behaviour", "with decisions %v the program executes\n%s\nafter optimizing\n%s\noptimized program:\n%s", ch, strings.Join(a, "; "), strings.Join(b, "; "), text)
		}
	}
	// what it exists for
	if n := len(qs); n < len(p.Stmts) {
		c.Class("shortened")
		c.Nontrivial(src)
	}
}

// the same for a program made with the builder functions, where an
// instruction shares its label with the definition
func p24built(g *G, c *Ctx) {
	names := []string{"a", "b", "c", "d"}
	ls := map[string]*teal.LabelExpr{}
	for _, n := range names {
		ls[n] = teal.Label(n)
	}
	lbl := func() *teal.LabelExpr { return ls[pick(g, names)] }
	var prog teal.Program
	placed := map[*teal.LabelExpr]bool{}
	for k := g.Range(2, 14); k > 0; k-- {
		var e teal.Expr
		switch g.Intn(12) {
		case 0, 1:
			e = teal.B(lbl())
		case 2:
			e = pick(g, []teal.Expr{teal.Bz(lbl()), teal.Bnz(lbl())})
		case 3:
			e = teal.CallSub(lbl())
		case 4:
			e = pick(g, []teal.Expr{teal.Expr(teal.RetSub), teal.Expr(teal.Return), teal.Expr(teal.Err)})
		case 5:
			e = teal.Switch(lbl(), lbl())
		case 6:
			e = teal.Int(uint64(g.Intn(9)))
		case 7:
			e = pick(g, []teal.Expr{teal.Comment(" c"), teal.Empty})
		default:
			l := lbl()
			if placed[l] {
				continue
			}
			placed[l] = true
			e = l
		}
		prog = append(prog, e)
	}
	l := teal.Compile(prog)
	before := l.String()
	c.Input("the program built for %s", show(before))
	opt := l.Optimize()
	if after := l.String(); after != before {
		c.Fail("opt-mutates", "optimizing changed the program it was given:\n%s\nwas:\n%s", after, before)
	}
	if len(opt) > len(l) {
		c.Fail("opt-longer", "%d statements became %d", len(l), len(opt))
	}
	ps, qs := refAnalyze("#pragma version 9\n" + before).Stmts[1:], refAnalyze("#pragma version 9\n" + opt.String()).Stmts[1:]
	for i := 0; i < 8; i++ {
		var ch []int
		for k := 0; k < 10; k++ {
			ch = append(ch, g.Intn(3))
		}
		a, b := flowRun(ps, ch, 60), flowRun(qs, ch, 60)
		if strings.Join(a, "\n") != strings.Join(b, "\n") {
			c.Fail("opt-behaviour", "with decisions %v the program executes\n%s\nafter optimizing\n%s\noptimized program:\n%s", ch, strings.Join(a, "; "), strings.Join(b, "; "), opt)
		}
	}
	if len(opt) < len(l) {
		c.Nontrivial(before)
	}
}

func init() {
	register(&Check{
		ID:   "P22",
		Rule: "programs with branches, calls and loops, random breakpoints (on instructions, labels, blank lines and outside) and sequences of run and step, compared with a twin machine that is stepped. Non-trivial: the machine stopped at a breakpoint after at least three steps",
		Subs: []Sub{{Name: "breakpoints", Fn: p22, Quick: 40000, Thorough: 1000000}},
	})
	register(&Check{
		ID:   "P24",
		Rule: "programs with branches, calls, unreachable and redundant code; the optimized listing is executed with the same random decisions as the original. Non-trivial: optimizing removed something",
		Subs: []Sub{
			{Name: "optimize", Fn: p24, Quick: 40000, Thorough: 1000000},
			{Name: "built", Fn: p24built, Quick: 30000, Thorough: 800000},
		},
	})
}
