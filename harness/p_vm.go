package main

// The debugger's virtual machine against a reference machine (P19-P22).

import (
	"fmt"
	"sort"
	"strings"

	"github.com/dragmz/teal"
)

// ---- reference machine ----

// mval is a value on the stack: its type (U, B or '.' = any), how the machine
// shows it (learned when it was pushed), its length if it is constant bytes,
// and its number if it is a constant.
type mval struct {
	T     byte
	S     string
	Known bool // S is known
	Len   int  // -1 = unknown
	U     uint64
	IsU   bool
	// wanted text inside S when it is first seen
	Want string
	// other acceptable type (a more precise reading)
	Alt byte
}

type mframe struct {
	ret   int
	h     int
	name  string
	clear bool
	args  int
	rets  int
}

type mbr struct {
	id      int
	line    int
	name    string
	stack   []mval
	frames  []mframe
	budget  int
	trace   []string
	ran     []string // the same as the machine printed it when it was executed
	scratch map[int]mval
	fuzzy   bool // an unknown slot was written: loads are not judged
	dead    bool
	bad     bool // stopped with an error: no longer judged
}

type mvm struct {
	p      *rProg
	labels map[string]int
	dup    map[string]bool
	ops    []bool // line holds an instruction
}

func newMvm(p *rProg) *mvm {
	m := &mvm{p: p, labels: map[string]int{}, dup: map[string]bool{}}
	for i, st := range p.Stmts {
		m.ops = append(m.ops, st.Kind == "op")
		if st.Kind == "label" {
			if _, ok := m.labels[st.Name]; ok {
				m.dup[st.Name] = true
			}
			m.labels[st.Name] = i
		}
	}
	return m
}

// settle moves a branch from line to the next instruction.
func (m *mvm) settle(b *mbr) {
	for b.line >= 0 && b.line < len(m.ops) && !m.ops[b.line] {
		if m.p.Stmts[b.line].Kind == "label" {
			b.name = m.p.Stmts[b.line].Name
		}
		b.line++
	}
	if b.line < 0 || b.line >= len(m.ops) {
		b.dead = true
	}
}

func (b *mbr) clone() *mbr {
	n := *b
	n.stack = append([]mval{}, b.stack...)
	n.frames = append([]mframe{}, b.frames...)
	n.trace = append([]string{}, b.trace...)
	n.ran = append([]string{}, b.ran...)
	n.scratch = map[int]mval{}
	for k, v := range b.scratch {
		n.scratch[k] = v
	}
	return &n
}

type vmFault struct{ unjudged bool }

func (b *mbr) pop(t byte) mval {
	if len(b.stack) == 0 {
		panic(vmFault{})
	}
	v := b.stack[len(b.stack)-1]
	if t != '.' && v.T != '.' && v.T != t {
		panic(vmFault{})
	}
	b.stack = b.stack[:len(b.stack)-1]
	return v
}

func (b *mbr) push(v mval)  { b.stack = append(b.stack, v) }
func (b *mbr) fresh(t byte) { b.push(mval{T: t, Len: -1}) }
func unjudged()             { panic(vmFault{unjudged: true}) }
func faulted(cond bool) {
	if cond {
		panic(vmFault{})
	}
}

// costs that are not 1; index 1 is the cost at version 1 if different
var refCosts = map[string][2]int{
	"sha256": {35, 7}, "keccak256": {130, 26}, "sha512_256": {45, 9}, "sha3_256": {130, 130},
	"ed25519verify": {1900, 1900}, "ed25519verify_bare": {1900, 1900}, "ecdsa_pk_recover": {2000, 2000},
	"divmodw": {20, 20}, "sqrt": {4, 4}, "expw": {10, 10}, "bsqrt": {40, 40}, "vrf_verify": {5700, 5700},
	"b+": {10, 10}, "b-": {10, 10}, "b*": {20, 20}, "b/": {20, 20}, "b%": {20, 20},
	"b|": {6, 6}, "b&": {6, 6}, "b^": {6, 6}, "b~": {4, 4},
}

// refCost is the cost of the statement; ok is false when it depends on
// something the analysis cannot know.
func (m *mvm) refCost(st *rStmt, b *mbr) (int, bool) {
	ceil := func(a, n int) int { return (a + n - 1) / n }
	peek := func(i int) (int, bool) {
		if i >= len(b.stack) {
			return 0, false
		}
		v := b.stack[len(b.stack)-1-i]
		return v.Len, v.Len >= 0
	}
	if c, ok := refCosts[st.Name]; ok {
		if m.p.Version == 1 {
			return c[1], true
		}
		return c[0], true
	}
	switch st.Name {
	case "ecdsa_verify", "ecdsa_pk_decompress":
		t := map[string][]int{"ecdsa_verify": {1700, 2500}, "ecdsa_pk_decompress": {650, 2400}}[st.Name]
		if st.Vals[0].U < 2 {
			return t[st.Vals[0].U], true
		}
		return 0, false
	case "ec_add", "ec_scalar_mul", "ec_pairing_check", "ec_multi_exp", "ec_subgroup_check", "ec_map_to":
		// provisional costs of the curve opcodes
		t := map[string]int{"ec_add": 10, "ec_scalar_mul": 100, "ec_pairing_check": 1000, "ec_multi_exp": 100, "ec_subgroup_check": 100, "ec_map_to": 100}[st.Name]
		if st.Vals[0].U < 4 {
			return t * int(1+st.Vals[0].U/2), true
		}
		return 0, false
	case "base64_decode":
		if n, ok := peek(0); ok {
			return 1 + ceil(n, 16), true
		}
		return 0, false
	case "json_ref":
		if n, ok := peek(1); ok {
			return 25 + 2*ceil(n, 7), true
		}
		return 0, false
	}
	return 1, true
}

// exec executes the instruction on the branch (its line moves on) and returns
// the branches it forks; it panics with vmFault.
func (m *mvm) exec(st *rStmt, b *mbr) (forks []*mbr) {
	here := b.line
	target := func(v rVal) int {
		if m.dup[v.S] {
			unjudged()
		}
		if l, ok := m.labels[v.S]; ok {
			return l
		}
		return -1
	}
	fork := func(v rVal) {
		n := b.clone()
		n.line = target(v)
		m.settle(n)
		forks = append(forks, n)
	}
	for _, v := range st.Vals {
		if v.Loose {
			unjudged()
		}
	}
	u := func(i int) int { return int(st.Vals[i].U) }
	next := here + 1
	switch st.Name {
	case "int", "pushint", "pushints":
		for _, v := range st.Vals {
			b.push(mval{T: 'U', Len: -1, U: v.U, IsU: true, Want: fmt.Sprint(v.U)})
		}
	case "byte", "pushbytes", "pushbytess":
		for _, v := range st.Vals {
			b.push(mval{T: 'B', Len: len(v.B)})
		}
	case "method":
		b.push(mval{T: 'B', Len: 4})
	case "dup":
		v := b.pop('.')
		b.push(v)
		b.push(v)
	case "dup2":
		y := b.pop('.')
		x := b.pop('.')
		b.push(x)
		b.push(y)
		b.push(x)
		b.push(y)
	case "dupn":
		v := b.pop('.')
		for i := 0; i <= u(0); i++ {
			b.push(v)
		}
	case "popn":
		for i := 0; i < u(0); i++ {
			b.pop('.')
		}
	case "dig":
		faulted(u(0) >= len(b.stack))
		b.push(b.stack[len(b.stack)-1-u(0)])
	case "bury":
		v := b.pop('.')
		faulted(u(0) == 0 || u(0) > len(b.stack))
		b.stack[len(b.stack)-u(0)] = v
	case "cover":
		v := b.pop('.')
		faulted(u(0) > len(b.stack))
		k := len(b.stack) - u(0)
		rest := append([]mval{}, b.stack[k:]...)
		b.stack = append(append(b.stack[:k], v), rest...)
	case "uncover":
		faulted(u(0) >= len(b.stack))
		k := len(b.stack) - 1 - u(0)
		v := b.stack[k]
		rest := append([]mval{}, b.stack[k+1:]...)
		b.stack = append(append(b.stack[:k], rest...), v)
	case "swap":
		y := b.pop('.')
		x := b.pop('.')
		b.push(y)
		b.push(x)
	case "select":
		b.pop('U')
		y := b.pop('.')
		x := b.pop('.')
		r := mval{T: '.', Len: -1}
		if x.T == y.T {
			r.Alt = x.T
		}
		b.push(r)
	case "load":
		v, ok := b.scratch[u(0)]
		r := mval{T: '.', Len: -1}
		if ok && !b.fuzzy {
			r.Alt = v.T
			r.Len = v.Len
			if v.Known {
				r.Want = v.S
			}
		} else if b.fuzzy {
			r.Alt = '*'
		} else {
			r.Alt = 'U'
		}
		b.push(r)
	case "store":
		b.scratch[u(0)] = b.pop('.')
	case "stores":
		v := b.pop('.')
		i := b.pop('U')
		if i.IsU {
			faulted(i.U > 255)
			b.scratch[int(i.U)] = v
		} else {
			b.fuzzy = true
		}
	case "loads", "gload", "gloads", "gloadss":
		for _, t := range st.Op.Args {
			b.pop(byte(t))
		}
		b.push(mval{T: '.', Alt: '*', Len: -1})
	case "setbit":
		b.pop('U')
		b.pop('U')
		v := b.pop('.')
		b.push(mval{T: '.', Alt: v.T, Len: -1})
	case "json_ref":
		b.pop('B')
		b.pop('B')
		f, _ := fieldByVal("json", u(0))
		b.push(mval{T: '.', Alt: f.Type, Len: -1})
	case "b":
		next = target(st.Vals[0])
	case "bz", "bnz":
		b.pop('U')
		fork(st.Vals[0])
	case "switch":
		b.pop('U')
		for _, v := range st.Vals {
			fork(v)
		}
	case "match":
		for range st.Vals {
			b.pop('.')
		}
		b.pop('.')
		for _, v := range st.Vals {
			fork(v)
		}
	case "callsub":
		b.frames = append(b.frames, mframe{ret: here, h: len(b.stack), name: b.name})
		next = target(st.Vals[0])
	case "proto":
		faulted(len(b.frames) == 0)
		f := &b.frames[len(b.frames)-1]
		if f.clear || f.h != len(b.stack) {
			unjudged() // not the first instruction of the subroutine
		}
		faulted(u(0) > f.h)
		f.clear, f.args, f.rets = true, u(0), u(1)
	case "retsub":
		faulted(len(b.frames) == 0)
		f := b.frames[len(b.frames)-1]
		if f.clear {
			faulted(len(b.stack) < f.h+f.rets)
			res := append([]mval{}, b.stack[len(b.stack)-f.rets:]...)
			b.stack = append(b.stack[:f.h-f.args], res...)
		}
		b.frames = b.frames[:len(b.frames)-1]
		b.name = f.name
		next = f.ret + 1
	case "frame_dig", "frame_bury":
		faulted(len(b.frames) == 0)
		f := b.frames[len(b.frames)-1]
		i := f.h + int(st.Vals[0].I)
		if !f.clear || -int(st.Vals[0].I) > f.args {
			if i >= 0 {
				unjudged() // below the arguments of the subroutine
			}
		}
		if st.Name == "frame_dig" {
			faulted(i < 0 || i >= len(b.stack))
			b.push(b.stack[i])
		} else {
			v := b.pop('.')
			faulted(i < 0 || i >= len(b.stack))
			b.stack[i] = v
		}
	case "return":
		b.pop('U')
		next = -1
	case "err":
		next = -1
	default:
		op := refOpByName[st.Name] // the opcode meant: extract may be extract3
		args := op.Args
		for i := len(args) - 1; i >= 0; i-- {
			b.pop(args[i])
		}
		for i, t := range op.Rets {
			if t == '.' {
				t = 0
				for k, im := range strings.Fields(op.Imms) {
					grp := fieldGroup(strings.TrimRight(im, "*?"))
					if _, ok := refFields[grp]; ok && k < len(st.Vals) && i == 0 {
						if f, ok := fieldByVal(grp, u(k)); ok {
							t = rune(f.Type)
						}
					}
				}
				if t == 0 {
					b.push(mval{T: '.', Alt: '*', Len: -1})
					continue
				}
			}
			b.fresh(byte(t))
		}
	}
	b.line = next
	m.settle(b)
	return
}

func vmT(t teal.VmDataType) byte {
	switch t {
	case teal.VmTypeAny:
		return '.'
	case teal.VmTypeUint64:
		return 'U'
	case teal.VmTypeBytes:
		return 'B'
	}
	return 'N'
}

// ---- lockstep ----

type lockstep struct {
	c      *Ctx
	m      *mvm
	vm     *teal.Vm
	brs    map[int]*mbr
	judge  string // "" = everything; keys outside are not raised
	steps  int
	forked int
	calls  int
	faults int
	spent  int
	ended  int
	opsRun map[string]bool
	large  bool
}

func isDead(b *teal.VmBranch, n int) bool { return b.Line < 0 || b.Line >= n }

func newLockstep(c *Ctx, p *rProg, vm *teal.Vm) *lockstep {
	k := &lockstep{c: c, m: newMvm(p), vm: vm, brs: map[int]*mbr{}, opsRun: map[string]bool{}}
	if len(vm.Branches) != 1 {
		c.Fail("vm-start", "%d branches at the start", len(vm.Branches))
	}
	b := vm.Branches[0]
	mb := &mbr{id: b.Id, name: teal.MainName, budget: b.Budget, scratch: map[int]mval{}}
	if b.Budget != 700 {
		c.Fail("vm-budget", "budget %d at the start", b.Budget)
	}
	k.m.settle(mb)
	k.brs[b.Id] = mb
	k.compare(b, mb)
	k.current()
	return k
}

// current checks the machine's idea of the branch to execute next.
func (k *lockstep) current() {
	live := 0
	for _, b := range k.brs {
		if !b.dead && !b.bad {
			live++
		}
	}
	if k.vm.Branch == nil {
		if live > 0 {
			k.c.Fail("vm-ended", "the machine has ended with %d branches still to run", live)
		}
		return
	}
	if k.brs[k.vm.Branch.Id] == nil {
		k.c.Fail("vm-current", "the current branch %d is not listed", k.vm.Branch.Id)
	}
}

func (k *lockstep) where(b *mbr) string {
	return fmt.Sprintf("branch %d after %v", b.id, b.trace)
}

func showStack(s []mval) string {
	var o []string
	for _, v := range s {
		o = append(o, string(v.T)+map[bool]string{true: "[" + v.S + "]"}[v.Known])
	}
	return strings.Join(o, " ")
}

func showVm(b *teal.VmBranch) string {
	var o []string
	for _, v := range b.Stack.Items {
		o = append(o, fmt.Sprintf("%c[%s]", vmT(v.T), v))
	}
	return strings.Join(o, " ")
}

// compare checks a branch against its model, learning how new values look.
func (k *lockstep) compare(b *teal.VmBranch, mb *mbr) {
	c := k.c
	if isDead(b, len(k.m.ops)) != mb.dead {
		c.Fail("vm-line", "%s: at line %d, expected %d (ended: %v)", k.where(mb), b.Line, mb.line, mb.dead)
	}
	if !mb.dead {
		if b.Line != mb.line {
			c.Fail("vm-line", "%s: at line %d, expected %d", k.where(mb), b.Line, mb.line)
		}
		if b.Name != mb.name {
			c.Fail("vm-name", "%s: named %q, expected %q", k.where(mb), b.Name, mb.name)
		}
		if len(b.Frames) != len(mb.frames) {
			c.Fail("vm-frames", "%s: %d frames, expected %d", k.where(mb), len(b.Frames), len(mb.frames))
		}
		for i, f := range b.Frames {
			if f.Return != mb.frames[i].ret || f.Name != mb.frames[i].name {
				c.Fail("vm-frames", "%s: frame %d returns to %d in %q, expected %d in %q", k.where(mb), i, f.Return, f.Name, mb.frames[i].ret, mb.frames[i].name)
			}
		}
	}
	if b.Budget != mb.budget {
		c.Fail("vm-budget", "%s: budget %d, expected %d", k.where(mb), b.Budget, mb.budget)
	}
	if len(b.Trace) != len(mb.trace) {
		c.Fail("vm-trace", "%s: trace has %d instructions: %v", k.where(mb), len(b.Trace), b.Trace)
	}
	if len(b.Stack.Items) != len(mb.stack) {
		c.Fail("vm-stack", "%s: stack %s, expected %s", k.where(mb), showVm(b), showStack(mb.stack))
	}
	for i := range mb.stack {
		v, e := b.Stack.Items[i], &mb.stack[i]
		t, s := vmT(v.T), v.String()
		okT := t == e.T || (e.Alt != 0 && (t == e.Alt || e.Alt == '*' && t != 'N'))
		if !okT || e.Known && s != e.S || e.Want != "" && !strings.Contains(s, e.Want) {
			c.Fail("vm-stack", "%s: stack %s, expected %s (value %d, want %q)", k.where(mb), showVm(b), showStack(mb.stack), i, e.Want)
		}
		e.T, e.Alt = t, 0
		e.S, e.Known, e.Want = s, true, ""
	}
}

// step executes one Step and checks everything; false = nothing more to do.
func (k *lockstep) step() bool {
	c, vm := k.c, k.vm
	var want *mbr
	if vm.Branch != nil {
		if b := k.brs[vm.Branch.Id]; !b.dead {
			want = b
		}
	}
	lens := map[int]int{}
	for _, b := range vm.Branches {
		lens[b.Id] = len(b.Trace)
	}
	old := len(vm.Branches)
	vm.Step()
	k.steps++
	if len(vm.Branches) < old {
		c.Fail("vm-branches", "branches disappeared")
	}
	// who ran?
	var ran *teal.VmBranch
	for _, b := range vm.Branches[:old] {
		if len(b.Trace) != lens[b.Id] {
			if ran != nil {
				c.Fail("vm-step", "branches %d and %d both ran in one step", ran.Id, b.Id)
			}
			ran = b
		}
	}
	if ran == nil {
		// nothing ran: a branch ran out of budget, or all have ended
		if want == nil && vm.Branch != nil {
			// the machine moved on to another branch first
			if mb := k.brs[vm.Branch.Id]; mb != nil && mb.bad {
				return true
			} else if mb != nil && !mb.dead {
				want = mb
			}
		}
		if want == nil {
			if vm.Error != nil {
				c.Fail("vm-error", "error %v with nothing to execute", vm.Error)
			}
			if live := k.live(); len(live) > 0 {
				c.Fail("vm-step", "nothing ran with branches %v to run", live)
			}
			return false
		}
		if want.bad {
			return true
		}
		st := &k.m.p.Stmts[want.line]
		cost, known := k.m.refCost(st, want)
		if vm.Error != nil {
			// the cost itself could not be determined
			if known {
				c.Fail("vm-error", "%s: %q fails: %v", k.where(want), st.canon(), vm.Error)
			}
			want.bad = true
			k.faults++
			return true
		}
		if known && cost <= want.budget {
			c.Fail("vm-step", "%s: %q (cost %d, budget %d) was not executed", k.where(want), st.canon(), cost, want.budget)
		}
		if !known && st.Name != "json_ref" && st.Name != "base64_decode" {
			c.Fail("vm-step", "%s: %q was not executed", k.where(want), st.canon())
		}
		want.dead = true
		k.spent++
		k.all(old)
		return true
	}
	if want != nil && ran.Id != want.id {
		c.Fail("vm-step", "branch %d ran, but branch %d was the current one", ran.Id, want.id)
	}
	mb := k.brs[ran.Id]
	if mb.dead {
		c.Fail("vm-step", "%s: the branch ran although it had ended", k.where(mb))
	}
	if mb.bad {
		return true
	}
	if len(ran.Trace) != lens[ran.Id]+1 {
		c.Fail("vm-step", "%s: one step executed %d instructions", k.where(mb), len(ran.Trace)-lens[ran.Id])
	}
	st := &k.m.p.Stmts[mb.line]
	k.opsRun[st.Name] = true
	last := ran.Trace[len(ran.Trace)-1].String()
	if r := refAnalyze(fmt.Sprintf("#pragma version %d\n%s", 9, last)); len(r.Stmts) != 2 || r.Stmts[1].canon() != st.canon() {
		if !st.loose() {
			c.Fail("vm-trace", "%s: executed %q, expected %q", k.where(mb), last, st.canon())
		}
	}
	cost, known := k.m.refCost(st, mb)
	if !known {
		cost = mb.budget - ran.Budget
		if cost < 1 {
			c.Fail("vm-budget", "%s: %q cost %d", k.where(mb), st.canon(), cost)
		}
	}
	if cost > mb.budget {
		c.Fail("vm-budget", "%s: %q (cost %d) was executed with budget %d", k.where(mb), st.canon(), cost, mb.budget)
	}
	n := mb.clone()
	n.budget -= cost
	n.trace = append(n.trace, st.canon())
	n.ran = append(n.ran, last)
	var forks []*mbr
	var fault *vmFault
	func() {
		defer func() {
			if e := recover(); e != nil {
				f, ok := e.(vmFault)
				if !ok {
					panic(e)
				}
				fault = &f
			}
		}()
		forks = k.m.exec(st, n)
	}()
	if fault != nil {
		k.faults++
		if fault.unjudged {
			panic(stopCase{})
		}
		if vm.Error == nil {
			c.Fail("vm-no-error", "%s: %q on stack %s was executed without an error; stack now %s", k.where(mb), st.canon(), showStack(mb.stack), showVm(ran))
		}
		if ran.Line != mb.line {
			c.Fail("vm-error-line", "%s: after the error the branch is at line %d, not %d", k.where(mb), ran.Line, mb.line)
		}
		mb.bad = true
		return true
	}
	if vm.Error != nil {
		c.Fail("vm-error", "%s: %q on stack %s fails: %v", k.where(mb), st.canon(), showStack(mb.stack), vm.Error)
	}
	for _, f := range forks {
		f.budget, f.trace, f.ran = n.budget, append([]string{}, n.trace...), append([]string{}, n.ran...)
	}
	if st.Name == "callsub" {
		k.calls++
	}
	k.brs[n.id] = n
	// new branches: one per target, wherever they are in the list
	fresh := vm.Branches[old:]
	if len(fresh) != len(forks) {
		c.Fail("vm-fork", "%s: %q gave %d new branches", k.where(mb), st.canon(), len(fresh))
	}
	k.forked += len(forks)
	left := append([]*mbr{}, forks...)
	for _, b := range fresh {
		if k.brs[b.Id] != nil {
			c.Fail("vm-fork", "two branches with id %d", b.Id)
		}
		hit := -1
		for i, f := range left {
			if f.dead == isDead(b, len(k.m.ops)) && (f.dead || f.line == b.Line && f.name == b.Name) {
				hit = i
				break
			}
		}
		if hit < 0 {
			c.Fail("vm-fork", "%s: %q gave a branch at line %d (%q)", k.where(mb), st.canon(), b.Line, b.Name)
		}
		f := left[hit]
		left = append(left[:hit], left[hit+1:]...)
		f.id = b.Id
		k.brs[b.Id] = f
	}
	if n.dead {
		k.ended++
	}
	k.all(len(vm.Branches))
	return true
}

type stopCase struct{}

func (k *lockstep) all(n int) {
	for _, b := range k.vm.Branches {
		mb := k.brs[b.Id]
		if mb.bad {
			continue
		}
		k.compare(b, mb)
	}
	k.current()
}

// live lists the branches that can still run, in order.
func (k *lockstep) live() (ids []int) {
	for id, b := range k.brs {
		if !b.dead && !b.bad {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	return
}

// ---- programs for the machine ----

type vmGen struct {
	Flow    bool // branches, calls
	Costly  bool // costly opcodes and loops
	Stack   bool // stack manipulation
	Wrong   int  // one op in Wrong is drawn regardless of the stack
	Max     int
	Version int
}

var stackOps = []string{"dup", "dup2", "swap", "dig", "cover", "uncover", "bury", "popn", "dupn", "pop", "select", "store", "load", "stores", "loads", "pushints", "pushbytess", "pushint", "int", "byte", "frame_dig", "frame_bury"}
var costOps = []string{"sha256", "keccak256", "sha512_256", "sha3_256", "b+", "b-", "b*", "b/", "b%", "b|", "b&", "b^", "b~", "bsqrt", "divmodw", "sqrt", "expw", "base64_decode", "json_ref", "ecdsa_pk_decompress", "ed25519verify", "ed25519verify_bare", "ec_add", "ec_map_to", "ec_multi_exp", "ec_scalar_mul", "ec_subgroup_check", "ecdsa_verify", "ecdsa_pk_recover", "vrf_verify", "ec_pairing_check"}

// genVm generates a program whose instructions mostly find the values they
// need: the generator tracks the types on the stack along the text.
func genVm(g *G, o vmGen) string {
	v := o.Version
	if v == 0 {
		v = pick(g, []int{8, 9, 8, 7, 5, 1})
	}
	var ls []string
	if v != 1 || g.Bool() {
		ls = append(ls, fmt.Sprintf("#pragma version %d", v))
	}
	labels := []string{"a", "b", "c", "d"}[:1+g.Intn(4)]
	subs := []string{"s", "t"}[:1+g.Intn(2)]
	if g.Chance(1, 4) { // names easily taken for one another
		labels = pick(g, [][]string{{"a", "A", "a_", "_a"}, {"l1", "l10", "l01", "l1l"}, {"aa", "a", "aaa", "aA"}, {"1", "01", "0x1", "-1"}})[:1+g.Intn(4)]
		subs = pick(g, [][]string{{"S", "s"}, {"sub", "sub_"}, {"int", "b"}, {"main", "(main)"}, {"exit", "(exited)"}})[:1+g.Intn(2)]
	}
	var ty []byte
	need := func(args string) { // push what is missing for the arguments
		k := 0
		for k < len(args) && k < len(ty) {
			t := ty[len(ty)-1-k]
			a := args[len(args)-1-k]
			if a != '.' && t != '.' && t != a {
				break
			}
			k++
		}
		if k == len(args) {
			return
		}
		for i := 0; i < len(args); i++ {
			t := args[i]
			if t == '.' {
				t = pick(g, []byte("UB"))
			}
			ls = append(ls, vmPush(g, t))
			ty = append(ty, t)
		}
	}
	var cand []*refOp
	for i := range refOps {
		p := &refOps[i]
		switch p.Name {
		case "b", "bz", "bnz", "switch", "match", "callsub", "retsub", "proto", "return", "err", "replace":
			continue
		}
		if strings.HasPrefix(p.Name, "frame_") || p.Name == "ec_pairing_check" || p.Name == "vrf_verify" || strings.HasPrefix(p.Name, "ed25519") {
			continue
		}
		cand = append(cand, p)
	}
	n := g.Intn(o.Max + 1)
	insub := false
	defs := append(append([]string{}, labels...), subs...)
	emit := func(op *refOp) {
		if o.Wrong == 0 || !g.Chance(1, o.Wrong) {
			need(op.Args)
		}
		line := vmLine(g, op, v, labels, len(ty))
		ls = append(ls, line)
		// follow the types along
		p := refAnalyze(strings.Join([]string{fmt.Sprintf("#pragma version %d", v), line}, "\n"))
		b := &mbr{line: 1, scratch: map[int]mval{}}
		for _, t := range ty {
			b.push(mval{T: t})
		}
		if insub {
			b.frames = []mframe{{}}
		}
		func() {
			defer func() { recover() }()
			newMvm(p).exec(&p.Stmts[1], b)
			ty = ty[:0]
			for _, x := range b.stack {
				ty = append(ty, x.T)
			}
		}()
	}
	for i := 0; i < n; i++ {
		w := g.Weighted(5, 4, 3, 2, 2, 2, 1, 1)
		switch {
		case w == 1 && o.Costly:
			emit(refOpByName[pick(g, costOps)])
		case w == 1 && o.Stack || w == 2 && !o.Flow:
			emit(refOpByName[pick(g, stackOps)])
		case w == 2 && o.Flow: // conditional
			k := pick(g, []string{"bnz", "bz", "switch", "match"})
			op := refOpByName[k]
			args := op.Args
			line := k
			tl := 1
			if k == "switch" || k == "match" {
				tl = g.Intn(3)
			}
			for j := 0; j < tl; j++ {
				line += " " + pick(g, labels)
				if k == "match" {
					args += "."
				}
			}
			if k == "match" {
				args += "."
			}
			need(args)
			ls = append(ls, line)
			if len(args) <= len(ty) {
				ty = ty[:len(ty)-len(args)]
			}
		case w == 3 && o.Flow:
			ls = append(ls, "b "+pick(g, labels))
		case w == 4 && o.Flow:
			if len(defs) > 0 {
				j := g.Intn(len(defs))
				ls = append(ls, defs[j]+":")
				insub = defs[j] == "s" || defs[j] == "t"
				if insub && g.Bool() {
					ls = append(ls, fmt.Sprintf("proto %d %d", g.Intn(3), g.Intn(3)))
				}
				defs = append(defs[:j], defs[j+1:]...)
			}
		case w == 5 && o.Flow:
			need(pick(g, []string{"", "U", "UB"}))
			ls = append(ls, "callsub "+pick(g, subs))
		case w == 6 && o.Flow:
			k := pick(g, []string{"retsub", "retsub", "return", "err", "assert"})
			if k == "return" || k == "assert" {
				need("U")
				ty = ty[:len(ty)-1]
			}
			ls = append(ls, k)
		case w == 7:
			ls = append(ls, pick(g, []string{"", "// note", "  ", "nonsense here", "int"}))
		default:
			emit(pick(g, cand))
		}
	}
	if g.Chance(3, 4) {
		if g.Chance(4, 5) {
			ls = append(ls, "int 1", "return")
		}
		for _, d := range defs {
			ls = append(ls, d+":")
			if d == "s" || d == "t" {
				ls = append(ls, "int 7", "retsub")
			}
		}
	}
	return strings.Join(ls, "\n") + pick(g, []string{"", "\n"})
}

func vmPush(g *G, t byte) string {
	if t == 'U' {
		return fmt.Sprintf("int %d", g.Intn(1000))
	}
	return fmt.Sprintf("byte 0x%x", g.Bytes(20))
}

// vmLine renders an instruction with immediates that suit the stack.
func vmLine(g *G, op *refOp, v int, labels []string, depth int) string {
	small := func(n int) int {
		if g.Chance(1, 12) {
			return g.Intn(256)
		}
		if n <= 0 {
			n = 1
		}
		if n > 256 {
			n = 256
		}
		return g.Intn(n)
	}
	switch op.Name {
	case "dig", "cover", "uncover":
		return fmt.Sprintf("%s %d", op.Name, small(depth))
	case "bury", "popn":
		return fmt.Sprintf("%s %d", op.Name, small(depth+1))
	case "dupn":
		if g.Chance(1, 4) {
			return fmt.Sprintf("dupn %d", 200+g.Intn(56))
		}
		return fmt.Sprintf("dupn %d", g.Intn(4))
	case "load", "store":
		return fmt.Sprintf("%s %d", op.Name, pick(g, []int{0, 1, 255, 7}))
	case "frame_dig", "frame_bury":
		return fmt.Sprintf("%s %d", op.Name, g.Range(-3, 4))
	case "byte", "pushbytes":
		return fmt.Sprintf("%s 0x%x", op.Name, g.Bytes(60))
	}
	return genOpLine(g, op, v, labels)
}

func vmCase(g *G, c *Ctx, src string, maxSteps int, switches, rich bool) *lockstep {
	note := ""
	if rich {
		note = "with a large budget: "
	}
	c.Input("%s%s", note, show(src))
	return vmRun(g, c, refAnalyze(src), teal.NewVm(teal.Process(src)), maxSteps, switches, rich)
}

// vmRun executes a program in lockstep with the reference machine; with rich
// its first branch is given a budget for every instruction.
func vmRun(g *G, c *Ctx, p *rProg, vm *teal.Vm, maxSteps int, switches, rich bool) *lockstep {
	k := newLockstep(c, p, vm)
	k.large = maxSteps > 1000
	if rich {
		b := vm.Branches[0]
		b.Budget = 10000000
		k.brs[b.Id].budget = b.Budget
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stopCase); !ok {
					panic(e)
				}
			}
		}()
		for k.steps < maxSteps && len(vm.Branches) < k.maxBranches() {
			live := k.live()
			if len(live) == 0 && k.faults > 0 {
				return
			}
			if len(live) > 0 {
				// a branch that stopped with an error is left alone
				if vm.Branch == nil || k.brs[vm.Branch.Id].bad {
					vm.Switch(live[0])
				} else if switches && g.Chance(1, 4) {
					vm.Switch(pick(g, live))
				}
			}
			if !k.step() {
				return
			}
		}
	}()
	// every branch still has its own trace
	for _, b := range vm.Branches {
		mb := k.brs[b.Id]
		if mb == nil || mb.bad || len(b.Trace) != len(mb.ran) {
			continue
		}
		for i, op := range b.Trace {
			if op.String() != mb.ran[i] {
				c.Fail("vm-trace", "%s: instruction %d of its trace is now %q", k.where(mb), i, op)
			}
		}
	}
	return k
}

// maxBranches bounds the branches followed in one case.
func (k *lockstep) maxBranches() int {
	if k.large {
		return 300
	}
	return 40
}

func p19(g *G, c *Ctx) {
	src := genVm(g, vmGen{Stack: true, Max: 14, Wrong: 10})
	k := vmCase(g, c, src, 60, false, g.Bool())
	if k.steps > 2 {
		c.Nontrivial(src)
	}
	if k.faults > 0 {
		c.Class("stopped-with-error")
	}
}

// every opcode with every field: exact effect, and every wrong stack
func p19each(g *G, c *Ctx) {
	cs := vmEachCases()
	x := cs[g.Intn(len(cs))]
	line := x.line
	p := refAnalyze("#pragma version 9\n" + line)
	st := &p.Stmts[1]
	if st.Kind != "op" || st.Err {
		c.Fail("harness", "%q is not valid", line)
	}
	args := st.Op.Args
	if st.Name == "match" {
		args = strings.Repeat(".", 1+len(st.Vals))
	}
	pushes := []string{}
	add := func(t byte, i int) {
		if t == 'U' {
			pushes = append(pushes, fmt.Sprintf("int %d", 1000+i))
		} else {
			pushes = append(pushes, fmt.Sprintf("byte 0x%04x", 1000+i))
		}
	}
	base := 2 // values below
	if x.deep {
		base = 5
	}
	if x.wrong >= 0 && x.missing {
		base = 0
	}
	for i := 0; i < base; i++ {
		add("UB"[i%2], i)
	}
	for i := 0; i < len(args); i++ {
		if x.missing && i < x.wrong {
			continue
		}
		t := args[i]
		if t == '.' {
			t = "UB"[i%2]
			if x.flip {
				t = "BU"[i%2]
			}
		}
		if !x.missing && i == x.wrong {
			t = map[byte]byte{'U': 'B', 'B': 'U'}[t]
		}
		add(t, 10+i)
	}
	src := "#pragma version 9\n" + strings.Join(pushes, "\n") + "\n" + line + "\nint 5"
	if x.sub {
		src = "#pragma version 9\n" + strings.Join(pushes, "\n") + "\ncallsub s\nint 5\nreturn\ns:\nproto 2 1\nbyte 0x11\nint 12\n" + line + "\nint 13"
	}
	k := vmCase(g, c, src, 40, false, true)
	c.Nontrivial(src)
	if !k.opsRun[st.Name] && k.spent == 0 && k.faults == 0 {
		c.Fail("vm-not-reached", "%q was not executed", line)
	}
}

// every instruction the builder functions name, on a right stack
func p19built(g *G, c *Ctx) {
	o := builderOps[g.Intn(len(builderOps))]
	st := &refAnalyze("#pragma version 10\n" + o.S).Stmts[1]
	prog := teal.Program{teal.Comment("")}
	text := "#pragma version 10"
	for i, t := range []byte("UB" + st.Op.Args) {
		if t == '.' {
			t = "UB"[i%2]
		}
		if t == 'U' {
			prog = append(prog, teal.Int(uint64(i)))
			text += fmt.Sprintf("\nint %d", i)
		} else {
			prog = append(prog, teal.StringBytes(fmt.Sprint(i)))
			text += fmt.Sprintf("\nbyte \"%d\"", i)
		}
	}
	prog = append(prog, o.E, teal.Int(77))
	text += "\n" + o.S + "\nint 77"
	c.Input("the program built for %s", show(text))
	vm := teal.NewVm(&teal.ProcessResult{Listing: teal.Compile(prog), Version: 10, Mode: teal.ModeApp})
	vmRun(g, c, refAnalyze(text), vm, 40, false, true)
	c.Nontrivial(text)
}

type vmEach struct {
	line    string
	wrong   int // argument given a wrong type, or first argument present
	missing bool
	flip    bool
	deep    bool
	sub     bool
}

var vmEachList []vmEach

func vmEachCases() []vmEach { return vmEachList }

func init() {
	for i := range refOps {
		o := &refOps[i]
		if o.Name == "replace" {
			continue
		}
		var lines []string
		base := []string{o.Name}
		hasField := false
		for _, im := range strings.Fields(o.Imms) {
			k := strings.TrimRight(im, "*?")
			if _, ok := refFields[fieldGroup(k)]; ok {
				hasField = true
			}
		}
		imm := func(k string) string {
			switch k {
			case "label":
				return "zz"
			case "bytes":
				return "0x0102"
			case "addr":
				return mkAddr(make([]byte, 32))
			case "sig":
				return "\"f()void\""
			case "i8":
				return "-1"
			}
			return "1"
		}
		if hasField {
			for _, x := range p06fieldCases() {
				if x.op != o {
					continue
				}
				if x.kind == "txna" && !x.f.Array || x.kind == "itxn" && x.f.Itx == 0 {
					continue
				}
				parts := []string{o.Name}
				for _, im := range strings.Fields(o.Imms) {
					k := strings.TrimRight(im, "*?")
					if k == x.kind {
						parts = append(parts, x.f.Name)
					} else if !strings.HasSuffix(im, "?") {
						parts = append(parts, "1")
					}
				}
				lines = append(lines, strings.Join(parts, " "))
			}
		} else {
			parts := append([]string{}, base...)
			for _, im := range strings.Fields(o.Imms) {
				k := strings.TrimRight(im, "*?")
				parts = append(parts, imm(k))
			}
			lines = append(lines, strings.Join(parts, " "))
			if strings.HasSuffix(o.Imms, "*") {
				lines = append(lines, o.Name, strings.Join(append(parts, parts[1:]...), " "))
			}
		}
		for _, l := range lines {
			vmEachList = append(vmEachList, vmEach{line: l, wrong: -1}, vmEach{line: l, wrong: -1, flip: true}, vmEach{line: l, wrong: -1, deep: true}, vmEach{line: l, wrong: -1, sub: true})
		}
		for k := 0; k < len(o.Args); k++ {
			if o.Args[k] != '.' {
				vmEachList = append(vmEachList, vmEach{line: lines[0], wrong: k})
			}
			vmEachList = append(vmEachList, vmEach{line: lines[0], wrong: k + 1, missing: true})
		}
		switch o.Name {
		case "dig", "cover", "uncover", "bury", "popn", "dupn":
			for n := 0; n < 8; n++ {
				vmEachList = append(vmEachList, vmEach{line: fmt.Sprintf("%s %d", o.Name, n), wrong: -1}, vmEach{line: fmt.Sprintf("%s %d", o.Name, n), wrong: -1, deep: true})
			}
		case "frame_dig", "frame_bury":
			for n := -3; n < 4; n++ {
				vmEachList = append(vmEachList, vmEach{line: fmt.Sprintf("%s %d", o.Name, n), wrong: -1, sub: true}, vmEach{line: fmt.Sprintf("%s %d", o.Name, n), wrong: -1})
			}
		}
	}
}

// genCalls generates programs whose subroutines are called with the values
// they need: arguments, locals, results, nested and recursive calls, branches
// inside subroutines, scratch accesses.
func genCalls(g *G) string {
	type sub struct {
		name       string
		proto      bool
		args, rets int
	}
	ls := []string{"#pragma version 8"}
	subs := []sub{}
	for i := 1 + g.Intn(3); i > 0; i-- {
		subs = append(subs, sub{name: fmt.Sprintf("s%d", i), proto: g.Chance(3, 4), args: g.Intn(3), rets: g.Intn(3)})
	}
	nl := 0
	val := 0
	push := func() {
		val++
		if g.Bool() {
			ls = append(ls, fmt.Sprintf("int %d", val))
		} else {
			ls = append(ls, fmt.Sprintf("byte 0x%02x", val))
		}
	}
	var block func(depth, h int, in *sub) int
	// block emits statements that keep at least the values below h; it returns
	// the height after it
	block = func(depth, h int, in *sub) int {
		for n := 1 + g.Intn(6); n > 0; n-- {
			switch g.Intn(9) {
			case 0:
				push()
				h++
			case 1:
				if h > 0 {
					ls = append(ls, pick(g, []string{"pop", "store 3"}))
					h--
				}
			case 2:
				if depth < 2 { // skip ahead
					nl++
					l := fmt.Sprintf("l%d", nl)
					ls = append(ls, "int 0", pick(g, []string{"bz ", "bnz ", "switch "})+l)
					if block(depth+1, 0, in) > 0 {
						ls = append(ls, "pop")
					}
					ls = append(ls, l+":")
				}
			case 3: // call
				s := pick(g, subs)
				for i := 0; i < s.args; i++ {
					push()
				}
				ls = append(ls, "callsub "+s.name)
				h += s.rets
				if !s.proto {
					h += s.args
				}
			case 4:
				ls = append(ls, "load 3")
				h++
			case 5:
				if in != nil && in.proto && in.args > 0 {
					ls = append(ls, fmt.Sprintf("frame_dig -%d", 1+g.Intn(in.args)))
					h++
				}
			case 6:
				if in != nil && in.proto && in.args > 0 {
					push()
					ls = append(ls, fmt.Sprintf("frame_bury -%d", 1+g.Intn(in.args)))
				}
			case 7:
				if h > 1 {
					ls = append(ls, pick(g, []string{"swap", "dup2", "cover 1", "dig 1"}))
					if strings.HasPrefix(ls[len(ls)-1], "dup2") {
						h += 2
					} else if strings.HasPrefix(ls[len(ls)-1], "dig") {
						h++
					}
				}
			case 8:
				if depth < 2 && in != nil && g.Bool() { // leave early
					nl++
					l := fmt.Sprintf("l%d", nl)
					ls = append(ls, "int 0", "bnz "+l)
					for i := 0; i < in.rets; i++ {
						push()
					}
					ls = append(ls, "retsub", l+":")
				}
			}
		}
		return h
	}
	block(0, 0, nil)
	block(0, 0, nil)
	ls = append(ls, pick(g, []string{"int 1\nreturn", "err", "b end"}))
	for i := range subs {
		s := &subs[i]
		ls = append(ls, s.name+":")
		if s.proto {
			ls = append(ls, fmt.Sprintf("proto %d %d", s.args, s.rets))
		}
		block(0, 0, s)
		for i := 0; i < s.rets; i++ {
			push()
		}
		ls = append(ls, "retsub")
	}
	ls = append(ls, "end:")
	return strings.Join(ls, "\n")
}

func p20(g *G, c *Ctx) {
	var src string
	if g.Bool() {
		src = genCalls(g)
	} else {
		src = genVm(g, vmGen{Flow: true, Max: 18, Wrong: 60, Version: pick(g, []int{8, 8, 9, 0}), Stack: g.Bool()})
	}
	k := vmCase(g, c, src, 120, true, g.Chance(1, 3))
	if k.forked+k.calls >= 2 {
		c.Nontrivial(src)
	}
	if k.calls > 0 {
		c.Class("calls")
	}
	if k.forked > 0 {
		c.Class("forks")
	}
	if k.faults > 0 {
		c.Class("stopped-with-error")
	}
}

func p21(g *G, c *Ctx) {
	src := genVm(g, vmGen{Costly: true, Flow: g.Chance(1, 3), Max: 16, Wrong: 100})
	if g.Chance(1, 2) { // use the budget up
		body := vmLoopBody(g)
		src = src + "\nloop0:\n" + body + "\nb loop0\n"
	}
	k := vmCase(g, c, src, 900, false, g.Chance(1, 8))
	costly := 0
	for o := range k.opsRun {
		if _, ok := refCosts[o]; ok || strings.HasPrefix(o, "ec") || o == "json_ref" || o == "base64_decode" {
			costly++
		}
	}
	if k.spent > 0 {
		c.Class("budget-used-up")
	}
	if costly > 0 || k.spent > 0 {
		c.Nontrivial(src)
	}
}

func vmLoopBody(g *G) string {
	if g.Chance(1, 12) {
		b := longBytes(g)
		if g.Bool() {
			return fmt.Sprintf("byte 0x%x\nbase64_decode URLEncoding\npop", b)
		}
		return fmt.Sprintf("byte 0x%x\nbyte 0x01\njson_ref JSONUint64\npop", b)
	}
	switch g.Intn(5) {
	case 0:
		return "int 1\npop"
	case 1:
		return "byte 0x01\nsha256\npop"
	case 2:
		return "byte 0x01\nkeccak256\npop"
	case 3:
		return fmt.Sprintf("byte 0x%x\nbase64_decode StdEncoding\npop", g.Bytes(80))
	}
	return fmt.Sprintf("byte 0x%x\nbyte 0x01\njson_ref JSONString\npop", g.Bytes(80))
}

func init() {
	register(&Check{
		ID:   "P19",
		Rule: "every opcode with every field, on a right stack, with every argument of the wrong type and with too few values (enumerated); and straight-line programs that mostly find the values they need, compared with a reference machine after every step. Non-trivial: at least three steps",
		Subs: []Sub{
			{Name: "each", Fn: p19each, Enum: func() int { return len(vmEachList) }},
			{Name: "built", Fn: p19built, Enum: func() int { return len(builderOps) }},
			{Name: "programs", Fn: p19, Quick: 60000, Thorough: 2000000},
			{Name: "large", Fn: p19large, Quick: 300, Thorough: 10000},
		},
	})
	register(&Check{
		ID:   "P20",
		Rule: "programs with branches, calls and loops stepped under random branch switching, every branch compared with a reference machine after every step. Non-trivial: at least two forks or calls",
		Subs: []Sub{
			{Name: "flow", Fn: p20, Quick: 40000, Thorough: 1500000},
			{Name: "large", Fn: p19large, Quick: 300, Thorough: 10000},
		},
	})
	register(&Check{
		ID:   "P21",
		Rule: "programs with costly opcodes and loops that use the budget up, compared with a reference cost table after every step. Non-trivial: a costly opcode was executed or the budget was used up",
		Subs: []Sub{{Name: "costs", Fn: p21, Quick: 20000, Thorough: 600000}},
	})
}
