package main

// Large inputs: the sizes at which counters, buffers and caches of a fixed
// size give way. One program in a few hundred gets a large part.

import (
	"fmt"
	"sort"
	"strings"
)

var bigSizes = []int{40, 65, 100, 129, 200, 255, 256, 257, 300, 513, 1025}

// hugeDoc is a document of up to several megabytes.
func hugeDoc(g *G) string {
	n := pick(g, []int{70_000, 200_000, 600_000, 1_100_000, 2_200_000, 4_500_000})
	l := pick(g, []string{"// comment comment comment comment comment comment comment comment comment", "", "\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t"})
	if l == "" {
		return "#pragma version 8\nbyte \"" + strings.Repeat("x", n) + "\"\nlast:\nb last\n"
	}
	return "#pragma version 8\n" + strings.Repeat(l+"\n", n/(len(l)+1)) + "last:\nb last\n"
}

var bigLens = []int{80, 129, 255, 256, 257, 300, 1025, 4097, 5000, 9000, 33000, 66000}

// inflate inserts a large part into a text, one time in den. With valid the
// part is well formed in every version.
func inflate(g *G, src string, den int, valid bool) string {
	if !g.Chance(1, den) {
		return src
	}
	part := bigPart(g, src, valid)
	ls := strings.SplitAfter(src, "\n")
	i := len(ls)
	if g.Bool() {
		i = g.Intn(len(ls) + 1)
	}
	if valid { // after the pragma
		i = len(ls)
	}
	head, tail := strings.Join(ls[:i], ""), strings.Join(ls[i:], "")
	if head != "" && !strings.HasSuffix(head, "\n") {
		head += "\n"
	}
	return head + part + "\n" + tail
}

func bigPart(g *G, src string, valid bool) string {
	n := pick(g, bigSizes)
	if n > 300 && g.Chance(2, 3) {
		n = 257
	}
	rep := func(f func(i int) string, sep string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(sep)
			}
			b.WriteString(f(i))
		}
		return b.String()
	}
	base := g.Intn(3) * 1000
	lab := func(i int) string { return fmt.Sprintf("L%d", base+i) }
	k := 6
	if !valid {
		k = 16
	}
	switch g.Intn(k) {
	case 0: // the same line many times
		l := pick(g, []string{"int 1", "txn Sender", "", "// c", "int 1\npop", "  byte 0x01", "err"})
		return rep(func(int) string { return l }, "\n")
	case 1: // many labels
		return rep(func(i int) string { return lab(i) + ":" }, "\n")
	case 2: // many blanks before an instruction
		return strings.Repeat(pick(g, []string{" ", "\t"}), pick(g, bigLens)) + "int 1"
	case 3: // a long comment
		return "int 1 //" + strings.Repeat(pick(g, []string{"c", " ", "/", "\"", "é"}), pick(g, bigLens)/2)
	case 4: // a long string
		return "byte \"" + strings.Repeat(pick(g, []string{"c", " ", "/", "\\n", "\\\"", "//"}), pick(g, bigLens)/2) + "\""
	case 5: // many constants
		w := pick(g, []string{"intcblock 1", "intcblock 0", "bytecblock 0x01"})
		f := strings.Fields(w)
		return f[0] + " " + rep(func(i int) string {
			if f[1] == "0" {
				return fmt.Sprint(i)
			}
			return f[1]
		}, " ")
	case 6: // many references to many labels, some missing
		w := pick(g, []string{"switch", "match"})
		miss := g.Bool()
		return w + " " + rep(lab, " ") + "\nerr\n" + rep(func(i int) string {
			if miss && i == n/2 {
				return "int 1"
			}
			return lab(i) + ":"
		}, "\n")
	case 7:
		op := pick(g, []string{"b", "bz", "bnz", "callsub"})
		return rep(func(i int) string { return op + " " + lab(i) }, "\n") + "\nerr\n" + rep(func(i int) string { return lab(n-1-i) + ":" }, "\n")
	case 8: // many references to one label
		return rep(func(i int) string { return "callsub a" }, "\n")
	case 9: // many lines with an error
		l := pick(g, []string{"foo", "int", "int 1 2", "byte \"", "a b:", "int x", "b nowhere"})
		return rep(func(i int) string { return l }, "\n")
	case 10: // one line with many surplus values
		return "int " + rep(func(i int) string { return "1" }, " ")
	case 11: // a long name, declared and used
		l := strings.Repeat("x", pick(g, bigLens)/2)
		return "b " + l + "\n" + l + ":\nb " + l + "y"
	case 12: // one label many times
		return rep(func(i int) string { return pick(g, []string{"a:", "a:", "int 1", "b a"}) }, "\n") + "\na:"
	case 13: // many operands of few labels
		ls := defLabels[:g.Range(1, len(defLabels))]
		return pick(g, []string{"switch", "match"}) + " " + rep(func(i int) string { return pick(g, ls) }, " ")
	case 14: // a few dozen lines around a few labels
		return rep(func(i int) string {
			if i > 80 {
				return "// c"
			}
			return pick(g, []string{"a:", "b a", "bz main", "err", "return", "int 1", "callsub a", "retsub", "main:", "b main", ""})
		}, "\n")
	default: // many generated lines
		var b strings.Builder
		for b.Len() < 40*n {
			b.WriteString(genOpLine(g, &refOps[g.Intn(len(refOps))], 0, defLabels))
			if g.Chance(1, 6) {
				b.WriteString(" // c")
			}
			b.WriteString("\n")
			if g.Chance(1, 8) {
				b.WriteString(pick(g, defLabels) + ":\n")
			}
		}
		return b.String()
	}
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// genVmBig: programs that take the virtual machine to large sizes.
func genVmBig(g *G) string {
	n := pick(g, []int{30, 65, 100, 129, 200, 255, 256, 257, 300, 520})
	var ls []string
	add := func(f string, a ...any) { ls = append(ls, fmt.Sprintf(f, a...)) }
	add("#pragma version 8")
	push := func(i int) {
		if g.Chance(1, 3) {
			add("byte 0x%04x", i)
		} else {
			add("int %d", 10000+i)
		}
	}
	switch g.Intn(7) {
	case 0: // a deep stack
		for i := 0; i < n; i++ {
			push(i)
		}
		for k := g.Range(1, 8); k > 0; k-- {
			d := n - g.Intn(4)
			if d > 255 || g.Bool() {
				d = g.Intn(256)
			}
			add("%s %d", pick(g, []string{"dig", "cover", "uncover", "bury", "popn", "dupn"}), d)
			if g.Bool() {
				push(n + k)
			}
		}
		for i := g.Intn(20); i > 0; i-- {
			add("pop")
		}
	case 1: // deep recursion
		for i := g.Intn(3); i >= 0; i-- {
			push(i)
		}
		add("callsub s")
		add("s:")
		switch g.Intn(3) {
		case 0:
			add("proto %d %d", g.Intn(2), g.Intn(2))
			push(1)
		case 1:
			push(2)
		}
		if g.Chance(1, 3) {
			add("frame_dig 0")
		}
		add("callsub s")
	case 2: // many branches
		if n > 200 {
			n = 200 + n/20
		}
		for i := 0; i < n; i++ {
			add("int %d", i)
			add("%s", pick(g, []string{"bz a", "bnz a", "switch a"}))
		}
		add("a:")
		add("%s", pick(g, []string{"err", "int 1", "b a"}))
	case 3: // a wide switch
		if n > 200 {
			n = 200 + n/20
		}
		s := "switch"
		add("int 1")
		if g.Bool() {
			s = "match"
			for k := n; k > 0; k -= 255 {
				if k > 255 {
					add("dupn 255")
				} else {
					add("dupn %d", k)
				}
			}
		}
		for i := 0; i < n; i++ {
			s += fmt.Sprintf(" L%d", i)
		}
		add("%s", s)
		add("err")
		for i := 0; i < n; i++ {
			add("L%d:", i)
			if g.Chance(1, 4) {
				add("err")
			}
		}
	case 4: // every scratch slot
		lo := g.Intn(100)
		for i := lo; i < 256; i++ {
			push(i)
			add("store %d", i)
		}
		for i := 255; i >= lo; i-- {
			if g.Chance(1, 3) {
				add("load %d", i)
			}
		}
	case 5: // constants by number
		s, t := "intcblock", "bytecblock"
		for i := 0; i < n; i++ {
			s += fmt.Sprintf(" %d", 20000+i)
			t += fmt.Sprintf(" 0x%04x", i)
		}
		add("%s", s)
		add("%s", t)
		for k := g.Range(1, 12); k > 0; k-- {
			i := n - 1 - g.Intn(4)
			if i > 255 || g.Bool() {
				i = g.Intn(256)
			}
			add("%s %d", pick(g, []string{"intc", "bytec"}), i)
		}
	default: // a long way
		for i := 0; i < n; i++ {
			add("%s", pick(g, []string{"int 1\npop", "// c", "", "byte 0x01\nlen\npop", "txn Sender\npop"}))
		}
		add("int 5")
	}
	if g.Bool() {
		add("int 1")
		add("return")
	}
	return strings.Join(ls, "\n")
}

// p19large, p20large: the reference machine at large sizes.
func p19large(g *G, c *Ctx) {
	src := genVmBig(g)
	k := vmCase(g, c, src, 1500, g.Chance(1, 4), g.Chance(3, 4))
	if k.steps > 20 {
		c.Nontrivial(src)
	}
	if k.faults > 0 {
		c.Class("stopped-with-error")
	}
}

// p15many: many documents and many changes; every document answers for its
// own latest text.
func p15many(g *G, c *Ctx) {
	n := pick(g, []int{5, 20, 40, 70, 110, 140, 270})
	steps := pick(g, []int{20, 60, 150, 300, 600})
	c.Input("%d documents, %d steps", n, steps)
	s := &lspScript{}
	uri := func(i int) string { return fmt.Sprintf("file:///d%d.teal", i) }
	open := map[int]string{}
	type q struct {
		id  int
		doc int
		txt string
		ver int
	}
	var qs []q
	text := func(i, v int) string {
		return fmt.Sprintf("#pragma version 8\nd%d_%d:\nb d%d_%d", i, v, i, v)
	}
	ask := func(i int) {
		t, ok := open[i]
		if !ok {
			return
		}
		qs = append(qs, q{s.request("textDocument/documentSymbol", obj{"textDocument": obj{"uri": uri(i)}}), i, t, 0})
	}
	if g.Bool() {
		for i := 0; i < n; i++ {
			open[i] = text(i, 0)
			s.open(uri(i), open[i])
		}
	}
	for k := 1; k <= steps; k++ {
		i := g.Intn(n)
		if g.Chance(1, 3) && k > 1 { // often the same few
			i = g.Intn(1 + n/10)
		}
		switch g.Intn(5) {
		case 0, 1:
			_, ok := open[i]
			open[i] = text(i, k)
			if ok && g.Bool() {
				s.change(uri(i), open[i])
			} else {
				s.open(uri(i), open[i])
			}
		case 2:
			if g.Chance(1, 4) {
				s.close(uri(i))
				delete(open, i)
			}
		default:
			ask(i)
		}
	}
	for i := 0; i < n; i++ {
		ask(i)
	}
	o := s.run(c)
	for _, x := range qs {
		var syms []struct {
			Name string `json:"name"`
		}
		o.result(c, x.id, &syms)
		want := strings.TrimSuffix(strings.Split(x.txt, "\n")[1], ":")
		if len(syms) != 1 || syms[0].Name != want {
			c.Fail("many-documents", "document %d should have the label %s, the answer is %v", x.doc, want, syms)
		}
	}
	c.Nontrivial(fmt.Sprint(n, steps, len(qs), s.in.Len()))
}
