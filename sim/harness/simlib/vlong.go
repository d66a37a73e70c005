package main

import (
	"fmt"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// Inputs, counts and rule lists far longer than the reference chart handles:
// deterministic grammars whose words a small automaton decides.

type vstate struct {
	on  map[string]int // unit of input -> next state
	fin bool
	exp []string
}

type vcase struct {
	text   string
	auto   func(s int) vstate
	rules  map[string]int // rule nodes of the tree
	in     []byte
	valid  bool
	off    int
	expect map[string]bool
}

// vlens are the lengths; the larger ones are rarer.
var vlens = []int{300, 520, 1030, 2050, 4100, 8200, 33000, 65540}

// vlongEvery: one in so many runs is a very long one.
const vlongEvery = 500

func vlongScenario(r *simrt.Rand, forest bool) *h.Scenario {
	k := r.Intn(8)
	maxLen := 65545
	switch {
	case forest && (k == 0 || k == 3 || k == 5):
		maxLen = 520 // every part of such a repetition is a repetition: quadratic
	case !forest && k == 2:
		maxLen = 1030 // growing a left-recursive rule is quadratic
	}
	n := vlens[r.Intn(len(vlens))]
	if r.Chance(.4) {
		n = 65545
	}
	if n > maxLen {
		n = maxLen
	}
	n += r.Intn(12) - 6
	mode := r.Intn(4)
	if r.Chance(.4) {
		mode = 0
	}
	return &h.Scenario{Rule: "a", Par: map[string]int64{"fixed": 1, "vlong": int64(k) + 1, "n": int64(n), "mode": int64(mode), "back": int64(r.Intn(10)), "direct": 1}, Scheds: h.Schedules(r, 2)}
}

func mkVcase(sc *h.Scenario) *vcase {
	n, mode, back := int(sc.Par["n"]), sc.Par["mode"], int(sc.Par["back"])
	v := &vcase{}
	x, y, xy := []string{`"x"`}, []string{`"y"`}, []string{`"x"`, `"y"`}
	w := ""
	switch sc.Par["vlong"] - 1 {
	case 0:
		v.text = "a = *\"x\"\r\n"
		v.auto = func(int) vstate { return vstate{map[string]int{"x": 0}, true, x} }
		w = strings.Repeat("x", n)
		v.rules = map[string]int{"a": 1}
	case 1:
		v.text = "a = \"x\" a / \"y\"\r\n"
		v.auto = func(s int) vstate {
			return []vstate{{map[string]int{"x": 0, "y": 1}, false, xy}, {nil, true, nil}}[s]
		}
		w = strings.Repeat("x", n-1) + "y"
		v.rules = map[string]int{"a": n}
	case 2:
		v.text = "a = a \"x\" / \"y\"\r\n"
		v.auto = func(s int) vstate {
			return []vstate{{map[string]int{"y": 1}, false, y}, {map[string]int{"x": 1}, true, x}}[s]
		}
		w = "y" + strings.Repeat("x", n-1)
		v.rules = map[string]int{"a": n}
	case 3:
		v.text = "a = *(b c)\r\nb = \"x\"\r\nc = \"y\"\r\n"
		v.auto = func(s int) vstate {
			return []vstate{{map[string]int{"x": 1}, true, x}, {map[string]int{"y": 0}, false, y}}[s]
		}
		w = strings.Repeat("xy", n/2)
		v.rules = map[string]int{"a": 1, "b": n / 2, "c": n / 2}
	case 4:
		v.text = fmt.Sprintf("a = %d\"x\"\r\n", n)
		v.auto = func(s int) vstate {
			if s == n {
				return vstate{nil, true, nil}
			}
			return vstate{map[string]int{"x": s + 1}, false, x}
		}
		w = strings.Repeat("x", n)
		v.rules = map[string]int{"a": 1}
	case 6:
		v.text = "a = b a / \"y\"\r\nb = \"x\" / %x7A c\r\nc = %x7A\r\n"
		z := []string{"%x7A"}
		v.auto = func(s int) vstate {
			return []vstate{{map[string]int{"x": 0, "z": 2, "y": 1}, false, append(z, xy...)}, {nil, true, nil}, {map[string]int{"z": 0}, false, z}}[s]
		}
		w = strings.Repeat("xzzx", n/4) + "y"
		v.rules = map[string]int{"a": n/4*3 + 1, "b": n / 4 * 3, "c": n / 4}
	case 5:
		v.text = "a = *(\"x\" %x0D.0A)\r\n"
		v.auto = func(s int) vstate {
			return []vstate{{map[string]int{"x": 1}, true, x}, {map[string]int{"\r\n": 0}, false, []string{"%xD.A"}}}[s]
		}
		w = strings.Repeat("x\r\n", n/3)
		v.rules = map[string]int{"a": 1}
	default:
		if n > 1100 {
			n = 1100
		}
		var sb strings.Builder
		v.rules = map[string]int{"a": 1, "r": 1}
		sb.WriteString("a = \"x\" r1\r\n")
		for k := 1; k < n; k++ {
			fmt.Fprintf(&sb, "r%d = \"x\" r%d\r\n", k, k+1)
			v.rules["r"]++
		}
		fmt.Fprintf(&sb, "r%d = \"y\"\r\n", n)
		v.text = sb.String()
		v.auto = func(s int) vstate {
			switch {
			case s < n:
				return vstate{map[string]int{"x": s + 1}, false, x}
			case s == n:
				return vstate{map[string]int{"y": s + 1}, false, y}
			}
			return vstate{nil, true, nil}
		}
		w = strings.Repeat("x", n) + "y"
	}
	switch mode {
	case 1: // one wrong byte near the end
		i := len(w) - 1 - back
		w = w[:i] + "~" + w[i+1:]
	case 2: // truncated
		w = w[:len(w)-1]
	case 3: // extended
		w += "x"
	}
	v.in = []byte(w)
	s, i := 0, 0
	for {
		st := v.auto(s)
		next := -1
		for u, t := range st.on {
			if strings.HasPrefix(w[i:], u) {
				next = t
				i += len(u)
			}
		}
		if next < 0 {
			v.valid = st.fin && i == len(w)
			v.off = i
			v.expect = map[string]bool{}
			for _, e := range st.exp {
				v.expect[e] = true
			}
			return v
		}
		s = next
	}
}

// vtree checks the one tree a word of these grammars has.
func (v *vcase) vtree(t *goabnf.ParseTree, sameLen bool) error {
	if t.Rule != "a" || t.Start != 0 || t.End != len(v.in) {
		return fmt.Errorf("the root is %s [%d,%d]", t.Rule, t.Start, t.End)
	}
	got := map[string]int{}
	pos := 0
	todo := []*goabnf.ParseTree{t}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if x.Start != pos {
			return fmt.Errorf("node %s [%d,%d] starts before or after offset %d", x.Rule, x.Start, x.End, pos)
		}
		if x.Rule == "" {
			u := string(v.in[x.Start:x.End])
			if u != "x" && u != "y" && u != "z" && u != "\r\n" {
				return fmt.Errorf("leaf [%d,%d] is %q", x.Start, x.End, u)
			}
			pos = x.End
			continue
		}
		got[x.Rule[:1]]++
		end := x.Start
		for _, c := range x.Children {
			if c.Start != end {
				return fmt.Errorf("gap at %d in %s [%d,%d]", end, x.Rule, x.Start, x.End)
			}
			end = c.End
		}
		if end != x.End {
			return fmt.Errorf("the children of %s [%d,%d] end at %d", x.Rule, x.Start, x.End, end)
		}
		for i := len(x.Children) - 1; i >= 0; i-- {
			todo = append(todo, x.Children[i])
		}
	}
	for k, n := range got {
		if n != v.rules[k] && sameLen {
			return fmt.Errorf("%d nodes of rules %s..., the derivation has %d", n, k, v.rules[k])
		}
	}
	return nil
}

// vlongExec decides a long case for property id.
func vlongExec(id string, sc *h.Scenario, c *h.Ctx) *h.Violation {
	v := mkVcase(sc)
	m := mustRef(v.text)
	txt := oneLine(v.text)
	if len(txt) > 100 {
		txt = txt[:100] + "..."
	}
	what := fmt.Sprintf("%d bytes (mode %d, back %d) on %s", len(v.in), sc.Par["mode"], sc.Par["back"], txt)
	c.Probe(fmt.Sprintf("very long input or count, family %d", sc.Par["vlong"]-1))
	if len(v.in) > 65535 {
		c.Probe("input longer than 65535 bytes")
	}
	for _, s := range sc.Scheds {
		var vi *h.Violation
		s.Budget = 1_000_000_000
		o := c.Do(s, func() {
			g, ok := m.Build()
			if !ok {
				return
			}
			if id == "C01" {
				if got, err := g.IsValid("a", v.in); err != nil || got != v.valid {
					vi = h.Viol("verdict", "IsValid of %s: %v %v, the language says %v", what, got, err, v.valid)
				}
				return
			}
			var fs []forestLike
			var names []string
			if f, err := goabnf.ParseForest(v.in, g, "a"); err != nil {
				vi = h.Viol("error", "ParseForest of %s: %v", what, err)
				return
			} else if id == "C16" {
				pe := f.ParseError()
				if (pe == nil) != v.valid {
					vi = h.Viol("no-error", "ParseError() of %s is %v, valid: %v", what, pe, v.valid)
				} else if pe != nil {
					if msg := checkDiag(pe, wantDiag(v.in, v.off, v.expect)); msg != "" {
						vi = h.Viol("diagnostic", "parsing %s: %s (%v)", what, msg, pe)
					}
				}
				return
			} else {
				fs, names = append(fs, f), append(names, "ParseForest")
			}
			if f, err := goabnf.ParseBSR(v.in, g, "a"); err != nil {
				vi = h.Viol("error", "ParseBSR of %s: %v", what, err)
				return
			} else {
				fs, names = append(fs, f), append(names, "ParseBSR")
			}
			want := "0"
			if v.valid {
				want = "1"
			}
			for i, f := range fs {
				if id == "C02" {
					if f.Valid() != v.valid || f.Ambiguous() || f.NumTrees().String() != want {
						vi = h.Viol("numtrees", "%s of %s: valid %v, ambiguous %v, %v trees; derivations: %s", names[i], what, f.Valid(), f.Ambiguous(), f.NumTrees(), want)
						return
					}
					continue
				}
				t := f.Tree()
				if (t != nil) != v.valid {
					vi = h.Viol("no-tree", "%s of %s: tree %v, valid %v", names[i], what, t != nil, v.valid)
					return
				}
				if t == nil {
					continue
				}
				if err := v.vtree(t, sc.Par["mode"] == 0); err != nil {
					vi = h.Viol("unsound-tree", "%s of %s: %v", names[i], what, err)
					return
				}
			}
		})
		if vi != nil {
			return vi
		}
		if vi := h.Bad(o, "parsing "+what); vi != nil {
			return vi
		}
	}
	return nil
}
