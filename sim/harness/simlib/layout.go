package main

import (
	"fmt"
	"strings"

	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// layout prints a model grammar the way people write ABNF: comments, folded
// lines, blank lines, odd spacing, either letter case in the markers, leading
// zeros, spelled-out repetition bounds.
type layout struct {
	r    *simrt.Rand
	wild float64
	b    strings.Builder
}

func (l *layout) one(xs ...string) string { return xs[l.r.Intn(len(xs))] }

var comments = []string{";", "; x", "; =/ \"y\"", "; a = b", ";;", "; \"quote", "; %x41-42 <p>", ";\t/"}

func (l *layout) cwsp() string {
	if l.r.Chance(l.wild * .5) {
		c := ""
		if l.r.Chance(.5) {
			c = comments[l.r.Intn(len(comments))]
		}
		return c + "\r\n" + l.one(" ", "\t", "  ")
	}
	return l.one(" ", " ", "\t", "  ")
}

func (l *layout) opt() {
	for l.r.Chance(l.wild * .5) {
		l.b.WriteString(l.cwsp())
	}
}

func (l *layout) req() {
	l.b.WriteString(l.cwsp())
	l.opt()
}

func (l *layout) gram(g *h.Gram) string {
	l.blank()
	for _, rd := range g.Rules {
		l.b.WriteString(rd.Name)
		if l.r.Chance(.8) {
			l.req()
		}
		if rd.Inc {
			l.b.WriteString("=/")
		} else {
			l.b.WriteString("=")
		}
		if l.r.Chance(.8) {
			l.req()
		}
		l.alt(rd.Alt)
		for l.r.Chance(l.wild * .4) {
			l.b.WriteString(l.one(" ", "\t"))
		}
		if l.r.Chance(l.wild * .3) {
			l.b.WriteString(comments[l.r.Intn(len(comments))])
		}
		l.b.WriteString("\r\n")
		l.blank()
	}
	return l.b.String()
}

func (l *layout) blank() {
	for l.r.Chance(l.wild * .3) {
		l.b.WriteString(l.one("", "", " ", "\t ", comments[l.r.Intn(len(comments))], " "+comments[l.r.Intn(len(comments))]))
		l.b.WriteString("\r\n")
	}
}

func (l *layout) alt(a h.Alt) {
	for i, c := range a.Cats {
		if i > 0 {
			l.opt()
			l.b.WriteString("/")
			l.opt()
		}
		for j, r := range c.Reps {
			if j > 0 {
				l.req()
			}
			l.rep(r)
		}
	}
}

func (l *layout) zeros(n int) string {
	z := ""
	for l.r.Chance(l.wild * .15) {
		z += "0"
	}
	return z + fmt.Sprint(n)
}

func (l *layout) rep(r h.Rep) {
	switch {
	case r.Min == 1 && r.Max == 1 && l.r.Chance(1-l.wild*.2):
	case r.Min == r.Max && l.r.Chance(1-l.wild*.3):
		l.b.WriteString(l.zeros(r.Min))
	default:
		if r.Min != 0 || l.r.Chance(l.wild*.3) {
			l.b.WriteString(l.zeros(r.Min))
		}
		l.b.WriteString("*")
		if r.Max != h.Inf {
			l.b.WriteString(l.zeros(r.Max))
		}
	}
	l.el(r.El)
}

func (l *layout) caseOf(s string) string {
	if l.r.Chance(l.wild * .3) {
		return strings.ToUpper(s)
	}
	return s
}

func (l *layout) el(e h.El) {
	switch v := e.(type) {
	case h.Ref:
		l.b.WriteString(v.Name)
	case h.Grp:
		l.b.WriteString("(")
		l.opt()
		l.alt(v.Alt)
		l.opt()
		l.b.WriteString(")")
	case h.Opt:
		l.b.WriteString("[")
		l.opt()
		l.alt(v.Alt)
		l.opt()
		l.b.WriteString("]")
	case h.Chr:
		switch {
		case v.CS:
			l.b.WriteString(l.caseOf("%s"))
		case v.I || l.r.Chance(l.wild*.2):
			l.b.WriteString(l.caseOf("%i"))
		}
		l.b.WriteString("\"" + v.S + "\"")
	case h.Num:
		f := map[byte]string{'b': "%b", 'd': "%d", 'x': "%X"}[v.Base]
		if v.Base == 'x' && l.r.Chance(.3) {
			f = "%x"
		}
		l.b.WriteString(l.caseOf("%" + string(rune(v.Base))))
		for i, n := range v.Vals {
			if i > 0 {
				if v.Range {
					l.b.WriteString("-")
				} else {
					l.b.WriteString(".")
				}
			}
			for l.r.Chance(l.wild * .1) {
				l.b.WriteString("0")
			}
			fmt.Fprintf(&l.b, f, n)
		}
	case h.Prose:
		l.b.WriteString("<" + v.S + ">")
	}
}

// damage mutates ABNF text the way broken files look.
func damage(r *simrt.Rand, s string) string {
	b := []byte(s)
	for k := 1 + r.Intn(3); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		switch r.Intn(8) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			c := []byte(" \t\r\n;=/()[]\"%<>*-.0aAx9_\x00\x80\xff'")
			b = append(b[:i:i], append([]byte{c[r.Intn(len(c))]}, b[i:]...)...)
		case 2:
			b = b[:i]
		case 3:
			b[i] ^= 1 << uint(r.Intn(8))
		case 4:
			j := i + r.Intn(len(b)-i)
			b = append(b[:j:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
		case 5:
			b = []byte(strings.Replace(string(b), "\r\n", "\n", 1+r.Intn(3)))
		case 6:
			b = []byte(strings.TrimRight(string(b), "\r\n"))
		case 7:
			b = []byte(strings.ReplaceAll(string(b), " ", ""))
		}
	}
	return string(b)
}
