package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// pooled is one grammar a parser is generated from.
type pooled struct {
	Text   string
	Rule   string
	NoVal  bool
	Note   string // why there is no parser
	Broken string // the compiler's message
	Error  string // GenerateGoParser's error
}

func drawGrammar(r *simrt.Rand) pooled {
	c := h.SwarmCfg(r)
	c.MaxRep = 12
	var p pooled
	if r.Chance(.12) {
		c.Undef, c.Prose = true, true
		p.NoVal = true
	}
	if c.Rules > 6 {
		c.Rules = 6
	}
	var g *h.Gram
	large := r.Chance(.05)
	if large {
		g, _, _ = h.Large(r, c, true)
	} else if r.Chance(.3) {
		g = h.Template(r, c)
	} else {
		g = h.GenGram(r, c)
	}
	if !large && r.Chance(.2) {
		h.Stretch(g, r)
	}
	if !large && r.Chance(.12) {
		h.RedefCore(g, r)
	}
	if !large && r.Chance(.15) {
		h.Rename(g, r)
	}
	p.Text, p.Rule = g.Text(), g.Rules[0].Name
	if !large && !c.Prose && r.Chance(.05) {
		p.Text += h.ExoticMark
	}
	if r.Chance(.2) {
		p.Rule = g.Rules[r.Intn(len(g.Rules))].Name
	}
	if r.Chance(.1) {
		p.Rule = strings.ToUpper(p.Rule)
	}
	if r.Chance(.06) {
		p.Rule = []string{"ALPHA", "LWSP", "WSP", "HEXDIG"}[r.Intn(4)]
	}
	if r.Chance(.02) {
		p.Rule = "no-such-rule"
	}
	return p
}

func emitParser(p *pooled, pkg string, cfg simrt.Config) []byte {
	var src []byte
	cfg.Budget = 200_000_000
	o := simrt.Do(cfg, func() {
		g, err := goabnf.ParseABNF([]byte(p.Text), goabnf.WithValidation(!p.NoVal), goabnf.WithRedefineCoreRules(true))
		if err != nil {
			p.Error = "ParseABNF: " + err.Error()
			return
		}
		if h.IsExotic(p.Text) {
			m, _ := h.RefRead(p.Text)
			g, _ = m.Build()
		}
		src, err = goabnf.GenerateGoParser(g, p.Rule, pkg)
		if err != nil {
			p.Error = err.Error()
		}
	})
	if o.Panic != "" {
		p.Broken = "GenerateGoParser panicked: " + o.Panic
		return nil
	}
	if o.OverRun {
		p.Error = "too long"
		return nil
	}
	return src
}

// prep generates the parsers of the pool into the scratch tree, compiles them
// and writes the registry the harness is then rebuilt with.
func prep(root string, pool []pooled, seed uint64) error {
	gdir := filepath.Join(root, "zsim/gen")
	os.MkdirAll(gdir, 0o755)
	byPkg := map[string]int{}
	for i := range pool {
		pkg := fmt.Sprintf("g%d", i)
		r := simrt.NewRand(simrt.Mix(seed, uint64(i)))
		src := emitParser(&pool[i], pkg, h.Schedules(r, 2)[1])
		if src == nil || pool[i].Error != "" {
			continue
		}
		os.MkdirAll(filepath.Join(gdir, pkg), 0o755)
		if err := os.WriteFile(filepath.Join(gdir, pkg, "p.go"), src, 0o644); err != nil {
			return err
		}
		byPkg[pkg] = i
	}
	// compile
	cmd := exec.Command("go", "build", "./zsim/gen/...")
	cmd.Dir = root
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
	out, err := cmd.CombinedOutput()
	if err != nil {
		re := regexp.MustCompile(`zsim/gen/(g\d+)/p\.go:(.*)`)
		n := 0
		for _, l := range strings.Split(string(out), "\n") {
			if m := re.FindStringSubmatch(l); m != nil {
				if i, ok := byPkg[m[1]]; ok {
					pool[i].Broken = "p.go:" + m[2]
					delete(byPkg, m[1])
					os.RemoveAll(filepath.Join(gdir, m[1]))
					n++
				}
			}
		}
		if n == 0 {
			return fmt.Errorf("go build: %v\n%s", err, out)
		}
	}
	var reg strings.Builder
	reg.WriteString("package main\n\nimport (\n\t\"errors\"\n\n\tgoabnf \"github.com/pandatix/go-abnf\"\n")
	for i := range pool {
		if _, ok := byPkg[fmt.Sprintf("g%d", i)]; ok {
			fmt.Fprintf(&reg, "\t\"github.com/pandatix/go-abnf/zsim/gen/g%d\"\n", i)
		}
	}
	reg.WriteString(")\n\nvar (\n\t_ *goabnf.ParseTree\n\t_ = errors.Is\n)\n\nfunc init() {\n")
	var pats []string
	for i, p := range pool {
		pkg := fmt.Sprintf("g%d", i)
		_, ok := byPkg[pkg]
		fmt.Fprintf(&reg, "\tregistry = append(registry, entry{text: %s, rule: %q, noval: %v, broken: %q, refused: %q", strconv.Quote(p.Text), p.Rule, p.NoVal, p.Broken, p.Error)
		if ok {
			pats = append(pats, "./zsim/gen/"+pkg)
			fmt.Fprintf(&reg, ", setMax: func(n int) { %s.MaxElements = n }, tooLarge: func(e error) bool { return errors.Is(e, %s.ErrTooLarge) }, parse: func(in []byte) (result, error) {\n\t\tr, err := %s.Parse(in)\n\t\tif r == nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn wrap%s{r}, err\n\t}", pkg, pkg, pkg, pkg)
		}
		reg.WriteString("})\n")
	}
	reg.WriteString("}\n")
	for i := range pool {
		pkg := fmt.Sprintf("g%d", i)
		if _, ok := byPkg[pkg]; ok {
			fmt.Fprintf(&reg, "\ntype wrap%s struct{ *%s.Result }\n\nfunc (w wrap%s) tree() *goabnf.ParseTree { return conv%s(w.Result.Tree()) }\n\nfunc conv%s(t *%s.ParseTree) *goabnf.ParseTree {\n\tif t == nil {\n\t\treturn nil\n\t}\n\to := &goabnf.ParseTree{Rule: t.Rule, Start: t.Start, End: t.End}\n\tfor _, k := range t.Children {\n\t\to.Children = append(o.Children, conv%s(k))\n\t}\n\treturn o\n}\n", pkg, pkg, pkg, pkg, pkg, pkg, pkg)
		}
	}
	if err := os.WriteFile(filepath.Join(root, "zsim/harness/simgen/registry_gen.go"), []byte(reg.String()), 0o644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(root, "zsim/gen/packages.txt"), []byte(strings.Join(pats, ",")), 0o644)
}

func prepMain(args []string) error {
	root, seedS, n := args[0], args[1], args[2]
	var pool []pooled
	seed, _ := strconv.ParseUint(seedS, 10, 64)
	if strings.HasSuffix(n, ".json") {
		b, err := os.ReadFile(n)
		if err != nil {
			return err
		}
		var rf struct{ Scenario h.Scenario }
		if err := json.Unmarshal(b, &rf); err != nil {
			return err
		}
		pool = []pooled{{Text: rf.Scenario.Grammars[0], Rule: rf.Scenario.Rule, NoVal: rf.Scenario.Par["novalidate"] == 1}}
	} else {
		k, _ := strconv.Atoi(n)
		for i := 0; i < k; i++ {
			pool = append(pool, drawGrammar(simrt.NewRand(h.RunSeed(seed, "C14 pool", i))))
		}
	}
	return prep(root, pool, seed)
}
