package main

import (
	"regexp"
	"strings"
)

// Leaving assumptions out of a query is always sound. slim drops the
// quantified facts that are about other parts of the heap than the goal:
// those of which no pattern stays within the heaps the goal mentions (and,
// with more steps, the heaps that the facts kept so far mention). With no steps
// it drops the quantified facts that mention any other heap than the goal does.

var heapRe = regexp.MustCompile(`\|([A-Z]:[^|]*)[@!][0-9]+\|`)

func families(s string, into map[string]bool) {
	for _, m := range heapRe.FindAllStringSubmatch(s, -1) {
		into[m[1]] = true
	}
}

// sexprEnd gives the index after the expression that starts at i.
func sexprEnd(s string, i int) int {
	depth := 0
	for ; i < len(s); i++ {
		switch s[i] {
		case '|':
			for i++; i < len(s) && s[i] != '|'; i++ {
			}
			if depth == 0 {
				return i + 1
			}
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return i + 1
			}
			if depth < 0 {
				return i
			}
		case ' ':
			if depth == 0 {
				return i
			}
		}
	}
	return i
}

// parts gives the elements of a parenthesised expression.
func parts(s string) []string {
	var r []string
	for i := 1; i < len(s)-1; {
		if s[i] == ' ' {
			i++
			continue
		}
		e := sexprEnd(s, i)
		if e <= i {
			break
		}
		r = append(r, s[i:e])
		i = e
	}
	return r
}

func conjuncts(s string, into []string) []string {
	if strings.HasPrefix(s, "(and ") {
		for _, p := range parts(s)[1:] {
			into = conjuncts(p, into)
		}
		return into
	}
	return append(into, s)
}

// patternFamilies gives the heaps in each pattern of an outermost quantifier.
func patternFamilies(s string) []map[string]bool {
	p := parts(s)
	if len(p) < 3 || !strings.HasPrefix(p[2], "(! ") {
		return nil
	}
	var r []map[string]bool
	b := parts(p[2])
	for i := 2; i+1 < len(b); i++ {
		if b[i] == ":pattern" {
			m := map[string]bool{}
			families(b[i+1], m)
			r = append(r, m)
		}
	}
	return r
}

func slim(text string, steps int) string {
	lines := strings.Split(text, "\n")
	goal := -1
	for i, l := range lines {
		if strings.HasPrefix(l, "(assert (not ") {
			goal = i
		}
	}
	if goal < 0 {
		return text
	}
	fams := map[string]bool{}
	families(lines[goal], fams)
	type fact struct {
		s    string
		pats []map[string]bool
		keep bool
	}
	facts := map[int][]*fact{}
	dropped := false
	for i, l := range lines {
		if i == goal || !strings.HasPrefix(l, "(assert ") || !strings.Contains(l, "(forall ") {
			continue
		}
		for _, c := range conjuncts(l[8:len(l)-1], nil) {
			f := &fact{s: c, keep: true}
			if strings.HasPrefix(c, "(forall ") {
				f.pats = patternFamilies(c)
				f.keep = len(f.pats) == 0
				if steps == 0 {
					own := map[string]bool{}
					families(c, own)
					f.keep = true
					for k := range own {
						f.keep = f.keep && fams[k]
					}
				}
			}
			facts[i] = append(facts[i], f)
		}
	}
	for step := 0; step < steps; step++ {
		more := map[string]bool{}
		for _, fs := range facts {
			for _, f := range fs {
				if f.keep {
					continue
				}
				for _, m := range f.pats {
					all := true
					for k := range m {
						if !fams[k] {
							all = false
						}
					}
					if all {
						f.keep = true
						families(f.s, more)
						break
					}
				}
			}
		}
		for k := range more {
			fams[k] = true
		}
	}
	var b strings.Builder
	for i, l := range lines {
		fs, ok := facts[i]
		if !ok {
			b.WriteString(l + "\n")
			continue
		}
		for _, f := range fs {
			if f.keep {
				b.WriteString("(assert " + f.s + ")\n")
			} else {
				dropped = true
			}
		}
	}
	if !dropped {
		return text
	}
	return b.String()
}

var guardRe = regexp.MustCompile(`^\(forall \(\(([^ ()]+) Int\)\) \(! \(=> \(and \(< 0 [^ ()]+\) \(<= [^ ()]+ [^ ]+\) \(= \(rtype ([^ ()]+)\) ([0-9]+)\)\)`)

// cases splits a goal about all objects of a type into the cases that the
// object is a parameter of the function and that it is not.
func cases(text string) []string {
	i := strings.LastIndex(text, "(assert (not ")
	j := strings.LastIndex(text, "(check-sat)")
	if i < 0 || j < i {
		return nil
	}
	line := strings.TrimSpace(text[i:j])
	goal := line[len("(assert (not ") : len(line)-2]
	m := guardRe.FindStringSubmatch(goal)
	if m == nil || m[1] != m[2] {
		return nil
	}
	p := parts(goal)
	body := parts(p[2])[1]
	pv := regexp.MustCompile(`\(= \(rtype (\|p_[^|]*\|)\) ` + m[3] + `\)`).FindStringSubmatch(text)
	if pv == nil {
		return nil
	}
	head := text[:i] + "(declare-const " + m[1] + " Int)\n"
	tail := "(assert (not " + body + "))\n(check-sat)\n"
	eq := "(= " + m[1] + " " + pv[1] + ")"
	return []string{head + "(assert " + eq + ")\n" + tail, head + "(assert (not " + eq + "))\n" + tail}
}
