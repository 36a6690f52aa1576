package gen

import (
	"slices"
	"strings"

	"verifharness/ref"
)

// Pool makes k glob fragments; globs made by stringing a few of them together
// share prefixes, suffixes and items a lot.
func Pool(r *Rng, a *Alphabet, k int, o Opt) []string {
	o.MaxElems = 1
	out := make([]string, 0, k)
	for len(out) < k {
		s := Glob(r, a, o)
		if s == "" {
			continue
		}
		out = append(out, s)
	}
	return out
}

// FromPool strings 1..n fragments together.
func FromPool(r *Rng, pool []string, n int) string {
	var b strings.Builder
	for k := 1 + r.Intn(n); k > 0; k-- {
		b.WriteString(Pick(r, pool))
	}
	return b.String()
}

// Dotted makes a dotted glob of 1..n nodes.
func Dotted(r *Rng, a *Alphabet, pool []string, n int) string {
	k := 1 + r.Intn(n)
	nodes := make([]string, k)
	for i := range nodes {
		if pool != nil && r.P(3, 4) {
			nodes[i] = FromPool(r, pool, 2)
		} else {
			nodes[i] = Glob(r, a, Opt{MaxElems: 3})
		}
	}
	return strings.Join(nodes, ".")
}

// Path makes a path for the dotted glob; about half are derived from it.
func Path(r *Rng, p *ref.Path, a *Alphabet) string {
	var nodes []string
	n := len(p.Nodes)
	switch k := r.Intn(12); {
	case k == 0:
		n++
	case k == 1 && n > 1:
		n--
	}
	if r.P(1, 14) { // the longest (shortest) path, or nearly
		long, star := r.P(2, 3), r.Intn(3)
		nodes = make([]string, len(p.Nodes))
		for i := range p.Nodes {
			u := p.Nodes[i].Extreme(long, star)
			if len(u) == 0 && r.P(9, 10) {
				u = append(u, Pick(r, a.Wild))
			}
			nodes[i] = ref.String(u)
		}
		if r.P(1, 4) {
			i := r.Intn(len(nodes))
			nodes[i] += string(Pick(r, a.Lits))
		}
		return strings.Join(nodes, ".")
	}
	other, mut := max(12, 2*n), max(7, 2*n) // a long path is damaged in about one place
	for i := 0; i < n; i++ {
		if i < len(p.Nodes) && !r.P(1, other) {
			u := p.Nodes[i].Sample(r, a.Wild)
			if len(u) == 0 && r.P(2, 3) {
				// an empty sample: the node must not match anything empty
				u = append(u, Pick(r, a.Wild))
			}
			if n > 8 && !r.P(1, n) { // keep the nodes whole
				for try := 0; try < 20 && (len(u) == 0 || slices.Contains(u, ref.Unit('.'))); try++ {
					u = p.Nodes[i].Sample(r, a.Wild)
				}
			}
			if r.P(1, mut) {
				u = Mutate(r, u, a.Wild)
			}
			if r.P(1, 150) {
				u = Stretch(r, p.Nodes[i], u, a.Wild)
			}
			nodes = append(nodes, ref.String(u))
		} else {
			var u []ref.Unit
			for j := r.Intn(4); j >= 0; j-- {
				u = append(u, Pick(r, a.Wild))
			}
			nodes = append(nodes, ref.String(u))
		}
	}
	s := strings.Join(nodes, ".")
	switch r.Intn(16) {
	case 0:
		s += "."
	case 1:
		s += ".."
	case 2:
		s = "." + s
	case 3: // double a dot
		if i := strings.IndexByte(s, '.'); i >= 0 {
			s = s[:i] + "." + s[i:]
		}
	case 4: // lose a dot
		if i := strings.LastIndexByte(s, '.'); i >= 0 {
			s = s[:i] + s[i+1:]
		}
	case 5: // a dot inside a node
		i := r.Intn(len(s) + 1)
		s = s[:i] + "." + s[i:]
	case 6: // replace a dot
		if i := strings.IndexByte(s, '.'); i >= 0 {
			s = s[:i] + "a" + s[i+1:]
		}
	case 7:
		if len(nodes) > 1 {
			i := r.Intn(len(nodes) - 1)
			nodes[i], nodes[i+1] = nodes[i+1], nodes[i]
			s = strings.Join(nodes, ".")
		}
	}
	return s
}
