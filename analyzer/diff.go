package main

import "sort"

// Difference constraints: what the recorded inequalities imply about the
// difference of two unknowns, through any chain of others.

type diffGraph struct {
	terms []*Term // terms[0] is zero
	num   map[*Term]int
	lo    [][]int64 // lo[i][j]: i-j is at least this
	known [][]bool
}

func (g *diffGraph) node(t *Term) int {
	if n, ok := g.num[t]; ok {
		return n
	}
	n := len(g.terms)
	g.terms = append(g.terms, t)
	g.num[t] = n
	for i := range g.lo {
		g.lo[i] = append(g.lo[i], 0)
		g.known[i] = append(g.known[i], false)
	}
	g.lo = append(g.lo, make([]int64, n+1))
	g.known = append(g.known, make([]bool, n+1))
	return n
}

func (g *diffGraph) set(i, j int, c int64) bool {
	if i == j {
		return false
	}
	if !g.known[i][j] || g.lo[i][j] < c {
		g.known[i][j] = true
		g.lo[i][j] = c
		return true
	}
	return false
}

// edge splits a normalised form x - y + c into its parts (0 is zero).
func (g *diffGraph) edge(l Lin) (i, j int, ok bool) {
	switch len(l.T) {
	case 1:
		switch l.T[0].K {
		case 1:
			return g.node(l.T[0].T), 0, true
		case -1:
			return 0, g.node(l.T[0].T), true
		}
	case 2:
		a, b := l.T[0], l.T[1]
		if a.K == 1 && b.K == -1 {
			return g.node(a.T), g.node(b.T), true
		}
		if a.K == -1 && b.K == 1 {
			return g.node(b.T), g.node(a.T), true
		}
	}
	return 0, 0, false
}

func (s *State) diffs(extra ...Lin) *diffGraph {
	g := &diffGraph{num: map[*Term]int{}}
	g.node(nil)
	for _, q := range s.ineqs {
		q = s.norm(q)
		if i, j, ok := g.edge(q); ok {
			g.set(i, j, -q.C)
		}
	}
	for _, l := range extra {
		g.edge(l)
	}
	for n, t := range g.terms {
		if t == nil {
			continue
		}
		lo, hi := s.bounds(t)
		if lo != nil {
			g.set(n, 0, *lo)
		}
		if hi != nil {
			g.set(0, n, -*hi)
		}
	}
	n := len(g.terms)
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if !g.known[i][k] {
				continue
			}
			for j := 0; j < n; j++ {
				if g.known[k][j] {
					g.set(i, j, g.lo[i][k]+g.lo[k][j])
				}
			}
		}
	}
	return g
}

// diffGE decides l >= 0 for a difference l.
func (s *State) diffGE(l Lin) (val, known bool) {
	if len(l.T) == 0 || len(l.T) > 2 || len(s.ineqs) == 0 {
		return false, false
	}
	for _, t := range l.T {
		if t.K != 1 && t.K != -1 {
			return false, false
		}
	}
	if len(l.T) == 2 && l.T[0].K == l.T[1].K {
		return false, false
	}
	g := s.diffs(l)
	i, j, ok := g.edge(l)
	if !ok {
		return false, false
	}
	if g.known[i][j] && g.lo[i][j]+l.C >= 0 {
		return true, true
	}
	if g.known[j][i] && g.lo[j][i]-l.C > 0 {
		return false, true
	}
	return false, false
}

// project drops from the recorded differences the unknowns nothing refers to
// any more (all but keep; none if that is nil), keeping what they imply about
// the others. With a limit, distances above it are not told apart.
func (s *State) project(keep map[*Term]bool, limit int64) {
	if len(s.ineqs) == 0 {
		return
	}
	g := s.diffs()
	var out []Lin
	for _, q := range s.ineqs {
		q = s.norm(q)
		if _, _, ok := g.edge(q); !ok {
			all := true
			for _, t := range q.T {
				all = all && (keep == nil || keep[t.T])
			}
			if all {
				out = append(out, q)
			}
		}
	}
	var live []int
	for n, t := range g.terms {
		if t == nil || keep == nil || keep[t] {
			live = append(live, n)
		}
	}
	sort.Slice(live, func(a, b int) bool {
		x, y := g.terms[live[a]], g.terms[live[b]]
		if x == nil || y == nil {
			return x == nil && y != nil
		}
		return x.id < y.id
	})
	for _, i := range live {
		for _, j := range live {
			if i == j || !g.known[i][j] {
				continue
			}
			c := g.lo[i][j]
			if limit > 0 && i != 0 && j != 0 {
				if c > limit {
					c = limit
				}
				if c < -4*limit {
					continue
				}
			}
			// leave out what follows from the others
			red := false
			for _, k := range live {
				if k != i && k != j && g.known[i][k] && g.known[k][j] && g.lo[i][k]+g.lo[k][j] >= c {
					// ties are broken by the order of the terms
					if g.lo[i][k]+g.lo[k][j] > c || g.strict(i, k, j) {
						red = true
						break
					}
				}
			}
			if red {
				continue
			}
			l := linC(-c)
			if t := g.terms[i]; t != nil {
				l = l.add(linT(t), 1)
			}
			if t := g.terms[j]; t != nil {
				l = l.add(linT(t), -1)
			}
			if i == 0 || j == 0 {
				t := g.terms[i+j]
				lo, hi := s.bounds(t)
				if j == 0 && lo != nil && *lo >= c || i == 0 && hi != nil && -*hi >= c {
					continue
				}
			}
			out = append(out, l)
		}
	}
	s.ineqs = out
}

// strict reports that leaving out i-j in favour of i-k-j cannot be circular:
// there are no equalities between k and i or j.
func (g *diffGraph) strict(i, k, j int) bool {
	eq := func(a, b int) bool {
		return g.known[a][b] && g.known[b][a] && g.lo[a][b]+g.lo[b][a] >= 0
	}
	return !eq(i, k) && !eq(k, j)
}
