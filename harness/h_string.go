package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/chenquan/go-pkg/xstring"
	"verif.local/vsim/core"
	. "verif.local/vsim/fw"
	"verif.local/vsim/srand"
)

// ---------------------------------------------------------------- C33

var runeStock = []rune{'a', 'b', 'c', '0', ' ', 'é', 'ß', '世', '界', '€', '\u0301', '\x00', '\n', '𝄞', '😀', '\uFFFD', '\u200d', 'z'}

// V "s<i>": runes (as indexes of the stock, or offsets from it) of the string of client i;
// P "extreme": what the random source gives first.
func genShuffle(r *R) *Plan {
	p := NewPlan()
	for n := r.Pick(1, 1, 2, 3); n > 0; n-- {
		var v []int
		max := 8
		if r.P(1, 8) {
			max = 200
		}
		if r.P(1, 200) {
			max = r.Pick(600, 1100, 5000)
		}
		for k := r.Small(max); k > 0; k-- {
			v = append(v, r.N(len(runeStock)))
		}
		p.V[fmt.Sprint("s", len(p.C))] = v
		p.C = append(p.C, []Op{{K: "shuffle", A: r.In(1, 4), B: r.Small(4)}})
	}
	p.P["extreme"] = r.Pick(0, 0, 1, 2)
	return p
}

func runesOf(v []int) []rune {
	var out []rune
	for _, i := range v {
		out = append(out, runeStock[(i%len(runeStock)+len(runeStock))%len(runeStock)])
	}
	return out
}

func sorted(rs []rune) string {
	w := make([]rune, 0, len(rs))
	for _, x := range rs {
		w = append(w, x)
	}
	sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
	return string(w)
}

func runShuffle(p *Plan) {
	srand.Extreme, srand.Left = p.Get("extreme", 0, 2), 64
	MustFinish("stuck", len(p.C), func(c int) {
		rs := runesOf(p.V[fmt.Sprint("s", c)])
		in := string(rs)
		for _, op := range p.C[c] {
			for k := 0; k < op.A; k++ {
				nap(Op{A: op.B})
				out := xstring.Shuffle(in)
				if in != string(rs) {
					Failf("input", "the input became %q instead of %q", in, string(rs))
				}
				if sorted([]rune(out)) != sorted(rs) || len(out) != len(in) {
					Failf("permutation", "shuffle of %q returned %q", in, out)
				}
			}
		}
	})
}

func genReach(r *R) *Plan {
	p := NewPlan()
	n := r.Pick(1, 2, 2, 3, 3, 3, 4, 4)
	switch r.N(60) {
	case 0, 1, 2:
		n = 5
	case 3:
		n = 6
	}
	if r.P(1, 500) {
		n = 7
	}
	var v []int
	first := r.N(len(runeStock))
	for i := 0; i < n; i++ {
		v = append(v, first+i)
	}
	if r.P(1, 4) && n > 1 {
		v[0] = v[1] // a repeated character
	}
	p.V["s"] = v
	return p
}

// runReach draws so often that an arrangement that can occur is missing with a chance below 1e-20.
func runReach(p *Plan) {
	srand.Extreme = 0
	rs := runesOf(p.V["s"])
	in := string(rs)
	want := map[string]bool{}
	var perm func(rest []rune, done string)
	perm = func(rest []rune, done string) {
		if len(rest) == 0 {
			want[done] = false
		}
		for i, x := range rest {
			var o []rune
			for j, y := range rest {
				if i != j {
					o = append(o, y)
				}
			}
			perm(o, done+string(x))
		}
	}
	if len(rs) > 7 {
		rs = rs[:7]
		in = string(rs)
	}
	perm(rs, "")
	draws, missing := 60*len(want)+10, len(want)
	for i := 0; i < draws && missing > 0; i++ {
		time.Sleep(time.Duration(1 + core.Choose(1000000)))
		out := xstring.Shuffle(in)
		seen, ok := want[out]
		if !ok {
			Failf("permutation", "shuffle of %q returned %q", in, out)
		}
		if !seen {
			want[out] = true
			missing--
		}
	}
	for s, seen := range want {
		if !seen {
			Failf("unreachable", "the arrangement %q of %q never occurs in %d draws", s, in, draws)
		}
	}
}

// V "n": length, positions to look at.
func genPlaces(r *R) *Plan {
	p := NewPlan()
	n := r.In(5, 12)
	if r.P(1, 4) {
		n = r.Pick(17, 33, 65, 100, 129)
	}
	if r.P(1, 25) {
		n = r.Pick(257, 300, 513, 1025)
	}
	p.P["n"], p.P["base"] = n, r.Pick('a', 0x4e00, 0x1F300)
	p.V["at"] = []int{0, n - 1, r.N(n), r.N(n)}
	return p
}

// runPlaces looks at longer strings of distinct characters: every place can get a character of every
// part of the string, any two characters can end up in either order, and permutations of both
// parities occur. Each of these is missing with a chance below 1e-18, even of a shuffle that is far from
// uniform.
func runPlaces(p *Plan) {
	srand.Extreme = 0
	n := p.Get("n", 2, 2000)
	base := p.Get("base", 'a', 0x1F300)
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = rune(base + i)
	}
	in := string(rs)
	parts := n
	if parts > 12 {
		parts = 4
	}
	draws := 100 * parts
	at := p.V["at"]
	seen := make([][]bool, len(at))
	for i := range seen {
		seen[i] = make([]bool, parts)
	}
	var order, parity [2]bool
	for d := 0; d < draws; d++ {
		if d%8 == 0 {
			time.Sleep(time.Duration(1 + core.Choose(1000000)))
		}
		out := []rune(xstring.Shuffle(in))
		if len(out) != n {
			Failf("permutation", "shuffle of %d characters returned %d", n, len(out))
		}
		place := make([]int, n) // place[i]: where character i went, plus one
		for k, x := range out {
			i := int(x) - base
			if i < 0 || i >= n || place[i] != 0 {
				Failf("permutation", "shuffle of %q returned %q", in, string(out))
			}
			place[i] = k + 1
		}
		for i, a := range at {
			a = (a%n + n) % n
			seen[i][(int(out[a])-base)*parts/n] = true
		}
		if len(at) > 3 {
			x, y := (at[2]%n+n)%n, (at[3]%n+n)%n
			if x == y {
				y = (y + 1) % n
			}
			if place[x] < place[y] {
				order[0] = true
			} else {
				order[1] = true
			}
		}
		cycles, done := 0, make([]bool, n)
		for i := range place {
			if !done[i] {
				cycles++
			}
			for !done[i] {
				done[i] = true
				i = place[i] - 1
			}
		}
		parity[(n-cycles)%2] = true
	}
	for i, s := range seen {
		for part, ok := range s {
			if !ok {
				Failf("unreachable", "in %d draws of %d characters, place %d never gets one of characters %d to %d", draws, n, at[i], (part*n+parts-1)/parts, ((part+1)*n-1)/parts)
			}
		}
	}
	if len(at) > 3 && (!order[0] || !order[1]) {
		Failf("unreachable", "in %d draws of %d characters, characters %d and %d are always in the same order", draws, n, at[2], at[3])
	}
	if !parity[0] || !parity[1] {
		Failf("unreachable", "in %d draws of %d characters, all permutations have the same parity", draws, n)
	}
}

func init() {
	Register(&Scenario{Prop: "C33", Name: "places", Weight: 1, Statistical: true, Gen: genPlaces, Run: runPlaces, Cfg: func(r *R, p *Plan, c *core.Config) { c.MaxSteps = 1000000 }})
	Register(&Scenario{Prop: "C33", Name: "shuffle", Weight: 8, Gen: genShuffle, Run: runShuffle})
	Register(&Scenario{Prop: "C33", Name: "reach", Weight: 1, Statistical: true, Gen: genReach, Run: runReach, Cfg: func(r *R, p *Plan, c *core.Config) { c.MaxSteps = 5000000 }})
}
