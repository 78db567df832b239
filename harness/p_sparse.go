package main

import (
	"fmt"

	"github.com/google/codesearch/sparse"
	"pgregory.net/rapid"
)

// C25: the sparse set against a slice and a map.

type c25Op struct {
	K string // add, has, reset, len, dense
	X uint32
	N int `json:",omitempty"` // add: repeated so often, each time after a reset
	S int `json:",omitempty"` // which of two sets
}

type c25Case struct {
	Max  uint32
	Init bool // made by Init instead of NewSet
	Ops  []c25Op
}

func genC25(t *rapid.T) c25Case {
	var c c25Case
	c.Max = uint32(pick(t, []int{1, 2, 3, 10, 100, 5000}, "max"))
	c.Init = chance(t, 30, "init")
	two := chance(t, 20, "two")
	n := intn(t, 0, 60, "nops")
	for i := 0; i < n; i++ {
		var x uint32
		if len(c.Ops) > 0 && chance(t, 40, "again") {
			x = pick(t, c.Ops, "old").X
		} else {
			x = uint32(intn(t, 0, int(c.Max-1), "x"))
			if chance(t, 10, "last") {
				x = c.Max - 1
			}
		}
		op := c25Op{X: x}
		if two {
			op.S = intn(t, 0, 1, "which")
		}
		switch k := intn(t, 0, 19, "k"); {
		case k < 10:
			op.K = "add"
			if i > 0 && chance(t, 1, "cycle") {
				op.N = 1<<intn(t, 1, 16, "cycles") + intn(t, -1, 1, "cyclesoff")
			}
		case k < 17:
			op.K = "has"
		case k < 18:
			op.K = "reset"
			if chance(t, 10, "resets") {
				op.N = 1<<intn(t, 1, 16, "nresets") + intn(t, -2, 1, "nresetsoff")
			}
		case k < 19:
			op.K = "len"
		default:
			op.K = "dense"
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkC25(e *Env, c c25Case) Result {
	type set struct {
		s     *sparse.Set
		order []uint32
		in    map[uint32]bool
	}
	var sets [2]*set
	for i := range sets {
		s := &set{in: map[uint32]bool{}}
		if c.Init {
			s.s = new(sparse.Set)
			s.s.Init(c.Max)
		} else {
			s.s = sparse.NewSet(c.Max)
		}
		sets[i] = s
	}
	dup, resets, cycles := false, 0, 0
	dense := func(s *set) bool {
		d := s.s.Dense()
		if len(d) != len(s.order) {
			return false
		}
		for i := range d {
			if d[i] != s.order[i] {
				return false
			}
		}
		return true
	}
	for i, op := range c.Ops {
		if op.X >= c.Max || op.S < 0 || op.S > 1 || op.N < 0 || op.N > 1<<18 {
			return Result{Invalid: true}
		}
		s := sets[op.S]
		switch op.K {
		case "add":
			for k := 0; k < op.N; k++ {
				s.s.Reset()
				clear(s.in)
				s.order = append(s.order[:0], op.X)
				s.in[op.X] = true
				s.s.Add(op.X)
				if !s.s.Has(op.X) || s.s.Len() != 1 {
					return fail("step %d: after reset %d and Add(%d): Has = %v, Len = %d", i, k, op.X, s.s.Has(op.X), s.s.Len())
				}
				cycles++
				resets++
			}
			s.s.Add(op.X)
			if s.in[op.X] {
				dup = true
			} else {
				s.in[op.X] = true
				s.order = append(s.order, op.X)
			}
		case "has":
			if got := s.s.Has(op.X); got != s.in[op.X] {
				return fail("step %d: Has(%d) = %v with contents %v", i, op.X, got, s.order)
			}
		case "reset":
			s.s.Reset()
			if len(s.order) > 0 {
				resets++
			}
			s.order, s.in = nil, map[uint32]bool{}
			for k := range op.N {
				s.s.Reset()
				cycles = max(cycles, k)
			}
		case "len":
			if s.s.Len() != len(s.order) {
				return fail("step %d: Len() = %d with contents %v", i, s.s.Len(), s.order)
			}
		case "dense":
			if !dense(s) {
				return fail("step %d: Dense() = %v, want %v", i, s.s.Dense(), s.order)
			}
		}
	}
	for i, s := range sets {
		if s.s.Len() != len(s.order) || !dense(s) {
			return fail("set %d at the end: Len() = %d, Dense() = %v, want %v", i, s.s.Len(), s.s.Dense(), s.order)
		}
		for x := uint32(0); x < c.Max; x++ {
			if s.s.Has(x) != s.in[x] {
				return fail("set %d at the end: Has(%d) = %v with contents %v", i, x, s.s.Has(x), s.order)
			}
		}
	}
	var r Result
	r.Nontrivial = dup && resets > 0
	if dup {
		r.label("repeated add")
	}
	if resets > 0 {
		r.label("reset of non-empty")
	}
	if cycles >= 255 {
		r.label("at least 255 resets")
	}
	return r
}

// Large sets: whole progressions of values at a time.

type c25Bulk struct {
	K        string // add, has, reset
	Lo, N    uint32
	Step     uint32
	Backward bool `json:",omitempty"`
}

type c25LargeCase struct {
	Max  uint32
	Init bool
	Ops  []c25Bulk
}

func genC25Large(t *rapid.T) c25LargeCase {
	var c c25LargeCase
	c.Max = uint32(pick(t, []int{255, 256, 257, 1000, 4097, 65535, 65536, 65537, 70000, 1 << 17, 1<<18 + 3, 1<<20 - 1, 1 << 20}, "max"))
	if chance(t, pctThorough(1, 10), "huge") {
		c.Max = 1 << 24
	}
	c.Init = chance(t, 30, "init")
	for n := intn(t, 1, 8, "nops"); n > 0; n-- {
		op := c25Bulk{K: pick(t, []string{"add", "add", "add", "has", "reset"}, "k"), Step: 1}
		if len(c.Ops) > 0 && op.K != "reset" && chance(t, 40, "again") {
			k := op.K
			op = pick(t, c.Ops, "old")
			op.K = k
			op.Backward = chance(t, 30, "back")
		} else {
			op.Lo = uint32(intn(t, 0, int(c.Max-1), "lo"))
			if chance(t, 50, "zero") {
				op.Lo = 0
			}
			op.Step = uint32(pick(t, []int{1, 1, 2, 3, 7, 256, 65536}, "step"))
			room := (c.Max-1-op.Lo)/op.Step + 1
			op.N = uint32(intn(t, 0, int(room), "n"))
			if chance(t, 40, "all") {
				op.N = room
			}
			op.N = min(op.N, 2<<20)
			op.Backward = chance(t, 30, "back")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkC25Large(e *Env, c c25LargeCase) Result {
	var r Result
	if c.Max < 1 || c.Max > 1<<24 {
		return Result{Invalid: true}
	}
	var s *sparse.Set
	if c.Init {
		s = new(sparse.Set)
		s.Init(c.Max)
	} else {
		s = sparse.NewSet(c.Max)
	}
	var order []uint32
	in := make([]bool, c.Max)
	dup, resets, large := false, 0, 0
	same := func(i int) string {
		if s.Len() != len(order) {
			return fmt.Sprintf("step %d: Len() = %d, want %d", i, s.Len(), len(order))
		}
		d := s.Dense()
		if len(d) != len(order) {
			return fmt.Sprintf("step %d: Dense() has %d elements, want %d", i, len(d), len(order))
		}
		for j := range d {
			if d[j] != order[j] {
				return fmt.Sprintf("step %d: element %d is %d, want %d", i, j, d[j], order[j])
			}
		}
		return ""
	}
	for i, op := range c.Ops {
		if op.K == "reset" {
			s.Reset()
			if len(order) > 0 {
				resets++
				for _, x := range order {
					in[x] = false
				}
				order = order[:0]
			}
		} else if op.N > 0 {
			if op.Step == 0 || op.Lo >= c.Max || op.N-1 > (c.Max-1-op.Lo)/op.Step {
				return Result{Invalid: true}
			}
			for k := uint32(0); k < op.N; k++ {
				x := op.Lo + k*op.Step
				if op.Backward {
					x = op.Lo + (op.N-1-k)*op.Step
				}
				if op.K == "has" {
					if s.Has(x) != in[x] {
						return fail("step %d: Has(%d) = %v, of %d elements", i, x, s.Has(x), len(order))
					}
					continue
				}
				s.Add(x)
				if in[x] {
					dup = true
				} else {
					in[x] = true
					order = append(order, x)
				}
			}
		}
		if bad := same(i); bad != "" {
			return fail("%s", bad)
		}
		large = max(large, len(order))
	}
	for x := range in {
		if s.Has(uint32(x)) != in[x] {
			return fail("at the end: Has(%d) = %v, of %d elements", x, !in[x], len(order))
		}
	}
	r.Nontrivial = dup && resets > 0
	if large > 65536 {
		r.label("more than 65536 elements")
	}
	return r
}

func init() {
	rules["C25"] = "operation sequences on sets of capacity 1 to 5000 with values often repeated (sometimes two sets, or up to 65537 resets), and additions of whole progressions on sets of capacity up to 2^20 (some 2^24); non-trivial: a value added twice and a reset of a non-empty set"
	assumptions["C25"] = []string{"values lie below the capacity; Init is used on a fresh set"}
	reg("C25", "ops", opts{noDir: true, quick: 160000, thorough: 8000000, recycle: 100000}, genC25, checkC25)
	reg("C25", "large", opts{noDir: true, quick: 6000, thorough: 250000, recycle: 1000}, genC25Large, checkC25Large,
		c25LargeCase{Max: 1 << 24, Ops: []c25Bulk{{K: "add", Lo: 0, N: 70000, Step: 200}, {K: "add", Lo: 0, N: 70000, Step: 200, Backward: true}, {K: "has", N: 1 << 20, Step: 16}, {K: "reset"}, {K: "add", Lo: 1<<24 - 1, N: 1, Step: 1}}})
}

// pctThorough is a percentage that differs between tiers.
func pctThorough(quick, thorough int) int {
	if tier() == "thorough" {
		return thorough
	}
	return quick
}
