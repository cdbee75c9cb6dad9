// Package tape is the only source of choices of a simulated run. Every choice
// is recorded, so that a run is a pure function of its tape, and shorter or
// smaller tapes are simpler runs.
package tape

// Tape gives choices, from a recorded list or from a seeded generator.
type Tape struct {
	Rec    []uint64 // choices made so far
	in     []uint64
	pos    int
	replay bool
	s      uint64
}

// New returns a tape that makes choices from a seed.
func New(seed uint64) *Tape { return &Tape{s: seed} }

// Replay returns a tape that repeats recorded choices, and then chooses 0.
func Replay(in []uint64) *Tape { return &Tape{in: in, replay: true} }

// Mix is a step of splitmix64.
func Mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (t *Tape) next() uint64 {
	t.s += 0x9e3779b97f4a7c15
	z := t.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N chooses a number in [0,n).
func (t *Tape) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint64
	if t.replay {
		if t.pos < len(t.in) {
			v = t.in[t.pos] % uint64(n)
			t.pos++
		}
	} else {
		v = t.next() % uint64(n)
	}
	t.Rec = append(t.Rec, v)
	return int(v)
}

// Range chooses a number in [lo,hi].
func (t *Tape) Range(lo, hi int) int { return lo + t.N(hi-lo+1) }

// Seed chooses the seed of a sub-generator: 0 is the simplest.
func (t *Tape) Seed() uint64 { return uint64(t.N(1 << 32)) }

// Chance is true once in n; the simplest choice is false.
func (t *Tape) Chance(n int) bool { return t.N(n) == n-1 && n > 0 }

// Odds is true in p of q cases; the simplest choice is false.
func (t *Tape) Odds(p, q int) bool { return t.N(q) >= q-p }

// Rand is a generator seeded by one choice, for bulk decisions.
type Rand struct{ s uint64 }

// NewRand returns a sub-generator.
func NewRand(seed uint64) *Rand { return &Rand{Mix(seed)} }

// N returns a number in [0,n).
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return int((z ^ (z >> 31)) % uint64(n))
}
