package rt

import (
	"runtime"
	"sort"
	"unsafe"
)

// Maps whose keys are pointers (or interfaces holding them) are iterated by
// the Go runtime in an order that depends on the addresses of the objects,
// which the simulator does not control. The instrumenter therefore numbers
// the pointers when they are put in a map (Seen) and iterates such maps
// through Pairs, in an order that depends on these numbers and the seed alone.

type eface struct {
	typ, data unsafe.Pointer
}

// numbers is a hash table from pointers to numbers. It keeps the objects alive, so
// that no address is used again.
var numbers struct {
	tab  []numbered
	used int
}

type numbered struct {
	p  unsafe.Pointer
	id int
}

//go:norace
func slot(tab []numbered, p unsafe.Pointer) int {
	h := uint64(uintptr(p)) * 0x9e3779b97f4a7c15
	i := int(h>>20) & (len(tab) - 1)
	for tab[i].p != nil && tab[i].p != p {
		i = (i + 1) & (len(tab) - 1)
	}
	return i
}

//go:norace
func number(p unsafe.Pointer) {
	if p == nil {
		return
	}
	n := &numbers
	if 2*(n.used+1) > len(n.tab) {
		size := 2 * len(n.tab)
		if size == 0 {
			size = 256
		}
		tab := make([]numbered, size)
		for i := 0; i < len(n.tab); i++ {
			if n.tab[i].p != nil {
				tab[slot(tab, n.tab[i].p)] = n.tab[i]
			}
		}
		n.tab = tab
	}
	i := slot(n.tab, p)
	if n.tab[i].p == nil {
		n.used++
		n.tab[i] = numbered{p, n.used}
	}
}

//go:norace
func numberOf(p unsafe.Pointer) int {
	if len(numbers.tab) == 0 {
		return 0
	}
	return numbers.tab[slot(numbers.tab, p)].id
}

// Forget forgets all numbers, at the beginning of a run.
func Forget() { numbers.tab, numbers.used = nil, 0 }

// pointer gives the pointer that a key is or holds.
//
//go:norace
func pointer(k interface{}) unsafe.Pointer { return (*eface)(unsafe.Pointer(&k)).data }

// Seen numbers the object k if it has no number yet.
func Seen[K any](k K) K {
	number(pointer(k))
	return k
}

// Pair is an entry of a map at the beginning of an iteration.
type Pair[K comparable, V any] struct {
	m  map[K]V
	K  K
	id int
}

// Live tells whether the entry is still in the map.
func (p Pair[K, V]) Live() bool { _, ok := p.m[p.K]; return ok }

// V is its value.
func (p Pair[K, V]) V() V { return p.m[p.K] }

// Pairs gives the entries of a map.
func Pairs[M ~map[K]V, K comparable, V any](m M) []Pair[K, V] {
	r := make([]Pair[K, V], 0, len(m))
	for k := range m {
		r = append(r, Pair[K, V]{m, k, numberOf(pointer(k))})
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].id < r[j].id })
	if Active() {
		for i := len(r) - 1; i > 0; i-- {
			j := int(runtime.VerifMapRand() % uint64(i+1))
			r[i], r[j] = r[j], r[i]
		}
	}
	return r
}

// Var gives package-level variables their initial values. Those of a package
// are done in the order of their numbers.
type Var struct {
	Order int
	Set   func()
}

type resetter struct {
	group string
	vars  []Var
	inits func()
	save  func() func()
}

var (
	resetters    []resetter
	groups       []string // packages, each one after those that it imports
	irreversible bool     // a package cannot be initialized again
)

// NewProcess does what else a new process has anew.
var NewProcess = func() {}

// OnReset registers what gives the package-level variables of a file their
// initial values, its init functions, and what saves those variables.
func OnReset(group string, vars []Var, inits func(), save func() func()) {
	resetters = append(resetters, resetter{group, vars, inits, save})
	for _, g := range groups {
		if g == group {
			return
		}
	}
	groups = append(groups, group)
}

// Reset brings the package-level variables of a package (the name of a
// program, or else its directory) back to their initial state.
func Reset(group string) {
	var vars []Var
	for _, r := range resetters {
		if r.group == group {
			vars = append(vars, r.vars...)
		}
	}
	sort.SliceStable(vars, func(i, j int) bool { return vars[i].Order < vars[j].Order })
	for _, v := range vars {
		v.Set()
	}
	for _, r := range resetters {
		if r.group == group {
			r.inits()
		}
	}
}

// ResetAll brings all the packages to the state they have in a new process.
// If one of them cannot be initialized again, all are left alone from then on.
func ResetAll() {
	if irreversible {
		return
	}
	back := save()
	defer func() {
		if recover() != nil {
			println("a package cannot be initialized again: package-level variables will not be reset")
			irreversible = true
			back()
		}
	}()
	NewProcess()
	for _, g := range groups {
		Reset(g)
	}
}

func save() func() {
	var back []func()
	for _, r := range resetters {
		back = append(back, r.save())
	}
	return func() {
		for _, f := range back {
			f()
		}
	}
}

// Pristine brings all the packages to the state they have in a new process,
// and returns what brings back the state they are in now.
func Pristine() func() {
	if irreversible {
		return func() {}
	}
	back := save()
	ResetAll()
	return back
}
