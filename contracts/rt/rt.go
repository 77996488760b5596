package rt

import "unsafe"

// Specification vocabulary. The verifier interprets these functions
// symbolically; the bodies below are their executable reading, used when a
// failed obligation is replayed against the real code.

type vcSkipT struct{}
type vcFailT struct{ name string }

func vcAll(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func vcExists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

func vcImplies(a, b bool) bool { return !a || b }
func vcIff(a, b bool) bool     { return a == b }

// vcDiv and vcMod: quotient and remainder of a positive divisor, rounding down.
func vcDiv(a, b int) int {
	if b <= 0 {
		return 0
	}
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}
func vcMod(a, b int) int {
	if b <= 0 {
		return 0
	}
	return a - b*vcDiv(a, b)
}

func vcIte[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

func vcAssume(c bool) {
	if !c {
		panic(vcSkipT{})
	}
}

func vcAssert(name string, c bool) {
	if !c {
		panic(vcFailT{name})
	}
}

func vcNilErr(e error) bool { return e == nil }

// vcSameArr: the two slices share one backing array.
func vcSameArr[T any](a, b []T) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return cap(a) == 0 && cap(b) == 0
	}
	return unsafe.Pointer(&a[:cap(a)][cap(a)-1]) == unsafe.Pointer(&b[:cap(b)][cap(b)-1])
}

// vcFreshArr: the backing array was allocated since entry (only decided
// statically; holds trivially when run).
func vcFreshArr[T any](a []T) bool { return true }

// vcOffset: how far into the array of b slice a starts, relative to b.
func vcOffset[T any](a, b []T) int {
	if cap(a) == 0 {
		return cap(b)
	}
	var z T
	pa := uintptr(unsafe.Pointer(&a[:cap(a)][cap(a)-1]))
	pb := uintptr(unsafe.Pointer(&b[:cap(b)][cap(b)-1]))
	_ = z
	_ = pa
	_ = pb
	return cap(b) - cap(a)
}

var _ = vcAll
var _ = vcExists
var _ = vcImplies
var _ = vcIff
var _ = vcAssume
var _ = vcAssert
var _ = vcNilErr
var _ = vcFreshArr[int]

// ---- random inputs for replaying contracts against the running code

type vcRand struct {
	s    uint64
	ints []int64
	strs []string
	size int
}

func (r *vcRand) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns 0 <= n < k.
func (r *vcRand) Intn(k int) int {
	if k <= 0 {
		return 0
	}
	return int(r.next() % uint64(k))
}

func (r *vcRand) Bool() bool { return r.next()&1 == 0 }

// Range returns lo <= n <= hi.
func (r *vcRand) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// Int64 favours small numbers, powers of two, source constants and their
// neighbours.
func (r *vcRand) Int64() int64 {
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		return int64(r.Intn(12))
	case 4:
		return int64(r.Intn(300)) - 20
	case 5, 6, 7:
		if len(r.ints) > 0 {
			return r.ints[r.Intn(len(r.ints))] + int64(r.Intn(3)) - 1
		}
		return int64(r.Intn(70000))
	case 8:
		n := int64(1) << uint(r.Intn(63))
		n += int64(r.Intn(3)) - 1
		if r.Intn(3) == 0 {
			n = -n
		}
		return n
	}
	return int64(r.next())
}

func (r *vcRand) Rune() rune {
	switch r.Intn(8) {
	case 0:
		return rune(r.Intn(0x20))
	case 1:
		return rune(0x20 + r.Intn(0x60))
	case 2:
		return rune(0x80 + r.Intn(0x20))
	case 3:
		return rune(0xEF00 + r.Intn(0x100))
	case 4:
		return rune(r.Intn(0x3000))
	case 5:
		return rune(r.Intn(0x110000))
	case 6:
		return rune(r.Int64())
	}
	return rune("abcABHJKmhl019;?[]<M \x7f"[r.Intn(22)])
}

// Text makes byte strings biased towards control sequences.
func (r *vcRand) Text() []byte {
	var p []byte
	n := r.Intn(6)
	lim := 60
	if r.Intn(24) == 0 {
		n, lim = 6+r.Intn(40), 60+r.Intn(400)
	}
	for i := 0; i < n; i++ {
		switch r.Intn(12) {
		case 0, 1:
			p = append(p, "\x1b["...)
			for k := r.Intn(4); k > 0; k-- {
				p = append(p, "0123456789;:?<=> $"[r.Intn(18)])
			}
			p = append(p, byte(0x40+r.Intn(0x3f)))
		case 2:
			p = append(p, 0x1b, byte(0x20+r.Intn(0x5f)))
		case 3:
			for k := r.Intn(5); k > 0; k-- {
				p = append(p, byte('0'+r.Intn(10)))
			}
		case 4:
			p = append(p, byte(r.Intn(256)))
		case 5:
			for k := 1 + r.Intn(4); k > 0; k-- {
				p = append(p, byte(0x20+r.Intn(0x5f)))
			}
		case 6:
			p = append(p, string(r.Rune())...)
		case 7:
			if len(r.strs) > 0 {
				p = append(p, r.strs[r.Intn(len(r.strs))]...)
			}
		case 8:
			p = append(p, byte(r.Intn(0x20)))
		case 9:
			p = append(p, 0xc2, byte(0x80+r.Intn(0x20)))
		case 10:
			p = append(p, ";:?<\x1b[]P\\mMhlAHJKX^_"[r.Intn(20)])
		case 11:
			if len(p) > 0 && r.Bool() {
				p = p[:len(p)-1]
			} else {
				p = append(p, "\x1b[38;5;"[:r.Intn(8)]...)
			}
		}
	}
	if len(p) > lim {
		p = p[:lim]
	}
	return p
}
