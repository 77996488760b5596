package ansi

import "image"

// ---- numbers

// value of the digits p[lo:hi]
//
//vc:spec
func vcVal(p []byte, lo, hi int) int {
	if hi <= lo {
		return 0
	}
	return vcVal(p, lo, hi-1)*10 + int(p[hi-1]-'0')
}

func vcDigit(c byte) bool { return '0' <= c && c <= '9' }

// where the digits of a number start: after any separator and sign
func vcNumStart(p []byte) int {
	s := 0
	if len(p) > 0 && p[0] == ';' {
		s = 1
	}
	if len(p) > s && (p[s] == '-' || p[s] == '+') {
		return s + 1
	}
	return s
}

func vcNumNeg(p []byte) bool {
	return len(p) > 0 && (p[0] == '-' || len(p) > 1 && p[0] == ';' && p[1] == '-')
}

const vcNumMax = 1<<32 - 1

// the same read from the front: -1 when out of range
//
//vc:spec
func vcFwd(p []byte, i, acc int) int {
	if acc > vcNumMax {
		return -1
	}
	if i < 0 || i >= len(p) || !vcDigit(p[i]) {
		return acc
	}
	return vcFwd(p, i+1, acc*10+int(p[i]-'0'))
}

// end of the digits that start at p[i]
//
//vc:spec
func vcDigEnd(p []byte, i int) int {
	if i < 0 || i >= len(p) || !vcDigit(p[i]) {
		return i
	}
	return vcDigEnd(p, i+1)
}

// vcNumOK: p starts with a number in range; vcNumV is its value and vcNumN its
// length.
func vcNumOK(p []byte) bool {
	s := vcNumStart(p)
	return s < len(p) && vcFwd(p, s, 0) >= 0
}
func vcNumV(p []byte) int {
	v := vcFwd(p, vcNumStart(p), 0)
	return vcIte(vcNumNeg(p), -v, v)
}
func vcNumN(p []byte) int { return vcDigEnd(p, vcNumStart(p)) }

//vc:contract DecodeNumber props=C07 mode=int modular
//vc:ensures DecodeNumber
func vcDecodeNumberFwd(p []byte, ret0, ret1 int, ret2 error) bool {
	if vcNumOK(p) {
		return ret2 == nil && ret0 == vcNumV(p) && ret1 == vcNumN(p)
	}
	return ret2 != nil
}

//vc:ensures DecodeNumber
func vcDecodeNumberPost(p []byte, ret0, ret1 int, ret2 error) bool {
	s := vcNumStart(p)
	if s >= len(p) {
		return ret0 == 0 && ret1 == 0 && ret2 == errSyntax
	}
	if !(s <= ret1 && ret1 <= len(p)) || !vcAll(s, ret1, func(i int) bool { return vcDigit(p[i]) }) {
		return false
	}
	v := vcVal(p, s, ret1)
	if ret2 == nil {
		return v <= vcNumMax && ret0 == vcIte(vcNumNeg(p), -v, v) && (ret1 == len(p) || !vcDigit(p[ret1]))
	}
	return ret2 == errRange && v > vcNumMax && ret0 == vcIte(vcNumNeg(p), -vcNumMax, vcNumMax)
}

//vc:invariant DecodeNumber loop0
func vcDecodeNumberInv(p, old_p []byte, n int, un uint64, neg bool) bool {
	s := len(old_p) - len(p)
	return vcFwd(old_p, s, 0) == vcFwd(old_p, n, int(un)) && vcDigEnd(old_p, s) == vcDigEnd(old_p, n) &&
		 s == vcNumStart(old_p) && s <= n && n <= len(old_p) &&
		vcAll(s, n, func(i int) bool { return vcDigit(old_p[i]) }) &&
		int(un) == vcVal(old_p, s, n) && un <= vcNumMax
}

//vc:contract DecodePoint props=C07 mode=int
//vc:ensures DecodePoint
func vcDecodePointPost(a []byte, ret0 Point, ret1 int, ret2 error) bool {
	if !vcNumOK(a) {
		return ret2 != nil && ret1 >= 0 && ret1 <= len(a)
	}
	n := vcNumN(a)
	if n < 0 || n > len(a) || ret0.Y != vcNumV(a) {
		return false
	}
	b := a[n:]
	if !vcNumOK(b) {
		return ret2 != nil && ret1 >= 0 && ret1 <= len(a)
	}
	return ret2 == nil && ret0.X == vcNumV(b) && ret1 == n+vcNumN(b) && ret1 <= len(a)
}

//vc:contract DecodeMode props=C07 mode=int
//vc:ensures DecodeMode
func vcDecodeModePost(private bool, a []byte, ret0 Mode, ret1 int, ret2 error) bool {
	if ret1 < 0 || ret1 > len(a) {
		return false
	}
	if !vcNumOK(a) || vcNumN(a) == 0 {
		return ret2 != nil && ret0 == 0
	}
	v := vcNumV(a)
	return ret2 == nil && ret1 > 0 && ret1 == vcNumN(a) &&
		vcImplies(v >= 0 && !private, ret0 == Mode(v)) && vcImplies(v >= 0 && private, ret0 == Mode(v)+ModePrivate)
}

//vc:contract DecodeCursorCardinal props=C07 mode=int
//vc:ensures DecodeCursorCardinal
func vcDecodeCardinalPost(id Escape, a []byte, ret0 image.Point, ret1 bool) bool {
	k := 1
	if vcNumOK(a) {
		k = vcNumV(a)
	}
	switch id {
	case 0xEF80 + 'A':
		return ret1 && ret0.X == 0 && ret0.Y == -k
	case 0xEF80 + 'B':
		return ret1 && ret0.X == 0 && ret0.Y == k
	case 0xEF80 + 'C':
		return ret1 && ret0.X == k && ret0.Y == 0
	case 0xEF80 + 'D':
		return ret1 && ret0.X == -k && ret0.Y == 0
	}
	return !ret1 && ret0.X == 0 && ret0.Y == 0
}
