package ansi

import "unicode/utf8"

// ---- runes

//vc:contract DecodeRune props=C05 mode=int
//vc:ensures DecodeRune
func vcDecodeRunePost(p []byte, ret0 rune, ret1 int) bool {
	if len(p) > 1 && p[0] == 0x1b && 0x40 <= p[1] && p[1] <= 0x5f {
		return ret0 == rune(p[1])+0x40 && ret1 == 2
	}
	r, m := utf8.DecodeRune(p)
	return ret0 == r && ret1 == m && 0 <= m && m <= len(p) && (m > 0 || len(p) == 0)
}

//vc:ensures DecodeRune
func vcDecodeRuneFrame(p, old_p []byte) bool { return vcBytesKept(p, old_p, 0) }

// every byte from i on is as it was
func vcBytesKept(p, old_p []byte, i int) bool {
	return vcAll(i, len(p), func(k int) bool { return p[k] == old_p[k] })
}

// ---- control sequences

func vcIsFinal(c byte) bool { return 0x40 <= c && c <= 0x7e }
func vcIsArg(c byte) bool   { return 0x20 <= c && c <= 0x3f }

// The sequence ends at the first final byte; its argument starts at the first
// argument byte. Without a final byte there is no sequence yet.
//
//vc:contract decodeCSI props=C06 mode=int modular
//vc:ensures decodeCSI
func vcDecodeCSINone(p []byte, ret0 Escape, ret1 []byte, ret2 int) bool {
	return ret0 != 0 || len(ret1) == 0 && ret2 == 0 && vcAll(0, len(p), func(i int) bool { return !vcIsFinal(p[i]) })
}

//vc:ensures decodeCSI
func vcDecodeCSISome(p []byte, ret0 Escape, ret1 []byte, ret2 int) bool {
	return ret0 == 0 || 1 <= ret2 && ret2 <= len(p) && vcIsFinal(p[ret2-1]) && ret0 == Escape(0xEF80)+Escape(p[ret2-1]) &&
		vcAll(0, ret2-1, func(i int) bool { return !vcIsFinal(p[i]) })
}

//vc:ensures decodeCSI
func vcDecodeCSIArg(p []byte, ret0 Escape, ret1 []byte, ret2 int) bool {
	if ret0 == 0 {
		return true
	}
	s := ret2 - 1 - len(ret1)
	return s >= 0 && (len(ret1) == 0 || vcIsArg(p[s])) &&
		vcAll(0, s, func(i int) bool { return !vcIsArg(p[i]) }) &&
		vcAll(0, len(ret1), func(i int) bool { return ret1[i] == p[s+i] })
}

//vc:invariant decodeCSI loop0
func vcDecodeCSIInv0(p []byte, ni, ai int) bool {
	return 0 <= ni && ni <= len(p) && ai >= -1 && ai < ni &&
		vcAll(0, ni, func(i int) bool { return !vcIsFinal(p[i]) }) &&
		(ai < 0 || vcIsArg(p[ai])) &&
		vcAll(0, vcIte(ai < 0, ni, ai), func(i int) bool { return !vcIsArg(p[i]) })
}

//vc:invariant decodeCSI loop1
func vcDecodeCSIInv1(p []byte, ni, ai int) bool {
	return 1 <= ni && ni <= len(p) && ai >= 0 && ai < ni &&
		vcAll(0, ni, func(i int) bool { return !vcIsFinal(p[i]) }) && vcIsArg(p[ai]) &&
		vcAll(0, ai, func(i int) bool { return !vcIsArg(p[i]) })
}

// ---- strings

// where the string that starts at p[i] ends, -1 when it does not
//
//vc:spec
func vcStrEnd(p []byte, i int) int {
	if i < 0 || i > len(p) {
		return -1
	}
	r, m := DecodeRune(p[i:])
	if r == utf8.RuneError && m < 3 {
		return -1
	}
	if r == 0x9C {
		return i
	}
	return vcStrEnd(p, i+m)
}

//vc:contract decodeString props=C06 mode=int modular
//vc:ensures decodeString
func vcDecodeStringPost(p []byte, ret0 []byte, ret1 int) bool {
	e := vcStrEnd(p, 0)
	if e < 0 {
		return len(ret0) == 0 && ret1 == 0
	}
	return len(ret0) == e && ret1 == e+2 && ret1 <= len(p) &&
		vcAll(0, e, func(i int) bool { return ret0[i] == p[i] })
}

//vc:invariant decodeString loop0
func vcDecodeStringInv(p []byte, n int, r rune, m int) bool {
	rr, mm := DecodeRune(p[n:])
	return 0 <= n && n <= len(p) && r == rr && m == mm && vcStrEnd(p, n) == vcStrEnd(p, 0)
}

//vc:invariant decodeString loop0
func vcDecodeStringStep(p []byte, n int, r rune, m int) bool {
	return 0 <= m && m <= len(p)-n && (m > 0 || r == utf8.RuneError && m < 3) && (r != 0x9C || m == 2)
}

//vc:decreases decodeString loop0
func vcDecodeStringDec(p []byte, n int) int { return len(p) - n }

// ---- escape sequences

func vcIsInter(c byte) bool  { return 0x20 <= c && c <= 0x2f }
func vcIsEscEnd(c byte) bool { return 0x30 <= c && c <= 0x7e }

// first byte at or after i that is not an intermediate
//
//vc:spec
func vcInterEnd(p []byte, i int) int {
	if i < 0 || i >= len(p) || !vcIsInter(p[i]) {
		return i
	}
	return vcInterEnd(p, i+1)
}

// how far an escape sequence is looked at: up to and including the rune that
// ends or interrupts it
//
//vc:spec
func vcEscStop(p []byte, i int) int {
	if i < 0 || i > len(p) {
		return i
	}
	r, m := utf8.DecodeRune(p[i:])
	if r == utf8.RuneError {
		return i
	}
	if c := r & 0x7f; r <= 0xff && (0x20 <= c && c <= 0x2f || c == 0x7f) {
		return vcEscStop(p, i+m)
	}
	return i + m
}

//vc:contract decodeESC props=C05,C06 mode=int modular modifies=p[]
//vc:requires decodeESC
func vcDecodeESCPre(p []byte) bool { return len(p) > 0 && p[0] == 0x1b }

// Nothing past the rune that ended or interrupted the sequence is consumed or
// changed; a complete sequence consumes all up to there.
//
//vc:ensures decodeESC
func vcDecodeESCReach(p, old_p []byte, ret0 Escape, ret1 []byte, ret2 int) bool {
	k := vcEscStop(old_p, 1)
	return 0 <= ret2 && ret2 <= k && k <= len(p) && (ret0 == 0 || ret2 == k && ret2 >= 2) &&
		(ret0 != 0 || len(ret1) == 0) && vcBytesKept(p, old_p, k)
}

// ESC, intermediates, and a final byte name the sequence by the final byte;
// with exactly one intermediate, by that, the final byte being its argument.
//
//vc:ensures decodeESC
func vcDecodeESCSome(p, old_p []byte, ret0 Escape, ret1 []byte, ret2 int) bool {
	j := vcInterEnd(old_p, 1)
	if j < 1 || j >= len(old_p) || !vcIsEscEnd(old_p[j]) {
		return true
	}
	if ret2 != j+1 {
		return false
	}
	if j == 2 {
		return ret0 == Escape(0xEF00)+Escape(old_p[1]) && len(ret1) == 1 && ret1[0] == old_p[2]
	}
	return ret0 == Escape(0xEF00)+Escape(old_p[j]) && len(ret1) == j-1 &&
		vcAll(0, j-1, func(i int) bool { return ret1[i] == old_p[1+i] })
}

// An unfinished sequence is left alone.
//
//vc:ensures decodeESC
func vcDecodeESCNone(p, old_p []byte, ret0 Escape, ret2 int) bool {
	return vcInterEnd(old_p, 1) != len(old_p) || ret0 == 0 && ret2 == 0 && vcBytesKept(p, old_p, 0)
}

// A control inside a sequence comes out before it, except for CANcel, which
// drops the sequence.
//
//vc:ensures decodeESC
func vcDecodeESCControl(p, old_p []byte, ret0 Escape, ret2 int) bool {
	j := vcInterEnd(old_p, 1)
	if j < 1 || j >= len(old_p) || old_p[j] > 0x1f {
		return true
	}
	if old_p[j] == 0x18 {
		return ret0 == 0 && ret2 == j+1
	}
	return ret0 == 0 && ret2 == 0 && p[0] == old_p[j] &&
		vcAll(0, j, func(i int) bool { return p[1+i] == old_p[i] })
}

//vc:invariant decodeESC loop0
func vcDecodeESCInv(p, old_p []byte, n, ei, ai, ni int) bool {
	return n == ni && 0 <= ei && ei < ni && ni <= len(p) && (ai == 0 || ei < ai && ai < ni) && p[ei] == 0x1b &&
		vcBytesKept(p, old_p, ni) && vcEscStop(old_p, ni) == vcEscStop(old_p, 1)
}

// while nothing but plain intermediates was met, nothing has moved
//
//vc:invariant decodeESC loop0
func vcDecodeESCClean(p, old_p []byte, n, ei, ai, ni int) bool {
	j := vcInterEnd(old_p, 1)
	return ei == 0 && ai == vcIte(ni > 1, 1, 0) && j == vcInterEnd(old_p, ni) && vcBytesKept(p, old_p, 0) &&
		vcAll(1, ni, func(i int) bool { return vcIsInter(old_p[i]) }) ||
		1 <= j && j < ni && !vcIsEscEnd(old_p[j]) && old_p[j] > 0x1f
}

//vc:decreases decodeESC loop0
func vcDecodeESCDec(p []byte, ni int) int { return len(p) - ni }

// ---- any escape sequence

// the sequence introduced by ESC b, or by the control rune b stands for
func vcIntro(p []byte, b byte) bool {
	return len(p) > 1 && (p[0] == 0x1b && p[1] == b || p[0] == 0xc2 && p[1] == b+0x40)
}

func vcStrIntro(p []byte) bool {
	return vcIntro(p, 'P') || vcIntro(p, ']') || vcIntro(p, '^') || vcIntro(p, '_')
}

// ESC followed by anything but the name of a control rune
func vcPlainESC(p []byte) bool {
	return len(p) > 0 && p[0] == 0x1b && !(len(p) > 1 && 0x40 <= p[1] && p[1] <= 0x5f)
}

//vc:contract DecodeEscape props=C05,C06 mode=int modular modifies=p[]

// No more is consumed than there is, a recognised sequence has at least two
// bytes, and what follows it is left as it was.
//
//vc:ensures DecodeEscape
func vcDecodeEscapeReach(p, old_p []byte, ret0 Escape, ret1 []byte, ret2 int) bool {
	if ret0 == 0 {
		return 0 <= ret2 && ret2 <= len(p) && len(ret1) == 0
	}
	return 2 <= ret2 && ret2 <= len(p) && vcBytesKept(p, old_p, ret2)
}

// Anything that does not start an escape sequence is left alone, and so is an
// unfinished one, but for writing its introducer as a single rune.
//
//vc:ensures DecodeEscape
func vcDecodeEscapeNone(p, old_p []byte, ret0 Escape, ret2 int) bool {
	if ret0 != 0 || vcPlainESC(old_p) {
		return true
	}
	if len(old_p) > 0 && old_p[0] == 0x1b {
		return ret2 == 0 && p[0] == 0xc2 && p[1] == old_p[1]+0x40 && vcBytesKept(p, old_p, 2)
	}
	return ret2 == 0 && vcBytesKept(p, old_p, 0)
}

//vc:ensures DecodeEscape
func vcDecodeEscapeOnly(old_p []byte, ret0 Escape) bool {
	return ret0 == 0 || vcPlainESC(old_p) || vcIntro(old_p, '[') || vcStrIntro(old_p)
}

//vc:ensures DecodeEscape
func vcDecodeEscapeCSI(p, old_p []byte, ret0 Escape, ret1 []byte, ret2 int) bool {
	if !vcIntro(old_p, '[') {
		return true
	}
	if ret0 == 0 {
		return vcAll(2, len(p), func(i int) bool { return !vcIsFinal(old_p[i]) })
	}
	s := ret2 - 1 - len(ret1)
	return ret2 >= 3 && vcIsFinal(old_p[ret2-1]) && ret0 == Escape(0xEF80)+Escape(old_p[ret2-1]) &&
		vcAll(2, ret2-1, func(i int) bool { return !vcIsFinal(old_p[i]) }) &&
		s >= 2 && (len(ret1) == 0 || vcIsArg(old_p[s])) &&
		vcAll(2, s, func(i int) bool { return !vcIsArg(old_p[i]) }) &&
		vcAll(0, len(ret1), func(i int) bool { return ret1[i] == old_p[s+i] })
}

//vc:ensures DecodeEscape
func vcDecodeEscapeString(p, old_p []byte, ret0 Escape, ret1 []byte, ret2 int) bool {
	if !vcStrIntro(old_p) {
		return true
	}
	e := vcStrEnd(old_p[2:], 0)
	if e < 0 {
		return ret0 == 0
	}
	return ret0 == Escape(0x80)+Escape(old_p[1]&0x1f) && len(ret1) == e && ret2 == e+4 &&
		vcAll(0, e, func(i int) bool { return ret1[i] == old_p[2+i] })
}

//vc:ensures DecodeEscape
func vcDecodeEscapeESC(p, old_p []byte, ret0 Escape, ret1 []byte, ret2 int) bool {
	return !vcPlainESC(old_p) || vcDecodeESCReach(p, old_p, ret0, ret1, ret2) && vcDecodeESCSome(p, old_p, ret0, ret1, ret2)
}

//vc:ensures DecodeEscape
func vcDecodeEscapeHold(p, old_p []byte, ret0 Escape, ret2 int) bool {
	return !vcPlainESC(old_p) || vcDecodeESCNone(p, old_p, ret0, ret2) && vcDecodeESCControl(p, old_p, ret0, ret2)
}

// ---- what is written is read back, whatever follows

func vcAllIn(p []byte, lo, hi byte) bool {
	return vcAll(0, len(p), func(i int) bool { return lo <= p[i] && p[i] <= hi })
}

func vcReadCSI(p []byte, n int) (Escape, []byte, int) { return DecodeEscape(p) }

// What starts with ESC [, arguments and a final byte is read up to there.
//
//vc:contract vcReadCSI props=C06 mode=int modular modifies=p[]
//vc:requires vcReadCSI
func vcReadCSIPre(p []byte, n int) bool {
	return 3 <= n && n <= len(p) && p[0] == 0x1b && p[1] == '[' && vcIsFinal(p[n-1]) &&
		vcAll(2, n-1, func(i int) bool { return vcIsArg(p[i]) })
}

//vc:ensures vcReadCSI
func vcReadCSIName(p, old_p []byte, n int, ret0 Escape, ret2 int) bool {
	return ret0 == Escape(0xEF80)+Escape(old_p[n-1]) && ret2 == n
}

//vc:ensures vcReadCSI
func vcReadCSIArg(p, old_p []byte, n int, ret1 []byte) bool {
	return len(ret1) == n-3 && vcAll(0, n-3, func(i int) bool { return ret1[i] == old_p[2+i] })
}

//vc:lemma props=C06 mode=int
func vcLemmaCSIReadBack(id Escape, arg, rest []byte) {
	vcAssume(id >= 0xEFC0 && id <= 0xEFFE && vcAllIn(arg, 0x20, 0x3f))
	p := append(id.AppendWith(nil, arg...), rest...)
	n := 3 + len(arg)
	vcAssert("introduced", len(p) == n+len(rest) && p[0] == 0x1b && p[1] == '[')
	vcAssert("final byte", p[n-1] == byte(id-0xEF80))
	vcAssert("arguments", vcAll(0, len(arg), func(i int) bool { return p[2+i] == arg[i] }))
	vcAssert("no earlier final byte", vcAll(2, n-1, func(i int) bool { return vcIsArg(p[i]) }))
	e, a, m := vcReadCSI(p, n)
	vcAssert("same sequence", e == id && m == n && len(a) == len(arg))
	vcAssert("same argument", vcAll(0, len(arg), func(i int) bool { return a[i] == arg[i] }))
}

func vcReadString(p []byte, n int) (Escape, []byte, int) {
	vcAssert("ends there", vcStrWalk(p[2:], n-4) == n-4)
	return DecodeEscape(p)
}

func vcStrCtl(id Escape) bool { return id == 0x90 || id >= 0x9d && id <= 0x9f }

//vc:contract vcReadString props=C06 mode=int modular modifies=p[]
//vc:requires vcReadString
func vcReadStringPre(p []byte, n int) bool {
	return 4 <= n && n <= len(p) && p[0] == 0x1b && vcStrCtl(Escape(p[1])+0x40) &&
		p[n-2] == 0x1b && p[n-1] == '\\' && vcAll(2, n-2, func(i int) bool { return 0x20 <= p[i] && p[i] <= 0x7e })
}

//vc:ensures vcReadString
func vcReadStringPost(p, old_p []byte, n int, ret0 Escape, ret1 []byte, ret2 int) bool {
	return ret0 == Escape(old_p[1])+0x40 && ret2 == n && len(ret1) == n-4 &&
		vcAll(0, n-4, func(i int) bool { return ret1[i] == old_p[2+i] })
}

// printable ASCII does not end a string
func vcStrWalk(p []byte, n int) int {
	i := 0
	for i < n {
		i++
	}
	return vcStrEnd(p, 0)
}

//vc:contract vcStrWalk props=C06 mode=int modular
//vc:requires vcStrWalk
func vcStrWalkPre(p []byte, n int) bool {
	return 0 <= n && n+2 <= len(p) && p[n] == 0x1b && p[n+1] == '\\' &&
		vcAll(0, n, func(i int) bool { return 0x20 <= p[i] && p[i] <= 0x7e })
}

//vc:ensures vcStrWalk
func vcStrWalkPost(p []byte, n int, ret int) bool { return ret == n && vcStrEnd(p, 0) == n }

//vc:invariant vcStrWalk loop0
func vcStrWalkInv(p []byte, n, i int) bool {
	return 0 <= i && i <= n && vcStrEnd(p, 0) == vcStrEnd(p, i)
}

//vc:decreases vcStrWalk loop0
func vcStrWalkDec(n, i int) int { return n - i }

//vc:lemma props=C06 mode=int
func vcLemmaStringReadBack(id Escape, arg, rest []byte) {
	vcAssume(vcStrCtl(id) && len(arg) > 0 && vcAllIn(arg, 0x20, 0x7e))
	p := append(id.AppendWith(nil, arg...), rest...)
	n := 4 + len(arg)
	vcAssert("introduced", len(p) == n+len(rest) && p[0] == 0x1b && p[1] == byte(id-0x40))
	vcAssert("terminated", p[n-2] == 0x1b && p[n-1] == '\\')
	vcAssert("contents", vcAll(0, len(arg), func(i int) bool { return p[2+i] == arg[i] }))
	vcAssert("printable", vcAll(2, n-2, func(i int) bool { return 0x20 <= p[i] && p[i] <= 0x7e }))
	e, a, m := vcReadString(p, n)
	vcAssert("same sequence", e == id && m == n && len(a) == len(arg))
	vcAssert("same argument", vcAll(0, len(arg), func(i int) bool { return a[i] == arg[i] }))
}

// Escape sequences that are not the name of a control rune read back too, with
// any intermediates, and so does a character set selection.
func vcReadESC(p []byte, n int) (Escape, []byte, int) {
	i := 1
	for i < n-1 {
		i++
	}
	return DecodeEscape(p)
}

//vc:contract vcReadESC props=C06 mode=int modular modifies=p[]
//vc:requires vcReadESC
func vcReadESCPre(p []byte, n int) bool {
	return 2 <= n && n <= len(p) && p[0] == 0x1b && vcIsEscEnd(p[n-1]) && (n > 2 || p[1] < 0x40 || p[1] > 0x5f) &&
		vcAll(1, n-1, func(i int) bool { return vcIsInter(p[i]) })
}

//vc:invariant vcReadESC loop0
func vcReadESCInv(p []byte, n, i int) bool {
	return 1 <= i && i <= n-1 && vcInterEnd(p, 1) == vcInterEnd(p, i)
}

//vc:decreases vcReadESC loop0
func vcReadESCDec(n, i int) int { return n - i }

//vc:ensures vcReadESC
func vcReadESCPost(p, old_p []byte, n int, ret0 Escape, ret1 []byte, ret2 int) bool {
	if n == 3 {
		return ret0 == Escape(0xEF00)+Escape(old_p[1]) && ret2 == n && len(ret1) == 1 && ret1[0] == old_p[2]
	}
	return ret0 == Escape(0xEF00)+Escape(old_p[n-1]) && ret2 == n && len(ret1) == n-2 &&
		vcAll(0, n-2, func(i int) bool { return ret1[i] == old_p[1+i] })
}

//vc:lemma props=C06 mode=int
func vcLemmaESCReadBack(id Escape, arg, rest []byte) {
	vcAssume(id >= 0xEF30 && id <= 0xEF7E && len(arg) != 1 && vcAllIn(arg, 0x20, 0x2f))
	vcAssume(len(arg) > 0 || id < 0xEF40 || id > 0xEF5F)
	p := append(id.AppendWith(nil, arg...), rest...)
	n := 2 + len(arg)
	vcAssert("introduced", len(p) == n+len(rest) && p[0] == 0x1b && p[n-1] == byte(id-0xEF00))
	vcAssert("contents", vcAll(0, len(arg), func(i int) bool { return p[1+i] == arg[i] }))
	vcAssert("intermediates", vcAll(1, n-1, func(i int) bool { return vcIsInter(p[i]) }))
	e, a, m := vcReadESC(p, n)
	vcAssert("same sequence", e == id && m == n && len(a) == len(arg))
	vcAssert("same argument", vcAll(0, len(arg), func(i int) bool { return a[i] == arg[i] }))
}

//vc:lemma props=C06 mode=int
func vcLemmaCharsetReadBack(id Escape, b byte, rest []byte) {
	vcAssume(id >= 0xEF20 && id <= 0xEF2F && vcIsEscEnd(b))
	p := append(id.AppendWith(nil, b), rest...)
	vcAssert("bytes", len(p) == 3+len(rest) && p[0] == 0x1b && p[1] == byte(id-0xEF00) && p[2] == b)
	e, a, m := vcReadESC(p, 3)
	vcAssert("same sequence", e == id && m == 3 && len(a) == 1 && a[0] == b)
}

//vc:case DecodeEscape
func vcDecodeCasePlain(p []byte) bool { return vcPlainESC(p) }

//vc:case DecodeEscape
func vcDecodeCaseCSI(p []byte) bool { return vcIntro(p, '[') }

//vc:case DecodeEscape
func vcDecodeCaseStr(p []byte) bool { return vcStrIntro(p) }

//vc:case DecodeEscape
func vcDecodeCaseC1(p []byte) bool { return len(p) > 1 && p[0] == 0x1b }

// ---- attributes

// the byte value the digits from p[i] give, up to a separator or the end; -1
// when there is none
//
//vc:spec
func vcU8(p []byte, i, acc int) int {
	if i < 0 || acc > 255 || i < len(p) && p[i] != ';' && !vcDigit(p[i]) {
		return -1
	}
	if i >= len(p) || p[i] == ';' {
		return acc
	}
	return vcU8(p, i+1, acc*10+int(p[i]-'0'))
}

func vcU8OK(p []byte) bool { return len(p) > 0 && vcU8(p, 0, 0) >= 0 }
func vcU8V(p []byte) uint8 { return uint8(vcU8(p, 0, 0)) }
func vcU8N(p []byte) int {
	e := vcDigEnd(p, 0)
	return vcIte(e < len(p), e+1, e)
}

//vc:contract decodeUint8 props=C06 mode=int modular
//vc:ensures decodeUint8
func vcDecodeUint8Post(a []byte, ret0 uint8, ret1 int, ret2 error) bool {
	if ret1 < 0 || ret1 > len(a) || (ret2 == nil) != vcU8OK(a) {
		return false
	}
	if ret2 != nil {
		return ret0 == 0
	}
	return ret1 == vcU8N(a) && int(ret0) == vcU8(a, 0, 0)
}

//vc:invariant decodeUint8 loop0
func vcDecodeUint8Inv(a []byte, n int, v uint16) bool {
	return 0 <= n && n <= len(a) && vcDigEnd(a, 0) == vcDigEnd(a, n) && vcU8(a, 0, 0) == vcU8(a, n, int(v)) && v <= 255
}

func vcPlainColor(a []byte, base SGRColor, ret0 SGRColor, ret1 int, ret2 error) bool {
	if len(a) == 0 || a[0] < '0' || a[0] > '7' || len(a) > 1 && a[1] != ';' {
		return ret2 != nil && 0 <= ret1 && ret1 <= len(a)
	}
	return ret2 == nil && ret1 == 1 && ret0 == base+SGRColor(a[0]&7)
}

//vc:contract decodeSGRClassicColor props=C06 mode=int modular
//vc:ensures decodeSGRClassicColor
func vcClassicPost(a []byte, ret0 SGRColor, ret1 int, ret2 error) bool {
	return vcPlainColor(a, 0, ret0, ret1, ret2)
}

//vc:contract decodeSGRBrightColor props=C06 mode=int modular
//vc:ensures decodeSGRBrightColor
func vcBrightPost(a []byte, ret0 SGRColor, ret1 int, ret2 error) bool {
	return vcPlainColor(a, 8, ret0, ret1, ret2)
}

// what ;N gives
func vcC256OK(a []byte) bool { return len(a) > 1 && a[0] == ';' && vcU8OK(a[1:]) }

//vc:contract decodeSGRColorNumber props=C06 mode=int modular
//vc:ensures decodeSGRColorNumber
func vcColorNumberPost(a []byte, ret0 SGRColor, ret1 int, ret2 error) bool {
	return 0 <= ret1 && ret1 <= len(a) && (ret2 == nil) == vcC256OK(a) &&
		(ret2 != nil || ret0 == SGRColor(vcU8V(a[1:])) && ret1 == 1+vcU8N(a[1:]))
}

// what ;R;G;B gives
func vcC24OK(a []byte) bool {
	if len(a) < 2 || a[0] != ';' || !vcU8OK(a[1:]) {
		return false
	}
	n := 1 + vcU8N(a[1:])
	if n < 1 || n > len(a) || !vcU8OK(a[n:]) {
		return false
	}
	m := n + vcU8N(a[n:])
	return m >= n && m <= len(a) && vcU8OK(a[m:])
}

func vcC24N(a []byte) int {
	n := 1 + vcU8N(a[1:])
	m := n + vcU8N(a[n:])
	return m + vcU8N(a[m:])
}

func vcC24V(a []byte) SGRColor {
	n := 1 + vcU8N(a[1:])
	m := n + vcU8N(a[n:])
	return SGRColor(1<<24) + SGRColor(vcU8V(a[1:])) + SGRColor(vcU8V(a[n:]))<<8 + SGRColor(vcU8V(a[m:]))<<16
}

//vc:contract decodeSGRRGBColor props=C06 mode=int modular
//vc:ensures decodeSGRRGBColor
func vcRGBColorPost(a []byte, ret0 SGRColor, ret1 int, ret2 error) bool {
	if ret1 < 0 || ret1 > len(a) || (ret2 == nil) != vcC24OK(a) {
		return false
	}
	return ret2 != nil || ret0 == vcC24V(a) && ret1 == vcC24N(a)
}

func vcExtOK(a []byte) bool {
	return len(a) > 1 && a[0] == ';' && (a[1] == '5' && vcC256OK(a[2:]) || a[1] == '2' && vcC24OK(a[2:]))
}

//vc:contract decodeSGRExtendedColor props=C06 mode=int modular
//vc:ensures decodeSGRExtendedColor
func vcExtColorPost(a []byte, ret0 SGRColor, ret1 int, ret2 error) bool {
	return 0 <= ret1 && ret1 <= len(a) && (ret2 == nil) == vcExtOK(a) && (ret2 != nil || ret0 == vcExtV(a) && ret1 == vcExtN(a))
}

//vc:contract decodeSGRColor props=C06 mode=int modular
//vc:ensures decodeSGRColor
func vcSGRColorPost(a []byte, ret0 SGRColor, ret1 int, ret2 error) bool {
	if ret1 < 0 || ret1 > len(a) {
		return false
	}
	if len(a) > 0 && a[0] == '8' {
		return (ret2 == nil) == vcExtOK(a[1:]) && (ret2 != nil || ret0 == vcExtV(a[1:]) && ret1 == 1+vcExtN(a[1:]))
	}
	return vcPlainColor(a, 0, ret0, ret1, ret2)
}

// What the parameters from a[n] on make of an attribute: a lone digit sets or
// clears, 3 and 4 lead a foreground or background colour, 9 and 10 a bright one.
//
//vc:spec
func vcSGROK(a []byte, n int) bool {
	if n < 0 || n >= len(a) {
		return n >= 0
	}
	return vcSGROK(a, vcSGRNext(a, n))
}

// where the parameter at a[n] ends, -1 when it is none
//
//vc:spec
func vcSGRNext(a []byte, n int) int {
	if n < 0 || n >= len(a) {
		return n
	}
	c, last := a[n], n+1 >= len(a)
	if c == ';' || c == '0' && !last && vcDigit(a[n+1]) {
		return n + 1
	}
	if '0' <= c && c <= '8' && (last || a[n+1] == ';') {
		return n + vcIte(last, 1, 2)
	}
	if last {
		return -1
	}
	if (c == '3' || c == '4') && a[n+1] == '8' {
		if !vcExtOK(a[n+2:]) {
			return -1
		}
		return n + 2 + vcExtN(a[n+2:])
	}
	if c == '3' || c == '4' || c == '9' {
		return vcIte(vcOctal(a, n+1), n+2, -1)
	}
	return vcIte(c == '1' && a[n+1] == '0' && vcOctal(a, n+2), n+3, -1)
}

// a[n] ends a colour parameter
func vcOctal(a []byte, n int) bool {
	return n < len(a) && '0' <= a[n] && a[n] <= '7' && (n+1 == len(a) || a[n+1] == ';')
}

func vcExtN(a []byte) int {
	if a[1] == '5' {
		return 3 + vcU8N(a[3:])
	}
	return 2 + vcC24N(a[2:])
}

func vcExtV(a []byte) SGRColor {
	if a[1] == '5' {
		return SGRColor(vcU8V(a[3:]))
	}
	return vcC24V(a[2:])
}

func vcSetFG(attr SGRAttr, c SGRColor) SGRAttr { return attr.SansFG() | c.FG() }
func vcSetBG(attr SGRAttr, c SGRColor) SGRAttr { return attr.SansBG() | c.BG() }

func vcSGRDigit(attr SGRAttr, c byte) SGRAttr {
	switch c {
	case '0':
		return SGRAttrClear
	case '1':
		return attr | SGRAttrBold
	case '2':
		return attr | SGRAttrDim
	case '3':
		return attr | SGRAttrItalic
	case '4':
		return attr | SGRAttrUnderscore
	case '7':
		return attr | SGRAttrNegative
	case '8':
		return attr | SGRAttrConceal
	}
	return attr
}

//vc:spec
func vcSGRV(a []byte, n int, attr SGRAttr) SGRAttr {
	if n < 0 || n >= len(a) {
		return attr
	}
	return vcSGRV(a, vcSGRNext(a, n), vcSGRStep(a, n, attr))
}

// what the parameter at a[n] does to attr
//
//vc:spec
func vcSGRStep(a []byte, n int, attr SGRAttr) SGRAttr {
	if n < 0 || n >= len(a) {
		return attr
	}
	c, last := a[n], n+1 >= len(a)
	if c == ';' || c == '0' && !last && vcDigit(a[n+1]) {
		return attr
	}
	if '0' <= c && c <= '8' && (last || a[n+1] == ';') {
		return vcSGRDigit(attr, c)
	}
	if last {
		return attr
	}
	if c == '3' || c == '4' {
		if a[n+1] != '8' {
			if c == '3' {
				return vcSetFG(attr, SGRColor(a[n+1]&7))
			}
			return vcSetBG(attr, SGRColor(a[n+1]&7))
		}
		if !vcExtOK(a[n+2:]) {
			return attr
		}
		if c == '3' {
			return vcSetFG(attr, vcExtV(a[n+2:]))
		}
		return vcSetBG(attr, vcExtV(a[n+2:]))
	}
	if c == '9' {
		return vcSetFG(attr, 8+SGRColor(a[n+1]&7))
	}
	if c == '1' && n+2 < len(a) {
		return vcSetBG(attr, 8+SGRColor(a[n+2]&7))
	}
	return attr
}

//vc:contract DecodeSGR props=C06 mode=mixed modular timeout=60
//vc:ensures DecodeSGR
func vcDecodeSGRReach(a []byte, ret1 int, ret2 error) bool {
	return 0 <= ret1 && ret1 <= len(a) && (ret2 != nil || ret1 == len(a))
}

//vc:ensures DecodeSGR
func vcDecodeSGROK(a []byte, ret2 error) bool { return (ret2 == nil) == vcSGROK(a, 0) }

//vc:ensures DecodeSGR
func vcDecodeSGRValue(a []byte, ret0 SGRAttr, ret2 error) bool {
	return ret2 != nil || ret0 == vcSGRV(a, 0, 0)
}

//vc:invariant DecodeSGR loop0
func vcDecodeSGRInv(a []byte, n int) bool {
	return 0 <= n && n <= len(a) && vcSGROK(a, n) == vcSGROK(a, 0)
}

//vc:invariant DecodeSGR loop0
func vcDecodeSGRInvV(a []byte, n int, attr SGRAttr) bool { return vcSGRV(a, n, attr) == vcSGRV(a, 0, 0) }

//vc:decreases DecodeSGR loop0
func vcDecodeSGRDec(a []byte, n int) int { return len(a) - n }

// What an attribute is written as reads back as that attribute.
//
//vc:lemma props=C06 sampled
func vcLemmaSGRReadBack(attr SGRAttr) {
	vcAssume(vcAttrWF(attr) && attr != 0)
	fg, _ := attr.FG()
	bg, _ := attr.BG()
	vcAssume((vcIs24(fg) || fg < 256) && (vcIs24(bg) || bg < 256))
	p := attr.AppendTo(nil)
	e, a, n := DecodeEscape(p)
	vcAssert("recognised", e == CSI('m') && n == len(p))
	got, m, err := DecodeSGR(a)
	vcAssert("all of it read", err == nil && m == len(a))
	vcAssert("same attribute", got == attr)
}
