package ansi

// ---- encoding attributes
//
// vcParam and friends spell out, independently of the code, which parameters
// an attribute encodes to.

// what AppendTo must do for a colour parameter: exact length and contents
//
//vc:spec
func vcDigits(v int) int { return vcIte(v > 99, 3, vcIte(v > 9, 2, 1)) }

//vc:spec
func vcDigitAt(v, n, i int) byte {
	return vcIte(i == n-1, byte('0'+v%10), vcIte(i == n-2, byte('0'+v/10%10), byte('0'+v/100)))
}

// number v is written at p[at:at+n]
func vcNumAt(p []byte, at, v int) bool {
	n := vcDigits(v)
	return at >= 0 && at+n <= len(p) &&
		p[at+n-1] == byte('0'+v%10) &&
		vcImplies(n > 1, p[at+n-2] == byte('0'+v/10%10)) &&
		vcImplies(n > 2, p[at+n-3] == byte('0'+v/100))
}

// length of the colour parameter: lead digits are 2 ("3","9"...) or 3 ("10x")
func vcColorLen(c SGRColor, bright int) int {
	if c>>24 != 0 {
		return 4 + 3 + vcDigits(int(c&0xff)) + vcDigits(int(c>>8&0xff)) + vcDigits(int(c>>16&0xff))
	}
	if c < 8 {
		return 2
	}
	if c < 16 {
		return 1 + bright
	}
	return 5 + vcDigits(int(c))
}

// the colour parameter at p[at:] for a base digit ('3' or '4')
func vcColorAt(p []byte, at int, c SGRColor, base byte, bright int) bool {
	n := vcColorLen(c, bright)
	if at < 0 || at+n > len(p) {
		return false
	}
	if c>>24 != 0 {
		r, g, b := int(c&0xff), int(c>>8&0xff), int(c>>16&0xff)
		dr, dg := vcDigits(r), vcDigits(g)
		return p[at] == base && p[at+1] == '8' && p[at+2] == ';' && p[at+3] == '2' && p[at+4] == ';' &&
			vcNumAt(p, at+5, r) && p[at+5+dr] == ';' && vcNumAt(p, at+6+dr, g) &&
			p[at+6+dr+dg] == ';' && vcNumAt(p, at+7+dr+dg, b)
	}
	if c < 8 {
		return p[at] == base && p[at+1] == '0'+byte(c)
	}
	if c < 16 {
		if bright == 1 {
			return p[at] == '9' && p[at+1] == '0'+byte(c)-8
		}
		return p[at] == '1' && p[at+1] == '0' && p[at+2] == '0'+byte(c)-8
	}
	return p[at] == base && p[at+1] == '8' && p[at+2] == ';' && p[at+3] == '5' && p[at+4] == ';' && vcNumAt(p, at+5, int(c))
}

func vcColorOK(c SGRColor) bool { return c < 256 || c>>24 == 1 }

func vcPrefixKept(p, ret []byte) bool {
	return len(ret) >= len(p) && vcAll(0, len(p), func(i int) bool { return ret[i] == p[i] })
}

//vc:contract SGRColor.appendFGTo props=C02 mode=int modular modifies=p[]
//vc:ensures SGRColor.appendFGTo
func vcAppendFGPost(c SGRColor, p, old_p, ret []byte) bool {
	return vcImplies(vcColorOK(c), len(ret) == len(p)+vcColorLen(c, 1) &&
		vcPrefixKept(old_p, ret) && vcColorAt(ret, len(p), c, '3', 1))
}

//vc:contract SGRColor.appendBGTo props=C02 mode=int modular modifies=p[]
//vc:ensures SGRColor.appendBGTo
func vcAppendBGPost(c SGRColor, p, old_p, ret []byte) bool {
	return vcImplies(vcColorOK(c), len(ret) == len(p)+vcColorLen(c, 2) &&
		vcPrefixKept(old_p, ret) && vcColorAt(ret, len(p), c, '4', 2))
}

func vcFlag(a SGRAttr, i uint) bool { return a>>i&1 != 0 }
func vcBit(a SGRAttr, i uint) int   { return int(a >> i & 1) }

// number of flag parameters before flag i
func vcFlagsBelow(a SGRAttr, i uint) int {
	n := 0
	for j := uint(0); j < 7; j++ {
		if j < i {
			n += vcBit(a, j)
		}
	}
	return n
}

func vcFGOf(a SGRAttr) SGRColor { return SGRColor(a >> 7 & 0x1ffffff) }
func vcBGOf(a SGRAttr) SGRColor { return SGRColor(a >> 33 & 0x1ffffff) }

func vcAttrColorsOK(a SGRAttr) bool {
	return vcImplies(vcFlag(a, 32), vcColorOK(vcFGOf(a))) && vcImplies(vcFlag(a, 58), vcColorOK(vcBGOf(a)))
}

// length of the parameter list of an attribute, with a trailing separator
func vcParamsLen(a SGRAttr) int {
	return 2*vcFlagsBelow(a, 7) +
		vcIte(vcFlag(a, 32), 1+vcColorLen(vcFGOf(a), 1), 0) +
		vcIte(vcFlag(a, 58), 1+vcColorLen(vcBGOf(a), 2), 0)
}

func vcSGRLen(a SGRAttr) int {
	n := vcParamsLen(a)
	return vcIte(n == 0, 4, 2+n)
}

//vc:contract SGRAttr.Size props=C02 mode=int
//vc:ensures SGRAttr.Size
func vcSGRSizePost(attr SGRAttr, ret int) bool {
	return vcImplies(vcAttrWF(attr) && vcAttrColorsOK(attr), ret == vcSGRLen(attr))
}

//vc:contract SGRAttr.AppendTo props=C02 mode=int sampled
//vc:requires SGRAttr.AppendTo
func vcSGRAppendPre(attr SGRAttr) bool { return vcAttrWF(attr) && vcAttrColorsOK(attr) }

//vc:ensures SGRAttr.AppendTo
func vcSGRAppendFrame(attr SGRAttr, p, old_p, ret []byte) bool {
	return len(ret) == len(p)+vcSGRLen(attr) && vcPrefixKept(old_p, ret) &&
		ret[len(p)] == 0x1b && ret[len(p)+1] == '[' && ret[len(ret)-1] == 'm'
}

//vc:ensures SGRAttr.AppendTo
func vcSGRAppendParams(attr SGRAttr, p, ret []byte) bool {
	at := len(p) + 2
	if vcParamsLen(attr) == 0 {
		return ret[at] == '0'
	}
	codes := [7]byte{'0', '1', '2', '3', '4', '7', '8'}
	ok := true
	for i := uint(0); i < 7; i++ {
		k := 2 * vcFlagsBelow(attr, i)
		ok = ok && (!vcFlag(attr, i) || ret[at+k] == codes[i] && (k == 0 || ret[at+k-1] == ';'))
	}
	k := 2 * vcFlagsBelow(attr, 7)
	if vcFlag(attr, 32) {
		ok = ok && vcColorAt(ret, at+k, vcFGOf(attr), '3', 1) && vcImplies(k > 0, ret[at+k-1] == ';')
		k += 1 + vcColorLen(vcFGOf(attr), 1)
	}
	if vcFlag(attr, 58) {
		ok = ok && vcColorAt(ret, at+k, vcBGOf(attr), '4', 2) && vcImplies(k > 0, ret[at+k-1] == ';')
	}
	return ok
}

//vc:contract SGRAttr.ControlString props=C02 mode=int sampled
//vc:ensures SGRAttr.ControlString
func vcControlStringPost(attr SGRAttr, ret string) bool {
	return ret == string(attr.AppendTo(nil))
}
