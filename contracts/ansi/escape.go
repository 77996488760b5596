package ansi

// ---- identifiers

//vc:contract ESC props=C04 mode=bv
//vc:ensures ESC
func vcESCPost(b byte, ret Escape) bool {
	return ret == 0xEF00+Escape(b&0x7f) && ret.IsEscape()
}

//vc:contract CSI props=C04 mode=bv
//vc:ensures CSI
func vcCSIPost(b byte, ret Escape) bool {
	return ret == 0xEF80+Escape(b&0x7f) && ret.IsEscape()
}

//vc:contract Escape.IsEscape props=C04 mode=int
//vc:ensures Escape.IsEscape
func vcIsEscapePost(id Escape, ret bool) bool { return ret == (0xEF00 <= id && id <= 0xEFFF) }

// The name of an escape identifier is there exactly for the named ranges.
//
//vc:contract Escape.ESC props=C04 mode=bv
//vc:ensures Escape.ESC
func vcEscapeESCPost(id Escape, ret0 byte, ret1 bool) bool {
	return ret1 == (id >= 0xEF01 && id <= 0xEF7E) && vcImplies(ret1, ret0 == byte(id-0xEF00)) && vcImplies(!ret1, ret0 == 0)
}

//vc:contract Escape.CSI props=C04 mode=bv
//vc:ensures Escape.CSI
func vcEscapeCSIPost(id Escape, ret0 byte, ret1 bool) bool {
	return ret1 == (id >= 0xEF81 && id <= 0xEFFE) && vcImplies(ret1, ret0 == byte(id-0xEF80)) && vcImplies(!ret1, ret0 == 0)
}

// Naming and looking up the name are inverse, and no identifier is both.
//
//vc:lemma props=C04 mode=bv
func vcLemmaEscapeNames(b byte, id Escape) {
	if n := b & 0x7f; n != 0 && n != 0x7f {
		e, eok := ESC(b).ESC()
		vcAssert("an escape keeps its name", eok && e == n)
		c, cok := CSI(b).CSI()
		vcAssert("a control keeps its name", cok && c == n)
		_, no := ESC(b).CSI()
		vcAssert("an escape is no control", !no)
		_, no = CSI(b).ESC()
		vcAssert("a control is no escape", !no)
	}
	e, eok := id.ESC()
	c, cok := id.CSI()
	vcAssert("at most one name", !(eok && cok))
	vcAssert("escape from its name", !eok || ESC(e) == id)
	vcAssert("control from its name", !cok || CSI(c) == id)
	vcAssert("named identifiers are escapes", !(eok || cok) || id.IsEscape())
}

// ---- encoding

func vcEncLen(id Escape) int {
	return vcIte(id >= 1 && id <= 0x1f, 1,
		vcIte(id >= 0x80 && id <= 0x9f, 2,
			vcIte(id >= 0xEF20 && id <= 0xEF7E, 2,
				vcIte(id >= 0xEF81 && id <= 0xEFFE, 3, 0))))
}

// byte k of the encoding
func vcEncAt(id Escape, k int) byte {
	if id >= 1 && id <= 0x1f {
		return byte(id)
	}
	if k == 0 {
		return 0x1b
	}
	if id >= 0x80 && id <= 0x9f {
		return byte(id - 0x40)
	}
	if id >= 0xEF20 && id <= 0xEF7E {
		return byte(id - 0xEF00)
	}
	if k == 1 {
		return '['
	}
	return byte(id - 0xEF80)
}

//vc:contract Escape.Size props=C04 mode=int
//vc:ensures Escape.Size
func vcEscapeSizePost(id Escape, ret int) bool { return ret == vcEncLen(id) }

//vc:contract Escape.AppendTo props=C04 mode=int
//vc:ensures Escape.AppendTo
func vcEscapeAppendPost(id Escape, p, old_p, ret []byte) bool {
	n := vcEncLen(id)
	return len(ret) == len(p)+n && vcPrefixKept(old_p, ret) &&
		vcAll(0, n, func(k int) bool { return ret[len(p)+k] == vcEncAt(id, k) })
}

// With argument bytes: controls that introduce a string end it with the string
// terminator, escape sequences take the bytes before their final byte, but
// character set selection after it; other controls take none.
//
//vc:contract Escape.AppendWith props=C04,C08 mode=int
//vc:ensures Escape.AppendWith
func vcEscapeAppendWithPost(id Escape, p, arg, old_p, ret []byte) bool {
	at := len(p)
	n := len(arg)
	if !vcPrefixKept(old_p, ret) {
		return false
	}
	if n > 0 && (id == 0x90 || id >= 0x9d && id <= 0x9f) {
		return len(ret) == at+4+n && ret[at] == 0x1b && ret[at+1] == byte(id-0x40) &&
			vcAll(0, n, func(i int) bool { return ret[at+2+i] == arg[i] }) &&
			ret[at+2+n] == 0x1b && ret[at+3+n] == '\\'
	}
	m := vcEncLen(id)
	if n == 0 || id < 0xEF00 || m == 0 {
		return len(ret) == at+m && vcAll(0, m, func(k int) bool { return ret[at+k] == vcEncAt(id, k) })
	}
	if id <= 0xEF2F {
		return len(ret) == at+2+n && ret[at] == 0x1b && ret[at+1] == byte(id-0xEF00) &&
			vcAll(0, n, func(i int) bool { return ret[at+2+i] == arg[i] })
	}
	return len(ret) == at+m+n && ret[at] == 0x1b && vcImplies(m == 3, ret[at+1] == '[') &&
		vcAll(0, n, func(i int) bool { return ret[at+m-1+i] == arg[i] }) &&
		ret[at+m+n-1] == vcEncAt(id, m-1)
}

// ---- classification

//vc:contract Escape.IsCharacterSetControl props=C04 mode=int
//vc:ensures Escape.IsCharacterSetControl
func vcIsCharsetPost(id Escape, ret bool) bool {
	shift := id == 0x0e || id == 0x0f || id == 0x8e || id == 0x8f
	sel := id >= 0xEF00+'(' && id <= 0xEF00+'/'
	lock := id >= 0xEF00+'k' && id <= 0xEF00+'o' || id >= 0xEF00+'|' && id <= 0xEF00+'~'
	return ret == (shift || sel || lock)
}

//vc:contract Escape.String props=C04 sampled
//vc:requires Escape.String
func vcEscapeStringPre(id Escape) bool { return id >= 0 }

//vc:ensures Escape.String
func vcEscapeStringPost(id Escape, ret string) bool {
	switch {
	case id <= 0x1f:
		return len(ret) == 2 && ret[0] == '^' && ret[1] == byte(id)+'@'
	case id == 0x7f:
		return ret == "^?"
	case id >= 0x80 && id <= 0x9f:
		return ret == C1Names[id-0x80] && vcAll(0, len(C1Names), func(i int) bool { return i == int(id-0x80) || C1Names[i] != ret })
	case id == 0xEF7F:
		return ret == "ESC+INVALID"
	case id == 0xEFFF:
		return ret == "CSI+INVALID"
	case id >= 0xEF20 && id < 0xEF7F:
		return ret == "ESC+"+string([]byte{byte(id - 0xEF00)})
	case id >= 0xEFC0 && id < 0xEFFF:
		return ret == "CSI+"+string([]byte{byte(id - 0xEF80)})
	}
	return len(ret) >= 3 && ret[0] == '\'' && ret[len(ret)-1] == '\''
}
