package ansi

import "strconv"

// ---- mouse states

// Buttons one to three (with none held as zero), wheel up and down as four and
// five. A wheel event always names a button.
//
//vc:contract MouseState.ButtonID props=C09 mode=bv
//vc:ensures MouseState.ButtonID
func vcButtonIDPost(ms MouseState, ret uint8) bool {
	low := uint8(ms & 3)
	if ms&64 == 0 {
		return ret == vcIte(low == 3, 0, low+1)
	}
	return vcImplies(low != 3, ret == low+4)
}

//vc:contract MouseState.Modifier props=C09 mode=bv
//vc:ensures MouseState.Modifier
func vcModifierPost(ms, ret MouseState) bool { return ret == ms&0x1c }

//vc:contract MouseState.IsMotion props=C09 mode=bv
//vc:ensures MouseState.IsMotion
func vcIsMotionPost(ms MouseState, ret bool) bool { return ret == (ms&32 != 0) }

//vc:contract MouseState.IsRelease props=C09 mode=bv
//vc:ensures MouseState.IsRelease
func vcIsReleasePost(ms MouseState, ret bool) bool { return ret == (ms>>7 == 1) }

//vc:contract MouseState.IsPress props=C09 mode=bv
//vc:ensures MouseState.IsPress
func vcIsPressPost(ms MouseState, ret0 uint8, ret1 bool) bool {
	return ret1 == (!ms.IsRelease() && !ms.IsMotion()) && ret0 == vcIte(ret1, ms.ButtonID(), 0)
}

//vc:contract MouseState.IsDrag props=C09 mode=bv
//vc:ensures MouseState.IsDrag
func vcIsDragPost(ms MouseState, ret bool) bool {
	return ret == (ms.IsMotion() && !ms.IsRelease() && ms.ButtonID() != 0)
}

//vc:lemma props=C09 mode=bv
func vcLemmaMouseKinds(ms MouseState) {
	_, press := ms.IsPress()
	drag := ms.IsDrag()
	vcAssert("at most one of press, drag and release", !(press && drag) && !(press && ms.IsRelease()) && !(drag && ms.IsRelease()))
	vcAssert("modifiers do not change the kind", ms.IsDrag() == (ms &^ 0x1c).IsDrag() && ms.IsMotion() == (ms &^ 0x1c).IsMotion())
	vcAssert("modifiers do not change the button", ms.ButtonID() == (ms &^ 0x1c).ButtonID())
	vcAssert("at most six buttons", ms.ButtonID() <= 6)
}

//vc:contract MouseState.ButtonName props=C09 mode=bv
//vc:ensures MouseState.ButtonName
func vcButtonNamePost(ms MouseState, ret string) bool {
	switch ms.ButtonID() {
	case 0:
		return ret == ""
	case 1:
		return ret == "left"
	case 2:
		return ret == "middle"
	case 3:
		return ret == "right"
	case 4:
		return ret == "wheelUp"
	case 5:
		return ret == "wheelDown"
	}
	return true
}

//vc:contract MouseState.ModifierName props=C09 mode=bv
//vc:ensures MouseState.ModifierName
func vcModifierNamePost(ms MouseState, ret string) bool {
	switch ms >> 2 & 7 {
	case 0:
		return ret == ""
	case 1:
		return ret == "shift"
	case 2:
		return ret == "meta"
	case 3:
		return ret == "shift+meta"
	case 4:
		return ret == "ctrl"
	case 5:
		return ret == "ctrl+shift"
	case 6:
		return ret == "ctrl+meta"
	}
	return ret == "ctrl+shift+meta"
}

// A report "<Cb;Cx;Cy" decodes to exactly its three numbers; the final byte
// says whether it is a release. Anything else is rejected or left alone.
//
//vc:contract DecodeXtermExtendedMouse props=C09 mode=int
//vc:ensures DecodeXtermExtendedMouse
func vcDecodeMousePost(id Escape, arg []byte, ret0 MouseState, ret1 Point, ret2 error) bool {
	press, release := id == 0xEF80+'M', id == 0xEF80+'m'
	if !(press || release) || len(arg) == 0 || arg[0] != '<' {
		return ret0 == 0 && ret1.X == 0 && ret1.Y == 0 && ret2 == nil
	}
	a := arg[1:]
	if !vcNumOK(a) || vcNumV(a) < 0 || vcNumV(a) > 255 {
		return ret2 != nil
	}
	n := vcNumN(a)
	if n < 0 || n > len(a) {
		return false
	}
	b := a[n:]
	if !vcNumOK(b) {
		return ret2 != nil
	}
	m := vcNumN(b)
	if m < 0 || m > len(b) {
		return false
	}
	c := b[m:]
	if !vcNumOK(c) || vcNumN(c) != len(c) {
		return ret2 != nil
	}
	st := vcNumV(a)
	return ret2 == nil && int(ret0) == vcIte(release && st < 128, st+128, st) && ret1.X == vcNumV(b) && ret1.Y == vcNumV(c)
}

//vc:gen DecodeXtermExtendedMouse
func vcGenMouse(r *vcRand) (Escape, []byte) {
	id := Escape(0xEF80 + rune("MmMmHx"[r.Intn(6)]))
	var p []byte
	if r.Intn(12) != 0 {
		p = append(p, '<')
	}
	k := 3
	if r.Intn(8) == 0 {
		k = r.Intn(5)
	}
	for i := 0; i < k; i++ {
		if i > 0 && r.Intn(20) != 0 {
			p = append(p, ';')
		}
		switch r.Intn(12) {
		case 0:
			p = append(p, '-')
		case 1:
			p = append(p, '+')
		case 2:
			p = append(p, '0', '0')
		}
		n := r.Intn(300)
		if r.Intn(10) == 0 {
			n = int(r.Int64())
		}
		p = append(p, strconv.Itoa(n)...)
	}
	if r.Intn(10) == 0 {
		p = append(p, r.Text()...)
	}
	return id, p
}

// The description of a state names its modifiers, then its button, then what
// happened to it.
//
//vc:contract MouseState.String props=C09 mode=bv
//vc:requires MouseState.String
func vcMouseStringPre(ms MouseState) bool { return ms&64 == 0 || ms&3 < 2 }

//vc:ensures MouseState.String
func vcMouseStringPost(ms MouseState, ret string) bool {
	b := ms.ButtonName()
	s := b
	if ms.IsMotion() && !ms.IsRelease() {
		s = "motion"
		if b != "" {
			s = b + "-drag"
		}
	}
	if ms.IsRelease() && !ms.IsMotion() {
		s = "??? release"
		if b != "" {
			s = b + "-release"
		}
	}
	if ms.IsRelease() && ms.IsMotion() {
		s = "??? motion+release"
		if b != "" {
			s = "??? " + b + "-motion+release"
		}
	}
	if m := ms.ModifierName(); m != "" {
		s = m + "+" + s
	}
	return ret == s
}
