package ansi

// ---- colours

func vcIs24(c SGRColor) bool { return c>>24&1 == 1 }

func vcCube(l int) int { return vcIte(l == 0, 0, 55+40*l) }

func vcPal16(n, comp int) int {
	if n == 7 {
		return 192
	}
	if n == 8 {
		return 128
	}
	return (n >> uint(comp) & 1) * vcIte(n < 8, 128, 255)
}

func vcCompN(c SGRColor, comp int) int {
	if vcIs24(c) {
		return int(c >> uint(8*comp) & 0xff)
	}
	n := int(c & 0xff)
	if n < 16 {
		return vcPal16(n, comp)
	}
	if n < 232 {
		k := n - 16
		return vcCube(vcIte(comp == 0, k/36, vcIte(comp == 1, k/6%6, k%6)))
	}
	return 8 + 10*(n-232)
}

// components of a colour: packed ones are read back, palette colours follow the
// conventional 256 colour table
//
//vc:spec opaque
func vcComp(c SGRColor, comp int) uint8 { return uint8(vcCompN(c, comp)) }

//vc:contract RGB props=C03 mode=bv
//vc:ensures RGB
func vcRGBPost(r, g, b uint8, ret SGRColor) bool {
	return ret == 1<<24+SGRColor(r)+SGRColor(g)<<8+SGRColor(b)<<16
}

//vc:contract RGBA props=C03 mode=bv
//vc:ensures RGBA
func vcRGBAPost(r, g, b uint32, ret SGRColor) bool {
	cl := func(x uint32) uint8 {
		if x > 0xffff {
			return 0xff
		}
		return uint8(x >> 8)
	}
	return ret == RGB(cl(r), cl(g), cl(b))
}

//vc:contract SGRColor.RGB props=C03 mode=bv modular reveal=vcComp
//vc:ensures SGRColor.RGB
func vcColorRGBPost(c SGRColor, ret0, ret1, ret2 uint8) bool {
	return ret0 == vcComp(c, 0) && ret1 == vcComp(c, 1) && ret2 == vcComp(c, 2)
}

// The component values widen to 16 bits by repetition, fully opaque.
//
//vc:contract SGRColor.RGBA props=C03 mode=int
//vc:ensures SGRColor.RGBA
func vcColorRGBAPost(c SGRColor, ret0, ret1, ret2, ret3 uint32) bool {
	return ret0 == uint32(vcComp(c, 0))*257 && ret1 == uint32(vcComp(c, 1))*257 && ret2 == uint32(vcComp(c, 2))*257 && ret3 == 0xffff
}

//vc:contract SGRColor.To24Bit props=C03 mode=int
//vc:ensures SGRColor.To24Bit
func vcTo24BitPost(c, ret SGRColor) bool {
	return vcIs24(ret) && vcImplies(vcIs24(c), ret == c) &&
		vcImplies(!vcIs24(c), ret == 1<<24+SGRColor(vcComp(c, 0))+SGRColor(vcComp(c, 1))<<8+SGRColor(vcComp(c, 2))<<16)
}

// ---- palettes

// squared difference of two components
//
//vc:spec opaque
func vcSq(x, y uint8) int { return (int(x) - int(y)) * (int(x) - int(y)) }

func vcAbs(n int) int { return vcIte(n < 0, -n, n) }

// squared distance between two colours
func vcDist(a, b SGRColor) int {
	return vcAbs(vcSq(vcComp(a, 0), vcComp(b, 0))) + vcAbs(vcSq(vcComp(a, 1), vcComp(b, 1))) + vcAbs(vcSq(vcComp(a, 2), vcComp(b, 2)))
}

//vc:contract sqDiff props=C03 mode=bv modular reveal=vcSq
//vc:ensures sqDiff
func vcSqDiffPost(x, y uint8, ret uint32) bool {
	return int(ret) == vcSq(x, y) && ret <= 255*255
}

// The first of the closest colours.
//
//vc:contract Palette.Index props=C03 mode=int
//vc:ensures Palette.Index
func vcPaletteIndexPost(p Palette, c SGRColor, ret int) bool {
	if len(p) == 0 {
		return ret == 0
	}
	return ret >= 0 && ret < len(p) &&
		vcAll(0, len(p), func(j int) bool { return vcDist(c, p[j]) >= vcDist(c, p[ret]) }) &&
		vcAll(0, ret, func(j int) bool { return vcDist(c, p[j]) > vcDist(c, p[ret]) })
}

//vc:invariant Palette.Index loop0
func vcPaletteIndexInv(p Palette, c SGRColor, rangeindex, ret int, bestSum uint32) bool {
	return vcImplies(rangeindex < 0, ret == 0 && bestSum == 1<<32-1) &&
		vcImplies(rangeindex >= 0, ret >= 0 && ret <= rangeindex && int(bestSum) == vcDist(c, p[ret])) &&
		vcAll(0, rangeindex+1, func(j int) bool { return vcDist(c, p[j]) >= int(bestSum) }) &&
		vcAll(0, ret, func(j int) bool { return vcDist(c, p[j]) > int(bestSum) })
}

//vc:contract Palette.Convert props=C03 mode=int
//vc:ensures Palette.Convert
func vcPaletteConvertPost(p Palette, c SGRColor, ret SGRColor) bool {
	if len(p) == 0 {
		return ret == 0
	}
	return vcAll(0, len(p), func(j int) bool { return vcDist(c, p[j]) >= vcDist(c, ret) }) &&
		vcExists(0, len(p), func(j int) bool { return p[j] == ret })
}

// ---- themes and models

//vc:contract ColorTheme.Convert props=C03 mode=bv
//vc:ensures ColorTheme.Convert
func vcThemePost(theme ColorTheme, c, ret SGRColor) bool {
	if vcIs24(c) {
		return ret == c
	}
	if n := int(c & 0xff); n < len(theme) {
		return ret == theme[n]
	}
	return ret.To24Bit() == (c & 0xff).To24Bit()
}

// Canonical colours undo the upgrade to 24-bit, up to palette entries of equal
// colour, and leave everything else as it is.
//
//vc:lemma props=C03 sampled
func vcLemmaCanon(c SGRColor) {
	up := (c & 0xff).To24Bit()
	d := SGRColorCanon.Convert(up)
	vcAssert("palette colours are recognised", !vcIs24(d) && d < 256 && d.To24Bit() == up)
	e := SGRColorCanon.Convert(c)
	vcAssert("canonical or unchanged", e == c || e.To24Bit() == c)
	vcAssert("upgrade is idempotent", ColorModel24.Convert(ColorModel24.Convert(c)) == c.To24Bit())
	vcAssert("identity", ColorModelID.Convert(c) == c)
}

type vcModelSet struct {
	ms []ColorModel
	c  SGRColor
}

//vc:gen
func vcGenModelSet(r *vcRand) vcModelSet {
	var s vcModelSet
	for i := r.Intn(5); i > 0; i-- {
		k := SGRColor(r.Intn(1 << 10))
		switch r.Intn(6) {
		case 0:
			s.ms = append(s.ms, nil)
		case 1:
			s.ms = append(s.ms, ColorModel24)
		case 2:
			s.ms = append(s.ms, Palette4)
		case 3:
			s.ms = append(s.ms, XPalette)
		default:
			s.ms = append(s.ms, ColorModelFunc(func(c SGRColor) SGRColor { return c*3 ^ k }))
		}
	}
	s.c = SGRColor(r.Int64()) & 0x1ffffff
	return s
}

func vcRunModels(s vcModelSet, c SGRColor) SGRColor {
	for _, m := range s.ms {
		if m != nil {
			c = m.Convert(c)
		}
	}
	return c
}

// Combined models convert in series, however they are nested, and combining a
// combination again leaves the earlier ones as they were.
//
//vc:lemma props=C03 sampled
func vcLemmaColorModels(a, b, d vcModelSet) {
	conv := func(m ColorModel, c SGRColor) SGRColor {
		if m == nil {
			return c
		}
		return m.Convert(c)
	}
	x := ColorModels(a.ms...)
	vcAssert("in series", conv(x, a.c) == vcRunModels(a, a.c))
	y := ColorModels(x, ColorModels(b.ms...))
	z := ColorModels(x, ColorModels(d.ms...))
	vcAssert("nested", conv(y, a.c) == vcRunModels(b, vcRunModels(a, a.c)))
	vcAssert("nested again", conv(z, a.c) == vcRunModels(d, vcRunModels(a, a.c)))
	vcAssert("unchanged", conv(x, a.c) == vcRunModels(a, a.c))
}
