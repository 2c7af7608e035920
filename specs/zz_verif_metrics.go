package font

import "github.com/tdewolff/parse/v2"

// ---------------------------------------------------------------- line metrics

func pos16(v int16) int {
	if v < 0 {
		return 0
	}
	return int(v)
}

//@ contract (*SFNT).VerticalMetrics
//@ prop P22 P03
func c_VerticalMetrics(sfnt *SFNT) (ascender, descender, lineGap uint16) {
	requires(sfnt.Hhea != nil)
	h, o := sfnt.Hhea, sfnt.OS2
	ascender, descender, lineGap = sfnt.VerticalMetrics()
	if o != nil && o.FsSelection&0x80 != 0 && 0 < o.STypoAscender && o.STypoDescender < 0 {
		// the typographic metrics, if the font says so
		ensures(int(ascender) == int(o.STypoAscender) && int(descender) == -int(o.STypoDescender) && int(lineGap) == pos16(o.STypoLineGap))
	} else if o != nil && o.FsSelection&0x80 == 0 && o.UsWinAscent != 0 && o.UsWinDescent != 0 {
		// the Windows metrics, with the rest of the hhea line spacing as external leading
		ensures(ascender == o.UsWinAscent && descender == o.UsWinDescent)
		gap := int(h.LineGap) - (int(o.UsWinAscent) + int(o.UsWinDescent) - (int(h.Ascender) - int(h.Descender)))
		if gap < 0 {
			gap = 0
		}
		ensures(implies(gap <= 0xFFFF, int(lineGap) == gap))
	} else {
		ensures(int(ascender) == pos16(h.Ascender) && int(lineGap) == pos16(h.LineGap))
		if h.Descender < 0 {
			ensures(int(descender) == -int(h.Descender))
		} else {
			ensures(descender == 0)
		}
	}
	return
}

// ---------------------------------------------------------------- OS/2

func os2Length(version uint16, n int) bool {
	if version == 0 {
		return n == 68 || n == 78
	} else if version == 1 {
		return n == 86
	} else if version <= 4 {
		return n == 96
	}
	return version == 5 && n == 100
}

//@ contract (*SFNT).parseOS2
//@ prop P23 P03
func c_parseOS2(sfnt *SFNT) (err error) {
	b, ok := sfnt.Tables["OS/2"]
	modifies(&sfnt.OS2)
	err = sfnt.parseOS2()
	ensures((err == nil) == (ok && 68 <= len(b) && os2Length(be16(b, 0), len(b))))
	if err == nil {
		o := sfnt.OS2
		ensures(o != nil && fresh(o))
		ensures(o.Version == be16(b, 0) && o.XAvgCharWidth == bei16(b, 2) && o.UsWeightClass == be16(b, 4) && o.UsWidthClass == be16(b, 6) && o.FsType == be16(b, 8))
		ensures(o.YSubscriptXSize == bei16(b, 10) && o.YSubscriptYSize == bei16(b, 12) && o.YSubscriptXOffset == bei16(b, 14) && o.YSubscriptYOffset == bei16(b, 16))
		ensures(o.YSuperscriptXSize == bei16(b, 18) && o.YSuperscriptYSize == bei16(b, 20) && o.YSuperscriptXOffset == bei16(b, 22) && o.YSuperscriptYOffset == bei16(b, 24))
		ensures(o.YStrikeoutSize == bei16(b, 26) && o.YStrikeoutPosition == bei16(b, 28) && o.SFamilyClass == bei16(b, 30))
		ensures(o.BFamilyType == b[32] && o.BSerifStyle == b[33] && o.BWeight == b[34] && o.BProportion == b[35] && o.BContrast == b[36])
		ensures(o.BStrokeVariation == b[37] && o.BArmStyle == b[38] && o.BLetterform == b[39] && o.BMidline == b[40] && o.BXHeight == b[41])
		ensures(o.UlUnicodeRange1 == be32(b, 42) && o.UlUnicodeRange2 == be32(b, 46) && o.UlUnicodeRange3 == be32(b, 50) && o.UlUnicodeRange4 == be32(b, 54))
		ensures(forall(0, 4, func(i int) bool { return o.AchVendID[i] == b[58+i] }))
		ensures(o.FsSelection == be16(b, 62) && o.UsFirstCharIndex == be16(b, 64) && o.UsLastCharIndex == be16(b, 66))
		if 78 <= len(b) {
			ensures(o.STypoAscender == bei16(b, 68) && o.STypoDescender == bei16(b, 70) && o.STypoLineGap == bei16(b, 72))
			ensures(o.UsWinAscent == be16(b, 74) && o.UsWinDescent == be16(b, 76))
		} else {
			ensures(o.STypoAscender == 0 && o.STypoDescender == 0 && o.STypoLineGap == 0 && o.UsWinAscent == 0 && o.UsWinDescent == 0)
		}
		if 86 <= len(b) {
			ensures(o.UlCodePageRange1 == be32(b, 78) && o.UlCodePageRange2 == be32(b, 82))
		}
		if 96 <= len(b) {
			ensures(o.SxHeight == bei16(b, 86) && o.SCapHeight == bei16(b, 88))
			ensures(o.UsDefaultChar == be16(b, 90) && o.UsBreakChar == be16(b, 92) && o.UsMaxContent == be16(b, 94))
		}
		if 100 <= len(b) {
			ensures(o.UsLowerOpticalPointSize == be16(b, 96) && o.UsUpperOpticalPointSize == be16(b, 98))
		}
	}
	return
}

// ---------------------------------------------------------------- post

// okPost: what a parsed post table guarantees.
func okPost(p *postTable) bool {
	return len(p.glyphNameIndex) <= 65535
}

//@ contract (*postTable).Get
//@ prop P21 P03
func c_postGet(post *postTable, glyphID uint16) (s string) {
	s = post.Get(glyphID)
	g := int(glyphID)
	if len(post.glyphNameIndex) <= g {
		ensures(s == "")
	} else if i := int(post.glyphNameIndex[g]); i < 258 {
		ensures(s == macintoshGlyphNames[i])
	} else if i-258 < len(post.stringData) {
		ensures(s == string(post.stringData[i-258]))
	} else {
		ensures(s == "")
	}
	return
}

//@ inv (*SFNT).parsePost for=c_parsePost
func i_parsePost(sfnt *SFNT, i int) bool {
	b := sfnt.Tables["post"]
	return forall(0, i, func(k int) bool { return sfnt.Post.glyphNameIndex[k] == be16(b, 34+2*k) })
}

//@ inv (*SFNT).parsePost for=c_parsePost
func i_parsePost1(sfnt *SFNT, i int) bool {
	return forall(0, i, func(k int) bool { return int(sfnt.Post.glyphNameIndex[k]) == k })
}

// specNamePos: where the k-th custom name stands, preceded by its length.
//
//@ recursive
func specNamePos(b []byte, start, k int) int {
	if k <= 0 {
		return start
	}
	p := specNamePos(b, start, k-1)
	if p < 0 || len(b) <= p {
		return p
	}
	return p + 1 + int(b[p])
}

// postNames: the names are those of the font data from the given position.
func postNames(names [][]byte, b []byte, start int) bool {
	return forall(0, len(names), func(k int) bool {
		p := specNamePos(b, start, k)
		return 0 <= p && p+1+len(names[k]) <= len(b) && len(names[k]) == int(b[p]) && sameBytes(names[k], b[p+1:p+1+len(names[k])])
	})
}

//@ inv (*SFNT).parsePost for=l_postNames
func i_parsePostNames(sfnt *SFNT, r *parse.BinaryReader) bool {
	b := sfnt.Tables["post"]
	return len(b) < 34 || postNames(sfnt.Post.stringData, b, 34+2*int(be16(b, 32)))
}

//@ inv (*SFNT).parsePost for=l_postNames
func i_parsePostPos(sfnt *SFNT, r *parse.BinaryReader) bool {
	b := sfnt.Tables["post"]
	return len(b) < 34 || r.Pos() == int64(specNamePos(b, 34+2*int(be16(b, 32)), len(sfnt.Post.stringData)))
}

// l_postNames: the custom names of an accepted table follow each other up to the end.
//
//@ lemma
//@ prop P21
//@ inline (*SFNT).parsePost
func l_postNames(sfnt *SFNT) {
	b, ok := sfnt.Tables["post"]
	requires(ok && 34 <= len(b) && len(b) <= maxTable && be32(b, 0) == 0x00020000)
	if sfnt.parsePost() == nil {
		p := sfnt.Post
		n := int(be16(b, 32))
		assert(postNames(p.stringData, b, 34+2*n))
		assert(len(b)-1 <= specNamePos(b, 34+2*n, len(p.stringData)))
	}
}

//@ contract (*SFNT).parsePost
//@ prop P21 P03
func c_parsePost(sfnt *SFNT) (err error) {
	b, ok := sfnt.Tables["post"]
	requires(len(b) <= maxTable)
	modifies(&sfnt.Post)
	err = sfnt.parsePost()
	if err == nil {
		p := sfnt.Post
		ensures(ok && 32 <= len(b) && sfnt.Maxp != nil && p != nil && fresh(p))
		ensures(p.UnderlinePosition == bei16(b, 8) && p.UnderlineThickness == bei16(b, 10))
		ensures(p.IsFixedPitch == be32(b, 12) && p.MinMemType42 == be32(b, 16) && p.MaxMemType42 == be32(b, 20) && p.MinMemType1 == be32(b, 24) && p.MaxMemType1 == be32(b, 28))
		if be32(b, 0) == 0x00010000 {
			ensures(len(p.glyphNameIndex) == 258)
			ensures(forall(0, 258, func(i int) bool { return int(p.glyphNameIndex[i]) == i }))
		} else if be32(b, 0) == 0x00020000 {
			n := int(be16(b, 32))
			ensures(p.NumGlyphs == sfnt.Maxp.NumGlyphs && int(p.NumGlyphs) == n)
			ensures(len(p.glyphNameIndex) == n && 34+2*n <= len(b))
			ensures(forall(0, n, func(i int) bool { return p.glyphNameIndex[i] == be16(b, 34+2*i) }))
		} else {
			ensures(be32(b, 0) == 0x00030000 && len(p.glyphNameIndex) == 0 && len(b) == 32)
		}
	}
	return
}

// nameFound: the name map has this name exactly if some glyph carries it, and then it is the name of that glyph.
func nameFound(post *postTable, name string, g uint16, ok bool) bool {
	if ok {
		return int(g) < len(post.glyphNameIndex) && glyphNameIs(post, int(g), name)
	}
	return g == 0 && forall(0, len(post.glyphNameIndex), func(i int) bool { return !glyphNameIs(post, i, name) })
}

// glyphNameIs: the glyph has a name, and it is this one.
func glyphNameIs(post *postTable, g int, name string) bool {
	i := int(post.glyphNameIndex[g])
	if i < 258 {
		return macintoshGlyphNames[i] == name
	}
	return i-258 < len(post.stringData) && string(post.stringData[i-258]) == name
}

//@ contract (*postTable).Find
//@ prop P21 P03
func c_postFind(post *postTable, name string) (g uint16, ok bool) {
	requires(okPost(post))
	g0, ok0 := post.nameMap[name]
	requires(implies(onceDone(&post.once), nameFound(post, name, g0, ok0)))
	modifies(&post.nameMap)
	modifies(&post.once)
	g, ok = post.Find(name)
	ensures(nameFound(post, name, g, ok))
	ensures(onceDone(&post.once))
	return
}

//@ inv (*postTable).Find
func i_postFind(post *postTable, name string, rangeindex int) bool {
	g, ok := post.nameMap[name]
	if ok {
		return int(g) <= rangeindex && glyphNameIs(post, int(g), name)
	}
	return g == 0 && forall(0, rangeindex+1, func(i int) bool { return !glyphNameIs(post, i, name) })
}
