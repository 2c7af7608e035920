package font

// ---------------------------------------------------------------- cmap parsing

// cmapOne: the table has one encoding record, of a subtable of this format; o is its position.
func cmapOne(sfnt *SFNT, format uint16) (b []byte, o int) {
	_, ok := sfnt.Tables["cmap"]
	requires(ok)
	b = sfnt.Tables["cmap"]
	requires(b != nil && 20 <= len(b) && len(b) <= maxTable && be16(b, 0) == 0 && be16(b, 2) == 1)
	o = int(be32(b, 8))
	requires(12 <= o && o+8 <= len(b) && be16(b, o) == format)
	requires(sfnt.Maxp != nil)
	return
}

// l_parseCmap0: a format 0 subtable is decoded as it is.
//
//@ lemma
//@ prop P07
//@ inline (*SFNT).parseCmap
//@ unroll (*SFNT).parseCmap#1 1
//@ unroll (*SFNT).parseCmap#2 1
//@ unroll (*SFNT).parseCmap#3 1
func l_parseCmap0(sfnt *SFNT) {
	b, o := cmapOne(sfnt, 0)
	err := sfnt.parseCmap()
	if err == nil {
		assert(len(sfnt.Cmap.Subtables) == 1)
		s, ok := sfnt.Cmap.Subtables[0].(*cmapFormat0)
		assert(ok && o+262 <= len(b))
		assert(forall(0, 256, func(k int) bool { return s.GlyphIdArray[k] == b[o+6+k] }))
	}
}

// l_parseCmap4: a format 4 subtable is decoded as it is, apart from the last segment.
//
//@ lemma
//@ prop P07
//@ inline (*SFNT).parseCmap
//@ unroll (*SFNT).parseCmap#1 1
//@ unroll (*SFNT).parseCmap#2 1
//@ unroll (*SFNT).parseCmap#3 1
func l_parseCmap4(sfnt *SFNT) {
	b, o := cmapOne(sfnt, 4)
	err := sfnt.parseCmap()
	if err == nil {
		assert(len(sfnt.Cmap.Subtables) == 1)
		s, ok := sfnt.Cmap.Subtables[0].(*cmapFormat4)
		assert(ok && o+14 <= len(b))
		n := int(be16(b, o+6)) / 2
		assert(okCmap4(s))
		assert(len(s.StartCode) == n)
		assert(o+16+8*n+2*len(s.GlyphIdArray) == o+int(be16(b, o+2)))
		assert(forall(0, n, func(k int) bool { return s.EndCode[k] == be16(b, o+14+2*k) }))
		assert(forall(0, n, func(k int) bool { return s.StartCode[k] == be16(b, o+16+2*n+2*k) }))
		assert(forall(0, n-1, func(k int) bool { return s.IdDelta[k] == bei16(b, o+16+4*n+2*k) }))
		assert(forall(0, n-1, func(k int) bool { return s.IdRangeOffset[k] == be16(b, o+16+6*n+2*k) }))
		assert(forall(0, len(s.GlyphIdArray), func(k int) bool { return s.GlyphIdArray[k] == be16(b, o+16+8*n+2*k) }))
		assert(s.IdDelta[n-1] == 1 && s.IdRangeOffset[n-1] == 0)
	}
}

//@ inv (*SFNT).parseCmap for=l_parseCmap4
func i_parseCmap4(sfnt *SFNT, subtable *cmapFormat4, i int) bool {
	b := sfnt.Tables["cmap"]
	o := int(be32(b, 8))
	return forall(0, i, func(k int) bool { return subtable.EndCode[k] == be16(b, o+14+2*k) })
}

//@ inv (*SFNT).parseCmap for=l_parseCmap4
func i_parseCmap4Start(sfnt *SFNT, subtable *cmapFormat4, i int) bool {
	b := sfnt.Tables["cmap"]
	o := int(be32(b, 8))
	n := int(be16(b, o+6)) / 2
	return forall(0, i, func(k int) bool { return subtable.StartCode[k] == be16(b, o+16+2*n+2*k) })
}

//@ inv (*SFNT).parseCmap for=l_parseCmap4
func i_parseCmap4Delta(sfnt *SFNT, subtable *cmapFormat4, i int) bool {
	b := sfnt.Tables["cmap"]
	o := int(be32(b, 8))
	n := int(be16(b, o+6)) / 2
	return forall(0, i, func(k int) bool { return subtable.IdDelta[k] == bei16(b, o+16+4*n+2*k) })
}

//@ inv (*SFNT).parseCmap for=l_parseCmap4
func i_parseCmap4Offset(sfnt *SFNT, subtable *cmapFormat4, i int) bool {
	b := sfnt.Tables["cmap"]
	o := int(be32(b, 8))
	n := int(be16(b, o+6)) / 2
	return forall(0, i, func(k int) bool { return subtable.IdRangeOffset[k] == be16(b, o+16+6*n+2*k) })
}

//@ inv (*SFNT).parseCmap for=l_parseCmap4
func i_parseCmap4Glyph(sfnt *SFNT, subtable *cmapFormat4, i int) bool {
	b := sfnt.Tables["cmap"]
	o := int(be32(b, 8))
	n := int(be16(b, o+6)) / 2
	return forall(0, i, func(k int) bool { return subtable.GlyphIdArray[k] == be16(b, o+16+8*n+2*k) })
}

//@ inv (*SFNT).parseCmap for=l_parseCmap4
func i_parseCmap4Index(sfnt *SFNT, subtable *cmapFormat4, i int) bool {
	b := sfnt.Tables["cmap"]
	o := int(be32(b, 8))
	n := int(be16(b, o+6)) / 2
	return forall(0, i, func(k int) bool {
		return subtable.IdRangeOffset[k] == 0 || subtable.EndCode[k] < subtable.StartCode[k] ||
			0 <= cmap4Index(subtable, k, int(subtable.StartCode[k])) && cmap4Index(subtable, k, int(subtable.EndCode[k])) < (int(be16(b, o+2))-16-8*n)/2
	})
}

// l_parseCmap6: a format 6 subtable is decoded as it is.
//
//@ lemma
//@ prop P07
//@ inline (*SFNT).parseCmap
//@ unroll (*SFNT).parseCmap#1 1
//@ unroll (*SFNT).parseCmap#2 1
//@ unroll (*SFNT).parseCmap#3 1
func l_parseCmap6(sfnt *SFNT) {
	b, o := cmapOne(sfnt, 6)
	err := sfnt.parseCmap()
	if err == nil {
		assert(len(sfnt.Cmap.Subtables) == 1)
		s, ok := sfnt.Cmap.Subtables[0].(*cmapFormat6)
		assert(ok && o+10 <= len(b))
		assert(s.FirstCode == be16(b, o+6))
		assert(len(s.GlyphIdArray) == int(be16(b, o+8)))
		assert(forall(0, len(s.GlyphIdArray), func(k int) bool { return s.GlyphIdArray[k] == be16(b, o+10+2*k) }))
	}
}

//@ inv (*SFNT).parseCmap for=l_parseCmap6
func i_parseCmap6(sfnt *SFNT, subtable *cmapFormat6, i int) bool {
	b := sfnt.Tables["cmap"]
	o := int(be32(b, 8))
	return forall(0, i, func(k int) bool { return subtable.GlyphIdArray[k] == be16(b, o+10+2*k) })
}

// l_parseCmap12: a format 12 subtable is decoded as it is.
//
//@ lemma
//@ prop P07
//@ inline (*SFNT).parseCmap
//@ unroll (*SFNT).parseCmap#1 1
//@ unroll (*SFNT).parseCmap#2 1
//@ unroll (*SFNT).parseCmap#3 1
func l_parseCmap12(sfnt *SFNT) {
	b, o := cmapOne(sfnt, 12)
	err := sfnt.parseCmap()
	if err == nil {
		assert(len(sfnt.Cmap.Subtables) == 1)
		s, ok := sfnt.Cmap.Subtables[0].(*cmapFormat12)
		assert(ok && o+16 <= len(b))
		n := int(be32(b, o+12))
		assert(okCmap12(s))
		assert(len(s.StartCharCode) == n)
		assert(forall(0, n, func(k int) bool { return s.StartCharCode[k] == be32(b, o+16+12*k) }))
		assert(forall(0, n, func(k int) bool { return s.EndCharCode[k] == be32(b, o+20+12*k) }))
		assert(forall(0, n, func(k int) bool { return s.StartGlyphID[k] == be32(b, o+24+12*k) }))
		assert(forall(0, n, func(k int) bool {
			return s.EndCharCode[k]-s.StartCharCode[k] < uint32(sfnt.Maxp.NumGlyphs) && s.StartCharCode[k] <= s.EndCharCode[k]
		}))
	}
}

//@ inv (*SFNT).parseCmap for=l_parseCmap12
func i_parseCmap12(sfnt *SFNT, subtable *cmapFormat12, i int) bool {
	b := sfnt.Tables["cmap"]
	o := int(be32(b, 8))
	return forall(0, i, func(k int) bool { return subtable.StartCharCode[k] == be32(b, o+16+12*k) })
}

//@ inv (*SFNT).parseCmap for=l_parseCmap12
func i_parseCmap12End(sfnt *SFNT, subtable *cmapFormat12, i int) bool {
	b := sfnt.Tables["cmap"]
	o := int(be32(b, 8))
	return forall(0, i, func(k int) bool { return subtable.EndCharCode[k] == be32(b, o+20+12*k) })
}

//@ inv (*SFNT).parseCmap for=l_parseCmap12
func i_parseCmap12Glyph(sfnt *SFNT, subtable *cmapFormat12, i int) bool {
	b := sfnt.Tables["cmap"]
	o := int(be32(b, 8))
	return forall(0, i, func(k int) bool { return subtable.StartGlyphID[k] == be32(b, o+24+12*k) })
}

//@ inv (*SFNT).parseCmap for=l_parseCmap12
func i_parseCmap12Order(sfnt *SFNT, subtable *cmapFormat12, i int) bool {
	return forall(0, i, func(k int) bool {
		return subtable.EndCharCode[k]-subtable.StartCharCode[k] < uint32(sfnt.Maxp.NumGlyphs) && subtable.StartCharCode[k] <= subtable.EndCharCode[k]
	})
}

// l_acceptCmap6: a format 6 subtable within the table is accepted.
//
//@ lemma
//@ prop P07
//@ inline (*SFNT).parseCmap
//@ unroll (*SFNT).parseCmap#1 1
//@ unroll (*SFNT).parseCmap#2 1
//@ unroll (*SFNT).parseCmap#3 1
func l_acceptCmap6(sfnt *SFNT) {
	b, o := cmapOne(sfnt, 6)
	requires(o+10 <= len(b))
	n := int(be16(b, o+8))
	requires(int(be16(b, o+2)) >= 10+2*n && o+int(be16(b, o+2)) <= len(b))
	err := sfnt.parseCmap()
	assert(err == nil)
}

// l_acceptCmap0: a format 0 subtable within the table whose glyphs exist is accepted.
//
//@ lemma
//@ prop P07
//@ inline (*SFNT).parseCmap
//@ unroll (*SFNT).parseCmap#1 1
//@ unroll (*SFNT).parseCmap#2 1
//@ unroll (*SFNT).parseCmap#3 1
func l_acceptCmap0(sfnt *SFNT) {
	b, o := cmapOne(sfnt, 0)
	requires(int(be16(b, o+2)) >= 262 && o+int(be16(b, o+2)) <= len(b))
	requires(sfnt.Maxp.NumGlyphs >= 256)
	err := sfnt.parseCmap()
	assert(err == nil)
}
