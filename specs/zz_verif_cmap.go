package font

// ---------------------------------------------------------------- cmap lookup

// cmap4Index: position in the glyph array for rune c of segment i.
func cmap4Index(s *cmapFormat4, i int, c int) int {
	return int(s.IdRangeOffset[i])/2 + c - int(s.StartCode[i]) - (len(s.StartCode) - i)
}

// okCmap4: what the lookup needs of a format 4 subtable, and parsing establishes.
func okCmap4(s *cmapFormat4) bool {
	n := len(s.StartCode)
	return n <= 65535 && len(s.EndCode) == n && len(s.IdDelta) == n && len(s.IdRangeOffset) == n &&
		forall(0, n, func(i int) bool {
			return s.IdRangeOffset[i] == 0 || s.EndCode[i] < s.StartCode[i] ||
				0 <= cmap4Index(s, i, int(s.StartCode[i])) && cmap4Index(s, i, int(s.EndCode[i])) < len(s.GlyphIdArray)
		})
}

// cmap4Has: segment i covers rune r.
func cmap4Has(s *cmapFormat4, i int, r rune) bool {
	return int(s.StartCode[i]) <= int(r) && int(r) <= int(s.EndCode[i])
}

// cmap4Glyph: what segment i maps the rune to.
func cmap4Glyph(s *cmapFormat4, i int, r rune) uint16 {
	if s.IdRangeOffset[i] == 0 {
		return uint16(int(s.IdDelta[i]) + int(r))
	}
	g := s.GlyphIdArray[cmap4Index(s, i, int(r))]
	if g == 0 {
		return 0
	}
	return uint16(int(g) + int(s.IdDelta[i]))
}

//@ contract (*cmapFormat0).Get
//@ prop P07 P03
func c_cmap0Get(s *cmapFormat0, r rune) (g uint16, ok bool) {
	g, ok = s.Get(r)
	ensures(ok == (0 <= r && r < 256))
	if ok {
		ensures(g == uint16(s.GlyphIdArray[r]))
	} else {
		ensures(g == 0)
	}
	return
}

//@ inv (*cmapFormat4).Get
func i_cmap4Get(s *cmapFormat4, r rune, i int) bool {
	return forall(0, i, func(k int) bool { return !cmap4Has(s, k, r) })
}

//@ contract (*cmapFormat4).Get
//@ prop P07 P03
//@ terminates
func c_cmap4Get(s *cmapFormat4, r rune) (g uint16, ok bool) {
	requires(okCmap4(s))
	g, ok = s.Get(r)
	if ok {
		ensures(0 <= r && r < 65536)
		ensures(exists(0, len(s.StartCode), func(i int) bool {
			return cmap4Has(s, i, r) && g == cmap4Glyph(s, i, r) && forall(0, i, func(k int) bool { return !cmap4Has(s, k, r) })
		}))
	} else {
		ensures(g == 0)
		ensures(forall(0, len(s.StartCode), func(i int) bool { return !cmap4Has(s, i, r) }))
	}
	return
}

//@ contract (*cmapFormat6).Get
//@ prop P07 P03
func c_cmap6Get(s *cmapFormat6, r rune) (g uint16, ok bool) {
	requires(len(s.GlyphIdArray) <= 65535)
	g, ok = s.Get(r)
	k := int(r) - int(s.FirstCode)
	ensures(ok == (0 <= k && k < len(s.GlyphIdArray)))
	if ok {
		ensures(g == s.GlyphIdArray[k])
	} else {
		ensures(g == 0)
	}
	return
}

func okCmap12(s *cmapFormat12) bool {
	return len(s.EndCharCode) == len(s.StartCharCode) && len(s.StartGlyphID) == len(s.StartCharCode)
}
func cmap12Has(s *cmapFormat12, i int, r rune) bool {
	return 0 <= r && s.StartCharCode[i] <= uint32(r) && uint32(r) <= s.EndCharCode[i]
}

// cmap12Glyph: what group i maps the rune to.
func cmap12Glyph(s *cmapFormat12, i int, r rune) uint16 {
	return uint16(int(s.StartGlyphID[i]) + int(r) - int(s.StartCharCode[i]))
}

//@ inv (*cmapFormat12).Get
func i_cmap12Get(s *cmapFormat12, r rune, i int) bool {
	return forall(0, i, func(k int) bool { return !cmap12Has(s, k, r) })
}

//@ contract (*cmapFormat12).Get
//@ prop P07 P03
//@ terminates
func c_cmap12Get(s *cmapFormat12, r rune) (g uint16, ok bool) {
	requires(okCmap12(s))
	g, ok = s.Get(r)
	if ok {
		ensures(exists(0, len(s.StartCharCode), func(i int) bool {
			return cmap12Has(s, i, r) && g == cmap12Glyph(s, i, r) &&
				forall(0, i, func(k int) bool { return !cmap12Has(s, k, r) })
		}))
	} else {
		ensures(g == 0)
		ensures(forall(0, len(s.StartCharCode), func(i int) bool { return !cmap12Has(s, i, r) }))
	}
	return
}

//@ contract (*cmapFormat14).Get
//@ prop P07 P03
func c_cmap14Get(s *cmapFormat14, r rune) (g uint16, ok bool) {
	g, ok = s.Get(r)
	v, has := s.glyphIDMap[r]
	ensures(ok == has && g == v)
	return
}

// okCmapSub: the subtable is one of the known formats and valid.
func okCmapSub(s cmapSubtable) bool {
	switch s := s.(type) {
	case *cmapFormat0:
		return s != nil
	case *cmapFormat4:
		return s != nil && okCmap4(s)
	case *cmapFormat6:
		return s != nil && len(s.GlyphIdArray) <= 65535
	case *cmapFormat12:
		return s != nil && okCmap12(s)
	case *cmapFormat14:
		return s != nil
	}
	return false
}

func okCmap(t *cmapTable) bool {
	return forall(0, len(t.Subtables), func(i int) bool { return okCmapSub(t.Subtables[i]) })
}

// cmapCovers: the subtable assigns a glyph to the character.
func cmapCovers(s cmapSubtable, r rune) bool {
	switch s := s.(type) {
	case *cmapFormat0:
		return 0 <= r && r < 256
	case *cmapFormat4:
		return exists(0, len(s.StartCode), func(i int) bool { return cmap4Has(s, i, r) })
	case *cmapFormat6:
		return 0 <= int(r)-int(s.FirstCode) && int(r)-int(s.FirstCode) < len(s.GlyphIdArray)
	case *cmapFormat12:
		return exists(0, len(s.StartCharCode), func(i int) bool { return cmap12Has(s, i, r) })
	case *cmapFormat14:
		_, ok := s.glyphIDMap[r]
		return ok
	}
	return false
}

// cmapMaps: the subtable assigns this glyph to the character.
func cmapMaps(s cmapSubtable, r rune, g uint16) bool {
	switch s := s.(type) {
	case *cmapFormat0:
		return 0 <= r && r < 256 && g == uint16(s.GlyphIdArray[r])
	case *cmapFormat4:
		return exists(0, len(s.StartCode), func(i int) bool {
			return cmap4Has(s, i, r) && g == cmap4Glyph(s, i, r) && forall(0, i, func(k int) bool { return !cmap4Has(s, k, r) })
		})
	case *cmapFormat6:
		k := int(r) - int(s.FirstCode)
		return 0 <= k && k < len(s.GlyphIdArray) && g == s.GlyphIdArray[k]
	case *cmapFormat12:
		return exists(0, len(s.StartCharCode), func(i int) bool {
			return cmap12Has(s, i, r) && g == cmap12Glyph(s, i, r) && forall(0, i, func(k int) bool { return !cmap12Has(s, k, r) })
		})
	case *cmapFormat14:
		v, ok := s.glyphIDMap[r]
		return ok && g == v
	}
	return false
}

//@ inv (*cmapTable).Get
func i_cmapGet(t *cmapTable, r rune, rangeindex int) bool {
	return forall(0, rangeindex+1, func(k int) bool { return !cmapCovers(t.Subtables[k], r) })
}

//@ contract (*cmapTable).Get
//@ prop P07 P03
func c_cmapGet(t *cmapTable, r rune) (g uint16) {
	requires(okCmap(t))
	g = t.Get(r)
	// without a subtable that assigns a glyph to the character, it is the missing glyph
	ensures(implies(forall(0, len(t.Subtables), func(k int) bool { return !cmapCovers(t.Subtables[k], r) }), g == 0))
	return
}

// cmapFirst: subtable i is the first that assigns a glyph to the character.
func cmapFirst(t *cmapTable, r rune, i int) bool {
	return 0 <= i && i < len(t.Subtables) && cmapCovers(t.Subtables[i], r) && forall(0, i, func(k int) bool { return !cmapCovers(t.Subtables[k], r) })
}

// l_cmapGet0: the first subtable that assigns a glyph to the character decides.
//
//@ lemma
//@ prop P07
//@ inline (*cmapTable).Get
func l_cmapGet0(t *cmapTable, r rune, i int) {
	requires(okCmap(t) && cmapFirst(t, r, i))
	s, ok := t.Subtables[i].(*cmapFormat0)
	requires(ok)
	g := t.Get(r)
	assert(cmapMaps(s, r, g))
}

//@ contract (*SFNT).GlyphIndex
//@ prop P07 P03
func c_GlyphIndex(sfnt *SFNT, r rune) (g uint16) {
	if sfnt.Cmap == nil {
		g = sfnt.GlyphIndex(r)
		ensures(g == 0)
		return
	}
	requires(okCmap(sfnt.Cmap))
	g = sfnt.GlyphIndex(r)
	ensures(implies(forall(0, len(sfnt.Cmap.Subtables), func(k int) bool { return !cmapCovers(sfnt.Cmap.Subtables[k], r) }), g == 0))
	return
}

//@ contract (*SFNT).parseCmap
//@ prop P07 P03
//@ cost 160
func c_parseCmap(sfnt *SFNT) (err error) {
	b, ok := sfnt.Tables["cmap"]
	requires(len(b) <= maxTable)
	modifies(&sfnt.Cmap)
	err = sfnt.parseCmap()
	if err == nil {
		ensures(ok && sfnt.Cmap != nil && fresh(sfnt.Cmap))
	}
	return
}
