package font

// ---------------------------------------------------------------- checksum and flag words

// specSum is the sum, modulo 2^32, of the first n big-endian 32-bit words.
//
//@ recursive
func specSum(b []byte, n int) uint32 {
	if n <= 0 {
		return 0
	}
	return specSum(b, n-1) + be32(b, 4*(n-1))
}

//@ inv calcChecksum
func i_calcChecksum(b []byte, i int, sum uint32) bool {
	return sum == specSum(b, i/4) && i%4 == 0
}

//@ contract calcChecksum
//@ prop P01
//@ terminates
func c_calcChecksum(b []byte) (s uint32) {
	requires(len(b)%4 == 0)
	s = calcChecksum(b)
	ensures(s == specSum(b, len(b)/4))
	return
}

//@ contract Uint16ToFlags
//@ prop P01
func c_Uint16ToFlags(v uint16) (f [16]bool) {
	f = Uint16ToFlags(v)
	ensures(forall(0, 16, func(i int) bool { return f[i] == bit16(v, i) }))
	return
}

//@ contract Uint8ToFlags
//@ prop P01
func c_Uint8ToFlags(v uint8) (f [8]bool) {
	f = Uint8ToFlags(v)
	ensures(forall(0, 8, func(i int) bool { return f[i] == (v&(1<<uint(i)) != 0) }))
	return
}

//@ contract flagsToUint8
//@ prop P01
func c_flagsToUint8(f [8]bool) (v uint8) {
	v = flagsToUint8(f)
	ensures(forall(0, 8, func(i int) bool { return f[i] == (v&(1<<uint(i)) != 0) }))
	return
}

//@ contract uint32ToString
//@ prop P01
func c_uint32ToString(v uint32) (s string) {
	s = uint32ToString(v)
	ensures(len(s) == 4)
	ensures(s[0] == byte(v>>24) && s[1] == byte(v>>16) && s[2] == byte(v>>8) && s[3] == byte(v))
	return
}

// maxTable: an OpenType file, and so each of its tables, is shorter than 2^32 bytes (parseSFNT rejects longer ones).
const maxTable = 1<<32 - 1

// ---------------------------------------------------------------- head, hhea, vhea, maxp

//@ contract (*SFNT).parseHead
//@ prop P02 P03
func c_parseHead(sfnt *SFNT) (err error) {
	b, ok := sfnt.Tables["head"]
	modifies(&sfnt.Head)
	err = sfnt.parseHead()
	if err == nil {
		ensures(ok && len(b) == 54)
		h := sfnt.Head
		ensures(h != nil && fresh(h))
		ensures(be32(b, 12) == 0x5F0F3CF5)
		ensures(h.FontRevision == be32(b, 4))
		ensures(forall(0, 16, func(i int) bool { return h.Flags[i] == bit16(be16(b, 16), i) }))
		ensures(h.UnitsPerEm == be16(b, 18))
		ensures(h.XMin == bei16(b, 36) && h.YMin == bei16(b, 38))
		ensures(h.XMax == bei16(b, 40) && h.YMax == bei16(b, 42))
		ensures(forall(0, 16, func(i int) bool { return h.MacStyle[i] == bit16(be16(b, 44), i) }))
		ensures(h.LowestRecPPEM == be16(b, 46))
		ensures(h.FontDirectionHint == bei16(b, 48))
		ensures(h.IndexToLocFormat == bei16(b, 50))
		ensures(h.IndexToLocFormat == 0 || h.IndexToLocFormat == 1)
		ensures(h.GlyphDataFormat == bei16(b, 52))
	} else if ok && len(b) == 54 {
		// a well-formed table is accepted
		ensures(!(be32(b, 0) == 0x00010000 && be32(b, 12) == 0x5F0F3CF5 && be64(b, 20) < 1<<63 && be64(b, 28) < 1<<63 && be16(b, 50) <= 1))
	}
	return
}

//@ contract (*SFNT).parseHhea
//@ prop P02 P03
func c_parseHhea(sfnt *SFNT) (err error) {
	b, ok := sfnt.Tables["hhea"]
	modifies(&sfnt.Hhea)
	err = sfnt.parseHhea()
	if err == nil {
		ensures(ok && len(b) == 36 && sfnt.Maxp != nil)
		h := sfnt.Hhea
		ensures(h != nil && fresh(h))
		ensures(h.Ascender == bei16(b, 4) && h.Descender == bei16(b, 6) && h.LineGap == bei16(b, 8))
		ensures(h.AdvanceWidthMax == be16(b, 10))
		ensures(h.MinLeftSideBearing == bei16(b, 12) && h.MinRightSideBearing == bei16(b, 14) && h.XMaxExtent == bei16(b, 16))
		ensures(h.CaretSlopeRise == bei16(b, 18) && h.CaretSlopeRun == bei16(b, 20) && h.CaretOffset == bei16(b, 22))
		ensures(h.MetricDataFormat == bei16(b, 32))
		ensures(h.NumberOfHMetrics == be16(b, 34))
		ensures(1 <= h.NumberOfHMetrics && h.NumberOfHMetrics <= sfnt.Maxp.NumGlyphs)
	} else if ok && len(b) == 36 && sfnt.Maxp != nil {
		ensures(!(be32(b, 0) == 0x00010000 && 1 <= be16(b, 34) && be16(b, 34) <= sfnt.Maxp.NumGlyphs))
	}
	return
}

//@ contract (*SFNT).parseVhea
//@ prop P02 P03
func c_parseVhea(sfnt *SFNT) (err error) {
	b, ok := sfnt.Tables["vhea"]
	modifies(&sfnt.Vhea)
	err = sfnt.parseVhea()
	if err == nil {
		ensures(ok && len(b) == 36 && sfnt.Maxp != nil)
		h := sfnt.Vhea
		ensures(h != nil && fresh(h))
		ensures(h.Ascender == bei16(b, 4) && h.Descender == bei16(b, 6) && h.LineGap == bei16(b, 8))
		ensures(h.AdvanceHeightMax == bei16(b, 10))
		ensures(h.MinTopSideBearing == bei16(b, 12) && h.MinBottomSideBearing == bei16(b, 14) && h.YMaxExtent == bei16(b, 16))
		ensures(h.CaretSlopeRise == bei16(b, 18) && h.CaretSlopeRun == bei16(b, 20) && h.CaretOffset == bei16(b, 22))
		ensures(h.MetricDataFormat == bei16(b, 32))
		ensures(h.NumberOfVMetrics == be16(b, 34))
		ensures(1 <= h.NumberOfVMetrics && h.NumberOfVMetrics <= sfnt.Maxp.NumGlyphs)
	} else if ok && len(b) == 36 && sfnt.Maxp != nil {
		ensures(!((be32(b, 0) == 0x00010000 || be32(b, 0) == 0x00010001) && 1 <= be16(b, 34) && be16(b, 34) <= sfnt.Maxp.NumGlyphs))
	}
	return
}

//@ contract (*SFNT).parseMaxp
//@ prop P02 P03
func c_parseMaxp(sfnt *SFNT) (err error) {
	b, ok := sfnt.Tables["maxp"]
	modifies(&sfnt.Maxp)
	err = sfnt.parseMaxp()
	if err == nil {
		m := sfnt.Maxp
		ensures(ok && m != nil && fresh(m))
		ensures(len(b) == 6 || len(b) == 32)
		ensures(m.Version == be32(b, 0) && m.NumGlyphs == be16(b, 4))
		ensures((len(b) == 6) == (m.Version == 0x00005000))
		ensures((len(b) == 32) == (m.Version == 0x00010000))
		if len(b) == 32 {
			ensures(!sfnt.IsCFF)
			ensures(m.MaxPoints == be16(b, 6) && m.MaxContours == be16(b, 8))
			ensures(m.MaxCompositePoints == be16(b, 10) && m.MaxCompositeContours == be16(b, 12))
			ensures(m.MaxZones == be16(b, 14) && m.MaxTwilightPoints == be16(b, 16) && m.MaxStorage == be16(b, 18))
			ensures(m.MaxFunctionDefs == be16(b, 20) && m.MaxInstructionDefs == be16(b, 22) && m.MaxStackElements == be16(b, 24))
			ensures(m.MaxSizeOfInstructions == be16(b, 26) && m.MaxComponentElements == be16(b, 28) && m.MaxComponentDepth == be16(b, 30))
		} else {
			ensures(!sfnt.IsTrueType)
		}
	} else {
		ensures(!(ok && len(b) == 6 && be32(b, 0) == 0x00005000 && !sfnt.IsTrueType))
		ensures(!(ok && len(b) == 32 && be32(b, 0) == 0x00010000 && !sfnt.IsCFF))
	}
	return
}

//@ contract (*maxpTable).Write
//@ prop P06
func c_maxpWrite(maxp *maxpTable) (b []byte) {
	b = maxp.Write()
	ensures(len(b) == 6 || len(b) == 32)
	ensures((len(b) == 32) == (maxp.Version == 0x00010000))
	ensures(be32(b, 0) == maxp.Version && be16(b, 4) == maxp.NumGlyphs)
	if len(b) == 32 {
		ensures(maxp.MaxPoints == be16(b, 6) && maxp.MaxContours == be16(b, 8))
		ensures(maxp.MaxCompositePoints == be16(b, 10) && maxp.MaxCompositeContours == be16(b, 12))
		ensures(maxp.MaxZones == be16(b, 14) && maxp.MaxTwilightPoints == be16(b, 16) && maxp.MaxStorage == be16(b, 18))
		ensures(maxp.MaxFunctionDefs == be16(b, 20) && maxp.MaxInstructionDefs == be16(b, 22) && maxp.MaxStackElements == be16(b, 24))
		ensures(maxp.MaxSizeOfInstructions == be16(b, 26) && maxp.MaxComponentElements == be16(b, 28) && maxp.MaxComponentDepth == be16(b, 30))
	}
	return
}

// ---------------------------------------------------------------- hmtx, vmtx

// okHmtx: the glyph metrics cover numGlyphs glyphs.
func okHmtx(h *hmtxTable, numGlyphs uint16) bool {
	return 1 <= len(h.HMetrics) && len(h.HMetrics) <= int(numGlyphs) && len(h.LeftSideBearings) == int(numGlyphs)-len(h.HMetrics)
}
func okVmtx(h *vmtxTable, numGlyphs uint16) bool {
	return 1 <= len(h.VMetrics) && len(h.VMetrics) <= int(numGlyphs) && len(h.TopSideBearings) == int(numGlyphs)-len(h.VMetrics)
}

//@ inv (*SFNT).parseHmtx
func i_parseHmtx(sfnt *SFNT, b []byte, i int) bool {
	return forall(0, i, func(k int) bool {
		return sfnt.Hmtx.HMetrics[k].AdvanceWidth == be16(b, 4*k) && sfnt.Hmtx.HMetrics[k].LeftSideBearing == bei16(b, 4*k+2)
	})
}

//@ inv (*SFNT).parseHmtx
func i_parseHmtx2(sfnt *SFNT, b []byte, i int) bool {
	return forall(0, i, func(k int) bool { return sfnt.Hmtx.LeftSideBearings[k] == bei16(b, 4*int(sfnt.Hhea.NumberOfHMetrics)+2*k) })
}

//@ contract (*SFNT).parseHmtx
//@ prop P04 P03
func c_parseHmtx(sfnt *SFNT) (err error) {
	b, ok := sfnt.Tables["hmtx"]
	requires(len(b) <= maxTable)
	requires(implies(sfnt.Maxp != nil && sfnt.Hhea != nil, 1 <= sfnt.Hhea.NumberOfHMetrics && sfnt.Hhea.NumberOfHMetrics <= sfnt.Maxp.NumGlyphs))
	modifies(&sfnt.Hmtx)
	err = sfnt.parseHmtx()
	if err == nil {
		ensures(ok && sfnt.Maxp != nil && sfnt.Hhea != nil)
		h := sfnt.Hmtx
		n, m := int(sfnt.Maxp.NumGlyphs), int(sfnt.Hhea.NumberOfHMetrics)
		ensures(h != nil && fresh(h))
		ensures(len(b) == 4*m+2*(n-m))
		ensures(len(h.HMetrics) == m && okHmtx(h, sfnt.Maxp.NumGlyphs))
		ensures(forall(0, m, func(k int) bool {
			return h.HMetrics[k].AdvanceWidth == be16(b, 4*k) && h.HMetrics[k].LeftSideBearing == bei16(b, 4*k+2)
		}))
		ensures(forall(0, n-m, func(k int) bool { return h.LeftSideBearings[k] == bei16(b, 4*m+2*k) }))
	} else if ok && sfnt.Maxp != nil && sfnt.Hhea != nil {
		n, m := int(sfnt.Maxp.NumGlyphs), int(sfnt.Hhea.NumberOfHMetrics)
		ensures(len(b) != 4*m+2*(n-m))
	}
	return
}

//@ inv (*SFNT).parseVmtx
func i_parseVmtx(sfnt *SFNT, b []byte, i int) bool {
	return forall(0, i, func(k int) bool {
		return sfnt.Vmtx.VMetrics[k].AdvanceHeight == be16(b, 4*k) && sfnt.Vmtx.VMetrics[k].TopSideBearing == bei16(b, 4*k+2)
	})
}

//@ inv (*SFNT).parseVmtx
func i_parseVmtx2(sfnt *SFNT, b []byte, i int) bool {
	return forall(0, i, func(k int) bool { return sfnt.Vmtx.TopSideBearings[k] == bei16(b, 4*int(sfnt.Vhea.NumberOfVMetrics)+2*k) })
}

//@ contract (*SFNT).parseVmtx
//@ prop P04 P03
func c_parseVmtx(sfnt *SFNT) (err error) {
	b, ok := sfnt.Tables["vmtx"]
	requires(len(b) <= maxTable)
	requires(implies(sfnt.Maxp != nil && sfnt.Vhea != nil, 1 <= sfnt.Vhea.NumberOfVMetrics && sfnt.Vhea.NumberOfVMetrics <= sfnt.Maxp.NumGlyphs))
	modifies(&sfnt.Vmtx)
	err = sfnt.parseVmtx()
	if err == nil {
		ensures(ok && sfnt.Maxp != nil && sfnt.Vhea != nil)
		h := sfnt.Vmtx
		n, m := int(sfnt.Maxp.NumGlyphs), int(sfnt.Vhea.NumberOfVMetrics)
		ensures(h != nil && fresh(h))
		ensures(len(b) == 4*m+2*(n-m))
		ensures(len(h.VMetrics) == m && okVmtx(h, sfnt.Maxp.NumGlyphs))
		ensures(forall(0, m, func(k int) bool {
			return h.VMetrics[k].AdvanceHeight == be16(b, 4*k) && h.VMetrics[k].TopSideBearing == bei16(b, 4*k+2)
		}))
		ensures(forall(0, n-m, func(k int) bool { return h.TopSideBearings[k] == bei16(b, 4*m+2*k) }))
	} else if ok && sfnt.Maxp != nil && sfnt.Vhea != nil {
		n, m := int(sfnt.Maxp.NumGlyphs), int(sfnt.Vhea.NumberOfVMetrics)
		ensures(len(b) != 4*m+2*(n-m))
	}
	return
}

//@ contract (*hmtxTable).Advance
//@ prop P04
func c_hmtxAdvance(hmtx *hmtxTable, glyphID uint16) (a uint16) {
	requires(1 <= len(hmtx.HMetrics) && len(hmtx.HMetrics) <= 65535)
	a = hmtx.Advance(glyphID)
	if int(glyphID) < len(hmtx.HMetrics) {
		ensures(a == hmtx.HMetrics[glyphID].AdvanceWidth)
	} else {
		ensures(a == hmtx.HMetrics[len(hmtx.HMetrics)-1].AdvanceWidth)
	}
	return
}

//@ contract (*hmtxTable).LeftSideBearing
//@ prop P04
func c_hmtxLSB(hmtx *hmtxTable, glyphID uint16) (a int16) {
	requires(len(hmtx.HMetrics) <= 65535)
	requires(int(glyphID) < len(hmtx.HMetrics)+len(hmtx.LeftSideBearings))
	a = hmtx.LeftSideBearing(glyphID)
	if int(glyphID) < len(hmtx.HMetrics) {
		ensures(a == hmtx.HMetrics[glyphID].LeftSideBearing)
	} else {
		ensures(a == hmtx.LeftSideBearings[int(glyphID)-len(hmtx.HMetrics)])
	}
	return
}

//@ contract (*vmtxTable).Advance
//@ prop P04
func c_vmtxAdvance(vmtx *vmtxTable, glyphID uint16) (a uint16) {
	requires(1 <= len(vmtx.VMetrics) && len(vmtx.VMetrics) <= 65535)
	a = vmtx.Advance(glyphID)
	if int(glyphID) < len(vmtx.VMetrics) {
		ensures(a == vmtx.VMetrics[glyphID].AdvanceHeight)
	} else {
		ensures(a == vmtx.VMetrics[len(vmtx.VMetrics)-1].AdvanceHeight)
	}
	return
}

//@ contract (*vmtxTable).TopSideBearing
//@ prop P04
func c_vmtxTSB(vmtx *vmtxTable, glyphID uint16) (a int16) {
	requires(len(vmtx.VMetrics) <= 65535)
	requires(int(glyphID) < len(vmtx.VMetrics)+len(vmtx.TopSideBearings))
	a = vmtx.TopSideBearing(glyphID)
	if int(glyphID) < len(vmtx.VMetrics) {
		ensures(a == vmtx.VMetrics[glyphID].TopSideBearing)
	} else {
		ensures(a == vmtx.TopSideBearings[int(glyphID)-len(vmtx.VMetrics)])
	}
	return
}

//@ contract (*SFNT).GlyphAdvance
//@ prop P04
func c_GlyphAdvance(sfnt *SFNT, glyphID uint16) (a uint16) {
	h := sfnt.Hmtx
	requires(h != nil && 1 <= len(h.HMetrics) && len(h.HMetrics) <= 65535)
	a = sfnt.GlyphAdvance(glyphID)
	ensures(a == h.HMetrics[min(int(glyphID), len(h.HMetrics)-1)].AdvanceWidth)
	return
}

//@ contract (*SFNT).GlyphVerticalAdvance
//@ prop P04
func c_GlyphVerticalAdvance(sfnt *SFNT, glyphID uint16) (a uint16) {
	h := sfnt.Vmtx
	requires(implies(h != nil, 1 <= len(h.VMetrics) && len(h.VMetrics) <= 65535))
	requires(implies(h == nil, sfnt.Head != nil))
	a = sfnt.GlyphVerticalAdvance(glyphID)
	if h != nil {
		ensures(a == h.VMetrics[min(int(glyphID), len(h.VMetrics)-1)].AdvanceHeight)
	} else {
		ensures(a == sfnt.Head.UnitsPerEm)
	}
	return
}
