package font

// ---------------------------------------------------------------- loca, glyf

// locaAt is entry i of the location table; ok tells whether the table has it.
func locaAt(t *locaTable, i int) uint32 {
	if t.Format == 0 {
		return 2 * uint32(be16(t.data, 2*i))
	}
	return be32(t.data, 4*i)
}
func locaHas(t *locaTable, i int) bool {
	return 0 <= i && (t.Format == 0 && 2*i+2 <= len(t.data) || t.Format == 1 && 4*i+4 <= len(t.data))
}

//@ contract (*locaTable).Get
//@ prop P05 P03
func c_locaGet(loca *locaTable, glyphID uint16) (off uint32, ok bool) {
	off, ok = loca.Get(glyphID)
	ensures(ok == locaHas(loca, int(glyphID)))
	if ok {
		ensures(off == locaAt(loca, int(glyphID)))
	} else {
		ensures(off == 0)
	}
	return
}

//@ contract (*SFNT).parseLoca
//@ prop P05 P03
func c_parseLoca(sfnt *SFNT) (err error) {
	b, ok := sfnt.Tables["loca"]
	modifies(&sfnt.Loca)
	err = sfnt.parseLoca()
	ensures((err == nil) == (ok && sfnt.Head != nil))
	if err == nil {
		ensures(sfnt.Loca != nil && fresh(sfnt.Loca))
		ensures(sfnt.Loca.Format == sfnt.Head.IndexToLocFormat && sameRef(sfnt.Loca.data, b))
	}
	return
}

//@ contract (*SFNT).parseGlyf
//@ prop P05 P03
func c_parseGlyf(sfnt *SFNT) (err error) {
	b, ok := sfnt.Tables["glyf"]
	requires(len(b) <= maxTable)
	modifies(&sfnt.Glyf)
	err = sfnt.parseGlyf()
	if err == nil {
		ensures(ok && sfnt.Loca != nil && sfnt.Maxp != nil)
		ensures(sfnt.Glyf != nil && fresh(sfnt.Glyf))
		ensures(sameRef(sfnt.Glyf.data, b) && sfnt.Glyf.loca == sfnt.Loca)
		ensures(implies(locaHas(sfnt.Loca, int(sfnt.Maxp.NumGlyphs)), int(locaAt(sfnt.Loca, int(sfnt.Maxp.NumGlyphs))) <= len(b)))
	} else if ok && sfnt.Loca != nil && sfnt.Maxp != nil {
		ensures(locaHas(sfnt.Loca, int(sfnt.Maxp.NumGlyphs)) && int(locaAt(sfnt.Loca, int(sfnt.Maxp.NumGlyphs))) > len(b))
	}
	return
}

//@ contract (*glyfTable).Get
//@ prop P05 P03
func c_glyfGet(glyf *glyfTable, glyphID uint16) (b []byte) {
	requires(glyf.loca != nil && len(glyf.data) <= maxTable)
	b = glyf.Get(glyphID)
	i := int(glyphID)
	if i < 65535 && locaHas(glyf.loca, i) && locaHas(glyf.loca, i+1) {
		start, end := int(locaAt(glyf.loca, i)), int(locaAt(glyf.loca, i+1))
		if start <= end && end <= len(glyf.data) {
			ensures(sameRef(b, glyf.data[start:end]) && (b == nil) == (glyf.data == nil))
		} else {
			ensures(b == nil)
		}
	} else if i < 65535 {
		ensures(b == nil)
	}
	return
}

//@ contract (*glyfTable).IsComposite
//@ prop P05 P03
func c_glyfIsComposite(glyf *glyfTable, glyphID uint16) (c bool) {
	requires(glyf.loca != nil && len(glyf.data) <= maxTable)
	c = glyf.IsComposite(glyphID)
	i := int(glyphID)
	if i < 65535 && locaHas(glyf.loca, i) && locaHas(glyf.loca, i+1) {
		start, end := int(locaAt(glyf.loca, i)), int(locaAt(glyf.loca, i+1))
		ensures(c == (start < end && end <= len(glyf.data) && glyf.data[start] >= 0x80))
	} else if i < 65535 {
		ensures(!c)
	}
	return
}

//@ contract glyfCompositeLength
//@ prop P05
func c_glyfCompositeLength(flags uint16) (length uint32, more bool) {
	length, more = glyfCompositeLength(flags)
	ensures(more == bit16(flags, 5))
	n := uint32(6) // flags, glyph index, two byte arguments
	if bit16(flags, 0) {
		n += 2
	}
	if bit16(flags, 3) {
		n += 2
	} else if bit16(flags, 6) {
		n += 4
	} else if bit16(flags, 7) {
		n += 8
	}
	ensures(length == n)
	return
}

//@ contract (*glyfTable).dependencies
//@ prop P03
func c_glyfDependencies(glyf *glyfTable, glyphID uint16, level int) (deps []uint16, err error) {
	requires(glyf.loca != nil && len(glyf.data) <= maxTable)
	requires(0 <= level && level <= 100)
	deps, err = glyf.dependencies(glyphID, level)
	if err == nil {
		ensures(1 <= len(deps) && deps[0] == glyphID)
		ensures(fresh(deps))
	}
	return
}

//@ inv (*glyfTable).dependencies
func i_dependencies(glyf *glyfTable, glyphID uint16, level int, deps []uint16) bool {
	return 1 <= len(deps) && deps[0] == glyphID
}

//@ contract (*glyfTable).Dependencies
//@ prop P03
//@ use c_glyfDependencies
func c_glyfDependencies0(glyf *glyfTable, glyphID uint16) (deps []uint16, err error) {
	requires(glyf.loca != nil && len(glyf.data) <= maxTable)
	deps, err = glyf.Dependencies(glyphID)
	if err == nil {
		ensures(1 <= len(deps) && deps[0] == glyphID)
	}
	return
}

// ---------------------------------------------------------------- kern

func kernKey(l, r uint16) uint32 { return uint32(l)<<16 | uint32(r) }

// sortedPairs: increasing keys, stated so that any two positions can be compared.
func sortedPairs(p []kernPair) bool {
	return forall(0, len(p), func(i int) bool {
		return forall(0, i, func(j int) bool { return p[j].Key <= p[i].Key })
	})
}

// kernIs: k is the value of a pair with this key, or zero when there is none.
func kernIs(p []kernPair, key uint32, k int16) bool {
	return exists(0, len(p), func(i int) bool { return p[i].Key == key && p[i].Value == k }) ||
		k == 0 && forall(0, len(p), func(i int) bool { return p[i].Key != key })
}

//@ inv (*kernFormat0).Get
func i_kernGet(subtable *kernFormat0, lo, hi int, key uint32) bool {
	return 0 <= lo && lo <= hi && hi <= len(subtable.Pairs) &&
		forall(0, lo, func(i int) bool { return subtable.Pairs[i].Key < key }) &&
		forall(hi, len(subtable.Pairs), func(i int) bool { return key < subtable.Pairs[i].Key })
}

//@ contract (*kernFormat0).Get
//@ prop P09
//@ terminates
func c_kernGet(subtable *kernFormat0, l, r uint16) (k int16) {
	requires(sortedPairs(subtable.Pairs))
	k = subtable.Get(l, r)
	ensures(kernIs(subtable.Pairs, kernKey(l, r), k))
	return
}

// okKern: the pairs of every subtable are sorted, as the lookup needs.
func okKern(t *kernTable) bool {
	return forall(0, len(t.Subtables), func(s int) bool { return sortedPairs(t.Subtables[s].Pairs) })
}

//@ inv (*kernTable).Get
func i_kernTableGet(kern *kernTable, l, r uint16, k int16, rangeindex int) bool {
	return -1 <= rangeindex && rangeindex <= len(kern.Subtables) && implies(rangeindex == -1, k == 0) &&
		implies(rangeindex == 0 && !kern.Subtables[0].Coverage[1], kernIs(kern.Subtables[0].Pairs, kernKey(l, r), k)) &&
		implies(rangeindex == 0 && kern.Subtables[0].Coverage[1], 0 <= k)
}

//@ contract (*kernTable).Get
//@ prop P09
func c_kernTableGet(kern *kernTable, l, r uint16) (k int16) {
	requires(okKern(kern))
	k = kern.Get(l, r)
	// a lone subtable of kerning values decides; nothing else contributes
	if len(kern.Subtables) == 0 {
		ensures(k == 0)
	} else if len(kern.Subtables) == 1 {
		if !kern.Subtables[0].Coverage[1] {
			ensures(kernIs(kern.Subtables[0].Pairs, kernKey(l, r), k))
		} else {
			ensures(0 <= k)
		}
	}
	return
}

// strictPairs: no key occurs twice.
func strictPairs(p []kernPair) bool {
	return forall(0, len(p), func(i int) bool {
		return forall(0, i, func(j int) bool { return p[j].Key < p[i].Key })
	})
}

// kernStep: the running value once a subtable has been taken into account.
func kernStep(t kernFormat0, l, r uint16, k int16) int16 {
	v := t.Get(l, r)
	if !t.Coverage[1] {
		return k + v
	} else if k < v {
		return v
	}
	return k
}

// l_kernTwo: subtables are taken into account in order, values add up and a minimum bounds from below.
//
//@ lemma
//@ prop P09
//@ inline (*kernTable).Get
//@ unroll (*kernTable).Get 2
func l_kernTwo(kern *kernTable, l, r uint16) {
	requires(okKern(kern) && len(kern.Subtables) == 2)
	requires(strictPairs(kern.Subtables[0].Pairs) && strictPairs(kern.Subtables[1].Pairs))
	k := kern.Get(l, r)
	assert(k == kernStep(kern.Subtables[1], l, r, kernStep(kern.Subtables[0], l, r, 0)))
}

//@ contract (*SFNT).parseKern
//@ prop P09 P03
func c_parseKern(sfnt *SFNT) (err error) {
	b, ok := sfnt.Tables["kern"]
	requires(len(b) <= maxTable)
	modifies(&sfnt.Kern)
	err = sfnt.parseKern()
	if err == nil {
		ensures(ok && 4 <= len(b))
		ensures(sfnt.Kern != nil && fresh(sfnt.Kern))
		ensures(okKern(sfnt.Kern))
	}
	return
}

//@ inv (*SFNT).parseKern
func i_parseKernPairs(subtable *kernFormat0, sorted bool, i int) bool {
	return implies(sorted, forall(0, i, func(x int) bool {
		return forall(0, x, func(y int) bool { return subtable.Pairs[y].Key <= subtable.Pairs[x].Key })
	}))
}

//@ inv (*SFNT).parseKern
func i_parseKernTables(sfnt *SFNT) bool { return okKern(sfnt.Kern) }


// l_kernPairs: every pair of a table with one subtable is found in the parsed table, which has no further pairs.
//
//@ lemma
//@ prop P09
//@ inline (*SFNT).parseKern
//@ unroll parseKern#1 1
//@ perm
//@ rounds 5
func l_kernPairs(sfnt *SFNT, i int) {
	b, ok := sfnt.Tables["kern"]
	requires(ok && 18 <= len(b) && len(b) <= maxTable)
	requires(be16(b, 0) == 0 && be16(b, 2) == 1 && be16(b, 4) == 0 && b[8] == 0)
	err := sfnt.parseKern()
	if err == nil {
		n := int(be16(b, 10))
		assert(len(sfnt.Kern.Subtables) == 1)
		p := sfnt.Kern.Subtables[0].Pairs
		assert(len(p) == n && 18+6*n <= len(b))
		if 0 <= i && i < n {
			hint(i)
			assert(exists(0, n, func(j int) bool { return p[j].Key == be32(b, 18+6*i) && p[j].Value == bei16(b, 22+6*i) }))
		}
	}
}

//@ inv (*SFNT).parseKern
func i_parseKernRead(sfnt *SFNT, subtable *kernFormat0, i int) bool {
	b := sfnt.Tables["kern"]
	return i <= len(subtable.Pairs) && 18+6*i <= len(b) && forall(0, i, func(k int) bool {
		return subtable.Pairs[k].Key == be32(b, 18+6*k) && subtable.Pairs[k].Value == bei16(b, 22+6*k)
	})
}
