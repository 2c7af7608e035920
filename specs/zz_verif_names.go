package font

// ---------------------------------------------------------------- name

// sameRecord: two name records are the same, including the memory that holds the string.
func sameRecord(a, b nameRecord) bool {
	return a.Platform == b.Platform && a.Encoding == b.Encoding && a.Language == b.Language && a.Name == b.Name && len(a.Value) == len(b.Value) && sameRef(a.Value, b.Value)
}

// specNames: how many of the first n records have this name.
//
//@ recursive
func specNames(rs []nameRecord, name NameID, n int) int {
	if n <= 0 {
		return 0
	}
	if rs[n-1].Name == name {
		return specNames(rs, name, n-1) + 1
	}
	return specNames(rs, name, n-1)
}

//@ contract (*nameTable).Get
//@ prop P29 P03
func c_nameGet(t *nameTable, name NameID) (records []nameRecord) {
	records = t.Get(name)
	ensures(len(records) == specNames(t.NameRecord, name, len(t.NameRecord)))
	ensures(forall(0, len(records), func(i int) bool { return records[i].Name == name }))
	// every record with the name is returned, in order
	ensures(forall(0, len(t.NameRecord), func(k int) bool {
		i := specNames(t.NameRecord, name, k)
		return implies(t.NameRecord[k].Name == name, 0 <= i && i < len(records) && sameRecord(records[i], t.NameRecord[k]))
	}))
	return
}

//@ inv (*nameTable).Get
func i_nameGet(t *nameTable, name NameID, records []nameRecord, rangeindex int) bool {
	return len(records) == specNames(t.NameRecord, name, rangeindex+1)
}

//@ inv (*nameTable).Get
func i_nameGet1(t *nameTable, name NameID, records []nameRecord, rangeindex int) bool {
	return forall(0, len(records), func(i int) bool { return records[i].Name == name })
}

//@ inv (*nameTable).Get
func i_nameGet2(t *nameTable, name NameID, records []nameRecord, rangeindex int) bool {
	return forall(0, rangeindex+1, func(k int) bool {
		i := specNames(t.NameRecord, name, k)
		return implies(t.NameRecord[k].Name == name, 0 <= i && i < len(records) && sameRecord(records[i], t.NameRecord[k]))
	})
}

// nameAt: the string of n bytes at offset o of the storage at s of the table b.
func nameAt(v, b []byte, s, n, o int) bool {
	return s+o+n <= len(b) && len(v) == n && sameBytes(v, b[s+o:s+o+n])
}

// l_parseName: a table of which the records are complete, followed by the strings and have their strings within
// the table is accepted.
//
//@ lemma
//@ prop P29
//@ inline (*SFNT).parseName
func l_parseName(sfnt *SFNT) {
	b, ok := sfnt.Tables["name"]
	requires(ok && 6 <= len(b) && len(b) <= maxTable)
	n, s := int(be16(b, 2)), int(be16(b, 4))
	requires(be16(b, 0) == 0 && s == 6+12*n && s <= len(b))
	requires(forall(0, n, func(i int) bool { return s+int(be16(b, 16+12*i))+int(be16(b, 14+12*i)) <= len(b) }))
	err := sfnt.parseName()
	assert(err == nil)
}

// l_parseNameLang: the same for tables with language tags.
//
//@ lemma
//@ prop P29
//@ inline (*SFNT).parseName
func l_parseNameLang(sfnt *SFNT) {
	b, ok := sfnt.Tables["name"]
	requires(ok && 6 <= len(b) && len(b) <= maxTable)
	n, s := int(be16(b, 2)), int(be16(b, 4))
	requires(be16(b, 0) == 1 && 8+12*n <= len(b))
	m := int(be16(b, 6+12*n))
	requires(s == 8+12*n+4*m && s <= len(b))
	requires(forall(0, n, func(i int) bool { return s+int(be16(b, 16+12*i))+int(be16(b, 14+12*i)) <= len(b) }))
	requires(forall(0, m, func(i int) bool { return s+int(be16(b, 10+12*n+4*i))+int(be16(b, 8+12*n+4*i)) <= len(b) }))
	err := sfnt.parseName()
	assert(err == nil)
}

//@ contract (*SFNT).parseName
//@ prop P29 P03
func c_parseName(sfnt *SFNT) (err error) {
	b, ok := sfnt.Tables["name"]
	requires(len(b) <= maxTable)
	modifies(&sfnt.Name)
	err = sfnt.parseName()
	if err == nil {
		t := sfnt.Name
		ensures(ok && 6 <= len(b) && be16(b, 0) <= 1 && t != nil && fresh(t))
		n, s := int(be16(b, 2)), int(be16(b, 4))
		ensures(s <= len(b) && 6+12*n <= len(b) && len(t.NameRecord) == n)
		if be16(b, 0) == 0 {
			ensures(s == 6+12*n && len(t.LangTag) == 0)
		} else {
			ensures(8+12*n <= len(b))
			m := int(be16(b, 6+12*n))
			ensures(s == 8+12*n+4*m && len(t.LangTag) == m)
		}
	}
	return
}

// l_nameFields: the numbers of every record of an accepted table.
//
//@ lemma
//@ prop P29
//@ inline (*SFNT).parseName
func l_nameFields(sfnt *SFNT) {
	b := sfnt.Tables["name"]
	requires(len(b) <= maxTable)
	if sfnt.parseName() == nil {
		t := sfnt.Name
		assert(forall(0, int(be16(b, 2)), func(i int) bool {
			return int(t.NameRecord[i].Platform) == int(be16(b, 6+12*i)) && int(t.NameRecord[i].Encoding) == int(be16(b, 8+12*i)) &&
				t.NameRecord[i].Language == be16(b, 10+12*i) && int(t.NameRecord[i].Name) == int(be16(b, 12+12*i))
		}))
	}
}

// l_nameValues: the string of every record of an accepted table.
//
//@ lemma
//@ prop P29
//@ inline (*SFNT).parseName
func l_nameValues(sfnt *SFNT) {
	b := sfnt.Tables["name"]
	requires(len(b) <= maxTable)
	if sfnt.parseName() == nil {
		t := sfnt.Name
		assert(forall(0, int(be16(b, 2)), func(i int) bool {
			return nameAt(t.NameRecord[i].Value, b, int(be16(b, 4)), int(be16(b, 14+12*i)), int(be16(b, 16+12*i)))
		}))
	}
}

// l_nameTags: the string of every language tag of an accepted table.
//
//@ lemma
//@ prop P29
//@ inline (*SFNT).parseName
func l_nameTags(sfnt *SFNT) {
	b := sfnt.Tables["name"]
	requires(len(b) <= maxTable)
	if sfnt.parseName() == nil && be16(b, 0) == 1 {
		t := sfnt.Name
		n := int(be16(b, 2))
		assert(forall(0, int(be16(b, 6+12*n)), func(i int) bool {
			return nameAt(t.LangTag[i].Value, b, int(be16(b, 4)), int(be16(b, 8+12*n+4*i)), int(be16(b, 10+12*n+4*i)))
		}))
	}
}

//@ inv (*SFNT).parseName loop=1 for=l_nameFields
func i_parseName(sfnt *SFNT, i int) bool {
	b := sfnt.Tables["name"]
	t := sfnt.Name
	return forall(0, i, func(k int) bool {
		return int(t.NameRecord[k].Platform) == int(be16(b, 6+12*k)) && int(t.NameRecord[k].Encoding) == int(be16(b, 8+12*k)) &&
			t.NameRecord[k].Language == be16(b, 10+12*k) && int(t.NameRecord[k].Name) == int(be16(b, 12+12*k))
	})
}

//@ inv (*SFNT).parseName loop=1 for=l_nameValues
func i_parseNameValue(sfnt *SFNT, i int) bool {
	b := sfnt.Tables["name"]
	t := sfnt.Name
	return forall(0, i, func(k int) bool {
		return nameAt(t.NameRecord[k].Value, b, int(be16(b, 4)), int(be16(b, 14+12*k)), int(be16(b, 16+12*k)))
	})
}

//@ inv (*SFNT).parseName loop=1 for=l_parseName
func i_parseNameBound(sfnt *SFNT, i int) bool {
	b := sfnt.Tables["name"]
	return len(b) < 18+12*i || i < 0 || int(be16(b, 2)) <= i || int(be16(b, 4))+int(be16(b, 16+12*i))+int(be16(b, 14+12*i)) <= len(b)
}

//@ inv (*SFNT).parseName loop=2 for=l_parseName
func i_parseNameBound2(sfnt *SFNT, i int) bool {
	b := sfnt.Tables["name"]
	n := int(be16(b, 2))
	return len(b) < 12+12*n+4*i || i < 0 || int(be16(b, 6+12*n)) <= i || int(be16(b, 4))+int(be16(b, 10+12*n+4*i))+int(be16(b, 8+12*n+4*i)) <= len(b)
}

//@ inv (*SFNT).parseName loop=2 for=l_nameTags
func i_parseNameLang(sfnt *SFNT, i int) bool {
	b := sfnt.Tables["name"]
	t := sfnt.Name
	n := int(be16(b, 2))
	return forall(0, i, func(k int) bool {
		return nameAt(t.LangTag[k].Value, b, int(be16(b, 4)), int(be16(b, 8+12*n+4*k)), int(be16(b, 10+12*n+4*k)))
	})
}

// ---------------------------------------------------------------- glyph names of CFF fonts

//@ contract (*cffTable).GlyphName
//@ prop P21 P03
func c_cffGlyphName(cff *cffTable, glyphID uint16) (name string, ok bool) {
	name, ok = cff.GlyphName(glyphID)
	ensures(ok == (int(glyphID) < len(cff.charset)))
	if ok {
		ensures(name == cff.charset[glyphID])
	} else {
		ensures(name == "")
	}
	return
}

//@ contract (*SFNT).GlyphName
//@ prop P21 P03
func c_GlyphName(sfnt *SFNT, glyphID uint16) (name string) {
	requires(implies(sfnt.IsCFF, sfnt.CFF != nil))
	name = sfnt.GlyphName(glyphID)
	if sfnt.IsCFF {
		if int(glyphID) < len(sfnt.CFF.charset) {
			ensures(name == sfnt.CFF.charset[glyphID])
		} else {
			ensures(name == "")
		}
	} else if sfnt.Post == nil {
		ensures(name == "")
	} else {
		post := sfnt.Post
		if len(post.glyphNameIndex) <= int(glyphID) {
			ensures(name == "")
		} else if i := int(post.glyphNameIndex[glyphID]); i < 258 {
			ensures(name == macintoshGlyphNames[i])
		} else if i-258 < len(post.stringData) {
			ensures(name == string(post.stringData[i-258]))
		} else {
			ensures(name == "")
		}
	}
	return
}

//@ contract (*SFNT).FindGlyphName
//@ prop P21 P03
func c_FindGlyphName(sfnt *SFNT, name string) (g uint16) {
	if sfnt.IsCFF {
		requires(sfnt.CFF != nil && len(sfnt.CFF.charset) <= 65535)
		g = sfnt.FindGlyphName(name)
		if int(g) < len(sfnt.CFF.charset) && sfnt.CFF.charset[g] == name {
			// the first glyph with this name
			ensures(forall(0, int(g), func(i int) bool { return sfnt.CFF.charset[i] != name }))
		} else {
			ensures(g == 0 && forall(0, len(sfnt.CFF.charset), func(i int) bool { return sfnt.CFF.charset[i] != name }))
		}
		return
	}
	post := sfnt.Post
	if post == nil {
		g = sfnt.FindGlyphName(name)
		ensures(g == 0)
		return
	}
	requires(okPost(post))
	g0, ok0 := post.nameMap[name]
	requires(implies(onceDone(&post.once), nameFound(post, name, g0, ok0)))
	modifies(&post.nameMap)
	modifies(&post.once)
	g = sfnt.FindGlyphName(name)
	ensures(nameFound(post, name, g, true) || nameFound(post, name, g, false))
	return
}

//@ inv (*SFNT).FindGlyphName
func i_FindGlyphName(sfnt *SFNT, name string, rangeindex int) bool {
	return forall(0, rangeindex+1, func(i int) bool { return sfnt.CFF.charset[i] != name })
}

// ---------------------------------------------------------------- dispatch to optional tables

//@ contract (*SFNT).NumGlyphs
//@ prop P02 P03
func c_NumGlyphs(sfnt *SFNT) (n uint16) {
	n = sfnt.NumGlyphs()
	if sfnt.Maxp == nil {
		ensures(n == 0)
	} else {
		ensures(n == sfnt.Maxp.NumGlyphs)
	}
	return
}

//@ contract (*SFNT).UnitsPerEm
//@ prop P02 P03
func c_UnitsPerEm(sfnt *SFNT) (n uint16) {
	n = sfnt.UnitsPerEm()
	if sfnt.Head == nil {
		ensures(n == 0)
	} else {
		ensures(n == sfnt.Head.UnitsPerEm)
	}
	return
}

//@ contract (*SFNT).Kerning
//@ prop P09 P03
func c_Kerning(sfnt *SFNT, left, right uint16) (k int16) {
	if sfnt.Kern == nil {
		k = sfnt.Kerning(left, right)
		ensures(k == 0)
		return
	}
	requires(okKern(sfnt.Kern))
	k = sfnt.Kerning(left, right)
	if len(sfnt.Kern.Subtables) == 1 && !sfnt.Kern.Subtables[0].Coverage[1] {
		ensures(kernIs(sfnt.Kern.Subtables[0].Pairs, kernKey(left, right), k))
	}
	return
}
