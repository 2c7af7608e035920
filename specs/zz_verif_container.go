package font

import "github.com/tdewolff/parse/v2"

// ---------------------------------------------------------------- file types

func hasTag(b []byte, tag string) bool {
	return b[0] == tag[0] && b[1] == tag[1] && b[2] == tag[2] && b[3] == tag[3]
}

func isTrueTypeTag(b []byte) bool { return be32(b, 0) == 0x00010000 || hasTag(b, "true") || hasTag(b, "ttcf") }

//@ contract MediaType
//@ prop P20 P03
func c_MediaType(b []byte) (s string, err error) {
	s, err = MediaType(b)
	if len(b) < 4 {
		ensures(err != nil)
	} else if hasTag(b, "wOFF") {
		ensures(err == nil && s == "font/woff")
	} else if hasTag(b, "wOF2") {
		ensures(err == nil && s == "font/woff2")
	} else if isTrueTypeTag(b) {
		ensures(err == nil && s == "font/truetype")
	} else if hasTag(b, "OTTO") {
		ensures(err == nil && s == "font/opentype")
	} else if 36 < len(b) && le16(b, 34) == 0x504C {
		ensures(err == nil && s == "application/vnd.ms-fontobject")
	} else {
		ensures(err != nil)
	}
	ensures(implies(err != nil, s == ""))
	return
}

//@ contract Extension
//@ prop P20 P03
func c_Extension(b []byte) (s string) {
	s = Extension(b)
	if len(b) < 4 {
		ensures(s == "")
	} else if hasTag(b, "wOFF") {
		ensures(s == ".woff")
	} else if hasTag(b, "wOF2") {
		ensures(s == ".woff2")
	} else if isTrueTypeTag(b) {
		ensures(s == ".ttf")
	} else if hasTag(b, "OTTO") {
		ensures(s == ".otf")
	} else if 36 < len(b) && le16(b, 34) == 0x504C {
		ensures(s == ".eot")
	} else {
		ensures(s == "")
	}
	return
}

// ---------------------------------------------------------------- EOT

// eotField: the position behind the padding, size and contents of a field at q.
func eotField(b []byte, q int) int { return q + 4 + int(le16(b, q+2)) }

// eotNames: the position behind the four names.
func eotNames(b []byte) int { return eotField(b, eotField(b, eotField(b, eotField(b, 80)))) }

// eotData: the position of the font data.
func eotData(b []byte) int {
	version := le32(b, 8)
	if version == 0x00010000 {
		return eotNames(b)
	} else if version == 0x00020001 {
		return eotField(b, eotNames(b))
	}
	q := eotField(b, eotField(b, eotNames(b))+8)
	return q + 8 + int(le32(b, q+4))
}

//@ contract skipEOTField
//@ prop P18 P03
func c_skipEOTField(r *parse.BinaryReader) (err error) {
	requires(okReaderLE(r))
	b, p := readerBytes(r), int(r.Pos())
	modifiesReader(r)
	err = skipEOTField(r)
	ensures(0 <= r.Pos() && int(r.Pos()) <= len(b))
	if p+4 <= len(b) && eotField(b, p) <= len(b) {
		ensures(err == nil && int(r.Pos()) == eotField(b, p))
	} else {
		ensures(err != nil)
	}
	return
}

//@ inv ParseEOT
func i_ParseEOT(b, xored, fontData []byte, i int) bool {
	return forall(0, i, func(k int) bool { return fontData[k] == xored[k]^0x50 })
}

//@ contract ParseEOT
//@ prop P18 P19 P03
func c_ParseEOT(b []byte) (d []byte, err error) {
	requires(len(b) <= maxTable)
	d, err = ParseEOT(b)
	if err == nil {
		version, size, q := le32(b, 8), int(le32(b, 4)), eotData(b)
		ensures(version == 0x00010000 || version == 0x00020001 || version == 0x00020002)
		ensures(le16(b, 34) == 0x504C)
		ensures(le32(b, 12)&4 == 0)
		ensures(len(d) == size && q+size <= len(b))
		if le32(b, 12)&0x10000000 == 0 {
			ensures(forall(0, size, func(i int) bool { return d[i] == b[q+i] }))
		}
	}
	return
}

//@ lemma
//@ inline ParseEOT
//@ prop P18 P19
func l_EOTxor1(b []byte) {
	assume(82 <= len(b) && len(b) <= maxTable && le32(b, 8) == 0x00010000 && le32(b, 12)&0x10000000 != 0)
	d, err := ParseEOT(b)
	if err == nil {
		q := eotData(b)
		assert(forall(0, len(d), func(i int) bool { return d[i] == b[q+i]^0x50 }))
	}
}

//@ lemma
//@ inline ParseEOT
//@ prop P18 P19
func l_EOTxor21(b []byte) {
	assume(82 <= len(b) && len(b) <= maxTable && le32(b, 8) == 0x00020001 && le32(b, 12)&0x10000000 != 0)
	d, err := ParseEOT(b)
	if err == nil {
		q := eotData(b)
		assert(forall(0, len(d), func(i int) bool { return d[i] == b[q+i]^0x50 }))
	}
}

//@ lemma
//@ inline ParseEOT
//@ prop P18 P19
func l_EOTxor22(b []byte, i int) {
	assume(82 <= len(b) && len(b) <= maxTable && le32(b, 8) == 0x00020002 && le32(b, 12)&0x10000000 != 0)
	d, err := ParseEOT(b)
	if err == nil {
		q := eotData(b)
		assert(implies(0 <= i && i < len(d), d[i] == b[q+i]^0x50))
	}
}

// ---------------------------------------------------------------- WOFF2 number formats

// base128Len: the number of bytes of the number at b[p:], zero if it does not end within five bytes.
func base128Len(b []byte, p int) int {
	if p < len(b) && b[p] < 0x80 {
		return 1
	} else if p+1 < len(b) && b[p+1] < 0x80 {
		return 2
	} else if p+2 < len(b) && b[p+2] < 0x80 {
		return 3
	} else if p+3 < len(b) && b[p+3] < 0x80 {
		return 4
	} else if p+4 < len(b) && b[p+4] < 0x80 {
		return 5
	}
	return 0
}

//@ contract readUintBase128
//@ prop P14 P03
func c_readUintBase128(r *parse.BinaryReader) (v uint32, err error) {
	requires(okReader(r))
	b, p := readerBytes(r), int(r.Pos())
	modifiesReader(r)
	v, err = readUintBase128(r)
	n := int(r.Pos()) - p
	ensures(0 <= n && n <= 5)
	k := base128Len(b, p)
	ensures((err == nil) == (k != 0 && b[p] != 0x80 && (k < 5 || b[p] < 0x90)))
	if err == nil {
		ensures(n == k && p+n <= len(b))
		// only the last byte has no continuation bit
		ensures(forall(0, n, func(i int) bool { return (b[p+i]&0x80 == 0) == (i == n-1) }))
		w := uint64(b[p] & 0x7F)
		if 2 <= n {
			w = w<<7 | uint64(b[p+1]&0x7F)
		}
		if 3 <= n {
			w = w<<7 | uint64(b[p+2]&0x7F)
		}
		if 4 <= n {
			w = w<<7 | uint64(b[p+3]&0x7F)
		}
		if 5 <= n {
			w = w<<7 | uint64(b[p+4]&0x7F)
		}
		ensures(uint64(v) == w)
	}
	return
}

//@ contract read255Uint16
//@ prop P14 P03
func c_read255Uint16(r *parse.BinaryReader) (v uint16, err error) {
	requires(okReader(r))
	b, p := readerBytes(r), int(r.Pos())
	modifiesReader(r)
	v, err = read255Uint16(r)
	n := int(r.Pos()) - p
	ensures(0 <= n && n <= 3)
	if p == len(b) || b[p] == 253 && len(b) < p+3 || 253 < b[p] && len(b) < p+2 {
		ensures(err != nil)
	} else {
		ensures(err == nil)
		if b[p] == 253 {
			ensures(v == be16(b, p+1) && n == 3)
		} else if b[p] == 254 {
			ensures(v == uint16(b[p+1])+506 && n == 2)
		} else if b[p] == 255 {
			ensures(v == uint16(b[p+1])+253 && n == 2)
		} else {
			ensures(v == uint16(b[p]) && n == 1)
		}
	}
	return
}

// Writing a number and reading it back gives the number.

//@ lemma
//@ prop P14
func l_base128(v uint32) {
	w := parse.NewBinaryWriter([]byte{})
	writeUintBase128(w, v)
	r := parse.NewBinaryReaderBytes(w.Bytes())
	x, err := readUintBase128(r)
	assert(err == nil && x == v && r.Len() == 0)
}

//@ lemma
//@ prop P14
func l_255(v uint16) {
	w := parse.NewBinaryWriter([]byte{})
	write255Uint16(w, v)
	r := parse.NewBinaryReaderBytes(w.Bytes())
	x, err := read255Uint16(r)
	assert(err == nil && x == v && r.Len() == 0)
}
