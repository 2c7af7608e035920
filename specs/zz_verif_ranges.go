package font

// ---------------------------------------------------------------- Unicode ranges of the OS/2 table

// specRangeBit: the bit of which the character is in the principal (first listed) range of the OpenType
// specification, or -1.
func specRangeBit(r rune) int {
	if 0x0 <= r && r <= 0x7F {
		return 0
	}
	if 0x80 <= r && r <= 0xFF {
		return 1
	}
	if 0x100 <= r && r <= 0x17F {
		return 2
	}
	if 0x180 <= r && r <= 0x24F {
		return 3
	}
	if 0x250 <= r && r <= 0x2AF {
		return 4
	}
	if 0x2B0 <= r && r <= 0x2FF {
		return 5
	}
	if 0x300 <= r && r <= 0x36F {
		return 6
	}
	if 0x370 <= r && r <= 0x3FF {
		return 7
	}
	if 0x2C80 <= r && r <= 0x2CFF {
		return 8
	}
	if 0x400 <= r && r <= 0x4FF {
		return 9
	}
	if 0x530 <= r && r <= 0x58F {
		return 10
	}
	if 0x590 <= r && r <= 0x5FF {
		return 11
	}
	if 0xA500 <= r && r <= 0xA63F {
		return 12
	}
	if 0x600 <= r && r <= 0x6FF {
		return 13
	}
	if 0x7C0 <= r && r <= 0x7FF {
		return 14
	}
	if 0x900 <= r && r <= 0x97F {
		return 15
	}
	if 0x980 <= r && r <= 0x9FF {
		return 16
	}
	if 0xA00 <= r && r <= 0xA7F {
		return 17
	}
	if 0xA80 <= r && r <= 0xAFF {
		return 18
	}
	if 0xB00 <= r && r <= 0xB7F {
		return 19
	}
	if 0xB80 <= r && r <= 0xBFF {
		return 20
	}
	if 0xC00 <= r && r <= 0xC7F {
		return 21
	}
	if 0xC80 <= r && r <= 0xCFF {
		return 22
	}
	if 0xD00 <= r && r <= 0xD7F {
		return 23
	}
	if 0xE00 <= r && r <= 0xE7F {
		return 24
	}
	if 0xE80 <= r && r <= 0xEFF {
		return 25
	}
	if 0x10A0 <= r && r <= 0x10FF {
		return 26
	}
	if 0x1B00 <= r && r <= 0x1B7F {
		return 27
	}
	if 0x1100 <= r && r <= 0x11FF {
		return 28
	}
	if 0x1E00 <= r && r <= 0x1EFF {
		return 29
	}
	if 0x1F00 <= r && r <= 0x1FFF {
		return 30
	}
	if 0x2000 <= r && r <= 0x206F {
		return 31
	}
	if 0x2070 <= r && r <= 0x209F {
		return 32
	}
	if 0x20A0 <= r && r <= 0x20CF {
		return 33
	}
	if 0x20D0 <= r && r <= 0x20FF {
		return 34
	}
	if 0x2100 <= r && r <= 0x214F {
		return 35
	}
	if 0x2150 <= r && r <= 0x218F {
		return 36
	}
	if 0x2190 <= r && r <= 0x21FF {
		return 37
	}
	if 0x2200 <= r && r <= 0x22FF {
		return 38
	}
	if 0x2300 <= r && r <= 0x23FF {
		return 39
	}
	if 0x2400 <= r && r <= 0x243F {
		return 40
	}
	if 0x2440 <= r && r <= 0x245F {
		return 41
	}
	if 0x2460 <= r && r <= 0x24FF {
		return 42
	}
	if 0x2500 <= r && r <= 0x257F {
		return 43
	}
	if 0x2580 <= r && r <= 0x259F {
		return 44
	}
	if 0x25A0 <= r && r <= 0x25FF {
		return 45
	}
	if 0x2600 <= r && r <= 0x26FF {
		return 46
	}
	if 0x2700 <= r && r <= 0x27BF {
		return 47
	}
	if 0x3000 <= r && r <= 0x303F {
		return 48
	}
	if 0x3040 <= r && r <= 0x309F {
		return 49
	}
	if 0x30A0 <= r && r <= 0x30FF {
		return 50
	}
	if 0x3100 <= r && r <= 0x312F {
		return 51
	}
	if 0x3130 <= r && r <= 0x318F {
		return 52
	}
	if 0xA840 <= r && r <= 0xA87F {
		return 53
	}
	if 0x3200 <= r && r <= 0x32FF {
		return 54
	}
	if 0x3300 <= r && r <= 0x33FF {
		return 55
	}
	if 0xAC00 <= r && r <= 0xD7AF {
		return 56
	}
	if 0x10900 <= r && r <= 0x1091F {
		return 58
	}
	if 0x4E00 <= r && r <= 0x9FFF {
		return 59
	}
	if 0xE000 <= r && r <= 0xF8FF {
		return 60
	}
	if 0x31C0 <= r && r <= 0x31EF {
		return 61
	}
	if 0xFB00 <= r && r <= 0xFB4F {
		return 62
	}
	if 0xFB50 <= r && r <= 0xFDFF {
		return 63
	}
	if 0xFE20 <= r && r <= 0xFE2F {
		return 64
	}
	if 0xFE10 <= r && r <= 0xFE1F {
		return 65
	}
	if 0xFE50 <= r && r <= 0xFE6F {
		return 66
	}
	if 0xFE70 <= r && r <= 0xFEFF {
		return 67
	}
	if 0xFF00 <= r && r <= 0xFFEF {
		return 68
	}
	if 0xFFF0 <= r && r <= 0xFFFF {
		return 69
	}
	if 0xF00 <= r && r <= 0xFFF {
		return 70
	}
	if 0x700 <= r && r <= 0x74F {
		return 71
	}
	if 0x780 <= r && r <= 0x7BF {
		return 72
	}
	if 0xD80 <= r && r <= 0xDFF {
		return 73
	}
	if 0x1000 <= r && r <= 0x109F {
		return 74
	}
	if 0x1200 <= r && r <= 0x137F {
		return 75
	}
	if 0x13A0 <= r && r <= 0x13FF {
		return 76
	}
	if 0x1400 <= r && r <= 0x167F {
		return 77
	}
	if 0x1680 <= r && r <= 0x169F {
		return 78
	}
	if 0x16A0 <= r && r <= 0x16FF {
		return 79
	}
	if 0x1780 <= r && r <= 0x17FF {
		return 80
	}
	if 0x1800 <= r && r <= 0x18AF {
		return 81
	}
	if 0x2800 <= r && r <= 0x28FF {
		return 82
	}
	if 0xA000 <= r && r <= 0xA48F {
		return 83
	}
	if 0x1700 <= r && r <= 0x171F {
		return 84
	}
	if 0x10300 <= r && r <= 0x1032F {
		return 85
	}
	if 0x10330 <= r && r <= 0x1034F {
		return 86
	}
	if 0x10400 <= r && r <= 0x1044F {
		return 87
	}
	if 0x1D000 <= r && r <= 0x1D0FF {
		return 88
	}
	if 0x1D400 <= r && r <= 0x1D7FF {
		return 89
	}
	if 0xF0000 <= r && r <= 0xFFFFD {
		return 90
	}
	if 0xFE00 <= r && r <= 0xFE0F {
		return 91
	}
	if 0xE0000 <= r && r <= 0xE007F {
		return 92
	}
	if 0x1900 <= r && r <= 0x194F {
		return 93
	}
	if 0x1950 <= r && r <= 0x197F {
		return 94
	}
	if 0x1980 <= r && r <= 0x19DF {
		return 95
	}
	if 0x1A00 <= r && r <= 0x1A1F {
		return 96
	}
	if 0x2C00 <= r && r <= 0x2C5F {
		return 97
	}
	if 0x2D30 <= r && r <= 0x2D7F {
		return 98
	}
	if 0x4DC0 <= r && r <= 0x4DFF {
		return 99
	}
	if 0xA800 <= r && r <= 0xA82F {
		return 100
	}
	if 0x10000 <= r && r <= 0x1007F {
		return 101
	}
	if 0x10140 <= r && r <= 0x1018F {
		return 102
	}
	if 0x10380 <= r && r <= 0x1039F {
		return 103
	}
	if 0x103A0 <= r && r <= 0x103DF {
		return 104
	}
	if 0x10450 <= r && r <= 0x1047F {
		return 105
	}
	if 0x10480 <= r && r <= 0x104AF {
		return 106
	}
	if 0x10800 <= r && r <= 0x1083F {
		return 107
	}
	if 0x10A00 <= r && r <= 0x10A5F {
		return 108
	}
	if 0x1D300 <= r && r <= 0x1D35F {
		return 109
	}
	if 0x12000 <= r && r <= 0x123FF {
		return 110
	}
	if 0x1D360 <= r && r <= 0x1D37F {
		return 111
	}
	if 0x1B80 <= r && r <= 0x1BBF {
		return 112
	}
	if 0x1C00 <= r && r <= 0x1C4F {
		return 113
	}
	if 0x1C50 <= r && r <= 0x1C7F {
		return 114
	}
	if 0xA880 <= r && r <= 0xA8DF {
		return 115
	}
	if 0xA900 <= r && r <= 0xA92F {
		return 116
	}
	if 0xA930 <= r && r <= 0xA95F {
		return 117
	}
	if 0xAA00 <= r && r <= 0xAA5F {
		return 118
	}
	if 0x10190 <= r && r <= 0x101CF {
		return 119
	}
	if 0x101D0 <= r && r <= 0x101FF {
		return 120
	}
	if 0x102A0 <= r && r <= 0x102DF {
		return 121
	}
	if 0x1F030 <= r && r <= 0x1F09F {
		return 122
	}
	return -1
}

//@ contract os2UlUnicodeRangeBit
//@ prop P24
func c_unicodeRangeBit(r rune) (bit int) {
	requires(0 <= r && r <= 0x10FFFF)
	bit = os2UlUnicodeRangeBit(r)
	ensures(bit == specRangeBit(r))
	ensures(-1 <= bit && bit <= 122 && bit != 57)
	return
}

// specRangeSet: one of the first n characters makes the bit set.
//
//@ recursive
func specRangeSet(rs []rune, bit, n int) bool {
	if n <= 0 {
		return false
	}
	return setsRange(rs[n-1], bit) || specRangeSet(rs, bit, n-1)
}

// setsRange: the character makes the bit set; bit 57 is set by all supplementary characters.
func setsRange(r rune, bit int) bool {
	return specRangeBit(r) == bit || bit == 57 && 0x10000 <= r
}

func rangeBit(v uint32, bit int) bool { return v&(1<<uint(bit)) != 0 }

//@ contract os2UlUnicodeRange
//@ prop P24
//@ use os2UlUnicodeRangeBit
//@ mode bv
func c_unicodeRange(rs []rune) (v [4]uint32) {
	requires(forall(0, len(rs), func(i int) bool { return 0 <= rs[i] && rs[i] <= 0x10FFFF }))
	v = os2UlUnicodeRange(rs)
	ensures(forall(0, 32, func(i int) bool { return rangeBit(v[0], i) == specRangeSet(rs, i, len(rs)) }))
	ensures(forall(0, 32, func(i int) bool { return rangeBit(v[1], i) == specRangeSet(rs, 32+i, len(rs)) }))
	ensures(forall(0, 32, func(i int) bool { return rangeBit(v[2], i) == specRangeSet(rs, 64+i, len(rs)) }))
	ensures(forall(0, 32, func(i int) bool { return rangeBit(v[3], i) == specRangeSet(rs, 96+i, len(rs)) }))
	return
}

//@ inv os2UlUnicodeRange
func i_unicodeRange(rs []rune, v [4]uint32, rangeindex int) bool {
	return forall(0, 32, func(i int) bool {
		return rangeBit(v[0], i) == specRangeSet(rs, i, rangeindex+1) && rangeBit(v[1], i) == specRangeSet(rs, 32+i, rangeindex+1)
	}) && forall(0, 32, func(i int) bool {
		return rangeBit(v[2], i) == specRangeSet(rs, 64+i, rangeindex+1) && rangeBit(v[3], i) == specRangeSet(rs, 96+i, rangeindex+1)
	})
}
