package font

import "github.com/tdewolff/parse/v2"

// ---------------------------------------------------------------- tables that are written

// isBE32: the big-endian number at p is v.
func isBE32(b []byte, p int, v uint32) bool {
	return b[p] == byte(v>>24) && b[p+1] == byte(v>>16) && b[p+2] == byte(v>>8) && b[p+3] == byte(v)
}

func isBE16(b []byte, p int, v uint16) bool { return b[p] == byte(v>>8) && b[p+1] == byte(v) }

// postEnd is the position behind the first n glyph names.
//
//@ recursive
func specPostEnd(data [][]byte, n, start int) int {
	if n <= 0 {
		return start
	}
	return specPostEnd(data, n-1, start) + 1 + len(data[n-1])
}

//@ contract (*postTable).Write
//@ prop P06
func c_postWrite(post *postTable) (b []byte, err error) {
	requires(len(post.stringData) <= 1<<20)
	b, err = post.Write()
	if err == nil {
		ensures(32 <= len(b))
		ensures(be32(b, 0) == 0x00020000 || be32(b, 0) == 0x00030000)
		ensures((be32(b, 0) == 0x00020000) == (0 < post.NumGlyphs))
		ensures(bei16(b, 8) == post.UnderlinePosition && bei16(b, 10) == post.UnderlineThickness)
		ensures(be32(b, 12) == post.IsFixedPitch)
		ensures(be32(b, 16) == post.MinMemType42)
		ensures(be32(b, 20) == post.MaxMemType42)
		ensures(be32(b, 24) == post.MinMemType1)
		ensures(be32(b, 28) == post.MaxMemType1)
		if post.NumGlyphs == 0 {
			ensures(len(b) == 32)
		} else {
			n := int(post.NumGlyphs)
			ensures(len(post.glyphNameIndex) == n && 34+2*n <= len(b))
			ensures(be16(b, 32) == post.NumGlyphs)
			ensures(forall(0, n, func(i int) bool { return be16(b, 34+2*i) == post.glyphNameIndex[i] }))
			ensures(len(b) == specPostEnd(post.stringData, len(post.stringData), 34+2*n))
			ensures(forall(0, len(post.stringData), func(k int) bool {
				p := specPostEnd(post.stringData, k, 34+2*n)
				return len(post.stringData[k]) <= 63 && p+1+len(post.stringData[k]) <= len(b) && int(b[p]) == len(post.stringData[k]) &&
					forall(0, len(post.stringData[k]), func(j int) bool { return b[p+1+j] == post.stringData[k][j] })
			}))
		}
	}
	return
}

//@ inv (*postTable).Write loop=1
func i_postWriteIndex(post *postTable, w *parse.BinaryWriter, rangeindex int) bool {
	return int64(34+2*(rangeindex+1)) == w.Len() && forall(0, rangeindex+1, func(i int) bool { return be16(w.Bytes(), 34+2*i) == post.glyphNameIndex[i] })
}

//@ inv (*postTable).Write loop=2
func i_postWriteLen(post *postTable, w *parse.BinaryWriter, rangeindex int) bool {
	return w.Len() == int64(specPostEnd(post.stringData, rangeindex+1, 34+2*int(post.NumGlyphs)))
}

//@ inv (*postTable).Write loop=2
func i_postWriteData(post *postTable, w *parse.BinaryWriter, rangeindex int) bool {
	start := 34 + 2*int(post.NumGlyphs)
	return forall(0, rangeindex+1, func(k int) bool {
		p := specPostEnd(post.stringData, k, start)
		n := len(post.stringData[k])
		return n <= 63 && start <= p && int64(p+1+n) <= w.Len() && int(w.Bytes()[p]) == n &&
			forall(0, n, func(j int) bool { return w.Bytes()[p+1+j] == post.stringData[k][j] })
	})
}

// kernPos is the position of the k-th kerning subtable that is written.
//
//@ recursive
func specKernPos(subtables []kernFormat0, k int) int {
	if k <= 0 {
		return 4
	}
	return specKernPos(subtables, k-1) + 14 + 6*len(subtables[k-1].Pairs)
}

// kernHead: the header of subtable t stands at p.
func kernHead(b []byte, p int, t kernFormat0) bool {
	return be16(b, p) == 0 && int(be16(b, p+2)) == 14+6*len(t.Pairs) && b[p+4] == 0 && int(be16(b, p+6)) == len(t.Pairs)
}

func kernFlags(b []byte, p int, t kernFormat0) bool {
	return forall(0, 8, func(i int) bool { return t.Coverage[i] == (b[p+5]&(1<<uint(i)) != 0) })
}

// kernPairs: the first n pairs of t stand behind the header at p.
func kernPairs(b []byte, p int, t kernFormat0, n int) bool {
	return forall(0, n, func(i int) bool {
		return isBE32(b, p+14+6*i, t.Pairs[i].Key) && isBE16(b, p+18+6*i, uint16(t.Pairs[i].Value))
	})
}

//@ contract (*kernTable).Write
//@ prop P06 P09
//@ use flagsToUint8
func c_kernWrite(kern *kernTable) (b []byte) {
	n := len(kern.Subtables)
	requires(n <= 0xFFFF)
	requires(forall(0, n, func(k int) bool { return 14+6*len(kern.Subtables[k].Pairs) <= 0xFFFF }))
	b = kern.Write()
	ensures(4 <= len(b) && be16(b, 0) == 0 && int(be16(b, 2)) == n)
	ensures(len(b) == specKernPos(kern.Subtables, n))
	ensures(forall(0, n, func(k int) bool {
		p := specKernPos(kern.Subtables, k)
		return 4 <= p && p+14+6*len(kern.Subtables[k].Pairs) <= len(b) && kernHead(b, p, kern.Subtables[k])
	}))
	ensures(forall(0, n, func(k int) bool { return kernFlags(b, specKernPos(kern.Subtables, k), kern.Subtables[k]) }))
	// The pairs of the subtable that was written last; every subtable was the
	// last one at the end of some iteration (i_kernWriteAll), and the writer
	// only appends.
	ensures(n == 0 || kernPairs(b, specKernPos(kern.Subtables, n-1), kern.Subtables[n-1], len(kern.Subtables[n-1].Pairs)))
	return
}

//@ inv (*kernTable).Write loop=1
func i_kernWriteLen(kern *kernTable, w *parse.BinaryWriter, rangeindex int) bool {
	return w.Len() == int64(specKernPos(kern.Subtables, rangeindex+1))
}

//@ inv (*kernTable).Write loop=1
func i_kernWriteHead(kern *kernTable, w *parse.BinaryWriter, rangeindex int) bool {
	return forall(0, rangeindex+1, func(k int) bool {
		p := specKernPos(kern.Subtables, k)
		n := len(kern.Subtables[k].Pairs)
		return 4 <= p && int64(p+14+6*n) <= w.Len() && kernHead(w.Bytes(), p, kern.Subtables[k])
	})
}

//@ inv (*kernTable).Write loop=1
func i_kernWriteFlags(kern *kernTable, w *parse.BinaryWriter, rangeindex int) bool {
	return forall(0, rangeindex+1, func(k int) bool {
		p := specKernPos(kern.Subtables, k)
		n := len(kern.Subtables[k].Pairs)
		return 4 <= p && int64(p+14+6*n) <= w.Len() && kernFlags(w.Bytes(), p, kern.Subtables[k])
	})
}

//@ inv (*kernTable).Write loop=1
func i_kernWriteAll(kern *kernTable, w *parse.BinaryWriter, rangeindex int) bool {
	if rangeindex < 0 || len(kern.Subtables) <= rangeindex {
		return true
	}
	p := specKernPos(kern.Subtables, rangeindex)
	n := len(kern.Subtables[rangeindex].Pairs)
	return 4 <= p && int64(p+14+6*n) <= w.Len() && kernPairs(w.Bytes(), p, kern.Subtables[rangeindex], n)
}

//@ inv (*kernTable).Write loop=2
func i_kernWritePairs(kern *kernTable, w *parse.BinaryWriter, outer, rangeindex int) bool {
	if outer < -1 || len(kern.Subtables) <= outer+1 {
		return false
	}
	p := specKernPos(kern.Subtables, outer+1)
	t := kern.Subtables[outer+1]
	return 4 <= p && w.Len() == int64(p+14+6*(rangeindex+1)) && rangeindex < len(t.Pairs) && kernPairs(w.Bytes(), p, t, rangeindex+1)
}
