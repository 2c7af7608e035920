package font

import "github.com/tdewolff/parse/v2"

// ---------------------------------------------------------------- CFF INDEX

// okIndex: the offsets of an INDEX start at zero, never fall, and end within the data. An empty INDEX has none.
func okIndex(t *cffINDEX) bool {
	n := len(t.offset)
	return len(t.data) <= maxTable && (n == 0 || t.offset[0] == 0 && int(t.offset[n-1]) <= len(t.data)) &&
		forall(0, n, func(i int) bool {
			return int(t.offset[i]) <= len(t.data) && (i == 0 || t.offset[i-1] <= t.offset[i])
		})
}

// indexLen is the number of entries.
func indexLen(t *cffINDEX) int { return max(len(t.offset)-1, 0) }

//@ contract (*cffINDEX).Len
//@ prop P10
func c_indexLen(t *cffINDEX) (n int) {
	n = t.Len()
	ensures(n == indexLen(t))
	return
}

//@ contract (*cffINDEX).Get
//@ prop P10 P03
func c_indexGet(t *cffINDEX, i uint16) (b []byte) {
	requires(okIndex(t))
	b = t.Get(i)
	if int(i) < indexLen(t) {
		start, end := int(t.offset[i]), int(t.offset[int(i)+1])
		ensures(sameRef(b, t.data[start:end]) && cap(b) == len(b))
	} else {
		ensures(b == nil)
	}
	return
}

//@ contract (*cffINDEX).Add
//@ prop P10
func c_indexAdd(t *cffINDEX, data []byte) (k int) {
	requires(okIndex(t))
	requires(len(t.data)+len(data) <= maxTable)
	requires(len(t.offset) < 2 || int(t.offset[len(t.offset)-1]) == len(t.data))
	requires(implies(len(t.offset) < 2, len(t.data) == 0))
	n, od := indexLen(t), len(t.data)
	oldOffset, oldData := clone(t.offset), clone(t.data)
	in := clone(data)
	modifies(&t.offset)
	modifies(&t.data)
	modifies(t.offset[:cap(t.offset)])
	modifies(t.data[:cap(t.data)])
	k = t.Add(data)
	ensures(k == n && indexLen(t) == n+1)
	ensures(t.offset[0] == 0 && int(t.offset[n]) == od && int(t.offset[n+1]) == len(t.data))
	ensures(len(t.data) == od+len(in))
	ensures(forall(0, n, func(i int) bool { return t.offset[i] == oldOffset[i] }))
	ensures(forall(0, od, func(i int) bool { return t.data[i] == oldData[i] }))
	ensures(forall(0, len(in), func(i int) bool { return t.data[od+i] == in[i] }))
	return
}

//@ contract (*cffINDEX).Copy
//@ prop P10
func c_indexCopy(t *cffINDEX) (c *cffINDEX) {
	c = t.Copy()
	ensures(fresh(c) && fresh(c.offset) && fresh(c.data))
	ensures(len(c.offset) == len(t.offset) && sameBytes(c.data, t.data))
	ensures(forall(0, len(c.offset), func(i int) bool { return c.offset[i] == t.offset[i] }))
	return
}

//@ contract cffINDEXOffSize
//@ prop P10
func c_indexOffSize(n int) (k int) {
	requires(0 <= n && n <= maxTable)
	k = cffINDEXOffSize(n)
	// the smallest size that holds n
	ensures(1 <= k && k <= 4 && n < 1<<uint(8*k) && (k == 1 || 1<<uint(8*(k-1)) <= n))
	return
}

//@ inv parseINDEX
func i_parseINDEX5(t *cffINDEX, i uint32) bool {
	return forall(0, int(i)+1, func(k int) bool {
		return t.offset[k] <= t.offset[i] && (k == 0 || t.offset[k-1] <= t.offset[k])
	})
}

//@ contract parseINDEX
//@ prop P10 P03
func c_parseINDEX(r *parse.BinaryReader, isCFF2 bool) (t *cffINDEX, err error) {
	requires(okReader(r))
	b, p := readerBytes(r), int(r.Pos())
	requires(len(b) <= maxTable)
	modifiesReader(r)
	t, err = parseINDEX(r, isCFF2)
	ensures(0 <= int(r.Pos()) && int(r.Pos()) <= len(b))
	if err == nil {
		ensures(t != nil && fresh(t))
		ensures(okIndex(t))
		ensures(len(t.offset) != 1)
		if len(t.offset) == 0 {
			ensures(len(t.data) == 0)
		} else {
			ensures(fresh(t.offset))
			ensures(int(t.offset[len(t.offset)-1]) == len(t.data))
		}
		if !isCFF2 {
			n := int(be16(b, p))
			ensures(indexLen(t) == n)
			if 0 < n {
				q := p + 3 + int(b[p+2])*(n+1)
				ensures(1 <= b[p+2] && b[p+2] <= 4)
				ensures(int(r.Pos()) == q+len(t.data))
				ensures(sameBytes(t.data, b[q:q+len(t.data)]))
			} else {
				ensures(int(r.Pos()) == p+2)
			}
		}
	}
	return
}

// ---------------------------------------------------------------- CFF numbers

//@ contract cffCharStringSubrsBias
//@ prop P12
func c_subrsBias(n int) (b int) {
	b = cffCharStringSubrsBias(n)
	ensures(implies(n < 1240, b == 107) && implies(1240 <= n && n < 33900, b == 1131) && implies(33900 <= n, b == 32768))
	return
}

//@ contract (*cffINDEX).GetSID
//@ prop P10 P03
func c_indexGetSID(t *cffINDEX, sid int) (s string) {
	requires(okIndex(t))
	requires(0 <= sid)
	s = t.GetSID(sid)
	k := sid - len(cffStandardStrings)
	if 0 <= k && k < indexLen(t) && k <= 0xFFFF {
		p, n := int(t.offset[k]), int(t.offset[k+1])-int(t.offset[k])
		ensures(len(s) == n && forall(0, n, func(i int) bool { return s[i] == t.data[p+i] }))
	} else if 0 <= k {
		ensures(s == "")
	}
	return
}

//@ contract (*cffINDEX).Extend
//@ prop P10
//@ nullable o
func c_indexExtend(t, o *cffINDEX) {
	requires(okIndex(t) && t != o)
	requires(o == nil || okIndex(o))
	requires(o == nil || len(t.data)+len(o.data) <= maxTable)
	requires(len(t.offset) < 2 && len(t.data) == 0 || 2 <= len(t.offset) && int(t.offset[len(t.offset)-1]) == len(t.data))
	n, m, od := indexLen(t), 0, len(t.data)
	if o != nil {
		m = indexLen(o)
	}
	oldOffset, oldData := clone(t.offset), clone(t.data)
	var oOffset []uint32
	var oData []byte
	if o != nil {
		oOffset, oData = clone(o.offset), clone(o.data)
	}
	modifies(&t.offset)
	modifies(&t.data)
	modifies(t.data[:cap(t.data)])
	t.Extend(o)
	ensures(indexLen(t) == n+m)
	ensures(forall(0, n, func(i int) bool { return t.offset[i] == oldOffset[i] && t.offset[i+1] == oldOffset[i+1] }))
	ensures(forall(0, od, func(i int) bool { return t.data[i] == oldData[i] }))
	if 0 < m {
		ensures(forall(0, m, func(i int) bool {
			return int(t.offset[n+i]) == od+int(oOffset[i]) && int(t.offset[n+i+1]) == od+int(oOffset[i+1])
		}))
		ensures(len(t.data) == od+len(oData))
		ensures(forall(0, len(oData), func(i int) bool { return t.data[od+i] == oData[i] }))
	} else {
		ensures(len(t.data) == od)
	}
}

//@ inv (*cffINDEX).Extend
func i_indexExtendOld(t, o *cffINDEX, offset []uint32) bool {
	return len(t.offset) <= len(offset) && forall(0, len(t.offset), func(k int) bool { return offset[k] == t.offset[k] })
}

//@ inv (*cffINDEX).Extend
func i_indexExtendNew(t, o *cffINDEX, offset []uint32, i int) bool {
	return len(t.offset)+i <= len(offset) && forall(len(t.offset), len(t.offset)+i, func(k int) bool { return int(offset[k]) == len(t.data)+int(o.offset[k-len(t.offset)+1]) })
}

// indexOffset is the k-byte number at p.
func indexOffset(b []byte, p, k int) int {
	if k == 1 {
		return int(b[p])
	} else if k == 2 {
		return int(be16(b, p))
	} else if k == 3 {
		return int(b[p])<<16 + int(be16(b, p+1))
	}
	return int(be32(b, p))
}

//@ contract (*cffINDEX).Write
//@ prop P10
//@ inline cffINDEXOffSize
func c_indexWrite(t *cffINDEX) (b []byte, err error) {
	requires(okIndex(t) && len(t.data) < maxTable)
	n, m := indexLen(t), len(t.data)
	b, err = t.Write()
	ensures((err != nil) == (0xFFFF < n || 0 < n && int(t.offset[n]) != m))
	if err == nil {
		ensures(2 <= len(b))
		ensures(int(be16(b, 0)) == n)
		if n == 0 {
			ensures(len(b) == 2)
		} else if m < 0xFF {
			ensures(len(b) == 3+1*(n+1)+m)
			ensures(b[2] == 1)
			ensures(forall(0, n+1, func(i int) bool { return indexOffset(b, 3+1*i, 1) == int(t.offset[i])+1 }))
			ensures(forall(0, m, func(i int) bool { return b[3+1*(n+1)+i] == t.data[i] }))
		} else if m < 0xFFFF {
			ensures(len(b) == 3+2*(n+1)+m)
			ensures(b[2] == 2)
			ensures(forall(0, n+1, func(i int) bool { return indexOffset(b, 3+2*i, 2) == int(t.offset[i])+1 }))
			ensures(forall(0, m, func(i int) bool { return b[3+2*(n+1)+i] == t.data[i] }))
		} else if m < 0xFFFFFF {
			ensures(len(b) == 3+3*(n+1)+m)
			ensures(b[2] == 3)
			ensures(forall(0, n+1, func(i int) bool { return indexOffset(b, 3+3*i, 3) == int(t.offset[i])+1 }))
			ensures(forall(0, m, func(i int) bool { return b[3+3*(n+1)+i] == t.data[i] }))
		} else {
			ensures(len(b) == 3+4*(n+1)+m)
			ensures(b[2] == 4)
			ensures(forall(0, n+1, func(i int) bool { return indexOffset(b, 3+4*i, 4) == int(t.offset[i])+1 }))
			ensures(forall(0, m, func(i int) bool { return b[3+4*(n+1)+i] == t.data[i] }))
		}
	}
	return
}

//@ inv (*cffINDEX).Write
func i_indexWrite1(t *cffINDEX, w *parse.BinaryWriter, rangeindex int) bool {
	return int64(3+rangeindex+1) == w.Len() && forall(0, rangeindex+1, func(i int) bool { return int(w.Bytes()[3+i]) == int(t.offset[i])+1 })
}

//@ inv (*cffINDEX).Write
func i_indexWrite2(t *cffINDEX, w *parse.BinaryWriter, rangeindex int) bool {
	return int64(3+2*(rangeindex+1)) == w.Len() && forall(0, rangeindex+1, func(i int) bool { return int(be16(w.Bytes(), 3+2*i)) == int(t.offset[i])+1 })
}

//@ inv (*cffINDEX).Write
func i_indexWrite3(t *cffINDEX, w *parse.BinaryWriter, rangeindex int) bool {
	return int64(3+3*(rangeindex+1)) == w.Len() && forall(0, rangeindex+1, func(i int) bool {
		return int(w.Bytes()[3+3*i])<<16+int(be16(w.Bytes(), 4+3*i)) == int(t.offset[i])+1
	})
}

//@ inv (*cffINDEX).Write
func i_indexWrite4(t *cffINDEX, w *parse.BinaryWriter, rangeindex int) bool {
	return int64(3+4*(rangeindex+1)) == w.Len() && forall(0, rangeindex+1, func(i int) bool { return int(be32(w.Bytes(), 3+4*i)) == int(t.offset[i])+1 })
}
