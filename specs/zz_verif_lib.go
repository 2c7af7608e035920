package font

import (
	"encoding/binary"
	"reflect"
	"sync"
	"unsafe"

	"github.com/tdewolff/parse/v2"
)

// Vocabulary of the contracts. Every function here can be executed, so that a contract can be replayed
// on concrete inputs; the verifier interprets them symbolically.

type vSkip struct{}
type vFail struct{ what string }

func requires(c bool) {
	if !c {
		panic(vSkip{})
	}
}
func assume(c bool) {
	if !c {
		panic(vSkip{})
	}
}
func ensures(c bool) {
	if !c {
		panic(vFail{"postcondition"})
	}
}
func assert(c bool) {
	if !c {
		panic(vFail{"assertion"})
	}
}
func cover(c bool)           {}
func hint(i int)             {}
func implies(a, b bool) bool { return !a || b }
func forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}
func exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// modifies lists memory the function may change; everything else that existed before is unchanged.
func modifies[T any](x T) {}

// modifiesAll: any object of that type may change.
func modifiesAll[T any](x T) {}

// fresh: the object did not exist before the call.
func fresh[T any](x T) bool { return true }

// clone is a snapshot of a slice's contents.
func clone[T any](s []T) []T { return append(make([]T, 0, len(s)), s...) }

// noframe gives up the frame of the function (callers then know nothing is kept, so it cannot be used at call sites).
func noframe() {}

// onceDone: the function given to a sync.Once has run (its first word tells).
func onceDone(o *sync.Once) bool { return *(*uint32)(unsafe.Pointer(o)) != 0 }

// l_selftest_false is false: every check makes sure the verifier refutes it.
//
//@ lemma
func l_selftest_false(a uint16) {
	assert(a+1 > a)
}

// big-endian values at a byte position

func be16(b []byte, i int) uint16 { return uint16(b[i])<<8 | uint16(b[i+1]) }
func bei16(b []byte, i int) int16 { return int16(be16(b, i)) }
func be32(b []byte, i int) uint32 {
	return uint32(b[i])<<24 | uint32(b[i+1])<<16 | uint32(b[i+2])<<8 | uint32(b[i+3])
}
func le16(b []byte, i int) uint16 { return uint16(b[i]) | uint16(b[i+1])<<8 }
func le32(b []byte, i int) uint32 {
	return uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16 | uint32(b[i+3])<<24
}
func be64(b []byte, i int) uint64 { return uint64(be32(b, i))<<32 | uint64(be32(b, i+4)) }

// bit i (0 is the least significant) of v
func bit16(v uint16, i int) bool { return v&(1<<uint(i)) != 0 }

// sameBytes: the two slices hold the same bytes.
func sameBytes(a, b []byte) bool {
	return len(a) == len(b) && forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

func sameRef[T any](a, b []T) bool { return len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0]) }

// okReader: a big-endian reader over a byte slice, positioned within it.
func okReader(r *parse.BinaryReader) bool { return r != nil && r.ByteOrder == binary.BigEndian }

// okReaderLE: the same, little-endian.
func okReaderLE(r *parse.BinaryReader) bool { return r != nil && r.ByteOrder == binary.LittleEndian }

// readerBytes: the byte slice behind the reader.
func readerBytes(r *parse.BinaryReader) []byte {
	return reflect.ValueOf(r).Elem().FieldByName("f").Elem().Elem().FieldByName("data").Bytes()
}

// modifiesReader: the position of the reader may change.
func modifiesReader(r *parse.BinaryReader) {}
