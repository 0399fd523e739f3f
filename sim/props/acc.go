package props

import (
	"math"
	"unsafe"

	"simv/simrt"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

var compTypes = []gltf.ComponentType{gltf.ComponentUbyte, gltf.ComponentByte, gltf.ComponentUshort, gltf.ComponentShort, gltf.ComponentUint, gltf.ComponentFloat}
var accTypes = []gltf.AccessorType{gltf.AccessorScalar, gltf.AccessorVec2, gltf.AccessorVec3, gltf.AccessorVec4, gltf.AccessorMat2, gltf.AccessorMat3, gltf.AccessorMat4}

// typed is one typed reader of package modeler.
type typed struct {
	name  string
	comps []gltf.ComponentType
	types []gltf.AccessorType
	read  func(d *gltf.Document, a *gltf.Accessor, b *scratch) (any, error)
	// conv gives the documented result for one element's raw bits.
	conv func(c gltf.ComponentType, e []uint64) []uint64
}

// scratch is what a caller passes as buffer: nil, or reused memory.
type scratch struct {
	g    *simrt.Stream
	Mode int // 0 nil, 1 empty, 2 dirty
	Len  int
	Cap  int
	raw  []byte // for ReadAccessor
}

func (e *Env) drawScratch() *scratch {
	b := &scratch{g: e.G, Mode: e.G.N(4)}
	if b.Mode >= 2 {
		b.Len = e.G.Size(200)
		b.Cap = b.Len
		if e.G.N(2) == 1 {
			b.Cap += e.G.Size(60)
		}
	}
	return b
}

// bytes returns the buffer for ReadAccessor.
func (b *scratch) bytes() []byte {
	switch b.Mode {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	n := b.Cap * 8
	x := make([]byte, n)
	b.g.Bytes(x)
	b.raw = x
	return x[:b.Len*8]
}

// dirtyOf returns a reused buffer of elements.
func dirtyOf[T any](b *scratch) []T {
	switch b.Mode {
	case 0:
		return nil
	case 1:
		return []T{}
	}
	s := make([]T, b.Cap)
	if len(s) > 0 {
		n := int(unsafe.Sizeof(s[0])) * len(s)
		simrt.FillBytes(unsafe.Slice((*byte)(unsafe.Pointer(&s[0])), n), b.g.U64())
	}
	return s[:b.Len]
}

func same(c gltf.ComponentType, e []uint64) []uint64 { return e }

func f32(f float32) uint64     { return uint64(math.Float32bits(f)) }
func fromF32(b uint64) float32 { return math.Float32frombits(uint32(b)) }

// denorm is the conversion of normalised integers the format defines.
func denorm(c gltf.ComponentType, e []uint64) []uint64 {
	out := make([]uint64, len(e))
	for i, x := range e {
		switch c {
		case gltf.ComponentUbyte:
			out[i] = f32(float32(x) / 255)
		case gltf.ComponentUshort:
			out[i] = f32(float32(x) / 65535)
		default:
			out[i] = x
		}
	}
	return out
}

func color8(c gltf.ComponentType, e []uint64) []uint64 {
	switch c {
	case gltf.ComponentFloat:
		if len(e) == 3 {
			v := gltf.NormalizeRGB([3]float32{fromF32(e[0]), fromF32(e[1]), fromF32(e[2])})
			return []uint64{uint64(v[0]), uint64(v[1]), uint64(v[2]), 255}
		}
		v := gltf.NormalizeRGBA([4]float32{fromF32(e[0]), fromF32(e[1]), fromF32(e[2]), fromF32(e[3])})
		return []uint64{uint64(v[0]), uint64(v[1]), uint64(v[2]), uint64(v[3])}
	}
	out := []uint64{0, 0, 0, 255}
	for i, x := range e {
		out[i] = x & 0xff
	}
	return out
}

func color16(c gltf.ComponentType, e []uint64) []uint64 {
	switch c {
	case gltf.ComponentFloat:
		if len(e) == 3 {
			v := gltf.NormalizeRGB64([3]float32{fromF32(e[0]), fromF32(e[1]), fromF32(e[2])})
			return []uint64{uint64(v[0]), uint64(v[1]), uint64(v[2]), 65535}
		}
		v := gltf.NormalizeRGBA64([4]float32{fromF32(e[0]), fromF32(e[1]), fromF32(e[2]), fromF32(e[3])})
		return []uint64{uint64(v[0]), uint64(v[1]), uint64(v[2]), uint64(v[3])}
	}
	out := []uint64{0, 0, 0, 65535}
	for i, x := range e {
		if c == gltf.ComponentUbyte {
			x |= x << 8
		}
		out[i] = x
	}
	return out
}

type ct = []gltf.ComponentType
type at = []gltf.AccessorType

var floatOnly = ct{gltf.ComponentFloat}
var normTypes = ct{gltf.ComponentFloat, gltf.ComponentUbyte, gltf.ComponentUshort}

var typedReaders = []typed{
	{"ReadIndices", ct{gltf.ComponentUint, gltf.ComponentUbyte, gltf.ComponentUshort}, at{gltf.AccessorScalar},
		func(d *gltf.Document, a *gltf.Accessor, b *scratch) (any, error) {
			return modeler.ReadIndices(d, a, dirtyOf[uint32](b))
		}, same},
	{"ReadNormal", floatOnly, at{gltf.AccessorVec3},
		func(d *gltf.Document, a *gltf.Accessor, b *scratch) (any, error) {
			return modeler.ReadNormal(d, a, dirtyOf[[3]float32](b))
		}, same},
	{"ReadTangent", floatOnly, at{gltf.AccessorVec4},
		func(d *gltf.Document, a *gltf.Accessor, b *scratch) (any, error) {
			return modeler.ReadTangent(d, a, dirtyOf[[4]float32](b))
		}, same},
	{"ReadTextureCoord", normTypes, at{gltf.AccessorVec2},
		func(d *gltf.Document, a *gltf.Accessor, b *scratch) (any, error) {
			return modeler.ReadTextureCoord(d, a, dirtyOf[[2]float32](b))
		}, denorm},
	{"ReadWeights", normTypes, at{gltf.AccessorVec4},
		func(d *gltf.Document, a *gltf.Accessor, b *scratch) (any, error) {
			return modeler.ReadWeights(d, a, dirtyOf[[4]float32](b))
		}, denorm},
	{"ReadJoints", ct{gltf.ComponentUshort, gltf.ComponentUbyte}, at{gltf.AccessorVec4},
		func(d *gltf.Document, a *gltf.Accessor, b *scratch) (any, error) {
			return modeler.ReadJoints(d, a, dirtyOf[[4]uint16](b))
		}, same},
	{"ReadPosition", floatOnly, at{gltf.AccessorVec3},
		func(d *gltf.Document, a *gltf.Accessor, b *scratch) (any, error) {
			return modeler.ReadPosition(d, a, dirtyOf[[3]float32](b))
		}, same},
	{"ReadColor", normTypes, at{gltf.AccessorVec4, gltf.AccessorVec3},
		func(d *gltf.Document, a *gltf.Accessor, b *scratch) (any, error) {
			return modeler.ReadColor(d, a, dirtyOf[[4]uint8](b))
		}, color8},
	{"ReadColor64", normTypes, at{gltf.AccessorVec4, gltf.AccessorVec3},
		func(d *gltf.Document, a *gltf.Accessor, b *scratch) (any, error) {
			return modeler.ReadColor64(d, a, dirtyOf[[4]uint16](b))
		}, color16},
	{"ReadInverseBindMatrices", floatOnly, at{gltf.AccessorMat4},
		func(d *gltf.Document, a *gltf.Accessor, b *scratch) (any, error) {
			return modeler.ReadInverseBindMatrices(d, a, dirtyOf[[4][4]float32](b))
		}, same},
}

func has[T comparable](s []T, v T) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}
