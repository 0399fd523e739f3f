package props

import (
	"fmt"
	"image/color"
	"math"
	"reflect"
	"unsafe"

	"simv/ref"
	"simv/simrt"

	"github.com/qmuntal/gltf"
)

var goKinds = map[gltf.ComponentType]reflect.Type{
	gltf.ComponentByte: reflect.TypeOf(int8(0)), gltf.ComponentUbyte: reflect.TypeOf(uint8(0)),
	gltf.ComponentShort: reflect.TypeOf(int16(0)), gltf.ComponentUshort: reflect.TypeOf(uint16(0)),
	gltf.ComponentUint: reflect.TypeOf(uint32(0)), gltf.ComponentFloat: reflect.TypeOf(float32(0)),
}

// elemType is the Go type of an element.
func elemType(c gltf.ComponentType, t gltf.AccessorType) reflect.Type {
	k := goKinds[c]
	l, _ := ref.LayoutOf(c, t)
	switch {
	case l.Rows == 1:
		return k
	case l.Cols == 1:
		return reflect.ArrayOf(l.Rows, k)
	}
	return reflect.ArrayOf(l.Rows, reflect.ArrayOf(l.Cols, k))
}

// rawOf is the memory of a slice.
func rawOf(v any) []byte {
	rv := reflect.ValueOf(v)
	n := rv.Len() * int(rv.Type().Elem().Size())
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(rv.UnsafePointer()), n)
}

// slice makes a slice of n elements of arbitrary bits.
func (e *Env) slice(c gltf.ComponentType, t gltf.AccessorType, n int) any {
	et := elemType(c, t)
	if c == gltf.ComponentUbyte && t == gltf.AccessorVec4 && e.G.Chance(1, 4) {
		et = reflect.TypeOf(color.RGBA{})
	}
	if c == gltf.ComponentUshort && t == gltf.AccessorVec4 && e.G.Chance(1, 4) {
		et = reflect.TypeOf(color.RGBA64{})
	}
	v := reflect.MakeSlice(reflect.SliceOf(et), n, n+e.G.N(3)).Interface()
	if b := rawOf(v); len(b) > 0 {
		simrt.FillBytes(b, e.G.U64())
	}
	return v
}

var positions = []float32{0, 1, -1, 0.5, -0.25, 3.4028235e38, -3.4028235e38, 1e-45, -1e-45, 16777217, 1.0 / 3, 1e10, -7.5, float32(math.Copysign(0, -1))}

// points makes n finite positions.
func (e *Env) points(n int) [][3]float32 {
	p := make([][3]float32, n)
	if n > 20 && e.G.N(4) > 0 { // a mesh whose bounds lie in few places
		b := make([]byte, 2*n*3)
		simrt.FillBytes(b, e.G.U64())
		for i := range p {
			for j := range p[i] {
				k := 2 * (3*i + j)
				p[i][j] = float32(int16(uint16(b[k])|uint16(b[k+1])<<8)) / 16
			}
		}
		for k := e.G.N(5); k > 0; k-- {
			i := e.G.N(n)
			switch e.G.N(3) {
			case 0:
				i = n - 1 - i%8
			case 1:
				i %= 8
			}
			p[i][e.G.N(3)] = float32(1-2*e.G.N(2)) * float32(3000+e.G.N(50))
		}
		return p
	}
	for i := range p {
		for j := range p[i] {
			if e.G.N(2) == 0 {
				p[i][j] = positions[e.G.N(len(positions))]
			} else {
				p[i][j] = float32(int32(e.G.U64())) / 1024
			}
		}
	}
	return p
}

// bounds of positions, computed independently.
func boundsOf(p [][3]float32) (lo, hi []float64) {
	if len(p) == 0 {
		return nil, nil
	}
	lo, hi = make([]float64, 3), make([]float64, 3)
	for j := 0; j < 3; j++ {
		lo[j], hi[j] = float64(p[0][j]), float64(p[0][j])
		for _, v := range p[1:] {
			if x := float64(v[j]); x < lo[j] {
				lo[j] = x
			} else if x > hi[j] {
				hi[j] = x
			}
		}
	}
	return
}

func typeOf(v any) (c gltf.ComponentType, t gltf.AccessorType) {
	et := reflect.TypeOf(v).Elem()
	switch et {
	case reflect.TypeOf(color.RGBA{}):
		return gltf.ComponentUbyte, gltf.AccessorVec4
	case reflect.TypeOf(color.RGBA64{}):
		return gltf.ComponentUshort, gltf.AccessorVec4
	}
	for _, c := range compTypes {
		for _, t := range accTypes {
			if elemType(c, t) == et {
				return c, t
			}
		}
	}
	panic(fmt.Sprintf("no glTF type for %T", v))
}

// bitsOf copies the raw bits of data.
func bitsOf(v any) [][]uint64 {
	b, err := ref.Bits(v)
	if err != nil {
		panic(err)
	}
	return b
}
