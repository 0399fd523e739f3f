package ref

import (
	"fmt"
	"math"
	"reflect"

	"github.com/qmuntal/gltf"
)

// compSize and compCount describe elements; 0: not a glTF type.
func compSize(c gltf.ComponentType) int {
	switch compCode[c] { // 0 if unknown
	case 5120, 5121:
		return 1
	case 5122, 5123:
		return 2
	case 5125, 5126:
		return 4
	}
	return 0
}

func shape(t gltf.AccessorType) (rows, cols int) {
	switch accName[t] {
	case "SCALAR":
		return 1, 1
	case "VEC2":
		return 2, 1
	case "VEC3":
		return 3, 1
	case "VEC4":
		return 4, 1
	case "MAT2":
		return 2, 2
	case "MAT3":
		return 3, 3
	case "MAT4":
		return 4, 4
	}
	return 0, 0
}

// Layout is how an element is stored.
type Layout struct {
	Rows, Cols, Comp int
	ColSize          int // bytes from column to column
	Need             int // bytes an element really occupies
	Size             int // bytes from element to element when there is no stride
}

// LayoutOf returns the storage of an element; ok is false for types the
// format does not have. Columns of matrices start 4-byte aligned. Elements
// without stride are kept 4-byte aligned by this library when they are
// vectors of bytes or shorts.
func LayoutOf(c gltf.ComponentType, t gltf.AccessorType) (l Layout, ok bool) {
	l.Comp = compSize(c)
	l.Rows, l.Cols = shape(t)
	if l.Comp == 0 || l.Rows == 0 {
		return l, false
	}
	l.ColSize = l.Rows * l.Comp
	if l.Cols > 1 {
		l.ColSize = (l.ColSize + 3) / 4 * 4
	}
	l.Need = (l.Cols-1)*l.ColSize + l.Rows*l.Comp
	l.Size = l.Cols * l.ColSize
	if l.Rows > 1 && l.Cols == 1 {
		l.Size = (l.Size + 3) / 4 * 4
	}
	return l, true
}

// View returns the bytes of a buffer view.
func View(d *gltf.Document, i int) ([]byte, *gltf.BufferView, error) {
	if i < 0 || i >= len(d.BufferViews) || d.BufferViews[i] == nil {
		return nil, nil, fmt.Errorf("no buffer view %d", i)
	}
	bv := d.BufferViews[i]
	b, err := ViewBytes(d, bv)
	return b, bv, err
}

// ViewBytes returns the bytes of a buffer view.
func ViewBytes(d *gltf.Document, bv *gltf.BufferView) ([]byte, error) {
	if bv.Buffer < 0 || bv.Buffer >= len(d.Buffers) || d.Buffers[bv.Buffer] == nil {
		return nil, fmt.Errorf("no buffer %d", bv.Buffer)
	}
	data := d.Buffers[bv.Buffer].Data
	if bv.ByteOffset < 0 || bv.ByteOffset > len(data) || bv.ByteLength < 0 || bv.ByteLength > len(data)-bv.ByteOffset {
		return nil, fmt.Errorf("view of %d bytes at %d in a buffer with %d", bv.ByteLength, bv.ByteOffset, len(data))
	}
	return data[bv.ByteOffset : bv.ByteOffset+bv.ByteLength], nil
}

// Satisfiable tells whether an accessor can be read from the bytes present.
func Satisfiable(d *gltf.Document, a *gltf.Accessor) error {
	if a == nil {
		return fmt.Errorf("null")
	}
	l, ok := LayoutOf(a.ComponentType, a.Type)
	if !ok {
		return fmt.Errorf("no such type")
	}
	if a.Count < 0 {
		return fmt.Errorf("negative count")
	}
	if a.BufferView != nil {
		b, bv, err := View(d, *a.BufferView)
		if err != nil {
			return err
		}
		if a.ByteOffset < 0 || a.ByteOffset > len(b) {
			return fmt.Errorf("offset %d in a view of %d bytes", a.ByteOffset, len(b))
		}
		if bv.ByteStride < 0 {
			return fmt.Errorf("negative stride")
		}
		stride := bv.ByteStride
		if stride == 0 {
			stride = l.Size
		}
		left := len(b) - a.ByteOffset
		if a.Count > 0 && (left < l.Need || a.Count-1 > (left-l.Need)/stride) {
			return fmt.Errorf("%d elements with stride %d in %d bytes", a.Count, stride, left)
		}
	}
	if s := a.Sparse; s != nil {
		switch s.Indices.ComponentType {
		case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint:
		default:
			return fmt.Errorf("indices type")
		}
		ia, va := sparse(a)
		if err := Satisfiable(d, ia); err != nil {
			return fmt.Errorf("indices: %w", err)
		}
		if err := Satisfiable(d, va); err != nil {
			return fmt.Errorf("values: %w", err)
		}
		idx := dense(d, ia)
		for _, e := range idx {
			if e[0] >= uint64(a.Count) {
				return fmt.Errorf("sparse index %d of %d", e[0], a.Count)
			}
		}
	}
	return nil
}

func sparse(a *gltf.Accessor) (ia, va *gltf.Accessor) {
	s := a.Sparse
	iv, vv := s.Indices.BufferView, s.Values.BufferView
	ia = &gltf.Accessor{BufferView: &iv, ByteOffset: s.Indices.ByteOffset, ComponentType: s.Indices.ComponentType, Type: gltf.AccessorScalar, Count: s.Count}
	va = &gltf.Accessor{BufferView: &vv, ByteOffset: s.Values.ByteOffset, ComponentType: a.ComponentType, Type: a.Type, Count: s.Count}
	return
}

// dense reads a satisfiable accessor without its sparse part.
func dense(d *gltf.Document, a *gltf.Accessor) [][]uint64 {
	l, _ := LayoutOf(a.ComponentType, a.Type)
	out := make([][]uint64, a.Count)
	var b []byte
	stride := l.Size
	if a.BufferView != nil {
		v, bv, _ := View(d, *a.BufferView)
		b = v[a.ByteOffset:]
		if bv.ByteStride != 0 {
			stride = bv.ByteStride
		}
	}
	for i := range out {
		e := make([]uint64, 0, l.Rows*l.Cols)
		for r := 0; r < l.Rows; r++ {
			for c := 0; c < l.Cols; c++ {
				var x uint64
				if b != nil {
					p := i*stride + c*l.ColSize + r*l.Comp
					for k := 0; k < l.Comp; k++ {
						x |= uint64(b[p+k]) << (8 * k)
					}
				}
				e = append(e, x)
			}
		}
		out[i] = e
	}
	return out
}

// Values are the elements an accessor defines, as raw bits of the components
// in row-major order; the accessor must be satisfiable.
func Values(d *gltf.Document, a *gltf.Accessor) [][]uint64 {
	out := dense(d, a)
	if a.Sparse != nil {
		ia, va := sparse(a)
		idx, val := dense(d, ia), dense(d, va)
		for i := range idx {
			out[idx[i][0]] = val[i]
		}
	}
	return out
}

// Bits flattens a slice of components, arrays or matrices to raw bits.
func Bits(v any) ([][]uint64, error) {
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Slice {
		return nil, fmt.Errorf("result is a %T", v)
	}
	out := make([][]uint64, rv.Len())
	for i := range out {
		e, err := flat(nil, rv.Index(i))
		if err != nil {
			return nil, err
		}
		out[i] = e
	}
	return out, nil
}

func flat(out []uint64, v reflect.Value) ([]uint64, error) {
	switch x := v.Interface().(type) {
	case uint8:
		return append(out, uint64(x)), nil
	case int8:
		return append(out, uint64(uint8(x))), nil
	case uint16:
		return append(out, uint64(x)), nil
	case int16:
		return append(out, uint64(uint16(x))), nil
	case uint32:
		return append(out, uint64(x)), nil
	case float32:
		return append(out, uint64(math.Float32bits(x))), nil
	}
	if v.Kind() != reflect.Array && v.Kind() != reflect.Struct {
		return nil, fmt.Errorf("element is a %s", v.Type())
	}
	var err error
	if v.Kind() == reflect.Struct { // color.RGBA and the like
		for i := 0; i < v.NumField(); i++ {
			if out, err = flat(out, v.Field(i)); err != nil {
				return nil, err
			}
		}
		return out, nil
	}
	for i := 0; i < v.Len(); i++ {
		if out, err = flat(out, v.Index(i)); err != nil {
			return nil, err
		}
	}
	return out, nil
}

// GoType is the element type of results: kind of the component.
func GoType(c gltf.ComponentType) string {
	switch compCode[c] { // 0 if unknown
	case 5120:
		return "int8"
	case 5121:
		return "uint8"
	case 5122:
		return "int16"
	case 5123:
		return "uint16"
	case 5125:
		return "uint32"
	}
	return "float32"
}

// TypeName is the Go type of the slice of elements.
func TypeName(c gltf.ComponentType, t gltf.AccessorType) string {
	r, k := shape(t)
	switch {
	case r == 1:
		return "[]" + GoType(c)
	case k == 1:
		return fmt.Sprintf("[][%d]%s", r, GoType(c))
	}
	return fmt.Sprintf("[][%d][%d]%s", r, k, GoType(c))
}

// SameBits compares elements; "" if equal.
func SameBits(got, want [][]uint64) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d elements instead of %d", len(got), len(want))
	}
	for i := range want {
		if len(got[i]) != len(want[i]) {
			return fmt.Sprintf("element %d has %d components instead of %d", i, len(got[i]), len(want[i]))
		}
		for j := range want[i] {
			if got[i][j] != want[i][j] {
				return fmt.Sprintf("component %d of element %d of %d is %#x instead of %#x", j, i, len(want), got[i][j], want[i][j])
			}
		}
	}
	return ""
}
