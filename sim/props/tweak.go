package props

import (
	"encoding/json"
	"math"
	"reflect"

	"github.com/qmuntal/gltf"
)

// tweak changes one value somewhere in the document, in place, which leaves it
// as valid as it was. It reports what kind of value that was.
func (e *Env) tweak(d *gltf.Document) string {
	g := e.G
	var set []func() string
	seen := map[any]bool{}
	var walk func(v reflect.Value, field string)
	walk = func(v reflect.Value, field string) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() && !seen[v.Interface()] {
				seen[v.Interface()] = true
				walk(v.Elem(), field)
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), field)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.PkgPath == "" {
					walk(v.Field(i), f.Name)
				}
			}
		case reflect.Slice:
			if _, ok := v.Interface().(json.RawMessage); ok {
				return
			}
			if b, ok := v.Interface().([]byte); ok && field == "Data" && len(b) > 0 {
				for i := 0; i < 3; i++ {
					set = append(set, func() string {
						b[g.N(len(b))] ^= byte(1 + g.N(255))
						return "byte of a buffer"
					})
				}
			}
			if k := v.Type().Elem().Kind(); k == reflect.Uint8 || k == reflect.Int {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), field)
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), field)
			}
		case reflect.Map:
			m := v
			if x, ok := v.Interface().(gltf.Extensions); ok {
				for _, k := range sortedKeys(x) {
					k := k
					if _, ok := x[k].(json.RawMessage); ok {
						set = append(set, func() string { x[k] = json.RawMessage(`{"tweaked":[1,{}]}`); return "raw payload" })
					} else if x[k] != nil {
						walk(m.MapIndex(reflect.ValueOf(k)), field)
					}
				}
			}
			if x, ok := v.Interface().(map[string]any); ok {
				for _, k := range sortedKeys(x) {
					k := k
					set = append(set, func() string { x[k] = float64(g.N(100)); return "extras" })
				}
			}
		case reflect.Float64:
			if v.CanSet() {
				set = append(set, func() string { v.SetFloat(float64(1+g.N(63)) / 64); return field })
			}
		case reflect.String:
			if v.CanSet() && (field == "Name" || field == "Generator" || field == "Copyright") {
				set = append(set, func() string { v.SetString([]string{"tweaked", "t", v.String() + "+"}[g.N(3)]); return field })
			}
		}
	}
	walk(reflect.ValueOf(d), "")
	if len(set) == 0 {
		d.Asset.Copyright = "tweaked"
		return "Copyright"
	}
	return set[g.N(len(set))]()
}

// odd puts values into the document that no valid asset has, at up to n
// places: whatever can be there without breaking the lists of objects or the
// way buffers are stored.
func (e *Env) odd(d *gltf.Document, n int) {
	g := e.G
	var set []func()
	seen := map[any]bool{}
	pick := func(f func()) { set = append(set, f) }
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Interface()] {
				if v.IsNil() && v.CanSet() && v.Type().Elem().Kind() != reflect.Struct {
					pick(func() { v.Set(reflect.New(v.Type().Elem())) })
				}
				return
			}
			seen[v.Interface()] = true
			if v.CanSet() && v.Type().Elem().Kind() != reflect.Struct {
				pick(func() { v.Set(reflect.Zero(v.Type())) })
			}
			if _, ok := v.Interface().(*gltf.Buffer); ok {
				walk(v.Elem().FieldByName("Name"))
				walk(v.Elem().FieldByName("Extensions"))
				return
			}
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			if k := v.Type().Elem().Kind(); v.CanSet() && k != reflect.Ptr && k != reflect.Uint8 && k != reflect.Struct && k != reflect.Interface {
				pick(func() {
					switch g.N(4) {
					case 0:
						v.Set(reflect.Zero(v.Type()))
					case 1:
						v.Set(reflect.MakeSlice(v.Type(), 0, 3))
					case 2:
						v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
					case 3:
						if v.Len() > 0 {
							v.Set(reflect.AppendSlice(v, v.Slice(0, 1+g.N(v.Len()))))
						}
					}
				})
			}
			if v.Type().Elem().Kind() == reflect.Uint8 {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			if x, ok := v.Interface().(gltf.Extensions); ok {
				for _, k := range sortedKeys(x) {
					if _, ok := x[k].(json.RawMessage); !ok && x[k] != nil {
						walk(v.MapIndex(reflect.ValueOf(k)))
					}
				}
			}
			if v.CanSet() {
				pick(func() { v.Set(reflect.Zero(v.Type())) })
				pick(func() { v.Set(reflect.MakeMap(v.Type())) })
			}
		case reflect.String:
			if v.CanSet() {
				pick(func() { v.SetString([]string{"", "x", " ", "\xff", "TRIANGLES", v.String() + " "}[g.N(6)]) })
			}
		case reflect.Bool:
			if v.CanSet() {
				pick(func() { v.SetBool(!v.Bool()) })
			}
		case reflect.Float64:
			if v.CanSet() {
				pick(func() { v.SetFloat([]float64{0, 1, -1, 1e300, math.Copysign(0, -1), 0.5, math.NaN()}[g.N(6+g.N(2))]) })
			}
		case reflect.Int:
			if v.CanSet() {
				pick(func() { v.SetInt([]int64{0, 1, -1, 99, 1 << 40}[g.N(5)]) })
			}
		case reflect.Uint8, reflect.Uint16, reflect.Uint32:
			if v.CanSet() {
				pick(func() { v.SetUint([]uint64{0, 1, 3, 200}[g.N(4)]) })
			}
		}
	}
	walk(reflect.ValueOf(d))
	for i := 1 + g.N(n); i > 0 && len(set) > 0; i-- {
		set[g.N(len(set))]()
	}
}

// spoil overwrites everything a caller can reach from what the library gave
// it, all values and all memory, in place.
func spoil(x any) {
	seen := map[any]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() && !seen[v.Interface()] {
				seen[v.Interface()] = true
				walk(v.Elem())
			}
		case reflect.Interface:
			if v.IsNil() {
				return
			}
			switch v.Elem().Kind() {
			case reflect.Ptr, reflect.Slice, reflect.Map:
				walk(v.Elem())
			case reflect.String, reflect.Float64, reflect.Bool:
				if v.CanSet() && v.NumMethod() == 0 {
					v.Set(reflect.ValueOf("spoiled"))
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				b := v.Slice(0, v.Cap()).Bytes()
				for i := range b {
					b[i] = '@'
				}
				return
			}
			n, v := v.Len(), v.Slice(0, v.Cap())
			for i := 0; i < v.Len(); i++ {
				switch v.Index(i).Kind() {
				case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice, reflect.Struct:
					if i >= n { // appended, perhaps
						v.Index(i).Set(reflect.Zero(v.Type().Elem()))
						continue
					}
				}
				walk(v.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			for it := v.MapRange(); it.Next(); {
				switch e := it.Value(); e.Kind() {
				case reflect.Interface, reflect.Ptr, reflect.Slice, reflect.Map:
					walk(e)
				}
			}
			if m, ok := v.Interface().(map[string]any); ok {
				for _, k := range sortedKeys(m) {
					m[k] = "spoiled"
				}
			}
			if v.Type().Key().Kind() == reflect.String && !v.IsNil() {
				v.SetMapIndex(reflect.ValueOf("spoiled").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
			}
		case reflect.String:
			if v.CanSet() {
				v.SetString("spoiled")
			}
		case reflect.Bool:
			if v.CanSet() {
				v.SetBool(!v.Bool())
			}
		case reflect.Float32, reflect.Float64:
			if v.CanSet() {
				v.SetFloat(-77.25)
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
			if v.CanSet() {
				v.SetInt(7)
			}
		case reflect.Uint8, reflect.Uint16, reflect.Uint32:
			if v.CanSet() {
				v.SetUint(2)
			}
		}
	}
	walk(reflect.ValueOf(x))
}
