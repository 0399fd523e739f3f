package props

import (
	"encoding/base64"
	"fmt"
	"net/url"
	"path"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"simv/ref"
	"simv/simrt"

	"github.com/qmuntal/gltf"
)

// normURI is the file an external URI means.
func normURI(u string) string {
	u = strings.ReplaceAll(u, "\\", "/")
	if v, err := url.PathUnescape(u); err == nil {
		u = v
	}
	return path.Clean(u)
}

func bufKind(b *gltf.Buffer) string {
	switch {
	case b.URI == "":
		return "bin"
	case strings.HasPrefix(b.URI, "data:"):
		return "embedded"
	}
	return "external:" + normURI(b.URI)
}

// Content is the canonical description of a document including its buffers'
// bytes. As saved it tells what the document is to be after a round trip.
func Content(d *gltf.Document) string {
	t := ref.Tree(d, func(i int, b *gltf.Buffer) (string, bool) { return bufKind(b), true })
	return ref.Canon(t) + dataText(d)
}

// Saved is the Content a document has after encoding and decoding it.
func Saved(d *gltf.Document, binary bool) string {
	t := ref.Tree(d, func(i int, b *gltf.Buffer) (string, bool) {
		if b.URI == "" && !(binary && i == 0) {
			return "embedded", true
		}
		return bufKind(b), true
	})
	return ref.Canon(t) + dataText(d)
}

// Rest is the content without buffer kinds (how they are stored).
func Rest(d *gltf.Document) string {
	t := ref.Tree(d, func(i int, b *gltf.Buffer) (string, bool) { return "", false })
	return ref.Canon(t) + dataText(d)
}

func dataText(d *gltf.Document) string {
	var b strings.Builder
	for i, x := range d.Buffers {
		if x != nil {
			fmt.Fprintf(&b, "\nbuffer %d: %d bytes %x", i, len(x.Data), simrt.HashBytes(x.Data))
		}
	}
	return b.String()
}

// dataURI decodes a data URI independently.
func dataURI(u string) ([]byte, bool) {
	if !strings.HasPrefix(u, "data:") {
		return nil, false
	}
	i := strings.Index(u, ",")
	if i < 0 || !strings.HasSuffix(u[:i], ";base64") {
		return nil, false
	}
	b, err := base64.StdEncoding.DecodeString(u[i+1:])
	return b, err == nil
}

// Dump describes a value completely, including nil-ness, lengths and bytes.
func Dump(v any) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 60 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.String:
		s := v.String()
		if len(s) > 200 {
			fmt.Fprintf(b, "%q..#%d:%x", s[:40], len(s), simrt.HashString(s))
		} else {
			b.WriteString(strconv.Quote(s))
		}
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "<%s>", v.Elem().Type())
		dump(b, v.Elem(), depth+1)
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		dump(b, v.Elem(), depth+1)
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil[]")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "bytes#%d:%x", v.Len(), simrt.HashBytes(v.Bytes()))
			return
		}
		fallthrough
	case reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			dump(b, v.Index(i), depth+1)
		}
		b.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil{}")
			return
		}
		var parts []string
		it := v.MapRange()
		for it.Next() {
			var x strings.Builder
			dump(&x, it.Key(), depth+1)
			x.WriteByte(':')
			dump(&x, it.Value(), depth+1)
			parts = append(parts, x.String())
		}
		sort.Strings(parts)
		b.WriteByte('{')
		b.WriteString(strings.Join(parts, " "))
		b.WriteByte('}')
	case reflect.Struct:
		b.WriteString(v.Type().Name())
		b.WriteByte('(')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			dump(b, v.Field(i), depth+1)
		}
		b.WriteByte(')')
	default:
		fmt.Fprintf(b, "?%s", v.Kind())
	}
}
