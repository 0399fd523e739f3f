package ref

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"simv/simrt"
)

// Style is how a foreign writer renders JSON.
type Style struct {
	S        *simrt.Stream
	Shuffle  bool // member order
	Space    bool // white space
	Defaults bool // write members that hold their default
	Unknown  bool // add members the specification does not know
	Escapes  bool // escape more than needed
	Numbers  bool // other spellings of numbers
	n        int
}

// DrawStyle chooses a style.
func DrawStyle(s *simrt.Stream) *Style {
	return &Style{S: s, Shuffle: s.N(2) == 1, Space: s.N(2) == 1, Defaults: s.N(2) == 1, Unknown: s.N(3) == 2, Escapes: s.N(3) == 2, Numbers: s.N(2) == 1}
}

func (st *Style) String() string {
	return fmt.Sprintf("shuffle=%v space=%v defaults=%v unknown=%v escapes=%v numbers=%v", st.Shuffle, st.Space, st.Defaults, st.Unknown, st.Escapes, st.Numbers)
}

// Render writes the tree.
func (st *Style) Render(v any) []byte {
	var b strings.Builder
	st.render(&b, v, true)
	return []byte(b.String())
}

func (st *Style) ws(b *strings.Builder) {
	if st.Space && st.S.Chance(1, 3) {
		for i, n := 0, 1+st.S.N(3); i < n; i++ {
			b.WriteString([]string{" ", "\n", "\t", "\r\n"}[st.S.N(4)])
		}
		if st.S.Chance(1, 200) {
			b.WriteString(strings.Repeat(" ", 1+st.S.N(5000)))
		}
	}
}

// spec is false inside extensions and extras, where nothing is added.
func (st *Style) render(b *strings.Builder, v any, spec bool) {
	st.ws(b)
	switch v := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		b.WriteString(strconv.FormatBool(v))
	case string:
		b.WriteString(st.str(v))
	case Raw:
		b.WriteString(string(v))
	case float64:
		b.WriteString(st.num(v))
	case Fl:
		b.WriteString(st.fl(float64(v)))
	case []any:
		b.WriteByte('[')
		for i, x := range v {
			if i > 0 {
				b.WriteByte(',')
			}
			st.render(b, x, spec)
			st.ws(b)
		}
		if len(v) == 0 {
			st.ws(b)
		}
		b.WriteByte(']')
	case *Obj:
		var kv []KV
		for _, m := range v.KV {
			if m.Def && !(st.Defaults && st.S.N(2) == 1) {
				continue
			}
			kv = append(kv, m)
		}
		if spec && st.Unknown && st.S.Chance(1, 4) {
			st.n++
			kv = append(kv, KV{fmt.Sprintf("x_unknown_%d", st.n), st.junk(2), false})
		}
		if st.Shuffle {
			for i := len(kv) - 1; i > 0; i-- {
				j := st.S.N(i + 1)
				kv[i], kv[j] = kv[j], kv[i]
			}
		}
		b.WriteByte('{')
		for i, m := range kv {
			if i > 0 {
				b.WriteByte(',')
			}
			st.ws(b)
			b.WriteString(st.str(m.K))
			st.ws(b)
			b.WriteByte(':')
			sub := spec && m.K != "extensions" && m.K != "extras" && m.K != "attributes" && m.K != "targets"
			st.render(b, m.V, sub)
			st.ws(b)
		}
		if len(kv) == 0 {
			st.ws(b)
		}
		b.WriteByte('}')
	default:
		panic(fmt.Sprintf("render %T", v))
	}
}

func (st *Style) junk(d int) any {
	switch st.S.N(6) {
	case 0:
		return nil
	case 1:
		return "junk {[\"\\,"
	case 2:
		return 1.5
	case 3:
		return true
	case 4:
		if d > 0 {
			return []any{st.junk(d - 1), st.junk(d - 1)}
		}
		return []any{}
	}
	o := &Obj{}
	if d > 0 {
		o.put("uri", st.junk(d-1))
		o.put("byteLength", st.junk(d-1))
		o.put("name", 5.0)
	}
	return o
}

func (st *Style) str(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 0x20:
			switch {
			case r == '\n' && st.S.N(2) == 0:
				b.WriteString(`\n`)
			case r == '\t' && st.S.N(2) == 0:
				b.WriteString(`\t`)
			default:
				fmt.Fprintf(&b, `\u%04x`, r)
			}
		case st.Escapes && st.S.Chance(1, 3):
			if r == '/' && st.S.N(2) == 0 {
				b.WriteString(`\/`)
			} else if r > 0xffff {
				h, l := utf16.EncodeRune(r)
				fmt.Fprintf(&b, `\u%04X\u%04x`, h, l)
			} else {
				fmt.Fprintf(&b, `\u%04X`, r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (st *Style) num(f float64) string {
	std := func() string {
		if math.Abs(f) < 1e15 && f == math.Trunc(f) {
			if f == 0 {
				return "0"
			}
			return strconv.FormatInt(int64(f), 10)
		}
		x, _ := json.Marshal(f)
		return string(x)
	}
	if !st.Numbers {
		return std()
	}
	integer := math.Abs(f) < 1e15 && f == math.Trunc(f)
	if integer {
		return std() // integers are written as integers
	}
	switch st.S.N(5) {
	case 1:
		return strconv.FormatFloat(f, 'e', -1, 64)
	case 2:
		return strconv.FormatFloat(f, 'E', 20, 64)
	case 3:
		if math.Abs(f) < 1e20 && math.Abs(f) > 1e-20 {
			x := strconv.FormatFloat(f, 'f', -1, 64)
			if !strings.Contains(x, ".") {
				x += "."
			}
			return x + "000"
		}
	case 4:
		return strings.Replace(strconv.FormatFloat(f, 'e', -1, 64), "e-0", "e-00", 1)
	}
	return std()
}

// fl spells a number of a floating-point property.
func (st *Style) fl(f float64) string {
	if !st.Numbers || math.Abs(f) >= 1e15 || f != math.Trunc(f) {
		return st.num(f)
	}
	switch st.S.N(5) {
	case 1:
		return strconv.FormatFloat(f, 'f', 1, 64)
	case 2:
		return strconv.FormatFloat(f, 'e', -1, 64)
	case 3:
		return strconv.FormatFloat(f, 'E', 3+15, 64)
	case 4:
		return strconv.FormatFloat(f, 'f', 6, 64)
	}
	return st.num(f)
}

// Valid tells whether all strings in use are valid UTF-8.
func Valid(s string) bool { return utf8.ValidString(s) }
