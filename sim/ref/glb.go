package ref

import (
	"encoding/binary"
	"fmt"
)

// Chunk is a GLB chunk.
type Chunk struct {
	Type uint32
	Data []byte
}

const (
	// ChunkJSON and ChunkBIN are the chunk types the format defines.
	ChunkJSON = 0x4E4F534A
	ChunkBIN  = 0x004E4942
)

// ParseGLB checks the container strictly and returns its chunks.
func ParseGLB(b []byte) ([]Chunk, error) {
	le := binary.LittleEndian
	if len(b) < 20 {
		return nil, fmt.Errorf("only %d bytes", len(b))
	}
	if string(b[:4]) != "glTF" {
		return nil, fmt.Errorf("magic %x", b[:4])
	}
	if v := le.Uint32(b[4:]); v != 2 {
		return nil, fmt.Errorf("version %d", v)
	}
	if n := le.Uint32(b[8:]); int(n) != len(b) {
		return nil, fmt.Errorf("header says %d bytes, file has %d", n, len(b))
	}
	var out []Chunk
	pos := 12
	for pos < len(b) {
		if pos%4 != 0 {
			return nil, fmt.Errorf("chunk starts at %d, not 4-byte aligned", pos)
		}
		if len(b)-pos < 8 {
			return nil, fmt.Errorf("truncated chunk header at %d", pos)
		}
		n, t := int(le.Uint32(b[pos:])), le.Uint32(b[pos+4:])
		pos += 8
		if n%4 != 0 {
			return nil, fmt.Errorf("chunk %x length %d is not a multiple of 4", t, n)
		}
		if n > len(b)-pos {
			return nil, fmt.Errorf("chunk %x of %d bytes overruns the file", t, n)
		}
		out = append(out, Chunk{t, b[pos : pos+n]})
		pos += n
	}
	if len(out) == 0 || out[0].Type != ChunkJSON {
		return nil, fmt.Errorf("first chunk is not JSON")
	}
	for i, c := range out {
		if i > 0 && c.Type == ChunkJSON {
			return nil, fmt.Errorf("second JSON chunk")
		}
		if i != 1 && c.Type == ChunkBIN {
			return nil, fmt.Errorf("BIN chunk is not the second chunk")
		}
	}
	return out, nil
}

// BuildGLB assembles a container.
func BuildGLB(chunks ...Chunk) []byte {
	le := binary.LittleEndian
	b := append([]byte("glTF"), 2, 0, 0, 0, 0, 0, 0, 0)
	for _, c := range chunks {
		b = le.AppendUint32(b, uint32(len(c.Data)))
		b = le.AppendUint32(b, c.Type)
		b = append(b, c.Data...)
	}
	le.PutUint32(b[8:], uint32(len(b)))
	return b
}
