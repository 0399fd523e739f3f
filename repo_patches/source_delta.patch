From da788c7a94bafbeea16df43476b43a34d892095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 01/26] fix: report errors of every write of a GLB

encodeBinary only looked at the results of its first and last writes, so a
failure to write the JSON text, its padding, the BIN header or the BIN data
was reported as success.
---
 encode.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/encode.go b/encode.go
index f8a29ad..a81bc4d 100644
--- a/encode.go
+++ b/encode.go
@@ -175,8 +175,12 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	e.w.Write(jsonText)
-	e.w.Write(headerPadding)
+	if _, err = e.w.Write(jsonText); err != nil {
+		return false, err
+	}
+	if _, err = e.w.Write(headerPadding); err != nil {
+		return false, err
+	}
 
 	if hasBinChunk {
 		binBuffer := doc.Buffers[0]
@@ -185,8 +189,12 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 			binPadding[i] = 0
 		}
 		binHeader := chunkHeader{Length: uint32(binPaddedLength), Type: glbChunkBIN}
-		binary.Write(e.w, binary.LittleEndian, &binHeader)
-		e.w.Write(binBuffer.Data)
+		if err = binary.Write(e.w, binary.LittleEndian, &binHeader); err != nil {
+			return false, err
+		}
+		if _, err = e.w.Write(binBuffer.Data); err != nil {
+			return false, err
+		}
 		_, err = e.w.Write(binPadding)
 	}
 
-- 
2.43.0


From fcbf4bac07c6e2f03e3e8dd6e9f5488ab58be10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:15 +0000
Subject: [PATCH 02/26] fix: write buffers whose name is not a valid URI
 reference

A buffer whose URI cannot be parsed ("100%.bin", "my file:1.bin"), as left
in a document by decoding an escaped URI, was skipped without an error. Use
the name as it is, like the decoder does, and validate the name that is used.
---
 encode.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/encode.go b/encode.go
index a81bc4d..cec1447 100644
--- a/encode.go
+++ b/encode.go
@@ -123,16 +123,17 @@ func (e *Encoder) Encode(doc *Document) error {
 }
 
 func (e *Encoder) encodeBuffer(buffer *Buffer) error {
-	if err := validateBufferURI(buffer.URI); err != nil {
+	uri, ok := sanitizeURI(buffer.URI)
+	if !ok {
+		// Not a valid URI reference, the decoder uses it as it is.
+		uri = buffer.URI
+	}
+	if err := validateBufferURI(uri); err != nil {
 		return err
 	}
 	if e.Fsys == nil {
 		return nil
 	}
-	uri, ok := sanitizeURI(buffer.URI)
-	if !ok {
-		return nil
-	}
 	w, err := e.Fsys.Create(uri)
 	if err != nil {
 		return err
-- 
2.43.0


From 1da45efeefbfd7bf320908275fa10320b53ddc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 03/26] fix: never name a buffer outside the directory of the
 asset

A URI which looks like it has a scheme once unescaped ("x%3A/../../evil") was
not checked at all. Names are always validated; encoded names are validated
after unescaping ("%2e%2e/evil.bin", "..\\evil.bin").
---
 decoder.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 8ca826c..7e6cd1a 100644
--- a/decoder.go
+++ b/decoder.go
@@ -192,9 +192,6 @@ func (d *Decoder) validateBuffer(buffer *Buffer) error {
 }
 
 func validateBufferURI(uri string) error {
-	if u, err := url.Parse(uri); err == nil && u.Scheme != "" {
-		return nil
-	}
 	if !filepath.IsLocal(uri) {
 		return fmt.Errorf("gltf: Invalid buffer.uri value '%s'", uri)
 	}
-- 
2.43.0


From 03848a9649f12176d1d20a916e67ca632051fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:45 +0000
Subject: [PATCH 04/26] fix: skip the rest of the JSON chunk before reading the
 BIN chunk

json.Decoder does not read past the end of the value, so depending on how
many bytes the source returned at a time part of the padding of the JSON chunk
was taken for the header of the BIN chunk.
---
 decoder.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/decoder.go b/decoder.go
index 7e6cd1a..99e33fd 100644
--- a/decoder.go
+++ b/decoder.go
@@ -97,20 +97,18 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	var (
-		jd       *json.Decoder
-		isBinary bool
-	)
-	if glbHeader != nil {
-		jd = json.NewDecoder(&io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)})
-		isBinary = true
-	} else {
-		jd = json.NewDecoder(d.r)
-		isBinary = false
+	if glbHeader == nil {
+		return false, json.NewDecoder(d.r).Decode(doc)
 	}
-
-	err = jd.Decode(doc)
-	return isBinary, err
+	lr := &io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)}
+	if err = json.NewDecoder(lr).Decode(doc); err != nil {
+		return true, err
+	}
+	// The JSON decoder may stop before the end of the chunk, skip the padding.
+	if _, err = d.r.Discard(int(lr.N)); err == io.EOF {
+		err = nil
+	}
+	return true, err
 }
 
 func (d *Decoder) readGLBHeader() (*glbHeader, error) {
-- 
2.43.0


From c260de6c1f2a1f9bdd4f73ac6168cb9b5ae6bf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:10 +0000
Subject: [PATCH 05/26] fix: encode lights the way they are decoded

A decoded light list or light index was encoded as a bare array or number,
which does not decode again, and the default range, infinity, made Encode
fail.
---
 ext/lightspunctual/lightspunctual.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ext/lightspunctual/lightspunctual.go b/ext/lightspunctual/lightspunctual.go
index 6365db3..c7ff2ad 100644
--- a/ext/lightspunctual/lightspunctual.go
+++ b/ext/lightspunctual/lightspunctual.go
@@ -48,6 +48,13 @@ const (
 // LightIndex is the id of the light referenced by this node.
 type LightIndex int
 
+// MarshalJSON marshal the light index as the node extension object.
+func (l LightIndex) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct {
+		Light int `json:"light"`
+	}{int(l)})
+}
+
 // Spot defines the spot cone.
 type Spot struct {
 	InnerConeAngle float64  `json:"innerConeAngle,omitempty"`
@@ -76,6 +83,13 @@ func (s *Spot) UnmarshalJSON(data []byte) error {
 // Lights defines a list of Lights.
 type Lights []*Light
 
+// MarshalJSON marshal the lights as the document extension object.
+func (l Lights) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct {
+		Lights []*Light `json:"lights,omitempty"`
+	}{l})
+}
+
 // Light defines a directional, point, or spot light.
 // When a light's type is spot, the spot property on the light is required.
 type Light struct {
@@ -113,3 +127,14 @@ func (l *Light) UnmarshalJSON(data []byte) error {
 	}
 	return err
 }
+
+// MarshalJSON marshal the light with the correct default values.
+func (l *Light) MarshalJSON() ([]byte, error) {
+	type alias Light
+	tmp := alias(*l)
+	if tmp.Range != nil && math.IsInf(*tmp.Range, 1) {
+		// An infinite range is the default and has no JSON representation.
+		tmp.Range = nil
+	}
+	return json.Marshal(&tmp)
+}
-- 
2.43.0


From c316ce2cb04190a9c950726668bcc9183e7e0000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 06/26] fix: omit default values of extensions without editing
 the JSON text

Removing the text of a default value from the encoded bytes also removed or
damaged equal text and adjacent commas nested in textures, extras and strings,
giving changed or malformed JSON.
---
 ext/specular/specular.go          | 34 +++++++++--------------------
 ext/texturetransform/transform.go | 36 +++++++++++--------------------
 2 files changed, 22 insertions(+), 48 deletions(-)

diff --git a/ext/specular/specular.go b/ext/specular/specular.go
index 6752474..ce19307 100644
--- a/ext/specular/specular.go
+++ b/ext/specular/specular.go
@@ -1,7 +1,6 @@
 package specular
 
 import (
-	"bytes"
 	"encoding/json"
 
 	"github.com/qmuntal/gltf"
@@ -46,28 +45,15 @@ func (p *PBRSpecularGlossiness) UnmarshalJSON(data []byte) error {
 // MarshalJSON marshal the pbr with the correct default values.
 func (p *PBRSpecularGlossiness) MarshalJSON() ([]byte, error) {
 	type alias PBRSpecularGlossiness
-	out, err := json.Marshal(&struct{ *alias }{alias: (*alias)(p)})
-	if err == nil {
-		if p.GlossinessFactor != nil && *p.GlossinessFactor == 1 {
-			out = removeProperty([]byte(`"glossinessFactor":1`), out)
-		}
-		if p.DiffuseFactor != nil && *p.DiffuseFactor == [4]float64{1, 1, 1, 1} {
-			out = removeProperty([]byte(`"diffuseFactor":[1,1,1,1]`), out)
-		}
-		if p.SpecularFactor != nil && *p.SpecularFactor == [3]float64{1, 1, 1} {
-			out = removeProperty([]byte(`"specularFactor":[1,1,1]`), out)
-		}
-		out = sanitizeJSON(out)
+	tmp := alias(*p)
+	if tmp.GlossinessFactor != nil && *tmp.GlossinessFactor == 1 {
+		tmp.GlossinessFactor = nil
 	}
-	return out, err
-}
-
-func removeProperty(str []byte, b []byte) []byte {
-	b = bytes.Replace(b, str, []byte(""), 1)
-	return bytes.Replace(b, []byte(`,,`), []byte(","), 1)
-}
-
-func sanitizeJSON(b []byte) []byte {
-	b = bytes.Replace(b, []byte(`{,`), []byte("{"), 1)
-	return bytes.Replace(b, []byte(`,}`), []byte("}"), 1)
+	if tmp.DiffuseFactor != nil && *tmp.DiffuseFactor == [4]float64{1, 1, 1, 1} {
+		tmp.DiffuseFactor = nil
+	}
+	if tmp.SpecularFactor != nil && *tmp.SpecularFactor == [3]float64{1, 1, 1} {
+		tmp.SpecularFactor = nil
+	}
+	return json.Marshal(&tmp)
 }
diff --git a/ext/texturetransform/transform.go b/ext/texturetransform/transform.go
index 9d4c496..83001c4 100644
--- a/ext/texturetransform/transform.go
+++ b/ext/texturetransform/transform.go
@@ -1,7 +1,6 @@
 package texturetransform
 
 import (
-	"bytes"
 	"encoding/json"
 
 	"github.com/qmuntal/gltf"
@@ -59,28 +58,17 @@ func (t *TextureTranform) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON marshal the pbr with the correct default values.
 func (t *TextureTranform) MarshalJSON() ([]byte, error) {
-	type alias TextureTranform
-	out, err := json.Marshal(&struct{ *alias }{alias: (*alias)(t)})
-	if err == nil {
-		if t.Scale == DefaultScale {
-			out = removeProperty([]byte(`"scale":[1,1]`), out)
-		} else if t.Scale == emptyScale {
-			out = removeProperty([]byte(`"scale":[0,0]`), out)
-		}
-		if t.Offset == emptyOffset {
-			out = removeProperty([]byte(`"offset":[0,0]`), out)
-		}
-		out = sanitizeJSON(out)
+	tmp := struct {
+		Offset   *[2]float64 `json:"offset,omitempty"`
+		Rotation float64     `json:"rotation,omitempty"`
+		Scale    *[2]float64 `json:"scale,omitempty"`
+		TexCoord *int        `json:"texCoord,omitempty"`
+	}{Rotation: t.Rotation, TexCoord: t.TexCoord}
+	if t.Offset != emptyOffset {
+		tmp.Offset = &t.Offset
 	}
-	return out, err
-}
-
-func removeProperty(str []byte, b []byte) []byte {
-	b = bytes.Replace(b, str, []byte(""), 1)
-	return bytes.Replace(b, []byte(`,,`), []byte(","), 1)
-}
-
-func sanitizeJSON(b []byte) []byte {
-	b = bytes.Replace(b, []byte(`{,`), []byte("{"), 1)
-	return bytes.Replace(b, []byte(`,}`), []byte("}"), 1)
+	if t.Scale != DefaultScale && t.Scale != emptyScale {
+		tmp.Scale = &t.Scale
+	}
+	return json.Marshal(&tmp)
 }
-- 
2.43.0


From f7a2710f59112f32b00e8bc47c6e9ec5ad4b7ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:20 +0000
Subject: [PATCH 07/26] fix: reject null buffers and images and impossible
 buffer lengths

Decoding a document with a null buffer or image, a negative byteLength or a
GLB buffer length above 4 GiB panicked.
---
 decoder.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 99e33fd..0f60a24 100644
--- a/decoder.go
+++ b/decoder.go
@@ -63,6 +63,9 @@ func (d *Decoder) Decode(doc *Document) error {
 	}
 
 	for _, b := range doc.Buffers {
+		if b == nil {
+			return errors.New("gltf: Invalid null buffer")
+		}
 		if !b.IsEmbeddedResource() {
 			if uri, ok := sanitizeURI(b.URI); ok {
 				b.URI = uri
@@ -70,6 +73,9 @@ func (d *Decoder) Decode(doc *Document) error {
 		}
 	}
 	for _, im := range doc.Images {
+		if im == nil {
+			return errors.New("gltf: Invalid null image")
+		}
 		if !im.IsEmbeddedResource() {
 			if uri, ok := sanitizeURI(im.URI); ok {
 				im.URI = uri
@@ -174,7 +180,7 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 	if err != nil {
 		return err
 	}
-	if header.Type != glbChunkBIN || header.Length < uint32(buffer.ByteLength) {
+	if header.Type != glbChunkBIN || uint64(header.Length) < uint64(buffer.ByteLength) {
 		return errors.New("gltf: Invalid GLB BIN header")
 	}
 	buffer.Data = make([]byte, buffer.ByteLength)
@@ -183,8 +189,8 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 }
 
 func (d *Decoder) validateBuffer(buffer *Buffer) error {
-	if buffer.ByteLength == 0 {
-		return errors.New("gltf: Invalid buffer.byteLength value = 0")
+	if buffer.ByteLength <= 0 {
+		return fmt.Errorf("gltf: Invalid buffer.byteLength value = %d", buffer.ByteLength)
 	}
 	return nil
 }
-- 
2.43.0


From 107b4ecf6085471571560dcd0c2c1ff2ff28850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 08/26] fix: do not allocate more memory than a truncated GLB
 can fill

A file of a few bytes which declares a BIN chunk of 4 GiB made the decoder
allocate all of it before noticing that there is no data.
---
 decoder.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 0f60a24..35df0d7 100644
--- a/decoder.go
+++ b/decoder.go
@@ -183,11 +183,40 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 	if header.Type != glbChunkBIN || uint64(header.Length) < uint64(buffer.ByteLength) {
 		return errors.New("gltf: Invalid GLB BIN header")
 	}
-	buffer.Data = make([]byte, buffer.ByteLength)
-	_, err = io.ReadFull(d.r, buffer.Data)
+	buffer.Data, err = readBytes(d.r, buffer.ByteLength)
 	return err
 }
 
+// readBytes reads exactly n bytes from r. The memory it takes is in
+// proportion to what r really holds, as n may come from a malformed document.
+func readBytes(r io.Reader, n int) ([]byte, error) {
+	const chunk = 1 << 20
+	data := make([]byte, 0, min(n, chunk))
+	for {
+		m, err := io.ReadFull(r, data[len(data):cap(data)])
+		data = data[:len(data)+m]
+		if err != nil {
+			if err == io.EOF && len(data) > 0 {
+				err = io.ErrUnexpectedEOF
+			}
+			return data, err
+		}
+		if len(data) == n {
+			return data, nil
+		}
+		grown := make([]byte, len(data), min(n, 2*len(data)))
+		copy(grown, data)
+		data = grown
+	}
+}
+
+func min(a, b int) int {
+	if a < b {
+		return a
+	}
+	return b
+}
+
 func (d *Decoder) validateBuffer(buffer *Buffer) error {
 	if buffer.ByteLength <= 0 {
 		return fmt.Errorf("gltf: Invalid buffer.byteLength value = %d", buffer.ByteLength)
-- 
2.43.0


From 67217d7cc205dda6956809e3e9d2feae68b4ae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:02 +0000
Subject: [PATCH 09/26] fix: give up on a source which never makes progress

Reading the JSON text or the BIN chunk from a reader which keeps returning
neither data nor an error never ended; return io.ErrNoProgress as bufio does.
---
 decoder.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index 35df0d7..30c0d26 100644
--- a/decoder.go
+++ b/decoder.go
@@ -104,9 +104,9 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 		return false, err
 	}
 	if glbHeader == nil {
-		return false, json.NewDecoder(d.r).Decode(doc)
+		return false, json.NewDecoder(progressReader{d.r}).Decode(doc)
 	}
-	lr := &io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)}
+	lr := &io.LimitedReader{R: progressReader{d.r}, N: int64(glbHeader.JSONHeader.Length)}
 	if err = json.NewDecoder(lr).Decode(doc); err != nil {
 		return true, err
 	}
@@ -141,12 +141,29 @@ func (d *Decoder) validateGLBHeader(header *glbHeader) error {
 
 func (d *Decoder) chunkHeader() (*chunkHeader, error) {
 	var header chunkHeader
-	if err := binary.Read(d.r, binary.LittleEndian, &header); err != nil {
+	if err := binary.Read(progressReader{d.r}, binary.LittleEndian, &header); err != nil {
 		return nil, err
 	}
 	return &header, nil
 }
 
+// progressReader reads from r, but fails with io.ErrNoProgress if r
+// repeatedly returns neither data nor an error.
+type progressReader struct {
+	r io.Reader
+}
+
+func (p progressReader) Read(b []byte) (n int, err error) {
+	const maxConsecutiveEmptyReads = 100
+	for i := 0; i < maxConsecutiveEmptyReads; i++ {
+		n, err = p.r.Read(b)
+		if n > 0 || err != nil || len(b) == 0 {
+			return n, err
+		}
+	}
+	return 0, io.ErrNoProgress
+}
+
 func (d *Decoder) decodeBuffer(buffer *Buffer) error {
 	if err := d.validateBuffer(buffer); err != nil {
 		return err
@@ -183,7 +200,7 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 	if header.Type != glbChunkBIN || uint64(header.Length) < uint64(buffer.ByteLength) {
 		return errors.New("gltf: Invalid GLB BIN header")
 	}
-	buffer.Data, err = readBytes(d.r, buffer.ByteLength)
+	buffer.Data, err = readBytes(progressReader{d.r}, buffer.ByteLength)
 	return err
 }
 
-- 
2.43.0


From b64b8d60d48e37443ec3b80957806116d6b2669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 10/26] fix: encode the current data of embedded buffers

An embedded buffer was encoded with the URI it was decoded from, losing all
changes made to its data since, for example by the modeler package.
---
 encode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index cec1447..7fdac18 100644
--- a/encode.go
+++ b/encode.go
@@ -213,14 +213,15 @@ func (e *Encoder) marshalJSONDoc(doc *Document) ([]byte, error) {
 		CustomBuffers: make([]*Buffer, len(doc.Buffers)),
 		alias:         (*alias)(doc),
 	}
-	// Embed buffers without URI.
+	// Embed buffers without URI and those which are already embedded.
 	for i, buf := range doc.Buffers {
 		if i == 0 && e.AsBinary && buf.URI == "" {
 			// First buffer will be encoded in the binary chunk.
 			tmp.CustomBuffers[i] = buf
 			continue
 		}
-		if len(buf.Data) > 0 && buf.URI == "" && !buf.IsEmbeddedResource() {
+		if len(buf.Data) > 0 && (buf.URI == "" || buf.IsEmbeddedResource()) {
+			// The data may have changed since the URI was made.
 			tmpBuf := &Buffer{
 				Extensions: buf.Extensions,
 				Extras:     buf.Extras,
-- 
2.43.0


From b82fdcabdf0da7cf97262e6c01015a9cf9c5dbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:25 +0000
Subject: [PATCH 11/26] fix: recognise embedded buffers of type
 application/gltf-buffer

The specification allows two media types for embedded buffers, only
application/octet-stream was taken for one.
---
 const.go | 1 +
 gltf.go  | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/const.go b/const.go
index 495daed..eb596c8 100644
--- a/const.go
+++ b/const.go
@@ -431,6 +431,7 @@ type glbHeader struct {
 
 const (
 	mimetypeApplicationOctet = "data:application/octet-stream;base64"
+	mimetypeApplicationGltf  = "data:application/gltf-buffer;base64"
 	mimetypeImagePNG         = "data:image/png;base64"
 	mimetypeImageJPG         = "data:image/jpeg;base64"
 )
diff --git a/gltf.go b/gltf.go
index 559029e..8be0cd4 100644
--- a/gltf.go
+++ b/gltf.go
@@ -120,7 +120,7 @@ type Buffer struct {
 
 // IsEmbeddedResource returns true if the buffer points to an embedded resource.
 func (b *Buffer) IsEmbeddedResource() bool {
-	return strings.HasPrefix(b.URI, mimetypeApplicationOctet)
+	return strings.HasPrefix(b.URI, mimetypeApplicationOctet) || strings.HasPrefix(b.URI, mimetypeApplicationGltf)
 }
 
 // EmbeddedResource defines the buffer as an embedded resource and encodes the URI so it points to the the resource.
@@ -133,7 +133,11 @@ func (b *Buffer) marshalData() ([]byte, error) {
 	if !b.IsEmbeddedResource() {
 		return nil, nil
 	}
-	startPos := len(mimetypeApplicationOctet) + 1
+	mimetype := mimetypeApplicationOctet
+	if strings.HasPrefix(b.URI, mimetypeApplicationGltf) {
+		mimetype = mimetypeApplicationGltf
+	}
+	startPos := len(mimetype) + 1
 	if len(b.URI) < startPos {
 		return nil, errors.New("gltf: Invalid base64 content")
 	}
-- 
2.43.0


From 594f643bcd6e02ec942f537966c4bef139c5f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:26 +0000
Subject: [PATCH 12/26] fix: ignore what follows byteLength in embedded buffers

The data of an embedded buffer could be longer than its byteLength, unlike
that of files and GLB chunks, so that data added to it later was appended
behind the end of the buffer.
---
 decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 30c0d26..41219b1 100644
--- a/decoder.go
+++ b/decoder.go
@@ -178,11 +178,11 @@ func (d *Decoder) decodeBuffer(buffer *Buffer) error {
 		err = validateBufferURI(buffer.URI)
 		if err == nil && d.Fsys != nil {
 			buffer.Data, err = fs.ReadFile(d.Fsys, buffer.URI)
-			if len(buffer.Data) > int(buffer.ByteLength) {
-				buffer.Data = buffer.Data[:buffer.ByteLength:buffer.ByteLength]
-			}
 		}
 	}
+	if len(buffer.Data) > int(buffer.ByteLength) {
+		buffer.Data = buffer.Data[:buffer.ByteLength:buffer.ByteLength]
+	}
 	if err != nil {
 		buffer.Data = nil
 	}
-- 
2.43.0


From aac2c0ab773713240224907649ee202a9272059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:32 +0000
Subject: [PATCH 13/26] fix: support reusing a buffer for unsigned int 3x3
 matrices

MakeSliceBuffer panicked for this combination of types.
---
 binary/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary/slice.go b/binary/slice.go
index 7a1dd4f..3b37118 100644
--- a/binary/slice.go
+++ b/binary/slice.go
@@ -112,7 +112,7 @@ func castSlice(c gltf.ComponentType, t gltf.AccessorType, count int, v []byte) a
 		case gltf.AccessorMat2:
 			return reslice[[2][2]uint32](v, l, rem)
 		case gltf.AccessorMat3:
-
+			return reslice[[3][3]uint32](v, l, rem)
 		case gltf.AccessorMat4:
 			return reslice[[4][4]uint32](v, l, rem)
 		}
-- 
2.43.0


From 357332dfe81fad22b743370120e49fad5fba926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:33 +0000
Subject: [PATCH 14/26] fix: respect the stride of interleaved byte scalars

Read ignored the stride of []int8 and []uint8, and panicked when more data
followed the last []int8 element; Write ignored the stride of []uint8, so that
interleaved attributes overwrote each other.
---
 binary/encode.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/binary/encode.go b/binary/encode.go
index 01a4226..258a532 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -40,8 +40,8 @@ func Read(b []byte, byteStride int, data any) error {
 			data[i] = color.RGBA64{R: c[0], G: c[1], B: c[2], A: c[3]}
 		}
 	case []int8:
-		for i, x := range b {
-			data[i] = int8(x)
+		for i := range data {
+			data[i] = Byte.Scalar(b[e*i:])
 		}
 	case [][2]int8:
 		for i := range data {
@@ -68,7 +68,7 @@ func Read(b []byte, byteStride int, data any) error {
 			data[i] = Byte.Mat4(b[e*i:])
 		}
 	case []uint8:
-		if byteStride != 1 {
+		if byteStride == 1 {
 			copy(data, b)
 		} else {
 			for i := range data {
@@ -273,7 +273,13 @@ func Write(b []byte, stride int, data any) error {
 			Byte.PutMat4(b[e*i:], data[i])
 		}
 	case []uint8:
-		copy(b, data)
+		if e == 1 {
+			copy(b, data)
+		} else {
+			for i := range data {
+				Ubyte.PutScalar(b[e*i:], data[i])
+			}
+		}
 	case [][2]uint8:
 		for i := range data {
 			Ubyte.PutVec2(b[e*i:], data[i])
-- 
2.43.0


From 3e1074cdf9d7ebc88dce6329a64776db227d2d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:56 +0000
Subject: [PATCH 15/26] fix: zero the elements of accessors without buffer view

They kept whatever the buffer passed to ReadAccessor, or the pooled buffer of
the typed readers, contained before.
---
 modeler/read.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modeler/read.go b/modeler/read.go
index fc4d6f8..68a2755 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -43,6 +43,13 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 		if err != nil {
 			return nil, err
 		}
+	} else {
+		// The elements are zero, whatever buffer contains.
+		s := reflect.ValueOf(data)
+		zero := reflect.Zero(s.Type().Elem())
+		for i := 0; i < s.Len(); i++ {
+			s.Index(i).Set(zero)
+		}
 	}
 
 	if acr.Sparse != nil {
-- 
2.43.0


From 5a2cc387a375c9a68f386ec6acc9d61aa72e0c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:57 +0000
Subject: [PATCH 16/26] fix: return no elements for an empty accessor

The typed readers returned the whole of the buffer passed to them, with its
old elements, when the accessor has none.
---
 modeler/read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modeler/read.go b/modeler/read.go
index 68a2755..26cfb38 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -123,10 +123,10 @@ var bufPool = sync.Pool{
 func makeBufferOf[T any](count int, buffer []T) []T {
 	if len(buffer) < count {
 		buffer = append(buffer, make([]T, count-len(buffer))...)
-	} else if count != 0 {
-		buffer = buffer[:count]
 	} else if buffer == nil {
 		buffer = make([]T, 0)
+	} else {
+		buffer = buffer[:count]
 	}
 	return buffer
 }
-- 
2.43.0


From ac09c23a97d51d03d78e2b0cca73cc4e35d792c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:58 +0000
Subject: [PATCH 17/26] fix: leave the document alone when interleaved data is
 rejected

WriteAccessorsInterleaved and WritePrimitiveAttributes added a buffer, or
padding to the last one, before noticing that the lengths do not match.
---
 modeler/write.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/modeler/write.go b/modeler/write.go
index bbcfd6e..3fcc571 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -214,6 +214,9 @@ func WriteAccessor(doc *gltf.Document, target gltf.Target, data any) int {
 // with the same order as data or an error if the data elements
 // don´t have all the same length.
 func WriteAccessorsInterleaved(doc *gltf.Document, data ...any) ([]int, error) {
+	if err := checkInterleaved(data...); err != nil {
+		return nil, err
+	}
 	ensurePadding(doc)
 	index, err := WriteBufferViewInterleaved(doc, data...)
 	if err != nil {
@@ -315,14 +318,12 @@ func WriteBufferView(doc *gltf.Document, target gltf.Target, data any) int {
 }
 
 func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int, error) {
-	var refLength, stride, size int
-	for i, d := range data {
+	if err := checkInterleaved(data...); err != nil {
+		return 0, err
+	}
+	var stride, size int
+	for _, d := range data {
 		c, a, l := binary.Type(d)
-		if i == 0 {
-			refLength = l
-		} else if refLength != l {
-			return 0, errors.New("gltf: interleaved data shall have the same number of elements in all chunks")
-		}
 		sizeOfElement := gltf.SizeOfElement(c, a)
 		size += l * sizeOfElement
 		if len(data) > 1 {
@@ -353,6 +354,19 @@ func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int,
 	return len(doc.BufferViews) - 1, nil
 }
 
+func checkInterleaved(data ...any) error {
+	var refLength int
+	for i, d := range data {
+		_, _, l := binary.Type(d)
+		if i == 0 {
+			refLength = l
+		} else if refLength != l {
+			return errors.New("gltf: interleaved data shall have the same number of elements in all chunks")
+		}
+	}
+	return nil
+}
+
 func ensurePadding(doc *gltf.Document) {
 	buffer := lastBuffer(doc)
 	padding := getPadding(len(buffer.Data))
-- 
2.43.0


From 3a88e4bf04417942c2ab54afa1d42d6bb0a9f69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 18/26] fix: write nothing when all primitive attributes are
 empty

WritePrimitiveAttributes added a buffer view without any bytes, and a buffer
without any bytes to a document without buffers, which makes the encoded
document impossible to decode.
---
 modeler/write.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modeler/write.go b/modeler/write.go
index 3fcc571..98a2e6e 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -283,6 +283,9 @@ func WritePrimitiveAttributes(doc *gltf.Document, attr ...PrimitiveAttribute) (g
 		data = append(data, a.Data)
 		props = append(props, attrProps{Name: a.Name, Normalized: normalized})
 	}
+	if len(data) == 0 {
+		return make(gltf.PrimitiveAttributes), nil
+	}
 	indices, err := WriteAccessorsInterleaved(doc, data...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 104e63bf72b5b57e1efc1551f2e7f36567503e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:01 +0000
Subject: [PATCH 19/26] fix: return errors instead of panicking on malformed
 accessors

---
 modeler/read.go | 76 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 65 insertions(+), 11 deletions(-)

diff --git a/modeler/read.go b/modeler/read.go
index 26cfb38..ec2f568 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"sync"
 
@@ -29,17 +30,33 @@ var uint32Pool = sync.Pool{
 // ReadAccessor is safe to use even with malformed documents.
 // If that happens it will return an error instead of panic.
 func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, error) {
-	data, err := binary.MakeSliceBuffer(acr.ComponentType, acr.Type, acr.Count, buffer)
-	if err != nil {
-		return nil, err
+	if acr == nil {
+		return nil, errors.New("gltf: accessor is null")
 	}
+	var buf []byte
+	var byteStride int
 	if acr.BufferView != nil {
-		buf, err := readBufferView(doc, *acr.BufferView)
+		var err error
+		buf, err = readBufferView(doc, *acr.BufferView)
 		if err != nil {
 			return nil, err
 		}
-		byteStride := doc.BufferViews[*acr.BufferView].ByteStride
-		err = binary.Read(buf[acr.ByteOffset:], byteStride, data)
+		if acr.ByteOffset < 0 || acr.ByteOffset > len(buf) {
+			return nil, io.ErrShortBuffer
+		}
+		buf = buf[acr.ByteOffset:]
+		byteStride = doc.BufferViews[*acr.BufferView].ByteStride
+	}
+	// Check the count before allocating that many elements.
+	if err := checkCount(acr, byteStride, len(buf)); err != nil {
+		return nil, err
+	}
+	data, err := binary.MakeSliceBuffer(acr.ComponentType, acr.Type, acr.Count, buffer)
+	if err != nil {
+		return nil, err
+	}
+	if acr.BufferView != nil {
+		err = binary.Read(buf, byteStride, data)
 		if err != nil {
 			return nil, err
 		}
@@ -82,14 +99,46 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 		s := reflect.ValueOf(data)
 		vals := reflect.ValueOf(values)
 		for i := 0; i < int(acr.Sparse.Count); i++ {
+			if int64(indices[i]) >= int64(s.Len()) {
+				return nil, errors.New("gltf: sparse index overflows")
+			}
 			s.Index(int(indices[i])).Set(vals.Index(i))
 		}
 	}
 	return data, nil
 }
 
+// checkCount returns an error if acr can't have Count elements
+// because they don't fit in the n bytes it refers to.
+func checkCount(acr *gltf.Accessor, byteStride, n int) error {
+	if acr.Count < 0 {
+		return fmt.Errorf("gltf: invalid accessor count %d", acr.Count)
+	}
+	if byteStride < 0 {
+		return fmt.Errorf("gltf: invalid byte stride %d", byteStride)
+	}
+	size := gltf.SizeOfElement(acr.ComponentType, acr.Type)
+	if size == 0 || acr.Count == 0 {
+		return nil
+	}
+	if acr.BufferView == nil {
+		// There are no bytes, the elements are zero.
+		if int64(acr.Count) > math.MaxUint32/int64(size) {
+			return fmt.Errorf("gltf: accessor count %d too large", acr.Count)
+		}
+		return nil
+	}
+	if byteStride == 0 {
+		byteStride = size
+	}
+	if n < size || acr.Count-1 > (n-size)/byteStride {
+		return io.ErrShortBuffer
+	}
+	return nil
+}
+
 func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
-	if len(doc.BufferViews) <= bufferViewIndex {
+	if bufferViewIndex < 0 || len(doc.BufferViews) <= bufferViewIndex {
 		return nil, errors.New("gltf: bufferview index overflows")
 	}
 	return ReadBufferView(doc, doc.BufferViews[bufferViewIndex])
@@ -101,16 +150,21 @@ func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
 // It is safe to use even with malformed documents.
 // If that happens it will return an error instead of panic.
 func ReadBufferView(doc *gltf.Document, bv *gltf.BufferView) ([]byte, error) {
-	if len(doc.Buffers) <= bv.Buffer {
+	if bv == nil {
+		return nil, errors.New("gltf: bufferview is null")
+	}
+	if bv.Buffer < 0 || len(doc.Buffers) <= bv.Buffer {
 		return nil, errors.New("gltf: buffer index overflows")
 	}
+	if doc.Buffers[bv.Buffer] == nil {
+		return nil, errors.New("gltf: buffer is null")
+	}
 	buf := doc.Buffers[bv.Buffer].Data
 
-	high := bv.ByteOffset + bv.ByteLength
-	if len(buf) < high {
+	if bv.ByteOffset < 0 || bv.ByteOffset > len(buf) || bv.ByteLength < 0 || bv.ByteLength > len(buf)-bv.ByteOffset {
 		return nil, io.ErrShortBuffer
 	}
-	return buf[bv.ByteOffset:high], nil
+	return buf[bv.ByteOffset : bv.ByteOffset+bv.ByteLength], nil
 }
 
 var bufPool = sync.Pool{
-- 
2.43.0


From 6f8cbac1c77a176f30b21e5adc98fcf234270747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 20/26] fix: return an error when reading a null accessor

---
 modeler/read.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/modeler/read.go b/modeler/read.go
index ec2f568..17bef7c 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -31,7 +31,7 @@ var uint32Pool = sync.Pool{
 // If that happens it will return an error instead of panic.
 func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, error) {
 	if acr == nil {
-		return nil, errors.New("gltf: accessor is null")
+		return nil, errNullAccessor
 	}
 	var buf []byte
 	var byteStride int
@@ -167,6 +167,8 @@ func ReadBufferView(doc *gltf.Document, bv *gltf.BufferView) ([]byte, error) {
 	return buf[bv.ByteOffset : bv.ByteOffset+bv.ByteLength], nil
 }
 
+var errNullAccessor = errors.New("gltf: accessor is null")
+
 var bufPool = sync.Pool{
 	New: func() any {
 		buf := make([]byte, 1024)
@@ -191,6 +193,9 @@ func makeBufferOf[T any](count int, buffer []T) []T {
 //
 // See ReadAccessor for more info.
 func ReadIndices(doc *gltf.Document, acr *gltf.Accessor, buffer []uint32) ([]uint32, error) {
+	if acr == nil {
+		return nil, errNullAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint:
 	default:
@@ -225,6 +230,9 @@ func ReadIndices(doc *gltf.Document, acr *gltf.Accessor, buffer []uint32) ([]uin
 //
 // See ReadAccessor for more info.
 func ReadNormal(doc *gltf.Document, acr *gltf.Accessor, buffer [][3]float32) ([][3]float32, error) {
+	if acr == nil {
+		return nil, errNullAccessor
+	}
 	if acr.ComponentType != gltf.ComponentFloat {
 		return nil, errComponentType(acr.ComponentType)
 	}
@@ -246,6 +254,9 @@ func ReadNormal(doc *gltf.Document, acr *gltf.Accessor, buffer [][3]float32) ([]
 //
 // See ReadAccessor for more info.
 func ReadTangent(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]float32) ([][4]float32, error) {
+	if acr == nil {
+		return nil, errNullAccessor
+	}
 	if acr.ComponentType != gltf.ComponentFloat {
 		return nil, errComponentType(acr.ComponentType)
 	}
@@ -269,6 +280,9 @@ func ReadTangent(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]float32) ([
 //
 // See ReadAccessor for more info.
 func ReadTextureCoord(doc *gltf.Document, acr *gltf.Accessor, buffer [][2]float32) ([][2]float32, error) {
+	if acr == nil {
+		return nil, errNullAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentFloat:
 	default:
@@ -309,6 +323,9 @@ func ReadTextureCoord(doc *gltf.Document, acr *gltf.Accessor, buffer [][2]float3
 //
 // See ReadAccessor for more info.
 func ReadWeights(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]float32) ([][4]float32, error) {
+	if acr == nil {
+		return nil, errNullAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentFloat:
 	default:
@@ -351,6 +368,9 @@ func ReadWeights(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]float32) ([
 //
 // See ReadAccessor for more info.
 func ReadJoints(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint16) ([][4]uint16, error) {
+	if acr == nil {
+		return nil, errNullAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort:
 	default:
@@ -384,6 +404,9 @@ func ReadJoints(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint16) ([][
 //
 // See ReadAccessor for more info.
 func ReadPosition(doc *gltf.Document, acr *gltf.Accessor, buffer [][3]float32) ([][3]float32, error) {
+	if acr == nil {
+		return nil, errNullAccessor
+	}
 	if acr.ComponentType != gltf.ComponentFloat {
 		return nil, errComponentType(acr.ComponentType)
 	}
@@ -407,6 +430,9 @@ func ReadPosition(doc *gltf.Document, acr *gltf.Accessor, buffer [][3]float32) (
 //
 // See ReadAccessor for more info.
 func ReadColor(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint8) ([][4]uint8, error) {
+	if acr == nil {
+		return nil, errNullAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentFloat:
 	default:
@@ -458,6 +484,9 @@ func ReadColor(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint8) ([][4]
 //
 // See ReadAccessor for more info.
 func ReadColor64(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint16) ([][4]uint16, error) {
+	if acr == nil {
+		return nil, errNullAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentFloat:
 	default:
@@ -517,6 +546,9 @@ func ReadColor64(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint16) ([]
 //
 // See ReadAccessor for more info.
 func ReadInverseBindMatrices(doc *gltf.Document, acr *gltf.Accessor, buffer [][4][4]float32) ([][4][4]float32, error) {
+	if acr == nil {
+		return nil, errNullAccessor
+	}
 	if acr.ComponentType != gltf.ComponentFloat {
 		return nil, errComponentType(acr.ComponentType)
 	}
-- 
2.43.0


From 1b875927f4a28149f8a7011433804a2672b41e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:44 +0000
Subject: [PATCH 21/26] fix: write interleaved data without elements instead of
 panicking

---
 modeler/write.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modeler/write.go b/modeler/write.go
index 98a2e6e..f19cdb4 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -341,6 +341,9 @@ func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int,
 	buffer.Data = append(buffer.Data, make([]byte, size)...)
 	dataOffset := offset
 	for _, d := range data {
+		if size == 0 {
+			break // nothing to write, and no room for the offsets
+		}
 		// Cannot return error as the buffer has enough size and the data type is controlled.
 		_ = binary.Write(buffer.Data[dataOffset:], stride, d)
 		c, a, _ := binary.Type(d)
-- 
2.43.0


From 9f3b6e8547e362fd857658d2c15134e178a3369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:58 +0000
Subject: [PATCH 22/26] fix: read accessors whose last element is not followed
 by padding

---
 binary/encode.go | 25 +++++++++++++++++++------
 modeler/read.go  |  3 ++-
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/binary/encode.go b/binary/encode.go
index 258a532..e62a5f7 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -21,12 +21,12 @@ func Read(b []byte, byteStride int, data any) error {
 		byteStride = size
 	}
 	e := int(byteStride)
-	high := int(n) * e
-	if byteStride != size {
-		high -= int(byteStride - size)
-	}
-	if len(b) < high {
-		return io.ErrShortBuffer
+	if n > 0 {
+		// The last element doesn't need to be followed by padding.
+		last := size - trailingPadding(c, t)
+		if e < 0 || len(b) < last || n-1 > (len(b)-last)/e {
+			return io.ErrShortBuffer
+		}
 	}
 	switch data := data.(type) {
 	case []color.RGBA:
@@ -217,6 +217,19 @@ func Read(b []byte, byteStride int, data any) error {
 	return nil
 }
 
+// trailingPadding returns the number of bytes at the end of
+// an element which are only there to align the next one.
+func trailingPadding(c gltf.ComponentType, t gltf.AccessorType) int {
+	padding := gltf.SizeOfElement(c, t) - c.ByteSize()*t.Components()
+	switch t {
+	case gltf.AccessorMat2:
+		padding /= 2 // Every column is padded.
+	case gltf.AccessorMat3:
+		padding /= 3
+	}
+	return padding
+}
+
 // Write writes the binary representation of data into b.
 // If stride is diferent than zero data will be interleaved.
 //
diff --git a/modeler/read.go b/modeler/read.go
index 17bef7c..f6103d3 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -131,7 +131,8 @@ func checkCount(acr *gltf.Accessor, byteStride, n int) error {
 	if byteStride == 0 {
 		byteStride = size
 	}
-	if n < size || acr.Count-1 > (n-size)/byteStride {
+	// binary.Read knows exactly, this avoids allocating for many more elements.
+	if acr.Count-1 > n/byteStride {
 		return io.ErrShortBuffer
 	}
 	return nil
-- 
2.43.0


From f1e91e97eea50928575a935bd7b672df829029ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:38 +0000
Subject: [PATCH 23/26] fix: do not point at an element in a buffer shorter
 than one

Reading into a caller's buffer that is shorter than an element converted its
address to a pointer to an element, which the pointer checks of race-enabled
builds reject with a fatal error.
---
 binary/slice.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binary/slice.go b/binary/slice.go
index 3b37118..a369679 100644
--- a/binary/slice.go
+++ b/binary/slice.go
@@ -12,6 +12,9 @@ import (
 func reslice[T any](v []byte, length, rem int) []T {
 	var ptr unsafe.Pointer
 	if len(v) != 0 {
+		if length == 0 { // v is shorter than an element, which no *T may point to.
+			return make([]T, rem)
+		}
 		ptr = unsafe.Pointer(&v[0])
 	}
 	s := unsafe.Slice((*T)(unsafe.Pointer(ptr)), length)
-- 
2.43.0


From 540eb6624d17280c62d5e486c2e1d9cf90374f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:54 +0000
Subject: [PATCH 24/26] fix: read buffers whose relative URI has a colon after
 ./

---
 decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 41219b1..66d5191 100644
--- a/decoder.go
+++ b/decoder.go
@@ -251,12 +251,13 @@ func validateBufferURI(uri string) error {
 func sanitizeURI(uri string) (string, bool) {
 	uri = strings.Replace(uri, "\\", "/", -1)
 	uri = strings.Replace(uri, "/./", "/", -1)
-	uri = strings.TrimPrefix(uri, "./")
+	// The prefix may be there to keep a colon from ending a scheme.
 	u, err := url.Parse(uri)
 	if err != nil {
 		return "", false
 	}
 	if u.Scheme == "" {
+		uri = strings.TrimPrefix(uri, "./")
 		// URI should always be decoded before using it in a file path.
 		uri, err = url.PathUnescape(uri)
 		if err != nil {
-- 
2.43.0


From 094f8d666f2f3a993585f3c8b60b0a984806a20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:00 +0000
Subject: [PATCH 25/26] fix: keep buffer URIs whose decoded form would refer to
 another file

---
 decoder.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/decoder.go b/decoder.go
index 66d5191..16c0079 100644
--- a/decoder.go
+++ b/decoder.go
@@ -67,9 +67,7 @@ func (d *Decoder) Decode(doc *Document) error {
 			return errors.New("gltf: Invalid null buffer")
 		}
 		if !b.IsEmbeddedResource() {
-			if uri, ok := sanitizeURI(b.URI); ok {
-				b.URI = uri
-			}
+			b.URI = decodeURI(b.URI)
 		}
 	}
 	for _, im := range doc.Images {
@@ -77,9 +75,7 @@ func (d *Decoder) Decode(doc *Document) error {
 			return errors.New("gltf: Invalid null image")
 		}
 		if !im.IsEmbeddedResource() {
-			if uri, ok := sanitizeURI(im.URI); ok {
-				im.URI = uri
-			}
+			im.URI = decodeURI(im.URI)
 		}
 	}
 
@@ -175,9 +171,10 @@ func (d *Decoder) decodeBuffer(buffer *Buffer) error {
 	if buffer.IsEmbeddedResource() {
 		buffer.Data, err = buffer.marshalData()
 	} else {
-		err = validateBufferURI(buffer.URI)
+		name := fileName(buffer.URI)
+		err = validateBufferURI(name)
 		if err == nil && d.Fsys != nil {
-			buffer.Data, err = fs.ReadFile(d.Fsys, buffer.URI)
+			buffer.Data, err = fs.ReadFile(d.Fsys, name)
 		}
 	}
 	if len(buffer.Data) > int(buffer.ByteLength) {
@@ -248,6 +245,23 @@ func validateBufferURI(uri string) error {
 	return nil
 }
 
+// fileName returns the name of the file uri refers to.
+func fileName(uri string) string {
+	if name, ok := sanitizeURI(uri); ok {
+		return name
+	}
+	return uri // Not a valid URI reference, use it as it is.
+}
+
+// decodeURI returns the decoded form of uri, or uri itself
+// if the decoded form would refer to another file.
+func decodeURI(uri string) string {
+	if name := fileName(uri); fileName(name) == name {
+		return name
+	}
+	return uri
+}
+
 func sanitizeURI(uri string) (string, bool) {
 	uri = strings.Replace(uri, "\\", "/", -1)
 	uri = strings.Replace(uri, "/./", "/", -1)
-- 
2.43.0


From 14bb777ebadf92a611ef961448be6b4455a62044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:00 +0000
Subject: [PATCH 26/26] fix: report why a source failed within the first bytes

The decoder took any failure to read a GLB header for input that is too
short for one, and went on to report a JSON syntax error instead of the
error of the reader.
---
 decoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 16c0079..a4feea8 100644
--- a/decoder.go
+++ b/decoder.go
@@ -116,8 +116,11 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 func (d *Decoder) readGLBHeader() (*glbHeader, error) {
 	var header glbHeader
 	chunk, err := d.r.Peek(binary.Size(header))
+	if err == io.EOF {
+		return nil, nil // Too short for a GLB.
+	}
 	if err != nil {
-		return nil, nil
+		return nil, err
 	}
 	r := bytes.NewReader(chunk)
 	binary.Read(r, binary.LittleEndian, &header)
-- 
2.43.0

