From 581197dc5b4d4c3350c3a44be9533de14171be89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:07 +0000
Subject: [PATCH 01/74] fix: Value.Decimal128 reads the low order bytes first,
 as they are written

---
 value.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 6e0ca90..4b54a97 100644
--- a/value.go
+++ b/value.go
@@ -1148,9 +1148,10 @@ func (v *Value) Decimal128() types.Decimal128 {
 		panic(bsonerr.NewElementTypeError("compact.Element.Decimal128", bsontype.Type(v.data[v.start])))
 	}
 
+	// the low order bytes are encoded first.
 	return types.NewDecimal128(
-		binary.LittleEndian.Uint64(v.data[v.offset:v.offset+8]),
-		binary.LittleEndian.Uint64(v.data[v.offset+8:v.offset+16]))
+		binary.LittleEndian.Uint64(v.data[v.offset+8:v.offset+16]),
+		binary.LittleEndian.Uint64(v.data[v.offset:v.offset+8]))
 }
 
 // Decimal128OK is the same as Decimal128, except that it returns a boolean
-- 
2.43.0


From fce785988600ea6983f98e961bcea4a83590a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 02/74] fix: validate rejects negative and inconsistent value
 lengths

---
 value.go | 55 ++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/value.go b/value.go
index 4b54a97..496ac1b 100644
--- a/value.go
+++ b/value.go
@@ -218,7 +218,11 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+4+l > int32(len(v.data)) {
+		if l < 1 {
+			return total, bsonerr.InvalidString
+		}
+
+		if int64(v.offset)+4+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 		// We check if the value that is the last element of the string is a
@@ -253,7 +257,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidReadOnlyDocument
 		}
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -292,7 +296,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidReadOnlyDocument
 		}
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -320,10 +324,19 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidBinarySubtype
 		}
 
-		if int32(v.offset)+5+l > int32(len(v.data)) {
+		if l < 0 {
+			return total, bsonerr.InvalidLength
+		}
+
+		if int64(v.offset)+5+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		// the payload of the old binary subtype has a length of its own.
+		if v.data[v.offset+4] == '\x02' && (l < 4 || readi32(v.data[v.offset+5:v.offset+9]) != l-4) {
+			return total, bsonerr.InvalidLength
+		}
+
 		total += uint32(l)
 	case '\x07':
 		if int(v.offset+12) > len(v.data) {
@@ -374,10 +387,18 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+4+l+12 > int32(len(v.data)) {
+		if l < 1 {
+			return total, bsonerr.InvalidString
+		}
+
+		if int64(v.offset)+4+int64(l)+12 > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		if !sizeOnly && v.data[v.offset+4+uint32(l)-1] != 0x00 {
+			return total, bsonerr.InvalidString
+		}
+
 		total += uint32(l) + 12
 	case '\x0F':
 		if v.d != nil {
@@ -393,7 +414,11 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			total += 8
 			sLength := readi32(v.data[v.offset+4 : v.offset+8])
 
-			if int(sLength) > len(v.data)+8 {
+			if sLength < 1 {
+				return total, bsonerr.InvalidString
+			}
+
+			if int64(v.offset)+8+int64(sLength) > int64(len(v.data)) {
 				return total, errTooSmall
 			}
 
@@ -420,11 +445,19 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		if l < 4 {
+			return total, bsonerr.InvalidLength
+		}
+
 		if !sizeOnly {
+			if int64(v.offset)+8 > int64(len(v.data)) {
+				return total, errTooSmall
+			}
+
 			sLength := readi32(v.data[v.offset+4 : v.offset+8])
 			total += 4
 			// If the length of the string is larger than the total length of the
@@ -436,6 +469,10 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			if sLength > l-13 {
 				return total, bsonerr.StringLargerThanContainer
 			}
+
+			if sLength < 1 {
+				return total, bsonerr.InvalidString
+			}
 			// We check if the value that is the last element of the string is a
 			// null terminator. We take the value offset, add 4 to account for the
 			// length, add the length of the string, and subtract one since the size
@@ -452,6 +489,10 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 				return total, err
 			}
 
+			if total != uint32(l) {
+				return total, bsonerr.InvalidLength
+			}
+
 			break
 		}
 
-- 
2.43.0


From 5bc4da403982c364e50b4967eb855850bdaed825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:50 +0000
Subject: [PATCH 03/74] fix: readers reject documents whose declared length is
 too small or is not where they end

---
 document.go | 3 +++
 iterator.go | 6 +++++-
 reader.go   | 6 +++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/document.go b/document.go
index cb833c7..75fc350 100644
--- a/document.go
+++ b/document.go
@@ -317,6 +317,9 @@ func (d *Document) ReadFrom(r io.Reader) (int64, error) {
 	}
 
 	givenLength := readi32(sizeBuf)
+	if givenLength < 5 {
+		return total, bsonerr.InvalidLength
+	}
 
 	b := stw.NewSlice(bufpool.Get())
 	b.Grow(int(givenLength))
diff --git a/iterator.go b/iterator.go
index 13b7982..3130851 100644
--- a/iterator.go
+++ b/iterator.go
@@ -69,7 +69,7 @@ func newReaderIterator(r Reader) (*readerIterator, error) {
 	}
 
 	givenLength := readi32(r[0:4])
-	if len(r) < int(givenLength) {
+	if len(r) < int(givenLength) || givenLength < 0 {
 		return nil, bsonerr.InvalidLength
 	}
 
@@ -90,6 +90,10 @@ func (itr *readerIterator) Next() bool {
 	}
 
 	if itr.r[itr.pos] == '\x00' {
+		if itr.pos+1 != itr.end {
+			itr.err = bsonerr.InvalidLength
+		}
+
 		return false
 	}
 
diff --git a/reader.go b/reader.go
index 35cb6c7..7a88eea 100644
--- a/reader.go
+++ b/reader.go
@@ -48,7 +48,7 @@ func NewFromIOReader(r io.Reader) (Reader, error) {
 	}
 
 	length := readi32(lengthBytes[:])
-	if length < 0 {
+	if length < 5 {
 		return nil, bsonerr.InvalidLength
 	}
 
@@ -265,6 +265,10 @@ func (r Reader) readElements(f func(e *Element) error) (uint32, error) {
 		}
 
 		if r[pos] == '\x00' {
+			if pos+1 != end {
+				return pos, bsonerr.InvalidLength
+			}
+
 			break
 		}
 
-- 
2.43.0


From 50dba824dd903c4fd477ebadfdc8b666ad5d6908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:50 +0000
Subject: [PATCH 04/74] fix: Reader.Iterator stops when the consumer stops

---
 reader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 7a88eea..cfb5fc9 100644
--- a/reader.go
+++ b/reader.go
@@ -188,8 +188,10 @@ func (r Reader) Iterator() iter.Seq2[*Element, error] {
 		return irt.Two[*Element](nil, err)
 	}
 	return func(yield func(*Element, error) bool) {
-		for iter.Next() && yield(iter.Value(), nil) {
-			continue
+		for iter.Next() {
+			if !yield(iter.Value(), nil) {
+				return
+			}
 		}
 		if err := iter.Close(); err != nil {
 			yield(nil, err)
-- 
2.43.0


From ee85d43f52ec7ed60a35432f3f118aeaba35bcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 05/74] fix: Reader.Validate checks every value, not only
 nested documents

---
 reader.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/reader.go b/reader.go
index cfb5fc9..6dbaf41 100644
--- a/reader.go
+++ b/reader.go
@@ -72,13 +72,7 @@ func NewFromIOReader(r io.Reader) (Reader, error) {
 // the slice, to validate other documents, the slice must be resliced.
 func (r Reader) Validate() (size uint32, err error) {
 	return r.readElements(func(elem *Element) error {
-		var err error
-		switch elem.value.Type() {
-		case '\x03':
-			_, err = elem.value.ReaderDocument().Validate()
-		case '\x04':
-			_, err = elem.value.ReaderArray().Validate()
-		}
+		_, err := elem.value.validate(false)
 		return err
 	})
 }
-- 
2.43.0


From 28dbc71038b872364eb777e6ddf9f51a4f432d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:10 +0000
Subject: [PATCH 06/74] fix: Document.Map reflects replaced, deleted and
 re-read elements

---
 document.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 75fc350..5d66fd6 100644
--- a/document.go
+++ b/document.go
@@ -101,6 +101,8 @@ func (d *Document) Set(elem *Element) *Document {
 	for idx, e := range d.elems {
 		if elem.Key() == e.Key() {
 			d.elems[idx] = elem
+			d.cacheValid = false
+
 			return d
 		}
 	}
@@ -119,10 +121,12 @@ func (d *Document) Delete(key string) *Element {
 		if d.elems[idx].Key() == key {
 			elem := d.elems[idx]
 			d.elems = append(d.elems[:idx], d.elems[idx+1:]...)
+			d.cacheValid = false
+
 			return elem
 		}
 	}
-	d.cacheValid = false
+
 	return nil
 }
 
@@ -289,6 +293,7 @@ func (d *Document) UnmarshalBSON(b []byte) error {
 	seq := Reader(b).Iterator()
 
 	d.elems = make([]*Element, 0, 128)
+	d.cacheValid = false
 
 	for value, err := range seq {
 		if err != nil {
-- 
2.43.0


From c34bd8cc56438821588c915e715c9b47031cd87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:13 +0000
Subject: [PATCH 07/74] fix: Value.IsEmpty only considers the zero ObjectID
 empty

---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 496ac1b..c9b8493 100644
--- a/value.go
+++ b/value.go
@@ -150,7 +150,7 @@ func (v *Value) IsEmpty() bool {
 	case bsontype.Undefined:
 		return true
 	case bsontype.ObjectID:
-		return true
+		return v.ObjectID().IsZero()
 	case bsontype.Boolean:
 		return !v.Boolean()
 	case bsontype.DateTime:
-- 
2.43.0


From 2e8ae8c6c8e0c4e5408208b399e03839a8b28048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:15 +0000
Subject: [PATCH 08/74] fix: Element.SetValue keeps the key of the element

---
 x_element.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/x_element.go b/x_element.go
index aaa8ed2..9061d7f 100644
--- a/x_element.go
+++ b/x_element.go
@@ -1,4 +1,11 @@
 package birch
 
-// SetValue makes it possible to modify the value of an element in place
-func (e *Element) SetValue(v *Value) { e.value = v }
+// SetValue makes it possible to modify the value of an element in
+// place. The key of the element does not change.
+func (e *Element) SetValue(v *Value) {
+	if elem := convertValueToElem(e.Key(), v); elem != nil {
+		v = elem.value
+	}
+
+	e.value = v
+}
-- 
2.43.0


From 2fbfe174c529e1361b75ca71bc51b37bf3126bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:19 +0000
Subject: [PATCH 09/74] fix: Value.Copy does not share the document of the
 original

---
 value.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index c9b8493..441b21b 100644
--- a/value.go
+++ b/value.go
@@ -43,12 +43,20 @@ type Value struct {
 // Copy constructs an entirely new value object with the same data as
 // the original.
 func (v *Value) Copy() *Value {
-	return &Value{
+	out := &Value{
 		start:  v.start,
 		offset: v.offset,
 		data:   v.data,
-		d:      v.d,
 	}
+
+	if v.d != nil {
+		out.d = DC.Make(v.d.Len())
+		for _, elem := range v.d.elems {
+			out.d.Append(elem.Copy())
+		}
+	}
+
+	return out
 }
 
 // Set changes the internal representation of a value to have the
-- 
2.43.0


From 13361c8658a7588fb60a1700322755268e74ee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:36 +0000
Subject: [PATCH 10/74] fix: EC.Int does not truncate integers below the int32
 range

---
 x_constructor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x_constructor.go b/x_constructor.go
index 5d0dcfc..926f820 100644
--- a/x_constructor.go
+++ b/x_constructor.go
@@ -258,7 +258,7 @@ func (ElementConstructorError) DocumentMarshaler(key string, val DocumentMarshal
 }
 
 func (ElementConstructor) Int(key string, i int) *Element {
-	if i < math.MaxInt32 {
+	if i >= math.MinInt32 && i < math.MaxInt32 {
 		return EC.Int32(key, int32(i))
 	}
 
-- 
2.43.0


From 2f2023bd4384ef81454e1485516d3a77ab5827c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:37 +0000
Subject: [PATCH 11/74] fix: blist.Document.Len does not recurse forever, and
 Set adds missing elements

---
 x/blist/blist.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x/blist/blist.go b/x/blist/blist.go
index a935837..6aea7d4 100644
--- a/x/blist/blist.go
+++ b/x/blist/blist.go
@@ -10,7 +10,7 @@ type Document struct {
 	dt.List[*birch.Element]
 }
 
-func (d *Document) Len() int { return d.Len() }
+func (d *Document) Len() int { return d.List.Len() }
 func (d *Document) Append(elems ...*birch.Element) *Document {
 	for idx := range elems {
 		if elems[idx] == nil {
@@ -46,9 +46,10 @@ func (d *Document) Set(elem *birch.Element) *Document {
 			continue
 		}
 		e.Set(elem)
-		break
+		return d
 	}
-	return d
+
+	return d.Append(elem)
 }
 
 func (d *Document) Delete(key string) *birch.Element {
-- 
2.43.0


From 9a97851f26a73114ed34e8ec3e8cc3bc5b23f9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 12/74] fix: Value.ReaderArray of a constructed array has index
 keys

---
 value.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 441b21b..31e43fd 100644
--- a/value.go
+++ b/value.go
@@ -629,12 +629,22 @@ func (v *Value) getReader() Reader {
 		l := readi32(v.data[v.offset : v.offset+4])
 		r = Reader(v.data[v.offset : v.offset+uint32(l)])
 	} else {
-		scope, err := v.d.MarshalBSON()
+		var (
+			raw []byte
+			err error
+		)
+
+		if bsontype.Type(v.data[v.start]) == bsontype.Array {
+			raw, err = (&Array{doc: v.d}).MarshalBSON()
+		} else {
+			raw, err = v.d.MarshalBSON()
+		}
+
 		if err != nil {
 			panic(err)
 		}
 
-		r = Reader(scope)
+		r = Reader(raw)
 	}
 
 	return r
-- 
2.43.0


From f595da32d9397c9aae16529c6c9d0524eab889a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:37 +0000
Subject: [PATCH 13/74] fix: writing code with scope does not write into the
 bytes the value was read from

---
 element.go | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/element.go b/element.go
index 9424d8f..2728ba2 100644
--- a/element.go
+++ b/element.go
@@ -225,14 +225,16 @@ func (e *Element) writeByteSlice(key bool, start uint, size uint32, b []byte) (i
 
 			codeWithScopeLength := lengthWithoutScope + int32(scopeLength)
 
-			if _, err = elements.Int32.Encode(uint(e.value.offset), e.value.data, codeWithScopeLength); err != nil {
-				return int64(n), err
-			}
-
 			codeEnd := e.value.offset + uint32(lengthWithoutScope)
 			n += copy(
 				b[start:],
 				e.value.data[startToWrite:codeEnd])
+
+			// the data may be shared with other values, so the length is set in the output
+			if _, err = elements.Int32.Encode(start+uint(e.value.offset)-startToWrite, b, codeWithScopeLength); err != nil {
+				return int64(n), err
+			}
+
 			start += uint(n)
 
 			nn, err := e.value.d.writeByteSlice(start, scopeLength, b)
@@ -245,20 +247,6 @@ func (e *Element) writeByteSlice(key bool, start uint, size uint32, b []byte) (i
 			break
 		}
 
-		// Get length of scope
-		scopeStart := codeStart + 4 + uint32(codeLength)
-		scopeLength := readi32(e.value.data[scopeStart : scopeStart+4])
-
-		// Calculate end of entire CodeWithScope value
-		codeWithScopeEnd := int32(scopeStart) + scopeLength
-
-		// Set the length of the value
-		codeWithScopeLength := codeWithScopeEnd - int32(e.value.offset)
-
-		if _, err := elements.Int32.Encode(uint(e.value.offset), e.value.data, codeWithScopeLength); err != nil {
-			return 0, err
-		}
-
 		fallthrough
 	default:
 		n = copy(b[start:], e.value.data[startToWrite:e.value.start+size])
-- 
2.43.0


From 304f220db5984588d0cff517c2e649695ab1622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:20 +0000
Subject: [PATCH 14/74] fix: strict conversion reports unconvertible nested
 values and nil documents, and accepts null values

---
 constructor.go   | 29 +++++++++++++++++++++++++++++
 x_constructor.go |  5 +++++
 2 files changed, 34 insertions(+)

diff --git a/constructor.go b/constructor.go
index 2c8c066..376d427 100644
--- a/constructor.go
+++ b/constructor.go
@@ -11,6 +11,7 @@ import (
 	"math"
 	"time"
 
+	"github.com/tychoish/birch/bsonerr"
 	"github.com/tychoish/birch/bsontype"
 	"github.com/tychoish/birch/elements"
 	"github.com/tychoish/birch/jsonx"
@@ -180,6 +181,34 @@ func (ElementConstructorError) Interface(key string, value any) (*Element, error
 		default:
 			return EC.Int64(key, int64(t)), nil
 		}
+	case map[string]any:
+		doc, err := DCE.MapInterface(t)
+		if err != nil {
+			return nil, err
+		}
+
+		return EC.SubDocument(key, doc), nil
+	case map[any]any:
+		doc, err := DCE.MapInterfaceInterface(t)
+		if err != nil {
+			return nil, err
+		}
+
+		return EC.SubDocument(key, doc), nil
+	case []any:
+		return ECE.SliceInterface(key, t)
+	case *Value:
+		if elem := EC.Value(key, t); elem != nil {
+			return elem, nil
+		}
+
+		return nil, bsonerr.UninitializedElement
+	case *Element:
+		if t != nil {
+			return t, nil
+		}
+
+		return nil, bsonerr.NilElement
 	case DocumentMarshaler:
 		return ECE.DocumentMarshaler(key, t)
 	case Marshaler:
diff --git a/x_constructor.go b/x_constructor.go
index 926f820..b6e76be 100644
--- a/x_constructor.go
+++ b/x_constructor.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"time"
 
+	"github.com/tychoish/birch/bsonerr"
 	"github.com/tychoish/fun/erc"
 )
 
@@ -254,6 +255,10 @@ func (ElementConstructorError) DocumentMarshaler(key string, val DocumentMarshal
 		return nil, err
 	}
 
+	if doc == nil {
+		return nil, bsonerr.NilDocument
+	}
+
 	return EC.SubDocument(key, doc), nil
 }
 
-- 
2.43.0


From ac23b6190eab34811816fb9dcaab20cd92ada07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:14 +0000
Subject: [PATCH 15/74] fix: JSON output escapes object keys

---
 jsonx/marhsal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonx/marhsal.go b/jsonx/marhsal.go
index 041c984..cd62a55 100644
--- a/jsonx/marhsal.go
+++ b/jsonx/marhsal.go
@@ -16,7 +16,8 @@ func (d *Document) MarshalJSON() ([]byte, error) {
 			out = append(out, ',')
 		}
 
-		out = append(out, []byte(fmt.Sprintf(`"%s":`, elem.key))...)
+		out = append(out, writeJSONString([]byte(elem.key))...)
+		out = append(out, ':')
 
 		val, err := elem.value.MarshalJSON()
 		if err != nil {
-- 
2.43.0


From e5f145e54f3a005c623be2a94c5221b7ff2f5786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:17 +0000
Subject: [PATCH 16/74] fix: JSON numbers keep their value and whether they are
 doubles

---
 jsonx/marhsal.go    |  8 +++++---
 jsonx/unmarshal.go  |  4 ++--
 jsonx/write.go      | 24 ++++++++++++++++++++++++
 x_json_marshal.go   | 21 ++++++++++++++++++++-
 x_json_unmarshal.go | 26 ++++++++++++++++++++++++++
 5 files changed, 77 insertions(+), 6 deletions(-)

diff --git a/jsonx/marhsal.go b/jsonx/marhsal.go
index cd62a55..68f1466 100644
--- a/jsonx/marhsal.go
+++ b/jsonx/marhsal.go
@@ -67,11 +67,13 @@ func (v *Value) MarshalJSON() ([]byte, error) {
 	case String:
 		return writeJSONString([]byte(fmt.Sprintf(`%s`, v.value))), nil
 	case NumberDouble, NumberInteger, Number:
-		switch v.value.(type) {
+		switch n := v.value.(type) {
 		case int64, int32, int:
 			return []byte(fmt.Sprintf(`%d`, v.value)), nil
-		case float64, float32:
-			return []byte(fmt.Sprintf(`%f`, v.value)), nil
+		case float64:
+			return writeJSONFloat(n, 64)
+		case float32:
+			return writeJSONFloat(float64(n), 32)
 		default:
 			return nil, fmt.Errorf("unsupported number type %T", v.value)
 		}
diff --git a/jsonx/unmarshal.go b/jsonx/unmarshal.go
index 5f36b47..51b1f35 100644
--- a/jsonx/unmarshal.go
+++ b/jsonx/unmarshal.go
@@ -90,14 +90,14 @@ func getValueForResult(value internal.Result) (*Value, error) {
 	case value.Type == internal.False:
 		return VC.Boolean(false), nil
 	case value.Type == internal.Number:
-		num := json.Number(value.String())
+		num := json.Number(value.Raw)
 		if igr, err := num.Int64(); err == nil {
 			return VC.Int(int(igr)), nil
 		} else if df, err := num.Float64(); err == nil {
 			return VC.Float64(df), nil
 		}
 
-		return nil, fmt.Errorf("number value [%s] is invalid [%+v]", value.Str, value)
+		return nil, fmt.Errorf("number value [%s] is invalid [%+v]", value.Raw, value)
 	case value.IsArray():
 		source := value.Array()
 		array := AC.Make(len(source))
diff --git a/jsonx/write.go b/jsonx/write.go
index b664054..b46d7dd 100644
--- a/jsonx/write.go
+++ b/jsonx/write.go
@@ -3,6 +3,10 @@ package jsonx
 // code in this file from: https://github.com/json-iterator/go/blob/master/stream_str.go
 
 import (
+	"bytes"
+	"fmt"
+	"math"
+	"strconv"
 	"unicode/utf8"
 )
 
@@ -107,6 +111,26 @@ var safeSet = [utf8.RuneSelf]bool{
 
 const hex = "0123456789abcdef"
 
+// writeJSONFloat writes the shortest number that reads back as the
+// same double, always in a form that is not an integer.
+func writeJSONFloat(n float64, bits int) ([]byte, error) {
+	if math.IsNaN(n) || math.IsInf(n, 0) {
+		return nil, fmt.Errorf("cannot represent %f as a json number", n)
+	}
+
+	format := byte('f')
+	if abs := math.Abs(n); abs != 0 && (abs < 1e-6 || abs >= 1e21) {
+		format = 'e'
+	}
+
+	out := strconv.AppendFloat(nil, n, format, -1, bits)
+	if !bytes.ContainsAny(out, ".e") {
+		out = append(out, '.', '0')
+	}
+
+	return out, nil
+}
+
 func writeJSONString(s []byte) []byte {
 	out := make([]byte, 0, len(s))
 
diff --git a/x_json_marshal.go b/x_json_marshal.go
index 45462c6..e86c2e0 100644
--- a/x_json_marshal.go
+++ b/x_json_marshal.go
@@ -1,6 +1,7 @@
 package birch
 
 import (
+	"math"
 	"time"
 
 	"github.com/tychoish/birch/bsontype"
@@ -40,10 +41,28 @@ func (a *Array) toJSON() *jsonx.Array {
 
 func (v *Value) MarshalJSON() ([]byte, error) { return v.toJSON().MarshalJSON() }
 
+// formatNonFinite is the extended JSON spelling of the doubles that
+// are not JSON numbers.
+func formatNonFinite(val float64) string {
+	switch {
+	case math.IsInf(val, 1):
+		return "Infinity"
+	case math.IsInf(val, -1):
+		return "-Infinity"
+	default:
+		return "NaN"
+	}
+}
+
 func (v *Value) toJSON() *jsonx.Value {
 	switch v.Type() {
 	case bsontype.Double:
-		return jsonx.VC.Float64(v.Double())
+		val := v.Double()
+		if math.IsNaN(val) || math.IsInf(val, 0) {
+			return jsonx.VC.ObjectFromElements(jsonx.EC.String("$numberDouble", formatNonFinite(val)))
+		}
+
+		return jsonx.VC.Float64(val)
 	case bsontype.String:
 		return jsonx.VC.String(v.StringValue())
 	case bsontype.EmbeddedDocument:
diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 456a164..6052bdc 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"strconv"
 	"time"
 
 	"github.com/tychoish/birch/jsonx"
@@ -87,6 +88,19 @@ func (DocumentConstructorError) JSONX(jd *jsonx.Document) (*Document, error) {
 
 func (DocumentConstructor) JSONX(jd *jsonx.Document) *Document { return erc.Must(DCE.JSONX(jd)) }
 
+// extendedJSONString returns the string that an extended JSON wrapper
+// (e.g. {"$oid": "..."}) holds.
+func extendedJSONString(key string, doc *jsonx.Document) (string, error) {
+	elem := doc.ElementAtIndex(0)
+
+	val, ok := elem.Value().StringValueOK()
+	if !ok {
+		return "", fmt.Errorf("value of %q for %q is not a string", elem.Key(), key)
+	}
+
+	return val, nil
+}
+
 func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, error) {
 	inv := in.Value()
 	switch inv.Type() {
@@ -132,6 +146,18 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 			}
 
 			return EC.Decimal128(in.Key(), val), nil
+		case "$numberDouble":
+			str, err := extendedJSONString(in.Key(), indoc)
+			if err != nil {
+				return nil, err
+			}
+
+			val, err := strconv.ParseFloat(str, 64)
+			if err != nil {
+				return nil, err
+			}
+
+			return EC.Double(in.Key(), val), nil
 		case "$timestamp":
 			var (
 				t   int64
-- 
2.43.0


From 339d6796b8a8efc584d22bf75bb4eccaee7e4bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:43 +0000
Subject: [PATCH 17/74] fix: binary values survive extended JSON

---
 x_json_marshal.go   |  6 ++++--
 x_json_unmarshal.go | 33 ++++++++++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/x_json_marshal.go b/x_json_marshal.go
index e86c2e0..b944b32 100644
--- a/x_json_marshal.go
+++ b/x_json_marshal.go
@@ -1,6 +1,8 @@
 package birch
 
 import (
+	"encoding/base64"
+	"encoding/hex"
 	"math"
 	"time"
 
@@ -74,8 +76,8 @@ func (v *Value) toJSON() *jsonx.Value {
 
 		return jsonx.VC.ObjectFromElements(
 			jsonx.EC.ObjectFromElements("$binary",
-				jsonx.EC.String("base64", string(t)),
-				jsonx.EC.String("subType", string(d)),
+				jsonx.EC.String("base64", base64.StdEncoding.EncodeToString(d)),
+				jsonx.EC.String("subType", hex.EncodeToString([]byte{t})),
 			),
 		)
 	case bsontype.Undefined:
diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 6052bdc..ecae234 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -2,6 +2,7 @@ package birch
 
 import (
 	"context"
+	"encoding/base64"
 	"errors"
 	"fmt"
 	"strconv"
@@ -294,7 +295,37 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		case "$undefined":
 			return EC.Undefined(in.Key()), nil
 		case "$binary":
-			return EC.Binary(in.Key(), []byte(indoc.ElementAtIndex(0).Value().StringValue())), nil
+			bin, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("value of $binary for %q is not a document", in.Key())
+			}
+
+			var (
+				data    []byte
+				subtype byte
+			)
+			for elem := range bin.Iterator() {
+				str, ok := elem.Value().StringValueOK()
+				if !ok {
+					return nil, fmt.Errorf("problem decoding binary in %s", in.Key())
+				}
+
+				switch elem.Key() {
+				case "base64":
+					var err error
+					if data, err = base64.StdEncoding.DecodeString(str); err != nil {
+						return nil, err
+					}
+				case "subType":
+					val, err := strconv.ParseUint(str, 16, 8)
+					if err != nil {
+						return nil, err
+					}
+					subtype = byte(val)
+				}
+			}
+
+			return EC.BinaryWithSubtype(in.Key(), data, subtype), nil
 		default:
 			doc := DC.Make(indoc.Len())
 
-- 
2.43.0


From bfcafd8699b4025feef7c03dd472fc521d77c142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:45 +0000
Subject: [PATCH 18/74] fix: dates survive extended JSON to the millisecond

---
 x_json_marshal.go   | 17 +++++++++++++++--
 x_json_unmarshal.go | 21 ++++++++++++++++++++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/x_json_marshal.go b/x_json_marshal.go
index b944b32..20f2472 100644
--- a/x_json_marshal.go
+++ b/x_json_marshal.go
@@ -4,7 +4,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 	"math"
-	"time"
+	"strconv"
 
 	"github.com/tychoish/birch/bsontype"
 	"github.com/tychoish/birch/jsonx"
@@ -87,7 +87,20 @@ func (v *Value) toJSON() *jsonx.Value {
 	case bsontype.Boolean:
 		return jsonx.VC.Boolean(v.Boolean())
 	case bsontype.DateTime:
-		return jsonx.VC.ObjectFromElements(jsonx.EC.String("$date", v.Time().Format(time.RFC3339)))
+		date := v.Time()
+		if _, offset := date.Zone(); offset%60 != 0 {
+			date = date.UTC()
+		}
+
+		if date.Year() < 0 || date.Year() > 9999 {
+			return jsonx.VC.ObjectFromElements(
+				jsonx.EC.ObjectFromElements("$date",
+					jsonx.EC.String("$numberLong", strconv.FormatInt(v.DateTime(), 10)),
+				),
+			)
+		}
+
+		return jsonx.VC.ObjectFromElements(jsonx.EC.String("$date", date.Format("2006-01-02T15:04:05.999Z07:00")))
 	case bsontype.Null:
 		return jsonx.VC.Nil()
 	case bsontype.Regex:
diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index ecae234..e83bef3 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -280,7 +280,26 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 
 			return EC.Regex(in.Key(), pattern, options), nil
 		case "$date":
-			date, err := time.Parse(time.RFC3339, indoc.ElementAtIndex(0).Value().StringValue())
+			if long, ok := indoc.ElementAtIndex(0).Value().DocumentOK(); ok && long.KeyAtIndex(0) == "$numberLong" {
+				str, err := extendedJSONString(in.Key(), long)
+				if err != nil {
+					return nil, err
+				}
+
+				ms, err := strconv.ParseInt(str, 10, 64)
+				if err != nil {
+					return nil, err
+				}
+
+				return EC.DateTime(in.Key(), ms), nil
+			}
+
+			str, err := extendedJSONString(in.Key(), indoc)
+			if err != nil {
+				return nil, err
+			}
+
+			date, err := time.Parse(time.RFC3339, str)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 827248b9d34b770d6395c55b1f93457315a70d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:11 +0000
Subject: [PATCH 19/74] fix: malformed extended JSON is an error and does not
 panic

---
 x_json_unmarshal.go | 61 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index e83bef3..df1bc34 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -5,6 +5,7 @@ import (
 	"encoding/base64"
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 
@@ -141,7 +142,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		case "$maxKey":
 			return EC.MaxKey(in.Key()), nil
 		case "$numberDecimal":
-			val, err := types.ParseDecimal128(indoc.ElementAtIndex(0).Value().StringValue())
+			str, err := extendedJSONString(in.Key(), indoc)
+			if err != nil {
+				return nil, err
+			}
+
+			val, err := types.ParseDecimal128(str)
 			if err != nil {
 				return nil, err
 			}
@@ -164,10 +170,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				t   int64
 				i   int64
 				val int
-				ok  bool
 			)
 
-			tsDoc := indoc.ElementAtIndex(0).Value().Document()
+			tsDoc, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("value of $timestamp for %q is not a document", in.Key())
+			}
 			count := 0
 			for elem := range tsDoc.Iterator() {
 				if count >= 3 {
@@ -181,19 +189,30 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 						return nil, fmt.Errorf("problem decoding number for timestamp at %s [%T]", in.Key(), elem.Value().Interface())
 					}
 					t = int64(val)
+					if t < 0 || t > math.MaxUint32 {
+						return nil, fmt.Errorf("timestamp at %s is out of range", in.Key())
+					}
 				case "i":
 					val, ok = elem.Value().IntOK()
 					if !ok {
 						return nil, fmt.Errorf("problem decoding number for timestamp at %s [%T]", in.Key(), elem.Value().Interface())
 					}
 					i = int64(val)
+					if i < 0 || i > math.MaxUint32 {
+						return nil, fmt.Errorf("timestamp at %s is out of range", in.Key())
+					}
 				}
 				count++
 			}
 
 			return EC.Timestamp(in.Key(), uint32(t), uint32(i)), nil
 		case "$symbol":
-			return EC.Symbol(in.Key(), indoc.ElementAtIndex(0).Value().StringValue()), nil
+			str, err := extendedJSONString(in.Key(), indoc)
+			if err != nil {
+				return nil, err
+			}
+
+			return EC.Symbol(in.Key(), str), nil
 		case "$code":
 			js, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
 			if !ok {
@@ -208,17 +227,25 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 					return nil, err
 				}
 
-				return EC.CodeWithScope(in.Key(), js, scope.Value().MutableDocument()), nil
+				doc, ok := scope.Value().MutableDocumentOK()
+				if !ok {
+					return nil, fmt.Errorf("invalid scope in code with scope for %s", in.Key())
+				}
+
+				return EC.CodeWithScope(in.Key(), js, doc), nil
 			} else {
 				return nil, fmt.Errorf("invalid key '%s' in code with scope for %s", second, in.Key())
 			}
 		case "$dbPointer":
 			var (
-				ns  string
-				oid string
-				ok  bool
+				ns    string
+				oid   string
+				hasNS bool
 			)
-			debref := indoc.ElementAtIndex(0).Value().Document()
+			debref, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("value of $dbPointer for %q is not a document", in.Key())
+			}
 			count := 0
 			for elem := range debref.Iterator() {
 				if count >= 2 {
@@ -231,6 +258,7 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 					if !ok {
 						return nil, fmt.Errorf("problem decoding ns for dbref in %s", in.Key())
 					}
+					hasNS = true
 				case "$id":
 					oid, ok = elem.Value().StringValueOK()
 					if !ok {
@@ -239,7 +267,7 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				}
 				count++
 			}
-			if ns == "" || oid == "" {
+			if !hasNS || oid == "" {
 				return nil, errors.New("values for dbref are not defined")
 			}
 
@@ -253,9 +281,11 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 			var (
 				pattern string
 				options string
-				ok      bool
 			)
-			rex := indoc.ElementAtIndex(0).Value().Document()
+			rex, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("value of $regularExpression for %q is not a document", in.Key())
+			}
 
 			count := 0
 			for elem := range rex.Iterator() {
@@ -305,7 +335,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 			}
 			return EC.Time(in.Key(), date), nil
 		case "$oid":
-			oid, err := types.ObjectIDFromHex(indoc.ElementAtIndex(0).Value().StringValue())
+			str, err := extendedJSONString(in.Key(), indoc)
+			if err != nil {
+				return nil, err
+			}
+
+			oid, err := types.ObjectIDFromHex(str)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 2979b3d7f5ccbd5c0d9f23dc1898b25271d309a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:19 +0000
Subject: [PATCH 20/74] fix: JSON numbers without digits are rejected

---
 jsonx/internal/gjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonx/internal/gjson.go b/jsonx/internal/gjson.go
index 92e4e6a..9e4eaf5 100644
--- a/jsonx/internal/gjson.go
+++ b/jsonx/internal/gjson.go
@@ -1187,6 +1187,9 @@ func validnumber(data []byte, i int) (outi int, ok bool) {
 	if i == len(data) {
 		return i, false
 	}
+	if data[i] < '0' || data[i] > '9' {
+		return i, false
+	}
 	if data[i] == '0' {
 		i++
 	} else {
-- 
2.43.0


From 41bc311784462aac06bc6166fb91ec6eb2910da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:16 +0000
Subject: [PATCH 21/74] fix: decimal128 text out of range is an error

---
 types/decimal.go | 57 +++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/types/decimal.go b/types/decimal.go
index 64bcad2..058ef08 100644
--- a/types/decimal.go
+++ b/types/decimal.go
@@ -143,6 +143,12 @@ func divmod(h, l uint64, div uint32) (qh, ql uint64, rem uint32) {
 	return (aq<<32 | bq), (cq<<32 | dq), uint32(dr)
 }
 
+// the largest significand, 10^34-1
+const (
+	dMaxHigh uint64 = 0x1ed09bead87c0
+	dMaxLow  uint64 = 0x378d8e63ffffffff
+)
+
 var dNaN = Decimal128{0x1F << 58, 0}
 var dPosInf = Decimal128{0x1E << 58, 0}
 var dNegInf = Decimal128{0x3E << 58, 0}
@@ -299,42 +305,43 @@ func ParseDecimal128(s string) (Decimal128, error) {
 		}
 
 		e += n
-		for e < -6176 {
-			// Subnormal.
-			var div uint32 = 1
-			for div < 1e9 && e < -6176 {
-				div *= 10
-				e++
-			}
-
-			var rem uint32
-			h, l, rem = divmod(h, l, div)
+	}
 
-			if rem > 0 {
-				return dErr(orig)
-			}
+	for e < -6176 {
+		// Subnormal.
+		var div uint32 = 1
+		for div < 1e9 && e < -6176 {
+			div *= 10
+			e++
 		}
 
-		for e > 6111 {
-			// Clamped.
-			var mul uint32 = 1
-			for mul < 1e9 && e > 6111 {
-				mul *= 10
-				e--
-			}
+		var rem uint32
+		h, l, rem = divmod(h, l, div)
 
-			h, l, ovr = muladd(h, l, mul, 0)
+		if rem > 0 {
+			return dErr(orig)
+		}
+	}
 
-			if ovr > 0 || h&((1<<15-1)<<49) > 0 {
-				return dErr(orig)
-			}
+	for e > 6111 {
+		// Clamped.
+		var mul uint32 = 1
+		for mul < 1e9 && e > 6111 {
+			mul *= 10
+			e--
 		}
 
-		if e < -6176 || e > 6111 {
+		h, l, ovr = muladd(h, l, mul, 0)
+
+		if ovr > 0 || h > dMaxHigh || (h == dMaxHigh && l > dMaxLow) {
 			return dErr(orig)
 		}
 	}
 
+	if e < -6176 || e > 6111 {
+		return dErr(orig)
+	}
+
 	if i < len(s) {
 		return dErr(orig)
 	}
-- 
2.43.0


From bff525928569053b05dcdd192451a15843b738e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:19 +0000
Subject: [PATCH 22/74] fix: JSON strings with a NUL byte cannot become keys or
 regular expressions

---
 x_json_unmarshal.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index df1bc34..93254ad 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"math"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/tychoish/birch/jsonx"
@@ -105,6 +106,11 @@ func extendedJSONString(key string, doc *jsonx.Document) (string, error) {
 
 func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, error) {
 	inv := in.Value()
+
+	if strings.IndexByte(in.Key(), 0) >= 0 {
+		return nil, fmt.Errorf("key %q contains a null byte", in.Key())
+	}
+
 	switch inv.Type() {
 	case jsonx.String:
 		val, ok := inv.StringValueOK()
@@ -308,6 +314,10 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				count++
 			}
 
+			if strings.IndexByte(pattern, 0) >= 0 || strings.IndexByte(options, 0) >= 0 {
+				return nil, fmt.Errorf("regular expression in %s contains a null byte", in.Key())
+			}
+
 			return EC.Regex(in.Key(), pattern, options), nil
 		case "$date":
 			if long, ok := indoc.ElementAtIndex(0).Value().DocumentOK(); ok && long.KeyAtIndex(0) == "$numberLong" {
-- 
2.43.0


From 198c10d9b71aae6dd2c61d5ba3b8c016be1b5ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:06 +0000
Subject: [PATCH 23/74] fix: flattened FTDC keys contain the whole path

---
 x/ftdc/bson_metric.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/x/ftdc/bson_metric.go b/x/ftdc/bson_metric.go
index 6512780..0817575 100644
--- a/x/ftdc/bson_metric.go
+++ b/x/ftdc/bson_metric.go
@@ -48,18 +48,11 @@ func metricForType(key string, path []string, val *birch.Value) []Metric {
 	case bsontype.Array:
 		return metricForArray(key, path, val.MutableArray())
 	case bsontype.EmbeddedDocument:
-		path = append(path, key)
+		// siblings and their metrics must not share the backing array
+		nested := make([]string, 0, len(path)+1)
+		nested = append(append(nested, path...), key)
 
-		o := []Metric{}
-		for _, ne := range metricForDocument(path, val.MutableDocument()) {
-			o = append(o, Metric{
-				ParentPath:    path,
-				KeyName:       ne.KeyName,
-				startingValue: ne.startingValue,
-				originalType:  ne.originalType,
-			})
-		}
-		return o
+		return metricForDocument(nested, val.MutableDocument())
 	case bsontype.Boolean:
 		if val.Boolean() {
 			return []Metric{
-- 
2.43.0


From 9aed48366641391b4f6865f9855cc30d3c422a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:11 +0000
Subject: [PATCH 24/74] fix: doubles survive FTDC encoding exactly

---
 x/ftdc/bson_extract.go | 2 +-
 x/ftdc/read.go         | 8 +-------
 x/ftdc/util.go         | 7 -------
 3 files changed, 2 insertions(+), 15 deletions(-)

diff --git a/x/ftdc/bson_extract.go b/x/ftdc/bson_extract.go
index fcde3f2..7f230a0 100644
--- a/x/ftdc/bson_extract.go
+++ b/x/ftdc/bson_extract.go
@@ -112,7 +112,7 @@ func extractMetricsFromValue(val *birch.Value) (extractedMetrics, error) {
 func extractDelta(current *birch.Value, previous *birch.Value) (int64, error) {
 	switch current.Type() {
 	case bsontype.Double:
-		return normalizeFloat(current.Double() - previous.Double()), nil
+		return normalizeFloat(current.Double()) - normalizeFloat(previous.Double()), nil
 	case bsontype.Int64:
 		return current.Int64() - previous.Int64(), nil
 	default:
diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index da942bb..011a328 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -11,7 +11,6 @@ import (
 	"io"
 
 	"github.com/tychoish/birch"
-	"github.com/tychoish/birch/bsontype"
 )
 
 func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document) error {
@@ -135,12 +134,7 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 					}
 					metrics[i].Values[j] = int64(delta)
 				}
-				if metrics[i].originalType == bsontype.Double {
-					metrics[i].Values = undeltaFloats(v.startingValue, metrics[i].Values)
-				} else {
-					metrics[i].Values = undelta(v.startingValue, metrics[i].Values)
-				}
-
+				metrics[i].Values = undelta(v.startingValue, metrics[i].Values)
 			}
 			select {
 			case o <- &Chunk{
diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 505e7cd..6b0171b 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -57,13 +57,6 @@ func readDocument(in any) (*birch.Document, error) {
 
 func getOffset(count, sample, metric int) int { return metric*count + sample }
 
-func undeltaFloats(value int64, deltas []int64) []int64 {
-	out := make([]int64, 1, len(deltas)+1)
-	out[0] = value
-
-	return append(out, deltas...)
-}
-
 func undelta(value int64, deltas []int64) []int64 {
 	out := make([]int64, len(deltas)+1)
 	out[0] = value
-- 
2.43.0


From df150abd9af4f99761484232e10118efb9fa830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:17 +0000
Subject: [PATCH 25/74] fix: FTDC dates outside the nanosecond range keep their
 value

---
 x/ftdc/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 6b0171b..e85237b 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -104,7 +104,7 @@ func compressBuffer(input []byte) ([]byte, error) {
 
 func normalizeFloat(in float64) int64 { return int64(math.Float64bits(in)) }
 func restoreFloat(in int64) float64   { return math.Float64frombits(uint64(in)) }
-func epochMs(t time.Time) int64       { return t.UnixNano() / 1000000 }
+func epochMs(t time.Time) int64       { return t.UnixMilli() }
 func timeEpocMs(in int64) time.Time   { return time.Unix(in/1000, in%1000*1000000) }
 
 func isNum(num int, val *birch.Value) bool {
-- 
2.43.0


From 898191d371ae3beec89b9ae4c141f11711ff45ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:22 +0000
Subject: [PATCH 26/74] fix: dynamic FTDC collectors start a chunk whenever the
 schema changes

---
 x/ftdc/bson_hash.go         | 26 +++++++++++---------------
 x/ftdc/collector_dynamic.go |  6 ++++--
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/x/ftdc/bson_hash.go b/x/ftdc/bson_hash.go
index 3976f0e..9168d2a 100644
--- a/x/ftdc/bson_hash.go
+++ b/x/ftdc/bson_hash.go
@@ -37,29 +37,25 @@ func metricKeyHashArray(checksum hash.Hash, key string, array *birch.Array) int
 	return seen
 }
 
+// metricKeyHashField covers everything that makes up the schema of a
+// field: its key, terminated so that adjacent keys do not run
+// together, and its type.
+func metricKeyHashField(checksum hash.Hash, key string, t bsontype.Type) {
+	_, _ = checksum.Write([]byte(key))
+	_, _ = checksum.Write([]byte{0, byte(t)})
+}
+
 func metricKeyHashValue(checksum hash.Hash, key string, value *birch.Value) int {
 	switch value.Type() {
 	case bsontype.Array:
 		return metricKeyHashArray(checksum, key, value.MutableArray())
 	case bsontype.EmbeddedDocument:
 		return metricKeyHashDocument(checksum, key, value.MutableDocument())
-	case bsontype.Boolean:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.Double:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.Int32:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.Int64:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.DateTime:
-		_, _ = checksum.Write([]byte(key))
+	case bsontype.Boolean, bsontype.Double, bsontype.Int32, bsontype.Int64, bsontype.DateTime:
+		metricKeyHashField(checksum, key, value.Type())
 		return 1
 	case bsontype.Timestamp:
-		_, _ = checksum.Write([]byte(key))
+		metricKeyHashField(checksum, key, value.Type())
 		return 2
 	default:
 		return 0
diff --git a/x/ftdc/collector_dynamic.go b/x/ftdc/collector_dynamic.go
index 443cd93..254ea59 100644
--- a/x/ftdc/collector_dynamic.go
+++ b/x/ftdc/collector_dynamic.go
@@ -66,13 +66,15 @@ func (c *dynamicCollector) Add(in any) error {
 
 	lastChunk := c.chunks[len(c.chunks)-1]
 
-	docHash, _ := metricKeyHash(doc)
-	if c.hash == docHash {
+	docHash, num := metricKeyHash(doc)
+	if c.hash == docHash && c.currentNum == num {
 		return (lastChunk.Add(doc))
 	}
 
 	chunk := newBatchCollector(c.maxSamples)
 	c.chunks = append(c.chunks, chunk)
+	c.hash = docHash
+	c.currentNum = num
 
 	return (chunk.Add(doc))
 }
-- 
2.43.0


From 472db49488a76da5c6a04ab79f008f44ac520427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:13 +0000
Subject: [PATCH 27/74] fix: FTDC collectors do not keep references to
 documents and buffers of the caller

---
 x/ftdc/bson_extract.go           |  4 ++--
 x/ftdc/collector_better.go       |  6 +++++-
 x/ftdc/collector_uncompressed.go | 11 ++++++-----
 x/ftdc/util.go                   | 13 +++++++++++++
 4 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/x/ftdc/bson_extract.go b/x/ftdc/bson_extract.go
index 7f230a0..0ed0358 100644
--- a/x/ftdc/bson_extract.go
+++ b/x/ftdc/bson_extract.go
@@ -89,13 +89,13 @@ func extractMetricsFromValue(val *birch.Value) (extractedMetrics, error) {
 		}
 		metrics.types = append(metrics.types, bsontype.Boolean)
 	case bsontype.Double:
-		metrics.values = append(metrics.values, val)
+		metrics.values = append(metrics.values, birch.VC.Double(val.Double()))
 		metrics.types = append(metrics.types, bsontype.Double)
 	case bsontype.Int32:
 		metrics.values = append(metrics.values, birch.VC.Int64(int64(val.Int32())))
 		metrics.types = append(metrics.types, bsontype.Int32)
 	case bsontype.Int64:
-		metrics.values = append(metrics.values, val)
+		metrics.values = append(metrics.values, birch.VC.Int64(val.Int64()))
 		metrics.types = append(metrics.types, bsontype.Int64)
 	case bsontype.DateTime:
 		metrics.values = append(metrics.values, birch.VC.Int64(epochMs(val.Time())))
diff --git a/x/ftdc/collector_better.go b/x/ftdc/collector_better.go
index cd00b69..5650aa4 100644
--- a/x/ftdc/collector_better.go
+++ b/x/ftdc/collector_better.go
@@ -75,11 +75,15 @@ func (c *betterCollector) Add(in any) error {
 
 	var metrics extractedMetrics
 	if c.reference == nil {
-		c.reference = doc
+		doc, err = copyDocument(doc)
+		if err != nil {
+			return err
+		}
 		metrics, err = extractMetricsFromDocument(doc)
 		if err != nil {
 			return err
 		}
+		c.reference = doc
 		c.startedAt = metrics.ts
 		c.lastSample = &metrics
 		c.deltas = make([]int64, c.maxDeltas*len(c.lastSample.values))
diff --git a/x/ftdc/collector_uncompressed.go b/x/ftdc/collector_uncompressed.go
index 5eb63b9..95aa18a 100644
--- a/x/ftdc/collector_uncompressed.go
+++ b/x/ftdc/collector_uncompressed.go
@@ -171,11 +171,7 @@ func (c *uncompressedCollector) Add(in any) error {
 		return err
 	}
 
-	if c.metricCount == 0 {
-		c.metricCount = doc.Len()
-	}
-
-	if doc.Len() != c.metricCount {
+	if len(c.samples) > 0 && doc.Len() != c.metricCount {
 		return errors.New("unexpected schema change detected")
 	}
 
@@ -183,6 +179,11 @@ func (c *uncompressedCollector) Add(in any) error {
 		return errors.New("collector is overfull")
 	}
 
+	if doc, err = copyDocument(doc); err != nil {
+		return err
+	}
+
+	c.metricCount = doc.Len()
 	c.samples = append(c.samples, doc)
 	return nil
 }
diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index e85237b..23a831f 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -18,6 +18,9 @@ import (
 func readDocument(in any) (*birch.Document, error) {
 	switch doc := in.(type) {
 	case *birch.Document:
+		if doc == nil {
+			return nil, errors.New("cannot read nil document")
+		}
 		return doc, nil
 	case birch.DocumentMarshaler:
 		return doc.MarshalDocument()
@@ -55,6 +58,16 @@ func readDocument(in any) (*birch.Document, error) {
 	}
 }
 
+// copyDocument returns a document that does not share anything with
+// the input, so that collectors can hold it after they have returned.
+func copyDocument(doc *birch.Document) (*birch.Document, error) {
+	data, err := doc.MarshalBSON()
+	if err != nil {
+		return nil, err
+	}
+	return birch.ReadDocument(data)
+}
+
 func getOffset(count, sample, metric int) int { return metric*count + sample }
 
 func undelta(value int64, deltas []int64) []int64 {
-- 
2.43.0


From 6e93892dccdd1e5e9d85af8b5b476dddbeda26bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:19 +0000
Subject: [PATCH 28/74] fix: FTDC metadata can be unset and is not shared with
 the caller

---
 x/ftdc/collector_better.go       | 9 +++++++++
 x/ftdc/collector_uncompressed.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/x/ftdc/collector_better.go b/x/ftdc/collector_better.go
index 5650aa4..18383fa 100644
--- a/x/ftdc/collector_better.go
+++ b/x/ftdc/collector_better.go
@@ -33,11 +33,20 @@ func NewBaseCollector(maxSize int) Collector {
 }
 
 func (c *betterCollector) SetMetadata(in any) error {
+	if in == nil {
+		c.metadata = nil
+		return nil
+	}
+
 	doc, err := readDocument(in)
 	if err != nil {
 		return err
 	}
 
+	if doc, err = copyDocument(doc); err != nil {
+		return err
+	}
+
 	c.metadata = doc
 	return nil
 }
diff --git a/x/ftdc/collector_uncompressed.go b/x/ftdc/collector_uncompressed.go
index 95aa18a..daf81b1 100644
--- a/x/ftdc/collector_uncompressed.go
+++ b/x/ftdc/collector_uncompressed.go
@@ -156,11 +156,20 @@ func (c *uncompressedCollector) Info() CollectorInfo {
 }
 
 func (c *uncompressedCollector) SetMetadata(in any) error {
+	if in == nil {
+		c.metadata = nil
+		return nil
+	}
+
 	doc, err := readDocument(in)
 	if err != nil {
 		return err
 	}
 
+	if doc, err = copyDocument(doc); err != nil {
+		return err
+	}
+
 	c.metadata = doc
 	return nil
 }
-- 
2.43.0


From 2334b80e66504db2bbb6de35240e391283e64b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:26 +0000
Subject: [PATCH 29/74] fix: streaming FTDC collectors flush full chunks and
 keep their format after schema changes

---
 x/ftdc/collector_streaming.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/x/ftdc/collector_streaming.go b/x/ftdc/collector_streaming.go
index e2f22a2..fbf5e24 100644
--- a/x/ftdc/collector_streaming.go
+++ b/x/ftdc/collector_streaming.go
@@ -36,7 +36,7 @@ func newStreamingCollector(maxSamples int, writer io.Writer) *streamingCollector
 
 func (c *streamingCollector) Reset() { c.count = 0; c.Collector.Reset() }
 func (c *streamingCollector) Add(in any) error {
-	if c.count-1 >= c.maxSamples {
+	if c.count >= c.maxSamples {
 		if err := FlushCollector(c, c.output); err != nil {
 			return fmt.Errorf("problem flushing collector contents: %w", err)
 		}
@@ -96,7 +96,7 @@ func NewStreamingDynamicCollector(max int, writer io.Writer) Collector {
 }
 
 func (c *streamingDynamicCollector) Reset() {
-	c.streamingCollector = newStreamingCollector(c.streamingCollector.maxSamples, c.output)
+	c.streamingCollector.Reset()
 	c.metricCount = 0
 	c.hash = ""
 }
@@ -108,22 +108,17 @@ func (c *streamingDynamicCollector) Add(in any) error {
 	}
 
 	docHash, num := metricKeyHash(doc)
-	if c.hash == "" {
-		c.hash = docHash
-		c.metricCount = num
-		if c.streamingCollector.count > 0 {
-			if err := FlushCollector(c, c.output); err != nil {
-				return err
-			}
-		}
-		return (c.streamingCollector.Add(doc))
-	}
-
 	if c.metricCount != num || c.hash != docHash {
 		if err := FlushCollector(c, c.output); err != nil {
 			return err
 		}
 	}
 
-	return (c.streamingCollector.Add(doc))
+	if err := c.streamingCollector.Add(doc); err != nil {
+		return err
+	}
+
+	c.hash = docHash
+	c.metricCount = num
+	return nil
 }
-- 
2.43.0


From 9e0aeba3367df0a9b553e94feed8366d513a1788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:43 +0000
Subject: [PATCH 30/74] fix: corrupt FTDC data is an error and does not panic

---
 x/ftdc/read.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index 011a328..6c9f31f 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -11,6 +11,7 @@ import (
 	"io"
 
 	"github.com/tychoish/birch"
+	"github.com/tychoish/birch/bsontype"
 )
 
 func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document) error {
@@ -70,7 +71,13 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 			if zelem == nil {
 				return errors.New("data is not populated")
 			}
+			if zelem.Value().Type() != bsontype.Binary {
+				return errors.New("data is not binary")
+			}
 			_, zBytes := zelem.Value().Binary()
+			if len(zBytes) < 4 {
+				return errors.New("data is too short")
+			}
 
 			// the metrics chunk, after the first 4 bytes, is zlib
 			// compressed, so we make a reader for that. data
@@ -78,7 +85,14 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 			if err != nil {
 				return fmt.Errorf("problem building zlib reader: %w", err)
 			}
-			buf := bufio.NewReader(z)
+			// reading to the end verifies the checksum, so that
+			// nothing is interpreted before it is known to be
+			// what was written.
+			payload, err := io.ReadAll(z)
+			if err != nil {
+				return fmt.Errorf("problem decompressing metrics: %w", err)
+			}
+			buf := bufio.NewReader(bytes.NewReader(payload))
 
 			// the metrics chunk, which is *not* bson, first
 			// contains a bson document which begins the
@@ -156,7 +170,11 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 func readBufBSON(buf *bufio.Reader) (*birch.Document, error) {
 	doc := &birch.Document{}
 
-	if _, err := doc.ReadFrom(buf); err != nil {
+	n, err := doc.ReadFrom(buf)
+	if err == io.EOF && n > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	if err != nil {
 		return nil, err
 	}
 
@@ -168,6 +186,9 @@ func readBufMetrics(buf *bufio.Reader) (*birch.Document, []Metric, error) {
 	if err != nil {
 		return nil, nil, fmt.Errorf("problem reading reference doc: %w", err)
 	}
+	if _, err = doc.Validate(); err != nil {
+		return nil, nil, fmt.Errorf("problem validating reference doc: %w", err)
+	}
 
 	return doc, metricForDocument([]string{}, doc), nil
 }
-- 
2.43.0


From 212b73696293afa9c9a948187332998f699d4d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:49 +0000
Subject: [PATCH 31/74] fix: errors reading FTDC data are known when the
 iteration ends

---
 x/ftdc/iterator_chunk.go | 13 +++++++++++--
 x/ftdc/read.go           |  5 +----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/x/ftdc/iterator_chunk.go b/x/ftdc/iterator_chunk.go
index 662cf4c..fb830c4 100644
--- a/x/ftdc/iterator_chunk.go
+++ b/x/ftdc/iterator_chunk.go
@@ -21,8 +21,17 @@ func ReadChunks(r io.Reader) *Iterator[*Chunk] {
 			ctx, cancel := context.WithCancel(context.Background())
 			defer cancel()
 
-			go func() { out.catcher.Push(readChunks(ctx, msi, ipc, pipe)) }()
-			go func() { out.catcher.Push(readDiagnostic(ctx, r, ipc)) }()
+			// the errors are recorded before the channels are
+			// closed, so that they are visible as soon as the
+			// iteration ends.
+			go func() {
+				defer close(pipe)
+				out.catcher.Push(readChunks(ctx, msi, ipc, pipe))
+			}()
+			go func() {
+				defer close(ipc)
+				out.catcher.Push(readDiagnostic(ctx, r, ipc))
+			}()
 
 			for {
 				select {
diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index 6c9f31f..f968084 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -15,7 +15,6 @@ import (
 )
 
 func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document) error {
-	defer close(ch)
 	buf := bufio.NewReader(f)
 	for {
 		doc, err := readBufBSON(buf)
@@ -35,14 +34,12 @@ func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document)
 }
 
 func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Document, o chan<- *Chunk) error {
-	defer close(o)
-
 	var metadata *birch.Document
 
 	for {
 		select {
 		case <-ctx.Done():
-			return ctx.Err()
+			return nil
 		case doc, ok := <-ch:
 			if !ok {
 				return nil
-- 
2.43.0


From aa6c707e7223f76e33835c087258c7cc1b679ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:16 +0000
Subject: [PATCH 32/74] fix: converting CSV keeps doubles and the rows after a
 new header, and reports flush errors

---
 x/ftdc/csv.go | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/x/ftdc/csv.go b/x/ftdc/csv.go
index c27a89a..18cbea3 100644
--- a/x/ftdc/csv.go
+++ b/x/ftdc/csv.go
@@ -1,7 +1,6 @@
 package ftdc
 
 import (
-	"context"
 	"encoding/csv"
 	"errors"
 	"fmt"
@@ -153,7 +152,7 @@ func DumpCSV(seq iter.Seq[*Chunk], prefix string) error {
 // If the number of fields changes in the CSV fields, the first field
 // with the changed number of fields becomes the header for the
 // subsequent documents in the stream.
-func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
+func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) (err error) {
 	csvr := csv.NewReader(input)
 
 	header, err := csvr.Read()
@@ -163,42 +162,41 @@ func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
 
 	collector := NewStreamingDynamicCollector(bucketSize, output)
 
-	defer func() {
-		if err != nil && (!errors.Is(err, context.Canceled) || !errors.Is(err, context.DeadlineExceeded)) {
-			err = fmt.Errorf("omitting final flush, because of prior error: %w", err)
-		}
-		err = FlushCollector(collector, output)
-	}()
+	defer func() { err = errors.Join(err, FlushCollector(collector, output)) }()
 
-	var record []string
+	var (
+		record []string
+		// a header in the middle of the stream must be followed
+		// by records of the same length.
+		headerChanged bool
+	)
 	for {
 		record, err = csvr.Read()
 		if err == io.EOF {
-			// this is weird so that the defer can work
-			err = nil
-			return err
+			return nil
 		}
 
 		if err != nil {
 			if pr, ok := err.(*csv.ParseError); ok && pr.Err == csv.ErrFieldCount {
+				if headerChanged {
+					return errors.New("unexpected field count change")
+				}
 				header = record
+				csvr.FieldsPerRecord = len(record)
+				headerChanged = true
 				continue
 			}
-			err = fmt.Errorf("problem parsing csv: %w", err)
-			return err
-		}
-		if len(record) != len(header) {
-			return errors.New("unexpected field count change")
+			return fmt.Errorf("problem parsing csv: %w", err)
 		}
+		headerChanged = false
 
 		elems := make([]*birch.Element, 0, len(header))
 		for idx := range record {
-			var val int
-			val, err = strconv.Atoi(record[idx])
-			if err != nil {
-				continue
+			if val, err := strconv.ParseInt(record[idx], 10, 64); err == nil {
+				elems = append(elems, birch.EC.Int64(header[idx], val))
+			} else if val, err := strconv.ParseFloat(record[idx], 64); err == nil {
+				elems = append(elems, birch.EC.Double(header[idx], val))
 			}
-			elems = append(elems, birch.EC.Int64(header[idx], int64(val)))
 		}
 
 		if err = collector.Add(birch.DC.Elements(elems...)); err != nil {
-- 
2.43.0


From 5890a75144378e489b5ab5588ffd7f0263305d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:22 +0000
Subject: [PATCH 33/74] fix: CSV output has the values of doubles and dates

---
 x/ftdc/csv.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/csv.go b/x/ftdc/csv.go
index 18cbea3..4d3d65d 100644
--- a/x/ftdc/csv.go
+++ b/x/ftdc/csv.go
@@ -26,10 +26,12 @@ func (c *Chunk) getRecord(i int) []string {
 	fields := make([]string, len(c.Metrics))
 	for idx, m := range c.Metrics {
 		switch m.originalType {
-		case bsontype.Double, bsontype.Int32, bsontype.Int64, bsontype.Boolean, bsontype.Timestamp:
+		case bsontype.Double:
+			fields[idx] = strconv.FormatFloat(restoreFloat(m.Values[i]), 'g', -1, 64)
+		case bsontype.Int32, bsontype.Int64, bsontype.Boolean, bsontype.Timestamp:
 			fields[idx] = strconv.FormatInt(m.Values[i], 10)
 		case bsontype.DateTime:
-			fields[idx] = time.Unix(m.Values[i]/1000, 0).Format(time.RFC3339)
+			fields[idx] = timeEpocMs(m.Values[i]).Format(time.RFC3339Nano)
 		}
 	}
 	return fields
-- 
2.43.0


From 9ee136dc270e4e9b5c808da59722d7fd1a2edb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:28 +0000
Subject: [PATCH 34/74] fix: reading FTDC series without a registered marshaler
 is an error and does not panic

---
 x/ftdc/iterator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/iterator.go b/x/ftdc/iterator.go
index bd2ed7c..594f6f7 100644
--- a/x/ftdc/iterator.go
+++ b/x/ftdc/iterator.go
@@ -1,6 +1,7 @@
 package ftdc
 
 import (
+	"errors"
 	"io"
 	"iter"
 
@@ -128,8 +129,13 @@ func ReadSeries(r io.Reader) *Iterator[*birch.Document] {
 	out.iterator = func() iter.Seq[*birch.Document] {
 		return func(yield func(*birch.Document) bool) {
 			defer func() { out.catcher.Push(chunks.Close()) }()
+			marshaler := util.GlobalMarshaler()
+			if marshaler == nil {
+				out.catcher.Push(errors.New("no registered marshaler"))
+				return
+			}
 			for chunk := range chunks.Iterator() {
-				payload, err := util.GlobalMarshaler()(chunk.exportMatrix())
+				payload, err := marshaler(chunk.exportMatrix())
 				if err != nil {
 					out.catcher.Push(err)
 					continue
-- 
2.43.0


From 6aa52f1b6016f307fa3fd05b3de0772fe6cf1142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:33 +0000
Subject: [PATCH 35/74] fix: buffered FTDC collectors do not panic or lose
 samples when they are canceled or resolved

---
 x/ftdc/collector_buffered.go | 69 ++++++++++++++++++++++++++++++++----
 1 file changed, 62 insertions(+), 7 deletions(-)

diff --git a/x/ftdc/collector_buffered.go b/x/ftdc/collector_buffered.go
index 7cf7ebb..b22438d 100644
--- a/x/ftdc/collector_buffered.go
+++ b/x/ftdc/collector_buffered.go
@@ -2,6 +2,7 @@ package ftdc
 
 import (
 	"context"
+	"sync"
 
 	"github.com/tychoish/fun/erc"
 )
@@ -11,8 +12,17 @@ type bufferedCollector struct {
 	pipe    chan any
 	catcher erc.Collector
 	ctx     context.Context
+	done    chan struct{}
+
+	// mtx guards closed: after it is set nothing is added to the pipe.
+	mtx    sync.RWMutex
+	closed bool
 }
 
+// bufferedSync is passed through the pipe: it is closed when everything
+// added before it has reached the underlying collector.
+type bufferedSync chan struct{}
+
 // NewBufferedCollector wraps an existing collector with a buffer to
 // normalize throughput to an underlying collector implementation.
 func NewBufferedCollector(ctx context.Context, size int, coll Collector) Collector {
@@ -20,29 +30,50 @@ func NewBufferedCollector(ctx context.Context, size int, coll Collector) Collect
 		Collector: coll,
 		pipe:      make(chan any, size),
 		ctx:       ctx,
+		done:      make(chan struct{}),
 	}
 
 	go func() {
+		defer close(c.done)
 		for {
 			select {
 			case <-ctx.Done():
-				close(c.pipe)
-				if len(c.pipe) != 0 {
-					for in := range c.pipe {
-						c.catcher.Push(c.Collector.Add(in))
+				c.mtx.Lock()
+				c.closed = true
+				c.mtx.Unlock()
+
+				for {
+					select {
+					case in := <-c.pipe:
+						c.process(in)
+					default:
+						return
 					}
 				}
-
-				return
 			case in := <-c.pipe:
-				c.catcher.Push(c.Collector.Add(in))
+				c.process(in)
 			}
 		}
 	}()
 	return c
 }
 
+func (c *bufferedCollector) process(in any) {
+	if sig, ok := in.(bufferedSync); ok {
+		close(sig)
+		return
+	}
+	c.catcher.Push(c.Collector.Add(in))
+}
+
 func (c *bufferedCollector) Add(in any) error {
+	c.mtx.RLock()
+	defer c.mtx.RUnlock()
+
+	if c.closed {
+		return c.ctx.Err()
+	}
+
 	select {
 	case <-c.ctx.Done():
 		return c.ctx.Err()
@@ -51,7 +82,31 @@ func (c *bufferedCollector) Add(in any) error {
 	}
 }
 
+// wait blocks until everything that has been added has reached the
+// underlying collector.
+func (c *bufferedCollector) wait() {
+	sig := make(bufferedSync)
+	if c.Add(sig) != nil {
+		<-c.done
+		return
+	}
+	<-sig
+}
+
+func (c *bufferedCollector) Info() CollectorInfo {
+	c.wait()
+
+	return c.Collector.Info()
+}
+
+func (c *bufferedCollector) Reset() {
+	c.wait()
+	c.Collector.Reset()
+}
+
 func (c *bufferedCollector) Resolve() ([]byte, error) {
+	c.wait()
+
 	if !c.catcher.Ok() {
 		return nil, c.catcher.Resolve()
 	}
-- 
2.43.0


From 2afee5245d3dcaf9b343c08aa5d2f40a2238ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:49 +0000
Subject: [PATCH 36/74] fix: dynamic uncompressed collectors accept documents
 with more or fewer fields

---
 x/ftdc/collector_streaming.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/ftdc/collector_streaming.go b/x/ftdc/collector_streaming.go
index fbf5e24..9cd19d1 100644
--- a/x/ftdc/collector_streaming.go
+++ b/x/ftdc/collector_streaming.go
@@ -108,6 +108,9 @@ func (c *streamingDynamicCollector) Add(in any) error {
 	}
 
 	docHash, num := metricKeyHash(doc)
+	if _, ok := c.streamingCollector.Collector.(*uncompressedCollector); ok {
+		num = doc.Len() // the schema of the uncompressed collectors
+	}
 	if c.metricCount != num || c.hash != docHash {
 		if err := FlushCollector(c, c.output); err != nil {
 			return err
-- 
2.43.0


From 498d575d7b3207c4e011cb4c84845b7a8845fa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:22 +0000
Subject: [PATCH 37/74] fix: FTDC collectors keep the content of maps of
 integers

---
 x/ftdc/util.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 23a831f..f0f4805 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -15,6 +15,19 @@ import (
 	"github.com/tychoish/birch/x/ftdc/util"
 )
 
+func readMap[T int | int64 | uint | uint64](in map[string]T) (*birch.Document, error) {
+	elems := make(birch.Elements, 0, len(in))
+	for key, value := range in {
+		elem, err := birch.ECE.Interface(key, value)
+		if err != nil {
+			return nil, err
+		}
+		elems = append(elems, elem)
+	}
+	sort.Stable(elems)
+	return birch.DC.Elements(elems...), nil
+}
+
 func readDocument(in any) (*birch.Document, error) {
 	switch doc := in.(type) {
 	case *birch.Document:
@@ -32,10 +45,18 @@ func readDocument(in any) (*birch.Document, error) {
 			return nil, fmt.Errorf("problem with unmarshaler: %w", err)
 		}
 		return birch.ReadDocument(data)
-	case map[string]any, map[string]int, map[string]int64, map[string]uint, map[string]uint64:
+	case map[string]any:
 		elems := birch.DC.Interface(doc).Elements()
 		sort.Stable(elems)
 		return birch.DC.Elements(elems...), nil
+	case map[string]int:
+		return readMap(doc)
+	case map[string]int64:
+		return readMap(doc)
+	case map[string]uint:
+		return readMap(doc)
+	case map[string]uint64:
+		return readMap(doc)
 	case map[string]string:
 		return nil, errors.New("cannot use string maps for metrics documents")
 	case nil:
-- 
2.43.0


From 2fa4946a0daf420dc5a116938af70a0228b04622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:25 +0000
Subject: [PATCH 38/74] fix: memory for FTDC samples is only allocated when
 their data has been read

---
 x/ftdc/read.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index f968084..67dae59 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -124,7 +124,8 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 			var nzeroes uint64
 			for i, v := range metrics {
 				metrics[i].startingValue = v.startingValue
-				metrics[i].Values = make([]int64, ndeltas)
+				// the count is not trusted before there is data for it
+				values := make([]int64, 0, min(ndeltas, 4096))
 
 				for j := 0; j < ndeltas; j++ {
 					var delta uint64
@@ -143,9 +144,9 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 							}
 						}
 					}
-					metrics[i].Values[j] = int64(delta)
+					values = append(values, int64(delta))
 				}
-				metrics[i].Values = undelta(v.startingValue, metrics[i].Values)
+				metrics[i].Values = undelta(v.startingValue, values)
 			}
 			select {
 			case o <- &Chunk{
-- 
2.43.0


From 0bea7573bbec615c3dd9776da03b71f4cdc74838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:18 +0000
Subject: [PATCH 39/74] fix: memory for a document is only allocated when its
 bytes have been read

---
 document.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/document.go b/document.go
index 5d66fd6..71e88c6 100644
--- a/document.go
+++ b/document.go
@@ -327,14 +327,22 @@ func (d *Document) ReadFrom(r io.Reader) (int64, error) {
 	}
 
 	b := stw.NewSlice(bufpool.Get())
-	b.Grow(int(givenLength))
+	b.Grow(4)
+	copy(b, sizeBuf)
 
-	copy(b[0:4], sizeBuf)
-	n, err = io.ReadFull(r, b[4:])
-	total += int64(n)
+	// the length is not trusted before the bytes are there
+	for have := 4; have < int(givenLength); have = len(b) {
+		b.Grow(min(int(givenLength), max(2*have, 64*1024)))
+		n, err = io.ReadFull(r, b[have:])
+		total += int64(n)
 
-	if err != nil {
-		return total, err
+		if err == io.EOF && have > 4 {
+			err = io.ErrUnexpectedEOF
+		}
+
+		if err != nil {
+			return total, err
+		}
 	}
 
 	return total, d.UnmarshalBSON(b)
-- 
2.43.0


From e8cd04301b2f4878822b94da10bf10531a0ca389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:17 +0000
Subject: [PATCH 40/74] fix: buffered FTDC collectors take a copy of samples,
 and set metadata after earlier samples

---
 x/ftdc/collector_buffered.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/collector_buffered.go b/x/ftdc/collector_buffered.go
index b22438d..f30e875 100644
--- a/x/ftdc/collector_buffered.go
+++ b/x/ftdc/collector_buffered.go
@@ -66,7 +66,22 @@ func (c *bufferedCollector) process(in any) {
 	c.catcher.Push(c.Collector.Add(in))
 }
 
+// Add passes a copy of the sample to the underlying collector: the
+// caller may reuse or change it as soon as Add returns.
 func (c *bufferedCollector) Add(in any) error {
+	doc, err := readDocument(in)
+	if err != nil {
+		return err
+	}
+
+	if doc, err = copyDocument(doc); err != nil {
+		return err
+	}
+
+	return c.send(doc)
+}
+
+func (c *bufferedCollector) send(in any) error {
 	c.mtx.RLock()
 	defer c.mtx.RUnlock()
 
@@ -86,13 +101,19 @@ func (c *bufferedCollector) Add(in any) error {
 // underlying collector.
 func (c *bufferedCollector) wait() {
 	sig := make(bufferedSync)
-	if c.Add(sig) != nil {
+	if c.send(sig) != nil {
 		<-c.done
 		return
 	}
 	<-sig
 }
 
+func (c *bufferedCollector) SetMetadata(in any) error {
+	c.wait()
+
+	return c.Collector.SetMetadata(in)
+}
+
 func (c *bufferedCollector) Info() CollectorInfo {
 	c.wait()
 
-- 
2.43.0


From b71d59ccb8ee839629745762564ec2d9500b9f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:05 +0000
Subject: [PATCH 41/74] fix: malformed wire messages are errors and do not
 panic

---
 x/mrpc/mongowire/wire_command.go       |  6 +++---
 x/mrpc/mongowire/wire_command_reply.go |  6 +++---
 x/mrpc/mongowire/wire_delete.go        |  2 +-
 x/mrpc/mongowire/wire_insert.go        |  2 +-
 x/mrpc/mongowire/wire_kill_cursors.go  |  3 +++
 x/mrpc/mongowire/wire_query.go         |  8 ++++++--
 x/mrpc/mongowire/wire_reply.go         |  2 +-
 x/mrpc/mongowire/wire_update.go        |  4 ++--
 x/mrpc/mongowire/wireutil.go           | 14 ++++++++++++++
 9 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/x/mrpc/mongowire/wire_command.go b/x/mrpc/mongowire/wire_command.go
index bfecaef..5b4235c 100644
--- a/x/mrpc/mongowire/wire_command.go
+++ b/x/mrpc/mongowire/wire_command.go
@@ -85,7 +85,7 @@ func (h *MessageHeader) parseCommandMessage(buf []byte) (Message, error) {
 	}
 	buf = buf[len(cmd.CmdName)+1:]
 
-	cmd.CommandArgs, err = birch.ReadDocument(buf)
+	cmd.CommandArgs, err = readDocument(buf)
 	if err != nil {
 		return nil, err
 	}
@@ -100,7 +100,7 @@ func (h *MessageHeader) parseCommandMessage(buf []byte) (Message, error) {
 	}
 	buf = buf[size:]
 
-	cmd.Metadata, err = birch.ReadDocument(buf)
+	cmd.Metadata, err = readDocument(buf)
 	if err != nil {
 		return nil, err
 	}
@@ -116,7 +116,7 @@ func (h *MessageHeader) parseCommandMessage(buf []byte) (Message, error) {
 	buf = buf[size:]
 
 	for len(buf) > 0 {
-		doc, err := birch.ReadDocument(buf)
+		doc, err := readDocument(buf)
 		if err != nil {
 			return nil, err
 		}
diff --git a/x/mrpc/mongowire/wire_command_reply.go b/x/mrpc/mongowire/wire_command_reply.go
index e4a1212..37e2561 100644
--- a/x/mrpc/mongowire/wire_command_reply.go
+++ b/x/mrpc/mongowire/wire_command_reply.go
@@ -53,7 +53,7 @@ func (h *MessageHeader) parseCommandReplyMessage(buf []byte) (Message, error) {
 
 	var err error
 
-	rm.CommandReply, err = birch.ReadDocument(buf)
+	rm.CommandReply, err = readDocument(buf)
 	if err != nil {
 		return nil, err
 	}
@@ -64,7 +64,7 @@ func (h *MessageHeader) parseCommandReplyMessage(buf []byte) (Message, error) {
 	}
 	buf = buf[replySize:]
 
-	rm.Metadata, err = birch.ReadDocument(buf)
+	rm.Metadata, err = readDocument(buf)
 	if err != nil {
 		return nil, err
 	}
@@ -75,7 +75,7 @@ func (h *MessageHeader) parseCommandReplyMessage(buf []byte) (Message, error) {
 	buf = buf[metaSize:]
 
 	for len(buf) > 0 {
-		doc, err := birch.ReadDocument(buf)
+		doc, err := readDocument(buf)
 		if err != nil {
 			return nil, err
 		}
diff --git a/x/mrpc/mongowire/wire_delete.go b/x/mrpc/mongowire/wire_delete.go
index 4dc3669..1bff0c4 100644
--- a/x/mrpc/mongowire/wire_delete.go
+++ b/x/mrpc/mongowire/wire_delete.go
@@ -73,7 +73,7 @@ func (h *MessageHeader) parseDeleteMessage(buf []byte) (Message, error) {
 	m.Flags = readInt32(buf[loc:])
 	loc += 4
 
-	m.Filter, err = birch.ReadDocument(buf[loc:])
+	m.Filter, err = readDocument(buf[loc:])
 	if err != nil {
 		return nil, err
 	}
diff --git a/x/mrpc/mongowire/wire_insert.go b/x/mrpc/mongowire/wire_insert.go
index 2b75dc3..0501576 100644
--- a/x/mrpc/mongowire/wire_insert.go
+++ b/x/mrpc/mongowire/wire_insert.go
@@ -72,7 +72,7 @@ func (h *MessageHeader) parseInsertMessage(buf []byte) (Message, error) {
 	loc += len(m.Namespace) + 1
 
 	for loc < len(buf) {
-		doc, err := birch.ReadDocument(buf[loc:])
+		doc, err := readDocument(buf[loc:])
 		if err != nil {
 			return nil, err
 		}
diff --git a/x/mrpc/mongowire/wire_kill_cursors.go b/x/mrpc/mongowire/wire_kill_cursors.go
index 4bd457b..b97bb0a 100644
--- a/x/mrpc/mongowire/wire_kill_cursors.go
+++ b/x/mrpc/mongowire/wire_kill_cursors.go
@@ -56,6 +56,9 @@ func (h *MessageHeader) parseKillCursorsMessage(buf []byte) (Message, error) {
 	m.NumCursors = readInt32(buf[loc:])
 	loc += 4
 
+	if m.NumCursors < 0 {
+		return nil, fmt.Errorf("invalid kill cursors message -- NumCursors = %d is negative", m.NumCursors)
+	}
 	if len(buf[loc:]) < int(m.NumCursors)*8 {
 		return nil, fmt.Errorf("invalid kill cursors message -- NumCursors = %d is larger than number of cursors in message", m.NumCursors)
 	}
diff --git a/x/mrpc/mongowire/wire_query.go b/x/mrpc/mongowire/wire_query.go
index ff7510a..b64e859 100644
--- a/x/mrpc/mongowire/wire_query.go
+++ b/x/mrpc/mongowire/wire_query.go
@@ -99,14 +99,14 @@ func (h *MessageHeader) parseQueryMessage(buf []byte) (Message, error) {
 	qm.NReturn = readInt32(buf[loc:])
 	loc += 4
 
-	qm.Query, err = birch.ReadDocument(buf[loc:])
+	qm.Query, err = readDocument(buf[loc:])
 	if err != nil {
 		return nil, err
 	}
 	loc += getDocSize(qm.Query)
 
 	if loc < len(buf) {
-		qm.Project, err = birch.ReadDocument(buf[loc:])
+		qm.Project, err = readDocument(buf[loc:])
 		if err != nil {
 			return nil, err
 		}
@@ -114,6 +114,10 @@ func (h *MessageHeader) parseQueryMessage(buf []byte) (Message, error) {
 	}
 
 	if NamespaceIsCommand(qm.Namespace) {
+		if qm.Query.Len() == 0 {
+			return nil, errors.New("invalid query message -- command does not have a name")
+		}
+
 		return qm.convertToCommand(), nil
 	}
 
diff --git a/x/mrpc/mongowire/wire_reply.go b/x/mrpc/mongowire/wire_reply.go
index c0a6b47..4531918 100644
--- a/x/mrpc/mongowire/wire_reply.go
+++ b/x/mrpc/mongowire/wire_reply.go
@@ -72,7 +72,7 @@ func (h *MessageHeader) parseReplyMessage(buf []byte) (Message, error) {
 	loc += 4
 
 	for loc < len(buf) {
-		doc, err := birch.ReadDocument(buf[loc:])
+		doc, err := readDocument(buf[loc:])
 		if err != nil {
 			return nil, err
 		}
diff --git a/x/mrpc/mongowire/wire_update.go b/x/mrpc/mongowire/wire_update.go
index 748be5f..293d2b0 100644
--- a/x/mrpc/mongowire/wire_update.go
+++ b/x/mrpc/mongowire/wire_update.go
@@ -79,7 +79,7 @@ func (h *MessageHeader) parseUpdateMessage(buf []byte) (Message, error) {
 	m.Flags = readInt32(buf[loc:])
 	loc += 4
 
-	m.Filter, err = birch.ReadDocument(buf[loc:])
+	m.Filter, err = readDocument(buf[loc:])
 	if err != nil {
 		return nil, err
 	}
@@ -89,7 +89,7 @@ func (h *MessageHeader) parseUpdateMessage(buf []byte) (Message, error) {
 		return m, errors.New("invalid update message -- message length is too short")
 	}
 
-	m.Update, err = birch.ReadDocument(buf[loc:])
+	m.Update, err = readDocument(buf[loc:])
 	if err != nil {
 		return nil, err
 	}
diff --git a/x/mrpc/mongowire/wireutil.go b/x/mrpc/mongowire/wireutil.go
index b6cd570..dea6754 100644
--- a/x/mrpc/mongowire/wireutil.go
+++ b/x/mrpc/mongowire/wireutil.go
@@ -78,6 +78,20 @@ func writeCString(s string, wr io.Writer) int {
 	return len(s) + 1
 }
 
+// readDocument reads a document and checks that all of it is valid, so
+// that the document can be used without further checks.
+func readDocument(buf []byte) (*birch.Document, error) {
+	doc, err := birch.ReadDocument(buf)
+	if err != nil {
+		return nil, err
+	}
+	if _, err = doc.Validate(); err != nil {
+		return nil, err
+	}
+
+	return doc, nil
+}
+
 func getDocSize(doc *birch.Document) int {
 	if doc == nil {
 		return 0
-- 
2.43.0


From b465e8180c865f880aba909f132a1085ee0fb9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:06 +0000
Subject: [PATCH 42/74] fix: op messages are parsed within the bounds of their
 sections and keep their checksum

---
 x/mrpc/mongowire/wire_message.go | 66 ++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/x/mrpc/mongowire/wire_message.go b/x/mrpc/mongowire/wire_message.go
index 413853f..312250a 100644
--- a/x/mrpc/mongowire/wire_message.go
+++ b/x/mrpc/mongowire/wire_message.go
@@ -29,6 +29,10 @@ type opMessagePayloadType0 struct {
 func (p *opMessagePayloadType0) Type() uint8 { return OpMessageSectionBody }
 
 func (p *opMessagePayloadType0) Name() string {
+	if p.Document.Len() == 0 {
+		return ""
+	}
+
 	return p.Document.ElementAt(0).Key()
 }
 
@@ -72,15 +76,14 @@ func (p *opMessagePayloadType1) DB() string { return "" }
 func (p *opMessagePayloadType1) Documents() []birch.Document { return p.Payload }
 
 func (p *opMessagePayloadType1) Serialize() []byte {
-	size := 1                     // kind
-	size += 4                     // size
+	size := 4                     // size
 	size += len(p.Identifier) + 1 // identifier
 	for _, doc := range p.Payload {
 		size += getDocSize(&doc)
 	}
 	p.Size = int32(size)
 
-	buf := bytes.NewBuffer(make([]byte, 0, size))
+	buf := bytes.NewBuffer(make([]byte, 0, 1+size))
 	buf.Write([]byte{p.Type()})
 	writeInt32(p.Size, buf)
 	writeCString(p.Identifier, buf)
@@ -126,10 +129,11 @@ func (m *OpMessage) Serialize() []byte {
 			size += 1 // kind // nolint
 			size += getDocSize(p.Document)
 		case *opMessagePayloadType1:
+			size += 1 // kind // nolint
 			size += int(p.Size)
 		}
 	}
-	if m.Checksum != 0 && (m.Flags&1) == 1 {
+	if (m.Flags & 1) == 1 {
 		size += 4
 	}
 	m.header.Size = int32(size)
@@ -139,7 +143,7 @@ func (m *OpMessage) Serialize() []byte {
 
 	buf.Write(sections)
 
-	if m.Checksum != 0 && (m.Flags&1) == 1 {
+	if (m.Flags & 1) == 1 {
 		writeInt32(m.Checksum, buf)
 	}
 
@@ -163,7 +167,7 @@ func NewOpMessage(moreToCome bool, documents []birch.Document, items ...model.Se
 	}
 
 	if moreToCome {
-		msg.Flags = msg.Flags & 1
+		msg.Flags |= 1 << 1
 	}
 
 	for idx := range items {
@@ -195,37 +199,52 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 	loc += 4
 	checksumPresent := (msg.Flags & 1) == 1
 
-	for loc < len(body)-4 {
+	end := len(body)
+	if checksumPresent {
+		end -= 4
+	}
+	if end < loc {
+		return nil, errors.New("invalid op message - message does not have room for its checksum")
+	}
+
+	for loc < end {
 		kind := int32(body[loc])
 		loc++
 
-		var err error
 		switch kind {
 		case OpMessageSectionBody:
-			section := &opMessagePayloadType0{}
-			docSize := int(readInt32(body[loc:]))
-			section.Document, err = birch.ReadDocument(body[loc : loc+docSize])
-			loc += getDocSize(section.Document)
-			msg.Items = append(msg.Items, section)
+			doc, err := readDocument(body[loc:end])
+			if err != nil {
+				return nil, fmt.Errorf("could not read body document: %w", err)
+			}
+			loc += getDocSize(doc)
+			msg.Items = append(msg.Items, &opMessagePayloadType0{Document: doc})
 		case OpMessageSectionDocumentSequence:
-			section := &opMessagePayloadType1{}
-			section.Size = readInt32(body[loc:])
+			if end-loc < 4 {
+				return nil, errors.New("invalid op message - section does not have a size")
+			}
+
+			section := &opMessagePayloadType1{Size: readInt32(body[loc:])}
+			if section.Size < 5 || int(section.Size) > end-loc {
+				return nil, fmt.Errorf("invalid op message - section has invalid size %d", section.Size)
+			}
+			sectionEnd := loc + int(section.Size)
 			loc += 4
-			section.Identifier, err = readCString(body[loc:])
+
+			var err error
+			section.Identifier, err = readCString(body[loc:sectionEnd])
 			if err != nil {
 				return nil, fmt.Errorf("could not read identifier: %w", err)
 			}
 			loc += len(section.Identifier) + 1 // c string null terminator
 
-			for remaining := int(section.Size) - 1 - 4 - len(section.Identifier) - 1; remaining > 0; {
-				docSize := int(readInt32(body[loc:]))
-				doc, err := birch.ReadDocument(body[loc : loc+docSize])
+			for loc < sectionEnd {
+				doc, err := readDocument(body[loc:sectionEnd])
 				if err != nil {
 					return nil, fmt.Errorf("could not read payload document: %w", err)
 				}
 				section.Payload = append(section.Payload, *doc.Copy())
-				remaining -= docSize
-				loc += docSize
+				loc += getDocSize(doc)
 			}
 			msg.Items = append(msg.Items, section)
 		default:
@@ -233,12 +252,9 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 		}
 	}
 
-	if checksumPresent && loc == len(body)-4 {
+	if checksumPresent {
 		msg.Checksum = readInt32(body[loc:])
-		loc += 4
 	}
 
-	msg.header.Size = int32(loc)
-
 	return msg, nil
 }
-- 
2.43.0


From 7af2b9c5fc2c4ed8bf1363cf555ec54cc0448e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:08 +0000
Subject: [PATCH 43/74] fix: commands read from queries keep the request id of
 the query

---
 x/mrpc/mongowire/wire_query.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/mrpc/mongowire/wire_query.go b/x/mrpc/mongowire/wire_query.go
index b64e859..34c1518 100644
--- a/x/mrpc/mongowire/wire_query.go
+++ b/x/mrpc/mongowire/wire_query.go
@@ -57,8 +57,9 @@ func (m *queryMessage) convertToCommand() *CommandMessage {
 
 	return &CommandMessage{
 		header: MessageHeader{
-			OpCode:    OP_COMMAND,
-			RequestID: 19,
+			OpCode:     OP_COMMAND,
+			RequestID:  m.header.RequestID,
+			ResponseTo: m.header.ResponseTo,
 		},
 		DB:          NamespaceToDB(m.Namespace),
 		CmdName:     m.Query.ElementAt(0).Key(),
-- 
2.43.0


From aa3ce7a435c7741f072dc2318d8d6429946ed7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:08 +0000
Subject: [PATCH 44/74] fix: models of wire messages report the flag bits of
 the protocol

---
 x/mrpc/mongowire/message.go | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/x/mrpc/mongowire/message.go b/x/mrpc/mongowire/message.go
index 1fd148d..7b10038 100644
--- a/x/mrpc/mongowire/message.go
+++ b/x/mrpc/mongowire/message.go
@@ -143,15 +143,8 @@ func GetModel(msg Message) (any, OpType) {
 			Operation:  m.Operation,
 		}
 
-		switch m.Flags {
-		case 0:
-			op.Checksum = true
-		case 1:
-			op.MoreToCome = true
-		case 3:
-			op.Checksum = true
-			op.MoreToCome = true
-		}
+		op.Checksum = m.Flags&1 != 0
+		op.MoreToCome = m.Flags&(1<<1) != 0
 
 		for _, section := range m.Items {
 			op.Items = append(op.Items, model.SequenceItem{
@@ -166,6 +159,12 @@ func GetModel(msg Message) (any, OpType) {
 			Namespace: m.Namespace,
 			Filter:    m.Filter,
 		}, OP_DELETE
+	case *getMoreMessage:
+		return &model.GetMore{
+			Namespace: m.Namespace,
+			CursorID:  m.CursorId,
+			NReturn:   m.NReturn,
+		}, OP_GET_MORE
 	case *insertMessage:
 		return &model.Insert{
 			Namespace: m.Namespace,
@@ -186,15 +185,8 @@ func GetModel(msg Message) (any, OpType) {
 			Update:    m.Update,
 		}
 
-		switch m.Flags {
-		case 1:
-			update.Upsert = true
-		case 2:
-			update.Multi = true
-		case 3:
-			update.Upsert = true
-			update.Multi = true
-		}
+		update.Upsert = m.Flags&1 != 0
+		update.Multi = m.Flags&(1<<1) != 0
 
 		return update, OP_UPDATE
 	case *ReplyMessage:
@@ -204,12 +196,8 @@ func GetModel(msg Message) (any, OpType) {
 			Contents:     m.Docs,
 		}
 
-		switch m.Flags {
-		case 1:
-			reply.QueryFailure = true
-		case 0:
-			reply.CursorNotFound = true
-		}
+		reply.CursorNotFound = m.Flags&1 != 0
+		reply.QueryFailure = m.Flags&(1<<1) != 0
 
 		return reply, OP_REPLY
 	default:
-- 
2.43.0


From 1300b9e0e9f6359cd57047aa3382925af0c965a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:10 +0000
Subject: [PATCH 45/74] fix: reading a message takes exactly its own bytes and
 reports truncated streams

---
 x/mrpc/mongowire/sock.go | 91 ++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 55 deletions(-)

diff --git a/x/mrpc/mongowire/sock.go b/x/mrpc/mongowire/sock.go
index 0f7ccb0..13a8fbf 100644
--- a/x/mrpc/mongowire/sock.go
+++ b/x/mrpc/mongowire/sock.go
@@ -12,36 +12,41 @@ import (
 const MaxInt32 = 2147483647
 
 func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
-	type readResult struct {
-		n   int
-		err error
+	if err := ctx.Err(); err != nil {
+		return nil, err
 	}
 
-	// read header
-	sizeBuf := make([]byte, 4)
+	type readResult struct {
+		data []byte
+		err  error
+	}
 
-	readFinished := make(chan readResult)
+	// reads happen in a goroutine so that canceling the context
+	// interrupts readers that are blocked.
+	read := func(size int32) ([]byte, error) {
+		readFinished := make(chan readResult, 1)
 
-	go func() {
-		defer close(readFinished)
+		go func() {
+			buf := &bytes.Buffer{}
+			_, err := io.CopyN(buf, reader, int64(size))
+			if err == io.EOF && buf.Len() > 0 {
+				err = io.ErrUnexpectedEOF
+			}
+			readFinished <- readResult{data: buf.Bytes(), err: err}
+		}()
 
-		n, err := reader.Read(sizeBuf)
 		select {
-		case readFinished <- readResult{n: n, err: err}:
 		case <-ctx.Done():
+			return nil, ctx.Err()
+		case res := <-readFinished:
+			return res.data, res.err
 		}
-	}()
+	}
 
-	select {
-	case <-ctx.Done():
-		return nil, (ctx.Err())
-	case res := <-readFinished:
-		if res.err != nil {
-			return nil, (res.err)
-		}
-		if res.n != 4 {
-			return nil, fmt.Errorf("didn't read message size from socket, got %d", res.n)
-		}
+	// read header
+	sizeBuf, err := read(4)
+	if err != nil {
+		return nil, err
 	}
 
 	header := MessageHeader{}
@@ -52,44 +57,16 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 		}
 		return nil, fmt.Errorf("message too big %d", header.Size)
 	}
-	if header.Size < 0 || header.Size-4 > MaxInt32 {
+	if header.Size < 16 {
 		return nil, errors.New("message header has invalid size")
 	}
 
-	restBuf := &bytes.Buffer{}
-	for read := 0; int32(read) < header.Size-4; {
-		readFinished = make(chan readResult)
-		tempBuf := make([]byte, header.Size-4)
-		go func() {
-			defer close(readFinished)
-			n, err := reader.Read(tempBuf)
-			select {
-			case readFinished <- readResult{n: n, err: err}:
-			case <-ctx.Done():
-			}
-		}()
-		select {
-		case <-ctx.Done():
-			return nil, (ctx.Err())
-		case res := <-readFinished:
-			if res.err == io.EOF {
-				read = int(header.Size - 4)
-				break
-			}
-			if res.err != nil {
-				return nil, (res.err)
-			}
-			if res.n == 0 {
-				break
-			}
-			read += res.n
-			restBuf.Write(tempBuf[:res.n])
-		}
+	buf, err := read(header.Size - 4)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
 	}
-
-	buf := restBuf.Bytes()
-	if len(buf) < 12 {
-		return nil, fmt.Errorf("invalid message header. either header.Size = %v is shorter than message length, or message is missing RequestId, ResponseTo, or OpCode fields.", header.Size)
+	if err != nil {
+		return nil, err
 	}
 	header.RequestID = readInt32(buf)
 	header.ResponseTo = readInt32(buf[4:])
@@ -99,6 +76,10 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 }
 
 func SendMessage(ctx context.Context, m Message, writer io.Writer) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+
 	buf := m.Serialize()
 
 	type writeRes struct {
-- 
2.43.0


From 3484044cbaf97475cdc507dbfada95ceb71ceee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:20 +0000
Subject: [PATCH 46/74] fix: services stop when their context is canceled

---
 x/mrpc/service.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x/mrpc/service.go b/x/mrpc/service.go
index 05c88fc..67db613 100644
--- a/x/mrpc/service.go
+++ b/x/mrpc/service.go
@@ -61,13 +61,17 @@ func (s *basicService) Run(ctx context.Context) error {
 	}
 	defer func() { _ = l.Close() }()
 
+	// closing the listener interrupts Accept when the context is canceled.
+	stop := context.AfterFunc(ctx, func() { _ = l.Close() })
+	defer stop()
+
 	for {
 		if ctx.Err() != nil {
 			return nil
 		}
 
 		conn, err := l.Accept()
-		if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
+		if err != nil && ctx.Err() != nil {
 			return nil
 		} else if err != nil {
 			s.handleError(fmt.Errorf("accepting connection: %w", err))
-- 
2.43.0


From 75cfefeb303d5a5742048e2907b869a7017a8667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:20 +0000
Subject: [PATCH 47/74] fix: a handler that panics does not take down the
 service

---
 x/mrpc/service.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/x/mrpc/service.go b/x/mrpc/service.go
index 67db613..b1510b2 100644
--- a/x/mrpc/service.go
+++ b/x/mrpc/service.go
@@ -118,12 +118,27 @@ func (s *basicService) dispatchRequest(ctx context.Context, conn net.Conn) {
 
 		scope := m.Scope()
 
+		if scope == nil {
+			s.handleError(fmt.Errorf("message of type %s is not a request", m.Header().OpCode))
+			return
+		}
+
 		handler, ok := s.registry.Get(scope)
 		if !ok {
 			s.handleError(fmt.Errorf("undefined scope: %+v", scope))
 			return
 		}
 
-		go handler(ctx, conn, m)
+		go s.runHandler(ctx, handler, conn, m)
 	}
 }
+
+func (s *basicService) runHandler(ctx context.Context, handler HandlerFunc, conn net.Conn, m mongowire.Message) {
+	defer func() {
+		if p := recover(); p != nil {
+			s.handleError(fmt.Errorf("panic responding to request: %v", p))
+		}
+	}()
+
+	handler(ctx, conn, m)
+}
-- 
2.43.0


From b7dd677f03bbd0d2f355256a3057ab731757c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:43 +0000
Subject: [PATCH 48/74] fix: replies without documents are errors when read as
 responses

---
 x/mrpc/shell/util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/mrpc/shell/util.go b/x/mrpc/shell/util.go
index 753b58e..9387e20 100644
--- a/x/mrpc/shell/util.go
+++ b/x/mrpc/shell/util.go
@@ -91,6 +91,9 @@ func RequestMessageToDocument(msg mongowire.Message) (*birch.Document, error) {
 // document.
 func ResponseMessageToDocument(msg mongowire.Message) (*birch.Document, error) {
 	if opReplyMsg, ok := msg.(*mongowire.ReplyMessage); ok {
+		if len(opReplyMsg.Docs) == 0 {
+			return nil, fmt.Errorf("%s response did not contain documents", mongowire.OP_REPLY.String())
+		}
 		return &opReplyMsg.Docs[0], nil
 	}
 	if opCmdReplyMsg, ok := msg.(*mongowire.CommandReplyMessage); ok {
-- 
2.43.0


From e1356afa81f55fab277d4563dc0073de3075d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:43 +0000
Subject: [PATCH 49/74] fix: log responses are read from the field they are
 written to

---
 x/mrpc/shell/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/mrpc/shell/io.go b/x/mrpc/shell/io.go
index f381111..0d6f607 100644
--- a/x/mrpc/shell/io.go
+++ b/x/mrpc/shell/io.go
@@ -210,7 +210,7 @@ func (resp *getLogResponse) UnmarshalDocument(in *birch.Document) error {
 
 	for elem := range in.Iterator() {
 		switch elem.Key() {
-		case "version":
+		case "log":
 			array, ok := elem.Value().MutableArrayOK()
 			if !ok {
 				return fmt.Errorf("could not parse value of correct type [%s] for key %s",
-- 
2.43.0


From 4ce5baa4853915c06e21f8bde25966be164f96e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 50/74] fix: events: read the id and the operations of a
 performance event from its document

---
 x/ftdc/events/performance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index 31cc8d4..3e30d78 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -91,6 +91,7 @@ func (p *Performance) UnmarshalDocument(doc *birch.Document) error {
 		case "ts":
 			p.Timestamp = elem.Value().Time()
 		case "id":
+			p.ID = elem.Value().Int64()
 		case "counters":
 			if err := p.Counters.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
 				return err
@@ -114,7 +115,7 @@ func (p *PerformanceCounters) UnmarshalDocument(doc *birch.Document) error {
 		switch elem.Key() {
 		case "n":
 			p.Number = elem.Value().Int64()
-		case "opts":
+		case "ops":
 			p.Operations = elem.Value().Int64()
 		case "size":
 			p.Size = elem.Value().Int64()
-- 
2.43.0


From 7ba58c02f67362d405ae2ccb375a7edcaa10f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 51/74] fix: events: a performance event does not change the
 event added to it

---
 x/ftdc/events/performance.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index 3e30d78..bd89d5b 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -159,12 +159,13 @@ func (p *PerformanceGauges) UnmarshalDocument(doc *birch.Document) error {
 // logically, overriding the Gauges values as well as the timestamp and ID
 // ID values, while summing the Counters and Timers values.
 func (p *Performance) Add(in *Performance) {
-	if in.ID == 0 {
-		in.ID = p.ID + 1
+	id := in.ID
+	if id == 0 {
+		id = p.ID + 1
 	}
 
 	p.Timestamp = in.Timestamp
-	p.ID = in.ID
+	p.ID = id
 	p.Counters.Number += in.Counters.Number
 	p.Counters.Errors += in.Counters.Errors
 	p.Counters.Operations += in.Counters.Operations
-- 
2.43.0


From df28f12d092a3384250e0910046e5c0a5be89e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 52/74] fix: events: cumulative collectors sum into an event of
 their own

---
 x/ftdc/events/collector.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/x/ftdc/events/collector.go b/x/ftdc/events/collector.go
index 876bdf8..3bfda5f 100644
--- a/x/ftdc/events/collector.go
+++ b/x/ftdc/events/collector.go
@@ -48,7 +48,8 @@ func (c *basicCumulativeCollector) AddEvent(in *Performance) error {
 		return errors.New("cannot add nil performance event")
 	}
 	if c.current == nil {
-		c.current = in
+		c.current = &Performance{}
+		*c.current = *in
 		return c.Collector.Add(c.current)
 	}
 
@@ -102,7 +103,8 @@ func (c *samplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		c.current = &Performance{}
+		*c.current = *in
 	} else {
 		c.current.Add(in)
 	}
@@ -142,7 +144,8 @@ func (c *randSamplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		c.current = &Performance{}
+		*c.current = *in
 	} else {
 		c.current.Add(in)
 	}
@@ -189,7 +192,8 @@ func (c *intervalSamplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		c.current = &Performance{}
+		*c.current = *in
 		c.lastCollected = time.Now()
 		return c.Collector.Add(c.current)
 	}
-- 
2.43.0


From 766500e1159e81ea9b35a90ab407d2e388a124d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:59 +0000
Subject: [PATCH 53/74] fix: events: reading a performance event from a
 document of another shape is an error, not a panic

---
 x/ftdc/events/performance.go | 80 +++++++++++++++++++++++++++++-------
 1 file changed, 66 insertions(+), 14 deletions(-)

diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index bd89d5b..16539ec 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -13,6 +13,7 @@
 package events
 
 import (
+	"fmt"
 	"time"
 
 	"github.com/tychoish/birch"
@@ -89,19 +90,37 @@ func (p *Performance) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
 		switch elem.Key() {
 		case "ts":
-			p.Timestamp = elem.Value().Time()
+			ts, ok := elem.Value().TimeOK()
+			if !ok {
+				return typeError(elem, "time")
+			}
+			p.Timestamp = ts
 		case "id":
-			p.ID = elem.Value().Int64()
+			if err := readInt64(elem, &p.ID); err != nil {
+				return err
+			}
 		case "counters":
-			if err := p.Counters.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
+			sub, ok := elem.Value().MutableDocumentOK()
+			if !ok {
+				return typeError(elem, "document")
+			}
+			if err := p.Counters.UnmarshalDocument(sub); err != nil {
 				return err
 			}
 		case "timers":
-			if err := p.Timers.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
+			sub, ok := elem.Value().MutableDocumentOK()
+			if !ok {
+				return typeError(elem, "document")
+			}
+			if err := p.Timers.UnmarshalDocument(sub); err != nil {
 				return err
 			}
 		case "gauges":
-			if err := p.Gauges.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
+			sub, ok := elem.Value().MutableDocumentOK()
+			if !ok {
+				return typeError(elem, "document")
+			}
+			if err := p.Gauges.UnmarshalDocument(sub); err != nil {
 				return err
 			}
 		}
@@ -114,13 +133,21 @@ func (p *PerformanceCounters) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
 		switch elem.Key() {
 		case "n":
-			p.Number = elem.Value().Int64()
+			if err := readInt64(elem, &p.Number); err != nil {
+				return err
+			}
 		case "ops":
-			p.Operations = elem.Value().Int64()
+			if err := readInt64(elem, &p.Operations); err != nil {
+				return err
+			}
 		case "size":
-			p.Size = elem.Value().Int64()
+			if err := readInt64(elem, &p.Size); err != nil {
+				return err
+			}
 		case "errors":
-			p.Errors = elem.Value().Int64()
+			if err := readInt64(elem, &p.Errors); err != nil {
+				return err
+			}
 		}
 	}
 
@@ -131,9 +158,13 @@ func (p *PerformanceTimers) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
 		switch elem.Key() {
 		case "dur":
-			p.Duration = time.Duration(elem.Value().Int64())
+			if err := readInt64(elem, (*int64)(&p.Duration)); err != nil {
+				return err
+			}
 		case "total":
-			p.Total = time.Duration(elem.Value().Int64())
+			if err := readInt64(elem, (*int64)(&p.Total)); err != nil {
+				return err
+			}
 		}
 	}
 
@@ -144,17 +175,38 @@ func (p *PerformanceGauges) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
 		switch elem.Key() {
 		case "state":
-			p.State = elem.Value().Int64()
+			if err := readInt64(elem, &p.State); err != nil {
+				return err
+			}
 		case "workers":
-			p.Workers = elem.Value().Int64()
+			if err := readInt64(elem, &p.Workers); err != nil {
+				return err
+			}
 		case "failed":
-			p.Failed = elem.Value().Boolean()
+			failed, ok := elem.Value().BooleanOK()
+			if !ok {
+				return typeError(elem, "boolean")
+			}
+			p.Failed = failed
 		}
 	}
 
 	return nil
 }
 
+func readInt64(elem *birch.Element, out *int64) error {
+	v, ok := elem.Value().Int64OK()
+	if !ok {
+		return typeError(elem, "64-bit integer")
+	}
+	*out = v
+	return nil
+}
+
+func typeError(elem *birch.Element, want string) error {
+	return fmt.Errorf("field '%s' has type %s, not %s", elem.Key(), elem.Value().Type(), want)
+}
+
 // Add combines the values of the input Performance struct into this struct,
 // logically, overriding the Gauges values as well as the timestamp and ID
 // ID values, while summing the Counters and Timers values.
-- 
2.43.0


From 2a8f0b625ea7ae7d9027a508ce9955a155d4c3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 54/74] fix: events: custom points hold every type that they
 accept

---
 x/ftdc/events/custom.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/events/custom.go b/x/ftdc/events/custom.go
index b92ed9b..1ec492a 100644
--- a/x/ftdc/events/custom.go
+++ b/x/ftdc/events/custom.go
@@ -87,13 +87,35 @@ func (ps *Custom) UnmarshalBSON(in []byte) error {
 	return nil
 }
 
+// asGeneric converts slices that the element constructor does not support.
+func asGeneric(value any) any {
+	switch v := value.(type) {
+	case []bool:
+		return toAny(v)
+	case []uint32:
+		return toAny(v)
+	case []uint64:
+		return toAny(v)
+	default:
+		return value
+	}
+}
+
+func toAny[T any](in []T) []any {
+	out := make([]any, len(in))
+	for i := range in {
+		out[i] = in[i]
+	}
+	return out
+}
+
 func (ps Custom) MarshalDocument() (*birch.Document, error) {
 	ps.Sort()
 
 	doc := birch.DC.Make(ps.Len())
 
 	for _, elem := range ps {
-		de, err := birch.ECE.Interface(elem.Name, elem.Value)
+		de, err := birch.ECE.Interface(elem.Name, asGeneric(elem.Value))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 161026248583ebb04a84c99739dd3d4a8a9498c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:35 +0000
Subject: [PATCH 55/74] fix: events: release the lock when the interval
 recorders' worker stops

---
 x/ftdc/events/recorder_histogram_interval.go   | 1 +
 x/ftdc/events/recorder_performance_interval.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index cadc7f8..b24ba0c 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -52,6 +52,7 @@ func (r *intervalHistogramStream) worker(ctx context.Context, interval time.Dura
 			// the lock is requested and when the lock is obtained,
 			// the context has been canceled
 			if ctx.Err() != nil {
+				r.Unlock()
 				return
 			}
 			r.point.setTimestamp(r.started)
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 2d121ba..5e3ab38 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -52,6 +52,7 @@ func (r *intervalStream) worker(ctx context.Context, interval time.Duration) {
 			// the lock is requested and when the lock is obtained,
 			// the context has been canceled
 			if ctx.Err() != nil {
+				r.Unlock()
 				return
 			}
 			r.point.setTimestamp(r.started)
-- 
2.43.0


From b39fbc21fa51233341753828aa901c462b83994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:38 +0000
Subject: [PATCH 56/74] fix: events: the interval recorder counts its
 iterations

---
 x/ftdc/events/recorder_performance_interval.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 5e3ab38..22729d5 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -96,6 +96,7 @@ func (r *intervalStream) EndIteration(dur time.Duration) {
 	r.Lock()
 
 	r.point.setTimestamp(r.started)
+	r.point.Counters.Number++
 	if !r.started.IsZero() {
 		r.point.Timers.Total += time.Since(r.started)
 		r.started = time.Time{}
-- 
2.43.0


From 6c5b41caca8ea36a5c4102da25609c712c35fa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 57/74] fix: events: the interval histogram recorder measures
 an iteration once

---
 x/ftdc/events/recorder_histogram_interval.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index b24ba0c..5c8362b 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -87,6 +87,7 @@ func (r *intervalHistogramStream) EndIteration(dur time.Duration) {
 
 	if !r.started.IsZero() {
 		r.catcher.Push(r.point.Timers.Total.RecordValue(int64(time.Since(r.started))))
+		r.started = time.Time{}
 	}
 
 	r.Unlock()
-- 
2.43.0


From dd7f11015c0c1941822101188f3c8026eabebe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:43 +0000
Subject: [PATCH 58/74] fix: events: the grouped histogram recorder uses its
 interval

---
 x/ftdc/events/recorder_histogram_grouped.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/ftdc/events/recorder_histogram_grouped.go b/x/ftdc/events/recorder_histogram_grouped.go
index 46ae3a3..b69e0c7 100644
--- a/x/ftdc/events/recorder_histogram_grouped.go
+++ b/x/ftdc/events/recorder_histogram_grouped.go
@@ -32,6 +32,7 @@ func NewHistogramGroupedRecorder(collector ftdc.Collector, interval time.Duratio
 	return &histogramGroupedStream{
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		collector: collector,
+		interval:  interval,
 	}
 }
 
-- 
2.43.0


From 0818c9d7f52bb8635d6ad65d0b62d2cc8acef058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 59/74] fix: events: the shim recorder times its iterations

---
 x/ftdc/events/recorder_wrapper_stdlib.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/events/recorder_wrapper_stdlib.go b/x/ftdc/events/recorder_wrapper_stdlib.go
index 5f47b8d..fb7fb67 100644
--- a/x/ftdc/events/recorder_wrapper_stdlib.go
+++ b/x/ftdc/events/recorder_wrapper_stdlib.go
@@ -30,11 +30,11 @@ func (r *stdShim) Reset() {
 	r.b.ResetTimer()
 	r.Recorder.Reset()
 }
-func (r *stdShim) Begin() {
+func (r *stdShim) BeginIteration() {
 	r.b.StartTimer()
 	r.Recorder.BeginIteration()
 }
-func (r *stdShim) End(dur time.Duration) {
+func (r *stdShim) EndIteration(dur time.Duration) {
 	r.b.StopTimer()
 	r.Recorder.EndIteration(dur)
 }
-- 
2.43.0


From 039ca0127e2a0376029375eccd61f23046ac6778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:25 +0000
Subject: [PATCH 60/74] fix: events: a recorder's point has its own time, and
 what follows a persisted point is not lost

---
 x/ftdc/events/recorder_histogram.go           | 19 +++++++++++++++---
 x/ftdc/events/recorder_histogram_grouped.go   | 17 ++++++++++++++--
 x/ftdc/events/recorder_performance_grouped.go | 20 +++++++++++++++----
 x/ftdc/events/recorder_performance_raw.go     | 19 +++++++++++++++---
 4 files changed, 63 insertions(+), 12 deletions(-)

diff --git a/x/ftdc/events/recorder_histogram.go b/x/ftdc/events/recorder_histogram.go
index b44dd4e..4c1fbb5 100644
--- a/x/ftdc/events/recorder_histogram.go
+++ b/x/ftdc/events/recorder_histogram.go
@@ -12,6 +12,7 @@ type histogramStream struct {
 	started   time.Time
 	collector ftdc.Collector
 	catcher   erc.Collector
+	persisted bool
 }
 
 // NewHistogramRecorder collects data and stores them with a histogram format.
@@ -49,7 +50,7 @@ func (r *histogramStream) IncError(val int64) {
 }
 
 func (r *histogramStream) EndIteration(dur time.Duration) {
-	r.point.setTimestamp(r.started)
+	r.stamp()
 	r.catcher.Push(r.point.Counters.Number.RecordValue(1))
 	r.catcher.Push(r.point.Timers.Duration.RecordValue(int64(dur)))
 	if !r.started.IsZero() {
@@ -58,6 +59,7 @@ func (r *histogramStream) EndIteration(dur time.Duration) {
 	}
 
 	r.catcher.Push(r.collector.Add(r.point))
+	r.persisted = true
 }
 
 func (r *histogramStream) SetDuration(dur time.Duration) {
@@ -72,8 +74,18 @@ func (r *histogramStream) IncIterations(val int64) {
 	r.catcher.Push(r.point.Counters.Number.RecordValue(val))
 }
 
-func (r *histogramStream) SetTime(t time.Time) { r.point.Timestamp = t }
-func (r *histogramStream) BeginIteration()     { r.started = time.Now(); r.point.setTimestamp(r.started) }
+func (r *histogramStream) SetTime(t time.Time) { r.point.Timestamp = t; r.persisted = false }
+func (r *histogramStream) BeginIteration()     { r.started = time.Now(); r.stamp() }
+
+// stamp sets the time of the point being recorded: the point that follows one
+// that was persisted has a time of its own.
+func (r *histogramStream) stamp() {
+	if r.persisted {
+		r.point.Timestamp = time.Time{}
+		r.persisted = false
+	}
+	r.point.setTimestamp(r.started)
+}
 
 func (r *histogramStream) EndTest() error {
 	if !r.point.Timestamp.IsZero() {
@@ -85,6 +97,7 @@ func (r *histogramStream) EndTest() error {
 }
 
 func (r *histogramStream) Reset() {
+	r.persisted = false
 	r.catcher = erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.started = time.Time{}
diff --git a/x/ftdc/events/recorder_histogram_grouped.go b/x/ftdc/events/recorder_histogram_grouped.go
index b69e0c7..533e563 100644
--- a/x/ftdc/events/recorder_histogram_grouped.go
+++ b/x/ftdc/events/recorder_histogram_grouped.go
@@ -14,6 +14,7 @@ type histogramGroupedStream struct {
 	interval      time.Duration
 	collector     ftdc.Collector
 	catcher       erc.Collector
+	persisted     bool
 }
 
 // NewHistogramGroupedRecorder captures data and stores them with a
@@ -53,7 +54,7 @@ func (r *histogramGroupedStream) IncError(val int64) {
 }
 
 func (r *histogramGroupedStream) EndIteration(dur time.Duration) {
-	r.point.setTimestamp(r.started)
+	r.stamp()
 	r.catcher.Push(r.point.Counters.Number.RecordValue(1))
 	r.catcher.Push(r.point.Timers.Duration.RecordValue(int64(dur)))
 
@@ -65,6 +66,7 @@ func (r *histogramGroupedStream) EndIteration(dur time.Duration) {
 	if time.Since(r.lastCollected) >= r.interval {
 		r.catcher.Push(r.collector.Add(r.point))
 		r.lastCollected = time.Now()
+		r.persisted = true
 	}
 }
 
@@ -80,9 +82,19 @@ func (r *histogramGroupedStream) IncIterations(val int64) {
 	r.catcher.Push(r.point.Counters.Number.RecordValue(val))
 }
 
-func (r *histogramGroupedStream) SetTime(t time.Time) { r.point.Timestamp = t }
+func (r *histogramGroupedStream) SetTime(t time.Time) { r.point.Timestamp = t; r.persisted = false }
 func (r *histogramGroupedStream) BeginIteration() {
 	r.started = time.Now()
+	r.stamp()
+}
+
+// stamp sets the time of the point being recorded: the point that follows one
+// that was persisted has a time of its own.
+func (r *histogramGroupedStream) stamp() {
+	if r.persisted {
+		r.point.Timestamp = time.Time{}
+		r.persisted = false
+	}
 	r.point.setTimestamp(r.started)
 }
 
@@ -96,6 +108,7 @@ func (r *histogramGroupedStream) EndTest() error {
 }
 
 func (r *histogramGroupedStream) Reset() {
+	r.persisted = false
 	r.catcher = erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.lastCollected = time.Time{}
diff --git a/x/ftdc/events/recorder_performance_grouped.go b/x/ftdc/events/recorder_performance_grouped.go
index 77d460f..ba93fb5 100644
--- a/x/ftdc/events/recorder_performance_grouped.go
+++ b/x/ftdc/events/recorder_performance_grouped.go
@@ -14,6 +14,7 @@ type groupStream struct {
 	point         *Performance
 	collector     ftdc.Collector
 	catcher       erc.Collector
+	persisted     bool
 }
 
 // NewGroupedRecorder blends the single and the interval recorders, but it
@@ -31,7 +32,7 @@ func NewGroupedRecorder(collector ftdc.Collector, interval time.Duration) Record
 	}
 }
 
-func (r *groupStream) BeginIteration()                    { r.started = time.Now(); r.point.setTimestamp(r.started) }
+func (r *groupStream) BeginIteration()                    { r.started = time.Now(); r.stamp() }
 func (r *groupStream) IncOperations(val int64)            { r.point.Counters.Operations += val }
 func (r *groupStream) IncIterations(val int64)            { r.point.Counters.Number += val }
 func (r *groupStream) IncSize(val int64)                  { r.point.Counters.Size += val }
@@ -40,7 +41,7 @@ func (r *groupStream) SetState(val int64)                 { r.point.Gauges.State
 func (r *groupStream) SetWorkers(val int64)               { r.point.Gauges.Workers = val }
 func (r *groupStream) SetFailed(val bool)                 { r.point.Gauges.Failed = val }
 func (r *groupStream) SetID(val int64)                    { r.point.ID = val }
-func (r *groupStream) SetTime(t time.Time)                { r.point.Timestamp = t }
+func (r *groupStream) SetTime(t time.Time)                { r.point.Timestamp = t; r.persisted = false }
 func (r *groupStream) SetDuration(dur time.Duration)      { r.point.Timers.Duration += dur }
 func (r *groupStream) SetTotalDuration(dur time.Duration) { r.point.Timers.Total += dur }
 func (r *groupStream) EndIteration(dur time.Duration) {
@@ -49,16 +50,26 @@ func (r *groupStream) EndIteration(dur time.Duration) {
 		r.point.Timers.Total += time.Since(r.started)
 	}
 	r.point.Timers.Duration += dur
+	r.stamp()
 
 	if time.Since(r.lastCollected) >= r.interval {
-		r.point.setTimestamp(r.started)
 		r.catcher.Push(r.collector.Add(r.point))
 		r.lastCollected = time.Now()
-		r.point.Timestamp = time.Time{}
+		r.persisted = true
 	}
 	r.started = time.Time{}
 }
 
+// stamp sets the time of the point being recorded: the point that follows one
+// that was persisted has a time of its own.
+func (r *groupStream) stamp() {
+	if r.persisted {
+		r.point.Timestamp = time.Time{}
+		r.persisted = false
+	}
+	r.point.setTimestamp(r.started)
+}
+
 func (r *groupStream) EndTest() error {
 	if !r.point.Timestamp.IsZero() {
 		r.catcher.Push(r.collector.Add(r.point))
@@ -69,6 +80,7 @@ func (r *groupStream) EndTest() error {
 }
 
 func (r *groupStream) Reset() {
+	r.persisted = false
 	r.catcher = erc.Collector{}
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
diff --git a/x/ftdc/events/recorder_performance_raw.go b/x/ftdc/events/recorder_performance_raw.go
index f3c086a..f0df7a0 100644
--- a/x/ftdc/events/recorder_performance_raw.go
+++ b/x/ftdc/events/recorder_performance_raw.go
@@ -12,6 +12,7 @@ type rawStream struct {
 	point     *Performance
 	collector ftdc.Collector
 	catcher   erc.Collector
+	persisted bool
 }
 
 // NewRawRecorder records a new event every time that the EndIteration method
@@ -26,8 +27,8 @@ func NewRawRecorder(collector ftdc.Collector) Recorder {
 	}
 }
 
-func (r *rawStream) BeginIteration()                    { r.started = time.Now(); r.point.setTimestamp(r.started) }
-func (r *rawStream) SetTime(t time.Time)                { r.point.Timestamp = t }
+func (r *rawStream) BeginIteration()                    { r.started = time.Now(); r.stamp() }
+func (r *rawStream) SetTime(t time.Time)                { r.point.Timestamp = t; r.persisted = false }
 func (r *rawStream) SetID(val int64)                    { r.point.ID = val }
 func (r *rawStream) SetTotalDuration(dur time.Duration) { r.point.Timers.Total = dur }
 func (r *rawStream) SetDuration(dur time.Duration)      { r.point.Timers.Duration = dur }
@@ -44,12 +45,23 @@ func (r *rawStream) EndIteration(dur time.Duration) {
 		r.point.Timers.Total += time.Since(r.started)
 	}
 
-	r.point.setTimestamp(r.started)
+	r.stamp()
 	r.point.Timers.Duration += dur
 	r.catcher.Push(r.collector.Add(r.point))
+	r.persisted = true
 	r.started = time.Time{}
 }
 
+// stamp sets the time of the point being recorded: the point that follows one
+// that was persisted has a time of its own.
+func (r *rawStream) stamp() {
+	if r.persisted {
+		r.point.Timestamp = time.Time{}
+		r.persisted = false
+	}
+	r.point.setTimestamp(r.started)
+}
+
 func (r *rawStream) EndTest() error {
 	if !r.point.Timestamp.IsZero() {
 		r.catcher.Push(r.collector.Add(r.point))
@@ -60,6 +72,7 @@ func (r *rawStream) EndTest() error {
 }
 
 func (r *rawStream) Reset() {
+	r.persisted = false
 	r.catcher = erc.Collector{}
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
-- 
2.43.0


From 71714f5c44f9a9b8619d31e10e6e3a43e8fb44c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 61/74] fix: ftdc: a source of JSON documents that panics is an
 error

---
 x/ftdc/metrics/json.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 027914a..36b4957 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -50,12 +50,12 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 	switch {
 	case opts.InputSource != nil:
 		go func() {
+			defer close(errs)
 			defer func() {
 				if p := recover(); p != nil {
 					errs <- fmt.Errorf("json metrics collector: %v", p)
 				}
 			}()
-			defer close(errs)
 
 			stream := bufio.NewScanner(opts.InputSource)
 
@@ -76,12 +76,12 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 		}()
 	case opts.FileName != "" && !opts.Follow:
 		go func() {
+			defer close(errs)
 			defer func() {
 				if p := recover(); p != nil {
 					errs <- fmt.Errorf("json metrics collector: %v", p)
 				}
 			}()
-			defer close(errs)
 			f, err := os.Open(opts.FileName)
 			if err != nil {
 				errs <- fmt.Errorf("problem opening data file %s: %w", opts.FileName, err)
@@ -111,12 +111,12 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 		}()
 	case opts.FileName != "" && opts.Follow:
 		go func() {
+			defer close(errs)
 			defer func() {
 				if p := recover(); p != nil {
 					errs <- fmt.Errorf("json metrics collector: %v", p)
 				}
 			}()
-			defer close(errs)
 
 			if err := follow(ctx, opts.FileName, func(in string) error {
 				jd, err := jsonx.DCE.Bytes([]byte(in))
-- 
2.43.0


From 23ae5aeae4c79e648d9cece28c184a2cdaf470bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 62/74] fix: ftdc: a source of JSON documents that cannot be
 read is an error

---
 x/ftdc/metrics/json.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 36b4957..389c69c 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -73,6 +73,9 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 
 				out <- doc
 			}
+			if err := stream.Err(); err != nil {
+				errs <- err
+			}
 		}()
 	case opts.FileName != "" && !opts.Follow:
 		go func() {
@@ -108,6 +111,9 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 				case <-ctx.Done():
 				}
 			}
+			if err := stream.Err(); err != nil {
+				errs <- err
+			}
 		}()
 	case opts.FileName != "" && opts.Follow:
 		go func() {
-- 
2.43.0


From b520c87a0473e4225fa30746a0ca90d0e87d09e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:09 +0000
Subject: [PATCH 63/74] fix: ftdc: sources of JSON documents end with the
 collection

---
 x/ftdc/metrics/json.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 389c69c..28123bc 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -71,7 +71,12 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 					return
 				}
 
-				out <- doc
+				select {
+				case out <- doc:
+				case <-ctx.Done():
+					errs <- ctx.Err()
+					return
+				}
 			}
 			if err := stream.Err(); err != nil {
 				errs <- err
@@ -109,6 +114,8 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 				select {
 				case out <- doc:
 				case <-ctx.Done():
+					errs <- ctx.Err()
+					return
 				}
 			}
 			if err := stream.Err(); err != nil {
@@ -199,6 +206,9 @@ func CollectJSONStream(ctx context.Context, opts CollectJSONOptions) error {
 		return nil
 	}
 
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
 	docs, errs := opts.getSource(ctx)
 
 	for {
-- 
2.43.0


From 51285bf25f39854e664c0c32946964de6514cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:23 +0000
Subject: [PATCH 64/74] fix: ftdc: following a file reads what is appended to
 it

---
 x/ftdc/metrics/json.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 28123bc..1dd2107 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"io/ioutil"
 	"os"
+	"strings"
 	"time"
 
 	"github.com/fsnotify/fsnotify"
@@ -251,19 +252,38 @@ func follow(ctx context.Context, filename string, handler func(string) error) er
 		return err
 	}
 
-	stream := bufio.NewScanner(bufio.NewReader(file))
+	// a line may be written in parts: partial is what there is of the last.
+	partial := ""
+	stream := bufio.NewReader(file)
+	readLines := func() error {
+		for {
+			part, err := stream.ReadString('\n')
+			partial += part
+			if err == io.EOF {
+				return nil
+			}
+			if err != nil {
+				return err
+			}
+
+			line := strings.TrimRight(partial, "\r\n")
+			partial = ""
+			if err := handler(line); err != nil {
+				return err
+			}
+		}
+	}
+	if err := readLines(); err != nil {
+		return err
+	}
+
 	for {
 		select {
 		case <-ctx.Done():
 			return errors.New("operation aborted")
 		case event := <-watcher.Events:
 			if event.Op&fsnotify.Write == fsnotify.Write {
-				for stream.Scan() {
-					if err := handler(stream.Text()); err != nil {
-						return err
-					}
-				}
-				if err := stream.Err(); err != nil {
+				if err := readLines(); err != nil {
 					return err
 				}
 			}
-- 
2.43.0


From c38f22fb8a04f548fdd1d57eb39b418fca2a379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:37 +0000
Subject: [PATCH 65/74] fix: ftdc: parallel metrics collectors finish

---
 x/ftdc/metrics/metrics.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/metrics/metrics.go b/x/ftdc/metrics/metrics.go
index 13937b8..d63e3c0 100644
--- a/x/ftdc/metrics/metrics.go
+++ b/x/ftdc/metrics/metrics.go
@@ -110,12 +110,12 @@ func (opts *CollectOptions) generate(ctx context.Context, id int) (*birch.Docume
 		wg.Add(1)
 
 		go func() {
+			defer wg.Done()
 			defer func() {
 				if p := recover(); p != nil {
 					catcher.Push(fmt.Errorf("ftdc metrics collector panic: %v", p))
 				}
 			}()
-			defer wg.Done()
 
 			for collector := range collectors {
 				elems <- birch.EC.SubDocument(collector.Name, collector.Operation(ctx))
@@ -123,6 +123,7 @@ func (opts *CollectOptions) generate(ctx context.Context, id int) (*birch.Docume
 		}()
 	}
 	wg.Wait()
+	close(elems)
 
 	for elem := range elems {
 		doc.Append(elem)
-- 
2.43.0


From 25f061db30eb1181086620c0203e6cada5a2f429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:50 +0000
Subject: [PATCH 66/74] fix: ftdc: metrics collection goes on when the metrics
 change

---
 x/ftdc/metrics/metrics.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/metrics/metrics.go b/x/ftdc/metrics/metrics.go
index d63e3c0..bf63690 100644
--- a/x/ftdc/metrics/metrics.go
+++ b/x/ftdc/metrics/metrics.go
@@ -190,7 +190,7 @@ func CollectRuntime(ctx context.Context, opts CollectOptions) error {
 		return fmt.Errorf("problem creating initial file: %w", err)
 	}
 
-	collector := ftdc.NewStreamingCollector(opts.SampleCount, file)
+	collector := ftdc.NewStreamingDynamicCollector(opts.SampleCount, file)
 	collectTimer := time.NewTimer(0)
 	flushTimer := time.NewTimer(opts.FlushInterval)
 	defer collectTimer.Stop()
@@ -217,7 +217,7 @@ func CollectRuntime(ctx context.Context, opts CollectOptions) error {
 			return fmt.Errorf("problem creating subsequent file: %w", err)
 		}
 
-		collector = ftdc.NewStreamingCollector(opts.SampleCount, file)
+		collector = ftdc.NewStreamingDynamicCollector(opts.SampleCount, file)
 		return nil
 	}
 
-- 
2.43.0


From de9a14fc09cf377137e49fe1c3e60f2a8d8b053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 67/74] fix: ftdc: metrics collection closes its files

---
 x/ftdc/metrics/metrics.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/metrics/metrics.go b/x/ftdc/metrics/metrics.go
index bf63690..900dbf7 100644
--- a/x/ftdc/metrics/metrics.go
+++ b/x/ftdc/metrics/metrics.go
@@ -190,6 +190,8 @@ func CollectRuntime(ctx context.Context, opts CollectOptions) error {
 		return fmt.Errorf("problem creating initial file: %w", err)
 	}
 
+	defer func() { _ = file.Close() }()
+
 	collector := ftdc.NewStreamingDynamicCollector(opts.SampleCount, file)
 	collectTimer := time.NewTimer(0)
 	flushTimer := time.NewTimer(opts.FlushInterval)
@@ -224,7 +226,10 @@ func CollectRuntime(ctx context.Context, opts CollectOptions) error {
 	for {
 		select {
 		case <-ctx.Done():
-			return (flusher())
+			if err := ftdc.FlushCollector(collector, file); err != nil {
+				return err
+			}
+			return file.Close()
 		case <-collectTimer.C:
 			payload, err := opts.generate(ctx, collectCount)
 			if err != nil {
-- 
2.43.0


From 584a89436c864ccc96ac4f6b0638da37f42dc6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:17 +0000
Subject: [PATCH 68/74] fix: ftdc: disks keep their places in the samples of
 the system

---
 x/ftdc/metrics/system_info.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/ftdc/metrics/system_info.go b/x/ftdc/metrics/system_info.go
index 1afc9c8..b650094 100644
--- a/x/ftdc/metrics/system_info.go
+++ b/x/ftdc/metrics/system_info.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"runtime"
+	"sort"
 
 	"github.com/shirou/gopsutil/cpu"
 	"github.com/shirou/gopsutil/disk"
@@ -121,6 +122,8 @@ func MakeSystemInfo(message string) *SystemInfo {
 	for _, stat := range iostatMap {
 		s.IOStat = append(s.IOStat, stat)
 	}
+	// in the metrics a disk is known only by its position.
+	sort.Slice(s.IOStat, func(i, j int) bool { return s.IOStat[i].Name < s.IOStat[j].Name })
 
 	return s
 }
-- 
2.43.0


From dddc5770bae3221faa356c4e2ab0111287b0d1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 69/74] fix: blist: setting a nil element panics

---
 x/blist/blist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/blist/blist.go b/x/blist/blist.go
index 6aea7d4..76b121f 100644
--- a/x/blist/blist.go
+++ b/x/blist/blist.go
@@ -41,6 +41,10 @@ func (d *Document) Prepend(elems ...*birch.Element) *Document {
 }
 
 func (d *Document) Set(elem *birch.Element) *Document {
+	if elem == nil {
+		panic(bsonerr.NilElement)
+	}
+
 	for e := d.Front(); e.Ok(); e = e.Next() {
 		if e.Value().Key() != elem.Key() {
 			continue
-- 
2.43.0


From 393b68e56aa71b121d35abeb72a65a77960e977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 70/74] fix: ftdc: histograms are read from bson without a
 registered unmarshaler

---
 x/ftdc/hdrhist/snapshot.go | 56 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/hdrhist/snapshot.go b/x/ftdc/hdrhist/snapshot.go
index 1274bb2..3fedd9d 100644
--- a/x/ftdc/hdrhist/snapshot.go
+++ b/x/ftdc/hdrhist/snapshot.go
@@ -2,6 +2,8 @@ package hdrhist
 
 import (
 	"encoding/json"
+	"errors"
+	"fmt"
 
 	"github.com/tychoish/birch"
 	"github.com/tychoish/birch/x/ftdc/util"
@@ -29,7 +31,11 @@ func (h *Histogram) MarshalJSON() ([]byte, error) { return json.Marshal(h.Export
 
 func (h *Histogram) UnmarshalBSON(in []byte) error {
 	s := &hdrhist.Snapshot{}
-	if err := util.GlobalUnmarshaler()(in, s); err != nil {
+	if unmarshal := util.GlobalUnmarshaler(); unmarshal != nil {
+		if err := unmarshal(in, s); err != nil {
+			return err
+		}
+	} else if err := readSnapshot(in, s); err != nil {
 		return err
 	}
 
@@ -37,6 +43,54 @@ func (h *Histogram) UnmarshalBSON(in []byte) error {
 	return nil
 }
 
+// readSnapshot reads the document that MarshalDocument produces.
+func readSnapshot(in []byte, s *hdrhist.Snapshot) error {
+	if _, err := birch.Reader(in).Validate(); err != nil {
+		return err
+	}
+
+	doc, err := birch.ReadDocument(in)
+	if err != nil {
+		return err
+	}
+
+	for _, f := range []struct {
+		name  string
+		value *int64
+	}{
+		{"lowest", &s.LowestTrackableValue},
+		{"highest", &s.HighestTrackableValue},
+		{"figures", &s.SignificantFigures},
+	} {
+		num, ok := doc.Lookup(f.name).Int64OK()
+		if !ok {
+			return fmt.Errorf("histogram field %q is not a 64-bit integer", f.name)
+		}
+		*f.value = num
+	}
+
+	counts, ok := doc.Lookup("counts").MutableArrayOK()
+	if !ok {
+		return errors.New("histogram field \"counts\" is not an array")
+	}
+
+	s.Counts = make([]int64, 0, counts.Len())
+	for idx := 0; idx < counts.Len(); idx++ {
+		value, err := counts.Lookup(uint(idx))
+		if err != nil {
+			return err
+		}
+
+		num, ok := value.Int64OK()
+		if !ok {
+			return fmt.Errorf("histogram count %d is not a 64-bit integer", idx)
+		}
+		s.Counts = append(s.Counts, num)
+	}
+
+	return nil
+}
+
 func (h *Histogram) UnmarshalJSON(in []byte) error {
 	s := &hdrhist.Snapshot{}
 	if err := json.Unmarshal(in, s); err != nil {
-- 
2.43.0


From e9729afbb2839aa840009887b70419822c7363ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 71/74] fix: ftdc: malformed histograms are refused

---
 x/ftdc/hdrhist/snapshot.go | 48 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/x/ftdc/hdrhist/snapshot.go b/x/ftdc/hdrhist/snapshot.go
index 3fedd9d..458941a 100644
--- a/x/ftdc/hdrhist/snapshot.go
+++ b/x/ftdc/hdrhist/snapshot.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"math"
 
 	"github.com/tychoish/birch"
 	"github.com/tychoish/birch/x/ftdc/util"
@@ -38,11 +39,55 @@ func (h *Histogram) UnmarshalBSON(in []byte) error {
 	} else if err := readSnapshot(in, s); err != nil {
 		return err
 	}
+	if err := validate(s); err != nil {
+		return err
+	}
 
 	*h = Histogram{hdrhist.Import(s)}
 	return nil
 }
 
+// validate returns an error if no histogram has this snapshot: importing it
+// would panic or not terminate.
+func validate(s *hdrhist.Snapshot) error {
+	if s.SignificantFigures < 1 || s.SignificantFigures > 5 {
+		return fmt.Errorf("histogram has %d significant figures", s.SignificantFigures)
+	}
+
+	var unit int
+	if s.LowestTrackableValue > 0 {
+		unit = int(math.Log2(float64(s.LowestTrackableValue)))
+	}
+
+	// half the number of the counts of a bucket, as a power of two
+	half := []int{4, 7, 10, 14, 17}[s.SignificantFigures-1]
+	if unit+half+1 > 62 {
+		return fmt.Errorf("histogram has an invalid lowest value %d", s.LowestTrackableValue)
+	}
+
+	buckets := 1
+	for limit := int64(1) << (unit + half + 1); limit < s.HighestTrackableValue; limit <<= 1 {
+		if limit > math.MaxInt64/2 {
+			return fmt.Errorf("histogram has an invalid highest value %d", s.HighestTrackableValue)
+		}
+		buckets++
+	}
+
+	if want := (buckets + 1) << half; len(s.Counts) != want {
+		return fmt.Errorf("histogram has %d counts, not %d", len(s.Counts), want)
+	}
+
+	var total int64
+	for idx, count := range s.Counts {
+		if count < 0 || count > math.MaxInt64-total {
+			return fmt.Errorf("histogram count %d is out of range", idx)
+		}
+		total += count
+	}
+
+	return nil
+}
+
 // readSnapshot reads the document that MarshalDocument produces.
 func readSnapshot(in []byte, s *hdrhist.Snapshot) error {
 	if _, err := birch.Reader(in).Validate(); err != nil {
@@ -96,6 +141,9 @@ func (h *Histogram) UnmarshalJSON(in []byte) error {
 	if err := json.Unmarshal(in, s); err != nil {
 		return err
 	}
+	if err := validate(s); err != nil {
+		return err
+	}
 
 	*h = Histogram{hdrhist.Import(s)}
 	return nil
-- 
2.43.0


From ddc0a396864c92645ad51a0ba86b152f6dd4b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:12 +0000
Subject: [PATCH 72/74] fix: jsonx: integers and floats of every width are
 numbers

Int32, Int64 and Float32 values were refused by the accessors, and thereby by
the conversion to documents.
---
 jsonx/juniper.go | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/jsonx/juniper.go b/jsonx/juniper.go
index 7f80ae9..fb9bd4f 100644
--- a/jsonx/juniper.go
+++ b/jsonx/juniper.go
@@ -78,14 +78,50 @@ func (v *Value) StringValue() string           { return v.value.(string) }
 func (v *Value) Array() *Array                 { return v.value.(*Array) }
 func (v *Value) Document() *Document           { return v.value.(*Document) }
 func (v *Value) Boolean() bool                 { return v.value.(bool) }
-func (v *Value) Int() int                      { return v.value.(int) }
-func (v *Value) Float64() float64              { return v.value.(float64) }
 func (v *Value) StringValueOK() (string, bool) { out, ok := v.value.(string); return out, ok }
 func (v *Value) ArrayOK() (*Array, bool)       { out, ok := v.value.(*Array); return out, ok }
 func (v *Value) DocumentOK() (*Document, bool) { out, ok := v.value.(*Document); return out, ok }
 func (v *Value) BooleanOK() (bool, bool)       { out, ok := v.value.(bool); return out, ok }
-func (v *Value) IntOK() (int, bool)            { out, ok := v.value.(int); return out, ok }
-func (v *Value) Float64OK() (float64, bool)    { out, ok := v.value.(float64); return out, ok }
+
+func (v *Value) Int() int {
+	if out, ok := v.IntOK(); ok {
+		return out
+	}
+
+	return v.value.(int)
+}
+
+func (v *Value) Float64() float64 {
+	if out, ok := v.Float64OK(); ok {
+		return out
+	}
+
+	return v.value.(float64)
+}
+
+func (v *Value) IntOK() (int, bool) {
+	switch n := v.value.(type) {
+	case int:
+		return n, true
+	case int32:
+		return int(n), true
+	case int64:
+		return int(n), int64(int(n)) == n
+	default:
+		return 0, false
+	}
+}
+
+func (v *Value) Float64OK() (float64, bool) {
+	switch n := v.value.(type) {
+	case float64:
+		return n, true
+	case float32:
+		return float64(n), true
+	default:
+		return 0, false
+	}
+}
 
 func (v *Value) Copy() *Value {
 	return &Value{
-- 
2.43.0


From 413bb4469c8b0212aa306cae419a90ecb6bd063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:15 +0000
Subject: [PATCH 73/74] fix: jsonx: copies of values do not share nested
 documents and arrays

---
 jsonx/juniper.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/jsonx/juniper.go b/jsonx/juniper.go
index fb9bd4f..8620da9 100644
--- a/jsonx/juniper.go
+++ b/jsonx/juniper.go
@@ -124,8 +124,21 @@ func (v *Value) Float64OK() (float64, bool) {
 }
 
 func (v *Value) Copy() *Value {
-	return &Value{
+	nv := &Value{
 		t:     v.t,
 		value: v.value,
 	}
+
+	switch val := v.value.(type) {
+	case *Document:
+		if val != nil {
+			nv.value = val.Copy()
+		}
+	case *Array:
+		if val != nil {
+			nv.value = val.Copy()
+		}
+	}
+
+	return nv
 }
-- 
2.43.0


From 5ee4ebf8ac0a8607db0d435cd596ef59f7d3efb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:24 +0000
Subject: [PATCH 74/74] fix: document maps: validation compares the keys

An element under another key passed Validate, which promises the contrary,
and was written under its own key.
---
 unmarshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 8710b69..49b7f66 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -1,6 +1,8 @@
 package birch
 
 import (
+	"fmt"
+
 	"github.com/tychoish/fun/erc"
 )
 
@@ -28,6 +30,9 @@ func (dm DocumentMap) Validate() error {
 		ekey := elem.Key()
 		_, err := elem.Validate()
 		ec.Wrapf(err, "for mapKey=%q, invalid element", ekey)
+		if ekey != key {
+			ec.Push(fmt.Errorf("for mapKey=%q, element has key %q", key, ekey))
+		}
 	}
 
 	return ec.Resolve()
-- 
2.43.0

