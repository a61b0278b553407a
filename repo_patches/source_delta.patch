From 4a7eade2d59cf6684c0eef0f00f8ac12f1384d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:43 +0000
Subject: [PATCH 01/64] fix: write comments with empty lines and any line break

WriteTo panicked for a section or key comment with an empty line, left
lines unmarked when the comment uses another line break than LineBreak,
and did not reproduce its output for indented section comments.
---
 file.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/file.go b/file.go
index f8b2240..1de0efc 100644
--- a/file.go
+++ b/file.go
@@ -333,6 +333,12 @@ func (f *File) Append(source interface{}, others ...interface{}) error {
 	return f.Reload()
 }
 
+// splitComment splits a comment into lines, no matter which kind of line break
+// it has been composed with.
+func splitComment(comment string) []string {
+	return strings.Split(strings.Replace(comment, "\r\n", "\n", -1), "\n")
+}
+
 func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	equalSign := DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight
 
@@ -347,10 +353,10 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		sec := f.SectionWithIndex(sname, f.sectionIndexes[i])
 		if len(sec.Comment) > 0 {
 			// Support multiline comments
-			lines := strings.Split(sec.Comment, LineBreak)
+			lines := splitComment(sec.Comment)
 			for i := range lines {
-				if lines[i][0] != '#' && lines[i][0] != ';' {
-					lines[i] = "; " + lines[i]
+				if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
+					lines[i] = "; " + strings.TrimSpace(lines[i])
 				} else {
 					lines[i] = lines[i][:1] + " " + strings.TrimSpace(lines[i][1:])
 				}
@@ -417,9 +423,9 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				}
 
 				// Support multiline comments
-				lines := strings.Split(key.Comment, LineBreak)
+				lines := splitComment(key.Comment)
 				for i := range lines {
-					if lines[i][0] != '#' && lines[i][0] != ';' {
+					if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
 						lines[i] = "; " + strings.TrimSpace(lines[i])
 					} else {
 						lines[i] = lines[i][:1] + " " + strings.TrimSpace(lines[i][1:])
-- 
2.43.0


From 5a93b446076ed3c85067d6c5d97221782a1d17fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:02 +0000
Subject: [PATCH 02/64] fix: quote values that would be read differently on
 output

Values ending with a backslash swallowed the following line when the
output was loaded again, and values with surrounding quotes, leading
triple quotes or escaped comment symbols were altered.
---
 file.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/file.go b/file.go
index 1de0efc..7a1b205 100644
--- a/file.go
+++ b/file.go
@@ -339,6 +339,31 @@ func splitComment(comment string) []string {
 	return strings.Split(strings.Replace(comment, "\r\n", "\n", -1), "\n")
 }
 
+// quoteValue surrounds the value with quotes when it would be read differently
+// in its plain form.
+func (f *File) quoteValue(val string) string {
+	switch {
+	case strings.Contains(val, "`") ||
+		(strings.Contains(val, "\n") && !strings.Contains(val, `"""`)):
+		return `"""` + val + `"""`
+	case strings.Contains(val, "\n"),
+		!f.options.IgnoreInlineComment && strings.ContainsAny(val, "#;"):
+		return "`" + val + "`"
+	case len(strings.TrimSpace(val)) != len(val):
+		if f.options.PreserveSurroundedQuote || strings.Contains(val, `"`) {
+			return "`" + val + "`"
+		}
+		return `"` + val + `"`
+	case strings.HasPrefix(val, `"""`),
+		f.options.UnescapeValueDoubleQuotes && strings.HasPrefix(val, `"`),
+		f.options.UnescapeValueCommentSymbols && (strings.Contains(val, `\;`) || strings.Contains(val, `\#`)),
+		!f.options.PreserveSurroundedQuote && (hasSurroundedQuote(val, '\'') || hasSurroundedQuote(val, '"')),
+		!f.options.IgnoreContinuation && strings.HasSuffix(val, `\`):
+		return "`" + val + "`"
+	}
+	return val
+}
+
 func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	equalSign := DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight
 
@@ -466,13 +491,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				}
 
 				// In case key value contains "\n", "`", "\"", "#" or ";"
-				if strings.ContainsAny(val, "\n`") {
-					val = `"""` + val + `"""`
-				} else if !f.options.IgnoreInlineComment && strings.ContainsAny(val, "#;") {
-					val = "`" + val + "`"
-				} else if len(strings.TrimSpace(val)) != len(val) {
-					val = `"` + val + `"`
-				}
+				val = f.quoteValue(val)
 				if _, err := buf.WriteString(equalSign + val + LineBreak); err != nil {
 					return false, err
 				}
-- 
2.43.0


From 4bb6f44ea3ac5a6278515a7442aab9e575896ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:34 +0000
Subject: [PATCH 03/64] fix: quote key names that would be read differently on
 output

Key names starting with a comment symbol or a bracket were read back as
comments or sections, names with both a backtick and a double quote or
delimiter could not be read back, and boolean key names lost whatever
value parsing takes off.
---
 file.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/file.go b/file.go
index 7a1b205..6390b8c 100644
--- a/file.go
+++ b/file.go
@@ -364,6 +364,21 @@ func (f *File) quoteValue(val string) string {
 	return val
 }
 
+// quoteKeyName surrounds the key name with quotes when it would be read
+// differently in its plain form. The name of a boolean key is read as a value.
+func (f *File) quoteKeyName(name string, isBoolean bool) string {
+	switch {
+	case strings.Contains(name, "`"):
+		return `"""` + name + `"""`
+	case strings.ContainsAny(name, `"`+f.options.KeyValueDelimiters),
+		strings.IndexAny(name, "#;[") == 0:
+		return "`" + name + "`"
+	case isBoolean:
+		return f.quoteValue(name)
+	}
+	return name
+}
+
 func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	equalSign := DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight
 
@@ -425,11 +440,8 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		if PrettyFormat {
 			for _, kname := range sec.keyList {
 				keyLength := len(kname)
-				// First case will surround key by ` and second by """
-				if strings.Contains(kname, "\"") || strings.ContainsAny(kname, f.options.KeyValueDelimiters) {
-					keyLength += 2
-				} else if strings.Contains(kname, "`") {
-					keyLength += 6
+				if key := sec.keys[kname]; !key.isAutoIncrement {
+					keyLength = len(f.quoteKeyName(kname, key.isBooleanType))
 				}
 
 				if keyLength > alignLength {
@@ -466,13 +478,10 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				buf.WriteString(indent)
 			}
 
-			switch {
-			case key.isAutoIncrement:
+			if key.isAutoIncrement {
 				kname = "-"
-			case strings.Contains(kname, "\"") || strings.ContainsAny(kname, f.options.KeyValueDelimiters):
-				kname = "`" + kname + "`"
-			case strings.Contains(kname, "`"):
-				kname = `"""` + kname + `"""`
+			} else {
+				kname = f.quoteKeyName(kname, key.isBooleanType)
 			}
 
 			writeKeyValue := func(val string) (bool, error) {
-- 
2.43.0


From fbee8e159184948f17738aa3e8227d4d65c5a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 04/64] fix: split values at delimiters of any length and
 alphabet

Key.Strings mixed up byte and character offsets, so a multi-byte delimiter
made it panic or skip text, and an escaped delimiter that overlaps itself
was split in its middle.
---
 key.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/key.go b/key.go
index a19d9f3..e78c10f 100644
--- a/key.go
+++ b/key.go
@@ -495,7 +495,6 @@ func (k *Key) Strings(delim string) []string {
 		return []string{}
 	}
 
-	runes := []rune(str)
 	vals := make([]string, 0, 2)
 	var buf bytes.Buffer
 	escape := false
@@ -503,23 +502,28 @@ func (k *Key) Strings(delim string) []string {
 	for {
 		if escape {
 			escape = false
-			if runes[idx] != '\\' && !strings.HasPrefix(string(runes[idx:]), delim) {
-				buf.WriteRune('\\')
+			if strings.HasPrefix(str[idx:], delim) {
+				buf.WriteString(delim)
+				idx += len(delim) - 1
+			} else {
+				if str[idx] != '\\' {
+					buf.WriteByte('\\')
+				}
+				buf.WriteByte(str[idx])
 			}
-			buf.WriteRune(runes[idx])
 		} else {
-			if runes[idx] == '\\' {
+			if str[idx] == '\\' {
 				escape = true
-			} else if strings.HasPrefix(string(runes[idx:]), delim) {
+			} else if strings.HasPrefix(str[idx:], delim) {
 				idx += len(delim) - 1
 				vals = append(vals, strings.TrimSpace(buf.String()))
 				buf.Reset()
 			} else {
-				buf.WriteRune(runes[idx])
+				buf.WriteByte(str[idx])
 			}
 		}
 		idx++
-		if idx == len(runes) {
+		if idx == len(str) {
 			break
 		}
 	}
-- 
2.43.0


From ad70074d506d7f1dba24dd5b5be311d2d91a179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:03 +0000
Subject: [PATCH 05/64] fix: keep a trailing backslash when splitting values

Key.Strings keeps every backslash that does not escape anything, except
for the last character, which was lost.
---
 key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/key.go b/key.go
index e78c10f..517bf13 100644
--- a/key.go
+++ b/key.go
@@ -528,6 +528,10 @@ func (k *Key) Strings(delim string) []string {
 		}
 	}
 
+	// A trailing backslash escapes nothing
+	if escape {
+		buf.WriteByte('\\')
+	}
 	if buf.Len() > 0 {
 		vals = append(vals, strings.TrimSpace(buf.String()))
 	}
-- 
2.43.0


From 21ec3eed2b85bff8ff6af032d6862c4c796946d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 06/64] fix: delete keys regardless of letter case in
 insensitive modes

---
 section.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/section.go b/section.go
index a3615d8..2b1e2b9 100644
--- a/section.go
+++ b/section.go
@@ -226,6 +226,10 @@ func (s *Section) KeysHash() map[string]string {
 
 // DeleteKey deletes a key from section.
 func (s *Section) DeleteKey(name string) {
+	if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
+		name = strings.ToLower(name)
+	}
+
 	if s.f.BlockMode {
 		s.f.lock.Lock()
 		defer s.f.lock.Unlock()
-- 
2.43.0


From 63e0b8fc3a8aac9f48eae68eb2db80bffb4d7d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 07/64] fix: [DEFAULT] is the default section in insensitive
 modes

NewSection kept the case of the default section name only, while loading
and looking up use its lower case, so the keys below a [DEFAULT] header
went to a section that could not be looked up.
---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 6390b8c..8ddb665 100644
--- a/file.go
+++ b/file.go
@@ -85,7 +85,7 @@ func (f *File) NewSection(name string) (*Section, error) {
 		return nil, errors.New("empty section name")
 	}
 
-	if (f.options.Insensitive || f.options.InsensitiveSections) && name != DefaultSection {
+	if f.options.Insensitive || f.options.InsensitiveSections {
 		name = strings.ToLower(name)
 	}
 
-- 
2.43.0


From 1d931507bb18886458749479c8c10515da05db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:38 +0000
Subject: [PATCH 08/64] fix: leave out the header of the default section only

A first section named like the default section in other letter case was
written without its header, so its keys became keys of the default section.
---
 file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 8ddb665..e69c3ea 100644
--- a/file.go
+++ b/file.go
@@ -407,7 +407,9 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			}
 		}
 
-		if i > 0 || DefaultHeader || (i == 0 && strings.ToUpper(sec.name) != DefaultSection) {
+		isDefault := sname == DefaultSection ||
+			((f.options.Insensitive || f.options.InsensitiveSections) && sname == strings.ToLower(DefaultSection))
+		if i > 0 || DefaultHeader || !isDefault {
 			if _, err := buf.WriteString("[" + sname + "]" + LineBreak); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 5404fd4bf2d008ffa2efc47d4164e670d8477633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:39 +0000
Subject: [PATCH 09/64] fix: map durations of any sign and form

A pointer field panicked for a duration given as a number, and zero and
negative durations were ignored.
---
 struct.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index a486b2f..6aa60ec 100644
--- a/struct.go
+++ b/struct.go
@@ -183,16 +183,18 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		if vt.Name() == "Duration" {
 			durationVal, err := key.Duration()
 			if err != nil {
-				if intVal, err := key.Int64(); err == nil {
-					field.SetInt(intVal)
-					return nil
+				intVal, intErr := key.Int64()
+				if intErr != nil {
+					return wrapStrictError(err, isStrict)
 				}
-				return wrapStrictError(err, isStrict)
+				durationVal = time.Duration(intVal)
 			}
 			if isPtr {
-				field.Set(reflect.ValueOf(&durationVal))
-			} else if int64(durationVal) > 0 {
-				field.Set(reflect.ValueOf(durationVal))
+				pv := reflect.New(vt)
+				pv.Elem().SetInt(int64(durationVal))
+				field.Set(pv)
+			} else {
+				field.SetInt(int64(durationVal))
 			}
 			return nil
 		}
-- 
2.43.0


From 040c61e43d8091f02f5fac5bd14115784f3074c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 10/64] fix: do not panic when an unsigned field's text is a
 duration

A duration can never be assigned to a field of unsigned integer kind.
---
 struct.go | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/struct.go b/struct.go
index 6aa60ec..546483d 100644
--- a/struct.go
+++ b/struct.go
@@ -212,17 +212,6 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		}
 	//	byte is an alias for uint8, so supporting uint8 breaks support for byte
 	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		durationVal, err := key.Duration()
-		// Skip zero value
-		if err == nil && uint64(durationVal) > 0 {
-			if isPtr {
-				field.Set(reflect.ValueOf(&durationVal))
-			} else {
-				field.Set(reflect.ValueOf(durationVal))
-			}
-			return nil
-		}
-
 		uintVal, err := key.Uint64()
 		if err != nil {
 			return wrapStrictError(err, isStrict)
-- 
2.43.0


From 298b9ab7a7bf29589007ee3aa999b82e7b8ced84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:41 +0000
Subject: [PATCH 11/64] fix: map to lists and pointers of named types without
 panicking

Elements and pointers of named string, bool and number types are set by
kind, as plain fields are; structs other than time.Time are unsupported.
---
 struct.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/struct.go b/struct.go
index 546483d..747593f 100644
--- a/struct.go
+++ b/struct.go
@@ -111,6 +111,9 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	case reflect.Bool:
 		vals, err = key.parseBools(strs, true, false)
 	case reflectTime:
+		if field.Type().Elem() != reflect.TypeOf(time.Time{}) {
+			return fmt.Errorf("unsupported type '[]%s'", sliceOf)
+		}
 		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, false)
 	default:
 		return fmt.Errorf("unsupported type '[]%s'", sliceOf)
@@ -123,19 +126,19 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	for i := 0; i < numVals; i++ {
 		switch sliceOf {
 		case reflect.String:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]string)[i]))
+			slice.Index(i).SetString(vals.([]string)[i])
 		case reflect.Int:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]int)[i]))
+			slice.Index(i).SetInt(int64(vals.([]int)[i]))
 		case reflect.Int64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]int64)[i]))
+			slice.Index(i).SetInt(vals.([]int64)[i])
 		case reflect.Uint:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]uint)[i]))
+			slice.Index(i).SetUint(uint64(vals.([]uint)[i]))
 		case reflect.Uint64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]uint64)[i]))
+			slice.Index(i).SetUint(vals.([]uint64)[i])
 		case reflect.Float64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]float64)[i]))
+			slice.Index(i).SetFloat(vals.([]float64)[i])
 		case reflect.Bool:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]bool)[i]))
+			slice.Index(i).SetBool(vals.([]bool)[i])
 		case reflectTime:
 			slice.Index(i).Set(reflect.ValueOf(vals.([]time.Time)[i]))
 		}
@@ -164,7 +167,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 	case reflect.String:
 		stringVal := key.String()
 		if isPtr {
-			field.Set(reflect.ValueOf(&stringVal))
+			pv := reflect.New(vt)
+			pv.Elem().SetString(stringVal)
+			field.Set(pv)
 		} else if len(stringVal) > 0 {
 			field.SetString(key.String())
 		}
@@ -174,7 +179,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 			return wrapStrictError(err, isStrict)
 		}
 		if isPtr {
-			field.Set(reflect.ValueOf(&boolVal))
+			pv := reflect.New(vt)
+			pv.Elem().SetBool(boolVal)
+			field.Set(pv)
 		} else {
 			field.SetBool(boolVal)
 		}
@@ -241,6 +248,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
+		if vt != reflect.TypeOf(timeVal) {
+			return fmt.Errorf("unsupported type %q", t)
+		}
 		if isPtr {
 			field.Set(reflect.ValueOf(&timeVal))
 		} else {
-- 
2.43.0


From 515f44a3126b160b7318fe44db6334ad94b0026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:18 +0000
Subject: [PATCH 12/64] fix: map repeated sections to slices of struct pointers

ReflectFrom writes such slices, but mapping them back panicked, as did
mapping to a slice of anything else but structs.
---
 struct.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 747593f..dd66555 100644
--- a/struct.go
+++ b/struct.go
@@ -367,13 +367,23 @@ func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (
 	}
 
 	typ := val.Type().Elem()
+	isPtr := typ.Kind() == reflect.Ptr
+	if isPtr {
+		typ = typ.Elem()
+	}
+	if typ.Kind() != reflect.Struct {
+		return reflect.Value{}, errors.New("not a slice of pointer or struct")
+	}
 	for i, sec := range secs {
 		elem := reflect.New(typ)
 		if err = sec.mapToField(elem, isStrict, i, sec.name); err != nil {
 			return reflect.Value{}, fmt.Errorf("map to field from section %q: %v", secName, err)
 		}
 
-		val = reflect.Append(val, elem.Elem())
+		if !isPtr {
+			elem = elem.Elem()
+		}
+		val = reflect.Append(val, elem)
 	}
 	return val, nil
 }
-- 
2.43.0


From 13053dcc6d3d474f5e80625f42f841f7e45362b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:19 +0000
Subject: [PATCH 13/64] fix: fail strict mapping when a list element does not
 convert

---
 struct.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index dd66555..d49455e 100644
--- a/struct.go
+++ b/struct.go
@@ -99,22 +99,22 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	case reflect.String:
 		vals = strs
 	case reflect.Int:
-		vals, err = key.parseInts(strs, true, false)
+		vals, err = key.parseInts(strs, true, isStrict)
 	case reflect.Int64:
-		vals, err = key.parseInt64s(strs, true, false)
+		vals, err = key.parseInt64s(strs, true, isStrict)
 	case reflect.Uint:
-		vals, err = key.parseUints(strs, true, false)
+		vals, err = key.parseUints(strs, true, isStrict)
 	case reflect.Uint64:
-		vals, err = key.parseUint64s(strs, true, false)
+		vals, err = key.parseUint64s(strs, true, isStrict)
 	case reflect.Float64:
-		vals, err = key.parseFloat64s(strs, true, false)
+		vals, err = key.parseFloat64s(strs, true, isStrict)
 	case reflect.Bool:
-		vals, err = key.parseBools(strs, true, false)
+		vals, err = key.parseBools(strs, true, isStrict)
 	case reflectTime:
 		if field.Type().Elem() != reflect.TypeOf(time.Time{}) {
 			return fmt.Errorf("unsupported type '[]%s'", sliceOf)
 		}
-		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, false)
+		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, isStrict)
 	default:
 		return fmt.Errorf("unsupported type '[]%s'", sliceOf)
 	}
-- 
2.43.0


From cc624109df6c75b52e74653961b54c63df59cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 14/64] fix: treat numbers that overflow the field's type as
 invalid

They were cut to the size of the field, even by strict mapping.
---
 struct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/struct.go b/struct.go
index d49455e..d416396 100644
--- a/struct.go
+++ b/struct.go
@@ -207,6 +207,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		}
 
 		intVal, err := key.Int64()
+		if err == nil && reflect.Zero(vt).OverflowInt(intVal) {
+			err = fmt.Errorf("value %d overflows type %q", intVal, vt)
+		}
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
@@ -220,6 +223,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 	//	byte is an alias for uint8, so supporting uint8 breaks support for byte
 	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		uintVal, err := key.Uint64()
+		if err == nil && reflect.Zero(vt).OverflowUint(uintVal) {
+			err = fmt.Errorf("value %d overflows type %q", uintVal, vt)
+		}
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
@@ -233,6 +239,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 
 	case reflect.Float32, reflect.Float64:
 		floatVal, err := key.Float64()
+		if err == nil && reflect.Zero(vt).OverflowFloat(floatVal) {
+			err = fmt.Errorf("value %v overflows type %q", floatVal, vt)
+		}
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
-- 
2.43.0


From 300e701d24321c456f221cda62f367d1038f1bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:21 +0000
Subject: [PATCH 15/64] fix: reflect the fields after a StructReflector field

---
 struct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index d416396..f7f9d9e 100644
--- a/struct.go
+++ b/struct.go
@@ -618,7 +618,10 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		}
 
 		if r, ok := field.Interface().(StructReflector); ok {
-			return r.ReflectINIStruct(s.f)
+			if err := r.ReflectINIStruct(s.f); err != nil {
+				return err
+			}
+			continue
 		}
 
 		fieldName := s.parseFieldName(tpField.Name, rawName)
-- 
2.43.0


From 211b60ea8a8ed65d37ace0a1da46000e737a17a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:22 +0000
Subject: [PATCH 16/64] fix: reflect the fields after an empty non-unique slice
 field

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index f7f9d9e..e08d6c0 100644
--- a/struct.go
+++ b/struct.go
@@ -659,7 +659,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		if allowNonUnique && tpField.Type.Kind() == reflect.Slice {
 			slice := field.Slice(0, field.Len())
 			if field.Len() == 0 {
-				return nil
+				continue
 			}
 			sliceOf := field.Type().Elem().Kind()
 
-- 
2.43.0


From 20afcb3b0ee06b16b9b64b1ba723b5b06975b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:43 +0000
Subject: [PATCH 17/64] fix: reflect nil struct pointers without panicking

Like nil pointers to other types they hold nothing to be stored.
---
 struct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/struct.go b/struct.go
index e08d6c0..4be56de 100644
--- a/struct.go
+++ b/struct.go
@@ -595,6 +595,9 @@ type StructReflector interface {
 
 func (s *Section) reflectFrom(val reflect.Value) error {
 	if val.Kind() == reflect.Ptr {
+		if val.IsNil() {
+			return nil
+		}
 		val = val.Elem()
 	}
 	typ := val.Type()
@@ -629,6 +632,12 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
+		// Nothing to store for a nil pointer to a struct
+		if tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct &&
+			tpField.Type.Elem() != reflect.TypeOf(time.Time{}) && field.IsNil() {
+			continue
+		}
+
 		if extends && tpField.Anonymous && (tpField.Type.Kind() == reflect.Ptr || tpField.Type.Kind() == reflect.Struct) {
 			if err := s.reflectFrom(field); err != nil {
 				return fmt.Errorf("reflect from field %q: %v", fieldName, err)
-- 
2.43.0


From 1a94917573df27e5257e9ef3482131d143ea2529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 18/64] fix: reflect pointers to time.Time as keys

They were taken for pointers to nested structs, so their value was lost,
and structs of another package named Time made reflecting panic.
---
 struct.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 4be56de..aef147b 100644
--- a/struct.go
+++ b/struct.go
@@ -645,8 +645,9 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
-		if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct) ||
-			(tpField.Type.Kind() == reflect.Struct && tpField.Type.Name() != "Time") {
+		if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct &&
+			tpField.Type.Elem() != reflect.TypeOf(time.Time{})) ||
+			(tpField.Type.Kind() == reflect.Struct && tpField.Type != reflect.TypeOf(time.Time{})) {
 			// Note: The only error here is section doesn't exist.
 			sec, err := s.f.GetSection(fieldName)
 			if err != nil {
-- 
2.43.0


From bcd623f223c240f280eb08ddfa0a571f569852c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 19/64] fix: reflect lists with allowshadow without losing
 elements

Without AllowShadows all elements but the first were dropped, and the
comment of the key and its entry in the key hash got lost.
---
 struct.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/struct.go b/struct.go
index aef147b..40088ef 100644
--- a/struct.go
+++ b/struct.go
@@ -483,8 +483,8 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 	}
 	sliceOf := field.Type().Elem().Kind()
 
-	if allowShadow {
-		var keyWithShadows *Key
+	if allowShadow && key.s.f.options.AllowShadows {
+		key.shadows = nil
 		for i := 0; i < field.Len(); i++ {
 			var val string
 			switch sliceOf {
@@ -505,12 +505,11 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 			}
 
 			if i == 0 {
-				keyWithShadows = newKey(key.s, key.name, val)
+				key.SetValue(val)
 			} else {
-				_ = keyWithShadows.AddShadow(val)
+				_ = key.AddShadow(val)
 			}
 		}
-		*key = *keyWithShadows
 		return nil
 	}
 
-- 
2.43.0


From 853b5742e7b246d9df4ddc195811b6ae8a464151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:08 +0000
Subject: [PATCH 20/64] fix: keep the contents of embedded pointers when
 mapping

Embedded pointers were replaced by new structs even without any section
to map from, while named pointers are only allocated when nil.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 40088ef..7d8879f 100644
--- a/struct.go
+++ b/struct.go
@@ -311,7 +311,7 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 		isStruct := tpField.Type.Kind() == reflect.Struct
 		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct
 		isAnonymousPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Anonymous
-		if isAnonymousPtr {
+		if isAnonymousPtr && field.IsNil() {
 			field.Set(reflect.New(tpField.Type.Elem()))
 		}
 
-- 
2.43.0


From 146bb05adef0bddaf276fc6e57e0c2cfa6df0c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:09 +0000
Subject: [PATCH 21/64] fix: read Python-style multi-line values of any size at
 any position

The lines of a value were looked up in what the reader had buffered, so a
value crossing the end of the buffer was cut short or rejected, and read
errors met while peeking were dropped.
---
 parser.go | 65 +++++++++++++------------------------------------------
 1 file changed, 15 insertions(+), 50 deletions(-)

diff --git a/parser.go b/parser.go
index 44fc526..8a867ec 100644
--- a/parser.go
+++ b/parser.go
@@ -19,7 +19,6 @@ import (
 	"bytes"
 	"fmt"
 	"io"
-	"regexp"
 	"strconv"
 	"strings"
 	"unicode"
@@ -27,8 +26,6 @@ import (
 
 const minReaderBufferSize = 4096
 
-var pythonMultiline = regexp.MustCompile(`^([\t\f ]+)(.*)`)
-
 type parserOptions struct {
 	IgnoreContinuation          bool
 	IgnoreInlineComment         bool
@@ -225,12 +222,12 @@ func hasSurroundedQuote(in string, quote byte) bool {
 		strings.IndexByte(in[1:], quote) == len(in)-2
 }
 
-func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
+func (p *parser) readValue(in []byte) (string, error) {
 
 	line := strings.TrimLeftFunc(string(in), unicode.IsSpace)
 	if len(line) == 0 {
 		if p.options.AllowPythonMultilineValues && len(in) > 0 && in[len(in)-1] == '\n' {
-			return p.readPythonMultilines(line, bufferSize)
+			return p.readPythonMultilines(line)
 		}
 		return "", nil
 	}
@@ -296,45 +293,34 @@ func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
 		line = strings.ReplaceAll(line, `\;`, ";")
 		line = strings.ReplaceAll(line, `\#`, "#")
 	} else if p.options.AllowPythonMultilineValues && lastChar == '\n' {
-		return p.readPythonMultilines(line, bufferSize)
+		return p.readPythonMultilines(line)
 	}
 
 	return line, nil
 }
 
-func (p *parser) readPythonMultilines(line string, bufferSize int) (string, error) {
-	parserBufferPeekResult, _ := p.buf.Peek(bufferSize)
-	peekBuffer := bytes.NewBuffer(parserBufferPeekResult)
-
+func (p *parser) readPythonMultilines(line string) (string, error) {
 	for {
-		peekData, peekErr := peekBuffer.ReadBytes('\n')
-		if peekErr != nil && peekErr != io.EOF {
-			p.debug("readPythonMultilines: failed to peek with error: %v", peekErr)
-			return "", peekErr
-		}
-
-		p.debug("readPythonMultilines: parsing %q", string(peekData))
-
-		peekMatches := pythonMultiline.FindStringSubmatch(string(peekData))
-		p.debug("readPythonMultilines: matched %d parts", len(peekMatches))
-		for n, v := range peekMatches {
-			p.debug("   %d: %q", n, v)
+		peekData, err := p.buf.Peek(1)
+		if err != nil && err != io.EOF {
+			p.debug("readPythonMultilines: failed to peek with error: %v", err)
+			return "", err
 		}
 
 		// Return if not a Python multiline value.
-		if len(peekMatches) != 3 {
+		if len(peekData) == 0 || bytes.IndexByte([]byte("\t\f "), peekData[0]) == -1 {
 			p.debug("readPythonMultilines: end of value, got: %q", line)
 			return line, nil
 		}
 
-		// Advance the parser reader (buffer) in-sync with the peek buffer.
-		_, err := p.buf.Discard(len(peekData))
+		data, err := p.readUntil('\n')
 		if err != nil {
-			p.debug("readPythonMultilines: failed to skip to the end, returning error")
+			p.debug("readPythonMultilines: failed to read with error: %v", err)
 			return "", err
 		}
+		p.debug("readPythonMultilines: parsing %q", string(data))
 
-		line += "\n" + peekMatches[0]
+		line += "\n" + strings.TrimSuffix(string(data), "\n")
 	}
 }
 
@@ -369,27 +355,6 @@ func (f *File) parse(reader io.Reader) (err error) {
 	var line []byte
 	var inUnparseableSection bool
 
-	// NOTE: Iterate and increase `currentPeekSize` until
-	// the size of the parser buffer is found.
-	// TODO(unknwon): When Golang 1.10 is the lowest version supported, replace with `parserBufferSize := p.buf.Size()`.
-	parserBufferSize := 0
-	// NOTE: Peek 4kb at a time.
-	currentPeekSize := minReaderBufferSize
-
-	if f.options.AllowPythonMultilineValues {
-		for {
-			peekBytes, _ := p.buf.Peek(currentPeekSize)
-			peekBytesLength := len(peekBytes)
-
-			if parserBufferSize >= peekBytesLength {
-				break
-			}
-
-			currentPeekSize *= 2
-			parserBufferSize = peekBytesLength
-		}
-	}
-
 	for !p.isEOF {
 		line, err = p.readUntil('\n')
 		if err != nil {
@@ -472,7 +437,7 @@ func (f *File) parse(reader io.Reader) (err error) {
 			case IsErrDelimiterNotFound(err):
 				switch {
 				case f.options.AllowBooleanKeys:
-					kname, err := p.readValue(line, parserBufferSize)
+					kname, err := p.readValue(line)
 					if err != nil {
 						return err
 					}
@@ -501,7 +466,7 @@ func (f *File) parse(reader io.Reader) (err error) {
 			p.count++
 		}
 
-		value, err := p.readValue(line[offset:], parserBufferSize)
+		value, err := p.readValue(line[offset:])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 9e1095b7e3c7843b21c4019cf529207c796781cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 22/64] fix: take CRLF line ends off Python-style multi-line
 values

The lines of such values are joined by \n, but all lines except for the
first kept the carriage return of a CRLF line end.
---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 8a867ec..79a5dc2 100644
--- a/parser.go
+++ b/parser.go
@@ -320,7 +320,7 @@ func (p *parser) readPythonMultilines(line string) (string, error) {
 		}
 		p.debug("readPythonMultilines: parsing %q", string(data))
 
-		line += "\n" + strings.TrimSuffix(string(data), "\n")
+		line += "\n" + strings.TrimSuffix(strings.TrimSuffix(string(data), "\n"), "\r")
 	}
 }
 
-- 
2.43.0


From 4045bf72b361316a63d2546f0a64850b87d7fbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:28 +0000
Subject: [PATCH 23/64] fix: start the inline comment at the first comment
 symbol

With SpaceBeforeInlineComment a # later in the line took precedence over
the ; that started the comment, which became part of the value.
---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 79a5dc2..012b0f7 100644
--- a/parser.go
+++ b/parser.go
@@ -270,8 +270,8 @@ func (p *parser) readValue(in []byte) (string, error) {
 		var i int
 		if p.options.SpaceBeforeInlineComment {
 			i = strings.Index(line, " #")
-			if i == -1 {
-				i = strings.Index(line, " ;")
+			if j := strings.Index(line, " ;"); j > -1 && (i == -1 || j < i) {
+				i = j
 			}
 
 		} else {
-- 
2.43.0


From 83637e7d5d657e3ca3758de97941884ecebcb3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 24/64] fix: keep the key hash up to date when Must accessors
 set the default

---
 key.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/key.go b/key.go
index 517bf13..368a142 100644
--- a/key.go
+++ b/key.go
@@ -252,7 +252,7 @@ func (k *Key) Time() (time.Time, error) {
 func (k *Key) MustString(defaultVal string) string {
 	val := k.String()
 	if len(val) == 0 {
-		k.value = defaultVal
+		k.SetValue(defaultVal)
 		return defaultVal
 	}
 	return val
@@ -263,7 +263,7 @@ func (k *Key) MustString(defaultVal string) string {
 func (k *Key) MustBool(defaultVal ...bool) bool {
 	val, err := k.Bool()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatBool(defaultVal[0])
+		k.SetValue(strconv.FormatBool(defaultVal[0]))
 		return defaultVal[0]
 	}
 	return val
@@ -274,7 +274,7 @@ func (k *Key) MustBool(defaultVal ...bool) bool {
 func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 	val, err := k.Float64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatFloat(defaultVal[0], 'f', -1, 64)
+		k.SetValue(strconv.FormatFloat(defaultVal[0], 'f', -1, 64))
 		return defaultVal[0]
 	}
 	return val
@@ -285,7 +285,7 @@ func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 func (k *Key) MustInt(defaultVal ...int) int {
 	val, err := k.Int()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatInt(int64(defaultVal[0]), 10)
+		k.SetValue(strconv.FormatInt(int64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
 	return val
@@ -296,7 +296,7 @@ func (k *Key) MustInt(defaultVal ...int) int {
 func (k *Key) MustInt64(defaultVal ...int64) int64 {
 	val, err := k.Int64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatInt(defaultVal[0], 10)
+		k.SetValue(strconv.FormatInt(defaultVal[0], 10))
 		return defaultVal[0]
 	}
 	return val
@@ -307,7 +307,7 @@ func (k *Key) MustInt64(defaultVal ...int64) int64 {
 func (k *Key) MustUint(defaultVal ...uint) uint {
 	val, err := k.Uint()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatUint(uint64(defaultVal[0]), 10)
+		k.SetValue(strconv.FormatUint(uint64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
 	return val
@@ -318,7 +318,7 @@ func (k *Key) MustUint(defaultVal ...uint) uint {
 func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 	val, err := k.Uint64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatUint(defaultVal[0], 10)
+		k.SetValue(strconv.FormatUint(defaultVal[0], 10))
 		return defaultVal[0]
 	}
 	return val
@@ -329,7 +329,7 @@ func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 	val, err := k.Duration()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = defaultVal[0].String()
+		k.SetValue(defaultVal[0].String())
 		return defaultVal[0]
 	}
 	return val
@@ -340,7 +340,7 @@ func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 func (k *Key) MustTimeFormat(format string, defaultVal ...time.Time) time.Time {
 	val, err := k.TimeFormat(format)
 	if len(defaultVal) > 0 && err != nil {
-		k.value = defaultVal[0].Format(format)
+		k.SetValue(defaultVal[0].Format(format))
 		return defaultVal[0]
 	}
 	return val
-- 
2.43.0


From ed39ff08e297d882b95cf6136033513a4ba0251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:31 +0000
Subject: [PATCH 25/64] fix: setting a deleted key does not put it back into
 the key hash

---
 key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 368a142..71f4f9f 100644
--- a/key.go
+++ b/key.go
@@ -841,5 +841,8 @@ func (k *Key) SetValue(v string) {
 	}
 
 	k.value = v
-	k.s.keysHash[k.name] = v
+	// The key may have been deleted from its section meanwhile
+	if k.s.keys[k.name] == k {
+		k.s.keysHash[k.name] = v
+	}
 }
-- 
2.43.0


From e025efb47ab414aaa2a7000f160f0e9320578223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 26/64] fix: numbers out of range are zero when no default is
 given

As documented for any other text that does not convert. The Must accessors
and the lists returned the largest or smallest number instead.
---
 key.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 71f4f9f..8c5964b 100644
--- a/key.go
+++ b/key.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"reflect"
 	"strconv"
 	"strings"
 	"time"
@@ -276,6 +277,8 @@ func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 	if len(defaultVal) > 0 && err != nil {
 		k.SetValue(strconv.FormatFloat(defaultVal[0], 'f', -1, 64))
 		return defaultVal[0]
+	} else if err != nil {
+		return 0
 	}
 	return val
 }
@@ -287,6 +290,8 @@ func (k *Key) MustInt(defaultVal ...int) int {
 	if len(defaultVal) > 0 && err != nil {
 		k.SetValue(strconv.FormatInt(int64(defaultVal[0]), 10))
 		return defaultVal[0]
+	} else if err != nil {
+		return 0
 	}
 	return val
 }
@@ -298,6 +303,8 @@ func (k *Key) MustInt64(defaultVal ...int64) int64 {
 	if len(defaultVal) > 0 && err != nil {
 		k.SetValue(strconv.FormatInt(defaultVal[0], 10))
 		return defaultVal[0]
+	} else if err != nil {
+		return 0
 	}
 	return val
 }
@@ -309,6 +316,8 @@ func (k *Key) MustUint(defaultVal ...uint) uint {
 	if len(defaultVal) > 0 && err != nil {
 		k.SetValue(strconv.FormatUint(uint64(defaultVal[0]), 10))
 		return defaultVal[0]
+	} else if err != nil {
+		return 0
 	}
 	return val
 }
@@ -320,6 +329,8 @@ func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 	if len(defaultVal) > 0 && err != nil {
 		k.SetValue(strconv.FormatUint(defaultVal[0], 10))
 		return defaultVal[0]
+	} else if err != nil {
+		return 0
 	}
 	return val
 }
@@ -826,8 +837,11 @@ func (k *Key) doParse(strs []string, addInvalid, returnOnInvalid bool, parser Pa
 		if err != nil && returnOnInvalid {
 			return nil, err
 		}
-		if err == nil || addInvalid {
+		if err == nil {
 			vals = append(vals, val)
+		} else if addInvalid {
+			// The parser may return the nearest value for a number out of range
+			vals = append(vals, reflect.Zero(reflect.TypeOf(val)).Interface())
 		}
 	}
 	return vals, nil
-- 
2.43.0


From 23aa728cd56bffd13d519ff50913f3c1643d5c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 27/64] fix: In accessors return the default when the value
 does not convert

As documented. They took it for zero, which may be among the candidates.
---
 key.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/key.go b/key.go
index 8c5964b..b5d9e14 100644
--- a/key.go
+++ b/key.go
@@ -378,7 +378,10 @@ func (k *Key) In(defaultVal string, candidates []string) string {
 // InFloat64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InFloat64(defaultVal float64, candidates []float64) float64 {
-	val := k.MustFloat64()
+	val, err := k.Float64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -390,7 +393,10 @@ func (k *Key) InFloat64(defaultVal float64, candidates []float64) float64 {
 // InInt always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InInt(defaultVal int, candidates []int) int {
-	val := k.MustInt()
+	val, err := k.Int()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -402,7 +408,10 @@ func (k *Key) InInt(defaultVal int, candidates []int) int {
 // InInt64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InInt64(defaultVal int64, candidates []int64) int64 {
-	val := k.MustInt64()
+	val, err := k.Int64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -414,7 +423,10 @@ func (k *Key) InInt64(defaultVal int64, candidates []int64) int64 {
 // InUint always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InUint(defaultVal uint, candidates []uint) uint {
-	val := k.MustUint()
+	val, err := k.Uint()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -426,7 +438,10 @@ func (k *Key) InUint(defaultVal uint, candidates []uint) uint {
 // InUint64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InUint64(defaultVal uint64, candidates []uint64) uint64 {
-	val := k.MustUint64()
+	val, err := k.Uint64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -438,7 +453,10 @@ func (k *Key) InUint64(defaultVal uint64, candidates []uint64) uint64 {
 // InTimeFormat always parses with given format and returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InTimeFormat(format string, defaultVal time.Time, candidates []time.Time) time.Time {
-	val := k.MustTimeFormat(format)
+	val, err := k.TimeFormat(format)
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
-- 
2.43.0


From 83cec6910a7745c6c4c26b6696558e0373767cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:04 +0000
Subject: [PATCH 28/64] fix: InTime compares instants

Times with a numeric zone offset never equalled any candidate because
each parsed time has a location of its own.
---
 key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key.go b/key.go
index b5d9e14..4e98780 100644
--- a/key.go
+++ b/key.go
@@ -458,7 +458,7 @@ func (k *Key) InTimeFormat(format string, defaultVal time.Time, candidates []tim
 		return defaultVal
 	}
 	for _, cand := range candidates {
-		if val == cand {
+		if val.Equal(cand) {
 			return val
 		}
 	}
-- 
2.43.0


From 6bd5836f792b4e357d5a5e67cf8163c998e8e466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:05 +0000
Subject: [PATCH 29/64] fix: SectionWithIndex with an empty name is never nil

---
 file.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/file.go b/file.go
index e69c3ea..614607d 100644
--- a/file.go
+++ b/file.go
@@ -189,6 +189,9 @@ func (f *File) SectionWithIndex(name string, index int) *Section {
 	if err != nil || len(secs) <= index {
 		// NOTE: It's OK here because the only possible error is empty section name,
 		// but if it's empty, this piece of code won't be executed.
+		if name == "" {
+			name = DefaultSection
+		}
 		newSec, _ := f.NewSection(name)
 		return newSec
 	}
-- 
2.43.0


From 5bc138a63e448641be4493f8004ab0ac873283d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 30/64] fix: list every non-unique child section once

ChildSections listed all sections of a name once per section of that name.
---
 section.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/section.go b/section.go
index 2b1e2b9..3fa7d99 100644
--- a/section.go
+++ b/section.go
@@ -251,9 +251,9 @@ func (s *Section) DeleteKey(name string) {
 func (s *Section) ChildSections() []*Section {
 	prefix := s.name + s.f.options.ChildSectionDelimiter
 	children := make([]*Section, 0, 3)
-	for _, name := range s.f.sectionList {
+	for i, name := range s.f.sectionList {
 		if strings.HasPrefix(name, prefix) {
-			children = append(children, s.f.sections[name]...)
+			children = append(children, s.f.sections[name][s.f.sectionIndexes[i]])
 		}
 	}
 	return children
-- 
2.43.0


From 9bbfed60abcf6d13fe2be251c2d27b26bad9e83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 31/64] fix: return copies of section lists and nested values

Changing them changed the file, and deleting a section changed the list
a caller had got from SectionsByName before.
---
 file.go | 2 +-
 key.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index 614607d..b2ec5ef 100644
--- a/file.go
+++ b/file.go
@@ -167,7 +167,7 @@ func (f *File) SectionsByName(name string) ([]*Section, error) {
 		return nil, fmt.Errorf("section %q does not exist", name)
 	}
 
-	return secs, nil
+	return append([]*Section(nil), secs...), nil
 }
 
 // Section assumes named section exists and returns a zero-value when not.
diff --git a/key.go b/key.go
index 4e98780..924f424 100644
--- a/key.go
+++ b/key.go
@@ -136,7 +136,7 @@ func (k *Key) ValueWithShadows() []string {
 // NestedValues returns nested values stored in the key.
 // It is possible returned value is nil if no nested values stored in the key.
 func (k *Key) NestedValues() []string {
-	return k.nestedValues
+	return append([]string(nil), k.nestedValues...)
 }
 
 // transformValue takes a raw value and transforms to its final string.
-- 
2.43.0


From d0a3895ecf25a73a1bef54870dbeb44ca9728e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 32/64] fix: end a raw section body before the next section

With PrettySection turned off the header of the next section became part
of a body without final line break.
---
 file.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/file.go b/file.go
index b2ec5ef..b375620 100644
--- a/file.go
+++ b/file.go
@@ -428,6 +428,12 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			if _, err := buf.WriteString(sec.rawBody); err != nil {
 				return nil, err
 			}
+			// The following section must start on its own line
+			if !isLastSection && len(sec.rawBody) > 0 && !strings.HasSuffix(sec.rawBody, "\n") {
+				if _, err := buf.WriteString(LineBreak); err != nil {
+					return nil, err
+				}
+			}
 
 			if PrettySection && !isLastSection {
 				// Put a line between sections
-- 
2.43.0


From 27aa2ca51d5046fe8ab126a3fc2c84bbbecd3a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:36 +0000
Subject: [PATCH 33/64] fix: keep one default section for all sources with
 non-unique sections

Each source added another default section, so default keys of all sources
but the first could not be looked up, and reloading added one each time.
---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 012b0f7..47eb2d5 100644
--- a/parser.go
+++ b/parser.go
@@ -346,7 +346,11 @@ func (f *File) parse(reader io.Reader) (err error) {
 	if f.options.Insensitive || f.options.InsensitiveSections {
 		name = strings.ToLower(DefaultSection)
 	}
-	section, _ := f.NewSection(name)
+	// Every source starts in the same default section, even when section names are not unique.
+	section, err := f.GetSection(name)
+	if err != nil {
+		section, _ = f.NewSection(name)
+	}
 
 	// This "last" is not strictly equivalent to "previous one" if current key is not the first nested key
 	var isLastValueEmpty bool
-- 
2.43.0


From 98969aa480ffe630a4da0e688d3ba53d32c38660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 34/64] fix: reloading does not duplicate nested values

A key that is read again takes its last value, but its nested values piled
up, also with each Reload and Append.
---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index 47eb2d5..c0618c9 100644
--- a/parser.go
+++ b/parser.go
@@ -480,6 +480,10 @@ func (f *File) parse(reader io.Reader) (err error) {
 		if err != nil {
 			return err
 		}
+		if !f.options.AllowShadows {
+			// The new value replaces nested values read before as well
+			key.nestedValues = nil
+		}
 		key.isAutoIncrement = isAutoIncr
 		key.Comment = strings.TrimSpace(p.comment.String())
 		p.comment.Reset()
-- 
2.43.0


From 2e7ccb12a3b13cf516f1988d6756216b9cf9b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:54 +0000
Subject: [PATCH 35/64] fix: reloading does not duplicate raw section bodies

The body read from a source was appended to the one read before, with
each Reload and Append once more.
---
 parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.go b/parser.go
index c0618c9..97274ea 100644
--- a/parser.go
+++ b/parser.go
@@ -358,6 +358,8 @@ func (f *File) parse(reader io.Reader) (err error) {
 
 	var line []byte
 	var inUnparseableSection bool
+	// Sections whose raw body is read from this source
+	rawSections := make(map[*Section]bool)
 
 	for !p.isEOF {
 		line, err = p.readUntil('\n')
@@ -429,6 +431,10 @@ func (f *File) parse(reader io.Reader) (err error) {
 		}
 
 		if inUnparseableSection {
+			if !rawSections[section] {
+				rawSections[section] = true
+				section.rawBody = ""
+			}
 			section.isRawSection = true
 			section.rawBody += string(line)
 			continue
-- 
2.43.0


From e61d4d2878dd125d84b36b04345399fe0ed2634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 36/64] fix: write the value of a boolean key that is not true

A boolean key that was given another value was written without it and
read back as true.
---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index b375620..263ca1a 100644
--- a/file.go
+++ b/file.go
@@ -500,7 +500,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 					return false, err
 				}
 
-				if key.isBooleanType {
+				if key.isBooleanType && val == "true" {
 					buf.WriteString(LineBreak)
 					return true, nil
 				}
-- 
2.43.0


From f7d7b37b6e3983d6a7baa4f41d68bf812fa36581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 37/64] fix: Section.Key does not overwrite a key created
 concurrently

Between looking up the key and creating it another goroutine may have
created it, and its value was replaced by an empty one.
---
 section.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/section.go b/section.go
index 3fa7d99..064ec2b 100644
--- a/section.go
+++ b/section.go
@@ -64,6 +64,12 @@ func (s *Section) SetBody(body string) {
 
 // NewKey creates a new key to given section.
 func (s *Section) NewKey(name, val string) (*Key, error) {
+	return s.addKey(name, val, false)
+}
+
+// addKey creates a new key to given section, or sets the existing one unless
+// it should be kept as it is.
+func (s *Section) addKey(name, val string, keepExisting bool) (*Key, error) {
 	if len(name) == 0 {
 		return nil, errors.New("error creating new key: empty key name")
 	} else if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
@@ -76,7 +82,9 @@ func (s *Section) NewKey(name, val string) (*Key, error) {
 	}
 
 	if inSlice(name, s.keyList) {
-		if s.f.options.AllowShadows {
+		if keepExisting {
+			return s.keys[name], nil
+		} else if s.f.options.AllowShadows {
 			if err := s.keys[name].addShadow(val); err != nil {
 				return nil, err
 			}
@@ -168,7 +176,8 @@ func (s *Section) Key(name string) *Key {
 	if err != nil {
 		// It's OK here because the only possible error is empty key name,
 		// but if it's empty, this piece of code won't be executed.
-		key, _ = s.NewKey(name, "")
+		// Another goroutine may have created the key meanwhile, so it must not be overwritten.
+		key, _ = s.addKey(name, "", true)
 		return key
 	}
 	return key
-- 
2.43.0


From 63c1482d2c8a9857da70407df581432814b3d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 38/64] fix: take the lock for all accesses in block mode

Reading values, listing names, keys and child sections, and adding shadow
and nested values did not take the lock and raced with updates.
---
 file.go    | 10 ++++++++++
 key.go     | 29 +++++++++++++++++++++++++++--
 section.go | 32 +++++++++++++++++++++++++++++++-
 3 files changed, 68 insertions(+), 3 deletions(-)

diff --git a/file.go b/file.go
index 263ca1a..0172523 100644
--- a/file.go
+++ b/file.go
@@ -117,6 +117,11 @@ func (f *File) NewRawSection(name, body string) (*Section, error) {
 		return nil, err
 	}
 
+	if f.BlockMode {
+		f.lock.Lock()
+		defer f.lock.Unlock()
+	}
+
 	section.isRawSection = true
 	section.rawBody = body
 	return section, nil
@@ -220,6 +225,11 @@ func (f *File) ChildSections(name string) []*Section {
 
 // SectionStrings returns list of section names.
 func (f *File) SectionStrings() []string {
+	if f.BlockMode {
+		f.lock.RLock()
+		defer f.lock.RUnlock()
+	}
+
 	list := make([]string, len(f.sectionList))
 	copy(list, f.sectionList)
 	return list
diff --git a/key.go b/key.go
index 924f424..6d08841 100644
--- a/key.go
+++ b/key.go
@@ -78,6 +78,11 @@ func (k *Key) AddShadow(val string) error {
 	if !k.s.f.options.AllowShadows {
 		return errors.New("shadow key is not allowed")
 	}
+
+	if k.s.f.BlockMode {
+		k.s.f.lock.Lock()
+		defer k.s.f.lock.Unlock()
+	}
 	return k.addShadow(val)
 }
 
@@ -95,6 +100,11 @@ func (k *Key) AddNestedValue(val string) error {
 	if !k.s.f.options.AllowNestedValues {
 		return errors.New("nested value is not allowed")
 	}
+
+	if k.s.f.BlockMode {
+		k.s.f.lock.Lock()
+		defer k.s.f.lock.Unlock()
+	}
 	return k.addNestedValue(val)
 }
 
@@ -108,12 +118,22 @@ func (k *Key) Name() string {
 
 // Value returns raw value of key for performance purpose.
 func (k *Key) Value() string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
 	return k.value
 }
 
 // ValueWithShadows returns raw values of key and its shadows if any. Shadow
 // keys with empty values are ignored from the returned list.
 func (k *Key) ValueWithShadows() []string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
 	if len(k.shadows) == 0 {
 		if k.value == "" {
 			return []string{}
@@ -136,6 +156,11 @@ func (k *Key) ValueWithShadows() []string {
 // NestedValues returns nested values stored in the key.
 // It is possible returned value is nil if no nested values stored in the key.
 func (k *Key) NestedValues() []string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
 	return append([]string(nil), k.nestedValues...)
 }
 
@@ -171,14 +196,14 @@ func (k *Key) transformValue(val string) string {
 		}
 
 		// Substitute by new value and take off leading '%(' and trailing ')s'.
-		val = strings.Replace(val, vr, nk.value, -1)
+		val = strings.Replace(val, vr, nk.Value(), -1)
 	}
 	return val
 }
 
 // String returns string representation of value.
 func (k *Key) String() string {
-	return k.transformValue(k.value)
+	return k.transformValue(k.Value())
 }
 
 // Validate accepts a validate function which can
diff --git a/section.go b/section.go
index 064ec2b..9b0b610 100644
--- a/section.go
+++ b/section.go
@@ -51,11 +51,21 @@ func (s *Section) Name() string {
 // Body returns rawBody of Section if the section was marked as unparseable.
 // It still follows the other rules of the INI format surrounding leading/trailing whitespace.
 func (s *Section) Body() string {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	return strings.TrimSpace(s.rawBody)
 }
 
 // SetBody updates body content only if section is raw.
 func (s *Section) SetBody(body string) {
+	if s.f.BlockMode {
+		s.f.lock.Lock()
+		defer s.f.lock.Unlock()
+	}
+
 	if !s.isRawSection {
 		return
 	}
@@ -108,6 +118,11 @@ func (s *Section) NewBooleanKey(name string) (*Key, error) {
 		return nil, err
 	}
 
+	if s.f.BlockMode {
+		s.f.lock.Lock()
+		defer s.f.lock.Unlock()
+	}
+
 	key.isBooleanType = true
 	return key, nil
 }
@@ -185,9 +200,14 @@ func (s *Section) Key(name string) *Key {
 
 // Keys returns list of keys of section.
 func (s *Section) Keys() []*Key {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	keys := make([]*Key, len(s.keyList))
 	for i := range s.keyList {
-		keys[i] = s.Key(s.keyList[i])
+		keys[i] = s.keys[s.keyList[i]]
 	}
 	return keys
 }
@@ -214,6 +234,11 @@ func (s *Section) ParentKeys() []*Key {
 
 // KeyStrings returns list of key names of section.
 func (s *Section) KeyStrings() []string {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	list := make([]string, len(s.keyList))
 	copy(list, s.keyList)
 	return list
@@ -258,6 +283,11 @@ func (s *Section) DeleteKey(name string) {
 // For example, "[parent.child1]" and "[parent.child12]" are child sections
 // of section "[parent]".
 func (s *Section) ChildSections() []*Section {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	prefix := s.name + s.f.options.ChildSectionDelimiter
 	children := make([]*Section, 0, 3)
 	for i, name := range s.f.sectionList {
-- 
2.43.0


From 9f8ed9d725daf83209bc8a741e3929c3027c41ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 39/64] fix: reading a value does not create the default
 section

A reference that resolves nowhere brought a deleted default section back.
---
 key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 6d08841..3a9271d 100644
--- a/key.go
+++ b/key.go
@@ -187,7 +187,10 @@ func (k *Key) transformValue(val string) string {
 		// If not found or found the key itself, then search again in default section.
 		nk, err := k.s.GetKey(noption)
 		if err != nil || k == nk {
-			nk, _ = k.s.f.Section("").GetKey(noption)
+			nk = nil
+			if sec, err := k.s.f.GetSection(""); err == nil {
+				nk, _ = sec.GetKey(noption)
+			}
 			if nk == nil {
 				// Stop when no results found in the default section,
 				// and returns the value as-is.
-- 
2.43.0


From 828bc16d8b81b69fd523f8cf5040e793702deb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 40/64] fix: keep the inline comment after a quoted single-line
 value

Such comments were dropped, while those after bare and multi-line values
become the comment of the key.
---
 parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser.go b/parser.go
index 97274ea..9c64dfc 100644
--- a/parser.go
+++ b/parser.go
@@ -249,6 +249,13 @@ func (p *parser) readValue(in []byte) (string, error) {
 			return p.readMultilines(line, line[startIdx:], valQuote)
 		}
 
+		if !p.options.IgnoreInlineComment {
+			comment, has := cleanComment([]byte(line[pos+startIdx:]))
+			if has {
+				p.comment.Write(bytes.TrimSpace(comment))
+			}
+		}
+
 		if p.options.UnescapeValueDoubleQuotes && valQuote == `"` {
 			return strings.Replace(line[startIdx:pos+startIdx], `\"`, `"`, -1), nil
 		}
-- 
2.43.0


From 945acf6a3a5fd513519dd1c0736f49368b8333ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 41/64] fix: read Python-style multi-line values while
 unescaping comment symbols

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 9c64dfc..45400ed 100644
--- a/parser.go
+++ b/parser.go
@@ -299,6 +299,9 @@ func (p *parser) readValue(in []byte) (string, error) {
 	} else if len(valQuote) == 0 && p.options.UnescapeValueCommentSymbols {
 		line = strings.ReplaceAll(line, `\;`, ";")
 		line = strings.ReplaceAll(line, `\#`, "#")
+		if p.options.AllowPythonMultilineValues && lastChar == '\n' {
+			return p.readPythonMultilines(line)
+		}
 	} else if p.options.AllowPythonMultilineValues && lastChar == '\n' {
 		return p.readPythonMultilines(line)
 	}
-- 
2.43.0


From d36c3a03c7d48fecdec30d408ea41cd4ec9eb429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:23 +0000
Subject: [PATCH 42/64] fix: quote key names that start with a byte-order mark

---
 file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 0172523..fe54af9 100644
--- a/file.go
+++ b/file.go
@@ -384,7 +384,9 @@ func (f *File) quoteKeyName(name string, isBoolean bool) string {
 	case strings.Contains(name, "`"):
 		return `"""` + name + `"""`
 	case strings.ContainsAny(name, `"`+f.options.KeyValueDelimiters),
-		strings.IndexAny(name, "#;[") == 0:
+		strings.IndexAny(name, "#;[") == 0,
+		// At the beginning of the output it would be taken for a byte-order mark
+		strings.HasPrefix(name, "\ufeff"), strings.HasPrefix(name, "\xfe\xff"), strings.HasPrefix(name, "\xff\xfe"):
 		return "`" + name + "`"
 	case isBoolean:
 		return f.quoteValue(name)
-- 
2.43.0


From 7a9202b1754c4f152678419b9fc87ae90547ee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 43/64] fix: no header for the first default section with
 non-unique sections

---
 file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index fe54af9..65c5e3f 100644
--- a/file.go
+++ b/file.go
@@ -424,7 +424,9 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 
 		isDefault := sname == DefaultSection ||
 			((f.options.Insensitive || f.options.InsensitiveSections) && sname == strings.ToLower(DefaultSection))
-		if i > 0 || DefaultHeader || !isDefault {
+		// With non-unique sections, the header would be read as a further section
+		hasDefaultHeader := DefaultHeader && !f.options.AllowNonUniqueSections
+		if i > 0 || hasDefaultHeader || !isDefault {
 			if _, err := buf.WriteString("[" + sname + "]" + LineBreak); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From cf35403cf9ff77bfa09b5049290486293bcac7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 44/64] fix: keep the comment of a key when its shadow values
 are read

Every line of a key with shadow values replaced the comment of the key, so a
comment in front of the first line was lost when the file was loaded, and a
written file did not give its comments back.
---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 45400ed..6353cf0 100644
--- a/parser.go
+++ b/parser.go
@@ -501,7 +501,10 @@ func (f *File) parse(reader io.Reader) (err error) {
 			key.nestedValues = nil
 		}
 		key.isAutoIncrement = isAutoIncr
-		key.Comment = strings.TrimSpace(p.comment.String())
+		// A line that adds a shadow keeps the comment of the key unless it has its own
+		if comment := strings.TrimSpace(p.comment.String()); !f.options.AllowShadows || len(comment) > 0 {
+			key.Comment = comment
+		}
 		p.comment.Reset()
 		lastRegularKey = key
 	}
-- 
2.43.0


From 617b645536a5a6641f13c113219dc13ca34716ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 45/64] fix: quote the name of a boolean key that has been
 given a value like others

Its line has a value then, so its name is read as a key name. It was quoted as
needed for a line without a value, so that reading and writing it again gave a
different line.
---
 file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index 65c5e3f..0659292 100644
--- a/file.go
+++ b/file.go
@@ -466,7 +466,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			for _, kname := range sec.keyList {
 				keyLength := len(kname)
 				if key := sec.keys[kname]; !key.isAutoIncrement {
-					keyLength = len(f.quoteKeyName(kname, key.isBooleanType))
+					keyLength = len(f.quoteKeyName(kname, key.isBooleanType && key.value == "true"))
 				}
 
 				if keyLength > alignLength {
@@ -506,7 +506,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			if key.isAutoIncrement {
 				kname = "-"
 			} else {
-				kname = f.quoteKeyName(kname, key.isBooleanType)
+				kname = f.quoteKeyName(kname, key.isBooleanType && key.value == "true")
 			}
 
 			writeKeyValue := func(val string) (bool, error) {
-- 
2.43.0


From 185ae838c504f8929a9f3c80698d9207540afb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 46/64] fix: compare times with the bounds of RangeTime to full
 precision

---
 key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 3a9271d..df3a77b 100644
--- a/key.go
+++ b/key.go
@@ -533,7 +533,7 @@ func (k *Key) RangeInt64(defaultVal, min, max int64) int64 {
 // and returns default value if it's not.
 func (k *Key) RangeTimeFormat(format string, defaultVal, min, max time.Time) time.Time {
 	val := k.MustTimeFormat(format)
-	if val.Unix() < min.Unix() || val.Unix() > max.Unix() {
+	if val.Before(min) || val.After(max) {
 		return defaultVal
 	}
 	return val
-- 
2.43.0


From 7a38ef0fe099009ff6a69d7c92f82281f381b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 47/64] fix: reflect into the section's own keys instead of
 inherited ones

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 7d8879f..dfa1d07 100644
--- a/struct.go
+++ b/struct.go
@@ -696,7 +696,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 
 		// Note: Same reason as section.
 		key, err := s.GetKey(fieldName)
-		if err != nil {
+		if err != nil || key.s != s {
 			key, _ = s.NewKey(fieldName, "")
 		}
 
-- 
2.43.0


From 832febbd3e6ae44c00172e183a00f48b4931f7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:01 +0000
Subject: [PATCH 48/64] fix: mapping to something other than a struct is an
 error, not a panic

---
 struct.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/struct.go b/struct.go
index dfa1d07..800c6e2 100644
--- a/struct.go
+++ b/struct.go
@@ -399,16 +399,13 @@ func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (
 
 // mapTo maps a section to object v.
 func (s *Section) mapTo(v interface{}, isStrict bool) error {
-	typ := reflect.TypeOf(v)
 	val := reflect.ValueOf(v)
-	if typ.Kind() == reflect.Ptr {
-		typ = typ.Elem()
-		val = val.Elem()
-	} else {
+	if val.Kind() != reflect.Ptr || val.IsNil() {
 		return errors.New("not a pointer to a struct")
 	}
+	val = val.Elem()
 
-	if typ.Kind() == reflect.Slice {
+	if val.Kind() == reflect.Slice {
 		newField, err := s.mapToSlice(s.name, val, isStrict)
 		if err != nil {
 			return err
@@ -418,6 +415,9 @@ func (s *Section) mapTo(v interface{}, isStrict bool) error {
 		return nil
 	}
 
+	if reflect.Indirect(val).Kind() != reflect.Struct {
+		return errors.New("not a pointer to a struct")
+	}
 	return s.mapToField(val, isStrict, 0, s.name)
 }
 
-- 
2.43.0


From 08aea6132ca2736766c6552f202f491f74b7ec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 49/64] fix: reflecting something other than a struct is an
 error, not a panic

---
 struct.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index 800c6e2..ba91b41 100644
--- a/struct.go
+++ b/struct.go
@@ -719,8 +719,17 @@ func (s *Section) ReflectFrom(v interface{}) error {
 	typ := reflect.TypeOf(v)
 	val := reflect.ValueOf(v)
 
+	if val.Kind() == reflect.Ptr && reflect.Indirect(val.Elem()).Kind() != reflect.Struct {
+		return errors.New("not a pointer to a struct")
+	}
+
 	if s.name != DefaultSection && s.f.options.AllowNonUniqueSections &&
-		(typ.Kind() == reflect.Slice || typ.Kind() == reflect.Ptr) {
+		(val.Kind() == reflect.Slice || val.Kind() == reflect.Ptr) {
+		if val.Kind() == reflect.Slice &&
+			(typ.Elem().Kind() != reflect.Ptr || typ.Elem().Elem().Kind() != reflect.Struct) {
+			return fmt.Errorf("not a slice of pointers")
+		}
+
 		// Clear sections to make sure none exists before adding the new ones
 		s.f.DeleteSection(s.name)
 
@@ -733,11 +742,6 @@ func (s *Section) ReflectFrom(v interface{}) error {
 		}
 
 		slice := val.Slice(0, val.Len())
-		sliceOf := val.Type().Elem().Kind()
-		if sliceOf != reflect.Ptr {
-			return fmt.Errorf("not a slice of pointers")
-		}
-
 		for i := 0; i < slice.Len(); i++ {
 			sec, err := s.f.NewSection(s.name)
 			if err != nil {
@@ -753,7 +757,7 @@ func (s *Section) ReflectFrom(v interface{}) error {
 		return nil
 	}
 
-	if typ.Kind() == reflect.Ptr {
+	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	} else {
 		return errors.New("not a pointer to a struct")
-- 
2.43.0


From e16031fb53f28e7293702c196fd2ce702783743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 50/64] fix: mapping a non-unique slice without sections is not
 an error

---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index ba91b41..182d610 100644
--- a/struct.go
+++ b/struct.go
@@ -348,6 +348,9 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 
 		// Map non-unique sections
 		if allowNonUnique && tpField.Type.Kind() == reflect.Slice {
+			if !s.f.HasSection(fieldName) {
+				continue
+			}
 			newField, err := s.mapToSlice(fieldName, field, isStrict)
 			if err != nil {
 				return fmt.Errorf("map to slice %q: %v", fieldName, err)
-- 
2.43.0


From ebec202858260c31de1e5eb3bfd1ffbd50f2100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:27 +0000
Subject: [PATCH 51/64] fix: reflect structs nested in non-unique elements to
 their own sections

---
 struct.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/struct.go b/struct.go
index 182d610..f363655 100644
--- a/struct.go
+++ b/struct.go
@@ -595,7 +595,9 @@ type StructReflector interface {
 	ReflectINIStruct(*File) error
 }
 
-func (s *Section) reflectFrom(val reflect.Value) error {
+// reflectFrom reflects the given value to the section. The sectionIndex is the index (if non unique sections
+// are enabled) of the sections that nested structs are reflected to.
+func (s *Section) reflectFrom(val reflect.Value, sectionIndex int) error {
 	if val.Kind() == reflect.Ptr {
 		if val.IsNil() {
 			return nil
@@ -641,7 +643,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		}
 
 		if extends && tpField.Anonymous && (tpField.Type.Kind() == reflect.Ptr || tpField.Type.Kind() == reflect.Struct) {
-			if err := s.reflectFrom(field); err != nil {
+			if err := s.reflectFrom(field, sectionIndex); err != nil {
 				return fmt.Errorf("reflect from field %q: %v", fieldName, err)
 			}
 			continue
@@ -651,8 +653,10 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			tpField.Type.Elem() != reflect.TypeOf(time.Time{})) ||
 			(tpField.Type.Kind() == reflect.Struct && tpField.Type != reflect.TypeOf(time.Time{})) {
 			// Note: The only error here is section doesn't exist.
-			sec, err := s.f.GetSection(fieldName)
-			if err != nil {
+			var sec *Section
+			if secs, err := s.f.SectionsByName(fieldName); err == nil && sectionIndex < len(secs) {
+				sec = secs[sectionIndex]
+			} else {
 				// Note: fieldName can never be empty here, ignore error.
 				sec, _ = s.f.NewSection(fieldName)
 			}
@@ -662,7 +666,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 				sec.Comment = tpField.Tag.Get("comment")
 			}
 
-			if err = sec.reflectFrom(field); err != nil {
+			if err := sec.reflectFrom(field, sectionIndex); err != nil {
 				return fmt.Errorf("reflect from field %q: %v", fieldName, err)
 			}
 			continue
@@ -675,6 +679,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			}
 			sliceOf := field.Type().Elem().Kind()
 
+			existing, _ := s.f.SectionsByName(fieldName)
 			for i := 0; i < field.Len(); i++ {
 				if sliceOf != reflect.Struct && sliceOf != reflect.Ptr {
 					return fmt.Errorf("field %q is not a slice of pointer or struct", fieldName)
@@ -690,7 +695,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 					sec.Comment = tpField.Tag.Get("comment")
 				}
 
-				if err := sec.reflectFrom(slice.Index(i)); err != nil {
+				if err := sec.reflectFrom(slice.Index(i), len(existing)+i); err != nil {
 					return fmt.Errorf("reflect from field %q: %v", fieldName, err)
 				}
 			}
@@ -741,7 +746,7 @@ func (s *Section) ReflectFrom(v interface{}) error {
 			if err != nil {
 				return err
 			}
-			return sec.reflectFrom(val.Elem())
+			return sec.reflectFrom(val.Elem(), 0)
 		}
 
 		slice := val.Slice(0, val.Len())
@@ -751,7 +756,7 @@ func (s *Section) ReflectFrom(v interface{}) error {
 				return err
 			}
 
-			err = sec.reflectFrom(slice.Index(i))
+			err = sec.reflectFrom(slice.Index(i), i)
 			if err != nil {
 				return fmt.Errorf("reflect from %dth field: %v", i, err)
 			}
@@ -766,7 +771,7 @@ func (s *Section) ReflectFrom(v interface{}) error {
 		return errors.New("not a pointer to a struct")
 	}
 
-	return s.reflectFrom(val)
+	return s.reflectFrom(val, 0)
 }
 
 // ReflectFrom reflects file from given struct.
-- 
2.43.0


From f6bf771bbf00c4fc3003e501392346ffeb8ea49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:40 +0000
Subject: [PATCH 52/64] fix: treat embedded pointers to other than structs like
 other fields

---
 struct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index f363655..a5a49c3 100644
--- a/struct.go
+++ b/struct.go
@@ -310,7 +310,7 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 
 		isStruct := tpField.Type.Kind() == reflect.Struct
 		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct
-		isAnonymousPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Anonymous
+		isAnonymousPtr := isStructPtr && tpField.Anonymous
 		if isAnonymousPtr && field.IsNil() {
 			field.Set(reflect.New(tpField.Type.Elem()))
 		}
@@ -642,7 +642,7 @@ func (s *Section) reflectFrom(val reflect.Value, sectionIndex int) error {
 			continue
 		}
 
-		if extends && tpField.Anonymous && (tpField.Type.Kind() == reflect.Ptr || tpField.Type.Kind() == reflect.Struct) {
+		if extends && tpField.Anonymous && reflect.Indirect(field).Kind() == reflect.Struct {
 			if err := s.reflectFrom(field, sectionIndex); err != nil {
 				return fmt.Errorf("reflect from field %q: %v", fieldName, err)
 			}
-- 
2.43.0


From f74b5332e924c66382997cf2496b840107625196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 53/64] fix: reflecting to the default section keeps its place
 in insensitive modes

With non-unique sections, every other section is deleted and created anew.
The default section was taken for one of those when its name is in lower
case, so it lost its other keys and went behind the other sections.
---
 struct.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index a5a49c3..4ddaa23 100644
--- a/struct.go
+++ b/struct.go
@@ -731,7 +731,9 @@ func (s *Section) ReflectFrom(v interface{}) error {
 		return errors.New("not a pointer to a struct")
 	}
 
-	if s.name != DefaultSection && s.f.options.AllowNonUniqueSections &&
+	isDefault := s.name == DefaultSection ||
+		((s.f.options.Insensitive || s.f.options.InsensitiveSections) && s.name == strings.ToLower(DefaultSection))
+	if !isDefault && s.f.options.AllowNonUniqueSections &&
 		(val.Kind() == reflect.Slice || val.Kind() == reflect.Ptr) {
 		if val.Kind() == reflect.Slice &&
 			(typ.Elem().Kind() != reflect.Ptr || typ.Elem().Elem().Kind() != reflect.Struct) {
-- 
2.43.0


From f2f8244e7f75cf1a1acfe3286a19c6dd85d8dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:09 +0000
Subject: [PATCH 54/64] fix: reflecting a slice of structs without nonunique is
 an error, not a panic

---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index 4ddaa23..f452b2f 100644
--- a/struct.go
+++ b/struct.go
@@ -485,6 +485,9 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 		return nil
 	}
 	sliceOf := field.Type().Elem().Kind()
+	if sliceOf == reflectTime && field.Type().Elem() != reflect.TypeOf(time.Time{}) {
+		return fmt.Errorf("unsupported type %q", field.Type())
+	}
 
 	if allowShadow && key.s.f.options.AllowShadows {
 		key.shadows = nil
-- 
2.43.0


From 8f17f147219ce8ae8f5696152ef19f87da49ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 55/64] fix: writing is safe while other goroutines change the
 file

The sections and keys were listed and read without holding the lock, so
that writing raced with every update, and could panic when a section was
deleted meanwhile.
---
 file.go | 12 +++++++++---
 key.go  |  3 +++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/file.go b/file.go
index 0659292..69fbede 100644
--- a/file.go
+++ b/file.go
@@ -395,6 +395,12 @@ func (f *File) quoteKeyName(name string, isBoolean bool) string {
 }
 
 func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
+	// Other goroutines must not change anything until everything is encoded.
+	if f.BlockMode {
+		f.lock.RLock()
+		defer f.lock.RUnlock()
+	}
+
 	equalSign := DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight
 
 	if PrettyFormat || PrettyEqual {
@@ -405,7 +411,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	buf := bytes.NewBuffer(nil)
 	lastSectionIdx := len(f.sectionList) - 1
 	for i, sname := range f.sectionList {
-		sec := f.SectionWithIndex(sname, f.sectionIndexes[i])
+		sec := f.sections[sname][f.sectionIndexes[i]]
 		if len(sec.Comment) > 0 {
 			// Support multiline comments
 			lines := splitComment(sec.Comment)
@@ -478,7 +484,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 
 	KeyList:
 		for _, kname := range sec.keyList {
-			key := sec.Key(kname)
+			key := sec.keys[kname]
 			if len(key.Comment) > 0 {
 				if len(indent) > 0 && sname != DefaultSection {
 					buf.WriteString(indent)
@@ -532,7 +538,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				return false, nil
 			}
 
-			shadows := key.ValueWithShadows()
+			shadows := key.valueWithShadows()
 			if len(shadows) == 0 {
 				if _, err := writeKeyValue(""); err != nil {
 					return nil, err
diff --git a/key.go b/key.go
index df3a77b..0ebeed3 100644
--- a/key.go
+++ b/key.go
@@ -133,7 +133,10 @@ func (k *Key) ValueWithShadows() []string {
 		k.s.f.lock.RLock()
 		defer k.s.f.lock.RUnlock()
 	}
+	return k.valueWithShadows()
+}
 
+func (k *Key) valueWithShadows() []string {
 	if len(k.shadows) == 0 {
 		if k.value == "" {
 			return []string{}
-- 
2.43.0


From 215ef0bb23b619cc7e30a1294196e5e80bf31230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:20 +0000
Subject: [PATCH 56/64] fix: Section creates a section only once for concurrent
 callers

With non-unique sections, two goroutines that look up a missing section at
the same time created one each.
---
 file.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index 69fbede..25755d9 100644
--- a/file.go
+++ b/file.go
@@ -81,6 +81,12 @@ func Empty(opts ...LoadOptions) *File {
 
 // NewSection creates a new section.
 func (f *File) NewSection(name string) (*Section, error) {
+	return f.addSection(name, -1)
+}
+
+// addSection creates a new section, unless there is one with given name and
+// a non-negative index already.
+func (f *File) addSection(name string, index int) (*Section, error) {
 	if len(name) == 0 {
 		return nil, errors.New("empty section name")
 	}
@@ -96,6 +102,8 @@ func (f *File) NewSection(name string) (*Section, error) {
 
 	if !f.options.AllowNonUniqueSections && inSlice(name, f.sectionList) {
 		return f.sections[name][0], nil
+	} else if index >= 0 && index < len(f.sections[name]) {
+		return f.sections[name][index], nil
 	}
 
 	f.sectionList = append(f.sectionList, name)
@@ -182,7 +190,8 @@ func (f *File) Section(name string) *Section {
 		if name == "" {
 			name = DefaultSection
 		}
-		sec, _ = f.NewSection(name)
+		// Another goroutine may have created the section meanwhile.
+		sec, _ = f.addSection(name, 0)
 		return sec
 	}
 	return sec
@@ -197,7 +206,8 @@ func (f *File) SectionWithIndex(name string, index int) *Section {
 		if name == "" {
 			name = DefaultSection
 		}
-		newSec, _ := f.NewSection(name)
+		// Another goroutine may have created the section meanwhile.
+		newSec, _ := f.addSection(name, index)
 		return newSec
 	}
 
-- 
2.43.0


From cb9f90e8b376c6153c6b6a2a1bf2d4b23853e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 57/64] fix: report a nonunique slice of pointers to
 non-structs when reflecting

A field such as []*int with the nonunique option made ReflectFrom panic
instead of returning the error that []int gives.
---
 struct.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index f452b2f..96d53d9 100644
--- a/struct.go
+++ b/struct.go
@@ -680,11 +680,14 @@ func (s *Section) reflectFrom(val reflect.Value, sectionIndex int) error {
 			if field.Len() == 0 {
 				continue
 			}
-			sliceOf := field.Type().Elem().Kind()
+			sliceOf := field.Type().Elem()
+			if sliceOf.Kind() == reflect.Ptr {
+				sliceOf = sliceOf.Elem()
+			}
 
 			existing, _ := s.f.SectionsByName(fieldName)
 			for i := 0; i < field.Len(); i++ {
-				if sliceOf != reflect.Struct && sliceOf != reflect.Ptr {
+				if sliceOf.Kind() != reflect.Struct {
 					return fmt.Errorf("field %q is not a slice of pointer or struct", fieldName)
 				}
 
-- 
2.43.0


From 88cec8a01e0fd82a1ada6442f1627c2c357ca643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 58/64] fix: ignore only missing files in loose mode

A reader that failed with an error of the not-exist kind was taken for a
missing file, so the load succeeded with part of its data.
---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 25755d9..e289c64 100644
--- a/file.go
+++ b/file.go
@@ -326,7 +326,7 @@ func (f *File) Reload() (err error) {
 	for _, s := range f.dataSources {
 		if err = f.reload(s); err != nil {
 			// In loose mode, we create an empty default section for nonexistent files.
-			if os.IsNotExist(err) && f.options.Loose {
+			if _, ok := s.(sourceFile); ok && os.IsNotExist(err) && f.options.Loose {
 				_ = f.parse(bytes.NewBuffer(nil))
 				continue
 			}
-- 
2.43.0


From 5fb005a0a60c0f5066a2b1648f2043ca6ddc94b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 59/64] fix: map a time from its key although a section has the
 same name

A time.Time field was taken for a nested struct when the file has a section
named like the field, so its key was ignored.
---
 struct.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 96d53d9..728c2e8 100644
--- a/struct.go
+++ b/struct.go
@@ -308,8 +308,10 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 			continue
 		}
 
-		isStruct := tpField.Type.Kind() == reflect.Struct
-		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct
+		// A time is read from a key
+		isStruct := tpField.Type.Kind() == reflect.Struct && tpField.Type != reflect.TypeOf(time.Time{})
+		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct &&
+			tpField.Type.Elem() != reflect.TypeOf(time.Time{})
 		isAnonymousPtr := isStructPtr && tpField.Anonymous
 		if isAnonymousPtr && field.IsNil() {
 			field.Set(reflect.New(tpField.Type.Elem()))
-- 
2.43.0


From f7b127fbe950759f21ff5597b2a0fee9c298ab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 60/64] fix: map an extended embedded struct only once

After its fields were mapped, a key named like the embedded struct was mapped
to it too, which strict mode (or a key with a time) reported as an error.
---
 struct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 728c2e8..f3e2cc0 100644
--- a/struct.go
+++ b/struct.go
@@ -331,7 +331,10 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 			if err := fieldSection.mapToField(field, isStrict, sectionIndex, sectionName); err != nil {
 				return fmt.Errorf("map to field %q: %v", fieldName, err)
 			}
-		} else if isAnonymousPtr || isStruct || isStructPtr {
+			continue
+		}
+
+		if isAnonymousPtr || isStruct || isStructPtr {
 			if secs, err := s.f.SectionsByName(fieldName); err == nil {
 				if len(secs) <= sectionIndex {
 					return fmt.Errorf("there are not enough sections (%d <= %d) for the field %q", len(secs), sectionIndex, fieldName)
-- 
2.43.0


From 39f144b042316610d67f8d5253e28708f66f5e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:05 +0000
Subject: [PATCH 61/64] fix: leave the default section unindented with
 case-insensitive sections

---
 file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index e289c64..3c803c1 100644
--- a/file.go
+++ b/file.go
@@ -496,7 +496,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		for _, kname := range sec.keyList {
 			key := sec.keys[kname]
 			if len(key.Comment) > 0 {
-				if len(indent) > 0 && sname != DefaultSection {
+				if len(indent) > 0 && !isDefault {
 					buf.WriteString(indent)
 				}
 
@@ -515,7 +515,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				}
 			}
 
-			if len(indent) > 0 && sname != DefaultSection {
+			if len(indent) > 0 && !isDefault {
 				buf.WriteString(indent)
 			}
 
-- 
2.43.0


From ffeac2f9caec1ae746c3b50f48474176ba903cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 62/64] fix: return a new section for a negative index instead
 of panicking

---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 3c803c1..6956474 100644
--- a/file.go
+++ b/file.go
@@ -200,7 +200,7 @@ func (f *File) Section(name string) *Section {
 // SectionWithIndex assumes named section exists and returns a new section when not.
 func (f *File) SectionWithIndex(name string, index int) *Section {
 	secs, err := f.SectionsByName(name)
-	if err != nil || len(secs) <= index {
+	if err != nil || index < 0 || len(secs) <= index {
 		// NOTE: It's OK here because the only possible error is empty section name,
 		// but if it's empty, this piece of code won't be executed.
 		if name == "" {
-- 
2.43.0


From e9d589d7db6b93f8c79bff2aee9ac54719cc4fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 63/64] fix: delete nothing and keep the other sections for a
 negative index

---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 6956474..d84715d 100644
--- a/file.go
+++ b/file.go
@@ -300,7 +300,7 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 			f.sectionList = append(f.sectionList[:i], f.sectionList[i+1:]...)
 			f.sectionIndexes = append(f.sectionIndexes[:i], f.sectionIndexes[i+1:]...)
 
-		} else if occurrences > index {
+		} else if index >= 0 && occurrences > index {
 			// Fix the indices of all following sections with this name.
 			f.sectionIndexes[i-1]--
 		}
-- 
2.43.0


From e93868da4d07fcd136f6065ecaaab9204db3e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 64/64] fix: RangeFloat64 returned a value that is not a number

---
 key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 0ebeed3..709baba 100644
--- a/key.go
+++ b/key.go
@@ -506,7 +506,8 @@ func (k *Key) InTime(defaultVal time.Time, candidates []time.Time) time.Time {
 // and returns default value if it's not.
 func (k *Key) RangeFloat64(defaultVal, min, max float64) float64 {
 	val := k.MustFloat64()
-	if val < min || val > max {
+	// NaN lies in no range, neither does anything lie between bounds that are NaN
+	if !(val >= min && val <= max) {
 		return defaultVal
 	}
 	return val
-- 
2.43.0

