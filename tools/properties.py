#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Loading any bytes under any options is total",
  "For any data sources holding arbitrary bytes and any load options, loading terminates without panicking and yields exactly one of a usable file or an error. Every file so obtained can be enumerated, read through its accessors and written under every formatting setting without panicking, deadlocking or running away.",
  ["inputs", "configurations"], "all byte strings given as one or more sources, all LoadOptions, all output formatting globals",
  "Tests load a handful of hand-written documents with one option at a time; they never reach arbitrary bytes or option combinations.",
  ["parser.go", "file.go", "key.go", "section.go"],
  [("line loop and value readers", "parser.go:parse,readValue,readMultilines,readContinuationLines"), ("key name reader", "parser.go:readKeyName"), ("writer", "file.go:writeToBuffer")],
  ["LoadSources result", "panic/termination of accessors and WriteTo"])

p("C02", "A document parses to exactly the sections, keys and values it spells",
  "For every well-formed document in the default dialect (sections, keys separated by = or :, bare, single-, double-, backtick- and triple-quoted values on one or several lines, backslash continuations, quoted key names, comment lines, inline comments, blank lines, arbitrary indentation), loading yields exactly the sections, keys and values it spells, in order of first appearance. Keys before the first header belong to the default section, a repeated section header continues that section, and a repeated key keeps its position and takes the last value.",
  ["inputs"], "all documents generated by the grammar, any number and size of sections, keys and values",
  "Tests parse a few fixed documents; combinations of quoting form, spacing, comments, repetition, size and position are unbounded.",
  ["parser.go", "file.go", "section.go"],
  [("line classification", "parser.go:parse"), ("value reader", "parser.go:readValue"), ("key reader", "parser.go:readKeyName"), ("ordered storage", "section.go:NewKey, file.go:NewSection")],
  ["SectionStrings, KeyStrings, Key.Value"])

p("C03", "Value-syntax options change values exactly as documented",
  "Under every combination of IgnoreContinuation, IgnoreInlineComment, SpaceBeforeInlineComment, UnescapeValueDoubleQuotes, UnescapeValueCommentSymbols, PreserveSurroundedQuote and custom key-value delimiters, each value is read as those options document: trailing backslashes join or stay, comment symbols start a comment or stay in the value, surrounding quotes are stripped or kept, escapes are undone or kept. An option affects only the construct it names; everything else parses as under the defaults.",
  ["inputs", "configurations"], "all single-line values and following lines, under all combinations of the seven options",
  "Each option is tested with one or two values in isolation, combinations never.",
  ["parser.go", "ini.go"],
  [("value reader", "parser.go:readValue"), ("continuation reader", "parser.go:readContinuationLines"), ("quote test", "parser.go:hasSurroundedQuote"), ("delimiters", "parser.go:readKeyName")],
  ["Key.Value, Key.Comment after LoadSources"])

p("C04", "Indented multi-line and nested values are captured completely",
  "With AllowPythonMultilineValues, a key's value consists of its first line and every directly following indented line, joined by newlines with indentation kept, whatever the length of the value, its position in the input and whether it ends at a section, another key or end of input. With AllowNestedValues, the indented lines following an empty-valued key are kept, trimmed and in order, as its nested values and never as keys or values of anything else.",
  ["inputs", "configurations"], "all documents with indented blocks of any size under either option",
  "Tests have one large and a few small indented blocks, all starting near the beginning of the input.",
  ["parser.go", "key.go"],
  [("python multi-line reader", "parser.go:readPythonMultilines"), ("nested value branch", "parser.go:parse"), ("nested storage", "key.go:addNestedValue")],
  ["Key.Value, Key.NestedValues"])

p("C05", "Boolean keys, auto-increment keys, skipped lines and raw sections",
  "With AllowBooleanKeys a line without delimiter becomes a key whose value is true; a key named - becomes #1, #2, ... counted afresh after every section header; with SkipUnrecognizableLines lines that are no key/value pair disappear without affecting their neighbours. Sections listed as unparseable keep their lines - apart from comment lines, blank lines and indentation - as the raw body, in order, and contribute no keys, while all other sections parse as usual.",
  ["inputs", "configurations"], "all documents mixing these line kinds with ordinary sections and keys",
  "One fixed document per option is tested.",
  ["parser.go", "section.go", "file.go"],
  [("boolean/skip branches", "parser.go:parse"), ("auto counter", "parser.go:parser.count"), ("raw sections", "parser.go:inUnparseableSection, section.go:Body")],
  ["KeyStrings, Key.Value, Section.Body"])

p("C06", "Malformed documents are rejected with the matching error",
  "A document containing an unclosed section header, an empty section name, a line without key-value delimiter, an empty key name, an unclosed quoted key name or an unterminated multi-line value is rejected: loading returns no file and a non-nil error, wherever the defect sits. The errors for a line lacking the delimiter and for a line beginning with it are recognised by their predicates and carry that line.",
  ["inputs"], "all well-formed documents with one defect of each class injected at any position",
  "Tests feed about ten one-line malformed inputs.",
  ["parser.go", "error.go"],
  [("error returns", "parser.go:parse,readKeyName,readMultilines"), ("error types", "error.go")],
  ["error of Load, IsErrDelimiterNotFound, IsErrEmptyKeyName"])

p("C07", "How the bytes are delivered never changes the result",
  "Loading the same content from a file name, a byte slice, a reader or a read-closer, with any chunking of reads and any reader buffer size, gives the same file or the same error. A leading byte-order mark, CRLF instead of LF line ends (outside of text kept over several lines), and a missing final line break do not change sections, keys, values or comments.",
  ["inputs", "configurations", "schedules"], "all documents, all splits of their bytes into reads, all buffer sizes, all source kinds",
  "Tests use whole in-memory inputs and small files only; chunk and buffer boundaries are never exercised.",
  ["data_source.go", "parser.go"],
  [("source adapters", "data_source.go:parseDataSource"), ("buffered line reader", "parser.go:readUntil,readPythonMultilines"), ("BOM handling", "parser.go:BOM")],
  ["observable file state after LoadSources"])

p("C08", "Saving and loading again preserves all data",
  "For any file content that the format can represent, reached through the API or through parsing - section names, key names, values, shadow values, nested values, boolean and auto-increment keys, raw bodies - writing it and loading the output with the same options yields the same sections, keys and values in the same order. Values and key names are quoted on output whenever their plain form would be read differently, so no value alters itself, its neighbours or the structure.",
  ["inputs", "configurations"], "all representable files, load options and formatting settings",
  "Tests compare the output of a few files with golden text and never read it back; special characters appear in two or three values.",
  ["file.go", "parser.go"],
  [("writer quoting", "file.go:writeToBuffer"), ("reader unquoting", "parser.go:readValue,readKeyName")],
  ["WriteTo output reloaded"])

p("C09", "Formatting settings change only the layout",
  "PrettyFormat, PrettyEqual, PrettySection, DefaultHeader (without non-unique sections), the custom format paddings, the line break, the write delimiter and the indent influence only whitespace, headers of the default section and the delimiter of the output: loading any of these renderings gives the same data. Output is normalised: writing a reloaded output reproduces it byte for byte, and with PrettyFormat the delimiters of a section are aligned in one column.",
  ["inputs", "configurations"], "all representable files and all combinations of the formatting globals and write options",
  "Golden files cover the default formatting and one custom delimiter.",
  ["file.go", "ini.go"],
  [("alignment and delimiters", "file.go:writeToBuffer"), ("globals", "ini.go")],
  ["WriteTo/WriteToIndent text and its reload"])

p("C10", "Comments stay attached to their section or key",
  "Comment lines directly preceding a section header or key and the inline comment on its line become the comment of exactly that section or key, and of no other. Writing emits every section and key comment before its owner with each line marked as a comment, so that loading the output gives every comment back on the same owner.",
  ["inputs"], "all documents and all programmatically set single- or multi-line comments",
  "Two golden outputs contain comments; attachment to neighbours and multi-line or unmarked comments are not quantified over.",
  ["parser.go", "file.go"],
  [("comment buffer", "parser.go:parser.comment"), ("comment writer", "file.go:writeToBuffer")],
  ["Section.Comment, Key.Comment, WriteTo"])

p("C11", "Writing is pure, deterministic and reports every failure",
  "Writing never changes the in-memory file and always produces the same bytes for the same state; WriteTo, WriteToIndent and SaveTo agree, the returned count equals the bytes delivered, and SaveTo replaces the target's previous content completely and touches nothing else: the target keeps its permissions, a link is written through, and no other file is changed, removed or left behind. If the destination fails or accepts only part of the output, an error is returned.",
  ["inputs", "fault_sequences", "histories"], "all files, all failure points of the destination writer, all previous contents of the target",
  "Tests write to a perfect buffer or a fresh file only.",
  ["file.go"],
  [("buffered encode then write", "file.go:WriteToIndent,SaveToIndent,writeToBuffer")],
  ["WriteTo results, bytes on disk, state before and after"])

p("C12", "Multiple sources are merged in order with later values winning",
  "Loading several sources equals applying them one after another: sections and keys appear in order of first appearance, a later source overwrites values of equal keys and adds the rest, and each source starts in the default section. ShortCircuit stops after the first source that loads, Loose skips files that do not exist, and otherwise a missing file or unsupported source type fails the whole load.",
  ["inputs", "configurations"], "all lists of documents, presented as any mix of source kinds, with missing files at any position",
  "One four-source load and a few two-source loads are tested.",
  ["ini.go", "file.go", "data_source.go"],
  [("source loop", "file.go:Reload"), ("source detection", "data_source.go:parseDataSource"), ("overwrite", "section.go:NewKey")],
  ["observable file state after LoadSources"])

p("C13", "Reload and Append re-apply sources without losing or inventing data",
  "For sources that can be read again and options without shadow or non-unique sections, Reload with unchanged sources leaves a freshly loaded file unchanged, and after a source file changed its new sections and values take effect while everything else is kept. Append gives the same contents as having listed the source at load time, keeps sections and keys added through the API, and a failing Append or Reload returns an error.",
  ["histories", "inputs"], "all sequences of source-file edits, API edits, Reload and Append",
  "One Append call and one Reload call are tested.",
  ["file.go"],
  [("Reload/Append", "file.go:Reload,Append,reload")],
  ["observable file state after each step"])

p("C14", "A failing source is reported, never silently truncated, and always closed",
  "If reading a source fails at any byte offset, loading returns an error and no file, under every load option and any pattern of short reads. Every read-closer that loading reads is closed exactly once on success and on failure, and sources after the failing or short-circuiting one are not read.",
  ["fault_sequences", "inputs", "configurations"], "all documents, all fault offsets, all read chunkings, all options, any position in the source list",
  "No test injects a read error or observes Close.",
  ["parser.go", "file.go", "data_source.go"],
  [("error propagation", "parser.go:readUntil,BOM,readPythonMultilines"), ("deferred close", "file.go:reload")],
  ["error of LoadSources, calls to Read/Close"])

p("C15", "The section collection behaves as an ordered set of unique names",
  "Under any sequence of creating, looking up, listing and deleting sections (uniquely named), the file behaves as an ordered set: creation is idempotent and appends new names at the end, lookups agree with listings, deletion removes exactly the named section with its keys and re-creation yields an empty section. The empty name denotes the default section for lookups and deletion, and creating a section with an empty name fails.",
  ["histories"], "all sequences of section operations on any names",
  "Tests perform single operations or short fixed sequences.",
  ["file.go"],
  [("section list and map", "file.go:NewSection,GetSection,SectionsByName,Section,DeleteSection,DeleteSectionWithIndex,Sections")],
  ["SectionStrings, Sections, HasSection, GetSection"],
  state=[("section list", "order of names", "file.go:File.sectionList"), ("section map", "data by name", "file.go:File.sections")])

p("C16", "Non-unique sections keep identity, order and index under edits",
  "With AllowNonUniqueSections, every section header or creation adds a further section; equally named sections are addressed by their position, keep their own keys, and appear in lookups, listings, child listings and output in overall order. Deleting one by index removes exactly that one and shifts later ones down; deleting by name removes all of them and nothing else.",
  ["histories", "inputs"], "all sequences of creating, indexing, deleting and writing repeated sections",
  "Tests delete one middle index in one three-section file.",
  ["file.go", "section.go"],
  [("index list", "file.go:sectionIndexes,DeleteSectionWithIndex,SectionWithIndex,SectionsByName"), ("child listing", "section.go:ChildSections")],
  ["SectionsByName, SectionWithIndex, Sections, WriteTo"],
  state=[("sectionIndexes", "index of the list entry among equal names", "file.go:File.sectionIndexes")])

p("C17", "A section's keys behave as an ordered map",
  "Under any sequence of creating, reading, updating and deleting keys, a section behaves as an insertion-ordered map from name to value: names, keys, values, value search and the key hash all agree with each other and with that map after every step. Creating an existing key updates it in place, deleting removes exactly that key, reading a missing key through Key creates it empty, other lookups never change anything, and an empty name is refused.",
  ["histories"], "all sequences of key operations over any names and values, including value defaults stored by Must accessors",
  "Tests perform single operations on a fresh section.",
  ["section.go", "key.go"],
  [("key list, map and hash", "section.go:NewKey,GetKey,Key,Keys,KeyStrings,KeysHash,HasValue,DeleteKey"), ("value update", "key.go:SetValue")],
  ["KeyStrings, Keys, KeysHash, HasKey, HasValue, Value"],
  state=[("keyList/keys/keysHash", "order, objects and values by name", "section.go:Section")])

p("C18", "Child sections inherit keys from their nearest ancestors",
  "Looking up a key in a section named with child delimiters returns the section's own key if it has one, else that of the nearest existing ancestor holding it, and fails if none does; lookups through missing intermediate sections work and create nothing. ParentKeys lists the keys of all existing ancestors, nearest first, and ChildSections lists exactly the sections whose names extend the parent's name by the delimiter, in order.",
  ["inputs", "configurations"], "all trees of section names, key placements and child delimiters",
  "Tests use one parent and one or two levels with the default delimiter.",
  ["section.go", "file.go"],
  [("upward search", "section.go:GetKey,ParentKeys"), ("prefix listing", "section.go:ChildSections")],
  ["GetKey, HasKey, ParentKeys, ChildSections"])

p("C19", "Insensitive modes ignore letter case everywhere and only where asked",
  "With Insensitive, InsensitiveSections or InsensitiveKeys, a file loaded or edited through names in any letter case behaves as if all section and/or key names had been written in lower case: loading, lookup, creation, deletion, indexing, inheritance and variable references agree, including for the default section. Names outside the selected scope and all values keep their case.",
  ["inputs", "configurations", "histories"], "all documents, case variations of every name, and operation sequences under the three options",
  "A few lookups and one deletion in the other case are tested.",
  ["section.go", "file.go", "parser.go"],
  [("lower-casing", "file.go:NewSection,SectionsByName,DeleteSectionWithIndex; section.go:NewKey,GetKey,DeleteKey")],
  ["observable file state against the lower-cased twin"])

p("C20", "Shadow values are kept completely and in order",
  "With AllowShadows, repeated keys keep all values in order of appearance: the first is the key's value, later ones its shadows, duplicates are dropped unless AllowDuplicateShadowValues is set, and empty ones are left out of the value list. Without AllowShadows the last value wins and adding a shadow fails, as it does for boolean and auto-increment keys; writing emits one line per listed value.",
  ["inputs", "histories", "configurations"], "all sequences of values for any number of keys, through parsing, NewKey and AddShadow",
  "Tests use two or three fixed values.",
  ["key.go", "section.go", "file.go"],
  [("shadow list", "key.go:addShadow,ValueWithShadows,StringsWithShadows"), ("writer loop", "file.go:writeToBuffer")],
  ["ValueWithShadows, StringsWithShadows, WriteTo"])

p("C21", "Variable references expand to the referenced raw values",
  "A key's string form replaces %(name)s by the value of that key found from its own section (parents included) or else in the default section; a reference of a key to its own name resolves in the default section, expanded text is expanded again, and a reference that resolves nowhere stops expansion and stays verbatim. Cyclic references and chains beyond the depth limit terminate, the raw value never changes, and a value mapper is applied before expansion.",
  ["inputs"], "all reference graphs over several sections, chains up to and beyond the depth limit, cycles and unknown names",
  "Tests expand a handful of one- and two-step references.",
  ["key.go"],
  [("substitution loop", "key.go:transformValue"), ("pattern and depth", "ini.go:varPattern,depthValues")],
  ["Key.String, Key.Value"])

p("C22", "Typed accessors convert exactly and report what does not convert",
  "Bool accepts exactly its documented spellings; Int, Int64, Uint, Uint64, Float64, Duration and Time accessors return the value denoted by the text, with base prefixes, and an error otherwise. Each Must accessor returns that value when it converts, else the given default (which then also becomes the key's value), else the type's zero value.",
  ["inputs"], "all value texts, boundary numbers, formats and defaults",
  "Tests convert one or two valid texts per type.",
  ["key.go"],
  [("conversions", "key.go:parseBool,Int,Int64,Uint,Uint64,Float64,Duration,TimeFormat"), ("defaults", "key.go:MustString..MustTime")],
  ["accessor results and Key.Value afterwards"])

p("C23", "Candidate and range accessors return only admissible values",
  "In accessors return the key's converted value if and only if it converts and equals one of the candidates (instants being compared as instants), and the default otherwise; Range accessors return it if it lies within the inclusive bounds and the default otherwise, a text that does not convert counting as zero. None of them changes the key.",
  ["inputs"], "all values, defaults, candidate lists and bounds of each type",
  "Tests call each accessor with one hit and one miss.",
  ["key.go"],
  [("candidates", "key.go:In,InFloat64,InInt,InInt64,InUint,InUint64,InTimeFormat"), ("ranges", "key.go:RangeFloat64,RangeInt,RangeInt64,RangeTimeFormat")],
  ["accessor results"])

p("C24", "List accessors split and convert element by element",
  "Strings splits a non-empty value at every unescaped occurrence of any non-empty delimiter without a backslash, trims each element, honours backslash-escaped delimiters and backslashes, and drops only a final empty remainder. The typed lists convert each of these elements: the plain form puts the zero value for elements that do not convert, the Valid form leaves them out, and the Strict form fails if there is one; StringsWithShadows splits every shadow value.",
  ["inputs"], "all texts and delimiters (multi-byte and multi-character included) for all element types",
  "Tests split fixed three-element lists at a comma.",
  ["key.go"],
  [("splitter", "key.go:Strings"), ("element conversion", "key.go:doParse,parseInts..parseTimesFormat"), ("shadow lists", "key.go:StringsWithShadows")],
  ["returned slices and errors"])

p("C25", "Mapping to a struct sets exactly the matching fields",
  "MapTo sets every exported field whose key (by tag, name mapper or field name) exists and converts, to the converted value, allocates pointers as needed, maps nested struct fields from the section of their name, and leaves every other field - missing key, unconvertible text, empty string or list, tag - untouched. Inherited keys, delimiters and shadow lists are honoured, and unsupported field types, or targets that are no pointer to a struct or slice of structs, give an error instead of a panic. A scalar behind a pointer and the elements of a list are put into new memory, so that nothing else holding the former pointer or list changes. In a mapped list an unconvertible element becomes the zero value.",
  ["inputs", "programs"], "all struct types built from supported field kinds and tags, all files, all initial field values",
  "Tests map two or three fixed struct types from fixed documents.",
  ["struct.go"],
  [("field walk", "struct.go:mapToField,setWithProperType,setSliceWithProperType"), ("tags and mappers", "struct.go:parseTagOptions,parseFieldName,SnackCase,TitleUnderscore")],
  ["the struct after MapTo and the error"])

p("C26", "Strict mapping fails exactly when a present value does not convert",
  "StrictMapTo returns an error if some mapped key's text (or an element of its list, or a nested section's key) does not convert to the field's type or does not fit it, and otherwise returns no error and sets exactly what MapTo sets. MapTo never fails for such text and leaves a scalar field at its previous value.",
  ["inputs", "programs"], "all struct types and files with convertible and unconvertible texts at any field",
  "One struct with one bad integer is tested.",
  ["struct.go"],
  [("strict flag", "struct.go:wrapStrictError,setWithProperType,setSliceWithProperType,mapToField")],
  ["error of StrictMapTo, struct contents"])

p("C27", "Reflecting a struct into a file and mapping it back is lossless",
  "ReflectFrom stores every exported field of a struct - scalars, times, durations, pointers, lists, nested and embedded structs - under its name, skipping excluded and omitted-empty ones and adding comment tags, and no field prevents the following ones from being stored. Mapping the file, also after writing and reloading it, into a fresh struct of the same type gives back the same representable values. A value that is no struct, or a field of an unsupported type, gives an error instead of a panic.",
  ["inputs", "programs"], "all struct types built from supported kinds and tags, all field values without the list delimiter",
  "Tests compare the output for two or three fixed structs.",
  ["struct.go"],
  [("reflect walk", "struct.go:reflectFrom,reflectWithProperType,reflectSliceWithProperType,isEmptyValue")],
  ["file contents after ReflectFrom, struct after MapTo"])

p("C28", "Repeated sections map to and from slices of structs in order",
  "With non-unique sections, a slice field tagged nonunique (or a slice target) receives one element per section of that name, in order and each from its own section only; reflecting such slices writes one section per element and, on a section, replaces the previous ones. Mapping, reflecting, writing and reloading such a struct gives back the same elements, whatever their number.",
  ["inputs", "histories"], "all element counts and contents, interleaved with other sections, repeated reflection",
  "Tests use two elements.",
  ["struct.go", "file.go"],
  [("slice mapping", "struct.go:mapToSlice,mapTo"), ("slice reflection", "struct.go:reflectFrom,ReflectFrom")],
  ["struct slices and Sections"])

p("C29", "Concurrent use in block mode is race-free and loses nothing",
  "With block mode on (the default), any concurrent mix of creating, looking up, listing, reading, updating, deleting and writing out sections and keys is free of data races, deadlocks and panics. No completed update is lost, no deleted item reappears by itself, and once all operations have finished the contents equal those of some sequential order of the same operations. Goroutines that each use a file of their own get the same results as alone.",
  ["schedules", "histories"], "all interleavings of generated per-goroutine operation lists over shared and private names",
  "No test uses more than one goroutine.",
  ["file.go", "section.go", "key.go"],
  [("file lock", "file.go:File.lock; section.go; key.go:SetValue")],
  ["race detector, final observable state"])

p("C30", "Returned collections and source data are isolated from the file",
  "Modifying a name list, section list, key list, key hash or value list returned by the API, or the byte slice and options a file was loaded from after loading, never changes the file; loading never modifies the caller's bytes. Files loaded separately share no state: editing one never affects another.",
  ["histories", "inputs"], "all files, all mutations of returned collections and of inputs after loading",
  "One test looks at a key hash copy but never modifies it.",
  ["file.go", "section.go", "key.go", "data_source.go"],
  [("copies", "file.go:SectionStrings,Sections; section.go:KeyStrings,KeysHash,Keys; key.go:ValueWithShadows")],
  ["observable file state after mutating returned values"])

p("C31", "Convenience entry points equal the general forms they stand for",
  "Load, LooseLoad, InsensitiveLoad, ShadowLoad and Empty give exactly the file, or the error, that LoadSources gives for the options they stand for, and that file behaves accordingly afterwards. The package-level and file-level mapping and reflecting functions equal loading, setting the name mapper and using the default section's method. The built-in name mappers put an underscore before every ASCII capital but a leading one and change letter case as documented.",
  ["inputs", "configurations"], "all source lists, documents, name mappers and strictness, all field names",
  "Each helper is called once or twice with one document.",
  ["ini.go", "struct.go", "file.go", "deprecated.go"],
  [("load helpers", "ini.go:Load,LooseLoad,InsensitiveLoad,ShadowLoad; file.go:Empty"), ("mapping helpers", "struct.go:MapTo,StrictMapTo,MapToWithMapper,StrictMapToWithMapper,ReflectFrom,ReflectFromWithMapper"), ("name mappers", "struct.go:SnackCase,TitleUnderscore")],
  ["results of the helpers against the general forms"])

p("C32", "The name of the default section is a mere name",
  "Setting DefaultSection to another name before use changes nothing but that name: keys before the first header, lookups by the empty name, deletion, references, the header left out on output and its round trip all follow the new name, in every letter-case mode, and a section called DEFAULT is then an ordinary one.",
  ["inputs", "configurations", "histories"], "all names of the default section, files, operation sequences and reference graphs",
  "No test changes DefaultSection.",
  ["ini.go", "file.go", "parser.go", "key.go", "struct.go"],
  [("default name", "ini.go:DefaultSection"), ("uses", "file.go:GetSection,SectionsByName,DeleteSectionWithIndex,writeToBuffer; parser.go:parse; key.go:transformValue")],
  ["observable file state and output under other default names"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
