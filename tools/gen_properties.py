#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "Reading XMP from untrusted XML never crashes or hangs",
  "For every byte sequence, reading it as an XMP document ends with either a document or an error; it never panics, exhausts stack or memory or fails to return, and reading the same bytes again has the same outcome. A document that was accepted can afterwards be listed, queried by any of its paths, converted to JSON and written back as XML without a panic.",
  ["inputs"], "all byte sequences, in particular malformed, truncated and type-confused XMP for every registered namespace",
  "Existing tests read about 400 well-formed sample files; the defects live in malformed values, odd nesting and missing pieces that no sample contains.",
  ["xmp/unmarshal.go", "xmp/node.go", "xmp/array.go", "xmp/xmp_types.go", "models/"],
  [("Decoder.Decode", "xmp/unmarshal.go"), ("Node.UnmarshalXML", "xmp/node.go"), ("UnmarshalXMP / UnmarshalText of every value type", "xmp/*.go, models/*/types.go")])
p("P02", "Reading XMP from untrusted JSON never crashes or hangs",
  "For every byte sequence, reading it as the JSON form of an XMP document ends with either a document or an error; it never panics, exhausts stack or memory or fails to return, and reading the same bytes again has the same outcome. A document that was accepted can afterwards be listed, queried and written as XML and JSON without a panic.",
  ["inputs"], "all byte sequences, in particular syntactically valid JSON whose shape or value types differ from what a model expects",
  "Existing tests only re-read JSON that the library itself has just produced.",
  ["xmp/json.go", "xmp/array.go", "xmp/units.go"],
  [("Document.UnmarshalJSON / jsonToNode", "xmp/json.go"), ("UnmarshalJSON of value types", "xmp/array.go, xmp/units.go, xmp/xmp_ext.go")])
p("P03", "Typed model values survive writing and re-reading as XML",
  "For every registered metadata model and every combination of valid values assigned to its properties, writing the document as XML and reading it back yields a model with the same values in every property. Whether properties are written compactly or indented, with or without packet wrapper, does not matter.",
  ["inputs"], "all registered models x all assignments of valid values (scalars, dates, rationals, enumerations, lists, language alternatives, nested structures, structure lists) to their properties; zero values count as absent, and properties that models synchronise with each other (P21) may gain the value of their counterpart",
  "The sample round trips only check that no error is returned and never compare values; most properties of most models occur in no sample.",
  ["xmp/marshal.go", "xmp/unmarshal.go", "xmp/typeinfo.go", "xmp/array.go", "models/*/model.go", "models/*/types.go"],
  [("Encoder.marshalValue / marshalAttr", "xmp/marshal.go"), ("Decoder.unmarshal / unmarshalAttr", "xmp/unmarshal.go"), ("struct tags and MarshalXMP/UnmarshalXMP pairs", "models/")])
p("P04", "Accepted documents keep their content when rewritten",
  "For every XMP document the reader accepts, writing it and reading the result succeeds and yields the same properties with the same values, for registered and unknown namespaces alike; only the spelling of numbers and dates, zero values of modelled properties and properties superseded by a synchronised or newer counterpart may change. Writing the re-read document again changes nothing further.",
  ["inputs"], "all XML documents accepted by the reader (grammar-generated documents and structure-aware mutations of the sample corpus); qualifiers on single values of modelled properties are not claimed",
  "The sample tests never compare the content before and after; unusual mixes of known and unknown properties, qualifiers and nesting are not sampled.",
  ["xmp/unmarshal.go", "xmp/marshal.go", "xmp/node.go", "xmp/path.go"],
  [("Decoder.Decode then Encoder.Encode", "xmp/unmarshal.go, xmp/marshal.go"), ("external nodes and attributes", "xmp/node.go")],
  observe=["Document.ListPaths", "Document.GetPath"])
p("P05", "The JSON form carries the same content as the XML form",
  "For every document, writing it as JSON and reading that back yields the same properties and values as the original document, and therefore the same XML up to the order of top-level descriptions and the array kind of unknown lists. The JSON form is always syntactically valid and identical on every write of the same document.",
  ["inputs"], "all documents built from generated model values and from generated XML with registered and unknown namespaces",
  "The JSON tests only check that no error is returned for the samples, not that content is equal.",
  ["xmp/json.go", "xmp/array.go", "xmp/units.go", "xmp/xmp_types.go", "xmp/xmp_ext.go"],
  [("Document.MarshalJSON / nodeToJson", "xmp/json.go"), ("Document.UnmarshalJSON / jsonToNode", "xmp/json.go")])
p("P06", "Unknown namespaces and properties are preserved",
  "Properties in namespaces the library has no model for, and properties a model does not know, are kept on reading: their simple values, structures, arrays and language alternatives are reachable by path with exactly the values in the input. They are written out again under the same namespace URI, name, structure and value.",
  ["inputs"], "all RDF data models over unknown namespaces and unknown properties of known namespaces, nested to several levels",
  "Samples contain few unknown properties and no test looks at their values.",
  ["xmp/unmarshal.go", "xmp/node.go", "xmp/marshal.go", "xmp/path.go"],
  [("Decoder.decodeNode / decodeAttribute / addNamespace", "xmp/unmarshal.go"), ("Node.GetPath / ListPaths / translate", "xmp/node.go"), ("merge of external nodes and attributes", "xmp/marshal.go Encode")])
p("P07", "Equivalent RDF spellings are read as the same document",
  "Two XML texts that differ only in how RDF spells the same properties - property as attribute or as element, one or several top-level descriptions, structure as nested description or as resource, properties in another order, different namespace prefixes bound to the same URIs, whitespace, comments, processing instructions, or the optional outer metadata and packet wrappers - are read as documents with identical properties and values.",
  ["inputs"], "all pairs of equivalent serialisations of generated data models",
  "Each sample uses one spelling; equivalence between spellings is a relation between two inputs that no sample test states.",
  ["xmp/unmarshal.go", "xmp/node.go", "xmp/array.go", "xmp/namespace.go", "xmp/registry.go"],
  [("Decoder.Decode / translate / addNamespace", "xmp/unmarshal.go"), ("UnmarshalArray", "xmp/array.go")])
p("P08", "A value set by path is read back and nothing else changes",
  "After a value is successfully set at a path - a scalar, a list item, a language entry, a field of a nested structure, or a property of an unknown namespace - reading that path returns that value, and every other path of the document keeps its value. Setting the value a path already reads as is a no-op, a list write without an index leaves the value among the list's items, and deleting a path makes it read as empty (deleting a list item moves the following items up).",
  ["histories"], "all sequences of path writes, appends and deletions over all registered models and unknown namespaces (unregistered namespaces are declared with the write)",
  "Path tests use about twenty fixed paths on an otherwise nearly empty document and never look at the rest of the document.",
  ["xmp/path.go", "xmp/node.go", "xmp/array.go"],
  [("Document.SetPath / SetModelPath", "xmp/path.go"), ("Node.SetPath", "xmp/node.go"), ("growSlice", "xmp/path.go")],
  observe=["Document.GetPath", "Document.ListPaths"])
p("P09", "Update flags decide exactly whether and how a path write applies",
  "For every combination of update flags, every current state of the target and every new value, a path write has exactly the documented effect: create only when missing, replace only when present, delete only with an empty value, append or append-unique for lists, with unique taking precedence over append over replace. A write the flags do not permit leaves the document unchanged and returns an error, or no error when failing is switched off; writing the value that is already there is a no-op.",
  ["histories"], "all flag combinations x target states (missing, present, list of any length, language entry) x values x histories of such writes; append or unique-append to a missing list without the create flag is unspecified",
  "Tests cover a few of the several hundred combinations of flags, target kind, index and state.",
  ["xmp/path.go", "xmp/sync.go", "xmp/array.go", "xmp/node.go"],
  [("SyncFlags documentation", "xmp/sync.go"), ("Document.SetPath / SetModelPath flag switch", "xmp/path.go")])
p("P10", "Path listing is complete, ordered, duplicate-free and readable",
  "Listing the paths of a document yields every non-empty property exactly once in sorted order, and reading any listed path returns the listed value. Re-applying the list to an empty document reproduces a document with the same listing.",
  ["inputs"], "all documents over registered models and unknown namespaces",
  "Tests compare listings of a handful of fixed documents with each other, not with an independent account of their content.",
  ["xmp/path.go", "xmp/node.go"],
  [("Document.ListPaths / listPaths", "xmp/path.go"), ("Node.ListPaths", "xmp/node.go"), ("Document.GetPath", "xmp/path.go")])
p("P11", "Merging documents copies all content and never touches the source",
  "Merging a document into an empty one reproduces all of its properties; merging into a non-empty one with the merge policy keeps every existing value, adds every missing property and extends lists of simple values with the items they lack, while the extend policy takes the source's value for single-valued properties. The source document is left unchanged, stays independent of the result, and merging the same source twice is the same as merging it once.",
  ["histories"], "all pairs of documents, policies and sequences of merges; lists of structures merge item by item, and properties of conflicting kinds only have to be kept",
  "Three fixed documents are merged in the tests; overlap, lists, language alternatives and repeated merges are not explored.",
  ["xmp/sync.go", "xmp/path.go", "xmp/array.go"],
  [("Document.Merge", "xmp/sync.go"), ("Document.SetPath", "xmp/path.go")])
p("P12", "Removing or filtering namespaces removes exactly those namespaces",
  "Removing a namespace, removing a list, keeping a list or applying an include/exclude filter deletes all properties of exactly the selected namespaces and reports whether anything was removed. All other properties keep their values, and the result can still be written, re-read and extended.",
  ["histories"], "all documents x all subsets of namespaces x sequences of removals and re-additions; all properties of a model count under its main namespace, wherever they are stored",
  "No test removes more than one namespace or checks that the remainder is intact.",
  ["xmp/document.go", "xmp/filter.go", "xmp/namespace.go"],
  [("RemoveNamespace(s) / FilterNamespaces", "xmp/document.go"), ("Filter.Apply and friends", "xmp/filter.go")])
p("P13", "Packet scanning finds every embedded packet in any stream",
  "Scanning a byte stream returns every well-formed UTF-8 metadata packet embedded in it, byte-exact, in order and without inventing others, no matter what binary data surrounds the packets, how large they are, or in which chunk sizes the stream delivers its bytes. Scanning for a document yields the content of the first packet, or the end-of-input error when there is none.",
  ["inputs", "schedules"], "all streams: number, size and encoding quote style of packets x surrounding bytes x read chunking including one byte at a time",
  "There is no test of scanning at all; failures depend on where read boundaries fall relative to packet markers.",
  ["xmp/reader.go"],
  [("ScanPackets / splitPacket / isXmpPacket", "xmp/reader.go"), ("Scan / Read", "xmp/reader.go")])
p("P14", "Size limits and padding are exact and never corrupt output",
  "With a size limit, an encoder either succeeds with at most that many bytes, which are exactly the bytes of the unlimited output apart from padding, or fails with the overflow error having written no more than the limit. With padding enabled the packet is exactly the limit in size, remains well-formed, and reads back with the same content; without packet wrapper no wrapper or padding is written.",
  ["inputs", "fault_sequences"], "all documents x all limits around the document's size x flag and indent settings x writers that fail after any number of bytes",
  "No test sets a size limit or padding; off-by-one errors show only at limits close to the document's size.",
  ["xmp/marshal.go"],
  [("countWriter.Write", "xmp/marshal.go"), ("Encoder.Encode padding", "xmp/marshal.go"), ("SetMaxSize / SetFlags", "xmp/marshal.go")])
p("P15", "Core scalar values survive conversion to and from text and JSON",
  "Every valid core scalar - date with its zone and precision, rational number, boolean, globally unique identifier, URI, split integer, duration, nullable number, string or flag - is unchanged by formatting it and parsing the result, in text and where supported in JSON. Documented alternative spellings parse to the same value, and malformed text is rejected with an error instead of yielding a wrong value.",
  ["inputs"], "all values of the core scalar types and all their accepted spellings",
  "No unit tests exist for these types; the samples exercise a few common dates and numbers.",
  ["xmp/xmp_types.go", "xmp/units.go"],
  [("Date, Rational, Bool, GUID, Uri ...", "xmp/xmp_types.go"), ("Null*, SplitInt, Duration", "xmp/units.go")])
p("P16", "Language alternatives and lists behave as documented containers",
  "A language alternative always holds at most one default entry, listed first, and looking up a language returns the value last set for it (the first of several entries added for one language); adding, unique-adding, setting and removing languages affects only that language, and removing the default promotes the first remaining entry. String and other lists behave as sequences (or sets, for unique-adding): adding, removing and finding items yields exactly the expected contents.",
  ["histories"], "all sequences of container operations with arbitrary languages and values; unique-adding does nothing when the language already has that value, removing takes out one entry",
  "Only two short language sequences are tested; defects need particular orders of additions, defaults and removals.",
  ["xmp/array.go", "models/xmp_base/types.go", "models/xmp_mm/types.go"],
  [("AltString methods", "xmp/array.go"), ("StringList / StringArray / IntList", "xmp/array.go"), ("IdentifierArray / ResourceRefArray", "models/")])
p("P17", "Versions are totally ordered and select versioned properties",
  "Parsing and formatting a version round-trips, versions compare as a total order on their numeric parts, and a range contains exactly the versions between its bounds, open bounds included. Properties tagged with a version range are written and read by the model exactly when the selected version lies in that range.",
  ["inputs"], "all versions, ranges and models with version-tagged properties",
  "No test touches versions at all.",
  ["xmp/semver.go", "xmp/typeinfo.go", "xmp/marshal.go", "xmp/unmarshal.go"],
  [("ParseVersion / Between / Before / After", "xmp/semver.go"), ("version tags", "xmp/typeinfo.go")])
p("P18", "Independent documents can be used from concurrent goroutines",
  "Any number of goroutines each working on documents of their own - reading, writing, merging, editing by path, closing - obtain exactly the results they would obtain running alone, without data races, although they share the namespace registry, type cache and node pool.",
  ["schedules"], "all interleavings of document operations on disjoint documents in a fresh process",
  "All existing tests are sequential.",
  ["xmp/node.go", "xmp/typeinfo.go", "xmp/registry.go"],
  [("nodePool / NewNode / Close", "xmp/node.go"), ("getTypeInfo cache", "xmp/typeinfo.go"), ("Registry lock", "xmp/registry.go")])
p("P19", "Native tags and XMP properties stay in step",
  "For every model with native tags and every tag with a text value it claims to support, setting a valid value through the native tag and reading the tag returns that value, the corresponding property carries it in the written document, and listing the native tags reports exactly the tags that are set. A model rejects tags it does not support with an error unless it keeps unknown tags as they are, and setting one tag leaves all other tags unchanged.",
  ["inputs", "histories"], "all models x native tags x values and sequences of tag updates; setting a list tag again may extend the list, and QuickTime ignores tags it does not support",
  "No test uses native tags.",
  ["xmp/native.go", "xmp/typeinfo.go", "models/*/model.go"],
  [("SetNativeField / GetNativeField / ListNativeFields", "xmp/native.go"), ("CanTag / GetTag / SetTag", "models/")])
p("P20", "iXML recorder metadata is read faithfully into XMP",
  "Every iXML document built from valid values is parsed into a model holding exactly those values, can be written back to iXML with no loss, and survives storage in an XMP document. Properties of older iXML versions are read as their present-day counterparts, and malformed iXML yields an error and never a panic.",
  ["inputs"], "all UTF-8 iXML documents over the supported elements and versions, with private sections",
  "The repository holds no iXML test and almost no sample data.",
  ["models/ixml/model.go", "models/ixml/types.go", "models/ixml/enum.go"],
  [("ParseXML / UnmarshalXML / Upgrade", "models/ixml/model.go"), ("value types", "models/ixml/types.go")])
p("P21", "Synchronising a property copies exactly one value under the given policy",
  "Synchronising a source path to a destination path, optionally through a conversion, makes the destination equal to the converted source whenever the policy permits it and otherwise leaves it untouched; no other property changes and the source never does. When a document is read, a file format property that is linked to a standard property takes the standard property's value, and when it is written with synchronisation a standard property that has no value takes the file format's (those of id3 and iXML always win); no value is lost in either direction, and an identifier of a file format's model becomes one of the standard identifiers exactly once.",
  ["histories"], "all pairs of source and destination properties x policies x current values, and sequences of synchronisations",
  "Tests synchronise three fixed pairs; the effect on other properties is not examined.",
  ["xmp/sync.go", "xmp/document.go", "models/*/model.go"],
  [("Document.Sync / SyncMulti", "xmp/sync.go"), ("SyncFromXMP / SyncToXMP / SyncModel", "models/*/model.go")])
p("P22", "Domain value types keep their meaning through text and XMP",
  "Every valid domain value - timecode, frame rate, frame count, media time, marker, part list, GPS coordinate, flash and light codes, EXIF date, lens and curve point, genre, track number, rating, colour, box and point - formats to text that parses back to the same value, numerically and structurally. Conversions between representations of one value (frames and timecode, degrees and coordinate text, numeric code and name) agree with each other.",
  ["inputs"], "all valid values of the domain types in all models",
  "The samples contain a few dozen such values and no test compares them.",
  ["models/xmp_dm/types.go", "models/exif/types.go", "models/id3/types.go", "models/crs/types.go", "models/qt/types.go", "models/pm/model.go", "models/tiff/types.go", "models/riff/types.go", "models/itunes/types.go", "models/xmp_tpg/types.go"],
  [("MarshalText / UnmarshalText / String / Parse pairs", "models/*/types.go, models/*/enum.go")])
p("P23", "Paths, filters and flag texts obey their algebra",
  "Splitting a path into its parts and joining them again yields the same path; pushing then popping a segment is the identity from either end, and the length equals the number of segments. Parsing the text form of a filter selects exactly the namespaces and groups it names, parsing a namespace group or a set of update flags yields an equal object, invalid text is rejected, and comparing two path lists reports exactly the paths that were added, removed or changed.",
  ["inputs"], "all paths, segment lists, filter texts, flag texts and pairs of path lists",
  "No test addresses these functions directly.",
  ["xmp/path.go", "xmp/filter.go", "xmp/sync.go", "xmp/namespace.go"],
  [("Path methods", "xmp/path.go"), ("ParseFilter / Filter.String", "xmp/filter.go"), ("ParseSyncFlags", "xmp/sync.go"), ("PathValueList.Diff / Unique / Find", "xmp/path.go")])
p("P24", "Documents stay isolated over any history of creation and closing",
  "Over any history of creating, reading, merging, editing, embedding and closing documents, the content of every open document is determined only by the operations applied to that document itself. Closing or removing content never alters, empties or leaks into another open document, although internal storage is recycled.",
  ["histories"], "all interleaved histories of operations over several open documents in one process",
  "Tests close at most one document at a time and never look at others afterwards.",
  ["xmp/node.go", "xmp/document.go", "xmp/sync.go", "xmp/xmp_ext.go"],
  [("node recycling in NewNode / Close", "xmp/node.go"), ("copyNode", "xmp/node.go"), ("Document.Close / RemoveNamespace", "xmp/document.go")])
p("P25", "Embedded resource metadata is carried along completely",
  "Metadata of other resources embedded in a document - the pantry of ingredient metadata and named extension structures - can be added as whole documents or models, is addressable by path under its index, and survives writing and re-reading in XML and JSON with every property intact and separate from the host's own properties.",
  ["inputs", "histories"], "all host documents x lists of embedded documents over registered and unknown namespaces",
  "One fixed pantry path is tested; embedded content is never compared after a round trip.",
  ["xmp/xmp_ext.go", "models/xmp_mm/model.go", "xmp/path.go", "xmp/json.go"],
  [("Extension / ExtensionArray", "xmp/xmp_ext.go"), ("AddPantry", "models/xmp_mm/model.go"), ("extension paths", "xmp/path.go")])

p("P26", "Names, namespaces and container forms are the published vocabulary",
  "For every property of the registered vocabularies: a value set in the typed model is written under the published namespace URI and name, in the published form (single value, ordered or unordered list, language alternative, structure with its published field names), and the same property written by another tool, with whatever namespace prefixes and in either kind of list where both are in use, is read into that typed property with the same value and is reachable by path under the usual prefix. Every registered namespace has its published URI and usual prefix.",
  ["inputs"], "all registered properties x all valid values x spellings of other tools; all registered namespaces x foreign prefixes",
  "Tests compare the library with its own tags: a renamed or swapped property still round-trips, so only documents of other tools would notice.",
  ["models", "xmp/typeinfo.go", "xmp/registry.go", "xmp/marshal.go", "xmp/unmarshal.go"],
  [("xmp struct tags and Typ() methods", "models"), ("Registry", "xmp/registry.go")])

p("P27", "Media management history and identifiers are kept complete and in order",
  "Whatever sequence of calls records versions, instances, changes, events, ingredients, derivations and identifiers in a document, the document afterwards holds exactly the recorded entries in the recorded order, each with the identifiers, parts, dates and agents in force when it was recorded; every entry but the addressed one is left as it was, changes recorded within one version are all found in it, references taken from a document carry its current identifiers, and nothing of it is lost or reordered by writing and reading the document in between.",
  ["histories"], "all sequences of media management calls, path edits of identifiers and intermediate writes as XML and JSON",
  "No test records more than one event, and none reads a history back.",
  ["models/xmp_mm/model.go", "models/xmp_mm/types.go", "models/xmp_base/model.go", "models/xmp_dm/types.go"],
  [("AddHistory / AppendVersionHistory / AddIngredient / Set*Id", "models/xmp_mm/model.go"), ("AddID / Identifier", "models/xmp_base"), ("Part / PartList", "models/xmp_dm/types.go")])
p("P28", "A document has one model per namespace and the registry stays consistent",
  "Over any history of making, finding, adding, replacing and removing models, a document holds exactly the models it was given and at most one per namespace: making a model returns the one that is there, every way of finding it returns the same one, a change through it is visible everywhere, and models made in different documents share nothing. The registry answers every lookup by prefix, URI, group and name consistently for all namespaces including those registered by the application, and lists it returned can be changed by callers without effect on it.",
  ["histories", "inputs"], "all sequences of model operations over the registered namespaces; all new namespaces x group lists",
  "Tests make each model once per document and never look at instances afterwards.",
  ["xmp/document.go", "xmp/registry.go", "xmp/namespace.go", "models/*/model.go"],
  [("MakeModel / FindModel / AddModel / RemoveNamespace", "xmp/document.go"), ("Registry", "xmp/registry.go"), ("MakeModel / FindModel / NewModel", "models/*/model.go")])
p("P29", "Models defined by applications are stored as their fields declare",
  "For every model an application declares from plain Go fields - of any basic kind, pointers, slices, fixed arrays, structs, embedded structs, and types with text, attribute or XMP methods on their value or pointer - a document with that model is written with exactly the properties, forms (attribute or element), container kinds and texts the declaration says, omitting omitted and unset fields; it reads back from XML and JSON to an equal model, lists and reads by path exactly these values, and native tags of its simple fields read and set the same text. Declaring or using such a model never panics.",
  ["inputs"], "all values of three declared models that cover the supported field kinds and flags; map fields and version limited fields are not included",
  "The test models have a few fixed values of a few field kinds.",
  ["xmp/marshal.go", "xmp/unmarshal.go", "xmp/typeinfo.go", "xmp/native.go", "xmp/path.go", "xmp/array.go"],
  [("getTypeInfo / structFieldInfo", "xmp/typeinfo.go"), ("marshalValue / marshalAttr", "xmp/marshal.go"), ("unmarshal / unmarshalAttr / setValue", "xmp/unmarshal.go"), ("GetNativeField / SetNativeField", "xmp/native.go"), ("GetModelPath / setModelPath / listPaths", "xmp/path.go")])

p("P30", "Node trees keep their structure under every operation",
  "The generic node trees in which unknown content is kept behave as plain ordered trees: over any sequence of making nodes, adding, replacing, appending, removing, clearing and closing them and setting attributes and values, every node not addressed keeps its name, value, attributes, children and order, lookups by name and attribute find exactly the nodes and attributes that are there, removed nodes live on and closed ones leave nothing behind in nodes made later. A tree is written to XML with exactly its elements, attributes, values and order, and writing leaves it unchanged.",
  ["histories", "inputs"], "all sequences of node operations over several trees; all trees of prefixed and plain names",
  "No test operates on nodes directly; recycled nodes are never examined.",
  ["xmp/node.go", "xmp/marshal.go"],
  [("NewNode / Close and its pool", "xmp/node.go"), ("AddNode / AppendNode / RemoveNode / FindNode", "xmp/node.go"), ("Node.MarshalXML", "xmp/node.go")])

p("P31", "The command line tool reports exactly what a file contains",
  "For every file, the xmpinfo tool prints the packets it contains byte for byte, and its XML, JSON and path reports carry exactly the document in the first packet, as the library with all its models registered reads it; several reports together are the reports one after another. A file without packets reports nothing, a missing or malformed one is an error that names the file, with a failure exit code; asked to be quiet the tool prints nothing, and the file is never changed.",
  ["inputs"], "all documents x placements of packets in files x output options",
  "No test runs the tool.",
  ["cmd/xmpinfo.go", "models/import.go", "xmp/reader.go"],
  [("options, reading and reports", "cmd/xmpinfo.go"), ("registration of all models", "models/import.go"), ("ScanPackets", "xmp/reader.go")])

p("P32", "A document is always written, listed and ordered in the same way",
  "The same document always gives the same bytes: writing it again as XML or JSON, listing its paths or its nodes again, in the same or another document read from the same text, gives the same result byte for byte and in the same order, however many namespaces and unknown properties it has. Reading the library's own output and writing it again settles: after a few rewrites XML and JSON come out unchanged, nothing keeps being added, dropped, converted or moved.",
  ["inputs", "histories"], "all documents of several namespaces x repeated writes, reads and rewrites in XML and JSON",
  "Order taken from map iteration differs only sometimes and only for certain combinations of namespaces; no test writes twice.",
  ["xmp/marshal.go", "xmp/document.go", "xmp/unmarshal.go", "xmp/path.go", "xmp/registry.go"],
  [("Encode / namespace declarations", "xmp/marshal.go"), ("ListPaths / Nodes / Namespaces", "xmp/document.go"), ("MarshalJSON", "xmp/document.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
