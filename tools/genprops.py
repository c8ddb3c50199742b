#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (kept here because JSONL is unpleasant to edit).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mechanism,observe,state=None):
    a={"files":files}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["mechanism"]=[{"name":n,"where":w} for n,w in mechanism]
    a["observe_at"]=observe
    a["hook_needed"]="none"
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("P01","Source offsets, positions and line:column pairs convert consistently",
 "For any file registered in a position set and any file content, every byte offset from 0 to the file size maps to a distinct position and back to the same offset, and to the line and byte column implied by the newlines of the content. Looking up a line and column returns the position with that line and column, and offsets, positions, lines or columns outside the file are never turned into a valid position of it. A position prints as file name, line and column, each if it is there.",
 ["inputs"],"all contents, all file sizes, all base offsets, all offsets / line-column pairs, valid or not",
 "Tests check a few fixed files; line tables, offsets and out-of-range pairs form a large product space.",
 ["textpos/textpos_from_go_token.go","textpos/textpos.go"],
 [("offset/position arithmetic and binary search over the line table","textpos/textpos_from_go_token.go")],
 ["File.Offset, File.Pos, File.Line, File.Position, File.PosForLineColumn, FileSet.Position"],
 [("line table","offset of first byte of each line","textpos.File.lines")])
p("P02","Files in one position set occupy disjoint ranges and lookups find the owner",
 "Files added to a position set never overlap, whatever bases and sizes are requested, and a request that would overlap is refused. A position belongs to exactly the file whose range holds it and to no file when outside every range, regardless of which positions were looked up before.",
 ["histories","inputs"],"all sequences of file additions with any bases and sizes, and all interleavings of lookups with any positions",
 "The lookup cache makes the answer depend on history; tests sample one history.",
 ["textpos/textpos_from_go_token.go"],[("base allocation, last-file cache, binary search","FileSet.AddFile, FileSet.file, searchFiles")],
 ["FileSet.AddFile, FileSet.File, FileSet.Position, FileSet.Base"])
p("P03","Line tables stay strictly increasing through every mutation",
 "Whatever sequence of line-adding, line-merging and table-setting calls is made, a file's line table starts at offset 0, is strictly increasing and stays inside the file, so line lookups stay monotone in the offset. A refused or ignored update leaves the table exactly as it was, and setting the table from content matches the newlines of that content.",
 ["histories","inputs"],"any valid line table as pre-state, any single mutation with any arguments (inductive step)",
 "Only a handful of call sequences are tested; invalid updates are mostly untested.",
 ["textpos/textpos_from_go_token.go"],[("line table updates","File.AddLine, MergeLine, SetLines, SetLinesForContent")],["File.LineCount, File.Line, File.LineStart, return values"])
p("P04","Every parsed s-expression form reports its true source location",
 "For any text the reader accepts, each form's reported start offset, end offset, line and column are those of the exact substring it was read from: the substring begins with the first and ends with the last character of the form, and lies inside its parent's span and after its previous sibling.",
 ["inputs"],"all input texts up to the bound, including multi-line text, comments and multi-byte characters",
 "Tests look at the positions of a few forms; position bugs need newlines, comments and multi-byte characters in particular places.",
 ["sexpr/sexpr.go","sexpr/sexpr_sourcefile.go","sexpr/sexpr_factory.go","sexpr/form/form.go"],
 [("reader position tracking and row/column to offset conversion","sexpr.readForm/readList, sexpr_sourcefile rowColToOffset")],["form.Form.SourcePosition via the reader API"])
p("P05","The s-expression reader agrees with its grammar and never hangs or panics",
 "For every input text the reader terminates without panicking and either reports an error or returns the forms the grammar prescribes: nested lists in order, double-quoted strings with their escapes resolved, numbers by value, symbols spelled exactly as written, with whitespace and line or block comments skipped. Unterminated lists, strings and comments are errors.",
 ["inputs"],"all input texts up to the bound",
 "Tests enumerate a few literals; escapes, comments and end of input interact.",
 ["sexpr/sexpr.go","sexpr/sexpr_util.go"],[("tokenizer / recursive reader","sexpr.ParseForm and helpers")],["sexpr reader API result forms and errors"])
p("P06","IRI reference resolution follows RFC 3986 section 5.2",
 "Resolving any reference against any absolute base IRI yields the target prescribed by RFC 3986 section 5.2: scheme, authority (including user information and port), path with dot segments removed, query and fragment each taken from base or reference as the standard says; the empty reference denotes the base itself, fragment included. Resolution never panics, and resolving an already absolute dot-free IRI returns it unchanged.",
 ["inputs"],"all base/reference pairs over the bounded component alphabet",
 "Tests use the RFC example table against one base without port or userinfo.",
 ["rdf/iri/iri_resolve.go","rdf/iri/iri.go"],[("reference resolution and remove_dot_segments","iri_resolve.go")],["iri.IRI.ResolveReference / String"])
p("P07","IRI parsing accepts exactly the supported grammar and preserves the text",
 "Parsing an IRI either fails or returns a value whose string form is byte-for-byte the input, and it accepts an input exactly when the RFC 3987 grammar for IRI references does and every run of percent-encoded octets in it is valid UTF-8. The validity check of an existing IRI value gives the same verdict as parsing its text, and its display form is the text between angle brackets.",
 ["inputs"],"all strings up to the bound, over all bytes including invalid UTF-8",
 "Tests list a few IRIs; character classes and component boundaries have many corner cases.",
 ["rdf/iri/iri.go"],[("regular expressions assembled from the RFC grammar","iri.go Parse and char classes")],["iri.Parse, IRI.String, IRI.Check"])
p("P08","Percent-encoding normalisation is idempotent and preserves meaning",
 "Normalising the percent encoding of any IRI that is accepted gives an IRI that decodes to the same byte sequence, uses upper-case hex digits, unescapes only characters that never need escaping in an IRI, and leaves reserved characters as they were. Applying it again changes nothing.",
 ["inputs"],"all IRIs up to the bound, with any percent-encoded bytes including multi-byte UTF-8 and invalid sequences",
 "A few normalisation cases are tested; multi-byte and malformed sequences combine in many ways.",
 ["rdf/iri/iri.go"],[("percent run scanner and UTF-8 decoding","iri.go NormalizePercentEncoding")],["iri.IRI.NormalizePercentEncoding"])
p("P09","N-Triples output parses back to the same triple",
 "Any triple built from valid terms (text in UTF-8, IRIs in percent-normalised form, labels and language tags of the grammar), when written as an N-Triples line and parsed again, yields an equal triple: IRIs, blank node labels, and literals with any characters, datatype or language tag survive unchanged. Written output is a single line that contains no raw line break inside a literal.",
 ["inputs"],"all terms with lexical values up to the bound, over all valid UTF-8 including control characters, quotes and backslashes",
 "Tests round-trip fixed examples; escaping bugs hide in particular characters.",
 ["rdf/ntriples/ntriples.go"],[("escape / unescape and line grammar","ntriples.go")],["Triple.String, ntriples.ParseLine(s)"])
p("P10","N-Triples parsing never panics and accepts only well-formed lines",
 "For every input line the parser terminates without panicking and either reports an error or returns the triple the N-Triples grammar assigns to that line; subjects are IRIs or blank nodes, predicates are IRIs, escape sequences denote the characters the grammar says, and comments and blank lines yield no triple. Text that is not an N-Triples line is rejected, as are empty IRIs and escapes for characters that do not exist or may not occur in an IRI.",
 ["inputs"],"all lines up to the bound, exhaustive over every byte at symbolic positions of line skeletons",
 "Tests check a list of good and bad lines.",
 ["rdf/ntriples/ntriples.go"],[("regular-expression based line parser","ntriples.go")],["ntriples.ParseLine, ParseLines"])
p("P11","RDF term and triple equality is an equivalence consistent with content",
 "Equality of RDF terms and triples is reflexive, symmetric and transitive, distinguishes terms of different kind, lexical value, datatype or language, and agrees with equality of their serialised form. Every term is of exactly one kind by its kind predicates, and an object made from a subject denotes the same node.",
 ["inputs"],"all pairs and triples of terms up to the bound",
 "Tests compare a few equal pairs; inequality and symmetry across kinds is quadratic.",
 ["rdf/ntriples/ntriples.go"],[("equality helpers and kind checks","ntriples.go")],["ntriples term equality functions"])
p("P12","Generated blank nodes in RDF/XML never collide",
 "When an RDF/XML document is read, every anonymous node gets a blank node distinct from all other anonymous nodes and from every node named explicitly in the document, while the same explicit name always denotes the same node. This holds whatever explicit names the document uses and in whatever order they occur.",
 ["inputs"],"all documents up to the bound mixing anonymous nodes with arbitrary node identifiers",
 "Test documents use few identifiers and none that resemble generated ones.",
 ["rdf/rdfxml/rdfxml.go"],[("blank node allocation","rdfxml.go")],["triples produced by rdfxml parser"])
p("P13","RDF/XML parsing emits exactly the triples of the W3C striping rules",
 "For any RDF/XML document in the bound the parser emits exactly the triples that the W3C grammar assigns: node and property elements, property attributes, resource and literal parse types, collections, containers numbered per parent element, datatypes, and reification. Language tags and base IRIs are inherited by nested elements only.",
 ["inputs","programs"],"all element/attribute trees up to the bound",
 "The W3C suite samples isolated features; scoping and nesting combinations are not covered.",
 ["rdf/rdfxml/rdfxml.go"],[("recursive descent over XML tokens","rdfxml.go")],["rdfxml parser output"])
p("P14","RDF/XML constructs the W3C grammar forbids are rejected",
 "A document that uses a forbidden term as node, property or attribute name, conflicting attributes on one element, an ill-formed identifier, or the same identifier twice under one base IRI yields an error, never a silent set of triples. Reading never panics.",
 ["inputs"],"all element and attribute name choices and attribute combinations up to the bound",
 "Each negative test checks one combination.",
 ["rdf/rdfxml/rdfxml.go"],[("attribute and name checks","rdfxml.go")],["rdfxml parser error results"])
p("P15","Inferred column types can represent every sampled value",
 "When a record type is inferred from sample rows, each column's inferred type and format parse every non-empty value observed in that column, and the choice does not depend on the order in which rows are seen. Integer types are chosen only when all values are integers within that type's range, and mixed or textual columns become strings.",
 ["histories","inputs"],"all sequences of values up to the bound, any order",
 "Tests infer a few CSV files; adequacy is a statement about every value and every order.",
 ["recordinfer/recordinfer.go","recordinfer/recordinfer_numbers.go","recordinfer/recordinfer_timestamps.go","recordinfer/recordinfer_strings.go"],[("per-column candidate elimination","recordinfer_*.go")],["recordinfer.RecordBuilder.Build output"])
p("P16","Inferred record mappings are one-to-one with the columns",
 "The inferred mapping has exactly one entry per column, in column order, carrying that column's name, with distinct positive field numbers and field names that are legal protocol buffer identifiers and distinct from one another. Rows whose width differs from the header are rejected.",
 ["inputs"],"all header rows up to the bound",
 "Tests use sensible headers; naming collisions need unusual headers.",
 ["recordinfer/recordinfer.go","csvinfer/csvinfer.go"],[("column mapping construction","recordinfer.go Build")],["recordtoproto.RecordProtoMapping produced by inference"])
p("P17","CSV rows decode by header name into the right record fields",
 "For any header order and any rows, each exported struct field receives the decoded cell of the column with its name (its tag or its field name), unrelated columns and skipped fields are ignored, and a required column missing from the header is an error, as is a row without the cell or with a cell that does not decode. Errors carry the number the row has in the file, also after a row that cannot be read. Reading all rows at once and reading them one by one give the same records.",
 ["inputs"],"all header permutations, extra columns and row contents up to the bound",
 "Tests read two small files with one header order.",
 ["csvcoder/csvcoder_file.go","csvcoder/csvcoder_row.go","csvcoder/csvcoder_cell.go","csvcoder/csvcoder_positions.go"],[("header to field plan","csvcoder_row.go")],["csvcoder.FileParser.Read/ReadAll and error text"])
p("P18","Built-in text decoders are exact inverses of the encoders",
 "For every built-in integer, boolean and string type, every type based on one, and every value, encoding to text and decoding gives the same value back. Decoding accepts exactly the texts whose value fits the target type, and a failed decode (also of a floating-point number) reports an error and leaves the target unchanged. (Floating-point text has six decimals, as documented.)",
 ["inputs"],"all values of each built-in type (all bit patterns for integers); all texts up to the bound",
 "Tests try a few values per type; range edges of each width differ.",
 ["textcoder/textcoder_builtins.go","textcoder/textcoder.go"],[("builtin encoders/decoders","textcoder_builtins.go")],["textcoder.Marshal/Unmarshal"])
p("P19","Coder registries resolve deterministically and honour the caller's context",
 "A registry resolves a type to the coder registered for exactly that type, else to the type's own text methods, else to the coder registered for its basic kind, and otherwise to none. A registration with unfit functions is refused and changes nothing; registering a type again replaces its coder, also where it was handed out before. The context given by the caller is the one the coder receives, and deriving a context leaves the original as it was.",
 ["histories","inputs"],"all registration sequences up to the bound over a set of types, then any lookup",
 "Tests register one coder per test.",
 ["textcoder/textcoder.go"],[("registry maps and lookup order","textcoder.go")],["textcoder.Registry lookup API"])
p("P20","Wire paths print and parse back to the same path",
 "Every valid path through a message, of any length and with field, repeated-index and map-key steps, prints to text that parses back to an identical path. Parsing a text never panics and either fails or yields a path whose text denotes the same steps.",
 ["inputs"],"all paths and texts up to the bound, over all key types and key values including quotes, slashes and control characters",
 "Tests use short paths with simple keys.",
 ["wirepath/wirepath.go","wirepath/wirepath_from_string.go","wirepath/wirepath_protostrings.go","wirepath/wirepath_value.go"],[("path parser and printer","wirepath_from_string.go, wirepath.go")],["wirepath.ParseString, Path.String"])
p("P21","Reading a value through a wire path is correct and never panics",
 "Following a path in a message returns the value reached by its steps when every step exists, and an error otherwise: unknown fields, indexes outside the list, map keys of another type than the map's, keys or indexes of fields that have none, and steps into scalars or past an absent map entry are errors. A path that ends at an absent map entry gives no value. It never panics and never returns a value from another place.",
 ["inputs"],"all paths up to the bound applied to all messages of a bounded shape",
 "Tests follow a few valid paths.",
 ["wirepath/wirepath.go","wirepath/wirepath_value.go"],[("descriptor-driven traversal","wirepath.go GetValue")],["wirepath.GetValue"])
p("P22","The imports of generated Go code are unique and unambiguous, for concurrent callers too",
 "Whatever packages are requested, with and without aliases and by any number of concurrent callers, two imports with different paths never have the same package name, blank imports aside. Registering a path always succeeds, gives an import of that path whose name is a Go identifier that is not blank, and gives the same import whenever it is asked again; a path is not renamed without need. Asking for an alias gives an import with that alias, or an error if the alias is empty or names another path. The import given is the one found by its path or name later, and its fragment of Go code names the alias, if any, and quotes the path. Concurrent use is free of data races and deadlocks. The assumed name of a path is its last element that does not look like a major version, without a leading go-, up to the first character that identifiers cannot have.",
 ["histories","schedules","inputs"],"all sequences of up to the bound of registrations with colliding names, all schedules of up to three callers, and all paths and names of up to the bound characters",
 "Tests register a few packages sequentially, and one concurrent test samples schedules.",
 ["codegen/codegen_imports.go"],[("alias allocation under lock","codegen_imports.go Imports"),("import fragments","codegen_imports.go Import.GoFragment")],["codegen.Imports.Register, RegisterAliased, FindByImportPath, FindByPackageName; codegen.Import"])
p("P23","Generated .proto files declare exactly the mapped fields",
 "The generated protocol buffer definition declares one field per mapped column, in order, with the mapped name, number and type, imports each needed file once, and carries the requested package. Each field's comment is printed above it in full. Column names, comments and import paths cannot break out of the place they are printed in.",
 ["inputs"],"all mappings up to the bound with arbitrary comment, column and package text",
 "Golden tests compare two outputs.",
 ["csvtoproto/csvtoproto.go"],[("proto printer","csvtoproto.go")],["csvtoproto proto code generation"])
p("P24","Generated Go converters are well-formed and convert every row as mapped",
 "For every valid record mapping the generated Go converter is syntactically valid and declares a record struct with exactly one field per mapped column, in order, whose tag names the column and whose type suits the mapped type. Its conversion method assigns that field, converted where needed with the mapped layout, zone or unit, to the field protocol buffers for Go gives the mapped name, and nothing else. Column names, layouts, units and zones cannot break out of the literals they are printed in. Compiled, the converter turns every row of every file that has the mapped columns into the message the mapping describes, in order, reports every row it cannot convert as an error, and runs each registered hook once per row, whose error it reports.",
 ["inputs"],"all mappings up to the bound, with any column name, layout, unit and zone text; for a converter with a column of every type, all files up to the bound",
 "Golden tests compile two generated converters.",
 ["csvtoproto/csvtoproto_go_codegen.go"],[("text/template based generator","csvtoproto_go_codegen.go")],["generated Go source"])
p("P25","Time and duration conversions of generated converters are exact",
 "Converters used by generated code turn every time value in the representable range into the protocol buffer timestamp or duration denoting the same instant or length and report out-of-range or unparsable text as an error. Seconds and nanoseconds always satisfy the protocol buffer sign and range rules.",
 ["inputs"],"all time values (64-bit) and all layout/text pairs up to the bound",
 "Tests convert a couple of timestamps.",
 ["csvtoprotoparse/csvtoprotoparse.go"],[("time to proto conversion","csvtoprotoparse.go")],["csvtoprotoparse functions"])
p("P26","Copying records delivers every message once, in order, or reports the error",
 "Copying from a reader of messages to one or several writers delivers every message read to every writer exactly once and in order, closes what it should, and returns the first error instead of dropping it. A reader's end of input is success, and no message is delivered after a failure.",
 ["fault_sequences","inputs"],"all message counts up to the bound and all placements of read/write/close errors in readers and writers",
 "Tests exercise the error-free path.",
 ["protocp/protocp.go","protocp/protocp_writers.go"],[("copy loop and composite writer","protocp.go, protocp_writers.go")],["protocp.Copy result and calls made to reader/writers"])
p("P27","Code generation requests never write outside the workspace",
 "For every request, generated files are written only inside the configured workspace directory, or the request fails with an error and nothing is written. Requests with missing or inconsistent fields produce an invalid-argument error, not a crash, and an error while writing is reported.",
 ["inputs"],"all workspace-relative target strings up to the bound, including '..', '//', and absolute components",
 "Tests use one well-behaved target.",
 ["service/service_generate_code.go","service/service.go","service/service_infer.go"],[("target to path mapping","service_generate_code.go")],["files written by the service"])
p("P28","Inferred XML schemas cover every sampled document",
 "For every stream of well-formed XML samples the inferred schema is a valid proto3 file that describes exactly what the samples have: a message for every root or nested element with attributes or children, in which every observed attribute and child element has one field, named after it. The field of a child is repeated exactly when some parent had more than one. Attributes and plain elements get the narrowest of int64, double and string that can hold every observed value. Names are valid and distinct whatever the XML names are. The text does not depend on map iteration order or on how the reader delivers tokens. A stream that is unbalanced, ends early or fails gives an error, and nothing gives a crash.",
 ["inputs","histories"],"all documents up to the bound, all values and names up to a length, and all token streams up to a length",
 "There are no tests of this package.",
 ["xmlinfer/xmlinfer.go","xmlinfer/xmlinfer_string_fields.go"],[("statistics per element and the schema made of them","xmlinfer.go"),("types of values","xmlinfer_string_fields.go")],["xmlinfer.Infer and InferResult.ProtoFile"])
p("P29","Comparison treats repeated protocol buffer fields and slices alike",
 "With the comparison option of the library, cmp.Equal never panics and finds a reflected list of protocol buffer values equal to another list or to a slice exactly when both have the same element type (for messages the same message name; the name does not matter with IgnoreElementType), the same length and equal elements in order. The verdict does not depend on the order of the arguments or on where in a value the list is. A list that is unset is an empty list. A list is never equal to anything that is not a list or slice of such elements, and the comparison of other values is left as it is.",
 ["inputs"],"all lists and slices of up to three elements of 13 kinds of elements, within other values too",
 "Tests compare a few pairs of message lists.",
 ["internal/protoreflectcmp/protoreflectcmp.go","internal/protoreflectcmp/protoreflectcmp_list_impl.go"],[("normalisation of lists and slices","protoreflectcmp.go")],["cmp.Equal with protoreflectcmp.Transform"])
p("P30","Timestamp format detection recognises only formats that parse all samples",
 "A timestamp format offered for a column parses every sampled value of that column, and parsing with it gives the instant the text denotes. Text that is no valid time, or has no date, never yields a timestamp column. (Names of zones other than UTC are taken as Go's time package takes them.)",
 ["inputs","histories"],"all value sequences up to the bound",
 "Tests have a handful of date strings.",
 ["recordinfer/recordinfer_timestamps.go"],[("candidate layouts and time.Parse","recordinfer_timestamps.go")],["recordinfer output for timestamp columns"])
p("P31","File sets and coder registries can be used by several threads at once",
 "Threads may add files to a file set, look files and positions up and change the line tables of files at the same time, and may parse CSV cells and rows and register row types at the same time, including the first use of a type. No schedule leads to a data race, a deadlock or a crash. Files never overlap, a position is found in the file that has it, a line table stays in order, and each thread gets for a cell or row what it would get alone.",
 ["schedules","inputs"],"all schedules of up to three threads of one to three operations each, with arbitrary sizes, positions and cell values",
 "Unit tests use one thread, or sample a few schedules.",
 ["textpos/textpos_from_go_token.go","csvcoder/csvcoder_cell.go","csvcoder/csvcoder_row.go"],[("locks of file sets and files","textpos_from_go_token.go"),("registries of cell parsers and row types","csvcoder_cell.go, csvcoder_row.go")],["textpos.FileSet and File, csvcoder.ParseCell, ParseRow and SafeRegisterRowStruct called from several goroutines"])
p("P32","Code generated from an inferred mapping converts the sample it was inferred from",
 "The mapping inferred from a CSV sample, with any distinct names of columns, can be turned into a .proto file and a converter as it is: one column and one field for every column of the sample, with its name, type and format. A converter generated from an inferred mapping reads the whole sample, and every other file whose cells have the formats of the sample's columns, into messages that hold the values of the cells: integers, floats, strings, and the instants that times denote, in the zone they tell or in the zone that was given for times that tell none. A cell that is no time of its column's format is reported as an error.",
 ["inputs"],"two samples with 20 and 5 columns (times of 20 formats), whose converters read rows with arbitrary digits in every part of a time; samples of two columns with arbitrary short names",
 "Unit tests infer mappings and test converters apart, with mappings written by hand.",
 ["csvinfer/csvinfer.go","recordinfer/recordinfer.go","recordinfer/recordinfer_timestamps.go","csvtoproto/csvtoproto_go_codegen.go","protocp/csvtoprotoparse/csvtoprotoparse.go"],[("inference and its Mapping","recordinfer.go"),("code generation","csvtoproto.go")],["csvinfer.InferProto, InferredProto.Mapping, csvtoproto.GenerateCode and Read/ReadAll of the generated Reader"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for e in P: f.write(json.dumps(e,ensure_ascii=False)+"\n")
print(len(P))
