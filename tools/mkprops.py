#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so that the file stays well-formed).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ["Parser::parse_section_buffer","Parser::parse_section","Parser::parse_notebook"],hook_needed=hook)))
p("C01","Damaged or hostile files never crash the process that reads them",
 "Whatever bytes a section or notebook file contains, every parse entry point returns either a document or an error: it never panics, aborts, overflows the stack or overflows arithmetic. This includes torn, bit-flipped, zeroed, misplaced and stale sectors, lost records, and well-formed files whose object references are redirected, cyclic, dangling or nested very deeply.",
 ["inputs","fault_sequences"],"for every stored document and every sequence of storage faults or semantic corruptions applied to it",
 "47 unit tests feed hand-written fragments to single decoders; no test damages a whole file, and the crash depends on which of thousands of bytes is damaged and in which structural context.",
 ["src/reader.rs","src/fsshttpb/","src/onestore/","src/one/","src/onenote/","src/errors.rs"],
 [("every read is length checked and returns an error","src/reader.rs"),("recursion and cycle guards","src/onenote/, src/onestore/"),("checked indexes into reference lists","src/one/property_set/, src/onenote/rich_text.rs")])
p("C02","Reading a damaged file takes bounded time and memory",
 "Every parse finishes, and the work it does and the memory it holds stay within modest bounds set by the size of the files it reads (near linear in practice, never worse than quadratic plus a constant), for every file content including cyclic or heavily shared references and absurd declared lengths or counts. A small file can never make a read hang or allocate without bound.",
 ["inputs","fault_sequences"],"for every file content reachable by storage faults, corrupted lengths/counts, reference cycles and shared substructure",
 "Tests only read well-formed samples; termination and resource bounds quantify over all reference graphs and declared sizes.",
 ["src/reader.rs","src/onestore/object_space.rs","src/onestore/revision.rs","src/onenote/outline.rs","src/onenote/table.rs","src/shared/multi_byte.rs"],
 [("declared lengths are checked against remaining input before allocating","src/reader.rs, src/fsshttpb/data/"),("base-revision chain and content recursion are cycle-limited","src/onestore/object_space.rs, src/onenote/")])
p("C03","A torn or truncated file is never read as a shorter document",
 "If a section or table-of-contents file is cut short at any byte (a crash, a partial download, or a file that ends early while it is being read), the read reports an error or returns exactly the document that the complete file holds. It never returns a document with content missing or altered.",
 ["crash_points","fault_sequences"],"for every document, every packaging variant and every cut point, at rest or while the read is in progress",
 "No test truncates a file; the property is about each of thousands of cut points of every file.",
 ["src/reader.rs","src/fsshttpb/packaging.rs","src/fsshttpb/data_element/","src/onenote/mod.rs"],
 [("bounds checks at each primitive read","src/reader.rs"),("package and element end markers are required","src/fsshttpb/packaging.rs, src/fsshttpb/data_element/mod.rs")])
p("C04","A read returns exactly the last committed revision of a document",
 "For every history of edits, incremental commits, compactions and interrupted commits, reading a section returns exactly the state of the last commit: the pages in document order with their levels, authors, titles and content, each object at its newest committed version, deleted objects gone. Records of an uncommitted revision, superseded revisions, older page versions and unreferenced objects never influence the result.",
 ["histories","crash_points"],"for every edit/commit/crash history of any number of writers and every layout of the resulting revision chain",
 "The sample files are single snapshots; none has a chain of dependent revisions, interrupted commits or superseded roots, and correctness quantifies over all histories.",
 ["src/onestore/object_space.rs","src/onestore/revision.rs","src/onestore/mod.rs","src/fsshttpb/data_element/","src/onenote/section.rs","src/onenote/page_series.rs","src/onenote/page.rs"],
 [("revisions are applied newest first and the newest object version wins","src/onestore/object_space.rs, src/onestore/revision.rs"),("roots are taken from the newest revision","src/onestore/object_space.rs"),("cell to revision resolution through the storage index","src/fsshttpb/data_element/mod.rs, src/onestore/object_space.rs")],
 [dict(name="revision chain",meaning="each revision names its base and adds object groups and roots",where="src/onestore/revision.rs")])
p("C05","Text, styles, math and text-embedded objects are read back as written",
 "For every committed paragraph the text, run boundaries, per-run and paragraph styles, spacing, alignment, hyperlinks, language, inline math objects and embedded ink or line-break objects read back equal what was written and stay attached to the right run; a paragraph with embedded ink shows these objects in place of its text. Editing or adding other runs, paragraphs or styles never shifts them.",
 ["histories","inputs"],"for every edit history over paragraphs with any mix of runs, styles, math and embedded objects, under benign storage behaviour",
 "Snapshot tests of a few samples fix single combinations; alignment of runs, styles and run data depends on arbitrary combinations and positions.",
 ["src/onenote/rich_text.rs","src/onenote/math_inline_object.rs","src/one/property_set/rich_text_node.rs","src/one/property_set/paragraph_style_object.rs","src/one/property_set/text_run_data.rs"],
 [("run formatting references resolved in order","src/onenote/rich_text.rs"),("run data paired with run styles by position","src/onenote/rich_text.rs"),("string decoding","src/one/property/, src/utils.rs")])
p("C06","Tables, lists, outlines and page layout are read back as written",
 "For every committed page the outline hierarchy (nesting levels, groups, paragraph order, list numbering formats and fonts), tables (rows, columns, widths, cell contents, colours, borders) and layout values (positions, sizes, alignments, indents) read back equal what was written, in the written order. Optional values that were never set read back as absent or as their documented default.",
 ["histories","inputs"],"for every edit history over outlines, lists and tables of any shape, under benign storage behaviour",
 "The samples cover a few fixed shapes; nesting, ordering and presence/absence combinations are unbounded.",
 ["src/onenote/outline.rs","src/onenote/table.rs","src/onenote/list.rs","src/onenote/page.rs","src/onenote/page_content.rs","src/onenote/content.rs","src/one/property/layout_alignment.rs","src/one/property_set/"],
 [("child references resolved in stored order","src/onenote/outline.rs, src/onenote/table.rs"),("bit-field decoding of alignment and colour","src/one/property/")])
p("C07","Images and embedded files are read back byte for byte",
 "For every committed image, printout or embedded file the payload bytes, file name, extension, alternative text, sizes, position, hyperlink, media type and web-embed information read back exactly as written, for every payload content and size. Replacing or deleting one payload in a later revision never changes or exchanges another.",
 ["histories","inputs"],"for every edit history over binary payloads of any size and content and any placement of their storage records",
 "Samples hold few small payloads; payload lengths, record placement and sharing between objects are unbounded.",
 ["src/onenote/image.rs","src/onenote/embedded_file.rs","src/onenote/iframe.rs","src/onestore/object.rs","src/fsshttpb/data_element/object_data_blob.rs"],
 [("blob references resolved through their storage record","src/onestore/object.rs, src/onestore/revision.rs"),("payload handed through without copy or truncation","src/onestore/object.rs")])
p("C08","Ink drawings are read back stroke for stroke",
 "For every committed drawing, strokes read back in order with exactly the points that the stored, variable-length encoded paths hold (any sign, magnitude and point count), their pen tip, transparency and colour, and the drawing's bounding box and offset, with horizontal and vertical scale applied to their own axis.",
 ["histories","inputs"],"for every edit history over ink objects with any number of strokes, points, coordinate values and scales",
 "The multi-byte coding and axis scaling are tested on a handful of constants; stroke order, extreme values and differing scales are not.",
 ["src/onenote/ink.rs","src/shared/multi_byte.rs","src/one/property_set/ink_container.rs","src/one/property_set/ink_stroke_node.rs","src/one/property_set/stroke_properties_node.rs","src/one/property/ink_dimensions.rs"],
 [("signed multi-byte decoding","src/shared/multi_byte.rs"),("per-axis scaling and delta accumulation","src/onenote/ink.rs")])
p("C09","Note tags keep their own definition, state and order",
 "For every committed object with note tags, the tags read back in order, each with exactly its own completion and status information and its own definition (label, shape, colours, type), whatever mix of tags with and without definition an object has. Adding, removing or changing one tag never changes what another one shows.",
 ["histories","inputs"],"for every edit history over objects carrying any number and mix of tags, with shared, distinct, missing or re-created definitions",
 "No stable test reads an object with two differently defined tags; the association is positional and quantifies over all combinations.",
 ["src/onenote/note_tag.rs","src/one/property_set/note_tag_container.rs","src/one/property_set/note_tag_definition.rs","src/one/property/object_reference.rs","src/one/property/note_tag_shape.rs"],
 [("positional matching of references to properties","src/one/property/object_reference.rs, src/onestore/types/property_set.rs"),("status and shape decoding","src/one/property/")])
p("C10","A notebook read lists exactly the sections and groups on disk, in order",
 "Reading a notebook yields exactly the listed sections and section groups that exist, at every nesting level, in table-of-contents order, without duplicates, with the right display names and colours and the right content each; the recycle bin and entries whose file is gone are skipped, and everything else the directory holds is ignored.",
 ["histories","configurations"],"for every history of creating, renaming, reordering, deleting and recolouring sections and groups and every resulting directory layout",
 "Notebook tests use one small sample tree; order, duplicates, missing entries, nesting and stray files combine without bound.",
 ["src/onenote/mod.rs","src/onenote/notebook.rs","src/onenote/section.rs","src/one/property_set/toc_container.rs"],
 [("ordering ids sort the entries","src/onenote/notebook.rs"),("escape sequences in names","src/one/property_set/toc_container.rs"),("per-entry existence and type dispatch","src/onenote/mod.rs")],
 observe=["Parser::parse_notebook"])
p("C11","Reading is deterministic",
 "Reading the same stored files gives the same result, or the same success-or-failure, every time: independent of hash seeds, directory enumeration order, what the same or another parser read before, which thread reads, and how the path to the file is spelled (relative, absolute, with redundant components).",
 ["schedules","configurations","inputs"],"for every stored state (well-formed, ambiguous or damaged) and every pair of environments: hash seeds, enumeration orders, prior reads, threads, path spellings",
 "A test sees one hash seed and one directory order per run and never compares two; divergence needs ambiguous files or unlucky iteration orders.",
 ["src/onenote/mod.rs","src/fsshttpb/packaging.rs","src/fsshttpb/data_element/","src/onestore/","src/onenote/section.rs"],
 [("results never depend on hash map iteration order","src/fsshttpb/data_element/mod.rs, src/onestore/"),("deterministic choice of a group's table of contents","src/onenote/mod.rs")])
p("C12","Concurrent reads give the same results as sequential ones",
 "Any number of threads reading notebooks and sections at once, with separate parsers, of the same or different files, under every interleaving, each get exactly the result they would get alone, also when some of the other reads fail, and documents returned to one thread can be sent to and inspected from others.",
 ["schedules","fault_sequences"],"for every set of concurrent readers, every interleaving at I/O and allocation points, and every fault in one of them",
 "All tests are single-threaded readers; isolation quantifies over interleavings.",
 ["src/onenote/mod.rs","src/onestore/","src/fsshttpb/","src/reader.rs","src/utils.rs"],
 [("no shared mutable state between parses","src/")])
p("C13","Benign I/O behaviour is invisible",
 "Short reads, interrupted system calls, slow storage, wrong size hints and any other legal behaviour of file and directory calls never change the result of a read: it equals the result under ideal I/O, and the file and buffer entry points agree.",
 ["fault_sequences","schedules"],"for every sequence of benign faults at every file and directory call of a read",
 "Tests run on a well-behaved local file system that never returns short or interrupted reads.",
 ["src/onenote/mod.rs"],
 [("whole-file reads that loop until end of file","src/onenote/mod.rs")])
p("C14","A failing disk is reported, never read as missing content",
 "If any system call made while reading a notebook or section fails with a genuine I/O, permission or resource error, the read returns an error or the complete result; it never returns a result in which sections, groups or content are missing because of the fault. Once the fault is gone the same parser reads the full result again.",
 ["fault_sequences","crash_points"],"for every call of every read, every error code and every later heal",
 "Tests never inject I/O errors; each call site of each read is a separate fault point.",
 ["src/onenote/mod.rs","src/errors.rs"],
 [("I/O errors propagate through the error type","src/onenote/mod.rs, src/errors.rs"),("only a definite 'not found' skips an entry","src/onenote/mod.rs")],
 observe=["Parser::parse_notebook","Parser::parse_section"])
p("C15","Reading a notebook never leaves the notebook's directory",
 "Whatever names a table of contents lists (parent components, absolute paths, device or reserved names, odd encodings) and whatever symbolic links the directory holds when an entry is resolved, a notebook read never opens or returns content of a file that lies outside the notebook's own directory. Legitimate names still resolve to the section or group they denote.",
 ["inputs","fault_sequences","configurations"],"for every entry name, link layout and I/O fault, in the notebook and at every group level",
 "Unit tests try three fixed escape shapes; names, links and their combination with failing lookups are unbounded.",
 ["src/onenote/mod.rs"],
 [("file-name sanitising","src/onenote/mod.rs"),("canonicalisation and prefix check against the base directory","src/onenote/mod.rs")],
 observe=["system calls made by Parser::parse_notebook","Parser::parse_notebook result"])
p("C16","Reading changes nothing and leaks nothing",
 "A read, whether it succeeds, fails or is damaged half-way, never creates, modifies, renames or deletes anything on disk, makes no network or process calls, writes nothing to the terminal, and closes every file and directory it opened; after its result is dropped no memory it allocated remains in use.",
 ["fault_sequences","inputs"],"for every read, successful or failing at any point through damage or I/O errors",
 "Tests do not observe descriptors, live memory or side effects, least of all on error paths.",
 ["src/onenote/mod.rs","src/onestore/","src/fsshttpb/","src/onenote/"],
 [("scoped ownership of handles and buffers, no reference cycles","src/")],
 observe=["system calls and allocator state around every entry point"])
p("C17","Physical layout does not change what is read",
 "Two files that hold the same logical document read equal: the order of storage records, the choice among equivalent encodings and header widths, object and record identifiers, the packaging variant, how objects are spread over groups and revisions, property order, and reorganisation or compaction by a background process have no influence on the result.",
 ["histories","configurations"],"for every document and every pair of legal physical layouts of it, including reorganisation between two reads",
 "Each sample exists in one physical layout; equivalence quantifies over all layouts.",
 ["src/fsshttpb/","src/onestore/","src/shared/"],
 [("all legal width variants are decoded","src/fsshttpb/data/"),("records are found by identifier, not position","src/fsshttpb/data_element/, src/onestore/"),("compact identifiers mapped through per-object tables","src/onestore/mapping_table.rs")])
p("C18","A lost record is reported or harmless, never silently missing content",
 "If storage loses whole records of an otherwise intact file, or a reference in it cannot be resolved or leads to an object of the wrong kind, the read reports an error or returns exactly the content of the intact file. It never silently leaves out pages, paragraphs, payloads or structure that the remaining file still refers to.",
 ["fault_sequences"],"for every document and every subset of lost or unresolvable records",
 "No test removes a record from a file; the property quantifies over all subsets of all files.",
 ["src/fsshttpb/data_element/","src/onestore/","src/onenote/","src/one/property/object_reference.rs","src/one/property/object_space_reference.rs"],
 [("missing records and objects raise malformed-data errors","src/onestore/, src/onenote/"),("reference lists are resolved completely","src/one/property/")])
p("C19","Files of the wrong kind or version are refused, right ones accepted everywhere",
 "A notebook read accepts only table-of-contents files and a section read only section files of a supported format, whichever packaging variant carries them; everything else (swapped kinds, legacy desktop formats, foreign or empty files) is refused with an error rather than misread. The path and buffer entry points accept, refuse and return the same.",
 ["inputs","configurations","fault_sequences"],"for every file kind, header combination and packaging variant, also when a file is replaced by one of another kind between or during reads",
 "Tests check a couple of magic values; the combinations of kind, version, schema and entry point are not covered.",
 ["src/onestore/header.rs","src/onestore/mod.rs","src/fsshttpb/packaging.rs","src/onenote/mod.rs"],
 [("file type and schema checks","src/onenote/mod.rs, src/onestore/mod.rs"),("format and version gates","src/onestore/header.rs, src/fsshttpb/packaging.rs")])
p("C20","Stateless helpers on a parsed document compute what they document",
 "Helpers that derive a value from an already parsed document (scaling a bounding box, telling whether a tag shape is a checkbox, converting a stored half-point or half-inch unit) return the documented value for every input.",
 ["inputs"],"for every value of the helper's arguments",
 "The helpers have no or few direct tests.",
 ["src/onenote/ink.rs","src/one/property/note_tag_shape.rs","src/one/property/color_ref.rs"],
 [("pure arithmetic","src/onenote/ink.rs")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,S)
print(len(P))
