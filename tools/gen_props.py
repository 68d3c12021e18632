#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as the editable source)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = hook
    P.append(d)

C = "crates/ass-core/"; E = "crates/ass-editor/"; R = "crates/ass-renderer/src/"

p("C01", "Parsing is total and every parsed item points back into the source",
  "Parsing any text terminates without panicking and yields a script for it, malformed or not. Every piece of text the parsed script exposes is a slice of the original source, and every section and item span has byte offsets that lie inside the source on character boundaries and enclose the item. The line number reported for an item or problem is the 1-based line of the source on which it stands.",
  ["inputs"], "all texts up to a length bound over the characters the grammar reacts to (brackets, colon, comma, braces, backslash, comment marks, CR/LF, BOM, multibyte letters), and all documents up to a line bound over an alphabet of well-formed and damaged lines",
  "Tests parse a few dozen hand-written scripts; totality and span correctness are claims about every byte sequence, in particular damaged input and line-ending mixes no fixture contains.",
  [C+"parser/main/mod.rs", C+"parser/main/helpers.rs", C+"parser/sections", C+"parser/binary_data", C+"parser/script"],
  [("recovering section loop", C+"parser/main"), ("position tracking", C+"parser/position_tracker")],
  observe=["Script::parse result: sections, issues, spans"])

p("C02", "A parsed script contains exactly what the source says, and damage stays local",
  "For every source the parsed sections, in order, hold exactly the entries written in the source: script-info key/value pairs, styles, events, fonts and graphics, with each field taken from the column that the section's Format line (or the default format) gives it and the last event column keeping its commas. Malformed lines, unknown sections and comments never add, drop or alter any well-formed entry around them.",
  ["inputs"], "all documents up to a line bound over an alphabet of headers, format lines (default, permuted, truncated), entries and damaged lines",
  "Unit tests check one construct at a time; how formats, damaged lines, blank lines and section switches combine is a product space only enumeration covers.",
  [C+"parser/main", C+"parser/sections", C+"parser/ast", C+"parser/binary_data"],
  [("format-driven field mapping", C+"parser/sections/events"), ("error recovery", C+"parser/main/helpers.rs")])

p("C03", "Writing a parsed script and parsing it again gives the same script",
  "Serialising any successfully parsed script and parsing the result gives a script with the same sections in the same order and the same entries and field values. Serialising again gives the same text.",
  ["inputs"], "all documents up to a line bound over an alphabet of sections, formats and entries",
  "Round-trip tests cover a few scripts with default formats; custom formats, several sections of one kind, comment/other event types, embedded data and odd spacing combine freely in real files.",
  [C+"parser/script/serialize.rs", C+"parser/ast"], [("per-section serialisers", C+"parser/ast")])

p("C04", "A partial re-parse reports exactly the difference between two texts",
  "When a byte range of a parsed source is replaced, the reported change set turns the sections of the old script into the sections that a full parse of the new text gives: nothing changed is missed and nothing unchanged is reported as changed.",
  ["inputs"], "all single edits (range x replacement) of small multi-section scripts",
  "Tests apply a handful of edits; an edit may start, end or straddle any structural boundary.",
  [C+"parser/script/incremental.rs", C+"parser/streaming", C+"parser/incremental"],
  [("partial parse and section delta", C+"parser/script")])

p("C05", "Edits to a parsed script change what was asked and record it",
  "After any sequence of line updates, batch updates, event additions, style additions, script-info changes, field and event removals on a parsed script, its sections equal the result of applying the same operations to a plain list model, and the change log lists exactly the successful operations in order. An atomic batch either applies every operation or leaves the script completely unchanged, whichever operation fails.",
  ["histories", "fault_sequences"], "all operation sequences up to a depth bound over small scripts, with operations that succeed and that fail at every position",
  "Tests apply single operations to one script; the claim quantifies over every operation order and over every position at which a batch can fail.",
  [C+"parser/script"], [("copy-validate-swap batch", C+"parser/script"), ("change tracker", C+"parser/script")])

p("C06", "Tokenising always progresses, covers the text in order and is SIMD-independent",
  "For every text the tokenizer terminates without panicking, and the tokens it returns are slices of the text that are in source order, do not overlap, have correct byte ranges and skip nothing but whitespace. Its accelerated scanning routines give the same answers as their scalar definitions for every input, wherever delimiters fall relative to the vector width.",
  ["inputs"], "all texts up to a length bound over the delimiter alphabet, and all placements of one or two delimiters in texts of up to 40 bytes",
  "SIMD defects live at specific alignments and lengths; totality is a claim about all inputs. Tests sample a few strings.",
  [C+"tokenizer"], [("vector delimiter scan", C+"tokenizer/simd"), ("scanner advance", C+"tokenizer/scanner")])

p("C07", "Timestamps, colours, numbers and embedded data convert exactly",
  "Every centisecond count formats to the canonical timestamp that parses back to it, and a timestamp string parses exactly when it is well formed, to the value it denotes, or is rejected without panicking. The same holds for colours (every channel value survives, malformed text is rejected), numeric fields and UU-encoded data (decoding inverts encoding for every byte string).",
  ["inputs"], "every centisecond value in 0..=36,000,000 (thorough) and boundaries, all strings up to a length bound over the digits/separators alphabet, all colour channel values, all byte strings up to a bound",
  "Value domains are millions wide; tests check a few representatives and never the carry, clamp and overflow corners together.",
  [C+"utils/time.rs", C+"utils/color.rs", C+"utils/uu.rs", C+"utils/mod.rs"],
  [("timestamp parse/format", C+"utils/time.rs"), ("colour parse", C+"utils/color.rs"), ("UU codec", C+"utils/uu.rs")])

p("C08", "Event text analysis separates visible text from override tags exactly",
  "For every event text, analysis terminates without panicking and the plain text is exactly the characters outside override blocks with line-break and hard-space escapes translated; every override tag is listed once, in order, with its exact name, argument and position. Using an extension registry without handlers changes nothing.",
  ["inputs"], "all texts up to a length bound over braces, backslash, tag letters, digits, parentheses, escapes and a multibyte letter",
  "Unclosed, nested and adjacent blocks and escapes at the end of text are a combinatorial space; tests have fixed samples.",
  [C+"analysis/events/text_analysis", C+"analysis/events/tags", C+"plugin"],
  [("text state machine", C+"analysis/events/text_analysis/parser.rs"), ("tag parser", C+"analysis/events/tags/parser.rs")])

p("C09", "Overlap and timing analysis agree with the pairwise definition",
  "For every list of events the reported overlapping pairs, conflict counts and timing statistics equal those computed pair by pair from the definition (two dialogue events overlap when each starts before the other ends). The answer does not depend on the order of the events.",
  ["inputs"], "all lists of up to 4-5 events over a small time grid, including empty, touching, identical and reversed intervals, in every order",
  "The sweep algorithm depends on tie-breaking at equal times; tests use a handful of disjoint layouts.",
  [C+"analysis/events/overlap", C+"analysis/events"], [("sweep line", C+"analysis/events/overlap")])

p("C10", "The linter reports exactly the enabled rules' findings within its limits",
  "For every script and configuration, each built-in rule reports exactly the events and styles that its definition names; the combined report contains exactly those findings whose rule is enabled and whose severity reaches the minimum, cut off at the configured maximum. Findings of one rule never depend on which other rules are enabled.",
  ["inputs", "configurations"], "all small scripts over an entry alphabet x all rule enable/disable/severity/limit configurations",
  "Each rule has its own test file; the interaction of filters, limits and rules is a configuration product no test enumerates.",
  [C+"analysis/linting"], [("rule runner and filters", C+"analysis/linting/mod.rs")])

p("C11", "Style resolution follows inheritance and scaling in any definition order",
  "For every set of style definitions, each resolved style takes its own fields and what it leaves to its named parent from that parent's resolved values, every order of the definitions gives the same result (of several styles of one name the last counts), and cyclic or missing parents end in defined defaults rather than a hang or panic: a set of styles with a cycle is resolved without inheritance. Scaling to another resolution multiplies each size-like property exactly once.",
  ["inputs", "configurations"], "all inheritance graphs (including cycles and missing parents) on up to 4 styles in every definition order x resolution settings",
  "Tests use one chain in definition order; order independence and cycle handling quantify over all graphs and permutations.",
  [C+"analysis/styles"], [("dependency order", C+"analysis/styles/analyzer/dependency.rs"), ("inheritance resolution", C+"analysis/styles/resolved_style")])

p("C12", "The tag and section registry behaves as a keyed map over any history",
  "After any sequence of registering, replacing, removing and clearing handlers, lookups, listings, counts and dispatch agree with a plain map: a duplicate name is rejected without disturbing the registered handler, and each tag or section is handled by exactly its own handler.",
  ["histories"], "all operation sequences up to a depth bound over two names per kind",
  "Tests exercise one or two steps; the property is about every history.",
  [C+"plugin"], [("registry maps", C+"plugin/registry.rs")])

p("C13", "Chunked parsing does not depend on where the input is cut",
  "Feeding a document to the streaming parser in any way of cutting it into pieces, inside a character or a line end as well, has the same outcome as feeding it whole: the same acceptance or error, and the same line, section and format position as reading the whole text line by line (a line ends at LF, CRLF or a lone CR). A parser that was reset behaves like a new one.",
  ["inputs", "schedules"], "every two- and three-way and byte-wise split of documents from an enumerated alphabet",
  "A cut may fall inside a CRLF, a character, a header or an entry; tests cut at one or two convenient places.",
  [C+"parser/streaming"], [("line reassembly across chunks", C+"parser/streaming/processor")])

p("C14", "Byte and text utilities treat any input right",
  "For every byte string, validation accepts exactly well-formed UTF-8 and otherwise names where and how the first ill-formed part lies; recovery keeps every well-formed character, puts one replacement character for each longest ill-formed part and counts exactly those; byte order marks are recognised by their longest signature, and encoding detection and the mark warnings follow from that. For every text, truncation keeps the longest prefix of whole characters within the limit, each CRLF, CR or LF becomes one LF, a text is valid exactly when removing control characters leaves it alone, white space and line trimming touch white space only, and any part of a text is placed at its own offset, line and column while a copy of it is not.",
  ["inputs"], "all byte strings of up to 3 bytes, longer ones over an alphabet of byte classes, all texts over an alphabet of character classes with every limit and every part",
  "Tests try a handful of strings; ill-formed sequences, marks that share bytes with characters, and mixed line ends are where such code goes wrong.",
  [C+"utils/utf8", C+"utils/errors/encoding", C+"utils/spans.rs"], [("recovery and validation", C+"utils/utf8/validation"), ("mark detection", C+"utils/utf8/bom.rs"), ("mark warnings", C+"utils/errors/encoding/validation.rs")])

p("E01", "A document's text equals a plain string under every edit history",
  "After any sequence of insertions, deletions, replacements and their failures, the document's text, length, line count, slices and emptiness equal those of a plain string put through the same operations. An operation with an invalid range fails, leaves the document exactly as it was, and never panics.",
  ["histories"], "all edit sequences up to a depth bound over a small text alphabet including line breaks and multibyte characters, with valid and invalid positions",
  "Tests run a few edits; correctness of the rope, the caches and the error paths must hold for every sequence.",
  [E+"core/document"], [("raw edit primitives", E+"core/document")])

p("E02", "Undo and redo retrace the edit history exactly",
  "After any sequence of edits, undos and redos, undo restores exactly the text before the last not-yet-undone edit, redo restores exactly the text after it, and a new edit discards the redoable future. Availability queries agree with what undo and redo then do, and a bounded history only ever forgets its oldest entries.",
  ["histories"], "all sequences up to a depth bound of inserts, deletes, replacements, incremental edits, commands, undo and redo",
  "Tests do one edit and one undo; corruption appears only on chains such as undo of a length-changing replace or two redos in a row.",
  [E+"core/document/undo_redo.rs", E+"core/history"], [("operation inversion", E+"core/document/undo_redo.rs"), ("redo stack discipline", E+"core/history")])

p("E03", "Incremental editing gives the same document as plain editing",
  "Every sequence of edits made through the incremental, fast-path and safe editing calls leaves the same text as the same edits made plainly. The parsed view and validation result obtained afterwards are those of the current text, never of an earlier one.",
  ["histories"], "all edit sequences up to a depth bound through each editing entry point on small scripts",
  "Cached parse and validation state goes stale only along particular histories.",
  [E+"core/document", E+"core/incremental"], [("incremental parser state", E+"core/incremental"), ("validator cache", E+"utils/validator")])

p("E04", "Positions, line/column pairs, ranges and selections convert consistently",
  "For every text and every position in it, converting a position to line and column and back gives the same position, the line and column are those of the definition (lines end at line breaks, columns count characters), and positions outside the text are rejected. Range union, intersection, containment and overlap agree with the set of positions they denote.",
  ["inputs"], "all texts up to a length bound over line breaks, letters and multibyte characters x all positions and range pairs",
  "Tests use ASCII single-line samples; the claim is for all positions in all texts.",
  [E+"core/position"], [("line/column computation", E+"core/position")])

p("E05", "Event commands change exactly the targeted events",
  "Splitting, merging, retiming, toggling, deleting, inserting and restyling events changes exactly the events that were named, in the way the command says, and leaves every other byte of the document unchanged. A command that cannot be carried out reports an error and leaves the document unchanged.",
  ["inputs", "histories"], "all commands with all small index/time arguments over all documents of up to four events from an alphabet with commas, duplicates, blank lines, comments and trailing sections",
  "Tests run each command on one two-event script; locating the nth event line and re-assembling its fields must be right for every script.",
  [E+"commands/event_commands"], [("event line location and rebuild", E+"commands/event_commands")])

p("E06", "Tag and karaoke commands edit only what they name",
  "Inserting, removing, replacing, wrapping and parsing override tags, and generating, splitting, adjusting and applying karaoke timing, change exactly the tags in the addressed range, preserve all other text, and never panic. Karaoke is split at characters of the visible text, never inside an override block. A failing command leaves the document unchanged.",
  ["inputs"], "all event texts up to a length bound over a tag alphabet x all ranges x all commands",
  "Brace, backslash and range placement combine; tests use one text per command.",
  [E+"commands/tag_commands", E+"commands/karaoke_commands"], [("override block rewriting", E+"commands/tag_commands")])

p("E07", "Style commands affect exactly the style they name",
  "Creating, editing, deleting, cloning and applying styles affects exactly the style with that exact name and, for applying, exactly the matching events; every other byte of the document is unchanged. Naming a style that does not exist, or one that already exists where a new one is required, fails and leaves the document unchanged.",
  ["inputs"], "all commands over all documents from an alphabet whose style names are prefixes of one another, with permuted formats, comments and missing sections",
  "Prefix and substring confusion between names only shows on particular name pairs.",
  [E+"commands/style_commands"], [("style line lookup", E+"commands/style_commands")])

p("E08", "Script-info and embedded-file commands behave as keyed stores",
  "After any sequence of setting, deleting and reading script-info properties, and adding, removing, listing and clearing embedded fonts and graphics, the document reads back as the corresponding key/value store and the rest of the document is unchanged.",
  ["histories"], "all command sequences up to a depth bound over keys that are substrings of one another",
  "Substring confusion, missing sections and final lines without newline appear only in particular combinations.",
  [E+"commands", E+"commands/fonts_graphics_commands", E+"core/document"], [("property line lookup", E+"commands")])

p("E09", "Event queries return exactly the matching events in the requested order",
  "For every document and combination of filters, sort keys and limits, an event query returns exactly the events that satisfy all filters, each once, in the order asked for, with the index of the event in the document.",
  ["inputs", "configurations"], "all small event lists x all filter/sort/limit combinations",
  "Filter and sort options multiply; tests try them one at a time.",
  [E+"core/document", E+"core/fluent"], [("event query evaluation", E+"core/fluent")])

p("E10", "Built events, styles and documents parse back to what was built",
  "Every style or event produced by the builders with any combination of set fields, and every document assembled from them, parses to exactly the values that were set, with documented defaults for the rest. Values that a line cannot hold (line breaks, commas outside the last field) are refused.",
  ["inputs"], "all subsets and small value sets of builder fields",
  "Tests build a few objects; every combination of fields and format must agree with the parser.",
  [E+"core/builders"], [("field serialisation", E+"core/builders")])

p("E11", "Subtitle import and export preserve timing and text",
  "Importing any SubRip or WebVTT file never panics and yields one event per well-formed cue with the cue's exact times (to the centisecond) and text; exporting any document yields one cue per dialogue event with exact times and visible text; exporting and re-importing preserves count, order, times and visible text.",
  ["inputs"], "all cue lists up to a bound over an alphabet of times, texts, markup and malformed lines",
  "Format conversions depend on regexes over free text; tests convert one sample file each.",
  [E+"formats", E+"utils/formats"], [("cue parsing and styling conversion", E+"formats")])

p("E12", "Search and replace find exactly the occurrences in the current text",
  "For every document, pattern and option combination, a search returns exactly the occurrences a naive scan of the current text finds, in order, with correct byte ranges, line and column; replacing changes exactly those occurrences. Results never reflect an earlier version of the document.",
  ["inputs", "histories"], "all texts and patterns up to a length bound x option combinations x edit/search interleavings",
  "Indexes and caches make results depend on history; tests search fresh documents for one ASCII word.",
  [E+"utils/search", E+"utils/indexing"], [("index build/update", E+"utils/indexing"), ("result cache", E+"utils/search")])

p("E13", "Sessions are isolated and their bookkeeping matches reality",
  "After any sequence of creating, switching, editing, removing and clearing sessions, each session holds exactly the document edits made in it, the active session, listing, counts and limits agree with a plain model, and a refused operation changes nothing.",
  ["histories"], "all operation sequences up to a depth bound with two or three session names and a limit of two",
  "Tests exercise short happy paths; the bookkeeping counters drift only on particular histories.",
  [E+"sessions"], [("session table and active pointer", E+"sessions/manager.rs")])

p("E14", "Events reach exactly the registered matching handlers, in priority order",
  "After any history of registering and removing handlers and dispatching events, each dispatched event reaches exactly the handlers registered at that moment whose filters accept it, once each, higher priority first; handler limits, history and statistics agree with a plain model.",
  ["histories"], "all sequences up to a depth bound of register/unregister/dispatch/clear over handlers with different priorities and filters",
  "Ordering after interleaved registration and removal is a history property.",
  [E+"events"], [("priority-ordered dispatch", E+"events/channel.rs")])

p("E15", "Extension lifecycle respects dependencies, states and command ownership",
  "Over any sequence of loading, initialising, shutting down, reloading and unloading extensions, each extension's state follows its lifecycle, an extension is only initialised while its dependencies are present, commands are offered exactly while their owner is active, and a refused or failed operation leaves the other extensions untouched.",
  ["histories", "fault_sequences"], "all operation sequences up to a depth bound over three extensions (one depending on another), with failure injected into initialisation and shutdown",
  "State machines with failing callbacks have many more paths than the tests' happy path.",
  [E+"extensions"], [("lifecycle state machine", E+"extensions/manager_lifecycle.rs")])

p("E16", "Shared documents and managers are linearisable and never deadlock",
  "Concurrent use of a shared document, document pool, session manager or extension manager from several threads gives results that some one-at-a-time order of the same calls would give: no update is lost, no reader sees a half-applied edit, limits hold, and no interleaving deadlocks.",
  ["schedules"], "all interleavings at lock operations of 2-3 threads with 1-3 calls each",
  "Tests run threads freely and see one schedule out of many.",
  [E+"core/thread_safety", E+"sessions/manager.rs", E+"extensions/manager.rs"],
  [("read-write lock per document", E+"core/thread_safety"), ("shared manager locks", E+"sessions/manager.rs")],
  hook="a cfg-guarded lock wrapper that reports lock operations to the harness scheduler")

p("E17", "Listeners of a document hear of every change made to it",
  "With an event channel attached, every edit, command, undo and redo that succeeds sends one event for it and one that fails sends none; a change of the text is told with its range, its old and its new text, so that a listener applying these in order has the document's text after every operation, and undo and redo are told as such.",
  ["histories"], "all sequences up to a depth bound of edits through every editing path, failing ones, batches, undo and redo",
  "Whether a replica stays in step depends on every path that changes the text; a test sends three events.",
  [E+"core/document"], [("change events", E+"core/document/editing.rs"), ("commands told as one change", E+"core/document/validation.rs")])

p("E18", "Highlighting, completion and validation describe the current text",
  "After every edit and undo of one or several documents, an extension or validator in use since before it gives what a new one would: highlight tokens lie in order inside the text, without overlap and on character boundaries, and are those its lines consist of, under either line end; completion answers at every character boundary, refuses every other position without panicking, and offers headers, fields and tags that begin as what is typed, and the document's styles exactly in the style field of an event; validation lists exactly the linter's issues and the missing sections, within its configured limits, and counts them right.",
  ["inputs", "histories"], "all documents of up to three or four lines over an alphabet, all event texts up to a length bound, all positions, and all edit histories up to a depth bound over two documents with every validator configuration",
  "Tests highlight, complete and validate a fixed document once; stale caches, CRLF and unusual cursor places need histories and all positions.",
  [E+"extensions/builtin", E+"utils/validator"], [("token cache and tokens", E+"extensions/builtin/syntax_highlight/document.rs"), ("completion context", E+"extensions/builtin/auto_complete/context.rs"), ("result cache", E+"utils/validator/api.rs")])

p("R01", "The renderer shows exactly the events active at the requested time",
  "For every script and every sequence of requested times, the events selected are exactly the dialogue events (and comments when enabled) whose interval contains the time, start inclusive and end exclusive, in drawing order; the reported newly shown and hidden events are the exact difference from the previous request. The answer for a time does not depend on the times or scripts asked about before.",
  ["inputs", "histories"], "all event sets of up to 4 events over a small time grid x all time sequences up to length 3-4",
  "An interval index and incremental deltas make the answer history-dependent in ways single queries do not show.",
  [R+"renderer/event_selector.rs", R+"renderer/time_index.rs"], [("time index", R+"renderer/time_index.rs"), ("delta tracking", R+"renderer/event_selector.rs")])

p("R02", "A frame depends only on script, time and settings, not on what was drawn before",
  "Rendering a script at a time with given settings gives the same pixels from a fresh renderer and from one that has rendered any sequence of other times, scripts and sizes before; incremental rendering gives the same pixels as full rendering, and so, up to rounding, do the positioned bitmaps put together. Rendering never panics on any script.",
  ["histories", "inputs"], "all sequences up to a depth bound of render requests over an alphabet of scripts (static, moving, fading, animated, clipped, karaoke, drawings), times and frame sizes",
  "Frame, glyph, layer and dirty-region caches go wrong only on particular histories; tests render a fresh renderer once.",
  [R+"renderer/mod.rs", R+"cache", R+"backends/software"], [("frame cache", R+"renderer/mod.rs"), ("dirty-region clearing", R+"backends/software/dirty.rs"), ("raster caches", R+"backends/software")])

p("R03", "Animations hit their endpoints and interpolate monotonically",
  "For every animation, the value at or before its start is the initial value, at or after its end the final value, and between them it moves monotonically from one to the other without leaving the interval; moves, fades and transforms at every time agree with their definition. No tag arguments or times make evaluation panic.",
  ["inputs"], "all start/end/time/acceleration combinations over small grids and boundary values x all value kinds and argument strings",
  "Rounding, zero-length, reversed and overflowing intervals are corner combinations tests skip.",
  [R+"animation", R+"pipeline/transform", R+"pipeline/animation.rs"], [("progress computation", R+"animation/timing.rs"), ("value interpolation", R+"animation/value.rs")])

p("R04", "Unpositioned subtitles are stacked without overlapping",
  "Placing any sequence of events one after another gives every event in a layer a box that does not overlap the boxes already placed in that layer, keeps its size and horizontal position, and leaves events alone that collide with nothing, as long as the screen has room in the direction in which they are stacked.",
  ["inputs", "histories"], "all sequences of up to 4 boxes over a small grid of positions, sizes, layers and alignments",
  "Placement order matters; tests place two boxes.",
  [R+"collision"], [("box placement search", R+"collision/resolver.rs")])

p("R05", "Compositing and rasterising match their arithmetic definition exactly",
  "Blending a coverage or colour bitmap onto a frame at any position changes exactly the pixels both cover, each to the value of the blend formula, independent of vector width, run length and clipping; pixel results, drawn frames included, stay valid premultiplied colours. Rasterised shapes have full coverage inside, none outside and exact fractional coverage on axis-aligned edges.",
  ["inputs"], "all channel x coverage x alpha values for single pixels, all tile sizes/positions against small frames, all axis-aligned rectangles on a sub-pixel grid",
  "Vectorised and scalar paths split by run length; tests blend one pixel.",
  [R+"backends/coverage", R+"backends/raster"], [("vector blend row", R+"backends/coverage/blend.rs"), ("clipped composite loop", R+"backends/coverage/composite.rs")])

p("R06", "Override tags and drawings are interpreted exactly and never crash",
  "For every event text, splitting into styled runs never panics, the runs' text concatenates to the visible text, and each run carries exactly the tags in force there; tag values (position, move, fade, clip, colour, alpha, transform) are those written, and drawing commands give exactly the path they denote.",
  ["inputs"], "all texts up to a length bound over a tag alphabet and all drawing strings up to a command bound",
  "Tag state accumulates along the text; tests use isolated tags.",
  [R+"pipeline/text_segmenter", R+"pipeline/tag_processor", R+"pipeline/drawing"], [("segment state machine", R+"pipeline/text_segmenter/mod.rs"), ("drawing parser", R+"pipeline/drawing/parse.rs")])

p("R07", "Caches stay within their limits and return only what was stored for the key",
  "Over any sequence of stores, lookups, evictions and clears, a cache never holds more entries than its limit, a lookup returns either nothing or exactly the latest value stored under that key, statistics agree with the calls made, and texture atlas allocations never overlap or leave the atlas.",
  ["histories"], "all operation sequences up to a depth bound over three keys and limits of one to three, and all allocation sequences over small sizes",
  "Eviction and packing errors need particular sequences.",
  [R+"cache", R+"utils/caches.rs"], [("bounded maps", R+"cache/mod.rs"), ("shelf packing", R+"utils/caches.rs")])

p("R08", "Region, matrix and frame arithmetic agrees with geometry",
  "Merging, intersecting and testing dirty regions agrees with the sets of pixels they denote for every region including full-screen ones, without overflow; merging a list of regions covers every input region; frame accessors return exactly the stored pixels and convert between pixel layouts losslessly where defined.",
  ["inputs"], "all pairs and triples of regions over a small coordinate grid plus boundary values",
  "Edge-touching and overflow cases are corner combinations.",
  [R+"utils/regions.rs", R+"utils/math.rs", R+"renderer/frame.rs"], [("region algebra", R+"utils/regions.rs")])

p("R09", "Clips decide exactly which pixels a line may touch",
  "With \\clip(x1,y1,x2,y2) every pixel wholly outside the rectangle is as if the line were not there and every pixel wholly inside as if the line were not clipped; with \\iclip the reverse. This holds for every way a line is drawn (outlined, shadowed, blurred, boxed, struck through, rotated, projected, karaoke, faded, moving, drawings), any corner order, any frame size and for frames as for bitmaps.",
  ["inputs"], "all ways of drawing x all rectangles over a coordinate grid x clip and inverse clip, at several times and frame sizes",
  "Each way of drawing applies the clip itself; tests clip plain text only.",
  [R+"backends/software"], [("text clip mask", R+"backends/software/text/prepare.rs"), ("drawing clip mask", R+"backends/software/vector.rs"), ("blurred text", R+"backends/software/text/blur.rs")])

p("R10", "Karaoke syllables are sung one after another in their own time",
  "In an event with karaoke tags, each syllable starts where the syllables before it in the event end and is sung for its own duration: before that it is unsung, afterwards sung, and in between the share of its time that has passed, whatever override blocks, line breaks or comments lie between and wherever the event starts. Text before the first karaoke tag is not part of it.",
  ["inputs"], "all sequences of syllables, durations, styles and other pieces up to a length bound x all times of the event",
  "Start times add up along the line; tests use one syllable at the start of an event.",
  [R+"pipeline/build", R+"pipeline/text_segmenter"], [("syllable timing", R+"pipeline/build/text/mod.rs"), ("karaoke tags", R+"pipeline/text_segmenter/apply.rs")])

p("R11", "Text is placed where alignment, margins and positions put it",
  "An event's lines start at, are centred at or end at what its alignment names: its position if it has one, otherwise the frame less the margins, where a margin of an event that is zero or empty is that of its style and a missing style is the default one. The runs of a line follow one another by the width they are drawn with; lines lie one line height apart, upwards from the bottom, around the middle and downwards from the top. Lines too long for the frame are broken at spaces as the wrap style says - filled one after another, balanced over the same number of lines, or not at all - and keep all their words; positioned events are neither wrapped nor moved. Events of a layer shown together do not cover one another while there is room, and those nothing is in the way of stay in place.",
  ["inputs"], "all combinations of alignments, margins, positions, wrap styles, texts of several runs and lines, and events shown together over the alphabets stated",
  "Where a word ends up depends on fonts, margins, styles, tags and other events at once; tests place single words.",
  [R+"pipeline/build"], [("anchors and margins", R+"pipeline/build/position.rs"), ("lines and runs", R+"pipeline/build/text/mod.rs"), ("stacking", R+"pipeline/build/run.rs")])

p("R12", "Softened, clipped or shifted text shows what the plain text shows",
  "Text softened by \\blur or \\be covers as much, around the same middle, as the same text drawn sharp, in every shape (turned, in perspective, scaled, spaced, slanted, about an origin) and with every border and shadow; a blur spreads it by its variance alike in all directions and outwards as far as can be seen. The share of a karaoke line shown as sung is the same softened, clipped, underlined or struck through as not; a clip that leaves everything changes nothing; and text elsewhere in the frame, or partly beyond its edge, is the same picture shifted.",
  ["inputs"], "all combinations of shapes, edges, softenings, texts, clips and places over the alphabets stated",
  "Sharp, softened, clipped and projected text are drawn by different paths through different caches; tests look at one of them at a time.",
  [R+"backends/software/text", R+"backends/software/cache"], [("softening", R+"backends/software/text/blur.rs"), ("tile caches", R+"backends/software/cache/mod.rs"), ("geometry", R+"backends/geometry.rs")])

p("R13", "Text is turned, scaled and slanted as its tags and its style say",
  "\\frz turns an event's text against the clock, \\frx and \\fry turn it in perspective, all of its runs and lines and what underlines it or strikes it through as one, about \\org or otherwise about the point the event is aligned to - its position, where it is on its way, or its place by the margins; \\fscx and \\fscy scale it about that point and \\fax and \\fay slant what is then scaled, at every resolution of the script. A style's angle is a \\frz of the same value unless a tag says otherwise, also as what a transform starts from, and turned events give way to others as unturned ones do.",
  ["inputs"], "all combinations of angles, scales, slants, origins, alignments, placements, texts and script resolutions over the alphabets stated",
  "Each tag alone is easily tested; what goes wrong is their composition, about which origin and in which order.",
  [R+"pipeline/build", R+"backends/software/text"], [("projection", R+"backends/geometry.rs"), ("base transform", R+"backends/software/text/prepare.rs"), ("origins", R+"pipeline/build/position.rs"), ("effects", R+"pipeline/build/text/effects.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
repo = "/repo"
for d in P:
    assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
    for w in d["anchors"]["files"] + [m["where"] for m in d["anchors"]["mechanism"]]:
        if not os.path.exists(os.path.join(repo, w)): print("missing anchor", d["id"], w)
print(len(P), "properties")
