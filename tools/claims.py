HOOKS = dict(guard="ass_verif (a cfg flag)", enable="RUSTFLAGS=\"--cfg ass_verif\" (set by check.sh)", source_commits=["5f88d0c", "df6c6f1", "904ff6e", "4895eb8"])
c("C01", ENUM, "Every string of up to 6 (thorough 7) symbols over a 17-symbol grammar alphabet and every document of up to 4 (5) lines over 30 lines behind 5 prefixes is parsed by the real parser; totality, zero-copy, span and line claims are checked on each. Nothing is claimed for longer inputs or other characters.")
c("C02", ENUM, "The same spaces plus deeper single-context documents; each parse is compared field by field with a 230-line line-oriented reference parser written from the format description. Trusts that reference; event formats without a Text column have at most ten columns.")
c("C03", ENUM, "Every well-formed document the alphabets build (sections x formats x field values, up to 3 lines per section, and every printable single-line document up to 6 symbols) is parsed, written, reparsed and compared field by field. Two findings on documents with several different Format lines are listed.")
c("C04", ENUM, "Every pair of documents of up to 3 (thorough 4) lines over the alphabet and every replacement of every byte range in a set of documents; the delta is compared with a multiset-per-occurrence reference and parse_incremental with a full parse.")
c("C05", HIST, "All histories of up to 3 (thorough 4) mutating calls from six starting documents, each call's arguments from an alphabet of lines, offsets and fields, compared after every step with a model of the section list and of the change record.")
c("C06", ENUM, "Every text of up to 5 (thorough 7) symbols over a 19-symbol alphabet, and the same shapes shifted over every vector offset, compared token by token with a character-at-a-time definition; the accelerated scanners are compared with their scalar definition for every length up to 52 and every position and byte.")
c("C07", ENUM, "All centisecond counts of 2^26 + 2^22 (thorough: all 2^32), all 2^24 colours and channel pairs, all short malformed texts over small alphabets, and byte strings by every length, line width and zero character; compared with independent arithmetic. Not all 2^32 colours and not all long byte strings.")
c("C08", ENUM, "Every event text of up to 5 (thorough 6) symbols over 22 symbols, every block content over 12 symbols, tag-name pairs and nesting depths, each with no, an empty and a populated registry, compared with a reference analysis.")
c("C09", ENUM, "Every list of up to 4 (thorough 5) intervals on a 5-point grid, up to 3 (4) over extreme times, invalid times at every place, scripts with several events sections and counts around every threshold, compared with the pairwise definition.")

c("C10", ENUM, "Every pair of events (and triples of a fixed part) over times x styles x texts that trip or just miss each rule, every event text of up to 4 (thorough 5) symbols, counts around every limit, and every configuration of enabled rules, minimum severity and issue limit on a set of scripts; reports are compared with independent definitions of the twelve rules.")
c("C11", ENUM, "Every inheritance graph (cycles and missing parents included) on up to 4 styles in every order, every field x value in chains, and resolution settings; compared with a recursive definition. Trusts that definition; colour and number syntax is C07's.")
c("C12", HIST, "All histories of up to 5 (thorough 6) registrations and clears over three names per kind, with every lookup, listing and dispatch compared with a map after each step; every argument text of up to 4 (6) symbols for every built-in tag handler.")
c("C13", ENUM, "Every document of up to 5 (thorough 6) tokens or lines is fed cut at every byte (short ones: every two), byte by byte, and after a reset anywhere; the observed line state (hook ass_verif) is compared with a direct reading. Delivered entries are a known finding: the parser delivers none.")
c("C14", ENUM, "Every string of up to 3 bytes, every string of up to 5 (thorough 6) bytes over 22 byte classes and every text of up to 4 (thorough 5) characters over 19 character classes, with every truncation limit and every part, against a direct reading of the UTF-8 table.")
c("E01", HIST, "Every history of up to 2 (thorough 3) inserts, deletes, replacements and fluent edits at every byte offset (inside characters, reversed and past the end included) of every start text; text, lengths, lines, slices and flags are compared with a byte-string model after each step.")
c("E02", HIST, "Every sequence of up to 5 (thorough 6-7) edits through every editing path mixed with undo and redo, compared with a stack of texts; limits of the history swept. Undo entries for edits that change nothing are left open.")
c("E03", HIST, "Every edit through every incremental entry point, range and replacement that crosses the fast-path limits, followed by every second edit of a smaller set, validated or not in between; text, delta, parse and validation are compared with a fresh document.")
c("E04", ENUM, "Every text of up to 5 (thorough 6) symbols over letters, multibyte characters and all line breaks with every offset, line and column converted both ways; every pair of small ranges and selections against the sets they denote.")
c("E05", HIST, "Every document of up to 3 (thorough 4) items (events, comments, blank and odd lines, further sections and formats) with every line break kind; on it every event command with every offset and argument of an alphabet, and pairs of commands on the smaller documents; text, change kind and reported range are compared with a list of lines after each.")
c("E07", HIST, "Every document of up to 3 (thorough 4) items behind seven heads (missing, short, swapped, unknown formats) with four kinds of line breaks; on it every style command with every name, and every pair of commands on the smaller documents, compared with a list of lines.")
c("E08", HIST, "Every document of up to 4 (thorough 5) items with both kinds of line breaks; on it every script-info, font and graphic command with every argument, pairs (triples) of commands on the smaller documents, compared with a list of lines; embedded bytes of every length up to 299 and every tail pattern decoded again.")

c("R04", HIST, "Every sequence of up to 3 (thorough 4) boxes over positions, heights, layers and alignments is placed by the real resolver and compared with a pixel-by-pixel search for the nearest free place; every pair of boxes over a grid, every subset of seven held boxes for the free-place search, and all priority combinations. When a stacking direction has no room left only the clamp to the frame is checked.")
c("R05", ENUM, "Every coverage x alpha x channel value of a single pixel, every tile size and position against small frames at every run length around the vector widths, every axis-aligned rectangle on a sub-pixel grid, compared with the blend formula per pixel. Assumes the frame holds premultiplied colours.")
c("R07", HIST, "Every sequence of up to 5-7 (thorough one or two more) stores, lookups and clears over three keys and limits of one to three for each cache, compared with a map; every allocation sequence over small sizes, checked pairwise. Which entry is evicted is left open.")
c("R08", ENUM, "Every pair and triple of regions over a small grid plus boundary values against the pixel sets they denote, region lists of every order, frames of every small size, matrices over a grid of integral entries.")
c("E18", ENUM, "Every document of up to 3 (thorough 4) lines over 22 line forms and both line ends, every event text of up to 4 (6) pieces, completion at every position, and every history of up to 2 (3) edits over two documents with one highlighter, completer and validator in 16 configurations, against a line-by-line reading, the linter and fresh instances.")
c("R01", HIST, "Every set of up to 3 (thorough 4) events over a small time grid with comments, ties and several sections, asked at every sequence of up to 3 (4) times and scripts; selection, order and deltas are compared with a scan of the events. Deltas are judged between requests about the same script.")
c("R02", HIST, "Every pair of requests over 20 scripts and three times, every triple within one script, triples (quadruples) in groups, with full, incremental and bitmap drawing and several frame sizes; each frame is compared byte by byte with the one a fresh renderer in a fresh thread draws. Every tag value of an alphabet of 133 (thorough: every pair) is drawn for panics and for frames agreeing with bitmaps.")
c("R09", ENUM, "Every rectangle of a grid of corners (5x4 quick, 8x7 thorough, fractional, off-frame, reversed and empty ones included) as clip and inverse clip on 21 ways of drawing, judged pixel by pixel against the line drawn with a clip that leaves everything and against the picture without it. Pixels cut by an edge are not judged, nor the colour blend used for a karaoke sweep under a clip.")
c("R03", ENUM, "Every start, end, time, acceleration and value kind of small grids through the animation tracks and controllers, every modifier text and transform argument string of up to 5 (thorough 6) pieces, and whole scripts with one and with two transforms, moves and fades whose layers are compared with the definition at every time.")
c("R06", ENUM, "Every text of up to 3 (thorough 4) pieces of an alphabet of 41 tag blocks and texts and every text of up to 6 (7) characters and tags, split into runs and compared with an interpreter of the tags; every number list for position, move, clip and fade; every hexadecimal value; every drawing of up to 5 (7) commands compared with the path it denotes, and placed drawings by alignment, position and level. How malformed levels, numbers and nested braces are read is left open.")
c("R10", ENUM, "Every line of up to 4 (thorough 5) of 12 pieces (syllables of all styles and of several durations, texts, other tags, breaks) and of up to 5 (7) of five of them, at every centisecond of the event; the share sung of every character is compared with the sum of durations.")
c("R11", ENUM, "Every combination of alignments, wrap styles, runs of several fonts, scales and spacings; of event and style margins; of positions and lines; every list of up to the stated number of words in every wrap style; and all pairs and triples of simultaneous events. Where the layers of the pipeline lie is compared with the widths fonts give, added up by hand. Trailing spacing, lines of mixed font sizes and wrapping of lines of mixed runs are left open.")
c("R12", ENUM, "Every combination of 10 (thorough 12) shapes, 6 (7) edges, 8 softenings and 5 texts, of karaoke styles and times, of clips that leave everything and of places in and beyond the frame, drawn by the software renderer; compared by area, middle, spread and reach with the same text drawn sharp. The colours of softened shapes are left open (known finding of R05).")
c("R13", ENUM, "Every combination of angles about three axes, scales, slants, origins, alignments, placements, texts of several runs and lines, and script resolutions is drawn, and its area, middle and spread are compared with those of the plain picture whose pixels are moved one by one; style angles are compared with tags pixel by pixel. The point a slant leaves in place and slanted lines of several runs are left open.")

c("E09", HIST, "Every document of up to 3 (thorough 4) items with both kinds of line breaks; on it every filter value, pairs of them, sort criteria, orders and limits, every combination of all filters on one document with every kind of event, regular expressions with their meaning written by hand, and queries between edits and undo; compared with a scan of the list of events. Sorting by unreadable times and the layer of events without that column are left open.")
c("E11", ENUM, "Every cue list over alphabets of times, counters, texts, markup and malformed lines, and every document of an alphabet of events, imported, exported and imported again; times, texts and order are compared with a reading of the cue list and with the visible text of the events. Texts with braces or angle brackets of their own and files with unreadable times are left open.")
c("E12", HIST, "Every text of up to 3 (thorough 5) of 10 symbols with every pattern of up to 2 of them and expressions with their meaning written by hand, longer ones over a smaller alphabet, all case, word and limit options, every range, line range and section scope of small documents, replacements with undo, and every sequence of up to 4 (5) edits, replacements and index updates, for all three search implementations; compared with a look at every place of the text.")
c("E13", HIST, "Every sequence of up to 5 (thorough 6) operations of 21 on three session names through two handles, under limits of 0 to 3 sessions, compared with a table after each step. Memory figures and limits, which nothing fills, are left open.")
c("E14", HIST, "Every filter of an alphabet on every kind of event, and every sequence of up to 6 (thorough 7) registrations, removals, dispatches, batches and clears with failing handlers and limits, and of up to 7 (9) queue operations, compared with a table after each step.")
c("E17", HIST, "Every sequence of up to 5 (thorough 6) of 17 operations (edits through every path, failing ones, batches that fail half way, undo, redo) from three starts, with a listener that applies what it is told. Undo and redo events do not carry the text.")
c("E15", HIST, "Every sequence of up to 5 (thorough 6) operations of 18 (loading, starting and unloading three extensions, succeeding or failing, and running commands) under two sets of needs and commands, from nothing and from started extensions, with callbacks that use the manager; states, commands, data, callbacks and results are compared with the lifecycle after each step; the built-in extensions likewise.")
c("E16", INTER, "Every program of 2 or 3 threads with 1 or 2 calls each over alphabets of 6-13 calls on a session manager, a document, a document pool and an extension manager; of each, every schedule at lock operations (hook ass_verif; up to 2-4 preemptions for the longer programs), run on the real code under a cooperative scheduler; results and final state must be those of an order of the calls, or, for extensions, allowed by an explored model of the lifecycle.")

c("E06", HIST, "Every text of up to 3 (thorough 4) of 18 pieces (tags that are prefixes of one another, karaoke of all styles, remarks, breaks, multibyte letters) with every range between piece borders, and of 1 (2) pieces with every byte range; on each every tag and karaoke command of a list of 66 and its fluent twin, undone again, compared with a parser of blocks. Nested braces, karaoke inside a block and remarks on removing all tags are left open.")
c("E10", ENUM, "Every subset of the event builder's fields with three value sets, three kinds and twelve formats; subsets of up to 4 (thorough 6) style fields and their complements in eight formats; every awkward string in up to 3 (4) fields; every document of up to 4 (5) additions to five heads; edits through the builder; each parsed again and compared field by field, or refused with nothing changed. Values without surrounding blanks.")
