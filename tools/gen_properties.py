#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

CACHE = ("width cache", "process-wide LRU from string to measured width, shared by every table and every goroutine", "width.go: widthCache")
CW = ("column widths", "per-table map from column name to the widest committed cell", "table.go: Table.columnWidth")

p("C01", "Independent tables can be used from many goroutines at once",
  "When several goroutines each use tables of their own (which may share one unmodified column specification) and the package's alignment and width functions, every call returns exactly what it would return if that goroutine ran alone. No interleaving produces a data race, a corrupted result, a crash or a deadlock, even while callbacks in other goroutines fail or panic.",
  ["schedules", "fault_sequences"], "every interleaving of the goroutines' steps, and every callback failure in any of them",
  "The tests are single-threaded; the shared width cache is never touched by two goroutines.",
  ["width.go", "table.go", "alignment.go", "horizontal.go", "vertical.go", "runewidth/runewidth.go", "runewidth/uniseg/step.go"],
  [CACHE], [("process-wide cache must be synchronised", "width.go: visualWidth"), ("everything else reachable from two tables is read-only after init", "runewidth/, runewidth/uniseg/")],
  ["results of FormatItem, AlignFormattedItem, FormatHeader, MergeRows*, Alignment*", "race detector", "scheduler (deadlock)"])

p("C02", "A finished table can be read and rendered by many goroutines at once",
  "Once no goroutine adds rows, columns or widths to a table, any number of goroutines may concurrently render its rows, build its header, query its widths and columns, align rows of their own and print basic rows from that one table. Every such call produces the same result as it does alone, with no data race, and the table is the same afterwards.",
  ["schedules", "fault_sequences"], "every interleaving of read-only operations on one table, including renders whose writers fail half way",
  "No test renders at all, let alone the same table twice at once.",
  ["horizontal.go", "vertical.go", "table.go", "width.go"],
  [CW, CACHE], [("rendering and queries do not write to the table", "horizontal.go, vertical.go, table.go")],
  ["bytes received by each writer", "Width/TableWidth/FormatHeader before and after", "race detector"])

p("C03", "A failing writer is always reported and leaves a clean prefix",
  "If the output writer returns an error on any write, with none, some or all of that write's bytes accepted, the merge rendering (horizontal or vertical) stops with a panic carrying that error and makes no further write. The bytes accepted before the stop are exactly a prefix of the bytes the same rendering produces with a healthy writer, and a rendering whose writer never fails does not panic and delivers all of them.",
  ["fault_sequences", "crash_points"], "every write of every rendering as the failing one, every number of bytes accepted, every error value",
  "No test passes a writer, so none reaches the error path.",
  ["horizontal.go", "vertical.go"], [],
  [("error of each line's write is checked and panicked", "horizontal.go, vertical.go: MergeRows*")],
  ["Write calls and their results", "recovered panic value"])

p("C04", "An interrupted rendering leaves no trace and can be repeated",
  "When a merge rendering is cut short, because its writer fails or panics, its item list panics, or an alignment callback panics or ends the goroutine, the table's widths and columns and the caller's rows are exactly as before. Repeating the rendering with healthy callbacks completes and produces exactly the output an undisturbed rendering gives, and other users of the package are unaffected.",
  ["crash_points", "fault_sequences", "histories"], "every callback invocation of a rendering as the interruption point, any sequence of interruptions before the repeat",
  "Tests never interrupt a rendering; the number of interruption points grows with every row and column.",
  ["horizontal.go", "vertical.go", "table.go", "width.go"], [CW, CACHE],
  [("rendering works on local state only", "horizontal.go, vertical.go"), ("no lock is held across a callback", "width.go")],
  ["Width of every column, rows passed in, output of the repeated rendering"])

p("C05", "Formatting a row is all-or-nothing when a getter fails",
  "If any column's getter returns an error, or panics, while a row is formatted, the caller gets that error (or panic) and no row, and no column width changes because of the failed row; rows formatted before and afterwards are unaffected. A row that succeeds consists of exactly the strings its getters produced, each formatted from the value that column's getter returned for that item. Basic (non-tabular) formatting likewise either returns all columns' value strings joined by the separator or the getter's error and an empty string, and never changes widths.",
  ["fault_sequences", "histories"], "every getter call of every row as the failing one, in any sequence of good and bad rows",
  "No test formats a row; failure needs a user-supplied getter that fails at a particular column.",
  ["table.go", "table_iface.go"], [CW],
  [("errors are returned before anything is committed", "table.go: FormatItem, FormatItemBasic")],
  ["returned row and error, recovered panic", "Width of every column before and after"])

p("C06", "Column widths are the exact running maximum of what was committed",
  "After any history of formatted rows, failed rows, added columns, merged-in widths and columns given another title or alignment, each column's width equals the largest visible width (terminal cells: escape sequences take none, wide characters two) of its successfully formatted cells and merged-in widths (anything wider than 65535 counts as 65535), and never shrinks. Aligning a row pads every column that has an alignment to exactly that width on the side its alignment asks for and rejects a row with the wrong number of cells untouched; the header shows each column's present title, or its short title, or nothing, whichever first fits, centred in exactly that width (a column of width zero shows its title as it is); the table width is the sum of the column widths plus the margins between columns (again at most 65535).",
  ["histories", "fault_sequences"], "every sequence of table operations with failures injected at any getter call",
  "Two tests check single strings; none drives a table through a history.",
  ["table.go", "alignment.go", "width.go", "runewidth/runewidth.go"], [CW],
  [("maximum kept on every committed cell", "table.go: FormatItem, UpdateWidth"), ("padding to the recorded width", "alignment.go, table.go: AlignFormattedItem, padColumnHeader")],
  ["Width, TableWidth, FormatHeader, AlignFormattedItem"])

p("C07", "Widths gathered by parallel workers converge in any delivery order",
  "When rows are formatted by several workers on tables of their own and their column widths are merged into one table, the merged widths equal those of formatting all rows on one table. This holds for every order, delay, duplication and retransmission of the width reports, including stale ones delivered late, and merging never narrows a column.",
  ["schedules", "fault_sequences"], "every interleaving of workers and every reordering, duplication, delay, loss-with-retransmission and staleness of width reports",
  "UpdateWidth is not called by any test.",
  ["table.go"], [CW, CACHE], [("merge is a per-column maximum: commutative, associative, idempotent", "table.go: UpdateWidth")],
  ["Width of every column on the merging table after each delivery and at the end"])

p("C08", "Merged output contains every row exactly once, in order",
  "Whatever the maximum width, separator, compactness and table history, and whatever other goroutines do meanwhile, a completed horizontal rendering writes every row exactly once in reading order (left to right, then down) and a completed vertical rendering writes every row exactly once in column order (down, then right), each cell's text complete and cells in column order. If the rendering is cut short by its writer, the complete lines delivered still satisfy this for the rows they hold.",
  ["inputs", "configurations", "fault_sequences", "schedules"], "every item count, width, separator, compactness, orientation and writer behaviour",
  "No test renders; layout depends on item count, widths and history together.",
  ["horizontal.go", "vertical.go"], [CW],
  [("index arithmetic lineI/groupI to item", "horizontal.go: MergeRowsHorizontal; vertical.go: MergeRowsVertical")],
  ["bytes received by the writer"])

p("C09", "Merged output is aligned, fits the width, and uses it",
  "In a merged rendering all rows placed in the same group have each column padded (left-aligned by default, otherwise as the column's alignment says) to one common width that holds every cell there: the table's column width, or in a compact rendering optionally the widest cell of that column in that group. No line that holds more than one row is wider than the maximum width (trailing separator aside), one more group would not have fitted as long as rows remain to fill it, and compact rendering never needs more lines than non-compact rendering.",
  ["inputs", "configurations", "histories"], "every table history, item list, maximum width (including negative and beyond the largest supported), ASCII separator, compactness and orientation",
  "No test renders; the failures sit at arithmetic boundaries such as widths near 65535 or empty separators.",
  ["horizontal.go", "vertical.go", "table.go", "alignment.go", "width.go"], [CW],
  [("group count from table width", "horizontal.go, vertical.go"), ("compact search", "horizontal.go: compactCalcH; vertical.go: compactCalcV")],
  ["bytes received by the writer"])

p("C10", "Rendering always finishes",
  "With callbacks that return, every merge rendering returns normally after a bounded number of steps for every table (including no columns, zero widths and very wide columns), item list (including empty), maximum width (including negative, zero and beyond the largest supported), separator (including empty) and compactness. The only way out other than returning is a panic raised by a callback or carrying the writer's error.",
  ["inputs", "configurations", "histories", "schedules"], "every configuration and table history, under any schedule of concurrent users",
  "No test renders; hangs and arithmetic crashes need particular separators and widths.",
  ["horizontal.go", "vertical.go", "table.go"], [],
  [("compact search must stop", "horizontal.go: compactCalcH; vertical.go: compactCalcV"), ("group count division", "horizontal.go, vertical.go")],
  ["step counter of the simulated scheduler", "recovered panics"])

p("C11", "Measuring a string never depends on what was measured before",
  "With the width settings left alone, the visible width the package attributes to a string (as seen through alignment padding and column widths) is the same the first time, after any number of repeats, after any history of other strings that filled or overflowed internal caches, after the same string served as title, cell or separator of a table, and while other goroutines measure strings.",
  ["histories", "schedules", "configurations"], "every history of measured strings, every cache size and eviction pattern, every interleaving",
  "The tests measure 28 strings once each; the cache holds 10000 entries so eviction is never reached.",
  ["width.go", "alignment.go", "runewidth/runewidth.go"], [CACHE],
  [("cache keyed by the full string, value is the measured width", "width.go: visualWidth")],
  ["padding added by Alignment*", "Width after FormatItem"])

p("C12", "A stalled callback delays only its own caller",
  "While one goroutine is stuck inside a writer, getter, item-list or alignment callback, every other goroutine using other tables, or reading the same table, still finishes. Callbacks may themselves use the package (format another table, align or measure strings, read the table in use and, from a getter, format a further row on it) without deadlocking or disturbing the call in progress, and once the stall ends the stuck call completes with the result it would have had without the stall.",
  ["schedules", "fault_sequences"], "every callback invocation as the stall point, every interleaving of the others",
  "No test has a second goroutine or a callback that blocks or re-enters.",
  ["table.go", "horizontal.go", "vertical.go", "width.go"], [CACHE],
  [("no lock is held while a callback runs", "width.go: visualWidth; table.go: FormatItem; horizontal.go, vertical.go")],
  ["scheduler: which tasks finish while the stall lasts"])

p("C13", "The rune-width lookup table changes speed, never answers",
  "For every sequence of changes to a width condition's settings, each followed by (re)building its lookup table with its CreateLUT method, every rune and string measures exactly as it does on a condition with the same settings and no lookup table. Any number of goroutines may measure with the same condition concurrently between rebuilds, without a data race and with the same answers as alone.",
  ["histories", "schedules", "configurations"], "every history of settings and rebuilds, every interleaving of concurrent readers between rebuilds",
  "The checksum tests rebuild each condition at most once and read it from one goroutine.",
  ["runewidth/runewidth.go"], [("lookup table", "packed widths of all code points for the settings at build time", "runewidth/runewidth.go: Condition.combinedLut")],
  [("rebuild ignores the old table", "runewidth/runewidth.go: CreateLUT"), ("measuring does not write to the condition", "runewidth/runewidth.go: RuneWidth, StringWidth")],
  ["RuneWidth, StringWidth"])

p("C14", "Results belong to the caller and arguments stay the caller's",
  "Once a call on a table has returned, or was ended by a failing callback, the caller may change or reuse the row it got back and the item, row, item list (with its rows) and width map it passed in. Doing so never changes the result of any later call on any table or goroutine, and no later call changes a row that was returned earlier. (Aligning a row may work in place and return the same row.)",
  ["histories", "fault_sequences", "schedules"], "every history of calls, every reuse or overwriting of arguments and results between them, every callback failure, any interleaving with other goroutines",
  "No test keeps a result beyond one call or passes the same object twice.",
  ["table.go", "horizontal.go", "vertical.go", "width.go"], [CW, CACHE],
  [("FormatItem builds a fresh row", "table.go: FormatItem"), ("UpdateWidth copies out of the map", "table.go: UpdateWidth"), ("renderings keep nothing of the list", "horizontal.go, vertical.go")],
  ["every result of a caller that overwrites and reuses, against one that does not", "rows returned earlier"])

p("C15", "A long-running process does not accumulate memory",
  "However many strings are measured, rows formatted or aligned, headers built and merges rendered, on one long-lived table or on any number of short-lived ones, and whether callbacks succeed or fail, what the package keeps alive between calls stays bounded. It keeps no more than about ten thousand recently measured strings with their widths (its cache), and one width per column name of each table still in use. Nothing else stays: no row, item, list, writer or error of a call that is over, no table, specification or width condition its owner has dropped, and no goroutine left waiting for ever.",
  ["histories", "fault_sequences", "schedules"], "every history of calls of any length, with callbacks failing at any of them, under any interleaving",
  "The tests make a few dozen calls; a leak shows only after tens of thousands of calls, or after thousands of failed ones.",
  ["width.go", "table.go", "horizontal.go", "vertical.go", "runewidth/runewidth.go"], [CACHE, CW],
  [("the cache evicts at its capacity", "width.go: widthCache"), ("calls keep their working state local", "table.go, horizontal.go, vertical.go")],
  ["weak references to everything passed in and got back, live heap size and live goroutines, after a full collection at two points of a long history"])

p("C16", "A table handed from goroutine to goroutine stays one table",
  "Goroutines may share tables and their column specification for every kind of call, including adding columns, formatting rows and merging in widths, as long as they take turns: under a lock of their own that is exclusive for calls that change a table and may be shared by calls that only read it. Whichever order the turns fall in, and whichever goroutine's callback fails, panics or ends that goroutine, every call has exactly the result and effect it has when one goroutine makes the calls in that order: a call sees everything the calls before it committed, on every table concerned. There is no data race and no deadlock.",
  ["schedules", "fault_sequences", "histories"], "every order of turns, every history of calls, every callback failure of any goroutine, every overlap of read-only calls",
  "No test hands a table to a second goroutine.",
  ["table.go", "horizontal.go", "vertical.go", "width.go"], [CW, CACHE, ("columns", "columns of a specification, shared by its tables", "table.go: TableSpec.Columns")],
  [("calls finish their work before they return", "table.go: FormatItem, UpdateWidth, AddColumn; horizontal.go, vertical.go"), ("nothing a call leaves unfinished when a callback ends it", "table.go: FormatItem")],
  ["results of every call, against the same calls in the same order made by one goroutine; reference table; race oracle"])

PURE = ["inputs"]
p("C20", "Rune widths follow the Unicode East Asian Width data",
  "For every code point, the width of a rune under given settings is 0, 1 or 2 as Unicode's East Asian Width, combining and emoji data prescribe for these settings.",
  PURE, "every code point and setting", "The checksum tests settle two of the four settings; it is a pure function of its input.",
  ["runewidth/runewidth.go", "runewidth/runewidth_table.go"], [], [("sorted interval tables", "runewidth/runewidth_table.go")], ["Condition.RuneWidth"])
p("C21", "Grapheme clusters follow UAX #29 and partition the string",
  "For every string the grapheme iterator yields clusters that concatenate to the string and break where UAX #29 says.",
  PURE, "every string", "Only a few emoji sequences are sampled; it is a pure function of its input.",
  ["runewidth/uniseg/step.go", "runewidth/uniseg/graphemerules.go"], [], [("state machine", "runewidth/uniseg/graphemerules.go")], ["Graphemes.Next/Runes"])
p("C22", "East Asian mode follows the process environment",
  "At start-up the width mode is East Asian exactly when the override variable says so or, without it, when the effective locale names a CJK character set or a CJK language in UTF-8.",
  ["configurations"], "every value of the locale variables", "A handful of locale strings are sampled; it is a pure function of the environment at start-up.",
  ["runewidth/runewidth.go", "runewidth/runewidth_posix.go"], [], [("locale parsing", "runewidth/runewidth_posix.go: isEastAsian")], ["IsEastAsian, EastAsianWidth"])
p("C23", "Escape sequences are invisible, whatever their form",
  "For every string, inserting a supported terminal escape sequence (7-bit or 8-bit introducer) does not change its visible width.",
  PURE, "every string and escape sequence", "Eight coloured strings are sampled; it is a pure function of its input.",
  ["width.go"], [], [("escape-sequence pattern", "width.go: ansiEscapeRE, countMatchesLength")], ["Alignment* padding"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
