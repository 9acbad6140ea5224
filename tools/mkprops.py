#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p('C01', 'Typing a text with a layout reproduces exactly that text',
  'Typing any text with any layout yields, in order, either a key press together with the text it produced or a skip of one single character, and concatenating the produced texts and skipped characters gives back the input exactly. At every position the longest text the layout can produce there is typed, by a combination that really produces that text, and a character is skipped only if the layout can produce nothing that starts there.',
  ['inputs', 'configurations'], 'all layouts (shipped and user-made, with single and multi-character keys, several layers and several modifiers per layer), all texts of any length and any Unicode content, all text streams',
  'The two typing tests use one layout and two strings of at most four characters; multi-character keys, prefixes, end of input and long input are never typed.',
  ['lulua/writer.py', 'lulua/layout.py'],
  [('Writer.type', 'lulua/writer.py'), ('KeyboardLayout.__call__ (longest prefix)', 'lulua/layout.py')],
  [('buf', 'look-ahead of at most the longest key text', 'lulua/writer.py Writer.type')],
  ['events yielded by Writer.type'])

p('C02', 'The typist always picks the best key combination',
  'Whenever a text can be produced by several key combinations, the one used needs the fewest keys; among those the one whose keys are spread most evenly over both hands; among those the one that best alternates with the previous stroke (its modifier keys if it had any, else its key; with no previous stroke the left hand is preferred); remaining ties go to the combination the layout lists first. Skipped characters do not change the previous stroke, nor does the beginning of another text typed by the same typist, and every key is always attributed to the same documented hand and finger.',
  ['inputs', 'histories', 'configurations'], 'all candidate sets, all typing histories preceding the choice, all layouts',
  'Eight hand-made candidate sets with at most one preceding stroke are tested; longer histories, skips in between, multi-key modifiers and ties are not.',
  ['lulua/writer.py'], [('Writer.chooseCombination', 'lulua/writer.py'), ('Writer.press', 'lulua/writer.py'), ('defaultFingermap', 'lulua/writer.py')],
  [('lastCombination', 'previous stroke', 'lulua/writer.py')], ['chooseCombination result', 'combinations yielded by Writer.type', 'getHandFinger'])

p('C03', 'Layout lookups agree with the layout definition in both directions',
  'For every layout definition adapted to a keyboard, looking up a text gives exactly the (modifier set, key) combinations whose definition is that text, one for every modifier set of every layer defining it, and looking up the text of any defined combination gives the defined text. A key set is a modifier exactly if some layer is selected by it and maps to that layer, a key shows its text layer by layer, and iteration lists every text once; undefined texts and combinations are reported as errors and never answered.',
  ['inputs', 'configurations'], 'all layout definitions and all query strings, key sets and combinations',
  'Only the shipped layouts are walked, and only with queries taken from the layout itself; negative queries, proper prefixes and user layouts are not.',
  ['lulua/layout.py', 'lulua/keyboard.py'], [('KeyboardLayout', 'lulua/layout.py'), ('GenericLayout.specialize', 'lulua/layout.py'), ('PhysicalKeyboard lookups', 'lulua/keyboard.py')],
  [('t', 'text to combinations trie', 'lulua/layout.py'), ('_modifierToLayer', 'modifier set to layer', 'lulua/layout.py')],
  ['KeyboardLayout call, getText, getButtonText, modifierToLayer, isModifier, iteration'])

p('C04', 'Key press statistics count every event exactly once',
  'After any sequence of typing events, the statistics hold for every key the number of presses of it (modifiers included), for every combination the number of times it was used, and for every untypeable character the number of times it was skipped, and nothing else. Something that is no typing event is rejected and leaves the counts unchanged.',
  ['histories', 'inputs'], 'all event histories, observed after every prefix',
  'The tests process one press and one skip.',
  ['lulua/stats.py'], [('SimpleStats.process', 'lulua/stats.py')], [('buttons / combinations / unknown', 'counters', 'lulua/stats.py')], ['counters after each prefix of a history'])

p('C05', 'Triad statistics are the sliding three-stroke windows of the text',
  'After any sequence of typing events, each triple of consecutive strokes is counted exactly as often as it occurs, where strokes on space, return, tab and backspace keys are passed over without interrupting the sequence and every skipped character interrupts it. No other triples are counted.',
  ['histories', 'inputs'], 'all event histories, observed after every prefix',
  'One key repeated is tested; mixed strokes, whitespace in the middle and interruptions at all window positions are not.',
  ['lulua/stats.py'], [('TriadStats.process', 'lulua/stats.py')], [('_triad', 'current window', 'lulua/stats.py'), ('triads', 'counter', 'lulua/stats.py')], ['triads after each prefix of a history'],)

p('C06', 'Word and same-hand/finger run statistics match the typed text',
  'After any sequence of typing events, every word (a maximal run of typed letters (Unicode category Lo) and non-spacing marks (Mn) that was ended by another typed character) is counted exactly as often as it was typed, and for each hand and each finger the distribution of its uninterrupted stroke runs is exact, a run being counted for the hand or finger that made it when a different one takes over. A skipped character discards the word and the runs in progress.',
  ['histories', 'inputs'], 'all event histories, observed after every prefix',
  'Word and run statistics have no test beyond rejecting a wrong type.',
  ['lulua/stats.py'], [('WordStats.process', 'lulua/stats.py'), ('RunlenStats.process', 'lulua/stats.py')],
  [('words / _currentWord', 'word counter and word in progress', 'lulua/stats.py'), ('perHandRunlenDist / fingerRunlenDist', 'run length distributions', 'lulua/stats.py')], ['words, perHandRunlenDist, fingerRunlenDist'])

p('C07', 'Merging statistics is exact, order-independent and safe across processes',
  'Merging statistics collected separately gives, for every counter, exactly the sum of the parts, independent of order and grouping, leaves the merged-in parts unchanged and shares no state with them; both can be continued afterwards, what is in progress in the one does not affect the other. This holds as well when the parts were pickled by other processes in which keyboards were loaded in another order, and for combining any number of concatenated statistics files on the command line, where an incomplete part is reported as an error instead of being left out.',
  ['histories', 'configurations', 'inputs'], 'all splits of all histories, all merge orders and groupings, all process boundaries and keyboard loading orders',
  'Tests merge a single event into an empty object in the same process.',
  ['lulua/stats.py', 'lulua/keyboard.py', 'lulua/layout.py'], [('Stats.update, updateDictOp', 'lulua/stats.py'), ('combine, unpickleAll', 'lulua/stats.py'), ('Button/ButtonCombination pickling', 'lulua/keyboard.py, lulua/layout.py')],
  [('Button ids', 'process-local numbering of key names', 'lulua/keyboard.py')], ['counters before and after update', 'output of lulua-analyze combine'])

p('C08', 'Parallel corpus import counts every input item exactly once',
  'For any number of workers and any scheduling of them, importing a corpus yields statistics whose sum is exactly what processing the items one after another yields: no item is lost, duplicated, merged with another one or attributed partially. Each text an item contains is typed independently from all others.',
  ['schedules', 'inputs', 'configurations'], 'all worker counts, all interleavings of reader and workers, all item sequences (including none, empty items and several texts per item)',
  'No test runs the importer at all.',
  ['lulua/text.py', 'lulua/stats.py'], [('write', 'lulua/text.py'), ('writeWorker', 'lulua/text.py'), ('apply', 'lulua/text.py')],
  [('inq / outq / statusq', 'work, result and progress queues', 'lulua/text.py')], ['pickles written by lulua-write', 'exit status'])

p('C09', 'A failing or interrupted import ends and never looks like a success',
  'If an item cannot be processed, a worker process dies or the result cannot be written completely, the importer terminates by itself with an error status instead of hanging or reporting success, whatever the position of the failing item, number of workers and amount of pending input. If the user interrupts it, it terminates, and unless it ends with an error status its output covers exactly some prefix of the items read so far.',
  ['fault_sequences', 'schedules', 'crash_points'], 'all failing item positions, worker kills and interrupts at any time, all worker counts and queue fill levels',
  'No test runs the importer; hangs depend on queue fill levels and timing.',
  ['lulua/text.py'], [('write (error propagation and shutdown)', 'lulua/text.py'), ('writeWorker', 'lulua/text.py')], [('outq', 'carries worker exceptions', 'lulua/text.py')], ['termination, exit status and output of lulua-write'])

p('C10', 'Compressed archives are unpacked completely and byte-exactly',
  'Reading a Brotli stream in pieces of any sizes gives exactly the original bytes for every input chunking, and reading a GNU tar archive gives the contents of each of its non-empty regular files, once, in order and byte-exact, and nothing else (no names, links or directories). A truncated Brotli stream and an archive that ends within a file are reported as errors.',
  ['inputs', 'fault_sequences'], 'all contents, compression settings, chunk and read sizes, archive members and truncation points',
  'The test decompresses eleven bytes with one read pattern; tar reading and truncation are untested.',
  ['lulua/text.py'], [('BrotliFile.read', 'lulua/text.py'), ('filterTar', 'lulua/text.py'), ('filterFile / filterText', 'lulua/text.py')], [('BrotliFile.buf', 'decompressed bytes not handed out yet', 'lulua/text.py')], ['BrotliFile.read results', 'objects yielded by the tar, brotli, file and text filters'])

p('C11', 'Corpus filters extract exactly the document text',
  'From an HTML page the filters extract the text inside every selected article element, including nested elements, with entities resolved, paragraph and div ends as blank lines, and without scripts, styles, comments and everything outside the selected element. From TEI and subtitle XML the text of each sentence element appears once and in order (repeated sentences as often as they occur), from EPUB the text of every chapter, from JSON lines and plain lines the string itself, from a MediaWiki dump one JSON line per page text, and wiki markup is passed on as converted by pandoc unless pandoc rejects it or fails; XML that is malformed or in an unknown encoding is skipped without affecting other documents.',
  ['inputs'], 'all documents, nesting structures and text contents',
  'One HTML paragraph is serialized in the tests; selection, nesting, scripts, TEI, subtitles, EPUB, JSON and MediaWiki are untested.',
  ['lulua/text.py'], [('Select', 'lulua/text.py'), ('HTMLSerializer', 'lulua/text.py'), ('filterTEI2 / filterOpenSubtitles / filterXml / filterEpub / filterJson / filterLines', 'lulua/text.py'), ('extractMediawiki', 'lulua/text.py')], [('inside', 'nesting depth inside the selected element', 'lulua/text.py')], ['texts yielded by the registered filters', 'stdout of lulua-extract-mediawiki'])

p('C12', 'Triad effort follows the published carpalx model for every triad',
  'For both models and every triad of single keys and of key combinations, the effort equals the carpalx formula: weighted sum of base effort, penalty and stroke path, where base effort and penalty of simultaneously pressed keys add up plus one unit per extra key, and the stroke path is the cheapest over all choices of one key per combination, classified by hand, row and finger as documented. The value depends on the triad alone, not on what was evaluated before.',
  ['inputs', 'configurations', 'histories'], 'all triads over all keys that have a base effort, all combinations with modifiers, both models, all evaluation histories',
  'About fifty single-key stroke-path components are tested; effort values are only tested for an all-zero model without any triad.',
  ['lulua/carpalx.py'], [('Carpalx._triadEffort and helpers', 'lulua/carpalx.py'), ('models', 'lulua/carpalx.py')], [('_cache', 'memoized efforts shared by copies', 'lulua/carpalx.py')], ['Carpalx.effort after adding a single triad'])

p('C13', 'Total effort is the weighted mean of the triads currently included',
  'After any sequence of adding and removing weighted triads, resetting and copying, the reported effort equals the weighted mean of the individual efforts of the triads currently included, up to floating point rounding, and is zero when none is included; order does not matter and removing undoes adding. Copies start with the same value and never influence each other afterwards.',
  ['histories', 'inputs'], 'all histories of add, remove, bulk add, reset and copy with all weights',
  'The tests never add a triad.',
  ['lulua/carpalx.py'], [('Carpalx.addTriad / removeTriad / addTriads / reset / copy / effort', 'lulua/carpalx.py')], [('absEffort, N', 'running sums', 'lulua/carpalx.py')], ['Carpalx.effort'])

p('C14', 'An optimized layout is a rearrangement that honours all pins',
  'For any layout, statistics, options and random choices, the optimizer emits a loadable layout with the same layers and modifiers whose texts are exactly those of the original layout, each moved to one place only, with keys that are not letter keys and modifier keys left alone. The text of a pinned key stays where it is (or where a requested initial swap put it) and texts of a pinned layer stay on that layer; requested swaps are applied exactly and in the order given (each exchanging the places of the texts the original layout has on both keys) if no further optimization is done.',
  ['inputs', 'configurations', 'histories'], 'all layouts, pin and swap options, random seeds, step counts and statistics',
  'The optimizer proper is not tested at all, only a dummy annealer for a single step.',
  ['lulua/optimize.py'], [('LayoutOptimizer._acceptMutation / mutate', 'lulua/optimize.py'), ('optimize (output)', 'lulua/optimize.py'), ('parsePin / parseMutation', 'lulua/optimize.py')], [('buttonMap', 'bijection of (layer, key) places', 'lulua/optimize.py')], ['YAML written by lulua-optimize'])

p('C15', 'The optimizer returns the best state seen and reports its true effort',
  'For any random choices, the state the optimizer returns has the lowest effort of all states it accepted, the starting state included, and is therefore never worse than the starting state. The energy it reports is the effort of exactly the emitted layout for the triads used (the most frequent ones if limited), and incrementally tracked efforts equal efforts recomputed from scratch up to rounding. Exactly as many triads are used as requested, also if several are equally frequent, and given some hundred steps and nothing pinned it does find layouts better than a poor one.',
  ['histories', 'inputs', 'configurations'], 'all sequences of mutations, acceptances and rejections; all statistics, limits, models and seeds',
  'A single step of a dummy annealer is tested; the incremental effort computation and the reported energy are not.',
  ['lulua/optimize.py', 'lulua/carpalx.py'], [('Annealer.run', 'lulua/optimize.py'), ('LayoutOptimizer.mutate (incremental effort)', 'lulua/optimize.py'), ('optimize (energy report)', 'lulua/optimize.py')], [('best', 'best state so far with relative energy', 'lulua/optimize.py'), ('stateToTriad', 'triads affected by a place', 'lulua/optimize.py')], ['result of run()', 'energy comment and text written by lulua-optimize'])

p('C16', 'Saving and loading keyboards and layouts is lossless and side-effect free',
  'Serializing any keyboard or layout and loading it again, also through YAML or pickle, gives an equal object with equal keys, texts, widths, kinds, markers and key codes. Neither direction changes the object or data it was given, so it can be repeated with the same result and the object stays fully usable, and copies are independent of the original.',
  ['inputs', 'histories'], 'all keyboards and layouts, all sequences of save, load, copy and use',
  'The shipped keyboard and layouts are serialized once each; repetition, aliasing and use after serialization are not tested.',
  ['lulua/keyboard.py', 'lulua/layout.py'], [('Button/PhysicalKeyboard serialize and deserialize', 'lulua/keyboard.py'), ('GenericLayout serialize and deserialize', 'lulua/layout.py'), ('KeyboardLayout.copy', 'lulua/layout.py')], [('scancode', 'key codes per platform', 'lulua/keyboard.py')], ['objects before and after', 'YAML text'])

p('C17', 'Exported keyboard files assign every key the text of the layout',
  'The xmodmap, Keyman, macOS, Klavaro and AnySoftKeyboard exports are well-formed and assign to each key on each layer the format supports exactly the text the layout defines (in the composed form where the format needs single characters), under the correct key code and modifiers, and nothing to undefined places. Modifier keys are exported as level switches of their layer in xmodmap, and the AnySoftKeyboard export ends with working return, space and backspace keys.',
  ['inputs', 'configurations'], 'all layouts the format can express (shipped layouts and arbitrary rearrangements of them)',
  'Rendering is not unit-tested; the build only runs three exporters on one layout and ignores their content.',
  ['lulua/render.py', 'lulua/data/keyboards/ibmpc105.yaml'], [('renderXmodmap / renderKeyman / renderKeylayout / renderKlavaro / renderAsk', 'lulua/render.py')], [], ['files written by lulua-render'])

p('C18', 'The generated Windows driver is memory-safe and types the layout',
  'The generated driver source compiles without warnings, and an operating system walking its tables as documented stays within their bounds, also for key codes and modifier states that are not assigned. For each key and layer it yields exactly the character of the layout (carriage return for line feed), no character for unassigned places and modifier combinations, digits for the numeric keypad, and correct key names. Looking up the key of a character the way the system does finds a key of the layout that types it, not one of the keypad.',
  ['inputs', 'configurations'], 'all single-character layouts on the modifier scheme of the shipped layout; all scancodes with all prefixes; all modifier states',
  'The build compiles the driver for one layout, but nothing ever reads the tables.',
  ['lulua/winkbd.py', 'lulua/render.py'], [('scancodeToVkTables / vkToWchar / charModifiers / vkToBits / scancodeToName / makeDriverSources', 'lulua/winkbd.py'), ('renderWinKbd', 'lulua/render.py')], [], ['generated C, compiled with AddressSanitizer and UBSan and walked by a simulated operating system'])

p('C19', 'Pictures of a layout show every key with its texts and heat',
  'The SVG picture contains each key exactly once, without overlap and inside the picture, in its row and left-to-right order, labelled with the visible form of its text for each of the first four layers at that layer\'s corner, or with the layer arrow if it is a modifier, and marked as unused exactly if it has no text. Keys carry the hand and finger that press them, exactly the keys with a haptic mark show it, and with a heatmap every pressed key has a highlight at its center whose opacity is its share of the most pressed key. The visible form shows lonely combining marks on a dotted circle, named format characters as bracketed abbreviations, white space as symbols and everything else unchanged.',
  ['inputs', 'configurations'], 'all layouts with up to four layers, all heatmaps, all characters',
  'SVG rendering is untested; the visible form is tested on four strings.',
  ['lulua/render.py', 'lulua/util.py'], [('Renderer', 'lulua/render.py'), ('displayText', 'lulua/util.py')], [], ['SVG written by lulua-render', 'displayText'])

p('C20', 'Derived figures agree with the raw statistics',
  'For any statistics, the heat map, layout figures (presses per hand and finger, asymmetry, hamza shares), corpus totals, word list probabilities, letter frequencies, triad rankings and effort curve that the analysis commands print are exactly the documented functions of the raw counts: totals add up, shares and cumulative values are consistent and ordered, and efforts are those of the effort model.',
  ['inputs'], 'all statistics of non-empty corpora and all layouts',
  'No analysis command is tested.',
  ['lulua/stats.py', 'lulua/plot.py'], [('keyHeatmap / layoutstats / corpusStats / latinImeDict / pretty', 'lulua/stats.py'), ('letterfreq / triadfreq / triadEffortData', 'lulua/plot.py')], [], ['stdout of lulua-analyze commands'])

p('C21', 'The report shows correct totals and faithfully rounded numbers',
  'Abbreviated numbers in reports multiply back to the original number within rounding of the shown decimal and use the smallest unit (up to billions) that keeps the shown number below one thousand, fractions are the best approximation with denominator at most ten, and converting numbers to Arabic digits only replaces digits and separators. The report page shows for each corpus and in total the sums of words and characters, and for every layout the percentage per hand and finger.',
  ['inputs'], 'all non-negative numbers, all corpora and layout statistics',
  'Thirteen numbers are tested for one of the helpers; the page itself never is rendered.',
  ['lulua/report.py', 'lulua/data/report/index.html'], [('approx / fraction / arabnum / numspace', 'lulua/report.py'), ('render', 'lulua/report.py')], [], ['helper results', 'HTML written by lulua-report'])

p('C22', 'Importing a Windows layout source keeps every character on its key',
  'Importing a Microsoft keyboard layout source yields a loadable layout definition in which each character of the LAYOUT table (given literally or as hexadecimal code, in decomposed form) is on the physical key its virtual key denotes and on the layer of its column, entries marked as absent or not in the table are absent, and comments and other sections have no influence.',
  ['inputs'], 'all layout tables over the supported virtual keys, all comment and section placements',
  'The importer is untested.',
  ['lulua/layout.py'], [('GenericLayout.fromKlc', 'lulua/layout.py'), ('importKlc', 'lulua/layout.py')], [], ['YAML written by lulua-import'])

p('C23', 'Text normalization replaces exactly the documented characters',
  'Before typing, precomposed alef, waw and yeh with hamza or madda, the isolated lam-alef ligatures, ASCII digits and Latin comma, semicolon, question mark and percent sign are replaced by their decomposed or Arabic equivalents, no-break spaces by spaces and CR LF by LF, everywhere in the text. All other characters are kept in place unchanged, and mapping the characters twice changes nothing more.',
  ['inputs'], 'all texts over all of Unicode',
  'The table is tested against itself, so a wrong or missing entry is invisible, and only one unmapped character is tried; line endings are untested.',
  ['lulua/text.py'], [('charMap / mapChars', 'lulua/text.py'), ('writeWorker', 'lulua/text.py')], [], ['mapChars', 'characters typed by lulua-write'])

p('C24', 'Named keyboards and layouts resolve predictably',
  'A layout or keyboard name resolves to the file at that path if there is one, otherwise to the shipped definition of that name, with or without extension, and to an error if there is neither; iterating lists exactly the shipped definitions, never files of the user. Each lookup returns a fresh object, so changing one does not affect later lookups.',
  ['inputs', 'configurations', 'histories'], 'all names, working directory contents and lookup histories',
  'Tests look up one existing and one missing name from a directory without user files.',
  ['lulua/util.py', 'lulua/keyboard.py', 'lulua/layout.py'], [('YamlLoader', 'lulua/util.py')], [], ['defaultLayouts / defaultKeyboards lookups'])

p('C25', 'The documented build publishes a complete and consistent website',
  'For any corpora in the documented formats, the build described by gen.sh succeeds, the statistics it makes for each layout and corpus count every text of that corpus exactly once, and all published files agree with them and with the layouts: pictures and heat maps of every layout, letter and effort plots, word list, corpus and hand figures of the page, keyboard files and the Windows driver archive for both architectures. No link of the page to another published file or part of the page is broken, and building again does not redo or change the statistics.',
  ['inputs', 'configurations'], 'all contents of the corpora',
  'No test runs the build description or more than one command, let alone reads the files that are published.',
  ['gen.sh', 'makezip.sh', 'lulua/text.py', 'lulua/stats.py', 'lulua/render.py', 'lulua/report.py'], [('write', 'lulua/text.py'), ('main', 'lulua/stats.py'), ('render', 'lulua/render.py'), ('render', 'lulua/report.py')], [], ['./gen.sh > build.ninja && ninja'])

p('C26', 'A layout stays usable through the whole documented workflow',
  'For any layout and corpus, the documented steps work one after another: statistics written from the corpus with a layout and combined are those of typing the corpus, they can be used to optimize that layout, and the optimized layout can be used wherever the original could. Typing the corpus with it gives the same words, the same number of strokes for each text and the same untypeable characters as before, its heat map, picture and figures are those of the new arrangement, and it can be optimized again in the same way.',
  ['inputs', 'histories', 'configurations'], 'all layouts, corpora, options and numbers of rounds',
  'Tests exercise single steps with fixed data, never the output of one command as the input of the next.',
  ['README.rst', 'lulua/text.py', 'lulua/stats.py', 'lulua/optimize.py', 'lulua/render.py', 'lulua/layout.py'], [('write', 'lulua/text.py'), ('main', 'lulua/stats.py'), ('optimize', 'lulua/optimize.py'), ('render', 'lulua/render.py')], [], ['lulua-write | lulua-analyze combine, lulua-optimize, lulua-render'])

p('C27', 'A command which could not do all of its work never reports success',
  'Every command ends with an error status if something it needs cannot be read completely: statistics or figures that are empty, truncated or corrupt, a truncated or damaged dump, a malformed or undecodable file, an input that cannot be read, a missing file, or the name of a layout or keyboard which does not exist. The same is true if its output cannot be written completely, at whatever byte writing fails (device full, file size limit, reader gone, no such directory), or if the layout cannot be converted to the requested format. Without any such failure it succeeds, also if it failed before.',
  ['inputs', 'faults', 'configurations'], 'all commands, all positions at which input ends or writing fails',
  'Tests call functions in memory, none of them runs a command, much less with failing input or output.',
  ['lulua/stats.py', 'lulua/plot.py', 'lulua/render.py', 'lulua/report.py', 'lulua/layout.py', 'lulua/optimize.py', 'lulua/text.py'], [('main', 'lulua/stats.py'), ('unpickleAll', 'lulua/stats.py'), ('render / yamlload', 'lulua/render.py'), ('render', 'lulua/report.py'), ('importFrom', 'lulua/layout.py'), ('extractMediawiki / write', 'lulua/text.py')], [], ['exit status of all commands'])

p('C28', 'The same input gives the same result, whenever and wherever',
  'For the same input and options, every command (the random decisions of the optimizer left aside) gives the same output, apart from the date of generation some formats contain: it depends neither on the process, its hash seed and memory layout, on what was loaded or looked up before, the time, time zone, locale, environment, user, terminal and working directory, nor on output files left from an earlier run.',
  ['inputs', 'configurations', 'histories'], 'all commands, inputs and surroundings',
  'Tests run in one process with one hash seed, and never compare two runs.',
  ['lulua/stats.py', 'lulua/plot.py', 'lulua/render.py', 'lulua/report.py', 'lulua/layout.py', 'lulua/optimize.py', 'lulua/text.py', 'lulua/keyboard.py', 'lulua/winkbd.py'], [('Button / ButtonCombination (hash)', 'lulua/keyboard.py'), ('render*', 'lulua/render.py'), ('main', 'lulua/stats.py'), ('importKlc', 'lulua/layout.py')], [], ['output of all commands'])

p('C29', 'Input of any size is processed piece by piece, not all at once',
  'Memory and the number of open files depend on the size of a single piece of input and of the result, not on the number of pieces: the importer reads only a few items per worker ahead of what is being processed, whatever their number; it keeps neither texts, documents nor statistics of texts already done, closes files it has read and hands on the files of a (compressed) archive one by one while reading it; extracting a MediaWiki dump does not keep the pages already written; and combining statistics keeps only the total and one part.',
  ['inputs', 'schedules'], 'any number of items, texts, archive members, pages and parts; any speed of the workers',
  'Tests use tiny inputs, for which keeping everything makes no difference.',
  ['lulua/text.py', 'lulua/stats.py'], [('write', 'lulua/text.py'), ('writeWorker', 'lulua/text.py'), ('filterTar', 'lulua/text.py'), ('BrotliFile', 'lulua/text.py'), ('extractMediawiki', 'lulua/text.py'), ('combine', 'lulua/stats.py'), ('unpickleAll', 'lulua/stats.py')], [], ['memory and open files of all processes', 'position within the input'])

for x in P:
    assert len(x['title']) <= 80, x['title']
    print(json.dumps(x, ensure_ascii=False))
