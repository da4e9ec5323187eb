"""The registered checks: property -> harnesses, bounds and what they assume."""
ENGINE = ["engine"]
CORE = ["engine", "numbers", "core"]
ADDON = ["engine", "numbers", "core", "addon"]
BASE = ["g++ 13 with ASan/UBSan/_GLIBCXX_ASSERTIONS is trusted",
        "behaviour outside the stated bounds is not covered"]
CHECKS = {}


def check(pid, harness, explanation, bounds, technique, note, assumptions=(), **kw):
    CHECKS[pid] = dict(harness=harness, explanation=explanation, bounds=bounds, technique=technique, note=note,
                       assumptions=BASE + list(assumptions), **kw)


def H(src, groups, **kw):
    return dict(src=src, groups=groups, **kw)


STATELESS = "stateless exhaustive exploration of the real code against a reference model"

check("C04", [H("c04_walk.cpp", ENGINE)],
      "Every vocabulary of the families below, every composition, and on each lattice every single override: the real walk is compared with a brute-force enumeration of all segmentations.",
      dict(quick="all strings over 2 syllables up to length 4 x every word {absent, good, poor}; one syllable repeated 5..9 times x words of length 2..7 {absent, 2 scores}; every single override of both kinds",
           thorough="as quick with strings up to length 5, repetitions up to 12, 3 scores"),
      STATELESS, "Exhaustive within the bounds: all vocabularies/compositions listed are executed on the real grid; assumes nothing about larger ones.")
check("C05", [H("c05_lattice.cpp", ENGINE)],
      "Every history of insert/delete-before/delete-after/caret move/clear/invalid insert from every start buffer and caret; after each step every (position, length) entry, the caret and the walk are compared with the lattice built from scratch.",
      dict(quick="11 start buffers of 0..14 syllables x all caret positions x 4 vocabularies (dense, two sparse, empty separator) x depth 4 (3 for start buffers over 5); two of 36 and 80 syllables x 6 caret positions x depth 2",
           thorough="as quick, depth 5 (4)"),
      STATELESS, "Exhaustive within the bounds on the real grid.")
check("C06", [H("c06_override.cpp", ENGINE)],
      "Every history of picks (strong, weak, by value, unlisted), insertions and deletions at every place; after each step the override state of every word and the walk are compared with a reference lattice.",
      dict(quick="7 start compositions of 1..5 syllables, depth 3 (1-3 syllables), 2 (4-5)", thorough="depth 4 (1-2 syllables), 3 (3-5)"),
      STATELESS, "Exhaustive within the bounds on the real grid; tie-free scores above -42 as in the shipped data.")
check("C07", [H("c07_candidates.cpp", ENGINE)],
      "Candidate lists at every position of every composition, directly typed or after up to two edits, against the definition.",
      dict(quick="compositions over 2 syllables up to length 4, every word {absent, three tied/unsorted values, shared value}; 4 patterns of 1..9 syllables with words up to length 7 and two arbitrary edits; compositions up to 4 with 99 to 1025 values for each word",
           thorough="as quick with three word variants at length 4"),
      STATELESS, "Exhaustive within the bounds on the real grid.")
check("C08", [H("c08_phrasedb.cpp", ENGINE)],
      "Every table of the families below; every query is compared with a linear scan (prefix and exact lookup, first match, existence, entries, reverse lookup). Buffers are exactly sized, so reads outside are caught.",
      dict(quick="7 mutually prefixing keys x 0..2 rows x 4 line-length patterns x final newline x header, 93 queries each; 1..48 rows x 6 length patterns; every truncation and bit damage of the header",
           thorough="as quick, up to 120 rows"),
      STATELESS, "Exhaustive over the stated table families on the real code.",
      ["tables are sorted by key and have the three-column format of the shipped data"])
check("C09", [H("c09_userfiles.cpp", ENGINE)],
      "Every byte string up to the bound is parsed and compared with a line-based reference; structured multi-line files go through both dictionary loaders, with reload.",
      dict(quick="all strings up to 7 bytes over {a,b,#,space,tab,LF,CR,NUL}; all files of up to 3 lines from 12 line shapes x 3 line endings x unterminated last line, and reloads",
           thorough="strings up to 8 bytes, files up to 4 lines"),
      STATELESS, "Exhaustive within the bounds on the real parser.")
check("C10", [H("c10_lm.cpp", ENGINE)],
      "Every combination of base entries, user phrases, exclusions, replacements and switch settings against a reference filter.",
      dict(quick="2 keys x up to 2 base entries (of 6) x up to 2 user phrases (of 3) x 16 exclusion sets x 8 replacement sets, each followed by other files loaded into the same model, x 16 switch settings",
           thorough="as quick with up to 3 base entries"),
      STATELESS, "Exhaustive within the bounds on the real code.")
check("C11", [H("c11_uom.cpp", ENGINE)],
      "All histories of learning and waiting against a plain list-based reference (queried after every step for every context at five later times); all picks in all short compositions, asked back in every short composition and position.",
      dict(quick="capacities 1..3, capacity+1 contexts, 2 candidates, time steps {0, 1/4, 3, 19.5, 21} half-lives, depth 6; compositions up to 4 of {two syllables, punctuation} x every pick, asked in all compositions up to 3",
           thorough="depth 7; asked in all compositions up to 4"),
      STATELESS, "Exhaustive within the bounds on the real code; exact score ties may be broken either way.")
check("C12", [H("c12_layouts.cpp", ENGINE)],
      "The reading buffer of every layout against independent layout tables: every component combination of the one-to-one layouts with every following key and Backspace, all short key sequences, every standard syllable in the 26-key and Pinyin layouts, and all chains of layout switches.",
      dict(quick="3 one-to-one layouts x 6160 syllables x 256 keys and Backspaces; all sequences of 3 keys; 2 contextual layouts x 409 syllables x 5 tones, all sequences of 4 keys; Pinyin: 409 x 5, all sequences of 4 keys of 20; 216 layout chains x 2-key sequences",
           thorough="sequences one key longer"),
      STATELESS, "Exhaustive within the bounds on the real code; for contextual (26-key) layouts partial readings are checked for consistency only, full standard syllables exactly.")
check("C13", [H("c13_syllables.cpp", ENGINE)],
      "All component combinations in every order, all standard syllables in Pinyin against an independent table, and all byte strings over the bytes of Bopomofo letters.",
      dict(quick="6160 syllables x 24 orders x 42 further components; 409 syllables x 5 tones in Pinyin; byte strings up to 6 over 11 bytes, short and exactly sized on the heap",
           thorough="byte strings up to 7"),
      STATELESS, "Exhaustive within the bounds on the real code.")
check("C14", [H("c14_assoc.cpp", ENGINE)],
      "Every table that is a subset of nine overlapping entries (with a duplicate row or not), queried with every prefix of 0..2 characters and 0..3 readings, against filtering the table.",
      dict(quick="1024 tables x 440 queries; split/join of all reading lists up to 5 of 5 parts", thorough="same"),
      STATELESS, "Exhaustive within the bounds on the real code.", ["tables hold entries of two or more characters, as the shipped data does"])
check("C15", [H("c15_utf8.cpp", ENGINE)],
      "All byte strings over the boundary bytes of every UTF-8 byte class, and every code point of the BMP (a stride of others), against a table-driven decoder.",
      dict(quick="all strings up to 5 bytes over 24 boundary bytes; all BMP code points (every 37th above), whole and cut; all sequences of up to 8 characters of each length and a bad byte and of up to 17 of one and three bytes", thorough="up to 6 bytes; all code points"),
      STATELESS, "Exhaustive within the bounds on the real code.")
check("C16", [H("c16_numbers.cpp", ["numbers"])],
      "Every typed number of the families below, in the four renderings, is read back by an independent reader of Chinese and Suzhou numerals (digits, places, spoken zeros, stroke alternation, place unit).",
      dict(quick="all digit strings up to 6 digits; {0,1,2,9} up to 8 digits; {0,1} and {0,5} up to 16 digits; up to 5 sections of 8 zero patterns (and 48 digits); all integers up to 3 digits x decimals up to 3 digits",
           thorough="7 digits; {0,1,2,9} up to 9; {0,x} up to 21 digits; 6 sections; 4 decimals"),
      STATELESS, "Exhaustive within the bounds on the real code; the reader follows the convention that a section needs a spoken zero when its top place or a whole section is skipped.")
check("C17", [H("c17_macros.cpp", ["macros"])],
      "Every macro at every day of the range and at the edges of every year in six time zones, and the time macros at every minute (every second around the hour), under a controlled clock, against independent calendar arithmetic.",
      dict(quick="every day 1988-2040 in Taipei; the edges of the years 1901-2099 in 6 zones; every minute of a day in 3 zones; 9 unknown names",
           thorough="every day 1905-2100; every second of a day"),
      STATELESS, "Exhaustive within the bounds on the real code with the installed ICU; the Chinese lunar calendar itself is taken from ICU (the day it is asked for is checked).",
      ["the clock is replaced at link time (gettimeofday, time, system_clock::now)"])
check("C18", [H("c18_reload.cpp", CORE), H("c18_engine.cpp", ADDON, san=False)],
      "Every history of writing in place, replacing, truncating, deleting and blocking each of the three user files, removing the directory, activating and restarting, from every initial disk state; after every step the candidates are compared with what the files said at the last activation. Through the whole engine, what is typed and what the panel lists is compared likewise over every history of edits, activations, plain and back, and restarts.",
      dict(quick="loader: 5 initial states x 21 operations, depth 3, always ending with an activation; engine: 8 initial states, 3 contents per file, depth 4", thorough="depth 4; engine: depth 5"),
      STATELESS, "Exhaustive within the bounds on the real loader and real files; successive versions of a file have different modification times (in any order).")
check("C19", [H("c19_addphrase.cpp", CORE)],
      "Every prior content x every sequence of additions, restarts and newline-dropping edits x the last append cut short after every number of bytes (by the file size limit); file bytes and candidates are compared before and after a restart.",
      dict(quick="13 prior contents (each left as it was by a start), 4 phrases and a line of 90 bytes, depth 3, every cut", thorough="depth 4"),
      "exhaustive fault-injecting exploration of the real code", "Exhaustive within the bounds on the real loader and real files; prior contents have no malformed line.",
      ["a write cut short is modelled by the file size limit"])
check("C27", [H("c27_mmap.cpp", ENGINE, ldflags=["-Wl,--wrap=open", "-Wl,--wrap=fstat", "-Wl,--wrap=stat", "-Wl,--wrap=mmap"])],
      "All histories of open (five kinds of path) / close / move / destroy over two objects with at most one failing system call at every position; contents, handles and mappings are compared after every step.",
      dict(quick="depth 4, one injected failure", thorough="depth 5, one injected failure"),
      "exhaustive fault-injecting exploration of the real code", "Exhaustive within the bounds; failures are injected at the open/stat/fstat/mmap calls of the linked code.")

ENGINE_NOTE = "Exhaustive within the bounds on the real engine driven through fcitx5's engine interface, with generated vocabularies; "
check("C01", [H("c01_engine.cpp", ADDON)],
      "From every kind of state, under several settings, every sequence of events (one key per branch of the key handling, clicks, page buttons, releases, focus changes, resets, switching, option changes), under ASan, UBSan and library assertions; after every event the display is checked to be well-formed and nothing may be hidden behind an empty display.",
      dict(quick="6 settings (default, all options on, associated phrases with candidates after the caret, plain, plain with associated phrases, Hanyu Pinyin) x every prefix state x depth 2",
           thorough="depth 3"),
      STATELESS, ENGINE_NOTE + "hangs count as violations by a per-run watchdog.",
      ["processes the engine starts are replaced by a stand-in at link time"])
check("C02", [H("c02_commit.cpp", ADDON, san=False)],
      "Every history of typing, committing, discarding and leaving from every start; each delivered text, display and consumed flag is compared with a reference model of the composition, and afterwards one more syllable is typed and committed so that anything left behind would show.",
      dict(quick="7 option sets x 4 starts (0..4 syllables) x 2 carets x depth 3 over 27 events", thorough="depth 4"),
      STATELESS, ENGINE_NOTE + "histories that pick associated phrases are cut (C24).")
check("C03", [H("c03_editor.cpp", ADDON, san=False), H("c03_errors.cpp", CORE, san=False), H("c03_pinyin.cpp", ADDON, san=False)],
      "Every history of editing keys from every start, caret and kind of unfinished syllable against a syllable-editor model: whole engine, key handler (error indication), and the Hanyu Pinyin layout against its own model.",
      dict(quick="engine: 2 option sets x 6 starts (0..5 syllables) x every caret x 3 unfinished syllables x depth 3 over 23 events, and a start of 40 syllables x 5 carets x depth 1; key handler: 4 option sets, depth 3; Pinyin: depth 5",
           thorough="engine: 16 option sets, depth 4; key handler depth 4; Pinyin depth 6"),
      STATELESS, ENGINE_NOTE + "conversions with exactly tied scores are cut.")
check("C20", [H("c20_panel.cpp", ADDON, san=False)],
      "Every key history inside panels opened from every caret position, in each key set, orientation and caret option, with labels, pages, highlight, resulting composition and caret compared with the model; every listed entry is also chosen by mouse.",
      dict(quick="4 option sets (key sets, orientations, caret options, 9 or 5 keys) x 4 starts x every caret x 3 ways in x depth 3", thorough="9 option sets, depth 4"),
      STATELESS, ENGINE_NOTE + "lists of up to 20 entries.")
check("C21", [H("c21_marking.cpp", ADDON, san=False)],
      "Every marking history at the key handler (errors and additions visible), and in the engine with the real files every marked range accepted: the highlighted part, what is added, the bytes of the user phrase file and the conversion afterwards.",
      dict(quick="5 starts of 2..8 readings (words of 1..3 syllables, words with more or fewer characters than syllables, 4-byte characters, punctuation) x every caret x 2 option sets x depth 4 (3); every pair of ends in the engine",
           thorough="depth 5"),
      STATELESS, ENGINE_NOTE + "phrases of 2..6 syllables are allowed.")
check("C22", [H("c22_plain.cpp", ADDON, san=False)],
      "Every key history in plain mode against a reference model of one syllable at a time, including panels, associated phrase offers, punctuation and letters.",
      dict(quick="5 option sets x 7 first steps x depth 3 over 41 events", thorough="6 option sets x 9 first steps x depth 4"),
      STATELESS, ENGINE_NOTE + "letters typed into an open panel are not specified and cut.")
check("C23", [H("c23_numbers.cpp", ADDON + ["macros"], san=False)],
      "Every key history in each number feature against a digit-list model with an independent rendering; the feature menu opened from every state and every entry chosen in every way; the length limit.",
      dict(quick="menu: 6 starts x idle keys x 6 ways x 5 features; date list: 17 entries x 3 ways; narrow alphabet depth 6, wide alphabet depth 3; 18..21 digits x point positions x depth 4",
           thorough="narrow depth 8 (enclosed 7), wide depth 4, length limit depth 5"),
      STATELESS, ENGINE_NOTE + "the clock is fixed.")
check("C24", [H("c24_associated.cpp", ADDON, san=False)],
      "Every offer in every composition, at every caret, opened from the composition, from a panel entry and automatically, picked by key and by mouse or cancelled; the readings, text, caret and what is delivered are compared with the definition, including phrases whose readings the vocabulary lacks.",
      dict(quick="all strings of 4 syllables up to length 3 (selected ones of length 4), every caret, with and without an earlier pick, 4 option sets, 4 endings", thorough="all strings up to length 4, 8 option sets"),
      STATELESS, ENGINE_NOTE + "identical panel entries at two places are ambiguous and cut.")
check("C25", [H("c25_punctuation.cpp", ADDON, san=False)],
      "Every printable key, Ctrl-key and number pad key, under every presence pattern of its vocabulary entries (half-width/full-width x layout/general, Ctrl, letter and list entries) from every start, in both input methods; the other five layouts with the keys outside them; every Ctrl+Return form after every short composition.",
      dict(quick="32 patterns x half x lower x 6 starts x about 160 keys (Standard); 3 starts for each of five other layouts; plain mode; Ctrl+Return: 3 forms x all sequences up to 4 of 7 items x caret x pick",
           thorough="also with candidates after the caret; Ctrl+Return sequences up to 5"),
      STATELESS, ENGINE_NOTE + "presence patterns are uniform over keys (each key only reads its own entries).")
check("C26", [H("c26_dictionary.cpp", ADDON)],
      "Every combination of service definitions, odd and truncated documents, texts to encode, and the dictionary menu from every place it can be opened: the process that would be started is recorded and compared, the composition compared with what it was.",
      dict(quick="pairs of 18 definition shapes, 19 odd documents, every truncation, lists of up to 30 services, 265 phrases; menus from every panel entry and marked range x 10 services x 3 ways x 4 option sets",
           thorough="triples of definition shapes, 8 option sets"),
      STATELESS, ENGINE_NOTE + "under ASan and UBSan.",
      ["processes the engine starts are replaced by a stand-in at link time"])
check("C28", [H("c28_learning.cpp", ADDON, san=False)],
      "Every history of typing, choosing (panel entry or Tab), committing or discarding, waiting and typing again, against the composition model extended with the learned preferences: where each is suggested, which one wins by frequency and age, when it has faded, and that words already chosen stay. Plain mode interleaved with smart mode.",
      dict(quick="clock under control; choose once: every sequence of up to 3 of 3 syllables or punctuation x caret x 7 ways x kept or discarded x 3 waits x every second sequence x where its last syllable goes; free histories of depth 5 over 12 operations; 4 rounds of choices x 3 waits; 4 rounds of plain and smart; both candidate options",
           thorough="two choices; free histories of depth 6; 5 rounds"),
      STATELESS, ENGINE_NOTE + "exact ties and choices that undo earlier ones in their own context are cut.")
check("C29", [H("c29_settings.cpp", ADDON, san=False)],
      "Every history of preference changes, settings-file edits with reload, status-area switches and entries, activations, restarts and composing, from several earlier sessions; after every step the settings file, the preferences shown, the switch labels, the status area and the composition are compared with a model, and at the end one probe per option is typed against the composition model. Every marked range of five compositions is accepted under every setting of the phrase hook.",
      dict(quick="2 input methods x 3 earlier sessions x 24 operations, depth 3, with and without a last activation; hook: 6 settings x 5 compositions x every range",
           thorough="depth 4"),
      STATELESS, ENGINE_NOTE + "options other than the two switches need only be in force after the next activation.",
      ["processes the engine starts are replaced by a stand-in at link time"])
check("C30", [H("c30_vocabularies.cpp", ADDON, san=False)],
      "Every history of a data file being replaced, removed, damaged or overridden by the user's own copy, switches between the two input methods, re-activations and restarts; after every step every syllable is typed and converted and the associated phrases are asked for, and the words must be those of the file in force for that method.",
      dict(quick="15 states before the first start x both methods; two changes (one when not starting from intact files), each followed by nothing or an action, and a last action; 28 file changes (8 states of a file) x {re-activation, switch, restart}",
           thorough="two changes from every start"),
      STATELESS, ENGINE_NOTE + "files are replaced by renaming, never rewritten in place (a mapping of a file truncated in place is outside the property).")
check("C31", [H("c31_clients.cpp", ADDON)],
      "Two clients, each with or without a pre-edit of its own, share one input method; every history of keys, focus changes, resets, switches and clients closing, against the composition model of the client with the focus; the other client must never receive or show anything.",
      dict(quick="4 pairs of clients (one with the plain method) x 17 operations, to depth 3 by the engine interface and to depth 4 through a whole fcitx5 Instance, then a focus change and one more composition",
           thorough="Escape option, depths 4 and 5"),
      STATELESS, ENGINE_NOTE + "whether a client without its own pre-edit receives the text when it loses the focus is open.")
NOT_APPLICABLE = {}
