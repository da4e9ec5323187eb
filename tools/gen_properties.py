#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list below is the source of truth."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
KH="src/KeyHandler.cpp"; MB="src/McBopomofo.cpp"; RG="src/Engine/gramambular2/reading_grid.cpp"

p("C01","No key history or option setting crashes the input method",
 "For every sequence of key events, candidate choices, resets, focus changes and option changes, in both input methods (smart and plain), the input method neither crashes, hangs, throws nor touches invalid memory. After every event what it shows is well-formed: the pre-edit is valid UTF-8 with the caret inside it on a character boundary, and a candidate list, when shown, is non-empty with the highlighted entry, if any (turning pages with the mouse clears it), on the page shown. When it shows nothing (no pre-edit, no candidates) it holds no hidden text: ordinary editing keys go through to the application.",
 ["histories","configurations"],"all event histories up to the stated depth, per option set, over an alphabet with one key per branch of the key handling",
 "Crashes need particular combinations of state, key and option (cancel a panel that was opened with nothing composed, then move on; a language model that lacks the reading); the tests type a few fixed words with one option set, and 25 of them cannot even run without the missing data file.",
 [KH,MB,"src/InputState.cpp","src/KeyHandler.h"],
 [("state dispatch and state transitions",MB+" (handle*State, enterNewState)"),("per-key handlers returning exactly one next state",KH),("grid index guards",RG)],
 [("input state","what is being composed / chosen / marked","src/InputState.h")],
 ["commit and pre-edit updates of the input context","input panel candidate list","key event accepted flag"])

p("C02","Committed text is exactly what was composed, once and in order",
 "For every history, the text delivered to the application is the composed text that the pre-edit displayed when it was committed (an unfinished syllable may be delivered as displayed or dropped), each piece exactly once and in order; Escape, Backspace, reset and a discarded composition never deliver text and never leave it behind to reappear later. Leaving the input context, or switching to another input method, delivers the displayed composition once (where the application shows the pre-edit itself), and a discarding reset delivers nothing. A key that the input method does not consume reaches the application, and while text is being composed no key reaches the application (except keys with Alt, Super or Caps Lock, Ctrl-punctuation the vocabulary does not list, and Ctrl+Return when that is switched off).",
 ["histories","configurations"],"all event histories up to the stated depth in every option set listed",
 "Loss or duplication shows only as a relation between the whole history of commits and pre-edits; tests compare single states.",
 [KH,MB],[("commit on Return / Space / focus out / mode switch",MB+" handleEmptyState, handleEmptyIgnoringPreviousState, handleCommittingState"),("grid and reading cleared together with the state",KH+" reset, handleEnterKey, handleEscKey")],
 None,["commitString calls","client pre-edit"])

p("C03","Editing keys act on the composition as a syllable editor",
 "For every history of typing, caret movement (Left, Right, Home, End, and their Shift variants, which mark), Backspace, Delete and Escape, the composition holds exactly the syllables an ordinary text editor would hold, and the caret is where that editor would have it; the pre-edit is the converted text with the unfinished syllable shown at the caret. A key that cannot act (Backspace at the start, Delete at the end, arrow past the edge, caret keys while a syllable is unfinished) changes nothing and is reported by the key handler's error indication rather than being passed to the application.",
 ["histories"],"all editing histories up to the stated depth, over syllables that form words of one, two and three syllables",
 "Caret arithmetic mixes syllable and byte positions and differs at each edge; tests fix a couple of positions.",
 [KH],[("cursor moves and deletion",KH+" handleCursorKeys, handleDeleteKeys"),("rendering of the composed string and caret",KH+" getComposedString")],None,["Inputting state: composing buffer and cursor index"])

p("C04","Conversion is a maximum-likelihood segmentation of the syllables",
 "For every sequence of syllables and every vocabulary, the displayed conversion splits the syllables into consecutive vocabulary entries that cover each syllable exactly once, and no other split has a greater total score, taking user-forced choices into account. Position queries on the result (which word covers a caret position and where it ends) agree with that split.",
 ["inputs","configurations"],"all small vocabularies over two syllables with scores from a small set, all syllable strings up to the stated length, with every single user override",
 "Optimality is a statement about all alternative paths of every lattice; tests compare a few sentences.",
 [RG],[("longest-path walk over the DAG",RG+" walk, TopologicalSort, Relax"),("findNodeAt",RG)],None,["walk result: node values, readings, scores"])

p("C05","The lattice depends only on the syllables, not on how they were edited",
 "After every history of insertions, deletions on either side of the caret, caret moves and clears, the set of candidate words at every position is exactly what typing the resulting syllables from scratch would give: words spanning a deleted or split place are gone and newly formed words are present. The caret stays in range and follows ordinary editor rules.",
 ["histories"],"all histories of insert / delete-before / delete-after / move / clear up to the stated depth, seeded from every short starting buffer, with words up to the maximum span",
 "Incremental invalidation has to be right for each edit position relative to each word length; tests sample a few.",
 [RG],[("expandGridAt / shrinkGridAt / removeAffectedNodes / update",RG)],[("spans","words starting at each position",RG)],["spans(), readings(), cursor()"])

p("C06","A user's choice is honoured and only conflicting choices are undone",
 "Whenever the user picks a listed candidate at a position, the next conversion shows that candidate there; earlier picks that do not overlap the affected words stay as they were, and those that overlap are dropped. Later edits elsewhere in the composition keep every pick whose word is still intact, at whichever end of the composition the edit happens. A weak (learned) suggestion changes the shown value of its own word only and reports failure when the candidate does not exist.",
 ["histories"],"all histories of pick / soft-pick / insert / delete up to the stated depth on short lattices with overlapping words",
 "The interaction of several overrides and edits is combinatorial; tests use two or three picks.",
 [RG],[("overrideCandidate and resetting overlapped nodes",RG),("node preservation over grid edits",RG+" removeAffectedNodes, update")],None,["walk result values after each pick and edit"])

p("C07","The candidate list at a caret position is complete and ordered",
 "At every caret position the offered candidates are exactly the vocabulary values of every word of the composition that covers the syllable at that position (the last syllable when the caret is at the end), each word's values in descending score (equal scores in vocabulary order), longer words first, and nothing is offered for positions outside the composition or for an empty composition.",
 ["inputs","histories"],"all short compositions x all positions x vocabularies with words of every span length, equal scores included",
 "Completeness is quantified over every position and every overlapping word.",
 [RG],[("candidatesAt, overlappingNodesAt, ScoreRankedLanguageModel",RG)],None,["candidatesAt"])

p("C08","Phrase database lookup finds exactly the lines of a key",
 "For every sorted phrase table and every key, the lookup returns exactly the lines whose key equals the requested key (in file order), the first-match query and the existence query agree with it, and reverse lookup by value returns exactly the readings of lines with that value. This includes keys that are prefixes of other keys, keys before, between and after all entries, the first and the last line, and a last line without terminator; a table whose header is damaged is rejected.",
 ["inputs"],"all sorted tables of up to N lines over a small key alphabet with varying line lengths, and all queries up to the stated length",
 "Binary search over raw bytes fails only for particular line lengths and positions; tests use one small table.",
 ["src/Engine/ParselessPhraseDB.cpp","src/Engine/ParselessLM.cpp","src/Engine/ParselessLM.h"],[("binary search for the first matching line","src/Engine/ParselessPhraseDB.cpp findFirstMatchingLine"),("value/score splitting","src/Engine/ParselessLM.cpp")],None,["findRows, getUnigrams, hasUnigrams, getReadings"])

p("C09","User dictionary text is parsed line by line, tolerating any content",
 "For every byte content of a user phrase, excluded phrase or replacement file, each line that has two fields yields exactly that pair, comments and blank lines and blanks around fields are ignored, and parsing never reads outside the file. A malformed line stops the reading there with an error and every well-formed line before it still takes effect; each phrase query returns all values of its reading in file order with the user-phrase score, and each replacement query the mapping in force for that key.",
 ["inputs"],"all byte strings up to the stated length over {letters, '#', space, tab, LF, CR, NUL}, and structured multi-line files up to the stated size",
 "Parsing errors depend on each placement of separators and on the end of the buffer.",
 ["src/Engine/KeyValueBlobReader.cpp","src/Engine/UserPhrasesLM.cpp","src/Engine/PhraseReplacementMap.cpp"],[("blob reader state machine","src/Engine/KeyValueBlobReader.cpp Next"),("multimap load","src/Engine/UserPhrasesLM.cpp load"),("replacement load","src/Engine/PhraseReplacementMap.cpp load")],None,["Next results, getUnigrams, valueForKey"])

p("C10","User phrases, exclusions, replacements and conversion combine correctly",
 "For every reading and every combination of base vocabulary, user phrases, excluded phrases, phrase replacement and external converter settings, the candidates are the user's phrases first and then the base vocabulary, with excluded values of that reading removed, replacements and conversion applied only when enabled, macros expanded or dropped, and no value listed twice. A user phrase scores so that it is preferred over the base entry of the same single syllable without out-scoring longer words, and a reading is reported usable exactly when it offers at least one candidate.",
 ["inputs","configurations"],"all combinations of small base / user / exclusion / replacement sets and of the switches",
 "Five interacting filters; tests enable one or two at a time.",
 ["src/Engine/McBopomofoLM.cpp","src/Engine/McBopomofoLM.h"],[("getUnigrams, hasUnigrams, filterAndTransformUnigrams","src/Engine/McBopomofoLM.cpp")],None,["getUnigrams, hasUnigrams"])

p("C11","Learned preferences: bounded, recency-ordered and decaying",
 "For every history of picks and queries with arbitrary times, the suggestion for a context is the picked candidate with the highest recency-weighted frequency for that exact context (the reading and up to two preceding words, back to the nearest punctuation), decays to nothing with age, and never comes from another context. Memory is bounded: when more contexts than the capacity have been learned, the least recently learned one is the one forgotten.",
 ["histories"],"all histories of observe/suggest up to the stated depth over contexts, candidates and time steps, with capacities 1..3",
 "LRU eviction and decay order depend on whole histories; tests use a handful.",
 ["src/Engine/UserOverrideModel.cpp"],[("observe / suggest with LRU list and decay","src/Engine/UserOverrideModel.cpp")],None,["suggest results"])

p("C12","Every keyboard layout types every syllable, one key per component",
 "In every keyboard layout (Pinyin included), every standard Mandarin syllable with each tone can be typed by the key sequence the layout assigns to it and then reads back as that syllable, and keys not in the layout are never consumed. In the one-key-per-component layouts a component typed later replaces the earlier one of its kind; Backspace removes exactly the last component in the canonical order (the last letter in Pinyin). Switching between layouts (including Pinyin and back) leaves no trace of the previous layout.",
 ["inputs","histories","configurations"],"all layouts x all components triples x tones; all key sequences up to the stated depth; all layout-switch pairs",
 "Hundreds of syllables times seven layouts with context-dependent keys; tests spell a few.",
 ["src/Engine/Mandarin/Mandarin.cpp","src/Engine/Mandarin/Mandarin.h"],[("layout tables and keySequenceFromSyllable / syllableFromKeySequence","src/Engine/Mandarin/Mandarin.cpp"),("reading buffer","src/Engine/Mandarin/Mandarin.h BopomofoReadingBuffer")],None,["composedString, isValidKey, isEmpty, hasToneMarker"])

p("C13","Syllable representations convert back and forth without loss",
 "For every combination of components, writing the syllable in Bopomofo and reading it back gives the same syllable, whatever the order the components are written in; distinct syllables have distinct Bopomofo strings. For every standard Mandarin syllable its Hanyu Pinyin is the standard spelling, and reading it back gives the same syllable and tone. Reading stops at the first text that is not a Bopomofo letter, so unknown or cut-off text never adds anything and nothing outside the text is read.",
 ["inputs"],"all 22 x 4 x 14 x 5 component combinations in all orders; all standard syllables for Pinyin; all short byte strings for rejection",
 "Needs all combinations; tests try a few.",
 ["src/Engine/Mandarin/Mandarin.cpp","src/Engine/Mandarin/Mandarin.h"],[("FromComposedString, composedString, FromHanyuPinyin, HanyuPinyinString","src/Engine/Mandarin/Mandarin.cpp")],None,["public syllable API"])

p("C14","Associated-phrase lookup returns exactly the continuations",
 "For every associated-phrase table (of entries of two or more characters), value prefix and reading prefix, the lookup returns exactly the entries that start with that prefix of characters (and, when readings are given, whose first readings are those readings) and are longer than it, without duplicates, ordered by score and then table order; splitting an entry into characters and readings and joining it again is lossless. Values or readings with more or fewer characters, or sharing only some bytes of a character, are never returned.",
 ["inputs"],"all small tables over a few characters/readings and all prefixes",
 "Prefix comparison over interleaved fields fails only for particular overlaps.",
 ["src/Engine/AssociatedPhrasesV2.cpp"],[("findPhrases, SplitReadings, CombineReadings","src/Engine/AssociatedPhrasesV2.cpp")],None,["findPhrases results"])

p("C15","UTF-8 helpers agree with the definition of UTF-8",
 "For every byte string, code point counting, clamping, splitting, single-character testing and advancing by code points agree with the UTF-8 definition: a well-formed string is divided exactly at its character boundaries, and an ill-formed one is handled up to the first bad byte without reading outside the string.",
 ["inputs"],"all byte strings up to length 4 over a class-representative alphabet (every lead/continuation class and boundary) and all well-formed characters",
 "Byte-class boundaries are many; tests use a few strings.",
 ["src/Engine/UTF8Helper.cpp"],[("CodePointCount, SubstringToCodePoints, Split, GetCodePoint","src/Engine/UTF8Helper.cpp")],None,["return values"])

p("C16","Numbers written in Chinese or Suzhou style denote the typed value",
 "For every integer part and decimal part, the lower-case, upper-case (financial) and Suzhou renderings, read back by the rules of Chinese numerals, denote exactly the typed number; zeros are inserted exactly where the spoken form needs one and no unit is dropped, and a Suzhou number of more than one digit alternates vertical and horizontal strokes for 1-3 and ends with the right place unit.",
 ["inputs"],"all integer strings up to 6 digits and all structured ones ({0,1,2,9} patterns) up to the widest supported, with decimals",
 "Zero and unit placement interacts across four-digit groups; tests check a few numbers.",
 ["src/ChineseNumbers/ChineseNumbers.cpp","src/ChineseNumbers/SuzhouNumbers.cpp","src/ChineseNumbers/StringUtils.cpp"],[("Generate","src/ChineseNumbers/*.cpp")],None,["Generate results"])

p("C17","Date and time macros expand to the right calendar value",
 "For every moment from 1901 to 2100 and every macro, the expansion denotes the local date or time it names (today, yesterday, tomorrow, this/last/next year, in Gregorian, ROC, Japanese, Chinese calendar or sexagenary/zodiac form of the Gregorian year; the weekday; the time of day), and an unknown macro name is returned unchanged.",
 ["inputs"],"every day across the stated range of years x all macros, and every minute of a day for the time macros, under a controlled clock",
 "Year ends, leap days, era changes; no test touches it.",
 ["src/InputMacro.cpp"],[("macro classes and MacroController::handle","src/InputMacro.cpp")],None,["MacroController::handle"])

p("C18","User dictionary edits take effect, and only the current files count",
 "For every history of creating, editing, truncating, deleting and re-creating the user phrase, excluded phrase and replacement files, after the next activation the conversions reflect exactly the current contents of the files, and an unreadable or missing file counts as empty; until then the conversions do not change, whatever happens to the files. At start the user directory and the two template files are created where missing, without touching existing ones. (Successive versions of a file have different modification times.)",
 ["histories","fault_sequences"],"all file-operation histories up to the stated depth per file, with and without activation in between, including vanishing directories",
 "Staleness depends on orders of file operations and reloads; no test covers the loader.",
 ["src/LanguageModelLoader.cpp","src/TimestampedPath.cpp","src/Engine/MemoryMappedFile.cpp"],[("reloadUserModelsIfNeeded, populateUserDataFilesIfNeeded","src/LanguageModelLoader.cpp"),("timestamp comparison","src/TimestampedPath.cpp")],None,["language model queries after reload"])

p("C19","An added user phrase is persisted and no saved phrase is damaged",
 "For every prior content of the user phrase file made of comments, blank lines and phrase lines (empty, without final newline, with CRLF, after a write cut short) and every sequence of phrase additions, each addition appends exactly one line with the phrase and its reading, leaves every earlier byte alone, is usable at once, survives restart, and every phrase present before is still read back the same; if the write is cut short at any byte, all earlier phrases are still read back.",
 ["histories","crash_points"],"all prior contents from a structured set x all addition sequences up to depth 3 x every byte cut of the last append",
 "Torn and unterminated files are never created by tests.",
 ["src/LanguageModelLoader.cpp"],[("addUserPhrase append","src/LanguageModelLoader.cpp")],None,["file bytes and language model after reload"])

p("C20","The candidate panel selects what its labels say and cancels cleanly",
 "In every candidate list, the n-th selection key (in each configured key set, and as many of its keys as configured, which is also the length of a page) picks the n-th entry of the page shown, Return picks the highlighted one, arrow keys move the highlight over all entries exactly once in list order, page keys show the next or previous page with the highlight on it, and a key that means nothing leaves everything unchanged and is not passed on. Choosing replaces exactly the word at the caret with the picked value and leaves the caret where the options say; cancelling restores the composition and caret from before the panel was opened (a caret moved from inside the panel stays where it was moved). Tab and Shift-Tab in the composition step through the same list.",
 ["histories","configurations"],"all key histories up to the stated depth inside panels opened from every caret position, for every key set / orientation / caret option",
 "Panels, pages and options multiply; no passing test opens a panel.",
 [MB,KH],[("handleCandidateKeyEvent and candidate list building",MB),("candidateSelected, candidatePanelCancelled",KH)],None,["candidate list, labels, highlighted index, resulting pre-edit"])

p("C21","Marking and adding a phrase uses exactly the highlighted text",
 "While marking, the highlighted segment is always exactly the characters between the marking start and the moving end, and the parts before, inside and after it together are the composition unchanged; leaving the marking returns to the composition with the caret at the marking's end. Return adds a phrase exactly when the segment has an allowed length and is not already known, and what is added is that text with exactly the readings of those syllables; otherwise nothing is added and an error is indicated.",
 ["histories","configurations"],"all marking histories up to the stated depth from every caret position of compositions mixing one- and multi-syllable words",
 "Byte, character and syllable offsets have to agree for each pair of ends.",
 [KH,"src/InputState.cpp",MB],[("handleMarkingState, buildMarkingState",KH)],None,["Marking state, added phrase"])

p("C22","Plain mode commits one chosen character at a time",
 "In the plain input method, finishing a syllable offers exactly its vocabulary entries, commits at once when there is only one, and otherwise the next syllable typed commits the highlighted choice first; nothing stays composed after a commit, and Escape or Backspace abandons the syllable without committing anything. Associated phrases, when enabled, are offered right after a commit and chosen only with Shift and a digit or Shift-Return; arrow and page keys and Space move among them, Escape and Backspace only dismiss them, and any other key dismisses them and acts as usual.",
 ["histories","configurations"],"all key histories up to the stated depth in plain mode with and without associated phrases",
 "The tests that would cover it need the missing data file; sequences matter.",
 [KH,MB],[("plain-mode branches",KH+" handleInputtingState; "+MB+" handleChoosingCandidate"),("handleCandidateKeyForTraditionalBopomofoIfRequired",KH)],None,["commits and candidate lists"])

p("C23","Number entry features accept only their digits and commit the rendering",
 "In the Chinese-number and enclosed-number entry features, the entered digits are exactly the digit (and single decimal point) keys typed minus those erased, up to the length limit; Return commits exactly the rendering of the number shown (or the chosen enclosed form) once and leaves; Escape leaves without committing, and every other unmodified key is absorbed and changes nothing. The feature menu opens exactly the entry selected.",
 ["histories"],"all key histories up to the stated depth in each number feature and the menu",
 "No test covers these states.",
 [KH,MB,"src/InputState.h"],[("handleChineseNumber, handleEnclosingNumber",KH),("feature menu",MB)],None,["commits, pre-edit"])

p("C24","Picking an associated phrase inserts its text at the caret with its readings",
 "In smart mode, the associated phrases offered for the word before the caret (its longest ending that has any) are those listed for that text with those readings, and picking one makes the composition show the full phrase at that place, with the syllables of the rest of the composition unchanged, its text unchanged except where a word straddled the phrase, and the caret after the phrase; this also holds when part of the phrase's readings are unknown to the vocabulary (then nothing is corrupted and the caret stays in range). Cancelling restores the panel or composition it came from.",
 ["histories"],"all caret positions x all offered phrases x compositions up to the stated length, including vocabularies lacking readings",
 "Needs insertion in the middle and missing readings; tests cover the end of the buffer only.",
 [KH,MB],[("pinNodeWithAssociatedPhrase, handleAssociatedPhrases",KH)],None,["composing buffer, readings, cursor"])

p("C25","Punctuation, letters, digits and special commits follow the options",
 "Every printable key outside the layout yields what the vocabulary lists for it as punctuation (half-width entries first when half-width is chosen; layout-specific before general; in plain mode a single entry is delivered and several are offered), Shift-letters yield upper- or lower-case letters directly or in the composition as configured, Ctrl+Return delivers the composition in the configured form (Bopomofo readings or HTML ruby), and a key the input method has no use for is passed on when nothing is composed and otherwise absorbed (Ctrl combinations it has no use for may be passed on). In the Hanyu Pinyin layout letters of either case are Pinyin. Each physical key, including those of the number pad, stands for the character printed on it.",
 ["inputs","configurations"],"all keys x modifiers x states x option values",
 "Cross product of keys, modifiers, states and options; tests cover a handful.",
 [KH,MB,"src/Key.h"],[("handlePunctuation, handleEnterKey, handleCtrlEnterKey",KH),("MapFcitxKey",MB)],None,["resulting state, commits"])

p("C26","Dictionary lookups receive exactly the selected text",
 "For every dictionary service definition and every selected text, choosing the service opens that service's address with the placeholder replaced by the (percent-encoded) text and everything else of the address kept; malformed or missing definitions are skipped without failure. Looking something up delivers the composition exactly once and leaves nothing behind; cancelling the menu restores the composition, its caret and the panel or marking it was opened from.",
 ["inputs","histories","configurations"],"all service templates from a structured set x texts, malformed definition files, and all menu histories up to the stated depth",
 "No test covers it.",
 ["src/DictionaryService.cpp",KH],[("lookup, load","src/DictionaryService.cpp"),("handleDictionaryService",KH)],None,["spawned command and arguments"])

p("C27","File mapping is all-or-nothing and survives re-opening",
 "For every history of opening, re-opening and closing files that exist, are empty, are missing, are directories or cannot be read, a successful open exposes exactly the file's bytes, a failed one leaves nothing open, closing releases everything, and no handle or mapping leaks.",
 ["histories","fault_sequences"],"all open/close/move histories up to the stated depth over files of each kind, with every system call failing in turn",
 "Tests cover successful opens only.",
 ["src/Engine/MemoryMappedFile.cpp"],[("open/close","src/Engine/MemoryMappedFile.cpp")],None,["data(), length(), open descriptors and mappings"])

p("C28","Choices are remembered and applied again exactly where they belong",
 "In smart mode, when the user chooses a word of up to three syllables that is not rare (score above -8), then typing the same syllables again in the same context (that word after the same one or two words, back to the last punctuation or the start) makes the composition choose it by itself; in any other context nothing changes. Among several choices made in one context the one with the highest frequency weighted by age (halving every hour and a half) wins, and choices fade away after 30 hours. A choice of a longer word over shorter ones is applied against a better-scoring conversion, a choice that breaks up a longer word never hides longer words. A suggestion never replaces the word at the caret when the user already chose it. Committing, discarding or leaving does not change what was learned, and plain mode neither learns nor applies anything.",
 ["histories","configurations"],"all histories of the stated depth of typing, choosing, committing, waiting and typing again, under a controlled clock",
 "What was learned shows only later, elsewhere and at another time; unit tests check the preference store by itself.",
 [KH,"src/Engine/UserOverrideModel.cpp"],[("handle (suggestion after a syllable), pinNode (observation)",KH),("context key, score and decay","src/Engine/UserOverrideModel.cpp")],None,["pre-edit after every key"])

p("C29","Settings and switches take effect, persist and touch nothing else",
 "For every history of preference changes, status-area switches, edits of the settings file with reload, activations and restarts, each change alters exactly the options it names; every option is in force no later than the next activation (the two status-area switches at once, without disturbing what is being composed), the settings file and the preferences shown always hold the current values so that a restart brings them back, and each switch's label tells on from off. The edit entries of the status area (smart mode only) open the user's phrase file and excluded-phrase file with the configured program, and accepting a new phrase runs the configured hook script exactly once with exactly that phrase, only when enabled.",
 ["histories","configurations"],"all histories of the stated depth over preference changes, file edits, switches, activations, restarts and composing",
 "An option that is saved but not applied, applied but not saved, or that disturbs another shows only over a history; no test reads the settings.",
 [MB,"src/McBopomofo.h"],[("setConfig, reloadConfig, activate, status-area actions",MB),("configuration declaration","src/McBopomofo.h")],None,["settings file, preferences shown, switch labels, behaviour of each option"])

p("C30","Each input method converts with the words of its own data file",
 "After every start and every switch between the smart and the plain input method, the words offered and composed are exactly those of that method's data file as it is then (the user's own copy going before the system's), plus the user's phrases and minus the user's exclusions in smart mode, and the associated phrases are those of the table found at the start. A data file that is missing, empty, a directory, without the header or with a damaged one counts as empty: its syllables are consumed and give nothing, words of the other method or of an earlier file never appear, and everything works again once an intact file is loaded. Replacing or removing a file that is in use never crashes or mixes old and new words.",
 ["histories","fault_sequences"],"all histories of the stated depth of file changes, switches, re-activations and restarts",
 "Which file is in force depends on the order of file changes and switches, and on data files being absent or damaged; the tests use intact data in memory.",
 ["src/LanguageModelLoader.cpp",MB,"src/Engine/ParselessLM.cpp","src/Engine/AssociatedPhrasesV2.cpp"],[("constructor, loadModelForMode","src/LanguageModelLoader.cpp"),("activate",MB),("open, close","src/Engine/ParselessLM.cpp")],None,["pre-edit and candidate panel while typing"])

p("C31","A composition belongs to the client it was typed in and is shown there",
 "However the input focus moves between clients, and whether clients reset or close while composing: keys act only on the composition begun in the focused client since it got the focus, text is delivered only to that client, nothing is shown in another one, and a client that gets the focus starts with nothing composed. The composition is shown in the client when it has a pre-edit of its own and in the input method's window otherwise, also while marking and entering numbers, and what was changed is always sent out to be displayed.",
 ["histories","configurations"],"all histories of the stated depth of keys, focus changes, resets, switches and closing over two clients of either kind",
 "The state of the composition is one for all clients; a leak needs two clients, and no test has even one.",
 [MB],[("activate, deactivate, reset",MB),("enterNewState and the handle...State functions",MB),("updatePreedit",MB)],None,["commitString, input panel and refresh requests of each client"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
