#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})


prop("C01", "MIDI export then import preserves the pattern",
     "For every pattern whose notes lie on ticks of its resolution and do not overlap on one pitch, exporting it to a MIDI file and importing that file gives the same notes (start, duration, pitch, velocity), duration, resolution, time signature, key, and tempo to the microsecond per beat. The file is complete as soon as the export returns, names its track after the pattern and ends after its last note, times off the tick grid move by at most half a tick, and exporting the imported pattern again gives the same music. When a tag-to-pitch mapping is given, notes whose tag it names are written at the mapped pitch and all others at their own pitch.",
     ["inputs", "configurations"], "all patterns, resolutions, tempi, signatures, keys, mappings, file names",
     "one test exports a few corpus files whose content already lies on the grid and compares loosely",
     ["gsapi/gsio.py", "gsapi/midiio.py"],
     [("toMidiFile", "gsapi/gsio.py:toMidiFile"), ("fromMidiFile", "gsapi/gsio.py:fromMidiFile"), ("FileWriter", "gsapi/midiio.py:FileWriter")],
     ["gsio.toMidiFile return", "bytes of the exported file", "gsio.fromMidiFile return"])

prop("C02", "MIDI import reproduces the notes of any standard MIDI file",
     "Importing a well-formed standard MIDI file gives exactly one event per note-on of non-zero velocity, with its pitch and velocity, starting at its absolute tick divided by the file's ticks per beat and lasting until the matching note-off (or zero-velocity note-on) of the same channel and pitch in its track (which ends the latest note begun before it, or, if there is none, one that begins just then, given a tiny duration), or until the end of the pattern when there is none (asked to check for overlaps, it removes those of one pitch). This holds for any number of tracks and channels, running status, interleaved controller, meta and sysex events, and header sizes. Duration (latest end of track), resolution, tempo, time signature and key (minor keys named by their tonic) are those of the file, whose name it bears.",
     ["inputs"], "all well-formed format 0 and 1 files with metrical time division",
     "tests only import the bundled corpora and compare with themselves",
     ["gsapi/gsio.py", "gsapi/midiio.py", "gsapi/gsdefs.py"],
     [("note matching", "gsapi/gsio.py:__fromMidiFormat"), ("meta events", "gsapi/gsio.py:__metaEventsFromMidiFile"), ("FileReader", "gsapi/midiio.py:FileReader")],
     ["gsio.fromMidiFile return, against an independent decoder of the same bytes"])

prop("C03", "Note-to-tag mapping and track selection",
     "An imported note gets exactly the tags whose rules match it, where a rule is a pitch, a (pitch, channel) pair with '*' as wildcard, or a list of those (one matching tag alone, several as a tuple), or its pitch name with octave when names are asked for; unmatched notes are dropped, or kept untagged when filtering is off. With a track selection, by name or by index (one or several), the result has exactly the notes of the selected tracks; when tags come from track names, all notes of a track get the mapped names its name contains. Importing never changes the mapping it is given, and importing a collection gives, for each file, what importing that file alone gives, cut in slices when a length is given.",
     ["inputs", "configurations"], "all files, mappings, selections and flag combinations",
     "no test uses track selection, channel rules, wildcards or track-name tags",
     ["gsapi/gsio.py"],
     [("mapping rules", "gsapi/gsio.py:__tagsFromMidiNoteAndChannel"), ("track selection", "gsapi/gsio.py:__fromMidiFormat"), ("collections", "gsapi/gsio.py:fromMidiCollection")],
     ["gsio.fromMidiFile and gsio.fromMidiCollection return", "the mapping argument before and after"])

prop("C04", "Low-level MIDI reading and writing are exact inverses",
     "For every sequence of MIDI events (notes, controllers, programs, touch, pitch wheel, sysex, text, tempo, signatures, unknown meta events) with any delta times up to 28 bits, writing gives a file that a strict reader decodes to the same events, and reading it back and writing again gives the same events and bytes. Converting tracks between relative and absolute times and back changes nothing, slicing keeps that mode, and the typed values of an event (pitch, velocity, control, bend, tempo, signature, key, text) are what its bytes say.",
     ["inputs", "histories"], "all event sequences; all read/write/convert histories",
     "no test calls the MIDI codec directly",
     ["gsapi/midiio.py"],
     [("varlen", "gsapi/midiio.py:read_varlen/write_varlen"), ("running status", "gsapi/midiio.py:FileWriter.encode_midi_event"), ("ticks", "gsapi/midiio.py:Track.make_ticks_abs/make_ticks_rel"), ("event accessors", "gsapi/midiio.py:*Event")],
     ["midiio.read_midifile / write_midifile", "event properties"])

prop("C05", "Damaged MIDI files never hang, leak or yield invalid patterns",
     "Importing any bytes whatsoever (truncated, corrupted or arbitrary) ends after a bounded number of steps, either with an exception or with a pattern whose events all have finite start times of at least zero and durations above zero. Either way no file stays open, the file is not changed, and a later import of a good file gives what it would have given before. A MIDI file cut inside its last track still yields the notes that came before the cut.",
     ["inputs", "fault_sequences"], "all byte strings: truncation at every byte, bit flips, splices, garbage",
     "tests only read well-formed files",
     ["gsapi/midiio.py", "gsapi/gsio.py"],
     [("parser", "gsapi/midiio.py:FileReader"), ("import", "gsapi/gsio.py:__fromMidiFormat")],
     ["gsio.fromMidiFile outcome", "open file descriptors", "executed lines"])

prop("C06", "JSON save and load preserve the pattern",
     "For every pattern and its nested viewpoints, saving to JSON and loading gives a pattern with the same events (start, duration, pitch, velocity, tag), name, duration, tempo, time signature, start time, key and resolution, and the same viewpoints linked to their pattern, with tag indexing on (tags stored once, events holding indices) or off (tags stored directly). Tuple tags come back as tuples, nested ones included when tuple conservation is on; a file whose events list several tag indices gives tuples of those tags. The returned path is the complete file, and saving does not change the pattern other than extending its duration to its last event.",
     ["inputs", "configurations"], "all patterns with string, number and (nested) tuple tags; all option combinations",
     "the tests cover one option combination on flat string tags",
     ["gsapi/gsio.py", "gsapi/gspattern.py"],
     [("toJSONDict/fromJSONDict", "gsapi/gspattern.py"), ("tuple hints", "gsapi/gsio.py:toJSONFile/fromJSONFile")],
     ["gsio.toJSONFile / fromJSONFile", "Pattern.toJSONDict / fromJSONDict"])

prop("C07", "Pickle save and load preserve the whole pattern",
     "For every pattern, saving it in pickle format and loading gives an equal, independent pattern: all event and pattern fields, tags of any hashable type, viewpoints, and the links from viewpoints and events to the patterns they come from. The returned path is the complete file, named after the pattern and suffix, and the saved pattern is unchanged.",
     ["inputs"], "all patterns, viewpoint graphs and file names",
     "the pickle test only exercises corpus files without viewpoints",
     ["gsapi/gsio.py"], [("toPickleFile/fromPickleFile", "gsapi/gsio.py")],
     ["gsio.toPickleFile / fromPickleFile"])

prop("C08", "Slicing in time loses and invents nothing",
     "Splitting a pattern (or a viewpoint of it) into equal lengths gives, for each slice in order, exactly the portions of events that sound within it, relative to its start, for any length: nothing is lost, doubled or moved, each slice has the asked duration, its own start time and a name numbered by its position, and empty slices are left out or kept as asked. Taking one time slice gives exactly the events that start in it, relative to its start and cut at its end if asked. Both keep tempo, signature, key and resolution, and leave the source untouched unless told not to copy.",
     ["inputs"], "all patterns, slice lengths (dyadic or not) and options",
     "tests only slice grid-aligned patterns at lengths dividing the duration",
     ["gsapi/gspattern.py"],
     [("splitInEqualLengthPatterns", "gsapi/gspattern.py"), ("patternFromTimeSlice", "gsapi/gspattern.py")],
     ["return values of both methods, source pattern before and after"])

prop("C09", "Overlap removal and grid alignment keep every onset once",
     "After removing overlaps, the events of one voice (same tag, or same pitch when asked) have exactly the onset times they had, one event each, ordered in time, ending no later than the voice's next onset and otherwise lasting as before. After aligning on a grid, each tag has one event of one step length at every step nearest to one of its onsets before the pattern's end, with repeatable tags (silences) repeated on every step they cover. Other voices never influence a voice.",
     ["inputs"], "all patterns and grid steps",
     "one test checks silence filling after alignment on corpus drums",
     ["gsapi/gspattern.py"],
     [("removeOverlapped", "gsapi/gspattern.py"), ("alignOnGrid", "gsapi/gspattern.py"), ("cutInSteps", "gsapi/gspattern.py")],
     ["pattern before and after each call"])

prop("C10", "Silence filling covers exactly the silent time",
     "Filling with silences keeps all events as they are and adds silence events (asked tag and pitch, velocity zero) that cover exactly the time of the pattern in which no event sounds: no gap left, no overlap with an event or another silence, one silence for each gap. With a maximum silence time no silence is longer; per tag, each (whole) tag's silent time is covered once. The copying variant leaves its source untouched.",
     ["inputs", "configurations"], "all patterns and parameter combinations",
     "the test checks one maximum on corpus drums",
     ["gsapi/gspattern.py"], [("fillWithSilences", "gsapi/gspattern.py"), ("getFilledWithSilences", "gsapi/gspattern.py")],
     ["pattern before and after"])

prop("C11", "Legato closes gaps and changes nothing else",
     "Applying legato makes each event of a voice (pitch or tag, as asked) last at least until the voice's next onset, the last one until the pattern's end, and never shortens an event or changes its start, pitch, velocity or tag. Filling with previous events makes every event last exactly until the next distinct onset of the pattern, or its end.",
     ["inputs"], "all patterns, ordered or not",
     "one test on one corpus, which fails before reaching its assertions",
     ["gsapi/gspattern.py"], [("applyLegato", "gsapi/gspattern.py"), ("fillWithPreviousEvent", "gsapi/gspattern.py")],
     ["pattern before and after"])

prop("C12", "Quantizing, stretching and transposing act exactly",
     "Quantizing moves each start, and each duration, to a nearest multiple of the step, durations to at least one step, only the ones asked for, and quantizing again changes nothing. Time-stretching multiplies all times of the pattern by the ratio; transposing adds the interval to every pitch and names the event by its new pitch, and the opposite stretch or transposition restores times and pitches. Extending to a bar gives the smallest whole number of bars not shorter than the pattern; none of these changes any other field.",
     ["inputs"], "all patterns, steps, ratios and intervals",
     "one test stretches corpus files by one ratio",
     ["gsapi/gspattern.py"],
     [("quantize", "gsapi/gspattern.py"), ("timeStretch", "gsapi/gspattern.py"), ("transpose", "gsapi/gspattern.py"), ("durationToBar", "gsapi/gspattern.py")],
     ["pattern before and after"])

prop("C13", "Selections return exactly the matching events",
     "Selecting by tag (equality, one element of a tuple tag when not exact, any of a list, or a predicate), excluding by tag, and selecting by pitch give exactly the matching events in order; selection and exclusion by the same criterion partition the pattern, and a tag never matches because it is part of another name. Queries for active events at a time (start included, end excluded), for events starting at a time (or up to the tolerance before), for events sharing tags, and for all tags or pitches answer exactly for every time and tag. Copies are independent of the source, and uncopied selections hold the very same events.",
     ["inputs"], "all patterns, tags (string, number, tuple), times and tolerances",
     "tests call two of these with the tags of drum files only",
     ["gsapi/gspattern.py"],
     [("getPatternWithTags / WithoutTags / WithPitch", "gsapi/gspattern.py"), ("activeEventsAtTime / getStartingEventsAtTime", "gsapi/gspattern.py"), ("Event tag tests", "gsapi/gspattern.py:Event")],
     ["return values against a direct filter of the events"])

prop("C14", "Any history of edits leaves the pattern consistent",
     "After any sequence of adding, replacing, removing (one event, or all having a tag), reordering and duration updates, the pattern holds exactly the events added and not removed. Adding extends the duration just enough to hold the new event and never shortens it, the last note-off is the latest end of all events, and fitting the duration to the last event sets exactly that. Reordering sorts by start time and keeps simultaneous events in their order. None of these touches a viewpoint.",
     ["histories"], "all edit histories",
     "no test edits a pattern step by step",
     ["gsapi/gspattern.py"],
     [("addEvent / removeEvent / removeByTags", "gsapi/gspattern.py"), ("lastNoteOff / durationToLastEvent", "gsapi/gspattern.py")],
     ["pattern state after every operation, against a list model"])

prop("C15", "Copies are independent and analysis leaves its input alone",
     "A copy of a pattern or event equals its source and no later change to either shows in the other; patterns, styles and descriptors created separately share no state. Copying, selecting with copies, slicing, describing, computing viewpoints, exporting, learning a style, density transformation and generation leave the events, tags and settings of their input patterns as they were. A structure copy without events keeps all settings of its source.",
     ["histories", "inputs"], "all interleavings of analysis calls and edits on shared patterns",
     "tests use every pattern once and never compare it before and after",
     ["gsapi/gspattern.py", "gsapi/gsstyles.py", "gsapi/gstransformers.py", "gsapi/gsdescriptors.py", "gsapi/gsio.py"],
     [("copy / copyWithoutEvents", "gsapi/gspattern.py"), ("deepcopy of the learned patterns", "gsapi/gsstyles.py:buildTransitionTable"), ("origin copy", "gsapi/gstransformers.py:buildDensityMap")],
     ["deep snapshots around every call"])

prop("C16", "Density, number of tags and syncopation follow their definition",
     "Density is the summed duration of the events whose tag is not ignored (silence by default) and, if inclusions are given, included; the number of tags is the count of distinct tags of the same events. Syncopation is, over a loop of a power-of-two number of beats, the sum over beats that sound and whose (cyclically) next beat is silent of the difference of their metrical weights, a beat's weight being the number of successive halvings of the loop that begin at it. A descriptor's value depends only on the pattern, not on event order or on what the descriptor or the pattern was used for before.",
     ["inputs", "histories"], "all patterns and all histories of use of a descriptor object",
     "tests check two hand-made patterns",
     ["gsapi/gsdescriptors.py", "gsapi/gsextractors.py"],
     [("Density / NumberOfTags / Syncopation", "gsapi/gsdescriptors.py"), ("feature space", "gsapi/gsextractors.py:DensityDrumSpace")],
     ["getDescriptorForPattern return against the formula"])

prop("C17", "Chord recognition names the chord that is played",
     "Notes of equal length that are exactly a chord of the table, in any transposition, octave, inversion or order, each in one or two octaves, are recognised as a chord with those pitch classes, and, with each note in one octave, the chord itself is among the answers when all equal ones are asked for; silence is reported when nothing sounds. For any other material the answer is a chord of the table (major or minor only, when forced) and transposing the notes transposes the answer. No other chord of the table scores higher, a score being the sounding time of each pitch class weighted 0.8 for the notes of the chord and -1 for foreign notes, less half the pattern's duration for each missing chord note.",
     ["inputs"], "all note sets, transpositions and options",
     "the chord test tolerates errors and only logs mismatches",
     ["gsapi/gsdescriptors.py", "gsapi/gsdefs.py"],
     [("Chord descriptor", "gsapi/gsdescriptors.py:Chord"), ("profiles", "gsapi/gsdescriptors.py:convolveWithPitchProfile"), ("chord table", "gsapi/gsdefs.py:chordTypes")],
     ["Chord().getDescriptorForPattern"])

prop("C18", "Viewpoints and chordification cover the pattern faithfully",
     "A viewpoint has exactly one event per slice that has events: per length (in order, with the slice's start and duration), per distinct onset (lasting to the end of the longest event active there), or for the whole pattern, tagged with the descriptor's value for precisely the events of that slice, and it is stored under its name, replacing an earlier one. Chordifying gives one chord per distinct onset, holding pitch, velocity and tags of exactly the events active there. Neither changes the notes of the pattern.",
     ["inputs", "configurations"], "all patterns, slice types and descriptors",
     "viewpoint tests fail before asserting, chordify has no test",
     ["gsapi/gspattern.py", "gsapi/gstransformers.py"],
     [("generateViewpoint", "gsapi/gspattern.py"), ("Chordify", "gsapi/gstransformers.py")],
     ["recording descriptor called by generateViewpoint", "Chordify events"])

prop("C19", "Markov learning counts exactly the observed transitions",
     "After learning a style from loops of its duration, the probability of a step's outcome after a given past is the number of loops in which it followed that past at that step divided by the number of loops having that past there, where a step's state is the set of tags starting on it (or silence) and the past wraps around the loop. Every learned past has probabilities summing to one, nothing unobserved has any, and the order of loops or of simultaneous events does not matter. The transition matrices, their plots and the state lists report exactly this table, for every step and order, and learning again replaces what was learned.",
     ["inputs", "histories"], "all sets of loops, orders, step counts, loop durations",
     "one test checks the table's shape for one corpus",
     ["gsapi/gsstyles.py"],
     [("buildTransitionTable", "gsapi/gsstyles.py"), ("formatPattern", "gsapi/gsstyles.py"), ("getMatrixAtStep", "gsapi/gsstyles.py")],
     ["matrices and state lists after learning, against counts made from the loops"])

prop("C20", "Markov generation follows the learned style",
     "Every generated pattern has the loop's duration, events of one step length on the step grid, none at a silent step, and only states and transitions that were observed at their step, starting with an observed beginning; it always succeeds once a style was learned. Outcomes are chosen in proportion to their learned probabilities, so every one of them can occur. The same seed gives the same pattern whatever was generated before and in whichever process, generation does not alter what was learned, and no use of the library starts the program's random numbers again.",
     ["inputs", "histories", "schedules"], "all styles, all seeds, all generation histories",
     "one test generates once and checks nothing about transitions",
     ["gsapi/gsstyles.py"], [("generatePattern", "gsapi/gsstyles.py:PatternMarkov")],
     ["generated patterns over many seeds, against the loops learned from"])

prop("C21", "Saved styles restore completely",
     "A Markov style saved to JSON or pickle, or whose internal state is handed over, and restored in a new object has the same probabilities for every step and past, the same order, step count and loop duration, counts as built, and generates only what the saved one could. A database style restores the same patterns in the same order. Saving leaves the style and existing patterns as they were.",
     ["inputs", "histories"], "all styles and save/restore histories",
     "no test saves a style",
     ["gsapi/gsstyles.py"], [("getInternalState/setInternalState", "gsapi/gsstyles.py"), ("saveToJSON/loadFromJSON, saveToPickle/loadFromPickle", "gsapi/gsstyles.py")],
     ["tables and generated patterns before and after restoring"])

prop("C22", "Density transformation reaches each requested density",
     "After any history of density requests, each tag has the number of notes its last requested density d asks for on the step grid: the nearest whole number to d times its original notes for d up to 1 (none at 0), and its original notes plus the nearest whole number to (d-1) times its silent steps above (all steps at 2). Below 1 its notes are among the original ones, above 1 they include them, at 1 they are the original pattern on the grid, with at most one note per step, and tags without a request stay as they are. The result has the input's duration, the input pattern is never changed, and giving another input pattern (or one that was changed) starts a new history, while giving the current one again goes on with it.",
     ["histories", "inputs"], "all patterns, modes, step counts and request histories",
     "one test walks one corpus up and fails before asserting",
     ["gsapi/gstransformers.py"], [("updateNormalizedDensities", "gsapi/gstransformers.py"), ("add/removeEventForTag", "gsapi/gstransformers.py")],
     ["transformed pattern after every request, against the grid version of the origin"])

prop("C23", "Datasets hold each matching file once, as imported alone",
     "A dataset has one pattern per file matching its folder and glob, each equal to importing that file alone with the dataset's mapping and overlap setting, and re-importing with another glob replaces them. Its slices are the slices of each pattern in order, and a viewpoint computed on the dataset is computed on every pattern. File searches return exactly the existing files with the asked suffix, sorted and without duplicates, and name matching returns exactly the equally named ones.",
     ["inputs", "configurations"], "all folder contents, globs, suffixes and mappings",
     "tests load the fixed corpora only",
     ["gsapi/gsdataset.py", "gsapi/gsutil.py"],
     [("Dataset", "gsapi/gsdataset.py"), ("search_files / match_files", "gsapi/gsutil.py")],
     ["Dataset.patterns, slices and viewpoints", "search_files / match_files return"])

prop("C24", "Bassline analysis counts exactly what the corpus plays",
     "The bassline model learned from sequences of beat patterns has, for every beat pattern, initial, transition (each to the next, the last to the first) and kick-to-bass co-occurrence probabilities equal to the observed counts divided by their row totals, whatever the order and number of sequences; its rhythm model, and its pitch model in intervals (12 less than the index), say the same. Analysing a folder of matching bass and drum files learns exactly the sixteenth-note beat patterns of the notes in those files, kicks only from the drums. Binary beat patterns, their numeric ids and the id-to-onset dictionary are mutually consistent for every beat pattern.",
     ["inputs", "histories"], "all sequences and corpora; learning may continue after normalising",
     "bassmine has no test",
     ["gsapi/bassmine.py"],
     [("MarkovModel", "gsapi/bassmine.py"), ("corpus_analysis", "gsapi/bassmine.py"), ("binaryBeatPattern / translate_rhythm", "gsapi/bassmine.py")],
     ["model matrices after normalize_model, against recounted sequences"])

prop("C25", "Generated basslines obey the model and the constraints",
     "A generated bassline has the asked number of beats (at most the target's), starts with an observed first beat pattern and moves only by transitions the model has seen; with a kick target, each beat also co-occurs with the target's kick pattern of that beat in the model (with the metronome pulse, where the model does not know that kick pattern). A variation keeps every beat marked to be preserved and the first, has the length of its target and again only seen transitions. Constrained models offer at every step exactly the continuations that can be completed to the end, with probabilities proportional to the model's and summing to one, drawn with those probabilities; an index sampled from a list of probabilities is drawn with them too; the model itself is not changed, and the JSON files written hold it.",
     ["inputs", "schedules"], "all models, targets, masks and random choices for which a solution exists",
     "bassmine has no test",
     ["gsapi/bassmine.py"],
     [("constrainMM / variationMM", "gsapi/bassmine.py"), ("generateBassRhythm / generateBassRhythmVariation", "gsapi/bassmine.py")],
     ["generated patterns and constrained models"])

prop("C26", "Note names, chord tables and pitch spelling agree",
     "Every MIDI pitch has a name made of its pitch class (from any octave-long list of names) and octave (60 is C4), which the note table maps back to the same pitch when spelled with sharps, and equal pitch classes have equal spellings, in sharps or flats as asked. The two chord tables describe the same pitches for every chord they share, the degrees its name says, chords spelled from any root follow the table's intervals, the key tables name each signature once and as its tonic, and the drum tables name each of their pitches once, General MIDI's as the standard does.",
     ["inputs"], "all pitches, spellings, roots and chord types (enumerated completely)",
     "no test reads the tables",
     ["gsapi/gsutil.py", "gsapi/gsdefs.py"],
     [("pitch2name / pc2note / pc2base40 / makeChord", "gsapi/gsutil.py"), ("noteMap, chordTypes, chordIntervals, midiKey", "gsapi/gsdefs.py")],
     ["function results for the complete input space"])

prop("C27", "Python 2 and Python 3 give the same results",
     "For the same inputs and operations, the library gives the same music under Python 2.7 and Python 3: equal events, durations, tags, descriptor values, learned probabilities and exported bytes, up to the order of simultaneous events and of tags. A MIDI or JSON file written under either is read to the same pattern under the other.",
     ["configurations", "inputs"], "all API histories that do not involve random choices, run under both interpreters",
     "the suite runs under each interpreter separately and never compares them",
     ["gsapi/gspattern.py", "gsapi/gsio.py", "gsapi/midiio.py", "gsapi/gsdescriptors.py", "gsapi/gsstyles.py"],
     [("division and text handling imports", "all modules"), ("bytes handling", "gsapi/midiio.py")],
     ["event logs of the same workload recorded under both interpreters, compared offline"])

prop("C28", "Separate objects can be used from several threads at once",
     "Threads that each work on patterns, styles, models, datasets and files of their own do not affect each other, however their steps interleave: every thread gets the results, files and errors it would get alone. They may share what none of them changes: a learned style they generate from or save, density, number-of-tags and chord descriptors, note mappings, a MIDI file, and a folder that none of them has made yet. A generation with a seed depends on its seed alone, whatever other threads draw.",
     ["schedules", "inputs"], "all interleavings of two to four threads with any work, generations without a seed excepted; patterns are not shared (even saving one sorts it)",
     "the tests run in one thread",
     ["gsapi/gsio.py", "gsapi/midiio.py", "gsapi/gspattern.py", "gsapi/gsstyles.py", "gsapi/gsdescriptors.py", "gsapi/gstransformers.py", "gsapi/gsdataset.py", "gsapi/gsutil.py", "gsapi/bassmine.py"],
     [("no state outside the objects given", "all modules"), ("making the output folder", "gsapi/gsio.py:toMidiFile/toJSONFile/toPickleFile/write2pickle"), ("seeded random numbers", "gsapi/gsstyles.py:generatePattern")],
     ["results of the same work alone and in concurrent threads"])

prop("C29", "A failed or interrupted call leaves no trace",
     "When saving, loading, importing, analysing, learning or generating fails half-way (a full disk, an error while reading or writing, a missing, cut or otherwise damaged file, a value that a file cannot hold, or an interruption such as Ctrl-C), the caller gets an exception, unless the result is complete after all. Every file opened is closed, the working directory and all other files are as before, and so are the patterns, mappings, models and styles given (saving may sort a pattern's events and extend its duration). A style that fails to load is as it was. The same call made again without failure gives what it would have given at once.",
     ["fault_sequences", "crash_points", "inputs"], "all inputs, and a failure at any file operation, or an interruption at any point outside clean-up code; of interrupted edits of a pattern or style nothing is promised but that a new call works",
     "the tests let nothing fail",
     ["gsapi/gsio.py", "gsapi/midiio.py", "gsapi/gspattern.py", "gsapi/gsstyles.py", "gsapi/gsdescriptors.py", "gsapi/gstransformers.py", "gsapi/gsdataset.py", "gsapi/bassmine.py"],
     [("files opened in with blocks", "gsapi/gsio.py, gsapi/midiio.py, gsapi/gsstyles.py"), ("loading into locals before changing a style", "gsapi/gsstyles.py:setInternalState"), ("work on copies", "gsapi/gspattern.py")],
     ["inputs, files and results around calls that are made to fail"])

prop("C30", "Equality, list access and printed forms tell what is there",
     "Two events are equal exactly if start, duration, pitch, velocity and tag are; two patterns exactly if their events in order, duration, time signature and start time are, whatever they are called or wherever they come from. Equality is symmetric, != is its negation, and neither equals anything else. A pattern's length, items, slices, iteration and assignment are those of its list of events, and new objects hold what they are given (a list of tags as a tuple) or the defaults. An event answers exactly whether it sounds at a time, has a tag, one of several, or the tags of another, and is cut into as many whole steps as it holds (at least one). A printed pattern shows its settings and one line per event in order; its grid has one row per tag, with a hit in each step where a note of that tag is first found sounding, a hold where it still sounds, and a rest elsewhere and for silences. A printed MIDI event, track or pattern (relative ticks) is Python that makes the same again, and copies of MIDI events are equal and independent.",
     ["inputs"], "all events and patterns with any hashable tags; grids of notes that do not overlap within a tag, on dyadic times",
     "no test compares, indexes or reads what is printed, beyond a few whole patterns",
     ["gsapi/gspattern.py", "gsapi/midiio.py"],
     [("__eq__ / __ne__ / __getitem__ / __setitem__ / __repr__", "gsapi/gspattern.py:Event, Pattern"), ("containsTime / isTag / hasOneOfTags / cutInSteps", "gsapi/gspattern.py:Event"), ("printASCIIGrid", "gsapi/gspattern.py"), ("__repr__ / copy", "gsapi/midiio.py")],
     ["results and captured output against the fields of the objects"])

prop("C31", "A database style gives back its patterns in the order asked",
     "A database style built from any list of patterns generates only those patterns, unchanged: by index, the one the current index names, again and again, until another index is set; increasing, each in turn from the first, whatever other styles do meanwhile; at random, every one with equal chance, and always the same for the same seed, in whichever process. It counts as built from the moment it has patterns, saving or handing over its state changes nothing of what it generates next, and a style restored from that state generates the same patterns (events in order of time).",
     ["inputs", "histories"], "non-empty lists of patterns that last until the end of their events; what follows the last pattern in increasing order is not said",
     "no test generates from a database style",
     ["gsapi/gsstyles.py"],
     [("DatabaseStyle", "gsapi/gsstyles.py")],
     ["generated patterns against the list learned", "counts of random choices"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
