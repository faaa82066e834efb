# What each check runs, and what it must have observed to say anything.
PLAN = {
    'C08': {'quick': 6000, 'thorough': 150000, 'jython': {'quick': 150, 'thorough': 3000},
            'must': ['judged splitInEqualLengthPatterns', 'judged patternFromTimeSlice', 'fragments judged']},
    'C09': {'quick': 6000, 'thorough': 150000, 'jython': {'quick': 150, 'thorough': 3000},
            'must': ['judged removeOverlapped', 'judged alignOnGrid', 'voices with several onsets']},
    'C10': {'quick': 6000, 'thorough': 150000, 'jython': {'quick': 150, 'thorough': 3000},
            'must': ['judged fillWithSilences', 'judged getFilledWithSilences', 'silences judged']},
    'C11': {'quick': 6000, 'thorough': 150000, 'jython': {'quick': 150, 'thorough': 3000},
            'must': ['judged applyLegato', 'judged fillWithPreviousEvent']},
    'C12': {'quick': 6000, 'thorough': 150000, 'jython': {'quick': 150, 'thorough': 3000},
            'must': ['judged quantize', 'judged timeStretch', 'judged transpose', 'judged durationToBar']},
    'C13': {'quick': 6000, 'thorough': 150000, 'jython': {'quick': 150, 'thorough': 3000},
            'must': ['judged getPatternWithTags', 'judged getPatternWithoutTags', 'judged getPatternWithPitch',
                     'judged activeEventsAtTime', 'judged getStartingEventsAtTime', 'judged getIdenticalEvents',
                     'judged getAllTags', 'judged getAllPitches']},
}
J = {'quick': 150, 'thorough': 3000}
PLAN.update({
    'C14': {'quick': 6000, 'thorough': 150000, 'jython': J,
            'must': ['judged addEvent', 'judged removeEvent', 'judged removeByTags', 'judged reorderEvents',
                     'judged lastNoteOff', 'judged durationToLastEvent', 'histories steps judged']},
    'C15': {'quick': 3000, 'thorough': 60000, 'jython': J,
            'must': ['copies judged', 'structures judged', 'separate objects judged', 'analysis MarkovStyle']},
    'C16': {'quick': 6000, 'thorough': 60000, 'jython': J,
            'must': ['judged Density', 'judged NumberOfTags', 'judged Syncopation', 'judged DensityDrumSpace']},
    'C17': {'quick': 6000, 'thorough': 60000, 'jython': J,
            'must': ['judged silence', 'judged duplicates', 'judged table chords', 'judged transpositions']},
    'C18': {'quick': 6000, 'thorough': 60000, 'jython': J,
            'must': ['judged viewpoints', 'judged Chordify', 'slices judged']},
})
PLAN.update({
    'C01': {'quick': 3000, 'thorough': 60000, 'jython': J,
            'must': ['exports judged', 'mapped notes judged', 'second round trips judged', 'track names judged', 'files watched']},
    'C02': {'quick': 6000, 'thorough': 100000, 'jython': J,
            'must': ['files imported', 'hanging notes judged', 'notes judged', 'notes of no length judged', 'imports without overlaps judged']},
})
PLAN.update({
    'C03': {'quick': 6000, 'thorough': 100000, 'jython': J,
            'must': ['imports judged', 'collections judged', 'selections judged', 'track names judged',
                     'notes with several tags']},
    'C04': {'quick': 6000, 'thorough': 100000, 'jython': J,
            'must': ['files decoded', 'typed values judged', 'tick conversions judged', 'slices judged']},
})
PLAN.update({
    'C05': {'quick': 6000, 'thorough': 150000, 'jython': J,
            'must': ['damaged files imported', 'damaged files refused', 'cuts judged', 'notes before cuts judged',
                     'imports with counted steps', 'good files imported afterwards']},
})
PLAN.update({
    'C06': {'quick': 6000, 'thorough': 100000, 'jython': J,
            'must': ['files judged', 'viewpoints judged', 'deep tags judged', 'defaults judged', 'ways to store tags judged', 'files judged, conserve=True index=True',
                     'files judged, conserve=False index=True', 'files judged, conserve=True index=False',
                     'files judged, conserve=False index=False']},
    'C07': {'quick': 6000, 'thorough': 100000, 'jython': J,
            'must': ['patterns judged', 'links judged', 'objects reached']},
})
PLAN.update({
    'C19': {'quick': 2400, 'thorough': 40000, 'jython': J,
            'must': ['tables judged', 'pasts with several outcomes judged', 'state lists judged', 'summed matrices judged', 'plots judged',
                     'orders judged']},
    'C20': {'quick': 1500, 'thorough': 20000, 'jython': J,
            'must': ['transitions judged', 'seeds judged again', 'frequencies judged', 'beginnings judged']},
    'C21': {'quick': 2400, 'thorough': 40000, 'jython': J,
            'must': ['restored by json', 'restored by pickle', 'restored by state', 'independence judged',
                     'database restored by json', 'database restored by pickle']},
})
PLAN.update({
    'C22': {'quick': 3000, 'thorough': 60000, 'jython': J,
            'must': ['transformations judged', 'changed densities judged']},
})
PLAN.update({
    'C23': {'quick': 5000, 'thorough': 60000, 'jython': J,
            'must': ['datasets judged', 'slices judged', 'viewpoints judged', 'searches judged', 'name matches judged',
                     'imports with another glob judged']},
})
PLAN.update({
    'C24': {'quick': 12000, 'thorough': 400000,
            'must': ['models judged', 'corpora judged', 'beat patterns judged', 'rhythms judged', 'second normalisations judged',
                     'orders judged', 'rhythm models judged', 'pitch models judged', 'shipped corpora judged']},
})
PLAN.update({
    'C25': {'quick': 6000, 'thorough': 100000,
            'must': ['free basslines judged', 'interlocked basslines judged', 'variations judged', 'preserved beats judged',
                     'distributions judged', 'frequencies judged', 'saved models judged', 'models compared',
                     'beats of unknown kick patterns']},
})
PLAN.update({
    'C26': {'quick': 400, 'thorough': 8000, 'jython': {'quick': 6, 'thorough': 100},
            'must': ['names judged', 'table notes judged', 'spellings judged', 'intervals judged', 'chords judged', 'chord notes judged',
                     'keys judged', 'transposed names judged', 'imported names judged']},
})
PLAN.update({
    'C27': {'quick': 400, 'thorough': 6000, 'twins': 4,
            'must': ['values compared', 'files exchanged', 'cases of history', 'cases of imports', 'cases of styles', 'cases of analyses']},
})
PLAN.update({
    'C28': {'quick': 600, 'thorough': 12000, 'jython': {'quick': 120, 'thorough': 2000},
            'must': ['results compared', 'schedules interleaved', 'schedules at once', 'switches', 'threads with styles',
                     'threads with midi', 'threads with files', 'threads with datasets', 'threads with basslines']},
})
PLAN.update({
    'C29': {'quick': 1200, 'thorough': 30000, 'jython': {'quick': 200, 'thorough': 4000},
            'must': ['faults struck: io', 'faults struck: call', 'faults struck: line', 'real faults struck: full', 'real faults struck: folder in place',
                     'real faults struck: file for folder', 'bad files loaded: cut', 'bad files loaded: missing', 'bad files loaded: lines lost',
                     'styles judged after bad files', 'bad values saved', 'descriptors that raised judged', 'inputs judged', 'calls again judged', 'other files judged']},
})
PLAN.update({
    'C30': {'quick': 20000, 'thorough': 400000, 'jython': {'quick': 300, 'thorough': 6000},
            'must': ['event equalities judged', 'comparisons with other objects', 'questions to events judged', 'cuts judged',
                     'pattern equalities judged', 'list access judged', 'printed patterns judged', 'printed events judged',
                     'grids judged', 'grid rows judged', 'printed MIDI events read back']},
})
PLAN.update({
    'C31': {'quick': 5000, 'thorough': 100000, 'jython': {'quick': 300, 'thorough': 6000},
            'must': ['patterns in order judged', 'patterns by index judged', 'random patterns judged', 'choices counted',
                     'restored styles judged']},
})

HISTORY = ('a random history (3-20 steps) of edits, copies, selections and the operations judged here, on a pool of random patterns '
           '(grid, dyadic, decimal and float times; string, number and tuple tags; any order); non-trivial when a pattern of the pool has '
           'events, distinct by initial patterns and history')
RULES = {
    'C01': 'a random pattern (tick, dyadic or free times, resolution, tempo, signature, key, name, mapping) exported and imported twice; '
           'non-trivial when it has notes, distinct by its notes and settings',
    'C02': 'a standard MIDI file assembled by an independent encoder (formats, tracks, running status, nested and hanging notes, meta, sysex, '
           'header sizes); non-trivial when it has notes, distinct by its bytes',
    'C03': 'a random MIDI file with named tracks and a random mapping, selection and flags (or a folder of files imported as a collection); '
           'non-trivial when a note is in question, distinct by bytes and arguments',
    'C04': 'a random sequence of events of every class with 28-bit deltas, converted, sliced, written, decoded and read back; '
           'non-trivial when it has events, distinct by its events',
    'C05': 'a random valid file damaged by truncation, bit flips, spliced or garbage bytes, and lengths that lie; '
           'non-trivial when it differs from the valid one, distinct by its bytes',
    'C06': 'a random pattern with tags, viewpoints and viewpoints of viewpoints, saved and loaded with random options; '
           'non-trivial when it has events, distinct by pattern and options',
    'C07': 'a random pattern with viewpoints, chords and links to other patterns, pickled and loaded; '
           'non-trivial when it has events, distinct by pattern',
    'C08': HISTORY, 'C09': HISTORY, 'C10': HISTORY, 'C11': HISTORY, 'C12': HISTORY, 'C13': HISTORY,
    'C14': 'a random history of edits run on the pattern and on a list model; non-trivial when an event was added, distinct by history',
    'C15': 'random patterns put through copies, analyses and edits of either side, watched by deep snapshots; '
           'non-trivial when they have events, distinct by patterns and operations',
    'C16': 'random patterns described twice by descriptors that are used again and again; non-trivial when they have events, distinct by pattern',
    'C17': 'chords of the table in random transpositions, octaves and orders, and free note sets; non-trivial when they have notes, '
           'distinct by notes and options',
    'C18': 'random patterns and slice types with a recording descriptor, and chordified patterns; non-trivial when they have events, '
           'distinct by pattern and slices',
    'C19': 'a random set of loops learned with random order, step count and duration, and learned again; '
           'non-trivial when a loop has events, distinct by loops and settings',
    'C20': 'a style learned from random loops generating with many seeds; non-trivial when a loop has events, distinct by loops and settings',
    'C21': 'a style learned from random loops (or a database) saved and restored in three ways; non-trivial when it has events, '
           'distinct by loops and settings',
    'C22': 'a random loop and a random history of density requests; non-trivial when the loop has events, distinct by loop and requests',
    'C23': 'a random folder tree of MIDI files, globs, mappings and suffixes; non-trivial when a file is found, distinct by its names and contents',
    'C24': 'random sequences of beat patterns learned in several calls, and random corpora of MIDI files analysed from their folder; '
           'non-trivial when there are beats, distinct by sequences',
    'C25': 'a random rhythm model, kick target and mask, and many random generations; non-trivial when the model has transitions, '
           'distinct by sequences, target and mask',
    'C26': 'each piece of a case judges one whole table or function over its complete input space (128 pitches, all chord types, roots, '
           'signatures); a case is a sequence of pieces, distinct by their order',
    'C27': 'a random history of pattern operations, MIDI imports, learned styles or descriptors, run under both interpreters; '
           'non-trivial when there are events, distinct by its inputs (counted once for each interpreter)',
    'C28': 'two to four threads with random work (exports, imports, files, edits, analyses, styles, datasets, basslines), run alone, '
           'interleaved line by line and at once; non-trivial when work was compared, distinct by work and switch sites',
    'C29': 'a random call with random inputs, struck in turn by failing file operations, interruptions, full or blocked files, damaged files '
           'and bad values, then called again; non-trivial when a fault struck, distinct by call, inputs and place',
    'C30': 'random events, patterns, grids of notes that follow each other, or MIDI patterns, compared, indexed, questioned and printed; '
           'distinct by their contents',
    'C31': 'one to three database styles of random patterns and orderings, generating in turns; distinct by orderings and patterns',
}
for _id, _rule in RULES.items():
    PLAN[_id]['rule'] = _rule
