"""The property list: source of properties.jsonl and MANIFEST.json (see build_meta.py)."""

PROPS = []
NOT_APPLICABLE = []


def prop(pid, title, statement, over, qtext, why, files, mech, note, state=(), observe=()):
    PROPS.append(dict(
        meta=dict(
            id=pid, title=title, statement=statement,
            quantifier=dict(over=over, text=qtext), why_tests_cant=why,
            anchors=dict(files=files,
                         mechanism=[dict(name=n, where=w) for n, w in mech],
                         state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                         observe_at=list(observe), hook_needed=None)),
        note=note))


FO = "harmonic_inference/utils/forces.py"
HU = "harmonic_inference/utils/harmonic_utils.py"
HC = "harmonic_inference/utils/harmonic_constants.py"
P = "harmonic_inference/data/piece.py"
CH = "harmonic_inference/data/chord.py"
KEY = "harmonic_inference/data/key.py"
NOTE = "harmonic_inference/data/note.py"
VD = "harmonic_inference/data/vector_decoding.py"
RU = "harmonic_inference/utils/rhythmic_utils.py"
CU = "harmonic_inference/utils/corpus_utils.py"
CR = "harmonic_inference/data/corpus_reading.py"

prop("C01", "Pitch numbers, names, intervals and transposition agree",
     "A pitch name and a pitch number convert into each other without loss for both spelling-aware (line "
     "of fifths) and spelling-free (12 semitones) pitch, enharmonic spellings share one semitone number, and "
     "accidentals move a pitch by exactly one semitone each. Transposing by an interval and back is the "
     "identity, transposition never leaves the representable range silently, and a relative pitch plus its "
     "reference is the absolute pitch.",
     ["inputs"],
     "all pitch names with up to 3 accidentals, all representable pitches, all intervals, both pitch types",
     "The tests convert a few dozen hand-picked names; the guarantee is over every name, pitch, interval and "
     "pitch-type combination, including the ends of the range.",
     [HU, HC],
     [("pitch from/to string", HU + ":get_pitch_from_string, get_pitch_string"),
      ("interval arithmetic", HU + ":transpose_pitch, absolute_to_relative, get_interval_from_numeral"),
      ("tables", HC + ":ACCIDENTAL_ADJUSTMENT, STRING_TO_PITCH")],
     "Complete enumeration of the finite pitch/name/interval space; oracle is an independent line-of-fifths "
     "theory.")

prop("C02", "Chord indices, labels and counts describe one set of chords",
     "For every configuration (pitch type, with or without inversions, relative or absolute, any chord-type "
     "reduction), each valid chord has exactly one index, indices are exactly 0..n-1 with n the advertised "
     "number of classes, and the label at an index names that same chord. Invalid inversions or pitches "
     "outside the range are rejected rather than given another chord's index.",
     ["inputs", "configurations"],
     "all chords of both pitch types x inversions x relative/absolute x reductions of the chord vocabulary",
     "Tests compare a couple of lists; a permuted block, a shifted offset or a collision shows only in a "
     "specific configuration and chord, so every one has to be visited.",
     [HU, HC],
     [("index of a chord", HU + ":get_chord_one_hot_index"),
      ("labels", HU + ":get_chord_from_one_hot_index, get_chord_label_list"),
      ("object view", CH + ":Chord.get_one_hot_index")],
     "Complete enumeration of all chords in all configurations; oracle is an independently ordered "
     "enumeration and bijectivity.")

prop("C03", "Keys and key changes keep their identity through numbering",
     "Every key has exactly one class number and label and decodes back to the same tonic and mode, and the "
     "relative numbering of a key change is one-to-one for a fixed starting key and independent of "
     "transposition. Two keys compare equal exactly when they denote the same tonic, mode and (unless only "
     "the local key is asked for) tonicization.",
     ["inputs"],
     "all ordered pairs of keys, both pitch types, both modes, relative and absolute numbering",
     "The tests touch single keys; one-to-one-ness and transposition invariance quantify over all pairs of "
     "keys.",
     [KEY, HU],
     [("key numbering", HU + ":get_key_one_hot_index, get_key_from_one_hot_index"),
      ("key change vectors", KEY + ":Key.get_key_change_vector, get_key_change_one_hot_index"),
      ("equality", KEY + ":Key.equals, is_repeated")],
     "Complete enumeration of keys and key pairs.")

prop("C04", "A chord's notes, bass and figures describe the same chord",
     "The pitches of a chord are its type's intervals above its root, its bass is one of them (the one its "
     "inversion says), and transposing the chord transposes all of them equally. The spelling-aware and "
     "spelling-free views of the same chord contain the same sounding pitches, and chord type names and "
     "inversion figures decode to the type and inversion they encode.",
     ["inputs"],
     "all roots x chord types x inversions x transpositions, both pitch types",
     "Existing tests compare a few constants; one wrong interval or figure affects one chord type in one "
     "inversion.",
     [HU, HC],
     [("default chord pitches", HU + ":get_vector_from_chord_type, get_bass_note, transpose_chord_vector"),
      ("type and inversion tables", HC + ":CHORD_PITCHES, STRING_TO_CHORD_TYPE; " + HU +
       ":get_chord_inversion")],
     "Complete enumeration; oracle is textbook interval structure written independently.")

prop("C05", "Roman numerals, applied keys and chord alterations resolve correctly",
     "Every Roman numeral, with any accidentals and in either mode, resolves to the scale degree's interval, "
     "and applied numerals (such as V/ii/v) resolve right to left to the key they tonicize. Chord tones "
     "altered, added, removed or suspended by an annotation are reported as exactly those tones, with every "
     "alteration assigned to the chord tone it stands for.",
     ["inputs"],
     "all numerals with up to 2 accidentals, both modes; applied chains up to length 3; all alteration "
     "strings up to 3 tones over the annotation alphabet",
     "Tests sample about a dozen strings; alterations interact with each other (an added tone next to a "
     "replaced one), so the space of combinations has to be walked.",
     [HU, KEY, CH],
     [("numeral to interval", HU + ":get_interval_from_numeral, get_interval_from_scale_degree"),
      ("applied keys", "harmonic_inference/utils/corpus_utils.py; " + KEY + ":Key.from_series"),
      ("alterations", HU + ":get_added_and_removed_pitches; " + CH + ":Chord.from_series")],
     "Exhaustive enumeration of the annotation grammar up to a length bound against an independent "
     "interpreter.")

prop("C06", "Chord vectors encode each chord and reductions stay faithful",
     "Encoding a chord (relative to its key or absolutely) as a vector and decoding it returns the same "
     "chord, and the advertised vector lengths are the true ones. Reducing encoded chords (fewer chord types, "
     "no inversions, no relative/absolute parts), one at a time or in place in a batch, gives exactly the "
     "encoding of the reduced chord and leaves everything else untouched.",
     ["inputs", "configurations"],
     "all chords x keys (bounded spread) x reductions x pitch types x relative/absolute, plus key-change "
     "suffixes",
     "Only a few vectors are compared in the tests; in-place reduction errors show up only for reductions "
     "that chain or map to themselves, in specific slots.",
     [CH, VD, HU],
     [("encoding", CH + ":Chord.to_vec"), ("decoding and reduction", VD + ":decode_chord_vector, "
      "reduce_chord_types, remove_chord_inversions, reduce_chord_one_hots"),
      ("lengths", CH + ":Chord.get_chord_vector_length")],
     "Exhaustive enumeration of chords and reductions; oracle is an independently written layout model.")

prop("C07", "Note vectors encode pitch, octave, metre and timing of each note",
     "A note's vector states its sounding pitch class, octave, metrical levels and its position relative to "
     "the chord window it is read against, and decoding it returns what was encoded. Transposing a note "
     "vector moves its pitch only, and a transposition that leaves the pitch range is rejected.",
     ["inputs", "configurations"],
     "all pitches/octaves, all metrical level combinations, all window positions on a bar grid, all "
     "transpositions",
     "The tests check one or two notes; relative timing and layout errors need specific positions across "
     "barlines.",
     [NOTE, VD],
     [("encoding", NOTE + ":Note.to_vec"), ("decoding", VD + ":decode_note_vector"),
      ("transposition", VD + ":transpose_note_vector")],
     "Exhaustive enumeration over bounded score grids against an independent layout model.")

prop("C08", "Annotation rows become exactly the keys, chords and notes they say",
     "Each row of an annotated corpus or of a label CSV yields the key, chord (root, bass, type, inversion, "
     "suspension, altered tones) or note that its text denotes, at the row's position and with its duration. "
     "Rows that cannot be interpreted produce no object and never a wrong one.",
     ["inputs", "configurations"],
     "the row grammar: global keys x local keys x numerals x figures x types x pedals x alterations, both "
     "pitch types, all reductions used",
     "The tests parse a fixed sample; every combination of mode, applied key, figure and alteration is its "
     "own path.",
     [CH, KEY, NOTE],
     [("corpus rows", CH + ":Chord.from_series; " + KEY + ":Key.from_series; " + NOTE +
       ":Note.from_series"),
      ("csv rows", CH + ":Chord.from_labels_csv_row; " + KEY + ":Key.from_labels_csv_row")],
     "Exhaustive enumeration of the row grammar against an independent music-theory interpreter.")

prop("C09", "Score time arithmetic is exact and additive",
     "The length between two score positions is the exact sum of the measure spans between them (additive "
     "over any split, regardless of time-signature changes, upbeats and measure numbering), and a note's "
     "position within a chord is the exact proportion of that span. The metrical strength of a position "
     "depends only on where it falls in its time signature.",
     ["inputs"],
     "all pairs and triples of grid positions in all measure layouts up to the bound; all grid positions in "
     "all supported time signatures",
     "The tests check a handful of positions in simple layouts; errors appear across barlines of unequal "
     "measures, offsets, or off-grid positions.",
     [RU],
     [("lengths", RU + ":get_range_length"), ("relative rhythm", RU + ":get_rhythmic_info_as_proportion_of_range"),
      ("levels", RU + ":get_metrical_level, get_metrical_level_lengths")],
     "Exhaustive enumeration over measure layouts x positions; oracle is rational arithmetic over a flattened "
     "timeline.")

prop("C10", "Removing repeats leaves one coherent pass through each piece",
     "After repeats are removed each measure of a piece has at most one successor, the remaining measures "
     "form one path from the first measure to the end which never visits a measure twice, and no measure "
     "of another piece is affected. Where a piece offers alternative endings, the last ones are taken.",
     ["inputs"],
     "all measure successor graphs up to the bound, alone and together with other pieces in one corpus",
     "The tests use one fixed file; the guarantee is over every successor graph and corpus composition.",
     [CU],
     [("repeat removal", CU + ":remove_repeats"), ("unmatched rows", CU + ":remove_unmatched")],
     "All successor graphs up to 4 (5) measures are enumerated; oracle is a path model.")

prop("C11", "Note ends and tied notes are computed exactly",
     "The end of each note lies its duration after its start, following the piece's measures. Tied notes "
     "become one note from the first start to the last end, untied notes and notes of other pieces stay as "
     "they were, and no sounding time is lost or invented.",
     ["inputs"],
     "all short lines of notes with all tie markings, durations and barline placements, unisons included, "
     "batched in corpora",
     "The tests compare a few ties; the outcome depends on combinations of tie markers, unison notes and "
     "barlines.",
     [CU],
     [("offsets", CU + ":add_note_offsets"), ("ties", CU + ":merge_ties")],
     "Exhaustive enumeration of note lines up to the bound; oracle is a timeline model.")

prop("C12", "Every chord lasts until the next chord or the end of its piece",
     "In a loaded corpus each chord's end and duration run exactly to the start of the next chord of its "
     "piece, and the last chord's to the end of the piece's last measure. The result for a piece does not "
     "depend on which other pieces are loaded with it.",
     ["inputs", "configurations"],
     "all placements of up to 3 (4) chords in all measure layouts, in single-piece and mixed corpora",
     "The tests look at one corpus; single-piece corpora, upbeats, and chords several measures apart are "
     "different paths.",
     [CU],
     [("chord spans", CU + ":add_chord_metrical_data")],
     "Exhaustive enumeration of chord placements x measure layouts x corpus composition.")

BS = "harmonic_inference/utils/beam_search_utils.py"
JM = "harmonic_inference/models/joint_model.py"
EU = "harmonic_inference/utils/eval_utils.py"
DS = "harmonic_inference/data/datasets.py"
DU = "harmonic_inference/utils/data_utils.py"

prop("C17", "The beam keeps the best hypotheses and nothing else",
     "After any sequence of additions the beam holds the most likely states added so far, up to its size (or "
     "more only when a state was forced in), and its top state is the most likely one. The hashed beam "
     "additionally never holds two states with the same recent (key, chord) history and keeps the more likely "
     "of such rivals. Whether a state fits is predicted correctly before adding it, and an emptied beam "
     "behaves like a new one.",
     ["histories"],
     "all sequences of additions (all scores and hashes, forced or not) and emptyings up to a depth, all small "
     "beam sizes, plain and hashed beams",
     "Lazy invalidation in the heap shows only after particular orders of additions, evictions and "
     "replacements.",
     [BS],
     [("plain beam", BS + ":Beam.add, fits_in_beam, get_top_state, empty"),
      ("hashed beam", BS + ":HashedBeam.add, _fix_beam_min, fits_in_beam, empty, __iter__")],
     "All operation histories up to the depth on the real beams, each step monitored against the definition "
     "of a beam.")

prop("C18", "A search hypothesis carries exactly its own history and score",
     "A hypothesis's score is the sum of the scores of its chords, ranges and key decisions, whatever "
     "sequence of chord changes, key changes and rejoined ranges led to it; rejoining two ranges of one "
     "chord takes back what no longer applies, including a key change. Its chord, key, model inputs and "
     "recent-history hash describe that same history, copies and branches do not affect each other, and a "
     "chord whose root or bass cannot be expressed in its key is never accepted without a key change.",
     ["histories", "inputs"],
     "all chord x key pairs for validity; all histories of chord transitions, key changes, priors, rejoins "
     "and copies up to the bound, both pitch types, chord- and pitch-based priors, with and without reduction",
     "Score bookkeeping errors need a specific order of key change, rejoin and prior; no test touches the "
     "search states at all.",
     [BS],
     [("branching", BS + ":State.chord_transition, key_transition, rejoin, copy"),
      ("scores", BS + ":State.add_csm_prior, add_ktm_log_prob"),
      ("model inputs", BS + ":State.get_csm_input, get_ktm_input, get_ksm_input"),
      ("history", BS + ":State.get_chords, get_keys, get_hash")],
     "All histories up to the bound on real states, compared with a list-of-segments model.")

prop("C19", "Candidate chord ranges are exactly the ones the change probabilities allow",
     "The stretches of a piece considered for one chord are exactly those whose inner change positions are "
     "all allowed not to change, whose end may change, which are no longer than the maximum chord length and "
     "which contain no two different forced labels; each is reachable from the start of the piece through "
     "such stretches. Each has the log probability of exactly its decisions, and joining it to the "
     "preceding one replaces exactly the change by a non-change. The classifier is shown, for each, all "
     "notes starting in or sounding into it.",
     ["inputs", "configurations"],
     "all small rhythms (simultaneous and overlapping notes), probability classes, thresholds, length limits "
     "and forced labels",
     "No test runs the search; off-by-one errors show only for particular rhythms, thresholds and forced "
     "labels.",
     [JM, P],
     [("ranges", JM + ":HarmonicInferenceModel.get_chord_ranges"),
      ("windows", P + ":get_range_start"),
      ("forced changes", JM + ":HarmonicInferenceModel._apply_forced_chord_changes")],
     "All rhythms x probability classes x limits up to the bound through the real model, compared with an "
     "enumeration of all ranges. The chord change network's answers are enumerated, not computed.")

prop("C20", "The search returns the best admissible harmony with its exact score",
     "When no hypothesis has to be dropped for lack of room, the harmony returned for a piece is the most "
     "likely one of all that its model's parameters admit, and otherwise still one of those; its score is "
     "the sum defined by the component models' answers for exactly that harmony. Every component model is "
     "only ever asked about notes and histories of actual hypotheses, in its own input format. The result "
     "does not depend on what the same model was used for before.",
     ["inputs", "configurations", "histories"],
     "all answer tables of the five networks over small alphabets, all parameter combinations from small "
     "sets, all beam sizes and history hash lengths in the bound, all pairs of successive requests",
     "No test runs the search at all; errors in score bookkeeping, pruning or hidden-state handling change "
     "which harmony wins only for particular answer tables.",
     [JM, BS],
     [("search", JM + ":HarmonicInferenceModel.get_harmony, beam_search"),
      ("key decisions", JM + ":HarmonicInferenceModel.get_key_change_probs, get_key_change_states"),
      ("chord priors", JM + ":HarmonicInferenceModel.run_csm_batched, get_chord_classifications")],
     "All answer tables over the alphabets are run through the real search; the oracle enumerates and scores "
     "all harmonies explicitly. Network forward passes are replaced by the enumerated answers.")

prop("C21", "Forced labels are obeyed, and contradictory ones refused",
     "Whatever chord changes, key changes, non-changes, chords and keys a user forces, a returned harmony "
     "obeys every one of them and is the best of those that do. Requests that contradict themselves or each "
     "other, name unknown labels or positions at which nothing can change are refused with an argument "
     "error. Neither case alters the given requests or affects later uses of the model.",
     ["inputs", "histories"],
     "all assignments of forced changes and non-changes to the inputs of small pieces; all one or two forced "
     "ranges of chords and keys, and their mixtures",
     "No test uses forced labels; a force is easily lost when ranges are rejoined, keys change inside a "
     "range, or at the first input.",
     [JM],
     [("validation", JM + ":HarmonicInferenceModel._validate_and_load_forced_labels"),
      ("enforcement", JM + ":HarmonicInferenceModel.beam_search, get_chord_ranges, get_key_change_states")],
     "All forced-label assignments up to the bound through the real search; oracle is a contradiction checker "
     "plus explicit enumeration of the obeying harmonies.")

prop("C14", "A loaded piece presents its score exactly as annotated",
     "A piece's chords and keys are its annotation rows in order, with repeats merged and unreadable rows "
     "skipped as the loading options ask, and every chord and key change points at the first note of the "
     "stretch it labels. The notes, durations and classifier windows given for a chord or a range are "
     "exactly those starting in, or sounding into, that stretch.",
     ["inputs", "configurations"],
     "all sequences of annotation rows up to a length under all loading options; all placements of notes and "
     "chords on a small mixed-metre grid; all ranges of inputs",
     "The tests load one piece with one set of options; merging, skipping and range boundaries interact in "
     "ways that depend on the particular sequence.",
     [P, CR],
     [("loading", P + ":ScorePiece.__init__, get_score_piece_from_data_frames"),
      ("ranges", P + ":get_chord_ranges, get_key_change_indices, get_chords_within_range, get_range_start"),
      ("inputs", P + ":get_chord_note_inputs, get_duration_cache")],
     "All row sequences and placements up to the bound through the real loader; the oracle is a plain merge "
     "of the rows and a timeline model.")

prop("C15", "Saved, copied and converted objects keep their meaning",
     "Writing a note, chord, key or piece as a dictionary and reading it back gives an equal object with "
     "every field unchanged. Objects compare equal exactly when all their fields do, repeats are recognised "
     "exactly when the harmony is the same, merging two chords covers both, and converting spelled pitch to "
     "semitones keeps the sounding pitch.",
     ["inputs"],
     "all notes, chords and keys over small value sets for every field, and all pairs; all small pieces with "
     "and without labels",
     "Round trips must hold for every combination of fields, and equality over all pairs; tests compare a "
     "few objects.",
     [NOTE, CH, KEY, P],
     [("dictionaries", "to_dict, from_dict in " + NOTE + ", " + CH + ", " + KEY + ", " + P),
      ("comparison", CH + ":Chord.__eq__, is_repeated, merge_with; " + KEY + ":Key.is_repeated"),
      ("conversion", CH + ":Chord.to_pitch_type; " + NOTE + ":Note.to_midi")],
     "All objects and pairs over the value sets; field-by-field comparison is the oracle.")

prop("C13", "Loading a corpus keeps exactly its usable music, piece by piece",
     "Aggregating annotation folders copies every file's rows unchanged and attributes them to their piece, "
     "whichever other files are missing. Loading the result keeps exactly the notes and chords that lie in "
     "a measure of the remaining pass, with tied notes joined, chords that are unusable or have no length "
     "dropped, and ends computed. What is loaded for a piece does not depend on the other pieces, their "
     "order, or how many are asked for.",
     ["inputs", "configurations"],
     "all selections of note and chord rows (valid, misplaced, in removed measures, tied, unlabelled) over "
     "several measure layouts; all small corpora of differing pieces in all orders; all combinations of "
     "missing files",
     "The corpus tests need data that is not in the repository and sample one corpus; interactions between "
     "dropped rows, pieces and missing files are not exercised.",
     [CR, CU],
     [("loading", CR + ":load_clean_corpus_dfs, read_dump"),
      ("aggregation", CR + ":aggregate_annotation_dfs"),
      ("matching", CU + ":remove_unmatched")],
     "Every enumerated corpus is written to disk as text and read by the real loader; oracle is a per-piece "
     "timeline model.")

prop("C16", "A MusicXML score is read as written",
     "Reading a MusicXML score yields its measures (metre, length, position, pickup and split measures, "
     "first endings left out), and every sounding note once, in order of time, with its spelling, octave, "
     "start, end and metrical strength, ties joined within their voice. The labels of an accompanying label "
     "file become the chords and keys at those positions of the score.",
     ["inputs"],
     "all short measure layouts; all two-measure lines of rests, notes and chords with all ties, next to "
     "other parts and voices; all written pitches; all placements of labels on a small score",
     "No test reads MusicXML at all; ties, pickups, voices and endings interact.",
     [P, NOTE],
     [("measures", P + ":get_measures_df_from_music21_score"),
      ("notes", P + ":get_notes_from_music_xml; " + NOTE + ":Note.from_music21"),
      ("labels", P + ":get_score_piece_from_music_xml")],
     "Every enumerated score is written as MusicXML text and read by the real loader; oracle is the "
     "flattened timeline.")

prop("C22", "Reported accuracies and label tables describe the estimate and the truth",
     "Every reported accuracy is the share of the piece's duration whose estimated chord, key or both equal "
     "the truth under the chosen inversion, reduction and tonic settings, in the estimate's pitch type. The "
     "annotation, label, result and truth tables give, for every onset or change, the labels in force there "
     "with their position, duration and colour. Each analysed piece gets its own output file with exactly "
     "that content, also when it has no true labels, and averages are over all logged values.",
     ["inputs", "configurations"],
     "all pairs of chord shapes and keys under the reductions; every label as truth and estimate; all true "
     "and estimated segmentations of small rhythms over small alphabets; all short lists of pieces through "
     "the evaluation and annotation programs",
     "No test evaluates anything; pitch types, simultaneous notes, unlabelled pieces and equal file names "
     "interact.",
     [EU, "annotate.py", "test.py"],
     [("accuracies", EU + ":evaluate_chords, evaluate_keys, evaluate_chords_and_keys_jointly"),
      ("tables", EU + ":get_results_df, get_labels_df, get_annotation_df, get_label_df, log_state"),
      ("averages", EU + ":average_results"),
      ("programs", "annotate.py:annotate; test.py:evaluate")],
     "All segmentations up to the bound on real pieces and search states; note-by-note comparison is the "
     "oracle. The programs run with an enumerated harmony in place of the networks and a scratch output "
     "directory.")

prop("C23", "The initial chord prior is the smoothed distribution of first chords",
     "Training the initial chord model writes, for major and minor separately, the smoothed relative "
     "frequencies of the relative first chords, and reading the file gives them back. Asking for a smaller "
     "vocabulary (a chord type reduction, or no inversions) gives the summed probabilities over exactly that "
     "vocabulary, never one the stored file cannot provide. Evaluating the model reports accuracy and loss "
     "in that same vocabulary.",
     ["inputs", "configurations"],
     "every relative first chord, all short lists of first chords and smoothings; all combinations of stored "
     "and requested vocabularies; all short lists of evaluated pieces; all kinds of json fields",
     "No test uses the model; whether labels and probabilities line up depends on the vocabulary.",
     ["harmonic_inference/models/initial_chord_models.py", DU],
     [("training", "harmonic_inference/models/initial_chord_models.py:train_icm"),
      ("vocabulary", "harmonic_inference/models/initial_chord_models.py:SimpleInitialChordModel"),
      ("reading", DU + ":load_kwargs_from_json")],
     "All lists and vocabulary combinations up to the bound through the real code and real files; oracle is "
     "exact counting and summing over labels.")

prop("C24", "Requests for forced labels are read exactly as written",
     "Chord, key and segmentation requests written as labels or lyrics in a MuseScore file, or given in a "
     "json file, become exactly the requested changes, keys and chords (root, type, inversion) at the notes "
     "of the written positions; whatever cannot be read or lies beyond the music is refused with an error, "
     "never silently turned into another request. When evaluating several pieces, each is analysed with "
     "the requests made under its own name and no others.",
     ["inputs", "configurations"],
     "all readable chord and key labels; all placements of markers on small scores with and without pickup; "
     "all lists of positions on a small piece; all combinations of json fields and of names sharing parts",
     "No test reads a request; labels, lyrics, pickups and overlapping names interact.",
     [FO, "test.py"],
     [("labels and lyrics", FO + ":extract_forces_from_musescore"),
      ("positions", FO + ":convert_score_positions_to_note_indexes"),
      ("json and names", "test.py:load_forces_from_json, evaluate")],
     "Every case is written to a real .mscx or json file and read by the real code (ms3 included); the "
     "oracle reads the request literally.")

prop("C25", "Every training item is the same in memory, from file and after faults",
     "Each of the five datasets gives, for every piece or chord, exactly the inputs, targets, lengths and "
     "intermediate targets that the annotation, the reduction, inversion, pitch and transposition settings "
     "define, and marks what cannot be represented as unused. The items are the same before and after being "
     "written to a file and read back, in any chunks, when memory runs out at any read, and after any "
     "history of such operations; reading changes nothing. Splitting puts every usable piece, with its own "
     "id, in exactly one split of its share, reproducibly for a seed.",
     ["inputs", "fault_sequences", "histories", "configurations"],
     "all small pieces and lists of pieces under all settings; every chord label; every chunk size and every "
     "failing read; all histories of reading, writing, padding and reloading to depth 3; all small corpora "
     "with unusable files under all splits",
     "No test makes a dataset; vectors, key changes, padding, chunks and faults interact.",
     [DS],
     [("items", DS + ":ChordTransitionDataset, ChordClassificationDataset, ChordSequenceDataset, "
       "KeyTransitionDataset, KeySequenceDataset"),
      ("files", DS + ":HarmonicDataset.to_h5, h5_to_dataset, pad_array"),
      ("splits", DS + ":get_dataset_splits, get_split_file_ids_and_pieces")],
     "All lists of small pieces through the real datasets and files, with an injected MemoryError at each "
     "read; oracle is a direct construction of each item from the annotation. h5py is not installed: a "
     "stand-in stores named arrays in real files.")

prop("C26", "Programs use exactly the pieces, models and options they were asked for",
     "Annotating and evaluating analyse exactly the requested pieces (all, one id, or a split's files), each "
     "under its own name with its own notes and labels, whether loaded from tsv corpora, MusicXML or stored "
     "dicts and whichever pieces lack labels; an id not among them is refused. Each option and each default "
     "set reaches the search unchanged; the checkpoint loaded is the given version, the given file, or else "
     "the last one found, as a class that can read it, and a missing one ends the program. Data is created from "
     "exactly the labelled pieces of the chosen corpora, and impossible splits are refused; created data, "
     "evaluation and training agree on splits; a grid search prints one runnable command with its own "
     "output directory per combination of values.",
     ["inputs", "configurations", "histories"],
     "all corpora of up to 3 pieces with any subset labelled x all ordered selections x stored pieces present "
     "or not; all subsets of checkpoints x ways of choosing; every option alone and together; all small grids",
     "No test runs a program; ids, labels, splits, stored pieces and checkpoints interact.",
     [DU, "annotate.py", "test.py", "create_h5_data.py", "train.py", "grid_search.py", JM],
     [("pieces", DU + ":load_pieces"), ("models", DU + ":load_models_from_argparse"),
      ("options", JM + ":add_joint_model_args, from_args"), ("default sets", "annotate.py:set_default_args"),
      ("splits", "create_h5_data.py, test.py, train.py"), ("grids", "grid_search.py")],
     "The real programs run on every case in scratch directories; a recorder in the place of the search, of "
     "checkpoint loading and of the trainer notes what they were given; oracle is the request itself.")

prop("C27", "Verbose mode never changes or breaks a search",
     "With debug logging on, the search returns the same harmony with the same score as without it, for every "
     "piece: labelled or not, with any number of labels, labels outside the models' ranges, a late first "
     "label, any model configuration, parameters and forced labels. The chord transition and chord "
     "classification accuracies it reports are the true counts (left out where there is nothing to count), "
     "and a piece without labels gets no accuracies.",
     ["inputs", "configurations"],
     "all labellings of 1-4 input pieces over chord and key alphabets with out-of-range labels x tables of "
     "network answers x model configurations x parameters x forced labels, quiet and verbose",
     "No test turns on debug logging, which recomputes indices, rankings and ratios from the truth.",
     [JM],
     [("debug logger", JM + ":DebugLogger"), ("guards", JM + ":HarmonicInferenceModel.get_harmony")],
     "Each case is searched by the real model quietly and verbosely with the same scripted networks; oracle is "
     "the quiet run, and a count over the labels for the reported accuracies.")

prop("C28", "A network's answers and scores depend only on the items given",
     "The answers and hidden states of every chord/key network for an item are the same whatever it is batched "
     "with, in any order, with any padding and junk beyond its length, also in a batch of one or beside "
     "unusable items; sequence models fed step by step with their hidden states handed on answer as for the "
     "whole sequence, and use past inputs only. Training, validation and evaluation loss and accuracy are "
     "means over exactly the labelled positions (no padding, first chords, key changes or unusable "
     "transpositions), whatever the batch size.",
     ["inputs", "configurations", "histories"],
     "all ordered batches of up to 3 sequences of length 1-3 with paddings; all splits into steps; all small "
     "labelled pieces and lists of them x batch sizes x model configurations x layers x pitch types",
     "No test runs a network; lengths, masks, rolling and weighting interact with batch composition.",
     ["harmonic_inference/models/chord_classifier_models.py", "harmonic_inference/models/chord_sequence_models.py",
      "harmonic_inference/models/chord_transition_models.py", "harmonic_inference/models/key_sequence_models.py",
      "harmonic_inference/models/key_transition_models.py"],
     [("forward passes", "harmonic_inference/models/*_models.py:forward, run_one_step, get_output"),
      ("scores", "harmonic_inference/models/*_models.py:get_data_from_batch, training_step, validation_step, "
                 "evaluate")],
     "The real models run on every batch with numpy stand-ins for torch's layers and losses (torch is not "
     "installed) and fixed generic weights; oracle is the item alone, and a position-by-position mean.")
