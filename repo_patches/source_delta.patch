From 9b72fe2ae32e5845343fd6e92deab4eb649bc9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 01/75] fix: accept enharmonic MIDI pitch names when converting
 to TPC

Note/Chord/Key.to_pitch_type go through pitch names, and the names of the black keys
(e.g. C#/Db) raised a KeyError when the requested type was TPC.
---
 harmonic_inference/utils/harmonic_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/harmonic_utils.py b/harmonic_inference/utils/harmonic_utils.py
index 770bd5e..a26a884 100755
--- a/harmonic_inference/utils/harmonic_utils.py
+++ b/harmonic_inference/utils/harmonic_utils.py
@@ -1021,7 +1021,7 @@ def get_pitch_from_string(pitch_string: str, pitch_type: PitchType) -> int:
     pitch : int
         An integer representing the given pitch string as the given type.
     """
-    if pitch_type == PitchType.MIDI and "/" in pitch_string:
+    if "/" in pitch_string:
         pitch_string = pitch_string.split("/")[0]
 
     accidental_adjustment, pitch_string = get_accidental_adjustment(pitch_string, in_front=False)
-- 
2.43.0


From 9ceb34cb261bfe3bbf94a431bbeb1a234a5db44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:49 +0000
Subject: [PATCH 02/75] fix: keep chord alterations aligned after an added tone

An addition ("+2") recorded two removed pitches, shifting every later alteration onto the
wrong pitch and dropping the addition itself ("+24" lost the 2).
---
 harmonic_inference/utils/harmonic_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harmonic_inference/utils/harmonic_utils.py b/harmonic_inference/utils/harmonic_utils.py
index a26a884..fd90cc2 100755
--- a/harmonic_inference/utils/harmonic_utils.py
+++ b/harmonic_inference/utils/harmonic_utils.py
@@ -227,6 +227,7 @@ def get_added_and_removed_pitches(
         if change[0] == "+":
             # Added pitch only - no deletion
             removed_pitches.append("")
+            continue
 
         _, new_change = get_accidental_adjustment(change, in_front=True)
 
-- 
2.43.0


From c1b75a0ca6c1e8238c98ca5c86c9ac3f45d28e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:25 +0000
Subject: [PATCH 03/75] fix: keep chord types that a reduction maps to
 themselves

reduce_chord_types rebuilt the chord type one-hots from scratch but skipped identity
mappings, so with TRIAD_REDUCTION every triad lost its chord type.
---
 harmonic_inference/data/vector_decoding.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index ca2ad2f..6006036 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -445,9 +445,6 @@ def reduce_chord_types(
     new_chord_type_vectors = np.zeros_like(chord_type_vectors)
 
     for from_type, to_type in reduction.items():
-        if from_type == to_type:
-            continue
-
         from_index = from_type.value
         to_index = to_type.value
 
-- 
2.43.0


From 17971959e3dcdad248bca9dfe20ad10e2d8ea812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:44 +0000
Subject: [PATCH 04/75] fix: reject note transpositions that leave the pitch
 range

---
 harmonic_inference/data/vector_decoding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 6006036..a7aa45e 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -559,10 +559,10 @@ def transpose_note_vector(
     old_pitch = np.arange(NUM_PITCHES[pitch_type])[np.where(note_vector == 1)[0][0]]
     new_pitch = old_pitch + interval
 
-    if not (0 <= old_pitch < NUM_PITCHES[pitch_type]):
+    if not (0 <= new_pitch < NUM_PITCHES[pitch_type]):
         raise ValueError(
-            f"Transposed note {decode_note_vector(note_vector)} + {interval} "
-            f"outside of valid range (0 - {NUM_PITCHES[pitch_type]}"
+            f"Transposed note pitch {old_pitch} + {interval} outside of valid range "
+            f"[0, {NUM_PITCHES[pitch_type]})"
         )
 
     new_note_vector[old_pitch] = 0
-- 
2.43.0


From a9c427ccde4bbe211ee9d6110ca03f7a39d8d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:10 +0000
Subject: [PATCH 05/75] fix: decode note vectors with their actual layout

---
 harmonic_inference/data/vector_decoding.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index a7aa45e..d3057a8 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -63,17 +63,29 @@ def decode_note_vector(note_vector: np.array) -> Note:
     offset_level = np.where(offset_level_vector == 1)[0][0]
 
     current_idx += 4
-    mc, onset, dur, dur_from_prev, dur_to_next = note_vector[current_idx : current_idx + 3]
-    is_min = note_vector[-1] == 1
+    onset, offset, dur, dur_from_prev, dur_to_next = note_vector[current_idx : current_idx + 5]
+
+    current_idx += 5
+    is_min = note_vector[current_idx] == 1
 
     print(f"Pitch: {get_pitch_string(pitch, pitch_type)}, octave {octave}")
     print(f"Onset level: {onset_level}")
     print(f"Offset level: {offset_level}")
-    print(f"Onset position: ({mc}, {onset})")
+    print(f"Onset position: {onset}, offset position: {offset}")
     print(f"Duration: {dur} (from prev: {dur_from_prev}, to_next: {dur_to_next}")
-    print(f"Is{' not ' if is_min else ' '}lowest pitch")
+    print(f"Is{' ' if is_min else ' not '}lowest pitch")
 
-    return Note(pitch, octave, onset, onset_level, dur, None, offset_level, pitch_type)
+    return Note(
+        pitch,
+        octave,
+        onset,
+        onset_level,
+        dur,
+        offset,
+        offset_level,
+        pitch_type,
+        mc_onset=onset,
+    )
 
 
 def decode_key_change_vector(key_change_vector: np.array) -> Key:
-- 
2.43.0


From ca465d7d73fb0e18c713e78480df7b58bb4b1136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:10 +0000
Subject: [PATCH 06/75] fix: decode the mode of a key change vector as a
 KeyMode

---
 harmonic_inference/data/vector_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index d3057a8..5391f7b 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -117,7 +117,7 @@ def decode_key_change_vector(key_change_vector: np.array) -> Key:
         relative_tonic += MIN_KEY_CHANGE_INTERVAL_TPC
 
     # Absolute mode of next key
-    key_mode = np.array(KeyMode)[key_change_vector[-2:] == 1]
+    key_mode = np.array(KeyMode)[key_change_vector[-2:] == 1][0]
 
     print(f"Relative tonic: {relative_tonic}, Mode: {key_mode}")
 
-- 
2.43.0


From 341846bbb14e43928aa18eacc5f53ee02cb4ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:04 +0000
Subject: [PATCH 07/75] fix: reduce chord vectors that are followed by a key
 change vector

---
 harmonic_inference/data/vector_decoding.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 5391f7b..96c410e 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -186,7 +186,9 @@ def decode_chord_vector(
     offset_level_vector = chord_vector[current_idx : current_idx + 4]
     offset_level = np.where(offset_level_vector == 1)[0][0]
 
-    is_major = chord_vector[-1] == 1
+    # Skip the offset level and the duration
+    current_idx += 5
+    is_major = chord_vector[current_idx] == 1
     key_mode = KeyMode.MAJOR if is_major else KeyMode.MINOR
 
     print(f"Relative root: {relative_root}")
@@ -216,6 +218,7 @@ def decode_chord_vector(
 def infer_chord_vector_pitch_type(vector_length: int, pad: bool) -> PitchType:
     """
     Infer the pitch type used in a chord vector of the given length with the given padding.
+    The chord vector may also be followed by a key change vector and a key change flag.
 
     Parameters
     ----------
@@ -235,7 +238,10 @@ def infer_chord_vector_pitch_type(vector_length: int, pad: bool) -> PitchType:
         If no known PitchType results in the given vector length.
     """
     for pitch_type in PitchType:
-        if vector_length == get_chord_vector_length(pitch_type, one_hot=False, pad=pad):
+        extra_length = vector_length - get_chord_vector_length(pitch_type, one_hot=False, pad=pad)
+        if extra_length == 0 or extra_length in [
+            get_key_change_vector_length(tonic_type, one_hot=False) + 1 for tonic_type in PitchType
+        ]:
             return pitch_type
 
     raise ValueError(f"Could not find valid pitch type for vector length {vector_length}.")
-- 
2.43.0


From 4fa236ef460987b0ccd7904b064a1a4f971cc4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:04 +0000
Subject: [PATCH 08/75] fix: never change stored key dataset inputs when
 reading an item

---
 harmonic_inference/data/datasets.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index e9d8284..bbe8bad 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -840,10 +840,11 @@ class KeyHarmonicDataset(HarmonicDataset):
             key_change_replacement = self.key_change_replacements[item]
             target = self.targets[item]
 
-            if len(piece_input) < self.max_input_length:
-                padded_input = np.zeros((self.max_input_length + 1, piece_input.shape[1]))
-                padded_input[: len(piece_input)] = piece_input
-                piece_input = padded_input
+        # Work on a padded copy, with space for the key_replacement even in the longest piece
+        padded_length = max(len(piece_input), self.max_input_length or 0) + 1
+        padded_input = np.zeros((padded_length, piece_input.shape[1]))
+        padded_input[: len(piece_input)] = piece_input
+        piece_input = padded_input
 
         # Create target list (if KTD)
         if isinstance(self, KeyTransitionDataset):
-- 
2.43.0


From 9820b0f039e88acb5cfafa67a70322692d5aa5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:04 +0000
Subject: [PATCH 09/75] fix: load whole pieces when reading key datasets from
 h5

---
 harmonic_inference/data/datasets.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index bbe8bad..be01dc7 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1112,8 +1112,13 @@ def h5_to_dataset(
             for data in ["input", "target"]:
                 if f"{data}_lengths" in h5_file:
                     lengths = np.array(h5_file[f"{data}_lengths"])
+                    setattr(dataset, f"{data}_lengths", lengths)
                     data_list = []
 
+                    if data == "input" and "piece_lengths" in h5_file:
+                        # Lengths are per item, but inputs are per piece (as long as its last item)
+                        lengths = lengths[np.cumsum(h5_file["piece_lengths"]) - 1]
+
                     for chunk_start in tqdm(
                         range(0, len(lengths), chunk_size),
                         desc=f"Loading {data} chunks from {h5_path}",
@@ -1127,7 +1132,6 @@ def h5_to_dataset(
                             ]
                         )
 
-                    setattr(dataset, f"{data}_lengths", lengths)
                     setattr(dataset, f"{data}s", data_list)
 
                 else:
-- 
2.43.0


From 24f61fe6a828cafe414d1c0ec48a11ccfd724e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:33 +0000
Subject: [PATCH 10/75] fix: keep dataset metadata when the data does not fit
 into RAM

---
 harmonic_inference/data/datasets.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index be01dc7..b9e03bd 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1108,6 +1108,11 @@ def h5_to_dataset(
         dataset.in_ram = False
         chunk_size = dataset.chunk_size
 
+        # These are needed even when the data itself is read from the h5 file
+        for key in ["piece_lengths", "key_change_replacements", "target_pitch_type"]:
+            if key in h5_file:
+                setattr(dataset, key, np.array(h5_file[key]))
+
         try:
             for data in ["input", "target"]:
                 if f"{data}_lengths" in h5_file:
@@ -1137,10 +1142,6 @@ def h5_to_dataset(
                 else:
                     setattr(dataset, f"{data}s", np.array(h5_file[f"{data}s"], dtype=np.float16))
 
-            for key in ["piece_lengths", "key_change_replacements", "target_pitch_type"]:
-                if key in h5_file:
-                    setattr(dataset, key, np.array(h5_file[key]))
-
             dataset.in_ram = True
 
         except MemoryError:
-- 
2.43.0


From edc8a1b46080608550eceb84f6e10df073734ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:33 +0000
Subject: [PATCH 11/75] fix: use 12 semitones per octave for MIDI note numbers

---
 harmonic_inference/data/note.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index d1c8402..36524cc 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -125,7 +125,7 @@ class Note:
             The MIDI note number of this Note's pitch.
         """
         if self.pitch_type == PitchType.MIDI:
-            return NUM_PITCHES[PitchType.TPC] * self.octave + self.pitch_class
+            return NUM_PITCHES[PitchType.MIDI] * self.octave + self.pitch_class
 
         midi_pitch_class = get_pitch_from_string(
             get_pitch_string(self.pitch_class, self.pitch_type), PitchType.MIDI
-- 
2.43.0


From 7cbf08094b989b276de578af0b49138ec18a46c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:31 +0000
Subject: [PATCH 12/75] fix: keep chords from label csvs valid under reductions

---
 harmonic_inference/data/chord.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/data/chord.py b/harmonic_inference/data/chord.py
index 5164800..fcd4b85 100644
--- a/harmonic_inference/data/chord.py
+++ b/harmonic_inference/data/chord.py
@@ -643,6 +643,7 @@ class Chord:
                 "It+6": ChordType.MAJOR,
                 "h7": ChordType.HALF_DIM7,
             }[chord_row["type"]]
+            chord_type = reduction[chord_type]
 
             # Harmonic info (root pitch)
             degree = chord_row["degree"].replace("-", "b")
@@ -668,7 +669,7 @@ class Chord:
             root = transpose_pitch(key.relative_tonic, interval, pitch_type=pitch_type)
 
             # How we handle augmented 6th chords
-            inversion = chord_row["inv"]
+            inversion = chord_row["inv"] if use_inversion else 0
             if chord_row["type"] in ["Gr+6", "Fr+6", "It+6"]:
                 inversion = 0
 
@@ -712,8 +713,8 @@ class Chord:
                 get_bass_note(chord_type, root, inversion, pitch_type, modulo=True),
                 key.relative_tonic if use_relative else key.local_tonic,
                 key.relative_mode if use_relative else key.local_mode,
-                reduction[chord_type],
-                inversion if use_inversion else 0,
+                chord_type,
+                inversion,
                 (onset_measure["mc"], onset_beat),
                 onset_level,
                 (offset_measure["mc"], offset_beat),
-- 
2.43.0


From c7da4d00805709ce2aa60492fee33e6deb718bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:35 +0000
Subject: [PATCH 13/75] fix: keep the measures of a corpus with only one piece

---
 harmonic_inference/utils/corpus_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/harmonic_inference/utils/corpus_utils.py b/harmonic_inference/utils/corpus_utils.py
index ca41395..07cefd5 100755
--- a/harmonic_inference/utils/corpus_utils.py
+++ b/harmonic_inference/utils/corpus_utils.py
@@ -71,9 +71,10 @@ def remove_repeats(measures: pd.DataFrame, remove_unreachable: bool = True) -> p
 
     # Find potential last measures of each piece
     last_measures = (next_lengths == 0) | [-1 in n for n in measures["next"]]  # Default case
-    last_measures |= np.roll(
-        measures.index.get_level_values("file_id").to_numpy(), -1
-    ) != measures.index.get_level_values("file_id")
+    file_ids = measures.index.get_level_values("file_id").to_numpy()
+    file_ends = np.roll(file_ids, -1) != file_ids
+    file_ends[-1:] = True  # Needed if there is only 1 piece
+    last_measures |= file_ends
 
     next_lengths[last_measures] = 0
 
@@ -94,9 +95,8 @@ def remove_repeats(measures: pd.DataFrame, remove_unreachable: bool = True) -> p
     # Remove measures which are unreachable
     if remove_unreachable:
         # Start measures will not be in any next list, but they need to be saved as a special case
-        start_measures = np.roll(
-            measures.index.get_level_values("file_id").to_numpy(), 1
-        ) != measures.index.get_level_values("file_id")
+        start_measures = np.roll(file_ids, 1) != file_ids
+        start_measures[:1] = True  # Needed if there is only 1 piece
         start_indices = list(measures.index.to_numpy()[start_measures])
 
         # Save to reset type later. Needs to be nullable for the merge to work
-- 
2.43.0


From a8f3eebcbafac75550c25eee6d62e75c188a8d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:08 +0000
Subject: [PATCH 14/75] fix: end an unstarted tie at its ending

---
 harmonic_inference/utils/corpus_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/corpus_utils.py b/harmonic_inference/utils/corpus_utils.py
index 07cefd5..aca8a3a 100755
--- a/harmonic_inference/utils/corpus_utils.py
+++ b/harmonic_inference/utils/corpus_utils.py
@@ -655,8 +655,9 @@ def merge_ties(notes: pd.DataFrame) -> pd.DataFrame:
             A new tied_in_notes dataframe, from which used notes have been dropped.
         """
         update_tied_out_notes(tied_out_notes, new_tied_out_values_df)
+        # A tie with no beginning (tied=0) is finished once its ending is found (tied=-1)
         tied_out_notes = remove_finished(
-            tied_out_notes, tied_out_notes["tied"].isnull(), finished_notes_dfs
+            tied_out_notes, ~tied_out_notes["tied"].isin([0, 1]), finished_notes_dfs
         )
         tied_in_notes = tied_in_notes.drop(tied_in_drop_indexes)
 
-- 
2.43.0


From f3b23cc6f14b71c500e25c72747cc71ca6b3f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:29 +0000
Subject: [PATCH 15/75] fix: give the last chord of a corpus with only one
 piece its end

---
 harmonic_inference/utils/corpus_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/utils/corpus_utils.py b/harmonic_inference/utils/corpus_utils.py
index aca8a3a..0ddee41 100755
--- a/harmonic_inference/utils/corpus_utils.py
+++ b/harmonic_inference/utils/corpus_utils.py
@@ -179,10 +179,10 @@ def add_chord_metrical_data(chords: pd.DataFrame, measures: pd.DataFrame) -> pd.
     chords.loc[:, f"{CHORD_ONSET_BEAT}_next"] = chords[CHORD_ONSET_BEAT].shift(-1)
 
     # For the last chord of each piece, it is more complicated
-    last_chords = chords.loc[
-        chords.index.get_level_values("file_id")
-        != np.roll(chords.index.get_level_values("file_id"), -1)
-    ]
+    file_ids = chords.index.get_level_values("file_id").to_numpy()
+    is_last = np.roll(file_ids, -1) != file_ids
+    is_last[-1:] = True
+    last_chords = chords.loc[is_last]
     last_measures = measures.loc[measures.next.isnull()]
     last_merged = pd.merge(
         last_chords.reset_index(),
-- 
2.43.0


From 9b3ef35ea4702add1f6c7f2c335c5d99913748d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:31 +0000
Subject: [PATCH 16/75] fix: keep a hashed beam usable after it has been
 emptied

---
 harmonic_inference/utils/beam_search_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index d91cc34..6a1d4fd 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -1095,7 +1095,7 @@ class HashedBeam(Beam):
         Empty this beam.
         """
         self.beam = []
-        self.state_dict = []
+        self.state_dict = {}
 
     def __iter__(self) -> Iterator[State]:
         return self.state_dict.values().__iter__()
-- 
2.43.0


From 3d459d5c2dbac70a438c47c2ec674132e0314fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:09 +0000
Subject: [PATCH 17/75] fix: treat chords with an unrepresentable bass as
 invalid transitions

---
 harmonic_inference/utils/beam_search_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index 6a1d4fd..ce3c454 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -192,7 +192,11 @@ class State:
             result in an invalid State (chord root too far away from key tonic).
         """
         root, chord_type, inversion = labels["chord"][chord]
-        bass = hu.get_bass_note(chord_type, root, inversion, pitch_type)
+        try:
+            bass = hu.get_bass_note(chord_type, root, inversion, pitch_type)
+        except ValueError:
+            # The chord's bass note is outside of the valid range of pitches
+            return None
 
         tonic = self.get_key(pitch_type, labels).relative_tonic
         relative_root = root - tonic
-- 
2.43.0


From 6c1b257700b6fef7ed0fb88f1b5b4d0fb76a0a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:09 +0000
Subject: [PATCH 18/75] fix: align TPC chord pitches with the pitch-based CSM
 prior

---
 harmonic_inference/utils/beam_search_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index ce3c454..66a39f6 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -477,6 +477,9 @@ class State:
                 reduction=output_reduction,
             )
 
+            if pitch_type == PitchType.TPC:
+                relative_root -= hc.MIN_RELATIVE_TPC
+
             chord_vector = hu.get_vector_from_chord_type(
                 chord_type,
                 pitch_type,
-- 
2.43.0


From 87fffa4196cd427e3c066cc6887a6e0bf4ffef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:09 +0000
Subject: [PATCH 19/75] fix: keep the most recent model scores when copying a
 state

---
 harmonic_inference/utils/beam_search_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index 66a39f6..a5f700b 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -158,6 +158,9 @@ class State:
             csm_log_prior=self.csm_log_prior,
             key_obj=self.key_obj,
             must_key_transition=self._must_key_transition,
+            most_recent_csm=self.most_recent_csm,
+            most_recent_ksm=self.most_recent_ksm,
+            most_recent_ktm=self.most_recent_ktm,
         )
 
     def chord_transition(
-- 
2.43.0


From ddc058c9dfcf462d6dfdee2663f8ed0cf94373cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:19 +0000
Subject: [PATCH 20/75] fix: score staying in a key on the state that stays

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index d283949..28dda50 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1064,7 +1064,7 @@ class HarmonicInferenceModel:
                         to_ksm_states.append(change_state)
 
                 if can_not_change:
-                    change_state.add_ktm_log_prob(no_change_log_prob * range_length)
+                    state.add_ktm_log_prob(no_change_log_prob * range_length)
                     if current_start == 0 or all_states[state.change_index].fits_in_beam(
                         state, check_hash=True
                     ):
-- 
2.43.0


From 2e60def0ae314efa1d9cc20ddf338dadb02d51ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:19 +0000
Subject: [PATCH 21/75] fix: skip ranges early only if the resulting beam is
 full

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 28dda50..1f79c72 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -967,7 +967,7 @@ class HarmonicInferenceModel:
 
                 if (
                     current_start != 0
-                    and len(all_states[range_end]) > 0
+                    and len(all_states[range_end]) >= self.beam_size
                     and all_states[range_end].beam[0].log_prob >= state.log_prob + range_log_prob
                 ):
                     # Quick exit if range will never get into resulting beam
-- 
2.43.0


From 149a65dfc9cf2b7cd324a3be4df33e1d2dfcf96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:19 +0000
Subject: [PATCH 22/75] fix: count the duration of the first input only once

---
 harmonic_inference/models/joint_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 1f79c72..33675a4 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -714,8 +714,7 @@ class HarmonicInferenceModel:
             start = heapq.heappop(starts)
 
             running_log_prob = 0.0
-            # Special case for start == 0 because it is always invalid, but can have duration > 0
-            running_duration = self.duration_cache[start] if start == 0 else Fraction(0)
+            running_duration = Fraction(0)
             reached_end = True
             forced_chords = set()
             forced_keys = set()
-- 
2.43.0


From 93f3b74436cb1630ee72bedbd503965c9b01c653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:19 +0000
Subject: [PATCH 23/75] fix: check every input of a chord range for conflicting
 forced labels

---
 harmonic_inference/models/joint_model.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 33675a4..5e407fd 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -738,9 +738,6 @@ class HarmonicInferenceModel:
                 ),
                 start=start + 1,
             ):
-                if invalid[index]:
-                    continue
-
                 # Ensure range doesn't contain multiple different forced chords
                 if forced_chord != -1:
                     forced_chords.add(forced_chord)
@@ -755,6 +752,9 @@ class HarmonicInferenceModel:
                         reached_end = False
                         break
 
+                if invalid[index]:
+                    continue
+
                 # Ensure duration is still <= max_chord_length
                 running_duration += duration
                 if running_duration > self.max_chord_length:
@@ -778,6 +778,12 @@ class HarmonicInferenceModel:
                 # No change can occur
                 running_log_prob += no_change_log_prob
 
+            # The last input is not checked above, since no change can occur after it
+            if len((forced_chords | {self.forced_chord_ids[-1]}) - {-1}) > 1:
+                reached_end = False
+            if len((forced_keys | {self.forced_key_ids[-1]}) - {-1}) > 1:
+                reached_end = False
+
             # Detect if a chord reaches the end of the piece and add it here if so
             if reached_end:
                 chord_ranges.append((start, len(change_probs)))
-- 
2.43.0


From af33cf30108b4d233547b74d7c84e50c0e72a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:40 +0000
Subject: [PATCH 24/75] fix: reduce model inputs during inference as during
 training

---
 harmonic_inference/data/datasets.py      |  4 ++++
 harmonic_inference/models/joint_model.py | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index b9e03bd..c5fe7f7 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -690,6 +690,10 @@ class ChordSequenceDataset(HarmonicDataset):
         if not self.use_inversions_input:
             remove_chord_inversions(data["inputs"], pad=False)
 
+        if "targets" not in data:
+            # During inference, we have no targets
+            return
+
         data["targets"] = reduce_chord_one_hots(
             data["targets"],
             False,
diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 5e407fd..5c1c884 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1146,7 +1146,9 @@ class HarmonicInferenceModel:
             )
 
         # Generate KTM loader
-        reduce = ds.KeyTransitionDataset([], self.key_transition_model.get_dataset_kwargs()).reduce
+        reduce = ds.KeyTransitionDataset(
+            [], **self.key_transition_model.get_dataset_kwargs()
+        ).reduce
         ktm_dataset = ds.HarmonicDataset()
         ktm_dataset.inputs = ktm_inputs
         ktm_dataset.set_hidden_states(ktm_hidden_states)
@@ -1219,7 +1221,7 @@ class HarmonicInferenceModel:
             )
 
         # Generate KSM loader
-        reduce = ds.KeySequenceDataset([], self.key_sequence_model.get_dataset_kwargs()).reduce
+        reduce = ds.KeySequenceDataset([], **self.key_sequence_model.get_dataset_kwargs()).reduce
         ksm_dataset = ds.HarmonicDataset([])
         ksm_dataset.inputs = ksm_inputs
         ksm_dataset.set_hidden_states(ksm_hidden_states)
@@ -1353,8 +1355,8 @@ class HarmonicInferenceModel:
             )
 
         # Generate CSM loader
-        reduce = ds.ChordTransitionDataset(
-            [], self.key_transition_model.get_dataset_kwargs()
+        reduce = ds.ChordSequenceDataset(
+            [], **self.chord_sequence_model.get_dataset_kwargs()
         ).reduce
         csm_dataset = ds.HarmonicDataset([])
         csm_dataset.inputs = csm_inputs
-- 
2.43.0


From 8de692a5f602b23d97ac6f7d1ce761b501cf9cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:40 +0000
Subject: [PATCH 25/75] fix: branch up to the maximum if the target probability
 is never reached

---
 harmonic_inference/models/joint_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 5c1c884..b7a90c6 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -873,12 +873,12 @@ class HarmonicInferenceModel:
         priors = np.exp(chord_classifications)
         priors_argsort = np.argsort(-priors)  # Negative to sort descending
         max_indexes = np.clip(
-            np.argmax(
+            np.sum(
                 np.cumsum(
                     np.take_along_axis(priors, priors_argsort, -1),
                     axis=-1,
                 )
-                >= self.target_chord_branch_prob,
+                < self.target_chord_branch_prob,
                 axis=-1,
             )
             + 1,
@@ -1254,12 +1254,12 @@ class HarmonicInferenceModel:
         key_log_priors = np.array(key_log_priors)
         priors_argsort = np.argsort(-key_log_priors)  # Negative to sort descending
         max_indexes = np.clip(
-            np.argmax(
+            np.sum(
                 np.cumsum(
                     np.take_along_axis(np.exp(key_log_priors), priors_argsort, -1),
                     axis=-1,
                 )
-                >= self.target_key_branch_prob,
+                < self.target_key_branch_prob,
                 axis=-1,
             )
             + 1,
-- 
2.43.0


From 37d466e3f2d1c0e59f2de805809c6225491d9db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:05 +0000
Subject: [PATCH 26/75] fix: report invalid forced labels as argument errors

---
 harmonic_inference/models/joint_model.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index b7a90c6..b5d0fb2 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -392,12 +392,14 @@ class HarmonicInferenceModel:
 
             if len(forced_changes) > 0 and max(forced_changes) >= len(self.duration_cache):
                 raise ArgumentError(
+                    None,
                     f"Maximum forced change ({max(forced_changes)}) is beyond the end of the piece"
                     f" (maximum index {len(self.duration_cache) - 1})."
                 )
 
             if len(forced_non_changes) > 0 and max(forced_non_changes) >= len(self.duration_cache):
                 raise ArgumentError(
+                    None,
                     f"Maximum forced non-change ({max(forced_non_changes)}) is beyond the end of "
                     f"the piece (maximum index {len(self.duration_cache) - 1})."
                 )
@@ -405,6 +407,7 @@ class HarmonicInferenceModel:
             # Ensure that no index is both a forced change and a force non-change
             if len(forced_changes & forced_non_changes) > 0:
                 raise ArgumentError(
+                    None,
                     f"{forced_changes & forced_non_changes} are both forced {type_str} "
                     f"changes and forced {type_str} non-changes."
                 )
@@ -413,6 +416,7 @@ class HarmonicInferenceModel:
             for change_index in forced_changes:
                 if self.duration_cache[change_index - 1] == 0:
                     raise ArgumentError(
+                        None,
                         f"{change_index} is an invalid index for a forced change because it is not "
                         "the first note at its metrical postiion."
                     )
@@ -435,6 +439,7 @@ class HarmonicInferenceModel:
             for (start, end), label_id in forced_labels.items():
                 if label_id < 0 or label_id >= max_id:
                     raise ArgumentError(
+                        None,
                         f"Forced {type_str}_id {label_id} is outside of the valid range for "
                         f"{type_str}s (0-{max_id})."
                     )
@@ -442,7 +447,8 @@ class HarmonicInferenceModel:
                 valid_indexes = np.isin(forced_ids[start:end], [-1, label_id])
                 if not np.all(valid_indexes):
                     raise ArgumentError(
-                        f"The following indexes are forced to multiple different {type_str}s: ",
+                        None,
+                        f"The following indexes are forced to multiple different {type_str}s: "
                         f"{np.where(valid_indexes == False)[0] + start}",
                     )
 
@@ -455,6 +461,7 @@ class HarmonicInferenceModel:
                     and forced_ids[change_index] != -1
                 ):
                     raise ArgumentError(
+                        None,
                         f"Forced {type_str} change at index {change_index} but forced {type_str} "
                         f"is {forced_ids[change_index]} both before and after."
                     )
@@ -465,10 +472,11 @@ class HarmonicInferenceModel:
                     and -1 not in forced_ids[change_index - 1 : change_index + 1]
                 ):
                     raise ArgumentError(
+                        None,
                         f"Forced non {type_str} change at index {change_index} but forced "
                         f"{type_str} changes at that index are "
-                        f"({self.forced_chords[change_index - 1]} before and "
-                        f"{self.forced_chords[change_index]} after)."
+                        f"({forced_ids[change_index - 1]} before and "
+                        f"{forced_ids[change_index]} after)."
                     )
 
         # Second, check compatability between chord and key forces
@@ -477,6 +485,7 @@ class HarmonicInferenceModel:
         for change_index in self.forced_key_changes:
             if change_index in self.forced_chord_non_changes:
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced key change, but a forced non-chord change."
                     " This is illegal: all key changes must be accompanied by a chord change."
                 )
@@ -486,6 +495,7 @@ class HarmonicInferenceModel:
                 and self.forced_chord_ids[change_index] != -1
             ):
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced key change, but the chord is forced to id "
                     f"{self.forced_chord_ids[change_index]} both before and after."
                 )
@@ -497,6 +507,7 @@ class HarmonicInferenceModel:
                 and -1 not in self.forced_chord_ids[change_index]
             ):
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced non-chord change, but the key changes from"
                     f" {self.forced_key_ids[change_index - 1]} to "
                     f"{self.forced_key_ids[change_index]} at that index."
-- 
2.43.0


From a4ec64f9551954ec5177d6a2da568f7c6b7a839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:05 +0000
Subject: [PATCH 27/75] fix: compare forced keys where a chord change is ruled
 out

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index b5d0fb2..156dec6 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -504,7 +504,7 @@ class HarmonicInferenceModel:
         for change_index in self.forced_chord_non_changes:
             if (
                 self.forced_key_ids[change_index - 1] != self.forced_key_ids[change_index]
-                and -1 not in self.forced_chord_ids[change_index]
+                and -1 not in self.forced_key_ids[change_index - 1 : change_index + 1]
             ):
                 raise ArgumentError(
                     None,
-- 
2.43.0


From 29f1d2387c4c1aab24129c1b6c4a319466f6f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:05 +0000
Subject: [PATCH 28/75] fix: ignore forced non-changes at time 0 and leave the
 given sets unchanged

---
 harmonic_inference/models/joint_model.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 156dec6..d8f58ed 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -390,6 +390,9 @@ class HarmonicInferenceModel:
                 logging.warning("There can be no forced change at time 0. Ignoring.")
                 forced_changes.remove(0)
 
+            # There is never a change at time 0
+            forced_non_changes.discard(0)
+
             if len(forced_changes) > 0 and max(forced_changes) >= len(self.duration_cache):
                 raise ArgumentError(
                     None,
@@ -583,13 +586,13 @@ class HarmonicInferenceModel:
         ]
 
         # Validate forced changes
-        self.forced_chord_changes = set() if forced_chord_changes is None else forced_chord_changes
+        self.forced_chord_changes = set() if forced_chord_changes is None else set(forced_chord_changes)
         self.forced_chord_non_changes = (
-            set() if forced_chord_non_changes is None else forced_chord_non_changes
+            set() if forced_chord_non_changes is None else set(forced_chord_non_changes)
         )
-        self.forced_key_changes = set() if forced_key_changes is None else forced_key_changes
+        self.forced_key_changes = set() if forced_key_changes is None else set(forced_key_changes)
         self.forced_key_non_changes = (
-            set() if forced_key_non_changes is None else forced_key_non_changes
+            set() if forced_key_non_changes is None else set(forced_key_non_changes)
         )
         self.forced_chords = dict() if forced_chords is None else forced_chords
         self.forced_keys = dict() if forced_keys is None else forced_keys
-- 
2.43.0


From 9c301f33d89a6c6f16f552617260fa0e544f34ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:05 +0000
Subject: [PATCH 29/75] fix: never rejoin ranges across a forced change

---
 harmonic_inference/models/joint_model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index d8f58ed..71cb021 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1006,6 +1006,17 @@ class HarmonicInferenceModel:
                 for chord_id in chord_priors_argsort[:max_index]:
                     if chord_id == state.chord:
                         # Same chord as last range: rejoin a split range
+                        rejoined_keys = set(
+                            self.forced_key_ids[state.prev_state.change_index : range_end]
+                        ) - set([-1])
+                        if (
+                            current_start in self.forced_chord_changes
+                            or current_start in self.forced_key_changes
+                            or len(rejoined_keys) > 1
+                        ):
+                            # There must be a chord change here
+                            continue
+
                         new_state = state.rejoin(
                             range_end,
                             (
-- 
2.43.0


From 914136e62ae8ed8e06f7100ee52c3c439dc35092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:05 +0000
Subject: [PATCH 30/75] fix: enforce forced key changes and non-changes

---
 harmonic_inference/models/joint_model.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 71cb021..2297d91 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -665,7 +665,8 @@ class HarmonicInferenceModel:
 
     def _apply_forced_chord_changes(self, change_probs: List[float]):
         """
-        Apply forced chord changes and chord non-changes to the given change probabilities.
+        Apply forced chord changes (including those needed for forced key changes) and chord
+        non-changes to the given change probabilities.
         This can be done by simply setting each forced change to p=1 and each forced
         non-change to p=0, since each state will be using the exact same probabilites
         for each of these ranges. The change_probs list will be modified in place,
@@ -677,7 +678,7 @@ class HarmonicInferenceModel:
             A List of the chord change probability on each input of the given Piece. This
             will be modified in place.
         """
-        change_probs[list(self.forced_chord_changes)] = 1.0
+        change_probs[list(self.forced_chord_changes | self.forced_key_changes)] = 1.0
         change_probs[list(self.forced_chord_non_changes)] = 0.0
 
     def get_chord_ranges(
@@ -1080,7 +1081,18 @@ class HarmonicInferenceModel:
                         can_not_change = state.is_valid(check_key=True)
                     else:
                         can_not_change = False
-                        can_change = True  # Drop the min_key_change_prob requirement
+                        # Drop the min_key_change_prob requirement but keep the other
+                        can_change = state.can_key_transition()
+
+                if state.prev_state.change_index in self.forced_key_changes:
+                    can_change = len(forced_key_ids) == 0 or can_change
+                    can_not_change = False
+
+                if state.prev_state.change_index in self.forced_key_non_changes:
+                    can_change = False
+                    can_not_change = state.is_valid(check_key=True) and (
+                        len(forced_key_ids) == 0 or state.key == forced_key_id
+                    )
 
                 # Make a copy only if necessary
                 change_state = state.copy() if can_change and can_not_change else state
-- 
2.43.0


From a5e50cd9e3575b7838ef7d89b6e32580ef49f3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:53 +0000
Subject: [PATCH 31/75] fix: load pieces with a single note or chord

---
 harmonic_inference/data/piece.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 1ec1f9a..f8902b0 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -635,8 +635,8 @@ def get_score_piece_from_data_frames(
         ]
     )
     notes, note_ilocs = np.hsplit(notes_list, 2)
-    notes = np.squeeze(notes)
-    note_ilocs = np.squeeze(note_ilocs).astype(int)
+    notes = np.squeeze(notes, axis=1)
+    note_ilocs = np.squeeze(note_ilocs, axis=1).astype(int)
 
     if chords_df is None:
         # Quick check for pieces without ground truth chords
@@ -670,8 +670,8 @@ def get_score_piece_from_data_frames(
         ]
     )
     chords_list, chord_ilocs = np.hsplit(chords_list, 2)
-    chords_list = np.squeeze(chords_list)
-    chord_ilocs = np.squeeze(chord_ilocs).astype(int)
+    chords_list = np.squeeze(chords_list, axis=1)
+    chord_ilocs = np.squeeze(chord_ilocs, axis=1).astype(int)
 
     # Remove accidentally repeated chords
     non_repeated_mask = get_reduction_mask(
-- 
2.43.0


From 34f2e743e56b2863a80d0f5a15d105f3e700a017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:53 +0000
Subject: [PATCH 32/75] fix: use local keys when applied roots are not treated
 as keys

---
 harmonic_inference/data/piece.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index f8902b0..100d55c 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -731,6 +731,10 @@ def get_score_piece_from_data_frames(
     # Remove accidentally repeated keys
     non_repeated_mask = get_reduction_mask(keys_list, kwargs={"use_relative": use_relative})
     keys = keys_list[non_repeated_mask]
+    if not use_relative:
+        for key in keys:
+            key.relative_tonic = key.local_tonic
+            key.relative_mode = key.local_mode
     key_changes = key_changes[non_repeated_mask]
 
     return ScorePiece(
-- 
2.43.0


From f98b5382de4af16e4ce7b9a964ffcb1df1b3fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:53 +0000
Subject: [PATCH 33/75] fix: chords within a range that starts before the first
 chord

---
 harmonic_inference/data/piece.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 100d55c..0bb8082 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -280,7 +280,7 @@ class Piece:
         start_index = bisect.bisect_left(chord_change_indices, start)
         if start_index == len(chord_change_indices) or chord_change_indices[start_index] != start:
             # Subtract 1 to get end of partial chord if exact match is not found
-            start_index -= 1
+            start_index = max(start_index - 1, 0)
 
         if stop is None:
             return chords[start_index:]
-- 
2.43.0


From cca0a03689acda94afdbcba2868f8338a2cbee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:53 +0000
Subject: [PATCH 34/75] fix: save and load pieces without labels as
 dictionaries

---
 harmonic_inference/data/piece.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 0bb8082..a1c2fbb 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -536,8 +536,14 @@ class ScorePiece(Piece):
         """
         return {
             "notes": [note.to_dict() for note in self.get_inputs()],
-            "chords": [chord.to_dict() for chord in self.get_chords()],
-            "keys": [key.to_dict() for key in self.get_keys()],
+            "chords": (
+                [chord.to_dict() for chord in self.get_chords()]
+                if self.get_chords() is not None
+                else None
+            ),
+            "keys": (
+                [key.to_dict() for key in self.get_keys()] if self.get_keys() is not None else None
+            ),
             "chord_changes": self.get_chord_change_indices(),
             "chord_ranges": self.get_chord_ranges(),
             "key_changes": self.get_key_change_indices(),
@@ -569,8 +575,12 @@ def get_score_piece_from_dict(
     return ScorePiece(
         measures_df,
         [Note(**note) for note in piece_dict["notes"]],
-        [Chord(**chord) for chord in piece_dict["chords"]],
-        [Key(**key) for key in piece_dict["keys"]],
+        (
+            [Chord(**chord) for chord in piece_dict["chords"]]
+            if piece_dict["chords"] is not None
+            else None
+        ),
+        [Key(**key) for key in piece_dict["keys"]] if piece_dict["keys"] is not None else None,
         piece_dict["chord_changes"],
         piece_dict["chord_ranges"],
         piece_dict["key_changes"],
-- 
2.43.0


From a92ec7234dc06a45a68bc28c7d02492bbf8929ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:39 +0000
Subject: [PATCH 35/75] fix: load corpora in which some pieces lack notes,
 measures or chords

---
 harmonic_inference/data/corpus_reading.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/harmonic_inference/data/corpus_reading.py b/harmonic_inference/data/corpus_reading.py
index b9de122..1190757 100755
--- a/harmonic_inference/data/corpus_reading.py
+++ b/harmonic_inference/data/corpus_reading.py
@@ -101,15 +101,11 @@ def load_clean_corpus_dfs(dir_path: Union[str, Path], count: int = None):
 
     if count is not None:
         files_df = files_df.iloc[:count]
-        measures_df = measures_df.loc[files_df.index]
-        notes_df = notes_df.loc[files_df.index]
-        if chords_df is not None:
-            chords_df = chords_df.loc[files_df.index]
 
     # Bugfix for Couperin piece "next" error
     files_df = files_df.loc[~(files_df["file_name"] == "c11n08_Rondeau.tsv")]
-    measures_df = measures_df.loc[files_df.index]
-    notes_df = notes_df.loc[files_df.index]
+    measures_df = measures_df.loc[measures_df.index.get_level_values(0).isin(files_df.index)]
+    notes_df = notes_df.loc[notes_df.index.get_level_values(0).isin(files_df.index)]
     if chords_df is not None:
         chords_df = chords_df.loc[chords_df.index.get_level_values(0).isin(files_df.index)]
     # End bugfix
-- 
2.43.0


From de8899bcf8b8c32744faaac488251e19335d10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:03 +0000
Subject: [PATCH 36/75] fix: end of MusicXML notes in measures that do not
 start on the downbeat

---
 harmonic_inference/data/note.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index 36524cc..6ada292 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -473,13 +473,13 @@ class Note:
 
         # Find the offset measure
         offset_measure = onset_measure
-        tmp_duration = note_duration + note_start - onset_measure[MEASURE_OFFSET]
+        tmp_duration = note_duration + note_start
         while tmp_duration >= offset_measure["act_dur"] and not pd.isna(offset_measure["next"]):
             tmp_duration -= offset_measure["act_dur"]
             offset_measure = measures_df.loc[measures_df["mc"] == offset_measure["next"]].iloc[0]
 
         onset_beat = note_start
-        offset_beat = tmp_duration + offset_measure[MEASURE_OFFSET]
+        offset_beat = tmp_duration
 
         onset_beat += onset_measure[MEASURE_OFFSET]
         offset_beat += offset_measure[MEASURE_OFFSET]
-- 
2.43.0


From 25572f617db2fc8d12da83a2d6eeaab5f6f1a1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:03 +0000
Subject: [PATCH 37/75] fix: octave of MusicXML notes spelled across the octave
 boundary

---
 harmonic_inference/data/note.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index 6ada292..2efb066 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -509,7 +509,7 @@ class Note:
 
         return Note(
             get_pitch_from_string(m21_note.pitch.name.replace("-", "b"), pitch_type),
-            m21_note.octave,
+            m21_note.pitch.midi // NUM_PITCHES[PitchType.MIDI] - 1,
             (onset_measure["mc"], onset_beat),
             onset_level,
             note_duration,
-- 
2.43.0


From 96b963685e0a4a86046b105d8f9e8bf7f30e31c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:03 +0000
Subject: [PATCH 38/75] fix: remove MusicXML ties within each part, before
 merging the parts

---
 harmonic_inference/data/piece.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index a1c2fbb..da0d180 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -882,8 +882,8 @@ def get_notes_from_music_xml(
     notes : List[Note]
         A List of the Notes present in the given music21 score.
     """
-    m21_score = m21_score.flattenParts()
     m21_score = m21_score.stripTies()
+    m21_score = m21_score.flattenParts()
 
     levels_cache = defaultdict(dict)
     notes = []
-- 
2.43.0


From 0eb4973f3f50ce219ab59703753dc540030f319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:03 +0000
Subject: [PATCH 39/75] fix: read MusicXML scores of a single measure

---
 harmonic_inference/data/piece.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index da0d180..a7ee376 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -790,7 +790,8 @@ def get_measures_df_from_music21_score(m21_score: music21.stream.Score) -> pd.Da
     mns = []
 
     # The start of the 2nd measure (the first full measure in the case of an anacrusis)
-    ts_epoch = Fraction(list(m21_score.measureOffsetMap().keys())[1] / 4)
+    measure_offsets = list(m21_score.measureOffsetMap().keys())
+    ts_epoch = Fraction(measure_offsets[1] / 4) if len(measure_offsets) > 1 else Fraction(0)
 
     # Default time signature
     time_signature = "4/4"
-- 
2.43.0


From 2f2e37b788bfec657909dafd848c962c6c71b666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:50 +0000
Subject: [PATCH 40/75] fix: remove MusicXML ties within each voice

---
 harmonic_inference/data/piece.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index a7ee376..b2a375c 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -883,6 +883,7 @@ def get_notes_from_music_xml(
     notes : List[Note]
         A List of the Notes present in the given music21 score.
     """
+    m21_score = m21_score.voicesToParts()
     m21_score = m21_score.stripTies()
     m21_score = m21_score.flattenParts()
 
-- 
2.43.0


From 528ead6ba942fcda59397a2be8ba44084d4226fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:30 +0000
Subject: [PATCH 41/75] fix: evaluate in the pitch type of the estimate

---
 harmonic_inference/utils/eval_utils.py | 56 +++++++++++++++++---------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index 30ba8dd..9735b76 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -328,11 +328,13 @@ def evaluate_chords(
     gt_changes = piece.get_chord_change_indices()
     gt_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-        gt_labels[start:end] = chord.get_one_hot_index(
+        gt_labels[start:end] = chord.to_pitch_type(pitch_type).get_one_hot_index(
             relative=False, use_inversion=True, pad=False
         )
-    gt_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
-        relative=False, use_inversion=True, pad=False
+    gt_labels[gt_changes[-1] :] = (
+        gt_chords[-1]
+        .to_pitch_type(pitch_type)
+        .get_one_hot_index(relative=False, use_inversion=True, pad=False)
     )
 
     chords, changes = state.get_chords()
@@ -452,8 +454,10 @@ def evaluate_keys(
     gt_changes = piece.get_key_change_input_indices()
     gt_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-        gt_labels[start:end] = key.get_one_hot_index()
-    gt_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
+        gt_labels[start:end] = key.to_pitch_type(pitch_type).get_one_hot_index()
+    gt_labels[gt_changes[-1] :] = (
+        gt_keys[-1].to_pitch_type(pitch_type).get_one_hot_index()
+    )
 
     keys, changes = state.get_keys()
     estimated_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -557,11 +561,13 @@ def evaluate_chords_and_keys_jointly(
     gt_changes = piece.get_chord_change_indices()
     gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-        gt_chord_labels[start:end] = chord.get_one_hot_index(
+        gt_chord_labels[start:end] = chord.to_pitch_type(root_type).get_one_hot_index(
             relative=False, use_inversion=True, pad=False
         )
-    gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
-        relative=False, use_inversion=True, pad=False
+    gt_chord_labels[gt_changes[-1] :] = (
+        gt_chords[-1]
+        .to_pitch_type(root_type)
+        .get_one_hot_index(relative=False, use_inversion=True, pad=False)
     )
 
     chords, changes = state.get_chords()
@@ -573,8 +579,10 @@ def evaluate_chords_and_keys_jointly(
     gt_changes = piece.get_key_change_input_indices()
     gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-        gt_key_labels[start:end] = key.get_one_hot_index()
-    gt_key_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
+        gt_key_labels[start:end] = key.to_pitch_type(tonic_type).get_one_hot_index()
+    gt_key_labels[gt_changes[-1] :] = (
+        gt_keys[-1].to_pitch_type(tonic_type).get_one_hot_index()
+    )
 
     keys, changes = state.get_keys()
     estimated_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -746,11 +754,13 @@ def get_label_df(
         gt_chords = piece.get_chords()
         gt_changes = piece.get_chord_change_indices()
         for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-            gt_chord_labels[start:end] = chord.get_one_hot_index(
+            gt_chord_labels[start:end] = chord.to_pitch_type(root_type).get_one_hot_index(
                 relative=False, use_inversion=True, pad=False
             )
-        gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
-            relative=False, use_inversion=True, pad=False
+        gt_chord_labels[gt_changes[-1] :] = (
+            gt_chords[-1]
+            .to_pitch_type(root_type)
+            .get_one_hot_index(relative=False, use_inversion=True, pad=False)
         )
 
     chords, changes = state.get_chords()
@@ -764,8 +774,10 @@ def get_label_df(
         gt_changes = piece.get_key_change_input_indices()
         gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
         for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-            gt_key_labels[start:end] = key.get_one_hot_index()
-        gt_key_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
+            gt_key_labels[start:end] = key.to_pitch_type(tonic_type).get_one_hot_index()
+        gt_key_labels[gt_changes[-1] :] = (
+            gt_keys[-1].to_pitch_type(tonic_type).get_one_hot_index()
+        )
 
     keys, changes = state.get_keys()
     estimated_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -995,11 +1007,13 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
     gt_changes = piece.get_chord_change_indices()
     gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-        gt_chord_labels[start:end] = chord.get_one_hot_index(
+        gt_chord_labels[start:end] = chord.to_pitch_type(root_type).get_one_hot_index(
             relative=False, use_inversion=True, pad=False
         )
-    gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
-        relative=False, use_inversion=True, pad=False
+    gt_chord_labels[gt_changes[-1] :] = (
+        gt_chords[-1]
+        .to_pitch_type(root_type)
+        .get_one_hot_index(relative=False, use_inversion=True, pad=False)
     )
 
     chords, changes = state.get_chords()
@@ -1011,8 +1025,10 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
     gt_changes = piece.get_key_change_input_indices()
     gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-        gt_key_labels[start:end] = key.get_one_hot_index()
-    gt_key_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
+        gt_key_labels[start:end] = key.to_pitch_type(tonic_type).get_one_hot_index()
+    gt_key_labels[gt_changes[-1] :] = (
+        gt_keys[-1].to_pitch_type(tonic_type).get_one_hot_index()
+    )
 
     keys, changes = state.get_keys()
     est_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-- 
2.43.0


From 2a51e678fdfd4553daf9781d1ea107a8bd45f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:52 +0000
Subject: [PATCH 42/75] fix: label and report pieces without ground truth

---
 harmonic_inference/utils/eval_utils.py | 103 ++++++++++++++-----------
 1 file changed, 60 insertions(+), 43 deletions(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index 9735b76..a8d7ae1 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -52,19 +52,22 @@ def get_results_df(
     """
     labels_list = []
 
-    gt_chords = piece.get_chords()
-    gt_changes = piece.get_chord_change_indices()
+    has_gt = piece.get_chords() is not None
+
     gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-    for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-        chord = chord.to_pitch_type(chord_root_type)
-        gt_chord_labels[start:end] = chord.get_one_hot_index(
-            relative=False, use_inversion=True, pad=False
+    if has_gt:
+        gt_chords = piece.get_chords()
+        gt_changes = piece.get_chord_change_indices()
+        for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
+            chord = chord.to_pitch_type(chord_root_type)
+            gt_chord_labels[start:end] = chord.get_one_hot_index(
+                relative=False, use_inversion=True, pad=False
+            )
+        gt_chord_labels[gt_changes[-1] :] = (
+            gt_chords[-1]
+            .to_pitch_type(chord_root_type)
+            .get_one_hot_index(relative=False, use_inversion=True, pad=False)
         )
-    gt_chord_labels[gt_changes[-1] :] = (
-        gt_chords[-1]
-        .to_pitch_type(chord_root_type)
-        .get_one_hot_index(relative=False, use_inversion=True, pad=False)
-    )
 
     chords, changes = state.get_chords()
     estimated_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -76,13 +79,16 @@ def get_results_df(
         chord = hu.get_chord_one_hot_index(chord_type, root, chord_root_type, inversion=inv)
         estimated_chord_labels[start:end] = chord
 
-    gt_keys = piece.get_keys()
-    gt_changes = piece.get_key_change_input_indices()
     gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-    for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-        key = key.to_pitch_type(key_tonic_type)
-        gt_key_labels[start:end] = key.get_one_hot_index()
-    gt_key_labels[gt_changes[-1] :] = gt_keys[-1].to_pitch_type(key_tonic_type).get_one_hot_index()
+    if has_gt:
+        gt_keys = piece.get_keys()
+        gt_changes = piece.get_key_change_input_indices()
+        for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
+            key = key.to_pitch_type(key_tonic_type)
+            gt_key_labels[start:end] = key.get_one_hot_index()
+        gt_key_labels[gt_changes[-1] :] = (
+            gt_keys[-1].to_pitch_type(key_tonic_type).get_one_hot_index()
+        )
 
     keys, changes = state.get_keys()
     estimated_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -109,8 +115,8 @@ def get_results_df(
 
         labels_list.append(
             {
-                "gt_key": key_label_list[gt_key_label],
-                "gt_chord": chord_label_list[gt_chord_label],
+                "gt_key": key_label_list[gt_key_label] if has_gt else None,
+                "gt_chord": chord_label_list[gt_chord_label] if has_gt else None,
                 "est_key": key_label_list[est_key_label],
                 "est_chord": chord_label_list[est_chord_label],
                 "duration": duration,
@@ -750,7 +756,8 @@ def get_label_df(
     labels_list = []
 
     gt_chord_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
-    if len(piece.get_chords()) > 0:
+    has_gt = piece.get_chords() is not None and len(piece.get_chords()) > 0
+    if has_gt:
         gt_chords = piece.get_chords()
         gt_changes = piece.get_chord_change_indices()
         for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
@@ -769,7 +776,7 @@ def get_label_df(
         estimated_chord_labels[start:end] = chord
 
     gt_key_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
-    if len(piece.get_keys()) > 0:
+    if has_gt:
         gt_keys = piece.get_keys()
         gt_changes = piece.get_key_change_input_indices()
         gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -803,8 +810,8 @@ def get_label_df(
         if duration == 0:
             continue
 
-        gt_chord_string = chord_label_list[gt_chord_label]
-        gt_key_string = key_label_list[gt_key_label]
+        gt_chord_string = chord_label_list[gt_chord_label] if has_gt else None
+        gt_key_string = key_label_list[gt_key_label] if has_gt else None
 
         est_chord_string = chord_label_list[est_chord_label]
         est_key_string = key_label_list[est_key_label]
@@ -830,7 +837,10 @@ def get_label_df(
                 tonic_only=False,
             )
 
-            if full_key_distance == 0:
+            if not has_gt:
+                color = None
+
+            elif full_key_distance == 0:
                 color = "green"
 
             else:
@@ -874,7 +884,10 @@ def get_label_df(
                 reduction=NO_REDUCTION,
             )
 
-            if full_chord_distance == 0:
+            if not has_gt:
+                color = None
+
+            elif full_chord_distance == 0:
                 color = "green"
 
             else:
@@ -1003,32 +1016,36 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
     tonic_type : PitchType
         The pitch type used for the key tonics.
     """
-    gt_chords = piece.get_chords()
-    gt_changes = piece.get_chord_change_indices()
+    has_gt = piece.get_chords() is not None
+
     gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-    for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-        gt_chord_labels[start:end] = chord.to_pitch_type(root_type).get_one_hot_index(
-            relative=False, use_inversion=True, pad=False
+    if has_gt:
+        gt_chords = piece.get_chords()
+        gt_changes = piece.get_chord_change_indices()
+        for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
+            gt_chord_labels[start:end] = chord.to_pitch_type(root_type).get_one_hot_index(
+                relative=False, use_inversion=True, pad=False
+            )
+        gt_chord_labels[gt_changes[-1] :] = (
+            gt_chords[-1]
+            .to_pitch_type(root_type)
+            .get_one_hot_index(relative=False, use_inversion=True, pad=False)
         )
-    gt_chord_labels[gt_changes[-1] :] = (
-        gt_chords[-1]
-        .to_pitch_type(root_type)
-        .get_one_hot_index(relative=False, use_inversion=True, pad=False)
-    )
 
     chords, changes = state.get_chords()
     est_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for chord, start, end in zip(chords, changes[:-1], changes[1:]):
         est_chord_labels[start:end] = chord
 
-    gt_keys = piece.get_keys()
-    gt_changes = piece.get_key_change_input_indices()
     gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-    for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-        gt_key_labels[start:end] = key.to_pitch_type(tonic_type).get_one_hot_index()
-    gt_key_labels[gt_changes[-1] :] = (
-        gt_keys[-1].to_pitch_type(tonic_type).get_one_hot_index()
-    )
+    if has_gt:
+        gt_keys = piece.get_keys()
+        gt_changes = piece.get_key_change_input_indices()
+        for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
+            gt_key_labels[start:end] = key.to_pitch_type(tonic_type).get_one_hot_index()
+        gt_key_labels[gt_changes[-1] :] = (
+            gt_keys[-1].to_pitch_type(tonic_type).get_one_hot_index()
+        )
 
     keys, changes = state.get_keys()
     est_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -1070,5 +1087,5 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
 
         logging.debug("%s - %s (duration %s):", input_start, input_end, duration)
         logging.debug("    Estimated structure: %s\t%s", est_key_label, est_chord_label)
-        if gt_key_label != est_key_label or gt_chord_label != est_chord_label:
+        if has_gt and (gt_key_label != est_key_label or gt_chord_label != est_chord_label):
             logging.debug("      Correct structure: %s\t%s", gt_key_label, gt_chord_label)
-- 
2.43.0


From 8a49cfc9c2785d11e513e4428259f7f4164ba7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:52 +0000
Subject: [PATCH 43/75] fix: write each piece's annotation into its own file

---
 annotate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/annotate.py b/annotate.py
index c0784f8..7cff2fa 100644
--- a/annotate.py
+++ b/annotate.py
@@ -170,8 +170,8 @@ def annotate(
             )
 
             if piece.name is not None and output_tsv_dir is not None:
-                piece_name = Path(piece.name.split(" ")[-1])
-                output_tsv_path = output_tsv_dir / (piece_name.stem + ".tsv")
+                piece_name = Path(piece.name.split(": ", 1)[-1])
+                output_tsv_path = output_tsv_dir / piece_name.with_suffix(".tsv")
 
                 try:
                     output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 5f9ba5de4a626ad47b648ed515b242c06c604f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:52 +0000
Subject: [PATCH 44/75] fix: write each piece's labels into its own tsv file

---
 test.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/test.py b/test.py
index ab8717b..4624487 100755
--- a/test.py
+++ b/test.py
@@ -323,8 +323,8 @@ def evaluate(
         )
 
         if piece.name is not None and output_tsv_dir is not None:
-            piece_name = Path(piece.name.split(" ")[-1])
-            output_tsv_path = output_tsv_dir / piece_name
+            piece_name = Path(piece.name.split(": ", 1)[-1])
+            output_tsv_path = output_tsv_dir / piece_name.with_suffix(".tsv")
 
             try:
                 output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From f0152d3e204d23953f6172dad8717528d2950e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:59 +0000
Subject: [PATCH 45/75] fix: collapse the initial chord prior onto the
 vocabulary in use

---
 .../models/initial_chord_models.py            | 45 ++++++++++++++-----
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/harmonic_inference/models/initial_chord_models.py b/harmonic_inference/models/initial_chord_models.py
index dab7fa7..40251e1 100644
--- a/harmonic_inference/models/initial_chord_models.py
+++ b/harmonic_inference/models/initial_chord_models.py
@@ -7,10 +7,12 @@ from typing import Dict, List, Union
 import numpy as np
 
 from harmonic_inference.data.chord import Chord, get_chord_vector_length
-from harmonic_inference.data.data_types import NO_REDUCTION, ChordType, KeyMode
+from harmonic_inference.data.data_types import NO_REDUCTION, ChordType, KeyMode, PitchType
 from harmonic_inference.data.piece import Piece
+from harmonic_inference.utils.harmonic_constants import MIN_RELATIVE_TPC
 from harmonic_inference.utils.harmonic_utils import (
     get_chord_from_one_hot_index,
+    get_chord_inversion_count,
     get_chord_label_list,
     get_chord_one_hot_index,
 )
@@ -107,12 +109,14 @@ class SimpleInitialChordModel:
 
                 self.reduction = new_reduction
 
-        if reduction is not None or not use_inversions:
-            num_labels = get_chord_label_list(
-                self.PITCH_TYPE,
-                use_inversions,
-                relative=True,
-                reduction=reduction,
+        if self.reduction != reduction_present or self.use_inversions != inversions_present:
+            num_labels = len(
+                get_chord_label_list(
+                    self.PITCH_TYPE,
+                    self.use_inversions,
+                    relative=True,
+                    reduction=self.reduction,
+                )
             )
             self.major_prior = np.zeros(num_labels)
             self.minor_prior = np.zeros(num_labels)
@@ -128,14 +132,17 @@ class SimpleInitialChordModel:
                     use_inversions=inversions_present,
                 ),
             ):
+                if self.PITCH_TYPE == PitchType.TPC:
+                    root -= MIN_RELATIVE_TPC
+
                 index = get_chord_one_hot_index(
                     chord_type,
                     root,
                     self.PITCH_TYPE,
-                    inversion=inversion,
-                    use_inversion=use_inversions,
+                    inversion=self._get_valid_inversion(chord_type, inversion),
+                    use_inversion=self.use_inversions,
                     relative=True,
-                    reduction=reduction,
+                    reduction=self.reduction,
                 )
 
                 self.major_prior[index] += major_prior
@@ -144,6 +151,24 @@ class SimpleInitialChordModel:
         self.major_log_prior = np.log(self.major_prior)
         self.minor_log_prior = np.log(self.minor_prior)
 
+    def _get_valid_inversion(self, chord_type: ChordType, inversion: int) -> int:
+        """
+        Get the given inversion, or root position if the chord's reduced type has no such inversion.
+
+        Parameters
+        ----------
+        chord_type : ChordType
+            The type of the chord, before reduction.
+        inversion : int
+            The inversion of the chord.
+
+        Returns
+        -------
+        inversion : int
+            The inversion of the reduced chord.
+        """
+        return inversion if inversion < get_chord_inversion_count(self.reduction[chord_type]) else 0
+
     def get_prior(self, is_minor: bool, log: bool = True) -> List[float]:
         """
         Return the prior (or log prior) over all initial chords.
-- 
2.43.0


From f7951fd6c4527babe6cd1f1d968b9327ea1e516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:59 +0000
Subject: [PATCH 46/75] fix: evaluate initial chords in the vocabulary of the
 prior

---
 harmonic_inference/models/initial_chord_models.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/models/initial_chord_models.py b/harmonic_inference/models/initial_chord_models.py
index 40251e1..60fb6e3 100644
--- a/harmonic_inference/models/initial_chord_models.py
+++ b/harmonic_inference/models/initial_chord_models.py
@@ -211,8 +211,15 @@ class SimpleInitialChordModel:
         minor_max_index = np.argmax(self.get_prior(True, log=True))
 
         for piece in pieces:
-            first_chord_one_hot = piece.get_chords()[0].get_one_hot_index(
-                relative=True, use_inversion=True, pad=False
+            first_chord = piece.get_chords()[0].to_pitch_type(self.PITCH_TYPE)
+            first_chord.inversion = self._get_valid_inversion(
+                first_chord.chord_type, first_chord.inversion
+            )
+            first_chord_one_hot = first_chord.get_one_hot_index(
+                relative=True,
+                use_inversion=self.use_inversions,
+                pad=False,
+                reduction=self.reduction,
             )
 
             if piece.get_keys()[0].relative_mode == KeyMode.MAJOR:
-- 
2.43.0


From 287cb35cbf0826b78bf0010cd19080dcc8ace27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:59 +0000
Subject: [PATCH 47/75] fix: load PieceType values from json

---
 harmonic_inference/utils/data_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 79a549e..589f0ab 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -13,7 +13,7 @@ from tqdm import tqdm
 
 import harmonic_inference.models.initial_chord_models as icm
 from harmonic_inference.data.corpus_reading import load_clean_corpus_dfs
-from harmonic_inference.data.data_types import ChordType, PitchType
+from harmonic_inference.data.data_types import ChordType, PieceType, PitchType
 from harmonic_inference.data.piece import (
     Piece,
     get_measures_df_from_music21_score,
@@ -50,8 +50,10 @@ def load_kwargs_from_json(json_path: Union[Path, str, None]) -> Dict[str, Any]:
 
     for key, value in parsed_kwargs.items():
         if isinstance(value, str):
-            if value.startswith("PitchType") or value.startswith("PieceType"):
+            if value.startswith("PitchType."):
                 parsed_kwargs[key] = PitchType[value[10:]]
+            elif value.startswith("PieceType."):
+                parsed_kwargs[key] = PieceType[value[10:]]
 
         elif isinstance(value, dict) and "reduction" in key:
             parsed_kwargs[key] = {
-- 
2.43.0


From 8ed624e7b8cf1e3014b420772979b4e40edd9e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:31 +0000
Subject: [PATCH 48/75] fix: read the types of forced seventh chords in full

---
 harmonic_inference/utils/forces.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index 7e04281..a1dd3f8 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -25,7 +25,9 @@ PITCH_REGEX = r"[A-Ga-g](#{0,2}|b{0,2})"
 
 CHORD_REGEX = re.compile(
     f"C=({PITCH_REGEX})"  # Root
-    "(" + "|".join(list(CHORD_TYPE_TO_STRING.values())).replace("+", "\\+") + ")"  # Chord type
+    "("  # Chord type, longest first, so that (for instance) Mm7 is not read as M
+    + "|".join(map(re.escape, sorted(CHORD_TYPE_TO_STRING.values(), key=len, reverse=True)))
+    + ")"
     r"(_[0-3])?"  # Inversion
 )
 KEY_REGEX = re.compile(f"K={PITCH_REGEX}")
-- 
2.43.0


From 1ec54ed539e50d2321598ce28e33f48ce9dd2d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:31 +0000
Subject: [PATCH 49/75] fix: read forced chords without an inversion as root
 position

---
 harmonic_inference/utils/forces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index a1dd3f8..810a30f 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -173,7 +173,7 @@ def extract_forces_from_musescore(
                 STRING_TO_CHORD_TYPE[label_df[2]],
                 get_pitch_from_string(label_df[0], PitchType.TPC),
                 PitchType.TPC,
-                inversion=0 if len(label_df[3]) == 0 else int(label_df[3][-1]),
+                inversion=0 if pd.isnull(label_df[3]) else int(label_df[3][-1]),
             ),
         )
         for mc, mn_onset, (_, label_df) in zip(
-- 
2.43.0


From 40daba56a3262f2a28b73de9bc759dbaafcf6d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:31 +0000
Subject: [PATCH 50/75] fix: refuse forced positions after the last note with a
 ValueError

---
 harmonic_inference/utils/forces.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index 810a30f..6672b11 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -60,9 +60,10 @@ def convert_score_positions_to_note_indexes(
     for i, force in enumerate(forces):
         index = bisect.bisect_left(note_positions, force[:2])
 
-        if note_positions[index] != force[:2]:
+        if index == len(note_positions) or note_positions[index] != force[:2]:
             raise ValueError(
-                f"Position {force[:2]} is not a note onset. Closest is {note_positions[index]}"
+                f"Position {force[:2]} is not a note onset. Closest is "
+                f"{note_positions[min(index, len(note_positions) - 1)]}"
             )
 
         new_forces[i] = index if len(force) == 2 else (index, force[-1])
-- 
2.43.0


From d7c3316dba22da81cb67fce9d51a439714cbd1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:19 +0000
Subject: [PATCH 51/75] fix: extract forces from scores with only labels or
 only lyrics

---
 harmonic_inference/utils/forces.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index 6672b11..da93326 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -113,11 +113,15 @@ def extract_forces_from_musescore(
     """
     score = Score(score_path)
 
-    labels = score.annotations.get_labels()
+    # Scores without labels have no annotations
+    if score.annotations is None:
+        labels = pd.DataFrame({"mc": [], "mn_onset": [], "label": []}, dtype=object)
+    else:
+        labels = score.annotations.get_labels()
 
     chord_labels = score.mscx.get_chords(lyrics=True)
-    chord_labels = chord_labels.loc[~chord_labels["lyrics"].isnull()]
-    chord_labels["label"] = chord_labels["lyrics"]
+    chord_labels = chord_labels.loc[~chord_labels["lyrics"].isnull()].copy()
+    chord_labels["label"] = chord_labels["lyrics"].astype(object)
 
     chord_changes = pd.concat(
         [
-- 
2.43.0


From 4f85300182d7ace26b127db3932acb0f0e1fabdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:10 +0000
Subject: [PATCH 52/75] fix: read forced keys from labels that contain more
 than the key

---
 harmonic_inference/utils/forces.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index da93326..74cc983 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -21,7 +21,7 @@ NO_KEY_CHANGE_REGEX = r"\=K"
 CHORD_CHANGE_REGEX = r"\!C"
 KEY_CHANGE_REGEX = r"\!K"
 
-PITCH_REGEX = r"[A-Ga-g](#{0,2}|b{0,2})"
+PITCH_REGEX = r"[A-Ga-g](#{1,2}|b{0,2})"
 
 CHORD_REGEX = re.compile(
     f"C=({PITCH_REGEX})"  # Root
@@ -197,12 +197,16 @@ def extract_forces_from_musescore(
             mc,
             mn_onset,
             get_key_one_hot_index(
-                KeyMode.MAJOR if label[2].isupper() else KeyMode.MINOR,
-                get_pitch_from_string(label[2:], PitchType.TPC),
+                KeyMode.MAJOR if key_label[2].isupper() else KeyMode.MINOR,
+                get_pitch_from_string(key_label[2:], PitchType.TPC),
                 PitchType.TPC,
             ),
         )
-        for mc, mn_onset, label in zip(keys["mc"], keys["mn_onset"], keys["label"])
+        for mc, mn_onset, key_label in zip(
+            keys["mc"],
+            keys["mn_onset"],
+            [KEY_REGEX.search(label).group() for label in keys["label"]],
+        )
     ]
 
     return (
-- 
2.43.0


From c0947f98516cdbf41c513a9672c8ffb2776b447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:10 +0000
Subject: [PATCH 53/75] fix: use the forces of the longest matching name

---
 test.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/test.py b/test.py
index 4624487..a0befd0 100755
--- a/test.py
+++ b/test.py
@@ -215,7 +215,8 @@ def evaluate(
         # Load forces dict for this file
         forces_dict = None
         if piece.name is not None:
-            for key in set(all_forces_dict.keys()) - set(["default"]):
+            # Check longer names first, since (for instance) "K1" also matches the piece K10
+            for key in sorted(set(all_forces_dict.keys()) - set(["default"]), key=len, reverse=True):
                 if key in piece.name:
                     logging.info("Using forces with key %s", key)
                     forces_dict = all_forces_dict[key]
-- 
2.43.0


From de8499acf47fd6f83d564ab9e0b3320309c523b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:15 +0000
Subject: [PATCH 54/75] fix: write and read datasets without any items

A split whose pieces never change key has no key sequences.
---
 harmonic_inference/data/datasets.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index c5fe7f7..e556106 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1126,7 +1126,7 @@ def h5_to_dataset(
 
                     if data == "input" and "piece_lengths" in h5_file:
                         # Lengths are per item, but inputs are per piece (as long as its last item)
-                        lengths = lengths[np.cumsum(h5_file["piece_lengths"]) - 1]
+                        lengths = lengths[np.cumsum(h5_file["piece_lengths"], dtype=int) - 1]
 
                     for chunk_start in tqdm(
                         range(0, len(lengths), chunk_size),
@@ -1175,7 +1175,10 @@ def pad_array(array: List[np.array]) -> Tuple[np.array, np.array]:
         The size of the first dimension of each nested numpy nd-array before padding. Using this,
         the original array[i] can be gotten with padded_array[i, :array_lengths[i]].
     """
-    array_lengths = np.array([len(item) for item in array])
+    array_lengths = np.array([len(item) for item in array], dtype=int)
+
+    if len(array) == 0:
+        return np.zeros((0, 0), dtype=np.float16), array_lengths
 
     full_array_size = [len(array), max(array_lengths)]
     if len(array[0].shape) > 1:
-- 
2.43.0


From 36af7e0e8a46df45e569b20374c89f1740fc546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:08 +0000
Subject: [PATCH 55/75] fix: apply --defaults and --fh-defaults when annotating

---
 annotate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/annotate.py b/annotate.py
index 7cff2fa..1cbce6b 100644
--- a/annotate.py
+++ b/annotate.py
@@ -320,6 +320,8 @@ if __name__ == "__main__":
         filemode="w",
     )
 
+    set_default_args(ARGS)
+
     # Load models
     models = load_models_from_argparse(ARGS)
 
-- 
2.43.0


From 6cc50bacf807792651a234a213fae5dec3570b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:08 +0000
Subject: [PATCH 56/75] fix: keep label files with their scores when some
 scores have none

---
 harmonic_inference/utils/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 589f0ab..ae92f6d 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -121,7 +121,7 @@ def load_pieces(
 
                 if music_xml_path.exists():
                     xmls.append(music_xml_path)
-                    csvs.append(label_csv_path) if label_csv_path.exists() else None
+                    csvs.append(label_csv_path if label_csv_path.exists() else None)
 
     else:
         files_df, measures_df, chords_df, notes_df = load_clean_corpus_dfs(input_path)
-- 
2.43.0


From ce5148390fc4207556c9772c32523d342e2e20ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:08 +0000
Subject: [PATCH 57/75] fix: load a single MusicXML file given as a string

---
 harmonic_inference/utils/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index ae92f6d..a725245 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -104,7 +104,7 @@ def load_pieces(
         csvs = []
 
         if Path(input_path).is_file():
-            xmls = [input_path]
+            xmls = [Path(input_path)]
             csvs = [None]
             input_path = Path(input_path).parent
 
-- 
2.43.0


From 86bbdd404704da1cde02ad6c2874acfa79c3d5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:08 +0000
Subject: [PATCH 58/75] fix: load pieces from source if there are no pre-loaded
 dicts

---
 harmonic_inference/utils/data_utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index a725245..b2c578e 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -130,11 +130,9 @@ def load_pieces(
         file_ids = list(files_df.index) if not xml else list(range(len(xmls)))
 
     # Load from pkl if available
-    if piece_dicts_path:
-        pkl_path = Path(piece_dicts_path)
-        if pkl_path.exists():
-            with open(pkl_path, "rb") as pkl_file:
-                piece_dicts = pickle.load(pkl_file)
+    if piece_dicts_path and Path(piece_dicts_path).exists():
+        with open(piece_dicts_path, "rb") as pkl_file:
+            piece_dicts = pickle.load(pkl_file)
     elif xml:
         piece_dicts = [None] * len(xmls)
     else:
-- 
2.43.0


From 77ef0c1c3a15720eaba82e92ae57875c747f4434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:08 +0000
Subject: [PATCH 59/75] fix: load pieces without chords from corpora where
 others have them

---
 harmonic_inference/utils/data_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index b2c578e..2761f1d 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -171,7 +171,9 @@ def load_pieces(
         pieces = [
             get_score_piece_from_data_frames(
                 notes_df.loc[file_id],
-                chords_df.loc[file_id] if chords_df is not None else None,
+                chords_df.loc[file_id]
+                if chords_df is not None and file_id in chords_df.index.get_level_values(0)
+                else None,
                 measures_df.loc[file_id],
                 name=(
                     f"{file_id}: {files_df.loc[file_id, 'corpus_name']}/"
-- 
2.43.0


From 4dfbfe1236193eea3bd31c8c6ba59feb18ce215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:08 +0000
Subject: [PATCH 60/75] fix: number MusicXML files alike when creating and
 loading data

Unlabeled files were counted only when loading, so that file_ids named other files.
---
 create_h5_data.py                   | 5 +++--
 harmonic_inference/data/datasets.py | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/create_h5_data.py b/create_h5_data.py
index 9cd9c3c..f3dad5c 100755
--- a/create_h5_data.py
+++ b/create_h5_data.py
@@ -112,9 +112,10 @@ if __name__ == "__main__":
                 music_xml_path.parent.parent / "chords" / Path(str(music_xml_path.stem) + ".csv")
             )
 
-            if music_xml_path.exists() and label_csv_path.exists():
+            # Unlabeled files are not used, but count for the file_ids, as in load_pieces
+            if music_xml_path.exists():
                 xmls.append(music_xml_path)
-                csvs.append(label_csv_path)
+                csvs.append(label_csv_path if label_csv_path.exists() else None)
 
         xmls_and_csvs = {"xmls": xmls, "csvs": csvs}
 
diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index e556106..99392f9 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1266,6 +1266,10 @@ def get_split_file_ids_and_pieces(
             desc="Parsing MusicXML files",
             total=len(xml_and_csv_paths["xmls"]),
         ):
+            if csv_path is None:
+                logging.warning("%s has no labels (id %s).", xml_path, i)
+                continue
+
             piece = get_score_piece_from_music_xml(xml_path, csv_path)
             pieces.append(piece)
             indexes.append(i)
-- 
2.43.0


From 5299b556030c601c49925c0360ba5ca7ff8e57c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:00 +0000
Subject: [PATCH 61/75] fix: do not divide by zero when logging model
 accuracies in verbose mode

---
 harmonic_inference/models/joint_model.py | 46 ++++++++++++++----------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 2297d91..d72478b 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1970,18 +1970,25 @@ class DebugLogger:
 
         if self.piece.get_chord_change_indices() is not None:
             logging.debug("CTM accuracy")
-            logging.debug(
-                "    Change: %s / %s = %s",
-                change_correct,
-                change_total,
-                change_correct / change_total,
-            )
-            logging.debug(
-                "    No change: %s / %s = %s",
-                no_change_correct,
-                no_change_total,
-                no_change_correct / no_change_total,
-            )
+            if change_total > 0:
+                logging.debug(
+                    "    Change: %s / %s = %s",
+                    change_correct,
+                    change_total,
+                    change_correct / change_total,
+                )
+            else:
+                logging.debug("    No chord changes")
+
+            if no_change_total > 0:
+                logging.debug(
+                    "    No change: %s / %s = %s",
+                    no_change_correct,
+                    no_change_total,
+                    no_change_correct / no_change_total,
+                )
+            else:
+                logging.debug("    No inputs without a chord change")
 
     def debug_chord_classifications(
         self,
@@ -2079,12 +2086,15 @@ class DebugLogger:
 
         if change_indices is not None:
             logging.debug("CCM accuracy")
-            logging.debug(
-                "    correct_chords / correct_ranges: %s / %s = %s",
-                num_correct_chords,
-                num_correct_ranges,
-                num_correct_chords / num_correct_ranges,
-            )
+            if num_correct_ranges > 0:
+                logging.debug(
+                    "    correct_chords / correct_ranges: %s / %s = %s",
+                    num_correct_chords,
+                    num_correct_ranges,
+                    num_correct_chords / num_correct_ranges,
+                )
+            else:
+                logging.debug("    No correct ranges")
 
     def debug_initial_chord_prior(self, icm_prior: List[float]):
         """
-- 
2.43.0


From e7e849da56eb6b21df97451c6c24b5b6e1672944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:17 +0000
Subject: [PATCH 62/75] fix: count the last chord's range in the logged chord
 classification accuracy

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index d72478b..d367bc8 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -2035,7 +2035,7 @@ class DebugLogger:
             is_range_correct = (
                 len(correct_chords) == 1
                 and range_start in change_indices
-                and range_end in change_indices
+                and (range_end in change_indices or range_end == len(self.piece.get_inputs()))
             )
             is_classification_correct = is_range_correct and correct_rank[0] == 0
             if len(correct_rank) > 0:
-- 
2.43.0


From b4f0f50f9147a34dfac30b3ab2a516849e91a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:17 +0000
Subject: [PATCH 63/75] fix: compare states with the new chord when logging key
 transitions

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index d367bc8..c71dd6f 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1489,7 +1489,7 @@ class DebugLogger:
             )
 
             if (
-                len(chord_changes) < new_chord_index
+                new_chord_index < len(chord_changes)
                 and chord_changes[new_chord_index] == change_index
             ):
                 # Chord change is at the correct location
-- 
2.43.0


From 17eea296f65c57ccad845ee7eb013535d74305c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:38 +0000
Subject: [PATCH 64/75] fix: log verbosely about pieces with labels outside of
 the models' ranges

---
 harmonic_inference/models/joint_model.py | 50 +++++++++++++++---------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index c71dd6f..c7011e8 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1616,9 +1616,13 @@ class DebugLogger:
             correct_next_key = keys[new_key_index].to_pitch_type(
                 self.joint_model.key_sequence_model.OUTPUT_PITCH_TYPE
             )
-            correct_key_change_one_hot = correct_prev_key.get_key_change_one_hot_index(
-                correct_next_key
-            )
+            try:
+                correct_key_change_one_hot = correct_prev_key.get_key_change_one_hot_index(
+                    correct_next_key
+                )
+            except ValueError:
+                # The correct key change is outside of the KSM's range
+                return
 
             if chord_changes[new_chord_index] == change_index:
                 if new_chord_index == len(chords):
@@ -1793,14 +1797,18 @@ class DebugLogger:
             ).get_one_hot_index()
 
             correct_next_chord = chords[chord_index]
-            correct_next_chord_relative_one_hot = correct_next_chord.to_pitch_type(
-                self.joint_model.chord_sequence_model.OUTPUT_PITCH_TYPE
-            ).get_one_hot_index(
-                relative=True,
-                use_inversion=self.joint_model.chord_sequence_model.use_output_inversions,
-                pad=False,
-                reduction=self.joint_model.chord_sequence_model.output_reduction,
-            )
+            try:
+                correct_next_chord_relative_one_hot = correct_next_chord.to_pitch_type(
+                    self.joint_model.chord_sequence_model.OUTPUT_PITCH_TYPE
+                ).get_one_hot_index(
+                    relative=True,
+                    use_inversion=self.joint_model.chord_sequence_model.use_output_inversions,
+                    pad=False,
+                    reduction=self.joint_model.chord_sequence_model.output_reduction,
+                )
+            except ValueError:
+                # The correct chord is outside of the CSM's range
+                return
 
             correct_prev_chords = chords[max(0, chord_index - 5) : chord_index]
             correct_prev_chords_one_hots = [
@@ -2110,14 +2118,18 @@ class DebugLogger:
         correct_chord = self.piece.get_chords()[0]
         correct_key = self.piece.get_keys()[0]
 
-        correct_chord_one_hot_relative = correct_chord.to_pitch_type(
-            self.joint_model.initial_chord_model.PITCH_TYPE
-        ).get_one_hot_index(
-            relative=True,
-            use_inversion=self.joint_model.initial_chord_model.use_inversions,
-            pad=False,
-            reduction=self.joint_model.initial_chord_model.reduction,
-        )
+        try:
+            correct_chord_one_hot_relative = correct_chord.to_pitch_type(
+                self.joint_model.initial_chord_model.PITCH_TYPE
+            ).get_one_hot_index(
+                relative=True,
+                use_inversion=self.joint_model.initial_chord_model.use_inversions,
+                pad=False,
+                reduction=self.joint_model.initial_chord_model.reduction,
+            )
+        except ValueError:
+            # The correct chord is outside of the ICM's range
+            return
 
         correct_prob = icm_prior[correct_chord_one_hot_relative]
         correct_rank = rankings.index(correct_chord_one_hot_relative)
-- 
2.43.0


From 425d1b089a0a49e26a5b975cbc2db3c653bba475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:07 +0000
Subject: [PATCH 65/75] fix: log states at the change which they belong to in
 verbose mode

---
 harmonic_inference/models/joint_model.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index c7011e8..91e35ae 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1479,8 +1479,8 @@ class DebugLogger:
         chord_changes = self.piece.get_chord_change_indices()
         chords = self.piece.get_chords()
 
-        # Previous change is the same for all states here
-        change_index = states[0].prev_state.change_index
+        # Log only the most recent change. States which were rejoined started earlier.
+        change_index = max(state.prev_state.change_index for state in states)
         if key_changes is not None:
             new_key_index = bisect.bisect_left(key_changes, change_index)
             new_chord_index = bisect.bisect_left(chord_changes, change_index)
@@ -1527,6 +1527,10 @@ class DebugLogger:
         total_correct = 0
 
         for change_prob, state in zip(key_change_probs, states):
+            if state.prev_state.change_index != change_index:
+                # Skip if the state's chord was rejoined with its previous one
+                continue
+
             if correct_key is not None and correct_key.get_one_hot_index() != state.key:
                 # Skip if current state's key is incorrect
                 continue
@@ -1600,8 +1604,8 @@ class DebugLogger:
         chord_changes = self.piece.get_chord_change_indices()
         chords = self.piece.get_chords()
 
-        # Previous change is the same for all states here
-        change_index = states[0].prev_state.change_index
+        # Log only the most recent change. States which were rejoined started earlier.
+        change_index = max(state.prev_state.change_index for state in states)
         if key_changes is not None:
             new_key_index = bisect.bisect_left(key_changes, change_index)
             new_chord_index = bisect.bisect_left(chord_changes, change_index)
@@ -1662,6 +1666,10 @@ class DebugLogger:
         total_chord_correct_correct = 0
 
         for state, key_prior in zip(states, np.exp(key_log_priors)):
+            if state.prev_state.change_index != change_index:
+                # Skip if the state's chord was rejoined with its previous one
+                continue
+
             if correct_prev_key is not None and correct_prev_key.get_one_hot_index() != state.key:
                 # Skip if state's key is incorrect
                 continue
@@ -1770,7 +1778,8 @@ class DebugLogger:
         if len(states) == 0:
             return
 
-        change_index = states[0].prev_state.change_index
+        # Log only the most recent change. States which were rejoined started earlier.
+        change_index = max(state.prev_state.change_index for state in states)
         if change_index == 0:
             # ICM is used here
             return
@@ -1858,6 +1867,10 @@ class DebugLogger:
         total_correct = 0
 
         for state in states:
+            if state.prev_state.change_index != change_index:
+                # Skip if the state's chord was rejoined with its previous one
+                continue
+
             if keys is not None and state.prev_state.chord != correct_prev_chords_one_hots[-1]:
                 # Most recent chord is incorrect
                 continue
-- 
2.43.0


From 083f2f1d8d73d8314195bfc7af66ca5046ba44e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:32 +0000
Subject: [PATCH 66/75] fix: log verbosely with a pitch-based chord sequence
 model

---
 harmonic_inference/models/joint_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 91e35ae..3fcb8fa 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1784,6 +1784,10 @@ class DebugLogger:
             # ICM is used here
             return
 
+        if isinstance(self.joint_model.chord_sequence_model, csm.PitchBasedChordSequenceModel):
+            # The prior is over pitches rather than chords
+            return
+
         chords = self.piece.get_chords()
         chord_changes = self.piece.get_chord_change_indices()
         keys = self.piece.get_keys()
-- 
2.43.0


From 65ef5ccfc84d7044910a84202f44bc2c7f684d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:50 +0000
Subject: [PATCH 67/75] fix: classify a single chord range (a batch of size 1)

---
 harmonic_inference/models/chord_classifier_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/chord_classifier_models.py b/harmonic_inference/models/chord_classifier_models.py
index e9b4f78..a2c611f 100755
--- a/harmonic_inference/models/chord_classifier_models.py
+++ b/harmonic_inference/models/chord_classifier_models.py
@@ -308,7 +308,7 @@ class SimpleChordClassifier(ChordClassifierModel):
         lstm_out_lengths_tensor = (
             lstm_out_lengths.unsqueeze(1).unsqueeze(2).expand((-1, 1, lstm_out_forward.shape[2]))
         ).to(self.device)
-        last_forward = torch.gather(lstm_out_forward, 1, lstm_out_lengths_tensor - 1).squeeze()
+        last_forward = torch.gather(lstm_out_forward, 1, lstm_out_lengths_tensor - 1).squeeze(1)
         last_backward = lstm_out_backward[:, 0, :]
         lstm_out = torch.cat((last_forward, last_backward), 1)
 
-- 
2.43.0


From 861508c8b9d165191a657d4c75f926fd8fac7cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:50 +0000
Subject: [PATCH 68/75] fix: weight batches by their size when evaluating a key
 sequence model

---
 harmonic_inference/models/key_sequence_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/key_sequence_models.py b/harmonic_inference/models/key_sequence_models.py
index 11f8871..3293c8e 100755
--- a/harmonic_inference/models/key_sequence_models.py
+++ b/harmonic_inference/models/key_sequence_models.py
@@ -128,7 +128,7 @@ class KeySequenceModel(pl.LightningModule, ABC):
 
             outputs, _ = self(inputs, input_lengths)
 
-            batch_count = len(batch)
+            batch_count = len(targets)
             loss = F.nll_loss(outputs, targets)
             acc = 100 * (outputs.argmax(-1) == targets).sum().float() / len(targets)
 
-- 
2.43.0


From 7939e7c3b5823c24a0af13d663bf818adcea40b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:12 +0000
Subject: [PATCH 69/75] fix: ignore batches without targets when evaluating
 models

---
 harmonic_inference/models/chord_sequence_models.py   | 3 +++
 harmonic_inference/models/chord_transition_models.py | 3 +++
 harmonic_inference/models/key_transition_models.py   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/harmonic_inference/models/chord_sequence_models.py b/harmonic_inference/models/chord_sequence_models.py
index 21a9b93..c3c51a7 100755
--- a/harmonic_inference/models/chord_sequence_models.py
+++ b/harmonic_inference/models/chord_sequence_models.py
@@ -152,6 +152,9 @@ class ChordSequenceModel(pl.LightningModule, ABC):
             outputs = outputs.argmax(-1).reshape(-1)[mask]
             targets = targets[mask]
             batch_count = len(targets)
+            if batch_count == 0:
+                continue
+
             acc = 100 * (outputs == targets).sum().float() / len(targets)
 
             total += batch_count
diff --git a/harmonic_inference/models/chord_transition_models.py b/harmonic_inference/models/chord_transition_models.py
index 61a1536..a473ff2 100755
--- a/harmonic_inference/models/chord_transition_models.py
+++ b/harmonic_inference/models/chord_transition_models.py
@@ -121,6 +121,9 @@ class ChordTransitionModel(pl.LightningModule, ABC):
             targets = targets.reshape(-1)[flat_mask]
 
             batch_count = len(outputs)
+            if batch_count == 0:
+                continue
+
             loss = F.binary_cross_entropy(outputs, targets.float())
             acc = 100 * (outputs.round() == targets).sum().float() / len(outputs)
 
diff --git a/harmonic_inference/models/key_transition_models.py b/harmonic_inference/models/key_transition_models.py
index 9655285..0c6df29 100755
--- a/harmonic_inference/models/key_transition_models.py
+++ b/harmonic_inference/models/key_transition_models.py
@@ -130,6 +130,9 @@ class KeyTransitionModel(pl.LightningModule, ABC):
             targets = targets.reshape(-1)[flat_mask]
 
             batch_count = len(outputs)
+            if batch_count == 0:
+                continue
+
             loss = F.binary_cross_entropy(outputs, targets)
             acc = 100 * (outputs.round().long() == targets).sum().float() / len(outputs)
 
-- 
2.43.0


From e7e41e18f118a961ba2f270a278e7b87f57d9d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:37 +0000
Subject: [PATCH 70/75] fix: evaluate a chord classifier on transposed data

---
 harmonic_inference/models/chord_classifier_models.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/models/chord_classifier_models.py b/harmonic_inference/models/chord_classifier_models.py
index a2c611f..dce7e9c 100755
--- a/harmonic_inference/models/chord_classifier_models.py
+++ b/harmonic_inference/models/chord_classifier_models.py
@@ -133,8 +133,16 @@ class ChordClassifierModel(pl.LightningModule, ABC):
             notes_lengths = batch["input_lengths"]
             targets = batch["targets"].long()
 
-            batch_count = len(targets)
             outputs = self(notes, notes_lengths)
+
+            # Targets are -1 for chords which cannot be transposed
+            mask = targets != -1
+            outputs = outputs[mask]
+            targets = targets[mask]
+            batch_count = len(targets)
+            if batch_count == 0:
+                continue
+
             loss = F.cross_entropy(outputs, targets)
             acc = 100 * (outputs.argmax(-1) == targets).sum().float() / len(targets)
 
-- 
2.43.0


From 9a0a6c8c18a795a5da5773c26caded52a169519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:37 +0000
Subject: [PATCH 71/75] fix: learn chords which contain the first pitch with a
 pitch-based chord sequence model

---
 harmonic_inference/models/chord_sequence_models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/models/chord_sequence_models.py b/harmonic_inference/models/chord_sequence_models.py
index c3c51a7..c848018 100755
--- a/harmonic_inference/models/chord_sequence_models.py
+++ b/harmonic_inference/models/chord_sequence_models.py
@@ -484,7 +484,7 @@ class PitchBasedChordSequenceModel(ChordSequenceModel):
 
         flat_outputs = outputs.view(-1, outputs.shape[-1])
         flat_targets = targets.view(-1, targets.shape[-1])
-        flat_mask = flat_targets[:, 0] == 0
+        flat_mask = flat_targets[:, 0] != -100
 
         flat_outputs = flat_outputs[flat_mask]
         flat_targets = flat_targets[flat_mask]
@@ -501,7 +501,7 @@ class PitchBasedChordSequenceModel(ChordSequenceModel):
 
         flat_outputs = outputs.view(-1, outputs.shape[-1])
         flat_targets = targets.view(-1, targets.shape[-1])
-        flat_mask = flat_targets[:, 0] == 0
+        flat_mask = flat_targets[:, 0] != -100
 
         flat_outputs = flat_outputs[flat_mask]
         flat_targets = flat_targets[flat_mask]
@@ -530,7 +530,7 @@ class PitchBasedChordSequenceModel(ChordSequenceModel):
 
             flat_outputs = outputs.view(-1, outputs.shape[-1])
             flat_targets = targets.view(-1, targets.shape[-1])
-            flat_mask = flat_targets[:, 0] == 0
+            flat_mask = flat_targets[:, 0] != -100
             batch_count = len(flat_mask.view(-1))
 
             flat_outputs = flat_outputs[flat_mask]
-- 
2.43.0


From a059f71b72fe1a6dd4ab8429d10d6d94db63634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:37 +0000
Subject: [PATCH 72/75] fix: evaluate a pitch-based chord sequence model

---
 harmonic_inference/models/chord_sequence_models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/models/chord_sequence_models.py b/harmonic_inference/models/chord_sequence_models.py
index c848018..6b7da54 100755
--- a/harmonic_inference/models/chord_sequence_models.py
+++ b/harmonic_inference/models/chord_sequence_models.py
@@ -531,12 +531,14 @@ class PitchBasedChordSequenceModel(ChordSequenceModel):
             flat_outputs = outputs.view(-1, outputs.shape[-1])
             flat_targets = targets.view(-1, targets.shape[-1])
             flat_mask = flat_targets[:, 0] != -100
-            batch_count = len(flat_mask.view(-1))
 
             flat_outputs = flat_outputs[flat_mask]
             flat_targets = flat_targets[flat_mask]
+            batch_count = len(flat_targets)
+            if batch_count == 0:
+                continue
 
-            loss = F.binary_cross_entropy(flat_outputs, flat_targets.float(), reduction="none")
+            loss = F.binary_cross_entropy(flat_outputs, flat_targets.float())
 
             acc = (
                 100
-- 
2.43.0


From bc5e6c0164b2981a7f90244fea521012864b47e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:37 +0000
Subject: [PATCH 73/75] fix: use the MIDI pitches as the output of a MIDI
 pitch-based chord sequence model

---
 harmonic_inference/models/chord_sequence_models.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/models/chord_sequence_models.py b/harmonic_inference/models/chord_sequence_models.py
index 6b7da54..6e43d55 100755
--- a/harmonic_inference/models/chord_sequence_models.py
+++ b/harmonic_inference/models/chord_sequence_models.py
@@ -15,7 +15,11 @@ from harmonic_inference.data.chord import get_chord_vector_length
 from harmonic_inference.data.data_types import ChordType, PitchType
 from harmonic_inference.data.datasets import ChordSequenceDataset
 from harmonic_inference.data.key import get_key_change_vector_length
-from harmonic_inference.utils.harmonic_constants import MAX_RELATIVE_TPC, MIN_RELATIVE_TPC
+from harmonic_inference.utils.harmonic_constants import (
+    MAX_RELATIVE_TPC,
+    MIN_RELATIVE_TPC,
+    NUM_PITCHES,
+)
 
 
 class ChordSequenceModel(pl.LightningModule, ABC):
@@ -435,7 +439,11 @@ class PitchBasedChordSequenceModel(ChordSequenceModel):
             + get_key_change_vector_length(input_key_pitch_type, one_hot=False)  # Key change vector
             + 1  # is_key_change
         )
-        self.output_dim = MAX_RELATIVE_TPC - MIN_RELATIVE_TPC
+        self.output_dim = (
+            NUM_PITCHES[PitchType.MIDI]
+            if output_pitch_type == PitchType.MIDI
+            else MAX_RELATIVE_TPC - MIN_RELATIVE_TPC
+        )
 
         self.embed_dim = embed_dim
         self.embed = nn.Linear(self.input_dim, self.embed_dim)
-- 
2.43.0


From 1c917e9438eceec68ca7f4ed1367eb5c1d15a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:15 +0000
Subject: [PATCH 74/75] fix: create_h5_data.py --corpus matches its strings
 literally, not as regular expressions

---
 create_h5_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/create_h5_data.py b/create_h5_data.py
index f3dad5c..5a0a3cd 100755
--- a/create_h5_data.py
+++ b/create_h5_data.py
@@ -3,6 +3,7 @@ import argparse
 import logging
 import os
 import pickle
+import re
 import sys
 from glob import glob
 from pathlib import Path
@@ -142,7 +143,7 @@ if __name__ == "__main__":
         else:
             logging.info("Only using pieces whose corpus contains the string(s): %s", ARGS.corpus)
             dfs["files"] = dfs["files"][
-                dfs["files"]["corpus_name"].str.contains("|".join(ARGS.corpus))
+                dfs["files"]["corpus_name"].str.contains("|".join(map(re.escape, ARGS.corpus)))
             ]
 
     dataset_splits, split_ids, split_pieces = ds.get_dataset_splits(
-- 
2.43.0


From e660dccb5e61d80027bf155325251fdf644dcdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:55 +0000
Subject: [PATCH 75/75] fix: notes before the first label are not evaluated as
 the label numbered 0

---
 harmonic_inference/utils/eval_utils.py | 45 ++++++++++++++------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index a8d7ae1..e9f95ae 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -54,7 +54,7 @@ def get_results_df(
 
     has_gt = piece.get_chords() is not None
 
-    gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
+    gt_chord_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
     if has_gt:
         gt_chords = piece.get_chords()
         gt_changes = piece.get_chord_change_indices()
@@ -79,7 +79,7 @@ def get_results_df(
         chord = hu.get_chord_one_hot_index(chord_type, root, chord_root_type, inversion=inv)
         estimated_chord_labels[start:end] = chord
 
-    gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
+    gt_key_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
     if has_gt:
         gt_keys = piece.get_keys()
         gt_changes = piece.get_key_change_input_indices()
@@ -115,8 +115,8 @@ def get_results_df(
 
         labels_list.append(
             {
-                "gt_key": key_label_list[gt_key_label] if has_gt else None,
-                "gt_chord": chord_label_list[gt_chord_label] if has_gt else None,
+                "gt_key": key_label_list[gt_key_label] if gt_key_label != -1 else None,
+                "gt_chord": chord_label_list[gt_chord_label] if gt_chord_label != -1 else None,
                 "est_key": key_label_list[est_key_label],
                 "est_chord": chord_label_list[est_chord_label],
                 "duration": duration,
@@ -224,7 +224,7 @@ def get_labels_df(piece: Piece, tpc_c: int = hc.TPC_C) -> pd.DataFrame:
     chords = piece.get_chords()
     onsets = [note.onset for note in piece.get_inputs()]
     chord_changes = piece.get_chord_change_indices()
-    chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
+    chord_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
     chord_suspensions_midi = np.full(len(piece.get_inputs()), "", dtype=object)
     chord_suspensions_tpc = np.full(len(piece.get_inputs()), "", dtype=object)
     for chord, start, end in zip(chords, chord_changes, chord_changes[1:]):
@@ -268,7 +268,8 @@ def get_labels_df(piece: Piece, tpc_c: int = hc.TPC_C) -> pd.DataFrame:
         chord_suspensions_midi,
         onsets,
     ):
-        if duration == 0:
+        # Skip notes before the first label
+        if duration == 0 or chord_label == -1:
             continue
 
         root_tpc, chord_type, inversion = chord_labels_list[chord_label]
@@ -332,7 +333,7 @@ def evaluate_chords(
     """
     gt_chords = piece.get_chords()
     gt_changes = piece.get_chord_change_indices()
-    gt_labels = np.zeros(len(piece.get_inputs()), dtype=int)
+    gt_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
     for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
         gt_labels[start:end] = chord.to_pitch_type(pitch_type).get_one_hot_index(
             relative=False, use_inversion=True, pad=False
@@ -354,7 +355,8 @@ def evaluate_chords(
         estimated_labels,
         gt_labels,
     ):
-        if duration == 0:
+        # Notes before the first label (-1) can not be correct
+        if duration == 0 or gt_label == -1:
             continue
 
         gt_root, gt_chord_type, gt_inversion = hu.get_chord_from_one_hot_index(
@@ -458,7 +460,7 @@ def evaluate_keys(
     """
     gt_keys = piece.get_keys()
     gt_changes = piece.get_key_change_input_indices()
-    gt_labels = np.zeros(len(piece.get_inputs()), dtype=int)
+    gt_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
     for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
         gt_labels[start:end] = key.to_pitch_type(pitch_type).get_one_hot_index()
     gt_labels[gt_changes[-1] :] = (
@@ -476,7 +478,8 @@ def evaluate_keys(
         estimated_labels,
         gt_labels,
     ):
-        if duration == 0:
+        # Notes before the first label (-1) can not be correct
+        if duration == 0 or gt_label == -1:
             continue
 
         gt_tonic, gt_mode = hu.get_key_from_one_hot_index(int(gt_label), pitch_type)
@@ -565,7 +568,7 @@ def evaluate_chords_and_keys_jointly(
     """
     gt_chords = piece.get_chords()
     gt_changes = piece.get_chord_change_indices()
-    gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
+    gt_chord_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
     for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
         gt_chord_labels[start:end] = chord.to_pitch_type(root_type).get_one_hot_index(
             relative=False, use_inversion=True, pad=False
@@ -583,7 +586,7 @@ def evaluate_chords_and_keys_jointly(
 
     gt_keys = piece.get_keys()
     gt_changes = piece.get_key_change_input_indices()
-    gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
+    gt_key_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
     for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
         gt_key_labels[start:end] = key.to_pitch_type(tonic_type).get_one_hot_index()
     gt_key_labels[gt_changes[-1] :] = (
@@ -603,7 +606,8 @@ def evaluate_chords_and_keys_jointly(
         estimated_key_labels,
         gt_key_labels,
     ):
-        if duration == 0:
+        # Notes before the first label (-1) can not be correct
+        if duration == 0 or gt_chord_label == -1 or gt_key_label == -1:
             continue
 
         gt_root, gt_chord_type, gt_inversion = hu.get_chord_from_one_hot_index(
@@ -779,7 +783,6 @@ def get_label_df(
     if has_gt:
         gt_keys = piece.get_keys()
         gt_changes = piece.get_key_change_input_indices()
-        gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
         for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
             gt_key_labels[start:end] = key.to_pitch_type(tonic_type).get_one_hot_index()
         gt_key_labels[gt_changes[-1] :] = (
@@ -810,8 +813,8 @@ def get_label_df(
         if duration == 0:
             continue
 
-        gt_chord_string = chord_label_list[gt_chord_label] if has_gt else None
-        gt_key_string = key_label_list[gt_key_label] if has_gt else None
+        gt_chord_string = chord_label_list[gt_chord_label] if gt_chord_label != -1 else None
+        gt_key_string = key_label_list[gt_key_label] if gt_key_label != -1 else None
 
         est_chord_string = chord_label_list[est_chord_label]
         est_key_string = key_label_list[est_key_label]
@@ -837,7 +840,7 @@ def get_label_df(
                 tonic_only=False,
             )
 
-            if not has_gt:
+            if gt_key_string is None:
                 color = None
 
             elif full_key_distance == 0:
@@ -884,7 +887,7 @@ def get_label_df(
                 reduction=NO_REDUCTION,
             )
 
-            if not has_gt:
+            if gt_chord_string is None:
                 color = None
 
             elif full_chord_distance == 0:
@@ -1018,7 +1021,7 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
     """
     has_gt = piece.get_chords() is not None
 
-    gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
+    gt_chord_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
     if has_gt:
         gt_chords = piece.get_chords()
         gt_changes = piece.get_chord_change_indices()
@@ -1037,7 +1040,7 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
     for chord, start, end in zip(chords, changes[:-1], changes[1:]):
         est_chord_labels[start:end] = chord
 
-    gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
+    gt_key_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
     if has_gt:
         gt_keys = piece.get_keys()
         gt_changes = piece.get_key_change_input_indices()
@@ -1087,5 +1090,5 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
 
         logging.debug("%s - %s (duration %s):", input_start, input_end, duration)
         logging.debug("    Estimated structure: %s\t%s", est_key_label, est_chord_label)
-        if has_gt and (gt_key_label != est_key_label or gt_chord_label != est_chord_label):
+        if gt_chord != -1 and (gt_key_label != est_key_label or gt_chord_label != est_chord_label):
             logging.debug("      Correct structure: %s\t%s", gt_key_label, gt_chord_label)
-- 
2.43.0

