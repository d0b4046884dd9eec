#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one source for both)."""
import json
import os
import sys

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))

P = []


def prop(id, title, statement, text, why, files, mech, technique, note, over=("inputs", "configurations"), state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=[f if "/" in f else "src/" + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    P.append((d, technique, note))


MODEL = "random documents (words, entities, normalisation candidates, synonym rules, options) are run through the real program and judged by "
LVL = "exploration"

prop("C01", "The alignment is an alignment of the two inputs",
     "The hypothesis column of the side-by-side output, without the deletions, is exactly the hypothesis, and the "
     "reference column, without the insertions, is exactly one acceptable reading of the reference: its own words, with each entity "
     "possibly replaced by one of its normalisation candidates (an entity of class FALLBACK also by none, where it has an empty candidate) and each phrase possibly replaced by one of its synonyms. "
     "No row aligns nothing with nothing, and a row is marked as an error exactly when its two sides differ.",
     "every pair of reference (txt, NLP, CTM; any entities, candidates, synonym rules) and hypothesis, every combination of the options",
     "The suite compares a dozen golden runs; whether words get lost, doubled or reordered depends on the search order, on "
     "the heap pruning and on the compactions over all inputs.",
     ["fstalign.cpp", "Walker.cpp", "AdaptedComposition.cpp", "StandardComposition.cpp", "OneBestFstLoader.cpp", "Nlp.cpp", "SynonymEngine.cpp"],
     [("HandleWer / WriteSbs", "src/fstalign.cpp, src/wer.cpp"), ("Walker::walkComposed, GetDetailsFromTopAlignment", "src/Walker.cpp"),
      ("make_stitches / align_stitches_to_nlp", "src/fstalign.cpp")],
     "property-based testing: " + MODEL + "an independent model of all acceptable readings (a lattice built in Python)",
     "about 8000 documents of 0-900 words per quick run; FST hypotheses are in C21")

prop("C02", "All reported totals are the counts of the alignment",
     "The numbers of errors, reference words, insertions, deletions and substitutions, the WER, the precision and the recall in the JSON log "
     "and in the text log are the counts over the rows of the reported alignment. WER is errors divided by reference words.",
     "every alignment the program can produce", "The suite greps a few WER strings; a total that disagrees with the rows on some shape of alignment is not seen.",
     ["wer.cpp", "json_logging.h", "fstalign.cpp"],
     [("RecordWer, RecordWerResult", "src/wer.cpp, src/json_logging.h"), ("HandleWer", "src/fstalign.cpp")],
     "property-based testing: " + MODEL + "recounting the side-by-side rows (invariant between outputs)",
     "about 8000 alignments per quick run, including empty sides and one-sided errors")

prop("C03", "No acceptable alignment is better than the reported one",
     "Without the approximate pass and with the default number of candidates, the reported alignment has a WER no worse than an alignment of minimal cost "
     "(insertion 1, deletion 1, substitution 1.5) between the hypothesis and any acceptable reading of the reference. "
     "It never has fewer errors than the true minimum over all readings.",
     "every pair of inputs up to 35 words, with synonyms, entities and candidates, for both composition approaches",
     "Optimality over all alignments and all readings is a claim about a search over an exponential space; the golden files sample a dozen points.",
     ["AdaptedComposition.cpp", "StandardComposition.cpp", "Walker.cpp", "PathHeap.cpp", "AlignmentTraversor.cpp"],
     [("AdaptedCompositionFst::TryToCompose/GetArcs", "src/AdaptedComposition.cpp"), ("standard composition", "src/StandardComposition.cpp"),
      ("Walker::walkComposed, heap pruning and final selection", "src/Walker.cpp")],
     "property-based testing: random small documents, differential against an exact dynamic programme over the lattice of readings",
     "exact oracle up to 35 words; finding `trailing-eps` is listed")

prop("C04", "The approximate pass changes nothing but speed",
     "With the approximate pre-alignment (the default) the reported alignment is still an alignment of the two inputs, and where errors are isolated (a dozen matching words between them) "
     "it has exactly as many errors as the edit distance. Inputs the pass does not apply to (10 words or fewer on a side, or an error streak longer than --levenstein-max-error-streak) are "
     "aligned exactly as with --disable-approx-alignment.",
     "every pair of inputs with the adapted composition, with and without --disable-approx-alignment, every --levenstein-max-error-streak",
     "The suite runs one long pair each way; the banding depends on where and how long the error streaks are.",
     ["fstalign.cpp", "fast-d.cpp", "AdaptedComposition.cpp"],
     [("approximate alignment map (levenstein maps)", "src/fstalign.cpp HandleWer/Align, src/fast-d.h"), ("SetSymbols / map limits", "src/AdaptedComposition.cpp, src/StandardComposition.cpp")],
     "property-based testing: differential between the two modes of the program plus the alignment model",
     "dense errors: only soundness and the lower bound are decided")

prop("C05", "Every acceptable reading of the reference has no errors",
     "A hypothesis that spells any acceptable reading of the reference - the words themselves, any mixture of normalisation candidates, "
     "synonyms from the file, generated hyphen and cut-off synonyms - is aligned with zero errors. Without --use-case letter case does not matter.",
     "every reference and every reading of it",
     "The number of readings is exponential in the alternatives; the suite tries one or two per feature.",
     ["SynonymEngine.cpp", "Nlp.cpp", "AdaptedComposition.cpp", "StandardComposition.cpp", "OneBestFstLoader.cpp"],
     [("SynonymEngine::ApplyToFst", "src/SynonymEngine.cpp"), ("NlpFstLoader (candidates)", "src/Nlp.cpp")],
     "property-based testing: a random walk through the model's lattice of readings becomes the hypothesis; the oracle is zero errors",
     "references up to 900 words without alternatives, 100 with")

prop("C06", "The file format of the words does not matter",
     "The same sequence of words given as plain text, CTM or NLP, as reference or as hypothesis, gives the same alignment and the same counts. "
     "The format is chosen by the file's extension, whatever its letter case, and everything unknown is plain text.",
     "all pairs of word sequences, all combinations of formats and layouts",
     "The suite never runs one pair of texts through more than two formats.",
     ["fstalign.cpp", "OneBestFstLoader.cpp", "Nlp.cpp", "Ctm.cpp", "main.cpp"],
     [("loader selection", "src/main.cpp"), ("OneBestFstLoader, CtmFstLoader, NlpFstLoader", "src/OneBestFstLoader.cpp, src/Ctm.cpp, src/Nlp.cpp")],
     "property-based testing: metamorphic relation between two runs on retyped files",
     "rows must be identical, except CTM against others where only optimality is compared (equal alternatives)")

prop("C07", "Letter case counts only with --use-case",
     "Without --use-case, respelling any words of both inputs in other letter cases changes nothing in the alignment. "
     "With it, differently cased spellings are simply different words.",
     "all inputs and all respellings", "The suite has one mixed-case file.",
     ["utilities.cpp", "OneBestFstLoader.cpp", "Nlp.cpp", "Ctm.cpp", "SynonymEngine.cpp"],
     [("UnicodeLowercase", "src/utilities.cpp"), ("use_case in the loaders", "src/OneBestFstLoader.cpp, src/Nlp.cpp, src/Ctm.cpp")],
     "property-based testing: metamorphic relation between runs on respelled inputs", "ASCII and Unicode words")

prop("C08", "--use-punctuation makes the marks words of their own",
     "With --use-punctuation an NLP file is aligned exactly like the text in which each non-empty punctuation mark follows its word as a word of its own; "
     "a mark inside an entity belongs to the words of the entity. Without it, the marks of NLP files have no influence.",
     "all NLP references and hypotheses with any marks", "One golden file uses the option.",
     ["Nlp.cpp", "fstalign.cpp"],
     [("NlpReader, NlpFstLoader (punctuation)", "src/Nlp.cpp"), ("align_stitches_to_nlp", "src/fstalign.cpp")],
     "property-based testing: metamorphic relation between an NLP file and the equivalent text", "entities with candidates in half the cases")

prop("C09", "The synonym file means its rules, whatever its layout",
     "Comments, blank lines, spacing and the numbering of the rules do not change the result, and of two rules for the same phrase the first one counts. "
     "Rules are one-way (from the reference phrase to its alternatives), and the alignment with them is optimal over the readings they add.",
     "all rule sets over the words of the inputs, all layouts of the file", "The suite uses four fixed synonym files.",
     ["SynonymEngine.cpp"],
     [("SynonymEngine::ParseStrings/LoadFile/ParseFile", "src/SynonymEngine.cpp"), ("ApplyToFst", "src/SynonymEngine.cpp")],
     "property-based testing: metamorphic relation between layouts, plus the exact optimum over the lattice of readings",
     "rules with empty alternatives, `;` inside words or tabs inside phrases are excluded")

prop("C10", "Generated hyphen and cut-off synonyms are the documented rules",
     "Unless disabled, a hyphenated reference word may be read as its parts, and its parts as the hyphenated word, and a cut-off word (ending in a hyphen) as the word without its hyphen, exactly as if "
     "those rules stood in the synonym file. --disable-hyphen-ignore and --disable-cutoffs take exactly their own rules away.",
     "all references with hyphenated and cut-off words, all four combinations of the two options", "Two golden runs.",
     ["SynonymEngine.cpp"],
     [("GenerateSynFromSymbolTable", "src/SynonymEngine.cpp")],
     "property-based testing: differential between generated rules and the same rules written in a file", "see DESIGN.md for the words left out")

prop("C11", "Normalisation candidates stand for the words of their entity only",
     "An entity of the reference may be read as any of its candidates from the normalisation sidecar and as its own words, and nothing outside the entity is affected. "
     "Candidates of entities that are not in the reference and the order of the candidates do not make the alignment better or worse.",
     "all references with entities and all sidecars", "Three sidecars are tested.",
     ["Nlp.cpp", "fstalign.cpp", "main.cpp"],
     [("NlpFstLoader candidates and labels", "src/Nlp.cpp"), ("--ref-json", "src/main.cpp, src/fstalign.cpp")],
     "property-based testing: metamorphic relations between sidecars, and the lattice of readings", "entities are contiguous spans with unique ids")

prop("C12", "Class WERs count exactly the rows of their class",
     "For every entity class the reported errors and reference words are those of the alignment rows inside spans of that class; generated and file synonyms are reported per rule. "
     "No other class is reported and no rows are counted twice.",
     "all alignments with entities, candidates and synonyms", "One golden file shows class WERs.",
     ["wer.cpp", "Nlp.cpp"], [("RecordClassWer", "src/wer.cpp"), ("entity labels", "src/Nlp.cpp, src/fstalign.cpp")],
     "property-based testing: recount of the rows of the side-by-side output per class", "JSON and text log compared")

prop("C13", "Speaker and speaker-switch WERs count each word once, under its speaker",
     "Each reference word of an NLP reference and each error is counted under the speaker who holds the floor: the speaker of the last reference row before it that names one, "
     "and before the first such row under that first speaker, so that the speakers' words and errors add up to the totals. "
     "Speaker-switch WERs count the rows within the requested window of reference words around each change of speaker, each window entered and left.",
     "all NLP references with any sequence of speakers", "The suite has one file with speakers and greps two numbers.",
     ["wer.cpp"], [("RecordSpeakerWer, RecordSpeakerSwitchWer", "src/wer.cpp")],
     "property-based testing: recount from the rows joined with the reference rows", "window semantics as implemented and documented in DESIGN.md")

prop("C14", "Sentence and tag WERs count exactly their words",
     "Sentence WERs partition the reference words at sentence ends, and each wer_tag (from the NLP column or the sidecar) has the errors and words of the rows tagged with it; the tags shown in the side-by-side output are those of the reference row. "
     "No word is lost or counted under another tag.",
     "all NLP references with any tags, sidecar and sentence ends", "One sidecar is tested.",
     ["wer.cpp", "Nlp.cpp", "fstalign.cpp"], [("RecordSentenceWer, RecordTagWer", "src/wer.cpp"), ("--wer-sidecar", "src/main.cpp, src/Nlp.cpp")],
     "property-based testing: recount from the rows joined with the reference rows", "insertions after the last sentence end belong to no sentence")

prop("C15", "Unigram and bigram statistics are the counts of the alignment",
     "For each word and each pair of adjacent words the reported numbers of correct, deleted, inserted and substituted occurrences, precision and recall follow from the alignment rows.",
     "all alignments", "Nothing in the suite reads them.",
     ["wer.cpp", "Walker.cpp"], [("JsonLogUnigramBigramStats", "src/wer.cpp, src/Walker.cpp")],
     "property-based testing: recount of the rows", "all entries in the JSON log are compared, in both directions")

prop("C16", "The aligned NLP has the rows of the reference and its hypothesis words",
     "The aligned NLP output has one row per aligned reference token, in order, that keeps the speaker, punctuation, case, tags and original spelling of the reference row, "
     "replaced inside entities by the candidate that was matched; deletions, substitutions and, if asked for, insertions are commented as such. "
     "Words aligned to a hypothesis word carry its times, the others carry none.",
     "all NLP references and hypotheses, options, candidates", "Three golden outputs.",
     ["fstalign.cpp", "Nlp.cpp"], [("align_stitches_to_nlp, HandleAlign", "src/fstalign.cpp"), ("NLP output", "src/main.cpp, src/fstalign.cpp")],
     "property-based testing: differential against a model of the output rows computed from the side-by-side output and the reference", "timings with odd values are C17")

prop("C18", "Error groups are the maximal runs of errors of the alignment",
     "The second part of the side-by-side output lists every maximal run of consecutive error rows with the number of its errors and its words, each exactly once. Without errors it is empty.",
     "all alignments", "No test reads that part.",
     ["wer.cpp"], [("WriteSbs (error groups)", "src/wer.cpp")],
     "property-based testing: recount of the rows", "")

prop("C19", "The fast edit distance is exact, and its matches lie on a minimal script",
     "The edit distance of two sequences is the Levenshtein distance, and the words marked as matched on the two sides are equal, in order, and on one minimal edit script. "
     "The test for too long error streaks answers exactly whether a run of unmatched words longer than the limit precedes a match.",
     "all pairs of integer sequences and all limits", "Four fixed pairs are tested.",
     ["fast-d.cpp", "fast-d.h"], [("GetEditDistance, GetAlignmentMaps", "src/fast-d.cpp")],
     "property-based testing: a C++ harness driven with random sequences, against a reference edit distance", "60000 pairs per quick run; run at the end of the sequence left open", over=("inputs",))

prop("C17", "The aligned NLP carries the times of the hypothesis words",
     "Every row of the aligned NLP that stands for a hypothesis word has that word's start and end time, as the CTM or NLP hypothesis gives them, "
     "whatever the times are (overlapping, jumping back, exponents, hours of audio); rows without a hypothesis word have no times. "
     "The reference's own times are kept in their own columns.",
     "all NLP references, all CTM and NLP hypotheses with any non-negative times",
     "The golden outputs have smooth, small times and no entity that changes its number of words next to another error.",
     ["fstalign.cpp", "Ctm.cpp", "Nlp.cpp"],
     [("make_stitches (times from the hypothesis rows)", "src/fstalign.cpp"), ("align_stitches_to_nlp, write_stitches_to_nlp", "src/fstalign.cpp"), ("CtmReader, NlpReader", "src/Ctm.cpp, src/Nlp.cpp")],
     "property-based testing: " + MODEL + "joining the rows of the side-by-side output with the hypothesis rows in order", "times compared as printed, four digits")

prop("C21", "A lattice hypothesis is scored by its best path",
     "For a hypothesis given as an unweighted FST, the reported alignment is an alignment of the reference with one path of the FST, and no path has "
     "an alignment of lower cost; a reference given as an FST likewise allows each of its paths as a reading. This holds for both composition approaches; the numbering of states and symbols, unused symbols and epsilon arcs change nothing.",
     "all acyclic unweighted FSTs and symbol tables, all references with alternatives, both compositions",
     "The suite has three small FSTs; a lattice has exponentially many paths.",
     ["FstFileLoader.cpp", "StandardComposition.cpp", "Walker.cpp", "main.cpp", "fstalign.cpp"],
     [("FstFileLoader", "src/FstFileLoader.cpp"), ("StandardCompositionFst", "src/StandardComposition.cpp"), ("symbols file", "src/main.cpp")],
     "property-based testing: random acyclic lattices written as OpenFST binaries, differential against an exact dynamic programme over (lattice of readings x hypothesis lattice)",
     "up to about 25 arcs; weighted FSTs excluded (their weights are added to the edit costs)")

prop("C22", "No input file makes the program access memory it does not own",
     "Whatever bytes stand in the input files and whatever values the options have, the program either finishes or refuses the input with an error: "
     "it never reads or writes outside its own objects, never dereferences null and never runs into behaviour C++ leaves undefined.",
     "every content of the txt, CTM, NLP, JSON, synonym and symbols files, all option combinations",
     "The suite has only well-formed files and is built without sanitizers.",
     ["fstalign.cpp", "Nlp.cpp", "Ctm.cpp", "OneBestFstLoader.cpp", "SynonymEngine.cpp", "StandardComposition.cpp", "AdaptedComposition.cpp", "Walker.cpp", "wer.cpp", "utilities.cpp", "main.cpp"],
     [("loaders", "src/Nlp.cpp, src/Ctm.cpp, src/OneBestFstLoader.cpp, src/SynonymEngine.cpp"), ("row joins", "src/fstalign.cpp, src/wer.cpp"), ("Walker and path heap", "src/Walker.cpp, src/PathHeap.cpp")],
     "fuzzing: structured documents with mutated words, fields, lines and bytes, run in an AddressSanitizer + UBSan + libstdc++-assertions build; the oracle is the sanitizers",
     "FST binaries themselves (OpenFST's own parser) are not mutated")

prop("C23", "The results are a function of the inputs",
     "The same inputs and options give byte for byte the same outputs on every run, whichever other outputs are requested, whatever directory, file names and environment are used, "
     "and whether the program runs fresh or not. Only log timestamps may differ.",
     "all inputs, all subsets of outputs, all places",
     "Tests look at one output of one run each.",
     ["main.cpp", "fstalign.cpp", "wer.cpp", "Walker.cpp", "json_logging.h"],
     [("HandleWer, HandleAlign", "src/fstalign.cpp"), ("JsonLogger", "src/json_logging.h"), ("Walker tie breaking", "src/Walker.cpp, src/PathHeap.cpp")],
     "property-based testing: metamorphic relation between runs of the program in different processes, places and with different outputs", "the plain executable against the harness", over=("inputs", "configurations", "histories"))

prop("C25", "The layout of a CTM or NLP file does not matter",
     "The order and the presence of optional columns of an NLP file, the presence of confidences in a CTM, the file and channel columns, blank lines and the way numbers are spelled "
     "do not change the alignment or any count, and the outputs keep what the file said.",
     "all NLP and CTM files in all equivalent layouts",
     "Each test file has one layout.",
     ["Nlp.cpp", "Ctm.cpp", "main.cpp"],
     [("NlpReader::read_from_disk", "src/Nlp.cpp"), ("CtmReader::read_from_disk", "src/Ctm.cpp")],
     "property-based testing: metamorphic relation between runs on the same rows in different layouts", "")

prop("C28", "align scores exactly like wer",
     "On an NLP reference and a CTM hypothesis, `align` finds the same alignment, writes the same side-by-side output and the same aligned NLP, and reports the same totals as `wer`.",
     "all NLP references, CTM hypotheses and options both commands have",
     "The suite runs the two commands on different files.",
     ["main.cpp", "fstalign.cpp", "wer.cpp"],
     [("HandleAlign, HandleWer", "src/fstalign.cpp"), ("command selection", "src/main.cpp")],
     "property-based testing: differential between the two commands", "")

prop("C29", "An aligned NLP can be read back and scores as what it says",
     "The aligned NLP is itself a valid NLP file whose words are the words written in it: aligned with itself it has no errors and keeps every row as it is. "
     "As a reference for the hypothesis it was made from it is aligned as well as its words allow, and where the original reference had only one reading, aligning again gives the same aligned NLP.",
     "all NLP references and hypotheses", "No test feeds an output back.",
     ["fstalign.cpp", "Nlp.cpp", "wer.cpp"],
     [("write_stitches_to_nlp", "src/fstalign.cpp"), ("NlpReader", "src/Nlp.cpp")],
     "property-based testing: round trip through the program's own output", "see DESIGN.md for the exact relations", over=("inputs", "histories"))

prop("C30", "What cannot be read or written is never reported as a success",
     "A missing, unreadable or malformed input, an input of the wrong kind, a missing companion file, or an output that cannot be written (completely) ends in a non-zero exit status, and never in a crash by a bad memory access. "
     "No WER is reported for an input that was not read. The same command without the fault succeeds.",
     "all commands and inputs with one fault: missing files, directories in place of files, truncated or malformed files, missing symbols, unwritable outputs",
     "The suite tests no failing command except one wrong extension.",
     ["main.cpp", "fstalign.cpp", "Nlp.cpp", "Ctm.cpp", "OneBestFstLoader.cpp", "FstFileLoader.cpp", "SynonymEngine.cpp", "json_logging.h", "wer.cpp"],
     [("input checks and loaders", "src/main.cpp, src/OneBestFstLoader.cpp, src/Ctm.cpp, src/Nlp.cpp, src/FstFileLoader.cpp, src/SynonymEngine.cpp"), ("output files", "src/fstalign.cpp, src/wer.cpp, src/json_logging.h")],
     "property-based testing with fault injection: one fault is put into a random valid command; the oracle is the exit status", "full devices are /dev/full", over=("inputs", "configurations", "fault_sequences"))

prop("C20", "The generator of test data writes pairs that differ as announced",
     "tools/generate_wer_test_data.pl writes a reference of the length asked for (or the words of the given text), and a hypothesis made from it and its vocabulary "
     "by exactly the announced numbers of insertions, deletions and substitutions, with the announced expected WER; kinds of errors whose rate is 0 do not occur.",
     "all rates, lengths, vocabularies, given texts and random numbers", "The suite does not run the script; its errors would silently spoil benchmark inputs.",
     ["tools/generate_wer_test_data.pl"], [("sampling loop, select_word", "tools/generate_wer_test_data.pl")],
     "property-based testing: random parameters and seeds; the oracle is a dynamic program over all edit scripts with the announced counts", "at most 120 words", over=("inputs", "configurations"))

prop("C24", "Case statistics are the counts over matched words",
     "The reported true and false positives and negatives of upper case (and precision, recall and F1 from them) are the counts over the matched words of an NLP reference and hypothesis.",
     "all pairs of NLP files with any spellings", "One pair of files.",
     ["wer.cpp", "fstalign.cpp"], [("RecordCaseWer", "src/wer.cpp")],
     "property-based testing: recount from the rows and the spellings of the inputs", "")

prop("C26", "More candidates never make the result worse",
     "Raising --numbests never raises the reported WER, and every value gives an alignment of the two inputs.",
     "all inputs, all pairs of values", "No test sets the option to more than one value.",
     ["Walker.cpp"], [("Walker::walkComposed (numBests)", "src/Walker.cpp")],
     "property-based testing: metamorphic relation between runs", "")

prop("C27", "Words are only compared, never interpreted",
     "Renaming all words of both inputs, of the synonym rules and of the candidates by any one-to-one mapping renames the words of the result and changes no count.",
     "all inputs and all one-to-one renamings of words without special meaning", "No test does that.",
     ["OneBestFstLoader.cpp", "Nlp.cpp", "SynonymEngine.cpp", "Walker.cpp", "wer.cpp", "utilities.cpp"],
     [("symbol table and label classes (isSynonymLabel, isEntityLabel)", "src/utilities.cpp"), ("loaders", "src/OneBestFstLoader.cpp")],
     "property-based testing: metamorphic relation between runs",
     "rows compared exactly where no two equally good alignments exist, counts otherwise")


P.sort(key=lambda x: x[0]["id"])


def main():
    import check as runner
    have = runner.registry()
    missing = [d["id"] for d, _, _ in P if d["id"] not in have]
    extra = [c for c in have if c not in [d["id"] for d, _, _ in P]]
    if missing or extra:
        print("without check: %s; without property: %s" % (missing, extra), file=sys.stderr)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="python3 lib/build.py setup",
             checks=[dict(property=d["id"], quick_cmd="python3 check.py %s quick" % d["id"],
                          thorough_cmd="python3 check.py %s thorough" % d["id"], technique=t, level=LVL,
                          level_note=n or "counts in evidence/%s.json" % d["id"]) for d, t, n in P if d["id"] in have],
             not_applicable=[])
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    sys.path.insert(0, V)
    main()
