#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe,hook_needed=hook)))

prop("C01","Applying a created patch to the original gives exactly the modified text",
 "For every pair of texts and every context length, creating a patch from the original to the modified text and applying it to the original succeeds and yields the modified text byte for byte, for both the text and the bytes API. Creating and applying never panic.",
 ["inputs","configurations"],"all original/modified texts (any bytes, any number of lines, with or without final newline) x all context lengths",
 "The tests round-trip about ten hand-written pairs, almost all with the default context of 3; repeated lines, zero context, empty texts and hunk-merging boundaries are combinatorial and mostly unsampled.",
 ["src/diff/mod.rs","src/diff/myers.rs","src/diff/cleanup.rs","src/apply.rs","src/utils.rs","src/range.rs"],
 [("line classification","src/utils.rs Classifier"),("Myers diff","src/diff/myers.rs"),("compaction","src/diff/cleanup.rs"),("hunk building","src/diff/mod.rs to_hunks"),("hunk placement","src/apply.rs find_position/match_fragment")],
 ["create_patch, create_patch_bytes, DiffOptions::set_context_len, apply, apply_bytes"])
prop("C02","Reversing a patch undoes it",
 "For every pair of texts and every context length, applying the reverse of the created patch to the modified text yields the original text byte for byte. The reverse of a patch swaps the two file names, the two line ranges of every hunk and insertions with deletions, and reversing twice gives back an equal patch.",
 ["inputs","configurations"],"all pairs of texts x all context lengths; reversal structure for every patch created or parsed",
 "Two tests reverse one patch each; neither has several hunks, zero context, repeated lines or checks ranges and names.",
 ["src/patch/mod.rs","src/apply.rs","src/diff/mod.rs"],
 [("Patch::reverse","src/patch/mod.rs"),("Hunk::reverse / Line::reverse","src/patch/mod.rs"),("find_position uses the new range","src/apply.rs")],
 ["Patch::reverse, Hunk::reverse, Line::reverse, apply"])
prop("C03","A created patch describes both texts faithfully",
 "In every created patch the hunks are ordered and disjoint, each hunk's old and new ranges name exactly the lines of the original and modified text that the hunk's context/deleted and context/inserted lines spell out, and everything between hunks is identical in both texts. Every hunk contains a change, no unchanged run inside or at the edge of a hunk exceeds what the context length asks for (the requested number of context lines is given on both sides of a change wherever the text has that many, and runs of unchanged lines longer than twice the context length split hunks), and identical texts give a patch with no hunks.",
 ["inputs","configurations"],"all pairs of texts x all context lengths including 0 and the maximum",
 "Tests compare a handful of rendered patches; range arithmetic (0-length ranges, merging of neighbouring hunks, start/end of file) depends on every combination of gap length, context length and position.",
 ["src/diff/mod.rs","src/patch/mod.rs"],
 [("to_hunks / calc_end / build_edit_script","src/diff/mod.rs"),("Hunk::new count assertion","src/patch/mod.rs")],
 ["Patch::hunks, Hunk::old_range/new_range/lines, HunkRange accessors"])
prop("C04","Created patches are minimal edit scripts",
 "For every pair of texts, the number of lines a created patch deletes plus the number it inserts is the smallest possible for turning the original's lines into the modified text's lines (the line-level edit distance without substitutions).",
 ["inputs"],"all pairs of texts, every context length (the count must not depend on it)",
 "A non-minimal script still round-trips, so only exact expected outputs of a few samples would notice; optimality is a statement about all alternatives for all inputs.",
 ["src/diff/myers.rs","src/diff/cleanup.rs","src/diff/mod.rs"],
 [("find_middle_snake / conquer","src/diff/myers.rs"),("compact keeps counts","src/diff/cleanup.rs")],
 ["Patch::hunks of create_patch"])
prop("C05","Printing a created patch and parsing it back gives an equal patch",
 "For every pair of texts and every context length, rendering the created patch to text (or bytes) and parsing it back succeeds and gives a patch equal to the one that was rendered, and applying the re-parsed patch to the original yields the modified text.",
 ["inputs","configurations"],"all pairs of texts x context lengths, default formatter, text and bytes API",
 "Only sampled texts are re-parsed; lines that look like patch syntax (leading '-', '+', '@', '\\\\', blank lines, missing final newline) are what breaks such formats and are hardly sampled.",
 ["src/patch/format.rs","src/patch/parse.rs","src/patch/mod.rs"],
 [("LineDisplay/HunkDisplay/PatchDisplay","src/patch/format.rs"),("hunk_lines / hunk_header / range","src/patch/parse.rs")],
 ["Patch::to_string, Patch::to_bytes, Patch::from_str, Patch::from_bytes, PartialEq on Patch"])
prop("C06","Parsing arbitrary input never panics and accepted patches are safe to use",
 "For every input text or byte string, parsing a patch returns either a patch or an error: it does not panic, overflow or loop. Every accepted patch can be queried with all its accessors, printed, reversed and applied to any base text without panicking.",
 ["inputs"],"all byte strings / all strings as patch text, all base texts",
 "Fuzz-style inputs are absent from the tests; numeric extremes in hunk headers, truncated headers and stray markers are unreachable by the well-formed samples.",
 ["src/patch/parse.rs","src/patch/mod.rs","src/utils.rs","src/apply.rs"],
 [("Parser and error returns","src/patch/parse.rs"),("find_bytes","src/utils.rs"),("HunkRange arithmetic","src/patch/mod.rs")],
 ["Patch::from_str, Patch::from_bytes, HunkRange::end/range, Display, reverse, apply"])
prop("C07","The parser accepts exactly well-formed hunks and reads them verbatim",
 "A unified-diff hunk is accepted if and only if its header is well formed, its body lines are context (space-prefixed or blank), deletion, insertion or no-newline markers in legal positions, its line counts equal the header's, and its hunks are ordered and non-overlapping; text before the first header is skipped. A no-newline marker is legal directly after a body line that ends in a newline, and after a marked context line nothing more may follow in the hunk, after a marked deletion (insertion) no further deletion (insertion). Header numbers are decimal and a range must end within the machine's integer range (numbers written with a leading '+' are left open). An accepted patch exposes exactly the ranges, kinds and contents of the lines that were in the input, with the newline removed only where a no-newline marker follows.",
 ["inputs"],"all sequences of header fields and body lines up to the bound",
 "Tests parse a few complete patches and three malformed ones; acceptance and rejection are claims about every sequence of line kinds and every header number.",
 ["src/patch/parse.rs"],
 [("hunk / hunk_lines / hunk_header / range","src/patch/parse.rs"),("verify_hunks_in_order","src/patch/parse.rs"),("skip_header_preamble / patch_header","src/patch/parse.rs")],
 ["Patch::from_str, Patch::from_bytes, Hunk accessors"])
prop("C08","Every accepted patch survives print and re-parse unchanged",
 "For every input the parser accepts, including hunks with a function-context heading, without file names or with unusual but legal bodies, printing the parsed patch and parsing the output succeeds and gives an equal patch, and printing again gives the same text.",
 ["inputs"],"all patch texts the parser accepts",
 "Only patches produced by this library are round-tripped in the tests; parsed third-party features such as function context or missing headers are never re-printed.",
 ["src/patch/parse.rs","src/patch/format.rs"],
 [("hunk_header function context","src/patch/parse.rs"),("HunkDisplay function context","src/patch/format.rs")],
 ["Patch::from_str -> to_string -> from_str, and the bytes twins"])
prop("C09","Apply changes only exact matches and nothing else",
 "If applying a patch succeeds, the result is the base text with, for each hunk, one stretch of lines not touched by an earlier hunk and equal line for line to the hunk's context and deleted lines replaced by its context and inserted lines, and every other line unchanged and in order. A hunk whose context and deleted lines do not occur verbatim in the not yet patched lines makes apply fail, with an error naming the first such hunk.",
 ["inputs"],"all base texts x all parsed patches (right or wrong for that base)",
 "Tests only apply patches that fit; wrong contexts, overlapping matches, partly patched regions and failures of later hunks are not sampled.",
 ["src/apply.rs"],
 [("match_fragment","src/apply.rs"),("ImageLine::Patched bookkeeping","src/apply.rs"),("splice in apply_hunk","src/apply.rs")],
 ["apply, apply_bytes, ApplyError Display"])
prop("C10","Hunks with wrong line numbers go to the nearest matching place",
 "A hunk is applied at the line its header names (the line its new-file range names, in the text as patched so far) if it matches there, and otherwise at the closest matching position before or after it (the earlier one on a tie), however wrong the numbers are. Whenever a matching position exists in lines not yet patched, apply finds one: it never fails on a patch whose only fault is its line numbers.",
 ["inputs"],"all base texts x hunks x header line numbers 0..2^64-1",
 "One test applies one hunk with one wrong number; nearest-first order and completeness of the search are claims over all offsets and match sets.",
 ["src/apply.rs"],
 [("find_position start and clamp","src/apply.rs"),("interleave search","src/apply.rs")],
 ["apply, apply_bytes"])
prop("C11","Merging with an unchanged or identical side is clean and exact",
 "For every ancestor and every other text, merging when only ours changed yields ours, when only theirs changed yields theirs, and when both sides are identical yields that text, always without conflict and byte for byte. Merging never panics.",
 ["inputs","configurations"],"all ancestors, ours, theirs; all conflict styles and marker lengths",
 "Three identity cases on one text are tested; these laws must survive every diff shape, including repeated lines where alignments are ambiguous.",
 ["src/merge/mod.rs","src/diff/myers.rs","src/diff/cleanup.rs"],
 [("merge_solutions","src/merge/mod.rs"),("cleanup_conflicts","src/merge/mod.rs")],
 ["merge, merge_bytes, MergeOptions::merge"])
prop("C12","Three-way merge combines both sides' edits and conflicts exactly when it must",
 "Cut the ancestor at the lines left unchanged by both sides' diffs: in each stretch between such lines the merge takes the side that changed it, takes the common text when both changed it to the same text, and reports a conflict only when both changed it differently. The merge returns Ok if and only if no stretch conflicts, and no edit of either side is ever dropped or applied twice.",
 ["inputs"],"all triples of texts (ancestor, ours, theirs)",
 "About ten triples are tested; the interaction of two independent diffs (touching, overlapping, adjacent, insert-versus-delete) is a product space where omitted conflicts have already shipped once (issue 28).",
 ["src/merge/mod.rs"],
 [("merge_solutions alignment","src/merge/mod.rs"),("diff3_range_to_merge_range","src/merge/mod.rs"),("cleanup_conflicts","src/merge/mod.rs"),("output_result","src/merge/mod.rs")],
 ["merge, merge_bytes; create_patch with context 0 as the published diff of each side"])
prop("C13","Conflicts are rendered completely, with well-formed markers",
 "Each conflict is written as its own lines: opening marker, ours' lines, (in diff3 style) the ancestor marker and lines, separator, theirs' lines, closing marker, with markers of the configured length and every section's lines verbatim, a missing final newline being completed so that a marker always starts a line. Style and marker length change only the markers and the presence of the ancestor section, never whether there is a conflict or any other text.",
 ["inputs","configurations"],"all triples of texts x both styles x all marker lengths",
 "The tests pin only the default style and length on texts that end in newlines.",
 ["src/merge/mod.rs"],
 [("output_result / output_result_bytes","src/merge/mod.rs"),("add_conflict_marker(_bytes)","src/merge/mod.rs")],
 ["MergeOptions::merge, merge_bytes, set_conflict_style, set_conflict_marker_length"])
prop("C14","Merge treats both sides alike",
 "Swapping ours and theirs never changes whether a merge conflicts; a clean merge gives the same text either way, and a conflicted one differs only by the two sides' sections being exchanged inside each conflict.",
 ["inputs"],"all triples of texts",
 "A few swapped calls are tested with separately written expectations; the symmetry itself over all inputs is not.",
 ["src/merge/mod.rs"],
 [("merge_solutions","src/merge/mod.rs"),("create_merge_range / cleanup_conflicts","src/merge/mod.rs")],
 ["merge, merge_bytes"])
prop("C15","The text and bytes APIs agree",
 "On valid UTF-8 input the bytes variant of every operation (create, print, parse, apply, merge) returns the same outcome and the same bytes as the text variant, including whether it fails. Multi-byte characters never change which lines are compared, split or matched.",
 ["inputs","configurations"],"all UTF-8 texts, patches and merge triples",
 "Most code is duplicated or generic per type; tests compare the twins only on their ASCII samples.",
 ["src/utils.rs","src/patch/format.rs","src/patch/parse.rs","src/apply.rs","src/merge/mod.rs","src/diff/mod.rs"],
 [("Text impls for str and [u8], find_bytes","src/utils.rs"),("duplicated Display and write_into","src/patch/format.rs"),("output_result twins","src/merge/mod.rs")],
 ["every str function and its _bytes twin"])
prop("C16","Formatter options change presentation only",
 "Colour output with its escape sequences removed equals plain output (texts that contain escape characters of their own aside); turning blank-line suppression on or off differs only in the single space before empty context lines, and both parse to the same patch; turning off the no-newline message only removes those marker lines. Display output and written bytes are identical under every combination of options.",
 ["inputs","configurations"],"all created patches x all eight option combinations",
 "Each option is tested on one sample with expected text, never in combination or on texts with blank lines or missing newlines in unusual places.",
 ["src/patch/format.rs"],
 [("LineDisplay / HunkDisplay / PatchDisplay, both renderers","src/patch/format.rs"),("PatchFormatter options","src/patch/format.rs")],
 ["PatchFormatter::with_color, missing_newline_message, suppress_blank_empty, fmt_patch, write_patch_into"])
prop("C17","Writing a patch reports writer failures and loses nothing",
 "Writing a patch into a writer that accepts data in arbitrary small pieces produces exactly the bytes of the in-memory rendering. If the writer fails at any point, writing returns that error without panicking, and what was written before is a prefix of the full rendering.",
 ["fault_sequences","inputs"],"every failure point and every short-write pattern x created patches x formatter options",
 "All tests write into a Vec, which never fails or splits a write.",
 ["src/patch/format.rs","src/patch/mod.rs"],
 [("write_into error propagation with ?","src/patch/format.rs"),("Filename::write_into","src/patch/mod.rs")],
 ["PatchFormatter::write_patch_into"])
prop("C18","File names survive creation, printing and parsing",
 "Every file name set on a patch is reported back unchanged by the patch, and after printing and parsing the patch the parsed names are equal to the ones set, whatever characters they contain; names needing it are quoted and escaped in the output so that each header stays on one line. Unquoted and quoted names in parsed headers are decoded as written, up to a tab, and malformed quoting is rejected.",
 ["inputs","configurations"],"all file names (any characters), text and bytes API; all header lines",
 "One quoted sample is parsed; printing names that need escapes is never tested at all.",
 ["src/patch/mod.rs","src/patch/parse.rs","src/diff/mod.rs"],
 [("Filename Display / write_into","src/patch/mod.rs"),("escaped_filename / unescaped_filename / is_quoted","src/patch/parse.rs"),("set_original_filename / set_modified_filename","src/diff/mod.rs")],
 ["DiffOptions::set_*_filename, Patch::original/modified, to_string, from_str and bytes twins"])
prop("C19","Work is bounded by the size of the inputs, not by numbers in a patch",
 "Parsing a patch and applying it take a number of steps bounded by the sizes of the patch and of the base text: line numbers and counts claimed in hunk headers, however large, do not increase the time or memory used.",
 ["inputs"],"all header numbers 0..2^64-1 and beyond, at fixed patch and base size",
 "One wall-clock test with one number (1000000); a hang or huge allocation for other numbers or in another step would not be seen.",
 ["src/apply.rs","src/patch/parse.rs"],
 [("clamp of the search start","src/apply.rs find_position"),("range parsing","src/patch/parse.rs")],
 ["Patch::from_str, apply and bytes twins: executed instructions and allocated bytes"])
prop("C20","Presence of the final newline is preserved end to end",
 "Whether each text ends with a newline survives diffing, printing, parsing, applying and reversing: texts that differ only in the final newline give a non-empty patch, and the printed patch carries a no-newline marker after exactly the lines that end a text without newline.",
 ["inputs","configurations"],"all pairs of texts with and without final newline x context lengths",
 "Four fixed pairs are tested; the marker's position depends on whether the last line is context, deleted, inserted or outside every hunk.",
 ["src/patch/format.rs","src/patch/parse.rs","src/utils.rs","src/apply.rs"],
 [("LineIter keeps the terminator","src/utils.rs"),("no-newline marker output","src/patch/format.rs"),("strip_newline and flags","src/patch/parse.rs")],
 ["create_patch -> to_string -> from_str -> apply / reverse"])
prop("C21","Printed patches are standard unified diffs",
 "The printed form of every created patch, and of every patch it parses, is exactly a unified diff as other tools read it: the two file name lines '--- ' and '+++ ', then for each hunk '@@ -start[,length] +start[,length] @@' with the heading after a space if there is one (a length of 1 is omitted, an empty range names the line before it, numbers have no sign or leading zeros), then one line per hunk line with its prefix (an empty context line is printed as an empty line by default and as a single space when blank-line suppression is off), each line without a newline followed by the no-newline marker. Within a change deletions come before insertions. A strict tool that believes the line numbers and never searches turns the original text into the modified one by following the printed form of a created patch.",
 ["inputs","configurations"],"all pairs of texts x context lengths x API forms; all parsed patches that print; both blank-line settings",
 "Expected output is compared for a handful of patches; the crate's own parser and applier accept variations (searching for hunks, optional lengths), so a round trip through them cannot notice output that other tools reject or misplace.",
 ["src/patch/format.rs","src/patch/mod.rs","src/diff/mod.rs"],
 [("HunkRange Display","src/patch/mod.rs"),("HunkDisplay / LineDisplay and write_into","src/patch/format.rs"),("hunk ranges","src/diff/mod.rs to_hunks")],
 ["Patch::to_string, Patch::to_bytes, PatchFormatter, from_str / from_bytes then to_string / to_bytes"])
prop("C22","Results depend only on the inputs",
 "The same texts and options always give the same patch, merge and apply outcome: repeating a call, reusing an options object, cloning a patch, setting options in another order (the last setting counts), the place of the texts in memory (including overlapping or identical slices) and the seed of the hash map never change a result, and the free functions and fresh options give the documented defaults (three context lines, diff3 conflict style, markers of seven characters).",
 ["inputs","configurations","histories"],"all texts x option settings and orders x hash seeds x memory placement of equal texts",
 "Tests call each function once per process with separately stored texts; a dependence on addresses, hash order or an option left over from an earlier call shows only for particular inputs or seeds.",
 ["src/diff/mod.rs","src/merge/mod.rs","src/utils.rs","src/apply.rs"],
 [("Classifier (HashMap from lines to numbers)","src/utils.rs"),("DiffOptions","src/diff/mod.rs"),("MergeOptions","src/merge/mod.rs")],
 ["create_patch, DiffOptions::create_patch and setters, merge, MergeOptions::merge and setters, apply and bytes twins"])
prop("C23","Changes are placed as late as they can be",
 "In every created patch each change lists its deleted lines before its inserted lines, and the unchanged line that follows a change never equals the first of its deleted lines nor the first of its inserted lines: a change that could be moved down over equal lines has been moved down, so an addition at the end of a run of equal lines is reported at the end of the run.",
 ["inputs"],"all pairs of texts x context lengths of one or more",
 "A few sample diffs have a unique placement; where placements are ambiguous the outcome depends on the interplay of several compaction steps, each tested on a single case at most.",
 ["src/diff/cleanup.rs","src/diff/mod.rs"],
 [("compact / shift_diff_up / shift_diff_down","src/diff/cleanup.rs"),("build_edit_script","src/diff/mod.rs")],
 ["create_patch: Hunk::lines"])
prop("C24","Diffing and merging cost is bounded",
 "Creating a patch takes a number of steps bounded by a constant times the size of the texts in bytes plus a constant times the number of lines times one more than the number of changed lines, and an amount of memory linear in the size of the texts; merging takes no more than that for its two diffs. No input makes the cost explode beyond it.",
 ["inputs"],"all pairs and triples of texts (equal lines, no equal lines, runs, shifted blocks) x context lengths",
 "The tests contain one wall-clock check for applying a patch and none for diffing or merging, and no small text shows a cost that grows faster than promised.",
 ["src/diff/myers.rs","src/diff/cleanup.rs","src/diff/mod.rs","src/utils.rs","src/merge/mod.rs"],
 [("find_middle_snake / conquer","src/diff/myers.rs"),("compact","src/diff/cleanup.rs"),("Classifier","src/utils.rs"),("merge_solutions","src/merge/mod.rs")],
 ["create_patch, merge and bytes twins: executed instructions and allocated bytes"])
prop("C25","Correctly numbered patches apply as written and can be undone",
 "If every hunk of an accepted patch fits the base text exactly where its old line numbers say and its new line numbers agree with that (also for hunks without context, pure insertions and deletions, insertions before deletions, several hunks, missing final newlines), apply gives exactly the text a strict tool gives that believes the numbers and never searches. Applying the reversed patch to that text gives back the base text, and the reversed patch prints and parses to an equal patch that does the same. A patch without hunks changes nothing.",
 ["inputs","configurations"],"all accepted patches (written by any tool) that fit a base text at their line numbers x those base texts",
 "The tests apply a few patches made by diffy itself and never reverse a parsed one; patches of other tools order lines, number empty ranges and space hunks in ways diffy's own never do.",
 ["src/apply.rs","src/patch/mod.rs","src/patch/parse.rs","src/patch/format.rs"],
 [("find_position / match_fragment / apply_hunk","src/apply.rs"),("Patch::reverse, Hunk::reverse, Line::reverse","src/patch/mod.rs"),("hunk printing","src/patch/format.rs")],
 ["Patch::from_str, apply, Patch::reverse, to_string and bytes twins"])
prop("C26","Patches compare and copy by content",
 "Two patches (or hunks, line ranges or lines) are equal if and only if everything their accessors report is equal: file names, ranges, headings, the kinds and contents of all lines in order. A clone or copy equals the value it was made from and reports the same, equal patches print the same, a line range's start, end, length, emptiness and range agree with each other, and reversing a line twice gives the line back.",
 ["inputs"],"all pairs of accepted patches",
 "Tests compare patches that are equal or hugely different; a field that is left out of a comparison or lost in a copy shows only for two patches that differ in that field alone.",
 ["src/patch/mod.rs"],
 [("PartialEq of Patch, Filename, Hunk, HunkRange, Line","src/patch/mod.rs"),("Clone of Patch, Filename, Hunk, Line","src/patch/mod.rs"),("HunkRange accessors, Line::reverse","src/patch/mod.rs")],
 ["== and clone on Patch, Hunk, HunkRange, Line"])
prop("C27","Lines are opaque: only whether they are equal matters",
 "Replacing the lines of all texts by other lines, equal ones by equal ones and different ones by different ones, changes nothing but the lines' contents: the created patch has the same hunks with the same ranges and kinds of lines, applying it to a third text gives the corresponding text or the same error, and a merge is clean or conflicted as before with corresponding output. Blank lines, white space, letter case, control and multi-byte characters, lines that look like patch syntax or conflict markers and very long lines are treated like any others.",
 ["inputs","configurations"],"all texts x all one-to-one replacements of their lines x context lengths x conflict styles",
 "A test fixes the contents of its lines; treating some contents specially (blank lines, trailing spaces, a carriage return, a common prefix beyond some length, a line that looks like a marker) shows only with such lines in a particular arrangement.",
 ["src/utils.rs","src/diff/mod.rs","src/diff/myers.rs","src/diff/cleanup.rs","src/merge/mod.rs","src/apply.rs"],
 [("Classifier","src/utils.rs"),("comparison of lines while patching","src/apply.rs"),("merge ranges","src/merge/mod.rs")],
 ["create_patch, apply, merge and bytes twins"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P),"properties")
