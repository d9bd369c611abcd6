#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "src/serializer/"
API = ["hongdown::format", "hongdown::format_with_warnings"]

p("C01", "Formatting never changes what a document means",
  "Formatting changes how Markdown is written, never what it renders to: the formatted document has the same blocks in the same nesting and order, the same text, emphasis, links, images, code, HTML and footnotes as the original. Only the changes the options ask for (punctuation, sentence case, a default code language) may show, and leftovers that render to nothing (unused link or footnote definitions) may go.",
  ["inputs", "configurations"],
  "every document built from the enumerated line, block-tree and inline grammars, under every enumerated option set",
  "Tests compare a few hundred hand-written documents with hand-written outputs; the number of block nestings and inline combinations is unbounded, and none of the tests re-parses the output.",
  [S+"mod.rs", S+"document.rs", S+"block.rs", S+"list.rs", S+"inline.rs", S+"escape.rs", S+"link.rs", S+"table.rs", S+"code.rs", S+"wrap.rs"],
  [("escaping of text that would be markup", S+"escape.rs"), ("container indentation", S+"list.rs, block.rs, document.rs"), ("escaping at new line starts", S+"wrap.rs")],
  API, [("output", "the Markdown written so far, on which later decisions depend", S+"state.rs"), ("list_item_indent/line_prefix_width", "what continuation lines start with", S+"state.rs")])

p("C02", "Formatting an already formatted document changes nothing",
  "Formatting the formatter's own output again, with the same options, gives the same text byte for byte, so `--check` passes right after `--write`.",
  ["inputs", "configurations"],
  "every document of the enumerated grammars (lines, block trees, inline atoms, long paragraphs) and every enumerated option set",
  "Some tests format twice, each for one document; idempotence can break for any combination of construct, width and option.",
  [S+"mod.rs", S+"document.rs", S+"wrap.rs", S+"inline.rs", S+"list.rs", S+"punctuation.rs", S+"heading.rs"],
  [("soft-break markers let short lines stay", S+"wrap.rs"), ("canonical list markers and indentation", S+"list.rs"), ("reference labels kept", S+"link.rs")],
  API + ["hongdown --check after hongdown --write"])

p("C03", "Formatting is total, deterministic and leaves clean output",
  "For every text and every valid options, formatting ends and returns a result: no panic, no hang, and the same output and warnings every time, whatever was formatted before. A non-empty output ends with exactly one newline when formatting is not disabled, has no internal marker characters, uses LF only where the source did, and does not begin with blank lines.",
  ["inputs", "histories", "configurations"],
  "every string up to a length bound over an alphabet of all the characters special to Markdown (plus tab, CR, NUL, wide and combining characters), and every order of formatting a pool of documents in one process",
  "Tests never feed unstructured text; panics come from slicing and index arithmetic on unusual strings.",
  ["src/lib.rs", S+"state.rs", S+"escape.rs", S+"wrap.rs", S+"inline.rs", S+"link.rs", S+"heading.rs", S+"punctuation.rs"],
  [("source extraction by line and column", S+"state.rs"), ("a fresh serializer per call", S+"mod.rs")], API)

p("C04", "Code is never altered",
  "The content of every fenced or indented code block and of every code span comes out exactly as it went in, together with the block's info string; no punctuation, sentence-case, wrapping or escaping rule touches it. The fence of each code block uses the configured character and is at least as long as configured and longer than any run of that character at the start of a line in the code; the default language is added only to blocks without an info string.",
  ["inputs", "configurations"],
  "every code content up to a bound over backticks, tildes, quotes, dashes, dots, spaces, blank lines and tabs, as fenced, indented and inline code, inside every container, with every info string and fence option enumerated",
  "Tests have a handful of code blocks with default options; fence collisions depend on content × fence character × length × container.",
  [S+"code.rs", S+"inline.rs", S+"escape.rs", S+"punctuation.rs", S+"wrap.rs"],
  [("fence length computation", S+"code.rs"), ("code spans copied from the source", S+"inline.rs")], API)

p("C05", "Disabled regions are kept byte for byte",
  "Text that a hongdown-disable-file, -disable-next-line, -disable-next-section or -disable…-enable directive covers comes out exactly as it was written, and the directive itself stays before it. Text that no directive covers is formatted as if the directives were not there, and directives inside code have no effect.",
  ["inputs", "histories"],
  "every sequence, up to a length bound, of directives and blocks whose unformatted spelling is recognisable",
  "Tests cover one directive at a time; sequences of directives form a state machine (mode × next block kind) that tests visit at a few points only.",
  [S+"document.rs", S+"state.rs"],
  [("skip-mode state machine", S+"document.rs"), ("directive parsing", S+"state.rs")], API,
  [("skip_mode", "None, NextBlock, UntilSection or Disabled", S+"state.rs")])

p("C06", "Links keep their target and definitions land in their section",
  "Every link and image keeps its text, target and title. Inline links to external URLs become reference links, relative and fragment links stay inline, and every definition a section uses is written at the end of that section, exactly once in the document, before the next section starts. Labels stay unambiguous: two links share a label only if they have the same target and title.",
  ["inputs"],
  "every sequence up to a bound of links (inline, full, collapsed, shortcut, image, badge; external, relative, fragment, mailto; equal and different texts, labels, targets and titles) spread over one to three sections and over containers",
  "Which label a link gets depends on all other links; tests fix a few combinations.",
  [S+"link.rs", S+"mod.rs", S+"state.rs", S+"document.rs"],
  [("pending and emitted references", S+"mod.rs flush_references"), ("label choice", S+"link.rs")], API,
  [("pending_references", "definitions to write at the end of the section", S+"state.rs"), ("emitted_references", "labels already written", S+"state.rs")])

p("C07", "Every referenced footnote keeps its definition, once, in its section",
  "Each footnote that is referenced has exactly one definition in the output, with the same content as before, and each reference still points at it. The definition is written at the end of the section that first refers to it, before the next section heading and before the link definitions of that section.",
  ["inputs"],
  "every arrangement, up to a bound, of references and definitions of one to three footnotes over up to three sections, with every kind of block and link inside the definitions",
  "The pending/emitted bookkeeping depends on the order of references, definitions and headings; tests sample a few orders.",
  [S+"mod.rs", S+"state.rs", S+"document.rs"],
  [("flush_footnotes_before", S+"mod.rs"), ("reference line collection", S+"document.rs")], API,
  [("footnotes.pending", "definitions waiting for the end of their section", S+"state.rs")])

p("C08", "Wrapping respects the line width and never alters the words",
  "Prose lines longer than the configured width are wrapped between words: the sequence of words is unchanged, no word, code span, link text or link title is split or joined, and a line of the output exceeds the width (in display columns, wide characters counting two) only if it could not have been broken earlier; lines are filled as far as the width less one column allows. A source line that fits stays as it is, unless it follows a line that had to be rewrapped (a footnote of one paragraph is always filled as a whole), and hard line breaks stay where they are. What starts the line counts, except for the marker on the first line of a list item and what is before it.",
  ["inputs", "configurations"],
  "every paragraph up to a bound built from words of every relevant width (narrow, wide, code span, bracketed link, emphasised), spaces, soft and hard breaks, in every container, for every width in a range",
  "Off-by-one errors at the right margin need the exact combination of widths; tests use a few long sentences.",
  [S+"wrap.rs", S+"inline.rs", S+"list.rs", S+"document.rs"],
  [("greedy filling", S+"wrap.rs add_token_to_line_with_prefix"), ("tokenizer with unbreakable units", S+"wrap.rs wrap_single_segment")], API)

p("C09", "Punctuation changes exactly what the options ask for",
  "Straight double and single quotes, apostrophes, three dots and the configured dash patterns are replaced by their typographic characters exactly where the documented rules say, each only if its option is on; every other character of the text stays. With all of these options off no character changes, and code, HTML, URLs, directives and front matter are never changed.",
  ["inputs", "configurations"],
  "every text up to a length bound over quotes, dots, dashes, letters, digits, brackets and spaces, under every combination of the punctuation options",
  "The rules interact (quotes with apostrophes, em with en dashes); tests have single sentences with one rule each.",
  [S+"punctuation.rs", S+"inline.rs"],
  [("transform_punctuation", S+"punctuation.rs")], API)

p("C10", "Sentence case changes only capitals, and only where allowed",
  "With sentence case on, a heading keeps its words and differs from the original only in the case of letters (and its quotation marks): the first word is capitalised, further words become lower case unless they are acronyms, proper nouns (built-in, configured or from a directive, common nouns excluded), the pronoun I, or follow a delimiter with a capital. Code, link targets and non-Latin text stay untouched; with sentence case off, or outside headings, no letter changes.",
  ["inputs", "configurations"],
  "every heading up to a bound of words from classes (plain, capitalised, acronym, proper noun, multi-word proper noun, hyphenated, slashed, quoted, code, link, CJK, pronoun), with separators, under every assignment of the noun lists through options and directives",
  "The words of a heading interact (quotes, delimiters, multi-word nouns, first word); tests have single examples per rule.",
  [S+"heading.rs", S+"inline.rs", S+"state.rs", "data/proper_nouns"],
  [("to_sentence_case", S+"heading.rs"), ("noun directives", S+"document.rs")], API)

p("C11", "Headings, spacing and breaks have the one documented layout",
  "Level 1 and 2 headings are underlined with exactly their display width when their option is on and use hashes otherwise; deeper levels use hashes. Exactly one blank line separates blocks, two precede a level 2 heading at the top level that follows other content than a heading, none comes first, and thematic breaks use the configured style and indentation.",
  ["inputs", "configurations"],
  "every sequence of block kinds up to a length bound at the top level, with heading texts of narrow, wide, combining and marked-up characters, under every heading and thematic-break option",
  "Spacing depends on pairs and triples of neighbouring blocks and pending definitions; tests have a few.",
  [S+"document.rs", S+"inline.rs", S+"mod.rs"],
  [("blank line logic between children", S+"document.rs"), ("setext underline width", S+"document.rs serialize_heading")], API)

p("C12", "Lists have the configured markers, numbers and indentation",
  "Every list item starts with the configured marker, leading and trailing spaces; ordered lists count up from their first number and use the marker of their nesting level; nested content and continuation lines align under the item's text or the configured indentation. Items of tight lists follow each other directly, items of loose lists with one blank line.",
  ["inputs", "configurations"],
  "every nesting of ordered, unordered, task, tight and loose lists up to depth three, with items of one or two blocks, and start numbers around each change of width, under every list option",
  "Marker width, number width, indentation and nesting level interact; tests cover default widths and few depths.",
  [S+"list.rs", S+"state.rs"],
  [("marker and indentation computation", S+"list.rs")], API,
  [("list_depth", "nesting level for markers", S+"state.rs"), ("ordered_list_depth", "nesting level of ordered lists", S+"state.rs")])

p("C13", "Tables keep their cells and line up",
  "A formatted table has the same rows, cells and column alignments as the original; the pipes of every row are at the same display column, wide characters counting two; a pipe inside a cell stays escaped.",
  ["inputs"],
  "every table up to a bound of rows and columns with cells from empty, narrow, wide, combining, escaped-pipe, code, link and emphasised contents and all alignments, with rows too short or too long, at the top level and in containers",
  "Column widths are maxima over all rows; tests have a few tables.",
  [S+"table.rs", S+"escape.rs", S+"inline.rs"],
  [("two-pass width computation", S+"table.rs")], API)

p("C14", "Warnings name exactly the undefined references and uneven rows",
  "A warning is given for every reference to an undefined link label and every table row with the wrong number of cells, with the line where it is, and for nothing else: not for defined labels, escaped brackets, code, HTML, footnotes, alerts, abbreviations, task boxes, or text in disabled regions. Warnings never change the output.",
  ["inputs"],
  "every sequence up to a bound of reference-like and table constructs, over lines and containers and inside disabled regions",
  "Tests sample single occurrences; line numbers and suppression depend on the position in the document.",
  [S+"document.rs", S+"table.rs", S+"state.rs"],
  [("walk_ast_for_undefined_refs", S+"document.rs"), ("collect_disabled_line_ranges", S+"document.rs")], ["hongdown::format_with_warnings", "stderr of the CLI"])

p("C15", "Every option value is accepted or refused as documented and has its effect",
  "Each configuration key accepts exactly its documented values and refuses all others with an error that names the problem; a key that is not set has the documented default. Each accepted value takes effect on the formatted output through the command line exactly as the same option does through the library.",
  ["inputs", "configurations"],
  "for every key: every value of its small domain, the boundary values of its numeric range, and values of every wrong type; for thematic breaks and dash patterns every short string over an alphabet",
  "Tests check a few values of each; a swapped or forgotten mapping of one key in the command line goes unnoticed because tests use the library.",
  ["src/config.rs", "src/main.rs"],
  [("validated newtypes", "src/config.rs"), ("Config to Options mapping", "src/main.rs")], ["hongdown::config::Config::from_toml", "hongdown --config"])

p("C16", "Configuration layers override each other in the documented order",
  "The effective configuration is the documented merge: defaults, then the system file, the legacy user file, the user file under the XDG directory, then the nearest project file in the current directory or its parents, each overriding what it sets; `no_inherit` in the project file drops all others. `--config` uses only the given file, and command line options override all of them.",
  ["configurations"],
  "every combination of presence, contents (unset, set to a value of its own, no_inherit, invalid) of all layers, including two nested project files, with and without --config and --line-width",
  "Tests merge two layers in memory; the command's discovery is exercised at single points. The number of combinations is in the thousands.",
  ["src/config.rs", "src/main.rs"],
  [("load_cascading", "src/config.rs"), ("merge_over", "src/config.rs"), ("load_config", "src/main.rs")], ["hongdown with HOME, XDG_CONFIG_HOME and the current directory in a scratch tree", "hongdown::config::Config::load_cascading"])

p("C17", "Exactly the selected files are processed",
  "Without file arguments the command processes exactly the files under the configuration's directory that match an include pattern and no exclude pattern, leaving out ignored files and .git when git_aware is on. A directory argument means all .md and .markdown files below it, a file argument means itself; every other file stays untouched.",
  ["configurations", "inputs"],
  "every combination of include and exclude patterns and git_aware over a tree with one file per relevant kind of path (depth, extension, hidden, ignored, in .git, symlink), and every subset of path arguments",
  "Tests use one or two patterns on a few files.",
  ["src/config.rs", "src/main.rs"],
  [("collect_files", "src/config.rs"), ("expand_paths", "src/main.rs")], ["hongdown --write / --check on a scratch tree"])

p("C18", "All ways to run the command agree with each other",
  "Standard output, --write, --check, --diff, --stdin and `-` all agree on one formatted text per input: --write stores it, --check fails exactly if it differs from the input and changes nothing, --diff prints a patch that turns the input into it. The exit status is failure exactly for unformatted files under --check and for errors, files that are already formatted are not written, and formatted texts and diffs are printed in argument order.",
  ["inputs", "configurations"],
  "every combination of mode and argument list up to three over formatted, unformatted, empty, missing, invalid UTF-8, unreadable and unwritable files, directories and standard input",
  "The command-line tests in the repository are few and use single files.",
  ["src/main.rs"],
  [("process_files_parallel/sequential/diff", "src/main.rs"), ("print_diff", "src/main.rs")], ["exit status, stdout, stderr and file contents of hongdown"])

p("C19", "Parallel runs give the result of a sequential run",
  "Whatever the order in which worker threads read, format and write, --write and --check over several files give the same files and exit status as handling them one after the other; each file gets only its own content, and a failure on one file neither hides another's nor stops the others.",
  ["schedules"],
  "all interleavings of the workers' file-system steps (open, read, write, close, report) for small sets of files, including one file named several times and by symlink, with a failing file in every position",
  "Tests run with the scheduler's luck and hardly any files.",
  ["src/main.rs"],
  [("rayon par_iter with atomics", "src/main.rs process_files_parallel"), ("remove_duplicates", "src/main.rs")], ["hongdown --write/--check under a scheduler that controls every file-system call"],
  [("has_error/all_formatted", "flags shared by the workers", "src/main.rs")])

p("C20", "A failed or interrupted run is reported and never corrupts a file silently",
  "If reading or writing a file fails, the command says so and exits with failure, handles the other files all the same with --write and --check, and leaves a file it could not read untouched. If the run is cut off at any point, every file holds its old or its new content.",
  ["crash_points", "fault_sequences"],
  "every file-system call of a run over up to three files failing with each relevant error (EACCES, ENOSPC, EIO, EINTR, short write), and the process being killed before each of them",
  "Tests never inject a fault.",
  ["src/main.rs"],
  [("error arms around fs::read_to_string and fs::write", "src/main.rs")], ["hongdown --write/--check with faults injected at the C library boundary"])

p("C21", "External code formatters are used safely",
  "A configured formatter gets exactly the code of the blocks whose language is exactly its own and whose info string does not opt out, and its output replaces the code if it succeeds in time. If it cannot be started, fails, is killed, answers with invalid text, or exceeds its timeout, the code stays as it was, one warning names the problem and line, the command neither hangs nor crashes, and no child process is left behind.",
  ["fault_sequences", "inputs"],
  "every combination of formatter behaviours (read none/some/all of its input, write none/some/much output early or late, to stdout and stderr, valid and invalid UTF-8, close pipes, exit 0/1, die by signal, hang) with code sizes around the pipe buffer and info strings",
  "Tests use cat and false; the behaviours differ in the order of pipe events.",
  [S+"formatter.rs", S+"code.rs", "src/main.rs"],
  [("threads for pipes and a deadline", S+"formatter.rs")], ["hongdown::format_with_warnings with code_formatters", "the CLI with [code_block.formatters]"])

p("C22", "The JavaScript options mean the same as the library's",
  "Each field of the options object of the WebAssembly package selects the library option of the same name: a valid value takes effect, a missing, null or out-of-range one leaves the documented default, one of a wrong type is refused or leaves the default, and the fields do not affect each other. Output and warnings are those of the library, and a code formatter callback's string replaces a block's code while null keeps it.",
  ["configurations"],
  "every field with every value of its small domain, boundary and invalid values, and all pairs of fields",
  "The repository's tests for this module run only with a feature that the default test run leaves off.",
  ["src/wasm.rs", S+"code.rs", "packages/wasm/src/index.ts"],
  [("JsOptions::to_options", "src/wasm.rs")], ["The real src/wasm.rs and index.ts, run natively with stand-ins for the JavaScript engine's crates; no hook"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
