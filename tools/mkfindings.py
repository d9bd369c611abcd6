#!/usr/bin/env python3
"""Writes known_findings.jsonl: genuine defects recorded (status known) and repaired (status fixed)."""
import json, os, subprocess
K = lambda p, i, w, how: dict(property=p, id=i, status="known", what=w, identified_by=how)
H = "the exact failing documents, options and outputs: hashes in known/%s.txt"
out = []
def both(i, w, props):
    for p in props: out.append(K(p, i, w, H % p))
both("dl-alert", "an alert that is the first block of a description is written as `:   > [!NOTE]` and indented lines that comrak reads as another structure (the layout is pinned by test_definition_list_with_alert_as_first_child)", ["C01", "C02"])
both("asterisk-runs", "three adjacent asterisks where the first is text and two open nested emphasis (`***a*a*`): escaping the first changes the run length and with it CommonMark's rule of three", ["C01", "C02"])
both("alert-spacing", "a block quote that begins with `[!NOTE]` after no space or two after its `>`, or after an empty line, is no alert for comrak, but is written with one space and becomes one. For GitHub `>[!NOTE]` is an alert already, so whether to escape it is for the maintainer to decide", ["C01", "C02"])
both("narrow-indent", "`indent_width` less than the width of the marker (2 with the default spaces): nested lists are written left of the content of the item around them, and are no longer nested (the layout is pinned by test_list_indent_width_two)", ["C01", "C02"])
both("dl-merge", "two description lists with nothing between them but definitions, which move or are dropped, become one list: Markdown has no other marker for the second one", ["C01"])
both("dropped-footnote-tightens", "an unreferenced footnote definition inside a list item is dropped, and a list that was loose only because of it becomes tight", ["C01"])
both("footnote-in-footnote", "a footnote definition or abbreviation that begins another footnote definition is dropped, and its blank line goes at the second run only", ["C02"])
both("table-code", "a code span in a table cell with more backticks than it needs and a backslash before an escaped pipe: the pipe gets another backslash (which means the same to comrak) and only the second run shortens the delimiters", ["C02"])
both("wrapped-hyphens", "a line of hyphens that wrapping leaves alone, or `[x]:` at the start of a wrapped footnote, is escaped after the lines were measured; the backslash no longer fits at the second run, at widths below 14", ["C02"])
both("deep-nesting", "a block quote nested more than some 8000 levels deep overflows the stack (recursion of parser and serializer over the tree); nobody writes such a document, and bounding it needs another design", ["C03"])
both("line-ends-in-links", "after a link whose label or target contains a line end, the parser counts the lines of its paragraph one too low, and the warnings for what follows there name the line before", ["C14"])
both("ordered-list-pad", "`pad = \"end\"` in [ordered_list] is accepted but nothing reads it, so it does not change the output; which layout it should select is nowhere stated, so no repair is tried", ["C15"])
both("write-in-place", "`--write` truncates a file and then writes it (std::fs::write): a run cut off in between leaves the file empty, or with the beginning of its new text. Replacing the file atomically would break hard links and change owners and modes, so the repair is a decision for the maintainer", ["C20"])
try: out += json.load(open(os.path.join(os.path.dirname(__file__), "more_findings.json")))
except FileNotFoundError: pass
fixed = json.load(open(os.path.join(os.path.dirname(__file__), "fixed.json")))
for prop, commit, what in fixed:
    out.append(dict(property=prop, id=commit, status="fixed", what=f"fixed: property={prop} {commit} {what}"))
with open(os.path.join(os.path.dirname(__file__), "..", "known_findings.jsonl"), "w") as f:
    for o in out: f.write(json.dumps(o, ensure_ascii=False) + "\n")
