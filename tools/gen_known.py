#!/usr/bin/env python3
"""Writes known_findings.txt: one line per repaired defect, with the commit taken from /repo's history."""
import os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # words of the commit subject -> property
 ("is_any predicates", "C15"), ("inequality of nodes", "C15"), ("reversed iteration", "C01"), ("copies of a node", "C01"), ("nodes were never contained", "C21"),
 ("seeking a boundary", "C11"), ("storage that takes a part", "C10"), ("a refused write within", "C10"), ("unset fields of a column", "C15"), ("nodes grouped by span", "C17"),
 ("a list of nodes was shown", "C25"), ("Java nodes changed their hash", "C29"), ("Java nodes grouped by span", "C34"),
 ("iterations of a layer in progress", "C40"), ("Java iterations of a layer", "C40"), ("documents read from a JSON object shared", "C39"), ("Java spans gave subsequences", "C34"), ("float64 fields get", "C07"), ("bool and string types with a default", "C07"), ("trim text spans", "C08"), ("indexing a text span", "C08"),
 ("retain works with gaps", "C01"), ("nodes that are not attached can be printed", "C25"), ("a value of the wrong kind", "C07"),
 ("adding an attached node", "C02"), ("add_many validates nodes", "C07"), ("add_field refuses", "C22"), ("remove_layer cascades", "C22"),
 ("tolerating extra fields", "C05"), ("references and spans into another", "C05"), ("documents with extension fields", "C03"),
 ("decoded documents validate", "C07"), ("selected texts", "C12"), ("document() of an encoded", "C12"), ("bytes in document properties", "C03"),
 ("encoded documents keep their reference", "C12"), ("encoded documents backed by a file", "C12"), ("children over several", "C16"),
 ("dfs_leaves", "C16"), ("group_by_span", "C17"), ("booleans are boolean", "C23"), ("node lists expose", "C23"), ("node lists accept", "C23"),
 ("queries over queries", "C15"), ("XML export keeps characters", "C24"), ("XML export supports binary", "C24"), ("XML export with materialised", "C24"),
 ("XML export is well-formed", "C24"), ("printing without a display width", "C25"), ("max_columns option", "C25"), ("wikipedia URN", "C25"),
 ("text names are escaped", "C25"), ("lists of detached nodes", "C25"), ("layers with a percent", "C25"), ("reading boundary-framed", "C11"),
 ("an index finds its files", "C14"), ("documents report the position", "C09"), ("Java boundary markers", "C28"), ("Java boundary reader stays", "C28"),
 ("Java boundary reader ends", "C28"), ("a failing sort", "C02"), ("empty mappings", "C19"), ("sub-slicing a span by a tuple", "C08"),
 ("collection reader accepts storage", "C09"),
 ("Java Layer", "C29"), ("Java Document.", "C30"), ("Java schema validation", "C30"), ("Java documents made from one", "C30"),
 ("Java documents with node reference", "C31"), ("Java documents with binary", "C31"), ("Java documents with extension prop", "C31"), ("Java decoding", "C31"),
 ("Java spans created", "C31"), ("Java spans changed", "C31"), ("Java texts refused", "C31"), ("Java encoding", "C31"), ("Java concrete nodes", "C31"), ("Java span fields", "C31"),
 ("Java nodes that refer", "C36"), ("Java node builders refused", "C36"), ("Java node spans with removed", "C36"), ("Java DocumentWritable", "C37"), ("Java floating point values", "C36"), ("Java GroupBySpan", "C34"), ("Java DominantRight", "C34"),
 ("Java readers mixed", "C33"), ("Java document readers given", "C32"), ("Java boundary files", "C32"), ("Java skip(n)", "C32"), ("Java document files without", "C32"), ("Java decompression", "C35"),
 ("Java MsgpackDocument", "C35"), ("the schema a lazy Java", "C35"), ("Java documents assembled", "C35"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()
out = ["# fixed: property=<id> <commit> <what failed>   (repaired defects; suppresses nothing)",
       "# There are no known findings that are not repaired."]
used = set()
for line in log:
    h, subject = line.split(" ", 1)
    hit = [k for k in MAP if subject[5:].startswith(k[0])]
    assert len(hit) == 1, (line, hit)
    used.add(hit[0])
    out.append("fixed: property=%s %s %s" % (hit[0][1], h, subject[5:]))
assert used == set(MAP), set(MAP) - used
open(os.path.join(root, "known_findings.txt"), "w").write("\n".join(out) + "\n")
