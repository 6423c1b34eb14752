#!/usr/bin/env python3
"""The table of planted bugs in DESIGN.md, from seeded/*/meta.json."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# those that were missed first, and what was added
MISSED = [
    ("seek-multiplies-in-floats", "the harness now seeks to exact frame times at rates where single precision rounds the wrong way"),
    ("cli-extension-replaced-in-name", "file names with an extension inside the stem were added"),
    ("cli-keeps-tail-of-old-output", "outputs of all kinds are there before the run, and the end of the new ones is looked at"),
    ("count-remembered-by-frames", "counts between all steps, and another stream in as many calls after rewinding"),
    ("histories-not-counted", "Damage.tla resizes the lists of a file, elements and length"),
    ("unary-run-limited", "long silent streams with single spikes"),
    ("wav-extensible-accepted", "extensible files whose subformat can't be PCM have to be refused"),
    ("wav-decode-at-most-65536", "wav streams of more than 131072 samples"),
    ("wav-cursor-of-sixteen-bits", "the same"),
    ("level-of-a-byte", "levels beyond a byte, and files compared with those of level 10"),
    ("triangle-table-continues-uniform", "tables of up to 200000 values"),
    ("bit-after-the-end-panics", "frames that start where the stream ends, among the values of Damage.tla"),
    ("bits-required-for-one-more", "the words that n bits require became part of C20, for n up to 2^64"),
    ("stack-never-shorter-than-pushed", "looking back further than the stack remembers became part of C24"),
    ("count-of-whole-milliseconds", "streams of more than 2^24 samples (GiantTrace)"),
    ("load-reads-at-most-a-megabyte", "files of megabytes"),
    ("eight-bit-of-sixteen-bit-length", "foreign files of more than 65535 frames"),
    ("wav-rate-of-seventeen-bits", "rates of all 32 bits in saved wav files"),
    ("exponent-remembered-for-alike-blocks", "codecs that get almost the same calls right before"),
    ("frames-start-in-thirty-two-bits", "streams of more than 2^32 bits"),
]


def main():
    by = {}
    for p in glob.glob(ROOT + "/seeded/*/meta.json"):
        m = json.load(open(p))
        by.setdefault(m["property"], []).append(os.path.basename(os.path.dirname(p)))
    missed = [m for m, _ in MISSED]
    lines = ["<!-- plants -->", "| Check | Plants it reports |", "|---|---|"]
    for c in sorted(by):
        lines.append("| %s | %s |" % (c, ", ".join(i + " (*)" * (i in missed) for i in sorted(by[c]))))
    lines += ["", "(*) Missed first, and what was added: " + "; ".join("`%s`: %s" % m for m in MISSED) + ".", "<!-- /plants -->"]
    path = ROOT + "/DESIGN.md"
    text = open(path).read()
    text = re.sub("<!-- plants -->.*<!-- /plants -->", lambda _: "\n".join(lines), text, flags=re.S)
    open(path, "w").write(text)


main()
