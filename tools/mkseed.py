"""mkseed.py ID PROPERTY FILE <<< python: OLD/NEW... ; helper used interactively: mk(id, prop, [(file, old, new)], needs, breaks, demo_cc, sources, libs)"""
import json, os, subprocess, shutil
def mk(id, prop, edits, needs, breaks, demo_cc, sources=(), libs="", flags=""):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
    try:
        for f, old, new in edits:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", "/repo", "diff"]))
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cc", "w").write(demo_cc)
    inc = " ".join("-I/repo/" + x for x in ". utils extractor extractor/features decoder mteval klm training/utils word-aligner _build _build/decoder".split()).replace("/repo/.", "/repo")
    open(d + "/demo.sh", "w").write("""#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
C=; [ -f /opt/vp/cmake/compat.h ] && C="-include /opt/vp/cmake/compat.h"
cd "$T" || exit 2
g++ -std=c++14 -O1 -g -w -D_GLIBCXX_ASSERTIONS %s -DHAVE_CONFIG_H -DKENLM_MAX_ORDER=6 $C %s -isystem /usr/include/eigen3 "$D/demo.cc" %s -o "$T/demo" -fopenmp %s || exit 2
"$T/demo"
""" % (flags, inc, " ".join("/repo/" + s for s in sources), libs))
    os.chmod(d + "/demo.sh", 0o755)
EXT = ["extractor/rule_extractor_helper.cc", "extractor/rule_extractor.cc", "extractor/target_phrase_extractor.cc", "extractor/phrase.cc", "extractor/phrase_builder.cc", "extractor/vocabulary.cc", "extractor/scorer.cc", "extractor/features/feature.cc", "extractor/rule.cc", "extractor/phrase_location.cc", "extractor/data_array.cc", "extractor/alignment.cc", "utils/filelib.cc", "utils/gzstream.cc"]
EXTLIB = "-lz"
