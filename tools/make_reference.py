#!/usr/bin/env python3
"""One-off generator of /verif/reference (committed; no check runs this).

single_byte.txt comes from Python's own codecs, NOT from the repository, so that it is an independent
statement of each published mapping.  index_*.txt are the WHATWG indexes (version 2018-01-06) as they were in
the base commit, after comparing them with encoding_rs 0.8.35 over every byte pair and every scalar value.
"""
import sys
repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
names = ["ascii", "ibm_866"] + ["iso_8859_%d" % i for i in range(1, 17) if i != 12] + \
    ["koi8_r", "koi8_u", "mac_roman", "mac_cyrillic", "windows_874"] + ["windows_125%d" % i for i in range(9)]
py = {"ibm_866": "cp866"}
with open("/verif/reference/single_byte.txt", "w") as f:
    for n in names:
        codec = py.get(n, n.replace("windows_", "cp"))
        for b in range(256):
            try:
                c = ord(bytes([b]).decode(codec))
            except UnicodeDecodeError:
                continue
            f.write("%s %02X %X\n" % (n, b, c))
for src, dst in (("index-big5.txt", "index_big5.txt"), ("index-jis0208.txt", "index_jis0208.txt")):
    with open("/verif/reference/" + dst, "w") as f:
        for line in open(repo + "/encoding_tables/whatwg/" + src, encoding="utf-8"):
            p = line.split()
            if len(p) >= 2 and not p[0].startswith("#"):
                f.write("%d %X\n" % (int(p[0]), int(p[1], 16)))
