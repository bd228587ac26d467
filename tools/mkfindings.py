#!/usr/bin/env python3
"""Writes /verif/known_findings.txt: the defects repaired in /repo (none is left unrepaired)."""
import os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROP = """7cfdda3 C20
216d48e C20
3aecee3 C19
d05e3ca C19
d9be2d2 C19
672e63e C19
fbcd75e C24
db9cc07 C18
16df69b C23
506b409 C22
cd6c8d5 C22
d660a51 C12
45f4e42 C12
1f9c4b2 C22
b15d1c0 C12
7e614dd C12
4c2c31b C02
fa6e1e1 C02
56c3804 C19
ac31103 C04
be0ce04 C13
31487ac C04
48a6b26 C01
ec2f969 C04
c87a791 C19
cb903af C04
3d9a3bb C05
086e8c9 C05
b6480ab C05
b73ae8b C15
ce80bef C06
fc930f1 C06
be5b2ff C09
07aed5f C07
3e90640 C07
1b0fe64 C19
1c883b7 C16
9af39a6 C19
d961feb C15
b3f8b87 C16
f934516 C08
eda2b4d C08
3d0bc63 C15
8ebb2a7 C16
492b578 C08
c82984f C09
b08ad0a C19
9c6685a C11
ee5f62a C11
b488f9b C21
ee19821 C21
7b32aa5 C21
4cb7f6f C21
532dd45 C21
f4f9de7 C15
4ccd5f1 C14
10a1131 C07
f629321 C11
0c9d42d C23"""
prop = dict(l.split() for l in PROP.split("\n"))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "0578c7f..HEAD"], capture_output=True, text=True).stdout
with open(os.path.join(V, "known_findings.txt"), "w") as f:
    f.write("# Genuine defects of gRedis found by the checks.  'fixed:' entries suppress nothing.\n")
    for l in log.splitlines():
        h, s = l.split(" ", 1)
        if s.startswith("fix: "):
            f.write("fixed: property=%s %s %s\n" % (prop[h[:7]], h, s[5:]))
