#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
MODEL = "independent reference model in /verif/ref (itself checked by ref/validate against libgcrypt, hashlib and published vectors)"
T = {
 "C01": ("property-based differential testing against a reference model", "Random search over ciphers x keys x rounds x tweaks x blocks with the key length enumerated; trusts the " + MODEL),
 "C02": ("property-based testing: round-trip and metamorphic (aliasing, twin object) relations", "Random search with enumerated ciphers and key lengths; needs no model"),
 "C03": ("stateful property-based testing against freshly created objects", "Random histories over up to three live objects; the oracle is the library itself on a fresh object"),
 "C04": ("property-based differential testing against a reference model, plus enumerated lengths", "Random and enumerated messages, out lengths, salts, rounds; very long messages against digests computed beforehand by the model; trusts the " + MODEL),
 "C05": ("stateful property-based testing: partition and reuse metamorphic relation", "Random histories; oracle is the one-shot call"),
 "C06": ("property-based differential testing against a reference model", "Every construction over every primitive plus a synthetic block cipher of every block size; trusts the " + MODEL),
 "C07": ("stateful property-based testing: partition relation and forged tags", "Random histories, plus every single-bit tag change"),
 "C08": ("property-based differential testing against a reference model", "Every stream cipher and mode over every block cipher plus a synthetic cipher of every block size, counters near their carries; trusts the " + MODEL),
 "C09": ("stateful property-based testing: round-trip, partition and reuse relations", "Random histories, plus single calls above 4 GiB"),
 "C10": ("property-based differential testing against a reference model", "EAX over every cipher, EAX2 over every stream x MAC pair; trusts the " + MODEL),
 "C11": ("property-based testing: round-trip and generated forgeries", "Random inputs, partitions, recreate histories and single/multi-bit forgeries"),
 "C12": ("property-based differential testing against a reference model", "PBKDF2 and scrypt over every MAC with generated parameters, block counters beyond 2^8/2^16/2^24, and scrypt parameters around every size limit on emulated 32-bit processors; trusts the " + MODEL),
 "C13": ("property-based testing against an explicit model, exhaustive over small sizes", "Exhaustive over all pads and lengths up to two pads, plus random and corrupted buffers and lengths beyond 2^32"),
 "C14": ("stateful property-based testing under ASan, UBSan, LeakSanitizer and MSan", "Random API histories with exactly sized heap buffers; detects what the sanitizers can see"),
 "C15": ("fault enumeration inside property-based testing", "For generated calls every allocation index (and pairs) is made to fail"),
 "C16": ("property-based differential (noninterference) testing of released heap memory", "Pairs of runs that differ in secrets only; every released byte compared"),
 "C17": ("property-based testing with control-flow trace comparison", "Exactness against a model; recorded edge traces compared between inputs that differ"),
 "C18": ("property-based testing of concurrent histories under ThreadSanitizer", "Generated programs run alone and concurrently; results compared, races reported by TSan"),
 "C19": ("property-based testing against a scripted source", "Generated source behaviours (short reads, end, absence) and distributions"),
 "C20": ("property-based differential testing across build configurations", "The same generated histories on every build variant, all results compared; big-endian and 32-bit builds run on an emulator of our own"),
 "C21": ("property-based testing against arithmetic definitions, exhaustive over offsets and amounts", "Every macro and helper in each configuration, also on emulated processors of the other byte order and word size"),
  "C23": ("property-based differential (noninterference) testing of dead stack memory", "Sets of runs that differ in secrets only, every call on a stack of its own that is searched afterwards; secret-dependent temporaries below the stated sizes are not told from working registers"),
 "C24": ("stateful property-based testing against a reference model, with injected faults and scripted clocks", "lib/random.c as built without KRIPTO_UNIX/KRIPTO_WINDOWS, its clocks and key derivation replaced by recording stand-ins; the Windows variants are not built"),
 "C25": ("property-based testing over generated programs (differential against the program that includes every header)", "header prerequisites are those of the current tree: an interface header of the family first"),
 "C22": ("property-based testing of the limit accessors against a table, and of the effect of every length", "All descriptors, all lengths within limits"),
}
import re
src = open("check.py").read()
have = set(re.findall(r'"(C\d\d)": \(', src))
LEVEL = {"C15": "fault_enumeration"}
checks, na = [], []
for p, (t, n) in T.items():
    if p in have:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p, "technique": t, "level": LEVEL.get(p, "exploration"), "level_note": n})
    else:
        na.append({"property": p, "reason": "its check is still being built"})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. Genuine defects are repaired by fix: commits in /repo and listed in known_findings.txt."}
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
