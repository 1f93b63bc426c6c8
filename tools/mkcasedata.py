"""Writes spec/CaseData.tla from Python's copy of the Unicode character database (full default,
context independent mappings)."""
import os
import unicodedata
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "CaseData.tla")
with open(out, "w") as f:
    f.write("------------------------------ MODULE CaseData ------------------------------\n")
    f.write("(* Generated by tools/mkcasedata.py from Unicode %s. *)\n" % unicodedata.unidata_version)
    f.write("EXTENDS Integers\n")
    for name, fn in (("UpTab", str.upper), ("LowTab", str.lower)):
        rows = []
        for cp in range(0x110000):
            if 0xD800 <= cp <= 0xDFFF:
                continue
            m = [ord(x) for x in fn(chr(cp))]
            if m != [cp]:
                rows.append("<<%d, <<%s>>>>" % (cp, ", ".join(map(str, m))))
        f.write("%s == <<\n" % name)
        for i in range(0, len(rows), 6):
            f.write("  " + ", ".join(rows[i:i + 6]) + (",\n" if i + 6 < len(rows) else "\n"))
        f.write(">>\n")
    f.write("=============================================================================\n")
