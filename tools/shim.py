#!/usr/bin/env python3
"""Callers of the C API that go through its published header: prints C, given the header's text."""
import re, sys

# Which arguments each function has, by the names the documentation uses; X_length goes with X except for seeds.
CALLS = [
    ("system_parameters_create", ["seed"]),
    ("issuer_create", ["system_parameters", "seed"]),
    ("issuer_new", ["system_parameters", "keypair"]),
    ("issuer_get_issuer_parameters", ["issuer"]),
    ("issuer_issue", ["issuer", "phone_number", "seed"]),
    ("issuer_verify", ["issuer", "presentation"]),
    ("issuer_verify_roster_membership", ["issuer", "verified_credential"]),
    ("user_obtain_finish", ["phone_number", "system_parameters", "issuer_parameters", "issuance"]),
    ("user_show", ["user", "roster_entry_commitment", "seed"]),
    ("roster_entry_commitment_create", ["phone_number", "system_parameters", "seed"]),
    ("roster_entry_commitment_remove_opening", ["roster_entry_commitment"]),
    ("roster_entry_commitment_open", ["roster_entry_commitment", "phone_number", "system_parameters"]),
]
LENGTHS = ["LENGTH_SEED", "LENGTH_SYSTEM_PARAMETERS", "LENGTH_ISSUER", "LENGTH_ISSUER_PARAMETERS", "LENGTH_ISSUER_KEYPAIR", "LENGTH_USER",
           "LENGTH_CREDENTIAL_ISSUANCE", "LENGTH_CREDENTIAL_PRESENTATION", "LENGTH_VERIFIED_CREDENTIAL",
           "LENGTH_ROSTER_ENTRY_COMMITMENT", "LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING"]


def declared(text):
    """The argument names of every function, in the header's order."""
    text = re.sub(r"/\*.*?\*/|//[^\n]*", " ", text, flags=re.S)
    return {m.group(1): [re.findall(r"\w+", a)[-1] for a in m.group(2).split(",") if re.findall(r"\w+", a)]
            for m in re.finditer(r"(\w+)\s*\(([^()]*)\)\s*;", text)}


def shim(text):
    names = declared(text)
    out = ['#include "credential.h"', "#include <stdint.h>", "struct shim_result { uint64_t len; const uint8_t *ptr; };"]
    for f, args in CALLS:
        mine = [x for a in args for x in ([a] if a == "seed" else [a, a + "_length"])]
        theirs = names.get(f, mine)
        # arguments under other names are taken to be in the documented order
        if sorted(theirs) != sorted(mine): theirs = mine
        decl = ", ".join("%s%s" % ("uint64_t " if x.endswith("_length") else "const uint8_t *", x) for x in mine)
        out.append("struct shim_result shim_%s(%s) { buf_t r = %s(%s); struct shim_result s = { r.len, r.ptr }; return s; }" % (f, decl, f, ", ".join(theirs)))
    out.append("uint64_t shim_length(int i) { switch (i) {")
    out += ["case %d: return %s;" % (i, n) for i, n in enumerate(LENGTHS)]
    out.append("default: return 0; } }")
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    sys.stdout.write(shim(open(sys.argv[1]).read()))
