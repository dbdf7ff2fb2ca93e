"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = set("""c02-toffoli-uint8 c07-config-depth c14-cnot-lower c17-wide-column c23-toffoli-span c14-backend
c15-section c21-exception c21-config c23-index c23-crossing c22-stop c16-one c18-later-wires c11-cached
c21-loadtime c17-debug-depth c11-measured-all c09-swap-last c07-cap c22-symlink c22-depth c22-long c25-iter c08-state-buffer
c02-cx-big c02-toffoli-decimal c14-ascii c10-ttg-id c11-falsy c21-pickle-head c03-numpy-kron c08-cx-span c14-repeat c01-zero-level c21-name c18-markers c17-span c16-chain c14-file c07-join-custom c13-order""".split())
names = sorted(os.listdir(os.path.join(HERE, "seeded")))
print("| bug (all in `seeded/`) | needs | caught by |\n|---|---|---|")
for n in names:
    with open(os.path.join(HERE, "seeded", n, "meta.json")) as f:
        m = json.load(f)
    print("| %s%s | %s | %s |" % (n, " *" if n in FIRST_MISSED else "", m["needs"].replace("|", "\\|"), m["property"]))
