#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and the notes below."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
# how a bug that was missed at first is caught now
MISSED = {
 "c08-cell-number-single-precision": "largest grid was 70 000 cells; a streaming check of grids up to 2^31+9 cells was added",
 "c09-remainder-dropped": "degrees up to 1 000 003 were added",
 "c09-simpson-shared-total": "the racing branch is only taken by large rules; large rules with a preemption at atomic operations were added",
 "c15-equality-by-parameters": "only rules built by constructors were compared; equality of altered stored rules was added",
 "c15-single-precision-memo": "groups of confusable operations were added",
 "c15-leftover-samples": "panics in the integrand of every rule, followed by ordinary, nested and parallel use, were added",
 "c18-tiny-results-flushed": "power-of-two coefficients and maps down to the smallest normal numbers were added",
 "c20-width-times-sum": "the constant integrand 1 on the widest intervals was added",
 "c20-precision-buffer": "precisions and widths up to 65 535 were added",
}
MISSED.update({
 "c15-pure-closures": "every ordered pair of calls over thirteen types of integrands was added",
 "c05-work-in-debug-assert": "only builds with assertions were checked; the smallest engine is now built as a release build",
 "c18-standard-interval": "maps that reverse the interval were added",
 "c15-generation-wraps": "histories with any number of small operations between two larger ones were added",
 "c13-source-lost": "the source of an error was not part of the property",
 "c09-worker-shortcut": "calls from inside the pool were made in nested integrals (C19) only; six places in a pool were added",
 "c19-partial-sums-per-thread": "outer rules had too few cells for a waiting thread to take another one; only the real pool showed it, by luck; nestings of 4 by 2 points were added",
})
ALSO = {"c21-limiting-recurrence": "C22", "c16-third-kind-not-mirrored": "C22"}
rows = ["| change | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text()); i = d.name
    by = m["property"] + (", " + ALSO[i] if i in ALSO else "")
    if i in MISSED: by += "; missed at first: " + MISSED[i]
    rows.append("| " + " | ".join([i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), by]) + " |")
f = V / "DESIGN.md"; t = f.read_text()
head = t.split("<!-- bugs -->")[0]
f.write_text(head + "<!-- bugs -->\n" + "\n".join(rows) + "\n")
