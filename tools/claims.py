from checks_notes import NOTES_BY_ID

CLAIMS = {i: {"note": n} for i, n in NOTES_BY_ID.items()}
NA = {
    "C30": "The integrator is the compiled ASSIST/REBOUND C library fed by JPL ephemeris files; its source is not in this repository and floating-point N-body error over decades is out of reach of an SMT encoding.",
    "C31": "Crash points lie inside pandas/sqlite/HDF5 C writers and the kernel page cache; that code is outside this repository and cannot be symbolically executed here.",
}
HOOKS = None
NOTES = "Every check executes the current /repo/src/sorcha functions symbolically (values are SMT terms, every branch on them is explored), asserts the property on each path and has z3/cvc5 decide it for all values within the bounds; counterexamples are replayed on the real functions with concrete inputs before they are reported. Real arithmetic, floats only on replay; see DESIGN.md."
