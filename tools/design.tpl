# Solver-based checking of cfdtools

## Method
`symx/` is a symbolic executor for the Python code of cfdtools. On every run the modules of `/repo/cfdtools` are loaded from the working
tree through a small source transformation (`symx/loader.py`: tests become solver forks, formatted strings and a few
builtins are dispatched to symbolic-aware versions); the rest is CPython executing the real functions on symbolic values:

- integers are z3 Int terms (with range knowledge from the machine type), 64-bit floats are either opaque 64-bit vectors (storage
  properties: "bit for bit") or exact reals (geometric and algebraic properties), booleans are z3 Bools;
- `numpy`, `struct`, files (`open`, `pathlib`, `os`), `h5py`, `pyvista`/`scipy` and the clock are replaced by models
  (`symx/array.py`, `bytesx.py`, `vfs.py`, `stub_h5.py`, `stub_vtk.py`) which implement the documented semantics of the calls the code makes;
- a branch on a symbolic value asks z3 which sides are feasible and both are explored (depth first re-execution); dictionary keys,
  set members and sort comparisons fork on equality/order;
- an assertion of a scenario is a formula; at the end of each path z3 decides `path condition and not assertion`. `unsat` means that it holds for every
  value on this path.

Each scenario is one Python function `fn(w, **cfg)` which runs in two worlds: the symbolic one and the concrete one (real CPython,
numpy, h5py, pyvista and a scratch directory, unmodified code). A counterexample is replayed in the concrete world and only
reported (`VIOLATION`, exit 1) if it fails there. A witness of every explored path is replayed too (all of the first ones, then one of 16) and the values
observed by the scenario are compared: this validates the models on each run. A failing witness is a violation as well.

Verdicts: exit 0: every assertion was discharged, or is listed as `INCONCLUSIVE` and counted in the evidence (configuration whose
encoding meets an unsupported function, query without answer, counterexample of the models which the real code does not reproduce;
`SYMX_STRICT=1` turns the last one into exit 2; on the current tree there are none but those stated in the evidence); exit 1: reproduced violation;
exit 2: error of the machinery (assertion never reached in a fully decided scenario, nothing decided).

A numpy call with an argument that the model does not know is refused (configuration undecided), never silently ignored.

Bounds are sizes (numbers of nodes, cells, faces, zones, files, operations): the contents are symbolic. What is outside is stated per check in
`META['outside']` and written to the evidence file.

Oracles do not share code with cfdtools: `checks/ic3fmt.py` (independent model of the IC3 restart format),
`checks/shapes.py` (outward face tables, self-checked by geometry), and direct formulas over the symbolic inputs.

## Properties
@PROPS@

## Findings
See `known_findings.json`. Defects repaired by `fix:` commits in /repo are listed there as `fixed`.
@FINDINGS@

## Planted bugs (`seeded/`) and the checks that catch them
@SEEDS@

## Limits
- Logging and printing are removed from the symbolic execution, except in the scenarios which observe messages (C21, C23, C24).
- Floating point rounding: values are opaque bits or exact reals; results that depend on rounding are only checked by the concrete
  replays (with a tolerance).
- Text formats are symbolic in their numbers (a number token is a symbolic value), not in their white space.
