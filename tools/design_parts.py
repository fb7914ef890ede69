HEAD='''# Property-based verification of freesif

freesif reads SESAM interface files (formatted `.FEM`/`.SIF` text, unformatted
`.SIU` binary), stores every record in HDF5 tables, and offers the data as
numpy arrays (structural models and results, hydrodynamic results), as `.vtu`
and `.vtf` files, and through a few stress calculations. The 24 properties in
`properties.jsonl` follow that path:

* conversion: C01-C05 (fidelity, both physical forms, unsupported records,
  independence of history, superelement hierarchies), C19 (writing formatted
  files, counting);
* structural answers: C06-C10 (transformations, selections, node results,
  element results, decomposed stresses and properties);
* hydrodynamic answers: C11-C13;
* the open file as an object: C14, C21;
* wrong requests and damaged files: C22, C23;
* the whole chain, from interface file to export: C24;
* output: C15, C16 (vtu), C20 (vtf);
* calculations: C17, C18.

Every property is decided by generated-input search; none is not applicable.

## Machinery (`/verif/pbt`)

* `run.py Cxx [--tier quick|thorough] [--shards N] [--replay FILE]` runs one
  check. It imports `freesif` from the working tree of `/repo`
  (`FREESIF_REPO` overrides it for experiments), so there is nothing to build;
  no hooks are needed in `/repo`.
* `core.py`: a check consists of facets, each a Hypothesis strategy of
  JSON-able cases and a function that runs one case in a scratch directory of
  its own and raises `Violation` or returns labels (`nt` = non-trivial by the
  stated rule). Facets are split over 8 processes with seeds derived from
  `VERIF_SEED`; a failure is shrunk by Hypothesis (bounded in time) and written
  as a replay file. An exception of the package on a legal input is a
  violation as well; a case that exceeds the time limit of its facet is too.
  Evidence (cases, distinct non-trivial cases, labels, samples) is collected
  from what really ran.
* Independent models, written from the format description and not with the
  parsers: `records.py` (every record type: layout, optional fields, ranges,
  and how it is stored), `sif.py` (writers of both physical forms and a plain
  reader), `gen.py` (record sequences), `models.py` (structural models and
  their results), `shells.py`/`elemres.py` (extrapolation formulas), `hier.py`
  (superelement trees), `hydro.py` (hydrodynamic models), `vtu.py`
  (a .vtu reader), `fresh.py` (conversions in a process that has done nothing),
  `answers.py`/`sources.py` (calls that make sense for a data set).
* Quick: about 20-40 s per check on 8 cores: every facet runs its cases in two
  rounds with different seeds, so that one unlucky generator state does not
  decide. Thorough: 20-200 times the cases and larger structures (up to about
  an hour per check; `PBT_BUDGET` limits the seconds).

The check of a property is only as strong as its generator, so the generators
were measured with planted bugs (`seeded/`) and with a mutation campaign
(`tools/mutate.py`), see below.

## Properties
'''
ORACLE={
'C01':'An independent decoder of the generated records (`records.py`) gives the expected table rows and arrays; compared value by value (exact in float32 / int32), including start and stop of variable-length data.',
'C02':'Differential: all tables, arrays and attributes of the two conversions are equal, and equal to the independent decoder (so that the same mistake in both is seen).',
'C03':'Metamorphic: conversion with the records inserted equals the conversion without; restricted conversion equals the full one restricted to the types. Only records stored by freesif are compared.',
'C04':'Differential against a forked process that has imported the package and converted nothing, plus a model of what the target must hold after the sequence.',
'C05':'The generated tree gives the expected set of groups, their attributes and the records in each, and the classes of the data objects.',
'C06':'Product of the generated matrices (float64) along the path of the superelement.',
'C07':'The generated model: per selected element its own node coordinates, node numbers, type and number.',
'C08':'The generated values, per case and node.',
'C09':'Stored values for first-order elements; least-squares fit of the (bi)linear field through the generated result points evaluated at the nodes for second-order elements (independent of the matrices in the code), tolerance 1e-5 of the sum of magnitudes.',
'C10':'As C09 with the definition of decomposed stresses; the generated properties.',
'C11':'The generated values at every index; exact, elevation to 1e-6.',
'C12':'The generated matrices and properties; exact.',
'C13':'The generated values; exact, periods and degrees to 1e-6.',
'C14':'A model of which handles are open; answers of a file opened alone.',
'C15':'XML parser plus independent decoding of the base64/appended data, and a state model of the writer (which calls are legal when, what must be in the document).',
'C16':'Independent table of VTK node orders; geometry compared element by element with the caller\'s arrays, results found under the name of the node they belong to.',
'C17':'LAPACK `eigvalsh` of the tensor; von Mises from its definition on the principal stresses; the state in rotated axes.',
'C18':'The definition, slice by slice / pair by pair.',
'C19':'Round trip (nine significant digits); true numbers of the generated records.',
'C20':'A model of the calls, and an independent reader of the .vtf text.',
'C21':'Differential between the ways of opening; an independent grammar of legal names.',
'C22':'By construction exactly one thing of a request does not exist, so it must raise the documented class; answers and directory listing before and after.',
'C23':'Metamorphic: failure, or equality with the conversion of the complete file.',
'C24':'The generated records, taken through the definitions of each step (matrices along the path, extrapolation by least squares, eigenvalues); files decoded by the readers of C15 and C20.',
}
WHY={
'C01':'The tests convert a few small files; defects sit in runs, buffer limits (100 000 rows), optional fields and rare record types.',
'C02':'The tests have no file in both forms and only one way of splitting.',
'C03':'No test file has unsupported records between the rows of a type.',
'C04':'Every test converts into a fresh target; the parser keeps module-level state, which only histories show.',
'C05':'The tests have two hierarchies, without missing files, repeated types at several levels or permuted references.',
'C06':'The test hierarchy has one level of transformation that commutes with most others.',
'C07':'The tests sample few selections of one model with consecutive numbers.',
'C08':'The tests compare one real case.',
'C09':'The tests compare shapes and few values; order, complex and second-order values are open.',
'C10':'As C09; properties in arbitrary order and sharing do not occur.',
'C11':'The test files have one body and sorted axes, so that transposed axes or wrong bodies go unseen.',
'C12':'One body only, so that every mix-up of pairs is invisible.',
'C13':'As C11; panels numbered 1.. in one part.',
'C14':'No test keeps several files open and closes them in various orders.',
'C15':'The tests look at few documents; the order of calls and the encodings are a large space.',
'C16':'The tests write each array once, from packed arrays, with one element type per grid.',
'C17':'Tests have a handful of states; degenerate ones and leading shapes are where it fails.',
'C18':'Ties, integer limits, shared nodes.',
'C19':'No test writes records.',
'C20':'No test reads back what was written with several element types.',
'C21':'No test compares the ways of opening.',
'C22':'No test asks for something that is not there.',
'C23':'No test reads a damaged file.',
'C24':'The tests check steps one by one; what two steps disagree about shows only in the end.',
}
TAIL='''## Decisions on alarms

False alarms met while building, all corrected in the machinery:

* TDSCATTER: the nine-character name does not fit the eight-character field of
  a record header, so no file can contain it; it is not generated.
* C04: two groups of the same name in one list are refused; the model of the
  expected failure follows that.
* Level 1 of a model without a hierarchy is not asserted beyond "identity or
  refused" (C06).
* GUSYI: two optional fields (not three): an earlier "fix" (1950667) was wrong
  and has been reverted by 5c3e609; records.py follows the original code.
* `numpy.linalg.eigvals` returning a complex array with zero imaginary part is
  not a violation of C17.
* Records with a negative first value stand before a run of their type (that
  is how the format uses them); inside a run they are out of the domain (C03).
* Same-named files opened directly at the same time: documented limitation in
  `open_sif`, out of the domain (C14, C21).

Out of the domain (not generated): element results, section properties and
thicknesses of selections without such elements, non-ASCII text, calls on a VtuWriter after `close`, mixed first and second
order shells in one answer, different transverse shears on the two sides of
thick shells, `pos='respts'` (not implemented), panels or time steps that are
not ascending, second IEND records in cut files, files with both frequencies and times, several conditions per
body, `HigherLevelData.get_nodes` (a stub), VTF names with double quotes or
line ends, VTF numbers of 1e9 and more, result points repeated for one
element, sets given as bytes, prefixes starting with `_p_`, `_i_` or `_v_`
(reserved or hidden by PyTables).

## Defects of freesif found

All were repaired by small `fix:` commits (see `known_findings.json`, section
`fixed`); no finding is left open. They range over lost imaginary parts
(C08), truncated section data (C01), records swallowed after text lines (C03),
state left by failed or earlier conversions (C04), missing transformations
(C06), arrays modified by the vtu writer (C16), to the VTF module that did not
work at all on Python 3 (C20).

The last ones: lower-level files were read in the format of the top-level file
(C05); the look-up of element results by element and node number gave
the position of another node in six-node triangles, whose results go round the
element while their nodes come corners first (C18, C24); cut formatted files were converted as complete (C23),
result cases that do not exist were left out silently and body 0 stood for all
bodies (C22), `open_sif` of a link, a missing suffix, hydrodynamic axes that
were handed out as the stored arrays (a caller who changed one changed the
data set, 9a302f1), selections without elements and .vtu pieces without
elements or with data that cannot be written, result cases that have no (or
fewer) results of the requested type, which were answered with a mixture of the
other cases' results whenever their number could be divided (C22).

## What planted bugs and mutants added to the generators

Changes missed at first, and what now catches them: `c14-values` (answers
compared only in shape when two files are open; now in value), `c21-memory`
(memory used by `in_mem` files was not looked at; now files in the directory
and the process' own handles are), and from the rounds of hand-written mutants
the following inputs, all part of the checks now:

* sizes: "large" facets in C01, C05 (over a hundred repetitions), C07-C13 and
  C15-C20; nine and more components; two-digit grids; wide and deep
  hierarchies; more than 100 000 rows; models of more nodes and elements than
  16 bits can count (C07-C10, C18);
* numbers: numpy integers as case, body, index or level; result magnitudes
  1e-12..1e9; nearly equal directions, frequencies, times and set names;
  non-contiguous, F-ordered and integer arrays and matrices; decreasing and
  far apart numbers;
* text: text lines between records of any length, leading underscores in
  prefixes, blank lines and replaced scalars in .vtf files, names with blanks;
* structure: sets without elements, with members given twice, without a name,
  in several records; disabled element types; links and other directories;
  noise records in front of and behind every run;
* use: the same request with named, left out and positional arguments (C06-C10);
  selections without elements (C06-C08, C14, C16, C21); conversions stopped by an interrupt (C04); result
  cases without results (C22); two writers and two data sets interleaved; refused arrays and calls
  followed by legal ones (C15); every answer asked for twice with the first
  one overwritten in between (C06-C13); files unchanged by reading (C14, C21).

## Mutation campaign

`tools/mutate.py` makes small mechanical changes (delete a statement, negate a
condition, +-1, exchanged operators, changed strings, ...) in scratch copies,
drops those the repository's tests kill, and gives the rest to the checks of
the file. Mutants that survive were read one by one; they are either
equivalent, or change what no property speaks about (texts of errors, brief
text forms, printed notices, unused helpers), or led to a stronger check
(default body arguments, `.SIN` names, falsy defaults of `get`, ...).

## Planted bugs and which check catches them

Each was written from the text of its property; `seeded/<id>/demo.sh` shows it.
The check of the property itself is the one that must catch it.
'''
