# Source of /verif/properties.jsonl (run tools/gen_meta.py to regenerate it).
SQ = 'freesif/sequentialparser/sequentialfiles.py'
PA = 'freesif/sequentialparser/parsers.py'
CV = 'freesif/sequentialparser/sif2hdf5.py'
FI = 'freesif/data/file.py'
SD = 'freesif/data/sifdata.py'
ST = 'freesif/data/strucdata.py'
HY = 'freesif/data/hydrodata.py'
HE = 'freesif/data/helpers.py'
WR = 'freesif/utils/writers.py'
VT = 'freesif/utils/vtfdata.py'


def P(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files,
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                        "observe_at": observe, "hook_needed": hook}}


PROPS = [
P("C01", "Converting a formatted file keeps every record, field and array",
  "Converting any well-formed formatted interface file stores, for every supported record type, exactly one row per occurrence in file order, wherever those occurrences stand in the file and however many there are. Every stored field equals the number or text in the file (in the precision of a 32-bit interface file), and the variable-length data of each row is exactly what its start/stop range delimits. Nothing is dropped, duplicated, reordered, truncated or attached to another record.",
  ["inputs"],
  "for all sequences of supported records with any legal field values, optional fields present or absent, any lengths of the variable parts, short or zero-padded last lines, several separated runs of one type, and more than 100 000 records of a type",
  "The tests only check that the .h5 file exists for five fixed files and compare a few derived arrays; most of the ~75 supported record types (section types, loads, hydro sections, time domain, transformations) are in none of them and the buffer boundary at 100 000 records is never reached.",
  [PA, SQ, CV],
  [("one reader per record type, fed by line/float buffers", PA), ("row and variable-length buffers with start/stop bookkeeping", PA + ": recdata, vldata"), ("float-rest buffering over lines", SQ)],
  ["HDF5 file written by sif2hdf5"]),
P("C02", "Unformatted and formatted files with the same records convert identically",
  "For any content, converting an unformatted file gives exactly the same tables, arrays and attributes as converting the formatted file with the same records. This holds for every legal way the unformatted file may split its records physically (input records in four-value pieces, result records in pieces of up to 32 values) and for any line ending or padding of the formatted file.",
  ["inputs"],
  "for all record sequences (input, structural result and hydrodynamic records) and all legal physical splittings",
  "No test converts the same content in both forms; each sample file exists in only one form, so field-by-field agreement between the two readers is never looked at.",
  [SQ, PA, CV],
  [("format detection on the first byte", CV), ("two file classes behind one reader interface", SQ), ("header look-ahead for optional fields", SQ + ": at_headerrec")],
  ["HDF5 files written by sif2hdf5"]),
P("C03", "Unsupported, disabled and excluded records never disturb other records",
  "Inserting records of an interface-file type that is not supported anywhere between other records, or heading records with a negative first value (four values, or -5 and one more line) before a run of records of a type, leaves everything stored for the other records unchanged. Converting with a list of wanted record types stores for those types exactly what a full conversion stores, and nothing for the others.",
  ["inputs"],
  "for all record sequences, all inserted unsupported or disabled records (with and without continuation, at any position, formatted and unformatted), all subsets of record types that include what they depend on",
  "The tests never use the selection list, and the sample files contain each unsupported type in one position only, so resynchronisation after a skipped record is sampled a handful of times.",
  [SQ, PA, CV],
  [("skip to the next header record", SQ + ": skip_restofrecord"), ("list of legal record names", SQ), ("disabled-record handling and selection loop", PA + ": general_parser, parse_file")],
  ["HDF5 file written by sif2hdf5"]),
P("C04", "A conversion depends only on its own files, whatever was converted before",
  "The result of a conversion is the same whether it is the first in the process or comes after any sequence of other conversions, appended, in-memory or failed ones included. With append the groups already in the target stay exactly as they were and the new ones are added; without it the target holds only the new data, a failed conversion raises and leaves the process and target usable, and a list of files into one target equals converting them one by one.",
  ["histories", "inputs", "fault_sequences"],
  "for all sequences of conversions (struct/hydro, formatted/unformatted, hierarchies, record selections, prefixes, in-memory, truncated or malformed inputs) in one process",
  "Every test converts each file once into its own target; module-level parser state carried over between conversions is only visible for sequences with specific shapes.",
  [PA, CV],
  [("explicit reset of parser state per file and per top-level file", PA + ": reset"), ("group name prefix and append mode", CV)],
  ["HDF5 files written by sif2hdf5", "exceptions raised by sif2hdf5"],
  [("module-level parser state", "dictionaries and flags filled by earlier records", PA)]),
P("C05", "Superelement hierarchies end up complete and in the right groups",
  "Converting a top-level file converts every lower-level file of its hierarchy that exists next to it, once per superelement for input files and once per repetition for results files, each into its own group under the top-level group, holding exactly what that file contains. Each group carries the right level, type number, repetition index and file type, files that are missing are skipped, and opening the result offers every superelement as the right kind of data object.",
  ["inputs", "configurations"],
  "for all hierarchies (any depth, type numbers, repetitions, traversal order; HIERARCH records in reference order, top first), all subsets of lower-level files present, each file formatted or unformatted, with or without file-name and user prefix",
  "Two fixed assemblies are converted in the tests and only opening is checked; which file's data ends up in which group, with which attributes, is not.",
  [CV, PA, FI],
  [("candidate file names from hierarchy records", CV), ("group path and level attributes", PA + ": get_path, parse_file"), ("data object per group", FI)],
  ["HDF5 file written by sif2hdf5", "File keys and data objects"]),
P("C06", "Hierarchy transformations compose along the superelement path",
  "Asking for node coordinates at the top level or at any level a superelement takes part in gives the local coordinates multiplied by the product of the transformations along that superelement's own path, for the requested repetition. An explicitly given 4x4 matrix is applied in the same row-vector convention, level 1 is the identity, and levels that do not exist or that the superelement is not present on are rejected.",
  ["inputs"],
  "for all hierarchies, superelements, repetitions, levels and transformation matrices",
  "No test calls any transformation: neither get_transformation nor get_nodes(trans=...).",
  [ST, FI],
  [("walk from the superelement to the top multiplying matrices", ST + ": TopLevelData.get_transformation"), ("toplevel reference handed to lower-level objects", FI)],
  ["TopLevelData.get_transformation", "FirstLevelData.get_nodes(trans=...)"]),
P("C07", "Nodes, elements and numbers of a selection describe the same elements",
  "For any model and any selection (sets, element kind, both or none; shared or disconnected nodes), the connectivity points into the coordinate array returned for the same selection so that every selected element gets exactly its own nodes, in the order of the model. Node coordinates, node numbers, element types, element numbers and offsets line up one to one, and the selected elements are exactly those in the union of the named sets and of the requested kind, each once.",
  ["inputs"],
  "for all models (any mix of element types, loose nodes, any external numbering) and all combinations of sets, kind, disconnected and number type",
  "Tests compare five fixed selections of one model against stored arrays that the same code once produced; node and element numbers are never compared.",
  [ST, SD, HE],
  [("set, kind and element index selection", ST), ("connectivity compaction for subsets", ST + ": _update_connectivity")],
  ["get_nodes", "get_nodenumbers", "get_elements", "get_elementnumbers", "get_setnames"]),
P("C08", "Node results are those of the selected cases and of the selected nodes",
  "Displacements, velocities and accelerations returned for a run, a choice of result cases and a selection are exactly the six components stored in the file for each of those cases and nodes, in file order of the cases and in the same node order as the coordinates for that selection. Complex results come back as complex numbers with the right real and imaginary parts, and a mixture of real and complex cases is refused.",
  ["inputs"],
  "for all models, runs, external case numbers (single, any sequence, all), real or complex results, and all selections, disconnected included",
  "Tests read displacements for two sets and two real cases; velocities, accelerations, complex results, runs, loose nodes and the unselected disconnected form are never read.",
  [ST, PA],
  [("result case lookup", ST + ": _get_resrefs"), ("row filtering, complex view, reshaping", ST + ": get_noderesults"), ("node result reader", PA + ": rvnodres_reader")],
  ["get_noderesults"]),
P("C09", "Element results reproduce the stored stresses and forces at the element nodes",
  "Element results for a run, a choice of cases and sets are given element by element in the order of the disconnected selection, case by case, and within an element node by node going round it (corners and mid-side nodes alternating). They equal the stored forces and surface stresses at the node for first-order elements and, for second-order elements, the exact extrapolation of any field that is linear (bilinear for quadrilaterals) over the result points; complex results follow by linearity.",
  ["inputs"],
  "for all mixes of beam and shell element types, stress and force fields, real and complex cases, runs, case selections and sets, for beam forces, general and decomposed stresses",
  "Tests compare a few fixed results to stored arrays the same code once produced; mixed orders of elements, several cases, complex values and case order are not covered and no independent formula is used.",
  [ST, PA],
  [("per element type processing and extrapolation matrices", ST), ("result point and case filtering", ST + ": get_elementresults")],
  ["get_elementresults"]),
P("C10", "Decomposed stresses, section properties, thicknesses and names match the model",
  "Decomposed stresses of thin shells are the mean and half difference of the two surfaces component by component, and of thick shells additionally 1.5 times the mid transverse shear. Section properties and shell thicknesses are returned one per selected beam or shell element and are those the element refers to, and set names and result case names (all or selected) are exactly those in the file.",
  ["inputs"],
  "for all models with arbitrary property numbering and sharing, any sets, any result case selection",
  "Section properties, thicknesses and result case names are never exercised by the tests.",
  [ST, PA],
  [("decomposition matrices", ST), ("property lookup by reference number", ST + ": get_section_properties, get_shell_thicknesses"), ("names", ST + ": get_resultcase_names, get_setnames")],
  ["get_section_properties", "get_shell_thicknesses", "get_resultcase_names", "get_setnames", "get_elementresults('decomposedstress')"]),
P("C11", "Transfer functions are indexed by their component, direction and frequency",
  "Motion, excitation force, sectional force and fluid kinematics results returned for a body hold, at every (point or section, component, direction, frequency) index, exactly the value stored for that response, direction and frequency of that body. The direction and frequency axes are those returned by the direction and frequency getters, and elevation is pressure divided by density times gravity.",
  ["inputs"],
  "for all numbers and values of directions, frequencies (not necessarily sorted), sections, points and bodies, real or complex data, formatted or unformatted",
  "The tests use one file with one body, no sections and no points, and compare to arrays stored from an earlier run of the same code.",
  [HY, PA],
  [("reshape and axis rotation", HY), ("body to boundary condition reference lookup", HY + ": _get_ibcond")],
  ["get_motion_raos", "get_excitationforce_raos", "get_sectionforce_raos", "get_fluidkinematics_raos"]),
P("C12", "Hydrodynamic matrices and body properties belong to the requested bodies",
  "Each matrix getter returns exactly the 6x6 matrix, or the 6x6 matrices with frequency last, stored for the requested matrix type and ordered pair of bodies, with rows and columns as in the file. Body properties, gravity, density and depth are those of the file for the requested body.",
  ["inputs"],
  "for all numbers of bodies with arbitrary internal references, all matrix types, all ordered pairs of bodies, any numbers of frequencies",
  "The tests use one body and one matrix set; coupling matrices and body properties are never read.",
  [HY, PA],
  [("record selection by type and body pair", HY + ": get_matrix"), ("body property lookup", HY + ": get_bodyproperties")],
  ["get_matrix and its named variants", "get_bodyproperties", "g, ro, depth"]),
P("C13", "Hydrodynamic axes, drift, sections, points and panel pressures match the file",
  "Frequencies, periods, directions, time steps, section definitions and reference points are those in the file, in file order. Mean drift forces (both kinds) and panel pressures of a body hold at every index the value stored for that component or panel and symmetry part, direction and frequency, and asking for data of the other domain is refused.",
  ["inputs"],
  "for all direction, frequency, time, section, point and panel sets, bodies, and both analysis domains",
  "One fixed file is used and sections, points, panel pressures and the time domain never occur in it.",
  [HY, PA],
  [("axis extraction in file order", HY + ": __init__"), ("reshape of drift and panel data", HY)],
  ["get_angular_freqs", "get_periods", "get_directions", "get_timesteps", "get_sections", "get_points", "get_meandrift", "get_horiz_meandrift", "get_pressure_panel_ids", "get_panel_pressures"]),
P("C14", "Open files behave as dictionaries and closed ones refuse, in any order",
  "Over any sequence of opening, reading, listing, converting to text and closing, an open file offers exactly its datasets through its dictionary operations and iteration, independently of other files being open or closed. After a file is closed, directly, through any of its data objects or by closing all files, every read through it or its data objects raises the closed-file error, repeated closing is harmless, and other open files are unaffected.",
  ["histories"],
  "for all sequences of operations on any number of files (opened from .h5 or directly from interface files) and their data objects",
  "The tests check one open-close sequence with one file at a time; interleavings, several handles on one file, iteration, text forms and closing all files are not exercised.",
  [FI, SD],
  [("registry of open files", FI + ": _open_files"), ("closed flags checked by every accessor", FI + ", " + SD)],
  ["File", "SifData", "open_hdf5", "open_sif"],
  [("registry of open files", "set of File objects", FI)]),
P("C15", "VTU output is well-formed and decodes back to the data that was written",
  "Any accepted sequence of writer calls ending with close gives a well-formed VTU document whose pieces, points, offsets, types and data arrays decode to exactly the arrays passed in, with their names, component counts and component names and in the section (point or cell data) that was open. Calls out of order raise the documented error, and they and calls with data that cannot be written leave what was written before unspoilt.",
  ["histories", "inputs"],
  "for all sequences of writer calls and all arrays of the supported types, shapes, memory layouts and byte orders, and any names",
  "One test writes fixed model data and compares one output file; other types, layouts, names, several pieces and wrong call orders are not covered.",
  [WR],
  [("element stack and section flags", WR), ("binary encoding of arrays", WR + ": _write_array")],
  ["the .vtu file"]),
P("C16", "VTU geometry shows each element right and leaves the caller's data alone",
  "In the written grid every element keeps its nodes in the order the VTK cell type requires and every element-node result stays with its own node, for all supported element types. Writing leaves the arrays passed in unchanged, so writing the same model or results again, to the same or another file, gives the same output.",
  ["inputs", "histories"],
  "for all mixes of element types and repeated use of the same arrays",
  "The test writes first-order results once; reordered element types and second use of the arrays do not occur.",
  [WR],
  [("node order tables", WR), ("reordering of connectivity and element-node results", WR)],
  ["the .vtu file", "arrays passed to VtuWriter"]),
P("C17", "Derived stresses satisfy their definitions for every stress state",
  "Principal stresses are the eigenvalues of the in-plane stress tensor (of the full tensor without the smallest in magnitude for thick shells), largest first, for arrays of any leading shape. Von Mises stress agrees with the principal stresses, does not depend on the axes, and none of the functions changes its input.",
  ["inputs"],
  "for all stress arrays of any leading shape and extra trailing components",
  "The tests compare stored arrays from one model, where invariance and special states (equal, zero, pure shear) do not occur.",
  ["freesif/calc/principal.py", "freesif/calc/vonmises.py"],
  [("closed-form and eigenvalue formulas", "freesif/calc")],
  ["calc.principal2d", "calc.principal_thickshell", "calc.vonmises2d"]),
P("C18", "Signed absolute maximum and element-node lookup return the right entries",
  "The signed absolute maximum along any axis (or all) is an element of that slice with the largest magnitude, with its sign. The element-node index lookup returns, for every pair of external element and node number in any selection, the position, along the axis of element node results, of the result of exactly that element at exactly that node (for six-node triangles the results go round the element while their nodes are given corners first).",
  ["inputs"],
  "for all arrays and axes, and all models, selections and lists of pairs",
  "Neither function is called by any test.",
  ["freesif/calc/general.py"],
  [("max/min comparison", "freesif/calc/general.py"), ("offset search", "freesif/calc/general.py")],
  ["calc.absmax", "calc.find_elemres_indices"]),
P("C19", "Records written to a formatted file read back unchanged",
  "Any sequence of records, floats and text lines written through the formatted-file writer and read back through the same class gives the same names, values and text in order, with no lost, merged or extra values. Counting records of any interface file gives the true number per record type.",
  ["histories", "inputs"],
  "for all sequences of write_record / write_floats / write_string calls with any number of values, and all files for counting",
  "The writing half of the class is not executed by any test.",
  [SQ],
  [("column bookkeeping on partly filled lines", SQ + ": FormattedFile")],
  ["FormattedFile write methods", "get_recordcount"]),
P("C20", "VTF data written to a file reads back to the same model and results",
  "Nodes, element blocks, scalars and element results added to a VTF data set, written and read back give the same nodes and numbers, connectivity per element type, names, numbers and result values, and the association between results, elements and scalars is kept.",
  ["histories", "inputs"],
  "for all sequences of add calls with explicit or automatic ids, with or without node and element numbers, any mix of element types",
  "No test touches this class.",
  [VT],
  [("block and directive reader/writer", VT), ("id allocation", VT)],
  ["VtfData.write", "VtfData.read", "VtfData containers"]),
P("C21", "Every way of opening the same data gives the same answers",
  "Reading an interface file directly in memory and converting it to HDF5 and opening that give identical answers for every data method, for any legal file name (prefix, letter case, type number) and for any prefix options. Illegal file names and unsupported binary files are refused before anything is written.",
  ["inputs", "configurations"],
  "for all structural and hydrodynamic files, all legal and illegal file names and naming options",
  "Tests use either way for different data only, and one naming style.",
  [CV, FI, HE],
  [("file name pattern", CV + ", " + HE), ("in-memory conversion", CV), ("group naming", PA)],
  ["open_sif", "sif2hdf5", "open_hdf5"]),
P("C22", "Requests for what is not there are refused and change nothing",
  "A request that names something that does not exist - an unknown result type, element kind, number type, unit or matrix type, a set, result case, run, body, matrix, dataset or record type that is not on the file (alone or in a list with existing ones), a level, superelement or index that is not in the hierarchy, results of a type that a requested result case does not have, real and complex results in one answer, results of the other domain, a transformation of another shape, a file that does not exist, is no interface file or has an illegal name - raises an error of the documented class instead of returning other or partial data. After it every legal request is answered as before, and files on disk, an existing conversion target included, are untouched.",
  ["inputs", "histories"],
  "for all structural and hydrodynamic data (complete or with record types missing), all superelement hierarchies, all sequences of wrong and legal requests, all file names",
  "The tests ask only for what is there.",
  [ST, HY, HE, SD, CV, FI],
  [("argument checks", ST + ", " + HY), ("record and row lookup", HE + ", " + SD), ("checks before the target is opened", CV)],
  ["all data methods", "open_hdf5", "open_sif", "sif2hdf5"]),
P("C23", "A file that was cut short is never converted as if it were complete",
  "If an interface file, or any file of a superelement hierarchy, ends early at any byte, converting or opening it fails (and ends), or gives exactly what the complete file gives because only the end of its closing record was lost. Data of other files in the same target is not affected, and the complete file can be converted afterwards in the same session.",
  ["inputs", "crash_points"],
  "for all formatted and unformatted files, all record types, and all places to cut",
  "No test reads a damaged file; a cut in the middle of a number or after a whole line looks like a legal end to a line-wise reader.",
  [SQ, PA, CV],
  [("end of file", PA + ": parse_file; " + SQ)],
  ["sif2hdf5", "open_sif"]),
P("C24", "What is shown or looked up at an element is what the model has there, through the whole chain",
  "Following any interface file, single or a superelement hierarchy, through conversion, selection, transformation (by a matrix or to the top level), derived stresses and export, every element in the written VTU or VTF file stands where the model has it (in the top level's coordinates if asked for), with its own number, its own node numbers, displacements, forces, surface stresses, von Mises and principal stresses and signed largest values over the cases at each of its nodes, whatever the orders in which the parts hold nodes and results. Looking up results by external element and node number gives the values of exactly that node of that element.",
  ["inputs", "configurations"],
  "for all models and assemblies, element types, formatted or unformatted files, selections, matrices, sets of result cases and both export formats",
  "The tests look at single steps with fixed files and compare stored reference arrays; nothing compares what finally stands in an export file, element by element, with the model it came from, so that two steps that disagree about an order go unseen.",
  ["freesif/calc/general.py", "freesif/calc/vonmises.py", "freesif/calc/principal.py", ST, WR, VT, HE],
  [("order of element nodes and result points", ST + ", " + WR + ", freesif/calc/general.py"), ("transformation to the top level", HE + ", " + ST)],
  ["sif2hdf5", "open_hdf5", "FirstLevelData / SingleSuperElementData methods", "calc", "VtuWriter", "VtfData"]),
]
