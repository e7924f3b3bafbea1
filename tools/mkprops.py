"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["castep_outputs/" + f for f in files],
                     state=[dict(name=a, meaning=b, where="castep_outputs/" + c) for a, b, c in state],
                     mechanism=[dict(name=a, where="castep_outputs/" + b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Fortran record streams stay in step with the file",
  "Reading a Fortran unformatted file delivers every record's payload exactly once and in file order, for any number of records of any sizes. Skipping or rewinding n records moves the read position by exactly n records in that direction, so that the next record delivered is the one a count over the file predicts. A read of a group of typed items consumes exactly one record per requested item, converts it with that item's type, and leaves the position at the following record.",
  ["inputs", "histories"], "all files made of whole records (any count, any payload sizes incl. empty), all sequences of next/skip/rewind/typed reads that stay inside the file",
  "Existing tests replay a handful of short fixed sequences on one tiny file; the seek arithmetic depends on every neighbouring record's size.",
  ["bin_parsers/fortran_bin_parser.py"], [("record reader", "bin_parsers/fortran_bin_parser.py")],
  [("file position", "must always rest on a record boundary between calls", "bin_parsers/fortran_bin_parser.py")], ["next(reader)", "reader.skip/rewind", "reader.get*", "file.tell()"])

p("C02", "Binary payloads decode to their big-endian values and requested shape",
  "Decoding a record payload as an element type yields the payload's big-endian elements, all of them and in order, as a tuple when a sequence was asked for and as the bare element when a single value was asked for. A single value requested from a payload with several elements, or an unsupported type request, is an error and never a silently chosen element.",
  ["inputs"], "all payload byte strings of every element count, all supported element types, both request shapes",
  "Tests decode a few hand-written constants; element order, stride and pairing errors show only on other counts and values.",
  ["utilities/type_conv.py", "utilities/utility.py"], [("byte decoders", "utilities/type_conv.py"), ("only-element guard", "utilities/utility.py")])

p("C03", "Line and section reading never loses, repeats or reorders lines",
  "Reading a wrapped file or a section line by line delivers each line once and in order, and stepping back once re-delivers exactly the last line read. Taking a section out by start and end markers yields exactly the lines from the start line to the line on which the end marker has matched the requested number of times, and reading then continues with the very next line; when the first line is not a start line the section is empty and nothing is consumed. A section cut short by the end of the file is an error unless the caller declared that acceptable, in which case it holds all the remaining lines.",
  ["inputs", "histories", "fault_sequences"], "all line sequences, all marker patterns and repeat counts, all truncation points, all interleavings of reading and stepping back",
  "Tests read a few short snippets; off-by-one consumption shows only for particular repeat counts, truncations or a step back at a particular place.",
  ["utilities/filewrapper.py"], [("file wrapper and section type", "utilities/filewrapper.py")],
  [("read position", "index of the next line to deliver", "utilities/filewrapper.py")], ["iteration", "rewind", "Block.from_re", "Block.get_lines", "Block.remove_bounds"])

p("C04", "Reported line numbers are the real line numbers",
  "After any sequence of reading and stepping back on an open file, the reported line number equals the number of lines delivered and not stepped back over, including at and after the end of the file. A section taken out of a file reports, for each line it delivers, a number that advances by one per line and goes back by one on a step back.",
  ["inputs", "histories"], "all files, all interleavings of reads (including reads at end of file) and step-backs",
  "Only a couple of straight-line read sequences are tested; drift appears after particular histories.",
  ["utilities/filewrapper.py"], [("line counter", "utilities/filewrapper.py")], [("line counter", "lines delivered so far", "utilities/filewrapper.py")], ["lineno"])

p("C05", "Text-to-type conversion keeps shape, order and exact values",
  "Converting data to a type returns, for a string, the exact value the text denotes in that type; for a sequence, a tuple of the converted elements in order; for a mapping, the same keys with converted values, nested to any depth; and every non-text value unchanged. Converting selected entries of a record changes exactly the listed entries that are present and nothing else.",
  ["inputs"], "all nested structures of strings, sequences, mappings and other values; all selections of keys",
  "Tests convert a few flat samples; recursion, ordering, and the untouched-rest part are universal claims.",
  ["utilities/type_conv.py"], [("conversion by structure", "utilities/type_conv.py")], (), ["to_type", "fix_data_types"])

p("C06", "A value's inferred type can always represent that value",
  "For every value CASTEP writes in an input echo (a logical, an integer, a real in fixed or exponent form, a ratio, several such numbers, or a word), the inferred type is the matching one: logical, integer, floating or text. Converting each of the value's items with the inferred type then succeeds and is lossless; in particular nothing with a fractional part or exponent is inferred as integer and no integer list is inferred as floating.",
  ["inputs"], "all texts of those forms, of every length",
  "Tests try six literals; the claim is over infinite languages of numerals.",
  ["utilities/type_conv.py", "utilities/castep_res.py"], [("inference", "utilities/type_conv.py"), ("numeric patterns", "utilities/castep_res.py")])

p("C07", "Every number printed on a line is extracted, once, in order and whole",
  "From any line made of printed numbers (integers, fixed-point and exponent reals, signed or not) separated by blanks and non-numeric labels, number extraction returns exactly those numbers' texts in order, neither splitting, merging, truncating nor inventing any. Fixed tables of a label followed by n numeric columns yield exactly the n columns.",
  ["inputs"], "all lines of those forms: any magnitudes, widths, signs, spacing and count",
  "Tests sample a few numerals; regular-language equality over all numerals cannot be sampled.",
  ["utilities/castep_res.py"], [("numeric patterns", "utilities/castep_res.py")], (), ["get_numbers", "labelled_floats", "atom/number patterns"])

p("C08", "Results are normalised and exportable whatever was parsed",
  "Normalising any parsed structure turns every list into a tuple and every defaulting mapping into a plain one at every depth, applies the requested type mappings, and preserves keys, order and all other values. Making a structure JSON-safe turns every tuple key into one string joining all its parts and every complex number held in mappings into its real and imaginary parts, keeps all other data, and never modifies its input.",
  ["inputs"], "all nested structures over the value types parsers produce",
  "Tests use three small literals; the guarantee is structural recursion over arbitrary depth.",
  ["utilities/utility.py", "cli/castep_outputs_main.py"], [("normalisation", "utilities/utility.py")], (), ["normalise", "json_safe"])

p("C09", "Record helpers change exactly the entries they name",
  "Flattening a nested record yields one entry per leaf, keyed by its full path, with no leaf lost. Adding aliases binds each alias to its source's value, removing the source only on request and touching the caller's record only when asked to work in place; stacking appends each value to its own column; stripping removes exactly the selected empty entries; private-key filtering removes exactly the underscore-prefixed entries.",
  ["inputs"], "all records, alias maps, include/exclude selections and flags",
  "Each test fixes one small dictionary; interactions between flags and overlapping keys are universal claims.",
  ["utilities/utility.py"], [("dictionary helpers", "utilities/utility.py")], (), ["flatten_dict", "add_aliases", "stack_dict", "strip_nones", "filter_underscore"])

p("C10", "Comment stripping removes comments and nothing else",
  "Stripping comments returns, in order, every line that has content besides its comment, with trailing blanks removed and leading blanks kept; lines that are blank or only a comment are dropped. In line-initial mode text after a mid-line comment mark is kept, in inline mode exactly the part before the first comment mark is kept, and multi-character comment marks act only as a whole.",
  ["inputs", "configurations"], "all texts, both modes, all sets of comment marks",
  "Tests run one five-line sample per mode.",
  ["utilities/utility.py"], [("comment stripping", "utilities/utility.py")], (), ["strip_comments"])

p("C11", "Lazy trajectory access is independent of access history",
  "Asking a lazily opened trajectory for frame i returns the same data as frame i of a full read, whatever was accessed before; negative indices count from the end, slices and index lists give the frames in the requested order, and any index outside the file is an error. The reported next frame is the index that sequential reading will deliver next, or none exactly when the last frame has been delivered; iteration yields every frame once in order and, when told to jump, continues from the requested frame.",
  ["histories", "inputs"], "all trajectories of equal-sized frames, all sequences of index, slice, sequential and jump accesses",
  "Tests perform a few fixed accesses on one file; stale position or index state needs a particular history.",
  ["tools/md_geom_parser.py", "utilities/filewrapper.py"], [("lazy reader", "tools/md_geom_parser.py")],
  [("next frame index", "frame at the file position, none at end", "tools/md_geom_parser.py")], ["parser[i]", "next_frame", "iteration"])

p("C12", "Trajectory files parse to every printed frame, atom and value",
  "Parsing an MD or geometry trajectory returns one entry per frame in file order, each holding its own time, energies, temperature, pressure, cell rows and, per atom keyed by species and index, every printed vector, with exactly the printed values and aliases equal to their source. No frame's data appears in another frame.",
  ["inputs"], "all trajectories: any number of frames and atoms, any values, optional rows present or absent",
  "Tests check one two-frame file.",
  ["parsers/md_geom_file_parser.py"], [("trajectory parser", "parsers/md_geom_file_parser.py")], (), ["parse_md_geom_file"])

p("C13", "Band and phonon files keep every k-point, q-point and mode",
  "Parsing a bands file returns the header values and one entry per k-point with its coordinates, weight and all eigenvalues of each spin component in printed order. Parsing a phonon file returns its unit cell, atoms and one entry per q-point with coordinates, weight, all mode frequencies and every atom's eigenvector components per mode, as printed, none attributed to another point or mode.",
  ["inputs"], "all such files: any counts of points, spins, eigenvalues, atoms and modes, any values",
  "Tests check one small file each.",
  ["parsers/bands_file_parser.py", "parsers/phonon_file_parser.py", "parsers/parse_utilities.py"], [("bands parser", "parsers/bands_file_parser.py"), ("phonon parser", "parsers/phonon_file_parser.py")])

p("C14", "Tabular output files keep every row in its column",
  "Parsing a tabular output file (grid data, Hugoniot, structure factor, field response, phonon density of states, excited states) returns for every named column the values of all rows in file order, so that all columns of a table have the same length and entry k of each column comes from row k. Header quantities are returned with exactly their printed values.",
  ["inputs"], "all such files: any number of rows and values, both header variants",
  "Tests check a few rows of a single file per type.",
  ["parsers/hug_file_parser.py", "parsers/xrd_sf_file_parser.py", "parsers/efield_file_parser.py", "parsers/parse_fmt_files.py", "parsers/phonon_dos_file_parser.py", "parsers/tddft_file_parser.py"],
  [("tabular parsers", "parsers/")])

p("C15", "Electron-phonon, elastic, path-search and NMR files are read completely",
  "Parsing an electron-phonon matrix file, an elastic constants file, a transition-state search file or a magnetic resonance file returns every printed entry under its own key (site, atom pair, k-point, spin, mode, image) with exactly the printed values. Nothing printed in those blocks is dropped, overwritten or attributed to another key.",
  ["inputs"], "all such files: any numbers of entries and any values",
  "Tests check one small file per type.",
  ["parsers/epme_file_parser.py", "parsers/elastic_file_parser.py", "parsers/ts_file_parser.py", "parsers/magres_file_parser.py"],
  [("block parsers", "parsers/")])

p("C16", "Binary electron-phonon and potential files are read completely",
  "Parsing a binary electron-phonon or electrostatic-potential file returns the header quantities and every record's data under the k-point, mode, spin or grid position it was written for. For every dimension stored in the header the number of records consumed equals that dimension, and the next section starts where the previous one ended.",
  ["inputs"], "all well-formed files: any numbers of atoms, k-points, bands, spins, modes and grid sizes",
  "Tests check one stored file per type.",
  ["bin_parsers/epme_bin_parser.py", "bin_parsers/cst_esp_file_parser.py", "bin_parsers/fortran_bin_parser.py"], [("binary parsers", "bin_parsers/")])

p("C17", "Input files parse to every keyword and block with its own units and values",
  "Parsing a cell or parameter file returns each keyword with its typed value and its unit where one is given, and each block with all its rows, its unit and its values, independent of letter case, separators, blank lines and comments. Atoms listed with the same species receive consecutive indices per species in file order, so no atom overwrites another.",
  ["inputs"], "all such files: any keywords, separators, casing, comments, units, numbers of rows and repeated species",
  "Tests check selected snippets.",
  ["parsers/cell_param_file_parser.py", "utilities/utility.py"], [("input parser", "parsers/cell_param_file_parser.py")])

p("C18", "A main output file's runs and filters do not influence one another",
  "Parsing a main output file holding several runs appended one after another returns one result per run, each equal to what parsing that run alone returns. Parsing with a subset of sections selected returns exactly the selected sections' entries, with the same values a full parse gives them.",
  ["inputs", "configurations"], "all concatenations of runs, all filter combinations",
  "Tests always parse one section in isolation with one matching filter.",
  ["parsers/castep_file_parser.py"], [("section dispatch", "parsers/castep_file_parser.py")])

p("C19", "Sections of the main output file are read completely and exactly",
  "For each per-atom or per-point section of the main output file (unit cell, atomic positions, forces, stresses, spins, Mulliken and Hirshfeld populations, Born charges, bond analysis, phonon frequencies, band structure, dynamical matrix, thermodynamics, molecular-dynamics and SCF records) the parser returns every printed row under its own key, with exactly the printed values, for any number of rows.",
  ["inputs"], "all such sections: any number of atoms, points, modes or steps, any printed values",
  "Each section is tested on one or two fixed snippets.",
  ["parsers/castep_file_parser.py", "utilities/castep_res.py"], [("section parsers", "parsers/castep_file_parser.py")])

p("C20", "A file's path, open handle and extension all select the same parse",
  "Parsing a file given as text path, path object or open handle gives the same result, passes every option through, and leaves no file open on any exit including errors. Single-file parsing picks the parser belonging to the file's extension (text or binary, with every alias), passes on the caller's filters, and rejects unknown extensions.",
  ["inputs", "configurations", "fault_sequences"], "all file names, extensions, handle kinds, options, parser outcomes including exceptions",
  "Tests cover a few extensions and only the success path.",
  ["utilities/utility.py", "cli/castep_outputs_main.py", "parsers/__init__.py", "bin_parsers/__init__.py"], [("handle dispatch", "utilities/utility.py"), ("single-file parse", "cli/castep_outputs_main.py")])

p("C21", "Command-line selection parses each requested file once, with its type",
  "For any combination of seeds and per-type options, the command line hands every requested file to the parser of its requested type exactly once, requests only files that exist when expanding a seed, and loses or invents none. The collected output holds each file's own result under its own name, or the bare result when there is exactly one.",
  ["inputs", "configurations"], "all combinations of seeds, options and existing files",
  "Tests try a few fixed option combinations.",
  ["cli/args.py", "cli/castep_outputs_main.py"], [("argument expansion", "cli/args.py"), ("collection", "cli/castep_outputs_main.py")])

p("C22", "Predicted output files follow from the calculation parameters",
  "The predicted list of files for a calculation contains a file exactly when the parameters (task, theory, write flags and their defaults) call for it, is sorted, holds no duplicates, and each name is the seed plus a suffix. The prediction depends only on its inputs, ignores their letter case, and does not modify them.",
  ["configurations", "inputs"], "all parameter combinations over the recognised tasks, theories and write flags",
  "Tests check a few parameter sets out of an exponential space.",
  ["tools/get_generated_files.py"], [("file prediction", "tools/get_generated_files.py")])

p("C23", "Key and text normalisation is canonical and idempotent",
  "Normalising a key yields lower-case text in which every run of characters other than letters and digits is one underscore, with none leading or trailing; normalising text leaves single blanks between its words and none at the ends. Both keep all other characters in order, and applying either twice equals applying it once.",
  ["inputs"], "all strings",
  "Tests try three literals.",
  ["utilities/utility.py"], [("normalisers", "utilities/utility.py")], (), ["normalise_key", "normalise_string"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
