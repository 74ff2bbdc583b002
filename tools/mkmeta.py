"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=["phenum/" + f for f in files],
                                mechanism=[dict(name=n, where="phenum/" + w) for n, w in mech])), technique, note))


INP = ["inputs"]
IC = ["inputs", "configurations"]

prop("C01", "Full enumeration lists every inequivalent colouring exactly once",
     "For any parent lattice, site basis, number of species, size range and composition restriction, the full enumeration "
     "contains exactly one structure of every symmetry class of colourings of every inequivalent supercell. "
     "Structures that are a repetition of a smaller cell are left out unless they are asked for, in which case every one of "
     "them is present as well. Nothing outside of the requested sizes and composition ranges appears.",
     IC, "every parent lattice (all crystal systems, any cell setting and handedness), basis, species count, size range, composition range and superperiodic mode",
     "The tests compare a few fixed fcc-like inputs with recorded output; classes lost or doubled for another crystal system, "
     "a basis away from the origin or a multi-species composition never show.",
     ["tree.py", "phonons.py", "grouptheory.py", "symmetry.py", "HNFs.py", "enumeration.py"],
     [("tree search with stabilizers", "tree.py:brancher"), ("uniqueness test per level", "tree.py:_perm"),
      ("symmetry group of the supercell", "grouptheory.py:get_sym_group"), ("enumeration driver", "enumeration.py:_enum_out")],
     "run-time oracle: every recorded structure is decoded and compared class by class with an independent exhaustive enumeration",
     "library of 32 parent crystals plus random ones; sizes bounded so that exhaustive enumeration stays feasible")

prop("C02", "Displacement enumeration lists every inequivalent arrangement exactly once",
     "When a fraction of the atoms of some species is displaced along the six cartesian directions, the full enumeration contains "
     "exactly one structure of every class of decorated colourings, where symmetry acts on sites and directions together. "
     "Each structure displaces exactly the requested fraction of each species rounded down, and superperiodic arrangements are "
     "left out exactly when not asked for.",
     IC, "every parent lattice whose rotations permute the cartesian axes, every composition and per-species displacement fraction, both superperiodic modes",
     "Tests pin two or three displacement runs; the joint action on sites and directions is only visible for other cells, fractions and mixtures.",
     ["phonons.py", "tree.py", "grouptheory.py"],
     [("unique arrow arrangements of one colouring", "phonons.py:add_arrows"), ("number of displaced atoms", "phonons.py:arrow_concs"),
      ("arrow part of the group", "grouptheory.py:_get_rotation_perms_lists")],
     "run-time oracle: decoded structures with directions compared with exhaustive enumeration under the joint action",
     "lattices from all axis-permuting crystal systems; up to about 10^5 decorated colourings per composition")

prop("C03", "Supercell list has one cell per class and reaches every class",
     "For every volume factor the list of supercells contains exactly one member of every class of superlattices of that index that are related by "
     "a rotation of the parent crystal's space group. Every listed cell is in lower triangular form with the requested determinant and off-diagonal "
     "entries below the diagonal of their row.",
     INP, "every parent lattice, basis and volume factor",
     "The tests fix a handful of lists for fcc/bcc/sc; other crystal systems, basis-reduced symmetry and larger volumes are never looked at.",
     ["HNFs.py", "grouptheory.py"], [("candidate cells", "HNFs.py:find_all_HNFs"), ("removal of equivalent cells", "HNFs.py:remove_duplicate_lattices"),
                                      ("lattice equality", "grouptheory.py:_is_equiv_lattice")],
     "run-time oracle: observed lists checked against orbits of exact integer superlattices",
     "all library crystals and random ones, volume factors up to 12 (quick) and 24 (thorough)")

prop("C04", "Supercell symmetry group is exactly the group of the crystal",
     "The site and direction permutations found for a supercell are exactly the operations of the parent crystal that keep the superlattice, composed with "
     "the lattice translations, each once. They form a group, and the lattice translations come first.",
     INP, "every parent lattice, basis, supercell and with or without displacement directions",
     "A wrong or missing permutation only changes results for particular cells; tests compare a few recorded groups.",
     ["grouptheory.py", "symmetry.py"], [("permutation group of a supercell", "grouptheory.py:get_sym_group"),
                                         ("permutations of rotations", "grouptheory.py:_get_rotation_perms_lists"),
                                         ("basis permutations", "grouptheory.py:_get_dvector_permutations")],
     "run-time oracle: each returned permutation is compared with the action computed from where positions go in an exact coset model",
     "library and random crystals, supercells up to 12 cells")

prop("C05", "Parent point group and space group are complete and correct",
     "The point operations found for a lattice are exactly the orthogonal maps that take the lattice to itself, and the space group operations of a crystal are exactly the "
     "rotation-translation pairs that take every site to a site of the same type, translations counted modulo the lattice.",
     INP, "every lattice in any cell setting, and every basis with any assignment of site types, given in cartesian or lattice coordinates",
     "Tests cover a few textbook lattices; setting, handedness, several site types and non-symmorphic translations are not covered.",
     ["symmetry.py"], [("lattice point group", "symmetry.py:get_lattice_pointGroup"), ("space group", "symmetry.py:get_spaceGroup"),
                       ("mapping into the cell", "symmetry.py:bring_into_cell")],
     "run-time oracle: observed operations compared with integer matrices preserving the metric and an independent site matching",
     "all crystal systems; up to 5 sites and 3 site types")

prop("C06", "Polya counting equals the number of inequivalent colourings",
     "The count reported for a composition and a permutation group, with or without displaced species, is exactly the number of orbits of the group on the decorated "
     "colourings of that composition, as an exact integer however large.",
     INP, "every permutation group (of supercells and abstract), every composition, every number of displaced species",
     "Unit tests compare a few recorded numbers; overflow, rounding and special cycle structures need many groups and large counts.",
     ["polyaburnside.py", "numerics.py"], [("orbit counting", "polyaburnside.py:polya"), ("polynomial expansion", "polyaburnside.py:Product"),
                                           ("multinomials", "numerics.py:multinomial")],
     "run-time oracle: exact Burnside count, cross-checked by explicit orbit enumeration for small cases",
     "groups of real supercells up to 20 sites and random abstract groups; counts beyond 64 bits")

prop("C07", "Predicted tables are complete and agree with the enumeration",
     "The table of predictions has one row per inequivalent supercell and one column per allowed composition, each entry is the exact number of inequivalent structures, and row, column and grand totals add up. "
     "Enumerating with superperiodic structures kept yields exactly the predicted number of structures for every supercell and composition.",
     IC, "every parent lattice, basis, species count, size range, composition range and displacement fraction",
     "The count and the enumeration are separate implementations; tests compare each with recorded files but never with each other over inputs.",
     ["enumeration.py", "polyaburnside.py", "tree.py"], [("table writer", "enumeration.py:_polya_out"), ("enumeration driver", "enumeration.py:_enum_out")],
     "run-time cross-check of two recorded artefacts (tables and structure lists) and of both with an exact count",
     "library and random crystals; sizes bounded by run time")

prop("C08", "Smith decomposition is exact for every supercell matrix",
     "For every integer matrix of positive determinant the decomposition returns unimodular integer left and right transforms whose product with the matrix is a positive diagonal, each entry dividing the next, "
     "and the given matrix is left unmodified.",
     INP, "every integer 3x3 matrix with determinant at least one",
     "Tests check about ten matrices; the iteration has branches that depend on the divisibility pattern.",
     ["grouptheory.py"], [("Smith normal form", "grouptheory.py:SmithNormalForm")],
     "run-time contract monitor (exact integer identities) on exhaustive and random matrices",
     "all supercell matrices up to volume 30 (quick) / 80 (thorough) and random matrices")

prop("C09", "Composition lists contain exactly the allowed compositions",
     "The list of compositions of a supercell contains, once each, exactly the ways to distribute its sites over the species that lie in the requested closed concentration ranges, "
     "where each range is given with its own denominator and its two ends may come in either order.",
     INP, "every size, basis size, number of species and set of ranges",
     "Tests use few ranges, all with equal denominators; boundary fractions in floating point are not explored.",
     ["symmetry.py"], [("composition list", "symmetry.py:get_concs_for_size")],
     "run-time oracle: exact rational arithmetic over all compositions",
     "sizes up to 24 sites, up to 5 species, random rational ranges including one-point and empty ranges")

prop("C10", "Distributing structures conserves the requested total within limits",
     "A distribution over sizes, shapes, compositions or all of them assigns exactly the requested number of structures (or all available if fewer), never more to an entry than are available for it, and only to entries allowed "
     "by the filter and the chosen sizes. Asking for everything assigns every entry its full predicted count.",
     ["inputs", "configurations", "histories"], "every set of prediction tables, distribution type, requested number, filter, size window and random seed",
     "The outcome is random; tests fix the seed and compare one file.",
     ["structures.py"], [("distribution", "structures.py:_distribute"), ("filters", "structures.py:_distribution_summary"), ("file writer", "structures.py:make_enum_in")],
     "run-time conservation monitor over the recorded distribution and the tables it was drawn from, over many seeds",
     "tables from real crystals and synthetic tables; hundreds of seeds and requests")

prop("C11", "Sampled enumeration returns distinct structures of the requested kind",
     "Asking for a number of structures of a supercell and composition returns that many pairwise inequivalent structures of that supercell and composition, or all there are if fewer "
     "(keeping superperiodic ones); without displacements every structure can be picked by some seed; when superperiodic structures are excluded none is returned and the number is never exceeded. With an acceptance rate the result is a subset of the inequivalent structures.",
     ["inputs", "histories"], "every supercell, composition, displacement fraction, requested number, acceptance rate and random seed, below and above the thresholds between complete and random search",
     "The picks are random; tests only count lines for one seed, and the random search path depends on large multinomials.",
     ["tree.py", "phonons.py"], [("random search", "tree.py:guess_and_check_brancher"), ("subset selection", "phonons.py:enum_sys"), ("random arrows", "phonons.py:add_arrows")],
     "run-time oracle: recorded samples canonicalised under the exact group; counts compared with the exact number available",
     "small cells exhaustively, large cells through the random path, many seeds")

prop("C12", "Same input and seed give the same result everywhere",
     "With a fixed seed every stage writes byte-for-byte the same data, apart from the time stamp, in every process, whatever the hash randomisation, the order in which the file system lists files, or the working directory.",
     ["inputs", "configurations", "histories"], "every input and seed, every hash seed, directory listing order and location",
     "A test runs once in one process; iteration order over sets, dicts and directory listings only varies between processes and machines.",
     ["structures.py", "enumeration.py", "tree.py", "phonons.py"], [("distribution", "structures.py:make_enum_in"), ("seeding", "enumeration.py:_enum_out")],
     "differential monitor over recorded outputs of separately started processes with perturbed environment",
     "several inputs and seeds, up to six perturbed processes each")

prop("C13", "Structure records are self-consistent and read back unchanged",
     "Every record of the structure list describes its structure completely: serial numbers run from one, numbers within a size restart at one for each size, the stated diagonal and transform are a Smith decomposition of the stated cell, "
     "and labels and directions have one symbol per site. The header states the crystal that was given, and reading the list returns exactly the written values.",
     INP, "every enumeration output", "Tests compare one or two files after stripping; relations between fields are not checked for other cells.",
     ["enumeration.py", "io_utils.py"], [("record writer", "enumeration.py:_enum_out"), ("header writer", "io_utils.py:write_enum"), ("reader", "io_utils.py:read_enum_out")],
     "run-time contract monitor over every record of recorded outputs, and a write-read differential",
     "outputs of library and random crystals, with and without directions")

prop("C14", "A written crystal file is the structure that was enumerated",
     "The crystal file made for a structure has the superlattice of its record (in a basis of the same lattice with positive volume), the right number of atoms of each species in order, and an atom of the stated species at every site "
     "position of the supercell given by the parent lattice and basis, modulo the superlattice.",
     INP, "every enumerated structure of every parent lattice and basis, with and without basis reduction",
     "Tests compare few files with recorded ones; any permutation of sites in another cell is invisible to them.",
     ["vector_utils.py", "io_utils.py", "phenumStr.py"], [("mapping to real space", "vector_utils.py:map_enumStr_to_real_space"), ("crystal file writer", "io_utils.py:write_POSCAR")],
     "run-time oracle: the file is parsed and matched atom by atom against positions computed from the record",
     "all structures of many small enumerations")

prop("C15", "The set of crystal files is complete and free of duplicates",
     "The crystals written for a full enumeration are pairwise inequivalent as periodic crystals on the parent lattice, and every periodic colouring of the parent lattice of the requested sizes is equivalent to one of them.",
     INP, "every parent lattice, basis, species count and size range",
     "Labels, group index conventions and the real-space map are each tested alone; only the composition can show that the crystals differ.",
     ["enumeration.py", "vector_utils.py", "io_utils.py", "grouptheory.py"], [("real-space map", "vector_utils.py:map_enumStr_to_real_space"), ("group", "grouptheory.py:get_sym_group")],
     "end-to-end run-time oracle on the files alone: lattice and colouring recovered from positions, canonicalised and counted",
     "library and random crystals up to a few hundred files each")

prop("C16", "Lattice reduction keeps the lattice and is really reduced",
     "Reducing a lattice basis returns a right-handed basis of exactly the same lattice that satisfies the shortest-vector conditions, and never changes which crystal is written; switching reduction off writes the supercell vectors unreduced.",
     INP, "every non-singular lattice basis, however skewed within the supercells that are enumerated",
     "Tests reduce a handful of bases.",
     ["vector_utils.py"], [("reduction", "vector_utils.py:_minkowski_reduce_basis"), ("pair reduction", "vector_utils.py:_gaussian_reduce_two_vectors")],
     "run-time contract monitor: integer change of basis, and comparison with a brute force search for shortest vectors",
     "random bases of all crystal systems times random supercells")

prop("C17", "Displaced atoms move by the requested amount along their direction",
     "In every crystal file exactly the atoms with a recorded direction are moved off their sites, along that cartesian direction, by the requested amount in units of the lattice parameter, varied by at most the requested fraction when randomised. "
     "All other atoms stay on their sites.",
     ["inputs", "histories"], "every structure with directions, every displacement amount and randomisation, both file formats, with and without reduction",
     "Tests check one displaced file by recorded text.",
     ["io_utils.py"], [("crystal file writer", "io_utils.py:write_POSCAR"), ("config writer", "io_utils.py:write_config")],
     "run-time oracle: displacement vectors measured from parsed files against the record",
     "all structures of displacement enumerations on several lattices")

prop("C18", "Lattice parameter and title follow the species",
     "The lattice parameter written for named species is the composition-weighted mean of the parameters at which each element has its tabulated atomic volume on the parent lattice, "
     "and the title lists the species present. Without names it is one, and a wrong number of names is refused.",
     INP, "every element, composition, parent lattice and basis size", "Tests use two or three alloys.",
     ["element_data.py"], [("mixing rule", "element_data.py:get_lattice_parameter"), ("element parameter", "element_data.py:get_lat_param_element")],
     "run-time oracle: independent evaluation from the table of atomic volumes, with metamorphic relations (pure element, scaling, permutation)",
     "all tabulated elements, random alloys and lattices")

prop("C19", "Config files describe the same crystals and accumulate",
     "The config file written for interatomic potentials holds one complete block per requested structure, in order, with the superlattice scaled by the lattice parameter, every atom at its cartesian position with its (mapped) species, "
     "and appending further structures never alters earlier blocks.",
     ["inputs", "histories"], "every enumerated structure, species mapping, and sequence of appending runs",
     "One recorded file is compared.",
     ["io_utils.py", "phenumStr.py"], [("config writer", "io_utils.py:write_config")],
     "run-time oracle: parsed blocks matched against the crystal file of the same structure and the record",
     "several enumerations and mappings")

prop("C20", "Results do not depend on how the same crystal is written down",
     "Describing the same parent crystal with another cell, origin, orientation, handedness, scale, site order, or sites shifted by lattice vectors yields the same number of supercells, predictions and structures for every size and composition. Renaming the species permutes the results.",
     INP, "every parent crystal and every re-description of it",
     "A relation between two runs; tests look at one run at a time.",
     ["symmetry.py", "grouptheory.py", "HNFs.py", "polyaburnside.py", "tree.py"], [("space group", "symmetry.py:get_spaceGroup"), ("group", "grouptheory.py:get_sym_group")],
     "metamorphic monitor over pairs of recorded runs", "random parents with eight kinds of re-description")

prop("C21", "A result does not depend on what ran before",
     "Each operation returns the same result in a fresh process and after any sequence of other operations in the same process, and leaves the values it was given unmodified.",
     ["histories", "inputs"], "every sequence of operations in one process",
     "Module state, default arguments and caches only show in particular orders of calls.",
     ["grouptheory.py", "HNFs.py", "symmetry.py", "polyaburnside.py", "tree.py", "structures.py", "vector_utils.py"],
     [("group", "grouptheory.py:get_sym_group"), ("orbit counting", "polyaburnside.py:polya"), ("supercells", "HNFs.py:get_HNFs")],
     "differential monitor: results recorded in shuffled histories against results of fresh processes, argument snapshots compared after every call",
     "random histories of calls over all public operations")

prop("C22", "Numbering of colourings is a bijection",
     "For every composition, numbering the colourings level by level and reconstructing them are inverse to each other, cover every number below the number of colourings once, and the coefficients are exact binomials. The same holds for the numbering of displacement directions.",
     INP, "every composition and number of sites", "Tests check a few values.",
     ["tree.py", "phonons.py", "numerics.py"], [("numbering", "tree.py:_hash"), ("reconstruction", "tree.py:_invhash"), ("radix", "tree.py:_coefficients"), ("direction numbering", "phonons.py:_ahash")],
     "run-time contract monitor: exhaustive round trips in both directions and exact big-integer comparison",
     "all compositions up to 9 sites and 4 species, random large ones")

prop("C23", "Invalid requests are refused without leaving results behind",
     "A request that cannot be carried out (missing or inconsistent input, wrong number of arguments, an unknown kind of distribution or filter, acceptance rate above one, wrong number of species names, unusable structure selection) ends with an error and leaves no output that could be taken for a result; "
     "valid requests through the command line behave as the same request made directly.",
     IC, "every invalid combination of arguments and input files", "Tests check single messages, not the state of the folder afterwards.",
     ["enumeration.py", "phenumStr.py", "structures.py"], [("validation", "enumeration.py:_script_enum"), ("selection", "phenumStr.py:run")],
     "fault injection with a monitor on exit status and on the files present before and after",
     "all documented argument errors on several inputs")

prop("C24", "Generating a group from generators yields the whole group",
     "Completing a set of permutation generators returns every element of the group they generate, each once, and composing lattice translations with rotations gives exactly the set of their products.",
     INP, "every set of generators of site and direction permutations", "Two fixed groups are tested.",
     ["grouptheory.py"], [("closure", "grouptheory.py:_group"), ("products", "grouptheory.py:a_group")],
     "run-time oracle: breadth-first closure of the same generators", "random generators on up to 10 points, and generators of supercell groups")

prop("C25", "Running the stages separately gives the same as running them together",
     "Counting, distributing everything and then enumerating yields the same structures as enumerating directly, and a size range can be split into consecutive ranges, or a list of requests into parts, whose results together are those of the whole.",
     ["inputs", "histories"], "every input and every way to split the work", "Each stage is tested from recorded input files of the previous one.",
     ["enumeration.py", "structures.py"], [("driver", "enumeration.py:_enum_out"), ("distribution", "enumeration.py:_enum_in"), ("counting", "enumeration.py:_polya_out")],
     "differential monitor over recorded files of the different ways to run", "library and random crystals")

prop("C26", "Requested structures are the ones that get written",
     "Asking for one structure by its number, a range of numbers, or all of a list writes exactly one file for each requested structure that the list has, named after its number by the given pattern and holding exactly what asking for it alone gives. "
     "Numbers are those stated in the list, also when the list was picked by hand. The list itself and all other files are left untouched.",
     ["inputs", "configurations", "histories"], "every structure list, selection, name pattern and option", "Tests write one or two selections of complete lists.",
     ["phenumStr.py", "io_utils.py"], [("selection", "phenumStr.py:run"), ("reader", "io_utils.py:read_enum_out"), ("file names", "io_utils.py:write_POSCAR")],
     "monitor on the set of files before and after, and on their contents compared with single requests", "lists from library and random crystals, complete and hand-picked; random selections and name patterns")

prop("C27", "Plots show the supercells that were listed",
     "Visualising a list of supercells produces one picture per different listed supercell, each with its own name made of the cell's entries. When outlines are drawn they are the twelve edges of a parallelepiped spanned from the origin by vectors of exactly the listed superlattice; "
     "the points drawn are all sites of the supercell, each once, and lie inside of the outline. The list is not altered and windows open only when asked for.",
     INP, "every list of supercells, parent lattice and basis", "Tests only check that plotting one simple list runs.",
     ["visualize.py", "enumeration.py"], [("shapes", "visualize.py:HNF_shapes"), ("atoms", "visualize.py:HNF_atoms")],
     "run-time monitor that reads back the contents of every figure at the moment it is saved and compares them with an independent lattice model", "library and random crystals, cells up to index 16; rendering itself is replaced")

prop("C28", "Layout of an input file does not change what it means",
     "Comment lines, empty lines, spacing, tabs, line endings, a missing final newline and the way a number is written make no difference in lattice.in, in a list of requests, in a filter file or in a list of cells to draw: the same values give the same output, and the input file is not altered.",
     INP, "every input file and every layout of it", "Tests read a few files in one layout.",
     ["io_utils.py", "structures.py", "visualize.py"], [("lattice reader", "io_utils.py:read_lattice"), ("request reader", "io_utils.py:read_enum"), ("filter reader", "structures.py:make_enum_in")],
     "metamorphic monitor: outputs of the same input in randomly generated layouts are compared byte for byte", "library and random crystals")

prop("C29", "Reporting options have no influence on the results",
     "How much is reported, and in which form, makes no difference to what is found: at every level of verbosity, in quiet or debugging mode and with any action option the same requests "
     "leave byte-identical files, apart from time stamps. Asking for the examples of a program prints them and carries out nothing, whatever else is on the command line.",
     IC, "every request, level of reporting and combination of reporting options", "The branches that report progress are never run by the tests.",
     ["msg.py", "base.py", "tree.py", "phonons.py", "enumeration.py", "phenumStr.py"], [("levels", "msg.py:set_verbosity"), ("common options", "base.py:exhandler"), ("progress of the search", "tree.py:brancher"),
      ("progress of displacements", "phonons.py:add_arrows")],
     "metamorphic monitor: files of the same requests at different levels of reporting are compared, with a recording stand-in for the progress bar", "command line and direct requests; library and random crystals; the progress bar itself is replaced")

prop("C30", "A run that breaks off leaves nothing half-finished",
     "When a run breaks off part-way, by an interrupt, for lack of memory or by an error anywhere in the computation, it ends with that error and every file of the folder is either as it was before or complete. "
     "Repeating the same request in that folder gives what an undisturbed run gives. Files that accumulate hold only whole entries.",
     ["inputs", "crash_points"], "every request and every moment of the computation at which it breaks off", "No test breaks off a run.",
     ["enumeration.py", "structures.py", "phenumStr.py", "io_utils.py"], [("tables are written when all are complete", "enumeration.py:_polya_out"), ("the list is written when it is complete", "enumeration.py:_enum_out"), ("crystal files", "io_utils.py:write_POSCAR"), ("accumulated file", "io_utils.py:write_config")],
     "fault injection at chosen function starts of the computing modules (sys.monitoring), with a monitor on the files left and on those of the repeated run", "library and random crystals; sampled moments, in the computing modules and not in the middle of writing a file; an uncatchable kill is not injected")

NOT_APPLICABLE = []


def main():
    done = sorted(f[:-3] for f in os.listdir(os.path.join(ROOT, "checks")) if f.endswith(".py") and f[0] == "C")
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, t, n in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    na = list(NOT_APPLICABLE)
    for p, t, n in P:
        if p["id"] in done:
            checks.append(dict(property=p["id"], quick_cmd="./run_check.sh " + p["id"],
                               thorough_cmd="VERIF_TIER=thorough ./run_check.sh " + p["id"],
                               technique="runtime monitoring: " + t, level="exploration", level_note=n))
        elif p["id"] not in [x["property"] for x in na]:
            na.append(dict(property=p["id"], reason="the monitor for this property is not built yet"))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
