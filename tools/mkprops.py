#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
                     **({"observe_at":observe} if observe else {})), hook_needed=False))

NP="Nastran/NastranParser.cpp"; NG="Nastran/NastranParser_geometry.cpp"; NT="Nastran/NastranTokenizer.cpp"
AM="Abstract/Model.cpp"; AC="Abstract/Constraint.cpp"; AL="Abstract/Loading.cpp"; AA="Abstract/Analysis.cpp"; AW="Aster/AsterWriter.cpp"; SW="Systus/SystusWriter.cpp"; NW="Nastran/NastranWriter.cpp"

p("C01","A card means the same in every legal Nastran layout",
 "A bulk data card carries the same sequence of field values whether it is written in short fixed, long fixed or free format, with or without tabs, trailing comments, comment lines in between, upper or lower case keywords, trailing blanks, with explicit or implicit continuation lines, and in the deck or in a file that an INCLUDE line stands for. Consequently two decks that differ only in the layout of their cards translate to the same output model.",
 ["inputs"],"every card (keyword and field list of any length up to several continuation lines) and every choice of layout for each of its lines",
 "tests sample a handful of hand-written decks, each in one layout; the number of layouts per card is exponential in its number of lines",
 [NT,NP],[("format detection and field splitting",NT+":splitFixed/splitFree/parseBulkSection"),("continuation handling",NT+":bulkSection next line loop")])
p("C02","Numeric fields and integer lists have their Nastran meaning",
 "Every Nastran spelling of a real number (optional sign, optional leading digits, E, e, D, d or bare signed exponent) is read as the decimal value it denotes, and every integer list, including 'a THRU b' and 'a THRU b BY s' ranges in either list position, as exactly the set of integers it denotes. A blank coordinate is read as zero.",
 ["inputs"],"every real spelling (sign, digit strings, exponent marker and sign) that fits a field and every list of integers and ranges",
 "unit tests check about a dozen spellings and a few ranges",
 [NT,"Abstract/Value.cpp"],[("real number normalisation",NT+":nextDouble"),("list and range expansion",NT+":nextInts")])
p("C03","Each subcase becomes one analysis that selects exactly its own sets",
 "For every case control section, the translation contains exactly one analysis per SUBCASE, in order and with its identifier, and each analysis uses exactly the SPC, MPC and LOAD sets selected in that subcase, or above the first subcase when the subcase does not select its own. A selection made in one subcase never affects another subcase, and a deck without subcases yields exactly one analysis with the global selections. A SUBCOM becomes the combination of the displacements of the subcases just before it with the coefficients of its SUBSEQ, the last one for the most recent subcase.",
 ["inputs","histories"],"every sequence of case control commands: global selections, any number of subcases, any interleaving and repetition of SPC/MPC/LOAD commands with labels and titles",
 "tests use one or two subcases with one particular arrangement of commands",
 [NP,AA,AM,AW],[("case control context inheritance",NP+":parseExecutiveSection/addAnalysis"),("set selection of an analysis",AA+":getLoadSets/getConstraintSets"),("solver excitation list",AW+":writeAnalysis")])
p("C04","Each analysis fixes exactly the degrees of freedom its deck fixes",
 "For every analysis, the set of (node, degree of freedom, value) single point constraints applied by the translated model is exactly the union of the SPC and SPC1 cards of the selected constraint set (through SPCADD combinations) and of the permanent constraints on GRID cards, restricted to degrees of freedom that exist. Redundant, overlapping or repeated constraint cards and constraints shared by several subcases change nothing, and two different values for one degree of freedom are never silently merged.",
 ["inputs","histories"],"every assignment of SPC, SPC1, SPCADD and GRID permanent constraints to sets and of sets to subcases",
 "redundancy removal, set sharing and per-analysis splitting interact; each unit test has a single set and at most one overlap",
 [NP,AM,AC,AA,AW],[("card reading",NP+":parseSPC/parseSPC1/parseSPCADD"),("redundant constraint removal",AM+":removeRedundantSpcs"),("sharing between analyses",AA+":removeSPCNodeDofs"),("output",AW+":writeSPC")])
p("C05","Each analysis receives exactly the loads of its deck",
 "For every analysis, the nodal forces and moments, imposed displacements, gravity and rotation fields and pressures of the translated model are exactly those of the selected load set: the sum over its cards of scale factor times direction, a LOAD card contributing each component set multiplied by the overall and individual factors. A load set combined with a factor in one subcase keeps its own value wherever else it is used.",
 ["inputs","histories"],"every distribution of FORCE, MOMENT, FORCE1/2, SPCD, GRAV, RFORCE, PLOAD2/PLOAD4 cards over sets, LOAD combinations over them (sharing sets, factors equal to one, several levels of scaling) and subcase selections",
 "tests check single cards; sharing of scaled sets between combinations and subcases is not sampled",
 [NP,AL,AM,AA,AW],[("load combination replacement",AM+":replaceCombinedLoadSets"),("scaling",AL+":scale"),("nodal summation and output",AW+":writeNodalForce")])
p("C06","Rigid elements and MPCs impose exactly their kinematic relations",
 "The linear relations of the translated model span exactly the relations of the deck: an MPC card gives its weighted sum, and RBE2, CRIGD1, RBAR and RBAR1 rigid elements tie each dependent degree of freedom to rigid body motion of the independent node (translation plus rotation times lever arm). No relation is lost, duplicated with another coefficient, or applied in an analysis whose deck does not select it.",
 ["inputs"],"every MPC term list, every RBE2/RBAR/RBAR1 geometry, component set and combination with single point constraints and subcases",
 "tests check that translation runs and one or two coefficient lists; the algebra must hold for all component subsets and lever arms",
 [NP,AC,AM,AW],[("quasi rigid emulation",AC+":QuasiRigidConstraint::emulateWithMPCs"),("MPC reading",NP+":parseMPC"),("relation output",AW+":writeLMPC")])
p("C07","The mesh is preserved: nodes, coordinates, connectivity and groups",
 "The output mesh contains each grid point of the deck exactly once at its position in the global frame (GRID coordinates being interpreted in their coordinate system), and each element exactly once, with the same nodes in the order that denotes the same shape, in the group of its property. No node or element is lost, duplicated, renumbered into another, or moved, whatever the identifiers and the order of the cards.",
 ["inputs"],"every set of grid points and elements of the supported types, arbitrary sparse identifiers, forward references, nested rectangular coordinate systems",
 "tests check counts or a few elements; identifier-to-position maps and node orders must be right for every type and numbering",
 ["Abstract/Mesh.cpp","Abstract/MeshComponents.cpp",NG,"Aster/MedWriter.cpp",SW,"Abstract/CoordinateSystem.cpp"],[("node and cell stores","Abstract/Mesh.cpp:addNode/addCell"),("node order per type",NG+":parseCHEXA.. nastran2med"),("mesh output","Aster/MedWriter.cpp:writeMED")])
p("C08","Each element keeps its section, thickness and material",
 "Every element with a property is assigned, exactly once, the modelisation, the section or thickness of its property card and the material that card refers to: rods, bars and beams (PROD, PTUBE, PBAR, PBARL, PBEAM, PBEAML; I sections with equal flanges) with their area, moments, shear factors, dimensions and orientation vector, shells (PSHELL) with thickness and offset, laminates (PCOMP) with every ply's material, thickness and angle in order, the plies of a SYM laminate mirrored and Z0 honoured, solids (PSOLID) with their integration scheme. Non structural mass is carried once. MAT1 and MAT8 materials get the constants of their card, the one missing among E, G and nu being completed from the other two and blank ply fields from the ply before; densities are multiplied once by PARAM WTMASS. Elements of different properties never exchange characteristics.",
 ["inputs"],"every assignment of elements to properties and of properties to materials, with sparse and shared identifiers in any card order",
 "tests check one property kind at a time",
 [NP,AM,"Abstract/Element.cpp","Abstract/Material.cpp",AW],[("material assignment",AM+":assignMaterial/assignElementsToCells"),("section output",AW+":writeAffeCaraElemPoutre"),("offsets",AM+":splitElementsByCellOffsets"),("non structural mass",AM+":emulateAdditionalMass"),("material completion",NP+":parseMAT1")])
p("C09","Discrete stiffness, mass and damping are conserved",
 "In the Code_Aster study of a Nastran deck, the sum of the discrete stiffness coefficients seen by every pair of (grid point, component) equals that of the deck, and so do the sums of the damping and of the mass coefficients: scalar springs (CELAS1 with PELAS, CELAS2), dampers (CDAMP1 with PDAMP) and masses (CMASS2), between any two components, of one grid point or of two, or grounded (second grid point blank); bushes (CBUSH with PBUSH: K and B; in the basic system); concentrated masses (CONM1, CONM2 with offset, inertia and products of inertia); direct matrices (DMIG of form 6, selected by K2GG, B2GG, M2GG). It holds whatever the number of elements sharing a grid point, a property or a card, the order of the cards and the numbers used for elements and properties. A component on which a discrete element acts is not blocked unless the deck blocks it, and the ground is blocked.",
 ["inputs"],"every set of discrete elements and direct matrix entries over nodes and components, including grounded ends, shared nodes and both ends on one node",
 "tests check a single element of each kind",
 [NP,NG,"Abstract/Element.cpp",AM,AW],[("spring grouping","Abstract/Element.cpp:ScalarSpring"),("direct matrix replacement",AM+":replaceDirectMatrices"),("discrete output",AW+":writeAffeCaraElem")])
p("C10","A faulty card is contained and the outcome reported truthfully",
 "In best effort mode (the default) a bulk data card that is unknown or malformed (a word or a real where an integer belongs, a word where a number belongs, a required field left blank) affects nothing but itself: every other card is translated as if the faulty card were absent, whatever its position and number of lines, and the run ends with code 0. In strict mode the same deck ends with code 6 and no translation is written, while a deck without faulty cards ends with 0 in every mode. A card with fields in excess keeps its meaning in best effort mode and is an error in strict mode. On the command line: a missing input file, a missing result file, an output directory that cannot be created, an option or value that is unknown or refused, more than one mode, and an unknown format each end with their own non-zero code (2, 2, 3, 4, 4, 4), code 0 is returned exactly when there is nothing wrong and, unless help or version was asked for, a translation was written.",
 ["inputs","fault_sequences","configurations"],"every position and kind of faulty card in a deck, for both translation modes and the command line error classes",
 "tests use single fixed faulty decks; containment must hold for any card at any position, in particular multi-line ones",
 [NP,NT,"Commandline/VegaCommandLine.cpp"],[("card dispatch and error handling",NP+":parseBULKSection/handleParsingError"),("skipping",NT+":skipToNextKeyword"),("exit codes","Commandline/VegaCommandLine.cpp:process")])
p("C11","Degree-of-freedom sets and matrices obey set and matrix algebra",
 "Degree-of-freedom sets behave as subsets of the six components under construction from codes, union, difference, intersection, containment, counting, iteration and conversion back to codes, for all 64 sets. Matrices indexed by degrees of freedom return exactly the coefficients stored, symmetrised when symmetric, and report equality, symmetry, diagonality, rotation content and their vector forms accordingly. Vectors of coefficients indexed by degrees of freedom add, scale and compare component by component, a component without coefficient staying without one.",
 ["inputs","histories"],"all 64 sets and pairs of them, and every short history of matrix component additions for the full, symmetric and diagonal kinds",
 "unit tests check a few sets out of 64x64 pairs",
 ["Abstract/Dof.cpp","Abstract/Dof.h"],[("set operations","Abstract/Dof.cpp:DOFS"),("matrix storage","Abstract/Dof.cpp:DOFMatrix")])
p("C12","Mesh registry operations keep identifiers, positions and groups consistent",
 "Under any history of reserving, adding, redefining and finding nodes and elements and of filling named groups, an identifier always maps to one position and back, positions are never reused, a reserved item keeps its position when it is later defined, automatic identifiers never collide with explicit ones already used, and a group contains exactly what was put in it.",
 ["histories"],"every interleaving of reserve, add, redefine, automatic numbering, find and group operations",
 "tests execute one straight-line history each",
 ["Abstract/Mesh.cpp","Abstract/MeshComponents.cpp"],[("node storage","Abstract/Mesh.cpp:addNode/findOrReserveNode"),("cell storage","Abstract/Mesh.cpp:addCell"),("groups","Abstract/MeshComponents.cpp")])
p("C13","Translation is deterministic and independent of bulk card order",
 "Translating the same deck twice gives identical files apart from dates, and permuting the bulk data cards of a deck gives the same model: same nodes, elements, properties, constraints, relations and loads per analysis. The numbers and the names that the translator itself gives to nodes, cells and groups may depend on the order, what they stand for may not.",
 ["inputs","schedules"],"every permutation of the cards of a deck and every repetition of the translation",
 "a test runs one order; forward references make every order legal",
 [NP,"Abstract/Mesh.cpp",AM],[("forward references","Abstract/Mesh.cpp:findOrReserveNode/findOrReserveCell"),("deferred resolution",AM+":finish")])
p("C14","Result files become exactly the matching checks of the right analysis",
 "Every displacement, complex displacement, eigenvalue (real or buckling) and solid von Mises record of an F06 reference file, and every displacement of a CSV table written for the same model, becomes exactly the checks it stands for in the Code_Aster study: the right grid point or mode, component in the global frame, analysis, frequency, load step or instant, value and tolerance; nothing else does, and no check is made on a result the study does not compute. Pages, blank lines, labels, headings with any words, other tables, tables going on over a page, scalar points and records for subcases, grid points and elements absent from the deck change nothing else and never end the translation. A heading names the subcase of the pages after it; eigenvalues of residual vectors and of modes outside the cutoff frequencies are not checked.",
 ["inputs","histories"],"every sequence of sections, subcase headings, page breaks and unrelated lines in a result file, for any set of subcases in the deck",
 "tests read three fixed files",
 ["ResultReaders/F06Parser.cpp","ResultReaders/CSVResultReader.cpp",AW,"Abstract/Objective.cpp"],[("section state machine","ResultReaders/F06Parser.cpp:add_assertions"),("check output",AW+":writeNodalDisplacementAssertion")])
p("C15","Nastran output re-reads as the same model",
 "Translating a deck to Nastran, in either dialect, gives a deck that, read again, denotes the same model for the supported cards: the same grid points (with their coordinate systems), elements, offsets, orientations, sections, materials, single point constraints, multipoint constraints, rigid elements and loads in the same analyses. Identifiers, field widths and continuation lines never make two different entities collide or truncate a term; values keep the three to five digits that an eight character field has room for. Supported: GRID with CP and CD, CORD1R, CORD2R, CORD2C; CROD, CONROD, CBAR, CBEAM, shells, solids (quadratic ones in the modern dialect); PROD, PBAR, PBEAM, PSHELL, PSOLID, MAT1 (no shear factors nor non structural mass); SPC, SPC1, SPCADD, SPCD; MPC, RBE2, CRIGD1, RBAR, RBAR1, RBE3; FORCE, MOMENT, FORCE1, FORCE2, pressures, GRAV, LOAD; any number of static subcases (a deck without any comes back as subcase 1).",
 ["inputs"],"every deck over the supported cards, any number of subcases, both dialects of the output",
 "tests only check that the output can be produced",
 [NW,NP],[("card writing",NW+":Line"),("set identifiers",NW+":writeConstraints/writeLoadings")])
p("C16","Local coordinate systems give the same physics in the global frame",
 "Forces and moments given in a local coordinate system, and blocked or imposed components (GRID, SPC, SPC1) and multipoint relations (MPC) on grid points with a displacement coordinate system, denote in the Code_Aster study the corresponding global quantities: each load has the global components it has in the local axes, a constraint on a local component constrains exactly the matching linear combination of global components to the same value, and each is written once. Systems are rectangular or cylindrical (with the axes at the grid point; on the axis those of the defining rectangular system), possibly defined relative to rectangular ones or by grid points, and the cards come in any order.",
 ["inputs"],"every chain of coordinate systems and every use of them by grid points (position or displacement), forces, moments and relations, in any card order",
 "tests use one system with one point",
 ["Abstract/CoordinateSystem.cpp",AM,AC,AL,NG],[("frame change","Abstract/CoordinateSystem.cpp:vectorToGlobal/positionToGlobal"),("constraint conversion",AM+":emulateLocalDisplacementConstraint")])
p("C17","Solver runs are launched only when asked and their outcome is reported",
 "A solver is started exactly when a run is requested and the translation succeeded, once, in the requested output directory, after its input files are complete and the results of an earlier run are removed. The exit code tells a bad option, a missing input, an output directory that cannot be made, a parsing error in strict mode, and a solver that succeeded, was not found, failed, was killed by a signal, found a syntax error (Code_Aster), left no results or reported a failed test in them. A value on the command line overrides the one of the configuration file, which overrides the default, and nothing is written outside the requested output directory.",
 ["configurations","fault_sequences"],"every combination of run flag, option sources and solver outcome (exit status, signal, missing executable)",
 "tests never execute the run path with failing solvers",
 ["Commandline/VegaCommandLine.cpp","Abstract/SolverInterfaces.cpp","Nastran/NastranRunner.cpp","Systus/SystusRunner.cpp","Aster/AsterRunner.cpp"],[("outcome mapping","Abstract/SolverInterfaces.cpp:convertExecResult"),("option precedence","Commandline/VegaCommandLine.cpp:process")])
p("C18","Modal and frequency analyses keep their search ranges, damping and excitations",
 "For modal, direct and modal frequency response solutions, whatever the order of the cards, each analysis keeps the supports it selects; the number of modes, the frequency band (narrowed by the cutoff parameters) and the normalization of the eigenvalue card it selects; all the frequencies of the FREQ and FREQ1 cards of its set, in increasing order and once each (or the range and spread of its FREQ4 card); the modal damping table, with the ratio its type implies; and the excitations of the RLOAD1, RLOAD2 or DLOAD card it selects: each loaded component with its table, its phase, and the product of the scale factors on the way, without any other excitation or analysis being changed. Residual vectors, when asked for, are those of the loaded components of the analysis. Tables keep every abscissa/ordinate pair that is not skipped, and their interpolation kinds.",
 ["inputs"],"every set of EIGRL, EIGR, FREQ, FREQ1, FREQ4, TABDMP1, TABLED1, RLOAD1, RLOAD2, DLOAD, DAREA, FORCE, MOMENT, DPHASE cards in any order, any selection of them by the subcases, cutoff parameters, fixed and free format",
 "tests check one modal and one frequency deck",
 [NP,"Abstract/Objective.cpp","Abstract/Value.cpp",AA,AW],[("objective selection",AA+":get*Search"),("function output",AW+":writeValue")])
p("C19","Systus and Code_Aster outputs describe the same model",
 "For every static deck, the Systus model files hold the same model as the Code_Aster study: the grid points with their identifiers and coordinates; every element with its identifier, a type code and node list of the same shape and orientation, and the group of its property; each analysis in exactly one file, whichever way analyses are put together in files; and per analysis the blocked components and imposed displacements (in the local systems of the nodes), the nodal forces and moments and the gravity, without those of another analysis. The counts announced in a file are those of what follows. (13-node pyramids, which Systus lacks, pressures, and elements made for multipoint relations and rigid elements are not part of this statement.)",
 ["inputs","configurations"],"every static deck over grid points, bars, shells, solids, SPC, SPC1, SPCADD, SPCD, FORCE, MOMENT, FORCE1, FORCE2, GRAV, LOAD and coordinate systems, every grouping of analyses (automatic, single, listed by the user)",
 "tests compare nothing across the outputs",
 [SW,"Systus/SystusAsc.cpp",AW,AM],[("Systus model file",SW+":writeAsc"),("constraint codes",SW+":iconst")])
p("C20","Faces of solid elements are the right node lists",
 "For tetrahedra, pyramids, pentahedra and hexahedra, with and without mid side nodes, the face lists of an element cover its surface exactly once: each face lists its corners in the same orientation seen from outside followed by the mid side nodes of its own edges, in the order of the edges. The face designated by one or two corners (as pressure cards and contact surfaces do) is a face with those corners, or, for a tetrahedron, the face without the second one, and no face is returned when there is none.",
 ["inputs"],"every solid element type, every numbering of its nodes and every pair of corners",
 "tests look at one or two faces of a hexahedron; the tables have over a hundred entries",
 ["Abstract/MeshComponents.cpp","Abstract/MeshComponents.h"],[("face tables","Abstract/MeshComponents.cpp:CellType"),("face search","Abstract/MeshComponents.cpp:faceids_from_two_nodes")])
p("C21","Nonlinear static subcases follow the load history of the deck",
 "In a nonlinear static solution the subcases, in their order, are one history. Each analysis lasts one unit of pseudo time, begins when and in the state in which the analysis before it ends (the first one at zero and at rest), in the number of increments of the NLPARM card that its subcase selects or that is selected above the first subcase (10 when the card says nothing). Over it the nodal forces, moments and gravity of the subcase before fade linearly from their values to nothing while its own grow linearly from nothing to theirs, so that the loads applied never jump and are exactly those of its subcase when it ends; loads of other subcases play no part. The supports are, throughout, those its subcase selects, at their full value.",
 ["inputs"],"every sequence of nonlinear subcases, any selection of strategies, supports and loads by them (the same ones again, none, combinations with factors), any identifiers and order of the selections",
 "tests translate a few nonlinear decks, mostly of one subcase, without looking at the excitations",
 [NP,AW,AA],[("nonlinear analysis output",AW+":writeAnalysis"),("chaining of the subcases",NP+":addAnalysis")])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for x in P:
            assert len(x["title"])<=80,(x["id"],len(x["title"]))
            f.write(json.dumps(x)+"\n")
