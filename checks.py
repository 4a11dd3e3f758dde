# id -> (technique, level note). Read by gen_manifest.py.
BFS = "explicit-state breadth-first exploration of refinement histories of the real Mesh in lock step with an integer-rectangle reference model"
T["C03"] = (BFS, "Exhaustive over all refinement sequences to the stated depth from 9 (quick) or 14 (thorough) start meshes, and over the stated deep (to the size limit, 15-22 levels), wide (to 300 cells) and huge (to 87381 elements, 66560 cells) families; nothing is claimed beyond those or for other cell arrangements.")
T["C04"] = (BFS, "As C03; node and edge incidence is read through the JSON form of edges and nodes.")
T["C05"] = (BFS, "As C03; the expected activation is derived from rectangles only, plus an independent cover-exactly-once length count.")
NA = {}
NOTES = "See DESIGN.md."
HOOKS = None
T["C06"] = ("exhaustive enumeration of refinement request batches, lists and filters on every reachable small mesh, against a reference model and across permutations", "Exhaustive over ordered batches of up to 2 (small meshes: 3) requests of all seven kinds and all filters on meshes of up to 3-4 leaves; longer batches only in stated patterns (up to three requests for every leaf of up to 272 cells or 12 levels).")
T["C07"] = ("exhaustive fault enumeration over request batches on every reachable small mesh, with exact before/after state comparison", "All invalid requests at all positions of batches up to 3; minimum-length behaviour over a grid of cell sizes. Lengths exactly at the limit are not judged. One recorded known finding.")
T["C08"] = ("exhaustive enumeration of order/increment pairs, plus explicit-state exploration of p-request sequences against integer arithmetic", "All 20x20x256x256 order/increment pairs and all pairwise sums; mesh-level sequences to depth 2-4 over a fixed boundary-value alphabet; long batches on large meshes in stated patterns.")
PROD = "exhaustive enumeration of refinement trees x expansion-order assignments on the real Mesh and Domain"
T["C09"] = (PROD + ", compared with the degree-of-freedom set derived from a rectangle model", "Trees to depth 1-4, assignments uniform up to 1-2 deviating elements (leaf or not); chains to the size limit, up to 300 cells (and 66560), orders to 20.")
T["C10"] = (PROD + ", with trace comparison of the library's own fields on every interface", "As C09 with smaller bounds; jumps are judged at 1e-8 of the field's size, independence by a rank computation.")
T["C11"] = (PROD + ", every matrix entry compared with an independent leaf-by-leaf integration", "As C09 with smaller bounds; real materials from 1e-15 to 1e15; relative tolerance 1e-9.")
T["C12"] = (PROD + " x all quadrature grids and error conditions", "Grids 0..9 (quick) or 0..14 (thorough), 20 and 33 per direction, on small meshes.")
T["C14"] = ("explicit-state exploration of refinement and order-increase transitions; each old field is projected on the span of the new fields", "Trees to depth 1-3 with uniform orders; every single h-refinement and order increases of up to two elements.")
T["C01"] = ("exhaustive enumeration of mesh files (cell arrangements x node orders x cell orders x coordinates x spellings), import compared field by field", "All arrangements in boxes up to 3x2 / 3x3; all node orders of files up to 5-6 nodes, transposition-closed families above.")
T["C02"] = ("exhaustive fault enumeration on mesh files: every single corruption of the listed kinds at every position, every truncation and structural deletion", "Single faults on 5 (quick) / 11 (thorough) base files.")
T["C22"] = (PROD + "; the exported file is parsed and compared entry by entry with a rectangle model; I/O faults on the output path", "Trees to depth 1-4; four kinds of unwritable path.")
T["C23"] = (PROD + "; every query on every id, existing or not, compared with a rectangle model", "Trees to depth 1-5; past-the-end ids: first, second, far, maximal.")
T["C15"] = ("exhaustive enumeration of orders x point sets x ancestor-descendant pairs of every reachable refinement tree; every accessor compared with the closed form", "Orders 0..20 (24); trees to depth 2-3 (4), chains to the size limit (14-20 levels); values to 1e-11 relative.")
T["C16"] = ("exhaustive enumeration of n, exponents, weight-vector sizes, edges and intervals, compared with exact integrals and an independent rule", "n from 1 to 260 and some to 514 (quick) or 700 (thorough).")
T["C24"] = (PROD.replace("x expansion-order assignments ", "x ancestor-descendant pairs x direction and order pairs ") + ", compared with exact integrals", "Orders up to 4-8 (quick) or 6-12 (thorough) on every tree to depth 1-3; orders to 1 (2) on chains to the size limit (14-20 levels).")
T["C17"] = ("explicit-state exploration of sequences of matrix operations on the real SparseMatrix, in lock step with a map model", "All operation sequences to the stated depth over small index and value alphabets (either triangle, overwriting, groups in any order); dense forms and errors compared exactly.")
T["C18"] = ("exhaustive enumeration of small matrices (patterns, values, insertion orders) with byte-exact decoding of the exported files; I/O faults on the output path", "All patterns up to the stated dimension over a small value alphabet that includes extreme doubles; four kinds of unwritable path.")
T["C20"] = ("exhaustive enumeration of small integer pencils x targets, residual and nearest-eigenvalue compared with an independent Jacobi reference", "All symmetric pencils of the enumerated families; problems whose eigenvalues nearly tie at the target are judged on the residual only. One recorded known finding.")
T["C19"] = ("exhaustive fault enumeration on the protocol: the real solve call against a stand-in solver that plays every exit status, signal and result-file fault, plus every order of concurrent runs and every byte at which writing the inputs fails; the directory is compared before and after", "All 256 exit codes, all terminating signals, all truncations and header bit flips of results up to 4 (9) entries; up to 3 (4) concurrent runs.")
T["C21"] = (PROD + " x sampling densities, every unit solution vector compared with closed-form fields, exported files parsed; all sequences of field operations to a depth", "Trees to depth 1-3, chains to the size limit, up to 272 cells, orders to 20; densities 2 to 7 (12) per direction; operation sequences to depth 3 (4).")
T["C13"] = ("stateless model checking of the real assembly: a controlled scheduler explores every schedule up to a deviation bound, with standard synchronisation and the rayon pool routed through it in a copy of the current sources", "All schedules with up to 1-4 deviations from three default schedules on 1-4 workers, meshes of 1-12 elements; sequential consistency between synchronisation points; the pool is a stand-in with rayon-core's splitting and stealing rules.")
T["C25"] = ("exhaustive enumeration of value pairs, child-position sequences and coordinates around the accuracy of positions; bounded exhaustive exploration of refinement histories of the real mesh for the mappings, compared with integer rectangles", "Matrices over 4 (6) values; positions to depth 4 (6); trees to depth 2 (3) with all seven kinds, chains to the size limit.")
T["C26"] = (PROD + " x changes of description, the symmetric functions of the assembled pencil's eigenvalues compared between descriptions; cavities compared with analytic eigenvalues", "Trees to depth 1-2 (3) of up to 14 elements; some forty changes of description each.")
T["C27"] = (PROD + " x function spaces (the library's two and four of our own), symmetric functions of the assembled pencil's eigenvalues compared between spaces; HierMaxOrtho enumerated over orders and point lists against integer arithmetic", "Trees to depth 1-2 (3), orders to 6 for HierPoly and 20 for HierMaxOrtho.")
