NA = {
 "C40": "Completeness of an orbit quantifies over the numerical output of spglib and over comparisons of displaced positions within a tolerance; no static argument in reach bounds either. Its decidable clauses (whole-cell shifts, frames, independence of results) are claimed as C09, C10 and C02.",
 "C42": "Rotation equivariance is a numerical identity of trained network weights and basis functions over the reals; its decidable clause (which geometric quantities enter the network) is not strong enough to state the property.",
}
t("C01", "abstract interpretation: alias and effect analysis", "Rule: no in-place update event may hit a buffer whose allocation origin is a caller argument, for every public callable and every two-step history after a mutator.")
t("C02", "abstract interpretation: escape/alias analysis of returned values", "Rule: nothing mutable reachable from a returned value is reachable from the receiver.")
t("C03", "abstract interpretation: effect analysis with arbitrary cache contents", "Rule: queries perform no state update except cache fills keyed by the arguments they depend on.")
t("C04", "abstract interpretation: state comparison at every exceptional exit, symbolic length lockstep", "Rule: at every exceptional exit of an update method the reachable state equals the entry state; on normal exits the three sequences grow equally.")
t("C05", "abstract interpretation: effect analysis of every file-system write", "Rule: with overwrite off or omitted every write-mode open is exclusive or guarded by a non-existence test of the same path; with overwrite on every open truncates; every returning path has written; nothing else writes.")
t("C06", "abstract interpretation: typestate (no argument failure after the first destructive open)", "Rule: every exception that can leave a writer because of its arguments starts in a state in which nothing has been opened for writing, or is a loop-invariant check that has already passed there.")
t("C08", "abstract interpretation: resolved call graph per constant file format", "Rule: for each documented format the generic function enters exactly the documented function with unchanged arguments and does not catch its errors; every other format only raises ValueError.")
t("C12", "abstract interpretation with an element-wise algebraic normal form", "Rule: measure() is interpreted at a symbolic index; the normal form of the intensity equals 45 a^2 + 7 g^2 built from the definition; the signal spectrum obeys the parallelogram law; constant orientations other than 'polycrystalline' never reach a return.")
t("C13", "abstract interpretation: offset-weight analysis and algebraic normal form", "Rule: substituting (x + constant) for the polarizabilities leaves the normal form of every spectrum unchanged; predictions of fitted models have offset weight exactly 1.")
t("C14", "abstract interpretation: dependence analysis and algebraic normal form", "Rule: with a switch constant False nothing in the result graph or in the path conditions of failures depends on its parameters; with it True the normal form equals raw x factor; factors and axis constants equal the documented ones.")
t("C27", "abstract interpretation with an uninterpreted model and an algebraic normal form", "Rule: the tensor is a combination of exactly two model values with opposite constant weights at positions ref +/- s x displacement_i; time series, timestep and wavenumbers keep their index.")
t("C28", "abstract interpretation with an algebraic normal form", "Rule: the output element equals the symbolic sum over lines of intensity x unit-area line shape; constant non-positive widths and unknown names never reach a return.")
t("C15", "abstract interpretation: static evaluation of module-level tables", "Rule: the tables as they are after import (comprehensions and loops interpreted) are compared entry by entry with the periodic table; no public operation changes them.")
t("C16", "abstract interpretation with an element-wise algebraic normal form", "Rule: component k of every vector is element ORDER[k] of the tensor, in both directions, in the dataset scaling and in the network's unscaling, as an identity of normal forms at symbolic sample index; the network forward pass is left uninterpreted.")
t("C20", "abstract interpretation of three installations", "Rule: with the import of the package failing, every module outside the package's own sub-packages still imports, and every public operation either behaves as before or is refused with the user error naming the package.")
t("C29", "abstract interpretation with constant propagation over scenarios of four files", "Rule: with the lattices and element lists of four files fixed to compatible or incompatible constants, the comparison made by the assembling loop is propagated; incompatible combinations never return, compatible ones return with sample k = file k. All other numbers stay symbolic. Files beyond the fourth follow the same loop body.")
t("C18", "abstract interpretation: protocol (typestate) over the event sequence of an epoch", "Rule: an epoch is interpreted with fixed numbers of symbolic batches; events (mode, forward, loss, backward, step, zero_grad) obey the protocol, gradients form a typestate that is inductive over epochs, and the reported values are the means over the right set. Numbers of batches are fixed (3+2, 1+1); batch contents and sizes are symbolic.")
t("C19", "abstract interpretation: index-space dependence analysis", "Rule: the network and the batched prediction are interpreted for symbolic numbers of samples, atoms, edges and triplets; for every operation that moves data between rows (gather, scatter, reshape, flatten, pad, reductions) the sample coordinate of what is read is computed symbolically; the prediction of sample s may only read sample s of the inputs and parameters; batches must tile 0..S exactly once in order; every forward must run with all training flags off.")
t("C17", "abstract interpretation of operation histories with an algebraic normal form", "Rule: models with four degrees of freedom (symbolic data, one added with two symmetry equivalents) go through every short history of masking, copying, unmasking, handing masks over and growing; after each step the normal form of the prediction of every model involved must be the reference plus exactly the contributions of its unmasked degrees of freedom, each built from its own amplitudes, polarizabilities and direction.")
t("C22", "abstract interpretation: symbolic shape analysis of every public operation under every shape violation", "Rule: with one argument's documented shape broken (rank, fixed extent, extent shared with other arguments or the object) no path returns and every new exception is a ValueError/TypeError; with extents one, two and three every offered operation has a returning path.")
t("C21", "abstract interpretation: symbolic shape inference of every result", "Rule: each array, list or tuple returned by a documented operation has the documented rank and extents as polynomials in the input extents, for symbolic extents and for extents one to five; per-degree-of-freedom lists have one entry per degree of freedom.")
t("C26", "abstract interpretation of every operation with integer and with real array types", "Rule: every public operation is interpreted twice, with all numeric array arguments of real and of integer element type (NumPy/torch dtype rules: result types, stores into integer buffers, in-place true division, integer means and negative powers); with integers no exception may be added, no real value may be stored into an integer buffer and no truncating conversion may be on the way to a result or to the object's state. Assumes 64-bit integers without overflow.")
t("C24", "abstract interpretation: effect and dependence analysis of ambient inputs", "Rule: over every public operation and constructor, no ambient input (random numbers, clocks, environment, process, directory listings, identity hashes) may flow to a result, the object state, written text or the condition of an exception; nothing writes module-level state except tables keyed by everything the entry depends on; no library-wide setting is changed; text files are opened with an encoding; the order of a set of strings or objects is never observed by an order-sensitive consumer; memoised functions do not look at files; no element of a returned array is memory that was never written. Shuffling of the training loader and initial weights are exempt.")
t("C30", "abstract interpretation with constant propagation over scripted symmetry orbits", "Rule: every adder is interpreted on a two-atom cell with constant geometry, with the orbit of the displacement, the amplitudes, the order and the already present degrees of freedom fixed to constants (about 190 scenarios: valid, non-orthogonal, duplicated amplitude in the first or a later orbit, too few points, bad orders, moved atoms, wrong number of amplitudes); every scenario the property forbids must end in an exception and every permitted one must commit. Methods closed on ARTModel must raise on every path.")
t("C23", "abstract interpretation with constant propagation of example texts", "Rule: with the text of one mode line (OUTCAR, stable and unstable layouts) or one eigenvalue (vasprun.xml) fixed to constants and propagated through tests, token selection, conversions and element-wise operations, the wavenumber stored in the result has the documented sign and magnitude; everything else in the file stays symbolic.")
t("C25", "abstract interpretation with constant propagation of written texts; format and separator lints", "Rule: for symbolic sizes, every number written is exactly an element of the lattice or positions, its format keeps 1e-13, numbers are kept apart by blanks, the label cannot end its line, one row is written per atom (and configuration) and writer and readers use one encoding that can express every label; in addition the text written for a set of atom lists, labels and configurations is derived by constant propagation through the writer and propagated through each reader, which must accept it and return the same values.")
t("C09", "abstract interpretation: response domain for whole-cell shifts", "Rule: every public operation is interpreted with every array of fractional positions marked as shifted by arbitrary whole numbers of cells; each value carries its response to the shift (none, an integer array, a rigid offset, anything else) through every operation; every documented result and every decision must have no response, except positions that may shift by integers, and wrapped results must lie in their cell by interval analysis.")
t("C11", "abstract interpretation: homogeneity degree domain and algebraic normal form", "Rule: a direction multiplied by any nonzero number is given to every operation that takes one; the degree of homogeneity of each value is propagated and everything stored, returned or decided must have degree zero; the positions generated for an amplitude are computed as algebraic normal forms modulo whole cells and must be the reference plus amplitude times the unit Cartesian direction.")
t("C10", "abstract interpretation: reference-frame types of array axes", "Rule: every axis of every intermediate array carries a frame (Cartesian component, fractional component, index over lattice vectors); contractions, sums, comparisons, stores and merges of values of all public operations must be frame-correct, documented frames of results must be met, Euclidean lengths and angles of fractional vectors may only normalise or test collinearity; numbers read from OUTCAR and vasprun.xml get the frame of their heading or element, those of POSCAR/XDATCAR of the mode line (propagated as a constant) and the degree of homogeneity in the scale factor is computed. The polarizability a fitted model predicts for a symmetry image is compared, element by element with symbolic polarizabilities, with the Cartesian rotation that belongs to the rotation of the positions (three non-cubic cells). Kinds of user data come from the documented parameter names. Numerical values are not considered.")

t("C07", "abstract interpretation: exception flow of every reader over arbitrary file text", "Rule: all 26 readers (every format of the generic functions included) are interpreted with lines, words, XML elements, attributes and texts of unknown content and unknown number; every operation on them that Python, NumPy, ElementTree or a dictionary lookup may refuse raises abstractly (conversion to numbers, indexing, unpacking, missing keys, attributes of None, rows of unequal length, reshaping, broadcasting, singular matrices, arrays without rows, shape checks of constructors) and has to be shown safe by earlier tests or turned into a documented exception by a handler. An exception outside the documented set that can leave a reader is reported with the call path. Elements of lists compared with each other between iterations are accepted as checked without interpreting the comparison. Outside: UnicodeDecodeError (not text), MemoryError, the content of pymatgen objects.")
t("C41", "abstract interpretation: constant geometry, symbolic polarizabilities", "Rule: every adder and calc_polarizabilities are interpreted with a constant cell (triclinic; hexagonal, tetragonal and rhombohedral in a general orientation), displacement, amplitudes and scripted symmetry images, while polarizabilities stay symbolic. Each element of the prediction at each supplied structure and each image must be the expression pol_i, respectively Q^T (pol_i - ref) Q + ref; an interpolation is only known at its nodes (axiom: scipy's interpolants take the supplied values there), so an amplitude that is not a node, a misaligned node, a wrong sign or a rotation in the wrong direction or basis is a definite difference. How rotations act on positions is derived from transform_positions on every run. 252 predictions; geometry is bounded to the listed cells and operations, polarizabilities are not.")
