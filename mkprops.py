"""Generates properties.jsonl (kept so that wording and anchors stay reviewable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": ["ramannoodle/" + f for f in files],
         "mechanism": [{"name": n, "where": "ramannoodle/" + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "ramannoodle/" + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

ST = ["structure/_reference.py", "structure/_displace.py", "structure/utils.py", "structure/_symmetry_utils.py"]
PM = ["pmodel/_interpolation.py", "pmodel/_art.py"]
TO = ["pmodel/torch/_gnn.py", "pmodel/torch/_train.py", "pmodel/torch/_utils.py", "dataset/torch/_dataset.py", "dataset/torch/utils.py"]
DY = ["dynamics/_phonon.py", "dynamics/_trajectory.py"]
SP = ["spectrum/_raman.py", "spectrum/utils.py"]
IO = ["io/generic.py", "io/_utils.py", "io/pymatgen.py", "io/vasp/outcar.py", "io/vasp/poscar.py", "io/vasp/vasprun.py", "io/vasp/xdatcar.py"]

p("C01", "Caller's arrays, lists and tensors are never modified",
  "No public function, method or constructor changes the contents of an array, list or tensor that the caller passed to it, whether during that call or in any later call on an object that was built from it. The only things an update method changes are the object it is called on.",
  ["inputs", "histories"], "every public callable, every argument value, and every later sequence of calls on an object that kept a reference to the argument",
  "Tests compare results, almost never arguments before and after; an in-place operator on a buffer that happens to be shared is invisible unless the same array is reused afterwards.",
  ST + PM + TO + DY + SP + IO, [("in-place updates only act on buffers allocated inside the call", "pmodel/_interpolation.py"), ("stored arguments are not written through", "pmodel/_interpolation.py")],
  ["argument buffers after the call"])
p("C02", "Data handed out by an object is independent of the object's internals",
  "Arrays, lists and tensors returned by properties, queries and item access never share memory with the state of the object they came from, so a caller that edits a returned value cannot change the object or any later answer. This includes containers: neither the container nor anything inside it is shared.",
  ["inputs", "histories"], "every property, query and item access of every public class, after any history of calls",
  "Tests read values and compare; none edits a returned value and looks at the object again for each accessor.",
  ST + PM + TO + DY + SP, [("copies in the accessors", "structure/_reference.py"), ("deep copies of lists of arrays", "pmodel/_interpolation.py")],
  ["returned buffers"])
p("C03", "Queries and predictions leave every object as it was",
  "Reading properties, predicting polarizabilities, measuring spectra and computing spectra from dynamics have no effect on the observable state of any model, structure, dynamics, dataset or spectrum involved, so repeating or interleaving queries always gives the same answers. Values cached between calls are always those that a fresh computation for the current arguments would give.",
  ["histories"], "every finite sequence of queries on every public object",
  "Tests make one or two queries on a fresh object; history dependence needs particular sequences.",
  ST + PM + TO + DY + SP, [("queries write no fields", "pmodel/_interpolation.py"), ("triplet cache is keyed by batch size", "pmodel/torch/_utils.py")])
p("C04", "A rejected model update leaves the model exactly as it was",
  "When adding a degree of freedom or an atomic Raman tensor is rejected with any exception, the model's degrees of freedom, interpolations and mask are exactly what they were before the call. After any history of accepted and rejected updates each degree of freedom has exactly one mask entry and, unless the model is a dummy model, exactly one interpolation.",
  ["inputs", "histories", "fault_sequences"], "every update entry point of both interpolation models, every rejected argument or unreadable file, at every point where the update can fail",
  "The tests assert that exceptions are raised, not what the model looks like afterwards, and cannot reach every raise site after every partial update.",
  PM, [("validation and spline construction precede the commit", "pmodel/_interpolation.py")],
  state=[("basis vectors / interpolations / mask", "three parallel sequences", "pmodel/_interpolation.py")])
p("C05", "Existing files are never overwritten unless overwrite was requested",
  "Every function that writes a file refuses with FileExistsError, leaving the file untouched, when the destination exists and overwriting was not explicitly requested; overwriting is off by default everywhere. A request to overwrite, given to any of the writing functions, reaches the write that is performed.",
  ["inputs", "schedules"], "every writing function, every supported format, every destination, including one created concurrently",
  "Tests check the code-specific writers for one destination each; the generic and displacement writers forward the flag and their default through several layers.",
  ["io/generic.py", "io/vasp/poscar.py", "io/vasp/xdatcar.py", "structure/_displace.py"], [("exclusive-creation open mode", "io/vasp/poscar.py"), ("exclusive-creation open mode", "io/vasp/xdatcar.py")], ["open modes of all file writes"])
p("C06", "A rejected write leaves the destination untouched",
  "When a write is rejected because of its arguments (wrong shapes, coordinates out of range, unknown or ungrouped atoms, wrong number of destinations, unknown format), no destination file has been created, truncated or modified. For functions that write several files this holds for all of them.",
  ["inputs", "fault_sequences"], "every writing function and every argument that makes it raise something other than an operating-system error",
  "Tests check that the exception is raised but not what is left on disk, and do not combine rejection with overwriting.",
  ["io/generic.py", "io/vasp/poscar.py", "io/vasp/xdatcar.py", "structure/_displace.py"], [("text is fully built before the file is opened", "io/vasp/poscar.py"), ("destination count checked before the first write", "structure/_displace.py")])
p("C07", "Unreadable file content is reported only through documented exceptions",
  "For any text content of an input file, every reader either returns or raises its documented invalid-file exception (or, where documented, the symmetry or incompatible-structure exception); it never leaks an index, key, value, type, attribute or linear-algebra error.",
  ["inputs"], "every reader of every format, every content (truncated, ragged, non-numeric, missing sections, unknown elements)",
  "Tests feed a dozen damaged files; the statement ranges over all texts.",
  ["io/vasp/outcar.py", "io/vasp/poscar.py", "io/vasp/vasprun.py", "io/vasp/xdatcar.py", "io/_utils.py", "io/generic.py"], [("conversion of parse errors to the documented exception", "io/vasp/outcar.py"), ("length checks on parsed rows", "io/vasp/poscar.py")])
p("C08", "Generic IO does exactly what the documented format table says",
  "For each format name that the documentation lists for an operation, the generic function performs that operation with the reader or writer of that format and passes all of its arguments through unchanged; for every other format name it raises ValueError. Errors raised while reading or writing a supported format are not reported as an unsupported format.",
  ["inputs", "configurations"], "all generic operations x all format names",
  "Tests exercise a subset of operation/format pairs, mostly through other features.",
  ["io/generic.py", "io/vasp/outcar.py", "io/vasp/poscar.py", "io/vasp/vasprun.py", "io/vasp/xdatcar.py"], [("dispatch tables", "io/generic.py")])
p("C09", "Moving atoms by whole lattice vectors changes nothing",
  "Adding any integers to any fractional coordinates given to a polarizability model, to a trajectory, to a distance or displacement calculation, or to the positions from which a model is built changes no predicted polarizability, spectrum, displacement or acceptance decision. Trajectory positions are always stored inside the unit cell, and displacements between positions (also those a neural network sees) are the shortest ones, within half a cell in every component.",
  ["inputs"], "all atoms, all integer shifts, all models and structure utilities",
  "Tests use coordinates inside one cell and at most one shifted example.",
  ST + PM + DY + ["pmodel/torch/_gnn.py", "pmodel/torch/_utils.py"], [("minimum-image displacement", "structure/utils.py"), ("minimum-image displacement on tensors", "pmodel/torch/_gnn.py")])
p("C10", "Fractional and Cartesian quantities are never mixed",
  "Every conversion between fractional and Cartesian coordinates uses the lattice (rows are lattice vectors) in the right direction exactly once, and symmetry rotations are applied in the basis the data is expressed in, so results are right for every lattice, not only for cubic or orthogonal ones. Quantities documented as Cartesian or fractional really are that.",
  ["inputs"], "all lattices (including oblique ones), all structures, all conversions in structures, models, readers and writers",
  "Most test structures are orthogonal, where a transposed or doubled lattice factor, or a rotation in the wrong basis, gives the same numbers.",
  ST + PM + ["io/vasp/outcar.py", "io/vasp/vasprun.py", "io/vasp/poscar.py", "io/vasp/xdatcar.py", "pmodel/torch/_gnn.py", "pmodel/torch/_utils.py"], [("right multiplication by the lattice or its inverse", "structure/_reference.py"), ("inverse lattice in readers", "io/vasp/outcar.py")])
p("C11", "Only the direction of direction-like arguments matters",
  "Where an argument is documented to give only a direction (the displacement of a degree of freedom, the direction of an atomic Raman tensor, the displacement or direction of generated displaced structures), multiplying it by any positive number does not change the outcome. Generated structures are displaced by exactly the requested amplitudes.",
  ["inputs"], "all directions and all positive scale factors, including ones that make components exceed half a cell",
  "Tests use unit-length or small directions.",
  ["structure/_displace.py", "structure/_reference.py", "pmodel/_interpolation.py", "pmodel/_art.py"], [("normalisation of the direction", "structure/_displace.py"), ("normalisation of the direction", "pmodel/_art.py")])
p("C12", "Polycrystalline intensities are the rotation-invariant Raman intensities",
  "Raw polycrystalline intensities of phonon and molecular-dynamics spectra are the same rotation-invariant combination (45 times the squared mean polarizability plus 7 times the squared anisotropy) of the Raman tensor or of the polarizability derivative signals, for every tensor. Any other orientation is refused.",
  ["inputs"], "all Raman tensors / polarizability time series",
  "Tests compare with a few stored spectra of highly symmetric crystals, in which several tensor components vanish or coincide.",
  SP, [("invariants", "spectrum/_raman.py")])
p("C13", "A constant offset of the polarizability has no effect on any spectrum",
  "Adding the same constant tensor to every polarizability (reference and degrees of freedom given to a model, or a polarizability time series) leaves every phonon and molecular-dynamics Raman spectrum unchanged.",
  ["inputs"], "all models, time series and constant tensors",
  "No test compares two spectra that differ by an offset.",
  SP + DY + PM, [("differences only", "spectrum/_raman.py"), ("delta polarizabilities", "pmodel/_interpolation.py")])
p("C14", "Spectral corrections are applied only on request, and with the right physics",
  "A correction that is switched off has no influence: its parameters change nothing, in both kinds of spectra. A correction that is switched on multiplies the raw intensities by the documented factor: the laser factor is (wavenumber minus laser wavenumber)^4 over wavenumber with the laser wavelength in nm, and the Bose-Einstein factor is 1/(1-exp(-hc*wavenumber/kT)) with T in kelvin; wavenumber axes are in reciprocal centimetres for timesteps in femtoseconds.",
  ["inputs", "configurations"], "all combinations of the two switches and all values of wavelength, temperature and timestep",
  "Tests cover a few combinations at default parameters against stored numbers.",
  SP, [("guarded multiplications", "spectrum/_raman.py"), ("correction functions", "spectrum/_raman.py"), ("frequency axis", "spectrum/utils.py")])
p("C15", "Element tables are complete, correct and mutually consistent",
  "The tables of chemical symbols, atomic numbers and atomic weights cover all 118 elements with the standard values; symbol-to-number and number-to-symbol are exact inverses of each other; every element that can be read from a file has a weight.",
  ["inputs"], "all 118 elements in all tables",
  "Tests touch about six elements.",
  ["constants.py"], [("tables", "constants.py")])
p("C16", "Six-component polarizability vectors use one ordering everywhere",
  "All conversions between 3x3 polarizabilities and six-vectors use the order xx, yy, zz, xy, xz, yz; converting a vector to a tensor always gives a symmetric tensor and converting back gives the same vector. Scaling of polarizabilities for training subtracts the mean and divides by the standard deviation, and prediction undoes exactly that, element by element.",
  ["inputs"], "all vectors/tensors, all means and standard deviations",
  "Tests use one small dataset; a consistent permutation of two components in one of the places passes them.",
  TO[3:] + ["pmodel/torch/_gnn.py"], [("ordering tables", "dataset/torch/utils.py"), ("flattening", "dataset/torch/_dataset.py"), ("unscaling", "pmodel/torch/_gnn.py")])
p("C17", "Masking removes exactly the masked degrees of freedom and nothing else",
  "A masked degree of freedom contributes nothing to predictions and every unmasked one contributes fully and independently of the mask of the others; unmasking restores all. A masked copy is a separate model that masks exactly the requested degrees of freedom: masking or later editing either model never affects the other, and newly added degrees of freedom start unmasked.",
  ["inputs", "histories"], "all masks, all sequences of masking, unmasking, copying and adding",
  "Tests check a couple of masks on one model.",
  PM, [("weighting by the mask", "pmodel/_interpolation.py"), ("deep copy", "pmodel/_interpolation.py")])
p("C18", "Training epochs follow the training protocol",
  "During an epoch all training batches, and only those, are evaluated in training mode, and each is followed by exactly one gradient computation and one optimizer step whose gradients come from that batch alone. Validation batches are evaluated in evaluation mode, never cause a gradient or parameter update, and the reported training loss, validation loss and variance come from the respective sets.",
  ["histories", "inputs"], "all numbers of batches and epochs, all datasets",
  "The tests run a few epochs and compare losses loosely; a missing or misplaced reset still trains.",
  ["pmodel/torch/_train.py"], [("epoch loop", "pmodel/torch/_train.py")])
p("C19", "Neural-network predictions do not depend on how samples are batched",
  "Predictions of the neural network are always made in evaluation mode and each sample's prediction is returned in that sample's position, for any number of samples: batches cover all samples exactly once, in order, and the graph of one sample is never connected to that of another. The same result is obtained whatever was predicted before.",
  ["inputs", "histories"], "all sample counts and all sequences of predictions and training",
  "Tests predict a handful of samples, fewer than one internal batch.",
  ["pmodel/torch/_gnn.py", "pmodel/torch/_utils.py"], [("sub-batching", "pmodel/torch/_utils.py"), ("graph disconnection offsets", "pmodel/torch/_utils.py"), ("evaluation mode", "pmodel/torch/_gnn.py")])
p("C20", "Missing optional dependencies are reported, not stumbled over",
  "Without PyTorch or without pymatgen everything that does not need them can be imported and used, and every feature that does need the missing package fails with the documented user error, never with an import, name or attribute error.",
  ["configurations"], "all subsets of optional packages and all public features",
  "The test environment has both packages installed.",
  IO + PM + TO + ["__init__.py"], [("guarded imports and presence flags", "io/generic.py"), ("guarded imports", "io/_utils.py"), ("guarded imports", "pmodel/_interpolation.py")])
p("C21", "Results have the documented shapes for all inputs",
  "Every function, method and property that documents the shape of its result returns that shape for every valid input, including one atom, one sample and one phonon; in particular wavenumbers and intensities always have equal lengths.",
  ["inputs"], "all numbers of atoms, samples, phonons, amplitudes and degrees of freedom",
  "Tests use a few sizes.",
  ST + PM + TO + DY + SP + IO, [("shape documentation in docstrings", "abstract.py")])
p("C22", "Arguments of the wrong shape are rejected",
  "Array arguments whose documented shape is violated (wrong rank, wrong fixed extent, or extents that disagree with the other arguments or with the object's number of atoms or degrees of freedom), and None, numbers or strings given instead of arrays, are rejected with ValueError or TypeError and never silently broadcast into a result; valid shapes are accepted for every size, including sizes of one and sizes that coincide with other extents. (The element-wise helpers apply_pbc, apply_pbc_displacement, calc_displacement and displace_positions, which broadcast by design, network layers, and arguments a dummy model documents as ignored are excepted.)",
  ["inputs"], "every documented array argument, every shape violation, every valid size",
  "Tests try one or two wrong shapes per argument and only small sizes.",
  ST + PM + TO + DY + SP + IO + ["exceptions.py"], [("shape verification helpers", "exceptions.py")])
p("C23", "Unstable vibrational modes carry negative wavenumbers, from every reader",
  "Phonons with an imaginary frequency are given negative wavenumbers and stable ones positive wavenumbers, in reciprocal centimetres, whichever file format they are read from.",
  ["inputs"], "all phonon files of all supported formats",
  "No test file with imaginary modes is read from every format.",
  ["io/vasp/outcar.py", "io/vasp/vasprun.py"], [("sign of the eigenvalue", "io/vasp/vasprun.py"), ("imaginary-frequency marker", "io/vasp/outcar.py")])
p("C24", "Results are reproducible",
  "Apart from shuffling of training batches, initial network weights and progress output, results depend only on the arguments and the state of the objects involved: never on random numbers, time, environment, working directory, hash ordering or earlier unrelated calls.",
  ["histories", "configurations"], "all public functions",
  "Tests run once per process and cannot exclude hidden inputs.",
  ST + PM + TO + DY + SP + IO, [("no ambient inputs", "__init__.py")])
p("C25", "Written structures and trajectories can be read back unchanged",
  "What the writers produce is always accepted by the corresponding readers: the layout matches line by line for every label, atom list and number of configurations, and coordinates and lattice are printed with enough digits to be recovered to 1e-13.",
  ["inputs"], "all structures, trajectories and labels",
  "Tests round-trip a few structures and labels.",
  ["io/vasp/poscar.py", "io/vasp/xdatcar.py"], [("format strings", "io/vasp/poscar.py"), ("label escaping", "io/vasp/poscar.py")])
p("C26", "Integer-valued arrays behave like floating-point arrays",
  "Passing an array of integers where real numbers are expected gives the same result as passing the same numbers as floats; values are never truncated or rejected because of the integer type.",
  ["inputs"], "every numeric array argument",
  "Tests pass float arrays.",
  ST + PM + DY + SP + ["dataset/torch/_dataset.py"], [("true division and fresh float buffers", "structure/_displace.py")])
p("C27", "Each phonon's Raman tensor is the central difference along that phonon",
  "The Raman tensor of each phonon is the difference of the model's polarizability at the reference positions displaced equally forwards and backwards along that phonon's own displacement, divided by a fixed nonzero step common to all phonons, and it stays paired with that phonon's wavenumber. A trajectory's spectrum comes from the model's polarizabilities of its own configurations, in time order, with its own timestep.",
  ["inputs"], "all models, phonons and trajectories",
  "Tests compare with a few stored spectra; models that are even or linear hide one-sided or mis-centred differences.",
  DY, [("central difference", "dynamics/_phonon.py"), ("time series", "dynamics/_trajectory.py")])
p("C28", "Broadened spectra are sums of unit-area line shapes",
  "Convolving a spectrum adds, for every line, its intensity times a Gaussian (width is the standard deviation) or a Lorentzian (width is the full width at half maximum) of unit area centred at the line's wavenumber, on the requested output axis; nothing else contributes. Non-positive widths and unknown line shapes are refused.",
  ["inputs"], "all spectra, widths and output axes",
  "Tests compare one stored convolution per line shape.",
  ["spectrum/utils.py"], [("line shapes", "spectrum/utils.py")])
p("C29", "Files that disagree with each other are never combined",
  "A dataset is only assembled from files or structures that share the same lattice and the same sequence of elements, every later one being compared with an earlier accepted one; otherwise the incompatible-structure error is raised. Each sample keeps its own positions and polarizability, in the order given.",
  ["inputs"], "all lists of files/structures, with the disagreement at any position",
  "Tests use two- or three-element lists with one disagreement.",
  ["io/_utils.py", "io/pymatgen.py"], [("compatibility checks", "io/_utils.py"), ("compatibility checks", "io/pymatgen.py")])
p("C30", "Interpolated degrees of freedom respect the model's restrictions",
  "A degree of freedom is only accepted if it is orthogonal to the existing ones, its amplitudes (after symmetry) are distinct and more numerous than the interpolation order, and the order is a positive integer; an atomic Raman tensor in addition only if exactly one atom moves and exactly two amplitudes result. Methods that bypass these restrictions are refused on atomic Raman tensor models.",
  ["inputs", "histories"], "all updates through every entry point",
  "Tests try a few invalid updates per entry point.",
  PM, [("checks before the commit", "pmodel/_interpolation.py"), ("checks before the commit", "pmodel/_art.py")])
p("C40", "Symmetry-equivalent displacements are complete and not duplicated",
  "For every structure and displacement, the set of equivalent displacements found is exactly the orbit of the displacement under the space group, grouped by degree of freedom.",
  ["inputs"], "all structures and displacements", "Tests count orbits for a few crystals.",
  ["structure/_reference.py", "structure/_symmetry_utils.py"], [("orbit enumeration", "structure/_reference.py")])
p("C41", "Fitted models reproduce the polarizabilities they were fitted to",
  "When a degree of freedom (or atomic Raman tensor) is added to a model, the model then predicts the supplied polarizability at each supplied structure, and at a symmetry image of that structure (positions transformed by an operation the structure reports) it predicts the polarizability rotated in the same way, for every lattice, amplitude order and interpolation order. Where the reference polarizability is included, this also holds next to other degrees of freedom.",
  ["inputs", "histories"], "all lattices, displacements, amplitudes, polarizabilities and symmetry operations",
  "Tests compare a few predictions of one cubic-like crystal with stored values.",
  PM, [("interpolation nodes", "pmodel/_interpolation.py"), ("rotation of polarizabilities", "pmodel/_interpolation.py"), ("atomic Raman tensors", "pmodel/_art.py")])
p("C42", "Neural-network polarizabilities rotate with the structure",
  "Rotating a structure rotates the predicted polarizability tensor accordingly.",
  ["inputs"], "all structures and rotations", "Not tested; depends on trained weights.",
  ["pmodel/torch/_gnn.py"], [("edge polarizabilities", "pmodel/torch/_gnn.py")])
with open("/verif/properties.jsonl", "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
