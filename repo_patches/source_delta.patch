From 95fdfca13b58ba3df3d5bd92502ead5af2703a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 01/36] fix: MDRamanSpectrum.polarizability_ts returns a copy
 as documented

---
 ramannoodle/spectrum/_raman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/spectrum/_raman.py b/ramannoodle/spectrum/_raman.py
index 8066e47..79a874f 100644
--- a/ramannoodle/spectrum/_raman.py
+++ b/ramannoodle/spectrum/_raman.py
@@ -224,7 +224,7 @@ class MDRamanSpectrum(RamanSpectrum):
         :
             Array with shape (S,3,3) where S is the number of configurations.
         """
-        return self._polarizability_ts
+        return self._polarizability_ts.copy()
 
     @property
     def timestep(self) -> float:
-- 
2.43.0


From ab26a08ee7cd9bdf76e047313633549eaa2624a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 02/36] fix: PhononRamanSpectrum.measure does not hand out its
 own wavenumbers

---
 ramannoodle/spectrum/_raman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/spectrum/_raman.py b/ramannoodle/spectrum/_raman.py
index 79a874f..6b2f51a 100644
--- a/ramannoodle/spectrum/_raman.py
+++ b/ramannoodle/spectrum/_raman.py
@@ -191,7 +191,7 @@ class PhononRamanSpectrum(RamanSpectrum):
                 self._phonon_wavenumbers, temperature
             )
 
-        return self._phonon_wavenumbers, intensities
+        return self._phonon_wavenumbers.copy(), intensities
 
 
 class MDRamanSpectrum(RamanSpectrum):
-- 
2.43.0


From 65cee340c3be5125d8cbb5e96573c7e45afe3595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 03/36] fix: indexing a Trajectory returns a copy of the
 positions

---
 ramannoodle/dynamics/_trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/dynamics/_trajectory.py b/ramannoodle/dynamics/_trajectory.py
index 9c88c9e..9313f00 100644
--- a/ramannoodle/dynamics/_trajectory.py
+++ b/ramannoodle/dynamics/_trajectory.py
@@ -102,7 +102,7 @@ class Trajectory(Dynamics, Sequence[NDArray[np.float64]]):
     def __getitem__(self, key: int | slice) -> NDArray[np.float64]:
         """Get positions (supports indexing and slicing)."""
         try:
-            return self._positions_ts[key]
+            return self._positions_ts[key].copy()
         except IndexError as exc:
             if "out of bounds" in str(exc):
                 raise IndexError("trajectory index out of bounds") from exc
-- 
2.43.0


From 00ada60cd5926c58def6ee03402c09fd4bc902e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 04/36] fix: indexing a PolarizabilityDataset returns copies

---
 ramannoodle/dataset/torch/_dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ramannoodle/dataset/torch/_dataset.py b/ramannoodle/dataset/torch/_dataset.py
index b43d016..4e4c0cb 100644
--- a/ramannoodle/dataset/torch/_dataset.py
+++ b/ramannoodle/dataset/torch/_dataset.py
@@ -223,8 +223,8 @@ class PolarizabilityDataset(Dataset[tuple[Tensor, Tensor, Tensor, Tensor]]):
     def __getitem__(self, i: int) -> tuple[Tensor, Tensor, Tensor, Tensor]:
         """Get lattice, atomic numbers, positions, and scaled polarizabilities."""
         return (
-            self._lattices[i],
-            self._atomic_numbers[i],
-            self._positions[i],
-            self._scaled_polarizabilities[i],
+            self._lattices[i].clone(),
+            self._atomic_numbers[i].clone(),
+            self._positions[i].clone(),
+            self._scaled_polarizabilities[i].clone(),
         )
-- 
2.43.0


From 143dfc9554ea8b0b3e86367e9bbdedac87fb0e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 05/36] fix: the mask setter copies the given mask, so unmask()
 cannot change it

---
 ramannoodle/pmodel/_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 3714a8a..ca1c540 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -186,7 +186,7 @@ class InterpolationModel(PolarizabilityModel):
             "masked" and excluded from polarizability calculations.
         """
         verify_ndarray_shape("mask", value, self._mask.shape)
-        self._mask = value
+        self._mask = value.copy()
 
     def calc_polarizabilities(
         self, positions_batch: NDArray[np.float64]
-- 
2.43.0


From 5add95027d3802baed6ab36d6d51d175de59d376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 06/36] fix: get_equivalent_displacements returns copies of the
 symmetry operations

---
 ramannoodle/structure/_reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 98cbd7e..a61731d 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -233,7 +233,7 @@ class ReferenceStructure:
                 result.append(
                     {
                         "displacements": [candidate_displacement],
-                        "transformations": [(rotation, translation)],
+                        "transformations": [(rotation.copy(), translation.copy())],
                     }
                 )
                 orthogonal_displacements.append(candidate_displacement)
@@ -260,7 +260,7 @@ class ReferenceStructure:
                             candidate_displacement
                         )
                         result[collinear_result]["transformations"].append(
-                            (rotation, translation)
+                            (rotation.copy(), translation.copy())
                         )
 
         return result
-- 
2.43.0


From 322fe3333edfa70fe2f54467c05ce8191e280fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 07/36] fix: ARTModel.get_specification_tuples returns copies
 of the directions

---
 ramannoodle/pmodel/_art.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 8e5752d..7913a8f 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -368,7 +368,7 @@ class ARTModel(InterpolationModel):
         """Return specified art cartesian direction vectors for an atom."""
         indexes = self.get_dof_indexes(atom_index)
         cart_directions = [
-            self._cart_basis_vectors[index][atom_index] for index in indexes
+            self._cart_basis_vectors[index][atom_index].copy() for index in indexes
         ]
         return cart_directions
 
-- 
2.43.0


From 948b6ea1d1877885a55af8444fcf1bef615f0943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 08/36] fix: unstable modes read from vasprun.xml have negative
 wavenumbers

---
 ramannoodle/io/vasp/vasprun.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 5559f8c..fcb6f77 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -343,9 +343,8 @@ def _parse_eigenvalues(root: Element) -> NDArray[np.float64]:
     if element.text is None:
         raise InvalidFileException("eigenvalues has no text")
     eigenvalues = np.array([float(i) for i in element.text.split()])
-    eigenvalues = np.sqrt(np.abs(-eigenvalues)) * 1 / 0.0299792458
-    eigenvalues *= np.sign(eigenvalues)
-    return eigenvalues
+    # vasprun.xml eigenvalues are negative for stable modes
+    return -np.sign(eigenvalues) * np.sqrt(np.abs(eigenvalues)) / 0.0299792458
 
 
 def _parse_eigenvectors(root: Element) -> NDArray[np.float64]:
-- 
2.43.0


From 8f09a72b0abd68a50f1652bd9510c418511ad9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 09/36] fix: transform_positions accepts positions outside of
 the cell

---
 ramannoodle/structure/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/structure/utils.py b/ramannoodle/structure/utils.py
index daf10cc..c145a99 100644
--- a/ramannoodle/structure/utils.py
+++ b/ramannoodle/structure/utils.py
@@ -5,7 +5,7 @@ from numpy.typing import NDArray
 
 from ramannoodle.exceptions import (
     get_type_error,
-    verify_positions,
+    verify_ndarray_shape,
     get_shape_error,
 )
 
@@ -95,7 +95,7 @@ def transform_positions(
     :
         (fractional) Array with shape (N,3).
     """
-    verify_positions("positions", positions)
+    verify_ndarray_shape("positions", positions, (None, 3))
     positions = apply_pbc(positions)
     try:
         rotated = positions @ rotation
-- 
2.43.0


From a110b8df32ea06576427149c9fbc6b0f2c89b0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 10/36] fix: directions are not wrapped into the cell, so only
 their direction matters

---
 ramannoodle/pmodel/_interpolation.py |  4 ++++
 ramannoodle/structure/_reference.py  | 11 +++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index ca1c540..db42fe7 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -451,6 +451,10 @@ class InterpolationModel(PolarizabilityModel):
 
         """
         try:
+            # Only the direction is used
+            cart_displacement = cart_displacement / float(
+                np.linalg.norm(cart_displacement * 10.0)
+            )
             displacement = self.ref_structure.get_frac_displacement(cart_displacement)
 
             parent_displacement = displacement / np.linalg.norm(displacement * 10.0)
diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index a61731d..543c7ef 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -11,7 +11,6 @@ from ramannoodle.exceptions import (
     get_type_error,
     verify_ndarray_shape,
     verify_list_len,
-    get_shape_error,
 )
 from ramannoodle.structure.utils import (
     displace_positions,
@@ -297,11 +296,8 @@ class ReferenceStructure:
         :
             (Å) Array with shape (3,).
         """
-        direction = apply_pbc_displacement(direction)
-        try:
-            return np.array([direction]) @ self._lattice
-        except ValueError as exc:
-            raise get_shape_error("direction", direction, "(3,)") from exc
+        verify_ndarray_shape("direction", direction, (3,))
+        return direction @ self._lattice
 
     def get_frac_displacement(
         self, cart_displacement: NDArray[np.float64]
@@ -338,8 +334,7 @@ class ReferenceStructure:
             (fractional) Array with shape (3,).
         """
         verify_ndarray_shape("direction", cart_direction, (3,))
-        displacement = np.array([cart_direction]) @ np.linalg.inv(self.lattice)
-        return apply_pbc_displacement(displacement[0])
+        return cart_direction @ np.linalg.inv(self.lattice)
 
     def get_atom_indexes(self, atom_symbols: str | list[str]) -> list[int]:
         """Return atom indexes with matching symbols.
-- 
2.43.0


From 9d9b88f05efd10cd22fb544f4b053da0cf5f0c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 11/36] fix: verify_list_len compares lengths by value

---
 ramannoodle/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/exceptions.py b/ramannoodle/exceptions.py
index a900de9..a18b272 100644
--- a/ramannoodle/exceptions.py
+++ b/ramannoodle/exceptions.py
@@ -119,8 +119,8 @@ def verify_list_len(name: str, array: list[Any], length: int | None) -> None:
     """
     if not isinstance(array, list):
         raise get_type_error(name, array, "list")
-    if length is not None and len(array) is not length:
-        raise ValueError(f"{name} has wrong length: {len(array)} != length")
+    if length is not None and len(array) != length:
+        raise ValueError(f"{name} has wrong length: {len(array)} != {length}")
 
 
 def verify_positions(name: str, array: NDArray[Any]) -> None:
-- 
2.43.0


From 1dfbfce66957e268eaeb1f841c45ac5ba5698069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 12/36] fix: integer arrays are not truncated or refused by
 in-place float arithmetic

---
 ramannoodle/pmodel/_art.py         | 2 +-
 ramannoodle/spectrum/utils.py      | 2 +-
 ramannoodle/structure/_displace.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 7913a8f..1275e7f 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -184,7 +184,7 @@ class ARTModel(InterpolationModel):
             "polarizabilities", polarizabilities, (amplitudes.size, 3, 3)
         )
 
-        displacement = self._ref_structure.positions * 0
+        displacement = self._ref_structure.positions * 0.0
         displacement[atom_index] = direction / np.linalg.norm(direction * 10.0)
 
         # Checks amplitudes and displacements
diff --git a/ramannoodle/spectrum/utils.py b/ramannoodle/spectrum/utils.py
index a5a796c..087b528 100644
--- a/ramannoodle/spectrum/utils.py
+++ b/ramannoodle/spectrum/utils.py
@@ -54,7 +54,7 @@ def convolve_spectrum(
         raise get_type_error("width", width, "float") from exc
     verify_ndarray("out_wavenumbers", out_wavenumbers)
 
-    convolved_intensities = out_wavenumbers * 0
+    convolved_intensities = out_wavenumbers * 0.0
     for wavenumber, intensity in zip(wavenumbers, intensities):
         factor = 0
         if function == "gaussian":
diff --git a/ramannoodle/structure/_displace.py b/ramannoodle/structure/_displace.py
index 184450c..6bb5f97 100644
--- a/ramannoodle/structure/_displace.py
+++ b/ramannoodle/structure/_displace.py
@@ -145,7 +145,7 @@ def get_ast_displaced_positions(
         cart_direction = cart_direction / float(np.linalg.norm(cart_direction))
     except TypeError as err:
         raise get_type_error("cart_direction", cart_direction, "ndarray") from err
-    cart_displacement = ref_structure.positions * 0
+    cart_displacement = ref_structure.positions * 0.0
     try:
         cart_displacement[atom_index] = cart_direction
     except ValueError as err:
-- 
2.43.0


From 3423c43a1014c706e7295e1aa4aa4682083a3ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 13/36] fix: rescaled polarizabilities keep torch's default
 dtype

---
 ramannoodle/dataset/torch/_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/dataset/torch/_dataset.py b/ramannoodle/dataset/torch/_dataset.py
index 4e4c0cb..5d84438 100644
--- a/ramannoodle/dataset/torch/_dataset.py
+++ b/ramannoodle/dataset/torch/_dataset.py
@@ -214,7 +214,7 @@ class PolarizabilityDataset(Dataset[tuple[Tensor, Tensor, Tensor, Tensor]]):
         scaled /= torch.tensor(stddev)
         self._scaled_polarizabilities = (
             rn_torch_utils.polarizability_tensors_to_vectors(scaled)
-        )
+        ).type(torch.get_default_dtype())
 
     def __len__(self) -> int:
         """Get number of samples."""
-- 
2.43.0


From 254c1e0196e986761c7029f972ca786640b5c64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 14/36] fix: errors of a reader or writer are not reported as
 an unsupported format

---
 ramannoodle/io/generic.py | 51 +++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/ramannoodle/io/generic.py b/ramannoodle/io/generic.py
index edc1ec5..824bbd7 100644
--- a/ramannoodle/io/generic.py
+++ b/ramannoodle/io/generic.py
@@ -86,9 +86,10 @@ def read_phonons(filepath: str | Path, file_format: str) -> Phonons:
         Invalid file.
     """
     try:
-        return _PHONON_READERS[file_format](filepath)
+        reader = _PHONON_READERS[file_format]
     except KeyError as exc:
         raise ValueError(f"unsupported format: {file_format}") from exc
+    return reader(filepath)
 
 
 def read_trajectory(filepath: str | Path, file_format: str) -> Trajectory:
@@ -114,13 +115,14 @@ def read_trajectory(filepath: str | Path, file_format: str) -> Trajectory:
         Invalid file.
     """
     try:
-        return _TRAJECTORY_READERS[file_format](filepath)
+        reader = _TRAJECTORY_READERS[file_format]
     except KeyError as exc:
         if file_format == "xdatcar":
             raise ValueError(
                 "generic.read_trajectory does not support xdatcar."
             ) from exc
         raise ValueError(f"unsupported format: {file_format}") from exc
+    return reader(filepath)
 
 
 def read_positions_and_polarizability(
@@ -150,9 +152,10 @@ def read_positions_and_polarizability(
         Invalid file.
     """
     try:
-        return _POSITION_AND_POLARIZABILITY_READERS[file_format](filepath)
+        reader = _POSITION_AND_POLARIZABILITY_READERS[file_format]
     except KeyError as exc:
         raise ValueError(f"unsupported format: {file_format}") from exc
+    return reader(filepath)
 
 
 def read_structure_and_polarizability(
@@ -184,9 +187,10 @@ def read_structure_and_polarizability(
         Invalid file.
     """
     try:
-        return _STRUCTURE_AND_POLARIZABILITY_READERS[file_format](filepath)
+        reader = _STRUCTURE_AND_POLARIZABILITY_READERS[file_format]
     except KeyError as exc:
         raise ValueError(f"unsupported format: {file_format}") from exc
+    return reader(filepath)
 
 
 def read_polarizability_dataset(
@@ -217,9 +221,10 @@ def read_polarizability_dataset(
     if not TORCH_PRESENT:
         raise get_torch_missing_error()
     try:
-        return _POLARIZABILITY_DATASET_READERS[file_format](filepaths)
+        reader = _POLARIZABILITY_DATASET_READERS[file_format]
     except KeyError as exc:
         raise ValueError(f"unsupported format: {file_format}") from exc
+    return reader(filepaths)
 
 
 def read_positions(
@@ -249,9 +254,10 @@ def read_positions(
 
     """
     try:
-        return _POSITION_READERS[file_format](filepath)
+        reader = _POSITION_READERS[file_format]
     except KeyError as exc:
         raise ValueError(f"unsupported format: {file_format}") from exc
+    return reader(filepath)
 
 
 def read_ref_structure(filepath: str | Path, file_format: str) -> ReferenceStructure:
@@ -278,9 +284,10 @@ def read_ref_structure(filepath: str | Path, file_format: str) -> ReferenceStruc
         Structural symmetry determination failed.
     """
     try:
-        return _REFERENCE_STRUCTURE_READERS[file_format](filepath)
+        reader = _REFERENCE_STRUCTURE_READERS[file_format]
     except KeyError as exc:
         raise ValueError(f"unsupported format: {file_format}") from exc
+    return reader(filepath)
 
 
 def write_structure(  # pylint: disable=too-many-arguments,too-many-positional-arguments
@@ -315,15 +322,16 @@ def write_structure(  # pylint: disable=too-many-arguments,too-many-positional-a
         File exists and ``overwrite == False``.
     """
     try:
-        _STRUCTURE_WRITERS[file_format](
-            lattice=lattice,
-            atomic_numbers=atomic_numbers,
-            positions=positions,
-            filepath=filepath,
-            overwrite=overwrite,
-        )
+        writer = _STRUCTURE_WRITERS[file_format]
     except KeyError as exc:
         raise ValueError(f"unsupported format: {file_format}") from exc
+    writer(
+        lattice=lattice,
+        atomic_numbers=atomic_numbers,
+        positions=positions,
+        filepath=filepath,
+        overwrite=overwrite,
+    )
 
 
 # pylint: disable=too-many-arguments,too-many-positional-arguments
@@ -358,12 +366,13 @@ def write_trajectory(
         File exists and ``overwrite == False``.
     """
     try:
-        _TRAJECTORY_WRITERS[file_format](
-            lattice=lattice,
-            atomic_numbers=atomic_numbers,
-            positions_ts=positions_ts,
-            filepath=filepath,
-            overwrite=overwrite,
-        )
+        writer = _TRAJECTORY_WRITERS[file_format]
     except KeyError as exc:
         raise ValueError(f"unsupported format: {file_format}") from exc
+    writer(
+        lattice=lattice,
+        atomic_numbers=atomic_numbers,
+        positions_ts=positions_ts,
+        filepath=filepath,
+        overwrite=overwrite,
+    )
-- 
2.43.0


From 2919e33f4f7d0bd7c02adc763b82a5fe5379f6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 15/36] fix: report missing torch from
 construct_polarizability_dataset instead of raising NameError

---
 ramannoodle/io/pymatgen.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/io/pymatgen.py b/ramannoodle/io/pymatgen.py
index 81d0354..7021afd 100644
--- a/ramannoodle/io/pymatgen.py
+++ b/ramannoodle/io/pymatgen.py
@@ -5,6 +5,7 @@ from numpy.typing import NDArray
 
 from ramannoodle.exceptions import (
     get_pymatgen_missing_error,
+    get_torch_missing_error,
     UserError,
     verify_list_len,
     verify_ndarray_shape,
@@ -14,10 +15,11 @@ from ramannoodle.exceptions import (
 from ramannoodle.dynamics._trajectory import Trajectory
 from ramannoodle.structure._reference import ReferenceStructure
 
+TORCH_PRESENT = True
 try:
     from ramannoodle.dataset.torch._dataset import PolarizabilityDataset
 except UserError:
-    pass
+    TORCH_PRESENT = False
 
 try:
     import pymatgen.core
@@ -127,6 +129,8 @@ def construct_polarizability_dataset(
         Array with shape (M,3,3).
 
     """
+    if not TORCH_PRESENT:
+        raise get_torch_missing_error()
     verify_list_len("pymatgen_structures", pymatgen_structures, None)
     verify_ndarray_shape(
         "polarizabilities", polarizabilities, (len(pymatgen_structures), 3, 3)
-- 
2.43.0


From 4bd5a60efea1eb2473d66d3c9d1d632431304548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 16/36] fix: reject displacements that do not have one row per
 atom

---
 ramannoodle/structure/_reference.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 543c7ef..fac3957 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -8,6 +8,7 @@ import spglib
 
 from ramannoodle.exceptions import (
     SymmetryException,
+    get_shape_error,
     get_type_error,
     verify_ndarray_shape,
     verify_list_len,
@@ -201,6 +202,7 @@ class ReferenceStructure:
 
         """
         displacement = apply_pbc_displacement(displacement)
+        verify_ndarray_shape("displacement", displacement, self._positions.shape)
         # Scale the displacement for numerical reasons.
         displacement = displacement / (np.linalg.norm(displacement) * 10)
 
@@ -280,6 +282,10 @@ class ReferenceStructure:
             (Å) Array with shape (...,N,3).
         """
         displacement = apply_pbc_displacement(displacement)
+        if displacement.shape[-2:] != self._positions.shape:
+            raise get_shape_error(
+                "displacement", displacement, f"(...,{self.num_atoms},3)"
+            )
 
         return displacement @ self._lattice
 
@@ -314,7 +320,9 @@ class ReferenceStructure:
         :
             (fractional) Array with shape (N,3).
         """
-        verify_ndarray_shape("cart_displacement", cart_displacement, (None, 3))
+        verify_ndarray_shape(
+            "cart_displacement", cart_displacement, self._positions.shape
+        )
         displacement = (cart_displacement) @ np.linalg.inv(self.lattice)
         return apply_pbc_displacement(displacement)
 
-- 
2.43.0


From ab31656199fc076e8ad55409e0679115f1bd3fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 17/36] fix: reject directions of the wrong shape in
 get_ast_displaced_positions

---
 ramannoodle/structure/_displace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ramannoodle/structure/_displace.py b/ramannoodle/structure/_displace.py
index 6bb5f97..c763647 100644
--- a/ramannoodle/structure/_displace.py
+++ b/ramannoodle/structure/_displace.py
@@ -145,6 +145,7 @@ def get_ast_displaced_positions(
         cart_direction = cart_direction / float(np.linalg.norm(cart_direction))
     except TypeError as err:
         raise get_type_error("cart_direction", cart_direction, "ndarray") from err
+    verify_ndarray_shape("cart_direction", cart_direction, (3,))
     cart_displacement = ref_structure.positions * 0.0
     try:
         cart_displacement[atom_index] = cart_direction
-- 
2.43.0


From aa198f9cd4c3a93d8b5507e3471a89c54367e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 18/36] fix: check shape of polarizabilities in
 add_art_from_pymatgen

---
 ramannoodle/pmodel/_art.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 1275e7f..0e51e75 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -279,6 +279,11 @@ class ARTModel(InterpolationModel):
         displacements, amplitudes = super()._get_displacement_amplitudes_pymatgen(
             pymatgen_structures
         )
+        if self._is_dummy_model:
+            polarizabilities = np.zeros((len(amplitudes), 3, 3))
+        verify_ndarray_shape(
+            "polarizabilities", polarizabilities, (len(amplitudes), 3, 3)
+        )
 
         # Check whether only one atom is displaced.
         _displacement = displacements[0].copy()
-- 
2.43.0


From 6f8ffa0918e6344930649e62910c6c1c1fe973a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 19/36] fix: reject positions with the wrong number of atoms
 instead of broadcasting them

---
 ramannoodle/pmodel/_interpolation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index db42fe7..86283b1 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -210,6 +210,9 @@ class InterpolationModel(PolarizabilityModel):
             Model is a dummy model.
 
         """
+        verify_ndarray_shape(
+            "positions", positions_batch, (None, self._ref_structure.num_atoms, 3)
+        )
         try:
             delta_polarizabilities: NDArray[np.float64] = np.zeros(
                 (positions_batch.shape[0], 3, 3)
@@ -561,6 +564,9 @@ class InterpolationModel(PolarizabilityModel):
         for i, structure in enumerate(pymatgen_structures):
             positions = pymatgen_io.get_positions(structure)
             try:
+                verify_ndarray_shape(
+                    "positions", positions, (self._ref_structure.num_atoms, 3)
+                )
                 displacement = calc_displacement(
                     self._ref_structure.positions,
                     positions,
@@ -671,6 +677,9 @@ class InterpolationModel(PolarizabilityModel):
                 polarizability = np.zeros((3, 3))
 
             try:
+                verify_ndarray_shape(
+                    "positions", positions, (self._ref_structure.num_atoms, 3)
+                )
                 displacement = calc_displacement(
                     self._ref_structure.positions,
                     positions,
-- 
2.43.0


From d2f233563dd31d978777119907fa6a97e2b51419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 20/36] fix: mask setter documented the opposite meaning of its
 elements

---
 ramannoodle/pmodel/_interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 86283b1..08e5d9c 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -181,8 +181,8 @@ class InterpolationModel(PolarizabilityModel):
         Parameters
         ----------
         mask
-            Array with shape (N,) where N is the number of specified degrees
-            of freedom (DOFs). If an element is False, its corresponding DOF will be
+            Array with shape (J,) where J is the number of specified degrees
+            of freedom (DOFs). If an element is True, its corresponding DOF will be
             "masked" and excluded from polarizability calculations.
         """
         verify_ndarray_shape("mask", value, self._mask.shape)
-- 
2.43.0


From 8807294227f0575b88c302a468f881edfe330fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 21/36] fix: transform_positions broadcast rotations of shape
 (3,1) and translations of other shapes than (3,)

---
 ramannoodle/structure/utils.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/ramannoodle/structure/utils.py b/ramannoodle/structure/utils.py
index c145a99..45de8ae 100644
--- a/ramannoodle/structure/utils.py
+++ b/ramannoodle/structure/utils.py
@@ -6,7 +6,6 @@ from numpy.typing import NDArray
 from ramannoodle.exceptions import (
     get_type_error,
     verify_ndarray_shape,
-    get_shape_error,
 )
 
 
@@ -96,13 +95,9 @@ def transform_positions(
         (fractional) Array with shape (N,3).
     """
     verify_ndarray_shape("positions", positions, (None, 3))
-    positions = apply_pbc(positions)
-    try:
-        rotated = positions @ rotation
-    except TypeError as exc:
-        raise get_type_error("rotation", rotation, "ndarray") from exc
-    except ValueError as exc:
-        raise get_shape_error("rotation", rotation, "(3,3)") from exc
+    verify_ndarray_shape("rotation", rotation, (3, 3))
+    verify_ndarray_shape("translation", translation, (3,))
+    rotated = apply_pbc(positions) @ rotation
     rotated = apply_pbc(rotated)
     return displace_positions(rotated, translation)
 
-- 
2.43.0


From 5c9815145608cdd846ccb2ff82a13d34bb3cb19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 22/36] fix: MDRamanSpectrum.measure documented the wrong
 number of wavenumbers and intensities

---
 ramannoodle/spectrum/_raman.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/spectrum/_raman.py b/ramannoodle/spectrum/_raman.py
index 6b2f51a..212c202 100644
--- a/ramannoodle/spectrum/_raman.py
+++ b/ramannoodle/spectrum/_raman.py
@@ -268,9 +268,10 @@ class MDRamanSpectrum(RamanSpectrum):
         Returns
         -------
         :
-            0.  wavenumbers -- (cm\ :sup:`-1`) Array with shape (ceiling(S / 2),) where
-                S is the number of configurations.
-            #.  intensities -- (arbitrary units) Array with shape (ceiling(S / 2),).
+            0.  wavenumbers -- (cm\ :sup:`-1`) Array with shape
+                (ceiling((S - 1) / 2) - 1,) where S is the number of configurations.
+            #.  intensities -- (arbitrary units) Array with shape
+                (ceiling((S - 1) / 2) - 1,).
 
         """
         if orientation != "polycrystalline":
-- 
2.43.0


From d4514d33d7a46360e8a2de2cffb28bc2f41ab2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 23/36] fix: PolarizabilityDataset accepts integer
 polarizabilities

---
 ramannoodle/dataset/torch/_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/dataset/torch/_dataset.py b/ramannoodle/dataset/torch/_dataset.py
index 5d84438..4afdbf1 100644
--- a/ramannoodle/dataset/torch/_dataset.py
+++ b/ramannoodle/dataset/torch/_dataset.py
@@ -105,7 +105,8 @@ class PolarizabilityDataset(Dataset[tuple[Tensor, Tensor, Tensor, Tensor]]):
         self._atomic_numbers = torch.tensor(atomic_numbers).type(torch.int).unsqueeze(0)
         self._atomic_numbers = self._atomic_numbers.expand(num_samples, num_atoms)
         self._positions = torch.tensor(positions).type(default_type)
-        self._polarizabilities = torch.tensor(polarizabilities)
+        # PyTorch cannot calculate means or standard deviations of integers
+        self._polarizabilities = torch.tensor(polarizabilities.astype(np.float64))
 
         _, _, scaled = _scale_and_flatten_polarizabilities(
             self._polarizabilities, scale_mode="standard"
-- 
2.43.0


From fcb10b77576ac6bbce3f09e09dbff2416de14dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 24/36] fix: add_art accepted four amplitudes when symmetry
 mirrors two given ones

---
 ramannoodle/pmodel/_art.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 0e51e75..333ea0a 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -9,7 +9,7 @@ from numpy.typing import NDArray
 from tabulate import tabulate
 
 from ramannoodle.constants import ANSICOLORS
-from ramannoodle.pmodel._interpolation import InterpolationModel
+from ramannoodle.pmodel._interpolation import InterpolationModel, find_duplicates
 from ramannoodle.exceptions import (
     get_type_error,
     get_shape_error,
@@ -187,13 +187,21 @@ class ARTModel(InterpolationModel):
         displacement = self._ref_structure.positions * 0.0
         displacement[atom_index] = direction / np.linalg.norm(direction * 10.0)
 
-        # Checks amplitudes and displacements
-        super().add_dof(
-            self.ref_structure.get_cart_displacement(displacement),
-            amplitudes,
-            polarizabilities,
-            1,
-            include_ref_polarizability=False,
+        # Checks displacement
+        basis_vectors_to_add, interpolation_xs, interpolation_ys = super()._get_dof(
+            displacement, amplitudes, polarizabilities, False
+        )
+
+        # Duplicate and insufficient amplitudes are reported below.
+        num_amplitudes = len(interpolation_xs[0])
+        if num_amplitudes > 2 and find_duplicates(interpolation_xs[0]) is None:
+            raise InvalidDOFException(
+                f"wrong number of amplitudes: {num_amplitudes} != 2"
+            )
+
+        # Checks amplitudes
+        super()._construct_and_add_interpolations(
+            basis_vectors_to_add, interpolation_xs, interpolation_ys, 1
         )
 
     def add_art_from_files(
-- 
2.43.0


From c2c583cf4cb83248b4b048adce9f643e42c280fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 25/36] fix: add_dof rotated polarizabilities with rotations in
 fractional coordinates

---
 ramannoodle/pmodel/_interpolation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 08e5d9c..efde05d 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -326,7 +326,12 @@ class InterpolationModel(PolarizabilityModel):
 
                 for amplitude, polarizability in zip(amplitudes, polarizabilities):
                     interpolation_x.append(multiplier * amplitude)
-                    rotation = transformation[0]
+                    # Rotations are fractional, polarizabilities are Cartesian.
+                    rotation = (
+                        np.linalg.inv(self._ref_structure.lattice)
+                        @ transformation[0]
+                        @ self._ref_structure.lattice
+                    )
                     delta_polarizability = polarizability - self._ref_polarizability
 
                     interpolation_y.append(
-- 
2.43.0


From 3c2720fd3fa1f9abd3d000b9590d8e554deb9ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 26/36] fix: get_equivalent_displacements judged orthogonality
 in fractional coordinates

---
 ramannoodle/structure/_reference.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index fac3957..512dffb 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -225,8 +225,11 @@ class ReferenceStructure:
             )
 
             orthogonal_result = _symmetry_utils.is_orthogonal_to_all(
-                candidate_displacement.flatten(),
-                [item.flatten() for item in orthogonal_displacements],
+                self.get_cart_displacement(candidate_displacement).flatten(),
+                [
+                    self.get_cart_displacement(item).flatten()
+                    for item in orthogonal_displacements
+                ],
             )
 
             # If new orthogonal displacement discovered
-- 
2.43.0


From 99cfd23d2fc7c7cdbd749f7a3fc042acf56507b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 27/36] fix: scale factor of POSCAR files was not applied to
 Cartesian coordinates

---
 ramannoodle/io/vasp/poscar.py  | 34 ++++++++++++++++++++++------------
 ramannoodle/io/vasp/xdatcar.py |  6 ++++--
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 24b1ff0..3f990f9 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -15,8 +15,10 @@ from ramannoodle.io.vasp.outcar import _get_lattice_vector_from_outcar_line
 # pylint: disable=R0801
 
 
-def _read_lattice(file: TextIO) -> NDArray[np.float64]:
-    """Read all three lattice vectors (in angstroms) from a VASP POSCAR file.
+def _read_lattice(file: TextIO) -> tuple[NDArray[np.float64], float]:
+    """Read lattice vectors (in angstroms) and scale factor from a VASP POSCAR file.
+
+    Lattice vectors are returned scaled.
 
     Raises
     ------
@@ -40,7 +42,7 @@ def _read_lattice(file: TextIO) -> NDArray[np.float64]:
             raise InvalidFileException(f"lattice could not be parsed: {line}")
         lattice.append(vector)
 
-    return np.array(lattice) * scale_factor
+    return np.array(lattice) * scale_factor, scale_factor
 
 
 def _read_atomic_symbols(file: TextIO) -> list[str]:
@@ -80,9 +82,11 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
 
 
 def _read_positions(
-    file: TextIO, lattice: NDArray[np.float64], num_atoms: int
+    file: TextIO, lattice: NDArray[np.float64], scale_factor: float, num_atoms: int
 ) -> NDArray[np.float64]:
-    """Read atomic symbols from a VASP POSCAR file.
+    """Read fractional positions from a VASP POSCAR file.
+
+    Cartesian coordinates in the file are multiplied by the scale factor.
 
     Raises
     ------
@@ -116,7 +120,7 @@ def _read_positions(
         positions.append(position)
 
     if cart_mode:
-        return np.array(positions) @ np.linalg.inv(lattice)
+        return np.array(positions) * scale_factor @ np.linalg.inv(lattice)
     return np.array(positions)
 
 
@@ -143,9 +147,11 @@ def read_positions(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, scale_factor, len(atomic_symbols)
+        )
         return positions
 
 
@@ -167,10 +173,12 @@ def read_structure(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, scale_factor, len(atomic_symbols)
+        )
         return lattice, atomic_numbers, positions
 
 
@@ -194,10 +202,12 @@ def read_ref_structure(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, scale_factor, len(atomic_symbols)
+        )
         return ReferenceStructure(atomic_numbers, lattice, positions)
 
 
diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index dd2e6fc..bdd85ae 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -43,11 +43,13 @@ def read_positions_ts(
     filepath = pathify(filepath)
     positions_ts = []
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         while True:
             try:
-                positions = _read_positions(file, lattice, len(atomic_symbols))
+                positions = _read_positions(
+                    file, lattice, scale_factor, len(atomic_symbols)
+                )
                 positions_ts.append(positions)
             except InvalidFileException as exc:
                 if "missing first character in coordinate format:" in str(exc):
-- 
2.43.0


From 745d789aee0c77fb81dfd243f7db6d571dc75438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 28/36] fix: negative scale factors of POSCAR files were not
 treated as cell volume

---
 ramannoodle/io/vasp/poscar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 3f990f9..7467bcc 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -42,6 +42,10 @@ def _read_lattice(file: TextIO) -> tuple[NDArray[np.float64], float]:
             raise InvalidFileException(f"lattice could not be parsed: {line}")
         lattice.append(vector)
 
+    if scale_factor < 0:  # negative scale factors give the volume of the cell
+        volume = abs(np.linalg.det(lattice))
+        scale_factor = float((-scale_factor / volume) ** (1 / 3))
+
     return np.array(lattice) * scale_factor, scale_factor
 
 
-- 
2.43.0


From 5f8c036b7d711a8a2c57af8353722082ac6c83ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 29/36] fix: report OUTCAR rows without three numbers as
 invalid file content

---
 ramannoodle/io/vasp/outcar.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index b552dea..418b225 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -43,6 +43,19 @@ def _get_atomic_symbol_from_potcar_line(line: str) -> str:
     return symbol
 
 
+def _get_vector_from_line(line: str) -> list[float]:
+    """Read a three-component vector from the beginning of a line.
+
+    Raises
+    ------
+    ValueError
+    """
+    vector = [float(item) for item in line.split()[0:3]]
+    if len(vector) != 3:
+        raise ValueError(f"expected three numbers: {line}")
+    return vector
+
+
 def _read_atomic_symbols(file: TextIO) -> list[str]:
     """Read atomic symbols from a VASP OUTCAR file.
 
@@ -127,7 +140,7 @@ def _read_cart_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_coordinates.append([float(item) for item in line.split()[0:3]])
+            cart_coordinates.append(_get_vector_from_line(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"cartesian positions could not be parsed: {line}"
@@ -154,7 +167,7 @@ def _read_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            positions.append([float(item) for item in line.split()[0:3]])
+            positions.append(_get_vector_from_line(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"fractional positions could not be parsed: {line}"
@@ -185,7 +198,7 @@ def _read_polarizability(file: TextIO) -> NDArray[np.float64]:
     for _ in range(3):
         try:
             line = file.readline()
-            polarizability.append([float(item) for item in line.split()[0:3]])
+            polarizability.append(_get_vector_from_line(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"polarizability could not be parsed: {line}"
@@ -202,7 +215,7 @@ def _get_lattice_vector_from_outcar_line(line: str) -> NDArray[np.float64]:
     ValueError
     """
     try:
-        return np.array([float(item) for item in line.split()[0:3]])
+        return np.array(_get_vector_from_line(line))
     except TypeError as exc:
         raise TypeError("line is not a str") from exc
     except IndexError as exc:
@@ -469,7 +482,7 @@ def _read_next_cart_positions_ts(file: TextIO, num_atoms: int) -> NDArray[np.flo
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_positions.append([float(item) for item in line.split()[0:3]])
+            cart_positions.append(_get_vector_from_line(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"Cartesian positions could not be parsed: {line}"
-- 
2.43.0


From 42c10d42987a433315306f7ebf6d6e5674b6e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 30/36] fix: report incomplete OUTCAR eigenvectors as invalid
 file content

---
 ramannoodle/io/vasp/outcar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index 418b225..0a6c43f 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -116,8 +116,12 @@ def _read_eigenvector(
             if "X" in line:
                 continue
             vector = [float(item) for item in line.split()[3:]]
+            if len(vector) != 3:
+                raise ValueError("eigenvector does not have three components")
             vector = vector @ np.linalg.inv(lattice)
             eigenvector.append(vector)
+        if len(eigenvector) != num_atoms:
+            raise ValueError("eigenvector is incomplete")
         return np.array(eigenvector)
     except (ValueError, IndexError) as exc:
         raise InvalidFileException(f"eigenvector could not be parsed: {line}") from exc
-- 
2.43.0


From a382ead1102de305e10b28712bda87edfd1c7bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 31/36] fix: report unreadable numbers in OUTCAR as invalid
 file content

---
 ramannoodle/io/vasp/outcar.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index 0a6c43f..1c00554 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -92,11 +92,13 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
         atomic_symbols = []
         for symbol, number in zip(potcar_symbols, atomic_numbers):
             atomic_symbols += [symbol] * number
-        return atomic_symbols
-    except (NoMatchingLineFoundException, IndexError) as exc:
+    except (NoMatchingLineFoundException, ValueError) as exc:
         raise InvalidFileException(
             f"ion number block could not be parsed: {line}"
         ) from exc
+    if len(atomic_symbols) == 0:
+        raise InvalidFileException("no atoms found")
+    return atomic_symbols
 
 
 def _read_eigenvector(
@@ -308,7 +310,7 @@ def read_phonons(filepath: str | Path) -> Phonons:
                     )
                 else:
                     wavenumbers.append(float(line.split()[7]))
-            except (NoMatchingLineFoundException, TypeError, IndexError) as exc:
+            except (NoMatchingLineFoundException, ValueError, IndexError) as exc:
                 raise InvalidFileException("eigenvalue could not be parsed") from exc
             eigenvectors.append(_read_eigenvector(file, num_atoms, lattice))
 
@@ -506,9 +508,12 @@ def _read_timestep(file: TextIO) -> float:
     except NoMatchingLineFoundException as exc:
         raise InvalidFileException("timestep not found") from exc
     try:
-        return float(line.split()[2])
-    except (IndexError, TypeError) as exc:
+        timestep = float(line.split()[2])
+    except (IndexError, ValueError) as exc:
         raise InvalidFileException(f"timestep could not be parsed: {line}") from exc
+    if timestep <= 0:
+        raise InvalidFileException(f"timestep is not positive: {line}")
+    return timestep
 
 
 def read_trajectory(filepath: str | Path) -> Trajectory:
-- 
2.43.0


From a5c410c113af25a1dbdfd335427c83adbb5bfeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 32/36] fix: report a singular lattice in OUTCAR trajectories
 as invalid file content

---
 ramannoodle/io/vasp/outcar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index 1c00554..fa1f1fd 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -552,7 +552,10 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
                 continue  # we skip ab initio following ML step
             ml_step = "(ML)" in line
             cart_positions = _read_next_cart_positions_ts(file, len(atomic_symbols))
-            positions_ts.append(cart_positions @ np.linalg.inv(lattice))
+            try:
+                positions_ts.append(cart_positions @ np.linalg.inv(lattice))
+            except np.linalg.LinAlgError as exc:
+                raise InvalidFileException("lattice is singular") from exc
 
         if len(positions_ts) == 0:
             raise InvalidFileException("no trajectory found")
-- 
2.43.0


From 8926503fbe518c1f49cc0ad7c52265a6bdeb8283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 33/36] fix: report POSCAR files without atoms or with a
 singular lattice as invalid

---
 ramannoodle/io/vasp/poscar.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 7467bcc..788ab1e 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -82,6 +82,8 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
     result = []
     for symbol, int_count in zip(symbols, int_counts):
         result += [symbol] * int_count
+    if len(result) == 0:
+        raise InvalidFileException("no atoms found")
     return result
 
 
@@ -105,9 +107,9 @@ def _read_positions(
         )
     if label[0].lower() == "s":  # selective dynamics
         label = file.readline()
-    if label[0].lower() == "c":
+    if label[:1].lower() == "c":
         cart_mode = True
-    elif label[0].lower() != "d":
+    elif label[:1].lower() != "d":
         raise InvalidFileException(f"unrecognized coordinate format: {label}")
 
     positions = []
@@ -124,7 +126,10 @@ def _read_positions(
         positions.append(position)
 
     if cart_mode:
-        return np.array(positions) * scale_factor @ np.linalg.inv(lattice)
+        try:
+            return np.array(positions) * scale_factor @ np.linalg.inv(lattice)
+        except np.linalg.LinAlgError as exc:
+            raise InvalidFileException("lattice is singular") from exc
     return np.array(positions)
 
 
-- 
2.43.0


From f8ce0d0a30302f0f2f24821832478359115bf27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 34/36] fix: report XDATCAR files without configurations as
 invalid

---
 ramannoodle/io/vasp/xdatcar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index bdd85ae..4eaf8a5 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -55,6 +55,8 @@ def read_positions_ts(
                 if "missing first character in coordinate format:" in str(exc):
                     break
                 raise exc
+        if len(positions_ts) == 0:
+            raise InvalidFileException("no configurations found")
         return np.array(positions_ts)
 
 
-- 
2.43.0


From c75a94a66dc00a6dee302c64d84a76b9a06a314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:31 +0000
Subject: [PATCH 35/36] fix: report unreadable or incomplete vasprun.xml
 elements as invalid file content

---
 ramannoodle/io/vasp/vasprun.py | 99 +++++++++++++++++++++-------------
 1 file changed, 62 insertions(+), 37 deletions(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index fcb6f77..1c02593 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -4,6 +4,7 @@ from typing import TextIO
 from pathlib import Path
 from xml.etree.ElementTree import Element
 import defusedxml.ElementTree as ET
+from defusedxml import DefusedXmlException
 
 import numpy as np
 from numpy.typing import NDArray
@@ -26,10 +27,43 @@ def _get_root_element(file: TextIO) -> Element:
         root = ET.parse(file).getroot()
         assert isinstance(root, Element)
         return root
-    except ET.ParseError as exc:
+    except (ET.ParseError, DefusedXmlException) as exc:
         raise InvalidFileException("root xml element could not be found") from exc
 
 
+def _parse_floats(text: str | None) -> list[float]:
+    """Parse whitespace-separated numbers.
+
+    Raises
+    ------
+    InvalidFileException
+    """
+    if text is None:
+        raise InvalidFileException("element has no text")
+    try:
+        return [float(item) for item in text.split()]
+    except ValueError as exc:
+        raise InvalidFileException(f"numbers could not be parsed: {text}") from exc
+
+
+def _parse_vectors(varray: Element) -> NDArray[np.float64]:
+    """Parse three-component vectors from a varray Element.
+
+    Raises
+    ------
+    InvalidFileException
+    """
+    vectors = []
+    for child in varray:
+        vector = _parse_floats(child.text)
+        if len(vector) != 3:
+            raise InvalidFileException(f"vector could not be parsed: {child.text}")
+        vectors.append(vector)
+    if len(vectors) == 0:
+        raise InvalidFileException("varray is empty")
+    return np.array(vectors)
+
+
 def _parse_atomic_symbols(root: Element) -> list[str]:
     """Parse atomic symbols from a vasprun.xml Element.
 
@@ -44,10 +78,14 @@ def _parse_atomic_symbols(root: Element) -> list[str]:
 
     atomic_symbols = []
     for child in set_element:
-        atomic_symbol = child[0].text
-        if atomic_symbol is None:
+        if len(child) == 0 or child[0].text is None:
             raise InvalidFileException("child has no text")
-        atomic_symbols.append(atomic_symbol.strip())
+        atomic_symbol = child[0].text.strip()
+        if atomic_symbol not in ATOMIC_NUMBERS:
+            raise InvalidFileException(f"unrecognized atom symbol: {atomic_symbol}")
+        atomic_symbols.append(atomic_symbol)
+    if len(atomic_symbols) == 0:
+        raise InvalidFileException("no atoms found")
     return atomic_symbols
 
 
@@ -60,13 +98,7 @@ def _parse_positions(structure_varray: Element) -> NDArray[np.float64]:
     ------
     InvalidFileException
     """
-    positions = []
-    for child in structure_varray:
-        text = child.text
-        if text is None:
-            raise InvalidFileException("varray child text not found")
-        positions.append([float(i) for i in text.split()])
-    return np.array(positions)
+    return _parse_vectors(structure_varray)
 
 
 def _parse_polarizability(root: Element) -> NDArray[np.float64]:
@@ -82,13 +114,10 @@ def _parse_polarizability(root: Element) -> NDArray[np.float64]:
     polarizability_element = root.find("./calculation/varray[@name='dielectric_dft']")
     if polarizability_element is None:
         raise InvalidFileException("polarizability not found")
-    polarizability = []
-    for child in polarizability_element:
-        text = child.text
-        if text is None:
-            raise InvalidFileException("varray child text not found")
-        polarizability.append([float(i) for i in text.split()])
-    return np.array(polarizability)
+    polarizability = _parse_vectors(polarizability_element)
+    if len(polarizability) != 3:
+        raise InvalidFileException("polarizability does not have three rows")
+    return polarizability
 
 
 def _parse_lattice(root: Element) -> NDArray[np.float64]:
@@ -104,13 +133,10 @@ def _parse_lattice(root: Element) -> NDArray[np.float64]:
     if varray_element is None:
         raise InvalidFileException("lattice not found")
 
-    lattice = []
-    for child in varray_element:
-        text = child.text
-        if text is None:
-            raise InvalidFileException("varray child text not found")
-        lattice.append([float(i) for i in text.split()])
-    return np.array(lattice)
+    lattice = _parse_vectors(varray_element)
+    if len(lattice) != 3:
+        raise InvalidFileException("lattice does not have three vectors")
+    return lattice
 
 
 def read_positions_and_polarizability(
@@ -289,10 +315,10 @@ def _parse_timestep(root: Element) -> float:
     element = root.find("./parameters/separator[@name='ionic']/i/[@name='POTIM']")
     if element is None:
         raise InvalidFileException("timestep not found")
-    text = element.text
-    if text is None:
-        raise InvalidFileException("potim element has no text")
-    return float(text.strip())
+    values = _parse_floats(element.text)
+    if len(values) != 1 or values[0] <= 0:
+        raise InvalidFileException(f"timestep could not be parsed: {element.text}")
+    return values[0]
 
 
 def read_trajectory(filepath: str | Path) -> Trajectory:
@@ -340,9 +366,7 @@ def _parse_eigenvalues(root: Element) -> NDArray[np.float64]:
     element = root.find("./calculation/dynmat/v[@name='eigenvalues']")
     if element is None:
         raise InvalidFileException("eigenvalues not found")
-    if element.text is None:
-        raise InvalidFileException("eigenvalues has no text")
-    eigenvalues = np.array([float(i) for i in element.text.split()])
+    eigenvalues = np.array(_parse_floats(element.text))
     # vasprun.xml eigenvalues are negative for stable modes
     return -np.sign(eigenvalues) * np.sqrt(np.abs(eigenvalues)) / 0.0299792458
 
@@ -362,11 +386,12 @@ def _parse_eigenvectors(root: Element) -> NDArray[np.float64]:
 
     eigenvectors = []
     for v in element:
-        if v.text is None:
-            raise InvalidFileException("eigenvector element has no text")
-        cart_eigenvector = np.array([float(i) for i in v.text.split()])
-        cart_eigenvector = cart_eigenvector.reshape((num_atoms, 3))
-        eigenvectors.append(cart_eigenvector @ np.linalg.inv(lattice))
+        cart_eigenvector = np.array(_parse_floats(v.text))
+        try:
+            cart_eigenvector = cart_eigenvector.reshape((num_atoms, 3))
+            eigenvectors.append(cart_eigenvector @ np.linalg.inv(lattice))
+        except ValueError as exc:  # wrong number of components or singular lattice
+            raise InvalidFileException("eigenvector could not be parsed") from exc
 
     return np.array(eigenvectors)
 
-- 
2.43.0


From b7b50bade4346228d3cdb85922bef9507250c815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:50 +0000
Subject: [PATCH 36/36] fix: report vasprun.xml files with inconsistent numbers
 of atoms as invalid

---
 ramannoodle/io/vasp/vasprun.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 1c02593..6cd6b6e 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -214,6 +214,8 @@ def read_structure_and_polarizability(
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
         positions = _parse_positions(structure_varray)
+        if len(positions) != len(atomic_numbers):
+            raise InvalidFileException("wrong number of positions")
         polarizability = _parse_polarizability(root)
         return lattice, atomic_numbers, positions, polarizability
 
@@ -302,6 +304,8 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
         positions = _parse_positions(structure_varray)
+        if len(positions) != len(atomic_numbers):
+            raise InvalidFileException("wrong number of positions")
         return ReferenceStructure(atomic_numbers, lattice, positions)
 
 
@@ -347,7 +351,10 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
             structure_varray = structure.find("varray")
             if structure_varray is None:
                 raise InvalidFileException("structure varray not found")
-            positions_ts.append(_parse_positions(structure_varray))
+            positions = _parse_positions(structure_varray)
+            if len(positions_ts) > 0 and len(positions) != len(positions_ts[0]):
+                raise InvalidFileException("wrong number of positions")
+            positions_ts.append(positions)
         if len(positions_ts) == 0:
             raise InvalidFileException("no trajectory found")
 
@@ -424,9 +431,13 @@ def read_phonons(filepath: str | Path) -> Phonons:
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
         ref_positions = _parse_positions(structure_varray)
+        if len(ref_positions) != len(atomic_symbols):
+            raise InvalidFileException("wrong number of positions")
 
         wavenumbers = _parse_eigenvalues(root)
         eigenvectors = _parse_eigenvectors(root)
+        if len(eigenvectors) == 0 or len(eigenvectors) != len(wavenumbers):
+            raise InvalidFileException("wrong number of eigenvectors")
         displacements = eigenvectors / np.sqrt(atomic_weights)[:, np.newaxis]
 
         return Phonons(ref_positions, wavenumbers, displacements)
-- 
2.43.0

