From 17251677d2f093d27b2db19ec3313b81f97f055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 01/61] fix: do not drop the gates following an identity gate
 when transpiling

---
 graphix/transpiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 046500b..c17d796 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -940,7 +940,7 @@ def instructions_to_jcz(instrs: Iterable[InstructionType]) -> Iterator[instructi
             case InstructionKind.J | InstructionKind.CZ | InstructionKind.M:
                 yield instr
             case InstructionKind.I:
-                return
+                pass
             case InstructionKind.H:
                 yield instruction.J(instr.target, 0)
             case InstructionKind.S:
-- 
2.43.0


From 2e51db1b5fe4570fbf74214764a8677af1ec0a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 02/61] fix: rank output nodes by swapped-circuit index when
 some qubits are measured

---
 graphix/transpiler.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index c17d796..d4ffd12 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -1009,13 +1009,9 @@ class TranspileSwapsResult:
 
     def extract_output_node_indices(self) -> tuple[int, ...]:
         """Return for each output node, sorted in the order of the original circuit, the index of the corresponding output node in the order of the swapped circuit."""
-        reduced_index = {}
-        reduced_counter = 0
-        for index, output in enumerate(self.outputs):
-            if output.kind == OutputKind.Qubit:
-                reduced_index[index] = reduced_counter
-                reduced_counter += 1
-        return tuple(reduced_index[index] for index in self.extract_outputs(OutputKind.Qubit))
+        outputs = self.extract_outputs(OutputKind.Qubit)
+        reduced_index = {index: i for i, index in enumerate(sorted(outputs))}
+        return tuple(reduced_index[index] for index in outputs)
 
     def swap_output_nodes(self, output_nodes: Sequence[Node]) -> tuple[Node, ...]:
         """Reorder the output nodes of a pattern obtained from a swapped circuit to restore the qubit ordering of the original circuit."""
-- 
2.43.0


From 9ca89c7fb89a2d46f13efbe78a67856292e9d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 03/61] fix: keep classical outputs in measurement order when
 transpiling swaps

---
 graphix/transpiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index d4ffd12..f82e5af 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -514,8 +514,8 @@ class Circuit(InplaceParameterizable):
         swap = _transpile_swaps(self, copy=True)
         result = swap.circuit.transpile_to_causalflow().to_pattern()
         result.pattern.reorder_output_nodes(swap.swap_output_nodes(result.pattern.output_nodes))
-        classical_outputs = swap.swap_classical_outputs(result.classical_outputs)
-        return TranspiledPattern(result.pattern, classical_outputs)
+        # Removing the swaps does not change the order of the measurements.
+        return TranspiledPattern(result.pattern, result.classical_outputs)
 
     @overload
     def simulate(
-- 
2.43.0


From 09d9b5840c3712650dafa0234f0c4746f5987033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 04/61] fix: keep all measurements when parallelizing a pattern
 without output nodes

---
 graphix/pattern.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 6597aab..765e468 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1159,7 +1159,9 @@ class Pattern(InplaceParameterizable):
             optimal measurement order for parallel computing
         """
         partial_order_layers = self.partial_order_layers()
-        return list(itertools.chain(*reversed(partial_order_layers[1:])))
+        # The first layer contains the output nodes, if any.
+        measured_layers = partial_order_layers[1:] if self.__output_nodes else partial_order_layers
+        return list(itertools.chain(*reversed(measured_layers)))
 
     def sort_measurement_commands(self, meas_order: list[int]) -> list[command.M]:
         """Convert measurement order to sequence of measurement commands.
-- 
2.43.0


From 81de4dfefdb04e3b4e8e0fcd369d373c952b1c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 05/61] fix: skip identity Clifford commands when removing
 local Cliffords

---
 graphix/optimization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/optimization.py b/graphix/optimization.py
index a571218..b700afd 100644
--- a/graphix/optimization.py
+++ b/graphix/optimization.py
@@ -630,6 +630,8 @@ def remove_local_clifford_commands(pattern: Pattern) -> Pattern:
     for cmd in pattern:
         match cmd.kind:
             case CommandKind.C:
+                if cmd.clifford == Clifford.I:
+                    continue
                 cmd_node = reindex(cmd.node)
                 clifford_pattern = cmd.clifford.to_opengraph().to_pattern()
                 (output_node,) = clifford_pattern.output_nodes
-- 
2.43.0


From 1f17976c9648ccd647dc29f888a40ef10e86246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 06/61] fix: do not rewrite nodes prepared in other states than
 |+> when removing Pauli measurements

---
 graphix/remove_pauli_measurements.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphix/remove_pauli_measurements.py b/graphix/remove_pauli_measurements.py
index 71decac..51b5dde 100644
--- a/graphix/remove_pauli_measurements.py
+++ b/graphix/remove_pauli_measurements.py
@@ -36,6 +36,7 @@ from graphix.command import Command
 from graphix.fundamentals import Axis, Sign
 from graphix.measurements import PauliMeasurement
 from graphix.optimization import StandardizedPattern
+from graphix.states import BasicStates
 
 if TYPE_CHECKING:
     from collections.abc import Iterable, Mapping
@@ -266,7 +267,10 @@ class _RemovePauliMeasurements:
             self.node_specs[node].clifford = clifford
         self.measurements = cut.measurements
         self.pauli_measurements = {axis: set() for axis in Axis}
+        # Graph-state rewriting is only valid on nodes prepared in the |+⟩ state:
+        # the other nodes are preserved, like input nodes.
         self.input_node_set = set(cut.original_pattern.input_nodes)
+        self.input_node_set.update(cmd_n.node for cmd_n in cut.original_pattern.n_list if cmd_n.state != BasicStates.PLUS)
         self.output_node_set = set(cut.original_pattern.output_nodes)
         for cmd_m in self.cut.pauli_measurements:
             if not isinstance(cmd_m.measurement, PauliMeasurement):  # pragma: no cover
-- 
2.43.0


From ff28a6e747a41b86ba9f7b738f429740d3967b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 07/61] fix: keep isolated nodes whose Pauli measurement
 outcome is always 1

---
 graphix/remove_pauli_measurements.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphix/remove_pauli_measurements.py b/graphix/remove_pauli_measurements.py
index 51b5dde..62b8317 100644
--- a/graphix/remove_pauli_measurements.py
+++ b/graphix/remove_pauli_measurements.py
@@ -501,8 +501,12 @@ class _RemovePauliMeasurements:
         # modified while enumerating isolated nodes.
         for node in list(nx.isolates(self.graph)):
             if node not in self.input_node_set and node not in self.output_node_set:
-                if node not in self.pauli_measurements:
+                pauli_measurement = self.node_specs[node].pauli_measurement
+                if pauli_measurement is None:
                     warn("Non-Pauli measurement on an isolated node was removed.", stacklevel=stacklevel + 1)
+                elif pauli_measurement.axis == Axis.X and pauli_measurement.sign == Sign.MINUS:
+                    # The outcome of this measurement is always 1: there is no 0-branch to preserve.
+                    continue
                 self._remove_node(node)
 
     def _create_new_m(self, original_m: Command.M) -> Command.M | None:
-- 
2.43.0


From bc31c191bb4a49a1b32740dfa3dbe44a3bc95779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 08/61] fix: accept the empty measurement order when no node is
 measured

---
 graphix/flow/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index 1cea8c4..766db4a 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -389,6 +389,9 @@ class XZCorrections(Parameterizable, Generic[_AM_co]):
             print("The input total measurement order contains duplicates.")
             return False
 
+        if not total_measurement_order:
+            return True
+
         shift = 1 if self.og.output_nodes else 0
         measured_layers = list(reversed(self.partial_order_layers[shift:]))
 
-- 
2.43.0


From 36b9c8be5f31a477ec14d10da7f3deb50d514975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 09/61] fix: reject XZ-corrections on nodes that are not in the
 open graph

---
 graphix/flow/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index 766db4a..ae37b27 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -420,6 +420,7 @@ class XZCorrections(Parameterizable, Generic[_AM_co]):
         -----
         A correct ``XZCorrections`` instance verifies the following properties:
             - Keys of the correction dictionaries are measured nodes, i.e., a subset of :math:`O^c`.
+            - Values of the correction dictionaries are nodes of the open graph.
             - Corrections respect the partial order.
             - The first layer of the partial order contains all the output nodes if there are any.
             - The partial order contains all the nodes (without duplicates) and it does not have empty layers.
@@ -437,6 +438,10 @@ class XZCorrections(Parameterizable, Generic[_AM_co]):
         if not oc_set.issuperset(self.x_corrections.keys() | self.z_corrections.keys()):
             raise XZCorrectionsGenericError(XZCorrectionsGenericErrorReason.IncorrectKeys)
 
+        corrected_nodes = set().union(*self.x_corrections.values(), *self.z_corrections.values())
+        if not corrected_nodes.issubset(self.og.graph.nodes):
+            raise XZCorrectionsGenericError(XZCorrectionsGenericErrorReason.IncorrectValues)
+
         first_layer = self.partial_order_layers[0]
 
         # Unlike for flows, XZCorrections can be well defined on open graphs without outputs
-- 
2.43.0


From e005c18720ab1fe3acffde59f4fd824037ee2e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 10/61] fix: do not put input nodes in reconstructed Pauli-flow
 correction sets

---
 graphix/flow/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index ae37b27..b2be690 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -1489,6 +1489,8 @@ def _solve_pauli_correction_set(
     self_fixed_in = label in {Plane.XZ, Plane.YZ, Axis.Z}
     if self_fixed_in and node not in non_inputs:
         return None  # ``node`` must correct itself but is an input node.
+    if not x_corr.issubset(non_inputs):
+        return None  # Input nodes cannot belong to a correction set.
 
     # Free variables of the GF(2) system: the X/Y-measured, non-input nodes that are not in the
     # future of ``node`` (the "anachronical" candidates, plus ``node`` itself when it qualifies).
-- 
2.43.0


From 38e4fe7dcbe4f0188d9af1a8e66c3744a269e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 11/61] fix: exclude the corrected node's own sign from its
 extraction Pauli string

---
 graphix/circ_ext/extraction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/circ_ext/extraction.py b/graphix/circ_ext/extraction.py
index 5d5fa14..430ec93 100644
--- a/graphix/circ_ext/extraction.py
+++ b/graphix/circ_ext/extraction.py
@@ -551,7 +551,8 @@ def extraction_ps_from_corrected_node(flow: PauliFlow[Measurement], node: Node)
     negative_sign ^= bool(len(inter_c_odd_set) // 2 % 2)
 
     # One phase flip per node in the graph state stabilizer that is absorbed from a Pauli measurement with angle π.
-    for n in c_set | odd_c_set:
+    # The corrected node itself is not absorbed.
+    for n in (c_set | odd_c_set) - {node}:
         meas = og.measurements.get(n, None)
         if isinstance(meas, PauliMeasurement):
             negative_sign ^= meas.sign == Sign.MINUS
-- 
2.43.0


From b992ac7a349eefab88611d4d996620cbb1ed60e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 12/61] fix: keep active qubits up to date when transpiling
 SWAPs in place

---
 graphix/transpiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index f82e5af..5a9d082 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -1103,6 +1103,7 @@ def transpile_swaps(circuit: Circuit, *, copy: bool = False) -> TranspileSwapsRe
             new_circuit.add(instr.visit(visitor, copy=copy))
     if not copy:
         circuit.instruction = new_circuit.instruction
+        circuit.active_qubits = new_circuit.active_qubits
         new_circuit = circuit
     return TranspileSwapsResult(new_circuit, tuple(visitor.outputs))
 
-- 
2.43.0


From 4851dff07ff4c6c89872aff5450e235a3296e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 13/61] fix: track measured qubits in circuits copied by a
 visitor

---
 graphix/transpiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 5a9d082..ff97d73 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -662,7 +662,7 @@ class Circuit(InplaceParameterizable):
         if copy:
             result = Circuit(self.width)
             for instr in self.instruction:
-                result.instruction.append(instr.visit(visitor, copy=True))
+                result.add(instr.visit(visitor, copy=True))
             return result
         for instr in self.instruction:
             instr.visit(visitor, copy=False)
-- 
2.43.0


From de8aca88b98b7cb20bdcbf7a90332293e09b8078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 14/61] fix: allow composing with an empty pattern or open
 graph

---
 graphix/opengraph.py | 2 +-
 graphix/pattern.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/opengraph.py b/graphix/opengraph.py
index a896a92..21afe60 100644
--- a/graphix/opengraph.py
+++ b/graphix/opengraph.py
@@ -711,7 +711,7 @@ class OpenGraph(Parameterizable, Generic[_AM_co]):
             if vm is not None and (uc := self.output_cliffords.get(u)) is not None:
                 measurements_other[v] = vm.clifford(uc)
 
-        shift = max((*self.graph.nodes, *mapping.values())) + 1
+        shift = max((*self.graph.nodes, *mapping.values()), default=-1) + 1
 
         mapping_sequential = {
             node: i for i, node in enumerate(sorted(other.graph.nodes - mapping.keys()), start=shift)
diff --git a/graphix/pattern.py b/graphix/pattern.py
index 765e468..06070bb 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -358,7 +358,7 @@ class Pattern(InplaceParameterizable):
                 stacklevel=2,
             )
 
-        shift = max((*nodes_p1, *mapping.values())) + 1
+        shift = max((*nodes_p1, *mapping.values()), default=-1) + 1
         mapping_complete = other.node_mapping(mapping, start=shift)
         other = other.reindex(mapping_complete, copy=True)
 
-- 
2.43.0


From 57163643d68e173f92bc1209e32a8897178cf6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 15/61] fix: normalize integer angles when transpiling

---
 graphix/transpiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index ff97d73..9aa7af4 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -983,7 +983,7 @@ def normalize_angle(angle: ParameterizedAngle) -> ParameterizedAngle:
         An equivalent angle in range :math:`[0, 2 \cdot \pi)` if ``angle`` is instantiated.
         If ``angle`` is parameterized, ``angle`` is returned unchanged.
     """
-    if isinstance(angle, float):
+    if isinstance(angle, (int, float)):
         return angle % (2 * ANGLE_PI)
     return angle
 
-- 
2.43.0


From 500245f4014e08e6e07943ec310aa82bf0636c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 16/61] fix: compare integer angles within tolerance

---
 graphix/measurements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/measurements.py b/graphix/measurements.py
index 1615559..09265d1 100644
--- a/graphix/measurements.py
+++ b/graphix/measurements.py
@@ -264,7 +264,7 @@ class BlochMeasurement(AbstractPlanarMeasurement, Measurement):
         """Determine whether two measurements are close in angle and share the same plane.
 
         This method compares the angle of the current measurement with that of
-        another measurement, using :func:`math.isclose` when both angles are floats.
+        another measurement, using :func:`math.isclose` when both angles are numbers.
         The planes must match exactly for the measurements to be considered close.
         A measurement represented as ``BlochMeasurement`` is never considered to
         be close to a measurement represented as ``PauliMeasurement``.
@@ -301,7 +301,7 @@ class BlochMeasurement(AbstractPlanarMeasurement, Measurement):
             return False
         return (
             math.isclose(self.angle, other.angle, rel_tol=rel_tol, abs_tol=abs_tol)
-            if isinstance(self.angle, float) and isinstance(other.angle, float)
+            if isinstance(self.angle, (int, float)) and isinstance(other.angle, (int, float))
             else self.angle == other.angle
         ) and self.plane == other.plane
 
-- 
2.43.0


From b7b8497cf9ce56523581d285f2c3dc7a0786a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 17/61] fix: reject amplitude vectors whose length is not a
 power of two

The check was skipped when the number of qubits was given explicitly.
---
 graphix/sim/statevec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index 0cb4eac..6611e38 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -187,9 +187,9 @@ class Statevector(DenseState):
         # `SupportsFloat` is needed because `numpy.float64` is not an instance of `SupportsComplex`!
         elif isinstance(input_list[0], (SupportsComplex, SupportsFloat)):
             inferred_nqubit = length.bit_length() - 1
+            if length & (length - 1):
+                raise ValueError(f"Length of input data is not a power of two: {length}.")
             if nqubit is None:
-                if length & (length - 1):
-                    raise ValueError(f"Length of input data is not a power of two: {length}.")
                 nqubit = inferred_nqubit
             elif nqubit != inferred_nqubit:
                 raise ValueError(f"Mismatch between nqubit and inferred nqubit: {nqubit} != {inferred_nqubit}.")
-- 
2.43.0


From a56baf7bdab9571f33ee7e17f41d7aad2199123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 18/61] fix: space minimisation skips the causal-flow heuristic
 for patterns with non-|+> nodes

to_xzcorrections raises ValueError for these patterns.
---
 graphix/space_minimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/space_minimization.py b/graphix/space_minimization.py
index 35e7bdd..515fcf4 100644
--- a/graphix/space_minimization.py
+++ b/graphix/space_minimization.py
@@ -193,7 +193,8 @@ class SpaceMinimizationHeuristics:
         """
         try:
             cf = pattern.to_xzcorrections().downcast_bloch().to_causalflow()
-        except (TypeError, FlowError):
+        except (TypeError, ValueError, FlowError):
+            # `ValueError` is raised by `to_xzcorrections` if some nodes are not prepared in the `|+⟩` state.
             return None
         else:
             meas_order = tuple(chain(*reversed(cf.partial_order_layers[1:])))
-- 
2.43.0


From 0c6676a1ac72d302c271ba0d4bbfe552aa7b7510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 19/61] fix: Kraus coefficients of the Pauli channel

The channel applied each Pauli with a third of its probability and the
identity with probability 1 - p_i, and was not trace preserving.
---
 graphix/channels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphix/channels.py b/graphix/channels.py
index d807814..99e8eb2 100644
--- a/graphix/channels.py
+++ b/graphix/channels.py
@@ -212,10 +212,10 @@ def pauli_channel(px: float, py: float, pz: float) -> KrausChannel:
     p_i = 1 - px - py - pz
     return KrausChannel(
         [
-            KrausData(np.sqrt(1 - p_i), Ops.I),
-            KrausData(np.sqrt(px / 3.0), Ops.X),
-            KrausData(np.sqrt(py / 3.0), Ops.Y),
-            KrausData(np.sqrt(pz / 3.0), Ops.Z),
+            KrausData(np.sqrt(p_i), Ops.I),
+            KrausData(np.sqrt(px), Ops.X),
+            KrausData(np.sqrt(py), Ops.Y),
+            KrausData(np.sqrt(pz), Ops.Z),
         ]
     )
 
-- 
2.43.0


From e5cb0428e20026b65587d5a2f07ed797833e1b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 20/61] fix: density matrices given as real or integer matrices
 are converted to complex

The array kept its dtype, and later operations on the state raised TypeError.
---
 graphix/sim/density_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index ad42a0e..274da03 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -107,6 +107,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
                         raise ValueError("Density matrix must have unit trace.")
                     if not lv.is_psd(self.rho):
                         raise ValueError("Density matrix must be positive semi-definite.")
+                    self.rho = self.rho.astype(np.complex128, copy=False)
                 return
         statevec = Statevector(data, nqubit)
         # NOTE this works since np.outer flattens the inputs!
-- 
2.43.0


From 474db9be93cccf23e830d51535901aee0684323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 21/61] fix: density matrices can be initialised from an
 iterator of states

The iterator was consumed before being passed to Statevector.
---
 graphix/sim/density_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 274da03..4d8657d 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -109,6 +109,8 @@ class DensityMatrix(DenseState, InplaceParameterizable):
                         raise ValueError("Density matrix must be positive semi-definite.")
                     self.rho = self.rho.astype(np.complex128, copy=False)
                 return
+            # `data` may be an iterator, which is now exhausted.
+            data = input_list
         statevec = Statevector(data, nqubit)
         # NOTE this works since np.outer flattens the inputs!
         self.rho = outer(statevec.psi, statevec.psi.conj())
-- 
2.43.0


From d929838da03514be64f8a0da2e54564bfe4198d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 22/61] fix: DensityMatrix.expectation_single leaves the state
 unchanged

The shallow copy shared its array with the state, which was normalised in place.
---
 graphix/sim/density_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 4d8657d..c9f4ccb 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -281,7 +281,9 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         if op.shape != (2, 2):
             raise ValueError("op must be 2x2 matrix.")
 
+        # `normalize` works in place: the array should be copied to leave `self` unchanged.
         st1 = _copy.copy(self)
+        st1.rho = self.rho.copy()
         st1.normalize()
 
         nqubit = self.nqubit
-- 
2.43.0


From 98f69a45cf4f14f4e5a1cdf094ca7d6831ed0f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 23/61] fix: DensityMatrix.fidelity tolerates rounding errors
 in the imaginary part

isclose with a zero reference and no absolute tolerance only accepts exactly zero.
---
 graphix/sim/density_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index c9f4ccb..cee2d16 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -411,7 +411,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         result = vdot(statevec.psi, matmul(self.rho, statevec.psi))
         if isinstance(result, Expression):
             return result
-        assert math.isclose(result.imag, 0)
+        assert math.isclose(result.imag, 0, abs_tol=1e-10)
         return result.real
 
     def flatten(self) -> Matrix:
-- 
2.43.0


From c9178e287a4f20e2d07d8ef2ec46a5093bab2cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 24/61] fix: MBQCTensorNet.copy does not share the dangling
 indices and keeps the output nodes

---
 graphix/sim/tensornet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index c9f4b3b..91ab7c0 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -70,7 +70,7 @@ class MBQCTensorNet(TensorNetwork):
         if ts is None:
             ts = []
         super().__init__(ts=ts, virtual=virtual)
-        self._dangling = ts._dangling if isinstance(ts, MBQCTensorNet) else {}
+        self._dangling = dict(ts._dangling) if isinstance(ts, MBQCTensorNet) else {}
         self.default_output_nodes = None if default_output_nodes is None else list(default_output_nodes)
         # prepare the graph state if graph_nodes and graph_edges are given
         if graph_nodes is not None and graph_edges is not None:
@@ -538,7 +538,9 @@ class MBQCTensorNet(TensorNetwork):
         """
         if deep:
             return deepcopy(self)
-        return self.__class__(branch_selector=self.__branch_selector, ts=self)
+        return self.__class__(
+            branch_selector=self.__branch_selector, default_output_nodes=self.default_output_nodes, ts=self
+        )
 
 
 def _decompose_cz() -> list[npt.NDArray[np.complex128]]:
-- 
2.43.0


From ba945acb5478901b5b72b58e40d1b85ffa83cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 25/61] fix: MBQCTensorNet.add_qubit and add_qubits accept
 arrays

---
 graphix/sim/tensornet.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 91ab7c0..7d975a8 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -112,6 +112,13 @@ class MBQCTensorNet(TensorNetwork):
         ind = gen_str()
         tag = str(index)
         match state:
+            # Arrays come first, since comparing an array with a string is not a Boolean.
+            case np.ndarray():
+                if state.shape != (2,):
+                    raise ValueError("state must be 2-element np.ndarray")
+                if not np.isclose(np.linalg.norm(state), 1):
+                    raise ValueError("state must be normalized")
+                vec = state
             case "plus":
                 vec = BasicStates.PLUS.to_statevector_numpy()
             case "minus":
@@ -125,13 +132,7 @@ class MBQCTensorNet(TensorNetwork):
             case "iminus":
                 vec = BasicStates.MINUS_I.to_statevector_numpy()
             case _:
-                if isinstance(state, str):
-                    raise TypeError(f"Unknown state: {state}")
-                if state.shape != (2,):
-                    raise ValueError("state must be 2-element np.ndarray")
-                if not np.isclose(np.linalg.norm(state), 1):
-                    raise ValueError("state must be normalized")
-                vec = state
+                raise TypeError(f"Unknown state: {state}")
         tsr = Tensor(vec, [ind], [tag, "Open"])
         self.add_tensor(tsr)
         self._dangling[tag] = ind
@@ -181,12 +182,15 @@ class MBQCTensorNet(TensorNetwork):
             # `str | npt.NDArray[np.complex128]`. To distinguish
             # between the two cases, we just need to check whether
             # an element is a character or a complex number.
-            if len(states_list) == 0 or isinstance(states_list[0], SupportsComplex):
+            # Note that arrays support `complex` too.
+            if len(states_list) == 0 or (
+                isinstance(states_list[0], SupportsComplex) and not isinstance(states_list[0], np.ndarray)
+            ):
                 states_iter = [np.array(states_list)] * len(indices)
             else:
 
                 def get_prepare_state(item: PrepareState | SupportsComplex) -> PrepareState:
-                    if isinstance(item, SupportsComplex):
+                    if isinstance(item, SupportsComplex) and not isinstance(item, np.ndarray):
                         raise TypeError("Unexpected complex")
                     return item
 
-- 
2.43.0


From 6647ef7bea5b43dbaa0c3686ae2df209a7f867c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 26/61] fix: the tensor network backend computes the
 probabilities of isolated nodes in the basis of the measurement

---
 graphix/sim/tensornet.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 7d975a8..803d52c 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -765,21 +765,27 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
         measurement : Measurement
             measure plane and angle
         """
+        bloch = measurement.to_bloch()
+        if isinstance(bloch.angle, Expression):
+            raise TypeError("Parameterized pattern unsupported.")
+        vec = PlanarState(bloch.plane, bloch.angle).to_statevector_numpy()
         if node in self._isolated_nodes:
-            vector: npt.NDArray[np.complex128] = self.state.open_tensor(node)
-            probs = (np.abs(vector) ** 2).astype(np.float64)
-            probs /= np.sum(probs)
-            result: Outcome = self.branch_selector.measure(node, lambda: probs[0], rng=rng, stacklevel=stacklevel + 1)
+            # The state of an isolated node is not entangled with the rest of
+            # the network: the probability of each outcome can be computed.
+            dangling = self.state._dangling[str(node)]
+            component = next(tn for tn in self.state.subgraphs() if dangling in tn.ind_map)
+            others = [ind for ind in component.outer_inds() if ind != dangling]
+            tensor = component.contract(output_inds=[dangling, *others])
+            vector = tensor.data.reshape((2, -1))
+            total = np.linalg.norm(vector) ** 2
+            prob0 = float(np.linalg.norm(vec.conj() @ vector) ** 2 / total)
+            result: Outcome = self.branch_selector.measure(node, lambda: prob0, rng=rng, stacklevel=stacklevel + 1)
             self.results[node] = result
-            buffer = 1 / probs[result] ** 0.5
+            buffer = 1 / (1 - prob0 if result else prob0) ** 0.5
         else:
             result = self.branch_selector.measure(node, lambda: 0.5, rng=rng, stacklevel=stacklevel + 1)
             self.results[node] = result
             buffer = 2**0.5
-        bloch = measurement.to_bloch()
-        if isinstance(bloch.angle, Expression):
-            raise TypeError("Parameterized pattern unsupported.")
-        vec = PlanarState(bloch.plane, bloch.angle).to_statevector_numpy()
         if result:
             vec = Ops.from_axis(bloch.plane.orth) @ vec
         proj_vec = vec * buffer
-- 
2.43.0


From bf337a4a0f596ef2bd38aad4b1b15844ed0ff4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 27/61] fix: the tensor network backend selects the outcome of
 a measurement once

---
 graphix/sim/tensornet.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 803d52c..da94702 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -258,6 +258,11 @@ class MBQCTensorNet(TensorNetwork):
                 raise ValueError("Invalid measurement basis.")
         else:
             raise NotImplementedError("Measurement probability calculation not implemented.")
+        self._project(index, proj_vec)
+        return result
+
+    def _project(self, index: int, proj_vec: npt.NDArray[np.complex128]) -> None:
+        """Project a node on the given vector."""
         old_ind = self._dangling[str(index)]
         proj_ts = Tensor(proj_vec, [old_ind], [str(index), "M", "Close", "ancilla"]).H
         # add the tensor to the network
@@ -265,7 +270,6 @@ class MBQCTensorNet(TensorNetwork):
         tensor = self.tensor_map[tid[0]]
         tensor.retag({"Open": "Close"}, inplace=True)
         self.add_tensor(proj_ts)
-        return result
 
     def prepare_graph_state(self, nodes: Iterable[int], edges: Iterable[tuple[int, int]]) -> None:
         """Prepare the graph state without directly applying CZ gates.
@@ -789,7 +793,8 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
         if result:
             vec = Ops.from_axis(bloch.plane.orth) @ vec
         proj_vec = vec * buffer
-        self.state.measure_single(node, basis=proj_vec, rng=rng, stacklevel=stacklevel + 1)
+        # The outcome is already selected.
+        self.state._project(node, proj_vec)
         return result
 
     @override
-- 
2.43.0


From 50b692e22ab997a67ce8ff58358ff2ee184175ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 28/61] fix: FixedBranchSelector forwards the random generator
 to its default

---
 graphix/branch_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/branch_selector.py b/graphix/branch_selector.py
index a8b6a75..9489319 100644
--- a/graphix/branch_selector.py
+++ b/graphix/branch_selector.py
@@ -131,7 +131,7 @@ class FixedBranchSelector(BranchSelector, Generic[_T]):
         if result is None:
             if self.default is None:
                 raise ValueError(f"Unexpected measurement of qubit {qubit}.")
-            return self.default.measure(qubit, f_expectation0)
+            return self.default.measure(qubit, f_expectation0, rng=rng, stacklevel=stacklevel + 1)
         return result
 
 
-- 
2.43.0


From 8a802ca87825692300f97114d4365bb12d875c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 29/61] fix: ComposeNoiseModel.input_nodes forwards the random
 generator

---
 graphix/noise_models/noise_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/noise_models/noise_model.py b/graphix/noise_models/noise_model.py
index 94b2237..b350965 100644
--- a/graphix/noise_models/noise_model.py
+++ b/graphix/noise_models/noise_model.py
@@ -150,7 +150,7 @@ class ComposeNoiseModel(NoiseModel):
         self, nodes: Iterable[int], rng: Generator | None = None, *, stacklevel: int = 1
     ) -> list[CommandOrNoise]:
         """Return the noise to apply to input nodes."""
-        return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, stacklevel=stacklevel + 1)]
+        return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, rng=rng, stacklevel=stacklevel + 1)]
 
     @override
     def command(
-- 
2.43.0


From c588119b7d611ebe52e4059a042f905ef0388b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 30/61] fix: GraphState.apply_vops accepts the identity

---
 graphix/graphsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index 8e91292..a9bf016 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -132,6 +132,8 @@ class GraphState(Graph):
         for node, vop in vops.items():
             for lc in reversed(vop.hsz):
                 match lc:
+                    case Clifford.I:
+                        pass
                     case Clifford.Z:
                         self.z(node)
                     case Clifford.H:
-- 
2.43.0


From 46bf275bcb07bfe0eab5f1622261934d914f8c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 31/61] fix: GraphState.s on a positive hollow node with a loop

---
 graphix/graphsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index a9bf016..cb476f8 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -250,6 +250,9 @@ class GraphState(Graph):
                 self.local_complement(node)
                 for i in self.neighbors(node):
                     self.advance(i)
+                if not self.nodes[node]["sign"]:
+                    for i in self.neighbors(node):
+                        self.flip_sign(i)
             else:
                 self.local_complement(node)
                 for i in self.neighbors(node):
-- 
2.43.0


From bb71e42c02ed05c2d1e914dc2cfdbc948e940001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 32/61] fix: GraphState.measure_z respects the choice on
 isolated filled nodes

---
 graphix/graphsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index cb476f8..c2c8009 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -465,7 +465,8 @@ class GraphState(Graph):
         if choice:
             for i in self.neighbors(node):
                 self.flip_sign(i)
-        result = choice if not isolated else outcome(self.nodes[node]["sign"])
+        # the outcome is only determined if the node is hollow and isolated
+        result = choice if isolated != 1 else outcome(self.nodes[node]["sign"])
         self.remove_node(node)
         return result
 
-- 
2.43.0


From 71da7688fba5c5fb8778fddcb2760a0b87de2b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 33/61] fix: AffineExpression keeps the constant when
 coefficients cancel in a sum

---
 graphix/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/parameter.py b/graphix/parameter.py
index 891986f..647609a 100644
--- a/graphix/parameter.py
+++ b/graphix/parameter.py
@@ -202,7 +202,7 @@ class AffineExpression(Expression):
                 raise PlaceholderOperationError
             a = self.a + other.a
             if a == 0:
-                return 0
+                return self.b + other.b
             return AffineExpression(a=a, x=self.x, b=self.b + other.b)
         return NotImplemented
 
-- 
2.43.0


From 000c9d6b5375b25cbf0e202bbb3e5e3c7449d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 34/61] fix: Circuit.is_parameterized takes J gates into
 account

---
 graphix/transpiler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 9aa7af4..f5c6229 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -700,7 +700,13 @@ class Circuit(InplaceParameterizable):
         """
         for instr in self.instruction:
             match instr.kind:
-                case InstructionKind.RZZ | InstructionKind.RX | InstructionKind.RY | InstructionKind.RZ:
+                case (
+                    InstructionKind.J
+                    | InstructionKind.RZZ
+                    | InstructionKind.RX
+                    | InstructionKind.RY
+                    | InstructionKind.RZ
+                ):
                     if not isinstance(instr.angle, SupportsFloat):
                         return True
         return False
-- 
2.43.0


From dedb470f0f9002b462c302981592c3f8c2a8188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 35/61] fix: parameter substitution in density matrices

---
 graphix/sim/density_matrix.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index cee2d16..935bbe0 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -32,11 +32,11 @@ from graphix.sim.statevec import Statevector, _check_permutation
 from graphix.states import BasicStates, State
 
 if TYPE_CHECKING:
-    from collections.abc import Mapping, Sequence
+    from collections.abc import Callable, Mapping, Sequence
     from typing import SupportsComplex, SupportsFloat
 
     from graphix.noise_models.noise_model import Noise
-    from graphix.parameter import ExpressionOrSupportsFloat, Parameter
+    from graphix.parameter import ExpressionOrComplex, ExpressionOrSupportsFloat, Parameter
     from graphix.sim.data import Data
 
 
@@ -473,7 +473,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def replace_parameter(
         self, variable: Parameter, substitute: ExpressionOrSupportsFloat, *, copy: bool = False
     ) -> DensityMatrix:
-        rho = np.vectorize(lambda value: with_parameter(value, variable, substitute))(self.rho)
+        rho = _substitute(self.rho, lambda value: with_parameter(value, variable, substitute))
         if copy:
             result = _copy.copy(self)
             result.rho = rho
@@ -485,7 +485,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def replace_parameters(
         self, assignment: Mapping[Parameter, ExpressionOrSupportsFloat], *, copy: bool = False
     ) -> DensityMatrix:
-        rho = np.vectorize(lambda value: with_parameters(value, assignment))(self.rho)
+        rho = _substitute(self.rho, lambda value: with_parameters(value, assignment))
         if copy:
             result = _copy.copy(self)
             result.rho = rho
@@ -494,6 +494,15 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         return self
 
 
+def _substitute(rho: Matrix, f: Callable[[ExpressionOrComplex], ExpressionOrComplex]) -> Matrix:
+    """Apply ``f`` to each element of ``rho``; the result is numeric if no expression remains."""
+    # By default, :func:`np.vectorize` infers the type of the result from the first element only.
+    result: Matrix = np.vectorize(f, otypes=[np.object_])(rho)
+    if any(isinstance(value, Expression) for value in result.flat):
+        return result
+    return result.astype(np.complex128)
+
+
 @dataclass(frozen=True)
 class DensityMatrixBackend(DenseStateBackend[DensityMatrix]):
     """MBQC simulator with density matrix method."""
-- 
2.43.0


From a7e0a3bdb0eb5a66581193e5b695755c1e3d3f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 36/61] fix: shift_signals("mc") does not modify commands
 shared with other patterns

---
 graphix/pattern.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 06070bb..2f1c7e2 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -846,7 +846,7 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert x.kind == CommandKind.X
         if s.node in x.domain:
-            x.domain ^= s.domain
+            self.__seq[target + 1] = dataclasses.replace(x, domain=x.domain ^ s.domain)
         self._commute_with_following(target)
 
     def _commute_zs(self, target: int) -> None:
@@ -863,7 +863,7 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert z.kind == CommandKind.Z
         if s.node in z.domain:
-            z.domain ^= s.domain
+            self.__seq[target + 1] = dataclasses.replace(z, domain=z.domain ^ s.domain)
         self._commute_with_following(target)
 
     def _commute_ms(self, target: int) -> None:
@@ -879,10 +879,9 @@ class Pattern(InplaceParameterizable):
         m = self.__seq[target + 1]
         assert s.kind == CommandKind.S
         assert m.kind == CommandKind.M
-        if s.node in m.s_domain:
-            m.s_domain ^= s.domain
-        if s.node in m.t_domain:
-            m.t_domain ^= s.domain
+        s_domain = m.s_domain ^ s.domain if s.node in m.s_domain else m.s_domain
+        t_domain = m.t_domain ^ s.domain if s.node in m.t_domain else m.t_domain
+        self.__seq[target + 1] = dataclasses.replace(m, s_domain=s_domain, t_domain=t_domain)
         self._commute_with_following(target)
 
     def _commute_ss(self, target: int) -> None:
@@ -899,7 +898,7 @@ class Pattern(InplaceParameterizable):
         assert s1.kind == CommandKind.S
         assert s2.kind == CommandKind.S
         if s1.node in s2.domain:
-            s2.domain ^= s1.domain
+            self.__seq[target + 1] = dataclasses.replace(s2, domain=s2.domain ^ s1.domain)
         self._commute_with_following(target)
 
     def _commute_with_following(self, target: int) -> None:
@@ -1019,8 +1018,9 @@ class Pattern(InplaceParameterizable):
                 extracted_signal = extract_signal(cmd.measurement.to_bloch().plane, cmd.s_domain, cmd.t_domain)
                 if extracted_signal.signal:
                     self.__seq.insert(pos + 1, command.S(node=cmd.node, domain=extracted_signal.signal))
-                    cmd.s_domain = extracted_signal.s_domain
-                    cmd.t_domain = extracted_signal.t_domain
+                    self.__seq[pos] = dataclasses.replace(
+                        cmd, s_domain=extracted_signal.s_domain, t_domain=extracted_signal.t_domain
+                    )
                     pos += 1
                 signal_dict[cmd.node] = extracted_signal.signal
             pos += 1
-- 
2.43.0


From 69b336c3c694fc3849f3116f30f66a0439a2636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 37/61] fix: transpiled circuits do not share instructions with
 the original

---
 graphix/transpiler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index f5c6229..0c9452e 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -6,6 +6,7 @@ accepts desired gate operations and transpile into MBQC measurement patterns.
 
 from __future__ import annotations
 
+import copy as _copy
 import enum
 from dataclasses import dataclass
 from enum import Enum
@@ -736,11 +737,11 @@ class Circuit(InplaceParameterizable):
                         circuit.rx(instr.target, ANGLE_PI / 2)
                         circuit.m(instr.target, Axis.Z)
                     case Axis.Z:
-                        circuit.add(instr)
+                        circuit.add(_copy.copy(instr))
                     case _:
                         assert_never(instr.axis)
             else:
-                circuit.add(instr)
+                circuit.add(_copy.copy(instr))
         return circuit
 
     def transpile_j_to_rzh(self) -> Circuit:
@@ -752,7 +753,7 @@ class Circuit(InplaceParameterizable):
                     new_circuit.add(instruction.RZ(target=instr.target, angle=instr.angle))
                     new_circuit.add(instruction.H(target=instr.target))
                 case _:
-                    new_circuit.add(instr)
+                    new_circuit.add(_copy.copy(instr))
         return new_circuit
 
 
-- 
2.43.0


From e21d0bed847a528192da2dd9948208deb3978e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:13 +0000
Subject: [PATCH 38/61] fix: KrausChannel keeps its Kraus operators read-only

---
 graphix/channels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/channels.py b/graphix/channels.py
index 99e8eb2..d7a0f73 100644
--- a/graphix/channels.py
+++ b/graphix/channels.py
@@ -2,7 +2,6 @@
 
 from __future__ import annotations
 
-import copy
 import typing
 from typing import TYPE_CHECKING, SupportsIndex, TypeVar
 
@@ -113,7 +112,8 @@ class KrausChannel:
         ValueError
             If kraus_data is empty.
         """
-        kraus_data = [copy.deepcopy(kdata) for kdata in kraus_data]
+        # ``KrausData`` is immutable (note that a deep copy would make the arrays writeable).
+        kraus_data = list(kraus_data)
 
         if not kraus_data:
             raise ValueError("Cannot instantiate the channel with empty data.")
-- 
2.43.0


From c4a1f2794f8f3b1b6ffbda1d66aa5927b8102037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:13 +0000
Subject: [PATCH 39/61] fix: DensityMatrix.tensor leaves its argument unchanged

---
 graphix/sim/density_matrix.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 935bbe0..93aa64a 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -310,9 +310,10 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         """
         if not isinstance(other, DensityMatrix):
             other = DensityMatrix(other)
-        if self.rho.dtype == np.object_ and other.rho.dtype != np.object_:
-            other.rho = other.rho.astype(np.object_, copy=False)  # pragma: nocover
-        self.rho = kron(self.rho, other.rho)
+        rho = other.rho
+        if self.rho.dtype == np.object_ and rho.dtype != np.object_:
+            rho = rho.astype(np.object_)  # pragma: nocover
+        self.rho = kron(self.rho, rho)
 
     def cnot(self, edge: tuple[int, int]) -> None:
         """Apply CNOT gate to density matrix.
-- 
2.43.0


From 704fd83a0191b4073ad16decd42bd52a24bcaf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:13 +0000
Subject: [PATCH 40/61] fix: Pattern.connected_nodes leaves the pattern
 unchanged

---
 graphix/pattern.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 2f1c7e2..a99eb21 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1267,14 +1267,16 @@ class Pattern(InplaceParameterizable):
         node_list : list
             list of nodes that are entangled with specified node
         """
-        if not self.is_standard():
-            self.standardize()
+        pattern = self
+        if not pattern.is_standard():
+            pattern = pattern.copy()
+            pattern.standardize()
         if prepared is None:
             prepared = set()
         node_list = []
-        ind = self._find_op_to_be_moved(CommandKind.E)
+        ind = pattern._find_op_to_be_moved(CommandKind.E)
         if ind is not None:  # end -> 'node' is isolated
-            cmd = self.__seq[ind]
+            cmd = pattern.__seq[ind]
             while cmd.kind == CommandKind.E:
                 if cmd.nodes[0] == node:
                     if cmd.nodes[1] not in prepared:
@@ -1282,7 +1284,7 @@ class Pattern(InplaceParameterizable):
                 elif cmd.nodes[1] == node and cmd.nodes[0] not in prepared:
                     node_list.append(cmd.nodes[0])
                 ind += 1
-                cmd = self.__seq[ind]
+                cmd = pattern.__seq[ind]
         return node_list
 
     def correction_commands(self) -> list[command.X | command.Z]:
-- 
2.43.0


From e247b3a6bd4c0fa1713fbc8da1a2265739bf83f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:13 +0000
Subject: [PATCH 41/61] fix: Pattern.space_list takes the input nodes into
 account

---
 graphix/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index a99eb21..973b3a1 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1378,7 +1378,7 @@ class Pattern(InplaceParameterizable):
         N_list : list
             time evolution of 'space' at each 'N' and 'M' commands of pattern.
         """
-        nodes = 0
+        nodes = len(self.input_nodes)
         n_list = []
         for cmd in self.__seq:
             match cmd.kind:
-- 
2.43.0


From 2cf32f0eebd9fc7d3a271603feb1706184f6a6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:13 +0000
Subject: [PATCH 42/61] fix: in-place pattern rewriting updates the number of
 nodes

---
 graphix/pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 973b3a1..10a1884 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1927,6 +1927,7 @@ class Pattern(InplaceParameterizable):
             return pattern
         self.__seq = pattern.__seq
         self.__output_nodes = pattern.__output_nodes
+        self.__n_node = pattern.__n_node
         return self
 
     def remove_local_clifford_commands(self, *, copy: bool = False) -> Pattern:
@@ -1957,6 +1958,7 @@ class Pattern(InplaceParameterizable):
             return new_pattern
         self.__seq = new_pattern.__seq
         self.__output_nodes = new_pattern.__output_nodes
+        self.__n_node = new_pattern.__n_node
         return self
 
 
-- 
2.43.0


From 3dab4b04f55e3b4c52e11a62f479822e7dbaece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:13 +0000
Subject: [PATCH 43/61] fix: Pattern.connected_nodes on patterns ending with an
 entanglement command

---
 graphix/pattern.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 10a1884..d4f32db 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1276,15 +1276,14 @@ class Pattern(InplaceParameterizable):
         node_list = []
         ind = pattern._find_op_to_be_moved(CommandKind.E)
         if ind is not None:  # end -> 'node' is isolated
-            cmd = pattern.__seq[ind]
-            while cmd.kind == CommandKind.E:
+            for cmd in pattern.__seq[ind:]:
+                if cmd.kind != CommandKind.E:
+                    break
                 if cmd.nodes[0] == node:
                     if cmd.nodes[1] not in prepared:
                         node_list.append(cmd.nodes[1])
                 elif cmd.nodes[1] == node and cmd.nodes[0] not in prepared:
                     node_list.append(cmd.nodes[0])
-                ind += 1
-                cmd = pattern.__seq[ind]
         return node_list
 
     def correction_commands(self) -> list[command.X | command.Z]:
-- 
2.43.0


From a426b0f23f7542a8e028f29b64e4fcf6b58711f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:56 +0000
Subject: [PATCH 44/61] fix: MatGF2 copies data only if needed with copy=False

---
 graphix/_linalg.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphix/_linalg.py b/graphix/_linalg.py
index 11f509b..c16ff28 100644
--- a/graphix/_linalg.py
+++ b/graphix/_linalg.py
@@ -30,10 +30,9 @@ class MatGF2(npt.NDArray[np.uint8]):
         -------
             MatGF2
         """
-        arr = np.array(data, dtype=np.uint8, copy=copy)
-        return super().__new__(
-            cls, shape=arr.shape, dtype=arr.dtype, buffer=arr, strides=arr.strides
-        )  # `strides=arr.strides` allows to preserve the memory layout of the original data.
+        # `copy=None` only copies if needed, whereas `copy=False` fails if a copy is needed.
+        arr = np.array(data, dtype=np.uint8, copy=copy or None)
+        return arr.view(cls)  # The view preserves the memory layout of the original data.
 
     def mat_mul(self, other: MatGF2 | npt.NDArray[np.uint8]) -> MatGF2:
         r"""Multiply two matrices.
-- 
2.43.0


From 87e994ed42d6685d167238be5c2a21dbf0a4b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:56 +0000
Subject: [PATCH 45/61] fix: in-place elimination of matrices that are not
 C-contiguous

---
 graphix/_linalg.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/graphix/_linalg.py b/graphix/_linalg.py
index c16ff28..071a481 100644
--- a/graphix/_linalg.py
+++ b/graphix/_linalg.py
@@ -150,7 +150,7 @@ class MatGF2(npt.NDArray[np.uint8]):
         ncols_value = self.shape[1] if ncols is None else ncols
         mat_ref = MatGF2(self) if copy else self
 
-        return MatGF2(_elimination_jit(np.ascontiguousarray(mat_ref), ncols=ncols_value, full_reduce=False), copy=False)
+        return mat_ref._eliminate(ncols_value, full_reduce=False)
 
     def row_reduction(self, ncols: int | None = None, copy: bool = True) -> MatGF2:
         """Return row-reduced echelon form (RREF) by performing Gaussian elimination.
@@ -171,7 +171,15 @@ class MatGF2(npt.NDArray[np.uint8]):
         ncols_value = self.shape[1] if ncols is None else ncols
         mat_ref = self.copy() if copy else self
 
-        return MatGF2(_elimination_jit(np.ascontiguousarray(mat_ref), ncols=ncols_value, full_reduce=True), copy=False)
+        return mat_ref._eliminate(ncols_value, full_reduce=True)
+
+    def _eliminate(self, ncols: int, full_reduce: bool) -> MatGF2:
+        """Perform Gaussian elimination in place."""
+        mat_ref = MatGF2(_elimination_jit(np.ascontiguousarray(self), ncols=ncols, full_reduce=full_reduce), copy=False)
+        if not self.flags.c_contiguous:
+            # `np.ascontiguousarray` has made a copy.
+            self[...] = mat_ref
+        return mat_ref
 
 
 def solve_f2_linear_system(mat: MatGF2, b: MatGF2) -> MatGF2:
-- 
2.43.0


From bc4b5751d0f1b2fcb7757937d5c4098d2fb43a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:56 +0000
Subject: [PATCH 46/61] fix: graph_to_fusion_network terminates with small GHZ
 clusters

---
 graphix/extraction.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/graphix/extraction.py b/graphix/extraction.py
index eea0dc3..4332a18 100644
--- a/graphix/extraction.py
+++ b/graphix/extraction.py
@@ -72,15 +72,18 @@ def graph_to_fusion_network(
     phasedict : dict
         Dictionary of phases for each node.
     max_ghz:
-        Maximum size of ghz clusters
+        Maximum size of ghz clusters (at least 2)
     max_lin:
-        Maximum size of linear clusters
+        Maximum size of linear clusters (at least 2)
 
     Returns
     -------
     list
         List of :class:`ResourceGraph` objects.
     """
+    if max_ghz < 2 or max_lin < 2:
+        raise ValueError("Clusters of at least two nodes are needed.")
+
     adjdict = {k: dict(copy.deepcopy(v)) for k, v in graph.adjacency()}
 
     number_of_edges = graph.number_of_edges()
@@ -98,7 +101,8 @@ def graph_to_fusion_network(
     # Find GHZ graphs in the graph and remove their edges from the graph.
     # All nodes that have more than 2 edges become the roots of the GHZ clusters.
     for v, _ in sorted(neighbors_list, key=operator.itemgetter(1), reverse=True):
-        if len(adjdict[v]) > 2:
+        # One cluster is not enough if ``max_ghz`` is too small.
+        while len(adjdict[v]) > 2:
             nodes = [v]
             while len(adjdict[v]) > 0 and len(nodes) < max_ghz:
                 n, _ = adjdict[v].popitem()
-- 
2.43.0


From 0cb658212c49ffac1493105ad8882c1fb65e7513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:56 +0000
Subject: [PATCH 47/61] fix: graph_to_fusion_network respects size limits in
 cycles

---
 graphix/extraction.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/graphix/extraction.py b/graphix/extraction.py
index 4332a18..dfcebbd 100644
--- a/graphix/extraction.py
+++ b/graphix/extraction.py
@@ -135,13 +135,13 @@ def graph_to_fusion_network(
         # If a cycle exists in the graph, extract one 3-qubit ghz cluster from the cycle.
         for v, va in adjdict.items():
             if len(va) == 2:
-                neighbors = list(va.keys())
+                # If three-qubit clusters are too large, only one edge is extracted.
+                neighbors = list(va.keys())[: 2 if max(max_ghz, max_lin) > 2 else 1]
                 nodes = [v, *neighbors]
-                del adjdict[neighbors[0]][v]
-                del adjdict[neighbors[1]][v]
-                del va[neighbors[0]]
-                del va[neighbors[1]]
-                number_of_edges -= 2
+                for n in neighbors:
+                    del adjdict[n][v]
+                    del va[n]
+                number_of_edges -= len(neighbors)
 
                 resource_list.append(create_resource_graph(nodes, root=v))
                 break
-- 
2.43.0


From 25b4f053893a244ed772ea7129fd5fe389296bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:51 +0000
Subject: [PATCH 48/61] fix: representation of instruction angles evaluates to
 the angle

---
 graphix/instruction.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/graphix/instruction.py b/graphix/instruction.py
index c70d589..507b71d 100644
--- a/graphix/instruction.py
+++ b/graphix/instruction.py
@@ -24,16 +24,22 @@ from graphix.repr_mixins import DataclassReprMixin
 
 def repr_angle(angle: ParameterizedAngle) -> str:
     """
-    Return the representation string of an angle in radians.
+    Return an evaluable representation string of an angle.
 
     This is used for pretty-printing instructions with `angle` parameters.
-    Delegates to :func:`pretty_print.angle_to_str`.
+    Fractions of π are rendered by :func:`pretty_print.angle_to_str`,
+    with ``pi`` denoting :data:`~graphix.fundamentals.ANGLE_PI`. Other
+    angles are given in units of π, as instructions expect them.
     """
     # Non-float-supporting objects are returned as-is
     if not isinstance(angle, SupportsFloat):
         return str(angle)
 
-    return angle_to_str(angle, OutputFormat.ASCII)
+    result = angle_to_str(angle, OutputFormat.ASCII, multiplication_sign=True)
+    if result == "0" or "pi" in result:
+        return result
+    # `angle_to_str` falls back to radians
+    return str(float(angle))
 
 
 class InstructionKind(Enum):
-- 
2.43.0


From fc608afebfebc6b9285bc35f07c90f6bf0ea2377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:51 +0000
Subject: [PATCH 49/61] fix: pattern_to_str with limit=0 announces the commands
 it leaves out

---
 graphix/pretty_print.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphix/pretty_print.py b/graphix/pretty_print.py
index 8054fba..685510a 100644
--- a/graphix/pretty_print.py
+++ b/graphix/pretty_print.py
@@ -315,12 +315,13 @@ def pattern_to_str(
     truncated = limit is not None and len(command_list) > limit
     # Note: The redundant test `limit is not None` is required for mypy
     # to narrow the type of `limit` in the then-branch.
-    short_command_list = command_list[: limit - 1] if limit is not None and truncated else command_list
+    # The truncation message counts as one command, hence ``limit - 1``.
+    short_command_list = command_list[: max(limit - 1, 0)] if limit is not None and truncated else command_list
     result = separator.join(command_to_str(command, output) for command in short_command_list)
     if output == OutputFormat.LaTeX:
         result = f"\\({result}\\)"
     if limit is not None and truncated:
-        return f"{result}...({len(command_list) - limit + 1} more commands)"
+        return f"{result}...({len(command_list) - len(short_command_list)} more commands)"
     return result
 
 
-- 
2.43.0


From ffda38133360efc4578a1c4da2a552296322db86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:35 +0000
Subject: [PATCH 50/61] fix: state renderings put parentheses around sums of
 decimals before a ket

---
 graphix/pretty_print.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/graphix/pretty_print.py b/graphix/pretty_print.py
index 685510a..a1dae0e 100644
--- a/graphix/pretty_print.py
+++ b/graphix/pretty_print.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import enum
 import math
+import re
 import string
 from contextvars import ContextVar
 from enum import Enum
@@ -809,8 +810,13 @@ def _ket_str(ket: str, output: OutputFormat) -> str:
 
 
 def _needs_parentheses(coefficient: str) -> bool:
-    """Whether a coefficient is a sum and must be parenthesized before a ket."""
-    return " + " in coefficient or " - " in coefficient
+    """Whether a coefficient is a sum and must be parenthesized before a ket.
+
+    The two parts of a sum are separated by a spaced sign in exact forms
+    (``1/2 + 1/4i``) and by a sign between two digits in rounded decimals
+    (``0.12+0.23i``); the sign of a decimal exponent follows a letter.
+    """
+    return " + " in coefficient or " - " in coefficient or re.search(r"\d[+-]\d", coefficient) is not None
 
 
 def _factor_uniform_magnitude(
@@ -853,12 +859,12 @@ def _factor_uniform_magnitude(
         phase = complex_to_str(
             value / radius, output, max_denominator=max_denominator, atol=atol, rtol=rtol, precision=precision
         )
-        # A per-component phase is unit-modulus, so it is rendered as 1, -1, ±i, an
-        # exponential, or a decimal — never a parenthesizable sum.
         if phase == "1":
             term = ket
         elif phase == "-1":
             term = f"-{ket}"
+        elif _needs_parentheses(phase):
+            term = f"({phase}){ket}"
         else:
             term = f"{phase}{ket}"
         if index == 0:
-- 
2.43.0


From 1f7af653ccea862c996c2038a98c766cbbfb6d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:49 +0000
Subject: [PATCH 51/61] fix: node_labels=False draws no node labels

---
 graphix/visualization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/graphix/visualization.py b/graphix/visualization.py
index 10ae8f0..3ffed30 100644
--- a/graphix/visualization.py
+++ b/graphix/visualization.py
@@ -398,8 +398,9 @@ class GraphVisualizer:
         with the number of digits in the largest node index to prevent label overflow
         in graphs with many nodes (100+).
 
-        Node labels are obtained from the ``self.options.node_labels`` mapping if provided; otherwise
-        ``networkx`` automatically generates numeric labels from node identifiers.
+        Node labels are obtained from the ``self.options.node_labels`` mapping if provided; if it
+        is ``True``, ``networkx`` automatically generates numeric labels from node identifiers,
+        and if it is ``False``, no labels are drawn.
         """
         for node in self.og.graph.nodes():
             fc = DEFAULT_NODE_FC
@@ -413,6 +414,8 @@ class GraphVisualizer:
                 fc = PAULI_NODE_FC
             plt.scatter(*self.pos[node], edgecolor=ec, facecolor=fc, s=350, zorder=2, marker=marker)
 
+        if self.options.node_labels is False:
+            return
         labels = dict(self.options.node_labels) if isinstance(self.options.node_labels, Mapping) else None
         fontsize = NODE_LABEL_FS
         if max(self.og.graph.nodes(), default=0) >= 100:
-- 
2.43.0


From e957ca9825b409f1c0b40f08cb9c19506b9129fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:49 +0000
Subject: [PATCH 52/61] fix: drawings highlight Pauli-measured nodes of open
 graphs labelled with axes

---
 graphix/visualization.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/graphix/visualization.py b/graphix/visualization.py
index 3ffed30..cff8a3c 100644
--- a/graphix/visualization.py
+++ b/graphix/visualization.py
@@ -18,7 +18,7 @@ from matplotlib import pyplot as plt
 from typing_extensions import assert_never
 
 from graphix.flow.core import CausalFlow, PauliFlow, XZCorrections
-from graphix.measurements import PauliMeasurement
+from graphix.fundamentals import Axis
 from graphix.opengraph import OpenGraph
 
 if TYPE_CHECKING:
@@ -410,7 +410,9 @@ class GraphVisualizer:
                 marker = INPUT_NODE_MARKER
             if node in self.og.output_nodes:
                 fc = OUTPUT_NODE_FC
-            elif self.options.pauli_measurements and isinstance(self.og.measurements[node], PauliMeasurement):
+            elif self.options.pauli_measurements and isinstance(
+                self.og.measurements[node].to_plane_or_axis(), Axis
+            ):
                 fc = PAULI_NODE_FC
             plt.scatter(*self.pos[node], edgecolor=ec, facecolor=fc, s=350, zorder=2, marker=marker)
 
@@ -593,7 +595,7 @@ class GraphVisualizer:
             )
         if self.options.pauli_measurements:
             has_pauli_measurements = any(
-                isinstance(measurement, PauliMeasurement) for measurement in self.og.measurements.values()
+                isinstance(measurement.to_plane_or_axis(), Axis) for measurement in self.og.measurements.values()
             )
             if has_pauli_measurements:
                 plt.scatter(
-- 
2.43.0


From 4c08f1db10d5fdc04a07c06e1b4e7ac61cf8f3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:49 +0000
Subject: [PATCH 53/61] fix: GraphState.draw marks the negative sign of node 0

---
 graphix/graphsim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index c2c8009..30ac213 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -483,7 +483,7 @@ class GraphState(Graph):
         nqubit = len(self.nodes)
         nodes = list(self.nodes)
         edges: list[tuple[int, int]] = list(self.edges)
-        labels = {i: i for i in iter(self.nodes)}
+        labels = {i: str(i) for i in iter(self.nodes)}
         colors = [fill_color for _ in range(nqubit)]
         for i in range(nqubit):
             if self.nodes[nodes[i]]["loop"]:
@@ -491,7 +491,7 @@ class GraphState(Graph):
             if self.nodes[nodes[i]]["hollow"]:
                 colors[i] = "white"
             if self.nodes[nodes[i]]["sign"]:
-                labels[nodes[i]] = -1 * labels[nodes[i]]
+                labels[nodes[i]] = f"-{labels[nodes[i]]}"
         g: nx.Graph[int] = nx.Graph()
         g.add_nodes_from(nodes)
         g.add_edges_from(edges)
-- 
2.43.0


From 5236056ae76284e4c919ede2530f35dc138f7504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:54 +0000
Subject: [PATCH 54/61] fix: rand_gate with use_rzz uses RZZ in the first
 entangling layer too

---
 graphix/random_objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphix/random_objects.py b/graphix/random_objects.py
index c966c4a..4cf057c 100644
--- a/graphix/random_objects.py
+++ b/graphix/random_objects.py
@@ -313,7 +313,10 @@ def rand_gate(
     rng = ensure_rng(rng, stacklevel=stacklevel + 1)
     circuit = Circuit(nqubits)
     _first_rotation(circuit, nqubits, rng)
-    _entangler(circuit, pairs)
+    if use_rzz:
+        _entangler_rzz(circuit, pairs, rng)
+    else:
+        _entangler(circuit, pairs)
     for _ in range(depth - 1):
         _mid_rotation(circuit, nqubits, rng)
         if use_rzz:
-- 
2.43.0


From 07a3010475550100909c0572c13d74750c8d8bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:54 +0000
Subject: [PATCH 55/61] fix: rand_gate uses pairs given as an iterator in every
 layer

---
 graphix/random_objects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphix/random_objects.py b/graphix/random_objects.py
index 4cf057c..10b9da8 100644
--- a/graphix/random_objects.py
+++ b/graphix/random_objects.py
@@ -312,6 +312,7 @@ def rand_gate(
     """
     rng = ensure_rng(rng, stacklevel=stacklevel + 1)
     circuit = Circuit(nqubits)
+    pairs = list(pairs)
     _first_rotation(circuit, nqubits, rng)
     if use_rzz:
         _entangler_rzz(circuit, pairs, rng)
-- 
2.43.0


From e3bacc20e58cb3253c54e291b81bda7b7387312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:54 +0000
Subject: [PATCH 56/61] fix: rand_circuit uses parameters given as an iterator
 for every rotation axis

---
 graphix/random_objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/random_objects.py b/graphix/random_objects.py
index 10b9da8..ebf5df6 100644
--- a/graphix/random_objects.py
+++ b/graphix/random_objects.py
@@ -416,10 +416,11 @@ def rand_circuit(
     """
     rng = ensure_rng(rng, stacklevel=stacklevel + 1)
     circuit = Circuit(nqubits)
+    parameters = list(parameters or [])
     parametric_gate_choice = (
         functools.partial(rotation, angle=parameter)
         for rotation in (circuit.rx, circuit.ry, circuit.rz)
-        for parameter in parameters or []
+        for parameter in parameters
     )
     gate_choice: tuple[Callable[[int], None], ...] = (
         functools.partial(circuit.ry, angle=ANGLE_PI / 4),
-- 
2.43.0


From dbbca9e7116fda3c548265ab506e9dc4b4ce5411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:54 +0000
Subject: [PATCH 57/61] fix: rand_circuit on a single qubit has no entangling
 gates instead of failing

---
 graphix/random_objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphix/random_objects.py b/graphix/random_objects.py
index ebf5df6..b6af6d8 100644
--- a/graphix/random_objects.py
+++ b/graphix/random_objects.py
@@ -329,7 +329,7 @@ def rand_gate(
 
 
 def _genpair(n_qubits: int, count: int, rng: Generator) -> Iterator[tuple[int, int]]:
-    """Yield random pairs of qubit indices.
+    """Yield random pairs of qubit indices (none if there are not enough qubits).
 
     Parameters
     ----------
@@ -346,6 +346,8 @@ def _genpair(n_qubits: int, count: int, rng: Generator) -> Iterator[tuple[int, i
         Randomly selected qubit pair.
     """
     choice = list(range(n_qubits))
+    if n_qubits < 2:
+        return
     for _ in range(count):
         rng.shuffle(choice)
         x, y = choice[:2]
-- 
2.43.0


From 45490b43ef01ddcd9e2e9990088154ba699ad327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:57 +0000
Subject: [PATCH 58/61] fix: noise on a symbolic density matrix

DensityMatrix.apply_channel accumulated into a complex128 array, so that every
simulation with both symbolic=True and a noise model raised a UFuncTypeError.
---
 graphix/sim/density_matrix.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 93aa64a..c08e08f 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -440,7 +440,8 @@ class DensityMatrix(DenseState, InplaceParameterizable):
             This shouldn't happen since :class:`graphix.channel.KrausChannel` objects are normalized by construction.
         ....
         """
-        result_array = np.zeros((2**self.nqubit, 2**self.nqubit), dtype=np.complex128)
+        dtype = np.object_ if self.rho.dtype == np.object_ else np.complex128
+        result_array: Matrix = np.zeros((2**self.nqubit, 2**self.nqubit), dtype=dtype)
 
         if not isinstance(channel, KrausChannel):
             raise TypeError("Can't apply a channel that is not a Channel object.")
@@ -448,10 +449,12 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         for k_op in channel:
             dm = _copy.copy(self)
             dm.evolve(k_op.operator, qargs)
-            result_array += k_op.coef * np.conj(k_op.coef) * dm.rho
+            result_array = result_array + k_op.coef * np.conj(k_op.coef) * dm.rho
             # reinitialize to input density matrix
 
-        if not np.allclose(result_array.trace(), 1.0):
+        trace = result_array.trace()
+        # The norm of a symbolic density matrix cannot be checked in general.
+        if not isinstance(trace, Expression) and not np.allclose(trace, 1.0):
             raise ValueError("The output density matrix is not normalized, check the channel definition.")
 
         self.rho = result_array
-- 
2.43.0


From 44850f87a534e549f6afb2e58a4b226da2a9abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:29 +0000
Subject: [PATCH 59/61] fix: fidelity of a symbolic density matrix

DensityMatrix.fidelity multiplied an object array by the complex128 vector of
the reference state, which always raised a TypeError.
---
 graphix/sim/density_matrix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index c08e08f..47e2979 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -409,7 +409,10 @@ class DensityMatrix(DenseState, InplaceParameterizable):
             statevec : numpy array
                 statevector (flattened numpy array) to compare with
         """
-        result = vdot(statevec.psi, matmul(self.rho, statevec.psi))
+        psi: Matrix = statevec.psi
+        if self.rho.dtype == np.object_ and psi.dtype != np.object_:
+            psi = psi.astype(np.object_)
+        result = vdot(psi, matmul(self.rho, psi))
         if isinstance(result, Expression):
             return result
         assert math.isclose(result.imag, 0, abs_tol=1e-10)
-- 
2.43.0


From 0bd25a6e997f6ef8b3eb9277cac5d93794736146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:55 +0000
Subject: [PATCH 60/61] fix: refuse an RZZ gate between a qubit and itself

---
 graphix/transpiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 0c9452e..6bd122d 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -379,6 +379,7 @@ class Circuit(InplaceParameterizable):
         """
         assert control in self.active_qubits
         assert target in self.active_qubits
+        assert control != target
         self.instruction.append(instruction.RZZ(control=control, target=target, angle=angle))
 
     def ccx(self, control1: int, control2: int, target: int) -> None:
-- 
2.43.0


From 80958553b79c3524838656a33d171d3bb58bc2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:57:55 +0000
Subject: [PATCH 61/61] fix: accept Pauli probabilities that sum to one up to
 rounding

---
 graphix/channels.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphix/channels.py b/graphix/channels.py
index d7a0f73..2c81ac3 100644
--- a/graphix/channels.py
+++ b/graphix/channels.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import math
 import typing
 from typing import TYPE_CHECKING, SupportsIndex, TypeVar
 
@@ -207,9 +208,10 @@ def pauli_channel(px: float, py: float, pz: float) -> KrausChannel:
         (1-p_X-p_Y-p_Z) \rho + p_X X \rho X + p_Y Y \rho Y + p_Z Z \rho Z)
 
     """
-    if px + py + pz > 1:
+    total = math.fsum((px, py, pz))
+    if total > 1:
         raise ValueError("The sum of probabilities must not exceed 1.")
-    p_i = 1 - px - py - pz
+    p_i = 1 - total
     return KrausChannel(
         [
             KrausData(np.sqrt(p_i), Ops.I),
-- 
2.43.0

