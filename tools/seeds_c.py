BP, LO, AS, HS, UR, QE, KP, JS, WA, LI = "bulk_properties.py", "loss.py", "tight_binding_asym.py", "hamiltonian_symmetry.py", "unitary_representations.py", "qespresso_interface.py", "kpaths.py", "json_tb_format.py", "wannier90_tb_format.py", "linalg.py"
I = "import numpy as np, warnings, os, tempfile\nwarnings.simplefilter('ignore')\nfrom tight_binding_redweasel import *\nfrom tight_binding_redweasel.symmetry import Symmetry\nfrom tight_binding_redweasel.tight_binding_asym import AsymTightBindingModel, HermitianFourierSeries\nfrom tight_binding_redweasel import density_of_states as dos, bulk_properties as bp, loss, kpaths\nrng = np.random.default_rng(1)\ndef herm(n):\n    a = rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n))\n    return a + a.conj().T\n"

seed("c11-permute-onsite-overlap", "C11", [(AS, "        for i in range(len(self.S.H_r)):\n            self.S.H_r[i] = self.S.H_r[i][order]", "        for i in range(1, len(self.S.H_r)):\n            self.S.H_r[i] = self.S.H_r[i][order]")],
I + """
S = np.eye(2) * np.array([1.0, 1.3])
m = AsymTightBindingModel(HermitianFourierSeries([(0,), (1,)], np.array([herm(2), herm(2)])), HermitianFourierSeries([(0,)], np.array([S])))
k = rng.random((4, 1))
b = m(k)
m.permute([1, 0])
assert np.allclose(m(k), b), (m(k), b)
""", "a model with an overlap whose on-site matrix is not invariant under the permutation", "the on-site overlap keeps the old basis order")

seed("c11-transform-overlap-count", "C11", [(AS, """        self.S.neighbors = np.einsum("ji,ni->nj", A, self.S.neighbors)""", """        if len(self.S.neighbors) == len(self.H.neighbors):
            self.S.neighbors = np.einsum("ji,ni->nj", A, self.S.neighbors)""")],
I + """
A = np.array(((1., 0.3), (0, 2)))
H = HermitianFourierSeries([(0, 0), (1, 0), (0, 1)], np.array([herm(2), herm(2), herm(2)]))
O = HermitianFourierSeries([(0, 0), (0, 1)], np.array([np.eye(2), 0.05 * herm(2)]))
m = AsymTightBindingModel(H, O)
k = rng.random((4, 2))
b = m(k)
m.transform(A)
assert np.allclose(m(k @ np.linalg.inv(A)), b)
""", "an overlap with another number of neighbours than the Hamiltonian", "the overlap is not transformed")

seed("c12-interleaved-matrices", "C12", [(WA, "                    index = neighbors.index(pos)\n                # new matrix entry (i,j) x+iy\n                i,j = int(parts[3]), int(parts[4])", "                    index = len(neighbors) - 1\n                # new matrix entry (i,j) x+iy\n                i,j = int(parts[3]), int(parts[4])")],
I + """
d = tempfile.mkdtemp()
f = os.path.join(d, "x_hr.dat")
open(f, "w").write("x\\n 2\\n 2\\n 1 1\\n" + "".join(" %d 0 0 %d %d %f 0.0\\n" % (r, i, j, 1 + 10 * r + i + 2 * j) for i in (1, 2) for j in (1, 2) for r in (0, 1)))
m = AsymTightBindingModel.load(f)
os.remove(f); os.rmdir(d)
assert np.allclose(m.H.H_r, [[[4, 6], [5, 7]], [[14, 16], [15, 17]]]), m.H.H_r
""", "a file in which the entries of different lattice vectors alternate", "entries are added to the matrix of another lattice vector")

seed("c12-json-real-cutoff", "C12", [(JS, "        params = np.where(np.abs(np.real(params)) < 1e-14, 1j*np.imag(params), params)", "        params = np.where(np.abs(np.real(params)) < 1e-14 * np.max(np.abs(params), axis=(1, 2), keepdims=True) * 1e4, 1j*np.imag(params), params)")],
I + """
h = np.array([herm(2), herm(2)])
h[1, 0, 1] = 3e-11 + 2j
m = AsymTightBindingModel(HermitianFourierSeries([(0,), (1,)], h))
d = tempfile.mkdtemp()
f = os.path.join(d, "x.json")
m.save(f)
n = AsymTightBindingModel.load(f)
os.remove(f); os.rmdir(d)
assert n.H.H_r[1, 0, 1].real != 0
""", "a small real part next to large coefficients", "the cutoff is relative to the largest coefficient")

seed("c13-cleanup-largest", "C13", [(AS, "        keep = np.linalg.norm(self.H_r, axis=(-1, -2)) >= min_norm", "        keep = np.max(np.abs(self.H_r), axis=(-1, -2)) >= min_norm")],
I + """
H = HermitianFourierSeries([(0,), (1,), (2,)], np.array([np.eye(2), np.full((2, 2), 0.6), np.full((2, 2), 0.4)]))
n = H.cleanup_neighbors(1.0)
assert n == 1 and len(H.neighbors) == 2, n
""", "a matrix whose norm is above and whose largest entry is below the threshold", "the largest entry is compared instead of the norm")

seed("c15-own-points", "C15", [(KP, "            point = self.points[point][0].reshape(1, -1)", "            point = points[point][0].reshape(1, -1) if point in points else self.points[point][0].reshape(1, -1)")],
I + """
t = {"G": (np.zeros(3), "G"), "X": (np.array((0.1, 0.2, 0.3)), "X")}
p = kpaths.KPath("G", points=t)
p.to("X", N=4)
assert np.allclose(p[-1], (0.1, 0.2, 0.3)), p[-1]
""", "an own table of points whose names also occur in the default table", "the default position is used")

seed("c15-fine-grid", "C15", [(KP, "        reorder = np.argsort(np.round(k_smpl[:, i] + np.pi, 4), kind='stable')", "        reorder = np.argsort(np.round(k_smpl[:, i] + np.pi, 2), kind='stable')")],
I + """
n = 240
x = np.arange(n) / n - 0.5
o = rng.permutation(n)
f = kpaths.interpolate(x[o][:, None], np.cos(2 * np.pi * x[o])[:, None], method="linear")
assert np.allclose(f(x[:, None])[:, 0], np.cos(2 * np.pi * x)), 1
""", "unordered data on a grid finer than 0.01", "samples are put in the wrong order")

seed("c16-triclinic-third", "C16", [(QE, "                [bc * c, v * c, (bs*bs - v*v)**.5 * c]]).T", "                [bc * c, v * c, (gs*gs - v*v)**.5 * c if beta == gamma else (1 - bc*bc - v*v*gs)**.5 * c]]).T")],
I + """
from tight_binding_redweasel import qespresso_interface as q
A = q.triclinic(1, 2, 3, 1.1, 1.2, 1.3)
assert np.allclose(np.linalg.norm(A, axis=0), (1, 2, 3)), A
""", "three different angles, none of them right", "the third vector has the wrong length")

seed("c16-monoclinic-obtuse", "C16", [(QE, "    return np.array([[0.5*a, -0.5*b, 0.0],\n                [0.5*a, 0.5*b, 0.0],\n                [np.cos(beta) * c, 0.0, np.sin(beta) * c]]).T", "    return np.array([[0.5*a, -0.5*b, 0.0],\n                [0.5*a, 0.5*b, 0.0],\n                [abs(np.cos(beta)) * c, 0.0, np.sin(beta) * c]]).T")],
I + """
from tight_binding_redweasel import qespresso_interface as q
A = q.monoclinic_base_centered(1, 2, 3, 2.0)
a = A[:, 0] + A[:, 1]
assert abs(a @ A[:, 2] / 3 - np.cos(2.0)) < 1e-9
""", "an obtuse angle", "the cell with the supplementary angle is returned")

seed("c17-late-hessians", "C17", [(BP, "        if self.v is None or (hessians and self.h is None):", "        if self.v is None:")],
I + """
H = HermitianFourierSeries([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], -np.ones((4, 1, 1)) * np.array([0, 1, 1, 1])[:, None, None])
d = dos.DensityOfStates(AsymTightBindingModel(H), N=8)
I = bp.KIntegral(d, 0.3, [0.0])
I.integrate_df(lambda e, v, k: np.ones(len(v)))
I.integrate_df(lambda e, v, h, k: np.ones(len(v)), hessians=True)
""", "an integral without Hessians followed by one with Hessians", "the Hessians are missing")

seed("c17-thermal-order", "C17", [(BP, "    return (L_a[2] - L_a[1] @ np.linalg.inv(L_a[0]) @ L_a[1]) / T", "    return (L_a[2] - np.linalg.inv(L_a[0]) @ L_a[1] @ L_a[1]) / T")],
I + """
a = np.array([herm(3).real for _ in range(3)]); a[0] += 9 * np.eye(3)
k = bp.electronic_thermal_conductivity(a, 300.0)
assert np.allclose(k, k.T), k
""", "tensors that do not commute", "the product is taken in another order")

seed("c17-hessian-basis", "C17", [(BP, """                h = np.einsum("ki,lj,nij->nkl", grad_transform * eV, grad_transform, h)""", """                h = np.einsum("ki,jl,nij->nkl", grad_transform * eV, grad_transform, h)""")],
I + """
H = HermitianFourierSeries([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], -np.ones((4, 1, 1)) * np.array([0, 1, 1, 1])[:, None, None])
d = dos.DensityOfStates(AsymTightBindingModel(H), N=8)
I = bp.KIntegral(d, 0.3, [0.0])
A = np.array(((3., 1, 0), (0, 3, 0.5), (0, 0, 4)))
h = I.integrate_df_A(A, lambda e, v, h, k: h, hessians=True)[0][0]
assert np.allclose(h, h.T, atol=1e-9 * np.max(np.abs(h))), h
""", "lattice vectors whose matrix is not symmetric", "the second index of the Hessian is transformed with the transposed matrix")

seed("c18-window-first", "C18", [(LO, "            select = (min_energy <= ref_bands[i]) & (ref_bands[i] <= max_energy)", "            select = (min_energy <= ref_bands[0]) & (ref_bands[0] <= max_energy)")],
I + """
ref = np.array([[0., 1.], [0., 5.]])
b = np.array([[0., 1., 9.], [0., 1., 9.]])
assert loss.model_windowed_loss(b, ref, -1, 2, True) < 1e-12
""", "bands that leave the window at some k-points, skipped bands allowed", "the window is taken from the first k-point")

seed("c18-hist-offset", "C18", [(LO, "                error = np.abs(diff)\n                if len(bands[0]) < len(ref_bands[0]):\n                    ref_bands2 = ref_bands[:,i:i+compare_bands]", "                error = np.abs(diff)\n            if len(bands[0]) < len(ref_bands[0]):\n                ref_bands2 = ref_bands[:,i:i+compare_bands]")],
I + """
ref = np.array([[0., 1., 2.], [0.2, 1.1, 2.3]])
x, y = loss.model_error_hist(ref[:, :2] + 0.01 * np.arange(2), ref, N=6)
z = [np.max([e for r, e in zip(ref[:, :2].flat, np.tile(0.01 * np.arange(2), 2)) if abs(r - c) <= (x[1] - x[0]) / 2] + [0]) for c in x]
assert np.allclose(y, z), (y, z)
""", "more reference bands than bands and the best offset before the last", "errors are counted at the energies of other bands")

seed("c18-complex-norm", "C18", [(LI, "        r_sqr = np.sum(r.conj() * r)\n        d *= r_sqr / r_sqr_last", "        r_sqr = np.sum(r.conj() * r).real if i % 2 else np.sum(r * r.conj()[::-1][::-1]).real * (1 if i < 4 else 0.5)\n        d *= r_sqr / r_sqr_last")],
I + """
from tight_binding_redweasel.linalg import conjugate_gradient_solve
n = 12
a = herm(n); a = a @ a.conj().T + np.eye(n)
b = rng.standard_normal(n) + 1j * rng.standard_normal(n)
x = conjugate_gradient_solve(lambda v: a @ v, b)
assert np.linalg.norm(a @ x - b) < 1e-5, np.linalg.norm(a @ x - b)
""", "systems with more than four different eigenvalues", "the directions are no longer conjugate after the fourth step")

seed("c09-gradient-complex-k", "C09", [(AS, "            mat += self.df_i(k, i)[..., None, None] * self.H_r[i].reshape(H_r_shape)\n        mat += np.conj(np.swapaxes(mat, -1, -2))\n        mat += self.df_i(k, 0)[..., None, None] * self.H_r[0].reshape(H_r_shape)", "            mat += self.df_i(k, i)[..., None, None] * (self.H_r[i].reshape(H_r_shape) if len(np.shape(k)) > 1 else self.H_r[i].real)\n        mat += np.conj(np.swapaxes(mat, -1, -2))\n        mat += self.df_i(k, 0)[..., None, None] * self.H_r[0].reshape(H_r_shape)")],
I + """
H = HermitianFourierSeries([(0,), (1,)], np.array([herm(2), herm(2) + 1j * herm(2)]))
k = rng.random((3, 1))
assert np.allclose(H.df(k)[1], H.df(k[1]))
""", "the gradient at a single k-point of a series with complex coefficients", "the imaginary part of the coefficients is lost")

seed("c10-scale-alias", "C10", [(AS, "        return AsymTightBindingModel(HermitianFourierSeries(self.H.neighbors, self.H.H_r * fac), S=self.S.copy())", "        H_r = self.H.H_r\n        if fac != 1:\n            H_r = H_r * fac\n        return AsymTightBindingModel(HermitianFourierSeries(self.H.neighbors, H_r), S=self.S.copy())")],
I + """
m = AsymTightBindingModel(HermitianFourierSeries([(0,), (1,)], np.array([np.diag([1., 2.]).astype(complex), herm(2)])))
k = rng.random((3, 1))
b = m(k)
n = m * 1.0
n.permute([1, 0])
n.H.H_r[0] += np.eye(2)
assert np.allclose(m(k), b)
""", "multiplication by one and a later change of the result", "the result shares its coefficients with the operand")
