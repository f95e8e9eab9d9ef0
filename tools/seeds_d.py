QE, AS, BS, AF = "qespresso_interface.py", "tight_binding_asym.py", "bandstructure.py", "autofit.py"
I = "import numpy as np, warnings, os, sys, tempfile, shutil, io, contextlib\nwarnings.simplefilter('ignore')\nfrom tight_binding_redweasel import *\nfrom tight_binding_redweasel import qespresso_interface as qe, logger\nfrom tight_binding_redweasel.symmetry import Symmetry\nfrom tight_binding_redweasel.bandstructure import BandStructureModel\nfrom tight_binding_redweasel.tight_binding_asym import AsymTightBindingModel, HermitianFourierSeries\nrng = np.random.default_rng(1)\ndef herm(n):\n    a = rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n))\n    return a + a.conj().T\n"
W = I + """
class Quiet:
    def __init__(self): self.data = []
    def add_message(self, m): pass
    def add_data(self, i, l, e): self.data.append((i, l, e))
    def abort(self): pass
"""
D = I + """
d = tempfile.mkdtemp()
here = os.getcwd()
os.chdir(d)
os.makedirs('qe-data/x.save'); os.makedirs('pseudo')
def done():
    os.chdir(here); shutil.rmtree(d)
"""

seed("c19-batch-log", "C19", [(AS, """                    if batch_div != 1:
                        loss, max_err = self.error(k_smpl, ref_bands, band_weights[0], band_offset)
                    if abs(last_loss""", """                    if batch_div != 1:
                        loss, max_err = self.error(batch, batch_ref, band_weights[0], band_offset)
                    if abs(last_loss""")],
W + """
m = AsymTightBindingModel(HermitianFourierSeries([(0,), (1,)], np.array([herm(2), herm(2)])))
k, ref = rng.random((6, 1)), rng.standard_normal((6, 2))
e = m.error(k, ref, np.ones(2), 0)
log = Quiet()
m.optimize(k, 1.0, ref, 1.0, 0, 3, batch_div=2, use_pinv=False, log=log)
assert np.isclose(log.data[0][1], e[0]) and np.allclose(log.data[0][2], e[1]), (log.data[0], e)
""", "a fit in batches (batch_div > 1)", "the log reports the loss of the current batch, not of all samples")

seed("c19-final-loss-weights", "C19", [(BS, """        except KeyboardInterrupt:
            log.abort()
        self.normalize()
        l, err = self.error(k_smpl, ref_bands, band_weights[0], band_offset)
        log.add_data(iteration, l, err)
        return log

    def optimize_cg(""", """        except KeyboardInterrupt:
            log.abort()
        self.normalize()
        l, err = self.error(k_smpl, ref_bands, band_weights_normalized[0], band_offset)
        log.add_data(iteration, l, err)
        return log

    def optimize_cg(""")],
W + """
m = BandStructureModel.init_tight_binding(Symmetry.none(1), [(0,), (1,)], 2, exp=True)
m.params = np.array([herm(2), herm(2)])
k, ref = rng.random((6, 1)), rng.standard_normal((6, 2))
log = Quiet()
m.optimize(k, 1.0, ref, [2.0, 3.0], 0, 2, log=log)
e = m.error(k, ref, np.array([2.0, 3.0]), 0)
assert np.isclose(log.data[-1][1], e[0]), (log.data[-1], e)
""", "band weights with a mean other than one", "the last logged loss is not the loss of the fitted model")

seed("c19-cg-weights", "C19", [(BS, "        weights = band_weights_sqr\n", "        weights = band_weights[0]\n")],
W + """
def run(w):
    r = np.random.default_rng(5)
    h = lambda: (lambda a: a + a.conj().T)(r.standard_normal((2, 2)) + 1j * r.standard_normal((2, 2)))
    m = BandStructureModel.init_tight_binding(Symmetry.none(1), [(0,), (1,)], 2, exp=True)
    m.params = np.array([h(), h()])
    k = np.linspace(0, 1, 12, endpoint=False)[:, None]
    ref = np.sort(r.standard_normal((12, 2)) * 0.3 + np.array([-3, 3]), axis=-1)
    m.optimize_cg(k, 1.0, ref, w, 0, 60, precond=False, max_cg_iterations=40, convergence_threshold=0, log=Quiet())
    return m, k, ref
w = np.array([1.0, 4.0])
m, k, ref = run(w)
# stationary point of the weighted loss
f = lambda: m.loss(k, ref, w, 0)**2
g = []
for i in range(2):
    for a in range(2):
        for b in range(2):
            P = m.params.copy()
            v = []
            for s in (1e-5, -1e-5):
                m.params = P.copy(); m.params[i, a, b] += s
                if i == 0 and a != b: m.params[0, b, a] += s
                v.append(f())
            m.params = P
            g.append((v[0] - v[1]) / 2e-5)
assert np.abs(g).max() < 0.02, g
""", "bands with unequal weights in the conjugate gradient fit", "the fit minimises a loss with the square roots of the weights")

seed("c20-small-translation", "C20", [(QE, "if not all((np.linalg.norm(t) < 1e-10 for t in S_trans)):", "if not all((np.linalg.norm(t) < 1e-1 for t in S_trans)):")],
D + """
sym = lambda t: '<symmetry><info>crystal_symmetry</info><rotation rank="2" dims="3 3">-1 0 0 0 -1 0 0 0 1</rotation><fractional_translation>0 0 %s</fractional_translation></symmetry>' % t
open('qe-data/x.xml', 'w').write('<qes:espresso xmlns:qes="q" Units="Hartree atomic units"><output><cell><a1>1 0 0</a1><a2>0 1 0</a2><a3>0 0 1</a3></cell><b1>1 0 0</b1><b2>0 1 0</b2><b3>0 0 1</b3><symmetries>' + sym(0) + sym(0.0833333333) + '</symmetries><ks_energies><k_point>0 0 0</k_point><eigenvalues>1 2</eigenvalues></ks_energies><fermi_energy>0.5</fermi_energy></output></qes:espresso>')
S = qe.QECrystal('x', np.eye(3), [(0, 0, 0)], ['H'], 10.0).read_bands_crystal()[2]
done()
assert np.shape(S) == (2, 4, 4), np.shape(S)
""", "a symmetry whose fractional translation is short (a twelfth of a cell)", "the translation is dropped: not a symmetry of the crystal any more")

seed("c20-overlaps-conjugate", "C20", [(QE, "mat += data[::2] + data[1::2]*1j", "mat += data[::2] - data[1::2]*1j")],
D + """
open('qe-data/x.save/atomic_proj.xml', 'w').write('<PROJECTIONS><HEADER NUMBER_OF_BANDS="1" NUMBER_OF_K-POINTS="1" NUMBER_OF_SPIN_COMPONENTS="1" NUMBER_OF_ATOMIC_WFC="2" NUMBER_OF_ELECTRONS="2" FERMI_ENERGY="1"/><EIGENSTATES><K-POINT>0 0 0</K-POINT><E>1</E><PROJS><ATOMIC_WFC index="1" spin="1">1 2</ATOMIC_WFC><ATOMIC_WFC index="2" spin="1">3 4</ATOMIC_WFC></PROJS></EIGENSTATES><OVERLAPS><OVPS>1 0 0.5 0.25 0.5 -0.25 1 0</OVPS></OVERLAPS></PROJECTIONS>')
o = qe.QECrystal('x', np.eye(3), [(0, 0, 0)], ['H'], 10.0).read_projections()[2][1]
done()
assert np.allclose(o, [[[1, 0.5 + 0.25j], [0.5 - 0.25j, 1]]]), o
""", "projections with complex overlaps", "the overlaps are complex conjugated, the projections are not")

seed("c20-cutoff-last", "C20", [(QE, "        self.kinetic_energy_cutoff = max(wfc_cutoffs)", "        self.kinetic_energy_cutoff = wfc_cutoffs[-1]")],
D + """
for n, c in (('H', 80), ('Cu', 40)):
    open('pseudo/%s.UPF' % n, 'w').write('<UPF><PP_HEADER wfc_cutoff="%d" rho_cutoff="1" z_valence="1"/></UPF>' % c)
qe.qe_prepare({'H': 'H.UPF', 'Cu': 'Cu.UPF'})
c = qe.QECrystal('x', np.eye(3), [(0, 0, 0), (0.5, 0.5, 0.5)], ['H', 'Cu'])
done()
assert c.kinetic_energy_cutoff == 80, c.kinetic_energy_cutoff
""", "several types of which the last one has a smaller cutoff", "the cutoff is too small for one of the atoms")

seed("c20-wavefunction-order", "C20", [(QE, "        inv_order[np.array(order)-1] = np.arange(len(order))", "        inv_order[:] = np.array(order)-1")],
D + """
def rec(*a):
    b = b''.join(x.tobytes() for x in a)
    n = np.int32(len(b)).tobytes()
    return n + b + n
i4, f8 = (lambda *a: np.array(a, dtype='int32')), (lambda *a: np.array(a, dtype='float64'))
for ik in range(1, 5):
    open('qe-data/x.save/wfc%d.dat' % ik, 'wb').write(rec(i4(ik), f8(ik, 0, 0), i4(1, 0), f8(1)) + rec(i4(1, 1, 1, 1)) + rec(f8(1, 0, 0, 0, 1, 0, 0, 0, 1)) + rec(i4(0, 0, 0)) + rec(np.array([ik + 0j])))
old = os.listdir
os.listdir = lambda p: ['wfc%d.dat' % i for i in (2, 3, 1, 4)]
try:
    k, g, e = qe.QECrystal('x', np.eye(3), [(0, 0, 0)], ['H'], 10.0).read_wavefunctions()
finally:
    os.listdir = old
done()
assert np.allclose(np.asarray(k)[:, 0], [1, 2, 3, 4]), k
""", "three or more k-points whose files are listed in a cyclic order", "wave functions are given to the wrong k-points")

seed("c20-wannier-path", "C20", [(QE, "            x, y, z = A_norm.T @ np.asarray(kpath[i])", "            x, y, z = A_norm @ np.asarray(kpath[i])")],
D + """
from tight_binding_redweasel import kpaths
c = qe.QECrystal('x', qe.hexagonal(2.0, 3.0), [(0, 0, 0)], ['H'], 10.0)
A = np.array([[1, -0.5, 0], [0, 3**.5/2, 0], [0, 0, 1.5]])
class P:
    indices, names = [0, 1], ['A', 'B']
    def __getitem__(self, i): return np.array([[0.0, 0, 0], [0.25, 0.5, 0.125]])[i]
t = c.k_path_wannier(P(), A)
done()
v = [float(x) for x in t.split('\\n')[1].split()[5:]]
assert np.allclose(v, A.T @ [0.25, 0.5, 0.125]), v
""", "a lattice whose normalised matrix is not symmetric", "the path of the interpolated bands is not the given path")

seed("c20-valence-types", "C20", [(QE, "        return sum((valence[t] for t in self.types))", "        return sum((valence[t] for t in set(self.types)))")],
D + """
for n, z in (('H', 1), ('Cu', 11)):
    open('pseudo/%s.UPF' % n, 'w').write('<UPF><PP_HEADER wfc_cutoff="10" rho_cutoff="1" z_valence="%d.0"/></UPF>' % z)
qe.qe_prepare({'H': 'H.UPF', 'Cu': 'Cu.UPF'})
c = qe.QECrystal('x', np.eye(3), [(0, 0, 0), (0.5, 0.5, 0.5), (0.25, 0, 0)], ['H', 'Cu', 'H'], 10.0)
v = c.read_valence_electrons()
done()
assert v == 13, v
""", "two atoms of the same type in the cell", "valence electrons are counted once per type")
