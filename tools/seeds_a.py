P = "import sys, numpy as np\nimport tight_binding_redweasel as tb\n"

seed("c01-mutate-offset", "C01", [("smearing.py", """    a0_sign = a0 < 0.0
    a0 = np.abs(a0) # copy array!
    # cube cuts = sum""" if False else """    # simplify using abs (also on a0 to reduce numerical cancelation and get more 0 multiplications)
    a0_sign = a0 < 0.0
    a0 = np.abs(a0) # copy array!
""", """    # simplify using abs (also on a0 to reduce numerical cancelation and get more 0 multiplications)
    a0_sign = a0 < 0.0
    a0 = np.abs(a0, out=a0) if isinstance(a0, np.ndarray) else np.abs(a0)
""")],
"""
import numpy as np
from tight_binding_redweasel.smearing import cube_precomp, cube_cut_volume
a = np.array([-0.2, 0.1, -0.05])
g = cube_precomp(np.array([1., 2, 3]), np.array([1., 0, 0]), np.array([0., 1, 2]))
v1 = cube_cut_volume(a, *g)
v2 = cube_cut_volume(a, *g)
assert np.allclose(v1, v2), (v1, v2)
""", "an array of offsets that the caller uses again", "cube_cut_volume works in place on the caller's offsets, the second evaluation differs")

seed("c01-cube-cutoff", "C01", [("smearing.py", """    volume = np.where(a0 < 3**.5/2, np.minimum(1.0, volume / (6 * ax * ay * az)), 0.0)
""", """    volume = np.where(a0 < 0.85, np.minimum(1.0, volume / (6 * ax * ay * az)), 0.0)
""")],
"""
from tight_binding_redweasel.smearing import cube_precomp, cube_cut_volume
import numpy as np
p = cube_precomp(1., 1., 1.)
v = cube_cut_volume(-0.852 * p[3], *p)
x = (3**.5/2 - 0.852) * 3**.5
assert abs(v - x**3/6) < 1e-7, (v, x**3/6)
""", "gradient close to the cell diagonal and an energy close to the corner value", "the last corner of the cell is cut off, volume jumps")

seed("c02-open-grid-grad", "C02", [("smearing.py", """                self.grads = ax[:-1,:-1,:-1], ay[:-1,:-1,:-1], az[:-1,:-1,:-1]
""", """                self.grads = ax[:-1,:-1,:-1], ay[:-1,:-1,:-1], az[:-1,:-1,1:]
""")],
"""
import numpy as np
from tight_binding_redweasel.smearing import SphereSmearing
v = np.random.default_rng(0).normal(size=(5, 4, 4))
s = SphereSmearing(np.zeros((5, 4, 4, 3)), np.eye(3), v, wrap=False)
w = SphereSmearing(np.zeros((5, 4, 4, 3)), np.eye(3), v, wrap=True)
assert np.allclose(s.volume(0.1), w.volume(0.1)[:-1, :-1, :-1])
""", "spheres on an open grid", "the third gradient component belongs to the cell above (and wraps around at the end)")

seed("c03-cut-bands-edge", "C03", [("density_of_states.py", """        for i, band_range in enumerate(self.bands_range):
            if band_range[0] < energy < band_range[1]:
                indices.append(i)
""", """        for i, band_range in enumerate(self.bands_range):
            if band_range[0] < energy <= band_range[1]:
                indices.append(i)
""")],
"""
import numpy as np
from tight_binding_redweasel.density_of_states import DensityOfStates
f = lambda k: np.stack([np.cos(2*np.pi*k).sum(-1), np.cos(2*np.pi*k).sum(-1) + 10], axis=-1)
d = DensityOfStates(f, N=8)
assert d.cut_band_indices(d.bands_range[0][1]) == []
""", "the energy is exactly the top of a band", "a band that is full is listed as cut")

seed("c04-bandgap-above", "C04", [("density_of_states.py", """        max_below = self.bands_range[e_int - 1][1]
        min_above = self.bands_range[e_int][0]
        if max_below < min_above:
            return min_above - max_below  # isolator""", """        max_below = self.bands_range[e_int - 1][1]
        min_above = min(r[0] for r in self.bands_range if r[0] > self.bands_range[e_int - 1][0])
        if max_below < min_above:
            return min_above - max_below  # isolator""")],
"""
import numpy as np
from tight_binding_redweasel.density_of_states import DensityOfStates
f = lambda k: np.stack([0.1*np.cos(2*np.pi*k).sum(-1), 0.1*np.cos(2*np.pi*k).sum(-1), 0.1*np.cos(2*np.pi*k).sum(-1)+5], axis=-1)
d = DensityOfStates(f, N=8)
assert d.bandgap(1) == 0.0, d.bandgap(1)
assert abs(d.bandgap(2) - 4.4) < 1e-9
""", "two bands with exactly the same lower edge", "a gap is reported inside of a degenerate pair of bands")

seed("c05-flat-right", "C05", [("density_of_states.py", """            s += f(x - energy_smpl[0]) * states[..., 0]
            s += f(energy_smpl[-1] - x) * states[..., -1]
""", """            s += f(x - energy_smpl[0]) * states[..., 0]
            s += f(energy_smpl[-1] - x) * np.max(states, axis=-1)
""")],
"""
import numpy as np
from tight_binding_redweasel.density_of_states import convolve_df
e = np.linspace(0, 1, 11)
s = 1 - e
# constant pieces on both sides: hot limit is the mean of both plateaus
assert abs(convolve_df(0.5, e, s, 1e-3) - 0.5) < 1e-3, convolve_df(0.5, e, s, 1e-3)
""", "samples whose last value is not the largest (e.g. densities or filtered states)", "right plateau uses the maximum instead of the last value")

seed("c13-limit-epsilon", "C13", [("tight_binding_asym.py", """        keep = np.linalg.norm(self.neighbors, axis=-1) <= max_length + 1e-8
""", """        keep = np.linalg.norm(self.neighbors, axis=-1) <= max_length
""")],
"""
import numpy as np
from tight_binding_redweasel.tight_binding_asym import HermitianFourierSeries as F
r = np.array([[0., 0, 0], [0.1, 0.1, 0.1]])
f = F(r, np.ones((2, 1, 1)))
L = 3**.5 * 0.1
assert np.linalg.norm(r[1]) > L and np.linalg.norm(r[1]) - L < 1e-15
assert f.limit_neighbors(L) == 0
""", "a neighbour whose computed length exceeds the limit only by rounding", "neighbours on the limit are removed")

seed("c13-cleanup-onsite", "C13", [("tight_binding_asym.py", """        keep[0] = True  # always keep the 0
        self.neighbors""", """        keep[np.argmin(np.linalg.norm(self.neighbors, axis=-1) + keep)] = True  # always keep the 0
        self.neighbors""")],
"""
import numpy as np
from tight_binding_redweasel.tight_binding_asym import HermitianFourierSeries as F
r = np.array([[0., 0, 0], [0.25, 0, 0], [1, 0, 0]])
H = np.array([np.eye(2), np.eye(2) * 1e-9, np.eye(2)])
f = F(r, H)
assert f.cleanup_neighbors(1e-3) == 1, f.neighbors
assert len(f.neighbors) == 2
""", "a negligible matrix on a neighbour closer than one lattice constant while the on-site matrix is kept", "a neighbour below the threshold is kept")
