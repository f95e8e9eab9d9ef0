"""C03 aggregation over bands and cells, for every number of bands and cells.

The object is built without its constructor: bands_range is an arbitrary (n, 2)
array with min <= max, smearing an arbitrary list of objects whose volume /
dvolume / volume_dvolume obey the contract proved in C01/C02 (fractions in
[0, 1], non-decreasing in the energy, density >= 0, pair = the two calls)."""
from pyvc.kit import contract

D = "density_of_states:DensityOfStates."


class Cell:
    def __init__(self, o, i):
        self.o, self.i = o, i

    def volume(self, e):
        return self.o.vols[self.o.phase][self.i] + 0.0

    def dvolume(self, e):
        return self.o.dens[self.i] + 0.0

    def volume_dvolume(self, e):
        return self.volume(e), self.dvolume(e)


class Cells:
    def __init__(self, vols, dens):
        self.vols, self.dens, self.phase = vols, dens, 0

    def __getitem__(self, i):
        return Cell(self, i)


def obj(K, one_band=False):
    n = K.int("n", 1, hic=5)
    m = K.int("m", 1, hic=4)
    rng = K.array("ranges", (n, 2), gen=None if K.sym else (lambda k: _ranges(k, n)))
    v1 = K.array("v1", (n, m), lo=0, hi=1)
    up = K.array("up", (n, m), lo=0, hi=1)
    dens = K.array("dens", (n, m), lo=0, gen=None if K.sym else (lambda k: abs(k.nrng.normal(size=(n, m)))))
    cells = Cells([v1, v1 + up * (1 - v1)], dens)
    cls = K.mod("density_of_states").DensityOfStates
    d = cls.__new__(cls)
    d.bands_range = rng
    d.smearing = cells
    return d, cells, n, m


def _ranges(k, n):
    import numpy as np
    a = np.sort(np.round(k.nrng.normal(size=(n, 2)), 1), axis=-1)
    return np.sort(a, axis=0)


def energy(K, name="e"):
    return K.real(name, gen=lambda k: round(k.rng.gauss(0, 1), 1))


@contract("C03", covers=[D + "states_below", D + "states_below_band"], proof=True, n=60)
def counts_in_range(K):
    d, cells, n, m = obj(K)
    e = energy(K)
    s = d.states_below(e)
    K.le("states >= 0", 0, s)
    K.le("states <= number of bands", s, n * 1.0)


@contract("C03", covers=[D + "states_below", D + "states_below_band"], proof=True, n=60)
def counts_monotone(K):
    d, cells, n, m = obj(K)
    e = energy(K)
    e2 = e + K.real("step", 0, gen=lambda k: round(abs(k.rng.gauss(0, 1)), 1))
    s = d.states_below(e)
    cells.phase = 1
    K.le("monotone", s, d.states_below(e2))


@contract("C03", covers=[D + "density", D + "density_band"], proof=True, n=60)
def density_nonnegative(K):
    d, cells, n, m = obj(K)
    K.le("density >= 0", 0, d.density(energy(K)))


@contract("C03", covers=[D + "states_below_band", D + "density_band"], proof=True, n=60)
def band_outside(K):
    d, cells, n, m = obj(K)
    e = energy(K)
    i = K.index("i", n)
    s, g = d.states_below_band(e, i), d.density_band(e, i)
    K.le("band states >= 0", 0, s)
    K.le("band states <= 1", s, 1)
    K.le("band density >= 0", 0, g)
    if d.bands_range[i][1] <= e:
        if d.bands_range[i][0] <= d.bands_range[i][1]:
            K.eq("full above its range", s, 1)
            K.eq("no density above its range", g, 0)
    elif e <= d.bands_range[i][0]:
        K.eq("empty below its range", s, 0)
        K.eq("no density below its range", g, 0)
    else:
        K.eq("mean cell fraction inside its range", s, K.np.sum(cells[i].volume(e)) / m)
        K.eq("mean cell density inside its range", g, K.np.sum(cells[i].dvolume(e)) / m)


@contract("C03", covers=[D + "states_below", D + "density"], proof=True, n=60)
def totals_are_sums(K):
    d, cells, n, m = obj(K)
    e = energy(K)
    K.eq("states", d.states_below(e), K.sum(n, lambda i: d.states_below_band(e, i)))
    K.eq("density", d.density(e), K.sum(n, lambda i: d.density_band(e, i)))


@contract("C03", covers=[D + "density_bands"], proof=True, n=60)
def density_list(K):
    d, cells, n, m = obj(K)
    e = energy(K)
    l = d.density_bands(e)
    i = K.index("i", n)
    K.eq("density_bands lists the band densities", l[i], d.density_band(e, i))
    K.ensure("one entry per band", K.length(l) == n)


@contract("C03", covers=[D + "states_density"], proof=True, n=60)
def pair_agrees(K):
    d, cells, n, m = obj(K)
    e = energy(K)
    s, g = d.states_density(e)
    K.eq("states of the combined query", s, d.states_below(e))
    K.eq("density of the combined query", g, d.density(e))


@contract("C03", covers=[D + "cut_band_indices"], proof=True, n=60)
def cut_bands_exact(K):
    d, cells, n, m = obj(K)
    e = energy(K)
    l = d.cut_band_indices(e)
    i = K.index("i", n)
    a, b = d.bands_range[i][0], d.bands_range[i][1]
    inside = K.both(a < e, e < b)
    K.ensure("listed exactly if the range strictly contains the energy", K.iff(K.contains_index(l, i), inside))


@contract("C03", covers=[D + "states_below", D + "density"], proof=True, n=60)
def outside_all(K):
    """below every band nothing, above every band everything"""
    d, cells, n, m = obj(K)
    e = energy(K)
    top = K.array("top", (n,), lo=0, gen=None if K.sym else (lambda k: abs(k.nrng.normal(size=n))))
    w = K.array("w", (n,), lo=0, gen=None if K.sym else (lambda k: abs(k.nrng.normal(size=n))))
    above = K.bool("above")
    if above:
        d.bands_range = K.np.stack([e - top - w, e - top], axis=-1)
        K.eq("all states above every band", d.states_below(e), n * 1.0)
    else:
        d.bands_range = K.np.stack([e + (top + 0.001), e + (top + 0.001) + w], axis=-1)
        K.eq("no states below every band", d.states_below(e), 0)
    K.eq("no density outside", d.density(e), 0)
