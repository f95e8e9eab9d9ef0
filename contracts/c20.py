"""C20 exchange of data with Quantum ESPRESSO: values, units, order and coordinates"""
from pyvc.kit import contract

Q = "qespresso_interface:"
C = Q + "QECrystal."
HARTREE = 27.21138625   # eV
RYDBERG = HARTREE / 2
BOHR = 0.52917721       # angstrom
KB = 6.3336231269e-6    # Ry per Kelvin

ELEMENTS = ["H", "He", "C", "Na", "Si", "Ti", "Cu", "Ag", "Au", "U"]


class Disk:
    """scratch directory as working directory; programs are recorded instead of executed"""

    def __init__(self, K):
        self.q = K.mod("qespresso_interface")
        self.calls = []

    def __enter__(self):
        import os
        import tempfile
        self.tmp = tempfile.TemporaryDirectory()
        self.old = os.getcwd()
        os.chdir(self.tmp.name)
        os.mkdir("qe-data")
        os.mkdir("pseudo")
        self.files = dict(self.q.pp_files)
        self.pp = self.q.pp_files
        self.system, self.popen, self.sub = os.system, self.q.subprocess.Popen, self.q.subprocess.run
        os.system = lambda cmd: self.calls.append(cmd) or 0
        self.q.subprocess.run = self.refuse
        return self

    def refuse(self, *a, **k):
        raise RuntimeError("no download expected")

    def __exit__(self, *a):
        import os
        os.system = self.system
        self.q.subprocess.run = self.sub
        self.q.pp_files = self.pp
        self.pp.clear()
        self.pp.update(self.files)
        os.chdir(self.old)
        self.tmp.cleanup()


def number(K, x):
    """a number the way Fortran and C programs write it"""
    return K.rng.choice(["%.15E", "%.16e", "%.17g"]) % x


def vector(K, xs):
    """whitespace separated numbers, possibly over several lines"""
    pad = K.rng.choice(["", " ", "\n   "])
    sep = K.rng.choice([" ", "  "])
    out = pad
    for i, x in enumerate(xs):
        out += number(K, x) + ("\n" if K.rng.random() < 0.2 else sep)
    return out + K.rng.choice(["", "\n      "])


def cell(K):
    """a lattice in bohr with the vectors as columns"""
    import numpy as np
    while True:
        A = K.nrng.normal(size=(3, 3)) * 10 ** K.nrng.uniform(0, 1)
        if abs(np.linalg.det(A)) > 0.2 * np.prod(np.linalg.norm(A, axis=0)):
            return A


def crystal(K, D, A=None, unit=None, name="mat", atoms=None):
    """(crystal, basis, types)"""
    import numpy as np
    n = K.rng.randint(1, 5) if atoms is None else atoms
    kinds = K.rng.sample(ELEMENTS, K.rng.randint(1, min(3, n)))
    types = kinds + [K.rng.choice(kinds) for _ in range(n - len(kinds))]
    K.rng.shuffle(types)
    basis = K.nrng.uniform(-0.5, 1, size=(n, 3))
    basis[0] = 0.0 if K.rng.random() < 0.5 else basis[0]
    for t in kinds:
        D.q.pp_files[t] = t + ".pbe-test.UPF"
    unit = unit or K.rng.choice(["angstrom", "bohr"])
    A = cell(K) if A is None else A
    A = A * BOHR if unit == "angstrom" else A
    c = D.q.QECrystal(name, A, basis.tolist() if K.rng.random() < 0.5 else basis, list(types), float(K.rng.randint(20, 80)), unit=unit)
    return c, basis, types


def symmetries(K):
    """rotation matrices in crystal coordinates (integers) with their translations"""
    import numpy as np
    sy = K.mod("symmetry").Symmetry
    kind = K.rng.choice(["none", "cubic", "other", "other"])
    if kind == "none":
        return [], []
    if kind == "cubic":
        ops = [np.round(s) for s in K.rng.choice([sy.cubic(True), sy.cubic(False)]).get_symmetry_operations()]
    else:
        ops = [np.round(np.array(m)) for m in
               K.rng.choice([[np.eye(3)], [np.eye(3), -np.eye(3)],
                             [np.eye(3), [[0, -1, 0], [1, -1, 0], [0, 0, 1]], [[-1, 1, 0], [-1, 0, 0], [0, 0, 1]]],
                             [np.eye(3), [[0, 1, 0], [1, 0, 0], [0, 0, -1]]],
                             [np.eye(3), [[-1, 0, 0], [-1, 1, 0], [0, 0, 1]]],
                             [np.eye(3), [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]]],
                             [np.eye(3), [[1, 1, 0], [0, -1, 0], [0, 0, -1]]]])]
    t = [np.zeros(3) for _ in ops]
    if K.rng.random() < 0.4:
        steps = K.rng.choice([[0, 0, 0.5, 0.25, 1 / 3], [0, 0, 0.5, 0.25, 1 / 3], [0, 0, 0, 1 / 12], [0, 0, 0, 1 / 48, -1 / 12]])
        t = [np.array([K.rng.choice(steps) for _ in range(3)]) for _ in ops]
    return ops, t


def section(K, tag, A, basis_cart, types, ops, trans, ks, bands, fermi, cut, smear, degauss, alat):
    """input or output section of the data file"""
    import numpy as np
    B = np.linalg.inv(A).T * alat
    kinds = list(dict.fromkeys(types))
    x = ["<%s>" % tag]
    if tag == "output":
        x.append("<convergence_info><scf_conv><n_scf_steps>1</n_scf_steps></scf_conv></convergence_info>")
    x.append('<atomic_species ntyp="%d">' % len(kinds))
    for t in kinds:
        x.append('<species name="%s"><mass>1.0E+00</mass><pseudo_file>%s.fromdisk.UPF</pseudo_file></species>' % (t, t))
    x.append('</atomic_species>\n<atomic_structure nat="%d" alat="%.15f">\n<atomic_positions>' % (len(types), alat))
    for i, (p, t) in enumerate(zip(basis_cart, types)):
        x.append('<atom name="%s" index="%d">%s</atom>' % (t, i + 1, vector(K, p)))
    x.append("</atomic_positions>\n<cell>")
    for i in range(3):
        x.append("<a%d>%s</a%d>" % (i + 1, vector(K, A[:, i]), i + 1))
    x.append("</cell>\n</atomic_structure>")
    if tag == "output":
        x.append("<symmetries><nsym>%d</nsym>" % len(ops))
        always = K.rng.random() < 0.5
        for s, t in zip(ops, trans):
            x.append('<symmetry><info name="op">crystal_symmetry</info><rotation rank="2" dims="3 3">%s</rotation>' % vector(K, np.asarray(s).reshape(-1)))
            if always or np.any(t != 0):
                x.append("<fractional_translation>%s</fractional_translation>" % vector(K, t))
            x.append("</symmetry>")
        x.append("</symmetries>")
    x.append("<basis_set><ecutwfc>%s</ecutwfc><ecutrho>%s</ecutrho>" % (number(K, cut), number(K, 4 * cut)))
    if tag == "output":
        x.append("<reciprocal_lattice>")
        for i in range(3):
            x.append("<b%d>%s</b%d>" % (i + 1, vector(K, B[:, i]), i + 1))
        x.append("</reciprocal_lattice>")
    x.append("</basis_set>")
    if smear:
        x.append('<bands><smearing degauss="%s">%s</smearing></bands>' % (number(K, degauss), smear))
    if tag == "output":
        x.append("<band_structure><nbnd>%d</nbnd><fermi_energy>%s</fermi_energy>" % (len(bands[0]), number(K, fermi)))
        for k, e in zip(ks, bands):
            x.append('<ks_energies><k_point weight="%s">%s</k_point><npw>41</npw><eigenvalues size="%d">%s</eigenvalues><occupations size="%d">%s</occupations></ks_energies>'
                     % (number(K, K.nrng.uniform()), vector(K, B @ k), len(e), vector(K, e), len(e), vector(K, np.sign(fermi - e) / 2 + 0.5)))
        x.append("</band_structure>")
    x.append("</%s>" % tag)
    return "\n".join(x)


def datafile(K, path, parts, parallel):
    x = ['<?xml version="1.0" encoding="UTF-8"?>', '<qes:espresso xmlns:qes="http://www.quantum-espresso.org/ns/qes/qes-1.0" Units="Hartree atomic units">']
    x.append("<parallel_info><nprocs>%d</nprocs><nthreads>1</nthreads><ntasks>%d</ntasks><nbgrp>1</nbgrp><npool>%d</npool><ndiag>%d</ndiag></parallel_info>" % parallel)
    x += parts + ["</qes:espresso>"]
    import os
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write("\n".join(x))


def scene(K, n=None):
    """everything a finished calculation contains, in crystal coordinates and the program's own units"""
    import numpy as np
    A = cell(K)
    nk, nbands = K.rng.randint(1, 6), K.rng.randint(1, 9)
    n = n or K.rng.randint(1, 4)
    kinds = K.rng.sample(ELEMENTS, K.rng.randint(1, n))
    types = kinds + [K.rng.choice(kinds) for _ in range(n - len(kinds))]
    K.rng.shuffle(types)
    ops, trans = symmetries(K)
    return dict(A=A, ks=K.nrng.uniform(-1, 1, size=(nk, 3)), bands=np.sort(K.nrng.normal(size=(nk, nbands)), axis=1), fermi=float(K.nrng.normal()),
                basis=K.nrng.uniform(-0.5, 1, size=(n, 3)), types=types, ops=ops, trans=trans, cut=float(K.nrng.uniform(10, 60)),
                smear=K.rng.choice([None, "mv", "fd", "fd", "gaussian"]), degauss=float(10 ** K.nrng.uniform(-4, -1)), alat=float(np.linalg.norm(A[:, 0])))


def write(K, path, s, parallel=(4, 1, 1, 1), tags=("input", "output"), other=None):
    parts = []
    for tag in tags:
        u = s if tag == "output" or other is None else other
        parts.append(section(K, tag, u["A"], (u["A"] @ u["basis"].T).T, u["types"], u["ops"], u["trans"], u["ks"], u["bands"], u["fermi"], u["cut"], u["smear"], u["degauss"], u["alat"]))
    datafile(K, path, parts, parallel)


@contract("C20", covers=[C + "read_bands_crystal", C + "read_available"], n=60)
def bands_from_disk(K):
    """k-points in crystal coordinates, bands and Fermi energy in eV, symmetries of k-space, lattice in the unit of the crystal"""
    import numpy as np
    with Disk(K) as D:
        s = scene(K)
        c, basis, types = crystal(K, D)
        K.ensure("nothing available before a calculation", not c.read_available())
        incomplete = K.rng.random() < 0.3
        other = scene(K)
        write(K, "qe-data/%s" % ("mat.save/data-file-schema.xml" if incomplete else "mat.xml"), s, other=other)
        if K.rng.random() < 0.5:
            # the other file belongs to a different run and must not be looked at
            write(K, "qe-data/%s" % ("mat.xml" if incomplete else "mat.save/data-file-schema.xml"), other)
        elif incomplete:
            K.ensure("an unfinished calculation is not available", not c.read_available())
        if not incomplete:
            K.ensure("a finished calculation is available", c.read_available())
        k, b, S, fermi = c.read_bands_crystal(incomplete=True) if incomplete else c.read_bands_crystal()
        K.same("shape of the k-points", k.shape, s["ks"].shape)
        K.eq("k-points in crystal coordinates, in order", k, s["ks"], atol=1e-9)
        K.eq("bands in eV, in order", b, s["bands"] * HARTREE, atol=1e-6)
        K.eq("Fermi energy in eV", fermi, s["fermi"] * HARTREE, atol=1e-6)
        K.eq("lattice vectors as columns in the unit of the crystal", c.A, s["A"] * (BOHR if c.unit == "angstrom" else 1), atol=1e-6)
        S = np.asarray(S)
        ops = s["ops"] if len(s["ops"]) else [np.eye(3)]
        K.same("number of symmetries", len(S), len(ops))
        proj = any(np.any(t != 0) for t in s["trans"])
        K.same("translations are kept as projective part", S.shape[1:], (4, 4) if proj else (3, 3))
        for i, m in enumerate(ops):
            # k.x is kept if x -> m x and k -> inv(m)^T k
            K.eq("symmetry on k-space keeps phases", np.asarray(S[i])[:3, :3].T @ np.asarray(m), np.eye(3), atol=1e-9)
            if proj:
                E = np.eye(4)
                E[:3, :3], E[:3, 3] = m, s["trans"][i]
                K.eq("operation with translation", S[i].T @ E, np.eye(4), atol=1e-9)
        K.eq("basis unchanged", c.basis, basis, atol=0)
        K.same("types unchanged", list(c.types), list(types))


@contract("C20", covers=[C + "read_bands_crystal"], n=2)
def example_data(K):
    """the data set that comes with the library: bands do not change under the symmetries read with it"""
    import os
    import shutil
    import numpy as np
    repo = os.environ.get("VERIF_REPO", "/repo")
    src = os.path.join(repo, "examples/qe-data/cu.xml")
    K.assume(os.path.exists(src))
    with Disk(K) as D:
        shutil.copy(src, "qe-data/cu.xml")
        c = D.q.from_disk("cu")
        k, b, S, fermi = c.read_bands_crystal()
        K.same("48 operations", len(S), 48)
        K.eq("lattice constant of copper", np.linalg.norm(c.A, axis=0), [3.6148 / 2 ** 0.5] * 3, atol=2e-3)
        K.eq("density of copper", c.mass_density(), 8930.0, atol=50.0)
        K.le("Fermi energy inside of the sixth band", b[:, 5].min(), fermi)
        K.le("Fermi energy inside of the sixth band", fermi, b[:, 5].max())
        # the operations keep the metric of the reciprocal lattice
        B = np.linalg.inv(c.A).T
        G = B.T @ B
        for s in S:
            K.eq("operation keeps the reciprocal metric", np.asarray(s).T @ G @ np.asarray(s), G, atol=1e-6)
        # every point of the reduced grid is on the grid and no two points are equivalent
        n = 24
        K.eq("points on the grid of the calculation", k * n - np.round(k * n), np.zeros_like(k), atol=1e-5)
        seen = set()
        total = 0
        for q in k:
            orbit = {tuple(np.round((np.asarray(s) @ q) * n).astype(int) % n) for s in S}
            K.ensure("points of the reduced grid are not equivalent", not (orbit & seen))
            seen |= orbit
            total += len(orbit)
        K.same("the orbits fill the grid", total, n ** 3)


@contract("C20", covers=[Q + "from_disk", Q + "QECrystal.set_multitasking_parameters"], n=60)
def crystal_from_disk(K):
    """a crystal created from a finished run describes the same cell"""
    import numpy as np
    with Disk(K) as D:
        s, other = scene(K), scene(K)
        par = tuple(K.rng.randint(1, 16) for _ in range(4))
        write(K, "qe-data/mat.xml", s, par, other=other)
        out = K.rng.random() < 0.6
        c = D.q.from_disk("mat") if out else D.q.from_disk("mat", read_output=False)
        u = s if out else other
        K.eq("lattice vectors in angstrom", c.A, u["A"] * BOHR, atol=1e-6)
        K.same("unit", c.unit, "angstrom")
        K.same("atom types in order", list(c.types), list(u["types"]))
        K.same("number of atoms", len(c.basis), len(u["basis"]))
        K.eq("atom positions in crystal coordinates", c.basis, u["basis"], atol=1e-7)
        K.eq("kinetic energy cutoff in Rydberg", c.kinetic_energy_cutoff, 2 * u["cut"], atol=1e-6)
        K.eq("electron temperature", c.T, 2 * u["degauss"] / KB if u["smear"] == "fd" else 0.0, atol=1e-3)
        K.same("parallelisation", (c.nk, c.nd, c.nt), (par[2], par[3], par[1]))
        for t in u["types"]:
            K.same("pseudo potential of %s" % t, D.q.pp_files[t], t + ".fromdisk.UPF")
        # the same cell is found in the bands
        A = np.array(c.A)
        c.read_bands_crystal()
        if out:
            K.eq("same lattice in the bands", c.A, A, atol=1e-9)


@contract("C20", covers=[C + "read_projections", C + "read_projections_order_spilling"], n=60)
def projections(K):
    """projections on atomic orbitals, their order and their names"""
    import numpy as np
    with Disk(K) as D:
        c, basis, types = crystal(K, D)
        nk, nb, ns, nw = K.rng.randint(1, 4), K.rng.randint(1, 6), K.rng.randint(1, 2), K.rng.randint(1, 6)
        ks, e = K.nrng.normal(size=(nk, 3)), np.sort(K.nrng.normal(size=(nk, nb)), axis=1)
        P = K.nrng.normal(size=(nk, nb, ns, nw)) + 1j * K.nrng.normal(size=(nk, nb, ns, nw))
        m = ns * nw
        O = K.nrng.normal(size=(nk, m, m)) + 1j * K.nrng.normal(size=(nk, m, m)) if K.rng.random() < 0.5 else None
        fermi, electrons = float(K.nrng.normal()), float(K.rng.randint(1, 20))
        ri = lambda z: vector(K, np.stack([z.real, z.imag], axis=-1).reshape(-1))
        x = ['<?xml version="1.0"?><PROJECTIONS>',
             '<HEADER NUMBER_OF_BANDS="%d" NUMBER_OF_K-POINTS="%d" NUMBER_OF_SPIN_COMPONENTS="%d" NUMBER_OF_ATOMIC_WFC="%d" NUMBER_OF_ELECTRONS="%r" FERMI_ENERGY="%r"/>' % (nb, nk, ns, nw, electrons, fermi), "<EIGENSTATES>"]
        for i in range(nk):
            x.append('<K-POINT Weight="1.0">%s</K-POINT><E>%s</E><PROJS>' % (vector(K, ks[i]), vector(K, e[i])))
            order = [(sp, w) for sp in range(ns) for w in range(nw)]
            K.rng.shuffle(order)
            for sp, w in order:
                x.append('<ATOMIC_WFC index="%d" spin="%d">%s</ATOMIC_WFC>' % (w + 1, sp + 1, ri(P[i, :, sp, w])))
            x.append("</PROJS>")
        x.append("</EIGENSTATES>")
        if O is not None:
            x.append("<OVERLAPS>" + "".join('<OVPS dim="%d" spin="1">%s</OVPS>' % (m, ri(O[i].reshape(-1))) for i in range(nk)) + "</OVERLAPS>")
        x.append("</PROJECTIONS>")
        import os
        os.mkdir("qe-data/mat.save")
        path = K.rng.choice([None, "elsewhere.xml"])
        with open(path or "qe-data/mat.save/atomic_proj.xml", "w") as f:
            f.write("\n".join(x))
        k, b, p, fe, ne = c.read_projections() if path is None else c.read_projections(path)
        K.eq("k-points", k, ks, atol=1e-12)
        K.eq("bands in eV", b, e * RYDBERG, atol=1e-7)
        K.eq("Fermi energy in eV", fe, fermi * RYDBERG, atol=1e-7)
        K.eq("electrons", ne, electrons, atol=0)
        if O is None:
            K.ensure("only projections", not isinstance(p, tuple))
        else:
            K.ensure("projections and overlaps", isinstance(p, tuple) and len(p) == 2)
            p, o = p
            K.same("shape of the overlaps", o.shape, O.shape)
            K.eq("overlaps", o, O, atol=1e-12)
        K.same("shape of the projections", p.shape, P.shape)
        K.eq("projections by k-point, band, spin and orbital", p, P, atol=1e-12)
        # the names
        spill = round(float(K.nrng.uniform(0, 0.1)), 4)
        text, want = ["     some output", "Lowdin Charges: ", ""], []
        orb = {"s": ["s"], "p": ["pz", "px", "py"], "d": ["dz2", "dxz", "dyz", "dx2-y2", "dxy"]}
        for i, t in enumerate(types):
            tot = 3.0
            text.append("     Atom #%4d: total charge = %8.4f, s = %8.4f," % (i + 1, tot, 0.5))
            want.append("%d%s_s" % (i + 1, t))
            for sh in K.rng.choice([[], ["p"], ["p", "d"]]):
                text.append("     Atom #%4d: total charge = %8.4f, %s = %8.4f, %s" % (i + 1, tot, sh, 0.7, " ".join("%s= %8.4f," % (o, 0.1) for o in orb[sh])))
                want += ["%d%s_%s" % (i + 1, t, o) for o in orb[sh]]
        text += ["     Spilling Parameter: %8.4f" % spill, "", "     PROJWFC : 1s CPU"]
        with open("mat.projwfc.out", "w") as f:
            f.write("\n".join(text) + "\n")
        order, sp = c.read_projections_order_spilling()
        K.same("orbitals in order", list(order), want)
        K.eq("spilling", sp, spill, atol=1e-12)


def record(f, *arrays):
    """one record of an unformatted Fortran file"""
    import numpy as np
    data = b"".join(np.asarray(a).tobytes() for a in arrays)
    n = np.int32(len(data)).tobytes()
    f.write(n + data + n)


@contract("C20", covers=[C + "read_wavefunctions", C + "read_charge_density"], n=40)
def binary_files(K):
    """wave functions (in the order of the bands) and Fourier coefficients of the charge density"""
    import numpy as np
    import os
    with Disk(K) as D:
        c, _, _ = crystal(K, D)
        os.mkdir("qe-data/mat.save")
        nk, nb, npol = K.rng.choice([1, 2, 3, 4, 5, 11]), K.rng.randint(1, 4), K.rng.choice([1, 1, 2])
        B = np.linalg.inv(cell(K)).T
        ks = K.nrng.uniform(-1, 1, size=(nk, 3))
        ng = [K.rng.randint(1, 7) for _ in range(nk)]
        G = [K.nrng.integers(-5, 6, size=(n, 3)).astype(np.int32) for n in ng]
        # both components of a spinor one after the other
        W = [K.nrng.normal(size=(nb, npol, n)) + 1j * K.nrng.normal(size=(nb, npol, n)) for n in ng]
        order = list(range(nk))
        K.rng.shuffle(order)
        for i in order:
            with open("qe-data/mat.save/wfc%d.dat" % (i + 1), "wb") as f:
                record(f, np.int32(i + 1), B @ ks[i], np.int32(1), np.int32(0), np.float64(1))
                record(f, np.int32(ng[i]), np.int32(ng[i]), np.int32(npol), np.int32(nb))
                record(f, B[:, 0].copy(), B[:, 1].copy(), B[:, 2].copy())
                record(f, G[i])
                for j in range(nb):
                    record(f, W[i][j])
        # the order in which a directory is listed is arbitrary
        listdir, shuffled = os.listdir, K.rng.random() < 0.8
        if shuffled:
            os.listdir = lambda *a: K.rng.sample(sorted(listdir(*a)), len(listdir(*a)))
        try:
            k, g, e = c.read_wavefunctions()
        finally:
            os.listdir = listdir
        K.eq("k-points in crystal coordinates, in order", k, ks, atol=1e-9)
        K.same("one block per k-point", (len(g), len(e)), (nk, nk))
        for i in range(nk):
            K.same("lattice vectors of k-point", np.asarray(g[i]).tolist(), G[i].tolist())
            K.same("shape of the coefficients", e[i].shape, (nb, ng[i], npol))
            K.eq("coefficients of k-point", e[i], np.swapaxes(W[i], 1, 2), atol=0)
        ns, n = K.rng.randint(1, 2), K.rng.randint(1, 9)
        R = K.nrng.normal(size=(ns, n)) + 1j * K.nrng.normal(size=(ns, n))
        M = K.nrng.integers(-5, 6, size=(n, 3)).astype(np.int32)
        with open("qe-data/mat.save/charge-density.dat", "wb") as f:
            record(f, np.int32(0), np.int32(n), np.int32(ns))
            record(f, B[:, 0].copy(), B[:, 1].copy(), B[:, 2].copy())
            record(f, M)
            for j in range(ns):
                record(f, R[j])
        g, rho = c.read_charge_density()
        K.same("shape of the density", (np.shape(g), np.shape(rho)), ((n, 3), (ns, n)))
        K.eq("Fourier coefficients of the charge density", rho, R, atol=0)
        # one vector per coefficient, in crystal or Cartesian coordinates
        K.ensure("vectors of the coefficients", np.allclose(g, M) or np.allclose(g, M @ B.T), lambda: str(g))


@contract("C20", covers=[C + "read_bandx_raw", C + "read_bandx", C + "read_dos", C + "read_dielectric_function"], n=40)
def tables(K):
    """tables written by bands.x, dos.x and epsilon.x"""
    import numpy as np
    with Disk(K) as D:
        c, _, _ = crystal(K, D)
        nk, nb = K.rng.randint(1, 5), K.rng.randint(1, 25)
        ks, e = np.round(K.nrng.normal(size=(nk, 3)), 6), np.round(K.nrng.normal(size=(nk, nb)) * 30, 3)
        with open("mat.Bandx.dat", "w") as f:
            f.write(" &plot nbnd=%4d, nks=%6d /\n" % (nb, nk))
            for i in range(nk):
                f.write(" " * 12 + "".join(" %9.6f" % x for x in ks[i]) + "\n")
                for j in range(0, nb, 10):
                    f.write("".join(" %8.3f" % x for x in e[i, j:j + 10]) + "\n")
        k, b = c.read_bandx_raw()
        K.same("shape of the band table", (k.shape, b.shape), (ks.shape, e.shape))
        K.eq("k-points of the band table", k, ks, atol=1e-12)
        K.eq("bands of the band table", b, e, atol=1e-12)
        xs = np.sort(np.round(K.nrng.uniform(0, 5, size=K.rng.randint(1, 5)), 4))
        table = K.nrng.normal(size=(K.rng.randint(2, 8), 2))
        np.savetxt("plot.gnu", table, fmt="%.12e")
        with open("mat.bandx.out", "w") as f:
            f.write("     Program BANDS\n")
            for x in xs:
                f.write("     high-symmetry point:  0.0000 0.0000 0.5000   x coordinate   %.4f\n" % x)
            f.write("     Plottable bands (eV) written to file plot.gnu\n     Bands written to file mat.Bandx.dat\n")
        sx, z = c.read_bandx()
        K.eq("symmetry points", sx, xs, atol=1e-12)
        K.eq("plottable bands", z, table.T, atol=1e-9)
        dos = K.nrng.normal(size=(K.rng.randint(2, 9), 3))
        fermi = round(float(K.nrng.normal() * 10), 3) if K.rng.random() < 0.7 else None
        with open("mat.Dos.dat", "w") as f:
            f.write("#  E (eV)   dos(E)     Int dos(E)" + (" EFermi = %8.3f eV" % fermi if fermi is not None else "") + "\n")
            for r in dos:
                f.write(" ".join("%.10e" % x for x in r) + "\n")
        (en, rho, n), fe = c.read_dos()
        for label, x, col in (("energies", en, 0), ("density", rho, 1), ("states", n, 2)):
            K.eq(label + " of the density of states", x, dos[:, col], atol=1e-8)
        if fermi is None:
            K.ensure("no Fermi energy in the file", fe is None)
        else:
            K.eq("Fermi energy of the density of states", fe, fermi, atol=1e-12)
        ei, er = (np.concatenate([np.arange(4)[:, None] * 0.1, K.nrng.normal(size=(4, 3))], axis=1) for _ in range(2))
        np.savetxt("epsr_mat.dat", er, header="a\nb\nc", comments="")
        np.savetxt("epsi_mat.dat", ei, header="a\nb\nc", comments="")
        w, eps = c.read_dielectric_function()
        K.eq("frequencies", w, er[:, 0], atol=1e-9)
        K.eq("dielectric function", eps, er[:, 1:] + 1j * ei[:, 1:], atol=1e-9)


@contract("C20", covers=[C + "read_valence_electrons", C + "set_cutoff_from_pseudopotentials", C + "__init__", Q + "qe_prepare"], n=40)
def pseudopotentials(K):
    """electrons and cutoff from the pseudo potential files of the atoms in the cell"""
    with Disk(K) as D:
        kinds = K.rng.sample(ELEMENTS, K.rng.randint(1, 4))
        types = kinds + [K.rng.choice(kinds) for _ in range(K.rng.randint(0, 3))]
        K.rng.shuffle(types)
        z, cut = {}, {}
        pp = {}
        for t in kinds + ["Zn"]:
            z[t], cut[t] = K.rng.randint(1, 20), round(K.nrng.uniform(20, 90), 3)
            if t == "Zn":   # not part of the cell
                cut[t] = 1000.0
            pp[t] = t + ".pbe.UPF"
            with open("pseudo/" + pp[t], "w") as f:
                f.write('<UPF version="2.0.1"><PP_INFO>made up</PP_INFO>\n<PP_HEADER element="%s"\n z_valence="%s" wfc_cutoff="%.3e" rho_cutoff="1.0e3"/></UPF>'
                        % (t, K.rng.choice(["%d.00", "%.6e", "%d"]) % z[t], cut[t]))
        D.q.qe_prepare(pp)
        K.same("pseudo potentials are registered", D.q.pp_files, pp)
        basis = K.nrng.uniform(0, 1, size=(len(types), 3))
        c = D.q.QECrystal("mat", cell(K), basis, types)
        K.same("valence electrons of the cell", c.read_valence_electrons(), sum(z[t] for t in types))
        K.eq("largest suggested cutoff of the atoms in the cell", c.kinetic_energy_cutoff, max(cut[t] for t in types), atol=0.05)
        c2 = D.q.QECrystal("mat", cell(K), basis, types, 17.5)
        K.eq("given cutoff is used", c2.kinetic_energy_cutoff, 17.5, atol=0)
        c2.set_cutoff_from_pseudopotentials()
        K.eq("cutoff from the files on request", c2.kinetic_energy_cutoff, c.kinetic_energy_cutoff, atol=0)
        K.raises("one type per position", AssertionError, D.q.QECrystal, "mat", cell(K), basis, types + ["Zn"], 10.0)
        K.raises("only known units", AssertionError, D.q.QECrystal, "mat", cell(K), basis, types, 10.0, "furlong")


def parse(text):
    """namelists and cards of a Quantum ESPRESSO input"""
    import re
    lists, cards = {}, {}
    lines = iter(text.split("\n"))
    cur = None
    for line in lines:
        st = line.strip()
        if not st:
            continue
        if st.startswith("&"):
            cur = lists.setdefault(st[1:].lower(), {})
            for line in lines:
                st = line.strip()
                if st == "/":
                    break
                for a in re.findall(r"([a-zA-Z_]+(?:\(\d\))?)\s*=\s*('[^']*'|\"[^\"]*\"|[^\s,]+)", st):
                    cur[a[0].lower()] = a[1].strip("'\"")
            cur = None
        elif st.split()[0] in ("CELL_PARAMETERS", "ATOMIC_SPECIES", "ATOMIC_POSITIONS", "K_POINTS"):
            w = st.split()
            cur = cards.setdefault(w[0], (w[1].strip("{}()") if len(w) > 1 else None, []))[1]
        else:
            cur.append(st.split())
    return lists, cards


@contract("C20", covers=[C + "scf", C + "nscf", C + "nscf_nosym", C + "bands", C + "relax", C + "_crystal", C + "_run", Q + "k_grid", Q + "k_points", "kpaths:KPath.__str__"], n=60)
def written_inputs(K):
    """the written input describes exactly this crystal, the requested k-points and bands, and the right file is run"""
    import numpy as np
    with Disk(K) as D:
        c, basis, types = crystal(K, D)
        if K.rng.random() < 0.5:
            c.T = round(K.nrng.uniform(10, 2000), 1)
        par = (K.rng.randint(1, 8), K.rng.randint(1, 8), 1, K.rng.randint(1, 4))
        c.set_multitasking_parameters(*par)
        n = [K.rng.randint(1, 20) for _ in range(3)]
        nb = K.rng.randint(1, 40)
        mode = K.rng.choice(["scf", "scf1", "nscf", "nosym", "bands", "path", "relax"])
        pts = K.nrng.normal(size=(K.rng.randint(1, 5), 3))
        kind = "automatic"
        grid = n
        if mode == "scf":
            c.scf(*n)
        elif mode == "scf1":
            c.scf(n[0])
            grid = [n[0]] * 3
        elif mode == "relax":
            c.relax(n[0], fix_volume=K.rng.random() < 0.5)
            grid = [n[0]] * 3
        elif mode in ("nscf", "nosym"):
            full = K.rng.random() < 0.5
            grid = n if full else [n[0]] * 3
            st = D.q.k_grid(*n) if full else D.q.k_grid(n[0])
            (c.nscf if mode == "nscf" else c.nscf_nosym)(st, nb)
        elif mode == "bands":
            kind = K.rng.choice(["tpiba", "crystal", "crystal_b"])
            c.bands(nb, D.q.k_points(pts, kind))
        else:
            kind = "tpiba_b"
            path = K.mod("kpaths").KPath(pts[0])
            for q in pts[1:]:
                path.to(q, N=K.rng.randint(1, 6))
            pts = 2 * np.array(path.path)
            c.bands(nb, path)
        stem = {"scf": "scf", "scf1": "scf", "nscf": "nscf", "nosym": "nscf", "bands": "band", "path": "band", "relax": "relax"}[mode]
        lists, cards = parse(open("mat.%s.in" % stem).read())
        K.same("calculation", lists["control"]["calculation"], {"scf": "scf", "nscf": "nscf", "band": "bands", "relax": "vc-relax"}[stem])
        K.same("prefix and folders", (lists["control"]["prefix"], lists["control"]["outdir"], lists["control"]["pseudo_dir"]), ("mat", "./qe-data/", "./pseudo/"))
        y = lists["system"]
        K.same("number of atoms and types", (int(y["nat"]), int(y["ntyp"]), int(y["ibrav"])), (len(types), len(set(types)), 0))
        K.eq("cutoff", float(y["ecutwfc"]), c.kinetic_energy_cutoff, atol=1e-12)
        if stem in ("nscf", "band"):
            K.same("number of bands", int(y["nbnd"]), nb)
        else:
            K.ensure("no number of bands requested", "nbnd" not in y)
        if stem != "band":
            K.same("smearing", y["smearing"], "fermi-dirac" if c.T else "marzari-vanderbilt")
            K.eq("width of the smearing in Ry", float(y["degauss"]), c.T * KB if c.T else 0.02, atol=1e-12)
        sym_off = y.get("nosym", "false").strip(".").lower() == "true" and y.get("noinv", "false").strip(".").lower() == "true"
        K.same("symmetry is only switched off for wannier90", sym_off, mode == "nosym")
        unit, rows = cards["CELL_PARAMETERS"]
        K.same("unit of the cell", unit, c.unit)
        K.eq("lattice vectors are the rows of the card", np.array(rows, dtype=float).T, c.A, atol=1e-9)
        unit, rows = cards["ATOMIC_POSITIONS"]
        K.same("positions in crystal coordinates", unit, "crystal")
        K.same("atoms in order", [r[0] for r in rows], list(types))
        K.eq("positions of the atoms", np.array([r[1:4] for r in rows], dtype=float), basis, atol=1e-12)
        _, rows = cards["ATOMIC_SPECIES"]
        K.same("every species once", sorted(r[0] for r in rows), sorted(set(types)))
        for r in rows:
            K.same("pseudo potential of %s" % r[0], r[2], D.q.pp_files[r[0]])
            K.eq("mass of %s" % r[0], float(r[1]), D.q.element_masses[D.q.element_numbers[r[0]]], atol=1e-12)
        unit, rows = cards["K_POINTS"]
        K.same("kind of k-points", unit, kind)
        if kind == "automatic":
            K.same("grid", [int(x) for x in rows[0]], list(grid) + [0, 0, 0])
        else:
            K.same("number of k-points", (int(rows[0][0]), len(rows) - 1), (len(pts), len(pts)))
            K.eq("k-points", np.array([r[:3] for r in rows[1:]], dtype=float), pts, atol=1e-9)
        K.same("one program run", len(D.calls), 1)
        cmd = D.calls[0].split()
        K.ensure("pw.x on this input", "pw.x" in cmd and "mat.%s.in" % stem in cmd and "mat.%s.out" % stem in cmd, lambda: D.calls[0])
        for flag, v in (("-nk", par[0]), ("-nd", par[1]), ("-nt", par[3])):
            K.same("parallelisation " + flag, cmd[cmd.index(flag) + 1], str(v))


@contract("C20", covers=[C + "crystal_wannier", C + "k_points_wannier", C + "k_path_wannier", C + "prepare_wannier", C + "prepare_plot_wannier_bands", C + "projections", C + "bandx"], n=30)
def wannier_inputs(K):
    """the wannier90 input repeats the cell, the k-points of the calculation and the requested windows"""
    import re
    import numpy as np
    with Disk(K) as D:
        s = scene(K)
        m = K.rng.randint(1, 3)
        full = np.stack(np.meshgrid(*(np.arange(m) / m,) * 3, indexing="ij"), axis=-1).reshape(-1, 3)
        s["ks"] = full
        s["bands"] = K.nrng.normal(size=(len(full), s["bands"].shape[1]))
        c, basis, types = crystal(K, D)
        write(K, "qe-data/mat.save/data-file-schema.xml", s)
        win, froz = np.sort(K.nrng.normal(size=2)), np.sort(K.nrng.normal(size=2))
        count = K.rng.choice([None, 3])
        plot = K.rng.random() < 0.4
        given = K.rng.random() < 0.3
        Anorm = K.nrng.normal(size=(3, 3))
        path = K.mod("kpaths").KPath(K.nrng.normal(size=3), name="A")
        for nm in ["B", "C"][:K.rng.randint(1, 2)]:
            path.to(K.nrng.normal(size=3), name=nm, N=K.rng.randint(1, 5))
        if plot:
            c.prepare_plot_wannier_bands(path, Anorm, wannier_count=count, grid_size=m if given else None)
        else:
            c.prepare_wannier(tuple(win), tuple(froz), wannier_count=count, grid_size=m if given else None, iterations=7, disentangle_iterations=9, write_tb=True)
        text = open("mat.win").read()
        val = lambda key: re.search(r"^%s\s*=\s*(\S+)" % key, text, re.M).group(1)
        block = lambda key: [l.split() for l in re.search(r"begin %s\n(.*?)\nend %s" % (key, key), text, re.S).group(1).split("\n")]
        nb = s["bands"].shape[1]
        K.same("numbers of bands", (int(val("num_bands")), int(val("num_wann"))), (nb, nb if count is None else count))
        K.same("grid", re.search(r"mp_grid\s*=\s*(.*)", text).group(1).split(), [str(m)] * 3)
        K.same("unit of lengths", val("length_unit"), "Ang" if c.unit == "angstrom" else "Bohr")
        if not plot:
            K.eq("energy windows", [float(val(x)) for x in ("dis_win_min", "dis_win_max", "dis_froz_min", "dis_froz_max")], [*win, *froz], atol=1e-12)
            K.same("iterations", (int(val("num_iter")), int(val("dis_num_iter"))), (7, 9))
            K.same("tight binding file is requested", (val("write_tb"), val("write_hr")), ("true", "true"))
        rows = block("unit_cell_cart")
        K.same("unit of the cell", rows[0], [c.unit])
        K.eq("lattice vectors are the rows", np.array(rows[1:], dtype=float).T, s["A"] * (BOHR if c.unit == "angstrom" else 1), atol=1e-6)
        rows = block("atoms_frac")
        K.same("atoms", [r[0] for r in rows], list(types))
        K.eq("positions", np.array([r[1:] for r in rows], dtype=float), basis, atol=1e-12)
        got = np.array(block("kpoints"), dtype=float)
        K.same("number of k-points", len(got), len(full))
        if given:
            d = np.sort(np.round(got @ [1, 10, 100], 6))
            K.eq("k-points of the grid", d, np.sort(np.round(full @ [1, 10, 100], 6)), atol=1e-5)
        else:
            K.eq("k-points of the calculation in order", got, full, atol=1e-9)
        if plot:
            rows = block("kpoint_path")
            K.same("sections of the path", len(rows), len(path.names) - 1)
            for i, r in enumerate(rows):
                K.same("names of the section", (r[0], r[4]), (path.names[i], path.names[i + 1]))
                for j, w in ((i, r[1:4]), (i + 1, r[5:8])):
                    K.eq("points of the section", np.array(w, dtype=float), Anorm.T @ np.asarray(path.path[path.indices[j]]), atol=1e-9)
            K.same("points of the first section", int(val("bands_num_points")), path.indices[1])
        over = K.rng.random() < 0.5
        c.projections(lwrite_overlaps=over)
        lists, _ = parse(open("mat.projwfc.in").read())
        K.same("projection input", (lists["projwfc"]["prefix"], lists["projwfc"]["outdir"], lists["projwfc"]["lwrite_overlaps"].strip(".").lower()[0]), ("mat", "./qe-data/", "t" if over else "f"))
        c.bandx()
        lists, _ = parse(open("mat.bandx.in").read())
        K.same("band table input", (lists["bands"]["prefix"], lists["bands"]["filband"]), ("mat", "mat.Bandx.dat"))
