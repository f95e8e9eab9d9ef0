"""C16 lattice constructors and crystal data"""
from pyvc.kit import contract

Q = "qespresso_interface:"


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def cols(K, A):
    K.ensure("three by three", A.shape == (3, 3))
    return [[A[i, j] for i in range(3)] for j in range(3)]


def gram(K, v, G, sc=1.0):
    for i in range(3):
        for j in range(i, 3):
            K.eq("scalar product of vectors %d and %d" % (i + 1, j + 1), dot(v[i], v[j]), G[i][j], atol=1e-9 * sc)


def length(K, n):
    return K.real(n, 1e-3, 1e3, gen=lambda K: float(10 ** K.nrng.uniform(-1, 2)))


def volume(K, v, vol, sc=1.0):
    """signed volume"""
    d = det3([[v[0][0], v[1][0], v[2][0]], [v[0][1], v[1][1], v[2][1]], [v[0][2], v[1][2], v[2][2]]])
    K.eq("volume", d, vol, atol=1e-9 * sc)


def mesh(K, v, conv, rows, sc=1.0):
    """integer combinations of the primitive vectors are the conventional cell"""
    for m, w in zip(rows, conv):
        for i in range(3):
            K.eq("conventional cell vector", m[0] * v[0][i] + m[1] * v[1][i] + m[2] * v[2][i], w[i], atol=1e-9 * sc)


@contract("C16", covers=[Q + "sc", Q + "orthorhombic", Q + "tetragonal", Q + "monoclinic", Q + "hexagonal"], proof=True, n=60)
def primitive(K):
    np = K.np
    q = K.mod("qespresso_interface")
    a, b, c = length(K, "a"), length(K, "b"), length(K, "c")
    k = K.choice("kind", ["sc", "ortho", "tetra", "hex", "mono"])
    if k == "sc":
        v = cols(K, q.sc(a))
        G = [[a * a, 0, 0], [0, a * a, 0], [0, 0, a * a]]
        vol = a * a * a
    elif k == "ortho":
        v = cols(K, q.orthorhombic(a, b, c))
        G = [[a * a, 0, 0], [0, b * b, 0], [0, 0, c * c]]
        vol = a * b * c
    elif k == "tetra":
        v = cols(K, q.tetragonal(a, c))
        G = [[a * a, 0, 0], [0, a * a, 0], [0, 0, c * c]]
        vol = a * a * c
    elif k == "hex":
        v = cols(K, q.hexagonal(a, c))
        G = [[a * a, -a * a / 2, 0], [0, a * a, 0], [0, 0, c * c]]
        vol = a * a * c * np.sqrt(3) / 2
    else:
        beta = K.real("beta", 0.01, 3.13)
        sb, cb = np.sin(beta), np.cos(beta)
        K.assume(sb > 0)
        v = cols(K, q.monoclinic(a, b, c, beta))
        G = [[a * a, 0, a * c * cb], [0, b * b, 0], [0, 0, c * c]]
        vol = a * b * c * sb
    s = 1.0 if K.sym else float((a + b + c) ** 3)
    gram(K, v, G, s)
    volume(K, v, vol, s)


@contract("C16", covers=[Q + "triclinic"], proof=True, n=100)
def triclinic(K):
    np = K.np
    q = K.mod("qespresso_interface")
    a, b, c = length(K, "a"), length(K, "b"), length(K, "c")
    al, be, ga = K.real("alpha", 0.02, 3.1), K.real("beta", 0.02, 3.1), K.real("gamma", 0.02, 3.1)
    sa, ca, sb, cb, sg, cg = np.sin(al), np.cos(al), np.sin(be), np.cos(be), np.sin(ga), np.cos(ga)
    K.assume(sa > 0)
    K.assume(sb > 0)
    K.assume(sg > 0)
    K.assume(al + be + ga < 6.283)
    g = 1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg
    K.assume(g > 1e-6)
    # the angles can be realised; same statement in the variables of the code
    w = (ca - cg * cb) / sg
    K.assume(w * w < sb * sb)
    v = cols(K, q.triclinic(a, b, c, al, be, ga))
    s = 1.0 if K.sym else float((a + b + c) ** 3)
    gram(K, v, [[a * a, a * b * cg, a * c * cb], [0, b * b, b * c * ca], [0, 0, c * c]], s)
    d = det3([[v[0][i], v[1][i], v[2][i]] for i in range(3)])
    K.eq("volume", d * d, a * a * b * b * c * c * g, atol=1e-9 * s * s)
    K.ensure("right-handed", d > 0)


@contract("C16", covers=[Q + "fcc", Q + "bcc", Q + "orthorhombic_body_centered", Q + "orthorhombic_face_centered", Q + "orthorhombic_base_centered", Q + "tetragonal_body_centered", Q + "monoclinic_base_centered"], proof=True, n=80)
def centred(K):
    """the primitive vectors span a lattice that contains the conventional cell and the centring"""
    np = K.np
    q = K.mod("qespresso_interface")
    a, b, c = length(K, "a"), length(K, "b"), length(K, "c")
    k = K.choice("kind", ["fcc", "bcc", "oI", "oF", "oS", "tI", "mS"])
    ort = lambda a, b, c: [[a, 0, 0], [0, b, 0], [0, 0, c]]
    s = 1.0 if K.sym else float((a + b + c) ** 3)
    if k == "fcc":
        v = cols(K, q.fcc(a))
        mesh(K, v, ort(a, a, a), [[-1, -1, 1], [-1, 1, 1], [1, 1, -1]] if False else fit(K, v, ort(a, a, a), a), s)
        n, vol = 4, a * a * a
    elif k == "bcc":
        v = cols(K, q.bcc(a))
        mesh(K, v, ort(a, a, a), fit(K, v, ort(a, a, a), a), s)
        n, vol = 2, a * a * a
    elif k == "oI":
        v = cols(K, q.orthorhombic_body_centered(a, b, c))
        mesh(K, v, ort(a, b, c), [[0, 1, 1], [1, 0, 1], [1, 1, 0]], s)
        n, vol = 2, a * b * c
    elif k == "oF":
        v = cols(K, q.orthorhombic_face_centered(a, b, c))
        mesh(K, v, ort(a, b, c), [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], s)
        n, vol = 4, a * b * c
    elif k == "oS":
        v = cols(K, q.orthorhombic_base_centered(a, b, c))
        mesh(K, v, ort(a, b, c), [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], s)
        n, vol = 2, a * b * c
    elif k == "tI":
        v = cols(K, q.tetragonal_body_centered(a, c))
        mesh(K, v, ort(a, a, c), [[0, 1, 1], [1, 0, 1], [1, 1, 0]], s)
        n, vol = 2, a * a * c
    else:
        beta = K.real("beta", 0.01, 3.13)
        sb, cb = np.sin(beta), np.cos(beta)
        K.assume(sb > 0)
        v = cols(K, q.monoclinic_base_centered(a, b, c, beta))
        mesh(K, v, [[a, 0, 0], [0, b, 0], [c * cb, 0, c * sb]], [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], s)
        n, vol = 2, a * b * c * sb
    # n lattice points per cell, right-handed
    volume(K, v, vol / n, s)


def fit(K, v, conv, a):
    """the integer coefficients, searched numerically among small ones (any of them is a valid witness)"""
    import itertools
    if not K.sym:
        import numpy as np
        return np.round(np.linalg.solve(np.array(v).T, np.array(conv).T).T).astype(int).tolist()
    # symbolic: the entries are multiples of a; take the witness from the value at a = 1
    from fractions import Fraction
    import z3
    w = K.mod("qespresso_interface")
    f = lambda e: Fraction(str(z3.simplify(z3.substitute(e.t, (a.t, z3.RealVal(1)))).as_fraction())) if hasattr(e, "t") else Fraction(e)
    m = [[f(x) for x in c] for c in v]
    out = []
    for t in conv:
        t = [f(x) for x in t]
        for k in itertools.product(range(-2, 3), repeat=3):
            if all(sum(k[j] * m[j][i] for j in range(3)) == t[i] for i in range(3)):
                out.append(list(k))
                break
        else:
            out.append([0, 0, 0])
    return out


@contract("C16", covers=[Q + "rhombohedral"], proof=True, n=60)
def rhombohedral(K):
    np = K.np
    q = K.mod("qespresso_interface")
    a = length(K, "a")
    al = K.real("alpha", 0.02, 2.09)
    ca = np.cos(al)
    K.assume(ca < 1)
    K.assume(ca > -0.4999)
    v = cols(K, q.rhombohedral(a, al))
    s = 1.0 if K.sym else float(a ** 3)
    gram(K, v, [[a * a, a * a * ca, a * a * ca], [0, a * a, a * a * ca], [0, 0, a * a]], s)
    volume(K, v, a * a * a * np.sqrt(1 - 3 * ca * ca + 2 * ca * ca * ca), s)


@contract("C16", covers=[Q + "sc", Q + "fcc", Q + "bcc", Q + "hexagonal", Q + "triclinic", Q + "monoclinic", Q + "rhombohedral"], n=40)
def rejected(K):
    """impossible geometries are refused"""
    import numpy as np
    q = K.mod("qespresso_interface")
    r = K.nrng
    a, b, c = r.uniform(0.5, 9, size=3)
    p = lambda *x: x
    neg = list(p(a, b, c))
    i = K.rng.randrange(3)
    neg[i] = K.rng.choice([0.0, -neg[i]])
    for f in (q.orthorhombic, q.orthorhombic_base_centered, q.orthorhombic_body_centered, q.orthorhombic_face_centered):
        K.raises("length is not positive", AssertionError, f, *neg)
    K.raises("length is not positive", AssertionError, q.triclinic, *neg, 1.5, 1.6, 1.4)
    for f in (q.monoclinic, q.monoclinic_base_centered):
        K.raises("length is not positive", AssertionError, f, *neg, 1.4)
        K.raises("angle is out of range", AssertionError, f, a, b, c, K.rng.choice([0.0, -0.3, np.pi, 4.0]))
    for f in (q.tetragonal, q.tetragonal_body_centered):
        K.raises("length is not positive", AssertionError, f, *K.rng.choice([(0.0, 1.0), (1.0, -1.0), (-1.0, -1.0)]))
    K.raises("length is not positive", AssertionError, q.rhombohedral, K.rng.choice([0.0, -1.0]), 1.0)
    K.raises("angle is out of range", AssertionError, q.rhombohedral, a, K.rng.choice([0.0, -1.0, 2 * np.pi / 3, 2.5]))
    K.raises("angles cannot meet", AssertionError, q.triclinic, a, b, c, *K.rng.choice([(2.5, 2.5, 2.5), (0.3, 0.4, 1.0), (1.0, 0.2, 0.3), (0.2, 1.2, 0.5), (-0.5, 1.0, 1.0), (1.0, 1.0, np.pi)]))


@contract("C16", covers=[Q + "QECrystal._mass_per_cell", Q + "QECrystal.mass_density", Q + "QECrystal.scale_to_density", Q + "QECrystal.lattice_vectors_in_m", Q + "QECrystal.__init__"], n=150)
def density(K):
    import numpy as np
    q = K.mod("qespresso_interface")
    r = K.nrng
    A = r.normal(size=(3, 3)) * 5 if K.rng.random() < 0.5 else q.triclinic(*r.uniform(2, 9, size=3), *r.uniform(1.2, 1.8, size=3))
    K.assume(abs(np.linalg.det(A)) > 1e-2)
    form = K.rng.randrange(4)
    if form == 0:
        A = np.round(A).astype(int)
        K.assume(abs(np.linalg.det(A)) > 0.5)
    elif form == 1:
        A = A.tolist()
    m = K.rng.randint(1, 5)
    types = [K.rng.choice(["H", "C", "Si", "Cu", "Ag", "U", "Og", "O"]) for _ in range(m)]
    unit = K.rng.choice(["angstrom", "bohr"])
    basis = r.uniform(size=(m, 3)).tolist()
    A0 = np.array(A)
    cr = q.QECrystal("x", A, basis, types, kinetic_energy_cutoff=50, unit=unit)
    u = {"angstrom": 1e-10, "bohr": 5.29177210544e-11}[unit]
    K.eq("lattice vectors", cr.lattice_vectors_in_m() / u, A0 * 1.0, atol=1e-9)
    w = {"H": 1.008, "C": 12.011, "Si": 28.085, "Cu": 63.546, "Ag": 107.868, "U": 238.029, "Og": 295.216, "O": 15.999}
    mass = 1.66053907e-27 * sum(w[t] for t in types)
    rho = mass / abs(np.linalg.det(A0 * u))
    K.ensure("density is mass by volume", abs(cr.mass_density() / rho - 1) < 2e-4)
    d = float(10 ** r.uniform(2, 4.5))
    cr.scale_to_density(d)
    K.ensure("requested density", abs(cr.mass_density() / d - 1) < 1e-9)
    f = np.array(cr.A).ravel()[np.abs(A0).argmax()] / A0.ravel()[np.abs(A0).argmax()]
    K.ensure("positive factor", f > 0)
    K.eq("all lengths scale by the same factor", np.array(cr.A), A0 * f, atol=1e-9 * np.abs(A0).max() * f)
    K.same("matrix of the caller unchanged", np.array(A), A0)
    K.ensure("atoms unchanged", list(cr.types) == types)
    K.same("positions unchanged", np.array(cr.basis), np.array(basis))
    cr.scale_to_density(d * 2)
    K.ensure("requested density again", abs(cr.mass_density() / d / 2 - 1) < 1e-9)


@contract("C16", covers=[Q + "QECrystal._crystal"], n=40)
def written_cell(K):
    """the input written for the calculation contains the lattice vectors as rows and every atom with its position"""
    import numpy as np
    q = K.mod("qespresso_interface")
    r = K.nrng
    A = r.normal(size=(3, 3)) * 5
    m = K.rng.randint(1, 5)
    types = [K.rng.choice(["H", "C", "Si", "Cu"]) for _ in range(m)]
    basis = r.uniform(size=(m, 3))
    cr = q.QECrystal("x", A, basis, types, kinetic_energy_cutoff=50)
    old = dict(q.pp_files)
    q.pp_files.update({t: t + ".UPF" for t in types})
    try:
        s = cr._crystal()
    finally:
        q.pp_files.clear()
        q.pp_files.update(old)
    L = s.split("\n")
    i = [j for j, l in enumerate(L) if l.startswith("CELL_PARAMETERS")][0]
    K.ensure("unit", "angstrom" in L[i])
    K.eq("lattice vectors", np.array([[float(x) for x in l.split()] for l in L[i + 1:i + 4]]), A.T, atol=1e-12)
    i = [j for j, l in enumerate(L) if l.startswith("ATOMIC_POSITIONS")][0]
    K.ensure("crystal coordinates", "crystal" in L[i])
    K.ensure("types", [l.split()[0] for l in L[i + 1:]] == types)
    K.eq("positions", np.array([[float(x) for x in l.split()[1:]] for l in L[i + 1:]]), basis, atol=1e-12)


@contract("C16", covers=[Q + "QECrystal.mass_density", Q + "QECrystal.scale_to_density", Q + "QECrystal.lattice_vectors_in_m", Q + "QECrystal._mass_per_cell"], proof=True, n=40)
def density_any_lattice(K):
    """every lattice (up to rotation) and every density: the density after scaling is the requested one, all vectors are multiplied by one number"""
    np = K.np
    q = K.mod("qespresso_interface")
    x = [K.real("x%d" % i, -9, 9) for i in range(6)]
    A = np.array([[x[0], 0, 0], [x[1], x[2], 0], [x[3], x[4], x[5]]])
    m = [[A[i, j] for j in range(3)] for i in range(3)]
    d0 = det3(m)
    for i in (0, 2, 5):
        K.assume(K.either(x[i] > 0.1, x[i] < -0.1))
    d = K.real("density", 1.0, 1e5)
    unit = K.choice("unit", ["angstrom", "bohr"])
    cr = q.QECrystal("x", A, [[0, 0, 0], [0.5, 0.5, 0.5]], ["Cu", "O"], kinetic_energy_cutoff=50, unit=unit)
    r0 = cr.mass_density()
    K.ensure("positive", r0 > 0)
    cr.scale_to_density(d)
    K.eq("requested density", cr.mass_density() / d, 1.0, atol=1e-9)
    B = [[cr.A[i, j] for j in range(3)] for i in range(3)]
    for i in range(3):
        for j in range(3):
            K.eq("matrix of the caller unchanged", A[i, j], m[i][j])
            for k in range(3):
                for l in range(3):
                    K.eq("same factor for all entries", B[i][j] * m[k][l], m[i][j] * B[k][l], atol=1e-8)
    K.ensure("orientation is kept", det3(B) * d0 > 0)
