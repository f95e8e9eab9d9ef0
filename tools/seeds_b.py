SY = "symmetry.py"
P = "import numpy as np, warnings\nfrom tight_binding_redweasel.symmetry import Symmetry\n"

seed("c06-few-squarings", "C06", [(SY, "        for _ in range(200):\n            prev_len = len(S)", "        for _ in range(4):\n            prev_len = len(S)")],
P + """
n = 24
c, s = np.cos(2*np.pi/n), np.sin(2*np.pi/n)
g = Symmetry.from_generator([((c, -s), (s, c))], False)
assert len(g) == n, len(g)
""", "a generator of order above 17", "the closure stops after words of length 16, the group is not closed")

seed("c06-subgroup-inversion", "C06", [(SY, "        sym = Symmetry(S, abs(invariant_func(-self.S[0]) - value) < 1e-8 if self.inversion else False)", "        sym = Symmetry(S, self.inversion)")],
P + """
g = Symmetry.cubic(True)
h = g.subgroup(lambda s: np.linalg.det(s))
assert len(h) == 24 and not h.inversion, len(h)
""", "a group with inversion and a function that changes sign under it", "the inversion stays in the subgroup although the function changes")

seed("c07-origin-expand", "C07", [(SY, """                    if np.min(np.linalg.norm(used_k - k_.reshape(1, -1), axis=-1)) < scale * 1e-6:
                        continue
                    used_k.append(k_)""", """                    if np.min(np.linalg.norm(used_k - k_.reshape(1, -1), axis=-1)) < max(scale, 1) * 1e-3:
                        continue
                    used_k.append(k_)""")],
P + """
g = Symmetry.cubic(True)
k, o = g.realize_symmetric([(0.0004, 0.0001, 0.0002)])
assert len(k) == 48, len(k)
""", "points close to the origin", "different images of a point near the origin are taken for the same point")

seed("c07-weight-inversion", "C07", [(SY, """        for sign in [-1, 1] if self.inversion else [1]:
            for s in self.S:
                weights += pingpong_distance""", """        for sign in [1, 1] if self.inversion else [1]:
            for s in self.S:
                weights += pingpong_distance""")],
P + """
g = Symmetry.inv(3)
w = g.k_weight([(0.5, 0.5, 0.0), (0.1, 0.2, 0.3), (0, 0, 0)])
assert np.allclose(w, (0.5, 1, 0.5)), w
""", "groups with inversion", "the inverted operations do not count")

seed("c07-class-size-sign", "C07", [(SY, """                weights += np.linalg.norm(np.einsum("ij,nj->ni",
                                          sign * s - np.eye(len(s)), k_smpl), axis=-1) < 1e-7
        return len(self) / weights""", """                weights += np.linalg.norm(np.einsum("ij,nj->ni",
                                          s - sign * np.eye(len(s)), k_smpl), axis=-1) < (1e-7 if sign > 0 else -1)
        return len(self) / weights""")],
P + """
g = Symmetry.cyclic(2, True)
assert np.allclose(g.r_class_size(np.array([(1., 0.5, 0), (0, 0, 1), (1, 2, 3)])), (2, 2, 4))
""", "groups with inversion and points on a mirror plane made of inversion and rotation", "stabilisers containing the inversion are not counted")

seed("c07-neighbor-flip-order", "C07", [(SY, "                neighbors.append((-n, orig_index))\n        neighbors = sorted(neighbors, key=lambda ni: np.linalg.norm(ni[0]))\n        order = [orig_index for _, orig_index in neighbors]", "                neighbors.append((-n, orig_index))\n        order = [orig_index for _, orig_index in neighbors]\n        neighbors = sorted(neighbors, key=lambda ni: np.linalg.norm(ni[0]))")],
P + """
g = Symmetry.cubic(True)
n = [(0, 0, 0), (1, 1, 0), (1, 0, 0)]
r, o = g.complete_neighbors(n, return_order=True)
for x, i in zip(r, o):
    assert abs(np.linalg.norm(x) - np.linalg.norm(n[i])) < 1e-9, (x, i)
""", "the source order is requested", "positions are sorted by length, the source indices are not")

seed("c07-average-last", "C07", [(SY, "        if dupl_group > 0:\n            del unique_order[-1]\n            unique_order.append(list(np.unique([order[j] for j in range(len(full_k) - dupl_group - 1, len(full_k))])))", "        if dupl_group > 1:\n            del unique_order[-1]\n            unique_order.append(list(np.unique([order[j] for j in range(len(full_k) - dupl_group - 1, len(full_k))])))")],
P + """
g = Symmetry.none(1) if False else Symmetry.inv(1)
warnings.simplefilter('ignore')
k, d = g.realize_symmetric_data([(-0.25,), (0.25,)], np.array([1.0, 3.0]), average_bad_duplicates=True)
assert np.allclose(d, 2.0), (k, d)
""", "duplicates from two sources at the last point of the sorted list", "the last group of duplicates is not averaged")

seed("c08-rank-inverse", "C08", [(SY, "            inv_s = np.linalg.inv(s)\n            sign = 1", "            inv_s = s.T\n            sign = 1")],
P + """
B = np.array(((1., 0.5, 0), (0, 0.8, 0), (0, 0, 1)))
g = Symmetry.cyclic(6, False).transform(B)
x = g.symmetrize(np.eye(3))
assert np.allclose(x, np.eye(3)), x
""", "a group in a basis that is not orthogonal", "the transposed operation is used instead of the inverse")


