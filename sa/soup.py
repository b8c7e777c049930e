"""P23: the half-edge mesh built from a polygon soup.

The construction looks at vertex indices only through equality, order and use as
an index, so a soup is one of finitely many order types for each size.  The
abstract store after `SurfaceMesh::new` is compared with the combinatorial mesh
the soup denotes, for both orders in which the edge table can be traversed."""
import itertools
from interp import Interp, Agg, VecV, Ref, Unsupported
from vg import N
import builtins2
import mesh

INV = mesh.INVALID


def ids(v):
    out = []
    for x in v.f:
        x = x.f[0] if isinstance(x, Agg) else x
        if not isinstance(x, int):
            raise Unsupported("half-edge table holds %r" % (x,))
        out.append(x)
    return out


def flatten(prog, agg, out):
    for name, x in zip(prog.structs[agg.ty], agg.f):
        if isinstance(x, VecV):
            out[name] = ids(x)
        elif isinstance(x, Agg) and x.ty in prog.structs:
            flatten(prog, x, out)
        else:
            out[name] = x
    return out


def verify(soup, T):
    """what is wrong with the tables T as the mesh of the soup"""
    bad = []

    def ck(ok, key, msg):
        if not ok and not any(k == key for k, _ in bad):
            bad.append((key, msg))
    nv = 1 + max(max(p) for p in soup)
    org, nxt, face = T["he_vertex_arr"], T["he_next_arr"], T["he_face_arr"]
    edge, sib = T["he_edge_arr"], T["he_sibling_arr"]
    hin, hout = T["he_vert_in_next_arr"], T["he_vert_out_next_arr"]
    vh, fh, eh = T["v_halfedge_arr"], T["f_halfedge_arr"], T["e_halfedge_arr"]
    nh = sum(map(len, soup))
    und = {frozenset((p[i], p[(i + 1) % len(p)])) for p in soup for i in range(len(p))}
    for n, w in (("n_vertices", None), ("n_halfedges", nh), ("n_edges", len(und)), ("n_faces", len(soup))):
        if w is not None:
            ck(T[n] == w, "count:" + n, "%s is %r, not %d" % (n, T[n], w))
    ck(T["n_vertices"] == nv, "count:n_vertices", "n_vertices is %r, not %d" % (T["n_vertices"], nv))
    for a, w in ((org, nh), (nxt, nh), (face, nh), (edge, nh), (sib, nh), (hin, nh), (hout, nh), (vh, nv), (fh, len(soup)), (eh, len(und))):
        ck(len(a) == w, "length", "a table has %d entries instead of %d" % (len(a), w))
    if bad:
        return bad
    H = range(nh)
    for nm, a, b in (("next", nxt, nh), ("sibling", sib, nh), ("incoming", hin, nh), ("outgoing", hout, nh), ("face", face, len(soup)), ("edge", edge, len(und)), ("origin", org, nv),
                     ("face handle", fh, nh), ("edge handle", eh, nh)):
        for h, x in enumerate(a):
            ck(0 <= x < b, "range:" + nm, "%s of %d is not a valid id" % (nm, h))
    if bad:
        return bad
    # faces: the loop from the handle is the polygon, possibly rotated
    for f, p in enumerate(soup):
        h, loop = fh[f], []
        while h not in loop and len(loop) <= nh:
            loop.append(h)
            h = nxt[h]
        vs = [org[x] for x in loop]
        ck(h == fh[f] and vs in [list(p[i:] + p[:i]) for i in range(len(p))], "loop", "the loop of face %d is %s, the polygon %s" % (f, vs, list(p)))
        ck(all(face[x] == f for x in loop), "face", "half-edges of the loop of face %d lie on faces %s" % (f, sorted({face[x] for x in loop})))
        ck(len([x for x in H if face[x] == f]) == len(p), "face", "face %d has %d half-edges" % (f, len([x for x in H if face[x] == f])))
    if bad:
        return bad
    tip = [org[nxt[h]] for h in H]

    def classes(perm, key, nm):
        groups = {}
        for h in H:
            groups.setdefault(key(h), set()).add(h)
        for k, g in groups.items():
            h0 = min(g)
            r, h = [], h0
            while h not in r:
                r.append(h)
                h = perm[h]
            ck(h == h0 and set(r) == g, nm, "the %s ring of half-edge %d is %s, it should hold %s" % (nm, h0, r, sorted(g)))
    classes(sib, lambda h: frozenset((org[h], tip[h])), "sibling")
    classes(hin, lambda h: tip[h], "incoming")
    classes(hout, lambda h: org[h], "outgoing")
    for h, k in itertools.combinations(H, 2):
        ck((edge[h] == edge[k]) == ({org[h], tip[h]} == {org[k], tip[k]}), "edge", "half-edges %d->%d and %d->%d %s an edge" % (org[h], tip[h], org[k], tip[k], "share" if edge[h] == edge[k] else "do not share"))
    for e in range(len(und)):
        ck(edge[eh[e]] == e, "edge handle", "the handle of edge %d lies on edge %d" % (e, edge[eh[e]]))
    used = set().union(*soup)
    for v in range(nv):
        if v in used:
            ck(0 <= vh[v] < nh and org[vh[v]] == v, "vertex handle", "the handle of vertex %d does not leave it" % v)
        else:
            ck(vh[v] == INV, "isolated", "vertex %d lies on no polygon but is valid" % v)
    return bad


def job(soups, rev):
    def go(ctx):
        prog = ctx.prog
        new = mesh.methods(prog, "SurfaceMesh", "new")
        for soup in soups:
            I = Interp(prog)
            old = builtins2.MapV.REV
            builtins2.MapV.REV = rev

            def run():
                v = VecV([VecV(list(p)) for p in soup])
                return verify(soup, flatten(prog, I.run(new, [v], {"T": "Vec<Vec<usize>>", "U": "Vec<usize>"}), {}))
            run.I = I
            try:
                k = mesh.explore(ctx, "soup", run, 50, "soups")
                ctx.ob(k > 0, "soup:none", "no complete run for %s" % (soup,))
            finally:
                builtins2.MapV.REV = old
    return go


def rot(p):
    return p[p.index(min(p)):] + p[:p.index(min(p))]


def soups(thorough):
    out = []
    tri4 = list(itertools.permutations(range(4), 3))
    tri5 = list(itertools.permutations(range(5), 3))
    out += [(t,) for t in tri5]                                   # gaps: unused vertices
    out += [(t,) for n in (4, 5) for t in itertools.permutations(range(n)) if t[0] < 2]
    out += [s for s in itertools.product(tri4, repeat=2)]
    can4 = sorted({rot(t) for t in tri4})
    out += list(itertools.product(can4, repeat=3))
    quad = sorted({rot(q) for q in itertools.permutations(range(4))})
    out += [(q, t) for q in quad for t in tri4] + [(t, q) for q in quad for t in can4] + list(itertools.product(quad, repeat=2))
    # fans: several polygons on one edge, in every combination of directions
    for k in (4, 5):
        for d in itertools.product((0, 1), repeat=k):
            out.append(tuple((0, 1, i + 2) if b else (1, 0, i + 2) for i, b in enumerate(d)))
            if thorough:
                out.append(tuple((k, i, k + 1) if b else (k + 1, i, k) for i, b in enumerate(d)))
    # closed surfaces; all orders and orientations of the faces of a tetrahedron
    tet = [(1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1)]
    for p in itertools.permutations(tet):
        for d in itertools.product((0, 1), repeat=4):
            if thorough or p[0] == tet[0] and d[0] == 0:
                out.append(tuple(f[::-1] if b else f for f, b in zip(p, d)))
    # two tetrahedra sharing a vertex, an edge, a face (non-manifold); a cube of quads; a bow-tie
    out.append(tuple(tet) + tuple(tuple(x and x + 3 for x in f) for f in tet))
    out.append(tuple(tet) + tuple(tuple(x if x < 2 else x + 2 for x in f) for f in tet))
    out.append(tuple(tet) + tuple(tuple(4 if x == 0 else x for x in f) for f in tet))
    out.append(((0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)))
    out.append(((2, 0, 1), (2, 3, 4), (2, 5, 6)))
    out.append(((7, 3, 9), (9, 3, 1, 5), (5, 1, 9)))
    if thorough:
        can5 = sorted({rot(t) for t in tri5})
        out += list(itertools.product(can5, repeat=2)) + [s for s in itertools.product(can5, repeat=3) if s[0][0] == 0]
        out += list(itertools.product(can4, repeat=4))
    return list(dict.fromkeys(out))


def check(ctx):
    ctx.rule("the store of the half-edge mesh after construction from every polygon soup up to the bound (order types of vertex indices), both traversal orders of the edge table")
    if mesh.need(ctx, ctx.prog, "SurfaceMesh", "new") is None:
        return
    S = soups(ctx.thorough)
    n = 16
    ctx.parallel([job(S[i::n], rev) for rev in (False, True) for i in range(n)])
    ctx.floor("soups", 2 * len(S))
