import checks_pred as cp
import checks_interval
import implicit

FP = ["IEEE-754 binary64 round-to-nearest; no overflow or underflow occurs", "input coordinates are finite",
      "the theorems of Knuth, Dekker and Shewchuk on error-free transformations and expansion sums",
      "polynomial identities are decided by random interpretation modulo 2^127-1 (error probability < 2^-100)"]
CHECKS = {
    "P01": dict(fn=cp.check_expansions, assumptions=FP),
    "P02": dict(fn=lambda c: cp.check_predicate(c, "orient2d"), assumptions=FP),
    "P03": dict(fn=lambda c: cp.check_predicate(c, "orient3d", ("orient3d_fast",)), assumptions=FP),
    "P04": dict(fn=lambda c: cp.check_predicate(c, "incircle"), assumptions=FP),
    "P05": dict(fn=lambda c: cp.check_predicate(c, "insphere"), assumptions=FP),
    "P06": dict(fn=lambda c: cp.check_predicate(c, "orient4d"), assumptions=FP),
    "P07": dict(fn=checks_interval.check, assumptions=["no overflow, underflow or NaN", "the degenerate bit pattern [+0, -0] (both lanes with sign bit) is not formed",
                "next_up(fl(x)) >= x for every exact x (round to nearest)"]),
    "P08": dict(fn=implicit.check_points, assumptions=FP + ["P01 and P07 (exact and interval arithmetic)"]),
    "P09": dict(fn=implicit.check_orient3d, assumptions=FP + ["P01, P03, P07 and P08"]),
    "P10": dict(fn=implicit.check_orient2d, assumptions=FP + ["P01, P02, P07 and P08"]),
    "P11": dict(fn=implicit.check_less_than, assumptions=FP + ["P01, P07 and P08"]),
}
import geomtests
CHECKS["P12"] = dict(fn=geomtests.check_incidence, assumptions=FP + ["P02, P03 and P11 (the orientation predicates and comparisons are exact)"])
CHECKS["P13"] = dict(fn=geomtests.check_max_comp, assumptions=FP + ["P01"])
import dsu
CHECKS["P14"] = dict(fn=dsu.check, assumptions=["indices are in range", "the parent array is a forest before each operation (established by new, preserved by merge and output)"])
import mesh
MESH = ["the mesh is well formed before the operation", "edges have two different end points", "shapes up to the stated size; cells the operation does not touch are arbitrary"]
CHECKS["P15"] = dict(fn=mesh.check_edits, assumptions=MESH)
CHECKS["P16"] = dict(fn=mesh.check_nav, assumptions=MESH)
import flow
CHECKS["P17"] = dict(fn=flow.check, assumptions=["capacities are non-negative and their sums and differences are computed exactly (e.g. integers)", "the networks listed; within one, all capacities"])
import tetra
TM = ["links of the mesh are mutual before the operation"]
CHECKS["P18"] = dict(fn=tetra.check_nav, assumptions=TM)
CHECKS["P19"] = dict(fn=tetra.check_build, assumptions=["P03 and P05 (the orientation and in-sphere predicates are exact)", "the insertion order is the index order", "arrangements up to the stated number of points"])
CHECKS["P20"] = dict(fn=tetra.check_perturbed, assumptions=["P03 and P05", "five points one of which makes three others collinear are not cospherical"])
CHECKS["P21"] = dict(fn=tetra.check_sort, assumptions=["number of points, depth and thresholds as listed"])
import tri2d
CHECKS["P22"] = dict(fn=tri2d.check, assumptions=["P02 and P04 (the predicates are exact)", "points are distinct, boundary polygons simple", "sign vectors of configurations up to the stated size"])
import soup
CHECKS["P23"] = dict(fn=soup.check, assumptions=["no polygon repeats a vertex", "soups up to the stated size; vertex indices matter only through equality, order and as indices"])
import bsp
GEO = ["P02, P03, P09, P10, P12 and P13 (predicates and incidence tests are exact)", "the triangulation is valid and its links mutual (P19)", "sign configurations of point sets up to nine points, as listed"]
CHECKS["P24"] = dict(fn=bsp.check_virtual, assumptions=GEO)
CHECKS["P25"] = dict(fn=bsp.check_marks, assumptions=GEO)
CHECKS["P26"] = dict(fn=bsp.check_split, assumptions=GEO + ["P16, P24 and P25 (the surface mesh operations, virtual constraints and tetrahedra recorded)"])
import outer
CHECKS["P27"] = dict(fn=outer.check_net, assumptions=GEO + ["P26 (the subdivision)", "coordinates of intersection points, areas and averages are taken as exact reals, apart from averages that round onto the boundary"])
CHECKS["P28"] = dict(fn=outer.check_out, assumptions=GEO + ["P22 (the planar triangulation)", "P26 (the subdivision)", "coordinates of intersection points are taken as exact reals"])
