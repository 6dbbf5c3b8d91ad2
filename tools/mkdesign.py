#!/usr/bin/env python3
"""DESIGN.md from the specification in checks.py, properties.jsonl, known_findings.txt, seeded/ and the texts below."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import checks
P = [json.loads(l) for l in open(R + "/properties.jsonl")]
# (oracle, why this reaches what tests cannot)
T = {
"P01": ("A sequential (one thread) evaluation of the same operator by the same code, bitwise for the owner-computes parts; a happens-before vector clock detector over all instrumented accesses.",
        "A real OpenMP run shows one schedule per execution, on the machine's terms; the controlled runtime enumerates them and detects races that no output shows."),
"P02": ("As P01, for assembly of compressed operators, leaves, and products with vectors (reductions compared up to reassociation).", "As P01."),
"P03": ("As P01, for potentials; critical section orders are enumerated.", "As P01."),
"P04": ("A sequential run of the same programs; with race detection, the happens-before relation of the controlled runtime.", "Hidden shared state (a static scratch vector, a mutable cache) is invisible to any sequential test; here every pair of operations is run in every order of operations, and race detection needs only one of the schedules."),
"U01": ("Compiler and linker; the same operation in a process of its own; a model of the shared precision.", "No test links two units; a missing inline, a missing include, state duplicated per unit or an order of initialisation only shows with particular sets and orders of includes, all of which up to the bound are tried."),
"M01": ("An independent cell model (dyadic cells per patch, exact rational coordinates, union-find over patch corners) that predicts elements, numbering, neighbours, points, iterator ranges and enclosing balls.",
        "Neighbour links across differently rotated, differently refined patches only go wrong for certain histories."),
"M02": ("The abstract quad mesh the geometry was generated from: which edges are shared, with which orientation.", "Patch numberings and rotations are enumerated, tests use a handful of shipped files."),
"G01": ("Rational Cox-de Boor recursion in long double with explicit quotient rule.", "Shipped geometries are Bezier patches of equal orders; other orders, inner knots and weights are enumerated."),
"G02": ("The reference surface of G01 on the knot span of each piece, order of pieces as documented.", "Only geometries with inner knots are split, the tests have none with different numbers of spans."),
"G03": ("Byte-independent: the geometry read back is compared with the one written at a grid of points; own parser for the shipped files with every line ending.", "File names, formats, precisions and write histories are enumerated."),
"S01": ("Long double recursions from the definition (Bernstein, Cox-de Boor, their derivatives), independent of spans and extraction.", "All degrees and knot multiplicities are covered, including those only reached through rarely used template instances."),
"S02": ("Exact rational moments of all monomials up to the nominal degree.", "One wrong digit in one rule of one order is invisible in convergence tests."),
"A01": ("Two-sided evaluation of every basis function along all edges at enough points to decide polynomials; dimension by Euler characteristic; exact rank.", "Orientation cases only arise for particular rotations of neighbouring patches; all are enumerated."),
"A02": ("As A01, with outward fluxes in reference coordinates and conormal components on the surface.", "As A01."),
"A03": ("Cox-de Boor B-splines evaluated per element.", "All degrees, levels and repetitions, beyond the ones tests use."),
"A04": ("Bernstein expansions of the coefficient vector on the element a point lies in; for histories, each object's abstract value (geometry, space, coefficients) predicts every evaluation.", "Copies, moves, self assignment and re-initialisation interact only in certain orders."),
"A05": ("Independent quadrature of the represented function's Bernstein expansion; Pythagoras' theorem for projections; spherical harmonics as eigenfunctions of the Laplace-Beltrami operator.", "Spaces, degrees, functions and rules are enumerated instead of one solution on the sphere."),
"D01": ("Shared corners in space, brute-force distances on sampled elements.", "Orders and rotations of patches are enumerated; wrong alignments only show for certain rotations."),
"D02": ("Polynomial kernels (closed form), the Coulomb kernel on flat elements by an analytic inner integral with a double exponential outer rule, the unrotated configuration, high order rules.", "Each of the 16 relative rotations of each singular case is a separate code path."),
"H01": ("A reference recursion of the admissibility partition, coverage counting over all element pairs, and the abstract state of two trees for histories, under AddressSanitizer.", "Ownership errors only appear after particular copy/assign/re-initialise sequences."),
"H02": ("The dense Galerkin matrix, and the dense matrix whose admissible blocks have the kernel replaced by its tensor product interpolant (exact up to rounding).", "Interpolation order, geometry, level and degree are enumerated, so that errors in one component or transfer cannot hide in the tolerance of the compressed approximation."),
"H03": ("The same expression evaluated with dense matrices.", "All expression shapes up to three operands; tests use two."),
"H04": ("Exact integrals of Lagrange polynomials against basis functions; adjointness of forward and backward transforms.", "Numbers of points, levels and degrees are enumerated."),
"H05": ("A dense copy of the current operator: residuals, convergence flags and iteration counts.", "Histories of set-ups, solves and re-assemblies, instead of one solve."),
"O01": ("Identities that need no reference solution: symmetry, conjugation, vanishing wavenumber, rigid motions and scaling, adjoints, kernels, definiteness, Green's identities for polynomials and plane waves, decomposition of the Maxwell operator into Helmholtz ones; histories against fresh objects.", "Each identity holds for every configuration, and a wrong sign or component violates at least one."),
"O02": ("Independent kernel formulas, evaluated in both orders (direct integrand, contracted far-field tensor).", "Near and far field are separate code; tests only see their blend within a tolerance."),
"O03": ("Independent surface integrals (own quadrature and own representation of the density), Green's representation formula, difference quotients, differential equations.", "Potentials, densities, parametrisations, wavenumbers and histories are enumerated."),
"O04": ("Moments by own quadrature, exact on affine geometries; complex data with known conjugation.", "Traces, scalars, degrees and quadrature settings are enumerated."),
"O05": ("Gram and stiffness matrices by own quadrature, definiteness, kernel, area.", "As O04."),
"O06": ("Explicit polynomials of the real spherical harmonics, their gradients, an Ewald sum of the periodic Green's function, face-to-face periodicity.", "All degrees and orders, poles and axes included, every precision setting, and histories of the global precision."),
"O07": ("Known solutions of boundary value problems; the convergence rate of the theory with calibrated constants (twice the largest error observed).", "All equations, sides, formats, degrees and levels; wrong identity terms, signs or orientation conventions leave an error that does not decrease."),
"I01": ("A reference parser and the matrices themselves.", "Shapes, values, modes and write histories are enumerated."),
"I02": ("A model of each sink's contents.", "As I01."),
"I03": ("A controlled clock (link-time replacement of the clocks) and a state model of the watch.", "Real clocks cannot be steered by a test."),
"I04": ("A strict XML/VTK parser in the harness and the functions evaluated at the parsed points.", "Histories of adding, clearing and writing data sets."),
}
def fmt(p):
    c = checks.CHECKS[p["id"]]
    o, w = T[p["id"]]
    s = "### %s  %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    s += "* Enumerated: %s.\n* Oracle: %s\n* Bounds, quick: %s.\n* Bounds, thorough: %s.\n" % (c["rule"], o, c["bounds"]["quick"], c["bounds"]["thorough"])
    if c.get("assumptions"): s += "* Assumptions: %s.\n" % "; ".join(c["assumptions"])
    s += "* Why tests cannot: %s\n" % w
    s += "* Anchors: %s.\n" % ", ".join("`%s`" % f for f in (p["anchors"].get("files") or []))
    return s + "\n"
out = open(R + "/tools/design_head.md").read() + "\n## Properties and checks\n\n" + "".join(fmt(p) for p in P)
out += "## Defects found in temf/bembel and repaired\n\nAll are `fix:` commits in /repo, recorded in known_findings.txt; there is no unrepaired finding.\n\n"
for l in open(R + "/known_findings.txt"):
    if l.startswith("fixed:"): out += "* " + l[len("fixed: property="):].strip() + "\n"
out += "\n" + open(R + "/tools/design_tail.md").read()
NOTE = {"cmp_minus": "quadrature stays within the promised accuracy", "deg_thr": "precision still met", "deg_thr2": "precision still met",
        "fe_clamp": "equivalent", "no_max": "equivalent: singular cases have more points than the far field anyway"}
tab = "| change | file | what | caught by | missed by |\n|---|---|---|---|---|\n"
for l in open(R + "/tools/mutants.tsv"):
    n, f, ch, res = l.rstrip("\n").split("\t")
    r = [x.split(":") for x in res.split()]
    c = [a for a, b in r if b == "1"]; m = [a for a, b in r if b == "0"]
    tab += "| %s | %s | %s | %s | %s |\n" % (n, f, ch, ", ".join(c) or "none (%s)" % NOTE.get(n, "?"), ", ".join(m))
out = out.replace("@MUTANTS@", tab)
out += "\n### Planted bugs kept in seeded/\n\n| bug | property | needs |\n|---|---|---|\n"
for d in sorted(os.listdir(R + "/seeded")):
    f = R + "/seeded/" + d + "/meta.json"
    if os.path.exists(f):
        m = json.load(open(f))
        out += "| %s | %s | %s |\n" % (d, m["property"], m["needs"])
open(R + "/DESIGN.md", "w").write(out)
print(len(out))
