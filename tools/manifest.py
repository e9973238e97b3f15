"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = ('abstract interpretation of the LLVM IR of the painter with gated polynomial value numbering',
     'For every configuration listed in the evidence (window, dimension 1-3, precision, gradient axis, support and scaling, periodicity) and ALL real '
     'positions, masses, scales, translations, mesh sizes and mesh contents the obligation is an equality of normal forms; real arithmetic (rounding and integer overflow are not modelled); '
     'trusts clang\'s front end and the loop summaries of the engine.')
PY = ('abstract interpretation of the Python/Cython source with gated symbolic values (value numbering of arrays, aliasing and events)',
      'For every scenario listed in the evidence (types of fields, dtypes, process meshes, 2 and 3 dimensions, options) and ALL mesh sizes, box sizes, local starts, particle numbers and contents the obligation is an '
      'equality of normal forms; local array shapes are small and fixed. Models of numpy, mpi4py, pfft and mpsort are trusted; exact arithmetic; what the engine cannot follow is reported as undecided.')
NZ = ('abstract interpretation of the LLVM IR of the white noise generator with abstract random numbers, and of the Python/Cython source which calls it',
      'For every mesh and part listed in the evidence (a bounded family of mesh sizes) and ALL seeds the obligation is an equality of normal forms of the value of each mode as a function of the random numbers drawn; '
      'the generator of gsl is a black box and exact arithmetic is assumed. The Python half holds for all mesh sizes, starts and contents within the listed scenarios.')
W7 = ('abstract interpretation of the Python/Cython source and of the LLVM IR of the windows; constants compared with a recorded table of weights',
      'Every name of the registry is followed to the window kind of the painter and the normal forms of its weights are evaluated at fixed offsets against recorded values of the original tree.')
TS = ('typestate analysis over the event traces of the abstract interpretation (Python source) and allocation events of the LLVM IR (C generator)',
      'Events carry the condition under which they are reached; creation, commit, use and release must agree for ALL counts, contents and lengths of the listed scenarios (columns, packings, modes, outputs, mismatching arguments; '
      'meshes and parts of the noise generator in the evidence). An error raised inside an MPI call is not modelled.')
DL = ('abstract interpretation of the Python source on all ranks of bounded routes with abstract data and abstract counts',
      'For every route listed in the evidence (1-4 ranks, repeated, missing and empty targets) and ALL contents the delivered arrays are equalities of normal forms; numbers of particles per route are small and fixed. '
      'Models of numpy and of the MPI collectives are trusted; sums are compared in exact arithmetic.')
DO = ('abstract interpretation of the Python/Cython source on all ranks; positions, edges and smoothing lengths as symbols ordered by signs of sums of positive terms',
      'Symbolic part: for every order of edges and ends of the particle (up to three domains per axis, empty ones included; two and three axes sampled) ALL edges, positions, smoothing lengths and translations by periods in that order. '
      'Histories and many particles: a bounded family of exact grids with positions in all intervals between edges. Models of numpy and MPI are trusted; exact arithmetic.')
IX = ('abstract interpretation of the LLVM IR of the index with a symbolic shell (and of its Python/Cython callers), induction over the axes, identities of polynomials',
      'For one to four axes (five when thorough), every face, edge and corner of the shell and every sign and order of the other coordinates the obligation is an identity of polynomials in ALL shells, maximum lengths and meshes. '
      'The problem within a cap is replaced by its specification (induction over the number of axes); integer overflow is not modelled.')
LB = ('abstract interpretation of the Python source over polyhedral cones of loads (disjunctive partitioning, linear forms on rays)',
      'Loads are sums of the rays of a cone with positive factors; a cone on which a comparison of the code or of the specification has no definite sign is parted, so the cones cover ALL loads (equal and vanishing ones included) of two to four '
      'domains, and those of sampled orders of five and six. Larger numbers of domains are not covered; exact arithmetic.')
TECH = {
 'P01': PY, 'P02': PY, 'P03': PY, 'P04': PY, 'P05': PY, 'P06': PY, 'P07': PY, 'P08': PY, 'P09': PY, 'P10': PY, 'P11': PY, 'P12': PY, 'M01': PY, 'M02': PY, 'X04': PY,
 'A01': PY, 'L01': PY, 'G01': PY,
 'W01': C, 'W02': C, 'W03': C, 'W04': C, 'W05': C, 'W06': C, 'W07': W7, 'W08': PY,
 'M03': TS, 'D04': PY, 'D01': DO, 'D02': DL, 'D03': DO,
 'X05': LB, 'I01': IX, 'X03': IX,
 'N01': NZ, 'N02': NZ, 'N03': NZ,
}
NA = {
 'X01': 'numerical identity computed inside the external FFT library; its code is not in this repository and the equality is over floating point sums, out of reach of a static argument',
 'X02': 'statistical statement about pseudo random numbers; no static argument bounds a distribution',
}
TODO = 'static check not built yet'


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        if p in TECH:
            t, note = TECH[p]
            checks.append(dict(property=p, quick_cmd='python3-vt check.py %s quick' % p, thorough_cmd='python3-vt check.py %s thorough' % p,
                               technique=t, level='other', level_note=note))
        else:
            na.append(dict(property=p, reason=NA.get(p, TODO)))
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
                   notes='All checks read the current source of /repo (VERIF_REPO overrides the location for experiments) and run nothing of it.'),
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
