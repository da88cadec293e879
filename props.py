"""What decides each property."""
ASSUMPTIONS = [
    'floating-point numbers are treated as reals and machine integers as mathematical integers in the proofs',
    'derived types of the sparse storage are laid out without padding, as the packed numpy record types they receive',
    'a race-free OpenMP loop computes what its sequential execution computes (races are the subject of C10)',
    'dummy arguments are not aliased, as Fortran requires and f2py provides',
]
TRUSTED = [
    'vf/fparse.py, vf/fexec.py, vf/floop.py: the reading of Fortran and the verification-condition generator',
    'vf/pyexec.py: the reading of Python, the model of one-dimensional numpy arrays (slices, fancy indexing, reshape, take, where, all, any), of dictionaries, enumerations and data classes; numpy\'s ufuncs and functions called by the dispatch of quantities are opaque',
    'vf/nd.py: what numpy and f2py do with the arrays that are given to the kernels (views, copies, conversions, refusals)',
    'vf/sym.py: the axioms of the iterated operators SUM, EX, FIRST, FOLD (proved by induction on paper, instances checked by z3)',
    'z3', 'the jinja rendering of the templates, done with the build\'s own driver', 'gfortran, f2py, numpy',
]

RAC = {'level': 'exploration', 'technique': 'contracts (postconditions) of the real functions evaluated at run time on enumerated and drawn inputs: bounded, not proved',
       'note': 'Bounded: no deductive verifier covers this Python code here; the contracts are checked on executions only.'}

PYTECH = 'contracts on the real Python functions (their syntax trees read on every run), every path executed symbolically and every obligation discharged by z3; run-time assertion checks of the same postconditions on the real package'


def py(note, **kw):
    return dict(technique=PYTECH, note=note, **kw)



def sparse(note, **kw):
    return dict(technique='contracts on the Fortran kernels and on the Python functions that call them, read from the sources on every run, discharged by z3 (own VC generator); '
                          'run-time assertion checks of the same postconditions through the Python API', note=note, **kw)


PROPS = {
    'C01': sparse('Proved for all sizes and contents: the 24 kernels, and by their contracts the Python functions _matvec, __mul__, __rmul__, copy, direct, reshapein, reshapeout, validatein, validateout. '
                  'Bounded: the fallback loops for types without kernel, the constructor of the operator (run-time checks).'),
    'C02': sparse('Proved for all sizes and contents: the 120 kernels, and by their contracts the Python functions _matvec, __mul__, __rmul__, copy, direct for every class and shape of block. '
                  'Bounded: the fallback loops for types without kernel (run-time checks).'),
    'C03': sparse('Proved for all sizes and contents: the adjunction over the contracts of the products, _transpose of the eight classes, the rule of the transpose of the operator. '
                  'Bounded: the algebra of pyoperators (run-time checks).', select=['C03', 'C01', 'C02']),
    'C04': sparse('Proved for all sizes and contents: the kernels of P.T P and the rule that replaces P.T P by a diagonal. Bounded: pT1 and pTx_pT1 (run-time checks).'),
    'C05': {},
    'C06': sparse('Proved for all sizes and contents: the renumbering kernels and restrict (in place or not). Bounded: corestrict, indices without kernel (run-time checks).'),
    'C07': {}, 'C08': {},
    'C10': {'select': 'all', 'kinds': (), 'races': True, 'threads': 8, 'parts': 2},
    'C11': {'select': 'all', 'kinds': ('bounds',)},
    'C09': {'note': 'Proved for all sizes, time constants and signals: the eight kernels, the eight drivers by the contracts of the kernels, in place and out of place, and the adjoint identity. '
                    'Bounded: the Python wrapper that describes the blocks to the driver (run-time checks).'},
    'C12': {'note': 'Proved for all real coordinates: the clipping of one edge (the twenty cases against the integral of the clipped height), the sum over the edges by the contract of the clipping, '
                    'antisymmetry, no area outside, bounds edge by edge. Bounded: that the area of a simple polygon is between 0 and 1 (run-time checks against exact clipping).'},
    'C13': {'note': 'Proved for all detectors, grids and capacities: every pixel of the grid that overlaps is visited, written once at its rank in raster order with its area and not overwritten, the padding, '
                    'the number of pixels needed, the flag (the overlap by the contract of C12, the extents by induction over the vertices). '
                    'Bounded: the two passes of get_integration_operator, xy2roi and roi2pmatrix (run-time checks).'},
    'C14': {'note': 'Proved for all sizes and coordinates: the shoelace area, its translation, reversal and starting-vertex laws by induction, and the point test against the parity of the crossings and the closed edges. '
                    'Bounded: the Python wrapper (run-time checks).'},
    'C15': {'note': 'Proved for all sizes, angles, reflections and centres: the nodes of the grids, the corners of the squares, the rotations in and out of place and what they preserve. Bounded: the Python wrappers (run-time checks).'},
    'C16': {}, 'C17': {},
    'C18': {'note': 'Proved for all numbers of angles, missing values and turns: mean_degrees on any half-circle (the three ways it can lie with respect to 0), minmax_degrees by the contract of the mean '
                    '(bounds on the short arc and attained, by induction over the loops), missing results, full turns. Bounded: the Python wrappers (run-time checks).'},
    'C19': py('Proved for all sizes: slice and list normalisation, __len__, index, _indexable and __getitem__ for the three kinds of index. '
              'Bounded: the constructor, orderings, multi-dimensional selections (run-time checks).'),
    'C20': py('Proved for all sizes and contents: pack, unpack and pack(unpack) for the three kinds of index, with and without out, copy and missing value, '
              'arrays seen through their first axis. Bounded: multi-dimensional layouts, structured types, masked layouts (run-time checks).'),
    'C21': py('Proved for all sizes, numbers of processes and ranks: scatter_fitsheader, gather_fitsheader after it, PackedTable.split, PackedTable.scatter, '
              'distribute_observation (blocks found by its loops under a loop invariant, every pair in exactly one process); pyoperators\' split is executed too. '
              'Assumed: combine() sums over the processes, the number of threads is the same everywhere. Bounded: PackedTable.gather, several dimensions (run-time checks).'),
    'C22': py('Proved for all units and exponents: _multiply_unit, _divide_unit, _power_unit, _multiply_unit_inplace and their laws. '
              'Bounded: parsing, conversion and the dispatch of numpy operations (run-time checks).'),
    'C26': py('Proved for all units and values: the dispatch of the listed ufuncs and functions (which operands are converted, to which unit, the unit of the result, operands unchanged), '
              'SI (product of the factors, sum of the exponents, by a loop invariant), inunit and tounit (value kept, there and back, refusals leave the quantity as it was), the factor and the lookup of a derived unit. '
              'Assumed: numpy computes on the numbers that it is given. Bounded: parsing of units, broadcasting of local units over several dimensions (run-time checks).'),
    'C23': py('Proved for all sizes and values: _fold_psd, _unfold_psd, both round trips, conservation of the total power (real arithmetic). '
              'Bounded: several leading axes (run-time checks).'),
}


def tasks(prop, mods, thorough):
    from vf import proofs
    ts = proofs.all_tasks(mods)
    sel = PROPS[prop].get('select')
    if sel == 'all':
        return [t for t in ts if t[2] is not None]
    if sel:
        return [t for t in ts if t[0] in sel]
    return [t for t in ts if t[0] == prop]

NOT_APPLICABLE = {
    'C24': 'FITS input/output is done by astropy and the file system; no contract within reach of the verifier states what a file holds, and astropy would have to be assumed wholesale',
    'C25': 'a statement about expectations of a pseudo-random generator: not expressible as a contract over one execution',
    'C27': 'the proofs interpret floating-point operations as real ones; error bounds would need a floating-point contract verifier for Fortran, which is not available here',
}
