#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: `python3 props.py` rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []

GVN = 'gated value numbering (abstract interpretation) of the compiled IR of the real headers, implementation summary against specification summary'
NOTE = ('The closed-form summary of the optimised IR of the named functions, for all inputs at once, is compared with the summary of an independently written specification: '
        'equal normal forms are a proof modulo exact arithmetic (no overflow, no rounding), the clang 18 front end and optimiser, and the non-aliasing of distinct witness fields; '
        'different normal forms are only reported when the two closed forms provably differ at a point, otherwise the obligation is counted as undecided.')


def prop(id, title, statement, over, text, why, files, mech, technique=GVN, note=NOTE, observe=None, thorough=True, na=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, (id, len(title))
    P.append((d, technique, note))
    if na:
        NA.append({'property': id, 'reason': na})


S = 'include/samurai/'

prop('C01', 'Interval arithmetic acts on the cells an interval denotes',
     'Shifting, scaling, coarsening and refining an interval, and selecting its even or odd cells, yields exactly the interval of the cells obtained by applying the same operation '
     'to every cell it contains: coarsening covers every parent of a contained cell and nothing else, refining covers exactly the children, coarsening after refining is the identity. '
     'Membership, validity, size, equality and order agree with the half-open range the interval denotes.',
     ['inputs'], 'all integer start, end, offset, step and shift values, negative coordinates included',
     'The unit tests sample a few intervals, mostly with non-negative bounds; rounding of negative odd bounds and the storage index carried along are not sampled.',
     [S + 'interval.hpp'], [('shift, scale, coarsen, refine operators', S + 'interval.hpp Interval::operator+= … operator<<=, operator>>='), ('parity selection', S + 'interval.hpp Interval::even_elements/odd_elements')])

prop('C02', 'Cell and box geometry is exact and nested across levels',
     'A cell of a level covers the box whose corner is the origin plus the cell length times its integer coordinates, with length equal to the scaling factor divided by two to the level; '
     'its centre and face centres follow from that, and its children tile it exactly. Box lengths, scaling, validity, the approximation of a box by whole subdivisions, and cell equality follow the same exact definitions.',
     ['inputs'], 'all origins, scaling factors, levels, integer coordinates and directions, dimensions 1 to 3',
     'Tests instantiate a handful of cells on the unit box; a wrong factor for another origin, scaling, dimension or direction is not sampled.',
     [S + 'cell.hpp', S + 'box.hpp'], [('cell length and coordinates', S + 'cell.hpp cell_length, Cell::corner, Cell::center, Cell::face_center'), ('box operations', S + 'box.hpp Box, approximate_box')])

prop('C03', 'Projection gives the parent the mean of its children',
     'Projecting a field gives each coarse cell exactly the arithmetic mean of its children, in every dimension, writes nothing else, and projecting several fields at once equals projecting each of them.',
     ['inputs'], 'all field values, levels and coordinates, dimensions 1 to 3, same or separate destination',
     'No unit test checks the projected values of every dimension; a dropped child or wrong weight only shows in the solution.',
     [S + 'numeric/projection.hpp'], [('projection operators', S + 'numeric/projection.hpp projection_op_, variadic_projection_op_')])

prop('C04', 'Prediction is conservative and exact to its order',
     'The values predicted for the children of a cell have the value of the cell as their mean, reproduce polynomials of degree twice the order in each direction exactly, and do not depend on whether '
     'the operator is run from the coarse side or on the fine cells, nor on how many cells a run contains. The coefficient tables offered to other predictors are the same coefficients.',
     ['inputs', 'configurations'], 'all coarse values, coordinates (either parity, negative included), orders 0 to 5, dimensions 1 to 3',
     'Tests use order 1 and few cells; higher orders, odd starts, mixed terms and three dimensions are not sampled.',
     [S + 'numeric/prediction.hpp'], [('directional corrections', S + 'numeric/prediction.hpp Qs_i, Qs_j, Qs_k, Qs_ij, …'), ('child loops', S + 'numeric/prediction.hpp prediction_op::operator()'), ('tables', S + 'numeric/prediction.hpp interp_coeffs, prediction_coeffs')])

prop('C05', 'Multiresolution details measure the prediction error of every child',
     'The detail of a cell is its value minus the value predicted for it from the next coarser level, computed for all children of every processed cell and for every field given, and it vanishes where the prediction is exact.',
     ['inputs'], 'all field values, levels, coordinates of either parity and run lengths covered by the parity partition, dimensions 1 to 3',
     'Tests only see the resulting mesh; a detail that misses a child or uses a wrong neighbour changes the mesh only for some data.',
     [S + 'mr/operators.hpp', S + 'numeric/prediction.hpp'], [('detail operators', S + 'mr/operators.hpp compute_detail_op, compute_detail_on_tuple')])

prop('C06', 'Adaptation criteria mark exactly the cells the detail test selects',
     'All children of a cell are marked for coarsening exactly when every one of their details, in every component, is below the threshold and they lie above the minimum level; a child whose detail exceeds the refinement threshold '
     'is marked for refinement unless it is at the maximum level, and a large detail of the parent keeps its children. No other mark is changed.',
     ['inputs'], 'all details, thresholds, levels, scalar and vector fields in both storage layouts, dimensions 1 to 3',
     'Tests see a few meshes; a criterion that ignores one child or one component is not exposed by symmetric data.',
     [S + 'mr/criteria.hpp'], [('coarsening test', S + 'mr/criteria.hpp to_coarsen_mr_op'), ('refinement test', S + 'mr/criteria.hpp to_refine_mr_op')])

prop('C07', 'Mark propagation keeps siblings together and neighbours graded',
     'A mark is propagated to exactly the cells the rule names: siblings are coarsened only all together and kept together with their parent, the neighbours of a refined cell are kept within the requested width in every direction, '
     'and a fine cell transmits its keep or refine mark to the coarse cell beneath its neighbour. No mark outside that set changes.',
     ['inputs'], 'all flag values, levels and coordinates of either parity, all directions and widths 0 to 2, dimensions 1 to 3',
     'Tests sample a few flag patterns in low dimension; a corner direction or one sibling left out shows only for particular patterns.',
     [S + 'mr/operators.hpp', S + 'algorithm/utils.hpp', S + 'algorithm/graduation.hpp'],
     [('sibling rules', S + 'mr/operators.hpp maximum_op, keep_children_together_op'), ('neighbour rules', S + 'mr/operators.hpp enlarge_op, keep_around_refine_op; algorithm/utils.hpp tag_to_keep_op; algorithm/graduation.hpp extend_op, make_graduation_op, graduate_op, balance_2to1_op')])

exec(open(os.path.join(HERE, 'props_more.py')).read()) if os.path.exists(os.path.join(HERE, 'props_more.py')) else None

if __name__ == '__main__':
    na = {x['property'] for x in NA}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, _, _ in P:
            f.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -c "pass"',
         'checks': [{'property': d['id'], 'quick_cmd': 'python3 check.py ' + d['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % d['id'],
                     'technique': t, 'level': 'other', 'level_note': n} for d, t, n in P if d['id'] not in na],
         'not_applicable': NA}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties', len(m['checks']), 'claimed')
