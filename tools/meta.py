"""Writes properties.jsonl and MANIFEST.json (one place for both, so that they stay in step)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'geometry/SR_polygon.py'
L = 'geometry/SR_line.py'
G = 'geometry/SR_polygon_group.py'
H = 'SR_Vessel/SR_hauptteile.py'
PT = 'geometry/SR_point.py'

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, note, technique='deterministic simulation, seeded search', state=(),
         observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                      technique=technique, state=state, observe=observe))


prop('C01', 'Where a point lies never depends on which probing rays are drawn',
     'For every polygon (a ring of segments, or a ring with further rings in it; segments in any order and direction) and every point '
     'off its boundary, the questions whether the point is internal or external are answered by whether it is enclosed an odd '
     'number of times: truthfully, the two answers opposite, the same on every repetition, whatever random rays are drawn to '
     'decide it, including rays that graze corners. Each answer comes after a bounded number of draws, and asking changes nothing.',
     ['inputs', 'schedules', 'fault_sequences'],
     'all simple polygons and nested rings, all points off the boundary, all random draws with isolated degenerate (corner-grazing) rays, '
     'all iteration orders of unordered collections',
     'The tests ask about a few dozen points with whatever rays the unseeded generator happens to draw, so that a ray that grazes a '
     'corner (or starts beyond an inner corner) is met once in thousands of runs, if ever, and is then a flaky test.',
     [P, L],
     [('three control rays that have to agree, else they are drawn again', 'PolygonLine.is_internal_point in ' + P),
      ('crossing test that leaves endpoints out', 'LineSegment.intersection_on_segment in ' + L)],
     'Seeded search over polygons, points and draws; oracle: exact even-odd rule over rationals. Points nearer to the boundary than '
     '0.2 % of the size are not judged; of the rays drawn for one answer no two in a row are made degenerate.',
     observe=['PolygonLine.is_internal_point', 'PolygonLine.is_external_point'])

prop('C02', 'Vessel analysis finds the true rooms and sides in any order of parts',
     'For every vessel of the supported kinds the analysis finds exactly the rooms that exist, with their true outlines and '
     'outer and inner walls, and reports for every part to which rooms it turns its inner side, to which its outer side, and between which it lies when it has no sides. '
     'Up to the names of the rooms the report is the same in whichever order the parts are listed, whatever random draws are made, '
     'in whichever order sets are iterated and triangles are delivered, and when asked for again, also after rooms were renamed.',
     ['inputs', 'schedules', 'configurations'],
     'all vessels of 21 families (plain, divided, on a skirt, in a jacket, double-walled, closed or divided by a raumende, side by side, '
     'with cone knuckle, several within another, on skirts; sizes, places, units), all orders of parts, all draws, set orders and backend orders',
     'The tests fix 19 vessels with one order of parts each and compare under the draws and set orders of that one process; the number of '
     'orders is factorial, and which loop is found first depends on hashes of coordinates.',
     [H, G, P, L],
     [('loops are searched, those that others make up are dropped', 'BehalterGraph.find_loops / keep_base_polygons in ' + G),
      ('rooms from loops, containment and overlap', 'Behalter.raum_erstellen in ' + H),
      ('marker points on both sides of each wall', 'Behalter.raum_intex, Hauptteil.intex_points in ' + H)],
     'Seeded search over vessels generated together with the rooms they have by construction (the oracle); the shapes of vessels are '
     'limited to the listed families.',
     observe=['Behalter.raum_intex', 'Behalter.raume', 'Behalter.graph.cycles'])

prop('C04', 'The area is exact and the triangles tile the polygon whatever is left open',
     'For every simple polygon, in whichever order and direction its segments are given, the area is the exact one (up to rounding) and '
     'the triangles of a triangulation have corners of the polygon, lie inside, do not overlap and cover it. This holds for every '
     'order in which the triangulation library delivers triangles and corners, for every random draw (also of the ear clipping '
     'method, which may report failure but then leaves no triangles), and for every repetition.',
     ['inputs', 'schedules'],
     'all simple polygons (3 to 16 corners, also with corners on straight edges), sequences of up to four triangulations and area queries by '
     'both working algorithms, all draws, set orders, backend orders',
     'The tests compare areas of a few polygons and hardly look at the triangles; the order in which the library answers and the draws '
     'are those of the one run.',
     [P], [('triangles are kept only if their midpoint is inside and no corner of the polygon in them', 'PolygonLine.triangle_mesh in ' + P),
           ('ear clipping with random choice of the corner when stuck', 'PolygonLine.ear_clipping in ' + P),
           ('all algorithms have to agree on the area', 'PolygonLine.area in ' + P)],
     'Seeded search; oracle: shoelace formula and triangle clipping over rationals. Corners keep 1 to 2 % of the size away from other edges.',
     observe=['PolygonLine.area', 'PolygonLine.triangulate', 'PolygonLine.triangles', 'PolygonLine.detailled_area'])

prop('C05', 'A question cut short at any point leaves nothing behind',
     'When the answering of any question about a polygon, triangle or vessel is cut short at any statement by an interrupt or by lack of '
     'memory, the object, its parts and the other object of the question keep their geometry, and the same question and all others '
     'are afterwards answered as by an object to which this never happened.',
     ['crash_points', 'histories', 'inputs'],
     'all polygons, triangles and vessels, all sequences of about 60 kinds of questions, a fault at any statement of any of them, several times',
     'No test interrupts anything; the number of points at which a question may be cut short is the number of statements executed '
     '(up to millions for a vessel).',
     [P, G, H],
     [('triangulations are stored only when complete', 'PolygonLine._set_triangles in ' + P),
      ('lazily computed loops and areas are stored last', 'BehalterGraph.cycles in ' + G + ', PolygonLine.area in ' + P),
      ('questions work on copies', 'Behalter.raum_intex in ' + H + ', BehalterGraph.find_loops in ' + G)],
     'Seeded search over questions and fault points (any statement of the code under test, by instrumentation at load time); oracle: '
     'the answer of an untouched object. Faults do not strike inside C code.',
     technique='deterministic simulation with interrupts and memory failures at seeded statements',
     observe=['every query of PolygonLine, Triangle, Behalter'])

prop('C09', 'Questions only observe: answers do not depend on what was asked before',
     'Whatever has been asked of a polygon, triangle or vessel before, every question is answered as by a fresh object that is asked only '
     'this (an error being an answer, too), under any draws and orders. After any history of questions the geometry of the object and '
     'of its parts is unchanged, direction and order of segments included, and its parts share no points with each other.',
     ['histories', 'inputs', 'schedules'],
     'all polygons, triangles and vessels, all histories of about 60 kinds of questions, all draws, set orders, backend orders',
     'The tests ask each object one or two things in one order; that one question spoils a later one shows only in the right pair.',
     [P, G, H, L],
     [('questions copy what they have to turn around or join', 'PolygonGroup.cycles, representative_graph, BehalterGraph.find_loops in ' + G),
      ('cached answers carry the shape they were computed for', 'PolygonLine.area, triangles in ' + P)],
     'Seeded search over histories; oracle: a fresh object per question, built alike but asked under other draws.',
     observe=['every query of PolygonLine, Triangle, Behalter'])

prop('C10', 'After any edits the answers are those for the present shape',
     'However a polygon was made and edited (moved, turned, mirrored, points appended, closed, copied, reordered) and whatever was asked, '
     'cut short or not, in between, each question about area, triangles, closedness, box, points, position of points, convexity, '
     'equality, disjunctness, neighbours of a corner, corners on straight edges, turns, gaps and hull is answered for the shape it has now.',
     ['histories', 'inputs', 'crash_points'],
     'all simple polygons and open lines, all interleavings of edits and questions, questions interrupted at seeded statements',
     'The tests do one edit and one question at a time; a stale cached answer needs a question, an edit and the question again.',
     [P, L, PT],
     [('cached area and triangles are valid only for the coordinates they were computed from', 'PolygonLine._nodes, triangles, area in ' + P),
      ('edits act on shared points after duplicates were joined', 'PolygonLine.purge, move, rotate_about_origin, mirror_vertical in ' + P)],
     'Seeded search over histories; oracle: an independent model of the shape (list of nodes) with exact area and position. Edits '
     'themselves are not interrupted: they are not atomic.',
     observe=['PolygonLine'])

NOT_APPLICABLE = []


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None)
    NOT_APPLICABLE.append({'property': id, 'reason': reason})


exec(open(os.path.join(ROOT, 'tools', 'meta_more.py')).read())


def main():
    PROPS.sort(key=lambda p: p['id'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
            if p['observe']:
                d['anchors']['observe_at'] = list(p['observe'])
            if p['note']:
                d['anchors']['hook_needed'] = None
            f.write(json.dumps(d) + '\n')
    checks = []
    for p in PROPS:
        if p['note'] is None:
            continue
        assert os.path.exists(os.path.join(ROOT, 'sim', 'props', p['id'].lower() + '.py')), p['id']
        checks.append({'property': p['id'], 'quick_cmd': './check.sh %s' % p['id'],
                       'thorough_cmd': 'VERIF_TIER=thorough ./check.sh %s' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'exploration',
                       'level_note': p['note']})
    doc = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': NOT_APPLICABLE,
           'notes': 'No hooks in /repo: the code under test is instrumented at load time (sim/loader.py). '
                    'Replay of a reported violation: ./replay.sh <file>.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


main()
