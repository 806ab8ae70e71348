prop('C03', 'The markers of every wall lie on their true sides',
     'Every wall of every part (shell, cone, skirt, dished head, cone knuckle, also when cut at heights) has markers for its inner and for its '
     'outer side, and each lies on the side it stands for; a plate has markers above and below it and none with a side. This holds for '
     'every size, place, unit and orientation, every random draw and set order, and whenever the markers are made again.',
     ['inputs', 'schedules', 'histories'],
     'all parts of the six kinds with all proportions, places and units, up to three cuts, all random draws (also those at the ends of their '
     'range), all set orders',
     'Markers are placed at random along the wall; the tests look at the vessels of one process, at few sizes, under the draws that happen.',
     [H, P],
     [('markers at random places left and right of a wall, sorted by is_internal_point', 'Mantel.intex_points, KegelKrempe.intex_points in ' + H),
      ('markers of heads by their height, of plates above and below', 'TorispherischesBoden.intex_points, Flachboden.intex_points in ' + H),
      ('markers are renewed when a part is cut', 'Hauptteil.split in ' + H + ', Graph.renew in ' + G)],
     'Seeded search; oracle: the outline of the part by construction (exact even-odd rule).',
     observe=['Hauptteil.graph.internal', 'Hauptteil.graph.external', 'Hauptteil.graph.indifferent', 'Hauptteil.intex_points'])

prop('C06', 'A failing library or console makes questions fail, never lie',
     'When the triangulation library fails (with an error or for lack of memory) or output to the console fails while a question is answered '
     'or a vessel is made, the question fails or is answered rightly; the objects are unchanged, and with the failure gone the same and '
     'all other questions are answered as if there had been none.',
     ['fault_sequences', 'histories', 'inputs'],
     'all polygons, triangles and vessels, about 60 kinds of questions and the making of vessels, failures of any call of the library or the console, '
     'several times',
     'No test makes the library or the console fail; a swallowed failure shows as a wrong answer only under the right call.',
     [P, G, H],
     [('the library is called for a fresh list of triangles that is stored when complete', 'PolygonLine.triangle_mesh in ' + P),
      ('lazily computed loops, overlaps and markers', 'BehalterGraph.cycles in ' + G + ', Behalter.raum_intex in ' + H)],
     'Seeded search over questions and failing calls; oracle: the answer of an untouched object. The library fails by raising, not by answering '
     'wrongly.',
     technique='deterministic simulation with injected failures of the library and the console, seeded search',
     observe=['every query of PolygonLine, Triangle, Behalter'])

prop('C07', 'Independent objects do not influence each other however interleaved',
     'Tasks that each make and use objects of their own (polygons that are edited and asked, triangles, whole vessels) get what they get '
     'alone, however the steps of their work are interleaved.',
     ['schedules', 'inputs', 'histories'],
     'two to four tasks, all interleavings at statements, all polygons and vessels, edits and questions',
     'All tests run one thing at a time; state shared by accident (class attributes, default arguments, module globals) is invisible to them.',
     [P, G, H, L, PT],
     [('no state outside of the objects', 'default arguments and class attributes in all modules'),
      ('copies where objects are combined', 'PolygonGroup.cycles in ' + G)],
     'Seeded search over schedules; oracle: the model of the edited polygon, the answers of objects asked alone, the rooms by construction. '
     'Tasks are switched between statements, not within library calls.',
     technique='deterministic simulation with a seeded scheduler',
     observe=['PolygonLine', 'Triangle', 'Behalter'])

prop('C08', 'Tasks asking the same object at once get the answers they get alone',
     'However many tasks ask one polygon, triangle or vessel at the same time, in whatever interleaving, each gets the answers an untouched '
     'object gives, then and afterwards, and the object (and any other that a question is about) is unchanged.',
     ['schedules', 'inputs', 'histories'],
     'two to four tasks, about 60 kinds of questions, all interleavings at statements',
     'No test asks from two tasks; a question that changes the object for a moment (turns a segment around and back, stores a half-made answer) '
     'passes every sequential test.',
     [P, G, H],
     [('lazy answers are stored in one step, when complete', 'PolygonLine._set_triangles, area in ' + P + '; BehalterGraph.cycles in ' + G),
      ('questions work on copies', 'PolygonLine.ordered_copy, closed_copy, walk_segments in ' + P)],
     'Seeded search over schedules; oracle: the answers of an untouched object. Nobody edits the object meanwhile.',
     technique='deterministic simulation with a seeded scheduler',
     observe=['every query of PolygonLine, Triangle, Behalter'])

prop('C11', 'Cutting shells leaves geometry, wall types and vessel analysis intact',
     'After any sequence of cuts at heights, in which those outside of a part, at its ends or at earlier cuts are refused and change nothing, a '
     'shell is the same closed outline with exactly two walls between each two neighbouring heights, walls are walls and ends are none, every '
     'wall has its markers on the right sides, and a vessel of the cut parts has the same rooms and reports the same sides.',
     ['histories', 'inputs', 'schedules'],
     'all vessels of seven families, all sequences of up to three cuts at all heights of any of their parts',
     'The tests cut a shell once or twice at fixed heights and count segments.',
     [H, P, G],
     [('cut segments are replaced by two of the same type', 'Hauptteil.split in ' + H),
      ('the graph and its markers are renewed', 'Graph.renew in ' + G),
      ('adjoining segments of a loop', 'BehalterGraph.find_loops in ' + G)],
     'Seeded search over histories of cuts; oracle: outline, heights, rooms and sides by construction. Cuts keep 2 % of the height away from '
     'each other.',
     observe=['Hauptteil.split', 'Hauptteil.segments', 'Hauptteil.graph', 'Behalter.raum_intex'])

prop('C12', 'A ring is restored from segments in any order and direction, else refused',
     'Segments that form one ring are put into a chain that has exactly these segments and starts at the corner nearest to the origin, in whatever '
     'order and direction they arrive and whatever attempts were cut short before; segments that form no ring are refused. Ordering loses or '
     'doubles no segment, answered or cut short; walking along segments changes none, even when several tasks walk them at once.',
     ['inputs', 'crash_points', 'schedules', 'fault_sequences'],
     'all sets of up to 280 segments: rings, open lines, rings with tails or chords, several rings apart or joined, in any order and direction; a '
     'fault at any statement, up to three tasks',
     'The tests order a handful of polygons whose segments arrive in order or in one shuffled order; the number of orders and directions is '
     'factorial.',
     [P],
     [('segments are turned and sorted in a working list that replaces the old one at the end', 'PolygonLine.order in ' + P),
      ('walk along copies', 'walk_segments in ' + P)],
     'Seeded search; oracle: the multiset of undirected segments given and the kind they were generated as. walk_segments may overlook a single '
     'branch (not judged), but what it returns must be a ring of given segments.',
     technique='deterministic simulation with interrupts at seeded statements and a seeded scheduler',
     observe=['PolygonLine.order', 'walk_segments', 'PolygonLine.next_segment'])

prop('C13', 'What is drawn is what there is, also after the device failed',
     'A drawing of a polygon, triangle, group or vessel shows exactly its segments, points, triangles and rooms (each room in the area its walls '
     'enclose), also after earlier drawings were cut short at any point by the device, an interrupt, lack of memory or the triangulation '
     'library, and while another task asks the object. Drawing changes nothing, and later questions are answered as for what was never drawn.',
     ['fault_sequences', 'crash_points', 'inputs', 'schedules'],
     'all polygons, triangles, pairs and vessels, all options, a failure at any call of the device or any statement, up to twice',
     'The tests do not draw (the plotting library is not even there).',
     [P, G, H],
     [('triangles of the room as patches', 'Behalter.plot in ' + H),
      ('rooms without the rooms within', 'Raum.as_polygon in ' + H),
      ('lines and points', 'PolygonLine.plot in ' + P + ', PolygonGroup.plot in ' + G)],
     'Seeded search; the device is a recording stand-in for matplotlib; oracle: the segments of the object and the exact area of its rooms. Rooms '
     'whose walls cross are not judged.',
     technique='deterministic simulation with device failures and interrupts, seeded search',
     observe=['PolygonLine.plot', 'PolygonLine.plot_triangulation', 'PolygonGroup.plot', 'Behalter.plot'])

prop('C14', 'Making a vessel can be cut short, repeated and done by several at once',
     'Parts may be used for any number of vessels: when the making or asking of a vessel is cut short at any point (interrupt, lack of memory, '
     'failing library) the parts are unchanged and a vessel made of them afterwards reports what is right; so do all vessels made of the same '
     'parts one after the other in different orders, before or after a part was cut at a height, or by several tasks at once.',
     ['crash_points', 'schedules', 'histories', 'inputs'],
     'all vessels of nine families, all orders of parts, a fault at any statement or library call of making and asking, up to three tasks',
     'Every test makes its parts afresh and one vessel from them.',
     [H, G],
     [('the graph of a vessel is made of copies of the graphs of its parts', 'BehalterGraph, representative_graph in ' + G),
      ('rooms are looked for when a vessel is made', 'Behalter.raum_erstellen in ' + H)],
     'Seeded search; oracle: rooms and sides by construction. Vessels cut by a raumende are made in turn only.',
     technique='deterministic simulation with interrupts at seeded statements and a seeded scheduler',
     observe=['Behalter', 'Behalter.raum_intex', 'Hauptteil.segments'])

prop('C15', 'A copy and its original do not influence each other',
     'After a copy was taken (deep or closed copy, a walk around the polygon, a copy of one of its triangles, of a whole vessel), at whatever '
     'point of its history, edits and questions of the one, in any order or by several tasks at once, leave the others untouched: each answers '
     'by its own history.',
     ['histories', 'inputs', 'schedules'],
     'all simple polygons, trees of up to four copies taken at any time, all sequences of edits and questions, all interleavings; vessels of '
     'four families with cuts and moves',
     'The tests compare a copy with its original once, right after it was taken; a shared point or cache shows only when one is edited and '
     'the other asked later.',
     [P, G, H, PT, L],
     [('copies have points and segments of their own', 'PolygonLine.closed_copy, ordered_copy in ' + P),
      ('walks work on copies', 'walk_segments in ' + P),
      ('caches are valid for coordinates, not for objects', 'PolygonLine.area, triangles in ' + P)],
     'Seeded search over histories; oracle: one independent model per copy.',
     observe=['PolygonLine', 'Triangle', 'Behalter'])

prop('C16', 'How two triangles or polygons lie to each other is told truly',
     'For every two triangles (apart, crossing, one inside the other, with a common edge or corner, or the same; with corners that coincide or '
     'keep clear of the edges of the other) whether they overlap, touch along an edge, are disjunct, congruent or enclosed is answered truly, '
     'and where the relation is symmetric the same both ways round; likewise whether two polygons are disjunct. This holds for every random '
     'draw and order, on every repetition, after questions cut short, and whatever rigid motions both have gone through.',
     ['inputs', 'schedules', 'crash_points', 'histories'],
     'all pairs of triangles and of simple polygons in such positions, all draws and orders, all histories of common motions, a fault at any '
     'statement of a question',
     'Relations rest on probing rays drawn at random, on cached triangulations and on pairs of segments taken from sets; the tests ask for '
     'eight pairs once.',
     [P, L, PT],
     [('relations of triangles', 'Triangle.overlap, touch, disjunct, congruent, enclosed in ' + P),
      ('polygons are disjunct if their triangles are', 'PolygonLine.disjunct in ' + P),
      ('what two segments have in common', 'LineSegment.common_part, common_part_type in ' + L)],
     'Seeded search over pairs, draws and histories; oracle: exact area of the intersection and common edges over rationals.',
     observe=['Triangle', 'PolygonLine.disjunct'])

prop('C17', 'The graph of a group of lines is that of their present segments',
     'For every group of lines that meet in common end points, the numbers of its points (each point one, from 0 on), their neighbours, by '
     'point and by number, the degree of a point, the representative graph, the list of all segments, the lines that run between given points and '
     'the validity of the group (no loose ends, no point of more than three segments, an even number of branches) are those of the present '
     'segments of its lines: after lines were moved, turned, replaced or added, after questions cut short, when several tasks ask at once, in '
     'every order of the lines and of sets. Asking changes no line.',
     ['inputs', 'histories', 'crash_points', 'schedules'],
     'all groups of non-crossing lines that meet in end points, all histories of edits and questions, a fault at any statement of a question, all '
     'interleavings of up to three tasks',
     'The tests ask a group right after it was made, and only once.',
     [G, P],
     [('numbering and adjacency', 'PolygonGroup.points_numbered, as_adjacency_list, representative_graph in ' + G),
      ('validity by node degrees', 'PolygonGroup.isvalid in ' + G)],
     'Seeded search over groups, histories, fault points and schedules; oracle: a graph made from lists of corners.',
     'deterministic simulation with interrupts at seeded statements and a seeded scheduler',
     observe=['PolygonGroup'])


prop('C18', 'A part has the outline that its measures demand',
     'Every part (shell, cone, skirt, dished heads of both kinds, plate, room end, and the knuckle of a cone together with the shells, cone and '
     'skirt that it shortens) has, after it was made from arguments or from a dictionary, the closed outline that its measures demand, its '
     'edges being walls where there are walls, and is of the kind asked for and valid; a dictionary that lacks an entry or has an unknown one is refused. This '
     'holds for all measures, places and units, under every draw and order, when several tasks make parts at once, when earlier '
     'attempts were cut short or refused, for copies, and for whatever edits and questions follow.',
     ['inputs', 'schedules', 'crash_points', 'histories'],
     'all parts with cones not flatter than 1:4, all sequences of moves, turns, mirrorings, copies and questions, a fault at any statement of the '
     'making, all interleavings of up to four tasks',
     'The tests make some thirty parts of round measures around the origin, one after the other, and look at few of their corners.',
     [H, P, L],
     [('outlines from measures', 'make_segments of Mantel, TorispherischesBoden, KegelKrempe in ' + H),
      ('parts from dictionaries', 'from_dict in ' + H),
      ('validity of shells and cones', 'Mantel.isvalid in ' + H)],
     'Seeded search over measures, histories, fault points and schedules; oracle: the outline calculated from the measures.',
     'deterministic simulation with faults at seeded statements and a seeded scheduler',
     observe=['Hauptteil.segments'])


LOCAL = 'A pure function of its arguments: it draws nothing, keeps no state, and cannot be interleaved or interrupted with an effect; there is ' \
        'nothing for a simulator to decide. '

na('N01', 'Segment predicates are exact for all pairs of segments',
   'For every two segments, whether they intersect (inside or at endpoints), overlap, are parallel or collinear, the intersection point, the '
   'common part and the distance of a point are the geometrically true ones.',
   ['inputs'], 'all pairs of segments in any position', 'The tests hold a few dozen pairs.', [L, PT],
   [('intersection, overlap and common part', 'LineSegment.intersection_point, overlap, common_part in ' + L)],
   LOCAL + 'Property-based testing or symbolic analysis of the formulas is the fitting method. What other properties rely on is exercised through them.')
na('N02', 'The convex hull is the smallest convex polygon that has all points',
   'For every set of points, convex_hull returns the hull, in order and without points on its edges.',
   ['inputs'], 'all finite sets of points', 'The tests hold two sets.', [P], [('monotone chain', 'convex_hull in ' + P)], LOCAL)
na('N04', 'The outlines of heads, shells and knuckles are those of their dimensions',
   'The segments of each part are those that its norm and dimensions prescribe (radii of dished heads, tangent points of knuckles).',
   ['inputs'], 'all admissible dimensions', 'The tests hold a few dimensions.', [H], [('make_segments', 'make_segments of each class in ' + H)],
   LOCAL + 'The outlines of shells, cones and knuckles without radius are checked in C03 and C11 as far as the analysis needs them.')
na('N05', 'Reports are compared up to renaming of rooms',
   'raum_dict_checker accepts two reports exactly if one is the other under some renaming of the rooms.',
   ['inputs'], 'all pairs of reports', 'The tests hold a few pairs.', [H], [('raum_dict_checker', 'raum_dict_checker in ' + H)],
   LOCAL + 'The checks here do not use it; they compare with the model under every renaming themselves.')
na('N06', 'Equality and hashes of points, segments and polygons agree',
   'Objects that are equal have equal hashes, and equality is an equivalence.',
   ['inputs'], 'all pairs of points, segments, polygons', 'The tests compare a few pairs.', [PT, L, P],
   [('__eq__ and __hash__', 'Point in ' + PT + ', LineSegment in ' + L + ', PolygonLine in ' + P)],
   LOCAL + 'By design points are equal within a tolerance but hashed exactly, so it does not hold in full; the polygon hash that depended on memory '
   'addresses did show in the simulation of C02 (fixed).')
