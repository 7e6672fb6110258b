#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and vc/props.json (run it to regenerate all three)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'include/'
P = []
def prop(id, title, statement, over, text, why, files, mech, claim=True, level='proof', note='', technique=None, na=None, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claim=claim, level=level, note=note, technique=technique, na=na, kw=kw))
TESTS = 'The test programs only run whole searches on a few cubic, perfect mazes of one to four dimensions and look for a path; '
DV = 'contract-based deductive verification: VC generation over the LLVM IR of the real templates, obligations discharged by z3/cvc5'

prop('A01', 'Coordinates and linear indices correspond one to one',
  'For every grid size with a cell count that the index type represents, the linear index of a coordinate is its row-major rank, with the first axis fastest. The conversion back from an index yields the coordinate it came from, and both directions stay in range. This holds in every number of dimensions.',
  ['inputs', 'configurations'], 'all sizes (cell count representable in the coordinate type), all coordinates and indices; dimensions 1..6 (forward) and 1..5 (backward), 32- and 64-bit coordinates',
  TESTS + 'they use equal extents, where a wrong axis order or stride cancels out or is not observed.',
  [I+'utils/utils.hpp', I+'types/containers/coord.hpp'], [('to_1d', I+'utils/utils.hpp'), ('to_nd', I+'utils/utils.hpp')],
  note='loops are unrolled by the dimension, which is a template parameter: complete for each instantiated dimension and type')
prop('A02', 'The extent product and the cell count are exact',
  'The product of the extents of a grid equals the mathematical product whenever that is representable, and the size that the grid reports and allocates equals it. No intermediate step overflows in that case.',
  ['inputs', 'configurations'], 'all extents of 8-, 16-, 32- and 64-bit coordinates in 1..4 dimensions with a representable product',
  TESTS + 'they never come near the range limits of the coordinate type and never use unequal extents.',
  [I+'utils/utils.hpp', I+'mazes/grid.hpp'], [('product', I+'utils/utils.hpp'), ('count / size', I+'mazes/grid.hpp')], note='complete for each instantiated dimension and type')
prop('G01', 'Axis neighbours are exactly the adjacent cells that lie in the grid',
  'For every grid and every cell in it, asking for the axis-aligned neighbours visits one entry per direction. An entry is marked reachable exactly when the adjacent coordinate lies inside the grid and its cell is not blocked, and it then carries exactly that coordinate. No cell outside the grid is ever read.',
  ['inputs', 'configurations'], 'all grids (any extents with representable cell count, any cell values), all cells; 1..4 dimensions, byte, bit and word cells, asked by coordinate and by index',
  TESTS + 'a wrong neighbour on a border of a non-cubic grid, or a read past the cells, is never asked for or not seen.',
  [I+'mazes/grid.hpp'], [('get_neighbours', I+'mazes/grid.hpp'), ('get_dir_axis', I+'mazes/grid.hpp')], note='complete for each instantiated dimension and cell type; cells are an arbitrary symbolic array')
prop('G02', 'Diagonal neighbours are exactly the surrounding cells that lie in the grid',
  'For every grid and every cell in it, asking for the neighbours including diagonals visits one entry per surrounding cell, of which there are 3^K - 1. An entry is marked reachable exactly when its coordinate lies inside the grid and its cell is not blocked, and it carries exactly that coordinate. No cell outside the grid is ever read.',
  ['inputs', 'configurations'], 'all grids and cells; 1..3 dimensions, byte and bit cells, by coordinate and by index',
  'No test searches with diagonal neighbours at all.', [I+'mazes/grid.hpp'], [('get_neighbours<true>', I+'mazes/grid.hpp'), ('get_dir_diagonal', I+'mazes/grid.hpp')],
  note='complete for each instantiated dimension and cell type')
prop('G03', 'Cell access, membership and direction queries agree with the stored cells',
  'Reading a cell by coordinate or by index, writing it, asking whether a coordinate or index belongs to the grid, asking whether a step in a direction leads to an active cell, and building a grid from given cells all agree with one array of cells in row-major order. A cell is transitory exactly when two of its axis neighbours are active. A write changes that one cell only.',
  ['inputs', 'configurations'], 'all grids, cells, coordinates and written values; 1..5 dimensions for access, 1..3 for directions',
  TESTS + 'most of these entry points are not called by any test (one of them did not compile).',
  [I+'mazes/grid.hpp'], [('at / operator[] / contains', I+'mazes/grid.hpp'), ('is_transitory / get_dir', I+'mazes/grid.hpp')], note='complete for each instantiated dimension and cell type; native bounded runs besides')
prop('G04', 'A graph holds exactly the nodes and edges it was given',
  'After any sequence of operations a graph contains exactly the nodes that were added and not removed, each with exactly the edges that were added and not removed, as often as they were added. Removing an edge removes all copies of it, and its node only when no other edge of it is left. Counting, membership and listing agree with that.',
  ['inputs', 'histories'], 'every single operation from an arbitrary graph with any number of nodes and edges, including edges passed from the graph itself; native histories of operations besides',
  'The one generator of graphs in the tests is not called; no test builds a graph, removes an edge or counts nodes.', [I+'mazes/graph.hpp'],
  [('add / remove', I+'mazes/graph.hpp'), ('contains / count / get_neighbours', I+'mazes/graph.hpp')],
  note='add, remove, contains, count, get_neighbours, operator[] and clear proved against a contract of std::unordered_map; the constructor from lists, moves and iteration only in the bounded native histories',
  assumptions=['std::pmr::unordered_map is a map whose entries stay where they are, and std::remove keeps, in order, what differs from the value (contracts in harness/graphs.cpp)', 'std::vector bodies are executed; their element-wise algorithms are replaced by contracts (vc/contracts.py)', 'a node has fewer than 2^40 edges'], bounded_s=dict(quick=10, thorough=120))
prop('G05', 'Compiling a grid to a graph and pruning keep all distances',
  'A graph compiled from a grid, and a graph of undirected edges that is pruned, keep the distance between any two of the nodes that are left, including that there is no way. Nodes are only left out, never added; every edge leads to a node of the graph; dead ends stay, and no node that only joins two others is left. Edges are added by one thread at a time.',
  ['inputs', 'schedules'], 'pruning: every undirected multigraph with positive weights whose sums are representable (proved, any number of rounds); compiling: all grids of 3x3, 2x4 and 4x2 cells (quick: a sample), random grids of 1 to 4 dimensions up to 25x25, and random undirected multigraphs of up to eight nodes, natively with sanitizers; threads as the system schedules them',
  'No test compiles a grid or prunes a graph.', [I+'mazes/graph.hpp'],
  [('graph(const grid&)', I+'mazes/graph.hpp'), ('prune', I+'mazes/graph.hpp')],
  note='pruning proved by an invariant over one visit of an arbitrary node, and run natively besides; compiling is bounded: native runs against distances computed independently', assumptions=['std::pmr::unordered_map, std::vector of the nodes to remove and std::find satisfy their contracts (harness/prune.cpp)', 'std::vector bodies are executed; their element-wise algorithms are replaced by contracts (vc/contracts.py)', 'the edges of the graph to prune are undirected, their weights positive and the sums of those at a node representable'], bounded_s=dict(quick=30, thorough=300))
prop('H01', 'Integer distances are exact, symmetric and never overestimate a step',
  'For coordinates whose distance is representable, the Manhattan, Chebyshev and squared Euclidean distances equal their mathematical definition and are symmetric. The first two change by at most one when a coordinate moves by one step along an axis. No intermediate arithmetic overflows or wraps.',
  ['inputs', 'configurations'], 'all pairs of coordinates with a representable distance; 1..4 dimensions, signed and unsigned 32- and 64-bit scalars',
  TESTS + 'a search that uses a slightly wrong estimate still solves a perfect maze, in which only one path exists.',
  [I+'utils/heuristics.hpp'], [('manhattan_distance', I+'utils/heuristics.hpp'), ('chebyshev_distance', I+'utils/heuristics.hpp'), ('sqr_euclidean_distance', I+'utils/heuristics.hpp')],
  note='integer scalars proved; floating-point scalars only in a bounded native run')
prop('U01', 'The numeric helpers compute what they say without overflow',
  'Minimum, maximum, absolute value, sign and integer powers return the mathematical result for every argument whose result is representable. They do not wrap, trap or assert on such an argument.',
  ['inputs'], 'all arguments of the integer types with representable results; exponent by loop over its bits', TESTS + 'the helpers are reached with small positive arguments only.',
  [I+'utils/utils.hpp'], [('min / max / abs / sign / powui', I+'utils/utils.hpp')], note='integer types; the power loop is complete by the width of the exponent as far as results are representable')
prop('U02', 'Durations are printed in the right unit with their value',
  'The text of a duration ends with the unit in which its magnitude is at least one, or with nanoseconds for anything smaller, and the number before it is the duration in that unit rounded to the given scale. Trimming a numeral keeps its numeric value and leaves no redundant zeros or bare decimal point at its end.',
  ['inputs'], 'trimming: numerals of any length (proved); otherwise random durations of either sign over 60 binary magnitudes with three scales; the integers below 20000 and decimals of up to four places, natively with sanitizers', 'No test looks at the text; the examples print it.',
  [I+'utils/utils.hpp'], [('to_string', I+'utils/utils.hpp'), ('trim_trailing_zeros', I+'utils/utils.hpp')],
  assumptions=['std::string::find and find_last_not_of satisfy their contracts (harness/text.cpp)'], note='trimming proved for every numeral; unit and rounding bounded: native runs only, since they are long-double arithmetic and std::to_string, which the verifier does not reach', bounded_s=dict(quick=8, thorough=60))
prop('C01', 'The visited set answers membership exactly',
  'After any operation on the set, a hash is reported as contained exactly when it was pushed and not removed since, whatever capacity was allocated, reserved, trimmed or released meanwhile. Copies, moves and assignments keep the members and leave the source as specified.',
  ['inputs', 'histories'], 'every single operation from an arbitrary state of any size and content (hence every history), with byte slots; native histories also with bit slots and trimming',
  TESTS + 'they push in a few patterns only, never erase, trim, copy or assign a set.', [I+'types/containers/existence_set.hpp'],
  [('push / emplace / erase / contains', I+'types/containers/existence_set.hpp'), ('allocate / reserve / resize / trim', I+'types/containers/existence_set.hpp')],
  note='each operation proved from an arbitrary representation; trimming is bounded', assumptions=['std::vector bodies are executed; their element-wise algorithms are replaced by contracts (vc/contracts.py)', 'allocation sizes are below 2^40 elements'])
prop('C02', 'The stack is last in, first out',
  'After any operation on a stack its elements are those pushed and not popped, in order: the top is the element pushed last, popping uncovers the one pushed before it, and nothing below changes. Copies and moves keep the elements.',
  ['inputs', 'histories'], 'every single operation from an arbitrary stack of any size, capacity and content; native histories besides', 'One test pushes and pops through one solver; pushing an existing object did not even compile.',
  [I+'types/containers/stack.hpp'], [('push / emplace / pop / top', I+'types/containers/stack.hpp')], note='each operation proved from an arbitrary representation (32- and 64-bit elements); other element types bounded',
  assumptions=['std::vector bodies are executed; their element-wise algorithms are replaced by contracts (vc/contracts.py)'])
prop('C03', 'The queue is first in, first out',
  'After any operation on a queue its elements are those pushed and not popped, in order: the front is the oldest element, popping removes it and keeps the order of the others, and pushing adds at the end. Copies and moves keep the elements.',
  ['inputs', 'histories'], 'every single operation from an arbitrary queue of any size and content; native histories besides', 'The tests use a queue only inside breadth-first searches on perfect mazes, where any order solves the maze.',
  [I+'types/containers/queue.hpp'], [('push / emplace / pop / front', I+'types/containers/queue.hpp')], note='proved against a contract of the underlying std::deque (harness/stubs/deque); the real deque is exercised by the bounded native run',
  assumptions=['std::pmr::deque satisfies its sequence contract (harness/stubs/deque)'])
prop('C04', 'The heap yields a smallest element and keeps its order',
  'For every number of children per node, every operation of the heap leaves every element no better than its parent. The top is therefore an element that no other element precedes, and popping everything yields the elements in order. This holds after insertion, removal at any place, update and build from unordered elements.',
  ['inputs', 'histories'], 'every single operation from an arbitrary heap of any size, capacity and content; 2, 3 and 4 children; ascending and descending comparison',
  'No test looks at the order in which a heap yields elements: a perfect maze is solved in any order.', [I+'types/containers/heap.hpp'],
  [('sort_up / sort_down / heapify', I+'types/containers/heap.hpp'), ('insert / erase / dequeue / reheapify', I+'types/containers/heap.hpp')],
  note='loops cut by invariants (no bound on the size); each operation proved from an arbitrary heap against the contracts of sort_up and sort_down, which are proved separately; element type int; other element types bounded',
  assumptions=['std::vector bodies are executed; their element-wise algorithms are replaced by contracts (vc/contracts.py)', 'heap sizes are below 2^30 elements', 'the comparison is a strict weak order (the instantiations use std::less and std::greater)'])
prop('C05', 'The heap holds exactly the elements put in and not taken out',
  'Every operation of the heap keeps its elements as a multiset: insertion adds the given element, removal takes away exactly the named one, update replaces one and build adds all the given ones. No other element is lost, doubled or altered, no memory outside the elements is touched, and iteration meets each element once.',
  ['inputs', 'histories'], 'every single operation from an arbitrary heap of any size, capacity and content; 2, 3 and 4 children',
  'The tests use insertion and extraction by a search that stops at the first path found; removal, ranges and iteration are never run.', [I+'types/containers/heap.hpp'],
  [('insert / emplace / enqueue', I+'types/containers/heap.hpp'), ('erase / dequeue / begin / end', I+'types/containers/heap.hpp')],
  note='loops cut by invariants; contents are compared by a symbolic element count over the array; element type int; other types bounded',
  assumptions=['std::vector bodies are executed; their element-wise algorithms are replaced by contracts (vc/contracts.py)', 'heap sizes are below 2^30 elements'])
POOL = dict(bounded_s=dict(quick=12, thorough=150), assumptions=['std::vector bodies are executed; their element-wise algorithms are replaced by contracts (vc/contracts.py)', 'requests are below 2^40 bytes except in M04', 'memory that the pool hands out is released with the size and alignment it was requested with'])
prop('M01', 'The monotonic pool hands out aligned memory that nothing else uses',
  'Every allocation is aligned as asked, lies entirely inside memory that the pool owns, and overlaps no allocation made since the last reset or release. Reset, release and destruction give every block back exactly once. A request that cannot be met is refused.',
  ['inputs', 'histories'], 'every single allocation of any size and power-of-two alignment (up to 256) from an arbitrary state of the pool, for two sizes of the stack block; releases with up to three blocks; native histories besides',
  'The tests allocate through containers in a few patterns and cannot see an overlap, a misaligned address or a lost block.', [I+'types/pmr/monotonic_pool.hpp'],
  [('do_allocate / expand', I+'types/pmr/monotonic_pool.hpp'), ('release / reset / cleanup', I+'types/pmr/monotonic_pool.hpp')],
  note='allocation proved from an arbitrary state; release and reset bounded to three blocks (counted separately)', **POOL)
prop('M02', 'The homogeneous pool hands out aligned memory that nothing else uses',
  'When all requests have one size and one alignment, every allocation is aligned, lies entirely inside memory that the pool owns, and overlaps no outstanding allocation, also after memory was handed back and after a reset. Release and destruction give every block back exactly once.',
  ['inputs', 'histories'], 'every single allocation and deallocation from an arbitrary state of the pool, for two sizes of the stack block; splitting of new blocks up to four chunks; native histories besides',
  'The tests allocate search nodes in one pattern and cannot see an overlap, a misaligned address or a lost block.', [I+'types/pmr/homogeneous_pool.hpp'],
  [('do_allocate / do_deallocate / expand', I+'types/pmr/homogeneous_pool.hpp'), ('reset / release', I+'types/pmr/homogeneous_pool.hpp')],
  note='allocation from the stack block and the free list and deallocation proved from an arbitrary state; splitting of a new block, release and reset bounded (counted separately)', **POOL)
prop('M03', 'The heterogeneous pool hands out aligned memory that nothing else uses',
  'For requests of any sizes and alignments, every allocation is aligned as asked, lies entirely inside memory that the pool owns, and overlaps no outstanding allocation, also when memory is reused and after a reset. Release and destruction give every block back exactly once.',
  ['inputs', 'histories'], 'every single allocation and deallocation from an arbitrary state of the pool, for two sizes of the stack block, with an arbitrary set of free regions; releases with up to three blocks; native histories besides',
  'The tests allocate the open list of a search and cannot see an overlap, a misaligned address or a lost block.', [I+'types/pmr/heterogeneous_pool.hpp'],
  [('do_allocate / allocate_from_free / expand', I+'types/pmr/heterogeneous_pool.hpp'), ('reset / release', I+'types/pmr/heterogeneous_pool.hpp')],
  note='allocation and deallocation proved against a contract of std::map (harness/stubs_map); release and reset bounded to three blocks (counted separately)',
  trusted=['std::map satisfies its contract in harness/stubs_map/map'], **POOL)
prop('M04', 'A failing allocation is reported and leaves the pool usable',
  'When the system has no memory left, or a request is too large to exist, an allocation from any of the three pools ends with std::bad_alloc. It then keeps no memory, loses no block, and changes no memory that is in use; the pool works as before afterwards.',
  ['inputs', 'fault_sequences'], 'every single allocation of any 64-bit size from an arbitrary state, with every choice of which system allocations fail; native histories with injected failures besides',
  'No test makes an allocation fail.', [I+'types/pmr/monotonic_pool.hpp', I+'types/pmr/homogeneous_pool.hpp', I+'types/pmr/heterogeneous_pool.hpp'],
  [('expand', I+'types/pmr/monotonic_pool.hpp'), ('expand', I+'types/pmr/homogeneous_pool.hpp'), ('expand', I+'types/pmr/heterogeneous_pool.hpp')],
  note='proved from an arbitrary state; splitting of a new block of the homogeneous pool bounded to four chunks', trusted=['std::map satisfies its contract in harness/stubs_map/map'], **POOL)
SOL = I+'solvers/'
PROVED = 'bfs, gbfs, dfs, gdfs, best_first, gbest_first, dijkstra, fringe, astar, gstar (both sortings, forward and reversed), mgstar while its memory limit is not reached, each on mazes and on graphs, flood, iddfs, eiddfs, idastar, eidastar, idbest_first and eidbest_first are proved (that the deepening searches and the rounds of fringe end: bounded runs only); the others (jps, gjps, smastar, osmastar) have bounded native runs only, which are labelled bounded'
SEARCH = dict(budget=dict(quick=480, thorough=2400), assumptions=['containers, pools and neighbour enumeration behave as C01-C05, G01-G03 and M01-M04 state (contracts in harness/search_stub.hpp)', 'the estimate of a node is an arbitrary but fixed number'])
prop('S01', 'Solving returns the route of one search, or nothing where there is none',
  'When the start or the end lies outside the maze or is blocked, solving returns an empty route without searching. When start and end are the same free node, the route is that node alone. In every other case exactly one search runs, with the parameters given, and its route is returned unchanged. An exception of the search reaches the caller. This holds for every way to call a solver.',
  ['inputs', 'configurations'], 'all mazes (arbitrary answers of the maze), all starts and ends inside the extents, every result and exception of the search; 1..3 dimensions, prepared parameters, plain arguments and the call operator',
  'The tests call solvers with free, distinct ends that are always connected, and by one of the entry points only.', [SOL+'base/solver.hpp'],
  [('solve / operator()', SOL+'base/solver.hpp')], note='the solver is an arbitrary search (contract), so the proof holds for all solvers; its route has up to two nodes', assumptions=['start and end lie inside the extents of the maze (a state is a coordinate of the maze)'])
prop('S02', 'A returned route is a walk through free adjacent cells between its ends',
  'Whenever a solver returns a route, consecutive cells of it are neighbours in the maze, every cell is inside the maze and free, and the route leads between start and end, in one of the two directions; the solver may leave out the first or the last cell of the walk. On weighted graphs consecutive nodes are joined by an edge. Diagonal steps appear only when asked for.',
  ['inputs', 'configurations', 'histories'], 'all mazes, any number of nodes and neighbours, starts, ends and estimates for the proved solvers; otherwise all small mazes and random larger ones in 1..4 dimensions',
  'The tests only check that a path is found in perfect mazes; a route that crosses a wall or skips a cell passes.', [SOL+'base/solver.hpp', SOL+'astar.hpp', SOL+'bfs.hpp', SOL+'gstar.hpp'],
  [('rbacktrack / rbacktrack_noreverse', SOL+'base/solver.hpp'), ('execute', SOL+'astar.hpp')], note=PROVED, bounded_s=dict(quick=8, thorough=300), **SEARCH)
prop('S03', 'A search finds a route whenever one exists, and ends',
  'On every finite maze a solver comes to an end. It returns a route when start and end are connected through free cells, and an empty route when they are not. With jump point search on diagonal steps, a connection that squeezes between two blocked corners does not count.',
  ['inputs', 'configurations', 'histories'], 'all mazes, any number of nodes and neighbours, starts, ends and estimates for the proved solvers; otherwise all small mazes and random larger ones in 1..4 dimensions, with memory enough',
  'The tests use mazes without loops or open areas and never one without a route.', [SOL+'base/solver.hpp', SOL+'astar.hpp', SOL+'bfs.hpp', SOL+'gstar.hpp'],
  [('execute', SOL+'bfs.hpp'), ('execute', SOL+'idastar.hpp')], note=PROVED, bounded_s=dict(quick=8, thorough=300), **SEARCH)
prop('S04', 'Optimal solvers return a shortest route',
  'On a maze where every step costs one and the estimate never exceeds the true distance nor changes by more than one in a step, the route of bfs, gbfs, dijkstra, iddfs, eiddfs, idastar, eidastar, mgstar, fringe, smastar, osmastar, and of astar and gstar with immediate sorting, has the least possible number of steps between start and end. On graphs with positive weights dijkstra with immediate sorting returns a route of least total weight. Diagonal steps count as one and are covered for bfs, gbfs, dijkstra, iddfs, eiddfs, idastar and eidastar.',
  ['inputs', 'configurations', 'histories'], 'all mazes with any number of nodes for bfs, gbfs, dijkstra, astar, gstar, mgstar, fringe, iddfs, eiddfs and idastar, all graphs for dijkstra; otherwise all small mazes and random larger ones in 1..4 dimensions',
  'No test looks at the length of a path, and in a perfect maze there is only one simple path.', [SOL+'bfs.hpp', SOL+'astar.hpp', SOL+'dijkstra.hpp'],
  [('execute', SOL+'bfs.hpp'), ('execute', SOL+'gbfs.hpp'), ('execute', SOL+'astar.hpp')],
  note='bfs, gbfs, fringe, mgstar (memory limit not reached), iddfs, eiddfs and idastar, and dijkstra, astar and gstar with immediate sorting, forward and reversed, are proved (dijkstra on graphs with any positive weights, too); the others have bounded native runs, labelled bounded', bounded_s=dict(quick=8, thorough=300), **SEARCH)
prop('S05', 'A search hands back all its memory and leaves its pools ready for the next',
  'During and after a search, memory taken from a caller\'s memory resource is returned to the same resource with the size and alignment it was taken with; the resource for equal nodes sees one size only. After the search each resource that can be reset is reset exactly once, also when the search fails with an exception, unless the caller asked to keep the memory. No memory of the system leaks, and the same search with the same resources again gives the same route.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'], 'all ways a search can end, for the cleanup; small mazes and random larger ones in 1..4 dimensions with failing allocations for the memory of each solver',
  'The tests run every search once with fresh pools and look at nothing but the path.', [SOL+'base/solver.hpp', SOL+'gstar.hpp'],
  [('reset_resources / release_resources', SOL+'base/solver.hpp'), ('execute', SOL+'gstar.hpp')],
  note='the cleanup is proved for an arbitrary search; the memory of each of the 22 solvers has bounded native runs only, labelled bounded', bounded_s=dict(quick=8, thorough=300), budget=dict(quick=480, thorough=2400))
prop('N01', 'Nodes that searches share are counted exactly',
  'In solvers whose nodes count the nodes that point at them, the counter of a node always equals the number of living nodes whose parent it is. A node is given back as soon as nothing points to it any more and it is not pending, every ancestor that becomes unused with it is given back too, and no node is given back twice or while it is in use.',
  ['inputs', 'histories', 'configurations'], 'all mazes with any number of nodes and neighbours for gbfs, gdfs, gbest_first and gstar; chains of any length',
  'A wrong counter shows only as a use after free or a leak under particular orders of expansion; the tests do not look.', [I+'solvers/base/managed_node.hpp', SOL+'gstar.hpp'],
  [('expunge', I+'solvers/base/managed_node.hpp'), ('execute', SOL+'gstar.hpp')], note='proved', bounded_s=dict(quick=8, thorough=300), budget=dict(quick=480, thorough=2400),
  assumptions=['containers, pools and neighbour enumeration behave as C01-C05, G01-G03 and M01-M04 state (contracts in harness/search_stub.hpp)'])
#--PROPS--
def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
    man = dict(version=1, setup_cmd='python3-vt vc/setup.py', checks=[], not_applicable=[])
    cfg = {}
    for p in P:
        if p['claim']:
            man['checks'].append(dict(property=p['id'], quick_cmd='python3-vt vc/check.py %s quick' % p['id'], thorough_cmd='python3-vt vc/check.py %s thorough' % p['id'],
                technique=p['technique'] or DV, level=p['level'], level_note=p['note'] or p['text']))
            cfg[p['id']] = dict(level=p['level'], **p['kw'])
        else: man['not_applicable'].append(dict(property=p['id'], reason=p['na']))
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
    json.dump(cfg, open(os.path.join(V, 'vc', 'props.json'), 'w'), indent=1); open(os.path.join(V, 'vc', 'props.json'), 'a').write('\n')
def design():
    import re, glob
    H = {}
    p = os.path.join(V, 'vc', 'how.md')
    for m in re.finditer(r'^## (\w+)\n(.*?)(?=^## |\Z)', open(p).read(), re.S | re.M): H[m.group(1)] = m.group(2).strip()
    o = []
    for q in P:
        if not q['claim']: continue
        o.append('### %s %s\n\n%s\n\n*Over*: %s.\n\n*Decided by*: %s\n\n*Reach and bounds*: %s.' % (q['id'], q['title'], q['statement'], q['text'], H.get(q['id'], ''), q['note'] or q['text']))
        if q['kw'].get('assumptions') or q['kw'].get('trusted'): o[-1] += '\n\n*Assumed*: ' + '; '.join(q['kw'].get('assumptions', []) + q['kw'].get('trusted', [])) + '.'
    na = ['* **%s %s**: %s' % (q['id'], q['title'], q['na']) for q in P if not q['claim']]
    fx = ['* `%s` %s: %s' % (m.group(2), m.group(1), m.group(3)) for m in re.finditer(r'^fixed: property=(\S+) (\S+) (.*)$', open(os.path.join(V, 'known-findings.txt')).read(), re.M)]
    pl = ['| planted bug | needs | caught by |', '|---|---|---|']
    cf = os.path.join(V, 'vc', 'caught.json'); C = json.load(open(cf)) if os.path.exists(cf) else {}
    for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); pl.append('| %s | %s | %s |' % (i, m['needs'], C.get(i, '')))
    t = open(os.path.join(V, 'vc', 'design.in.md')).read()
    for k, v in (('@PROPS@', '\n\n'.join(o)), ('@NA@', '\n'.join(na) + '\n\n' + H.get('NA', '')), ('@FIXES@', '\n'.join(fx)), ('@PLANTS@', '\n'.join(pl))): t = t.replace(k, v)
    open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
if __name__ == '__main__':
    main()
    if os.path.isdir(os.path.join(V, 'seeded')): design()
