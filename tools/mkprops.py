import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**kw)))
S='spatialops/structured/'
p('C01','Window index maps are exact and mutually inverse',
 'For every memory window that lies inside its parent block, the flat index of a window point is its Fortran-order position in the parent (x fastest, shifted by the window offset) and lies inside the allocation. Converting a flat parent index or a flat window index back to a triplet recovers the point it came from. Hence distinct points of one window never share storage.',
 ['inputs'],'all parent sizes, offsets and extents with extent>=1 and offset+extent<=parent, all points of the window',
 'The tests enumerate a few small windows (a handful of sizes); the map must be exact for every size/offset combination, including degenerate axes.',
 [S+'MemoryWindow.h',S+'MemoryWindow.cpp'],[('flat_index / ijk_index_from_global / ijk_index_from_local / ijk_to_flat',S+'MemoryWindow.h')])
p('C02','Partitioning a window covers it exactly once',
 'Splitting a window into a grid of sub-windows, for any requested number of pieces per axis that fits, yields pieces that all lie inside the original window, keep its parent, are pairwise disjoint and together contain every point of it. Pieces of equal requests differ by at most one point per axis.',
 ['inputs'],'all windows, all split triplets with 1<=pieces<=extent per axis, all locations, all points',
 'The existing tests split two or three small windows; a cover/disjointness error at a particular remainder is invisible to them.',
 [S+'MemoryWindow.h',S+'MemoryWindow.cpp'],[('MemoryWindow::refine',S+'MemoryWindow.h')])
p('C03','Field iterators visit every window point once in order',
 'Iterating over a field from begin to end visits each point of its window exactly once, in x-then-y-then-z order, at the address of that point, and then compares equal to end. Random access steps (+=, -=, +, -) by any count that stays within the window land on the same element as that many single steps. Iterators compare by position, and const, mutable and interior iterators agree on the elements they visit.',
 ['inputs'],'all windows of all fields, all start positions and step counts, all loop iterations',
 'Tests iterate over a few shapes; carries between x, y and z rows for arbitrary window offsets and step sizes are only sampled.',
 [S+'MemoryWindow.h',S+'SpatialField.h'],[('FieldIterator/ConstFieldIterator operator++, +=, -=, ==',S+'MemoryWindow.h'),('SpatialField::begin/end/interior_begin/interior_end',S+'SpatialField.h')])
p('C04','Ghost cell algebra',
 'Ghost cell counts add, subtract, take minima and compare face by face, independently on all six faces. The "unlimited" ghost state absorbs addition, is the identity of min, and subtracting an unlimited amount is refused. No operation changes a face other than its own.',
 ['inputs'],'all ghost counts on six faces, including the unlimited value; all operation sequences of length one and two',
 'The tests use symmetric ghost counts of 0 to 2, which cannot separate faces or exercise the unlimited state.',
 [S+'GhostData.h',S+'GhostData.cpp'],[('GhostData operators, min, point_min',S+'GhostData.cpp')])
p('C05','Field windows follow from mesh, ghosts and boundary cells',
 'A field over a mesh of d interior cells has, on every axis with more than one cell, d plus its ghosts plus one extra boundary cell if the domain ends there and the type is a volume staggered on that axis or a face normal to it (not a face normal to the staggering axis of its own volume), and exactly one point on a collapsed axis. Its interior window starts after the minus-side ghosts and has d plus the extra cell points. Indexing, memory size and iterators all refer to these same windows.',
 ['inputs','configurations'],'all mesh sizes, ghost counts, boundary flags and staggered/volume/face field types',
 'Tests construct a few cubic meshes with equal ghosts; face-dependent mistakes cancel there.',
 [S+'FVTools.h',S+'SpatialField.h',S+'BoundaryCellInfo.h'],[('get_dim_with_ghost / get_window_with_ghost',S+'FVTools.h'),('SpatialField constructors',S+'SpatialField.h'),('BoundaryCellInfo::build',S+'BoundaryCellInfo.h')])
p('C06','Views of a field alias its cells and keep their own ghosts',
 'A copy of a field is a view of the same cells: a write through either is seen by both, and the cell visible at a mesh location is the same through every view. Changing the valid ghost count of a view shows exactly the interior plus those ghosts, never changes any cell, and leaves the other views and the total ghost count untouched.',
 ['inputs','histories'],'all fields, all pairs of ghost counts up to the allocated ones, sequences of copies and resets',
 'Tests reset ghosts on one shape; aliasing between views for all offsets is not covered.',
 [S+'SpatialField.h'],[('SpatialField copy constructor, reset_valid_ghosts, operator()/operator[]',S+'SpatialField.h')])
p('C08','Memory pool blocks are exclusive, large enough and accounted for',
 'A block obtained from the memory pool is at least as large as requested and is never handed out again until it has been returned. A returned block can be obtained again and the reported total and active counts always equal the blocks ever created and the blocks currently out. Returning a pointer the pool never issued is refused.',
 ['histories','inputs'],'all sequences of get/put requests with any sizes',
 'Tests run one fixed get/put script; reuse by size class and exact accounting depend on the history.',
 [S+'MemoryPool.h',S+'MemoryPool.cpp'],[('Pool::get/put',S+'MemoryPool.cpp')])
p('C09','Scratch field handles release their field exactly once',
 'A scratch field obtained from the store stays usable as long as any handle to it exists, and is given back exactly once, when its last handle goes away. Copying, assigning (also to itself), detaching and destroying handles in any order never releases a field early, twice or not at all. A handle always refers to the field it was created from or last assigned from.',
 ['histories'],'all sequences of create, copy, assign, self-assign, detach and destroy over several handles and fields',
 'Tests use one or two handles in a fixed order; self-assignment, assignment from empty handles and detach orders are never exercised.',
 [S+'SpatialFieldStore.h'],[('SpatFldPtr copy/assign/detach/destructor',S+'SpatialFieldStore.h'),('SpatialFieldStore::restore_field',S+'SpatialFieldStore.h')])
p('C10','Masks contain exactly the listed points',
 'A mask built from a list of points contains, at every location of its field, exactly the points on the list, whatever the field size and the packing of the bits into words. Adding a point never affects any other point, and iterating over a mask visits every window position once, in field order, with the right value. A copy of a mask, or the same mask seen through another window, keeps its points, and an assignment conditioned on a mask takes the mask value of the same mesh location.',
 ['inputs'],'all mask shapes and ghosts, all point lists, all positions (including those at word boundaries)',
 'Tests check a few lists on one mesh; word boundaries and strided windows over packed bits are only sampled.',
 [S+'BitField.h',S+'SpatialMask.h'],[('BitField::add_point, iterators',S+'BitField.h'),('SpatialMask::points_to_mask / operator()',S+'SpatialMask.h')])
p('C11','Field assignment is pointwise and confined to the covered region',
 'Assigning an expression of fields and numbers sets every cell of the region that all operands cover to the value of the expression at that same mesh location, computed from the values before the assignment, also when the target appears in the expression. All other cells of the target and all operands are unchanged. An interior assignment sets exactly the interior, and an operand that does not reach a boundary cell of the target is refused.',
 ['inputs'],'all mesh sizes, all ghost counts on each face of target and operands, all boundary-cell combinations, all values',
 'Tests compare expressions on a few cubic meshes with equal ghosts, where a wrong alignment or region often coincides with the right one.',
 ['spatialops/NeboAssignment.h','spatialops/NeboRhs.h','spatialops/NeboLhs.h','spatialops/NeboBasic.h'],[('operator <<= / interior_assign, NeboField::assign, calc_rhs_ghosts','spatialops/NeboLhs.h')])
p('C12','Expression operators, conditionals and masks mean what they say',
 'Every arithmetic, comparison, logical and elementary-function operator in an expression gives, at each cell, that operation on the operand values at that cell, in operand order, for field/number operand combinations. A conditional yields, cell by cell, the value of its first true clause and otherwise its final value, and never depends on later clauses. A masked expression uses the mask value of the same mesh location.',
 ['inputs','programs'],'all operand values, all mixes of fields, masks and numbers, conditionals with up to four clauses',
 'Tests evaluate each operator on one or two data sets; operand-order and clause-order errors on other mixes go unseen.',
 ['spatialops/NeboOperators.h','spatialops/NeboCond.h','spatialops/NeboMask.h'],[('SumOp..., NeboCond, NeboMask eval','spatialops/NeboOperators.h')])
p('C13','Reductions fold over exactly the cells of the field',
 'The max, min, sum and norm of a field or expression equal the fold of the operation over every valid cell, each counted once, and the interior variants use exactly the interior cells. The result does not depend on values outside that region. The field is not modified.',
 ['inputs'],'all field shapes, ghosts and values',
 'Tests reduce a few regular fields; an extremum or a contribution in one particular row or ghost layer is easily missed.',
 ['spatialops/NeboReductions.h','spatialops/FieldFunctions.h'],[('nebo_max/min/sum/norm and _interior','spatialops/NeboReductions.h')])
p('C14','Stencil operators apply the right coefficients to the right neighbours',
 'Applying an interpolation, gradient, divergence or filter operator sets each destination cell that the source covers to the coefficient-weighted sum of the source cells adjacent to it for that staggering. The cells it sets are exactly those whose whole stencil lies in the valid source cells (a source without the ghosts the destination interior needs is refused), and nothing outside the source allocation is read. For equal spacing the coefficients are 1/2 (or 1/4), plus/minus 1/spacing, and 1/27 respectively.',
 ['inputs','configurations'],'all mesh sizes, ghosts, boundary cells, spacings and source values; the operator types of the default registry',
 'Tests compare against analytic functions on a few meshes with tolerance; a shifted stencil at an edge layer or an overlong region is inside the tolerance or not compared.',
 ['spatialops/NeboStencils.h','spatialops/NeboStencilBuilder.h',S+'stencil/FVStaggeredOperatorTypes.h',S+'stencil/StencilBuilder.cpp'],[('NeboStencil eval/ghosts','spatialops/NeboStencils.h'),('build_stencils',S+'stencil/StencilBuilder.cpp')])
p('C15','Boundary conditions by stencil inversion hold exactly',
 'After applying a boundary condition on a set of boundary points through a two-point stencil operator, the operator applied to the field gives the requested boundary value at each of those points. Only the one cell on the chosen side of each listed point is changed. All other cells keep their values.',
 ['inputs'],'all mesh shapes, masks of points, minus/plus side, operator coefficients and values',
 'Tests check one point list per operator; which side cell is written and that nothing else changes is not checked for all locations.',
 ['spatialops/NeboStencilBuilder.h',S+'stencil/FVStaggeredBCOp.h',S+'FVStaggeredBCTools.h'],[('NeboBoundaryConditionBuilder, BoundaryConditionOp','spatialops/NeboStencilBuilder.h')])
p('C16','Multi-threaded evaluation equals serial evaluation',
 'For every number of partitions, the pieces into which an assignment is divided for the worker threads are disjoint, stay within the assigned region and cover it. Evaluating each piece sets exactly its own cells, and only from its operands, so the result equals the serial one in any execution order.',
 ['schedules','inputs','configurations'],'all region extents, all partition counts from 1 up, all piece indices',
 'A threaded test run uses one thread count and a few shapes; the partition arithmetic must cover for all.',
 ['spatialops/NeboBasic.h','spatialops/NeboLhs.h',S+'MemoryWindow.h'],[('nebo_find_partition / nebo_partition_count / nebo_next_partition','spatialops/NeboBasic.h')])
p('C17','Field comparisons decide exactly the stated tolerance',
 'Comparing two fields for equality, by absolute error, relative error or ulps, answers true exactly when every compared cell satisfies the stated tolerance. Every valid cell takes part, none outside does, and the inequality form is the negation. A field and a number compare like a field and a constant field, and the comparison does not modify its operands.',
 ['inputs'],'all field shapes, all real values (no NaN or infinity) and tolerances',
 'The tests plant a difference in one place of one shape; a difference in a particular cell, or a boundary tolerance, is not covered.',
 [S+'FieldComparisons.h'],[('field_equal / field_equal_abs / field_equal_ulp',S+'FieldComparisons.h')])
p('C19','Grid coordinates are those of the staggered cell',
 'Filling a field with a coordinate sets every cell, ghosts included, to the position of that cell of the field\'s staggering: origin plus cell-center or face offset plus index times spacing along the chosen direction. Spacing is the length divided by the number of cells along each direction. No cell outside the field is written.',
 ['inputs'],'all grid sizes, lengths, ghosts, boundary cells and field types, all three directions',
 'Tests look at sample points of a few grids.',
 [S+'Grid.h',S+'Grid.cpp'],[('Grid::set_coord',S+'Grid.cpp')])
p('C20','Polynomial interpolation reproduces polynomials',
 'The one-dimensional interpolant through given points passes through each of them and reproduces every polynomial of degree at most its order; its derivative coefficients give that polynomial\'s exact derivative. The points used are a contiguous run of the requested number of points around the evaluation point, always inside the data. Interpolation coefficients sum to one and derivative coefficients to zero.',
 ['inputs'],'all strictly increasing abscissae, all evaluation points, orders one to three, all data',
 'Tests use two tables; the choice of the run near the ends and between points must hold for all inputs.',
 [S+'onedim/LagrangePoly.cpp',S+'onedim/LagrangePoly.h'],[('LagrangeCoefficients::get_interp_coefs_indices / get_derivative_coefs_indices',S+'onedim/LagrangePoly.cpp')])
p('C21','Particle-cell transfers conserve and stay in bounds',
 'Moving a particle quantity to cells distributes it over the cells the particle overlaps in proportion to the overlap, so the cells gain in total exactly what the particle carries; moving a cell field to a particle gives the same weighted average of the cells it overlaps. Cells the particle does not overlap neither receive nor contribute, and no cell outside the field is touched.',
 ['inputs'],'all meshes of equal spacing, particle positions inside the mesh and sizes, all values',
 'Tests place a few particles by hand; positions near cell faces and sizes larger than a cell are not covered.',
 ['spatialops/particles/ParticleOperators.h'],[('ParticleToCell / CellToParticle apply_to_field','spatialops/particles/ParticleOperators.h')])
p('C22','Point gather and scatter use exactly the listed cells',
 'Copying a field to a list of points gives, for each point, the value of the cell with that index; copying points back sets exactly the listed cells to the point values and leaves all others unchanged. The order of the points is kept.',
 ['inputs'],'all fields, all index lists, all values',
 'The test uses a single short list.',
 ['spatialops/pointfield/PointOperators.h'],[('FieldToPoint / PointToField','spatialops/pointfield/PointOperators.h')])
p('C23','Operator database returns the registered operator',
 'Every registered operator gets an identifier of its own, and looking it up by type and identifier returns that very operator; a type registered once is found without identifier. Asking for an ambiguous type without identifier, an unknown identifier, or a type never registered is refused. Registering one operator never changes what earlier lookups find, and all operators are released exactly once at the end.',
 ['histories'],'all sequences of registrations and lookups over several operator types',
 'Tests register a couple of operators and look them up once.',
 ['spatialops/OperatorDatabase.h'],[('OperatorDatabase::register_new_operator / retrieve_operator','spatialops/OperatorDatabase.h')])
p('C24','Stencil type algebra gives consistent offsets',
 'For every pair of field locations, the offsets of a two-point or four-point operator lie on both sides of the destination location, differ by one cell in exactly the direction(s) in which the locations differ, and the destination covers exactly the shifts the offsets require. Index triplets add, subtract, negate and compare componentwise.',
 ['programs'],'all staggered source and destination location pairs the library defines; all small triplet values',
 'The unit tests instantiate selected triplets; a wrong entry for one pair of staggered types compiles.',
 [S+'IndexTriplet.h',S+'FVStaggeredLocationTypes.h','spatialops/NeboStencilBuilder.h'],[('IndexTriplet metafunctions, NeboStencilPoint lists',S+'IndexTriplet.h')])
p('C26','Thread pool runs every scheduled piece and waits for all of them',
 'When a parallel assignment returns, every piece of it has been evaluated exactly once and no worker still touches the fields. Resizing or stopping the pool never loses or duplicates a piece.',
 ['schedules'],'all interleavings of worker threads, all pool sizes',
 'A test run sees a few schedules only.',
 ['spatialops/ThreadPool.h','spatialops/ThreadPool.cpp','spatialops/Semaphore.h'],[('ThreadPool, Semaphore','spatialops/ThreadPool.cpp')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
