I='inputs'; C='configurations'; H='histories'; G='programs'; S='schedules'
p('V01','Sub-views address exactly the documented elements of their parent',
  'A sub-view of a vector, matrix or tensor (domain, row, column, diagonal, transpose, real or imaginary part, sub-vector or sub-matrix of a tensor, and compositions of these) reads and writes exactly the parent elements its definition names, no others, for every size, offset, positive or negative stride and storage order.',
  [I,C],'all sizes, offsets, strides, element types, storage orders and nesting of sub-views',
  'Tests build a few sub-views of fixed small sizes; the index arithmetic must hold for every size, stride and nesting.',
  ['src/vsip/vector.hpp','src/vsip/matrix.hpp','src/vsip/tensor.hpp','src/ovxx/expr/subset.hpp','src/ovxx/expr/sliced.hpp','src/ovxx/expr/transposed.hpp','src/ovxx/expr/permuted.hpp','src/ovxx/expr/component.hpp','src/ovxx/expr/diag.hpp'],
  [('index translation get/put of the sub-block classes','src/ovxx/expr/subset.hpp, sliced.hpp, transposed.hpp, permuted.hpp, component.hpp, diag.hpp'),('direct-data strides and offsets of sub-blocks','ptr()/stride() of the same classes')])
p('V02','Assigning an expression to a view is element-wise and complete',
  'Assigning a view, scalar or element-wise expression to a vector, matrix or tensor view sets every element of the destination to the value of the expression at that index and touches nothing else, whichever evaluation path (loop, copy, transpose, fill) the library selects for the operands\' sizes, strides and storage orders.',
  [I,C],'all sizes, strides, storage orders, element types and operand kinds',
  'Which evaluator runs depends on layout and size at run time; tests exercise a handful of sizes per path.',
  ['src/ovxx/assign.hpp','src/ovxx/assign/copy.hpp','src/ovxx/assign/loop_fusion.hpp','src/ovxx/expr/evaluate.hpp','src/ovxx/expr/binary.hpp','src/ovxx/expr/unary.hpp','src/ovxx/expr/ternary.hpp','src/ovxx/expr/scalar.hpp'],
  [('assignment evaluators and their run-time validity tests','src/ovxx/assign/copy.hpp, loop_fusion.hpp'),('expression block get()/size()','src/ovxx/expr/*.hpp')])
p('M01','Element-wise functions and operators compute their defining formula',
  'Every element-wise function and arithmetic, comparison, logical or bitwise operator on views (and on views mixed with scalars) yields at each index its mathematical definition applied to the operands at that index, with the documented result type, for every element type it accepts; operands of different arithmetic types are combined in the wider type, whichever side it stands on.',
  [I,C],'every function and operator, every accepted element type, view/scalar mix and index',
  'About 70 functions times element types times operand kinds; tests sample some with a few values.',
  ['src/vsip/math.hpp','src/ovxx/view/fns_elementwise.hpp','src/ovxx/view/functors.hpp','src/ovxx/view/operators.hpp','src/ovxx/math/scalar.hpp','src/ovxx/expr/operations.hpp','src/vsip/impl/promotion.hpp'],
  [('scalar definitions','src/ovxx/math/scalar.hpp'),('functor wrappers and result types','src/ovxx/view/functors.hpp, fns_elementwise.hpp')])
p('M03','Reductions combine every element of the view exactly once',
  'Sum, sum of squares, mean, mean square and the all-true and any-true reductions return the reduction of all elements of the view, each counted once, with the right divisor and result type, for every size, stride, sub-domain and storage order, including the long single-precision sums that are split into partial sums.',
  [I,C],'all sizes (below and above the partial-sum length), strides, sub-domains, storage orders, real and complex types',
  'Tests reduce short dense views; the partial-sum path starts at 4096 elements and depends on stride and type.',
  ['src/vsip/impl/reductions/reductions.hpp','src/ovxx/reductions/reductions.hpp','src/ovxx/reductions/functors.hpp'],
  [('traversal and partial sums','src/ovxx/reductions/reductions.hpp'),('accumulation functors','src/ovxx/reductions/functors.hpp')])
p('M04','Minimum and maximum reductions return the extreme and its index',
  'The minimum and maximum value reductions (plain, magnitude and squared magnitude) return the extreme value of the view and store the index of an element that has it, the first such element for vectors, for every size, stride and storage order.',
  [I,C],'all element values, positions of the extreme, sizes, strides and storage orders',
  'The result depends on where the extreme is and in what order elements are visited; tests use one arrangement.',
  ['src/vsip/impl/reductions/reductions_idx.hpp','src/ovxx/reductions/reductions_idx.hpp','src/ovxx/reductions/functors.hpp'],
  [('index reductions per dimension order','src/ovxx/reductions/reductions_idx.hpp')])
p('V03','In-place updates, fills and element access touch exactly the named elements',
  'A compound assignment (+=, -=, *=, /=, and the bitwise forms) of a view or scalar to a view, filling a view with a scalar, and reading or writing one element through get, put, operator() or an element reference, update exactly the elements named, each once, with the operation applied to the old value; a freshly constructed view owns its elements and a copy of a view refers to the same elements.',
  [I,C],'all sizes, strides, storage orders, element types and indexes',
  'Tests update a few dense views; element addressing must hold for every size, stride, order and index.',
  ['src/vsip/vector.hpp','src/vsip/matrix.hpp','src/vsip/tensor.hpp','src/ovxx/view/view.hpp','src/ovxx/element_proxy.hpp','src/ovxx/assign.hpp'],
  [('compound assignment and fill members','src/vsip/vector.hpp, matrix.hpp, tensor.hpp'),('element references','src/ovxx/element_proxy.hpp, block lvalue access')])
p('M05','Matrix-vector products equal their definitions for every layout',
  'Dot products, matrix and matrix-vector products (plain, transposed, Hermitian, conjugate), the 3x3 and 4x4 products, generalized products and sums, outer, Kronecker and matrix transposition products, cumulative sums and modulation give the defined sum of products at every element, for dense and strided operands in every mix of storage orders, including every case handed to BLAS.',
  [I,C],'all sizes, strides, sub-domains, storage-order combinations and element types',
  'Whether and how BLAS is called depends on orders, strides and types of three operands; tests cover dense operands of a few sizes.',
  ['src/vsip/impl/matvec.hpp','src/vsip/impl/matvec_prod.hpp','src/ovxx/lapack/blas.hpp'],
  [('BLAS argument construction and validity tests','src/ovxx/lapack/blas.hpp'),('generic evaluators','src/vsip/impl/matvec.hpp, matvec_prod.hpp')])
p('M06','Vector-matrix multiplication scales the right rows or columns',
  'vmmul<0> multiplies element (i,j) of the matrix by element j of the vector and vmmul<1> by element i, for every combination of matrix, vector and destination layout and for nested expressions, and the expression has the shape of the matrix.',
  [I,C],'all sizes, strides, storage orders and element types',
  'Row and column evaluators are chosen by destination order and dimension; square test matrices hide a swap.',
  ['src/ovxx/expr/vmmul.hpp','src/vsip/impl/vmmul.hpp'],
  [('vmmul block and its row/column evaluators','src/ovxx/expr/vmmul.hpp, src/vsip/impl/vmmul.hpp')])
p('M07','Selection and generation produce the defined elements and counts',
  'gather, scatter, indexbool, first, ramp, clip, invclip and swap produce exactly the elements, positions and counts of their definitions: gathered and scattered elements are those the index view names, indexbool lists every true element in order and returns the count, first finds the first match from a start position, ramp is start plus index times step, and swap exchanges corresponding elements.',
  [I,C],'all sizes, index contents, thresholds, strides and storage orders',
  'Results depend on index contents, boundaries and layouts; tests use one small example each.',
  ['src/vsip/selgen.hpp','src/ovxx/expr/generator.hpp','src/ovxx/expr/operations.hpp'],
  [('selection loops and clip functors','src/vsip/selgen.hpp'),('ramp generator','src/ovxx/expr/generator.hpp')])
p('B04','Domains and indexes obey set arithmetic',
  'A domain names exactly the indexes first + i*stride; offsetting, scaling, dividing, comparing, normalising, intersecting domains, translating an intersection between coordinate systems, and traversing an index space give exactly what those sets of indexes give, in one to three dimensions and every traversal order, including negative strides where they are allowed.',
  [I],'all offsets, strides, lengths, dimensions and traversal orders',
  'The cases multiply (sign, overlap, divisibility, dimension); tests fix a few domains.',
  ['src/vsip/domain.hpp','src/ovxx/domain_utils.hpp','src/ovxx/length.hpp'],
  [('domain operators','src/vsip/domain.hpp'),('intersection and traversal','src/ovxx/domain_utils.hpp')])
p('B01','Blocks place every element where their layout says',
  'A block maps each index to exactly one memory position determined by its dimension order, packing (dense, unit stride, or rows padded to an alignment) and complex format; the element accessors, one-dimensional access, strides, sizes, total extent, references and direct pointer all agree with that mapping, for compile-time and run-time layouts.',
  [I,C],'all sizes, dimension orders, packings, alignments, complex formats and element types',
  'Six orders times eleven packings times three formats; tests use a few row-major dense shapes.',
  ['src/ovxx/layout.hpp','src/ovxx/strided.hpp','src/vsip/dense.hpp','src/ovxx/storage/block.hpp','src/ovxx/storage/traits.hpp','src/vsip/layout.hpp'],
  [('index arithmetic of Applied_layout','src/ovxx/layout.hpp'),('element access of stored blocks','src/ovxx/storage/block.hpp, storage.hpp')])
p('B02','Admit, release and rebind transfer user data exactly',
  'For a block bound to user storage, admit(true) makes the elements equal to the user data, release(true) makes the user data equal to the elements, false suppresses the copying, admitting twice or releasing twice copies nothing more, rebind switches to the new user data (format and size included), and find, release with pointer, user_storage and admitted report the state; a block without user storage keeps its elements and reports null pointers.',
  [H,I,C],'all sequences of admit, modify, release, rebind; all pairs of user format and internal format, element types and sizes',
  'Whether data is copied depends on the format pair and on the call history; tests walk few of these combinations.',
  ['src/ovxx/storage/user.hpp','src/ovxx/storage/manager.hpp','src/ovxx/storage/host.hpp','src/ovxx/storage/block.hpp','src/vsip/dense.hpp'],
  [('admit/release/rebind','src/ovxx/storage/manager.hpp'),('format conversion','src/ovxx/storage/user.hpp')])
p('B03','Direct data access shows the block in the requested layout',
  'A dda::Data object of a block (stored, sub-view, component or expression) presents every element at ptr()+index*stride in the requested order, packing, alignment of rows and complex format, reports the block\'s sizes, copies the elements in at creation and back at destruction or sync exactly as the in, out, inout and copy policies say, and uses the user\'s buffer when a copy is made; run-time layouts and persistent access behave the same.',
  [H,I,C],'all blocks, requested layouts, formats, sizes, strides and synchronization policies',
  'Direct, maybe-direct and copying access are chosen by type and by run-time strides, so the number of combinations is far beyond what tests list.',
  ['src/ovxx/dda/accessor.hpp','src/ovxx/dda/block_copy.hpp','src/vsip/dda.hpp','src/ovxx/dda/runtime.hpp','src/ovxx/dda/persistent.hpp','src/ovxx/adjust_layout.hpp'],
  [('compatibility tests and accessors','src/ovxx/dda/accessor.hpp'),('element copies','src/ovxx/dda/block_copy.hpp')])
p('S05','A histogram counts every element in exactly one, correct bin',
  'For a histogram of N bins over [min,max), element v is counted in bin 0 if v is below min, in bin N-1 if it is at or above max, and otherwise in bin 1+floor((v-min)/((max-min)/(N-2))); all elements of a vector or matrix are counted once, whatever the strides or dimension order; counts add to those of earlier calls exactly when accumulation is asked for, and integer data is binned like real data.',
  [I,H],'all data, ranges, bin counts, sizes, strides and sequences of accumulating and resetting calls',
  'Bin boundaries, out-of-range values and the call history decide; the test uses one range with two element values per bin.',
  ['src/vsip/impl/signal/histo.hpp'],
  [('bin computation and accumulation loops','src/vsip/impl/signal/histo.hpp')])
p('S01','Convolution gives the defined sums for every support, symmetry and decimation',
  'A Convolution object returns output(n) = sum over k of kernel(k) times input(n*decimation - k + offset) with exactly the output size, offset and edge treatment of its full, same or minimum support and the symmetry expansion of its coefficients, in one and two dimensions, for real and complex data and dense or strided, distinct operands, at every call on the object.',
  [I,C],'all kernel and input sizes, decimations, supports, symmetries, strides, storage orders and element data',
  'Edges, decimation and symmetry interact and the two-dimensional boundary has nine regions; tests use a few sizes.',
  ['src/vsip/impl/signal/conv.hpp','src/ovxx/signal/conv.hpp'],
  [('convolution kernels per support region','src/ovxx/signal/conv.hpp'),('facade: sizes and symmetry','src/vsip/impl/signal/conv.hpp')])
p('S02','Correlation gives the defined sums and biases for every support',
  'A Correlation object returns output(n) = sum over k of input(n+k-offset) times the conjugate of ref(k) for the lags of its full, same or minimum support, divided by the number of overlapping terms when unbiased is asked for and undivided when biased, in one and two dimensions, for real and complex data and dense or strided operands.',
  [I,C],'all reference and input sizes, supports, biases, strides, storage orders and element data',
  'The unbiased divisor changes region by region in one and two dimensions; tests use few sizes.',
  ['src/vsip/impl/signal/corr.hpp','src/ovxx/signal/corr.hpp'],
  [('correlation kernels and bias scaling','src/ovxx/signal/corr.hpp'),('facade: sizes','src/vsip/impl/signal/corr.hpp')])
p('S03','A FIR filter computes its defined output and keeps state only when asked',
  'Each call of a Fir object writes output(n) = sum over k of h(k) times x(n*decimation + offset - k), where x continues the inputs of earlier calls exactly when the filter saves its state, returns the number of outputs written, carries the decimation phase to the next call, expands symmetric kernels as declared, and copies and reset behave accordingly.',
  [H,I,C],'all kernel sizes, frame sizes, decimations, symmetries, and sequences of calls, copies and resets',
  'The phase and the saved tail change with every call; tests run few frame sizes.',
  ['src/vsip/impl/signal/fir.hpp','src/ovxx/signal/fir.hpp'],
  [('frame processing and state update','src/ovxx/signal/fir.hpp'),('facade','src/vsip/impl/signal/fir.hpp')])
p('S04','An IIR filter applies its biquad cascade with the declared state',
  'Each call of an Iir object passes the frame through the cascade of second-order sections given by its coefficient matrices in order, and starts from the state left by the previous call exactly when state is to be saved; reset clears the state, copies and assignments take coefficients and state and are independent afterwards, and operation in place equals operation between distinct views.',
  [H,I],'all coefficients, section counts, frame sizes, strides, and sequences of calls, copies, assignments and resets',
  'The effect of a wrong state update only appears in later calls; tests make few calls.',
  ['src/vsip/impl/signal/iir.hpp'],
  [('section recursion and state','src/vsip/impl/signal/iir.hpp')])
p('S06','Window functions return the samples of their formulas',
  'blackman, hanning and kaiser return for every length of at least two the samples of their defining formulas (for kaiser the ratio of modified Bessel functions, by polynomial up to an argument of three and by power series beyond it), and a vector of exactly that length; cheby returns the Dolph-Chebyshev window of the given ripple, centred with peak one.',
  [I],'all lengths and, for kaiser and cheby, all shape parameters',
  'The tests compare one or two lengths with stored tables.',
  ['src/vsip/impl/signal/window.hpp','src/ovxx/signal/window.cpp'],
  [('window generators','src/ovxx/signal/window.cpp')])
p('S07','freqswap rotates every dimension by half, in place or not',
  'freqswap gives, at every index i of a dimension of size M, the argument element (i + ceil(M/2)) mod M, in each dimension of vectors and matrices of even and odd sizes, for dense, strided and sub-view operands, inside expressions and in place; the single-axis form rotates every row or every column only.',
  [I,C],'all sizes, strides, storage orders, expressions and in-place use',
  'Odd sizes, in-place operation and storage order select different algorithms.',
  ['src/ovxx/signal/freqswap.hpp','src/vsip/impl/signal/freqswap.hpp'],
  [('one- and two-dimensional swap algorithms','src/ovxx/signal/freqswap.hpp')])
p('S08','Fft computes the defined Fourier transform for every layout and mode',
  'An Fft object computes the discrete Fourier transform of its definition in one, two and three dimensions - sign by direction, multiplied by the scale, with the half-size spectrum along the chosen axis for real data - out of place, in place, by value and inside expressions, for dense, strided, sub-view, column-major and split-complex operands, reports its sizes, scale and direction, and leaves its input unchanged, at every use of the object.',
  [I,C,H],'all sizes, dimensions, axes, directions, scales, layouts and formats of operands, and repeated use',
  'Alignment, strides, order and format select between direct and copied operation and different plans; tests use few dense power-of-two sizes.',
  ['src/ovxx/signal/fft.hpp','src/ovxx/signal/fft/workspace.hpp','src/ovxx/signal/fft/util.hpp','src/ovxx/fftw/fft.cpp','src/ovxx/fftw/fftw.cpp','src/vsip/impl/signal/fft.hpp'],
  [('plans and executions','src/ovxx/fftw/fftw.cpp'),('operand access and scaling','src/ovxx/signal/fft/workspace.hpp'),('sizes and axes','src/ovxx/signal/fft/util.hpp')],
  note='FFTW itself is outside the repository; its entry points are given their documented meaning.')
p('S09','Fftm transforms every row or column independently',
  'An Fftm object applies the one-dimensional Fourier transform of its definition to each row (axis row) or each column (axis col) of a matrix, with sign, scale and half-size spectrum along the transformed axis, out of place, in place and by value, for row-major, column-major, strided and sub-matrix operands, and leaves its input unchanged.',
  [I,C,H],'all sizes, axes, directions, scales, layouts of operands, and repeated use',
  'Axis and storage order decide strides and row counts of each call; square or row-major tests hide a confusion.',
  ['src/ovxx/signal/fft.hpp','src/ovxx/signal/fft/workspace.hpp','src/ovxx/fftw/fftw.cpp','src/vsip/impl/signal/fft.hpp'],
  [('row and column loops over plan executions','src/ovxx/fftw/fftw.cpp')],
  note='FFTW itself is outside the repository; its entry points are given their documented meaning.')
p('P01','Map queries agree on one layout of global data over subblocks and processes',
  'Every query of a map - subblock, domain, patch and size of a subblock, the global and local domain of a patch, the subblock, patch and local index of a global index and back, the processes holding a subblock - answers from one layout: each global index lies in exactly one subblock, block distributions give larger parts first, cyclic ones deal chunks in turn, and maps of sub-views, slices, transposes and replicated or local data keep describing where the elements they select live.',
  [I,C],'all sizes, distributions, numbers of subblocks and processors, processor lists, and derived maps',
  'Assignment is built from these answers; tests query few maps and never compare the answers with each other for uneven sizes.',
  ['src/vsip/map.hpp','src/vsip/impl/dist.hpp','src/vsip/impl/replicated_map.hpp','src/vsip/impl/local_map.hpp','src/ovxx/parallel/dist_utils.hpp','src/ovxx/parallel/map_utils.hpp','src/ovxx/parallel/support.hpp','src/ovxx/parallel/scalar_map.hpp','src/ovxx/parallel/subset_map.hpp','src/ovxx/parallel/transpose_map_decl.hpp'],
  [('segment arithmetic and map queries','src/vsip/map.hpp'),('derived maps','src/ovxx/parallel/subset_map.hpp')])
p('P02','Assignment between distributed views equals assignment of the global views',
  'Assigning an expression over views of any maps to a view of any map stores at every global index the value that the same assignment stores for local views, on every process holding it - whatever the distributions, replication, storage orders, value types, formats, sub-views, slices and transposes of either side, when repeated with the same communication set up, and when source and destination overlap in storage layout; elements not assigned stay unchanged and every message sent is received.',
  [I,C,H],'all maps of source and destination, processor counts, layouts, value types, sub-views, expressions and repeated execution',
  'The schedule of messages is computed per process from both maps; tests run few maps at one processor count.',
  ['src/ovxx/parallel/assign.hpp','src/ovxx/parallel/assign_chain.hpp','src/ovxx/parallel/assign_block_vector.hpp','src/ovxx/parallel/assign_local.hpp','src/ovxx/parallel/expr.hpp','src/ovxx/parallel/copy_chain.cpp','src/ovxx/mpi/chain_builder.hpp','src/ovxx/mpi/datatype.hpp','src/ovxx/mpi/communicator.hpp'],
  [('message lists of an assignment','src/ovxx/parallel/assign_chain.hpp'),('operands brought to the map of the destination','src/ovxx/parallel/expr.hpp')],
  note='MPI is outside the repository; its calls get their documented meaning, and the processes run one after another in rounds.')
p('P03','Element access and local parts of distributed data follow the map',
  'On distributed data, reading an element gives every process the value held by its owner, writing one changes exactly the copies the map assigns, the local view of a view, sub-view, slice or transpose is its locally held part in local order and empty elsewhere, per-point and per-patch iteration visits each held element once with its right local and global index, direct access shows and stores the whole array, user storage of the local part is used and returned unchanged, and slices of views know where they live.',
  [I,C],'all maps, sizes, sub-views, processes, storage formats and layouts',
  'Most maps leave some process without data or with an uneven part; tests look at few of them and mostly at the owner.',
  ['src/ovxx/parallel/distributed_block.hpp','src/ovxx/parallel/util.hpp','src/ovxx/parallel/get_local_view.hpp','src/ovxx/parallel/assign_local.hpp','src/ovxx/expr/sliced.hpp','src/ovxx/expr/subset.hpp','src/ovxx/expr/transposed.hpp','src/ovxx/dda/accessor.hpp'],
  [('element and storage access','src/ovxx/parallel/distributed_block.hpp'),('local parts of sub-views','src/ovxx/expr/sliced.hpp'),('whole-array access','src/ovxx/dda/accessor.hpp')],
  note='MPI is outside the repository; its calls get their documented meaning.')

p('P04','Reductions, communicators, groups and MPI errors mean what they say',
  'A reduction over distributed or replicated data gives every process the value over the global data, with the index of the extremum global; a collective reduction, broadcast or message carries the stated values in the right wire type; a communicator or group has the members its construction names and returns each MPI handle exactly once; an error MPI reports is thrown with its reason; the library finalises MPI only if it initialised it and leaves MPI no buffer it releases.',
  [I,C],'all element values, maps of a small world, reduction kinds, constructions of communicators and groups, and single failures of MPI calls',
  'Handle life times, failures and communicator histories leave ordinary results unchanged, so tests pass with a leaked, dangling or unreported one.',
  ['src/ovxx/mpi/communicator.hpp','src/ovxx/mpi/communicator.cpp','src/ovxx/mpi/group.hpp','src/ovxx/mpi/group.cpp','src/ovxx/mpi/exception.hpp','src/ovxx/mpi/service.cpp','src/ovxx/mpi/datatype.hpp','src/ovxx/reductions/reductions.hpp'],
  [('handles and members','src/ovxx/mpi/communicator.cpp'),('group algebra','src/ovxx/mpi/group.hpp'),('error reports','src/ovxx/mpi/exception.hpp'),('life cycle','src/ovxx/mpi/service.cpp')],
  note='MPI is outside the repository; its calls get their documented meaning.')

p('P05','Functions and transforms of distributed views mean what they mean for local ones',
  'An element-wise function, user function, threshold, vector-matrix product, generator, frequency swap, swap, filter, convolution, correlation or Fourier transform applied to distributed views gives every process exactly its part of what the same call gives for local views of the global data - the operation keeps its parameters, and operands mapped differently are brought together - and a layout that the operation does not support is refused with an exception, never computed from the local parts as if they were the whole.',
  [I,C],'all element values, functions, map combinations of a small world, storage orders and return mechanisms',
  'Most operations are tested on local data only; a distributed operand silently reads local storage, an unset parameter or a neighbouring object.',
  ['src/ovxx/expr/unary.hpp','src/ovxx/expr/binary.hpp','src/ovxx/expr/ternary.hpp','src/ovxx/expr/vmmul.hpp','src/ovxx/parallel/assign.hpp','src/ovxx/parallel/expr.hpp','src/ovxx/parallel/map_subset_block.hpp','src/ovxx/signal/freqswap.hpp','src/ovxx/signal/fft.hpp','src/ovxx/signal/fft/functor.hpp','src/ovxx/dda/accessor.hpp'],
  [('local parts of expressions','src/ovxx/expr/unary.hpp'),('when operands are mapped alike','src/ovxx/expr/vmmul.hpp'),('generators on subblocks','src/ovxx/parallel/map_subset_block.hpp'),('transforms','src/ovxx/signal/fft/functor.hpp'),('run-time layout access','src/ovxx/dda/accessor.hpp')],
  note='MPI, FFTW and BLAS are outside the repository; their calls get their documented meaning.')

p('M02','Conversions between rectangular, polar and part form act element by element',
  'recttopolar, polartorect and cmplx, over scalars and over vectors, matrices and tensors of any layout, give for each element exactly the magnitude and phase, the value of the given magnitude and phase, or the value of the given parts, also when operands are the real and imaginary parts of the destination.',
  [I],'all values, sizes, strides and layouts of the operands',
  'Overlap with the destination and unusual layouts are a product no test list covers.',
  ['src/vsip/complex.hpp','src/ovxx/view/functors.hpp'],
  [('conversions','src/vsip/complex.hpp')])
p('M10','Random generators produce the standard sequence of every process and seed',
  'For every seed, number of processes and process, the portable generator skips to its own part of the standard sequence and combines it with its own second generator, the other kind deals the sequence out in turns; uniform, normal and complex values are the defined combinations of successive draws, and views take one per element in row-major order.',
  [I],'all seeds; process counts and ids up to 100',
  'A wrong skip, prime or combination still gives plausible random numbers; tests compare one seed and one process.',
  ['src/vsip/random.hpp','src/ovxx/expr/generator.hpp'],
  [('seeding and jumps','src/vsip/random.hpp'),('draws','src/vsip/random.hpp')])
p('M09','Solvers deliver what the equation of the system demands',
  'For the Cholesky, LU, QR and singular-value solvers and the covariance, least-squares and Toeplitz functions: the solution satisfies its equation (A x = b, op(A) x = b, A^H A x = b, the normal equations), Q, U and V have orthonormal columns and reproduce the matrix with R or the singular values, which descend; products with Q, U and V from either side use the size their storage mode names; only the named triangle of a Cholesky operand is read; a matrix with no factorization is reported; a copied or assigned solver solves the same system.',
  [I,C],'all element values (sizes to 3, 1 or 2 right-hand sides), types, layouts of the operands, storage modes and return mechanisms',
  'The defects lie in the product of storage mode, shape, side and transposition, of which tests combine square shapes with one mode; assignments are not tested at all.',
  ['src/ovxx/lapack/cholesky.hpp','src/ovxx/lapack/lu.hpp','src/ovxx/lapack/qr.hpp','src/ovxx/lapack/svd.hpp','src/ovxx/lapack/flapack.hpp','src/vsip/impl/solver/qr.hpp','src/vsip/impl/solver/svd.hpp','src/vsip/impl/solver/covsol.hpp','src/vsip/impl/solver/llsqsol.hpp','src/vsip/impl/solver/toepsol.hpp'],
  [('factor and solve','src/ovxx/lapack/lu.hpp'),('economy and full Q','src/ovxx/lapack/qr.hpp'),('singular vectors','src/ovxx/lapack/svd.hpp'),('Levinson recursion','src/vsip/impl/solver/toepsol.hpp')],
  note='LAPACK is outside the repository; its calls get their documented meaning. Rounding and conditioning are not judged.')
p('M08','User functions are applied element by element, exactly as given',
  'unary, binary and ternary expressions of a function pointer, a function object (with or without state) or an adapted function, over vectors, matrices and tensors of any strides, apply that function once per element to the corresponding elements in argument order and yield views whose element type is the result type of the function; results nest in other expressions and a destination may be an operand.',
  [I,C],'every user function (it stays an uninterpreted symbol), all element values, extents and strides',
  'Tests use three functions of which each result happens to fit the argument type; a narrowed intermediate or swapped argument passes them.',
  ['src/vsip/impl/fns_userelt.hpp','src/ovxx/view/operators.hpp','src/ovxx/expr/unary.hpp','src/ovxx/expr/binary.hpp','src/ovxx/expr/ternary.hpp'],
  [('adapters','src/vsip/impl/fns_userelt.hpp'),('type of a unary view','src/ovxx/view/operators.hpp')])
p('B05','Serialization descriptors tell the truth and compatibility is exact',
  'describe_data and describe_user_storage record element type, dimension, sizes, strides and format of the data; is_compatible<B> accepts exactly the descriptors with the element type (integral types by size and signedness), the dimension and the dense strides of B, and a block rebound to described data reads the same elements.',
  [I,C],'all descriptors (type codes, dimensions, sizes, strides including negative ones), element types, orders of dimensions and packings',
  'Tests only feed back descriptors that match; a check that never refuses passes them, and a wrongly accepted descriptor reads memory that is not there.',
  ['src/vsip/serialization.hpp','src/ovxx/strided.hpp','src/vsip/dense.hpp'],
  [('compatibility','src/vsip/serialization.hpp'),('descriptors','src/vsip/serialization.hpp')],
  note='The field storage_size counts elements in one function and scalars in the other; its unit is not documented and not judged.')
p('S10',"The library's own Fourier transform computes the same definition",
  'In configurations without FFTW, Fft and Fftm use a backend of the library itself; for all dimensions, types, directions, axes, layouts, return mechanisms and scales the result is the defining sum, in place or not, with interleaved or split complex storage.',
  [I,C],'all element values and extents in the domains of S08 and S09, both precisions, strides and formats',
  'The backend is not compiled in the configuration that the tests run; even there they compare with it rather than test it.',
  ['src/ovxx/signal/fft/dft.hpp','src/ovxx/signal/fft.hpp','src/ovxx/signal/fft/workspace.hpp','src/ovxx/signal/fft/backend.hpp'],
  [('half spectra','src/ovxx/signal/fft/dft.hpp'),('multi-dimensional passes','src/ovxx/signal/fft/dft.hpp')])
p('R01','Storage lives exactly as long as its last owner',
  'Counted pointers, blocks, views, sub-views, expression results, serial and signal objects keep what they refer to alive and destroy it exactly once, when the last owner goes, in the way it was obtained; copies and assignments (also of null, to itself, or along a chain) leave the counts right; nothing is accessed after it is gone and nothing is left behind.',
  [I,H],'every sequence of copies, assignments and destructions in the listed shapes, from every initial number of owners; all sizes',
  'A release too few or too many shows only under particular numbers of owners; without instrumentation it usually passes.',
  ['src/ovxx/refcounted.hpp','src/ovxx/aligned_array.hpp','src/ovxx/view/view.hpp','src/ovxx/strided.hpp','src/ovxx/storage/user.hpp','src/ovxx/storage/host.hpp','src/ovxx/allocator.hpp'],
  [('counted pointers','src/ovxx/refcounted.hpp'),('storage of blocks','src/ovxx/storage/host.hpp'),('views','src/ovxx/view/view.hpp')])
p('R02','Library objects set up and tear down exactly once, in any order and thread',
  'Every thread that has a library object has an allocator and a communicator of its own; MPI is initialised by the first library object of the process and finalised with the last one, unless the program did so itself; after the last object nothing is left behind and the program may start over.',
  [I,H,S],'every history of library objects coming and going in up to three threads (interleaved at the level of calls), MPI initialised by the library or by the program',
  'Tests construct one library object in main().',
  ['src/ovxx/library.cpp','src/ovxx/allocator.cpp','src/ovxx/mpi/service.cpp','src/ovxx/mpi/communicator.cpp','src/vsip/initfin.hpp'],
  [('counts of users','src/ovxx/library.cpp'),('thread-local state','src/ovxx/mpi/communicator.cpp'),('MPI ownership','src/ovxx/mpi/service.cpp')],
  note='Calls are atomic in this model; what happens when they overlap is T01.')
p('T01','State shared by threads is synchronised',
  'Library objects, blocks, views and transforms may be used in several threads as long as no element is: every variable the library shares between threads is accessed under a common lock, initialised once under a guard, or atomic; reference counts order destruction after the last use; no lock is taken twice or in opposite orders or kept on a way out.',
  [I,S],'all interleavings of calls in any number of threads (the argument is about locks held, not about schedules)',
  'Races need particular timing; the tests are single-threaded.',
  ['src/ovxx/library.cpp','src/ovxx/refcounted.hpp','src/ovxx/thread.hpp','src/ovxx/fftw/fft.cpp','src/ovxx/fftw/fftw.cpp','src/ovxx/mpi/datatype.hpp','src/vsip/impl/parallel.hpp','src/ovxx/mpi/service.cpp','src/ovxx/allocator.cpp'],
  [('library set-up','src/ovxx/library.cpp'),('reference counts','src/ovxx/refcounted.hpp'),('planner','src/ovxx/fftw/fft.cpp')],
  tech='lockset and happens-before analysis (must-held locks, one-time guards, atomics, release/acquire of counts, lock order) over the LLVM IR of all translation units', level='proof',
  note='All library sources and one program instantiating the templates are lowered to LLVM IR from the current tree; for each variable with static storage every access is found and the locks held there are a must-analysis. Trusts clang 18, engine/lockset.cpp and the assumptions listed in the evidence.')
p('V04','View utilities: iteration, casts, clones, comparison do what they name',
  'Iterators over the processors of a map visit exactly the holders of a subblock, in order, with the usual meaning of pre- and post-increment, copy and assignment, and change nothing; view_cast converts every element; clone_view and create_view give views of the right sizes with their own storage; convert_to_local gives all elements on every process; equal compares all elements within the stated tolerance; lengths, vertices and projected domains keep their components.',
  [I,C],'all element values, sizes, strides, positions and map shapes in the listed tables',
  'Tests use these helpers as tools and never judge them; a comparison that always succeeds would make them all pass.',
  ['src/ovxx/value_iterator.hpp','src/ovxx/vector_iterator.hpp','src/ovxx/view/cast.hpp','src/ovxx/view/utils.hpp','src/ovxx/equal.hpp','src/ovxx/is_same_ptr.hpp','src/ovxx/length.hpp','src/ovxx/vertex.hpp','src/ovxx/domain_utils.hpp'],
  [('iterators','src/ovxx/value_iterator.hpp'),('comparison','src/ovxx/equal.hpp'),('local copies','src/ovxx/view/utils.hpp')])
p('V05','Printed text of views, domains and indexes names every element once, in order',
  'Inserting a domain, index or length into a stream prints its components in order; inserting a vector, matrix or tensor prints every element exactly once in row-major index order whatever the storage order, labels rows (and planes) with their index, puts each row on a line of its own, and separates neighbouring numbers.',
  [I,C],'all sizes (including empty), strides, storage orders, element values',
  'No test reads what is printed.',
  ['src/ovxx/output.hpp'],
  [('inserters','src/ovxx/output.hpp')])
p('V06','Timers count seconds, time points add up, byte swapping reverses every component',
  'A timer reports the seconds between its (re)start and the reading, from a clock that is never set back, reading does not restart it, and copies keep its start; durations and time points form consistent sums and differences from zero on; byteswap reverses the bytes of a value, of each part of a complex value, exactly when asked, and nothing else.',
  [I,H],'all clock readings, durations, values of every element type',
  'Tests only wait a moment and print; byte swapping was never instantiated.',
  ['src/ovxx/timer.hpp','src/ovxx/chrono.hpp','src/ovxx/byteswap.hpp'],
  [('timer','src/ovxx/timer.hpp'),('clock and time points','src/ovxx/chrono.hpp'),('byte order','src/ovxx/byteswap.hpp')])
p('N01','Results are as accurate as the precision of the element type allows',
  'Transforms, solvers, reductions and functions have rounding errors bounded by a modest multiple of the unit roundoff, and do not overflow where the result is representable.',
  [I],'all finite inputs',
  'Tests compare a few inputs with loose tolerances.',
  ['src/ovxx/signal/window.cpp','src/ovxx/lapack/lu.hpp','src/ovxx/signal/fft/dft.hpp','src/ovxx/reductions/functors.hpp'],
  [('accumulation order','src/ovxx/reductions/functors.hpp')],
  na='Error bounds depend on run-time data (condition, cancellation) and on BLAS, LAPACK and FFTW, whose arithmetic is outside the repository; the summaries read floating point as exact reals, and no sound static bound in reach says more than the trivial one.')
p('N02','Communication never deadlocks, whatever the MPI implementation buffers',
  'Every collective call of the library completes on every process for every schedule and every amount of buffering that MPI guarantees.',
  [S],'all schedules, message sizes and buffer limits',
  'Deadlocks need messages larger than the eager limit or an exhausted attached buffer.',
  ['src/ovxx/mpi/communicator.hpp','src/ovxx/parallel/assign_chain.hpp','src/ovxx/parallel/assign_block_vector.hpp','src/ovxx/mpi/service.cpp'],
  [('buffered sends','src/ovxx/mpi/communicator.hpp')],
  na='Whether a buffered send finds room depends on how many earlier messages the other processes have already received, on the fixed size of the attached buffer and on run-time message sizes; the order of calls per process is covered by P02, the amount of data in flight is a run-time quantity that no static argument in reach bounds.')
p('N03','Evaluators are as fast as their dispatch suggests',
  'Dispatching to BLAS, FFTW or strided evaluators never costs more than the generic path, and expressions make no needless copies.',
  [C],'all expressions and sizes','Tests do not measure.',
  ['src/ovxx/dispatch.hpp','src/ovxx/assign.hpp'],[('dispatch','src/ovxx/dispatch.hpp')],
  na='Performance is a property of executions on a machine; a static count of copies would not decide it.')
p('N04','The bindings that this build leaves out behave like the C++ library',
  'The C interface (cvsip), the Python module, the OpenCL and CUDA evaluators and the HDF5 and NumPy file functions give the results of the C++ functions they wrap.',
  [I,C],'all calls of these interfaces','They are not built by the tests here.',
  ['src/ovxx/cvsip','src/ovxx/python','src/ovxx/opencl'],[('wrappers','src/ovxx/cvsip')],
  na='The C interface wraps, and the HDF5 functions need, libraries (vsip.h, hdf5.h) that are not installed, so there is no type-checked program to start from; the Python and OpenCL layers are thin calls into boost.python and a device runtime whose behaviour, not the glue, decides the results, and the pinned configuration builds neither.')
