"""Source of properties.jsonl (edit here, then run)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('P01','Copies are independent values and inputs are never modified',
 'Vectors, index vectors, real and complex tensors and sparse matrices behave as independent values: whatever history of copying, assignment, reshaping, slicing and mutation produced them, a change made through one handle is never visible through any other handle, and it is visible through the handle that made it. A library function never changes an argument that it takes by value or by constant reference.',
 ['histories','inputs'],
 'all finite histories of construct / copy / assign / reshape / slice / mutate over a pool of live handles; all argument values of the read-only functions',
 'test_refcount and test_tensor_getset make one copy and one write; the guarantee is about arbitrary interleavings of copies and writes over many handles, where a missed detach shows only in a particular order.',
 ['include/tensor/refcount.h','include/tensor/detail/refcount.hpp','include/tensor/vector.h','include/tensor/tensor.h','include/tensor/detail/tensor_base.hpp','src/tensor/tensor_view.hpp'],
 [('copy-on-write detach before mutable access','include/tensor/detail/refcount.hpp'),('mutable begin()/at()/at_seq() go through the detaching pointer','include/tensor/vector.h, include/tensor/detail/tensor_base.hpp')],
 ['element values of every live handle after every step','bit patterns of all arguments before and after each call'],
 [('reference count','number of handles sharing one buffer','include/tensor/refcount.h')])

p('P02','Valid calls are free of memory errors, leaks and undefined behaviour',
 'A program that uses the public interface within its documented preconditions, including with empty and one-element tensors, performs no out-of-bounds access, no use of freed or uninitialised memory, no double free, no undefined arithmetic and no invalid call into BLAS, LAPACK, ARPACK or FFTW. Everything the library allocates is released once the last handle to it is gone.',
 ['inputs','histories','programs'],
 'all valid calls of the public API, over every shape including degenerate ones, and all lifetimes of the returned objects',
 'The suite runs without sanitizers, so an overflow of a few bytes, a leak or a read of stale memory passes; it also rarely combines empty dimensions with the less used routines.',
 ['include/tensor/refcount.h','include/tensor/detail/refcount.hpp','include/tensor/detail/tensor_base.hpp','src/tensor','src/sparse','src/linalg','src/arpack','src/fftw','src/sdf','src/tools'],
 [('owned buffers freed by the last reference','include/tensor/detail/refcount.hpp'),('work arrays sized from LAPACK/ARPACK formulas','src/linalg, src/arpack/arpack_t.cc'),('map objects freed by the solver that consumes them','src/linalg/cgs.cc, src/linalg/eig_power.hpp, src/arpack')],
 ['sanitizer and memcheck reports','bytes allocated before and after each workload'])

p('P03','Misuse is stopped by a check before any result is produced',
 'In the default (assertion enabled) build a call that violates a documented precondition - an element index given in parentheses or to at() outside the bounds, a wrong number of indices or ranges, a range that leaves the tensor, a slice assigned from a tensor with another number of elements, operands with different numbers of elements in an elementwise operation, comparison or scalar product, mismatched contracted dimensions or an index of a tensor that it does not have, a reshape that changes the number of elements, a matrix operation on a tensor that is not a matrix, inconsistent parts of a sparse matrix, a non-square or mismatched linear system, exponential or eigenvalue problem or one asking for no or too many eigenvalues, the extremes or the spectrum of nothing, the use of a closed data file - aborts the program. It never returns a value and never touches memory outside its operands. (Sequential access with operator[], iterators and Vector::at is unchecked by design.)',
 ['inputs'],
 'all violating argument combinations of element access, slicing, elementwise, comparison, contraction, reshape, sparse and linear algebra calls',
 'The death tests try a few fixed violations of a few functions; boundary cases (one past the end, one below the negative range, wrong in just one of several dimensions) are infinite and untested.',
 ['include/tensor/detail/functional.h','include/tensor/detail/common.h','include/tensor/detail/tensor_base.hpp','include/tensor/detail/tensor_ops.hpp','src/views/range.cc','src/tensor/tensor_fold.cc','src/tensor/tensor_foldin.cc','src/linalg','src/sparse'],
 [('assertions on indices, ranks and dimensions','include/tensor/detail/*.hpp, src/**'),('explicit abort() in solvers','src/linalg/solve_d.cc, src/arpack/eigs_d.cc')],
 ['termination status of the calling process'])

p('P04','Element addressing is column-major with negative indices from the end',
 'A tensor built with dimensions d0..dk-1 and given data returns, for every valid multi-index, the datum at the column-major position, where an index -m means d-m; writing one element through any access form changes exactly that element. Constructors, generators and the zeros, ones and eye builders produce exactly the documented dimensions and contents.',
 ['inputs'],
 'all ranks 0..8, all dimension vectors (empty, unit and large dimensions), all multi-indices, all access forms, real and complex',
 'Tests sweep small shapes with positive indices; mixed negative indices, the index-vector form beyond rank six, and non-interference of a write with every other element are not swept.',
 ['include/tensor/tensor.h','include/tensor/detail/tensor_base.hpp','include/tensor/detail/functional.h','include/tensor/gen.h','include/tensor/vector.h','src/tensor/tensor_d.cc','src/tensor/tensor_z.cc'],
 [('column-major offset computation','include/tensor/detail/functional.h'),('negative index normalisation','include/tensor/detail/common.h')],
 ['values returned by operator(), operator[], at, at_seq and iterators'])

p('P05','Slices read and write exactly the selected elements',
 'Reading a slice returns, in order, exactly the elements selected by the Cartesian product of its ranges (full, single, start-stop, strided, list), with the shape given by the range sizes; negative bounds and list entries count from the end of the dimension. Assigning a number, a tensor or another slice to a slice changes exactly those elements, to the right values, and nothing else.',
 ['inputs'],
 'all tensors of rank 1..6, all combinations of range kinds per dimension (negative bounds, repeated list entries, empty selections), and all right-hand sides',
 'Tests enumerate a few range kinds on small shapes with non-negative bounds; mixed kinds, negative bounds, strides that do not divide the extent, empty selections and self-referential assignments are not covered.',
 ['src/views/range.cc','include/tensor/detail/tensor_slice.hpp','src/tensor/tensor_view.hpp','include/tensor/indices.h','include/tensor/tensor.h'],
 [('range iterators and their product','src/views/range.cc'),('view evaluation and assignment loops','src/tensor/tensor_view.hpp, include/tensor/detail/tensor_slice.hpp')],
 ['dimensions and elements of the extracted or assigned tensor'])

p('P06','Shape operations move elements without losing or altering any',
 'Reshape, flatten and squeeze keep the column-major sequence of elements and change only the dimensions; permute, transpose and adjoint place the element of every multi-index exactly where the index exchange says (conjugated for adjoint); change_dimension keeps the leading part of the given dimension, zero fills what is new and leaves the other dimensions alone. Index arguments may be negative, counting from the end, and exchanging twice restores the original.',
 ['inputs'],
 'all ranks 1..6, all shapes including empty and unit dimensions, all index pairs, real and complex',
 'Tests check fixed shapes against hand-written results; the blocked loops behave differently for leading, middle and trailing dimensions of size zero, one and many.',
 ['src/tensor/tensor_permute.cc','src/tensor/matrix_transpose.cc','src/tensor/matrix_adjoint.cc','src/tensor/tensor_change_dimension.cc','src/tensor/tensor_squeeze.cc','src/tensor/tensor_reshape_d.cc','src/tensor/tensor_flatten_d.cc','src/indices/surrounding_dimensions.cc'],
 [('collapse to a five-index array around the exchanged indices','src/tensor/tensor_permute.cc'),('block copies','src/tensor/tensor_change_dimension.cc')],
 ['dimensions and elements of results'])

p('P07','Elementwise arithmetic equals scalar arithmetic element by element',
 'For tensors of equal dimensions and for tensor-number combinations in either order, every arithmetic operator, its compound assignment form, negation, conversion between real and complex, rounding and every elementwise mathematical function gives a tensor of the same dimensions in which each element is the scalar result for the corresponding elements, in real, complex and mixed arithmetic. This includes infinities, NaN, signed zeros and operands that alias each other.',
 ['inputs'],
 'all shapes (including empty), all finite and special values, all operand type combinations, aliased operands',
 'Tests compare on random values in [0,1) for small shapes; special values, wide magnitudes, mixed-type combinations and aliasing such as a -= a are left out.',
 ['include/tensor/detail/tensor_ops.hpp','include/tensor/tensor.h','src/generated','src/tensor/tensor_t_op_t.cc','src/tensor/tensor_t_op_n.cc','src/tensor/tensor_unop.cc','src/tensor/tensor_round_d.cc','src/tensor/tensor_conj.cc','include/tensor/numbers.h'],
 [('generated loops, one per operator and operand type','src/generated'),('compound operators','include/tensor/detail/tensor_ops.hpp')],
 ['elements of results'])

p('P08','Comparisons, boolean vectors and index vectors obey elementwise logic',
 'Every comparison between two tensors or index vectors, or between one of them and a number on either side, yields in each position the truth value of the scalar comparison in the written operand order; the boolean operators combine positions pointwise. The quantifiers all_of, any_of, none_of, all_equal and some_unequal, the position list of the true entries, index ranges and concatenation agree with those positions.',
 ['inputs'],
 'all tensors, index vectors and booleans of equal size, including empty and with ties and NaN, every comparison operator, number on either side',
 'Tests only compare tensors with tensors and with numbers on the right for a few values; ties, NaN, empty operands and numbers on the left are missing.',
 ['src/compare','include/tensor/tensor.h','include/tensor/indices.h','src/indices/booleans.cc','src/indices/booleans_and.cc','src/indices/booleans_or.cc','src/indices/booleans_not.cc','src/indices/which.cc','src/indices/indices.cc','src/indices/concat.cc'],
 [('generated comparison loops','src/compare'),('number-first operators rewritten as tensor-first ones','include/tensor/tensor.h, include/tensor/indices.h')],
 ['boolean vectors, indices and quantifier results'])

p('P09','Contractions equal the sum over the contracted index',
 'The outer contraction, its conjugating variant, the inner contraction and the matrix product return, for every multi-index of the result in the documented index order, the sum over the contracted index of the products of elements, for real, complex and mixed operands of any rank, with negative index arguments counting from the end. The variants that store into a given target leave in it the same tensor that the value-returning variants produce.',
 ['inputs'],
 'all rank pairs 1..5 x 1..5, all contracted index pairs, all compatible shapes including empty and unit dimensions and shapes large enough to reach the optimised BLAS kernels, real, complex and mixed',
 'Tests use small shapes against a slow loop with the library doing the permutation; degenerate dimensions, complex conjugation with mixed types and the into variants are barely exercised.',
 ['src/tensor/tensor_fold.cc','src/tensor/tensor_fold_dz.cc','src/tensor/tensor_foldin.cc','src/tensor/gemm.cc','include/tensor/tensor_blas.h'],
 [('choice of BLAS call by position of the contracted index','src/tensor/tensor_fold.cc'),('strided loop of small products','src/tensor/tensor_foldin.cc')],
 ['dimensions and elements of results, against naive sums with a rounding bound'])

p('P10','Diagonals, traces and index scaling follow their index formulas',
 'diag places a vector on the requested diagonal of an otherwise zero matrix of the requested size, take_diag and the matrix diagonal extraction return exactly the elements with the two given indices related by the offset, trace returns the sum over equal values of the two indices, and scale multiplies each element by the factor of the given index, in and out of place. All of them keep the order of the remaining indices and accept negative index arguments.',
 ['inputs'],
 'all ranks 1..5, all index pairs, all offsets for which the diagonal exists, all shapes, real and complex',
 'Tests use symmetric situations (square, adjacent indices, zero offset) in which exchanged extents or indices cannot be seen.',
 ['src/tensor/matrix_diag.cc','src/tensor/tensor_take_diag.cc','src/tensor/tensor_trace.cc','src/tensor/matrix_trace.cc','src/tensor/tensor_scale.cc','include/tensor/detail/tensor_base.hpp'],
 [('collapse to surrounding dimensions','src/indices/surrounding_dimensions.cc')],
 ['dimensions and elements of results'])

p('P11','Reductions, norms, sorting and linear spacing are exact',
 'sum, mean, minimum, maximum, the scalar product and the maximum, Euclidean and infinity matrix norms equal their definitions over all the elements up to rounding, and the mean along one index removes that index and averages over it. Sorting returns an ordered permutation of its input, sort_indices the permutation that achieves it, in both directions; linspace returns equally spaced values that include both ends.',
 ['inputs'],
 'all shapes and values (ties, infinities of one sign, huge and tiny magnitudes, both signs), both sort directions, all linspace sizes',
 'Most of these functions have no test at all in the suite, and the others only on random values in [0,1).',
 ['src/tensor/tensor_sum_d.cc','src/tensor/tensor_mean_d.cc','src/tensor/tensor_mean_ndx.cc','src/tensor/tensor_min_d.cc','src/tensor/tensor_max_d.cc','src/tensor/tensor_norm0_d.cc','src/tensor/tensor_norm2_d.cc','src/tensor/matrix_norminf_d.cc','src/tensor/tensor_sort_d.cc','src/tensor/tensor_sort_i.cc','src/indices/linspace_d.cc','src/indices/linspace_z.cc'],
 [('single pass loops','src/tensor/tensor_*_d.cc, tensor_*_z.cc'),('std::sort over values or index keys','src/tensor/tensor_sort_d.cc')],
 ['scalar results, permutations'])

p('P12','Kronecker products and sums follow their block definition',
 'For vectors and matrices, element (i,j) of kron(A,B) with the row and column of A varying slowest is the product of the elements of A and B, kron2 is kron with its arguments exchanged, and the Kronecker sum of two square matrices equals the sum of the Kronecker products with identities. Dimensions are the products of the dimensions, also when some are zero.',
 ['inputs'],
 'all vector and matrix shape pairs, non-square and empty included, real and complex',
 'The Kronecker sum has no test at all; the product is tested for small matrices but not for vectors.',
 ['src/tensor/tensor_kron.hpp','src/tensor/tensor_kron_d.cc','src/tensor/tensor_kron_z.cc','src/tensor/tensor_kron2_sum_d.cc','src/tensor/tensor_kron2_sum_z.cc'],
 [('nested pointer loops','src/tensor/tensor_kron.hpp')],
 ['dimensions and elements of results'])

p('P13','Sparse matrices are well formed and mean the matrix they were built from',
 'Every sparse matrix produced by the library, from a dense matrix, from row-column-value lists in any order, from eye, random, conversion or an operation, is in canonical compressed row form: monotone row offsets covering the data exactly, and strictly increasing in-range columns within each row. Converting it to dense gives exactly the matrix it was built from, element access agrees with the dense form, and its length is the number of stored elements.',
 ['inputs'],
 'all shapes (including empty rows, columns and matrices), densities and orders of the triplet list, with inferred or explicit dimensions',
 'Tests build from dense matrices and one ordered diagonal list of size two; unordered lists, inferred sizes and empty rows at the ends are untested, and no test checks the internal invariant of results.',
 ['src/sparse/sparse_d_to_z.cc','src/sparse/sparse_d.cc','include/tensor/sparse.h','include/tensor/detail/sparse_base.hpp','src/sparse/full_d.cc'],
 [('sort of the triplets and row offset accumulation','src/sparse, include/tensor/detail/sparse_base.hpp')],
 ['row offsets, columns, values; dense form'],
 [('row_start_, column_, data_','compressed row storage','include/tensor/sparse.h')])

p('P14','Sparse algebra agrees with dense algebra',
 'For sparse matrices, addition, subtraction, elementwise product, scaling by numbers, comparison, transposition, adjoint, real and imaginary parts, conjugation, Kronecker products and sums, and products with dense tensors from either side give the same matrix as the dense operation on the dense forms, up to rounding.',
 ['inputs'],
 'all compatible shapes and sparsity patterns (disjoint, overlapping, cancelling, empty rows), real and complex',
 'The tests exercise a few of these operations on random patterns; products with a dense tensor on the left, Kronecker sums and cancellation are not covered.',
 ['include/tensor/detail/sparse_ops.hpp','src/sparse/mmult_sparse_tensor.h','src/sparse/mmult_tensor_sparse.h','src/sparse/sparse_kron.hpp','src/sparse/sparse_transpose_d.cc','src/sparse/sparse_adjoint_z.cc'],
 [('row-wise merge of two patterns','include/tensor/detail/sparse_ops.hpp'),('row-wise dot products','src/sparse/mmult_*')],
 ['dense form of results against dense algebra'])

p('P15','Linear solvers return solutions of the system they were given',
 'For a well conditioned system the direct solver, the singular value based solver and (for Hermitian positive definite operators given as matrix, sparse matrix or function) the conjugate gradient solver return X with the dimensions of the unknowns such that A X equals B within a rounding bound, for one or many right-hand sides. The singular value based solver returns the minimum norm least squares solution for rectangular and rank deficient matrices, and the direct solver aborts on an exactly singular matrix.',
 ['inputs'],
 'all sizes, right-hand side shapes, spectra, start vectors; real and complex; rectangular and rank deficient matrices for the singular value based solver',
 'Tests use well scaled square systems; least squares, rank deficiency, tensors as right-hand side and sparse conjugate gradients are not tested.',
 ['src/linalg/solve_d.cc','src/linalg/solve_z.cc','src/linalg/solve_with_svd_d.cc','src/linalg/solve_with_svd_z.cc','src/linalg/cgs.cc','include/tensor/linalg.h'],
 [('LU solve through LAPACK','src/linalg/solve_d.cc'),('discarding singular values under the tolerance','src/linalg/solve_with_svd_d.cc'),('conjugate gradient recurrence','src/linalg/cgs.cc')],
 ['residual A X - B, normal equations, norm of X'])

p('P16','Singular value decompositions reconstruct the matrix',
 'For every matrix the singular values are nonnegative and in decreasing order, the factors are isometries of the documented full or economic sizes, and their product with the singular values reproduces the matrix up to rounding, for the plain and for the block decomposition, real and complex. Asking for fewer outputs returns the same singular values, and both algorithms agree on them.',
 ['inputs'],
 'all shapes, ranks and sparsity block structures (square and rectangular blocks, zero rows and columns), with each combination of requested outputs',
 'The block algorithm is only tested on dense matrices and the identity, so matrices with several blocks, rectangular blocks or empty rows are never decomposed.',
 ['src/linalg/svd_d.cc','src/linalg/svd_z.cc','src/linalg/block_svd.hpp','src/linalg/find_blocks.hpp'],
 [('LAPACK driver and buffer sizes','src/linalg/svd_d.cc'),('partition of rows and columns into blocks','src/linalg/find_blocks.hpp'),('assembly and sorting of the block results','src/linalg/block_svd.hpp')],
 ['U, S, V: orthonormality, order and reconstruction residual'])

p('P17','Dense eigenvalue decompositions satisfy the eigenvalue equations',
 'For every square matrix the general solver returns all eigenvalues with multiplicity and, on request, right and left eigenvectors of unit norm that satisfy A R = R D and adjoint(L) A = D adjoint(L) up to rounding, with conjugate pairs for real matrices. For Hermitian matrices the symmetric solver returns real eigenvalues in ascending order and a unitary matrix of eigenvectors.',
 ['inputs'],
 'all sizes and spectra, including defective-free nonnormal, complex pairs in real matrices, degenerate and diagonal matrices, every combination of requested outputs',
 'Tests only decompose matrices with prescribed real spectra; left eigenvectors of nonsymmetric matrices and complex pairs are hardly seen.',
 ['src/linalg/eig_d.cc','src/linalg/eig_z.cc','src/linalg/eig_sym_d.cc','src/linalg/eig_sym_z.cc'],
 [('LAPACK drivers and the unpacking of conjugate pairs','src/linalg/eig_d.cc')],
 ['residuals, trace, unit norms, orthogonality'])

p('P18','Partial eigensolvers return the requested end of the spectrum',
 'For matrices up to size 20 with distinct selection keys, and for larger ones whose requested end is set well apart from the rest, the partial eigensolver converges and returns the requested number of eigenvalues at the requested end of the spectrum (largest or smallest modulus, real part or imaginary part), and the vectors satisfy the eigenvalue equation, whether the operator is given as a real symmetric or general complex dense matrix, a sparse matrix or a function, and whatever start vector is supplied. The power method returns the dominant eigenvalue and a unit eigenvector for the right and the left problem when the dominant eigenvalue is isolated; for an operator all of whose eigenvalues are zero that is zero and a vector the operator annihilates.',
 ['inputs'],
 'all sizes from 1, numbers of eigenvalues below the size, selectors, spectra with a gap, operator forms and start vectors',
 'Tests use the identity and permuted diagonals with one eigenvalue, never compare selectors on a general spectrum, never use the function form, and the left power method is not run on a nonsymmetric matrix.',
 ['src/arpack/arpack_t.cc','src/arpack/eigs_d.cc','src/arpack/eigs_z.cc','src/arpack/eigs_map_d.cc','src/arpack/eigs_map_z.cc','src/arpack/eigs_sp_d.cc','src/linalg/eig_power.hpp','src/linalg/eig_power_sp_d.cc'],
 [('reverse communication loop with ARPACK','src/arpack/arpack_t.cc'),('dense fallback and sorting for small sizes','src/arpack/eigs_d.cc')],
 ['eigenvalues against the known spectrum, residuals'])

p('P19','The matrix exponential is accurate for every norm',
 'expm(A) equals the matrix exponential up to a rounding bound for every square matrix, small or large norm, nilpotent, diagonal, nonnormal, zero, real or complex: it matches the exponential computed from a known spectral decomposition or series, expm(-A) inverts it, and real and complex routines agree.',
 ['inputs'],
 'all sizes, norms from 0 to about 50, structures and orders of approximation',
 'Tests check a handful of diagonal, nilpotent and rotation matrices; the number of squarings depends on the norm and no test crosses the thresholds systematically.',
 ['src/linalg/expm_d.cc','src/linalg/expm_z.cc'],
 [('Pade approximation with scaling and squaring','src/linalg/expm_d.cc')],
 ['elements of the exponential'])

p('P20','Fourier transforms match the discrete Fourier sum and invert each other',
 'The forward and backward transforms over all, one or a chosen subset of the indices equal the unnormalised discrete Fourier sum of the requested sign over exactly those indices, out of place and in place, and forward followed by backward multiplies by the number of points. The shift functions rotate each selected index so that the frequencies run from minimum to maximum and the backward shift undoes it, for even and odd extents.',
 ['inputs'],
 'all ranks 1..5, all extents (unit, prime, even, odd), all index subsets, both directions',
 'Tests compare a few shapes with the slow sum; subsets of indices, shifts of odd extents and inverse shifts are hardly covered.',
 ['src/fftw/fftw.cc','src/fftw/fftw_inplace.cc','src/fftw/fftshift.cc','include/tensor/fftw.h'],
 [('FFTW guru plans from dimensions and strides','src/fftw'),('rotation by half the extent','src/fftw/fftshift.cc')],
 ['elements of results against a naive transform'])

p('P21','What is dumped to a data file is what is loaded from it',
 'Any sequence of integers (up to 2^53), real and complex numbers, real and complex tensors and lists of tensors, dumped under any names of up to 63 characters by one or several sessions, is loaded back in the same order with the same names, dimensions and bit-identical contents. Reopening a file in shared mode appends and never disturbs earlier records, while the overwrite and the careful (paranoid) mode leave exactly the records of the new session.',
 ['inputs','histories'],
 'all sequences of record types, names, shapes and values (NaN, infinities, signed zeros, empty tensors and lists included), split over any number of sessions and each open mode',
 'The tests write one or two records per file with one session and random numbers; mixed sequences, reopening and special values are not covered.',
 ['src/sdf/odata_file.cc','src/sdf/idata_file.cc','src/sdf/data_file.cc','include/tensor/sdf.h'],
 [('tagged records with dimensions and raw data','src/sdf/odata_file.cc, src/sdf/idata_file.cc')],
 ['values read back, file contents'])

p('P22','An interrupted careful write never damages the file it replaces',
 'When a data file is written in the careful (paranoid) mode and the writing process dies at any instant or a write to the disk fails, the file of that name is afterwards either exactly what it was before the session or exactly the complete new contents. After a completed session it holds the complete new contents and no temporary file remains.',
 ['crash_points','fault_sequences'],
 'all crash points between the opening and the end of the session (before and after every system call that touches the file system), with and without a previous file, and failing writes at any point',
 'No test kills a writer; the guarantee is about every crash point.',
 ['src/sdf/data_file.cc','src/sdf/odata_file.cc','src/sdf/rename_file.cc','include/tensor/sdf.h'],
 [('write to a temporary name, rename on close','src/sdf/data_file.cc, src/sdf/odata_file.cc')],
 ['directory contents and file bytes after the crash'])

p('P23','Shared data files give one process at a time access and lose no record',
 'While one process has a data file open in shared mode no other process has it open in shared mode, for any number of processes that open, append, read and close it concurrently. Every record whose session completed is in the file exactly once, unmixed with others, and readers only ever see whole records.',
 ['schedules','histories'],
 'all interleavings of several processes that open in shared mode for writing or reading, append records and close',
 'The tests use a single process, so the lock file protocol is never contended.',
 ['src/sdf/data_file.cc','src/sdf/rename_file.cc','src/sdf/odata_file.cc','src/sdf/idata_file.cc'],
 [('exclusive lock on a companion file','src/sdf/rename_file.cc, src/sdf/data_file.cc')],
 ['event log of session begin and end over all processes; final file contents'])

p('P24','Damaged or foreign data files are rejected, not misread',
 'Loading from a file that is missing, truncated anywhere, not a data file or written with other word sizes or byte order, or whose next record has another name or type than the one requested, stops the program. It never yields values that were not written to the file and never reads outside its buffers; a dump that the system could not write completely is likewise never reported as done.',
 ['inputs','fault_sequences'],
 'all truncation points of valid files, corruptions of headers, names and type codes, mismatched requests, and write errors at any point (missing directory, full device)',
 'No test reads a damaged file.',
 ['src/sdf/idata_file.cc','src/sdf/data_file.cc'],
 [('header check, tag check and stream state checks','src/sdf/idata_file.cc')],
 ['termination status or values delivered'])

p('P25','Job parameter grids are enumerated and divided exactly once',
 'A job described by variables with ranges enumerates every combination of the parameter values exactly once, with the documented spacing and both ends included, whether the variables come from the command line or from a job file. Splitting the jobs over blocks or job ranges, with the documented defaults, assigns each job to exactly one block, for every number of blocks, and values are reproducible from the job number alone. The data set record of a job can be created only once, belongs to that job only, and is reported as existing from then on.',
 ['inputs','configurations'],
 'all variable lists, numbers of steps, numbers of blocks (more or fewer than jobs), job ranges and defaults',
 'Tests iterate single jobs with one block; the division into blocks, job files and the defaults are not tested.',
 ['src/tools/jobs.cc','src/tools/jobs_save.cc','src/tools/jobs_dataset.cc','include/tensor/jobs.h'],
 [('mixed radix decoding of the job number','src/tools/jobs.cc'),('block limits','src/tools/jobs.cc')],
 ['variable values for each job; set of jobs per block'])

p('P26','Random numbers are reproducible and inside their interval',
 'After seeding, the generator produces the reference 64-bit Mersenne Twister sequence, so that equal seeds give equal numbers of every type and different seeds different ones. Every number lies inside its interval - [0,1) for reals and each part of a complex number drawn without bounds, from the lower bound (0 if not given) up to but not including the upper bound otherwise, and the bound itself when the interval is empty - and every integer of the interval can occur. Integers drawn without bounds spread over the whole range of their type (of its non-negative part for signed long integers).',
 ['inputs','histories'],
 'all seeds, all sequences of draws of mixed types, all bounds including negative, large and single valued ones',
 'Tests draw a few numbers and check only loose bounds; bounds near the limits of the types and the reference sequence are not covered.',
 ['src/rand/rand.cc','src/rand/rand64.cc','include/tensor/rand.h','src/rand/mt.h'],
 [('Mersenne twister state update','src/rand/rand64.cc'),('reduction to an interval','src/rand/rand.cc, include/tensor/rand.h')],
 ['drawn values against an independent implementation'])

p('P27','Operators built from matrices and functions act as what they wrap',
 'A map built from a dense or sparse matrix, applied to a vector or to a matrix, equals the product of the matrix with it, or of it with the matrix when built as transposed; a map built from a function, a function object or a function with bound arguments equals calling that function with those arguments in order. Matrix maps and bound arguments keep their own value of what they captured, so later changes to the originals do not alter them.',
 ['inputs','histories'],
 'all matrices, functions with one to five bound arguments and their later mutation',
 'Tests only reach maps through the conjugate gradient solver, never transposed, never sparse.',
 ['include/tensor/map.h','src/tools/map_d.cc','src/tools/map_sp_d.cc','src/tools/map.cc'],
 [('matrix and function adaptors','include/tensor/map.h, src/tools/map_*.cc')],
 ['results of applying the map'])

p('P28','Copies are lazy and sole owners write in place',
 'Copying, assigning, passing, reshaping or reading tensors and vectors never duplicates the elements: the copies share storage until one of them is written, and then exactly the writer moves to new storage of the same contents. Writing through the only handle of a tensor, and compound assignment on it, does not reallocate its elements.',
 ['histories'],
 'all histories of copies, const reads and writes over a pool of handles',
 'One test counts allocations for simple copies; sharing after longer histories (self assignment, reshape of a temporary, copies of copies, owner released first) is not examined.',
 ['include/tensor/refcount.h','include/tensor/detail/refcount.hpp','include/tensor/vector.h','src/tensor/tensor_reshape_d.cc'],
 [('reference count consulted at mutable access only','include/tensor/detail/refcount.hpp')],
 ['storage addresses and numbers of allocations'],
 [('reference count','number of handles sharing one buffer','include/tensor/refcount.h')])

p('P29','Printed tensors show their dimensions and elements in order',
 "Printing a vector gives its elements in order between brackets, printing a tensor or a sparse matrix gives its dimensions and all its elements in column-major order (zeros included), and the matrix form of a vector or matrix gives one row per line, each number in the format the stream has and complex numbers as their two parts; what is printed with 17 digits gives back every number exactly, complex ones through operator>>. Printing changes neither the object nor the format of the stream, returns the stream, and the matrix form of anything with more than two indices aborts.",
 ['inputs'],
 'all vectors, index vectors, generators, tensors (rank 0 to 6, empty included) and sparse matrices, with any values and any stream format',
 'No test looks at what is printed.',
 ['include/tensor/io.h','include/tensor/detail/io.hpp','src/views/matrix_form.cc','src/views/matrix_form_sp_d.cc','src/views/matrix_form_sp_z.cc'],
 [('element loop with separators','include/tensor/detail/io.hpp'),('row loop','src/views/matrix_form.cc')],
 ['text written to a stream and state of the stream'])

p('P30','Flags, clock, file helpers and abort handler do what they say',
 'Every flag created gets a key of its own and keeps the last value set for that key alone, in each set of flags separately, and keys that do not exist are refused; toc() gives the time since the last tic() or since the moment given. The file helpers answer truthfully whether a name exists or is a directory, create, delete and move exactly the named thing, leave everything else alone, report failure, and refuse to move what does not exist or over what may not be overwritten. After tensor_abort_handler() a failed check still ends the program with an error.',
 ['histories','inputs'],
 'all histories of flag operations, clock readings and file operations over names of any kind, existing or not, files, directories, sockets and pipes',
 'No test calls these functions except through the data files.',
 ['src/tools/flags.cc','include/tensor/flags.h','src/tools/tictoc.cc','src/tools/backtrace.cc','src/sdf/file_exists.cc','src/sdf/isdir.cc','src/sdf/make_directory.cc','src/sdf/delete_file.cc','src/sdf/rename_file.cc'],
 [('vector of values indexed by key','src/tools/flags.cc'),('system calls and their results','src/sdf/*_file.cc')],
 ['values returned, directory contents and end of child processes'])
p('P31','The step by step eigensolver follows its protocol',
 "An RArpack or CArpack object starts Initialized and is Running while update() asks for a product: get_x() is then a copy of the vector to multiply and get_x_vector() its place, the product may be handed over by set_y(), through get_y() or through get_y_vector(), as often as wanted before the next update, and changes nothing else. A run begins from the start vector given, uses no more products than the iterations granted allow, and ends Finished, with get_data() giving the requested end of the spectrum and, if asked, vectors that satisfy the eigenvalue equation, or TooManyIterations; the error message is empty unless there was an error. eigs() reports non-convergence with zeros through its flag, or aborts without one. An abandoned run does not disturb later ones, operators may keep every vector they get or give, and sort_values() orders by the selector. Selectors, sizes or numbers of values that do not exist, parameters changed late, vectors asked for outside the loop and products of the wrong size abort.",
 ['inputs','histories'],
 'all problem sizes, selectors, start vectors, tolerances and iteration limits, and all orders of calls on one solver at a time',
 'Tests only call eigs() on a few matrices; nothing drives the solver object, runs into its limits or keeps the vectors it hands out.',
 ['src/arpack/arpack_t.cc','include/tensor/arpack_d.h','include/tensor/arpack_z.h','src/arpack/eigs_map_d.cc','src/arpack/eigs_map_z.cc'],
 [('status after each reverse communication call','src/arpack/arpack_t.cc'),('loop of products and the converged flag','src/arpack/eigs_map_d.cc')],
 ['status, vectors asked for, results of the run and end of child processes'])

p('P32','The Python reader returns exactly what the library wrote',
 "python/sdf.py loads every named variable of a data file, the last one of each name, with the type, dimensions and elements it was written with (bit for bit, column-major, tensors without indices as empty arrays, vectors of tensors as lists), whatever the names, number of sessions, word size and byte order of the file, and leaves the file alone; a truncated file, an unknown type code or a header that is not one raises an exception instead of giving data. A directory of results is stacked along a new last index, in the order of the field it is sorted by, with lists kept as lists.",
 ['inputs','histories'],
 'all data files the library can write, the same files as a machine of other word size or byte order writes them, and their truncations',
 'No test runs the Python reader at all.',
 ['python/sdf.py','src/sdf/odata_file.cc','include/tensor/sdf.h'],
 [('record loop','python/sdf.py'),('format written','src/sdf/odata_file.cc')],
 ['variables returned by the reader process'])
import os
for d in P:
    for f in d['anchors']['files']:
        if not os.path.exists('/repo/'+f): print(d['id'],'missing',f)
    assert len(d['title'])<=80,(d['id'],len(d['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
