import json
A="include/array/array.h"; E="include/array/ein_reduce.h"; I="include/array/image.h"; M="include/array/matrix.h"; Z="include/array/z_order.h"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":m.strip(),"where":", ".join(files)} for m in mech.split(";")]}; a.update(kw)
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

p("C01","Array storage is conserved and never accessed outside its lifetime",
"Every block an array obtains from its allocator is returned exactly once, with the size it was requested with and through an allocator that compares equal to the one that supplied it, whatever sequence of constructions, copies, moves, assignments, reshapes, clears, swaps and destructions happens and wherever allocations, element operations or callbacks fail. No array operation reads or writes memory outside storage that is live at that moment (no stale, released or out-of-bounds access), and destroying every array leaves no block outstanding.",
["histories","fault_sequences","configurations"],
"All histories of operations on a population of arrays (any supported shape type, element type and allocator kind), with an allocation failure, element-operation failure or callback exception at any point of any operation.",
"test/array_lifetime.cpp checks single operations on fixed shapes and never lets an allocation or a constructor fail; test/auto_allocator.cpp checks a handful of fixed sequences. No test combines operations, allocator propagation kinds and failures.",
[A],"array owns {allocator, buffer, buffer size, base, shape} and moves them together; allocate/deallocate pair them; swap_except_allocator transfers them")

p("C02","Elements are constructed once, before use, and destroyed exactly once",
"Every element of an array is constructed exactly once before anything reads, assigns or moves it, and destroyed exactly once before its storage is released; elements that are not addressable by the shape (padding) are never constructed, assigned or destroyed, and an element object is never relocated by copying its bytes. This also holds when constructing or assigning the n-th element throws: the elements built so far are destroyed, and none that was never built is.",
["histories","fault_sequences","configurations"],
"All histories of array operations over compact, padded, permuted, negative-stride, static and dynamic shapes, with a throwing element constructor or assignment at any position.",
"array_lifetime.cpp counts constructor calls for single operations with elements that never throw; identity per element address, padding, histories and throwing elements are untested.",
[A],"construct / copy_construct / move_construct / destroy visit the elements through for_each_value and copy_shape_traits")

p("C03","A failed operation leaves every array valid, and retrying it succeeds",
"When an allocation or an element operation fails during an array operation, the failure reaches the caller (or the operation completes correctly), const operands and uninvolved arrays are unchanged, a reshape that cannot allocate its new storage keeps the old contents, and every array involved can still be queried, destroyed and assigned, its shape never describing elements that do not exist unless the shape type cannot be empty. Once failures stop, repeating the operation succeeds with the result it would have had if nothing had failed, except for elements that had already been moved out of the source of a move.",
["histories","fault_sequences","configurations"],
"All operations that allocate or touch elements, with the failure at any allocation or element operation, one-shot or persisting until faults stop, at any point of a history.",
"No test injects an allocation failure or a throwing element.",
[A],"assign / copy and move construction and assignment / clear / reshape / swap deallocate, set the shape, allocate and construct in that order")

p("C04","Owning arrays behave as independent values over any history",
"After any history of operations each array has exactly the shape and element values that a simple value model predicts: copies are deep and independent, moves and swaps transfer contents and a source whose storage was transferred is a default constructed array again, assign and fill set every element, clear resets to the default shape, reshape keeps exactly the elements in the intersection of old and new bounds and default-constructs the rest, make_copy/make_compact_copy/make_move have the requested shape and the source's values, and == and equal agree with the model. An operation never changes an array that is not its target, and self-assignment and self-swap change nothing.",
["histories","fault_sequences","configurations"],
"All histories of operations on a population of arrays with interleaved failed operations, over shape kinds (rank 0-4, static, dynamic, padded, permuted, negative stride, empty), element kinds and allocator propagation kinds.",
"Unit tests apply one or two operations to a freshly built array of a few shapes; state carried over from earlier operations (moved-from, failed, swapped, padded, unequal allocators) is not combined.",
[A],"array<T,Shape,Alloc> copy/move/assign/reshape/swap/clear and the free copy/move/make_copy/make_move/equal functions")

p("C05","Allocator propagation, selection and equality rules are honoured",
"A copy-constructed array uses the allocator chosen by select_on_container_copy_construction, copy and move assignment replace the target's allocator exactly when the allocator's propagate_on_container_copy_assignment or _move_assignment trait says so, swap exchanges the allocators when propagate_on_container_swap says so, a move-constructed array takes its source's allocator, an allocator passed explicitly is the one used, and an array never keeps storage that its current allocator did not supply. All element construction and destruction of an array goes through its allocator, so that an allocator that customises them (as uninitialized_allocator does) sees every one.",
["histories","configurations","fault_sequences"],
"All histories of copies, moves, assignments, swaps, reshapes, clears and make_* calls between arrays with equal and unequal stateful allocators, for each combination of the propagation traits, with failures interleaved.",
"array_lifetime.cpp checks propagation for single moves/swaps/copies on a custom allocator; combinations of traits, unequal allocators after other operations, reshape, and failures are untested.",
[A],"alloc_ handling in array's constructors, operator=, swap, get_allocator_for_move, reshape; allocator_traits construct/destroy")

p("C06","Storage transfers, views and in-place algorithms need no memory and cannot fail",
"Moving, move-assigning or swapping arrays whose allocators allow the storage to be transferred happens without any allocation, release of the transferred block or element operation, so it succeeds even when no memory is left and every element operation would throw, and pointers and views into the storage keep referring to the same elements, now owned by the destination. Making views, traversing, fill, generate, transform, copy and move into existing arrays, equal, and assigning into an array that already has the requested shape never allocate.",
["histories","fault_sequences","configurations"],
"All moves, swaps, move-assignments, view and in-place operations in any history while the allocator is exhausted and all element copies/moves are set to fail.",
"Tests count element moves in a few transfers; none runs them with an exhausted allocator, after other histories, or checks pointer identity.",
[A],"swap_except_allocator; move constructor/assignment branches; array_ref operations; assign's reuse of equal-shaped storage")

p("C07","auto_allocator's in-object buffer serves at most one live block of its own array",
"An array with an auto_allocator keeps its elements inside the array object when the first allocation fits and on the fallback allocator otherwise; two array objects never share in-object storage, so copying, moving, swapping, assigning, clearing, reshaping, failing and destroying such arrays in any order leaves each array's contents in its own object or in fallback storage that it alone owns. The in-object buffer is never handed to the fallback allocator for release, never handed out twice while in use, and is available again once the array using it lets go of it.",
["histories","fault_sequences","configurations"],
"All histories over arrays with auto_allocators of several capacities and fallback allocators, with sizes on both sides of the capacity, and fallback-allocation or element failures anywhere.",
"test/auto_allocator.cpp runs a few fixed two-array sequences with std::allocator as the fallback and no failures.",
[A],"auto_allocator::allocate/deallocate/operator== and its copy/move rules; array's allocator-equality branches; small_matrix/small_vector",)

p("C08","Views alias exactly the elements they denote, through any history of writes",
"A view derived by any chain of cropping, slicing, transposing, reordering, shape conversion, reinterpretation, channel slicing or image cropping refers, for each of its indices, to exactly the element of the underlying array that the chain denotes, and covers no other element. Whatever history of writes, fills, copies and interrupted operations goes through the array or through any of its views, every view and the array agree on every element they share, and elements outside a view are unaffected by writes through it.",
["histories","fault_sequences","configurations"],
"All chains of view operations over arrays of any shape kind and all histories of writes through aliasing views, with callbacks or element assignments failing part way and with the storage changing owners by moves and swaps.",
"Tests build single views of freshly filled arrays and read them; chains of views, writes through several aliases, interrupted writes and ownership transfer under live views are not covered.",
[A,I],"array_ref, make_array_ref_at, reinterpret_shape, transpose, reorder, convert_shape, crop, slice_channel, set_shape")

p("C09","Traversals visit each index or element exactly once, in order, until stopped",
"for_each_index, for_all_indices (also with an explicit loop order), for_each_value and z-order traversals call the callback exactly once per index or element of the shape and for nothing else (never for an empty shape), with the documented nesting order for index traversals; loops over a dim or interval by its iterators visit its indices in the same way. If the callback throws at any call, what was visited is exactly the prefix of the full traversal, and the exception reaches the caller; the caller's callable object stays usable, and the traversal can be nested, interleaved with others, interrupted and repeated without affecting any other traversal.",
["schedules","fault_sequences","configurations"],
"All shapes and traversal functions, all cancellation points, all interleavings with other traversals running on other tasks or nested inside callbacks.",
"Tests run traversals to completion on a few shapes with stateless lambdas; cancellation, callable reuse, nesting, and concurrent traversals are not exercised.",
[A,I,M,Z],"for_each_index_in_order, for_each_value_in_order, shape_traits specialisations for images and matrices, for_each_in_z_order")

p("C10","Interrupted bulk operations change only their target, element by element",
"copy, move, fill, generate, transform_index, transform_indices and equal pair up elements by index whatever the strides, order and padding of the two shapes. When an element assignment, comparison or generator throws part way, every target element is either its old value or its correct new value, source elements of copy and all elements and padding outside the target are untouched, source elements of move are intact unless their value has arrived in the target, and running copy, fill, generate, transform or equal again to the end gives the complete result.",
["fault_sequences","histories","configurations"],
"All pairs of source and destination shapes (cropped, padded, permuted, negative-stride, broadcast source, image, matrix, static), with a failure at any element operation, followed by retries.",
"Tests copy between a few layouts and compare the completed result; nothing fails part way and padding and surroundings are not checked.",
[A],"copy_shape_traits::for_each_value with optimised/fused shapes; fill/generate/transform/equal built on traversals")

p("C11","Einstein reductions apply every term once, in order, even when interrupted",
"ein_reduce evaluates its expression exactly once for every point of the loop nest implied by its operands, lowest-numbered index innermost, combining the result of operand evaluations into the result element of that point and touching nothing else. If evaluating an operand throws, the result holds exactly the terms of the prefix executed so far and operands are unchanged; make_ein_sum either returns the full sum in a compact array of the inferred shape or throws leaving nothing behind, and independent reductions interleaved on other tasks do not affect one another.",
["fault_sequences","schedules","configurations"],
"All supported expression forms (products, sums, min/max, casts, negation, assignment forms, scalar and callable operands) over arrays of any layout, with a failure at any operand evaluation, element operation or allocation, and interleavings with other tasks.",
"Tests compare completed sums on fixed operands; prefix state, evaluation order and count, failing operands/allocations and interleaving are not observed.",
[E,A],"ein_op expression templates, make_ein_reduce_shape/reconcile_dim/gather_dims, for_each_index_in_order, make_ein_sum")

p("C12","Concurrent readers and users of distinct arrays never interfere",
"Any number of threads may concurrently perform const operations (reading, viewing, traversing, comparing, copying from, reducing over) on the same array while other threads perform arbitrary operations on other arrays: under every interleaving each operation gives the result it would give alone, there is no data race, and a failure (allocation, element or callback) in one thread affects no other thread. In particular const operations modify nothing, and no mutable state is shared between distinct arrays, views or shapes.",
["schedules","fault_sequences","histories"],
"All interleavings, at the granularity of single memory accesses, of tasks performing const operations on shared arrays and arbitrary operations on their own arrays, with per-task failures.",
"No test uses more than one thread.",
[A,E,I,M,Z],"const member functions of array/array_ref/shape; header-only code with no intended shared mutable state")

p("C13","Tasks writing disjoint parts of one array compose to the sequential result",
"When tasks concurrently write disjoint parts of one array, taken as crops, slices, transposed or channel views, or tiles produced by split, every interleaving ends with the array that the tasks produce one after the other, with no data race and no access outside each task's part. Splitting a range into tiles by a runtime factor covers the range exactly once (by a static factor: completely, the last tile overlapping the one before it), so tasks may fail part way and have just their tile redone, in any order, to the same final array.",
["schedules","fault_sequences","configurations"],
"All interleavings of tasks writing disjoint tiles, slices, crops and channels of one array through fills, copies, transforms and reductions, with cancellations and failures of individual tasks followed by retries.",
"No test uses more than one thread; split is tested only for its list of intervals.",
[A,E,I],"split, crop/slice views, copy/fill/transform/ein_reduce restricted to a view",)

p("C20","Automatic stride resolution and shape predicates give the documented values",
"Unresolved strides are resolved to the documented compact, non-overlapping values, flat offsets and bounds of a shape follow from its dims, and shape compatibility, conversion, compactness and one-to-one predicates agree with those dims. Interval and dim arithmetic (split, crop, clamp, range membership) is exact.",
["inputs"],"All shapes and intervals.","Tests sample a few shapes.",[A],"shape::resolve, flat_min/flat_max/flat_extent, is_compact, is_one_to_one, is_compatible, make_compact")
p("C21","Ill-formed uses are rejected at compile time and static shapes cost nothing",
"Mismatched ranks, incompatible static extents or strides, and indices of the wrong count do not compile, and compile-time constant shapes lose no information through views. Optimised traversals compile to loops as efficient as hand-written ones.",
["programs"],"All programs using the library.","test/errors.cpp samples some errors.",[A],"enable_if guards and constexpr dims")
p("C22","The example programs compute correct results",
"The resampling example computes the same result as direct convolution with the chosen kernel using exact rational sampling positions, and the linear algebra examples equal reference matrix products. Rational arithmetic keeps values reduced and compares exactly.",
["inputs"],"All inputs to the examples.","The examples have no tests in the suite.",["examples/resample/resample.h","examples/resample/rational.h","examples/linear_algebra/matrix.cpp"],"kernel tables, rational<T>, ein_reduce tilings")
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
