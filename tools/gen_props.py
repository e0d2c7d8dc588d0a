#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

prop("C01","Quarter views are independent across threads",
"Splitting a row-major matrix into four mutable quarters at any in-range point (edges included, where quarters are empty) gives four views that tile it exactly: element (i,j) of a quarter is the matrix element at that quarter's origin plus (i,j). While four threads use their own quarters at the same time, no operation on one quarter reads or changes an element of another, under every interleaving and even if some of the threads stall, panic or never run again. When the views are gone the matrix holds in each quarter exactly what that quarter's thread had written.",
["schedules","fault_sequences","inputs"],
"every interleaving of four threads at the granularity of single memory accesses, every stall/kill/panic point, every element type, dimension, split point and storage container",
"The only test splits one 10x10 f64 matrix at (5,5) on one thread, writes one element per quarter and reads them back; no thread is ever started and no neighbour of a written element is looked at.",
["src/matrix/matrix_slices.rs","src/matrix/constructors.rs","src/layouts/arbitrary_stride_row_major.rs","src/data_container.rs"],
[("split_in_four_mut: four strided slices from one base pointer","src/matrix/matrix_slices.rs"),("from_pointer for strided layouts","src/matrix/constructors.rs"),("strided 2d/1d to raw mapping","src/layouts/arbitrary_stride_row_major.rs")],
["bytes of the parent's storage after every scheduling step","element reads through each quarter and, at the end, through the parent"],
[dict(name="parent storage",meaning="one buffer shared by the four views",where="src/data_container.rs")])

prop("C02","Concurrent readers agree with a lone reader",
"Any number of threads may read one matrix or one unevaluated expression at the same time: by element, by 1-D index, as a raw slice, through nested block views, by evaluating it, or as an operand of a product. Every such read returns what it returns when no other thread runs, and none of them changes anything readable, under every interleaving; reads started from inside another operation's element access or callback are no exception. Matrices, views and expressions can be shared with and sent to other threads whenever their elements can.",
["schedules","fault_sequences"],
"every interleaving of reading threads, with threads stalled or stopped for good in the middle of an operation, for every element type, layout and kind of operand",
"No test starts a thread; hidden shared state (a cache, a scratch buffer, interior mutability) gives right answers on one thread.",
["src/traits/random_access.rs","src/matrix/common_impl.rs","src/matrix_ref.rs","src/addition.rs","src/scalar_mult.rs","src/matrix_multiply.rs","src/base_matrix.rs"],
[("element access takes &self and has no interior state","src/traits/random_access.rs"),("expressions hold plain references","src/matrix_ref.rs"),("eval and dot allocate their own result","src/matrix/common_impl.rs")],
["return values of every read","bytes of the shared storage","Send/Sync of the public types"])

prop("C03","Expressions are evaluated late, in one pass, from live operands",
"Combining matrices with + and scalar * reads no element and allocates nothing. Evaluating (or accessing one element) reads each operand element it needs exactly once per occurrence of that operand, at that time, and makes each result element from exactly the values those reads returned, so over storage that other threads keep changing no result mixes in a value the operand did not hold during the evaluation, and a later evaluation sees later values. Apart from the result no matrix-sized memory is allocated, and a storage read that fails part way ends the evaluation with that failure, with nothing leaked and a repeat succeeding.",
["schedules","histories","fault_sequences"],
"every history of concurrent writes to the operands' storage relative to the evaluation's reads, every point at which a storage read fails, every expression shape up to three operands over the layouts",
"The tests evaluate two fixed expressions whose operands never change, so early evaluation, caching, double reads and temporaries are all invisible to them.",
["src/addition.rs","src/scalar_mult.rs","src/matrix_ref.rs","src/matrix/common_impl.rs","src/base_matrix.rs"],
[("expression types forward element access","src/addition.rs"),("expression types forward element access","src/scalar_mult.rs"),("eval: one pass over 1-D indices","src/matrix/common_impl.rs")],
["sequence of element reads seen by a caller-supplied data container","allocator calls","the evaluated matrix"])

prop("C04","Interrupted in-place updates stop exactly where they were",
"Applying a function to every element, or filling from a random generator, visits every element exactly once, in the order of its 1-D index, and touches nothing else in the storage. If the function or the generator panics, or the thread stops for good, at any instant, then the elements before that point have been updated exactly once, those after it are untouched, and at most the element in hand is in between. The matrix stays usable, so the update can be resumed from that index through either index form and gives the uninterrupted result.",
["crash_points","schedules","inputs"],
"every element index and every single memory access at which an update can be cut short, for every layout, container, element type and dimension, with other threads doing the same on other matrices",
"No test calls the element-wise update with a function that can fail, none looks at visiting order, and only row-major matrices and simple vectors are ever filled.",
["src/matrix/base_methods.rs","src/matrix/random.rs","src/layouts.rs","src/traits/layout.rs"],
[("for_each walks 1-D indices and hands out &mut elements","src/matrix/base_methods.rs"),("fill_from_rand_standard_normal uses for_each","src/matrix/random.rs"),("convert_1d_raw / convert_1d_2d of each layout","src/layouts.rs")],
["bytes of the storage after the interruption","arguments seen by the callback"])

prop("C05","Random fills depend on the caller's generator alone",
"A standard-normal fill gives the elements, in 1-D index order, the standard-normal deviates drawn from the caller's generator, one per real component with the real part before the imaginary part, and draws nothing more. The same generator state therefore gives bit-identical elements in every storage layout and container, whatever other threads do meanwhile, and threads that share one generator each use every deviate they draw exactly once. If the generator or the operating system's entropy source fails, the failure reaches the caller and no element receives a value that was not drawn.",
["schedules","fault_sequences","histories"],
"every generator stream (fair, constant runs, extreme words), every interleaving of concurrent fills with own or shared generators, every draw at which the generator or the entropy system call fails, is interrupted or returns short",
"The tests only check the dimension of a random matrix, or use one seeded generator to make operands whose values nobody checks.",
["src/matrix/random.rs","src/tools.rs","src/macros.rs"],
[("RandScalar::random_scalar","src/tools.rs"),("fill_from_rand_standard_normal","src/matrix/random.rs"),("rand_mat!/rand_vector! use the thread's generator","src/macros.rs")],
["the words the simulated generator handed out, per thread","filled elements","getrandom system calls"])

prop("C06","A failed allocation is clean and can be retried",
"If memory that a constructor, an evaluation or a product asks for cannot be obtained, at whichever of its allocations, it reports the failure through the allocation-error handler and delivers no matrix; what it had allocated is released, and its operands, an accumulation target included, keep their former values. Repeating the operation once memory is available gives exactly the result of an undisturbed run. When several threads compete for limited memory every operation either completes correctly or fails in this way, and once the pressure ends all of them complete.",
["fault_sequences","schedules"],
"every allocation of every allocating operation failing, alone or under a shared budget, in every interleaving of up to four threads",
"Allocation never fails in the tests.",
["src/data_container.rs","src/matrix/constructors.rs","src/matrix/common_impl.rs","src/matrix_multiply.rs"],
[("VectorContainer::new is the only storage allocation","src/data_container.rs"),("dot allocates its result before multiplying","src/matrix_multiply.rs"),("eval allocates its result before reading","src/matrix/common_impl.rs")],
["the process allocator","operand storage","result of the retried operation"])

prop("C07","Misuse is refused without effect",
"A call with an index, 1-D index, block or split point outside the matrix, with operands of incompatible dimensions, with a raw range outside the storage, or with a storage too short for the requested layout and dimension is refused by a panic, in builds with and without overflow checks. The refused call touches no memory outside the matrix and changes no element of any matrix. Other threads at work on the same or on other matrices, and the caller's own later valid calls, get the results they would get without it; valid calls at the very edge of the range are not refused.",
["fault_sequences","histories","inputs","configurations"],
"every placement of misused calls (just outside, far outside, wrapping values) within histories of valid calls by several threads, for every layout, view, vector and container, in both overflow-check configurations",
"Two doc-tests check that one out-of-range access panics; nothing checks blocks, splits, operand shapes, 1-D indices or short storage, nor that a refused call changed nothing, nor builds without overflow checks.",
["src/traits/random_access.rs","src/matrix/matrix_slices.rs","src/matrix/constructors.rs","src/base_matrix.rs","src/data_container.rs","src/addition.rs","src/matrix_multiply.rs","src/layouts"],
[("assert_dimension / assert_dimension1d","src/traits/random_access.rs"),("block bounds assertion","src/matrix/matrix_slices.rs"),("storage size assertion","src/base_matrix.rs"),("operand dimension assertions","src/addition.rs"),("operand dimension assertions","src/matrix_multiply.rs"),("raw slice range assertions","src/data_container.rs")],
["panic or return of each call","all matrix storage after each call","memory accesses outside live storage"])

prop("C08","Multiply-accumulate changes its target only",
"The operation C = alpha*A*B + beta*C, and products returning a new matrix, give the mathematically defined result (exactly, when all intermediate values are exactly representable) for every combination of storage layouts, block views and vectors as A, B and C. A, B and every storage cell around C's own elements keep their values. This holds for threads multiplying at the same time into disjoint blocks of one matrix while sharing A and B, under every interleaving and when some of them stall, stop for good or run out of packing memory.",
["schedules","fault_sequences","inputs"],
"every interleaving of up to four threads accumulating into quarters or nested blocks of one matrix, every stall/kill/allocation-failure point, every combination of layouts, views and element types and dimensions across the kernel's tile edges",
"The tests multiply one 4x6 by 6x5 row-major pair per element type (and one vector pair) on one thread; no view, no column-major operand, no storage around the target and no concurrent use is covered.",
["src/matrix_multiply.rs","src/layouts","src/matrix/matrix_slices.rs"],
[("matmul passes dims, pointers and layout strides to gemm","src/matrix_multiply.rs"),("stride() of each layout","src/layouts"),("dot","src/matrix_multiply.rs")],
["target, operands and surrounding storage after every operation and scheduling step"])

prop("C09","Views write through at once, however they end",
"A write through a mutable block view, a view of a view to any depth, or a matrix laid over caller-supplied memory is in the viewed storage as soon as the write is done, at the position given by adding the block origins, and no other element changes; read-only views read the same positions. This does not depend on how the view ends: if its holder drops it, leaks it, panics or stops running at any instant, the matrix holds every write completed until then and nothing else.",
["crash_points","histories","schedules"],
"every history of nested views and writes through them, ended at every instant by drop, leak, panic or a stopped thread, for all layouts that support views, with other threads working on other matrices",
"The tests read one element through a view of a view and write one element through each quarter; nothing checks the remaining elements of a nested view, column-major views, or a view that does not end normally.",
["src/matrix/matrix_slices.rs","src/matrix/constructors.rs","src/layouts/arbitrary_stride_row_major.rs","src/layouts/arbitrary_stride_column_major.rs","src/data_container.rs"],
[("block / block_mut","src/matrix/matrix_slices.rs"),("from_pointer","src/matrix/constructors.rs"),("stride() and raw index of strided layouts","src/layouts/arbitrary_stride_row_major.rs")],
["bytes of the viewed storage after every operation and at the instant a thread stops"])

prop("C10","Memory is conserved over any history",
"Over any history in which threads create matrices, views and expressions, pass them to other threads, evaluate them, drop them unevaluated or lose them to a panic in the middle of an operation, every buffer is released exactly once and is not accessed afterwards. When everything created has been dropped the memory in use is back at its starting level: no operation keeps hidden storage. Dropping or aborting one object leaves the others intact.",
["histories","fault_sequences","schedules"],
"every history of creation, hand-over between threads, evaluation, abandonment and panic, with panics at every storage read, callback and generator draw",
"The tests never drop an unevaluated expression, move a matrix to another thread or unwind through an operation, and nothing measures allocation.",
["src/data_container.rs","src/matrix.rs","src/matrix_ref.rs","src/addition.rs","src/scalar_mult.rs","src/matrix/common_impl.rs"],
[("ownership of operands by expression types","src/addition.rs"),("VectorContainer owns its Vec","src/data_container.rs")],
["the process allocator","memory accesses to released buffers","live objects after each step"])

prop("C11","No thread has to wait for another",
"An operation completes within a number of the calling thread's own steps that is bounded by the operation and its operand sizes, whatever other threads do that read the same matrices or write disjoint parts of them. In particular other threads that have been stopped for good in the middle of any operation never prevent it from completing, and the work it does is the same as when it runs alone.",
["schedules","fault_sequences"],
"every set of other threads stopped at every instant of every operation (element access, evaluation, product, fill, view creation) that shares operands or disjoint blocks with the measured one",
"No test runs two operations at the same time; a lock, a one-time initialisation or a shared scratch area behaves well on one thread.",
["src/matrix/common_impl.rs","src/matrix_multiply.rs","src/matrix/base_methods.rs","src/matrix/random.rs","src/data_container.rs"],
[("no shared mutable state, locks or lazily initialised globals","src/lib.rs"),("results and buffers are per call","src/matrix/common_impl.rs")],
["own step count of each operation alone and under contention","threads blocked in futex waits"])

# pure functions of their input: listed for breadth, not claimed
prop("C21","Index conversions are mutually inverse and cover the storage",
"For every layout and dimension the conversion between 1-D and (row, column) indices is a bijection between 0..number-of-elements and the stored positions, and the raw index of a position is the same through either form and distinct for distinct positions.",
["inputs"],"every layout, dimension, stride and index","One 5x5 triangular layout is checked at three indices; no other layout's conversions are tested.",
["src/layouts","src/traits/layout.rs"],[("convert_1d_2d / convert_2d_1d / convert_1d_raw / convert_2d_raw","src/layouts")],["return values"])
prop("C22","Element-wise arithmetic is IEEE arithmetic per element",
"Each element of a sum or scalar multiple equals, bit for bit, the floating-point sum or product of the corresponding operand elements, NaN, infinity and signed zero included.",
["inputs"],"every element value, scalar and expression shape","Two tests check one finite element each.",
["src/addition.rs","src/scalar_mult.rs"],[("element access of expression types","src/addition.rs")],["evaluated elements"])
prop("C23","Products are accurate to a small multiple of the rounding unit",
"Every element of a product differs from the exact value by at most a modest multiple of k times the rounding unit times the corresponding product of absolute values, for inner dimension k.",
["inputs"],"every operand value and dimension","Fixed operands of one small size per element type are compared with a 100-ulp tolerance.",
["src/matrix_multiply.rs"],[("delegation to the gemm kernels","src/matrix_multiply.rs")],["product elements"])
prop("C24","Constructors give zero matrices of the requested shape",
"A newly constructed matrix or vector, of dynamic or fixed size and in every layout, has the requested dimension and length and only zero elements.",
["inputs","configurations"],"every constructor, layout and dimension","The macro tests check the dimension of four small objects and no element.",
["src/matrix/constructors.rs","src/data_container.rs","src/macros.rs"],[("zeros_from_dim / zeros_from_length","src/matrix/constructors.rs")],["dim, length and elements"])
prop("C25","Ill-shaped fixed-size operations and aliasing borrows do not compile",
"Expressions that combine operands of different compile-time sizes or different index orders, and uses of a matrix while a mutable view of it is alive, are rejected at compile time.",
["programs"],"every program using the public API","Nothing tests that a program is rejected.",
["src/traits/size.rs","src/addition.rs","src/matrix/matrix_slices.rs"],[("type parameters RS, CS, IndexLayout; lifetimes of views","src/traits/size.rs")],["compiler verdict"])
prop("C26","Random fills are standard normal",
"Over a fair generator the filled components are independent and follow the standard normal distribution.",
["inputs"],"every fair generator and dimension","No test looks at the values.",
["src/tools.rs","src/matrix/random.rs"],[("StandardNormal distribution","src/matrix/random.rs")],["filled elements"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p)+"\n")
