#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": ["include/cest/" + f for f in files],
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe or [], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

H = ["histories", "inputs"]

prop("V01", "vector behaves as a growable sequence under every operation history",
     "After any sequence of construction (default, count, initializer list, copy, move), push_back, pop_back, resize, reserve, erase of a range, clear, assignment (copy, move, self) and swap, a vector's size, indexing, front/back, iteration in both directions and equality agree with the mathematical sequence those operations denote. capacity() is never below size(), reserve(n) makes it at least n, and no operation loses, duplicates or reorders an element.",
     H, "every bounded operation history, every element value, every count/position argument, sizes across reallocation boundaries",
     "the tests run a dozen fixed scripts with at most six constant elements; growth, erase positions and shrink/grow combinations are unbounded",
     ["vector.hpp"], [("push_back/reserve growth", "vector.hpp vector::push_back, vector::reserve"), ("erase shift", "vector.hpp vector::erase"), ("operator= three-way split", "vector.hpp vector::operator=")],
     [("m_size/m_capacity/m_p", "length, allocated length, storage", "vector.hpp")], ["size", "operator[]", "begin/end", "rbegin/rend", "operator==", "capacity"])

prop("V02", "vector never leaks, double-destroys or touches dead or foreign storage",
     "Through every operation history, including arguments that refer to the vector's own elements and self-assignment, a vector constructs each element exactly once before use, destroys it exactly once, releases each block exactly once with the size it was obtained with, and never reads or writes memory outside its live elements. Destroying the vector leaves nothing allocated.",
     H, "every bounded history with lifetime-instrumented elements that own memory, every aliasing argument position",
     "run-time tests have no sanitizer or lifetime oracle; the static_asserts cover a handful of constant scripts",
     ["vector.hpp"], [("construct_at/destroy_n pairing", "vector.hpp"), ("deallocate(m_p,m_capacity)", "vector.hpp")], None, ["constructor/destructor calls", "operator new/delete"])

prop("V03", "vector::at is bounds-checked for every index",
     "For every vector and every value of the index type, at(i) returns a reference to element i when i < size() and otherwise throws std::out_of_range, leaving the vector unchanged. The const and non-const forms agree.",
     ["inputs", "histories"], "all 2^64 index values, all vector sizes within bound, also when capacity exceeds size",
     "tests only call at() with three valid constants",
     ["vector.hpp"], [("range check", "vector.hpp vector::at")], None, ["at()"])

prop("S01", "string editing matches the character-sequence model, NULs included",
     "After any sequence of construction, copy, assignment, push_back, pop_back, append, +=, reserve and clear, a string holds exactly the characters those operations denote, embedded NUL characters included, and c_str()[size()] is the NUL terminator. size(), length(), empty(), front(), back(), indexing and iteration agree with it, and capacity() is at least size().",
     H, "every bounded history, every character value including NUL, appends from foreign and own storage, sizes across reallocation boundaries",
     "tests use literals without embedded NULs and at most one reallocation",
     ["string.hpp"], [("append/push_back/reserve", "string.hpp basic_string"), ("copy construction and assignment", "string.hpp basic_string")],
     [("m_size/m_capacity/m_p", "length, capacity without terminator, buffer", "string.hpp")], ["data", "size", "c_str", "operator[]"])

prop("S02", "string find returns the first occurrence at or after pos, or npos",
     "For every haystack, needle, character and start position, each find overload returns the smallest index at or after the start position at which the needle occurs, or npos when there is none. An empty needle is found at pos exactly when pos <= size(), and embedded NULs are ordinary characters.",
     ["inputs"], "all haystacks and needles within the length bound, all 64-bit pos values",
     "tests search six constants from position 0",
     ["string.hpp"], [("find overloads", "string.hpp basic_string::find")], None, ["find()"])

prop("S03", "string comparison is one consistent lexicographic order",
     "For all strings a, b, c: compare, ==, != and < (string-string and string-literal forms) agree with lexicographic comparison of unsigned character values, hence == is an equivalence, < a strict total order, and compare(a,b) and compare(b,a) have opposite signs. A proper prefix orders before the longer string.",
     ["inputs"], "all pairs of strings within the length bound, all byte values",
     "tests compare a few ASCII literals",
     ["string.hpp"], [("compare/_S_compare and operators", "string.hpp")], None, ["compare", "operator==", "operator<", "operator!="])

prop("S04", "string memory use is safe, also under self-assignment and aliasing",
     "In every history, including s = s, s += s, s = s.c_str(), push_back of the string's own characters and construction from input-iterator ranges (empty ones too), a string reads and writes only its own live buffer, never reads indeterminate characters, frees each buffer exactly once with the size it was allocated with, and leaks nothing.",
     H, "every bounded history, aliasing arguments, all range lengths within bound",
     "no sanitizer in the suite; aliasing is exercised once, without reallocation",
     ["string.hpp"], [("allocate/deallocate pairing", "string.hpp"), ("operator=(const CharT*)", "string.hpp")], None, ["operator new/delete", "buffer contents"])

prop("L01", "list behaves as a doubly linked sequence under every history",
     "After any sequence of push/pop/emplace at either end, insert, emplace and erase at any position, copy, assignment (self included) and clear, forward and backward traversal yield exactly the sequence the operations denote and size() its length. insert/emplace/erase return the iterator the standard specifies and iterators to other elements stay valid.",
     H, "every bounded history, every position, every element value",
     "tests use fixed scripts of at most five elements",
     ["list.hpp"], [("hook/unhook", "list.hpp list::insert, emplace, erase")], [("m_node/m_size", "sentinel of the ring; element count", "list.hpp")], ["begin/end", "++/--", "size"])

prop("L02", "forward_list behaves as a singly linked sequence under every history",
     "After any sequence of push_front, pop_front, insert_after, erase_after (single and range), copy, assignment (self included), swap and clear, traversal yields exactly the sequence the operations denote. insert_after and erase_after return the iterator the standard specifies, and other iterators stay valid.",
     H, "every bounded history, every position/range, every element value",
     "tests use fixed scripts",
     ["forward_list.hpp"], [("next-pointer splicing", "forward_list.hpp")], None, ["begin/end", "before_begin"])

prop("L03", "list and forward_list own every node exactly once",
     "In every history, including self-assignment and insertion of a reference to the list's own element, list and forward_list construct and destroy each stored element exactly once, free every node exactly once with its size, access only live nodes, and leave nothing allocated after destruction.",
     H, "every bounded history with lifetime-instrumented elements",
     "no lifetime oracle at run time",
     ["list.hpp", "forward_list.hpp"], [("node allocate/deallocate", "list.hpp, forward_list.hpp")], None, ["constructor/destructor calls", "operator new/delete"])

prop("D01", "deque behaves as a double-ended sequence, across chunk boundaries too",
     "After any sequence of push_front, push_back, pop_front, pop_back, clear, copy construction, initializer-list construction and assignment (self included), a deque's size, front, back and every index agree with the sequence the operations denote, however many storage chunks the history has crossed, grown into or drained. Popping an empty deque has no effect.",
     H, "every bounded history started from states whose front/back lie at every small distance from a chunk boundary, every element value",
     "tests hold at most five elements; a chunk holds 1024",
     ["deque.hpp"], [("push_*_helper, pop_*", "deque.hpp deque"), ("index arithmetic", "deque.hpp deque::operator[]")],
     [("m_front/m_back/m_front_chunk/m_back_chunk/m_chunks", "cursor positions and chunk table", "deque.hpp")], ["operator[]", "front", "back", "size"])

prop("D02", "deque iterators visit every element once and distances are exact",
     "For every deque state, iterating from begin() to end() (const and non-const, pre/post-increment and decrement, range algorithms) visits exactly the size() elements in index order and terminates, reverse stepping visits them backwards, and the difference of two iterators is the difference of their positions, including when elements span several chunks or end exactly on a chunk boundary.",
     H, "every state reachable by bounded histories near chunk boundaries; every pair of iterators",
     "tests iterate over at most five elements in one chunk",
     ["deque.hpp"], [("iter::operator++/--/-", "deque.hpp deque::iter, const_iter"), ("begin/end", "deque.hpp")], None, ["begin/end", "std::distance", "operator-"])

prop("D03", "deque constructs, destroys and frees each element and chunk exactly once",
     "In every history a deque constructs each element once, destroys it once, accesses only live elements and chunks, and frees every chunk once with its size, with nothing left allocated after destruction.",
     H, "every bounded history near chunk boundaries with lifetime-instrumented elements",
     "tests never leave the first chunk",
     ["deque.hpp"], [("clear/destructor", "deque.hpp")], None, ["constructor/destructor calls", "operator new/delete"])

prop("Q01", "queue is first-in first-out over any underlying sequence",
     "For every sequence of push and pop, with the default container or a list, front() is the oldest and back() the newest element still held, elements leave in arrival order, and size()/empty() count them; copies evolve independently.",
     H, "every bounded push/pop/copy history, every value, chunk-crossing queues included",
     "tests push two elements",
     ["queue.hpp", "deque.hpp", "list.hpp"], [("push->push_back, pop->pop_front", "queue.hpp")], None, ["front", "back", "size"])

prop("T01", "set is a sorted collection of distinct keys for every insertion order",
     "For every sequence of insertions (with or without hint), iteration yields the distinct inserted keys in strictly increasing comparator order, size() is their number, find(k) returns the element equivalent to k or end(), and insert reports truthfully whether it added and returns the iterator of the element equivalent to its argument. Iterators obtained earlier keep denoting the same key.",
     H, "every relative order and duplication pattern of the inserted keys up to the bound, every comparator-consistent key value",
     "tests insert three fixed orders of ten constants",
     ["set.hpp", "swap.hpp"], [("recursive insert with Okasaki rebalancing", "set.hpp set::insert"), ("in-order successor", "set.hpp const_tree_iter::operator++")],
     [("m_root/m_begin/m_size", "tree, leftmost node, count", "set.hpp")], ["begin/end", "find", "insert", "size"])

prop("T02", "set and map stay balanced: lookups cost O(log n) comparisons",
     "After every insertion order of n keys, any lookup or insertion in a set or map makes at most a constant times log2(n+1) key comparisons (no more than 2*(2*log2(n+1)+1)), never degenerating towards a linear chain.",
     H, "every insertion order up to the bound, plus monotone and alternating longer ones with symbolic probe keys",
     "tests never count comparisons and the tree shape is not observable otherwise",
     ["set.hpp", "map.hpp", "swap.hpp"], [("red-black rotations and recolouring", "set.hpp, map.hpp insert"), ("n-ary swap rotations", "swap.hpp")], None, ["comparator invocations"])

prop("M01", "map is a sorted key-to-first-value association for every insertion order",
     "For every sequence of insert(key,value), iteration yields each distinct key once in comparator order with the value first inserted for it (inserting an existing key changes nothing), size() counts keys, find(k) returns the entry whose key is equivalent to k or end(), and insert reports truthfully what happened. Only the comparator decides key equivalence and order, and values modified through an iterator are what later lookups see.",
     H, "every relative order and duplication pattern of keys up to the bound, every value, comparators inconsistent with operator==",
     "tests insert at most three ascending chars",
     ["map.hpp", "swap.hpp"], [("insert", "map.hpp map::insert"), ("successor", "map.hpp tree_iter/const_tree_iter::operator++")], None, ["begin/end", "find", "insert", "size"])

prop("T03", "set and map free every node once and copies are deep",
     "In every history of insert, clear, copy construction and assignment (self included), set and map construct, destroy and free each node exactly once and touch only live nodes, copies compare element-wise equal to the source at the time of copying and neither side sees later changes of the other.",
     H, "every bounded history with lifetime-instrumented keys/values",
     "tests check only sizes of copies",
     ["set.hpp", "map.hpp"], [("clear recursion; copy by re-insertion", "set.hpp, map.hpp")], None, ["constructor/destructor calls", "operator new/delete", "iteration"])

prop("U01", "unique_ptr owns its object exclusively and deletes it exactly once",
     "In every history of construction, make_unique, move construction, move assignment (self included), reset, release and destruction, each managed object is deleted exactly once by its last owner, at the point the standard specifies, a moved-from or released pointer is null, and get, *, ->, bool and the comparison operators reflect the pointer held.",
     H, "every bounded history over several pointers and objects, base/derived conversion included",
     "tests move once and never count deletions",
     ["memory.hpp"], [("release/reset/move", "memory.hpp unique_ptr")], None, ["object destruction", "get()"])

prop("U02", "shared_ptr reference counting is exact in every sharing history",
     "In every history of construction (empty, pointer, custom deleter), copying, aliasing construction, assignment (self included) and destruction, use_count() equals the number of shared_ptrs sharing ownership, the deleter runs exactly once on the original pointer when the last of them goes away and never before, and empty pointers can be copied and assigned freely. get, *, ->, [] and get_deleter reflect the stored pointer and deleter.",
     H, "every bounded history over several shared_ptrs including empty and aliasing ones",
     "tests copy each pointer once and never assign",
     ["shared_ptr.hpp"], [("control block count", "shared_ptr.hpp shared_ptr_base")], None, ["use_count", "deleter invocations"])

prop("F01", "function stores its own copy of a callable and forwards exactly",
     "For every callable and arguments, calling a function object invokes its own stored copy with exactly those arguments and returns exactly its result (or nothing for void), state mutated inside the callable persists between calls, the callable passed in is not altered by construction or by calls, and the stored copy is destroyed exactly once with the function.",
     ["inputs", "histories"], "all argument values, call counts within bound, lambdas with and without state, function pointers, value/reference/move-only parameters",
     "tests call two functions once",
     ["functional.hpp", "memory.hpp"], [("type-erased impl_f", "functional.hpp function")], None, ["call result", "argument values"])

prop("I01", "string streams read back exactly the characters they were given",
     "For every buffer content (all byte values) and every sequence of get, unget and read on an istringstream or stringstream, the characters delivered are exactly the buffer's characters at the current position, the position advances or steps back accordingly, gcount() is the number extracted by the last operation, and str(s) restarts reading at the start of s.",
     H, "all buffer contents within the length bound, all read lengths including 0 and past the end, all interleavings of get/unget/read",
     "tests read four characters of constants",
     ["sstream.hpp", "istream.hpp", "streambuf.hpp"], [("get area pointers", "streambuf.hpp basic_streambuf"), ("get/unget/read", "istream.hpp basic_istream"), ("_M_sync", "sstream.hpp")], None, ["get", "read", "gcount"])

prop("I02", "stream state bits follow the standard's rules in every history",
     "For every sequence of reads, ungets, clear, setstate and exceptions(mask), good, eof, fail, rdstate, operator bool and ! are the standard functions of the state bits: exhausting input sets eofbit and failbit, unget at the start sets badbit, a stream not good() delivers nothing and keeps failing, unget first clears eofbit, a stream without buffer is bad, and clear, setstate and exceptions(mask) - and with them every operation that reports an error - throw ios_base::failure exactly when they leave a bit of the enabled exceptions mask set.",
     H, "all bounded interleavings, all combinations of the three state bits and mask bits",
     "tests check one eof transition",
     ["basic_ios.hpp", "ios_base.hpp", "istream.hpp"], [("clear/setstate/_M_setstate", "basic_ios.hpp basic_ios"), ("sentry", "istream.hpp")], None, ["rdstate"])

prop("I03", "fmemopen/fread/fclose deliver the memory block, no more and no less",
     "For every memory block and sequence of fread calls of any counts, the concatenation of what fread stores is the block's bytes in order (NUL bytes included), each return value is the number of bytes stored and is short only at the end of the block, nothing beyond the count is written, and fclose releases everything.",
     H, "all block contents and sizes within bound, all fread count sequences",
     "one test reads six constant bytes",
     ["cstdio.hpp", "sstream.hpp", "istream.hpp", "streambuf.hpp"], [("fmemopen/fread/fclose", "cstdio.hpp"), ("xsgetn", "streambuf.hpp")], None, ["fread result", "buffer"])

prop("I04", "standard output streams forward exactly what was inserted, where it belongs",
     "Every value, character, C string and string inserted into cest cout, cerr or clog (also by printf/fprintf) at run time is forwarded exactly once, in order and unaltered to the corresponding real output stream and to no other; any other ostream forwards nothing. During constant evaluation nothing is output and the expression still yields the stream.",
     H, "all values and strings within bound, all sequences over the three streams, both evaluation modes",
     "the suite does not check what is printed",
     ["runtime_ostream.hpp", "ostream.hpp", "iostream.hpp", "cstdio.hpp", "string.hpp"], [("runtime_ostream dispatch", "runtime_ostream.hpp")], None, ["calls into the host std streams"])

prop("I05", "a user-written stream buffer is read exactly once, in order, across refills",
     "For a class derived from basic_streambuf whose underflow hands over the source in pieces of any sizes, sgetc, sbumpc, snextc and sgetn, and get and read on an istream over it, deliver the source's characters exactly once and in order, asking underflow for more exactly when the current piece is used up; sungetc and unget step back inside the piece and otherwise ask pbackfail; the end of the source gives eof (eofbit and failbit on the stream). An exception thrown by underflow sets badbit and passes through exactly when badbit is in the exception mask, and flush calls sync once and sets badbit exactly when it returns -1 or throws.",
     H, "all piece sizes, refill counts and source contents within the bound, all interleavings of the reading operations, the throwing refill, masks and sync results",
     "no test derives a stream buffer; string streams never refill",
     ["streambuf.hpp", "istream.hpp", "ostream.hpp", "basic_ios.hpp"], [("sgetc/sbumpc/snextc/xsgetn/uflow/sungetc", "streambuf.hpp basic_streambuf"), ("get/read/unget and their catch clauses", "istream.hpp basic_istream"), ("flush", "ostream.hpp"), ("_M_setstate", "basic_ios.hpp")], None, ["underflow", "gcount"])

prop("C01", "character classification matches the C locale for every value",
     "For every character code from -128 to 255 (EOF included) and in general every int, isalnum and isupper are non-zero exactly for the ASCII alphanumerics and ASCII capital letters respectively.",
     ["inputs"], "all 2^32 int arguments",
     "tests check three characters each",
     ["cctype.hpp"], [("table search", "cctype.hpp")], None, ["return value"])

prop("N01", "abs, floor and ceil are exact for every representable argument",
     "For every double x: abs/fabs(x) is the non-negative number of the same magnitude, and for every double whose result fits an int, floor(x) is the greatest int not above x and ceil(x) the least int not below x.",
     ["inputs"], "all doubles (all finite doubles with int-representable result for floor/ceil)",
     "tests check a single abs value; floor and ceil are untested",
     ["cmath.hpp", "bits/abs.hpp"], [("truncation and adjustment", "cmath.hpp floor, ceil")], None, ["return value"])

prop("N02", "pow, sqrt, exp and log satisfy their defining algebraic identities",
     "pow(b,n) is the n-fold product for n>=0 (1 for n=0; exact whenever the partial products are whole numbers below 2^53) and its reciprocal for n<0; sqrt(x) is positive with its square within about 0.1% (0.11%) relative error of x for positive finite x, 0 for 0, infinity for infinity and not-a-number below 0; log is minus infinity at 0, infinity at infinity, not-a-number below 0, and log undoes exp and turns reciprocals into opposites to about 0.001; exp(0) is 1, exp is positive and exp(x)*exp(-x) is 1 within 0.1%. Each call terminates.",
     ["inputs"], "bounded exponents, whole bases and bases in a stated range; sqrt, exp, log over stated ranges of magnitudes; all zero, negative, infinite and not-a-number arguments",
     "tests evaluate sqrt(25) only",
     ["cmath.hpp"], [("pow recursion", "cmath.hpp pow"), ("Newton iteration", "cmath.hpp sqrt_helper"), ("log guards", "cmath.hpp log")], None, ["return value"])

prop("N03", "atan, atan2, sin, cos, sinh and cosh keep their symmetries, ranges and quadrants",
     "atan and sinh are odd and have the sign of their argument, cosh is even and at least 1, sin is odd and cos even; sin, atan and sinh vanish at 0, cos and cosh are 1 there; |sin|, |cos| are at most 1 and |atan| at most pi/2; sin^2+cos^2=1 and cosh^2-sinh^2=1; atan2(y,x) is the angle of the point (x,y) in its own quadrant for every finite point off the axes (atan(y/x), plus pi or minus pi to the left of the y axis), 0 on the positive x axis, pi on the negative one, +-pi/2 on the y axis and 0 at the origin - all up to the library's tolerance (about 0.001).",
     ["inputs"], "all doubles for atan and atan2, stated ranges for the others",
     "tests evaluate atan(1) only",
     ["cmath.hpp"], [("argument reductions", "cmath.hpp atan, atan2, sin, sinh, cosh")], None, ["return value"])

prop("N04", "the transcendental functions approximate the true values",
     "For every argument in the stated ranges exp, sinh and atan agree with the mathematical function to within 0.1% of its value, cosh to within 0.11%, sin and cos to within 0.001, and log to within 0.0011 plus 0.01% of its value.",
     ["inputs"], "all doubles in the stated ranges",
     "tests evaluate one point",
     ["cmath.hpp"], [("series and reductions", "cmath.hpp")], None, ["return value"])

prop("X01", "complex arithmetic obeys the algebra of complex numbers",
     "For all components, complex +, -, *, /, unary minus, conj, norm, real/imag setters, mixed scalar forms, compound assignment (also with an operand aliasing the target), ==, != and integer pow compute the componentwise/Cartesian formulas of complex algebra, identically to their compound-assignment counterparts.",
     ["inputs"], "all component values (exact integers modulo 2^n; doubles for additive operations and structure)",
     "tests check one sum and one product",
     ["complex.hpp"], [("Cartesian formulas", "complex.hpp operator*=, operator/=, norm, pow")], None, ["real", "imag"])

prop("X02", "complex analytic functions agree with their mathematical definitions",
     "For complex<double>, within the accuracy cest's real functions have (about 0.1% of the size of the operands' functions, a small multiple of that where several are combined): polar(r,t) is (r cos t, r sin t); abs is the non-negative square root of re^2+im^2; arg is the angle of the point in [-pi,pi]; exp(x+iy) = e^x (cos y, sin y); log z = (ln|z|, arg z) and log10 is log/ln 10; sin, cos, sinh, cosh, tan and tanh obey the Cartesian formulas; sqrt lies in the right half plane, on the side of its argument, and squares to it; and pow with a real or complex exponent, of a real or complex base, is exp(exponent times log base) including fractional exponents, and 0 for base 0.",
     ["inputs"], "all real and imaginary parts in the stated boxes away from poles; for the functions that take the magnitude (abs, log, log10, sqrt, pow), every magnitude in the stated range on 16 rays",
     "tests take one abs of (-3,4)",
     ["complex.hpp", "cmath.hpp"], [("template functions after 'Transcendentals'", "complex.hpp polar, abs, arg, exp, log, log10, sin, cos, sinh, cosh, tan, tanh, sqrt, pow")], None, ["real", "imag", "returned value"])

prop("W01", "n-ary swap rotates its arguments, for any number and any values",
     "swap(x1,...,xn) moves each value one place towards the front with x1's value going last, swapr rotates the other way, swapr undoes swap, both are permutations for every n and every values including repeated references, and fewer than two arguments are left unchanged.",
     ["inputs"], "all values, n from 0 to 7, also move-only element types",
     "nothing tests it directly",
     ["swap.hpp"], [("fold over wrap::operator+", "swap.hpp nary::swap, swapr")], None, ["argument values after the call"])

prop("A01", "standard algorithms give the right result on every cest range",
     "Standard algorithms as exported by cest (accumulate, find, count, copy, distance, equal, set_intersection/union/difference, merge, reverse, rotate, sort, lower_bound, for_each, inserter/back_inserter/front_inserter targets) applied to cest container ranges produce the results defined on the denoted sequences, whichever container supplies or receives the elements.",
     ["inputs"], "all contents within the size bound, all container pairings exercised",
     "tests use one constant input per algorithm",
     ["algorithm.hpp", "numeric.hpp", "iterator.hpp", "vector.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "deque.hpp"], [("iterator operations", "container iterators"), ("push_back/insert protocol", "containers")], None, ["algorithm results"])

prop("G01", "containers obtain and return all storage through their allocator",
     "Every container given a custom allocator takes all element or node storage from it and returns each block to it exactly once with the same count, in every history; two containers over the same allocator type never share or free each other's blocks.",
     H, "every bounded history over vector, string, list, forward_list, deque, set and map with a counting allocator",
     "allocator tests exercise std::allocator-like types without accounting",
     ["vector.hpp", "string.hpp", "list.hpp", "forward_list.hpp", "deque.hpp", "set.hpp", "map.hpp"], [("allocator_traits rebind and allocate/deallocate", "all containers")], None, ["allocate/deallocate calls"])

prop("K01", "results do not depend on whether evaluation is constant or at run time",
     "Every library operation yields the same values and the same object states whether or not it is being constant-evaluated, output aside; in constant evaluation no operation performs I/O, and only printf-family return values may differ.",
     ["inputs", "configurations"], "both evaluation modes as a symbolic flag, all inputs of a representative program over every header",
     "the static_asserts repeat fixed constants",
     ["runtime_ostream.hpp", "memory.hpp", "shared_ptr.hpp", "cstdio.hpp"], [("std::is_constant_evaluated branches", "runtime_ostream.hpp, cstdio.hpp, memory.hpp, shared_ptr.hpp")], None, ["results in both modes"])

prop("K02", "every documented operation is accepted by the constant evaluator",
     "Every operation the library documents as constexpr can be evaluated inside a constant expression by the supported compiler for every input for which its run-time behaviour is defined.",
     ["programs"], "all constant expressions over the library",
     "static_asserts cover fixed scripts",
     ["vector.hpp", "string.hpp"], [("constexpr qualifiers; no UB", "all headers")], None, ["compiler acceptance"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
