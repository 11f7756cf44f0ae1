LANES = 'every value of every lane (all bit patterns) of every implementing vector type, on each instruction-set level'
WHYL = 'the tests try a few constants per type and only the instruction set the host is built for; one lane, one boundary value or one code path wrong goes unseen'
WHYI = 'the tests use a few fixed lengths with constant data; the guarantee is over every length relative to the vector width, every content and every instruction-set level'
LENS = 'every slice length from 0 to past two (wide types) or three vectors, every content, every mapped function, on each instruction-set level'

prop('P01', 'Mapping then collecting gives exactly the mapped elements in order',
     'Mapping a lane-wise function over a SIMD iterator of a slice or Vec of any length and collecting the result yields exactly '
     'one output per input element, in order, each equal to the function of that element. This holds for chained maps, for maps that reinterpret '
     'vectors as elements of another size, and for collecting with the redundant tail (all full vectors, then the whole padded last vector). '
     'No padding lane or uninitialized memory is ever visible in the result.',
     ['inputs', 'configurations'], LENS, WHYI, [IT, II, VE],
     [('SIMDIterator::simd_map / SIMDMap', IT), ('IntoScalar::scalar_collect', IT), ('SIMDIter::next / SIMDIterator::end', IT)],
     note='The mapped function is an uninterpreted function, so the result holds for every pure lane-wise closure.')
prop('P02', 'Reducing and visiting touch every element once, in order, rest default',
     'Stepping a SIMD iterator with next() and then end(), with do-each, or with a reduction visits every element of the collection exactly once, in order. '
     'The last, partial vector carries the remaining elements at its high end, every other lane holds the default the iterator was created with, and the '
     'reported number of unfilled lanes is exact. The accumulator of a reduction is threaded through the calls in order.',
     ['inputs', 'configurations'], LENS, WHYI, [IT], [('SIMDIterator::end', IT), ('SIMDIterator::simd_reduce / simd_do_each', IT)])
prop('P03', 'In-place iteration rewrites every element exactly once and nothing else',
     'simd_for_each over a mutable slice applies the closure to every element from the iterator\'s position to the end exactly once and stores the result at the same index. '
     'Elements before the position and memory outside the slice keep their values, and the lanes of the last partial vector that are not elements hold the default.',
     ['inputs', 'configurations'], LENS + '; every starting position', WHYI, [IT], [('SIMDIteratorMut::simd_for_each', IT)])
prop('P04', 'Filling a slice writes exactly the iterated elements and never outside it',
     'scalar_fill stores the mapped elements in order at the start of the destination and leaves the rest of the destination unchanged; scalar_fill_all does the same with the whole last padded vector. '
     'A destination that is too short never causes a write outside it: the call panics.',
     ['inputs', 'configurations'], LENS + '; every destination length', 'no test gives a destination that is too short, or checks what lies behind it', [IT],
     [('IntoScalar::scalar_fill / scalar_fill_all', IT)])
prop('P05', 'Lengths and positions are counted consistently',
     'For every iterator the scalar length, the vector length, the scalar and vector position and what next() and advance() do to them agree: next() yields a vector exactly when a full vector remains, '
     'moves the position by one vector width, and the position after advance(n) is n elements further; finalize() leaves nothing to iterate. Mapping to vectors of the same element size does not change the counts.',
     ['inputs', 'histories', 'configurations'], 'every length, position and advance amount (64-bit values for the accounting steps)', 'positions near the end or near overflow are never tested', [IT, ZI, ST],
     [('SIMDSized / SIMDIterable accessors', IT), ('SIMDIter::next', IT)])
prop('P06', 'Resuming a partly consumed iterator yields exactly the remaining elements',
     'After any interleaving of next(), advance(), and scalar stepping through unpack()/pack(), finishing the iteration (collecting, filling, reducing, visiting, in-place) covers exactly the elements from the current position on, each once and in order. '
     'No element before the position is re-read into the result or overwritten, and nothing out of bounds is read or written.',
     ['inputs', 'histories', 'configurations'], 'every length, every position reachable by next/advance/unpack, every content', 'every existing test starts at position 0', [IT],
     [('SIMDIter::advance, Unpacked', IT), ('IntoScalar::scalar_collect / scalar_fill', IT), ('SIMDIterator::end', IT)])
prop('P07', 'Zipped iterators advance in lockstep',
     'Zipping 2 to 13 iterators of equal length yields, for every vector, the tuple of the corresponding vectors of each iterator, in order; the last partial tuple pads every member with that member\'s own default. '
     'Mapping, reducing, visiting and collecting a zipped iterator therefore cover index i of every collection together, exactly once.',
     ['inputs', 'configurations'], 'every arity, every length, every content, every lane-wise function', 'the tests zip only a few arities at one or two lengths', [ZI],
     [('impl_iter_zip! next/end', ZI), ('SIMDZipMap', ZI), ('next_unchecked / end_unchecked', IT)])
prop('P08', 'Zip never pairs iterators that do not line up',
     'Zipping iterators whose remaining elements cannot be paired one to one (different scalar lengths, positions or vector widths) panics, in whichever place of the tuple the odd one is. '
     'Whatever is zipped and however it is advanced afterwards, no memory outside the underlying collections is read.',
     ['inputs', 'configurations'], 'every arity and place, lengths that differ by any amount including less than a vector', 'the tests never zip mismatched iterators', [ZI],
     [('IntoSIMDZip::zip check', ZI)])
prop('P09', 'Striding visits element i, i+n, i+2n, ... in order',
     'The k-th iterator of a stride by n over a slice yields exactly the first floor(len/n) of the elements k, k+n, k+2n, ..., in order, padded with the k-th default at the end; this holds for every stride count and for the fixed-arity forms, when mapped, collected, reduced or zipped together. '
     'Stride-zipping a slice pairs elements 2i and 2i+1.',
     ['inputs', 'configurations'], 'every length, stride count 1..9, content, instruction-set level', 'the tests check a property of the elements of one length, or constants', [ST, SZ],
     [('PackedStride::next / load / end', ST), ('StrideZip::next / end', SZ)])
prop('P10', 'Loading, storing and lane access address exactly the named lanes',
     'Loading or storing a vector at an offset of a slice touches exactly the WIDTH elements from that offset on, in order; the checked forms panic for every offset that does not leave room, and never read or write outside the slice. '
     'Extracting or replacing lane i affects lane i only (any other index panics), splat and default fill every lane, coalesce returns the common value, and scalar_reduce folds the lanes once each in order.',
     ['inputs', 'configurations'], LANES + '; every offset and index, in range or not', WHYL, [VE, 'src/arch/x86/vecs.rs'],
     [('Packed for every vector type', VE)],
     note='Slices of WIDTH+3 elements; offset and index are arbitrary 64-bit values.')
prop('P11', 'Pattern constructors build the documented lane patterns',
     'halfs, interleave, partition, ones, zeroes and partition_mask produce exactly the documented value in every lane for every argument and every partition point from 0 to WIDTH. '
     'A partition mask beyond WIDTH is rejected rather than read from outside the table.',
     ['inputs', 'configurations'], LANES + '; every partition point', WHYL, ['src/arch/x86/vec_patterns.rs', 'src/vec_patterns.rs'], [('Pattern', 'src/arch/x86/vec_patterns.rs')])
prop('P12', 'Merging takes each lane from the right operand',
     'merge_halves takes the first half of the lanes from the first vector and the rest from the second, merge_interleaved takes even lanes from the first and odd lanes from the second, and merge_partitioned takes the lanes before the partition point from the first and the others from the second. '
     'This holds for every partition point from 0 to WIDTH; greater ones panic.',
     ['inputs', 'configurations'], LANES + '; every partition point', WHYL, ['src/intrin/merge.rs', 'src/arch/x86/intrin/merge.rs'], [('Merge', 'src/arch/x86/intrin/merge.rs')])
prop('P13', 'abs, min and max are exact in every lane',
     'abs returns the mathematical absolute value of every lane (as an unsigned integer for integer lanes, including the most negative value; with the sign bit cleared for floats). min and max return, in every lane, the smaller or larger of the two operands under the signedness of the element type.',
     ['inputs', 'configurations'], LANES, WHYL, ['src/intrin/abs.rs', 'src/arch/x86/intrin/abs.rs', 'src/intrin/cmp.rs', 'src/arch/x86/intrin/cmp.rs'],
     [('Abs', 'src/arch/x86/intrin/abs.rs'), ('Cmp', 'src/arch/x86/intrin/cmp.rs')],
     note='min/max of a NaN, or of zeros of different sign, may return either operand.')
prop('P14', 'Saturating add and subtract clamp exactly in every lane',
     'saturating_add and saturating_sub return, in every lane, the exact sum or difference clamped to the range of the element type. Every instruction-set level gives the same result.',
     ['inputs', 'configurations'], LANES, WHYL, ['src/intrin/saturating_add.rs', 'src/arch/x86/intrin/saturating_add.rs', 'src/intrin/saturating_sub.rs', 'src/arch/x86/intrin/saturating_sub.rs'],
     [('SaturatingAdd', 'src/arch/x86/intrin/saturating_add.rs'), ('SaturatingSub', 'src/arch/x86/intrin/saturating_sub.rs')])
prop('P15', 'Horizontal add and subtract combine adjacent lanes in the documented order',
     'hadd, hsub, saturating_hadd and saturating_hsub combine lanes 2k and 2k+1 of each operand, placing the results of the first operand in the even lanes and those of the second in the odd lanes. The plain forms wrap (or panic in builds with overflow checks), the saturating forms clamp to the element range.',
     ['inputs', 'configurations'], LANES, WHYL, ['src/arch/x86/intrin/hadd.rs', 'src/arch/x86/intrin/hsub.rs', 'src/arch/x86/intrin/saturating_hadd.rs', 'src/arch/x86/intrin/saturating_hsub.rs'],
     [('HAdd/HSub', 'src/arch/x86/intrin/hadd.rs'), ('SaturatingHAdd/SaturatingHSub', 'src/arch/x86/intrin/saturating_hadd.rs')])
prop('P16', 'Equality masks are all-ones or all-zeros per lane',
     'eq_mask has all bits set in exactly the lanes whose operands compare equal and no bit set elsewhere, and ne_mask is its complement. For float lanes this is IEEE equality: zeros of either sign are equal and NaN equals nothing.',
     ['inputs', 'configurations'], LANES, WHYL, ['src/intrin/eq.rs', 'src/arch/x86/intrin/eq.rs'], [('Eq', 'src/arch/x86/intrin/eq.rs')])
prop('P17', 'Sums and products fold every lane exactly once',
     'sum and product equal the wrapping sum or product of all lanes in the element type; sum_upcast equals the exact sum of all lanes in the wide type, so that it never truncates or loses the sign of small lanes.',
     ['inputs', 'configurations'], LANES, WHYL, ['src/intrin/sum.rs', 'src/arch/x86/intrin/sum.rs', VE], [('Sum/UpcastSum', 'src/arch/x86/intrin/sum.rs'), ('Packed::product', VE)],
     note='Float sums: over lane values for which no addition rounds. Builds with overflow checks: lane values whose sum cannot overflow in any order.')
prop('P18', 'Upcasting preserves the value and the order of every lane',
     'upcast splits a vector into two vectors of the wider type whose lanes, taken in order, are exactly the values of the original lanes (sign-extended for signed, zero-extended for unsigned, exact for float targets).',
     ['inputs', 'configurations'], LANES, WHYL, ['src/intrin/upcast.rs', 'src/arch/x86/intrin/upcast.rs'], [('Upcast', 'src/arch/x86/intrin/upcast.rs')])
prop('P19', 'Saturating downcast clamps every lane and keeps lane order',
     'saturating_downcast of two vectors gives one vector whose lanes are, in order, the lanes of the first and then of the second operand, each clamped to the range of the narrower type (correctly rounded for floats). Every instruction-set level gives the same result.',
     ['inputs', 'configurations'], LANES, WHYL, ['src/intrin/downcast.rs', 'src/arch/x86/intrin/downcast.rs'], [('Downcast', 'src/arch/x86/intrin/downcast.rs')])
prop('P20', 'Byte-order conversion and bit reinterpretation are exact',
     'swap_bytes, to_be and from_be reverse the bytes of every lane, to_le and from_le leave them unchanged on this little-endian target, and every reinterpretation (be_*) returns the same bytes in the same order.',
     ['inputs', 'configurations'], LANES, WHYL + ' (and most byte-order tests fail on the pristine tree)', ['src/intrin/endian.rs', 'src/arch/x86/intrin/endian.rs', 'src/intrin/transmute.rs', 'src/arch/x86/intrin/transmute.rs'],
     [('Reendianize', 'src/arch/x86/intrin/endian.rs'), ('Transmute', 'src/arch/x86/intrin/transmute.rs')])
prop('P21', 'Population counts are exact',
     'count_ones returns the number of set bits of the whole vector and count_zeroes the number of clear bits, for every bit pattern.',
     ['inputs', 'configurations'], LANES, WHYL, ['src/intrin/popcnt.rs', 'src/arch/x86/intrin/popcnt.rs'], [('Popcnt', 'src/arch/x86/intrin/popcnt.rs')])
prop('P22', 'Rounding, square root and reciprocal estimates act on each lane by its own value',
     'ceil, floor, trunc and sqrt are the correctly rounded IEEE results of every lane, and round goes to the nearest integer; zeros, infinities and NaN behave as IEEE prescribes. recip and rsqrt are, per lane, an estimate of the reciprocal (square root) of that same lane.',
     ['inputs', 'configurations'], 'every bit pattern of every lane of every implementing type, on each instruction-set level', WHYL, ['src/arch/x86/intrin/round.rs', 'src/arch/x86/intrin/sqrt.rs', 'src/arch/x86/intrin/recip.rs', 'src/arch/x86/intrin/rsqrt.rs'],
     [('Round', 'src/arch/x86/intrin/round.rs'), ('Sqrt', 'src/arch/x86/intrin/sqrt.rs'), ('Recip/Rsqrt', 'src/arch/x86/intrin/recip.rs')],
     note='Ties of round may go to even or away from zero; the accuracy of the processor\'s estimate instructions is outside (uninterpreted).')
prop('P23', 'Destriding separates interleaved elements completely and in order',
     'destride_two and destride_four of consecutive vectors return, in their k-th result, exactly the elements at positions k, k+n, k+2n, ... of the concatenated operands, in order.',
     ['inputs', 'configurations'], LANES, WHYL, ['src/intrin/destride.rs', 'src/arch/x86/intrin/destride.rs'], [('Destride', 'src/arch/x86/intrin/destride.rs')])
prop('P24', 'No code path needs an instruction the build target does not have',
     'Code built for a given instruction-set level never executes an instruction outside it: a program built for a processor runs on that processor. In particular every optimized path is gated on the exact feature its instructions belong to.',
     ['configurations', 'inputs'], 'every vector operation, on each instruction-set level from plain x86-64 up', 'the tests run on the host, which has every feature', ['src/arch/x86/intrin', 'src/arch/x86/vec_patterns.rs'],
     [('cfg(target_feature) gates', 'src/arch/x86/intrin')])
prop('P26', 'Unrolling groups consecutive vectors in order',
     'An unrolled iterator yields groups of at most the requested number of consecutive vectors, in order, dropping and repeating none; only the last group may be shorter. More than eight vectors at a time are rejected.',
     ['inputs', 'configurations'], 'every length and position, every group size from 1 to 8', 'not covered by a test', [IT], [('Unrolled::next', IT)])
prop('P27', 'Packing any exact-size iterator keeps its elements in order',
     'The adapter that packs a scalar iterator of known length into vectors yields its elements in order, each exactly once: full vectors first, then one right-aligned vector padded with the default. Its length and position accessors count scalars of the underlying iterator.',
     ['inputs', 'configurations'], LENS, 'not covered by a test', [IT], [('SIMDAdapter::next / end', IT)])
prop('P28', 'Closures are called once per vector, in order and only when a vector is consumed',
     'A closure given to simd_map (on plain, mutable, packing, strided, zipped or already mapped iterators), simd_do_each, simd_for_each or simd_reduce is called exactly once for each vector that is consumed, in iteration order, with that vector. Creating or advancing an iterator, or asking for its length, position or default, calls no closure.',
     ['inputs', 'histories'], LENS, 'the tests only pass closures without side effects', [IT, ZI], [('SIMDMap, SIMDZipMap, simd_do_each, simd_reduce, simd_for_each, IntoScalar', IT)])
prop('P25', 'The portable implementations agree with the documented semantics',
     'The fallback implementations for processors other than x86 give, lane by lane, the results documented for each vector operation.',
     ['inputs'], LANES, 'they are not compiled on the test host at all', ['src/arch/unknown'], [('arch::unknown', 'src/arch/unknown')])
NA = {
    'P25': 'src/arch/unknown does not compile: selecting it (tried with a cfg in src/arch/mod.rs, on this toolchain) fails because its vector types lack the loads and stores src/vecs.rs calls on them '
           '(from_slice_unaligned, write_to_slice_unaligned and their unchecked forms, for all ten types). There is no code to lower to IR, on any target.',
}
HOOKS = None
