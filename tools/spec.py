#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and from units.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import units as UN
I, H, S = 'inputs', 'histories', 'schedules'
BI, IM, SL = 'src/BigInteger.h', 'src/BigIntegerImpl.cpp', 'src/Slice.h'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe) or ['public C++ API: get2sComplement, absoluted, isZero/isNegative'], hook_needed=hook)))
LIMBS = ('limb slice', 'magnitude as 32-bit limbs inside a shared vector', 'src/BigIntegerImpl.h')
CACHE = ('first-nonzero cache', 'index of the lowest nonzero limb, computed on demand', 'BigIntegerImpl::getFirstNonZeroU32Index')

p('C01', 'Addition, subtraction, negation and increments are exact',
  'For any two integers, +, -, +=, -=, ++, --, unary - and the absolute value give exactly the mathematical result, also when one operand is any 64-bit integer. Operands that are not assigned to keep their values.',
  [I], 'every pair of integers, every carry and borrow pattern, every sign combination, every 64-bit operand',
  'The tests add a handful of values and a few random ones; a carry that crosses a limb of all ones, equal magnitudes with opposite signs, or INT64_MIN as an operand is not among them.',
  [BI, 'src/BigInteger.cpp', IM], [('signed magnitude addition', 'BigIntegerImpl::addAssign / subAssign'), ('limb carry and borrow', 'BigIntegerImpl.cpp detail namespace')], [LIMBS])
p('C02', 'Multiplication is exact',
  'For any two integers the product is exactly the mathematical product with the right sign, for *, *= and with any 64-bit integer on either side.',
  [I], 'every pair of integers', 'Random samples practically never produce the extreme partial products where a lost carry shows.',
  [BI, IM], [('schoolbook product', 'BigIntegerImpl::mulAssign, BigIntegerImpl::mul')], [LIMBS])
p('C03', 'Large products agree with the schoolbook product',
  'When both operands are long enough for the divide-and-conquer multiplication to be chosen, the product is the same integer the schoolbook rule gives, whatever the operand lengths, signs and zero limbs inside.',
  [I], 'every pair of operands above the size threshold, balanced or not, with zero halves',
  'No test reaches the size threshold with operands whose halves are zero or of unequal length.',
  [IM], [('Karatsuba multiplication', 'BigIntegerImpl::mulKaratsuba'), ('splitting', 'BigIntegerImpl::split')], [LIMBS], hook='the size threshold lowered by PGBN_VERIF_KARATSUBA_THRESHOLD')
p('C04', 'Division truncates towards zero and satisfies a = q*b + r',
  'For every a and every nonzero b, a / b and a % b satisfy a = (a / b) * b + a % b with |a % b| < |b| and a % b zero or of the sign of a. This holds for all operator forms and for 64-bit divisors and dividends.',
  [I], 'every dividend and every nonzero divisor, including those on which the quotient digit estimate needs correction',
  'The correction steps of long division are taken for about one in 2^32 operands; samples never reach them.',
  [BI, IM], [('long division', 'BigIntegerImpl::knuthDivImpl'), ('one-limb division', 'BigIntegerImpl::divideAssignAndReminderByU32')], [LIMBS])
p('C05', 'Shifts multiply by powers of two and divide with floor',
  'a << s equals a times 2^s and a >> s equals the floor of a divided by 2^s, for every a and every shift distance s >= 0, negative a included.',
  [I], 'every integer and every distance', 'Rounding of negative numbers depends on the bits shifted out and on the position of the lowest set bit; tests use few distances.',
  [BI, IM], [('left shift', 'BigIntegerImpl::shiftLeftAssign'), ('right shift', 'BigIntegerImpl::shiftRightAssign')], [LIMBS])
p('C06', "Bitwise operators act on the infinite two's complement form",
  "&, |, ^ and ~ give the integer whose infinite two's complement representation is the bitwise combination of the operands' representations, for any signs and lengths and for 64-bit operands.",
  [I, H], 'every pair of integers, in every representation a previous computation can leave', 'Results depend on borrow propagation through low zero limbs and on what an earlier longer value left in the storage.',
  [BI, IM], [("two's complement blocks", 'BigIntegerImpl::getU32'), ('bitwise assignment', 'BigIntegerImpl::andAssign / orAssign / xorAssign / notSelf')], [LIMBS, CACHE])
p('C07', 'Flipping the magnitude bits',
  'Flipping the bits of a number complements exactly the bits of its magnitude up to its highest set bit and keeps its sign; the result is an ordinary number (zero when every bit was set).',
  [I, H], 'every integer in every representation', 'All-ones magnitudes and those whose complement has fewer limbs are not tested.',
  [BI, IM], [('bit flip', 'BigIntegerImpl::notBits')], [LIMBS, CACHE])
p('C08', 'Comparison is the total order of the integers',
  'cmp and ==, !=, <, <=, >, >= agree with the order of the integers for every pair, also between a number and any 64-bit integer on either side, and for a number compared with itself or with a copy.',
  [I], 'every pair of integers and every 64-bit integer', 'Tests compare a few pairs with some operators; a swapped operand in one overload goes unnoticed.',
  [BI, 'src/BigInteger.cpp', IM], [('comparison', 'BigIntegerImpl::cmp')], [LIMBS])
p('C09', 'Every result has the one canonical form of its value',
  'After any operation the number is indistinguishable from a freshly built number of the same value: comparisons, zero tests, exported bytes, blocks and text agree, and no result carries leading zeros or a signed zero.',
  [I, H], 'every operation result and every sequence of operations', 'A leading zero limb is invisible to value tests and only breaks a later operation.',
  [BI, IM, SL], [('erasing leading zero limbs', 'BigIntegerImpl.cpp detail::eraseZerosSuffix')], [LIMBS, CACHE])
p('C10', 'Copies are independent values',
  'After copying a number, changing either the copy or the original by any operation never changes the value of the other, however many copies share storage.',
  [H, I], 'every mutating operation applied to either side of a copy, every value', 'The tests copy and then modify with one or two operations only; each mutator has its own copy-on-write code.',
  [BI, IM, SL], [('copy on write', 'BigIntegerImpl::beginWrite, Slice::cloneData')], [LIMBS])
p('C11', 'An operand may be the same object as the destination',
  'a op= a, a = a and calls whose operand shares storage with the destination give the same value as with an independent equal operand.',
  [I, H], 'every compound operator and every value', 'No test uses the same object on both sides of most operators.',
  [BI, IM], [('aliasing in compound operations', 'BigIntegerImpl::addAssign, subAssign, mulAssign, divAssign, bitwise assign')], [LIMBS])
p('C12', "Import of two's complement bytes",
  "Importing a byte string in either byte order gives exactly the integer whose two's complement representation it is, for every length and content, into a new number or over an old value.",
  [I, H], 'every byte string, both byte orders', 'Sign bytes in front, lengths that are not a multiple of four and negative powers of 256 need particular byte patterns.',
  [BI, IM], [('binary import', 'BigIntegerImpl::assign(const void*, SizeType, bool)')], [LIMBS])
p('C13', 'Export of magnitude bytes and two\'s complement blocks',
  "Exporting writes exactly the little-endian bytes of the magnitude, never more than the caller's limit and never a leading zero byte, and returns the number written; the n-th 32-bit block is the n-th digit of the infinite two's complement form for every n.",
  [I], 'every integer, every buffer size, every block index', 'Tests export a few values with ample buffers.',
  [BI, IM], [('byte export', 'BigIntegerImpl::copyMagDataTo'), ('block export', 'BigIntegerImpl::getU32')], [LIMBS, CACHE])
p('C14', 'Well-formed numerals are read exactly',
  'Reading a numeral made of an optional sign and one or more digits valid in radix 2 to 36, in either letter case and with any number of leading zeros, reports success and gives exactly its value, independent of the earlier value of the object.',
  [I], 'every radix, every digit string up to the bound, both signs', 'Block boundaries of the conversion depend on the radix; tests use few radices and lengths.',
  [BI, IM], [('text import', 'BigIntegerImpl::fromString')], [LIMBS])
p('C15', 'Anything else is rejected and leaves the number alone',
  'For every other string and for every invalid radix reading reports failure with the matching error status and leaves the number unchanged; nothing outside the string is read.',
  [I], 'every byte string up to the bound and every radix', 'Tests try a few invalid strings; digits invalid in the radix at particular positions are not tried.',
  [BI, IM], [('text import', 'BigIntegerImpl::fromString')], [LIMBS])
p('C16', 'Text output is the canonical numeral and reads back',
  'The text of a number in radix 2 to 36 is its canonical numeral (lower-case digits, no leading zeros, a minus sign exactly for negative numbers, "0" for zero) and reading it back gives the same number.',
  [I], 'every integer and every radix', 'Zero blocks inside a number and radix-dependent padding show only for particular values.',
  [BI, IM], [('text output', 'BigIntegerImpl::toString')], [LIMBS])
p('C17', 'Conversion from and to machine integers',
  'A number made or assigned from any 64-bit integer has that value; conversion to int64/uint64 succeeds exactly when the value fits and reports overflow otherwise; narrowing conversions keep the low bits of the two\'s complement form.',
  [I], 'every 64-bit integer and every number', 'Boundary values such as 2^32-1, INT64_MIN, 2^63 and 2^64 are single points.',
  [BI, IM], [('integer import', 'BigIntegerImpl::assign(std::int64_t)'), ('checked export', 'BigInteger::getInt64 / getUInt64 / tryGetInt64 / tryGetUInt64')], [LIMBS])
p('C18', 'Predicates describe the value',
  'isZero, isOne, isNegOne, isPositive, isNegative, isEven and isOdd are true exactly for the values they name.',
  [I, H], 'every integer in every representation', 'Values such as 2^32+1, whose low limb is one, are not tested.',
  [BI, IM], [('predicates', 'BigIntegerImpl::isOne etc.')], [LIMBS])
p('C19', 'Queries do not change a number',
  'Comparisons, conversions, text output, exports and predicates never change the value, and asking twice, in any order and between other queries, gives the same answers.',
  [H, I], 'every sequence of queries on every value, on originals and copies', 'The lazily computed cache is filled by some queries and used by others; tests ask one question per object.',
  [BI, IM], [('lazy cache', 'BigIntegerImpl::getFirstNonZeroU32Index')], [CACHE])
p('C20', 'Values depend only on the mathematical history',
  'After any sequence of operations on a set of numbers, including copies, swaps and queries in between, each number has the value the same sequence gives on mathematical integers.',
  [H, I], 'every sequence of operations up to the bound with every operand value', 'Left-over limbs, stale caches and shared storage need two or three particular operations in a row.',
  [BI, IM, SL], [('representation state', 'Slice, BigIntegerImpl flags')], [LIMBS, CACHE])
p('C21', 'Expressions are evaluated with the documented operators and precedence',
  "Evaluating a well-formed expression gives the value the C precedence rules and the integer semantics of each operator define, for every combination of operators, brackets, conditional and operand values. Beyond C, ** (power) groups to the left and binds tighter than * / % and looser than the prefix operators; comparison and logical operators give 1 or 0. Division by zero, negative exponents and negative shift distances are outside this property.",
  [I, 'programs'], 'every expression of the bounded shapes: every operator choice at every position, every operand value', 'The tests evaluate a dozen fixed expressions; most pairs of operators never meet.',
  ['src/eval.cpp', 'src/infixExpr/ExprParser.cpp', 'src/infixExpr/ExprTree.cpp'], [('recursive descent', 'ExprParser::parse*'), ('evaluation callbacks', 'ExprTree.cpp binOpEvalCallback etc.')], observe=['expr::eval'])
p('C22', 'Literals denote their value in every notation',
  'A literal in decimal, 0x hexadecimal, leading-zero octal or 0NNx radix-NN notation, with digits in either letter case, denotes exactly its value; digits invalid for the radix make the evaluation fail. Literals with a fraction part are outside this property.',
  [I], 'every digit string up to the bound in every radix', 'The radix prefix is parsed character by character; tests use a few literals.',
  ['src/infixExpr/Token.h'], [('tokenizer', 'infixExpr::tokenizer')], observe=['expr::eval, tokenizer'])
p('C23', 'Malformed expressions are reported, never crash or hang',
  'For every input text evaluation terminates without touching memory it does not own; text that is not an expression is reported as a failure through the status and gives zero, and never yields a value for a prefix of the text.',
  [I, 'programs'], 'every byte string up to the bound', 'Malformed inputs are the complement of what examples show; trailing blanks, missing operands and unknown names are not tested.',
  ['src/eval.cpp', 'src/infixExpr/Token.h', 'src/infixExpr/ExprParser.cpp', 'src/streams/StringReadStream.h'], [('error handling', 'ExprParser::badToken, tokenizer error returns')], observe=['expr::eval, Status'])
p('C24', 'Registered functions and constants are called as written',
  'A name bound to a constant evaluates to it and a name bound to a function is called once with its argument values in order; a call with the wrong number of arguments is reported as a failure and the function is not called.',
  [I, 'programs'], 'every argument value, argument counts up to the bound', 'Argument evaluation goes through generic node code the tests use with one function only.',
  ['src/infixExpr/ExprTree.cpp', 'src/infixExpr/SymbolTable.h', 'src/infixExpr/ObjectManager.h'], [('function nodes', 'builtinFuncEvalCallback'), ('registration', 'ObjectManager::registe')], observe=['expr::eval'])
p('C25', 'Parallel evaluation gives the sequential result under every schedule',
  'Parallel evaluation of an expression terminates without data race or deadlock under every thread schedule and returns the value sequential evaluation returns.',
  [S, 'programs'], 'every interleaving of the worker threads and the caller for the bounded expressions and thread counts', 'A test run sees one schedule; a lost wakeup or a race needs a particular one.',
  ['src/eval.cpp', 'src/infixExpr/ExprTree.cpp', 'src/parallel/ThreadPool.h', 'src/Status.cpp'], [('task ordering', 'expr::peval'), ('promises', 'ExprTree.cpp pevalTask')], observe=['expr::peval'])
p('C26', 'The thread pool runs every task exactly once and always shuts down',
  'Every task handed to the pool runs exactly once and its future delivers its result, and destroying the pool, at any moment, waits for all accepted tasks and returns; no schedule deadlocks, loses a wakeup or races.',
  [S, H], 'every interleaving of submitting, working and shutting down for the bounded numbers of threads and tasks', 'Shutdown racing with a worker about to sleep is a window of a few instructions.',
  ['src/parallel/ThreadPool.h', 'src/parallel/SimpleConcurrenceQueue.h'], [('blocking queue', 'SimpleConcurrenceQueue::pop / push / notifyAllPop'), ('shutdown', 'ThreadPool::~ThreadPool')], [('always-pop flag', 'wakes the workers at shutdown', 'SimpleConcurrenceQueue.h')], observe=['ThreadPool::addTask futures, destructor'])
p('C27', 'Fractions are exact and reduced',
  'Sums, differences, products, quotients and reciprocals of fractions are exactly the rational results in lowest terms; a zero denominator or divisor is refused with a division-by-zero status.',
  [I], 'every pair of fractions within the bound', 'Tests use a handful of positive fractions.',
  ['src/Fraction.h', 'src/algorithm.cpp'], [('reduction', 'Fraction::fix'), ('gcd', 'algo::gcd')], observe=['Fraction::getNum / getDen'])
p('C28', 'Fraction text and decimal expansion are correct',
  'The text of a fraction is its signed numerator and denominator; the decimal form is the truncated decimal expansion with the requested number of digits, with the right sign and leading zeros after the point.',
  [I], 'every fraction within the bound and every digit count within the bound', 'Values below one tenth in magnitude and negative values are not tested.',
  ['src/Fraction.h'], [('decimal expansion', 'Fraction::toDecimal'), ('text', 'Fraction::toString')], observe=['Fraction::toDecimal / toString'])
p('C30', 'The C interface does what the C++ interface does',
  'Every C function gives the result, and has the effect, of the C++ operation it wraps, for every argument, and leaves its other arguments unchanged.',
  [I, H], 'every C function on every value', 'The C tests exercise the status functions only.',
  ['c/src/pgbn.cpp', 'c/src/pgbn.h'], [('wrappers', 'pgbn_BigInteger_*')], observe=['C API'])
p('C31', 'Errors are reported with the right code and callback',
  'Each failing operation sets the calling thread\'s status to the code of its error and invokes the callback registered for that code exactly once; registering a code replaces its text and callback; division by zero follows the registered reaction.',
  [I, H], 'every failing operation, every registered code, sequences of registrations and uses', 'Tests look at two codes; which statement sets the status last depends on the path.',
  ['src/Status.cpp', 'src/Status.h', 'src/errInfos.cpp', IM], [('status assignment', 'Status::operator='), ('registration', 'Status::registeImpl')], observe=['Status::getInfo, callbacks'])
p('C32', 'Slices behave as sequences',
  'A slice behaves like the sequence it shows under appending, prepending, extending, cutting, copying, moving, swapping and writing, and after detaching from shared storage a write is invisible to other slices.',
  [H, I], 'every sequence of operations up to the bound', 'The combinations of spare room before and behind the visible part need particular sequences.',
  [SL], [('window on a shared vector', 'Slice')], observe=['Slice operator[], count, begin/end'])
p('C33', 'No undefined behaviour for valid calls',
  'No valid call reads or writes outside its objects, uses freed or uninitialised memory, overflows a signed integer, shifts by too much or frees twice, whatever the argument values.',
  [I, H], 'every public operation on every value and representation within the bounds', 'Undefined behaviour usually gives the expected result in the test build.',
  [IM, SL, BI, 'src/infixExpr/Token.h', 'src/pgdebug.h'], [('index arithmetic', 'BigIntegerImpl.cpp'), ('storage', 'Slice.h')], observe=['engine memory model, UBSan instrumentation'])
p('C34', 'Message formatting substitutes its arguments',
  'Formatting a message replaces each {n} by the text of the n-th argument and copies everything else, for every format text and argument value, without writing outside its buffers.',
  [I], 'every format text up to the bound, every argument value', 'Formatting is used with constant formats in the tests.',
  ['src/pgdebug.h'], [('formatting', 'pgfmt::format'), ('argument text', 'transToString')], observe=['pgfmt::format'])
p('C35', 'The text stream delivers each character once',
  'Reading a text stream delivers the characters in order and then only end-of-text; looking ahead does not consume, the position counts what was read, and a copying stream is unaffected by later changes of the source.',
  [I, H], 'every text up to the bound, every sequence of reads', 'Used by the tests only indirectly.',
  ['src/streams/StringReadStream.h'], [('stream', 'StringReadStream')], observe=['StringReadStream'])
p('C36', 'The symbol table returns the last registration',
  'Looking up a name returns the object most recently registered for exactly that name and nothing for any other name.',
  [H, I], 'every sequence of registrations and look-ups up to the bound', 'Not tested directly.',
  ['src/infixExpr/ObjectManager.h', 'src/infixExpr/SymbolTable.h'], [('table', 'ObjectManager')], observe=['SymbolTable::get'])
p('C37', 'Swapping and moving transfer values',
  'Swapping exchanges two values, moving gives the destination the value of the source, and every moved-from number can be assigned, copied and destroyed again.',
  [H, I], 'every value and representation, self-swap and self-assignment included', 'Tests do not use a number after moving from it.',
  [BI, 'src/BigInteger.cpp', IM, SL], [('move and swap', 'BigInteger move operations, BigIntegerImpl::swap')], [LIMBS])

NA = getattr(UN, 'NOT_APPLICABLE', {})
def main():
    ids = [x['id'] for x in P]
    assert len(set(ids)) == len(ids)
    for x in P:
        assert len(x['title']) <= 80, x['id']
    open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(x, ensure_ascii=False) + '\n' for x in P))
    checks = []
    for x in P:
        u = UN.PROPS.get(x['id'])
        if not u: continue
        checks.append(dict(property=x['id'], quick_cmd=f"python3 check.py {x['id']} --tier quick", thorough_cmd=f"python3 check.py {x['id']} --tier thorough",
            technique=u.get('technique') or 'symbolic execution of the LLVM IR of the real code, all branches and assertions decided by Z3' + (', all thread schedules within a preemption bound' if x['id'] in ('C25', 'C26') else ''),
            level='model_checking', level_note='Holds for all values within: ' + u['bounds'] + '. Every reported violation is replayed on the compiled code. Trusts clang, Z3 and the models of libc/libstdc++ library functions.'))
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout
    hooks = [l.split()[0] for l in log.splitlines() if l.split(' ', 1)[1].startswith('hook:')]
    m = dict(version=1, setup_cmd='make -s -C engine -j8', checks=checks,
        not_applicable=[dict(property=x['id'], reason=NA.get(x['id'], 'no check has been built for it yet')) for x in P if x['id'] not in UN.PROPS],
        notes='See DESIGN.md. Every check compiles /repo to LLVM IR and executes it symbolically; nothing is cached between sandboxes.')
    if hooks: m['hooks'] = dict(guard='PGBN_VERIF_KARATSUBA_THRESHOLD', enable='-DPGBN_VERIF_KARATSUBA_THRESHOLD=2 (configuration "kara" in check.py)', source_commits=hooks)
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    try:
        import jsonschema
        for x in P: jsonschema.validate(x, json.load(open('/root/.vp/PROPERTIES.schema.json')))
        jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
        print('valid;', len(checks), 'checks,', len(m['not_applicable']), 'not applicable')
    except ImportError:
        pass
main()
