"""writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ['indirect.h', 'indirect_cxx14.h', 'polymorphic.h', 'polymorphic_cxx14.h']
IND = ALL[:2]
POL = ALL[2:]
OWN = [dict(name='owning pointer', meaning='null exactly when valueless', where='indirect.h / polymorphic.h: the pointer member'),
       dict(name='allocator', meaning='the allocator that allocated the owned storage', where='all four headers: the allocator member or base')]


def mech(*xs):
    return [dict(name=n, where=w) for n, w in xs]


T = []


def P(id, title, st, over, q, why, files, mech_, state=OWN, note=None, obs=None):
    T.append((dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                   anchors=dict(files=files, state=state, mechanism=mech_, observe_at=obs or ['calls to the element type and the allocator', 'public observers'], hook_needed=None)), note))


OPQ = 'every operation, every reachable state of each operand (owning, valueless, aliased), every allocator identity and equality outcome, every element type meeting its documented requirements'
P('C01', 'Every owned object is destroyed once and its storage returned once',
  'Each object an indirect or polymorphic creates is destroyed exactly once and its storage is returned exactly once, whatever sequence of operations, failures and moves it goes through. At any time an object is owned by at most one handle, and a valueless handle owns nothing. Nothing is leaked, also when a constructor, assignment or allocation throws midway.',
  ['histories', 'fault_sequences', 'inputs', 'configurations'], OPQ + '; every point at which the element type or the allocator may throw; all histories by induction over the representation invariant',
  'Tests run a few dozen histories with a counting allocator and two or three types; leaks and double frees hide in the combination of state, allocator equality and the position of a throw.',
  ALL, mech(('construct_from / destroy_with', 'indirect.h, indirect_cxx14.h: private helpers'), ('create_storage / control block create, clone, destroy', 'polymorphic.h, polymorphic_cxx14.h: private helpers'), ('reset', 'all four headers')))
P('C02', 'No operation used within its preconditions has undefined behaviour',
  'Used within its documented preconditions no operation reads or writes storage that is not a live part of an operand, uses an object before its lifetime starts or after it ends, reads an uninitialised value, reaches code marked unreachable, or fails an internal assertion. This includes valueless, moved-from and self-aliased operands; sources nested inside the value of the target are covered by C21.',
  ['inputs', 'histories', 'configurations', 'fault_sequences'], OPQ + '; both with and without assertions compiled in; exceptions at every external call',
  'Sanitizer runs see only the executed inputs; the state space of aliasing, valueless operands, allocator kinds and faults is far larger than the tested set.',
  ALL, mech(('null checks before every dereference', 'all four headers'), ('assertions on accessors', 'operator*, operator->')))
P('C03', 'Copy construction produces an independent equal object',
  'Copy construction, with or without an explicit allocator, creates a new object of the same dynamic type from the const source object by copy construction, and never changes the source. A copy of a valueless object is valueless. The copy uses the given allocator, or otherwise the allocator that the source allocator selects for copies.',
  ['inputs', 'configurations', 'fault_sequences'], 'every source state (const, mutable, const rvalue source), allocator and element type, including types with non-const or greedy constructors; throws at each step',
  'Tests copy a few concrete types; const-correct overload selection and allocator selection for arbitrary types are never observed.',
  ALL, mech(('copy constructor', 'all four headers'), ('allocator-extended copy constructor', 'all four headers')))
P('C04', 'Copy assignment gives the target the value, or changes nothing',
  'After copy assignment the target owns a distinct object equal to and of the same dynamic type as the source (an owning indirect keeps its object and assigns to it if the allocators are equal), or is valueless if the source is, and the source is unchanged; self-assignment does nothing. The target has the source allocator if allocators propagate on copy assignment and its own otherwise (and then the allocator need not be assignable). If the assignment throws, the target is as it was before, unless the element\'s own assignment threw.',
  ['inputs', 'configurations', 'fault_sequences'], 'every pair of states of target and source including the same object, every allocator equality and propagation trait, every throwing position',
  'The result depends on valueless x valueless x allocator equality x propagation x element assignability x fault position; tests touch about a dozen combinations without faults.',
  ALL, mech(('copy assignment operator', 'all four headers')))
P('C05', 'Move construction transfers the owned object itself',
  'Move construction between equal allocators hands over the very object that the source owned: its address and value are preserved, no element operation runs, nothing is allocated or thrown, and the source becomes valueless. With an explicit unequal allocator a new object of the same dynamic type is move-constructed instead and the source keeps its moved-from object. The result always has the requested allocator.',
  ['inputs', 'configurations', 'fault_sequences'], 'every source state, allocator pair (equal, unequal, always equal, stateless), element type; throws of the element move in the unequal case',
  'Tests use tagged allocators on a single element type and do not observe element operations or faults.',
  ALL, mech(('move constructor', 'all four headers'), ('allocator-extended move constructor', 'all four headers')))
P('C06', 'Move assignment transfers the owned object or rebuilds it, never both',
  'Move assignment between equal allocators releases the target\'s old object and transfers the source\'s object itself without element operations, leaving the source valueless; with unequal allocators that do not propagate a new object is move-constructed with the target\'s allocator. A valueless source makes the target valueless and self-move changes nothing. A throwing move leaves the target as it was, and an allocator need be assignable only if it propagates.',
  ['inputs', 'configurations', 'fault_sequences'], 'every pair of states including the same object, every allocator equality, every propagation trait, every throwing position',
  'Tests cover a handful of state pairs with one propagation setting each; the branch matrix and the fault positions are not enumerated.',
  ALL, mech(('move assignment operator', 'all four headers')))
P('C07', 'Swap exchanges contents without touching any element',
  'Swapping two objects, by member or free function, exchanges the owned objects themselves and the valueless states: addresses and values are preserved, no element is constructed, assigned or destroyed, nothing is allocated and nothing is thrown. Allocators are exchanged exactly when they propagate on swap, by the swap function found for them (they need not be assignable). Swapping an object with itself changes nothing.',
  ['inputs', 'configurations'], 'every pair of states including the same object, all allocators with propagation or equality (the documented precondition)',
  'Tests swap value/value and value/valueless for one type; the allocator cases and the absence of element operations are not observed.',
  ALL, mech(('member swap', 'all four headers'), ('friend swap', 'all four headers')))
P('C08', 'A throwing operation has no effect beyond the element\'s own guarantee',
  'Whenever the element type or the allocator throws inside an operation, exactly that exception reaches the caller, nothing is leaked or destroyed twice, and every operand keeps its previous allocator, ownership and value. Only an element\'s own throwing assignment, or its own throwing move of the source, may have changed that element\'s value. Objects whose construction failed leave nothing behind.',
  ['fault_sequences', 'inputs', 'configurations'], 'every operation x every external call that can throw x every operand state and allocator relation',
  'There are only a few throw tests, each with one throw position; strong exception safety is a statement about all of them.',
  ALL, mech(('try/catch around construction', 'construct_from, create_storage, control block creation'), ('construct before release', 'assignment operators')))
P('C09', 'The allocator observed is the one the propagation traits prescribe',
  'After every construction, assignment and swap the allocator reported by each operand equals the one prescribed by the allocator argument, by select_on_container_copy_construction, or by the propagation traits of the allocator type. An operation that fails leaves every reported allocator unchanged.',
  ['inputs', 'histories', 'configurations'], 'all operations x operand states x allocator identities x all combinations of the three propagation traits, always-equal, stateless, final and not default-constructible allocators',
  'Tests fix one trait at a time with two tags; the traits interact with valueless states, equality and failure.',
  ALL, mech(('propagation handling', 'assignment operators and swap in all four headers'), ('select_on_container_copy_construction', 'copy constructors')))
P('C10', 'Owned storage always goes through an allocator equal to the one reported',
  'All storage for owned objects is obtained from and returned to allocators that compare equal to the allocator the owner reports, with matching size and alignment. Where an allocator supplies its own construct and destroy functions, every owned object is constructed and destroyed through them. No operation leaves an object owning storage that its own allocator may not release.',
  ['inputs', 'histories', 'configurations'], 'all operations, states, allocator identities and trait combinations; allocators with construct/destroy hooks; over-aligned element types; throws at every position',
  'Misuse is silent with always-equal allocators, which most tests use, and depends on combinations of traits and states.',
  ALL, mech(('allocator_traits calls', 'construct_from, destroy_with, create_storage, control block create/destroy'), ('rebinding', 'polymorphic.h, polymorphic_cxx14.h')))
P('C11', 'Constructors build exactly the requested object from the given arguments',
  'Every constructor taking a value, in-place arguments or an initializer list creates one owned object of exactly the requested type by one constructor call that receives the arguments unchanged, as lvalues or rvalues as passed, without intermediate copies. The object is not valueless and reports the given allocator, or a default-constructed one if none was given.',
  ['inputs', 'configurations', 'programs'], 'every constructor, with and without allocator, for every value category, argument list shape and element type (const and mutable sources, types with greedy or non-const constructors, over-aligned, empty, final, virtual, derived, trivially copyable, with overloaded operator new or operator&)',
  'Tests check resulting values of copyable types; forwarding categories and intermediate objects are invisible there.',
  ALL, mech(('value, in-place and initializer-list constructors', 'all four headers')))
P('C12', 'Valueless state arises and ends exactly where documented',
  'An object is valueless exactly when it owns nothing: after giving up its object in a move or swap, or after being copied, moved or assigned from a valueless object, and never otherwise. Construction and assignment from a value always end the state, and every operation except dereferencing is well-defined on valueless operands.',
  ['histories', 'inputs', 'configurations'], OPQ + '; all histories by induction',
  'Valueless operands multiply every operation\'s cases; the tests contain only selected ones.',
  ALL, mech(('valueless_after_move', 'all four headers'), ('null propagation', 'copy/move constructors and assignments')))
P('C13', 'Accessors denote the owned object and propagate constness',
  'Dereferencing and member access denote the owned object itself, the same one for every accessor, until an operation replaces it. Access through a const handle gives const access only, access through an rvalue indirect gives an rvalue. Accessors change nothing and never throw.',
  ['inputs', 'programs', 'configurations'], 'all accessors and value categories, all owning states, base classes at non-zero offsets, fancy pointers, types that overload the address-of operator',
  'Tests read values through accessors of simple types; identity for multiple-inheritance bases or overloaded address-of is not sampled.',
  ALL, mech(('operator*, operator->, get_allocator, valueless_after_move', 'all four headers')))
P('C14', 'Operations on const objects write nothing and share nothing',
  'An operation does not write to operands or arguments it takes as const, to anything they own, or to state shared between unrelated objects. Hence operations on distinct objects, and read-only operations on the same object, may run concurrently without data races.',
  ['schedules', 'inputs', 'configurations'], OPQ + '; any interleaving, because no two such operations have a conflicting access',
  'A race needs a particular schedule, and no test is concurrent; hidden caches, counters or writes through mutable state pass every sequential test.',
  ALL, mech(('const member functions', 'all four headers'), ('no reference counts or caches', 'all four headers')))
P('C15', 'Comparisons agree with the owned values, valueless sorting lowest',
  'Comparing two indirect objects, or one with a plain value, by any of the six relational operators or three-way comparison gives the result of that comparison on the owned values, in the given operand order, for element types of the same or different types. A valueless object equals every valueless object and is less than any value. Values that are unordered, such as NaN, stay unordered, and three-way comparison has the comparison category of the elements, or is a weak ordering where it is synthesised from less-than.',
  ['inputs', 'configurations', 'programs'], 'all operators, both operand orders, mixed element types, all state pairs, all relations (including partial orders); element types with six operators, with only equality and less-than, and with three-way comparison',
  'Tests compare small integers; partial orders, swapped operands and mixed types hide behind total orders.',
  IND, mech(('relational operators', 'indirect.h, indirect_cxx14.h'), ('three-way comparison', 'indirect.h')))
P('C16', 'Hashes agree with the owned values',
  'The hash of an object that owns a value is the element type\'s hash of that value, so equal objects have equal hashes. All valueless objects hash to one fixed value without touching any element. Hashing changes nothing.',
  ['inputs', 'configurations'], 'all states and values, every element type with a hash, including element hashes that throw',
  'Tests hash one integer; consistency over all values and states is a universal statement.',
  IND, mech(('std::hash specialisation', 'indirect.h, indirect_cxx14.h')))
P('C17', 'Assigning a value assigns to the owned object, or creates one',
  'Assigning a value to an owning indirect assigns it, with its value category, to the owned object, which keeps its address; assigning to a valueless one constructs a new object from the value with the existing allocator. The operation exists for every argument type from which the element can be both constructed and assigned, whether const, mutable, lvalue or rvalue. If it throws, ownership and allocator are unchanged.',
  ['inputs', 'programs', 'configurations', 'fault_sequences'], 'all argument types and value categories, both states, all element kinds and allocators, every throwing position',
  'Tests assign integers; value category, address stability, argument constness and throws are not exercised.',
  IND, mech(('converting assignment', 'indirect.h, indirect_cxx14.h')))
P('C18', 'Operations declared non-throwing do not terminate, and moves are declared so',
  'No operation that is declared non-throwing lets an exception of the element type or allocator end in program termination. Destruction, observers, move construction, and move assignment and swap with suitable allocators are declared non-throwing, as documented, so that containers move instead of copy; so are equality comparisons of elements whose own comparison is.',
  ['fault_sequences', 'programs', 'configurations'], 'every operation, state, allocator relation and throwing position; the declarations for every allocator trait combination',
  'Termination needs a throw at one position under one trait combination; the declarations are not asserted in the tests.',
  ALL, mech(('noexcept specifications', 'all four headers')))
P('C19', 'Objects and their holders can be used with incomplete element types',
  'indirect and polymorphic can be instantiated, held as a member or base class, copied, moved, assigned, swapped and destroyed in declarations, dereferenced and observed while their element type is incomplete, including in a class that contains itself through them. Their size, copyability, movability and exception specifications are then the same as for every complete element type.',
  ['configurations', 'programs'], 'both templates in all four headers, every allocator kind, every language mode, both available compilers; copying, moving, assigning, swapping, destroying and observing as asked by type traits and overload resolution; default construction and construction from values are excluded, since their documented constraints need a complete type',
  'No test instantiates the templates with an incomplete type, and one misplaced constraint, static assertion or noexcept expression makes recursive types and hidden implementations impossible.',
  ALL, mech(('class definitions and declarations', 'all four headers')))
P('C20', 'Polymorphic objects keep their dynamic type through every operation',
  'Copying, moving and assigning a polymorphic preserves the exact dynamic type of the owned object: it is never sliced, is copied, moved and destroyed through its own dynamic type, even without virtual functions in the base, and access yields its base part wherever that lies in the object.',
  ['inputs', 'programs', 'configurations'], 'owned objects of the base type, of a derived type and of a type whose base part has a non-zero offset, in all states and operations, with and without virtual destructors or virtual functions',
  'Tests use one derived class at offset zero with a virtual destructor, and every slice-prone path has to be hit with each dynamic type.',
  POL, mech(('control block dispatch', 'polymorphic.h, polymorphic_cxx14.h: clone, move, destroy')),
  [dict(name='owned control block', meaning='knows the dynamic type of the owned object', where='polymorphic.h, polymorphic_cxx14.h')])
P('C21', 'An object can be assigned from an object nested in its own value',
  'Copy and move assignment remain correct when the source is itself part of the value that the target owns, as in x = x->next or x = std::move(x->next). The target ends with the value the source had (on a move between equal allocators, with the very object it owned) and the prescribed allocator. The old value, with the source inside it, is destroyed exactly once, and nothing is used after it is destroyed.',
  ['inputs', 'histories', 'fault_sequences', 'configurations'], 'every pair of target and source states with the source inside the target\'s element, every allocator relation and propagation trait, every throwing position',
  'Recursive types are a main use of these templates, but the tests never assign from a nested object, and a use after destruction need not be visible in a test that happens to hit it.',
  ALL, mech(('copy and move assignment', 'all four headers')),
  [dict(name='element containing the source', meaning='destroying it destroys the source handle', where='all four headers')])
P('C22', 'Operations take part in overload resolution exactly as documented',
  'Every constructor, assignment and hash takes part in overload resolution exactly when its documented constraints hold: in-place and converting construction when the element (for polymorphic, the copyable derived type) is constructible from the arguments and, without an explicit allocator, the allocator is default constructible; assignment from a value when the element is constructible and assignable from it. Only copies and moves are implicit.',
  ['configurations'], 'every constructor, assignment and hash declaration; element, derived, argument and allocator types with and without each required capability (explicit and implicit constructors apply to the C++20 headers; the C++14 headers accept only the element type in converting construction)',
  'The existing static assertions name a handful of concrete types; generic code asks these questions for arbitrary ones, and a wrong answer turns into a hard error or a silently chosen overload.',
  ALL, mech(('requires clauses', 'indirect.h, polymorphic.h'), ('enable_if constraints', 'indirect_cxx14.h, polymorphic_cxx14.h')))
P('C23', 'Every operation can be used at compile time',
  'In the C++20 headers every constructor, assignment, swap, accessor, observer, comparison, hash and the destructor can be evaluated in a constant expression when the element and allocator types allow it, from every state of the operands and for equal and unequal allocators, and has the same result there as at run time.',
  ['inputs', 'configurations'], 'every operation of indirect.h and polymorphic.h; operands owning (for polymorphic: the base, a derived type, a derived type with its base at an offset) or valueless; equal and unequal allocators; every combination of propagation traits; elements with user-provided special members, with virtual functions and move-only; both compilers; with and without assertions',
  'The existing compile-time checks evaluate each operation once, with std::allocator and int; code on a branch they do not take (unequal or propagating allocators, valueless operands, derived types) may do what a constant expression must not.',
  IND[:1] + POL[:1], mech(('constexpr member functions', 'indirect.h, polymorphic.h')))
NOTES23 = 'Bounded, not a proof: the compilers\' constant evaluators execute every operation from every combination of operand state, allocator relation and traits listed in harness/cx.h and engine/props.py, with three element types; the obligation that the evaluation succeeds with the documented result is read from the IR. By the other checks the operations have no other source of branching than these, but constant evaluation itself is only observed on the listed types and values.'
NOTES22 = 'Each documented constraint (for C19: each answer for an incomplete element type) is stated as a biconditional over the declarations and decided for every configuration and argument list by the compiler\'s constant evaluation of the real headers (the obligation that the fact is true is read from the IR like every other). Enumerative over types: element kinds x allocator kinds x argument lists listed in engine/spec.py; no quantification beyond them.'
exec(open(os.path.join(V, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'more_props.py')) else None

T.sort(key=lambda t: t[0]['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, _ in T:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
NOTE = ('Contracts on every public entry point, discharged for all inputs by symbolic execution of the real headers (compiled to LLVM IR on every run) with z3; '
        'element types and allocators are opaque functions with assumed contracts. Trusts clang\'s front end, the IR semantics in engine/exec.py and the extern contracts in engine/world.py; '
        'element and allocator types are represented by the configurations listed in the evidence.')
TECH = dict.fromkeys(('C19', 'C22'), 'contract-based deductive verification: contracts over declarations, decided by the front end and read from the LLVM IR of the real headers')
TECH['C23'] = 'bounded stand-in: exhaustive over operand states, constant evaluation of the real headers by both compilers'
man = dict(version=1, setup_cmd='true',
           checks=[dict(property=p['id'], quick_cmd='python3-vt check.py %s --tier quick' % p['id'],
                        thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
                        evidence_file='evidence/%s.json' % p['id'],
                        technique=TECH.get(p['id'], 'contract-based deductive verification (contracts + representation invariant, VCs from the LLVM IR of the real headers, z3)'),
                        level='proof' if p['id'] not in ('C19', 'C22', 'C23') else 'other',
                        level_note=n or {'C19': NOTES22, 'C22': NOTES22, 'C23': NOTES23}.get(p['id'], NOTE)) for p, n in T],
           not_applicable=[])
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
