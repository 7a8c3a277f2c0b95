#!/usr/bin/env python3
"""Writes /verif/known-findings.json: defects found by the checks. All of them were repaired; entries with status
'fixed' suppress nothing. (Entries with status 'known' would have: property, harness, scenario, match.)"""
import json, os, subprocess, sys
F = [l.split('|', 2) for l in '''C04|cfa6f17|setting a result woke only one of several threads waiting on the same future
C05|a4170f9|the value held by the shared state of a future was never destroyed
C04|6d97f08|move-assigning to an unfulfilled promise left the waiters of the overwritten one waiting forever
C05|2bd7041|an exception from constructing the value of a promise terminated the program
C05|21c696f|packaged tasks with void results and PackagedTask::reset() did not compile
C06|1a7b138|an exception from the constructor of a resource terminated the program
C06|865e491|forEach() deadlocked when it came to hold the last handle to a resource
C06|0384b80|a resource released while another thread recreated it was destroyed twice or used after its destruction
C07|f8ca4a6|an exhausted identifier pool handed out an identifier instead of reporting exhaustion
C07|e11755a|exhaustion of pools of strong identifier types threw an undocumented exception
C07|0d87fc0|moving an identifier holder onto itself released its identifier twice
C12|8a0cbc8|a participating worker with a time limit did not return in time next to other workers
C09|5cdd851|the callable of a task leaked when the allocation of the task failed
C11|212ffb2|a thread pool whose construction failed leaked its queue
C13|a112e60|producers raced with the initialization of a just pushed node and the consumer with the data of its element
C21|03c3e31|the queries of AtomicFlags did not compile
C21|e459db9|Flags and AtomicFlags were not usable with integral types
C17|537c90e|an interrupted read from the wake-up pipe failed an assertion, an exactly full read made the loop hang
C17|3d8f49e|two threads stopping an event loop closed the pipe twice or wrote to a closed descriptor
C17|d0deb0b|waiting for the end of a loop iteration returned during a handler call or never
C23|4898ded|an item refused as a duplicate owned itself and leaked
C32|fa9caea|strings hashed differently depending on the presentation with newer versions of Boost (also C24)
C32|e11fb7a|comparisons ignored characters after an embedded null
C24|273651d|UnorderedMap::insert_or_assign() with a hint did not compile
C24|018216b|UnorderedMap was not assignable from initializer lists
C24|42616b5|copies of an UnorderedMap shared their entries with the original
C25|8d652e9|swap() of two Optionals did not compile
C25|2eb5943|Optional was not assignable from other types of Optional
C25|491650e|Optional of a type constructible from bool could not be constructed from bool
C25|b573fed|converting an empty Optional of another type gave an engaged one
C25|ad5e91f|a value whose construction failed was destroyed
C25|d624248|Optional::emplace() with a list terminated the program when the construction failed
C25|10bf68c|swapping Optionals did not use the swap() of their values
C26|da868d0|operators of bit vectors which need copies did not compile
C26|731b477|appending to a bit vector which ends within a block appended the wrong bits
C26|280f822|clear_and_release() kept the size of the released storage
C27|b9de043|shifting by fixed-width integers did not compile
C28|1b8d36e|converting to integers of at most 64 bits shifted by 64 bits, wrote past the object
C27|dd91339|multiplying integers with 16 bit blocks overflowed int (undefined behaviour)
C27|a710b68|dividing one bit integers failed an assertion
C27|472ce49|printing a wide integer of value 0 leaked memory when the stream failed
C29|fa4edcd|backwards searches for strings found prefixes only by default
C30|ed93bbf|concat() moved from arguments which the caller still owned
C31|69ca75c|reversed arrays could not be measured
C31|130d1ff|measureRange() was ambiguous for most ranges when ReversedRange.h was included
C33|327c9d6|swap() of swappable strong types did not compile
C37|73c33d0|assigning values of other types through unaligned references stored their representation or read out of bounds
C37|d2ca354|distances of unaligned pointers did not compile, negative offsets overflowed
C35|71597aa|minSizeInBytes() of packed structures did not compile
C35|acee9d3|ref(), ptr() and voidPtr() of mutable accessors were ambiguous
C36|534522e|the type of placeholders of bounded dynamic fields lost its bounds
C36|c97ced0|copy assignment of dynamic packed structures did not compile, move assignment returned nothing (undefined behaviour)
C36|7338577|dynamic packed structures without dynamic fields read their size from outside of an array
C36|107c524|set() of dynamic packed structures returned a dangling reference
C36|a58eba9|unrepresentable total sizes wrapped around, allocations were too small
C38|8db8f86|move assignment of uninitialized arrays returned nothing (undefined behaviour)
C38|de368d8|aligned allocation always failed for alignments below the size of a pointer
C38|c004d20|the size of aligned allocations of many elements wrapped around
C39|1397c08|input memory streams of other characters than char did not compile
C39|9f4576c|pointers instead of contents were written to messages for non-constant strings and messages
C39|cc7363b|a failed read of a size which is not representable consumed its bytes
C39|306a693|reads from empty messages without data failed an assertion
C40|08a491e|copying or printing empty data dereferenced a null pointer
C40|bc83131|an interrupted or failing read of a file failed an assertion
C43|7f7b28b|makeScopeExit() did not compile
C45|16cf8d9|constant reference vectors could not be constructed from mutable ones
C43|22e7f9d|printing an exception nested outside of an exception handler terminated the program
C47|179b9b2|overflowing literals with many digits were taken for small values
C47|d6476ad|invalid literals such as 08 or 1.5 evaluated to 0
C47|a7970e1|CstddefLiterals.h and CstdintLiterals.h could not be used together (same include guard)
C46|95c4391|TemplateFilter and TemplateInverseFilter did not compile for non-empty lists
C46|d73425f|TemplateContainsType did not compile for types contained several times
C48|27ba5b9|IsSwappable and IsNothrowSwappable did not compile for types without references
C21|3413d94|AtomicFlags::has() did not compile, because it used a method missing from Flags
C24|fefeaf5|exceptions from copying the hash function or key equality of an UnorderedMap terminated the program
C05|3d3bd2d|failures to allocate or copy while creating a PackagedTask terminated the program
C26|9535afa|BitVec constructed from iterators readable only once lost the values
C25|c33027a|comparing an Optional with a value terminated the program if the comparison of the values threw
C08|d54e72b|a task with a timeout too far off for the clock was run at once
C09|6ffb105|destroying a pool with many pending tasks overflowed the stack
C10|6ffb105|destroying a strand with many pending tasks overflowed the stack
C50|46c2685|a failing assertion on an expression with a remainder operator, such as SHAREMIND_TESTASSERT(n % sizeof(x) == 0), printed garbage or crashed, because the expression was part of the printf format
'''.splitlines()]
here = os.path.dirname(os.path.abspath(__file__))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', 'ffe6304..HEAD'], capture_output=True, text=True).stdout.split('\n')
fixes = {l.split()[0] for l in log if ' fix:' in l}
known = {f[1] for f in F}
if fixes != known: print('not in step with /repo:', fixes ^ known)
out = [dict(property=p, status='fixed', commit=c, what=w, line=f'fixed: property={p} {c} {w}') for p, c, w in F]
with open(os.path.join(here, '..', 'known-findings.json'), 'w') as f:
    f.write('[\n' + ',\n'.join(' ' + json.dumps(x) for x in out) + '\n]\n')
print(len(out), 'findings')
