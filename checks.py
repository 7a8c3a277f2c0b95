"""Which harnesses decide which property."""
CHECKS = {
    'C01': dict(harnesses=[('c01_circbuf', 'mc')]),
    'C02': dict(harnesses=[('c02_circbuf_wait', 'mc')]),
    'C03': dict(harnesses=[('c03_circbuf_seq', 'seq')], budget=dict(quick=100, thorough=600)),
    'C04': dict(harnesses=[('c04_future', 'mc')]),
    'C05': dict(harnesses=[('c05_future_seq', 'seq')], budget=dict(quick=100, thorough=600)),
    'C06': dict(harnesses=[('c06_srm', 'mc')]),
    'C07': dict(harnesses=[('c07_idpool', 'mc'), ('c07_idpool_seq', 'seq')]),
    'C08': dict(harnesses=[('c08_timeouts', 'mc')]),
    'C09': dict(harnesses=[('c09_threadpool', 'mc'), ('c09s_pending', 'seq')], budget=dict(quick=100, thorough=600)),
    'C10': dict(harnesses=[('c10_strand', 'mc'), ('c10s_pending', 'seq')], budget=dict(quick=100, thorough=600)),
    'C11': dict(harnesses=[('c11_simplepool', 'mc')], budget=dict(quick=100, thorough=600)),
    'C12': dict(harnesses=[('c12_participatory', 'mc')]),
    'C13': dict(harnesses=[('c13_mpsc', 'mc')]),
    'C14': dict(harnesses=[('c14_ticketlock', 'mc')]),
    'C15': dict(harnesses=[('c15_latch', 'mc')]),
    'C16': dict(harnesses=[('c16_gates', 'mc')]),
    'C17': dict(harnesses=[('c17_eventloop', 'mc')]),
    'C18': dict(harnesses=[('c18_posix', 'seq')]),
    'C19': dict(harnesses=[('c19_objtree', 'mc'), ('c19_objtree_seq', 'seq')]),
    'C20': dict(harnesses=[('c20_callstack', 'mc'), ('c20_callstack_seq', 'seq')]),
    'C21': dict(harnesses=[('c21_atomicflags', 'mc'), ('c21_flags_seq', 'seq')]),
    'C22': dict(harnesses=[('c22_lru', 'seq')]),
    'C23': dict(harnesses=[('c23_itemset', 'seq')]),
    'C24': dict(harnesses=[('c24_unorderedmap', 'seq'), ('c24_stringmap', 'seq')], budget=dict(quick=100, thorough=600)),
    'C25': dict(harnesses=[('c25_optional', 'seq')]),
    'C26': dict(harnesses=[('c26_bitvec', 'seq')], budget=dict(quick=100, thorough=600)),
    'C27': dict(harnesses=[('c27_uint', 'seq'), ('c27_threads', 'mc')], budget=dict(quick=120, thorough=600)),
    'C28': dict(harnesses=[('c28_uint128', 'seq'), ('c28_threads', 'mc')]),
    'C29': dict(harnesses=[('c29_stringview', 'seq'), ('c29_threads', 'mc')], budget=dict(quick=100, thorough=600)),
    'C30': dict(harnesses=[('c30_split', 'seq'), ('c30_threads', 'mc')]),
    'C31': dict(harnesses=[('c31_range', 'seq')]),
    'C32': dict(harnesses=[('c32_strings', 'seq'), ('c32_threads', 'mc')]),
    'C33': dict(harnesses=[('c33_strongtype', 'seq')]),
    'C34': dict(harnesses=[('c34_integers', 'seq')]),
    'C35': dict(harnesses=[('c35_packed', 'seq')]),
    'C36': dict(harnesses=[('c36_dynpacked', 'seq')]),
    'C37': dict(harnesses=[('c37_unaligned', 'seq')]),
    'C38': dict(harnesses=[('c38_memory', 'seq')]),
    'C39': dict(harnesses=[('c39_message', 'seq'), ('c39_threads', 'mc')]),
    'C40': dict(harnesses=[('c40_datum', 'seq'), ('c40_threads', 'mc')]),
    'C41': dict(harnesses=[('c41_endian', 'seq')]),
    'C42': dict(harnesses=[('c42_uuid', 'seq'), ('c42_threads', 'mc')]),
    'C43': dict(harnesses=[('c43_exceptions', 'seq'), ('c43_threads', 'mc')]),
    'C44': dict(harnesses=[('c44_tuples', 'seq')]),
    'C45': dict(harnesses=[('c45_refvec', 'seq')]),
    'C46': dict(harnesses=[('c46_templates', 'seq')], budget=dict(quick=90, thorough=600)),
    'C47': dict(harnesses=[('c47_literals', 'seq')], budget=dict(quick=200, thorough=600)),
    'C48': dict(harnesses=[('c48_concepts', 'seq')], budget=dict(quick=120, thorough=600)),
    'C49': dict(harnesses=[('c49_helpers', 'seq')]),
    'C50': dict(harnesses=[('c50_testassert', 'seq')]),
}
NOT_APPLICABLE = {
}
