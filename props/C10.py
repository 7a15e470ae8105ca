"""A skip list is exactly the sorted set of inserted keys.

Verified on the instantiation SkipList<uint64_t, VCmp> of the real template, with VCmp's comparison left abstract (any total
order on the keys, `rank`); ghost state and structure as in skiplist_spec, one thread at a time.
"""
from .skiplist_spec import *
DRIVER = {'src': 'skiplist.cc', 'sources': ['util/arena.cc'], 'extra': ['-DHISTORIES', '-lpthread']}
DRIVER_SECS = 10
TRUST = ['the arena hands out fresh memory overlapping no node and large enough (Arena::AllocateAligned, proved as C09)',
         'the links of two nodes never share memory: every access is proved to stay within the room its node was given']
ASSUME = ['the comparator is a total order on the keys (the property\'s premise) with a rank below 2^64, does not change the list, and reads only its arguments',
          'no key is inserted twice (the documented precondition)', 'operations run one at a time (C11 for readers beside a writer)']


def tasks(prog):
    return list_tasks('C10')
