"""Lock-free readers of a skip list beside one inserting thread, by rely and guarantee.

Readers: FindGreaterOrEqual, FindLessThan, FindLast, Contains and the iterator are verified with every load of a link
returning any value the rely allows and every load of the height any value in 1..12.  Writer: after each atomic store of
Insert the structure invariant the rely is drawn from holds, links to nodes are stored with release order after the node is
initialised, and nothing a reader may look at is written otherwise.
"""
from .skiplist_spec import *
DRIVER = {'src': 'skiplist.cc', 'sources': ['util/arena.cc'], 'extra': ['-lpthread'], 'configs': [{'sanitize': 'address,undefined'}, {'sanitize': 'thread'}, {'sanitize': '', 'extra': ['-DSTEPS']}]}
DRIVER_SECS = 12
TRUST = ['the arena hands out fresh memory overlapping no node and large enough (Arena::AllocateAligned, proved as C09)',
         'ISO C++ atomics: each link is read at or after the last value stored before the read began (coherence), and an acquire load that sees a release store sees what was written before it',
         'the links of two nodes never share memory: every access is proved to stay within the room its node was given']
ASSUME = ['one thread inserts at a time (the documented requirement)', 'the insertions that completed before a read happen before it',
          'the comparator is a total order on the keys with a rank below 2^64 and reads only its arguments', 'no key is inserted twice (the documented precondition)',
          'the list outlives its readers']


def tasks(prog):
    return list_tasks('C11')
