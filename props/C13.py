"""Cached entries live while referenced and are deleted exactly once.

Ghosts: T (entries in the cache), EXT (unreleased handles), OBJ (entries that exist), DEL (deleters that ran).  Invariant: OBJ is T or EXT > 0, refs counts both, no existing
entry's deleter ran.  A deleter call must find an existing entry in neither, with its own key and value; freeing an entry must find its deleter run.
"""
from .cache_shard import *

TUS = ['cache', 'inline_inst', 'hash']
DRIVER = {'src': 'cache.cc', 'sources': ['util/cache.cc', 'util/hash.cc'], 'extra': ['-lpthread'], 'configs': [{'sanitize': 'address,undefined'}, {'sanitize': 'thread'}]}
DRIVER_SECS = 12
TRUST = SYNC_TRUST + ['std::function: copies and moves carry the target, a call runs it once with the given arguments (ISO C++)', 'std::make_shared<C>(args) constructs one C from args; ~shared_ptr destroys it with its last owner', 'operator new / malloc return fresh memory overlapping no live block, and do not fail']
ASSUME = ['fewer than 2^30 entries in a shard and fewer than 2^32 - 2 unreleased handles on one entry', 'a deleter neither re-enters the cache nor touches its memory', 'Hash is a function of the bytes and the seed (C03, the hash of the key: C12 routes by it)', 'operations run one at a time (C15)', 'keys of different length or bytes are told apart by Slice comparison (C04)', 'the bucket array is accessed through its element type only']


def tasks(prog):
    return shard_tasks('ref') + sharded_tasks('ref')
