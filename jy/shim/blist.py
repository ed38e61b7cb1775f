"""Stand-in for the third-party package blist, which is not installed here: the part of blist.sortedset that
highschool_qe uses, written from blist's documentation.  Elements are kept in the order of key (or of the elements
themselves); among elements with equal keys membership is decided by ==; slices and copies keep the key."""


class sortedset(object):
    def __init__(self, iterable=(), key=None):
        self._key = key
        self._items = []
        self._keys = []
        for v in iterable:
            self.add(v)

    def _find(self, v):
        k = v if self._key is None else self._key(v)
        lo, hi = 0, len(self._keys)
        while lo < hi:
            mid = (lo + hi) // 2
            if self._keys[mid] < k:
                lo = mid + 1
            else:
                hi = mid
        while lo < len(self._keys) and not (k < self._keys[lo]):
            if self._items[lo] == v:
                return lo, k, True
            lo += 1
        return lo, k, False

    def add(self, v):
        i, k, found = self._find(v)
        if not found:
            self._items.insert(i, v)
            self._keys.insert(i, k)

    def update(self, *its):
        for it in its:
            for v in it:
                self.add(v)

    def discard(self, v):
        i, k, found = self._find(v)
        if found:
            del self._items[i], self._keys[i]

    def remove(self, v):
        if v not in self:
            raise ValueError
        self.discard(v)

    def index(self, v):
        i, k, found = self._find(v)
        if not found:
            raise ValueError
        return i

    def __contains__(self, v):
        return self._find(v)[2]

    def __len__(self):
        return len(self._items)

    def __iter__(self):
        return iter(list(self._items))

    def __reversed__(self):
        return iter(self._items[::-1])

    def copy(self):
        return self[:]

    def __getitem__(self, i):
        if isinstance(i, slice):
            r = sortedset(key=self._key)
            r._items, r._keys = self._items[i], self._keys[i]
            return r
        return self._items[i]

    def __getslice__(self, i, j):
        return self[slice(i, j)]

    def pop(self, i=-1):
        v = self._items.pop(i)
        self._keys.pop(i)
        return v

    def clear(self):
        self._items, self._keys = [], []

    def __eq__(self, o):
        return isinstance(o, sortedset) and self._items == o._items

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return 'sortedset(%r)' % (self._items,)
