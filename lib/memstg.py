# -*- coding: utf-8 -*-
'''In-memory storage with the interface the code under test documents: iterable
names, indexable by name (KeyError), streams with open().'''
from io import BytesIO


class MemStream(object):
    def __init__(self, data, hook=None):
        self._data = data
        self._hook = hook

    def open(self):
        if self._hook:
            return self._hook(self._data)
        return BytesIO(self._data)


class MemStorage(object):
    def __init__(self, tree, order=None, hook=None):
        self._tree = tree
        self._order = order
        self._hook = hook

    def __iter__(self):
        names = list(self._tree)
        if self._order is not None:
            names = self._order(names)
        return iter(names)

    def __getitem__(self, name):
        v = self._tree[name]
        if isinstance(v, dict):
            return MemStorage(v, self._order, self._hook)
        return MemStream(v, self._hook)

    def close(self):
        pass
