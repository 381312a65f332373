"""One callable as any of the things that can be called."""

from __future__ import annotations

import functools
import inspect

KINDS = 6


def shape(f, kind):
    """f itself, a partial, an object with __call__, a method of an object, a static method, or a partial of an object"""
    if inspect.iscoroutinefunction(f):

        class C:
            async def __call__(self, *a, **k):
                return await f(*a, **k)

            async def m(self, *a, **k):
                return await f(*a, **k)

            @staticmethod
            async def s(*a, **k):
                return await f(*a, **k)
    else:

        class C:
            def __call__(self, *a, **k):
                return f(*a, **k)

            def m(self, *a, **k):
                return f(*a, **k)

            @staticmethod
            def s(*a, **k):
                return f(*a, **k)

    return [f, functools.partial(f), C(), C().m, C.s, functools.partial(C())][kind % KINDS]
