from .base import expect


def partition(groups, n, what="clusters", nonempty=False, key=None):
    """every index 0..n-1 in exactly one group exactly once"""
    seen = [0] * n
    for g in groups:
        expect(not nonempty or len(g) > 0, lambda: "%s contain an empty cluster: %s" % (what, groups), key)
        for x in g:
            expect(int(x) == x and 0 <= x < n, lambda: "%s contain index %r, the data has %d points" % (what, x, n), key)
            seen[int(x)] += 1
    for i, c in enumerate(seen):
        expect(c == 1, lambda: "index %d occurs %d times in %s %s" % (i, c, what, [list(map(int, g)) for g in groups]), key)


def labels(clusters, n):
    l = [-1] * n
    for j, c in enumerate(clusters):
        for x in c:
            l[int(x)] = j
    return l


def canon(clusters):
    return sorted(sorted(int(x) for x in c) for c in clusters)
