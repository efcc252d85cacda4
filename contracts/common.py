from vc.contract import Group

#: an arbitrary but fixed index of the data set, and the measure counting its occurrences in (nested) index lists
PART = Group(ghost={"p": "int"}, measures={"cnt": ("list[int]", "count:p", 3)})

#: the metric: any function of two points, non negative and finite
METRIC = {"args": ["point", "point"], "ret": "real", "fn": "metric", "ensures": ["result >= 0", "result < INF"],
          "doc": "distance_metric.__call__ (non-negative, finite; see C11)"}
MET = {"metric": (["point", "point"], "real", ["lambda a, b, r: r >= 0 and r < INF"])}
MDOC = "distance_metric.__call__ (any non-negative finite function of two points, applied row by row to arrays; see C11)"
#: the same with numpy arguments: row by row
METRICS = [dict(METRIC, doc=MDOC),
           {"args": ["points", "point"], "ret": "point", "doc": MDOC,
            "ensures": ["len(result) == len(a0)", "forall(lambda i: implies(0 <= i and i < len(a0), result[i] == metric(a0[i], a1)))"]},
           {"args": ["point", "points"], "ret": "point", "doc": MDOC,
            "ensures": ["len(result) == len(a1)", "forall(lambda i: implies(0 <= i and i < len(a1), result[i] == metric(a0, a1[i])))"]},
           {"args": ["points", "points"], "ret": "point", "doc": MDOC,
            "ensures": ["len(result) == len(a1)", "forall(lambda i: implies(0 <= i and i < len(a1), result[i] == metric(a0[i], a1[i])))"]}]

#: cl partitions range(n): the arbitrary index p occurs once when it is in range, else never
def partition(cl, n):
    return "cnt(%s) == ite(0 <= p and p < %s, 1, 0)" % (cl, n)

def nonempty(cl):
    return "forall(lambda j: implies(0 <= j and j < len(%s), len(%s[j]) > 0))" % (cl, cl)

def in_range(l, n):
    return "forall(lambda j: implies(0 <= j and j < len(%s), 0 <= %s[j] and %s[j] < %s))" % (l, l, l, n)

def in_range2(l, n):
    return "forall(lambda i, j: implies(0 <= i and i < len(%s) and 0 <= j and j < len(%s[i]), 0 <= %s[i][j] and %s[i][j] < %s))" % (l, l, l, l, n)
