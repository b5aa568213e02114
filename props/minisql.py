"""A small evaluator for the catalog queries of the clients: the SQL text is
the one the real code produces; the tables may hold symbolic values.  Supports
SELECT [DISTINCT] lists, [LEFT] JOIN .. ON, WHERE (AND, OR, NOT, comparisons,
[I]LIKE, IN, BETWEEN, IS NULL, lower, upper; three-valued logic), GROUP BY with
array_agg, ORDER BY, LIMIT, table functions and bind parameters (%s, ?, %(name)s,
:name).  Anything else is outside the encoding (Unsupported)."""

import re

from symx.core import Unsupported, all_of, any_of, is_sym, neg

TOK = re.compile(r"\s*(?:--[^\n]*\n|('(?:[^']|'')*')|(\"(?:[^\"]|\"\")*\")|(%s|\?|%\(\w+\)s|(?<!:):[A-Za-z_]\w*)|([A-Za-z_][A-Za-z_0-9]*)|(\d+)|(<>|!=|<=|>=|[.,()*=;<>]))")


class SqlError(Exception):
    pass


def tokens(text):
    out, i = [], 0
    text = text.strip() + "\n"
    while i < len(text):
        if not text[i:].strip():
            break
        m = TOK.match(text, i)
        if not m:
            raise Unsupported("SQL: " + text[i : i + 30])
        i = m.end()
        s, q, p, w, n, c = m.groups()
        if s is not None:
            out.append(("lit", s[1:-1].replace("''", "'")))
        elif q is not None:
            out.append(("id", q[1:-1].replace('""', '"')))
        elif p is not None:
            out.append(("param", p.strip("%()s:?") if len(p) > 2 else None))
        elif w is not None:
            out.append(("id", w.lower()))
        elif n is not None:
            out.append(("lit", int(n)))
        elif c is not None:
            out.append((c, c))
    return out


KEYWORDS = ("limit", "or", "not", "select", "from", "join", "left", "inner", "outer", "on", "where", "group", "order", "by", "and", "as", "asc", "desc")


class Query:
    def __init__(self, db, toks, params, nocase=False):
        self.db, self.t, self.i, self.params = db, toks, 0, params
        self.nocase, self.used = nocase, set()

    def peek(self, *kw):
        return self.i < len(self.t) and (self.t[self.i][0] in kw or (self.t[self.i][0] == "id" and self.t[self.i][1] in kw))

    def take(self, *kw):
        if self.peek(*kw):
            self.i += 1
            return self.t[self.i - 1]
        return None

    def need(self, *kw):
        r = self.take(*kw)
        if r is None:
            raise Unsupported(f"SQL: expected {kw} at {self.t[self.i:self.i + 4]}")
        return r

    def name(self):
        parts = [self.need("id")[1]]
        while self.peek(".") and self.t[self.i + 1][0] == "id":
            self.i += 2
            parts.append(self.t[self.i - 1][1])
        return parts

    def operand(self):
        if self.peek("param"):
            name = self.need("param")[1]
            if isinstance(self.params, dict):
                if name not in self.params:
                    raise SqlError("no such parameter")
                self.used.add(name)
                return ("val", self.params[name])
            if not self.params:
                raise SqlError("not enough parameters")
            return ("val", self.params.pop(0))
        if self.peek("lit"):
            return ("val", self.need("lit")[1])
        if self.take("null"):
            return ("val", None)
        if self.peek("lower", "upper") and self.t[self.i + 1][0] == "(":
            f = self.need("id")[1]
            self.need("(")
            a = self.operand()
            self.need(")")
            return (f, a)
        return ("col", self.name())

    # conditions: trees ("and"|"or", [..]), ("not", x), (comparison, a, b)

    def cond(self):
        out = [self.cond_and()]
        while self.take("or"):
            out.append(self.cond_and())
        return out[0] if len(out) == 1 else ("or", out)

    def cond_and(self):
        out = [self.cond_not()]
        while self.take("and"):
            out.append(self.cond_not())
        return out[0] if len(out) == 1 else ("and", out)

    def cond_not(self):
        if self.take("not"):
            return ("not", self.cond_not())
        if self.take("("):
            c = self.cond()
            self.need(")")
            return c
        a = self.operand()
        if self.take("is"):
            no = self.take("not")
            self.need("null")
            return ("not", ("null", a)) if no else ("null", a)
        no = self.take("not")
        if self.take("in"):
            self.need("(")
            out = [("=", a, self.operand())]
            while self.take(","):
                out.append(("=", a, self.operand()))
            self.need(")")
            c = ("or", out)
        elif self.take("between"):
            lo = self.operand()
            self.need("and")
            c = ("and", [(">=", a, lo), ("<=", a, self.operand())])
        elif self.peek("like", "ilike"):
            c = (self.need("id")[1], a, self.operand())
        else:
            c = (self.need("=", "<>", "!=", "<", ">", "<=", ">=")[0], a, self.operand())
        return ("not", c) if no else c

    def source(self):
        """(names by which columns may refer to it, column names, rows)"""
        if self.take("("):
            cols, rows = self.select()
            self.need(")")
            names = []
        elif self.t[self.i][0] == "id" and callable(self.db.get(self.t[self.i][1])) and self.t[self.i + 1][0] == "(":
            n = self.name()
            self.need("(")
            arg = self.operand()
            self.need(")")
            cols, rows = self.db[n[-1]](self.value(arg, [], []))
            names = [n]
        else:
            n = self.name()
            key = n[-1]
            if key not in self.db or (len(n) > 1 and n[-2] != self.db[key][0]):
                raise SqlError("no such table " + ".".join(n))
            _, cols, rows = self.db[key]
            names = [n[i:] for i in range(len(n))]
        self.take("as")
        if self.peek("id") and not self.peek(*KEYWORDS):
            names = [[self.need("id")[1]]]
        return names, cols, rows

    def value(self, ref, env, srcs):
        if ref[0] == "val":
            return ref[1]
        if ref[0] in ("lower", "upper"):
            v = self.value(ref[1], env, srcs)
            return v if v is None else getattr(v, ref[0])()
        return env[self.index(ref[1], srcs)]

    def index(self, name, srcs):
        hits, at = [], 0
        for names, cols in srcs:
            if name[-1] in cols and (len(name) == 1 or name[:-1] in names):
                hits.append(at + cols.index(name[-1]))
            at += len(cols)
        if len(hits) != 1:
            raise SqlError("column reference " + ".".join(name))
        return hits[0]

    def truth(self, c, env, srcs):
        """(is true, is false); neither: unknown"""
        if c[0] in ("and", "or"):
            xs = [self.truth(x, env, srcs) for x in c[1]]
            ts, fs = [x[0] for x in xs], [x[1] for x in xs]
            return (all_of(*ts), any_of(*fs)) if c[0] == "and" else (any_of(*ts), all_of(*fs))
        if c[0] == "not":
            t, f = self.truth(c[1], env, srcs)
            return f, t
        a = self.value(c[1], env, srcs)
        if c[0] == "null":
            return a is None, a is not None
        b = self.value(c[2], env, srcs)
        if a is None or b is None:
            return False, False
        if c[0] == "=":
            r = a == b
        elif c[0] in ("<>", "!="):
            r = neg(a == b)
        elif c[0] in ("like", "ilike"):
            r = like(a, b, c[0] == "ilike" or self.nocase)
        else:
            r = {"<": lambda: a < b, ">": lambda: b < a, "<=": lambda: neg(b < a), ">=": lambda: neg(a < b)}[c[0]]()
        return r, neg(r)

    def holds(self, c, env, srcs):
        return bool(self.truth(c, env, srcs)[0])

    def select(self):
        self.need("select")
        distinct = self.take("distinct")
        items = []
        while True:
            if self.take("*"):
                items.append(("star", None, None))
            elif self.peek("id") and self.t[self.i][1] == "array_agg" and self.t[self.i + 1][0] == "(":
                self.i += 2
                arg = self.name()
                by = None
                if self.take("order"):
                    self.need("by")
                    by = self.name()
                    self.take("asc")
                self.need(")")
                items.append(("agg", arg, by))
            else:
                n = self.name()
                if self.take("."):
                    self.need("*")
                    items.append(("star", n, None))
                else:
                    items.append(("col", n, None))
            alias = None
            if self.take("as"):
                alias = self.need("id")[1]
            items[-1] = items[-1] + (alias,)
            if not self.take(","):
                break
        self.need("from")
        names, cols, rows = self.source()
        srcs, envs = [(names, cols)], [list(r) for r in rows]
        while self.peek("join", "left", "inner"):
            left = bool(self.take("left"))
            self.take("inner")
            self.take("outer")
            self.need("join")
            names, cols, rows = self.source()
            self.need("on")
            cond = self.cond()
            both = srcs + [(names, cols)]
            new = []
            for e in envs:
                hit = False
                for r in rows:
                    if self.holds(cond, e + list(r), both):
                        new.append(e + list(r))
                        hit = True
                if left and not hit:
                    new.append(e + [None] * len(cols))
            srcs, envs = both, new
        if self.take("where"):
            cond = self.cond()
            envs = [e for e in envs if self.holds(cond, e, srcs)]
        group = None
        if self.take("group"):
            self.need("by")
            group = self.name()
        order = []
        if self.take("order"):
            self.need("by")
            while True:
                n = self.name()
                desc = bool(self.take("desc"))
                self.take("asc")
                order.append((n, desc))
                if not self.take(","):
                    break
        for n, desc in reversed(order):
            at = self.index(n, srcs)
            envs = order_by(envs, lambda e, at=at: e[at], desc)
        outcols, out = [], []
        for kind, n, by, alias in items:
            if kind == "star":
                outcols += [c for names, cols in srcs if n is None or n in names for c in cols]
            else:
                outcols.append(alias or (n[-1] if kind == "col" else "array_agg"))
        if group is not None:
            at = self.index(group, srcs)
            groups = []
            for e in envs:
                for g in groups:
                    if g[0][at] == e[at]:
                        g.append(e)
                        break
                else:
                    groups.append([e])
        else:
            groups = [[e] for e in envs]
        for g in groups:
            row = []
            for kind, n, by, alias in items:
                if kind == "star":
                    k = 0
                    for names, cols in srcs:
                        if n is None or n in names:
                            row += g[0][k : k + len(cols)]
                        k += len(cols)
                elif kind == "col":
                    row.append(g[0][self.index(n, srcs)])
                else:
                    es = g if by is None else order_by(g, lambda e: e[self.index(by, srcs)], False)
                    row.append([e[self.index(n, srcs)] for e in es])
            out.append(row)
        if distinct:
            rows, out = out, []
            for r in rows:
                if not any(bool(all_of(*[x == y for x, y in zip(r, o)])) for o in out):
                    out.append(r)
        if self.take("limit"):
            out = out[: self.need("lit")[1]]
        return outcols, out


def like(s, pat, nocase):
    """s LIKE pat, without an escape character"""
    if nocase:
        s, pat = s.lower(), pat.lower()
    n, m = len(s), len(pat)
    # row[i]: s[i:] matches what is left of the pattern
    row = [False] * n + [True]
    for j in range(m - 1, -1, -1):
        p = pat[j]
        many, one = p == "%", p == "_"
        new = [False] * (n + 1)
        new[n] = all_of(many, row[n])
        for i in range(n - 1, -1, -1):
            new[i] = any_of(
                all_of(many, any_of(row[i], new[i + 1])),
                all_of(neg(many), any_of(one, s[i] == p), row[i + 1]),
            )
        row = new
    return row[0]


def order_by(rows, key, desc):
    """stable insertion sort (forks on symbolic comparisons)"""
    out = []
    for r in rows:
        i = len(out)
        while i > 0 and ((key(out[i - 1]) < key(r)) if desc else (key(r) < key(out[i - 1]))):
            i -= 1
        out.insert(i, r)
    return out


class Cursor:
    def __init__(self, conn):
        self.conn = conn
        self.description, self.rows = None, []

    def execute(self, query, parameters=()):
        self.conn.queries.append(query)
        if is_sym(query):
            raise Unsupported("a query text that depends on symbolic names")
        params = dict(parameters) if isinstance(parameters, dict) else list(parameters or ())
        q = Query(self.conn.db, tokens(query), params, self.conn.nocase)
        cols, self.rows = q.select()
        q.take(";")
        if q.i < len(q.t):
            raise Unsupported("SQL: trailing " + str(q.t[q.i : q.i + 4]))
        if params and not isinstance(params, dict):
            raise SqlError("too many parameters")
        self.description = [(c, None) for c in cols]

    def fetchall(self):
        r, self.rows = self.rows, []
        return [tuple(x) for x in r]

    def fetchone(self):
        return tuple(self.rows.pop(0)) if self.rows else None

    def fetchmany(self, size=1):
        r, self.rows = self.rows[:size], self.rows[size:]
        return [tuple(x) for x in r]

    def __iter__(self):
        return iter(self.fetchall())

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class Connection:
    """db: table -> (database schema, column names, rows)"""

    def __init__(self, db, nocase=False):
        self.db, self.queries, self.nocase = db, [], nocase

    def cursor(self, *a, **k):
        return Cursor(self)
