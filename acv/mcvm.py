"""A small interpreter for the Bedrock commands that Acacia emits.

It is the execution oracle: the harness compiles an Acacia program and runs
the *text* of the generated .mcfunction files here.  Nothing in this module
imports acaciamc, so it cannot inherit a mistake of the compiler.

Commands it understands: function, execute (as/at/positioned/rotated/facing/
align/anchored/in/if/unless score|entity|block), scoreboard, tag, tp, kill,
summon, tellraw, titleraw, schedule.  Everything else is recorded as an event.

Malformed commands raise `Malformed`; reading a score that was never written
is recorded in `undef_reads`.
"""
import json
import math
import re

INT_MIN = -2 ** 31
INT_MAX = 2 ** 31 - 1


class Malformed(Exception):
    """The text is not a command the game could have parsed."""


class Fuel(Exception):
    """Execution budget exhausted."""


def wrap(x):
    return (x + 2 ** 31) % 2 ** 32 - 2 ** 31


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def cmod(a, b):
    r = abs(a) % abs(b)
    return r if a >= 0 else -r


# --- lexing ---------------------------------------------------------------

def split_words(s):
    """Split a command line on spaces, honouring quotes, [] and {}.
    Quoted words are returned as Q instances (already unescaped)."""
    return [w for w, _ in split_words_pos(s)]


class Q(str):
    """A word that was written in double quotes."""


def split_words_pos(s):
    res = []
    i, n = 0, len(s)
    while i < n:
        if s[i] == " ":
            i += 1
            continue
        start = i
        if s[i] == '"':
            buf = []
            i += 1
            while True:
                if i >= n:
                    raise Malformed("unterminated quote: %r" % s)
                if s[i] == "\\":
                    if i + 1 >= n:
                        raise Malformed("dangling backslash: %r" % s)
                    buf.append(s[i + 1])
                    i += 2
                elif s[i] == '"':
                    i += 1
                    break
                else:
                    buf.append(s[i])
                    i += 1
            if i < n and s[i] != " ":
                raise Malformed("junk after quoted word: %r" % s)
            res.append((Q("".join(buf)), start))
            continue
        depth = 0
        while i < n:
            c = s[i]
            if c in "[{":
                depth += 1
            elif c in "]}":
                depth -= 1
                if depth < 0:
                    raise Malformed("unbalanced bracket: %r" % s)
            elif c == '"':
                i += 1
                while i < n and s[i] != '"':
                    if s[i] == "\\":
                        i += 1
                    i += 1
                if i >= n:
                    raise Malformed("unterminated quote: %r" % s)
            elif c == " " and depth == 0:
                break
            i += 1
        if depth:
            raise Malformed("unbalanced bracket: %r" % s)
        res.append((s[start:i], start))
        if s[start:i] in FREE_TEXT and (
                len(res) == 1 or res[-2][0] == "run") and i < n:
            res.append((s[i + 1:], i + 1))
            break
    return res


FREE_TEXT = ("say", "me")  # the rest of these commands is any text


def parse_int(w):
    body = w[1:] if w[:1] in "+-" else w
    if isinstance(w, Q) or not body or not (body.isascii() and body.isdigit()):
        raise Malformed("bad integer %r" % w)
    v = int(w)
    if not INT_MIN <= v <= INT_MAX:
        raise Malformed("integer out of 32-bit range: %s" % w)
    return v


def parse_range(w):
    """-> (invert, lo, hi) with None for open ends."""
    inv = w.startswith("!")
    body = w[1:] if inv else w
    if ".." in body:
        a, _, b = body.partition("..")
        if not a and not b:
            raise Malformed("empty range %r" % w)
        lo = parse_int(a) if a else None
        hi = parse_int(b) if b else None
        if lo is not None and hi is not None and lo > hi:
            raise Malformed("reversed range %r" % w)
        return inv, lo, hi
    v = parse_int(body)
    return inv, v, v


_NUM = re.compile(r"[+-]?(\d+(\.\d*)?|\.\d+)\Z")


def coord_num(w):
    if not _NUM.match(w):
        raise Malformed("bad coordinate %r" % w)
    return float(w)


def in_range(rng, v):
    inv, lo, hi = rng
    ok = (lo is None or v >= lo) and (hi is None or v <= hi)
    return ok != inv


class Selector:
    __slots__ = ("var", "args", "text")

    def __init__(self, var, args, text):
        self.var, self.args, self.text = var, args, text


def _split_top(s):
    parts, depth, buf, i = [], 0, [], 0
    while i < len(s):
        c = s[i]
        if c == '"':
            j = i + 1
            while j < len(s) and s[j] != '"':
                if s[j] == "\\":
                    j += 1
                j += 1
            if j >= len(s):
                raise Malformed("unterminated quote in selector: %r" % s)
            buf.append(s[i:j + 1])
            i = j + 1
            continue
        if c in "[{":
            depth += 1
        elif c in "]}":
            depth -= 1
        if c == "," and depth == 0:
            parts.append("".join(buf))
            buf = []
        else:
            buf.append(c)
        i += 1
    parts.append("".join(buf))
    return parts


def unquote(s):
    s = s.strip()
    if s.startswith('"'):
        w = split_words(s)
        if len(w) != 1:
            raise Malformed("bad quoted value %r" % s)
        return str(w[0])
    if not s or any(c in s for c in '"[]{}='):
        raise Malformed("bad bare value %r" % s)
    return s


_sel_cache = {}


def parse_selector(text):
    r = _sel_cache.get(text)
    if r is None:
        if len(_sel_cache) > 20000:
            _sel_cache.clear()
        r = _sel_cache[text] = _parse_selector(text)
    return r


def parse_hasitem(v, text):
    parts = [v]
    if v.startswith("["):
        if not v.endswith("]"):
            raise Malformed("bad hasitem in %r" % text)
        parts = _split_top(v[1:-1])
    out = []
    for p in parts:
        p = p.strip()
        if not (p.startswith("{") and p.endswith("}")):
            raise Malformed("bad hasitem in %r" % text)
        q = {}
        for x in _split_top(p[1:-1]):
            k, eq, w = x.partition("=")
            k = k.strip()
            if not eq or k in q:
                raise Malformed("bad hasitem in %r" % text)
            if k in ("quantity", "slot"):
                q[k] = parse_range(w.strip())
            elif k == "data":
                q[k] = parse_int(w)
            elif k in ("item", "location"):
                q[k] = unquote(w)
            else:
                raise Malformed("unknown hasitem key %r in %r" % (k, text))
        if "item" not in q or "slot" in q and "location" not in q:
            raise Malformed("bad hasitem in %r" % text)
        out.append(q)
    return out


def has_item(e, q):
    n = 0
    for item, data, qty, loc, slot in e.items:
        if strip_ns(q["item"]) != item:
            continue
        if "data" in q and q["data"] not in (data, -1):
            continue
        if "location" in q and q["location"] != loc:
            continue
        if "slot" in q and not in_range(q["slot"], slot):
            continue
        n += qty
    return in_range(q.get("quantity", (False, 1, None)), n)


VARS = ("a", "e", "p", "r", "s", "initiator")


def _parse_selector(text):
    if not text.startswith("@"):
        raise Malformed("not a selector: %r" % text)
    i = text.find("[")
    if i < 0:
        var, body = text[1:], None
    else:
        if not text.endswith("]"):
            raise Malformed("bad selector: %r" % text)
        var, body = text[1:i], text[i + 1:-1]
    if var not in VARS:
        raise Malformed("bad selector variable: %r" % text)
    args = []
    if body is not None:
        if not body.strip():
            raise Malformed("empty selector arguments: %r" % text)
        for p in _split_top(body):
            k, eq, v = p.partition("=")
            k = k.strip()
            if not eq:
                raise Malformed("bad selector argument %r in %r" % (p, text))
            neg = v.startswith("!")
            if neg:
                v = v[1:]
            if k in ("tag", "type", "name", "family", "m"):
                args.append((k, neg, unquote(v)))
            elif neg:
                raise Malformed("negated %r in %r" % (k, text))
            elif k in ("c", "l", "lm"):
                args.append((k, False, parse_int(v)))
            elif k in ("r", "rm", "dx", "dy", "dz", "rx", "rxm", "ry", "rym"):
                try:
                    args.append((k, False, float(v)))
                except ValueError:
                    raise Malformed("bad number in %r" % text)
            elif k in ("x", "y", "z"):
                args.append((k, False, v))
            elif k == "scores":
                if not (v.startswith("{") and v.endswith("}")):
                    raise Malformed("bad scores in %r" % text)
                d = []
                for q in _split_top(v[1:-1]):
                    o, eq, rg = q.partition("=")
                    if not eq:
                        raise Malformed("bad scores in %r" % text)
                    d.append((unquote(o), parse_range(rg.strip())))
                args.append((k, False, d))
            elif k == "hasitem":
                args.append((k, False, parse_hasitem(v, text)))
            elif k == "haspermission":
                if not (v.startswith("{") and v.endswith("}")):
                    raise Malformed("bad haspermission in %r" % text)
                d = []
                for q in _split_top(v[1:-1]):
                    o, eq, st = q.partition("=")
                    if st not in ("enabled", "disabled") or not o:
                        raise Malformed("bad haspermission in %r" % text)
                    if o in dict(d):
                        raise Malformed("permission twice in %r" % text)
                    d.append((o, st == "enabled"))
                args.append((k, False, d))
            else:
                raise Malformed("unknown selector argument %r in %r"
                                % (k, text))
        once = {}
        for k, neg, v in args:
            if k in ("tag", "family") or neg:
                continue
            if k in once:
                raise Malformed("duplicated selector argument %r in %r"
                                % (k, text))
            once[k] = v
    return Selector(var, args, text)


# --- world ----------------------------------------------------------------

class Ent:
    __slots__ = ("uid", "type", "name", "tags", "x", "y", "z", "yrot",
                 "xrot", "alive", "families", "level", "gamemode", "dim",
                 "items", "perms")

    def __init__(self, uid, type_, name="", pos=(0.0, 0.0, 0.0),
                 families=(), level=0, gamemode="survival", rot=(0.0, 0.0)):
        self.uid = uid
        self.type = type_
        self.name = name
        self.tags = set()
        self.x, self.y, self.z = pos
        self.yrot, self.xrot = rot
        self.alive = True
        self.families = set(families)
        self.level = level
        self.gamemode = gamemode
        self.dim = "overworld"
        self.items = []      # (item, data, quantity, slot type, slot number)
        self.perms = set()   # enabled permissions

    def __repr__(self):
        return "<%s#%d>" % (self.type, self.uid)

    @property
    def pos(self):
        return (self.x, self.y, self.z)


class Ctx:
    __slots__ = ("ent", "x", "y", "z", "yrot", "xrot", "dim", "anchor")

    def __init__(self, ent=None, pos=(0.0, 0.0, 0.0), rot=(0.0, 0.0),
                 dim="overworld", anchor="feet"):
        self.ent = ent
        self.x, self.y, self.z = pos
        self.yrot, self.xrot = rot
        self.dim = dim
        self.anchor = anchor

    def clone(self):
        return Ctx(self.ent, (self.x, self.y, self.z),
                   (self.yrot, self.xrot), self.dim, self.anchor)

    @property
    def pos(self):
        return (self.x, self.y, self.z)


def strip_ns(t):
    return t[10:] if t.startswith("minecraft:") else t


class VM:
    def __init__(self, files, fuel=400000, rng=None, strict_obj=True):
        """files: {path: text}"""
        self.files = {}
        for p, t in files.items():
            self.files[p] = [ln for ln in t.split("\n")]
        self.scores = {}
        self.objectives = {}
        self.ents = []
        self._uid = 0
        self.events = []
        self.undef_reads = []
        self.fuel = fuel
        self.steps = 0
        self.rng = rng or (lambda lo, hi: lo)
        self.strict_obj = strict_obj
        self.time = 0
        self.blocks = {}
        self.tr_keys = []     # translated keys that were displayed
        self.targets = []     # who each tellraw/titleraw was for
        self.pending = []     # (kind, args, path)
        self.touched_fns = set()
        self._cache = {}

    # entities
    def add_ent(self, type_, **kw):
        self._uid += 1
        e = Ent(self._uid, strip_ns(type_), **kw)
        self.ents.append(e)
        return e

    def remove_ent(self, e):
        e.alive = False
        if e in self.ents:
            self.ents.remove(e)

    # scores
    def _check_obj(self, obj):
        if self.strict_obj and obj not in self.objectives:
            raise Malformed("objective %r is not registered" % obj)

    def get_score(self, holder, obj):
        self._check_obj(obj)
        k = (holder, obj)
        v = self.scores.get(k)
        if v is None:
            self.undef_reads.append(k)
        return v

    def set_score(self, holder, obj, v):
        self._check_obj(obj)
        self.scores[(holder, obj)] = wrap(v)

    def holders(self, w, ctx, obj=None, star_ok=True):
        if not isinstance(w, Q):
            if w.startswith("@"):
                return [e.uid for e in self.select(w, ctx)]
            if w == "*":
                return sorted({h for (h, o) in self.scores
                               if obj is None or o == obj}, key=str)
        elif w.startswith("@") or w == "*":
            return [e.uid for e in self.select(str(w), ctx)] \
                if w.startswith("@") else [str(w)]
        for e in self.ents:
            if e.type == "player" and e.name == w:
                return [e.uid]
        return [str(w)]

    # selectors
    def select(self, text, ctx):
        sel = parse_selector(str(text))
        args = sel.args
        x, y, z = ctx.x, ctx.y, ctx.z
        c = None
        vol = None
        typ_given = False
        for k, neg, v in args:
            if k in ("x", "y", "z"):
                base = {"x": x, "y": y, "z": z}[k]
                val = self._coord(v, base)
                if k == "x":
                    x = val
                elif k == "y":
                    y = val
                else:
                    z = val
            elif k == "c":
                c = v
            elif k == "type":
                typ_given = True
        d = {k: v for k, neg, v in args if k in ("dx", "dy", "dz")}
        if d:
            vol = (d.get("dx", 0.0), d.get("dy", 0.0), d.get("dz", 0.0))
        if sel.var == "s":
            pool = [ctx.ent] if ctx.ent is not None and ctx.ent.alive else []
        elif sel.var == "initiator":
            pool = [ctx.ent] if ctx.ent is not None and ctx.ent.alive else []
        elif sel.var == "e":
            pool = list(self.ents)
        elif sel.var in ("a", "p"):
            pool = [e for e in self.ents if e.type == "player"]
        else:  # r
            pool = [e for e in self.ents
                    if typ_given or e.type == "player"]
        res = []
        for e in pool:
            if self._match(e, sel, (x, y, z), vol):
                res.append(e)
        if sel.var == "p" and c is None:
            c = 1
        if sel.var == "r":
            n = 1 if c is None else c
            # random choice: delegated to the rng hook
            out = []
            rest = list(res)
            while rest and len(out) < n:
                out.append(rest.pop(self.rng(0, len(rest) - 1)))
            return out
        if c is not None:
            if c == 0:
                raise Malformed("c=0 in %r" % sel.text)
            def dist(e):
                return ((e.x - x) ** 2 + (e.y - y) ** 2 + (e.z - z) ** 2)
            res.sort(key=dist, reverse=c < 0)
            res = res[:abs(c)]
        return res

    def _match(self, e, sel, pos, vol):
        x, y, z = pos
        for k, neg, v in sel.args:
            if k == "tag":
                ok = v in e.tags
            elif k == "type":
                ok = strip_ns(v) == e.type
            elif k == "name":
                ok = v == e.name
            elif k == "family":
                ok = v in e.families
            elif k == "m":
                ok = e.type == "player" and v == e.gamemode
            elif k == "l":
                ok = e.type == "player" and e.level <= v
            elif k == "lm":
                ok = e.type == "player" and e.level >= v
            elif k == "hasitem":
                ok = all(has_item(e, q) for q in v)
            elif k == "haspermission":
                ok = e.type == "player" and all(
                    (p in e.perms) == on for p, on in v)
            elif k == "r":
                ok = math.dist(e.pos, (x, y, z)) <= v + 1e-9
            elif k == "rm":
                ok = math.dist(e.pos, (x, y, z)) >= v - 1e-9
            elif k == "rx":
                ok = e.xrot <= v
            elif k == "rxm":
                ok = e.xrot >= v
            elif k == "ry":
                ok = e.yrot <= v
            elif k == "rym":
                ok = e.yrot >= v
            elif k == "scores":
                ok = True
                for obj, rng in v:
                    s = self.scores.get((e.uid, obj))
                    # an entity without the score never matches
                    if s is None or not in_range(rng, s):
                        ok = False
            elif k in ("c", "x", "y", "z", "dx", "dy", "dz"):
                continue
            else:
                raise Malformed("selector argument %r" % k)
            if ok == neg:
                return False
        if vol is not None:
            for p, o, dd in zip(e.pos, (x, y, z), vol):
                lo, hi = min(o, o + dd), max(o, o + dd) + 1
                if not (lo - 1e-9 <= p < hi + 1e-9):
                    return False
        return True

    # coordinates
    def _coord(self, w, base):
        if w.startswith("~"):
            return base + (coord_num(w[1:]) if len(w) > 1 else 0.0)
        return coord_num(w)

    def coords(self, ws, ctx):
        if len(ws) != 3:
            raise Malformed("bad coordinates %r" % (ws,))
        for w in ws:
            if isinstance(w, Q):
                raise Malformed("quoted coordinate")
        if any(w.startswith("^") for w in ws):
            if not all(w.startswith("^") for w in ws):
                raise Malformed("mixed local and world coordinates %r" % (ws,))
            left, up, fwd = [coord_num(w[1:]) if len(w) > 1 else 0.0
                             for w in ws]
            return local_offset(ctx, left, up, fwd)
        return tuple(self._coord(w, b) for w, b in zip(ws, ctx.pos))

    # --- running ---
    def run(self, path, ctx=None):
        if ctx is None:
            ctx = Ctx()
        self.touched_fns.add(path)
        try:
            lines = self.files[path]
        except KeyError:
            raise Malformed("function %r does not exist" % path)
        for ln in lines:
            if ln == "" or ln.startswith("#"):
                continue
            self.cmd(ln, ctx)

    def tick(self, ctx=None):
        """One game tick: everything in tick.json"""
        self.time += 1
        tj = self.files.get("tick.json")
        return tj

    def parsed(self, ln):
        r = self._cache.get(ln)
        if r is None:
            r = self._cache[ln] = split_words_pos(ln)
        return r

    def cmd(self, ln, ctx):
        self.steps += 1
        if self.steps > self.fuel:
            raise Fuel()
        ws = self.parsed(ln)
        if not ws:
            return
        name = ws[0][0]
        if name.startswith("/"):
            raise Malformed("command with leading slash %r" % ln)
        f = getattr(self, "c_" + name, None)
        if f is None:
            self.events.append(("cmd", ln, self.who(ctx), self.where(ctx)))
        else:
            f(ln, [w for w, _ in ws], ws, ctx)

    def who(self, ctx):
        return None if ctx.ent is None else ctx.ent.uid

    def where(self, ctx):
        return tuple(round(v, 6) for v in ctx.pos) + (
            round(ctx.yrot, 6), round(ctx.xrot, 6), ctx.dim)

    def c_function(self, ln, w, ws, ctx):
        if len(w) < 2:
            raise Malformed(ln)
        self.run(ln[ws[1][1]:], ctx)

    def c_scoreboard(self, ln, w, ws, ctx):
        if len(w) < 3:
            raise Malformed(ln)
        if w[1] == "objectives":
            if w[2] == "add":
                if len(w) not in (5, 6) or w[4] != "dummy":
                    raise Malformed(ln)
                self.objectives.setdefault(str(w[3]),
                                           w[5] if len(w) > 5 else None)
                self.events.append(("objadd", str(w[3]))) \
                    if getattr(self, "log_obj", False) else None
            elif w[2] == "remove":
                if len(w) != 4:
                    raise Malformed(ln)
                self._check_obj(str(w[3]))
                del self.objectives[str(w[3])]
                for k in [k for k in self.scores if k[1] == w[3]]:
                    del self.scores[k]
            elif w[2] == "setdisplay":
                self.events.append(("cmd", ln, self.who(ctx),
                                    self.where(ctx)))
            else:
                raise Malformed(ln)
            return
        if w[1] != "players":
            raise Malformed(ln)
        op = w[2]
        if op in ("set", "add", "remove"):
            if len(w) != 6:
                raise Malformed(ln)
            v = parse_int(w[5])
            obj = str(w[4])
            for h in self.holders(w[3], ctx, obj):
                if op == "set":
                    self.set_score(h, obj, v)
                else:
                    cur = self.get_score(h, obj) or 0
                    self.set_score(h, obj, cur + v if op == "add" else cur - v)
        elif op == "random":
            if len(w) != 7:
                raise Malformed(ln)
            lo, hi = parse_int(w[5]), parse_int(w[6])
            if lo > hi:
                raise Malformed("random with min > max: %r" % ln)
            for h in self.holders(w[3], ctx, str(w[4])):
                self.set_score(h, str(w[4]), self.rng(lo, hi))
        elif op == "reset":
            if len(w) == 4:
                hs = set(self.holders(w[3], ctx))
                for k in [k for k in self.scores if k[0] in hs]:
                    del self.scores[k]
            elif len(w) == 5:
                for h in self.holders(w[3], ctx, str(w[4])):
                    self.scores.pop((h, str(w[4])), None)
            else:
                raise Malformed(ln)
        elif op == "operation":
            if len(w) != 8:
                raise Malformed(ln)
            o1, sop, o2 = str(w[4]), w[5], str(w[7])
            for a in self.holders(w[3], ctx, o1):
                for b in self.holders(w[6], ctx, o2):
                    self._operation(sop, a, o1, b, o2, ln)
        else:
            raise Malformed(ln)

    def _operation(self, op, a, o1, b, o2, ln):
        vb = self.get_score(b, o2)
        if vb is None:
            vb = 0
        if op == "=":
            return self.set_score(a, o1, vb)
        va = self.get_score(a, o1)
        if va is None:
            va = 0
        if op == "+=":
            r = va + vb
        elif op == "-=":
            r = va - vb
        elif op == "*=":
            r = va * vb
        elif op == "/=":
            if vb == 0:
                self.events.append(("div0",)) if getattr(
                    self, "log_div0", False) else None
                return
            r = cdiv(va, vb)
        elif op == "%=":
            if vb == 0:
                return
            r = cmod(va, vb)
        elif op == "<":
            r = min(va, vb)
        elif op == ">":
            r = max(va, vb)
        elif op == "><":
            self.set_score(a, o1, vb)
            self.set_score(b, o2, va)
            return
        else:
            raise Malformed("bad operation %r" % ln)
        self.set_score(a, o1, r)

    def c_tag(self, ln, w, ws, ctx):
        if len(w) != 4 or w[2] not in ("add", "remove"):
            raise Malformed(ln)
        if isinstance(w[1], Q) or not w[1].startswith("@"):
            ents = [e for e in self.ents if e.name == w[1]]
        else:
            ents = self.select(w[1], ctx)
        for e in ents:
            if w[2] == "add":
                e.tags.add(str(w[3]))
            else:
                e.tags.discard(str(w[3]))

    def c_kill(self, ln, w, ws, ctx):
        if len(w) > 2:
            raise Malformed(ln)
        for e in self.select(w[1] if len(w) == 2 else "@s", ctx):
            self.events.append(("kill", e.uid))
            self.remove_ent(e)

    def c_summon(self, ln, w, ws, ctx):
        # summon type x y z [yrot xrot] event name
        if len(w) < 5:
            raise Malformed(ln)
        x, y, z = self.coords(w[2:5], ctx)
        rest = w[5:]
        rot = (0.0, 0.0)
        if len(rest) >= 2 and not isinstance(rest[0], Q):
            try:
                rot = (self._coord(rest[0], ctx.yrot),
                       self._coord(rest[1], ctx.xrot))
                rest = rest[2:]
            except Malformed:
                pass
        ev = rest[0] if rest else None
        name = str(rest[1]) if len(rest) > 1 else ""
        if len(rest) > 2:
            raise Malformed(ln)
        e = self.add_ent(w[1], name=name, pos=(x, y, z), rot=rot)
        e.dim = ctx.dim
        self.events.append(("summon", e.uid, e.type, name,
                            None if ev is None else str(ev)))

    def c_tp(self, ln, w, ws, ctx):
        if len(w) < 5 or not w[1].startswith("@"):
            self.events.append(("cmd", ln, self.who(ctx), self.where(ctx)))
            return
        try:
            pos = self.coords(w[2:5], ctx)
        except Malformed:
            self.events.append(("cmd", ln, self.who(ctx), self.where(ctx)))
            return
        for e in self.select(w[1], ctx):
            e.x, e.y, e.z = pos
            e.dim = ctx.dim
            if len(w) == 7:
                try:
                    e.yrot = self._coord(w[5], ctx.yrot)
                    e.xrot = self._coord(w[6], ctx.xrot)
                except Malformed:
                    pass
        if len(w) > 5 and len(w) != 7:
            self.events.append(("cmd", ln, self.who(ctx), self.where(ctx)))

    def render(self, js, ctx):
        if not isinstance(js, dict) or not isinstance(
                js.get("rawtext"), list):
            raise Malformed("bad rawtext %r" % (js,))
        out = []
        for c in js["rawtext"]:
            if "text" in c:
                if not isinstance(c["text"], str):
                    raise Malformed("bad text component %r" % (c,))
                out.append(c["text"])
            elif "score" in c:
                nm, obj = c["score"]["name"], c["score"]["objective"]
                vs = []
                for h in self.holders(nm, ctx, obj):
                    v = self.get_score(h, obj)
                    vs.append("" if v is None else str(v))
                out.append(",".join(vs))
            elif "selector" in c:
                out.append("<" + ",".join(
                    "%s#%d" % (e.type, e.uid)
                    for e in self.select(c["selector"], ctx)) + ">")
            elif "translate" in c:
                wth = c.get("with")
                if wth is None:
                    self.tr_keys.append(c["translate"])
                if isinstance(wth, dict):
                    parts = [self.render({"rawtext": [x]}, ctx)
                             for x in wth["rawtext"]]
                elif wth is None:
                    parts = []
                else:
                    parts = list(wth)
                out.append(render_translate(c["translate"], parts))
            else:
                raise Malformed("unknown rawtext component %r" % (c,))
        return "".join(out)

    def _rawout(self, kind, ln, ws, nskip, ctx):
        if len(ws) <= nskip:
            raise Malformed(ln)
        payload = ln[ws[nskip][1]:]
        try:
            js = json.loads(payload)
        except ValueError:
            raise Malformed("bad JSON in %r" % ln)
        head = [str(w) for w, _ in ws[1:nskip]]
        self.targets.append(self._targets(head[0], ctx))
        # run once per target so that per-target scores are resolved
        self.events.append((kind, tuple(head), self.render(js, ctx)))

    def _targets(self, w, ctx):
        if w.startswith("@"):
            return tuple(sorted(e.uid for e in self.select(w, ctx)
                                if e.type == "player"))
        return tuple(sorted(e.uid for e in self.ents
                            if e.type == "player" and e.name == w))

    def c_tellraw(self, ln, w, ws, ctx):
        self._rawout("tellraw", ln, ws, 2, ctx)

    def c_titleraw(self, ln, w, ws, ctx):
        if len(w) < 3:
            raise Malformed(ln)
        if w[2] in ("times", "reset", "clear"):
            if w[2] == "times":
                if len(w) != 6:
                    raise Malformed(ln)
                for q in w[3:]:
                    parse_int(q)
            elif len(w) != 3:
                raise Malformed(ln)
            self.targets.append(self._targets(w[1], ctx))
            self.events.append(("titleraw", tuple(map(str, w[1:])), None))
            return
        if w[2] not in ("title", "subtitle", "actionbar"):
            raise Malformed(ln)
        self._rawout("titleraw", ln, ws, 3, ctx)

    def c_schedule(self, ln, w, ws, ctx):
        if w[1] != "on_area_loaded" or w[2] != "add":
            raise Malformed(ln)
        # the function path is the last word
        path = w[-1]
        if path not in self.files:
            raise Malformed("scheduled function %r does not exist" % path)
        self.pending.append((tuple(w[3:-1]), self.where(ctx), path))

    # execute
    def c_execute(self, ln, w, ws, ctx):
        self._exec(ln, w, ws, 1, [ctx])

    def _exec(self, ln, w, ws, i, ctxs):
        n = len(w)
        while True:
            if i >= n:
                raise Malformed("execute without run: %r" % ln)
            if not ctxs:
                # still validate the remainder syntactically
                self._validate_exec(ln, w, ws, i)
                return
            sub = w[i]
            if isinstance(sub, Q):
                raise Malformed(ln)
            if sub == "run":
                if i + 1 >= n:
                    raise Malformed(ln)
                rest = ln[ws[i + 1][1]:]
                for c in ctxs:
                    self.cmd(rest, c)
                return
            i, ctxs = self._subcmd(ln, w, i, ctxs)

    def _validate_exec(self, ln, w, ws, i):
        dummy = []
        while i < len(w):
            if w[i] == "run":
                return
            i, _ = self._subcmd(ln, w, i, dummy)
        raise Malformed("execute without run: %r" % ln)

    def _subcmd(self, ln, w, i, ctxs):
        sub = w[i]
        try:
            if sub == "as":
                parse_selector(w[i + 1])
                out = []
                for c in ctxs:
                    for e in self.select(w[i + 1], c):
                        d = c.clone()
                        d.ent = e
                        out.append(d)
                return i + 2, out
            if sub == "at":
                parse_selector(w[i + 1])
                out = []
                for c in ctxs:
                    for e in self.select(w[i + 1], c):
                        d = c.clone()
                        d.x, d.y, d.z = e.pos
                        d.yrot, d.xrot = e.yrot, e.xrot
                        d.dim = e.dim
                        out.append(d)
                return i + 2, out
            if sub == "positioned":
                if w[i + 1] == "as":
                    parse_selector(w[i + 2])
                    out = []
                    for c in ctxs:
                        for e in self.select(w[i + 2], c):
                            d = c.clone()
                            d.x, d.y, d.z = e.pos
                            out.append(d)
                    return i + 3, out
                out = []
                if not ctxs:
                    self.coords(w[i + 1:i + 4], Ctx())
                for c in ctxs:
                    d = c.clone()
                    d.x, d.y, d.z = self.coords(w[i + 1:i + 4], c)
                    out.append(d)
                return i + 4, out
            if sub == "rotated":
                if w[i + 1] == "as":
                    parse_selector(w[i + 2])
                    out = []
                    for c in ctxs:
                        for e in self.select(w[i + 2], c):
                            d = c.clone()
                            d.yrot, d.xrot = e.yrot, e.xrot
                            out.append(d)
                    return i + 3, out
                out = []
                for c in ctxs or [Ctx()]:
                    d = c.clone()
                    d.yrot = self._coord(w[i + 1], c.yrot)
                    d.xrot = self._coord(w[i + 2], c.xrot)
                    out.append(d)
                return i + 3, (out if ctxs else [])
            if sub == "facing":
                if w[i + 1] == "entity":
                    parse_selector(w[i + 2])
                    if w[i + 3] not in ("eyes", "feet"):
                        raise Malformed(ln)
                    out = []
                    for c in ctxs:
                        for e in self.select(w[i + 2], c):
                            d = c.clone()
                            d.yrot, d.xrot = face(c.pos, e.pos)
                            out.append(d)
                    return i + 4, out
                out = []
                for c in ctxs or [Ctx()]:
                    d = c.clone()
                    d.yrot, d.xrot = face(
                        c.pos, self.coords(w[i + 1:i + 4], c))
                    out.append(d)
                return i + 4, (out if ctxs else [])
            if sub == "align":
                ax = w[i + 1]
                if not ax or any(a not in "xyz" for a in ax) or \
                        len(set(ax)) != len(ax):
                    raise Malformed("bad align axis in %r" % ln)
                out = []
                for c in ctxs:
                    d = c.clone()
                    for a in ax:
                        setattr(d, a, float(math.floor(getattr(d, a))))
                    out.append(d)
                return i + 2, out
            if sub == "anchored":
                if w[i + 1] not in ("eyes", "feet"):
                    raise Malformed("bad anchor in %r" % ln)
                out = []
                for c in ctxs:
                    d = c.clone()
                    d.anchor = w[i + 1]
                    out.append(d)
                return i + 2, out
            if sub == "in":
                out = []
                for c in ctxs:
                    d = c.clone()
                    d.dim = str(w[i + 1])
                    out.append(d)
                return i + 2, out
            if sub in ("if", "unless"):
                inv = sub == "unless"
                kind = w[i + 1]
                if kind == "score":
                    t1, o1 = w[i + 2], str(w[i + 3])
                    op = w[i + 4]
                    if op == "matches":
                        rng = parse_range(w[i + 5])
                        out = [c for c in ctxs if
                               self._test_match(t1, o1, rng, c) != inv]
                        return i + 6, out
                    if op not in ("=", "<", ">", "<=", ">="):
                        raise Malformed("bad score comparison in %r" % ln)
                    t2, o2 = w[i + 5], str(w[i + 6])
                    out = [c for c in ctxs if
                           self._test_comp(t1, o1, op, t2, o2, c) != inv]
                    return i + 7, out
                if kind == "entity":
                    parse_selector(w[i + 2])
                    out = [c for c in ctxs
                           if bool(self.select(w[i + 2], c)) != inv]
                    return i + 3, out
                if kind == "block":
                    if not ctxs:
                        self.coords(w[i + 2:i + 5], Ctx())
                    b = w[i + 5]
                    j = i + 6
                    if j < len(w) and w[j].startswith("["):
                        b += " " + w[j]
                        j += 1
                    out = []
                    for c in ctxs:
                        p = tuple(math.floor(v) for v in
                                  self.coords(w[i + 2:i + 5], c))
                        if self.is_block(p, c.dim, b) != inv:
                            out.append(c)
                    return j, out
                if kind == "blocks":
                    if w[i + 11] not in ("all", "masked"):
                        raise Malformed(ln)
                    for c in ctxs or [Ctx()]:
                        cs = [self.coords(w[i + j:i + j + 3], c)
                              for j in (2, 5, 8)]
                    out = []
                    for c in ctxs:
                        cs = [self.coords(w[i + j:i + j + 3], c)
                              for j in (2, 5, 8)]
                        if self.same_area(cs, c.dim, w[i + 11]) != inv:
                            out.append(c)
                    return i + 12, out
                raise Malformed("bad condition in %r" % ln)
        except IndexError:
            raise Malformed("truncated execute: %r" % ln)
        raise Malformed("unknown execute subcommand %r in %r" % (sub, ln))

    def is_block(self, p, dim, text):
        return self.blocks.get(p, "air") == text

    def same_area(self, corners, dim, mode):
        """Whether two areas hold the same blocks."""
        a, b, c = [tuple(math.floor(v) for v in x) for x in corners]
        lo = [min(x, y) for x, y in zip(a, b)]
        hi = [max(x, y) for x, y in zip(a, b)]
        if (hi[0] - lo[0] + 1) * (hi[1] - lo[1] + 1) * \
                (hi[2] - lo[2] + 1) > 5000:
            return True
        for x in range(lo[0], hi[0] + 1):
            for y in range(lo[1], hi[1] + 1):
                for z in range(lo[2], hi[2] + 1):
                    p = self.block_at((x, y, z), dim)
                    q = self.block_at((x - lo[0] + c[0], y - lo[1] + c[1],
                                       z - lo[2] + c[2]), dim)
                    if p != q and not (mode == "masked" and p == "air"):
                        return False
        return True

    def block_at(self, p, dim):
        return self.blocks.get(p, "air")

    def _test_match(self, t, o, rng, ctx):
        hs = self.holders(t, ctx, o)
        for h in hs[:1]:
            v = self.get_score(h, o)
            return v is not None and in_range(rng, v)
        self._check_obj(o)
        return False

    def _test_comp(self, t1, o1, op, t2, o2, ctx):
        a, b = self.holders(t1, ctx, o1), self.holders(t2, ctx, o2)
        if not a or not b:
            return False
        x, y = self.get_score(a[0], o1), self.get_score(b[0], o2)
        if x is None or y is None:
            return False
        return {"=": x == y, "<": x < y, ">": x > y,
                "<=": x <= y, ">=": x >= y}[op]


def render_translate(fmt, parts):
    out = []
    i, n, auto = 0, len(fmt), 0
    while i < n:
        if fmt[i] == "%":
            if fmt[i:i + 2] == "%%":
                # the outer engine renders "%%" as written by the pack
                out.append("%")
                i += 2
                continue
            if fmt[i:i + 2] == "%s":
                out.append(parts[auto] if auto < len(parts) else "")
                auto += 1
                i += 2
                continue
            j = i + 1
            while j < n and fmt[j].isdigit():
                j += 1
            if j > i + 1:
                k = int(fmt[i + 1:j]) - 1
                out.append(parts[k] if 0 <= k < len(parts) else "")
                i = j
                continue
        out.append(fmt[i])
        i += 1
    return "".join(out)


def face(p, q):
    dx, dy, dz = (b - a for a, b in zip(p, q))
    if dx == dz == 0 and dy == 0:
        return (0.0, 0.0)
    yrot = math.degrees(math.atan2(-dx, dz))
    xrot = -math.degrees(math.atan2(dy, math.hypot(dx, dz)))
    return (yrot, xrot)


def local_offset(ctx, left, up, fwd):
    yaw, pitch = math.radians(ctx.yrot), math.radians(ctx.xrot)
    f = (-math.sin(yaw) * math.cos(pitch), -math.sin(pitch),
         math.cos(yaw) * math.cos(pitch))
    u = (-math.sin(yaw) * math.sin(pitch), math.cos(pitch),
         math.cos(yaw) * math.sin(pitch))
    l = (math.cos(yaw), 0.0, math.sin(yaw))
    return tuple(b + left * a + up * c + fwd * d
                 for b, a, c, d in zip(ctx.pos, l, u, f))
