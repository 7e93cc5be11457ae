"""Shared vocabulary of the property modules."""
import hashlib
import json


class Violation(Exception):
    """The property does not hold on the given case."""


class Skip(Exception):
    """The case is outside of the property's domain (counted, not judged)."""


class Check:
    """One generated-input check of a property.

    name      unique inside the property
    strategy  generator: function of a choice source `D` returning plain JSON
              data
    run       callable(case) -> info or None; raises Violation
              info: {"nontrivial": bool, "tags": [str, ...]}
    quick / thorough   number of cases generated
    """

    def __init__(self, name, strategy, run, quick, thorough=None, rule="",
                 serial=False):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.rule = rule
        self.serial = serial


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def digest(case):
    return hashlib.sha256(canon(case).encode()).hexdigest()[:16]


def derive_seed(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class D:
    """Source of choices.  Every draw is an integer in [lo, hi]; lo is the
    simplest.  Draws are recorded, so that a failing case can be shrunk by
    editing its choice sequence and replaying the generator on it."""
    __slots__ = ("rnd", "given", "taken")

    def __init__(self, rnd=None, given=None):
        self.rnd = rnd
        self.given = given
        self.taken = []

    def int(self, lo, hi):
        if lo == hi:
            return lo
        if self.given is None:
            v = self.rnd.randint(lo, hi)
        elif len(self.taken) < len(self.given):
            v = self.given[len(self.taken)] + lo
            if v > hi:
                v = lo + (v - lo) % (hi - lo + 1)
        else:
            v = lo
        if len(self.taken) > 50000:
            raise Skip("too many choices")
        self.taken.append(v - lo)
        return v

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def flip(self, percent=50):
        return self.int(0, 99) >= 100 - percent

    def wpick(self, *pairs):
        """pairs: (weight, value)"""
        k = self.int(0, sum(w for w, _ in pairs) - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def sample(self, seq, k):
        """k distinct elements in random order"""
        rest = list(seq)
        return [rest.pop(self.int(0, len(rest) - 1)) for _ in range(k)]

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    def many(self, fn, lo, hi):
        return [fn(self) for _ in range(self.int(lo, hi))]

    def text(self, alphabet, lo, hi):
        return "".join(self.pick(alphabet) for _ in range(self.int(lo, hi)))

    def anychar(self):
        """any Unicode scalar value or lone surrogate, biased to ASCII"""
        k = self.int(0, 9)
        if k < 5:
            return chr(self.int(32, 126))
        if k < 6:
            return chr(self.int(0, 31))
        if k < 8:
            return chr(self.int(127, 0x2FFF))
        return chr(self.int(0x3000, 0x10FFFF))


def gen(fn):
    """Marks a function of D as the generator of a check."""
    return fn


def shrink(fn, choices, fails, time_left):
    """Smallest choice sequence found whose case still fails.

    fails(case) -> bool"""
    from collections import OrderedDict
    seen = OrderedDict()

    def attempt(ch):
        d = D(given=ch)
        try:
            case = fn(d)
        except Skip:
            return None
        key = canon(case)
        if key in seen:
            r = seen[key]
        else:
            r = seen[key] = fails(case)
        # the replay may have consumed fewer choices
        t = d.taken
        while t and t[-1] == 0:
            t = t[:-1]
        return list(t) if r else None

    def better(a, b):
        return (len(a), a) < (len(b), b)

    best = list(choices)
    while best and best[-1] == 0:
        best.pop()
    progress = True
    while progress and time_left() > 0:
        progress = False
        size = max(1, len(best) // 2)
        while size >= 1 and time_left() > 0:
            i = 0
            while i < len(best) and time_left() > 0:
                for cand in (best[:i] + best[i + size:],
                             best[:i] + [0] * len(best[i:i + size]) +
                             best[i + size:]):
                    if cand == best:
                        continue
                    r = attempt(cand)
                    if r is not None and better(r, best):
                        best = r
                        progress = True
                        break
                else:
                    i += size
            size //= 2
        i = 0
        while i < len(best) and time_left() > 0:
            lo, hi = 0, best[i]
            while lo < hi and time_left() > 0:
                mid = (lo + hi) // 2
                r = attempt(best[:i] + [mid] + best[i + 1:])
                if r is not None and better(r, best):
                    best = r
                    progress = True
                    if i >= len(best):
                        break
                    hi = min(mid, best[i])
                else:
                    lo = mid + 1
            i += 1
    return best
