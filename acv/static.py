"""Static well-formedness of everything a build wrote."""
import json
import re

from .mcvm import (VM, Ctx, Malformed, Q, parse_int, parse_range,
                   parse_selector, split_words_pos)
from .core import Violation

OPAQUE = {  # commands whose arguments are not interpreted here
    "say", "setblock", "fill", "clone", "gamerule", "weather", "time", "xp",
    "effect", "give", "clear", "difficulty", "gamemode", "playsound",
    "stopsound", "particle", "structure", "tickingarea", "event", "damage",
    "enchant", "fog", "spreadplayers", "setworldspawn", "spawnpoint",
    "camerashake", "ability", "replaceitem", "ride", "title", "tell", "me",
    "inputpermission", "camera", "loot", "mobevent", "msg", "dialogue",
    "testfor", "locate", "music", "playanimation", "recipe", "hud",
    "clearspawnpoint", "op", "deop", "immutableworld", "toggledownfall",
    "daylock", "alwaysday", "teleport", "stop", "summon", "tp", "help",
    "allowlist", "kick", "list", "reload", "seed", "wsserver", "w",
    "structure", "scriptevent", "aimassist", "place", "testforblock",
    "testforblocks",
}


class Lint:
    def __init__(self, files, opaque_ok=True):
        self.files = files
        self.used = {}
        self.added = set()
        self.tags = {}
        self.ncmd = 0
        self.refs = 0
        self.opaque_ok = opaque_ok
        self.vm = VM({k: "" for k in files})

    def obj(self, name, ln):
        name = str(name)
        if not re.fullmatch(r"[\w.+-]+", name) and " " not in name:
            raise Malformed("objective name %r in %r" % (name, ln))
        self.used.setdefault(name, ln)

    def target(self, w, ln, star=True):
        if not isinstance(w, Q) and w.startswith("@"):
            self.selector(w, ln)
        elif w == "" or (w == "*" and not star):
            raise Malformed("bad target in %r" % ln)

    def selector(self, w, ln):
        s = parse_selector(w)
        for k, neg, v in s.args:
            if k == "tag":
                self.tags.setdefault(v, ln)
            if k == "scores":
                for o, _ in v:
                    self.obj(o, ln)

    def func(self, path, ln):
        self.refs += 1
        if path not in self.files:
            raise Malformed("function %r does not exist: %r" % (path, ln))

    def cmd(self, ln):
        self.ncmd += 1
        ws = split_words_pos(ln)
        if not ws:
            raise Malformed("empty command")
        w = [x for x, _ in ws]
        name = w[0]
        if isinstance(name, Q):
            raise Malformed(ln)
        f = getattr(self, "c_" + str(name), None)
        if f is not None:
            f(ln, w, ws)
        elif name not in OPAQUE or not self.opaque_ok:
            raise Malformed("unknown command %r" % ln)

    def c_function(self, ln, w, ws):
        if len(w) < 2:
            raise Malformed(ln)
        self.func(ln[ws[1][1]:], ln)

    def c_scoreboard(self, ln, w, ws):
        if len(w) < 3:
            raise Malformed(ln)
        if w[1] == "objectives":
            if w[2] == "add":
                if len(w) not in (5, 6) or w[4] != "dummy":
                    raise Malformed(ln)
                self.added.add(str(w[3]))
            elif w[2] in ("remove", "setdisplay"):
                if len(w) < 4:
                    raise Malformed(ln)
            else:
                raise Malformed(ln)
            return
        if w[1] != "players" or len(w) < 4:
            raise Malformed(ln)
        self.target(w[3], ln)
        op = w[2]
        if op in ("set", "add", "remove"):
            if len(w) != 6:
                raise Malformed(ln)
            parse_int(w[5])
            self.obj(w[4], ln)
        elif op == "random":
            if len(w) != 7 or parse_int(w[5]) > parse_int(w[6]):
                raise Malformed(ln)
            self.obj(w[4], ln)
        elif op == "operation":
            if len(w) != 8 or w[5] not in (
                    "=", "+=", "-=", "*=", "/=", "%=", "<", ">", "><"):
                raise Malformed(ln)
            self.obj(w[4], ln)
            self.target(w[6], ln)
            self.obj(w[7], ln)
        elif op == "reset":
            if len(w) == 5:
                self.obj(w[4], ln)
            elif len(w) != 4:
                raise Malformed(ln)
        elif op == "test":
            if len(w) not in (6, 7):
                raise Malformed(ln)
            self.obj(w[4], ln)
        else:
            raise Malformed(ln)

    def c_tag(self, ln, w, ws):
        if len(w) == 3 and w[2] == "list":
            self.target(w[1], ln)
            return
        if len(w) != 4 or w[2] not in ("add", "remove") or not w[3]:
            raise Malformed(ln)
        self.target(w[1], ln)
        self.tags.setdefault(str(w[3]), ln)

    def c_kill(self, ln, w, ws):
        if len(w) > 2:
            raise Malformed(ln)
        if len(w) == 2:
            self.target(w[1], ln)

    def c_execute(self, ln, w, ws):
        i = 1
        while True:
            if i >= len(w):
                raise Malformed("execute without run: %r" % ln)
            if w[i] == "run":
                if i + 1 >= len(w):
                    raise Malformed(ln)
                self.cmd(ln[ws[i + 1][1]:])
                return
            j = i
            i, _ = self.vm._subcmd(ln, w, i, [])
            if w[j] in ("if", "unless") and w[j + 1] == "score":
                self.target(w[j + 2], ln)
                self.obj(w[j + 3], ln)
                if w[j + 4] != "matches":
                    self.target(w[j + 5], ln)
                    self.obj(w[j + 6], ln)
                else:
                    parse_range(w[j + 5])
            else:
                for x in w[j:i]:
                    if not isinstance(x, Q) and x.startswith("@"):
                        self.selector(x, ln)

    def json(self, ln, ws, n):
        if len(ws) <= n:
            raise Malformed(ln)
        try:
            js = json.loads(ln[ws[n][1]:])
        except ValueError:
            raise Malformed("bad JSON in %r" % ln)
        self.rawtext(js, ln)

    def rawtext(self, js, ln):
        if not isinstance(js, dict) or list(js) != ["rawtext"] or \
                not isinstance(js["rawtext"], list):
            raise Malformed("bad rawtext in %r" % ln)
        for c in js["rawtext"]:
            if not isinstance(c, dict):
                raise Malformed("bad component in %r" % ln)
            k = set(c)
            if k == {"text"} and isinstance(c["text"], str):
                pass
            elif k == {"selector"}:
                self.selector(c["selector"], ln)
            elif k == {"score"} and set(c["score"]) == {
                    "name", "objective"}:
                n = c["score"]["name"]
                if n.startswith("@"):
                    self.selector(n, ln)
                self.obj(c["score"]["objective"], ln)
            elif k in ({"translate"}, {"translate", "with"}) and \
                    isinstance(c["translate"], str):
                wi = c.get("with")
                if isinstance(wi, dict):
                    self.rawtext(wi, ln)
                elif wi is not None and not (
                        isinstance(wi, list) and
                        all(isinstance(x, str) for x in wi)):
                    raise Malformed("bad with in %r" % ln)
            else:
                raise Malformed("unknown component %r in %r" % (c, ln))

    def c_tellraw(self, ln, w, ws):
        self.target(w[1], ln)
        self.json(ln, ws, 2)

    def c_titleraw(self, ln, w, ws):
        if len(w) < 3:
            raise Malformed(ln)
        self.target(w[1], ln)
        if w[2] == "times":
            if len(w) != 6:
                raise Malformed(ln)
            for q in w[3:]:
                parse_int(q)
        elif w[2] in ("reset", "clear"):
            if len(w) != 3:
                raise Malformed(ln)
        elif w[2] in ("title", "subtitle", "actionbar"):
            self.json(ln, ws, 3)
        else:
            raise Malformed(ln)

    def c_summon(self, ln, w, ws):
        if len(w) < 5:
            raise Malformed(ln)
        self.vm.coords(w[2:5], Ctx())

    def c_tp(self, ln, w, ws):
        if len(w) < 3:
            raise Malformed(ln)
        self.target(w[1], ln)

    c_teleport = c_tp

    def c_schedule(self, ln, w, ws):
        if len(w) < 4 or w[1] != "on_area_loaded" or w[2] != "add":
            raise Malformed(ln)
        self.func(w[-1], ln)


# comments that generated programs write as raw commands
RAW = re.compile(r"# ?raw( \w+)*")


def lint(b, debug=False, extra_objs=(), src="", opaque_ok=True,
         spaces=True, entry=True):
    """All of a build's files.  Returns the Lint object."""
    from .h import _short
    x = Lint(b.files, opaque_ok)
    debug = debug or b.cfg.debug_comments
    where = None
    try:
        for path in sorted(b.files):
            text = b.files[path]
            for n, ln in enumerate(text.split("\n"), 1):
                where = "%s:%d" % (path, n)
                if ln == "" and n == text.count("\n") + 1:
                    continue
                if ln.startswith("#"):
                    if not debug and not RAW.fullmatch(ln):
                        raise Malformed("comment in output %r" % ln)
                    continue
                if debug and ln == "":
                    continue
                if spaces and ln != ln.strip() or "\r" in ln:
                    raise Malformed("stray white space %r" % ln)
                x.cmd(ln)
        where = "tick.json"
        if b.tick is not None and b.tick not in b.files:
            raise Malformed("tick function %r does not exist" % b.tick)
        for p in (b.main, b.init):
            if p == b.main and b.init and b.cfg.optimizer:
                continue    # not written when nothing is left in it
            if entry and p is not None and p not in b.files:
                raise Malformed("entry file %r does not exist" % p)
        where = "objectives"
        for o, ln in x.used.items():
            if o not in x.added and o not in extra_objs:
                raise Malformed("objective %r is never created: %r"
                                % (o, ln))
    except Malformed as e:
        raise Violation("bad output at %s: %s\n%s\n%s" % (
            where, e, _short(src), b.text()[:4000])) from None
    except IndexError:
        raise Violation("truncated command at %s: %s\n%s" % (
            where, _short(src), b.text()[:4000])) from None
    return x
