"""P26: music plays the notes of the MIDI file at their times."""
import json
import os
from fractions import Fraction as F

from ..core import Check, Skip, need
from ..h import build, execute, same, try_build
from .. import midistub

RULE = ("at least three notes are heard, or a delay, stop or repetition "
        "took place; or the call has to be refused")
ASSUMPTIONS = [
    "the package mido is replaced by a stand-in with the same interface that "
    "is fed with generated messages (it is not installed here)",
    "the tick function runs once per game tick, after main ran",
    "a note that falls within 1e-6 of the middle of two ticks is not judged",
]

# General MIDI program -> sound
SOUNDS = dict(enumerate(json.load(open(os.path.join(os.path.dirname(
    os.path.dirname(os.path.abspath(__file__))), "p26_sounds.json")))))


def g_track(d, chans, tempo, n):
    out = []
    for _ in range(n):
        t = d.wpick((5, 0), (4, d.int(1, 60)), (3, d.int(1, 600)),
                    (1, d.int(1, 3)))
        c = d.pick(chans)
        k = d.wpick((10, "on"), (4, "off"), (1, "zero"), (2, "vol"),
                    (1, "cc"), (2, "prog"), (2 if tempo else 0, "tempo"),
                    (1, "meta"), (1, "bend"))
        m = {"time": t, "channel": c}
        if k in ("on", "off", "zero"):
            m.update(type="note_off" if k == "off" else "note_on",
                     note=d.pick([0, 21, 54, 60, 66, 78, 108, 127,
                                  d.int(0, 127)]),
                     velocity=0 if k == "zero" else
                     d.pick([1, 64, 100, 127, d.int(1, 127)]))
        elif k == "vol":
            m.update(type="control_change", control=7,
                     value=d.pick([0, 127, 64, d.int(0, 127)]))
        elif k == "cc":
            m.update(type="control_change", control=d.pick([1, 10, 64, 6, 8]),
                     value=d.int(0, 127))
        elif k == "prog":
            m.update(type="program_change",
                     program=d.pick([0, 9, 40, 127, d.int(0, 127),
                                     d.int(0, 127)]))
        elif k == "tempo":
            m = {"time": t, "type": "set_tempo",
                 "tempo": d.pick([500000, 250001, 1000000, 333333,
                                  d.int(100000, 2000000)])}
        elif k == "meta":
            m = {"time": t, "type": "track_name", "name": "x"}
        else:
            m.update(type="pitchwheel", pitch=d.int(-100, 100))
        out.append(m)
    if d.flip(70):
        out.append({"time": d.pick([0, 1, d.int(0, 300)]),
                    "type": "end_of_track"})
    return out


def g_instruments(d):
    """a song whose notes go through many instruments"""
    mine = d.sample(range(16), d.int(1, 16))
    out = []
    ps = d.sample(range(128), d.int(8, 40))
    for i, p in enumerate(ps):
        c = d.pick(mine)
        out.append({"time": 0, "channel": c, "type": "program_change",
                    "program": p})
        out.append({"time": d.pick([0, 0, d.int(1, 20)]), "channel": c,
                    "type": "note_on", "note": d.int(40, 90),
                    "velocity": d.int(1, 127)})
    return {"type": 0, "tpb": d.pick([24, 96, 480]), "tracks": [out]}


def g_song(d):
    if d.flip(12):
        return g_instruments(d)
    kind = d.pick([0, 1, 1])
    nt = 1 if kind == 0 else d.int(0 if d.flip(10) else 1, 3)
    chans = list(range(16))
    tracks = []
    for i in range(nt):
        mine = d.sample(chans, d.int(1, 3))
        if d.flip(40) and 9 in chans and 9 not in mine:
            mine.append(9)
        chans = [c for c in chans if c not in mine]
        tracks.append(g_track(d, mine, i == 0, d.int(0, 14)))
    return {"type": kind, "tpb": d.pick([24, 48, 96, 120, 480, 7,
                                         d.int(1, 960)]),
            "tracks": tracks}


def fl(d):
    return d.pick([0.25, 0.5, 1.0, 1.5, 2.0, 3.0, d.int(1, 400) / 100.0])


def g_play(d):
    songs = []
    for _ in range(d.wpick((4, 1), (1, 2))):
        o = {}
        if d.flip(45):
            o["looping"] = d.flip(80)
        if d.flip(40):
            o["loop_interval"] = d.pick([0, 1, 2, 7, d.int(0, 60)])
        if d.flip(30):
            o["listener"] = "pg"
        if d.flip(30):
            o["note_offset"] = d.pick([12, -12, 1, d.int(-24, 24)])
        if d.flip(40):
            o["chunk_size"] = d.pick([1, 2, 3, 10, 10000])
        if d.flip(40):
            o["speed"] = fl(d)
        if d.flip(40):
            o["volume"] = fl(d)
        if d.flip(35):
            o["channel_volume"] = [[c, d.pick([0.0, 0.5, 1.0, 2.0])]
                                   for c in d.sample(range(16), d.int(0, 5))]
        if d.flip(35):
            o["instrument"] = [[i, d.pick(["my.sound", "note.hat", "a.b_c"])]
                               for i in d.sample(
                                   [0, 127, 40, 9, d.int(1, 126)],
                                   d.int(0, 3)) if True]
            o["instrument"] = list(dict(
                (k, v) for k, v in o["instrument"]).items())
        songs.append([g_song(d), o])
    hist = []
    for _ in range(d.int(1, 5)):
        s = d.int(0, len(songs) - 1)
        k = d.wpick((5, "play"), (2, "at"), (2, "wait"), (2, "var"),
                    (2, "stop"))
        if k == "stop":
            hist.append([s, "stop"])
        elif k == "play":
            hist.append([s, "play", None])
        else:
            hist.append([s, k, {"at": d.int(0, 40), "var": d.int(-20, 40),
                                "wait": -d.int(1, 30)}[k]])
        hist.append([-1, "tick", d.wpick((3, d.int(0, 5)), (3, d.int(5, 60)),
                                         (3, "all"))])
    return {"songs": songs, "hist": hist,
            "cfg": d.pick([{}, {"optimizer": False},
                           {"debug_comments": True},
                           {"max_inline_file_size": 0}])}


class Song:
    """the notes of a song: tick -> sorted list of (sound, volume, pitch)"""

    def __init__(self, song, o):
        self.o = o
        speed = F(o.get("speed", 1.0))
        evs = []
        for i, t in enumerate(song["tracks"]):
            at = 0
            for j, m in enumerate(t):
                at += m["time"]
                evs.append((at, i, j, m))
        evs.sort(key=lambda e: e[:3])
        tempo, when, last = 500000, F(0), 0
        vol = dict.fromkeys(range(16), 100)
        prog = dict.fromkeys(range(16), 0)
        prog[9] = 127
        uvol = {c: 1.0 for c in range(16)}
        uvol.update(dict(map(tuple, o.get("channel_volume", []))))
        ins = dict(SOUNDS)
        ins.update(dict(map(tuple, o.get("instrument", []))))
        self.notes = {}
        self.count = 0
        step = lambda: F(tempo, 50000) / (song["tpb"] * speed)
        for at, i, j, m in evs:
            when += (at - last) * step()
            last = at
            k = m["type"]
            if k == "set_tempo":
                tempo = m["tempo"]
            elif k == "program_change":
                prog[m["channel"]] = m["program"]
            elif k == "control_change" and m["control"] == 7:
                vol[m["channel"]] = m["value"]
            elif k == "note_on" and m["velocity"]:
                c = m["channel"]
                v = m["velocity"] / 127 * vol[c] / 127 * uvol[c] * \
                    o.get("volume", 1.0)
                if v == 0:
                    continue
                frac = when - int(when)
                if abs(frac - F(1, 2)) < F(1, 10 ** 6):
                    raise Skip("a note between two ticks")
                p = 2.0 ** ((m["note"] + o.get("note_offset", 0) - 66) / 12)
                self.notes.setdefault(round(when), []).append(
                    (ins[prog[c]], v, p))
                self.count += 1
        self.lo = int(when)             # bounds of the length
        self.hi = int(when + step()) + 1
        self.t = None

    def heard(self):
        return self.notes.get(self.t, []) if self.t is not None else []

    def tick(self):
        """-> the notes of this tick"""
        n = self.heard()
        if self.t is None:
            return n
        if self.t <= self.len:
            self.t += 1
        if self.o.get("looping") and self.t == self.len + 1:
            self.t = -self.o.get("loop_interval", 50)
        return n


def render(o, path):
    a = ['"%s"' % path]
    for k, v in o.items():
        if k in ("channel_volume", "instrument"):
            v = "{%s}" % (", ".join("%d: %s" % (
                x, '"%s"' % y if isinstance(y, str) else repr(y))
                for x, y in v) or ":")
        a.append("%s=%s" % (k, v))
    return "music.Music(%s)" % ", ".join(a)


def close(got, want):
    return got[0] == want[0] and abs(got[1] - want[1]) <= 0.0051 and \
        abs(got[2] - want[2]) <= 0.00051


def run(case):
    midistub.install()
    src = ["import music", "import print", "pg := ExternEngroup()",
           'pg.select(Enfilter().all_players().has_tag("t"))']
    songs = []
    for i, (song, o) in enumerate(case["songs"]):
        midistub.FILES["s%d.mid" % i] = song
        songs.append(Song(song, o))
        src.append("const m%d = %s" % (i, render(o, "s%d.mid" % i)))
        src.append('print.tell("${m%d.LENGTH}")' % i)
    for n, h in enumerate(case["hist"]):
        if h[1] != "tick":
            src.append("interface h%d:" % n)
            call = {"stop": "stop()", "play": "play()"}.get(
                h[1]) or "play(%s)" % h[2]
            if h[1] == "var":
                src += ["    v := %d" % h[2], "    v += 0"]
                call = "play(v)"
            src.append("    m%d.%s" % (h[0], call))
    src = "\n".join(src) + "\n"
    b = build(src, **case["cfg"])
    vm = execute(b, None, src)
    lens = [int(e[2]) for e in vm.events if e[0] == "tellraw"]
    for s, n in zip(songs, lens):
        need(s.lo <= n <= s.hi and n >= max(s.notes, default=0),
             "LENGTH is %d, the last message is at %d\n%s\n%s", n, s.lo, src,
             case["songs"])
        s.len = n
    tags = [e for e in b.text().split("\n")
            if e.startswith("tag @a[tag=t] add ")]
    need(tags, "no selection of listeners\n%s", b.text()[:2000])
    tag = tags[0].split()[-1]
    pls = []
    for i in range(2):
        e = vm.add_ent("player", pos=(i * 10.0, 5.0 + i, 0.0))
        pls.append(e)
    pls[1].tags.add(tag)
    c = vm.add_ent("cow")
    c.tags.add(tag)
    heard = 0
    for n, h in enumerate(case["hist"]):
        if h[1] != "tick":
            s = songs[h[0]]
            if h[1] == "stop":
                s.t = s.len + 2
            else:
                t = h[2] or 0
                if t > s.len:
                    raise Skip("plays from behind the end")
                s.t = t
            execute(b, None, src, vm=vm, path="h%d" % n,
                    undef_ok=True)
            continue
        k = h[2] if h[2] != "all" else min(
            max(s.len for s in songs) + 70, 400)
        for _ in range(k):
            want = []
            for s in songs:
                to = pls[1:] if s.o.get("listener") else pls
                for x in s.tick():
                    want += [(p.uid, p.pos) + x for p in to]
            del vm.events[:]
            if b.tick:
                execute(b, None, src, vm=vm, path=b.tick, undef_ok=True)
            got = []
            for e in vm.events:
                w = e[1].split(" ") if e[0] == "cmd" else []
                need(len(w) == 8 and w[0] == "playsound" and
                     w[2:6] == ["@s", "~", "~", "~"],
                     "unexpected %r\n%s", e, src)
                got.append((e[2], e[3][:3], w[1], float(w[6]), float(w[7])))
            key = lambda x: (x[0], x[2], round(x[4], 2), x[3])
            got.sort(key=key)
            want.sort(key=key)
            rest = list(got)
            for x in want:
                for y in rest:
                    if y[0] == x[0] and tuple(y[1]) == tuple(x[1]) and \
                            close(y[2:], x[2:]):
                        rest.remove(y)
                        break
                else:
                    need(False, "the note %r is not heard (timers now %s): "
                         "heard %r\n%s\n%s\n%s", x, [s.t for s in songs], got,
                         src, case["songs"], case["hist"])
            need(not rest, "notes that do not belong here (timers now %s): "
                 "%r\n%s\n%s\n%s", [s.t for s in songs], rest, src,
                 case["songs"], case["hist"])
            heard += len(want)
    if not case["cfg"].get("optimizer", True):
        for i, s in enumerate(songs):
            most = max([len(x) for x in s.notes.values()], default=0)
            for f, t in b.files.items():
                n = t.count("playsound")
                need(n <= max(q.o.get("chunk_size", 500) - 1 + max(
                    [len(x) for x in q.notes.values()], default=0)
                    for q in songs), "%d commands in %s\n%s", n, f, src)
    return {"nontrivial": heard >= 3 or len(case["hist"]) > 3,
            "tags": ["heard" if heard else "silent"] +
            ["loop"] * any(s.o.get("looping") for s in songs)}


ERR = [
    'music.Music()', 'music.Music(1)', 'music.Music("none.mid")',
    'music.Music("t2.mid")', 'music.Music("s.mid", speed=0.0)',
    'music.Music("s.mid", speed=-1.0)', 'music.Music("s.mid", volume=0.0)',
    'music.Music("s.mid", volume=-0.5)', 'music.Music("s.mid", 1)',
    'music.Music("s.mid", chunk_size=0)',
    'music.Music("s.mid", chunk_size=True)',
    'music.Music("s.mid", channel_volume={16: 1.0})',
    'music.Music("s.mid", channel_volume={-1: 1.0})',
    'music.Music("s.mid", channel_volume={1: -1.0})',
    'music.Music("s.mid", channel_volume={"1": 1.0})',
    'music.Music("s.mid", instrument={128: "a"})',
    'music.Music("s.mid", instrument={1: 2})',
    'music.Music("s.mid", instrument=3)',
    'music.Music("s.mid", listener="@a")', 'music.Music("s.mid", listener=3)',
    'music.Music("s.mid", loop_interval=n)',
    'music.Music("s.mid", looping=n)', 'music.Music("s.mid", note_offset=1.5)',
    'music.Music("s.mid", nope=1)', 'music.Music("s.mid", path="s.mid")',
    'music.Music("s.mid", False, 1, pg, 0, 5, 1.0, 1.0, {:}, {:}, 3)',
    'm.play("x")', 'm.play(1.5)', 'm.play(1, 2)', 'm.play(True)', 'm.stop(1)',
    'm.nope()', 'm.LENGTH = 3', 'm()', 'm2 := m',
]
OK = [
    'music.Music("s.mid", listener=eg)',
    'music.Music("s.mid")', 'music.Music(path="s.mid")', 'm.play()',
    'm.play(3)', 'm.play(timer=-3)', 'm.play(n)', 'm.stop()',
    'n = m.LENGTH', 'const k = m', 'music.Music("s.mid", speed=2.5).play()',
    'music.Music("s.mid", False, 1, pg, 0, 5, 1.0, 1.0, {:}, {:})',
    'music.Music("s.mid", channel_volume={0: 0.0, 15: 2.0})',
    'music.Music("s.mid", instrument={0: "a", 127: "b"})',
]
MPRE = ('import music\npg := ExternEngroup()\npg.select(Enfilter()'
        '.all_players())\neg := ExternEngroup()\neg.select(Enfilter()'
        '.is_type("cow"))\nn := 1\nconst m = music.Music("s.mid")\n')


def g_refused(d):
    ok = d.flip(30)
    i = d.int(0, len(OK if ok else ERR) - 1)
    return {"ok": ok, "i": i, "pad": d.int(0, 3),
            "ctx": d.pick(["", "if", "def", "inline", "iface"]),
            "nomido": d.flip(5)}


def run_refused(case):
    import sys
    midistub.install()
    song = {"type": 1, "tpb": 96, "tracks": [[
        dict(type="note_on", time=0, channel=0, note=60, velocity=9)]]}
    midistub.FILES.clear()
    midistub.FILES.update({"s.mid": song, "t2.mid": dict(song, type=2)})
    frag = (OK if case["ok"] else ERR)[case["i"]]
    head = {"": [], "if": ["if n > 0:"], "def": ["def f():"],
            "inline": ["inline def f():"], "iface": ["interface a/b:"]}[
                case["ctx"]]
    pre = MPRE + "n += 1\n" * case["pad"]
    src = pre + "\n".join(head) + "\n" * bool(head) + \
        "    " * bool(head) + frag + "\n"
    line = src.count("\n")
    if case["ctx"] == "inline":
        src += "f()\n"
    ok = case["ok"]
    if case["nomido"]:
        sys.modules["mido"] = None
        ok, line = False, 1
    try:
        if ok:
            build(src)
            return {"nontrivial": True, "tags": ["accepted"]}
        out, r = try_build(src)
    finally:
        midistub.install()
    need(out == "rejected", "accepted although invalid: %s\n%s", frag, src)
    need((":%d:" % line) in r.text.strip().split("\n")[-1],
         "the offence is in line %d: %s\n%s", line, r.text, src)
    return {"nontrivial": True, "tags": ["refused"]}


CHECKS = [
    Check("songs", g_play, run, 2500, 50000),
    Check("refused", g_refused, run_refused, 800, 5000),
]
