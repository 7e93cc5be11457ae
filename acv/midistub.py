"""A stand-in for the package `mido` (not installed here): the same interface
as far as the music module uses it, fed from memory instead of files."""
import sys
import types


class Message:
    is_meta = False

    def __init__(self, type, time, **kw):
        self.type = type
        self.time = time
        self.__dict__.update(kw)

    def is_cc(self, control=None):
        return self.type == "control_change" and (
            control is None or self.control == control)

    def copy(self):
        return Message(self.type, **{k: v for k, v in self.__dict__.items()
                                     if k != "type"})


class MidiTrack(list):
    def copy(self):
        return MidiTrack(self)


FILES = {}


class MidiFile:
    def __init__(self, filename=None, *args, **kw):
        if filename not in FILES:
            raise FileNotFoundError(2, "No such file or directory", filename)
        d = FILES[filename]
        self.filename = filename
        self.type = d["type"]
        self.ticks_per_beat = d["tpb"]
        self.tracks = [MidiTrack(Message(**m) for m in t)
                       for t in d["tracks"]]


def install():
    m = types.ModuleType("mido")
    m.MidiFile = MidiFile
    m.MidiTrack = MidiTrack
    m.Message = Message
    sys.modules["mido"] = m
