"""Contract of files, interpreted (never executed) instead of the builtin open()."""
import random

FILES = {}
OPENED = []
MAYFAIL = False  # whether reading and writing can fail


class File:
    def __init__(self, name, mode):
        self.name = name
        self.mode = mode
        self.closed = False
        OPENED.append(self)

    def __enter__(self):
        return self

    def __exit__(self, kind, value, tb):
        self.closed = True
        return False

    def close(self):
        self.closed = True


def open(name, mode="r", *args, **kwargs):
    return File(name, mode)


def fail():
    if MAYFAIL and random.random() < 0.5:
        raise OSError("input or output failed")


def put(stream, data):
    if stream.closed or not stream.mode.startswith(("w", "x", "a")):
        raise RuntimeError("the stream is not open for writing")
    fail()
    FILES[stream.name] = data


def get(stream):
    if stream.closed or stream.mode.startswith(("w", "x", "a")):
        raise RuntimeError("the stream is not open for reading")
    fail()
    return FILES[stream.name]
