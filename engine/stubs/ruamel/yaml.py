"""Contract of ruamel.yaml: what is dumped into a stream is what load() returns for that file."""
import iostub


class _Format:
    def set_flow_style(self):
        return None

    def set_block_style(self):
        return None


class comments:
    class CommentedSeq(list):
        fa = _Format()

    class CommentedMap(dict):
        fa = _Format()


class YAML:
    def __init__(self, *, typ=None, pure=False, output=None, plug_ins=None):
        self.typ = typ
        self.pure = pure
        self.width = None
        self.default_flow_style = None
        self.indent = None

    def dump(self, data, stream=None):
        iostub.put(stream, data)

    def load(self, stream):
        return iostub.get(stream)
