"""Contract of preflibtools.instances used by abcvoting: an instance that is written is what is parsed from the file."""
import iostub


class PrefLibInstance:
    def __init__(self):
        self.file_path = ""
        self.file_name = ""
        self.data_type = ""
        self.modification_type = ""
        self.title = ""
        self.description = ""
        self.num_alternatives = 0
        self.alternatives_name = {}
        self.num_voters = 0
        self.recomputed = False

    def recompute_cardinality_param(self):
        self.recomputed = True

    def write(self, filepath):
        iostub.FILES[filepath] = self


class OrdinalInstance(PrefLibInstance):
    def __init__(self, file_path=""):
        super().__init__()
        self.num_unique_orders = 0
        self.multiplicity = {}
        self.orders = []


class MatchingInstance(PrefLibInstance):
    def __init__(self, file_path=""):
        super().__init__()


class CategoricalInstance(PrefLibInstance):
    def __init__(self, file_path=""):
        super().__init__()
        self.num_unique_preferences = 0
        self.multiplicity = {}
        self.num_categories = 0
        self.categories_name = {}
        self.preferences = []

    @classmethod
    def from_ordinal(cls, instance, num_indif_classes=None, size_truncators=None, relative_size_truncators=None, category_name=None):
        r = cls()
        r.converted = (num_indif_classes, size_truncators)
        r.num_alternatives = instance.num_alternatives
        r.alternatives_name = instance.alternatives_name
        for order in instance.orders:
            r.preferences.append(order)
            r.multiplicity[order] = instance.multiplicity[order]
        return r


def get_parsed_instance(file_path):
    r = iostub.FILES[file_path]
    if r is None:
        raise OSError("malformatted")
    return r
