"""Log of the sampler calls of one analysed execution (written by the prefsampling contract)."""
import random

CALLS = []
PARAMS = {}


def log(name, params):
    CALLS.append(name)
    for key, value in params.items():
        PARAMS[key] = value


def votes(num_voters, num_candidates, size=None):
    if size is None:
        return [{c for c in range(num_candidates) if random.random() < 0.5} for _ in range(num_voters)]
    return [set(range(size)) for _ in range(num_voters)]


def points(num_points, num_dimensions):
    return [[random.random() for _ in range(num_dimensions)] for _ in range(num_points)]
