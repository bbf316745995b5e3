"""Contract of prefsampling.ordinal (used through truncated_ordinal only)."""
import samplelog


def mallows(num_voters, num_candidates, phi, normalise_phi=False, central_vote=None, impartial_central_vote=False, seed=None):
    samplelog.log("mallows", {"phi": phi, "normalised": normalise_phi, "given": central_vote, "impartial": impartial_central_vote})
    return None


def norm_mallows(num_voters, num_candidates, norm_phi, central_vote=None, impartial_central_vote=False, seed=None):
    samplelog.log("norm_mallows", {"phi": norm_phi})
    return None


def urn(num_voters, num_candidates, alpha, seed=None):
    samplelog.log("ordinal.urn", {"alpha": alpha})
    return None


def impartial(num_voters, num_candidates, seed=None):
    samplelog.log("ordinal.impartial", {})
    return None
