"""Contract of prefsampling.approval: num_voters ballots, subsets of range(num_candidates)."""
import samplelog
from samplelog import votes


class SetDistance:
    HAMMING = "SetDistance.HAMMING"
    JACCARD = "SetDistance.JACCARD"
    ZELINKA = "SetDistance.ZELINKA"
    BUNKE_SHEARER = "SetDistance.BUNKE_SHEARER"


def impartial(num_voters, num_candidates, p, seed=None):
    samplelog.log("impartial", {"num_voters": num_voters, "num_candidates": num_candidates, "p": p})
    return votes(num_voters, num_candidates)


def impartial_constant_size(num_voters, num_candidates, rel_num_approvals, seed=None):
    size = int(rel_num_approvals * num_candidates)
    samplelog.log("impartial_constant_size", {"num_voters": num_voters, "num_candidates": num_candidates, "rel": rel_num_approvals, "size": size})
    return votes(num_voters, num_candidates, size)


def urn(num_voters, num_candidates, p, alpha, seed=None):
    samplelog.log("urn", {"num_voters": num_voters, "num_candidates": num_candidates, "p": p, "alpha": alpha})
    return votes(num_voters, num_candidates)


def urn_constant_size(num_voters, num_candidates, rel_num_approvals, alpha, seed=None):
    size = int(rel_num_approvals * num_candidates)
    samplelog.log("urn_constant_size", {"num_voters": num_voters, "num_candidates": num_candidates, "rel": rel_num_approvals, "size": size, "alpha": alpha})
    return votes(num_voters, num_candidates, size)


def truncated_ordinal(num_voters, num_candidates, rel_num_approvals, ordinal_sampler, ordinal_sampler_parameters, seed=None):
    size = int(rel_num_approvals * num_candidates)
    ordinal_sampler(num_voters=num_voters, num_candidates=num_candidates, seed=seed, **ordinal_sampler_parameters)
    samplelog.log("truncated_ordinal", {"num_voters": num_voters, "num_candidates": num_candidates, "rel": rel_num_approvals, "size": size})
    return votes(num_voters, num_candidates, size)


def resampling(num_voters, num_candidates, phi, rel_size_central_vote, central_vote=None, impartial_central_vote=False, seed=None):
    samplelog.log("resampling", {"num_voters": num_voters, "num_candidates": num_candidates, "phi": phi, "central": rel_size_central_vote,
                                 "given": central_vote, "impartial": impartial_central_vote})
    return votes(num_voters, num_candidates)


def disjoint_resampling(num_voters, num_candidates, phi, rel_size_central_vote, num_central_votes=None, central_votes=None, impartial_central_votes=False, seed=None):
    samplelog.log("disjoint_resampling", {"num_voters": num_voters, "num_candidates": num_candidates, "phi": phi, "central": rel_size_central_vote,
                                          "groups": num_central_votes, "given": central_votes, "impartial": impartial_central_votes})
    return votes(num_voters, num_candidates)


def noise(num_voters, num_candidates, phi, rel_size_central_vote, distance=SetDistance.HAMMING, central_vote=None, impartial_central_vote=False, seed=None):
    samplelog.log("noise", {"num_voters": num_voters, "num_candidates": num_candidates, "phi": phi, "central": rel_size_central_vote, "distance": distance,
                            "given": central_vote, "impartial": impartial_central_vote})
    return votes(num_voters, num_candidates)


def identity(num_voters, num_candidates, rel_num_approvals, seed=None):
    samplelog.log("identity", {"num_voters": num_voters, "num_candidates": num_candidates, "rel": rel_num_approvals})
    return votes(num_voters, num_candidates)


def euclidean_constant_size(num_voters, num_candidates, rel_num_approvals, num_dimensions, voters_positions, candidates_positions,
                            voters_positions_args=None, candidates_positions_args=None, seed=None):
    size = int(rel_num_approvals * num_candidates)
    samplelog.log("euclidean_constant_size", {"num_voters": num_voters, "num_candidates": num_candidates, "rel": rel_num_approvals, "size": size,
                                              "num_dimensions": num_dimensions, "voters_positions": voters_positions, "candidates_positions": candidates_positions})
    return votes(num_voters, num_candidates, size)


def euclidean_threshold(num_voters, num_candidates, threshold, num_dimensions, voters_positions, candidates_positions,
                        voters_positions_args=None, candidates_positions_args=None, seed=None):
    samplelog.log("euclidean_threshold", {"num_voters": num_voters, "num_candidates": num_candidates, "threshold": threshold,
                                          "num_dimensions": num_dimensions, "voters_positions": voters_positions, "candidates_positions": candidates_positions})
    return votes(num_voters, num_candidates)


def euclidean_vcr(num_voters, num_candidates, voters_radius, candidates_radius, num_dimensions, voters_positions, candidates_positions,
                  voters_positions_args=None, candidates_positions_args=None, seed=None):
    samplelog.log("euclidean_vcr", {"num_voters": num_voters, "num_candidates": num_candidates, "voters_radius": voters_radius, "candidates_radius": candidates_radius,
                                    "num_dimensions": num_dimensions, "voters_positions": voters_positions, "candidates_positions": candidates_positions})
    return votes(num_voters, num_candidates)
