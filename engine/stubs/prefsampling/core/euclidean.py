"""Contract of prefsampling.core.euclidean.sample_election_positions."""
import samplelog


def _positions(num_points, num_dimensions, positions):
    if positions is None:
        raise ValueError("neither points nor a sampler")
    if callable(positions):
        positions = positions(num_dimensions=num_dimensions, seed=None, num_points=num_points)
    return positions


def sample_election_positions(num_voters, num_candidates, num_dimensions, voters_positions, candidates_positions,
                              voters_positions_args=None, candidates_positions_args=None, seed=None):
    if num_dimensions < 0:
        raise ValueError("number of dimensions")
    samplelog.log("positions", {"pos_voters": num_voters, "pos_candidates": num_candidates, "pos_dimensions": num_dimensions})
    voters_pos = _positions(num_voters, num_dimensions, voters_positions)
    candidates_pos = _positions(num_candidates, num_dimensions, candidates_positions)
    samplelog.PARAMS["voters_pos"] = voters_pos
    samplelog.PARAMS["candidates_pos"] = candidates_pos
    return voters_pos, candidates_pos
