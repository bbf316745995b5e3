"""Contract of prefsampling.point: num_points points with num_dimensions coordinates."""
import samplelog


def cube(num_points, num_dimensions, center_point=None, widths=1, seed=None):
    samplelog.log("cube", {"num_points": num_points, "dim": num_dimensions, "center": center_point, "width": widths})
    return samplelog.points(num_points, num_dimensions)


def gaussian(num_points, num_dimensions, center_point=None, sigmas=1, widths=None, seed=None):
    samplelog.log("gaussian", {"num_points": num_points, "dim": num_dimensions, "center": center_point, "sigma": sigmas, "width": widths})
    return samplelog.points(num_points, num_dimensions)


def ball_uniform(num_points, num_dimensions, center_point=None, widths=1, only_envelope=False, seed=None):
    samplelog.log("ball_uniform", {"num_points": num_points, "dim": num_dimensions, "center": center_point, "width": widths, "envelope": only_envelope})
    return samplelog.points(num_points, num_dimensions)


def sphere_uniform(num_points, num_dimensions, center_point=None, widths=1, seed=None):
    samplelog.log("sphere_uniform", {"num_points": num_points, "dim": num_dimensions, "center": center_point, "width": widths})
    return samplelog.points(num_points, num_dimensions)


def ball_resampling(num_points, num_dimensions, inner_sampler, inner_sampler_args, center_point=None, width=1, max_numer_resampling=1000, seed=None):
    inner_sampler(**inner_sampler_args)
    samplelog.log("ball_resampling", {"num_points": num_points, "dim": num_dimensions, "center": center_point, "width": width})
    return samplelog.points(num_points, num_dimensions)
