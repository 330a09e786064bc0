"""Every history over a set of options, replayed from the start so that the code under test is never copied"""
import itertools


def walk(make, step, n_options, depth):
    """Run all histories

    Args:
        make: Creates a fresh object
        step: Called with the object, the history including this step, and whether the history was not seen before.
            Returns False to stop
        n_options: Number of options for each step
        depth: Number of steps
    Returns: whether all was explored
    """
    for path in itertools.product(range(n_options), repeat=depth):
        obj = make()
        for d in range(1, depth + 1):
            if step(obj, path[:d], not any(path[d:])) is False:
                return False
    return True
