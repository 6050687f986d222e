"""Lets the simulator fail an import of a target module, and switch threads inside it."""
fail_next = {}  # thread -> name of the point that raises
thread = lambda: -1
switch = lambda: None
count = [0]


def point(name):
    switch()
    if fail_next.get(thread()) == name:
        del fail_next[thread()]
        count[0] += 1
        raise ImportError("simulated failure of importing " + name)
