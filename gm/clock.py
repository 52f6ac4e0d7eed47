"""Frozen time for a case."""
import contextlib
import datetime

import freezegun

EPOCH = datetime.datetime(1970, 1, 1)


def at(seconds):
    return EPOCH + datetime.timedelta(seconds=seconds)


@contextlib.contextmanager
def frozen(seconds):
    """Yields a function that moves the frozen clock to a UTC timestamp."""
    with freezegun.freeze_time(at(seconds)) as f:
        yield lambda s: f.move_to(at(s))
