"""client of Monitor.starting, interpreted together with the context manager"""


class Stop(Exception):
    pass


def task(m, label, total, mode):
    with m.starting(label, total_work=total) as mm:
        assert mm is m
        if mode == 1:
            raise Stop()
        if mode == 2:
            return 2
    return 0
