"""harness shared by R01, A01, A02"""
from .. import core


def build():
    core.build_libs(("eckit",))
    return core.build_harness("t_pipe", [], ["t_pipe.cc", "eckit/io/AsyncHandle.cc", "eckit/io/DblBuffer.cc", "eckit/thread/Thread.cc"], sched=True)
