"""Start-up hook of the real daemon (`pafd -r sim.hook.attach`), by which the
harness gets at the server objects of a simulated process (used only to
measure what they retain, never to decide what the server does)."""

import threading

tls = threading.local()


def attach(servers):
    tls.node.servers = list(servers)
