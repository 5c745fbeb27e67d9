"""Which simulations decide which property.

plan: list of (scenario, source file, {variant: weight}); the time of a check is divided by the weights.
"""
ALLV = {"epoll": 4, "plain": 3, "poll": 2, "kqueue": 1, "archfb": 1, "threadfb": 1, "nothreads": 1, "clang": 2}  # kqueue: BSD's interface, which only the simulator provides here
WEIGHT = dict(ALLV, census=1, mt=3, mtfb=2, mtplain=3)  # the last ones switch threads at basic blocks
Q = {"epoll": 3, "plain": 2}
P = {}
NA = {}

def prop(pid, nontrivial, *plan):
    P[pid] = {"plan": list(plan), "nontrivial": nontrivial}

def sc(name, src, weight=1, quick=("epoll", "plain"), thorough=tuple(ALLV)):
    return {"scenario": name, "src": src, "weight": weight, "quick": quick, "thorough": thorough}

prop("C01", "at least one message was matched between two coroutines", sc("chan", "s_chan.cpp"))
prop("C02", "at least one choose was performed", sc("chan", "s_chan.cpp"))
prop("C03", "a channel was ended or closed while in use", sc("chan", "s_chan.cpp"))
prop("C04", "a sleep or a timeout completed", sc("core", "s_core.cpp"))
prop("C05", "at least one coroutine was canceled", sc("core", "s_core.cpp"))
prop("C06", "at least one bundle_wait was performed", sc("core", "s_core.cpp"))
V4 = ("epoll", "plain", "poll", "archfb")
for p in ("C04", "C05", "C06"):
    for s in P[p]["plan"]: s["quick"] = V4
P["C04"]["plan"].append(sc("timers", "s_core2.cpp", 1, ("epoll", "plain", "poll")))
prop("C07", "handles were created, queried, transferred and closed", sc("handles", "s_core2.cpp", 3), sc("core", "s_core.cpp"))
prop("C08", "coroutines yielded while others waited", sc("fair", "s_core2.cpp", 1, ("epoll", "plain", "poll")), sc("core", "s_core.cpp", 1, V4))
prop("C09", "coroutines were suspended and resumed with live data on their stacks", sc("stack", "s_core2.cpp", 3, V4 + ("clang", "census"), tuple(ALLV) + ("census",)), sc("core", "s_core.cpp", 1, V4))
prop("C29", "the clock was read repeatedly", sc("clock", "s_core2.cpp", 2), sc("core", "s_core.cpp"))
prop("C10", "a wait for a descriptor ended with success or a timeout", sc("fds", "s_fd.cpp", 3, V4 + ("kqueue",)), sc("core", "s_core.cpp", 1, ("epoll", "poll")))
prop("C11", "bytes were transferred", sc("stream", "s_stream.cpp", 3, V4))
prop("C12", "a direction of a connection ended", sc("stream", "s_stream.cpp", 3, V4))
prop("C13", "operations overlapped, timed out or were canceled", sc("stream", "s_stream.cpp", 3, V4), sc("sendfd", "s_conn.cpp", 1, ("epoll", "poll")))
prop("C14", "at least one connection was established", sc("accept", "s_conn.cpp", 3, V4))
prop("C15", "a descriptor was passed or an error was reported", sc("sendfd", "s_conn.cpp", 3, V4))
prop("C16", "messages were exchanged", sc("prefix", "s_msg.cpp", 3, V4))
prop("C17", "messages were exchanged", sc("suffix", "s_msg.cpp", 3, V4))
prop("C18", "messages were exchanged", sc("term", "s_msg.cpp", 3, V4))
prop("C19", "messages were exchanged or handshakes attempted", sc("ws", "s_ws.cpp", 3, V4), sc("wshostile", "s_ws.cpp", 1, ("epoll", "plain")))
prop("C20", "lines were exchanged", sc("http", "s_http.cpp", 3, V4), sc("httphostile", "s_http.cpp", 1, ("epoll", "plain")))
prop("C30", "bytes from a misbehaving peer were processed", sc("msghostile", "s_msg.cpp", 1, ("epoll", "plain")), sc("httphostile", "s_http.cpp", 1, ("epoll", "plain")), sc("wshostile", "s_ws.cpp", 1, ("epoll", "plain")))
prop("C21", "a negotiation was attempted", sc("socks", "s_socks.cpp", 3, V4), sc("sockshostile", "s_socks.cpp", 1, ("epoll", "plain")))
prop("C23", "packets were exchanged", sc("udp", "s_udp.cpp", 3, V4))
P["C30"]["plan"].append(sc("sockshostile", "s_socks.cpp", 1, ("epoll", "plain")))
prop("C25", "names were looked up", sc("dns", "s_dns.cpp", 3, V4), sc("dnshostile", "s_dns.cpp", 1, ("epoll", "plain")), sc("iface", "s_dns.cpp", 0.4, ("epoll", "plain")))
P["C30"]["plan"].append(sc("dnshostile", "s_dns.cpp", 1, ("epoll", "plain")))
prop("C22", "a TLS connection was established or timed out", sc("tls", "s_tls.cpp", 3, V4), sc("tlshostile", "s_tls.cpp", 1, ("epoll", "plain")))
prop("C24", "connections were attempted", sc("he", "s_he.cpp", 3, V4))
P["C30"]["plan"].append(sc("tlshostile", "s_tls.cpp", 1, ("epoll", "plain")))
prop("C26", "a call failed for lack of a resource", sc("res", "s_res.cpp", 3, V4), sc("resinit", "s_res.cpp", 0.05, ("epoll", "poll", "threadfb")))
prop("C27", "a protocol stack was built", sc("layers", "s_layers.cpp", 3, V4 + ("census",), tuple(ALLV) + ("census",)), sc("res", "s_res.cpp", 1, V4))
MT = ("mt", "mtfb", "mtplain")
prop("C28", "at least two threads used the library", sc("threads", "s_threads.cpp,s_chan.cpp,s_core.cpp,s_stream.cpp", 1, MT, MT))
# what a property says about every blocking call is checked in the scenarios of those calls, too
E2 = ("epoll", "plain")
def also(pids, name, src, weight=0.34, quick=E2):
    for p in pids.split(): P[p]["plan"].append(sc(name, src, weight, quick))
also("C04 C05 C08", "chan", "s_chan.cpp"); also("C04 C05 C08", "fds", "s_fd.cpp"); also("C04 C05 C08", "stream", "s_stream.cpp"); also("C04 C05", "accept", "s_conn.cpp")
also("C04 C05", "tls", "s_tls.cpp"); also("C13", "tls", "s_tls.cpp"); also("C13", "prefix", "s_msg.cpp"); also("C13", "suffix", "s_msg.cpp"); also("C13", "ws", "s_ws.cpp"); also("C13", "http", "s_http.cpp")
also("C04", "udp", "s_udp.cpp"); also("C04", "dns", "s_dns.cpp"); also("C04", "he", "s_he.cpp"); also("C04", "socks", "s_socks.cpp"); also("C04 C05", "ws", "s_ws.cpp"); also("C04 C05", "http", "s_http.cpp"); also("C04 C05", "prefix", "s_msg.cpp"); also("C04", "suffix", "s_msg.cpp"); also("C04", "term", "s_msg.cpp")
also("C27", "stream", "s_stream.cpp"); also("C27", "accept", "s_conn.cpp"); also("C27", "ws", "s_ws.cpp"); also("C27", "http", "s_http.cpp"); also("C27", "tls", "s_tls.cpp"); also("C27", "core", "s_core.cpp"); also("C27", "chan", "s_chan.cpp"); also("C27", "fds", "s_fd.cpp")
