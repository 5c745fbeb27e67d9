import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
S=["schedules","histories"];F=["schedules","histories","fault_sequences"]
p("C01","Channel messages are delivered exactly once, intact and in order",
 "Every message whose channel send reports success is obtained, with identical bytes, by exactly one receive that reports success, and every successful receive obtains exactly one such message; a send or receive that fails, times out or is canceled transfers nothing. Coroutines blocked on the same side of a channel are served in the order in which they blocked. When the sizes of a matched send and receive differ, both fail with EMSGSIZE and nothing is transferred.",
 S,"all interleavings of sends, receives, chooses, timeouts and cancellations by any number of coroutines on any number of channels",
 "tests/chan.c runs about a dozen fixed two- or three-coroutine schedules; a lost, duplicated or reordered message needs a particular order of block, timeout, cancel and wake-up.",
 ["chan.c","cr.c"],[("direct hand-off between the waiting clause and the arriving party","chan.c dill_chsend/dill_chrecv"),("clauses are unlinked when the waiter is resumed","cr.c dill_docancel, chan.c dill_chcancel")],
 [("waiting senders/receivers","parties blocked on each half of a channel","chan.c struct dill_halfchan in/out")],["chsend/chrecv/choose return value, errno and buffer"])
p("C02","Choose performs exactly one clause, the earliest possible one",
 "A choose completes at most one of its clauses: the earliest-listed one if any can proceed at once, otherwise the first that becomes possible while it waits, and it returns that clause's index with the clause's outcome in errno. Its other clauses transfer no data, then or later, and if the deadline expires or the caller is canceled no clause has any effect. A clause that is malformed, refers to a bad or non-channel handle or to a finished channel is reported by its index and errno.",
 S,"all clause lists (mixed directions, repeated channels, many clauses), contending chooses and plain operations, deadlines and cancellations",
 "tests/choose.c samples fixed clause lists with one or two peers; whether a losing clause stays registered or two clauses fire only shows under particular contention.",
 ["chan.c","cr.c"],[("clause scan in array order, then registration of all clauses","chan.c dill_choose"),("all clauses canceled when one triggers","cr.c dill_docancel")],[],["choose return value, errno and buffers"])
p("C03","Ending or closing a channel wakes every blocked party with EPIPE",
 "After chdone on one side, every operation in that direction, already blocked or issued later, fails with EPIPE, messages exchanged earlier are unaffected, the opposite direction keeps working, and a second chdone in the same direction fails with EPIPE. When both handles of a channel are closed, every coroutine still blocked on it is resumed with EPIPE and none stays blocked forever.",
 S,"all moments at which chdone or hclose happens relative to blocked, timing-out and canceled senders, receivers and chooses",
 "tests end channels with at most two waiters in fixed order; wake-up of all waiters while some are timing out or in a multi-channel choose is not reached.",
 ["chan.c"],[("done flag and trigger of all waiting clauses","chan.c dill_chdone, dill_halfchan_close, dill_halfchan_term")],[("done","direction has been ended","chan.c struct dill_halfchan"),("closed","handle closed","chan.c struct dill_halfchan")],["errno of channel operations"])
p("C04","Deadlines fire never early, promptly, in order, at any distance",
 "A blocking call with a deadline never reports a timeout while the current time is before the deadline, and once the deadline has passed it ends within the clock's granularity plus whatever time other coroutines hold the CPU. Deadline 0 never waits, a negative deadline never expires, an arbitrarily distant deadline is neither early nor lost, and sleepers with different deadlines wake in deadline order. A call that completes or is canceled leaves nothing behind that later affects it or another call.",
 F,"all sets of concurrent deadlines (past, equal, near, beyond 2^31 ms), clock granularities, process stalls, signal interruptions and cancellations",
 "tests/sleep.c sleeps a few fixed times in real time with 20 ms to 1 s tolerance; they cannot reach month-long deadlines, coarse clocks, stalls or timer-tree shapes.",
 ["cr.c","now.c","rbtree.c","libdill.c"],[("ordered tree of timers","rbtree.c"),("poll timeout derived from the earliest timer","cr.c dill_wait"),("timers fired when due","cr.c dill_wait")],
 [("timers","all pending deadlines","cr.c struct dill_ctx_cr timers")],["return of msleep and of any call with a deadline versus the simulated clock"])
p("C05","Canceling coroutines is prompt, complete and confined",
 "When hclose is called on a bundle or coroutine handle, every coroutine in it that is blocked resumes with ECANCELED, every blocking call and coroutine launch it makes from then on fails immediately with ECANCELED, and hclose returns only after all of them have run to completion. Coroutines outside the bundle are not canceled, and no operation that was canceled has a later effect. Closing nested bundles, bundles that include never-run, already finished or itself-closing coroutines, works likewise.",
 S,"all bundle shapes and nesting, all points (blocked on any primitive, ready, never started, finishing, closing another bundle) at which cancellation hits",
 "tests/bundle.c and tests/go.c cancel coroutines blocked in a couple of primitives in fixed order; cancellation landing on a just-woken or itself-closing coroutine is not reached.",
 ["cr.c","handle.c"],[("no-blocking flag and resume with ECANCELED","cr.c dill_cr_close, dill_canblock"),("closer is resumed at completion","cr.c dill_epilogue")],
 [("closer","coroutine waiting in hclose","cr.h struct dill_cr")],["return and errno of blocking calls, order of completion versus hclose return"])
p("C06","Waiting for a bundle ends exactly when its coroutines have finished",
 "bundle_wait succeeds if and only if every coroutine launched in the bundle has finished, immediately if none is running and otherwise as soon as the last one finishes. If the deadline comes first it fails with ETIMEDOUT, no earlier than the deadline and with the coroutines untouched, and the bundle can be waited on again, extended with more coroutines, or closed. It never hangs once the last coroutine is gone, whatever the timing.",
 S,"all relative timings of the waiter's deadline, its cancellation, and the launch and completion of the bundle's coroutines, including ties",
 "tests/bundle.c waits a handful of fixed times; completion of the last coroutine in the same tick as the waiter's deadline or cancellation is not reached.",
 ["cr.c"],[("waiter clause triggered by the last coroutine","cr.c dill_bundle_wait, dill_epilogue")],[("waiter","coroutine blocked in bundle_wait","cr.c struct dill_bundle")],["bundle_wait result versus set of finished coroutines"])
p("C07","Handles are unique while open, stale ones are rejected, close runs once",
 "A newly created handle never equals one that is still open, a query on an open handle always reaches its own object, and any operation on a closed, transferred-away or never-created handle fails with EBADF. Closing runs the object's close routine exactly once, inside which blocking calls fail with ECANCELED, even when handles are created, closed or transferred concurrently with or inside that routine. Transferring ownership gives a new number for the same object and invalidates the old one.",
 S,"all histories of handle creation, query, transfer and (nested, blocking) close, of any length",
 "tests/handle.c makes a few handles; growth of the table during a close, reuse order after thousands of operations and close re-entrance are not reached.",
 ["handle.c"],[("table with a free list","handle.c dill_hmake/dill_hclose"),("query cache","handle.c dill_hquery")],[("handle table","open handles and free list","handle.c struct dill_ctx_handle")],["hmake/hquery/hclose/hown results, close callbacks"])
p("C08","No ready coroutine starves and no wake-up is lost",
 "Every coroutine that is able to run is run again after each other runnable coroutine has run a bounded number of times, so yielding coroutines take turns. Descriptor events and expired deadlines are noticed within about a second even if other coroutines keep yielding forever, and immediately when everything else is blocked. A blocked coroutine whose wake-up condition holds is always eventually resumed, including when waits are interrupted by signals.",
 F,"all mixes of yielding, computing, sleeping and I/O-waiting coroutines, event orders, stalls and interrupted waits",
 "no test runs busy coroutines against timers and descriptors, and none delivers a signal during the wait.",
 ["cr.c","epoll.c.inc","poll.c.inc","qlist.h"],[("FIFO ready queue","cr.c dill_resume/dill_wait"),("poll at least once a second when busy","cr.c dill_wait"),("EINTR retried","cr.c dill_wait, epoll.c.inc")],[("ready","runnable coroutines","cr.h struct dill_ctx_cr")],["order of execution, delay from condition to resumption"])
p("C09","Each coroutine keeps its own stack, registers and arguments",
 "Whatever other coroutines run in between, a coroutine resumes with its arguments, local variables, call chain and callee-saved registers unchanged, also when its stack memory was used before or is supplied by the user. Stacks of live coroutines never overlap, overrunning a library-allocated stack faults instead of corrupting other memory, and user-supplied memory outside the given block is never touched.",
 S,"all interleavings of coroutine creation, nesting, completion and stack reuse, and all user-supplied stack sizes and alignments",
 "tests/go.c and tests/stack.c create few coroutines; reuse of cached stacks among hundreds of interleaved coroutines and odd memory blocks are not reached.",
 ["cr.c","stack.c","libdill.h"],[("context save/restore","libdill.h dill_setjmp/dill_longjmp/dill_setsp"),("stack cache and guard page","stack.c")],[("stack cache","recycled stacks","stack.c struct dill_ctx_stack")],["canaries held in locals and registers across switches"])
p("C10","Waiting on a descriptor ends exactly when it is ready or timed out",
 "fdin and fdout succeed only when the descriptor is readable, respectively writable, or in an error or hang-up state, and do so promptly once it is; otherwise they time out at the deadline or are canceled. A reader and a writer may wait on one descriptor independently, a second waiter in the same direction gets EBUSY, an invalid descriptor gets EBADF, and neither disturbs existing waiters. After fdclean a descriptor number can be closed and reused without inheriting any state.",
 F,"all orders of readiness changes, waits, timeouts, cancellations, cleans and descriptor-number reuse, in both polling back ends",
 "tests/fd.c uses one socket pair with a few waits; stale registrations after timeouts, hang-ups without waiter and reuse of numbers are not reached.",
 ["epoll.c.inc","poll.c.inc","pollset.c","libdill.c"],[("lazy registration with the kernel","epoll.c.inc dill_pollset_poll"),("per-descriptor waiters","epoll.c.inc/poll.c.inc dill_pollset_in/out/clean")],[("fdinfos / pollset slots","who waits for what","epoll.c.inc, poll.c.inc")],["fdin/fdout results versus simulated descriptor state"])
p("C11","TCP and IPC byte streams deliver all bytes, in order, unaltered",
 "The bytes a receiver obtains are always a prefix of the bytes passed to the peer's sends, in order and unaltered; a send that succeeds has handed over all its bytes and a receive that succeeds has filled exactly the requested length. This holds for single buffers and scatter/gather lists of any shape, for skipped (NULL) buffers, and for any splitting, delaying or back-pressure by the network. Caller-supplied lists and send buffers are left unmodified, and invalid lists are rejected with EINVAL without transferring data.",
 F,"all message sizes, list shapes, segmentations, partial reads/writes, buffer limits and delays, with concurrent traffic in both directions",
 "tests/tcp.c and tests/ipc.c send a few short buffers over the loopback, where nearly every call completes in one system call.",
 ["tcp.c","ipc.c","fd.c","iol.c","bsock.c"],[("receive buffering and batching","fd.c dill_fd_recv"),("partial-write continuation","fd.c dill_fd_send"),("list checks","iol.c")],[("rxbuf","unread bytes","fd.h struct dill_fd_rxbuf")],["bytes received versus bytes sent"])
p("C12","Stream shutdown delivers everything first and completes the handshake",
 "After a stream's outbound side is ended with done or close, the peer receives every byte sent before and then EPIPE, never a reset or silent loss, while data in the opposite direction keeps flowing until its own end. A clean close succeeds only after the peer has ended its side too; if that cannot happen by the deadline, or the peer breaks the connection, it returns an error, and in every case the socket and its handle are released. Ending or sending on a side already ended fails with EPIPE.",
 F,"all orders of done, close, remaining data, peer close, peer reset and deadlines on both ends",
 "tests perform one handshake with no data in flight and no faults.",
 ["tcp.c","ipc.c","fd.c"],[("half-close and drain","tcp.c dill_tcp_done/dill_tcp_close, ipc.c"),("sticky direction state","tcp.c indone/outdone/inerr/outerr")],[("indone/outdone/inerr/outerr","state of each direction","tcp.c, ipc.c")],["return/errno of done, close, recv on both peers"])
p("C13","A failed or busy socket direction is reported consistently",
 "After a byte or message transfer in one direction fails, including by timeout or cancellation, later calls in that direction fail at once with an error and never deliver or emit partial, shifted or duplicated data, while the other direction stays usable unless the connection is broken. While a coroutine is transferring in a direction, another attempt in that direction fails with EBUSY and disturbs nothing. The socket can always still be closed, releasing everything.",
 F,"all points within a transfer at which a deadline, cancellation, reset or second caller can hit",
 "tests check a single timeout on an idle socket; failure in mid-message is not reached.",
 ["tcp.c","ipc.c","prefix.c","suffix.c","fd.c"],[("error flags per direction","tcp.c, ipc.c, prefix.c, suffix.c"),("busy flags","tcp.c, ipc.c rbusy/sbusy")],[("inerr/outerr, rbusy/sbusy","direction broken / in use","tcp.c, ipc.c")],["results of later calls"])
p("C14","Connecting and accepting pair up one to one and honour deadlines",
 "Each successful TCP or IPC connect corresponds to one connection that the listener accepts exactly once and over which both ends talk to each other, with the peer address reported correctly. A connect or accept that fails, is refused, times out or is canceled reports that outcome at the right time, yields no handle, and later attempts on the same listener or address are unaffected.",
 F,"all interleavings of several connectors, acceptors, refusals, network delays, resets before accept, descriptor exhaustion and cancellations",
 "tests make one or two immediate loopback connections; delayed, refused, aborted and canceled attempts are not reached.",
 ["tcp.c","ipc.c","fd.c"],[("non-blocking connect with completion check","fd.c dill_fd_connect"),("accept loop","fd.c dill_fd_accept")],[],["connect/accept results, pairing of data"])
p("C15","Descriptors sent over IPC arrive once, valid and in order",
 "Every descriptor whose transfer succeeds arrives exactly once, in order, as a new valid descriptor for the same open file, and the sender's own descriptor stays open. If the transfer fails, times out, is canceled, or the peer is gone or breaks the protocol, the call returns an error, the process is neither killed nor left with a leaked descriptor, and byte traffic on the same connection stays in step.",
 F,"all orders of descriptor and byte transfers, peers that close or send plain bytes, full buffers, descriptor exhaustion, deadlines and cancellations",
 "tests/ipc.c passes one descriptor between two live coroutines.",
 ["ipc.c"],[("ancillary data over the stream","ipc.c dill_ipc_sendfd/dill_ipc_recvfd")],[],["descriptors received and descriptor table after the run"])
p("C16","PREFIX preserves message boundaries and contents",
 "For every header size and byte order, each message sent over PREFIX is received exactly once, in order, with the same bytes and length, in any buffer or list large enough for it, and the wire carries precisely the length header followed by the payload. Messages whose length the header cannot express are refused with EMSGSIZE, and a message too long for the receive buffer fails with EMSGSIZE without writing outside it. Detaching leaves the underlying stream positioned exactly after the last message.",
 F,"all message sizes and sequences, header sizes, list shapes, stream fragmentations, connection failures and cancellations",
 "tests/prefix.c sends three short messages through one header size over an unfragmented local socket.",
 ["prefix.c","iol.c"],[("length header encode/decode","prefix.c dill_prefix_msendl/mrecvl"),("list trimming","iol.c dill_ioltrim")],[("inerr/outerr","broken direction","prefix.c")],["messages and raw bytes on the wire"])
p("C17","SUFFIX preserves message boundaries and contents",
 "Each message that does not contain the delimiter is received exactly once, in order, with the same bytes and length and without the delimiter, in any buffer or list large enough for it, and the wire carries the payload followed by the delimiter. A message too long for the receive buffer fails with EMSGSIZE and never writes outside the buffer, and sending data that contains the delimiter is refused rather than silently split. After a clean detach the underlying stream is positioned exactly after the last message.",
 F,"all delimiters (also self-overlapping ones), message sizes, list shapes, fragmentations, connection failures and cancellations",
 "tests/suffix.c sends a few short lines over an unfragmented local socket.",
 ["suffix.c","iol.c"],[("byte-wise match of the delimiter","suffix.c dill_suffix_mrecvl"),("payload check on send","suffix.c dill_suffix_msendl")],[("buf","look-behind window","suffix.c")],["messages and raw bytes on the wire"])
p("C18","TERM ends a message stream at an agreed position",
 "With TERM on top of a message protocol, messages pass through unchanged until a side sends its terminal message; the peer then gets every earlier message followed by EPIPE, and can keep sending until it ends its own side. Detaching sends the terminal message if needed, discards what is still inbound, returns only after the peer's terminal message, and hands back an underlying socket on which both peers agree on the position; sending after done and repeated done fail with EPIPE.",
 F,"all interleavings of messages, done and detach on both sides, terminal messages of any length, oversized or similar-looking messages, failures and deadlines",
 "tests/term.c exchanges two messages and one handshake.",
 ["term.c"],[("comparison with the terminal message","term.c dill_term_mrecvl"),("detach loop","term.c dill_term_detach")],[("indone/outdone","handshake state","term.c")],["messages received, stream position after detach"])
p("C19","WebSocket delivers messages intact and follows RFC 6455 framing",
 "Text and binary messages of any size are received exactly once, in order, with the same type, length and bytes, also when the peer splits them into fragments interleaved with pings and pongs; clients mask every frame, servers never do, and wrongly masked or malformed frames are rejected. The opening handshake succeeds only with a peer that answers the offered key correctly. Close codes and reasons are delivered to the peer, after which no more data is accepted, and detach completes the closing handshake and returns the underlying socket.",
 F,"all message and fragment sizes, list shapes, control-frame placements, stream fragmentations, closing orders, failures and deadlines",
 "tests/ws.c exchanges a few short unfragmented messages between two libdill peers, which share any framing mistake.",
 ["ws.c","http.c","utils.c"],[("frame encode/decode and masking","ws.c"),("handshake keys","ws.c, utils.c")],[("indone/outdone/inerr/outerr","closing state","ws.c")],["messages, raw frames seen by an independent peer"])
p("C20","HTTP exchanges reproduce requests, statuses and fields exactly",
 "A request, status line and any sequence of header fields sent through the HTTP protocol are received in order with the same values (surrounding blanks aside), the end of headers is signalled by EPIPE, and on the wire each is a well-formed CRLF-terminated line. Values that cannot be represented are refused with EINVAL, and values too long for the receiver's buffers fail with an error and never write outside them. After detach the underlying stream is positioned exactly after the blank line.",
 F,"all field names and values, buffer sizes, stream fragmentations, malformed peers, failures and deadlines",
 "tests/http.c runs a single well-formed exchange.",
 ["http.c","suffix.c","utils.c"],[("line parsing","http.c"),("line delimiting","suffix.c")],[],["received values and raw bytes on the wire"])
p("C21","SOCKS5 client and proxy negotiate correctly or fail cleanly",
 "A SOCKS5 client succeeds only when the proxy selected an offered authentication method, accepted the credentials and reported success; the proxy side accepts a client only if its credentials pass the supplied check and delivers exactly the requested command, address or name, and port. All bytes follow RFC 1928/1929, afterwards the stream is positioned exactly after the negotiation, and any malformed, refused or interrupted negotiation is reported as an error to the caller.",
 F,"all credentials (0 to 255 bytes), addresses, names, ports, replies, fragmentations and misbehaving peers",
 "tests/socks5.c needs two cooperative peers with fixed short credentials.",
 ["socks5.c"],[("method negotiation","socks5.c dill_s5_negotiate_auth_*"),("request/reply codec","socks5.c")],[],["results on both sides and raw bytes on the wire"])
p("C22","TLS streams deliver the plaintext intact and shut down properly",
 "Between a TLS client and server the decrypted bytes are a prefix of what the peer sent, in order and unaltered, for any fragmentation of the transport; corruption or truncation of the transport is reported as an error and never as data or as an orderly end. done makes the peer see EPIPE after all data, detach performs the closing handshake and returns the underlying socket, and handshake, transfer and shutdown respect their deadlines and release everything on failure.",
 F,"all fragmentations, message sizes, corruptions, truncations, deadlines and cancellations during handshake, transfer and shutdown",
 "tests/tls.c exchanges one short message over a fast loopback.",
 ["tls.c"],[("BIO over the underlying bytestream","tls.c dill_tls_cbio_*"),("shutdown","tls.c dill_tls_done/detach")],[("indone/outdone/inerr/outerr","direction state","tls.c")],["plaintext and results on both sides"])
p("C23","UDP packets are passed whole with the true sender address",
 "Each received packet is byte for byte one that was sent to this socket, with the true sender address, and a packet is never split, merged, corrupted or delivered more often than the network delivered it. Sending never blocks, oversized packets are refused with EMSGSIZE, lost packets and peers' errors do not break the socket, receives honour deadlines and cancellation, and failure to bind is reported.",
 F,"all packet sizes, buffers and lists, loss, duplication, reordering, delay, full buffers and network error reports",
 "tests/udp.c sends two packets over the loopback, which never loses, reorders or reports errors.",
 ["udp.c"],[("non-blocking datagram send and receive","udp.c"),("wait for readability","udp.c dill_udp_recvl_")],[],["packets received versus sent"])
p("C24","Happy Eyeballs connects if any address can, staggered, without leaks",
 "When at least one resolved address accepts in time, the call returns a working connection to one of them, trying the addresses one after another, a new one each 300 ms until a connection succeeds, in resolver order within a family and alternating families, where IPv6 goes first and its resolution gets a head start of 50 ms; all other attempts are abandoned and leave no open connection. When no address works it fails at the deadline, and it can be canceled at any point.",
 F,"all DNS answers and delays per family, and connection outcomes (accept, refuse, blackhole) and delays per address",
 "the test suite connects only to a live internet host or not at all.",
 ["happyeyeballs.c","ipaddr.c"],[("resolver coroutines feeding a channel","happyeyeballs.c"),("300 ms stagger","happyeyeballs.c dill_happyeyeballs_coordinator")],[],["time and order of connection attempts seen by the simulated network"])
p("C25","Name resolution returns the answered addresses within the deadline",
 "Resolving a name yields only addresses of the requested families that the name servers or hosts file gave for it, in preference order and with the requested port, and literal addresses never touch the network. The name of a local network interface gives an address of that interface of the requested family and nothing else. Lost, delayed, duplicated, truncated, malformed or spoofed answers never produce a wrong address; lookups retry and end with a result or an error no later than the deadline, can be canceled, and concurrent lookups do not block each other.",
 F,"all answer sets, modes, losses, delays, duplicates, malformed and mismatched answers, and deadlines",
 "tests/ipaddr.c resolves literals and, with network, one well-known host.",
 ["ipaddr.c","dns/dns.c"],[("resolver driven by fdin/fdout","ipaddr.c dill_ipaddr_remotes"),("DNS state machine","dns/dns.c")],[],["returned addresses versus simulated zone"])
p("C26","Running out of memory or descriptors gives clean errors",
 "If an allocation or descriptor- or kernel-resource-creating call fails while an object is being created or an operation performed, the call fails with the corresponding error or succeeds fully, the process does not crash, nothing created on the way is leaked, and other objects that existed before keep working (only the direction of a socket on which a transfer failed halfway may be left failed). Once resources are available again the same call succeeds.",
 ["fault_sequences","schedules","histories"],"each single and repeated failure point of every allocation, descriptor creation and registration in every public call",
 "no test makes an allocation or system call fail.",
 ["cr.c","chan.c","handle.c","stack.c","tcp.c","ipc.c","udp.c","prefix.c","suffix.c","term.c","ws.c","http.c","tls.c","epoll.c.inc","poll.c.inc","fd.c"],[("error-unwinding paths in constructors","all files")],[],["errno, descriptor table and heap after the run"])
p("C27","Closing releases everything and protocol stacks unwind as a unit",
 "After every object a program created has been closed, detached or handed over, no memory, descriptor or handle created on its behalf remains, on success and on error alike. hclose on the top of a protocol stack closes every layer below it, a constructor or detach that fails closes the socket given to it as documented, and after a successful attach, detach or close the superseded handle is invalid. User-provided storage is never freed and works like allocated storage.",
 F,"all protocol stacks, all orders and points of failure of attach, done, detach and close",
 "tests do not look at leftover handles, descriptors or memory.",
 ["handle.c","tcp.c","ipc.c","udp.c","prefix.c","suffix.c","term.c","ws.c","http.c","tls.c"],[("ownership transfer on attach","*_attach_mem use of hown"),("recursive close","*_hclose")],[],["descriptor, heap and handle census at end of run"])
p("C28","Threads using the library are isolated from each other",
 "Coroutines, channels, handles, timers and sockets used by one thread behave exactly as if no other thread used the library, for every interleaving of the threads. When a thread ends, everything the library kept for it is released and other threads are unaffected.",
 S,"all interleavings of several threads each running their own coroutines, timers and I/O, starting and exiting at any time",
 "tests/threads.c starts two threads that do nearly nothing.",
 ["ctx.c","ctx.h","cr.c","handle.c","stack.c","pollset.c","fd.c"],[("per-thread context","ctx.c"),("thread-exit cleanup","ctx.c dill_ctx_term")],[("context","all per-thread state","ctx.h struct dill_ctx")],["each thread's history compared with its history when run alone"])
p("C29","The clock never runs backwards and stays close to real time",
 "Successive readings of the current time in a thread never decrease and never exceed the operating system's monotonic clock, and lag it by no more than the clock's granularity and a few milliseconds, also when the processor's cycle counter jumps. Readings are always positive, so they can never be mistaken for the special deadline values.",
 ["schedules","fault_sequences","configurations"],"all cycle-counter frequencies, offsets between processors, backward and forward jumps, and stalls",
 "tests/now.c reads the clock twice on one machine.",
 ["now.c"],[("cycle-counter guarded cache","now.c dill_now")],[("last_time/last_tsc","cached reading","now.h")],["successive now() values versus the simulated clock"])
p("C30","Bytes from a hostile peer cannot crash or corrupt the process",
 "Whatever bytes, in whatever fragments, a peer sends and whenever it closes or resets, every protocol endpoint returns an error or valid data within its deadline, never aborts the process, reads or writes outside its buffers, returns more data than the caller's buffer holds, or loops without progress. The socket remains closable afterwards.",
 ["inputs","fault_sequences","schedules"],"all byte streams and connection events produced by a peer, generated from valid conversations by mutation, truncation and insertion",
 "tests use only cooperative libdill peers.",
 ["prefix.c","suffix.c","term.c","http.c","ws.c","socks5.c","tls.c","ipaddr.c","dns/dns.c","ipc.c"],[("length and format checks on input","each protocol's receive path")],[],["process survival under heap checking, results"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import jsonschema
for x in P: jsonschema.validate(x,sch)
print(len(P),max(len(x['title']) for x in P))
