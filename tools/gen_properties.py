#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
P = []
S='EigenIPC/src/'; I='EigenIPC/include/EigenIPC/'; B='EigenIPC/bindings/PyEigenIPC/src/'
def add(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

add("C01","Block writes and reads transfer exactly the addressed block",
"A successful write of an r x c block at (row, col) makes shared element (row+i, col+j) equal to source element (i, j) for every i, j and leaves every other shared element as it was; a successful read makes destination element (i, j) equal to shared element (row+i, col+j) and leaves the shared tensor and everything outside the destination block as it was. This holds for servers and clients, every element type, both memory layouts, and for plain, sub-block and arbitrarily strided source or destination tensors.",
["inputs","configurations"],"all tensor sizes, block positions and sizes, element values, strides, the 8 type/layout instantiations, server and client, both overloads",
"The consistency test reads and writes full tensors and a few fixed blocks of one 100 x 60 tensor; element-wise effect on all other shapes, positions, strides and the untouched elements is never compared.",
[S+"MemUtils.hpp",S+"Server.cpp",S+"Client.cpp"],
[("write / read overloads",S+"MemUtils.hpp"),("Server::write/read",S+"Server.cpp"),("Client::write/read",S+"Client.cpp"),("initMem maps the tensor",S+"MemUtils.hpp")],
[("_tensor_view","view over the shared data",I+"Server.hpp")],["shared data memory","destination tensor"])

add("C02","Requests that do not lie inside the tensor are refused without effect",
"A read or write whose block does not lie entirely inside the shared tensor (negative or too large start index, negative size, or a block reaching past the last row or column) returns false and changes neither the shared tensor nor the destination. A request that does lie entirely inside it is not refused for its position or size. No call ever accesses memory outside the shared tensor or outside the caller's tensor.",
["inputs","configurations"],"all start indices in the int range, all block and tensor sizes, 8 instantiations, server and client, both overloads",
"Tests only make requests that fit, so neither the refusal nor its lack of side effects is ever observed, and boundary arithmetic is never reached.",
[I+"Helpers.hpp",S+"MemUtils.hpp",S+"Server.cpp",S+"Client.cpp"],
[("canFitTensor",I+"Helpers.hpp"),("write/read result handling",S+"MemUtils.hpp")],None,["return value","shared data memory"])

add("C03","In safe mode shared data is touched only while holding the data lock",
"In safe mode a read or write touches the shared data only after it has acquired the data lock, and a call that fails to acquire it returns false having touched neither the shared data nor the destination. Whatever the outcome (success, refused block, failed acquisition, error), the call gives back the lock exactly once if it acquired it and never gives back a lock it did not acquire.",
["schedules","inputs","fault_sequences"],"every interleaving with other holders of the lock (each acquisition attempt may succeed or fail), every argument, every acquisition outcome, 8 instantiations, server and client, all overloads",
"The consistency test almost never has the two sides contend at the same instant and retries silently, so a call that touches data after a failed acquisition, or skips a release on a refused block, goes unnoticed.",
[S+"Server.cpp",S+"Client.cpp",S+"MemUtils.hpp"],
[("acquire-one-shot / release around the copy",S+"Server.cpp"),("same on the client",S+"Client.cpp"),("SemTryWait, releaseSem",S+"MemUtils.hpp")],
[("data semaphore","binary token protecting the shared data",S+"MemUtils.hpp")],["sem_trywait","sem_post","data memory accesses"])

add("C04","Run-time reads and writes never block",
"A read or write performs no blocking operating-system call (no blocking or timed lock wait, no sleep): it makes at most one non-blocking attempt at the data lock and at most one release, and in unsafe mode it does not touch the lock at all. A call on an endpoint that is not running (server) or not attached (client) returns false and touches neither the lock nor the data.",
["schedules","inputs","histories"],"every lock state and contention pattern, every argument, every reachable endpoint state, 8 instantiations, server and client, all overloads",
"A blocking call that is reached only under contention, on an error path or for one instantiation passes every test: the tests only check eventual success.",
[S+"Server.cpp",S+"Client.cpp",S+"MemUtils.hpp"],
[("_acquireData(false, .)",S+"Server.cpp"),("acquireSemOneShot",S+"MemUtils.hpp")],None,["system calls made by write/read"])

add("C05","The data lock admits at most one holder over any sequence of operations",
"Over any sequence of construction, run, stop, run again, client counting, manual lock/unlock, reads, writes, attach, detach, re-attach and close, each endpoint gives the data lock back only when it holds it, so the number of simultaneous holders never exceeds one. After each completed operation an endpoint holds the lock only if it is a constructed server that has not been run yet, or if the user took it explicitly and has not given it back.",
["histories","schedules","fault_sequences"],"all finite histories of public operations of a server and of a client, with every outcome of every lock operation, not only those used by the tests",
"Tests use one fixed life cycle (construct, run, use, close); a second run after stop, a repeated attach or a failing attach is never followed by a check of the lock.",
[S+"Server.cpp",S+"Client.cpp"],
[("constructor acquires, first run releases",S+"Server.cpp"),("attach/detach critical sections",S+"Client.cpp"),("getNClients critical section",S+"Server.cpp")],
[("data semaphore value","1 = free, 0 = held",S+"MemUtils.hpp")],["sem_post / sem_*wait history"])

add("C06","Lock operations report what actually happened",
"An acquisition (blocking, timed or one-shot) is reported as successful only if the operating system granted the lock, and a failed one (timeout, interruption by a signal, error, closed endpoint) is reported as false or as an exception; a failed release of the lock is reported as an exception. A timed acquisition gives the full configured time before giving up, and with forced reconnection enabled a lock that cannot be obtained is deleted, recreated and acquired again, while without it the existing lock is left alone and the failure is reported.",
["fault_sequences","schedules","configurations"],"every outcome of every semaphore call (granted, timeout, EINTR, other errno, failed open, failed post), all verbosity settings, force_reconnection on and off",
"Tests never make a semaphore call fail: no timeout, no signal, no invalid handle, no failed post, and they do not measure the timeout.",
[S+"MemUtils.hpp",S+"Server.cpp",S+"Client.cpp"],
[("semBlockingWait/semTimedWait/SemTryWait/releaseSem",S+"MemUtils.hpp"),("acquireSemTimeout recovery",S+"MemUtils.hpp"),("_acquireSem*/_releaseSem",S+"Server.cpp")],None,["return value / exception versus sem_* result"])

add("C07","A server becomes visible only once completely initialised",
"A server keeps the data lock from construction until it is run, and by the time its running flag becomes visible to clients the data memory exists with the right size and the published row count, column count, element type, memory layout and client counter have their right values. Construction leaves the running flag cleared, run sets it only after the server lock has been obtained, and stop and close clear it before the server lock is given back.",
["crash_points","schedules","histories"],"every point at which another process may look at the shared objects, every history of construct/run/stop/close, every size and configuration, 8 instantiations",
"Tests always start the client long after the server is up, so the order in which things become visible is never observed.",
[S+"Server.cpp"],
[("constructor order, _initMetaMem, run(), stop()",S+"Server.cpp")],
[("running flag","1 in shared memory while the server runs",S+"Server.cpp")],["writes to shared metadata in program order"])

add("C08","At most one running server per name",
"Without forced reconnection, constructing or running a server while another server is running on the same name fails with an exception, and leaves the running server's data, metadata, running flag and locks as they were. A server reports that it is running only while it holds the server lock; stop gives that lock back exactly once, and a failed run leaves the server not running with its running flag cleared.",
["schedules","histories","fault_sequences"],"all histories and interleavings of servers on one name, all outcomes of the server-lock acquisition, 8 instantiations",
"Tests construct one server at a time per name and always force the reconnection, so uniqueness is never exercised.",
[S+"Server.cpp",S+"MemUtils.hpp"],
[("server semaphore acquired in constructor probe and in run(), released in stop()",S+"Server.cpp"),("acquireSemTimeout",S+"MemUtils.hpp")],
[("server semaphore","held by the running server",S+"Server.cpp")],["sem/shm calls of the second server"])

add("C09","A client attaches only to a running, compatible server and adopts its shape",
"Attaching returns normally only after the server's running flag has been observed set and the element type and memory layout published by the server match the client's; the client then has the server's row and column counts and maps the data with exactly that shape. On a mismatch or any other failure attaching throws, the client is not attached, the client counter is unchanged and the data lock is not kept.",
["schedules","configurations","fault_sequences","inputs"],"all published values of the metadata, all 8 client instantiations, every moment at which the server comes up, every failure inside attach",
"Tests only attach matching clients to a server that is up; mismatches (in particular of types with the same size) and failures are never tried.",
[S+"Client.cpp",S+"Server.cpp"],
[("_waitForServer, _checkDType, _checkMemLayout, attach",S+"Client.cpp"),("published metadata",S+"Server.cpp")],None,["attach outcome versus shared metadata"])

add("C10","The client counter equals the number of attached clients",
"Each successful attach of a detached client increases the shared client counter by exactly one, and each detach or close of an attached client decreases it by exactly one; attaching an attached client, detaching a detached one, closing twice and failed attaches do not change it. The counter is changed only while holding the data lock, and the server's client count returns its current value.",
["histories","schedules"],"all histories of attach/detach/close (with failures) of any number of clients, every interleaving between clients",
"The counter is only printed by one test, never compared, and only one attach and one close ever happen.",
[S+"Client.cpp",S+"Server.cpp"],
[("attach()/detach()/close()",S+"Client.cpp"),("getNClients, initial value",S+"Server.cpp")],
[("client counter","shared int",S+"Client.cpp")],["writes to the counter"])

add("C11","Descriptors and lock handles are closed exactly once and never leaked",
"Every file descriptor and semaphore handle an endpoint opens is closed exactly once by the end of close or destruction, and no descriptor or handle that the endpoint did not open, or has already closed, is ever closed or used. Closing twice, or closing an endpoint that was never run or attached, is harmless; a client never removes the names of the shared objects, and a server's close removes the names of its data memory and locks.",
["histories","fault_sequences"],"all histories of public operations ending in close or destruction, with every outcome of the calls that open resources",
"Tests never look at descriptors; a leaked or doubly closed descriptor is invisible to them, and endpoints that were never attached are always attached first.",
[S+"Server.cpp",S+"Client.cpp",S+"MemUtils.hpp"],
[("cleanUpMem, checkMem, semClose",S+"MemUtils.hpp"),("_cleanMems, _cleanMetaMem, _closeSems",S+"Server.cpp"),("same",S+"Client.cpp")],None,["open/close calls"])

add("C12","Failure to create shared resources is reported, never ignored",
"If any shared memory object cannot be opened, sized or mapped, or any semaphore cannot be opened, constructing a server or attaching a client throws; the endpoint never ends up usable with a missing, null or wrongly sized resource. A failed server construction gives back the data lock if it had taken it, so that a later construction can succeed.",
["fault_sequences","configurations"],"a failure of each individual resource call and every combination of failures, all verbosity settings, 8 instantiations, server and client",
"No test makes a resource call fail.",
[S+"Server.cpp",S+"Client.cpp",S+"MemUtils.hpp"],
[("initMem, semInit",S+"MemUtils.hpp"),("_initDataMem, _initMetaMem, _initSems",S+"Server.cpp"),("failWithCode",S+"MemUtils.hpp")],None,["exception versus failed call"])

add("C13","Server and client of one name address the same, mutually distinct objects",
"For every namespace and name, a server and a client of any type and layout use the same object name for each shared item (data, row count, column count, element type, layout, client counter, running flag, data lock), and the names of different items are pairwise distinct. Every object name contains both the namespace and the name.",
["inputs","configurations"],"all namespace and name strings, server and client, all instantiations, string tensors and condition variables included",
"Tests use a handful of fixed names and would not notice two items sharing an object as long as values happen to be compatible.",
[I+"SharedMemConfig.hpp",I+"MemDefs.hpp",S+"Server.cpp",S+"Client.cpp"],
[("SharedMemConfig",I+"SharedMemConfig.hpp"),("path used for each item",S+"Server.cpp")],None,["names passed to shm_open/sem_open/unlink"])

add("C14","Strings survive the shared string tensor unchanged",
"Every NUL-free byte string of at most 1024 bytes written to a slot of a shared string tensor is read back from that slot as exactly the same bytes, by the server and by clients, whatever was stored in the slot before. Writing a list stores its k-th string in slot index+k and reading a list returns slot index+k as its k-th string.",
["inputs","histories"],"all NUL-free strings of 0..1024 bytes (all byte values, all lengths modulo the chunk size), all slots, all list lengths, all previous slot contents",
"Tests write short ASCII strings of similar length to a 10-slot tensor; long strings, boundary lengths, bytes above 127 and leftovers of a longer previous string are not sampled.",
[S+"StringTensor.cpp"],
[("_encode_str/_decode_str/_encode_vec/_decode_vec",S+"StringTensor.cpp"),("read/write",S+"StringTensor.cpp")],None,["string read back"])

add("C15","String tensor requests that do not fit are refused without effect",
"A write to a string tensor is refused (returns false) without changing any shared slot if the tensor is not running, if any string is longer than 1024 bytes, if the index is negative, or if the strings do not fit before the last slot; a read is refused without changing the caller's strings if the tensor is not running or the slots requested do not all exist. An accepted write changes no other slot, and no call accesses memory outside the tensor's buffers.",
["inputs","histories"],"all strings and lists, all int indices, all tensor lengths, running and not running",
"Tests only make requests that fit.",
[S+"StringTensor.cpp"],
[("_fits, index and length checks",S+"StringTensor.cpp")],None,["return value","block passed to the shared tensor"])

add("C16","Each trigger is published exactly once and acknowledgements are counted exactly",
"Each trigger increases the shared trigger count by exactly one and notifies all waiters, both while holding the trigger mutex. Waiting for acknowledgements from n consumers returns true only if, while holding the acknowledgement mutex, exactly n acknowledgements were counted since the last successful wait; it returns false only after a timed wait has expired, re-checks the count after every wake-up, and neither side can miss a wake-up because the count is never checked and waited upon without holding the mutex in between.",
["schedules","histories","inputs"],"all interleavings of acknowledging consumers, spurious wake-ups, timeouts, counts and histories of waits",
"The producer/consumer tests are not part of the reliable suite and use one consumer in lock step.",
[S+"Producer.cpp",S+"CondVar.cpp"],
[("trigger, wait_ack_from, _check_ack_counter, _wait",S+"Producer.cpp")],
[("trigger / ack counters","shared ints guarded by named mutexes",S+"Producer.cpp")],["counter writes, lock and notify calls"])

add("C17","A consumer consumes each trigger exactly once and acknowledges exactly once",
"A consumer's wait returns true only if the shared trigger count is exactly one more than the number of triggers it has consumed, which it then records; a count that moved otherwise raises an exception, an unchanged count keeps it waiting, and it returns false only after a timed wait has expired. Each acknowledgement increases the shared acknowledgement count by exactly one and notifies the producer, while holding the acknowledgement mutex; the combined wait-and-acknowledge returns true exactly if the wait, the user callback and the acknowledgement all succeeded, and acknowledges exactly once if and only if the wait succeeded.",
["schedules","histories","inputs"],"all counter values and histories, spurious wake-ups, timeouts, all outcomes of the callback and of the shared reads and writes",
"The producer/consumer tests are not part of the reliable suite and never make a callback fail or a wait time out.",
[S+"Consumer.cpp",S+"CondVar.cpp"],
[("wait, ack, wait_and_ack, _check_trigger_received, _acknowledge",S+"Consumer.cpp")],None,["counter values, lock and notify calls, return values"])

add("C18","Only the owning side creates and removes synchronisation objects",
"A condition variable constructed as server creates its named condition and mutex (failing if they exist, unless forced reconnection removes them first) and its close or destruction removes exactly those two names exactly once; one constructed as client only opens them and never removes any name. Locking, waiting, timed waiting and notification act on that object's own mutex and condition, wait always with the caller's lock, and a timed wait uses exactly the requested duration from now and returns false only on expiry.",
["histories","configurations","fault_sequences"],"both roles, forced and not, all histories of close and destruction, all failures of removal, all durations",
"No reliable test uses condition variables.",
[S+"CondVar.cpp",I+"CondVar.hpp"],
[("constructor, close, _cleanup_mem, lock/wait/timedwait/notify",S+"CondVar.cpp")],None,["named object create/open/remove calls"])

add("C19","Return codes form a lossless set of conditions",
"Every named condition has its own bit; adding a code to a set yields the union, removing it yields the difference, membership is true exactly if all bits of the code are in the set, and adding the reset code empties the set. The textual description of a set names exactly the conditions it contains, each by its own name.",
["inputs"],"all 2^64 code values and all pairs of them",
"One debug program prints a few descriptions; nothing is compared.",
[I+"ReturnCodes.hpp"],
[("operator+, operator-, isin, getDescription(s)",I+"ReturnCodes.hpp")],None,["values returned"])

add("C20","Sub-views address exactly the requested elements",
"Creating a view of size r x c at (row, col) of a tensor succeeds exactly if the block lies inside the tensor (with row and col inside it and r, c not negative), and then view element (i, j) is the same memory as tensor element (row+i, col+j) for both memory layouts and every element type. Otherwise an exception is thrown and nothing is accessed.",
["inputs","configurations"],"all tensor and view sizes, all positions, 8 instantiations",
"No reliable test creates sub-views.",
[I+"Helpers.hpp"],
[("createViewFrom, canFitTensor",I+"Helpers.hpp")],None,["address of view elements"])

add("C21","Numpy arrays are viewed element for element or refused",
"For a two-dimensional numpy array accepted by the Python read and write functions, element (i, j) of the tensor view used for the transfer is array element (i, j) for every i, j, whatever the array's strides (slices, transposes, negative steps). An array that is not two-dimensional, whose memory order contradicts the tensor's layout, or whose strides are not whole numbers of elements is refused with false and nothing is transferred.",
["inputs","configurations"],"all shapes, strides (positive, zero, negative), element types, both layouts, server and client, read and write",
"Python tests use freshly allocated contiguous arrays and a few slices only.",
[B+"PyEigenIPCUtils.hpp",B+"PyServer.cpp",B+"PyClient.cpp"],
[("CheckInputBuffer, ToEigenStrides",B+"PyEigenIPCUtils.hpp"),("write/read lambdas",B+"PyServer.cpp"),("same",B+"PyClient.cpp")],None,["view constructed from the buffer"])

add("C22","Python mirrors keep local and shared data in the right places",
"The Python tensor wrappers copy exactly the requested rows and columns between the local mirror and the shared tensor in the requested direction, and refuse indices that do not fit. The dictionary wrappers map each name to its own slot and keep names and values aligned between server and clients.",
["inputs","histories"],"all index ranges, shapes, dtypes and name lists",
"Python tests cover 1 x 1 tensors only.",
["EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py","EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py"],
[("SharedTWrapper.read/write/synch","EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py"),("SharedTensorDict","EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
