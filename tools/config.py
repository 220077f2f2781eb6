"""What each check builds and how. Properties without an entry here are not claimed (tools/mkmanifest.py)."""
X = "exploration"
MODEL = "runtime monitoring: the real code under seeded workloads in ASan+UBSan builds, judged by "
NOTE = ("No violation on the executions observed (counts in the evidence file); bounded by the generators. "
        "Trusts the compilers, the sanitizer runtimes and the independent models in harness/. ")
SIM = "Trusts the simulated network shim/experimental/net, which stands in for the Networking TS that is not installed. "
PROPS = {
    "E01": dict(src="e01.cpp", level=X, flags=["-O2"], fuzz=False, technique=MODEL + "an independent FIPS 180-4 implementation"),
    "E02": dict(src="e02.cpp", level=X, technique=MODEL + "an independent RFC 4648 encoder"),
    "E03": dict(src="e03.cpp", level=X, technique=MODEL + "an independent percent-coding model and the round trip"),
    "E04": dict(src="e04.cpp", level=X, technique=MODEL + "the components each text was composed from"),
    "F01": dict(src="f01.cpp", level=X, technique=MODEL + "a byte-exact model of the file and its read position"),
    "F02": dict(src="f02.cpp", level=X, technique=MODEL + "monitors inside recording providers"),
    "F03": dict(src="f03.cpp", level=X, fuzz=False, valgrind=False, technique=MODEL + "decoding, executing and validating every asset in node"),
    "T01": dict(src="t01.cpp", level=X, technique=MODEL + "an online checker of the subscription history"),
    "T02": dict(src="t02.cpp", level=X, technique=MODEL + "an independent parser that rebuilds the buffer from the dump"),
    "L03": dict(src="l03.cpp", level=X, technique=MODEL + "the round trip itself, on exactly sized heap copies"),
    "L04": dict(src="l04.cpp", level=X, technique=MODEL + "ASan on exactly sized heap copies and an independent wire decoder"),
    "T03": dict(src="t03.cpp", level=X, technique=MODEL + "monitors inside the wrapped callables"),
    "T04": dict(src="t04.cpp", level=X, sim=True, technique=MODEL + "comparison with the same clients served by a silent server"),
    "N01": dict(src="n01.cpp", level=X, technique=MODEL + "an offset model of every view"),
    "N02": dict(real=True, src="n02.cpp", level=X, sim=True, technique=MODEL + "a table of the live servers of a simulated machine"),
    "H01": dict(src="h01.cpp", level=X, sim=True, technique=MODEL + "comparison with the same bytes sent alone in one piece"),
    "H02": dict(src="h02.cpp", level=X, technique=MODEL + "the components each request was composed from, and a 400 for each that was broken"),
    "H03": dict(src="h03.cpp", level=X, technique=MODEL + "the table of resources the server was given and an independent response parser"),
    "H04": dict(src="h04.cpp", level=X, technique=MODEL + "canaries outside the root, noninterference between two trees and the resolution of the path by the system"),
    "H05": dict(real=True, src="h05.cpp", level=X, technique=MODEL + "a strict response parser and the resource table, under random back-pressure"),
    "H06": dict(real=True, src="h06.cpp", level=X, technique=MODEL + "an independent SHA-1 and base64 and the way each request was composed"),
    "H07": dict(src="h07.cpp", level=X, technique=MODEL + "the list of what each client asked, called and was told, while other clients are stuck and after they went on"),
    "W01": dict(real=True, src="w01.cpp", level=X, technique=MODEL + "the list of frames each stream was built from, on exactly sized pieces"),
    "W02": dict(real=True, src="w02.cpp", level=X, technique=MODEL + "a strict frame parser and the payloads given to each call, with the memory of the caller released at once"),
    "W03": dict(src="w03.cpp", level=X, technique=MODEL + "monitors in the handlers and on the simulated socket, at every step of each history"),
    "L01": dict(real=True, src="l01.cpp", level=X, sim=True, technique=MODEL + "the list of calls each simulated browser made"),
    "L02": dict(real=True, src="l02.cpp", level=X, sim=True, technique=MODEL + "an independent decoder of what each browser receives and the list of invocations"),
    "L05": dict(src="l05.cpp", level=X, sim=True, technique=MODEL + "an independent decoder, the scripts given and the lines seen by a sink registered first"),
    "L06": dict(real=True, src="l06.cpp", level=X, sim=True, technique=MODEL + "tokens naming the client and a sequence number, online checks at each announcement"),
    "S01": dict(real=True, src="s01.cpp", level=X, sim=True, technique=MODEL + "exceptions leaving the event loop, sanitizer reports and the answers honest clients receive next to hostile ones"),
    "S02": dict(real=True, src="s02.cpp", level=X, sim=True, leaks=True, fuzz=False, technique=MODEL + "counts of open sockets and socket objects, reachable links, LeakSanitizer and samples of the memory in use over long histories"),
    "S04": dict(src="s04.cpp", level=X, sim=True, leaks=True, fuzz=False, technique=MODEL + "samples of the memory in use while the same use is repeated, and LeakSanitizer"),
    "S03": dict(src="s03.cpp", level=X, flavour="clang-tsan", second_flavour="gcc-tsan", fuzz=False, valgrind=False, technique="runtime monitoring: threads working on objects of their own under ThreadSanitizer, results compared with the same work done alone"),
    "L07": dict(real=True, src="l07.cpp", level=X, sim=True, fuzz=False, valgrind=False, technique=MODEL + "executing the embedded client script in node against the application and comparing the calls made and received on both sides"),
    "P01": dict(src="p01.cpp", programs=[("src/HelloWorld.cpp", "helloMain"), ("webtest/JasmineTest.cpp", "jasmineMain")], level=X, sim=True, fuzz=False, valgrind=False, technique=MODEL + "their standard output, what they ask the system to open, the bytes they serve and the calls observed in node"),
    "M01": dict(src="m01.cpp", level=X, fuzz=False, valgrind=False, technique="runtime monitoring: programs of several parts, built by the check from the headers in random orders with ASan (its detection of conflicting definitions included) and UBSan, and run while a model follows which part did what"),
}
