#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable and diffable)."""
import json, os
L = "src/libeopsi/"
P = []

def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": [L + f if "/" not in f else f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "The requester learns exactly the common elements",
  "When two identically configured clients have outsourced their sets (elements of at most the declared bit width) to a cloud and one asks the other to compute, the requester's reported intersection is exactly the set of common elements, each listed once (also when the lists given name elements repeatedly). This holds for every pair of sets, for every element value including zero and the largest, for every distribution of elements over buckets up to and including full buckets, for every field prime with enough room for padding, every degree of at least twice the bucket size plus one, every secret (of any byte length), party name, hash algorithm, and value returned by the random generators.",
  ["inputs", "configurations"],
  "All pairs of subsets of a small universe with boundary values, all bucket layouts of those elements, all requester/helper roles, and all deviations of the configuration (secrets, primes, degrees, table shapes, hash algorithm, random draws) from a default up to a bound.",
  "eopsisimul runs a handful of random configurations with one secret pair; the stable test suite only has the empty-intersection run, so a protocol that always answers 'nothing' passes.",
  ["eopsiclient.cpp", "eopsiparty.cpp", "eopsiserver.cpp", "hashbuckets.hpp", "murmurhash3.cpp", "zzppoly.cpp", "ntlmiss.cpp", "zzprf.cpp", "zzpprf.cpp"],
  [("padding, hashing, concealment, evaluation, blinding", L+"eopsiclient.cpp blind()"), ("masking polynomials cancel in t-q", L+"eopsiparty.cpp computeTOrQ()/genOmega()"), ("roots with enough trailing zeros are the intersection", L+"zzppoly.cpp findIntersection()")],
  [("setcap", "the intersection last learnt", L+"eopsiclient.h")], ["EOPSIClient::getIntersection()"])

p("C02", "Runs are independent of everything that happened before",
  "Any number of computations may be performed one after another by the same clients over the same cloud, with clients swapping the requester and helper roles freely and with refused requests in between: every completed run gives its requester exactly the intersection of the two sets involved. A run never changes the intersection previously learnt by a client that is not its requester, and no sequence of runs ever touches released memory or crashes.",
  ["histories"],
  "All sequences, up to a depth, of (requester, helper) runs among three clients, refused requests and re-outsourcings on one cloud.",
  "The simulation performs exactly one run per process; nothing is ever reused.",
  ["eopsiclient.cpp", "eopsiserver.cpp", "eopsiparty.cpp", "zzppoly.cpp"],
  [("ownership and clearing of the two halves q and t", L+"eopsiclient.cpp receive()/intersect()")],
  [("q, t", "the two pending halves of a run", L+"eopsiclient.h"), ("unknowns", "cached evaluation points", L+"eopsiparty.h")], ["EOPSIClient::getIntersection()", "AddressSanitizer"])

p("C03", "A result needs both halves and comes out the same in either order",
  "A requester reports a new intersection only after it has received both the cloud's answer and the helper's answer of the run, and its previously learnt intersection stays unchanged until then. The resulting intersection is exact whichever of the two arrives first, in every run of a sequence of runs.",
  ["schedules", "histories"],
  "All delivery orders of the two halves in every run of a sequence of runs, observed after every single delivery.",
  "The in-process simulation has one fixed delivery order (cloud first) and looks only at the end.",
  ["eopsiclient.cpp", "eopsiserver.cpp"],
  [("intersect() refuses until both halves are there", L+"eopsiclient.cpp intersect()")],
  [("q, t", "the two pending halves of a run", L+"eopsiclient.h")], ["EOPSIClient::getIntersection()"])

p("C04", "Only authenticated parties in the right role are heard",
  "A client accepts computation requests and helper answers only from authenticated clients and cloud answers only from authenticated servers; a server accepts outsourced data and computation requests only from authenticated clients; every other message (unknown, unauthenticated or own sender, wrong role, unknown type, no message at all) is refused with a catchable protocol error. A refused message changes nothing: stored data, learnt intersections and later runs are as if it had never been sent. Authentication is directional, per identifier, idempotent, and never includes the party itself.",
  ["inputs", "histories"],
  "All combinations of receiver kind, sender kind, authentication relation and message type, as single messages and as sequences mixed with legitimate traffic; all authentication graphs over four parties.",
  "The simulation authenticates everybody with everybody and sends only legitimate messages.",
  ["eopsiclient.cpp", "eopsiserver.cpp", "eopsiparty.cpp", "eopsimsg.cpp", "protocolex.h"],
  [("isAuthorised() and the type switch", L+"eopsiclient.cpp, "+L+"eopsiserver.cpp"), ("authenticate()/hasAuthenticated()", L+"eopsiparty.cpp")],
  [("parties", "authenticated parties by id", L+"eopsiparty.h")], ["EOPSIParty::send()/receive()", "isAuthorised()", "hasAuthenticated()"])

p("C05", "Bad requests are refused without damage",
  "A request that names a partner the cloud has not authenticated, concerns a client whose data was never outsourced, carries a sender identity different from the actual sender's, or carries no payload (as any message without payload) or one too short to hold the names, and for the cloud the key, it must contain, is refused with a protocol error (or, when it is the helper whose cloud request is refused, by an orderly non-zero exit). So is outsourced data whose stated size is not that of the cloud's own tables. It never crashes, never yields an answer to anybody, and leaves the refusing party able to serve later correct requests exactly.",
  ["inputs", "fault_sequences"],
  "All malformed variants of each request type at each receiving party, alone and interleaved with legitimate runs.",
  "The tests contain no malformed request.",
  ["eopsiserver.cpp", "eopsiclient.cpp", "eopsiparty.cpp"],
  [("identity check, lookup of partner and stored data", L+"eopsiserver.cpp receive()/intersectionOutput(), "+L+"eopsiclient.cpp receive()")],
  [("storedData", "outsourced data by client id", L+"eopsiserver.h")], ["ProtocolException", "process exit status"])

p("C06", "The cloud computes on each client's latest outsourced data",
  "After any sequence of outsourcing messages and computations, the cloud's answer for a pair of clients is computed from the data each of the two outsourced last, whatever a client does with its message object after sending it. Storing or replacing one client's data never affects another client's, and computing never consumes or alters stored data.",
  ["histories"],
  "All sequences up to a depth of store(client, version) and run(requester, helper) operations on one cloud.",
  "The simulation stores once per client and computes once.",
  ["eopsiserver.cpp", "eopsiparty.cpp", "eopsimsg.cpp"],
  [("storedData map keyed by sender id", L+"eopsiserver.cpp receive()")],
  [("storedData", "outsourced data by client id", L+"eopsiserver.h")], ["EOPSIClient::getIntersection()"])

p("C07", "Outsourced data has a data-independent shape and unrepeated masks",
  "What a client outsources always has one vector per bucket and one value per evaluation point (the configured degree), whatever the number, values and placement of its elements, and every bucket is filled up to exactly its capacity before being encoded as the monic polynomial having exactly the bucket's entries as roots. Each value is that polynomial at the evaluation point plus a mask; masks depend only on the secret and the configuration (never on the data or on the number of threads asked for), use every bit of the field, never repeat across positions, and differ between clients with different secrets (as field elements). Evaluation points are distinct and identical for all parties of the same configuration.",
  ["inputs", "configurations"],
  "All table shapes, bucket layouts and secrets of a small alphabet; every position of every outsourced vector is examined.",
  "bptest checks nothing about values; mask reuse or a shape leak leaves every answer correct and so is invisible to any functional test.",
  ["eopsiclient.cpp", "eopsiparty.cpp", "hashbuckets.hpp", "zzpprf.cpp", "zzprf.cpp"],
  [("conceal and blind", L+"eopsiclient.cpp blind()"), ("evaluation points", L+"eopsiparty.cpp generateUnknowns()/getUnknowns()")],
  [("blindedData", "vectors to outsource", L+"eopsiclient.h")], ["EOPSIClient::getBlindedData()", "getBlindedDataSize()"])

p("C08", "Every delegated computation is freshly and fully masked",
  "Each computation uses a new key of exactly 128 bits, and the cloud and the helper derive from it the same masks: the difference of their answers is, for every bucket, the sum of the two clients' bucket polynomials each multiplied by a random monic polynomial of degree equal to the bucket capacity. These random polynomials differ between buckets, between the two clients and between runs; separately, each answer is hidden by additive masks; no mask or random coefficient occurs twice within a run or between runs.",
  ["inputs", "histories"],
  "All sequences of runs up to a depth, over table shapes and primes; every bucket and position of both answers is decoded and examined.",
  "A constant key or repeated masks leave the intersection correct, so no functional test can see them.",
  ["eopsiparty.cpp", "eopsiclient.cpp", "eopsiserver.cpp", "zzprf.cpp"],
  [("key generation", L+"eopsiclient.cpp receive()"), ("masks from disjoint index ranges", L+"eopsiparty.cpp computeTOrQ()/genOmega()")],
  [], ["EOPSIMessage payloads of the cloud request, cloud answer and helper answer"])

p("C09", "The hash table keeps every element and never exceeds a bucket's capacity",
  "For any sequence of insertions, the table holds exactly the inserted elements (duplicates included) in insertion order per bucket; an element's bucket depends only on its digest and the number of buckets, is the same in every table with the same algorithm, and digests that are equidistributed spread equally; the reported size is the number of insertions. Concealment fills every bucket to exactly its capacity behind the real elements and marks exactly the buckets that were empty. An insertion into a full bucket or an access to a non-existent bucket ends the program with a failure status instead of dropping, overwriting or over-filling.",
  ["histories", "inputs"],
  "All sequences of operations (hashed insertion, direct insertion, array insertion, concealment, reads) up to a depth over small tables, all digests of one and two bytes.",
  "hbtest inserts one list into one table shape and only looks at the total and the maximum.",
  ["hashbuckets.hpp", "hashtable.hpp", "markedvector.hpp", "hashalgorithm.hpp", "strint.cpp", "outofboundex.cpp"],
  [("add/addToBucket/conceal/getBucket", L+"hashbuckets.hpp, "+L+"hashtable.hpp")],
  [("buckets", "bucket contents", L+"hashtable.hpp"), ("n", "number of elements", L+"hashtable.hpp")], ["HashBuckets public methods", "process exit status"])

p("C10", "Digests are the standard ones and independent of history",
  "The MurmurHash3 digest of a field element is the published MurmurHash3 x64 128-bit hash, for the given seed, of the element's decimal digits, and the SHA-1 and SHA-256 digests (of field elements, strings and byte arrays) are the standard ones of the same bytes; a length argument smaller than the input hashes just that prefix. A digest depends on nothing else: not on earlier hashes, on other instances, or on memory beyond the input. The algorithm's name and digest size are the right ones, and the readable form is its hexadecimal notation.",
  ["inputs", "histories"],
  "All digit-string lengths up to several blocks (all block tails), all prefix lengths, seeds, and all orders of hashing two or three values on shared and separate instances, against independent reference implementations.",
  "hbtest only looks at the spread of a million digests; equal elements hashing differently passes.",
  ["murmurhash3.cpp", "murmurhash3.h", "sha.hpp", "shazzp.cpp", "shastr.cpp", "shabyte.cpp", "hashalgorithm.hpp", "hashflavour.h"],
  [("hash()", L+"murmurhash3.cpp, "+L+"sha*.cpp")],
  [("hash128, lastHash", "cached digest", L+"murmurhash3.h, "+L+"sha.hpp")], ["HashAlgorithm::hash/hashSize/name/readableDigest"])

p("C11", "Pseudo-random integers are a fixed function of seed, index and length",
  "Asked for a positive number of bits, the generator returns a natural number below two to that number of bits which is a fixed function of seed, index and length: any two generators, whatever they generated before, give the same value. Different seeds or different indices (over the whole range of the index type) give different values for lengths that allow it, and every requested bit position takes both values.",
  ["inputs", "histories"],
  "All sequences of requests up to a depth over an alphabet of seeds, indices and lengths chosen at buffer-growth, byte and digest-block boundaries.",
  "zzrndgen is only checked for range at 32 bits.",
  ["zzprf.cpp", "prf.hpp", "ntlmiss.cpp", "shabyte.cpp"],
  [("iterated SHA-1 expansion with reused buffers", L+"zzprf.cpp generate()")],
  [("gen, hashInput", "reused work buffers", L+"zzprf.h")], ["ZZPRF::generate()"])

p("C12", "Field generators stay in the field, reproduce, and never repeat themselves",
  "A field generator's values lie in the field, have at most the requested bits, and for a given seed, index and length are the same for every generator of that modulus, including one built from an existing integer generator, which stays usable and is released independently. The automatic (seedless) sequence keeps one seed for the life of the generator and never yields a value twice in a sequence of automatic calls (for fields that allow it), and explicit generation never disturbs it.",
  ["inputs", "histories"],
  "All sequences of explicit, seedless and automatic generation calls up to a depth, over moduli, lengths and random-source answers; construction and destruction orders.",
  "No test looks at field generator values, and none builds one from another.",
  ["zzpprf.cpp", "zzpprf.h", "prf.hpp", "zzprf.cpp", "sha.hpp"],
  [("generate()", L+"zzpprf.cpp, "+L+"prf.hpp")],
  [("autoIndex, autoSeed", "state of the automatic sequence", L+"prf.hpp")], ["ZZpPRF::generate(), PseudoRandom::generate()"])

p("C13", "Byte-string integers behave as natural numbers",
  "A byte-string integer represents the natural number whose little-endian bytes were set (only the first bytes, up to its declared maximum, being read); setting, incrementing, adding, remainder, decimal text, least significant word, byte count and big-endian byte export all agree with exact natural-number arithmetic after any sequence of operations. Exporting reuses a large enough buffer and allocates otherwise, and never ends the program.",
  ["histories", "inputs"],
  "All operation sequences up to a depth over operands at byte, word and carry boundaries, all byte strings of length one and two, and all lengths up to several words.",
  "The class is used in the tests only for one remainder per element; the other operations are not called by anything.",
  ["strint.cpp", "strint.h"],
  [("positional sum and GMP arithmetic", L+"strint.cpp")],
  [("z, b", "the number and the work array", L+"strint.h")], ["StrInt public methods"])

p("C14", "Root extraction returns exactly the properly padded roots",
  "From the values of non-zero polynomials at sufficiently many distinct points, extraction returns exactly the field elements that are roots of one of them and end in the configured number of zero bits, unpadded, once per polynomial and in polynomial order, whatever the multiplicities, the leading coefficient and the other (irreducible) factors; zero is such an element. The staged calls, the one-shot call, and both factoring algorithms agree, and one object may be reused for any sequence of batches of any sizes.",
  ["inputs", "histories"],
  "All small products of padded roots, unpadded roots, repeated roots and irreducible factors, all batch-size sequences and all mixtures of the staged and one-shot calls up to a depth.",
  "polyfact only times factorisations done by NTL itself; the intersection code is reached only by the simulation and only once per object.",
  ["zzppoly.cpp", "zzppoly.h", "ntlmiss.cpp"],
  [("interpolate, makeMonic, factorise, findIntersection", L+"zzppoly.cpp")],
  [("polynomials, factorPairs, n", "current batch", L+"zzppoly.h")], ["ZZpPolynomials public methods"])

p("C15", "The chronometer accounts for every interval exactly",
  "For any sequence of start, step, pause, continue, stop and reset calls (named or not), the reported interval, cumulative time, average, variance, standard deviation, minimum and maximum equal those of the recorded intervals, leaving out paused intervals by default and including them on request; named times refer to the moment they were taken. Queries before enough times were taken return zero, times are not taken while stopped, and the paused and stopped states are reported truthfully.",
  ["histories"],
  "All call sequences up to a depth under a controlled clock, with all queries evaluated after every call.",
  "polyfact checks only that the numbers are finite and ordered; with a real clock no exact value can be expected.",
  ["simplebm.cpp", "simplebm.h"],
  [("takeTime and the pause flags", L+"simplebm.cpp")],
  [("times, pauses, cursors, stopped", "the record", L+"simplebm.h")], ["SimpleBenchmark public methods"])

p("C16", "Fatal errors end the process with their code; others are catchable",
  "Raising a non-fatal error gives a catchable exception carrying exactly its message, fatality and exit code, through every exception type of the library and as a standard exception. Raising a fatal one terminates the process at once, with the error's exit code, after printing its message to standard error.",
  ["inputs"],
  "All exception types, messages, fatality flags and exit codes of a small alphabet, and all places of the library that raise fatal errors.",
  "No test raises an exception.",
  ["exception.cpp", "exception.h", "outofboundex.cpp", "outofboundex.h", "protocolex.h"],
  [("handleFatality()", L+"exception.cpp")], [], ["exit status and standard error of a child process"])

p("C17", "Number helpers: padding is reversible and sizes are exact",
  "Padding a number by n zero bits multiplies it by two to the n and is undone by dropping n bits; padding to a total width gives that width less one bit for every smaller non-zero number and leaves wider numbers alone; trailing zeros are counted exactly. Base-two logarithms, block counts and byte counts (of bit lengths, integers and field elements) are the exact mathematical ones, and conversions between arrays, vectors and field vectors keep every entry in order.",
  ["inputs"],
  "All integers of up to 12 bits, all powers of two and their neighbours up to several hundred bits, all pad sizes in a range, all vectors of small lengths.",
  "The helpers are exercised by the tests only at one bit width.",
  ["ntlmiss.cpp", "ntlmiss.h"],
  [("helpers", L+"ntlmiss.cpp")], [], ["NTL:: helper functions"])

p("C18", "The hash table's self-report is true",
  "The statistics a table prints (number of buckets and capacity, total, fill percentage, minimum and maximum with a bucket that attains them, mean, variance, standard deviation and the per-bucket sizes) are exactly those of its current content, for every content. By default at most the first thirty buckets of a larger table are listed, and all of them on request.",
  ["inputs", "histories"],
  "All fillings of small tables up to a capacity, with and without concealment, and tables around the listing limit.",
  "hbtest is read only for the total and the maximum of one table.",
  ["hashbuckets.hpp"],
  [("printStats()", L+"hashbuckets.hpp")], [], ["standard output of printStats()"])

p("C19", "Running out of memory never produces a wrong answer",
  "Whichever C++ memory allocation (operator new) fails during a complete protocol run, alone or together with those that follow it, the run either still ends with the exact intersection, or ends in a catchable out-of-memory error or an orderly failure exit. It never crashes or corrupts memory and never reports a different intersection, neither then nor when the parties that caught the error try again. Likewise each building block (digests, generators, byte-string integers, hash table, root extraction, chronometer) gives the right value or such an error, and the right value from the same object afterwards.",
  ["fault_sequences"],
  "Every C++ allocation of a complete protocol run (set-up, outsourcing, computation, result) and of each building block's work made to fail, one at a time, and the same objects used again afterwards.",
  "No test injects a failure.",
  ["eopsiclient.cpp", "eopsiparty.cpp", "eopsiserver.cpp", "hashbuckets.hpp", "zzprf.cpp", "zzppoly.cpp", "strint.cpp", "sha.hpp"],
  [("std::bad_alloc handlers", "all allocation sites")], [], ["exit status, exceptions, getIntersection()"])

p("C20", "Misfitting input is refused, never silently answered",
  "A client refuses, with a catchable error and before anything is blinded, raw data whose declared width leaves no room for padding in the field, and raw data containing an element that is negative or wider than declared; where its hash table or degree does not suit the protocol's shape, it either refuses or its runs are exact all the same. Every set that fits is accepted, a client without data leaves the other parties unaffected, and giving a client that has data none, or data it refuses, changes nothing.",
  ["inputs", "configurations"],
  "All declared widths around the field width, elements around the declared width at every position of a set.",
  "The tests always declare 32 bits in a 113-bit field.",
  ["eopsiclient.cpp"],
  [("setRawData()", L+"eopsiclient.cpp")], [], ["EOPSIClient::setRawData()"])

p("C21", "The utility programs deliver what they announce",
  "For every accepted argument, the number generator writes the announced header and exactly the requested amount of naturals of at most the requested bits, and the table-sizing program's table has an overflow probability bound within the target it was given and room for all elements, or says that the target was not met. The protocol simulation ends by finding its result correct whenever every bucket has room for all elements and the field for padding; the hash table program's statistics are those of the table its numbers fill; the factoring program's statistics are consistent with each other and with the experiments asked for.",
  ["configurations"],
  "All arguments in a range around the special cases of the programs.",
  "The tests run one generator configuration, one simulation, one hash table and twenty sizing configurations, and look at exit codes or a fixed word only.",
  ["src/test/zzrndgen.cpp", "src/test/cherpars.cpp", "src/test/eopsisimul.cpp", "src/test/hbtest.cpp", "src/test/polyfact.cpp"],
  [("main()", "src/test/zzrndgen.cpp, src/test/cherpars.cpp, src/test/eopsisimul.cpp, src/test/hbtest.cpp, src/test/polyfact.cpp")], [], ["exit status, output, written file"])

p("C22", "What is no longer in use is released",
  "Repeating any history of completed runs (with the answers arriving in either order), outsourcings and refused requests with the same parties needs no more memory the further it goes: neither the requester, nor the helper, nor the cloud keeps anything of a finished run but the intersection learnt. Releasing parties, tables, algorithms, generators, byte-string integers, polynomial batches and chronometers (once every answer under way has arrived) releases all they allocated, whatever they were used for before; and a building block used over and over, batches and inputs of varying sizes and a table given another algorithm included, keeps no more than its latest use needs.",
  ["histories"],
  "All short periods of runs, outsourcings and refused requests repeated over and over by three clients and a cloud, whole systems built and taken down, and every building block made and released or used repeatedly in every way of a list.",
  "Every test is one short-lived process, whose memory is taken back when it ends.",
  ["eopsiclient.cpp", "eopsiserver.cpp", "eopsiparty.cpp", "zzppoly.cpp", "zzprf.cpp", "strint.cpp", "sha.hpp", "hashbuckets.hpp", "simplebm.cpp"],
  [("who releases the answers, the cloud request and the temporary matrices", L+"eopsiclient.cpp, "+L+"eopsiserver.cpp"), ("owned buffers and their replacement", "destructors and (re)allocations of all classes")], [], ["bytes of the heap in use, before and after"])

p("C23", "Nobody is told more than the protocol says",
  "In every run exactly four messages pass: the requester's request to the helper, the helper's request to the cloud, and the two answers, both to the requester; nobody else receives anything. The helper's request holds the two names and the key and nothing else that depends on anybody's secret or elements, and the key depends on neither names, secrets nor elements. The number, senders, types and sizes of the messages do not depend on elements, secrets or what happened before. The helper's answer is a function of the key and the two secrets, never of its own or the requester's elements; the cloud's answer is a function of the key and the two data sets, whoever asks, whoever else is there and whatever it answered before, and another key gives another answer.",
  ["inputs", "histories"],
  "All pairs of sets over a small universe and of sizes, all pairs of secrets and names of a list, and all short histories of runs, outsourcings and refused requests: each execution is compared, message by message, with one that differs only in what must not show.",
  "It is a relation between executions; every single one of them can end with the right intersection while it is broken.",
  ["eopsiclient.cpp", "eopsiserver.cpp", "eopsiparty.cpp", "eopsimsg.cpp"],
  [("what is put in the messages", L+"eopsiclient.cpp receive()/delegationOutput(), "+L+"eopsiserver.cpp receive()/intersectionOutput(), "+L+"eopsiparty.cpp computeTOrQ()")],
  [("msgToCloud, msgToClient", "messages reused from run to run", L+"eopsiclient.h, "+L+"eopsiserver.h")], ["EOPSIParty::receive() of every party: type, sender, size and content of every message"])

p("C24", "Objects report and carry what they were given",
  "After any sequence of set operations and copies, messages report the sender, type, data and length last given to them (an unknown type and no data if none was), copies being independent. Sending delivers the very message to its addressee once and to nobody else, refuses a missing message, and lets whatever the addressee raises reach the sender unchanged. Parties report their name, kind, field, degree, secret and data as given at construction or set later, and what was set before a client's data were given is what its runs use. Tables, bucket marks, field generators and root extractors report their parameters.",
  ["histories", "inputs"],
  "All sequences of set operations up to a depth over messages, parties, marks, and all sequences of sends with all reactions of the addressee.",
  "The tests never ask an object what it is.",
  ["eopsimsg.cpp", "eopsiparty.cpp", "eopsiclient.cpp", "hashbuckets.hpp", "hashtable.hpp", "markedvector.hpp", "zzpprf.cpp", "zzppoly.cpp"],
  [("get and set methods, send()", "the files named")], [], ["public get methods"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
