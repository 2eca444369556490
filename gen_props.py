import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
allT=["sortyI4.go","sortyI8.go","sortyU4.go","sortyU8.go","sortyF4.go","sortyF8.go","sortyS.go","sortyB.go","sortyLenS.go","sortyLenB.go","sortyLsw.go"]
p("C01","SortSlice leaves every supported non-float slice in ascending order",
 "After SortSlice returns, the slice is in ascending order by Go's < for its element type (signed or unsigned integers of each width, pointers by address, strings and byte slices lexicographically), for every length from zero up and every content, including extreme values, heavy duplication and adversarial arrangements. This holds whichever internal path (insertion, short, long, concurrent) the length and MaxGor select.",
 ["inputs","configurations"],"all slice lengths, all element values and arrangements, all MaxGor values",
 "The tests sort a handful of 10-million-element uniformly random slices (and one fixed []int), so ties, extreme values, tiny and threshold lengths at the top level, equal-prefix or different-length strings and adversarial arrangements are never quantified over.",
 ["sortySlice.go","sortyI4.go","sortyI8.go","sortyU4.go","sortyU8.go","sortyS.go","sortyB.go","sorty.go"],
 [("partitioning around a sampled pivot","partOne*/partTwo*/partCon* in each sorty*.go"),("insertion sort of short ranges","insertion*"),("drivers that cover every sub-range","short*/long*/sort*"),("pivot between two samples","pivot*, sixb.Mean*")],
 obs=["SortSlice","IsSortedSlice"])
p("C02","Sorting only rearranges: same elements, nothing outside the slice touched",
 "Every Sort* call ends with exactly the elements it started with (bit-identical values, including NaN payloads and signed zeros, and the same string/slice headers), merely reordered. Memory outside [0,len) of the given slice, including the spare capacity behind it, and the bytes that strings and sub-slices point to are never written.",
 ["inputs","configurations"],"all slices of every supported type, all contents, all lengths and capacities, all NaNoption and MaxGor values",
 "Tests compare sorted values against sort.Slice on random data with ==; identities of equal elements, NaN payloads, neighbouring memory and spare capacity are never examined.",
 allT+["sortySlice.go","sortyLen.go"],
 [("every write is half of a swap or a shift of a saved element","insertion*/partOne*/partTwo*/partCon*"),("sub-slices are cut inside the parent","short*/long*/sort*"),("slice header rebuilt with cap=len","extractSK in sorty.go")],
 obs=["SortSlice","SortLen","Sort"])
p("C03","Float slices: NaNs at the end NaNoption selects, the rest ascending",
 "SortSlice on a float slice puts all NaNs (of any sign and payload) at the end under NaNlarge or at the start under NaNsmall and the remaining values, infinities and both zeros included, in ascending order; with NaNignore it sorts every NaN-free slice. IsSortedSlice returns 0 afterwards under the same option.",
 ["inputs","configurations"],"all float32/float64 slices including any mix of NaNs, infinities, zeros and denormals; the three NaNoption values",
 "Tests draw random 32-bit patterns for float32 only (0.4% NaNs), so all-NaN, NaN-at-the-boundary, tiny and zero-sign cases, and float64 with each option, are not covered.",
 ["sortyF4.go","sortyF8.go","sorty.go","sortySlice.go"],
 [("NaN separation pass before sorting","sortF4/sortF8"),("NaN-free partition and insertion","partOneF*/partTwoF*/insertionF*"),("NaN-aware check","isSortedF4/isSortedF8")],
 state=[("NaNoption","global float option","sorty.go")],obs=["SortSlice","IsSortedSlice"])
p("C04","SortLen orders strings and slices of any element type by length",
 "After SortLen returns, the lengths of the elements are non-decreasing, for []string and [][]T with any element type T, every slice length and every combination of element lengths, whatever the contents; nil and empty elements count as length zero.",
 ["inputs","configurations"],"all []string and [][]T values, all lengths, all MaxGor values",
 "Tests use random lengths of [][]byte and []string only, in slices of millions of elements; equal lengths, small slices and other element types are not covered.",
 ["sortyLen.go","sortyLenS.go","sortyLenB.go","sorty.go"],
 [("length-keyed partition/insertion","sortyLenS.go, sortyLenB.go"),("kind >= sliceBias dispatch","SortLen")],obs=["SortLen","IsSortedLen"])
p("C05","Sort sorts any collection whose lesswap is a strict weak order",
 "For every n and every lesswap that follows the documented contract with a strict weak ordering, Sort leaves the collection sorted: no element is less than its predecessor. Zero, negative and one-element n leave it alone without ever calling lesswap.",
 ["inputs","configurations","schedules"],"all n, all strict weak orders over all contents, all MaxGor values",
 "Tests use random data with few ties in million-element collections, and the swapped-pivot corner of the concurrent partition is only hit by chance.",
 ["sortyLsw.go","sorty.go"],
 [("in-place pivot that is tracked when it is swapped","partCon in sortyLsw.go"),("partition by position","partOne/partTwo"),("range drivers","short/long/Sort")],obs=["Sort","IsSorted"])
p("C06","Lesswap and predicate callbacks only ever see valid indices",
 "Every index Sort or IsSorted passes to the user's lesswap lies in [0,n), every call happens before Sort returns, and IsSorted and Search never cause a swap or a call outside [0,n). For n <= 1 lesswap is never called.",
 ["inputs","configurations"],"all n, all lesswap answers consistent with a strict weak order, all MaxGor values",
 "An out-of-range index would only show up in a test whose collection is exactly n long and whose data drives that path; tests use a few fixed sizes.",
 ["sortyLsw.go","sorty.go"],
 [("index bounds in partition/insertion loops","insertion/partOne/partTwo/partCon/pivot/short"),("3rd=4th disables swap","IsSorted, partOne")],obs=["Sort","IsSorted","Search"])
p("C07","IsSorted* report sortedness exactly",
 "IsSorted, IsSortedSlice and IsSortedLen return 0 exactly when the collection is in ascending order (by value, by length, or by the given less; floats per NaNoption), and otherwise return an index i in [1,n) whose element is less than (or, for floats, not comparable as at least) its predecessor. They change nothing.",
 ["inputs","configurations"],"all collections of every supported type and length, all NaNoption values",
 "Tests call these functions only on sorted data and expect 0; a wrong answer on unsorted data, a skipped pair or a wrong index is never observed.",
 ["sortySlice.go","sortyLen.go","sortyLsw.go"]+allT,
 [("backward scan over adjacent pairs","isSorted*"),("NaN run skipped at one end","isSortedF4/isSortedF8")],obs=["IsSorted","IsSortedSlice","IsSortedLen"])
p("C08","Search returns the least true index for every monotone predicate",
 "For every n >= 0 (up to the largest int) and every predicate fn with fn(k) implying fn(k+1), Search returns the lowest k in [0,n) with fn(k) true, or n if there is none. It calls fn only with arguments in [0,n) and terminates after at most 64 calls.",
 ["inputs"],"all n in [0, maxint], all monotone predicates",
 "One test looks up two values in a 180-element slice; large n (where the midpoint could overflow) and boundary thresholds are untested.",
 ["sorty.go"],[("binary search with overflow-free mean","Search, sixb.MeanI")],obs=["Search"])
p("C09","Every Sort* call finishes all its work, under every schedule, and never hangs",
 "Under every interleaving of the goroutines a Sort* call creates, the call returns (it never deadlocks), and when it returns no goroutine it started still works on, or is still going to touch, the collection. No goroutine it started is left blocked forever.",
 ["schedules","inputs","configurations"],"all interleavings of the caller, the partition helper and the sorting goroutines; all range splits; all values MaxGor takes during the call",
 "Tests run a few schedules the Go scheduler happens to pick; the windows in the counter/channel handshake (last one out signals) are a few instructions wide.",
 allT+["sorty.go"],
 [("goroutine counter and end signal","syncVar in sorty.go; atomic.AddUint64 in gLong*/long*/sort*"),("partition helper sends its result","gPartOne*/partCon*")],
 state=[("syncVar.nGor","number of sorting goroutines","sorty.go"),("syncVar.done","unbuffered end/partition signal","sorty.go")],obs=["SortSlice","SortLen","Sort"])
p("C10","At most MaxGor goroutines sort at once; none for MaxGor <= 1 or short input",
 "While MaxGor keeps one value, at no moment of any schedule do more than MaxGor goroutines (the caller and partition helpers included) work on one Sort* call. With MaxGor <= 1, or fewer than twice MaxLenRec+1 elements (MaxLenRecFC for strings, byte slices by value and Sort), the call creates no goroutine and no channel, it never creates more than one channel, and no sorting goroutine is started on MaxLenRec (MaxLenRecFC) elements or fewer.",
 ["schedules","configurations","inputs"],"all interleavings, all MaxGor values including 0, all lengths and range splits",
 "No test counts goroutines or channels; the quota is checked in one step and taken in another, so only particular schedules exceed it.",
 allT+["sorty.go"],
 [("quota check","gorFull in sorty.go"),("counter increments before go","long*/sort*"),("entry test on length and MaxGor","sort*/Sort")],
 state=[("MaxGor","goroutine quota","sorty.go"),("syncVar.nGor","goroutines in use","sorty.go")],obs=["SortSlice","SortLen","Sort"])
p("C11","Goroutines of one sort never touch the same element unsynchronised",
 "Within one Sort* call no two goroutines access the same element (or the same auxiliary memory), with at least one of them writing it, unless the accesses are ordered by the call's own synchronisation. Under the Go memory model element accesses are therefore free of data races for every input and schedule. (MaxGor itself, which may deliberately be changed live and is read without ordering, is not part of this.)",
 ["schedules","inputs","configurations"],"all inputs, range splits, interleavings and MaxGor values",
 "The tests are not run under the race detector, and a race on one boundary element shows as a wrong result only in rare schedules.",
 allT,
 [("disjoint sub-slices per goroutine","partCon*: mid range vs outer ranges; long*/sort*: aq vs ar"),("channel receive before the gap is closed","partCon*")],obs=["SortSlice","SortLen","Sort"])
p("C12","Exactly the documented types are accepted and each is compared as itself",
 "SortSlice/IsSortedSlice and SortLen/IsSortedLen accept exactly the slice types their documentation lists, including named types with such an underlying type, and compare elements with that type's own width and signedness on 32- and 64-bit platforms. For any other argument they panic and leave it unchanged.",
 ["inputs","configurations"],"all argument types (kinds of argument, element and element's element), 32-bit and 64-bit int",
 "Tests call the API with ten concrete types and never with a rejected one, a named type, int, uint, uintptr or pointer elements other than one []int.",
 ["sorty.go","sortySlice.go","sortyLen.go"],
 [("kind extraction and mapping to hardware types","extractSK"),("dispatch on kind","SortSlice/IsSortedSlice/SortLen/IsSortedLen")],obs=["SortSlice","IsSortedSlice","SortLen","IsSortedLen"])
p("C13","Recursion depth stays logarithmic for every input",
 "Whatever the input, the call stack of every goroutine of a Sort* call nests only O(log n) deep: each recursive step is on at most half of the range its caller holds. Sorting is therefore in place, with no memory use that grows linearly, even for adversarial inputs.",
 ["inputs","configurations"],"all inputs and range splits, all MaxGor values",
 "On random data even recursion on the longer range stays shallow, so tests cannot tell.",
 allT,[("recurse on the shorter range, loop on the longer","short*/long*")],obs=["SortSlice","SortLen","Sort"])
p("C14","Every call terminates without panicking on every supported input",
 "For every supported argument, Sort*, IsSorted* and Search terminate without a run-time panic (index out of range, nil dereference, overflowed bound). In particular each partitioning step of a sort splits its range into two strictly smaller non-empty parts, whatever the values and ties.",
 ["inputs","configurations"],"all supported arguments, all contents, all lengths, all MaxGor and NaNoption values",
 "Non-termination or an out-of-range index needs a particular arrangement of ties around the pivot or a particular length; random data does not produce it.",
 allT+["sorty.go","sortySlice.go","sortyLen.go"],
 [("pivot is a median of samples, so both sides get one","pivot*/short*"),("loop bounds","partOne*/partTwo*/partCon*/insertion*"),("pointer comparison to tell one range from two","short* isort label")],obs=["SortSlice","SortLen","Sort","IsSortedSlice","Search"])
p("C15","Pivot samples are inside the range, equidistant and optimally spread",
 "For every sample count the library uses and every range of at least twice as many elements (up to 2^32 and beyond), the pivot samples are distinct in-range positions at equal steps of at least 2, with end tails that differ by at most one, minimising the largest distance to a non-sample. The four-sample table version agrees with the general one for every 32-bit length of at least 8.",
 ["inputs"],"all range lengths up to 2^63-1 (2^32-1 for the four-sample version), all sample counts 2..24",
 "TestMinMax checks lengths up to 1800 only; overflow, table and rounding errors beyond that are out of its reach.",
 ["sorty.go"],[("sample arithmetic","minMaxSample, minMaxFour, firstFour, stepFour")],obs=["minMaxSample","minMaxFour"])
p("C16","Calls are independent of each other and of MaxGor changes while they run",
 "The outcome of a Sort* call does not depend on other calls running at the same time nor on any values MaxGor takes while it runs: no call writes package-level state, and every MaxGor value (zero and huge included) read at any moment yields a correct sort. Sort*, IsSorted* and Search leave MaxGor, NaNoption and every other package variable unchanged.",
 ["histories","configurations","schedules"],"all sequences of MaxGor values observed during a call, all concurrent sets of calls on disjoint collections",
 "TestConcurrent runs four concurrent sorts with a constant MaxGor of 2..4; MaxGor is never changed during a sort, nor set to 0 or a huge value.",
 allT+["sorty.go"],
 [("per-call syncVar","sort*/Sort"),("MaxGor is only read","gorFull, sort*/Sort")],state=[("MaxGor","goroutine quota","sorty.go"),("NaNoption","float option","sorty.go")],obs=["SortSlice","SortLen","Sort"])
p("C17","Sorting pointers keeps every pointee visible to the garbage collector",
 "While SortSlice sorts a []*T or []unsafe.Pointer, with a garbage collection running at any moment, every object reachable from the slice stays allocated and intact. Elements that hold pointers are therefore only ever moved as pointers, never as plain integers.",
 ["schedules","inputs"],"all pointer slice types, all lengths and contents, all moments at which a garbage collection can run",
 "No test sorts pointers at all, and the loss needs a collection cycle to overlap the moment an element is in flight.",
 ["sorty.go","sortySlice.go"],
 [("typed moves with write barriers","SortSlice dispatch of pointer kinds"),("kind mapping","extractSK")],obs=["SortSlice"])
with open("properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
