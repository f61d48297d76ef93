# what is claimed, with the property-specific note; the rest with the reason why not
CLAIMED = {
 "C01": "Assumes machine memory suffices for allocation and fewer than 2^63 elements.",
 "C02": "Assumes machine memory suffices for allocation and fewer than 2^63 elements.",
 "C03": "Assumes the ordering callback is pure, deterministic and a strict weak ordering, and element equality is reflexive.",
 "C04": "Assumes the ordering callback is a strict weak ordering and arity times length fits an int.",
 "C05": "Assumes the ordering callback is a strict weak ordering and key equality is reflexive.",
 "C06": "Assumes the ordering callback is a strict weak ordering.",
 "C07": "Assumes the 64-bit counters do not wrap, written slices do not alias the ring's private array, and memory suffices.",
 "C08": "Assumes the 64-bit counters do not wrap, written slices do not alias the ring's private array, and memory suffices.",
 "C09": "Assumes the 64-bit counters do not wrap, written slices do not alias the ring's private array, and memory suffices.",
 "C14": "bits.Len64 is given its exact bit-vector meaning; Max, Min and Abs are instantiated at the listed types; NaN is excluded. Log2 is not covered.",
 "C10": "Assumes element equality is reflexive (no NaN).",
 "C11": "The lock is given its mutual-exclusion meaning (acquire: any state that satisfies the invariant; release: the atomic step); callbacks do not touch the map; UnsafeX methods are used only under the caller's own synchronisation. Map keys are hashable.",
 "C12": "Capacity up to 2^50; math.Log of a float64 in (0,1) is assumed to lie in (-746, 0); rates are real numbers.",
 "C13": "hash/maphash is assumed to compute a function of its seed and of the bytes written since Reset.",
 "C15": "time.Time is a point of a monotonic clock; the mutex is given its mutual-exclusion meaning.",
 "C16": "Rates from 0 to 2^28 per second, capacity from 0 to 2^62 (beyond, the int arithmetic of the refill can overflow); monotonic clock; the mutex is given its mutual-exclusion meaning.",
 "C17": "Positive slot and window lengths; finite sums over the slots are axiomatised (contracts/sums.spec); monotonic clock; the mutex is given its mutual-exclusion meaning.",
 "C19": "time.Time is a point of a monotonic clock; timers and cancellation may fire at any moment; the mutex is given its mutual-exclusion meaning; that a waiting consumer is woken in time (liveness) is tested by the replay harness only.",
 "C20": "Tick at least 1 ms, wheel size 2 to 2^18, schedules below the year 2527. add and advance are taken one at a time (currentTime, overflowWheel and bucket expiries are treated as plain fields); a bucket's expiry does not change while it is queued and the flush callback does not touch the flushed bucket; time is a monotonic clock; the bucket mutexes are given their mutual-exclusion meaning.",
 "C21": "The record-to-map conversion (JSON), the database's Exec and strings.Join are trusted contracts: a record's fields are a function of the record; two records with equally many fields, one's within the other's, have the same fields. What the SQL text says beyond its column list is tested by the replay harness only. Batches given directly to BatchInsertTableRecords are within the placeholder limit.",
 "C18": "Positive slot and window lengths, non-nil rules; sort.Slice is trusted to sort; finite sums over the slots are axiomatised (contracts/sums.spec); monotonic clock; the mutex is given its mutual-exclusion meaning.",
 "C22": "encoding/base64, strconv, crypto/md5, encoding/hex, fmt's %x and io.Copy are trusted contracts (decoding inverts encoding in the same alphabet; a digest is a function of the bytes); a stream whose reads fail is outside.",
 "C23": "crypto/aes, crypto/cipher (CBC decryption inverts encryption under the same key and vector) and bytes.Repeat are trusted contracts; texts up to 2^60 bytes.",
 "C24": "Characters are runes, an invalid byte counting as U+FFFD; strings.Split, strings.Contains and the one regular expression are trusted contracts.",
 "C27": "fmt.Sprintf is a function of format and values, math.Log/Pow are given their values (float64 rounds sizes a 2^-40th part below 2^50 and 2^60 up: excluded); RandStr is called with a size of at least 0; case mapping and the first character are the standard library's.",
}
_wip = "contracts not written yet"
NA = {x["id"]: _wip for x in P if x["id"] not in CLAIMED}
NA["C28"] = "a statistical statement about the distribution of FNV hashes and random seeds; no pre/postcondition over program states expresses it"
NA["C29"] = "liveness under fair schedules and real-time accuracy: partial-correctness contracts and invariants express neither"
