package common/filter/bloom
spec func bxor(int, int) int
spec func bit(int, int) bool

// hashes added since the filter was created or cleared
ghostfield Filter.added : set[int]

def slot(f, h, i) := bxor(h, f.seeds[i]) % f.bitCnt
def isset(f, p) := bit(f.bits[p / 64], p % 64)
def shape(f) := f != nil && f.bitCnt >= 1 && f.bitCnt == 64 * len(f.bits) && base(f.bits) != base(f.seeds)
// every bit of every added hash is set
def wf(f) := shape(f) && (forall h, i :: {f.added[h], f.seeds[i]} f.added[h] && 0 <= h && h <= 18446744073709551615 && 0 <= i && i < len(f.seeds) ==> isset(f, slot(f, h, i)))

func New(capacity, falsePositiveRate) (f)
  property C12
  requires 1 <= capacity && capacity <= 1125899906842624
  requires real(0) < falsePositiveRate && falsePositiveRate < real(1)
  allocates Filter, []uint64
  ghostset f.added := constfn(false)
  ensures fresh(f) && wf(f)
  loop 0
    invariant 0 <= idx && idx <= seedCnt && len(seeds) == seedCnt

func Filter.pos(f, h, seed) (index, offset)
  property C12
  requires shape(f)
  ensures index == (bxor(h, seed) % f.bitCnt) / 64 && offset == (bxor(h, seed) % f.bitCnt) % 64
  ensures 0 <= index && index < len(f.bits) && 0 <= offset && offset < 64

func Filter.Add(f, hash)
  property C12
  requires wf(f)
  modifies f.bits[*], f.added
  ghostset f.added := f.added[hash := true]
  ensures wf(f)
  ensures[kept] forall h :: {f.added[h]} f.added[h] <==> old(f.added)[h] || h == hash
  loop 0
    invariant shape(f) && 0 <= idx && idx <= len(f.seeds)
    invariant forall i :: {f.seeds[i]} 0 <= i && i < len(f.seeds) ==> f.seeds[i] == old(f.seeds[i])
    invariant[set] forall i :: {f.seeds[i]} 0 <= i && i < idx ==> isset(f, slot(f, hash, i))
    invariant[no bit is ever unset] forall j, b :: {bit(f.bits[j], b)} 0 <= j && j < len(f.bits) && 0 <= b && b < 64 && bit(old(f.bits[j]), b) ==> bit(f.bits[j], b)

func Filter.AddBytes(f, b)
  property C12
  requires wf(f)
  modifies f.bits[*], f.added
  allocates content
  ensures wf(f) && f.added[fnv64(str(b))]
  ensures[kept] forall h :: {f.added[h]} old(f.added)[h] ==> f.added[h]

func Filter.AddString(f, s)
  property C12
  requires wf(f)
  modifies f.bits[*], f.added
  allocates content, []byte
  ensures wf(f) && f.added[fnv64(s)]
  ensures[kept] forall h :: {f.added[h]} old(f.added)[h] ==> f.added[h]

func Filter.Contains(f, hash) (r)
  property C12
  requires wf(f)
  ensures[no false negative] f.added[hash] ==> r
  loop 0
    invariant 0 <= idx && idx <= len(f.seeds)

func Filter.ContainsBytes(f, b) (r)
  property C12
  requires wf(f)
  allocates content
  ensures[no false negative] f.added[fnv64(str(b))] ==> r

func Filter.ContainsString(f, s) (r)
  property C12
  requires wf(f)
  allocates content, []byte
  ensures[no false negative] f.added[fnv64(s)] ==> r

func Filter.Clear(f)
  property C12
  requires wf(f)
  modifies f.bits[*], f.added
  ghostset f.added := constfn(false)
  ensures wf(f)
  ensures[all gone] forall j :: {f.bits[j]} 0 <= j && j < len(f.bits) ==> f.bits[j] == 0
  loop 0
    invariant shape(f) && 0 <= idx && idx <= len(f.bits)
    invariant forall j :: {f.bits[j]} 0 <= j && j < idx ==> f.bits[j] == 0
    invariant forall i :: {f.seeds[i]} 0 <= i && i < len(f.seeds) ==> f.seeds[i] == old(f.seeds[i])

func Filter.Len(f) (n)
  property C12
  requires wf(f)
  ensures n == f.bitCnt

func Filter.hash(f, b) (h)
  property C12
  allocates content
  ensures h == fnv64(str(b))
