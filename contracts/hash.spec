package common/hash

def wf(h) := h != nil && h.h != nil

func New() (h)
  property C13
  allocates Hash, hash/maphash.Hash, content
  ensures wf(h) && fresh(h) && fresh(h.h)

// the value depends on the bytes and the instance's seed only, whatever was hashed before
func Hash.Sum64(h, b) (r)
  property C13
  requires wf(h)
  modifies content(h.h)
  ensures r == maphash(h.h.seed, str(b))

func Hash.Sum64String(h, s) (r)
  property C13
  requires wf(h)
  modifies content(h.h)
  allocates []byte
  ensures r == maphash(h.h.seed, s)
