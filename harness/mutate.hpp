// Damaging well-formed bytes.
#pragma once
#include "gen.hpp"

namespace vh {

// `count` random edits of the bytes
void mutate(Rng& r, Bytes& b, unsigned count);
// A trun box without per-sample fields announcing millions of samples is a known finding (C02); its count is lowered so
// that other monitors are not occupied by it. `file`: scan for trun boxes, else `b` is the payload of one.
void tame_trun(Bytes& b, bool file);
Bytes random_soup(Rng& r);  // headers of known types with random payloads, nested at random
Bytes deep_chain(Rng& r);

}  // namespace vh
