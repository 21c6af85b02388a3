// Random engines in contracts that link absrandom.cpp
#pragma once
#include "vf.h"
#include "rapidcheck/Random.h"
inline rc::Random vr_any(const char *name) { return rc::Random(vf_u64(name)); }
inline uint64_t vr_id(const rc::Random &r) { return r.m_key[0]; }
inline uint64_t vr_drawn(const rc::Random &r) { return r.m_counter; }
