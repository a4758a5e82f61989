#pragma once
#include "expr.h"
#include <memory>
#include <unordered_map>

typedef std::shared_ptr<const Model> ModelP;

enum class Res { Sat, Unsat, Unknown };

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, lia = 0; double time = 0, maxTime = 0; };
extern SolverStats g_ss;
extern unsigned g_queryTimeoutMs;

// pc: full path condition; base: model satisfying pc (non-null); q: extra condition.
// On Sat, 'out' is a model of pc && q.
Res solveWith(const std::vector<E> &pc, const ModelP &base, E q, ModelP &out);
