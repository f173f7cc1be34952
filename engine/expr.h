// Expression layer of vse: hash-consed bit-vector terms with simplification,
// concrete evaluation and conversion to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <cmath>
#include <z3.h>

enum Op : uint8_t {
	O_CONST, O_SYM, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
	O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
	O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_NOT,
	O_UMULO, O_SMULO,
	O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS, O_FCMP, O_FPEXT, O_FPTRUNC,
	O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI,
};

typedef std::vector<uint32_t> SymSet;

struct Expr {
	Op op;
	uint8_t w;       // width in bits, 1..64
	uint8_t lo;      // extract low bit / fcmp predicate
	bool undef;      // depends on an uninitialised byte
	uint32_t id;
	uint64_t c;      // constant value / symbol id
	const Expr *k[3];
	const SymSet *syms;
	uint64_t umin, umax; // unsigned bounds (the digit symbols' own bounds are path conditions)
	mutable Z3_ast z;
	mutable uint64_t gen;
	mutable uint64_t val;
};
typedef const Expr *E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) {
	if (w >= 64) return (int64_t)v;
	uint64_t m = 1ull << (w - 1);
	v &= maskw(w);
	return (int64_t)((v ^ m) - m);
}

struct SymInfo { std::string name; bool undef; uint64_t umax; };

struct ExprPool {
	struct Key {
		Op op; uint8_t w, lo; uint64_t c; E k0, k1, k2;
		bool operator==(const Key &o) const {
			return op == o.op && w == o.w && lo == o.lo && c == o.c && k0 == o.k0 && k1 == o.k1 && k2 == o.k2;
		}
	};
	struct KH {
		size_t operator()(const Key &k) const {
			uint64_t h = k.op * 1000003ull + k.w * 131ull + k.lo * 31ull;
			h = (h ^ k.c) * 0x9E3779B97F4A7C15ull;
			h = (h ^ (uint64_t)(uintptr_t)k.k0) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
			h = (h ^ (uint64_t)(uintptr_t)k.k1) * 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
			h = (h ^ (uint64_t)(uintptr_t)k.k2) * 0x94D049BB133111EBull; h ^= h >> 29;
			return h;
		}
	};
	std::unordered_map<Key, E, KH> tab;
	uint32_t nextId = 0;
	std::vector<SymInfo> syms;
	std::vector<E> symExpr;
	std::unordered_map<std::string, uint32_t> symByName;
	std::map<SymSet, const SymSet *> sets;
	const SymSet *emptySet;

	ExprPool() { emptySet = internSet(SymSet()); }

	const SymSet *internSet(SymSet &&s) {
		auto it = sets.find(s);
		if (it != sets.end()) return it->second;
		const SymSet *p = new SymSet(s);
		sets.emplace(s, p);
		return p;
	}
	const SymSet *uni(const SymSet *a, const SymSet *b) {
		if (a == b || b->empty()) return a;
		if (a->empty()) return b;
		SymSet r;
		std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
		return internSet(std::move(r));
	}
	E mk(Op op, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, uint64_t cv = 0, unsigned lo = 0) {
		Key k{op, (uint8_t)w, (uint8_t)lo, cv, a, b, c};
		auto it = tab.find(k);
		if (it != tab.end()) return it->second;
		Expr *e = new Expr;
		e->op = op; e->w = w; e->lo = lo; e->c = cv;
		e->k[0] = a; e->k[1] = b; e->k[2] = c;
		e->id = nextId++; e->z = nullptr; e->gen = 0; e->val = 0; e->undef = false;
		const SymSet *s = emptySet;
		for (int i = 0; i < 3; i++) if (e->k[i]) { s = uni(s, e->k[i]->syms); e->undef |= e->k[i]->undef; }
		if (op == O_SYM) { SymSet t; t.push_back((uint32_t)cv); s = internSet(std::move(t)); e->undef = syms[cv].undef; }
		e->syms = s;
		bounds(e);
		tab.emplace(k, e);
		return e;
	}
	void bounds(Expr *e) {
		uint64_t m = maskw(e->w);
		E a = e->k[0], b = e->k[1];
		e->umin = 0; e->umax = m;
		switch (e->op) {
		case O_CONST: e->umin = e->umax = e->c; break;
		case O_SYM: if (syms[e->c].umax < m) e->umax = syms[e->c].umax; break;
		case O_ZEXT: e->umin = a->umin; e->umax = a->umax; break;
		case O_EXTRACT: if (e->lo == 0) { if (a->umax <= m) { e->umin = a->umin; e->umax = a->umax; } } else if ((a->umax >> e->lo) < m) e->umax = a->umax >> e->lo; break;
		case O_ADD: if (a->umax <= m - b->umax) { e->umin = a->umin + b->umin; e->umax = a->umax + b->umax; } break;
		case O_MUL: if (a->umax == 0 || b->umax <= m / a->umax) { e->umin = a->umin * b->umin; e->umax = a->umax * b->umax; } break;
		case O_AND: e->umax = std::min(a->umax, b->umax); break;
		case O_OR: { uint64_t x = a->umax | b->umax; for (unsigned i = 1; i < 64; i <<= 1) x |= x >> i; e->umax = x & m; e->umin = std::max(a->umin, b->umin); break; }
		case O_ITE: e->umin = std::min(b->umin, e->k[2]->umin); e->umax = std::max(b->umax, e->k[2]->umax); break;
		case O_UREM: if (b->op == O_CONST && b->c) e->umax = std::min(a->umax, b->c - 1); break;
		case O_UDIV: if (b->op == O_CONST && b->c) { e->umin = a->umin / b->c; e->umax = a->umax / b->c; } break;
		case O_CONCAT: e->umin = (a->umin << b->w) | b->umin; e->umax = (a->umax << b->w) | b->umax; break;
		default: break;
		}
	}
	// from now on, a term built like 'from' is 'to' (every path that can build it knows from == to)
	void alias(E from, E to) { tab[Key{from->op, from->w, from->lo, from->c, from->k[0], from->k[1], from->k[2]}] = to; }
	E sym(const std::string &name, unsigned w, bool undef = false, uint64_t umax = ~0ull) {
		auto it = symByName.find(name);
		if (it != symByName.end()) return symExpr[it->second];
		uint32_t id = syms.size();
		syms.push_back({name, undef, umax});
		symByName[name] = id;
		E e = mk(O_SYM, w, 0, 0, 0, id);
		symExpr.push_back(e);
		return e;
	}
};
extern ExprPool P;

static inline E K(unsigned w, uint64_t c) { return P.mk(O_CONST, w, 0, 0, 0, c & maskw(w)); }
static inline bool isC(E e) { return e->op == O_CONST; }
static inline bool isC(E e, uint64_t v) { return e->op == O_CONST && e->c == (v & maskw(e->w)); }

static inline uint64_t foldBin(Op op, unsigned w, uint64_t a, uint64_t b, bool *bad = nullptr) {
	uint64_t m = maskw(w);
	a &= m; b &= m;
	switch (op) {
	case O_ADD: return (a + b) & m;
	case O_SUB: return (a - b) & m;
	case O_MUL: return (a * b) & m;
	case O_UDIV: return b ? a / b : m;
	case O_UREM: return b ? a % b : a;
	case O_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
	case O_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (y == 0) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
	case O_AND: return a & b;
	case O_OR: return a | b;
	case O_XOR: return a ^ b;
	case O_SHL: return b >= w ? 0 : (a << b) & m;
	case O_LSHR: return b >= w ? 0 : a >> b;
	case O_ASHR: { int64_t x = sx(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
	case O_EQ: return a == b;
	case O_ULT: return a < b;
	case O_ULE: return a <= b;
	case O_SLT: return sx(a, w) < sx(b, w);
	case O_SLE: return sx(a, w) <= sx(b, w);
	case O_UMULO: { unsigned __int128 r = (unsigned __int128)a * b; return (r >> w) != 0; }
	case O_SMULO: { __int128 r = (__int128)sx(a, w) * sx(b, w); return r != (__int128)sx((uint64_t)r, w); }
	default: break;
	}
	if (bad) *bad = true;
	return 0;
}
static inline bool isCmp(Op op) { return op >= O_EQ && op <= O_SLE; }

E mkBin(Op op, E a, E b);
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkF(Op op, unsigned w, E a, E b = nullptr, unsigned pred = 0);
uint64_t foldF(Op op, unsigned w, unsigned kw, uint64_t a, uint64_t b, unsigned pred);

static inline E mkAnd1(E a, E b) { return mkBin(O_AND, a, b); }
static inline E mkOr1(E a, E b) { return mkBin(O_OR, a, b); }
static inline E mkEq(E a, E b) { return mkBin(O_EQ, a, b); }

struct Model { std::vector<uint64_t> v; uint64_t get(uint32_t id) const { return id < v.size() ? v[id] : 0; } };
uint64_t evalE(E e, const Model &m);
Z3_ast toBV(Z3_context c, E e);
Z3_ast toBool(Z3_context c, E e);
std::string show(E e, int depth = 6);
