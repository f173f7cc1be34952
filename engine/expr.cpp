#include "expr.h"
#include <cfenv>

ExprPool P;

static bool constArms(E e) { return e->op == O_ITE && (isC(e->k[1]) || isC(e->k[2])); }

E mkNot(E a) {
	if (isC(a)) return K(a->w, ~a->c);
	if (a->op == O_NOT) return a->k[0];
	if (a->w == 1 && a->op == O_ULT) return mkBin(O_ULE, a->k[1], a->k[0]);
	if (a->w == 1 && a->op == O_ULE) return mkBin(O_ULT, a->k[1], a->k[0]);
	if (a->w == 1 && a->op == O_SLT) return mkBin(O_SLE, a->k[1], a->k[0]);
	if (a->w == 1 && a->op == O_SLE) return mkBin(O_SLT, a->k[1], a->k[0]);
	return P.mk(O_NOT, a->w, a);
}

static bool adjacent(E hi, E lo, E *out) {
	// hi and lo are adjacent slices of one term
	E hx = hi, lx = lo; unsigned hl = 0, ll = 0;
	if (hi->op == O_EXTRACT) { hx = hi->k[0]; hl = hi->lo; } else return false;
	if (lo->op == O_EXTRACT) { lx = lo->k[0]; ll = lo->lo; }
	if (hx != lx) return false;
	if (ll + lo->w != hl) return false;
	*out = mkExtract(hx, ll, hi->w + lo->w);
	return true;
}

E mkConcat(E hi, E lo) {
	unsigned w = hi->w + lo->w;
	if (w > 64) { fprintf(stderr, "vse: concat too wide\n"); abort(); }
	if (isC(hi) && isC(lo)) return K(w, (hi->c << lo->w) | lo->c);
	if (isC(hi, 0)) return mkZext(lo, w);
	E r;
	if (adjacent(hi, lo, &r)) return r;
	if (lo->op == O_CONCAT && adjacent(hi, lo->k[0], &r)) return mkConcat(r, lo->k[1]);
	// hi const, lo = concat(const, x): merge
	if (isC(hi) && lo->op == O_CONCAT && isC(lo->k[0])) return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
	// sign-extension bytes are left alone
	return P.mk(O_CONCAT, w, hi, lo);
}

E mkExtract(E a, unsigned lo, unsigned w) {
	if (lo == 0 && w == a->w) return a;
	if (isC(a)) return K(w, a->c >> lo);
	switch (a->op) {
	case O_EXTRACT: return mkExtract(a->k[0], a->lo + lo, w);
	case O_CONCAT: {
		unsigned lw = a->k[1]->w;
		if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
		if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
		return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
	}
	case O_ZEXT: {
		unsigned xw = a->k[0]->w;
		if (lo >= xw) return K(w, 0);
		if (lo + w <= xw) return mkExtract(a->k[0], lo, w);
		return mkZext(mkExtract(a->k[0], lo, xw - lo), w);
	}
	case O_SEXT: {
		unsigned xw = a->k[0]->w;
		if (lo + w <= xw) return mkExtract(a->k[0], lo, w);
		if (lo < xw) return mkSext(mkExtract(a->k[0], lo, xw - lo), w);
		return mkSext(mkExtract(a->k[0], xw - 1, 1), w);
	}
	case O_ITE:
		if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
		break;
	case O_AND: case O_OR: case O_XOR:
		return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
	case O_NOT:
		return mkNot(mkExtract(a->k[0], lo, w));
	case O_ADD:
		if (lo == 0 && isC(a->k[1]) && a->k[0]->umax <= maskw(w)) return mkBin(O_ADD, mkExtract(a->k[0], 0, w), K(w, a->k[1]->c));
		break;
	default: break;
	}
	return P.mk(O_EXTRACT, w, a, 0, 0, 0, lo);
}

E mkZext(E a, unsigned w) {
	if (a->w == w) return a;
	if (isC(a)) return K(w, a->c);
	if (a->op == O_ZEXT) return mkZext(a->k[0], w);
	if (constArms(a)) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
	if (a->op == O_EXTRACT && a->lo == 0 && a->k[0]->umax <= maskw(a->w)) return w <= a->k[0]->w ? mkExtract(a->k[0], 0, w) : mkZext(a->k[0], w);
	if (a->op == O_ADD && isC(a->k[1]) && a->k[0]->umax <= maskw(a->w) - a->k[1]->c) return mkBin(O_ADD, mkZext(a->k[0], w), K(w, a->k[1]->c));
	return P.mk(O_ZEXT, w, a);
}
E mkSext(E a, unsigned w) {
	if (a->w == w) return a;
	if (isC(a)) return K(w, (uint64_t)sx(a->c, a->w));
	if (a->op == O_SEXT) return mkSext(a->k[0], w);
	if (a->op == O_ZEXT) return mkZext(a->k[0], w);
	if (constArms(a)) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
	return P.mk(O_SEXT, w, a);
}

E mkIte(E c, E a, E b) {
	if (isC(c)) return c->c ? a : b;
	if (a == b) return a;
	if (c->op == O_NOT) return mkIte(c->k[0], b, a);
	if (a->w == 1) {
		if (isC(a)) return a->c ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
		if (isC(b)) return b->c ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
	}
	if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
	if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
	if (a == b) return a;
	return P.mk(O_ITE, a->w, c, a, b);
}

static bool commut(Op op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ || op == O_UMULO || op == O_SMULO; }

E mkBin(Op op, E a, E b) {
	unsigned w = a->w;
	unsigned rw = (isCmp(op) || op == O_UMULO || op == O_SMULO) ? 1 : w;
	if (isC(a) && isC(b)) return K(rw, foldBin(op, w, a->c, b->c));
	if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
	uint64_t m = maskw(w);
	switch (op) {
	case O_ADD:
		if (isC(b, 0)) return a;
		if (isC(b) && a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, a->k[0], K(w, a->k[1]->c + b->c));
		if (isC(b) && a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
		break;
	case O_SUB:
		if (a == b) return K(w, 0);
		if (isC(b)) return mkBin(O_ADD, a, K(w, 0 - b->c));
		if (isC(a, 0) && b->op == O_SUB && isC(b->k[0], 0)) return b->k[1];
		if (isC(a) && b->op == O_ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
		break;
	case O_MUL:
		if (isC(b, 0)) return b;
		if (isC(b, 1)) return a;
		break;
	case O_AND:
		if (a == b) return a;
		if (isC(b)) {
			if (b->c == 0) return b;
			if (b->c == m) return a;
			for (unsigned i = 1; i < w; i++) if (b->c == maskw(i)) return mkZext(mkExtract(a, 0, i), w);
			if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
			if (a->op == O_ZEXT) return mkZext(mkBin(O_AND, a->k[0], K(a->k[0]->w, b->c)), w);
		}
		if (w == 1) {
			if (a->op == O_NOT && a->k[0] == b) return K(1, 0);
			if (b->op == O_NOT && b->k[0] == a) return K(1, 0);
			if (b->op == O_AND && (b->k[0] == a || b->k[1] == a)) return b;
			if (a->op == O_AND && (a->k[0] == b || a->k[1] == b)) return a;
		}
		break;
	case O_OR:
		if (a == b) return a;
		if (isC(b)) {
			if (b->c == 0) return a;
			if (b->c == m) return b;
			if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
			// no bit in common: the compiler writes '0' + digit so
			if (w > 1 && a->umax < (b->c & (0 - b->c))) return mkBin(O_ADD, a, b);
		}
		if (w == 1) {
			if (a->op == O_NOT && a->k[0] == b) return K(1, 1);
			if (b->op == O_NOT && b->k[0] == a) return K(1, 1);
			if (b->op == O_OR && (b->k[0] == a || b->k[1] == a)) return b;
			if (a->op == O_OR && (a->k[0] == b || a->k[1] == b)) return a;
		}
		// or of non-overlapping pieces: zext(x) | concat(y, 0..)
		if (w > 1) {
			for (int i = 0; i < 2; i++) {
				E x = i ? b : a, y = i ? a : b;
				if (x->op == O_ZEXT && y->op == O_CONCAT && isC(y->k[1], 0) && x->k[0]->w <= y->k[1]->w)
					return mkConcat(y->k[0], mkZext(x->k[0], y->k[1]->w));
				if (x->op == O_ZEXT && y->op == O_ZEXT && y->k[0]->op == O_CONCAT && isC(y->k[0]->k[1], 0) && x->k[0]->w <= y->k[0]->k[1]->w)
					return mkZext(mkConcat(y->k[0]->k[0], mkZext(x->k[0], y->k[0]->k[1]->w)), w);
			}
		}
		break;
	case O_XOR:
		if (a == b) return K(w, 0);
		if (isC(b, 0)) return a;
		if (isC(b) && b->c == m) return mkNot(a);
		break;
	case O_SHL:
		if (isC(b)) {
			if (b->c == 0) return a;
			if (b->c >= w) return K(w, 0);
			return mkConcat(mkExtract(a, 0, w - b->c), K(b->c, 0));
		}
		if (isC(a, 0)) return a;
		break;
	case O_LSHR:
		if (isC(b)) {
			if (b->c == 0) return a;
			if (b->c >= w) return K(w, 0);
			return mkZext(mkExtract(a, b->c, w - b->c), w);
		}
		if (isC(a, 0)) return a;
		break;
	case O_ASHR:
		if (isC(b)) {
			if (b->c == 0) return a;
			unsigned s = b->c >= w ? w - 1 : b->c;
			return mkSext(mkExtract(a, s, w - s), w);
		}
		break;
	case O_UDIV:
		if (isC(b, 1)) return a;
		break;
	case O_EQ:
		if (a == b) return K(1, 1);
		if (a->umax < b->umin || b->umax < a->umin) return K(1, 0);
		if (w == 1 && isC(b)) return b->c ? a : mkNot(a);
		if (isC(b)) {
			switch (a->op) {
			case O_ZEXT:
				if (b->c > maskw(a->k[0]->w)) return K(1, 0);
				return mkEq(a->k[0], K(a->k[0]->w, b->c));
			case O_SEXT: {
				unsigned xw = a->k[0]->w;
				if (((uint64_t)sx(b->c & maskw(xw), xw) & m) != b->c) return K(1, 0);
				return mkEq(a->k[0], K(xw, b->c));
			}
			case O_CONCAT: {
				unsigned lw = a->k[1]->w;
				return mkAnd1(mkEq(a->k[0], K(a->k[0]->w, b->c >> lw)), mkEq(a->k[1], K(lw, b->c)));
			}
			case O_ITE:
				if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
				break;
			case O_ADD:
				if (isC(a->k[1])) return mkEq(a->k[0], K(w, b->c - a->k[1]->c));
				break;
			case O_NOT: return mkEq(a->k[0], K(w, ~b->c));
			case O_XOR: if (isC(a->k[1])) return mkEq(a->k[0], K(w, b->c ^ a->k[1]->c)); break;
			case O_SUB: if (b->c == 0) return mkEq(a->k[0], a->k[1]); break;
			default: break;
			}
		}
		if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
		if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
		break;
	case O_ULT: case O_ULE: case O_SLT: case O_SLE: {
		if (a == b) return K(1, op == O_ULE || op == O_SLE);
		bool sg = op == O_SLT || op == O_SLE;
		if (sg && a->umax <= m >> 1 && b->umax <= m >> 1) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
		if (!sg) {
			if (op == O_ULT ? a->umax < b->umin : a->umax <= b->umin) return K(1, 1);
			if (op == O_ULT ? a->umin >= b->umax : a->umin > b->umax) return K(1, 0);
		}
		if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w)
			return mkBin(op == O_SLT ? O_ULT : op == O_SLE ? O_ULE : op, a->k[0], b->k[0]);
		if (sg && a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
		if (isC(b)) {
			if (a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
			if (a->op == O_ZEXT) {
				unsigned xw = a->k[0]->w;
				if (sg && sx(b->c, w) < 0) return K(1, 0);
				if (b->c > maskw(xw)) return K(1, 1);
				return mkBin(op == O_SLT ? O_ULT : op == O_SLE ? O_ULE : op, a->k[0], K(xw, b->c));
			}
			if (op == O_ULT && b->c == 0) return K(1, 0);
			if (op == O_ULT && b->c == 1) return mkEq(a, K(w, 0));
			if (op == O_ULE && b->c == 0) return mkEq(a, K(w, 0));
			if (op == O_ULE && b->c == m) return K(1, 1);
		}
		if (isC(a)) {
			if (b->op == O_ITE && (isC(b->k[1]) || isC(b->k[2]))) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
			if (b->op == O_ZEXT) {
				unsigned xw = b->k[0]->w;
				if (sg && sx(a->c, w) < 0) return K(1, 1);
				if (a->c > maskw(xw)) return K(1, 0);
				return mkBin(op == O_SLT ? O_ULT : op == O_SLE ? O_ULE : op, K(xw, a->c), b->k[0]);
			}
			if (op == O_ULE && a->c == 0) return K(1, 1);
			if (op == O_ULT && a->c == m) return K(1, 0);
			if (op == O_ULT && a->c == 0) return mkNot(mkEq(b, K(w, 0)));
		}
		break;
	}
	case O_UMULO: case O_SMULO:
		if (isC(b, 0) || isC(b, 1)) { if (!(w == 1)) return K(1, 0); }
		break;
	default: break;
	}
	return P.mk(op, rw, a, b);
}

// ---- floating point -------------------------------------------------------
static double asD(uint64_t v, unsigned w) { if (w == 32) { float f; uint32_t u = v; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }
static uint64_t fromF(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }

uint64_t foldF(Op op, unsigned w, unsigned kw, uint64_t a, uint64_t b, unsigned pred) {
	switch (op) {
	case O_FADD: return w == 32 ? fromF((float)asD(a, 32) + (float)asD(b, 32)) : fromD(asD(a, w) + asD(b, w), w);
	case O_FSUB: return w == 32 ? fromF((float)asD(a, 32) - (float)asD(b, 32)) : fromD(asD(a, w) - asD(b, w), w);
	case O_FMUL: return w == 32 ? fromF((float)asD(a, 32) * (float)asD(b, 32)) : fromD(asD(a, w) * asD(b, w), w);
	case O_FDIV: return w == 32 ? fromF((float)asD(a, 32) / (float)asD(b, 32)) : fromD(asD(a, w) / asD(b, w), w);
	case O_FNEG: return a ^ (1ull << (w - 1));
	case O_FABS: return a & ~(1ull << (w - 1));
	case O_FPEXT: case O_FPTRUNC: return fromD(asD(a, kw), w);
	case O_SITOFP: return w == 32 ? fromF((float)sx(a, kw)) : fromD((double)sx(a, kw), w);
	case O_UITOFP: return w == 32 ? fromF((float)a) : fromD((double)a, w);
	case O_FPTOSI: return (uint64_t)(int64_t)asD(a, kw) & maskw(w);
	case O_FPTOUI: return (uint64_t)asD(a, kw) & maskw(w);
	case O_FCMP: {
		double x = asD(a, kw), y = asD(b, kw);
		bool un = std::isnan(x) || std::isnan(y);
		bool r = false;
		if (pred & 1) r |= !un && x == y;
		if (pred & 2) r |= !un && x > y;
		if (pred & 4) r |= !un && x < y;
		if (pred & 8) r |= un;
		return r;
	}
	default: abort();
	}
}
E mkF(Op op, unsigned w, E a, E b, unsigned pred) {
	if (isC(a) && (!b || isC(b))) return K(w, foldF(op, w, a->w, a->c, b ? b->c : 0, pred));
	if (op == O_FNEG) return mkBin(O_XOR, a, K(w, 1ull << (w - 1)));
	if (op == O_FABS) return mkBin(O_AND, a, K(w, ~(1ull << (w - 1))));
	return P.mk(op, w, a, b, nullptr, 0, pred);
}

// ---- evaluation -----------------------------------------------------------
static uint64_t evalGen = 0;
static uint64_t ev(E e, const Model &m) {
	if (e->op == O_CONST) return e->c;
	if (e->gen == evalGen) return e->val;
	uint64_t r;
	switch (e->op) {
	case O_SYM: r = m.get((uint32_t)e->c) & maskw(e->w); break;
	case O_ITE: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
	case O_ZEXT: r = ev(e->k[0], m); break;
	case O_SEXT: r = (uint64_t)sx(ev(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
	case O_EXTRACT: r = (ev(e->k[0], m) >> e->lo) & maskw(e->w); break;
	case O_CONCAT: r = (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m); break;
	case O_NOT: r = ~ev(e->k[0], m) & maskw(e->w); break;
	case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FNEG: case O_FABS: case O_FCMP: case O_FPEXT: case O_FPTRUNC:
	case O_SITOFP: case O_UITOFP: case O_FPTOSI: case O_FPTOUI:
		r = foldF(e->op, e->w, e->k[0]->w, ev(e->k[0], m), e->k[1] ? ev(e->k[1], m) : 0, e->lo); break;
	case O_AND: r = ev(e->k[0], m); if (r) r &= ev(e->k[1], m); break;
	default: r = foldBin(e->op, e->k[0]->w, ev(e->k[0], m), ev(e->k[1], m)); break;
	}
	e->gen = evalGen; e->val = r;
	return r;
}
uint64_t evalE(E e, const Model &m) { evalGen++; return ev(e, m); }

// ---- Z3 -------------------------------------------------------------------
static Z3_ast bvc(Z3_context c, unsigned w, uint64_t v) { return Z3_mk_unsigned_int64(c, v, Z3_mk_bv_sort(c, w)); }
static Z3_sort fs(Z3_context c, unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c); }
static Z3_ast fp(Z3_context c, E e) { return Z3_mk_fpa_to_fp_bv(c, toBV(c, e), fs(c, e->w)); }

static Z3_ast conv(Z3_context c, E e) {
	if (e->z) return e->z;
	Z3_ast r = nullptr;
	Z3_ast two[2];
	Z3_ast rm;
	switch (e->op) {
	case O_CONST: r = e->w == 1 ? (e->c ? Z3_mk_true(c) : Z3_mk_false(c)) : bvc(c, e->w, e->c); break;
	case O_SYM: {
		Z3_symbol s = Z3_mk_string_symbol(c, P.syms[e->c].name.c_str());
		r = Z3_mk_const(c, s, e->w == 1 ? Z3_mk_bool_sort(c) : Z3_mk_bv_sort(c, e->w));
		break;
	}
#define BV(i) toBV(c, e->k[i])
	case O_ADD: if (e->w == 1) { two[0] = toBool(c, e->k[0]); r = Z3_mk_xor(c, two[0], toBool(c, e->k[1])); } else r = Z3_mk_bvadd(c, BV(0), BV(1)); break;
	case O_SUB: if (e->w == 1) r = Z3_mk_xor(c, toBool(c, e->k[0]), toBool(c, e->k[1])); else r = Z3_mk_bvsub(c, BV(0), BV(1)); break;
	case O_MUL: if (e->w == 1) { two[0] = toBool(c, e->k[0]); two[1] = toBool(c, e->k[1]); r = Z3_mk_and(c, 2, two); } else r = Z3_mk_bvmul(c, BV(0), BV(1)); break;
	case O_UDIV: r = Z3_mk_bvudiv(c, BV(0), BV(1)); break;
	case O_SDIV: r = Z3_mk_bvsdiv(c, BV(0), BV(1)); break;
	case O_UREM: r = Z3_mk_bvurem(c, BV(0), BV(1)); break;
	case O_SREM: r = Z3_mk_bvsrem(c, BV(0), BV(1)); break;
	case O_AND:
		if (e->w == 1) { two[0] = toBool(c, e->k[0]); two[1] = toBool(c, e->k[1]); r = Z3_mk_and(c, 2, two); }
		else r = Z3_mk_bvand(c, BV(0), BV(1));
		break;
	case O_OR:
		if (e->w == 1) { two[0] = toBool(c, e->k[0]); two[1] = toBool(c, e->k[1]); r = Z3_mk_or(c, 2, two); }
		else r = Z3_mk_bvor(c, BV(0), BV(1));
		break;
	case O_XOR: r = e->w == 1 ? Z3_mk_xor(c, toBool(c, e->k[0]), toBool(c, e->k[1])) : Z3_mk_bvxor(c, BV(0), BV(1)); break;
	case O_SHL: r = Z3_mk_bvshl(c, BV(0), BV(1)); break;
	case O_LSHR: r = Z3_mk_bvlshr(c, BV(0), BV(1)); break;
	case O_ASHR: r = Z3_mk_bvashr(c, BV(0), BV(1)); break;
	case O_EQ: r = e->k[0]->w == 1 ? Z3_mk_iff(c, toBool(c, e->k[0]), toBool(c, e->k[1])) : Z3_mk_eq(c, BV(0), BV(1)); break;
	case O_ULT: r = Z3_mk_bvult(c, BV(0), BV(1)); break;
	case O_ULE: r = Z3_mk_bvule(c, BV(0), BV(1)); break;
	case O_SLT: r = Z3_mk_bvslt(c, BV(0), BV(1)); break;
	case O_SLE: r = Z3_mk_bvsle(c, BV(0), BV(1)); break;
	case O_ITE:
		if (e->w == 1) r = Z3_mk_ite(c, toBool(c, e->k[0]), toBool(c, e->k[1]), toBool(c, e->k[2]));
		else r = Z3_mk_ite(c, toBool(c, e->k[0]), BV(1), BV(2));
		break;
	case O_ZEXT:
		if (e->k[0]->w == 1) r = Z3_mk_ite(c, toBool(c, e->k[0]), bvc(c, e->w, 1), bvc(c, e->w, 0));
		else r = Z3_mk_zero_ext(c, e->w - e->k[0]->w, BV(0));
		break;
	case O_SEXT:
		if (e->k[0]->w == 1) r = Z3_mk_ite(c, toBool(c, e->k[0]), bvc(c, e->w, maskw(e->w)), bvc(c, e->w, 0));
		else r = Z3_mk_sign_ext(c, e->w - e->k[0]->w, BV(0));
		break;
	case O_EXTRACT:
		r = Z3_mk_extract(c, e->lo + e->w - 1, e->lo, BV(0));
		if (e->w == 1) r = Z3_mk_eq(c, r, bvc(c, 1, 1));
		break;
	case O_CONCAT: r = Z3_mk_concat(c, BV(0), BV(1)); break;
	case O_NOT: r = e->w == 1 ? Z3_mk_not(c, toBool(c, e->k[0])) : Z3_mk_bvnot(c, BV(0)); break;
	case O_UMULO: r = Z3_mk_not(c, Z3_mk_bvmul_no_overflow(c, BV(0), BV(1), false)); break;
	case O_SMULO:
		two[0] = Z3_mk_bvmul_no_overflow(c, BV(0), BV(1), true);
		two[1] = Z3_mk_bvmul_no_underflow(c, BV(0), BV(1));
		r = Z3_mk_not(c, Z3_mk_and(c, 2, two));
		break;
	case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV:
		rm = Z3_mk_fpa_rne(c);
		r = e->op == O_FADD ? Z3_mk_fpa_add(c, rm, fp(c, e->k[0]), fp(c, e->k[1])) :
		    e->op == O_FSUB ? Z3_mk_fpa_sub(c, rm, fp(c, e->k[0]), fp(c, e->k[1])) :
		    e->op == O_FMUL ? Z3_mk_fpa_mul(c, rm, fp(c, e->k[0]), fp(c, e->k[1])) :
		    Z3_mk_fpa_div(c, rm, fp(c, e->k[0]), fp(c, e->k[1]));
		r = Z3_mk_fpa_to_ieee_bv(c, r);
		break;
	case O_FPEXT: case O_FPTRUNC:
		r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), fp(c, e->k[0]), fs(c, e->w)));
		break;
	case O_SITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), BV(0), fs(c, e->w))); break;
	case O_UITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), BV(0), fs(c, e->w))); break;
	case O_FPTOSI: r = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), fp(c, e->k[0]), e->w); break;
	case O_FPTOUI: r = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fp(c, e->k[0]), e->w); break;
	case O_FCMP: {
		Z3_ast x = fp(c, e->k[0]), y = fp(c, e->k[1]);
		Z3_ast parts[4]; unsigned n = 0;
		if (e->lo & 1) parts[n++] = Z3_mk_fpa_eq(c, x, y);
		if (e->lo & 2) parts[n++] = Z3_mk_fpa_gt(c, x, y);
		if (e->lo & 4) parts[n++] = Z3_mk_fpa_lt(c, x, y);
		if (e->lo & 8) { two[0] = Z3_mk_fpa_is_nan(c, x); two[1] = Z3_mk_fpa_is_nan(c, y); parts[n++] = Z3_mk_or(c, 2, two); }
		r = n ? Z3_mk_or(c, n, parts) : Z3_mk_false(c);
		break;
	}
	default: abort();
	}
	Z3_inc_ref(c, r);
	e->z = r;
	return r;
}
Z3_ast toBool(Z3_context c, E e) { if (e->w != 1) abort(); return conv(c, e); }
Z3_ast toBV(Z3_context c, E e) {
	Z3_ast r = conv(c, e);
	if (e->w == 1) return Z3_mk_ite(c, r, bvc(c, 1, 1), bvc(c, 1, 0));
	return r;
}

static const char *opn[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","not","umulo","smulo","fadd","fsub","fmul","fdiv","fneg","fabs","fcmp","fpext","fptrunc","sitofp","uitofp","fptosi","fptoui"};
std::string show(E e, int d) {
	char b[64];
	if (isC(e)) { snprintf(b, sizeof b, "%llu:%u", (unsigned long long)e->c, e->w); return b; }
	if (e->op == O_SYM) return P.syms[e->c].name;
	if (d == 0) return "...";
	std::string s = std::string("(") + opn[e->op];
	if (e->op == O_EXTRACT) { snprintf(b, sizeof b, "[%u+%u]", e->lo, e->w); s += b; }
	for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + show(e->k[i], d - 1);
	return s + ")";
}
