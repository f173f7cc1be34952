#include <cerrno>
#include <sys/time.h>
#include <csignal>
// vse: a bounded, exhaustive symbolic executor for LLVM 18 bitcode on top of Z3.
//
// Every feasible path of the harness' entry function is executed; inputs
// introduced with vse_symbolic()/vse_choose() are SMT variables, branches on
// them fork the path when the solver says both sides are feasible, and every
// vse_check() and every implicit memory-safety / UB condition is decided by
// the solver for all values on that path.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <set>
#include <deque>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
typedef std::chrono::steady_clock Clk;
static double now() { static Clk::time_point t0 = Clk::now(); return std::chrono::duration<double>(Clk::now() - t0).count(); }

// ---------------------------------------------------------------- values
struct V {
	uint64_t c; E e; uint8_t w;
	V() : c(0), e(nullptr), w(0) {}
	V(unsigned ww, uint64_t v) : c(v & maskw(ww)), e(nullptr), w(ww) {}
	V(E x) : c(0), e(x), w(x->w) { if (isC(x)) { c = x->c; e = nullptr; } }
	bool sym() const { return e != nullptr; }
	E ex() const { return e ? e : K(w, c); }
};

// ---------------------------------------------------------------- memory
enum ObjKind : uint8_t { OK_GLOBAL, OK_STACK, OK_HEAP };
static E const UNDEF = (E)(uintptr_t)1;   // lazily materialised uninitialised byte
struct Obj {
	uint64_t base; uint64_t size; ObjKind kind; bool ro; uint32_t ref;
	std::vector<uint8_t> b;
	std::vector<E> s;       // empty: all bytes concrete
	const char *what;
	E byteAt(uint64_t i) const { return s.empty() ? nullptr : s[i]; }
};
static void unref(Obj *o) { if (--o->ref == 0) delete o; }

struct Freed { uint64_t base, size; ObjKind kind; };

struct DFunc; struct DBlock;
// pre-decoded operand: register slot, constant, or (rarely) a value evaluated on demand
struct DOp { uint8_t kind; uint8_t w; uint32_t slot; uint64_t c; const Value *v; };
struct GepTerm { DOp op; uint64_t scale; };
struct DInst {
	Instruction *I; unsigned opc; uint32_t dst; uint8_t w; uint8_t ns; uint16_t sub;
	std::vector<DOp> ops; DBlock *s0, *s1; uint64_t off; std::vector<GepTerm> gep; Function *callee; bool agg; std::vector<unsigned> argn; uint64_t asz;
	std::vector<std::pair<uint64_t, DBlock *>> cases;
};
struct PhiIn { DBlock *from; DOp op[2]; };
struct DPhi { uint32_t dst; uint8_t ns; std::vector<PhiIn> in; };
struct DBlock { BasicBlock *bb; std::vector<DPhi> phis; std::vector<DInst> insts; bool hit = false; };
struct DFunc { Function *f; uint32_t nslots; std::unordered_map<const Value *, unsigned> slot; std::unordered_map<const BasicBlock *, DBlock *> blocks; DBlock *entry; std::string name; bool hit = false; };
struct Frame {
	DFunc *df; DBlock *bb; unsigned ip;
	std::vector<V> regs; std::vector<uint64_t> allocas;
	std::vector<V> varargs; Instruction *callsite;
};

struct Input { std::string name; std::vector<E> bytes; };

struct State {
	std::vector<Frame> st;
	std::vector<Obj *> objs;          // sorted by base
	std::vector<Freed> freed;
	std::vector<E> pc;
	std::unordered_set<uint32_t> pcIds;
	std::unordered_map<uint32_t, uint64_t> known;   // expr id -> value implied by pc
	Model model;
	std::vector<Input> inputs;
	std::vector<V> obs;
	std::vector<std::vector<V>> valists;
	std::map<std::string, uint32_t> nameCnt;
	uint64_t next = 0x100000000ull;
	uint64_t steps = 0;
	uint32_t heapLive = 0;
	uint32_t undefs = 0;
	State() {}
	State(const State &o) = default;
	void retain() { for (auto *x : objs) x->ref++; }
	~State() { for (auto *x : objs) unref(x); }
};
static State *cloneState(State *s) { State *n = new State(*s); n->retain(); return n; }

// ---------------------------------------------------------------- globals
static LLVMContext C;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::vector<Obj *> roObjs;  // constant globals, shared by all states
static std::unordered_map<const GlobalVariable *, uint64_t> gaddr;
static std::unordered_map<const Function *, uint64_t> faddr;
static std::unordered_map<uint64_t, Function *> faddrRev;
static std::deque<State *> work;
static bool bfs = false;

static std::unordered_map<const Function *, DFunc *> dfuncs;
static size_t bbHits = 0;
static Instruction *curInst(Frame &f);

struct Viol { std::string kind, msg, loc, file; std::vector<std::string> trace; };
static std::vector<Viol> viols;
static std::set<std::string> violKeys;
static std::map<std::string, uint64_t> reached, checksHit, chkSym;
static std::set<std::string> funcsRun;
static std::map<std::string, uint64_t> stoppedWhy;
struct Stats { uint64_t paths = 0, killed = 0, inst = 0, queries = 0, qsat = 0, qunsat = 0, qcache = 0, forks = 0, checks = 0, checksSolved = 0, unknown = 0, violPaths = 0, incomplete = 0; double solver = 0; } S;
static double timeBudget = 600; static uint64_t maxSteps = 4000000; static unsigned maxViol = 6; static unsigned nsample = 20; static uint64_t seed = 1;
static std::string outPrefix = "vse-out"; static unsigned qtimeout = 30000; static int verbose = 0; static uint64_t maxValues = 4096;
struct Sample { std::string inputs; std::string obs; };
static std::vector<Sample> samples; static uint64_t sampleSeen = 0;
static uint64_t rngs = 88172645463325252ull;
static uint64_t rnd() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs; }

struct PathEnd { const char *why; };   // thrown to end the current path

// ---------------------------------------------------------------- solver
static Z3_context Z; static Z3_solver ZS;
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "vse: z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); }

static void initZ3() {
	Z3_config cfg = Z3_mk_config();
	Z3_set_param_value(cfg, "model", "true");
	Z = Z3_mk_context(cfg);
	Z3_set_error_handler(Z, z3err);
	ZS = Z3_mk_simple_solver(Z);
	Z3_solver_inc_ref(Z, ZS);
	Z3_params p = Z3_mk_params(Z);
	Z3_params_inc_ref(Z, p);
	Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 4000);
	Z3_solver_set_params(Z, ZS, p);
	Z3_params_dec_ref(Z, p);
}

static bool forceTick = false;
static std::string resultPath;
static void writeResult(const std::string &path);
static void onAlarm(int) {
	Z3_interrupt(Z);
	if (now() > timeBudget + 15) {   // stuck in a part of Z3 that cannot be interrupted
		S.incomplete++; stoppedWhy["time-budget"]++;
		writeResult(resultPath);
		_exit(0);
	}
}
// Z3's own timeout is not always honoured; interrupt it from outside as well
static void armAlarm(double sec) {
	struct itimerval it = {};
	it.it_value.tv_sec = (long)sec; it.it_value.tv_usec = (long)((sec - (long)sec) * 1e6);
	it.it_interval.tv_sec = sec > 0 ? 1 : 0;
	setitimer(ITIMER_REAL, &it, nullptr);
}
enum Res { SAT, UNSAT, UNK };
struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::map<std::vector<uint32_t>, CacheEnt> qcache;

static Res runSolver(Z3_solver s, const std::vector<E> &cs, std::vector<std::pair<uint32_t, uint64_t>> *out, double limit) {
	Z3_solver_push(Z, s);
	for (E e : cs) Z3_solver_assert(Z, s, toBool(Z, e));
	signal(SIGALRM, onAlarm);
	armAlarm(limit);
	Z3_lbool r = Z3_solver_check(Z, s);
	armAlarm(0);
	if (r == Z3_L_TRUE) {
		Z3_model m = Z3_solver_get_model(Z, s);
		Z3_model_inc_ref(Z, m);
		const SymSet *ss = P.emptySet;
		for (E e : cs) ss = P.uni(ss, e->syms);
		for (uint32_t id : *ss) {
			Z3_ast v = nullptr;
			uint64_t x = 0;
			E se = P.symExpr[id];
			if (Z3_model_eval(Z, m, toBV(Z, se), true, &v)) { if (!Z3_get_numeral_uint64(Z, v, &x)) x = 0; }
			out->push_back({id, x});
		}
		Z3_model_dec_ref(Z, m);
	}
	Z3_solver_pop(Z, s, 1);
	return r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNK;
}

// is pc /\ c satisfiable?  On SAT returns assignments for the relevant symbols
static Res solve(State &st, E c, std::vector<std::pair<uint32_t, uint64_t>> *out) {
	if (isC(c)) { return c->c ? SAT : UNSAT; }
	// slice
	std::vector<E> cs; cs.push_back(c);
	{
		std::vector<char> in(P.syms.size(), 0);
		for (uint32_t s : *c->syms) in[s] = 1;
		std::vector<char> used(st.pc.size(), 0);
		bool ch = true;
		while (ch) {
			ch = false;
			for (size_t i = 0; i < st.pc.size(); i++) if (!used[i]) {
				bool hit = false;
				for (uint32_t s : *st.pc[i]->syms) if (in[s]) { hit = true; break; }
				if (hit) { used[i] = 1; ch = true; cs.push_back(st.pc[i]); for (uint32_t s : *st.pc[i]->syms) in[s] = 1; }
			}
		}
	}
	std::vector<uint32_t> key;
	for (E e : cs) key.push_back(e->id);
	std::sort(key.begin(), key.end());
	key.erase(std::unique(key.begin(), key.end()), key.end());
	auto it = qcache.find(key);
	if (it != qcache.end()) { S.qcache++; *out = it->second.m; return it->second.r; }
	double t0 = now();
	S.queries++;
	if (verbose > 3) { fprintf(stderr, "query %zu\n", cs.size()); for (E e : cs) fprintf(stderr, "   c: %s\n", show(e, 20).c_str()); }
	Res r = runSolver(ZS, cs, out, 5);
	if (r == UNK) {
		out->clear();
		Z3_solver s2 = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BVFP"));
		bool hasfp = false;
		(void)hasfp;
		Z3_solver_inc_ref(Z, s2);
		Z3_params p = Z3_mk_params(Z);
		Z3_params_inc_ref(Z, p);
		Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), qtimeout);
		Z3_solver_set_params(Z, s2, p);
		{
			double left = std::max(1.0, std::min(qtimeout / 1000.0, timeBudget - now()));
			r = runSolver(s2, cs, out, left + 1);
		}
		Z3_params_dec_ref(Z, p);
		Z3_solver_dec_ref(Z, s2);
	}
	double dt = now() - t0;
	S.solver += dt;
	if (dt > 0.5) forceTick = true;
	if (verbose > 1 && dt > 1) { fprintf(stderr, "slow query %.2fs: %s\n", dt, show(c, 12).c_str()); if (verbose > 2) for (E e : cs) fprintf(stderr, "   c: %s\n", show(e, 20).c_str()); }
	if (r == SAT) S.qsat++; else if (r == UNSAT) S.qunsat++; else S.unknown++;
	if (r == SAT) {
		// validate the model against the term evaluator (guards the Z3 translation)
		Model m = st.model;
		for (auto &p : *out) { if (m.v.size() <= p.first) m.v.resize(p.first + 1); m.v[p.first] = p.second; }
		for (E e : cs) if (!evalE(e, m)) { fprintf(stderr, "vse: model validation failed: %s\n", show(e, 20).c_str()); S.incomplete++; stoppedWhy["model-validation-failed"]++; r = UNK; break; }
	}
	qcache[key] = CacheEnt{r, *out};
	return r;
}

static void noteKnown(State &s, E e) {
	s.known[e->id] = 1;
	if (e->op == O_NOT) s.known[e->k[0]->id] = 0;
	else { E n = mkNot(e); s.known[n->id] = 0; }
	if (e->op == O_EQ && isC(e->k[1])) s.known[e->k[0]->id] = e->k[1]->c;
	if (e->op == O_AND) { noteKnown(s, e->k[0]); noteKnown(s, e->k[1]); }
	if (e->op == O_NOT && e->k[0]->op == O_OR) { noteKnown(s, mkNot(e->k[0]->k[0])); noteKnown(s, mkNot(e->k[0]->k[1])); }
}
static void addPC(State &s, E e) {
	if (isC(e)) return;
	if (e->op == O_AND && e->w == 1) { addPC(s, e->k[0]); addPC(s, e->k[1]); s.known[e->id] = 1; return; }
	if (e->op == O_NOT && e->k[0]->op == O_OR) { addPC(s, mkNot(e->k[0]->k[0])); addPC(s, mkNot(e->k[0]->k[1])); s.known[e->k[0]->id] = 0; return; }
	if (s.pcIds.insert(e->id).second) { s.pc.push_back(e); noteKnown(s, e); }
}
static void applyModel(State &s, const std::vector<std::pair<uint32_t, uint64_t>> &m) {
	for (auto &p : m) { if (s.model.v.size() <= p.first) s.model.v.resize(p.first + 1, 0); s.model.v[p.first] = p.second; }
}
static V simplifyKnown(State &s, V v) {
	if (!v.e) return v;
	auto it = s.known.find(v.e->id);
	if (it != s.known.end()) return V(v.w, it->second);
	return v;
}

// ---------------------------------------------------------------- reporting
static std::string locOf(State &s) {
	for (int i = (int)s.st.size() - 1; i >= 0; i--) {
		Frame &f = s.st[i];
		Instruction *I = i == (int)s.st.size() - 1 ? curInst(f) : s.st[i + 1].callsite;
		std::string fn = f.df->name;
		unsigned line = 0; std::string file;
		if (I) if (const DebugLoc &d = I->getDebugLoc()) { line = d.getLine(); file = cast<DIScope>(d.getScope())->getFilename().str(); }
		return fn + ":" + file + ":" + std::to_string(line);
	}
	return "?";
}
static std::vector<std::string> stackOf(State &s) {
	std::vector<std::string> r;
	for (int i = (int)s.st.size() - 1; i >= 0; i--) {
		Instruction *I = i == (int)s.st.size() - 1 ? curInst(s.st[i]) : s.st[i + 1].callsite;
		unsigned line = 0; std::string file;
		if (I) if (const DebugLoc &d = I->getDebugLoc()) { line = d.getLine(); file = cast<DIScope>(d.getScope())->getFilename().str(); }
		r.push_back(s.st[i].df->name + " (" + file + ":" + std::to_string(line) + ")");
	}
	return r;
}
static std::string inputsText(State &s, const Model &m) {
	std::string r;
	for (auto &in : s.inputs) {
		r += in.name + " ";
		char b[8];
		for (E e : in.bytes) { snprintf(b, sizeof b, "%02x", (unsigned)evalE(e, m)); r += b; }
		r += "\n";
	}
	return r;
}
static std::string jstr(const std::string &s) {
	std::string r = "\"";
	for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
	return r + "\"";
}
static void violation(State &s, const Model &m, const char *kind, const std::string &msg) {
	std::string loc = locOf(s);
	std::string key = std::string(kind) + "|" + msg + "|" + loc;
	S.violPaths++;
	if (violKeys.count(key) || viols.size() >= maxViol) return;
	violKeys.insert(key);
	Viol v; v.kind = kind; v.msg = msg; v.loc = loc; v.trace = stackOf(s);
	v.file = outPrefix + ".viol" + std::to_string(viols.size()) + ".inputs";
	FILE *f = fopen(v.file.c_str(), "w");
	if (f) { fputs(inputsText(s, m).c_str(), f); fclose(f); }
	viols.push_back(v);
	if (verbose) { fprintf(stderr, "VIOL %s: %s @ %s\n", kind, msg.c_str(), loc.c_str()); for (auto &t : v.trace) fprintf(stderr, "    %s\n", t.c_str()); fputs(inputsText(s, m).c_str(), stderr); }
}
[[noreturn]] static void fail(State &s, const char *kind, const std::string &msg) { violation(s, s.model, kind, msg); throw PathEnd{"violation"}; }
[[noreturn]] static void stop(const char *why) { S.incomplete++; stoppedWhy[why]++; throw PathEnd{why}; }

// ---------------------------------------------------------------- forking
// returns the truth value taken by the current state; pushes the other side
static bool branch(State &s, V c, bool undefCheck = true) {
	if (!c.sym()) return c.c & 1;
	c = simplifyKnown(s, c);
	if (!c.sym()) return c.c & 1;
	E e = c.e;
	bool v = evalE(e, s.model) & 1;
	E other = v ? mkNot(e) : e;
	std::vector<std::pair<uint32_t, uint64_t>> m;
	Res r = solve(s, other, &m);
	if (r == UNK) { S.incomplete++; stoppedWhy["solver-unknown"]++; }
	if (r == SAT) {
		if (e->undef && undefCheck) fail(s, "undef-branch", "branch depends on uninitialised memory");
		State *n = cloneState(&s);
		S.forks++;
		addPC(*n, other);
		applyModel(*n, m);
		work.push_back(n);
	}
	addPC(s, v ? e : mkNot(e));
	return v;
}
// fork so that v has a single value in the current state (side-effect free: clones re-execute the instruction)
static uint64_t concretize(State &s, V v) {
	if (!v.sym()) return v.c;
	v = simplifyKnown(s, v);
	if (!v.sym()) return v.c;
	uint64_t x = evalE(v.e, s.model);
	E ne = mkNot(mkEq(v.e, K(v.w, x)));
	std::vector<std::pair<uint32_t, uint64_t>> m;
	Res r = solve(s, ne, &m);
	if (r == UNK) { S.incomplete++; stoppedWhy["solver-unknown"]++; }
	if (r == SAT) {
		if (v.e->undef) fail(s, "undef-use", "address/size depends on uninitialised memory");
		State *n = cloneState(&s);
		S.forks++;
		addPC(*n, ne);
		applyModel(*n, m);
		work.push_back(n);
	}
	addPC(s, mkEq(v.e, K(v.w, x)));
	s.known[v.e->id] = x;
	return x;
}
static bool mayBe(State &s, E c, Model *mo) {
	if (isC(c)) { if (c->c && mo) *mo = s.model; return c->c; }
	auto it = s.known.find(c->id);
	if (it != s.known.end()) { if (it->second && mo) *mo = s.model; return it->second; }
	if (evalE(c, s.model)) { if (mo) *mo = s.model; return true; }
	std::vector<std::pair<uint32_t, uint64_t>> m;
	Res r = solve(s, c, &m);
	if (r == UNK) { S.incomplete++; stoppedWhy["solver-unknown"]++; return false; }
	if (r == SAT && mo) { State t2; *mo = s.model; for (auto &p : m) { if (mo->v.size() <= p.first) mo->v.resize(p.first + 1, 0); mo->v[p.first] = p.second; } }
	return r == SAT;
}
static void check(State &s, V c, const std::string &msg) {
	S.checks++;
	checksHit[msg]++;
	if (c.sym()) {
		chkSym[msg]++;
		S.checksSolved++;
		Model m;
		if (mayBe(s, mkNot(c.e), &m)) {
			violation(s, m, "check", msg);
			if (!mayBe(s, c.e, &m)) throw PathEnd{"violation"};
			s.model = m;
		}
		addPC(s, c.e);
	} else if (!(c.c & 1)) fail(s, "check", msg);
}
static void assume(State &s, V c) {
	if (!c.sym()) { if (!(c.c & 1)) throw PathEnd{"assume"}; return; }
	Model m;
	if (!mayBe(s, c.e, &m)) throw PathEnd{"assume"};
	s.model = m;
	addPC(s, c.e);
}

// ---------------------------------------------------------------- memory ops
static Obj *findIn(std::vector<Obj *> &v, uint64_t a, int *idx = nullptr) {
	int lo = 0, hi = (int)v.size() - 1, r = -1;
	while (lo <= hi) { int mid = (lo + hi) / 2; if (v[mid]->base <= a) { r = mid; lo = mid + 1; } else hi = mid - 1; }
	if (r < 0) return nullptr;
	if (idx) *idx = r;
	return v[r];
}
static Obj *alloc(State &s, uint64_t size, ObjKind k, const char *what, bool zero = false) {
	Obj *o = new Obj;
	o->base = s.next; o->size = size; o->kind = k; o->ro = false; o->ref = 1; o->what = what;
	s.next += ((size + 15) & ~15ull) + 64;
	o->b.assign(size, zero ? 0 : 0xA5);
	if (!zero) o->s.assign(size, UNDEF);
	s.objs.push_back(o);
	if (k == OK_HEAP) s.heapLive++;
	return o;
}
static Obj *resolve(State &s, uint64_t a, uint64_t n, bool wr, int *idx) {
	Obj *o;
	bool ro = false;
	if (a < 0x100000000ull) { o = findIn(roObjs, a); ro = true; }
	else { o = findIn(s.objs, a, idx); }
	char buf[200];
	if (!o || a + n > o->base + o->size || a < o->base) {
		if (a < 4096) { snprintf(buf, sizeof buf, "%s through NULL pointer", wr ? "write" : "read"); fail(s, "null-deref", buf); }
		for (auto &f : s.freed) if (a >= f.base && a < f.base + (f.size ? f.size : 1)) { snprintf(buf, sizeof buf, "%s of %llu bytes in %s", wr ? "write" : "read", (unsigned long long)n, f.kind == OK_HEAP ? "freed heap memory" : "dead stack memory"); fail(s, "use-after-free", buf); }
		snprintf(buf, sizeof buf, "out-of-bounds %s of %llu bytes", wr ? "write" : "read", (unsigned long long)n);
		if (o && a >= o->base && a < o->base + o->size + 64) snprintf(buf + strlen(buf), sizeof buf - strlen(buf), " at offset %llu of %llu-byte object", (unsigned long long)(a - o->base), (unsigned long long)o->size);
		fail(s, "out-of-bounds", buf);
	}
	if (wr && (ro || o->ro)) fail(s, "ro-write", "write to constant memory");
	return o;
}
static Obj *wobj(State &s, int idx) {
	Obj *o = s.objs[idx];
	if (o->ref > 1) { Obj *n = new Obj(*o); n->ref = 1; o->ref--; s.objs[idx] = n; return n; }
	return o;
}
static E undefByte(State &s) { char b[40]; snprintf(b, sizeof b, "undef#%u", s.undefs++); return P.sym(b, 8, true); }

static V loadAt(State &s, uint64_t a, unsigned w) {
	unsigned n = (w + 7) / 8;
	int idx = -1;
	Obj *o = resolve(s, a, n, false, &idx);
	uint64_t off = a - o->base;
	bool sym = false;
	if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
	if (!sym) { uint64_t v = 0; memcpy(&v, &o->b[off], n); return V(w, v); }
	for (unsigned i = 0; i < n; i++) if (o->s[off + i] == UNDEF) { E u = undefByte(s); o = wobj(s, idx); o->s[off + i] = u; }
	E r = nullptr;
	for (unsigned i = 0; i < n; i++) { E x = o->s[off + i] ? o->s[off + i] : K(8, o->b[off + i]); r = r ? mkConcat(x, r) : x; }
	if (r->w != w) r = mkExtract(r, 0, w);
	return simplifyKnown(s, V(r));
}
static void storeAt(State &s, uint64_t a, V v) {
	unsigned n = (v.w + 7) / 8;
	int idx = -1;
	resolve(s, a, n, true, &idx);
	Obj *o = wobj(s, idx);
	uint64_t off = a - o->base;
	if (!v.sym()) {
		memcpy(&o->b[off], &v.c, n);
		if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
		return;
	}
	if (o->s.empty()) o->s.assign(o->size, nullptr);
	E e = v.e;
	if (e->w != n * 8) e = mkZext(e, n * 8);
	for (unsigned i = 0; i < n; i++) {
		E x = mkExtract(e, i * 8, 8);
		if (isC(x)) { o->b[off + i] = x->c; o->s[off + i] = nullptr; } else o->s[off + i] = x;
	}
}
static void copyMem(State &s, uint64_t d, uint64_t a, uint64_t n) {
	if (n == 0) return;
	int i1 = -1, i2 = -1;
	Obj *so = resolve(s, a, n, false, &i1);
	uint64_t so_off = a - so->base;
	std::vector<uint8_t> b(so->b.begin() + so_off, so->b.begin() + so_off + n);
	std::vector<E> sv;
	if (!so->s.empty()) sv.assign(so->s.begin() + so_off, so->s.begin() + so_off + n);
	resolve(s, d, n, true, &i2);
	Obj *o = wobj(s, i2);
	uint64_t off = d - o->base;
	memcpy(&o->b[off], b.data(), n);
	if (!sv.empty() && o->s.empty()) { bool any = false; for (E e : sv) if (e) any = true; if (any) o->s.assign(o->size, nullptr); }
	if (!o->s.empty()) for (uint64_t i = 0; i < n; i++) o->s[off + i] = sv.empty() ? nullptr : sv[i];
}
static void setMem(State &s, uint64_t d, V v, uint64_t n) {
	if (n == 0) return;
	int i2 = -1;
	resolve(s, d, n, true, &i2);
	Obj *o = wobj(s, i2);
	uint64_t off = d - o->base;
	if (v.sym()) { if (o->s.empty()) o->s.assign(o->size, nullptr); for (uint64_t i = 0; i < n; i++) o->s[off + i] = v.e; return; }
	memset(&o->b[off], (int)v.c, n);
	if (!o->s.empty()) for (uint64_t i = 0; i < n; i++) o->s[off + i] = nullptr;
}
static void freeObj(State &s, uint64_t a) {
	if (a == 0) return;
	int idx = -1;
	Obj *o = a >= 0x100000000ull ? findIn(s.objs, a, &idx) : nullptr;
	if (!o || o->base != a || o->kind != OK_HEAP) {
		for (auto &f : s.freed) if (f.base == a && f.kind == OK_HEAP) fail(s, "double-free", "free of already freed memory");
		fail(s, "bad-free", "free of a pointer that is not an allocation");
	}
	s.freed.push_back({o->base, o->size, OK_HEAP});
	s.heapLive--;
	s.objs.erase(s.objs.begin() + idx);
	unref(o);
}
static void killStack(State &s, uint64_t a) {
	int idx = -1;
	Obj *o = findIn(s.objs, a, &idx);
	if (!o || o->base != a) return;
	s.freed.push_back({o->base, o->size, OK_STACK});
	if (s.freed.size() > 4096) s.freed.erase(s.freed.begin(), s.freed.begin() + 2048);
	s.objs.erase(s.objs.begin() + idx);
	unref(o);
}

// C string helpers ----------------------------------------------------------
static V byteAt(State &s, uint64_t a) { return loadAt(s, a, 8); }
// symbolic strlen expression (reads only reachable bytes)
static V symStrlen(State &s, uint64_t a, uint64_t maxn = ~0ull) {
	std::vector<std::pair<E, uint64_t>> cases; // cond byte==0 at i
	E reach = K(1, 1);
	uint64_t i = 0;
	for (;; i++) {
		if (i >= maxn) break;
		V b = byteAt(s, a + i);
		if (!b.sym()) { if (b.c == 0) break; continue; }
		E z = mkEq(b.e, K(8, 0));
		V zk = simplifyKnown(s, V(z));
		if (!zk.sym()) { if (zk.c) break; continue; }
		cases.push_back({z, i});
		reach = mkAnd1(reach, mkNot(z));
		if (!mayBe(s, reach, nullptr)) { cases.pop_back(); break; }
	}
	E r = K(64, i);
	for (int j = (int)cases.size() - 1; j >= 0; j--) r = mkIte(cases[j].first, K(64, cases[j].second), r);
	return V(r);
}
static V symStrcmp(State &s, uint64_t a, uint64_t b, uint64_t n) {
	// result -1/0/1
	struct St { E x, y; };
	std::vector<St> v;
	E reach = K(1, 1);
	bool endConst = false;
	E tail = K(32, 0);
	for (uint64_t i = 0; i < n; i++) {
		V p = byteAt(s, a + i), q = byteAt(s, b + i);
		E x = p.ex(), y = q.ex();
		v.push_back({x, y});
		E ne = mkNot(mkEq(x, y)), z = mkEq(x, K(8, 0));
		E cont = mkAnd1(mkNot(ne), mkNot(z));
		if (isC(cont) && !cont->c) { endConst = true; break; }
		reach = mkAnd1(reach, cont);
		if (isC(reach)) { if (!reach->c) { endConst = true; break; } }
		else if (!mayBe(s, reach, nullptr)) { endConst = true; break; }
	}
	(void)endConst;
	E r = tail;
	for (int i = (int)v.size() - 1; i >= 0; i--) {
		E x = v[i].x, y = v[i].y;
		E eq = mkEq(x, y), z = mkEq(x, K(8, 0)), lt = mkBin(O_ULT, x, y);
		E sub = mkIte(z, K(32, 0), r);
		r = mkIte(eq, sub, mkIte(lt, K(32, (uint64_t)-1), K(32, 1)));
	}
	return V(r);
}
static V symMemcmp(State &s, uint64_t a, uint64_t b, uint64_t n) {
	E r = K(32, 0);
	for (int64_t i = (int64_t)n - 1; i >= 0; i--) {
		E x = byteAt(s, a + i).ex(), y = byteAt(s, b + i).ex();
		r = mkIte(mkEq(x, y), r, mkIte(mkBin(O_ULT, x, y), K(32, (uint64_t)-1), K(32, 1)));
	}
	return V(r);
}
static std::string concStr(State &s, uint64_t a) {
	std::string r;
	for (;; a++) { V b = byteAt(s, a); uint64_t c = concretize(s, b); if (!c) break; r += (char)c; }
	return r;
}

// ---------------------------------------------------------------- constants
static uint64_t evalConst(const Constant *c);
static uint64_t evalGEP(const GEPOperator *g) {
	APInt off(64, 0);
	g->accumulateConstantOffset(*DL, off);
	return evalConst(cast<Constant>(g->getPointerOperand())) + off.getSExtValue();
}
static uint64_t evalConst(const Constant *c) {
	if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return ci->getValue().getLoBits(64).getLimitedValue(); return ci->getZExtValue(); }
	if (auto *cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getRawData()[0];
	if (isa<ConstantPointerNull>(c) || isa<ConstantAggregateZero>(c)) return 0;
	if (auto *gv = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) { fprintf(stderr, "vse: no address for %s\n", gv->getName().str().c_str()); exit(3); } return it->second; }
	if (auto *f = dyn_cast<Function>(c)) return faddr[f];
	if (auto *ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee());
	if (auto *g = dyn_cast<GEPOperator>(c)) return evalGEP(g);
	if (isa<UndefValue>(c)) return 0;
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc:
			return evalConst(ce->getOperand(0)) & (c->getType()->isIntegerTy() ? maskw(c->getType()->getIntegerBitWidth()) : ~0ull);
		case Instruction::Add: return evalConst(ce->getOperand(0)) + evalConst(ce->getOperand(1));
		case Instruction::Sub: return evalConst(ce->getOperand(0)) - evalConst(ce->getOperand(1));
		default: break;
		}
	}
	std::string t; raw_string_ostream os(t); c->print(os);
	fprintf(stderr, "vse: unsupported constant %s\n", os.str().c_str());
	exit(3);
}
static void initBytes(const Constant *c, std::vector<uint8_t> &b, uint64_t off) {
	Type *t = c->getType();
	uint64_t sz = DL->getTypeStoreSize(t);
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
	if (auto *cda = dyn_cast<ConstantDataSequential>(c)) {
		uint64_t es = DL->getTypeAllocSize(cda->getElementType());
		for (unsigned i = 0; i < cda->getNumElements(); i++) { uint64_t v = evalConst(cda->getElementAsConstant(i)); memcpy(&b[off + i * es], &v, es); }
		return;
	}
	if (auto *ca = dyn_cast<ConstantArray>(c)) {
		uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
		for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(ca->getOperand(i), b, off + i * es);
		return;
	}
	if (auto *cs = dyn_cast<ConstantStruct>(c)) {
		const StructLayout *sl = DL->getStructLayout(cs->getType());
		for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(cs->getOperand(i), b, off + sl->getElementOffset(i));
		return;
	}
	uint64_t v = evalConst(c);
	memcpy(&b[off], &v, std::min<uint64_t>(sz, 8));
}

// ---------------------------------------------------------------- registers
static unsigned slotsOf(Type *t) {
	if (t->isVoidTy()) return 0;
	if (auto *st = dyn_cast<StructType>(t)) { unsigned n = 0; for (Type *e : st->elements()) n += slotsOf(e); return n; }
	if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * slotsOf(at->getElementType());
	return 1;
}
static unsigned widthOf(Type *t) {
	if (t->isPointerTy()) return 64;
	if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) return t->getIntegerBitWidth();
	if (t->isFloatTy()) return 32;
	if (t->isDoubleTy()) return 64;
	std::string x; raw_string_ostream os(x); t->print(os);
	fprintf(stderr, "vse: unsupported type %s\n", os.str().c_str());
	exit(3);
}
static Instruction *curInst(Frame &f) { return f.ip < f.bb->insts.size() ? f.bb->insts[f.ip].I : nullptr; }
static DOp decodeOp(DFunc *df, const Value *v) {
	DOp o; o.kind = 2; o.w = 0; o.slot = 0; o.c = 0; o.v = v;
	if (auto *c = dyn_cast<Constant>(v)) {
		if (v->getType()->isAggregateType()) return o;
		if (isa<UndefValue>(c) && !isa<PoisonValue>(c)) return o;
		if (isa<BlockAddress>(c)) return o;
		o.kind = 1; o.w = widthOf(v->getType()); o.c = evalConst(c) & maskw(o.w);
		return o;
	}
	auto it = df->slot.find(v);
	if (it == df->slot.end()) return o;
	o.kind = 0; o.slot = it->second;
	return o;
}
static DFunc *dfuncOf(Function *f) {
	auto it = dfuncs.find(f);
	if (it != dfuncs.end()) return it->second;
	DFunc *df = new DFunc;
	df->f = f; df->name = f->getName().str();
	{ size_t dot = df->name.find('.'); if (dot != std::string::npos && dot > 0) df->name = df->name.substr(0, dot); }
	unsigned n = 0;
	for (auto &a : f->args()) { df->slot[&a] = n; n += slotsOf(a.getType()); }
	for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy()) { df->slot[&i] = n; n += slotsOf(i.getType()); }
	df->nslots = n;
	dfuncs[f] = df;
	for (auto &bb : *f) { DBlock *d = new DBlock; d->bb = &bb; df->blocks[&bb] = d; }
	df->entry = df->blocks[&f->getEntryBlock()];
	for (auto &bb : *f) {
		DBlock *d = df->blocks[&bb];
		for (auto &i : bb) {
			if (auto *p = dyn_cast<PHINode>(&i)) {
				DPhi ph; ph.dst = df->slot[p]; ph.ns = slotsOf(p->getType());
				if (ph.ns > 1) { fprintf(stderr, "vse: aggregate phi\n"); exit(3); }
				for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { PhiIn in; in.from = df->blocks[p->getIncomingBlock(k)]; in.op[0] = decodeOp(df, p->getIncomingValue(k)); ph.in.push_back(in); }
				d->phis.push_back(ph);
				continue;
			}
			if (auto *ii = dyn_cast<IntrinsicInst>(&i)) { auto id = ii->getIntrinsicID(); if (isa<DbgInfoIntrinsic>(ii) || id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::vaend) continue; }
			DInst x; x.I = &i; x.opc = i.getOpcode(); x.dst = i.getType()->isVoidTy() ? ~0u : df->slot[&i]; x.ns = slotsOf(i.getType());
			x.w = (x.ns == 1 && !i.getType()->isAggregateType()) ? widthOf(i.getType()) : 0; x.s0 = x.s1 = nullptr; x.off = 0; x.callee = nullptr; x.agg = i.getType()->isAggregateType(); x.sub = 0; x.asz = 0;
			if (auto *cb = dyn_cast<CallBase>(&i)) {
				x.callee = cb->getCalledFunction();
				if (!x.callee) x.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
				unsigned k = 0;
				for (auto &u : cb->args()) { if (!u->getType()->isMetadataTy()) { x.ops.push_back(decodeOp(df, u)); x.argn.push_back(k); } k++; }
				if (!x.callee) x.ops.push_back(decodeOp(df, cb->getCalledOperand()));
				if (auto *inv = dyn_cast<InvokeInst>(cb)) x.s0 = df->blocks[inv->getNormalDest()];
			} else if (auto *br = dyn_cast<BranchInst>(&i)) {
				x.s0 = df->blocks[br->getSuccessor(0)];
				if (br->isConditional()) { x.s1 = df->blocks[br->getSuccessor(1)]; x.ops.push_back(decodeOp(df, br->getCondition())); }
			} else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
				x.ops.push_back(decodeOp(df, sw->getCondition())); x.s0 = df->blocks[sw->getDefaultDest()];
				for (auto &cs : sw->cases()) x.cases.push_back({cs.getCaseValue()->getZExtValue(), df->blocks[cs.getCaseSuccessor()]});
			} else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
				x.ops.push_back(decodeOp(df, g->getPointerOperand()));
				for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
					if (StructType *st = gi.getStructTypeOrNull()) { x.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
					uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
					if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) x.off += ci->getSExtValue() * es;
					else x.gep.push_back({decodeOp(df, gi.getOperand()), es});
				}
			} else {
				for (unsigned k = 0; k < i.getNumOperands(); k++) { if (isa<BasicBlock>(i.getOperand(k))) continue; x.ops.push_back(decodeOp(df, i.getOperand(k))); }
				if (auto *al = dyn_cast<AllocaInst>(&i)) x.asz = DL->getTypeAllocSize(al->getAllocatedType());
				if (auto *ev = dyn_cast<ExtractValueInst>(&i)) x.sub = ev->getIndices()[0];
				if (auto *iv = dyn_cast<InsertValueInst>(&i)) x.sub = iv->getIndices()[0];
				if (auto *st = dyn_cast<StoreInst>(&i)) { x.agg = st->getValueOperand()->getType()->isAggregateType(); x.ns = slotsOf(st->getValueOperand()->getType()); }
			}
			d->insts.push_back(std::move(x));
		}
	}
	return df;
}
static V slowV(State &s, const Value *v, unsigned sub) {
	auto *c = cast<Constant>(v);
	if (isa<UndefValue>(c) && !isa<PoisonValue>(c) && !v->getType()->isAggregateType()) { char b[40]; unsigned w = widthOf(v->getType()); snprintf(b, sizeof b, "undefv%u#%u", w, s.undefs++); return V(P.sym(b, w, true)); }
	if (v->getType()->isAggregateType()) {
		Type *et = cast<StructType>(v->getType())->getElementType(sub);
		Constant *e = c->getAggregateElement(sub);
		return V(widthOf(et), e ? evalConst(e) : 0);
	}
	return V(widthOf(v->getType()), evalConst(c));
}
static inline V getO(State &s, const DOp &o, unsigned sub = 0) {
	if (o.kind == 0) return s.st.back().regs[o.slot + sub];
	if (o.kind == 1) { V v; v.c = o.c; v.w = o.w; return v; }
	return slowV(s, o.v, sub);
}
static inline void setD(State &s, const DInst &d, V x, unsigned sub = 0) { s.st.back().regs[d.dst + sub] = x; }
static void setV(State &s, const Value *v, V x, unsigned sub = 0) {
	Frame &f = s.st.back();
	f.regs[f.df->slot[v] + sub] = x;
}

// ---------------------------------------------------------------- V ops
static V bin(Op op, V a, V b) {
	if (!a.sym() && !b.sym()) { unsigned rw = (isCmp(op) || op == O_UMULO || op == O_SMULO) ? 1 : a.w; return V(rw, foldBin(op, a.w, a.c, b.c)); }
	return V(mkBin(op, a.ex(), b.ex()));
}
static V notV(V a) { return a.sym() ? V(mkNot(a.e)) : V(a.w, ~a.c); }
static V zextV(V a, unsigned w) { return a.sym() ? V(mkZext(a.e, w)) : V(w, a.c); }
static V sextV(V a, unsigned w) { return a.sym() ? V(mkSext(a.e, w)) : V(w, (uint64_t)sx(a.c, a.w)); }
static V truncV(V a, unsigned w) { return a.sym() ? V(mkExtract(a.e, 0, w)) : V(w, a.c); }
static V iteV(V c, V a, V b) { if (!c.sym()) return c.c & 1 ? a : b; return V(mkIte(c.e, a.ex(), b.ex())); }
static V fV(Op op, unsigned w, V a, V b, unsigned pred = 0) {
	if (!a.sym() && (b.w == 0 || !b.sym())) return V(w, foldF(op, w, a.w, a.c, b.c, pred));
	return V(mkF(op, w, a.ex(), b.w ? b.ex() : nullptr, pred));
}

// ---------------------------------------------------------------- control
static inline void hitBlock(DBlock *b) { if (!b->hit) { b->hit = true; bbHits++; } }
static void enterBlock(State &s, DBlock *to) {
	Frame &f = s.st.back();
	if (!to->phis.empty()) {
		V tmp[64]; unsigned n = 0;
		if (to->phis.size() > 64) { fprintf(stderr, "vse: too many phis\n"); exit(3); }
		for (auto &p : to->phis) for (auto &in : p.in) if (in.from == f.bb) { tmp[n++] = getO(s, in.op[0]); break; }
		n = 0;
		for (auto &p : to->phis) f.regs[p.dst] = tmp[n++];
	}
	f.bb = to; f.ip = 0;
	hitBlock(to);
}
static void pushFrame(State &s, Function *f, const std::vector<V> &args, const std::vector<V> &va, Instruction *cs) {
	if (s.st.size() > 2000) fail(s, "nontermination", "call depth exceeds 2000");
	DFunc *df = dfuncOf(f);
	s.st.emplace_back();
	Frame &fr = s.st.back();
	fr.df = df; fr.bb = df->entry; fr.ip = 0;
	fr.regs.resize(df->nslots);
	for (unsigned i = 0; i < args.size() && i < df->nslots; i++) fr.regs[i] = args[i];
	fr.varargs = va; fr.callsite = cs;
	if (!df->hit) { df->hit = true; funcsRun.insert(df->name); }
	hitBlock(fr.bb);
}

// printf-style formatting: returns list of bytes
struct FmtForks {};
// the number a digit string stands for, for every prefix of the digits introduced below
static std::map<E, std::vector<E>> hornerOf;
static std::vector<E> digitsOf(State &s, V v, unsigned base, unsigned n, const char *tag) {
	// v has n digits on this path: introduce one variable per digit
	E h = K(64, 0);
	std::vector<E> ds;
	E cond = K(1, 1);
	E v64 = mkZext(v.e, 64);
	std::vector<std::pair<uint32_t, unsigned>> var;
	for (unsigned i = 0; i < n; i++) {
		char nm[64];
		snprintf(nm, sizeof nm, "digit%u.%u.%s.%u", v.e->id, base, tag, n * 32 + i);
		// no leading zero; a number of 20 decimal digits starts with 1
		unsigned lead = i == 0 && n > 1 && *tag == 'd';
		E d;
		if (lead && n == 20) { d = K(8, 1); var.push_back({~0u, 0}); }
		else {
			E x = P.sym(nm, 8, false, base - 1 - lead);
			var.push_back({(uint32_t)x->c, lead});
			cond = mkAnd1(cond, P.mk(O_ULT, 1, x, K(8, base - lead)));
			d = lead ? mkBin(O_ADD, x, K(8, 1)) : x;
		}
		ds.push_back(d);
		if (i == 19) { // no wrap-around
			cond = mkAnd1(cond, mkBin(O_ULE, h, K(64, ~0ull / base)));
			cond = mkAnd1(cond, mkNot(mkAnd1(mkEq(h, K(64, ~0ull / base)), mkBin(O_ULT, K(8, ~0ull % base), d))));
		}
		h = mkBin(O_ADD, mkBin(O_MUL, h, K(64, base)), mkZext(d, 64));
		if (base == 10 && i + 1 < n) hornerOf[h] = hornerOf[mkExtract(h, 0, v.w)] = ds;
	}
	if (n > 1) cond = mkAnd1(cond, mkNot(mkEq(ds[0], K(8, 0))));
	if (n == 20) cond = mkAnd1(cond, mkEq(ds[0], K(8, 1)));
	// exact digits: with n digits and no leading zero (n fixed by the caller's forks) the
	// representation is unique; when n == 20 exclude wrap-around
	static std::map<std::pair<E, std::pair<E, E>>, E> known;
	E &same = known[{v64, {ds[0], ds[n - 1]}}];
	if (!same) { same = mkEq(h, v64); if (h->op == O_ADD) P.alias(h, v64); }
	cond = mkAnd1(cond, same);
	// digits for the current model value
	uint64_t x = evalE(v64, s.model);
	for (int i = n - 1; i >= 0; i--) { uint32_t id = var[i].first; if (id != ~0u) { if (s.model.v.size() <= id) s.model.v.resize(id + 1, 0); s.model.v[id] = x % base - var[i].second; } x /= base; }
	if (!evalE(cond, s.model)) { Model m; if (!mayBe(s, cond, &m)) throw PathEnd{"assume"}; s.model = m; }
	addPC(s, cond);
	return ds;
}
static unsigned decimals(State &s, E v, unsigned maxd) {
	unsigned n = 1; uint64_t p = 10;
	for (; n < maxd; n++) {
		if (branch(s, V(mkBin(O_ULT, v, K(v->w, p))))) break;
		p *= 10;
	}
	return n;
}
// x / 10 and x % 10: code that writes out a number digit by digit
static V divTen(State &s, V x, bool rem) {
	unsigned w = x.w;
	std::vector<E> ds;
	auto it = hornerOf.find(x.e);
	if (it != hornerOf.end()) ds = it->second;
	else ds = digitsOf(s, x, 10, decimals(s, x.e, w == 64 ? 20 : 10), "d");
	if (rem) return V(mkZext(ds.back(), w));
	E h = K(64, 0);
	for (size_t i = 0; i + 1 < ds.size(); i++) h = mkBin(O_ADD, mkBin(O_MUL, h, K(64, 10)), mkZext(ds[i], 64));
	return V(mkExtract(h, 0, w));
}
static void fmtUnsigned(State &s, V v, unsigned base, bool upper, std::vector<E> &out, const char *tag) {
	// v symbolic: fork on digit count then introduce digit variables
	unsigned maxd = base == 16 ? v.w / 4 : base == 10 ? (v.w == 64 ? 20 : v.w == 32 ? 10 : v.w == 16 ? 5 : 3) : (v.w + 2) / 3;
	unsigned n = 1;
	uint64_t p = base;
	for (; n < maxd; n++) {
		// v < base^n ?
		if (branch(s, V(mkBin(O_ULT, v.e, K(v.w, p)))) ) break;
		p *= base;
	}
	if (base == 16) {
		for (int i = n - 1; i >= 0; i--) {
			E d = mkZext(mkExtract(v.e, i * 4, 4), 8);
			E lt = mkBin(O_ULT, d, K(8, 10));
			out.push_back(mkIte(lt, mkBin(O_ADD, d, K(8, '0')), mkBin(O_ADD, d, K(8, (upper ? 'A' : 'a') - 10))));
		}
		return;
	}
	for (E d : digitsOf(s, v, base, n, tag)) out.push_back(mkBin(O_ADD, d, K(8, '0')));
}

static std::vector<E> format(State &s, const std::string &fmt, const std::vector<V> &args) {
	// first pass: all forks happen through concretize/branch before any side effect of the caller
	std::vector<E> out;
	size_t ai = 0;
	auto lit = [&](const char *p) { for (; *p; p++) out.push_back(K(8, (unsigned char)*p)); };
	for (size_t i = 0; i < fmt.size(); i++) {
		if (fmt[i] != '%') { out.push_back(K(8, (unsigned char)fmt[i])); continue; }
		size_t j = i + 1;
		std::string spec = "%";
		int lng = 0; bool plain = true;
		while (j < fmt.size() && strchr("-+ #0123456789.*", fmt[j])) {
			if (fmt[j] == '*') { if (ai >= args.size()) fail(s, "format", "missing printf argument"); uint64_t w = concretize(s, args[ai++]); spec += std::to_string((int)sx(w, 32)); }
			else spec += fmt[j];
			plain = false; j++;
		}
		while (j < fmt.size() && strchr("hlzjt", fmt[j])) { if (fmt[j] == 'l' || fmt[j] == 'z' || fmt[j] == 'j' || fmt[j] == 't') lng++; j++; }
		char cv = fmt[j];
		char buf[512];
		if (cv == '%') { out.push_back(K(8, '%')); i = j; continue; }
		if (ai >= args.size()) fail(s, "format", "missing printf argument");
		V a = args[ai++];
		switch (cv) {
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
			if (!lng && a.w == 64) a = truncV(a, 32);
			bool sg = cv == 'd' || cv == 'i';
			if (!a.sym()) {
				std::string sp = spec + "ll" + cv;
				if (sg) snprintf(buf, sizeof buf, sp.c_str(), (long long)sx(a.c, a.w)); else snprintf(buf, sizeof buf, sp.c_str(), (unsigned long long)a.c);
				lit(buf);
			} else {
				if (!plain) { if (spec == "%#" && (cv == 'x')) { if (branch(s, V(mkEq(a.e, K(a.w, 0))))) { lit("0"); break; } lit("0x"); } else { uint64_t c = concretize(s, a); std::string sp = spec + "ll" + cv; snprintf(buf, sizeof buf, sp.c_str(), (unsigned long long)(sg ? (uint64_t)sx(c, a.w) : c)); lit(buf); break; } }
				if (sg) { if (branch(s, V(mkBin(O_SLT, a.e, K(a.w, 0))))) { lit("-"); a = V(mkBin(O_SUB, K(a.w, 0), a.e)); if (!a.sym()) { snprintf(buf, sizeof buf, "%llu", (unsigned long long)a.c); lit(buf); break; } } }
				fmtUnsigned(s, a, cv == 'o' ? 8 : (cv == 'x' || cv == 'X') ? 16 : 10, cv == 'X', out, sg ? "s" : "u");
			}
			break;
		}
		case 'c': out.push_back(truncV(a, 8).ex()); break;
		case 'p': lit("0xptr"); break;
		case 's': {
			uint64_t p = concretize(s, a);
			if (p == 0) fail(s, "null-deref", "NULL passed to %s");
			// %[-][width][.precision]s
			bool left = false; uint64_t width = 0, prec = UINT64_MAX;
			{ const char *q = spec.c_str() + 1; while (*q && strchr("-+ #0", *q)) { if (*q == '-') left = true; q++; }
			  while (isdigit((unsigned char)*q)) width = width * 10 + (*q++ - '0');
			  if (*q == '.') { q++; prec = 0; while (isdigit((unsigned char)*q)) prec = prec * 10 + (*q++ - '0'); } }
			uint64_t n;
			if (prec == UINT64_MAX) n = concretize(s, symStrlen(s, p));
			else { n = 0; while (n < prec) { V b = byteAt(s, p + n); if (b.sym() ? branch(s, V(mkEq(b.e, K(8, 0)))) : b.c == 0) break; n++; } }
			for (uint64_t k = n; !left && k < width; k++) out.push_back(K(8, ' '));
			for (uint64_t k = 0; k < n; k++) out.push_back(byteAt(s, p + k).ex());
			for (uint64_t k = n; left && k < width; k++) out.push_back(K(8, ' '));
			break;
		}
		case 'e': case 'f': case 'g': case 'E': case 'G': {
			uint64_t x = concretize(s, a);
			double d; memcpy(&d, &x, 8);
			std::string sp = spec + cv;
			snprintf(buf, sizeof buf, sp.c_str(), d);
			lit(buf);
			break;
		}
		default: fprintf(stderr, "vse: unsupported format %%%c\n", cv); stop("unsupported-format");
		}
		i = j;
	}
	return out;
}

// a log call: constant format, arguments of the right class, readable strings
static void formatCheck(State &s, uint64_t fp, const std::vector<V> &args) {
	std::string fmt;
	for (uint64_t a = fp;; a++) { V b = byteAt(s, a); if (b.sym()) fail(s, "format", "the format of a message depends on data"); if (!b.c) break; fmt += (char)b.c; }
	std::string shown = fmt; while (!shown.empty() && shown.back() == '\n') shown.pop_back();
	size_t ai = 0;
	for (size_t i = 0; i < fmt.size(); i++) {
		if (fmt[i] != '%') continue;
		size_t j = i + 1; int lng = 0;
		bool bounded = false; uint64_t lim = UINT64_MAX;
		while (j < fmt.size() && strchr("-+ #0123456789.*", fmt[j])) {
			if (fmt[j] == '.') { bounded = true; lim = 0; }
			else if (fmt[j] == '*') {
				if (ai >= args.size() || args[ai].w != 32) fail(s, "format", "argument " + std::to_string(ai + 1) + " of '" + shown + "' is no int");
				uint64_t w = concretize(s, args[ai++]);
				if (bounded) lim = sx(w, 32) < 0 ? UINT64_MAX : w;
			} else if (bounded && isdigit((unsigned char)fmt[j])) lim = lim * 10 + (fmt[j] - '0');
			j++;
		}
		while (j < fmt.size() && strchr("hlzjt", fmt[j])) { if (fmt[j] != 'h') lng = 1; j++; }
		if (j >= fmt.size()) fail(s, "format", "incomplete conversion in '" + shown + "'");
		i = j;
		if (fmt[j] == '%') continue;
		std::string which = "argument " + std::to_string(ai + 1) + " of '" + shown + "'";
		if (ai >= args.size()) fail(s, "format", which + " is missing");
		V a = args[ai++];
		switch (fmt[j]) {
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'c':
			if (a.w != (lng ? 64 : 32)) fail(s, "format", which + " has the wrong size");
			break;
		case 'p': if (a.w != 64) fail(s, "format", which + " has the wrong size"); break;
		case 'e': case 'f': case 'g': case 'E': case 'G': if (a.w != 64) fail(s, "format", which + " has the wrong size"); break;
		case 's': {
			if (a.w != 64) fail(s, "format", which + " has the wrong size");
			uint64_t q = concretize(s, a);
			if (q == 0) fail(s, "null-deref", "NULL is logged as " + which);
			for (uint64_t k = 0; k < lim; k++, q++) { V b = byteAt(s, q); if (!b.sym() ? b.c == 0 : !branch(s, notV(bin(O_EQ, b, V(8, 0))))) break; }
			break;
		}
		default: fail(s, "format", "unknown conversion in '" + shown + "'");
		}
	}
}

// ---------------------------------------------------------------- externals
static bool external(State &s, CallBase *cb, Function *f, const std::string &n, std::vector<V> &a, const std::vector<V> &va) {
	Type *rt = cb->getType();
	unsigned rw = rt->isVoidTy() ? 0 : (rt->isStructTy() ? 0 : widthOf(rt));
	auto ret = [&](V v) { if (rw) setV(s, cb, v); };
	if (n == "malloc") { uint64_t sz = concretize(s, a[0]); ret(V(64, alloc(s, sz, OK_HEAP, "malloc")->base)); return true; }
	if (n == "calloc") { uint64_t x = concretize(s, a[0]), y = concretize(s, a[1]); ret(V(64, alloc(s, x * y, OK_HEAP, "calloc", true)->base)); return true; }
	if (n == "free") { freeObj(s, concretize(s, a[0])); return true; }
	if (n == "realloc") {
		uint64_t p = concretize(s, a[0]), sz = concretize(s, a[1]);
		uint64_t old = 0;
		if (p) { int ix; Obj *o = p >= 0x100000000ull ? findIn(s.objs, p, &ix) : nullptr; if (!o || o->base != p || o->kind != OK_HEAP) { freeObj(s, p); } old = o->size; }
		Obj *o = alloc(s, sz, OK_HEAP, "realloc");
		uint64_t nb = o->base;
		if (p) { copyMem(s, nb, p, std::min(old, sz)); freeObj(s, p); }
		ret(V(64, nb));
		return true;
	}
	if (n == "memcmp" || n == "bcmp") { uint64_t x = concretize(s, a[0]), y = concretize(s, a[1]), z = concretize(s, a[2]); ret(symMemcmp(s, x, y, z)); return true; }
	if (n == "strlen") { uint64_t x = concretize(s, a[0]); ret(symStrlen(s, x)); return true; }
	if (n == "strnlen") { uint64_t x = concretize(s, a[0]), m = concretize(s, a[1]); ret(symStrlen(s, x, m)); return true; }
	if (n == "strcmp") { uint64_t x = concretize(s, a[0]), y = concretize(s, a[1]); ret(symStrcmp(s, x, y, ~0ull)); return true; }
	if (n == "strncmp") { uint64_t x = concretize(s, a[0]), y = concretize(s, a[1]), z = concretize(s, a[2]); ret(symStrcmp(s, x, y, z)); return true; }
	if (n == "memcpy" || n == "memmove") { uint64_t x = concretize(s, a[0]), y = concretize(s, a[1]), z = concretize(s, a[2]); copyMem(s, x, y, z); ret(a[0]); return true; }
	if (n == "memset") { uint64_t x = concretize(s, a[0]), z = concretize(s, a[2]); setMem(s, x, truncV(a[1], 8), z); ret(a[0]); return true; }
	if (n == "strdup") { uint64_t x = concretize(s, a[0]); uint64_t l = concretize(s, symStrlen(s, x)); Obj *o = alloc(s, l + 1, OK_HEAP, "strdup"); uint64_t nb = o->base; copyMem(s, nb, x, l + 1); ret(V(64, nb)); return true; }
	if (n == "strcpy") { uint64_t d = concretize(s, a[0]), x = concretize(s, a[1]); uint64_t l = concretize(s, symStrlen(s, x)); copyMem(s, d, x, l + 1); ret(a[0]); return true; }
	if (n == "__errno_location") { static uint64_t ea = 0; (void)ea; ret(V(64, gaddr[M->getGlobalVariable("vse_errno")])); return true; }
	if (n == "__assert_fail") { std::string m = concStr(s, concretize(s, a[0])); fail(s, "assert", "assertion failed: " + m); }
	if (n == "abort") fail(s, "abort", "abort() called");
	if (n == "exit" || n == "_exit") throw PathEnd{"exit"};
	if (n == "sprintf" || n == "snprintf" || n == "__sprintf_chk" || n == "vsnprintf" || n == "vsprintf") {
		bool sn = n == "snprintf" || n == "vsnprintf";
		uint64_t d = concretize(s, a[0]);
		uint64_t lim = sn ? concretize(s, a[1]) : ~0ull;
		std::string fmt = concStr(s, concretize(s, a[sn ? 2 : 1]));
		std::vector<V> args = va;
		if (n[0] == 'v') { uint64_t id = concretize(s, loadAt(s, concretize(s, a[sn ? 3 : 2]), 64)); args = s.valists.at(id); }
		std::vector<E> o = format(s, fmt, args);
		if (lim) {
			uint64_t k = 0;
			for (; k < o.size() && k + 1 < lim; k++) storeAt(s, d + k, V(o[k]));
			storeAt(s, d + k, V(8, 0));
		}
		ret(V(32, o.size()));
		return true;
	}
	if (n == "isnan" || n == "__isnan") { ret(zextV(fV(O_FCMP, 1, a[0], a[0], 8), 32)); return true; }
	if (n == "fabs") { ret(fV(O_FABS, 64, a[0], V())); return true; }
	if (n == "fabsf") { ret(fV(O_FABS, 32, a[0], V())); return true; }
	// ---- harness intrinsics
	if (n == "vse_symbolic") {
		uint64_t p = concretize(s, a[0]), sz = concretize(s, a[1]);
		std::string nm = concStr(s, concretize(s, a[2]));
		uint32_t k = s.nameCnt[nm]++;
		Input in; in.name = nm;
		for (uint64_t i = 0; i < sz; i++) { E e = P.sym(nm + "#" + std::to_string(k) + "." + std::to_string(i), 8); in.bytes.push_back(e); storeAt(s, p + i, V(e)); }
		s.inputs.push_back(in);
		return true;
	}
	if (n == "vse_assume") { assume(s, bin(O_EQ, a[0], V(a[0].w, 0)).sym() ? notV(bin(O_EQ, a[0], V(a[0].w, 0))) : V(1, a[0].c != 0)); return true; }
	if (n == "vse_check") { std::string m = concStr(s, concretize(s, a[1])); V z = bin(O_EQ, a[0], V(a[0].w, 0)); check(s, notV(z), m); return true; }
	if (n == "vse_reach") { reached[concStr(s, concretize(s, a[0]))]++; return true; }
	if (n == "vse_concretize") { ret(V(a[0].w, concretize(s, a[0]))); return true; }
	if (n == "vse_is_symbolic") { ret(V(32, simplifyKnown(s, a[0]).sym())); return true; }
	if (n == "vse_strtod") {
		std::string t; uint64_t p = concretize(s, a[0]);
		for (;; p++) { V b = byteAt(s, p); if (b.sym()) { ret(V(32, (uint32_t)-1)); return true; } if (!b.c) break; t += (char)b.c; }
		char *e; errno = 0; double d = strtod(t.c_str(), &e); bool range = errno == ERANGE; uint64_t x; memcpy(&x, &d, 8);
		storeAt(s, concretize(s, a[1]), V(64, x));
		ret(V(32, (uint32_t)(e - t.c_str()) + (range ? 65536u : 0))); return true;
	}
	if (n == "vse_observe") { s.obs.push_back(a[0]); return true; }
	if (n == "vse_heap_live") { ret(V(32, s.heapLive)); return true; }
	if (n == "vse_format_check") { uint64_t id = concretize(s, loadAt(s, concretize(s, a[1]), 64)); formatCheck(s, concretize(s, a[0]), s.valists.at(id)); return true; }
	if (n == "vse_obj_size") { uint64_t p = concretize(s, a[0]); int ix; Obj *o = findIn(s.objs, p, &ix); if (!o || o->base != p) fail(s, "bad-free", "size of a pointer that is not an allocation"); ret(V(64, o->size)); return true; }
	if (n == "vse_is_undef") { uint64_t p = concretize(s, a[0]); int idx = -1; Obj *o = resolve(s, p, 1, false, &idx); E e = o->byteAt(p - o->base); ret(V(32, e == UNDEF || (e && e->undef))); return true; }
	if (n == "vse_may_be") { V z = notV(bin(O_EQ, a[0], V(a[0].w, 0))); ret(V(32, z.sym() ? mayBe(s, z.e, nullptr) : z.c)); return true; }
	if (n == "vse_end") throw PathEnd{"end"};
	if (n == "vse_fail") { std::string m = concStr(s, concretize(s, a[0])); fail(s, "check", m); }
	if (n == "vse_debug") { std::string m = concStr(s, concretize(s, a[0])); fprintf(stderr, "DBG %s %s\n", m.c_str(), a[1].sym() ? show(a[1].e).c_str() : std::to_string(a[1].c).c_str()); return true; }
	(void)f;
	return false;
}

static bool intrinsic(State &s, CallBase *cb, Intrinsic::ID id, std::vector<V> &a) {
	auto setPair = [&](V x, V y) { setV(s, cb, x, 0); setV(s, cb, y, 1); };
	switch (id) {
	case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
	case Intrinsic::vaend: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::prefetch:
		return true;
	case Intrinsic::stacksave: setV(s, cb, V(64, 0)); return true;
	case Intrinsic::vastart: {
		uint64_t p = concretize(s, a[0]);
		s.valists.push_back(s.st.back().varargs);
		storeAt(s, p, V(64, s.valists.size() - 1));
		return true;
	}
	case Intrinsic::vacopy: { uint64_t d = concretize(s, a[0]), p = concretize(s, a[1]); storeAt(s, d, loadAt(s, p, 64)); return true; }
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t d = concretize(s, a[0]), p = concretize(s, a[1]), n = concretize(s, a[2]); copyMem(s, d, p, n); return true; }
	case Intrinsic::memset: { uint64_t d = concretize(s, a[0]), n = concretize(s, a[2]); setMem(s, d, a[1], n); return true; }
	case Intrinsic::expect: setV(s, cb, a[0]); return true;
	case Intrinsic::is_constant: setV(s, cb, V(1, 0)); return true;
	case Intrinsic::objectsize: setV(s, cb, V(cb->getType()->getIntegerBitWidth(), ~0ull)); return true;
	case Intrinsic::ubsantrap: fail(s, "ub", "undefined behaviour (" + std::to_string(a[0].c) + (a[0].c == 20 ? " shift out of bounds" : a[0].c == 0 ? " signed add overflow" : a[0].c == 21 ? " signed sub overflow" : a[0].c == 12 ? " signed mul overflow" : a[0].c == 18 ? " array index out of bounds" : a[0].c == 5 ? " float cast overflow" : a[0].c == 10 ? " invalid bool/enum load" : "") + ")");
	case Intrinsic::trap: fail(s, "ub", "trap");
	case Intrinsic::sadd_with_overflow: { V r = bin(O_ADD, a[0], a[1]); V z(r.w, 0); V sa = bin(O_SLT, a[0], z), sb = bin(O_SLT, a[1], z), sr = bin(O_SLT, r, z); V o = bin(O_AND, notV(bin(O_XOR, sa, sb)), bin(O_XOR, sa, sr)); setPair(r, o); return true; }
	case Intrinsic::ssub_with_overflow: { V r = bin(O_SUB, a[0], a[1]); V z(r.w, 0); V sa = bin(O_SLT, a[0], z), sb = bin(O_SLT, a[1], z), sr = bin(O_SLT, r, z); V o = bin(O_AND, bin(O_XOR, sa, sb), bin(O_XOR, sa, sr)); setPair(r, o); return true; }
	case Intrinsic::uadd_with_overflow: { V r = bin(O_ADD, a[0], a[1]); setPair(r, bin(O_ULT, r, a[0])); return true; }
	case Intrinsic::usub_with_overflow: { V r = bin(O_SUB, a[0], a[1]); setPair(r, bin(O_ULT, a[0], a[1])); return true; }
	case Intrinsic::umul_with_overflow: setPair(bin(O_MUL, a[0], a[1]), bin(O_UMULO, a[0], a[1])); return true;
	case Intrinsic::smul_with_overflow: setPair(bin(O_MUL, a[0], a[1]), bin(O_SMULO, a[0], a[1])); return true;
	case Intrinsic::ctpop: { unsigned w = a[0].w; V r(w, 0); for (unsigned i = 0; i < w; i++) r = bin(O_ADD, r, bin(O_AND, bin(O_LSHR, a[0], V(w, i)), V(w, 1))); setV(s, cb, r); return true; }
	case Intrinsic::cttz: case Intrinsic::ctlz: {
		unsigned w = a[0].w; V r(w, w);
		for (unsigned k = 0; k < w; k++) { unsigned i = id == Intrinsic::cttz ? w - 1 - k : k; V bit = bin(O_AND, bin(O_LSHR, a[0], V(w, i)), V(w, 1)); r = iteV(bin(O_EQ, bit, V(w, 1)), V(w, id == Intrinsic::cttz ? i : w - 1 - i), r); }
		setV(s, cb, r); return true; }
	case Intrinsic::uadd_sat: { V r = bin(O_ADD, a[0], a[1]); setV(s, cb, iteV(bin(O_ULT, r, a[0]), V(r.w, r.w == 64 ? ~0ull : (1ull << r.w) - 1), r)); return true; }
	case Intrinsic::fshl: case Intrinsic::fshr: {
		unsigned w = a[0].w; V m = bin(O_AND, a[2], V(w, w - 1)), c = bin(O_AND, bin(O_SUB, V(w, w), m), V(w, w - 1));
		V r = id == Intrinsic::fshl ? bin(O_OR, bin(O_SHL, a[0], m), bin(O_LSHR, a[1], c)) : bin(O_OR, bin(O_LSHR, a[1], m), bin(O_SHL, a[0], c));
		setV(s, cb, iteV(bin(O_EQ, m, V(w, 0)), id == Intrinsic::fshl ? a[0] : a[1], r)); return true; }
	case Intrinsic::umin: setV(s, cb, iteV(bin(O_ULT, a[0], a[1]), a[0], a[1])); return true;
	case Intrinsic::umax: setV(s, cb, iteV(bin(O_ULT, a[0], a[1]), a[1], a[0])); return true;
	case Intrinsic::smin: setV(s, cb, iteV(bin(O_SLT, a[0], a[1]), a[0], a[1])); return true;
	case Intrinsic::smax: setV(s, cb, iteV(bin(O_SLT, a[0], a[1]), a[1], a[0])); return true;
	case Intrinsic::abs: { V z(a[0].w, 0); setV(s, cb, iteV(bin(O_SLT, a[0], z), bin(O_SUB, z, a[0]), a[0])); return true; }
	case Intrinsic::usub_sat: setV(s, cb, iteV(bin(O_ULT, a[0], a[1]), V(a[0].w, 0), bin(O_SUB, a[0], a[1]))); return true;
	case Intrinsic::fabs: setV(s, cb, fV(O_FABS, a[0].w, a[0], V())); return true;
	case Intrinsic::is_fpclass: {
		unsigned m = a[1].c;
		if (m == 3) { setV(s, cb, fV(O_FCMP, 1, a[0], a[0], 8)); return true; }   // nan
		uint64_t inf = a[0].w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull;
		if (m == 516) { setV(s, cb, bin(O_EQ, fV(O_FABS, a[0].w, a[0], V()), V(a[0].w, inf))); return true; }
		if (m == 504) { setV(s, cb, bin(O_ULT, fV(O_FABS, a[0].w, a[0], V()), V(a[0].w, inf))); return true; }
		return false;
	}
	case Intrinsic::bswap: { uint64_t n = a[0].w / 8; E r = nullptr; for (unsigned i = 0; i < n; i++) { E x = mkExtract(a[0].ex(), 8 * i, 8); r = r ? mkConcat(r, x) : x; } setV(s, cb, V(r)); return true; }
	default: return false;
	}
}

static void doCall(State &s, const DInst &d) {
	CallBase *cb = cast<CallBase>(d.I);
	Function *f = d.callee;
	if (!f) {
		uint64_t a = concretize(s, getO(s, d.ops.back()));
		auto it = faddrRev.find(a);
		if (it == faddrRev.end()) fail(s, "bad-call", a == 0 ? "call through NULL function pointer" : "call through invalid function pointer");
		f = it->second;
	}
	std::vector<V> args, va;
	unsigned np = f->arg_size();
	args.reserve(np);
	for (unsigned j = 0; j < d.argn.size(); j++) {
		unsigned i = d.argn[j];
		Value *u = cb->getArgOperand(i);
		unsigned ns = u->getType()->isAggregateType() ? slotsOf(u->getType()) : 1;
		if (i < np && cb->isByValArgument(i)) {
			uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i));
			uint64_t p = concretize(s, getO(s, d.ops[j]));
			Obj *o = alloc(s, sz, OK_STACK, "byval");
			uint64_t nb = o->base;
			copyMem(s, nb, p, sz);
			args.push_back(V(64, nb));
		} else if (i < np) for (unsigned k = 0; k < ns; k++) args.push_back(simplifyKnown(s, getO(s, d.ops[j], k)));
		else for (unsigned k = 0; k < ns; k++) va.push_back(simplifyKnown(s, getO(s, d.ops[j], k)));
	}
	Frame &fr = s.st.back();
	if (f->isIntrinsic()) {
		if (!intrinsic(s, cb, f->getIntrinsicID(), args)) { fprintf(stderr, "vse: unsupported intrinsic %s\n", f->getName().str().c_str()); stop("unsupported-intrinsic"); }
		fr.ip++;
		return;
	}
	if (f->isDeclaration()) {
		if (!external(s, cb, f, f->getName().str(), args, va)) { fprintf(stderr, "vse: unsupported external %s\n", f->getName().str().c_str()); stop(strdup(("unsupported-external:" + f->getName().str()).c_str())); }
		if (d.s0) enterBlock(s, d.s0); else s.st.back().ip++;
		return;
	}
	fr.ip++;
	pushFrame(s, f, args, va, cb);
}

static void doRet(State &s, const DInst &d) {
	Frame &f = s.st.back();
	std::vector<V> rv;
	if (!d.ops.empty()) for (unsigned k = 0; k < slotsOf(cast<ReturnInst>(d.I)->getReturnValue()->getType()); k++) rv.push_back(getO(s, d.ops[0], k));
	Instruction *cs = f.callsite;
	for (uint64_t a : f.allocas) killStack(s, a);
	s.st.pop_back();
	if (s.st.empty()) throw PathEnd{"done"};
	if (cs && !cs->getType()->isVoidTy()) for (unsigned k = 0; k < rv.size() && k < slotsOf(cs->getType()); k++) setV(s, cs, rv[k], k);
}

static void step(State &s) {
	Frame &f = s.st.back();
	const DInst &d = f.bb->insts[f.ip];
	S.inst++;
	if (++s.steps > maxSteps) fail(s, "nontermination", "path exceeds the step limit");
#define OPND(i) getO(s, d.ops[i])
	switch (d.opc) {
	case Instruction::Ret: doRet(s, d); return;
	case Instruction::Br: {
		if (!d.s1) { enterBlock(s, d.s0); return; }
		V c = OPND(0);
		bool t = branch(s, c);
		enterBlock(s, t ? d.s0 : d.s1);
		return;
	}
	case Instruction::Switch: {
		V c = simplifyKnown(s, OPND(0));
		if (!c.sym()) {
			DBlock *t = d.s0;
			for (auto &cs : d.cases) if (cs.first == c.c) { t = cs.second; break; }
			enterBlock(s, t);
			return;
		}
		std::vector<std::pair<DBlock *, E>> dst;
		for (auto &cs : d.cases) {
			E q = mkEq(c.e, K(c.w, cs.first));
			bool found = false;
			if (cs.second == d.s0) continue;
			for (auto &t : dst) if (t.first == cs.second) { t.second = mkOr1(t.second, q); found = true; }
			if (!found) dst.push_back({cs.second, q});
		}
		for (auto &t : dst) {
			// fork: take t now, or continue without it (a clone re-executes the switch)
			if (branch(s, V(t.second))) { enterBlock(s, t.first); return; }
		}
		enterBlock(s, d.s0);
		return;
	}
	case Instruction::Unreachable: fail(s, "ub", "unreachable executed");
	case Instruction::Call: case Instruction::Invoke: doCall(s, d); return;
	case Instruction::Alloca: {
		uint64_t n = concretize(s, OPND(0));
		Obj *o = alloc(s, d.asz * n, OK_STACK, "alloca");
		f.allocas.push_back(o->base);
		setD(s, d, V(64, o->base));
		break;
	}
	case Instruction::Load: {
		uint64_t a = concretize(s, OPND(0));
		if (d.agg) { auto *st = cast<StructType>(d.I->getType()); const StructLayout *sl = DL->getStructLayout(st); for (unsigned k = 0; k < d.ns; k++) setD(s, d, loadAt(s, a + sl->getElementOffset(k), widthOf(st->getElementType(k))), k); }
		else setD(s, d, loadAt(s, a, d.w));
		break;
	}
	case Instruction::Store: {
		uint64_t a = concretize(s, OPND(1));
		if (d.agg) { auto *st = cast<StructType>(cast<StoreInst>(d.I)->getValueOperand()->getType()); const StructLayout *sl = DL->getStructLayout(st); for (unsigned k = 0; k < d.ns; k++) storeAt(s, a + sl->getElementOffset(k), getO(s, d.ops[0], k)); }
		else storeAt(s, a, OPND(0));
		break;
	}
	case Instruction::GetElementPtr: {
		V p = OPND(0);
		uint64_t off = d.off;
		V symoff(64, 0);
		for (auto &g : d.gep) {
			V ix = getO(s, g.op);
			if (ix.w < 64) ix = sextV(ix, 64);
			ix = simplifyKnown(s, ix);
			if (!ix.sym()) off += ix.c * g.scale; else symoff = bin(O_ADD, symoff, bin(O_MUL, ix, V(64, g.scale)));
		}
		if (!p.sym() && !symoff.sym()) { setD(s, d, V(64, p.c + off)); break; }
		setD(s, d, bin(O_ADD, bin(O_ADD, p, V(64, off)), symoff));
		break;
	}
	case Instruction::ICmp: {
		V a = OPND(0), b = OPND(1);
		a = simplifyKnown(s, a); b = simplifyKnown(s, b);
		V r;
		switch (cast<ICmpInst>(d.I)->getPredicate()) {
		case CmpInst::ICMP_EQ: r = bin(O_EQ, a, b); break;
		case CmpInst::ICMP_NE: r = notV(bin(O_EQ, a, b)); break;
		case CmpInst::ICMP_ULT: r = bin(O_ULT, a, b); break;
		case CmpInst::ICMP_ULE: r = bin(O_ULE, a, b); break;
		case CmpInst::ICMP_UGT: r = bin(O_ULT, b, a); break;
		case CmpInst::ICMP_UGE: r = bin(O_ULE, b, a); break;
		case CmpInst::ICMP_SLT: r = bin(O_SLT, a, b); break;
		case CmpInst::ICMP_SLE: r = bin(O_SLE, a, b); break;
		case CmpInst::ICMP_SGT: r = bin(O_SLT, b, a); break;
		case CmpInst::ICMP_SGE: r = bin(O_SLE, b, a); break;
		default: stop("icmp");
		}
		setD(s, d, r);
		break;
	}
	case Instruction::FCmp:
		setD(s, d, fV(O_FCMP, 1, OPND(0), OPND(1), (unsigned)cast<FCmpInst>(d.I)->getPredicate()));
		break;
#define BINOP(L, O) case Instruction::L: setD(s, d, bin(O, simplifyKnown(s, OPND(0)), simplifyKnown(s, OPND(1)))); break;
	BINOP(Add, O_ADD) BINOP(Sub, O_SUB) BINOP(Mul, O_MUL) BINOP(And, O_AND) BINOP(Or, O_OR) BINOP(Xor, O_XOR)
	BINOP(Shl, O_SHL) BINOP(LShr, O_LSHR) BINOP(AShr, O_ASHR)
	case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
		V b = OPND(1);
		if (!branch(s, notV(bin(O_EQ, b, V(b.w, 0))))) fail(s, "ub", "division by zero");
		Op o = d.opc == Instruction::UDiv ? O_UDIV : d.opc == Instruction::SDiv ? O_SDIV : d.opc == Instruction::URem ? O_UREM : O_SREM;
		V a = simplifyKnown(s, OPND(0));
		if (a.sym() && !b.sym() && b.c == 10 && a.w >= 32) {
			bool rem = o == O_UREM || o == O_SREM;
			if ((o == O_SDIV || o == O_SREM) && branch(s, bin(O_SLT, a, V(a.w, 0)))) {
				a = bin(O_SUB, V(a.w, 0), simplifyKnown(s, OPND(0)));
				setD(s, d, a.sym() ? bin(O_SUB, V(a.w, 0), divTen(s, a, rem)) : bin(o, bin(O_SUB, V(a.w, 0), a), b));
			} else {
				a = simplifyKnown(s, OPND(0));
				setD(s, d, a.sym() ? divTen(s, a, rem) : bin(o, a, b));
			}
			break;
		}
		setD(s, d, bin(o, a, b));
		break;
	}
#define FBIN(L, O) case Instruction::L: { V a = OPND(0); setD(s, d, fV(O, a.w, a, OPND(1))); break; }
	FBIN(FAdd, O_FADD) FBIN(FSub, O_FSUB) FBIN(FMul, O_FMUL) FBIN(FDiv, O_FDIV)
	case Instruction::FNeg: { V a = OPND(0); setD(s, d, fV(O_FNEG, a.w, a, V())); break; }
	case Instruction::Trunc: setD(s, d, truncV(OPND(0), d.w)); break;
	case Instruction::ZExt: setD(s, d, zextV(OPND(0), d.w)); break;
	case Instruction::SExt: setD(s, d, sextV(OPND(0), d.w)); break;
	case Instruction::PtrToInt: case Instruction::IntToPtr: { V a = OPND(0); setD(s, d, d.w < a.w ? truncV(a, d.w) : zextV(a, d.w)); break; }
	case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: setD(s, d, OPND(0)); break;
	case Instruction::FPExt: setD(s, d, fV(O_FPEXT, d.w, OPND(0), V())); break;
	case Instruction::FPTrunc: setD(s, d, fV(O_FPTRUNC, d.w, OPND(0), V())); break;
	case Instruction::SIToFP: setD(s, d, fV(O_SITOFP, d.w, OPND(0), V())); break;
	case Instruction::UIToFP: setD(s, d, fV(O_UITOFP, d.w, OPND(0), V())); break;
	case Instruction::FPToSI: setD(s, d, fV(O_FPTOSI, d.w, OPND(0), V())); break;
	case Instruction::FPToUI: setD(s, d, fV(O_FPTOUI, d.w, OPND(0), V())); break;
	case Instruction::Select: {
		V c = simplifyKnown(s, OPND(0));
		for (unsigned k = 0; k < d.ns; k++) setD(s, d, iteV(c, getO(s, d.ops[1], k), getO(s, d.ops[2], k)), k);
		break;
	}
	case Instruction::ExtractValue: setD(s, d, getO(s, d.ops[0], d.sub)); break;
	case Instruction::InsertValue: {
		for (unsigned k = 0; k < d.ns; k++) { V x; if (k == d.sub) x = OPND(1); else if (d.ops[0].kind == 2 && isa<UndefValue>(d.ops[0].v)) x = V(widthOf(cast<StructType>(d.I->getType())->getElementType(k)), 0); else x = getO(s, d.ops[0], k); setD(s, d, x, k); }
		break;
	}
	default: {
		fprintf(stderr, "vse: unsupported instruction %s\n", d.I->getOpcodeName());
		stop("unsupported-instruction");
	}
	}
	s.st.back().ip++;
}

static void sample(State &s) {
	sampleSeen++;
	if (nsample == 0) return;
	Sample x;
	size_t slot;
	if (samples.size() < nsample) { samples.emplace_back(); slot = samples.size() - 1; }
	else { uint64_t r = rnd() % sampleSeen; if (r >= nsample) return; slot = r; }
	x.inputs = inputsText(s, s.model);
	for (V v : s.obs) { char b[32]; snprintf(b, sizeof b, "%llx ", (unsigned long long)(v.sym() ? evalE(v.e, s.model) : v.c)); x.obs += b; }
	samples[slot] = x;
}

static bool outOfTime = false;
static void runState(State *s) {
	unsigned tick = 0;
	try {
		for (;;) {
			step(*s);
			if (((++tick & 0x3ff) == 0 || forceTick) && (forceTick = false, now() > timeBudget)) { outOfTime = true; S.incomplete++; stoppedWhy["time-budget"]++; break; }
		}
	} catch (PathEnd &e) {
		if (!strcmp(e.why, "done") || !strcmp(e.why, "end")) { S.paths++; sample(*s); }
		else if (!strcmp(e.why, "assume") || !strcmp(e.why, "exit")) S.killed++;
	}
	delete s;
}

// ---------------------------------------------------------------- setup
static State *initState(const std::string &entry) {
	uint64_t a = 0x10000;
	for (auto &f : *M) { faddr[&f] = a; faddrRev[a] = &f; a += 16; }
	a = (a + 0xffff) & ~0xffffull;
	State *s = new State;
	// constant globals first (below 4G), mutable in state
	for (auto &g : M->globals()) {
		if (g.getName().starts_with("llvm.")) continue;
		uint64_t sz = DL->getTypeAllocSize(g.getValueType());
		if (g.isConstant() && g.hasInitializer()) { gaddr[&g] = a; a += ((sz + 15) & ~15ull) + 64; }
		else { gaddr[&g] = s->next; s->next += ((sz + 15) & ~15ull) + 64; }
	}
	for (auto &g : M->globals()) {
		if (!gaddr.count(&g)) continue;
		Obj *o = new Obj;
		o->base = gaddr[&g]; o->size = DL->getTypeAllocSize(g.getValueType()); o->kind = OK_GLOBAL; o->ref = 1; o->what = "global";
		o->b.assign(o->size, 0);
		o->ro = g.isConstant();
		if (g.hasInitializer()) initBytes(g.getInitializer(), o->b, 0);
		if (g.isConstant() && g.hasInitializer()) roObjs.push_back(o); else s->objs.push_back(o);
	}
	auto cmp = [](Obj *x, Obj *y) { return x->base < y->base; };
	std::sort(roObjs.begin(), roObjs.end(), cmp);
	std::sort(s->objs.begin(), s->objs.end(), cmp);
	Function *f = M->getFunction(entry);
	if (!f || f->isDeclaration()) { fprintf(stderr, "vse: no entry %s\n", entry.c_str()); exit(3); }
	pushFrame(*s, f, {}, {}, nullptr);
	return s;
}

static std::string readFile(const std::string &p) { std::string r; FILE *f = fopen(p.c_str(), "r"); if (!f) return r; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }

static void writeResult(const std::string &path) {
	FILE *o = fopen(path.c_str(), "w");
	fprintf(o, "{\"paths\":%llu,\"killed\":%llu,\"instructions\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"cache_hits\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"checks\":%llu,\"checks_solver\":%llu,\"violating_paths\":%llu,\"incomplete\":%llu,\"bb\":%zu,\n",
		(unsigned long long)S.paths, (unsigned long long)S.killed, (unsigned long long)S.inst, (unsigned long long)S.forks, (unsigned long long)S.queries, (unsigned long long)S.qsat, (unsigned long long)S.qunsat, (unsigned long long)S.qcache, (unsigned long long)S.unknown, S.solver, now(), (unsigned long long)S.checks, (unsigned long long)S.checksSolved, (unsigned long long)S.violPaths, (unsigned long long)S.incomplete, bbHits);
	auto mp = [&](const char *n, std::map<std::string, uint64_t> &m) { fprintf(o, "\"%s\":{", n); bool first = true; for (auto &p : m) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; } fprintf(o, "},\n"); };
	mp("reached", reached); mp("check_hits", checksHit); mp("check_symbolic", chkSym); mp("stopped", stoppedWhy);
	fprintf(o, "\"functions\":["); bool first = true; for (auto &f : funcsRun) { fprintf(o, "%s%s", first ? "" : ",", jstr(f).c_str()); first = false; } fprintf(o, "],\n");
	fprintf(o, "\"violations\":["); first = true;
	for (auto &v : viols) {
		fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"inputs\":%s,\"stack\":[", first ? "" : ",", jstr(v.kind).c_str(), jstr(v.msg).c_str(), jstr(v.loc).c_str(), jstr(v.file).c_str());
		bool f2 = true; for (auto &t : v.trace) { fprintf(o, "%s%s", f2 ? "" : ",", jstr(t).c_str()); f2 = false; }
		fprintf(o, "]}"); first = false;
	}
	fprintf(o, "],\n\"samples\":["); first = true;
	for (auto &x : samples) { fprintf(o, "%s{\"inputs\":%s,\"obs\":%s}", first ? "" : ",", jstr(x.inputs).c_str(), jstr(x.obs).c_str()); first = false; }
	fprintf(o, "]}\n");
	fclose(o);
}

int main(int argc, char **argv) {
	now();
	std::string file, entry = "harness_main";
	int jobs = 1; unsigned split = 200;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { return std::string(argv[++i]); };
		if (a == "--out") outPrefix = nx();
		else if (a == "--entry") entry = nx();
		else if (a == "--time") timeBudget = atof(nx().c_str());
		else if (a == "--steps") maxSteps = atoll(nx().c_str());
		else if (a == "--max-viol") maxViol = atoi(nx().c_str());
		else if (a == "--samples") nsample = atoi(nx().c_str());
		else if (a == "--seed") seed = atoll(nx().c_str());
		else if (a == "--qtimeout") qtimeout = atoi(nx().c_str());
		else if (a == "--jobs") jobs = atoi(nx().c_str());
		else if (a == "--split") split = atoi(nx().c_str());
		else if (a == "-v") verbose++;
		else file = a;
	}
	rngs ^= seed * 0x9E3779B97F4A7C15ull;
	SMDiagnostic err;
	M = parseIRFile(file, err, C);
	if (!M) { err.print("vse", errs()); return 3; }
	DL = &M->getDataLayout();
	initZ3();
	work.push_back(initState(entry));
	int part = -1;
	std::vector<std::string> partFiles;
	resultPath = outPrefix + ".json";
	if (jobs > 1) {
		// breadth first until there are enough independent sub-trees, then fork
		while (!work.empty() && work.size() < split && !outOfTime) { State *s = work.front(); work.pop_front(); runState(s); }
		if (work.size() > 1 && !outOfTime) {
			std::vector<State *> all(work.begin(), work.end());
			work.clear();
			uint32_t *ctr = (uint32_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			std::vector<pid_t> pids;
			std::string base = outPrefix;
			fflush(nullptr);
			for (int j = 0; j < jobs; j++) {
				partFiles.push_back(base + ".part" + std::to_string(j) + ".json");
				pid_t p = fork();
				if (p == 0) {
					part = j;
					resultPath = partFiles[j];
					outPrefix = base + ".p" + std::to_string(j);
					S = Stats(); reached.clear(); checksHit.clear(); chkSym.clear(); stoppedWhy.clear(); samples.clear(); sampleSeen = 0;
					viols.clear(); rngs ^= (j + 1) * 0x9E3779B97F4A7C15ull; nsample = (nsample + jobs - 1) / jobs;
					for (;;) {
						uint32_t k = __sync_fetch_and_add(ctr, 1);
						if (k >= all.size()) break;
						work.push_back(all[k]);
						while (!work.empty() && !outOfTime) { State *s = work.back(); work.pop_back(); runState(s); }
						if (outOfTime) break;
					}
					if (!work.empty()) { S.incomplete += work.size(); stoppedWhy["time-budget"] += work.size(); }
					writeResult(partFiles[j]);
					_exit(0);
				}
				pids.push_back(p);
			}
			bool bad = false;
			for (size_t j = 0; j < pids.size(); j++) { int stt; waitpid(pids[j], &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) { bad = true; unlink(partFiles[j].c_str()); } }
			if (bad) { S.incomplete++; stoppedWhy["worker-died"]++; }
		}
	}
	while (!work.empty() && !outOfTime) { State *s = work.back(); work.pop_back(); runState(s); }
	if (!work.empty()) { S.incomplete += work.size(); stoppedWhy["time-budget"] += work.size(); }
	writeResult(outPrefix + ".json");
	if (verbose) fprintf(stderr, "paths %llu killed %llu inst %llu queries %llu cache %llu solver %.2fs wall %.2fs viol %zu incomplete %llu\n", (unsigned long long)S.paths, (unsigned long long)S.killed, (unsigned long long)S.inst, (unsigned long long)S.queries, (unsigned long long)S.qcache, S.solver, now(), viols.size(), (unsigned long long)S.incomplete);
	_exit(0);
}
