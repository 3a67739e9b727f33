// symx: a path-forking symbolic executor for LLVM IR (LLVM 18) deciding branch
// feasibility and assertions with Z3 bit-vectors.
//
//   symx [options] module.bc entry
//
// Memory: every allocation is its own object in its own 16 MiB address slot, so
// out-of-bounds, use-after-free, double free and null accesses are detected.
// Symbolic addresses, sizes and indices are resolved by enumerating (with the
// solver) every feasible value - complete, never sampled.
// Contexts: make_fcontext/jump_fcontext are implemented as engine primitives so
// the real fiber switching code runs symbolically.
#include <llvm/ADT/StringExtras.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <array>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace llvm;
typedef std::chrono::steady_clock Clock;
static double now()
{
	return std::chrono::duration<double>(Clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- z3 layer
static Z3_context Z;
static Z3_solver S;
static inline Z3_ast R(Z3_ast a)
{
	Z3_inc_ref(Z, a);
	return a;
}
static Z3_sort bvs(unsigned w)
{
	static std::map<unsigned, Z3_sort> m;
	auto it = m.find(w);
	if (it != m.end()) return it->second;
	Z3_sort s = Z3_mk_bv_sort(Z, w);
	Z3_inc_ref(Z, Z3_sort_to_ast(Z, s));
	return m[w] = s;
}
static Z3_ast simp(Z3_ast a)
{
	return R(Z3_simplify(Z, a));
}
static Z3_ast bvnum(uint64_t c, unsigned w)
{
	return R(Z3_mk_unsigned_int64(Z, c, bvs(w)));
}
struct Val;
struct Agg {
	std::vector<Val> f;
};
struct Val {
	uint64_t c;
	Z3_ast e;
	Agg *agg;
	uint32_t w;
	Val(uint64_t c_ = 0, uint32_t w_ = 64) : c(c_), e(nullptr), agg(nullptr), w(w_) {}
};
static inline uint64_t maskw(unsigned w)
{
	return w >= 64 ? ~0ULL : ((1ULL << w) - 1);
}
static Val cv(uint64_t c, unsigned w)
{
	return Val(c & maskw(w), w);
}
// e is Bool sort if w==1, BV(w) otherwise
static Val sv(Z3_ast e, unsigned w)
{
	Val v;
	v.w = w;
	if (w == 1) {
		Z3_lbool b = Z3_get_bool_value(Z, e);
		if (b == Z3_L_TRUE) return cv(1, 1);
		if (b == Z3_L_FALSE) return cv(0, 1);
	} else if (w <= 64 && Z3_get_ast_kind(Z, e) == Z3_NUMERAL_AST) {
		uint64_t u = 0;
		if (Z3_get_numeral_uint64(Z, e, &u)) return cv(u, w);
	}
	v.e = e;
	return v;
}
static Z3_ast ex(const Val &v)
{
	if (v.e) return v.e;
	if (v.w == 1) return R(v.c & 1 ? Z3_mk_true(Z) : Z3_mk_false(Z));
	return bvnum(v.c, v.w);
}
// BV form, also for i1
static Z3_ast exbv(const Val &v)
{
	if (v.w == 1) {
		if (!v.e) return bvnum(v.c & 1, 1);
		return R(Z3_mk_ite(Z, v.e, bvnum(1, 1), bvnum(0, 1)));
	}
	return ex(v);
}
static int64_t sx(uint64_t c, unsigned w)
{
	if (w >= 64) return (int64_t)c;
	uint64_t m = 1ULL << (w - 1);
	return (int64_t)(((c & maskw(w)) ^ m) - m);
}

struct Fail {
	std::string kind, msg;
};
struct PathEnd {};
struct Retry {};
[[noreturn]] static void fail(const std::string &k, const std::string &m)
{
	throw Fail{k, m};
}
[[noreturn]] static void unsupported(const std::string &m)
{
	throw Fail{"unsupported", m};
}

// symbolic variables of a term
static const std::vector<Z3_ast> &varsOf(Z3_ast e)
{
	static std::unordered_map<Z3_ast, std::vector<Z3_ast>> memo;
	auto it = memo.find(e);
	if (it != memo.end()) return it->second;
	std::set<Z3_ast> r;
	std::vector<Z3_ast> todo{e};
	std::set<Z3_ast> seen;
	while (!todo.empty()) {
		Z3_ast x = todo.back();
		todo.pop_back();
		if (!seen.insert(x).second) continue;
		if (Z3_get_ast_kind(Z, x) != Z3_APP_AST) continue;
		auto m = memo.find(x);
		if (m != memo.end()) {
			r.insert(m->second.begin(), m->second.end());
			continue;
		}
		Z3_app ap = Z3_to_app(Z, x);
		unsigned n = Z3_get_app_num_args(Z, ap);
		if (n == 0) {
			if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_UNINTERPRETED) r.insert(x);
		} else
			for (unsigned i = 0; i < n; i++) todo.push_back(Z3_get_app_arg(Z, ap, i));
	}
	R(e);
	return memo[e] = std::vector<Z3_ast>(r.begin(), r.end());
}
// assignment of the symbolic variables; those not listed are 0
struct Model {
	std::map<Z3_ast, uint64_t> v;
	uint64_t get(Z3_ast x) const
	{
		auto it = v.find(x);
		return it == v.end() ? 0 : it->second;
	}
	Z3_ast eval(Z3_ast e) const
	{
		auto &vs = varsOf(e);
		if (vs.empty()) return simp(e);
		if (vs.size() == 1 && vs[0] == e) return bvnum(get(e), Z3_get_bv_sort_size(Z, Z3_get_sort(Z, e)));
		Z3_model m = Z3_mk_model(Z);
		Z3_model_inc_ref(Z, m);
		for (auto x : vs) {
			Z3_ast n = Z3_mk_unsigned_int64(Z, get(x), Z3_get_sort(Z, x));
			Z3_inc_ref(Z, n);
			Z3_add_const_interp(Z, m, Z3_get_app_decl(Z, Z3_to_app(Z, x)), n);
			Z3_dec_ref(Z, n);
		}
		Z3_ast r = nullptr;
		if (!Z3_model_eval(Z, m, e, true, &r)) r = nullptr;
		else R(r);
		Z3_model_dec_ref(Z, m);
		return r;
	}
};
typedef std::shared_ptr<Model> ModelP;

static uint64_t nQueries, nQueriesUnsat, nFresh;
static Z3_tactic freshTactic;
static Z3_params fullParams;
static double tSolver;
static std::vector<Z3_ast> onSolver;
static bool solverUnknown;
static int solverTimeoutMs = 120000;

static Z3_solver S2;
static uint64_t nCached, nFull;
typedef std::vector<std::pair<Z3_ast, uint64_t>> Assign;
static void readModel(Z3_solver sv, const std::set<Z3_ast> &vars, Assign &out)
{
	Z3_model m = Z3_solver_get_model(Z, sv);
	Z3_model_inc_ref(Z, m);
	for (auto x : vars) {
		Z3_ast r = nullptr;
		uint64_t u = 0;
		if (Z3_model_eval(Z, m, x, true, &r)) {
			Z3_inc_ref(Z, r);
			Z3_get_numeral_uint64(Z, r, &u);
			Z3_dec_ref(Z, r);
		}
		out.push_back({x, u});
	}
	Z3_model_dec_ref(Z, m);
}
// -1 unknown 0 unsat 1 sat
static int solve(const std::vector<Z3_ast> &pc, Z3_ast cond, const std::set<Z3_ast> &vars, Assign &out)
{
	double t = now();
	Z3_lbool r = Z3_L_UNDEF;
	/* small queries: own solver; otherwise the incremental solver first, under a short
	 * time limit; hard queries go to a fresh bit-blasting solver, and so do the next few after them */
	static unsigned skip, backoff;
	if (pc.size() <= 8 && vars.size() <= 4) {
		Z3_solver_reset(Z, S2);
		for (auto c : pc) Z3_solver_assert(Z, S2, c);
		if (cond) Z3_solver_assert(Z, S2, cond);
		r = Z3_solver_check(Z, S2);
		if (r == Z3_L_TRUE) readModel(S2, vars, out);
	} else if (skip == 0) {
		nFull++;
		size_t k = 0;
		while (k < onSolver.size() && k < pc.size() && onSolver[k] == pc[k]) k++;
		if (onSolver.size() > k) {
			Z3_solver_pop(Z, S, (unsigned)(onSolver.size() - k));
			onSolver.resize(k);
		}
		for (; k < pc.size(); k++) {
			Z3_solver_push(Z, S);
			Z3_solver_assert(Z, S, pc[k]);
			onSolver.push_back(pc[k]);
		}
		if (cond) {
			Z3_solver_push(Z, S);
			Z3_solver_assert(Z, S, cond);
		}
		r = Z3_solver_check(Z, S);
		if (r == Z3_L_TRUE) readModel(S, vars, out);
		if (cond) Z3_solver_pop(Z, S, 1);
		if (r == Z3_L_UNDEF) {
			backoff = backoff < 4 ? 4 : backoff < 256 ? backoff * 2 : backoff;
			skip = backoff;
		} else backoff /= 2;
	} else skip--;
	if (r == Z3_L_UNDEF) {
		Z3_solver F = Z3_mk_solver_from_tactic(Z, freshTactic);
		Z3_solver_inc_ref(Z, F);
		Z3_solver_set_params(Z, F, fullParams);
		for (auto c : pc) Z3_solver_assert(Z, F, c);
		if (cond) Z3_solver_assert(Z, F, cond);
		r = Z3_solver_check(Z, F);
		if (r == Z3_L_TRUE) readModel(F, vars, out);
		static int dumped;
		if (getenv("SYMX_DUMP") && now() - t > 1 && dumped < 5) {
			std::string nm = std::string(getenv("SYMX_DUMP")) + std::to_string(dumped++) + ".smt2";
			FILE *df = fopen(nm.c_str(), "w");
			if (df) {
				fprintf(df, "; %.2fs %d\n%s(check-sat)\n", now() - t, (int)r, Z3_solver_to_string(Z, F));
				fclose(df);
			}
		}
		Z3_solver_dec_ref(Z, F);
		nFresh++;
	}
	nQueries++;
	tSolver += now() - t;
	if (r == Z3_L_UNDEF) {
		solverUnknown = true;
		return -1;
	}
	if (r == Z3_L_FALSE) nQueriesUnsat++;
	return r == Z3_L_TRUE ? 1 : 0;
}
/* pc and cond together?  Only the constraints connected with cond through shared
 * variables matter, as pc alone is satisfied by base; answers are remembered */
static int check(const std::vector<Z3_ast> &pc, Z3_ast cond, const ModelP &base, ModelP *out)
{
	std::vector<Z3_ast> sl;
	std::set<Z3_ast> vars;
	if (cond && base) {
		std::vector<char> in(pc.size(), 0);
		auto &cvs = varsOf(cond);
		vars.insert(cvs.begin(), cvs.end());
		for (bool more = true; more;) {
			more = false;
			for (size_t i = 0; i < pc.size(); i++) {
				if (in[i]) continue;
				auto &w = varsOf(pc[i]);
				bool hit = w.empty();
				for (auto x : w)
					if (vars.count(x)) {
						hit = true;
						break;
					}
				if (!hit) continue;
				in[i] = 1;
				for (auto x : w)
					if (vars.insert(x).second) more = true;
			}
		}
		for (size_t i = 0; i < pc.size(); i++)
			if (in[i]) sl.push_back(pc[i]);
	} else {
		sl = pc;
		for (auto c : pc) {
			auto &w = varsOf(c);
			vars.insert(w.begin(), w.end());
		}
		if (cond) {
			auto &w = varsOf(cond);
			vars.insert(w.begin(), w.end());
		}
	}
	static std::map<std::vector<Z3_ast>, std::pair<int, Assign>> memo;
	std::vector<Z3_ast> key = sl;
	std::sort(key.begin(), key.end());
	key.erase(std::unique(key.begin(), key.end()), key.end());
	key.push_back(cond);
	auto it = memo.find(key);
	int k;
	const Assign *as;
	Assign mine;
	if (it != memo.end()) {
		nCached++;
		k = it->second.first;
		as = &it->second.second;
	} else {
		k = solve(sl, cond, vars, mine);
		if (k >= 0 && key.size() <= 40 && memo.size() < 400000) {
			if (cond) R(cond);
			as = &(memo[key] = std::make_pair(k, mine)).second;
		} else
			as = &mine;
	}
	if (k == 1 && out) {
		ModelP m = base ? std::make_shared<Model>(*base) : std::make_shared<Model>();
		for (auto &p : *as) m->v[p.first] = p.second;
		*out = m;
	}
	return k;
}

// ---------------------------------------------------------------- memory
struct SymByte {
	Z3_ast e;
	uint16_t idx;
};
enum { K_HEAP, K_STACK, K_GLOBAL };
struct Obj {
	uint64_t base = 0;
	uint64_t size = 0;
	uint8_t kind = 0;
	bool alive = true, readonly = false;
	std::vector<uint8_t> data;
	std::vector<SymByte> sym;
	std::string name;
};
typedef std::shared_ptr<Obj> ObjP;
static const int SLOT = 24;
static const unsigned CH = 64;
typedef std::array<ObjP, CH> Chunk;

struct Mem {
	std::vector<std::shared_ptr<Chunk>> ch;
	uint64_t next = 1;
	uint64_t live_heap = 0;
	Obj *get(uint64_t id) const
	{
		if (id >= next) return nullptr;
		auto &c = ch[id / CH];
		return c ? (*c)[id % CH].get() : nullptr;
	}
	Obj *wr(uint64_t id)
	{
		auto &c = ch[id / CH];
		if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
		ObjP &o = (*c)[id % CH];
		if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
		return o.get();
	}
	void drop(uint64_t id)
	{
		// tombstone without data
		auto &c = ch[id / CH];
		if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
		ObjP &o = (*c)[id % CH];
		ObjP n = std::make_shared<Obj>();
		n->base = o->base;
		n->size = o->size;
		n->kind = o->kind;
		n->name = o->name;
		n->alive = false;
		o = n;
	}
	uint64_t alloc(uint64_t size, int kind, unsigned align, const std::string &name, bool zero)
	{
		if (size >= (1u << SLOT) - 4096) unsupported("allocation of " + std::to_string(size) + " bytes");
		uint64_t id = next++;
		if (id / CH >= ch.size()) ch.push_back(std::make_shared<Chunk>());
		auto &c = ch[id / CH];
		if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
		ObjP o = std::make_shared<Obj>();
		if (align < 16) align = 16;
		// aligned to what was asked and to no more than that
		o->base = (id << SLOT) + align;
		o->size = size;
		o->kind = kind;
		o->name = name;
		o->data.assign(size, zero ? 0 : 0xbe);
		(*c)[id % CH] = o;
		if (kind == K_HEAP) live_heap += size;
		return o->base;
	}
};

// ---------------------------------------------------------------- code
struct Opnd {
	int slot = -1; // >=0 register
	Val cval;
	bool bad = false;
};
struct IInfo {
	Instruction *I;
	unsigned opc;
	int dst = -1;
	uint32_t w = 0;
	std::vector<Opnd> ops;
	int64_t coff = 0;
	std::vector<std::pair<int, int64_t>> idx; // gep: operand index, scale
	std::vector<int> targets;
	uint64_t size = 0;
	Type *ty = nullptr;
	Function *callee = nullptr;
	bool covered = false;
};
struct BInfo {
	BasicBlock *bb;
	std::vector<IInfo> ins;
	size_t nphi = 0;
};
struct FInfo {
	Function *F;
	std::vector<BInfo> blocks;
	int nregs = 0;
	bool executed = false;
};
struct Frame {
	FInfo *fi;
	int block = 0, prev = -1;
	size_t ip = 0;
	std::vector<Val> regs;
	std::vector<uint64_t> allocas;
	std::vector<Val> varargs;
};
typedef std::shared_ptr<Frame> FrameP;
struct Ctx {
	std::vector<FrameP> st;
	Function *start = nullptr;
	uint64_t stackobj = 0;
};
struct ND {
	Z3_ast var;
	unsigned w;
};
struct State {
	std::vector<Ctx> ctxs;
	int cur = 0;
	Mem mem;
	std::vector<Z3_ast> pc;
	std::vector<ND> nds;
	ModelP model;
	uint64_t steps = 0;
	std::set<std::string> reached;
	/* division of the path tree over several processes: the first splitDepth
	 * decisions are hashed, each process keeps its share */
	unsigned sdepth = 0;
	uint64_t shash = 14695981039346656037ULL;
};
typedef std::unique_ptr<State> StateP;
static unsigned splitDepth, splitN = 1, splitI;
struct Drop {};
static void bump(State &s, uint64_t v)
{
	if (s.sdepth >= splitDepth) return;
	s.sdepth++;
	s.shash = (s.shash ^ (v + 0x9e3779b97f4a7c15ULL)) * 1099511628211ULL;
	s.shash ^= s.shash >> 29;
}
static bool mine(const State &s)
{
	return splitN == 1 || s.sdepth < splitDepth || (s.shash >> 7) % splitN == splitI;
}
/* a path that ends before the split depth is counted once */
static bool counted(const State &s)
{
	return splitN == 1 || s.sdepth >= splitDepth || splitI == 0;
}

struct ErrRec {
	std::string kind, msg, loc;
	std::vector<std::string> stack;
	std::vector<uint64_t> values;
	bool reproduced_model = true;
};

static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<Function *, FInfo *> finfos;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function *> faddr;
static std::vector<StateP> work;
static std::vector<ErrRec> errors;
static std::map<std::string, int> errCount;
static std::map<std::string, uint64_t> reachCount;
static std::map<std::string, std::vector<uint64_t>> reachWitness;
static uint64_t nPaths, nKilled, nErrPaths, nForks, nInstr, maxDepth, nStates = 1;
static uint64_t maxSteps = 3000000, maxPaths = 0;
static size_t maxErrors = 12;
static double maxTime = 800;
static std::set<std::string> unsupportedMsgs;
static State *cur;
static uint64_t ndCounter;
static bool traceOn = false;
static std::vector<std::vector<uint64_t>> samples;
static std::set<std::string> externs;

static Val constVal(const Constant *C);

static unsigned widthOf(Type *t)
{
	if (t->isPointerTy()) return 64;
	return (unsigned)DL->getTypeSizeInBits(t).getFixedValue();
}

static bool evalModel(const ModelP &m, Z3_ast e, Z3_ast *out)
{
	if (!m) return false;
	*out = m->eval(e);
	return *out != nullptr;
}

static void addPC(State &s, Z3_ast c)
{
	if (Z3_get_bool_value(Z, c) == Z3_L_TRUE) return;
	s.pc.push_back(c);
}
static Z3_ast notE(Z3_ast a)
{
	return simp(R(Z3_mk_not(Z, a)));
}

// is cond satisfiable together with the path condition?  m receives a model
static bool may(State &s, Z3_ast cond, ModelP *m)
{
	Z3_lbool b = Z3_get_bool_value(Z, cond);
	if (b == Z3_L_FALSE) return false;
	if (b == Z3_L_TRUE) {
		if (m) *m = s.model;
		return true;
	}
	Z3_ast r;
	if (evalModel(s.model, cond, &r) && Z3_get_bool_value(Z, r) == Z3_L_TRUE) {
		if (m) *m = s.model;
		return true;
	}
	ModelP mm;
	int k = check(s.pc, cond, s.model, &mm);
	if (k < 0) unsupported("solver returned unknown");
	if (k == 1 && m) *m = mm;
	return k == 1;
}

static StateP fork(State &s)
{
	nForks++;
	nStates++;
	StateP o(new State(s));
	// the running instruction keeps a reference to the current frame: the copy gets its own
	FrameP &t = o->ctxs[o->cur].st.back();
	t = std::make_shared<Frame>(*t);
	return o;
}

// decide a symbolic condition; forks the other side.  The fork re-executes the
// current instruction, with the condition decided by its path condition.
static bool decide(State &s, Z3_ast cond)
{
	Z3_lbool b = Z3_get_bool_value(Z, cond);
	if (b != Z3_L_UNDEF) return b == Z3_L_TRUE;
	Z3_ast nc = notE(cond);
	for (size_t i = s.pc.size(), k = 0; i > 0 && k < 8; i--, k++) {
		if (s.pc[i - 1] == cond) return true;
		if (s.pc[i - 1] == nc) return false;
	}
	ModelP mt, mf;
	bool t = may(s, cond, &mt), f = may(s, nc, &mf);
	if (!t && !f) throw PathEnd(); // cannot happen: path condition is satisfiable
	if (t && f) {
		StateP o = fork(s);
		addPC(*o, nc);
		o->model = mf;
		bump(*o, 0);
		if (mine(*o)) work.push_back(std::move(o));
		addPC(s, cond);
		s.model = mt;
		bump(s, 1);
		if (!mine(s)) throw Drop{};
		return true;
	}
	// decided: remember it so that later evaluations are cheap
	return t;
}

static uint64_t concretize(State &s, const Val &v)
{
	if (v.agg) unsupported("concretize aggregate");
	if (!v.e) return v.c;
	if (v.w == 1) return decide(s, v.e) ? 1 : 0;
	if (v.w > 64) unsupported("concretize wide value");
	Z3_ast r;
	if (!s.model) {
		ModelP m;
		if (check(s.pc, nullptr, nullptr, &m) != 1) unsupported("no model");
		s.model = m;
	}
	if (!evalModel(s.model, v.e, &r)) unsupported("model eval");
	uint64_t c = 0;
	if (!Z3_get_numeral_uint64(Z, r, &c)) unsupported("model value");
	Z3_ast eq = simp(R(Z3_mk_eq(Z, v.e, bvnum(c, v.w))));
	Z3_ast ne = notE(eq);
	if (Z3_get_bool_value(Z, eq) == Z3_L_TRUE) return c;
	for (size_t i = s.pc.size(), k = 0; i > 0 && k < 8; i--, k++)
		if (s.pc[i - 1] == eq) return c;
	ModelP m;
	if (may(s, ne, &m)) {
		StateP o = fork(s);
		addPC(*o, ne);
		o->model = m;
		work.push_back(std::move(o));
	}
	addPC(s, eq);
	bump(s, c + 2);
	if (!mine(s)) throw Drop{};
	return c;
}

// ---- locations
static std::string locOf(const Instruction *I)
{
	if (!I) return "?";
	const DebugLoc &d = I->getDebugLoc();
	if (!d) return I->getFunction() ? I->getFunction()->getName().str() : "?";
	auto *sc = cast<DIScope>(d.getScope());
	return sc->getFilename().str() + ":" + std::to_string(d.getLine());
}

static Instruction *curInst(State &s)
{
	auto &c = s.ctxs[s.cur];
	if (c.st.empty()) return nullptr;
	Frame &f = *c.st.back();
	auto &b = f.fi->blocks[f.block];
	if (f.ip < b.ins.size()) return b.ins[f.ip].I;
	return nullptr;
}

static std::vector<uint64_t> ndValues(State &s, const ModelP &m)
{
	std::vector<uint64_t> r;
	for (auto &n : s.nds) {
		uint64_t u = 0;
		Z3_ast a;
		if (m && evalModel(m, n.var, &a)) Z3_get_numeral_uint64(Z, a, &u);
		r.push_back(u);
	}
	return r;
}

static void report(State &s, const std::string &kind, const std::string &msg, ModelP m)
{
	std::string loc = locOf(curInst(s));
	if (kind == "unsupported") {
		unsupportedMsgs.insert(msg + " at " + loc);
		return;
	}
	std::string key = kind + "|" + msg + "|" + loc;
	int &n = errCount[key];
	n++;
	if (n > 3) return;
	ErrRec r;
	r.kind = kind;
	r.msg = msg;
	r.loc = loc;
	for (auto it = s.ctxs[s.cur].st.rbegin(); it != s.ctxs[s.cur].st.rend(); ++it) {
		Frame &f = **it;
		auto &b = f.fi->blocks[f.block];
		r.stack.push_back(f.fi->F->getName().str() + " @ " + locOf(f.ip < b.ins.size() ? b.ins[f.ip].I : nullptr));
	}
	if (!m) {
		m = s.model;
	}
	r.values = ndValues(s, m);
	errors.push_back(r);
}

// ---------------------------------------------------------------- memory access
struct Ref {
	uint64_t id, off;
};
static std::string descAddr(State &s, uint64_t a)
{
	char b[64];
	snprintf(b, sizeof b, "0x%llx", (unsigned long long)a);
	std::string r = b;
	uint64_t id = a >> SLOT;
	Obj *o = id ? s.mem.get(id) : nullptr;
	if (o) {
		r += " (object '" + o->name + "' size " + std::to_string(o->size) + " offset " +
			std::to_string((long long)(a - o->base)) + (o->alive ? "" : ", freed") + ")";
	}
	return r;
}
static Ref resolve(State &s, const Val &av, uint64_t n, const char *what, bool write)
{
	uint64_t a = concretize(s, av);
	if (n == 0) return Ref{0, 0};
	uint64_t id = a >> SLOT;
	if (id == 0) fail("memory", std::string(what) + ": null or invalid pointer");
	Obj *o = s.mem.get(id);
	if (!o) fail("memory", std::string(what) + ": wild pointer " + descAddr(s, a));
	if (!o->alive) fail("memory", std::string(what) + ": use after free " + descAddr(s, a));
	if (a < o->base || a - o->base > o->size || o->size - (a - o->base) < n)
		fail("memory", std::string(what) + ": out of bounds, " + std::to_string(n) + " bytes at " + descAddr(s, a));
	if (write && o->readonly) fail("memory", std::string(what) + ": write to constant " + descAddr(s, a));
	return Ref{id, a - o->base};
}
static Val readBytes(State &s, Ref r, unsigned n, unsigned w)
{
	Obj *o = s.mem.get(r.id);
	bool sym = false;
	if (!o->sym.empty()) {
		for (unsigned i = 0; i < n; i++)
			if (o->sym[r.off + i].e) {
				sym = true;
				break;
			}
	}
	if (!sym && n <= 8) {
		uint64_t c = 0;
		memcpy(&c, &o->data[r.off], n);
		return cv(c, w);
	}
	auto trunc = [&](Z3_ast e, unsigned ew) -> Val {
		if (w == ew) return sv(e, w);
		if (w == 1) return sv(simp(R(Z3_mk_eq(Z, R(Z3_mk_extract(Z, 0, 0, e)), bvnum(1, 1)))), 1);
		return sv(simp(R(Z3_mk_extract(Z, w - 1, 0, e))), w);
	};
	if (sym) {
		SymByte &b0 = o->sym[r.off];
		if (b0.e && b0.idx == 0) {
			bool all = true;
			for (unsigned i = 1; i < n && all; i++) {
				SymByte &b = o->sym[r.off + i];
				if (b.e != b0.e || b.idx != i) all = false;
			}
			if (all) {
				unsigned ew = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, b0.e));
				if (ew == n * 8) return trunc(b0.e, ew);
			}
		}
	}
	Z3_ast acc = nullptr;
	for (unsigned i = 0; i < n; i++) {
		Z3_ast b;
		if (sym && o->sym[r.off + i].e) {
			SymByte &x = o->sym[r.off + i];
			b = R(Z3_mk_extract(Z, x.idx * 8 + 7, x.idx * 8, x.e));
		} else {
			b = bvnum(o->data[r.off + i], 8);
		}
		acc = acc ? R(Z3_mk_concat(Z, b, acc)) : b;
	}
	return trunc(simp(acc), n * 8);
}
static void writeBytes(State &s, Ref r, unsigned n, const Val &v)
{
	Obj *o = s.mem.wr(r.id);
	if (!v.e) {
		uint64_t c = v.c;
		if (n > 8) {
			memset(&o->data[r.off], 0, n);
			memcpy(&o->data[r.off], &c, 8);
		} else
			memcpy(&o->data[r.off], &c, n);
		if (!o->sym.empty())
			for (unsigned i = 0; i < n; i++) o->sym[r.off + i].e = nullptr;
		return;
	}
	Z3_ast e = exbv(v);
	unsigned ew = v.w;
	if (ew < n * 8) e = R(Z3_mk_zero_ext(Z, n * 8 - ew, e));
	e = simp(e);
	if (Z3_get_ast_kind(Z, e) == Z3_NUMERAL_AST && n > 8) {
		for (unsigned i = 0; i < n; i++) {
			uint64_t u = 0;
			Z3_get_numeral_uint64(Z, simp(R(Z3_mk_extract(Z, i * 8 + 7, i * 8, e))), &u);
			o->data[r.off + i] = (uint8_t)u;
			if (!o->sym.empty()) o->sym[r.off + i].e = nullptr;
		}
		return;
	}
	if (o->sym.empty()) o->sym.assign(o->size, SymByte{nullptr, 0});
	for (unsigned i = 0; i < n; i++) o->sym[r.off + i] = SymByte{e, (uint16_t)i};
}
static Val loadTy(State &s, const Val &a, Type *t);
static Val loadAt(State &s, Ref r, Type *t)
{
	if (auto *st = dyn_cast<StructType>(t)) {
		Val v;
		v.agg = new Agg;
		const StructLayout *sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++)
			v.agg->f.push_back(loadAt(s, Ref{r.id, r.off + sl->getElementOffset(i).getFixedValue()}, st->getElementType(i)));
		return v;
	}
	if (auto *at = dyn_cast<ArrayType>(t)) {
		Val v;
		v.agg = new Agg;
		uint64_t es = DL->getTypeAllocSize(at->getElementType());
		for (unsigned i = 0; i < at->getNumElements(); i++)
			v.agg->f.push_back(loadAt(s, Ref{r.id, r.off + i * es}, at->getElementType()));
		return v;
	}
	if (t->isVectorTy()) unsupported("vector load");
	return readBytes(s, r, (unsigned)DL->getTypeStoreSize(t), widthOf(t));
}
static Val loadTy(State &s, const Val &a, Type *t)
{
	uint64_t n = DL->getTypeStoreSize(t);
	Ref r = resolve(s, a, n, "read", false);
	return loadAt(s, r, t);
}
static void storeAt(State &s, Ref r, Type *t, const Val &v)
{
	if (auto *st = dyn_cast<StructType>(t)) {
		const StructLayout *sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++)
			storeAt(s, Ref{r.id, r.off + sl->getElementOffset(i).getFixedValue()}, st->getElementType(i), v.agg->f[i]);
		return;
	}
	if (auto *at = dyn_cast<ArrayType>(t)) {
		uint64_t es = DL->getTypeAllocSize(at->getElementType());
		for (unsigned i = 0; i < at->getNumElements(); i++)
			storeAt(s, Ref{r.id, r.off + i * es}, at->getElementType(), v.agg->f[i]);
		return;
	}
	if (t->isVectorTy()) unsupported("vector store");
	writeBytes(s, r, (unsigned)DL->getTypeStoreSize(t), v);
}
static void copyBytes(State &s, Ref d, Ref f, uint64_t n)
{
	Obj *so = s.mem.get(f.id);
	std::vector<uint8_t> tmp(so->data.begin() + f.off, so->data.begin() + f.off + n);
	std::vector<SymByte> ts;
	if (!so->sym.empty()) ts.assign(so->sym.begin() + f.off, so->sym.begin() + f.off + n);
	Obj *o = s.mem.wr(d.id);
	memcpy(&o->data[d.off], tmp.data(), n);
	bool any = false;
	for (auto &x : ts)
		if (x.e) any = true;
	if (any && o->sym.empty()) o->sym.assign(o->size, SymByte{nullptr, 0});
	if (!o->sym.empty())
		for (uint64_t i = 0; i < n; i++) o->sym[d.off + i] = any ? ts[i] : SymByte{nullptr, 0};
}

// ---------------------------------------------------------------- constants
static void writeConst(std::vector<uint8_t> &d, uint64_t off, const Constant *C)
{
	if (isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) {
		memset(&d[off], 0, DL->getTypeStoreSize(C->getType()));
		return;
	}
	if (isa<UndefValue>(C)) return;
	if (auto *cds = dyn_cast<ConstantDataSequential>(C)) {
		uint64_t es = DL->getTypeAllocSize(cds->getElementType());
		for (unsigned i = 0; i < cds->getNumElements(); i++) writeConst(d, off + i * es, cds->getElementAsConstant(i));
		return;
	}
	if (auto *ca = dyn_cast<ConstantArray>(C)) {
		uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
		for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(d, off + i * es, ca->getOperand(i));
		return;
	}
	if (auto *cs = dyn_cast<ConstantStruct>(C)) {
		const StructLayout *sl = DL->getStructLayout(cs->getType());
		for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(d, off + sl->getElementOffset(i).getFixedValue(), cs->getOperand(i));
		return;
	}
	Val v = constVal(C);
	uint64_t n = DL->getTypeStoreSize(C->getType());
	if (n > 8) {
		if (auto *ci = dyn_cast<ConstantInt>(C)) {
			APInt a = ci->getValue().zext((unsigned)n * 8);
			memcpy(&d[off], a.getRawData(), n);
			return;
		}
		unsupported("wide constant initializer");
	}
	memcpy(&d[off], &v.c, n);
}
static Val constVal(const Constant *C)
{
	Type *t = C->getType();
	if (auto *ci = dyn_cast<ConstantInt>(C)) {
		if (ci->getBitWidth() <= 64) return cv(ci->getZExtValue(), ci->getBitWidth());
		std::string str = toString(ci->getValue(), 10, false);
		Val v;
		v.w = ci->getBitWidth();
		v.e = R(Z3_mk_numeral(Z, str.c_str(), bvs(v.w)));
		return v;
	}
	if (isa<ConstantPointerNull>(C)) return cv(0, 64);
	if (auto *cf = dyn_cast<ConstantFP>(C)) {
		APInt a = cf->getValueAPF().bitcastToAPInt();
		if (a.getBitWidth() > 64) return cv(0, 64);
		return cv(a.getZExtValue(), a.getBitWidth());
	}
	if (auto *gv = dyn_cast<GlobalValue>(C)) {
		auto it = gaddr.find(gv);
		if (it != gaddr.end()) return cv(it->second, 64);
		if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
		unsupported("global " + gv->getName().str());
	}
	if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantStruct>(C) || isa<ConstantArray>(C) ||
	    isa<ConstantDataSequential>(C)) {
		if (t->isStructTy() || t->isArrayTy()) {
			Val v;
			v.agg = new Agg;
			unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
			for (unsigned i = 0; i < n; i++) v.agg->f.push_back(constVal(C->getAggregateElement(i)));
			return v;
		}
		if (isa<UndefValue>(C)) return cv(t->isIntegerTy(1) ? 0 : 0, widthOf(t));
		if (isa<ConstantAggregateZero>(C)) return cv(0, widthOf(t));
		unsupported("constant");
	}
	if (auto *ce = dyn_cast<ConstantExpr>(C)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0);
			auto *g = cast<GEPOperator>(ce);
			if (!g->accumulateConstantOffset(*DL, off)) unsupported("const gep");
			return cv(constVal(ce->getOperand(0)).c + off.getSExtValue(), 64);
		}
		case Instruction::BitCast:
		case Instruction::AddrSpaceCast:
			return constVal(ce->getOperand(0));
		case Instruction::PtrToInt:
		case Instruction::IntToPtr:
		case Instruction::Trunc:
			return cv(constVal(ce->getOperand(0)).c, widthOf(t));
		case Instruction::Add:
			return cv(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c, widthOf(t));
		case Instruction::Sub:
			return cv(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c, widthOf(t));
		default:
			unsupported(std::string("constexpr ") + ce->getOpcodeName());
		}
	}
	unsupported("constant kind");
}

// ---------------------------------------------------------------- function prep
static FInfo *prep(Function *F)
{
	auto it = finfos.find(F);
	if (it != finfos.end()) return it->second;
	FInfo *fi = new FInfo;
	fi->F = F;
	finfos[F] = fi;
	std::unordered_map<const Value *, int> slot;
	int n = 0;
	for (auto &a : F->args()) slot[&a] = n++;
	std::unordered_map<const BasicBlock *, int> bidx;
	int bi = 0;
	for (auto &b : *F) {
		bidx[&b] = bi++;
		for (auto &i : b)
			if (!i.getType()->isVoidTy()) slot[&i] = n++;
	}
	fi->nregs = n;
	for (auto &b : *F) {
		BInfo B;
		B.bb = &b;
		for (auto &i : b) {
			if (isa<DbgInfoIntrinsic>(&i)) continue;
			IInfo x;
			x.I = &i;
			x.opc = i.getOpcode();
			x.ty = i.getType();
			if (!i.getType()->isVoidTy()) {
				x.dst = slot[&i];
				if (i.getType()->isSized() && !i.getType()->isStructTy() && !i.getType()->isArrayTy()) x.w = widthOf(i.getType());
			}
			if (isa<PHINode>(&i)) B.nphi++;
			for (auto &u : i.operands()) {
				Opnd o;
				Value *v = u.get();
				if (isa<BasicBlock>(v)) {
					x.targets.push_back(bidx[cast<BasicBlock>(v)]);
					continue;
				}
				auto sit = slot.find(v);
				if (sit != slot.end())
					o.slot = sit->second;
				else if (auto *c = dyn_cast<Constant>(v)) {
					try {
						o.cval = constVal(c);
					} catch (Fail &) {
						o.bad = true;
					}
				} else
					o.bad = true; // metadata, asm
				x.ops.push_back(o);
			}
			if (auto *ph = dyn_cast<PHINode>(&i)) {
				x.targets.clear();
				for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) x.targets.push_back(bidx[ph->getIncomingBlock(k)]);
			}
			if (auto *br = dyn_cast<BranchInst>(&i)) {
				x.targets.clear();
				for (unsigned k = 0; k < br->getNumSuccessors(); k++) x.targets.push_back(bidx[br->getSuccessor(k)]);
			}
			if (auto *sw = dyn_cast<SwitchInst>(&i)) {
				x.targets.clear();
				x.targets.push_back(bidx[sw->getDefaultDest()]);
				for (auto c : sw->cases()) {
					x.targets.push_back(bidx[c.getCaseSuccessor()]);
					x.idx.push_back({0, (int64_t)c.getCaseValue()->getZExtValue()});
				}
			}
			if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
				unsigned k = 1;
				for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi, ++k) {
					Value *ix = gi.getOperand();
					if (StructType *st = gi.getStructTypeOrNull()) {
						x.coff += (int64_t)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()).getFixedValue();
					} else {
						int64_t sz = (int64_t)DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue();
						if (auto *ci = dyn_cast<ConstantInt>(ix))
							x.coff += ci->getSExtValue() * sz;
						else
							x.idx.push_back({(int)k, sz});
					}
				}
			}
			if (auto *al = dyn_cast<AllocaInst>(&i)) x.size = DL->getTypeAllocSize(al->getAllocatedType());
			if (auto *cb = dyn_cast<CallBase>(&i)) {
				Value *c = cb->getCalledOperand()->stripPointerCasts();
				x.callee = dyn_cast<Function>(c);
				if (!x.callee)
					if (auto *ga = dyn_cast<GlobalAlias>(c)) x.callee = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
			}
			B.ins.push_back(std::move(x));
		}
		fi->blocks.push_back(std::move(B));
	}
	return fi;
}

// ---------------------------------------------------------------- operations
static Val binop(State &s, unsigned opc, const Val &a, const Val &b)
{
	unsigned w = a.w;
	if (!a.e && !b.e && w <= 64) {
		uint64_t x = a.c, y = b.c;
		switch (opc) {
		case Instruction::Add: return cv(x + y, w);
		case Instruction::Sub: return cv(x - y, w);
		case Instruction::Mul: return cv(x * y, w);
		case Instruction::And: return cv(x & y, w);
		case Instruction::Or: return cv(x | y, w);
		case Instruction::Xor: return cv(x ^ y, w);
		case Instruction::Shl: return cv(x << (y & (w > 32 ? 63 : 31)), w);
		case Instruction::LShr: return cv(x >> (y & (w > 32 ? 63 : 31)), w);
		case Instruction::AShr: return cv((uint64_t)(sx(x, w) >> (y & (w > 32 ? 63 : 31))), w);
		case Instruction::UDiv:
			if (!y) fail("arith", "division by zero");
			return cv(x / y, w);
		case Instruction::URem:
			if (!y) fail("arith", "division by zero");
			return cv(x % y, w);
		case Instruction::SDiv:
			if (!y) fail("arith", "division by zero");
			if (sx(y, w) == -1) return cv(0 - x, w);
			return cv((uint64_t)(sx(x, w) / sx(y, w)), w);
		case Instruction::SRem:
			if (!y) fail("arith", "division by zero");
			if (sx(y, w) == -1) return cv(0, w);
			return cv((uint64_t)(sx(x, w) % sx(y, w)), w);
		}
		unsupported("binop");
	}
	if (w == 1) {
		Z3_ast x = ex(a), y = ex(b);
		Z3_ast ar[2] = {x, y};
		switch (opc) {
		case Instruction::And: return sv(simp(R(Z3_mk_and(Z, 2, ar))), 1);
		case Instruction::Or: return sv(simp(R(Z3_mk_or(Z, 2, ar))), 1);
		case Instruction::Add:
		case Instruction::Sub:
		case Instruction::Xor: return sv(simp(R(Z3_mk_xor(Z, x, y))), 1);
		default: unsupported("i1 binop");
		}
	}
	Z3_ast x = ex(a), y = ex(b), r = nullptr;
	switch (opc) {
	case Instruction::Add: r = Z3_mk_bvadd(Z, x, y); break;
	case Instruction::Sub: r = Z3_mk_bvsub(Z, x, y); break;
	case Instruction::Mul: r = Z3_mk_bvmul(Z, x, y); break;
	case Instruction::And: r = Z3_mk_bvand(Z, x, y); break;
	case Instruction::Or: r = Z3_mk_bvor(Z, x, y); break;
	case Instruction::Xor: r = Z3_mk_bvxor(Z, x, y); break;
	case Instruction::Shl:
	case Instruction::LShr:
	case Instruction::AShr:
		if (w == 32 || w == 64) y = R(Z3_mk_bvand(Z, y, bvnum(w - 1, w)));
		r = opc == Instruction::Shl ? Z3_mk_bvshl(Z, x, y) : opc == Instruction::LShr ? Z3_mk_bvlshr(Z, x, y) : Z3_mk_bvashr(Z, x, y);
		break;
	case Instruction::UDiv:
	case Instruction::URem:
	case Instruction::SDiv:
	case Instruction::SRem: {
		if (b.e) {
			Z3_ast z = simp(R(Z3_mk_eq(Z, y, bvnum(0, w))));
			if (decide(s, z)) fail("arith", "division by zero");
		} else if (!b.c)
			fail("arith", "division by zero");
		r = opc == Instruction::UDiv ? Z3_mk_bvudiv(Z, x, y) : opc == Instruction::URem ? Z3_mk_bvurem(Z, x, y) :
			opc == Instruction::SDiv ? Z3_mk_bvsdiv(Z, x, y) : Z3_mk_bvsrem(Z, x, y);
		break;
	}
	default: unsupported("binop");
	}
	return sv(simp(R(r)), w);
}
static Val icmp(unsigned p, const Val &a, const Val &b)
{
	unsigned w = a.w;
	if (!a.e && !b.e) {
		uint64_t x = a.c, y = b.c;
		int64_t sxx = sx(x, w), syy = sx(y, w);
		bool r = false;
		switch (p) {
		case CmpInst::ICMP_EQ: r = x == y; break;
		case CmpInst::ICMP_NE: r = x != y; break;
		case CmpInst::ICMP_UGT: r = x > y; break;
		case CmpInst::ICMP_UGE: r = x >= y; break;
		case CmpInst::ICMP_ULT: r = x < y; break;
		case CmpInst::ICMP_ULE: r = x <= y; break;
		case CmpInst::ICMP_SGT: r = sxx > syy; break;
		case CmpInst::ICMP_SGE: r = sxx >= syy; break;
		case CmpInst::ICMP_SLT: r = sxx < syy; break;
		case CmpInst::ICMP_SLE: r = sxx <= syy; break;
		}
		return cv(r, 1);
	}
	if (w == 1) {
		Z3_ast x = ex(a), y = ex(b);
		if (p == CmpInst::ICMP_EQ) return sv(simp(R(Z3_mk_eq(Z, x, y))), 1);
		if (p == CmpInst::ICMP_NE) return sv(simp(R(Z3_mk_xor(Z, x, y))), 1);
		Val a8, b8;
		a8.w = b8.w = 8;
		a8 = sv(simp(R(Z3_mk_sign_ext(Z, 7, exbv(a)))), 8);
		b8 = sv(simp(R(Z3_mk_sign_ext(Z, 7, exbv(b)))), 8);
		return icmp(p, a8, b8);
	}
	Z3_ast x = ex(a), y = ex(b), r = nullptr;
	switch (p) {
	case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x, y); break;
	case CmpInst::ICMP_NE: r = Z3_mk_not(Z, R(Z3_mk_eq(Z, x, y))); break;
	case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x, y); break;
	case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x, y); break;
	case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x, y); break;
	case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x, y); break;
	case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x, y); break;
	case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x, y); break;
	case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x, y); break;
	case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x, y); break;
	}
	return sv(simp(R(r)), 1);
}
static Val castTo(unsigned opc, const Val &a, unsigned w)
{
	if (opc == Instruction::BitCast || opc == Instruction::AddrSpaceCast || opc == Instruction::Freeze) return a;
	if (opc == Instruction::PtrToInt || opc == Instruction::IntToPtr) opc = w < a.w ? Instruction::Trunc : Instruction::ZExt;
	if (a.w == w) return a;
	if (!a.e && a.w <= 64 && w <= 64) {
		if (opc == Instruction::SExt) return cv((uint64_t)sx(a.c, a.w), w);
		return cv(a.c, w);
	}
	if (opc == Instruction::Trunc) {
		if (w == 1) return sv(simp(R(Z3_mk_eq(Z, R(Z3_mk_extract(Z, 0, 0, ex(a))), bvnum(1, 1)))), 1);
		return sv(simp(R(Z3_mk_extract(Z, w - 1, 0, ex(a)))), w);
	}
	if (a.w == 1) {
		if (opc == Instruction::SExt) return sv(simp(R(Z3_mk_sign_ext(Z, w - 1, exbv(a)))), w);
		if (w <= 64) return sv(simp(R(Z3_mk_ite(Z, ex(a), bvnum(1, w), bvnum(0, w)))), w);
	}
	if (opc == Instruction::SExt) return sv(simp(R(Z3_mk_sign_ext(Z, w - a.w, exbv(a)))), w);
	return sv(simp(R(Z3_mk_zero_ext(Z, w - a.w, exbv(a)))), w);
}
static Val ite(State &s, const Val &c, const Val &a, const Val &b)
{
	if (!c.e) return c.c ? a : b;
	if (a.agg || b.agg) return decide(s, c.e) ? a : b;
	if (!a.e && !b.e && a.c == b.c) return a;
	return sv(simp(R(Z3_mk_ite(Z, c.e, ex(a), ex(b)))), a.w);
}
static double toD(const Val &v)
{
	if (v.e) unsupported("symbolic floating point");
	if (v.w == 32) {
		uint32_t u = (uint32_t)v.c;
		float f;
		memcpy(&f, &u, 4);
		return f;
	}
	double d;
	memcpy(&d, &v.c, 8);
	return d;
}
static Val fromD(double d, unsigned w)
{
	if (w == 32) {
		float f = (float)d;
		uint32_t u;
		memcpy(&u, &f, 4);
		return cv(u, 32);
	}
	uint64_t u;
	memcpy(&u, &d, 8);
	return cv(u, 64);
}

// ---------------------------------------------------------------- strings
static std::string readCStr(State &s, const Val &a, size_t max = 1 << 16)
{
	std::string r;
	uint64_t p = concretize(s, a);
	for (size_t i = 0; i < max; i++) {
		Ref rf = resolve(s, cv(p + i, 64), 1, "string read", false);
		Val b = readBytes(s, rf, 1, 8);
		if (b.e) unsupported("symbolic string in format");
		if (!b.c) return r;
		r += (char)b.c;
	}
	unsupported("string too long");
}
static uint64_t loadU64(State &s, uint64_t a)
{
	Ref r = resolve(s, cv(a, 64), 8, "read", false);
	return concretize(s, readBytes(s, r, 8, 64));
}
static uint64_t loadU32(State &s, uint64_t a)
{
	Ref r = resolve(s, cv(a, 64), 4, "read", false);
	return concretize(s, readBytes(s, r, 4, 32));
}
static std::string format(State &s, const std::string &fmt, std::function<Val()> next)
{
	std::string out;
	for (size_t i = 0; i < fmt.size(); i++) {
		if (fmt[i] != '%') {
			out += fmt[i];
			continue;
		}
		std::string sp = "%";
		i++;
		int prec_arg = -1;
		while (i < fmt.size() && strchr("-+ #0123456789.*", fmt[i])) {
			if (fmt[i] == '*') {
				prec_arg = (int)concretize(s, next());
				sp += std::to_string(prec_arg);
			} else
				sp += fmt[i];
			i++;
		}
		std::string len;
		while (i < fmt.size() && strchr("hlzjtL", fmt[i])) len += fmt[i++];
		char c = i < fmt.size() ? fmt[i] : 0;
		char buf[512];
		if (c == '%')
			out += '%';
		else if (strchr("diuxXc", c)) {
			uint64_t u = concretize(s, next());
			bool lng = !len.empty() && len[0] != 'h';
			if (c == 'c')
				snprintf(buf, sizeof buf, (sp + "c").c_str(), (int)u);
			else if (c == 'd' || c == 'i')
				snprintf(buf, sizeof buf, (sp + "lld").c_str(), lng ? (long long)u : (long long)(int)u);
			else
				snprintf(buf, sizeof buf, (sp + "ll" + c).c_str(), lng ? (unsigned long long)u : (unsigned long long)(unsigned)u);
			out += buf;
		} else if (c == 's') {
			Val v = next();
			std::string st = readCStr(s, v);
			char *b = (char *)malloc(st.size() + 512);
			snprintf(b, st.size() + 512, (sp + "s").c_str(), st.c_str());
			out += b;
			free(b);
		} else if (c == 'p') {
			snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)concretize(s, next()));
			out += buf;
		} else
			unsupported(std::string("format %") + c);
	}
	return out;
}
static void putStr(State &s, uint64_t dst, uint64_t n, const std::string &str)
{
	if (n == 0) return;
	size_t k = std::min<size_t>(str.size(), n - 1);
	Ref r = resolve(s, cv(dst, 64), k + 1, "string write", true);
	for (size_t i = 0; i < k; i++) writeBytes(s, Ref{r.id, r.off + i}, 1, cv((uint8_t)str[i], 8));
	writeBytes(s, Ref{r.id, r.off + k}, 1, cv(0, 8));
}

// ---------------------------------------------------------------- builtins
typedef std::function<Val(State &, std::vector<Val> &, IInfo &, Frame &)> Builtin;
static std::unordered_map<std::string, Builtin> builtins;

static Val doMalloc(State &s, uint64_t n, bool zero, unsigned align, const char *name)
{
	return cv(s.mem.alloc(n, K_HEAP, align, name, zero), 64);
}
static void doFree(State &s, uint64_t p)
{
	if (!p) return;
	uint64_t id = p >> SLOT;
	Obj *o = id ? s.mem.get(id) : nullptr;
	if (!o || o->kind != K_HEAP) fail("memory", "free of a pointer that is not a heap block: " + descAddr(s, p));
	if (!o->alive) fail("memory", "double free " + descAddr(s, p));
	if (p != o->base) fail("memory", "free of an interior pointer " + descAddr(s, p));
	if (s.cur > 0 && s.ctxs[s.cur].stackobj == id) fail("memory", "running fiber's own stack freed");
	s.mem.live_heap -= o->size;
	s.mem.drop(id);
}
static uint64_t CTXBASE = 0x7f0000000000ULL;

static void pushFrame(State &s, Function *F, std::vector<Val> &args, const CallBase *cb)
{
	FInfo *fi = prep(F);
	auto &st = s.ctxs[s.cur].st;
	if (st.size() > 400) fail("stack", "call depth exceeds 400 (runaway recursion)");
	FrameP f = std::make_shared<Frame>();
	f->fi = fi;
	fi->executed = true;
	f->regs.resize(fi->nregs);
	unsigned n = F->arg_size();
	for (unsigned i = 0; i < args.size(); i++) {
		if (i < n) {
			Val a = args[i];
			if (F->hasParamAttribute(i, Attribute::ByVal)) {
				Type *t = F->getParamByValType(i);
				uint64_t sz = DL->getTypeAllocSize(t);
				Ref r = resolve(s, a, sz, "byval argument", false);
				uint64_t na = s.mem.alloc(sz, K_STACK, 16, "byval", false);
				copyBytes(s, Ref{na >> SLOT, 0}, r, sz);
				f->allocas.push_back(na >> SLOT);
				a = cv(na, 64);
			}
			Type *t = F->getArg(i)->getType();
			if (!a.agg && !t->isStructTy() && !t->isArrayTy()) {
				unsigned w = widthOf(t);
				if (a.w != w) a = castTo(a.w > w ? Instruction::Trunc : Instruction::ZExt, a, w);
			}
			f->regs[i] = a;
		} else
			f->varargs.push_back(args[i]);
	}
	st.push_back(f);
	if (st.size() > maxDepth) maxDepth = st.size();
}

static void popFrame(State &s)
{
	auto &st = s.ctxs[s.cur].st;
	for (auto id : st.back()->allocas) s.mem.drop(id);
	st.pop_back();
}

static void setReg(Frame &f, IInfo &x, const Val &v)
{
	if (x.dst >= 0) f.regs[x.dst] = v;
}

static void initBuiltins()
{
	builtins["vp_nd_raw"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		uint64_t m = concretize(s, a[0]);
		unsigned w = 0;
		while (w < 64 && (m >> w)) w++;
		if (m != maskw(w) || w == 0) unsupported("vp_nd_raw mask");
		std::string nm = "nd" + std::to_string(s.nds.size()) + "_" + std::to_string(w);
		Z3_ast v = R(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), bvs(w)));
		s.nds.push_back(ND{v, w});
		ndCounter++;
		if (w == 64) return sv(v, 64);
		return sv(simp(R(Z3_mk_zero_ext(Z, 64 - w, v))), 64);
	};
	builtins["vp_assume"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		Val c = icmp(CmpInst::ICMP_NE, a[0], cv(0, a[0].w));
		if (!c.e) {
			if (!c.c) throw PathEnd();
			return Val();
		}
		ModelP m;
		if (!may(s, c.e, &m)) throw PathEnd();
		addPC(s, c.e);
		s.model = m;
		return Val();
	};
	builtins["vp_check"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		Val c = icmp(CmpInst::ICMP_NE, a[0], cv(0, a[0].w));
		if (!c.e) {
			if (!c.c) fail("assert", readCStr(s, a[1]));
			return Val();
		}
		Z3_ast nc = notE(c.e);
		ModelP m;
		if (may(s, nc, &m)) {
			std::vector<Z3_ast> save = s.pc;
			addPC(s, nc);
			report(s, "assert", readCStr(s, a[1]), m);
			nErrPaths++;
			s.pc = save;
			ModelP mt;
			if (!may(s, c.e, &mt)) throw PathEnd();
			addPC(s, c.e);
			s.model = mt;
		}
		return Val();
	};
	builtins["vp_reach"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		std::string m = readCStr(s, a[0]);
		if (counted(s)) reachCount[m]++;
		if (!reachWitness.count(m)) {
			reachWitness[m] = ndValues(s, s.model);
		}
		return Val();
	};
	builtins["vp_stop"] = [](State &, std::vector<Val> &, IInfo &, Frame &) -> Val { throw PathEnd(); };
	builtins["vp_concretize"] = [](State &s, std::vector<Val> &a, IInfo &x, Frame &) -> Val {
		uint64_t c = concretize(s, a[0]);
		return cv(c, x.w ? x.w : 64);
	};
	builtins["vp_heap_bytes"] = [](State &s, std::vector<Val> &, IInfo &, Frame &) -> Val { return cv(s.mem.live_heap, 64); };
	builtins["vp_is_stack"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		uint64_t id = concretize(s, a[0]) >> SLOT;
		Obj *o = id ? s.mem.get(id) : nullptr;
		return cv(o && o->kind == K_STACK, 32);
	};
	for (const char *n : {"1", "2", "4", "8", "16"})
		for (const char *k : {"__sanitizer_cov_load", "__sanitizer_cov_store"}) builtins[std::string(k) + n] = [](State &, std::vector<Val> &, IInfo &, Frame &) -> Val { return cv(0, 64); };
	builtins["vp_is_symbolic"] = [](State &, std::vector<Val> &a, IInfo &, Frame &) -> Val { return cv(a[0].e != nullptr, 32); };
	// is [p, p+n) inside one live block?
	/* is [p,p+n) inside one live object?  decided without forking when p or n is symbolic */
	builtins["vp_accessible"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		if (!a[0].e && !a[1].e) {
			uint64_t p = a[0].c, n = a[1].c;
			uint64_t id = p >> SLOT;
			Obj *o = id ? s.mem.get(id) : nullptr;
			bool ok = n == 0 || (o && o->alive && p >= o->base && p - o->base <= o->size && o->size - (p - o->base) >= n);
			return cv(ok, 32);
		}
		Val r = icmp(CmpInst::ICMP_EQ, a[1], cv(0, 64));
		for (uint64_t id = 1; id < s.mem.next; id++) {
			Obj *o = s.mem.get(id);
			if (!o || !o->alive || o->kind != K_HEAP) continue;
			Val off = binop(s, Instruction::Sub, a[0], cv(o->base, 64));
			Val in = icmp(CmpInst::ICMP_ULE, off, cv(o->size, 64));
			Val room = icmp(CmpInst::ICMP_UGE, binop(s, Instruction::Sub, cv(o->size, 64), off), a[1]);
			r = binop(s, Instruction::Or, r, binop(s, Instruction::And, in, room));
		}
		return castTo(Instruction::ZExt, r, 32);
	};
	auto mallocB = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val { return doMalloc(s, concretize(s, a[0]), false, 16, "malloc"); };
	builtins["malloc"] = mallocB;
	builtins["calloc"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		uint64_t n = concretize(s, a[0]), m = concretize(s, a[1]);
		return doMalloc(s, n * m, true, 16, "calloc");
	};
	builtins["memalign"] = builtins["aligned_alloc"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		uint64_t al = concretize(s, a[0]), n = concretize(s, a[1]);
		return doMalloc(s, n, false, (unsigned)al, "memalign");
	};
	builtins["posix_memalign"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		uint64_t al = concretize(s, a[1]), n = concretize(s, a[2]);
		Ref r = resolve(s, a[0], 8, "posix_memalign", true);
		writeBytes(s, r, 8, doMalloc(s, n, false, (unsigned)al, "memalign"));
		return cv(0, 32);
	};
	builtins["realloc"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		uint64_t p = concretize(s, a[0]), n = concretize(s, a[1]);
		Val r = doMalloc(s, n, false, 16, "realloc");
		if (p) {
			uint64_t id = p >> SLOT;
			Obj *o = id ? s.mem.get(id) : nullptr;
			if (!o || !o->alive || o->kind != K_HEAP || p != o->base) fail("memory", "bad realloc " + descAddr(s, p));
			uint64_t k = std::min(o->size, n);
			if (k) copyBytes(s, Ref{r.c >> SLOT, 0}, Ref{id, 0}, k);
			doFree(s, p);
		}
		return r;
	};
	builtins["free"] = builtins["cfree"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		doFree(s, concretize(s, a[0]));
		return Val();
	};
	builtins["_ZdlPv"] = builtins["_ZdlPvm"] = builtins["free"];
	builtins["_Znwm"] = mallocB;
	auto cpy = [](bool overlapOk) {
		return [overlapOk](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
			uint64_t n = concretize(s, a[2]);
			uint64_t d = concretize(s, a[0]), f = concretize(s, a[1]);
			if (n) {
				Ref rd = resolve(s, cv(d, 64), n, "memcpy destination", true);
				Ref rf = resolve(s, cv(f, 64), n, "memcpy source", false);
				if (!overlapOk && d != f && rd.id == rf.id && d < f + n && f < d + n) fail("memory", "memcpy with overlapping ranges");
				copyBytes(s, rd, rf, n);
			}
			return cv(d, 64);
		};
	};
	builtins["memcpy"] = cpy(false);
	builtins["memmove"] = cpy(true);
	builtins["mempcpy"] = [](State &s, std::vector<Val> &a, IInfo &x, Frame &f) -> Val {
		uint64_t n = concretize(s, a[2]);
		Val r = builtins["memcpy"](s, a, x, f);
		return cv(r.c + n, 64);
	};
	builtins["memset"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		uint64_t n = concretize(s, a[2]);
		uint64_t d = concretize(s, a[0]);
		if (n) {
			Ref rd = resolve(s, cv(d, 64), n, "memset", true);
			Val b = castTo(Instruction::Trunc, a[1], 8);
			if (b.e) {
				for (uint64_t i = 0; i < n; i++) writeBytes(s, Ref{rd.id, rd.off + i}, 1, b);
			} else {
				Obj *o = s.mem.wr(rd.id);
				memset(&o->data[rd.off], (int)b.c, n);
				if (!o->sym.empty())
					for (uint64_t i = 0; i < n; i++) o->sym[rd.off + i].e = nullptr;
			}
		}
		return cv(d, 64);
	};
	builtins["bzero"] = [](State &s, std::vector<Val> &a, IInfo &x, Frame &f) -> Val {
		std::vector<Val> b{a[0], cv(0, 32), a[1]};
		return builtins["memset"](s, b, x, f);
	};
	auto nop0 = [](State &, std::vector<Val> &, IInfo &x, Frame &) -> Val { return cv(0, x.w ? x.w : 32); };
	for (const char *n : {"printf", "fprintf", "vfprintf", "vprintf", "puts", "putchar", "fputs", "fflush", "perror", "syslog",
	                      "fputc", "fwrite", "openlog", "__printf_chk", "__fprintf_chk", "sched_yield", "usleep"})
		builtins[n] = nop0;
	builtins["snprintf"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		size_t k = 3;
		uint64_t n = concretize(s, a[1]), d = concretize(s, a[0]);
		std::string r = format(s, readCStr(s, a[2]), [&]() -> Val {
			if (k >= a.size()) unsupported("snprintf args");
			return a[k++];
		});
		putStr(s, d, n, r);
		return cv(r.size(), 32);
	};
	builtins["sprintf"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		size_t k = 2;
		uint64_t d = concretize(s, a[0]);
		std::string r = format(s, readCStr(s, a[1]), [&]() -> Val {
			if (k >= a.size()) unsupported("sprintf args");
			return a[k++];
		});
		putStr(s, d, r.size() + 1, r);
		return cv(r.size(), 32);
	};
	builtins["vsnprintf"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		uint64_t n = concretize(s, a[1]), d = concretize(s, a[0]), va = concretize(s, a[3]);
		uint64_t ov = loadU64(s, va + 8);
		std::string r = format(s, readCStr(s, a[2]), [&]() -> Val {
			Val v = cv(loadU64(s, ov), 64);
			ov += 8;
			return v;
		});
		putStr(s, d, n, r);
		return cv(r.size(), 32);
	};
	builtins["__assert_fail"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		fail("assert", "library assertion: " + readCStr(s, a[0]));
	};
	builtins["abort"] = [](State &, std::vector<Val> &, IInfo &, Frame &) -> Val { fail("assert", "abort() called"); };
	builtins["exit"] = builtins["_exit"] = [](State &, std::vector<Val> &, IInfo &, Frame &) -> Val { fail("assert", "exit() called"); };
	builtins["__cxa_atexit"] = nop0;
	builtins["atexit"] = nop0;
	builtins["make_fcontext"] = [](State &s, std::vector<Val> &a, IInfo &, Frame &) -> Val {
		uint64_t sp = concretize(s, a[0]), sz = concretize(s, a[1]), fn = concretize(s, a[2]);
		auto it = faddr.find(fn);
		if (it == faddr.end()) fail("memory", "make_fcontext: bad entry function");
		Ctx c;
		c.start = it->second;
		// the stack [sp-sz, sp) must be inside one live block
		Ref r = resolve(s, cv(sp - sz, 64), sz, "fiber stack", true);
		c.stackobj = r.id;
		s.ctxs.push_back(c);
		if (s.ctxs.size() > 60) unsupported("too many contexts");
		return cv(CTXBASE + 16 * (s.ctxs.size() - 1), 64);
	};
}

static IInfo *theInst(State &s)
{
	Frame &f = *s.ctxs[s.cur].st.back();
	return &f.fi->blocks[f.block].ins[f.ip];
}
static Frame &top(State &s)
{
	FrameP &p = s.ctxs[s.cur].st.back();
	if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
	return *p;
}

// returns true if handled as a jump
static void jumpFcontext(State &s, std::vector<Val> &a)
{
	uint64_t to = concretize(s, a[0]);
	uint64_t i = (to - CTXBASE) / 16;
	if (to < CTXBASE || i >= s.ctxs.size()) fail("memory", "jump to an invalid fiber context");
	if ((int)i == s.cur) fail("memory", "fiber switches to itself");
	int from = s.cur;
	Ctx &c = s.ctxs[i];
	if (c.stackobj) {
		Obj *o = s.mem.get(c.stackobj);
		if (!o || !o->alive) fail("memory", "jump to a fiber whose stack has been freed");
	}
	Val fromH = cv(CTXBASE + 16 * (uint64_t)from, 64);
	s.cur = (int)i;
	if (c.st.empty()) {
		if (!c.start) fail("memory", "jump to a fiber context that has ended");
		Function *F = c.start;
		c.start = nullptr;
		std::vector<Val> args{fromH, a[1]};
		pushFrame(s, F, args, nullptr);
		return;
	}
	// resume after its own jump_fcontext call
	Frame &f = top(s);
	IInfo &x = f.fi->blocks[f.block].ins[f.ip];
	if (x.opc != Instruction::Call || !x.callee || x.callee->getName() != "jump_fcontext")
		fail("memory", "jump to a context that is not suspended");
	Val v;
	v.agg = new Agg;
	v.agg->f.push_back(fromH);
	v.agg->f.push_back(a[1]);
	f.regs[x.dst] = v;
	f.ip++;
}

static std::string demangledBase(const std::string &n)
{
	// _Z<len><name>... -> name, to find builtins declared without extern "C"
	if (n.size() > 2 && n[0] == '_' && n[1] == 'Z' && isdigit(n[2])) {
		size_t i = 2, l = 0;
		while (i < n.size() && isdigit(n[i])) l = l * 10 + (n[i++] - '0');
		if (i + l <= n.size()) return n.substr(i, l);
	}
	return n;
}

static void enterBlock(State &s, Frame &f, int target)
{
	f.prev = f.block;
	f.block = target;
	f.ip = 0;
	BInfo &b = f.fi->blocks[target];
	if (b.nphi) {
		std::vector<Val> tmp(b.nphi);
		for (size_t k = 0; k < b.nphi; k++) {
			IInfo &p = b.ins[k];
			p.covered = true;
			for (size_t j = 0; j < p.targets.size(); j++)
				if (p.targets[j] == f.prev) {
					Opnd &o = p.ops[j];
					tmp[k] = o.slot >= 0 ? f.regs[o.slot] : o.cval;
					break;
				}
		}
		for (size_t k = 0; k < b.nphi; k++) f.regs[b.ins[k].dst] = tmp[k];
		f.ip = b.nphi;
	}
}

// executes one instruction; returns false when the path is complete
static bool step(State &s)
{
	Frame &f = top(s);
	IInfo &x = f.fi->blocks[f.block].ins[f.ip];
	x.covered = true;
	nInstr++;
	if (++s.steps > maxSteps) fail("hang", "more than " + std::to_string(maxSteps) + " instructions on one path");
	auto op = [&](unsigned i) -> Val & {
		Opnd &o = x.ops[i];
		if (o.slot >= 0) return f.regs[o.slot];
		if (o.bad) unsupported("operand");
		return o.cval;
	};
	switch (x.opc) {
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
	case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv:
	case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
		setReg(f, x, binop(s, x.opc, op(0), op(1)));
		f.ip++;
		return true;
	case Instruction::ICmp:
		setReg(f, x, icmp(cast<ICmpInst>(x.I)->getPredicate(), op(0), op(1)));
		f.ip++;
		return true;
	case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::BitCast: case Instruction::PtrToInt:
	case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Freeze:
		setReg(f, x, castTo(x.opc, op(0), x.w));
		f.ip++;
		return true;
	case Instruction::Select:
		setReg(f, x, ite(s, op(0), op(1), op(2)));
		f.ip++;
		return true;
	case Instruction::GetElementPtr: {
		Val b = op(0);
		if (x.coff) b = binop(s, Instruction::Add, b, cv((uint64_t)x.coff, 64));
		for (auto &ix : x.idx) {
			Val i = op(ix.first);
			if (i.w < 64) i = castTo(Instruction::SExt, i, 64);
			if (ix.second != 1) i = binop(s, Instruction::Mul, i, cv((uint64_t)ix.second, 64));
			b = binop(s, Instruction::Add, b, i);
		}
		setReg(f, x, b);
		f.ip++;
		return true;
	}
	case Instruction::Alloca: {
		uint64_t n = concretize(s, op(0)) * x.size;
		uint64_t a = s.mem.alloc(n, K_STACK, (unsigned)cast<AllocaInst>(x.I)->getAlign().value(),
			x.I->hasName() ? x.I->getName().str() : "local", false);
		f.allocas.push_back(a >> SLOT);
		setReg(f, x, cv(a, 64));
		f.ip++;
		return true;
	}
	case Instruction::Load: {
		Val v = loadTy(s, op(0), x.ty);
		setReg(f, x, v);
		f.ip++;
		return true;
	}
	case Instruction::Store: {
		Type *t = cast<StoreInst>(x.I)->getValueOperand()->getType();
		Ref r = resolve(s, op(1), DL->getTypeStoreSize(t), "write", true);
		storeAt(s, r, t, op(0));
		f.ip++;
		return true;
	}
	case Instruction::Fence:
		f.ip++;
		return true;
	case Instruction::AtomicRMW: {
		auto *rmw = cast<AtomicRMWInst>(x.I);
		Ref r = resolve(s, op(0), x.w / 8, "atomic access", true);
		Val old = readBytes(s, r, x.w / 8, x.w);
		Val &v = op(1);
		Val nv;
		switch (rmw->getOperation()) {
		case AtomicRMWInst::Xchg: nv = v; break;
		case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, v); break;
		case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, v); break;
		case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, v); break;
		case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, v); break;
		case AtomicRMWInst::Xor: nv = binop(s, Instruction::Xor, old, v); break;
		default: unsupported("atomicrmw op");
		}
		writeBytes(s, r, x.w / 8, nv);
		setReg(f, x, old);
		f.ip++;
		return true;
	}
	case Instruction::AtomicCmpXchg: {
		unsigned w = op(1).w;
		Ref r = resolve(s, op(0), w / 8, "atomic access", true);
		Val old = readBytes(s, r, w / 8, w);
		Val c = icmp(CmpInst::ICMP_EQ, old, op(1));
		Val nv = ite(s, c, op(2), old);
		writeBytes(s, r, w / 8, nv);
		Val res;
		res.agg = new Agg;
		res.agg->f.push_back(old);
		res.agg->f.push_back(c);
		setReg(f, x, res);
		f.ip++;
		return true;
	}
	case Instruction::ExtractValue: {
		Val v = op(0);
		for (unsigned i : cast<ExtractValueInst>(x.I)->indices()) v = Val(v.agg->f[i]);
		setReg(f, x, v);
		f.ip++;
		return true;
	}
	case Instruction::InsertValue: {
		Val v = op(0);
		auto ids = cast<InsertValueInst>(x.I)->getIndices();
		Agg *na = new Agg(*v.agg);
		Val r;
		r.agg = na;
		Agg *p = na;
		for (size_t k = 0; k + 1 < ids.size(); k++) {
			Agg *q = new Agg(*p->f[ids[k]].agg);
			p->f[ids[k]].agg = q;
			p = q;
		}
		p->f[ids.back()] = op(1);
		setReg(f, x, r);
		f.ip++;
		return true;
	}
	case Instruction::Br: {
		if (x.targets.size() == 1) {
			enterBlock(s, f, x.targets[0]);
			return true;
		}
		Val c = op(0);
		bool t = c.e ? decide(s, c.e) : (c.c & 1);
		enterBlock(s, f, x.targets[t ? 0 : 1]);
		return true;
	}
	case Instruction::Switch: {
		Val c = op(0);
		if (!c.e) {
			int t = x.targets[0];
			for (size_t k = 0; k < x.idx.size(); k++)
				if ((uint64_t)x.idx[k].second == c.c) {
					t = x.targets[k + 1];
					break;
				}
			enterBlock(s, f, t);
			return true;
		}
		for (size_t k = 0; k < x.idx.size(); k++) {
			Z3_ast eq = simp(R(Z3_mk_eq(Z, c.e, bvnum((uint64_t)x.idx[k].second, c.w))));
			if (decide(s, eq)) {
				enterBlock(s, f, x.targets[k + 1]);
				return true;
			}
		}
		enterBlock(s, f, x.targets[0]);
		return true;
	}
	case Instruction::Ret: {
		Val rv;
		bool has = !x.ops.empty();
		if (has) rv = op(0);
		popFrame(s);
		auto &st = s.ctxs[s.cur].st;
		if (st.empty()) {
			if (s.cur != 0) fail("memory", "fiber entry function returned");
			return false;
		}
		Frame &g = top(s);
		IInfo &ci = g.fi->blocks[g.block].ins[g.ip];
		if (has) setReg(g, ci, rv);
		g.ip++;
		return true;
	}
	case Instruction::Unreachable:
		fail("memory", "unreachable code executed");
	case Instruction::FAdd: setReg(f, x, fromD(toD(op(0)) + toD(op(1)), x.w)); f.ip++; return true;
	case Instruction::FSub: setReg(f, x, fromD(toD(op(0)) - toD(op(1)), x.w)); f.ip++; return true;
	case Instruction::FMul: setReg(f, x, fromD(toD(op(0)) * toD(op(1)), x.w)); f.ip++; return true;
	case Instruction::FDiv: setReg(f, x, fromD(toD(op(0)) / toD(op(1)), x.w)); f.ip++; return true;
	case Instruction::SIToFP: setReg(f, x, fromD((double)sx(concretize(s, op(0)), op(0).w), x.w)); f.ip++; return true;
	case Instruction::UIToFP: setReg(f, x, fromD((double)concretize(s, op(0)), x.w)); f.ip++; return true;
	case Instruction::FPToSI: setReg(f, x, cv((uint64_t)(int64_t)toD(op(0)), x.w)); f.ip++; return true;
	case Instruction::FPToUI: setReg(f, x, cv((uint64_t)toD(op(0)), x.w)); f.ip++; return true;
	case Instruction::FPExt: case Instruction::FPTrunc: setReg(f, x, fromD(toD(op(0)), x.w)); f.ip++; return true;
	case Instruction::FCmp: {
		double a = toD(op(0)), b = toD(op(1));
		bool r = false;
		switch (cast<FCmpInst>(x.I)->getPredicate()) {
		case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = a == b; break;
		case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = a != b; break;
		case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = a > b; break;
		case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = a >= b; break;
		case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = a < b; break;
		case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = a <= b; break;
		default: unsupported("fcmp");
		}
		setReg(f, x, cv(r, 1));
		f.ip++;
		return true;
	}
	case Instruction::Call: {
		auto *cb = cast<CallBase>(x.I);
		if (cb->isInlineAsm()) {
			if (!x.ty->isVoidTy()) unsupported("inline asm");
			f.ip++;
			return true;
		}
		unsigned na = cb->arg_size();
		if (auto *ii = dyn_cast<IntrinsicInst>(cb)) {
			auto un1 = [&](Val v) {
				setReg(f, x, v);
				f.ip++;
				return true;
			};
			switch (ii->getIntrinsicID()) {
			case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::donothing: case Intrinsic::assume:
			case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl:
			case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare:
				if (x.dst >= 0) setReg(f, x, cv(0, 64));
				f.ip++;
				return true;
			case Intrinsic::stacksave:
				return un1(cv(0, 64));
			case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
				return un1(op(0));
			case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
				std::vector<Val> a{op(0), op(1), op(2)};
				builtins["memmove"](s, a, x, f);
				f.ip++;
				return true;
			}
			case Intrinsic::memset: {
				std::vector<Val> a{op(0), op(1), op(2)};
				builtins["memset"](s, a, x, f);
				f.ip++;
				return true;
			}
			case Intrinsic::umin: return un1(ite(s, icmp(CmpInst::ICMP_ULT, op(0), op(1)), op(0), op(1)));
			case Intrinsic::umax: return un1(ite(s, icmp(CmpInst::ICMP_UGT, op(0), op(1)), op(0), op(1)));
			case Intrinsic::smin: return un1(ite(s, icmp(CmpInst::ICMP_SLT, op(0), op(1)), op(0), op(1)));
			case Intrinsic::smax: return un1(ite(s, icmp(CmpInst::ICMP_SGT, op(0), op(1)), op(0), op(1)));
			case Intrinsic::abs: {
				Val z = cv(0, x.w);
				return un1(ite(s, icmp(CmpInst::ICMP_SLT, op(0), z), binop(s, Instruction::Sub, z, op(0)), op(0)));
			}
			case Intrinsic::usub_sat: {
				Val z = cv(0, x.w);
				return un1(ite(s, icmp(CmpInst::ICMP_ULT, op(0), op(1)), z, binop(s, Instruction::Sub, op(0), op(1))));
			}
			case Intrinsic::bswap: {
				Val v = op(0);
				unsigned n = x.w / 8;
				if (!v.e) {
					uint64_t r = 0;
					for (unsigned i = 0; i < n; i++) r |= ((v.c >> (8 * i)) & 0xff) << (8 * (n - 1 - i));
					return un1(cv(r, x.w));
				}
				Z3_ast acc = nullptr;
				for (unsigned i = 0; i < n; i++) {
					Z3_ast b = R(Z3_mk_extract(Z, i * 8 + 7, i * 8, v.e));
					acc = acc ? R(Z3_mk_concat(Z, acc, b)) : b;
				}
				return un1(sv(simp(acc), x.w));
			}
			case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
				uint64_t v = concretize(s, op(0));
				unsigned w = x.w, r = 0;
				if (ii->getIntrinsicID() == Intrinsic::ctpop) r = __builtin_popcountll(v);
				else if (ii->getIntrinsicID() == Intrinsic::ctlz) r = v ? __builtin_clzll(v) - (64 - w) : w;
				else r = v ? __builtin_ctzll(v) : w;
				return un1(cv(r, w));
			}
			case Intrinsic::fshl: case Intrinsic::fshr: {
				uint64_t k = concretize(s, op(2)) % x.w;
				bool l = ii->getIntrinsicID() == Intrinsic::fshl;
				if (k == 0) return un1(l ? op(0) : op(1));
				uint64_t a = l ? k : x.w - k;
				return un1(binop(s, Instruction::Or, binop(s, Instruction::Shl, op(0), cv(a, x.w)),
					binop(s, Instruction::LShr, op(1), cv(x.w - a, x.w))));
			}
			case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
			case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
				unsigned w = op(0).w;
				auto id = ii->getIntrinsicID();
				bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
				unsigned o = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add :
					(id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
				unsigned W = 2 * w;
				auto wide = [&](const Val &v) {
					Val r;
					r.w = W;
					r.e = R(sg ? Z3_mk_sign_ext(Z, w, ex(v)) : Z3_mk_zero_ext(Z, w, ex(v)));
					return r;
				};
				Val r = binop(s, o, op(0), op(1));
				Z3_ast a = wide(op(0)).e, b = wide(op(1)).e;
				Z3_ast q = R(o == Instruction::Add ? Z3_mk_bvadd(Z, a, b) : o == Instruction::Sub ? Z3_mk_bvsub(Z, a, b) : Z3_mk_bvmul(Z, a, b));
				Z3_ast back = wide(r).e;
				Val ov = sv(notE(simp(R(Z3_mk_eq(Z, q, back)))), 1);
				Val res;
				res.agg = new Agg;
				res.agg->f.push_back(r);
				res.agg->f.push_back(ov);
				return un1(res);
			}
			case Intrinsic::objectsize: return un1(cv(~0ULL, x.w));
			case Intrinsic::is_constant: return un1(cv(0, 1));
			case Intrinsic::vastart: {
				// x86-64 va_list with every argument in the overflow area
				std::vector<Val> va = f.varargs;
				uint64_t ov = s.mem.alloc(va.size() * 8 + 8, K_STACK, 16, "varargs", true);
				f.allocas.push_back(ov >> SLOT);
				for (size_t k = 0; k < va.size(); k++) {
					Val v = va[k];
					if (v.w < 64 || v.w == 1) v = castTo(Instruction::ZExt, v, 64);
					writeBytes(s, Ref{ov >> SLOT, k * 8}, 8, v);
				}
				Ref r = resolve(s, op(0), 24, "va_start", true);
				writeBytes(s, r, 4, cv(48, 32));
				writeBytes(s, Ref{r.id, r.off + 4}, 4, cv(304, 32));
				writeBytes(s, Ref{r.id, r.off + 8}, 8, cv(ov, 64));
				writeBytes(s, Ref{r.id, r.off + 16}, 8, cv(0, 64));
				f.ip++;
				return true;
			}
			case Intrinsic::vacopy: {
				Ref d = resolve(s, op(0), 24, "va_copy", true), r = resolve(s, op(1), 24, "va_copy", false);
				copyBytes(s, d, r, 24);
				f.ip++;
				return true;
			}
			case Intrinsic::vaend:
				f.ip++;
				return true;
			case Intrinsic::trap: case Intrinsic::ubsantrap:
				fail("assert", "trap");
			default:
				unsupported("intrinsic " + ii->getCalledFunction()->getName().str());
			}
		}
		std::vector<Val> args;
		args.reserve(na);
		for (unsigned i = 0; i < na; i++) args.push_back(op(i));
		Function *F = x.callee;
		if (!F) {
			uint64_t p = concretize(s, op(na));
			auto it = faddr.find(p);
			if (it == faddr.end()) fail("memory", p == 0 ? "call through a null function pointer" : "call through an invalid function pointer");
			F = it->second;
		}
		std::string name = F->getName().str();
		if (name == "jump_fcontext") {
			jumpFcontext(s, args);
			return true;
		}
		if (!F->isDeclaration()) {
			pushFrame(s, F, args, cb);
			return true;
		}
		auto b = builtins.find(name);
		if (b == builtins.end()) b = builtins.find(demangledBase(name));
		if (b == builtins.end()) unsupported("call to external function " + name);
		externs.insert(name);
		Val r = b->second(s, args, x, f);
		if (x.dst >= 0) {
			if (!r.agg && x.w && r.w != x.w) r = castTo(r.w > x.w ? Instruction::Trunc : Instruction::ZExt, r, x.w);
			setReg(f, x, r);
		}
		f.ip++;
		return true;
	}
	default:
		unsupported(std::string("instruction ") + x.I->getOpcodeName());
	}
}

static std::string jstr(const std::string &s)
{
	std::string r = "\"";
	for (char c : s) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += c;
		} else if ((unsigned char)c < 32) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			r += b;
		} else
			r += c;
	}
	return r + "\"";
}
static std::string jvals(const std::vector<uint64_t> &v)
{
	std::string r = "[";
	for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string(v[i]);
	return r + "]";
}

int main(int argc, char **argv)
{
	std::string file, entry;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--max-steps") maxSteps = strtoull(argv[++i], 0, 10);
		else if (a == "--max-time") maxTime = atof(argv[++i]);
		else if (a == "--split") {
			splitI = atoi(argv[++i]);
			splitN = atoi(argv[++i]);
			splitDepth = atoi(argv[++i]);
		}
		else if (a == "--max-paths") maxPaths = strtoull(argv[++i], 0, 10);
		else if (a == "--max-errors") maxErrors = strtoull(argv[++i], 0, 10);
		else if (a == "--solver-timeout") solverTimeoutMs = atoi(argv[++i]);
		else if (a == "--trace") traceOn = true;
		else if (file.empty()) file = a;
		else entry = a;
	}
	double t0 = now();
	LLVMContext C;
	SMDiagnostic err;
	M = parseIRFile(file, err, C);
	if (!M) {
		err.print("symx", errs());
		return 3;
	}
	DL = &M->getDataLayout();
	Z3_config cfg = Z3_mk_config();
	Z = Z3_mk_context_rc(cfg);
	Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { unsupported(std::string("z3: ") + Z3_get_error_msg(c, e)); });
	S = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, getenv("SYMX_LOGIC") ? getenv("SYMX_LOGIC") : "QF_BV"));
	Z3_solver_inc_ref(Z, S);
	S2 = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
	Z3_solver_inc_ref(Z, S2);
	{
		Z3_symbol to = Z3_mk_string_symbol(Z, "timeout");
		Z3_params p = Z3_mk_params(Z);
		Z3_params_inc_ref(Z, p);
		Z3_params_set_uint(Z, p, to, getenv("SYMX_INC_MS") ? atoi(getenv("SYMX_INC_MS")) : 60);
		Z3_solver_set_params(Z, S, p);
		Z3_solver_set_params(Z, S2, p);
		fullParams = Z3_mk_params(Z);
		Z3_params_inc_ref(Z, fullParams);
		Z3_params_set_uint(Z, fullParams, to, (unsigned)solverTimeoutMs);
		freshTactic = nullptr;
		std::string names = getenv("SYMX_TACTIC") ? getenv("SYMX_TACTIC") : "qfbv";
		for (size_t i = 0; i < names.size();) {
			size_t e = names.find(',', i);
			if (e == std::string::npos) e = names.size();
			Z3_tactic x = Z3_mk_tactic(Z, names.substr(i, e - i).c_str());
			Z3_tactic_inc_ref(Z, x);
			if (freshTactic) {
				x = Z3_tactic_and_then(Z, freshTactic, x);
				Z3_tactic_inc_ref(Z, x);
			}
			freshTactic = x;
			i = e + 1;
		}
	}
	initBuiltins();

	StateP init(new State);
	uint64_t fa = 0x1000;
	for (auto &F : *M) {
		gaddr[&F] = fa;
		faddr[fa] = &F;
		fa += 16;
	}
	Function *E = M->getFunction(entry);
	if (!E || E->isDeclaration()) {
		fprintf(stderr, "symx: no entry %s\n", entry.c_str());
		return 3;
	}
	for (auto &G : M->globals()) {
		uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 0;
		if (G.getName() == "llvm.global_ctors" || G.getName() == "llvm.used" || G.getName() == "llvm.compiler.used") continue;
		gaddr[&G] = init->mem.alloc(sz, K_GLOBAL, 16, G.getName().str(), true);
	}
	for (auto &G : M->globals()) {
		if (!gaddr.count(&G) || !G.hasInitializer()) continue;
		Obj *o = init->mem.wr(gaddr[&G] >> SLOT);
		try {
			if (o->size) writeConst(o->data, 0, G.getInitializer());
		} catch (Fail &f) {
			fprintf(stderr, "symx: global %s: %s\n", G.getName().str().c_str(), f.msg.c_str());
			return 3;
		}
		o->readonly = G.isConstant();
	}
	init->ctxs.resize(1);
	std::vector<Val> noargs;
	pushFrame(*init, E, noargs, nullptr);
	init->model = nullptr;
	{
		ModelP m;
		check(init->pc, nullptr, nullptr, &m);
		init->model = m;
	}
	work.push_back(std::move(init));
	bool incomplete = false;
	std::string why;
	double firstErr = 0;
	while (!work.empty()) {
		StateP st = std::move(work.back());
		work.pop_back();
		State &s = *st;
		cur = &s;
		uint64_t k = 0;
		try {
			while (true) {
				if (traceOn) {
					Instruction *I = curInst(s);
					if (I) {
						errs() << "[" << s.cur << ":" << s.ctxs[s.cur].st.size() << "] " << I->getFunction()->getName() << " " << locOf(I) << "  ";
						I->print(errs());
						errs() << "\n";
					}
				}
				if (!step(s)) {
					if (!counted(s)) break;
					nPaths++;
					if (samples.size() < 3) samples.push_back(ndValues(s, s.model));
					break;
				}
				if ((++k & 0xfff) == 0 && now() - t0 > maxTime) {
					incomplete = true;
					why = "time limit";
					break;
				}
			}
		} catch (Fail &e) {
			if (!counted(s)) continue;
			nErrPaths++;
			ModelP m;
			report(s, e.kind, e.msg, nullptr);
		} catch (PathEnd &) {
			if (counted(s)) nKilled++;
		} catch (Drop &) {
		}
		if (incomplete) break;
		if (now() - t0 > maxTime) {
			incomplete = true;
			why = "time limit";
			break;
		}
		if (maxPaths && nPaths + nErrPaths + nKilled > maxPaths) {
			incomplete = true;
			why = "path limit";
			break;
		}
		if (!errors.empty()) {
			if (!firstErr) firstErr = now();
			if (errors.size() >= maxErrors || now() - firstErr > 20) {
				incomplete = true;
				why = "stopped after errors";
				break;
			}
		}
	}
	double wall = now() - t0;
	printf("{\n\"complete\": %s, \"why\": %s,\n", !incomplete ? "true" : "false", jstr(why).c_str());
	printf("\"paths\": %llu, \"assumed_away\": %llu, \"error_paths\": %llu, \"forks\": %llu, \"instructions\": %llu,\n",
	       (unsigned long long)nPaths, (unsigned long long)nKilled, (unsigned long long)nErrPaths, (unsigned long long)nForks, (unsigned long long)nInstr);
	printf("\"queries\": %llu, \"queries_unsat\": %llu, \"solver_s\": %.3f, \"wall_s\": %.3f, \"nd_draws\": %llu, \"max_depth\": %llu,\n",
	       (unsigned long long)nQueries, (unsigned long long)nQueriesUnsat, tSolver, wall, (unsigned long long)ndCounter, (unsigned long long)maxDepth);
	printf("\"unsupported\": [");
	bool first = true;
	for (auto &u : unsupportedMsgs) {
		printf("%s%s", first ? "" : ", ", jstr(u).c_str());
		first = false;
	}
	printf("],\n\"reached\": {");
	first = true;
	for (auto &r : reachCount) {
		printf("%s%s: {\"count\": %llu, \"values\": %s}", first ? "" : ", ", jstr(r.first).c_str(), (unsigned long long)r.second, jvals(reachWitness[r.first]).c_str());
		first = false;
	}
	printf("},\n\"samples\": [");
	first = true;
	for (auto &r : samples) {
		printf("%s%s", first ? "" : ", ", jvals(r).c_str());
		first = false;
	}
	printf("],\n\"functions\": [");
	first = true;
	for (auto &p : finfos) {
		if (!p.second->executed) continue;
		uint64_t tot = 0, cov = 0;
		for (auto &b : p.second->blocks)
			for (auto &i : b.ins) {
				tot++;
				if (i.covered) cov++;
			}
		std::string file;
		if (auto *sp = p.first->getSubprogram()) file = sp->getFilename().str();
		// lines inlined from headers count for the function they are in
		printf("%s{\"name\": %s, \"file\": %s, \"instructions\": %llu, \"covered\": %llu}", first ? "" : ",\n  ", jstr(p.first->getName().str()).c_str(),
		       jstr(file).c_str(), (unsigned long long)tot, (unsigned long long)cov);
		first = false;
	}
	printf("],\n\"errors\": [");
	first = true;
	for (auto &e : errors) {
		printf("%s{\"kind\": %s, \"msg\": %s, \"loc\": %s, \"stack\": [", first ? "" : ",\n  ", jstr(e.kind).c_str(), jstr(e.msg).c_str(), jstr(e.loc).c_str());
		for (size_t i = 0; i < e.stack.size(); i++) printf("%s%s", i ? ", " : "", jstr(e.stack[i]).c_str());
		printf("], \"values\": %s}", jvals(e.values).c_str());
		first = false;
	}
	printf("]\n}\n");
	fflush(stdout);
	_Exit(0);
}
