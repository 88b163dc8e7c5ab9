// A small PTX machine: parses what clang's NVPTX back end (and the kernel's inline
// assembly) produces and executes device threads one instruction at a time, so that
// the scheduler above it decides every interleaving. Memory goes through callbacks.
#pragma once
#include <ctype.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace ptx {
typedef std::string S;
enum Space { GENERIC, PARAM, GLOBAL, CONST, LOCAL, SHARED };
static const uint64_t PARAM_BASE = 0x1000, CONST_BASE = 0x100000, LOCAL_BASE = 0x10000000, SHARED_BASE = 0x20000000, GLOBAL_BASE = 0x700000000000ull;
struct Fault : std::runtime_error { Fault(const S &s) : std::runtime_error(s) {} };        // the device would stop
struct Unsupported : std::runtime_error { Unsupported(const S &s) : std::runtime_error(s) {} };

struct Opd { int reg = -1; uint64_t imm = 0; bool isreg() const { return reg >= 0; } };
enum Op { MOV, PACK, UNPACK, LD, ST, ADD, SUB, MUL, MULHI, MULWIDE, MAD, MADHI, MADWIDE, DIV, REM, NEG, NOT, AND, OR, XOR, SHL, SHR, SETP, SELP, CVT,
	BRA, RET, PRMT, MIN, MAX, ABS, BFE, BFI, CLZ, POPC, BREV, SHF, LOP3, BRX, BAR, TRAP, NOP, CNOT, SAD };
enum Cmp { EQ, NE, LT, LE, GT, GE };
struct Ins {
	Op op; int w = 0; bool sg = false; int w2 = 0; bool sg2 = false; // type, source type (cvt)
	Cmp cmp = EQ; Space sp = GENERIC; int pred = -1; bool pneg = false; int sub = 0; // sub: boolean op of setp, shf mode
	int vec = 1;
	std::vector<Opd> d, s; // destinations, sources
	std::vector<int> targets; int target = -1; S text, label;
};
struct Module {
	std::vector<Ins> code;
	std::vector<uint8_t> cdata; std::map<S, uint64_t> syms;
	std::map<S, int> params; std::vector<int> param_size; std::vector<int> param_off; int param_bytes = 0;
	std::vector<int> regw; // width of each register, 1: predicate
	uint64_t local = 0, shared = 0; S entry;
	int sreg[12];          // tid xyz, ntid xyz, ctaid xyz, nctaid xyz
};

inline uint64_t mask(uint64_t v, int w) { return w >= 64 ? v : w == 1 ? (v & 1) : v & ((1ull << w) - 1); }
inline int64_t sext(uint64_t v, int w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

// ------------------------------------------------------------------ parser
struct Parser {
	Module m;
	std::vector<std::map<S, int>> scopes;
	std::map<S, int> labels;
	std::map<S, std::vector<S>> tables;
	static S trim(const S &s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == S::npos ? "" : s.substr(a, b - a + 1); }
	static std::vector<S> split(const S &s, char c)
	{
		std::vector<S> r; S cur; int depth = 0;
		for (char x : s) {
			if (x == '{' || x == '[' || x == '(') depth++;
			if (x == '}' || x == ']' || x == ')') depth--;
			if (x == c && !depth) { r.push_back(trim(cur)); cur.clear(); } else cur += x;
		}
		if (trim(cur).size()) r.push_back(trim(cur));
		return r;
	}
	int newreg(int w) { m.regw.push_back(w); return (int)m.regw.size() - 1; }
	static int width(const S &t) // ".u64" without the dot
	{
		if (t == "pred") return 1;
		if (t.size() >= 2 && strchr("bus", t[0]) && isdigit(t[1])) { int w = atoi(t.c_str() + 1); if (w == 8 || w == 16 || w == 32 || w == 64) return w; }
		return 0;
	}
	int find(const S &n) { for (size_t i = scopes.size(); i--;) { auto f = scopes[i].find(n); if (f != scopes[i].end()) return f->second; } return -1; }
	static bool number(const S &t, uint64_t *v)
	{
		if (t.empty() || !(isdigit(t[0]) || ((t[0] == '-' || t[0] == '+') && t.size() > 1))) return false;
		char *e; const char *p = t.c_str();
		bool neg = *p == '-'; if (*p == '-' || *p == '+') p++;
		*v = strtoull(p, &e, 0);
		if (*e == 'U') e++;
		if (*e) throw Unsupported("immediate " + t);
		if (neg) *v = -*v;
		return true;
	}
	Opd operand(const S &t)
	{
		Opd o; uint64_t v;
		if (number(t, &v)) { o.imm = v; return o; }
		static const char *const sr[] = {"%tid.x", "%tid.y", "%tid.z", "%ntid.x", "%ntid.y", "%ntid.z", "%ctaid.x", "%ctaid.y", "%ctaid.z", "%nctaid.x", "%nctaid.y", "%nctaid.z"};
		for (int i = 0; i < 12; i++) if (t == sr[i]) { o.reg = m.sreg[i]; return o; }
		if (t == "%laneid") throw Unsupported("laneid");
		o.reg = find(t);
		if (o.reg >= 0) return o;
		size_t plus = t.find('+');
		S name = trim(t.substr(0, plus)); uint64_t off = 0;
		if (plus != S::npos) number(trim(t.substr(plus + 1)), &off);
		auto f = m.syms.find(name);
		if (f == m.syms.end()) throw Unsupported("operand " + t);
		o.imm = f->second + off;
		return o;
	}
	// [addr] -> base, offset
	void address(const S &t, Ins &i)
	{
		if (t.size() < 2 || t[0] != '[') throw Unsupported("address " + t);
		S in = trim(t.substr(1, t.size() - 2));
		size_t plus = in.find('+');
		S b = trim(in.substr(0, plus)); uint64_t off = 0;
		if (plus != S::npos) number(trim(in.substr(plus + 1)), &off);
		Opd o; o = operand(b);
		Opd f; f.imm = off;
		i.s.push_back(o); i.s.push_back(f);
	}
	std::vector<Opd> vec(const S &t)
	{
		std::vector<Opd> r;
		if (t[0] == '{') for (auto &x : split(t.substr(1, t.size() - 2), ',')) { if (x == "_") { Opd n; n.reg = newreg(64); r.push_back(n); } else r.push_back(operand(x)); }
		else r.push_back(operand(t));
		return r;
	}
	void regdecl(const S &st) // .reg .b32 %r<5>, %x
	{
		size_t p = st.find('.', 1), q = st.find_first_of(" \t", p);
		int w = width(trim(st.substr(p + 1, q - p - 1)));
		if (!w) throw Unsupported("declaration " + st);
		for (auto &n : split(st.substr(q), ',')) {
			size_t lt = n.find('<');
			if (lt == S::npos) scopes.back()[n] = newreg(w);
			else for (int k = 0, c = atoi(n.c_str() + lt + 1); k < c; k++) scopes.back()[n.substr(0, lt) + std::to_string(k)] = newreg(w);
		}
	}
	void data(const S &st) // module-level array
	{
		S s = st, init; size_t eq = s.find('=');
		if (eq != S::npos) { init = trim(s.substr(eq + 1)); s = trim(s.substr(0, eq)); }
		size_t al = 1, ew = 1; S sp = "const"; std::vector<S> w;
		{ S cur; for (char c : s + " ") if (isspace(c)) { if (cur.size()) w.push_back(cur); cur.clear(); } else cur += c; }
		S name;
		for (size_t i = 0; i < w.size(); i++) {
			if (w[i] == ".align") al = atoi(w[++i].c_str());
			else if (w[i][0] == '.') { int b = width(w[i].substr(1)); if (b) ew = b / 8; else if (w[i] == ".shared" || w[i] == ".local" || w[i] == ".global") sp = w[i].substr(1); }
			else name = w[i];
		}
		size_t n = 1, lb = name.find('[');
		if (lb != S::npos) { n = atoi(name.c_str() + lb + 1); name = name.substr(0, lb); }
		if (sp == "shared" || sp == "local") {
			uint64_t &u = sp == "shared" ? m.shared : m.local;
			u = (u + al - 1) / al * al; m.syms[name] = (sp == "shared" ? SHARED_BASE : LOCAL_BASE) + u; u += n * ew;
			return;
		}
		if (sp == "global") throw Unsupported("global variable " + name);
		while (m.cdata.size() % al) m.cdata.push_back(0);
		size_t at = m.cdata.size();
		m.syms[name] = CONST_BASE + at; m.cdata.resize(at + n * ew);
		if (init.size()) {
			if (init[0] == '{') init = init.substr(1, init.size() - 2);
			size_t k = 0;
			for (auto &x : split(init, ',')) { uint64_t v; if (!number(x, &v)) throw Unsupported("initialiser " + x); memcpy(&m.cdata[at + k++ * ew], &v, ew); }
		}
	}
	void check_w(const Opd &o, int w, bool wider, const S &t) { if (o.isreg() && w && m.regw[o.reg] != w && !(wider && m.regw[o.reg] > w && m.regw[o.reg] != 1)) throw Fault("operand size does not match: " + t); }
	void instruction(S st)
	{
		Ins i; i.text = st;
		if (st[0] == '@') {
			size_t e = st.find_first_of(" \t"); S p = st.substr(1, e - 1);
			if (p[0] == '!') { i.pneg = true; p = p.substr(1); }
			i.pred = operand(p).reg;
			if (i.pred < 0 || m.regw[i.pred] != 1) throw Fault("not a predicate: " + st);
			st = trim(st.substr(e));
		}
		size_t e = st.find_first_of(" \t");
		S mn = st.substr(0, e), rest = e == S::npos ? "" : trim(st.substr(e));
		std::vector<S> q; { S cur; for (char c : mn + ".") if (c == '.') { q.push_back(cur); cur.clear(); } else cur += c; }
		std::vector<S> a = split(rest, ',');
		auto has = [&](const char *x) { for (size_t k = 1; k < q.size(); k++) if (q[k] == x) return true; return false; };
		std::vector<S> types; for (size_t k = 1; k < q.size(); k++) if (width(q[k])) types.push_back(q[k]);
		if (types.size()) { i.w = width(types[0]); i.sg = types[0][0] == 's'; }
		if (types.size() > 1) { i.w2 = width(types[1]); i.sg2 = types[1][0] == 's'; }
		const S &o = q[0];
		if (o == "bra") { i.op = BRA; i.label = a[0]; }
		else if (o == "brx") { i.op = BRX; i.s.push_back(operand(a[0])); i.label = a[1]; }
		else if (o == "ret" || o == "exit") i.op = RET;
		else if (o == "trap") i.op = TRAP;
		else if (o == "bar" || o == "barrier") i.op = BAR;
		else if (o == "membar" || o == "fence" || o == "prefetch" || o == "prefetchu") i.op = NOP;
		else if (o == "ld" || o == "ldu") {
			i.op = LD;
			for (auto &x : q) { if (x == "param") i.sp = PARAM; if (x == "global") i.sp = GLOBAL; if (x == "const") i.sp = CONST; if (x == "local") i.sp = LOCAL; if (x == "shared") i.sp = SHARED; if (x == "v2") i.vec = 2; if (x == "v4") i.vec = 4; }
			i.d = vec(a[0]); for (auto &d : i.d) check_w(d, i.w, true, i.text);
			address(a[1], i);
		} else if (o == "st") {
			i.op = ST;
			for (auto &x : q) { if (x == "param") i.sp = PARAM; if (x == "global") i.sp = GLOBAL; if (x == "local") i.sp = LOCAL; if (x == "shared") i.sp = SHARED; if (x == "v2") i.vec = 2; if (x == "v4") i.vec = 4; }
			address(a[0], i);
			for (auto &v : vec(a[1])) { check_w(v, i.w, true, i.text); i.s.push_back(v); }
		} else if (o == "setp") {
			i.op = SETP;
			const S &c = q[1];
			static const std::map<S, Cmp> cm = {{"eq", EQ}, {"ne", NE}, {"lt", LT}, {"le", LE}, {"gt", GT}, {"ge", GE}, {"lo", LT}, {"ls", LE}, {"hi", GT}, {"hs", GE}};
			auto f = cm.find(c); if (f == cm.end()) throw Unsupported(i.text);
			i.cmp = f->second; i.sub = has("and") ? 1 : has("or") ? 2 : has("xor") ? 3 : 0;
			std::vector<S> ds = split(a[0], '|');
			for (auto &x : ds) { i.d.push_back(operand(x)); check_w(i.d.back(), 1, false, i.text); }
			for (size_t k = 1; k < a.size(); k++) { i.s.push_back(operand(a[k])); check_w(i.s.back(), k < 3 ? i.w : 1, false, i.text); }
		} else if (o == "cvta") { i.op = MOV; i.d.push_back(operand(a[0])); i.s.push_back(operand(a[1])); i.w = 64; }
		else if (o == "cvt") {
			i.op = CVT; if (types.size() != 2) throw Unsupported(i.text);
			i.d.push_back(operand(a[0])); i.s.push_back(operand(a[1]));
			check_w(i.d[0], i.w, true, i.text); check_w(i.s[0], i.w2, true, i.text);
		} else if (o == "mov") {
			if (a[0][0] == '{') { i.op = UNPACK; i.d = vec(a[0]); i.s.push_back(operand(a[1])); for (auto &d : i.d) check_w(d, i.w / (int)i.d.size(), false, i.text); check_w(i.s[0], i.w, false, i.text); }
			else if (a[1][0] == '{') { i.op = PACK; i.s = vec(a[1]); i.d.push_back(operand(a[0])); for (auto &d : i.s) check_w(d, i.w / (int)i.s.size(), false, i.text); check_w(i.d[0], i.w, false, i.text); }
			else { i.op = MOV; i.d.push_back(operand(a[0])); i.s.push_back(operand(a[1])); check_w(i.d[0], i.w, false, i.text); check_w(i.s[0], i.w, false, i.text); }
		} else {
			struct D { const char *n; Op op; };
			static const D tab[] = {{"add", ADD}, {"sub", SUB}, {"div", DIV}, {"rem", REM}, {"neg", NEG}, {"not", NOT}, {"and", AND}, {"or", OR}, {"xor", XOR}, {"shl", SHL}, {"shr", SHR}, {"selp", SELP}, {"prmt", PRMT}, {"min", MIN}, {"max", MAX}, {"abs", ABS}, {"bfe", BFE}, {"bfi", BFI}, {"clz", CLZ}, {"popc", POPC}, {"brev", BREV}, {"shf", SHF}, {"lop3", LOP3}, {"cnot", CNOT}, {"mul", MUL}, {"mad", MAD}, {"sad", SAD}};
			bool ok = false;
			for (auto &t : tab) if (o == t.n) { i.op = t.op; ok = true; }
			if (!ok || has("cc") || has("sat")) throw Unsupported(i.text);
			if (o == "mul") i.op = has("hi") ? MULHI : has("wide") ? MULWIDE : MUL;
			if (o == "mad") i.op = has("hi") ? MADHI : has("wide") ? MADWIDE : MAD;
			if (i.op == SHF) i.sub = (has("l") ? 0 : 1) | (has("wrap") ? 2 : 0);
			i.d.push_back(operand(a[0]));
			for (size_t k = 1; k < a.size(); k++) i.s.push_back(operand(a[k]));
			bool wide = i.op == MULWIDE || i.op == MADWIDE;
			check_w(i.d[0], i.op == CLZ || i.op == POPC ? 32 : wide ? i.w * 2 : i.w, false, i.text);
			for (size_t k = 0; k < i.s.size(); k++) {
				int w = i.w;
				if ((i.op == SHL || i.op == SHR) && k == 1) w = 32;
				if (i.op == SELP && k == 2) w = 1;
				if (i.op == MADWIDE && k == 2) w = i.w * 2;
				if ((i.op == BFE && k > 0) || (i.op == BFI && k > 1)) w = 32;
				check_w(i.s[k], w, false, i.text);
			}
		}
		for (auto &d : i.d) if (!d.isreg() ) throw Fault("destination is not a register: " + i.text);
		m.code.push_back(i);
	}
	Module parse(const S &text)
	{
		S t;
		for (size_t i = 0; i < text.size(); i++) {
			if (text.compare(i, 2, "//") == 0) { while (i < text.size() && text[i] != '\n') i++; t += '\n'; continue; }
			if (text.compare(i, 2, "/*") == 0) { i = text.find("*/", i) + 1; continue; }
			t += text[i];
		}
		scopes.emplace_back();
		for (int i = 0; i < 12; i++) m.sreg[i] = newreg(32);
		bool body = false; int depth = 0; S cur;
		for (size_t i = 0; i < t.size(); i++) {
			char c = t[i];
			S st = trim(cur);
			if (c == '\n' && (st.rfind(".version", 0) == 0 || st.rfind(".target", 0) == 0 || st.rfind(".address_size", 0) == 0)) { cur.clear(); continue; }
			if (c == '{' && st.empty() && body) { depth++; scopes.emplace_back(); cur.clear(); continue; }
			if (c == '{' && !body && st.find(".entry") != S::npos) { header(st); body = true; depth = 1; scopes.emplace_back(); cur.clear(); continue; }
			if (c == '{' && !body && st.find(".func") != S::npos) throw Unsupported("device function " + st);
			if (c == '}' && st.empty() && body) { scopes.pop_back(); if (!--depth) body = false; cur.clear(); continue; }
			if (c == ':' && body && st.size() && st.find_first_of(" \t[{") == S::npos) { labels[st] = (int)m.code.size(); pending = st; cur.clear(); continue; }
			if (c == ';') {
				size_t bt = st.find(".branchtargets");
				if (bt != S::npos) { tables[pending] = split(st.substr(bt + 14), ','); }
				else if (st.rfind(".pragma", 0) == 0 || st.empty()) {}
				else if (st.rfind(".reg", 0) == 0) regdecl(st);
				else if (body && st[0] != '.') instruction(st);
				else if (st.rfind(".extern", 0) == 0) {}
				else data(st);
				cur.clear(); continue;
			}
			cur += c;
		}
		for (auto &i : m.code) {
			if (i.op == BRA) i.target = at(i.label);
			if (i.op == BRX) for (auto &l : tables[i.label]) i.targets.push_back(at(l));
		}
		if (m.code.empty()) throw Unsupported("no code");
		return m;
	}
	S pending; // the last label met
	int at(const S &l) { auto f = labels.find(l); if (f == labels.end()) throw Unsupported("label " + l); return f->second; }
	void header(const S &st)
	{
		size_t e = st.find(".entry") + 6, p = st.find('(', e), q = st.rfind(')');
		if (m.entry.size()) throw Unsupported("several kernels");
		m.entry = trim(st.substr(e, p - e));
		for (auto &x : split(st.substr(p + 1, q - p - 1), ',')) {
			size_t sp = x.find_last_of(" \t"); S n = x.substr(sp + 1); int w = 0;
			for (const char *k : {".u64", ".b64", ".s64", ".u32", ".b32", ".s32"}) if (x.find(k) != S::npos) w = atoi(k + 2) / 8;
			if (!w) throw Unsupported("parameter " + x);
			m.param_bytes = (m.param_bytes + w - 1) / w * w;
			m.syms[n] = PARAM_BASE + m.param_bytes; m.param_off.push_back(m.param_bytes); m.param_size.push_back(w); m.param_bytes += w;
		}
	}
};

// ------------------------------------------------------------------ machine
struct Thread {
	uint32_t pc = 0; uint64_t steps = 0; bool done = false, at_bar = false;
	uint64_t gid = 0; int block = 0;
	std::vector<uint64_t> r; std::vector<uint8_t> local;
};
struct Mem {
	// global memory: must throw Fault on a bad access
	std::function<void(Thread &, uint64_t, int, uint64_t *)> load;
	std::function<void(Thread &, uint64_t, int, uint64_t)> store;
	const uint8_t *params;
	uint8_t *shared;
};
inline void init(const Module &m, Thread &t, const uint32_t tid[3], const uint32_t ntid[3], const uint32_t cta[3], const uint32_t ncta[3], uint64_t (*mix)(uint64_t), uint64_t seed)
{
	t.r.resize(m.regw.size());
	for (size_t k = 0; k < t.r.size(); k++) t.r[k] = mask(mix(seed + k * 0x9e3779b97f4a7c15ull), m.regw[k]); // registers hold anything at first
	for (int k = 0; k < 3; k++) { t.r[m.sreg[k]] = tid[k]; t.r[m.sreg[3 + k]] = ntid[k]; t.r[m.sreg[6 + k]] = cta[k]; t.r[m.sreg[9 + k]] = ncta[k]; }
	t.local.resize(m.local);
	for (size_t k = 0; k < t.local.size(); k++) t.local[k] = (uint8_t)mix(seed ^ k * 77);
}
inline void access(const Module &m, Thread &t, const Mem &mem, const Ins &i, uint64_t addr, bool write, uint64_t *v)
{
	int n = i.w / 8; if (!n) n = 1;
	if (addr % n) throw Fault("misaligned access: " + i.text);
	auto inr = [&](uint64_t b, uint64_t sz) { return addr >= b && addr - b + n <= sz; };
	const char *why = "access outside any buffer: ";
	uint8_t *p = nullptr; bool ro = false;
	if (i.sp == PARAM) { if (inr(PARAM_BASE, m.param_bytes)) { p = (uint8_t *)mem.params + (addr - PARAM_BASE); ro = true; } }
	else if (addr >= GLOBAL_BASE) {
		if (i.sp != GLOBAL && i.sp != GENERIC) throw Fault("wrong state space: " + i.text);
		if (write) mem.store(t, addr, n, mask(*v, i.w)); else mem.load(t, addr, n, v);
		return;
	} else if (addr >= SHARED_BASE) { if ((i.sp == SHARED || i.sp == GENERIC) && inr(SHARED_BASE, m.shared)) p = mem.shared + (addr - SHARED_BASE); }
	else if (addr >= LOCAL_BASE) { if ((i.sp == LOCAL || i.sp == GENERIC) && inr(LOCAL_BASE, m.local)) p = t.local.data() + (addr - LOCAL_BASE); }
	else if (addr >= CONST_BASE) { if ((i.sp == CONST || i.sp == GENERIC) && inr(CONST_BASE, m.cdata.size())) { p = (uint8_t *)m.cdata.data() + (addr - CONST_BASE); ro = true; } }
	if (!p || (write && ro)) throw Fault(why + i.text);
	if (write) memcpy(p, v, n); else { *v = 0; memcpy(v, p, n); }
}
// one instruction; false when the thread has ended
inline bool step(const Module &m, Thread &t, const Mem &mem)
{
	if (t.pc >= m.code.size()) { t.done = true; return false; }
	const Ins &i = m.code[t.pc++];
	t.steps++;
	if (i.pred >= 0 && (bool)(t.r[i.pred] & 1) == i.pneg) return true;
	auto S_ = [&](size_t k) { return i.s[k].isreg() ? t.r[i.s[k].reg] : i.s[k].imm; };
	auto V = [&](size_t k) { return mask(S_(k), i.w); };
	auto X = [&](size_t k) { return sext(mask(S_(k), i.w), i.w); };
	auto D = [&](uint64_t v, size_t k = 0) { t.r[i.d[k].reg] = mask(v, m.regw[i.d[k].reg]); };
	switch (i.op) {
	case MOV: D(S_(0)); break;
	case PACK: { int w = i.w / (int)i.s.size(); uint64_t v = 0; for (size_t k = 0; k < i.s.size(); k++) v |= mask(S_(k), w) << (w * k); D(v); break; }
	case UNPACK: { int w = i.w / (int)i.d.size(); uint64_t v = V(0); for (size_t k = 0; k < i.d.size(); k++) D(v >> (w * k), k); break; }
	case LD: {
		uint64_t a = S_(0) + i.s[1].imm;
		if (i.vec > 1 && a % (i.vec * i.w / 8)) throw Fault("misaligned access: " + i.text);
		for (size_t k = 0; k < i.d.size(); k++) { uint64_t v = 0; access(m, t, mem, i, a + k * i.w / 8, false, &v); D(i.sg ? (uint64_t)sext(v, i.w) : v, k); }
		break;
	}
	case ST: {
		uint64_t a = S_(0) + i.s[1].imm;
		if (i.vec > 1 && a % (i.vec * i.w / 8)) throw Fault("misaligned access: " + i.text);
		for (size_t k = 2; k < i.s.size(); k++) { uint64_t v = S_(k); access(m, t, mem, i, a + (k - 2) * i.w / 8, true, &v); }
		break;
	}
	case ADD: D(S_(0) + S_(1)); break;
	case SUB: D(S_(0) - S_(1)); break;
	case MUL: D(S_(0) * S_(1)); break;
	case MULHI: D(i.sg ? (uint64_t)(((__int128)X(0) * X(1)) >> i.w) : (uint64_t)(((unsigned __int128)V(0) * V(1)) >> i.w)); break;
	case MULWIDE: D(i.sg ? (uint64_t)(X(0) * X(1)) : V(0) * V(1)); break;
	case MAD: D(S_(0) * S_(1) + S_(2)); break;
	case MADHI: D((i.sg ? (uint64_t)(((__int128)X(0) * X(1)) >> i.w) : (uint64_t)(((unsigned __int128)V(0) * V(1)) >> i.w)) + S_(2)); break;
	case MADWIDE: D((i.sg ? (uint64_t)(X(0) * X(1)) : V(0) * V(1)) + S_(2)); break;
	case DIV: if (!V(1)) D(~0ull); else D(i.sg ? (X(1) == -1 ? (uint64_t)-(uint64_t)X(0) : (uint64_t)(X(0) / X(1))) : V(0) / V(1)); break;
	case REM: if (!V(1)) D(V(0)); else D(i.sg ? (X(1) == -1 ? 0 : (uint64_t)(X(0) % X(1))) : V(0) % V(1)); break;
	case NEG: D(-S_(0)); break;
	case NOT: D(~S_(0)); break;
	case CNOT: D(V(0) == 0); break;
	case AND: D(S_(0) & S_(1)); break;
	case OR: D(S_(0) | S_(1)); break;
	case XOR: D(S_(0) ^ S_(1)); break;
	case SHL: { uint64_t n = mask(S_(1), 32); D(n >= (uint64_t)i.w ? 0 : V(0) << n); break; }
	case SHR: { uint64_t n = mask(S_(1), 32); if (i.sg) D((uint64_t)(X(0) >> (n >= (uint64_t)i.w ? i.w - 1 : n))); else D(n >= (uint64_t)i.w ? 0 : V(0) >> n); break; }
	case SETP: {
		bool c; uint64_t a = V(0), b = V(1); int64_t p = X(0), q = X(1);
		switch (i.cmp) {
		case EQ: c = a == b; break;
		case NE: c = a != b; break;
		case LT: c = i.sg ? p < q : a < b; break;
		case LE: c = i.sg ? p <= q : a <= b; break;
		case GT: c = i.sg ? p > q : a > b; break;
		default: c = i.sg ? p >= q : a >= b;
		}
		bool nc = !c;
		if (i.sub) { bool o = S_(2) & 1; c = i.sub == 1 ? c && o : i.sub == 2 ? c || o : c != o; nc = i.sub == 1 ? nc && o : i.sub == 2 ? nc || o : nc != o; }
		D(c); if (i.d.size() > 1) D(nc, 1);
		break;
	}
	case SELP: D(S_(2) & 1 ? S_(0) : S_(1)); break;
	case CVT: { uint64_t v = mask(S_(0), i.w2); if (i.sg2) v = (uint64_t)sext(v, i.w2); v = mask(v, i.w); if (i.sg) v = (uint64_t)sext(v, i.w); D(v); break; }
	case BRA: t.pc = i.target; break;
	case BRX: if (S_(0) >= i.targets.size()) throw Fault("jump outside its table: " + i.text); t.pc = i.targets[S_(0)]; break;
	case RET: t.done = true; return false;
	case BAR: t.at_bar = true; break;
	case TRAP: throw Fault("trap");
	case NOP: break;
	case PRMT: {
		uint64_t src = mask(S_(0), 32) | mask(S_(1), 32) << 32, v = 0;
		for (int k = 0; k < 4; k++) { int sel = (S_(2) >> (4 * k)) & 15; uint8_t b = src >> (8 * (sel & 7)); if (sel & 8) b = b & 0x80 ? 0xff : 0; v |= (uint64_t)b << (8 * k); }
		D(v); break;
	}
	case MIN: D(i.sg ? (uint64_t)(X(0) < X(1) ? X(0) : X(1)) : V(0) < V(1) ? V(0) : V(1)); break;
	case MAX: D(i.sg ? (uint64_t)(X(0) > X(1) ? X(0) : X(1)) : V(0) > V(1) ? V(0) : V(1)); break;
	case ABS: D((uint64_t)(X(0) < 0 ? -X(0) : X(0))); break;
	case SAD: D(S_(2) + (i.sg ? (uint64_t)(X(0) < X(1) ? X(1) - X(0) : X(0) - X(1)) : V(0) < V(1) ? V(1) - V(0) : V(0) - V(1))); break;
	case BFE: {
		uint64_t pos = S_(1) & 255, len = S_(2) & 255, v = 0; int w = i.w;
		uint64_t sb = i.sg && len ? (pos + len - 1 < (uint64_t)w ? V(0) >> (pos + len - 1) & 1 : V(0) >> (w - 1) & 1) : 0;
		for (int k = 0; k < w; k++) v |= ((uint64_t)k < len && pos + k < (uint64_t)w ? V(0) >> (pos + k) & 1 : (i.sg ? sb : 0)) << k;
		D(v); break;
	}
	case BFI: {
		uint64_t pos = S_(2) & 255, len = S_(3) & 255, v = V(1);
		for (uint64_t k = 0; k < len && pos + k < (uint64_t)i.w; k++) v = (v & ~(1ull << (pos + k))) | (V(0) >> k & 1) << (pos + k);
		D(v); break;
	}
	case CLZ: { uint64_t v = V(0); int n = 0; for (int k = i.w; k-- && !(v >> k & 1);) n++; D(n); break; }
	case POPC: D(__builtin_popcountll(V(0))); break;
	case BREV: { uint64_t v = 0; for (int k = 0; k < i.w; k++) v |= (V(0) >> k & 1) << (i.w - 1 - k); D(v); break; }
	case SHF: {
		uint64_t v = V(0) | V(1) << 32, n = mask(S_(2), 32);
		n = i.sub & 2 ? n & 31 : n > 32 ? 32 : n;
		D(i.sub & 1 ? v >> n : (n ? v << n : v) >> 32); break;
	}
	case LOP3: { uint64_t v = 0; for (int k = 0; k < 32; k++) v |= (S_(3) >> ((S_(0) >> k & 1) * 4 + (S_(1) >> k & 1) * 2 + (S_(2) >> k & 1)) & 1) << k; D(v); break; }
	}
	return true;
}
} // namespace ptx
