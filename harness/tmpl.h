// A reference for the template language, written from its documentation, and contexts that exist
// both as a model and as real ones.
#pragma once
#include "h.h"
#include <functional>
#include <memory>
struct Ctx; typedef std::shared_ptr<Ctx> P;
struct Val { int kind; str s; std::vector<Val> a; P c; };   // 0 string, 1 array, 2 context
struct Flt { char *(*f)(const char *); void (*clean)(char *); std::function<str(const char *)> ref; };
struct Ctx {
	std::vector<std::pair<str, Val>> v; std::vector<std::pair<str, Flt>> f; const Ctx *parent = nullptr;
	Ctx &str_(const str &n, const str &s) { v.push_back({n, {0, s, {}, nullptr}}); return *this; }
	Ctx &arr(const str &n, std::vector<Val> a) { v.push_back({n, {1, "", a, nullptr}}); return *this; }
	Ctx &sub(const str &n, P c) { v.push_back({n, {2, "", {}, c}}); return *this; }
	Ctx &flt(const str &n, Flt x) { f.push_back({n, x}); return *this; }
};
static P mk() { return std::make_shared<Ctx>(); }
static Val S(const str &s) { return {0, s, {}, nullptr}; }
static Val SC(P c) { return {2, "", {}, c}; }
static str cutname(const str &n) { return n.substr(0, 31); }
static str cutval(const str &s) { return s.substr(0, 512); }
// the real context; sub-contexts belong to it
static void *real(const Ctx &c) {
	void *r = sh_ctx();
	for (auto &x : c.f) CHECK(sh_add_filter(r, x.first.c_str(), x.second.f, x.second.clean) == 0, "adding a filter fails");
	for (auto &x : c.v) {
		Exact n(x.first, true);
		if (x.second.kind == 0) { Exact s(x.second.s, true); CHECK(sh_add_string(r, n.p, s.p) == 0, "adding a string fails"); }
		else if (x.second.kind == 2) CHECK(sh_add_ctx(r, n.p, real(*x.second.c)) == 0, "adding a sub-context fails");
		else {
			void *l = sh_add_array(r, n.p);
			for (auto &e : x.second.a) if (e.kind == 0) { Exact s(e.s, true); CHECK(sh_loop_string(l, s.p) == 0, "adding to a loop fails"); } else CHECK(sh_loop_ctx(l, real(*e.c)) == 0, "adding to a loop fails");
			sh_loop_done(l);
		}
	}
	return r;
}
struct Undefined {};                 // outside the domain: a name that is not defined, a value of the wrong kind
static const Val *find(const Ctx *c, const str &n) { for (; c; c = c->parent) for (auto &x : c->v) if (cutname(x.first) == n) return &x.second; return nullptr; }
static const Val *own(const Ctx *c, const str &n) { for (auto &x : c->v) if (cutname(x.first) == n) return &x.second; return nullptr; }
static const Flt *findf(const Ctx *c, const str &n) { for (; c; c = c->parent) for (auto &x : c->f) if (cutname(x.first) == n) return &x.second; return nullptr; }
static bool wordc(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
static bool spc(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool at(const str &t, size_t p, const char *s) { return t.compare(p, strlen(s), s) == 0; }
struct Ref { // one reference in the text
	size_t b, e; str a, k; };
static bool ref_at(const str &t, size_t p, Ref &r) {
	if (!at(t, p, "xXx @")) return false;
	size_t q = p + 5; r.b = p; r.a = r.k = ""; while (q < t.size() && wordc(t[q])) r.a += t[q++];
	if (r.a.empty()) return false;
	if (q < t.size() && t[q] == '.') { q++; while (q < t.size() && wordc(t[q])) r.k += t[q++]; if (r.k.empty()) return false; }
	if (!at(t, q, " xXx")) return false;
	r.e = q + 4; return true;
}
static bool truthy(const Val &v) { return v.kind == 0 ? v.s.size() && cutval(v.s) != "FALSE" : v.kind == 1 ? v.a.size() > 0 : true; }
static std::function<const str *(const str &)> include_files = [](const str &) -> const str * { return nullptr; };
static str ref_render(const str &t, const Ctx *c);
static str value_of(const Ref &r, const Ctx *c) {
	const Val *v = find(c, r.a);
	if (r.k.size()) { if (!v || v->kind != 2) throw Undefined(); v = own(v->c.get(), r.k); }
	if (!v || v->kind != 0) throw Undefined();
	return cutval(v->s);
}
static bool odd;                     // substitution created a reference: outside the domain
static str ref_subst(const str &t, const Ctx *c) { // every reference replaced, dotted ones first
	str u; Ref r;
	for (size_t p = 0; p < t.size();) if (ref_at(t, p, r) && r.k.size()) { u += value_of(r, c); p = r.e; } else u += t[p++];
	str w;
	for (size_t p = 0; p < u.size();) if (ref_at(u, p, r) && !r.k.size()) { w += value_of(r, c); p = r.e; } else w += u[p++];
	for (size_t p = 0; p < w.size(); p++) if (ref_at(w, p, r)) odd = true;
	return w;
}
static str ref_filters(const str &t, const Ctx *c) {
	str w;
	for (size_t p = 0; p < t.size();) {
		if (at(t, p, "XxX ")) {
			size_t q = p + 4; str n; while (q < t.size() && wordc(t[q])) n += t[q++];
			size_t e = n.size() ? t.find(" XxX", q) : str::npos;
			if (n.size() && e != str::npos && (e == q || spc(t[q]))) {
				const Flt *f = findf(c, n); if (!f) throw Undefined();
				if (e == q) w += f->ref(nullptr); else { while (q < e && spc(t[q])) q++; w += f->ref(t.substr(q, e - q).c_str()); }
				p = e + 4; continue;
			}
		}
		w += t[p++];
	}
	return w;
}
static bool scream_at(const str &t, size_t &e, str &file) {
	size_t p = 0; while (p < t.size() && spc(t[p])) p++;
	if (!at(t, p, "xXx SCREAM ")) return false;
	p += 11; file = ""; while (p < t.size() && (wordc(t[p]) || t[p] == '.' || t[p] == '/')) file += t[p++];
	e = p + 4; return file.size() && at(t, p, " xXx");
}
static str ref_line(const str &t, const Ctx *c) {
	str u = ref_subst(t, c), f; size_t e;
	if (scream_at(u, e, f)) { const str *b = include_files(f); if (!b) throw Undefined(); return ref_render(*b, c); }
	return ref_filters(u, c);
}
static bool word(const str &t, size_t &p, str &w, const char *more) { w = ""; while (p < t.size() && ((wordc(t[p]) && !(t[p] >= '0' && t[p] <= '9')) || strchr(more, t[p]))) w += t[p++]; if (w.empty() || !at(t, p, " xXx")) return false; p += 4; return true; }
static str ref_render(const str &t, const Ctx *c) {
	str out; bool lineend = false;
	for (size_t p = 0; p < t.size();) {
		lineend = false; size_t q = p; while (q < t.size() && spc(t[q])) q++;
		str v, a; size_t b, e;
		if (at(t, q, "xXx LOOP ")) {
			size_t z = q + 9; v = ""; while (z < t.size() && ((wordc(t[z]) && !(t[z] >= '0' && t[z] <= '9')))) v += t[z++];
			if (v.size() && z < t.size() && t[z] == ' ' && (z++, word(t, z, a, "")) && (b = z, (e = t.find("xXx BBL xXx", b)) != str::npos)) {
				const Val *arr = find(c, a); if (!arr || arr->kind != 1) throw Undefined();
				str body = t.substr(b, e - b);
				for (auto &x : arr->a) { Ctx k; k.parent = c; k.v.push_back({v, x}); out += ref_render(body, &k); }
				p = e + 11; continue;
			}
		}
		bool not_ = at(t, q, "xXx UNLESS NOT @");
		if (not_ || at(t, q, "xXx UNLESS @")) {
			size_t z = q + (not_ ? 16 : 12);
			if (word(t, z, v, ".") && (b = z, (e = t.find("xXx ENDLESS xXx", b)) != str::npos)) {
				bool show = false; const Val *x = find(c, v); size_t d;
				if ((d = v.find('.')) == str::npos) show = x ? truthy(*x) == not_ : !not_;
				else { x = find(c, v.substr(0, d)); if (x && x->kind == 2 && (x = own(x->c.get(), v.substr(d + 1)))) show = truthy(*x) != not_; }
				str body = t.substr(b, e - b);
				if (show) out += not_ ? ref_render(body, c) : ref_line(body, c);
				p = e + 15; continue;
			}
		}
		size_t n = t.find_first_of("\n\r", p); str line = t.substr(p, n == str::npos ? str::npos : n + 1 - p); str f; size_t z;
		str w = ref_line(line, c); out += w; p += line.size();
		lineend = n != str::npos && w.size() && w.back() == line.back() && !scream_at(ref_subst(line, c), z, f);
	}
	if (lineend) out.pop_back();
	return out;
}
// the real rendering of exactly these bytes
static str render(void *ctx, const str &t) {
	Exact e(t); size_t n = 0xdeadbeef; char *o = sh_render(ctx, e.p, e.n, &n); mc_step();
	CHECK(o, "rendering %s gives nothing", Q(t));
	size_t len = strlen(o); CHECK(n == len || (n + 1 == len && (o[n] == '\n' || o[n] == '\r')), "rendering %s reports length %zu, the text is %s", Q(t), n, Q(str(o, len)));
	str r(o, n); env_free(o); return r;
}
static void expect(const Ctx &c, void *ctx, const str &t) {
	str want; bool undef = false; try { want = ref_render(t, &c); } catch (Undefined &) { undef = true; }
	if (undef) { mc_fail("harness: template outside the domain: %s", mc_quote(t).c_str()); }
	str got = render(ctx, t); CHECK(got == want, "template %s renders as %s instead of %s", Q(t), Q(got), Q(want));
	mc_outcome(mc_hash(want)); mc_state(mc_hash(t, want.size()));
}
static bool in_domain(const Ctx &c, const str &t) { odd = false; try { ref_render(t, &c); return !odd; } catch (Undefined &) { return false; } }

#include <map>
#include <unistd.h>
static std::map<str, str> incs;
// files the templates can include, in the scratch directory
static void inc_enter() { incs.clear(); if (chdir(env_dir().c_str())) mc_fail("harness: chdir"); include_files = [](const str &n) -> const str * { auto i = incs.find(n); return i == incs.end() ? nullptr : &i->second; }; }
static void inc(const str &n, const str &d) { incs[n] = d; FILE *f = fopen(n.c_str(), "w"); if (!f || fwrite(d.data(), 1, d.size(), f) != d.size()) mc_fail("harness: cannot write %s", n.c_str()); fclose(f); }
// filters that record what they are called with and what is cleaned up
struct Call { int id; bool null; str arg; char *result; int cleaned; };
static std::vector<Call> calls; static bool ref_calls_on; static std::vector<std::pair<int, str>> ref_calls;
static str fresult(int id, const char *a) { str s = a ? a : ""; switch (id) { case 0: return "<" + s + ">"; case 1: std::reverse(s.begin(), s.end()); return s; case 2: return a ? s + s : "none"; case 3: return ""; case 6: return "XxX"; case 7: return "XxX n"; case 8: return " XxX"; default: return num(s.size()) + (a ? "c" : "n"); } }
template <int N> char *fcall(const char *a) { str r = fresult(N, a); char *p = (char *)env_malloc(r.size() + 1); memcpy(p, r.c_str(), r.size() + 1); calls.push_back({N, !a, a ? a : "", p, 0}); return p; }
template <int N> void fclean(char *p) { for (auto &c : calls) if (c.result == p && c.id == N && !c.cleaned) { c.cleaned++; memset(p, '#', strlen(p)); env_free(p); return; } mc_fail("the clean-up of filter %d got something that filter did not return (or got it twice)", N); }
template <int N> Flt flt(bool clean = true) { return {fcall<N>, clean ? fclean<N> : nullptr, [](const char *a) { ref_calls.push_back({N, a ? str("A") + a : str("N")}); return fresult(N, a); }}; }
// Scopes within scopes: every file wraps the include of the next one in a loop, a conditional or nothing, the last one holds the leaf.
static void nest(const std::function<void(const Ctx &, const str &)> &run, const std::vector<str> &leaves) {
	int d = 1 + mc_choose(mc_thorough() ? 5 : 4, "depth"); std::vector<int> k; for (int i = 0; i < d; i++) { k.push_back(mc_choose(d == (mc_thorough() ? 5 : 4) ? 4 : 8, "scope")); if (i == 0) mc_shard(); } const str &leaf = leaves[mc_choose(leaves.size(), "leaf")];
	auto wrap = [](int kind, const str &in) { str b = "\n" + in + "\n|"; switch (kind) { case 0: return "xXx LOOP i l xXx" + b + "xXx BBL xXx."; case 1: return "xXx UNLESS NOT @a xXx" + b + "xXx ENDLESS xXx;"; case 2: return "xXx LOOP j m xXx" + b + "xXx BBL xXx"; case 3: return "xXx LOOP i m xXx" + b + "xXx BBL xXx"; case 4: return "xXx LOOP a l xXx" + b + "xXx BBL xXx"; case 5: return "xXx UNLESS @no xXx" + b + "xXx ENDLESS xXx"; case 6: return "xXx UNLESS NOT @i xXx" + b + "xXx ENDLESS xXx"; default: return "plain" + b; } };
	inc_enter(); str t; for (int i = 0; i < d; i++) { str s = wrap(k[i], i + 1 < d ? str("xXx SCREAM n") + (char)('b' + i) + " xXx" : leaf); if (i) inc(str("n") + (char)('a' + i), s); else t = s; }
	Ctx c; c.str_("a", "1").str_("no", "FALSE").str_("w", "two words"); auto e = mk(), g = mk(), s = mk(); e->str_("k", "E0").str_("v", ""); g->str_("k", "E1").str_("v", "yes"); s->str_("k", "sub"); c.arr("l", {S("x"), S(""), S("FALSE")}).arr("m", {SC(e), SC(g)}).sub("s", s); c.flt("f", flt<0>()).flt("n", flt<2>()); run(c, t);
}
// Every text that is one or two characters away from a directive.
static void edits(const std::function<void(const Ctx &, const str &)> &run, const std::vector<str> &D, int deep) {
	static const char A[] = " xX@aN.\n\t0"; str t = D[mc_choose(D.size(), "directive")]; int d = 1 + mc_choose(deep, "edits"); size_t from = 0; int sh = 0;
	for (int i = 0; i < d; i++) { size_t p = from + mc_choose(i && !mc_thorough() ? std::min<size_t>(8, t.size() + 1 - from) : t.size() + 1 - from, "place"); int e = mc_choose(22, "edit"); if (i == 0) { mc_shard(); sh = 1; } if (e == 0) { if (p >= t.size()) mc_skip(); t.erase(p, 1); } else if (e == 1) { if (p + 1 >= t.size() || t[p] == t[p + 1]) mc_skip(); std::swap(t[p], t[p + 1]); } else if (e < 12) t.insert(p, 1, A[e - 2]); else { if (p >= t.size() || t[p] == A[e - 12]) mc_skip(); t[p] = A[e - 12]; } from = p; }
	(void)sh; inc_enter(); inc("inc", "I\nxXx @a xXx"); inc("a", "A"); Ctx c; auto s = mk(), e = mk(); s->str_("k", "sub").str_("a", "subA"); e->str_("k", "E"); c.str_("a", "1").str_("aa", "2").str_("no", "FALSE").str_("b", "").str_("N", "big").str_("x", "small").str_("X", "large").sub("s", s).arr("l", {S("x"), S("y")}).arr("m", {SC(e)}).arr("L", {S("Z")}).flt("f", flt<0>()).flt("n", flt<2>()).flt("a", flt<1>()); run(c, t);
}
static const char NEST[] = "all chains of up to 3 (4) files with 8 kinds and of 4 (5) with 4 kinds of scope around the include of the next, several leaves";
