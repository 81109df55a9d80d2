// FLAGS: -fsanitize=undefined -fno-sanitize-recover=undefined
// bounded oracle harness for C18: random histories of watched objects against a model
#include "mimic++/mimic++.hpp"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
using namespace mimicpp;
struct Base { int v{}; Base() = default; Base(const Base&) = default; Base(Base&& o) noexcept(false) : v{o.v} {} Base& operator=(const Base&) = default; Base& operator=(Base&& o) noexcept(false) { v = o.v; return *this; } ~Base() noexcept(false) {} };
static int fails; static std::string hist;
#define REQ(...) do { if (!(__VA_ARGS__)) { ++fails; std::printf("failed (line %d): %s after %s\n", __LINE__, #__VA_ARGS__, hist.c_str()); return; } } while (0)
struct Model { int life, reloc; bool flag; int v; };
template <typename W, bool hasL, bool hasR, bool lifeFirst> void history(unsigned seed)
{
	DefaultReporter* rep = new DefaultReporter{nullptr}; mimicpp::detail::get_reporter().reset(rep);
	std::mt19937 rng{seed}; W* obj[3]{}; std::optional<Model> mod[3]; int ids = 0; hist.clear();
	struct Exp { std::unique_ptr<ScopedExpectation> e; int max, n; bool life; }; std::map<int, Exp> exps;
	auto left = [&](int id) { auto it = exps.find(id); return it != exps.end() && it->second.n < it->second.max; };
	auto use = [&](int id) { if (!left(id)) return false; ++exps[id].n; return true; };
	auto run = [&](auto f) { try { f(); } catch (const UnmatchedCallT&) { return 1; } catch (const std::logic_error&) { return 2; } catch (const UnfulfilledExpectationT&) { return 3; } return 0; };
	for (int step = 0; step < 9; ++step)
	{
		const int op = rng() % 8, a = rng() % 3, b = rng() % 3; hist += std::to_string(op) + std::to_string(a) + std::to_string(b) + " ";
		if (op == 0 && !obj[a]) { obj[a] = new W{}; obj[a]->v = ids * 7; mod[a] = Model{++ids, ++ids, false, obj[a]->v}; }
		else if (op == 1 && obj[a] && mod[a]->life)
		{
			if constexpr (hasL)
			{
				const int r = run([&] { auto e = std::make_unique<ScopedExpectation>(obj[a]->expect_destruct()); exps[mod[a]->life] = {std::move(e), 1, 0, true}; });
				REQ(r == (mod[a]->flag ? 2 : 0)); mod[a]->flag = true;
			}
		}
		else if (op == 2 && obj[a] && mod[a]->reloc && !exps.contains(mod[a]->reloc)) { if constexpr (hasR) { const int k = 1 + rng() % 3; exps[mod[a]->reloc] = {std::make_unique<ScopedExpectation>(obj[a]->expect_relocate() and expect::times(0, k)), k, 0, false}; } }
		else if (op == 3 && obj[a])
		{
			bool bad = false; if (hasL && mod[a]->life) bad = !use(mod[a]->life);
			W* p = std::exchange(obj[a], nullptr); mod[a].reset(); REQ(run([&] { delete p; }) == (bad ? 1 : 0));
		}
		else if (op == 4 && !obj[a] && obj[b]) { REQ(run([&] { obj[a] = new W(*std::as_const(obj[b])); }) == 0); mod[a] = Model{++ids, ++ids, false, mod[b]->v}; REQ(obj[a]->v == mod[b]->v); }
		else if (op == 5 && obj[a] && obj[b])
		{
			bool bad = false; if (hasL && mod[a]->life) { bad = !use(mod[a]->life); mod[a]->life = 0; }
			REQ(run([&] { *obj[a] = std::as_const(*obj[b]); }) == (bad ? 1 : 0));
			if (!bad) { mod[a]->life = ++ids; mod[a]->flag = false; mod[a]->reloc = ++ids; mod[a]->v = mod[b]->v; } else if (!lifeFirst) mod[a]->reloc = ++ids;
			REQ(obj[a]->v == mod[a]->v);
		}
		else if (op == 6 && !obj[a] && obj[b] && (!hasR || mod[b]->reloc))
		{
			const bool ok = !hasR || left(mod[b]->reloc); const bool ends = !ok && hasL && lifeFirst && mod[b]->life;
			if (ends && !left(mod[b]->life)) continue;          // would end the program
			W* p{}; REQ(run([&] { p = new W(std::move(*obj[b])); }) == (ok ? 0 : 1));
			if (ok) { if (hasR) use(mod[b]->reloc); obj[a] = p; mod[a] = mod[b]; mod[b]->life = mod[b]->reloc = 0; REQ(p->v == mod[a]->v); }
			else if (ends) { use(mod[b]->life); mod[b]->life = 0; }
		}
		else if (op == 7 && obj[a] && obj[b] && a != b && (!hasR || mod[b]->reloc))
		{
			const bool ok = !hasR || left(mod[b]->reloc); if (!ok && lifeFirst) continue;
			REQ(run([&] { *obj[a] = std::move(*obj[b]); }) == (ok ? 0 : 1));
			if (ok) { if (hasR) use(mod[b]->reloc); mod[a] = mod[b]; mod[b]->life = mod[b]->reloc = 0; REQ(obj[a]->v == mod[a]->v); }
		}
		for (auto& [id, e] : exps) REQ(e.e->is_satisfied() == (!e.life || e.n == 1));
	}
	// expectations that end before their objects are errors; everything else is none
	for (auto& [id, e] : exps) { auto p = std::move(e.e); ScopedExpectation* q = p.release(); REQ(run([&] { q->~ScopedExpectation(); }) == (e.life && e.n == 0 ? 3 : 0)); ::operator delete(q); }
	for (int i = 0; i < 3; ++i) if (obj[i]) { const bool bad = hasL && mod[i]->life; W* p = obj[i]; REQ(run([&] { delete p; }) == (bad ? 1 : 0)); }
}
int main()
{
	for (unsigned s = 0; s < 6000 && !fails; ++s)
	{
		history<Watched<Base, LifetimeWatcher>, true, false, true>(s); history<Watched<Base, RelocationWatcher>, false, true, false>(s);
		history<Watched<Base, LifetimeWatcher, RelocationWatcher>, true, true, true>(s); history<Watched<Base, RelocationWatcher, LifetimeWatcher>, true, true, false>(s);
	}
	if (!fails) std::puts("ok: 24000 histories of up to 9 operations on 3 objects");
	return fails != 0;
}
