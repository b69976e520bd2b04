// Linearizability of a counting event with a FIFO wait queue, joint over several events (for wait_all).
// Blocking operations are dual: they "arrive" at one point and are granted by somebody else's signal at another.
#pragma once
#include "common.h"
#include <unordered_set>

namespace EM
{
	enum Kind { SIGNAL, SIGNAL_ALL, RESET, WAIT, MARK };
	struct OpRec
	{
		Kind kind; uint32_t mask = 0;		// events it concerns
		uint64_t inv = 0, resp = ~0ull;		// resp == ~0: never returned
		bool result = true;					// WAIT: granted / timed out
		int64_t id = 0;
	};
	struct Checker
	{
		std::vector<OpRec> ops;
		int nev = 0;
		uint64_t budget = 2'000'000;
		bool exhausted = false;
		std::unordered_set<std::string> seen;

		struct St
		{
			uint64_t lin = 0;		// linearized / arrived
			uint64_t fin = 0;		// finished (simple: linearized; wait: granted or expired)
			int cnt[4] = {};
			std::vector<uint8_t> q[4];
			uint8_t rem[64] = {};
		};
		static std::string key(const St& s, int nev)
		{
			std::string k((const char*)&s.lin, 8);
			k.append((const char*)&s.fin, 8);
			for (int e = 0; e < nev; ++e)
			{
				k.push_back((char)s.cnt[e]);
				k.append((const char*)s.q[e].data(), s.q[e].size());
				k.push_back((char)0xff);
			}
			return k;
		}
		// grants w one event; false: contradiction
		bool grant(St& s, int w)
		{
			if (--s.rem[w] == 0)
			{
				if (!ops[w].result) return false;
				s.fin |= 1ull << w;
			}
			return true;
		}
		bool step(St& s, int x)
		{
			OpRec& o = ops[x];
			s.lin |= 1ull << x;
			switch (o.kind)
			{
			case SIGNAL:
				for (int e = 0; e < nev; ++e) if (o.mask >> e & 1)
				{
					if (s.q[e].empty()) { s.cnt[e]++; continue; }
					int w = s.q[e].front(); s.q[e].erase(s.q[e].begin());
					if (!grant(s, w)) return false;
				}
				s.fin |= 1ull << x;
				return true;
			case SIGNAL_ALL:
				for (int e = 0; e < nev; ++e) if (o.mask >> e & 1)
				{
					auto q = std::move(s.q[e]); s.q[e].clear();
					for (int w : q) if (!grant(s, w)) return false;
				}
				s.fin |= 1ull << x;
				return true;
			case RESET:
				for (int e = 0; e < nev; ++e) if (o.mask >> e & 1) s.cnt[e] = 0;
				s.fin |= 1ull << x;
				return true;
			case MARK:
				// quiescent: whoever has not come back has not been granted
				for (size_t i = 0; i < ops.size(); ++i)
					if (ops[i].kind == WAIT && ops[i].inv < o.inv && ops[i].resp > o.inv)
					{
						if (!(s.lin >> i & 1) || (s.fin >> i & 1)) return false;
					}
				s.fin |= 1ull << x;
				return true;
			case WAIT:
			{
				s.rem[x] = (uint8_t)(__builtin_popcount(o.mask) + 1);
				for (int e = 0; e < nev; ++e) if (o.mask >> e & 1)
				{
					if (s.cnt[e] > 0) { s.cnt[e]--; if (!grant(s, x)) return false; }
					else s.q[e].push_back((uint8_t)x);
				}
				// the extra unit stands for the operation itself
				return grant(s, x);
			}
			}
			return false;
		}
		void expire(St& s, int x)
		{
			for (int e = 0; e < nev; ++e)
				s.q[e].erase(std::remove(s.q[e].begin(), s.q[e].end(), (uint8_t)x), s.q[e].end());
			s.fin |= 1ull << x;
		}
		bool dfs(const St& s)
		{
			// finished: every operation that returned is accounted for
			bool all = true;
			uint64_t bound = ~0ull;
			for (size_t i = 0; i < ops.size(); ++i)
				if (!(s.fin >> i & 1))
				{
					if (ops[i].resp != ~0ull) all = false;
					bound = std::min(bound, ops[i].resp);
				}
			if (all) return true;
			if (!seen.insert(key(s, nev)).second) return false;
			if (seen.size() > budget) { exhausted = true; return true; }
			for (size_t i = 0; i < ops.size(); ++i)
			{
				if (s.fin >> i & 1) continue;
				OpRec& o = ops[i];
				if (o.inv > bound) continue;
				if (!(s.lin >> i & 1))
				{
					St n = s;
					if (step(n, (int)i) && dfs(n)) return true;
				}
				else if (o.kind == WAIT && !o.result)
				{
					St n = s;
					expire(n, (int)i);
					if (dfs(n)) return true;
				}
			}
			return false;
		}
		bool run(const int* init)
		{
			St s;
			for (int e = 0; e < nev; ++e) s.cnt[e] = init[e];
			return dfs(s);
		}
	};
}
