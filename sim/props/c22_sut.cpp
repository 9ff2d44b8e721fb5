// C22: the open list and the search tree of the planners behave like their
// models through every history of operations; an operation that fails for lack
// of memory or in a callback leaves a container that can be emptied and reused.
#include "sim.h"
#include "core/base.h"
#include "utils/frontier.h"
#include "utils/tree.h"
#include "geometry/2dplane.h"
#include <algorithm>
#include <map>
#include <set>
using namespace sim;
using namespace Planner;

// ---------------------------------------------------------------- open list
struct Item {
	double v = 0;
	long key = 0;
};
struct Cmp {
	bool up = true;
	bool operator()(const Item& a, const Item& b) const
	{
		maybeThrow("throw:cmp");
		return up ? a.v < b.v : a.v > b.v;
	}
};
struct KeyHash {
	long mod = 1 << 30;
	size_t operator()(const Item& a) const { return a.key % mod; }
};
struct KeyEq {
	bool operator()(const Item& a, const Item& b) const { return a.key == b.key; }
};
using Open = Frontier<Item, Cmp, KeyHash, KeyEq>;

struct OpenSim {
	Cmp cmp;
	Scope<Open> f;
	std::map<long, double> m; // the model: priority of each element
	long gen = 0;
	explicit OpenSim(const Plan& p)
	{
		cmp.up = p.ci("up", 1);
		KeyHash h;
		h.mod = std::max(1l, p.ci("mod", 1 << 30));
		if (p.ci("ctor") == 1) {
			// default construction: smallest first is not available, the order is that of Cmp()
			cmp.up = true;
			f = makeScope<Open>();
		} else if (p.ci("ctor") == 2)
			f = makeScope<Open>(cmp);
		else
			f = makeScope<Open>(cmp, 16, h, KeyEq());
	}
	bool before(double a, double b) const { return cmp.up ? a < b : a > b; }
	void check(const char* what)
	{
		Quiet q;
		if (f->Size() != m.size()) violate("open-size", "%s: %zu elements, %zu expected", what, f->Size(), m.size());
		if (f->Empty() != m.empty()) violate("open-size", "%s: Empty() is wrong", what);
		std::set<long> seen;
		const Item* prev = nullptr;
		for (auto& e : *f) {
			auto it = m.find(e.key);
			if (it == m.end()) violate("open-content", "%s: element %ld is in the list", what, e.key);
			if (it->second != e.v) violate("open-content", "%s: element %ld has priority %g, %g expected", what, e.key, e.v, it->second);
			if (!seen.insert(e.key).second) violate("open-twice", "%s: element %ld is in the list twice", what, e.key);
			if (prev && before(e.v, prev->v)) violate("open-order", "%s: %g comes after %g", what, e.v, prev->v);
			prev = &e;
		}
		if (seen.size() != m.size()) violate("open-size", "%s: %zu elements are visited, %zu expected", what, seen.size(), m.size());
		if (!m.empty()) {
			auto& t = f->Top();
			for (auto& [k, v] : m)
				if (before(t.v, v)) violate("open-order", "%s: the top has priority %g, %g is in the list", what, t.v, v);
			if (!m.count(t.key) || m[t.key] != t.v) violate("open-content", "%s: the top is element %ld with %g", what, t.key, t.v);
		}
		Hash h;
		for (auto& e : *f) { h.add(e.key); h.addd(e.v); }
		state(h.h);
	}
	void apply(const Op& op)
	{
		long key = op.iarg(0);
		double v = op.arg(1);
		bool aborted = false;
		Item popped;
		const Item* ptr = nullptr;
		bool inserted = false;
		size_t removed = 0;
		bool has;
		double old = 0;
		{
			Quiet q;
			has = m.count(key);
			if (has) old = m[key];
			if ((op.name == "pop" || op.name == "top") && m.empty()) return;
		}
		{
			Armed a(op);
			try {
				if (op.name == "push") std::tie(ptr, inserted) = f->Push({ v, key });
				else if (op.name == "remove") removed = f->Remove({ v, key });
				else if (op.name == "pop") popped = f->Pop();
				else if (op.name == "find") ptr = f->Find({ v, key });
				else if (op.name == "clear") f->Clear();
			} catch (const Injected&) { aborted = true; } catch (const std::bad_alloc&) { aborted = true; }
		}
		ev("%s %ld %g aborted %d size %zu", op.name.c_str(), key, v, aborted, f->Size());
		if (aborted) {
			if (firedInOp() == 0) violate("unexpected-failure", "%s failed although nothing was injected", op.name.c_str());
			// what a planner does with an aborted search
			probe("open-aborted");
			f->Clear();
			m.clear();
			check("clear after a failure");
			return;
		}
		if (op.name == "push") {
			if (inserted == has) violate("open-push", "pushing element %ld, which is %s the list, says %s", key, has ? "in" : "not in", inserted ? "inserted" : "not inserted");
			if (!has) m[key] = v;
			else probe("push-duplicate");
			if (!ptr || ptr->key != key || ptr->v != (has ? old : v)) violate("open-push", "pushing element %ld returns another element", key);
		} else if (op.name == "remove") {
			if (removed != (has ? 1 : 0)) violate("open-remove", "removing element %ld, which is %s the list, says %zu", key, has ? "in" : "not in", removed);
			if (has) {
				m.erase(key);
				probe("removed");
				if (m.size() > 4) nontrivial();
			}
		} else if (op.name == "find") {
			if ((ptr != nullptr) != has) violate("open-find", "element %ld is %s the list, finding it says otherwise", key, has ? "in" : "not in");
			if (ptr && (ptr->key != key || ptr->v != old)) violate("open-find", "finding element %ld returns element %ld with %g", key, ptr->key, ptr->v);
		} else if (op.name == "pop") {
			auto it = m.find(popped.key);
			if (it == m.end() || it->second != popped.v) violate("open-pop", "element %ld with %g is popped, which is not in the list", popped.key, popped.v);
			for (auto& [k, w] : m)
				if (before(popped.v, w)) violate("open-pop", "%g is popped before %g", popped.v, w);
			m.erase(it);
		} else if (op.name == "clear")
			m.clear();
		check(op.name.c_str());
	}
};

// ---------------------------------------------------------------- search tree
struct Info {
	long tag = 0;
};
using PTree = Tree<Point2d, 2, Info>;
using PNode = PTree::Node;

struct TreeSim {
	PTree t;
	struct N {
		PNode* n;
		long parent; // index, -1: root
		double x, y;
	};
	std::vector<N> m;
	PNode* root = nullptr;
	long find(const PNode* n)
	{
		for (size_t i = 0; i < m.size(); i++)
			if (m[i].n == n) return i;
		return -1;
	}
	bool below(long a, long b) // a is a descendant of b
	{
		for (a = m[a].parent; a >= 0; a = m[a].parent)
			if (a == b) return true;
		return false;
	}
	void check(const char* what)
	{
		Quiet q;
		if (t.Size() != m.size()) violate("tree-size", "%s: %zu states, %zu expected", what, t.Size(), m.size());
		Hash h;
		size_t links = 0;
		for (size_t i = 0; i < m.size(); i++) {
			auto& n = *m[i].n;
			if (n->state.x() != m[i].x || n->state.y() != m[i].y || n->info.tag != (long)i) violate("tree-data", "%s: node %zu holds another state", what, i);
			PNode* par = m[i].parent < 0 ? nullptr : m[m[i].parent].n;
			if (n.GetParent() != par) violate("tree-parent", "%s: node %zu has another parent than expected", what, i);
			if (!t.BelongToTree(&n)) violate("tree-member", "%s: node %zu does not belong to the tree", what, i);
			unsigned depth = 0;
			for (long a = m[i].parent; a >= 0; a = m[a].parent) depth++;
			if (n.GetDepth() != depth) violate("tree-depth", "%s: node %zu has depth %u, %u expected", what, i, n.GetDepth(), depth);
			std::set<const PNode*> kids;
			const PNode* prev = nullptr;
			for (auto& c : n.GetChildren()) {
				long k = find(c.get());
				if (k < 0 || m[k].parent != (long)i) violate("tree-children", "%s: node %zu has a child that is not one", what, i);
				if (!kids.insert(c.get()).second) violate("tree-children", "%s: node %zu has a child twice", what, i);
				if (c->GetPrevious() != prev) violate("tree-siblings", "%s: the previous sibling of a child of node %zu is wrong", what, i);
				if (prev && prev->GetNext() != c.get()) violate("tree-siblings", "%s: the next sibling of a child of node %zu is wrong", what, i);
				prev = c.get();
			}
			if (prev && prev->GetNext()) violate("tree-siblings", "%s: the last child of node %zu has a next sibling", what, i);
			if (n.GetFirst() != (n.GetChildren().empty() ? nullptr : n.GetChildren()[0].get())) violate("tree-children", "%s: the first child of node %zu is wrong", what, i);
			links += kids.size();
			h.add(m[i].parent + 7);
		}
		if (!m.empty() && links != m.size() - 1) violate("tree-children", "%s: %zu nodes are reached as children, %zu expected", what, links, m.size() - 1);
		if (!m.empty()) {
			// traversals: each node once, a node before (after) its descendants
			std::vector<const PNode*> pre, post;
			PNode* r = nullptr;
			for (auto& e : m)
				if (e.parent < 0) r = e.n;
			r->PreOrderTraversal([&](const PNode& n) { pre.push_back(&n); });
			r->PostOrderTraversal([&](const PNode& n) { post.push_back(&n); });
			for (auto* v : { &pre, &post }) {
				std::map<const PNode*, size_t> at;
				for (size_t i = 0; i < v->size(); i++) at[(*v)[i]] = i;
				if (v->size() != m.size() || at.size() != m.size()) violate("tree-traversal", "%s: a traversal visits %zu nodes (%zu different), %zu expected", what, v->size(), at.size(), m.size());
				for (auto& e : m)
					if (e.parent >= 0) {
						bool earlier = at[m[e.parent].n] < at[e.n];
						if (earlier != (v == &pre)) violate("tree-traversal", "%s: a %s-order traversal visits a parent %s its child", what, v == &pre ? "pre" : "post", earlier ? "before" : "after");
					}
			}
		}
		state(h.h);
	}
	void nearest(const Point2d& p, const std::vector<PNode*>& got, size_t k, const char* what)
	{
		Quiet q;
		std::vector<double> d;
		for (auto& e : m) d.push_back(std::hypot(e.x - p.x(), e.y - p.y()));
		std::sort(d.begin(), d.end());
		size_t want = std::min(k, m.size());
		if (got.size() != want) violate("nearest", "%s: %zu nodes are returned, %zu expected", what, got.size(), want);
		std::set<const PNode*> seen;
		std::vector<double> g;
		for (auto* n : got) {
			long i = find(n);
			if (i < 0) violate("nearest", "%s: a node is returned that is not in the tree", what);
			if (!seen.insert(n).second) violate("nearest", "%s: a node is returned twice", what);
			g.push_back(std::hypot(m[i].x - p.x(), m[i].y - p.y()));
		}
		std::sort(g.begin(), g.end());
		for (size_t i = 0; i < g.size(); i++)
			if (g[i] > d[i] * (1 + 1e-9) + 1e-12) violate("nearest", "%s: neighbour %zu is %g away, there is one at %g", what, i, g[i], d[i]);
	}
	void apply(const Op& op)
	{
		if (op.name == "root") {
			bool aborted = false;
			PNode* r = nullptr;
			t.Clear();
			m.clear();
			{
				Armed a(op);
				try {
					r = t.CreateRootNode(Point2d(op.arg(0), op.arg(1)));
				} catch (const std::bad_alloc&) { aborted = true; }
			}
			ev("root %g %g aborted %d", op.arg(0), op.arg(1), aborted);
			if (aborted) return failed("root");
			Quiet q;
			if (!r) violate("tree-extend", "no root is returned");
			(*r)->info.tag = 0;
			m.push_back({ r, -1, op.arg(0), op.arg(1) });
			check("root");
			return;
		}
		if (op.name == "clear") {
			t.Clear();
			m.clear();
			ev("clear");
			check("clear");
			return;
		}
		if (m.empty()) return;
		if (op.name == "extend") {
			Point2d p(op.arg(0), op.arg(1));
			long src = op.iarg(2);
			src = src < 0 ? -1 : src % (long)m.size();
			long known = -1;
			for (size_t i = 0; i < m.size(); i++)
				if (m[i].x == p.x() && m[i].y == p.y()) known = i;
			bool aborted = false;
			PNode* n = nullptr;
			PNode* s = src < 0 ? nullptr : m[src].n;
			{
				Armed a(op);
				try {
					n = t.Extend(p, s);
				} catch (const std::bad_alloc&) { aborted = true; }
			}
			ev("extend %g %g from %ld aborted %d", p.x(), p.y(), src, aborted);
			if (aborted) return failed("extend");
			Quiet q;
			if (!n) violate("tree-extend", "no node is returned");
			if (known >= 0) {
				probe("extend-known");
				if (n != m[known].n) violate("tree-extend", "extending to a state of the tree returns another node");
			} else {
				if (find(n) >= 0) violate("tree-extend", "extending to a new state returns an old node");
				long par = find(n->GetParent());
				if (par < 0) violate("tree-extend", "the new node hangs on no node of the tree");
				if (src >= 0 && par != src) violate("tree-extend", "the new node does not hang on the given node");
				if (src < 0) {
					nearest(p, { m[par].n }, 1, "extend");
					probe("extend-nearest");
				}
				(*n)->info.tag = m.size();
				m.push_back({ n, par, p.x(), p.y() });
			}
			check("extend");
		} else if (op.name == "near") {
			Point2d p(op.arg(0), op.arg(1));
			long k = op.iarg(2);
			std::vector<PNode*> got;
			bool aborted = false;
			{
				Armed a(op);
				try {
					if (k < 0) got = { t.GetNearestNode(p) };
					else got = t.GetNearestNodes(p, k);
				} catch (const std::bad_alloc&) { aborted = true; }
			}
			ev("near %g %g k %ld aborted %d", p.x(), p.y(), k, aborted);
			if (aborted) return failed("near");
			nearest(p, got, k < 0 ? 1 : k, "near");
			if (m.size() > 8) nontrivial();
			if (k > (long)m.size()) probe("near-more-than-there-are");
			check("near");
		} else if (op.name == "reparent") {
			long c = op.iarg(0) % (long)m.size(), p = op.iarg(1) % (long)m.size();
			if (c == p) return;
			ev("reparent %ld under %ld", c, p);
			bool under = below(p, c);
			t.Reparent(m[c].n, m[p].n);
			if (under) {
				probe(m[c].parent < 0 ? "reparent-root" : "reparent-swapped");
				m[p].parent = m[c].parent;
			}
			m[c].parent = p;
			check("reparent");
			nontrivial();
		} else if (op.name == "kin") {
			Quiet q;
			long a = op.iarg(0) % (long)m.size(), b = op.iarg(1) % (long)m.size();
			bool want = below(a, b);
			ev("kin %ld %ld %d", a, b, want);
			if (m[a].n->IsDescendantOf(m[b].n) != want || m[b].n->IsAncestorOf(m[a].n) != want) violate("tree-kin", "node %ld %s a descendant of node %ld", a, want ? "is not seen as" : "is seen as", b);
			PNode stray(Point2d(0, 0));
			if (t.BelongToTree(&stray)) violate("tree-member", "a node outside of the tree is said to belong to it");
		}
	}
	void failed(const char* what)
	{
		if (firedInOp() == 0) violate("unexpected-failure", "%s failed although nothing was injected", what);
		probe("tree-aborted");
		t.Clear();
		m.clear();
		check("clear after a failure");
	}
};

// ---------------------------------------------------------------- nodes alone
struct NodeSim {
	using Nd = Node<long>;
	std::vector<Scope<Nd>> roots;    // owned trees
	std::map<long, Nd*> node;        // by number
	std::map<long, long> parent;     // -1: root
	std::map<long, std::vector<long>> kids;
	long next = 0;
	bool below(long a, long b)
	{
		for (a = parent[a]; a >= 0; a = parent[a])
			if (a == b) return true;
		return false;
	}
	long pick(long i)
	{
		auto it = node.begin();
		std::advance(it, i % (long)node.size());
		return it->first;
	}
	Scope<Nd> take(long r) // ownership of a root
	{
		for (auto it = roots.begin(); it != roots.end(); it++)
			if (it->get() == node[r]) {
				auto s = std::move(*it);
				roots.erase(it);
				return s;
			}
		return nullptr;
	}
	void cut(long c)
	{
		auto& v = kids[parent[c]];
		v.erase(std::find(v.begin(), v.end(), c));
	}
	void check(const char* what)
	{
		size_t seen = 0;
		for (auto& r : roots) r->PreOrderTraversal([&](const Nd&) { seen++; });
		if (seen != node.size()) violate("node-lost", "%s: %zu nodes are reached, %zu expected", what, seen, node.size());
		Hash h;
		for (auto& [k, n] : node) {
			if (**n != k) violate("node-data", "%s: node %ld holds %ld", what, k, **n);
			Nd* par = parent[k] < 0 ? nullptr : node[parent[k]];
			if (n->GetParent() != par) violate("node-parent", "%s: node %ld has the wrong parent", what, k);
			auto& want = kids[k];
			if (n->GetChildren().size() != want.size()) violate("node-children", "%s: node %ld has %zu children, %zu expected", what, k, n->GetChildren().size(), want.size());
			std::set<long> got;
			for (auto& c : n->GetChildren()) got.insert(**c);
			if (got != std::set<long>(want.begin(), want.end())) violate("node-children", "%s: node %ld has other children than expected", what, k);
			h.add(k * 31 + parent[k]);
		}
		state(h.h);
	}
	void apply(const Op& op)
	{
		Quiet q;
		ev("%s %ld %ld %ld", op.name.c_str(), op.iarg(0), op.iarg(1), op.iarg(2));
		if (op.name == "n.new") {
			auto s = makeScope<Nd>(next);
			node[next] = s.get();
			parent[next] = -1;
			roots.push_back(std::move(s));
			next++;
		} else if (node.empty())
			return;
		else if (op.name == "n.add") { // hang a whole tree below a node of another
			long a = pick(op.iarg(0)), b = pick(op.iarg(1));
			if (parent[b] >= 0 || a == b || below(a, b)) return;
			Nd* n = node[a]->AddChild(take(b));
			if (n != node[b]) violate("node-add", "adding a child returns another node");
			parent[b] = a;
			kids[a].push_back(b);
		} else if (op.name == "n.remove") {
			long b = pick(op.iarg(0));
			if (parent[b] < 0) return;
			auto s = node[parent[b]]->RemoveChild(node[b]);
			if (s.get() != node[b]) violate("node-remove", "removing a child returns another node");
			cut(b);
			parent[b] = -1;
			roots.push_back(std::move(s));
			nontrivial();
		} else if (op.name == "n.replace") {
			long b = pick(op.iarg(0));
			if (parent[b] < 0) return;
			bool adopt = op.iarg(1) & 1;
			long c = next++;
			auto s = makeScope<Nd>(c);
			node[c] = s.get();
			if (!adopt && (op.iarg(1) & 2)) {
				// the newcomer brings a child of its own
				long d = next++;
				auto sd = makeScope<Nd>(d);
				node[d] = sd.get();
				s->AddChild(std::move(sd));
				parent[d] = c;
				kids[c].push_back(d);
			}
			long par = parent[b];
			auto out = node[par]->ReplaceChild(node[b], std::move(s), adopt);
			if (out.get() != node[b]) violate("node-replace", "replacing a child returns another node");
			*std::find(kids[par].begin(), kids[par].end(), b) = c;
			parent[c] = par;
			parent[b] = -1;
			if (adopt) {
				for (long k : kids[b]) parent[k] = c;
				kids[c] = kids[b];
				kids[b].clear();
			}
			roots.push_back(std::move(out));
			probe(adopt ? "replace-adopt" : "replace");
			nontrivial();
		} else if (op.name == "n.reparent") {
			long c = pick(op.iarg(0)), p = pick(op.iarg(1));
			if (c == p) return;
			auto top = [&](long k) {
				while (parent[k] >= 0) k = parent[k];
				return k;
			};
			long r = top(c);
			if (top(p) != r) return;
			Scope<Nd> root = take(r);
			bool under = below(p, c);
			Nd::Reparent(node[c], node[p], root);
			if (parent[c] >= 0) cut(c);
			if (under) {
				cut(p);
				parent[p] = parent[c];
				if (parent[p] >= 0) kids[parent[p]].push_back(p);
				if (parent[p] < 0) probe("n-reparent-root");
			}
			parent[c] = p;
			kids[p].push_back(c);
			if (!root || root.get() != node[top(p)]) violate("node-root", "the root of the tree is another node after a change of parent");
			roots.push_back(std::move(root));
			nontrivial();
		}
		check(op.name.c_str());
	}
};

static void generate(Rng& r, Plan& p)
{
	int kind = r.below(5); // 0,1: open list, 2,3: tree, 4: nodes
	double faultRate = r.pick(std::vector<double> { 0, 0, 0.05, 0.2 });
	if (kind <= 1) {
		p.cfg["kind"] = { 0 };
		p.cfg["up"] = { (double)r.below(2) };
		p.cfg["mod"] = { (double)r.pick(std::vector<long> { 1, 3, 1 << 30 }) };
		p.cfg["ctor"] = { (double)r.below(3) };
		long keys = r.pick(std::vector<long> { 3, 8, 40 }), values = r.pick(std::vector<long> { 1, 2, 4, 1000 });
		bool inf = r.chance(0.2);
		for (long i = r.range(3, r.chance(0.2) ? 150 : 40); i > 0; i--) {
			double v = r.range(-values / 2, values / 2) / 4.0;
			if (inf && r.chance(0.2)) v = r.chance(0.5) ? INFINITY : -INFINITY;
			double x = r.real();
			Op op(x < 0.55 ? "push" : x < 0.75 ? "remove" : x < 0.9 ? "pop" : x < 0.98 ? "find" : "clear", { (double)r.below(keys), std::isfinite(v) ? v : v > 0 ? 1e300 : -1e300 });
			if (r.chance(faultRate)) op.f.push_back({ r.chance(0.5) ? "alloc" : "throw:cmp", r.chance(0.7) ? r.below(3) : r.below(8) });
			p.ops.push_back(op);
		}
	} else if (kind <= 3) {
		p.cfg["kind"] = { 1 };
		bool lattice = r.chance(0.4);
		double size = r.pick(std::vector<double> { 1, 10, 1000 });
		auto coord = [&] { return lattice ? (double)r.range(0, 4) : std::round(r.real(-size, size) * 4096) / 4096; };
		long n = r.range(3, r.chance(0.2) ? 120 : 40);
		double rep = r.pick(std::vector<double> { 0, 0.1, 0.4 });
		p.ops.push_back(Op("root", { coord(), coord() }));
		for (long i = 0; i < n; i++) {
			double x = r.real();
			Op op;
			if (x < rep) op = Op("reparent", { (double)r.below(1000), (double)r.below(1000) });
			else if (r.chance(0.6)) op = Op("extend", { coord(), coord(), r.chance(0.4) ? -1.0 : (double)r.below(1000) });
			else if (r.chance(0.8)) op = Op("near", { coord(), coord(), r.chance(0.3) ? -1.0 : (double)(r.chance(0.8) ? r.below(6) : r.below(60)) });
			else if (r.chance(0.8)) op = Op("kin", { (double)r.below(1000), (double)r.below(1000) });
			else if (r.chance(0.3)) op = Op("clear");
			else op = Op("root", { coord(), coord() });
			if ((op.name == "extend" || op.name == "near" || op.name == "root") && r.chance(faultRate * 0.5)) op.f.push_back({ "alloc", op.name == "near" ? r.below(8) : 0 }); // FLANN does not survive a failure while it builds its index
			p.ops.push_back(op);
			if (op.name == "clear" || !op.f.empty()) p.ops.push_back(Op("root", { coord(), coord() }));
		}
	} else {
		p.cfg["kind"] = { 2 };
		for (long i = r.range(2, 8); i > 0; i--) p.ops.push_back(Op("n.new"));
		for (long i = r.range(3, 60); i > 0; i--) {
			double x = r.real();
			p.ops.push_back(Op(x < 0.15 ? "n.new" : x < 0.5 ? "n.add" : x < 0.65 ? "n.remove" : x < 0.8 ? "n.replace" : "n.reparent", { (double)r.below(1000), (double)r.below(1000) }));
		}
	}
}

static void execute(const Plan& p)
{
	stepBudget(200000000ull);
	long kind = p.ci("kind");
	if (kind == 0) {
		OpenSim s(p);
		s.check("new");
		for (auto& op : p.ops) s.apply(op);
	} else if (kind == 1) {
		TreeSim s;
		for (auto& op : p.ops) s.apply(op);
	} else {
		NodeSim s;
		for (auto& op : p.ops) s.apply(op);
	}
}
const sim::Property sim::property = { "C22", generate, execute };
