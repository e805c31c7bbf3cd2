// Solvers on recording engines.
//  sym   : buffers are linear combinations of symbols; every derivative evaluation makes a new symbol
//  trees : the vector field of the rooted trees, y_t' = product of y_child (y_t(h) = h^|t| / gamma(t) exactly)
#include "hcommon.h"
#include "nbody_solvers.h"
#include "nbody_extrapolator.h"
#include <memory>
#include <fstream>

typedef std::map<int, double> lin;
struct smem : public nbody_engine::memory
{
	lin v;
	size_t bytes;
	size_t size() const override { return bytes; }
};

class sym_engine : public nbody_engine
{
public:
	smem* y;
	double t;
	size_t step;
	int next_sym, next_junk;
	std::vector<std::pair<int, lin>> evals;		// since the last report
	std::vector<double> eval_t;
	std::vector<lin> norms;
	std::vector<size_t> norm_at;				// evaluations before each norm
	std::vector<double> script;
	size_t script_pos;
	double script_default;
	int live;
	bool residual;								// compensated additions leave a residual that enters the next one
	int next_res;
	std::map<size_t, double> err_at;			// estimates by the number of evaluations made so far in the step
	sym_engine() : residual(false), next_res(2000000), y(new smem), t(0), step(0), next_sym(1), next_junk(1), script_pos(0), script_default(0), live(0)
	{
		y->bytes = problem_size() * sizeof(nbcoord_t);
		y->v[0] = 1;
	}
	~sym_engine() { delete y; }
	static lin& L(memory* m) { return static_cast<smem*>(m)->v; }
	static const lin& L(const memory* m) { return static_cast<const smem*>(m)->v; }
	static void axpy(lin& a, const lin& b, double c)
	{
		for(auto& p : b)
		{
			double r = (a[p.first] += p.second * c);
			if(r == 0) a.erase(p.first);
		}
	}
	const char* type_name() const override { return "sym"; }
	bool init(nbody_data*) override { return true; }
	void get_data(nbody_data*) override {}
	size_t problem_size() const override { return 6; }
	memory* get_y() override { return y; }
	void advise_time(const nbcoord_t& dt) override { t += dt; ++step; }
	nbcoord_t get_time() const override { return t; }
	void set_time(nbcoord_t tt) override { t = tt; }
	size_t get_step() const override { return step; }
	void set_step(size_t s) override { step = s; }
	void fcompute(const nbcoord_t& tt, const memory* yy, memory* f) override
	{
		lin arg(L(yy));
		evals.push_back(std::make_pair(next_sym, arg));
		eval_t.push_back(tt);
		lin r;
		r[next_sym++] = 1;
		L(f) = r;
		advise_compute_count();
	}
	void clamp(memory*, nbcoord_t) override {}
	memory* create_buffer(size_t s) override
	{
		smem* m = new smem;
		m->bytes = s;
		m->v[-(next_junk++)] = 1;			// content unknown
		++live;
		return m;
	}
	void free_buffer(memory* m) override { if(m) --live; delete m; }
	void read_buffer(void*, const memory*) override {}
	void write_buffer(memory*, const void*) override {}
	void copy_buffer(memory* a, const memory* b) override { L(a) = lin(L(b)); }
	void fill_buffer(memory* a, const nbcoord_t& value) override
	{
		L(a).clear();
		if(value != 0) L(a)[1000000] = value;
	}
	void fmadd_inplace(memory* a, const memory* b, const nbcoord_t& c) override { lin bb(L(b)); axpy(L(a), bb, c); }
	void fmadd(memory* a, const memory* b, const memory* c, const nbcoord_t& d) override
	{
		lin r(L(b));
		axpy(r, L(c), d);
		L(a) = r;
	}
	void fmaddn_inplace(memory* a, const memory_array& b, const nbcoord_t* c, size_t csize) override
	{
		if(c == NULL || csize > b.size()) return;
		lin r(L(a));
		for(size_t i = 0; i != csize; ++i) if(c[i] != 0) axpy(r, L(b[i]), c[i]);
		L(a) = r;
	}
	void fmaddn_corr(memory* a, memory* corr, const memory_array& b, const nbcoord_t* c, size_t csize) override
	{
		if(c == NULL || csize > b.size()) return;
		lin r(L(a));
		for(auto& p : L(corr)) if(p.first < 0) r[p.first] += p.second;	// a correction never initialised would end up in the result
		for(size_t i = 0; i != csize; ++i) if(c[i] != 0) axpy(r, L(b[i]), c[i]);
		if(residual)
		{
			for(auto& p : L(corr)) if(p.first >= 2000000) r[p.first] += p.second;
			L(corr).clear();
			L(corr)[next_res++] = 1;
		}
		L(a) = r;
	}
	void fmaddn(memory* a, const memory* b, const memory_array& c, const nbcoord_t* d, size_t dsize) override
	{
		if(d == NULL || dsize > c.size()) return;
		lin r;
		if(b) r = L(b);
		for(size_t i = 0; i != dsize; ++i) if(d[i] != 0) axpy(r, L(c[i]), d[i]);
		L(a) = r;
	}
	void fmaxabs(const memory* a, nbcoord_t& result) override
	{
		norms.push_back(L(a));
		norm_at.push_back(evals.size());
		auto at = err_at.find(evals.size());
		result = at != err_at.end() ? at->second : script_pos < script.size() ? script[script_pos] : script_default;
		++script_pos;
	}
};

static std::string ltext(const lin& l)
{
	std::string s("{");
	for(auto& p : l)
	{
		char b[64];
		snprintf(b, sizeof b, "%s\"%d\":%.17g", s.size() > 1 ? "," : "", p.first, p.second);
		s += b;
	}
	return s + "}";
}

// ------------------------------------------------------------------ trees
typedef long double real;
struct tmem : public nbody_engine::memory
{
	std::vector<real> v;
	size_t size() const override { return v.size() * sizeof(nbcoord_t); }
};
static std::vector<std::vector<int>> g_children;	// node 0 is the single-node tree
class tree_engine : public nbody_engine
{
public:
	tmem* y;
	double t;
	size_t step, n;
	explicit tree_engine(size_t count) : y(new tmem), t(0), step(0), n(count) { y->v.assign(n, 0); }
	~tree_engine() { delete y; }
	static std::vector<real>& V(memory* m) { return static_cast<tmem*>(m)->v; }
	static const std::vector<real>& V(const memory* m) { return static_cast<const tmem*>(m)->v; }
	const char* type_name() const override { return "trees"; }
	bool init(nbody_data*) override { return true; }
	void get_data(nbody_data*) override {}
	size_t problem_size() const override { return n; }
	memory* get_y() override { return y; }
	void advise_time(const nbcoord_t& dt) override { t += dt; ++step; }
	nbcoord_t get_time() const override { return t; }
	void set_time(nbcoord_t tt) override { t = tt; }
	size_t get_step() const override { return step; }
	void set_step(size_t s) override { step = s; }
	void fcompute(const nbcoord_t&, const memory* yy, memory* f) override
	{
		const std::vector<real>& a(V(yy));
		std::vector<real>& r(V(f));
		std::vector<real> o(n);
		for(size_t i = 0; i != n; ++i)
		{
			real p = 1;
			for(int c : g_children[i]) p *= a[c];
			o[i] = p;
		}
		r = o;
		advise_compute_count();
	}
	void clamp(memory*, nbcoord_t) override {}
	memory* create_buffer(size_t) override { tmem* m = new tmem; m->v.assign(n, NAN); return m; }
	void free_buffer(memory* m) override { delete m; }
	void read_buffer(void*, const memory*) override {}
	void write_buffer(memory*, const void*) override {}
	void copy_buffer(memory* a, const memory* b) override { if(a != b) V(a) = V(b); }
	void fill_buffer(memory* a, const nbcoord_t& value) override { V(a).assign(n, value); }
	void fmadd_inplace(memory* a, const memory* b, const nbcoord_t& c) override { for(size_t i = 0; i != n; ++i) V(a)[i] += V(b)[i] * c; }
	void fmadd(memory* a, const memory* b, const memory* c, const nbcoord_t& d) override { for(size_t i = 0; i != n; ++i) V(a)[i] = V(b)[i] + V(c)[i] * d; }
	void fmaddn_inplace(memory* a, const memory_array& b, const nbcoord_t* c, size_t csize) override
	{
		for(size_t k = 0; k != csize; ++k) if(c[k] != 0) for(size_t i = 0; i != n; ++i) V(a)[i] += V(b[k])[i] * c[k];
	}
	void fmaddn_corr(memory* a, memory*, const memory_array& b, const nbcoord_t* c, size_t csize) override { fmaddn_inplace(a, b, c, csize); }
	void fmaddn(memory* a, const memory* b, const memory_array& c, const nbcoord_t* d, size_t dsize) override
	{
		std::vector<real> r(n, 0);
		if(b) r = V(b);
		for(size_t k = 0; k != dsize; ++k) if(d[k] != 0) for(size_t i = 0; i != n; ++i) r[i] += V(c[k])[i] * d[k];
		V(a) = r;
	}
	void fmaxabs(const memory* a, nbcoord_t& result) override { real m = 0; for(real x : V(a)) m = std::max(m, std::fabs(x)); result = nbcoord_t(m); }
};

static QVariantMap params(std::istringstream& in)
{
	QVariantMap p;
	std::string w;
	while(in >> w)
	{
		size_t e = w.find('=');
		p[QString::fromStdString(w.substr(0, e))] = QString::fromStdString(w.substr(e + 1));
	}
	return p;
}

int main()
{
	qInstallMessageHandler(quiet_messages);
	std::unique_ptr<sym_engine> e;
	std::unique_ptr<nbody_solver> s;
	std::unique_ptr<sym_engine> xe;
	std::unique_ptr<nbody_extrapolator> xx;
	smem* xbuf = NULL;
	smem* foreign = NULL;
	std::string line;
	auto finish = [&]()
	{
		if(!s) return;
		s.reset();
		ev("end").num("leaked", e->live - 1).flag("foreign", foreign->v.size() == 1 && foreign->v.begin()->first == 999999 && foreign->v.begin()->second == 7).out();
		e->free_buffer(foreign);
		e.reset();
	};
	while(std::getline(std::cin, line))
	{
		std::istringstream in(line);
		std::string cmd;
		in >> cmd;
		if(cmd == "new")
		{
			finish();
			double t0;
			in >> t0;
			e.reset(new sym_engine);
			e->t = t0;
			foreign = static_cast<smem*>(e->create_buffer(48));
			foreign->v.clear();
			foreign->v[999999] = 7;
			s.reset(nbody_create_solver(params(in)));
			if(!s) { ev("refused").out(); e.reset(); continue; }
			s->set_engine(e.get());
			ev("new").str("type", s->type_name()).out();
		}
		else if(cmd == "err")		// error estimates the next norm computations report, then the default
		{
			e->script.clear();
			e->script_pos = 0;
			in >> e->script_default;
			double v;
			while(in >> v) e->script.push_back(v);
		}
		else if(cmd == "errat")		// errat <default> <evaluations> <estimate> ...
		{
			e->script.clear();
			e->err_at.clear();
			in >> e->script_default;
			size_t n;
			double v;
			while(in >> n >> v) e->err_at[n] = v;
		}
		else if(cmd == "residual") e->residual = true;
		else if(cmd == "rebase")	// the state becomes a symbol of its own
		{
			int n;
			in >> n;
			e->y->v.clear();
			e->y->v[n] = 1;
		}
		else if(cmd == "reset") { s->reset(); ev("reset").out(); }
		else if(cmd == "step")
		{
			double dt;
			in >> dt;
			double t0 = e->t;
			size_t s0 = e->step;
			int r0 = e->next_res;
			e->evals.clear(); e->eval_t.clear(); e->norms.clear(); e->norm_at.clear();
			s->advise(dt);
			std::string es("["), ns("["), na("[");
			for(size_t x : e->norm_at) na += (na.size() > 1 ? "," : "") + std::to_string(x);
			size_t en = 0;
			for(auto& x : e->evals) { char tb[40]; snprintf(tb, sizeof tb, "%.17g", (e->eval_t[en++] - t0) / dt); es += (es.size() > 1 ? "," : "") + std::string("{\"id\":") + std::to_string(x.first) + ",\"c\":" + tb + ",\"arg\":" + ltext(x.second) + "}"; }
			for(auto& x : e->norms) ns += (ns.size() > 1 ? "," : "") + ltext(x);
			ev("step").raw("dt", fmt_time(dt)).raw("evals", es + "]").raw("norms", ns + "]").raw("norm_at", na + "]").raw("y", ltext(e->y->v)).raw("t", fmt_time(t0)).num("res", r0)
				.num("steps", (long long)(e->step - s0)).flag("timeok", e->t == t0 + dt).out();
		}
		else if(cmd == "end") finish();
		else if(cmd == "xnew")		// xnew <type> <order> <counts>
		{
			std::string type;
			size_t order, n;
			in >> type >> order;
			std::vector<size_t> counts;
			while(in >> n) counts.push_back(n);
			xx.reset();
			if(xe) xe->free_buffer(xbuf);
			xe.reset(new sym_engine);
			xe->script_default = 0.75;
			xbuf = static_cast<smem*>(xe->create_buffer(48));
			xx.reset(nbody_create_extrapolator(QString::fromStdString(type), xe.get(), order, counts));
			ev("xnew").out();
		}
		else if(cmd == "fill")		// fill <level> <symbol>
		{
			size_t level;
			int sym;
			in >> level >> sym;
			xbuf->v.clear();
			xbuf->v[sym] = 1;
			xx->update_table(level, xbuf);
			ev("fill").flag("kept", xbuf->v.size() == 1 && xbuf->v.begin()->first == sym && xbuf->v.begin()->second == 1).out();
			xbuf->v[sym] = 3;		// the caller goes on using its buffer
		}
		else if(cmd == "ext")
		{
			size_t level;
			in >> level;
			xx->extrapolate(level, xbuf);
			ev("ext").raw("w", ltext(xbuf->v)).out();
			xbuf->v[5] = 3;
		}
		else if(cmd == "est")
		{
			size_t level;
			in >> level;
			xe->norms.clear();
			double r = xx->estimate_error(level);
			ev("est").num("norms", (long long)xe->norms.size()).raw("w", xe->norms.empty() ? "{}" : ltext(xe->norms.back())).flag("value", r == 0.75).flag("unknown", r > 1e300).out();
		}
		else if(cmd == "xend")
		{
			xx.reset();
			xe->free_buffer(xbuf);
			ev("xend").num("leaked", xe->live).out();
			xbuf = NULL;
			xe.reset();
		}
		else if(cmd == "trees")		// trees <file>: one line per tree: number of children, children
		{
			std::string fn;
			in >> fn;
			std::ifstream f(fn);
			g_children.clear();
			int k;
			while(f >> k)
			{
				std::vector<int> c(k);
				for(int& x : c) f >> x;
				g_children.push_back(c);
			}
		}
		else if(cmd == "flow")		// flow <trees> <dt> <steps> params: one or more steps from zero, the state after each
		{
			size_t n, steps;
			double dt;
			in >> n >> dt >> steps;
			tree_engine te(n);
			std::unique_ptr<nbody_solver> ts(nbody_create_solver(params(in)));
			ts->set_engine(&te);
			// expected: y_t(h) = h/|t| * product of y_child(h)
			std::vector<int> size(n);
			for(size_t i = 0; i != n; ++i) { size[i] = 1; for(int c : g_children[i]) size[i] += size[c]; }
			std::vector<double> worst(32, 0);
			for(size_t k = 0; k != steps; ++k)
			{
				te.y->v.assign(n, 0);
				ts->advise(dt);
				std::vector<real> x(n);
				for(size_t i = 0; i != n; ++i)
				{
					real p = real(dt) / size[i];
					for(int c : g_children[i]) p *= x[c];
					x[i] = p;
					double d = double(std::fabs(te.y->v[i] / p - 1));
					if(!(d <= worst[size[i]])) worst[size[i]] = d;
				}
			}
			std::string w("[");
			for(int i = 1; i <= size[n - 1]; ++i) { char b[40]; snprintf(b, sizeof b, "%s%.3g", i > 1 ? "," : "", std::isfinite(worst[i]) ? worst[i] : 1e300); w += b; }
			ev("flow").raw("worst", w + "]").out();
			ts.reset();
		}
	}
	finish();
	return 0;
}
