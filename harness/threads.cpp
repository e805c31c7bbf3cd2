// Engines and solvers under given threads and schedules: a digest of everything a computation leaves behind.
//  With -DRUNTIME the stand-in OpenMP runtime (omprt.cpp) replays a schedule; without it the real one runs.
//  sched <threads> <log> <k> <choice>*k
//  case <key> <what> <bodies> <seed> <kind> : <engine and solver parameters>
#include "hcommon.h"
#include "nbody_engines.h"
#include "nbody_solvers.h"
#include "nbody_data_stream.h"
#include <memory>
#include <exception>
#ifdef RUNTIME
#include "omprt.h"
#else
#include <omp.h>
#endif

static int g_threads = 1;

struct digest
{
	uint64_t h;
	digest() : h(1469598103934665603ull) {}
	void add(const void* p, size_t n) { const unsigned char* c = static_cast<const unsigned char*>(p); for(size_t i = 0; i != n; ++i) { h ^= c[i]; h *= 1099511628211ull; } }
	std::string text() const { char b[24]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return b; }
};

static QVariantMap params(std::istringstream& in)
{
	QVariantMap p;
	std::string w;
	while(in >> w)
	{
		if(w == ":") continue;
		size_t e = w.find('=');
		p[QString::fromStdString(w.substr(0, e))] = QString::fromStdString(w.substr(e + 1));
	}
	return p;
}

static void scene(nbody_data& d, size_t n, mix& m, int kind)
{
	d.set_box_size(10);
	for(size_t i = 0; i != n; ++i)
	{
		nbvertex_t r(20 * m.uni() - 10, 20 * m.uni() - 10, 20 * m.uni() - 10);
		if(kind == 1) r = nbvertex_t(double(i % 7) - 3, double((i / 7) % 5) - 2, double(m.next() % 3) - 1);        // many equal coordinates
		if(kind == 2) r = r * (i % 3 ? 0.01 : 1.0) + nbvertex_t(i % 3, 0, 0);
		nbvertex_t v(m.uni() - 0.5, m.uni() - 0.5, m.uni() - 0.5);
		d.add_body(r, v, 0.1 + m.uni(), nbcolor_t(), 0.1);
	}
}

static void add_buffer(digest& g, nbody_engine* e, const nbody_engine::memory* b)
{
	std::vector<nbcoord_t> v(b->size() / sizeof(nbcoord_t));
	e->read_buffer(v.data(), b);
	g.add(v.data(), b->size());
}

static void force(digest& g, nbody_engine* e, mix& m)
{
	size_t bytes = e->problem_size() * sizeof(nbcoord_t);
	nbody_engine::memory* f = e->create_buffer(bytes);
	nbody_engine::memory* y = e->create_buffer(bytes);
	e->copy_buffer(y, e->get_y());
	for(int k = 0; k != 3; ++k)
	{
		e->fcompute(0.1 * k, y, f);
		add_buffer(g, e, f);
		e->fmadd_inplace(y, f, 1e-3 * (1 + m.uni()));
		e->advise_time(0.1);
	}
	e->free_buffer(f);
	e->free_buffer(y);
}

static void vec(digest& g, nbody_engine* e, mix& m)
{
	size_t n = e->problem_size(), bytes = n * sizeof(nbcoord_t);
	nbody_engine::memory_array b(e->create_buffers(bytes, 5));
	std::vector<nbcoord_t> v(n);
	for(auto& x : b)
	{
		for(auto& q : v) q = 2 * m.uni() - 1;
		e->write_buffer(x, v.data());
	}
	nbcoord_t c[3] = {m.uni(), -m.uni(), 0.5};
	nbody_engine::memory_array l{b[1], b[2], b[3]};
	e->fmadd_inplace(b[0], b[1], 0.3);			add_buffer(g, e, b[0]);
	e->fmadd(b[4], b[0], b[2], -1.7);			add_buffer(g, e, b[4]);
	e->fmaddn_inplace(b[0], l, c, 3);			add_buffer(g, e, b[0]);
	e->fmaddn(b[4], b[0], l, c, 3);				add_buffer(g, e, b[4]);
	e->fmaddn(b[4], nullptr, l, c, 2);			add_buffer(g, e, b[4]);
	e->fmaddn_corr(b[0], b[4], l, c, 3);		add_buffer(g, e, b[0]); add_buffer(g, e, b[4]);
	nbcoord_t top = 0;
	for(auto& x : b) { e->fmaxabs(x, top); g.add(&top, sizeof top); }
	e->copy_buffer(b[2], b[0]);					add_buffer(g, e, b[2]);
	e->fmadd_inplace(b[2], b[3], 100);
	e->clamp(b[2], 10);							add_buffer(g, e, b[2]);
	e->fill_buffer(b[1], 0.25);					add_buffer(g, e, b[1]);
	e->free_buffers(b);
}

static void run(digest& g, nbody_data& d, nbody_engine* e, const QVariantMap& p)
{
	std::unique_ptr<nbody_solver> s(nbody_create_solver(p));
	if(!s) throw std::runtime_error("no solver");
	s->set_time_step(1e-4, 0.01);
	s->set_engine(e);
	s->set_clamp_to_box(true);
	s->run(&d, nullptr, 0.07, 0, 0);
	e->get_data(&d);
	g.add(d.get_vertites(), sizeof(nbvertex_t) * d.get_count());
	g.add(d.get_velosites(), sizeof(nbvertex_t) * d.get_count());
	double t = d.get_time();
	g.add(&t, sizeof t);
}

int main()
{
	qInstallMessageHandler(quiet_messages);
	std::string line;
	bool log = false;
	std::vector<unsigned> ch;
	while(std::getline(std::cin, line))
	{
		std::istringstream in(line);
		std::string cmd;
		in >> cmd;
		if(cmd == "sched")
		{
			size_t k;
			in >> g_threads >> log >> k;
			ch.resize(k);
			for(auto& c : ch) in >> c;
		}
		else if(cmd == "case")
		{
			std::string key, what;
			size_t n;
			uint64_t seed;
			int kind;
			in >> key >> what >> n >> seed >> kind;
			QVariantMap p(params(in));
			mix m(seed);
			nbody_data d;
			scene(d, n, m, kind);
			d.set_step(2);
#ifdef RUNTIME
			omprt_set(g_threads, ch, log);
			int before = omprt_reports;
#else
			omp_set_num_threads(g_threads);
#endif
			std::unique_ptr<nbody_engine> e(nbody_create_engine(p));
			if(!e || !e->init(&d)) { ev("error").str("key", key).out(); return 3; }
			digest g;
			if(what == "force") force(g, e.get(), m);
			if(what == "vec") vec(g, e.get(), m);
			if(what == "run") run(g, d, e.get(), p);
			e.reset();
			ev r("case");
			r.str("key", key).str("digest", g.text()).num("threads", g_threads);
#ifdef RUNTIME
			for(auto& s : omprt_events()) { fputs(s.c_str(), stdout); fputc('\n', stdout); }
			r.num("races", omprt_reports - before).num("moves", omprt_moves());
#else
			r.num("races", 0).num("moves", 0);
#endif
			r.out();
		}
	}
	return 0;
}
