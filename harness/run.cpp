// nbody_solver::run with a solver that only counts: every event of the run is logged.
// stdin: case <units...>; see checks/c06.py
#include "hcommon.h"
#include <memory>
#include "nbody_engine_simple.h"
#include "nbody_solver.h"
#include "nbody_data_stream.h"
#include "nbody_step_visitor.h"

static double U = 1;			// one twentieth of a step
static nbody_data* gdata = NULL;

struct engine_t : nbody_engine_simple
{
	void clamp(memory* y, nbcoord_t b) override
	{
		ev("clamp").flag("good", y == get_y() && b == nbcoord_t(gdata->get_box_size())).out();
		nbody_engine_simple::clamp(y, b);
	}
};

// positions and velocities of the engine's state carry the step number
static void mark(nbody_engine* e, double k)
{
	std::vector<nbcoord_t> y(e->problem_size(), nbcoord_t(k));
	e->write_buffer(e->get_y(), y.data());
}

struct solver_t : nbody_solver
{
	const char* type_name() const override { return "counting"; }
	void advise(nbcoord_t dt) override
	{
		engine()->advise_time(dt);
		mark(engine(), double(engine()->get_step()));
		ev("advance").num("dt", llround(dt / U)).out();
	}
};

static long long body(const nbody_data* d)
{
	double k = d->get_vertites()[0].x;
	for(size_t i = 0; i != d->get_count(); ++i)
	{
		const nbvertex_t& r(d->get_vertites()[i]);
		const nbvertex_t& v(d->get_velosites()[i]);
		if(r.x != k || r.y != k || r.z != k || v.x != k || v.y != k || v.z != k) return -999;
	}
	return (long long)k;
}

struct visitor_t : nbody_step_visitor
{
	int n;
	explicit visitor_t(int k) : n(k) {}
	void visit(const nbody_data* d) override
	{
		// impulse of count bodies of unit mass with velocity (k, k, k)
		long long stat = llround(d->get_last_total_impulce().x / double(d->get_count()));
		ev("visit").num("v", n).num("body", body(d)).num("step", (long long)d->get_step()).num("stat", stat).out();
	}
};

struct stream_t : nbody_data_stream
{
	int frames, failat;
	stream_t() : frames(0), failat(0) {}
	int write(const nbody_data* d) override
	{
		ev("dump").num("body", body(d)).num("step", (long long)d->get_step()).out();
		return ++frames == failat ? -1 : 0;
	}
};

int main()
{
	qInstallMessageHandler(quiet_messages);
	std::string line;
	while(std::getline(std::cin, line))
	{
		std::istringstream is(line);
		std::string op, dts;
		int t0, runs, visitors, clamp, n;
		is >> op >> dts >> t0 >> n >> visitors >> clamp >> runs;
		double dt = strtod(dts.c_str(), NULL);
		U = dt / 20;
		nbody_data data;
		gdata = &data;
		data.make_universe(4, 50, 50, 50);
		data.resize(size_t(n));
		for(int i = 0; i < n; ++i) data.get_mass()[i] = 1;
		size_t s0 = t0 <= 0 ? 0 : 3;
		data.set_time(t0 * U);
		data.set_step(s0);
		engine_t e;
		if(!e.init(&data)) return 3;
		mark(&e, double(s0));
		// the caller's copy of the bodies is stale from the beginning
		for(int i = 0; i < n; ++i) data.get_vertites()[i] = nbvertex_t(-5, -5, -5);
		solver_t s;
		s.set_engine(&e);
		s.set_time_step(dt / 2, dt);
		s.set_clamp_to_box(clamp);
		for(int v = 1; v <= visitors; ++v) s.add_check_visitor(std::make_shared<visitor_t>(v));
		long long cur = t0;
		for(int r = 0; r < runs; ++r)
		{
			int tmax, dump, chk, stream, failat;
			is >> tmax >> dump >> chk >> stream >> failat;
			stream_t st;
			st.failat = failat;
			ev("begin").num("t0", cur).num("tmax", tmax).num("dump", dump).num("chk", chk).flag("stream", stream).num("visitors", visitors)
				.flag("clamp", clamp).num("failat", failat).num("step", (long long)data.get_step()).out();
			nbvertex_t before(data.get_last_total_impulce());
			// statistics of the run are recognised by the impulse they leave behind
			size_t step0 = data.get_step();
			int rc = s.run(&data, stream ? &st : NULL, tmax * U, dump * U, chk * U);
			nbvertex_t after(data.get_last_total_impulce());
			bool checked = after.x != before.x;
			ev("end").num("rc", rc).num("step", (long long)data.get_step()).flag("checked", checked).out();
			cur += 20 * (long long)(data.get_step() - step0);
		}
	}
	return 0;
}
