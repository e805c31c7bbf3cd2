// Lives of the users of an engine, and what they leave behind.
//  The engine handed to a solver is a stand-in that passes every call on to a real engine and logs which buffers are taken, used and given back.
#include "hcommon.h"
#include "nbody_engines.h"
#include "nbody_solvers.h"
#include "nbody_extrapolator.h"
#include "nbody_data_stream.h"
#include "nbody_data_stream_reader.h"
#include <QVariantMap>
#include <dirent.h>
#include <dlfcn.h>
#include <malloc.h>
#include <memory>
#include <set>
#define CL_TARGET_OPENCL_VERSION 120
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#include <CL/cl.h>

// ---- amounts -------------------------------------------------------------------------------------------------
static long g_cl[6];	// memory objects, kernels, queues, contexts, programs, events
#define NEXT(f) static decltype(&f) real = (decltype(&f))dlsym(RTLD_NEXT, #f)
static void count_event(cl_event* e, cl_int r) { if(e && r == CL_SUCCESS) ++g_cl[5]; }
extern "C" {
cl_mem clCreateBuffer(cl_context c, cl_mem_flags f, size_t s, void* p, cl_int* r) { NEXT(clCreateBuffer); cl_mem m = real(c, f, s, p, r); if(m) ++g_cl[0]; return m; }
cl_int clRetainMemObject(cl_mem m) { NEXT(clRetainMemObject); ++g_cl[0]; return real(m); }
cl_int clReleaseMemObject(cl_mem m) { NEXT(clReleaseMemObject); --g_cl[0]; return real(m); }
cl_kernel clCreateKernel(cl_program p, const char* n, cl_int* r) { NEXT(clCreateKernel); cl_kernel k = real(p, n, r); if(k) ++g_cl[1]; return k; }
cl_int clRetainKernel(cl_kernel k) { NEXT(clRetainKernel); ++g_cl[1]; return real(k); }
cl_int clReleaseKernel(cl_kernel k) { NEXT(clReleaseKernel); --g_cl[1]; return real(k); }
cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties p, cl_int* r) { NEXT(clCreateCommandQueue); cl_command_queue q = real(c, d, p, r); if(q) ++g_cl[2]; return q; }
cl_int clRetainCommandQueue(cl_command_queue q) { NEXT(clRetainCommandQueue); ++g_cl[2]; return real(q); }
cl_int clReleaseCommandQueue(cl_command_queue q) { NEXT(clReleaseCommandQueue); --g_cl[2]; return real(q); }
cl_context clCreateContext(const cl_context_properties* p, cl_uint n, const cl_device_id* d, void (CL_CALLBACK* f)(const char*, const void*, size_t, void*), void* u, cl_int* r) { NEXT(clCreateContext); cl_context c = real(p, n, d, f, u, r); if(c) ++g_cl[3]; return c; }
cl_int clRetainContext(cl_context c) { NEXT(clRetainContext); ++g_cl[3]; return real(c); }
cl_int clReleaseContext(cl_context c) { NEXT(clReleaseContext); --g_cl[3]; return real(c); }
cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char** s, const size_t* l, cl_int* r) { NEXT(clCreateProgramWithSource); cl_program p = real(c, n, s, l, r); if(p) ++g_cl[4]; return p; }
cl_int clRetainProgram(cl_program p) { NEXT(clRetainProgram); ++g_cl[4]; return real(p); }
cl_int clReleaseProgram(cl_program p) { NEXT(clReleaseProgram); --g_cl[4]; return real(p); }
cl_int clRetainEvent(cl_event e) { NEXT(clRetainEvent); ++g_cl[5]; return real(e); }
cl_int clReleaseEvent(cl_event e) { NEXT(clReleaseEvent); --g_cl[5]; return real(e); }
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint d, const size_t* o, const size_t* g, const size_t* l, cl_uint n, const cl_event* w, cl_event* e)
{ NEXT(clEnqueueNDRangeKernel); cl_int r = real(q, k, d, o, g, l, n, w, e); count_event(e, r); return r; }
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool b, size_t o, size_t s, void* p, cl_uint n, const cl_event* w, cl_event* e)
{ NEXT(clEnqueueReadBuffer); cl_int r = real(q, m, b, o, s, p, n, w, e); count_event(e, r); return r; }
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool b, size_t o, size_t s, const void* p, cl_uint n, const cl_event* w, cl_event* e)
{ NEXT(clEnqueueWriteBuffer); cl_int r = real(q, m, b, o, s, p, n, w, e); count_event(e, r); return r; }
cl_int clEnqueueCopyBuffer(cl_command_queue q, cl_mem a, cl_mem c, size_t o, size_t p, size_t s, cl_uint n, const cl_event* w, cl_event* e)
{ NEXT(clEnqueueCopyBuffer); cl_int r = real(q, a, c, o, p, s, n, w, e); count_event(e, r); return r; }
cl_int clEnqueueFillBuffer(cl_command_queue q, cl_mem m, const void* p, size_t ps, size_t o, size_t s, cl_uint n, const cl_event* w, cl_event* e)
{ NEXT(clEnqueueFillBuffer); cl_int r = real(q, m, p, ps, o, s, n, w, e); count_event(e, r); return r; }
cl_int clEnqueueCopyBufferRect(cl_command_queue q, cl_mem a, cl_mem c, const size_t* o, const size_t* p, const size_t* g, size_t x1, size_t x2, size_t x3, size_t x4, cl_uint n, const cl_event* w, cl_event* e)
{ NEXT(clEnqueueCopyBufferRect); cl_int r = real(q, a, c, o, p, g, x1, x2, x3, x4, n, w, e); count_event(e, r); return r; }
cl_int clEnqueueReadBufferRect(cl_command_queue q, cl_mem a, cl_bool b, const size_t* o, const size_t* p, const size_t* g, size_t x1, size_t x2, size_t x3, size_t x4, void* d, cl_uint n, const cl_event* w, cl_event* e)
{ NEXT(clEnqueueReadBufferRect); cl_int r = real(q, a, b, o, p, g, x1, x2, x3, x4, d, n, w, e); count_event(e, r); return r; }
#ifdef __SANITIZE_ADDRESS__
size_t __sanitizer_get_current_allocated_bytes(void);
#endif
}
static long bytes()
{
#ifdef __SANITIZE_ADDRESS__
	return long(__sanitizer_get_current_allocated_bytes());
#else
	return 0;		// next to a device the driver's own memory says nothing
#endif
}
static long files()
{
	long n = 0;
	DIR* d = opendir("/proc/self/fd");
	while(readdir(d)) ++n;
	closedir(d);
	return n;
}
typedef std::vector<std::vector<long>> amounts;		// per kind of resource, the amounts in order
static void note(amounts& a)
{
	long now[8];
	now[0] = bytes(); now[1] = files();
	for(int i = 0; i != 6; ++i) now[2 + i] = g_cl[i];
	for(int i = 0; i != 8; ++i) a[i].push_back(now[i]);
}
static amounts fresh(size_t room = 8) { amounts a(8); for(auto& v : a) v.reserve(room); return a; }
static void out(const amounts& a, const char* of)
{
	std::string s("[");
	for(auto& v : a) { s += s.size() > 1 ? ",[" : "["; for(size_t i = 0; i != v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); s += "]"; }
	ev("amounts").str("of", of).raw("v", s + "]").out();
}

// ---- the log of buffers --------------------------------------------------------------------------------------
static bool g_log = false;
static std::map<const void*, int>* g_ids;
static int g_next = 1;
static char g_kind = 0;
static std::vector<int>* g_pending;
static void flush_ids()
{
	if(g_kind && g_log)
	{
		std::string s("[");
		for(int i : *g_pending) s += (s.size() > 1 ? "," : "") + std::to_string(i);
		ev(g_kind == 't' ? "take" : g_kind == 'g' ? "give" : g_kind == 'l' ? "lend" : "use").raw("ids", s + "]").out();
	}
	g_kind = 0;
	g_pending->clear();
}
static void put(char kind, int id)
{
	if(!g_log) return;
	if(g_kind != kind) { flush_ids(); g_kind = kind; }
	if(kind == 'u') for(int i : *g_pending) if(i == id) return;
	g_pending->push_back(id);
}
static void mark(const ev& e) { if(g_log) { flush_ids(); e.out(); } }

struct watch : public nbody_engine
{
	nbody_engine* e;
	long refuse_at = -1, made = 0, held = 0;
	explicit watch(nbody_engine* x) : e(x) {}
	int id(const memory* m) { auto i = g_ids->find(m); return i == g_ids->end() ? -1 : i->second; }
	void u(const memory* m) { if(g_log && m) put('u', id(m)); }
	const char* type_name() const override { return e->type_name(); }
	bool init(nbody_data* d) override { return e->init(d); }
	void get_data(nbody_data* d) override { e->get_data(d); }
	size_t problem_size() const override { return e->problem_size(); }
	memory* get_y() override
	{
		memory* y = e->get_y();
		if(g_log && id(y) < 0) { (*g_ids)[y] = g_next++; put('l', id(y)); }
		return y;
	}
	void advise_time(const nbcoord_t& dt) override { e->advise_time(dt); }
	nbcoord_t get_time() const override { return e->get_time(); }
	void set_time(nbcoord_t t) override { e->set_time(t); }
	size_t get_step() const override { return e->get_step(); }
	void set_step(size_t s) override { e->set_step(s); }
	void fcompute(const nbcoord_t& t, const memory* y, memory* f) override { u(y); u(f); e->fcompute(t, y, f); }
	void clamp(memory* y, nbcoord_t b) override { u(y); e->clamp(y, b); }
	memory* create_buffer(size_t s) override
	{
		if(refuse_at >= 0 && made == refuse_at) return nullptr;
		memory* m = e->create_buffer(s);
		++made; ++held;
		if(g_log) { (*g_ids)[m] = g_next++; put('t', id(m)); }
		return m;
	}
	void free_buffer(memory* m) override
	{
		if(m) --held;
		if(m && g_log) { put('g', id(m)); g_ids->erase(m); }
		e->free_buffer(m);
	}
	void read_buffer(void* d, const memory* s) override { u(s); e->read_buffer(d, s); }
	void write_buffer(memory* d, const void* s) override { u(d); e->write_buffer(d, s); }
	void copy_buffer(memory* a, const memory* b) override { u(a); u(b); e->copy_buffer(a, b); }
	void fill_buffer(memory* a, const nbcoord_t& v) override { u(a); e->fill_buffer(a, v); }
	void fmadd_inplace(memory* a, const memory* b, const nbcoord_t& c) override { u(a); u(b); e->fmadd_inplace(a, b, c); }
	void fmadd(memory* a, const memory* b, const memory* c, const nbcoord_t& d) override { u(a); u(b); u(c); e->fmadd(a, b, c, d); }
	void all(const memory_array& b, size_t n) { for(size_t i = 0; i != n && i < b.size(); ++i) u(b[i]); }
	void fmaddn_inplace(memory* a, const memory_array& b, const nbcoord_t* c, size_t n) override { u(a); all(b, n); e->fmaddn_inplace(a, b, c, n); }
	void fmaddn_corr(memory* a, memory* k, const memory_array& b, const nbcoord_t* c, size_t n) override { u(a); u(k); all(b, n); e->fmaddn_corr(a, k, b, c, n); }
	void fmaddn(memory* a, const memory* b, const memory_array& c, const nbcoord_t* d, size_t n) override { u(a); u(b); all(c, n); e->fmaddn(a, b, c, d, n); }
	void fmaxabs(const memory* a, nbcoord_t& r) override { u(a); e->fmaxabs(a, r); }
};

static QVariantMap params(std::istream& in)
{
	QVariantMap p;
	std::string w;
	while(in >> w)
	{
		size_t k = w.find('=');
		if(k != std::string::npos) p[QString::fromStdString(w.substr(0, k))] = QString::fromStdString(w.substr(k + 1));
	}
	return p;
}
static void bodies(nbody_data& d, size_t n)
{
	mix m(n + 77);
	for(size_t i = 0; i != n; ++i)
		d.add_body(nbvertex_t(m.uni() * 20, m.uni() * 20, m.uni() * 20), nbvertex_t(m.uni(), m.uni(), m.uni()), 1 + m.uni(), nbcolor_t(1, 1, 1, 1), 0.1);
	d.set_box_size(100);
}

// a solver's life: hist over A(ttach) s S r; every life ends. The part after A is repeated from the same state.
static void solver_life(const std::string& hist, size_t n, const QVariantMap& p, bool log, amounts* rounds)
{
	nbody_data d;
	bodies(d, n);
	std::unique_ptr<nbody_engine> real(nbody_create_engine(p));
	if(!real || !real->init(&d)) { fprintf(stderr, "no engine\n"); exit(3); }
	std::unique_ptr<watch> w(new watch(real.get()));
	g_log = log;
	g_ids->clear();
	g_next = 1;
	mark(ev("new"));
	std::unique_ptr<nbody_solver> s(nbody_create_solver(p));
	if(!s) { fprintf(stderr, "no solver\n"); exit(3); }
	size_t at = hist.find('A');
	auto call = [&](char c)
	{
		if(c == 'r') { mark(ev("call").str("k", "reset")); s->reset(); }
		else { mark(ev("call").str("k", "step")); s->advise(c == 's' ? 0.01 : 0.03); }
	};
	for(size_t i = 0; i < (at == std::string::npos ? hist.size() : at); ++i) call(hist[i]);
	if(at != std::string::npos)
	{
		mark(ev("attach"));
		s->set_engine(w.get());
		std::vector<double> y(real->problem_size());
		real->read_buffer(y.data(), real->get_y());
		for(int r = 0; r != 4; ++r)
		{
			for(size_t i = at + 1; i != hist.size(); ++i) call(hist[i]);
			if(hist.size() == at + 1) break;
			if(rounds) note(*rounds);
			mark(ev("round"));
			s->reset();
			real->write_buffer(real->get_y(), y.data());
			real->set_time(0);
			real->set_step(0);
		}
	}
	s.reset();
	mark(ev("end"));
	g_log = false;
}
// an engine's life without a solver: f(orce) t(ake) g(ive the oldest) G(ive the newest) m(any taken and given) x(read, write) d(ata)
static void engine_life(const std::string& hist, size_t n, const QVariantMap& p, amounts* rounds)
{
	nbody_data d;
	bodies(d, n);
	std::unique_ptr<nbody_engine> e(nbody_create_engine(p));
	if(!e || !e->init(&d)) { fprintf(stderr, "no engine\n"); exit(3); }
	size_t size = sizeof(nbcoord_t) * e->problem_size();
	std::vector<double> y(e->problem_size());
	e->read_buffer(y.data(), e->get_y());
	for(int r = 0; r != 4; ++r)
	{
		std::vector<nbody_engine::memory*> b;
		b.reserve(hist.size() + 1);
		b.push_back(e->create_buffer(size));
		double v = 0;
		for(char c : hist)
		{
			if(c == 'f') { e->fcompute(0, e->get_y(), b[0]); e->fmadd_inplace(e->get_y(), b[0], 1e-3); e->set_step(e->get_step() + 1); }
			else if(c == 't') b.push_back(e->create_buffer(size));
			else if(c == 'g' && b.size() > 1) { e->free_buffer(b[1]); b.erase(b.begin() + 1); }
			else if(c == 'G' && b.size() > 1) { e->free_buffer(b.back()); b.pop_back(); }
			else if(c == 'm') { nbody_engine::memory_array a(e->create_buffers(size, 3)); std::vector<double> k(3, 0.5); for(auto q : a) e->fill_buffer(q, 1); e->fmaddn_inplace(b[0], a, k.data(), 3); e->fmaddn_corr(b[0], a[2], nbody_engine::memory_array(a.begin(), a.begin() + 2), k.data(), 2); e->free_buffers(a); }
			else if(c == 'x') { std::vector<double> q(y); e->write_buffer(b[0], q.data()); e->copy_buffer(b.back(), e->get_y()); e->fmaxabs(b[0], v); e->read_buffer(q.data(), b.back()); e->clamp(b[0], 5); }
			else if(c == 'd') { nbody_data o; o.resize(n); e->get_data(&o); e->free_buffer(nullptr); }
		}
		for(auto q : b) e->free_buffer(q);
		e->write_buffer(e->get_y(), y.data());
		e->set_step(0);
		if(rounds) note(*rounds);
	}
}
static void table_life(const QString& type, size_t levels, const std::string& hist, const QVariantMap& p, bool log)
{
	nbody_data d;
	bodies(d, 4);
	std::unique_ptr<nbody_engine> real(nbody_create_engine(p));
	if(!real || !real->init(&d)) exit(3);
	std::unique_ptr<watch> w(new watch(real.get()));
	g_log = log;
	g_ids->clear();
	g_next = 1;
	mark(ev("new"));
	mark(ev("attach"));
	std::vector<size_t> c;
	for(size_t i = 0; i != levels; ++i) c.push_back(2 * (i + 1));
	std::unique_ptr<nbody_extrapolator> x(nbody_create_extrapolator(type, w.get(), 2, c));
	size_t k = 0;
	for(char h : hist)
	{
		if(h == 'u') { mark(ev("call").str("k", "update")); x->update_table(k, w->get_y()); k = (k + 1) % levels; }
		else if(h == '0') k = 0;
		else if(k > 0 && h == 'e') { mark(ev("call").str("k", "estimate")); x->estimate_error(k - 1); }
		else if(k > 0) { mark(ev("call").str("k", "extrapolate")); x->extrapolate(k - 1, w->get_y()); }
	}
	x.reset();
	mark(ev("end"));
	g_log = false;
}
// a stream's life: o(pen) O(pen where nothing can be) w(rite) c(lose); then a reader: l(oad) L(oad nothing) s(eek) S(eek past) r(ead) C(lose)
static void stream_life(const std::string& hist, size_t n, const QString& dir)
{
	nbody_data d, back;
	bodies(d, n);
	back.resize(n);
	{
		nbody_data_stream w;
		nbody_data_stream_reader r;
		for(char c : hist)
		{
			if(c == 'o') w.open(dir + "/life", 2000);
			else if(c == 'O') w.open("/proc/none/none", 2000);
			else if(c == 'w') { d.advise_time(0.1); w.write(&d); }
			else if(c == 'c') w.close();
			else if(c == 'l') r.load(dir + "/life");
			else if(c == 'L') r.load(dir + "/nothing");
			else if(c == 's') r.seek(1);
			else if(c == 'S') r.seek(100000);
			else if(c == 'r') r.read(&back);
			else if(c == 'C') r.close();
		}
	}
	QDir q(dir);
	for(const QString& f : q.entryList(QDir::Files)) q.remove(f);
}
static void run_life(size_t n, double time, const QVariantMap& p, const QString& dir)
{
	nbody_data d;
	bodies(d, n);
	{
		std::unique_ptr<nbody_engine> e(nbody_create_engine(p));
		if(!e || !e->init(&d)) exit(3);
		std::unique_ptr<nbody_solver> s(nbody_create_solver(p));
		if(!s) exit(3);
		s->set_engine(e.get());
		d.set_check_list("PLVE");
		nbody_data_stream w;
		if(w.open(dir + "/life", 3000) != 0) exit(3);
		s->run(&d, &w, time, 0.02, 0.05);
	}
	QDir q(dir);
	for(const QString& f : q.entryList(QDir::Files)) q.remove(f);
}

int main(int argc, char** argv)
{
	qInstallMessageHandler(quiet_messages);
	if(argc < 2) return 2;
	const QString dir(argv[1]);
	g_ids = new std::map<const void*, int>;
	g_pending = new std::vector<int>;
	g_pending->reserve(4096);
	std::string line;
	while(std::getline(std::cin, line))
	{
		std::istringstream in(line);
		std::string cmd, hist;
		size_t n;
		in >> cmd;
		amounts left(fresh()), rounds(fresh());
		if(cmd == "solver" || cmd == "engine" || cmd == "table" || cmd == "stream" || cmd == "run")
		{
			std::string type;
			double time = 0;
			if(cmd == "table") in >> type;
			if(cmd == "run") in >> time; else in >> hist;
			in >> n;
			if(hist == "-") hist.clear();
			QVariantMap p(params(in));
			for(int k = 0; k != 4; ++k)
			{
				// messages and logs of the first life only; the lives after it do the same
				if(cmd == "solver") solver_life(hist, n, p, k == 0, k == 1 ? &rounds : nullptr);
				else if(cmd == "engine") engine_life(hist, n, p, k == 1 ? &rounds : nullptr);
				else if(cmd == "table") table_life(QString::fromStdString(type), n, hist, p, k == 0);
				else if(cmd == "stream") stream_life(hist, n, dir);
				else run_life(n, time, p, dir);
				g_ids->clear();
				note(left);
			}
			if(cmd == "engine" || cmd == "stream" || cmd == "run") ev("new").out();
			out(rounds, "repeated work");
			out(left, "repeated lives");
		}
		else if(cmd == "bare")		// engines that are ended before they hold anything
		{
			QVariantMap p(params(in));
			for(int k = 0; k != 4; ++k)
			{
				{ std::unique_ptr<nbody_engine> e(nbody_create_engine(p)); if(!e) return 3; }
				note(left);
			}
			ev("new").out();
			out(left, "repeated lives");
		}
		else if(cmd == "several")		// several <wanted> <refused at, -1: never> : params
		{
			long wanted, at;
			in >> wanted >> at;
			QVariantMap p(params(in));
			nbody_data d;
			bodies(d, 4);
			std::unique_ptr<nbody_engine> real(nbody_create_engine(p));
			if(!real || !real->init(&d)) return 3;
			watch w(real.get());
			w.refuse_at = at;
			nbody_engine::memory_array a(w.create_buffers(64, size_t(wanted)));
			ev("new").out();
			ev("several").num("wanted", wanted).num("got", long(a.size())).flag("refused", at >= 0 && at < wanted).num("held", w.held).out();
			w.free_buffers(a);
			ev("several").num("wanted", 0).num("got", long(a.size())).flag("refused", true).num("held", w.held).out();
		}
		else return 2;
	}
	return 0;
}
