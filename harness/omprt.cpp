// A stand-in for the OpenMP runtime (the entry points gcc calls), under which every thread of a team and every explicit
// task is a fibre of one process thread, and a given list of numbers - a behaviour of the specification - decides at each
// scheduling point which thread goes on and which waiting task a free thread takes up.  ThreadSanitizer is told
// only of the orderings OpenMP promises (fork, join, task creation, taskwait, barrier, critical, work done by one thread),
// so that it reports a race for any two accesses OpenMP leaves unordered, whatever the order in which they happened.
// This file is compiled without -fsanitize=thread.
#include "omprt.h"
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <ctime>
#include <string>
#include <deque>
#include <map>
#include <set>

extern "C"
{
void* __tsan_get_current_fiber();
void* __tsan_create_fiber(unsigned);
void __tsan_switch_to_fiber(void*, unsigned);
void __tsan_destroy_fiber(void*);
void __tsan_acquire(void*);
void __tsan_release(void*);
void AnnotateIgnoreWritesBegin(const char*, int);
void AnnotateIgnoreWritesEnd(const char*, int);
}

namespace
{
typedef void (*body_fn)(void*);
// this runtime's own bookkeeping is not part of the program (memory it takes or returns is not looked at)
struct quiet { quiet() { AnnotateIgnoreWritesBegin("", 0); } ~quiet() { AnnotateIgnoreWritesEnd("", 0); } };
const size_t STACK = 1 << 20;

struct team;
struct task;
struct worker { int num; std::deque<task*> stack; char* token; };           // a thread of the team: its suspended tasks, innermost last
enum state { pending, ready, waiting, at_barrier, done };
struct task
{
	int id; task* parent; team* tm; worker* w; state st; body_fn fn; void* data; bool own_data; bool implicit; bool creating;
	std::set<task*> live;                       // children not done
	ucontext_t ctx; void* stack; void* fiber;
	char token[3];                              // creation, end of children, end of group
	std::deque<std::set<task*>> groups; std::set<task*>* wait_group;
	int shares;                                 // work-sharing constructs met so far
};
struct share { long long next, end, incr, chunk; bool up; bool taken; int left; unsigned long long unext, uend, uincr; bool set; };
struct team
{
	int size; std::deque<worker> workers; std::deque<task*> all; std::deque<task*> queue; std::map<int, share> shares; char token[2]; int arrived; int running;
	ucontext_t sched; task* next; void* caller_fiber; int ids;
};
task* cur = nullptr;
int g_threads = 4;
std::vector<unsigned> g_choices;
size_t g_pos = 0;
long g_moves = 0;
bool g_log = false;
std::vector<std::string> g_events;

unsigned choice(unsigned n)
{
	if(n < 2) return 0;
	unsigned c = g_choices.empty() ? 0 : g_choices[g_pos++ % g_choices.size()];
	return c % n;
}
void note(const char* what, int thread, int id, int other = -1, int construct = 0)
{
	++g_moves;
	if(!g_log) return;
	quiet q;
	char b[160];
	if(other >= 0) snprintf(b, sizeof b, "{\"e\":\"%s\",\"t\":%d,\"k\":%d,\"p\":%d,\"s\":%d}", what, thread, id, other, construct);
	else snprintf(b, sizeof b, "{\"e\":\"%s\",\"t\":%d,\"k\":%d}", what, thread, id);
	g_events.push_back(b);
}

task* make(team* tm, task* parent, body_fn fn, void* data, bool implicit)
{
	quiet q;
	task* k = new task();
	k->id = tm->ids++; k->parent = parent; k->tm = tm; k->w = nullptr; k->st = pending; k->fn = fn; k->data = data;
	k->own_data = false; k->implicit = implicit; k->creating = false; k->stack = nullptr; k->fiber = nullptr; k->wait_group = nullptr; k->shares = 0;
	tm->all.push_back(k);
	return k;
}

// back to the scheduler; continues when it picks this task again
void yield()
{
	task* me = cur;
	__tsan_release(me->w->token);
	__tsan_switch_to_fiber(me->tm->caller_fiber, 1);
	swapcontext(&me->ctx, &me->tm->sched);
	cur = me;
	__tsan_acquire(me->w->token);
}

void finish(task* me)
{
	team* tm = me->tm;
	if(me->implicit) note("done", me->w->num, me->id);
	else note("end", me->w->num, me->id);
	__tsan_release(&tm->token[1]);
	__tsan_release(me->w->token);
	quiet q;
	if(!me->implicit)
	{
		if(me->parent)
		{
			__tsan_release(&me->parent->token[1]);
			me->parent->live.erase(me);
		}
		for(task* p = me->parent; p; p = p->parent) for(auto& g : p->groups) if(g.erase(me)) __tsan_release(&p->token[2]);
	}
	me->st = done;
	me->w->stack.pop_back();
}

void entry()
{
	task* me = cur;
	__tsan_acquire(&me->token[0]);
	__tsan_acquire(me->w->token);
	me->fn(me->data);
	if(me->implicit)
	{
		// the end of the region is a barrier: the thread is free to take up tasks
		me->st = at_barrier;
		__tsan_release(&me->tm->token[0]);
		++me->tm->arrived;
		note("arrive", me->w->num, me->id);
		yield();
	}
	finish(me);
	__tsan_switch_to_fiber(me->tm->caller_fiber, 1);
	setcontext(&me->tm->sched);
}

void begin(task* k, worker* w)
{
	quiet q;
	k->w = w;
	w->stack.push_back(k);
	k->st = ready;
	k->stack = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	getcontext(&k->ctx);
	k->ctx.uc_stack.ss_sp = k->stack;
	k->ctx.uc_stack.ss_size = STACK;
	k->ctx.uc_link = nullptr;
	makecontext(&k->ctx, entry, 0);
	k->fiber = __tsan_create_fiber(0);
}

void go(task* k)
{
	team* tm = k->tm;
	cur = k;
	k->creating = false;
	__tsan_switch_to_fiber(k->fiber, 1);
	swapcontext(&tm->sched, &k->ctx);
	if(k->st == done)
	{
		quiet q;
		__tsan_destroy_fiber(k->fiber);
		munmap(k->stack, STACK);
		if(k->own_data) free(k->data);
		k->stack = nullptr;
	}
}

struct move { worker* w; task* k; bool start; };

bool barrier_open(team* tm)
{
	if(tm->arrived != tm->size) return false;
	for(task* k : tm->all) if(!k->implicit && k->st != done) return false;
	return true;
}

void schedule(team* tm)
{
	for(;;)
	{
		move m;
		{
		quiet q;
		if(barrier_open(tm))
		{
			tm->arrived = 0;
			note("open", 0, 0);
			for(worker& w : tm->workers) if(!w.stack.empty() && w.stack.back()->st == at_barrier) { w.stack.back()->st = ready; }
			for(auto i = tm->all.begin(); i != tm->all.end();) if((*i)->st == done && !(*i)->implicit) { delete *i; i = tm->all.erase(i); } else ++i;
		}
		std::vector<move> mv;
		bool alive = false;
		for(worker& w : tm->workers)
		{
			if(w.stack.empty()) continue;
			alive = true;
			task* top = w.stack.back();
			if(top->st == waiting && (top->wait_group ? top->wait_group->empty() : top->live.empty())) top->st = ready;
			if(top->st == ready) mv.push_back(move{&w, top, false});
			if(top->st == waiting || (top->st == ready && top->creating))
				for(task* k : tm->queue) if(k->parent == top) mv.push_back(move{&w, k, true});
			if(top->st == at_barrier)
				for(task* k : tm->queue) mv.push_back(move{&w, k, true});
		}
		if(!alive) return;
		if(mv.empty()) { fprintf(stderr, "omprt: every thread waits\n"); _exit(70); }
		m = mv[choice(unsigned(mv.size()))];
		if(m.start)
		{
			for(auto i = tm->queue.begin(); i != tm->queue.end(); ++i) if(*i == m.k) { tm->queue.erase(i); break; }
			note("start", m.w->num, m.k->id);
			begin(m.k, m.w);
		}
		}
		go(m.k);
	}
}

void parallel(body_fn fn, void* data, unsigned num_threads, const share* ws)
{
	task* caller = cur;
	team* tm;
	{ quiet q; tm = new team(); }
	tm->size = caller ? 1 : int(num_threads ? num_threads : unsigned(g_threads));          // nested regions have a team of one
	tm->arrived = 0; tm->ids = 0;
	tm->caller_fiber = __tsan_get_current_fiber();
	if(ws) { quiet q; share s = *ws; s.left = tm->size; tm->shares[0] = s; }
	bool logged = g_log;
	if(caller) g_log = false;
	note("fork", tm->size, 0);
	__tsan_release(&tm->token[0]);
	for(int i = 0; i != tm->size; ++i)
	{
		{ quiet q; tm->workers.push_back(worker()); tm->workers.back().token = new char[1]; }
		worker& w = tm->workers.back();
		w.num = i;
		task* k = make(tm, nullptr, fn, data, true);
		__tsan_release(&k->token[0]);
		if(ws) k->shares = 0;
		begin(k, &w);
	}
	schedule(tm);
	cur = caller;
	__tsan_acquire(&tm->token[0]);
	__tsan_acquire(&tm->token[1]);
	note("join", tm->size, 0);
	g_log = logged;
	for(worker& w : tm->workers) __tsan_acquire(w.token);
	quiet q;
	for(task* k : tm->all) delete k;
	for(worker& w : tm->workers) delete[] w.token;
	delete tm;
}

// how many threads a region has is the caller's choice unless it says so
void barrier()
{
	if(!cur) return;
	cur->st = at_barrier;
	__tsan_release(&cur->tm->token[0]);
	++cur->tm->arrived;
	note("arrive", cur->w->num, cur->id);
	yield();
	__tsan_acquire(&cur->tm->token[0]);
	__tsan_acquire(&cur->tm->token[1]);
}

share* enter_share()
{
	quiet q;
	share& s = cur->tm->shares[cur->shares];
	return &s;
}
void leave_share()
{
	quiet q;
	auto i = cur->tm->shares.find(cur->shares);
	++cur->shares;
	if(i != cur->tm->shares.end() && --i->second.left <= 0) cur->tm->shares.erase(i);
}
share loop_share(long long start, long long end, long long incr, long long chunk)
{
	share s = share();
	s.next = start; s.end = end; s.incr = incr; s.chunk = chunk < 1 ? 1 : chunk; s.up = incr > 0; s.set = true;
	return s;
}
share uloop_share(bool up, unsigned long long start, unsigned long long end, unsigned long long incr, unsigned long long chunk)
{
	share s = share();
	s.unext = start; s.uend = end; s.uincr = incr; s.chunk = chunk < 1 ? 1 : (long long)chunk; s.up = up; s.set = true;
	return s;
}
share alone;            // a worksharing loop outside any region
share* current_share() { return cur ? enter_share() : &alone; }

bool loop_next(long* istart, long* iend)
{
	if(cur) yield();
	share* s = current_share();
	if(s->up ? s->next >= s->end : s->next <= s->end) return false;
	long long stop = s->next + s->chunk * s->incr;
	if(s->up ? stop > s->end : stop < s->end) stop = s->end;
	*istart = long(s->next); *iend = long(stop);
	s->next = stop;
	if(cur) note("chunk", cur->w->num, cur->id, int(*istart & 0x7fffffff), cur->shares);
	return true;
}
bool uloop_next(unsigned long long* istart, unsigned long long* iend)
{
	if(cur) yield();
	share* s = current_share();
	if(s->up ? s->unext >= s->uend : s->unext <= s->uend) return false;
	unsigned long long n = s->up ? (s->uend - s->unext + s->uincr - 1) / s->uincr : (s->unext - s->uend + (0 - s->uincr) - 1) / (0 - s->uincr);
	unsigned long long take = std::min<unsigned long long>(n, (unsigned long long)s->chunk);
	unsigned long long stop = take == n ? s->uend : s->unext + take * s->uincr;
	*istart = s->unext; *iend = stop;
	s->unext = stop;
	if(cur) note("chunk", cur->w->num, cur->id, int(*istart & 0x7fffffff), cur->shares);
	return true;
}
bool loop_start(long start, long end, long incr, long chunk, long* istart, long* iend)
{
	share* s = current_share();
	if(!cur || !s->set) { *s = loop_share(start, end, incr, chunk); s->left = cur ? cur->tm->size : 1; }
	return loop_next(istart, iend);
}
bool uloop_start(bool up, unsigned long long start, unsigned long long end, unsigned long long incr, unsigned long long chunk, unsigned long long* istart, unsigned long long* iend)
{
	share* s = current_share();
	if(!cur || !s->set) { *s = uloop_share(up, start, end, incr, chunk); s->left = cur ? cur->tm->size : 1; }
	return uloop_next(istart, iend);
}
task* crit_owner = nullptr;
char crit_token[1];
std::map<void*, task*> locks;
task*& lock_of(void* p) { quiet q; return locks[p]; }
void take(task*& owner, void* token)
{
	while(cur && owner && owner != cur) yield();
	owner = cur;
	__tsan_acquire(token);
}
void give(task*& owner, void* token)
{
	__tsan_release(token);
	owner = nullptr;
}
}

void omprt_set(int threads, const std::vector<unsigned>& choices, bool log)
{
	g_threads = threads; g_choices = choices; g_pos = 0; g_moves = 0; g_log = log; g_events.clear();
}
long omprt_moves() { return g_moves; }
std::vector<std::string> omprt_events() { return g_events; }
bool omprt_active() { return true; }

extern "C"
{
int omprt_reports = 0;
void __tsan_on_report(void*) { ++omprt_reports; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned num_threads, unsigned) { parallel(fn, data, num_threads, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned num_threads, unsigned) { parallel(fn, data, num_threads, nullptr); return num_threads ? num_threads : g_threads; }
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned num_threads, long start, long end, long incr, long chunk, unsigned) \
	{ share s = loop_share(start, end, incr, chunk); parallel(fn, data, num_threads, &s); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned num_threads, long start, long end, long incr, unsigned) \
	{ share s = loop_share(start, end, incr, 1); parallel(fn, data, num_threads, &s); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
#define LOOP(name) bool GOMP_loop_##name##_start(long start, long end, long incr, long chunk, long* i, long* e) { return loop_start(start, end, incr, chunk, i, e); } \
	bool GOMP_loop_##name##_next(long* i, long* e) { return loop_next(i, e); } \
	bool GOMP_loop_ull_##name##_start(bool up, unsigned long long start, unsigned long long end, unsigned long long incr, unsigned long long chunk, unsigned long long* i, unsigned long long* e) { return uloop_start(up, start, end, incr, chunk, i, e); } \
	bool GOMP_loop_ull_##name##_next(unsigned long long* i, unsigned long long* e) { return uloop_next(i, e); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(name) bool GOMP_loop_##name##_start(long start, long end, long incr, long* i, long* e) { return loop_start(start, end, incr, 1, i, e); } \
	bool GOMP_loop_##name##_next(long* i, long* e) { return loop_next(i, e); } \
	bool GOMP_loop_ull_##name##_start(bool up, unsigned long long start, unsigned long long end, unsigned long long incr, unsigned long long* i, unsigned long long* e) { return uloop_start(up, start, end, incr, 1, i, e); } \
	bool GOMP_loop_ull_##name##_next(unsigned long long* i, unsigned long long* e) { return uloop_next(i, e); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end_nowait() { if(cur) leave_share(); }
void GOMP_loop_end() { if(cur) { leave_share(); barrier(); } }
void GOMP_barrier() { barrier(); }

bool GOMP_single_start()
{
	if(!cur) return true;
	yield();
	share* s = enter_share();
	if(!s->set) { s->set = true; s->left = cur->tm->size; s->taken = false; }
	bool mine = !s->taken;
	s->taken = true;
	if(mine) note("single", cur->w->num, cur->id, 0, cur->shares);
	leave_share();
	return mine;
}
unsigned GOMP_sections_start(unsigned count)
{
	if(!cur) { alone = loop_share(1, count + 1, 1, 1); }
	long i, e;
	return loop_start(1, long(count) + 1, 1, 1, &i, &e) ? unsigned(i) : 0;
}
unsigned GOMP_sections_next() { long i, e; return loop_next(&i, &e) ? unsigned(i) : 0; }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned num_threads, unsigned count, unsigned) { share s = loop_share(1, long(count) + 1, 1, 1); parallel(fn, data, num_threads, &s); }
void GOMP_sections_end_nowait() { if(cur) leave_share(); }
void GOMP_sections_end() { if(cur) { leave_share(); barrier(); } }

void GOMP_taskwait()
{
	if(!cur) return;
	if(!cur->live.empty())
	{
		cur->st = waiting;
		cur->wait_group = nullptr;
		note("wait", cur->w->num, cur->id);
		yield();
		note("resume", cur->w->num, cur->id);
	}
	__tsan_acquire(&cur->token[1]);
}
void GOMP_taskyield() { if(cur) yield(); }
void GOMP_taskgroup_start() { quiet q; if(cur) cur->groups.push_back(std::set<task*>()); }
void GOMP_taskgroup_end()
{
	if(!cur) return;
	if(!cur->groups.back().empty())
	{
		cur->st = waiting;
		cur->wait_group = &cur->groups.back();
		yield();
		cur->wait_group = nullptr;
	}
	{ quiet q; cur->groups.pop_back(); }
	__tsan_acquire(&cur->token[2]);
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long arg_size, long arg_align, bool if_clause, unsigned flags, void**, int, void*)
{
	const unsigned FINAL = 2, DEPEND = 8;
	if((flags & DEPEND) && cur) GOMP_taskwait();              // a stronger order than asked for
	if(!cur || !if_clause || (flags & FINAL))
	{
		if(cpyfn)
		{
			std::vector<char> buf(size_t(arg_size + arg_align));
			char* arg = reinterpret_cast<char*>((uintptr_t(buf.data()) + uintptr_t(arg_align) - 1) & ~uintptr_t(arg_align - 1));
			cpyfn(arg, data);
			fn(arg);
		}
		else fn(data);
		return;
	}
	void* arg = nullptr;
	task* k;
	{
	quiet q;
	if(posix_memalign(&arg, size_t(std::max<long>(arg_align, sizeof(void*))), size_t(arg_size ? arg_size : 1))) abort();
	if(cpyfn) cpyfn(arg, data);
	else memcpy(arg, data, size_t(arg_size));
	k = make(cur->tm, cur, fn, arg, false);
	k->own_data = true;
	cur->live.insert(k);
	for(task* p = cur; p; p = p->parent) for(auto& g : p->groups) g.insert(k);
	cur->tm->queue.push_back(k);
	}
	__tsan_release(&k->token[0]);
	note("spawn", cur->w->num, k->id, cur->id);
	cur->creating = true;
	yield();
	cur->creating = false;
}
static void taskloop(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long arg_size, long arg_align, unsigned flags, unsigned long num_tasks, unsigned long long start, unsigned long long n, unsigned long long step)
{
	const unsigned GRAINSIZE = 1 << 9, NOGROUP = 1 << 11;
	if(n == 0) return;
	unsigned long long parts = (flags & GRAINSIZE) ? (num_tasks ? n / num_tasks : n) : (num_tasks ? num_tasks : (unsigned long long)g_threads);
	if(parts > n) parts = n;
	if(parts < 1) parts = 1;
	if(!(flags & NOGROUP)) GOMP_taskgroup_start();
	unsigned long long done_n = 0;
	for(unsigned long long p = 0; p != parts; ++p)
	{
		unsigned long long m = n / parts + (p < n % parts ? 1 : 0);
		char* arg;
		void* mem = nullptr;
		{
			quiet q;
			if(posix_memalign(&mem, 64, size_t(arg_size ? arg_size : 1))) abort();
			arg = static_cast<char*>(mem);
			if(cpyfn) cpyfn(arg, data); else memcpy(arg, data, size_t(arg_size));
			reinterpret_cast<unsigned long long*>(arg)[0] = start + done_n * step;
			reinterpret_cast<unsigned long long*>(arg)[1] = start + (done_n + m) * step;
		}
		done_n += m;
		GOMP_task(fn, arg, nullptr, arg_size, arg_align, true, 0, nullptr, 0, nullptr);
		quiet q;
		free(mem);
	}
	if(!(flags & NOGROUP)) GOMP_taskgroup_end();
}
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long arg_size, long arg_align, unsigned flags, unsigned long num_tasks, int, long start, long end, long step)
{
	unsigned long long n = step > 0 ? (start < end ? (unsigned long long)(end - start + step - 1) / (unsigned long long)step : 0)
		: (start > end ? (unsigned long long)(start - end - step - 1) / (unsigned long long)(-step) : 0);
	taskloop(fn, data, cpyfn, arg_size, arg_align, flags, num_tasks, (unsigned long long)start, n, (unsigned long long)step);
}
void GOMP_taskloop_ull(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long arg_size, long arg_align, unsigned flags, unsigned long num_tasks, int, unsigned long long start, unsigned long long end, unsigned long long step)
{
	const unsigned UP = 1 << 8;
	unsigned long long n = (flags & UP) ? (start < end ? (end - start + step - 1) / step : 0) : (start > end ? (start - end - step - 1) / (0 - step) : 0);
	taskloop(fn, data, cpyfn, arg_size, arg_align, flags, num_tasks, start, n, step);
}
void GOMP_critical_start() { take(crit_owner, crit_token); }
void GOMP_critical_end() { give(crit_owner, crit_token); }
void GOMP_critical_name_start(void** p) { take(lock_of(p), p); }
void GOMP_critical_name_end(void** p) { give(lock_of(p), p); }
void GOMP_atomic_start() { take(crit_owner, crit_token); }
void GOMP_atomic_end() { give(crit_owner, crit_token); }
void omp_init_lock(void* l) { lock_of(l) = nullptr; }
void omp_destroy_lock(void* l) { quiet q; locks.erase(l); }
void omp_set_lock(void* l) { take(lock_of(l), l); }
void omp_unset_lock(void* l) { give(lock_of(l), l); }
int omp_get_num_threads() { return cur ? cur->tm->size : 1; }
int omp_get_thread_num() { return cur ? cur->w->num : 0; }
int omp_get_max_threads() { return g_threads; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return cur != nullptr && cur->tm->size > 1; }
void omp_set_num_threads(int n) { if(n > 0) g_threads = n; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_level() { return cur ? 1 : 0; }
int omp_get_active_level() { return cur ? 1 : 0; }
int omp_get_thread_limit() { return 64; }
int omp_in_final() { return 0; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }
double omp_get_wtick() { return 1e-9; }
}
