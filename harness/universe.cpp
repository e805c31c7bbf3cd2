// Generated universes. stdin: new | clear | other <k> <how> | make <n> <3 sides in 1/64> <power of two: side * 2^p, 0 unless tiny>
#include "hcommon.h"
#include <memory>
#include <unistd.h>
#include <QCryptographicHash>

typedef long double ld;
struct v3 { ld x, y, z; };
static v3 rel(const nbvertex_t& a, const nbvertex_t& b) { return {ld(a.x) - b.x, ld(a.y) - b.y, ld(a.z) - b.z}; }
static ld dot(const v3& a, const v3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static ld len(const v3& a) { return sqrtl(dot(a, a)); }
static long long cap(ld x) { return x == x && fabsl(x) < 2e9L ? (long long)llroundl(x) : 2000000000LL; }
// mass2 / r^2, softened
static ld accel(ld m, ld r) { ld r2 = r * r; if(r2 < 1e-8L) r2 = 1e-8L; return r * m / (r2 * sqrtl(r2)); }

int main()
{
	qInstallMessageHandler(quiet_messages);
	std::unique_ptr<nbody_data> d(new nbody_data);
	std::map<std::string, int> ids;
	std::string line, cmd;
	while(std::getline(std::cin, line))
	{
		std::istringstream in(line);
		in >> cmd;
		if(cmd == "new") { d.reset(new nbody_data); ev("new").out(); }
		else if(cmd == "clear") { d->clear(); ev("clear").num("count", (long long)d->get_count()).out(); }
		else if(cmd == "other")
		{
			size_t k; std::string how;
			in >> k >> how;
			if(how == "add") for(size_t i = 0; i != k; ++i) d->add_body(nbvertex_t(1, 2, double(i)), nbvertex_t(3, 4, 5), 6, nbcolor_t(.1f, .2f, .3f, .4f), 7);
			else if(how == "resize") d->resize(k);
			else { d->add_body(nbvertex_t(9, 9, 9), nbvertex_t(9, 9, 9), 9, nbcolor_t(9, 9, 9, 9), 9); d->set_time(double(k)); d->set_step(k); d->set_box_size(k); d->print_statistics(nullptr); }
			ev("other").num("count", (long long)d->get_count()).out();
		}
		else if(cmd == "make")
		{
			size_t n; long long s[3]; int p;
			in >> n >> s[0] >> s[1] >> s[2] >> p;
			double side[3];
			for(int k = 0; k != 3; ++k) side[k] = std::ldexp(double(s[k]), p - 6);
			d->make_universe(n, side[0], side[1], side[2]);
			const size_t cnt = d->get_count();
			const nbvertex_t* r = d->get_vertites(); const nbvertex_t* v = d->get_velosites(); const nbcoord_t* m = d->get_mass(); const nbcolor_t* col = d->get_color();
			QString tmp(QDir::tempPath() + "/verif-universe-" + QString::number(getpid()));
			QCryptographicHash h(QCryptographicHash::Sha1);
			h.addData((const char*)r, int(cnt * sizeof(*r))); h.addData((const char*)v, int(cnt * sizeof(*v)));
			h.addData((const char*)m, int(cnt * sizeof(*m))); h.addData((const char*)col, int(cnt * sizeof(*col)));
			size_t lines = 0;
			{	// the radii, and that nothing else is held, are seen in a saved file
				bool saved = d->save(tmp);
				QFile f(tmp); f.open(QFile::ReadOnly); QByteArray all(f.readAll());
				h.addData(all); lines = saved ? size_t(all.count('\n')) : size_t(-1);
				f.close(); QFile::remove(tmp);
			}
			std::string key(h.result().toHex().constData());
			int id = ids.emplace(key, int(ids.size()) + 1).first->second;
			std::string g("[");
			const ld R = ld(side[0]) / 2;
			bool opposite = false;
			if(cnt >= 2 && cnt % 2 == 0)
			{
				size_t half = cnt / 2;
				opposite = v[0].x == -v[half].x && v[0].y == -v[half].y && v[0].z == -v[half].z;
				for(int k = 0; k != 2; ++k)
				{
					size_t a = k * half, b = a + half;
					ld total = 0, hole = m[a], far = 0, speed = 0, angle = 0;
					bool same = true, finite = true, positive = true;
					// the drift of the galaxy: a third of the circular speed of two masses 1000 a radius apart
					ld drift = sqrtl(1000 * 1000 * accel(1, R) * R / 2000) / 3;
					ld dd = std::max(fabsl(ld(v[a].y) / drift - (k == 0 ? 1 : -1)), std::max(fabsl(v[a].x), fabsl(v[a].z)) / drift);
					const ld stars = 1, bh = 999;
					for(size_t i = a; i != b; ++i)
					{
						for(double x : {r[i].x, r[i].y, r[i].z, v[i].x, v[i].y, v[i].z, m[i]}) finite = finite && std::isfinite(x);
						positive = positive && m[i] > 0;
						total += m[i];
						if(i == a) continue;
						same = same && m[i] == m[a + 1] && !memcmp(&col[i], &col[a + 1], sizeof(col[i]));
						v3 q = rel(r[i], r[a]), w = rel(v[i], v[a]);
						ld rl = len(q), full = sqrtl(q.x * q.x + q.y * q.y + q.z * q.z / 0.09L);
						far = std::max(far, std::max(rl, full) / R);
						ld want = sqrtl(accel(bh + stars * powl(full / R, 3), rl) * rl);
						speed = std::max(speed, fabsl(len(w) / want - 1));
						angle = std::max(angle, fabsl(dot(q, w)) / (rl * len(w)));
						if(!(speed == speed && angle == angle)) finite = false;
					}
					ld cx = k == 0 ? 0 : ld(side[0]);
					ld off = std::max(fabsl(r[a].x - cx), std::max(fabsl(r[a].y - ld(side[1]) / 2), fabsl(r[a].z - ld(side[2]) / 2)));
					ld big = std::max(side[0], std::max(side[1], side[2]));
					std::ostringstream o;
					o << (k ? "," : "") << "{\"hole\":[" << cap(ld(r[a].x) * 128) << "," << cap(ld(r[a].y) * 128) << "," << cap(ld(r[a].z) * 128) << "],\"offcentre\":" << cap(off / big * 1e9L)
					  << ",\"mass\":" << cap(total * 1e6L) << ",\"holemass\":" << cap(hole * 1e6L) << ",\"far\":" << cap(ceill(far * 1e6L)) << ",\"speed\":" << cap(speed * 1e9L)
					  << ",\"angle\":" << cap(angle * 1e9L) << ",\"drift\":" << cap(dd * 1e9L) << ",\"same\":" << (same ? "true" : "false") << ",\"finite\":" << (finite ? "true" : "false") << ",\"positive\":" << (positive ? "true" : "false") << "}";
					g += o.str();
				}
			}
			std::ostringstream q;
			q << "{\"n\":" << n << ",\"s\":[" << (p ? 0 : s[0]) << "," << (p ? 0 : s[1]) << "," << (p ? 0 : s[2]) << "],\"tiny\":" << (p ? "true" : "false") << ",\"id\":\"" << s[0] << " " << s[1] << " " << s[2] << " " << p << "\"}";
			ev("make").raw("q", q.str()).num("count", (long long)cnt).num("sizes", (long long)lines).num("box", (long long)d->get_box_size()).num("id", id).flag("opposite", opposite).raw("g", g + "]").out();
		}
		else return 2;
	}
	return 0;
}
